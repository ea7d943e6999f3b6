package main

import (
	"bytes"
	"fmt"
	"image"
	"image/color"
	"sort"
	"strings"

	"github.com/mlnoga/nightlight/internal/fits"
	"github.com/mlnoga/nightlight/internal/ops"
	"github.com/mlnoga/nightlight/internal/ops/post"
	"github.com/mlnoga/nightlight/internal/ops/pre"
	"github.com/mlnoga/nightlight/internal/ops/ref"
	"github.com/mlnoga/nightlight/internal/ops/stack"
	"github.com/mlnoga/nightlight/internal/ops/stretch"
	"github.com/mlnoga/nightlight/internal/zzverif/vsim"
	"golang.org/x/image/tiff"
)

// job is a complete job: input files and an operator tree that can be built any number of times.
// All file names have the prefix dir, so several jobs can share one disk.
type job struct {
	kind   string
	dir    string // "" or a directory with slash
	files  map[string][]byte
	inputs []string // light files in the order of their ids
	other  []string // masters and other files read
	mk     func() ops.Operator
	mem    int
	ls     int
	// output name patterns: those with a number verb are written per frame
	perFrame []string // for every frame that gets there
	single   []string // exactly once by a job that succeeds
	html     []string // statistics files, whose line order may vary
	drops    bool     // frames may be left out
}

func (j *job) put(fs *vsim.FS) {
	var ks []string
	for k := range j.files {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fs.Put(k, j.files[k])
	}
}

func (j *job) outNames() (names []string) {
	for _, p := range j.perFrame {
		for i := range j.inputs {
			names = append(names, idName(p, i))
		}
	}
	return append(append(names, j.single...), j.html...)
}

// idName is the documented expansion of a save pattern.
func idName(p string, id int) string {
	if !strings.Contains(p, "%") {
		return p
	}
	return fmt.Sprintf(p, id)
}

// digest describes all files on the disk; statistics files line order independent.
func (j *job) digest(fs *vsim.FS) map[string]string {
	m := map[string]string{}
	for _, p := range fs.List() {
		b, _ := fs.Get(p)
		m[p] = j.fileDigest(p, b)
	}
	return m
}

func (j *job) fileDigest(p string, b []byte) string {
	for _, h := range j.html {
		if p == "/work/"+h {
			ls := strings.Split(string(b), "\n")
			sort.Strings(ls)
			return fmt.Sprintf("lines %d %x", len(ls), hashBytes([]byte(strings.Join(ls, "\n"))))
		}
	}
	return fileDigest(p, b)
}

var jobKinds = []string{"batches", "stack", "stack", "stats", "stretch", "rgb"}

// drawJob draws a job whose knobs start with nm.
func drawJob(c *Case, nm, dir string, cheap bool) *job {
	kind := "frames"
	if k := c.Int(nm+".kind", 0, 47); k >= 42 || !cheap && k >= 24 {
		kind = jobKinds[k%len(jobKinds)]
	}
	j := &job{kind: kind, dir: dir, files: map[string][]byte{}, mem: 2000, ls: 2}
	switch kind {
	case "frames", "batches":
		drawFramesJob(c, nm, j)
	default:
		drawCommandJob(c, nm, j)
	}
	return j
}

func drawFramesJob(c *Case, nm string, j *job) {
	n := c.Int(nm+".n", 1, 6)
	w, h := c.Int(nm+".w", 8, 24), c.Int(nm+".h", 8, 20)
	j.ls = c.Pick(nm+".ls", 1, 1, 2, 3)
	if j.kind == "batches" {
		n, w, h = c.Int(nm+".nb", 5, 8), 190+c.Int(nm+".wb", 0, 12), 200
		j.mem = 1
		j.ls = 1
	}
	r := c.Rand(nm + ".pix")
	ext := c.PickS(nm+".ext", ".fits", ".fits", ".fits.gz", ".fit", ".tif")
	dark, flat := c.Bool(nm+".dark", 1, 4), c.Bool(nm+".flat", 1, 4)
	for i := 0; i < n; i++ {
		d := randData(r, w*h, 0.1, 0.6)
		for k := 0; k < 4; k++ {
			d[r.N(len(d))] = 0.9
		}
		b := fitsF32(w, h, d, fmt.Sprintf("%d.5", 10+i), "OBJECT  = 'M 31    '")
		if strings.HasSuffix(ext, "gz") {
			b = gz(b)
		}
		if ext == ".tif" {
			b = tiffGray16(w, h, d)
		}
		p := fmt.Sprintf("%slight%02d%s", j.dir, i, ext)
		j.files[p] = b
		j.inputs = append(j.inputs, p)
	}
	dn, fn := "", ""
	if dark {
		dn = j.dir + "dark.fits"
		dw, dh := w, h
		if c.Bool(nm+".turned", 1, 5) { // a master with as many pixels in other dimensions is used with a warning
			dw, dh = h, w
		}
		j.files[dn] = fitsF32(dw, dh, randData(r, w*h, 0.01, 0.02), "10.0")
		j.other = append(j.other, dn)
	}
	if flat {
		fn = j.dir + "flat.fits"
		j.files[fn] = fitsF32(w, h, randData(r, w*h, 0.7, 1), "10.0")
		j.other = append(j.other, fn)
	}
	// frames beside the ones the pattern names
	j.files[j.dir+"Light99.fits"] = fitsF32(w, h, randData(r, w*h, 0, 1), "1.0")
	j.files[j.dir+"notes.txt"] = []byte("not an image")
	pats := []string{j.dir + "light*"}
	switch c.Int(nm+".pat", 0, 3) {
	case 1:
		pats = nil
		for _, p := range j.inputs {
			pats = append(pats, p)
		}
	case 2:
		pats = []string{j.dir + "light0[0-2]" + ext, j.dir + "light0[3-9]*"}
	}
	steps := make([]int, c.Int(nm+".steps", 1, 6))
	for k := range steps {
		steps[k] = c.Int(fmt.Sprintf("%s.step%d", nm, k), 0, 19)
	}
	exts := make([]string, len(steps)+3)
	for k := range exts {
		exts[k] = c.PickS(fmt.Sprintf("%s.ext%d", nm, k), ".fits", ".fits.gz", ".tif", ".jpg", ".fts")
	}
	end := c.Int(nm+".end", 0, 2) // 0 nothing, 1 stack, 2 stack in batches
	if j.kind == "batches" {
		end = 2
	}
	mode := stack.StackMode(c.Pick(nm+".mode", int(stack.StMean), int(stack.StMedian), int(stack.StSigma), int(stack.StAuto), int(stack.StWinsorSigma)))
	weight := stack.StackWeighting(stack.StWeightNone)
	if mode != stack.StMedian && mode != stack.StAuto && c.Bool(nm+".weight", 1, 3) {
		weight = stack.StWeightExposure
	}
	batchSave := c.Bool(nm+".batchsave", 1, 2)
	var perFrame, single, html []string
	first := true
	j.mk = func() ops.Operator {
		sd := pre.NewOpStarDetect(2, 3, 0, 0, "")
		var seq []ops.Operator
		haveRef, haveStats := false, false
		pf := func(name string, k int) string {
			verb := []string{"%d", "%02d", "%05d"}[k%3]
			p := j.dir + name + verb + exts[k]
			if first {
				perFrame = append(perFrame, p)
			}
			return p
		}
		if dark || flat {
			seq = append(seq, pre.NewOpCalibrate(dn, fn))
		}
		for k, s := range steps {
			switch s {
			case 0:
				seq = append(seq, pre.NewOpScaleOffset(0.9, 0.01))
			case 1:
				seq = append(seq, stretch.NewOpGamma(1.1))
			case 2:
				seq = append(seq, stretch.NewOpMidtones(0.4, 0.01))
			case 3:
				seq = append(seq, stretch.NewOpNormalizeRange())
			case 4:
				seq = append(seq, pre.NewOpBadPixel(3, 5, nil))
			case 5:
				seq = append(seq, pre.NewOpDebandHoriz(50, 4, 3))
			case 6:
				seq = append(seq, stretch.NewOpGaussianBlur(0.8))
			case 7:
				if !haveRef {
					seq = append(seq, ref.NewOpSelectReference(ref.SRHisto, "0", sd))
				}
				haveRef = true
				seq = append(seq, post.NewOpMatchHistogram(post.HNMLocation))
			case 8:
				seq = append(seq, pre.NewOpStarDetect(2, 3, 0, 0, j.dir+strings.TrimPrefix(pf(fmt.Sprintf("s%d_", k), k), j.dir)))
			case 9:
				seq = append(seq, sd, pre.NewOpBackExtract(5, 2, 1.5, 0, pf(fmt.Sprintf("b%d_", k), k)))
			case 10, 14:
				if !haveStats {
					seq = append(seq, ref.NewOpExportStats(j.dir+"out.html"))
					if first {
						html = append(html, j.dir+"out.html")
					}
				}
				haveStats = true
			case 11, 12, 13:
				seq = append(seq, ops.NewOpSave(pf(fmt.Sprintf("f%d_", k), k), ops.EMMinMax, 1))
			case 16:
				seq = append(seq, pre.NewOpBin(2))
			case 17:
				seq = append(seq, pre.NewOpDebayer("G", "RGGB"))
			case 18:
				seq = append(seq, stretch.NewOpStretchIterative(0.2, 0.02))
			case 19:
				seq = append(seq, stretch.NewOpScaleBlack(0.3))
			case 15:
				seq = append(seq, stretch.NewOpUnsharpMask(1, 0.5, 0.1))
			}
		}
		var all []ops.Operator
		all = append(all, ops.NewOpLoadMany(pats))
		switch end {
		case 0:
			all = append(all, seq...)
			if len(steps) > 0 && steps[0] > 7 {
				all = append(all, ops.NewOpSave(pf("last", len(steps)), ops.EM0_1, 1))
			}
		case 1:
			all = append(all, seq...)
			all = append(all, stack.NewOpStack(mode, weight, 2, 2))
		case 2:
			seq = append(seq, stack.NewOpStack(mode, weight, 2, 2))
			if batchSave {
				// all batches are saved under the same name, the last one remains
				p := j.dir + "batch" + exts[len(steps)+1]
				seq = append(seq, ops.NewOpSave(p, ops.EMMinMax, 1))
				if first {
					single = append(single, p)
				}
			}
			all = append(all, stack.NewOpStackBatches(ops.NewOpSequence(seq...)))
		}
		if end > 0 {
			p := j.dir + "out" + exts[len(steps)+2]
			all = append(all, ops.NewOpSave(p, ops.EMMinMax, 1))
			if first {
				single = append(single, p)
			}
		}
		first = false
		return ops.NewOpSequence(all...)
	}
	j.mk()
	j.perFrame, j.single, j.html = perFrame, single, html
}

func drawCommandJob(c *Case, nm string, j *job) {
	r := c.Rand(nm + ".cmd")
	n := c.Int(nm+".n", 2, 4)
	if j.kind == "rgb" {
		n = 3 + c.Int(nm+".lum", 0, 1)
	}
	if j.kind == "stretch" {
		n = 1
	}
	s := makeScene(r, sceneOpt{N: n, W: c.Int(nm+".w", 48, 56), H: c.Int(nm+".h", 44, 52), NStars: 7, Shift: 2, Dark: c.Bool(nm+".dark", 1, 2), Flat: c.Bool(nm+".flat", 1, 2), GainSpread: 0.1, NoiseSpread: 0.5, Cosmics: 4})
	if j.kind == "rgb" || j.kind == "stretch" {
		s.Dark, s.Flat = nil, nil
	}
	fs := vsim.NewFS()
	s.write(fs, j.dir+"light")
	for _, p := range fs.List() {
		b, _ := fs.Get(p)
		q := strings.TrimPrefix(p, "/work/")
		if q == "dark.fits" || q == "flat.fits" {
			q = j.dir + q
			j.other = append(j.other, q)
		} else {
			j.inputs = append(j.inputs, q)
		}
		j.files[q] = b
	}
	opt := func(p string, num, den int) string {
		if r.N(den) < num {
			return j.dir + p
		}
		return ""
	}
	pf := func(p string) string {
		if p != "" {
			j.perFrame = append(j.perFrame, p)
		}
		return p
	}
	one := func(p string) string {
		if p != "" {
			j.single = append(j.single, p)
		}
		return p
	}
	switch j.kind {
	case "stack", "stats":
		j.drops = true
		g := defStackCfg()
		if s.Dark != nil {
			g.Dark = j.dir + "dark.fits"
		}
		if s.Flat != nil {
			g.Flat = j.dir + "flat.fits"
		}
		g.HistoRef = []string{"%starsHFR", "%location", "1"}[r.N(3)]
		g.AlignRef = []string{"%starsHFR", "%location", "0"}[r.N(3)]
		g.NormHist = []post.HistoNormMode{post.HNMLocScale, post.HNMLocation, post.HNMNone, post.HNMLocBlack}[r.N(4)]
		g.Mode = []stack.StackMode{stack.StAuto, stack.StMedian, stack.StMean, stack.StSigma, stack.StWinsorSigma, stack.StLinearFit}[r.N(6)]
		if r.N(4) == 0 {
			g.BackGrid = 16
			g.Back = pf(opt("back%02d.fits", 1, 2))
		}
		g.Pre, g.Stars = pf(opt("pre%03d.fits", 1, 2)), pf(opt("stars%d.tif", 1, 3))
		g.Patterns = []string{j.dir + "light*.fits*"}
		g.Stats = opt("out.html", 1, 2)
		if g.Stats != "" {
			j.html = append(j.html, g.Stats)
		}
		g.Out = ""
		if j.kind == "stack" {
			g.Post = pf(opt("post%d.fits.gz", 1, 2))
			g.Batch = one(opt("batch.fits", 1, 3))
			g.Out, g.Tiff, g.Jpg = one(j.dir+"out.fits"), one(opt("out.tif", 1, 2)), one(opt("out.jpg", 1, 2))
			g.Stars = ""
			for k := len(j.perFrame) - 1; k >= 0; k-- {
				if strings.Contains(j.perFrame[k], "stars") {
					j.perFrame = append(j.perFrame[:k], j.perFrame[k+1:]...)
				}
			}
			j.mk = func() ops.Operator { return g.stackOps() }
		} else {
			j.mk = func() ops.Operator { return g.statsOps() }
		}
	case "stretch":
		o, t, q := one(j.dir+"out.fits"), one(opt("out.tif", 1, 2)), one(opt("out.jpg", 1, 2))
		in := j.inputs[0]
		j.mk = func() ops.Operator { return stretchOps(in, o, t, q) }
	case "rgb":
		o, t, q := one(j.dir+"out.fits"), one(opt("out.tif", 1, 2)), one(opt("out.jpg", 1, 2))
		in := []string{j.dir + "light*.fits"}
		j.mk = func() ops.Operator { return rgbOps(in, o, t, q) }
	}
}

// jobRun evaluates the job once; it must be called inside a simulation.
func (j *job) run(log *vsim.LogSink) (outs []string, err error) {
	ctx := newCtx(log, j.mem)
	res, err := runJob(j.mk(), nil, ctx, false)
	for _, f := range res {
		outs = append(outs, imgText(f))
	}
	return outs, err
}

func imgText(f *fits.Image) string {
	return fmt.Sprintf("%d %v %x exposure %g stars %d", f.ID, f.Naxisn, hashBytes(f32bytes(f.Data)), f.Exposure, len(f.Stars))
}

// tiffGray16 encodes values from 0 to 1.
func tiffGray16(w, h int, d []float32) []byte {
	g := image.NewGray16(image.Rect(0, 0, w, h))
	for i, v := range d {
		g.SetGray16(i%w, i/w, color.Gray16{Y: uint16(v * 65535)})
	}
	var b bytes.Buffer
	tiff.Encode(&b, g, nil)
	return b.Bytes()
}
