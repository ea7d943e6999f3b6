package main

import (
	"bytes"
	"encoding/json"
	"path"
	"strconv"
	"strings"

	"github.com/mlnoga/nightlight/internal/fits"
	"github.com/mlnoga/nightlight/internal/ops"
	"github.com/mlnoga/nightlight/internal/ops/post"
	"github.com/mlnoga/nightlight/internal/ops/pre"
	"github.com/mlnoga/nightlight/internal/ops/ref"
	"github.com/mlnoga/nightlight/internal/zzverif/vsim"
)

// P13: which files a job touches.
func init() {
	register(&Prop{ID: "P13", Quick: 20000, Rule: "Each case draws either a job with its inputs, disk faults and a schedule, whose file accesses are compared with the files it names; or file names and patterns inside and outside the working directory, used by all operators that load files, in a job built directly or from JSON; or a save pattern and frames with drawn ids, whose output names are compared with a model of the expansion. Non-trivial: several frames or a name outside the directory.", Run: runP13})
}

func runP13(c *Case) {
	switch c.Int("part", 0, 3) {
	case 0, 1:
		p13footprint(c)
	case 2:
		p13contain(c)
	case 3:
		p13names(c)
	}
}

func p13footprint(c *Case) {
	dir := c.PickS("dir", "", "", "sub/")
	j := drawJob(c, "job", dir, true)
	fs := vsim.NewFS()
	j.put(fs)
	faulty := c.Bool("faulty", 1, 3)
	plan := &vsim.FaultPlan{Kinds: map[string]float64{}, Max: 2}
	if faulty {
		p := []float64{0.02, 0.1, 0.3}[c.Int("rate", 0, 2)]
		for _, f := range []string{"open-eio", "create-eacces", "create-enospc", "read-eio", "write-eio", "write-enospc", "close-eio"} {
			plan.Kinds[f] = p
		}
	}
	var err error
	res := c.Sim("job", Opt{Explore: true, FS: fs, Plan: plan, NumCPU: c.Int("cpu", 1, 4), LS: j.ls}, func() { _, err = j.run(vsim.NewLogSink()) })
	outs, ins := map[string]int{}, map[string]int{}
	for _, p := range j.outNames() {
		outs["/work/"+p] = 0
	}
	for _, p := range append(append([]string{}, j.inputs...), j.other...) {
		ins["/work/"+p] = 0
	}
	for _, a := range fs.Acc {
		switch a.Op {
		case "open-r":
			if _, ok := ins[a.Path]; !ok {
				c.Fail("read", "%s job opened %s, which it was not told to read", j.kind, a.Path)
			}
			ins[a.Path]++
		case "open-w", "create", "write":
			if _, ok := outs[a.Path]; !ok {
				c.Fail("write", "%s job wrote %s; its outputs are %v", j.kind, a.Path, j.outNames())
			}
			if a.Op != "write" {
				outs[a.Path]++
			}
		case "remove", "rename", "mkdir", "truncate":
			if _, ok := outs[a.Path]; !ok {
				c.Fail("write", "%s job: %s of %s", j.kind, a.Op, a.Path)
			}
		}
	}
	for p, b := range j.files {
		if g, ok := fs.Get(p); !ok || !bytes.Equal(g, b) {
			c.Fail("input-changed", "%s job changed %s", j.kind, p)
		}
	}
	for _, p := range fs.List() {
		if _, ok := outs[p]; !ok && j.files[strings.TrimPrefix(p, "/work/")] == nil {
			c.Fail("stray-file", "%s job left a file %s; its outputs are %v", j.kind, p, j.outNames())
		}
	}
	if len(j.inputs) > 1 {
		c.Nontrivial()
	}
	if err != nil {
		if res.Hard() == 0 {
			c.Probe("job fails: " + j.kind)
		} else {
			c.Probe("failed by fault")
		}
		return
	}
	for p, n := range ins {
		if n == 0 {
			c.Fail("not-read", "%s job succeeded without opening %s", j.kind, p)
		}
	}
	for p, n := range outs {
		if j.drops && n == 0 { // for a frame left out
			continue
		}
		if _, ok := fs.Get(p); !ok || n == 0 {
			c.Fail("not-written", "%s job succeeded without writing %s", j.kind, p)
		}
		if n > 1 && !strings.Contains(p, "batch") {
			c.Fail("written-twice", "%s job wrote %s %d times", j.kind, p, n)
		}
	}
	c.Probe("job " + j.kind)
}

func p13contain(c *Case) {
	r := c.Rand("contain")
	fs := vsim.NewFS()
	w, h := 9, 8
	mk := func(v float32) []byte {
		d := randData(r, w*h, 0.2, 0.5)
		d[0] = v
		return fitsF32(w, h, d, "5.0")
	}
	inside := []string{"a.fits", "light0.fits", "light1.fits", "sub/light2.fits", "sub/deep/light3.fits", "x.y.fits"}
	for i, p := range inside {
		fs.Put(p, mk(float32(i)))
	}
	outside := []string{"/etc/secret.fits", "/secret.fits", "/work2/light0.fits", "/other/sub/light2.fits"}
	for i, p := range outside {
		fs.Put(p, mk(float32(100+i)))
	}
	good := []string{"a.fits", "./a.fits", "sub/light2.fits", "sub//light2.fits", "./sub/deep/light3.fits", "x.y.fits"}
	bad := []string{"/etc/secret.fits", "/secret.fits", "../secret.fits", "../work2/light0.fits", "sub/../../secret.fits", "./../etc/secret.fits", "sub/deep/../../../other/sub/light2.fits", "//etc/secret.fits", "/work/../secret.fits", "../etc/../secret.fits"}
	badPat := []string{"/etc/*.fits", "../*.fits", "../*/light0.fits", "/*/light0.fits", "sub/../../*.fits", "../wor*/*.fits", "/work2/*", "*/../../*.fits", "/etc/secret.fits", "../secret.fits", "[.][.]/secret.fits", "sub/*/../../../secret.fits"}
	isBad := c.Bool("bad", 2, 3)
	name := good[r.N(len(good))]
	if isBad {
		name = bad[r.N(len(bad))]
		c.Nontrivial()
	}
	how := c.PickS("how", "load", "loadMany", "dark", "flat", "ref", "alignref")
	sd := pre.NewOpStarDetect(2, 3, 0, 0, "")
	light := ops.NewOpLoadMany([]string{"light*.fits"})
	var op *ops.OpSequence
	var want []string // files that must be read in a success
	switch how {
	case "load":
		op = ops.NewOpSequence(ops.NewOpLoad(1, name))
		want = []string{name}
	case "loadMany":
		pats := []string{}
		for k := c.Int("pats", 1, 3); k > 0; k-- {
			switch {
			case isBad && (k == 1 || r.N(2) == 0):
				pats = append(pats, badPat[r.N(len(badPat))])
			case r.N(2) == 0:
				pats = append(pats, "sub/*.fits")
				want = append(want, "sub/light2.fits")
			default:
				pats = append(pats, "light?.fits")
				want = append(want, "light0.fits", "light1.fits")
			}
		}
		name = strings.Join(pats, " ")
		op = ops.NewOpSequence(ops.NewOpLoadMany(pats))
	case "dark":
		op = ops.NewOpSequence(light, pre.NewOpCalibrate(name, ""))
		want = []string{"light0.fits", "light1.fits", name}
	case "flat":
		op = ops.NewOpSequence(light, pre.NewOpCalibrate("a.fits", name))
		want = []string{"light0.fits", "light1.fits", "a.fits", name}
	case "ref":
		op = ops.NewOpSequence(light, ref.NewOpSelectReference(ref.SRHisto, name, sd), post.NewOpMatchHistogram(post.HNMLocation))
		want = []string{"light0.fits", "light1.fits", name}
	case "alignref":
		op = ops.NewOpSequence(light, sd, ref.NewOpSelectReference(ref.SRAlign, name, sd))
		want = []string{"light0.fits", "light1.fits", name}
	}
	if c.Bool("json", 1, 2) {
		b, err := json.Marshal(op)
		if err != nil {
			c.Fail("json", "%v", err)
		}
		op = ops.NewOpSequence()
		if err = json.Unmarshal(b, op); err != nil {
			c.Fail("json", "%v", err)
		}
	}
	var outs []*fits.Image
	var err error
	c.Sim("job", Opt{Explore: true, FS: fs, NumCPU: c.Int("cpu", 1, 3), LS: 1}, func() {
		outs, err = runJob(op, nil, newCtx(vsim.NewLogSink(), 100), false)
	})
	read := map[string]int{}
	for _, a := range fs.Acc {
		if a.Op == "open-r" && a.Err == "" {
			read[a.Path]++
			if !strings.HasPrefix(a.Path, "/work/") {
				c.Fail("escaped", "%s %q read %s outside the working directory (error %v)", how, name, a.Path, err)
			}
		}
		if a.Op == "open-w" || a.Op == "create" || a.Op == "remove" || a.Op == "rename" {
			c.Fail("escaped", "%s %q: %s of %s", how, name, a.Op, a.Path)
		}
	}
	for _, f := range outs {
		if f != nil && f.Data[0] >= 100 {
			c.Fail("escaped", "%s %q delivered an image from outside the working directory", how, name)
		}
	}
	if isBad && how != "loadMany" && err == nil {
		c.Fail("accepted", "%s %q outside the working directory was accepted", how, name)
	}
	if isBad && how == "loadMany" && len(want) == 0 && err == nil {
		c.Fail("accepted", "%s %q outside the working directory was accepted", how, name)
	}
	if !isBad || how == "loadMany" && len(want) > 0 {
		if err != nil {
			c.Fail("refused", "%s %q: %v", how, name, err)
		}
		for _, p := range want {
			if read[path.Join("/work", p)] == 0 {
				c.Fail("not-read", "%s %q did not read %s", how, name, p)
			}
		}
		if how == "loadMany" && len(outs) != len(want) {
			c.Fail("count", "%s %q delivered %d images instead of %d", how, name, len(outs), len(want))
		}
		c.Probe("accepted " + how)
	} else {
		c.Probe("refused " + how)
	}
}

// expandModel replaces % digits d by the padded number; all other text is kept.
func expandModel(p string, id int) string {
	out := ""
	for i := 0; i < len(p); i++ {
		if p[i] == '%' {
			k := i + 1
			for k < len(p) && p[k] >= '0' && p[k] <= '9' {
				k++
			}
			if k < len(p) && p[k] == 'd' {
				t := p[i+1 : k]
				zero := strings.HasPrefix(t, "0")
				n, _ := strconv.Atoi("0" + t)
				s := strconv.Itoa(id)
				for len(s) < n {
					if zero {
						s = "0" + s
					} else {
						s = " " + s
					}
				}
				out += s
				i = k
				continue
			}
		}
		out += p[i : i+1]
	}
	return out
}

func p13names(c *Case) {
	r := c.Rand("names")
	n := c.Int("n", 1, 5)
	if c.Bool("many", 1, 20) {
		n += 8
	}
	parts := []string{"out", "a", "%d", "%03d", "%04d", "%2d", "%", "%%", "%s", "%x", "d", "50%", "-", "%1d", "dir/", ".", "%d_%d", "é", "#", "%012d"}
	pat := []string{"o", "o%d", "%d", "%05d"}[r.N(4)]
	for k := r.N(5); k > 0; k-- {
		pat += parts[r.N(len(parts))]
	}
	id0 := []int{0, 1, 8, 97, 998, 12345}[r.N(6)]
	if n > 1 && expandModel(pat, 1) == expandModel(pat, 2) {
		pat = "%d" + pat
	}
	good := []string{".fits", ".fit", ".fts", ".fits.gz", ".fit.gzip", ".FITS", ".tif", ".TIFF", ".jpg", ".Jpeg"}
	ext := good[r.N(len(good))]
	badExt := c.Bool("badext", 1, 6)
	if badExt {
		ext = []string{".png", ".gz", ".fitsx", "", ".fits ", ".tif.gz", ".txt", "fits"}[r.N(8)]
	}
	if pat += ext; badExt {
		l := strings.TrimSuffix(strings.TrimSuffix(strings.ToLower(pat), ".gz"), ".gzip")
		for _, x := range []string{".fits", ".fit", ".fts", ".tif", ".tiff", ".jpg", ".jpeg"} {
			if strings.HasSuffix(l, x) && (l == strings.ToLower(pat) || x[1] == 'f') {
				return
			}
		}
	}
	fs := vsim.NewFS()
	for i := 0; i < n; i++ {
		if x := expandModel(pat, id0+i*3); strings.Contains(x, "/") {
			fs.Put(path.Join(path.Dir(x), "keep"), []byte("k"))
		}
	}
	c.Mix(hstr(pat))
	var data [][]float32
	w, h := 5, 4
	for i := 0; i < n; i++ {
		data = append(data, randData(r, w*h, 0, 1))
	}
	var err error
	c.Sim("save", Opt{Explore: true, FS: fs, NumCPU: c.Int("cpu", 1, 4), LS: 1}, func() {
		var ps []ops.Promise
		for i := 0; i < n; i++ {
			f := mkImg(id0+i*3, w, h, clone32(data[i]))
			ps = append(ps, promiseOf(f))
		}
		_, err = runJob(ops.NewOpSave(pat, ops.EM0_1, 1), ps, newCtx(vsim.NewLogSink(), 100), false)
	})
	if n > 1 {
		c.Nontrivial()
	}
	have := map[string]bool{}
	for _, p := range fs.List() {
		if !strings.HasSuffix(p, "/keep") {
			have[p] = true
		}
	}
	if badExt {
		if err == nil || len(have) > 0 {
			c.Fail("suffix", "saving as %q: error %v, files %v", pat, err, fs.List())
		}
		c.Probe("suffix refused")
		return
	}
	if err != nil {
		c.Fail("error", "saving as %q: %v", pat, err)
	}
	for i := 0; i < n; i++ {
		x := expandModel(pat, id0+i*3)
		b, ok := fs.Get(x)
		if !ok {
			c.Fail("name", "frame %d saved as %q: no file %q but %v", id0+i*3, pat, x, fs.List())
		}
		delete(have, path.Join("/work", x))
		if msg := checkSaved(x, b, mkImg(0, w, h, clone32(data[i])), data[i], 0, 1, 1); msg != "" {
			c.Fail("content", "frame %d saved as %q: %s", id0+i*3, x, msg)
		}
	}
	for p := range have {
		c.Fail("stray-file", "saving as %q left %s", pat, p)
	}
	c.Probe("names checked")
}
