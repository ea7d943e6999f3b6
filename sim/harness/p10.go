package main

import (
	"bytes"
	"fmt"
	"image"
	"image/jpeg"
	"math"
	"strings"

	"github.com/mlnoga/nightlight/internal/fits"
	"github.com/mlnoga/nightlight/internal/ops"
	"github.com/mlnoga/nightlight/internal/zzverif/vsim"
	"golang.org/x/image/tiff"
)

// P10: a save that reports success has left the complete image on disk.
func init() {
	register(&Prop{ID: "P10", Quick: 40000, Rule: "Each case draws 1-4 images, formats and previous file contents, disk faults (open, write, short write, full disk, close) or a disk capacity, and a schedule.", Run: runP10})
}

// drawImg builds an image with the given number of channels.
func drawImg(c *Case, nm string, id int) *fits.Image {
	r := c.Rand(nm)
	w, h := c.Int(nm+".w", 1, 40), c.Int(nm+".h", 1, 40)
	if c.Bool(nm+".big", 1, 8) {
		w, h = w+80, h+60
		if c.Bool(nm+".large", 1, 12) {
			w, h = w*4+1, h*3+2
		}
	}
	n := w * h
	col := c.Bool(nm+".rgb", 1, 3)
	if col {
		n *= 3
	}
	lo, hi := 0.0, 1.0
	switch c.Int(nm+".range", 0, 3) {
	case 1:
		hi = 65535
	case 2:
		lo, hi = -50, 1234
	case 3:
		lo, hi = -0.5, 1.5
	}
	d := randData(r, n, lo, hi)
	if c.Bool(nm+".nan", 1, 3) {
		for k := 0; k < 1+n/10; k++ {
			d[r.N(n)] = float32(math.NaN())
		}
	}
	if c.Bool(nm+".patches", 1, 3) { // areas of one value, which lossy formats keep
		for i := range d {
			x, y := i%(w*h)%w, i%(w*h)/w
			d[i] = d[i-(y%16)*w-x%16]
		}
	}
	if col {
		return mkImg3(id, w, h, d)
	}
	return mkImg(id, w, h, d)
}

// checkSaved judges a file against the image it must contain.
func checkSaved(name string, b []byte, im *fits.Image, data []float32, min, max, gamma float64) string {
	l := strings.ToLower(name)
	w, h := int(im.Naxisn[0]), int(im.Naxisn[1])
	size := w * h
	if strings.HasSuffix(l, ".gz") || strings.HasSuffix(l, ".gzip") {
		u, err := gunzip(b)
		if err != nil {
			return fmt.Sprintf("gzip stream of %d bytes: %v", len(b), err)
		}
		b = u
		l = l[:strings.LastIndex(l, ".")]
	}
	q := func(v float32, full float64) float64 {
		x := (float64(v) - min) / (max - min)
		if x != x || x < 0 {
			x = 0
		}
		if x > 1 {
			x = 1
		}
		return math.Pow(x, 1/gamma) * full
	}
	switch {
	case strings.HasSuffix(l, ".tif"), strings.HasSuffix(l, ".tiff"):
		t, err := tiff.Decode(bytes.NewReader(b))
		if err != nil {
			return fmt.Sprintf("TIFF of %d bytes: %v", len(b), err)
		}
		if t.Bounds().Dx() != w || t.Bounds().Dy() != h {
			return fmt.Sprintf("TIFF has bounds %v", t.Bounds())
		}
		for i := 0; i < size; i++ {
			cr, cg, cb, _ := t.At(i%w, i/w).RGBA()
			got := []uint32{cr, cg, cb}
			for k := range got {
				j := i
				if len(data) == 3*size {
					j += k * size
				}
				if e := q(data[j], 65535); math.Abs(float64(got[k])-e) > 2.5 {
					return fmt.Sprintf("TIFF pixel %d channel %d is %d, expected %.1f", i, k, got[k], e)
				}
			}
		}
	case strings.HasSuffix(l, ".jpg"), strings.HasSuffix(l, ".jpeg"):
		t, err := jpeg.Decode(bytes.NewReader(b))
		if err != nil {
			return fmt.Sprintf("JPEG of %d bytes: %v", len(b), err)
		}
		if !bytes.HasSuffix(b, []byte{0xff, 0xd9}) {
			return fmt.Sprintf("JPEG of %d bytes does not end in an end marker", len(b))
		}
		if t.Bounds().Dx() != w || t.Bounds().Dy() != h {
			return fmt.Sprintf("JPEG has bounds %v", t.Bounds())
		}
		if _, ok := t.(*image.Gray); ok == (len(data) == 3*size) {
			return fmt.Sprintf("JPEG is %T for %d values in %d pixels", t, len(data), size)
		}
		// lossy: compare brightness averages over the quadrants
		for y0 := 0; y0 < h; y0 += 16 {
			for x0 := 0; x0 < w; x0 += 16 {
				var ge, ee, n float64
				var want [3]float64 // of blocks of one value
				flat := true
				for k := range want {
					pl := 0
					if len(data) == 3*size {
						pl = k * size
					}
					want[k] = q(data[pl+y0*w+x0], 255)
					for y := y0; y < h && y < y0+16; y++ {
						for x := x0; x < w && x < x0+16; x++ {
							flat = flat && q(data[pl+y*w+x], 255) == want[k]
						}
					}
				}
				for y := y0; flat && y < h && y < y0+16; y++ {
					for x := x0; x < w && x < x0+16; x++ {
						cr, cg, cb, _ := t.At(x, y).RGBA()
						for k, g := range []uint32{cr, cg, cb} {
							if math.Abs(float64(g)/257-want[k]) > 9 {
								return fmt.Sprintf("JPEG pixel %d,%d channel %d is %.1f, expected %.1f", x, y, k, float64(g)/257, want[k])
							}
						}
					}
				}
				for y := y0; y < h && y < y0+16; y++ {
					for x := x0; x < w && x < x0+16; x++ {
						cr, cg, cb, _ := t.At(x, y).RGBA()
						ge += 0.299*float64(cr)/257 + 0.587*float64(cg)/257 + 0.114*float64(cb)/257
						if i := y*w + x; len(data) == 3*size {
							ee += 0.299*math.Floor(q(data[i], 255)) + 0.587*math.Floor(q(data[i+size], 255)) + 0.114*math.Floor(q(data[i+2*size], 255))
						} else {
							ee += math.Floor(q(data[i], 255))
						}
						n++
					}
				}
				tol := 6.0
				if len(data) == 3*size {
					tol = 20 // saturated colors of noise images lose brightness in chroma subsampling
				}
				if math.Abs(ge-ee)/n > tol {
					return fmt.Sprintf("JPEG block at %d,%d has mean brightness %.1f, expected %.1f", x0, y0, ge/n, ee/n)
				}
			}
		}
	default:
		f, err := decodeFits(b)
		if err != nil {
			return fmt.Sprintf("FITS file of %d bytes: %v", len(b), err)
		}
		if fmt.Sprint(f.Naxis) != i32s(im.Naxisn) {
			return fmt.Sprintf("FITS file has dimensions %v", f.Naxis)
		}
		want := clone32(data)
		for i, v := range want {
			if isNaN(v) {
				want[i] = 0
			}
		}
		if i := nearAll(f.Data, want, 1e-6, 0); i >= 0 {
			return fmt.Sprintf("FITS value %d is %s, expected %s", i, at(f.Data, i), at(want, i))
		}
		if f.Extra != 0 {
			return fmt.Sprintf("FITS file has %d bytes more than its data need", f.Extra)
		}
	}
	return ""
}

var saveExts = []string{".fits", ".fits.gz", ".tif", ".jpg", ".fit", ".fts", ".tiff", ".jpeg", ".FITS", ".fit.gz", ".fts.gzip", ".Jpg"}

// finiteRange is the value range without NaNs.
func finiteRange(d []float32) (lo, hi float64) {
	lo, hi = math.Inf(1), math.Inf(-1)
	for _, v := range d {
		if !isNaN(v) {
			lo, hi = math.Min(lo, float64(v)), math.Max(hi, float64(v))
		}
	}
	return
}

func runP10(c *Case) {
	n := c.Int("n", 1, 4)
	fs := vsim.NewFS()
	ext := saveExts[c.Int("ext", 0, len(saveExts)-1)]
	var ims []*fits.Image
	var data [][]float32
	l := strings.ToLower(ext)
	em := ops.ExportMode(c.Int("mode", 0, 3))
	gamma := []float64{1, 2.2, 0.8}[c.Int("gamma", 0, 2)]
	fitsFmt := strings.Contains(l, "f") && strings.Contains(l, "it") || strings.Contains(l, "fts")
	for i := 0; i < n; i++ {
		im := drawImg(c, fmt.Sprintf("im%d", i), i+7)
		if em == ops.EMMinMax {
			// the range of an image with undefined values is not specified; export needs one
			for j, v := range im.Data {
				if isNaN(v) && !fitsFmt {
					im.Data[j] = 0.25
				}
			}
			if len(im.Data) == 1 && !fitsFmt {
				em = ops.EM0_1
			}
		}
		ims = append(ims, im)
		data = append(data, clone32(im.Data))
		name := fmt.Sprintf("out%d%s", im.ID, ext)
		switch c.Int(fmt.Sprintf("old%d", i), 0, 3) {
		case 1: // longer previous file
			fs.Put(name, bytes.Repeat([]byte("previous content "), 40000))
		case 2:
			fs.Put(name, []byte("short"))
		}
	}
	plan := &vsim.FaultPlan{Kinds: map[string]float64{}, Max: 2}
	mode := c.Int("faultmode", 0, 5)
	switch mode {
	case 1, 2:
		k := c.PickS("fault", "create-eacces", "create-enospc", "create-emfile", "write-eio", "write-enospc", "write-eio", "write-enospc", "close-eio", "close-enospc")
		plan.Kinds[k] = []float64{0.05, 0.3, 1}[c.Int("rate", 0, 2)]
	case 3:
		tot := 0
		for _, im := range ims {
			tot += 4*len(im.Data) + 2880
		}
		fs.Capacity = int64(c.Rand("cap").N(tot + tot/4))
		for _, p := range fs.List() {
			b, _ := fs.Get(p)
			fs.Capacity += int64(len(b))
		}
	}
	got := make([]error, n)
	r := c.Sim("save", Opt{Explore: true, FS: fs, Plan: plan, NumCPU: c.Int("cpu", 1, 4)}, func() {
		ctx := newCtx(vsim.NewLogSink(), 1000)
		op := ops.NewOpSave("out%d"+ext, em, float32(gamma))
		var ps []ops.Promise
		for i, im := range ims {
			i := i
			p, err := op.MakePromises(promisesOf(im), ctx)
			if err != nil || len(p) != 1 {
				got[i] = fmt.Errorf("no promise: %v", err)
				continue
			}
			ps = append(ps, func() (*fits.Image, error) {
				f, err := p[0]()
				got[i] = err
				if err == nil && f != ims[i] {
					got[i] = fmt.Errorf("a save step handed on a different image")
				}
				return f, err
			})
		}
		_, err := ops.MaterializeAll(ps, ctx.MaxThreads, false)
		for i := range got {
			if got[i] != nil && err == nil {
				c.Fail("error-lost", "saving image %d failed but the evaluation reported success", i)
			}
		}
	})
	hard := map[string]bool{}
	for _, f := range r.Faults {
		hard[f.Path] = true
		c.Probe("fault " + f.Kind + " on " + map[bool]string{true: "FITS", false: "TIFF/JPEG"}[fitsFmt])
	}
	for i, im := range ims {
		name := fmt.Sprintf("out%d%s", im.ID, ext)
		if k := bitsEq(im.Data, data[i]); k >= 0 {
			c.Fail("modified", "saving changed value %d of the image", k)
		}
		if got[i] != nil {
			if !hard["/work/"+name] && mode != 3 {
				c.Fail("spurious-error", "saving to %s failed without a fault: %v", name, got[i])
			}
			continue
		}
		b, ok := fs.Get(name)
		if !ok {
			c.Fail("incomplete", "saving to %s succeeded but there is no file (faults %v)", name, r.Faults)
		}
		min, max := 0.0, 1.0
		switch em {
		case ops.EMMinMax:
			min, max = finiteRange(data[i])
		case ops.EM0_255:
			max = 255
		case ops.EM0_65535:
			max = 65535
		}
		if msg := checkSaved(name, b, im, data[i], min, max, gamma); msg != "" {
			c.Fail("incomplete", "saving to %s succeeded but the file is wrong: %s (faults %v)", name, msg, r.Faults)
		}
	}
	c.Nontrivial()
}
