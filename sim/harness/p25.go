package main

import (
	"fmt"
	"math"

	"github.com/mlnoga/nightlight/internal/fits"
	"github.com/mlnoga/nightlight/internal/ops"
	"github.com/mlnoga/nightlight/internal/ops/post"
	"github.com/mlnoga/nightlight/internal/ops/pre"
	"github.com/mlnoga/nightlight/internal/ops/rgb"
	"github.com/mlnoga/nightlight/internal/ops/stack"
	"github.com/mlnoga/nightlight/internal/star"
	"github.com/mlnoga/nightlight/internal/stats"
	"github.com/mlnoga/nightlight/internal/zzverif/vsim"
)

// P25: the statistics reported for an image always describe its current pixels.
func init() {
	register(&Prop{ID: "P25", Quick: 60000, Rule: "Each case loads or creates an image, and sends it through a random sequence of up to five operations, with a random part of its statistics queried before each, and compares all statistics with a separate calculation after each. One case in 15 instead compares each location and scale estimator with the known background of a synthetic sky, or holds it to the range of arbitrary values.", Run: runP25})
}

// noise64 is the noise estimate by the Laplacian difference mask over places without invalid pixels.
func noise64(d []float32, w int) (noise float64, ok bool) {
	h := len(d) / w
	if w < 3 || h < 3 {
		return 0, false
	}
	k := []float64{1, -2, 1, -2, 4, -2, 1, -2, 1}
	sum, n := 0.0, 0
	for y := 1; y < h-1; y++ {
	next:
		for x := 1; x < w-1; x++ {
			s := 0.0
			for j := 0; j < 9; j++ {
				v := float64(d[(y+j/3-1)*w+x+j%3-1])
				if v-v != 0 {
					continue next
				}
				s += k[j] * v
			}
			sum += math.Abs(s)
			n++
		}
	}
	if n == 0 {
		return 0, false
	}
	return math.Sqrt(math.Pi/2) / (6 * float64(n)) * sum, true
}

func finite32(d []float32) []float32 {
	var v []float32
	for _, x := range d {
		if x-x == 0 {
			v = append(v, x)
		}
	}
	return v
}

func statsQuery(s *stats.Stats, which int) {
	for i, f := range []func() float32{s.Min, s.Max, s.Mean, s.StdDev, s.Location, s.Scale, s.Noise} {
		if which>>uint(i)&1 == 1 {
			f()
		}
	}
}

// checkStats compares the statistics of an image with its pixels.
func checkStats(c *Case, what string, f *fits.Image) {
	v := finite32(f.Data)
	if len(v) == 0 {
		return
	}
	if f.Stats == nil {
		c.Fail("missing", "after %s the image has no statistics", what)
	}
	lo, hi := minMax64(v)
	mean, sd := meanStd64(v)
	mx := math.Max(math.Abs(lo), math.Abs(hi))
	if mx > 1e15 {
		return
	}
	s := f.Stats
	cmp := func(name string, got float32, want, tol float64) {
		if !(math.Abs(float64(got)-want) <= tol) {
			c.Fail("stale", "after %s of %v, the %s is reported as %g instead of %g (min %g max %g mean %g deviation %g)", what, f.Naxisn, name, got, want, lo, hi, mean, sd)
		}
	}
	cmp("minimum", s.Min(), lo, 5e-5*mx)
	cmp("maximum", s.Max(), hi, 5e-5*mx)
	cmp("mean", s.Mean(), mean, 2e-4*mx)
	cmp("standard deviation", s.StdDev(), sd, 1e-3*sd+2e-4*mx)
	cmp("location", s.Location(), mean, 2e-4*mx)
	cmp("scale", s.Scale(), sd, 1e-3*sd+3e-4*mx)
	if len(f.Naxisn) == 2 {
		if n, ok := noise64(f.Data, int(f.Naxisn[0])); ok {
			cmp("noise", s.Noise(), n, 1e-3*n+1e-4*mx)
			c.Probe("noise")
		}
	}
}

func runP25(c *Case) {
	if c.Bool("estimators", 1, 15) {
		estimatorsP25(c)
		return
	}
	r := c.Rand("ops")
	w, h := c.Int("w", 1, 30), c.Int("h", 1, 30)
	if c.Bool("large", 1, 100) { // above the number of samples the estimators take
		w, h = w*13+1, h*13+2
	}
	color := c.Bool("color", 1, 4)
	n := w * h
	log := vsim.NewLogSink()
	fs := vsim.NewFS()
	pix := drawPix(c.Rand("pix"), n, color, true, c.Int("dist", 0, 3))
	if !color && c.Bool("sky", 1, 2) {
		pix = cosFrame(c.Rand("pix"), w, h)
	}
	var f *fits.Image
	file := c.Bool("file", 1, 4)
	if file {
		if color {
			file = false
		} else {
			fs.Put("in.fits", fitsF32(w, h, pix, "1"))
		}
	}
	if color {
		f = mkImg3(3, w, h, clone32(pix))
	} else {
		f = mkImg(3, w, h, clone32(pix))
	}
	steps := c.Int("steps", 1, 5)
	type step struct {
		name string
		run  func(f *fits.Image, ctx *ops.Context) (*fits.Image, error)
	}
	viaOp := func(op ops.Operator) func(f *fits.Image, ctx *ops.Context) (*fits.Image, error) {
		return func(f *fits.Image, ctx *ops.Context) (*fits.Image, error) {
			outs, err := runJob(op, promisesOf(f), ctx, false)
			if err != nil || len(outs) != 1 {
				return nil, err
			}
			return outs[0], nil
		}
	}
	u := func(lo, hi float64) float32 { return float32(lo + (hi-lo)*r.F()) }
	var what string
	var stop *caseStop
	c.Sim("ops", Opt{Explore: true, NumCPU: c.Int("cpu", 1, 8), LS: 1, FS: fs}, func() {
		defer func() {
			if e := recover(); e != nil {
				s, ok := e.(caseStop)
				if !ok {
					panic(e)
				}
				stop = &s
			}
		}()
		ctx := newCtx(log, 64)
		if file {
			g, err := fits.NewImageFromFile("in.fits", 3, log)
			if err != nil {
				c.Fail("load", "%v", err)
			}
			f, what = g, "loading"
			checkStats(c, what, f)
		}
		for i := 0; i < steps; i++ {
			if v := finite32(f.Data); len(v) == 0 {
				return
			} else if lo, hi := minMax64(v); hi != lo && hi-lo < 1e-2*math.Max(math.Abs(lo), math.Abs(hi)) {
				c.Probe("ill-conditioned") // rounding of the statistics could be amplified
				return
			}
			statsQuery(f.Stats, r.N(128))
			var st step
			mono := len(f.Naxisn) == 2
			switch k := r.N(16); {
			case k < 5 || !mono:
				var names []string
				for _, nm := range p18Names {
					o := drawPixOp(&R{1}, nm, log, nil)
					if o.color == !mono {
						names = append(names, nm)
					}
				}
				nm := names[r.N(len(names))]
				op := viaOp(drawPixOp(r, nm, log, nil).op)
				if nm == "hslApplyLum" {
					lum, run := randData(r, int(f.Pixels)/3, 0, 1), op
					op = func(f *fits.Image, ctx *ops.Context) (*fits.Image, error) {
						ctx.LumFrame = mkImg(9, int(f.Naxisn[0]), int(f.Naxisn[1]), lum)
						return run(f, ctx)
					}
				}
				st = step{nm, op}
			case k == 5:
				st = step{"bad pixel removal", viaOp(pre.NewOpBadPixel(u(1, 4), u(1, 4), nil))}
			case k == 6:
				st = step{"Bayer bad pixel removal", viaOp(pre.NewOpBadPixel(u(1, 4), u(1, 4), pre.NewOpDebayer("G", "GBRG")))}
			case k == 7:
				st = step{"debayering", viaOp(pre.NewOpDebayer([]string{"R", "G", "B"}[r.N(3)], "GRBG"))}
			case k == 8:
				st = step{"horizontal debanding", viaOp(pre.NewOpDebandHoriz(u(1, 99), int32(1+r.N(20)), u(0, 3)))}
			case k == 9:
				st = step{"vertical debanding", viaOp(pre.NewOpDebandVert(u(1, 99), int32(1+r.N(20)), u(0, 3)))}
			case k == 10:
				st = step{"binning", viaOp(pre.NewOpBin(int32(1 + r.N(3))))}
			case k == 11:
				st = step{"background extraction", viaOp(pre.NewOpBackExtract(int32(2+r.N(10)), 2, 1.5, int32(r.N(3)), []string{"", "bg.fits"}[r.N(2)]))}
			case k == 12:
				dark, flat := randData(r, len(f.Data), 0, 50), randData(r, len(f.Data), 50, 100)
				dn, fn := "d.fits", "f.fits"
				switch r.N(3) {
				case 0:
					dn = ""
				case 1:
					fn = ""
				}
				st = step{"calibration", func(f *fits.Image, ctx *ops.Context) (*fits.Image, error) {
					fw, fh := int(f.Naxisn[0]), int(f.Naxisn[1])
					fs.Put("d.fits", fitsF32(fw, fh, dark, "1"))
					fs.Put("f.fits", fitsF32(fw, fh, flat, "1"))
					ctx.DarkFrame, ctx.FlatFrame = nil, nil
					return viaOp(pre.NewOpCalibrate(dn, fn))(f, ctx)
				}}
			case k == 13:
				ref := mkImg(9, 8, 8, randData(r, 64, 10, 300))
				mode := post.HistoNormMode(1 + r.N(3))
				st = step{fmt.Sprintf("histogram matching in mode %d", mode), func(f *fits.Image, ctx *ops.Context) (*fits.Image, error) {
					ctx.MatchHisto = ref.Stats
					return viaOp(post.NewOpMatchHistogram(mode))(f, ctx)
				}}
			case k == 14:
				tr := star.Transform2D{A: 1, B: 0.02 * u(-1, 1), C: u(-2, 2), D: 0.02 * u(-1, 1), E: 1, F: u(-2, 2)}
				oob := []float32{float32(math.NaN()), 5}[r.N(2)]
				st = step{"projection", func(f *fits.Image, ctx *ops.Context) (*fits.Image, error) { return f.Project(f.Naxisn, tr, oob) }}
			default:
				fr := []*fits.Image{f}
				if r.N(2) == 0 {
					for j := 0; j < 3; j++ {
						fr = append(fr, mkImg(10+j, int(f.Naxisn[0]), int(f.Naxisn[1]), randData(r, len(f.Data), 1, 2)))
					}
					st = step{"stacking", func(f *fits.Image, ctx *ops.Context) (*fits.Image, error) {
						outs, err := runJob(stack.NewOpStack(stack.StackMode(r.N(3)), stack.StWeightNone, 3, 3), promisesOf(fr...), ctx, false)
						if err != nil || len(outs) != 1 {
							return nil, err
						}
						return outs[0], nil
					}}
				} else {
					for j := 0; j < 2; j++ {
						fr = append(fr, mkImg(10+j, int(f.Naxisn[0]), int(f.Naxisn[1]), randData(r, len(f.Data), 0, 1)))
					}
					st = step{"color combination", func(f *fits.Image, ctx *ops.Context) (*fits.Image, error) {
						outs, err := runJob(rgb.NewOpRGBCombine(), promisesOf(fr...), ctx, false)
						if err != nil || len(outs) != 1 {
							return nil, err
						}
						return outs[0], nil
					}}
				}
			}
			c.Probe(st.name)
			if what != "" {
				what += ", "
			}
			what += st.name
			g, err := st.run(f, ctx)
			if err != nil || g == nil {
				c.Probe("step refused")
				return
			}
			f = g
			checkStats(c, what, f)
		}
		if s := f.Stats; s != nil && len(finite32(f.Data)) > 0 { // figures outlive the pixels
			fs := []func() float32{s.Min, s.Max, s.Mean, s.StdDev, s.Location, s.Scale, s.Noise}
			var was [7]float32
			for i, q := range fs {
				was[i] = q()
			}
			s.FreeData()
			for i, q := range fs {
				if x := q(); f32bits(x) != f32bits(was[i]) {
					c.Fail("stale", "after %s and freeing the data, figure %d became %g instead of %g", what, i, x, was[i])
				}
			}
		}
	})
	c.Mix(hstr(what))
	if stop != nil {
		panic(*stop)
	}
	if n > 4 {
		c.Nontrivial()
	}
}

// estimatorsP25 compares each estimator of location and scale with the background of a synthetic sky.
func estimatorsP25(c *Case) {
	ls := c.Int("ls", 1, 5)
	r := c.Rand("sky")
	if c.Bool("any", 2, 3) {
		anyDataP25(c, ls)
		return
	}
	w, h := 30+r.N(50), 30+r.N(50)
	if r.N(25) == 0 { // above the number of samples the estimators take
		w, h = w*5, h*5
	}
	bg, noise := 100+1000*r.F(), 1+20*r.F()
	d := make([]float32, w*h)
	for i := range d {
		d[i] = float32(bg + noise*r.Norm())
	}
	stars := 0
	if ls != 1 {
		stars = r.N(len(d) / 100)
	}
	for i := 0; i < stars; i++ {
		d[r.N(len(d))] = float32(bg + 5000*r.F())
	}
	if ls == 5 && r.N(3) == 0 { // clipped pixels at both ends of the histogram are no background
		for n := r.N(len(d) / 8); n > 0; n-- {
			d[r.N(len(d))] = 0
		}
		for n := r.N(len(d) / 8); n > 0; n-- {
			d[r.N(len(d))] = float32(bg + 5001)
		}
	}
	uniform := r.N(6) == 0
	if uniform {
		for i := range d {
			d[i] = float32(bg)
		}
		noise = 0
	}
	f := mkImg(1, w, h, d)
	var loc, scale float32
	c.Sim("estimate", Opt{LS: ls}, func() { loc, scale = f.Stats.Location(), f.Stats.Scale() })
	c.Probe(fmt.Sprintf("estimator %d", ls))
	c.Nontrivial()
	c.Mix(uint64(len(d)))
	// The histogram of 4096 bins spans the whole range of values.
	lo, hi := minMax64(d)
	bin := (hi - lo) / 4096
	f1, f2 := 0.5, 1.0
	if ls == 5 {
		f1, f2 = 2, 3 // peak of a sparse histogram
	}
	if !(math.Abs(float64(loc)-bg) <= f1*noise+2*bin+1e-5*bg) {
		c.Fail("location", "estimator %d finds a location of %g, while the background is at %g with deviation %g, among %d stars", ls, loc, bg, noise, stars)
	}
	if !(float64(scale) <= f2*1.6*noise+4*bin+1e-4*bg && float64(scale) >= 0.5*noise/f2-4*bin) {
		c.Fail("scale", "estimator %d finds a scale of %g, while the deviation is %g, with %d stars", ls, scale, noise, stars)
	}
}

// anyDataP25 holds the estimators to what is true for any values: location and scale lie within the range of the values.
func anyDataP25(c *Case, ls int) {
	r := c.Rand("any")
	w, h := c.Int("w", 1, 12), c.Int("h", 1, 12)
	if c.Bool("large", 1, 6) {
		w, h = w*20, h*20
	}
	n := w * h
	d := make([]float32, n)
	kind := c.PickS("values", "two", "two", "few", "uniform", "outlier", "geometric", "steps", "one")
	unit := []float64{1, 1e-4, 65535, 1e-12, 1e12}[c.Int("unit", 0, 4)]
	base := []float64{0, 0, 1, -3, 1000}[c.Int("base", 0, 4)]
	frac := r.F()
	for i := range d {
		v := 0.0
		switch kind {
		case "two":
			if r.F() < frac {
				v = 1
			}
		case "few":
			v = float64(r.N(4)) / 4
		case "uniform":
			v = r.F()
		case "outlier":
			if i == n/2 {
				v = 1e4
			}
		case "geometric":
			v = math.Pow(2, -20*r.F())
		case "steps":
			v = float64(i*5/n) / 5
		}
		d[i] = float32((base + v) * unit)
	}
	if c.Bool("nan", 1, 4) {
		for k := r.N(n + 1); k > 0; k-- {
			d[r.N(n)] = float32(math.NaN())
		}
	}
	f := mkImg(1, w, h, d)
	var loc, scale float32
	c.Sim("any", Opt{LS: ls}, func() { loc, scale = f.Stats.Location(), f.Stats.Scale() })
	c.Probe("any values " + kind)
	c.Mix(hashBytes(f32bytes(d)))
	v := finite32(d)
	if len(v) == 0 {
		return
	}
	lo, hi := minMax64(v)
	tol := 1e-4 * (math.Max(math.Abs(lo), math.Abs(hi)) + hi - lo)
	if !(float64(loc) >= lo-tol && float64(loc) <= hi+tol) {
		c.Fail("location", "estimator %d finds a location of %g for %d values (%s) from %g to %g", ls, loc, len(v), kind, lo, hi)
	}
	if !(float64(scale) >= 0 && float64(scale) <= 3*(hi-lo)+tol) {
		c.Fail("scale", "estimator %d finds a scale of %g for %d values (%s) from %g to %g", ls, scale, len(v), kind, lo, hi)
	}
}
