package main

import (
	"fmt"
	"math"

	"github.com/mlnoga/nightlight/internal/fits"
	"github.com/mlnoga/nightlight/internal/ops"
	"github.com/mlnoga/nightlight/internal/ops/pre"
	"github.com/mlnoga/nightlight/internal/zzverif/vsim"
)

// P05: dark and flat calibration, scaling and binning of every light frame.
func init() {
	register(&Prop{ID: "P05", Quick: 50000, Rule: "Each case draws 1-8 light frames and masters in drawn encodings, degenerate flat pixels, mismatched or unreadable masters, scaling and binning, read faults, thread count and schedule. Non-trivial: a dark or flat is in use.", Run: runP05})
}

func runP05(c *Case) {
	n := c.Int("n", 1, 8)
	w, h := c.Int("w", 1, 20), c.Int("h", 1, 20)
	if c.Bool("large", 1, 60) {
		w, h = w*12+1, h*9+2
	}
	r := c.Rand("data")
	fs := vsim.NewFS()
	put := func(name string, w, h int, d []float64, expo string) string {
		s := &fitsSpec{Bitpix: -32, Naxis: []int{w, h}, Raw: d, Exposure: expo}
		if c.Bool(name+".int", 1, 2) {
			s.Bitpix, s.HasB, s.Bzero, s.Bscale = 16, true, 32768, 1
			s.Raw = make([]float64, len(d))
			for i := range d {
				s.Raw[i] = d[i] - 32768
			}
		}
		b := s.bytes()
		name += ".fits"
		if c.Bool(name+".gz", 1, 5) {
			name += ".gz"
			b = gz(b)
		}
		fs.Put(name, b)
		return name
	}
	ints := func(n, lo, hi int) []float64 {
		d := make([]float64, n)
		for i := range d {
			d[i] = float64(lo + r.N(hi-lo))
		}
		return d
	}
	hasDark, hasFlat := c.Bool("dark", 3, 4), c.Bool("flat", 3, 4)
	var dark, flat []float64
	darkName, flatName := "", ""
	mismatch := c.Pick("mismatch", 0, 0, 0, 0, 0, 1, 2, 3, 4) // 1 dark, 2 flat, 3 one light, 4 transposed light
	if hasDark {
		dw := w
		if mismatch == 1 {
			dw++
		}
		dark = ints(dw*h, 90, 130)
		darkName = put("dark", dw, h, dark, "30")
	}
	if hasFlat {
		fw := w
		if mismatch == 2 {
			fw++
		}
		flat = ints(fw*h, 15000, 25000)
		for k := c.Int("deadflat", 0, 3); k > 0; k-- {
			flat[r.N(len(flat))] = 0
		}
		flat[r.N(len(flat))] = 25001
		flatName = put("flat", fw, h, flat, "1")
	}
	// masters may be applied in steps of their own
	type calStep struct {
		darkName, flatName string
		dark, flat         []float64
	}
	split := c.Pick("split", 0, 0, 0, 1, 2, 3)
	missing := ""
	if c.Bool("missing", 1, 15) {
		if hasDark {
			darkName, missing = "nodark.fits", "dark"
		} else if hasFlat {
			flatName, missing = "noflat.fits", "flat"
		}
	}
	steps := []calStep{{darkName, flatName, dark, flat}}
	switch split {
	case 1:
		steps = []calStep{{darkName: darkName, dark: dark}, {flatName: flatName, flat: flat}}
	case 2:
		d := ints(w*h, 5, 20)
		steps = append(steps, calStep{darkName: put("dark2", w, h, d, "30"), dark: d})
	case 3:
		f := ints(w*h, 15000, 25000)
		f[r.N(len(f))] = 25002
		steps = append([]calStep{{flatName: put("flat2", w, h, f, "30"), flat: f}}, steps...)
	}
	bad := missing != "" || mismatch == 1 && hasDark || mismatch == 2 && hasFlat
	lights := make([][]float64, n)
	lw, lh := make([]int, n), make([]int, n)
	for k := range lights {
		lw[k], lh[k] = w, h
		if mismatch == 3 && k == n-1 && (hasDark || hasFlat || split > 1) {
			lh[k]++
			bad = true
		}
		if mismatch == 4 && k == n-1 {
			lw[k], lh[k] = h, w
		}
		lights[k] = ints(lw[k]*lh[k], 100, 60000)
		put(fmt.Sprintf("light%02d", k), lw[k], lh[k], lights[k], fmt.Sprint(10+k))
	}
	scale, off := 1.0, 0.0
	if c.Bool("scale", 1, 3) {
		scale, off = []float64{2, 0.5, -1, 1}[c.Int("scalev", 0, 3)], []float64{0, 10, -3}[c.Int("offv", 0, 2)]
	}
	bin := c.Pick("bin", 0, 1, 1, 2, 3)
	if bin > 1 {
		for k := range lights {
			if lw[k] < bin || lh[k] < bin {
				bad = true
			}
		}
	}
	plan := &vsim.FaultPlan{Kinds: map[string]float64{"read-short": 0.1}, Max: 2}
	if c.Bool("faults", 1, 4) {
		plan.Kinds[c.PickS("fault", "read-eio", "open-eio", "open-emfile")] = 0.08
	}
	var outs []*fits.Image
	var err error
	var ctx *ops.Context
	got := map[int][]float32{}
	gotN := map[int][]int32{}
	gotE := map[int]float32{}
	res := c.Sim("calibrate", Opt{Explore: true, FS: fs, Plan: plan, NumCPU: c.Int("cpu", 1, 6)}, func() {
		ctx = newCtx(vsim.NewLogSink(), 1000)
		cal := ops.NewOpSequence()
		for _, s := range steps {
			cal.Append(pre.NewOpCalibrate(s.darkName, s.flatName))
		}
		op := ops.NewOpSequence(
			ops.NewOpLoadMany([]string{"light*.fits*"}),
			cal,
			pre.NewOpScaleOffset(float32(scale), float32(off)),
			pre.NewOpBin(int32(bin)),
			newFnOp(func(f *fits.Image, _ *ops.Context) (*fits.Image, error) {
				got[f.ID] = clone32(f.Data)
				gotE[f.ID] = f.Exposure
				gotN[f.ID] = append([]int32(nil), f.Naxisn...)
				return f, nil
			}))
		outs, err = runJob(op, nil, ctx, false)
	})
	hard := 0
	for _, f := range res.Faults {
		if f.Kind != "read-short" {
			hard++
		}
	}
	if err == nil && (bad || hard > 0) {
		c.Fail("accepted", "the job succeeded although %v (mismatch %d, missing master %q, bin %d of %dx%d)", res.Faults, mismatch, missing, bin, w, h)
	}
	if err != nil && !bad && hard == 0 {
		c.Fail("spurious-error", "the job failed: %v", err)
	}
	if err == nil && len(outs) != n {
		c.Fail("results", "%d results for %d lights", len(outs), n)
	}
	opens := map[string]int{}
	for _, a := range fs.Acc {
		if a.Op == "open-r" && a.Err == "" {
			opens[a.Path]++
		}
	}
	if !bad && hard == 0 {
		for _, m := range []string{darkName, flatName} {
			if m != "" && opens["/work/"+m] != 1 {
				c.Fail("master-loads", "%s was opened %d times", m, opens["/work/"+m])
			}
		}
	}
	fmax := make([]float64, len(steps))
	for k, s := range steps {
		for _, v := range s.flat {
			fmax[k] = math.Max(fmax[k], v)
		}
	}
	// every frame that got through is calibrated, also when another one failed
	for id, d := range got {
		if id < 0 || id >= n {
			c.Fail("results", "frame number %d", id)
		}
		if mismatch == 1 && hasDark || mismatch == 2 && hasFlat {
			break // masters of other dimensions: only the error matters
		}
		e := make([]float64, len(lights[id]))
		for i, v := range lights[id] {
			for k, s := range steps {
				if s.dark != nil {
					v -= s.dark[i]
				}
				if s.flat != nil && s.flat[i] > 0 {
					v = v * fmax[k] / s.flat[i]
				}
			}
			e[i] = v*scale + off
		}
		ww, hh := lw[id], lh[id]
		if bin > 1 {
			bw, bh := ww/bin, hh/bin
			b := make([]float64, bw*bh)
			for y := 0; y < bh*bin; y++ {
				for x := 0; x < bw*bin; x++ {
					b[y/bin*bw+x/bin] += e[y*ww+x] / float64(bin*bin)
				}
			}
			e, ww, hh = b, bw, bh
		}
		if len(d) != len(e) || int(gotN[id][0]) != ww || int(gotN[id][1]) != hh {
			c.Fail("dimensions", "light %d became %v with %d values, expected %dx%d", id, gotN[id], len(d), ww, hh)
		}
		if gotE[id] != float32(10+id) {
			c.Fail("exposure", "light %d has exposure %v after preprocessing, the file has %d (bin %d)", id, gotE[id], 10+id, bin)
		}
		for i := range e {
			if math.Abs(e[i]-float64(d[i])) > 1e-5*math.Abs(e[i])+0.05 {
				c.Fail("wrong-value", "light %d pixel %d is %v, expected %v (dark %v flat %v in steps of kind %d, scale %g offset %g bin %d)", id, i, d[i], e[i], hasDark, hasFlat, split, scale, off, bin)
			}
		}
	}
	if err == nil && split < 2 {
		for k, m := range map[string]*fits.Image{"dark": ctx.DarkFrame, "flat": ctx.FlatFrame} {
			want := dark
			if k == "flat" {
				want = flat
			}
			if m == nil {
				continue
			}
			for i := range want {
				if float64(m.Data[i]) != want[i] {
					c.Fail("master-modified", "pixel %d of the %s is %v after the job, the file has %v", i, k, m.Data[i], want[i])
				}
			}
		}
	}
	if hasDark || hasFlat {
		c.Nontrivial()
	}
}
