package main

import (
	"math"
	"sort"

	"github.com/mlnoga/nightlight/internal/fits"
	"github.com/mlnoga/nightlight/internal/ops"
	"github.com/mlnoga/nightlight/internal/ops/stack"
	"github.com/mlnoga/nightlight/internal/stats"
	"github.com/mlnoga/nightlight/internal/zzverif/vsim"
)

// P03: stacking combines each pixel as the mode documents, whatever the split into work packages.
func init() {
	register(&Prop{ID: "P03", Quick: 40000, Rule: "Each case draws 1-30 frames of drawn size with outliers, ties and missing (NaN) pixels, mode, weighting, clipping bounds, CPU count and schedule; every output pixel is compared with a sequential float64 model, pixels with a borderline clipping decision only with the range of the stacked values. Non-trivial: the parallel part had more than one task.", Run: runP03})
}

// pixModel is the documented result for one pixel; exact is false if a decision was borderline.
func pixModel(mode stack.StackMode, vals, wts []float64, lo, hi float64) (res float64, exact bool) {
	exact = true
	mean := func(v, w []float64) float64 {
		s, n := 0.0, 0.0
		for i := range v {
			x := 1.0
			if w != nil {
				x = w[i]
			}
			s += v[i] * x
			n += x
		}
		return s / n
	}
	med := func(v []float64) float64 {
		t := append([]float64(nil), v...)
		sort.Float64s(t)
		if len(t)%2 == 1 {
			return t[len(t)/2]
		}
		return (t[len(t)/2-1] + t[len(t)/2]) / 2
	}
	sd := func(v []float64) float64 {
		m, s := mean(v, nil), 0.0
		for _, x := range v {
			s += (x - m) * (x - m)
		}
		return math.Sqrt(s / float64(len(v)))
	}
	maxabs := 0.0
	for _, v := range vals {
		maxabs = math.Max(maxabs, math.Abs(v))
	}
	allEq := func(v []float64) bool {
		for _, x := range v {
			if x != v[0] {
				return false
			}
		}
		return true
	}
	switch mode {
	case stack.StMedian:
		return med(vals), true
	case stack.StMean:
		return mean(vals, wts), true
	case stack.StSigma, stack.StWinsorSigma, stack.StMADSigma:
		cur := append([]float64(nil), vals...)
		var w []float64
		if wts != nil {
			w = append([]float64(nil), wts...)
		}
		for {
			if allEq(cur) {
				return mean(cur, w), exact
			}
			m := med(cur)
			s := sd(cur)
			mrel := 1e-4
			if mode == stack.StMADSigma {
				d := make([]float64, len(cur))
				for i, x := range cur {
					d[i] = math.Abs(x - m)
				}
				s = 1.4826 * med(d)
			}
			if mode == stack.StWinsorSigma {
				mrel = 0.02
				z := append([]float64(nil), cur...)
				for it := 0; it < 10000; it++ {
					l, h := m-1.5*s, m+1.5*s
					changed := 0
					for i, x := range z {
						if x < l {
							z[i] = l
							changed++
						} else if x > h {
							z[i] = h
							changed++
						}
					}
					old := s
					s = 1.134 * sd(z)
					f := math.Abs(s-old) / old
					if changed > 0 && math.Abs(f-0.0005) < 1e-4 {
						exact = false
					}
					if changed == 0 || f <= 0.0005 {
						break
					}
				}
			}
			l, h := m-lo*s, m+hi*s
			margin := 2e-6*maxabs + mrel*s*math.Max(1, math.Max(lo, hi))
			var nc, nw []float64
			for i, x := range cur {
				if (math.Abs(x-l) < margin || math.Abs(x-h) < margin) && x != m {
					exact = false
				}
				if x >= l && x <= h {
					nc = append(nc, x)
					if w != nil {
						nw = append(nw, w[i])
					}
				}
			}
			if len(nc) == len(cur) {
				return mean(cur, w), exact
			}
			if len(nc) <= 1 {
				return mean(cur, w), false
			}
			if mode == stack.StMADSigma {
				return mean(nc, nil), exact
			}
			cur, w = nc, nw
		}
	case stack.StLinearFit:
		cur := append([]float64(nil), vals...)
		for {
			sort.Float64s(cur)
			n := float64(len(cur))
			m := mean(cur, nil)
			if allEq(cur) || len(cur) == 1 {
				return m, exact
			}
			xm := (n - 1) / 2
			sxy, sxx := 0.0, 0.0
			for i, y := range cur {
				sxy += (float64(i) - xm) * (y - m)
				sxx += (float64(i) - xm) * (float64(i) - xm)
			}
			slope := sxy / sxx
			ic := m - slope*xm
			sg := 0.0
			for i, y := range cur {
				sg += math.Abs(y - slope*float64(i) - ic)
			}
			sg /= n
			margin := 4e-6*maxabs + 1e-3*sg*math.Max(1, math.Max(lo, hi))
			var nc []float64
			for i, y := range cur {
				d := y - slope*float64(i) - ic
				if math.Abs(d+lo*sg) < margin || math.Abs(d-hi*sg) < margin {
					exact = false
				}
				if d < -lo*sg || d > hi*sg {
					continue
				}
				nc = append(nc, y)
			}
			if len(nc) == len(cur) || len(nc) == 0 || len(cur) < 3 {
				return m, exact
			}
			cur = nc
		}
	}
	return 0, false
}

func stackWeights(fs []*fits.Image, wm stack.StackWeighting) []float64 {
	w := make([]float64, len(fs))
	q := func(f *fits.Image) float64 {
		if wm == stack.StWeightInverseNoise {
			return float64(f.Stats.Noise())
		}
		return float64(f.HFR)
	}
	switch wm {
	case stack.StWeightNone:
		return nil
	case stack.StWeightExposure:
		for i, f := range fs {
			w[i] = float64(f.Exposure)
		}
	default:
		mn, mx := math.Inf(1), math.Inf(-1)
		for _, f := range fs {
			mn, mx = math.Min(mn, q(f)), math.Max(mx, q(f))
		}
		for i, f := range fs {
			w[i] = 1
			if mx > mn {
				w[i] = 1 / (1 + 4*(q(f)-mn)/(mx-mn))
			}
		}
	}
	return w
}

func autoMode(n int) stack.StackMode {
	switch {
	case n >= 25:
		return stack.StLinearFit
	case n >= 15:
		return stack.StWinsorSigma
	case n >= 6:
		return stack.StSigma
	}
	return stack.StMean
}

// checkStack compares a stack with the model; "" if it matches.
func checkStack(c *Case, out []float32, data [][]float32, mode stack.StackMode, wts []float64, lo, hi, refLoc float64) {
	nex, nclip := 0, 0
	for i := range out {
		var v, w []float64
		mn, mx := math.Inf(1), math.Inf(-1)
		for k := range data {
			x := float64(data[k][i])
			if x != x {
				continue
			}
			v = append(v, x)
			if wts != nil {
				w = append(w, wts[k])
			}
			mn, mx = math.Min(mn, x), math.Max(mx, x)
		}
		if len(v) == 0 {
			if !near(out[i], float32(refLoc), 1e-6, 1e-9) {
				c.Fail("empty-pixel", "pixel %d has no valid value in any frame and became %v, expected the reference location %v", i, out[i], refLoc)
			}
			c.Probe("pixel without data")
			continue
		}
		tol := 2e-5 * math.Max(math.Abs(mn), math.Abs(mx))
		g := float64(out[i])
		if !(g >= mn-tol && g <= mx+tol) {
			c.Fail("outside-range", "pixel %d is %v, outside the stacked values %v..%v", i, g, mn, mx)
		}
		e, exact := pixModel(mode, v, w, lo, hi)
		if !exact {
			c.Probe("borderline clipping decision")
			continue
		}
		nex++
		if math.Abs(e-func() float64 {
			s := 0.0
			for _, x := range v {
				s += x
			}
			return s / float64(len(v))
		}()) > tol {
			nclip++
		}
		if math.Abs(g-e) > tol {
			c.Fail("wrong-value", "mode %d pixel %d is %v, expected %v from values %v weights %v (clip %g/%g)", mode, i, g, e, v, w, lo, hi)
		}
	}
	if nclip > 0 {
		c.Probe("clipping or weighting changed a pixel")
	}
}

func runP03(c *Case) {
	n := c.Int("n", 1, 9)
	if c.Bool("many", 1, 5) {
		n += 12 + 2*c.Int("more", 0, 5)
	}
	w, h := c.Int("w", 1, 12), c.Int("h", 1, 12)
	if c.Bool("big", 1, 8) {
		w, h = w*6, h*5
		if c.Bool("large", 1, 12) {
			w, h = w*4+1, h*4+3
		}
	}
	if c.Bool("crowd", 1, 40) {
		n += 9 * c.Int("crowdof", 3, 16)
	}
	r := c.Rand("data")
	nanRate := c.Pick("nan", 0, 0, 1, 4, 12) // of 16
	outl := c.Pick("outliers", 0, 1, 4)
	ties := c.Bool("ties", 1, 4)
	base := []float64{0, 1, 500, 30000, -20}[c.Int("base", 0, 4)]
	spread := []float64{0.1, 1, 10, 200}[c.Int("spread", 0, 3)]
	var fs []*fits.Image
	for k := 0; k < n; k++ {
		d := make([]float32, w*h)
		for i := range d {
			v := base + spread*r.Norm()
			if ties {
				v = base + math.Round(2*r.Norm())*spread
			}
			if r.N(16) < outl {
				v += spread * 40 * (r.F() - 0.4)
			}
			d[i] = float32(v)
			if r.N(16) < nanRate {
				d[i] = float32(math.NaN())
			}
		}
		f := mkImg(k, w, h, d)
		f.Exposure = float32(1 + r.N(100))
		f.HFR = float32(1 + 3*r.F())
		f.Stats = stats.NewStats(randData(r, 64, 0, 1+9*r.F()), 8)
		fs = append(fs, f)
	}
	mode := stack.StackMode(c.Int("mode", int(stack.StMedian), int(stack.StAuto)))
	wm := stack.StWeightNone
	if c.Bool("weighted", 2, 5) {
		wm = stack.StackWeighting(c.Int("weighting", int(stack.StWeightNone), int(stack.StWeightInverseHFR)))
	}
	if wm == stack.StWeightExposure && c.Bool("sameexpo", 1, 6) {
		for _, f := range fs {
			f.Exposure = 20
		}
	}
	if wm == stack.StWeightInverseHFR && c.Bool("samehfr", 1, 4) {
		for _, f := range fs {
			f.HFR = 2
		}
	}
	lo, hi := []float64{2.75, 1.5, 1, 4, 0.5}[c.Int("siglow", 0, 4)], []float64{2.75, 1.5, 1, 4, 0.5}[c.Int("sighigh", 0, 4)]
	bad := ""
	if c.Bool("misuse", 1, 12) {
		switch c.Int("misusekind", 0, 4) {
		case 0:
			if n > 1 {
				k := 1 + c.Int("badframe", 0, n-2)
				fs[k] = mkImg(k, w+1, h, make([]float32, (w+1)*h))
				if w != h && c.Bool("transposed", 1, 2) {
					fs[k] = mkImg(k, h, w, make([]float32, w*h))
				}
				fs[k].Stats, fs[k].Exposure = fs[0].Stats, 10
				bad = "frames of different dimensions"
			}
		case 1:
			mode, wm = stack.StMADSigma, stack.StWeightExposure
			bad = "weighted MADSigma"
		case 2:
			wm = stack.StWeightExposure
			fs[c.Int("noexpo", 0, n-1)].Exposure = 0
			bad = "exposure weights without exposure"
		case 4:
			wm = stack.StWeightInverseHFR
			fs[c.Int("nohfr", 0, n-1)].HFR = float32(math.NaN())
			bad = "HFR weights of a frame without stars"
		case 3:
			fs = nil
			bad = "no frames"
		}
	}
	eff := mode
	if mode == stack.StAuto {
		eff = autoMode(len(fs))
	}
	if eff == stack.StMADSigma && wm != stack.StWeightNone {
		bad = "weighted MADSigma"
	}
	refLoc := 0.0
	viaCtx := c.Bool("refctx", 1, 2)
	var mh *stats.Stats
	if c.Bool("refloc", 2, 3) {
		md := randData(r, 256, 90, 110)
		mh = stats.NewStats(md, 16)
	}
	orig := make([][]float32, len(fs))
	for i, f := range fs {
		orig[i] = clone32(f.Data)
	}
	var outs []*fits.Image
	var err error
	var ins []ops.Promise
	for i := range fs {
		f := fs[i]
		ins = append(ins, func() (*fits.Image, error) { vsim.Point(); return f, nil })
	}
	if bad == "no frames" && c.Bool("nilpromise", 1, 2) {
		ins = append(ins, func() (*fits.Image, error) { return nil, nil })
	}
	res := c.Sim("stack", Opt{Explore: true, NumCPU: c.Int("cpu", 1, 9), LS: 1 + c.Int("ls", 0, 1)}, func() {
		ctx := newCtx(vsim.NewLogSink(), 1000)
		op := stack.NewOpStack(mode, wm, float32(lo), float32(hi))
		if mh != nil {
			refLoc = float64(mh.Location())
			if viaCtx {
				ctx.MatchHisto = mh
			} else {
				op.RefFrameLoc = float32(refLoc)
			}
		}
		outs, err = runJob(op, ins, ctx, false)
	})
	if bad != "" {
		if err == nil {
			c.Fail("misuse-accepted", "stacking %s reported no error", bad)
		}
		c.Probe("misuse refused")
		return
	}
	if err != nil {
		c.Fail("error", "stacking failed: %v", err)
	}
	if len(outs) != 1 || outs[0] == nil {
		c.Fail("results", "%d results", len(outs))
	}
	o := outs[0]
	if len(o.Data) != w*h || len(o.Naxisn) != 2 || int(o.Naxisn[0]) != w || int(o.Naxisn[1]) != h {
		c.Fail("dimensions", "stack has dimensions %v and %d values, frames are %dx%d", o.Naxisn, len(o.Data), w, h)
	}
	sum := 0.0
	for _, f := range fs {
		sum += float64(f.Exposure)
	}
	if !near(o.Exposure, float32(sum), 1e-5, 0) {
		c.Fail("exposure", "exposure of the stack is %v, frames add up to %v", o.Exposure, sum)
	}
	for i, f := range fs {
		if k := bitsEq(f.Data, orig[i]); k >= 0 {
			c.Fail("input-modified", "stacking changed frame %d at %d from %s to %s", i, k, at(orig[i], k), at(f.Data, k))
		}
	}
	checkStack(c, o.Data, orig, eff, stackWeights(fs, wm), lo, hi, refLoc)
	if res.Tasks > 2 {
		c.Nontrivial()
	}
}
