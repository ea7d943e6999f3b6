package main

import (
	"fmt"
	"math"
	"strconv"
	"strings"

	"github.com/mlnoga/nightlight/internal/ops/post"
	"github.com/mlnoga/nightlight/internal/ops/stack"
	"github.com/mlnoga/nightlight/internal/zzverif/vsim"
)

// P33: what comes out of a whole stacking job is the sky its frames show.
func init() {
	register(&Prop{ID: "P33", Quick: 600, Rule: "Each case draws a star field and 3-14 frames of it, taken with shifts, rotations, meridian flips, other gains, backgrounds and exposures, with noise, cosmic rays, vignetting, dark current with hot pixels and frames without stars, kept in plain and compressed files, and draws stacking mode, weights, normalization, cosmetic correction, memory limit (one or several batches), threads, estimator and schedule; the whole stacking job then runs from files to file. Non-trivial: the job wrote a stack", Run: runP33})
}

// view is what one frame shows of the sky.
type view struct {
	a, b, tx, ty float64 // rotation and shift from the sky to the frame
	gain, bg     float64
	expo         float64
	blind        bool
}

func (v *view) at(x, y float64) (float64, float64) {
	return v.a*x - v.b*y + v.tx, v.b*x + v.a*y + v.ty
}

func (v *view) back(x, y float64) (float64, float64) {
	x, y = x-v.tx, y-v.ty
	return v.a*x + v.b*y, -v.b*x + v.a*y
}

// show renders the sky without noise.
func (v *view) show(stars []starPos, w, h int) []float64 {
	d := make([]float64, w*h)
	for i := range d {
		d[i] = v.bg
	}
	if v.blind {
		return d
	}
	for _, s := range stars {
		x0, y0 := v.at(s.X, s.Y)
		for y := int(y0) - 9; y <= int(y0)+9; y++ {
			for x := int(x0) - 9; x <= int(x0)+9; x++ {
				if x >= 0 && y >= 0 && x < w && y < h {
					ex, ey := float64(x)-x0, float64(y)-y0
					d[y*w+x] += v.gain * s.A * math.Exp(-(ex*ex+ey*ey)/(2*s.S*s.S))
				}
			}
		}
	}
	return d
}

func runP33(c *Case) {
	r := c.Rand("scene")
	n := c.Int("n", 3, 10)
	w, h := c.Int("w", 130, 160), c.Int("h", 130, 160)
	mem := 1000
	if c.Bool("batches", 1, 4) {
		w, h, mem, n = w+25, h+25, 1, n+4
	}
	stars := skyModel(r, w, h, 26+r.N(8), 15)
	for i := range stars { // no two alike
		stars[i].A = 1500 * math.Pow(1.08, float64(i)) * (1 + 0.05*r.F())
		stars[i].S = 1.5 + 0.5*r.F()
	}
	noise := 3 + 9*r.F()
	g := defStackCfg()
	g.Mode = stack.StackMode(c.Pick("mode", int(stack.StMedian), int(stack.StMean), int(stack.StSigma), int(stack.StWinsorSigma), int(stack.StMADSigma), int(stack.StLinearFit), int(stack.StAuto)))
	g.NormHist = post.HistoNormMode(c.Pick("norm", int(post.HNMLocScale), int(post.HNMLocScale), int(post.HNMNone), int(post.HNMNone)))
	if g.Mode != stack.StMADSigma {
		g.Weight = stack.StackWeighting(c.Pick("weight", int(stack.StWeightNone), int(stack.StWeightNone), int(stack.StWeightExposure), int(stack.StWeightInverseNoise), int(stack.StWeightInverseHFR)))
	}
	if g.Mode == stack.StMedian || c.Bool("nobadpix", 2, 3) {
		g.BpLow, g.BpHigh = 0, 0
	}
	g.Stats = ""
	var dark, flat []float32
	if c.Bool("dark", 1, 2) {
		g.Dark = "dark.fits"
		dark = randData(r, w*h, 90, 110)
		for k := 0; k < 20; k++ {
			dark[r.N(w*h)] += float32(3000 * r.F())
		}
	}
	if c.Bool("flat", 1, 2) {
		g.Flat = "flat.fits"
		flat = make([]float32, w*h)
		for i := range flat {
			x, y := float64(i%w)/float64(w)-0.5, float64(i/w)/float64(h)-0.5
			flat[i] = float32(30000 * (1 - 0.6*(x*x+y*y) + 0.05*x))
		}
	}
	cosmics := 0
	if (g.Mode == stack.StMedian || g.Mode == stack.StMADSigma) && n >= 7 && mem > 1 {
		cosmics = c.Pick("cosmics", 0, 3, 6)
	}
	fs := vsim.NewFS()
	if dark != nil {
		fs.Put("dark.fits", fitsF32(w, h, dark, "10.0"))
	}
	if flat != nil {
		fs.Put("flat.fits", fitsF32(w, h, flat, "10.0"))
	}
	var vs []*view
	seeing := 0
	rotate, flip := c.Bool("rotate", 1, 2), c.Bool("flip", 1, 5)
	turn := [3]float64{0.04, 0.15, 0.4}[c.Int("turn", 0, 2)]
	for i := 0; i < n; i++ {
		v := &view{a: 1, gain: 1, bg: 600, expo: float64(5 + r.N(60))}
		if i > 0 {
			v.tx, v.ty = (r.F()*2-1)*4, (r.F()*2-1)*4
			if rotate {
				th := (r.F()*2 - 1) * turn
				cx, cy := float64(w)/2, float64(h)/2
				v.a, v.b = math.Cos(th), math.Sin(th)
				v.tx += cx - (v.a*cx - v.b*cy)
				v.ty += cy - (v.b*cx + v.a*cy)
			}
			if flip && r.N(2) == 0 {
				v.a, v.b, v.tx, v.ty = -v.a, -v.b, float64(w-1)-v.tx, float64(h-1)-v.ty
			}
		}
		if g.NormHist == post.HNMLocScale {
			v.gain = 0.7 + 0.6*r.F()
		}
		if g.NormHist != post.HNMNone {
			v.bg = 300 + 700*r.F()
		}
		if seeing > 2 && mem > 1 && cosmics == 0 && r.N(6) == 0 {
			v.blind = true
		} else {
			seeing++
		}
		d := v.show(stars, w, h)
		for j := range d {
			d[j] += v.gain * noise * r.Norm()
		}
		for k := 0; k < cosmics; k++ {
			d[r.N(len(d))] += 200 + 3000*r.F()
		}
		raw := make([]float32, len(d))
		for j, x := range d {
			raw[j] = float32(x)
			if flat != nil {
				raw[j] *= flat[j] / 30000
			}
			if dark != nil {
				raw[j] += dark[j]
			}
		}
		b := fitsF32(w, h, raw, strconv.FormatFloat(v.expo, 'f', 1, 64))
		if r.N(4) == 0 {
			fs.Put(fmt.Sprintf("light%03d.fits.gz", i), gz(b))
		} else {
			fs.Put(fmt.Sprintf("light%03d.fits", i), b)
		}
		vs = append(vs, v)
	}
	var err error
	log := vsim.NewLogSink()
	c.Sim("job", Opt{Explore: true, NumCPU: c.Int("cpu", 1, 4), FS: fs, LS: c.Pick("ls", 2, 4, 4), NoRace: true, MemMiB: 64000, StepCap: 6000000}, func() {
		_, err = runJob(g.stackOps(), nil, newCtx(log, mem), true)
	})
	if err != nil {
		c.Fail("job-failed", "stacking %d good frames of %d fails: %v", seeing, n, err)
	}
	raw, ok := fs.Get("out.fits")
	if !ok {
		c.Fail("no-output", "the job succeeded without an output file")
	}
	out, e := decodeFits(raw)
	if e != nil || len(out.Data) != w*h {
		c.Fail("no-output", "output file: %v", e)
	}
	batches := 0
	for _, m := range log.Msgs {
		fmt.Sscanf(m, "\nStarting batch %d of", &batches)
	}
	if batches > 1 {
		c.Probe("several batches")
	}
	c.Nontrivial()
	// the reference frame is the one whose sky the stack shows
	ref, best := -1, math.Inf(1)
	for i, v := range vs {
		if v.blind {
			continue
		}
		q := 0.0
		for j, x := range v.show(stars, w, h) {
			if o := float64(out.Data[j]); o == o && !math.IsInf(o, 0) {
				q += math.Min(math.Abs(o-x), 100)
			}
		}
		if q < best {
			ref, best = i, q
		}
	}
	rv := vs[ref]
	want := rv.show(stars, w, h)
	sig := noise * rv.gain
	// where all frames overlap, and far from stars
	used, sumE, sumW, sumW2 := 0, 0.0, 0.0, 0.0
	for _, v := range vs {
		if v.blind {
			continue
		}
		used++
		sumE += v.expo
		wt := 1.0
		if g.Weight == stack.StWeightExposure {
			wt = v.expo
		}
		sumW, sumW2 = sumW+wt, sumW2+wt*wt
	}
	inAll := func(x, y int, m float64) bool {
		sx, sy := rv.back(float64(x), float64(y))
		for _, v := range vs {
			if v.blind {
				continue
			}
			if fx, fy := v.at(sx, sy); fx < m || fy < m || fx > float64(w-1)-m || fy > float64(h-1)-m {
				return false
			}
		}
		return true
	}
	var s1, s2, worst float64
	worstAt, cnt := 0, 0
	for i := range want {
		x, y := i%w, i/w
		v := float64(out.Data[i])
		if v != v || math.IsInf(v, 0) {
			if inAll(x, y, 2) {
				c.Fail("undefined", "pixel %d,%d which all frames show is %g in the stack", x, y, v)
			}
			continue
		}
		if !inAll(x, y, 3) || want[i]-rv.bg > 0.02*sig {
			continue
		}
		d := v - want[i]
		s1, s2, cnt = s1+d, s2+d*d, cnt+1
		if math.Abs(d) > worst {
			worst, worstAt = math.Abs(d), i
		}
	}
	if cnt < 300 {
		c.Probe("little background")
		return
	}
	mean := s1 / float64(cnt)
	rms := math.Sqrt(s2/float64(cnt) - mean*mean)
	lim := sig * math.Sqrt(sumW2) / sumW
	// stars
	var wf, wp, ax, ay, an float64
	for _, s := range stars {
		x0, y0 := rv.at(s.X, s.Y)
		if !inAll(int(x0), int(y0), 9) {
			continue
		}
		var f, fw, mx, my, wx, wy float64
		for y := int(y0+0.5) - 6; y <= int(y0+0.5)+6; y++ {
			for x := int(x0+0.5) - 6; x <= int(x0+0.5)+6; x++ {
				if ex, ey := float64(x)-x0, float64(y)-y0; ex*ex+ey*ey > 30 {
					continue
				}
				v := float64(out.Data[y*w+x]) - rv.bg - mean
				u := want[y*w+x] - rv.bg
				f, mx, my = f+v, mx+v*float64(x), my+v*float64(y)
				fw, wx, wy = fw+u, wx+u*float64(x), wy+u*float64(y)
			}
		}
		wf = math.Max(wf, math.Abs(f/fw-1))
		ax, ay, an = ax+mx/f-wx/fw, ay+my/f-wy/fw, an+1
		wp = math.Max(wp, math.Hypot(mx/f-wx/fw, my/f-wy/fw))
	}
	if math.Abs(mean) > 0.6*sig {
		c.Fail("background", "the background of the stack is off by %.3g, with noise of %.3g in each frame", mean, sig)
	}
	maxRMS := 1.4
	if g.Weight == stack.StWeightInverseHFR {
		maxRMS = 1.7
	}
	if rms > maxRMS*lim {
		c.Fail("noise", "the noise of a stack of %d frames is %.3g, expected about %.3g", used, rms, lim)
	}
	if worst > 5*sig || worst > 9*lim && worst > 3.5*sig {
		c.Fail("background", "background pixel %d,%d is off by %.3g, with noise of %.3g in each frame", worstAt%w, worstAt/w, worst, sig)
	}
	maxFlux := 0.15
	if g.BpHigh > 0 { // cosmetic correction takes the tips of stars
		maxFlux = 0.35
	}
	if wf > maxFlux {
		c.Fail("star", "the light of a star is off by %.0f %%", 100*wf)
	}
	if an > 0 && math.Hypot(ax, ay)/an > 0.9 || wp > 2.5 {
		c.Fail("star", "stars are off by %.2f pixels on average, by %.2f at most", math.Hypot(ax, ay)/an, wp)
	}
	if ex, _ := strconv.ParseFloat(strings.TrimSpace(strings.Join(out.Keys["EXPOSURE"], "")), 64); math.Abs(ex-sumE) > 0.01 {
		c.Fail("exposure", "the frames stacked were exposed for %g s in total, the stack says %g", sumE, ex)
	}
}
