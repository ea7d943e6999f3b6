package main

import (
	"github.com/mlnoga/nightlight/internal/ops/post"
	"github.com/mlnoga/nightlight/internal/ops/stack"
	"github.com/mlnoga/nightlight/internal/zzverif/vsim"
)

// P02: the stacked result depends only on the inputs, not on thread count or scheduling.
func init() {
	register(&Prop{ID: "P02", Quick: 1200, Rule: "Each case draws a star field of light frames, the stacking configuration, two thread counts and two schedules.", Run: runP02})
}

func drawStack(c *Case, s *scene) stackCfg {
	g := defStackCfg()
	if s.Dark != nil {
		g.Dark = "dark.fits"
	}
	if s.Flat != nil {
		g.Flat = "flat.fits"
	}
	g.HistoRef = c.PickS("historef", "%starsHFR", "%location", "1")
	g.AlignRef = c.PickS("alignref", "%starsHFR", "%location", "0")
	g.NormHist = post.HistoNormMode(c.Pick("norm", post.HNMLocScale, post.HNMLocation, post.HNMNone, post.HNMLocBlack))
	g.Mode = stack.StackMode(c.Pick("mode", int(stack.StAuto), int(stack.StMedian), int(stack.StMean), int(stack.StSigma), int(stack.StWinsorSigma), int(stack.StMADSigma), int(stack.StLinearFit)))
	if c.Bool("weighted", 1, 4) {
		g.Mode = stack.StackMode(c.Pick("wmode", int(stack.StMean), int(stack.StSigma), int(stack.StWinsorSigma)))
		g.Weight = stack.StWeightExposure
	}
	if c.Bool("saves", 1, 3) {
		g.Pre, g.Post = "pre%03d.fits", "post%03d.fits"
	}
	return g
}

func runP02(c *Case) {
	n := c.Int("n", 2, 6)
	if c.Bool("many", 1, 25) {
		n = c.Int("n2", 9, 24)
	}
	r := c.Rand("scene")
	s := makeScene(r, sceneOpt{N: n, W: c.Int("w", 48, 64), H: c.Int("h", 44, 60), NStars: c.Int("stars", 6, 9), Shift: 3, Dark: c.Bool("dark", 1, 2), Flat: c.Bool("flat", 1, 2), GainSpread: 0.1, NoiseSpread: 0.5, Cosmics: c.Int("cosmics", 0, 5)})
	g := drawStack(c, s)
	type out struct {
		digest string
		err    string
	}
	one := func(name string, cpu int, explore bool) out {
		fs := vsim.NewFS()
		s.write(fs, "light")
		var o out
		c.Sim(name, Opt{Explore: explore, NumCPU: cpu, FS: fs, LS: 1 + c.Pick("ls", 1, 1, 1, 1, 1, 1, 0, 3, 4)}, func() {
			ctx := newCtx(vsim.NewLogSink(), 2000)
			_, err := runJob(g.stackOps(), nil, ctx, true)
			o.err = errStr(err)
		})
		for _, p := range fs.List() {
			if p != "/work/out.html" {
				b, _ := fs.Get(p)
				o.digest += p + " " + fileDigest(p, b) + "\n"
			}
		}
		return o
	}
	a := one("one thread", 1, false)
	if a.err != "" {
		c.Probe("job failed: " + a.err)
	}
	b := one("threads", c.Int("cpu", 1, 6), true)
	if a != b {
		c.Fail("schedule-dependent", "results differ from the single-threaded run:\n%s%s\nversus\n%s%s", a.err, a.digest, b.err, b.digest)
	}
	c.Nontrivial()
}
