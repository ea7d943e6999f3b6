package main

import (
	"fmt"

	"github.com/mlnoga/nightlight/internal/ops/post"
	"github.com/mlnoga/nightlight/internal/ops/stack"
	"github.com/mlnoga/nightlight/internal/zzverif/vsim"
)

// P07: frames that cannot be used are left out without any effect on the others.
func init() {
	register(&Prop{ID: "P07", Quick: 1500, Rule: "Each case draws a set of good light frames (in a third of the cases the minimum is the star count of one of them), adds 1-4 unusable ones (no stars, too few stars for the filter) at drawn positions, and runs the stacking job with and without them under drawn schedules and thread counts. Non-trivial: the job without the unusable frames succeeds.", Run: runP07})
}

func runP07(c *Case) {
	good := c.Int("good", 1, 5)
	bad := c.Int("bad", 1, 4)
	if c.Bool("many", 1, 25) {
		good, bad = c.Int("good2", 4, 12), c.Int("bad2", 3, 9)
	}
	r := c.Rand("scene")
	w, h := c.Int("w", 52, 64), c.Int("h", 48, 60)
	o := sceneOpt{N: good, W: w, H: h, NStars: c.Int("stars", 7, 10), Shift: 2.5, Dark: c.Bool("dark", 1, 3), NoiseSpread: 0.3, GainSpread: 0.1}
	s := makeScene(r, o)
	g := defStackCfg()
	if s.Dark != nil {
		g.Dark = "dark.fits"
	}
	g.Mode = stack.StackMode(c.Pick("mode", int(stack.StMedian), int(stack.StMean), int(stack.StSigma), int(stack.StMADSigma)))
	g.NormHist = post.HistoNormMode(c.Pick("norm", post.HNMLocScale, post.HNMLocation, post.HNMNone))
	g.MinStars = c.Pick("minstars", 0, 0, 4)
	if g.Mode != stack.StMADSigma && c.Bool("expw", 1, 4) {
		g.Weight = stack.StWeightExposure
	}
	g.Stats = c.PickS("statsfile", "", "out.html")
	if c.Bool("post", 1, 3) {
		g.Post = "post%03d.fits"
	}
	exact := c.Bool("exact", 1, 3) // the minimum is the star count of the good frame with the fewest stars
	// the unusable frames
	type frame struct {
		data []float32
		expo float64
		bad  bool
	}
	var all []frame
	for i := range s.Frames {
		all = append(all, frame{s.Frames[i], s.Expo[i], false})
	}
	for k := 0; k < bad; k++ {
		st := []starPos(nil)
		if (g.MinStars > 0 || exact) && c.Bool(fmt.Sprint("fewstars", k), 1, 2) {
			st = s.Stars[:1+r.N(2)]
		}
		d := renderSky(r, st, w, h, 300+400*r.F(), 8, 1, 0, 0)
		f := frame{d, float64(100 + r.N(900)), true}
		p := c.Int(fmt.Sprint("pos", k), 0, len(all))
		all = append(all[:p], append([]frame{f}, all[p:]...)...)
	}
	if exact {
		g.MinStars = 0
	}
	fewest := 0     // stars of the good frame with the fewest of them
	refBad := false // an unusable frame is rated best and becomes the reference
	run := func(name string, withBad, explore bool, cpu int) (*fitsFile, string, *vsim.FS) {
		fs := vsim.NewFS()
		t := *s
		t.Frames, t.Expo, t.Ext = nil, nil, nil
		for _, f := range all {
			if withBad || !f.bad {
				t.Frames, t.Expo, t.Ext = append(t.Frames, f.data), append(t.Expo, f.expo), append(t.Ext, ".fits")
			}
		}
		t.write(fs, "light")
		var err error
		log := vsim.NewLogSink()
		c.Sim(name, Opt{Explore: explore, NumCPU: cpu, FS: fs, LS: 2, NoRace: true}, func() {
			_, err = runJob(g.stackOps(), nil, newCtx(log, 2000), true)
		})
		fewest = 1 << 30
		for _, m := range log.Msgs {
			k, stars := 0, 0
			if n, _ := fmt.Sscanf(m, "%d: Stars %d HFR", &k, &stars); n == 2 && k >= 0 && (!withBad || k < len(all) && !all[k].bad) && stars < fewest {
				fewest = stars
			}
			if n, _ := fmt.Sscanf(m, "Using image %d with score", &k); n == 1 && withBad && k >= 0 && k < len(all) && all[k].bad {
				refBad = true
			}
		}
		b, ok := fs.Get("out.fits")
		if err != nil {
			return nil, err.Error(), fs
		}
		if !ok {
			c.Fail("no-output", "the job succeeded without an output file")
		}
		f, e := decodeFits(b)
		if e != nil {
			c.Fail("no-output", "output file: %v", e)
		}
		return f, "", fs
	}
	a, ea, fsa := run("good only", false, false, 1)
	if exact && ea == "" && fewest >= 4 && fewest < 1<<30 {
		g.MinStars = fewest
		c.Probe("good frame with the minimum of stars")
	} else if exact {
		return
	}
	b, eb, fsb := run("with unusable", true, true, c.Int("cpu", 1, 5))
	if ea != "" {
		c.Probe("good frames alone fail: " + ea)
		return
	}
	if exact && fewest < g.MinStars {
		c.Probe("star count depends on sampling")
		return
	}
	if refBad {
		c.Probe("unusable frame rated best")
		return
	}
	if eb != "" {
		c.Fail("job-failed", "%d good frames stack, but with %d unusable frames the job fails: %s", good, bad, eb)
	}
	c.Nontrivial()
	if len(a.Data) != len(b.Data) {
		c.Fail("affected", "outputs have %d and %d pixels", len(a.Data), len(b.Data))
	}
	if i := nearAll(a.Data, b.Data, 1e-5, 1e-3); i >= 0 {
		c.Fail("affected", "with %d unusable frames among %d good ones, pixel %d is %s instead of %s", bad, good, i, at(b.Data, i), at(a.Data, i))
	}
	if fmt.Sprint(a.Keys["EXPOSURE"]) != fmt.Sprint(b.Keys["EXPOSURE"]) {
		c.Fail("affected", "with unusable frames the exposure is %v instead of %v", b.Keys["EXPOSURE"], a.Keys["EXPOSURE"])
	}
	if g.Post != "" { // the aligned frames
		k := 0
		for i, f := range all {
			y, ok := fsb.Get(fmt.Sprintf(g.Post, i))
			if f.bad {
				if ok {
					c.Fail("not-left-out", "unusable frame %d reaches the end of the chain", i)
				}
				continue
			}
			x, ok2 := fsa.Get(fmt.Sprintf(g.Post, k))
			k++
			if ok != ok2 {
				c.Fail("affected", "good frame %d reaches the end of the chain without the unusable ones: %v, with them: %v", i, ok2, ok)
			}
			if !ok {
				continue
			}
			fx, e1 := decodeFits(x)
			fy, e2 := decodeFits(y)
			if e1 != nil || e2 != nil || len(fx.Data) != len(fy.Data) {
				c.Fail("affected", "good frame %d: aligned files are invalid or differ in size: %v %v", i, e1, e2)
			}
			if j := nearAll(fx.Data, fy.Data, 1e-5, 1e-3); j >= 0 {
				c.Fail("affected", "with %d unusable frames, pixel %d of aligned frame %d is %s instead of %s", bad, j, i, at(fy.Data, j), at(fx.Data, j))
			}
		}
		c.Probe("aligned frames saved")
	}
	if g.Stats != "" {
		if _, ok := fsb.Get(g.Stats); !ok {
			c.Fail("affected", "the statistics file is missing")
		}
	}
}
