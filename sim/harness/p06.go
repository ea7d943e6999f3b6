package main

import (
	"fmt"
	"math"
	"sort"
	"strings"

	"github.com/mlnoga/nightlight/internal/fits"
	"github.com/mlnoga/nightlight/internal/ops"
	"github.com/mlnoga/nightlight/internal/ops/pre"
	"github.com/mlnoga/nightlight/internal/ops/ref"
	"github.com/mlnoga/nightlight/internal/star"
	"github.com/mlnoga/nightlight/internal/stats"
	"github.com/mlnoga/nightlight/internal/zzverif/vsim"
)

// P06: selection of the alignment and histogram references.
func init() {
	register(&Prop{ID: "P06", Quick: 6000, Rule: "Each case draws 1-9 frames with star counts, HFR and brightness (with ties), frames rejected or failing before the selection, selection modes for the alignment and the histogram reference, a second batch, read faults on a reference file, thread count and schedule. Non-trivial: more than one frame and thread.", Run: runP06})
}

func runP06(c *Case) {
	n := c.Int("n", 1, 9)
	if c.Bool("many", 1, 40) {
		n *= c.Int("manyof", 2, 14)
	}
	cpu := c.Int("cpu", 1, 6)
	r := c.Rand("data")
	rejects := c.Pick("rejects", 0, 0, 0, 1, 3, 10) // of 10
	reject := make([]bool, n)
	for i := range reject {
		reject[i] = r.N(10) < rejects
	}
	failAt := -1
	if c.Bool("fails", 1, 12) {
		failAt = r.N(n)
	}
	coarse := c.Bool("ties", 1, 3)
	sw := c.Pick("width", 8, 8, 9)
	img := make([]*fits.Image, n)
	for i := range img {
		lvl := 100 + 50*r.F()
		if coarse {
			lvl = 100 + float64(10*r.N(3))
		}
		d := randData(r, sw*8, lvl-1, lvl+1)
		if coarse {
			for j := range d {
				d[j] = float32(lvl)
			}
		}
		f := mkImg(i, sw, 8, d)
		f.Stats = stats.NewStats(d, int32(sw))
		k := r.N(30)
		if coarse {
			k = r.N(3)
		}
		for s := 0; s < k; s++ {
			f.Stars = append(f.Stars, star.Star{Index: int32(s), Value: float32(i*100 + s)})
		}
		f.HFR = float32(1 + 2*r.F())
		if coarse {
			f.HFR = float32(r.N(3))
		}
		img[i] = f
	}
	modes := []string{"%starsHFR", "%location", "%rgb", "idx", "file", "", "badidx", "nofile"}
	pick := func(nm string) string {
		m := modes[c.Pick(nm, 0, 0, 0, 1, 1, 2, 3, 3, 4, 5, 6, 7)]
		switch m {
		case "idx":
			return fmt.Sprint(c.Int(nm+".idx", 0, n-1))
		case "badidx":
			return fmt.Sprint(c.Pick(nm+".bad", n, n+5, -1))
		case "nofile":
			return "missing.fits"
		case "file":
			return "refframe.fits"
		}
		return m
	}
	histo := c.Bool("histo", 2, 3)
	align := !histo || c.Bool("align", 2, 3)
	mH, mA := pick("mh"), pick("ma")
	fs := vsim.NewFS()
	sc := makeScene(c.Rand("ref"), sceneOpt{N: 1, W: 48, H: 44, NStars: 5})
	fs.Put("refframe.fits", fitsF32(48, 44, sc.Frames[0], "10"))
	twice := c.Bool("second", 1, 3)
	later := !twice && c.Bool("later", 1, 2) // a later step changes the dimensions of the frames
	plan := &vsim.FaultPlan{Kinds: map[string]float64{"read-short": 0.1}, Max: 1}
	if c.Bool("faults", 1, 5) {
		plan.Kinds[c.PickS("fault", "open-eio", "read-eio", "open-emfile")] = 0.3
	}
	type seen struct {
		stars []star.Star
		hfr   float32
		mh    *stats.Stats
		loc   float32
		nax   []int32
	}
	var calls [2][]int
	var saw [2][]*seen
	var outs [2][]*fits.Image
	var errs [2]error
	locs := make([]float32, n)
	data := make([][]float32, n)
	for i := range img {
		data[i] = clone32(img[i].Data)
	}
	res := c.Sim("select", Opt{Explore: true, FS: fs, Plan: plan, NumCPU: cpu, LS: 2}, func() {
		for i := range img {
			locs[i] = img[i].Stats.Location()
		}
		ctx := newCtx(vsim.NewLogSink(), 1000)
		sd := pre.NewOpStarDetect(8, 10, 0, 1.4, "")
		var seq []ops.Operator
		if histo {
			seq = append(seq, ref.NewOpSelectReference(ref.SRHisto, mH, sd))
		}
		if align {
			seq = append(seq, ref.NewOpSelectReference(ref.SRAlign, mA, sd))
		}
		batch := 0
		seq = append(seq, newFnOp(func(f *fits.Image, cc *ops.Context) (*fits.Image, error) {
			s := &seen{stars: cc.AlignStars, hfr: cc.AlignHFR, mh: cc.MatchHisto, nax: append([]int32(nil), cc.AlignNaxisn...)}
			if cc.MatchHisto != nil {
				s.loc = cc.MatchHisto.Location()
			}
			saw[batch] = append(saw[batch], s)
			vsim.Point()
			return f, nil
		}))
		if later {
			seq = append(seq, pre.NewOpDebayer("R", "RGGB"))
		}
		op := ops.NewOpSequence(seq...)
		for b := 0; b < 2; b++ {
			if b == 1 && !twice {
				break
			}
			batch = b
			calls[b] = make([]int, n)
			var ins []ops.Promise
			for i := 0; i < n; i++ {
				i, b := i, b
				k := i
				if b == 1 {
					k = n - 1 - i // another order in the second batch
				}
				ins = append(ins, func() (*fits.Image, error) {
					calls[b][k]++
					vsim.Point()
					if k == failAt {
						return nil, fmt.Errorf("frame <%d> failed", k)
					}
					if reject[k] {
						return nil, nil
					}
					return img[k], nil
				})
			}
			outs[b], errs[b] = runJob(op, ins, ctx, false)
			if errs[b] != nil {
				break
			}
		}
	})
	hard := 0
	for _, f := range res.Faults {
		if f.Kind != "read-short" {
			hard++
		}
	}
	var left []int
	for i := range reject {
		if !reject[i] {
			left = append(left, i)
		}
	}
	// expected choices: index of the frame, -1 from the file, -2 none, -3 error
	choose := func(m string, align bool) int {
		starsHFR := func() int {
			best, bs := -3, float32(-1)
			for _, i := range left {
				s := float32(len(img[i].Stars)) / img[i].HFR
				if len(img[i].Stars) == 0 || img[i].HFR == 0 {
					s = 0
				}
				if s > bs {
					best, bs = i, s
				}
			}
			return best
		}
		switch m {
		case "%starsHFR":
			return starsHFR()
		case "%rgb":
			if n > 3 {
				if reject[3] {
					return -3
				}
				return 3
			}
			return starsHFR()
		case "%location":
			if len(left) == 0 {
				return -3
			}
			var l []float64
			for _, i := range left {
				l = append(l, float64(locs[i]))
			}
			sort.Float64s(l)
			md := l[len(l)/2]
			if len(l)%2 == 0 {
				md = (l[len(l)/2-1] + l[len(l)/2]) / 2
			}
			best, bd := -3, math.Inf(1)
			for _, i := range left {
				d := math.Abs(float64(locs[i]) - md)
				if d < bd-1e-5*math.Abs(md) {
					best, bd = i, d
				} else if d < bd+1e-5*math.Abs(md) && locs[i] != locs[best] {
					return -4 // two frames are equally close
				}
			}
			return best
		case "":
			return -2
		case "refframe.fits":
			return -1
		case "missing.fits":
			return -3
		}
		var k int
		fmt.Sscan(m, &k)
		if k < 0 || k >= n || reject[k] {
			return -3
		}
		return k
	}
	wantErr := failAt >= 0
	eh, ea := -2, -2
	if histo {
		eh = choose(mH, false)
	}
	if align {
		ea = choose(mA, true)
	}
	anyErr := errs[0] != nil || errs[1] != nil
	// without any frame left to pass through, a later selection still must report that it cannot choose
	if eh == -3 || ea == -3 {
		wantErr = true
	}
	if wantErr && !anyErr {
		c.Fail("error-lost", "modes histogram %q alignment %q, %d frames, rejected %v, failing %d: no error", mH, mA, n, reject, failAt)
	}
	if failAt >= 0 && hard == 0 && eh != -3 && ea != -3 {
		text := fmt.Sprintf("frame <%d> failed", failAt)
		if !strings.Contains(errStr(errs[0]), text) && !strings.Contains(errStr(errs[1]), text) {
			c.Fail("error-lost", "modes histogram %q alignment %q: frame %d failed, the job only says %v %v", mH, mA, failAt, errs[0], errs[1])
		}
	}
	if !wantErr && hard == 0 && anyErr {
		c.Fail("spurious-error", "modes histogram %q alignment %q, %d frames, rejected %v: %v %v", mH, mA, n, reject, errs[0], errs[1])
	}
	if hard > 0 && !anyErr {
		c.Fail("error-lost", "the reference file could not be read (%v), but the job succeeded", res.Faults)
	}
	for b := range calls {
		for k, x := range calls[b] {
			if x > 1 || x == 0 && !anyErr {
				c.Fail("evaluations", "frame %d was evaluated %d times in batch %d", k, x, b)
			}
		}
	}
	if anyErr {
		c.Probe("selection failed")
		return
	}
	var first *seen
	for b := range saw {
		if b == 1 && !twice {
			break
		}
		if len(outs[b]) != len(left) || len(saw[b]) != len(left) {
			c.Fail("results", "batch %d: %d of %d frames came through", b, len(outs[b]), len(left))
		}
		for j, o := range outs[b] {
			e := left[j]
			if b == 1 {
				e = left[len(left)-1-j]
			}
			if o != img[e] {
				c.Fail("order", "batch %d: result %d is frame %d, expected %d", b, j, o.ID, e)
			}
			if k := bitsEq(o.Data, data[e]); k >= 0 && !later {
				c.Fail("modified", "frame %d changed at %d", e, k)
			}
		}
		for _, s := range saw[b] {
			if first == nil {
				first = s
			}
			if s.loc != first.loc || (s.mh == nil) != (first.mh == nil) || f32bits(s.hfr) != f32bits(first.hfr) || len(s.stars) != len(first.stars) || (s.nax == nil) != (first.nax == nil) || len(s.stars) > 0 && s.stars[0].Value != first.stars[0].Value || len(s.nax) > 0 && s.nax[0] != first.nax[0] {
				c.Fail("reference-changed", "frames of one job saw different references (batch %d): location %v and %v, HFR %v and %v, %d and %d stars", b, s.loc, first.loc, s.hfr, first.hfr, len(s.stars), len(first.stars))
			}
		}
	}
	if first == nil {
		return
	}
	if n > 1 && cpu > 1 {
		c.Nontrivial()
	}
	switch {
	case ea >= 0:
		f := img[ea]
		if f32bits(first.hfr) != f32bits(f.HFR) || len(first.stars) != len(f.Stars) || len(f.Stars) > 0 && first.stars[0].Value != f.Stars[0].Value || len(first.nax) != 2 || first.nax[0] != int32(sw) || first.nax[1] != 8 {
			c.Fail("wrong-reference", "alignment mode %q: expected frame %d (%d stars, HFR %v), got %d stars, HFR %v", mA, ea, len(f.Stars), f.HFR, len(first.stars), first.hfr)
		}
	case ea == -1:
		if len(first.nax) != 2 || first.nax[0] != 48 {
			c.Fail("wrong-reference", "alignment reference from a file: dimensions %v with %d stars", first.nax, len(first.stars))
		}
	case ea == -2:
		if first.nax != nil {
			c.Fail("wrong-reference", "an alignment reference was set although none was asked for")
		}
	}
	switch {
	case eh >= 0:
		if !near(first.loc, locs[eh], 1e-6, 0) {
			c.Fail("wrong-reference", "histogram mode %q: expected frame %d with location %v, got %v of %v", mH, eh, locs[eh], first.loc, locs)
		}
	case eh == -1:
		if first.mh == nil || math.Abs(float64(first.loc)-500) > 100 {
			c.Fail("wrong-reference", "histogram reference from a file: location %v", first.loc)
		}
	case eh == -2:
		if first.mh != nil {
			c.Fail("wrong-reference", "a histogram reference was set although none was asked for")
		}
	}
}
