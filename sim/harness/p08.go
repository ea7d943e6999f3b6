package main

import (
	"fmt"
	"math"
	"sort"
	"strings"

	"github.com/mlnoga/nightlight/internal/fits"
	"github.com/mlnoga/nightlight/internal/ops"
	"github.com/mlnoga/nightlight/internal/ops/ref"
	"github.com/mlnoga/nightlight/internal/ops/stack"
	"github.com/mlnoga/nightlight/internal/star"
	"github.com/mlnoga/nightlight/internal/zzverif/vsim"
)

// P08: the statistics file has exactly one row per processed frame, with that frame's figures.
func init() {
	register(&Prop{ID: "P08", Quick: 8000, Rule: "Each case draws 1-12 frames (some rejected or failing before the export), one pass or several batches, an earlier statistics file, disk faults or a full disk, thread count and schedule; some jobs load their frames from files of several patterns; the written table is parsed and compared with the frames. Non-trivial: more than one row.", Run: runP08})
}

// frames of several patterns of file names are numbered in their order
func runP08Files(c *Case) {
	r := c.Rand("files")
	fs := vsim.NewFS()
	var pats []string
	var lows []float64
	dirs := []string{"c", "a/", "b", "a/x", "e/", "e/a/x"}
	for i := range dirs {
		j := i + r.N(len(dirs)-i)
		dirs[i], dirs[j] = dirs[j], dirs[i]
	}
	np, many := 1+r.N(4), c.Bool("many", 1, 25)
	if many {
		np = 4
	}
	for k := range dirs[:np] {
		n := 1 + r.N(4)
		if many {
			n = 60 + r.N(40)
		}
		if r.N(4) == 0 {
			pats = append(pats, "no"+dirs[k]+"*.fits") // without a file
		}
		pats = append(pats, dirs[k]+"[0-9]*.fits")
		for i := 0; i < n; i++ {
			low := 1 + float64(len(lows)*3)/16
			d := randData(r, 64, 200, 100)
			for j := range d {
				if float64(d[j]) < low {
					d[j] = float32(low)
				}
			}
			d[r.N(len(d))] = float32(low)
			fs.Put(fmt.Sprintf("%s%03d.fits", dirs[k], i), fitsF32(8, 8, d, "3.0"))
			lows = append(lows, low)
		}
	}
	for _, d := range dirs {
		fs.Put(d+"z.fits", []byte("not of this job"))
	}
	var err error
	c.Sim("files", Opt{Explore: true, FS: fs, NumCPU: c.Int("cpu", 1, 6), LS: 1, StepCap: 3000000}, func() {
		_, err = runJob(ops.NewOpSequence(ops.NewOpLoadMany(pats), ref.NewOpExportStats("out.html")), nil, newCtx(vsim.NewLogSink(), 4), false)
	})
	if err != nil {
		c.Fail("spurious-error", "%v", err)
	}
	if len(lows) > 1 {
		c.Nontrivial()
	}
	c.Probe("files")
	b, _ := fs.Get("out.html")
	seen := make([]bool, len(lows))
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, ",[") {
			continue
		}
		id, low := 0, 0.0
		if k, e := fmt.Sscanf(l, ",[%d,%g,", &id, &low); k != 2 {
			c.Fail("malformed-row", "row %q: %v", l, e)
		}
		if id < 0 || id >= len(lows) || seen[id] || math.Abs(low-lows[id]) > 1e-5*lows[id] {
			c.Fail("wrong-row", "row %q: frame %d of the patterns %v, whose frames have minima %v", l, id, pats, lows)
		}
		seen[id] = true
	}
	for id, s := range seen {
		if !s {
			c.Fail("row-count", "frame %d of the patterns %v has no row", id, pats)
		}
	}
}

func runP08(c *Case) {
	if c.Bool("files", 1, 12) {
		runP08Files(c)
		return
	}
	n := c.Int("n", 1, 12)
	r := c.Rand("data")
	batched := c.Bool("batched", 1, 3)
	if !batched && c.Bool("many", 1, 20) { // more than one buffer of rows
		n = c.Int("n2", 30, 200)
	}
	w, h := c.Int("w", 2, 10), c.Int("h", 2, 10)
	if batched {
		w, h = 363, 361
	}
	rejects := c.Pick("rejects", 0, 0, 1, 3, 10)
	reject := make([]bool, n)
	for i := range reject {
		reject[i] = r.N(10) < rejects
	}
	failAt := -1
	if c.Bool("fails", 1, 10) {
		failAt = r.N(n)
	}
	imgs := make([]*fits.Image, n)
	base := randData(r, w*h, 10, 20)
	for i := range imgs {
		d := base
		if !batched || n < 6 {
			d = clone32(base)
			for k := 0; k < 5; k++ {
				d[r.N(len(d))] = float32(-100 + 2000*r.F())
			}
		}
		imgs[i] = mkImg(i, w, h, d)
		imgs[i].Stars = make([]star.Star, r.N(100))
		imgs[i].HFR = float32(1 + 3*r.F())
	}
	fs := vsim.NewFS()
	name := c.PickS("name", "out.html", "sub/stats.html", "lights-stats.html")
	fs.Put("sub/keep.txt", []byte("x"))
	if c.Bool("old", 1, 3) {
		fs.Put(name, []byte(strings.Repeat("old content\n", 2000)))
	}
	plan := &vsim.FaultPlan{Kinds: map[string]float64{}, Max: 1}
	if c.Bool("faults", 1, 3) {
		plan.Kinds[c.PickS("fault", "create-eacces", "create-emfile", "write-eio", "write-enospc", "close-eio", "close-enospc")] = 0.5
	}
	limited := c.Bool("fulldisk", 1, 10)
	if limited {
		fs.Capacity = int64(c.Int("capacity", 0, 4000))
	}
	// where the statistics are exported: of the frames before the batches (0), in them (1),
	// of the result of each batch (2), of the overall result (3)
	exps := []*p08Export{{name: name, place: c.Pick("place", 1, 1, 1, 1, 0, 2, 3)}}
	if c.Bool("second", 1, 4) {
		exps = append(exps, &p08Export{name: "second.html", place: c.Pick("place2", 0, 1, 2, 3)})
	}
	var err error
	all := c.Bool("stacked", 1, 4)
	jobs := 1
	if c.Bool("again", 1, 5) {
		jobs = 2
	}
	res := c.Sim("stats", Opt{Explore: true, FS: fs, Plan: plan, NumCPU: c.Int("cpu", 1, 6), LS: 1 + c.Int("ls", 0, 1), StepCap: 3000000}, func() {
		ctx := newCtx(vsim.NewLogSink(), 4)
		for j := 0; j < jobs && err == nil; j++ {
			for _, x := range exps {
				x.want, x.results = map[int]p08Row{}, nil
			}
			var ins []ops.Promise
			for i := range imgs {
				i := i
				ins = append(ins, func() (*fits.Image, error) {
					vsim.Point()
					if i == failAt {
						return nil, fmt.Errorf("frame <%d>", i)
					}
					if reject[i] {
						return nil, nil
					}
					return imgs[i], nil
				})
			}
			outer, inner := ops.NewOpSequence(), ops.NewOpSequence()
			at := func(seq *ops.OpSequence, place int) {
				for _, x := range exps {
					if x.place == place {
						seq.Append(x.rec(), ref.NewOpExportStats(x.name))
					}
				}
			}
			at(outer, 0)
			at(inner, 1)
			inner.Append(stack.NewOpStack(stack.StMean, stack.StWeightNone, 1, 1))
			at(inner, 2)
			if batched {
				outer.Append(stack.NewOpStackBatches(inner))
			} else if all || exps[0].place > 1 || len(exps) > 1 && exps[1].place > 1 {
				outer.Append(inner)
			} else {
				inner.Steps = inner.Steps[:len(inner.Steps)-1]
				outer.Append(inner)
			}
			at(outer, 3)
			op := outer
			_, err = runJob(op, ins, ctx, false)
		}
	})
	left := 0
	for i := range reject {
		if !reject[i] {
			left++
		}
	}
	if err != nil {
		if len(res.Faults) == 0 && failAt < 0 && !(batched && left < n) && left > 0 && !limited {
			c.Fail("spurious-error", "%v", err)
		}
		return
	}
	if failAt >= 0 {
		c.Fail("error-lost", "frame %d failed, but the job succeeded", failAt)
	}
	for _, f := range res.Faults {
		c.Fail("error-lost", "the job succeeded although writing the statistics failed (%v)", f)
	}
	if left == 0 {
		return
	}
	rows := 0
	for _, x := range exps {
		rows += x.check(c, fs, left)
	}
	if rows > 1 {
		c.Nontrivial()
	}
	if batched {
		c.Probe("batched")
	}
	if len(exps) > 1 {
		c.Probe("two-exports")
	}
}

type p08Row struct {
	id    int
	v     [5]float64
	stars int
	hfr   float64
}

type p08Export struct {
	name    string
	place   int
	want    map[int]p08Row // of frames, by ID
	results []p08Row       // of stacked results
}

// rec returns a step which notes the figures of all images that reach the export after it
func (x *p08Export) rec() ops.Operator {
	return newFnOp(func(f *fits.Image, _ *ops.Context) (*fits.Image, error) {
		s := f.Stats
		r := p08Row{f.ID, [5]float64{float64(s.Min()), float64(s.Mean()), float64(s.Max()), float64(s.Location()), float64(s.Scale())}, len(f.Stars), float64(f.HFR)}
		if x.place < 2 {
			x.want[f.ID] = r
		} else {
			x.results = append(x.results, r)
		}
		return f, nil
	})
}

func (q p08Row) like(x p08Row) bool {
	for m := range q.v {
		if math.Abs(q.v[m]-x.v[m]) > 1e-5+1e-6*math.Abs(x.v[m]) {
			return false
		}
	}
	return q.id == x.id && q.stars == x.stars && math.Abs(q.hfr-x.hfr) <= 1e-5
}

// check compares the table in the file with the noted figures and returns the number of rows
func (x *p08Export) check(c *Case, fs *vsim.FS, left int) int {
	b, ok := fs.Get(x.name)
	if !ok {
		c.Fail("missing", "no statistics file %s after a successful job", x.name)
	}
	t := string(b)
	if !strings.HasPrefix(t, "<html>") || !strings.HasSuffix(strings.TrimSpace(t), "</html>") || strings.Contains(t, "old content") {
		c.Fail("incomplete", "the statistics file %s (place %d) of %d bytes is not complete: it ends in %q", x.name, x.place, len(b), tail(t, 60))
	}
	i, j := strings.Index(t, "var dataArray ="), 0
	if i >= 0 {
		j = strings.Index(t[i:], "];") + i
	}
	if i < 0 || j <= i || !strings.Contains(t[i:j], "'ID','Min','Mean','Max','Location','Scale','Stars','HFR'") {
		c.Fail("incomplete", "no table in the statistics file")
	}
	if strings.Count(t, "'ID','Min'") != 1 || strings.Count(t, "<html>") != 1 || strings.Count(t, "</html>") != 1 {
		c.Fail("incomplete", "the statistics file has %d tables", strings.Count(t, "'ID','Min'"))
	}
	got := map[int]int{}
	results := append([]p08Row{}, x.results...)
	for _, l := range strings.Split(t[i:j], "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, ",[") {
			continue
		}
		if !strings.HasSuffix(l, "]") {
			c.Fail("malformed-row", "row %q", l)
		}
		var q p08Row
		k, e := fmt.Sscanf(strings.Trim(l, ",[]"), "%d,%g,%g,%g,%g,%g,%d,%g", &q.id, &q.v[0], &q.v[1], &q.v[2], &q.v[3], &q.v[4], &q.stars, &q.hfr)
		if k != 8 {
			c.Fail("malformed-row", "row %q: %v", l, e)
		}
		if x.place >= 2 {
			k := 0
			for k < len(results) && !q.like(results[k]) {
				k++
			}
			if k == len(results) {
				c.Fail("foreign-row", "row %q is of no result that was exported once: %v", l, x.results)
			}
			results = append(results[:k], results[k+1:]...)
			continue
		}
		got[q.id]++
		w, ok := x.want[q.id]
		if !ok {
			c.Fail("foreign-row", "row %q is of no frame which was processed", l)
		}
		if !q.like(w) {
			c.Fail("wrong-row", "row %q, frame has %v %d %v", l, w.v, w.stars, w.hfr)
		}
	}
	if x.place >= 2 {
		if len(results) > 0 {
			c.Fail("row-count", "the statistics of %d results lack those of %v", len(x.results), results)
		}
		if len(x.results) == 0 || x.place == 3 && len(x.results) != 1 {
			c.Fail("row-count", "%d rows for results", len(x.results))
		}
		return len(x.results)
	}
	var ids []int
	for id := range x.want {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	for _, id := range ids {
		if got[id] != 1 {
			c.Fail("row-count", "frame %d has %d rows in the statistics file of %d frames", id, got[id], len(x.want))
		}
	}
	if len(ids) != left {
		c.Fail("row-count", "%d rows for %d frames", len(ids), left)
	}
	return len(ids)
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}
