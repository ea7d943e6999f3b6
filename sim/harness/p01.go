package main

import (
	"errors"
	"fmt"
	"sort"
	"strings"

	"github.com/mlnoga/nightlight/internal/fits"
	"github.com/mlnoga/nightlight/internal/ops"
	"github.com/mlnoga/nightlight/internal/ops/ref"
	"github.com/mlnoga/nightlight/internal/zzverif/vsim"
)

// P01: evaluation of a set of image promises under a thread limit.
func init() {
	register(&Prop{ID: "P01", Quick: 40000, Rule: "Each case draws the number of promises, the thread limit, which promises fail or deliver nothing, how many scheduling points each takes, a chain of per-image steps with or without a reference selection among them, and a schedule.", Races: true, Run: runP01})
}

func runP01(c *Case) {
	if c.Bool("chain", 1, 2) {
		p01chain(c)
		return
	}
	n := c.Int("n", 0, 14)
	limit := c.Int("limit", 1, 9)
	if c.Bool("many", 1, 25) {
		n, limit = n*c.Int("manyof", 3, 25), limit*c.Pick("manythreads", 1, 1, 4, 16)
	}
	forget := c.Bool("forget", 1, 3)
	r := c.Rand("p01")
	kind := make([]int, n) // 0 image, 1 nil, 2 error, 3 duplicate error
	work := make([]int, n)
	failRate := c.Pick("failmix", 0, 0, 1, 3)
	for i := range kind {
		if x := r.N(10); x < failRate {
			kind[i] = 2 + r.N(2)
		} else if x == 9 {
			kind[i] = 1
		}
		work[i] = r.N(6)
	}
	// some texts are part of others
	style := c.Int("texts", 0, 2)
	text := func(i int) string {
		if style == 1 {
			return fmt.Sprintf("%d: failed", n-i)
		}
		if style == 2 {
			return strings.Repeat("failed ", n-i)
		}
		return fmt.Sprintf("failure of promise <%d>", i)
	}
	calls := make([]int, n)
	imgs := make([]*fits.Image, n)
	for i := range imgs {
		imgs[i] = mkImg(i, 2, 2, []float32{float32(i), 1, 2, 3})
	}
	active, maxActive, done := 0, 0, 0
	var outs []*fits.Image
	var err error
	doneAtReturn := -1
	c.Sim("eval", Opt{Explore: true, NumCPU: limit}, func() {
		var ins []ops.Promise
		for i := 0; i < n; i++ {
			i := i
			ins = append(ins, func() (*fits.Image, error) {
				calls[i]++
				active++
				if active > maxActive {
					maxActive = active
				}
				for k := 0; k < work[i]; k++ {
					vsim.Point()
				}
				active--
				done++
				switch kind[i] {
				case 1:
					return nil, nil
				case 2:
					return nil, errors.New(text(i))
				case 3:
					return nil, errors.New("failure <shared>")
				}
				return imgs[i], nil
			})
		}
		outs, err = ops.MaterializeAll(ins, limit, forget)
		doneAtReturn = done
	})
	if n > 1 && maxActive > 1 {
		c.Probe("promises overlapped")
	}
	if doneAtReturn != n {
		c.Fail("returned-early", "evaluation returned when %d of %d promises had finished", doneAtReturn, n)
	}
	for i, k := range calls {
		if k != 1 {
			c.Fail("not-exactly-once", "promise %d of %d was evaluated %d times", i, n, k)
		}
	}
	if maxActive > limit {
		c.Fail("limit", "%d promises were evaluated at the same time, limit %d", maxActive, limit)
	}
	var want []*fits.Image
	nerr, shared := 0, false
	var texts []string
	for i := range kind {
		switch kind[i] {
		case 0:
			want = append(want, imgs[i])
		case 2:
			nerr++
			texts = append(texts, text(i))
		case 3:
			nerr++
			if !shared {
				texts = append(texts, "failure <shared>")
			}
			shared = true
		}
	}
	// every text must be found beside the longer ones
	sort.Slice(texts, func(i, j int) bool { return len(texts[i]) > len(texts[j]) })
	rest := errStr(err)
	for _, t := range texts {
		if !strings.Contains(rest, t) {
			c.Fail("error-lost", "promises failed with %q but the combined error is %v", texts, err)
		}
		rest = strings.ReplaceAll(rest, t, "#")
	}
	if nerr == 0 && err != nil {
		c.Fail("spurious-error", "no promise failed but evaluation returned %v", err)
	}
	if nerr > 0 {
		c.Probe("failures combined")
	}
	if forget {
		for _, o := range outs {
			if o != nil {
				c.Fail("retained", "results were kept although the caller asked to forget them")
			}
		}
		return
	}
	if len(outs) != len(want) {
		c.Fail("results", "%d results for %d delivered images", len(outs), len(want))
	}
	for i := range want {
		if outs[i] != want[i] {
			c.Fail("order", "result %d is image %d, expected image %d", i, outs[i].ID, want[i].ID)
		}
	}
}

// p01chain: a sequence of per-image steps; every step sees every surviving image once, in step
// order, and no step runs for an image that failed earlier.
func p01chain(c *Case) {
	n := c.Int("n", 1, 8)
	steps := c.Int("steps", 1, 5)
	limit := c.Int("limit", 1, 6)
	if c.Bool("many", 1, 40) {
		n, limit = n*c.Int("manyof", 3, 20), limit*c.Pick("manythreads", 1, 1, 8)
	}
	nest := c.Int("nest", 0, 2)
	r := c.Rand("chain")
	fail := map[[2]int]bool{}
	for k := c.Int("fails", 0, 2); k > 0; k-- {
		fail[[2]int{r.N(n), r.N(steps)}] = true
	}
	reject := map[[2]int]bool{}
	for k := c.Int("rejects", 0, 2); k > 0; k-- {
		if x := [2]int{r.N(n), r.N(steps+1) - 1}; !failedAt(fail, x[0], steps) { // step -1: not delivered in the first place
			reject[x] = true
		}
	}
	sel := -1 // a reference selection before this step evaluates all images at once
	if len(fail) == 0 && c.Bool("select", 1, 3) {
		sel = c.Int("selectat", 0, steps)
		alive := 0
		for i := 0; i < n; i++ {
			k := 1
			for s := -1; s < sel; s++ {
				if reject[[2]int{i, s}] {
					k = 0
				}
			}
			alive += k
		}
		if alive == 0 {
			sel = -1
		} else {
			nest = 0
		}
	}
	active, maxActive := 0, 0
	onNil := 0
	seen := make([][]int, n)
	work := make([]int, n*steps)
	for i := range work {
		work[i] = r.N(4)
	}
	var outs []*fits.Image
	var err error
	c.Sim("eval", Opt{Explore: true, NumCPU: limit}, func() {
		var ins []ops.Promise
		for i := 0; i < n; i++ {
			f := mkImg(i, 2, 2, []float32{1, 2, 3, 4})
			ins = append(ins, func() (*fits.Image, error) {
				vsim.Point()
				if reject[[2]int{f.ID, -1}] {
					return nil, nil
				}
				return f, nil
			})
		}
		var sops []ops.Operator
		for s := 0; s < steps; s++ {
			s := s
			if s == sel {
				sops = append(sops, ref.NewOpSelectReference(ref.SRAlign, "%starsHFR", nil))
			}
			sops = append(sops, newFnOp(func(f *fits.Image, _ *ops.Context) (*fits.Image, error) {
				if f == nil {
					onNil++
					return nil, nil
				}
				if active++; active > maxActive {
					maxActive = active
				}
				for k := 0; k < work[f.ID*steps+s]; k++ {
					vsim.Point()
				}
				active--
				seen[f.ID] = append(seen[f.ID], s)
				if fail[[2]int{f.ID, s}] {
					return nil, fmt.Errorf("step %d failed on image <%d>", s, f.ID)
				}
				if reject[[2]int{f.ID, s}] {
					return nil, nil
				}
				g := mkImg(f.ID, 2, 2, clone32(f.Data))
				g.Data[0] += float32(1)
				return g, nil
			}))
		}
		if sel == steps {
			sops = append(sops, ref.NewOpSelectReference(ref.SRAlign, "%starsHFR", nil))
		}
		seq := ops.NewOpSequence(sops...)
		if nest == 1 && steps > 1 {
			seq = ops.NewOpSequence(ops.NewOpSequence(sops[:steps/2]...), ops.NewOpSequence(sops[steps/2:]...))
		} else if nest == 2 {
			seq = ops.NewOpSequence()
			for _, o := range sops {
				seq.Append(o)
			}
		}
		ctx := newCtx(vsim.NewLogSink(), 1000)
		ctx.MaxThreads = limit
		outs, err = runJob(seq, ins, ctx, false)
	})
	if maxActive > limit {
		c.Fail("limit", "%d steps ran at the same time, limit %d", maxActive, limit)
	}
	if sel >= 0 && maxActive > 1 {
		c.Probe("reference selection evaluated images in parallel")
	}
	if onNil > 0 {
		c.Fail("chain-rejected", "steps ran %d times for images rejected before", onNil)
	}
	bad := 0
	var ids []int
	for i := 0; i < n; i++ {
		want, rejected := steps, false
		for s := 0; s < steps; s++ {
			if fail[[2]int{i, s}] {
				want = s + 1
				bad++
				if err == nil || !strings.Contains(err.Error(), fmt.Sprintf("<%d>", i)) {
					c.Fail("error-lost", "step %d failed on image %d but the combined error is %v", s, i, err)
				}
				break
			}
		}
		for s := -1; s < want; s++ {
			if reject[[2]int{i, s}] {
				want, rejected = s+1, true
				c.Probe("image rejected in a chain")
			}
		}
		if len(seen[i]) != want {
			c.Fail("chain-steps", "image %d passed %d steps, expected %d", i, len(seen[i]), want)
		}
		for s := range seen[i] {
			if seen[i][s] != s {
				c.Fail("chain-order", "image %d saw steps %v", i, seen[i])
			}
		}
		if !rejected && !failedAt(fail, i, steps) {
			ids = append(ids, i)
		}
	}
	if bad == 0 && err != nil {
		c.Fail("spurious-error", "no step failed but the job returned %v", err)
	}
	if len(outs) != len(ids) {
		c.Fail("results", "%d results, expected images %v", len(outs), ids)
	}
	for k, o := range outs {
		if o.ID != ids[k] || o.Data[0] != float32(1+steps) {
			c.Fail("order", "result %d is image %d with value %v after %d steps, expected image %d", k, o.ID, o.Data[0], steps, ids[k])
		}
	}
}

func failedAt(fail map[[2]int]bool, i, steps int) bool {
	for s := 0; s < steps; s++ {
		if fail[[2]int{i, s}] {
			return true
		}
	}
	return false
}
