package main

import (
	"fmt"
	"math"

	"github.com/mlnoga/nightlight/internal/fits"
	"github.com/mlnoga/nightlight/internal/ops"
	"github.com/mlnoga/nightlight/internal/ops/stack"
	"github.com/mlnoga/nightlight/internal/zzverif/vsim"
)

// P04: splitting a stack into batches neither loses nor repeats frames.
func init() {
	register(&Prop{ID: "P04", Quick: 15000, Rule: "Each case draws frame count and size, memory limit, CPU count, optional dark and flat, frames rejected or failing inside the batches, the shuffle of frames into batches and a schedule. Non-trivial: more than one batch.", Run: runP04})
}

func runP04(c *Case) {
	n := c.Int("n", 1, 24)
	if c.Bool("many", 1, 50) {
		n *= c.Int("manyof", 2, 6)
	}
	w := c.Pick("w", 128, 200, 256, 363)
	h := c.Pick("h", 128, 160, 256, 361)
	mem := c.Int("mem", 1, 8)
	cpu := c.Int("cpu", 1, 8)
	if c.Bool("roomy", 1, 8) {
		mem *= 40
	}
	r := c.Rand("data")
	base := randData(r, w*h, 90, 110)
	val := make([]float64, n)
	for k := range val {
		val[k] = 1 + 3*r.F()
	}
	reject := make([]bool, n)
	for k := 0; k < n; k++ {
		reject[k] = c.Bool("rejects", 1, 3) && r.N(5) == 0
	}
	preRejected := c.Bool("prereject", 1, 6)
	failAt := -1
	if c.Bool("fails", 1, 10) {
		failAt = r.N(n)
	}
	dark, flat := c.Bool("dark", 1, 5), c.Bool("flat", 1, 5)
	used := make([]int, n)
	cur, batches := 0, []int{}
	active, maxActive, batchActive := 0, 0, 0
	parallel := []int{} // frames loaded at the same time, per batch
	batchLeft := []int{}
	var outs []*fits.Image
	var err error
	c.Sim("batches", Opt{Explore: true, NumCPU: cpu, MemMiB: 64000, StepCap: 2000000}, func() {
		ctx := newCtx(vsim.NewLogSink(), mem)
		if dark {
			ctx.DarkFrame = mkImg(-1, w, h, make([]float32, w*h))
		}
		if flat {
			ctx.FlatFrame = mkImg(-1, w, h, make([]float32, w*h))
		}
		var ins []ops.Promise
		for k := 0; k < n; k++ {
			k := k
			ins = append(ins, func() (*fits.Image, error) {
				active++
				if active > maxActive {
					maxActive = active
				}
				if active > batchActive {
					batchActive = active
				}
				defer func() { active-- }()
				vsim.Point()
				if k == failAt {
					return nil, fmt.Errorf("cannot read frame <%d>", k)
				}
				if preRejected && reject[k] {
					return nil, nil
				}
				d := make([]float32, w*h)
				v := float32(val[k])
				for i := range d {
					d[i] = base[i] * v
				}
				f := mkImg(k, w, h, d)
				f.Exposure = float32(k + 1)
				return f, nil
			})
		}
		count := newFnOp(func(f *fits.Image, _ *ops.Context) (*fits.Image, error) {
			vsim.Point()
			cur++
			if reject[f.ID] {
				return nil, nil
			}
			used[f.ID]++
			return f, nil
		})
		end := newFnOp(func(f *fits.Image, _ *ops.Context) (*fits.Image, error) {
			batches = append(batches, cur)
			batchLeft = append(batchLeft, int(f.Stacked))
			parallel = append(parallel, batchActive)
			cur, batchActive = 0, 0
			return f, nil
		})
		op := stack.NewOpStackBatches(ops.NewOpSequence(count, stack.NewOpStack(stack.StMean, stack.StWeightNone, 2.75, 2.75), end))
		outs, err = runJob(op, ins, ctx, false)
	})
	// what the memory limit allows
	avail := int64(mem) * 1024 * 1024 / int64(4*w*h)
	masters := int64(0)
	if dark {
		masters++
	}
	if flat {
		masters++
	}
	bs := avail - 1 - masters
	feasible := bs >= 2 && (int64(n) <= bs || bs-2 >= 2)
	left := 0
	for k := range reject {
		if !reject[k] {
			left++
		}
	}
	if err != nil {
		if !feasible {
			c.Probe("memory limit too small")
			return
		}
		if failAt >= 0 || left == 0 {
			return
		}
		// a batch of which all frames were rejected has no result
		if left < n && mayEmpty(n, left, avail, masters, cpu) {
			c.Probe("rejections may have emptied a batch")
			return
		}
		c.Fail("spurious-error", "%d frames of %dx%d with %d MB and %d CPUs: %v", n, w, h, mem, cpu, err)
	}
	if !feasible && int64(n) > bs {
		c.Fail("over-budget", "%d frames of %dx%d were stacked although only %d fit the memory limit", n, w, h, avail)
	}
	if failAt >= 0 {
		c.Fail("error-lost", "frame %d of %d could not be read, but the job succeeded", failAt, n)
	}
	if len(outs) != 1 || outs[0] == nil {
		c.Fail("results", "%d results", len(outs))
	}
	for k := range used {
		want := 1
		if reject[k] {
			want = 0
		}
		if used[k] != want {
			c.Fail("frame-count", "frame %d of %d was stacked %d times, expected %d (batches %v)", k, n, used[k], want, batches)
		}
	}
	for k, b := range batches {
		// frames of the batch, one working frame for each loaded in parallel, masters, reference and stack of stacks
		need := int64(b) + int64(parallel[k]) + masters
		if len(batches) > 1 {
			need += 2
		}
		if need > avail && !preRejected {
			c.Fail("over-budget", "batches %v of %dx%d frames, %v loaded at the same time, with %d masters exceed the %d frames which fit into memory", batches, w, h, parallel, masters, avail)
		}
	}
	if maxActive > cpu {
		c.Fail("threads", "%d frames were loaded at the same time with %d CPUs", maxActive, cpu)
	}
	sum, expo := 0.0, 0.0
	for k := range val {
		if !reject[k] {
			sum += float64(float32(val[k]))
			expo += float64(k + 1)
		}
	}
	m := sum / float64(left)
	o := outs[0]
	if len(o.Data) != w*h {
		c.Fail("dimensions", "%d values", len(o.Data))
	}
	for i := range o.Data {
		if e := float64(base[i]) * m; math.Abs(e-float64(o.Data[i])) > 2e-5*e {
			c.Fail("not-the-mean", "pixel %d is %v, the mean over all %d frames is %v (batches %v, stacked %v)", i, o.Data[i], left, e, batches, batchLeft)
		}
	}
	if !near(o.Exposure, float32(expo), 1e-5, 0) {
		c.Fail("exposure", "exposure is %v, frames add up to %v", o.Exposure, expo)
	}
	if len(batches) > 1 {
		c.Nontrivial()
		c.Probe("several batches")
	}
}

// mayEmpty tells whether some split of n frames, of which left remain, can leave a batch empty.
func mayEmpty(n, left int, avail, masters int64, cpu int) bool {
	for t := int64(1); t <= int64(cpu); t++ {
		bs := avail - t - masters
		if bs < 2 {
			continue
		}
		nb := (int64(n) + bs - 1) / bs
		if nb == 1 {
			continue
		}
		bs -= 2
		if bs < 2 {
			continue
		}
		nb = (int64(n) + bs - 1) / bs
		last := (int64(n) + nb - 1) / nb
		if small := int64(n) - last*(nb-1); int64(n-left) >= small {
			return true
		}
	}
	return false
}
