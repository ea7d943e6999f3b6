package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/mlnoga/nightlight/internal/fits"
	"github.com/mlnoga/nightlight/internal/ops"
	"github.com/mlnoga/nightlight/internal/ops/post"
	"github.com/mlnoga/nightlight/internal/ops/pre"
	"github.com/mlnoga/nightlight/internal/ops/ref"
	"github.com/mlnoga/nightlight/internal/ops/stack"
	"github.com/mlnoga/nightlight/internal/ops/stretch"
	"github.com/mlnoga/nightlight/internal/zzverif/vsim"
)

// P24: the job log.
func init() {
	register(&Prop{ID: "P24", Quick: 15000, Rule: "Each case draws 1-7 frames, a sequence of steps that log (reference selection, matching, star detection, scaling, stretching, saving, stacking), a log target that is slow or fails after a number of writes, thread count and schedule; the job is run once on one thread and once concurrently. Non-trivial: more than one frame and thread.", Run: runP24})
}

func runP24(c *Case) {
	n := c.Int("n", 1, 7)
	if c.Bool("many", 1, 30) {
		n *= 5
	}
	cpu := c.Int("cpu", 1, 6)
	r := c.Rand("data")
	w, h := 6+r.N(8), 6+r.N(8)
	var data [][]float32
	for i := 0; i < n; i++ {
		d := randData(r, w*h, 0.1, 0.3+0.5*r.F())
		for k := r.N(3); k > 0; k-- {
			d[r.N(len(d))] = 1
		}
		data = append(data, d)
	}
	ref0 := c.Bool("ref", 1, 2)
	steps := make([]int, c.Int("steps", 1, 5))
	for i := range steps {
		steps[i] = c.Int(fmt.Sprintf("step%d", i), 0, 12)
	}
	doStack := c.Bool("stack", 1, 3)
	rejOdd := c.Bool("reject", 1, 4)
	slow := c.Bool("slow", 1, 2)
	failAfter := -1
	if c.Bool("logfails", 1, 4) {
		failAfter = c.Int("failafter", 0, 40)
	}
	digest := fsDigest
	run := func(name string, cpu int, explore bool, log *vsim.LogSink) (outs []string, fs *vsim.FS, err error) {
		fs = vsim.NewFS()
		var res []*fits.Image
		sim := c.Sim(name, Opt{Explore: explore, NumCPU: cpu, LS: 1, FS: fs}, func() {
			ctx := newCtx(log, 1000)
			sd := pre.NewOpStarDetect(2, 3, 0, 0, "")
			var seq []ops.Operator
			if ref0 {
				seq = append(seq, ref.NewOpSelectReference(ref.SRHisto, "0", sd))
			}
			for k, s := range steps {
				switch s {
				case 0:
					seq = append(seq, sd)
				case 1:
					if ref0 {
						seq = append(seq, post.NewOpMatchHistogram(post.HNMLocation))
					}
				case 2:
					seq = append(seq, pre.NewOpScaleOffset(0.9, 0.01))
				case 3:
					seq = append(seq, stretch.NewOpGamma(1.1))
				case 4:
					seq = append(seq, stretch.NewOpMidtones(0.4, 0.01))
				case 5:
					seq = append(seq, stretch.NewOpNormalizeRange())
				case 6:
					seq = append(seq, ops.NewOpSave(fmt.Sprintf("s%d_%%d.fits", k), ops.EMMinMax, 1))
				case 7:
					seq = append(seq, pre.NewOpBin(2))
				case 9:
					seq = append(seq, stretch.NewOpStretchIterative(0.2, 0.05))
				case 10:
					seq = append(seq, stretch.NewOpScaleBlack(0.3))
				case 11:
					seq = append(seq, ref.NewOpFilter(1))
				case 12:
					seq = append(seq, pre.NewOpBadPixel(3, 5, nil))
				case 8:
					k := k
					seq = append(seq, newFnOp(func(f *fits.Image, cc *ops.Context) (*fits.Image, error) {
						fmt.Fprintf(cc.Log, "step %d of frame %d %s\n", k, f.ID, strings.Repeat("x", f.ID*7))
						return f, nil
					}))
				}
			}
			if doStack {
				seq = append(seq, stack.NewOpStack(stack.StMean, stack.StWeightNone, 2, 2))
			}
			var ins []ops.Promise
			for i := range data {
				i := i
				ins = append(ins, func() (*fits.Image, error) {
					if rejOdd && i%2 == 1 {
						return nil, nil
					}
					return mkImg(i, w, h, clone32(data[i])), nil
				})
			}
			op := ops.NewOpSequence(seq...)
			if len(seq) == 0 {
				return
			}
			res, err = runJob(op, ins, ctx, false)
		})
		if len(sim.Stdout) > 0 {
			c.Fail("stdout", "a job prints %.200q past its log", sim.Stdout)
		}
		for _, f := range res {
			outs = append(outs, fmt.Sprintf("%d %v %x %d", f.ID, f.Naxisn, hashBytes(f32bytes(f.Data)), len(f.Stars)))
		}
		return
	}
	if c.Bool("whole", 1, 4) {
		j := drawJob(c, "job", "", true)
		run = func(name string, _ int, explore bool, log *vsim.LogSink) (outs []string, fs *vsim.FS, err error) {
			fs = vsim.NewFS()
			j.put(fs)
			res := c.Sim(name, Opt{Explore: explore, NumCPU: cpu, LS: j.ls, FS: fs}, func() { outs, err = j.run(log) })
			if len(res.Stdout) > 0 {
				c.Fail("stdout", "a %s job prints %.200q past its log", j.kind, res.Stdout)
			}
			return
		}
		c.Probe("whole " + j.kind)
		digest = func(fs *vsim.FS) string { return fmt.Sprint(j.digest(fs)) }
	}
	l1, l2 := vsim.NewLogSink(), vsim.NewLogSink()
	o1, fs1, e1 := run("alone", 1, false, l1)
	l2.Slow, l2.FailAfter = slow, failAfter
	o2, fs2, e2 := run("job", cpu, true, l2)
	if n > 1 && cpu > 1 {
		c.Nontrivial()
	}
	if (e1 == nil) != (e2 == nil) {
		c.Fail("error", "one thread: %v; concurrently with log failing after %d: %v", e1, failAfter, e2)
	}
	if l2.Overlap > 0 {
		c.Fail("overlap", "%d log writes began before an earlier one had ended", l2.Overlap)
	}
	if e1 != nil {
		c.Probe("job error")
		return
	}
	if fmt.Sprint(o1) != fmt.Sprint(o2) {
		c.Fail("results", "results differ: %v, %v", o1, o2)
	}
	if d1, d2 := digest(fs1), digest(fs2); d1 != d2 {
		c.Fail("files", "files differ: %s, %s", d1, d2)
	}
	m1, m2 := noProgress(l1.Msgs), noProgress(l2.Msgs)
	if failAfter < 0 { // lines must stay whole, too
		m1, m2 = strings.SplitAfter(strings.Join(m1, ""), "\n"), strings.SplitAfter(strings.Join(m2, ""), "\n")
	}
	sort.Strings(m1)
	sort.Strings(m2)
	if failAfter < 0 {
		if strings.Join(m1, "") != strings.Join(m2, "") {
			for i := range m1 {
				if i >= len(m2) || m1[i] != m2[i] {
					g := "(end)"
					if i < len(m2) {
						g = m2[i]
					}
					c.Fail("messages", "the log of the concurrent job differs: %q instead of %q (%d and %d messages)", g, m1[i], len(m2), len(m1))
				}
			}
			c.Fail("messages", "the log of the concurrent job has %d messages instead of %d", len(m2), len(m1))
		}
		c.Probe("log compared")
	} else {
		if len(m2) > failAfter {
			c.Fail("messages", "harness: messages recorded after the log failed")
		}
		have := map[string]int{}
		for _, m := range m1 {
			have[m]++
		}
		for _, m := range m2 {
			have[m]--
			if have[m] < 0 {
				c.Fail("messages", "the log of the concurrent job has an additional or torn message %q", m)
			}
		}
		c.Probe("log failed")
	}
	if len(m1) >= 2*n {
		c.Probe("two or more messages per frame")
	}
}

// noProgress drops the progress indicator, which depends on the division of the work.
func noProgress(in []string) (out []string) {
	for _, m := range in {
		if !strings.HasPrefix(m, "\r") {
			out = append(out, m)
		}
	}
	return
}

func f32bytes(d []float32) []byte {
	b := make([]byte, 0, 4*len(d))
	for _, v := range d {
		u := f32bits(v)
		b = append(b, byte(u), byte(u>>8), byte(u>>16), byte(u>>24))
	}
	return b
}

func fsDigest(fs *vsim.FS) string {
	s := ""
	for _, p := range fs.List() {
		b, _ := fs.Get(p)
		s += p + ":" + fileDigest(p, b) + "\n"
	}
	return s
}
