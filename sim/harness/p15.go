package main

import (
	"encoding/json"
	"fmt"

	"github.com/mlnoga/nightlight/internal/fits"
	"github.com/mlnoga/nightlight/internal/ops"
	"github.com/mlnoga/nightlight/internal/ops/pre"
	"github.com/mlnoga/nightlight/internal/ops/ref"
	"github.com/mlnoga/nightlight/internal/ops/stack"
	"github.com/mlnoga/nightlight/internal/zzverif/vsim"
)

// P15: frames processed in parallel share data without conflicts.
func init() {
	register(&Prop{ID: "P15", Quick: 2800, Rule: "Each case draws a job (per-frame processing with masters, references, statistics and saves; batches; all commands), thread count and schedule, and runs it under the race detector with a log that does not order the tasks. Between the steps, masters, reference data and the memory of the frames are watched; the settings are compared after the job. Non-trivial: more than two tasks.", Races: true, Run: runP15})
}

// quietLog drops the log without any synchronisation, which would hide races.
type quietLog struct{}

func (quietLog) Write(b []byte) (int, error) { return len(b), nil }

// shareWatch observes what the frames of a job share.
type shareWatch struct {
	dark, flat []float32 // expected masters
	histo      string
	stars      string
	owner      [512]struct {
		px *float32 // keeps the memory from being reused
		id int
	}
	owners      int
	fail        string
	class       string
	seenMasters int
	seenRef     int
}

func (w *shareWatch) bad(class, f string, a ...interface{}) {
	if w.fail == "" {
		w.class, w.fail = class, fmt.Sprintf(f, a...)
	}
}

// probe returns an operator that observes after a step.
func (w *shareWatch) probe(cal, histo, align bool) ops.Operator {
	return newFnOp(func(f *fits.Image, c *ops.Context) (*fits.Image, error) {
		// read shared data as a step would do, before entering the harness' critical section
		d, l := -1, -1
		if cal && w.dark != nil && c.DarkFrame != nil {
			d = bitsEq(c.DarkFrame.Data, w.dark)
		}
		if cal && w.flat != nil && c.FlatFrame != nil {
			l = bitsEq(c.FlatFrame.Data, w.flat)
		}
		hs, as := "", ""
		if histo && c.MatchHisto != nil {
			h := *c.MatchHisto
			hs = fmt.Sprint(h.Location(), h.Scale())
		}
		if align && c.AlignNaxisn != nil {
			as = fmt.Sprint(c.AlignNaxisn, c.AlignStars, c.AlignHFR)
		}
		vsim.Quiet(func() {
			if d >= 0 {
				w.bad("master", "value %d of the dark frame changed to %s from %s", d, at(c.DarkFrame.Data, d), at(w.dark, d))
			}
			if l >= 0 {
				w.bad("master", "value %d of the flat frame changed to %s from %s", l, at(c.FlatFrame.Data, l), at(w.flat, l))
			}
			if hs != "" {
				if w.histo == "" {
					w.histo = hs
				} else if w.histo != hs {
					w.bad("reference", "the reference histogram changed from %s to %s", w.histo, hs)
				}
				w.seenRef++
			}
			if as != "" {
				if w.stars == "" {
					w.stars = as
				} else if w.stars != as {
					w.bad("reference", "the alignment reference changed from %s to %s", w.stars, as)
				}
				w.seenRef++
			}
			if len(f.Data) > 0 {
				p := &f.Data[0]
				known := false
				for i := 0; i < w.owners; i++ {
					if w.owner[i].px == p {
						known = true
						if w.owner[i].id != f.ID {
							w.bad("aliased", "frames %d and %d share their pixels", w.owner[i].id, f.ID)
						}
					}
				}
				if !known && w.owners < len(w.owner) {
					w.owner[w.owners].px, w.owner[w.owners].id = p, f.ID
					w.owners++
				}
			}
			if cal {
				w.seenMasters++
			}
		})
		return f, nil
	})
}

// watch inserts observers after the per-frame steps of a job.
func (w *shareWatch) watch(op ops.Operator) ops.Operator {
	s, ok := op.(*ops.OpSequence)
	if !ok {
		return op
	}
	cal, histo, align, single := false, false, false, false
	var walk func(s *ops.OpSequence) *ops.OpSequence
	walk = func(s *ops.OpSequence) *ops.OpSequence {
		var out []ops.Operator
		for _, x := range s.Steps {
			switch y := x.(type) {
			case *ops.OpSequence:
				out = append(out, walk(y))
				continue
			case *stack.OpStackBatches:
				out = append(out, stack.NewOpStackBatches(walk(y.PerBatch)))
				single = true
				continue
			case *stack.OpStack:
				single = true
			case *pre.OpCalibrate:
				cal = true
			case *ref.OpSelectReference:
				histo = histo || y.Target == ref.SRHisto
				align = align || y.Target == ref.SRAlign
			}
			out = append(out, x)
			if x.GetType() == "rgbCombine" {
				single = true
			}
			if !single {
				out = append(out, w.probe(cal, histo, align))
			}
		}
		return ops.NewOpSequence(out...)
	}
	return walk(s)
}

func runP15(c *Case) {
	j := drawJob(c, "job", "", c.Bool("cheap", 3, 4))
	if c.Bool("ls4", 1, 12) {
		j.ls = 4 // the default estimator takes random samples, so that it is left out where results are compared
	}
	fs := vsim.NewFS()
	j.put(fs)
	w := &shareWatch{}
	for p, d := range map[string]*[]float32{"dark.fits": &w.dark, "flat.fits": &w.flat} {
		if b := j.files[p]; b != nil {
			f, err := decodeFits(b)
			if err != nil {
				c.Fail("harness", "%v", err)
			}
			*d = f.Data
		}
	}
	watched := c.Bool("watch", 1, 2)
	var before, after string
	var err error
	res := c.Sim("job", Opt{Explore: true, FS: fs, NumCPU: c.Int("cpu", 2, 6), LS: j.ls}, func() {
		op := j.mk()
		b, _ := json.Marshal(op)
		before = string(b)
		run := op
		if watched {
			run = w.watch(op)
		}
		ctx := newCtx(vsim.NewLogSink(), j.mem)
		ctx.Log = quietLog{}
		_, err = runJob(run, nil, ctx, false)
		b, _ = json.Marshal(op)
		after = string(b)
	})
	if res.Tasks > 2 {
		c.Nontrivial()
	}
	if w.fail != "" {
		c.Fail(w.class, "%s job: %s", j.kind, w.fail)
	}
	if before != after {
		c.Fail("settings", "%s job changed its settings: %s to %s", j.kind, before, after)
	}
	if err != nil {
		c.Probe("job fails: " + j.kind)
		return
	}
	c.Probe("job " + j.kind)
	if w.seenMasters > 0 {
		c.Probe("masters watched")
	}
	if w.seenRef > 0 {
		c.Probe("references watched")
	}
}
