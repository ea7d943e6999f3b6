package main

import (
	"fmt"

	"github.com/mlnoga/nightlight/internal/zzverif/vsim"
)

// P19: every job comes to an end, and leaves nothing running or open.
func init() {
	register(&Prop{ID: "P19", Quick: 12000, Rule: "Each case draws 1-3 jobs run one after another in one process, disk faults of all kinds, damaged or missing inputs, a failing log, memory limits, thread count and schedule (including starvation of a task). Non-trivial: a hard fault was injected or more than one task ran.", Run: runP19})
}

func runP19(c *Case) {
	n := c.Int("jobs", 1, 3)
	for k := 0; k < n; k++ {
		nm := fmt.Sprintf("job%d", k)
		j := drawJob(c, nm, "", true)
		if c.Bool(nm+".ls4", 1, 12) {
			j.ls = 4
		}
		fs := vsim.NewFS()
		j.put(fs)
		if c.Bool(nm+".damaged", 1, 3) {
			r := c.Rand(nm + ".damage")
			all := append(append([]string{}, j.inputs...), j.other...)
			for m := 1 + r.N(2); m > 0; m-- {
				p := all[r.N(len(all))]
				b, ok := fs.Get(p)
				if !ok || len(b) == 0 {
					continue
				}
				switch r.N(5) {
				case 0:
					fs.Del(p)
				case 1:
					fs.Put(p, b[:r.N(len(b))])
				case 2:
					x := append([]byte{}, b...)
					x[r.N(len(x))] ^= byte(1 + r.N(255))
					fs.Put(p, x)
				case 3: // another size
					fs.Put(p, fitsF32(3+r.N(9), 4+r.N(9), randData(r, 0, 0, 1), "1.0"))
				case 4:
					w, h := 1+r.N(30), 1+r.N(30)
					fs.Put(p, fitsF32(w, h, randData(r, w*h, 0, 1), "1.0"))
				}
			}
		}
		plan := &vsim.FaultPlan{Kinds: map[string]float64{}, Max: c.Int(nm+".max", 1, 5)}
		p := []float64{0, 0.01, 0.1, 0.5}[c.Int(nm+".rate", 0, 3)]
		for _, f := range diskFaults {
			plan.Kinds[f] = p / 3
		}
		plan.Kinds["read-short"] = 0.1
		if c.Bool(nm+".lowmem", 1, 5) {
			j.mem = c.Int(nm+".mem", 0, 2)
		}
		log := vsim.NewLogSink()
		log.Slow = c.Bool(nm+".slowlog", 1, 4)
		if c.Bool(nm+".logfails", 1, 4) {
			log.FailAfter = c.Int(nm+".failafter", 0, 20)
		}
		var err error
		done := false
		res := c.Sim(nm, Opt{Explore: true, FS: fs, Plan: plan, NumCPU: c.Int(nm+".cpu", 1, 6), LS: j.ls}, func() {
			_, err = j.run(log)
			done = true
		})
		if !done {
			c.Fail("no-return", "%s job did not return: %s %s", j.kind, res.Outcome, res.Detail)
		}
		if res.Leaked > 0 {
			c.Fail("leaked-task", "%s job left %d goroutines behind (faults %v, error %v): %s", j.kind, res.Leaked, res.Faults, err, res.LeakedAt)
		}
		if len(res.OpenFiles) > 0 {
			c.Fail("leaked-file", "%s job left files open (faults %v, error %v): %v", j.kind, res.Faults, err, res.OpenFiles)
		}
		if res.Tasks > 1 || res.Hard() > 0 {
			c.Nontrivial()
		}
		switch {
		case err != nil:
			c.Probe("failed " + j.kind)
		case res.Hard() > 0:
			c.Probe("succeeded in spite of faults")
		default:
			c.Probe("succeeded " + j.kind)
		}
	}
}
