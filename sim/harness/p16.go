package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/mlnoga/nightlight/internal/zzverif/vsim"
)

// P16: jobs in one process do not influence each other.
func init() {
	register(&Prop{ID: "P16", Races: true, Quick: 800, Rule: "Each case draws 2-3 jobs with directories of their own on one disk, and how they overlap (at the same time, or some after others). Each is run alone, then all in one process under a drawn schedule; disk faults may hit the files of one of them. Non-trivial: at least two jobs ran at the same time.", Run: runP16})
}

type jobOutcome struct {
	outs  []string
	err   error
	log   []string
	files map[string]string
	done  bool
}

func (j *job) mine(fs *vsim.FS) map[string]string {
	m := map[string]string{}
	for p, d := range j.digest(fs) {
		if strings.HasPrefix(p, "/work/"+j.dir) {
			m[p] = d
		}
	}
	return m
}

func runP16(c *Case) {
	n := c.Int("jobs", 2, 3)
	cpu := c.Int("cpu", 1, 5)
	js := make([]*job, n)
	for i := range js {
		js[i] = drawJob(c, fmt.Sprintf("job%d", i), string(rune('a'+i))+"/", true)
	}
	ls := c.Pick("ls", 1, 2, 3)
	newFS := func() *vsim.FS {
		fs := vsim.NewFS()
		for _, j := range js {
			j.put(fs)
		}
		return fs
	}
	sorted := func(l *vsim.LogSink) []string {
		m := append([]string{}, noProgress(l.Msgs)...)
		sort.Strings(m)
		return m
	}
	alone := make([]jobOutcome, n)
	for i, j := range js {
		fs, log := newFS(), vsim.NewLogSink()
		o := &alone[i]
		c.Sim(fmt.Sprintf("alone%d", i), Opt{FS: fs, NumCPU: cpu, LS: ls}, func() { o.outs, o.err = j.run(log) })
		o.log, o.files = sorted(log), j.mine(fs)
	}
	// order of the starts: job i starts at once or when the one before it has ended
	after := make([]bool, n)
	overlap := 1
	for i := 1; i < n; i++ {
		after[i] = c.Bool(fmt.Sprintf("after%d", i), 1, 5)
		if !after[i] {
			overlap++
		}
	}
	victim := -1
	var plan *vsim.FaultPlan
	if c.Bool("faults", 1, 2) {
		victim = c.Int("victim", 0, n-1)
		p := []float64{0.01, 0.1, 0.5}[c.Int("rate", 0, 2)]
		plan = &vsim.FaultPlan{Kinds: map[string]float64{}, Max: c.Int("max", 1, 4), Prefix: "/work/" + js[victim].dir}
		for _, k := range diskFaults {
			plan.Kinds[k] = p / 3
		}
	}
	fs := newFS()
	got := make([]jobOutcome, n)
	logs := make([]*vsim.LogSink, n)
	for i := range logs {
		logs[i] = vsim.NewLogSink()
	}
	res := c.Sim("together", Opt{Explore: true, FS: fs, Plan: plan, NumCPU: cpu, LS: ls}, func() {
		ends := make([]vsim.WaitGroup, n)
		for i := range js {
			ends[i].Add(1)
		}
		for i := range js {
			i := i
			vsim.Go(func() {
				defer ends[i].Done()
				if after[i] {
					ends[i-1].Wait()
				}
				got[i].outs, got[i].err = js[i].run(logs[i])
				got[i].done = true
			})
		}
		for i := range js {
			ends[i].Wait()
		}
	})
	if overlap > 1 {
		c.Nontrivial()
	}
	for i, j := range js {
		o, a := &got[i], &alone[i]
		who := fmt.Sprintf("job %s (%s)", j.dir, j.kind)
		if !o.done {
			c.Fail("no-return", "%s did not return", who)
		}
		o.log, o.files = sorted(logs[i]), j.mine(fs)
		if i == victim && res.Hard() > 0 {
			if o.err != nil {
				c.Probe("one job failed")
				continue
			}
		} else {
			if (o.err == nil) != (a.err == nil) || o.err != nil && j.kind == "stretch" && o.err.Error() != a.err.Error() {
				c.Fail("outcome", "%s ends with error %v, alone with %v", who, o.err, a.err)
			}
			if o.err != nil {
				c.Probe("job error")
				continue
			}
			if fmt.Sprint(o.log) != fmt.Sprint(a.log) {
				c.Fail("log", "%s logs %q, alone %q", who, diffLines(o.log, a.log), diffLines(a.log, o.log))
			}
		}
		if j.kind == "batches" {
			// the frames are divided into batches at random, which changes the rounding
			if len(o.outs) != len(a.outs) || len(o.outs) == 1 && dropHash(o.outs[0]) != dropHash(a.outs[0]) {
				c.Fail("results", "%s yields %v, alone %v", who, o.outs, a.outs)
			}
			for p := range a.files {
				if _, ok := o.files[p]; !ok {
					c.Fail("files", "%s does not leave %s", who, p)
				}
			}
			continue
		}
		if fmt.Sprint(o.outs) != fmt.Sprint(a.outs) {
			c.Fail("results", "%s yields %v, alone %v", who, o.outs, a.outs)
		}
		for p, d := range a.files {
			if o.files[p] != d {
				c.Fail("files", "%s leaves %s as %q, alone as %q", who, p, o.files[p], d)
			}
		}
		for p := range o.files {
			if _, ok := a.files[p]; !ok {
				c.Fail("files", "%s leaves %s, alone it does not", who, p)
			}
		}
	}
	for i, j := range js {
		if i != victim && victim >= 0 && res.Hard() > 0 && got[i].err == nil {
			c.Probe("unaffected by the faults of another")
		}
		c.Probe("job " + j.kind)
	}
	for _, p := range fs.List() {
		if rest := strings.TrimPrefix(p, "/work/"); len(rest) < 2 || rest[1] != '/' {
			c.Fail("files", "file %s belongs to no job", p)
		}
	}
}

// dropHash removes the pixels from an image description.
func dropHash(s string) string {
	i := strings.Index(s, "]")
	return s[:i] + s[strings.Index(s, " exposure"):]
}

// diffLines are the first lines of a that b does not have.
func diffLines(a, b []string) (d []string) {
	n := map[string]int{}
	for _, l := range b {
		n[l]++
	}
	for _, l := range a {
		if n[l]--; n[l] < 0 && len(d) < 4 {
			d = append(d, l)
		}
	}
	return
}
