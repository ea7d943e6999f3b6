package main

import (
	"bytes"
	"fmt"
	"strings"

	"github.com/mlnoga/nightlight/internal/zzverif/vsim"
)

// P14: a job that reports success under disk faults has produced the fault-free result.
func init() {
	register(&Prop{ID: "P14", Quick: 9000, Rule: "Each case draws a job, its clean result, disk faults of one or several kinds on drawn files (open, read, short read, create, write, full disk, close), a log that may fail, thread count and schedule. Non-trivial: a hard fault was injected.", Run: runP14})
}

var diskFaults = []string{"open-eio", "open-emfile", "open-enoent", "open-eacces", "read-eio", "create-eacces", "create-enospc", "create-emfile", "write-eio", "write-enospc", "close-eio", "close-enospc"}

func runP14(c *Case) {
	j := drawJob(c, "job", "", true)
	cpu := c.Int("cpu", 1, 4)
	clean := vsim.NewFS()
	j.put(clean)
	var outs0 []string
	var err0 error
	c.Sim("clean", Opt{FS: clean, NumCPU: cpu, LS: j.ls}, func() { outs0, err0 = j.run(vsim.NewLogSink()) })
	fs := vsim.NewFS()
	j.put(fs)
	plan := &vsim.FaultPlan{Kinds: map[string]float64{}, Max: c.Int("max", 1, 4)}
	p := []float64{0.005, 0.03, 0.15, 0.6}[c.Int("rate", 0, 3)]
	switch c.Int("kinds", 0, 4) {
	case 0, 1:
		plan.Kinds[diskFaults[c.Int("kind", 0, len(diskFaults)-1)]] = p
	case 2, 3:
		for _, k := range diskFaults {
			plan.Kinds[k] = p / 3
		}
	case 4:
		use := int64(0)
		for _, q := range fs.List() {
			b, _ := fs.Get(q)
			use += int64(len(b))
		}
		fs.Capacity = use + int64(c.Rand("cap").N(60000))
	}
	if c.Bool("short", 1, 3) {
		plan.Kinds["read-short"] = 0.3
	}
	log := vsim.NewLogSink()
	if c.Bool("logfails", 1, 6) {
		log.FailAfter = c.Int("failafter", 0, 30)
	}
	var outs []string
	var err error
	res := c.Sim("faulty", Opt{Explore: true, FS: fs, Plan: plan, NumCPU: cpu, LS: j.ls}, func() { outs, err = j.run(log) })
	for _, f := range res.Faults {
		c.Probe(f.Kind)
	}
	if res.Hard() > 0 {
		c.Nontrivial()
	}
	for p, b := range j.files {
		if g, ok := fs.Get(p); !ok || !bytes.Equal(g, b) {
			c.Fail("input-damaged", "input file %s is changed (%d of %d bytes)", p, len(g), len(b))
		}
	}
	if err != nil {
		if err0 == nil && res.Hard() == 0 {
			c.Fail("spurious-error", "%s job failed without a fault: %v", j.kind, err)
		}
		c.Probe("failed")
		return
	}
	if err0 != nil {
		c.Fail("error-hidden", "%s job fails without faults (%v) but succeeds with %v", j.kind, err0, res.Faults)
	}
	if fmt.Sprint(outs) != fmt.Sprint(outs0) {
		c.Fail("wrong-result", "%s job succeeded with faults %v but yields %v instead of %v", j.kind, res.Faults, outs, outs0)
	}
	want, got := j.digest(clean), j.digest(fs)
	for p, d := range want {
		if got[p] != d {
			c.Fail("wrong-output", "%s job succeeded with faults %v but %s is %q instead of %q", j.kind, res.Faults, p, got[p], d)
		}
	}
	for p := range got {
		if _, ok := want[p]; !ok {
			c.Fail("stray-file", "%s job succeeded with faults %v and left %s", j.kind, res.Faults, strings.TrimPrefix(p, "/work/"))
		}
	}
	if res.Hard() > 0 {
		c.Probe("succeeded in spite of faults")
	}
}
