package main

import (
	"bytes"
	"fmt"
	"strings"

	"github.com/mlnoga/nightlight/internal/zzverif/vsim"
)

// P11: running a job again repairs whatever an interrupted, failed or different run left behind.
func init() {
	register(&Prop{ID: "P11", Quick: 5000, Rule: "Each case draws a job (frame processing with saves, stacking in batches, or one of the commands), its clean result, and a history of 0-3 earlier runs on the same disk, each killed at a drawn file operation or torn write, failed by a disk error or a full disk, or complete; after a kill the unsynced data may be lost. Old output files of other sizes may exist. The last run is free of faults. Non-trivial: an earlier run was interrupted or failed, or old output existed.", Run: runP11})
}

func runP11(c *Case) {
	j := drawJob(c, "job", "", true)
	clean := vsim.NewFS()
	j.put(clean)
	var outs0 []string
	var err0 error
	c.Sim("clean", Opt{FS: clean, NumCPU: c.Int("cpu", 1, 4), LS: j.ls}, func() { outs0, err0 = j.run(vsim.NewLogSink()) })
	if err0 != nil {
		c.Probe("job fails: " + j.kind)
		return
	}
	c.Probe("job " + j.kind)
	want := j.digest(clean)
	fs := vsim.NewFS()
	j.put(fs)
	r := c.Rand("old")
	old := map[string][]byte{}
	names := j.outNames()
	if c.Bool("old", 1, 2) {
		for _, p := range names {
			switch r.N(4) {
			case 0:
				old[p] = bytes.Repeat([]byte("old content "), 1+r.N(20000))
			case 1:
				b, _ := clean.Get(p)
				old[p] = append(append([]byte{}, b...), make([]byte, 1+r.N(9000))...)
			case 2:
				b, _ := clean.Get(p)
				if len(b) > 1 {
					old[p] = b[:r.N(len(b))]
				}
			}
			if old[p] != nil {
				fs.Put(p, old[p])
				c.Nontrivial()
				c.Probe("old output")
			}
		}
	}
	fs.Put("keep.fits", []byte("another file"))
	inputsIntact := func(when string) {
		for p, b := range j.files {
			if g, ok := fs.Get(p); !ok || !bytes.Equal(g, b) {
				c.Fail("input-damaged", "%s, input file %s is changed (%d of %d bytes)", when, p, len(g), len(b))
			}
		}
		if g, _ := fs.Get("keep.fits"); string(g) != "another file" {
			c.Fail("other-damaged", "%s, an unrelated file is changed", when)
		}
	}
	for k := c.Int("earlier", 0, 3); k > 0; k-- {
		nm := fmt.Sprintf("run%d", k)
		plan := &vsim.FaultPlan{Kinds: map[string]float64{}, Max: 1}
		p := []float64{0.005, 0.02, 0.1, 0.3}[c.Int(nm+".rate", 0, 3)]
		fs.Capacity = -1
		switch c.Int(nm+".how", 0, 4) {
		case 0:
			plan.Kinds["crash"] = p
		case 1:
			plan.Kinds["write-crash-torn"] = p
			plan.Kinds["crash"] = p / 4
		case 2:
			for _, f := range []string{"open-eio", "open-emfile", "create-eacces", "create-enospc", "read-eio", "write-eio", "write-enospc", "close-eio"} {
				plan.Kinds[f] = p
			}
		case 3:
			use := int64(0)
			for _, q := range fs.List() {
				b, _ := fs.Get(q)
				use += int64(len(b))
			}
			fs.Capacity = use + int64(r.N(40000))
		}
		var err error
		res := c.Sim(nm, Opt{Explore: true, FS: fs, Plan: plan, NumCPU: c.Int("cpu", 1, 4), LS: j.ls}, func() { _, err = j.run(vsim.NewLogSink()) })
		switch {
		case res.Outcome == "crash":
			c.Probe("killed")
			if c.Bool(nm+".power", 1, 2) {
				fs.PowerLoss(mix64(c.Seed ^ hstr(nm)))
				c.Probe("power loss")
			}
		case err != nil:
			c.Probe("failed")
		default:
			c.Probe("complete")
		}
		inputsIntact("after " + nm)
	}
	fs.Capacity = -1
	var outs []string
	var err error
	c.Sim("again", Opt{Explore: true, FS: fs, NumCPU: c.Int("cpu", 1, 4), LS: j.ls}, func() { outs, err = j.run(vsim.NewLogSink()) })
	if err != nil {
		c.Fail("rerun-failed", "%s job run again after an interruption: %v", j.kind, err)
	}
	if fmt.Sprint(outs) != fmt.Sprint(outs0) {
		c.Fail("rerun-result", "%s job run again yields %v instead of %v", j.kind, outs, outs0)
	}
	inputsIntact("after the last run")
	got := j.digest(fs)
	for p, d := range want {
		if got[p] != d {
			c.Fail("rerun-output", "%s job run again leaves %s as %s instead of %s", j.kind, p, got[p], d)
		}
	}
	for p := range got {
		if _, ok := want[p]; !ok && p != "/work/keep.fits" {
			q := strings.TrimPrefix(p, "/work/")
			if old[q] != nil { // output for frames left out now
				continue
			}
			c.Fail("stray-file", "%s job run again leaves an additional file %s", j.kind, p)
		}
	}
}
