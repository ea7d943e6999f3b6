package main

import (
	"fmt"
	"hash/fnv"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"

	"github.com/mlnoga/nightlight/internal/stats"
	"github.com/mlnoga/nightlight/internal/zzverif/vsim"
)

// Prop is one property with its scenario.
type Prop struct {
	ID    string
	Quick int // simulated cases in the quick tier
	Deep  int // upper bound for the thorough tier (0: time bound only)
	Rule  string
	Races bool // a data race observed in a simulation is a violation of this property
	Run   func(c *Case)
	Known map[string]string // class -> known finding id (see known-findings.json)
	// fault kinds and stubs, for the evidence
	Faults string
	Level  string
}

var props = map[string]*Prop{}

func register(p *Prop) { props[p.ID] = p }

// Violation is what a case found.
type Violation struct {
	Class string `json:"class"`
	Msg   string `json:"msg"`
}

type knob struct {
	Name string `json:"name"`
	Val  int    `json:"val"`
	lo   int
}

// SimFix fixes the schedule and faults of one simulation of a case.
type SimFix struct {
	Name     string           `json:"name"`
	Schedule []vsim.Deviation `json:"schedule"`
	Faults   []vsim.Fault     `json:"faults"`
}

type simRec struct {
	fix  SimFix
	res  *vsim.Result
	expl bool
}

// Case is one simulated scenario: a seed, named draws, and one or more simulations.
type Case struct {
	P       *Prop
	Seed    uint64
	over    map[string]int
	fixed   map[string]*SimFix
	knobs   []knob
	have    map[string]int
	sims    []simRec
	notes   []string
	nontriv bool
	key     uint64
	probes  map[string]int
	trace   bool
	log     []string
}

type caseStop struct{ v *Violation }

func mix64(z uint64) uint64 {
	z += 0x9E3779B97F4A7C15
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}

func hstr(s string) uint64 {
	h := fnv.New64a()
	h.Write([]byte(s))
	return h.Sum64()
}

// R is a small deterministic generator for building inputs.
type R struct{ s uint64 }

func (r *R) U() uint64 { r.s += 0x9E3779B97F4A7C15; return mix64(r.s) }
func (r *R) N(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.U() % uint64(n))
}
func (r *R) F() float64 { return float64(r.U()>>11) / float64(1<<53) }
func (r *R) Norm() float64 {
	s := 0.0
	for i := 0; i < 6; i++ {
		s += r.F()
	}
	return (s - 3) * 1.41421356
}

// Rand returns a generator for the given purpose.
func (c *Case) Rand(name string) *R { return &R{mix64(c.Seed ^ hstr(name))} }

// Int draws the named knob from [lo,hi].
func (c *Case) Int(name string, lo, hi int) int {
	if v, ok := c.have[name]; ok {
		return v
	}
	v, ok := c.over[name]
	if !ok || v < lo || v > hi {
		if !ok {
			v = lo
			if hi > lo {
				v = lo + int(mix64(c.Seed^hstr(name))%uint64(hi-lo+1))
			}
		} else if v < lo {
			v = lo
		} else {
			v = hi
		}
	}
	c.have[name] = v
	c.knobs = append(c.knobs, knob{name, v, lo})
	c.key = mix64(c.key ^ hstr(name) ^ uint64(v)*0x10001)
	return v
}

// Bool draws a knob that is true with probability num/den.
func (c *Case) Bool(name string, num, den int) bool {
	v, ok := c.over[name]
	if !ok {
		v = 0
		if int(mix64(c.Seed^hstr(name))%uint64(den)) < num {
			v = 1
		}
	}
	return c.intv(name, v, 0, 1) == 1
}

func (c *Case) intv(name string, v, lo, hi int) int {
	if x, ok := c.have[name]; ok {
		return x
	}
	c.have[name] = v
	c.knobs = append(c.knobs, knob{name, v, lo})
	c.key = mix64(c.key ^ hstr(name) ^ uint64(v)*0x10001)
	return v
}

// Pick draws one of the values.
func (c *Case) Pick(name string, vals ...int) int { return vals[c.Int(name, 0, len(vals)-1)] }
func (c *Case) PickS(name string, vals ...string) string {
	return vals[c.Int(name, 0, len(vals)-1)]
}

// Mix adds a feature of the inputs to the identity of the case.
func (c *Case) Mix(v uint64) { c.key = mix64(c.key ^ v) }

func (c *Case) Nontrivial()    { c.nontriv = true }
func (c *Case) Probe(s string) { c.probes[s]++ }
func (c *Case) Note(f string, a ...interface{}) {
	if c.trace {
		c.log = append(c.log, fmt.Sprintf(f, a...))
	}
}

// Fail reports a violation and ends the case.
func (c *Case) Fail(class, f string, a ...interface{}) {
	panic(caseStop{&Violation{class, fmt.Sprintf(f, a...)}})
}

// Opt configures one simulation of a case.
type Opt struct {
	Explore   bool // draw the schedule; otherwise the default schedule is used
	Plan      *vsim.FaultPlan
	FS        *vsim.FS
	NumCPU    int
	MemMiB    int64
	StepCap   int
	Raw       bool // the caller judges panics, deadlocks and step-cap overruns
	NoRace    bool
	NoDrain   bool
	LS        int // location/scale estimator + 1; 0 default
	Seed      uint64
	Scheduled []vsim.Fault
}

func (c *Case) policy(name string) vsim.Policy {
	k := c.Int(name+".sched", 0, 9)
	switch k {
	case 0:
		return vsim.Policy{Kind: "default"}
	case 1, 2:
		return vsim.Policy{Kind: "random", P: 0.05}
	case 3, 4:
		return vsim.Policy{Kind: "random", P: 0.3}
	case 5:
		return vsim.Policy{Kind: "random", P: 0.9}
	case 6:
		return vsim.Policy{Kind: "pct", D: 3, L: 400}
	case 7:
		return vsim.Policy{Kind: "rr"}
	case 8:
		return vsim.Policy{Kind: "newest"}
	}
	return vsim.Policy{Kind: "starve"}
}

// Sim runs fn as one simulated process execution and applies the general verdicts.
func (c *Case) Sim(name string, o Opt, fn func()) *vsim.Result {
	cfg := vsim.Config{Seed: mix64(c.Seed ^ 77), NumCPU: o.NumCPU, MemMiB: o.MemMiB, StepCap: o.StepCap, FS: o.FS, Plan: o.Plan, NoDrain: o.NoDrain, KeepLog: c.trace}
	if o.Seed != 0 {
		cfg.Seed = o.Seed
	}
	if cfg.StepCap == 0 {
		cfg.StepCap = 400000
	}
	cfg.Policy = vsim.Policy{Kind: "default"}
	if o.Explore {
		cfg.Policy = c.policy(name)
	}
	cfg.Faults = o.Scheduled
	if c.fixed != nil {
		cfg.Fixed = true
		cfg.Plan = nil
		cfg.Schedule = nil
		cfg.Faults = o.Scheduled
		if f := c.fixed[name]; f != nil {
			cfg.Schedule, cfg.Faults = f.Schedule, f.Faults
		}
	}
	stats.LSEstimator = stats.LSESCMedianQn
	if o.LS > 0 {
		stats.LSEstimator = stats.LSEstimatorMode(o.LS - 1)
	}
	r := vsim.Run(cfg, fn)
	c.sims = append(c.sims, simRec{SimFix{name, r.Schedule, r.Faults}, r, o.Explore})
	c.key = mix64(c.key ^ r.Hash)
	if r.Switches > 1 && len(r.Schedule) > 0 || len(r.Faults) > 0 {
		c.nontriv = true
	}
	c.Note("simulation %s: %s %s, %d steps, %d tasks, %d schedule deviations, faults %v", name, r.Outcome, r.Detail, r.Steps, r.Tasks, len(r.Schedule), r.Faults)
	if c.P.Races && !o.NoRace && r.Races > 0 {
		c.Fail("race", "%d data race report(s) in simulation %s: %s", r.Races, name, raceSummary())
	}
	if !o.Raw {
		switch r.Outcome {
		case "panic":
			c.Fail("panic", "simulation %s panicked: %s [%s]", name, r.Detail, vsim.ShortStack(r.Stack))
		case "deadlock":
			c.Fail("deadlock", "simulation %s: %s", name, r.Detail)
		case "stepcap":
			c.Fail("no-termination", "simulation %s: %s", name, r.Detail)
		}
	}
	return r
}

// runCase executes one case and returns its violation, if any.
func runCase(p *Prop, seed uint64, over map[string]int, fixed map[string]*SimFix, trace bool) (c *Case, v *Violation) {
	c = &Case{P: p, Seed: seed, over: over, fixed: fixed, have: map[string]int{}, probes: map[string]int{}, trace: trace}
	defer func() {
		if r := recover(); r != nil {
			if s, ok := r.(caseStop); ok {
				v = s.v
				return
			}
			// results of a form that cannot be: the oracles index and dereference what the property promises
			v = &Violation{"malformed", fmt.Sprintf("the check cannot make sense of the results: %v%s", r, oracleFrame(string(debug.Stack())))}
		}
	}()
	p.Run(c)
	return c, nil
}

// oracleFrame names the function of the harness that panicked.
func oracleFrame(stack string) string {
	if i := strings.LastIndex(stack, "panic("); i >= 0 {
		for _, l := range strings.Split(stack[i:], "\n")[1:] {
			if j := strings.LastIndex(l, "/harness/"); j >= 0 && strings.HasPrefix(l, "\t") {
				return " at " + strings.Fields(l[j+9:])[0]
			}
		}
	}
	return ""
}

// raceSummary extracts the functions named in the last race report.
var raceLog string
var raceOff int64

func raceSummary() string {
	if raceLog == "" {
		return ""
	}
	b, err := os.ReadFile(fmt.Sprintf("%s.%d", raceLog, os.Getpid()))
	if err != nil || int64(len(b)) <= raceOff {
		return "(no report text)"
	}
	txt := string(b[raceOff:])
	raceOff = int64(len(b))
	var out []string
	seen := map[string]bool{}
	what := ""
	n := 0
	for _, l := range strings.Split(txt, "\n") {
		t := strings.TrimSpace(l)
		if strings.HasPrefix(t, "Read at") || strings.HasPrefix(t, "Write at") || strings.HasPrefix(t, "Previous read") || strings.HasPrefix(t, "Previous write") {
			what = strings.Fields(t)[0]
			if what == "Previous" {
				what = strings.Join(strings.Fields(t)[:2], " ")
			}
			n++
			continue
		}
		if what != "" && strings.Contains(t, "nightlight/internal") && strings.HasSuffix(t, ")") && !strings.Contains(t, "zzverif") {
			f := t[strings.LastIndex(t, "/")+1:]
			s := what + " in " + f
			if !seen[s] {
				seen[s] = true
				out = append(out, s)
			}
			what = ""
		}
		if n > 8 {
			break
		}
	}
	if len(out) > 4 {
		out = out[:4]
	}
	return strings.Join(out, "; ")
}

func sortedKeys(m map[string]int) []string {
	var k []string
	for x := range m {
		k = append(k, x)
	}
	sort.Strings(k)
	return k
}

func gc() { runtime.GC() }
