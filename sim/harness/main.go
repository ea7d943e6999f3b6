package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/mlnoga/nightlight/internal/zzverif/vsim"
)

// own flags: the command line tool under test defines its flags in the default set
var hf = flag.NewFlagSet("simcheck", flag.ExitOnError)

var (
	fProp    = hf.String("prop", "", "property id")
	fTier    = hf.String("tier", "quick", "quick or thorough")
	fSeed    = hf.Uint64("seed", 1, "seed")
	fCases   = hf.Int("cases", 0, "number of cases (0: the property's own)")
	fTime    = hf.Int("time", 0, "time budget for exploration in seconds (0: by tier)")
	fVerif   = hf.String("verif", "/verif", "verification directory")
	fWorker  = hf.String("worker", "", "internal: k/n")
	fOne     = hf.Int("one", -1, "internal: run this case only")
	fReplay  = hf.String("replay", "", "replay a file")
	fMin     = hf.String("minimise", "", "internal: minimise a replay file in place")
	fWorkers = hf.Int("j", 0, "workers")
	fTrace   = hf.Bool("trace", false, "with -replay: print the event trace")
	fBuildS  = hf.Float64("builds", 0, "seconds spent building, for the evidence")
	fProf    = hf.String("cpuprofile", "", "development: CPU profile of -one or -worker")
	fKeep    = hf.Bool("keep-going", false, "do not stop at the first violation (development)")
)

type msg struct {
	Start  *int           `json:"s,omitempty"`
	Done   *int           `json:"d,omitempty"`
	Viol   *Violation     `json:"v,omitempty"`
	Key    uint64         `json:"k,omitempty"`
	NT     bool           `json:"n,omitempty"`
	Sims   int            `json:"sims,omitempty"`
	Steps  int            `json:"st,omitempty"`
	Sw     int            `json:"sw,omitempty"`
	Nanos  int64          `json:"ns,omitempty"`
	Hash   []uint64       `json:"h,omitempty"`
	Faults map[string]int `json:"f,omitempty"`
	Probes map[string]int `json:"p,omitempty"`
	Knobs  map[string]int `json:"kn,omitempty"`
	Fixes  []SimFix       `json:"fx,omitempty"`
	MaxRun int            `json:"mr,omitempty"`
	End    bool           `json:"end,omitempty"`
	Cfg    string         `json:"cfg,omitempty"`
}

// Replay is the file format of a violation.
type Replay struct {
	Property  string         `json:"property"`
	Seed      uint64         `json:"case_seed"`
	Case      int            `json:"case"`
	BaseSeed  uint64         `json:"base_seed"`
	Violation Violation      `json:"violation"`
	Knobs     map[string]int `json:"knobs"`
	Sims      []SimFix       `json:"simulations"`
	Free      bool           `json:"free_schedule"`
	Minimised bool           `json:"minimised"`
	Notes     []string       `json:"notes,omitempty"`
	Trace     []string       `json:"trace,omitempty"`
}

func caseSeed(base uint64, prop string, i int) uint64 {
	return mix64(mix64(base*0x9E3779B97F4A7C15^hstr(prop)) ^ uint64(i)*0xD1B54A32D192ED03)
}

func knobMap(c *Case) map[string]int {
	m := map[string]int{}
	for _, k := range c.knobs {
		m[k.Name] = k.Val
	}
	return m
}

func fixes(c *Case) []SimFix {
	var f []SimFix
	for _, s := range c.sims {
		f = append(f, s.fix)
	}
	return f
}

func main() {
	hf.Parse(os.Args[1:])
	debug.SetGCPercent(200)
	raceLog = os.Getenv("VSIM_RACELOG")
	if *fReplay != "" {
		os.Exit(replay(*fReplay))
	}
	if *fMin != "" {
		minimise(*fMin)
		return
	}
	p := props[*fProp]
	if p == nil {
		fmt.Fprintf(os.Stderr, "unknown property %q\n", *fProp)
		os.Exit(2)
	}
	if *fWorker != "" || *fOne >= 0 {
		if *fProf != "" {
			if f, err := os.Create(*fProf); err == nil {
				pprof.StartCPUProfile(f)
				defer pprof.StopCPUProfile()
			}
		}
		worker(p)
		return
	}
	os.Exit(master(p))
}

func worker(p *Prop) {
	k, n := 0, 1
	fmt.Sscanf(*fWorker, "%d/%d", &k, &n)
	from, to := k, *fCases
	if *fOne >= 0 {
		from, to, n = *fOne, *fOne+1, 1
	}
	w := bufio.NewWriter(os.Stdout)
	enc := json.NewEncoder(w)
	deadline := time.Now().Add(time.Duration(*fTime) * time.Second)
	for i := from; i < to; i += n {
		if *fTime > 0 && time.Now().After(deadline) {
			break
		}
		j := i
		enc.Encode(msg{Start: &j})
		w.Flush()
		c, v := runCase(p, caseSeed(*fSeed, p.ID, i), nil, nil, false)
		m := msg{Done: &j, Viol: v, Key: c.key, NT: c.nontriv, Sims: len(c.sims), Probes: c.probes, Faults: map[string]int{}}
		for _, s := range c.sims {
			m.Steps += s.res.Steps
			m.Sw += s.res.Switches
			m.Nanos += s.res.SimNanos
			m.Hash = append(m.Hash, s.res.Hash)
			if s.res.MaxRun > m.MaxRun {
				m.MaxRun = s.res.MaxRun
			}
			for _, f := range s.res.Faults {
				m.Faults[f.Kind]++
			}
			if s.res.Outcome == "crash" {
				m.Faults["process crash delivered"]++
			}
		}
		if v != nil || i < 3 {
			m.Knobs = knobMap(c)
			m.Fixes = fixes(c)
		}
		enc.Encode(m)
		w.Flush()
	}
	enc.Encode(msg{End: true})
	w.Flush()
}

func child(args []string, dir string, mem bool) *exec.Cmd {
	cmd := exec.Command(os.Args[0], args...)
	cmd.Env = append(os.Environ(), "GOMAXPROCS=2",
		"GORACE=exitcode=0 halt_on_error=0 suppress_equal_stacks=0 suppress_equal_addresses=0 history_size=5 atexit_sleep_ms=0 log_path="+dir+"/race",
		"VSIM_RACELOG="+dir+"/race", "GOMEMLIMIT=2500MiB")
	cmd.Stderr = nil
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	return cmd
}

type agg struct {
	cases, nt, sims, steps, sw int
	nanos                      int64
	keys                       map[uint64]bool
	ntKeys                     map[uint64]bool
	hashes                     map[uint64]bool
	faults, probes             map[string]int
	samples                    []interface{}
	maxRun                     int
}

func master(p *Prop) int {
	t0 := time.Now()
	dir, err := os.MkdirTemp("", "simcheck")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(dir)
	cases, limit := *fCases, *fTime
	if cases == 0 {
		cases = p.Quick
		if *fTier == "thorough" {
			cases = p.Deep
			if cases == 0 {
				cases = 100 * p.Quick
			}
		}
	}
	if limit == 0 {
		limit = 60
		if *fTier == "thorough" {
			limit = 600
		}
	}
	n := *fWorkers
	if n == 0 {
		n = runtime.NumCPU()
		if n > 8 {
			n = 8
		}
	}
	if n > cases {
		n = cases
	}
	base := []string{"-prop", p.ID, "-tier", *fTier, "-seed", fmt.Sprint(*fSeed), "-cases", fmt.Sprint(cases), "-time", fmt.Sprint(limit)}
	a := &agg{keys: map[uint64]bool{}, ntKeys: map[uint64]bool{}, hashes: map[uint64]bool{}, faults: map[string]int{}, probes: map[string]int{}}
	var mu sync.Mutex
	type found struct {
		idx   int
		v     Violation
		knobs map[string]int
		fixes []SimFix
		crash bool
	}
	var viols []found
	var trouble []string
	stop := false
	var wg sync.WaitGroup
	var cmds []*exec.Cmd
	for k := 0; k < n; k++ {
		wd := filepath.Join(dir, fmt.Sprint("w", k))
		os.MkdirAll(wd, 0755)
		cmd := child(append(append([]string{}, base...), "-worker", fmt.Sprintf("%d/%d", k, n)), wd, true)
		out, _ := cmd.StdoutPipe()
		ef, _ := os.Create(wd + "/stderr")
		cmd.Stderr = ef
		if err := cmd.Start(); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		cmds = append(cmds, cmd)
		wg.Add(1)
		go func(k int, cmd *exec.Cmd, wd string) {
			defer wg.Done()
			cur := -1
			ended := false
			last := time.Now()
			var lmu sync.Mutex
			hung := false
			fin := make(chan bool)
			go func() {
				for {
					select {
					case <-fin:
						return
					case <-time.After(2 * time.Second):
					}
					lmu.Lock()
					if time.Since(last) > 90*time.Second {
						hung = true
						cmd.Process.Kill()
					}
					lmu.Unlock()
				}
			}()
			rd := bufio.NewReaderSize(out, 1<<20)
			for {
				line, err := rd.ReadBytes('\n')
				if err != nil {
					break
				}
				var m msg
				mu.Lock()
				err = json.Unmarshal(line, &m)
				mu.Unlock()
				if err != nil {
					continue
				}
				lmu.Lock()
				last = time.Now()
				lmu.Unlock()
				if m.Start != nil {
					cur = *m.Start
				}
				if m.End {
					ended = true
				}
				if m.Done != nil {
					mu.Lock()
					cur = -1
					a.add(*m.Done, &m)
					if m.Viol != nil {
						viols = append(viols, found{*m.Done, *m.Viol, m.Knobs, m.Fixes, false})
						if !*fKeep {
							stop = true
							for _, c := range cmds {
								if c.Process != nil {
									c.Process.Kill()
								}
							}
						}
					}
					mu.Unlock()
				}
			}
			close(fin)
			cmd.Wait()
			mu.Lock()
			defer mu.Unlock()
			if !ended && !stop {
				tail := fileTail(wd+"/stderr", 3000)
				if cur >= 0 {
					class := "process-crash"
					if hung {
						class = "hang"
					}
					viols = append(viols, found{cur, Violation{class, tail}, nil, nil, true})
					stop = true
					for _, c := range cmds {
						c.Process.Kill()
					}
				} else {
					trouble = append(trouble, fmt.Sprintf("worker %d ended early: %s", k, tail))
				}
			}
		}(k, cmd, wd)
	}
	wg.Wait()
	explore := time.Since(t0).Seconds()
	sort.Slice(viols, func(i, j int) bool { return viols[i].idx < viols[j].idx })
	rc := 0
	known := loadKnown(p.ID)
	for _, kf := range known {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", p.ID, kf.What)
	}
	var reported []Violation
	if *fKeep {
		cl := map[string]int{}
		for _, f := range viols {
			k := f.v.Class
			if i, j := strings.Index(f.v.Msg, "["), strings.Index(f.v.Msg, "("); k == "panic" && i >= 0 {
				j = len(f.v.Msg)
				if m := strings.Index(f.v.Msg, " <"); m > 0 {
					j = m
				}
				k += strings.Map(func(r rune) rune {
					if r >= '0' && r <= '9' {
						return -1
					}
					return r
				}, f.v.Msg[strings.LastIndex(f.v.Msg[:j], "/")+1:j])
				if n := strings.LastIndex(k, "("); n > 6 {
					k = k[:n]
				}
			}
			cl[k]++
			if cl[k] <= 2 {
				fmt.Printf("-- case %d class %s: %s\n   knobs %v\n", f.idx, f.v.Class, f.v.Msg, f.knobs)
			}
		}
		fmt.Println("-- classes:", cl)
	}
	for _, f := range viols {
		rdir := filepath.Join(*fVerif, "replays")
		os.MkdirAll(rdir, 0755)
		path := filepath.Join(rdir, fmt.Sprintf("%s-s%d-c%d.json", p.ID, *fSeed, f.idx))
		rep := Replay{Property: p.ID, Seed: caseSeed(*fSeed, p.ID, f.idx), Case: f.idx, BaseSeed: *fSeed, Violation: f.v, Knobs: f.knobs, Sims: f.fixes, Free: f.fixes == nil}
		if f.crash {
			// the process died: confirm in a fresh process before reporting
			wd := filepath.Join(dir, "confirm")
			os.MkdirAll(wd, 0755)
			cmd := child(append(append([]string{}, base...), "-one", fmt.Sprint(f.idx)), wd, true)
			ef, _ := os.Create(wd + "/stderr")
			cmd.Stderr = ef
			out := &strings.Builder{}
			cmd.Stdout = out
			cmd.Start()
			tm := time.AfterFunc(120*time.Second, func() { cmd.Process.Kill() })
			cmd.Wait()
			tm.Stop()
			if strings.Contains(out.String(), `"d":`) && strings.Contains(out.String(), `"end"`) && !strings.Contains(out.String(), `"v":{`) {
				fmt.Fprintf(os.Stderr, "worker died in case %d but the case passes in a fresh process; not reported\n%s\n", f.idx, f.v.Msg)
				rc = 2
				break
			}
			rep.Free = true
			rep.Violation.Msg = fileTail(wd+"/stderr", 3000)
			writeJSON(path, rep)
		} else {
			writeJSON(path, rep)
			cmd := child([]string{"-minimise", path}, dir, true)
			cmd.Stderr = nil
			cmd.Start()
			tm := time.AfterFunc(120*time.Second, func() { cmd.Process.Kill() })
			cmd.Wait()
			tm.Stop()
			// confirm in a fresh process
			ok := false
			for try := 0; try < 3 && !ok; try++ {
				cmd = child([]string{"-replay", path}, dir, true)
				o, _ := cmd.Output()
				ok = strings.Contains(string(o), "VIOLATION")
			}
			if !ok {
				writeJSON(path, rep)
				cmd = child([]string{"-replay", path}, dir, true)
				o, _ := cmd.Output()
				if !strings.Contains(string(o), "VIOLATION") {
					fmt.Fprintf(os.Stderr, "note: the replay file did not reproduce in a fresh process (nondeterminism outside the simulator): %s\n", f.v.Msg)
				}
			}
			if b, err := os.ReadFile(path); err == nil {
				json.Unmarshal(b, &rep)
			}
		}
		fmt.Printf("%s: %s\n", rep.Violation.Class, rep.Violation.Msg)
		fmt.Printf("case seed %d (base seed %d case %d), knobs %v\n", rep.Seed, *fSeed, f.idx, rep.Knobs)
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
		reported = append(reported, rep.Violation)
		rc = 1
		break
	}
	if rc == 0 && len(trouble) > 0 {
		fmt.Fprintln(os.Stderr, strings.Join(trouble, "\n"))
		rc = 2
	}
	evidence(p, a, t0, explore, cases, len(reported), known)
	fmt.Printf("%s: %d cases, %d simulations, %d steps, %d distinct interleavings, %d distinct non-trivial, %.1f s\n", p.ID, a.cases, a.sims, a.steps, len(a.hashes), len(a.ntKeys), explore)
	return rc
}

func (a *agg) add(idx int, m *msg) {
	a.cases++
	a.sims += m.Sims
	a.steps += m.Steps
	a.sw += m.Sw
	a.nanos += m.Nanos
	a.keys[m.Key] = true
	if m.NT {
		a.nt++
		a.ntKeys[m.Key] = true
	}
	for _, h := range m.Hash {
		a.hashes[h] = true
	}
	if m.MaxRun > a.maxRun {
		a.maxRun = m.MaxRun
	}
	for k, v := range m.Faults {
		a.faults[k] += v
	}
	for k, v := range m.Probes {
		a.probes[k] += v
	}
	if idx < 3 && m.Knobs != nil {
		var f []string
		for _, s := range m.Fixes {
			d := len(s.Schedule)
			f = append(f, fmt.Sprintf("%s: %d schedule deviations, faults %v", s.Name, d, s.Faults))
		}
		a.samples = append(a.samples, map[string]interface{}{"case": idx, "draws": m.Knobs, "simulations": f})
	}
}

func fileTail(p string, n int) string {
	b, _ := os.ReadFile(p)
	if len(b) > n {
		b = b[:n]
	}
	return string(b)
}

func writeJSON(path string, v interface{}) {
	b, _ := json.MarshalIndent(v, "", " ")
	os.WriteFile(path, append(b, '\n'), 0644)
}

type knownF struct {
	Property string `json:"property"`
	ID       string `json:"id"`
	Status   string `json:"status"`
	What     string `json:"what"`
}

func loadKnown(prop string) (out []knownF) {
	b, err := os.ReadFile(filepath.Join(*fVerif, "known-findings.json"))
	if err != nil {
		return
	}
	var all []knownF
	json.Unmarshal(b, &all)
	for _, k := range all {
		if k.Property == prop && k.Status == "known" {
			out = append(out, k)
		}
	}
	return
}

func evidence(p *Prop, a *agg, t0 time.Time, explore float64, cases, nviol int, known []knownF) {
	wall := time.Since(t0).Seconds() + *fBuildS
	fl := map[string]int{}
	for k, v := range a.faults {
		fl[k] = v
	}
	rate := 0.0
	if explore > 0 {
		rate = 3600 / explore
	}
	level := p.Level
	if level == "" {
		level = "exploration"
	}
	samples := a.samples
	if len(samples) == 0 {
		samples = []interface{}{fmt.Sprintf("case seeds from base seed %d", *fSeed)}
	}
	e := map[string]interface{}{
		"property": p.ID, "tier": *fTier, "seed": *fSeed, "level": level, "wall_s": wall, "violations": nviol,
		"coverage": map[string]interface{}{
			"evaluations": a.cases, "distinct_nontrivial": len(a.ntKeys),
			"rule":          p.Rule + " A case is non-trivial when its simulation deviates from the default schedule with at least two task switches, or at least one fault was injected, or the scenario marks it so; cases are distinct by a hash of all their draws and of the executed interleavings (sequence of task and operation kind).",
			"samples":       samples,
			"planned_cases": cases, "simulated_runs": a.sims, "case_seeds_per_hour": int(float64(a.cases) * rate), "simulated_runs_per_hour": int(float64(a.sims) * rate),
			"simulated_steps": a.steps, "task_switches": a.sw, "simulated_time_s": float64(a.nanos) / 1e9,
			"distinct_interleavings": len(a.hashes), "max_runnable_tasks": a.maxRun,
			"faults_injected": fl, "probes": a.probes,
			"build_s": *fBuildS, "explore_s": explore,
			"real_code":      "all of internal/{fits,median,ops,qsort,star,stats}" + realMore(p) + " rebuilt from the working tree" + raceNote() + ", its sync, channel, goroutine, file, clock, randomness and memory-size operations redirected to the simulator",
			"stubs":          "file system, goroutine scheduler, channels, mutexes, clock, randomness, CPU count and physical memory size" + stubMore(p),
			"known_findings": len(known),
		},
		"assumptions": []string{
			"tasks switch only at intercepted operations; accesses between them are checked by the Go race detector under the program's own happens-before order",
			"the simulated disk, not a real kernel, decides what reads and writes return",
		},
	}
	os.MkdirAll(filepath.Join(*fVerif, "evidence"), 0755)
	writeJSON(filepath.Join(*fVerif, "evidence", p.ID+".json"), e)
}

func realMore(p *Prop) string {
	switch p.ID {
	case "P29":
		return " and cmd/nightlight (its main function)"
	case "P30":
		return " and internal/rest with the gin router"
	case "P31":
		return ", cmd/nightlight (its main function) and internal/rest with the gin router"
	}
	return ""
}

func stubMore(p *Prop) string {
	switch p.ID {
	case "P29":
		return "; the signals, profile files and the web server are not started"
	case "P30":
		return "; network connections (requests and responses are harness objects), chroot and setuid, the embedded static files of web"
	case "P31":
		return "; network connections (requests and responses are harness objects), the system calls for root, working directory and user (they act on the simulated process), the embedded static files of web"
	}
	return "; internal/rest and cmd/nightlight are not part of this check (see P29 to P31)"
}

func replay(path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var rep Replay
	if err := json.Unmarshal(b, &rep); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	p := props[rep.Property]
	if p == nil {
		return 2
	}
	c, v := runCase(p, rep.Seed, rep.Knobs, fixMap(&rep), *fTrace)
	if *fTrace {
		for _, l := range c.log {
			fmt.Println(l)
		}
		for _, s := range c.sims {
			fmt.Println("== simulation", s.fix.Name)
			for _, l := range s.res.Log {
				fmt.Println(l)
			}
			if s.res.Stack != "" {
				fmt.Println(s.res.Stack)
			}
		}
	}
	if v == nil {
		fmt.Println("no violation")
		return 0
	}
	fmt.Printf("%s: %s\nVIOLATION property=%s replay=%s\n", v.Class, v.Msg, rep.Property, path)
	return 1
}

func fixMap(rep *Replay) map[string]*SimFix {
	if rep.Free {
		return nil
	}
	m := map[string]*SimFix{}
	for i := range rep.Sims {
		m[rep.Sims[i].Name] = &rep.Sims[i]
	}
	return m
}

// minimise shrinks the draws, then the schedule deviations and faults, while the same
// class of violation remains, and rewrites the file.
func minimise(path string) {
	b, err := os.ReadFile(path)
	if err != nil {
		os.Exit(2)
	}
	var rep Replay
	if json.Unmarshal(b, &rep) != nil {
		os.Exit(2)
	}
	p := props[rep.Property]
	deadline := time.Now().Add(50 * time.Second)
	class := rep.Violation.Class
	var lastC *Case
	var lastV *Violation
	try := func(over map[string]int, fx map[string]*SimFix) bool {
		if time.Now().After(deadline) {
			return false
		}
		c, v := runCase(p, rep.Seed, over, fx, false)
		if v != nil && v.Class == class {
			lastC, lastV = c, v
			return true
		}
		return false
	}
	if !try(nil, nil) {
		return // keep the recorded file
	}
	best, bestV := lastC, lastV
	over := map[string]int{}
	for progress := true; progress && time.Now().Before(deadline); {
		progress = false
		ks := append([]knob(nil), best.knobs...)
		for _, k := range ks {
			if k.Val == k.lo {
				continue
			}
			cands := []int{k.lo, k.lo + (k.Val-k.lo)/2, k.Val - 1}
			for _, v := range cands {
				if v >= k.Val || v < k.lo {
					continue
				}
				o := map[string]int{}
				for _, kk := range best.knobs {
					o[kk.Name] = kk.Val
				}
				o[k.Name] = v
				if try(o, nil) {
					best, bestV = lastC, lastV
					progress = true
					break
				}
			}
		}
	}
	over = knobMap(best)
	fx := map[string]*SimFix{}
	for _, f := range fixes(best) {
		g := f
		fx[f.Name] = &g
	}
	if !try(over, fx) {
		// fixed replay is not equivalent; keep the free-running form
		rep.Knobs, rep.Violation, rep.Sims, rep.Free, rep.Minimised = over, *bestV, fixes(best), true, true
		writeJSON(path, rep)
		return
	}
	best, bestV = lastC, lastV
	clone := func() map[string]*SimFix {
		m := map[string]*SimFix{}
		for k, v := range fx {
			g := *v
			m[k] = &g
		}
		return m
	}
	var names []string
	for k := range fx {
		names = append(names, k)
	}
	sort.Strings(names)
	for _, nm := range names {
		for _, what := range []string{"faults", "schedule"} {
			size := func() int {
				if what == "faults" {
					return len(fx[nm].Faults)
				}
				return len(fx[nm].Schedule)
			}
			for chunk := size(); chunk >= 1; {
				removed := false
				for at := 0; at < size() && time.Now().Before(deadline); {
					m := clone()
					end := at + chunk
					if end > size() {
						end = size()
					}
					if what == "faults" {
						m[nm].Faults = append(append([]vsim.Fault{}, fx[nm].Faults[:at]...), fx[nm].Faults[end:]...)
					} else {
						m[nm].Schedule = append(append([]vsim.Deviation{}, fx[nm].Schedule[:at]...), fx[nm].Schedule[end:]...)
					}
					if try(over, m) {
						fx = m
						best, bestV = lastC, lastV
						removed = true
					} else {
						at += chunk
					}
				}
				if chunk == 1 && !removed {
					break
				}
				if chunk > 1 {
					chunk /= 2
				}
				if time.Now().After(deadline) {
					break
				}
			}
		}
	}
	rep.Knobs, rep.Violation, rep.Free, rep.Minimised = over, *bestV, false, true
	rep.Sims = nil
	for _, nm := range names {
		rep.Sims = append(rep.Sims, *fx[nm])
	}
	// a readable trace of the minimised run
	c, _ := runCase(p, rep.Seed, over, fx, true)
	rep.Notes = c.log
	for _, s := range c.sims {
		l := s.res.Log
		if len(l) > 400 {
			l = l[len(l)-400:]
		}
		rep.Trace = append(rep.Trace, "== simulation "+s.fix.Name)
		rep.Trace = append(rep.Trace, l...)
	}
	writeJSON(path, rep)
}

var _ = io.EOF

func raceNote() string {
	if vsim.RaceEnabled {
		return " with the race detector"
	}
	return ""
}
