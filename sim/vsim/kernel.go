// Package vsim is a deterministic simulator for Go programs whose sync, channel,
// file, clock, randomness and process primitives were rewritten to call it.
//
// One kernel goroutine owns all simulator state. Exactly one task (a goroutine of
// the program under test) runs at any time; at every intercepted operation it parks
// itself and hands the operation to the kernel, which decides who runs next.
//
// The package is compiled WITHOUT race instrumentation even in -race builds, and all
// hand-offs are hidden from the race detector, so that the happens-before relation the
// detector sees is that of the program, not that of the simulator.
package vsim

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"
)

const (
	stNew = iota
	stRunnable
	stBlocked
	stRunning
	stDone
)

// operation kinds, used for the interleaving hash and the event log
const (
	opStart = iota + 1
	opExit
	opGo
	opLock
	opUnlock
	opSend
	opRecv
	opClose
	opSelect
	opWait
	opYield
	opFS
	opRand
	opTime
	opAtomic
	opLog
	opUser
)

var opNames = []string{"", "start", "exit", "go", "lock", "unlock", "send", "recv", "close", "select", "wait", "yield", "fs", "rand", "time", "atomic", "log", "user"}

type task struct {
	id      int
	wake    chan struct{}
	state   int
	kill    bool
	kind    int
	fn      func(t *task) bool
	prio    uint64
	exiting bool
	panicV  string
	stack   string
	goexit  bool
	deadl   int64 // timer deadline
	blockOn string
	what    string
	// results of channel operations
	rv  interface{}
	rok bool
	acq *tok // token to acquire after resuming
	sel int
}

// Deviation: at step Step the scheduler ran task Task although the default policy
// (keep running the current task, else the runnable task with the lowest id) would not.
type Deviation struct {
	Step int `json:"step"`
	Task int `json:"task"`
}

// Fault is one injected fault: the N-th operation Op on Path misbehaves as Kind.
type Fault struct {
	Path string `json:"path"`
	Op   string `json:"op"`
	N    int    `json:"n"`
	Kind string `json:"kind"`
	Arg  int64  `json:"arg"`
}

func (f Fault) String() string {
	return fmt.Sprintf("%s on %s #%d of %s (arg %d)", f.Kind, f.Op, f.N, f.Path, f.Arg)
}

// Policy says how schedules are drawn.
type Policy struct {
	Kind string  `json:"kind"` // default, random, pct, rr, newest, starve
	P    float64 `json:"p"`
	D    int     `json:"d"`
	L    int     `json:"l"`
}

// FaultPlan says which faults are drawn when no fixed list is given.
type FaultPlan struct {
	Kinds  map[string]float64 // probability per eligible operation
	Max    int                // at most this many hard faults per run
	Prefix string             // only on paths with this prefix ("" all)
}

type Config struct {
	Seed     uint64
	Policy   Policy
	NumCPU   int
	MemMiB   int64
	StepCap  int
	FS       *FS
	Plan     *FaultPlan
	Schedule []Deviation // fixed schedule when Fixed
	Faults   []Fault     // faults injected in any case; the only ones when Fixed
	Fixed    bool
	KeepLog  bool
	NoDrain  bool // process exits when main returns: other tasks are not run on
}

type Result struct {
	Outcome   string // ok, panic, deadlock, stepcap, crash, exit
	Detail    string
	Stack     string
	ExitCode  int
	Steps     int
	Switches  int
	Tasks     int
	Leaked    int
	LeakedAt  string
	Schedule  []Deviation
	Faults    []Fault
	Hash      uint64
	Races     int
	OpenFiles []string
	Stdout    []byte
	MaxRun    int
	SimNanos  int64
	Log       []string
	Blocked   string
}

func (r *Result) Hard() int {
	n := 0
	for _, f := range r.Faults {
		if !benign(f.Kind) {
			n++
		}
	}
	return n
}

func benign(kind string) bool { return kind == "read-short" || kind == "slow" }

type Kernel struct {
	cfg      Config
	req      chan *task
	tasks    []*task // live tasks by id order
	nTasks   int
	cur      *task
	rng      rng // scheduling and fault draws
	prng     rng // randomness handed to the program
	step     int
	now      int64
	res      *Result
	prioLow  uint64
	chg      map[int]bool
	starve   int
	mus      map[*Mutex]*waitq
	rws      map[*RWMutex]*rwstate
	wgs      map[*WaitGroup]*wgstate
	conds    map[*Cond]*waitq
	chans    map[uintptr]*chanState
	opCount  map[string]int
	schedIdx map[int]int
	hardN    int
	mainDone bool
	aborting bool
	crashNow bool
	exited   bool
	main     *task
	faultIdx map[string][]Fault
	tmpN     int
}

type waitq struct{ q []*task }

var (
	theK   *Kernel
	curT   *task
	runMu  sync.Mutex
	endTok = new(tok)
)

type tok struct{ p *int }

// Active reports whether the caller runs inside a simulation.
func Active() bool { return theK != nil }

type rng struct{ s uint64 }

func (r *rng) next() uint64 {
	r.s += 0x9E3779B97F4A7C15
	z := r.s
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}
func (r *rng) intn(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.next() % uint64(n))
}
func (r *rng) float() float64 { return float64(r.next()>>11) / float64(1<<53) }

// Run executes fn as the main task of one simulated process execution.
func Run(cfg Config, fn func()) *Result {
	runMu.Lock()
	defer runMu.Unlock()
	if cfg.StepCap == 0 {
		cfg.StepCap = 2000000
	}
	if cfg.NumCPU == 0 {
		cfg.NumCPU = 1
	}
	if cfg.MemMiB == 0 {
		cfg.MemMiB = 4096
	}
	if cfg.FS == nil {
		cfg.FS = NewFS()
	}
	k := &Kernel{cfg: cfg, req: make(chan *task), rng: rng{cfg.Seed*2654435761 + 17}, prng: rng{cfg.Seed ^ 0xABCDEF1234567},
		res: &Result{}, mus: map[*Mutex]*waitq{}, rws: map[*RWMutex]*rwstate{}, wgs: map[*WaitGroup]*wgstate{}, conds: map[*Cond]*waitq{},
		chans: map[uintptr]*chanState{}, opCount: map[string]int{}, starve: -1, now: 1_600_000_000_000_000_000}
	k.cfg.FS.handles = map[int]string{}
	k.cfg.FS.Root, k.cfg.FS.Uid, k.cfg.FS.Gid = "", 0, 0
	if cfg.Fixed {
		k.schedIdx = map[int]int{}
		for _, d := range cfg.Schedule {
			k.schedIdx[d.Step] = d.Task
		}
	}
	if len(cfg.Faults) > 0 {
		k.faultIdx = map[string][]Fault{}
		for _, f := range cfg.Faults {
			key := f.Op + "\x00" + f.Path
			k.faultIdx[key] = append(k.faultIdx[key], f)
		}
	}
	k.cfg.FS.Capacity = -1
	for _, f := range cfg.Faults {
		if f.Kind == "disk-capacity" {
			k.cfg.FS.Capacity = f.Arg + k.cfg.FS.used()
			k.res.Faults = append(k.res.Faults, f)
		}
	}
	k.prioLow = 1 << 40
	if cfg.Policy.Kind == "pct" {
		k.chg = map[int]bool{}
		l := cfg.Policy.L
		if l < 10 {
			l = 10
		}
		for i := 0; i < cfg.Policy.D; i++ {
			k.chg[k.rng.intn(l)] = true
		}
	}
	if cfg.Policy.Kind == "starve" {
		k.starve = 1 + k.rng.intn(12)
	}
	races0 := raceErrors()
	theK = k
	done := make(chan struct{})
	go func() {
		k.main = k.newTask(fn)
		go k.main.run(fn)
		// hide all kernel synchronisation from the race detector from here on
		raceDisable()
		k.loop()
		raceEnable()
		close(done)
	}()
	<-done
	raceAcquire(endTok)
	theK = nil
	curT = nil
	k.res.Races = raceErrors() - races0
	k.res.Steps = k.step
	k.res.Tasks = k.nTasks
	k.res.SimNanos = k.now - 1_600_000_000_000_000_000
	for _, p := range k.cfg.FS.handleNames() {
		k.res.OpenFiles = append(k.res.OpenFiles, p)
	}
	return k.res
}

func (k *Kernel) newTask(fn func()) *task {
	t := &task{id: k.nTasks, wake: make(chan struct{}), state: stRunnable, kind: opStart}
	k.nTasks++
	if k.cfg.Policy.Kind == "pct" {
		t.prio = (1 << 41) + k.rng.next()%(1<<40)
	}
	k.tasks = append(k.tasks, t)
	return t
}

func (t *task) run(fn func()) {
	raceDisable()
	<-t.wake
	raceEnable()
	normal := false
	defer func() {
		if !normal {
			if r := recover(); r != nil {
				t.panicV = fmt.Sprint(r)
				if t.panicV == "" {
					t.panicV = "(empty panic)"
				}
				t.stack = string(debug.Stack())
			} else {
				t.goexit = true
			}
		}
		t.exiting = true
		raceRelMerge(endTok)
		raceDisable()
		theK.req <- t
		raceEnable()
	}()
	if !t.kill {
		fn()
	}
	normal = true
}

// call parks the current task; the kernel runs fn when it schedules the task. fn returns
// false if the operation blocks (after registering the task with whatever will wake it).
func call(kind int, fn func(t *task) bool) *task {
	t := curT
	if t.kill {
		return t
	}
	t.kind, t.fn = kind, fn
	raceDisable()
	theK.req <- t
	<-t.wake
	raceEnable()
	if t.kill {
		runtime.Goexit()
	}
	return t
}

func dead() bool { return curT != nil && curT.kill }

func (k *Kernel) ready(t *task) {
	t.state = stRunnable
	t.fn = nil
	t.blockOn = ""
}

func (k *Kernel) retry(q *waitq) {
	for _, t := range q.q {
		t.state = stRunnable
		t.blockOn = ""
	}
	q.q = q.q[:0]
}

func (k *Kernel) pick() *task {
	var run [128]*task
	runnable := run[:0]
	for _, t := range k.tasks {
		if t.state == stRunnable {
			runnable = append(runnable, t)
		}
	}
	if len(runnable) == 0 {
		return nil
	}
	if len(runnable) > k.res.MaxRun {
		k.res.MaxRun = len(runnable)
	}
	def := runnable[0]
	if k.cur != nil && k.cur.state == stRunnable {
		def = k.cur
	}
	choice := def
	if k.cfg.Fixed {
		if id, ok := k.schedIdx[k.step]; ok {
			for _, t := range runnable {
				if t.id == id {
					choice = t
				}
			}
		}
	} else if len(runnable) > 1 || k.cfg.Policy.Kind == "pct" {
		switch k.cfg.Policy.Kind {
		case "random":
			if k.cur == nil || k.cur.state != stRunnable || k.rng.float() < k.cfg.Policy.P {
				choice = runnable[k.rng.intn(len(runnable))]
			}
		case "pct":
			if k.chg[k.step] && k.cur != nil {
				k.prioLow--
				k.cur.prio = k.prioLow
			}
			for _, t := range runnable {
				if choice == nil || t.prio > choice.prio {
					choice = t
				}
			}
		case "rr":
			choice = runnable[0]
			if k.cur != nil {
				for _, t := range runnable {
					if t.id > k.cur.id {
						choice = t
						break
					}
				}
			}
		case "newest":
			choice = runnable[len(runnable)-1]
		case "starve":
			choice = nil
			for tries := 0; tries < 4 && choice == nil; tries++ {
				c := runnable[k.rng.intn(len(runnable))]
				if c.id != k.starve {
					choice = c
				}
			}
			if choice == nil {
				choice = def
			}
		}
	}
	if choice != def {
		k.res.Schedule = append(k.res.Schedule, Deviation{k.step, choice.id})
	}
	if k.cur != nil && choice != k.cur {
		k.res.Switches++
	}
	return choice
}

func (k *Kernel) mix(a, b int) {
	h := k.res.Hash
	h ^= uint64(a)*1000003 + uint64(b)
	h *= 0x100000001b3
	h ^= h >> 29
	k.res.Hash = h
}

func (k *Kernel) loop() {
	for {
		k.fireTimers()
		t := k.pick()
		if t == nil {
			if k.nextTimer() {
				continue
			}
			if k.mainDone {
				n, at := 0, ""
				for _, x := range k.tasks {
					n++
					at += fmt.Sprintf(" task %d blocked on %s;", x.id, x.blockOn)
				}
				k.res.Leaked, k.res.LeakedAt = n, at
				if k.res.Outcome == "" {
					k.res.Outcome = "ok"
				}
			} else {
				k.res.Outcome = "deadlock"
				at := ""
				for _, x := range k.tasks {
					at += fmt.Sprintf(" task %d blocked on %s;", x.id, x.blockOn)
				}
				k.res.Detail = "no task can make progress:" + at
			}
			k.killAll()
			return
		}
		k.step++
		k.now += 1000
		if k.step > k.cfg.StepCap {
			k.res.Outcome = "stepcap"
			k.res.Detail = fmt.Sprintf("no completion within %d simulated steps", k.cfg.StepCap)
			k.killAll()
			return
		}
		k.mix(t.id, t.kind)
		if k.cfg.KeepLog {
			k.res.Log = append(k.res.Log, fmt.Sprintf("%d task %d %s %s", k.step, t.id, opNames[t.kind], t.what))
			t.what = ""
		}
		if t.fn != nil {
			k.cur = t
			fin := t.fn(t)
			if k.crashNow {
				k.res.Outcome = "crash"
				k.killAll()
				return
			}
			if k.exited {
				k.res.Outcome = "exit"
				k.killAll()
				return
			}
			if k.res.Outcome == "panic" {
				k.killAll()
				return
			}
			if !fin {
				if t.state == stRunnable {
					t.state = stBlocked
				}
				continue
			}
			t.fn = nil
			if t.kind == opSend || t.kind == opUnlock || t.kind == opClose || t.kind == opAtomic {
				// a second scheduling point right after operations that release other tasks
				t.kind = opYield
				t.state = stRunnable
				continue
			}
		}
		k.cur = t
		t.state = stRunning
		curT = t
		t.wake <- struct{}{}
		r := <-k.req
		if r != t {
			panic("vsim: foreign task entered the simulator")
		}
		if r.exiting {
			t.state = stDone
			k.remove(t)
			k.mix(t.id, opExit)
			if t.panicV != "" {
				k.res.Outcome = "panic"
				k.res.Detail = t.panicV
				k.res.Stack = t.stack
				k.killAll()
				return
			}
			if t == k.main {
				k.mainDone = true
				if k.cfg.NoDrain {
					k.res.Outcome = "ok"
					k.res.Leaked = len(k.tasks)
					k.killAll()
					return
				}
			}
			if len(k.tasks) == 0 {
				if k.res.Outcome == "" {
					k.res.Outcome = "ok"
				}
				return
			}
			continue
		}
		t.state = stRunnable
	}
}

func (k *Kernel) remove(t *task) {
	for i, x := range k.tasks {
		if x == t {
			k.tasks = append(k.tasks[:i], k.tasks[i+1:]...)
			return
		}
	}
}

func (k *Kernel) killAll() {
	k.aborting = true
	for len(k.tasks) > 0 {
		t := k.tasks[0]
		t.kill = true
		curT = t
		t.wake <- struct{}{}
		r := <-k.req
		if !r.exiting {
			panic("vsim: killed task re-entered the simulator")
		}
		k.remove(r)
	}
}

func (k *Kernel) fatal(msg string) {
	k.res.Outcome = "panic"
	k.res.Detail = msg
}

// timers
func (k *Kernel) fireTimers() {
	for _, t := range k.tasks {
		if t.state == stBlocked && t.deadl != 0 && t.deadl <= k.now {
			t.deadl = 0
			k.ready(t)
		}
	}
}

func (k *Kernel) nextTimer() bool {
	best := int64(0)
	for _, t := range k.tasks {
		if t.state == stBlocked && t.deadl != 0 && (best == 0 || t.deadl < best) {
			best = t.deadl
		}
	}
	if best == 0 {
		return false
	}
	if best > k.now {
		k.now = best
	}
	return true
}

// Go starts fn as a new task.
func Go(fn func()) {
	if theK == nil {
		go fn()
		return
	}
	if dead() {
		return
	}
	var nt *task
	call(opGo, func(t *task) bool {
		nt = theK.newTask(fn)
		return true
	})
	go nt.run(fn)
	yieldKind(opYield)
}

func yieldKind(kind int) {
	if theK == nil || dead() {
		return
	}
	call(kind, func(t *task) bool { return true })
}

// Yield is a scheduling point (runtime.Gosched).
func Yield() { yieldKind(opYield) }

// Point is a scheduling point used by harness stubs.
func Point() { yieldKind(opUser) }

// Step returns the current global event number; usable as a logical timestamp.
func Step() int {
	if theK == nil {
		return 0
	}
	return theK.step
}

// TaskID returns the id of the running task.
func TaskID() int {
	if curT == nil {
		return -1
	}
	return curT.id
}

// ShortStack trims a goroutine stack to the frames of the program under test.
func ShortStack(s string) string {
	var out []string
	for _, l := range strings.Split(s, "\n") {
		if strings.Contains(l, "nightlight/internal/") && !strings.Contains(l, "zzverif") && !strings.HasPrefix(l, "\t") {
			out = append(out, l)
			if len(out) >= 4 {
				break
			}
		}
	}
	return strings.Join(out, " < ")
}
