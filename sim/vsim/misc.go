package vsim

import (
	"flag"
	"fmt"
	"io"
	"os"
	"sort"
	"time"
)

// ---- runtime ----
func NumCPU() int {
	if theK == nil {
		return 1
	}
	return theK.cfg.NumCPU
}
func GOMAXPROCS(n int) int { return NumCPU() }
func GC()                  {}
func FreeOSMemory()        {}
func SetGCPercent(int) int { return 100 }
func NumGoroutine() int {
	n := 1
	if theK != nil && !dead() {
		call(opYield, func(t *task) bool { n = len(theK.tasks); return true })
	}
	return n
}

// ---- pbnjay/memory ----
func TotalMemory() uint64 {
	if theK == nil {
		return 4 << 30
	}
	return uint64(theK.cfg.MemMiB) << 20
}
func FreeMemory() uint64 { return TotalMemory() }

// ---- fastrand: every generator starts from the run's seed ----
type RNG struct{ x uint32 }

func (r *RNG) Uint32() uint32 {
	for r.x == 0 {
		s := uint64(12345)
		if theK != nil {
			s = theK.cfg.Seed
		}
		q := rng{s ^ 0x5bd1e995}
		r.x = uint32(q.next())
	}
	x := r.x
	x ^= x << 13
	x ^= x >> 17
	x ^= x << 5
	r.x = x
	return x
}
func (r *RNG) Uint32n(maxN uint32) uint32 { return uint32((uint64(r.Uint32()) * uint64(maxN)) >> 32) }
func (r *RNG) Seed(s uint32)              { r.x = s }

func prnd() uint64 {
	if theK == nil {
		return 4
	}
	if dead() {
		return 0
	}
	var v uint64
	call(opRand, func(t *task) bool { v = theK.prng.next(); return true })
	return v
}

func Uint32() uint32           { return uint32(prnd()) }
func Uint32n(n uint32) uint32  { return uint32((uint64(uint32(prnd())) * uint64(n)) >> 32) }
func RandInt() int             { return int(prnd() >> 1) }
func RandInt63() int64         { return int64(prnd() >> 1) }
func RandUint64() uint64       { return prnd() }
func RandInt31() int32         { return int32(prnd() >> 33) }
func RandIntn(n int) int       { return int(prnd() % uint64(n)) }
func RandInt31n(n int32) int32 { return int32(prnd() % uint64(n)) }
func RandInt63n(n int64) int64 { return int64(prnd() % uint64(n)) }
func RandFloat64() float64     { return float64(prnd()>>11) / float64(1<<53) }
func RandFloat32() float32     { return float32(prnd()>>40) / float32(1<<24) }
func RandSeed(int64)           {}
func RandShuffle(n int, swap func(i, j int)) {
	for i := n - 1; i > 0; i-- {
		swap(i, RandIntn(i+1))
	}
}
func RandPerm(n int) []int {
	m := make([]int, n)
	for i := range m {
		m[i] = i
	}
	RandShuffle(n, func(i, j int) { m[i], m[j] = m[j], m[i] })
	return m
}

// MapKeys returns the keys of m in a seed-determined order.
func MapKeys[K comparable, V any](m map[K]V) []K {
	keys := make([]K, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	if len(keys) < 2 {
		return keys
	}
	strs := make([]string, len(keys))
	idx := make([]int, len(keys))
	for i, k := range keys {
		strs[i] = fmt.Sprint(k)
		idx[i] = i
	}
	sort.SliceStable(idx, func(a, b int) bool { return strs[idx[a]] < strs[idx[b]] })
	out := make([]K, len(keys))
	s := uint64(99)
	if theK != nil {
		s = theK.cfg.Seed
	}
	r := rng{s}
	for i := len(idx) - 1; i > 0; i-- {
		j := r.intn(i + 1)
		idx[i], idx[j] = idx[j], idx[i]
	}
	for i, j := range idx {
		out[i] = keys[j]
	}
	return out
}

// ---- time ----
func Now() time.Time {
	if theK == nil {
		return time.Unix(1_600_000_000, 0)
	}
	return time.Unix(0, theK.now)
}
func Since(t time.Time) time.Duration { return Now().Sub(t) }
func Until(t time.Time) time.Duration { return t.Sub(Now()) }
func Sleep(d time.Duration) {
	if theK == nil || dead() {
		return
	}
	first := true
	call(opTime, func(t *task) bool {
		if !first || d <= 0 {
			return true
		}
		first = false
		t.deadl = theK.now + int64(d)
		t.state = stBlocked
		t.blockOn = "sleep"
		return false
	})
}
func After(d time.Duration) <-chan time.Time {
	ch := make(chan time.Time, 1)
	Go(func() { Sleep(d); Send[time.Time](ch, Now()) })
	return ch
}

type Timer struct {
	C       <-chan time.Time
	stopped bool
	fired   bool
}

func NewTimer(d time.Duration) *Timer {
	ch := make(chan time.Time, 1)
	t := &Timer{C: ch}
	Go(func() {
		Sleep(d)
		if !t.stopped {
			t.fired = true
			Send[time.Time](ch, Now())
		}
	})
	return t
}
func AfterFunc(d time.Duration, f func()) *Timer {
	t := &Timer{}
	Go(func() {
		Sleep(d)
		if !t.stopped {
			t.fired = true
			f()
		}
	})
	return t
}
func (t *Timer) Stop() bool { ok := !t.stopped && !t.fired; t.stopped = true; return ok }

type Ticker struct {
	C    <-chan time.Time
	stop bool
}

func NewTicker(d time.Duration) *Ticker {
	ch := make(chan time.Time, 1)
	t := &Ticker{C: ch}
	Go(func() {
		for !t.stop {
			Sleep(d)
			if Len(ch) == 0 {
				Send[time.Time](ch, Now())
			}
		}
	})
	return t
}
func (t *Ticker) Stop() { t.stop = true }

// ---- flag ----
func FlagParse() {
	flag.CommandLine.VisitAll(func(f *flag.Flag) { f.Value.Set(f.DefValue) })
	flag.CommandLine.Init("nightlight", flag.ContinueOnError)
	flag.CommandLine.SetOutput(io.Discard)
	if err := flag.CommandLine.Parse(Args[1:]); err != nil {
		Exit(2)
	}
}

// ---- fmt to standard output ----
func Printf(f string, a ...interface{}) (int, error) { return fmt.Fprintf(Stdout, f, a...) }
func Println(a ...interface{}) (int, error)          { return fmt.Fprintln(Stdout, a...) }
func Print(a ...interface{}) (int, error)            { return fmt.Fprint(Stdout, a...) }

// ---- log ----
func LogPrintf(f string, a ...interface{}) { fmt.Fprintf(Stderr, f+"\n", a...) }
func LogPrintln(a ...interface{})          { fmt.Fprintln(Stderr, a...) }
func LogPrint(a ...interface{})            { fmt.Fprint(Stderr, a...) }
func LogFatalf(f string, a ...interface{}) { fmt.Fprintf(Stderr, f+"\n", a...); Exit(1) }
func LogFatal(a ...interface{})            { fmt.Fprintln(Stderr, a...); Exit(1) }

// LogSink is a goroutine-unsafe writer target as seen by the program: each Write is recorded
// by the kernel, together with the task that issued it. FailAfter>=0 makes writes fail.
type LogSink struct {
	Msgs      []string
	Tasks     []int
	FailAfter int
	noFail    bool
	busy      int
	Overlap   int
	Slow      bool
}

func NewLogSink() *LogSink { return &LogSink{FailAfter: -1} }

func (l *LogSink) Write(p []byte) (int, error) {
	if theK == nil {
		l.Msgs = append(l.Msgs, string(p))
		return len(p), nil
	}
	if dead() {
		return len(p), nil
	}
	if l.Slow { // two scheduling points: observes overlapping Write calls
		call(opLog, func(t *task) bool {
			l.busy++
			if l.busy > 1 {
				l.Overlap++
			}
			return true
		})
	}
	fail := false
	call(opLog, func(t *task) bool {
		if l.FailAfter >= 0 && len(l.Msgs) >= l.FailAfter {
			fail = true
		} else {
			l.Msgs = append(l.Msgs, string(append([]byte(nil), p...)))
			l.Tasks = append(l.Tasks, t.id)
		}
		if l.Slow {
			l.busy--
		}
		return true
	})
	if fail {
		return 0, os.ErrClosed
	}
	return len(p), nil
}

func (l *LogSink) String() string {
	s := ""
	for _, m := range l.Msgs {
		s += m
	}
	return s
}

// Quiet runs harness bookkeeping shared between tasks. Synchronisation inside it does not
// order the tasks for the race detector. It must not reach a scheduling point.
func Quiet(fn func()) {
	raceDisable()
	defer raceEnable()
	fn()
}

// MapIt walks over a map in the order the scheduler chose.
type MapIt[K comparable, V any] struct {
	m    map[K]V
	keys []K
	i    int
	K    K
	V    V
}

func MapIter[K comparable, V any, M ~map[K]V](m M) (it *MapIt[K, V], k K, v V) {
	it = &MapIt[K, V]{m: m, keys: MapKeys(map[K]V(m))}
	return
}

func (it *MapIt[K, V]) Next() bool {
	for it.i < len(it.keys) {
		it.K = it.keys[it.i]
		it.i++
		if v, ok := it.m[it.K]; ok {
			it.V = v
			return true
		}
	}
	return false
}
