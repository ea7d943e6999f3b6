package vsim

import (
	"sync"
	"sync/atomic"
	"unsafe"
)

type Locker = sync.Locker

// Mutex replaces sync.Mutex. The locked flag is only touched by the kernel.
type Mutex struct {
	locked bool
	_      [7]byte
}

func (m *Mutex) Lock() {
	if theK == nil || dead() {
		return
	}
	call(opLock, func(t *task) bool {
		if !m.locked {
			m.locked = true
			return true
		}
		q := theK.mus[m]
		if q == nil {
			q = &waitq{}
			theK.mus[m] = q
		}
		q.q = append(q.q, t)
		t.state = stBlocked
		t.blockOn = "mutex"
		return false
	})
	raceAcqP(unsafe.Pointer(m))
}

func (m *Mutex) TryLock() bool {
	if theK == nil || dead() {
		return true
	}
	ok := false
	call(opLock, func(t *task) bool {
		if !m.locked {
			m.locked = true
			ok = true
		}
		return true
	})
	if ok {
		raceAcqP(unsafe.Pointer(m))
	}
	return ok
}

func (m *Mutex) Unlock() {
	if theK == nil || dead() {
		return
	}
	raceRelP(unsafe.Pointer(m))
	call(opUnlock, func(t *task) bool {
		if !m.locked {
			theK.fatal("fatal error: sync: unlock of unlocked mutex")
			return true
		}
		m.locked = false
		if q := theK.mus[m]; q != nil {
			theK.retry(q)
		}
		return true
	})
}

type rwstate struct {
	q       waitq
	readers int
	writer  bool
	wwait   int
}

// RWMutex replaces sync.RWMutex (writers are preferred, as in the original).
type RWMutex struct {
	w, r int32
}

func (k *Kernel) rw(m *RWMutex) *rwstate {
	s := k.rws[m]
	if s == nil {
		s = &rwstate{}
		k.rws[m] = s
	}
	return s
}

func (m *RWMutex) Lock() {
	if theK == nil || dead() {
		return
	}
	waiting := false
	call(opLock, func(t *task) bool {
		s := theK.rw(m)
		if !s.writer && s.readers == 0 {
			s.writer = true
			if waiting {
				s.wwait--
			}
			return true
		}
		if !waiting {
			waiting = true
			s.wwait++
		}
		s.q.q = append(s.q.q, t)
		t.state = stBlocked
		t.blockOn = "rwmutex"
		return false
	})
	raceAcqP(unsafe.Pointer(&m.w))
	raceAcqP(unsafe.Pointer(&m.r))
}

func (m *RWMutex) Unlock() {
	if theK == nil || dead() {
		return
	}
	raceRelP(unsafe.Pointer(&m.w))
	call(opUnlock, func(t *task) bool {
		s := theK.rw(m)
		if !s.writer {
			theK.fatal("fatal error: sync: Unlock of unlocked RWMutex")
			return true
		}
		s.writer = false
		theK.retry(&s.q)
		return true
	})
}

func (m *RWMutex) RLock() {
	if theK == nil || dead() {
		return
	}
	call(opLock, func(t *task) bool {
		s := theK.rw(m)
		if !s.writer && s.wwait == 0 {
			s.readers++
			return true
		}
		s.q.q = append(s.q.q, t)
		t.state = stBlocked
		t.blockOn = "rwmutex (read)"
		return false
	})
	raceAcqP(unsafe.Pointer(&m.w))
}

func (m *RWMutex) RUnlock() {
	if theK == nil || dead() {
		return
	}
	raceRelP(unsafe.Pointer(&m.r))
	call(opUnlock, func(t *task) bool {
		s := theK.rw(m)
		if s.readers == 0 {
			theK.fatal("fatal error: sync: RUnlock of unlocked RWMutex")
			return true
		}
		s.readers--
		theK.retry(&s.q)
		return true
	})
}

func (m *RWMutex) TryLock() bool {
	if theK == nil || dead() {
		return true
	}
	ok := false
	call(opLock, func(t *task) bool {
		s := theK.rw(m)
		if !s.writer && s.readers == 0 {
			s.writer, ok = true, true
		}
		return true
	})
	if ok {
		raceAcqP(unsafe.Pointer(&m.w))
		raceAcqP(unsafe.Pointer(&m.r))
	}
	return ok
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type wgstate struct {
	n int
	q waitq
}

// WaitGroup replaces sync.WaitGroup.
type WaitGroup struct{ _ [8]byte }

func (w *WaitGroup) Add(d int) {
	if theK == nil || dead() {
		return
	}
	raceRelP(unsafe.Pointer(w))
	call(opWait, func(t *task) bool {
		s := theK.wgs[w]
		if s == nil {
			s = &wgstate{}
			theK.wgs[w] = s
		}
		s.n += d
		if s.n < 0 {
			theK.fatal("sync: negative WaitGroup counter")
			return true
		}
		if s.n == 0 {
			theK.retry(&s.q)
		}
		return true
	})
}
func (w *WaitGroup) Done() { w.Add(-1) }
func (w *WaitGroup) Wait() {
	if theK == nil || dead() {
		return
	}
	call(opWait, func(t *task) bool {
		s := theK.wgs[w]
		if s == nil || s.n == 0 {
			return true
		}
		s.q.q = append(s.q.q, t)
		t.state = stBlocked
		t.blockOn = "waitgroup"
		return false
	})
	raceAcqP(unsafe.Pointer(w))
}
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	Go(func() {
		defer w.Done()
		f()
	})
}

// Once replaces sync.Once.
type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	if theK == nil {
		if !o.done {
			o.done = true
			f()
		}
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

// Cond replaces sync.Cond.
type Cond struct {
	L Locker
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	if theK == nil || dead() {
		return
	}
	registered := false
	raceRelP(unsafe.Pointer(c))
	call(opWait, func(t *task) bool { // register before unlocking
		q := theK.conds[c]
		if q == nil {
			q = &waitq{}
			theK.conds[c] = q
		}
		q.q = append(q.q, t)
		return true
	})
	c.L.Unlock()
	call(opWait, func(t *task) bool {
		if registered {
			return true
		}
		q := theK.conds[c]
		for _, x := range q.q {
			if x == t {
				registered = true
				t.state = stBlocked
				t.blockOn = "cond"
				return false
			}
		}
		return true // signalled meanwhile
	})
	c.L.Lock()
}

func (c *Cond) Signal() {
	if theK == nil || dead() {
		return
	}
	call(opWait, func(t *task) bool {
		if q := theK.conds[c]; q != nil && len(q.q) > 0 {
			x := q.q[0]
			q.q = q.q[1:]
			if x.state == stBlocked {
				theK.ready(x)
			}
		}
		return true
	})
}

func (c *Cond) Broadcast() {
	if theK == nil || dead() {
		return
	}
	call(opWait, func(t *task) bool {
		if q := theK.conds[c]; q != nil {
			for _, x := range q.q {
				if x.state == stBlocked {
					theK.ready(x)
				}
			}
			q.q = nil
		}
		return true
	})
}

// Pool replaces sync.Pool: every Get is a miss or returns a random pooled item, as allowed.
type Pool struct {
	New   func() interface{}
	m     Mutex
	items []interface{}
}

func (p *Pool) Get() interface{} {
	p.m.Lock()
	var x interface{}
	if n := len(p.items); n > 0 {
		x = p.items[n-1]
		p.items = p.items[:n-1]
	}
	p.m.Unlock()
	if x == nil && p.New != nil {
		x = p.New()
	}
	return x
}

func (p *Pool) Put(x interface{}) {
	p.m.Lock()
	p.items = append(p.items, x)
	p.m.Unlock()
}

// Map replaces sync.Map.
type Map struct{ m sync.Map }

func (m *Map) Load(k interface{}) (interface{}, bool) { yieldKind(opAtomic); return m.m.Load(k) }
func (m *Map) Store(k, v interface{})                 { yieldKind(opAtomic); m.m.Store(k, v) }
func (m *Map) Delete(k interface{})                   { yieldKind(opAtomic); m.m.Delete(k) }
func (m *Map) LoadOrStore(k, v interface{}) (interface{}, bool) {
	yieldKind(opAtomic)
	return m.m.LoadOrStore(k, v)
}
func (m *Map) LoadAndDelete(k interface{}) (interface{}, bool) {
	yieldKind(opAtomic)
	return m.m.LoadAndDelete(k)
}
func (m *Map) Range(f func(k, v interface{}) bool) {
	yieldKind(opAtomic)
	all := map[interface{}]interface{}{}
	m.m.Range(func(k, v interface{}) bool { all[k] = v; return true })
	for _, k := range MapKeys(all) {
		if v, ok := m.m.Load(k); ok && !f(k, v) {
			return
		}
	}
}

// YP is inserted around the address argument of sync/atomic calls: a scheduling point.
func YP[T any](p *T) *T {
	yieldKind(opAtomic)
	return p
}

func (m *Map) Swap(k, v interface{}) (interface{}, bool) {
	yieldKind(opAtomic)
	o, ok := m.m.Load(k)
	m.m.Store(k, v)
	return o, ok
}
func (m *Map) CompareAndSwap(k, o, n interface{}) bool {
	yieldKind(opAtomic)
	if c, ok := m.m.Load(k); !ok || c != o {
		return false
	}
	m.m.Store(k, n)
	return true
}
func (m *Map) CompareAndDelete(k, o interface{}) bool {
	yieldKind(opAtomic)
	if c, ok := m.m.Load(k); !ok || c != o {
		return false
	}
	m.m.Delete(k)
	return true
}
func (m *Map) Clear() {
	yieldKind(opAtomic)
	m.m.Range(func(k, _ interface{}) bool { m.m.Delete(k); return true })
}

func (m *RWMutex) TryRLock() bool {
	if theK == nil || dead() {
		return true
	}
	ok := false
	call(opLock, func(t *task) bool {
		s := theK.rw(m)
		if !s.writer && s.wwait == 0 {
			s.readers++
			ok = true
		}
		return true
	})
	if ok {
		raceAcqP(unsafe.Pointer(&m.w))
	}
	return ok
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T {
		o.Do(func() { v = f() })
		return v
	}
}

func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	var o Once
	var v T
	var u U
	return func() (T, U) {
		o.Do(func() { v, u = f() })
		return v, u
	}
}

type AtomicInt32 struct{ x int32 }

func (a *AtomicInt32) Load() int32        { yieldKind(opAtomic); return atomic.LoadInt32(&a.x) }
func (a *AtomicInt32) Store(v int32)      { yieldKind(opAtomic); atomic.StoreInt32(&a.x, v) }
func (a *AtomicInt32) Add(v int32) int32  { yieldKind(opAtomic); return atomic.AddInt32(&a.x, v) }
func (a *AtomicInt32) Swap(v int32) int32 { yieldKind(opAtomic); return atomic.SwapInt32(&a.x, v) }
func (a *AtomicInt32) CompareAndSwap(o, n int32) bool {
	yieldKind(opAtomic)
	return atomic.CompareAndSwapInt32(&a.x, o, n)
}
func (a *AtomicInt32) And(m int32) int32 {
	yieldKind(opAtomic)
	for {
		o := atomic.LoadInt32(&a.x)
		if atomic.CompareAndSwapInt32(&a.x, o, o&m) {
			return o
		}
	}
}
func (a *AtomicInt32) Or(m int32) int32 {
	yieldKind(opAtomic)
	for {
		o := atomic.LoadInt32(&a.x)
		if atomic.CompareAndSwapInt32(&a.x, o, o|m) {
			return o
		}
	}
}

type AtomicInt64 struct{ x int64 }

func (a *AtomicInt64) Load() int64        { yieldKind(opAtomic); return atomic.LoadInt64(&a.x) }
func (a *AtomicInt64) Store(v int64)      { yieldKind(opAtomic); atomic.StoreInt64(&a.x, v) }
func (a *AtomicInt64) Add(v int64) int64  { yieldKind(opAtomic); return atomic.AddInt64(&a.x, v) }
func (a *AtomicInt64) Swap(v int64) int64 { yieldKind(opAtomic); return atomic.SwapInt64(&a.x, v) }
func (a *AtomicInt64) CompareAndSwap(o, n int64) bool {
	yieldKind(opAtomic)
	return atomic.CompareAndSwapInt64(&a.x, o, n)
}
func (a *AtomicInt64) And(m int64) int64 {
	yieldKind(opAtomic)
	for {
		o := atomic.LoadInt64(&a.x)
		if atomic.CompareAndSwapInt64(&a.x, o, o&m) {
			return o
		}
	}
}
func (a *AtomicInt64) Or(m int64) int64 {
	yieldKind(opAtomic)
	for {
		o := atomic.LoadInt64(&a.x)
		if atomic.CompareAndSwapInt64(&a.x, o, o|m) {
			return o
		}
	}
}

type AtomicUint32 struct{ x uint32 }

func (a *AtomicUint32) Load() uint32         { yieldKind(opAtomic); return atomic.LoadUint32(&a.x) }
func (a *AtomicUint32) Store(v uint32)       { yieldKind(opAtomic); atomic.StoreUint32(&a.x, v) }
func (a *AtomicUint32) Add(v uint32) uint32  { yieldKind(opAtomic); return atomic.AddUint32(&a.x, v) }
func (a *AtomicUint32) Swap(v uint32) uint32 { yieldKind(opAtomic); return atomic.SwapUint32(&a.x, v) }
func (a *AtomicUint32) CompareAndSwap(o, n uint32) bool {
	yieldKind(opAtomic)
	return atomic.CompareAndSwapUint32(&a.x, o, n)
}
func (a *AtomicUint32) And(m uint32) uint32 {
	yieldKind(opAtomic)
	for {
		o := atomic.LoadUint32(&a.x)
		if atomic.CompareAndSwapUint32(&a.x, o, o&m) {
			return o
		}
	}
}
func (a *AtomicUint32) Or(m uint32) uint32 {
	yieldKind(opAtomic)
	for {
		o := atomic.LoadUint32(&a.x)
		if atomic.CompareAndSwapUint32(&a.x, o, o|m) {
			return o
		}
	}
}

type AtomicUint64 struct{ x uint64 }

func (a *AtomicUint64) Load() uint64         { yieldKind(opAtomic); return atomic.LoadUint64(&a.x) }
func (a *AtomicUint64) Store(v uint64)       { yieldKind(opAtomic); atomic.StoreUint64(&a.x, v) }
func (a *AtomicUint64) Add(v uint64) uint64  { yieldKind(opAtomic); return atomic.AddUint64(&a.x, v) }
func (a *AtomicUint64) Swap(v uint64) uint64 { yieldKind(opAtomic); return atomic.SwapUint64(&a.x, v) }
func (a *AtomicUint64) CompareAndSwap(o, n uint64) bool {
	yieldKind(opAtomic)
	return atomic.CompareAndSwapUint64(&a.x, o, n)
}
func (a *AtomicUint64) And(m uint64) uint64 {
	yieldKind(opAtomic)
	for {
		o := atomic.LoadUint64(&a.x)
		if atomic.CompareAndSwapUint64(&a.x, o, o&m) {
			return o
		}
	}
}
func (a *AtomicUint64) Or(m uint64) uint64 {
	yieldKind(opAtomic)
	for {
		o := atomic.LoadUint64(&a.x)
		if atomic.CompareAndSwapUint64(&a.x, o, o|m) {
			return o
		}
	}
}

type AtomicUintptr struct{ x uintptr }

func (a *AtomicUintptr) Load() uintptr   { yieldKind(opAtomic); return atomic.LoadUintptr(&a.x) }
func (a *AtomicUintptr) Store(v uintptr) { yieldKind(opAtomic); atomic.StoreUintptr(&a.x, v) }
func (a *AtomicUintptr) Add(v uintptr) uintptr {
	yieldKind(opAtomic)
	return atomic.AddUintptr(&a.x, v)
}
func (a *AtomicUintptr) Swap(v uintptr) uintptr {
	yieldKind(opAtomic)
	return atomic.SwapUintptr(&a.x, v)
}
func (a *AtomicUintptr) CompareAndSwap(o, n uintptr) bool {
	yieldKind(opAtomic)
	return atomic.CompareAndSwapUintptr(&a.x, o, n)
}
func (a *AtomicUintptr) And(m uintptr) uintptr {
	yieldKind(opAtomic)
	for {
		o := atomic.LoadUintptr(&a.x)
		if atomic.CompareAndSwapUintptr(&a.x, o, o&m) {
			return o
		}
	}
}
func (a *AtomicUintptr) Or(m uintptr) uintptr {
	yieldKind(opAtomic)
	for {
		o := atomic.LoadUintptr(&a.x)
		if atomic.CompareAndSwapUintptr(&a.x, o, o|m) {
			return o
		}
	}
}

type AtomicBool struct{ x uint32 }

func b32(b bool) uint32 {
	if b {
		return 1
	}
	return 0
}
func (a *AtomicBool) Load() bool   { yieldKind(opAtomic); return atomic.LoadUint32(&a.x) != 0 }
func (a *AtomicBool) Store(v bool) { yieldKind(opAtomic); atomic.StoreUint32(&a.x, b32(v)) }
func (a *AtomicBool) Swap(v bool) bool {
	yieldKind(opAtomic)
	return atomic.SwapUint32(&a.x, b32(v)) != 0
}
func (a *AtomicBool) CompareAndSwap(o, n bool) bool {
	yieldKind(opAtomic)
	return atomic.CompareAndSwapUint32(&a.x, b32(o), b32(n))
}

type AtomicValue struct{ v atomic.Value }

func (a *AtomicValue) Load() interface{}   { yieldKind(opAtomic); return a.v.Load() }
func (a *AtomicValue) Store(v interface{}) { yieldKind(opAtomic); a.v.Store(v) }
func (a *AtomicValue) Swap(v interface{}) interface{} {
	yieldKind(opAtomic)
	return a.v.Swap(v)
}
func (a *AtomicValue) CompareAndSwap(o, n interface{}) bool {
	yieldKind(opAtomic)
	return a.v.CompareAndSwap(o, n)
}

type AtomicPointer[T any] struct{ p unsafe.Pointer }

func (a *AtomicPointer[T]) Load() *T { yieldKind(opAtomic); return (*T)(atomic.LoadPointer(&a.p)) }
func (a *AtomicPointer[T]) Store(v *T) {
	yieldKind(opAtomic)
	atomic.StorePointer(&a.p, unsafe.Pointer(v))
}
func (a *AtomicPointer[T]) Swap(v *T) *T {
	yieldKind(opAtomic)
	return (*T)(atomic.SwapPointer(&a.p, unsafe.Pointer(v)))
}
func (a *AtomicPointer[T]) CompareAndSwap(o, n *T) bool {
	yieldKind(opAtomic)
	return atomic.CompareAndSwapPointer(&a.p, unsafe.Pointer(o), unsafe.Pointer(n))
}
