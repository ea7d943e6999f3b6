package vsim

import (
	"reflect"
	"unsafe"
)

type chanItem struct {
	v   interface{}
	tok *tok
}

type chanWaiter struct {
	t    *task
	v    interface{} // value to send
	tok  *tok
	sel  *selState // non-nil if part of a select
	idx  int
	recv bool
}

type selState struct{ done bool }

type chanState struct {
	keep   interface{}
	cap    int
	buf    []chanItem
	slot   []*tok // release tokens of receivers that freed a slot
	recvq  []*chanWaiter
	sendq  []*chanWaiter
	closed bool
	ctok   *tok
}

func (k *Kernel) chanOf(p uintptr, keep interface{}, c int) *chanState {
	s := k.chans[p]
	if s == nil {
		s = &chanState{keep: keep, cap: c}
		k.chans[p] = s
	}
	return s
}

func (q *chanState) popRecv() *chanWaiter {
	for len(q.recvq) > 0 {
		w := q.recvq[0]
		q.recvq = q.recvq[1:]
		if w.sel != nil {
			if w.sel.done {
				continue
			}
			w.sel.done = true
		}
		return w
	}
	return nil
}

func (q *chanState) popSend() *chanWaiter {
	for len(q.sendq) > 0 {
		w := q.sendq[0]
		q.sendq = q.sendq[1:]
		if w.sel != nil {
			if w.sel.done {
				continue
			}
			w.sel.done = true
		}
		return w
	}
	return nil
}

func (q *chanState) hasRecv() bool {
	for _, w := range q.recvq {
		if w.sel == nil || !w.sel.done {
			return true
		}
	}
	return false
}
func (q *chanState) hasSend() bool {
	for _, w := range q.sendq {
		if w.sel == nil || !w.sel.done {
			return true
		}
	}
	return false
}

// trySend returns true if the send completed.
func (k *Kernel) trySend(q *chanState, t *task, v interface{}, pre *tok) bool {
	if q.closed {
		k.fatal("send on closed channel")
		return false
	}
	if w := q.popRecv(); w != nil {
		w.t.rv, w.t.rok, w.t.acq, w.t.sel = v, true, pre, w.idx
		if q.cap == 0 {
			t.acq = w.tok
		}
		k.ready(w.t)
		return true
	}
	if len(q.buf) < q.cap {
		q.buf = append(q.buf, chanItem{v, pre})
		if len(q.slot) > 0 {
			t.acq = q.slot[0]
			q.slot = q.slot[1:]
		}
		return true
	}
	return false
}

func (k *Kernel) tryRecv(q *chanState, t *task, pre *tok) bool {
	if len(q.buf) > 0 {
		it := q.buf[0]
		q.buf = q.buf[1:]
		t.rv, t.rok, t.acq = it.v, true, it.tok
		if w := q.popSend(); w != nil {
			q.buf = append(q.buf, chanItem{w.v, w.tok})
			w.t.acq, w.t.sel = pre, w.idx
			k.ready(w.t)
		} else {
			q.slot = append(q.slot, pre)
		}
		return true
	}
	if w := q.popSend(); w != nil { // unbuffered
		t.rv, t.rok, t.acq = w.v, true, w.tok
		w.t.acq, w.t.sel = pre, w.idx
		k.ready(w.t)
		return true
	}
	if q.closed {
		t.rv, t.rok, t.acq = nil, false, q.ctok
		return true
	}
	return false
}

func send(p uintptr, keep interface{}, c int, v interface{}) {
	if dead() {
		return
	}
	pre := &tok{}
	raceRelease(pre)
	var self *task
	call(opSend, func(t *task) bool {
		self = t
		t.acq = nil
		if p == 0 {
			t.blockOn = "send on nil channel"
			return false
		}
		q := theK.chanOf(p, keep, c)
		if theK.trySend(q, t, v, pre) {
			return true
		}
		if theK.res.Outcome == "panic" {
			return true
		}
		t.blockOn = "channel send"
		q.sendq = append(q.sendq, &chanWaiter{t: t, v: v, tok: pre})
		return false
	})
	raceAcquire(self.acq)
	self.acq = nil
}

func recv(p uintptr, keep interface{}, c int) (interface{}, bool) {
	if dead() {
		return nil, false
	}
	pre := &tok{}
	raceRelease(pre)
	var self *task
	call(opRecv, func(t *task) bool {
		self = t
		t.acq = nil
		if p == 0 {
			t.blockOn = "receive from nil channel"
			return false
		}
		q := theK.chanOf(p, keep, c)
		if theK.tryRecv(q, t, pre) {
			return true
		}
		t.blockOn = "channel receive"
		q.recvq = append(q.recvq, &chanWaiter{t: t, tok: pre, recv: true})
		return false
	})
	raceAcquire(self.acq)
	self.acq = nil
	v, ok := self.rv, self.rok
	self.rv = nil
	return v, ok
}

func chp(p unsafe.Pointer) uintptr { return *(*uintptr)(p) }

// Send, Recv, Recv2, Close, Len and Cap replace the channel operations.
func Send[T any, C ~chan T | ~chan<- T](ch C, v T) {
	if theK == nil {
		ch <- v
		return
	}
	send(chp(unsafe.Pointer(&ch)), ch, cap(ch), v)
}

func Recv2[T any, C ~chan T | ~<-chan T](ch C) (T, bool) {
	if theK == nil {
		v, ok := <-ch
		return v, ok
	}
	v, ok := recv(chp(unsafe.Pointer(&ch)), ch, cap(ch))
	if v == nil {
		var zero T
		return zero, ok
	}
	return v.(T), ok
}

// Recv3 is Recv2 with an extra zero value, which names the loop variable of a range loop.
func Recv3[T any, C ~chan T | ~<-chan T](ch C) (z T, v T, ok bool) {
	v, ok = Recv2[T, C](ch)
	return
}

func Recv[T any, C ~chan T | ~<-chan T](ch C) T {
	v, _ := Recv2[T](ch)
	return v
}

// The generic functions are compiled into the instrumented packages, race detector included, so
// they only unpack their arguments: everything the scheduler touches is in plain functions.
func Close[T any, C ~chan T | ~chan<- T](ch C) {
	if theK == nil {
		close(ch)
		return
	}
	closeChan(chp(unsafe.Pointer(&ch)), ch, cap(ch))
}

func closeChan(p uintptr, keep interface{}, c int) {
	if dead() {
		return
	}
	pre := &tok{}
	raceRelease(pre)
	call(opClose, func(t *task) bool {
		if p == 0 {
			theK.fatal("close of nil channel")
			return true
		}
		q := theK.chanOf(p, keep, c)
		if q.closed {
			theK.fatal("close of closed channel")
			return true
		}
		q.closed, q.ctok = true, pre
		for w := q.popRecv(); w != nil; w = q.popRecv() {
			w.t.rv, w.t.rok, w.t.acq, w.t.sel = nil, false, pre, w.idx
			theK.ready(w.t)
		}
		if q.hasSend() {
			theK.fatal("send on closed channel")
		}
		return true
	})
}

func Len[C any](ch C) int {
	if theK == nil {
		return reflect.ValueOf(ch).Len()
	}
	return lenChan(chp(unsafe.Pointer(&ch)), ch, reflect.ValueOf(ch).Cap())
}

func lenChan(p uintptr, keep interface{}, c int) int {
	n := 0
	if dead() {
		return 0
	}
	call(opRecv, func(t *task) bool {
		if p != 0 {
			n = len(theK.chanOf(p, keep, c).buf)
		}
		return true
	})
	return n
}

// Select support.
type SelCase struct {
	p    uintptr
	keep interface{}
	c    int
	v    interface{}
	recv bool
	rv   interface{}
	rok  bool
}

func SelSend[T any, C ~chan T | ~chan<- T](ch C, v T) *SelCase {
	return &SelCase{p: chp(unsafe.Pointer(&ch)), keep: ch, c: cap(ch), v: v}
}

type SelR[T any] struct{ SelCase }

func (s *SelR[T]) Get() T {
	if s.rv == nil {
		var z T
		return z
	}
	return s.rv.(T)
}
func (s *SelR[T]) Get2() (T, bool) { return s.Get(), s.rok }
func (s *SelR[T]) base() *SelCase  { return &s.SelCase }
func (s *SelCase) base() *SelCase  { return s }

type selBase interface{ base() *SelCase }

func SelRecv[T any, C ~chan T | ~<-chan T](ch C) *SelR[T] {
	return &SelR[T]{SelCase{p: chp(unsafe.Pointer(&ch)), keep: ch, c: cap(ch), recv: true}}
}

// Select returns the index of the chosen case, or -1 for default.
func Select(hasDefault bool, cs ...selBase) int {
	if theK == nil {
		panic("vsim: select outside simulation")
	}
	if dead() {
		return -1
	}
	pre := &tok{}
	raceRelease(pre)
	res := -2
	var self *task
	call(opSelect, func(t *task) bool {
		self = t
		t.acq = nil
		k := theK
		var ready []int
		for i, cb := range cs {
			c := cb.base()
			if c.p == 0 {
				continue
			}
			q := k.chanOf(c.p, c.keep, c.c)
			if c.recv && (len(q.buf) > 0 || q.hasSend() || q.closed) || !c.recv && (q.closed || len(q.buf) < q.cap || q.hasRecv()) {
				ready = append(ready, i)
			}
		}
		if len(ready) > 0 {
			i := ready[k.prng.intn(len(ready))]
			c := cs[i].base()
			q := k.chanOf(c.p, c.keep, c.c)
			if c.recv {
				k.tryRecv(q, t, pre)
			} else {
				k.trySend(q, t, c.v, pre)
			}
			t.sel = i
			res = i
			return true
		}
		if hasDefault {
			res = -1
			return true
		}
		st := &selState{}
		for i, cb := range cs {
			c := cb.base()
			if c.p == 0 {
				continue
			}
			q := k.chanOf(c.p, c.keep, c.c)
			w := &chanWaiter{t: t, v: c.v, tok: pre, sel: st, idx: i, recv: c.recv}
			if c.recv {
				q.recvq = append(q.recvq, w)
			} else {
				q.sendq = append(q.sendq, w)
			}
		}
		t.blockOn = "select"
		return false
	})
	if res == -1 {
		return -1
	}
	i := self.sel
	raceAcquire(self.acq)
	self.acq = nil
	c := cs[i].base()
	c.rv, c.rok = self.rv, self.rok
	self.rv = nil
	return i
}
