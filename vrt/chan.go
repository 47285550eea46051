package vrt

import (
	"fmt"
	"reflect"
	"unsafe"
)

// channel is the shadow of one channel created by instrumented code.  The
// native channel is only used as identity; values live in buf.
type channel struct {
	o       Obj
	capa    int
	buf     []any
	closed  bool
	keep    any // keeps the native channel alive so that its address is unique
	foreign bool
	vc      []uint32
	bufvc   [][]uint32
}

func chanPtr[T any](c chan T) uintptr { return uintptr(*(*unsafe.Pointer)(unsafe.Pointer(&c))) }

var globalChans = map[uintptr]any{}

// Made registers a channel that instrumented code has created.
func Made[C any](c C) C {
	p := reflect.ValueOf(c)
	if s == nil {
		globalChans[p.Pointer()] = c
		return c
	}
	s.chans[p.Pointer()] = &channel{capa: p.Cap(), keep: c}
	return c
}

func lookup(ptr uintptr, capa int, keep any) *channel {
	if ptr == 0 {
		return nil
	}
	ch := s.chans[ptr]
	if ch == nil {
		ch = &channel{capa: capa, keep: keep}
		if _, ok := globalChans[ptr]; !ok {
			ch.foreign = true
		}
		s.chans[ptr] = ch
	}
	return ch
}

func bidi[T any](c <-chan T) chan T  { return *(*chan T)(unsafe.Pointer(&c)) }
func bidiS[T any](c chan<- T) chan T { return *(*chan T)(unsafe.Pointer(&c)) }

// Case is one case of a select.
type Case interface {
	ready(g *G) bool
	chanOf() *channel
	isSend() bool
	perform(g *G)
	describe() string
}

// RecvC is a receive case.
type RecvC[T any] struct {
	nat chan T
	ch  *channel
	val T
	ok  bool
}

// SendC is a send case.
type SendC[T any] struct {
	nat chan T
	ch  *channel
	val T
}

// CaseRecv makes a receive case.
func CaseRecv[T any](c <-chan T) *RecvC[T] {
	n := bidi(c)
	r := &RecvC[T]{nat: n}
	if !dead() && n != nil {
		r.ch = lookup(chanPtr(n), cap(n), n)
	}
	return r
}

// CaseSend makes a send case.
func CaseSend[T any](c chan<- T, v T) *SendC[T] {
	n := bidiS(c)
	r := &SendC[T]{nat: n, val: v}
	if !dead() && n != nil {
		r.ch = lookup(chanPtr(n), cap(n), n)
	}
	return r
}

// Get returns the value received.
func (r *RecvC[T]) Get() T { return r.val }

// Get2 returns the value received and whether it was sent (not a close).
func (r *RecvC[T]) Get2() (T, bool) { return r.val, r.ok }

func (r *RecvC[T]) chanOf() *channel { return r.ch }
func (r *SendC[T]) chanOf() *channel { return r.ch }
func (r *RecvC[T]) isSend() bool     { return false }
func (r *SendC[T]) isSend() bool     { return true }
func (r *RecvC[T]) describe() string { var z T; return fmt.Sprintf("receive %T", z) }
func (r *SendC[T]) describe() string { var z T; return fmt.Sprintf("send %T", z) }

// waiting finds the goroutine that has waited longest on ch in direction send.
func waiting(ch *channel, send bool, not *G) (*G, int) {
	var best *G
	bi := -1
	for _, g := range s.gs {
		if g.done || g == not || g.p == nil || g.p.done || g.p.hasDefault {
			continue
		}
		for i, c := range g.p.cases {
			if c.chanOf() == ch && c.isSend() == send {
				if best == nil || g.p.seq < best.p.seq {
					best, bi = g, i
				}
				break
			}
		}
	}
	return best, bi
}

func (r *RecvC[T]) ready(g *G) bool {
	ch := r.ch
	if ch == nil {
		return false
	}
	if ch.foreign {
		if len(ch.buf) > 0 || ch.closed {
			return true
		}
		select {
		case v, ok := <-r.nat:
			if ok {
				ch.buf = append(ch.buf, v)
			} else {
				ch.closed = true
			}
			return true
		default:
			return false
		}
	}
	if len(ch.buf) > 0 || ch.closed {
		return true
	}
	if ch.capa == 0 {
		w, _ := waiting(ch, true, g)
		return w != nil
	}
	return false
}

func (r *SendC[T]) ready(g *G) bool {
	ch := r.ch
	if ch == nil {
		return false
	}
	if ch.foreign {
		return len(r.nat) < cap(r.nat) || cap(r.nat) == 0
	}
	if ch.closed || len(ch.buf) < ch.capa {
		return true
	}
	if ch.capa == 0 {
		w, _ := waiting(ch, false, g)
		return w != nil
	}
	return false
}

func pair(ch *channel, a, b *G) {
	// a is running, b is the partner that was waiting
	a.write(&ch.o, 0x5e4d)
	b.h = mix(mix(b.h, a.h), 0x4ec5)
	ch.o.hw = mix(ch.o.hw, b.h)
	a.h = mix(a.h, b.h)
	vcJoin(&a.vc, b.vc)
	vcJoin(&b.vc, a.vc)
	a.tick()
	b.tick()
}

func (r *RecvC[T]) perform(g *G) {
	ch := r.ch
	if len(ch.buf) > 0 {
		r.val, _ = ch.buf[0].(T)
		r.ok = true
		ch.buf = ch.buf[1:]
		g.write(&ch.o, 0x4ecb)
		if len(ch.bufvc) > 0 {
			vcJoin(&g.vc, ch.bufvc[0])
			ch.bufvc = ch.bufvc[1:]
		}
		return
	}
	if ch.closed {
		var z T
		r.val, r.ok = z, false
		g.read(&ch.o, 0x4ecc)
		vcJoin(&g.vc, ch.vc)
		return
	}
	w, i := waiting(ch, true, g)
	sc := w.p.cases[i].(*SendC[T])
	r.val, r.ok = sc.val, true
	w.p.done, w.p.idx = true, i
	pair(ch, g, w)
}

func (r *SendC[T]) perform(g *G) {
	ch := r.ch
	if ch.foreign {
		select {
		case r.nat <- r.val:
		default:
			s.fail("send on a channel owned by uninstrumented code would block")
		}
		return
	}
	if ch.closed {
		g.write(&ch.o, 0x5c)
		panic("send on closed channel")
	}
	if ch.capa > 0 {
		ch.buf = append(ch.buf, r.val)
		g.write(&ch.o, 0x5eb)
		if vcOn {
			ch.bufvc = append(ch.bufvc, append([]uint32(nil), g.vc...))
			g.tick()
		}
		return
	}
	w, i := waiting(ch, false, g)
	rc := w.p.cases[i].(*RecvC[T])
	rc.val, rc.ok = r.val, true
	w.p.done, w.p.idx = true, i
	pair(ch, g, w)
}

// Select performs one of the cases and returns its index, or -1 for default.
func Select(hasDefault bool, cases ...Case) int {
	if dead() {
		bail()
		return selectNative(hasDefault, cases)
	}
	x := s
	p := &pend{cases: cases, hasDefault: hasDefault, what: "select"}
	if len(cases) == 1 && !hasDefault {
		p.what = cases[0].describe()
	}
	if len(cases) == 0 {
		p.blocked = true
	}
	g := x.cur
	x.yield(p)
	if p.done {
		x.tracef("%s (by partner)", cases[p.idx].describe())
		return p.idx
	}
	var rbuf [8]int
	rdy := rbuf[:0]
	for i, c := range cases {
		if c.ready(g) {
			rdy = append(rdy, i)
		}
	}
	if len(rdy) == 0 {
		for _, c := range cases {
			if ch := c.chanOf(); ch != nil {
				g.read(&ch.o, 0xdefa)
			}
		}
		g.h = mix(g.h, 0xdef)
		x.tracef("select: default")
		return -1
	}
	k := 0
	if len(rdy) > 1 {
		k = Dev(len(rdy), "select")
	}
	i := rdy[k]
	for j, c := range cases {
		if ch := c.chanOf(); ch != nil && j != i {
			g.read(&ch.o, 0xdefb)
		}
	}
	x.tracef("%s", cases[i].describe())
	cases[i].perform(g)
	return i
}

func selectNative(hasDefault bool, cases []Case) int {
	panic("vrt: channel operation outside an execution")
}

// Send is ch <- v.
func Send[T any](c chan<- T, v T) {
	Select(false, CaseSend(c, v))
}

// SendTo is Send with the value's type fixed by the channel.
func SendTo[T any](c chan<- T) func(T) { return func(v T) { Send(c, v) } }

// CaseSendTo is CaseSend with the value's type fixed by the channel.
func CaseSendTo[T any](c chan<- T) func(T) *SendC[T] {
	return func(v T) *SendC[T] { return CaseSend(c, v) }
}

// Recv is <-ch.
func Recv[T any](c <-chan T) T {
	r := CaseRecv(c)
	Select(false, r)
	return r.val
}

// Recv2 is v, ok := <-ch.
func Recv2[T any](c <-chan T) (T, bool) {
	r := CaseRecv(c)
	Select(false, r)
	return r.val, r.ok
}

// Close is close(ch).
func Close[T any](c chan<- T) {
	if s == nil {
		close(c)
		return
	}
	if s.aborted {
		return
	}
	n := bidiS(c)
	if n == nil {
		panic("close of nil channel")
	}
	ch := lookup(chanPtr(n), cap(n), n)
	s.yield(&pend{what: "close"})
	s.tracef("close")
	if ch.closed {
		panic("close of closed channel")
	}
	closeShadow(ch, s.cur)
}

func closeShadow(ch *channel, g *G) {
	ch.closed = true
	if g != nil {
		g.write(&ch.o, 0xc105e)
		ch.vc = append([]uint32(nil), g.vc...)
		g.tick()
	}
	// Receivers and senders that wait become ready through ch.closed.
}

// CloseNow closes ch without a scheduling point and closes the native channel
// too, for code that is not instrumented (contexts).
func CloseNow(c chan struct{}) {
	if s == nil {
		close(c)
		return
	}
	ch := lookup(chanPtr(c), cap(c), c)
	if ch.closed {
		return
	}
	closeShadow(ch, s.cur)
	close(c)
}

// Len is len(ch).
func Len[T any](c <-chan T) int {
	if dead() {
		return len(c)
	}
	n := bidi(c)
	if n == nil {
		return 0
	}
	ch := lookup(chanPtr(n), cap(n), n)
	if ch.foreign {
		return len(c)
	}
	s.yield(&pend{what: "len(chan)"})
	s.cur.read(&ch.o, 0x1e4)
	return len(ch.buf)
}

// Block is select {}.
func Block() {
	Select(false)
	panic("unreachable")
}
