package vrt

import "container/heap"

type timer struct {
	when  int64
	owner []int32
	seq   uint64
	idx   int
	fire  func()
	ch    *channel // delivery channel; nil for sleeps and callbacks
}

type timerHeap []*timer

func (h timerHeap) Len() int { return len(h) }
func (h timerHeap) Less(i, j int) bool {
	a, b := h[i], h[j]
	if a.when != b.when {
		return a.when < b.when
	}
	if lessPath(a.owner, b.owner) {
		return true
	}
	if lessPath(b.owner, a.owner) {
		return false
	}
	return a.seq < b.seq
}
func (h timerHeap) Swap(i, j int) {
	h[i], h[j] = h[j], h[i]
	h[i].idx, h[j].idx = i, j
}
func (h *timerHeap) Push(v any) {
	t := v.(*timer)
	t.idx = len(*h)
	*h = append(*h, t)
}
func (h *timerHeap) Pop() any {
	o := *h
	t := o[len(o)-1]
	*h = o[:len(o)-1]
	t.idx = -1
	return t
}

func (x *sched) nextTimer() *timer {
	if len(x.timers) == 0 {
		return nil
	}
	return x.timers[0]
}

// relevant tells whether firing t early can matter: somebody waits for it.
func (x *sched) relevant(t *timer) bool {
	if t.ch == nil {
		return true
	}
	if t.ch.closed || len(t.ch.buf) > 0 {
		return false
	}
	for _, g := range x.gs {
		if g.done || g.p == nil {
			continue
		}
		for _, c := range g.p.cases {
			if c.chanOf() == t.ch {
				return true
			}
		}
	}
	return false
}

// fireNext advances the clock to the next timer and fires every timer due.
func (x *sched) fireNext() {
	t := x.timers[0]
	if t.when > x.now {
		x.now = t.when
	}
	cur := x.cur
	x.cur = nil
	x.tracef("clock advances")
	for len(x.timers) > 0 && x.timers[0].when <= x.now {
		t := heap.Pop(&x.timers).(*timer)
		t.fire()
	}
	x.cur = cur
}

func (x *sched) addTimer(d int64, ch *channel, fire func()) *timer {
	if d < 0 {
		d = 0
	}
	g := x.cur
	t := &timer{when: x.now + d, fire: fire, ch: ch}
	if t.when < x.now { // overflow
		t.when = 1<<63 - 1
	}
	if g != nil {
		t.owner = g.path
		g.ntimer++
		t.seq = g.ntimer
		g.h = mix(mix(g.h, uint64(t.when)), 0x71e4)
	}
	heap.Push(&x.timers, t)
	return t
}

func (x *sched) delTimer(t *timer) bool {
	if t.idx < 0 {
		return false
	}
	heap.Remove(&x.timers, t.idx)
	t.idx = -1
	return true
}

// NowNano returns the virtual time in ns since the epoch.
func NowNano() int64 {
	if s == nil {
		return startTime
	}
	if !s.aborted && s.cur != nil {
		s.cur.h = mix(mix(s.cur.h, uint64(s.now)), 0x40)
	}
	return s.now
}

// Sleep blocks the calling goroutine for d nanoseconds of virtual time.
func Sleep(d int64) {
	if dead() {
		bail()
		return
	}
	if d <= 0 {
		Yield()
		return
	}
	p := &pend{what: "sleep", blocked: true}
	s.addTimer(d, nil, func() { p.done = true })
	s.yield(p)
	s.cur.h = mix(mix(s.cur.h, uint64(s.now)), 0x51ee)
	s.tracef("wakes up")
}

// WaitTimeout blocks until cond holds or d nanoseconds have passed.
func WaitTimeout(what string, o *Obj, d int64, cond func() bool) bool {
	if dead() {
		bail()
		return false
	}
	expired := false
	p := &pend{what: what}
	p.ready = func() bool { return expired || cond() }
	t := s.addTimer(d, nil, func() { expired = true })
	s.yield(p)
	ok := cond()
	s.delTimer(t)
	c := uint64(0)
	if ok {
		c = 1
	}
	if o != nil {
		s.cur.write(o, HashString(what)+c)
	}
	s.cur.h = mix(mix(s.cur.h, uint64(s.now)), c)
	return ok
}

// TimerCh is the engine behind time.Timer, time.Ticker and time.After.
type TimerCh struct {
	c      any
	ch     *channel
	t      *timer
	period int64
	mk     func() any
	f      func()
	epoch  uint64
}

// NewTimerCh starts a timer that delivers mk() on the capacity-1 channel c, or
// calls f in a new goroutine.
func NewTimerCh(d, period int64, c any, ptr uintptr, mk func() any, f func()) *TimerCh {
	t := &TimerCh{c: c, mk: mk, f: f, period: period}
	if s == nil || s.aborted {
		return t
	}
	t.epoch = s.epoch
	if c != nil {
		t.ch = &channel{capa: 1, keep: c}
		s.chans[ptr] = t.ch
	}
	t.start(d)
	return t
}

func (t *TimerCh) start(d int64) {
	t.t = s.addTimer(d, t.ch, nil)
	owner := s.cur
	tm := t.t
	var fg *G
	if t.f != nil {
		fg = &G{wake: make(chan struct{}), name: "timer func"}
		fg.reserve(owner)
	}
	tm.fire = func() {
		if t.f != nil {
			s.launch(fg, owner, t.f)
			return
		}
		if len(t.ch.buf) == 0 {
			t.ch.buf = append(t.ch.buf, t.mk())
			if vcOn {
				t.ch.bufvc = append(t.ch.bufvc, append([]uint32(nil), owner.vc...))
			}
			t.ch.o = Obj{hw: mix(mix(obj(&t.ch.o).hw, uint64(s.now)), 0xf14e), epoch: s.epoch}
		}
		if t.period > 0 {
			tm.when += t.period
			heap.Push(&s.timers, tm)
		}
	}
}

// Stop stops the timer and tells whether it was pending.
func (t *TimerCh) Stop() bool {
	if dead() || t.epoch != s.epoch || t.t == nil {
		return false
	}
	s.cur.h = mix(s.cur.h, 0x5709)
	was := s.delTimer(t.t)
	if t.ch != nil && len(t.ch.buf) > 0 {
		// Go 1.23 semantics: no stale value after Stop or Reset.
		t.ch.buf = nil
		t.ch.bufvc = nil
		was = true
	}
	return was
}

// Reset restarts the timer.
func (t *TimerCh) Reset(d, period int64) bool {
	if dead() || t.epoch != s.epoch {
		return false
	}
	was := t.Stop()
	t.period = period
	t.start(d)
	return was
}

// RawNow is the virtual time, for timer deliveries.
func RawNow() int64 {
	if s == nil {
		return startTime
	}
	return s.now
}

// NewHook runs f, which must not block, when d nanoseconds have passed.
func NewHook(d int64, f func()) *TimerCh {
	t := &TimerCh{}
	if dead() {
		return t
	}
	t.epoch = s.epoch
	t.t = s.addTimer(d, nil, nil)
	t.t.fire = f
	return t
}
