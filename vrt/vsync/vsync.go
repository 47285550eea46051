// Package vsync stands in for package sync in instrumented code.
package vsync

import (
	"fmt"
	"sort"

	"verif.local/vrt"
)

// Locker stands in for sync.Locker.
type Locker interface {
	Lock()
	Unlock()
}

// Mutex stands in for sync.Mutex.
type Mutex struct {
	o      vrt.Obj
	locked bool
	epoch  uint64
}

func (m *Mutex) fresh() {
	if e := vrt.Epoch(); m.epoch != e {
		m.epoch = e
		m.locked = false
	}
}

func (m *Mutex) Lock() {
	if vrt.Exiting() {
		vrt.Bail()
		return
	}
	m.fresh()
	vrt.TouchWhen("mutex lock", &m.o, func() bool { return !m.locked })
	m.locked = true
}

func (m *Mutex) TryLock() bool {
	if vrt.Exiting() {
		return true
	}
	m.fresh()
	vrt.Touch("mutex trylock", &m.o, true)
	if m.locked {
		return false
	}
	m.locked = true
	return true
}

func (m *Mutex) Unlock() {
	if vrt.Exiting() {
		return
	}
	m.fresh()
	if !m.locked {
		vrt.Violation("fatal error: sync: unlock of unlocked mutex")
	}
	vrt.Mark(&m.o, true, 0x0c)
	m.locked = false
}

// RWMutex stands in for sync.RWMutex.
type RWMutex struct {
	o       vrt.Obj
	writer  bool
	readers int
	waiting int
	epoch   uint64
}

func (m *RWMutex) fresh() {
	if e := vrt.Epoch(); m.epoch != e {
		m.epoch = e
		m.writer, m.readers, m.waiting = false, 0, 0
	}
}

func (m *RWMutex) Lock() {
	if vrt.Exiting() {
		vrt.Bail()
		return
	}
	m.fresh()
	m.waiting++
	vrt.TouchWhen("rwmutex lock", &m.o, func() bool { return !m.writer && m.readers == 0 })
	m.waiting--
	m.writer = true
}

func (m *RWMutex) TryLock() bool {
	if vrt.Exiting() {
		return true
	}
	m.fresh()
	vrt.Touch("rwmutex trylock", &m.o, true)
	if m.writer || m.readers > 0 {
		return false
	}
	m.writer = true
	return true
}

func (m *RWMutex) Unlock() {
	if vrt.Exiting() {
		return
	}
	m.fresh()
	if !m.writer {
		vrt.Violation("fatal error: sync: Unlock of unlocked RWMutex")
	}
	vrt.Mark(&m.o, true, 0x0c)
	m.writer = false
}

func (m *RWMutex) RLock() {
	if vrt.Exiting() {
		vrt.Bail()
		return
	}
	m.fresh()
	// A writer that is blocked keeps new readers out, as in package sync: the
	// readers it waits for count, not those that come later.
	vrt.TouchWhen("rwmutex rlock", &m.o, func() bool { return !m.writer && (m.waiting == 0 || m.readers == 0) })
	m.readers++
}

func (m *RWMutex) TryRLock() bool {
	if vrt.Exiting() {
		return true
	}
	m.fresh()
	vrt.Touch("rwmutex tryrlock", &m.o, true)
	if m.writer {
		return false
	}
	m.readers++
	return true
}

func (m *RWMutex) RUnlock() {
	if vrt.Exiting() {
		return
	}
	m.fresh()
	if m.readers <= 0 {
		vrt.Violation("fatal error: sync: RUnlock of unlocked RWMutex")
	}
	vrt.Mark(&m.o, true, 0x1c)
	m.readers--
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// WaitGroup stands in for sync.WaitGroup.
type WaitGroup struct {
	o     vrt.Obj
	n     int
	epoch uint64
}

func (w *WaitGroup) fresh() {
	if e := vrt.Epoch(); w.epoch != e {
		w.epoch = e
		w.n = 0
	}
}

func (w *WaitGroup) Add(d int) {
	if vrt.Exiting() {
		return
	}
	w.fresh()
	if d > 0 {
		vrt.Touch("waitgroup add", &w.o, true)
	} else {
		vrt.TouchCommute("waitgroup done", &w.o)
	}
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
}

func (w *WaitGroup) Done() { w.Add(-1) }

func (w *WaitGroup) Wait() {
	if vrt.Exiting() {
		vrt.Bail()
		return
	}
	w.fresh()
	vrt.TouchWhen("waitgroup wait", &w.o, func() bool { return w.n == 0 })
}

func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	vrt.Go(func() {
		defer w.Done()
		f()
	})
}

// Once stands in for sync.Once.
type Once struct {
	m     Mutex
	done  bool
	epoch uint64
}

func (o *Once) Do(f func()) {
	if vrt.Exiting() {
		vrt.Bail()
	}
	if e := vrt.Epoch(); o.epoch != e {
		o.epoch = e
		o.done = false
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T {
		o.Do(func() { v = f() })
		return v
	}
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var o Once
	var v1 T1
	var v2 T2
	return func() (T1, T2) {
		o.Do(func() { v1, v2 = f() })
		return v1, v2
	}
}

// Cond stands in for sync.Cond.
type Cond struct {
	L       Locker
	o       vrt.Obj
	waiters []*bool
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	if vrt.Exiting() {
		vrt.Bail()
		return
	}
	w := false
	c.waiters = append(c.waiters, &w)
	vrt.Mark(&c.o, true, 0xc0)
	c.L.Unlock()
	vrt.TouchWhen("cond wait", &c.o, func() bool { return w })
	c.L.Lock()
}

func (c *Cond) Signal() {
	if vrt.Exiting() {
		return
	}
	vrt.Touch("cond signal", &c.o, true)
	if len(c.waiters) > 0 {
		*c.waiters[0] = true
		c.waiters = c.waiters[1:]
	}
}

func (c *Cond) Broadcast() {
	if vrt.Exiting() {
		return
	}
	vrt.Touch("cond broadcast", &c.o, true)
	for _, w := range c.waiters {
		*w = true
	}
	c.waiters = nil
}

// Pool stands in for sync.Pool.  Get may return any pooled item or a new one:
// the most recent one by default.
type Pool struct {
	New   func() any
	o     vrt.Obj
	items []any
	epoch uint64
}

func (p *Pool) fresh() {
	if e := vrt.Epoch(); p.epoch != e {
		p.epoch = e
		p.items = nil
	}
}

func (p *Pool) Get() any {
	p.fresh()
	vrt.Touch("pool get", &p.o, true)
	if n := len(p.items); n > 0 {
		v := p.items[n-1]
		p.items = p.items[:n-1]
		return v
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(v any) {
	if v == nil {
		return
	}
	p.fresh()
	vrt.Touch("pool put", &p.o, true)
	p.items = append(p.items, v)
}

type entry struct {
	k, v any
	o    vrt.Obj
	gone bool
	born int
}

// Map stands in for sync.Map.  Operations on different keys do not conflict.
type Map struct {
	m     map[any]*entry
	all   vrt.Obj // membership, for Range
	epoch uint64
	clock int
}

func (m *Map) fresh() {
	if e := vrt.Epoch(); m.epoch != e || m.m == nil {
		m.epoch = e
		m.m = map[any]*entry{}
	}
}

// at returns the entry for k, which stays in the table once created so that
// its fingerprint survives deletion.
func (m *Map) at(k any) *entry {
	m.fresh()
	e := m.m[k]
	if e == nil {
		e = &entry{k: k, gone: true}
		m.m[k] = e
	}
	return e
}

func (m *Map) Load(k any) (any, bool) {
	e := m.at(k)
	vrt.Touch("map load", &e.o, false)
	e = m.at(k)
	if e.gone {
		return nil, false
	}
	return e.v, true
}

func (m *Map) touchW(what string, k any) *entry {
	e := m.at(k)
	vrt.Touch(what, &e.o, true)
	return m.at(k)
}

func (m *Map) set(e *entry, v any) {
	if e.gone {
		m.clock++
		e.born = m.clock
		vrt.MarkCommute(&m.all, 0xadd)
	}
	e.v, e.gone = v, false
}

func (m *Map) del(e *entry) {
	if !e.gone {
		vrt.MarkCommute(&m.all, 0xde1)
	}
	e.v, e.gone = nil, true
}

func (m *Map) Store(k, v any) {
	if vrt.Exiting() && vrt.Epoch() != 0 {
		return
	}
	m.set(m.touchW("map store", k), v)
}

func (m *Map) LoadOrStore(k, v any) (any, bool) {
	e := m.touchW("map loadorstore", k)
	if !e.gone {
		return e.v, true
	}
	m.set(e, v)
	return v, false
}

func (m *Map) LoadAndDelete(k any) (any, bool) {
	e := m.touchW("map loadanddelete", k)
	if e.gone {
		return nil, false
	}
	v := e.v
	m.del(e)
	return v, true
}

func (m *Map) Delete(k any) { m.LoadAndDelete(k) }

func (m *Map) Swap(k, v any) (any, bool) {
	e := m.touchW("map swap", k)
	old, ok := e.v, !e.gone
	m.set(e, v)
	return old, ok
}

func (m *Map) CompareAndSwap(k, o, n any) bool {
	e := m.touchW("map cas", k)
	if e.gone || e.v != o {
		return false
	}
	e.v = n
	return true
}

func (m *Map) CompareAndDelete(k, o any) bool {
	e := m.touchW("map cad", k)
	if e.gone || e.v != o {
		return false
	}
	m.del(e)
	return true
}

func (m *Map) Clear() {
	m.fresh()
	for _, e := range m.sorted() {
		m.del(m.touchW("map clear", e.k))
	}
}

func (m *Map) sorted() []*entry {
	out := make([]*entry, 0, len(m.m))
	for _, e := range m.m {
		if !e.gone {
			out = append(out, e)
		}
	}
	desc := vrt.Descending()
	sort.Slice(out, func(i, j int) bool {
		var c int
		if a, ok := out[i].k.(string); ok {
			if b, ok := out[j].k.(string); ok {
				if a == b {
					return false
				}
				return (a < b) != desc
			}
		}
		c = vrt.CompareAny(out[i].k, out[j].k)
		if c == 0 {
			c = vrt.CompareAny(fmt.Sprint(out[i].k), fmt.Sprint(out[j].k))
		}
		if desc {
			return c > 0
		}
		return c < 0
	})
	return out
}

// Range visits every key once.  As with sync.Map it is not a snapshot: each
// value is read when its key is reached; a key that appears during the
// iteration is visited or, as a deviation, not.
func (m *Map) Range(f func(k, v any) bool) {
	if vrt.Exiting() && vrt.Epoch() != 0 {
		vrt.Bail()
		return
	}
	m.fresh()
	vrt.Mark(&m.all, true, 0x4a4)
	begin := m.clock
	seen := map[any]bool{}
	order, at, pos := m.sorted(), m.clock, 0
	advance := func() *entry {
		if m.clock != at {
			order, at, pos = m.sorted(), m.clock, 0
		}
		for ; pos < len(order); pos++ {
			if e := order[pos]; !e.gone && !seen[e.k] {
				return e
			}
		}
		return nil
	}
	for {
		next := advance()
		if next == nil {
			vrt.Touch("map range end", &m.all, true)
			if next = advance(); next == nil {
				return
			}
		}
		seen[next.k] = true
		vrt.Touch("map range next", &next.o, false)
		if next.gone {
			continue
		}
		if next.born > begin && vrt.Dev(2, "range skips a key that appeared meanwhile") == 1 {
			continue
		}
		if !f(next.k, next.v) {
			return
		}
	}
}
