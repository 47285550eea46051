package main

import (
	"sort"
	"time"

	pb "open-match.dev/pkg/pb/v2"
	"verif.local/vrt"
)

// C15: state expires exactly when configured.

// held tells what this instance holds for a ticket id.
func held(id string) (tick, inactive, assigned bool) {
	vrt.Freeze(func() {
		_, tick = tc.Tickets.Load(id)
		_, inactive = tc.InactiveSet.Load(id)
		_, assigned = tc.Assignments.Load(id)
	})
	return
}

const none = time.Duration(-1)

// life is a ticket's history; times count from its creation.
type life struct {
	ctime, request        time.Duration // requested, none: not
	act, deact, react     time.Duration
	assign                time.Duration
	exp                   time.Duration // when it expires
	ttl, attl, lag, cycle time.Duration
}

// state is the activation state at p by the requests before; known is false
// while a request may or may not have been applied.
func (l *life) active(p time.Duration) (active, known bool) {
	known = true
	for _, o := range []struct {
		at time.Duration
		on bool
	}{{l.act, true}, {l.deact, false}, {l.react, true}} {
		if o.at == none || p < o.at {
			continue
		}
		if p < o.at+l.lag {
			known = false
		}
		active = o.on
	}
	return
}

// gone is when the ticket leaves the cache: when it expires, or when its
// lifetime is over and it is inactive.
func (l *life) gone() time.Duration {
	g := l.exp
	for p := l.ttl; p < g; p += l.cycle / 2 {
		if a, _ := l.active(p); !a {
			return p
		}
	}
	return g
}

func expiries(storage string, full bool) func(x *vrt.X) {
	return func(x *vrt.X) {
		x.Quiet(true)
		const s = time.Second
		c := fast(nil)
		w := newWorld(x, opts{storage: storage, cfg: c, fake: &fakeStore{}})
		l := &life{ttl: 60 * s, attl: 60 * s, cycle: w.poll, lag: 100*time.Millisecond + 2*w.poll + time.Millisecond, deact: none, react: none, assign: none}
		pick := func(what string, ds ...time.Duration) time.Duration { return ds[x.Choose(len(ds), what)] }
		l.ctime = pick("creation time", none, -30*s+0, 30*s)
		l.request = pick("expiration", none, s/2, 10*s, 59*s, 61*s, 200*s)
		l.act = pick("activated", none, 0, 5*s, 58*s, 62*s)
		if l.act != none && l.act < 10*s {
			switch x.Choose(3, "then") {
			case 1:
				l.deact = 30 * s
			case 2:
				l.deact, l.react = 30*s, 45*s
			}
		}
		t := &pb.Ticket{Attributes: &pb.Ticket_FilterableData{}}
		base := x.Now()
		l.exp = l.ttl
		if l.ctime != none {
			t.Attributes.CreationTime = ts(base.Add(l.ctime))
			l.exp = l.ctime + l.ttl
		}
		if l.request != none {
			t.ExpirationTime = ts(base.Add(l.request))
			if l.request < l.exp {
				l.exp = l.request
			}
		}
		id := w.mustCreate(t)
		created := x.Now().Sub(base) // the id's time stamp is within [0, created]
		// what happens when
		type event struct {
			at time.Duration
			do func()
		}
		var es []event
		at := func(d time.Duration, f func()) {
			if d != none {
				es = append(es, event{d, f})
			}
		}
		at(l.act, func() { w.activate(id) })
		at(l.deact, func() { w.deactivate(id) })
		at(l.react, func() { w.activate(id) })
		gone := l.gone()
		probe := func() {
			p := x.Now().Sub(base)
			active, known := l.active(p)
			got := w.activeIDs()
			in := len(got) == 1
			if len(got) > 1 {
				x.Fail("pool: %v", got)
			}
			switch {
			case p > gone+l.cycle+created:
				if in {
					x.Fail("%v after its creation, the ticket is in the pool; it was to be gone after %v (expires after %v)", p, gone, l.exp)
				}
			case p <= gone && known && p > created+l.lag:
				if in != active {
					x.Fail("%v after its creation, active ticket in pool: %v; should be active: %v (expires after %v)", p, in, active, l.exp)
				}
			}
			_, inactive, _ := held(id)
			if p > created+l.lag && known && p < l.ttl && !active && !inactive {
				x.Fail("%v after its creation, the inactive ticket's state has been removed", p)
			}
			last := l.ttl
			for _, o := range []time.Duration{l.deact, l.react, l.act} {
				if o != none && o+l.lag > last {
					last = o + l.lag
				}
			}
			if p > last+l.cycle+created && inactive {
				x.Fail("%v after the ticket's creation, its inactive state is still held", p)
			}
		}
		for _, p := range []time.Duration{gone - time.Millisecond, gone, gone + l.cycle + created + time.Millisecond, gone + s, l.exp - time.Millisecond, l.exp + s, l.ttl - time.Millisecond, l.ttl + s, 70 * s, 121 * s, 2 * s, 40 * s, 50 * s, l.act + l.lag, 57 * s, 29 * s} {
			if p > 0 {
				at(p, probe)
			}
		}
		sort.SliceStable(es, func(i, j int) bool { return es[i].at < es[j].at })
		for _, e := range es {
			if d := e.at - x.Now().Sub(base); d > 0 {
				x.Sleep(d)
			}
			e.do()
		}
		x.Outcome("gone after %v", gone)
	}
}

// assignments are kept for the ticket's and the additional lifetime.
func assignmentExpiry(storage string) func(x *vrt.X) {
	return func(x *vrt.X) {
		x.Quiet(true)
		const s = time.Second
		attl := []int{1, 60, 100}[x.Choose(3, "additional lifetime")]
		w := newWorld(x, opts{storage: storage, fake: &fakeStore{}, cfg: fast(map[string]any{"OM_CACHE_ASSIGNMENT_ADDITIONAL_TTL_SECS": attl})})
		end := 60*s + time.Duration(attl)*s
		base := x.Now()
		tick := ticket("t")
		if x.Choose(2, "expires early") == 1 {
			tick.ExpirationTime = ts(base.Add(5 * s))
		}
		id := w.mustCreate(tick)
		created := x.Now().Sub(base)
		act := x.Choose(2, "activated") == 1
		if act {
			w.activate(id)
		}
		at := []time.Duration{s, 10 * s, 59 * s, end - s - s/2, end - s}[x.Choose(5, "assigned")]
		x.Sleep(at - x.Now().Sub(base))
		if err := w.assign("first", id); err != nil {
			x.Fail("assignment failed: %v", err)
		}
		if x.Choose(2, "again") == 1 {
			if err := w.assign("second", id); err != nil {
				x.Fail("assignment failed: %v", err)
			}
		}
		lag := 2*w.poll + time.Millisecond
		x.Sleep(lag)
		look := func(want bool) {
			if _, _, got := held(id); got != want {
				x.Fail("%v after the ticket's creation, its assignment is held: %v; lifetimes: 60 s + %d s", x.Now().Sub(base), got, attl)
			}
		}
		for _, p := range []time.Duration{at + lag, 61 * s, end / 2, end - time.Millisecond} {
			if d := p - x.Now().Sub(base); d > 0 {
				x.Sleep(d)
				look(true)
			}
		}
		// A watch finds it until the end.
		ws := &respStream{ctx: bg()}
		if err := w.watch(ws, id); err != nil || len(ws.watch) != 1 {
			x.Fail("an assignment within its lifetime is not found by a watch: %v %v", ws.watch, err)
		}
		x.Sleep(end + created + w.poll + time.Millisecond - x.Now().Sub(base))
		look(false)
		x.Sleep(10 * s)
		look(false)
		x.Outcome("ok")
	}
}

// population: many tickets with different expirations; each leaves at its own time.
func population(storage string) func(x *vrt.X) {
	return func(x *vrt.X) {
		x.Quiet(true)
		const s = time.Second
		w := newWorld(x, opts{storage: storage, fake: &fakeStore{}, cfg: fast(map[string]any{"OM_CACHE_OUT_MAX_QUEUE_THRESHOLD": 1})})
		exp := map[string]time.Time{}
		step := []time.Duration{s, 3 * s, 7 * s}[x.Choose(3, "step")]
		sleep := []time.Duration{0, 3 * time.Millisecond, 700 * time.Millisecond}[x.Choose(3, "gap")]
		for i := 0; i < 8; i++ {
			e := x.Now().Add(5*s + time.Duration((i*5)%8)*step)
			t := ticket("t")
			t.ExpirationTime = ts(e)
			id := w.mustCreate(t)
			exp[id] = e
			w.activate(id)
			x.Sleep(sleep)
		}
		w.settle()
		for i := 0; i < 75; i++ {
			in := map[string]bool{}
			for _, id := range w.activeIDs() {
				in[id] = true
			}
			now := x.Now()
			for id, e := range exp {
				if !now.After(e) && !in[id] {
					x.Fail("a ticket left the pool %v before it expires", e.Sub(now))
				}
				if now.After(e.Add(w.poll)) && in[id] {
					x.Fail("a ticket is in the pool %v after it expired", now.Sub(e))
				}
			}
			x.Sleep(s - 7*time.Millisecond)
		}
		for id := range exp {
			if a, b, _ := held(id); a || b {
				x.Fail("ticket %s is still held long after its lifetime", id)
			}
		}
		x.Outcome("ok")
	}
}

// expiring: many tickets expire at once, and so do their assignments.
func expiring(x *vrt.X) {
	x.Quiet(true)
	f := &fakeStore{}
	w := newWorld(x, opts{storage: "fake", fake: f, cfg: fast(map[string]any{"OM_CACHE_IN_WAIT_TIMEOUT_MS": 2000, "OM_CACHE_OUT_WAIT_TIMEOUT_MS": 2000})})
	n := []int{3, 130, 1100, 2600}[x.Choose(4, "tickets")]
	active := x.Choose(2, "active") == 1
	assigned := x.Choose(2, "assigned") == 1
	own := x.Choose(2, "expiration") == 1
	life := w.ttl
	if own {
		life = 20 * time.Second
	}
	var ids []string
	for i := 0; i < n; i++ {
		id := fid(0, i)
		ids = append(ids, id)
		t := ticket("t")
		t.ExpirationTime = ts(x.Now().Add(life))
		f.inject(upTicket(id, t, life))
		if active {
			f.inject(upAct(id))
		}
		if assigned {
			f.inject(upAssign(id, "c"))
		}
	}
	count := func() (t, i, a int) {
		for _, id := range ids {
			p, q, r := held(id)
			t, i, a = t+b2i(p), i+b2i(q), a+b2i(r)
		}
		return
	}
	start := x.Now()
	x.Sleep(life - 2*w.poll)
	if t, _, a := count(); t != n || a != n*b2i(assigned) {
		x.Fail("%v after %d tickets were created, with a lifetime of %v, %d of them and %d assignments are held", x.Now().Sub(start), n, life, t, a)
	}
	x.Sleep(5 * w.poll)
	if t, _, _ := count(); t != 0 {
		x.Fail("%v after %d tickets were created, with a lifetime of %v, %d of them are held", x.Now().Sub(start), n, life, t)
	}
	x.Sleep(w.ttl - life + w.poll)
	if _, i, a := count(); i != 0 || a != n*b2i(assigned) {
		x.Fail("%v after %d tickets were created, %d are in the list of inactive ones and %d of their assignments are held", x.Now().Sub(start), n, i, a)
	}
	x.Sleep(w.ttl + 5*w.poll)
	if _, _, a := count(); a != 0 {
		x.Fail("%v after %d tickets were created, %d of their assignments are held", x.Now().Sub(start), n, a)
	}
	x.Outcome("%d", n)
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// replayed: an instance that learns of a ticket when it has expired already
// (it started late, or the storage was slow) never puts it into a pool.
func replayed(x *vrt.X) {
	x.Quiet(true)
	f := &fakeStore{}
	w := newWorld(x, opts{storage: "fake", fake: f, cfg: fast(nil)})
	x.Sleep(30 * time.Second)
	dead, live := fid(5*time.Second, 0), fid(6*time.Second, 0)
	mk := func(e time.Duration) *pb.Ticket {
		t := ticket("t")
		t.Attributes.CreationTime = ts(x.Now().Add(-25 * time.Second))
		t.ExpirationTime = ts(x.Now().Add(e))
		return t
	}
	f.inject(upTicket(dead, mk(-20*time.Second), 0), upTicket(live, mk(20*time.Second), 0), upAct(dead), upAct(live))
	if x.Choose(2, "again") == 1 {
		f.inject(upDeact(dead), upAct(dead))
	}
	d := time.Duration(x.Choose(3, "delay")) * 200 * time.Millisecond
	x.Quiet(false)
	t := x.Go("pools", func() {
		x.Sleep(d)
		for _, id := range w.activeIDs() {
			if id == dead {
				x.Fail("a ticket that expired 20 s ago is in the pool")
			}
		}
	})
	x.Join(t)
	x.Quiet(true)
	w.settle()
	if got := w.activeIDs(); !same(got, []string{live}) {
		x.Fail("of one expired and one live ticket, the pool has %v", got)
	}
	x.Outcome("ok")
}

func init() {
	reg := func(name, doc string, quick, thorough, shards int, body func(*vrt.X)) {
		vrt.Register(vrt.Scenario{Prop: "C15", Name: name, Doc: doc, Quick: quick, Thorough: thorough, Shards: shards, TShards: 8, Body: body})
	}
	for _, s := range []string{"memory", "redis", "fake"} {
		reg("expiry."+s, "3 creation times x 6 expirations x 5 activations x deactivation and reactivation, probed around every limit, "+s+" storage", 0, 0, 4, expiries(s, false))
		reg("assignments."+s, "assignments made at 5 times, 3 additional lifetimes, "+s+" storage", 0, 0, 2, assignmentExpiry(s))
		reg("population."+s, "8 tickets with different expirations, looked at for 75 s, "+s+" storage", 0, 0, 1, population(s))
	}
	vrt.Register(vrt.Scenario{Prop: "C15", Name: "crowd", Doc: "3 to 2600 tickets, active or not, assigned or not, that expire at once", Shards: 2, TShards: 2, MaxSteps: 50_000_000, Body: expiring})
	reg("replayed", "updates of an expired ticket arrive during a snapshot", 2, 3, 4, replayed)
}
