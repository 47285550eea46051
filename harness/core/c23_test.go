package main

import (
	"fmt"
	"time"

	"verif.local/vdep/vredis"
	"verif.local/vrt"
)

// C23: the stream keeps every update younger than the ticket lifetime, and the
// following writes remove the older ones.

// retainedIn is what any stream of the server holds.
func retainedIn(s *vredis.Server) map[vredis.ID]bool {
	m := map[vredis.ID]bool{}
	for _, st := range s.Streams {
		for _, e := range st.Entries {
			m[e.ID] = true
		}
	}
	return m
}

// retained checks that nothing younger than the lifetime is gone.
func (w *world) retained() {
	now := uint64(w.x.Now().UnixMilli())
	h := retainedIn(w.redis)
	for i, e := range w.redis.Added {
		if e.ID.Ms+uint64(w.ttl.Milliseconds()) > now && !h[e.ID] {
			w.x.Fail("update %d (%v) is %d ms old and no longer in the stream, tickets live %v", i, show(fromEntry(e)), now-e.ID.Ms, w.ttl)
		}
	}
}

// kinds are the kinds of writes.
var kinds = []string{"creations", "activations", "deactivations", "assignments"}

// writes makes one request of n updates.
func (w *world) write(kind string, n int) {
	var l []string
	for i := 0; i < n; i++ {
		l = append(l, fid(0, 99+i))
	}
	var err error
	switch kind {
	case "creations":
		_, err = w.create(bg(), ticket("new"))
	case "activations":
		err = w.activate(l...)
	case "deactivations":
		err = w.deactivate(l...)
	case "assignments":
		err = w.assign("conn", l...)
	}
	if err != nil {
		w.x.Fail("%s failed on healthy storage: %v", kind, err)
	}
}

// trimmedBy makes three requests and checks that nothing older than the
// lifetime is left.
func (w *world) trimmedBy(kind string, n int) {
	for i := 0; i < 3; i++ {
		w.x.Sleep(time.Millisecond)
		w.write(kind, n)
		w.retained()
	}
	now := uint64(w.x.Now().UnixMilli())
	for id := range retainedIn(w.redis) {
		if id.Ms+uint64(w.ttl.Milliseconds())+500 < now {
			w.x.Fail("three requests of %d %s later the stream still holds update %v, %d ms old; tickets live %v", n, kind, id, now-id.Ms, w.ttl)
		}
	}
}

// followed writes one kind of updates and then another, for long.
func followed(x *vrt.X) {
	x.Quiet(true)
	first, second := kinds[x.Choose(4, "first")], kinds[x.Choose(4, "then")]
	n := []int{1, 2, 7}[x.Choose(3, "updates per request")]
	batch := []int{1, 2, 50}[x.Choose(3, "batch")]
	c := fast(map[string]any{"OM_CACHE_OUT_MAX_QUEUE_THRESHOLD": batch, "OM_CACHE_TICKET_TTL_SECS": 2})
	w := newWorld(x, opts{storage: "redis", cfg: c, noIn: x.Choose(2, "polling") == 0})
	w.write(first, n)
	w.write(second, n)
	x.Sleep(w.ttl / 2)
	w.write(first, n)
	x.Sleep(w.ttl/2 + 600*time.Millisecond)
	w.trimmedBy(second, n)
	x.Sleep(w.ttl + 600*time.Millisecond)
	w.trimmedBy(first, n)
	for i := 0; i < 10; i++ {
		x.Sleep(300 * time.Millisecond)
		w.trimmedBy(second, n)
	}
	x.Outcome("%d", len(retainedIn(w.redis)))
}

func (w *world) trimmed() { w.trimmedBy("deactivations", 1) }

// learns starts an instance and checks that it knows every live ticket.
func (w *world) learns(c map[string]any) {
	x := w.x
	began := x.Now()
	n := w.secondInstance(c, nil)
	polls := 1
	if p, ok := c["OM_CACHE_IN_MAX_UPDATES_PER_POLL"].(int); ok {
		polls = len(w.redis.Added)/p + 1
	}
	x.Sleep(time.Duration(polls+3) * (w.poll + 10*time.Millisecond))
	end := x.Now()
	m := newState()
	live := map[string]bool{}
	for _, e := range w.redis.Added {
		u := fromEntry(e)
		m.apply(u)
		if _, is := m.tickets[u.Key]; is && e.Fields[0] == "ticket" {
			live[u.Key] = e.ID.Ms+uint64(w.ttl.Milliseconds()) > uint64(end.UnixMilli())
		}
	}
	got := dump(n.tc)
	for id, alive := range live {
		if !alive {
			continue
		}
		if got.tickets[id] != m.tickets[id] {
			x.Fail("an instance started at %v does not know ticket %s, which lives until %v after its creation", began.Format("15:04:05.000"), id, w.ttl)
		}
		if got.inactive[id] != m.inactive[id] {
			x.Fail("an instance started at %v holds ticket %s as inactive=%v, it is inactive=%v", began.Format("15:04:05.000"), id, got.inactive[id], m.inactive[id])
		}
	}
	x.Outcome("%d live of %d", len(got.tickets), len(live))
}

func retention(depth int, faults bool) func(x *vrt.X) {
	return func(x *vrt.X) {
		x.Quiet(true)
		ttl := []int{1, 2, 60, 86400}[x.Choose(4, "ticket lifetime")]
		c := fast(map[string]any{"OM_CACHE_OUT_MAX_QUEUE_THRESHOLD": 1, "OM_CACHE_TICKET_TTL_SECS": ttl,
			// (idle cycles are scaled to the lifetime)
			"OM_CACHE_IN_WAIT_TIMEOUT_MS": 25 * ttl, "OM_CACHE_OUT_WAIT_TIMEOUT_MS": 500 * ttl})
		w := newWorld(x, opts{storage: "redis", cfg: c, noIn: true})
		var l []string
		if faults {
			x.FaultsOnly(true)
			x.Quiet(false)
			w.redis.Faults.Write = true
		}
		for i := 0; i < depth; i++ {
			switch x.Choose(7, "operation") {
			case 0, 1:
				if id, err := w.create(bg(), ticket("t"+itoa(i))); err == nil {
					l = append(l, id)
				}
			case 2:
				if len(l) > 0 {
					w.activate(l[len(l)-1])
				}
			case 3:
				if len(l) > 0 {
					w.activate(l[0])
					w.deactivate(l[0])
				}
			case 4:
				x.Sleep(w.ttl/2 - 100*time.Millisecond)
			case 5:
				x.Sleep(w.ttl - 30*time.Millisecond)
			case 6:
				if len(l) > 0 {
					w.assign("conn"+itoa(i), l[0])
				}
			}
			w.retained()
		}
		x.Quiet(true)
		w.redis.Faults = vredis.Faults{}
		w.learns(c)
		w.trimmed()
		x.Sleep(w.ttl)
		w.trimmed()
	}
}

// masses writes many updates within one lifetime.
func masses(n int) func(x *vrt.X) {
	return func(x *vrt.X) {
		x.Quiet(true)
		batch := []int{100, 500}[x.Choose(2, "batch")]
		c := fast(map[string]any{"OM_CACHE_OUT_MAX_QUEUE_THRESHOLD": batch, "OM_CACHE_IN_WAIT_TIMEOUT_MS": 200, "OM_CACHE_TICKET_TTL_SECS": 600})
		w := newWorld(x, opts{storage: "redis", cfg: c, noIn: true})
		id := w.mustCreate(ticket("first"))
		for i := 0; i < n; i += 500 {
			var l []string
			for j := 0; j < 500; j++ {
				l = append(l, fid(0, i+j))
			}
			if err := w.activate(l...); err != nil {
				x.Fail("activation failed on healthy storage: %v", err)
			}
		}
		w.retained()
		if !retainedIn(w.redis)[w.redis.Added[0].ID] {
			x.Fail("ticket %s is gone", id)
		}
		c["OM_CACHE_IN_MAX_UPDATES_PER_POLL"] = 1000
		w.learns(c)
		x.Sleep(600 * time.Second)
		w.trimmed()
	}
}

// fresh starts an instance at any time while others write and trim.
func fresh(x *vrt.X) {
	x.Quiet(true)
	polls := []int{1, 2, 50}[x.Choose(3, "updates per poll")]
	c := fast(map[string]any{"OM_CACHE_OUT_MAX_QUEUE_THRESHOLD": 1, "OM_CACHE_TICKET_TTL_SECS": 2, "OM_CACHE_IN_WAIT_TIMEOUT_MS": 20, "OM_CACHE_IN_MAX_UPDATES_PER_POLL": polls})
	w := newWorld(x, opts{storage: "redis", cfg: c, noIn: true})
	w.mustCreate(ticket("old"))
	w.mustCreate(ticket("old too"))
	x.Sleep(1900 * time.Millisecond)
	a := w.mustCreate(ticket("a"))
	b := w.mustCreate(ticket("b"))
	x.Sleep(90 * time.Millisecond)
	x.Quiet(false)
	t := x.Go("writer", func() {
		w.activate(a)
		x.Sleep(20 * time.Millisecond)
		w.activate(b)
		w.deactivate(a)
	})
	w.learns(c)
	x.Join(t)
	x.Quiet(true)
	w.learns(c)
	w.trimmed()
}

func init() {
	reg := func(sc vrt.Scenario) { sc.Prop = "C23"; sc.MaxTime = 240 * time.Hour; vrt.Register(sc) }
	reg(vrt.Scenario{Name: "histories", Doc: "all histories of 5 writes and waits around the lifetime x 4 lifetimes", OnlyQuick: true, Shards: 6, Body: retention(5, false)})
	reg(vrt.Scenario{Name: "histories-deep", Doc: "all histories of 7 writes and waits around the lifetime x 4 lifetimes", OnlyThorough: true, Body: retention(7, false)})
	reg(vrt.Scenario{Name: "followed", Doc: "one kind of requests after another x sizes of requests and batches, over several lifetimes", Shards: 2, Body: followed})
	reg(vrt.Scenario{Name: "faults", Doc: "all histories of 3 writes and waits; connections break at every point", Quick: 1, Thorough: 2, Shards: 4, Body: retention(3, true)})
	reg(vrt.Scenario{Name: "fresh", Doc: "an instance starts while another writes and trims, all interleavings", Quick: 2, Thorough: 3, Shards: 4, Body: fresh})
	for _, n := range []int{2000, 20000} {
		reg(vrt.Scenario{Name: fmt.Sprintf("masses-%d", n), Doc: fmt.Sprintf("%d updates within one lifetime", n), OnlyThorough: n > 2000, MaxSteps: 50_000_000, Body: masses(n)})
	}
}
