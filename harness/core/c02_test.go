package main

import (
	"fmt"
	"time"

	"google.golang.org/protobuf/proto"
	store "open-match.dev/core/internal/statestore/datatypes"
	pb "open-match.dev/pkg/pb/v2"
	"verif.local/vrt"
)

// snapshot runs an invocation while the incoming side applies prepared updates
// (and expires tickets) at the same instant.
func snapshot(kind string, desc bool) func(x *vrt.X) {
	return func(x *vrt.X) {
		x.Quiet(true)
		x.MapsDescending(desc)
		f := &fakeStore{}
		w := newWorld(x, opts{storage: "fake", fake: f, cfg: fast(map[string]any{"OM_CACHE_TICKET_TTL_SECS": 2, "OM_CACHE_ASSIGNMENT_ADDITIONAL_TTL_SECS": 2})})
		full := &pb.Ticket{Attributes: &pb.Ticket_FilterableData{Tags: []string{"t", "u"}, StringArgs: map[string]string{"k": "v"}, DoubleArgs: map[string]float64{"d": 1.5}}}
		// ids sort around each other so that updates hit both sides of a scan
		id := func(n int) string { return fid(0, n) }
		old := func(n int) string { return fid(-1700*time.Millisecond, n) }
		var before, during []*store.StateUpdate
		must := map[string]bool{} // active during the whole call
		may := map[string]bool{}  // active at some instant of the call
		addActive := func(i string) {
			before = append(before, upTicket(i, full, 3600*time.Second), upAct(i))
			must[i] = true
			may[i] = true
		}
		addActive(id(1))
		addActive(id(5))
		switch kind {
		case "create": // created, never activated
			during = append(during, upTicket(id(3), full, time.Hour), upTicket(id(7), full, time.Hour))
		case "activate": // an inactive ticket becomes active
			before = append(before, upTicket(id(3), full, time.Hour))
			during = append(during, upTicket(id(0), full, time.Hour), upAct(id(3)))
			may[id(3)] = true
		case "deactivate": // active tickets become inactive, one returns
			addActive(id(3))
			addActive(id(7))
			delete(must, id(3))
			delete(must, id(7))
			during = append(during, upDeact(id(3)), upDeact(id(7)), upAct(id(3)))
		case "expire": // inactive tickets reach the end of their lifetime
			before = append(before, upTicket(old(3), full, time.Hour), upTicket(old(4), full, time.Hour), upTicket(old(5), full, time.Hour), upAct(old(5)))
			may[old(5)] = true
			must[old(5)] = true
			during = append(during, upTicket(id(2), full, time.Hour))
		case "expired": // active tickets reach their expiration time
			before = append(before, upTicket(id(3), full, 390*time.Millisecond), upAct(id(3)), upTicket(id(4), full, 390*time.Millisecond))
			may[id(3)] = true
			during = append(during, upDeact(id(3)))
		case "churn": // activated and deactivated again, and assigned
			before = append(before, upTicket(id(3), full, time.Hour))
			during = append(during, upAct(id(3)), upDeact(id(3)), upAssign(id(1), "c"), upTicket(id(4), full, time.Hour), upDeact(id(4)))
			may[id(3)] = true
		}
		f.inject(before...)
		w.x.Sleep(350 * time.Millisecond) // incoming cycles are at 200 ms, 400 ms, ...
		f.inject(during...)
		w.x.Sleep(50 * time.Millisecond)
		x.Quiet(false)
		got := w.pools(everyone())["all"]
		x.Quiet(true)
		seen := map[string]bool{}
		for _, t := range got {
			if seen[t.GetId()] {
				x.Fail("ticket %s is in the pool twice", t.GetId())
			}
			seen[t.GetId()] = true
			if !may[t.GetId()] {
				x.Fail("ticket %s is in the pool although it was never an active ticket during the call", t.GetId())
			}
			c := proto.Clone(t).(*pb.Ticket)
			c.Id = ""
			c.ExpirationTime = nil
			c.Attributes.CreationTime = nil
			if !proto.Equal(c, full) {
				x.Fail("ticket %s was altered: %v", t.GetId(), t)
			}
		}
		for i := range must {
			if !seen[i] {
				x.Fail("ticket %s was active during the whole call but is not in the pool %v", i, ids(got))
			}
		}
		x.Outcome("%v", ids(got))
	}
}

// liveSnapshot runs complete requests concurrently with an invocation.
func liveSnapshot(x *vrt.X) {
	x.Quiet(true)
	f := &fakeStore{}
	w := newWorld(x, opts{storage: "fake", fake: f, cfg: fast(map[string]any{"OM_CACHE_OUT_MAX_QUEUE_THRESHOLD": 1})})
	a, b := w.mustCreate(ticket("a")), w.mustCreate(ticket("b"))
	if err := w.activate(a, b); err != nil {
		x.Fail("activate: %v", err)
	}
	w.settle()
	x.Sleep(200*time.Millisecond - time.Duration(vrt.RawNow()%200e6))
	x.Quiet(false)
	var c string
	t1 := x.Go("creator", func() { c = w.mustCreate(ticket("c")) })
	t2 := x.Go("deactivator", func() { w.deactivate(b) })
	x.Sleep(200 * time.Millisecond)
	got := ids(w.pools(everyone())["all"])
	x.Join(t1, t2)
	x.Quiet(true)
	for _, g := range got {
		if g != a && g != b {
			x.Fail("ticket %s in the pool was never activated", g)
		}
	}
	if !(len(got) == 1 && got[0] == a || len(got) == 2 && got[0] != got[1]) {
		x.Fail("pool holds %v, but %s was active all the time", got, a)
	}
	w.settle()
	if got := w.activeIDs(); !same(got, []string{a}) {
		x.Fail("finally the pool holds %v, want %v", got, a)
	}
	x.Outcome("%d %v", len(got), c != "")
}

// consecutive: invocations follow each other, and the updates between them,
// within milliseconds; another invocation may be under way all the time.
func consecutive(depth int) func(x *vrt.X) {
	return func(x *vrt.X) {
		x.Quiet(true)
		f := &fakeStore{}
		w := newWorld(x, opts{storage: "fake", fake: f, cfg: fast(map[string]any{"OM_CACHE_IN_WAIT_TIMEOUT_MS": 5})})
		active := map[string]bool{}
		for i := 0; i < 2; i++ {
			f.inject(upTicket(fid(0, i), ticket("t"), time.Hour), upAct(fid(0, i)))
			active[fid(0, i)] = true
		}
		x.Sleep(15 * time.Millisecond)
		var t *vrt.Task
		if x.Choose(2, "another invocation") == 1 {
			slow := w.function(zzScript{delay: 400 * time.Millisecond, matches: []*pb.Match{{Id: "late"}}})
			t = x.Go("another caller", func() { w.invoke(bg(), request1([]*function{slow}, everyone())) })
		}
		n := 2
		for step := 0; step < depth; step++ {
			var want []string
			for id, a := range active {
				if a {
					want = append(want, id)
				}
			}
			if got := w.activeIDs(); !same(got, sorted(want...)) {
				x.Fail("step %d: the pool holds %v, active are %v", step, got, sorted(want...))
			}
			if k := x.Choose(3, "operation"); k == 2 {
				id := fid(0, n)
				n++
				f.inject(upTicket(id, ticket("t"), time.Hour), upAct(id))
				active[id] = true
			} else {
				id := fid(0, k)
				if active[id] {
					f.inject(upDeact(id))
				} else {
					f.inject(upAct(id))
				}
				active[id] = !active[id]
			}
			x.Sleep([]time.Duration{11, 40}[x.Choose(2, "pause")] * time.Millisecond)
		}
		if t != nil {
			x.Join(t)
		}
		x.Outcome("%d", len(active))
	}
}

func init() {
	for _, k := range []string{"create", "activate", "deactivate", "expire", "expired", "churn"} {
		for _, desc := range []bool{false, true} {
			n := k + "-asc"
			if desc {
				n = k + "-desc"
			}
			vrt.Register(vrt.Scenario{Prop: "C02", Name: n, Doc: fmt.Sprintf("an invocation takes its snapshot while the incoming side applies updates at the same instant (%s; maps scanned in ascending or descending key order)", k),
				Quick: 3, Thorough: 5, Shards: 1, Body: snapshot(k, desc)})
		}
	}
	vrt.Register(vrt.Scenario{Prop: "C02", Name: "requests", Doc: "CreateTicket and DeactivateTickets run to completion concurrently with an invocation", Quick: 2, Thorough: 3, Shards: 2, Body: liveSnapshot})
	vrt.Register(vrt.Scenario{Prop: "C02", Name: "consecutive", Doc: "4 invocations within milliseconds, each after another activation, deactivation or new ticket has been applied, with and without an invocation under way", OnlyQuick: true, Shards: 2, Body: consecutive(4)})
	vrt.Register(vrt.Scenario{Prop: "C02", Name: "consecutive-deep", Doc: "6 such invocations", OnlyThorough: true, TShards: 4, Body: consecutive(6)})
}
