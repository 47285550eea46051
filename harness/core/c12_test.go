package main

import (
	"fmt"
	"time"

	pb "open-match.dev/pkg/pb/v2"
	"verif.local/vrt"
)

// C12: matched tickets are deactivated.

// activeHere tells whether this instance holds an active ticket id now.
func (w *world) activeHere(id string) (active bool) {
	vrt.Freeze(func() {
		_, exists := tc.Tickets.Load(id)
		_, inactive := tc.InactiveSet.Load(id)
		active = exists && !inactive
	})
	return
}

func ticketsOf(m *pb.Match) (ids []string) {
	for _, r := range m.GetRosters() {
		for _, t := range r.GetTickets() {
			ids = append(ids, t.GetId())
		}
	}
	return
}

// deactivated runs an invocation and checks the property; except names tickets
// that are activated meanwhile.
func (w *world) deactivated(req *pb.MmfRequest, except ...string) *respStream {
	x := w.x
	skip := map[string]bool{}
	for _, e := range except {
		skip[e] = true
	}
	s := &respStream{ctx: bg()}
	if cfg.GetBool("OM_MATCH_TICKET_DEACTIVATION_WAIT") {
		s.onMatch = func(m *pb.Match) {
			for _, id := range ticketsOf(m) {
				if !skip[id] && w.activeHere(id) {
					x.Fail("match %q was sent while its ticket %s is still active", m.GetId(), id)
				}
			}
		}
	}
	err := w.invokeOn(s, req)
	for _, g := range s.got {
		for _, id := range ticketsOf(g.GetMatch()) {
			if !skip[id] && w.activeHere(id) {
				x.Fail("the invocation has ended (%v) and ticket %s of match %q is still active", err, id, g.GetMatch().GetId())
			}
		}
	}
	return s
}

// later checks that no ticket of the returned matches is in a pool.
func (w *world) later(s *respStream, except ...string) {
	gone := map[string]bool{}
	for _, g := range s.got {
		for _, id := range ticketsOf(g.GetMatch()) {
			gone[id] = true
		}
	}
	for _, e := range except {
		delete(gone, e)
	}
	for _, t := range w.pools(everyone())["all"] {
		if gone[t.GetId()] {
			w.x.Fail("ticket %s was matched and is in a later pool", t.GetId())
		}
	}
}

// matchShapes are matches over four active tickets and other ids.
func matchShapes(ids []string) []*pb.Match {
	two := match("rosters", ids[0])
	two.Rosters["s"] = &pb.Roster{Name: "s", Tickets: []*pb.Ticket{{Id: ids[1]}, {Id: ids[2]}}}
	two.Rosters[""] = &pb.Roster{Tickets: []*pb.Ticket{{Id: ids[3]}}}
	two.Rosters["none"] = &pb.Roster{Name: "none"}
	dup := match("twice", ids[0], ids[1], ids[0])
	dup.Rosters["s"] = &pb.Roster{Tickets: []*pb.Ticket{{Id: ids[1]}}}
	return []*pb.Match{
		match("one", ids[0]),
		match("three", ids[0], ids[1], ids[2]),
		two,
		dup,
		{Id: "none"},
		match("unknown", ids[1], "1600000000000-5", ids[3]),
		rich("rich", ids[2], ids[3]),
	}
}

func world12(x *vrt.X, storage string, over map[string]any) (*world, []string) {
	if storage == "fake" {
		w, _, ids := prepared(x, 4, over)
		return w, ids
	}
	c := fast(map[string]any{"OM_CACHE_OUT_MAX_QUEUE_THRESHOLD": 4})
	for k, v := range over {
		c[k] = v
	}
	w := newWorld(x, opts{storage: storage, cfg: c})
	var ids []string
	for i := 0; i < 4; i++ {
		ids = append(ids, w.mustCreate(ticket("t")))
	}
	if err := w.activate(ids...); err != nil {
		x.Fail("activation failed on healthy storage: %v", err)
	}
	w.settle()
	return w, ids
}

// matched: every pair of match shapes from one or two functions.
func matched(storage string, max int) func(x *vrt.X) {
	return func(x *vrt.X) {
		x.Quiet(true)
		w, ids := world12(x, storage, map[string]any{
			"OM_MATCH_TICKET_DEACTIVATION_WAIT": x.Choose(2, "wait") == 1,
			"OM_CACHE_OUT_MAX_QUEUE_THRESHOLD":  []int{1, 3, 50}[x.Choose(3, "batch")],
		})
		all := matchShapes(ids)
		var ms []*pb.Match
		for i := 0; i < max; i++ {
			ms = append(ms, all[x.Choose(len(all), "shape")])
		}
		var fs []*function
		switch x.Choose(3, "functions") {
		case 0:
			fs = append(fs, w.function(zzScript{matches: ms}))
		case 1:
			fs = append(fs, w.function(zzScript{matches: ms, end: endError}))
		case 2:
			fs = append(fs, w.function(zzScript{matches: ms[:1], delay: 350 * time.Millisecond}), w.function(zzScript{matches: ms[1:]}))
		}
		x.Quiet(false)
		s := w.deactivated(request1(fs, everyone()))
		x.Quiet(true)
		delivered(x, fs, s.got)
		w.later(s)
		x.Outcome("%d %v", len(s.got), elapsed().Round(time.Second))
	}
}

// slowReplication: the storage delivers the deactivations late.
func slowReplication(x *vrt.X) {
	x.Quiet(true)
	wait := x.Choose(2, "wait") == 1
	d := []time.Duration{250 * time.Millisecond, 5 * time.Second, 19 * time.Second, 21 * time.Second, 50 * time.Second}[x.Choose(5, "delay")]
	cycle := max(200, int(d.Milliseconds()/10))
	w, f, ids := prepared(x, 4, map[string]any{"OM_MATCH_TICKET_DEACTIVATION_WAIT": wait, "OM_CACHE_OUT_WAIT_TIMEOUT_MS": cycle, "OM_CACHE_IN_WAIT_TIMEOUT_MS": cycle, "OM_CACHE_TICKET_TTL_SECS": 600})
	fs := []*function{w.function(zzScript{matches: []*pb.Match{match("a", ids[0], ids[1]), match("b", ids[2])}, end: []mmfEnd{endOK, endError}[x.Choose(2, "end")]})}
	f.release(true)
	t := x.Go("storage", func() { x.Sleep(d); f.release(false) })
	start := elapsed()
	x.Quiet(false)
	s := w.deactivated(request1(fs, everyone()))
	if took := elapsed() - start; took < d {
		x.Fail("the invocation ended after %v, its deactivations can have arrived only after %v", took, d)
	}
	if len(s.got) != 2 {
		x.Fail("%d matches of 2", len(s.got))
	}
	x.Quiet(true)
	x.Join(t)
	w.later(s)
	x.Outcome("%v", (elapsed() - start).Round(time.Second))
}

// twoInvocations with common tickets.
func twoInvocations(x *vrt.X) {
	x.Quiet(true)
	w, ids := world12(x, "fake", map[string]any{"OM_MATCH_TICKET_DEACTIVATION_WAIT": x.Choose(2, "wait") == 1, "OM_CACHE_OUT_MAX_QUEUE_THRESHOLD": 2})
	a := []*function{w.function(zzScript{matches: []*pb.Match{match("a1", ids[0], ids[1]), match("a2", ids[1], ids[2])}})}
	b := []*function{w.function(zzScript{matches: []*pb.Match{match("b1", ids[2], ids[0])}})}
	x.Quiet(false)
	var sb *respStream
	t := x.Go("second", func() { sb = w.deactivated(request1(b, everyone())) })
	sa := w.deactivated(request1(a, everyone()))
	x.Join(t)
	x.Quiet(true)
	w.later(sa)
	w.later(sb)
	x.Outcome("%d %d", len(sa.got), len(sb.got))
}

// activatedMeanwhile: one ticket of the match is activated during the
// invocation; the others are deactivated all the same.
func activatedMeanwhile(x *vrt.X) {
	x.Quiet(true)
	w, ids := world12(x, "fake", map[string]any{"OM_MATCH_TICKET_DEACTIVATION_WAIT": x.Choose(2, "wait") == 1, "OM_CACHE_OUT_MAX_QUEUE_THRESHOLD": 1 + x.Choose(2, "batch")})
	fs := []*function{w.function(zzScript{matches: []*pb.Match{match("a", ids[0], ids[1]), match("b", ids[2], ids[0])}})}
	d := time.Duration(x.Choose(4, "delay")) * 130 * time.Millisecond
	x.Quiet(false)
	t := x.Go("activator", func() { x.Sleep(d); w.activate(ids[0]) })
	s := w.deactivated(request1(fs, everyone()), ids[0])
	x.Join(t)
	x.Quiet(true)
	if len(s.got) != 2 {
		x.Fail("%d matches of 2", len(s.got))
	}
	w.later(s, ids[0])
	x.Outcome("%v", w.activeIDs())
}

// again: matched tickets that are activated again come back, and can be
// matched and deactivated again.
func again(storage string) func(x *vrt.X) {
	return func(x *vrt.X) {
		x.Quiet(true)
		w, ids := world12(x, storage, map[string]any{"OM_MATCH_TICKET_DEACTIVATION_WAIT": x.Choose(2, "wait") == 1})
		for round := 0; round < 3; round++ {
			sub := x.Choose(4, "tickets")
			m := match(fmt.Sprint("m", round), ids[sub], ids[(sub+1)%4])
			s := w.deactivated(request1([]*function{w.function(zzScript{matches: []*pb.Match{m}})}, everyone()))
			w.later(s)
			if got := w.activeIDs(); len(got) != 2 {
				x.Fail("of 4 active tickets 2 were matched, %v are active", got)
			}
			if err := w.activate(ids[sub], ids[(sub+1)%4]); err != nil {
				x.Fail("activation failed: %v", err)
			}
			w.settle()
			if got := w.activeIDs(); len(got) != 4 {
				x.Fail("matched tickets were activated again, %v are active", got)
			}
		}
		x.Outcome("ok")
	}
}

// bigMatch: more tickets than a request may update.
func bigMatch(x *vrt.X) {
	x.Quiet(true)
	n := []int{30, 501, 1200}[x.Choose(3, "tickets")]
	w, f, _ := prepared(x, 0, map[string]any{"OM_MATCH_TICKET_DEACTIVATION_WAIT": x.Choose(2, "wait") == 1, "OM_CACHE_OUT_MAX_QUEUE_THRESHOLD": 50})
	var ids []string
	for i := 0; i < n; i++ {
		id := fid(0, i)
		ids = append(ids, id)
		f.inject(upTicket(id, ticket("t"), w.ttl), upAct(id))
	}
	w.settle()
	s := w.deactivated(request1([]*function{w.function(zzScript{matches: []*pb.Match{match("big", ids...), match("small", ids[0])}})}, everyone()))
	if len(s.got) != 2 {
		x.Fail("%d matches of 2", len(s.got))
	}
	w.later(s)
	x.Outcome("%d", n)
}

func init() {
	reg := func(name, doc string, quick, thorough, shards int, body func(*vrt.X)) {
		vrt.Register(vrt.Scenario{Prop: "C12", Name: name, Doc: doc, Quick: quick, Thorough: thorough, Shards: shards, TShards: 8, Body: body})
	}
	reg("shapes", "every pair of 7 match shapes from one or two functions, both wait settings, batches of 1, 3, 50", 0, 1, 4, matched("fake", 2))
	reg("one", "each of 7 match shapes, both wait settings, batches of 1, 3, 50", 1, 2, 8, func(x *vrt.X) { matched("fake", 1)(x) })
	reg("memory", "every pair of 7 match shapes, memory storage", 0, 0, 4, matched("memory", 2))
	reg("redis", "every pair of 7 match shapes, Redis storage", 0, 0, 4, matched("redis", 2))
	reg("slow", "deactivations delivered after 0.25 to 50 s", 1, 2, 4, slowReplication)
	reg("two", "two concurrent invocations whose matches share tickets", 1, 2, 8, twoInvocations)
	reg("meanwhile", "one matched ticket is activated during the invocation", 1, 2, 8, activatedMeanwhile)
	reg("again", "three rounds of matching and activating again, memory", 0, 1, 1, again("memory"))
	reg("againredis", "three rounds of matching and activating again, Redis", 0, 0, 1, again("redis"))
	reg("big", "matches of 30, 501 and 1200 tickets", 0, 0, 1, bigMatch)
}
