package main

import (
	"errors"
	"fmt"
	"time"
	context "verif.local/vrt/vctx"

	store "open-match.dev/core/internal/statestore/datatypes"
	pb "open-match.dev/pkg/pb/v2"
	"verif.local/vdep/vgrpc"
	"verif.local/vdep/vredis"
	"verif.local/vrt"
)

// C18: every request completes; nothing deadlocks or runs out.

// kind18 is a kind of request that may be part of a history.
type kind18 struct {
	name string
	do   func(w *world, ctx context.Context, ids []string) error
}

var kinds18 = []kind18{
	{"create", func(w *world, ctx context.Context, ids []string) error { _, e := w.create(ctx, ticket("t")); return e }},
	{"bad create", func(w *world, ctx context.Context, ids []string) error { _, e := w.create(ctx, nil); return e }},
	{"activate", func(w *world, ctx context.Context, ids []string) error {
		_, e := w.srv.ActivateTickets(ctx, &pb.ActivateTicketsRequest{TicketIds: ids})
		return e
	}},
	{"activate invalid", func(w *world, ctx context.Context, ids []string) error {
		_, e := w.srv.ActivateTickets(ctx, &pb.ActivateTicketsRequest{TicketIds: []string{"bad", ids[0], ""}})
		return e
	}},
	{"deactivate", func(w *world, ctx context.Context, ids []string) error {
		_, e := w.srv.DeactivateTickets(ctx, &pb.DeactivateTicketsRequest{TicketIds: ids})
		return e
	}},
	{"assign", func(w *world, ctx context.Context, ids []string) error {
		r := &pb.Roster{Assignment: &pb.Assignment{Connection: "c"}}
		for _, id := range ids {
			r.Tickets = append(r.Tickets, &pb.Ticket{Id: id})
		}
		_, e := w.srv.CreateAssignments(ctx, &pb.CreateAssignmentsRequest{AssignmentRoster: r})
		return e
	}},
	{"watch", func(w *world, ctx context.Context, ids []string) error {
		w.assign("c", ids[0])
		return w.watch(&respStream{ctx: ctx}, ids[0])
	}},
	{"invoke", func(w *world, ctx context.Context, ids []string) error {
		_, e := w.invoke(ctx, request1([]*function{w.function(zzScript{matches: []*pb.Match{match("m", ids[0])}})}, everyone()))
		return e
	}},
	{"invoke failing", func(w *world, ctx context.Context, ids []string) error {
		_, e := w.invoke(ctx, request1([]*function{w.function(zzScript{end: endUnreachable}), w.function(zzScript{matches: []*pb.Match{match("m", ids...), nil}, end: endError}), w.function(zzScript{end: endDialError}), w.function(zzScript{end: endREST})}, everyone()))
		return e
	}},
	{"invoke hanging", func(w *world, ctx context.Context, ids []string) error {
		_, e := w.invoke(ctx, request1([]*function{w.function(zzScript{matches: []*pb.Match{match("m", ids[0])}, end: endHang}), w.function(zzScript{end: endEarly})}, everyone()))
		return e
	}},
}

// patience is longer than any request may take: an MMF's timeout (20 s) and the
// wait for deactivations (60 s), or the wait of a watch (a ticket's lifetime).
const patience = 90 * time.Second

// resources checks that nothing is held after all requests have ended.
func (w *world) resources(live int) {
	x := w.x
	x.Sleep(3 * time.Second)
	if n := vgrpc.OpenConns(); n != 0 {
		x.Fail("%d connections to MMFs are open after all requests have ended", n)
	}
	if n := vgrpc.OpenRPCs(); n != 0 {
		x.Fail("%d calls of MMFs are open after all requests have ended", n)
	}
	if l := x.Live(); len(l) > live {
		x.Fail("%d goroutines are left after all requests have ended: %v", len(l)-live, l)
	}
}

func world18(x *vrt.X, storage string, over map[string]any) (*world, []string) {
	c := fast(map[string]any{"OM_CACHE_TICKET_TTL_SECS": 6000, "OM_CACHE_OUT_MAX_QUEUE_THRESHOLD": 2})
	for k, v := range over {
		c[k] = v
	}
	w := newWorld(x, opts{storage: storage, fake: &fakeStore{}, cfg: c})
	ids := []string{w.mustCreate(ticket("t")), w.mustCreate(ticket("t"))}
	w.settle()
	return w, ids
}

// histories: every pattern of n kinds of requests, repeated.
func repeated(storage string, n, times int, over map[string]any) func(x *vrt.X) {
	return func(x *vrt.X) {
		x.Quiet(true)
		w, ids := world18(x, storage, over)
		var ks []kind18
		for i := 0; i < n; i++ {
			ks = append(ks, kinds18[x.Choose(len(kinds18), "kind")])
		}
		live := len(x.Live())
		for i := 0; i < times; i++ {
			for _, k := range ks {
				k := k
				t := x.Go(k.name, func() { k.do(w, bg(), ids) })
				if !x.JoinWithin(patience, t) {
					x.Fail("request %d, %s, does not complete", i*n+1, k.name)
				}
			}
		}
		w.resources(live)
		if w.redis != nil {
			if max := cfg.GetInt("OM_REDIS_POOL_MAX_ACTIVE"); max > 0 && w.redis.Open > 2*max {
				x.Fail("%d connections to Redis are open, the pools allow %d each", w.redis.Open, max)
			}
			if w.redis.Open > 4 {
				x.Fail("%d connections to Redis are open although no two requests needed them at once", w.redis.Open)
			}
		}
		w.probe()
		x.Outcome("ok")
	}
}

// mix: several requests of every kind at once.
func mix(storage string, kinds []int, over map[string]any) func(x *vrt.X) {
	return func(x *vrt.X) {
		x.Quiet(true)
		c := map[string]any{"OM_CACHE_OUT_MAX_QUEUE_THRESHOLD": []int{1, 2, 3, 50}[x.Choose(4, "batch")], "OM_CACHE_IN_MAX_UPDATES_PER_POLL": []int{1, 3, 100}[x.Choose(3, "poll")]}
		for k, v := range over {
			c[k] = v
		}
		w, ids := world18(x, storage, c)
		live := len(x.Live())
		x.Quiet(false)
		var ts []*vrt.Task
		for _, i := range kinds {
			k := kinds18[i]
			ts = append(ts, x.Go(k.name, func() { k.do(w, bg(), ids) }))
		}
		if !x.JoinWithin(patience, ts...) {
			for _, t := range ts {
				x.Logf("%v", t.Done())
			}
			x.Fail("a request does not complete")
		}
		x.Quiet(true)
		w.resources(live)
		w.probe()
		x.Outcome("ok")
	}
}

// erring: the storage answers some or all updates with errors.
func erring(x *vrt.X) {
	x.Quiet(true)
	f := &fakeStore{}
	w := newWorld(x, opts{storage: "fake", fake: f, cfg: fast(map[string]any{"OM_CACHE_OUT_MAX_QUEUE_THRESHOLD": []int{1, 2, 4}[x.Choose(3, "batch")], "OM_MATCH_TICKET_DEACTIVATION_WAIT": x.Choose(2, "wait") == 1})})
	ids := []string{w.mustCreate(ticket("t")), w.mustCreate(ticket("t"))}
	w.activate(ids...)
	w.settle()
	live := len(x.Live())
	mode := x.Choose(4, "fails")
	n := 0
	f.fail = func(u *store.StateUpdate) error {
		n++
		if mode == 0 || mode == 1 && n%2 == 0 || mode == 2 && u.Cmd == store.Deactivate || mode == 3 && u.Cmd != store.Deactivate {
			return errors.New("storage error")
		}
		return nil
	}
	pick := [][]int{{0, 2, 5, 7}, {0, 0, 3, 4}, {7, 8, 2, 4}, {9, 5, 0, 2}}[x.Choose(4, "requests")]
	x.Quiet(false)
	var ts []*vrt.Task
	for _, i := range pick {
		k := kinds18[i]
		ts = append(ts, x.Go(k.name, func() { k.do(w, bg(), ids) }))
	}
	if !x.JoinWithin(patience, ts...) {
		x.Fail("a request does not complete although the storage answers")
	}
	x.Quiet(true)
	f.fail = nil
	w.resources(live)
	w.probe()
	x.Outcome("ok")
}

// faultyRedis: connections break or updates are rejected at any point.
func faultyRedis(faults vredis.Faults, maxActive int) func(x *vrt.X) {
	return func(x *vrt.X) {
		x.Quiet(true)
		w, ids := world18(x, "redis", map[string]any{"OM_REDIS_POOL_MAX_ACTIVE": maxActive, "OM_REDIS_POOL_MAX_IDLE": 1 + x.Choose(2, "idle")*9})
		live := len(x.Live())
		w.redis.Faults = faults
		x.Quiet(false)
		x.FaultsOnly(true)
		for i, k := range []int{0, 2, 5, 7, 4, 0} {
			k := kinds18[k]
			t := x.Go(k.name, func() { k.do(w, bg(), ids) })
			if !x.JoinWithin(patience, t) {
				x.Fail("request %d, %s, does not complete", i, k.name)
			}
		}
		x.FaultsOnly(false)
		x.Quiet(true)
		w.redis.Faults = vredis.Faults{}
		x.Sleep(2 * time.Second)
		w.resources(live)
		if w.redis.Open > 2*maxActive {
			x.Fail("%d connections to Redis are open, the pools allow %d each", w.redis.Open, maxActive)
		}
		// one request may meet a connection that has broken meanwhile
		t := x.Go("create", func() { w.create(bg(), ticket("t")) })
		if !x.JoinWithin(patience, t) {
			x.Fail("a request does not complete after the faults")
		}
		w.probe()
		x.Outcome("ok")
	}
}

// abandoned: callers leave while their updates are queued; nobody is held up.
func abandoned(x *vrt.X) {
	x.Quiet(true)
	batch := []int{1, 2, 50}[x.Choose(3, "batch")]
	w, ids := world18(x, "fake", map[string]any{"OM_CACHE_OUT_MAX_QUEUE_THRESHOLD": batch})
	live := len(x.Live())
	ctx, cancel := context.WithCancel(bg())
	k := []int{0, 2, 3, 5, 7}[x.Choose(5, "request")]
	at := []time.Duration{0, 50 * time.Millisecond, 150 * time.Millisecond}[x.Choose(3, "leaves after")]
	early := x.Choose(2, "before") == 1
	if early {
		cancel()
	}
	x.Quiet(false)
	ts := []*vrt.Task{
		x.Go("leaving", func() { kinds18[k].do(w, ctx, ids) }),
		x.Go("staying", func() {
			if _, err := w.create(bg(), ticket("u")); err != nil {
				x.Fail("a creation fails because another caller leaves: %v", err)
			}
		}),
		x.Go("caller", func() { x.Sleep(at); cancel() }),
	}
	if !x.JoinWithin(patience, ts...) {
		x.Fail("a request does not complete when a caller leaves")
	}
	x.Quiet(true)
	cancel()
	w.resources(live)
	w.probe()
	x.Outcome("ok")
}

// bulk: many large requests at once.
func bulk(storage string) func(x *vrt.X) {
	return func(x *vrt.X) {
		x.Quiet(true)
		over := map[string]any{
			"OM_CACHE_OUT_MAX_QUEUE_THRESHOLD": []int{1, 7, 50, 1000}[x.Choose(4, "batch")],
			"OM_CACHE_IN_MAX_UPDATES_PER_POLL": []int{1, 10, 10000}[x.Choose(3, "poll")],
		}
		w, _ := world18(x, storage, over)
		live := len(x.Live())
		var ts []*vrt.Task
		start := elapsed()
		for i := 0; i < 4; i++ {
			i := i
			ts = append(ts, x.Go("bulk", func() {
				var l []string
				for j := 0; j < 60; j++ {
					l = append(l, fmt.Sprintf("%d-%d", 1_700_000_000_000+int64(i), j))
				}
				if e := w.activate(l...); e != nil {
					x.Fail("activation of 60 tickets: %v", e)
				}
				if e := w.deactivate(l...); e != nil {
					x.Fail("deactivation of 60 tickets: %v", e)
				}
				if e := w.assign("c", l...); e != nil {
					x.Fail("assignment of 60 tickets: %v", e)
				}
			}))
		}
		for i := 0; i < 30; i++ {
			ts = append(ts, x.Go("create", func() { w.mustCreate(ticket("t")) }))
		}
		if !x.JoinWithin(10*time.Minute, ts...) {
			x.Fail("a request does not complete")
		}
		took := elapsed() - start
		x.Sleep(4 * time.Minute) // a poll of one update each 200 ms
		w.resources(live)
		w.probe()
		x.Outcome("%v", took.Round(time.Second))
	}
}

// long: more requests than any pool holds, with the default configuration.
func long(x *vrt.X) {
	x.Quiet(true)
	c := map[string]any{"OM_CACHE_TICKET_TTL_SECS": 6000}
	w := newWorld(x, opts{storage: "redis", cfg: c})
	id := w.mustCreate(ticket("t"))
	live := len(x.Live())
	kind := kinds18[[]int{0, 2, 5, 8}[x.Choose(4, "kind")]]
	for i := 0; i < 1200; i++ {
		t := x.Go(kind.name, func() { kind.do(w, bg(), []string{id}) })
		if !x.JoinWithin(patience, t) {
			x.Fail("request %d, %s, does not complete", i+1, kind.name)
		}
	}
	if w.redis.Open > 4 {
		x.Fail("%d connections to Redis are open", w.redis.Open)
	}
	w.resources(live)
	w.probe()
	x.Outcome("ok")
}

// hung: a function that hangs, and watches that wait, hold up nobody else.
func hung(storage string) func(x *vrt.X) {
	return func(x *vrt.X) {
		x.Quiet(true)
		w, ids := world18(x, storage, map[string]any{"OM_REDIS_POOL_MAX_ACTIVE": 1, "OM_MMF_TIMEOUT_SECS": 500})
		live := len(x.Live())
		var hungs []*vrt.Task
		for i := 0; i < 3; i++ {
			hungs = append(hungs, x.Go("hung", func() { kinds18[9].do(w, bg(), ids) }))
		}
		ctx, cancel := context.WithCancel(bg())
		hungs = append(hungs, x.Go("watch", func() { w.watch(&respStream{ctx: ctx}, ids[1]) }))
		x.Quiet(false)
		for _, k := range []int{0, 2, 4, 7} {
			k := kinds18[k]
			t := x.Go(k.name, func() { k.do(w, bg(), ids[:1]) })
			if !x.JoinWithin(20*time.Second, t) {
				x.Fail("%s is held up by functions that hang", k.name)
			}
		}
		x.Quiet(true)
		cancel()
		if !x.JoinWithin(600*time.Second, hungs...) {
			x.Fail("functions that hang are not cut off")
		}
		w.resources(live)
		w.probe()
		x.Outcome("ok")
	}
}

func init() {
	reg := func(name, doc string, quick, thorough, shards int, body func(*vrt.X)) {
		vrt.Register(vrt.Scenario{Prop: "C18", Name: name, Doc: doc, Quick: quick, Thorough: thorough, Shards: shards, TShards: 8, MaxSteps: 500_000_000, MaxTime: 100 * time.Hour, Body: body})
	}
	one := map[string]any{"OM_REDIS_POOL_MAX_ACTIVE": 1, "OM_REDIS_POOL_MAX_IDLE": 1}
	two := map[string]any{"OM_REDIS_POOL_MAX_ACTIVE": 2, "OM_REDIS_POOL_MAX_IDLE": 0}
	reg("history.fake", "every pair of 10 kinds of requests, repeated 4 times", 0, 0, 2, repeated("fake", 2, 4, nil))
	reg("history.memory", "every pair of 10 kinds of requests, repeated 3 times, memory storage", 0, 0, 2, repeated("memory", 2, 3, nil))
	reg("history.redis1", "every pair of 10 kinds of requests, repeated 4 times, Redis, pools of one connection", 0, 0, 4, repeated("redis", 2, 4, one))
	reg("history.redis2", "each of 10 kinds of requests 12 times, Redis, pools of two connections, none kept", 0, 0, 1, repeated("redis", 1, 12, two))
	reg("mix1", "6 requests of different kinds at once, batches of 1, 2, 3, 50, polls of 1, 3, 100", 1, 2, 8, mix("fake", []int{0, 2, 4, 5, 7}, nil))
	reg("mix2", "other requests at once", 1, 2, 4, mix("fake", []int{0, 0, 0, 3, 6, 8, 9}, nil))
	reg("mix.memory", "requests of different kinds at once, memory storage", 1, 2, 4, mix("memory", []int{0, 2, 4, 5, 6, 7, 8}, nil))
	reg("mix.redis", "requests of different kinds at once, Redis, pools of one connection", 1, 2, 4, mix("redis", []int{0, 2, 4, 5, 6, 7, 8}, one))
	reg("erring", "4 requests at once, the storage rejects all, every other, only or all but deactivations", 1, 2, 8, erring)
	reg("broken", "6 requests in turn, Redis connections lost at any write or refused, pools of one connection", 3, 4, 8, faultyRedis(vredis.Faults{Write: true, Dial: true}, 1))
	reg("rejected", "6 requests in turn, Redis rejects any update, pools of one connection", 3, 4, 4, faultyRedis(vredis.Faults{Reject: true}, 1))
	reg("broken2", "6 requests in turn, Redis reads and writes break, pools of two connections", 2, 3, 4, faultyRedis(vredis.Faults{Write: true, Read: true, Reject: true}, 2))
	reg("abandoned", "the caller leaves while updates are queued", 2, 3, 8, abandoned)
	for _, s := range []string{"fake", "memory", "redis"} {
		reg("bulk."+s, "720 updates and 30 creations by 34 callers, batches of 1 to 1000, polls of 1 to 10000, "+s+" storage", 0, 0, 4, bulk(s))
		reg("hung."+s, "requests while three functions hang and a watch waits, "+s+" storage", 1, 2, 1, hung(s))
	}
	vrt.Register(vrt.Scenario{Prop: "C18", Name: "long", Doc: "1200 requests with the default configuration and Redis", Shards: 4, TShards: 4, MaxSteps: 500_000_000, MaxTime: 100 * time.Hour, Body: long})
}
