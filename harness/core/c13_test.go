package main

import (
	"fmt"
	"math"
	"strings"
	"time"
	context "verif.local/vrt/vctx"

	"google.golang.org/protobuf/types/known/anypb"
	"google.golang.org/protobuf/types/known/timestamppb"
	pb "open-match.dev/pkg/pb/v2"
	"verif.local/vrt"
)

// C13: no request or MMF behaviour can crash the server.  That nothing panics,
// exits, deadlocks or uses a map from two goroutines at once is checked by the
// runtime in every execution.

// oddIDs are ticket ids a client may send.
func oddIDs(ids []string) [][]string {
	return [][]string{
		nil, {""}, {"abc"}, {"-"}, {"-1-1"}, {"99999999999999999999-1"}, {"0x10-1"}, {"1-1\n"}, {"\x00", "日本-1"},
		{ids[0]}, {ids[0], ids[0], ids[0]}, {"0-0"}, {"9223372036854775807-0"}, {"9000000000000000-1"}, {ids[0], "", ids[1]}, {strings.Repeat("9", 4000) + "-1"},
	}
}

type call struct {
	name string
	do   func(w *world, ctx context.Context) error
}

func nowhere() *pb.MatchmakingFunctionSpec {
	return &pb.MatchmakingFunctionSpec{Host: "nowhere", Port: 1}
}

// oddCalls are requests of all kinds.
func oddCalls(ids []string) []call {
	var cs []call
	create := func(n string, t *pb.Ticket) {
		cs = append(cs, call{"create " + n, func(w *world, ctx context.Context) error {
			_, e := w.srv.CreateTicket(ctx, &pb.CreateTicketRequest{Ticket: t})
			return e
		}})
	}
	create("nothing", nil)
	create("empty", &pb.Ticket{})
	create("with an id", &pb.Ticket{Id: "mine", Attributes: &pb.Ticket_FilterableData{}})
	create("bad times", &pb.Ticket{ExpirationTime: &timestamppb.Timestamp{Nanos: -1}, Attributes: &pb.Ticket_FilterableData{CreationTime: &timestamppb.Timestamp{Seconds: math.MaxInt64, Nanos: math.MaxInt32}}})
	create("first second", &pb.Ticket{ExpirationTime: &timestamppb.Timestamp{Seconds: -62135596800}, Attributes: &pb.Ticket_FilterableData{CreationTime: &timestamppb.Timestamp{Seconds: -62135596800}}})
	create("last second", &pb.Ticket{ExpirationTime: &timestamppb.Timestamp{Seconds: 253402300799}, Attributes: &pb.Ticket_FilterableData{CreationTime: &timestamppb.Timestamp{Seconds: 253402300799, Nanos: 999999999}}})
	create("odd data", &pb.Ticket{Extensions: map[string]*anypb.Any{"": {}, "x": {TypeUrl: "no/such.Type", Value: []byte{255}}}, Attributes: &pb.Ticket_FilterableData{
		Tags: []string{"", "", "t"}, StringArgs: map[string]string{"": ""}, DoubleArgs: map[string]float64{"": math.NaN(), "i": math.Inf(1)}}})
	for i, l := range oddIDs(ids) {
		n, l := fmt.Sprint(i), l
		cs = append(cs,
			call{"activate " + n, func(w *world, ctx context.Context) error {
				_, e := w.srv.ActivateTickets(ctx, &pb.ActivateTicketsRequest{TicketIds: l})
				return e
			}},
			call{"deactivate " + n, func(w *world, ctx context.Context) error {
				_, e := w.srv.DeactivateTickets(ctx, &pb.DeactivateTicketsRequest{TicketIds: l})
				return e
			}},
			call{"assign " + n, func(w *world, ctx context.Context) error {
				r := &pb.Roster{Assignment: &pb.Assignment{Connection: "c"}}
				for _, id := range l {
					r.Tickets = append(r.Tickets, &pb.Ticket{Id: id})
				}
				_, e := w.srv.CreateAssignments(ctx, &pb.CreateAssignmentsRequest{AssignmentRoster: r})
				return e
			}},
			call{"watch " + n, func(w *world, ctx context.Context) error {
				return w.watch(&respStream{ctx: ctx}, l...)
			}})
	}
	assign := func(n string, r *pb.Roster) {
		cs = append(cs, call{"assign " + n, func(w *world, ctx context.Context) error {
			_, e := w.srv.CreateAssignments(ctx, &pb.CreateAssignmentsRequest{AssignmentRoster: r})
			return e
		}})
	}
	assign("no roster", nil)
	assign("empty roster", &pb.Roster{})
	assign("no assignment", &pb.Roster{Tickets: []*pb.Ticket{{Id: ids[0]}}})
	assign("empty assignment", &pb.Roster{Assignment: &pb.Assignment{}, Tickets: []*pb.Ticket{{Id: ids[0]}}})
	assign("extensions", &pb.Roster{Assignment: &pb.Assignment{Extensions: map[string]*anypb.Any{"": {}}}, Tickets: []*pb.Ticket{{Id: ids[0]}, {}}})
	inv := func(n string, prof *pb.Profile, specs ...*pb.MatchmakingFunctionSpec) {
		cs = append(cs, call{"invoke " + n, func(w *world, ctx context.Context) error {
			_, e := w.invoke(ctx, &pb.MmfRequest{Profile: prof, Mmfs: specs})
			return e
		}})
	}
	inv("nothing", nil)
	inv("no functions", everyone())
	inv("no profile", nil, nowhere())
	inv("empty profile", &pb.Profile{}, nowhere())
	inv("empty function", everyone(), &pb.MatchmakingFunctionSpec{})
	inv("rest", everyone(), &pb.MatchmakingFunctionSpec{Host: "x", Type: pb.MatchmakingFunctionSpec_REST}, nowhere())
	inv("unknown type", everyone(), &pb.MatchmakingFunctionSpec{Host: "x", Type: 99, Port: -5})
	inv("same function twice", everyone(), nowhere(), nowhere())
	odd := func(n string, p *pb.Pool) {
		inv("pool "+n, &pb.Profile{Name: "", Pools: map[string]*pb.Pool{"": p, "all": {}}, Extensions: map[string]*anypb.Any{"": {}}}, nowhere())
	}
	odd("empty", &pb.Pool{})
	odd("empty filters", &pb.Pool{DoubleRangeFilters: []*pb.Pool_DoubleRangeFilter{{}}, StringEqualsFilters: []*pb.Pool_StringEqualsFilter{{}}, TagPresentFilters: []*pb.Pool_TagPresentFilter{{}}})
	odd("creation filter", &pb.Pool{CreationTimeRangeFilter: &pb.Pool_CreationTimeRangeFilter{}})
	odd("bad start", &pb.Pool{CreationTimeRangeFilter: &pb.Pool_CreationTimeRangeFilter{Start: &timestamppb.Timestamp{Nanos: -1}}})
	odd("bad end", &pb.Pool{CreationTimeRangeFilter: &pb.Pool_CreationTimeRangeFilter{Start: timestamppb.New(time.Unix(1, 0)), End: &timestamppb.Timestamp{Seconds: math.MaxInt64}}})
	odd("backwards", &pb.Pool{CreationTimeRangeFilter: &pb.Pool_CreationTimeRangeFilter{Start: timestamppb.New(time.Unix(9, 0)), End: timestamppb.New(time.Unix(1, 0))}})
	odd("NaN", &pb.Pool{DoubleRangeFilters: []*pb.Pool_DoubleRangeFilter{{DoubleArg: "d", Minimum: math.NaN(), Maximum: math.Inf(-1)}}})
	odd("participants", &pb.Pool{Participants: &pb.Roster{Tickets: []*pb.Ticket{{Id: "x"}, {}}}})
	return cs
}

// probe checks that requests are served normally.
func (w *world) probe() {
	x := w.x
	stage := "start"
	t := x.Go("probe", func() {
		stage = "create"
		id := w.mustCreate(ticket("probe"))
		stage = "activate"
		if err := w.activate(id); err != nil {
			x.Fail("after all this, activation fails: %v", err)
		}
		w.settle()
		stage = "pools"
		prof := &pb.Profile{Name: "p", Pools: map[string]*pb.Pool{"p": {Name: "p", TagPresentFilters: []*pb.Pool_TagPresentFilter{{Tag: "probe"}}}}}
		if got := ids(w.pools(prof)["p"]); !same(got, []string{id}) {
			x.Fail("after all this, an active ticket is not the one in its pool: %v", got)
		}
		stage = "match"
		f := w.function(zzScript{matches: []*pb.Match{match("probe", id)}})
		s, err := w.invoke(bg(), request1([]*function{f}, prof))
		if err != nil || len(s.got) != 1 {
			x.Fail("after all this, a matching function's match does not arrive: %v, %v", s.got, err)
		}
		stage = "deactivated"
		if got := ids(w.pools(prof)["p"]); len(got) != 0 {
			x.Fail("after all this, a matched ticket is still in a pool: %v", got)
		}
		stage = "assign"
		if err := w.assign("server", id); err != nil {
			x.Fail("after all this, assignment fails: %v", err)
		}
		stage = "watch"
		ws := &respStream{ctx: bg()}
		if err := w.watch(ws, id); err != nil || len(ws.watch) != 1 || ws.watch[0].GetAssignment().GetConnection() != "server" {
			x.Fail("after all this, watching gives %v, %v", ws.watch, err)
		}
		if err := w.deactivate(id); err != nil {
			x.Fail("after all this, deactivation fails: %v", err)
		}
	})
	if !x.JoinWithin(300*time.Second, t) {
		x.Fail("after all this, a request does not return (%s)", stage)
	}
}

func world13(x *vrt.X, storage string) (*world, []string) {
	if storage == "fake" {
		w, _, ids := prepared(x, 2, map[string]any{"OM_CACHE_OUT_MAX_QUEUE_THRESHOLD": 2})
		return w, ids
	}
	c := fast(map[string]any{"OM_CACHE_OUT_MAX_QUEUE_THRESHOLD": 2})
	w := newWorld(x, opts{storage: storage, cfg: c})
	if storage == "redis" {
		w.secondInstance(c, nil)
	}
	a, b := w.mustCreate(ticket("t")), w.mustCreate(ticket("t"))
	if err := w.activate(a, b); err != nil {
		x.Fail("activation failed on healthy storage: %v", err)
	}
	w.settle()
	return w, []string{a, b}
}

// requests: every request of oddCalls, then a probe.
func oddRequests(storage string) func(x *vrt.X) {
	return func(x *vrt.X) {
		x.Quiet(true)
		w, ids := world13(x, storage)
		cs := oddCalls(ids)
		c := cs[x.Choose(len(cs), "request")]
		ctx, cancel := context.WithCancel(bg())
		x.Go("caller", func() { x.Sleep(150 * time.Second); cancel() })
		x.Quiet(false)
		t := x.Go(c.name, func() { x.Logf("%s: %v", c.name, c.do(w, ctx)) })
		if !x.JoinWithin(200*time.Second, t) {
			x.Fail("%s does not return", c.name)
		}
		w.probe()
		x.Outcome("ok")
	}
}

// pairs: every pair of requests at once, then a probe.
func pairs(storage string) func(x *vrt.X) {
	return func(x *vrt.X) {
		x.Quiet(true)
		w, ids := world13(x, storage)
		cs := oddCalls(ids)
		i := x.Choose(len(cs), "request")
		j := x.Choose(len(cs), "request")
		if j < i {
			return
		}
		ctx, cancel := context.WithCancel(bg())
		x.Go("caller", func() { x.Sleep(150 * time.Second); cancel() })
		x.Quiet(false)
		a := x.Go(cs[i].name, func() { cs[i].do(w, ctx) })
		b := x.Go(cs[j].name, func() { cs[j].do(w, ctx) })
		if !x.JoinWithin(200*time.Second, a, b) {
			x.Fail("%s and %s do not both return", cs[i].name, cs[j].name)
		}
		x.Quiet(true)
		w.probe()
		x.Outcome("ok")
	}
}

// leave: the caller goes away at any point of a request.
func leave(storage string) func(x *vrt.X) {
	return func(x *vrt.X) {
		x.Quiet(true)
		w, ids := world13(x, storage)
		// as the instrumented context package knows contexts
		ctx, cancel := context.WithCancel(bg())
		f := w.function(zzScript{matches: []*pb.Match{match("a", ids[0]), match("b", ids[1])}, delay: time.Second})
		kinds := []call{
			{"create", func(w *world, ctx context.Context) error { _, e := w.create(ctx, ticket("t")); return e }},
			{"activate", func(w *world, ctx context.Context) error {
				_, e := w.srv.ActivateTickets(ctx, &pb.ActivateTicketsRequest{TicketIds: ids})
				return e
			}},
			{"deactivate", func(w *world, ctx context.Context) error {
				_, e := w.srv.DeactivateTickets(ctx, &pb.DeactivateTicketsRequest{TicketIds: []string{ids[0], "bad", ids[1]}})
				return e
			}},
			{"assign", func(w *world, ctx context.Context) error {
				r := &pb.Roster{Assignment: &pb.Assignment{Connection: "c"}, Tickets: []*pb.Ticket{{Id: ids[0]}, {Id: ids[1]}}}
				_, e := w.srv.CreateAssignments(ctx, &pb.CreateAssignmentsRequest{AssignmentRoster: r})
				return e
			}},
			{"watch", func(w *world, ctx context.Context) error { return w.watch(&respStream{ctx: ctx}, ids...) }},
			{"invoke", func(w *world, ctx context.Context) error {
				_, e := w.invoke(ctx, request1([]*function{f}, everyone()))
				return e
			}},
		}
		c := kinds[x.Choose(len(kinds), "request")]
		d := []time.Duration{0, 50 * time.Millisecond, 1100 * time.Millisecond, 2500 * time.Millisecond}[x.Choose(4, "leaves after")]
		if c.name == "watch" {
			switch x.Choose(3, "assigned") {
			case 1:
				w.assign("c", ids...)
				w.settle()
			case 2:
				x.Go("assigner", func() { x.Sleep(d - 400*time.Millisecond); w.assign("c", ids...) })
			}
		}
		x.Quiet(false)
		a := x.Go(c.name, func() { c.do(w, ctx) })
		x.Go("caller", func() { x.Sleep(d); cancel() })
		if !x.JoinWithin(200*time.Second, a) {
			x.Fail("%s does not return after its caller has gone", c.name)
		}
		x.Quiet(true)
		cancel()
		w.probe()
		x.Outcome("ok")
	}
}

// oddMatches are what a function may answer.
func oddMatches(ids []string) []*pb.Match {
	ms := []*pb.Match{
		nil,
		{},
		{Id: "no rosters", Extensions: map[string]*anypb.Any{"": {}}},
		{Id: "empty roster", Rosters: map[string]*pb.Roster{"": {}}},
		{Id: "empty ticket", Rosters: map[string]*pb.Roster{"r": {Tickets: []*pb.Ticket{{}}}, "s": {Tickets: []*pb.Ticket{{}, {Id: ids[0]}}}}},
		match("", ids...),
		match("big", append(strings.Split(strings.Repeat("x,", 300), ","), ids...)...),
		{Id: strings.Repeat("4MiB", 1100*1000)},
	}
	for _, l := range oddIDs(ids)[1:] {
		ms = append(ms, match("odd", l...))
	}
	return ms
}

// answers: a function answers anything, ends in any way; wait on or off.
func answers(storage string, pair bool) func(x *vrt.X) {
	return func(x *vrt.X) {
		x.Quiet(true)
		w, ids := world13(x, storage)
		cfg.Set("OM_MATCH_TICKET_DEACTIVATION_WAIT", x.Choose(2, "wait") == 1)
		ms := oddMatches(ids)
		sc := zzScript{matches: []*pb.Match{ms[x.Choose(len(ms), "match")]}}
		if pair {
			sc.matches = append(sc.matches, ms[x.Choose(len(ms), "match")])
		}
		ends := []mmfEnd{endOK, endError, endHang, endEarly}
		sc.end = ends[x.Choose(len(ends), "end")]
		f := w.function(sc)
		ctx, cancel := context.WithCancel(bg())
		if x.Choose(2, "caller leaves") == 1 {
			f.delay = 300 * time.Millisecond
			x.Go("caller", func() { x.Sleep(200 * time.Millisecond); cancel() })
		}
		x.Quiet(false)
		a := x.Go("invoke", func() {
			w.invoke(ctx, request1([]*function{f, w.function(zzScript{matches: []*pb.Match{match("other", ids[1])}})}, everyone()))
		})
		if !x.JoinWithin(200*time.Second, a) {
			x.Fail("the invocation does not return")
		}
		x.Quiet(true)
		cancel()
		w.probe()
		x.Outcome("ok")
	}
}

// crowd: one request of each kind at once, some callers leave.
func crowd(storage string) func(x *vrt.X) {
	return func(x *vrt.X) {
		x.Quiet(true)
		w, ids := world13(x, storage)
		ctx, cancel := context.WithCancel(bg())
		f := w.function(zzScript{matches: []*pb.Match{match("a", ids[0]), nil}, end: endError})
		x.Quiet(false)
		ts := []*vrt.Task{
			x.Go("create", func() { w.create(ctx, ticket("t")) }),
			x.Go("activate", func() { w.activate(ids[0], "bad") }),
			x.Go("watch", func() { w.watch(&respStream{ctx: ctx}, ids[1], "x") }),
			x.Go("assign", func() { w.assign("c", ids[1], "x") }),
			x.Go("invoke", func() { w.invoke(ctx, request1([]*function{f}, everyone())) }),
			x.Go("pools", func() { w.activeIDs() }),
			x.Go("caller", func() { cancel() }),
		}
		if !x.JoinWithin(300*time.Second, ts...) {
			x.Fail("some request does not return")
		}
		x.Quiet(true)
		w.probe()
		x.Outcome("ok")
	}
}

func init() {
	reg := func(name, doc string, quick, thorough, shards int, body func(*vrt.X)) {
		vrt.Register(vrt.Scenario{Prop: "C13", Name: name, Doc: doc, Quick: quick, Thorough: thorough, Shards: shards, TShards: 8, Races: true, Body: body})
	}
	for i, s := range []string{"fake", "memory", "redis"} {
		q := []int{1, 0, 0}[i]
		reg("requests."+s, "each of some 90 requests of every kind, then a full ticket life, "+s+" storage", q, 1+q, 4, oddRequests(s))
		reg("leave."+s, "the caller leaves at any point of a request, then a full ticket life, "+s+" storage", q, 1+q, 8, leave(s))
		reg("answers."+s, "every MMF answer and end, both wait settings, then a full ticket life, "+s+" storage", 0, q, 4, answers(s, false))
		reg("crowd."+s, "requests of each kind at once, "+s+" storage", 1, 1+q, 8, crowd(s))
	}
	reg("pairs", "every pair of some 90 requests at once, then a full ticket life", 0, 1, 8, pairs("fake"))
	reg("answerpairs", "every pair of MMF answers, every end, both wait settings, then a full ticket life", 0, 1, 8, answers("fake", true))
}
