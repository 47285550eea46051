package main

import (
	"errors"
	"fmt"
	"strings"
	"time"
	context "verif.local/vrt/vctx"

	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/anypb"
	pb "open-match.dev/pkg/pb/v2"
	"verif.local/vrt"
)

// C16: assignment watchers get each assignment exactly once, and end.

// given is an assignment made for an id; times count from the start of the watch.
type given struct {
	a  *pb.Assignment
	at time.Duration
}

func assignment(conn string) *pb.Assignment {
	return &pb.Assignment{Connection: conn, Extensions: map[string]*anypb.Any{"of": {TypeUrl: "x", Value: []byte(conn)}}}
}

func (w *world) give(a *pb.Assignment, ids ...string) error {
	r := &pb.Roster{Name: "r", Assignment: a}
	for _, id := range ids {
		r.Tickets = append(r.Tickets, &pb.Ticket{Id: id})
	}
	_, err := w.srv.CreateAssignments(bg(), &pb.CreateAssignmentsRequest{AssignmentRoster: r})
	return err
}

// watched checks what a watch has delivered.
func watched(x *vrt.X, s *respStream, ids []string, made map[string][]given, all bool) {
	seen := map[string]bool{}
	for _, r := range s.watch {
		id := r.GetId()
		if seen[id] {
			x.Fail("the watch delivered the assignment of %s twice", id)
		}
		seen[id] = true
		if len(made[id]) == 0 {
			x.Fail("the watch delivered an assignment of %q, which has none", id)
		}
		ok := false
		for _, g := range made[id] {
			if proto.Equal(r.GetAssignment(), g.a) {
				ok = true
			}
		}
		if !ok {
			x.Fail("the watch delivered %v for %s, made were %v", r.GetAssignment(), id, made[id])
		}
	}
	if all {
		for _, id := range ids {
			if len(made[id]) > 0 && !seen[id] {
				x.Fail("the watch did not deliver the assignment of %s", id)
			}
		}
	}
}

func world16(x *vrt.X, storage string, n int, over map[string]any) (*world, []string) {
	if storage == "fake" {
		w, _, ids := prepared(x, n, over)
		return w, ids
	}
	c := fast(over)
	w := newWorld(x, opts{storage: storage, cfg: c})
	var ids []string
	for i := 0; i < n; i++ {
		ids = append(ids, w.mustCreate(ticket("t")))
	}
	w.settle()
	return w, ids
}

// quietAgain checks that nothing of a watch is left after it has ended.
func quietAgain(x *vrt.X, before int) {
	x.Sleep(3 * time.Second)
	if l := x.Live(); len(l) > before {
		x.Fail("%d goroutines are left after the watch has ended: %v", len(l)-before, l)
	}
}

// times: assignments before, during and after the watch, or never.
func times(storage string, n int) func(x *vrt.X) {
	return func(x *vrt.X) {
		x.Quiet(true)
		w, ids := world16(x, storage, n, nil)
		made := map[string][]given{}
		var late []int
		last := time.Duration(0)
		never := false
		for i, id := range ids {
			a := assignment(fmt.Sprint("server", i))
			switch k := x.Choose(5, "assigned"); k {
			case 0: // before
				if err := w.give(a, id); err != nil {
					x.Fail("assignment failed: %v", err)
				}
				made[id] = append(made[id], given{a, 0})
			case 1, 2, 3:
				d := []time.Duration{0, 0, 1300 * time.Millisecond, 20 * time.Second}[k]
				made[id] = append(made[id], given{a, d})
				late = append(late, i)
				last = max(last, d)
			case 4:
				never = true
			}
		}
		w.settle()
		before := len(x.Live())
		start := elapsed()
		s := &respStream{ctx: bg()}
		x.Quiet(false)
		var ts []*vrt.Task
		for _, i := range late {
			id := ids[i]
			g := made[id][0]
			ts = append(ts, x.Go("assign", func() { x.Sleep(g.at); w.give(g.a, id) }))
		}
		t := x.Go("watch", func() { w.watch(s, ids...) })
		if !x.JoinWithin(62*time.Second, t) {
			x.Fail("the watch does not end")
		}
		took := elapsed() - start
		x.Quiet(true)
		x.Join(ts...)
		watched(x, s, ids, made, true)
		lag := 100*time.Millisecond + 2*w.poll + 2*time.Second
		switch {
		case !never && took > last+lag:
			x.Fail("the last assignment was made %v after the start of the watch, which ended after %v", last, took)
		case never && took < w.ttl-2*time.Second:
			x.Fail("the watch ended after %v although an assignment is missing and tickets live for %v", took, w.ttl)
		}
		for i, r := range s.watch {
			if d := s.at[i] - start - made[r.GetId()][0].at; d > lag {
				x.Fail("an assignment was delivered %v after it was made", d)
			}
		}
		quietAgain(x, before)
		x.Outcome("%d after %v", len(s.watch), took.Round(time.Second))
	}
}

// again: assignments that are replaced.
func replaced(x *vrt.X) {
	x.Quiet(true)
	w, ids := world16(x, "fake", 2, nil)
	a, b, c := assignment("first"), assignment("second"), assignment("third")
	made := map[string][]given{ids[0]: {{b, 0}}, ids[1]: {{b, 0}, {c, 0}}}
	if w.give(a, ids...) != nil || w.give(b, ids...) != nil {
		x.Fail("assignment failed")
	}
	w.settle()
	before := len(x.Live())
	s := &respStream{ctx: bg()}
	x.Quiet(false)
	t := x.Go("assign", func() { w.give(c, ids[1]) })
	w.watch(s, ids...)
	x.Join(t)
	x.Quiet(true)
	watched(x, s, ids, made, true)
	w.settle()
	s = &respStream{ctx: bg()}
	w.watch(s, ids[1])
	watched(x, s, ids[1:], map[string][]given{ids[1]: {{c, 0}}}, true)
	quietAgain(x, before)
	x.Outcome("ok")
}

// contents: assignments of every shape, made before or during the watch, and
// replaced by another before it.
func contents(storage string) func(x *vrt.X) {
	return func(x *vrt.X) {
		x.Quiet(true)
		w, ids := world16(x, storage, 2, nil)
		ext := func(v string) map[string]*anypb.Any {
			return map[string]*anypb.Any{"of": {TypeUrl: "x", Value: []byte(v)}}
		}
		shapes := []*pb.Assignment{
			assignment("both"),
			{Connection: "conn"},
			{Extensions: ext("only")},
			{Extensions: map[string]*anypb.Any{"": {}}},
			{Connection: " "},
			{Connection: strings.Repeat("long ", 20000), Extensions: ext("")},
			{Connection: "\x00\n\"é$-1\r\n*0\r\n", Extensions: map[string]*anypb.Any{"a": {TypeUrl: "\r\n", Value: []byte{0, 255, 13, 10}}, "b": {}}},
			{},
		}
		made := map[string][]given{}
		give := func(a *pb.Assignment, id string) {
			if err := w.give(a, id); err != nil {
				if proto.Size(a) == 0 {
					return // refused by Redis, accepted by others
				}
				x.Fail("assignment %v failed: %v", a, err)
			}
			w.settle()
			made[id] = []given{{a, 0}}
		}
		a, b, c := x.Choose(len(shapes), "first"), x.Choose(len(shapes), "then"), x.Choose(len(shapes), "other")
		give(shapes[a], ids[0])
		give(shapes[b], ids[0])
		before := len(x.Live())
		s := &respStream{ctx: bg()}
		t := x.Go("watch", func() { w.watch(s, ids...) })
		x.Sleep(100 * time.Millisecond)
		give(shapes[c], ids[1])
		if !x.JoinWithin(62*time.Second, t) {
			x.Fail("the watch does not end")
		}
		watched(x, s, ids, made, true)
		quietAgain(x, before)
		x.Outcome("%d", len(s.watch))
	}
}

// several watches of the same and other tickets at once.
func several(storage string) func(x *vrt.X) {
	return func(x *vrt.X) {
		x.Quiet(true)
		w, ids := world16(x, storage, 3, map[string]any{"OM_CACHE_OUT_MAX_QUEUE_THRESHOLD": 2})
		made := map[string][]given{}
		for i, id := range ids {
			made[id] = []given{{assignment(fmt.Sprint("server", i)), 0}}
		}
		first := x.Choose(3, "made before")
		for _, id := range ids[:first] {
			w.give(made[id][0].a, id)
		}
		w.settle()
		before := len(x.Live())
		sets := [][]string{{ids[0], ids[1], ids[2]}, {ids[2], ids[1]}, {ids[1]}}
		ss := make([]*respStream, len(sets))
		var ts []*vrt.Task
		x.Quiet(false)
		for i, set := range sets {
			i, set := i, set
			ss[i] = &respStream{ctx: bg()}
			ts = append(ts, x.Go("watch", func() { w.watch(ss[i], set...) }))
		}
		for _, id := range ids[first:] {
			w.give(made[id][0].a, id)
		}
		if !x.JoinWithin(20*time.Second, ts...) {
			x.Fail("a watch does not end though all assignments are made")
		}
		x.Quiet(true)
		for i, set := range sets {
			if len(ss[i].watch) != len(set) {
				x.Fail("watch %d delivered %d assignments of %d", i, len(ss[i].watch), len(set))
			}
			for _, r := range ss[i].watch {
				mine := false
				for _, id := range set {
					mine = mine || id == r.GetId()
				}
				if !mine {
					x.Fail("watch %d delivered an assignment of %s, which it does not watch", i, r.GetId())
				}
			}
			watched(x, ss[i], set, made, true)
		}
		quietAgain(x, before)
		x.Outcome("ok")
	}
}

// goneWatcher: the caller leaves, by cancelling or by a dead connection.
func goneWatcher(x *vrt.X) {
	x.Quiet(true)
	w, ids := world16(x, "fake", 3, nil)
	made := map[string][]given{}
	for i, id := range ids {
		made[id] = []given{{assignment(fmt.Sprint("server", i)), 0}}
	}
	w.give(made[ids[0]][0].a, ids[0])
	w.settle()
	before := len(x.Live())
	ctx, cancel := context.WithCancel(bg())
	s := &respStream{ctx: ctx}
	at := []time.Duration{0, 400 * time.Millisecond, 1400 * time.Millisecond, 30 * time.Second}[x.Choose(4, "leaves after")]
	dead := x.Choose(2, "how") == 1
	if dead {
		s.onSend = func(int) error { return errors.New("transport is closing") }
	}
	x.Quiet(false)
	t := x.Go("watch", func() { w.watch(s, ids...) })
	u := x.Go("assign", func() { x.Sleep(time.Second); w.give(made[ids[1]][0].a, ids[1]) })
	v := x.Go("caller", func() { x.Sleep(at); cancel() })
	if !x.JoinWithin(at+2*time.Second, t) {
		x.Fail("the watch does not end when its caller has gone")
	}
	x.Join(u, v)
	x.Quiet(true)
	watched(x, s, ids, made, false)
	if dead && len(s.watch) > 0 {
		x.Fail("harness")
	}
	quietAgain(x, before)
	// Others are not disturbed.
	w.give(made[ids[2]][0].a, ids[2])
	s2 := &respStream{ctx: bg()}
	t = x.Go("watch", func() { w.watch(s2, ids...) })
	if !x.JoinWithin(10*time.Second, t) {
		x.Fail("a later watch does not end")
	}
	watched(x, s2, ids, made, true)
	quietAgain(x, before)
	x.Outcome("%d", len(s.watch))
}

// timeouts: when watches of tickets of different age end.
func ages(storage string) func(x *vrt.X) {
	return func(x *vrt.X) {
		x.Quiet(true)
		w, _ := world16(x, storage, 0, nil)
		base := x.Now()
		var ids []string
		newest := time.Duration(0)
		for i := 0; i < 2; i++ {
			x.Sleep([]time.Duration{0, 10 * time.Second, 25 * time.Second}[x.Choose(3, "created after")])
			newest = x.Now().Sub(base)
			ids = append(ids, w.mustCreate(ticket("t")))
		}
		x.Sleep([]time.Duration{0, 20 * time.Second, 70 * time.Second}[x.Choose(3, "watched after")])
		start := x.Now().Sub(base)
		which := [][]string{ids, {ids[1], ids[0]}}[x.Choose(2, "order")]
		s := &respStream{ctx: bg()}
		before := len(x.Live())
		t := x.Go("watch", func() { w.watch(s, which...) })
		if !x.JoinWithin(w.ttl+time.Second, t) {
			x.Fail("the watch does not end a ticket's lifetime after it began")
		}
		end := x.Now().Sub(base)
		if len(s.watch) != 0 {
			x.Fail("assignments nobody made: %v", s.watch)
		}
		if end < newest+w.ttl-time.Second {
			x.Fail("the newest ticket was created at %v, a watch that began at %v ended at %v, within its lifetime", newest, start, end)
		}
		quietAgain(x, before)
		// An assignment after the end disturbs nobody.
		w.give(assignment("late"), ids...)
		quietAgain(x, before)
		x.Outcome("%v", end-start)
	}
}

// ahead: the storage's clock, which tickets' ids carry, runs behind or ahead
// of the instance's; the watch lasts as long as its newest ticket.
func ahead(x *vrt.X) {
	x.Quiet(true)
	w, _ := world16(x, "fake", 0, nil)
	now := x.Now()
	skews := []time.Duration{-20 * time.Second, 0, 7 * time.Second, 30 * time.Second}
	var ids []string
	newest := time.Duration(0)
	n := 2 + x.Choose(2, "tickets")
	for i := 0; i < n; i++ {
		d := skews[x.Choose(len(skews), "ahead by")]
		ids = append(ids, fmt.Sprintf("%d-%d", now.Add(d).UnixMilli(), i))
		newest = max(newest, d)
	}
	which := x.Choose(n+1, "assigned, shortly before the end") // n: none
	made := map[string][]given{}
	before := len(x.Live())
	start := elapsed()
	s := &respStream{ctx: bg()}
	t := x.Go("watch", func() { w.watch(s, ids...) })
	if which < n {
		x.Sleep(newest + w.ttl - 3*time.Second)
		a := assignment("server")
		if err := w.give(a, ids[which]); err != nil {
			x.Fail("assignment failed: %v", err)
		}
		made[ids[which]] = []given{{a, 0}}
	}
	if !x.JoinWithin(newest+w.ttl+2*time.Second, t) {
		x.Fail("the watch does not end when its newest ticket's lifetime is over")
	}
	if took := elapsed() - start; took < newest+w.ttl-time.Second {
		x.Fail("the watch of %v ended after %v, within the lifetime of its newest ticket", ids, took)
	}
	watched(x, s, ids, made, true)
	quietAgain(x, before)
	x.Outcome("%v %d", newest, which)
}

// many ids in one watch.
func manyWatched(x *vrt.X) {
	x.Quiet(true)
	n := []int{50, 400}[x.Choose(2, "ids")]
	w, ids := world16(x, "fake", n, map[string]any{"OM_CACHE_OUT_MAX_QUEUE_THRESHOLD": 50})
	made := map[string][]given{}
	before := len(x.Live())
	s := &respStream{ctx: bg()}
	t := x.Go("watch", func() { w.watch(s, ids...) })
	for i := 0; i < n; i += 25 {
		a := assignment(fmt.Sprint("server", i))
		for _, id := range ids[i : i+25] {
			made[id] = []given{{a, 0}}
		}
		if err := w.give(a, ids[i:i+25]...); err != nil {
			x.Fail("assignment failed: %v", err)
		}
		x.Sleep(300 * time.Millisecond)
	}
	if !x.JoinWithin(30*time.Second, t) {
		x.Fail("the watch does not end")
	}
	watched(x, s, ids, made, true)
	quietAgain(x, before)
	x.Outcome("%d", len(s.watch))
}

// few of many: a watch of many ids of which only one has an assignment, made
// before or during the watch.
func oneOfMany(x *vrt.X) {
	x.Quiet(true)
	n := []int{5, 20, 70, 300}[x.Choose(4, "ids")]
	w, ids := world16(x, "fake", n, map[string]any{"OM_CACHE_OUT_MAX_QUEUE_THRESHOLD": 50})
	which := []int{0, n / 3, n / 2, n - 2, n - 1}[x.Choose(5, "which")]
	after := []time.Duration{-1, 0, 5 * time.Second, 40 * time.Second}[x.Choose(4, "assigned after")]
	made := map[string][]given{}
	a := assignment("server")
	give := func() {
		if err := w.give(a, ids[which]); err != nil {
			x.Fail("assignment failed: %v", err)
		}
		made[ids[which]] = []given{{a, max(after, 0)}}
	}
	if after < 0 {
		give()
		w.settle()
	}
	before := len(x.Live())
	start := elapsed()
	s := &respStream{ctx: bg()}
	t := x.Go("watch", func() { w.watch(s, ids...) })
	if after >= 0 {
		x.Sleep(after)
		give()
	}
	if !x.JoinWithin(w.ttl+2*time.Second, t) {
		x.Fail("the watch does not end")
	}
	if took := elapsed() - start; took < w.ttl-2*time.Second {
		x.Fail("the watch of %d tickets of which one is assigned ended after %v", n, took)
	}
	watched(x, s, ids, made, true)
	if d := s.at[0] - start - max(after, 0); d > 100*time.Millisecond+2*w.poll+2*time.Second {
		x.Fail("an assignment was delivered %v after it was made", d)
	}
	quietAgain(x, before)
	x.Outcome("%d", len(s.watch))
}

func init() {
	reg := func(name, doc string, quick, thorough, shards int, body func(*vrt.X)) {
		vrt.Register(vrt.Scenario{Prop: "C16", Name: name, Doc: doc, Quick: quick, Thorough: thorough, Shards: shards, TShards: 8, Body: body})
	}
	reg("one", "one ticket assigned before, at 3 times during, or not", 2, 3, 4, times("fake", 1))
	reg("two", "two tickets, each assigned before, at 3 times during, or not", 1, 2, 8, times("fake", 2))
	reg("three", "three tickets likewise", 0, 1, 2, times("fake", 3))
	for _, s := range []string{"memory", "redis"} {
		reg("contents."+s, "assignments of all pairs of 8 shapes, replaced, before and during the watch, "+s+" storage", 0, 0, 2, contents(s))
		reg("two."+s, "two tickets likewise, "+s+" storage", 0, 1, 2, times(s, 2))
		reg("ages."+s, "tickets and watches of different age, "+s+" storage", 0, 0, 1, ages(s))
		reg("several."+s, "three watches at once, "+s+" storage", 0, 1, 1, several(s))
	}
	reg("ages", "tickets and watches of different age", 0, 0, 1, ages("fake"))
	reg("several", "three watches of overlapping tickets at once", 1, 2, 8, several("fake"))
	reg("replaced", "assignments replaced before and during the watch", 2, 3, 2, replaced)
	reg("gone", "the caller leaves at 4 times, by cancelling or with a dead connection", 1, 2, 8, goneWatcher)
	reg("ahead", "2-3 watched tickets whose ids are 20 s behind to 30 s ahead of the instance's clock, one of them assigned just before the end or none", 0, 0, 2, ahead)
	reg("oneofmany", "watches of 5 to 300 tickets one of which is assigned, before or at 3 times during the watch", 0, 0, 2, oneOfMany)
	reg("many", "watches of 50 and 400 tickets", 0, 0, 1, manyWatched)
}
