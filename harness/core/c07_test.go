package main

import (
	"fmt"
	"math"
	"time"

	"google.golang.org/protobuf/types/known/timestamppb"
	store "open-match.dev/core/internal/statestore/datatypes"
	pb "open-match.dev/pkg/pb/v2"
	"verif.local/vrt"
)

// filterCase evaluates pools against tickets through one or more invocations
// and compares every decision with want.
func filterCase(x *vrt.X, tickets []*pb.Ticket, pools []*pb.Pool, want func(*pb.Pool, *pb.Ticket) bool, bad func(p *pb.Pool, t *pb.Ticket, got bool)) {
	f := &fakeStore{}
	w := newWorld(x, opts{storage: "fake", fake: f, cfg: fast(nil)})
	var us []*store.StateUpdate
	byID := map[string]*pb.Ticket{}
	for i, t := range tickets {
		id := fid(0, i)
		us = append(us, upTicket(id, t, time.Hour), upAct(id))
		byID[id] = t
	}
	f.inject(us...)
	w.settle()
	const per = 400
	for from := 0; from < len(pools); from += per {
		part := pools[from:min(from+per, len(pools))]
		prof := &pb.Profile{Name: "filters", Pools: map[string]*pb.Pool{}}
		for i, p := range part {
			prof.Pools[fmt.Sprintf("pool%05d", i)] = p
		}
		got := w.pools(prof)
		for i, p := range part {
			in := map[string]int{}
			for _, t := range got[fmt.Sprintf("pool%05d", i)] {
				in[t.GetId()]++
			}
			for id, t := range byID {
				x.Count(1)
				n := in[id]
				if n > 1 {
					x.Fail("ticket %v is in pool %v %d times", t, p, n)
				}
				if (n == 1) != want(p, t) {
					bad(p, t, n == 1)
				}
			}
		}
	}
	x.Outcome("%d %d", len(tickets), len(pools))
}

// admits is the reference for double, string and tag filters.
func admits(p *pb.Pool, t *pb.Ticket) bool {
	a := t.GetAttributes()
	for _, f := range p.GetDoubleRangeFilters() {
		v, ok := a.GetDoubleArgs()[f.GetDoubleArg()]
		if !ok || math.IsNaN(v) || math.IsNaN(f.GetMinimum()) || math.IsNaN(f.GetMaximum()) {
			return false
		}
		b := f.GetBounds()
		if v < f.GetMinimum() || v > f.GetMaximum() {
			return false
		}
		if v == f.GetMinimum() && (b == pb.Pool_EXCLUDE_MIN || b == pb.Pool_EXCLUDE_BOTH) {
			return false
		}
		if v == f.GetMaximum() && (b == pb.Pool_EXCLUDE_MAX || b == pb.Pool_EXCLUDE_BOTH) {
			return false
		}
	}
	for _, f := range p.GetStringEqualsFilters() {
		v, ok := a.GetStringArgs()[f.GetStringArg()]
		if !ok || v != f.GetValue() {
			return false
		}
	}
	for _, f := range p.GetTagPresentFilters() {
		found := false
		for _, g := range a.GetTags() {
			found = found || g == f.GetTag()
		}
		if !found {
			return false
		}
	}
	return true
}

func wrongFilter(x *vrt.X) func(p *pb.Pool, t *pb.Ticket, got bool) {
	return func(p *pb.Pool, t *pb.Ticket, got bool) {
		if got {
			x.Fail("ticket {%v} does not satisfy pool {%v} but is in it", t, p)
		}
		x.Fail("ticket {%v} satisfies pool {%v} but is not in it", t, p)
	}
}

func doubles(x *vrt.X) {
	x.Quiet(true)
	inf, nan := math.Inf(1), math.NaN()
	vals := []float64{-inf, -math.MaxFloat64, -1.5, -1, math.Nextafter(-1, 0), -math.SmallestNonzeroFloat64, math.Copysign(0, -1), 0, math.SmallestNonzeroFloat64, 0.1, 0.1 + 0.2, 0.3, math.Nextafter(1, 0), 1, math.Nextafter(1, 2), 1.5, 16777216, 16777217, 9007199254740993, math.MaxFloat64, inf, nan}
	var tickets []*pb.Ticket
	for _, v := range vals {
		tickets = append(tickets, &pb.Ticket{Attributes: &pb.Ticket_FilterableData{DoubleArgs: map[string]float64{"d": v}}})
	}
	tickets = append(tickets, &pb.Ticket{}, &pb.Ticket{Attributes: &pb.Ticket_FilterableData{DoubleArgs: map[string]float64{"D": 0, "": 1, "other": 1}, StringArgs: map[string]string{"d": "1"}, Tags: []string{"d"}}})
	ends := []float64{-inf, -1, math.Copysign(0, -1), 0, 0.3, 1, math.Nextafter(1, 2), 16777216, inf, nan}
	var pools []*pb.Pool
	for _, b := range bounds() {
		for _, lo := range ends {
			for _, hi := range ends {
				for _, arg := range []string{"d", ""} {
					if arg == "" && (lo > 0 || hi < 0) {
						continue
					}
					pools = append(pools, &pb.Pool{DoubleRangeFilters: []*pb.Pool_DoubleRangeFilter{{DoubleArg: arg, Minimum: lo, Maximum: hi, Bounds: b}}})
				}
			}
		}
	}
	filterCase(x, tickets, pools, admits, wrongFilter(x))
}

func bounds() []pb.Pool_FilterBounds {
	return []pb.Pool_FilterBounds{pb.Pool_EXCLUDE_NONE, pb.Pool_EXCLUDE_MIN, pb.Pool_EXCLUDE_MAX, pb.Pool_EXCLUDE_BOTH}
}

func stringsAndTags(x *vrt.X) {
	x.Quiet(true)
	words := []string{"", "v", "V", "v ", "vv", "ü", "u\u0308", "\x00"}
	var tickets []*pb.Ticket
	var pools []*pb.Pool
	for _, k := range []string{"k", "", "K", "kk"} {
		for _, v := range words {
			tickets = append(tickets, &pb.Ticket{Attributes: &pb.Ticket_FilterableData{StringArgs: map[string]string{k: v}}},
				&pb.Ticket{Attributes: &pb.Ticket_FilterableData{StringArgs: map[string]string{k: v, "other": "v"}, Tags: []string{v}}})
			pools = append(pools, &pb.Pool{StringEqualsFilters: []*pb.Pool_StringEqualsFilter{{StringArg: k, Value: v}}},
				&pb.Pool{StringEqualsFilters: []*pb.Pool_StringEqualsFilter{{StringArg: k, Value: v}}, TagPresentFilters: []*pb.Pool_TagPresentFilter{{Tag: v}}})
		}
	}
	for _, a := range words {
		tickets = append(tickets, &pb.Ticket{Attributes: &pb.Ticket_FilterableData{Tags: []string{a}}})
		pools = append(pools, &pb.Pool{TagPresentFilters: []*pb.Pool_TagPresentFilter{{Tag: a}}})
		for _, b := range words {
			tickets = append(tickets, &pb.Ticket{Attributes: &pb.Ticket_FilterableData{Tags: []string{a, b}}})
			pools = append(pools, &pb.Pool{TagPresentFilters: []*pb.Pool_TagPresentFilter{{Tag: a}, {Tag: b}}})
		}
	}
	tickets = append(tickets, &pb.Ticket{}, &pb.Ticket{Attributes: &pb.Ticket_FilterableData{DoubleArgs: map[string]float64{"k": 1, "v": 1}}})
	pools = append(pools, &pb.Pool{}, &pb.Pool{Name: "v"})
	filterCase(x, tickets, pools, admits, wrongFilter(x))
}

// conjunctions takes every sequence of up to 3 filters from an alphabet of all
// kinds against tickets over the same alphabet.
func conjunctions(x *vrt.X) {
	x.Quiet(true)
	type flt struct {
		d *pb.Pool_DoubleRangeFilter
		s *pb.Pool_StringEqualsFilter
		t *pb.Pool_TagPresentFilter
	}
	alpha := []flt{
		{d: &pb.Pool_DoubleRangeFilter{DoubleArg: "a", Minimum: 1, Maximum: 2}},
		{d: &pb.Pool_DoubleRangeFilter{DoubleArg: "a", Minimum: 1, Maximum: 2, Bounds: pb.Pool_EXCLUDE_BOTH}},
		{d: &pb.Pool_DoubleRangeFilter{DoubleArg: "a", Minimum: 2, Maximum: 3, Bounds: pb.Pool_EXCLUDE_MAX}},
		{d: &pb.Pool_DoubleRangeFilter{DoubleArg: "b", Minimum: 0, Maximum: 1, Bounds: pb.Pool_EXCLUDE_MIN}},
		{d: &pb.Pool_DoubleRangeFilter{DoubleArg: "b", Minimum: 0, Maximum: 0}},
		{s: &pb.Pool_StringEqualsFilter{StringArg: "a", Value: "x"}},
		{s: &pb.Pool_StringEqualsFilter{StringArg: "a", Value: "y"}},
		{s: &pb.Pool_StringEqualsFilter{StringArg: "b", Value: "x"}},
		{s: &pb.Pool_StringEqualsFilter{StringArg: "b"}},
		{t: &pb.Pool_TagPresentFilter{Tag: "t"}},
		{t: &pb.Pool_TagPresentFilter{Tag: "u"}},
		{t: &pb.Pool_TagPresentFilter{}},
	}
	add := func(p *pb.Pool, f flt) {
		if f.d != nil {
			p.DoubleRangeFilters = append(p.DoubleRangeFilters, f.d)
		}
		if f.s != nil {
			p.StringEqualsFilters = append(p.StringEqualsFilters, f.s)
		}
		if f.t != nil {
			p.TagPresentFilters = append(p.TagPresentFilters, f.t)
		}
	}
	first := x.Choose(len(alpha)+1, "first filter") - 1
	var pools []*pb.Pool
	for j := -1; j < len(alpha); j++ {
		for k := -1; k < len(alpha); k++ {
			p := &pb.Pool{}
			for _, i := range []int{first, j, k} {
				if i >= 0 {
					add(p, alpha[i])
				}
			}
			pools = append(pools, p)
		}
	}
	var tickets []*pb.Ticket
	for _, da := range []float64{-1, 1, 1.5, 2} {
		for _, db := range []float64{-1, 0, 1} {
			for _, sa := range []string{"-", "x", "y"} {
				for _, sb := range []string{"-", "x", ""} {
					for _, tg := range [][]string{nil, {"t"}, {"u", "t"}, {""}, {"t", ""}} {
						a := &pb.Ticket_FilterableData{DoubleArgs: map[string]float64{}, StringArgs: map[string]string{}, Tags: tg}
						if da >= 0 {
							a.DoubleArgs["a"] = da
						}
						if db >= 0 {
							a.DoubleArgs["b"] = db
						}
						if sa != "-" {
							a.StringArgs["a"] = sa
						}
						if sb != "-" {
							a.StringArgs["b"] = sb
						}
						tickets = append(tickets, &pb.Ticket{Attributes: a})
					}
				}
			}
		}
	}
	filterCase(x, tickets, pools, admits, wrongFilter(x))
	x.Outcome("%d", first)
}

// ---- C08 ----

func relation(t *timestamppb.Timestamp, at time.Time) string {
	switch {
	case t == nil:
		return "none"
	case !t.IsValid():
		return "invalid"
	case t.AsTime().Before(at):
		return "before"
	case t.AsTime().Equal(at):
		return "equal"
	}
	return "after"
}

// created is the reference for creation-time filters.
func createdIn(p *pb.Pool, t *pb.Ticket) bool {
	f := p.GetCreationTimeRangeFilter()
	if f == nil {
		return admits(p, t)
	}
	if f.GetStart() != nil && !f.GetStart().IsValid() || f.GetEnd() != nil && !f.GetEnd().IsValid() {
		return false
	}
	at := t.GetAttributes().GetCreationTime().AsTime()
	b := f.GetBounds()
	switch relation(f.GetStart(), at) {
	case "after":
		return false
	case "equal":
		if b == pb.Pool_EXCLUDE_START || b == pb.Pool_EXCLUDE_BOTH {
			return false
		}
	}
	switch relation(f.GetEnd(), at) {
	case "before":
		return false
	case "equal":
		if b == pb.Pool_EXCLUDE_END || b == pb.Pool_EXCLUDE_BOTH {
			return false
		}
	}
	return admits(p, t)
}

func creationTimes(x *vrt.X) {
	x.Quiet(true)
	base := time.Unix(1_700_000_000, 500)
	var tickets []*pb.Ticket
	for _, d := range []time.Duration{-time.Hour, -time.Second, -1, 0, 1, time.Second} {
		tickets = append(tickets, &pb.Ticket{Attributes: &pb.Ticket_FilterableData{Tags: []string{"t"}, CreationTime: ts(base.Add(d))}})
	}
	edges := []*timestamppb.Timestamp{nil,
		{Seconds: base.Unix(), Nanos: 1e9}, {Seconds: base.Unix(), Nanos: -1}, {Seconds: 253402300800}, {Seconds: -62135596801},
		{Seconds: 253402300799, Nanos: 999999999}, {Seconds: -62135596800}}
	for _, d := range []time.Duration{-time.Hour, -time.Hour + 1, -time.Second, -1, 0, 1, time.Second, time.Second + 1, time.Hour} {
		edges = append(edges, ts(base.Add(d)))
	}
	var pools []*pb.Pool
	for _, b := range bounds() {
		for _, s := range edges {
			for _, e := range edges {
				pools = append(pools, &pb.Pool{CreationTimeRangeFilter: &pb.Pool_CreationTimeRangeFilter{Start: s, End: e, Bounds: b}})
			}
		}
	}
	// neighbours that must not be disturbed, and conjunctions
	inv := &pb.Pool_CreationTimeRangeFilter{Start: &timestamppb.Timestamp{Nanos: -1}}
	pools = append(pools, &pb.Pool{}, &pb.Pool{TagPresentFilters: []*pb.Pool_TagPresentFilter{{Tag: "t"}}},
		&pb.Pool{TagPresentFilters: []*pb.Pool_TagPresentFilter{{Tag: "t"}}, CreationTimeRangeFilter: inv},
		&pb.Pool{TagPresentFilters: []*pb.Pool_TagPresentFilter{{Tag: "none"}}, CreationTimeRangeFilter: &pb.Pool_CreationTimeRangeFilter{Start: ts(base.Add(time.Hour)), End: ts(base.Add(-2 * time.Hour))}})
	for n := range pools {
		if n%50 == 7 {
			pools = append(pools, &pb.Pool{TagPresentFilters: []*pb.Pool_TagPresentFilter{{Tag: "t"}}})
		}
	}
	filterCase(x, tickets, pools, createdIn, func(p *pb.Pool, t *pb.Ticket, got bool) {
		f := p.GetCreationTimeRangeFilter()
		if f == nil {
			wrongFilter(x)(p, t, got)
		}
		at := t.GetAttributes().GetCreationTime().AsTime()
		rs, re := relation(f.GetStart(), at), relation(f.GetEnd(), at)
		if rs == "invalid" || re == "invalid" {
			x.Fail("the pool {%v} has an invalid creation-time filter but is filled with ticket {%v}", p, t)
		}
		is := map[bool]string{true: "in", false: "out"}[got]
		key := fmt.Sprintf("start-%s/end-%s/%v/%s", rs, re, f.GetBounds(), is)
		x.Known(key, "ticket created at %v is %s the pool with creation-time filter start %v end %v bounds %v", at, is, f.GetStart(), f.GetEnd(), f.GetBounds())
	})
}

// invalidPools puts valid and invalid pools side by side in every order.
func invalidPools(x *vrt.X) {
	x.Quiet(true)
	x.MapsDescending(x.Choose(2, "map order") == 1)
	f := &fakeStore{}
	w := newWorld(x, opts{storage: "fake", fake: f, cfg: fast(nil)})
	f.inject(upTicket(fid(0, 1), ticket("t"), time.Hour), upAct(fid(0, 1)), upTicket(fid(0, 2), ticket("u"), time.Hour), upAct(fid(0, 2)))
	w.settle()
	bad := &timestamppb.Timestamp{Seconds: 1, Nanos: -3}
	prof := &pb.Profile{Name: "p", Pools: map[string]*pb.Pool{}}
	want := map[string]int{}
	for _, n := range []string{"a", "b", "c"} {
		switch x.Choose(5, "pool "+n) {
		case 0:
			prof.Pools[n] = &pb.Pool{Name: n}
			want[n] = 2
		case 1:
			prof.Pools[n] = &pb.Pool{Name: n, TagPresentFilters: []*pb.Pool_TagPresentFilter{{Tag: "t"}}}
			want[n] = 1
		case 2:
			prof.Pools[n] = &pb.Pool{Name: n, CreationTimeRangeFilter: &pb.Pool_CreationTimeRangeFilter{Start: bad}}
		case 3:
			prof.Pools[n] = &pb.Pool{Name: n, CreationTimeRangeFilter: &pb.Pool_CreationTimeRangeFilter{End: bad}}
		case 4:
			prof.Pools[n] = &pb.Pool{Name: n, CreationTimeRangeFilter: &pb.Pool_CreationTimeRangeFilter{Start: bad, End: bad, Bounds: pb.Pool_EXCLUDE_BOTH}, TagPresentFilters: []*pb.Pool_TagPresentFilter{{Tag: "t"}}}
		}
	}
	got := w.pools(prof)
	for n, p := range prof.Pools {
		if len(got[n]) != want[n] {
			x.Fail("pool %s {%v} holds %d tickets, want %d", n, p, len(got[n]), want[n])
		}
	}
	x.Outcome("%v", want)
}

func init() {
	reg := func(prop, name, doc string, body func(*vrt.X)) {
		vrt.Register(vrt.Scenario{Prop: prop, Name: name, Doc: doc, Quick: 0, MaxSteps: 50_000_000, Body: body})
	}
	reg("C07", "doubles", "22 double values and 2 tickets without the argument x 10x10 interval ends (infinities, NaN, signed zeros, neighbours) x 4 bounds settings", doubles)
	reg("C07", "strings-and-tags", "string-equals and tag-present filters over 8 words and 4 argument names x tickets over the same", stringsAndTags)
	vrt.Register(vrt.Scenario{Prop: "C07", Name: "conjunctions", Doc: "all sequences of up to 3 filters from an alphabet of 12 x 540 tickets", Quick: 0, Shards: 4, MaxSteps: 50_000_000, Body: conjunctions})
	reg("C08", "creation-times", "6 creation times x 16x16 starts and ends (absent, invalid, equal, 1 ns to 1 h apart) x 4 bounds settings", creationTimes)
	reg("C08", "invalid-pools", "3 pools of 5 kinds each, valid and invalid, in both map orders", invalidPools)
}
