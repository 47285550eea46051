package main

import (
	"fmt"
	"sort"
	"strings"
	"time"

	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	store "open-match.dev/core/internal/statestore/datatypes"
	pb "open-match.dev/pkg/pb/v2"
	"verif.local/vrt"
)

// C17: bad requests are refused whole, with the right status.

// written lists the updates the storage has accepted, as "command key".
type written func() []string

func world17(x *vrt.X, storage string, max int) (*world, written) {
	c := fast(map[string]any{"OM_MAX_STATE_UPDATES_PER_CALL": max, "OM_CACHE_OUT_MAX_QUEUE_THRESHOLD": 50})
	f := &fakeStore{}
	w := newWorld(x, opts{storage: storage, fake: f, cfg: c})
	names := map[int]string{store.Activate: "activate", store.Deactivate: "deactivate", store.Assign: "assign", store.Ticket: "ticket"}
	return w, func() (out []string) {
		if storage == "redis" {
			for _, e := range w.redis.Added {
				k := e.Fields[0]
				if k != "ticket" {
					k += " " + e.Fields[1]
				}
				out = append(out, k)
			}
			return
		}
		for _, u := range f.log {
			k := names[u.Cmd]
			if u.Cmd != store.Ticket {
				k += " " + u.Key
			}
			out = append(out, k)
		}
		return
	}
}

var methods = []string{"activate", "deactivate", "assign"}

func (w *world) update(method string, ids ...string) error {
	switch method {
	case "activate":
		return w.activate(ids...)
	case "deactivate":
		return w.deactivate(ids...)
	}
	return w.assign("c", ids...)
}

// updateLimits: numbers of updates around the maximum.
func updateLimits(storage string) func(x *vrt.X) {
	return func(x *vrt.X) {
		x.Quiet(true)
		max := []int{1, 2, 5, 500}[x.Choose(4, "maximum")]
		w, log := world17(x, storage, max)
		n := []int{0, 1, max - 1, max, max + 1, 2 * max, 10*max + 3}[x.Choose(7, "updates")]
		m := methods[x.Choose(3, "method")]
		kind := x.Choose(4, "ids")
		var ids, want []string
		invalid := map[string]bool{}
		for i := 0; i < n; i++ {
			id := fid(0, i)
			if kind == 1 && i%2 == 1 { // duplicates count
				id = fid(0, 0)
			}
			if kind == 2 && i%3 == 1 || kind == 3 { // and so do invalid ones
				id = fmt.Sprint("bad", i)
				invalid[id] = true
			} else {
				want = append(want, m+" "+id)
			}
			ids = append(ids, id)
		}
		var err error
		t := x.Go("request", func() { err = w.update(m, ids...) })
		if !x.JoinWithin(time.Duration(n+2)*time.Second, t) {
			x.Fail("%s of %d tickets does not return", m, n)
		}
		got := log()
		switch {
		case n == 0 && m == "assign":
			if len(got) > 0 {
				x.Fail("an assignment of no tickets wrote %v", got)
			}
		case n == 0 || n > max:
			if status.Code(err) != codes.InvalidArgument {
				x.Fail("%s of %d tickets with a maximum of %d: %v", m, n, max, err)
			}
			if len(got) > 0 {
				x.Fail("%s of %d tickets with a maximum of %d was refused, but %d updates were written", m, n, max, len(got))
			}
		default:
			var bad []string
			for id := range invalid {
				bad = append(bad, id)
			}
			judge(x, m, err, bad, want, got)
		}
		x.Outcome("%v", status.Code(err))
	}
}

// judge checks the result of a request with the given invalid ids.
func judge(x *vrt.X, m string, err error, invalid, want, got []string) {
	sort.Strings(invalid)
	named := namedIDs(err)
	if len(invalid) == 0 && err != nil {
		x.Fail("%s of valid tickets within the maximum: %v", m, err)
	}
	if len(invalid) > 0 && (status.Code(err) != codes.InvalidArgument || !same(uniq(named), uniq(invalid))) {
		x.Fail("%s with the invalid ids %q: error %v names %q", m, invalid, err, named)
	}
	if !same(sorted(got...), sorted(want...)) {
		x.Fail("%s: written were %q, should be %q", m, got, want)
	}
}

func uniq(s []string) (out []string) {
	for i, v := range s {
		if i == 0 || v != s[i-1] {
			out = append(out, v)
		}
	}
	return
}

// mixtures: every list of up to n valid and invalid ids.
func mixtures(storage string, n int) func(x *vrt.X) {
	return func(x *vrt.X) {
		x.Quiet(true)
		w, log := world17(x, storage, 500)
		pool := []string{fid(0, 0), fid(0, 1), "bad", "", "1-1-1"}
		m := methods[x.Choose(3, "method")]
		var ids, invalid, want []string
		for k := 1 + x.Choose(n, "length"); k > 0; k-- {
			i := x.Choose(len(pool), "id")
			ids = append(ids, pool[i])
			if i >= 2 {
				invalid = append(invalid, pool[i])
			} else {
				want = append(want, m+" "+pool[i])
			}
		}
		err := w.update(m, ids...)
		judge(x, m, err, invalid, want, log())
		x.Outcome("%v", status.Code(err))
	}
}

// formats: every string over an alphabet as an id next to a valid one.
func formats(storage string, depth int) func(x *vrt.X) {
	return func(x *vrt.X) {
		x.Quiet(true)
		alphabet := []string{"0", "7", "-", "a", " ", "\n", "٣", ".", "+"}
		m := methods[x.Choose(3, "method")]
		first := x.Choose(len(alphabet)+1, "first")
		if first == len(alphabet) {
			return
		}
		w, log := world17(x, storage, 500)
		good := fid(0, 0)
		n := 0
		var try func(s string, left int)
		try = func(s string, left int) {
			ok := false
			if p := strings.Split(s, "-"); len(p) == 2 && digits(p[0]) && digits(p[1]) {
				ok = true
			}
			before := len(log())
			err := w.update(m, s, good)
			want := []string{m + " " + good}
			var invalid []string
			if ok {
				want = append(want, m+" "+s)
			} else {
				invalid = []string{s}
			}
			judge(x, m, err, invalid, want, log()[before:])
			n++
			if left > 0 {
				for _, c := range alphabet {
					try(s+c, left-1)
				}
			}
		}
		try(alphabet[first], depth-1)
		x.Count(n)
		x.Outcome("%d", n)
	}
}

func digits(s string) bool {
	for _, c := range s {
		if c < '0' || c > '9' {
			return false
		}
	}
	return s != ""
}

// required: requests without their required content.
func required(storage string) func(x *vrt.X) {
	return func(x *vrt.X) {
		x.Quiet(true)
		w, log := world17(x, storage, 500)
		fn := w.function(zzScript{})
		rest := w.function(zzScript{end: endREST})
		reqs := []struct {
			name string
			do   func() error
		}{
			{"CreateTicket without a ticket", func() error { _, e := w.srv.CreateTicket(bg(), &pb.CreateTicketRequest{}); return e }},
			{"ActivateTickets without ids", func() error { _, e := w.srv.ActivateTickets(bg(), &pb.ActivateTicketsRequest{}); return e }},
			{"ActivateTickets with an empty list", func() error {
				_, e := w.srv.ActivateTickets(bg(), &pb.ActivateTicketsRequest{TicketIds: []string{}})
				return e
			}},
			{"DeactivateTickets without ids", func() error {
				_, e := w.srv.DeactivateTickets(bg(), &pb.DeactivateTicketsRequest{})
				return e
			}},
			{"DeactivateTickets with an empty list", func() error {
				_, e := w.srv.DeactivateTickets(bg(), &pb.DeactivateTicketsRequest{TicketIds: []string{}})
				return e
			}},
			{"CreateAssignments without a roster", func() error {
				_, e := w.srv.CreateAssignments(bg(), &pb.CreateAssignmentsRequest{})
				return e
			}},
			{"CreateAssignments without an assignment", func() error {
				_, e := w.srv.CreateAssignments(bg(), &pb.CreateAssignmentsRequest{AssignmentRoster: &pb.Roster{Name: "r", Tickets: []*pb.Ticket{{Id: fid(0, 0)}}}})
				return e
			}},
			{"CreateAssignments with an empty roster", func() error {
				_, e := w.srv.CreateAssignments(bg(), &pb.CreateAssignmentsRequest{AssignmentRoster: &pb.Roster{}})
				return e
			}},
			{"InvokeMatchmakingFunctions without anything", func() error { _, e := w.invoke(bg(), &pb.MmfRequest{}); return e }},
			{"InvokeMatchmakingFunctions without a profile", func() error {
				_, e := w.invoke(bg(), &pb.MmfRequest{Mmfs: []*pb.MatchmakingFunctionSpec{fn.spec, rest.spec}})
				return e
			}},
			{"InvokeMatchmakingFunctions without functions", func() error { _, e := w.invoke(bg(), &pb.MmfRequest{Profile: everyone()}); return e }},
		}
		r := reqs[x.Choose(len(reqs), "request")]
		var err error
		t := x.Go("request", func() { err = r.do() })
		if !x.JoinWithin(5*time.Second, t) {
			x.Fail("%s does not return", r.name)
		}
		if status.Code(err) != codes.InvalidArgument {
			x.Fail("%s: %v", r.name, err)
		}
		if l := log(); len(l) > 0 {
			x.Fail("%s wrote %v", r.name, l)
		}
		if fn.began {
			x.Fail("%s ran a function", r.name)
		}
		x.Outcome("ok")
	}
}

// content: requests with just their required content are accepted.
func minimal(storage string) func(x *vrt.X) {
	return func(x *vrt.X) {
		x.Quiet(true)
		w, log := world17(x, storage, 1)
		id, err := w.create(bg(), &pb.Ticket{})
		if err != nil || id == "" {
			x.Fail("CreateTicket with an empty ticket: %q, %v", id, err)
		}
		for _, m := range methods {
			if err := w.update(m, id); err != nil {
				x.Fail("%s of one ticket: %v", m, err)
			}
		}
		fn := w.function(zzScript{})
		if _, err := w.invoke(bg(), &pb.MmfRequest{Profile: &pb.Profile{}, Mmfs: []*pb.MatchmakingFunctionSpec{fn.spec}}); err != nil || !fn.began {
			x.Fail("InvokeMatchmakingFunctions with an empty profile: %v, ran: %v", err, fn.began)
		}
		if got := log(); len(got) != 4 {
			x.Fail("written: %v", got)
		}
		x.Outcome("ok")
	}
}

// neighbours: a refused or partly invalid request next to valid ones in one batch.
func neighbours(x *vrt.X) {
	x.Quiet(true)
	w, log := world17(x, "fake", 2)
	m := methods[x.Choose(3, "method")]
	var ids []string
	kind := x.Choose(3, "request")
	switch kind {
	case 0:
		ids = []string{fid(0, 5), fid(0, 6), fid(0, 7)} // too many
	case 1:
		ids = []string{"bad", fid(0, 5)}
	case 2:
		ids = []string{"bad", "worse"}
	}
	x.Quiet(false)
	var e1, e2 error
	var id string
	a := x.Go("odd", func() { e1 = w.update(m, ids...) })
	b := x.Go("fine", func() { e2 = w.update(m, fid(0, 1), fid(0, 2)) })
	id, e3 := w.create(bg(), ticket("t"))
	x.Join(a, b)
	want := []string{"ticket", m + " " + fid(0, 1), m + " " + fid(0, 2)}
	var invalid []string
	switch kind {
	case 0:
		if status.Code(e1) != codes.InvalidArgument {
			x.Fail("too many updates: %v", e1)
		}
	case 1:
		invalid = []string{"bad"}
		want = append(want, m+" "+fid(0, 5))
	case 2:
		invalid = []string{"bad", "worse"}
	}
	if kind > 0 && (status.Code(e1) != codes.InvalidArgument || !same(namedIDs(e1), invalid)) {
		x.Fail("%s with the invalid ids %q: %v", m, invalid, e1)
	}
	if e2 != nil || e3 != nil || id == "" {
		x.Fail("next to an invalid request, valid ones got %v and %q, %v", e2, id, e3)
	}
	if got := log(); !same(sorted(got...), sorted(want...)) {
		x.Fail("written were %q, should be %q", got, want)
	}
	x.Outcome("ok")
}

func init() {
	reg := func(name, doc string, quick, thorough, shards int, body func(*vrt.X)) {
		vrt.Register(vrt.Scenario{Prop: "C17", Name: name, Doc: doc, Quick: quick, Thorough: thorough, Shards: shards, TShards: 8, Body: body})
	}
	for i, s := range []string{"fake", "redis"} {
		reg("limits."+s, "3 methods x 4 maxima x 7 numbers of updates x valid, repeated and invalid ids, "+s+" storage", 0, 0, 2, updateLimits(s))
		reg("mixtures."+s, "every list of up to 4 ids out of 5 valid and invalid ones, "+s+" storage", 0, 0, 4, mixtures(s, 4))
		reg("required."+s, "11 requests without their required content, "+s+" storage", 1-i, 1, 1, required(s))
		reg("minimal."+s, "requests with just their required content, "+s+" storage", 0, 0, 1, minimal(s))
	}
	vrt.Register(vrt.Scenario{Prop: "C17", Name: "formats", Doc: "every string of up to 4 (thorough: 5) characters out of 9 as an id", Shards: 8, MaxSteps: 500_000_000, OnlyQuick: true, Body: formats("fake", 4)})
	vrt.Register(vrt.Scenario{Prop: "C17", Name: "formats5", Doc: "every string of up to 5 characters out of 9 as an id", Shards: 8, TShards: 8, MaxSteps: 500_000_000, OnlyThorough: true, Body: formats("fake", 5)})
	reg("formats.redis", "every string of up to 3 characters out of 9 as an id, Redis storage", 0, 0, 4, formats("redis", 3))
	reg("formats.memory", "every string of up to 4 characters out of 6 as an id, memory storage", 0, 0, 4, memoryFormats)
	reg("neighbours", "an invalid request next to valid ones", 2, 3, 4, neighbours)
}

// memoryFormats judges by the inactive set what memory storage has written.
func memoryFormats(x *vrt.X) {
	x.Quiet(true)
	w := newWorld(x, opts{storage: "memory", cfg: fast(map[string]any{"OM_CACHE_TICKET_TTL_SECS": 1_800_000_000})})
	alphabet := []string{"", "0", "7", "-", "a", " ", "\n"}
	n := len(alphabet)
	first := alphabet[x.Choose(n, "first")]
	for i := 0; i < n*n*n; i++ {
		id := first + alphabet[i%n] + alphabet[i/n%n] + alphabet[i/n/n]
		p := strings.Split(id, "-")
		ok := len(p) == 2 && digits(p[0]) && digits(p[1])
		var err error
		t := x.Go("request", func() { err = w.deactivate(id) })
		if !x.JoinWithin(10*time.Second, t) {
			x.Fail("deactivation of %q does not return", id)
		}
		w.settle()
		_, inactive, _ := held(id)
		if inactive != ok || (err == nil) != ok {
			x.Fail("deactivation of %q: %v; written: %v", id, err, inactive)
		}
	}
	x.Outcome("ok")
}
