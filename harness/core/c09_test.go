package main

import (
	"fmt"
	"io"
	"strings"
	"time"

	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/anypb"
	store "open-match.dev/core/internal/statestore/datatypes"
	pb "open-match.dev/pkg/pb/v2"
	"verif.local/vrt"
)

const maxMessage = 4 << 20

// reader is an MMF that records the request and what follows it.
type reader struct {
	chunks []*pb.ChunkedMmfRunRequest
	end    error
	over   bool
	runs   int
}

func (r *reader) run(s pb.MatchMakingFunctionService_RunServer) error {
	r.runs++
	r.chunks, r.end = readAll(s)
	if r.end == nil {
		_, r.end = s.Recv()
		r.over = true
	}
	return nil
}

// sized makes a ticket whose encoding, with id and times, takes n bytes.
func sized(id string, n int, tags ...string) *pb.Ticket {
	t := ticket(tags...)
	t.Attributes.CreationTime = ts(time.Unix(1_700_000_000, 0))
	t.ExpirationTime = ts(time.Unix(1_700_003_600, 0))
	t.Id = id
	have := proto.Size(t)
	if n > have+20 {
		fill := n - have - 12
		for {
			t.Extensions = map[string]*anypb.Any{"x": {Value: make([]byte, fill)}}
			d := n - proto.Size(t)
			if d == 0 {
				break
			}
			fill += d
		}
	}
	t.Id = ""
	return t
}

// checkRequest judges the messages an MMF received.
func checkRequest(x *vrt.X, who string, r *reader, prof *pb.Profile, want map[string][]*pb.Ticket) {
	if r.runs != 1 {
		x.Fail("%s was invoked %d times", who, r.runs)
	}
	if !r.over {
		x.Fail("%s received %d messages, then: %v (announced: %v)", who, len(r.chunks), r.end, func() (n []int32) {
			for _, c := range r.chunks {
				n = append(n, c.GetNumChunks())
			}
			return
		}())
	}
	if r.end != io.EOF {
		x.Fail("%s: the request stream is not finished after the last message: %v", who, r.end)
	}
	got := map[string][]*pb.Ticket{}
	seen := map[string]bool{}
	for i, c := range r.chunks {
		if n := proto.Size(c); n > maxMessage {
			x.Fail("%s: message %d is %d bytes", who, i, n)
		}
		if int(c.GetNumChunks()) != len(r.chunks) {
			x.Fail("%s: message %d announces %d messages, there are %d", who, i, c.GetNumChunks(), len(r.chunks))
		}
		head := &pb.Profile{Name: c.GetProfile().GetName(), Extensions: c.GetProfile().GetExtensions()}
		if h := (&pb.Profile{Name: prof.GetName(), Extensions: prof.GetExtensions()}); !proto.Equal(head, h) {
			x.Fail("%s: message %d has profile %v, want %v", who, i, head, h)
		}
		for n, p := range c.GetProfile().GetPools() {
			wp, ok := prof.GetPools()[n]
			if !ok {
				x.Fail("%s: message %d has a pool %q that is not in the profile", who, i, n)
			}
			got[n] = append(got[n], p.GetParticipants().GetTickets()...)
			if !seen[n] {
				seen[n] = true
				gp, rp := proto.Clone(p).(*pb.Pool), proto.Clone(wp).(*pb.Pool)
				gp.Participants, rp.Participants = nil, nil
				if !proto.Equal(gp, rp) {
					x.Fail("%s: pool %q arrives as {%v}, want {%v}", who, n, gp, rp)
				}
			}
		}
	}
	for n := range prof.GetPools() {
		if _, valid := want[n]; valid && !seen[n] {
			x.Fail("%s: pool %q is missing from the request", who, n)
		}
		have := map[string]int{}
		for _, t := range got[n] {
			have[t.GetId()]++
			if have[t.GetId()] > 1 {
				x.Fail("%s: ticket %s is in pool %q more than once", who, t.GetId(), n)
			}
		}
		if len(got[n]) != len(want[n]) {
			x.Fail("%s: pool %q has %d tickets over all messages, want %d", who, n, len(got[n]), len(want[n]))
		}
		byID := map[string]*pb.Ticket{}
		for _, t := range got[n] {
			byID[t.GetId()] = t
		}
		for _, t := range want[n] {
			if !proto.Equal(byID[t.GetId()], t) {
				x.Fail("%s: ticket %s arrives altered in pool %q", who, t.GetId(), n)
			}
		}
	}
}

// request invokes n MMFs with a profile over the given active tickets.
func request(x *vrt.X, tickets []*pb.Ticket, prof *pb.Profile, n int) {
	f := &fakeStore{}
	w := newWorld(x, opts{storage: "fake", fake: f, cfg: fast(nil)})
	var us []*store.StateUpdate
	want := map[string][]*pb.Ticket{}
	for name, p := range prof.GetPools() {
		if f := p.GetCreationTimeRangeFilter(); f == nil || (f.GetStart() == nil || f.GetStart().IsValid()) && (f.GetEnd() == nil || f.GetEnd().IsValid()) {
			want[name] = nil
		}
	}
	for i, t := range tickets {
		id := fid(0, i)
		u := upTicket(id, t, time.Hour)
		us = append(us, u, upAct(id))
		full := &pb.Ticket{}
		if err := proto.Unmarshal([]byte(u.Value), full); err != nil {
			x.Fail("harness: %v", err)
		}
		full.Id = id
		for name := range want {
			p := prof.GetPools()[name]
			if p.GetCreationTimeRangeFilter() == nil && admits(p, full) {
				want[name] = append(want[name], full)
			}
		}
	}
	f.inject(us...)
	w.settle()
	var specs []*pb.MatchmakingFunctionSpec
	var rs []*reader
	for i := 0; i < n; i++ {
		r := &reader{}
		rs = append(rs, r)
		specs = append(specs, mmf(fmt.Sprintf("reader%d", i), int32(i), r.run))
	}
	start := x.Elapsed()
	_, err := w.invoke(bg(), &pb.MmfRequest{Mmfs: specs, Profile: prof})
	if err != nil {
		x.Fail("invocation failed: %v", err)
	}
	for i, r := range rs {
		checkRequest(x, fmt.Sprintf("MMF %d", i), r, prof, want)
	}
	if d := x.Elapsed() - start; d > time.Second {
		x.Fail("the invocation took %v of MMFs that end at once", d)
	}
	x.Outcome("%d chunks", len(rs[0].chunks))
}

func tagPool(name, tag string) *pb.Pool {
	return &pb.Pool{Name: name, TagPresentFilters: []*pb.Pool_TagPresentFilter{{Tag: tag}}}
}

// structure: few tickets, every shape of the profile.
func structure(x *vrt.X) {
	x.Quiet(true)
	x.MapsDescending(x.Choose(2, "map order") == 1)
	kinds := []func(n string) *pb.Pool{
		nil,
		func(n string) *pb.Pool { return &pb.Pool{Name: "all"} },
		func(n string) *pb.Pool { return tagPool("x-"+n, "a") },
		func(n string) *pb.Pool { return tagPool("none", "nobody") },
		func(n string) *pb.Pool {
			return &pb.Pool{Name: n, DoubleRangeFilters: []*pb.Pool_DoubleRangeFilter{{DoubleArg: "d", Minimum: 1, Maximum: 2, Bounds: pb.Pool_EXCLUDE_MAX}},
				StringEqualsFilters: []*pb.Pool_StringEqualsFilter{{StringArg: "s", Value: "v"}}, Extensions: map[string]*anypb.Any{"p": {TypeUrl: "t/p", Value: []byte{1}}}}
		},
		func(n string) *pb.Pool {
			return &pb.Pool{Name: n, Participants: &pb.Roster{Name: "client", Tickets: []*pb.Ticket{{Id: "client-made"}, {Id: fid(0, 0)}}}}
		},
		func(n string) *pb.Pool {
			return &pb.Pool{Name: n, CreationTimeRangeFilter: &pb.Pool_CreationTimeRangeFilter{Start: ts(time.Unix(1, 5)), End: ts(time.Unix(2, 6)), Bounds: pb.Pool_EXCLUDE_START}}
		},
	}
	prof := &pb.Profile{Pools: map[string]*pb.Pool{}}
	for _, n := range []string{"p", "q", ""} {
		if k := kinds[x.Choose(len(kinds), "pool")]; k != nil {
			prof.Pools[n] = k(n)
		}
	}
	switch x.Choose(3, "profile") {
	case 0:
		prof.Name = "profile"
		prof.Extensions = map[string]*anypb.Any{"e": {TypeUrl: "t/x", Value: []byte("v")}, "": {}}
	case 1:
		prof.Name = "only name"
	}
	full := &pb.Ticket{Attributes: &pb.Ticket_FilterableData{Tags: []string{"a", "b"}, DoubleArgs: map[string]float64{"d": 1}, StringArgs: map[string]string{"s": "v"}}, Extensions: map[string]*anypb.Any{"k": {TypeUrl: "t/t", Value: []byte{0, 1}}}}
	tickets := [][]*pb.Ticket{nil, {full}, {full, ticket("a"), ticket()}}[x.Choose(3, "tickets")]
	request(x, tickets, prof, 1+x.Choose(2, "functions"))
}

// boundary: ticket sizes around the splitting points.
func boundary(full bool) func(x *vrt.X) {
	return func(x *vrt.X) { boundaryBody(x, full) }
}

func boundaryBody(x *vrt.X, full bool) {
	x.Quiet(true)
	if full {
		x.MapsDescending(x.Choose(2, "map order") == 1)
	}
	prof := &pb.Profile{Name: "profile", Pools: map[string]*pb.Pool{}}
	switch x.Choose(3, "pools") {
	case 0:
		prof.Pools["all"] = &pb.Pool{Name: "all"}
	case 1:
		prof.Pools["all"], prof.Pools["a"], prof.Pools["none"] = &pb.Pool{Name: "all"}, tagPool("a", "a"), tagPool("none", "nobody")
	case 2:
		prof.Pools["a"], prof.Pools["b"] = tagPool("a", "a"), tagPool("b", "b")
		prof.Pools["a2"] = tagPool("a2", "a")
	}
	base := 0
	if x.Choose(2, "big profile") == 1 {
		base = 1_500_000
		prof.Extensions = map[string]*anypb.Any{"big": {Value: make([]byte, base)}}
	}
	// sizes in units relative to what is left for tickets
	left := 4_000_000 - base
	sizes := []int{0, left / 2, left/2 - 60, left - 400, left - 90, left, left + 100_000, left + 190_000, 1_000_000}
	if !full {
		sizes = []int{0, left/2 - 60, left - 90, left, left + 190_000}
	}
	var tickets []*pb.Ticket
	n := 3
	for i := 0; i < n; i++ {
		k := x.Choose(len(sizes), "size")
		tags := [][]string{{"a"}, {"b"}, {"a", "b"}}[i%3]
		tickets = append(tickets, sized(fid(0, i), sizes[k], tags...))
	}
	request(x, tickets, prof, 1)
}

// limits: the largest single ticket that fits with its profile.
func limits(x *vrt.X) {
	x.Quiet(true)
	off := []int{0, 1, 2, 3, 10, 30, 100, 200, 1000, 10000, 194_000, 194_304, 200_000}[x.Choose(13, "room left")]
	big := x.Choose(2, "big profile") == 1
	prof := &pb.Profile{Name: "profile", Pools: map[string]*pb.Pool{"all": {Name: "all"}, "none": tagPool("none", "nobody")}}
	if big {
		prof.Extensions = map[string]*anypb.Any{"big": {Value: make([]byte, 3_000_000)}}
	}
	id := fid(0, 0)
	// the message with this single ticket in its pool, as om-core builds it
	msg := func(t *pb.Ticket) *pb.ChunkedMmfRunRequest {
		p := proto.Clone(prof).(*pb.Profile)
		p.Pools["all"].Participants = &pb.Roster{Name: "all_roster", Tickets: []*pb.Ticket{t}}
		p.Pools["none"].Participants = &pb.Roster{Name: "none_roster"}
		return &pb.ChunkedMmfRunRequest{Profile: p, NumChunks: 3}
	}
	n := maxMessage - off - proto.Size(msg(&pb.Ticket{})) - 40
	t := sized(id, n)
	for {
		t.Id = id
		d := maxMessage - off - proto.Size(msg(t))
		t.Id = ""
		if d == 0 {
			break
		}
		n += d
		t = sized(id, n)
	}
	request(x, []*pb.Ticket{t, ticket("x")}[:1+x.Choose(2, "neighbour")], prof, 1)
}

// many: numbers of tickets large enough for the framing to matter.
func many(x *vrt.X) {
	x.Quiet(true)
	prof := &pb.Profile{Name: "profile", Pools: map[string]*pb.Pool{}}
	var tickets []*pb.Ticket
	switch x.Choose(4, "case") {
	case 0: // tiny tickets
		for i := 0; i < 130_000; i++ {
			tickets = append(tickets, ticket())
		}
		prof.Pools["all"] = &pb.Pool{}
	case 1: // few small tickets, very many pools
		for i := 0; i < 60; i++ {
			tickets = append(tickets, ticket("a"))
		}
		for i := 0; i < 1500; i++ {
			n := fmt.Sprintf("pool%d", i)
			prof.Pools[n] = &pb.Pool{Name: n}
		}
	case 2: // long pool names
		for i := 0; i < 40; i++ {
			n := fmt.Sprintf("%d%s", i, strings.Repeat("n", 40_000))
			prof.Pools[n] = tagPool("p", "a")
		}
		for i := 0; i < 30; i++ {
			tickets = append(tickets, sized(fid(0, i), 30_000, "a"))
		}
	case 3: // thousands of middle-sized tickets
		for i := 0; i < 2500; i++ {
			tickets = append(tickets, sized(fid(0, i), 7_001, []string{"a", "b"}[i%2]))
		}
		prof.Pools["a"], prof.Pools["b"], prof.Pools["all"] = tagPool("a", "a"), tagPool("b", "b"), &pb.Pool{}
	}
	request(x, tickets, prof, 1)
}

func init() {
	reg := func(name, doc string, shards int, body func(*vrt.X)) {
		vrt.Register(vrt.Scenario{Prop: "C09", Name: name, Doc: doc, Quick: 0, MaxSteps: 50_000_000, Shards: shards, Body: body})
	}
	reg("structure", "profiles of up to 3 pools of 6 kinds (unfiltered, filtered, never matched, every filter kind and extensions, participants made up by the client, creation-time filter) x profile fields x 3 ticket sets x 1-2 functions x map order", 4, structure)
	reg("boundary", "3 tickets of 5 sizes around the splitting points x 3 pool layouts with overlaps x small and large profile", 4, boundary(false))
	vrt.Register(vrt.Scenario{Prop: "C09", Name: "boundaryfull", Doc: "3 tickets of 9 sizes around the splitting points x 3 pool layouts with overlaps x small and large profile x map order",
		OnlyThorough: true, TShards: 8, MaxSteps: 50_000_000, Body: boundary(true)})
	reg("limits", "a single ticket with which the message leaves 0 to 200000 bytes of the 4 MiB", 2, limits)
	reg("many", "130000 tiny tickets; 1500 pools; 40 kB pool names; 17 MB of tickets", 4, many)
}
