package main

import (
	"fmt"
	"io"
	"strings"

	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/anypb"
	"google.golang.org/protobuf/types/known/timestamppb"
	mmf "open-match.dev/mmf/server"
	pb "open-match.dev/pkg/pb/v2"
	"verif.local/vrt"
)

// C10: mmf/server.GetChunkedRequest puts together whatever om-core may send.

const (
	absent = iota // the pool is not in the message
	bare          // the pool has no roster
	empty         // the pool has a roster without tickets
	nstates
)

var poolNames = []string{"p0", "p1", ""}

// labels: the names pools carry, as opposed to those they go by in the profile.
var labels []string

func label(i int) string {
	if labels != nil {
		return labels[i]
	}
	return poolNames[i]
}

// poolFields are the fields of a pool other than its tickets.
func poolFields(i int) *pb.Pool {
	p := &pb.Pool{Name: label(i)}
	if i == 0 {
		p.TagPresentFilters = []*pb.Pool_TagPresentFilter{{Tag: "t"}}
		p.StringEqualsFilters = []*pb.Pool_StringEqualsFilter{{StringArg: "a", Value: "b"}, {StringArg: "c", Value: ""}}
		p.DoubleRangeFilters = []*pb.Pool_DoubleRangeFilter{{DoubleArg: "d", Minimum: 1, Maximum: 2}}
		p.CreationTimeRangeFilter = &pb.Pool_CreationTimeRangeFilter{Start: &timestamppb.Timestamp{Seconds: 5}}
		p.Extensions = map[string]*anypb.Any{"e": {TypeUrl: "u", Value: []byte("v")}}
	}
	return p
}

// roster is the roster of a pool, without its tickets.
func roster(pool string) *pb.Roster {
	r := &pb.Roster{Name: pool + "_roster"}
	if pool == poolNames[0] {
		r.Assignment = &pb.Assignment{Connection: "c"}
		r.Extensions = map[string]*anypb.Any{"r": {TypeUrl: "s", Value: []byte("w")}}
	}
	return r
}

func describe(msgs []*pb.ChunkedMmfRunRequest) string {
	var b strings.Builder
	for i, m := range msgs {
		fmt.Fprintf(&b, "\n  message %d of %d: profile %q", i+1, m.GetNumChunks(), m.GetProfile().GetName())
		for n, p := range m.GetProfile().GetPools() {
			fmt.Fprintf(&b, " pool %q", n)
			if p.GetParticipants() == nil {
				b.WriteString("(no roster)")
			}
			for _, t := range p.GetParticipants().GetTickets() {
				fmt.Fprintf(&b, " %s", t.GetId())
			}
		}
	}
	return b.String()
}

// checkRead reads msgs and compares with want: the tickets of every pool.
func checkRead(x *vrt.X, msgs []*pb.ChunkedMmfRunRequest, name string, ext map[string]*anypb.Any, want map[string][]string, has map[string]bool) {
	st := &runStream{msgs: msgs, end: io.EOF}
	var got *pb.Profile
	var err error
	in := func() string { return describe(msgs) }
	guard(x, in, func() { got, err = mmf.GetChunkedRequest(st) })
	if err != nil {
		x.Fail("a complete request gave error %v%s", err, in())
	}
	if st.recvs != len(msgs) {
		x.Fail("%d reads for a request of %d messages%s", st.recvs, len(msgs), in())
	}
	if got.GetName() != name {
		x.Fail("profile name %q, sent %q%s", got.GetName(), name, in())
	}
	if !proto.Equal(&pb.Profile{Extensions: got.GetExtensions()}, &pb.Profile{Extensions: ext}) {
		x.Fail("profile extensions %v, sent %v%s", got.GetExtensions(), ext, in())
	}
	if len(got.GetPools()) != len(has) {
		x.Fail("%d pools, sent %d%s", len(got.GetPools()), len(has), in())
	}
	for i, n := range poolNames {
		if !has[n] {
			continue
		}
		p, ok := got.GetPools()[n]
		if !ok || p == nil {
			x.Fail("pool %q is missing%s", n, in())
		}
		var ids []string
		for _, t := range p.GetParticipants().GetTickets() {
			ids = append(ids, t.GetId())
		}
		if strings.Join(ids, ",") != strings.Join(want[n], ",") {
			x.Fail("pool %q holds tickets %v, sent %v%s", n, ids, want[n], in())
		}
		if p.GetParticipants() != nil {
			r := proto.Clone(p.Participants).(*pb.Roster)
			r.Tickets = nil
			if w := roster(n); !proto.Equal(r, w) {
				x.Fail("the roster of pool %q arrived as %v, sent %v%s", n, r, w, in())
			}
		}
		q := proto.Clone(p).(*pb.Pool)
		q.Participants = nil
		if f := poolFields(i); !proto.Equal(q, f) {
			x.Fail("pool %q arrived as %v, sent %v%s", n, q, f, in())
		}
		for _, t := range p.GetParticipants().GetTickets() {
			if w := tick(t.GetId()); !proto.Equal(t, w) {
				x.Fail("ticket arrived as %v, sent %v%s", t, w, in())
			}
		}
	}
}

func tick(id string) *pb.Ticket {
	return &pb.Ticket{Id: id, Attributes: &pb.Ticket_FilterableData{Tags: []string{"tag-" + id}, DoubleArgs: map[string]float64{"d": 1.5}}}
}

// distribution: every assignment of up to n tickets to (message, pool) cells
// and every state of the cells without tickets.
func distribution(n, nm, np int) func(x *vrt.X) {
	return func(x *vrt.X) {
		silence()
		x.Quiet(true)
		x.MapsDescending(x.Choose(2, "map order") == 1)
		cells := nm * np
		first := x.Choose(cells+1, "place of the first ticket")
		place := make([]int, n)
		var rec func(i int)
		rec = func(i int) {
			if i < n {
				for c := 0; c <= cells; c++ {
					if i == 0 && c != first {
						continue
					}
					place[i] = c // == cells: not sent
					rec(i + 1)
				}
				return
			}
			used := make([][]string, cells)
			for t, c := range place {
				if c < cells {
					used[c] = append(used[c], fmt.Sprint("t", t))
				}
			}
			state := make([]int, cells)
			for {
				msgs := make([]*pb.ChunkedMmfRunRequest, nm)
				want, has := map[string][]string{}, map[string]bool{}
				ext := map[string]*anypb.Any{"x": {Value: []byte("y")}}
				for m := range msgs {
					p := &pb.Profile{Name: "prof", Extensions: ext, Pools: map[string]*pb.Pool{}}
					for k := 0; k < np; k++ {
						c := m*np + k
						if len(used[c]) == 0 && state[c] == absent {
							continue
						}
						pool := poolFields(k)
						if len(used[c]) > 0 || state[c] == empty {
							pool.Participants = roster(poolNames[k])
						}
						for _, id := range used[c] {
							pool.Participants.Tickets = append(pool.Participants.Tickets, tick(id))
						}
						p.Pools[poolNames[k]] = pool
						has[poolNames[k]] = true
						want[poolNames[k]] = append(want[poolNames[k]], used[c]...)
					}
					msgs[m] = &pb.ChunkedMmfRunRequest{Profile: p, NumChunks: int32(nm)}
				}
				checkRead(x, msgs, "prof", ext, want, has)
				x.Count(1)
				c := 0
				for ; c < cells; c++ {
					if len(used[c]) > 0 {
						continue
					}
					if state[c]++; state[c] < nstates {
						break
					}
					state[c] = absent
				}
				if c == cells {
					break
				}
			}
		}
		rec(0)
		x.Outcome("done")
	}
}

// cutoff: the stream ends early.
func cutoff(x *vrt.X) {
	silence()
	x.Quiet(true)
	errs := []error{io.EOF, status.Error(codes.Unavailable, "gone"), status.Error(codes.Canceled, "cancelled"), io.ErrUnexpectedEOF}
	end := errs[x.Choose(len(errs), "error")]
	announced := 1 + x.Choose(3, "announced messages")
	got := x.Choose(announced, "messages before the error")
	kind := x.Choose(3, "content")
	var msgs []*pb.ChunkedMmfRunRequest
	for i := 0; i < got; i++ {
		p := &pb.Profile{Name: "prof"}
		if kind > 0 {
			p.Pools = map[string]*pb.Pool{"p0": {Name: "p0"}}
		}
		if kind > 1 {
			p.Pools["p0"].Participants = &pb.Roster{Tickets: []*pb.Ticket{tick(fmt.Sprint("t", i))}}
		}
		msgs = append(msgs, &pb.ChunkedMmfRunRequest{Profile: p, NumChunks: int32(announced)})
	}
	st := &runStream{msgs: msgs, end: end}
	var prof *pb.Profile
	var err error
	guard(x, func() string { return describe(msgs) }, func() { prof, err = mmf.GetChunkedRequest(st) })
	if err == nil {
		x.Fail("the stream ended with %v after %d of %d messages, and the reader reported success", end, got, announced)
	}
	if err != end {
		x.Fail("the stream ended with %v, the reader reported %v", end, err)
	}
	if prof != nil {
		x.Fail("a partial profile was returned along with the error: %v", prof)
	}
	if st.recvs != got+1 {
		x.Fail("the reader went on reading after the error: %d reads", st.recvs)
	}
	x.Outcome("%v", err)
}

// fewFields: profiles and messages with next to nothing in them.
func fewFields(x *vrt.X) {
	silence()
	x.Quiet(true)
	n := 1 + x.Choose(3, "messages")
	var msgs []*pb.ChunkedMmfRunRequest
	name, ext := "", map[string]*anypb.Any(nil)
	for i := 0; i < n; i++ {
		m := &pb.ChunkedMmfRunRequest{NumChunks: int32(n)}
		switch x.Choose(3, "profile") {
		case 1:
			m.Profile = &pb.Profile{}
		case 2:
			m.Profile = &pb.Profile{Pools: map[string]*pb.Pool{}}
		}
		msgs = append(msgs, m)
	}
	checkRead(x, msgs, name, ext, nil, map[string]bool{})
	x.Outcome("ok")
}

func init() {
	reg := func(name, doc string, shards int, thoroughOnly bool, body func(*vrt.X)) {
		vrt.Register(vrt.Scenario{Prop: "C10", Name: name, Doc: doc, Shards: shards, TShards: shards, OnlyThorough: thoroughOnly, MaxSteps: 1 << 40, Body: body})
	}
	reg("dist1", "every distribution of up to 3 tickets over 3 pools of 1 message; cells without tickets: pool absent, without roster, with empty roster", 1, false, distribution(3, 1, 3))
	reg("dist2", "the same over 3 pools of 2 messages", 4, false, distribution(3, 2, 3))
	reg("dist32", "the same over 2 pools of 3 messages", 4, false, distribution(3, 3, 2))
	reg("dist33", "the same over 3 pools of 3 messages", 8, true, distribution(3, 3, 3))
	reg("dist42", "the same over 2 pools of 4 messages", 8, true, distribution(3, 4, 2))
	reg("many", "40 messages, 1 pool, each message with or without a ticket at either end", 1, false, func(x *vrt.X) {
		silence()
		x.Quiet(true)
		k := x.Choose(2, "bare messages first") == 0
		var msgs []*pb.ChunkedMmfRunRequest
		want := map[string][]string{}
		for i := 0; i < 40; i++ {
			p := poolFields(1)
			if (i%3 == 0) != k {
				p.Participants = roster("p1")
				for j := 0; j < i; j++ {
					id := fmt.Sprint(i, "-", j)
					p.Participants.Tickets = append(p.Participants.Tickets, tick(id))
					want["p1"] = append(want["p1"], id)
				}
			}
			msgs = append(msgs, &pb.ChunkedMmfRunRequest{NumChunks: 40, Profile: &pb.Profile{Name: "n", Pools: map[string]*pb.Pool{"p1": p}}})
		}
		checkRead(x, msgs, "n", nil, want, map[string]bool{"p1": true})
		x.Outcome("ok")
	})
	reg("labels", "every distribution of up to 2 tickets over 3 pools of 2 messages; pools carry no name, the same or each other's", 3, false, func(x *vrt.X) {
		labels = [][]string{{"", "", ""}, {"same", "same", "same"}, {"p1", "", "p0"}}[x.Choose(3, "names in the pools")]
		defer func() { labels = nil }()
		distribution(2, 2, 3)(x)
	})
	reg("long", "300 to 70000 messages", 1, false, func(x *vrt.X) {
		silence()
		x.Quiet(true)
		n := []int{128, 256, 300, 1025, 4097, 32769, 70000}[x.Choose(7, "messages")]
		var msgs []*pb.ChunkedMmfRunRequest
		want := map[string][]string{}
		for i := 0; i < n; i++ {
			p := poolFields(1)
			p.Participants = roster("p1")
			id := fmt.Sprint("t", i)
			p.Participants.Tickets = []*pb.Ticket{{Id: id, Attributes: tick(id).Attributes}}
			want["p1"] = append(want["p1"], id)
			msgs = append(msgs, &pb.ChunkedMmfRunRequest{NumChunks: int32(n), Profile: &pb.Profile{Name: "n", Pools: map[string]*pb.Pool{"p1": p}}})
		}
		checkRead(x, msgs, "n", nil, want, map[string]bool{"p1": true})
		x.Outcome("ok")
	})
	reg("cutoff", "streams that end before the announced number of messages, with 4 errors", 1, false, cutoff)
	reg("fields", "up to 3 messages with no profile, an empty one or an empty pool map", 1, false, fewFields)
}
