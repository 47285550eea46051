package main

import (
	"fmt"
	"math"
	"strings"
	"time"

	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/anypb"
	"google.golang.org/protobuf/types/known/timestamppb"
	pb "open-match.dev/pkg/pb/v2"
	"verif.local/vrt"
)

// shapes are ticket contents without timestamps.
func shapes() map[string]*pb.Ticket {
	nan, inf := math.NaN(), math.Inf(1)
	many := &pb.Ticket{Attributes: &pb.Ticket_FilterableData{StringArgs: map[string]string{}, DoubleArgs: map[string]float64{}}, Extensions: map[string]*anypb.Any{}}
	for i := 0; i < 300; i++ {
		k := fmt.Sprint("k", i)
		many.Attributes.Tags = append(many.Attributes.Tags, k)
		many.Attributes.StringArgs[k] = k
		many.Attributes.DoubleArgs[k] = float64(i)
		many.Extensions[k] = &anypb.Any{TypeUrl: k, Value: []byte(k)}
	}
	return map[string]*pb.Ticket{
		"a empty":         {},
		"b no attributes": {Extensions: map[string]*anypb.Any{"e": {TypeUrl: "type.example/x", Value: []byte{0, 255, 10, 13, 36}}}},
		"c empty attrs":   {Attributes: &pb.Ticket_FilterableData{}},
		"d tags":          {Attributes: &pb.Ticket_FilterableData{Tags: []string{"z", "", "a", "z", "ü\x00\r\n"}}},
		"e strings":       {Attributes: &pb.Ticket_FilterableData{StringArgs: map[string]string{"": "empty", "k": "", "long": strings.Repeat("x", 5000)}}},
		"f doubles":       {Attributes: &pb.Ticket_FilterableData{DoubleArgs: map[string]float64{"": 1, "nan": nan, "inf": inf, "-inf": -inf, "-0": math.Copysign(0, -1), "tiny": math.SmallestNonzeroFloat64, "max": math.MaxFloat64}}},
		"g client id": {Id: "42-7", Attributes: &pb.Ticket_FilterableData{Tags: []string{"t"}, StringArgs: map[string]string{"s": "v"}, DoubleArgs: map[string]float64{"d": 2.5}},
			Extensions: map[string]*anypb.Any{"": {}, "two": {TypeUrl: "type.example/y"}}},
		"h many": many,
		"i long": {Attributes: &pb.Ticket_FilterableData{Tags: []string{strings.Repeat("t", 70000)}}, Extensions: map[string]*anypb.Any{"e": {Value: make([]byte, 300000)}}},
	}
}

// fidelity creates a ticket for every combination of timestamps and compares
// it with the one an MMF is sent.
func fidelity(storage string) func(x *vrt.X) {
	return func(x *vrt.X) {
		x.Quiet(true)
		ttl := []int{1, 60, 600, 86400}[x.Choose(4, "ticket lifetime")]
		life := time.Duration(ttl) * time.Second
		all := shapes()
		name := keys(all)[x.Choose(len(all), "shape")]
		shape := all[name]
		rest := proto.Clone(shape).(*pb.Ticket)
		rest.Id = ""
		w := newWorld(x, opts{storage: storage, cfg: fast(map[string]any{"OM_CACHE_OUT_MAX_QUEUE_THRESHOLD": 1, "OM_CACHE_IN_WAIT_TIMEOUT_MS": 20, "OM_CACHE_TICKET_TTL_SECS": ttl})})
		x.Sleep(7*time.Millisecond + 123*time.Nanosecond)
		type ct struct {
			name string
			at   *timestamppb.Timestamp
		}
		now := x.Now()
		cts := []ct{{"none", nil}, {"now", ts(now)}, {"past", ts(now.Add(-life/2 - 17))}, {"future", ts(now.Add(3*time.Hour + 5))}, {"epoch", &timestamppb.Timestamp{}}, {"before epoch", &timestamppb.Timestamp{Seconds: -5, Nanos: 999999999}},
			{"bad nanos", &timestamppb.Timestamp{Seconds: now.Unix(), Nanos: 1e9}}, {"negative nanos", &timestamppb.Timestamp{Seconds: now.Unix(), Nanos: -1}}, {"too late", &timestamppb.Timestamp{Seconds: 253402300800}}, {"too early", &timestamppb.Timestamp{Seconds: -62135596801}}}
		type exp struct {
			id, what string
			want     *pb.Ticket
		}
		var alive, dead []exp
		for _, c := range cts {
			for e := 0; e < 13; e++ {
				start := x.Now()
				created := start
				if c.at != nil && c.at.IsValid() {
					created = c.at.AsTime()
				}
				limit := created.Add(life)
				var ex *timestamppb.Timestamp
				want := limit
				switch e {
				case 0: // none
				case 1:
					ex = ts(limit)
				case 2:
					ex = ts(limit.Add(1))
				case 3:
					ex = ts(limit.Add(-1))
					want = limit.Add(-1)
				case 4:
					ex = ts(limit.Add(life))
				case 5:
					ex = ts(limit.Add(-life / 3))
					want = limit.Add(-life / 3)
				case 6:
					ex = &timestamppb.Timestamp{Seconds: limit.Unix(), Nanos: 2e9}
				case 7:
					ex = &timestamppb.Timestamp{Seconds: limit.Unix() - 1, Nanos: -1}
				case 8:
					ex = &timestamppb.Timestamp{Seconds: 253402300800}
				case 9:
					ex = &timestamppb.Timestamp{Seconds: 253402300799}
					if !ex.AsTime().After(limit) {
						want = ex.AsTime()
					}
				case 10:
					ex = &timestamppb.Timestamp{} // long ago
					if !ex.AsTime().After(limit) {
						want = ex.AsTime()
					}
				case 11:
					ex = ts(created)
					want = created
				case 12:
					ex = &timestamppb.Timestamp{Seconds: -62135596801}
				}
				if e != 0 && e != 9 && e != 10 && c.at == nil {
					// relative to the time of the call: no time passes before it
					if !x.Now().Equal(start) {
						x.Fail("harness: time passed")
					}
				}
				in := proto.Clone(shape).(*pb.Ticket)
				if c.at != nil {
					if in.Attributes == nil {
						in.Attributes = &pb.Ticket_FilterableData{}
					}
					in.Attributes.CreationTime = proto.Clone(c.at).(*timestamppb.Timestamp)
				}
				if ex != nil {
					in.ExpirationTime = ex
				}
				what := fmt.Sprintf("ticket %q, creation %s, expiration case %d, lifetime %v", name, c.name, e, life)
				id, err := w.create(bg(), in)
				if err != nil {
					x.Fail("CreateTicket (%s) failed: %v", what, err)
				}
				r := proto.Clone(rest).(*pb.Ticket)
				if r.Attributes == nil {
					r.Attributes = &pb.Ticket_FilterableData{}
				}
				r.Attributes.CreationTime = ts(created)
				r.ExpirationTime = ts(want)
				r.Id = id
				if want.After(start.Add(time.Second / 2)) {
					alive = append(alive, exp{id, what, r})
				} else {
					dead = append(dead, exp{id, what, r})
				}
				x.Count(1)
				if len(alive)+len(dead) == 26 || c.name == cts[len(cts)-1].name && e == 12 {
					check := map[string]exp{}
					var l []string
					for _, v := range alive {
						check[v.id] = v
						l = append(l, v.id)
					}
					for _, v := range dead {
						l = append(l, v.id)
					}
					if err := w.activate(l...); err != nil {
						x.Fail("activation failed: %v", err)
					}
					x.Sleep(100 * time.Millisecond)
					for _, t := range w.pools(everyone())["all"] {
						v, ok := check[t.GetId()]
						if !ok {
							continue
						}
						if !proto.Equal(t, v.want) {
							x.Fail("%s: sent to the MMF as\n %v\nwant\n %v", v.what, t, v.want)
						}
						delete(check, t.GetId())
					}
					for _, v := range check {
						x.Fail("%s: not in the pool", v.what)
					}
					w.deactivate(l...)
					alive, dead = nil, nil
				}
			}
		}
		x.Outcome("%s %d", name, ttl)
	}
}

// stored compares what is written to the storage, expired tickets included.
func stored(x *vrt.X) {
	x.Quiet(true)
	f := &fakeStore{}
	ttls := []int{0, 1, 3600}
	ttl := ttls[x.Choose(len(ttls), "ticket lifetime")]
	life := time.Duration(ttl) * time.Second
	newWorld(x, opts{storage: "fake", fake: f, noIn: true, cfg: fast(map[string]any{"OM_CACHE_OUT_MAX_QUEUE_THRESHOLD": 1, "OM_CACHE_TICKET_TTL_SECS": ttl})})
	srv := &grpcServer{}
	offs := []time.Duration{-1000 * time.Hour, -life - 1, -life, -life + 1, -1, 0, 1, life - 1, life, life + 1, 2 * life, 1000 * time.Hour}
	for ci := -1; ci < len(offs); ci++ {
		for ei := -1; ei < len(offs); ei++ {
			x.Sleep(1300 * time.Microsecond)
			now := x.Now()
			t := &pb.Ticket{Attributes: &pb.Ticket_FilterableData{Tags: []string{"t"}}}
			created := now
			if ci >= 0 {
				created = now.Add(offs[ci])
				t.Attributes.CreationTime = ts(created)
			}
			want := created.Add(life)
			if ei >= 0 {
				ex := created.Add(offs[ei])
				t.ExpirationTime = ts(ex)
				if !ex.After(want) {
					want = ex
				}
			}
			in := proto.Clone(t).(*pb.Ticket)
			id, err := srv.CreateTicket(bg(), &pb.CreateTicketRequest{Ticket: in})
			if err != nil {
				x.Fail("CreateTicket failed: %v", err)
			}
			got := &pb.Ticket{}
			if err := proto.Unmarshal([]byte(f.log[len(f.log)-1].Value), got); err != nil {
				x.Fail("stored ticket: %v", err)
			}
			t.Attributes.CreationTime = ts(created)
			t.ExpirationTime = ts(want)
			got.Id = ""
			if !proto.Equal(got, t) {
				x.Fail("created %d, expires %d, lifetime %v: stored\n %v\nwant\n %v", ci, ei, life, got, t)
			}
			if id.GetTicketId() != f.ids[len(f.ids)-1] {
				x.Fail("returned id %q, stored as %q", id.GetTicketId(), f.ids[len(f.ids)-1])
			}
			x.Count(1)
		}
	}
	x.Outcome("%d", ttl)
}

func init() {
	reg := func(sc vrt.Scenario) { sc.Prop = "C06"; vrt.Register(sc) }
	for _, st := range []string{"memory", "redis"} {
		reg(vrt.Scenario{Name: "fidelity-" + st, Doc: "9 ticket shapes x 10 creation times x 13 expiration times x 4 lifetimes, compared with the ticket an MMF is sent", Quick: 0, Shards: 2, MaxSteps: 50_000_000, Body: fidelity(st)})
	}
	reg(vrt.Scenario{Name: "stored", Doc: "13 creation times x 13 expiration times around the lifetime x 3 lifetimes, compared with the stored record", Quick: 0, MaxSteps: 50_000_000, Body: stored})
}
