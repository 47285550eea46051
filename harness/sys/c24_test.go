package main

import (
	"context"
	"fmt"
	"regexp"
	"strconv"
	"strings"
	"time"

	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/proto"
	pb "open-match.dev/pkg/pb/v2"
	"verif.local/vrt"
)

// C24 in the running program: what its metrics address serves.

const metricsAddr = "127.0.0.1:2223"

var sampleLine = regexp.MustCompile(`^([a-zA-Z_:][a-zA-Z0-9_:]*)(?:\{(.*)\})? ([^ ]+)$`)

// scrape sums the samples whose name starts and ends as given and that have the label.
func (b *both) scrape() func(prefix, suffix, label string) float64 {
	st, _, body, err := call("GET", "http://"+metricsAddr+"/metrics", "")
	if err != nil || st != 200 {
		b.x.Fail("GET /metrics: %d %v\n%s", st, err, b.log())
	}
	return func(prefix, suffix, label string) (sum float64) {
		for _, l := range strings.Split(body, "\n") {
			m := sampleLine.FindStringSubmatch(l)
			if m == nil || !strings.HasPrefix(m[1], prefix) || !strings.HasSuffix(m[1], suffix) || !strings.Contains(m[2], label) {
				continue
			}
			v, err := strconv.ParseFloat(m[3], 64)
			if err != nil {
				b.x.Fail("GET /metrics: %q", l)
			}
			sum += v
		}
		return
	}
}

// exported: after every call, over either way, the exported numbers are right.
func exported(first int) func(x *vrt.X) {
	return func(x *vrt.X) {
		b := startBoth(x, nil)
		defer b.stop()
		if !b.up(metricsAddr) {
			x.Fail("no metrics at %s\n%s", metricsAddr, b.log())
		}
		good, stop := (&echo{}).serve()
		defer stop()
		good.Name = "good"
		bad, stop2 := (&echo{fail: status.Error(codes.ResourceExhausted, "had enough")}).serve()
		defer stop2()
		bad.Name = "bad"
		prof := &pb.Profile{Name: "p", Pools: map[string]*pb.Pool{"a": {Name: "a"}, "b": {Name: "b"}}}
		l := manyIds(3)
		reqs := []proto.Message{
			&pb.CreateTicketRequest{},
			&pb.CreateTicketRequest{Ticket: &pb.Ticket{}},
			&pb.ActivateTicketsRequest{},
			&pb.ActivateTicketsRequest{TicketIds: l},
			&pb.ActivateTicketsRequest{TicketIds: []string{l[0], "no id", l[1]}},
			&pb.DeactivateTicketsRequest{},
			&pb.DeactivateTicketsRequest{TicketIds: l[:2]},
			&pb.CreateAssignmentsRequest{},
			&pb.CreateAssignmentsRequest{AssignmentRoster: rosterOf("c", l...)},
			&pb.WatchAssignmentsRequest{TicketIds: l[:2]},
			&pb.MmfRequest{},
			&pb.MmfRequest{Profile: prof, Mmfs: []*pb.MatchmakingFunctionSpec{good}},
			&pb.MmfRequest{Profile: prof, Mmfs: []*pb.MatchmakingFunctionSpec{good, bad}},
		}
		type sample struct{ prefix, suffix, label string }
		want := map[sample]float64{}
		agree := func(what string) {
			for end := time.Now().Add(20 * time.Second); ; time.Sleep(20 * time.Millisecond) {
				got := b.scrape()
				diff := ""
				for k, v := range want {
					if g := got(k.prefix, k.suffix, k.label); g != v {
						diff += fmt.Sprintf("%s*%s{%s} is %v, should be %v; ", k.prefix, k.suffix, k.label, g, v)
					}
				}
				if diff == "" {
					return
				}
				if time.Now().After(end) {
					x.Fail("after %s: %s", what, diff)
				}
			}
		}
		for _, m := range methods {
			want[sample{"om_core_rpc_duration", "_count", `rpc="` + m.name + `"`}] = 0
			want[sample{"om_core_rpc_errors", "", `rpc="` + m.name + `"`}] = 0
		}
		agree("the start")
		for i, req := range reqs {
			for k := 0; k < 2; k++ {
				a := b.call((first+k)%2, req)
				name := methodFor[string(req.ProtoReflect().Descriptor().Name())]
				want[sample{"om_core_rpc_duration", "_count", `rpc="` + name + `"`}]++
				if a.code != codes.OK {
					want[sample{"om_core_rpc_errors", "", `rpc="` + name + `"`}]++
				}
				if (i == 0 || i == 2 || i == 5 || i == 7 || i == 10) != (a.code != codes.OK) && i != 4 && i != 12 {
					x.Fail("%v: %v", req, a)
				}
				add := func(metric string, n int) {
					want[sample{metric, "_sum", ""}] += float64(n)
					want[sample{metric, "_count", ""}]++
				}
				switch i {
				case 3:
					add("om_core_ticket_activation_requests", 3)
				case 4:
					add("om_core_ticket_activation_requests", 2)
				case 6:
					add("om_core_ticket_deactivation_requests", 2)
				case 8:
					add("om_core_ticket_assignment", 3)
				case 11:
					want[sample{"om_core_match_received", "", `mmf_name="good"`}] += 2
				case 12:
					want[sample{"om_core_match_received", "", `mmf_name="good"`}] += 2
					want[sample{"om_core_match_received", "", `mmf_name="bad"`}] += 2
				}
				agree(fmt.Sprintf("%v, way %d", cut(fmt.Sprint(req)), (first+k)%2))
			}
		}
		// The gauges: one ticket was created each way, none is active.
		want[sample{"om_core_cache_tickets_inactive", "", ""}] = 2
		want[sample{"om_core_cache_tickets_active", "", ""}] = 0
		want[sample{"om_core_cache_assignments", "", ""}] = 3
		want[sample{"om_core_ticket_assigment_watch", "", ""}] = 0
		agree("all calls")
		// An active one, and watches whose callers leave.
		a := b.call(first, &pb.CreateTicketRequest{Ticket: &pb.Ticket{}})
		b.call(first, &pb.ActivateTicketsRequest{TicketIds: []string{a.res[0].(*pb.CreateTicketResponse).TicketId}})
		ctx, cancel := context.WithCancel(context.Background())
		if _, err := b.grpc.WatchAssignments(ctx, &pb.WatchAssignmentsRequest{TicketIds: []string{a.res[0].(*pb.CreateTicketResponse).TicketId}}); err != nil {
			x.Fail("watch: %v", err)
		}
		want = map[sample]float64{{"om_core_cache_tickets_inactive", "", ""}: 2, {"om_core_cache_tickets_active", "", ""}: 1, {"om_core_ticket_assigment_watch", "", ""}: 1}
		agree("one more ticket, active and watched")
		cancel()
		want[sample{"om_core_ticket_assigment_watch", "", ""}] = 0
		agree("the watcher left")
		x.Outcome("%d", first)
	}
}

func init() {
	for first := 0; first < 2; first++ {
		vrt.Register(vrt.Scenario{Prop: "C24", Name: fmt.Sprintf("program.%d", first), Doc: "13 requests twice each over gRPC and HTTP; the exported metrics after each", MaxTime: 600 * time.Second, Body: exported(first)})
	}
}
