package main

import (
	"errors"
	"fmt"
	"io"
	"net/http"
	"strings"
	context "verif.local/vrt/vctx"

	"google.golang.org/grpc"
	"google.golang.org/protobuf/encoding/protojson"
	pb "open-match.dev/pkg/pb/v2"
	"verif.local/vrt"
)

// C20: the example matchmaker's activateTickets.

// server default of OM_MAX_STATE_UPDATES_PER_CALL (core/internal/config)
const maxPerCall = 500

type activations struct {
	x *vrt.X
	pb.OpenMatchServiceClient
	calls    [][]string
	started  int
	finished int
	failAt   int // call number that fails, -1 none
	returned bool
}

func (a *activations) take(req *pb.ActivateTicketsRequest) error {
	if a.returned {
		a.x.Fail("an activation call started after activateTickets returned")
	}
	n := a.started
	a.started++
	a.calls = append(a.calls, append([]string{}, req.GetTicketIds()...))
	vrt.Sleep(10e6) // the call takes a while
	a.finished++
	if n == a.failAt {
		return errors.New("call failed")
	}
	return nil
}

func (a *activations) ActivateTickets(ctx context.Context, req *pb.ActivateTicketsRequest, _ ...grpc.CallOption) (*pb.ActivateTicketsResponse, error) {
	if err := a.take(req); err != nil {
		return nil, err
	}
	return &pb.ActivateTicketsResponse{}, nil
}

// RoundTrip is the HTTP server.
func (a *activations) RoundTrip(r *http.Request) (*http.Response, error) {
	if r.Method != "POST" || !strings.HasSuffix(r.URL.Path, "/tickets:activate") {
		a.x.Fail("request %s %s", r.Method, r.URL.Path)
	}
	b, err := io.ReadAll(r.Body)
	if err != nil {
		return nil, err
	}
	req := &pb.ActivateTicketsRequest{}
	if err := protojson.Unmarshal(b, req); err != nil {
		a.x.Fail("request body %q is not an ActivateTicketsRequest: %v", b, err)
	}
	if err := a.take(req); err != nil {
		return nil, err
	}
	return &http.Response{StatusCode: 200, Status: "200 OK", Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: http.Header{}, Body: io.NopCloser(strings.NewReader("{}")), Request: r}, nil
}

func (a *activations) check(want []string) {
	x := a.x
	if a.finished != a.started {
		x.Fail("activateTickets returned while %d of %d calls were still running", a.started-a.finished, a.started)
	}
	seen := map[string]int{}
	for _, c := range a.calls {
		if len(c) > maxPerCall {
			x.Fail("a call with %d ids; the server takes %d", len(c), maxPerCall)
		}
		if len(c) == 0 {
			x.Fail("a call without ids, which the server refuses")
		}
		for _, id := range c {
			seen[id]++
		}
	}
	for _, id := range want {
		if seen[id] != 1 {
			x.Fail("id %s was activated %d times", id, seen[id])
		}
		delete(seen, id)
	}
	for id := range seen {
		x.Fail("id %q was activated but never queued", id)
	}
}

func activation(n int, fail bool) func(x *vrt.X) {
	return func(x *vrt.X) {
		silence()
		*connType = []string{"grpc", "http"}[x.Choose(2, "connection")]
		a := &activations{x: x, failAt: -1}
		if calls := (n + maxPerCall - 1) / maxPerCall; fail && calls > 0 {
			a.failAt = x.Choose(calls+1, "failing call") - 1
		}
		q := vrt.Made(make(chan string, 10000))
		var want []string
		x.Quiet(true)
		for i := 0; i < n; i++ {
			id := fmt.Sprintf("17-%d", i)
			want = append(want, id)
			vrt.Send(q, id)
		}
		x.Quiet(false)
		ctx := context.WithValue(context.Background(), "type", "activate")
		activateTickets(ctx, a, &http.Client{Transport: a}, q)
		a.returned = true
		a.check(want)
		x.Sleep(1e9)
		x.Outcome("%d calls, first %d", len(a.calls), func() int {
			if len(a.calls) == 0 {
				return 0
			}
			return len(a.calls[0])
		}())
	}
}

// arriving: ids arrive while activateTickets runs, which is called again and
// again, as in the example's frontend.
func arriving(x *vrt.X) {
	silence()
	*connType = "grpc"
	a := &activations{x: x, failAt: -1}
	q := vrt.Made(make(chan string, 10000))
	var want []string
	n := 498 + x.Choose(3, "ids at first")
	x.Quiet(true)
	for i := 0; i < n; i++ {
		id := fmt.Sprintf("17-%d", i)
		want = append(want, id)
		vrt.Send(q, id)
	}
	x.Quiet(false)
	ctx := context.WithValue(context.Background(), "type", "activate")
	p := x.Go("producer", func() {
		for i := 0; i < 3; i++ {
			id := fmt.Sprintf("18-%d", i)
			want = append(want, id)
			vrt.Send(q, id)
		}
	})
	activateTickets(ctx, a, nil, q)
	if a.finished != a.started {
		x.Fail("activateTickets returned while %d of %d calls were still running", a.started-a.finished, a.started)
	}
	x.Join(p)
	activateTickets(ctx, a, nil, q)
	a.returned = true
	a.check(want)
	x.Outcome("%d", len(a.calls))
}

func init() {
	for _, n := range []int{0, 1, 2, 499, 500, 501, 999, 1000, 1001, 1499, 1500, 1501, 2500} {
		quick, thorough := 3, 4
		if n > 1000 {
			quick, thorough = 2, 3
		}
		if n > 1501 {
			quick, thorough = 1, 2
		}
		vrt.Register(vrt.Scenario{Prop: "C20", Name: fmt.Sprintf("queue%d", n), Doc: fmt.Sprintf("%d queued ids, over gRPC and HTTP, every interleaving of the calls up to the bound", n),
			Quick: quick, Thorough: thorough, Body: activation(n, false)})
	}
	for _, n := range []int{1, 501, 1500} {
		vrt.Register(vrt.Scenario{Prop: "C20", Name: fmt.Sprintf("fail%d", n), Doc: fmt.Sprintf("%d queued ids, every single call failing", n),
			Quick: 1, Thorough: 2, Body: activation(n, true)})
	}
	vrt.Register(vrt.Scenario{Prop: "C20", Name: "arriving", Doc: "498 to 500 queued ids, 3 more arriving during the first of two calls", Shards: 2, Quick: 2, Thorough: 3, Body: arriving})
}
