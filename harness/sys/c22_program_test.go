package main

import (
	"bufio"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"sort"
	"strings"
	"sync"
	"time"

	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/encoding/protojson"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/anypb"
	"google.golang.org/protobuf/types/known/timestamppb"
	"google.golang.org/protobuf/types/known/wrapperspb"
	pb "open-match.dev/pkg/pb/v2"
	"verif.local/vrt"
)

// C22 in the running program: the same calls over gRPC and over HTTP.

// answers is what a call brought back.
type answers struct {
	code codes.Code
	msg  string
	res  []proto.Message
}

func (a answers) String() string {
	var l []string
	for _, r := range a.res {
		b, _ := protojson.Marshal(r)
		l = append(l, string(b))
	}
	return fmt.Sprintf("%v %q [%s]", a.code, a.msg, cut(strings.Join(l, ", ")))
}

func methodOf(name string) method {
	for _, m := range methods {
		if m.name == name {
			return m
		}
	}
	panic(name)
}

// overGRPC makes a call over gRPC.
func overGRPC(ctx context.Context, c pb.OpenMatchServiceClient, req proto.Message) (a answers) {
	var err error
	one := func(r proto.Message, e error) {
		err = e
		if e == nil {
			a.res = append(a.res, r)
		}
	}
	switch r := req.(type) {
	case *pb.CreateTicketRequest:
		m, e := c.CreateTicket(ctx, r)
		one(m, e)
	case *pb.ActivateTicketsRequest:
		m, e := c.ActivateTickets(ctx, r)
		one(m, e)
	case *pb.DeactivateTicketsRequest:
		m, e := c.DeactivateTickets(ctx, r)
		one(m, e)
	case *pb.CreateAssignmentsRequest:
		m, e := c.CreateAssignments(ctx, r)
		one(m, e)
	case *pb.MmfRequest:
		s, e := c.InvokeMatchmakingFunctions(ctx, r)
		for err = e; err == nil; {
			var m *pb.StreamedMmfResponse
			if m, err = s.Recv(); err == nil {
				a.res = append(a.res, m)
			}
		}
	case *pb.WatchAssignmentsRequest:
		s, e := c.WatchAssignments(ctx, r)
		for err = e; err == nil; {
			var m *pb.StreamedWatchAssignmentsResponse
			if m, err = s.Recv(); err == nil {
				a.res = append(a.res, m)
			}
		}
	}
	if errors.Is(err, io.EOF) {
		err = nil
	}
	a.code, a.msg = status.Code(err), status.Convert(err).Message()
	return
}

var methodFor = map[string]string{"CreateTicketRequest": "CreateTicket", "ActivateTicketsRequest": "ActivateTickets", "DeactivateTicketsRequest": "DeactivateTickets",
	"CreateAssignmentsRequest": "CreateAssignments", "MmfRequest": "InvokeMatchmakingFunctions", "WatchAssignmentsRequest": "WatchAssignments"}

// overHTTP makes the same call over HTTP.
func overHTTP(ctx context.Context, x *vrt.X, req proto.Message) (a answers) {
	m := methodOf(methodFor[string(req.ProtoReflect().Descriptor().Name())])
	body, err := protojson.Marshal(req)
	if err != nil {
		x.Fail("harness: %v", err)
	}
	what := fmt.Sprintf("%s %s with %s", m.verb, m.path, cut(string(body)))
	hr, err := http.NewRequestWithContext(ctx, m.verb, "http://"+httpAddr+m.path, strings.NewReader(string(body)))
	if err != nil {
		x.Fail("harness: %v", err)
	}
	hr.Header.Set("Content-Type", "application/json")
	resp, err := http.DefaultClient.Do(hr)
	if err != nil {
		x.Fail("%s: %v", what, err)
	}
	defer resp.Body.Close()
	b, err := io.ReadAll(resp.Body)
	if err != nil {
		x.Fail("%s: reading the response after %q: %v", what, cut(string(b)), err)
	}
	failed := func(body []byte) {
		var v struct {
			Code    int
			Message string
		}
		if err := json.Unmarshal(body, &v); err != nil {
			x.Fail("%s: error body %q: %v", what, body, err)
		}
		a.code, a.msg = codes.Code(v.Code), v.Message
	}
	if !m.stream {
		if resp.StatusCode != 200 {
			failed(b)
			if httpCode[a.code] != resp.StatusCode {
				x.Fail("%s: HTTP status %d for %v", what, resp.StatusCode, a.code)
			}
			return
		}
		a.res = append(a.res, parse(x, what, string(b), m.res))
		return
	}
	for _, e := range elements(x, what, string(b)) {
		if e["error"] != nil {
			failed(e["error"])
			continue
		}
		if e["result"] == nil {
			x.Fail("%s: response %q", what, cut(string(b)))
		}
		a.res = append(a.res, parse(x, what, string(e["result"]), m.res))
	}
	if want := httpCode[a.code]; len(a.res) == 0 && want != resp.StatusCode || len(a.res) > 0 && resp.StatusCode != 200 {
		x.Fail("%s: HTTP status %d for %v", what, resp.StatusCode, a)
	}
	return
}

// echo is a matchmaking function that makes a match of every pool.
type echo struct {
	pb.UnimplementedMatchMakingFunctionServiceServer
	pause time.Duration
	fail  error
}

func (e *echo) Run(s pb.MatchMakingFunctionService_RunServer) error {
	pools := map[string][]*pb.Ticket{}
	for n := 1; ; n++ {
		m, err := s.Recv()
		if err != nil {
			return err
		}
		for name, p := range m.GetProfile().GetPools() {
			pools[name] = append(pools[name], p.GetParticipants().GetTickets()...)
		}
		if int(m.NumChunks) == n {
			break
		}
	}
	var names []string
	for n := range pools {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		time.Sleep(e.pause)
		any, _ := anypb.New(wrapperspb.String("why " + n))
		sort.Slice(pools[n], func(i, j int) bool { return pools[n][i].Id < pools[n][j].Id })
		if err := s.Send(&pb.StreamedMmfResponse{Match: &pb.Match{Id: "match " + n, Extensions: map[string]*anypb.Any{"why": any},
			Rosters: map[string]*pb.Roster{"r": {Name: "r", Tickets: pools[n]}}}}); err != nil {
			return err
		}
	}
	return e.fail
}

func (e *echo) serve() (*pb.MatchmakingFunctionSpec, func()) { return serveFunction(e) }

func serveFunction(e pb.MatchMakingFunctionServiceServer) (*pb.MatchmakingFunctionSpec, func()) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		vrt.Violation("harness: %v", err)
	}
	g := grpc.NewServer()
	pb.RegisterMatchMakingFunctionServiceServer(g, e)
	go g.Serve(l)
	return &pb.MatchmakingFunctionSpec{Name: "echo", Type: pb.MatchmakingFunctionSpec_GRPC, Host: "127.0.0.1", Port: int32(l.Addr().(*net.TCPAddr).Port)}, g.Stop
}

// both is a running program and the two ways to call it.
type both struct {
	*zzProgram
	x    *vrt.X
	grpc pb.OpenMatchServiceClient
}

func startBoth(x *vrt.X, env map[string]string) *both {
	e := map[string]string{"OM_STATE_STORAGE_TYPE": "memory", "OM_CACHE_OUT_WAIT_TIMEOUT_MS": "10", "OM_CACHE_IN_WAIT_TIMEOUT_MS": "10", "OM_LOGGING_LEVEL": "error"}
	for k, v := range env {
		e[k] = v
	}
	p := launch(e)
	if !p.up("127.0.0.1:"+p.port) || !p.up(httpAddr) {
		x.Fail("the program does not come up\n%s", p.log())
	}
	return &both{zzProgram: p, x: x, grpc: dial("127.0.0.1:" + p.port)}
}

// call makes a call over gRPC (0) or HTTP (1).
func (b *both) call(how int, req proto.Message) answers {
	ctx, cancel := ctxFor(600 * time.Second)
	defer cancel()
	b.x.Count(1)
	if how == 0 {
		return overGRPC(ctx, b.grpc, req)
	}
	return overHTTP(ctx, b.x, req)
}

// base is the time part of ids that were never given out.
var base = time.Now().UnixMilli()

func manyIds(n int) (l []string) {
	for i := 0; i < n; i++ {
		l = append(l, fmt.Sprintf("%d-%d", base+int64(i), i))
	}
	return
}

func rosterOf(conn string, ids ...string) *pb.Roster {
	r := &pb.Roster{Name: "r"}
	if conn != "" {
		r.Assignment = &pb.Assignment{Connection: conn}
	}
	for _, id := range ids {
		r.Tickets = append(r.Tickets, &pb.Ticket{Id: id})
	}
	return r
}

// calls: every request is answered alike over gRPC and over HTTP.
func calls(first int) func(x *vrt.X) {
	return func(x *vrt.X) { callsFrom(x, first) }
}

func callsFrom(x *vrt.X, first int) {
	b := startBoth(x, nil)
	defer b.stop()
	good, stop := (&echo{}).serve()
	defer stop()
	bad, stop2 := (&echo{fail: status.Error(codes.ResourceExhausted, "had enough")}).serve()
	defer stop2()
	gone := &pb.MatchmakingFunctionSpec{Name: "gone", Type: pb.MatchmakingFunctionSpec_GRPC, Host: "127.0.0.1", Port: 1}
	id0, id1 := manyIds(2)[0], manyIds(2)[1]
	prof := func(names ...string) *pb.Profile {
		p := &pb.Profile{Name: "p", Pools: map[string]*pb.Pool{}}
		for _, n := range names {
			p.Pools[n] = &pb.Pool{Name: n}
		}
		return p
	}
	now := timestamppb.Now()
	reqs := []proto.Message{
		&pb.CreateTicketRequest{},
		&pb.CreateTicketRequest{Ticket: &pb.Ticket{}},
		&pb.CreateTicketRequest{Ticket: &pb.Ticket{ExpirationTime: &timestamppb.Timestamp{Seconds: 1 << 33}}},
		&pb.CreateTicketRequest{Ticket: &pb.Ticket{Attributes: &pb.Ticket_FilterableData{Tags: []string{strings.Repeat("t", 2000000)}, CreationTime: now}}},
		&pb.ActivateTicketsRequest{},
		&pb.ActivateTicketsRequest{TicketIds: []string{id0}},
		&pb.ActivateTicketsRequest{TicketIds: []string{"no id"}},
		&pb.ActivateTicketsRequest{TicketIds: []string{id0, "", "no id"}},
		&pb.ActivateTicketsRequest{TicketIds: manyIds(500)},
		&pb.ActivateTicketsRequest{TicketIds: manyIds(501)},
		&pb.DeactivateTicketsRequest{},
		&pb.DeactivateTicketsRequest{TicketIds: []string{id0}},
		&pb.DeactivateTicketsRequest{TicketIds: []string{"no id"}},
		&pb.DeactivateTicketsRequest{TicketIds: manyIds(500)},
		&pb.DeactivateTicketsRequest{TicketIds: manyIds(501)},
		&pb.CreateAssignmentsRequest{},
		&pb.CreateAssignmentsRequest{AssignmentRoster: rosterOf("", id0)},
		&pb.CreateAssignmentsRequest{AssignmentRoster: rosterOf("c")},
		&pb.CreateAssignmentsRequest{AssignmentRoster: rosterOf("c", id0, id1)},
		&pb.CreateAssignmentsRequest{AssignmentRoster: rosterOf("c", "no id")},
		&pb.CreateAssignmentsRequest{AssignmentRoster: rosterOf("c", manyIds(501)...)},
		&pb.WatchAssignmentsRequest{},
		&pb.WatchAssignmentsRequest{TicketIds: []string{id0}},
		&pb.WatchAssignmentsRequest{TicketIds: []string{id0, id1}},
		&pb.MmfRequest{},
		&pb.MmfRequest{Profile: prof("a")},
		&pb.MmfRequest{Profile: prof("a"), Mmfs: []*pb.MatchmakingFunctionSpec{good}},
		&pb.MmfRequest{Profile: prof("a", "b", "c"), Mmfs: []*pb.MatchmakingFunctionSpec{good}},
		&pb.MmfRequest{Profile: prof("a", "b"), Mmfs: []*pb.MatchmakingFunctionSpec{bad}},
		&pb.MmfRequest{Profile: prof("a"), Mmfs: []*pb.MatchmakingFunctionSpec{gone}},
		&pb.MmfRequest{Mmfs: []*pb.MatchmakingFunctionSpec{good}},
	}
	for _, req := range reqs {
		var got [2]answers
		for k := 0; k < 2; k++ {
			how := (first + k) % 2
			got[how] = b.call(how, req)
		}
		what := cut(fmt.Sprint(req))
		g, h := got[0], got[1]
		if _, ok := req.(*pb.CreateTicketRequest); ok {
			for k, a := range got {
				for _, r := range a.res {
					if r.(*pb.CreateTicketResponse).GetTicketId() == "" {
						x.Fail("%s (way %d): no id: %v", what, k, a)
					}
					r.(*pb.CreateTicketResponse).TicketId = "id"
				}
			}
		}
		same := g.code == h.code && len(g.res) == len(h.res) && g.msg == h.msg
		if _, ok := req.(*pb.MmfRequest); ok {
			same = g.code == h.code && len(g.res) == len(h.res) // (the text may name times and connections)
		}
		sortAnswers(g.res)
		sortAnswers(h.res)
		for i := 0; same && i < len(g.res); i++ {
			same = proto.Equal(g.res[i], h.res[i])
		}
		if !same {
			x.Fail("%s\nover gRPC: %v\nover HTTP: %v", what, g, h)
		}
	}
	x.Outcome("%d", first)
}

func sortAnswers(l []proto.Message) {
	key := func(m proto.Message) string {
		b, _ := proto.MarshalOptions{Deterministic: true}.Marshal(m)
		return string(b)
	}
	sort.Slice(l, func(i, j int) bool { return key(l[i]) < key(l[j]) })
}

// lives: a ticket's life with every step over either way: created, activated,
// matched, assigned, watched.
func lives(part int) func(x *vrt.X) {
	return func(x *vrt.X) { livesOf(x, part) }
}

func livesOf(x *vrt.X, part int) {
	b := startBoth(x, nil)
	defer b.stop()
	fn, stop := (&echo{}).serve()
	defer stop()
	for n := 0; n < 64; n++ {
		if n%8 != part {
			continue
		}
		way := func(step int) int { return n >> step & 1 }
		what := fmt.Sprintf("ways %06b", n)
		ok := func(a answers, step string) {
			if a.code != codes.OK {
				x.Fail("%s, %s: %v\n%s", what, step, a, b.log())
			}
		}
		tag := fmt.Sprintf("tag%d", n)
		ext, _ := anypb.New(wrapperspb.String("ext"))
		tk := &pb.Ticket{Attributes: &pb.Ticket_FilterableData{Tags: []string{tag}, StringArgs: map[string]string{"s": "v ü\n"}, DoubleArgs: map[string]float64{"d": -1.5}},
			Extensions: map[string]*anypb.Any{"e": ext}}
		a := b.call(way(0), &pb.CreateTicketRequest{Ticket: tk})
		ok(a, "create")
		id := a.res[0].(*pb.CreateTicketResponse).TicketId
		pool := &pb.MmfRequest{Profile: &pb.Profile{Name: "p", Pools: map[string]*pb.Pool{"x": {Name: "x", TagPresentFilters: []*pb.Pool_TagPresentFilter{{Tag: tag}}}}}, Mmfs: []*pb.MatchmakingFunctionSpec{fn}}
		fetch := func(w int, want bool, step string) {
			for end := time.Now().Add(30 * time.Second); ; time.Sleep(20 * time.Millisecond) {
				a := b.call(w, pool)
				ok(a, step)
				if len(a.res) != 1 {
					x.Fail("%s, %s: %v", what, step, a)
				}
				l := a.res[0].(*pb.StreamedMmfResponse).GetMatch().GetRosters()["r"].GetTickets()
				if len(l) == 1 == want {
					if want {
						got := proto.Clone(l[0]).(*pb.Ticket)
						got.Id, got.ExpirationTime, got.Attributes.CreationTime = "", nil, nil
						if l[0].Id != id || !proto.Equal(got, tk) {
							x.Fail("%s, %s: ticket %v, created as %v with id %s", what, step, l[0], tk, id)
						}
					}
					return
				}
				if time.Now().After(end) {
					x.Fail("%s, %s: ticket %s in the pool: %v", what, step, id, l)
				}
			}
		}
		fetch(way(5), false, "fetch before activation")
		ok(b.call(way(1), &pb.ActivateTicketsRequest{TicketIds: []string{id}}), "activate")
		fetch(way(2), true, "fetch")
		fetch(way(5), false, "fetch after the match")
		ok(b.call(way(1), &pb.ActivateTicketsRequest{TicketIds: []string{id}}), "activate again")
		fetch(way(2), true, "fetch again")
		ok(b.call(way(1), &pb.ActivateTicketsRequest{TicketIds: []string{id}}), "activate")
		ok(b.call(way(3), &pb.DeactivateTicketsRequest{TicketIds: []string{id}}), "deactivate")
		fetch(way(5), false, "fetch after deactivation")
		// The watch begins before the assignment half of the time.
		var wg sync.WaitGroup
		var seen answers
		watch := func() { seen = b.call(way(5), &pb.WatchAssignmentsRequest{TicketIds: []string{id}}) }
		early := n%3 == 0
		if early {
			wg.Add(1)
			go func() { defer wg.Done(); watch() }()
			time.Sleep(30 * time.Millisecond)
		}
		ok(b.call(way(4), &pb.CreateAssignmentsRequest{AssignmentRoster: rosterOf("conn "+tag, id)}), "assign")
		if early {
			wg.Wait()
		} else {
			watch()
		}
		ok(seen, "watch")
		if len(seen.res) != 1 || seen.res[0].(*pb.StreamedWatchAssignmentsResponse).GetId() != id || seen.res[0].(*pb.StreamedWatchAssignmentsResponse).GetAssignment().GetConnection() != "conn "+tag {
			x.Fail("%s, watch: %v", what, seen)
		}
	}
	x.Outcome("%d", part)
}

// long: streams that stay silent for long are not cut off.
func long(d time.Duration) func(x *vrt.X) {
	return func(x *vrt.X) {
		b := startBoth(x, map[string]string{"OM_MMF_TIMEOUT_SECS": "500"})
		defer b.stop()
		fn, stop := (&echo{pause: d}).serve()
		defer stop()
		var wg sync.WaitGroup
		var w, f answers
		a := b.call(1, &pb.CreateTicketRequest{Ticket: &pb.Ticket{}})
		if a.code != codes.OK {
			x.Fail("create: %v", a)
		}
		id := a.res[0].(*pb.CreateTicketResponse).TicketId
		wg.Add(3)
		var err error
		go func() {
			defer wg.Done()
			w = b.call(1, &pb.WatchAssignmentsRequest{TicketIds: []string{id}})
		}()
		go func() {
			defer wg.Done()
			f = b.call(1, &pb.MmfRequest{Profile: &pb.Profile{Name: "p", Pools: map[string]*pb.Pool{"x": {Name: "x"}, "y": {Name: "y"}}}, Mmfs: []*pb.MatchmakingFunctionSpec{fn}})
		}()
		go func() {
			// a request whose body takes its time
			defer wg.Done()
			var c net.Conn
			if c, err = net.Dial("tcp", httpAddr); err != nil {
				return
			}
			defer c.Close()
			body := `{"ticket":{}}`
			fmt.Fprintf(c, "POST /v2/tickets HTTP/1.1\r\nHost: x\r\nContent-Type: application/json\r\nContent-Length: %d\r\n\r\n%s", len(body), body[:5])
			time.Sleep(d)
			fmt.Fprint(c, body[5:])
			var r *http.Response
			if r, err = http.ReadResponse(bufio.NewReader(c), nil); err == nil && r.StatusCode != 200 {
				err = fmt.Errorf("HTTP status %s", r.Status)
			}
		}()
		time.Sleep(d)
		if a := b.call(1, &pb.CreateAssignmentsRequest{AssignmentRoster: rosterOf("conn", id)}); a.code != codes.OK {
			x.Fail("assign: %v", a)
		}
		wg.Wait()
		if len(w.res) != 1 || w.code != codes.OK {
			x.Fail("a watch over HTTP, assigned after %v: %v", d, w)
		}
		if len(f.res) != 2 || f.code != codes.OK {
			x.Fail("an invocation over HTTP whose function makes a match every %v: %v", d, f)
		}
		if err != nil {
			x.Fail("a request over HTTP that took %v to arrive: %v", d, err)
		}
		x.Outcome("%v", d)
	}
}

func init() {
	reg := func(sc vrt.Scenario) { sc.Prop = "C22"; sc.NoCache = true; vrt.Register(sc) }
	for i, d := range []int{125, 61, 31, 16, 6, 1} {
		reg(vrt.Scenario{Name: fmt.Sprintf("long%d", d), Doc: fmt.Sprintf("the running program: streams silent for %d seconds and requests that take as long to arrive", d), OnlyThorough: i < 2, TShards: 1, Body: long(time.Duration(d) * time.Second)})
	}
	for i, n := range []string{"calls-grpc", "calls-http"} {
		reg(vrt.Scenario{Name: n, Doc: "the running program: 31 requests over gRPC and over HTTP, this one first", TShards: 1, Body: calls(i)})
	}
	for i := 0; i < 8; i++ {
		reg(vrt.Scenario{Name: fmt.Sprintf("lives%d", i), Doc: "the running program: lives of 8 tickets with every step over either way (64 combinations together)", TShards: 1, Body: lives(i)})
	}
}
