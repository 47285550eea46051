package main

import (
	"bytes"
	stdcontext "context"
	"errors"
	"fmt"
	"io"
	"log"
	"net/http"
	"net/http/httptest"
	"sort"
	"strings"
	"time"

	"github.com/grpc-ecosystem/grpc-gateway/v2/runtime"
	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/metadata"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/types/known/anypb"
	"google.golang.org/protobuf/types/known/wrapperspb"
	gw "open-match.dev/pkg/api/v2"
	pb "open-match.dev/pkg/pb/v2"
	"verif.local/vdep/vgrpc"
	"verif.local/vrt"
	"verif.local/vrt/vrand"
)

// C25: the example matchmaker's main loop and its mock frontend, against a
// stand-in for om-core that answers over gRPC and, through the real gateway,
// over HTTP.

// fetch is what om-core answers to one fetch of matches.
type fetch struct {
	matches []*pb.Match
	err     error // after the matches
	broken  bool  // the HTTP connection breaks after the matches
	refused bool  // the HTTP connection cannot be made
}

type omCore struct {
	x *vrt.X
	pb.UnimplementedOpenMatchServiceServer
	fetches   []fetch
	fetched   int
	rejects   func(n int) bool // whether the n-th decision is a rejection
	decisions int
	activated map[string]int
	running   int
	piece     int // bytes per read of an HTTP body
	created   []string
	failing   func(n int) error
	creations int
	onFetch   func()
	o         vrt.Obj
}

func (o *omCore) touch(what string) {
	if vrt.Exiting() {
		vrt.Bail()
	}
	vrt.Touch(what, &o.o, true)
}

func (o *omCore) next() fetch {
	o.touch("fetch")
	if o.onFetch != nil {
		o.onFetch()
	}
	o.fetched++
	if o.fetched > len(o.fetches) {
		return fetch{}
	}
	return o.fetches[o.fetched-1]
}

func (o *omCore) InvokeMatchmakingFunctions(r *pb.MmfRequest, s pb.OpenMatchService_InvokeMatchmakingFunctionsServer) error {
	f := o.next()
	for _, m := range f.matches {
		if err := s.Send(&pb.StreamedMmfResponse{Match: m}); err != nil {
			return err
		}
	}
	return f.err
}

func (o *omCore) ActivateTickets(_ stdcontext.Context, r *pb.ActivateTicketsRequest) (*pb.ActivateTicketsResponse, error) {
	o.touch("activate")
	o.running++
	vrt.Sleep(10e6)
	o.touch("activated")
	o.running--
	if len(r.GetTicketIds()) > maxPerCall {
		o.x.Fail("an activation of %d tickets; the server takes %d", len(r.GetTicketIds()), maxPerCall)
	}
	for _, id := range r.GetTicketIds() {
		o.activated[id]++
	}
	return &pb.ActivateTicketsResponse{}, nil
}

func (o *omCore) CreateTicket(_ stdcontext.Context, r *pb.CreateTicketRequest) (*pb.CreateTicketResponse, error) {
	o.touch("create")
	n := o.creations
	o.creations++
	if r.GetTicket() == nil {
		o.x.Fail("creation of no ticket")
	}
	if o.failing != nil {
		if err := o.failing(n); err != nil {
			return nil, err
		}
	}
	id := fmt.Sprintf("1700000000000-%d", n)
	o.created = append(o.created, id)
	return &pb.CreateTicketResponse{TicketId: id}, nil
}

// local makes the gateway call om-core directly.
type local struct {
	o *omCore
	f *fetch
}

func (l *local) CreateTicket(ctx stdcontext.Context, r *pb.CreateTicketRequest, _ ...grpc.CallOption) (*pb.CreateTicketResponse, error) {
	return l.o.CreateTicket(ctx, r)
}
func (l *local) ActivateTickets(ctx stdcontext.Context, r *pb.ActivateTicketsRequest, _ ...grpc.CallOption) (*pb.ActivateTicketsResponse, error) {
	return l.o.ActivateTickets(ctx, r)
}
func (l *local) DeactivateTickets(ctx stdcontext.Context, r *pb.DeactivateTicketsRequest, _ ...grpc.CallOption) (*pb.DeactivateTicketsResponse, error) {
	return nil, status.Error(codes.Unimplemented, "not here")
}
func (l *local) CreateAssignments(ctx stdcontext.Context, r *pb.CreateAssignmentsRequest, _ ...grpc.CallOption) (*pb.CreateAssignmentsResponse, error) {
	return nil, status.Error(codes.Unimplemented, "not here")
}
func (l *local) WatchAssignments(ctx stdcontext.Context, r *pb.WatchAssignmentsRequest, _ ...grpc.CallOption) (pb.OpenMatchService_WatchAssignmentsClient, error) {
	return nil, status.Error(codes.Unimplemented, "not here")
}
func (l *local) InvokeMatchmakingFunctions(ctx stdcontext.Context, r *pb.MmfRequest, _ ...grpc.CallOption) (pb.OpenMatchService_InvokeMatchmakingFunctionsClient, error) {
	f := l.o.next()
	l.f = &f
	return &replies{f: f}, nil
}

type replies struct {
	grpc.ClientStream
	f fetch
	n int
}

func (s *replies) Recv() (*pb.StreamedMmfResponse, error) {
	if s.n < len(s.f.matches) {
		s.n++
		return &pb.StreamedMmfResponse{Match: s.f.matches[s.n-1]}, nil
	}
	if s.f.err != nil {
		return nil, s.f.err
	}
	return nil, io.EOF
}

func (s *replies) Header() (metadata.MD, error) { return nil, nil }

// body is read in pieces and may break at its end.
type body struct {
	r     *bytes.Reader
	piece int
	end   error
}

func (b *body) Read(p []byte) (int, error) {
	if len(p) > b.piece {
		p = p[:b.piece]
	}
	n, err := b.r.Read(p)
	if err == io.EOF && b.end != nil {
		err = b.end
	}
	return n, err
}

func (b *body) Close() error { return nil }

// RoundTrip answers through the gateway.
func (o *omCore) RoundTrip(r *http.Request) (*http.Response, error) {
	o.touch("http request")
	if o.fetched < len(o.fetches) && o.fetches[o.fetched].refused && strings.HasSuffix(r.URL.Path, "matches:fetch") {
		o.next()
		return nil, errors.New("connection refused")
	}
	l := &local{o: o}
	mux := runtime.NewServeMux()
	if err := gw.RegisterOpenMatchServiceHandlerClient(stdcontext.Background(), mux, l); err != nil {
		o.x.Fail("harness: %v", err)
	}
	rec := httptest.NewRecorder()
	mux.ServeHTTP(rec, r.WithContext(stdcontext.Background()))
	res := rec.Result()
	raw, _ := io.ReadAll(res.Body)
	b := &body{r: bytes.NewReader(raw), piece: o.piece}
	if l.f != nil && l.f.broken {
		b.end = io.ErrUnexpectedEOF
	}
	res.Body = b
	return res, nil
}

// begin sets the matchmaker up.
func begin(x *vrt.X, conn string, cycles int) *omCore {
	silence()
	log.SetOutput(io.Discard)
	o := &omCore{x: x, activated: map[string]int{}, piece: 1 << 20}
	vgrpc.Serve("localhost:8080", &pb.OpenMatchService_ServiceDesc, o)
	http.DefaultTransport = o
	*connType, *serverAddr, *mmCycles, *simPlayers, *ignoreEmpty = conn, "localhost:8080", cycles, false, true
	*numTickets, *duration = 0, 0
	vrand.Hook = func(n int) (int, bool) {
		if n != 100 {
			return 0, false
		}
		o.decisions++
		if o.rejects != nil && o.rejects(o.decisions-1) {
			return 0, true
		}
		return n - 1, true
	}
	return o
}

// odd strings that a match may carry.
var oddities = []string{"", "a b", "\n", `"}{"result":`, "ü \t\\", "}", strings.Repeat("long ", 2000)}

// sample is a match with tickets of its own in two rosters.
func sample(name string, tickets int, odd string) *pb.Match {
	m := &pb.Match{Id: name + odd, Rosters: map[string]*pb.Roster{}}
	why, _ := anypb.New(wrapperspb.String(odd))
	m.Extensions = map[string]*anypb.Any{"why" + odd: why}
	for i := 0; i < tickets; i++ {
		r := "r" + odd
		if i%3 == 2 {
			r = "s"
		}
		if m.Rosters[r] == nil {
			m.Rosters[r] = &pb.Roster{Name: r}
		}
		m.Rosters[r].Tickets = append(m.Rosters[r].Tickets, &pb.Ticket{Id: fmt.Sprintf("1700000000000-%s.%d", name, i),
			Attributes: &pb.Ticket_FilterableData{Tags: []string{odd}}})
	}
	return m
}

func ticketsOf(m *pb.Match) (l []string) {
	for _, r := range m.GetRosters() {
		for _, t := range r.GetTickets() {
			l = append(l, t.GetId())
		}
	}
	sort.Strings(l)
	return
}

// judge checks the activations up to now: of each match all tickets or none,
// each once; rejected says how many matches were rejected.
func (o *omCore) judge(when string, upTo int) (reactivated int) {
	x := o.x
	if o.running != 0 {
		x.Fail("%s: %d activation calls are still running", when, o.running)
	}
	known := map[string]bool{}
	for _, f := range o.fetches[:upTo] {
		for _, m := range f.matches {
			l := ticketsOf(m)
			n := 0
			for _, id := range l {
				known[id] = true
				if o.activated[id] > 1 {
					x.Fail("%s: ticket %s was activated %d times", when, id, o.activated[id])
				}
				n += o.activated[id]
			}
			if n != 0 && n != len(l) {
				x.Fail("%s: of match %.20q, %d of %d tickets were activated", when, m.GetId(), n, len(l))
			}
			if n > 0 {
				reactivated++
			}
		}
	}
	for id, n := range o.activated {
		if !known[id] {
			x.Fail("%s: %q was activated %d times, it is a ticket of no match", when, id, n)
		}
	}
	return
}

// cycling: two cycles; each match is accepted or rejected.
func cycling(conn string, perCycle, tickets int, errs []error, odds, pieces int) func(x *vrt.X) {
	return func(x *vrt.X) {
		x.Quiet(true)
		o := begin(x, conn, 2)
		if pieces > 1 {
			o.piece = []int{1 << 20, 1, 13}[x.Choose(pieces, "piece")]
		}
		odd := oddities[x.Choose(odds, "odd")]
		for c := 0; c < 2; c++ {
			f := fetch{}
			for i := x.Choose(perCycle+1, "matches"); i > 0; i-- {
				f.matches = append(f.matches, sample(fmt.Sprintf("%d.%d", c, i), x.Choose(tickets+1, "tickets"), odd))
			}
			f.err = errs[x.Choose(len(errs), "ends")]
			if conn == "http" && f.err != nil && len(f.matches) > 0 && x.Choose(2, "connection") == 1 {
				f.err, f.broken = nil, true
			}
			if conn == "http" && f.err != nil && len(f.matches) == 0 {
				// (The first answer is an HTTP error status, at which the
				// example exits; not specified.)
				f.err, f.refused = nil, true
			}
			o.fetches = append(o.fetches, f)
		}
		made := map[int]bool{}
		o.rejects = func(n int) bool {
			r := x.Choose(2, "reject") == 1
			made[n] = r
			return r
		}
		o.onFetch = func() { o.judge(fmt.Sprintf("before fetch %d", o.fetched), o.fetched) }
		x.Quiet(false)
		main()
		x.Quiet(true)
		if o.fetched != 2 {
			x.Fail("%d fetches in two cycles", o.fetched)
		}
		back := o.judge("in the end", 2)
		// the matches with tickets that were rejected, in the order received
		want, n := 0, 0
		for _, f := range o.fetches {
			for _, m := range f.matches {
				if made[n] && len(ticketsOf(m)) > 0 {
					want++
				}
				n++
			}
		}
		if o.decisions != n {
			x.Fail("%d matches were accepted or rejected, %d were received", o.decisions, n)
		}
		if back != want {
			x.Fail("the tickets of %d matches were activated again, %d were rejected", back, want)
		}
		x.Outcome("%d of %d", back, n)
	}
}

// idling: the matchmaker gives up after three cycles in a row without matches
// (or at the next), unless told not to.
func idling(x *vrt.X) {
	x.Quiet(true)
	const n = 8
	o := begin(x, []string{"grpc", "http"}[x.Choose(2, "connection")], n)
	*ignoreEmpty = x.Choose(2, "ignore empty cycles") == 1
	refused := x.Choose(3, "rejections")
	o.rejects = func(i int) bool { return refused == 1 || refused == 2 && i%2 == 0 }
	run, third, fourth := 0, n, n
	for i := 0; i < n; i++ {
		f := fetch{}
		if run++; x.Choose(2, "matches") == 1 {
			f.matches, run = []*pb.Match{sample(fmt.Sprint(i), 1, "")}, 0
		}
		if run == 3 && third == n && !*ignoreEmpty {
			third = i + 1
		}
		if run == 4 && fourth == n && !*ignoreEmpty {
			fourth = i + 1
		}
		o.fetches = append(o.fetches, f)
	}
	main()
	if o.fetched != third && o.fetched != fourth {
		x.Fail("%d cycles; the first three in a row without matches end with cycle %d, the first four with cycle %d", o.fetched, third, fourth)
	}
	x.Outcome("%d", o.fetched)
}

// crowded: many rejected tickets at once.
func crowded(x *vrt.X) {
	x.Quiet(true)
	o := begin(x, []string{"grpc", "http"}[x.Choose(2, "connection")], 1)
	o.rejects = func(int) bool { return true }
	k := []int{1, 499, 500, 501, 1000, 9999, 10000, 10001, 10500, 12000, 25000}[x.Choose(11, "tickets")]
	size := []int{5, 1500}[x.Choose(2, "match size")]
	f := fetch{}
	for n := 0; n < k; {
		m := min(size, k-n)
		f.matches = append(f.matches, sample(fmt.Sprint("m", len(f.matches)), m, ""))
		n += m
	}
	o.fetches = []fetch{f}
	main()
	if n := o.judge("in the end", 1); n != len(f.matches) {
		x.Fail("the tickets of %d matches were activated again, %d were rejected", n, len(f.matches))
	}
	x.Outcome("%d", k)
}

// players: the mock frontend creates and activates tickets.
func players(conn string, per, secs int, fail bool) func(x *vrt.X) {
	return func(x *vrt.X) {
		x.Quiet(true)
		o := begin(x, conn, 1)
		*simPlayers, *numTickets, *duration = true, 1+x.Choose(per, "tickets per second"), 1+x.Choose(secs, "seconds")
		if fail {
			e := status.Error(codes.Internal, "no ticket for you")
			o.failing = func(n int) error {
				if x.Choose(2, "creation fails") == 1 {
					return e
				}
				return nil
			}
		}
		x.Quiet(false)
		main()
		x.Sleep(time.Duration(*duration+5) * time.Second)
		x.Quiet(true)
		if o.creations != *numTickets**duration {
			x.Fail("%d creations, should be %d in each of %d seconds", o.creations, *numTickets, *duration)
		}
		seen := map[string]bool{}
		for _, id := range o.created {
			seen[id] = true
			if o.activated[id] != 1 {
				x.Fail("ticket %s was created and activated %d times", id, o.activated[id])
			}
		}
		for id, n := range o.activated {
			if !seen[id] {
				x.Fail("%q was activated %d times, it was never created", id, n)
			}
		}
		x.Outcome("%d of %d", len(o.created), o.creations)
	}
}

func init() {
	ends := []error{nil, status.Error(codes.Unknown, "the functions failed")}
	reg := func(sc vrt.Scenario) {
		sc.Prop, sc.MaxSteps = "C25", 20_000_000
		vrt.Register(sc)
	}
	for _, conn := range []string{"grpc", "http"} {
		reg(vrt.Scenario{Name: "cycles." + conn, Doc: "two cycles with 0-2 matches of 0-3 tickets, ending well or not; all rejections; over " + conn, Shards: 4, Body: cycling(conn, 2, 3, ends, 1, 1)})
		reg(vrt.Scenario{Name: "strings." + conn, Doc: "two cycles with 0-1 matches of 0-1 tickets and odd strings; all rejections; over " + conn, Shards: 2, Body: cycling(conn, 1, 1, ends, len(oddities), 3)})
		reg(vrt.Scenario{Name: "schedules." + conn, Doc: "two cycles with 0-1 matches of 0-2 tickets, every schedule up to the bound; over " + conn, Quick: 1, Thorough: 2, Shards: 2, Body: cycling(conn, 1, 2, ends, 1, 1)})
		reg(vrt.Scenario{Name: "players." + conn, Doc: "the mock frontend, 1-3 tickets per second for 1-2 seconds; over " + conn, Quick: 1, Thorough: 2, Shards: 2, TShards: 4, Body: players(conn, 3, 2, false)})
		reg(vrt.Scenario{Name: "players.fail." + conn, Doc: "the same, any creations failing; over " + conn, Shards: 1, Thorough: 1, Body: players(conn, 3, 2, true)})
	}
	reg(vrt.Scenario{Name: "idle", Doc: "8 cycles with and without matches", Shards: 1, Body: idling})
	reg(vrt.Scenario{Name: "crowd", Doc: "1 to 25000 rejected tickets in matches of 5 or 1500", Shards: 4, Body: crowded})
}
