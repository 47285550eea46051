// Package main: harness that runs om-core's own handlers, replicators and cache
// under the explorer of verif.local/vrt.
package main

import (
	"fmt"
	"io"
	"sort"
	"strconv"
	"strings"
	"testing"
	"time"
	context "verif.local/vrt/vctx"

	"github.com/sirupsen/logrus"
	"github.com/spf13/viper"
	"go.opentelemetry.io/otel/metric"
	"go.opentelemetry.io/otel/metric/noop"
	sdkmetric "go.opentelemetry.io/otel/sdk/metric"
	"google.golang.org/genproto/googleapis/rpc/errdetails"
	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/metadata"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/timestamppb"
	"open-match.dev/core/internal/config"
	"open-match.dev/core/internal/statestore/cache"
	store "open-match.dev/core/internal/statestore/datatypes"
	memoryReplicator "open-match.dev/core/internal/statestore/memory"
	redisReplicator "open-match.dev/core/internal/statestore/redis"
	pb "open-match.dev/pkg/pb/v2"
	"verif.local/vdep/vgrpc"
	"verif.local/vdep/vredis"
	"verif.local/vrt"
	"verif.local/vrt/vctx"
)

func TestVerif(t *testing.T) { vrt.Main(t) }

// defaults keeps one configuration per process; executions start from a copy.
func freshConfig(over map[string]any) *viper.Viper {
	c := config.Read()
	logrus.SetOutput(io.Discard)
	logrus.SetLevel(logrus.PanicLevel)
	logrus.StandardLogger().ExitFunc = vrt.Fatal
	for k, v := range over {
		c.Set(k, v)
	}
	return c
}

const redisAddr = "127.0.0.1:6379"

type opts struct {
	storage string // "memory" (default), "redis" or "fake"
	cfg     map[string]any
	fake    store.StateReplicator
	server  *vredis.Server // instead of the default Redis
	noLoops bool
	metered bool // its metrics can be read
	noIn    bool
	wrap    func(store.StateReplicator) store.StateReplicator
}

type world struct {
	x     *vrt.X
	srv   *grpcServer
	redis *vredis.Server
	ttl   time.Duration
	poll  time.Duration
	caps  int
	meter *sdkmetric.ManualReader
	out   *vrt.Task
	in    *vrt.Task
}

// fast makes cycles short so that histories take few steps.
func fast(over map[string]any) map[string]any {
	m := map[string]any{
		"OM_CACHE_OUT_WAIT_TIMEOUT_MS":            100,
		"OM_CACHE_IN_WAIT_TIMEOUT_MS":             200,
		"OM_CACHE_TICKET_TTL_SECS":                60,
		"OM_CACHE_ASSIGNMENT_ADDITIONAL_TTL_SECS": 60,
		"OM_MMF_TIMEOUT_SECS":                     20,
	}
	for k, v := range over {
		m[k] = v
	}
	return m
}

func newWorld(x *vrt.X, o opts) *world {
	c := freshConfig(o.cfg)
	cfg = c
	w := &world{x: x, srv: &grpcServer{}}
	w.ttl = time.Duration(c.GetInt("OM_CACHE_TICKET_TTL_SECS")) * time.Second
	w.poll = time.Duration(c.GetInt("OM_CACHE_IN_WAIT_TIMEOUT_MS")) * time.Millisecond
	meter := noop.NewMeterProvider().Meter("verif")
	var m metric.Meter = meter
	if o.metered {
		w.meter = sdkmetric.NewManualReader()
		m = sdkmetric.NewMeterProvider(sdkmetric.WithReader(w.meter)).Meter("verif")
	}
	registerMetrics(&m)
	cache.RegisterMetrics(&m)
	tc.Cfg = c
	tc.UpRequests = vrt.Made(make(chan *cache.UpdateRequest))
	switch o.storage {
	case "redis":
		if w.redis = o.server; w.redis != nil {
			tc.Replicator = redisReplicator.New(c)
			break
		}
		w.redis = vredis.NewServer(redisAddr)
		w.redis.User, w.redis.Password = "default", "om-redis"
		tc.Replicator = redisReplicator.New(c)
	case "fake":
		tc.Replicator = o.fake
	default:
		tc.Replicator = memoryReplicator.New(c)
	}
	if o.wrap != nil {
		tc.Replicator = o.wrap(tc.Replicator)
	}
	if !o.noLoops {
		w.out = x.Go("outgoing", func() { tc.OutgoingReplicationQueue(context.Background()) })
		if !o.noIn {
			w.in = x.Go("incoming", func() { tc.IncomingReplicationQueue(context.Background()) })
		}
	}
	return w
}

// instance is another om-core instance on the same storage (its incoming side).
type instance struct {
	tc *cache.ReplicatedTicketCache
	in *vrt.Task
}

func (w *world) secondInstance(over map[string]any, wrap func(store.StateReplicator) store.StateReplicator) *instance {
	c := freshConfig(over)
	n := &instance{tc: &cache.ReplicatedTicketCache{}}
	n.tc.Cfg = c
	n.tc.UpRequests = vrt.Made(make(chan *cache.UpdateRequest))
	n.tc.Replicator = redisReplicator.New(c)
	if wrap != nil {
		n.tc.Replicator = wrap(n.tc.Replicator)
	}
	n.in = w.x.Go("incoming2", func() { n.tc.IncomingReplicationQueue(context.Background()) })
	return n
}

func bg() context.Context { return context.Background() }

func (w *world) create(ctx context.Context, t *pb.Ticket) (string, error) {
	r, err := w.srv.CreateTicket(ctx, &pb.CreateTicketRequest{Ticket: t})
	return r.GetTicketId(), err
}

func (w *world) mustCreate(t *pb.Ticket) string {
	id, err := w.create(bg(), t)
	if err != nil {
		w.x.Fail("CreateTicket failed on healthy storage: %v", err)
	}
	return id
}

func (w *world) activate(ids ...string) error {
	_, err := w.srv.ActivateTickets(bg(), &pb.ActivateTicketsRequest{TicketIds: ids})
	return err
}

func (w *world) deactivate(ids ...string) error {
	_, err := w.srv.DeactivateTickets(bg(), &pb.DeactivateTicketsRequest{TicketIds: ids})
	return err
}

func (w *world) assign(conn string, ids ...string) error {
	r := &pb.Roster{Assignment: &pb.Assignment{Connection: conn}}
	for _, id := range ids {
		r.Tickets = append(r.Tickets, &pb.Ticket{Id: id})
	}
	_, err := w.srv.CreateAssignments(bg(), &pb.CreateAssignmentsRequest{AssignmentRoster: r})
	return err
}

// settle waits until updates of finished requests have been applied.
func (w *world) settle() { w.x.Sleep(3*w.poll + 100*time.Millisecond) }

func ticket(tags ...string) *pb.Ticket {
	return &pb.Ticket{Attributes: &pb.Ticket_FilterableData{Tags: tags}}
}

// ---- response streams ----

type respStream struct {
	grpc.ServerStream
	ctx      context.Context
	got      []*pb.StreamedMmfResponse
	watch    []*pb.StreamedWatchAssignmentsResponse
	at       []time.Duration
	returned bool
	busy     bool
	o        vrt.Obj
	onSend   func(n int) error
	onMatch  func(m *pb.Match)
	begun    time.Duration
}

func (s *respStream) Context() context.Context     { return s.ctx }
func (s *respStream) SetHeader(metadata.MD) error  { return nil }
func (s *respStream) SendHeader(metadata.MD) error { return nil }
func (s *respStream) SetTrailer(metadata.MD)       {}
func (s *respStream) RecvMsg(any) error            { return io.EOF }

func (s *respStream) send(what string, add func()) error {
	if vrt.Exiting() {
		vrt.Bail()
	}
	if s.returned {
		vrt.Violation("%s sent on the response stream after the handler returned", what)
	}
	if s.busy {
		vrt.Violation("concurrent Send calls on one response stream")
	}
	s.busy = true
	defer func() { s.busy = false }()
	vrt.Touch("respond "+what, &s.o, true)
	if s.onSend != nil && !s.returned && vctx.RawErr(s.ctx) == nil {
		if err := s.onSend(len(s.got) + len(s.watch)); err != nil {
			return err
		}
	}
	if s.returned {
		vrt.Violation("the handler returned while %s was being sent on the response stream", what)
	}
	if vctx.RawErr(s.ctx) != nil {
		return status.Error(codes.Canceled, "context canceled")
	}
	add()
	s.at = append(s.at, time.Duration(vrt.RawNow()-1_700_000_000*1e9))
	return nil
}

func (s *respStream) SendMsg(m any) error {
	switch v := m.(type) {
	case *pb.StreamedMmfResponse:
		c := proto.Clone(v).(*pb.StreamedMmfResponse)
		return s.send("match "+v.GetMatch().GetId(), func() {
			if s.onMatch != nil {
				s.onMatch(c.GetMatch())
			}
			s.got = append(s.got, c)
		})
	case *pb.StreamedWatchAssignmentsResponse:
		c := proto.Clone(v).(*pb.StreamedWatchAssignmentsResponse)
		return s.send("assignment "+v.GetId(), func() { s.watch = append(s.watch, c) })
	}
	return fmt.Errorf("unexpected message %T", m)
}

type mmfStream struct{ *respStream }

func (s mmfStream) Send(m *pb.StreamedMmfResponse) error { return s.SendMsg(m) }

type watchStream struct{ *respStream }

func (s watchStream) Send(m *pb.StreamedWatchAssignmentsResponse) error { return s.SendMsg(m) }

// invoke calls InvokeMatchmakingFunctions as a gRPC server would.
func (w *world) invoke(ctx context.Context, req *pb.MmfRequest) (*respStream, error) {
	s := &respStream{ctx: ctx}
	err := w.invokeOn(s, req)
	return s, err
}

func (w *world) invokeOn(s *respStream, req *pb.MmfRequest) error {
	// A server owns the message it decoded: hand the handler its own copy.
	r := proto.Clone(req).(*pb.MmfRequest)
	err := w.srv.InvokeMatchmakingFunctions(r, mmfStream{s})
	if vrt.Exiting() {
		vrt.Bail()
	}
	vrt.Mark(&s.o, true, 0x4e7)
	s.returned = true
	return err
}

func (w *world) watch(s *respStream, ids ...string) error {
	err := w.srv.WatchAssignments(&pb.WatchAssignmentsRequest{TicketIds: ids}, watchStream{s})
	if vrt.Exiting() {
		vrt.Bail()
	}
	vrt.Mark(&s.o, true, 0x4e7)
	s.returned = true
	return err
}

// ---- matchmaking functions ----

type mmfImpl struct {
	pb.UnimplementedMatchMakingFunctionServiceServer
	run func(pb.MatchMakingFunctionService_RunServer) error
}

func (m *mmfImpl) Run(s pb.MatchMakingFunctionService_RunServer) error { return m.run(s) }

// mmf starts a matchmaking function at host:port.
func mmf(host string, port int32, run func(pb.MatchMakingFunctionService_RunServer) error) *pb.MatchmakingFunctionSpec {
	h := host
	if port > 0 {
		h = fmt.Sprintf("%s:%d", host, port)
	}
	vgrpc.Serve(h, &pb.MatchMakingFunctionService_ServiceDesc, &mmfImpl{run: run})
	return &pb.MatchmakingFunctionSpec{Name: "mmf-" + host, Host: host, Port: port, Type: pb.MatchmakingFunctionSpec_GRPC}
}

// readAll reads chunks until the announced number or the end of the stream.
func readAll(s pb.MatchMakingFunctionService_RunServer) (chunks []*pb.ChunkedMmfRunRequest, err error) {
	for {
		c, err := s.Recv()
		if err != nil {
			return chunks, err
		}
		chunks = append(chunks, c)
		if c.GetNumChunks() <= int32(len(chunks)) {
			return chunks, nil
		}
	}
}

// pools asks om-core which tickets are in the given pools by invoking a
// matchmaking function that reports what it received.
func (w *world) pools(profile *pb.Profile) map[string][]*pb.Ticket {
	w.caps++
	var chunks []*pb.ChunkedMmfRunRequest
	ran := false
	spec := mmf(fmt.Sprintf("capture%d", w.caps), 50000, func(s pb.MatchMakingFunctionService_RunServer) error {
		ran = true
		var err error
		chunks, err = readAll(s)
		return err
	})
	s, err := w.invoke(bg(), &pb.MmfRequest{Mmfs: []*pb.MatchmakingFunctionSpec{spec}, Profile: profile})
	if err != nil {
		w.x.Fail("InvokeMatchmakingFunctions failed: %v", err)
	}
	if !ran {
		w.x.Fail("InvokeMatchmakingFunctions returned without running the matchmaking function")
	}
	if len(s.got) != 0 {
		w.x.Fail("matches returned that no function sent: %v", s.got)
	}
	out := map[string][]*pb.Ticket{}
	for _, c := range chunks {
		for n, p := range c.GetProfile().GetPools() {
			out[n] = append(out[n], p.GetParticipants().GetTickets()...)
		}
	}
	return out
}

func everyone() *pb.Profile {
	return &pb.Profile{Name: "everyone", Pools: map[string]*pb.Pool{"all": {Name: "all"}}}
}

// activeIDs is the set of tickets in a pool without filters.
func (w *world) activeIDs() []string {
	return ids(w.pools(everyone())["all"])
}

func ids(ts []*pb.Ticket) []string {
	var out []string
	for _, t := range ts {
		out = append(out, t.GetId())
	}
	sort.Strings(out)
	return out
}

func sorted(s ...string) []string {
	out := append([]string(nil), s...)
	sort.Strings(out)
	return out
}

func same(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func match(id string, tickets ...string) *pb.Match {
	r := &pb.Roster{Name: "r"}
	for _, t := range tickets {
		r.Tickets = append(r.Tickets, &pb.Ticket{Id: t})
	}
	return &pb.Match{Id: id, Rosters: map[string]*pb.Roster{"r": r}}
}

func ts(t time.Time) *timestamppb.Timestamp { return timestamppb.New(t) }

// namedIDs lists the ticket ids an error of Activate/DeactivateTickets names.
func namedIDs(err error) []string {
	var out []string
	for _, d := range status.Convert(err).Details() {
		if b, ok := d.(*errdetails.BadRequest); ok {
			for _, v := range b.GetFieldViolations() {
				out = append(out, strings.TrimPrefix(v.GetField(), "ticketId/"))
			}
		}
	}
	sort.Strings(out)
	return out
}

func itoa(i int) string { return strconv.Itoa(i) }
