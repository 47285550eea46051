package main

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"math"
	"net"
	"net/http"
	"net/http/httptest"
	"strings"
	"sync"
	"testing/iotest"
	"time"

	"github.com/grpc-ecosystem/grpc-gateway/v2/runtime"
	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/credentials/insecure"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/encoding/protojson"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/types/known/anypb"
	"google.golang.org/protobuf/types/known/timestamppb"
	"google.golang.org/protobuf/types/known/wrapperspb"
	gw "open-match.dev/pkg/api/v2"
	pb "open-match.dev/pkg/pb/v2"
	"verif.local/vrt"
)

// C22: the HTTP API behaves like the gRPC API.

// method is an exposed method.
type method struct {
	name, verb, path string
	req, res         proto.Message
	stream           bool
}

var methods = []method{
	{"CreateTicket", "POST", "/v2/tickets", &pb.CreateTicketRequest{}, &pb.CreateTicketResponse{}, false},
	{"DeactivateTickets", "DELETE", "/v2/tickets:deactivate", &pb.DeactivateTicketsRequest{}, &pb.DeactivateTicketsResponse{}, false},
	{"ActivateTickets", "POST", "/v2/tickets:activate", &pb.ActivateTicketsRequest{}, &pb.ActivateTicketsResponse{}, false},
	{"InvokeMatchmakingFunctions", "POST", "/v2/matches:fetch", &pb.MmfRequest{}, &pb.StreamedMmfResponse{}, true},
	{"CreateAssignments", "POST", "/v2/assignments:create", &pb.CreateAssignmentsRequest{}, &pb.CreateAssignmentsResponse{}, false},
	{"WatchAssignments", "POST", "/v2/assignments:watch", &pb.WatchAssignmentsRequest{}, &pb.StreamedWatchAssignmentsResponse{}, true},
}

// zzStub notes what reaches the handlers and answers as told.
type zzStub struct {
	pb.UnimplementedOpenMatchServiceServer
	mu     sync.Mutex
	method string
	got    proto.Message
	calls  int
	answer []proto.Message
	err    error
}

func (s *zzStub) take(name string, m proto.Message) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.method, s.got = name, proto.Clone(m)
	s.calls++
}

func unary[T proto.Message](s *zzStub, name string, m proto.Message) (T, error) {
	s.take(name, m)
	var none T
	if s.err != nil {
		return none, s.err
	}
	return s.answer[0].(T), nil
}

func (s *zzStub) CreateTicket(_ context.Context, m *pb.CreateTicketRequest) (*pb.CreateTicketResponse, error) {
	return unary[*pb.CreateTicketResponse](s, "CreateTicket", m)
}
func (s *zzStub) DeactivateTickets(_ context.Context, m *pb.DeactivateTicketsRequest) (*pb.DeactivateTicketsResponse, error) {
	return unary[*pb.DeactivateTicketsResponse](s, "DeactivateTickets", m)
}
func (s *zzStub) ActivateTickets(_ context.Context, m *pb.ActivateTicketsRequest) (*pb.ActivateTicketsResponse, error) {
	return unary[*pb.ActivateTicketsResponse](s, "ActivateTickets", m)
}
func (s *zzStub) CreateAssignments(_ context.Context, m *pb.CreateAssignmentsRequest) (*pb.CreateAssignmentsResponse, error) {
	return unary[*pb.CreateAssignmentsResponse](s, "CreateAssignments", m)
}
func (s *zzStub) InvokeMatchmakingFunctions(m *pb.MmfRequest, st pb.OpenMatchService_InvokeMatchmakingFunctionsServer) error {
	s.take("InvokeMatchmakingFunctions", m)
	for _, a := range s.answer {
		if err := st.Send(a.(*pb.StreamedMmfResponse)); err != nil {
			return err
		}
	}
	return s.err
}
func (s *zzStub) WatchAssignments(m *pb.WatchAssignmentsRequest, st pb.OpenMatchService_WatchAssignmentsServer) error {
	s.take("WatchAssignments", m)
	for _, a := range s.answer {
		if err := st.Send(a.(*pb.StreamedWatchAssignmentsResponse)); err != nil {
			return err
		}
	}
	return s.err
}

// front is a gateway with the stub behind it.
type front struct {
	*zzStub
	url    string
	client *http.Client
	close  func()
}

// newFront connects the gateway as the server does (0), over a given
// connection (1), with a given client (2) or without gRPC (3).
func newFront(x *vrt.X, how int) *front {
	f := &front{zzStub: &zzStub{}, client: &http.Client{Transport: &http.Transport{}}}
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		x.Fail("harness: %v", err)
	}
	srv := grpc.NewServer(grpc.MaxRecvMsgSize(1 << 30))
	pb.RegisterOpenMatchServiceServer(srv, f.zzStub)
	go srv.Serve(l)
	ctx, cancel := context.WithCancel(context.Background())
	mux := runtime.NewServeMux()
	opts := []grpc.DialOption{grpc.WithTransportCredentials(insecure.NewCredentials())}
	switch how {
	case 0:
		err = gw.RegisterOpenMatchServiceHandlerFromEndpoint(ctx, mux, l.Addr().String(), opts)
	case 1, 2:
		var c *grpc.ClientConn
		if c, err = grpc.Dial(l.Addr().String(), opts...); err == nil {
			if how == 1 {
				err = gw.RegisterOpenMatchServiceHandler(ctx, mux, c)
			} else {
				err = gw.RegisterOpenMatchServiceHandlerClient(ctx, mux, pb.NewOpenMatchServiceClient(c))
			}
		}
	case 3:
		err = gw.RegisterOpenMatchServiceHandlerServer(ctx, mux, f.zzStub)
	}
	if err != nil {
		x.Fail("registering the gateway: %v", err)
	}
	h := httptest.NewServer(mux)
	f.url = h.URL
	f.close = func() {
		f.client.CloseIdleConnections()
		h.CloseClientConnections()
		h.Close()
		cancel()
		srv.Stop()
	}
	return f
}

func (f *front) do(x *vrt.X, verb, path, body string) (int, http.Header, string) {
	req, err := http.NewRequest(verb, f.url+path, strings.NewReader(body))
	if err != nil {
		x.Fail("harness: %v", err)
	}
	req.Header.Set("Content-Type", "application/json")
	res, err := f.client.Do(req)
	if err != nil {
		x.Fail("%s %s: %v", verb, path, err)
	}
	defer res.Body.Close()
	b, err := io.ReadAll(res.Body)
	if err != nil {
		x.Fail("%s %s: reading the response: %v (%d %q)", verb, path, err, res.StatusCode, b)
	}
	return res.StatusCode, res.Header, string(b)
}

// scalars are the values of a field that is no message.
func scalars(fd protoreflect.FieldDescriptor) (vs []protoreflect.Value) {
	add := func(l ...any) {
		for _, v := range l {
			vs = append(vs, protoreflect.ValueOf(v))
		}
	}
	switch fd.Kind() {
	case protoreflect.BoolKind:
		add(true, false)
	case protoreflect.StringKind:
		add("", "a", "ü\"\\\n\t<&>/ \u2028", "1700000000000-0", "null", strings.Repeat("long", 50))
	case protoreflect.BytesKind:
		add([]byte{}, []byte("a"), []byte{0, 255, 251, 10})
	case protoreflect.Int32Kind, protoreflect.Sint32Kind, protoreflect.Sfixed32Kind:
		add(int32(0), int32(1), int32(-1), int32(math.MaxInt32), int32(math.MinInt32))
	case protoreflect.Int64Kind, protoreflect.Sint64Kind, protoreflect.Sfixed64Kind:
		add(int64(0), int64(1), int64(-1), int64(math.MaxInt64), int64(math.MinInt64))
	case protoreflect.Uint32Kind, protoreflect.Fixed32Kind:
		add(uint32(0), uint32(1), uint32(math.MaxUint32))
	case protoreflect.Uint64Kind, protoreflect.Fixed64Kind:
		add(uint64(0), uint64(1), uint64(math.MaxUint64))
	case protoreflect.FloatKind:
		add(float32(0), float32(1.5), float32(math.Inf(1)), float32(math.NaN()))
	case protoreflect.DoubleKind:
		add(float64(0), 1.5, -0.1, math.Inf(1), math.Inf(-1), math.NaN(), math.MaxFloat64, math.SmallestNonzeroFloat64, 1e21)
	case protoreflect.EnumKind:
		for i := 0; i < fd.Enum().Values().Len(); i++ {
			vs = append(vs, protoreflect.ValueOfEnum(fd.Enum().Values().Get(i).Number()))
		}
	}
	return
}

func anyOf(m proto.Message) *anypb.Any {
	a, err := anypb.New(m)
	if err != nil {
		panic(err)
	}
	return a
}

// messages are values of a message type: none of the fields set, every field
// set to each of its values, and pairs of fields.
func messages(mt protoreflect.MessageType, depth int, pairs bool) []proto.Message {
	d := mt.Descriptor()
	switch d.FullName() {
	case "google.protobuf.Timestamp":
		return []proto.Message{&timestamppb.Timestamp{}, &timestamppb.Timestamp{Seconds: 1700000000, Nanos: 1}, &timestamppb.Timestamp{Seconds: -1, Nanos: 999000000}}
	case "google.protobuf.Any":
		return []proto.Message{anyOf(wrapperspb.String("s")), anyOf(wrapperspb.Int64(math.MaxInt64)), anyOf(&pb.Ticket{Id: "in any", Attributes: &pb.Ticket_FilterableData{Tags: []string{"t"}}})}
	}
	if strings.HasPrefix(string(d.FullName()), "google.protobuf.") && strings.HasSuffix(string(d.FullName()), "Value") && d.Fields().Len() == 1 {
		var out []proto.Message
		for _, v := range scalars(d.Fields().Get(0)) {
			m := mt.New()
			m.Set(d.Fields().Get(0), v)
			out = append(out, m.Interface())
		}
		return out
	}
	empty := mt.New().Interface()
	if depth == 0 {
		return []proto.Message{empty}
	}
	// the ways to set one field
	type setting struct {
		field int
		set   func(m protoreflect.Message)
	}
	var settings []setting
	var rich []setting // the fullest of every field
	for i := 0; i < d.Fields().Len(); i++ {
		i, fd := i, d.Fields().Get(i)
		from := len(settings)
		add := func(f func(m protoreflect.Message)) { settings = append(settings, setting{i, f}) }
		values := func(fd protoreflect.FieldDescriptor, mk func() protoreflect.Value) (vs []protoreflect.Value) {
			if fd.Kind() != protoreflect.MessageKind {
				return scalars(fd)
			}
			for _, m := range messages(mk().Message().Type(), depth-1, false) {
				vs = append(vs, protoreflect.ValueOfMessage(m.ProtoReflect()))
			}
			return
		}
		switch {
		case fd.IsMap():
			vs := values(fd.MapValue(), func() protoreflect.Value { return mt.New().Mutable(fd).Map().NewValue() })
			var keys []protoreflect.MapKey
			for _, k := range scalars(fd.MapKey()) {
				keys = append(keys, k.MapKey())
			}
			for n, v := range vs {
				v, k := v, keys[n%len(keys)]
				add(func(m protoreflect.Message) { m.Mutable(fd).Map().Set(k, v) })
			}
			add(func(m protoreflect.Message) {
				for n, k := range keys {
					m.Mutable(fd).Map().Set(k, vs[n%len(vs)])
				}
			})
		case fd.IsList():
			vs := values(fd, func() protoreflect.Value { return mt.New().Mutable(fd).List().NewElement() })
			for _, v := range vs {
				v := v
				add(func(m protoreflect.Message) { m.Mutable(fd).List().Append(v) })
			}
			add(func(m protoreflect.Message) {
				for _, v := range vs {
					m.Mutable(fd).List().Append(v)
				}
				m.Mutable(fd).List().Append(vs[0])
			})
		default:
			for _, v := range values(fd, func() protoreflect.Value { return mt.New().NewField(fd) }) {
				v := v
				add(func(m protoreflect.Message) { m.Set(fd, v) })
			}
		}
		if len(settings) > from {
			rich = append(rich, settings[len(settings)-1])
		}
	}
	out := []proto.Message{empty}
	make1 := func(ss ...setting) {
		m := mt.New()
		for _, s := range ss {
			s.set(m)
		}
		// (values may be shared between fields)
		out = append(out, proto.Clone(m.Interface()))
	}
	for _, s := range settings {
		make1(s)
	}
	if len(rich) > 1 {
		make1(rich...)
	}
	if pairs {
		for _, a := range settings {
			for _, b := range settings {
				if a.field < b.field {
					make1(a, b)
				}
			}
		}
	}
	return out
}

// forms are JSON forms of a message.
func forms(m proto.Message) []string {
	var out []string
	seen := map[string]bool{}
	for _, o := range []protojson.MarshalOptions{{}, {UseProtoNames: true}, {UseEnumNumbers: true}, {EmitUnpopulated: true}, {Multiline: true, Indent: "\t"}} {
		b, err := o.Marshal(m)
		if err != nil {
			vrt.Violation("harness: %v", err)
		}
		if !seen[string(b)] {
			seen[string(b)] = true
			out = append(out, string(b))
		}
	}
	return out
}

// jsonNames checks that the keys of a JSON form are the JSON names of fields.
func jsonNames(x *vrt.X, what string, v any, d protoreflect.MessageDescriptor) {
	o, ok := v.(map[string]any)
	if !ok || strings.HasPrefix(string(d.FullName()), "google.protobuf.") {
		return
	}
	for k, e := range o {
		fd := d.Fields().ByJSONName(k)
		if fd == nil {
			x.Fail("%s: %s has no field with JSON name %q", what, d.FullName(), k)
		}
		if fd.IsMap() {
			if fd.MapValue().Message() != nil {
				if m, ok := e.(map[string]any); ok {
					for _, e := range m {
						jsonNames(x, what, e, fd.MapValue().Message())
					}
				}
			}
			continue
		}
		if fd.Message() == nil {
			continue
		}
		if l, ok := e.([]any); ok {
			for _, e := range l {
				jsonNames(x, what, e, fd.Message())
			}
			continue
		}
		jsonNames(x, what, e, fd.Message())
	}
}

func parse(x *vrt.X, what, body string, like proto.Message) proto.Message {
	m := proto.Clone(like)
	proto.Reset(m)
	if err := protojson.Unmarshal([]byte(body), m); err != nil {
		x.Fail("%s: the response %q is no JSON form of %s: %v", what, body, like.ProtoReflect().Descriptor().FullName(), err)
	}
	var v any
	if err := json.Unmarshal([]byte(body), &v); err != nil {
		x.Fail("%s: %v", what, err)
	}
	jsonNames(x, what, v, like.ProtoReflect().Descriptor())
	return m
}

// elements splits a stream of JSON values.
func elements(x *vrt.X, what, body string) (out []map[string]json.RawMessage) {
	dec := json.NewDecoder(strings.NewReader(body))
	for {
		var e map[string]json.RawMessage
		if err := dec.Decode(&e); err == io.EOF {
			return
		} else if err != nil {
			x.Fail("%s: the response %q is no stream of JSON values: %v", what, body, err)
		}
		out = append(out, e)
	}
}

// ask sends a body, expecting the handler of m to receive want.
func (f *front) ask(x *vrt.X, m method, body string, want proto.Message) (int, http.Header, string) {
	before := f.calls
	code, h, out := f.do(x, m.verb, m.path, body)
	what := fmt.Sprintf("%s %s with %s", m.verb, m.path, cut(body))
	f.mu.Lock()
	defer f.mu.Unlock()
	if want == nil {
		if f.calls != before {
			x.Fail("%s: %s was called", what, f.method)
		}
		return code, h, out
	}
	if f.calls != before+1 {
		x.Fail("%s: %d calls were made; response %d %q", what, f.calls-before, code, cut(out))
	}
	if f.method != m.name {
		x.Fail("%s: %s was called", what, f.method)
	}
	if !proto.Equal(f.got, want) {
		x.Fail("%s: %s was sent\n%v\ninstead of\n%v", what, m.name, f.got, want)
	}
	x.Count(1)
	return code, h, out
}

func cut(s string) string {
	if len(s) > 600 {
		return s[:300] + " ... " + s[len(s)-300:]
	}
	return s
}

// requests sends every message to every method.
func requests(depth int) func(x *vrt.X) {
	return func(x *vrt.X) {
		m := methods[x.Choose(len(methods), "method")]
		how := x.Choose(4, "gateway")
		part := x.Choose(8, "part")
		if m.stream && how == 3 {
			return // needs a connection
		}
		f := newFront(x, how)
		defer f.close()
		f.answer = []proto.Message{m.res}
		ms := messages(m.req.ProtoReflect().Type(), depth, true)
		for i, req := range ms {
			if i%8 != part {
				continue
			}
			fs := forms(req)
			if how != 0 {
				fs = fs[:1]
			}
			for _, body := range fs {
				if code, _, out := f.ask(x, m, body, req); code != 200 {
					x.Fail("%s with %s: %d %q", m.path, cut(body), code, cut(out))
				}
			}
		}
		if code, _, out := f.ask(x, m, "", m.req); code != 200 {
			x.Fail("%s with no body: %d %q", m.path, code, out)
		}
		x.Outcome("%s %d %d", m.name, how, len(ms))
	}
}

// responses answers every method with every message.
func responses(depth int) func(x *vrt.X) {
	return func(x *vrt.X) {
		m := methods[x.Choose(len(methods), "method")]
		how := x.Choose(4, "gateway")
		if m.stream && how == 3 {
			return
		}
		f := newFront(x, how)
		defer f.close()
		ms := messages(m.res.ProtoReflect().Type(), depth, true)
		for _, res := range ms {
			f.answer = []proto.Message{res}
			code, h, out := f.ask(x, m, "{}", m.req)
			what := fmt.Sprintf("%s, handler returns %v", m.name, res)
			if code != 200 || !strings.HasPrefix(h.Get("Content-Type"), "application/json") {
				x.Fail("%s: response %d %q %q", what, code, h.Get("Content-Type"), cut(out))
			}
			if m.stream {
				es := elements(x, what, out)
				if len(es) != 1 || es[0]["result"] == nil {
					x.Fail("%s: response %q", what, cut(out))
				}
				out = string(es[0]["result"])
			}
			if got := parse(x, what, out, m.res); !proto.Equal(got, res) {
				x.Fail("%s: response\n%v", what, got)
			}
		}
		x.Outcome("%s %d %d", m.name, how, len(ms))
	}
}

// httpCode is the HTTP status of a gRPC status.
var httpCode = map[codes.Code]int{
	codes.OK: 200, codes.Canceled: 499, codes.Unknown: 500, codes.InvalidArgument: 400, codes.DeadlineExceeded: 504,
	codes.NotFound: 404, codes.AlreadyExists: 409, codes.PermissionDenied: 403, codes.ResourceExhausted: 429,
	codes.FailedPrecondition: 400, codes.Aborted: 409, codes.OutOfRange: 400, codes.Unimplemented: 501,
	codes.Internal: 500, codes.Unavailable: 503, codes.DataLoss: 500, codes.Unauthenticated: 401,
}

// checkStatus compares an error body.
func checkStatus(x *vrt.X, what, body string, st *status.Status) {
	var v struct {
		Code    int
		Message string
		Details []json.RawMessage
	}
	if err := json.Unmarshal([]byte(body), &v); err != nil {
		x.Fail("%s: error body %q: %v", what, body, err)
	}
	if v.Code != int(st.Code()) || v.Message != st.Message() || len(v.Details) != len(st.Details()) {
		x.Fail("%s: error body %q", what, body)
	}
	for i, d := range st.Proto().GetDetails() {
		a := &anypb.Any{}
		if err := protojson.Unmarshal(v.Details[i], a); err != nil || !proto.Equal(a, d) {
			x.Fail("%s: error detail %s, want %v (%v)", what, v.Details[i], d, err)
		}
	}
}

// endings: every status after every number of responses.
func endings(x *vrt.X) {
	m := methods[x.Choose(len(methods), "method")]
	how := x.Choose(4, "gateway")
	if m.stream && how == 3 {
		return
	}
	f := newFront(x, how)
	defer f.close()
	all := messages(m.res.ProtoReflect().Type(), 4, false)
	lengths := []int{0}
	if m.stream {
		lengths = []int{0, 1, 2, 3, 50}
	}
	for c := codes.Code(0); c <= codes.Unauthenticated; c++ {
		if c == codes.OK && !m.stream {
			continue
		}
		for _, n := range lengths {
			for k, msg := range []string{"", "what went wrong \"<ü>\"\n"} {
				st := status.New(c, msg)
				if k == 1 && c != codes.OK {
					var err error
					if st, err = st.WithDetails(&pb.Ticket{Id: "1-1"}, wrapperspb.String("x")); err != nil {
						x.Fail("harness: %v", err)
					}
				}
				f.answer, f.err = nil, st.Err()
				for i := 0; i < n; i++ {
					f.answer = append(f.answer, all[(i+int(c))%len(all)])
				}
				what := fmt.Sprintf("%s, handler returns %d messages and %v", m.name, n, st.Err())
				code, _, out := f.ask(x, m, "{}", m.req)
				if !m.stream {
					if code != httpCode[c] {
						x.Fail("%s: HTTP status %d", what, code)
					}
					checkStatus(x, what, out, st)
					continue
				}
				want := 200
				if n == 0 && c != codes.OK {
					want = httpCode[c]
				}
				if code != want {
					x.Fail("%s: HTTP status %d", what, code)
				}
				es := elements(x, what, out)
				if c != codes.OK {
					if len(es) == 0 || es[len(es)-1]["error"] == nil {
						x.Fail("%s: response %q", what, cut(out))
					}
					checkStatus(x, what, string(es[len(es)-1]["error"]), st)
					es = es[:len(es)-1]
				}
				if len(es) != n {
					x.Fail("%s: %d messages in the response %q", what, len(es), cut(out))
				}
				for i, e := range es {
					if got := parse(x, what, string(e["result"]), m.res); e["result"] == nil || !proto.Equal(got, f.answer[i]) {
						x.Fail("%s: message %d is %v, want %v", what, i, got, f.answer[i])
					}
				}
			}
		}
	}
	x.Outcome("%s %d", m.name, how)
}

// wires are ways to send the same request.
var wires = []struct {
	name string
	send func(f *front, m method, body string) (*http.Response, error)
}{
	{"with its length", func(f *front, m method, body string) (*http.Response, error) {
		return f.send(m, "", strings.NewReader(body), nil)
	}},
	{"in chunks", func(f *front, m method, body string) (*http.Response, error) {
		return f.send(m, "", io.MultiReader(strings.NewReader(body)), nil)
	}},
	{"in single bytes", func(f *front, m method, body string) (*http.Response, error) {
		return f.send(m, "", io.MultiReader(iotest.OneByteReader(strings.NewReader(body))), nil)
	}},
	{"after being asked to continue", func(f *front, m method, body string) (*http.Response, error) {
		return f.send(m, "", strings.NewReader(body), map[string]string{"Expect": "100-continue"})
	}},
	{"without a content type", func(f *front, m method, body string) (*http.Response, error) {
		return f.send(m, "", strings.NewReader(body), map[string]string{"Content-Type": ""})
	}},
	{"with a charset", func(f *front, m method, body string) (*http.Response, error) {
		return f.send(m, "", strings.NewReader(body), map[string]string{"Content-Type": "application/json; charset=utf-8", "Accept": "application/json"})
	}},
	{"with headers of browsers and proxies", func(f *front, m method, body string) (*http.Response, error) {
		return f.send(m, "", strings.NewReader(body), map[string]string{"Accept": "*/*", "Accept-Language": "de", "Origin": "http://x", "User-Agent": "u", "Cookie": "a=b", "X-Forwarded-For": "10.0.0.1", "X-Forwarded-Host": "h", "Authorization": "Bearer x", "Traceparent": "00-0af7651916cd43dd8448eb211c80319c-b7ad6b7169203331-01"})
	}},
	{"surrounded by white space", func(f *front, m method, body string) (*http.Response, error) {
		return f.send(m, "", strings.NewReader(" \r\n\t"+body+"\r\n "), nil)
	}},
	{"over a connection that ends", func(f *front, m method, body string) (*http.Response, error) {
		return f.send(m, "", strings.NewReader(body), map[string]string{"Connection": "close"})
	}},
	{"over HTTP/1.0", func(f *front, m method, body string) (*http.Response, error) {
		c, err := net.Dial("tcp", strings.TrimPrefix(f.url, "http://"))
		if err != nil {
			return nil, err
		}
		defer c.Close()
		fmt.Fprintf(c, "%s %s HTTP/1.0\r\nContent-Type: application/json\r\nContent-Length: %d\r\n\r\n%s", m.verb, m.path, len(body), body)
		b, err := io.ReadAll(c)
		if err != nil {
			return nil, err
		}
		return http.ReadResponse(bufio.NewReader(bytes.NewReader(b)), nil)
	}},
	{"in pieces over a slow connection", func(f *front, m method, body string) (*http.Response, error) {
		c, err := net.Dial("tcp", strings.TrimPrefix(f.url, "http://"))
		if err != nil {
			return nil, err
		}
		defer c.Close()
		fmt.Fprintf(c, "%s %s HTTP/1.1\r\nHost: x\r\nConnection: close\r\nContent-Type: application/json\r\nContent-Length: %d\r\n\r\n", m.verb, m.path, len(body))
		for len(body) > 0 {
			n := (len(body) + 3) / 4
			time.Sleep(2 * time.Millisecond)
			fmt.Fprint(c, body[:n])
			body = body[n:]
		}
		b, err := io.ReadAll(c)
		if err != nil {
			return nil, err
		}
		return http.ReadResponse(bufio.NewReader(bytes.NewReader(b)), nil)
	}},
}

func (f *front) send(m method, query string, body io.Reader, header map[string]string) (*http.Response, error) {
	req, err := http.NewRequest(m.verb, f.url+m.path+query, body)
	if err != nil {
		return nil, err
	}
	req.Header.Set("Content-Type", "application/json")
	for k, v := range header {
		req.Header.Set(k, v)
		if v == "" {
			req.Header.Del(k)
		}
	}
	return f.client.Do(req)
}

// transports sends requests in every way HTTP offers.
func transports(x *vrt.X) {
	m := methods[x.Choose(len(methods), "method")]
	how := x.Choose(4, "gateway")
	if m.stream && how == 3 {
		return
	}
	f := newFront(x, how)
	defer f.close()
	ms := messages(m.req.ProtoReflect().Type(), 4, false)
	reqs := []proto.Message{ms[0], ms[len(ms)/2], ms[len(ms)-1]}
	res := messages(m.res.ProtoReflect().Type(), 4, false)
	for _, w := range wires {
		for _, req := range reqs {
			f.answer = []proto.Message{res[len(res)-1]}
			body := forms(req)[0]
			what := fmt.Sprintf("%s %s with %s sent %s", m.verb, m.path, cut(body), w.name)
			before := f.calls
			resp, err := w.send(f, m, body)
			if err != nil {
				x.Fail("%s: %v", what, err)
			}
			b, err := io.ReadAll(resp.Body)
			resp.Body.Close()
			if err != nil || resp.StatusCode != 200 {
				x.Fail("%s: response %d %q %v", what, resp.StatusCode, cut(string(b)), err)
			}
			f.mu.Lock()
			if f.calls != before+1 || f.method != m.name || !proto.Equal(f.got, req) {
				x.Fail("%s: %d calls; %s was sent\n%v\ninstead of\n%v", what, f.calls-before, f.method, f.got, req)
			}
			f.mu.Unlock()
			out := string(b)
			if m.stream {
				es := elements(x, what, out)
				if len(es) != 1 || es[0]["result"] == nil {
					x.Fail("%s: response %q", what, cut(out))
				}
				out = string(es[0]["result"])
			}
			if got := parse(x, what, out, m.res); !proto.Equal(got, f.answer[0]) {
				x.Fail("%s: response\n%v\nthe handler returned\n%v", what, got, f.answer[0])
			}
			x.Count(1)
		}
	}
	// many clients at once
	var wg sync.WaitGroup
	errs := make(chan string, 64)
	for i := 0; i < 64; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			resp, err := f.send(m, "", strings.NewReader("{}"), nil)
			if err != nil {
				errs <- err.Error()
				return
			}
			b, err := io.ReadAll(resp.Body)
			resp.Body.Close()
			if err != nil || resp.StatusCode != 200 {
				errs <- fmt.Sprintf("%d %q %v", resp.StatusCode, b, err)
			}
		}()
	}
	wg.Wait()
	select {
	case e := <-errs:
		x.Fail("%s, 64 requests at once: %s", m.name, e)
	default:
	}
	x.Outcome("%s %d", m.name, how)
}

// strangers: requests that are none of the documented ones reach no handler.
func strangers(x *vrt.X) {
	how := x.Choose(4, "gateway")
	f := newFront(x, how)
	defer f.close()
	f.answer = []proto.Message{&pb.CreateTicketResponse{}}
	known := map[string]bool{}
	for _, m := range methods {
		known[m.verb+m.path] = true
		if m.stream && how == 3 {
			continue
		}
		f.answer = []proto.Message{m.res}
		for _, body := range []string{"{", "[]", "1", `"x"`, "nul", "{\"a\":}", "\xff"} {
			code, _, _ := f.ask(x, m, body, nil)
			if code != 400 {
				x.Fail("%s with malformed body %q: %d", m.path, body, code)
			}
		}
		f.ask(x, m, `{"noSuchField": {"a": [1]}}`, m.req)
	}
	for _, verb := range []string{"GET", "PUT", "POST", "DELETE", "PATCH"} {
		for _, path := range []string{"/v2/tickets", "/v2/tickets:deactivate", "/v2/tickets:activate", "/v2/matches:fetch", "/v2/assignments:create", "/v2/assignments:watch", "/", "/v1/tickets", "/v2/ticket", "/v2/tickets:create", "/v2/matches", "/v2/assignments", "/v2/tickets/1"} {
			if known[verb+path] {
				continue
			}
			f.mu.Lock()
			before := f.calls
			f.mu.Unlock()
			code, _, _ := f.do(x, verb, path, "{}")
			if f.calls != before || code < 400 {
				x.Fail("%s %s: %d, %d calls", verb, path, code, f.calls-before)
			}
		}
	}
	// big messages
	if how == 0 {
		for _, n := range []int{100000, 3000000} {
			tags := []string{strings.Repeat("x", n)}
			req := &pb.CreateTicketRequest{Ticket: &pb.Ticket{Attributes: &pb.Ticket_FilterableData{Tags: tags}}}
			f.answer = []proto.Message{&pb.CreateTicketResponse{TicketId: tags[0]}}
			b, _ := protojson.Marshal(req)
			code, _, out := f.ask(x, methods[0], string(b), req)
			if code != 200 || !proto.Equal(parse(x, "big", out, methods[0].res), f.answer[0]) {
				x.Fail("a ticket of %d bytes: %d", n, code)
			}
		}
	}
}

// streaming: messages arrive while the stream goes on.
func streaming(x *vrt.X) {
	m := methods[[]int{3, 5}[x.Choose(2, "method")]]
	n := 1 + x.Choose(3, "messages")
	step := make(chan bool)
	left := make(chan bool, 1)
	srv := &slow{step: step, left: left}
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		x.Fail("harness: %v", err)
	}
	gs := grpc.NewServer()
	pb.RegisterOpenMatchServiceServer(gs, srv)
	go gs.Serve(l)
	defer gs.Stop()
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	mux := runtime.NewServeMux()
	if err := gw.RegisterOpenMatchServiceHandlerFromEndpoint(ctx, mux, l.Addr().String(), []grpc.DialOption{grpc.WithTransportCredentials(insecure.NewCredentials())}); err != nil {
		x.Fail("%v", err)
	}
	h := httptest.NewServer(mux)
	defer h.Close()
	req, _ := http.NewRequest(m.verb, h.URL+m.path, strings.NewReader("{}"))
	rctx, leave := context.WithCancel(context.Background())
	defer leave()
	var res *http.Response
	got := make(chan error)
	go func() {
		var err error
		res, err = http.DefaultClient.Do(req.WithContext(rctx))
		got <- err
	}()
	timeout := time.After(60 * time.Second)
	step <- true
	select {
	case err := <-got:
		if err != nil {
			x.Fail("%v", err)
		}
	case <-timeout:
		x.Fail("%s: the first message does not arrive while the stream goes on", m.name)
	}
	dec := json.NewDecoder(res.Body)
	for i := 0; i < n; i++ {
		if i > 0 {
			step <- true
		}
		go func() {
			var e map[string]json.RawMessage
			got <- dec.Decode(&e)
		}()
		select {
		case err := <-got:
			if err != nil {
				x.Fail("%s: message %d: %v", m.name, i, err)
			}
		case <-timeout:
			x.Fail("%s: message %d does not arrive while the stream goes on", m.name, i)
		}
	}
	// the client leaves
	leave()
	select {
	case <-left:
	case <-timeout:
		x.Fail("%s: the client has gone away but the handler is not told", m.name)
	}
	res.Body.Close()
}

type slow struct {
	pb.UnimplementedOpenMatchServiceServer
	step, left chan bool
}

func (s *slow) run(ctx context.Context, send func() error) error {
	for {
		select {
		case <-s.step:
			if err := send(); err != nil {
				return err
			}
		case <-ctx.Done():
			s.left <- true
			return ctx.Err()
		}
	}
}

func (s *slow) InvokeMatchmakingFunctions(_ *pb.MmfRequest, st pb.OpenMatchService_InvokeMatchmakingFunctionsServer) error {
	return s.run(st.Context(), func() error { return st.Send(&pb.StreamedMmfResponse{Match: &pb.Match{Id: "m"}}) })
}

func (s *slow) WatchAssignments(_ *pb.WatchAssignmentsRequest, st pb.OpenMatchService_WatchAssignmentsServer) error {
	return s.run(st.Context(), func() error {
		return st.Send(&pb.StreamedWatchAssignmentsResponse{Id: "t", Assignment: &pb.Assignment{Connection: "c"}})
	})
}

func init() {
	reg := func(sc vrt.Scenario) { sc.Prop = "C22"; sc.NoCache = true; vrt.Register(sc) }
	reg(vrt.Scenario{Name: "requests", Doc: "every method x every way to connect the gateway x messages with each field and each pair of fields set to each value, 5 JSON forms", OnlyQuick: true, Shards: 8, Body: requests(4)})
	reg(vrt.Scenario{Name: "requests-deep", Doc: "the same with deeper messages", OnlyThorough: true, Body: requests(6)})
	reg(vrt.Scenario{Name: "responses", Doc: "every method x every way to connect the gateway x response messages", Shards: 4, Body: responses(5)})
	reg(vrt.Scenario{Name: "transports", Doc: "every method x every way to connect the gateway x 11 ways to send a body over HTTP; 64 clients at once", Shards: 4, Body: transports})
	reg(vrt.Scenario{Name: "endings", Doc: "every method x every status after 0-50 responses", Shards: 4, Body: endings})
	reg(vrt.Scenario{Name: "strangers", Doc: "malformed bodies, undocumented paths and verbs, big messages", Shards: 2, Body: strangers})
	reg(vrt.Scenario{Name: "streaming", Doc: "messages arrive while the stream goes on; the client leaves", Shards: 2, Body: streaming})
}
