// Package vgrpc stands in for the client side of google.golang.org/grpc in
// instrumented code: connections, streams and unary calls to servers that run
// in the same process under the explorer.  Servers are ordinary generated gRPC
// service descriptions with any implementation.
//
// What is kept of gRPC: messages cross as bytes (nothing is shared), a receiver
// refuses messages above its limit (4 MiB by default) with ResourceExhausted,
// calls to unreachable hosts fail with Unavailable (or wait, if wait-for-ready),
// contexts and deadlines cancel both sides, SendMsg on a finished stream returns
// io.EOF and waits while the receiver does not read (see Window), RecvMsg returns io.EOF only after a successful end, the stream's
// status comes after all messages, and closing the connection cancels its
// streams.
package vgrpc

import (
	"context"
	"errors"
	"io"
	"strings"
	"time"

	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/connectivity"
	"google.golang.org/grpc/metadata"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/timestamppb"
	"verif.local/vrt"
	"verif.local/vrt/vctx"
)

// Window is how many bytes a stream takes in one direction before they are
// read: the receiver's initial flow control window and the sender's quota.  A
// message is taken whole as long as there is less.
const Window = 65535 + 65536

func size(q [][]byte) (n int) {
	for _, b := range q {
		n += len(b)
	}
	return
}

// DefaultLimit is gRPC's default limit on received messages.
const DefaultLimit = 4 * 1024 * 1024

// Peer is a server at an address.
type Peer struct {
	Desc  *grpc.ServiceDesc
	Impl  any
	Limit int // receive limit, 0 = DefaultLimit
	// Lost, if set, is asked at each client operation whether the connection
	// breaks there; it may use vrt.Dev.
	Lost func(op string) bool
	// Delivered counts the messages of streams handed to the client.
	Delivered int
}

type state struct {
	peers     map[string]*Peer
	dialErr   map[string]error
	conns     map[*ClientConn]bool
	OpenConns int
	OpenRPCs  int
	Dials     []string
	Calls     []string
}

var st = newState()

func newState() *state {
	return &state{peers: map[string]*Peer{}, dialErr: map[string]error{}, conns: map[*ClientConn]bool{}}
}

func init() { vrt.RegisterReset(func() { st = newState() }) }

// Serve puts a server at host.
func Serve(host string, desc *grpc.ServiceDesc, impl any) *Peer {
	p := &Peer{Desc: desc, Impl: impl}
	st.peers[host] = p
	return p
}

// DialError makes dialing host fail.
func DialError(host string, err error) { st.dialErr[host] = err }

// OpenConns is the number of client connections not closed yet.
func OpenConns() int { return st.OpenConns }

// OpenRPCs is the number of calls that have not ended on the client side.
func OpenRPCs() int { return st.OpenRPCs }

// Dials lists the targets dialed so far.
func Dials() []string { return st.Dials }

// TimestampNow is timestamppb.Now on the virtual clock.
func TimestampNow() *timestamppb.Timestamp {
	return timestamppb.New(time.Unix(0, vrt.NowNano()))
}

// ClientConn stands in for grpc.ClientConn.
type ClientConn struct {
	target  string
	closed  bool
	o       vrt.Obj
	streams []*stream
}

func Dial(target string, opts ...grpc.DialOption) (*ClientConn, error) {
	return dial(target)
}

func DialContext(ctx context.Context, target string, opts ...grpc.DialOption) (*ClientConn, error) {
	return dial(target)
}

func NewClient(target string, opts ...grpc.DialOption) (*ClientConn, error) {
	return dial(target)
}

func dial(target string) (*ClientConn, error) {
	st.Dials = append(st.Dials, target)
	t := target
	for _, p := range []string{"passthrough:///", "dns:///"} {
		t = strings.TrimPrefix(t, p)
	}
	if err := st.dialErr[t]; err != nil {
		return nil, err
	}
	c := &ClientConn{target: t}
	st.OpenConns++
	return c, nil
}

func (c *ClientConn) Target() string { return c.target }
func (c *ClientConn) Connect()       {}
func (c *ClientConn) GetState() connectivity.State {
	if c.closed {
		return connectivity.Shutdown
	}
	return connectivity.Idle
}
func (c *ClientConn) WaitForStateChange(ctx context.Context, s connectivity.State) bool { return true }
func (c *ClientConn) ResetConnectBackoff()                                              {}

// Close closes the connection and cancels its calls.
func (c *ClientConn) Close() error {
	if vrt.Exiting() {
		return nil
	}
	vrt.Touch("grpc close "+c.target, &c.o, true)
	if c.closed {
		return status.Error(codes.Canceled, "grpc: the client connection is closing")
	}
	c.closed = true
	st.OpenConns--
	for _, s := range c.streams {
		if !s.done {
			s.end(status.Error(codes.Canceled, "grpc: the client connection is closing"))
			s.scancel()
		}
		s.finish()
	}
	return nil
}

type stream struct {
	conn      *ClientConn
	peer      *Peer
	ctx       context.Context // client's
	sctx      context.Context // server's
	scancel   context.CancelFunc
	o         vrt.Obj
	c2s       [][]byte
	s2c       [][]byte
	halfClose bool
	done      bool  // ended, err says how
	err       error // nil: OK
	handler   bool  // handler has returned
	limit     int
	observed  bool
}

func ctxStatus(err error) error {
	switch {
	case errors.Is(err, context.DeadlineExceeded):
		return status.Error(codes.DeadlineExceeded, err.Error())
	default:
		return status.Error(codes.Canceled, context.Canceled.Error())
	}
}

// end finishes the stream from the client's point of view.
func (s *stream) end(err error) {
	if s.done {
		return
	}
	s.done, s.err = true, err
	vrt.Mark(&s.o, true, 0xe4d)
}

// poll notices a cancelled context.
func (s *stream) poll() {
	if s.done {
		return
	}
	if e := vctx.RawErr(s.ctx); e != nil {
		if o := vctx.Obj(s.ctx); o != nil {
			vrt.Mark(o, false, 0xc7)
		}
		s.end(ctxStatus(e))
	}
}

func (s *stream) ctxDone() bool { return vctx.RawErr(s.ctx) != nil }

func (s *stream) finish() {
	if !s.observed {
		s.observed = true
		st.OpenRPCs--
	}
}

func (c *ClientConn) lookup(ctx context.Context, method string, opts []grpc.CallOption) (*Peer, error) {
	wait := false
	for _, o := range opts {
		if f, ok := o.(grpc.FailFastCallOption); ok {
			wait = !f.FailFast
		}
	}
	vrt.Touch("grpc call "+c.target+method, &c.o, false)
	st.Calls = append(st.Calls, c.target+method)
	if c.closed {
		return nil, status.Error(codes.Canceled, "grpc: the client connection is closing")
	}
	if e := vctx.RawErr(ctx); e != nil {
		return nil, ctxStatus(e)
	}
	p := st.peers[c.target]
	if p == nil || p.Lost != nil && p.Lost("connect") {
		if wait {
			vrt.WaitUntil("wait for ready", vctx.Obj(ctx), func() bool { return vctx.RawErr(ctx) != nil })
			return nil, ctxStatus(vctx.RawErr(ctx))
		}
		return nil, status.Errorf(codes.Unavailable, "connection error: desc = \"transport: Error while dialing: dial tcp %s: connect: connection refused\"", c.target)
	}
	return p, nil
}

// NewStream starts a streaming call.
func (c *ClientConn) NewStream(ctx context.Context, desc *grpc.StreamDesc, method string, opts ...grpc.CallOption) (grpc.ClientStream, error) {
	if vrt.Exiting() {
		vrt.Bail()
	}
	p, err := c.lookup(ctx, method, opts)
	if err != nil {
		return nil, err
	}
	s := &stream{conn: c, peer: p, ctx: ctx, limit: DefaultLimit}
	for _, o := range opts {
		if m, ok := o.(grpc.MaxRecvMsgSizeCallOption); ok {
			s.limit = m.MaxRecvMsgSize
		}
	}
	c.streams = append(c.streams, s)
	st.OpenRPCs++
	s.sctx, s.scancel = vctx.WithCancel(ctx)
	name := method[strings.LastIndexByte(method, '/')+1:]
	var h grpc.StreamHandler
	if p.Desc != nil && strings.HasPrefix(method, "/"+p.Desc.ServiceName+"/") {
		for i := range p.Desc.Streams {
			if p.Desc.Streams[i].StreamName == name {
				h = p.Desc.Streams[i].Handler
			}
		}
	}
	vrt.GoNamed("server "+c.target, func() {
		var err error
		if h == nil {
			err = status.Errorf(codes.Unimplemented, "unknown method %s", method)
		} else {
			err = h(p.Impl, &server{s})
		}
		vrt.Touch("grpc handler returns", &s.o, true)
		s.handler = true
		if err != nil {
			if _, ok := status.FromError(err); !ok {
				if errors.Is(err, context.Canceled) || errors.Is(err, context.DeadlineExceeded) {
					err = ctxStatus(err)
				} else {
					err = status.Error(codes.Unknown, err.Error())
				}
			} else {
				err = status.Convert(err).Err()
			}
		}
		s.end(err)
		s.scancel()
	})
	return &client{s}, nil
}

type client struct{ *stream }

func (c *client) Header() (metadata.MD, error) { return metadata.MD{}, nil }
func (c *client) Trailer() metadata.MD         { return metadata.MD{} }
func (c *client) Context() context.Context     { return c.ctx }

func (c *client) CloseSend() error {
	if vrt.Exiting() {
		return nil
	}
	vrt.Touch("grpc CloseSend", &c.o, true)
	c.halfClose = true
	return nil
}

func (c *client) lost(op string) bool {
	if !c.done && c.peer.Lost != nil && c.peer.Lost(op) {
		c.end(status.Error(codes.Unavailable, "error reading from server: EOF"))
		c.scancel()
		return true
	}
	return false
}

func (c *client) SendMsg(m any) error {
	if vrt.Exiting() {
		vrt.Bail()
	}
	b, err := proto.Marshal(m.(proto.Message))
	if err != nil {
		return status.Errorf(codes.Internal, "grpc: error while marshaling: %v", err)
	}
	vrt.Touch("grpc client Send", &c.o, true)
	c.poll()
	if size(c.c2s) >= Window {
		vrt.WaitUntil("grpc client Send", &c.o, func() bool { return size(c.c2s) < Window || c.done || c.ctxDone() })
		c.poll()
	}
	c.lost("send")
	if c.done {
		return io.EOF
	}
	if c.halfClose {
		return status.Error(codes.Internal, "SendMsg called after CloseSend")
	}
	c.c2s = append(c.c2s, b)
	return nil
}

func (c *client) RecvMsg(m any) error {
	if vrt.Exiting() {
		vrt.Bail()
	}
	vrt.WaitUntil("grpc client Recv", &c.o, func() bool { return len(c.s2c) > 0 || c.done || c.ctxDone() })
	if len(c.s2c) == 0 || c.ctxDone() && vrt.Dev(2, "context error before buffered message") == 1 {
		c.poll()
	}
	c.lost("recv")
	if len(c.s2c) > 0 && !(c.done && c.err != nil && !c.handler) {
		b := c.s2c[0]
		c.s2c = c.s2c[1:]
		if len(b) > c.limit {
			err := status.Errorf(codes.ResourceExhausted, "grpc: received message larger than max (%d vs. %d)", len(b), c.limit)
			c.end(err)
			c.err = err
			c.scancel()
			c.finish()
			return err
		}
		mm := m.(proto.Message)
		proto.Reset(mm)
		if err := proto.Unmarshal(b, mm); err != nil {
			c.end(status.Errorf(codes.Internal, "grpc: failed to unmarshal the received message: %v", err))
			c.scancel()
			c.finish()
			return c.err
		}
		c.peer.Delivered++
		return nil
	}
	c.finish()
	if c.err == nil {
		return io.EOF
	}
	return c.err
}

type server struct{ *stream }

func (s *server) SetHeader(metadata.MD) error  { return nil }
func (s *server) SendHeader(metadata.MD) error { return nil }
func (s *server) SetTrailer(metadata.MD)       {}
func (s *server) Context() context.Context     { return s.sctx }

func (s *server) SendMsg(m any) error {
	if vrt.Exiting() {
		vrt.Bail()
	}
	b, err := proto.Marshal(m.(proto.Message))
	if err != nil {
		return status.Errorf(codes.Internal, "grpc: error while marshaling: %v", err)
	}
	vrt.Touch("grpc server Send", &s.o, true)
	s.poll()
	if size(s.s2c) >= Window {
		vrt.WaitUntil("grpc server Send", &s.o, func() bool {
			return size(s.s2c) < Window || s.done || vctx.RawErr(s.sctx) != nil
		})
		s.poll()
	}
	if s.done {
		return status.Error(codes.Unavailable, "transport is closing")
	}
	s.s2c = append(s.s2c, b)
	return nil
}

func (s *server) RecvMsg(m any) error {
	if vrt.Exiting() {
		vrt.Bail()
	}
	vrt.WaitUntil("grpc server Recv", &s.o, func() bool {
		return len(s.c2s) > 0 || s.halfClose || s.done || vctx.RawErr(s.sctx) != nil
	})
	s.poll()
	if s.done {
		if e := vctx.RawErr(s.sctx); e != nil {
			return ctxStatus(e)
		}
		return status.Error(codes.Canceled, "context canceled")
	}
	if len(s.c2s) > 0 {
		b := s.c2s[0]
		s.c2s = s.c2s[1:]
		lim := s.peer.Limit
		if lim == 0 {
			lim = DefaultLimit
		}
		if len(b) > lim {
			return status.Errorf(codes.ResourceExhausted, "grpc: received message larger than max (%d vs. %d)", len(b), lim)
		}
		mm := m.(proto.Message)
		proto.Reset(mm)
		if err := proto.Unmarshal(b, mm); err != nil {
			return status.Errorf(codes.Internal, "grpc: failed to unmarshal the received message: %v", err)
		}
		return nil
	}
	return io.EOF
}

// Invoke performs a unary call.
func (c *ClientConn) Invoke(ctx context.Context, method string, args, reply any, opts ...grpc.CallOption) error {
	if vrt.Exiting() {
		vrt.Bail()
	}
	p, err := c.lookup(ctx, method, opts)
	if err != nil {
		return err
	}
	b, err := proto.Marshal(args.(proto.Message))
	if err != nil {
		return status.Errorf(codes.Internal, "grpc: error while marshaling: %v", err)
	}
	name := method[strings.LastIndexByte(method, '/')+1:]
	for i := range p.Desc.Methods {
		if p.Desc.Methods[i].MethodName != name {
			continue
		}
		var o vrt.Obj
		var res any
		var rerr error
		done := false
		sctx, cancel := vctx.WithCancel(ctx)
		vrt.GoNamed("server "+c.target, func() {
			res, rerr = p.Desc.Methods[i].Handler(p.Impl, sctx, func(in any) error {
				return proto.Unmarshal(b, in.(proto.Message))
			}, nil)
			vrt.Touch("grpc handler returns", &o, true)
			done = true
			cancel()
		})
		vrt.WaitUntil("grpc unary "+name, &o, func() bool { return done || vctx.RawErr(ctx) != nil })
		if !done {
			return ctxStatus(vctx.RawErr(ctx))
		}
		if rerr != nil {
			return status.Convert(rerr).Err()
		}
		rb, err := proto.Marshal(res.(proto.Message))
		if err != nil {
			return status.Errorf(codes.Internal, "grpc: error while marshaling: %v", err)
		}
		if len(rb) > DefaultLimit {
			return status.Error(codes.ResourceExhausted, "grpc: received message larger than max")
		}
		proto.Reset(reply.(proto.Message))
		return proto.Unmarshal(rb, reply.(proto.Message))
	}
	return status.Errorf(codes.Unimplemented, "unknown method %s", name)
}
