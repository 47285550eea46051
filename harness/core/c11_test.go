package main

import (
	"errors"
	"fmt"
	"io"
	"sort"
	"strings"
	"time"
	context "verif.local/vrt/vctx"

	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/anypb"
	store "open-match.dev/core/internal/statestore/datatypes"
	pb "open-match.dev/pkg/pb/v2"
	"verif.local/vdep/vgrpc"
	"verif.local/vrt"
	"verif.local/vrt/vctx"
)

// Scripted matchmaking functions, for C11 to C14.

type mmfEnd int

const (
	endOK mmfEnd = iota
	endError
	endHang // until its context is done
	endUnreachable
	endDialError
	endREST
	endEarly // before reading the request
	endCancelled
	nEnds
)

func (e mmfEnd) String() string {
	return [...]string{"ok", "error", "hang", "unreachable", "dial-error", "rest", "early", "cancelled"}[e]
}

// zzScript is what one matchmaking function does.
type zzScript struct {
	matches []*pb.Match
	delay   time.Duration // before each match
	end     mmfEnd
	last    time.Duration // before the end
}

// function is a script at work.
type function struct {
	zzScript
	spec  *pb.MatchmakingFunctionSpec
	peer  *vgrpc.Peer
	sent  []*pb.Match
	began bool
	start time.Duration
	// how its context ended, if it did before the function did
	ctxErr error
	ctxAt  time.Duration
	done   bool
}

func elapsed() time.Duration { return time.Duration(vrt.RawNow() - 1_700_000_000*1e9) }

var mmfCount int

func init() { vrt.RegisterReset(func() { mmfCount = 0 }) }

func (w *world) function(sc zzScript) *function {
	f := &function{zzScript: sc}
	mmfCount++
	host := fmt.Sprintf("fn%d", mmfCount)
	f.spec = &pb.MatchmakingFunctionSpec{Name: host, Host: host, Port: 50000, Type: pb.MatchmakingFunctionSpec_GRPC}
	switch sc.end {
	case endUnreachable:
		return f
	case endDialError:
		vgrpc.DialError(host+":50000", errors.New("cannot dial"))
		return f
	case endREST:
		f.spec.Type = pb.MatchmakingFunctionSpec_REST
	}
	f.peer = vgrpc.Serve(host+":50000", &pb.MatchMakingFunctionService_ServiceDesc, &mmfImpl{run: f.run})
	return f
}

// pause sleeps unless the run's context ends first.
func (f *function) pause(s pb.MatchMakingFunctionService_RunServer, d time.Duration) bool {
	if d > 0 {
		vrt.WaitTimeout("function works", vctx.Obj(s.Context()), int64(d), func() bool { return vctx.RawErr(s.Context()) != nil })
	}
	return f.alive(s)
}

func (f *function) alive(s pb.MatchMakingFunctionService_RunServer) bool {
	if e := vctx.RawErr(s.Context()); e != nil {
		if f.ctxErr == nil {
			f.ctxErr, f.ctxAt = e, elapsed()
		}
		return false
	}
	return true
}

func (f *function) run(s pb.MatchMakingFunctionService_RunServer) error {
	f.began, f.start = true, elapsed()
	defer func() { f.done = true }()
	if f.end != endEarly {
		if _, err := readAll(s); err != nil {
			f.alive(s)
			return err
		}
	}
	for _, m := range f.matches {
		if !f.pause(s, f.delay) {
			return status.FromContextError(vctx.RawErr(s.Context())).Err()
		}
		r := &pb.StreamedMmfResponse{}
		if m != nil {
			r.Match = proto.Clone(m).(*pb.Match)
		}
		if err := s.Send(r); err != nil {
			f.alive(s)
			return err
		}
		f.sent = append(f.sent, m)
	}
	if !f.pause(s, f.last) {
		return status.FromContextError(vctx.RawErr(s.Context())).Err()
	}
	switch f.end {
	case endError:
		return status.Error(codes.Internal, "function failed")
	case endCancelled:
		return status.Error(codes.Canceled, "function says cancelled")
	case endHang:
		vrt.WaitUntil("function hangs", vctx.Obj(s.Context()), func() bool { return vctx.RawErr(s.Context()) != nil })
		f.alive(s)
		return status.FromContextError(vctx.RawErr(s.Context())).Err()
	}
	return nil
}

func enc(m *pb.Match) string {
	b, err := proto.MarshalOptions{Deterministic: true}.Marshal(m)
	if err != nil {
		panic(err)
	}
	return string(b)
}

// delivered checks that exactly the functions' matches reached the caller.
func delivered(x *vrt.X, fs []*function, got []*pb.StreamedMmfResponse) {
	want := map[string]int{}
	name := map[string]string{}
	for i, f := range fs {
		n := len(f.sent)
		if f.peer == nil || f.end == endREST {
			if n > 0 {
				x.Fail("a function that is not to be called ran")
			}
			continue
		}
		if f.peer.Lost == nil && f.end != endHang && f.ctxErr == nil && f.peer.Delivered != n {
			x.Fail("function %d streamed %d matches, om-core has read %d", i, n, f.peer.Delivered)
		}
		for _, m := range f.sent[:min(n, f.peer.Delivered)] {
			want[enc(m)]++
			name[enc(m)] = m.GetId()
		}
	}
	for _, g := range got {
		k := enc(g.GetMatch())
		if want[k] == 0 {
			x.Fail("the caller got match %v, which no function sent or which it got before", g.GetMatch())
		}
		want[k]--
	}
	var missing []string
	for k, n := range want {
		for ; n > 0; n-- {
			missing = append(missing, name[k])
		}
	}
	sort.Strings(missing)
	if len(missing) > 0 {
		x.Fail("matches %q did not reach the caller, who got %d", missing, len(got))
	}
}

func describeFns(fs []*function) string {
	s := ""
	for _, f := range fs {
		s += fmt.Sprintf("[%d %v]", len(f.matches), f.end)
	}
	return s
}

func request1(fs []*function, prof *pb.Profile) *pb.MmfRequest {
	r := &pb.MmfRequest{Profile: prof}
	for _, f := range fs {
		r.Mmfs = append(r.Mmfs, f.spec)
	}
	return r
}

// prepared makes n active tickets on a fake storage.
func prepared(x *vrt.X, n int, cfg map[string]any) (*world, *fakeStore, []string) {
	f := &fakeStore{}
	c := fast(map[string]any{"OM_CACHE_OUT_MAX_QUEUE_THRESHOLD": 1})
	for k, v := range cfg {
		c[k] = v
	}
	w := newWorld(x, opts{storage: "fake", fake: f, cfg: c})
	var ids []string
	for i := 0; i < n; i++ {
		id := fid(0, i)
		ids = append(ids, id)
		f.inject(upTicket(id, ticket("t"), time.Duration(w.ttl)), upAct(id))
	}
	w.settle()
	return w, f, ids
}

// rich makes a match with every field in use.
func rich(id string, tickets ...string) *pb.Match {
	m := match(id, tickets...)
	m.Extensions = map[string]*anypb.Any{"score": {TypeUrl: "x", Value: []byte(id)}}
	m.Rosters["r"].Extensions = map[string]*anypb.Any{"e": {Value: []byte{1}}}
	m.Rosters["empty"] = &pb.Roster{Name: "nobody"}
	for _, t := range m.Rosters["r"].Tickets {
		t.Attributes = &pb.Ticket_FilterableData{Tags: []string{"t"}, DoubleArgs: map[string]float64{"d": 2}}
	}
	return m
}

// fanIn: n functions, every number of matches and every end.
func fanIn(nf, maxMatches int, ends []mmfEnd, wait bool) func(x *vrt.X) {
	return func(x *vrt.X) {
		x.Quiet(true)
		w, _, ids := prepared(x, 4, map[string]any{"OM_MATCH_TICKET_DEACTIVATION_WAIT": wait})
		var fs []*function
		for i := 0; i < nf; i++ {
			sc := zzScript{end: ends[x.Choose(len(ends), "end")]}
			if sc.end != endUnreachable && sc.end != endDialError && sc.end != endREST {
				for j := x.Choose(maxMatches+1, "matches"); j > 0; j-- {
					// one ticket of its own and a common one
					sc.matches = append(sc.matches, rich(fmt.Sprintf("m%d.%d", i, j), ids[(i+j)%3], ids[3]))
					if i == 0 && j == 2 {
						// nothing requires a match to have an id
						sc.matches[len(sc.matches)-1].Id = ""
					}
				}
			}
			fs = append(fs, w.function(sc))
		}
		x.Quiet(false)
		s, err := w.invoke(bg(), request1(fs, everyone()))
		x.Quiet(true)
		if err != nil {
			x.Logf("invocation returned %v", err)
		}
		delivered(x, fs, s.got)
		for i, f := range fs {
			if !f.began && f.peer != nil && f.end != endREST {
				x.Fail("function %d was not run", i)
			}
		}
		x.Outcome("%s %d", describeFns(fs), len(s.got))
	}
}

// sameMatch: several functions return equal matches.
func sameMatch(x *vrt.X) {
	x.Quiet(true)
	w, _, ids := prepared(x, 2, nil)
	var fs []*function
	for i := 0; i < 2; i++ {
		fs = append(fs, w.function(zzScript{matches: []*pb.Match{rich("same", ids...), rich("same", ids...)}}))
	}
	x.Quiet(false)
	s, _ := w.invoke(bg(), request1(fs, everyone()))
	delivered(x, fs, s.got)
	x.Outcome("%d", len(s.got))
}

// slow: a function keeps working while others have finished or failed.
func slow(x *vrt.X) {
	x.Quiet(true)
	w, _, ids := prepared(x, 4, nil)
	a := w.function(zzScript{matches: []*pb.Match{rich("a1", ids[0]), rich("a2", ids[1])}, delay: 7 * time.Second, last: time.Second})
	b := w.function(zzScript{matches: []*pb.Match{rich("b1", ids[2])}, end: []mmfEnd{endOK, endError, endUnreachable, endCancelled}[x.Choose(4, "end")], delay: time.Duration(x.Choose(3, "delay")) * 8 * time.Second})
	fs := []*function{a, b}
	if x.Choose(2, "order") == 1 {
		fs = []*function{b, a}
	}
	x.Quiet(false)
	s, _ := w.invoke(bg(), request1(fs, everyone()))
	delivered(x, fs, s.got)
	x.Outcome("%d at %v", len(s.got), elapsed())
}

// broken: the connection to one of two functions breaks at any point.
func broken(x *vrt.X) {
	x.Quiet(true)
	w, _, ids := prepared(x, 4, nil)
	a := w.function(zzScript{matches: []*pb.Match{rich("a1", ids[0]), rich("a2", ids[1])}})
	b := w.function(zzScript{matches: []*pb.Match{rich("b1", ids[2])}})
	lost := false
	a.peer.Lost = func(op string) bool {
		if !lost && vrt.Dev(2, "connection lost at "+op) == 1 {
			lost = true
			return true
		}
		return false
	}
	x.Quiet(false)
	s, _ := w.invoke(bg(), request1([]*function{a, b}, everyone()))
	delivered(x, []*function{a, b}, s.got)
	if n := len(s.got); n == 0 || !lost && n != 3 {
		x.Fail("%d matches (connection lost: %v)", n, lost)
	}
	x.Outcome("%d", len(s.got))
}

// pressure: the caller takes each match slowly.
func pressure(pers []time.Duration, onlies int) func(x *vrt.X) {
	return func(x *vrt.X) { pressured(x, pers, onlies) }
}

func pressured(x *vrt.X, pers []time.Duration, onlies int) {
	x.Quiet(true)
	w, _, ids := prepared(x, 4, map[string]any{"OM_MATCH_TICKET_DEACTIVATION_WAIT": x.Choose(2, "wait") == 1, "OM_CACHE_TICKET_TTL_SECS": 6000})
	per := pers[x.Choose(len(pers), "per match")]
	only := x.Choose(onlies, "only one") // all, the first, the second
	var fs []*function
	for i := 0; i < 2; i++ {
		sc := zzScript{end: []mmfEnd{endOK, endError, endUnreachable}[x.Choose(3, "end")]}
		if sc.end != endUnreachable {
			for j := 0; j < 2; j++ {
				sc.matches = append(sc.matches, rich(fmt.Sprintf("m%d.%d", i, j), ids[2*i+j]))
			}
		}
		fs = append(fs, w.function(sc))
	}
	s := &respStream{ctx: bg()}
	s.onSend = func(n int) error {
		if only == 0 || n == only-1 {
			x.Sleep(per)
		}
		return nil
	}
	x.Quiet(false)
	w.invokeOn(s, request1(fs, everyone()))
	x.Quiet(true)
	delivered(x, fs, s.got)
	x.Outcome("%s %d", describeFns(fs), len(s.got))
}

// many: one function returns many matches at once.
func manyMatches(x *vrt.X) {
	x.Quiet(true)
	n := []int{10, 40, 150}[x.Choose(3, "matches")]
	w, _, ids := prepared(x, 5, map[string]any{"OM_CACHE_OUT_MAX_QUEUE_THRESHOLD": 1 + 49*x.Choose(2, "batch"), "OM_MATCH_TICKET_DEACTIVATION_WAIT": x.Choose(2, "wait") == 1})
	var fs []*function
	for i := 0; i < 3; i++ {
		sc := zzScript{end: []mmfEnd{endOK, endError, endOK}[i]}
		for j := 0; j < n; j++ {
			sc.matches = append(sc.matches, match(fmt.Sprintf("m%d.%d", i, j), ids[j%5], ids[(j+i)%5]))
		}
		fs = append(fs, w.function(sc))
	}
	s, _ := w.invoke(bg(), request1(fs, everyone()))
	delivered(x, fs, s.got)
	x.Outcome("%d", len(s.got))
}

// twoCalls: two invocations at once, each caller gets its own matches.
func twoCalls(x *vrt.X) {
	x.Quiet(true)
	w, _, ids := prepared(x, 3, nil)
	a := []*function{w.function(zzScript{matches: []*pb.Match{rich("a1", ids[0]), rich("a2", ids[1])}})}
	b := []*function{w.function(zzScript{matches: []*pb.Match{rich("b1", ids[1])}, end: endError}), w.function(zzScript{matches: []*pb.Match{rich("b2", ids[2])}})}
	x.Quiet(false)
	var sb *respStream
	t := x.Go("second caller", func() { sb, _ = w.invoke(bg(), request1(b, everyone())) })
	sa, _ := w.invoke(bg(), request1(a, everyone()))
	x.Join(t)
	delivered(x, a, sa.got)
	delivered(x, b, sb.got)
	x.Outcome("%d %d", len(sa.got), len(sb.got))
}

// eager: functions that return matches before they have read their request,
// whose messages are large, and so are the matches.
func eager(x *vrt.X) {
	x.Quiet(true)
	f := &fakeStore{}
	w := newWorld(x, opts{storage: "fake", fake: f, cfg: fast(map[string]any{"OM_MATCH_TICKET_DEACTIVATION_WAIT": x.Choose(2, "wait") == 1})})
	size := []int{10, 300_000, 1_500_000}[x.Choose(3, "ticket size")]
	big := strings.Repeat("x", size)
	var ids []string
	for i := 0; i < 6; i++ {
		id := fid(0, i)
		ids = append(ids, id)
		f.inject(upTicket(id, ticket(big), time.Duration(w.ttl)), upAct(id))
	}
	w.settle()
	prof := &pb.Profile{Pools: map[string]*pb.Pool{}}
	for _, n := range []string{"a", "b", "c"}[:1+x.Choose(3, "pools")] {
		prof.Pools[n] = &pb.Pool{Name: n}
	}
	n := []int{1, 2, 7}[x.Choose(3, "matches per message")]
	pad := []int{0, 40_000, 200_000}[x.Choose(3, "match size")]
	order := x.Choose(5, "order") // while reading, before, after, before and never reading; never reading, then an error
	sc := zzScript{}
	if order == 4 {
		sc.end = endError
	}
	fn := w.function(sc)
	fn.peer.Impl = &mmfImpl{run: func(s pb.MatchMakingFunctionService_RunServer) error {
		fn.began = true
		defer func() { fn.done = true }()
		k := 0
		send := func(n int) error {
			for ; n > 0; n-- {
				m := rich(fmt.Sprintf("m%d", k), ids[k%len(ids)])
				m.Extensions["pad"] = &anypb.Any{Value: make([]byte, pad)}
				k++
				if err := s.Send(&pb.StreamedMmfResponse{Match: m}); err != nil {
					return err
				}
				fn.sent = append(fn.sent, m)
			}
			return nil
		}
		if order == 1 || order >= 3 {
			if err := send(3 * n); err != nil {
				return err
			}
		}
		if order == 3 {
			return nil
		}
		if order == 4 {
			return status.Error(codes.Internal, "function failed")
		}
		chunks := 0
		for {
			c, err := s.Recv()
			if err == io.EOF {
				break
			}
			if err != nil {
				return err
			}
			chunks++
			if order == 0 {
				if err := send(n); err != nil {
					return err
				}
			}
			if int(c.NumChunks) == chunks {
				break
			}
		}
		if order == 2 {
			return send(3 * n)
		}
		return nil
	}}
	other := w.function(zzScript{matches: []*pb.Match{rich("o", ids[0])}, delay: time.Second})
	fs := []*function{fn, other}
	s := &respStream{ctx: bg()}
	var err error
	x.JoinWithin(100*time.Second, x.Go("caller", func() { err = w.invokeOn(s, request1(fs, prof)) }))
	if err != nil {
		x.Logf("invocation returned %v", err)
	}
	delivered(x, fs, s.got)
	for i, f := range fs {
		if !f.done {
			x.Fail("function %d has not ended", i)
		}
	}
	x.Outcome("%d matches", len(s.got))
}

var _ context.Context

// shared: one server runs the functions of two overlapping invocations, maybe
// two of one invocation, and of a later one.
func shared(x *vrt.X) {
	x.Quiet(true)
	w, _, ids := prepared(x, 4, nil)
	ms := time.Millisecond
	delay := map[string]time.Duration{
		"a": []time.Duration{0, 300 * ms}[x.Choose(2, "a's delay")],
		"b": []time.Duration{0, 300 * ms, 1500 * ms}[x.Choose(3, "b's delay")],
	}
	twice := 1 + x.Choose(2, "functions of a")
	after := []time.Duration{0, 150 * ms, 450 * ms}[x.Choose(3, "b begins")]
	fails := x.Choose(2, "a fails") == 1
	runs := map[string]int{}
	sent := map[string][]string{}
	host := fmt.Sprint("shared", after)
	specs := []*pb.MatchmakingFunctionSpec{
		mmf(host, 50000, func(s pb.MatchMakingFunctionService_RunServer) error {
			req, err := readAll(s)
			if err != nil {
				return err
			}
			name := req[0].GetProfile().GetName()
			n := runs[name]
			runs[name]++
			for i := 0; i < 2; i++ {
				vrt.Sleep(int64(delay[name]))
				m := rich(fmt.Sprintf("%s.%d.%d", name, n, i), ids[(n+i)%3], ids[3])
				if err := s.Send(&pb.StreamedMmfResponse{Match: m}); err != nil {
					return err
				}
				sent[name] = append(sent[name], enc(m))
			}
			if name == "a" && fails {
				return status.Error(codes.Internal, "function failed")
			}
			return nil
		}),
		{Name: "other name", Host: host, Port: 50000, Type: pb.MatchmakingFunctionSpec_GRPC},
	}
	got := map[string][]string{}
	call := func(name string, n int) {
		prof := everyone()
		prof.Name = name
		s, _ := w.invoke(bg(), &pb.MmfRequest{Profile: prof, Mmfs: specs[:n]})
		for _, g := range s.got {
			got[name] = append(got[name], enc(g.GetMatch()))
		}
	}
	x.Quiet(false)
	t := x.Go("second caller", func() { x.Sleep(after); call("b", 1) })
	call("a", twice)
	x.Join(t)
	x.Quiet(true)
	call("c", 2)
	for name, n := range map[string]int{"a": twice, "b": 1, "c": 2} {
		if runs[name] != n {
			x.Fail("invocation %s of %d functions at one address ran %d", name, n, runs[name])
		}
		if len(sent[name]) != 2*n {
			x.Fail("the %d functions of invocation %s could send only %d matches of 2 each", n, name, len(sent[name]))
		}
		if !same(sorted(got[name]...), sorted(sent[name]...)) {
			x.Fail("the functions of invocation %s sent %d matches, its caller got %d", name, len(sent[name]), len(got[name]))
		}
	}
	x.Outcome("ok")
}

// trouble: the storage refuses deactivations, takes long to write them or does
// not deliver them for a while; the matches arrive all the same.
func trouble(x *vrt.X) {
	x.Quiet(true)
	wait := x.Choose(2, "wait") == 1
	w, f, ids := prepared(x, 4, map[string]any{"OM_MATCH_TICKET_DEACTIVATION_WAIT": wait, "OM_CACHE_OUT_MAX_QUEUE_THRESHOLD": 1 + 3*x.Choose(2, "batch"), "OM_CACHE_TICKET_TTL_SECS": 6000, "OM_CACHE_OUT_WAIT_TIMEOUT_MS": 5000, "OM_CACHE_IN_WAIT_TIMEOUT_MS": 5000})
	fs := []*function{w.function(zzScript{matches: []*pb.Match{rich("a", ids[0], ids[1]), rich("b", ids[1], ids[2])}, end: []mmfEnd{endOK, endError}[x.Choose(2, "end")]}), w.function(zzScript{matches: []*pb.Match{rich("c", ids[3])}})}
	var t *vrt.Task
	switch k := x.Choose(7, "storage"); k {
	case 0:
		f.fail = func(u *store.StateUpdate) error { return errors.New("refused") }
	case 1:
		f.fail = func(u *store.StateUpdate) error {
			if u.Key == ids[1] {
				return errors.New("refused")
			}
			return nil
		}
	case 2:
		f.slow = 3 * time.Second
	default:
		// Until then nothing that was written becomes known.
		d := []time.Duration{40, 61, 75, 200}[k-3] * time.Second
		f.release(true)
		t = x.Go("storage", func() { x.Sleep(d); f.release(false) })
	}
	s := &respStream{ctx: bg()}
	w.invokeOn(s, request1(fs, everyone()))
	delivered(x, fs, s.got)
	if len(s.got) != 3 {
		x.Fail("%d matches of 3 were returned", len(s.got))
	}
	if t != nil {
		x.Join(t)
	}
	f.fail, f.slow = nil, 0
	if _, err := w.create(bg(), ticket("t")); err != nil {
		x.Fail("creation after the invocation: %v", err)
	}
	x.Outcome("%d", len(s.got))
}

func init() {
	all := []mmfEnd{endOK, endError, endUnreachable, endDialError, endREST, endEarly, endCancelled}
	reg := func(name, doc string, quick, thorough, shards int, body func(*vrt.X)) {
		vrt.Register(vrt.Scenario{Prop: "C11", Name: name, Doc: doc, Quick: quick, Thorough: thorough, Shards: shards, TShards: 8, Body: body})
	}
	reg("one", "one function, 0-3 matches, 7 ways to end", 2, 3, 4, fanIn(1, 3, all, false))
	reg("onewait", "one function, 0-2 matches, 7 ways to end, deactivation awaited", 1, 2, 2, fanIn(1, 2, all, true))
	reg("two", "two functions with 0-2 matches each, 7 ways to end each", 1, 2, 8, fanIn(2, 2, all, false))
	reg("three", "three functions with 0-1 matches each, ending well, with an error or unreachable", 0, 1, 4, fanIn(3, 1, []mmfEnd{endOK, endError, endUnreachable}, false))
	reg("same", "two functions that return equal matches twice each", 1, 2, 1, sameMatch)
	reg("slow", "a slow function and one that ends before, between or after its matches", 1, 2, 2, slow)
	reg("broken", "the connection to one of two functions breaks at any operation", 2, 3, 4, broken)
	reg("many", "three functions with up to 150 matches each over 5 tickets", 0, 0, 4, manyMatches)
	reg("pressure", "two functions with two matches each, 3 ways to end; the caller takes all, the first or the second match in up to 70 s", 0, 1, 4, pressure([]time.Duration{0, 150 * time.Millisecond, 2500 * time.Millisecond, 15 * time.Second, 70 * time.Second}, 3))
	reg("pressed", "the same, every match in 0.15 or 2.5 s", 1, 2, 4, pressure([]time.Duration{150 * time.Millisecond, 2500 * time.Millisecond}, 1))
	reg("eager", "3 ticket sizes x 1-3 pools (requests of up to 27 MB); functions that return 1-21 matches of up to 200 kB before, while or after reading it, or without", 0, 0, 8, eager)
	reg("trouble", "two functions and a storage that refuses some or all deactivations, writes each in 3 s or delivers none for 40 to 200 s", 0, 1, 2, trouble)
	reg("shared", "functions of two overlapping invocations and a later one at one address, delays of 0 to 1.5 s", 0, 1, 2, shared)
	reg("calls", "two concurrent invocations", 1, 2, 2, twoCalls)
}
