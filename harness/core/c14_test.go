package main

import (
	"fmt"
	"strings"
	"time"
	context "verif.local/vrt/vctx"

	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	pb "open-match.dev/pkg/pb/v2"
	"verif.local/vrt"
	"verif.local/vrt/vctx"
)

// C14: MMF runs outlive the caller but not the configured timeout.

const slack = 100 * time.Millisecond

// ran checks how the contexts of the functions' runs ended.
func ran(x *vrt.X, fs []*function, timeout time.Duration) {
	for i, f := range fs {
		if f.peer == nil || f.end == endREST {
			continue
		}
		if !f.began {
			x.Fail("function %d was not run", i)
		}
		if f.ctxErr == nil {
			continue
		}
		took := f.ctxAt - f.start
		if took < timeout {
			x.Fail("function %d was cancelled (%v) after %v of %v", i, f.ctxErr, took, timeout)
		}
		if took > timeout+slack {
			x.Fail("function %d was cancelled only after %v, the timeout is %v", i, took, timeout)
		}
	}
}

// gone checks that the tickets of all matches that functions sent are inactive.
func (w *world) gone(fs []*function) {
	for _, f := range fs {
		for _, m := range f.sent {
			for _, id := range ticketsOf(m) {
				if w.activeHere(id) {
					w.x.Fail("ticket %s of match %q is still active", id, m.GetId())
				}
			}
		}
	}
}

func hasPool(x *vrt.X, w *world, fs []*function) {
	got := map[string]bool{}
	for _, t := range w.pools(everyone())["all"] {
		got[t.GetId()] = true
	}
	for _, f := range fs {
		for _, m := range f.sent {
			for _, id := range ticketsOf(m) {
				if got[id] {
					x.Fail("ticket %s of match %q is in a later pool", id, m.GetId())
				}
			}
		}
	}
}

func longTTL(over map[string]any) map[string]any {
	c := map[string]any{"OM_CACHE_TICKET_TTL_SECS": 6000}
	for k, v := range over {
		c[k] = v
	}
	return c
}

// durations: a function works for less than, about or more than the timeout,
// next to one that ends at once in some way.
func durations(x *vrt.X) {
	x.Quiet(true)
	secs := []int{1, 20, 500}[x.Choose(3, "timeout")]
	T := time.Duration(secs) * time.Second
	cycle := max(200, secs*50)
	w, _, ids := prepared(x, 4, longTTL(map[string]any{"OM_MMF_TIMEOUT_SECS": secs, "OM_MATCH_TICKET_DEACTIVATION_WAIT": x.Choose(2, "wait") == 1,
		"OM_CACHE_OUT_WAIT_TIMEOUT_MS": cycle, "OM_CACHE_IN_WAIT_TIMEOUT_MS": cycle}))
	works := []time.Duration{0, T / 2, T - 10*time.Millisecond, T + 10*time.Millisecond, 3 * T}[x.Choose(5, "works")]
	sc := zzScript{}
	switch x.Choose(3, "matches") {
	case 0: // early
		sc.matches, sc.last = []*pb.Match{match("a", ids[0], ids[1])}, works
	case 1: // late
		sc.matches, sc.delay = []*pb.Match{match("a", ids[0], ids[1])}, works
	case 2: // throughout
		sc.matches, sc.delay, sc.last = []*pb.Match{match("a", ids[0]), match("b", ids[1])}, works/3, works-2*(works/3)
	}
	fs := []*function{w.function(sc)}
	switch x.Choose(4, "other") {
	case 1:
		fs = append(fs, w.function(zzScript{matches: []*pb.Match{match("o", ids[2])}, end: endError}))
	case 2:
		fs = append([]*function{w.function(zzScript{end: endUnreachable})}, fs...)
	case 3:
		fs = append(fs, w.function(zzScript{matches: []*pb.Match{match("o", ids[2])}, end: endHang}))
	}
	start := elapsed()
	x.Quiet(false)
	var s *respStream
	t := x.Go("invocation", func() { s, _ = w.invoke(bg(), request1(fs, everyone())) })
	if !x.JoinWithin(T+62*time.Second+10*time.Duration(cycle)*time.Millisecond, t) {
		x.Fail("the timeout of %v has passed, the invocation does not end", T)
	}
	x.Quiet(true)
	ran(x, fs, T)
	if works < T && (fs[0].ctxErr != nil && fs[0].end != endHang) {
		x.Fail("a function that works for %v was cancelled", works)
	}
	for _, f := range fs {
		if f.peer == nil || f.end == endHang {
			continue
		}
		if f.ctxErr == nil && len(f.sent) < len(f.matches) {
			x.Fail("function sent %d of %d matches and was not cancelled", len(f.sent), len(f.matches))
		}
	}
	w.gone(fs)
	delivered(x, fs, s.got)
	hasPool(x, w, fs)
	x.Outcome("%v %v", fs[0].ctxErr, (elapsed()-start)/T)
}

// stubborn: a function that does not care about its context does not hold up
// the invocation.
func stubborn(x *vrt.X) {
	x.Quiet(true)
	w, f, ids := prepared(x, 3, longTTL(nil))
	if x.Choose(2, "large request") == 1 {
		for i := 10; i < 13; i++ {
			f.inject(upTicket(fid(0, i), ticket(strings.Repeat("x", 3_000_000)), time.Duration(w.ttl)), upAct(fid(0, i)))
		}
		w.settle()
	}
	good := w.function(zzScript{matches: []*pb.Match{match("a", ids[0])}, last: 5 * time.Second})
	var saw error
	var sawAt time.Duration
	reads := x.Choose(2, "reads") == 1
	spec := mmf("stubborn", 1, func(s pb.MatchMakingFunctionService_RunServer) error {
		if reads {
			readAll(s)
		}
		s.Send(&pb.StreamedMmfResponse{Match: match("b", ids[1])})
		for i := 0; i < 60; i++ {
			vrt.Sleep(1e9)
			if e := vctx.RawErr(s.Context()); e != nil && saw == nil {
				saw, sawAt = e, elapsed()
			}
		}
		return s.Send(&pb.StreamedMmfResponse{Match: match("c", ids[2])})
	})
	start := elapsed()
	x.Quiet(false)
	s, _ := w.invoke(bg(), &pb.MmfRequest{Mmfs: []*pb.MatchmakingFunctionSpec{good.spec, spec}, Profile: everyone()})
	took := elapsed() - start
	if took < 20*time.Second || took > 82*time.Second {
		x.Fail("the invocation ended after %v, the timeout is 20 s", took)
	}
	x.Quiet(true)
	x.Sleep(70 * time.Second)
	if d := sawAt - start; saw == nil || d < 20*time.Second || d > 21*time.Second+slack {
		x.Fail("the function saw its context end with %v after %v", saw, d)
	}
	if len(s.got) != 2 {
		x.Fail("%d matches of the 2 sent in time", len(s.got))
	}
	x.Outcome("%v", took.Round(time.Second))
}

// callerLeaves: at a given time or in any schedule, by cancelling, by its
// deadline, or by a connection that takes no more messages.
func callerLeaves(storage string) func(x *vrt.X) {
	return func(x *vrt.X) {
		x.Quiet(true)
		w, ids := world12(x, storage, longTTL(map[string]any{"OM_CACHE_OUT_MAX_QUEUE_THRESHOLD": 2, "OM_MATCH_TICKET_DEACTIVATION_WAIT": x.Choose(2, "wait") == 1}))
		T := 20 * time.Second
		at := []time.Duration{0, 100 * time.Millisecond, 1050 * time.Millisecond, 2500 * time.Millisecond, 7 * time.Second}[x.Choose(5, "leaves after")]
		fs := []*function{
			w.function(zzScript{matches: []*pb.Match{match("a1", ids[0]), match("a2", ids[1])}, delay: time.Second, last: 3 * time.Second}),
			w.function(zzScript{matches: []*pb.Match{match("b1", ids[2], ids[3])}, delay: 6 * time.Second, end: []mmfEnd{endOK, endError, endHang}[x.Choose(3, "end")]}),
		}
		ctx, cancel := context.WithCancel(bg())
		s := &respStream{ctx: ctx}
		how := x.Choose(3, "how")
		switch how {
		case 0:
			x.Go("caller", func() { x.Sleep(at); cancel() })
		case 1:
			s.ctx, _ = context.WithTimeout(bg(), at)
		case 2:
			s.onSend = func(int) error {
				if elapsed() > at {
					return status.Error(codes.Unavailable, "transport is closing")
				}
				return nil
			}
		}
		x.Quiet(false)
		t := x.Go("invocation", func() { w.invokeOn(s, request1(fs, everyone())) })
		if !x.JoinWithin(T+62*time.Second, t) {
			x.Fail("the invocation does not end")
		}
		x.Quiet(true)
		// Should the handler return before the functions have ended, let them.
		x.Sleep(T + 62*time.Second)
		ran(x, fs, T)
		for i, f := range fs {
			if len(f.sent) < len(f.matches) {
				x.Fail("function %d could send only %d of its %d matches after the caller had left (%v)", i, len(f.sent), len(f.matches), f.ctxErr)
			}
			if !f.done {
				x.Fail("function %d still runs", i)
			}
		}
		w.gone(fs)
		hasPool(x, w, fs)
		cancel()
		x.Outcome("%d", len(s.got))
	}
}

// lateDeactivation: matches sent just before the timeout are deactivated and
// delivered although the updates are written and replicated after it.
func lateDeactivation(x *vrt.X) {
	x.Quiet(true)
	wait := x.Choose(2, "wait") == 1
	w, f, ids := prepared(x, 4, longTTL(map[string]any{"OM_MATCH_TICKET_DEACTIVATION_WAIT": wait, "OM_CACHE_OUT_MAX_QUEUE_THRESHOLD": 50}))
	T := 20 * time.Second
	before := []time.Duration{time.Millisecond, 50 * time.Millisecond, 90 * time.Millisecond, time.Second}[x.Choose(4, "before")]
	fs := []*function{w.function(zzScript{matches: []*pb.Match{match("a", ids[0], ids[1])}, delay: T - before, end: []mmfEnd{endOK, endHang, endError}[x.Choose(3, "end")]})}
	hold := x.Choose(2, "slow replication") == 1
	if hold {
		f.release(true)
		x.Go("storage", func() { x.Sleep(T + 15*time.Second); f.release(false) })
	}
	leaves := x.Choose(2, "caller leaves") == 1
	ctx, cancel := context.WithCancel(bg())
	if leaves {
		x.Go("caller", func() { x.Sleep(T - before/2); cancel() })
	}
	x.Quiet(false)
	s, _ := w.invoke(ctx, request1(fs, everyone()))
	x.Quiet(true)
	ran(x, fs, T)
	if len(fs[0].sent) != 1 {
		x.Fail("the function was cancelled %v before its timeout", before)
	}
	x.Sleep(62 * time.Second)
	w.gone(fs)
	if !leaves {
		delivered(x, fs, s.got)
		if len(s.got) != 1 {
			x.Fail("%d matches of 1", len(s.got))
		}
	}
	hasPool(x, w, fs)
	cancel()
	x.Outcome("%v %d", fs[0].ctxErr, len(s.got))
}

// slowWrites: the storage takes updates so slowly that those of a match are
// still being written when the timeout of the function has passed.
func slowWrites(x *vrt.X) {
	x.Quiet(true)
	wait := x.Choose(2, "wait") == 1
	w, f, ids := prepared(x, 8, longTTL(map[string]any{"OM_MATCH_TICKET_DEACTIVATION_WAIT": wait, "OM_CACHE_OUT_MAX_QUEUE_THRESHOLD": 1 + x.Choose(2, "batch")}))
	T := 20 * time.Second
	f.slow = []time.Duration{900 * time.Millisecond, 3 * time.Second, 6 * time.Second}[x.Choose(3, "write takes")]
	before := []time.Duration{50 * time.Millisecond, 4 * time.Second, 10 * time.Second}[x.Choose(3, "before")]
	fs := []*function{w.function(zzScript{matches: []*pb.Match{match("a", ids[:5]...), match("b", ids[5:]...)}, delay: (T - before) / 2, end: []mmfEnd{endOK, endHang, endError}[x.Choose(3, "end")]})}
	x.Quiet(false)
	s, _ := w.invoke(bg(), request1(fs, everyone()))
	x.Quiet(true)
	ran(x, fs, T)
	if len(fs[0].sent) != 2 {
		x.Fail("the function was cancelled %v before its timeout", before)
	}
	x.Sleep(100 * time.Second)
	w.gone(fs)
	delivered(x, fs, s.got)
	hasPool(x, w, fs)
	x.Outcome("%v %d", fs[0].ctxErr, len(s.got))
}

// independent: invocations do not end each other's functions.
func independent(x *vrt.X) {
	x.Quiet(true)
	w, _, ids := prepared(x, 4, longTTL(nil))
	T := 20 * time.Second
	a := []*function{w.function(zzScript{matches: []*pb.Match{match("a", ids[0])}, delay: 12 * time.Second})}
	b := []*function{w.function(zzScript{matches: []*pb.Match{match("b", ids[1])}, delay: 15 * time.Second, end: []mmfEnd{endOK, endHang}[x.Choose(2, "end")]})}
	ctx, cancel := context.WithCancel(bg())
	x.Quiet(false)
	t := x.Go("second", func() { x.Sleep(8 * time.Second); w.invoke(bg(), request1(b, everyone())) })
	u := x.Go("caller", func() { x.Sleep(10 * time.Second); cancel() })
	w.invoke(ctx, request1(a, everyone()))
	x.Join(t, u)
	ran(x, a, T)
	ran(x, b, T)
	if len(a[0].sent) != 1 || len(b[0].sent) != 1 {
		x.Fail("matches sent: %d, %d", len(a[0].sent), len(b[0].sent))
	}
	w.gone(append(a, b...))
	x.Outcome(fmt.Sprint(b[0].ctxErr))
}

func init() {
	reg := func(name, doc string, quick, thorough, shards int, body func(*vrt.X)) {
		vrt.Register(vrt.Scenario{Prop: "C14", Name: name, Doc: doc, Quick: quick, Thorough: thorough, Shards: shards, TShards: 8, Body: body})
	}
	reg("durations", "timeouts of 1, 20 and 500 s, functions that work for less, nearly as long, or longer, with another function that fails, hangs or is unreachable", 0, 1, 8, durations)
	reg("stubborn", "a function that ignores its context and its request, of up to 9 MB", 0, 1, 1, stubborn)
	reg("leaves", "the caller cancels, reaches its deadline or is disconnected at 5 times; two functions, 3 ends", 1, 2, 8, callerLeaves("fake"))
	reg("leaves.memory", "the same with memory storage", 0, 1, 2, callerLeaves("memory"))
	reg("leaves.redis", "the same with Redis", 0, 1, 2, callerLeaves("redis"))
	reg("late", "matches just before the timeout, slow replication, the caller leaving", 1, 2, 8, lateDeactivation)
	reg("slowwrites", "two matches just before the timeout, whose 8 deactivations the storage accepts in 0.9 to 6 s each", 0, 1, 4, slowWrites)
	reg("independent", "two invocations, one caller leaves", 1, 2, 2, independent)
}
