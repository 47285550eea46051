package main

import (
	stdcontext "context"
	"errors"
	"fmt"
	"sort"
	"time"
	context "verif.local/vrt/vctx"

	"go.opentelemetry.io/otel/sdk/metric/metricdata"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/stats"
	"google.golang.org/grpc/status"
	store "open-match.dev/core/internal/statestore/datatypes"
	pb "open-match.dev/pkg/pb/v2"
	"verif.local/vrt"
	"verif.local/vrt/vctx"
)

// C24: the metrics tell what happened.

// reading is a sample of all metrics.
type reading struct {
	sum   map[string]float64            // counters and gauges; sums of histograms
	count map[string]uint64             // values in histograms
	by    map[string]map[string]float64 // counters by the value of their first attribute
	byN   map[string]map[string]uint64  // histograms likewise
}

func (w *world) metrics() *reading {
	var rm metricdata.ResourceMetrics
	if err := w.meter.Collect(stdcontext.Background(), &rm); err != nil {
		w.x.Fail("the metrics cannot be read: %v", err)
	}
	r := &reading{map[string]float64{}, map[string]uint64{}, map[string]map[string]float64{}, map[string]map[string]uint64{}}
	for _, s := range rm.ScopeMetrics {
		for _, m := range s.Metrics {
			r.by[m.Name], r.byN[m.Name] = map[string]float64{}, map[string]uint64{}
			switch d := m.Data.(type) {
			case metricdata.Sum[int64]:
				for _, p := range d.DataPoints {
					r.sum[m.Name] += float64(p.Value)
					for _, a := range p.Attributes.ToSlice() {
						r.by[m.Name][string(a.Key)+"="+a.Value.AsString()] += float64(p.Value)
					}
				}
			case metricdata.Histogram[int64]:
				for _, p := range d.DataPoints {
					r.sum[m.Name] += float64(p.Sum)
					r.count[m.Name] += p.Count
				}
			case metricdata.Histogram[float64]:
				for _, p := range d.DataPoints {
					r.sum[m.Name] += p.Sum
					r.count[m.Name] += p.Count
					for _, a := range p.Attributes.ToSlice() {
						k := string(a.Key) + "=" + a.Value.AsString()
						r.by[m.Name][k] += p.Sum
						r.byN[m.Name][k] += p.Count
					}
				}
			default:
				w.x.Fail("harness: metric %s is a %T", m.Name, d)
			}
		}
	}
	return r
}

// expect compares a metric's value (and number of values, unless negative).
func (r *reading) expect(x *vrt.X, name string, sum float64, count int, when string) {
	if r.sum[name] != sum || count >= 0 && r.count[name] != uint64(count) {
		if count >= 0 {
			x.Fail("%s: %s has %d values that make %v, should be %d that make %v", when, name, r.count[name], r.sum[name], count, sum)
		}
		x.Fail("%s: %s is %v, should be %v", when, name, r.sum[name], sum)
	}
}

const (
	mActivate   = "om_core.ticket.activation.requests"
	mDeactivate = "om_core.ticket.deactivation.requests"
	mAssign     = "om_core.ticket.assignment"
	mWatch      = "om_core.ticket.assigment.watch"
	mMatches    = "om_core.match.received"
	mDuration   = "om_core.rpc.duration"
	mErrors     = "om_core.rpc.errors"
	mActive     = "om_core.cache.tickets.active"
	mInactive   = "om_core.cache.tickets.inactive"
	mAssigned   = "om_core.cache.assignments"
	mExpired    = "om_core.cache.ticket.expirations"
	mExpiredIn  = "om_core.cache.ticket.inactive.expirations"
	mExpiredAs  = "om_core.cache.assignment.expirations"
)

// meteredCalls: activations, deactivations and assignments of every mix.
func meteredCalls(n int) func(x *vrt.X) {
	return func(x *vrt.X) {
		x.Quiet(true)
		failing := x.Choose(2, "storage fails") == 1
		f := &fakeStore{}
		if failing {
			f.fail = func(u *store.StateUpdate) error {
				if u.Key == fid(0, 1) {
					return errors.New("no")
				}
				return nil
			}
		}
		w := newWorld(x, opts{storage: "fake", fake: f, cfg: fast(map[string]any{"OM_MAX_STATE_UPDATES_PER_CALL": 4}), metered: true})
		sum, count := map[string]float64{}, map[string]int{}
		for i := 0; i < n; i++ {
			kind := x.Choose(3, "call")
			valid := x.Choose(4, "well-formed ids")
			bad := x.Choose(3, "malformed ids")
			var list []string
			for j := 0; j < valid; j++ {
				list = append(list, fid(0, j))
			}
			for j := 0; j < bad; j++ {
				list = append(list, fmt.Sprintf("no id %d", j))
			}
			refused := len(list) > 4 || len(list) == 0 && kind < 2
			var err error
			name := ""
			switch kind {
			case 0:
				name, err = mActivate, w.activate(list...)
			case 1:
				name, err = mDeactivate, w.deactivate(list...)
			case 2:
				name, err = mAssign, w.assign("c", list...)
			}
			if refused && err == nil {
				x.Fail("a call with %d ids was not refused", len(list))
			}
			if !refused {
				sum[name] += float64(valid)
				count[name]++
			}
		}
		r := w.metrics()
		for _, name := range []string{mActivate, mDeactivate, mAssign} {
			r.expect(x, name, sum[name], count[name], "after the calls")
		}
		x.Outcome("%v", sum)
	}
}

// meteredMatches: functions of every kind, each match counts once under its
// function's name.
func meteredMatches(nf, maxMatches int, ends []mmfEnd, leave bool) func(x *vrt.X) {
	return func(x *vrt.X) {
		x.Quiet(true)
		f := &fakeStore{}
		w := newWorld(x, opts{storage: "fake", fake: f, metered: true, cfg: fast(map[string]any{"OM_CACHE_OUT_MAX_QUEUE_THRESHOLD": 1})})
		id := fid(0, 0)
		f.inject(upTicket(id, ticket("t"), w.ttl), upAct(id))
		w.settle()
		ctx, cancel := context.WithCancel(context.Background())
		calls := 1 + x.Choose(2, "calls")
		if leave {
			calls = 1
		}
		sharing := nf > 1 && x.Choose(2, "same name") == 1
		var fs []*function
		for i := 0; i < nf; i++ {
			sc := zzScript{end: ends[x.Choose(len(ends), "end")]}
			if leave {
				sc.delay = time.Second
			}
			if sc.end != endUnreachable && sc.end != endDialError && sc.end != endREST {
				for j := x.Choose(maxMatches+1, "matches"); j > 0; j-- {
					sc.matches = append(sc.matches, rich(fmt.Sprintf("m%d.%d", i, j), id))
				}
			}
			fn := w.function(sc)
			if sharing {
				fn.spec.Name = "shared"
			}
			fs = append(fs, fn)
		}
		x.Quiet(false)
		if leave {
			x.Go("caller leaves", func() {
				x.Sleep(time.Duration(x.Choose(4, "caller leaves")) * 700 * time.Millisecond)
				cancel()
			})
		}
		for i := 0; i < calls; i++ {
			w.invoke(ctx, request1(fs, everyone()))
		}
		x.Quiet(true)
		cancel()
		x.Sleep(time.Second)
		want := map[string]float64{}
		total := 0.
		for _, fn := range fs {
			if fn.peer != nil && fn.end != endREST {
				n := float64(min(len(fn.sent), fn.peer.Delivered))
				want["mmf.name="+fn.spec.GetName()] += n
				total += n
			}
		}
		r := w.metrics()
		r.expect(x, mMatches, total, -1, describeFns(fs))
		for k, n := range want {
			if r.by[mMatches][k] != n {
				x.Fail("%s: %s counts %v matches for %s, om-core has received %v", describeFns(fs), mMatches, r.by[mMatches][k], k, n)
			}
		}
		x.Outcome("%s %v", describeFns(fs), total)
	}
}

// meteredWatches: the gauge of awaited assignments.
func meteredWatches(x *vrt.X) {
	x.Quiet(true)
	f := &fakeStore{}
	w := newWorld(x, opts{storage: "fake", fake: f, metered: true, cfg: fast(nil)})
	n := 1 + x.Choose(3, "watches")
	type watcher struct {
		s      *respStream
		ids    []string
		cancel func()
		task   *vrt.Task
	}
	var ws []*watcher
	for i := 0; i < n; i++ {
		ctx, cancel := context.WithCancel(context.Background())
		wt := &watcher{s: &respStream{ctx: ctx}, cancel: cancel}
		for j := 0; j < 2; j++ {
			wt.ids = append(wt.ids, fid(0, 2*i+j))
		}
		ws = append(ws, wt)
	}
	failing := x.Choose(2, "sending to the first watcher fails") == 1
	if failing {
		ws[0].s.onSend = func(int) error { return status.Error(codes.Unavailable, "connection lost") }
	}
	x.Quiet(false)
	for _, wt := range ws {
		wt := wt
		wt.task = x.Go("watch", func() { w.watch(wt.s, wt.ids...) })
	}
	open := func() (k int) {
		for _, wt := range ws {
			if !wt.s.returned {
				k += len(wt.ids) - len(wt.s.watch)
			}
		}
		return
	}
	x.Sleep(5 * time.Second)
	w.metrics().expect(x, mWatch, float64(2*n), -1, fmt.Sprintf("%d watches of two tickets", n))
	for step := 0; step < 3; step++ {
		switch c := x.Choose(2*n+n+1, "next"); {
		case c < 2*n:
			if err := w.assign("c", fid(0, c)); err != nil {
				x.Fail("assignment failed: %v", err)
			}
		case c < 3*n:
			ws[c-2*n].cancel()
		}
		x.Sleep(5 * time.Second)
		if !failing {
			w.metrics().expect(x, mWatch, float64(open()), -1, fmt.Sprintf("%d assignments awaited", open()))
		}
	}
	x.Sleep(w.ttl + time.Second)
	for _, wt := range ws {
		x.JoinWithin(time.Minute, wt.task)
	}
	w.metrics().expect(x, mWatch, 0, -1, "all watches have ended")
	x.Outcome("%d", n)
}

// meteredCache: the gauges of the cache follow every history, the numbers of
// expirations are complete.
func meteredCache(storage string, depth int) func(x *vrt.X) {
	return func(x *vrt.X) {
		x.Quiet(true)
		w := newWorld(x, opts{storage: storage, metered: true, fake: &fakeStore{}, cfg: fast(map[string]any{"OM_CACHE_OUT_MAX_QUEUE_THRESHOLD": 1, "OM_CACHE_ASSIGNMENT_ADDITIONAL_TTL_SECS": 60})})
		var ids []string
		most := 0.
		add := func(life time.Duration) {
			t := ticket("t")
			if life > 0 {
				t.ExpirationTime = ts(x.Now().Add(life))
			}
			ids = append(ids, w.mustCreate(t))
			most++
		}
		add(0)
		add(40 * time.Second)
		strange := fmt.Sprintf("%d-77", x.Now().UnixMilli()) // never given out
		wasT, wasI, wasA := map[string]bool{}, map[string]bool{}, map[string]bool{}
		var goneT, goneI, goneA float64
		last := false
		check := func(when string) {
			w.settle()
			var act, inact, asg float64
			for _, id := range append([]string{strange}, ids...) {
				t, i, a := held(id)
				switch {
				case t && i:
					inact++
				case t:
					act++
				}
				if a {
					asg++
				}
				if wasT[id] && !t {
					goneT++
					if wasI[id] {
						goneI++
					}
				}
				if wasA[id] && !a {
					goneA++
				}
				wasT[id], wasI[id], wasA[id] = t, i, a
			}
			r := w.metrics()
			r.expect(x, mActive, act, -1, when)
			r.expect(x, mInactive, inact, -1, when)
			r.expect(x, mAssigned, asg, -1, when)
			r.expect(x, mExpired, goneT, -1, when)
			r.expect(x, mExpiredAs, goneA, -1, when)
			// (Ids without a ticket, and tickets that expired otherwise, may count.)
			if got := r.sum[mExpiredIn]; got > most || last && got < goneI {
				x.Fail("%s: %s is %v, should be %v", when, mExpiredIn, got, goneI)
			}
		}
		check("after two tickets were created")
		when := "two tickets"
		note := func(f string, a ...any) { when += ", " + fmt.Sprintf(f, a...) }
		for i := 0; i < depth; i++ {
			switch c := x.Choose(9, "next"); c {
			case 0, 1:
				note("activation of %d", c)
				w.activate(ids[c])
			case 2, 3:
				note("deactivation of %d", c-2)
				w.deactivate(ids[c-2])
				most++
			case 4:
				note("deactivation of an unknown ticket")
				w.deactivate(strange)
				most++
			case 5:
				note("assignment of 0")
				w.assign("c", ids[0])
			case 6:
				note("assignment of an unknown ticket")
				w.assign("c", strange)
			case 7:
				note("one more ticket")
				add(0)
			case 8:
				note("35 s pass")
				x.Sleep(35 * time.Second)
			}
			check(when)
		}
		x.Sleep(300 * time.Second)
		last = true
		check(when + ", a long time")
		x.Outcome("%v %v %v", goneT, goneI, goneA)
	}
}

// meteredSamples: samples at any moment are those of one moment.
func meteredSamples(x *vrt.X) {
	x.Quiet(true)
	f := &fakeStore{}
	w := newWorld(x, opts{storage: "fake", fake: f, metered: true, cfg: fast(map[string]any{"OM_CACHE_OUT_MAX_QUEUE_THRESHOLD": 1})})
	n := 1 + x.Choose(2, "tickets")
	active := x.Choose(2, "active") == 1
	for i := 0; i < n; i++ {
		f.inject(upTicket(fid(0, i), ticket("t"), 10*time.Second))
		if active {
			f.inject(upAct(fid(0, i)))
		}
	}
	full := fmt.Sprint(0., float64(n))
	if active {
		full = fmt.Sprint(float64(n), 0.)
	}
	x.Sleep(9800 * time.Millisecond)
	now := func() string { r := w.metrics(); return fmt.Sprint(r.sum[mActive], r.sum[mInactive]) }
	if got := now(); got != full {
		x.Fail("active and inactive tickets: %s, should be %s", got, full)
	}
	x.Quiet(false)
	for i := 0; i < 6; i++ {
		x.Sleep(100 * time.Millisecond)
		got := now()
		if got == fmt.Sprint(0., 0.) {
			full = got
		}
		if got != full {
			x.Fail("sample of active and inactive tickets: %s; should be %s", got, full)
		}
	}
	x.Outcome("%d", n)
}

// meteredRPCs: what the server's statistics handler makes of calls.
func meteredRPCs(x *vrt.X) {
	x.Quiet(true)
	w := newWorld(x, opts{storage: "fake", fake: &fakeStore{}, metered: true, noLoops: true, cfg: fast(nil)})
	h := New()
	type rpc struct {
		ctx   context.Context
		name  string
		begin time.Time
		end   time.Time
		err   error
	}
	names := []string{"/open_match.OpenMatchService/CreateTicket", "/open_match.OpenMatchService/WatchAssignments", "/other.Service/Method"}
	base := map[string]string{names[0]: "CreateTicket", names[1]: "WatchAssignments", names[2]: "Method"}
	errs := []error{nil, status.Error(codes.Internal, "a"), status.Error(codes.InvalidArgument, "b"), status.Error(codes.Canceled, "gone")}
	durs := []time.Duration{0, 1500 * time.Microsecond, 3 * time.Second}
	// Up to three calls, begun and ended in every order.
	var open []*rpc
	count, sum, bad := map[string]uint64{}, map[string]float64{}, map[string]float64{}
	begun := 0
	for begun < 2 || len(open) > 0 {
		c := x.Choose(2, "next")
		if c == 0 && begun == 2 || len(open) == 0 {
			c = 1 - c
		}
		if (c == 0 || len(open) == 0) && begun < 2 {
			begun++
			ctx, cancel := context.WithCancel(context.Background())
			p := &rpc{name: names[x.Choose(len(names), "method")], begin: x.Now()}
			var sctx stdcontext.Context = h.TagConn(ctx, &stats.ConnTagInfo{})
			h.HandleConn(sctx, &stats.ConnBegin{})
			p.ctx = h.TagRPC(sctx, &stats.RPCTagInfo{FullMethodName: p.name})
			h.HandleRPC(p.ctx, &stats.Begin{BeginTime: p.begin})
			h.HandleRPC(p.ctx, &stats.InHeader{FullMethod: p.name})
			h.HandleRPC(p.ctx, &stats.InPayload{})
			_ = cancel
			open = append(open, p)
			continue
		}
		i := x.Choose(len(open), "ends")
		p := open[i]
		open = append(open[:i:i], open[i+1:]...)
		p.err = errs[x.Choose(len(errs), "error")]
		d := durs[x.Choose(len(durs), "duration")]
		h.HandleRPC(p.ctx, &stats.OutHeader{})
		h.HandleRPC(p.ctx, &stats.OutPayload{})
		h.HandleRPC(p.ctx, &stats.OutTrailer{})
		h.HandleRPC(p.ctx, &stats.End{BeginTime: p.begin, EndTime: p.begin.Add(d), Error: p.err})
		k := "rpc=" + base[p.name]
		count[k]++
		sum[k] += float64(d.Microseconds()) / 1000
		if p.err != nil {
			bad[k]++
		}
		r := w.metrics()
		var ks []string
		for k := range base {
			ks = append(ks, "rpc="+base[k])
		}
		sort.Strings(ks)
		for _, k := range ks {
			if r.byN[mDuration][k] != count[k] || r.by[mDuration][k] != sum[k] {
				x.Fail("%s, %s: %d calls in %v ms, should be %d in %v ms", mDuration, k, r.byN[mDuration][k], r.by[mDuration][k], count[k], sum[k])
			}
			if r.by[mErrors][k] != bad[k] {
				x.Fail("%s, %s: %v, should be %v", mErrors, k, r.by[mErrors][k], bad[k])
			}
		}
	}
	x.Outcome("%v %v", count, bad)
}

var _ pb.Ticket
var _ vctx.Context

func init() {
	reg := func(name, doc string, quick, thorough, shards int, body func(*vrt.X)) {
		vrt.Register(vrt.Scenario{Prop: "C24", Name: name, Doc: doc, Quick: quick, Thorough: thorough, Shards: shards, TShards: 8, Body: body})
	}
	reg("calls", "two activations, deactivations and assignments with 0-3 well-formed and 0-2 malformed ids, storage well or failing for one id", 0, 0, 4, meteredCalls(2))
	all := []mmfEnd{endOK, endError, endUnreachable, endDialError, endREST, endEarly, endCancelled}
	reg("matches.one", "a function with 0-3 matches and 7 ends, called once or twice", 1, 2, 2, meteredMatches(1, 3, all, false))
	reg("matches.two", "two functions of one or two names with 0-2 matches and 3 ends, called once or twice", 0, 1, 4, meteredMatches(2, 2, []mmfEnd{endOK, endError, endUnreachable}, false))
	reg("matches.leave", "a caller leaves while two functions return matches", 1, 2, 4, meteredMatches(2, 2, []mmfEnd{endOK, endError}, true))
	reg("watches", "1-3 watches of two tickets, three assignments or departures", 0, 1, 4, meteredWatches)
	reg("cache", "histories of 3 operations on the cache", 0, 0, 4, meteredCache("fake", 3))
	vrt.Register(vrt.Scenario{Prop: "C24", Name: "cache.deep", Doc: "histories of 4 operations on the cache", OnlyThorough: true, TShards: 8, Body: meteredCache("fake", 4)})
	for _, s := range []string{"memory", "redis"} {
		reg("cache."+s, "histories of 2 operations on the cache, "+s+" storage", 0, 0, 2, meteredCache(s, 2))
	}
	reg("samples", "tickets expire while the metrics are sampled", 2, 3, 4, meteredSamples)
	reg("rpcs", "two calls, begun and ended in every order, of 3 methods with 4 results and 3 durations", 0, 0, 8, meteredRPCs)
}
