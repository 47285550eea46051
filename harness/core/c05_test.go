package main

import (
	"fmt"
	"sync"
	"time"

	"google.golang.org/protobuf/proto"
	"open-match.dev/core/internal/statestore/cache"
	store "open-match.dev/core/internal/statestore/datatypes"
	pb "open-match.dev/pkg/pb/v2"
	"verif.local/vdep/vredis"
	"verif.local/vrt"
)

// recorder notes what an instance reads from its storage.
type recorder struct {
	store.StateReplicator
	got   []store.StateUpdate
	polls []int
}

func (r *recorder) GetUpdates() []*store.StateUpdate {
	us := r.StateReplicator.GetUpdates()
	if vrt.Exiting() {
		vrt.Bail()
	}
	for _, u := range us {
		if u == nil {
			vrt.Violation("GetUpdates returned a nil update")
		}
		r.got = append(r.got, *u)
	}
	if len(us) > 0 {
		r.polls = append(r.polls, len(us))
	}
	return us
}

func (r *recorder) wrap(s store.StateReplicator) store.StateReplicator {
	r.StateReplicator = s
	return r
}

// fromEntry is the update a stream entry stands for.
func fromEntry(e vredis.Entry) store.StateUpdate {
	f := e.Fields
	switch f[0] {
	case "ticket":
		return store.StateUpdate{Cmd: store.Ticket, Key: e.ID.String(), Value: f[1]}
	case "activate":
		return store.StateUpdate{Cmd: store.Activate, Key: f[1]}
	case "deactivate":
		return store.StateUpdate{Cmd: store.Deactivate, Key: f[1]}
	case "assign":
		return store.StateUpdate{Cmd: store.Assign, Key: f[1], Value: f[3]}
	}
	vrt.Violation("unknown entry in the replication stream: %q", f)
	return store.StateUpdate{}
}

// localState is what an instance holds.
type localState struct {
	tickets  map[string]string
	inactive map[string]bool
	assigned map[string]string
}

func (a *localState) equal(b *localState) bool {
	return fmt.Sprint(a.tickets) == fmt.Sprint(b.tickets) && fmt.Sprint(a.inactive) == fmt.Sprint(b.inactive) && fmt.Sprint(a.assigned) == fmt.Sprint(b.assigned)
}

func (a *localState) String() string {
	return fmt.Sprintf("tickets %v inactive %v assignments %v", keys(a.tickets), keys(a.inactive), a.assigned)
}

func keys[V any](m map[string]V) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	return sorted(l...)
}

func newState() *localState {
	return &localState{map[string]string{}, map[string]bool{}, map[string]string{}}
}

func (l *localState) apply(u store.StateUpdate) {
	switch u.Cmd {
	case store.Ticket:
		t := &pb.Ticket{}
		if err := proto.Unmarshal([]byte(u.Value), t); err != nil {
			vrt.Violation("stored ticket cannot be read: %v", err)
		}
		t.Id = u.Key
		l.tickets[u.Key] = canon(t)
		l.inactive[u.Key] = true
	case store.Activate:
		delete(l.inactive, u.Key)
	case store.Deactivate:
		l.inactive[u.Key] = true
	case store.Assign:
		a := &pb.Assignment{}
		if err := proto.Unmarshal([]byte(u.Value), a); err != nil {
			vrt.Violation("stored assignment cannot be read: %v", err)
		}
		l.assigned[u.Key] = canon(a)
	}
}

func canon(m proto.Message) string {
	b, err := proto.MarshalOptions{Deterministic: true}.Marshal(m)
	if err != nil {
		vrt.Violation("marshal: %v", err)
	}
	return string(b)
}

// dump reads the local state of an instance.
func dump(c *cache.ReplicatedTicketCache) *localState {
	l := newState()
	c.Tickets.Range(func(k, v any) bool { l.tickets[k.(string)] = canon(v.(*pb.Ticket)); return true })
	c.InactiveSet.Range(func(k, v any) bool { l.inactive[k.(string)] = true; return true })
	c.Assignments.Range(func(k, v any) bool { l.assigned[k.(string)] = canon(v.(*pb.Assignment)); return true })
	return l
}

var _ sync.Locker

// checkReplica compares what an instance read and holds with the stream.
func checkReplica(x *vrt.X, who string, want []store.StateUpdate, r *recorder, c *cache.ReplicatedTicketCache) {
	for i := range want {
		if i >= len(r.got) {
			x.Fail("%s has read %d of %d updates", who, len(r.got), len(want))
		}
		if r.got[i] != want[i] {
			x.Fail("%s: update %d read is %v, the storage holds %v", who, i, show(r.got[i]), show(want[i]))
		}
	}
	if len(r.got) > len(want) {
		x.Fail("%s has read %d updates, the storage only accepted %d: extra %v", who, len(r.got), len(want), show(r.got[len(want)]))
	}
	m := newState()
	for _, u := range want {
		m.apply(u)
	}
	if got := dump(c); !got.equal(m) {
		x.Fail("%s holds\n %v\nbut the updates amount to\n %v", who, got, m)
	}
}

func show(u store.StateUpdate) string {
	return fmt.Sprintf("%s %s", []string{store.Ticket: "ticket", store.Activate: "activate", store.Deactivate: "deactivate", store.Assign: "assign"}[u.Cmd], u.Key)
}

func entries(s *vredis.Server) (out []store.StateUpdate) {
	for _, e := range s.Added {
		out = append(out, fromEntry(e))
	}
	return
}

// writer issues one operation of a history.
type writer struct {
	w   *world
	ids []string
	n   int
}

const writerOps = 6

func (h *writer) op(k int) string {
	h.n++
	pick := func(i int) string {
		if len(h.ids) == 0 {
			return fid(0, 77)
		}
		return h.ids[i%len(h.ids)]
	}
	switch k {
	case 0:
		h.ids = append(h.ids, h.w.mustCreate(ticket("t"+itoa(h.n))))
		return "create"
	case 1:
		h.w.activate(pick(0))
		return "activate first"
	case 2:
		h.w.activate(append([]string{}, pick(len(h.ids)+1), pick(0))...)
		return "activate two"
	case 3:
		h.w.deactivate(pick(0))
		return "deactivate first"
	case 4:
		h.w.assign("conn"+itoa(h.n), pick(0))
		return "assign"
	default:
		h.w.x.Sleep(time.Second)
		return "wait"
	}
}

// replicas runs a history of writes with two instances reading.
func replicas(depth int, fixed []int, faults bool) func(x *vrt.X) {
	return func(x *vrt.X) {
		x.Quiet(true)
		var r1, r2 recorder
		polls := []int{1, 2, 50}[x.Choose(3, "updates per poll")]
		start := x.Choose(3, "second instance starts")
		c := fast(map[string]any{"OM_CACHE_OUT_MAX_QUEUE_THRESHOLD": 2, "OM_CACHE_IN_MAX_UPDATES_PER_POLL": polls})
		w := newWorld(x, opts{storage: "redis", cfg: c, wrap: r1.wrap})
		var second *instance
		launch := func() {
			second = w.secondInstance(c, r2.wrap)
		}
		if start == 0 {
			launch()
		}
		h := &writer{w: w}
		if faults {
			w.redis.Faults.Read = true
			x.FaultsOnly(true)
			x.Quiet(false)
		}
		for i := 0; i < depth; i++ {
			if start == 1 && i == depth/2 {
				launch()
			}
			if fixed != nil {
				h.op(fixed[i])
			} else {
				h.op(x.Choose(writerOps, "operation"))
			}
		}
		if start == 2 {
			launch()
		}
		x.Sleep(time.Second)
		x.Quiet(true)
		w.redis.Faults = vredis.Faults{}
		x.Sleep(2 * time.Second)
		want := entries(w.redis)
		checkReplica(x, "the first instance", want, &r1, &tc)
		checkReplica(x, "the second instance", want, &r2, second.tc)
		x.Outcome("%d %v %v", len(want), r1.polls, r2.polls)
	}
}

// racing: the second instance starts and both read while updates are written.
func racing(polls, batch int) func(x *vrt.X) {
	return func(x *vrt.X) {
		x.Quiet(true)
		var r1, r2 recorder
		c := fast(map[string]any{"OM_CACHE_OUT_MAX_QUEUE_THRESHOLD": batch, "OM_CACHE_IN_MAX_UPDATES_PER_POLL": polls})
		w := newWorld(x, opts{storage: "redis", cfg: c, wrap: r1.wrap})
		a, b := w.mustCreate(ticket("a")), w.mustCreate(ticket("b"))
		x.Sleep(200*time.Millisecond - time.Duration(vrt.RawNow()%200e6))
		x.Quiet(false)
		second := w.secondInstance(c, r2.wrap)
		t1 := x.Go("activate", func() { w.activate(a, b) })
		t2 := x.Go("deactivate", func() { w.deactivate(b, a) })
		x.Join(t1, t2)
		x.Sleep(200 * time.Millisecond)
		x.Quiet(true)
		x.Sleep(2 * time.Second)
		want := entries(w.redis)
		checkReplica(x, "the first instance", want, &r1, &tc)
		checkReplica(x, "the second instance", want, &r2, second.tc)
		x.Outcome("%v %v", keys(dump(&tc).inactive), r1.polls)
	}
}

// burst: many updates in few instants, more than fit one poll or the buffer.
func burst(x *vrt.X) {
	x.Quiet(true)
	var r1, r2 recorder
	polls := []int{1, 3, 7, 10, 11, 40}[x.Choose(6, "updates per poll")]
	n := []int{9, 10, 11, 12, 25}[x.Choose(5, "updates")]
	late := x.Choose(2, "second instance late") == 1
	c := fast(map[string]any{"OM_CACHE_OUT_MAX_QUEUE_THRESHOLD": n, "OM_CACHE_IN_MAX_UPDATES_PER_POLL": polls})
	w := newWorld(x, opts{storage: "redis", cfg: c, wrap: r1.wrap})
	var second *instance
	if !late {
		second = w.secondInstance(c, r2.wrap)
	}
	var l []string
	for i := 0; i < n; i++ {
		l = append(l, fid(0, i))
	}
	w.deactivate(l...)
	for i, id := range l {
		if i%2 == 0 {
			l[i/2] = id
		}
	}
	w.activate(l[:(n+1)/2]...)
	if late {
		second = w.secondInstance(c, r2.wrap)
	}
	x.Sleep(time.Duration(2*n/polls+5) * 300 * time.Millisecond)
	want := entries(w.redis)
	checkReplica(x, "the first instance", want, &r1, &tc)
	checkReplica(x, "the second instance", want, &r2, second.tc)
	x.Outcome("%d %d", polls, len(want))
}

// idle: nothing happens for long, entries are trimmed away, then updates come.
func idle(x *vrt.X) {
	x.Quiet(true)
	var r1 recorder
	gap := []time.Duration{0, time.Second, 20 * time.Second, 59 * time.Second, 5 * time.Minute}[x.Choose(5, "gap")]
	w := newWorld(x, opts{storage: "redis", cfg: fast(nil), wrap: r1.wrap})
	x.Sleep(gap)
	h := &writer{w: w}
	h.op(0)
	x.Sleep(gap)
	h.op(1)
	x.Sleep(gap)
	h.op(0)
	x.Sleep(gap)
	h.op(4)
	x.Sleep(time.Second)
	want := entries(w.redis)
	if len(r1.got) != len(want) {
		x.Fail("%d updates read, %d written", len(r1.got), len(want))
	}
	for i := range want {
		if want[i] != r1.got[i] {
			x.Fail("update %d read is %v, written %v", i, show(r1.got[i]), show(want[i]))
		}
	}
	x.Outcome("%v", gap)
}

// island: memory storage delivers everything once, in order.
func island(x *vrt.X) {
	var r recorder
	polls := []int{1, 2, 50}[x.Choose(3, "updates per poll")]
	w := newWorld(x, opts{storage: "memory", wrap: r.wrap, cfg: fast(map[string]any{"OM_CACHE_OUT_MAX_QUEUE_THRESHOLD": 2, "OM_CACHE_IN_MAX_UPDATES_PER_POLL": polls})})
	x.Quiet(true)
	a, b := w.mustCreate(ticket("a")), w.mustCreate(ticket("b"))
	x.Sleep(400*time.Millisecond - time.Duration(vrt.RawNow()%200e6))
	x.Quiet(false)
	t := x.Go("assign", func() { w.assign("c", a, b) })
	if err := w.activate(a, b, a); err != nil {
		x.Fail("%v", err)
	}
	w.deactivate(b)
	x.Join(t)
	x.Quiet(true)
	x.Sleep(2 * time.Second)
	if len(r.got) != 8 {
		x.Fail("%d updates read, 8 written", len(r.got))
	}
	m := newState()
	for _, u := range r.got {
		m.apply(u)
	}
	if got := dump(&tc); !got.equal(m) {
		x.Fail("the instance holds\n %v\nbut the updates amount to\n %v", got, m)
	}
	if l := keys(m.inactive); !same(l, []string{b}) {
		x.Fail("inactive tickets are %v, want %v", l, b)
	}
	if l := keys(m.assigned); !same(l, sorted(a, b)) {
		x.Fail("assigned tickets are %v", l)
	}
	x.Outcome("%v", r.polls)
}

func init() {
	reg := func(sc vrt.Scenario) { sc.Prop = "C05"; vrt.Register(sc) }
	reg(vrt.Scenario{Name: "histories", Doc: "all histories of 4 writes x poll size 1, 2, 50 x start of the second instance", Quick: 0, OnlyQuick: true, Shards: 4, Body: replicas(4, nil, false)})
	reg(vrt.Scenario{Name: "histories-deep", Doc: "all histories of 6 writes x poll size 1, 2, 50 x start of the second instance", OnlyThorough: true, TShards: 8, Body: replicas(6, nil, false)})
	reg(vrt.Scenario{Name: "read-faults", Doc: "a history of 5 writes; reads are refused or broken at every point", Quick: 2, Thorough: 3, Shards: 4, TShards: 8, Body: replicas(5, []int{0, 2, 4, 3, 1}, true)})
	for _, p := range []int{1, 2, 50} {
		reg(vrt.Scenario{Name: fmt.Sprintf("racing-poll%d", p), Doc: "an instance starts while another writes and reads", Quick: 2, Thorough: 3, Shards: 2, TShards: 4, Body: racing(p, 2)})
	}
	reg(vrt.Scenario{Name: "burst", Doc: "up to 38 updates within few milliseconds x poll size 1-40", Quick: 0, Body: burst})
	reg(vrt.Scenario{Name: "idle", Doc: "updates after idle periods up to several lifetimes", Quick: 0, Body: idle})
	reg(vrt.Scenario{Name: "memory", Doc: "concurrent writes on memory storage x poll size", Quick: 2, Thorough: 4, Shards: 2, Body: island})
}
