package main

import (
	"errors"
	"fmt"
	"strings"
	"time"

	"google.golang.org/protobuf/proto"
	store "open-match.dev/core/internal/statestore/datatypes"
	pb "open-match.dev/pkg/pb/v2"
	"verif.local/vdep/vredis"
	"verif.local/vrt"
)

// fate tells what became of an update on the storage side.
type fate struct {
	seen, accepted, broke bool
	id                    string
	n                     int
}

// fates looks an update up among the pipelines from index from on.
func fates(s *vredis.Server, from int, is func(fields []string) bool) (f fate) {
	for _, p := range s.Pipelines[from:] {
		for _, a := range p.XAdds {
			if is(a.Fields) {
				f.seen = true
				f.broke = f.broke || p.Broke
				if a.Accepted {
					f.n++
					f.accepted = true
					f.id = a.ID.String()
				}
			}
		}
	}
	return f
}

func isState(cmd, id string) func([]string) bool {
	return func(f []string) bool { return len(f) >= 2 && f[0] == cmd && f[1] == id }
}

func isTicket(tag string) func([]string) bool {
	return func(f []string) bool {
		if len(f) < 2 || f[0] != "ticket" {
			return false
		}
		t := &pb.Ticket{}
		return proto.Unmarshal([]byte(f[1]), t) == nil && len(t.GetAttributes().GetTags()) == 1 && t.Attributes.Tags[0] == tag
	}
}

func isAssign(id, conn string) func([]string) bool {
	return func(f []string) bool {
		if len(f) < 2 || f[0] != "assign" || f[1] != id {
			return false
		}
		for _, v := range f[2:] {
			a := &pb.Assignment{}
			if proto.Unmarshal([]byte(v), a) == nil && a.GetConnection() == conn {
				return true
			}
		}
		return false
	}
}

// checkCreate judges one CreateTicket call.
func checkCreate(x *vrt.X, s *vredis.Server, from int, tag, id string, err error) {
	f := fates(s, from, isTicket(tag))
	if err == nil {
		if !f.accepted {
			x.Fail("CreateTicket %q returned success (id %q) but the storage did not accept the ticket", tag, id)
		}
		if f.n == 1 && id != f.id || id == "" {
			x.Fail("CreateTicket %q returned id %q, but the ticket is stored as %q", tag, id, f.id)
		}
	} else if f.seen && f.accepted && !f.broke {
		x.Fail("CreateTicket %q failed with %q although the storage accepted and acknowledged the ticket", tag, err)
	}
}

// checkState judges one ActivateTickets or DeactivateTickets call.
func checkState(x *vrt.X, s *vredis.Server, from int, cmd string, ids []string, err error) {
	var lost, okay []string
	broke := false
	for _, id := range ids {
		f := fates(s, from, isState(cmd, id))
		broke = broke || f.broke
		if !f.accepted {
			lost = append(lost, id)
		} else {
			okay = append(okay, id)
		}
	}
	lost = sorted(lost...)
	if err == nil {
		if len(lost) > 0 {
			x.Fail("%s of %v returned success but the storage did not accept it for %v", cmd, ids, lost)
		}
		return
	}
	named := namedIDs(err)
	if !broke && !same(named, lost) {
		x.Fail("%s of %v: the error names %v, but the updates not accepted are those of %v (%v)", cmd, ids, named, lost, err)
	}
	if broke {
		m := map[string]bool{}
		for _, n := range named {
			m[n] = true
		}
		for _, l := range lost {
			if !m[l] {
				x.Fail("%s of %v: the error names %v but not %s, which the storage did not accept", cmd, ids, named, l)
			}
		}
		for n := range m {
			if !strings.Contains(strings.Join(ids, " "), n) {
				x.Fail("%s of %v: the error names %q, which is not a ticket of the request", cmd, ids, n)
			}
		}
	}
}

func checkAssign(x *vrt.X, s *vredis.Server, from int, conn string, ids []string, err error) {
	all, broke := true, false
	for _, id := range ids {
		f := fates(s, from, isAssign(id, conn))
		all = all && f.accepted
		broke = broke || f.broke
	}
	if err == nil && !all {
		x.Fail("CreateAssignments of %v returned success but the storage did not accept every assignment", ids)
	}
	if err != nil && all && !broke {
		x.Fail("CreateAssignments of %v failed with %q although the storage accepted every assignment", ids, err)
	}
}

// faulty runs one request of each kind at once against Redis with faults.
func faulty(kinds string, batch int, faults vredis.Faults, again bool) func(x *vrt.X) {
	return func(x *vrt.X) {
		x.Quiet(true)
		w := newWorld(x, opts{storage: "redis", noIn: true, cfg: fast(map[string]any{"OM_CACHE_OUT_MAX_QUEUE_THRESHOLD": batch})})
		id := func(n int) string { return fid(0, n) }
		// warm up the connection, so that faults hit the batch itself
		if !faults.Dial {
			w.mustCreate(ticket("warm"))
		}
		x.Sleep(200*time.Millisecond - time.Duration(vrt.RawNow()%100e6))
		from := len(w.redis.Pipelines)
		w.redis.Faults = faults
		x.Quiet(false)
		var tasks []*vrt.Task
		var checks []func()
		run := func(name string, f func() func()) {
			tasks = append(tasks, x.Go(name, func() {
				c := f()
				vrt.Record(name)
				checks = append(checks, c)
			}))
		}
		for _, k := range kinds {
			switch k {
			case 'c', 'C':
				tag := "new" + string(k)
				run("create", func() func() {
					got, err := w.create(bg(), ticket(tag))
					return func() { checkCreate(x, w.redis, from, tag, got, err); x.Outcome("c%v", err == nil) }
				})
			case 'a':
				run("activate", func() func() {
					l := []string{id(1), id(2)}
					err := w.activate(l...)
					return func() { checkState(x, w.redis, from, "activate", l, err); x.Outcome("a%v", namedIDs(err)) }
				})
			case 'd':
				run("deactivate", func() func() {
					l := []string{id(3), id(4)}
					err := w.deactivate(l...)
					return func() { checkState(x, w.redis, from, "deactivate", l, err); x.Outcome("d%v", namedIDs(err)) }
				})
			case 's':
				run("assign", func() func() {
					l := []string{id(5), id(6)}
					err := w.assign("host:1", l...)
					return func() { checkAssign(x, w.redis, from, "host:1", l, err); x.Outcome("s%v", err == nil) }
				})
			}
		}
		if !x.JoinWithin(10*time.Minute, tasks...) {
			x.Fail("a request did not complete within 10 minutes although the storage answers")
		}
		x.Quiet(true)
		for _, c := range checks {
			c()
		}
		if again {
			// once the storage is healthy, requests succeed again
			w.redis.Faults = vredis.Faults{}
			from = len(w.redis.Pipelines)
			t := x.Go("again", func() {
				got, err := w.create(bg(), ticket("later"))
				if err != nil {
					// one stale connection may have to be noticed first
					got, err = w.create(bg(), ticket("later2"))
					if err != nil {
						x.Fail("requests keep failing after the storage recovered: %v", err)
					}
					checkCreate(x, w.redis, from, "later2", got, err)
					return
				}
				checkCreate(x, w.redis, from, "later", got, err)
			})
			if !x.JoinWithin(time.Minute, t) {
				x.Fail("a request hangs after the storage recovered")
			}
		}
	}
}

// down: the storage is unreachable for a while.
func downStorage(x *vrt.X) {
	x.Quiet(true)
	w := newWorld(x, opts{storage: "redis", noIn: true, cfg: fast(map[string]any{"OM_CACHE_OUT_MAX_QUEUE_THRESHOLD": 2})})
	connected := x.Choose(2, "connected before") == 1
	if connected {
		w.mustCreate(ticket("warm"))
	}
	mode := x.Choose(3, "storage down, replica, wrong password")
	switch mode {
	case 0:
		w.redis.SetDown(true)
	case 1:
		w.redis.ReadOnly = true
	case 2:
		if connected {
			return
		}
		w.redis.Password = "other"
	}
	from := len(w.redis.Pipelines)
	n := 0
	t := x.Go("requests", func() {
		id, err := w.create(bg(), ticket("x"))
		if err == nil {
			x.Fail("CreateTicket returned success (id %q) although the storage accepts nothing", id)
		}
		n++
		l := []string{fid(0, 1), fid(0, 2), fid(0, 3)}
		err = w.activate(l...)
		if err == nil || !same(namedIDs(err), l) {
			x.Fail("ActivateTickets must fail for %v as the storage accepts nothing, but returned %v naming %v", l, err, namedIDs(err))
		}
		n++
		err = w.deactivate(l...)
		if err == nil || !same(namedIDs(err), l) {
			x.Fail("DeactivateTickets must fail for %v as the storage accepts nothing, but returned %v naming %v", l, err, namedIDs(err))
		}
		n++
		if w.assign("h:1", l...) == nil {
			x.Fail("CreateAssignments returned success although the storage accepts nothing")
		}
		n++
	})
	if !x.JoinWithin(10*time.Minute, t) {
		x.Fail("request %d did not complete although the storage refuses at once", n+1)
	}
	_ = from
	w.redis.SetDown(false)
	w.redis.ReadOnly = false
	w.redis.Password = "om-redis"
	ok := false
	for i := 0; i < 3 && !ok; i++ {
		_, err := w.create(bg(), ticket("y"))
		ok = err == nil
	}
	if !ok {
		x.Fail("requests keep failing after the storage recovered")
	}
	x.Outcome("%d %v", mode, connected)
}

// subsets: the storage rejects each subset of the updates of one call.
func subsets(x *vrt.X) {
	x.Quiet(true)
	kind := x.Choose(4, "call")
	n := 1 + x.Choose(4, "updates")
	if kind == 0 && n > 1 {
		return
	}
	mask := x.Choose(1<<n, "rejected")
	batch := 1 + x.Choose(3, "batch size")
	var idl []string
	for i := 0; i < n; i++ {
		idl = append(idl, fid(0, i))
	}
	bad := map[string]bool{}
	for i, id := range idl {
		if mask>>i&1 == 1 {
			bad[id] = true
		}
	}
	f := &fakeStore{}
	f.fail = func(u *store.StateUpdate) error {
		if u.Cmd == store.Ticket && mask != 0 || u.Cmd != store.Ticket && bad[u.Key] {
			return errors.New("storage rejects the update")
		}
		return nil
	}
	w := newWorld(x, opts{storage: "fake", fake: f, cfg: fast(map[string]any{"OM_CACHE_OUT_MAX_QUEUE_THRESHOLD": batch})})
	var want []string
	for id := range bad {
		want = append(want, id)
	}
	want = sorted(want...)
	switch kind {
	case 0:
		id, err := w.create(bg(), ticket("a"))
		if (err != nil) != (mask != 0) {
			x.Fail("CreateTicket returned %v, storage rejected: %v", err, mask != 0)
		}
		if err == nil && (id == "" || id != f.ids[0]) {
			x.Fail("CreateTicket returned id %q, stored as %q", id, f.ids[0])
		}
	case 1, 2:
		var err error
		name := "ActivateTickets"
		if kind == 1 {
			err = w.activate(idl...)
		} else {
			name = "DeactivateTickets"
			err = w.deactivate(idl...)
		}
		if (err != nil) != (mask != 0) || !same(namedIDs(err), want) {
			x.Fail("%s(%v) returned %v naming %v, but the storage rejected %v", name, idl, err, namedIDs(err), want)
		}
	case 3:
		err := w.assign("h:1", idl...)
		if (err != nil) != (mask != 0) {
			x.Fail("CreateAssignments(%v) returned %v, but the storage rejected %v", idl, err, want)
		}
	}
	// accepted ones are stored exactly once
	if got := len(f.log); got != n-len(want) && kind != 0 {
		x.Fail("%d updates stored of %d with %d rejected", got, n, len(want))
	}
	x.Outcome("%d %d %d %d", kind, n, mask, batch)
}

// manySubsets: as subsets, with as many updates as fit into several batches.
func manySubsets(x *vrt.X) {
	x.Quiet(true)
	n := []int{17, 120, 500}[x.Choose(3, "updates")]
	which := x.Choose(5, "rejected") // all, none, every other one, the second half, all but one
	method := methods[x.Choose(3, "call")]
	var idl, want []string
	bad := map[string]bool{}
	for i := 0; i < n; i++ {
		id := fid(0, i)
		idl = append(idl, id)
		if [](bool){true, false, i%2 == 1, i >= n/2, i != n/3}[which] {
			bad[id] = true
			want = append(want, id)
		}
	}
	f := &fakeStore{}
	f.fail = func(u *store.StateUpdate) error {
		if bad[u.Key] {
			return errors.New("storage rejects the update")
		}
		return nil
	}
	w := newWorld(x, opts{storage: "fake", fake: f, cfg: fast(map[string]any{"OM_CACHE_OUT_MAX_QUEUE_THRESHOLD": []int{10, 50}[x.Choose(2, "batch size")]})})
	err := w.update(method, idl...)
	if (err != nil) != (len(want) > 0) {
		x.Fail("%s of %d tickets returned %v, but the storage rejected %d", method, n, err, len(want))
	}
	if method != "assign" && !same(namedIDs(err), sorted(want...)) {
		x.Fail("%s of %d tickets names %d in its error, but the storage rejected %d", method, n, len(namedIDs(err)), len(want))
	}
	if got := len(f.log); got != n-len(want) {
		x.Fail("%d updates stored of %d with %d rejected", got, n, len(want))
	}
	x.Outcome("%d %d %s", n, which, method)
}

func init() {
	reg := func(sc vrt.Scenario) { sc.Prop = "C03"; vrt.Register(sc) }
	w := vredis.Faults{Write: true}
	r := vredis.Faults{Reject: true}
	all := vredis.Faults{Dial: true, Write: true, Reject: true}
	for _, b := range []int{1, 3, 50} {
		reg(vrt.Scenario{Name: fmt.Sprintf("lost-connection-batch%d", b), Doc: "a creation, activation, deactivation and assignment at once; the Redis connection is lost at every point of every pipeline", Quick: 1, Thorough: 2, Body: faulty("cads", b, w, true)})
		reg(vrt.Scenario{Name: fmt.Sprintf("rejects-batch%d", b), Doc: "the same; Redis rejects single XADDs", Quick: 2, Thorough: 3, Body: faulty("cads", b, r, true)})
	}
	reg(vrt.Scenario{Name: "all-faults", Doc: "a creation and an activation at once with refused connections, lost connections and rejects combined", Quick: 2, Thorough: 3, Shards: 2, Body: faulty("ca", 3, all, true)})
	reg(vrt.Scenario{Name: "down", Doc: "Redis down, read-only or refusing the password, with and without an established connection; then healthy again", Quick: 0, Body: downStorage})
	reg(vrt.Scenario{Name: "subsets", Doc: "a storage that rejects every subset of the updates of each call (up to 4), batch sizes 1-3", Quick: 0, Body: subsets})
	reg(vrt.Scenario{Name: "many", Doc: "a storage that rejects 5 subsets of 17, 120 or 500 updates of a call", Quick: 0, Body: manySubsets})
}
