package main

import (
	"fmt"
	"time"

	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/proto"
	pb "open-match.dev/pkg/pb/v2"
	"verif.local/vdep/vredis"
	"verif.local/vrt"
)

// together runs several requests at once on storage; every one must get the
// outcome of its own updates, whatever shares its batch.
//
// kinds: c create, a activate two ids, A activate one id twice, d deactivate,
// s assign two ids, e assign an empty assignment (an update Redis refuses),
// m a malformed id (refused or reported, never disturbing the others),
// x create whose caller has gone away.
func together(storage, kinds string, batch int, rejects bool) func(x *vrt.X) {
	return func(x *vrt.X) {
		x.Quiet(true)
		f := &fakeStore{}
		w := newWorld(x, opts{storage: storage, fake: f, noIn: storage != "memory",
			cfg: fast(map[string]any{"OM_CACHE_OUT_MAX_QUEUE_THRESHOLD": batch, "OM_CACHE_IN_WAIT_TIMEOUT_MS": 50})})
		if storage == "redis" {
			w.mustCreate(ticket("warm"))
		}
		x.Sleep(200*time.Millisecond - time.Duration(vrt.RawNow()%100e6))
		from := 0
		if w.redis != nil {
			from = len(w.redis.Pipelines)
			w.redis.Faults.Reject = rejects
		}
		x.Quiet(false)
		created := map[string]string{} // id -> tag
		var tasks []*vrt.Task
		var after []func()
		for i, k := range kinds {
			i, k := i, k
			tag := fmt.Sprintf("%c%d", k, i)
			own := []string{fid(0, 10*i+1), fid(0, 10*i+2)}
			// some requests come when the batch of the others times out
			var late time.Duration
			if batch >= 3 && i > 0 {
				late = time.Duration(x.Choose(2, "late")) * 100 * time.Millisecond
			}
			tasks = append(tasks, x.Go(tag, func() {
				if late > 0 {
					x.Sleep(late)
				}
				switch k {
				case 'c':
					id, err := w.create(bg(), ticket(tag))
					vrt.Record(tag)
					if err == nil {
						if other, dup := created[id]; dup {
							x.Fail("creations of %s and %s both returned id %q", other, tag, id)
						}
						created[id] = tag
					}
					after = append(after, func() {
						if w.redis != nil {
							checkCreate(x, w.redis, from, tag, id, err)
						}
						if err != nil && !rejects {
							x.Fail("creation of %s failed although the storage accepted it: %v", tag, err)
						}
						if storage == "fake" {
							for n, u := range f.log {
								t := &pb.Ticket{}
								if f.ids[n] == id && (proto.Unmarshal([]byte(u.Value), t) != nil || t.GetAttributes().GetTags()[0] != tag) {
									x.Fail("id %s returned for ticket %s denotes %v", id, tag, t)
								}
							}
						}
					})
				case 'a', 'd', 'A':
					l := own
					if k == 'A' {
						l = []string{own[0], own[1], own[0]}
					}
					cmd := "activate"
					set := w.activate
					if k == 'd' {
						cmd, set = "deactivate", w.deactivate
					}
					err := set(l...)
					vrt.Record(tag)
					after = append(after, func() {
						if w.redis != nil && k != 'A' {
							checkState(x, w.redis, from, cmd, l, err)
						}
						if err != nil && !rejects {
							x.Fail("%s of %v failed although the storage accepted it: %v", cmd, l, err)
						}
					})
				case 's':
					conn := "host:" + tag
					err := w.assign(conn, own...)
					vrt.Record(tag)
					after = append(after, func() {
						if w.redis != nil {
							checkAssign(x, w.redis, from, conn, own, err)
						}
						if err != nil && !rejects {
							x.Fail("assignment %s failed although the storage accepted it: %v", conn, err)
						}
					})
				case 'e':
					_, err := w.srv.CreateAssignments(bg(), &pb.CreateAssignmentsRequest{AssignmentRoster: &pb.Roster{
						Assignment: &pb.Assignment{}, Tickets: []*pb.Ticket{{Id: own[0]}, {Id: own[1]}}}})
					vrt.Record(tag)
					after = append(after, func() {
						if w.redis != nil && err == nil {
							x.Fail("CreateAssignments returned success although its updates were not written")
						}
					})
				case 'm':
					// an empty or malformed id reaches the queue through a match
					spec := mmf("odd", 1, func(s pb.MatchMakingFunctionService_RunServer) error {
						readAll(s)
						return s.Send(&pb.StreamedMmfResponse{Match: match("odd", "", own[0])})
					})
					_, err := w.invoke(bg(), &pb.MmfRequest{Mmfs: []*pb.MatchmakingFunctionSpec{spec}, Profile: everyone()})
					vrt.Record(tag)
					if err != nil {
						x.Fail("invocation failed: %v", err)
					}
				}
			}))
		}
		if !x.JoinWithin(5*time.Minute, tasks...) {
			x.Fail("a request did not complete")
		}
		x.Quiet(true)
		for _, c := range after {
			c()
		}
		// every created id denotes the ticket of its request
		if storage == "memory" {
			var l []string
			for id := range created {
				l = append(l, id)
			}
			l = sorted(l...)
			if err := w.activate(l...); err != nil {
				x.Fail("activation: %v", err)
			}
			x.Sleep(time.Second)
			got := w.pools(everyone())["all"]
			if len(got) != len(created) {
				x.Fail("%d tickets created, %d in the pool", len(created), len(got))
			}
			for _, t := range got {
				if created[t.GetId()] != t.GetAttributes().GetTags()[0] {
					x.Fail("id %s was returned for ticket %s but denotes ticket %s", t.GetId(), created[t.GetId()], t.GetAttributes().GetTags()[0])
				}
			}
		}
		if w.redis != nil {
			for _, p := range w.redis.Pipelines[from:] {
				x.Outcome("%d", len(p.XAdds))
			}
		} else {
			x.Outcome("%v", f.batch)
		}
	}
}

// idSequence creates tickets at chosen moments; all ids differ and denote
// their own ticket.
func idSequence(storage string, n int) func(x *vrt.X) {
	return func(x *vrt.X) {
		x.Quiet(true)
		w := newWorld(x, opts{storage: storage, cfg: fast(map[string]any{"OM_CACHE_OUT_MAX_QUEUE_THRESHOLD": 1, "OM_CACHE_IN_WAIT_TIMEOUT_MS": 50})})
		gaps := []time.Duration{0, time.Millisecond, 999 * time.Millisecond, time.Second, 1001 * time.Millisecond, 9 * time.Second, 10 * time.Second}
		seen := map[string]string{}
		var l []string
		for i := 0; i < n; i++ {
			x.Sleep(gaps[x.Choose(len(gaps), "gap")])
			tag := "t" + itoa(i)
			id := w.mustCreate(ticket(tag))
			if o, dup := seen[id]; dup || id == "" {
				x.Fail("tickets %s and %s have the same id %q", o, tag, id)
			}
			seen[id] = tag
			l = append(l, id)
		}
		if err := w.activate(l...); err != nil {
			x.Fail("activation of %v: %v", l, err)
		}
		x.Sleep(time.Second)
		got := w.pools(everyone())["all"]
		if len(got) != n {
			x.Fail("%d tickets created (%v), %d in the pool", n, l, len(got))
		}
		for _, t := range got {
			if seen[t.GetId()] != t.GetAttributes().GetTags()[0] {
				x.Fail("id %s was returned for ticket %s but denotes ticket %s", t.GetId(), seen[t.GetId()], t.GetAttributes().GetTags()[0])
			}
		}
		x.Outcome("%d", len(got))
	}
}

var _ = vredis.Faults{}
var _ = codes.OK
var _ = status.Code

func init() {
	reg := func(sc vrt.Scenario) { sc.Prop = "C04"; vrt.Register(sc) }
	for _, b := range []int{1, 2, 3, 50} {
		reg(vrt.Scenario{Name: fmt.Sprintf("creates-batch%d", b), Doc: "three creations at once on Redis", Quick: 3, Thorough: 4, Body: together("redis", "ccc", b, false)})
		reg(vrt.Scenario{Name: fmt.Sprintf("mixed-batch%d", b), Doc: "creation, activation, assignment and an assignment Redis refuses, at once on Redis", Quick: 2, Thorough: 3, Shards: 1, TShards: 4, Body: together("redis", "eacs", b, false)})
		reg(vrt.Scenario{Name: fmt.Sprintf("rejects-batch%d", b), Doc: "two creations, activation, deactivation at once; Redis rejects single updates", Quick: 2, Thorough: 3, TShards: 4, Body: together("redis", "cacd", b, true)})
		reg(vrt.Scenario{Name: fmt.Sprintf("memory-batch%d", b), Doc: "two creations and an activation naming a ticket twice, at once on memory storage", Quick: 2, Thorough: 3, TShards: 2, Body: together("memory", "cAc", b, false)})
		reg(vrt.Scenario{Name: fmt.Sprintf("odd-batch%d", b), Doc: "a match with an empty ticket id deactivated while tickets are created and activated, on Redis", Quick: 3, Thorough: 4, TShards: 2, Body: together("redis", "mca", b, false)})
		reg(vrt.Scenario{Name: fmt.Sprintf("fake-batch%d", b), Doc: "four creations at once on a contract-only storage", Quick: 2, Thorough: 3, Body: together("fake", "cccc", b, false)})
	}
	for _, st := range []string{"memory", "redis"} {
		reg(vrt.Scenario{Name: "ids-" + st, Doc: "every sequence of 3 creations with gaps of 0 ms to 10 s between them", Quick: 0, OnlyQuick: true, Body: idSequence(st, 3)})
		reg(vrt.Scenario{Name: "ids-deep-" + st, Doc: "every sequence of 5 creations with gaps of 0 ms to 10 s between them", OnlyThorough: true, TShards: 4, Body: idSequence(st, 5)})
	}
}
