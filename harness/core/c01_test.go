package main

import (
	"fmt"
	"time"

	pb "open-match.dev/pkg/pb/v2"
	"verif.local/vrt"
)

// history explores every sequence of lifecycle operations up to depth and
// compares the pools with a reference model after each operation or, if bursts
// is set, after every subset of the operations that includes the last: the
// others are not applied yet when the next request arrives.
func history(storage string, depth int, bursts bool, over map[string]any) func(x *vrt.X) {
	return func(x *vrt.X) {
		w := newWorld(x, opts{storage: storage, cfg: fast(over)})
		type rec struct {
			id     string
			tag    string
			active bool
			expiry time.Duration // when the ticket expires
		}
		var recs []*rec
		check := func(step string) {
			w.settle()
			prof := &pb.Profile{Name: "p", Pools: map[string]*pb.Pool{
				"all": {Name: "all"},
				"red": {Name: "red", TagPresentFilters: []*pb.Pool_TagPresentFilter{{Tag: "red"}}},
			}}
			got := w.pools(prof)
			now := x.Elapsed()
			var all, red []string
			for _, r := range recs {
				if r.active && now < r.expiry {
					all = append(all, r.id)
					if r.tag == "red" {
						red = append(red, r.id)
					}
				}
			}
			if g := ids(got["all"]); !same(g, sorted(all...)) {
				x.Fail("after %s: pool without filters holds %v, want %v", step, g, sorted(all...))
			}
			if g := ids(got["red"]); !same(g, sorted(red...)) {
				x.Fail("after %s: pool filtered by tag holds %v, want %v", step, g, sorted(red...))
			}
			x.Outcome("%d %v", len(all), len(red))
		}
		log := ""
		for step := 0; step < depth; step++ {
			n := len(recs)
			// operations: create long-lived red, create short-lived blue (at most
			// 2 tickets), then for each ticket activate and deactivate, for two
			// tickets both at once, assign the first, and wait.
			type op struct {
				name string
				do   func()
			}
			var ops []op
			if n < 2 {
				for _, tag := range []string{"red", "blue"} {
					tag := tag
					ops = append(ops, op{"create " + tag, func() {
						t := ticket(tag)
						life := w.ttl
						if tag == "blue" {
							life = 10 * time.Second
							t.ExpirationTime = ts(x.Now().Add(life))
						}
						at := x.Elapsed()
						id := w.mustCreate(t)
						if id == "" {
							x.Fail("CreateTicket succeeded with an empty id")
						}
						for _, r := range recs {
							if r.id == id {
								x.Fail("two tickets with id %s", id)
							}
						}
						recs = append(recs, &rec{id: id, tag: tag, expiry: at + life})
					}})
				}
			}
			set := func(active bool, rs ...*rec) func() {
				return func() {
					var l []string
					for _, r := range rs {
						l = append(l, r.id)
					}
					var err error
					if active {
						err = w.activate(l...)
					} else {
						err = w.deactivate(l...)
					}
					if err != nil {
						x.Fail("update of %v failed on healthy storage: %v", l, err)
					}
					for _, r := range rs {
						r.active = active
					}
				}
			}
			for i, r := range recs {
				ops = append(ops, op{fmt.Sprintf("activate %d", i), set(true, r)}, op{fmt.Sprintf("deactivate %d", i), set(false, r)})
			}
			if n == 2 {
				ops = append(ops, op{"activate both", set(true, recs[1], recs[0])}, op{"deactivate both", set(false, recs...)})
			}
			if n > 0 {
				// an assignment is no activation-state request: it changes no pool
				ops = append(ops, op{"assign 0", func() {
					if err := w.assign("there", recs[0].id); err != nil {
						x.Fail("assignment on healthy storage failed: %v", err)
					}
				}})
				ops = append(ops, op{"wait", func() { x.Sleep(11 * time.Second) }})
			}
			k := x.Choose(len(ops), "operation")
			log += ops[k].name + "; "
			x.Logf("== %s", ops[k].name)
			ops[k].do()
			if bursts && step < depth-1 && x.Choose(2, "at once") == 0 {
				continue
			}
			check(log)
		}
	}
}

func init() {
	for _, st := range []string{"memory", "redis"} {
		d := 5
		if st == "redis" {
			d = 4
		}
		vrt.Register(vrt.Scenario{Prop: "C01", Name: "histories-" + st, Doc: fmt.Sprintf("all sequences of %d operations (create long/short lived, activate, deactivate, both at once, assign, wait) over 2 tickets, pools compared with a reference model after each", d),
			Quick: 0, OnlyQuick: true, Shards: 4, Body: history(st, d, false, nil)})
		vrt.Register(vrt.Scenario{Prop: "C01", Name: "histories-deep-" + st, Doc: "as histories, 2 operations longer", OnlyThorough: true, Thorough: 0, TShards: 8, Body: history(st, d+2, false, nil)})
		vrt.Register(vrt.Scenario{Prop: "C01", Name: "bursts-" + st, Doc: fmt.Sprintf("all sequences of %d operations as in histories, each either applied before the next request or not", d),
			Quick: 0, OnlyQuick: true, Shards: 8, Body: history(st, d, true, nil)})
		vrt.Register(vrt.Scenario{Prop: "C01", Name: "bursts-deep-" + st, Doc: "as bursts, 1 operation longer", OnlyThorough: true, Thorough: 0, TShards: 8, Body: history(st, d+1, true, nil)})
		small := map[string]any{"OM_CACHE_IN_MAX_UPDATES_PER_POLL": 1, "OM_CACHE_OUT_MAX_QUEUE_THRESHOLD": 2, "OM_CACHE_IN_WAIT_TIMEOUT_MS": 15}
		vrt.Register(vrt.Scenario{Prop: "C01", Name: "small-" + st, Doc: "as bursts, 1 operation shorter (thorough: as long), with batches of 2 outgoing updates and 1 incoming one", OnlyQuick: true, Shards: 4, Body: history(st, d-1, true, small)})
		vrt.Register(vrt.Scenario{Prop: "C01", Name: "small-deep-" + st, Doc: "as bursts, with batches of 2 outgoing updates and 1 incoming one", OnlyThorough: true, TShards: 8, Body: history(st, d, true, small)})
	}
}
