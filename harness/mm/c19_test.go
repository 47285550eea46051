package main

import (
	"fmt"
	"io"
	"sort"
	"strings"

	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
	"open-match.dev/functions/golang/battleroyale"
	"open-match.dev/functions/golang/soloduel"
	"open-match.dev/functions/golang/teamshooter"
	pb "open-match.dev/pkg/pb/v2"
	"verif.local/vrt"
)

// C19: the sample matchmaking functions.

// chunked distributes pools over n messages: ticket i of each pool goes to
// message split(i); pools without a ticket in a message are absent from it but
// for the first.
func chunked(pools map[string][]string, n int, split func(pool string, i int) int) []*pb.ChunkedMmfRunRequest {
	var msgs []*pb.ChunkedMmfRunRequest
	for m := 0; m < n; m++ {
		p := &pb.Profile{Name: "prof", Pools: map[string]*pb.Pool{}}
		for name, ids := range pools {
			var ts []*pb.Ticket
			for i, id := range ids {
				if split(name, i) == m {
					ts = append(ts, &pb.Ticket{Id: id, Attributes: &pb.Ticket_FilterableData{}})
				}
			}
			if len(ts) > 0 || m == 0 {
				p.Pools[name] = &pb.Pool{Name: name, Participants: &pb.Roster{Name: name + "_roster", Tickets: ts}}
			}
		}
		msgs = append(msgs, &pb.ChunkedMmfRunRequest{Profile: p, NumChunks: int32(n)})
	}
	return msgs
}

type mmfRunner interface {
	Run(pb.MatchMakingFunctionService_RunServer) error
}

// shape says which pool every slot of every roster is filled from ("*": any).
type shape [][]string

// fits assigns the tickets of a roster to its slots.
func fits(tickets []string, slots []string, in map[string]map[string]bool) bool {
	if len(tickets) != len(slots) {
		return false
	}
	if len(slots) > 10 { // all slots alike
		for _, t := range tickets {
			if !in[slots[0]][t] {
				return false
			}
		}
		return true
	}
	if len(slots) == 0 {
		return true
	}
	for i, t := range tickets {
		if in[slots[0]][t] {
			rest := append(append([]string{}, tickets[:i]...), tickets[i+1:]...)
			if fits(rest, slots[1:], in) {
				return true
			}
		}
	}
	return false
}

func poolsText(pools map[string][]string) string {
	var l []string
	for n, ids := range pools {
		l = append(l, fmt.Sprintf("%s: %v", n, ids))
	}
	sort.Strings(l)
	s := strings.Join(l, "; ")
	if len(s) > 600 {
		s = s[:600] + "..."
	}
	return s
}

// checkRun runs one function. want < 0: only the matches' own validity counts.
// stopAt >= 0: the send number stopAt+1 fails.
func checkRun(x *vrt.X, f mmfRunner, pools map[string][]string, msgs []*pb.ChunkedMmfRunRequest, sh shape, want, stopAt int) {
	st := &runStream{msgs: msgs, end: io.EOF, sendAt: stopAt}
	fail := status.Error(codes.Unavailable, "no more matches")
	if stopAt >= 0 {
		st.sendErr = fail
	}
	in := func() string {
		return fmt.Sprintf("pools %s in %d messages, sends fail after %d", poolsText(pools), len(msgs), stopAt)
	}
	var err error
	guard(x, in, func() { err = f.Run(st) })
	have := map[string]map[string]bool{"*": {}}
	for n, ids := range pools {
		if have[n] == nil {
			have[n] = map[string]bool{}
		}
		for _, id := range ids {
			have[n][id] = true
			have["*"][id] = true
		}
	}
	used := map[string]string{}
	ids := map[string]bool{}
	for _, r := range st.sent {
		m := r.GetMatch()
		if m == nil {
			x.Fail("a response without a match (%s)", in())
		}
		if ids[m.GetId()] {
			x.Fail("match id %q used twice (%s)", m.GetId(), in())
		}
		ids[m.GetId()] = true
		if len(m.GetRosters()) != len(sh) {
			x.Fail("match with %d rosters, want %d (%s)", len(m.GetRosters()), len(sh), in())
		}
		for rn, ro := range m.GetRosters() {
			var ts []string
			for _, t := range ro.GetTickets() {
				if where, dup := used[t.GetId()]; dup {
					x.Fail("ticket %s is in %s and in %s %s (%s)", t.GetId(), where, m.GetId(), rn, in())
				}
				used[t.GetId()] = m.GetId() + " " + rn
				ts = append(ts, t.GetId())
			}
			if !fits(ts, sh[0], have) {
				x.Fail("roster %s of tickets %v does not consist of %v from the pools sent (%s)", rn, ts, sh[0], in())
			}
		}
	}
	switch {
	case stopAt >= 0 && st.sends > stopAt:
		if err == nil {
			x.Fail("sending a match failed, the run reported success (%s)", in())
		}
		if st.sends > stopAt+1 {
			x.Fail("%d matches sent after sending one failed (%s)", st.sends-stopAt-1, in())
		}
	case err != nil:
		x.Fail("run failed with %v (%s)", err, in())
	case want >= 0 && len(st.sent) != want:
		x.Fail("%d matches, the pools allow %d (%s)", len(st.sent), want, in())
	}
}

func names(prefix string, n int) []string {
	var l []string
	for i := 0; i < n; i++ {
		l = append(l, fmt.Sprint(prefix, i))
	}
	return l
}

// duels: every membership of up to n tickets in up to np pools, split over up
// to two messages.
func duels(n, np int) func(x *vrt.X) {
	return func(x *vrt.X) {
		silence()
		x.Quiet(true)
		x.MapsDescending(x.Choose(2, "map order") == 1)
		k := x.Choose(n+1, "tickets")
		nm := 1 + x.Choose(2, "messages")
		var first int
		if k > 0 {
			first = x.Choose(1<<np, "membership of the first ticket")
		}
		member := make([]int, k)
		var rec func(i int)
		rec = func(i int) {
			if i < k {
				for m := 0; m < 1<<np; m++ {
					if i == 0 && m != first {
						continue
					}
					member[i] = m
					rec(i + 1)
				}
				return
			}
			pools := map[string][]string{}
			distinct := 0
			for p := 0; p < np; p++ {
				pools[fmt.Sprint("pool", p)] = nil
			}
			for i, m := range member {
				if m != 0 {
					distinct++
				}
				for p := 0; p < np; p++ {
					if m>>p&1 == 1 {
						n := fmt.Sprint("pool", p)
						pools[n] = append(pools[n], fmt.Sprint("t", i))
					}
				}
			}
			for split := 0; split < nm; split++ {
				msgs := chunked(pools, nm, func(_ string, i int) int { return (i + split) % nm })
				x.Count(1)
				checkRun(x, &soloduel.MmfServer{}, pools, msgs, shape{{"*", "*"}}, distinct/2, -1)
			}
			for stop := 0; stop < distinct/2; stop++ {
				x.Count(1)
				checkRun(x, &soloduel.MmfServer{}, pools, chunked(pools, nm, func(_ string, i int) int { return i % nm }), shape{{"*", "*"}}, -1, stop)
			}
		}
		rec(0)
		x.Outcome("%d tickets", k)
	}
}

func duelsBig(x *vrt.X) {
	silence()
	x.Quiet(true)
	x.MapsDescending(x.Choose(2, "map order") == 1)
	n := []int{50, 51, 999, 1000}[x.Choose(4, "tickets")]
	pools := map[string][]string{"all": names("t", n), "even": nil, "late": names("t", n)[n/2:]}
	for i := 0; i < n; i += 2 {
		pools["even"] = append(pools["even"], fmt.Sprint("t", i))
	}
	checkRun(x, &soloduel.MmfServer{}, pools, chunked(pools, 3, func(_ string, i int) int { return i % 3 }), shape{{"*", "*"}}, n/2, -1)
	x.Outcome("%d", n)
}

// many: runs of very many matches.
func many(counts [3][]int) func(*vrt.X) {
	return func(x *vrt.X) {
		silence()
		x.Quiet(true)
		f := x.Choose(3, "function")
		n := counts[f][x.Choose(len(counts[f]), "matches")]
		nm := []int{1, 7}[x.Choose(2, "messages")]
		split := func(_ string, i int) int { return i % nm }
		x.Count(1)
		switch f {
		case 0:
			pools := map[string][]string{"all": names("t", 2*n+1)}
			checkRun(x, &soloduel.MmfServer{}, pools, chunked(pools, nm, split), shape{{"*", "*"}}, n, -1)
		case 1:
			pools := map[string][]string{"competitive": names("t", 100*n+99)}
			sh := shape{make([]string, 100)}
			for i := range sh[0] {
				sh[0][i] = "competitive"
			}
			checkRun(x, &battleroyale.MmfServer{}, pools, chunked(pools, nm, split), sh, n, -1)
		case 2:
			pools := map[string][]string{"tank": names("t", 2*n+1), "healer": names("h", 2*n), "dps": names("d", 6*n+5)}
			team := []string{"tank", "healer", "dps", "dps", "dps"}
			checkRun(x, &teamshooter.MmfServer{}, pools, chunked(pools, nm, split), shape{team, team}, n, -1)
		}
		x.Outcome("%d %d", f, n)
	}
}

func royale(x *vrt.X) {
	silence()
	x.Quiet(true)
	sizes := []int{-1, 0, 1, 99, 100, 101, 199, 200, 201, 299, 300, 350}
	n := sizes[x.Choose(len(sizes), "competitive tickets")]
	other := []int{0, 1, 100, 250}[x.Choose(4, "tickets of other pools")]
	nm := 1 + x.Choose(3, "messages")
	kind := x.Choose(3, "split")
	pools := map[string][]string{}
	if n >= 0 {
		pools["competitive"] = names("c", n)
	}
	if other > 0 {
		pools["casual"] = names("o", other)
		if n > 0 {
			pools["casual"] = append(pools["casual"], pools["competitive"]...)
		}
	}
	split := func(pool string, i int) int {
		switch kind {
		case 0:
			return i % nm
		case 1:
			return nm - 1
		}
		return min(i/70, nm-1)
	}
	sh := shape{make([]string, 100)}
	for i := range sh[0] {
		sh[0][i] = "competitive"
	}
	want := max(n, 0) / 100
	x.Count(1)
	checkRun(x, &battleroyale.MmfServer{}, pools, chunked(pools, nm, split), sh, want, -1)
	for stop := 0; stop < want; stop++ {
		x.Count(1)
		checkRun(x, &battleroyale.MmfServer{}, pools, chunked(pools, nm, split), sh, -1, stop)
	}
	x.Outcome("%d", want)
}

var team = []string{"tank", "healer", "dps", "dps", "dps"}

// teams: pools of every size; a missing pool is -1.
func teams(x *vrt.X) {
	silence()
	x.Quiet(true)
	nm := 1 + x.Choose(2, "messages")
	t := x.Choose(8, "tanks") - 1
	for h := -1; h <= 6; h++ {
		for d := -1; d <= 19; d++ {
			pools := map[string][]string{"spectators": names("s", 3)}
			for n, k := range map[string]int{"tank": t, "healer": h, "dps": d} {
				if k >= 0 {
					pools[n] = names(n, k)
				}
			}
			want := max(0, min(t/2, h/2, d/6))
			for split := 0; split < nm; split++ {
				msgs := chunked(pools, nm, func(p string, i int) int { return (i + split + len(p)) % nm })
				x.Count(1)
				checkRun(x, &teamshooter.MmfServer{}, pools, msgs, shape{team, team}, want, -1)
			}
			for stop := 0; stop < want; stop++ {
				x.Count(1)
				checkRun(x, &teamshooter.MmfServer{}, pools, chunked(pools, nm, func(_ string, i int) int { return i % nm }), shape{team, team}, -1, stop)
			}
		}
	}
	x.Outcome("%d", t)
}

// mixed: tickets that are in several of the pools a team is drawn from.
func mixed(x *vrt.X) {
	silence()
	x.Quiet(true)
	nm := 1 + x.Choose(2, "messages")
	// how many tickets are in each combination of pools
	var n [8]int
	for _, c := range []int{3, 5, 6, 7} {
		n[c] = []int{0, 1, 4}[x.Choose(3, "tickets of the combination")]
	}
	for _, k := range []int{0, 1, 2, 5} {
		for _, d := range []int{0, 4, 13} {
			n[1], n[2], n[4] = k, k, d
			for order := 0; order < 2; order++ {
				pools := map[string][]string{}
				for i := range n {
					c := i
					if order == 1 {
						c = 7 - i
					}
					for b, p := range []string{"tank", "healer", "dps"} {
						if c>>b&1 == 1 {
							pools[p] = append(pools[p], names(fmt.Sprint("c", c, "-"), n[c])...)
						}
					}
				}
				x.Count(1)
				checkRun(x, &teamshooter.MmfServer{}, pools, chunked(pools, nm, func(_ string, i int) int { return i % nm }), shape{team, team}, -1, -1)
			}
		}
	}
	x.Outcome("%v", n)
}

// cut: the request ends before its last message.
func cut(x *vrt.X) {
	silence()
	x.Quiet(true)
	f := []mmfRunner{&soloduel.MmfServer{}, &battleroyale.MmfServer{}, &teamshooter.MmfServer{}}[x.Choose(3, "function")]
	end := []error{io.EOF, status.Error(codes.Canceled, "cancelled"), status.Error(codes.Unavailable, "gone")}[x.Choose(3, "error")]
	pools := map[string][]string{"competitive": names("c", 400), "tank": names("t", 30), "healer": names("h", 30), "dps": names("d", 90)}
	nm := 1 + x.Choose(3, "messages")
	got := x.Choose(nm, "messages received")
	msgs := chunked(pools, nm, func(_ string, i int) int { return i % nm })[:got]
	st := &runStream{msgs: msgs, end: end}
	var err error
	guard(x, func() string { return describe(msgs) }, func() { err = f.Run(st) })
	if len(st.sent) > 0 {
		x.Fail("%d matches from a request of which %d of %d messages arrived", len(st.sent), got, nm)
	}
	if err == nil {
		x.Fail("the request was cut off after %d of %d messages (%v), the run reported success", got, nm, end)
	}
	x.Outcome("%v", err)
}

func init() {
	reg := func(name, doc string, shards int, thoroughOnly bool, body func(*vrt.X)) {
		vrt.Register(vrt.Scenario{Prop: "C19", Name: name, Doc: doc, Shards: shards, TShards: shards, OnlyThorough: thoroughOnly, MaxSteps: 1 << 40, Body: body})
	}
	reg("duel", "soloduel: every membership of up to 4 tickets in 3 pools, over 1 and 2 messages in both splits, in both map orders; a failing send at every match", 8, false, duels(4, 3))
	reg("duel6", "soloduel: the same with 6 tickets", 8, true, duels(6, 3))
	reg("duelbig", "soloduel: up to 1000 tickets in 3 overlapping pools", 1, false, duelsBig)
	reg("royale", "battleroyale: pool missing, or of 0 to 350 tickets around multiples of 100, other pools sharing tickets, over 1 to 3 messages in 3 splits; a failing send at every match", 2, false, royale)
	reg("team", "teamshooter: pools missing, or of 0-6 tanks x 0-6 healers x 0-19 damage dealers, over 1 and 2 messages; a failing send at every match", 4, false, teams)
	reg("teammixed", "teamshooter: 0, 1 or 4 tickets in each combination of the pools besides those in one pool only, in two orders", 4, false, mixed)
	reg("many", "all functions: runs of 11 to 5000 matches", 4, false, many([3][]int{{11, 101, 257, 1001, 5000}, {11, 101, 257, 300}, {11, 101, 257, 1001, 3000}}))
	reg("verymany", "all functions: runs of up to 70000 matches", 4, true, many([3][]int{{10001, 65537, 70000}, {1001, 4097, 10001}, {10001, 40000}}))
	reg("cut", "all functions: requests of up to 3 messages cut off at every message with 3 errors", 1, false, cut)
}
