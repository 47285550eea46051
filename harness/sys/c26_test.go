package main

import (
	"bufio"
	"context"
	"fmt"
	"io"
	"net"
	"net/http"
	"os"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/encoding/protojson"
	"google.golang.org/protobuf/proto"
	pb "open-match.dev/pkg/pb/v2"
	"verif.local/vrt"
)

// C26: the programs together, and how om-core ends and starts again.

// miniRedis is a Redis server that keeps one stream.
type miniRedis struct {
	mu      sync.Mutex
	l       net.Listener
	entries []miniEntry
	last    [2]int64
	grown   chan struct{} // closed when the stream grows
	held    bool          // updates are not processed
	added   int           // XADD commands so far
	// onAdd is called before the update is applied (0), before it is answered
	// (1) and after that (2); it reports whether the connection breaks there.
	onAdd func(n, when int) bool
}

type miniEntry struct {
	ms, seq int64
	fields  []string
}

func newMiniRedis() *miniRedis {
	l, err := net.Listen("tcp", "127.0.0.1:6379")
	if err != nil {
		vrt.Violation("harness: %v", err)
	}
	m := &miniRedis{l: l, grown: make(chan struct{})}
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			go m.serve(c)
		}
	}()
	return m
}

func (m *miniRedis) stop() { m.l.Close() }

func (m *miniRedis) hold(on bool) {
	m.mu.Lock()
	m.held = on
	m.mu.Unlock()
}

func (m *miniRedis) serve(c net.Conn) {
	defer c.Close()
	r := bufio.NewReader(c)
	for {
		line, err := r.ReadString('\n')
		if err != nil {
			return
		}
		n := 0
		if _, err := fmt.Sscanf(line, "*%d", &n); err != nil {
			return
		}
		var words []string
		for i := 0; i < n; i++ {
			size := 0
			line, err := r.ReadString('\n')
			if err != nil {
				return
			}
			fmt.Sscanf(line, "$%d", &size)
			b := make([]byte, size+2)
			if _, err := io.ReadFull(r, b); err != nil {
				return
			}
			words = append(words, string(b[:size]))
		}
		if len(words) == 0 || !m.exec(c, words) {
			return
		}
	}
}

func bulkString(b *strings.Builder, s string) { fmt.Fprintf(b, "$%d\r\n%s\r\n", len(s), s) }

func (m *miniRedis) exec(c net.Conn, w []string) bool {
	at := func(name string) int {
		for i, s := range w {
			if strings.EqualFold(s, name) {
				return i
			}
		}
		return -1
	}
	switch strings.ToUpper(w[0]) {
	case "XADD":
		for {
			m.mu.Lock()
			h := m.held
			m.mu.Unlock()
			if !h {
				break
			}
			time.Sleep(5 * time.Millisecond)
		}
		star := at("*")
		if star < 0 {
			fmt.Fprint(c, "-ERR syntax error\r\n")
			return true
		}
		m.mu.Lock()
		m.added++
		n, f := m.added, m.onAdd
		m.mu.Unlock()
		if f != nil && f(n, 0) {
			return false
		}
		m.mu.Lock()
		id := [2]int64{time.Now().UnixMilli(), 0}
		if id[0] <= m.last[0] {
			id = [2]int64{m.last[0], m.last[1] + 1}
		}
		m.last = id
		m.entries = append(m.entries, miniEntry{id[0], id[1], w[star+1:]})
		close(m.grown)
		m.grown = make(chan struct{})
		m.mu.Unlock()
		if f != nil && f(n, 1) {
			return false
		}
		var b strings.Builder
		bulkString(&b, fmt.Sprintf("%d-%d", id[0], id[1]))
		io.WriteString(c, b.String())
		return f == nil || !f(n, 2)
	case "XTRIM":
		fmt.Fprint(c, ":0\r\n")
	case "XREAD":
		count, block := 1<<30, 0
		if i := at("COUNT"); i > 0 {
			count, _ = strconv.Atoi(w[i+1])
		}
		if i := at("BLOCK"); i > 0 {
			block, _ = strconv.Atoi(w[i+1])
		}
		var from [2]int64
		fmt.Sscanf(w[len(w)-1], "%d-%d", &from[0], &from[1])
		end := time.After(time.Duration(block) * time.Millisecond)
		for {
			m.mu.Lock()
			var found []miniEntry
			for _, e := range m.entries {
				if (e.ms > from[0] || e.ms == from[0] && e.seq > from[1]) && len(found) < count {
					found = append(found, e)
				}
			}
			grown := m.grown
			m.mu.Unlock()
			if len(found) > 0 {
				var b strings.Builder
				b.WriteString("*1\r\n*2\r\n")
				bulkString(&b, w[len(w)-2])
				fmt.Fprintf(&b, "*%d\r\n", len(found))
				for _, e := range found {
					b.WriteString("*2\r\n")
					bulkString(&b, fmt.Sprintf("%d-%d", e.ms, e.seq))
					fmt.Fprintf(&b, "*%d\r\n", len(e.fields))
					for _, s := range e.fields {
						bulkString(&b, s)
					}
				}
				io.WriteString(c, b.String())
				return true
			}
			select {
			case <-grown:
			case <-end:
				fmt.Fprint(c, "*-1\r\n")
				return true
			}
		}
	default:
		fmt.Fprint(c, "+OK\r\n")
	}
	return true
}

// recorded is the state that the stream amounts to.
func (m *miniRedis) recorded() (active []string, assigned map[string]string, tickets int) {
	m.mu.Lock()
	defer m.mu.Unlock()
	on := map[string]bool{}
	assigned = map[string]string{}
	for _, e := range m.entries {
		switch f := e.fields; f[0] {
		case "ticket":
			tickets++
		case "activate":
			on[f[1]] = true
		case "deactivate":
			delete(on, f[1])
		case "assign":
			var a pb.Assignment
			proto.Unmarshal([]byte(f[3]), &a)
			assigned[f[1]] = a.Connection
		}
	}
	for id := range on {
		active = append(active, id)
	}
	sort.Strings(active)
	return
}

// wrote tells whether the stream holds the update.
func (m *miniRedis) wrote(command, id string) bool {
	m.mu.Lock()
	defer m.mu.Unlock()
	for _, e := range m.entries {
		if e.fields[0] == command && (command == "ticket" && fmt.Sprintf("%d-%d", e.ms, e.seq) == id || e.fields[1] == id) {
			return true
		}
	}
	return false
}

// seer is a matchmaking function that only notes the tickets it is sent.
type seer struct {
	pb.UnimplementedMatchMakingFunctionServiceServer
	mu   sync.Mutex
	seen []string
	hang chan struct{}
}

func (s *seer) Run(st pb.MatchMakingFunctionService_RunServer) error {
	var seen []string
	for n := 1; ; n++ {
		m, err := st.Recv()
		if err != nil {
			return err
		}
		for _, p := range m.GetProfile().GetPools() {
			for _, t := range p.GetParticipants().GetTickets() {
				seen = append(seen, t.GetId())
			}
		}
		if int(m.NumChunks) == n {
			break
		}
	}
	sort.Strings(seen)
	s.mu.Lock()
	s.seen = seen
	s.mu.Unlock()
	if s.hang != nil {
		close(s.hang)
		<-st.Context().Done()
		return st.Context().Err()
	}
	return nil
}

func restarting(x *vrt.X, env map[string]string) *both {
	e := map[string]string{"OM_STATE_STORAGE_TYPE": "redis"}
	for k, v := range env {
		e[k] = v
	}
	return startBoth(x, e)
}

// ends sends the signal and waits for the end.
func (b *both) ends(sig syscall.Signal, what string) {
	b.cmd.Process.Signal(sig)
	b.ended(sig, what)
}

// ended waits for the end of an om-core that was sent the signal.
func (b *both) ended(sig syscall.Signal, what string) {
	select {
	case err := <-b.exit:
		b.exit <- err
		if sig != syscall.SIGKILL && err != nil {
			b.x.Fail("om-core was sent %v %s, and ended with %v\n%s", sig, what, err, b.log())
		}
	case <-time.After(12 * time.Second):
		b.x.Fail("om-core was sent %v %s, and still runs 12 seconds later\n%s", sig, what, b.log())
	}
}

// sees waits until the instance sends functions just these tickets.
func (b *both) sees(want []string, what string) {
	want = append([]string{}, want...)
	sort.Strings(want)
	f := &seer{}
	spec, stop := serveFunction(f)
	defer stop()
	req := &pb.MmfRequest{Profile: &pb.Profile{Name: "p", Pools: map[string]*pb.Pool{"all": {Name: "all"}}}, Mmfs: []*pb.MatchmakingFunctionSpec{spec}}
	for end := time.Now().Add(15 * time.Second); ; time.Sleep(20 * time.Millisecond) {
		ctx, cancel := ctxFor(30 * time.Second)
		a := overGRPC(ctx, b.grpc, req)
		cancel()
		f.mu.Lock()
		seen := f.seen
		f.mu.Unlock()
		if a.code == 0 && strings.Join(seen, " ") == strings.Join(want, " ") {
			return
		}
		if time.Now().After(end) {
			b.x.Fail("%s, the active tickets are %v (%v), not %v\n%s", what, cut(fmt.Sprint(seen)), a, cut(fmt.Sprint(want)), b.log())
		}
	}
}

// shows waits until the instance serves what the stream amounts to.
func (b *both) shows(m *miniRedis, what string) {
	active, assigned, _ := m.recorded()
	b.sees(active, what)
	if len(assigned) == 0 {
		return
	}
	var ids []string
	for id := range assigned {
		ids = append(ids, id)
	}
	for end := time.Now().Add(15 * time.Second); ; time.Sleep(20 * time.Millisecond) {
		got, err := b.assignments(ids)
		if fmt.Sprint(got) == fmt.Sprint(assigned) {
			return
		}
		if time.Now().After(end) {
			b.x.Fail("%s, the assignments are %v (%v), not %v", what, got, err, assigned)
		}
	}
}

// assignments asks for the present assignments of the tickets.
func (b *both) assignments(ids []string) (map[string]string, error) {
	ctx, cancel := ctxFor(5 * time.Second)
	defer cancel()
	st, err := b.grpc.WatchAssignments(ctx, &pb.WatchAssignmentsRequest{TicketIds: ids})
	got := map[string]string{}
	for err == nil && len(got) < len(ids) {
		var r *pb.StreamedWatchAssignmentsResponse
		if r, err = st.Recv(); err == nil {
			got[r.GetId()] = r.GetAssignment().GetConnection()
		}
	}
	return got, err
}

// step is a call that changes tickets.
type step struct {
	command string
	of      []int // tickets in order of their creation
}

var oneLife = []step{
	{"ticket", []int{0}}, {"ticket", []int{1}}, {"activate", []int{0, 1}}, {"ticket", []int{2}},
	{"assign", []int{0, 2}}, {"deactivate", []int{1}}, {"activate", []int{2}}, {"assign", []int{0}},
	{"match", []int{0, 2}}, {"activate", []int{0}},
}

// updates is the number of updates of oneLife.
const updates26 = 13

// try makes the call of the step; ids gets the id of a created ticket.
func (b *both) try(s step, ids map[int]string, n int) error {
	ctx, cancel := ctxFor(30 * time.Second)
	defer cancel()
	var l []string
	for _, k := range s.of {
		l = append(l, ids[k])
	}
	var err error
	switch s.command {
	case "ticket":
		var r *pb.CreateTicketResponse
		r, err = b.grpc.CreateTicket(ctx, &pb.CreateTicketRequest{Ticket: &pb.Ticket{}})
		if err == nil {
			ids[s.of[0]] = r.GetTicketId()
		}
	case "activate":
		_, err = b.grpc.ActivateTickets(ctx, &pb.ActivateTicketsRequest{TicketIds: l})
	case "deactivate":
		_, err = b.grpc.DeactivateTickets(ctx, &pb.DeactivateTicketsRequest{TicketIds: l})
	case "match":
		spec, stop := (&echo{}).serve()
		defer stop()
		a := overGRPC(ctx, b.grpc, &pb.MmfRequest{Profile: &pb.Profile{Name: "p", Pools: map[string]*pb.Pool{"all": {Name: "all"}}}, Mmfs: []*pb.MatchmakingFunctionSpec{spec}})
		err = status.Error(a.code, a.msg)
	case "assign":
		_, err = b.grpc.CreateAssignments(ctx, &pb.CreateAssignmentsRequest{AssignmentRoster: rosterOf(fmt.Sprint("c", n), l...)})
	}
	return err
}

var endings26 = []syscall.Signal{syscall.SIGKILL, syscall.SIGINT, syscall.SIGTERM}

// crashPoints: om-core ends at every point of writing every update.
func crashPoints(sig syscall.Signal, nth int) func(x *vrt.X) {
	return func(x *vrt.X) {
		when := x.Choose(3, "before the update is applied, before it is answered, after that")
		m := newMiniRedis()
		defer m.stop()
		b := restarting(x, nil)
		defer func() { b.stop() }()
		once := make(chan struct{})
		m.onAdd = func(n, w int) bool {
			if n != nth || w != when {
				return false
			}
			close(once)
			b.cmd.Process.Signal(sig)
			return sig == syscall.SIGKILL
		}
		ids := map[int]string{}
		for i := 0; i < len(oneLife); {
			s, command := oneLife[i], oneLife[i].command
			if command == "match" {
				b.shows(m, "before the match")
				command = "deactivate"
			}
			err := b.try(s, ids, i)
			if err == nil {
				for _, k := range s.of {
					if !m.wrote(command, ids[k]) {
						x.Fail("%s of ticket %d was acknowledged but not written", s.command, k)
					}
				}
				i++
			}
			select {
			case <-once:
				once = nil
				b.ended(sig, fmt.Sprintf("while it wrote update %d", nth))
				b = restarting(x, nil)
				b.shows(m, fmt.Sprintf("restarted after %v at update %d", sig, nth))
			default:
				if err != nil {
					x.Fail("%s of tickets %v: %v\n%s", s.command, s.of, err, b.log())
				}
			}
		}
		if once != nil {
			select {
			case <-once:
				b.ended(sig, fmt.Sprintf("after update %d", nth))
				b = restarting(x, nil)
			case <-time.After(10 * time.Second):
				x.Fail("there were %d updates, not %d", m.added, updates26)
			}
		}
		b.shows(m, "at the end")
		active, assigned, _ := m.recorded()
		want := []string{ids[0]}
		if strings.Join(active, " ") != ids[0] || assigned[ids[0]] != "c7" || assigned[ids[2]] != "c4" {
			x.Fail("at the end, active are %v (should be %v), assignments %v", active, want, assigned)
		}
		x.Count(1)
		x.Outcome("%v", when)
	}
}

// restartsOf: om-core ends and starts again after every call.
func restartsOf(sig syscall.Signal) func(x *vrt.X) {
	return func(x *vrt.X) {
		m := newMiniRedis()
		defer m.stop()
		b := restarting(x, nil)
		defer func() { b.stop() }()
		ids := map[int]string{}
		for i, s := range oneLife {
			if err := b.try(s, ids, i); err != nil {
				x.Fail("%s of tickets %v: %v\n%s", s.command, s.of, err, b.log())
			}
			b.ends(sig, "at rest")
			b = restarting(x, nil)
			b.shows(m, fmt.Sprintf("restarted after call %d and %v", i, sig))
			x.Count(1)
		}
		if _, _, n := m.recorded(); n != 3 {
			x.Fail("%d tickets, created were 3", n)
		}
		x.Outcome("ok")
	}
}

// stopping: om-core is told to stop with calls in flight.
func stopping(kind int) func(x *vrt.X) {
	return func(x *vrt.X) {
		sig := endings26[1+x.Choose(2, "SIGINT, SIGTERM")]
		storage := []string{"redis", "memory"}[x.Choose(2, "storage")]
		env := map[string]string{"OM_STATE_STORAGE_TYPE": storage}
		if x.Choose(2, "verbose") == 1 {
			env["OM_VERBOSE"] = "true"
		}
		m := newMiniRedis()
		defer m.stop()
		b := startBoth(x, env)
		defer b.stop()
		f := &seer{hang: make(chan struct{})}
		spec, stop := serveFunction(f)
		defer stop()
		ctx, cancel := ctxFor(100 * time.Second)
		defer cancel()
		r, err := b.grpc.CreateTicket(ctx, &pb.CreateTicketRequest{Ticket: &pb.Ticket{}})
		if err != nil {
			x.Fail("CreateTicket: %v", err)
		}
		id := r.GetTicketId()
		match := &pb.MmfRequest{Profile: &pb.Profile{Name: "p", Pools: map[string]*pb.Pool{"all": {Name: "all"}}}, Mmfs: []*pb.MatchmakingFunctionSpec{spec}}
		watch := &pb.WatchAssignmentsRequest{TicketIds: []string{id}}
		var wg sync.WaitGroup
		fly := func(how int, req proto.Message) {
			wg.Add(1)
			go func() {
				defer wg.Done()
				if how == 0 {
					overGRPC(ctx, b.grpc, req)
				} else {
					looseHTTP(ctx, req)
				}
			}()
		}
		what := "at rest"
		switch kind {
		case 1, 2:
			what = "while it runs a matchmaking function"
			fly(kind-1, match)
			<-f.hang
		case 3, 4:
			what = "while assignments are watched"
			fly(kind-3, watch)
		case 5, 6:
			what = "while Redis does not answer"
			m.hold(true)
			fly(kind-5, &pb.CreateTicketRequest{Ticket: &pb.Ticket{}})
			fly(kind-5, &pb.ActivateTicketsRequest{TicketIds: []string{id}})
		case 7:
			what = "in the middle of everything"
			fly(0, match)
			fly(1, watch)
			fly(0, watch)
			<-f.hang
			m.hold(true)
			for i := 0; i < 4; i++ {
				fly(i%2, &pb.CreateTicketRequest{Ticket: &pb.Ticket{}})
				fly(i%2, &pb.ActivateTicketsRequest{TicketIds: []string{id}})
				fly(i%2, &pb.CreateAssignmentsRequest{AssignmentRoster: rosterOf("c", id)})
			}
		}
		time.Sleep(50 * time.Millisecond)
		b.ends(sig, what)
		done := make(chan struct{})
		go func() { wg.Wait(); close(done) }()
		select {
		case <-done:
		case <-time.After(10 * time.Second):
			x.Fail("om-core ended %s, and calls to it do not", what)
		}
		x.Count(1)
		x.Outcome("%v", sig)
	}
}

// looseHTTP makes a call and reads the answer, whatever it is.
func looseHTTP(ctx context.Context, req proto.Message) {
	m := methodOf(methodFor[string(req.ProtoReflect().Descriptor().Name())])
	body, _ := protojson.Marshal(req)
	hr, err := http.NewRequestWithContext(ctx, m.verb, "http://"+httpAddr+m.path, strings.NewReader(string(body)))
	if err != nil {
		return
	}
	hr.Header.Set("Content-Type", "application/json")
	hr.Close = true
	if resp, err := http.DefaultClient.Do(hr); err == nil {
		io.ReadAll(resp.Body)
		resp.Body.Close()
	}
}

// mmfProgram starts the repository's matchmaking function program.
func mmfProgram(x *vrt.X, port *string) (*zzProgram, string) {
	addr := "8081"
	p := &zzProgram{exit: make(chan error, 1)}
	p.cmd = exec.Command(os.Getenv("VERIF_MMF"))
	p.cmd.Env = []string{"PATH=" + os.Getenv("PATH"), "HOME=/nonexistent"}
	if port != nil {
		p.cmd.Env = append(p.cmd.Env, "PORT="+*port)
		if _, err := strconv.Atoi(*port); err == nil {
			addr = *port
		}
	}
	p.start()
	if !p.up("127.0.0.1:" + addr) {
		x.Fail("the matchmaking function with PORT %v does not listen on port %s\n%s", p.cmd.Env[2:], addr, p.log())
	}
	return p, addr
}

// together: tickets are created, activated, matched by the program and
// assigned, every step over either way.
func together(x *vrt.X, b *both, port string, how int, tickets []*pb.Ticket, pools map[string]*pb.Pool) {
	n, _ := strconv.Atoi(port)
	spec := &pb.MatchmakingFunctionSpec{Name: "soloduel", Type: pb.MatchmakingFunctionSpec_GRPC, Host: "127.0.0.1", Port: int32(n)}
	ids := make([]string, len(tickets))
	sent := map[string]*pb.Ticket{}
	var wg sync.WaitGroup
	gate := make(chan struct{}, 16)
	var failed answers
	var mu sync.Mutex
	for i, t := range tickets {
		i, t := i, t
		wg.Add(1)
		gate <- struct{}{}
		go func() {
			defer wg.Done()
			a := b.call(how, &pb.CreateTicketRequest{Ticket: t})
			mu.Lock()
			if a.code != 0 || len(a.res) != 1 {
				failed = a
			} else {
				ids[i] = a.res[0].(*pb.CreateTicketResponse).GetTicketId()
				sent[ids[i]] = t
			}
			mu.Unlock()
			<-gate
		}()
	}
	wg.Wait()
	if len(sent) != len(tickets) {
		x.Fail("%d of %d tickets were created; %v", len(sent), len(tickets), failed)
	}
	for i := 0; i < len(ids); i += 500 {
		if a := b.call(how, &pb.ActivateTicketsRequest{TicketIds: ids[i:min(i+500, len(ids))]}); a.code != 0 {
			x.Fail("activation: %v", a)
		}
	}
	b.sees(ids, "after the activation")
	a := b.call(how, &pb.MmfRequest{Profile: &pb.Profile{Name: "p", Pools: pools}, Mmfs: []*pb.MatchmakingFunctionSpec{spec}})
	if a.code != 0 || len(a.res) != len(ids)/2 {
		x.Fail("%d tickets made %d matches; %v\n%s", len(ids), len(a.res), a.code, b.log())
	}
	used := map[string]bool{}
	for _, r := range a.res {
		tix := 0
		for _, ro := range r.(*pb.StreamedMmfResponse).GetMatch().GetRosters() {
			for _, t := range ro.GetTickets() {
				tix++
				w := sent[t.GetId()]
				if used[t.GetId()] || w == nil {
					x.Fail("ticket %q is in two matches, or was never created", t.GetId())
				}
				used[t.GetId()] = true
				if !proto.Equal(&pb.Ticket_FilterableData{Tags: t.GetAttributes().GetTags(), StringArgs: t.GetAttributes().GetStringArgs()}, w.GetAttributes()) {
					x.Fail("ticket %q arrived as %v, created as %v", t.GetId(), cut(t.String()), cut(w.String()))
				}
			}
		}
		if tix != 2 {
			x.Fail("a match of %d tickets", tix)
		}
	}
	var left []string
	for _, id := range ids {
		if !used[id] {
			left = append(left, id)
		}
	}
	b.sees(left, "after the matches")
}

// served: ports of the function program x numbers of tickets x ways of calling.
func served(x *vrt.X) {
	ports := []*string{nil, &[]string{"8081"}[0], &[]string{"9099"}[0], &[]string{"port"}[0], &[]string{""}[0]}
	mp, addr := mmfProgram(x, ports[x.Choose(len(ports), "PORT")])
	defer mp.stop()
	b := startBoth(x, nil)
	defer b.stop()
	for how := 0; how < 2; how++ {
		for n := 0; n <= 5; n++ {
			var l []*pb.Ticket
			for i := 0; i < n; i++ {
				l = append(l, &pb.Ticket{Attributes: &pb.Ticket_FilterableData{Tags: []string{fmt.Sprint("t", i)}}})
			}
			pools := map[string]*pb.Pool{"all": {Name: "all"}}
			if n%2 == 1 {
				pools["again"] = &pb.Pool{Name: "again"}
			}
			together(x, b, addr, how, l, pools)
			// (what is left over takes no part in the next round)
			b.rest()
		}
	}
	x.Outcome("%s", addr)
}

// rest deactivates what is still active.
func (b *both) rest() {
	f := &seer{}
	spec, stop := serveFunction(f)
	defer stop()
	b.call(0, &pb.MmfRequest{Profile: &pb.Profile{Name: "p", Pools: map[string]*pb.Pool{"all": {Name: "all"}}}, Mmfs: []*pb.MatchmakingFunctionSpec{spec}})
	if len(f.seen) > 0 {
		b.call(0, &pb.DeactivateTicketsRequest{TicketIds: f.seen})
		b.sees(nil, "after deactivation")
	}
}

// masses26: requests of many messages.
func masses26(x *vrt.X) {
	size := x.Choose(3, "12 tickets of 900 KB, 101 of 100 KB, 1001 of 10 KB")
	how := x.Choose(2, "gRPC, HTTP")
	n, kb := []int{12, 101, 1001}[size], []int{900, 100, 10}[size]
	mp, addr := mmfProgram(x, nil)
	defer mp.stop()
	b := startBoth(x, nil)
	defer b.stop()
	var l []*pb.Ticket
	for i := 0; i < n; i++ {
		l = append(l, &pb.Ticket{Attributes: &pb.Ticket_FilterableData{Tags: []string{fmt.Sprint("half", i%2), strings.Repeat("x", kb<<10)}}})
	}
	pools := map[string]*pb.Pool{}
	for _, p := range [][]string{{"all"}, {"0", "1"}, {"all", "0", "1"}}[x.Choose(3, "pools")] {
		pools[p] = &pb.Pool{Name: p}
		if p != "all" {
			pools[p].TagPresentFilters = []*pb.Pool_TagPresentFilter{{Tag: "half" + p}}
		}
	}
	together(x, b, addr, how, l, pools)
	x.Outcome("%d %d", size, how)
}

func init() {
	reg := func(name, doc string, shards int, body func(*vrt.X)) {
		vrt.Register(vrt.Scenario{Prop: "C26", Name: name, Doc: doc, Shards: shards, TShards: shards, MaxTime: 900 * time.Second, Body: body})
	}
	reg("served", "the function program on 5 values of PORT, each with 0 to 5 tickets created, activated and matched over gRPC and HTTP", 5, served)
	reg("masses", "the same with 12 tickets of 900 KB, 101 of 100 KB and 1001 of 10 KB in 3 sets of pools", 6, masses26)
	for k, doc := range []string{"at rest", "with a function running (gRPC)", "with a function running (HTTP)", "with assignments watched (gRPC)", "with assignments watched (HTTP)", "with updates that Redis does not answer (gRPC)", "the same (HTTP)", "with all of these"} {
		reg(fmt.Sprintf("stop%d", k), "SIGINT and SIGTERM "+doc+", 2 storages", 1, stopping(k))
	}
	for _, s := range endings26 {
		reg(fmt.Sprintf("restart.%d", s), fmt.Sprintf("om-core ends by signal %d (%v) after every call of a life of 3 tickets and starts again on the same Redis", s, s), 1, restartsOf(s))
		for n := 1; n <= updates26; n++ {
			reg(fmt.Sprintf("crash.%d.%d", s, n), fmt.Sprintf("signal %d (%v) before update %d of that life is applied, before it is answered, and after", s, s, n), 1, crashPoints(s, n))
		}
	}
}
