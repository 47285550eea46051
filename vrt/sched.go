// Package vrt is a controlled runtime for stateless model checking of Go code.
//
// Code rewritten by /verif/tool calls into this package for every operation on
// which goroutines can communicate: go statements, channel operations, select,
// close, the sync, sync/atomic, time and context packages, and iteration over
// maps.  Exactly one instrumented goroutine runs at a time.  At each scheduling
// point the running goroutine publishes its pending operation and the explorer
// decides who continues; time is virtual and only moves when a timer is fired.
package vrt

import (
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"time"
)

// Obj carries the happens-before fingerprint of one shared object.
type Obj struct {
	hw    uint64 // fingerprint of the last write
	hr    uint64 // commutative sum of the reads since
	epoch uint64
	vc    []uint32
	noVC  bool
}

func mix(a, b uint64) uint64 {
	x := a*0x9E3779B97F4A7C15 ^ (b + 0x7F4A7C159E3779B9 + (a << 6) + (a >> 2))
	x ^= x >> 32
	x *= 0xD6E8FEB86659FD93
	x ^= x >> 29
	x *= 0xD6E8FEB86659FD93
	x ^= x >> 32
	return x
}

// HashString folds a label or value into a fingerprint.
func HashString(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h
}

// pend is a pending operation.
type pend struct {
	what       string
	ready      func() bool // condition of a non-channel operation
	cases      []Case      // channel operations
	hasDefault bool
	blocked    bool // never ready by itself
	done       bool // completed by a partner or a timer
	idx        int
	seq        uint64 // arrival order
}

// G is one instrumented goroutine.
type G struct {
	path   []int32
	canon  uint64
	h      uint64
	nchild int32
	ntimer uint64
	wake   chan struct{}
	p      *pend
	done   bool
	name   string
	streak int
	vc     []uint32
	idx    int
}

func lessPath(a, b []int32) bool {
	for i := 0; i < len(a) && i < len(b); i++ {
		if a[i] != b[i] {
			return a[i] < b[i]
		}
	}
	return len(a) < len(b)
}

func pathString(p []int32) string {
	s := make([]string, len(p))
	for i, x := range p {
		s[i] = fmt.Sprint(x)
	}
	return strings.Join(s, ".")
}

type point struct {
	n      int  // number of options
	choice int  // chosen option
	env    bool // environment choice (all alternatives are free)
	cost   int  // deviations used before this point
}

// Result describes one finished execution.
type Result struct {
	Points   []point
	Pruned   bool
	Diverged string
	Failures []string
	Steps    int
	Trace    []string
	Outcome  uint64
	HasOut   bool
	Known    []string
	End      string
}

// Choices returns the choice list of the execution.
func (r *Result) Choices() []int {
	out := make([]int, len(r.Points))
	for i, p := range r.Points {
		out[i] = p.choice
	}
	for len(out) > 0 && out[len(out)-1] == 0 {
		out = out[:len(out)-1]
	}
	return out
}

type sched struct {
	gs       []*G // every goroutine, sorted by path
	byIdx    []*G
	live     int
	cur      *G
	now      int64
	timers   timerHeap
	prefix   []int
	points   []point
	cost     int
	bound    int
	stallMax int64
	maxSteps int
	maxTime  int64

	instant      int64
	instantSteps int
	steps        int
	seq          uint64
	aborted      bool
	abortMsg     string
	pruned       bool
	diverged     string
	failures     []string
	known        []string
	trace        []string
	tracing      bool
	chans        map[uintptr]*channel
	maps         map[uintptr]*maprec
	epoch        uint64
	finished     chan struct{}
	root         *G
	rootDone     bool
	visit        func(sig uint64, remaining int) bool // returns true to prune
	outcome      uint64
	hasOut       bool
	exitAck      chan struct{}
	quiet        int
	noSched      int // scheduling deviations off, environment ones on
	frozen       int
	desc         bool // maps are iterated in descending order
	log          Obj
	lastTick     time.Time
	ended        bool
}

var s *sched
var epochCounter uint64
var debugPrune = os.Getenv("VERIF_DEBUGPRUNE") != ""
var resets []func()

// RegisterReset registers a function that puts a package's variables back to
// their initial values; called before every execution.
func RegisterReset(f func()) { resets = append(resets, f) }

func obj(o *Obj) *Obj {
	if s != nil && o.epoch != s.epoch {
		*o = Obj{epoch: s.epoch, noVC: o.noVC}
	}
	return o
}

func (g *G) read(o *Obj, code uint64) {
	o = obj(o)
	g.h = mix(mix(g.h, o.hw), code)
	o.hr += mix(g.h, 0x5bd1)
	if vcOn && !o.noVC {
		vcJoin(&g.vc, o.vc)
	}
}

func (g *G) write(o *Obj, code uint64) {
	o = obj(o)
	g.h = mix(mix(mix(g.h, o.hw), o.hr), code)
	o.hw = g.h
	o.hr = 0
	if vcOn && !o.noVC {
		vcJoin(&g.vc, o.vc)
		vcJoin(&o.vc, g.vc)
		g.tick()
	}
}

// commute is a blind commutative update (WaitGroup.Done and friends).
func (g *G) commute(o *Obj, code uint64) {
	o = obj(o)
	g.h = mix(g.h, code)
	o.hr += mix(g.h, 0x77)
	if vcOn && !o.noVC {
		vcJoin(&o.vc, g.vc)
		g.tick()
	}
}

const maxTrace = 400_000

func (x *sched) tracef(format string, args ...any) {
	if x.tracing {
		who := "env"
		if x.cur != nil {
			who = x.cur.label()
		}
		if len(x.trace) == maxTrace {
			x.trace = append(x.trace[:maxTrace/4], x.trace[maxTrace-maxTrace/4:]...)
			x.trace = append(x.trace, "(lines left out above)")
		}
		x.trace = append(x.trace, fmt.Sprintf("t=%.3fs %s: %s", float64(x.now-startTime)/1e9, who, fmt.Sprintf(format, args...)))
	}
}

func (g *G) label() string {
	if g.name != "" {
		return "G" + pathString(g.path) + "(" + g.name + ")"
	}
	return "G" + pathString(g.path)
}

// Active reports whether an execution is in progress.
func Active() bool { return s != nil && !s.aborted }

// dead is true outside executions and while one is wound down.
func dead() bool { return s == nil || s.aborted }

func bail() {
	if s != nil && s.aborted {
		runtime.Goexit()
	}
}

func (x *sched) gReady(g *G) bool {
	if g.done {
		return false
	}
	p := g.p
	if p == nil || p.done || p.hasDefault {
		return true
	}
	if p.blocked {
		return false
	}
	if p.cases != nil {
		for _, c := range p.cases {
			if c.ready(g) {
				return true
			}
		}
		return false
	}
	if p.ready != nil {
		return p.ready()
	}
	return true
}

const fairStreak = 3000

type option struct {
	g    *G
	fire bool
}

// pick decides who runs next.  It returns nil when the execution must stop.
func (x *sched) pick() *G {
	for {
		if x.aborted {
			return nil
		}
		x.steps++
		if x.now != x.instant {
			x.instant, x.instantSteps = x.now, 0
		}
		if x.instantSteps++; x.instantSteps > x.maxSteps {
			x.fail("no progress: more than %d scheduling steps without time passing (livelock or unbounded loop)\n%s", x.maxSteps, x.dump())
			x.abort("steps")
			return nil
		}
		curReady := x.cur != nil && x.gReady(x.cur)
		if curReady && (x.frozen > 0 || x.quiet+x.noSched > 0 && x.cur.streak < fairStreak) {
			return x.cur
		}
		var optbuf [16]option
		opts := optbuf[:0]
		start := -1
		if x.cur != nil {
			start = sort.Search(len(x.gs), func(i int) bool { return !lessPath(x.gs[i].path, x.cur.path) })
			if curReady && x.cur.streak < fairStreak {
				opts = append(opts, option{g: x.cur})
			}
		}
		for k := 1; k <= len(x.gs); k++ {
			g := x.gs[(start+k+len(x.gs))%len(x.gs)]
			if g.done || g == x.cur {
				continue
			}
			if x.gReady(g) {
				opts = append(opts, option{g: g})
				if x.quiet+x.noSched > 0 {
					break
				}
			}
		}
		if curReady && x.cur.streak >= fairStreak {
			x.cur.streak = 0
			opts = append(opts, option{g: x.cur})
		}
		if t := x.nextTimer(); t != nil {
			if len(opts) == 0 {
				opts = append(opts, option{fire: true})
			} else if x.quiet+x.noSched == 0 && x.stallMax > 0 && t.when-x.now <= x.stallMax && x.relevant(t) {
				opts = append(opts, option{fire: true})
			}
		}
		if len(opts) == 0 {
			x.fail("deadlock: no goroutine can run and no timer is pending\n%s", x.dump())
			x.abort("deadlock")
			return nil
		}
		k := 0
		if len(opts) > 1 && x.quiet+x.noSched == 0 {
			k = x.choosePoint(len(opts), false)
			if x.aborted {
				return nil
			}
		}
		o := opts[k]
		if o.fire {
			x.fireNext()
			if x.now > x.maxTime {
				x.fail("no progress: %ds of virtual time passed and the scenario still waits\n%s", (x.maxTime-startTime)/1e9, x.dump())
				x.abort("time")
				return nil
			}
			continue
		}
		return o.g
	}
}

func (x *sched) sig() uint64 {
	var sum uint64
	type w struct {
		seq uint64
		g   *G
	}
	var wbuf [16]w
	ws := wbuf[:0]
	for _, g := range x.gs {
		d := uint64(1)
		if g.done {
			d = 2
		}
		sum += mix(mix(g.canon, g.h), d)
		if !g.done && g.p != nil && len(g.p.cases) > 0 && !g.p.done {
			ws = append(ws, w{g.p.seq, g})
		}
	}
	// order of waiters on channels
	if len(ws) > 1 {
		sort.Slice(ws, func(i, j int) bool { return ws[i].seq < ws[j].seq })
		last := map[*channel]uint64{}
		for _, e := range ws {
			for _, c := range e.g.p.cases {
				ch := c.chanOf()
				if ch == nil {
					continue
				}
				if k := last[ch]; k != 0 {
					sum += mix(mix(k, e.g.canon), 0x3c)
				}
				last[ch] = e.g.canon + 1
			}
		}
	}
	sum = mix(sum, uint64(x.now))
	if x.cur != nil {
		sum = mix(sum, x.cur.canon)
	}
	return sum
}

// choosePoint records a choice among n options and returns the chosen one.
func (x *sched) choosePoint(n int, env bool) int {
	i := len(x.points)
	pt := point{n: n, env: env, cost: x.cost}
	k := 0
	if i < len(x.prefix) {
		k = x.prefix[i]
		if k >= n {
			x.diverged = fmt.Sprintf("replay divergence at point %d: choice %d of %d options", i, k, n)
			x.abort("diverged")
			return 0
		}
	} else if x.visit != nil {
		sg := x.sig()
		if env {
			sg = mix(sg, 0xe17)
		}
		if x.visit(sg, x.bound-x.cost) {
			x.pruned = true
			x.abort("pruned")
			if debugPrune {
				x.tracef("pruned here\n%s", x.dump())
				for _, l := range x.trace {
					fmt.Fprintln(os.Stderr, l)
				}
				os.Exit(3)
			}
			return 0
		}
	}
	pt.choice = k
	if !env && k > 0 {
		x.cost++
	}
	x.points = append(x.points, pt)
	return k
}

func (x *sched) fail(format string, args ...any) {
	msg := fmt.Sprintf(format, args...)
	x.failures = append(x.failures, msg)
	x.tracef("FAILURE: %s", msg)
}

func (x *sched) abort(why string) {
	if !x.aborted {
		x.aborted = true
		x.abortMsg = why
	}
}

func (x *sched) dump() string {
	var b strings.Builder
	for _, g := range x.gs {
		if g.done {
			continue
		}
		w := "running"
		if g.p != nil {
			w = g.p.what
		}
		fmt.Fprintf(&b, "  %s: %s\n", g.label(), w)
	}
	return b.String()
}

// yield publishes p as the pending operation of the running goroutine and
// returns when the explorer lets it proceed.
func (x *sched) yield(p *pend) {
	g := x.cur
	x.seq++
	p.seq = x.seq
	g.p = p
	n := x.pick()
	if n == nil {
		runtime.Goexit()
	}
	if n != g {
		n.streak = 0
		g.streak = 0
		x.cur = n
		n.wake <- struct{}{}
		<-g.wake
		if x.aborted {
			runtime.Goexit()
		}
	} else {
		g.streak++
	}
	g.p = nil
	g.h = mix(g.h, 0x57e9)
}

func (x *sched) insert(g *G) {
	i := sort.Search(len(x.gs), func(i int) bool { return lessPath(g.path, x.gs[i].path) })
	x.gs = append(x.gs, nil)
	copy(x.gs[i+1:], x.gs[i:])
	x.gs[i] = g
	g.idx = len(x.byIdx)
	x.byIdx = append(x.byIdx, g)
}

// Go starts f as a new instrumented goroutine.
func Go(f func()) { GoNamed("", f) }

// GoNamed is Go with a name for traces.
func GoNamed(name string, f func()) {
	if dead() {
		bail()
		if s == nil {
			go f()
		}
		return
	}
	x := s
	if x.cur == nil { // a timer
		x.spawn(x.root, name, f)
		return
	}
	x.tracef("go %s", name)
	x.spawn(x.cur, name, f)
	x.yield(&pend{what: "go"})
}

func (x *sched) spawn(parent *G, name string, f func()) *G {
	g := &G{wake: make(chan struct{}), name: name}
	if parent != nil {
		g.reserve(parent)
	} else {
		g.canon = 1
		g.path = []int32{0}
	}
	x.launch(g, parent, f)
	return g
}

// reserve gives g its place among parent's children.
func (g *G) reserve(parent *G) {
	g.path = append(append(make([]int32, 0, len(parent.path)+1), parent.path...), parent.nchild)
	g.canon = mix(mix(parent.canon, uint64(parent.nchild)), 0xabcd)
	parent.nchild++
	parent.h = mix(parent.h, 0x60)
	g.h = mix(parent.h, 0x61)
}

func (x *sched) launch(g, parent *G, f func()) {
	x.insert(g)
	x.live++
	g.vcInit(parent)
	g.p = &pend{what: "start"}
	go func() {
		<-g.wake
		if x.aborted {
			g.done = true
			x.exitAck <- struct{}{}
			return
		}
		normal := false
		defer func() {
			// Reached on normal return, panic and Goexit.
			r := recover()
			if r != nil && !x.aborted {
				x.fail("panic: %v\n%s", r, trimStack(debug.Stack()))
				x.abort("panic")
			} else if !normal && r == nil && !x.aborted {
				normal = true // plain Goexit in the code under test
			}
			g.done = true
			x.live--
			g.h = mix(g.h, 0xdead)
			if x.aborted && x.ended {
				x.exitAck <- struct{}{}
				return
			}
			if !x.aborted && g == x.root {
				x.rootDone = true
				x.abort("end")
			}
			var n *G
			if !x.aborted {
				n = x.pick()
			}
			if n == nil {
				// The execution is over; the driver winds the rest down.
				x.ended = true
				close(x.finished)
				return
			}
			n.streak = 0
			x.cur = n
			n.wake <- struct{}{}
		}()
		g.p = nil
		g.h = mix(g.h, 0x57e9)
		f()
		normal = true
	}()
}

// windDown makes every goroutine that is still blocked exit, one at a time.
func (x *sched) windDown() {
	for i := 0; i < len(x.byIdx); i++ {
		g := x.byIdx[i]
		if !g.done {
			g.wake <- struct{}{}
			<-x.exitAck
		}
	}
}

func trimStack(b []byte) string {
	lines := strings.Split(string(b), "\n")
	var out []string
	for i := 1; i+1 < len(lines); i += 2 {
		l := lines[i]
		if strings.HasPrefix(l, "runtime/debug") || strings.HasPrefix(l, "verif.local/vrt.(*sched)") || strings.HasPrefix(l, "panic(") {
			continue
		}
		out = append(out, l, lines[i+1])
		if len(out) > 24 {
			break
		}
	}
	return strings.Join(out, "\n")
}

const startTime int64 = 1_700_000_000 * 1e9

// Options configures one execution.
type Options struct {
	Prefix   []int
	Bound    int
	StallMax int64 // how far (ns) ahead a timer may fire while goroutines are runnable; 0 = never
	MaxSteps int
	MaxTime  int64
	Tracing  bool
	Visit    func(sig uint64, remaining int) bool
}

// Execute runs body once under the choices in opt.Prefix (choice 0 beyond it).
func Execute(opt Options, body func(x *X)) *Result {
	if opt.MaxSteps == 0 {
		opt.MaxSteps = 2_000_000
	}
	if opt.MaxTime == 0 {
		opt.MaxTime = 3600 * 1e9
	}
	epochCounter++
	x := &sched{
		prefix: opt.Prefix, bound: opt.Bound, stallMax: opt.StallMax,
		maxSteps: opt.MaxSteps, maxTime: startTime + opt.MaxTime,
		tracing: opt.Tracing || debugPrune, visit: opt.Visit, epoch: epochCounter,
		chans: map[uintptr]*channel{}, maps: map[uintptr]*maprec{},
		finished: make(chan struct{}), exitAck: make(chan struct{}),
		now: startTime,
		log: Obj{noVC: true},
	}
	s = x
	heartbeat()
	for _, f := range resets {
		f()
	}
	h := &X{s: x}
	x.root = x.spawn(nil, "main", func() { body(h) })
	x.cur = x.root
	x.root.wake <- struct{}{}
	<-x.finished
	x.windDown()
	s = nil
	return &Result{Points: x.points, Pruned: x.pruned, Diverged: x.diverged, Failures: x.failures, Known: x.known,
		Steps: x.steps, Trace: x.trace, Outcome: x.outcome, HasOut: x.hasOut, End: x.abortMsg}
}

// X is the handle a scenario body uses.
type X struct{ s *sched }

// Fail records a property violation and ends the execution.
func (x *X) Fail(format string, args ...any) { Violation(format, args...) }

// Known reports a violation that the known-findings file may list under key;
// the execution continues.
func (x *X) Known(key, format string, args ...any) {
	if x.s.aborted {
		return
	}
	x.s.known = append(x.s.known, key+"\x00"+fmt.Sprintf(format, args...))
}

// Violation records a property violation and ends the execution.
func Violation(format string, args ...any) {
	if s == nil {
		panic(fmt.Sprintf(format, args...))
	}
	if s.aborted {
		runtime.Goexit()
	}
	s.fail(format, args...)
	s.abort("fail")
	runtime.Goexit()
}

// Choose is an environment choice among n alternatives, explored exhaustively.
func (x *X) Choose(n int, label string) int { return Choose(n, label) }

// Choose is an environment choice among n alternatives, explored exhaustively.
func Choose(n int, label string) int {
	if dead() {
		bail()
		return 0
	}
	if n <= 1 {
		return 0
	}
	k := s.choosePoint(n, true)
	bail()
	s.cur.h = mix(mix(s.cur.h, uint64(k)), 0xc40053)
	s.tracef("choose %s = %d of %d", label, k, n)
	return k
}

// Dev is an environment deviation: option 0 is the default, others cost one
// unit of the deviation bound.
func (x *X) Dev(n int, label string) int { return Dev(n, label) }

// Dev is an environment deviation: option 0 is the default.
func Dev(n int, label string) int {
	if dead() {
		bail()
		return 0
	}
	if n <= 1 || s.quiet > 0 {
		return 0
	}
	k := s.choosePoint(n, false)
	bail()
	s.cur.h = mix(mix(s.cur.h, uint64(k)), 0xdeb1)
	if k > 0 {
		s.tracef("deviation %s = %d of %d", label, k, n)
	}
	return k
}

// Outcome folds an observed outcome into the execution's outcome hash, used to
// report how many distinct outcomes were seen.
func (x *X) Outcome(format string, args ...any) {
	x.s.outcome = mix(x.s.outcome, HashString(fmt.Sprintf(format, args...)))
	x.s.hasOut = true
}

// Logf adds a line to the trace.
func (x *X) Logf(format string, args ...any) { Logf(format, args...) }

// Logf adds a line to the trace.
func Logf(format string, args ...any) {
	if !dead() {
		s.tracef(format, args...)
	}
}

// Quiet switches scheduling deviations off (true) or on (false) from here on:
// phases that only set up or look at the state follow the default schedule.
func (x *X) Quiet(q bool) {
	if q {
		x.s.quiet++
	} else if x.s.quiet > 0 {
		x.s.quiet--
	}
}

// FaultsOnly switches scheduling deviations off (true) or on (false) while
// environment deviations stay on.
func (x *X) FaultsOnly(q bool) {
	if q {
		x.s.noSched++
	} else if x.s.noSched > 0 {
		x.s.noSched--
	}
}

// Freeze keeps the calling goroutine running (as long as it does not block).
func Freeze(f func()) {
	if dead() {
		f()
		return
	}
	x := s
	x.frozen++
	defer func() { x.frozen-- }()
	f()
}

// MapsDescending makes instrumented map iteration descending.
func (x *X) MapsDescending(d bool) { x.s.desc = d }

// Live returns the labels of unfinished goroutines other than the caller.
func (x *X) Live() []string {
	var out []string
	for _, g := range x.s.gs {
		if !g.done && g != x.s.cur {
			out = append(out, g.name)
		}
	}
	return out
}

// Task is a goroutine of the scenario.
type Task struct {
	Name string
	done bool
	o    Obj
}

// Done tells whether the task's function has returned.
func (t *Task) Done() bool { return t.done }

// Go starts a scenario goroutine.
func (x *X) Go(name string, f func()) *Task {
	t := &Task{Name: name}
	GoNamed(name, func() {
		f()
		if !dead() {
			t.done = true
			s.cur.write(&t.o, 0x7a5c)
		}
	})
	return t
}

// Join waits for tasks to finish.
func (x *X) Join(ts ...*Task) {
	for _, t := range ts {
		t := t
		WaitUntil("join "+t.Name, &t.o, func() bool { return t.done })
	}
}

// JoinWithin waits for tasks to finish for at most d of virtual time.
func (x *X) JoinWithin(d time.Duration, ts ...*Task) bool {
	end := x.s.now + int64(d)
	for _, t := range ts {
		t := t
		if !WaitTimeout("join "+t.Name, &t.o, end-x.s.now, func() bool { return t.done }) {
			return false
		}
	}
	return true
}

// Sleep lets virtual time pass.
func (x *X) Sleep(d time.Duration) { Sleep(int64(d)) }

// Now is the virtual time.
func (x *X) Now() time.Time { return time.Unix(0, x.s.now) }

// Elapsed is the virtual time since the start of the execution.
func (x *X) Elapsed() time.Duration { return time.Duration(x.s.now - startTime) }

// Record makes the order of harness events part of the explored state: call it
// whenever a scenario goroutine appends to a log whose order an oracle uses.
func (x *X) Record(code string) { Record(code) }

// Record makes the order of harness events part of the explored state.
func Record(code string) {
	if !dead() {
		s.cur.write(&s.log, HashString(code))
	}
}

// WaitUntil blocks the calling goroutine until cond holds.  cond must only
// read state owned by the harness; o is the object that state belongs to.
func WaitUntil(what string, o *Obj, cond func() bool) {
	if dead() {
		bail()
		return
	}
	s.yield(&pend{what: what, ready: cond})
	if o != nil {
		s.cur.write(o, HashString(what))
	}
}

// Yield is a plain scheduling point.
func Yield() {
	if dead() {
		bail()
		return
	}
	s.yield(&pend{what: "yield"})
}

// Touch is a scheduling point that reads or writes o.
func Touch(what string, o *Obj, write bool) {
	if dead() {
		return
	}
	s.yield(&pend{what: what})
	if write {
		s.cur.write(o, HashString(what))
	} else {
		s.cur.read(o, HashString(what))
	}
	s.tracef("%s", what)
}

// TouchCommute is a scheduling point with a commutative update of o.
func TouchCommute(what string, o *Obj) {
	if dead() {
		return
	}
	s.yield(&pend{what: what})
	s.cur.commute(o, HashString(what))
	s.tracef("%s", what)
}

// TouchWhen is Touch, enabled only when ready() holds.
func TouchWhen(what string, o *Obj, ready func() bool) {
	if dead() {
		bail()
		return
	}
	s.yield(&pend{what: what, ready: ready})
	s.cur.write(o, HashString(what))
	s.tracef("%s", what)
}

// Mark records an access without a scheduling point.
func Mark(o *Obj, write bool, code uint64) {
	if dead() {
		return
	}
	if s.cur == nil { // a timer
		o = obj(o)
		o.hw = mix(mix(o.hw, o.hr), mix(uint64(s.now), code))
		o.hr = 0
		return
	}
	if write {
		s.cur.write(o, code)
	} else {
		s.cur.read(o, code)
	}
}

// MarkCommute records a commutative update without a scheduling point.
func MarkCommute(o *Obj, code uint64) {
	if dead() {
		return
	}
	s.cur.commute(o, code)
}

// Epoch identifies the current execution.
func Epoch() uint64 {
	if s == nil {
		return 0
	}
	return s.epoch
}

// Exiting is true while an execution is wound down: operations must not block
// or have effects.
func Exiting() bool { return dead() }

// Bail ends the calling goroutine if the execution is being wound down.
func Bail() { bail() }

// Fatal is what os.Exit and log.Fatal become.
func Fatal(code int) {
	if s == nil {
		os.Exit(code)
	}
	if s.aborted {
		runtime.Goexit()
	}
	s.fail("process exit with code %d\n%s", code, trimStack(debug.Stack()))
	s.abort("exit")
	runtime.Goexit()
}
