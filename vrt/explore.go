package vrt

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync/atomic"
	"syscall"
	"testing"
	"time"
)

// Scenario is one closed system to explore.
type Scenario struct {
	Prop         string
	Name         string
	Doc          string
	Quick        int // deviation bound of the quick tier
	Thorough     int // deviation bound of the thorough tier
	Stall        time.Duration
	MaxSteps     int
	MaxTime      time.Duration
	Races        bool // detect concurrent map accesses
	NoCache      bool // explore without state caching
	Shards       int  // work split in the quick tier
	TShards      int  // work split in the thorough tier
	OnlyThorough bool
	OnlyQuick    bool
	Body         func(x *X)
}

var scenarios = map[string]*Scenario{}

// Register adds a scenario.
func Register(sc Scenario) {
	if sc.Shards == 0 {
		sc.Shards = 1
	}
	if sc.TShards == 0 {
		sc.TShards = 8
	}
	id := sc.Prop + "/" + sc.Name
	if scenarios[id] != nil {
		panic("duplicate scenario " + id)
	}
	c := sc
	scenarios[id] = &c
}

// Job is what a worker process is asked to do.
type Job struct {
	List     bool
	ID       string // scenario id
	Bound    int
	MinBound int
	Shard    int
	NShards  int
	Seconds  float64 // stop after this long
	Out      string
	Replay   []int
	DoReplay bool
	Repeat   int
	NoCache  bool
}

// Info describes a scenario to the orchestrator.
type Info struct {
	ID, Prop, Name, Doc              string
	Quick, Thorough, Shards, TShards int
	OnlyThorough, OnlyQuick          bool
}

// Failure is one violation found.
type Failure struct {
	Key     string
	Msg     string
	Choices []int
	Bound   int
	Trace   []string
}

// JobResult is what a worker reports.
type JobResult struct {
	ID         string
	Infos      []Info
	Executions int64
	Pruned     int64
	Steps      int64
	States     int64
	Cases      int64
	Completed  int // highest completed bound, -1 none
	Exhaustive bool
	Cut        string
	Outcomes   map[string]int
	Diverged   []string
	Failures   []Failure
	Known      []Failure
	Samples    []string
	Wall       float64
	MaxDepth   int
	EndReasons map[string]int
}

var beat atomic.Int64
var beatChoices atomic.Value

func heartbeat() { beat.Store(time.Now().UnixNano()) }

var caseCount int64

// Count adds n cases that a scenario evaluated inside one execution.
func (x *X) Count(n int) { caseCount += int64(n) }

// Main runs the job described by $VERIF_JOB; call it from the only test.
func Main(t *testing.T) {
	path := os.Getenv("VERIF_JOB")
	if path == "" {
		t.Skip("no job")
	}
	b, err := os.ReadFile(path)
	if err != nil {
		t.Fatal(err)
	}
	var job Job
	if err := json.Unmarshal(b, &job); err != nil {
		t.Fatal(err)
	}
	if null, err := os.OpenFile("/dev/null", os.O_WRONLY, 0); err == nil && os.Getenv("VERIF_NOISY") == "" {
		os.Stdout = null
	}
	res := &JobResult{ID: job.ID, Completed: -1, Outcomes: map[string]int{}, EndReasons: map[string]int{}}
	if job.List {
		for id, sc := range scenarios {
			res.Infos = append(res.Infos, Info{ID: id, Prop: sc.Prop, Name: sc.Name, Doc: sc.Doc, Quick: sc.Quick, Thorough: sc.Thorough, Shards: sc.Shards, TShards: sc.TShards, OnlyThorough: sc.OnlyThorough, OnlyQuick: sc.OnlyQuick})
		}
		sort.Slice(res.Infos, func(i, j int) bool { return res.Infos[i].ID < res.Infos[j].ID })
		save(job.Out, res)
		return
	}
	sc := scenarios[job.ID]
	if sc == nil {
		t.Fatalf("no scenario %q", job.ID)
	}
	runtime.GOMAXPROCS(1)
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(2 << 30) // eight workers share the machine
	vcOn = sc.Races
	go watchdog(job, res)
	if job.DoReplay {
		replay(sc, job, res)
	} else {
		explore(sc, job, res)
	}
	save(job.Out, res)
}

func save(path string, res *JobResult) {
	b, err := json.Marshal(res)
	if err != nil {
		panic(err)
	}
	if err := os.WriteFile(path+".tmp", b, 0o644); err != nil {
		panic(err)
	}
	if err := os.Rename(path+".tmp", path); err != nil {
		panic(err)
	}
}

// watchdog ends the process when one execution makes no progress in real time:
// some goroutine is stuck in code without scheduling points.
func watchdog(job Job, res *JobResult) {
	heartbeat()
	last, cpu0 := int64(0), time.Duration(0)
	for {
		time.Sleep(time.Second)
		// processor time, so that a busy or paused machine raises no alarm
		if b := beat.Load(); b != last {
			last, cpu0 = b, cpuTime()
		}
		if cpuTime()-cpu0 < 60*time.Second && time.Now().UnixNano()-last < 600e9 {
			continue
		}
		buf := make([]byte, 1<<16)
		n := runtime.Stack(buf, true)
		r := &JobResult{ID: job.ID, Completed: -1, Outcomes: map[string]int{}, Cut: "stuck"}
		ch, _ := beatChoices.Load().([]int)
		r.Failures = append(r.Failures, Failure{Msg: "no progress: one execution ran for more than 60 s of processor time (endless loop without communication)\n" + firstLines(string(buf[:n]), 60), Choices: ch, Bound: job.Bound})
		r.Executions = 1
		save(job.Out, r)
		os.Exit(0)
	}
}

func cpuTime() time.Duration {
	var ru syscall.Rusage
	if err := syscall.Getrusage(syscall.RUSAGE_SELF, &ru); err != nil {
		return 0
	}
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

func firstLines(s string, n int) string {
	l := strings.SplitN(s, "\n", n+1)
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, "\n")
}

func (sc *Scenario) options() Options {
	return Options{StallMax: int64(sc.Stall), MaxSteps: sc.MaxSteps, MaxTime: int64(sc.MaxTime)}
}

func replay(sc *Scenario, job Job, res *JobResult) {
	for i := 0; i < max(1, job.Repeat); i++ {
		o := sc.options()
		o.Prefix, o.Bound, o.Tracing = job.Replay, 1<<20, i == 0
		beatChoices.Store(job.Replay)
		r := Execute(o, sc.Body)
		res.Executions++
		res.Steps += int64(r.Steps)
		if r.Diverged != "" {
			res.Diverged = append(res.Diverged, r.Diverged)
		}
		for _, f := range r.Failures {
			res.Failures = append(res.Failures, Failure{Msg: f, Choices: job.Replay, Trace: r.Trace})
			break
		}
		for _, k := range r.Known {
			key, msg, _ := strings.Cut(k, "\x00")
			res.Known = append(res.Known, Failure{Key: key, Msg: msg, Choices: job.Replay, Trace: r.Trace})
		}
		if i == 0 {
			res.Samples = r.Trace
		}
	}
}

func hash4(a, b, c, d int) uint64 {
	return mix(mix(mix(mix(17, uint64(a)), uint64(b)), uint64(c)), uint64(d))
}

func explore(sc *Scenario, job Job, res *JobResult) {
	begin := time.Now()
	deadline := begin.Add(time.Duration(job.Seconds * float64(time.Second)))
	n := max(1, job.NShards)
	knownSeen := map[string]bool{}
	caseCount = 0
	states := 0
	for bound := job.MinBound; bound <= job.Bound; bound++ {
		var visit func(uint64, int) bool
		cache := map[uint64]int8{}
		if !sc.NoCache && !job.NoCache {
			visit = func(sig uint64, remaining int) bool {
				if r, ok := cache[sig]; ok && int(r) >= remaining {
					return true
				}
				if len(cache) < 12_000_000 {
					cache[sig] = int8(min(remaining, 100))
				}
				return false
			}
		}
		env := false
		prefix := []int{}
		complete := true
		for {
			o := sc.options()
			o.Prefix, o.Bound, o.Visit = prefix, bound, visit
			beatChoices.Store(prefix)
			// Which shard does this execution belong to?
			mine := true
			if n > 1 {
				i1, k1 := firstNonDefault(prefix, 0)
				if i1 < 0 {
					mine = job.Shard == 0
				} else if i2, _ := firstNonDefault(prefix, i1+1); i2 < 0 {
					mine = hash4(i1, k1, 0, 0)%uint64(n) == uint64(job.Shard)
				}
			}
			r := Execute(o, sc.Body)
			if mine {
				res.Executions++
				res.Steps += int64(r.Steps)
				res.EndReasons[r.End]++
				if r.Pruned {
					res.Pruned++
				}
				if r.HasOut {
					if len(res.Outcomes) < 100000 {
						res.Outcomes[fmt.Sprintf("%016x", r.Outcome)]++
					}
				}
			}
			res.MaxDepth = max(res.MaxDepth, len(r.Points))
			if r.Diverged != "" {
				if len(res.Diverged) < 5 {
					res.Diverged = append(res.Diverged, fmt.Sprintf("%s prefix %v", r.Diverged, prefix))
				}
				complete = false
			}
			for _, k := range r.Known {
				key, msg, _ := strings.Cut(k, "\x00")
				if !knownSeen[key] {
					knownSeen[key] = true
					res.Known = append(res.Known, Failure{Key: key, Msg: msg, Choices: r.Choices(), Bound: bound})
				}
			}
			if len(r.Failures) > 0 {
				res.Failures = append(res.Failures, Failure{Msg: r.Failures[0], Choices: r.Choices(), Bound: bound})
				res.Cut = "violation"
				res.States = int64(states + len(cache))
				res.Cases = caseCount
				res.Wall = time.Since(begin).Seconds()
				return
			}
			if len(res.Samples) < 2 && mine && !r.Pruned {
				res.Samples = append(res.Samples, fmt.Sprintf("bound %d choices %v end %s steps %d", bound, r.Choices(), r.End, r.Steps))
			}
			for _, p := range r.Points {
				if p.env {
					env = true
				}
			}
			// Backtrack to the last point with an alternative left.
			next := -1
			for i := len(r.Points) - 1; i >= 0 && next < 0; i-- {
				p := &r.Points[i]
				for k := p.choice + 1; k < p.n; k++ {
					if !p.env && p.cost+1 > bound {
						break
					}
					if n > 1 {
						i1, k1 := -1, 0
						cnt := 0
						for j := 0; j < i; j++ {
							if r.Points[j].choice != 0 {
								if cnt == 0 {
									i1, k1 = j, r.Points[j].choice
								}
								cnt++
							}
						}
						if cnt == 1 && hash4(i1, k1, i, k)%uint64(n) != uint64(job.Shard) {
							continue
						}
					}
					next = i
					prefix = make([]int, i+1)
					for j := 0; j < i; j++ {
						prefix[j] = r.Points[j].choice
					}
					prefix[i] = k
					break
				}
			}
			if next < 0 {
				break
			}
			if time.Now().After(deadline) {
				complete = false
				res.Cut = fmt.Sprintf("time at bound %d", bound)
				break
			}
		}
		states += len(cache)
		if !complete {
			break
		}
		res.Completed = bound
		_ = env
	}
	res.States = int64(states)
	res.Cases = caseCount
	res.Exhaustive = res.Completed == job.Bound
	res.Wall = time.Since(begin).Seconds()
}

func firstNonDefault(p []int, from int) (int, int) {
	for i := from; i < len(p); i++ {
		if p[i] != 0 {
			return i, p[i]
		}
	}
	return -1, 0
}

// ExploreForTest explores body up to bound; used by the runtime's own tests.
func ExploreForTest(body func(x *X), bound int, noCache bool, stall time.Duration) *JobResult {
	res := &JobResult{Completed: -1, Outcomes: map[string]int{}, EndReasons: map[string]int{}}
	explore(&Scenario{Body: body, Stall: stall}, Job{Bound: bound, MinBound: bound, Seconds: 60, NoCache: noCache, NShards: 1}, res)
	return res
}
