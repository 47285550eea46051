// Command tool builds the instrumented code and decides properties with it.
//
//	tool check ID        decide a property (tier from $VERIF_TIER)
//	tool replay FILE     re-run a recorded execution, printing its trace
//	tool list            list all scenarios
//	tool build TARGET    build a harness only
package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

// These mirror verif.local/vrt.
type job struct {
	List     bool
	ID       string
	Bound    int
	MinBound int
	Shard    int
	NShards  int
	Seconds  float64
	Out      string
	Replay   []int
	DoReplay bool
	Repeat   int
	NoCache  bool
}

type info struct {
	ID, Prop, Name, Doc              string
	Quick, Thorough, Shards, TShards int
	OnlyThorough, OnlyQuick          bool
}

type failure struct {
	Key     string
	Msg     string
	Choices []int
	Bound   int
	Trace   []string
}

type result struct {
	ID         string
	Infos      []info
	Executions int64
	Pruned     int64
	Steps      int64
	States     int64
	Cases      int64
	Completed  int
	Exhaustive bool
	Cut        string
	Outcomes   map[string]int
	Diverged   []string
	Failures   []failure
	Known      []failure
	Samples    []string
	Wall       float64
	MaxDepth   int
	EndReasons map[string]int
}

var targetOf = map[string][]string{}

func targetsFor(prop string) []string {
	switch prop {
	case "C10", "C19", "C20", "C25":
		return []string{"mm"}
	case "C21", "C24":
		return []string{"core", "sys"}
	case "C26":
		return []string{"sys"}
	case "C22":
		return []string{"sys", "syscore"}
	}
	return []string{"core"}
}

func fatal(format string, args ...any) {
	fmt.Fprintf(os.Stderr, format+"\n", args...)
	cleanup()
	os.Exit(2)
}

func cleanup() {
	if scratch != "" && os.Getenv("VERIF_KEEP") == "" {
		os.RemoveAll(scratch)
	}
}

var jobSeq int
var jobMu sync.Mutex

var oneNet sync.Mutex

var ownNet = sync.OnceValue(func() bool {
	return exec.Command("unshare", "-Urn", "true").Run() == nil
})

// errStopped: the job was ended because another has found a violation.
var errStopped = errors.New("stopped")

func runJob(bin string, j job, limit time.Duration, stopped <-chan struct{}) (*result, error) {
	jobMu.Lock()
	jobSeq++
	n := jobSeq
	jobMu.Unlock()
	jf := filepath.Join(scratch, fmt.Sprintf("job%d.json", n))
	j.Out = filepath.Join(scratch, fmt.Sprintf("out%d.json", n))
	b, _ := json.Marshal(j)
	if err := os.WriteFile(jf, b, 0o644); err != nil {
		return nil, err
	}
	wd := filepath.Join(scratch, fmt.Sprintf("wd%d", n))
	os.MkdirAll(wd, 0o755)
	args := []string{bin, "-test.run", "^TestVerif$", "-test.timeout", "0"}
	if strings.Contains(filepath.Base(bin), "sys") {
		// The real program listens on fixed ports: every worker gets a
		// network of its own, or they run one after another.
		if ownNet() {
			args = append([]string{"unshare", "-Urn"}, args...)
		} else {
			oneNet.Lock()
			defer oneNet.Unlock()
		}
	}
	c := exec.Command(args[0], args[1:]...)
	c.Dir = wd
	c.Env = append(goEnv(), "VERIF_JOB="+jf, "VERIF_MMF="+filepath.Join(scratch, "mmf.bin"))
	c.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	var ob strings.Builder
	c.Stdout, c.Stderr = &ob, &ob
	if err := c.Start(); err != nil {
		return nil, err
	}
	done := make(chan error, 1)
	go func() { done <- c.Wait() }()
	var err error
	grace := make(chan struct{})
	if stopped != nil {
		go func() {
			<-stopped
			time.Sleep(20 * time.Second)
			close(grace)
		}()
	}
	select {
	case err = <-done:
	case <-grace:
		c.Process.Kill()
		<-done
		return nil, errStopped
	case <-time.After(limit):
		c.Process.Kill()
		<-done
		err = fmt.Errorf("job exceeded %v", limit)
	}
	rb, rerr := os.ReadFile(j.Out)
	if rerr != nil {
		return nil, fmt.Errorf("job %s: %v\n%s", j.ID, err, tail(ob.String(), 60))
	}
	var r result
	if err := json.Unmarshal(rb, &r); err != nil {
		return nil, err
	}
	return &r, nil
}

type known struct{ prop, key, what string }

func loadKnown() []known {
	b, err := os.ReadFile(filepath.Join(verif, "known_findings.txt"))
	if err != nil {
		return nil
	}
	var out []known
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		rest, ok := strings.CutPrefix(l, "open: property=")
		if !ok {
			continue
		}
		f := strings.SplitN(rest, " ", 3)
		if len(f) < 3 || !strings.HasPrefix(f[1], "key=") {
			continue
		}
		for _, k := range strings.Split(strings.TrimPrefix(f[1], "key="), ",") {
			out = append(out, known{f[0], k, f[2]})
		}
	}
	return out
}

func workers() int {
	if v, err := strconv.Atoi(os.Getenv("VERIF_WORKERS")); err == nil && v > 0 {
		return v
	}
	return 8
}

type unit struct {
	bin string
	inf info
	j   job
}

func check(prop string) int {
	begin := time.Now()
	tier := envOr("VERIF_TIER", "quick")
	seed, _ := strconv.Atoi(envOr("VERIF_SEED", "1"))
	if tier != "thorough" {
		tier = "quick"
	}
	if err := prepare(); err != nil {
		fatal("prepare: %v", err)
	}
	if prop == "C26" {
		if err := buildMMF(); err != nil {
			fatal("build: %v", err)
		}
	}
	var units []unit
	bins := map[string]string{}
	for _, tn := range targetsFor(prop) {
		bin, err := build(targets[tn])
		if err != nil {
			fatal("build: %v", err)
		}
		bins[tn] = bin
		r, err := runJob(bin, job{List: true}, time.Minute, nil)
		if err != nil {
			fatal("list: %v", err)
		}
		only := os.Getenv("VERIF_ONLY")
		for _, in := range r.Infos {
			if in.Prop != prop || tier == "quick" && in.OnlyThorough || tier == "thorough" && in.OnlyQuick {
				continue
			}
			if only != "" && !strings.Contains(in.Name, only) {
				continue
			}
			bound, sh := in.Quick, in.Shards
			if tier == "thorough" {
				bound, sh = in.Thorough, in.TShards
			}
			if v, err := strconv.Atoi(os.Getenv("VERIF_BOUND")); err == nil {
				bound = v
			}
			if v, err := strconv.Atoi(os.Getenv("VERIF_SHARDS")); err == nil {
				sh = v
			}
			for i := 0; i < sh; i++ {
				units = append(units, unit{bin, in, job{ID: in.ID, Bound: bound, Shard: i, NShards: sh}})
			}
		}
	}
	if len(units) == 0 {
		fatal("no scenarios for %s", prop)
	}
	buildWall := time.Since(begin).Seconds()
	// Budget.
	total := 360.0
	if tier == "thorough" {
		total = 3600
	}
	if v, err := strconv.ParseFloat(os.Getenv("VERIF_BUDGET"), 64); err == nil {
		total = v
	}
	if tier == "quick" && total > 780-buildWall {
		total = max(60, 780-buildWall)
	}
	w := workers()
	exploreStart := time.Now()
	results := make([]*result, len(units))
	errs := make([]error, len(units))
	var mu sync.Mutex
	next := 0
	var stop bool
	stopped := make(chan struct{})
	var wg sync.WaitGroup
	for i := 0; i < w; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				mu.Lock()
				if stop || next >= len(units) {
					mu.Unlock()
					return
				}
				k := next
				next++
				left := len(units) - k
				mu.Unlock()
				remain := total - time.Since(exploreStart).Seconds()
				// fair share of what is left, at least a few seconds
				rounds := float64((left + w - 1) / w)
				secs := remain
				if rounds > 1 {
					secs = remain / rounds * 2
				}
				if secs < 3 {
					secs = 3
				}
				u := units[k]
				u.j.Seconds = secs
				r, err := runJob(u.bin, u.j, time.Duration((secs+120)*1e9), stopped)
				results[k], errs[k] = r, err
				if err == nil && len(r.Failures) > 0 {
					mu.Lock()
					if !stop {
						close(stopped)
					}
					stop = true
					mu.Unlock()
				}
			}
		}()
	}
	wg.Wait()

	kn := loadKnown()
	isKnown := func(key string) (string, bool) {
		for _, k := range kn {
			if k.prop == prop && k.key == key {
				return k.what, true
			}
		}
		return "", false
	}
	cov := map[string]any{}
	var states, trans, execs, pruned, cases int64
	outcomes := map[string]bool{}
	exhaustive := true
	samples := []any{}
	var bounds []any
	var notes []string
	var fails []struct {
		u unit
		f failure
	}
	knownHit := map[string]bool{}
	type agg struct {
		ID, Doc            string
		Bound, Completed   int
		Executions, Pruned int64
		States, Cases      int64
		Outcomes           int
		Exhaustive         bool
		MaxDepth           int
		Wall               float64
		outs               map[string]bool
		ends               map[string]int
	}
	per := map[string]*agg{}
	for i, r := range results {
		u := units[i]
		a := per[u.inf.ID]
		if a == nil {
			a = &agg{ID: u.inf.ID, Doc: u.inf.Doc, Bound: u.j.Bound, Completed: 1 << 20, Exhaustive: true, outs: map[string]bool{}, ends: map[string]int{}}
			per[u.inf.ID] = a
		}
		if r == nil {
			a.Exhaustive = false
			exhaustive = false
			a.Completed = -1
			if errs[i] != nil && errs[i] != errStopped {
				fatal("worker: %v", errs[i])
			}
			continue
		}
		states += r.States
		trans += r.Steps
		execs += r.Executions - r.Pruned
		pruned += r.Pruned
		cases += r.Cases
		a.Executions += r.Executions - r.Pruned
		a.Pruned += r.Pruned
		a.States += r.States
		a.Cases += r.Cases
		a.MaxDepth = max(a.MaxDepth, r.MaxDepth)
		a.Wall += r.Wall
		a.Completed = min(a.Completed, r.Completed)
		for o := range r.Outcomes {
			outcomes[u.inf.ID+o] = true
			a.outs[o] = true
		}
		for e, n := range r.EndReasons {
			a.ends[e] += n
		}
		if !r.Exhaustive {
			a.Exhaustive = false
			exhaustive = false
		}
		if r.Cut != "" && r.Cut != "violation" {
			notes = append(notes, fmt.Sprintf("%s shard %d: cut by %s", u.inf.ID, u.j.Shard, r.Cut))
		}
		for _, d := range r.Diverged {
			notes = append(notes, u.inf.ID+": "+d)
		}
		for _, s := range r.Samples {
			if len(samples) < 12 {
				samples = append(samples, u.inf.ID+": "+s)
			}
		}
		for _, f := range r.Failures {
			fails = append(fails, struct {
				u unit
				f failure
			}{u, f})
		}
		for _, f := range r.Known {
			if _, ok := isKnown(f.Key); ok {
				knownHit[f.Key] = true
			} else {
				f.Msg = f.Key + ": " + f.Msg
				fails = append(fails, struct {
					u unit
					f failure
				}{u, f})
			}
		}
	}
	sort.SliceStable(fails, func(i, j int) bool { return len(fails[i].f.Choices) < len(fails[j].f.Choices) })
	violations := 0
	status := 0
	for _, x := range fails {
		rr, err := runJob(x.u.bin, job{ID: x.u.inf.ID, DoReplay: true, Replay: x.f.Choices, Repeat: 3}, 12*time.Minute, nil)
		if err != nil {
			notes = append(notes, fmt.Sprintf("replay failed: %v", err))
			continue
		}
		n := 0
		var trace []string
		msg := x.f.Msg
		if x.f.Key == "" {
			n = len(rr.Failures)
			if n > 0 {
				trace = rr.Failures[0].Trace
				msg = rr.Failures[0].Msg
			}
		} else {
			for _, k := range rr.Known {
				if k.Key == x.f.Key {
					n++
					if k.Trace != nil {
						trace = k.Trace
					}
				}
			}
		}
		stuck := rr.Cut == "stuck" && n > 0
		if !stuck && (n < 3 || len(rr.Diverged) > 0) {
			notes = append(notes, fmt.Sprintf("not reproduced (%d of 3 replays), not reported: %s: %s", n, x.u.inf.ID, x.f.Msg))
			exhaustive = false
			continue
		}
		violations++
		status = 1
		path := filepath.Join(verif, "evidence", fmt.Sprintf("%s-replay-%d.json", prop, violations))
		b, _ := json.MarshalIndent(map[string]any{
			"property": prop, "scenario": x.u.inf.ID, "doc": x.u.inf.Doc, "choices": x.f.Choices,
			"message": msg, "trace": trace,
			"how": "cd /verif && bin/replay " + path,
		}, "", " ")
		os.MkdirAll(filepath.Dir(path), 0o755)
		os.WriteFile(path, b, 0o644)
		fmt.Printf("%s: %s\n", x.u.inf.ID, msg)
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
		if violations >= 3 || stuck || time.Since(begin) > 3*time.Minute {
			break
		}
	}
	lines := map[string]bool{}
	for _, k := range kn {
		if k.prop == prop && knownHit[k.key] && !lines[k.what] {
			lines[k.what] = true
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k.what)
		}
	}
	for _, k := range sortedKeys(per) {
		a := per[k]
		a.Outcomes = len(a.outs)
		bounds = append(bounds, map[string]any{"scenario": a.ID, "explores": a.Doc, "deviation_bound": a.Bound, "bound_completed": a.Completed,
			"complete_executions": a.Executions, "pruned_at_known_state": a.Pruned, "states": a.States, "inputs_evaluated": a.Cases, "distinct_outcomes": a.Outcomes, "exhaustive_within_bound": a.Exhaustive,
			"max_choice_points": a.MaxDepth, "ends": a.ends, "cpu_s": round(a.Wall)})
		if os.Getenv("VERIF_VERBOSE") != "" {
			fmt.Printf("  %-40s bound %d/%d execs %d pruned %d states %d cases %d outcomes %d depth %d exh %v cpu %.1fs\n", a.ID, a.Completed, a.Bound, a.Executions, a.Pruned, a.States, a.Cases, a.Outcomes, a.MaxDepth, a.Exhaustive, a.Wall)
		}
	}
	cov["states"] = states
	cov["transitions"] = trans
	cov["traces_validated_against_impl"] = execs
	cov["pruned_at_known_state"] = pruned
	cov["inputs_evaluated"] = cases
	cov["distinct_outcomes"] = len(outcomes)
	cov["exhaustive"] = exhaustive && status == 0
	cov["samples"] = samples
	cov["scenarios"] = bounds
	cov["rule"] = "every execution is a run of the repository's own code, rewritten for the explorer; states are distinct happens-before fingerprints at choice points, transitions are scheduling steps; all executions within the deviation bound of each scenario are enumerated, environment choices without bound"
	if len(notes) > 0 {
		cov["notes"] = notes
	}
	ev := map[string]any{
		"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
		"assumptions": []string{
			"goroutines communicate only through channels, sync, sync/atomic, context, time and maps: plain shared variables are not scheduling points",
			"gRPC transport, Redis server and clock are the in-process stand-ins of /verif/vdep and /verif/vrt; redigo, protobuf and viper are the real libraries",
		},
		"wall_s": round(time.Since(begin).Seconds()), "violations": violations,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(verif, "evidence", prop+".json"), append(b, '\n'), 0o644); err != nil {
		fatal("%v", err)
	}
	fmt.Printf("%s %s: %d complete executions, %d states, %d transitions, %d inputs, exhaustive=%v, violations=%d, build %.1fs, total %.1fs\n", prop, tier, execs, states, trans, cases, exhaustive, violations, buildWall, time.Since(begin).Seconds())
	for _, n := range notes {
		fmt.Println("  note:", n)
	}
	return status
}

func round(f float64) float64 { return float64(int64(f*100)) / 100 }

func replay(path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fatal("%v", err)
	}
	var rec struct {
		Property, Scenario, Message string
		Choices                     []int
	}
	if err := json.Unmarshal(b, &rec); err != nil {
		fatal("%v", err)
	}
	if err := prepare(); err != nil {
		fatal("prepare: %v", err)
	}
	for _, tn := range targetsFor(rec.Property) {
		bin, err := build(targets[tn])
		if err != nil {
			fatal("build: %v", err)
		}
		r, err := runJob(bin, job{ID: rec.Scenario, DoReplay: true, Replay: rec.Choices, Repeat: 1}, 12*time.Minute, nil)
		if err != nil {
			continue
		}
		for _, l := range r.Samples {
			fmt.Println(l)
		}
		for _, f := range append(r.Failures, r.Known...) {
			fmt.Println("FAILURE:", f.Key, f.Msg)
		}
		if len(r.Failures)+len(r.Known) > 0 {
			return 1
		}
	}
	return 0
}

func main() {
	if len(os.Args) < 2 {
		fatal("usage: tool check ID | replay FILE | list | build TARGET")
	}
	var err error
	scratch, err = os.MkdirTemp("", "verif-")
	if err != nil {
		fatal("%v", err)
	}
	code := 0
	switch os.Args[1] {
	case "check":
		code = check(os.Args[2])
	case "replay":
		code = replay(os.Args[2])
	case "build":
		if err := prepare(); err != nil {
			fatal("%v", err)
		}
		bin, err := build(targets[os.Args[2]])
		if err != nil {
			fatal("%v", err)
		}
		fmt.Println(bin)
		return
	case "list":
		if err := prepare(); err != nil {
			fatal("%v", err)
		}
		for _, t := range sortedKeys(targets) {
			bin, err := build(targets[t])
			if err != nil {
				fatal("%v", err)
			}
			r, err := runJob(bin, job{List: true}, time.Minute, nil)
			if err != nil {
				fatal("%v", err)
			}
			for _, in := range r.Infos {
				fmt.Printf("%s %-40s q%d t%d %s\n", t, in.ID, in.Quick, in.Thorough, in.Doc)
			}
		}
	default:
		fatal("unknown command")
	}
	cleanup()
	os.Exit(code)
}
