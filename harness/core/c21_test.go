package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"reflect"
	"strings"
	"time"

	"github.com/gomodule/redigo/redis"
	"github.com/sirupsen/logrus"
	"github.com/spf13/viper"
	"open-match.dev/core/internal/config"
	store "open-match.dev/core/internal/statestore/datatypes"
	redisReplicator "open-match.dev/core/internal/statestore/redis"
	pb "open-match.dev/pkg/pb/v2"
	"verif.local/vdep/vredis"
	"verif.local/vrt"
)

// C21: environment variables configure the server.

// variable is a documented variable: its type, default and some values.
type variable struct {
	name, kind, dflt string
	vals             []string
}

var variables = []variable{
	{"OM_LOGGING_FORMAT", "string", "json", []string{"text", "stackdriver"}},
	{"OM_LOGGING_LEVEL", "string", "info", []string{"error", "debug"}},
	{"OM_MATCH_TICKET_DEACTIVATION_WAIT", "bool", "false", []string{"true", "false"}},
	{"OM_MAX_STATE_UPDATES_PER_CALL", "int", "500", []string{"1", "2147483647"}},
	{"OM_MMF_TIMEOUT_SECS", "int", "500", []string{"1", "86400"}},
	{"OM_STATE_STORAGE_TYPE", "string", "redis", []string{"memory", "redis"}},
	{"OM_REDIS_POOL_MAX_IDLE", "int", "500", []string{"3", "70"}},
	{"OM_REDIS_POOL_MAX_ACTIVE", "int", "500", []string{"4", "80"}},
	{"OM_REDIS_POOL_IDLE_TIMEOUT", "duration", "0s", []string{"300s", "1m30s"}},
	{"OM_REDIS_WRITE_HOST", "string", "127.0.0.1", []string{"10.0.0.1", "primary.example"}},
	{"OM_REDIS_WRITE_PORT", "int", "6379", []string{"6380", "1"}},
	{"OM_REDIS_WRITE_USER", "string", "default", []string{"writer", "w@x y"}},
	{"OM_REDIS_WRITE_PASSWORD", "string", "om-redis", []string{"secret", "0012"}},
	{"OM_REDIS_READ_HOST", "string", "127.0.0.1", []string{"10.0.0.2", "replica.example"}},
	{"OM_REDIS_READ_PORT", "int", "6379", []string{"6381", "65535"}},
	{"OM_REDIS_READ_USER", "string", "default", []string{"reader", "r"}},
	{"OM_REDIS_READ_PASSWORD", "string", "om-redis", []string{"geheim", "pass:word/%41"}},
	{"OM_CACHE_IN_MAX_UPDATES_PER_POLL", "int", "10000", []string{"1", "250"}},
	{"OM_CACHE_IN_WAIT_TIMEOUT_MS", "int", "1500", []string{"10", "30000"}},
	{"OM_CACHE_OUT_MAX_QUEUE_THRESHOLD", "int", "50", []string{"1", "900"}},
	{"OM_CACHE_OUT_WAIT_TIMEOUT_MS", "int", "500", []string{"20", "4000"}},
	{"OM_CACHE_TICKET_TTL_SECS", "int", "600", []string{"5", "100000"}},
	{"OM_CACHE_ASSIGNMENT_ADDITIONAL_TTL_SECS", "int", "600", []string{"6", "200000"}},
	{"OM_OTEL_COLLECTOR_HOST", "string", "localhost", []string{"otel", "10.1.1.1"}},
	{"OM_OTEL_COLLECTOR_PORT", "int", "4317", []string{"4318", "9"}},
	{"PORT", "int", "8080", []string{"50504", "81"}},
	{"K_SERVICE", "string", "open_match_core", []string{"svc", "open"}},
	{"K_REVISION", "string", "open_match_core_rev.1", []string{"rev.2", "r"}},
	{"K_CONFIGURATION", "string", "open_match_core_cfg", []string{"cfg.2", "c"}},
	{"OM_VERBOSE", "bool", "false", []string{"true", "1"}},
}

func clearEnv() {
	for _, v := range variables {
		os.Unsetenv(v.name)
	}
}

func init() { vrt.RegisterReset(clearEnv) }

func setEnv(kv map[string]string) {
	for k, v := range kv {
		os.Setenv(k, v)
	}
}

// readConfig reads the configuration with its logging kept out of the way.
func readConfig() *viper.Viper {
	logrus.SetOutput(io.Discard)
	logrus.StandardLogger().ExitFunc = vrt.Fatal
	return config.Read()
}

// expectValues checks every variable through the getters of its type.
func expectValues(x *vrt.X, c *viper.Viper, env map[string]string) {
	for _, v := range variables {
		want, set := env[v.name]
		if !set {
			want = v.dflt
		}
		bad := func(got any) {
			x.Fail("%s is %v, want %s (environment %v)", v.name, got, want, env)
		}
		switch v.kind {
		case "string":
			if got := c.GetString(v.name); got != want {
				bad(got)
			}
		case "int":
			if got := c.GetInt(v.name); fmt.Sprint(got) != want {
				bad(got)
			}
			if got := c.GetInt64(v.name); fmt.Sprint(got) != want {
				bad(got)
			}
			if got := c.GetString(v.name); got != want {
				bad(got)
			}
		case "bool":
			if got := c.GetBool(v.name); got != (want == "true" || want == "1") {
				bad(got)
			}
		case "duration":
			d, _ := time.ParseDuration(want)
			if got := c.GetDuration(v.name); got != d {
				bad(got)
			}
		}
		x.Count(1)
	}
}

// values sets every variable, together with every other one.
func values(x *vrt.X) {
	x.Quiet(true)
	a := variables[x.Choose(len(variables), "variable")]
	b := variables[x.Choose(len(variables), "another")]
	for _, va := range a.vals {
		for _, vb := range b.vals {
			for _, others := range []bool{false, true} {
				clearEnv()
				env := map[string]string{}
				if others {
					for i, v := range variables {
						env[v.name] = v.vals[i%2]
					}
				}
				env[b.name] = vb
				env[a.name] = va
				setEnv(env)
				expectValues(x, readConfig(), env)
			}
		}
	}
	clearEnv()
	expectValues(x, readConfig(), nil)
}

// logging: the log's format and level.
func loggingEffect(x *vrt.X) {
	x.Quiet(true)
	env := map[string]string{}
	format := []string{"", "json", "text", "stackdriver"}[x.Choose(4, "format")]
	if format != "" {
		env["OM_LOGGING_FORMAT"] = format
	}
	levels := map[string]logrus.Level{"": logrus.InfoLevel, "debug": logrus.DebugLevel, "info": logrus.InfoLevel, "warn": logrus.WarnLevel, "error": logrus.ErrorLevel, "fatal": logrus.FatalLevel, "panic": logrus.PanicLevel}
	level := keys(levels)[x.Choose(len(levels), "level")]
	if level != "" {
		env["OM_LOGGING_LEVEL"] = level
	}
	setEnv(env)
	readConfig()
	if got := logrus.GetLevel(); got != levels[level] {
		x.Fail("with level %q the log's level is %v", level, got)
	}
	var out bytes.Buffer
	logrus.SetOutput(&out)
	l := logrus.WithFields(logrus.Fields{"component": "x"})
	for _, lv := range []logrus.Level{logrus.ErrorLevel, logrus.WarnLevel, logrus.InfoLevel, logrus.DebugLevel} {
		out.Reset()
		l.Log(lv, "message")
		line := out.String()
		if (line != "") != (lv <= levels[level]) {
			x.Fail("with level %q an entry of level %v gives %q", level, lv, line)
		}
		if line == "" {
			continue
		}
		m := map[string]any{}
		isJSON := json.Unmarshal([]byte(line), &m) == nil
		_, sev := m["severity"]
		_, lev := m["level"]
		got := "text"
		if isJSON && sev {
			got = "stackdriver"
		} else if isJSON && lev {
			got = "json"
		}
		want := format
		if want == "" {
			want = "json"
		}
		if got != want || !strings.Contains(line, "message") {
			x.Fail("with format %q the log reads %q", format, line)
		}
	}
	logrus.SetOutput(io.Discard)
	logrus.SetLevel(logrus.PanicLevel)
	x.Outcome("%s %s", format, level)
}

// endpoints: which Redis is written and read as which user.
func endpoints(x *vrt.X) {
	x.Quiet(true)
	set := x.Choose(256, "variables set")
	env := map[string]string{"OM_CACHE_OUT_WAIT_TIMEOUT_MS": "50", "OM_CACHE_IN_WAIT_TIMEOUT_MS": "50"}
	get := func(i int, name string) string {
		for _, v := range variables {
			if v.name == name {
				if set>>i&1 == 1 {
					env[name] = v.vals[0]
					return v.vals[0]
				}
				return v.dflt
			}
		}
		panic(name)
	}
	wa := get(0, "OM_REDIS_WRITE_HOST") + ":" + get(1, "OM_REDIS_WRITE_PORT")
	wu, wp := get(2, "OM_REDIS_WRITE_USER"), get(3, "OM_REDIS_WRITE_PASSWORD")
	ra := get(4, "OM_REDIS_READ_HOST") + ":" + get(5, "OM_REDIS_READ_PORT")
	ru, rp := get(6, "OM_REDIS_READ_USER"), get(7, "OM_REDIS_READ_PASSWORD")
	if wa == ra && wu == ru && wp != rp {
		return // no such server
	}
	ws := vredis.NewServer(wa)
	ws.User, ws.Password = wu, wp
	rs := ws
	if ra == wa {
		ws.Users = map[string]string{ru: rp}
	} else {
		rs = vredis.NewServer(ra)
		rs.User, rs.Password, rs.Master, rs.ReadOnly = ru, rp, ws, true
	}
	setEnv(env)
	w := newWorld(x, opts{storage: "redis", server: ws})
	what := fmt.Sprintf("write %s as %s/%s, read %s as %s/%s", wa, wu, wp, ra, ru, rp)
	id, err := w.create(bg(), ticket("a"))
	if err != nil {
		x.Fail("%s: a ticket cannot be created: %v", what, err)
	}
	if err := w.activate(id); err != nil {
		x.Fail("%s: a ticket cannot be activated: %v", what, err)
	}
	x.Sleep(time.Second)
	if !w.activeHere(id) {
		x.Fail("%s: the ticket created does not arrive", what)
	}
	for _, s := range []*vredis.Server{ws, rs} {
		for _, r := range s.Ran {
			write := r.Cmd == "XADD" || r.Cmd == "XTRIM"
			read := r.Cmd == "XREAD" || r.Cmd == "XRANGE"
			if write && (s != ws || r.User != wu) || read && (s != rs || r.User != ru) {
				x.Fail("%s: %s ran %s as user %q", what, s.Addrs[0], r.Cmd, r.User)
			}
		}
	}
	x.Outcome("%v", set)
}

// poolSizes: the pools of connections have the configured sizes.
func poolSizes(x *vrt.X) {
	x.Quiet(true)
	env := map[string]string{}
	want := map[string]int64{"MaxIdle": 500, "MaxActive": 500, "IdleTimeout": 0}
	if x.Choose(2, "max idle") == 1 {
		env["OM_REDIS_POOL_MAX_IDLE"], want["MaxIdle"] = "7", 7
	}
	if x.Choose(2, "max active") == 1 {
		env["OM_REDIS_POOL_MAX_ACTIVE"], want["MaxActive"] = "9", 9
	}
	if x.Choose(2, "idle timeout") == 1 {
		env["OM_REDIS_POOL_IDLE_TIMEOUT"], want["IdleTimeout"] = "30s", int64(30*time.Second)
	}
	setEnv(env)
	n := 0
	seen := map[uintptr]bool{}
	var find func(v reflect.Value)
	find = func(v reflect.Value) {
		switch v.Kind() {
		case reflect.Ptr:
			if !v.IsNil() && !seen[v.Pointer()] {
				seen[v.Pointer()] = true
				find(v.Elem())
			}
		case reflect.Interface:
			if !v.IsNil() {
				find(v.Elem())
			}
		case reflect.Struct:
			if v.Type() == reflect.TypeOf(redis.Pool{}) {
				n++
				for f, val := range want {
					if got := v.FieldByName(f).Int(); got != val {
						x.Fail("%s of a connection pool is %d, want %d (environment %v)", f, got, val, env)
					}
				}
				return
			}
			if strings.Contains(v.Type().PkgPath(), "statestore") {
				for i := 0; i < v.NumField(); i++ {
					find(v.Field(i))
				}
			}
		}
	}
	find(reflect.ValueOf(redisReplicator.New(readConfig())))
	x.Outcome("%d pools", n)
}

// idleTimeout: idle connections are closed after the configured time.
func idleTimeout(x *vrt.X) {
	x.Quiet(true)
	env := map[string]string{"OM_CACHE_OUT_WAIT_TIMEOUT_MS": "50"}
	d := []string{"", "5s", "1m"}[x.Choose(3, "idle timeout")]
	gap := []time.Duration{time.Second, 4 * time.Second, 6 * time.Second, 30 * time.Second, 70 * time.Second}[x.Choose(5, "idle for")]
	limit := time.Duration(0)
	if d != "" {
		env["OM_REDIS_POOL_IDLE_TIMEOUT"] = d
		limit, _ = time.ParseDuration(d)
	}
	setEnv(env)
	w := newWorld(x, opts{storage: "redis", noIn: true})
	for i := 0; i < 3; i++ {
		before := len(vredis.Dials())
		w.mustCreate(ticket("a"))
		if dialed := len(vredis.Dials()) > before; i > 0 && dialed != (limit > 0 && gap > limit) {
			x.Fail("idle timeout %q: after %v without writes a connection is made: %v", d, gap, dialed)
		}
		x.Sleep(gap)
	}
}

// sizer notes how many updates are written at once.
type sizer struct {
	store.StateReplicator
	sizes *[]int
}

func (s *sizer) SendUpdates(us []*store.StateUpdate) []*store.StateResponse {
	*s.sizes = append(*s.sizes, len(us))
	return s.StateReplicator.SendUpdates(us)
}

// batchSizes: writes are sent in batches of the configured size and age.
func batchSizes(x *vrt.X) {
	x.Quiet(true)
	env := map[string]string{"OM_MAX_STATE_UPDATES_PER_CALL": "2000"}
	n := []int{50, 1, 2, 7, 90}[x.Choose(5, "batch size")]
	if n != 50 {
		env["OM_CACHE_OUT_MAX_QUEUE_THRESHOLD"] = itoa(n)
	}
	wait := []int{500, 60, 2500}[x.Choose(3, "batch age")]
	if wait != 500 {
		env["OM_CACHE_OUT_WAIT_TIMEOUT_MS"] = itoa(wait)
	}
	setEnv(env)
	k := []int{n - 1, n, n + 1, 3 * n}[x.Choose(4, "updates")]
	if k == 0 {
		return
	}
	var sizes []int
	w := newWorld(x, opts{storage: "redis", noIn: true, wrap: func(s store.StateReplicator) store.StateReplicator { return &sizer{s, &sizes} }})
	w.deactivate(fid(0, 1)) // the next batch begins when this one has been written
	var l []string
	for i := 0; i < k; i++ {
		l = append(l, fid(0, i))
	}
	sizes = nil
	begin := x.Now()
	if err := w.activate(l...); err != nil {
		x.Fail("activation failed: %v", err)
	}
	took := x.Now().Sub(begin)
	for i, s := range sizes {
		if want := min(n, k-i*n); s != want {
			x.Fail("batch size %d, %d updates at once: written in batches of %v", n, k, sizes)
		}
	}
	age := time.Duration(wait) * time.Millisecond
	if k%n == 0 {
		age = 0
	}
	if took < age-20*time.Millisecond || took > age+20*time.Millisecond {
		x.Fail("batch size %d, batch age %d ms: %d updates at once were written after %v", n, wait, k, took)
	}
}

// polling: updates are read in batches of the configured size, and reads wait
// for the configured time.
func polling(x *vrt.X) {
	x.Quiet(true)
	env := map[string]string{"OM_CACHE_OUT_WAIT_TIMEOUT_MS": "10"}
	n := []int{10000, 1, 3, 700}[x.Choose(4, "updates per poll")]
	if n != 10000 {
		env["OM_CACHE_IN_MAX_UPDATES_PER_POLL"] = itoa(n)
	}
	wait := []int{1500, 40, 9000}[x.Choose(3, "wait")]
	if wait != 1500 {
		env["OM_CACHE_IN_WAIT_TIMEOUT_MS"] = itoa(wait)
	}
	setEnv(env)
	var r recorder
	w := newWorld(x, opts{storage: "redis", noIn: true})
	w.activate(fid(0, 0))
	for _, st := range w.redis.Streams {
		for i := 1; i < 2*n+1; i++ {
			e := vredis.Entry{ID: vredis.ID{Ms: st.Last.Ms, Seq: st.Last.Seq + 1}, Fields: st.Entries[0].Fields}
			st.Entries = append(st.Entries, e)
			st.Last = e.ID
		}
	}
	w.secondInstance(nil, r.wrap)
	x.Sleep(5*time.Duration(wait)*time.Millisecond + 5*time.Second)
	if len(r.polls) < 2 || r.polls[0] != n || r.polls[1] != n {
		x.Fail("%d updates waiting, %d per poll: read in portions of %v", 2*n+1, n, r.polls)
	}
	// idle
	count := func() (c int) {
		for _, r := range w.redis.Commands {
			if strings.HasPrefix(r, "XREAD") {
				c++
			}
		}
		return
	}
	before := count()
	span := 40 * time.Duration(wait) * time.Millisecond
	x.Sleep(span)
	if c := count() - before; c < 18 || c > 42 {
		x.Fail("with a wait of %d ms the idle instance polls %d times in %v", wait, c, span)
	}
}

// visible: updates become visible within the configured time.
func visible(storage string) func(x *vrt.X) {
	return func(x *vrt.X) {
		x.Quiet(true)
		env := map[string]string{"OM_CACHE_OUT_WAIT_TIMEOUT_MS": "10"}
		wait := []int{1500, 40, 9000}[x.Choose(3, "wait")]
		if wait != 1500 {
			env["OM_CACHE_IN_WAIT_TIMEOUT_MS"] = itoa(wait)
		}
		setEnv(env)
		w := newWorld(x, opts{storage: storage})
		x.Sleep([]time.Duration{0, 33 * time.Millisecond, 7 * time.Second}[x.Choose(3, "created")])
		id := w.mustCreate(ticket("a"))
		limit := 2*time.Duration(wait)*time.Millisecond + 600*time.Millisecond
		x.Sleep(limit)
		if tick, _, _ := held(id); !tick {
			x.Fail("with a wait of %d ms the ticket is not known %v after its creation", wait, limit)
		}
	}
}

// lifetimes: tickets and assignments last as long as configured.
func lifetimes(storage string) func(x *vrt.X) {
	return func(x *vrt.X) {
		x.Quiet(true)
		env := map[string]string{"OM_CACHE_OUT_WAIT_TIMEOUT_MS": "10", "OM_CACHE_IN_WAIT_TIMEOUT_MS": "100"}
		ttl := []int{600, 5, 3000}[x.Choose(3, "ticket lifetime")]
		if ttl != 600 {
			env["OM_CACHE_TICKET_TTL_SECS"] = itoa(ttl)
		}
		add := []int{600, 9, 3000}[x.Choose(3, "assignment lifetime")]
		if add != 600 {
			env["OM_CACHE_ASSIGNMENT_ADDITIONAL_TTL_SECS"] = itoa(add)
		}
		setEnv(env)
		w := newWorld(x, opts{storage: storage})
		id := w.mustCreate(ticket("a"))
		at := x.Now()
		if err := w.assign("conn", id); err != nil {
			x.Fail("assignment failed: %v", err)
		}
		if err := w.activate(id); err != nil {
			x.Fail("activation failed: %v", err)
		}
		until := func(s int, d time.Duration) { x.Sleep(at.Add(time.Duration(s)*time.Second + d).Sub(x.Now())) }
		const grace = 2 * time.Second
		check := func(wantTick, wantAssigned bool) {
			tick, _, assigned := held(id)
			if tick != wantTick || assigned != wantAssigned {
				x.Fail("lifetime %d s, assignments %d s more: %v after its creation the ticket is held: %v, its assignment: %v", ttl, add, x.Now().Sub(at), tick, assigned)
			}
		}
		until(ttl, -grace)
		check(true, true)
		until(ttl, grace)
		check(false, true)
		until(ttl+add, -grace)
		check(false, true)
		until(ttl+add, grace)
		check(false, false)
	}
}

// perCall: requests have at most the configured number of updates.
func perCall(x *vrt.X) {
	x.Quiet(true)
	env := map[string]string{"OM_CACHE_OUT_WAIT_TIMEOUT_MS": "10"}
	n := []int{500, 1, 3, 800}[x.Choose(4, "limit")]
	if n != 500 {
		env["OM_MAX_STATE_UPDATES_PER_CALL"] = itoa(n)
	}
	setEnv(env)
	w := newWorld(x, opts{storage: []string{"memory", "redis"}[x.Choose(2, "storage")]})
	for k := n; k <= n+1; k++ {
		var l []string
		for i := 0; i < k; i++ {
			l = append(l, fid(0, i))
		}
		for what, err := range map[string]error{"activate": w.activate(l...), "deactivate": w.deactivate(l...), "assign": w.assign("c", l...)} {
			if (err == nil) != (k == n) {
				x.Fail("limit %d: %s of %d tickets: %v", n, what, k, err)
			}
		}
	}
}

// mmfTime: matchmaking functions are ended after the configured time.
func mmfTime(x *vrt.X) {
	x.Quiet(true)
	env := map[string]string{}
	secs := []int{500, 1, 30, 4000}[x.Choose(4, "limit")]
	if secs != 500 {
		env["OM_MMF_TIMEOUT_SECS"] = itoa(secs)
	}
	early := x.Choose(2, "ends in time") == 1
	setEnv(env)
	w := newWorld(x, opts{storage: "memory"})
	limit := time.Duration(secs) * time.Second
	spec := mmf("slow", 1, func(s pb.MatchMakingFunctionService_RunServer) error {
		if _, err := readAll(s); err != nil {
			return err
		}
		d := 3 * limit
		if early {
			d = limit - limit/10
		}
		x.Sleep(d)
		return s.Send(&pb.StreamedMmfResponse{Match: match("m")})
	})
	begin := x.Now()
	r, err := w.invoke(bg(), &pb.MmfRequest{Mmfs: []*pb.MatchmakingFunctionSpec{spec}, Profile: everyone()})
	took := x.Now().Sub(begin)
	if early && (len(r.got) != 1 || err != nil || took > limit) {
		x.Fail("limit %v: a function that takes %v gives %d matches, %v after %v", limit, limit-limit/10, len(r.got), err, took)
	}
	if !early && (len(r.got) != 0 || took < limit-time.Second || took > limit+5*time.Second) {
		x.Fail("limit %v: a function that takes %v gives %d matches after %v", limit, 3*limit, len(r.got), took)
	}
}

// waits: whether matches wait for the deactivation of their tickets to arrive.
func waits(x *vrt.X) {
	x.Quiet(true)
	env := map[string]string{"OM_CACHE_OUT_WAIT_TIMEOUT_MS": "100", "OM_CACHE_IN_WAIT_TIMEOUT_MS": "8000"}
	v := []string{"", "false", "true"}[x.Choose(3, "OM_MATCH_TICKET_DEACTIVATION_WAIT")]
	if v != "" {
		env["OM_MATCH_TICKET_DEACTIVATION_WAIT"] = v
	}
	setEnv(env)
	w := newWorld(x, opts{storage: []string{"memory", "redis"}[x.Choose(2, "storage")]})
	id := w.mustCreate(ticket("a"))
	w.activate(id)
	x.Sleep(30*time.Second - time.Duration(vrt.RawNow()%8e9))
	if !w.activeHere(id) {
		x.Fail("the ticket is not active")
	}
	var sent time.Time
	spec := mmf("one", 1, func(s pb.MatchMakingFunctionService_RunServer) error {
		if _, err := readAll(s); err != nil {
			return err
		}
		sent = x.Now()
		return s.Send(&pb.StreamedMmfResponse{Match: match("m", id)})
	})
	s := &respStream{ctx: bg()}
	s.onMatch = func(*pb.Match) {
		if v == "true" && w.activeHere(id) {
			x.Fail("OM_MATCH_TICKET_DEACTIVATION_WAIT=true: the match is sent while its ticket is active")
		}
		if late := x.Now().Sub(sent); v != "true" && late > time.Second {
			x.Fail("OM_MATCH_TICKET_DEACTIVATION_WAIT=%q: the match is sent after %v", v, late)
		}
		x.Outcome("%q after %v", v, x.Now().Sub(sent))
	}
	if err := w.invokeOn(s, &pb.MmfRequest{Mmfs: []*pb.MatchmakingFunctionSpec{spec}, Profile: everyone()}); err != nil || len(s.got) != 1 {
		x.Fail("%d matches, %v", len(s.got), err)
	}
}

func init() {
	reg := func(sc vrt.Scenario) {
		sc.Prop = "C21"
		sc.MaxTime = 240 * time.Hour
		sc.MaxSteps = 50_000_000
		vrt.Register(sc)
	}
	reg(vrt.Scenario{Name: "values", Doc: "every variable x every other one x two values each x the rest set or not", Shards: 4, Body: values})
	reg(vrt.Scenario{Name: "logging", Doc: "log formats x levels", Body: loggingEffect})
	reg(vrt.Scenario{Name: "endpoints", Doc: "all subsets of the variables of the Redis connections", Shards: 2, Body: endpoints})
	reg(vrt.Scenario{Name: "pools", Doc: "all subsets of the variables of connection pools", Body: poolSizes})
	reg(vrt.Scenario{Name: "idle", Doc: "idle timeouts x idle times", Body: idleTimeout})
	reg(vrt.Scenario{Name: "batches", Doc: "batch sizes x ages x numbers of updates", Body: batchSizes})
	reg(vrt.Scenario{Name: "polling", Doc: "poll sizes x waits", Body: polling})
	reg(vrt.Scenario{Name: "visible-memory", Doc: "waits x phases", Body: visible("memory")})
	reg(vrt.Scenario{Name: "visible-redis", Doc: "waits x phases", Body: visible("redis")})
	reg(vrt.Scenario{Name: "lifetimes-memory", Doc: "ticket x assignment lifetimes", Body: lifetimes("memory")})
	reg(vrt.Scenario{Name: "lifetimes-redis", Doc: "ticket x assignment lifetimes", Body: lifetimes("redis")})
	reg(vrt.Scenario{Name: "per-call", Doc: "limits of updates per call", Body: perCall})
	reg(vrt.Scenario{Name: "mmf-time", Doc: "time limits of functions", Body: mmfTime})
	reg(vrt.Scenario{Name: "waits", Doc: "waiting for deactivations", Body: waits})
}
