// Package vredis stands in for dialing Redis.  The connection is the real
// redigo connection (rewritten for the explorer) over an in-memory net.Conn; at
// the other end is a small Redis that implements the commands of streams and
// connection handling, with the explorer choosing where connections break or
// commands are rejected.
package vredis

import (
	"bufio"
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"strconv"
	"strings"
	"time"

	"github.com/gomodule/redigo/redis"
	"verif.local/vrt"
)

// Entry is one entry of a stream.
type Entry struct {
	ID     ID
	Fields []string
}

// ID is a stream entry id.
type ID struct{ Ms, Seq uint64 }

func (a ID) Less(b ID) bool { return a.Ms < b.Ms || a.Ms == b.Ms && a.Seq < b.Seq }
func (a ID) String() string { return fmt.Sprintf("%d-%d", a.Ms, a.Seq) }

// Stream is a Redis stream.
type Stream struct {
	Entries []Entry
	Last    ID
}

// Faults says which faults the explorer may inject; each costs one deviation.
type Faults struct {
	Dial   bool // refuse connections
	Write  bool // break connections before, within and after a pipeline
	Reject bool // reject single XADDs with an error reply
	Read   bool // break or reject reads (XREAD)
}

// Server is one Redis.
type Server struct {
	Addrs    []string
	Streams  map[string]*Stream
	User     string // required credentials, if not empty
	Password string
	Faults   Faults
	Down     bool
	// ReadOnly servers (replicas) reject writes.
	ReadOnly bool
	Master   *Server // replicas share the master's data

	// Added is every entry ever added, in order, never trimmed.
	Added []Entry
	// Trimmed counts entries removed.
	Trimmed   int
	Open      int // connections open now
	MaxOpen   int // refuse connections beyond, 0 = no limit
	Commands  []string
	Users     map[string]string // further accepted users
	Ran       []Ran
	Pipelines []*Pipeline
	o         vrt.Obj
}

// Ran is a command with the user that ran it.
type Ran struct{ User, Cmd string }

// Pipeline records one write batch on a connection.
type Pipeline struct {
	XAdds []XAdd
	Broke bool // the connection was lost during or after it
}

// XAdd records the fate of one XADD.
type XAdd struct {
	Fields   []string
	ID       ID
	Accepted bool
	Replied  bool
}

var servers = map[string]*Server{}
var dials []string

func init() {
	vrt.RegisterReset(func() { servers = map[string]*Server{}; dials = nil })
}

// NewServer starts a server at the addresses.
func NewServer(addrs ...string) *Server {
	s := &Server{Addrs: addrs, Streams: map[string]*Stream{}}
	for _, a := range addrs {
		servers[a] = s
	}
	return s
}

// Dials lists the addresses dialed.
func Dials() []string { return dials }

func (s *Server) store() *Server {
	if s.Master != nil {
		return s.Master
	}
	return s
}

func (s *Server) stream(k string) *Stream {
	m := s.store()
	st := m.Streams[k]
	if st == nil {
		st = &Stream{}
		m.Streams[k] = st
	}
	return st
}

// Dial is redis.Dial to an in-process server.
func Dial(network, address string, options ...redis.DialOption) (redis.Conn, error) {
	return redis.Dial(network, address, append(append([]redis.DialOption(nil), options...), redis.DialNetDial(netDial))...)
}

// DialContext is redis.DialContext to an in-process server.
func DialContext(ctx context.Context, network, address string, options ...redis.DialOption) (redis.Conn, error) {
	return redis.DialContext(ctx, network, address, append(append([]redis.DialOption(nil), options...), redis.DialNetDial(netDial))...)
}

// DialURL is redis.DialURL to an in-process server.
func DialURL(rawurl string, options ...redis.DialOption) (redis.Conn, error) {
	return redis.DialURL(rawurl, append(append([]redis.DialOption(nil), options...), redis.DialNetDial(netDial))...)
}

// DialURLContext is redis.DialURLContext to an in-process server.
func DialURLContext(ctx context.Context, rawurl string, options ...redis.DialOption) (redis.Conn, error) {
	return redis.DialURLContext(ctx, rawurl, append(append([]redis.DialOption(nil), options...), redis.DialNetDial(netDial))...)
}

// DialTimeout is redis.DialTimeout to an in-process server.
func DialTimeout(network, address string, connectTimeout, readTimeout, writeTimeout time.Duration) (redis.Conn, error) {
	return Dial(network, address, redis.DialConnectTimeout(connectTimeout), redis.DialReadTimeout(readTimeout), redis.DialWriteTimeout(writeTimeout))
}

func netDial(network, addr string) (net.Conn, error) {
	if vrt.Exiting() {
		vrt.Bail()
		return nil, errors.New("exiting")
	}
	dials = append(dials, addr)
	s := servers[addr]
	refused := fmt.Errorf("dial tcp %s: connect: connection refused", addr)
	if s == nil {
		vrt.Sleep(1e6) // a round trip
		return nil, refused
	}
	vrt.Touch("redis dial", &s.o, true)
	if s.Down || s.MaxOpen > 0 && s.Open >= s.MaxOpen {
		vrt.Sleep(1e6)
		return nil, refused
	}
	if s.Faults.Dial && vrt.Dev(2, "redis refuses the connection") == 1 {
		vrt.Sleep(1e6)
		return nil, refused
	}
	s.Open++
	return &conn{s: s, authed: s.User == "" && s.Password == ""}, nil
}

type conn struct {
	s       *Server
	in      []byte // requests not complete yet
	out     []byte // replies not read yet
	closed  bool
	broken  bool // after out is drained, reads fail
	authed  bool
	user    string
	rdl     time.Time
	pending *xread // a blocked XREAD
	queue   [][]string
	o       vrt.Obj
}

type addr string

func (a addr) Network() string { return "tcp" }
func (a addr) String() string  { return string(a) }

func (c *conn) LocalAddr() net.Addr                { return addr("client") }
func (c *conn) RemoteAddr() net.Addr               { return addr(c.s.Addrs[0]) }
func (c *conn) SetDeadline(t time.Time) error      { c.rdl = t; return nil }
func (c *conn) SetReadDeadline(t time.Time) error  { c.rdl = t; return nil }
func (c *conn) SetWriteDeadline(t time.Time) error { return nil }

func (c *conn) Close() error {
	if vrt.Exiting() {
		return nil
	}
	if c.closed {
		return net.ErrClosed
	}
	c.closed = true
	c.s.Open--
	vrt.Mark(&c.s.o, true, 0xc1)
	return nil
}

// Down makes the server unreachable (or reachable again): connections break.
func (s *Server) SetDown(down bool) {
	vrt.Touch("redis up/down", &s.o, true)
	s.Down = down
}

var errReset = errors.New("read: connection reset by peer")
var errPipe = errors.New("write: broken pipe")

func (c *conn) Write(b []byte) (int, error) {
	if vrt.Exiting() {
		vrt.Bail()
		return len(b), nil
	}
	if c.closed {
		return 0, net.ErrClosed
	}
	if c.broken || c.s.Down {
		c.broken = true
		vrt.Touch("redis write", &c.s.o, true)
		return 0, errPipe
	}
	c.in = append(c.in, b...)
	var cmds [][]string
	for {
		cmd, n, ok := parse(c.in)
		if !ok {
			break
		}
		c.in = c.in[n:]
		cmds = append(cmds, cmd)
	}
	if len(cmds) == 0 {
		return len(b), nil
	}
	adds := 0
	reads := 0
	for _, cmd := range cmds {
		switch strings.ToUpper(cmd[0]) {
		case "XADD":
			adds++
		case "XREAD":
			reads++
		}
	}
	f := c.s.Faults
	cut := -1
	lose := false
	if (f.Write && (adds > 0 || reads == 0) || f.Read && reads > 0) && !isSetup(cmds) {
		// 0: no fault; 1: write fails; 2+k: connection lost after k commands,
		// their replies delivered; then: all executed, no reply delivered.
		k := vrt.Dev(2+len(cmds)+1, "redis connection fault")
		switch {
		case k == 1:
			vrt.Touch("redis write", &c.s.o, true)
			c.broken = true
			return 0, errPipe
		case k >= 2 && k < 2+len(cmds):
			cut = k - 2
		case k == 2+len(cmds):
			lose = true
		}
	}
	p := &Pipeline{}
	if adds > 0 {
		c.s.Pipelines = append(c.s.Pipelines, p)
	}
	for i, cmd := range cmds {
		if i == cut {
			c.broken = true
			p.Broke = true
			// what was not executed is still part of the record
			for _, rest := range cmds[i:] {
				if strings.ToUpper(rest[0]) == "XADD" {
					p.XAdds = append(p.XAdds, XAdd{Fields: fields(rest)})
				}
			}
			break
		}
		if c.pending != nil {
			c.queue = append(c.queue, cmd)
			continue
		}
		c.exec(cmd, p)
	}
	if lose {
		c.out = nil
		c.pending = nil
		c.broken = true
		p.Broke = true
		for i := range p.XAdds {
			p.XAdds[i].Replied = false
		}
	}
	return len(b), nil
}

func isSetup(cmds [][]string) bool {
	for _, c := range cmds {
		switch strings.ToUpper(c[0]) {
		case "AUTH", "PING", "SELECT", "CLIENT", "HELLO", "ECHO":
		default:
			return false
		}
	}
	return true
}

func fields(cmd []string) []string {
	for i, a := range cmd {
		if i > 1 && (a == "*" || strings.HasSuffix(a, "-*")) {
			return cmd[i+1:]
		}
	}
	return nil
}

func (c *conn) ready() bool {
	if len(c.out) > 0 || c.broken || c.closed || c.s.Down {
		return true
	}
	return c.pending != nil && c.pending.has(c.s)
}

func (c *conn) Read(b []byte) (int, error) {
	for {
		if vrt.Exiting() {
			vrt.Bail()
			return 0, io.EOF
		}
		if len(c.out) > 0 && !c.closed {
			n := copy(b, c.out)
			c.out = c.out[n:]
			return n, nil
		}
		if c.closed {
			return 0, net.ErrClosed
		}
		if c.broken {
			return 0, errReset
		}
		// wait for data, a timeout of XREAD BLOCK or the read deadline
		until := int64(-1)
		isRead := false
		if !c.rdl.IsZero() {
			until = c.rdl.UnixNano()
			isRead = true
		}
		if c.pending != nil && c.pending.until > 0 && (until < 0 || c.pending.until <= until) {
			until = c.pending.until
			isRead = false
		}
		ok := true
		if until < 0 {
			vrt.WaitUntil("redis read", &c.s.o, c.ready)
		} else {
			ok = vrt.WaitTimeout("redis read", &c.s.o, until-vrt.RawNow(), c.ready)
		}
		if vrt.Exiting() {
			vrt.Bail()
			return 0, io.EOF
		}
		if c.s.Down {
			c.broken = true
			continue
		}
		if c.pending != nil {
			if c.pending.has(c.s) {
				c.out = append(c.out, c.pending.reply(c.s)...)
				c.pending = nil
			} else if !ok && !isRead {
				c.out = append(c.out, "*-1\r\n"...)
				c.pending = nil
			}
			if c.pending == nil {
				q := c.queue
				c.queue = nil
				for _, cmd := range q {
					c.exec(cmd, &Pipeline{})
				}
				continue
			}
		}
		if !ok && isRead {
			return 0, os.ErrDeadlineExceeded
		}
	}
}

// parse reads one RESP command.
func parse(b []byte) (cmd []string, n int, ok bool) {
	if len(b) == 0 {
		return nil, 0, false
	}
	r := bufio.NewReader(bytes.NewReader(b))
	line := func() (string, bool) {
		s, err := r.ReadString('\n')
		n += len(s)
		if err != nil {
			return "", false
		}
		return strings.TrimSuffix(s, "\r\n"), true
	}
	h, good := line()
	if !good || h == "" {
		return nil, 0, false
	}
	if h[0] != '*' {
		return strings.Fields(h), n, true
	}
	cnt, _ := strconv.Atoi(h[1:])
	for i := 0; i < cnt; i++ {
		l, good := line()
		if !good {
			return nil, 0, false
		}
		sz, _ := strconv.Atoi(l[1:])
		buf := make([]byte, sz+2)
		if _, err := io.ReadFull(r, buf); err != nil {
			return nil, 0, false
		}
		n += sz + 2
		cmd = append(cmd, string(buf[:sz]))
	}
	return cmd, n, true
}

func bulk(s string) string     { return fmt.Sprintf("$%d\r\n%s\r\n", len(s), s) }
func errReply(s string) []byte { return []byte("-" + s + "\r\n") }

func (c *conn) reply(s string) { c.out = append(c.out, s...) }

func parseID(a string, dflt uint64) (ID, bool) {
	ms, seq, has := strings.Cut(a, "-")
	m, err := strconv.ParseUint(ms, 10, 64)
	if err != nil {
		return ID{}, false
	}
	q := dflt
	if has {
		if q, err = strconv.ParseUint(seq, 10, 64); err != nil {
			return ID{}, false
		}
	}
	return ID{m, q}, true
}

func entryReply(e Entry) string {
	var b strings.Builder
	b.WriteString("*2\r\n" + bulk(e.ID.String()))
	fmt.Fprintf(&b, "*%d\r\n", len(e.Fields))
	for _, f := range e.Fields {
		b.WriteString(bulk(f))
	}
	return b.String()
}

type xread struct {
	keys  []string
	ids   []ID
	count int
	until int64 // 0: for ever
}

func (x *xread) has(s *Server) bool {
	for i, k := range x.keys {
		st := s.store().Streams[k]
		if st != nil && len(st.Entries) > 0 && x.ids[i].Less(st.Entries[len(st.Entries)-1].ID) {
			return true
		}
	}
	return false
}

func (x *xread) reply(s *Server) string {
	var parts []string
	for i, k := range x.keys {
		st := s.store().Streams[k]
		if st == nil {
			continue
		}
		var es []string
		for _, e := range st.Entries {
			if x.ids[i].Less(e.ID) {
				es = append(es, entryReply(e))
				if x.count > 0 && len(es) >= x.count {
					break
				}
			}
		}
		if len(es) > 0 {
			parts = append(parts, fmt.Sprintf("*2\r\n%s*%d\r\n%s", bulk(k), len(es), strings.Join(es, "")))
		}
	}
	return fmt.Sprintf("*%d\r\n%s", len(parts), strings.Join(parts, ""))
}

// trim removes entries as XADD/XTRIM MINID or MAXLEN do.
func (s *Server) trim(st *Stream, kind string, args []string) (removed int, used int, err string) {
	i := 0
	approx := false
	if i < len(args) && (args[i] == "=" || args[i] == "~") {
		approx = args[i] == "~"
		i++
	}
	if i >= len(args) {
		return 0, 0, "ERR syntax error"
	}
	arg := args[i]
	i++
	limit := -1
	if i+1 < len(args) && strings.EqualFold(args[i], "LIMIT") {
		n, e := strconv.Atoi(args[i+1])
		if e != nil || n < 0 {
			return 0, 0, "ERR value is not an integer or out of range"
		}
		if !approx {
			return 0, 0, "ERR syntax error, LIMIT cannot be used without the special ~ option"
		}
		if limit = n; n == 0 {
			limit = -1
		}
		i += 2
	}
	switch kind {
	case "MINID":
		id, ok := parseID(arg, 0)
		if !ok {
			return 0, 0, "ERR Invalid stream ID specified as stream command argument"
		}
		for len(st.Entries) > 0 && st.Entries[0].ID.Less(id) && removed != limit {
			st.Entries = st.Entries[1:]
			removed++
		}
	case "MAXLEN":
		n, e := strconv.Atoi(arg)
		if e != nil || n < 0 {
			return 0, 0, "ERR value is not an integer or out of range"
		}
		for len(st.Entries) > n && removed != limit {
			st.Entries = st.Entries[1:]
			removed++
		}
	}
	s.store().Trimmed += removed
	return removed, i, ""
}

func (c *conn) exec(cmd []string, p *Pipeline) {
	s := c.s
	name := strings.ToUpper(cmd[0])
	vrt.Touch("redis "+name, &s.o, true)
	if m := s.store(); m != s {
		vrt.Mark(&m.o, true, 0x3a)
	}
	if len(s.Commands) < 100000 {
		s.Commands = append(s.Commands, strings.Join(cmd[:min(len(cmd), 4)], " "))
	}
	if len(s.Ran) < 1000 && name != "AUTH" {
		s.Ran = append(s.Ran, Ran{c.user, name})
	}
	if !c.authed && name != "AUTH" && name != "HELLO" {
		if name == "XADD" {
			p.XAdds = append(p.XAdds, XAdd{Fields: fields(cmd), Replied: true})
		}
		c.out = append(c.out, errReply("NOAUTH Authentication required.")...)
		return
	}
	bad := func(msg string) { c.out = append(c.out, errReply(msg)...) }
	argErr := fmt.Sprintf("ERR wrong number of arguments for '%s' command", strings.ToLower(name))
	switch name {
	case "AUTH":
		user, pw := "default", ""
		switch len(cmd) {
		case 2:
			pw = cmd[1]
		case 3:
			user, pw = cmd[1], cmd[2]
		default:
			bad(argErr)
			return
		}
		want, known := s.Users[user]
		if s.User != "" && (user != s.User || pw != s.Password) && !(known && pw == want) {
			bad("WRONGPASS invalid username-password pair or user is disabled.")
			return
		}
		c.authed = true
		c.user = user
		c.reply("+OK\r\n")
	case "PING":
		c.reply("+PONG\r\n")
	case "ECHO":
		c.reply(bulk(cmd[1]))
	case "SELECT", "CLIENT":
		c.reply("+OK\r\n")
	case "TIME":
		n := vrt.RawNow()
		c.reply("*2\r\n" + bulk(fmt.Sprint(n/1e9)) + bulk(fmt.Sprint(n/1e3%1e6)))
	case "XADD":
		rec := XAdd{Fields: fields(cmd)}
		defer func() { p.XAdds = append(p.XAdds, rec) }()
		rec.Replied = true
		if s.ReadOnly {
			bad("READONLY You can't write against a read only replica.")
			return
		}
		if s.Faults.Reject && vrt.Dev(2, "redis rejects XADD") == 1 {
			bad("OOM command not allowed when used memory > 'maxmemory'.")
			return
		}
		i := 2
		type tr struct {
			kind string
			args []string
		}
		var trims []tr
		mk := true
		for i < len(cmd) {
			u := strings.ToUpper(cmd[i])
			if u == "NOMKSTREAM" {
				mk = false
				i++
				continue
			}
			if u == "MINID" || u == "MAXLEN" {
				j := i + 1
				if j < len(cmd) && (cmd[j] == "~" || cmd[j] == "=") {
					j++
				}
				j++
				if j+1 < len(cmd) && strings.EqualFold(cmd[j], "LIMIT") {
					j += 2
				}
				trims = append(trims, tr{u, cmd[i+1 : min(j, len(cmd))]})
				i = j
				continue
			}
			break
		}
		if i >= len(cmd) || (len(cmd)-i-1) < 2 || (len(cmd)-i-1)%2 != 0 {
			bad(argErr)
			return
		}
		if !mk && s.store().Streams[cmd[1]] == nil {
			c.reply("$-1\r\n")
			return
		}
		st := s.stream(cmd[1])
		now := uint64(vrt.RawNow() / 1e6)
		id := ID{now, 0}
		switch a := cmd[i]; {
		case a == "*":
			if id.Ms <= st.Last.Ms {
				id = ID{st.Last.Ms, st.Last.Seq + 1}
			}
		case strings.HasSuffix(a, "-*"):
			ms, err := strconv.ParseUint(strings.TrimSuffix(a, "-*"), 10, 64)
			if err != nil {
				bad("ERR Invalid stream ID specified as stream command argument")
				return
			}
			id = ID{ms, 0}
			if ms == st.Last.Ms {
				id.Seq = st.Last.Seq + 1
			}
			if !st.Last.Less(id) {
				bad("ERR The ID specified in XADD is equal or smaller than the target stream top item")
				return
			}
		default:
			x, ok := parseID(a, 0)
			if !ok {
				bad("ERR Invalid stream ID specified as stream command argument")
				return
			}
			id = x
			if !st.Last.Less(id) {
				bad("ERR The ID specified in XADD is equal or smaller than the target stream top item")
				return
			}
		}
		e := Entry{ID: id, Fields: append([]string(nil), cmd[i+1:]...)}
		st.Entries = append(st.Entries, e)
		st.Last = id
		s.store().Added = append(s.store().Added, e)
		rec.ID, rec.Accepted = id, true
		for _, t := range trims {
			s.trim(st, t.kind, t.args)
		}
		c.reply(bulk(id.String()))
	case "XTRIM":
		if s.ReadOnly {
			bad("READONLY You can't write against a read only replica.")
			return
		}
		if len(cmd) < 4 {
			bad(argErr)
			return
		}
		kind := strings.ToUpper(cmd[2])
		if kind != "MINID" && kind != "MAXLEN" {
			bad("ERR syntax error")
			return
		}
		st := s.store().Streams[cmd[1]]
		if st == nil {
			c.reply(":0\r\n")
			return
		}
		n, _, e := s.trim(st, kind, cmd[3:])
		if e != "" {
			bad(e)
			return
		}
		c.reply(fmt.Sprintf(":%d\r\n", n))
	case "XLEN":
		n := 0
		if st := s.store().Streams[cmd[1]]; st != nil {
			n = len(st.Entries)
		}
		c.reply(fmt.Sprintf(":%d\r\n", n))
	case "XRANGE", "XREVRANGE":
		lo, hi := cmd[2], cmd[3]
		if name == "XREVRANGE" {
			lo, hi = hi, lo
		}
		bound := func(a string, up bool) (ID, bool, bool) {
			ex := strings.HasPrefix(a, "(")
			a = strings.TrimPrefix(a, "(")
			switch a {
			case "-":
				return ID{}, ex, true
			case "+":
				return ID{1<<64 - 1, 1<<64 - 1}, ex, true
			}
			d := uint64(0)
			if up {
				d = 1<<64 - 1
			}
			id, ok := parseID(a, d)
			return id, ex, ok
		}
		l, lx, ok1 := bound(lo, false)
		h, hx, ok2 := bound(hi, true)
		if !ok1 || !ok2 {
			bad("ERR Invalid stream ID specified as stream command argument")
			return
		}
		count := -1
		if len(cmd) >= 6 && strings.EqualFold(cmd[4], "COUNT") {
			count, _ = strconv.Atoi(cmd[5])
		}
		var es []string
		if st := s.store().Streams[cmd[1]]; st != nil {
			for k := range st.Entries {
				e := st.Entries[k]
				if name == "XREVRANGE" {
					e = st.Entries[len(st.Entries)-1-k]
				}
				if e.ID.Less(l) || lx && e.ID == l || h.Less(e.ID) || hx && e.ID == h {
					continue
				}
				if count >= 0 && len(es) >= count {
					break
				}
				es = append(es, entryReply(e))
			}
		}
		c.reply(fmt.Sprintf("*%d\r\n%s", len(es), strings.Join(es, "")))
	case "XREAD":
		x := &xread{}
		block := int64(-1)
		i := 1
	opts:
		for i < len(cmd) {
			switch strings.ToUpper(cmd[i]) {
			case "COUNT":
				n, err := strconv.Atoi(cmd[i+1])
				if err != nil {
					bad("ERR value is not an integer or out of range")
					return
				}
				x.count = n
				i += 2
			case "BLOCK":
				n, err := strconv.ParseInt(cmd[i+1], 10, 64)
				if err != nil || n < 0 {
					bad("ERR timeout is not an integer or out of range")
					return
				}
				block = n
				i += 2
			case "STREAMS":
				i++
				break opts
			default:
				bad("ERR syntax error")
				return
			}
		}
		rest := cmd[i:]
		if len(rest) == 0 || len(rest)%2 != 0 {
			bad("ERR Unbalanced 'xread' list of streams: for each stream key an ID or '$' must be specified.")
			return
		}
		n := len(rest) / 2
		for j := 0; j < n; j++ {
			var id ID
			if rest[n+j] == "$" {
				if st := s.store().Streams[rest[j]]; st != nil {
					id = st.Last
				}
			} else {
				var ok bool
				if id, ok = parseID(rest[n+j], 0); !ok {
					bad("ERR Invalid stream ID specified as stream command argument")
					return
				}
			}
			x.keys = append(x.keys, rest[j])
			x.ids = append(x.ids, id)
		}
		if s.Faults.Read && vrt.Dev(2, "redis rejects XREAD") == 1 {
			bad("LOADING Redis is loading the dataset in memory")
			return
		}
		switch {
		case x.has(s):
			c.reply(x.reply(s))
		case block < 0:
			c.reply("*-1\r\n")
		default:
			if block > 0 {
				x.until = vrt.RawNow() + block*1e6
			}
			c.pending = x
		}
	default:
		bad(fmt.Sprintf("ERR unknown command '%s'", cmd[0]))
	}
}
