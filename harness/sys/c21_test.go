package main

import (
	"bufio"
	"fmt"
	"net"
	"strings"
	"time"

	pb "open-match.dev/pkg/pb/v2"
	"verif.local/vrt"
)

// C21 in the running program: where it listens and where it stores.

// fakeRedis accepts connections, answers OK and notes the commands it is sent.
func fakeRedis(addr string) (cmds chan string, stop func()) {
	l, err := net.Listen("tcp", addr)
	if err != nil {
		vrt.Violation("harness: %v", err)
	}
	cmds = make(chan string, 10000)
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			go func() {
				defer c.Close()
				r := bufio.NewReader(c)
				for {
					line, err := r.ReadString('\n')
					if err != nil {
						return
					}
					n := 0
					if _, err := fmt.Sscanf(line, "*%d", &n); err != nil {
						return
					}
					var words []string
					for i := 0; i < n; i++ {
						size := 0
						line, err := r.ReadString('\n')
						if err != nil {
							return
						}
						fmt.Sscanf(line, "$%d", &size)
						b := make([]byte, size+2)
						for k := 0; k < len(b); {
							m, err := r.Read(b[k:])
							if err != nil {
								return
							}
							k += m
						}
						words = append(words, string(b[:size]))
					}
					if len(words) == 0 {
						return
					}
					select {
					case cmds <- strings.Join(words, " "):
					default:
					}
					switch strings.ToUpper(words[0]) {
					case "XREAD":
						time.Sleep(20 * time.Millisecond)
						fmt.Fprint(c, "*-1\r\n")
					case "XADD":
						fmt.Fprintf(c, "$15\r\n%d-1\r\n", time.Now().UnixMilli())
					case "XTRIM":
						fmt.Fprint(c, ":0\r\n")
					default:
						fmt.Fprint(c, "+OK\r\n")
					}
				}
			}()
		}
	}()
	return cmds, func() { l.Close() }
}

func waitFor(cmds chan string, prefix string) bool {
	end := time.After(30 * time.Second)
	for {
		select {
		case c := <-cmds:
			if strings.HasPrefix(strings.ToUpper(c), prefix) {
				return true
			}
		case <-end:
			return false
		}
	}
}

// programs starts om-core with every port x storage.
func programs(x *vrt.X) {
	env := map[string]string{"OM_CACHE_OUT_WAIT_TIMEOUT_MS": "20", "OM_CACHE_IN_WAIT_TIMEOUT_MS": "50", "OM_LOGGING_LEVEL": "error"}
	port := []string{"8080", "50504", "9"}[x.Choose(3, "PORT")]
	if port != "8080" {
		env["PORT"] = port
	}
	storage := []string{"", "redis", "memory"}[x.Choose(3, "OM_STATE_STORAGE_TYPE")]
	if storage != "" {
		env["OM_STATE_STORAGE_TYPE"] = storage
	}
	if x.Choose(2, "OM_VERBOSE") == 1 {
		env["OM_VERBOSE"] = "true"
	}
	wAddr, rAddr := "127.0.0.1:6379", "127.0.0.1:6379"
	if x.Choose(2, "redis elsewhere") == 1 {
		env["OM_REDIS_WRITE_HOST"], env["OM_REDIS_WRITE_PORT"] = "127.0.0.2", "7001"
		env["OM_REDIS_READ_HOST"], env["OM_REDIS_READ_PORT"] = "127.0.0.3", "7002"
		wAddr, rAddr = "127.0.0.2:7001", "127.0.0.3:7002"
	}
	wc, stop := fakeRedis(wAddr)
	defer stop()
	rc := wc
	if rAddr != wAddr {
		rc, stop = fakeRedis(rAddr)
		defer stop()
	}
	p := launch(env)
	defer p.stop()
	if !p.up("127.0.0.1:" + port) {
		x.Fail("environment %v: nothing listens on port %s\n%s", env, port, p.log())
	}
	ctx, cancel := ctxFor(60 * time.Second)
	defer cancel()
	r, err := dial("127.0.0.1:"+port).CreateTicket(ctx, &pb.CreateTicketRequest{Ticket: &pb.Ticket{}})
	if err != nil || r.GetTicketId() == "" {
		x.Fail("environment %v: CreateTicket on port %s: %v %v\n%s", env, port, r, err, p.log())
	}
	if storage == "memory" {
		for _, c := range []chan string{wc, rc} {
			if len(c) > 0 {
				x.Fail("environment %v: Redis was sent %q", env, <-c)
			}
		}
	} else {
		if !waitFor(wc, "XADD") {
			x.Fail("environment %v: the ticket was created but not written to Redis at %s", env, wAddr)
		}
		if !waitFor(rc, "XREAD") {
			x.Fail("environment %v: Redis at %s is not read", env, rAddr)
		}
	}
	if !p.up(httpAddr) {
		x.Fail("environment %v: nothing serves HTTP\n%s", env, p.log())
	}
	code, _, body, err := call("POST", "http://"+httpAddr+"/v2/tickets", `{"ticket":{}}`)
	if err != nil || code != 200 || !strings.Contains(body, "ticketId") {
		x.Fail("environment %v: creating a ticket over HTTP: %d %s %v", env, code, body, err)
	}
	x.Outcome("%s %s %s", port, storage, wAddr)
}

func init() {
	vrt.Register(vrt.Scenario{Prop: "C21", Name: "program", Doc: "the running program: ports x storages x places of Redis", Shards: 4, Body: programs})
}
