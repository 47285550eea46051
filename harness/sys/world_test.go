package main

import (
	"bytes"
	"context"
	"fmt"
	"io"
	"net"
	"net/http"
	"os"
	"os/exec"
	"runtime"
	"strings"
	"syscall"
	"testing"
	"time"
	"unsafe"

	"google.golang.org/grpc"
	"google.golang.org/grpc/credentials/insecure"
	pb "open-match.dev/pkg/pb/v2"
	"verif.local/vrt"
)

// This harness runs the real program: real sockets, real clocks, no scheduler.
// It enumerates configurations, requests and responses.

func TestMain(m *testing.M) {
	if os.Getenv("VERIF_MAIN") != "" {
		main()
		return
	}
	loopbackUp()
	os.Exit(m.Run())
}

func TestVerif(t *testing.T) { vrt.Main(t) }

// loopbackUp starts the loopback interface of a network of our own.
func loopbackUp() {
	fd, err := syscall.Socket(syscall.AF_INET, syscall.SOCK_DGRAM, 0)
	if err != nil {
		return
	}
	defer syscall.Close(fd)
	var req struct {
		name  [16]byte
		flags uint16
		_     [22]byte
	}
	copy(req.name[:], "lo")
	if _, _, e := syscall.Syscall(syscall.SYS_IOCTL, uintptr(fd), syscall.SIOCGIFFLAGS, uintptr(unsafe.Pointer(&req))); e != 0 || req.flags&syscall.IFF_UP != 0 {
		return
	}
	req.flags |= syscall.IFF_UP | syscall.IFF_RUNNING
	syscall.Syscall(syscall.SYS_IOCTL, uintptr(fd), syscall.SIOCSIFFLAGS, uintptr(unsafe.Pointer(&req)))
}

const httpAddr = "127.0.0.1:58081"

// zzProgram is a running om-core.
type zzProgram struct {
	cmd  *exec.Cmd
	out  bytes.Buffer
	exit chan error
	port string
}

// launch starts om-core with the environment.
func launch(env map[string]string) *zzProgram {
	self, err := os.Executable()
	if err != nil {
		vrt.Violation("harness: %v", err)
	}
	p := &zzProgram{exit: make(chan error, 1), port: "8080"}
	p.cmd = exec.Command(self)
	p.cmd.Env = []string{"VERIF_MAIN=1", "PATH=" + os.Getenv("PATH"), "HOME=/nonexistent"}
	for k, v := range env {
		p.cmd.Env = append(p.cmd.Env, k+"="+v)
		if k == "PORT" {
			p.port = v
		}
	}
	p.start()
	return p
}

// start runs the command.
func (p *zzProgram) start() {
	p.cmd.Stdout, p.cmd.Stderr = &p.out, &p.out
	p.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	started := make(chan error)
	go func() {
		// (the child dies with the thread that started it)
		runtime.LockOSThread()
		err := p.cmd.Start()
		started <- err
		if err == nil {
			p.exit <- p.cmd.Wait()
		}
	}()
	if err := <-started; err != nil {
		vrt.Violation("harness: %v", err)
	}
}

func (p *zzProgram) stop() {
	p.cmd.Process.Kill()
	<-p.exit
}

// up waits until the address accepts connections.
func (p *zzProgram) up(addr string) bool {
	for end := time.Now().Add(30 * time.Second); time.Now().Before(end); time.Sleep(5 * time.Millisecond) {
		c, err := net.Dial("tcp", addr)
		if err == nil {
			c.Close()
			return true
		}
		select {
		case err := <-p.exit:
			p.exit <- err
			return false
		default:
		}
	}
	return false
}

func (p *zzProgram) log() string {
	l := strings.Split(p.out.String(), "\n")
	if len(l) > 12 {
		l = l[len(l)-12:]
	}
	return strings.Join(l, "\n")
}

func dial(addr string) pb.OpenMatchServiceClient {
	c, err := grpc.Dial(addr, grpc.WithTransportCredentials(insecure.NewCredentials()))
	if err != nil {
		vrt.Violation("harness: %v", err)
	}
	return pb.NewOpenMatchServiceClient(c)
}

func ctxFor(d time.Duration) (context.Context, context.CancelFunc) {
	return context.WithTimeout(context.Background(), d)
}

// call makes an HTTP request.
func call(method, url, body string) (status int, header http.Header, out string, err error) {
	req, err := http.NewRequest(method, url, strings.NewReader(body))
	if err != nil {
		return 0, nil, "", err
	}
	req.Header.Set("Content-Type", "application/json")
	req.Close = true
	res, err := http.DefaultClient.Do(req)
	if err != nil {
		return 0, nil, "", err
	}
	defer res.Body.Close()
	b, err := io.ReadAll(res.Body)
	return res.StatusCode, res.Header, string(b), err
}

var _ = fmt.Sprint
