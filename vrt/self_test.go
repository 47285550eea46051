package vrt_test

import (
	"fmt"
	"testing"
	"time"

	"verif.local/vrt"
	"verif.local/vrt/vatomic"
	"verif.local/vrt/vctx"
	"verif.local/vrt/vsync"
	"verif.local/vrt/vtime"
)

// both explores with and without state caching and insists on equal outcomes.
func both(t *testing.T, name string, bound int, body func(x *vrt.X)) (a, b *vrt.JobResult) {
	a = vrt.ExploreForTest(body, bound, true, 0)
	b = vrt.ExploreForTest(body, bound, false, 0)
	if a.Completed != bound && len(a.Failures) == 0 {
		t.Errorf("%s: not completed", name)
	}
	if len(a.Failures) == 0 {
		for o := range a.Outcomes {
			if b.Outcomes[o] == 0 {
				t.Errorf("%s: caching lost an outcome", name)
			}
		}
	}
	if (len(a.Failures) == 0) != (len(b.Failures) == 0) {
		t.Errorf("%s: caching changed the verdict", name)
	}
	if len(a.Diverged)+len(b.Diverged) > 0 {
		t.Errorf("%s: diverged %v %v", name, a.Diverged, b.Diverged)
	}
	t.Logf("%s bound %d: %d executions, %d outcomes; cached %d executions %d pruned %d states", name, bound, a.Executions, len(a.Outcomes), b.Executions, b.Pruned, b.States)
	return
}

func TestLostUpdate(t *testing.T) {
	body := func(x *vrt.X) {
		var v vatomic.Int32
		inc := func() { v.Store(v.Load() + 1) }
		a, b := x.Go("a", inc), x.Go("b", inc)
		x.Join(a, b)
		x.Outcome("%d", v.Load())
	}
	if r, _ := both(t, "lost update", 0, body); len(r.Outcomes) != 1 {
		t.Error("bound 0 must have one outcome")
	}
	if r, c := both(t, "lost update", 6, body); len(r.Outcomes) != 2 || len(c.Outcomes) != 2 {
		t.Error("lost update not found")
	}
}

func TestTrace3(t *testing.T) {
	// three goroutines appending to a log under a lock: 3! orders of 2 steps each = 90
	body := func(x *vrt.X) {
		var mu vsync.Mutex
		log := ""
		var ts []*vrt.Task
		for i := 0; i < 3; i++ {
			i := i
			ts = append(ts, x.Go(fmt.Sprint(i), func() {
				for k := 0; k < 2; k++ {
					mu.Lock()
					log += fmt.Sprint(i)
					mu.Unlock()
				}
			}))
		}
		x.Join(ts...)
		x.Outcome("%s", log)
	}
	_, c := both(t, "trace3 small", 2, body)
	c = vrt.ExploreForTest(body, 30, false, 0)
	if len(c.Outcomes) != 90 {
		t.Errorf("%d orders, want 90 (%d executions)", len(c.Outcomes), c.Executions)
	}
}

func TestDeadlock(t *testing.T) {
	r, _ := both(t, "deadlock", 1, func(x *vrt.X) {
		var a, b vsync.Mutex
		p := x.Go("p", func() { a.Lock(); b.Lock(); b.Unlock(); a.Unlock() })
		q := x.Go("q", func() { b.Lock(); a.Lock(); a.Unlock(); b.Unlock() })
		x.Join(p, q)
	})
	if len(r.Failures) == 0 {
		t.Error("deadlock not found")
	}
}

func TestChannels(t *testing.T) {
	body := func(x *vrt.X) {
		c := vrt.Made(make(chan int))
		d := vrt.Made(make(chan int, 1))
		for i := 0; i < 2; i++ {
			i := i
			x.Go("s", func() { vrt.Send(c, i) })
		}
		x.Go("d", func() { vrt.Send(d, 7); vrt.Send(d, 8); vrt.Close(d) })
		out := ""
		for k := 0; k < 5; k++ {
			rc, rd := vrt.CaseRecv(c), vrt.CaseRecv(d)
			switch vrt.Select(false, rc, rd) {
			case 0:
				out += fmt.Sprint("c", rc.Get())
			case 1:
				v, ok := rd.Get2()
				out += fmt.Sprint("d", v, ok)
			}
		}
		x.Outcome("%s", out)
	}
	r, _ := both(t, "channels", 3, body)
	if len(r.Outcomes) < 10 {
		t.Errorf("only %d outcomes", len(r.Outcomes))
	}
}

func TestTimeContext(t *testing.T) {
	body := func(x *vrt.X) {
		ctx, cancel := vctx.WithTimeout(vctx.Background(), 3*time.Second)
		defer cancel()
		tick := vtime.NewTicker(time.Second)
		n := 0
		for {
			a, b := vrt.CaseRecv(tick.C), vrt.CaseRecv(ctx.Done())
			if vrt.Select(false, a, b) == 1 {
				break
			}
			n++
		}
		x.Outcome("%d", n)
		if x.Elapsed() != 3*time.Second || n < 2 || n > 3 {
			x.Fail("elapsed %v ticks %d", x.Elapsed(), n)
		}
	}
	both(t, "time", 2, body)
}

func TestPanicAndSendOnClosed(t *testing.T) {
	r, _ := both(t, "closed", 1, func(x *vrt.X) {
		c := vrt.Made(make(chan int, 4))
		a := x.Go("a", func() { vrt.Send(c, 1) })
		b := x.Go("b", func() { vrt.Close(c) })
		x.Join(a, b)
	})
	if len(r.Failures) == 0 {
		t.Error("send on closed channel not found")
	}
}
