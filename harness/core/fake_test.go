package main

import (
	"errors"
	"fmt"
	"time"

	"google.golang.org/protobuf/proto"
	"open-match.dev/core/internal/statestore/cache"
	store "open-match.dev/core/internal/statestore/datatypes"
	pb "open-match.dev/pkg/pb/v2"
	"verif.local/vrt"
	"verif.local/vrt/vctx"
)

// fakeStore is the simplest storage that fulfils the StateReplicator contract,
// with millisecond ids as Redis assigns them.
type fakeStore struct {
	queue       []*store.StateUpdate // written, not read yet
	log         []*store.StateUpdate // everything ever accepted
	ids         []string             // their ids
	hold        bool                 // GetUpdates waits although there are updates
	fail        func(u *store.StateUpdate) error
	slow        time.Duration // that a write takes
	calls       int
	batch       []int
	lastMs, seq int64
	o           vrt.Obj
}

func (f *fakeStore) GetReplIdValidationRegex() string { return `^\d+-\d+$` }

func (f *fakeStore) nextID() string {
	ms := vrt.RawNow() / 1e6
	if ms == f.lastMs {
		f.seq++
	} else {
		f.lastMs, f.seq = ms, 0
	}
	return fmt.Sprintf("%d-%d", ms, f.seq)
}

func (f *fakeStore) SendUpdates(us []*store.StateUpdate) []*store.StateResponse {
	if f.slow > 0 {
		vrt.Sleep(int64(f.slow))
	}
	vrt.Touch("store write", &f.o, true)
	f.calls++
	f.batch = append(f.batch, len(us))
	var out []*store.StateResponse
	for _, u := range us {
		var err error
		switch {
		case u.Cmd == store.Ticket && u.Value == "":
			err = errors.New("No ticket data")
		case u.Cmd != store.Ticket && u.Key == "":
			err = errors.New("Missing ticket key")
		case f.fail != nil:
			err = f.fail(u)
		}
		if err != nil {
			out = append(out, &store.StateResponse{Result: u.Key, Err: err})
			continue
		}
		id := f.nextID()
		c := *u
		if c.Cmd == store.Ticket {
			c.Key = id
		}
		f.queue = append(f.queue, &c)
		f.log = append(f.log, &c)
		f.ids = append(f.ids, id)
		out = append(out, &store.StateResponse{Result: id})
	}
	return out
}

func (f *fakeStore) GetUpdates() []*store.StateUpdate {
	vrt.WaitUntil("store read", &f.o, func() bool { return len(f.queue) > 0 && !f.hold })
	if vrt.Exiting() {
		vrt.Bail()
	}
	q := f.queue
	f.queue = nil
	return q
}

// inject makes the storage deliver updates as if another instance had written
// them.  The caller must not be preempted in between.
func (f *fakeStore) inject(us ...*store.StateUpdate) {
	vrt.Mark(&f.o, true, 0x1471)
	f.queue = append(f.queue, us...)
}

func (f *fakeStore) release(hold bool) {
	vrt.Touch("release", &f.o, true)
	f.hold = hold
}

// up makes updates.
func upTicket(id string, t *pb.Ticket, life time.Duration) *store.StateUpdate {
	c := proto.Clone(t).(*pb.Ticket)
	now := time.Unix(0, vrt.RawNow())
	if c.Attributes == nil {
		c.Attributes = &pb.Ticket_FilterableData{}
	}
	if c.Attributes.CreationTime == nil {
		c.Attributes.CreationTime = ts(now)
	}
	if c.ExpirationTime == nil {
		c.ExpirationTime = ts(now.Add(life))
	}
	b, err := proto.Marshal(c)
	if err != nil {
		panic(err)
	}
	return &store.StateUpdate{Cmd: store.Ticket, Key: id, Value: string(b)}
}

func upAct(id string) *store.StateUpdate { return &store.StateUpdate{Cmd: store.Activate, Key: id} }
func upDeact(id string) *store.StateUpdate {
	return &store.StateUpdate{Cmd: store.Deactivate, Key: id}
}
func upAssign(id, conn string) *store.StateUpdate {
	b, _ := proto.Marshal(&pb.Assignment{Connection: conn})
	return &store.StateUpdate{Cmd: store.Assign, Key: id, Value: string(b)}
}

// fid is the id of the n-th ticket created d after the start.
func fid(d time.Duration, n int) string {
	return fmt.Sprintf("%d-%d", (1_700_000_000*1e9+int64(d))/1e6, n)
}

var _ store.StateReplicator = (*fakeStore)(nil)
var _ = cache.UpdateRequest{}

// cancelled tells whether a context is done, without a scheduling point.
func cancelled(ctx vctx.Context) bool { return vctx.RawErr(ctx) != nil }
