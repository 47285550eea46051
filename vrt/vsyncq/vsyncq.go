// Package vsyncq is vsync for third-party code whose mutexes are not of
// interest: locking is a scheduling point only when the lock is held.
package vsyncq

import (
	"verif.local/vrt"
	"verif.local/vrt/vsync"
)

type (
	Locker    = vsync.Locker
	Once      = vsync.Once
	WaitGroup = vsync.WaitGroup
	Cond      = vsync.Cond
	Pool      = vsync.Pool
	Map       = vsync.Map
)

func NewCond(l Locker) *Cond { return vsync.NewCond(l) }

// Mutex stands in for sync.Mutex.
type Mutex struct {
	o      vrt.Obj
	locked bool
	epoch  uint64
}

func (m *Mutex) Lock() {
	if vrt.Exiting() {
		vrt.Bail()
		return
	}
	if e := vrt.Epoch(); m.epoch != e {
		m.epoch = e
		m.locked = false
	}
	if m.locked {
		vrt.TouchWhen("mutex lock (contended)", &m.o, func() bool { return !m.locked })
	} else {
		vrt.Mark(&m.o, true, 0x10c)
	}
	m.locked = true
}

func (m *Mutex) Unlock() {
	if vrt.Exiting() {
		return
	}
	vrt.Mark(&m.o, true, 0x0c)
	m.locked = false
}

// RWMutex is treated as a Mutex.
type RWMutex struct{ Mutex }

func (m *RWMutex) RLock()   { m.Lock() }
func (m *RWMutex) RUnlock() { m.Unlock() }
