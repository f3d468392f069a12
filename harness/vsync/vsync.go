// Package vsync stands in for package sync in the code under test. Mutex, RWMutex and Once block on channels,
// so that a goroutine waiting for a lock is "durably blocked" for testing/synctest: virtual time can advance
// while a lock is held, and a deadlock is reported instead of hanging the process. Semantics (including the
// writer preference of RWMutex, i.e. no recursive read locking past a waiting writer) follow package sync.
package vsync

import (
	"sync"

	"vh/vrt"
)

type (
	Map       = sync.Map
	WaitGroup = sync.WaitGroup
	Cond      = sync.Cond
	Pool      = sync.Pool
	Locker    = sync.Locker
)

func NewCond(l Locker) *Cond { return sync.NewCond(l) }

type Mutex struct {
	mu     sync.Mutex
	locked bool
	q      []chan struct{}
}

func (m *Mutex) Lock() {
	vrt.Y(-1)
	m.LockQuietly()
}

// LockQuietly is Lock without a scheduling point (the stand-ins use it below locks that belong to others).
func (m *Mutex) LockQuietly() {
	m.mu.Lock()
	if !m.locked {
		m.locked = true
		m.mu.Unlock()
		return
	}
	ch := make(chan struct{})
	m.q = append(m.q, ch)
	m.mu.Unlock()
	<-ch
}

func (m *Mutex) TryLock() bool {
	m.mu.Lock()
	defer m.mu.Unlock()
	if m.locked {
		return false
	}
	m.locked = true
	return true
}

func (m *Mutex) Unlock() {
	m.mu.Lock()
	if !m.locked {
		m.mu.Unlock()
		panic("sync: unlock of unlocked mutex")
	}
	if len(m.q) > 0 {
		ch := m.q[0]
		m.q = m.q[1:]
		m.mu.Unlock()
		close(ch)
		return
	}
	m.locked = false
	m.mu.Unlock()
}

type waiter struct {
	write bool
	ch    chan struct{}
}

type RWMutex struct {
	mu      sync.Mutex
	readers int
	writer  bool
	q       []waiter
}

func (m *RWMutex) Lock() {
	vrt.Y(-2)
	m.mu.Lock()
	if !m.writer && m.readers == 0 && len(m.q) == 0 {
		m.writer = true
		m.mu.Unlock()
		return
	}
	ch := make(chan struct{})
	m.q = append(m.q, waiter{true, ch})
	m.mu.Unlock()
	<-ch
}

func (m *RWMutex) TryLock() bool {
	m.mu.Lock()
	defer m.mu.Unlock()
	if m.writer || m.readers > 0 || len(m.q) > 0 {
		return false
	}
	m.writer = true
	return true
}

func (m *RWMutex) RLock() {
	vrt.Y(-3)
	m.mu.Lock()
	waitingWriter := false
	for _, w := range m.q {
		if w.write {
			waitingWriter = true
		}
	}
	if !m.writer && !waitingWriter {
		m.readers++
		m.mu.Unlock()
		return
	}
	ch := make(chan struct{})
	m.q = append(m.q, waiter{false, ch})
	m.mu.Unlock()
	<-ch
}

func (m *RWMutex) TryRLock() bool {
	m.mu.Lock()
	defer m.mu.Unlock()
	if m.writer || len(m.q) > 0 {
		return false
	}
	m.readers++
	return true
}

// grant hands the lock to the head of the queue; m.mu is held.
func (m *RWMutex) grant() {
	for len(m.q) > 0 && !m.writer {
		w := m.q[0]
		if w.write {
			if m.readers > 0 {
				return
			}
			m.writer = true
			m.q = m.q[1:]
			close(w.ch)
			return
		}
		m.readers++
		m.q = m.q[1:]
		close(w.ch)
	}
}

func (m *RWMutex) Unlock() {
	m.mu.Lock()
	defer m.mu.Unlock()
	if !m.writer {
		panic("sync: Unlock of unlocked RWMutex")
	}
	m.writer = false
	m.grant()
}

func (m *RWMutex) RUnlock() {
	m.mu.Lock()
	defer m.mu.Unlock()
	if m.readers == 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	m.readers--
	m.grant()
}

type rlocker struct{ m *RWMutex }

func (r rlocker) Lock()   { r.m.RLock() }
func (r rlocker) Unlock() { r.m.RUnlock() }

func (m *RWMutex) RLocker() Locker { return rlocker{m} }

type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if o.done {
		return
	}
	defer func() { o.done = true }()
	f()
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var o Once
	var v1 T1
	var v2 T2
	return func() (T1, T2) { o.Do(func() { v1, v2 = f() }); return v1, v2 }
}
