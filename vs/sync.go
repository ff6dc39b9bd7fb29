package vs

import (
	"runtime"
	"sync"
)

func deadBlock() { runtime.Goexit() }

type lockState struct {
	epoch     int64
	held      bool
	readers   int
	announced int
	fin       bool
	cell      int64
	cell2     int64
}

func (l *lockState) fresh() {
	if l.epoch != epoch {
		*l = lockState{epoch: epoch}
	}
}

type wgState struct {
	epoch int64
	n     int
	cell  int64
}

func (s *Sched) block(kind opKind, lk *lockState, wg *wgState) {
	g := s.cur
	g.kind = kind
	g.cases = nil
	g.hasDef = false
	g.lk = lk
	g.wg = wg
	s.yield()
	g.lk = nil
	g.wg = nil
}

// Locker is sync.Locker.
type Locker = sync.Locker

// Mutex is sync.Mutex.
type Mutex struct {
	m sync.Mutex
	l lockState
}

func (m *Mutex) Lock() {
	s := S
	if s == nil {
		m.m.Lock()
		return
	}
	if s.dead {
		return
	}
	m.l.fresh()
	s.block(opLock, &m.l, nil)
}

func (m *Mutex) TryLock() bool {
	s := S
	if s == nil {
		return m.m.TryLock()
	}
	if s.dead {
		return true
	}
	m.l.fresh()
	Point()
	if m.l.held {
		return false
	}
	m.l.held = true
	raceAcquire(&m.l.cell)
	return true
}

func (m *Mutex) Unlock() {
	s := S
	if s == nil {
		m.m.Unlock()
		return
	}
	if s.dead {
		return
	}
	m.l.fresh()
	if !m.l.held {
		panic("fatal error: sync: unlock of unlocked mutex")
	}
	raceReleaseMerge(&m.l.cell)
	m.l.held = false
	s.tracef("%v: unlock", s.cur.name)
}

// RWMutex is sync.RWMutex.
type RWMutex struct {
	m sync.RWMutex
	l lockState
}

func (m *RWMutex) Lock() {
	s := S
	if s == nil {
		m.m.Lock()
		return
	}
	if s.dead {
		return
	}
	m.l.fresh()
	Point()
	m.l.announced++
	s.block(opLock, &m.l, nil)
}

func (m *RWMutex) TryLock() bool {
	s := S
	if s == nil {
		return m.m.TryLock()
	}
	if s.dead {
		return true
	}
	m.l.fresh()
	Point()
	if m.l.held || m.l.readers > 0 {
		return false
	}
	m.l.held = true
	raceAcquire(&m.l.cell)
	return true
}

func (m *RWMutex) Unlock() {
	s := S
	if s == nil {
		m.m.Unlock()
		return
	}
	if s.dead {
		return
	}
	m.l.fresh()
	if !m.l.held {
		panic("fatal error: sync: Unlock of unlocked RWMutex")
	}
	raceReleaseMerge(&m.l.cell)
	m.l.held = false
}

func (m *RWMutex) RLock() {
	s := S
	if s == nil {
		m.m.RLock()
		return
	}
	if s.dead {
		return
	}
	m.l.fresh()
	s.block(opRLock, &m.l, nil)
}

func (m *RWMutex) TryRLock() bool {
	s := S
	if s == nil {
		return m.m.TryRLock()
	}
	if s.dead {
		return true
	}
	m.l.fresh()
	Point()
	if m.l.held || m.l.announced > 0 {
		return false
	}
	m.l.readers++
	raceAcquire(&m.l.cell)
	return true
}

func (m *RWMutex) RUnlock() {
	s := S
	if s == nil {
		m.m.RUnlock()
		return
	}
	if s.dead {
		return
	}
	m.l.fresh()
	if m.l.readers == 0 {
		panic("fatal error: sync: RUnlock of unlocked RWMutex")
	}
	// writers acquire cell; readers do not acquire from readers in the real
	// detector, the merge into one cell only hides races between a reader's
	// critical section and a later reader's
	raceReleaseMerge(&m.l.cell)
	m.l.readers--
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

func (m *RWMutex) RLocker() sync.Locker { return (*rlocker)(m) }

// WaitGroup is sync.WaitGroup.
type WaitGroup struct {
	m sync.WaitGroup
	w wgState
}

func (w *WaitGroup) Add(d int) {
	s := S
	if s == nil {
		w.m.Add(d)
		return
	}
	if s.dead {
		return
	}
	if w.w.epoch != epoch {
		w.w = wgState{epoch: epoch}
	}
	Point()
	if d < 0 {
		raceReleaseMerge(&w.w.cell)
	}
	w.w.n += d
	if w.w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
}

func (w *WaitGroup) Done() { w.Add(-1) }

func (w *WaitGroup) Wait() {
	s := S
	if s == nil {
		w.m.Wait()
		return
	}
	if s.dead {
		deadBlock()
	}
	if w.w.epoch != epoch {
		w.w = wgState{epoch: epoch}
	}
	s.block(opWait, nil, &w.w)
}

func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	Go(func() {
		defer w.Done()
		f()
	})
}

// Once is sync.Once.
type Once struct {
	m sync.Once
	l lockState
}

func (o *Once) Do(f func()) {
	s := S
	if s == nil {
		o.m.Do(f)
		return
	}
	if s.dead {
		return
	}
	o.l.fresh()
	if o.l.fin {
		raceAcquire(&o.l.cell)
		return
	}
	s.block(opLock, &o.l, nil)
	if o.l.fin {
		o.l.held = false
		return
	}
	defer func() {
		o.l.fin = true
		o.l.held = false
		if !s.dead {
			raceReleaseMerge(&o.l.cell)
		}
	}()
	f()
}

func OnceFunc(f func()) func() {
	o := new(Once)
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	o := new(Once)
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	o := new(Once)
	var v T
	var u U
	return func() (T, U) { o.Do(func() { v, u = f() }); return v, u }
}

// Cond is sync.Cond.
type Cond struct {
	L  sync.Locker
	m  *sync.Cond
	l  lockState
	ws []*G
}

func NewCond(l sync.Locker) *Cond { return &Cond{L: l} }

func (c *Cond) real() *sync.Cond {
	if c.m == nil {
		c.m = sync.NewCond(c.L)
	}
	return c.m
}

func (c *Cond) Wait() {
	s := S
	if s == nil {
		c.real().Wait()
		return
	}
	if s.dead {
		deadBlock()
	}
	g := s.cur
	g.done = false
	c.ws = append(c.ws, g)
	c.L.Unlock()
	s.block(opCond, &c.l, nil)
	c.L.Lock()
}

func (c *Cond) Signal() {
	s := S
	if s == nil {
		c.real().Signal()
		return
	}
	if s.dead {
		return
	}
	Point()
	raceReleaseMerge(&c.l.cell2)
	if len(c.ws) > 0 {
		i := s.choose(len(c.ws), 1)
		c.ws[i].done = true
		c.ws = append(c.ws[:i:i], c.ws[i+1:]...)
	}
}

func (c *Cond) Broadcast() {
	s := S
	if s == nil {
		c.real().Broadcast()
		return
	}
	if s.dead {
		return
	}
	Point()
	raceReleaseMerge(&c.l.cell2)
	for _, g := range c.ws {
		g.done = true
	}
	c.ws = nil
}
