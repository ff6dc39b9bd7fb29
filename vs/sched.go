// Package vs is a controlled cooperative scheduler.  The code under test is
// rewritten (tool/rewrite) so that every goroutine creation, channel
// operation, lock, timer and clock read goes through this package.  Exactly
// one goroutine runs at a time; at every synchronisation point the scheduler
// picks the next goroutine (and the select case / rendezvous partner) from the
// prescribed choice sequence, so that the explorer (explore.go) can enumerate
// the executions exhaustively within a deviation bound.
//
// A goroutine parked on an operation is modelled as "about to execute the
// operation"; the operation takes effect when the scheduler picks it.
package vs

import (
	"fmt"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"time"
)

type opKind uint8

const (
	opStart opKind = iota
	opPoint
	opSend
	opRecv
	opSelect
	opLock
	opRLock
	opWAnnounce
	opWait
	opOnce
	opCond
	opSleep
	opSettle
	opJoin
)

var opNames = [...]string{"start", "point", "send", "recv", "select", "lock", "rlock", "wlock-announce", "wg.wait", "once", "cond.wait", "sleep", "settle", "join"}

// scase is one communication alternative of a parked goroutine.
type scase struct {
	ch   *hchan
	send bool
	val  any
}

type G struct {
	id      int
	name    string
	wake    chan struct{}
	exited  chan struct{}
	kind    opKind
	cases   []scase
	one     [1]scase
	hasDef  bool
	lk      *lockState
	wg      *wgState
	done    bool // opSleep/opCond: the event has happened
	settled bool // parked since the last quiescence: really waiting
	// results
	rIdx int
	rVal any
	rOK  bool
	// race emulation
	relCell *int64
	acq     []*int64
	low     bool // has yielded: schedule after the others
	fin     bool
	joiners int
	what    string
	busy    bool
	pc      uintptr // where it was started
}

type timer struct {
	when   int64
	seq    int
	active bool
	period int64
	ch     *hchan
	g      *G
	fn     func()
}

type point struct {
	n    uint16 // alternatives
	cost uint8  // cost of a non default choice
}

type Opts struct {
	Bound      int   // maximum total deviation cost
	MapOrder   bool  // explore map iteration orders (cost 1 each)
	MapFree    bool  // map iteration orders are free choices
	EarlyTimer bool  // allow firing the next timer while goroutines are enabled (cost 1)
	SchedOff   bool  // do not explore scheduling alternatives (default schedule only)
	CaseOff    bool  // do not explore select-case alternatives
	MaxSteps   int   // horizon in scheduling steps
	MaxTime    int64 // horizon in virtual ns
	// Queues, if set, is the room of channels that are made with room for 100 to
	// 1999 elements, so that small executions fill them.
	Queues int
}

type Sched struct {
	gs      []*G // live goroutines
	cur     *G
	nextID  int
	now     int64
	timers  []*timer
	tseq    int
	opts    Opts
	prefix  []uint16
	choices []uint16
	points  []point
	steps   int
	dead    bool
	ending  bool
	endCh   chan struct{}
	failure string
	detail  string
	diverge string
	chans   chanTable
	main    *G
	trace   []string
	tracing bool
	obs     strings.Builder
	nState  uint64
	buf     []cand
	spin    int
	cleanup []func()
}

// S is the scheduler of the execution in progress, nil outside executions.
var S *Sched

var epoch int64

const baseUnix = 1600000000

type cand struct {
	g       *G
	idx     int // case index (-1: default)
	partner *G
	pidx    int
	cost    uint8
}

func (s *Sched) tracef(format string, a ...any) {
	if s.tracing {
		raceDisable()
		s.trace = append(s.trace, fmt.Sprintf(format, a...))
		raceEnable()
	}
}

// choose takes the next choice among n alternatives.
func (s *Sched) choose(n int, cost uint8) int {
	if n <= 1 {
		return 0
	}
	if n > 60000 {
		panic("vs: too many alternatives")
	}
	pos := len(s.choices)
	c := uint16(0)
	if pos < len(s.prefix) {
		c = s.prefix[pos]
		if int(c) >= n {
			s.diverge = fmt.Sprintf("choice %d at point %d but only %d alternatives", c, pos, n)
			c = 0
		}
	}
	s.choices = append(s.choices, c)
	s.points = append(s.points, point{uint16(n), cost})
	return int(c)
}

// fail ends the execution with a violation.
func (s *Sched) fail(msg, detail string) {
	if s.failure == "" {
		s.failure = msg
		s.detail = detail
	}
	s.end()
}

func (s *Sched) end() {
	if !s.ending {
		s.ending = true
		raceDisable()
		close(s.endCh)
		raceEnable()
	}
}

// yield parks the current goroutine on the operation described in its fields
// and runs the scheduler.
func (s *Sched) yield() *G {
	g := s.cur
	if s.dead {
		runtime.Goexit()
	}
	raceRel(g)
	next := s.pick()
	if next == nil { // execution over
		raceDisable()
		<-g.wake
		raceEnable()
		runtime.Goexit()
	}
	if next != g {
		s.cur = next
		raceDisable()
		next.wake <- struct{}{}
		<-g.wake
		raceEnable()
		if s.dead {
			runtime.Goexit()
		}
	}
	s.cur = g
	raceAcqAll(g)
	return g
}

// hand off when the current goroutine finishes
func (s *Sched) finish(g *G) {
	g.fin = true
	if s.dead || s.ending {
		return // the host walks s.gs
	}
	for i, x := range s.gs {
		if x == g {
			s.gs = append(s.gs[:i], s.gs[i+1:]...)
			break
		}
	}
	if g == s.main {
		s.end()
		return
	}
	next := s.pick()
	if next == nil {
		return
	}
	s.cur = next
	raceDisable()
	next.wake <- struct{}{}
	raceEnable()
}

// pick selects the next goroutine and performs its transition. nil: execution over.
func (s *Sched) pick() *G {
	for {
		if s.ending {
			return nil
		}
		s.steps++
		if s.steps > s.opts.MaxSteps {
			s.fail("HANG: step horizon exceeded", s.dump())
			return nil
		}
		cur := s.cur
		// order: current first, then round robin by id after current
		cands := s.buf[:0]
		n := len(s.gs)
		start := 0
		for i, g := range s.gs {
			if g.id >= cur.id {
				start = i
				break
			}
			start = i + 1
		}
		nLow := 0
		for i := 0; i < n; i++ {
			g := s.gs[(start+i)%n]
			if g.kind == opSettle {
				continue
			}
			if !s.enabled(g) {
				continue
			}
			if g.low {
				nLow++
				continue
			}
			cands = append(cands, cand{g: g})
		}
		if nLow > 0 {
			for i := 0; i < n; i++ {
				g := s.gs[(start+i)%n]
				if g.low && g.kind != opSettle && s.enabled(g) {
					cands = append(cands, cand{g: g})
				}
			}
		}
		s.buf = cands
		if len(cands) == 0 {
			// settle points run when nothing else can
			var st *G
			for i := 0; i < n; i++ {
				g := s.gs[(start+i)%n]
				if g.kind == opSettle {
					st = g
					break
				}
			}
			for _, g := range s.gs {
				g.settled = true
			}
			if st != nil {
				st.settled = false
				s.tracef("%v: settled", st.name)
				return st
			}
			if s.fireTimer() {
				continue
			}
			if s.failure == "" {
				s.fail("HANG: deadlock", s.dump())
			}
			return nil
		}
		alts := len(cands)
		if s.opts.SchedOff {
			alts = 1
		}
		extra := 0
		if s.opts.EarlyTimer && s.nextTimer() != nil {
			extra = 1
		}
		if len(cands) == nLow && nLow > 0 && extra == 0 {
			// only spinners: let time pass as well
			s.spin++
			if s.spin > 50 {
				s.spin = 0
				if s.fireTimer() {
					continue
				}
			}
		} else {
			s.spin = 0
		}
		c := s.choose(alts+extra, 1)
		if c >= alts {
			s.tracef("(timer fires early)")
			s.fireTimer()
			continue
		}
		g := cands[c].g
		g.low = false
		s.execute(g)
		g.settled = false
		return g
	}
}

// enabled reports whether g's pending operation can take effect.
func (s *Sched) enabled(g *G) bool {
	switch g.kind {
	case opStart, opPoint:
		return true
	case opSend, opRecv, opSelect:
		if g.hasDef {
			return true
		}
		for i := range g.cases {
			if s.caseReady(g, &g.cases[i]) {
				return true
			}
		}
		return false
	case opLock:
		return !g.lk.held && g.lk.readers == 0
	case opRLock:
		return !g.lk.held && g.lk.announced == 0
	case opWait:
		return g.wg.n == 0
	case opOnce:
		return !g.lk.held
	case opCond, opSleep:
		return g.done
	case opJoin:
		return g.done
	}
	return false
}

func (s *Sched) caseReady(g *G, c *scase) bool {
	ch := c.ch
	if ch == nil {
		return false
	}
	if c.send {
		if ch.closed || len(ch.buf) < ch.cap {
			return true
		}
		if ch.cap == 0 {
			return s.partner(g, ch, false) != nil
		}
		return false
	}
	if len(ch.buf) > 0 || ch.closed {
		return true
	}
	if ch.cap == 0 {
		return s.partner(g, ch, true) != nil
	}
	return false
}

// partner finds a goroutine parked on the opposite operation of an unbuffered
// channel.  Goroutines in a select with default do not wait and are no
// partners.
func (s *Sched) partner(g *G, ch *hchan, send bool) *G {
	for _, x := range s.gs {
		if x == g || x.hasDef || x.kind < opSend || x.kind > opSelect {
			continue
		}
		for i := range x.cases {
			if x.cases[i].ch == ch && x.cases[i].send == send {
				return x
			}
		}
	}
	return nil
}

// execute performs the transition of g, choosing the case and the partner.
func (s *Sched) execute(g *G) {
	switch g.kind {
	case opSend, opRecv, opSelect:
		var arr [16]cand
		alts := arr[:0]
		allUnsure := true
		for i := range g.cases {
			c := &g.cases[i]
			ch := c.ch
			if ch == nil {
				continue
			}
			if ch.closed || (c.send && len(ch.buf) < ch.cap) || (!c.send && len(ch.buf) > 0) {
				alts = append(alts, cand{g: g, idx: i, cost: 1})
				allUnsure = false
				continue
			}
			if ch.cap == 0 {
				for _, x := range s.gs {
					if x == g || x.hasDef || x.kind < opSend || x.kind > opSelect {
						continue
					}
					for j := range x.cases {
						if x.cases[j].ch == ch && x.cases[j].send != c.send {
							alts = append(alts, cand{g: g, idx: i, partner: x, pidx: j, cost: 1})
							if x.settled {
								allUnsure = false
							}
							break
						}
					}
				}
			}
		}
		n := len(alts)
		if g.hasDef {
			if n == 0 {
				g.rIdx, g.rVal, g.rOK = -1, nil, false
				s.tracef("%v: %v default", g.name, opNames[g.kind])
				return
			}
			if allUnsure {
				// the partner may not have reached its operation yet
				n++
			}
		}
		c := 0
		if !s.opts.CaseOff {
			c = s.choose(n, 1)
		}
		if c == len(alts) {
			g.rIdx, g.rVal, g.rOK = -1, nil, false
			s.tracef("%v: %v default (partner late)", g.name, opNames[g.kind])
			return
		}
		s.commit(g, alts[c])
	case opLock:
		g.lk.held = true
		if g.lk.announced > 0 {
			g.lk.announced--
		}
		s.tracef("%v: lock", g.name)
		g.acquire(&g.lk.cell)
	case opRLock:
		g.lk.readers++
		s.tracef("%v: rlock", g.name)
		g.acquire(&g.lk.cell)
	case opWait:
		s.tracef("%v: wg.wait", g.name)
		g.acquire(&g.wg.cell)
	case opOnce:
		g.acquire(&g.lk.cell)
	case opCond:
		g.acquire(&g.lk.cell2)
	default:
		if s.tracing && g.kind != opPoint {
			s.tracef("%v: %v %v", g.name, opNames[g.kind], g.what)
		}
	}
}

func (s *Sched) commit(g *G, a cand) {
	c := &g.cases[a.idx]
	ch := c.ch
	g.rIdx = a.idx
	if c.send {
		if ch.closed {
			g.rOK = false
			g.rVal = sendOnClosed{}
			return
		}
		g.rOK = true
		g.rVal = nil
		if a.partner != nil {
			p := a.partner
			p.rIdx, p.rVal, p.rOK = a.pidx, c.val, true
			p.acquire(g.relCell)
			g.acquire(p.relCell)
			p.kind = opPoint
			p.cases = nil
			p.what = "received"
			s.tracef("%v: send %v -> %v", g.name, ch.label(), p.name)
			return
		}
		ch.sendBuf(g, c.val)
		s.tracef("%v: send %v (%d/%d)", g.name, ch.label(), len(ch.buf), ch.cap)
		return
	}
	if len(ch.buf) > 0 {
		g.rVal, g.rOK = ch.recvBuf(g), true
		s.tracef("%v: recv %v (%d/%d)", g.name, ch.label(), len(ch.buf), ch.cap)
		return
	}
	if a.partner != nil {
		p := a.partner
		g.rVal, g.rOK = p.cases[a.pidx].val, true
		p.rIdx, p.rVal, p.rOK = a.pidx, nil, true
		p.acquire(g.relCell)
		g.acquire(p.relCell)
		p.kind = opPoint
		p.cases = nil
		p.what = "sent"
		s.tracef("%v: recv %v <- %v", g.name, ch.label(), p.name)
		return
	}
	g.rVal, g.rOK = nil, false
	g.acquire(&ch.closeCell)
	s.tracef("%v: recv %v closed", g.name, ch.label())
}

type sendOnClosed struct{}

func (s *Sched) nextTimer() *timer {
	var best *timer
	for _, t := range s.timers {
		if !t.active {
			continue
		}
		if best == nil || t.when < best.when || (t.when == best.when && t.seq < best.seq) {
			best = t
		}
	}
	return best
}

func (s *Sched) fireTimer() bool {
	t := s.nextTimer()
	if t == nil {
		return false
	}
	if t.when > s.now {
		s.now = t.when
	}
	if s.now > s.opts.MaxTime {
		s.fail("HANG: time horizon exceeded", s.dump())
		return true
	}
	if t.period > 0 {
		t.when = s.now + t.period
		s.tseq++
		t.seq = s.tseq
	} else {
		t.active = false
		s.dropTimer(t)
	}
	switch {
	case t.g != nil:
		t.g.done = true
	case t.fn != nil:
		fn := t.fn
		s.spawn("timer", fn)
	case t.ch != nil:
		if len(t.ch.buf) < t.ch.cap {
			t.ch.buf = append(t.ch.buf, nowTime(s))
			t.ch.sent++
		}
	}
	s.tracef("time %v", time.Duration(s.now))
	return true
}

func (s *Sched) dropTimer(t *timer) {
	for i, x := range s.timers {
		if x == t {
			s.timers[i] = s.timers[len(s.timers)-1]
			s.timers = s.timers[:len(s.timers)-1]
			return
		}
	}
}

func (s *Sched) addTimer(t *timer, d int64) {
	if d < 0 {
		d = 0
	}
	t.when = s.now + d
	s.tseq++
	t.seq = s.tseq
	t.active = true
	s.timers = append(s.timers, t)
}

func (s *Sched) dump() string {
	var b strings.Builder
	for _, g := range s.gs {
		fmt.Fprintf(&b, "%v: %v %v", g.name, opNames[g.kind], g.what)
		for _, c := range g.cases {
			if c.ch == nil {
				b.WriteString(" nil")
				continue
			}
			dir := "<-"
			if c.send {
				dir = "->"
			}
			fmt.Fprintf(&b, " %v%v[%d/%d closed=%v]", dir, c.ch.label(), len(c.ch.buf), c.ch.cap, c.ch.closed)
		}
		b.WriteString("; ")
	}
	return b.String()
}

func (s *Sched) spawn(name string, f func()) *G {
	s.nextID++
	g := &G{id: s.nextID, wake: make(chan struct{}, 1), exited: make(chan struct{}), kind: opStart}
	if s.tracing {
		g.name = fmt.Sprintf("g%d(%s)", g.id, name)
	}
	s.gs = append(s.gs, g)
	go s.body(g, f)
	return g
}

func (s *Sched) body(g *G, f func()) {
	defer func() {
		if r := recover(); r != nil {
			if !s.dead {
				raceDisable()
				s.fail(fmt.Sprintf("PANIC: %v", r), string(debug.Stack()))
				raceEnable()
			}
		}
		s.finish(g)
		raceDisable()
		close(g.exited)
		raceEnable()
	}()
	raceDisable()
	<-g.wake
	raceEnable()
	if s.dead {
		return
	}
	f()
}

// Go starts f as a scheduled goroutine.
func Go(f func()) {
	s := S
	if s == nil {
		go f()
		return
	}
	if s.dead {
		return
	}
	var pcs [1]uintptr
	runtime.Callers(2, pcs[:])
	name := ""
	if s.tracing {
		name = site(pcs[0])
	}
	s.spawn(name, f).pc = pcs[0]
	Point()
}

func site(pc uintptr) string {
	if pc == 0 {
		return "main"
	}
	fr, _ := runtime.CallersFrames([]uintptr{pc}).Next()
	d, f := filepath.Split(fr.File)
	return fmt.Sprintf("%s/%s:%d", filepath.Base(d), f, fr.Line)
}

// Live names the goroutines that have not ended, apart from the calling one,
// by the places they were started at.
func (t *T) Live() []string {
	var r []string
	for _, g := range t.s.gs {
		if g != t.s.cur {
			r = append(r, site(g.pc))
		}
	}
	sort.Strings(r)
	return r
}

// Point is a scheduling point without an operation.
func Point() {
	s := S
	if s == nil || s.dead {
		return
	}
	g := s.cur
	g.kind = opPoint
	g.what = ""
	g.cases = nil
	g.hasDef = false
	s.yield()
}

// Gosched yields to the other goroutines.
func Gosched() {
	s := S
	if s == nil {
		runtime.Gosched()
		return
	}
	if s.dead {
		return
	}
	s.cur.low = true
	Point()
}

// Settle blocks until no other goroutine can make progress without time passing.
func Settle() {
	s := S
	if s == nil || s.dead {
		return
	}
	g := s.cur
	g.kind = opSettle
	g.cases = nil
	g.hasDef = false
	s.yield()
}

// run executes f as the main goroutine under the prescribed choices.
func run(opts Opts, prefix []uint16, tracing bool, f func()) *Sched {
	if opts.MaxSteps == 0 {
		opts.MaxSteps = 20000
	}
	if opts.MaxTime == 0 {
		opts.MaxTime = int64(10 * time.Minute)
	}
	s := &Sched{opts: opts, prefix: prefix, endCh: make(chan struct{}), tracing: tracing}
	epoch++
	S = s
	m := s.spawn("main", f)
	s.main = m
	s.cur = m
	m.kind = opPoint
	raceDisable()
	m.wake <- struct{}{}
	<-s.endCh
	raceEnable()
	// the goroutine that ended the execution is about to exit or to park
	s.dead = true
	for i := 0; i < len(s.gs); i++ {
		g := s.gs[i]
		raceDisable()
		select {
		case g.wake <- struct{}{}:
		default:
		}
		<-g.exited
		raceEnable()
	}
	S = nil
	return s
}

func nowTime(s *Sched) time.Time {
	return time.Unix(baseUnix, 0).UTC().Add(time.Duration(s.now))
}
