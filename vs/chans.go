package vs

import (
	"reflect"
	"strconv"
	"unsafe"
)

// hchan is the model of a channel.
type hchan struct {
	key       unsafe.Pointer
	ref       any
	id        int
	cap       int
	buf       []any
	closed    bool
	closeCell int64
	sent      int
	rcvd      int
	sendCells []*int64
	recvCells []*int64
}

func (c *hchan) label() string { return "ch" + strconv.Itoa(c.id) }

func (c *hchan) sendBuf(g *G, v any) {
	c.buf = append(c.buf, v)
	c.raceSend(g)
}

func (c *hchan) recvBuf(g *G) any {
	v := c.buf[0]
	c.buf[0] = nil
	c.buf = c.buf[1:]
	c.raceRecv(g)
	return v
}

// chanTable maps channel identity to its model (no Go map: the race detector
// instruments map accesses inside the runtime).
type chanTable struct {
	slots []*hchan
	n     int
}

func hashPtr(p unsafe.Pointer) uintptr {
	x := uintptr(p)
	x ^= x >> 33
	x *= 0x9E3779B97F4A7C15
	return x ^ (x >> 29)
}

func (t *chanTable) get(key unsafe.Pointer) *hchan {
	if len(t.slots) == 0 {
		return nil
	}
	m := uintptr(len(t.slots) - 1)
	for i := hashPtr(key) & m; ; i = (i + 1) & m {
		c := t.slots[i]
		if c == nil || c.key == key {
			return c
		}
	}
}

func (t *chanTable) put(c *hchan) {
	if 2*(t.n+1) > len(t.slots) {
		old := t.slots
		n := 2 * len(old)
		if n == 0 {
			n = 64
		}
		t.slots = make([]*hchan, n)
		for _, o := range old {
			if o != nil {
				t.insert(o)
			}
		}
	}
	t.insert(c)
	t.n++
}

func (t *chanTable) insert(c *hchan) {
	m := uintptr(len(t.slots) - 1)
	i := hashPtr(c.key) & m
	for t.slots[i] != nil {
		i = (i + 1) & m
	}
	t.slots[i] = c
}

func (s *Sched) model(key unsafe.Pointer, capacity int, ref any) *hchan {
	if key == nil {
		return nil
	}
	if c := s.chans.get(key); c != nil {
		return c
	}
	if q := s.opts.Queues; q > 0 && capacity >= 100 && capacity < 2000 {
		capacity = q
	}
	c := &hchan{key: key, cap: capacity, ref: ref, id: s.chans.n + 1}
	s.chans.put(c)
	return c
}

func chR[T any](s *Sched, ch <-chan T) *hchan {
	return s.model(*(*unsafe.Pointer)(unsafe.Pointer(&ch)), cap(ch), ch)
}

func chS[T any](s *Sched, ch chan<- T) *hchan {
	return s.model(*(*unsafe.Pointer)(unsafe.Pointer(&ch)), cap(ch), ch)
}

func conv[T any](v any) T {
	if v == nil {
		var z T
		return z
	}
	return v.(T)
}

// Recv is <-ch.
func Recv[T any](ch <-chan T) T {
	v, _ := Recv2(ch)
	return v
}

// Recv2 is the comma-ok receive.
func Recv2[T any](ch <-chan T) (T, bool) {
	s := S
	if s == nil {
		v, ok := <-ch
		return v, ok
	}
	if s.dead {
		deadBlock()
	}
	g := s.cur
	g.kind = opRecv
	g.one[0] = scase{ch: chR(s, ch)}
	g.cases = g.one[:]
	g.hasDef = false
	s.yield()
	v := g.rVal
	ok := g.rOK
	g.rVal = nil
	g.one[0] = scase{}
	return conv[T](v), ok
}

// Sender is a send statement in two steps, so that the value is converted to
// the element type by the compiler.
type Sender[T any] struct{ ch chan<- T }

func SendTo[T any](ch chan<- T) Sender[T] { return Sender[T]{ch} }

// Do performs ch <- v.
func (x Sender[T]) Do(v T) {
	s := S
	if s == nil {
		x.ch <- v
		return
	}
	if s.dead {
		deadBlock()
	}
	g := s.cur
	g.kind = opSend
	g.one[0] = scase{ch: chS(s, x.ch), send: true, val: v}
	g.cases = g.one[:]
	g.hasDef = false
	s.yield()
	g.one[0] = scase{}
	if !g.rOK {
		panic("send on closed channel")
	}
}

// Case is one case of a select statement.
type Case interface {
	model(s *Sched) scase
	set(v any, ok bool)
	reflectCase() reflect.SelectCase
	setReflect(v reflect.Value, ok bool)
}

type RCase[T any] struct {
	ch <-chan T
	v  T
	ok bool
}

func RecvCase[T any](ch <-chan T) *RCase[T] { return &RCase[T]{ch: ch} }

func (c *RCase[T]) Val() T          { return c.v }
func (c *RCase[T]) Val2() (T, bool) { return c.v, c.ok }
func (c *RCase[T]) model(s *Sched) scase {
	return scase{ch: chR(s, c.ch)}
}
func (c *RCase[T]) set(v any, ok bool) { c.v, c.ok = conv[T](v), ok }
func (c *RCase[T]) reflectCase() reflect.SelectCase {
	return reflect.SelectCase{Dir: reflect.SelectRecv, Chan: reflect.ValueOf(c.ch)}
}
func (c *RCase[T]) setReflect(v reflect.Value, ok bool) {
	if ok {
		c.v, _ = v.Interface().(T)
	}
	c.ok = ok
}

type SCase[T any] struct {
	ch chan<- T
	v  T
}

// Put makes a select case of the send.
func (x Sender[T]) Put(v T) *SCase[T] { return &SCase[T]{x.ch, v} }

func (c *SCase[T]) model(s *Sched) scase {
	return scase{ch: chS(s, c.ch), send: true, val: c.v}
}
func (c *SCase[T]) set(v any, ok bool) {
	if !ok {
		panic("send on closed channel")
	}
}
func (c *SCase[T]) reflectCase() reflect.SelectCase {
	return reflect.SelectCase{Dir: reflect.SelectSend, Chan: reflect.ValueOf(c.ch), Send: reflect.ValueOf(&c.v).Elem()}
}
func (c *SCase[T]) setReflect(v reflect.Value, ok bool) {}

// Select runs a select statement; -1 is the default case.
func Select(hasDefault bool, cases ...Case) int {
	s := S
	if s == nil {
		rc := make([]reflect.SelectCase, 0, len(cases)+1)
		for _, c := range cases {
			rc = append(rc, c.reflectCase())
		}
		if hasDefault {
			rc = append(rc, reflect.SelectCase{Dir: reflect.SelectDefault})
		}
		i, v, ok := reflect.Select(rc)
		if i == len(cases) {
			return -1
		}
		cases[i].setReflect(v, ok)
		return i
	}
	if s.dead {
		if hasDefault {
			return -1
		}
		deadBlock()
	}
	g := s.cur
	g.kind = opSelect
	cs := make([]scase, len(cases))
	for i, c := range cases {
		cs[i] = c.model(s)
	}
	g.cases = cs
	g.hasDef = hasDefault
	s.yield()
	g.cases = nil
	if g.rIdx < 0 {
		return -1
	}
	v, ok := g.rVal, g.rOK
	g.rVal = nil
	cases[g.rIdx].set(v, ok)
	return g.rIdx
}

// Block is select {}.
func Block() { Select(false) }

// Close is close(ch).
func Close[T any](ch chan<- T) {
	s := S
	if s == nil {
		close(ch)
		return
	}
	if s.dead {
		return
	}
	Point()
	c := chS(s, ch)
	if c == nil {
		panic("close of nil channel")
	}
	if c.closed {
		panic("close of closed channel")
	}
	c.closed = true
	s.tracef("%v: close %v", s.cur.name, c.label())
	raceReleaseMerge(&c.closeCell)
}

// Len is len(ch).
func Len[T any](ch <-chan T) int {
	s := S
	if s == nil {
		return len(ch)
	}
	if s.dead {
		return 0
	}
	Point()
	c := chR(s, ch)
	if c == nil {
		return 0
	}
	return len(c.buf)
}

// LenS is len(ch) of a send-only channel.
func LenS[T any](ch chan<- T) int {
	s := S
	if s == nil {
		return len(ch)
	}
	if s.dead {
		return 0
	}
	Point()
	c := chS(s, ch)
	if c == nil {
		return 0
	}
	return len(c.buf)
}

// ---- reflect

func rmodel(s *Sched, v reflect.Value) *hchan {
	if !v.IsValid() || v.IsNil() {
		return nil
	}
	return s.model(v.UnsafePointer(), v.Cap(), v.Interface())
}

// ReflectSelect is reflect.Select.
func ReflectSelect(cases []reflect.SelectCase) (int, reflect.Value, bool) {
	s := S
	if s == nil {
		return reflect.Select(cases)
	}
	if s.dead {
		deadBlock()
	}
	g := s.cur
	g.kind = opSelect
	g.hasDef = false
	def := -1
	cs := make([]scase, len(cases))
	for i, c := range cases {
		switch c.Dir {
		case reflect.SelectDefault:
			g.hasDef = true
			def = i
		case reflect.SelectRecv:
			cs[i] = scase{ch: rmodel(s, c.Chan)}
		case reflect.SelectSend:
			cs[i] = scase{ch: rmodel(s, c.Chan), send: true, val: c.Send.Interface()}
		}
	}
	g.cases = cs
	s.yield()
	g.cases = nil
	if g.rIdx < 0 {
		return def, reflect.Value{}, false
	}
	i := g.rIdx
	v, ok := g.rVal, g.rOK
	g.rVal = nil
	if cases[i].Dir == reflect.SelectSend {
		if !ok {
			panic("send on closed channel")
		}
		return i, reflect.Value{}, false
	}
	return i, rval(cases[i].Chan, v), ok
}

func rval(ch reflect.Value, v any) reflect.Value {
	r := reflect.New(ch.Type().Elem()).Elem()
	if v != nil {
		r.Set(reflect.ValueOf(v))
	}
	return r
}

// ReflectTrySend is ch.TrySend(v).
func ReflectTrySend(ch, v reflect.Value) bool {
	s := S
	if s == nil {
		return ch.TrySend(v)
	}
	i, _, _ := ReflectSelect([]reflect.SelectCase{{Dir: reflect.SelectSend, Chan: ch, Send: v}, {Dir: reflect.SelectDefault}})
	return i == 0
}

func ReflectTryRecv(ch reflect.Value) (reflect.Value, bool) {
	s := S
	if s == nil {
		return ch.TryRecv()
	}
	i, v, ok := ReflectSelect([]reflect.SelectCase{{Dir: reflect.SelectRecv, Chan: ch}, {Dir: reflect.SelectDefault}})
	if i != 0 {
		return reflect.Value{}, false
	}
	return v, ok
}

func ReflectSend(ch, v reflect.Value) {
	if S == nil {
		ch.Send(v)
		return
	}
	ReflectSelect([]reflect.SelectCase{{Dir: reflect.SelectSend, Chan: ch, Send: v}})
}

func ReflectRecv(ch reflect.Value) (reflect.Value, bool) {
	if S == nil {
		return ch.Recv()
	}
	_, v, ok := ReflectSelect([]reflect.SelectCase{{Dir: reflect.SelectRecv, Chan: ch}})
	return v, ok
}

func ReflectClose(ch reflect.Value) {
	s := S
	if s == nil {
		ch.Close()
		return
	}
	if s.dead {
		return
	}
	Point()
	c := rmodel(s, ch)
	if c.closed {
		panic("close of closed channel")
	}
	c.closed = true
	raceReleaseMerge(&c.closeCell)
}

func ReflectLen(ch reflect.Value) int {
	if ch.Kind() != reflect.Chan || S == nil {
		return ch.Len()
	}
	if S.dead {
		return 0
	}
	c := rmodel(S, ch)
	if c == nil {
		return 0
	}
	return len(c.buf)
}

// Recv3 receives and also returns the channel.
func Recv3[T any](ch <-chan T) (T, bool, <-chan T) {
	v, ok := Recv2(ch)
	return v, ok, ch
}
