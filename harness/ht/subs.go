package main

import (
	"fmt"
	"strings"
	"time"

	"github.com/openrelayxyz/cardinal-streams/v2/delivery"
	"github.com/openrelayxyz/cardinal-streams/v2/transports"
	"github.com/openrelayxyz/cardinal-streams/v2/waiter"
	"github.com/openrelayxyz/cardinal-types"
	"verif.local/h/hx"
	"verif.local/vs"
)

// stream is a running consumer (or an ordered processor alone) with a way to
// publish blocks to it.
type stream struct {
	sub     func(ch any) types.Subscription
	reorgs  func(ch chan<- map[int64]types.Hash) types.Subscription
	publish func(b *hx.Block)
	notice  func(b *hx.Block) // nil if the stream has none
	waiter  func() waiter.Waiter
	start   func()
	close   func()
}

var streamKinds = []string{"processor", "kafka", "ws", "mux", "mux/ws"}

func newStream(t *vs.T, kind string) *stream {
	s := &stream{}
	of := func(c transports.Consumer, err error) *stream {
		if err != nil {
			t.Fail("%v", err)
		}
		s.sub, s.reorgs, s.waiter, s.close = c.Subscribe, c.SubscribeReorg, c.Waiter, c.Close
		s.start = func() {
			if err := c.Start(); err != nil {
				t.Fail("start: %v", err)
			}
		}
		return s
	}
	switch kind {
	case "processor":
		omp, err := delivery.NewOrderedMessageProcessor(kcfg(root))
		if err != nil {
			t.Fail("%v", err)
		}
		log := &hx.Log{}
		s.sub, s.reorgs, s.close, s.start = omp.Subscribe, omp.SubscribeReorg, omp.Close, func() {}
		s.publish = func(b *hx.Block) {
			for _, m := range log.Add(produce(t, "main", kschema, b)) {
				if err := omp.ProcessMessage(m); err != nil {
					t.Fail("%v", err)
				}
			}
		}
		s.notice = func(b *hx.Block) {
			if err := omp.ProcessReorg(b.Num, b.Hash); err != nil {
				t.Fail("%v", err)
			}
		}
		s.waiter = func() waiter.Waiter { return waiter.NewOmpWaiter(omp) }
		return s
	case "kafka":
		a, _ := clusters(t, 1)
		s.publish = func(b *hx.Block) { appendAll(t, a, outsA(t, b)) }
		return of(transports.ResolveConsumer(kurl, "main", brokerA.Topics, nil, 0, kcfg(root)))
	case "mux":
		a, b := clusters(t, 1)
		s.publish = func(x *hx.Block) { appendAll(t, a, outsA(t, x)); appendAll(t, b, outsB(t, x)) }
		return of(transports.ResolveMuxConsumer([]transports.BrokerParams{brokerNo, brokerA, brokerB}, nil, kcfg(root)))
	case "ws", "mux/ws":
		r, p := wfresh(t)
		vs.Settle()
		s.publish = func(b *hx.Block) { wadd(t, r, p, b) }
		s.notice = func(b *hx.Block) {
			if _, err := p.Reorg(b.Num, b.Hash); err != nil {
				t.Fail("%v", err)
			}
		}
		if kind == "ws" {
			return of(transports.ResolveConsumer(wurl, "main", nil, nil, 0, kcfg(root)))
		}
		return of(transports.ResolveMuxConsumer([]transports.BrokerParams{brokerNo, brokerWS}, nil, kcfg(root)))
	}
	panic(kind)
}

// events of the kinds a subscriber can ask for, as strings
var eventKinds = []string{"updates", "blocks", "announcements", "notices"}

// subscribe returns a function that receives one event (false after the
// timeout) and the subscription; the channel is not buffered.
func (s *stream) subscribe(t *vs.T, kind string) (func(d time.Duration) (string, bool), types.Subscription) {
	f, sub := s.subscribe1(t, kind)
	return func(d time.Duration) (string, bool) {
		for {
			// websocket servers begin with the block the consumer starts after
			if e, ok := f(d); !ok || e != hx.N(root.Hash) {
				return e, ok
			}
		}
	}, sub
}

func (s *stream) subscribe1(t *vs.T, kind string) (func(d time.Duration) (string, bool), types.Subscription) {
	switch kind {
	case "updates":
		ch := make(chan *delivery.ChainUpdate)
		sub := s.sub(ch)
		return func(d time.Duration) (string, bool) {
			select {
			case u := <-ch:
				if len(u.Removed()) > 0 {
					t.Fail("blocks removed")
				}
				return hx.Names(u.Added()), true
			case <-time.After(d):
				return "", false
			}
		}, sub
	case "blocks":
		ch := make(chan *delivery.PendingBatch)
		sub := s.sub(ch)
		return func(d time.Duration) (string, bool) {
			select {
			case pb := <-ch:
				return hx.N(pb.Hash), true
			case <-time.After(d):
				return "", false
			}
		}, sub
	case "announcements":
		ch := make(chan *delivery.Waiter)
		sub := s.sub(ch)
		return func(d time.Duration) (string, bool) {
			select {
			case w := <-ch:
				return hx.N(w.Hash), true
			case <-time.After(d):
				return "", false
			}
		}, sub
	case "notices":
		ch := make(chan map[int64]types.Hash)
		sub := s.reorgs(ch)
		return func(d time.Duration) (string, bool) {
			select {
			case m := <-ch:
				for n, h := range m {
					return fmt.Sprintf("%d:%v", n, hx.N(h)), true
				}
				t.Fail("empty notice")
			case <-time.After(d):
			}
			return "", false
		}, sub
	}
	panic(kind)
}

// p38: subscribers do not depend on each other
func p38(tier string) []*vs.Scenario {
	var out []*vs.Scenario
	sec := time.Second
	const n = 4
	for _, kind := range streamKinds {
		for _, ev := range eventKinds {
			kind, ev := kind, ev
			if ev == "notices" && (kind == "kafka" || kind == "mux") {
				continue // not implemented for Kafka
			}
			out = append(out, &vs.Scenario{Name: kind + "/" + ev, Quick: 1, Deep: 2, Opts: vs.Opts{MaxSteps: 200000}, Run: func(t *vs.T) {
				t.Explore(false)
				s := newStream(t, kind)
				bs := chain(root, n, "m", false)
				var want []string
				for _, b := range bs {
					w := hx.N(b.Hash)
					if ev == "updates" {
						w = hx.Names([]*delivery.PendingBatch{{Hash: b.Hash}})
					} else if ev == "notices" {
						w = fmt.Sprintf("%d:%v", b.Num, hx.N(b.Hash))
					}
					want = append(want, w)
				}
				type result struct {
					who  string
					got  []string
					from int // blocks published after this one must be among them
				}
				res := make(chan result, 3)
				published := 0
				take, sub := s.subscribe(t, ev)
				takeB, subB := s.subscribe(t, ev)
				other := "blocks"
				if ev == "blocks" {
					other = "updates"
				}
				takeO, subO := s.subscribe(t, other)
				if sub == nil || subB == nil || subO == nil {
					t.Fail("no subscription")
				}
				s.start()
				vs.Settle()
				time.Sleep(3 * sec) // the websocket stream is live
				vs.Settle()
				leave := t.Choose(3)
				joins := t.Choose(3)
				t.Explore(true)
				go func() { // receives everything
					var got []string
					for {
						e, ok := take(20 * sec)
						if !ok {
							break
						}
						got = append(got, e)
					}
					sub.Unsubscribe()
					res <- result{"the first subscriber", got, 0}
				}()
				go func() { // leaves after some events
					var got []string
					for len(got) < leave {
						e, ok := takeB(20 * sec)
						if !ok {
							break
						}
						got = append(got, e)
					}
					subB.Unsubscribe()
					if e, ok := takeB(15 * sec); ok {
						t.Fail("%v was sent to a subscriber that had unsubscribed", e)
					}
					select {
					case _, ok := <-subB.Err():
						if ok {
							t.Fail("an error is reported for a subscription that was ended")
						}
					default:
						t.Fail("the end of a subscription is not reported")
					}
					subB.Unsubscribe()
					res <- result{"the subscriber that left", got, -1}
				}()
				go func() { // another kind of events
					for {
						if _, ok := takeO(20 * sec); !ok {
							break
						}
					}
					subO.Unsubscribe()
				}()
				joined := make(chan bool, 1)
				go func() { // publishes
					for i, b := range bs {
						if i == joins {
							joined <- true
						}
						published++
						if ev == "notices" {
							s.notice(b)
						} else {
							s.publish(b)
						}
					}
				}()
				go func() { // joins later
					<-joined
					take, sub := s.subscribe(t, ev)
					from := published
					var got []string
					for {
						e, ok := take(20 * sec)
						if !ok {
							break
						}
						got = append(got, e)
					}
					sub.Unsubscribe()
					res <- result{"the subscriber that joined later", got, from}
				}()
				vs.Settle()
				t.Explore(false)
				time.Sleep(30 * sec)
				vs.Settle()
				for i := 0; i < 3; i++ {
					var r result
					select {
					case r = <-res:
					default:
						t.Fail("a subscriber did not come to an end")
					}
					exp := want
					switch {
					case r.from == 0 && r.who == "the first subscriber":
					case r.from < 0:
						exp = want[:leave]
					default: // a suffix
						if len(r.got) < n-r.from {
							t.Fail("%v got %v although %d of %v were published after it had joined", r.who, r.got, n-r.from, want)
						}
						if len(r.got) <= n {
							exp = want[n-len(r.got):]
						}
						t.Obs("%d", len(r.got))
					}
					if strings.Join(r.got, " ") != strings.Join(exp, " ") {
						t.Fail("%v got %v, not %v", r.who, r.got, exp)
					}
				}
				if published != n {
					t.Fail("publishing stopped after %d blocks", published)
				}
				done := false
				go func() { s.close(); done = true }()
				time.Sleep(5 * sec)
				vs.Settle()
				if !done {
					t.Fail("close did not return")
				}
			}})
		}
	}
	return out
}

// p39: waiting for blocks on consumers
func p39(tier string) []*vs.Scenario {
	var out []*vs.Scenario
	sec := time.Second
	names := []string{"success", "timeout", "not found"}
	for _, kind := range streamKinds {
		kind := kind
		run := func(name string, quick, deep int, f func(t *vs.T, s *stream)) {
			out = append(out, &vs.Scenario{Name: kind + "/" + name, Quick: quick, Deep: deep, Opts: vs.Opts{MaxSteps: 200000}, Run: func(t *vs.T) {
				t.Explore(false)
				f(t, newStream(t, kind))
			}})
		}
		// a block that is published after a while, applied after a delay or
		// never; waits begin and end at any of these moments
		run("moments", 1, 1, func(t *vs.T, s *stream) {
			bs := chain(root, 2, "m", t.Choose(2) == 1)
			apply := []time.Duration{0, 2 * sec, 4 * sec, -1}[t.Choose(4)] // after the delivery
			early := kind == "processor" || t.Choose(2) == 1               // the waiter is made before the start
			var w waiter.Waiter
			if early {
				w = s.waiter()
			}
			ch := make(chan *delivery.ChainUpdate, 10)
			s.sub(ch)
			s.start()
			if !early {
				w = s.waiter()
			}
			if kind != "processor" && s.waiter() != w {
				t.Fail("another waiter each time")
			}
			time.Sleep(3 * sec)
			vs.Settle()
			for _, b := range bs {
				if r := w.WaitForHashResult(b.Hash, sec); r != waiter.NotFound {
					t.Fail("a wait for a block that was not published ended with %q", names[r])
				}
			}
			t.Explore(true)
			start := time.Now()
			s.publish(bs[0])
			var doneAt time.Time
			var got bool
			go func() {
				u := <-ch
				got = true
				if apply < 0 {
					return
				}
				time.Sleep(apply)
				doneAt = time.Now()
				u.Done()
			}()
			time.Sleep([]time.Duration{sec, 3 * sec, 10 * sec}[t.Choose(3)])
			vs.Settle()
			t.Explore(false)
			if !got {
				t.Fail("the block was not delivered")
			}
			wait := []time.Duration{0, sec, 3 * sec}[t.Choose(3)]
			from := time.Now()
			fin := 0
			for i := 0; i < 4; i++ {
				i := i
				go func() {
					r := waiter.Success
					known := true
					switch i {
					case 0:
						r = w.WaitForHashResult(bs[0].Hash, wait)
					case 1:
						r = w.WaitForNumberResult(bs[0].Num, wait)
					case 2:
						r, known = w.WaitForHashResult(bs[1].Hash, wait), false
					case 3:
						r, known = w.WaitForNumberResult(bs[1].Num, wait), false
					}
					took := time.Since(from)
					exp, at := waiter.NotFound, time.Duration(0)
					if known {
						exp, at = waiter.Timeout, wait
						if !doneAt.IsZero() && !doneAt.After(from) {
							exp, at = waiter.Success, 0
						} else if !doneAt.IsZero() && doneAt.Sub(from) < wait {
							exp, at = waiter.Success, doneAt.Sub(from)
						} else if !doneAt.IsZero() && doneAt.Sub(from) == wait {
							exp = r // at the same moment
						}
						if wait == 0 && exp == waiter.Success {
							exp = r // a timeout of zero may come first
						}
					}
					if r != exp || took != at {
						t.Fail("wait %d of %v, begun %v after the publication, ended with %q after %v; the block was applied at %v: expected %q after %v", i, wait, from.Sub(start), names[r], took, doneAt.Sub(start), names[exp], at)
					}
					fin++
				}()
			}
			time.Sleep(5 * sec)
			vs.Settle()
			if fin != 4 {
				t.Fail("only %d of 4 waits returned", fin)
			}
			t.Obs("%v %v", apply, wait)
			// the next block is waited for from its announcement on
			s.publish(bs[1])
			time.Sleep(2 * sec)
			vs.Settle()
			var r waiter.WaitResult
			fin = 0
			go func() { r = w.WaitForHashResult(bs[1].Hash, 30*sec); fin++ }()
			time.Sleep(2 * sec)
			select {
			case u := <-ch:
				u.Done()
			default:
				t.Fail("the next block was not delivered")
			}
			vs.Settle()
			if fin != 1 || r != waiter.Success {
				t.Fail("the wait for the next block did not succeed (%v)", names[r])
			}
			done := false
			go func() { s.close(); done = true }()
			time.Sleep(3 * sec)
			vs.Settle()
			if !done {
				t.Fail("close does not return while there is a waiter")
			}
			// waits return when the consumer is closed, too
			fin = 0
			go func() { w.WaitForHashResult(bs[0].Hash, sec); w.WaitForNumberResult(bs[1].Num, sec); fin++ }()
			time.Sleep(3 * sec)
			vs.Settle()
			if fin != 1 {
				t.Fail("waits do not return after the consumer was closed")
			}
		})
	}
	return out
}
