package main

import (
	"fmt"
	"time"

	"github.com/openrelayxyz/cardinal-streams/v2/delivery"
	"github.com/openrelayxyz/cardinal-streams/v2/waiter"
	"github.com/openrelayxyz/cardinal-types"
	"verif.local/h/hx"
	"verif.local/vs"
)

// waitH is a processor with a waiter and a subscriber that applies blocks.
type waitH struct {
	*ompH
	w     waiter.Waiter
	known map[types.Hash]bool  // announced and settled
	done  map[types.Hash]int64 // when the block was marked done
	doneN map[int64]int64
	all   []*hx.Block
}

func newWait(t *vs.T, blocks ...*hx.Block) *waitH {
	root := rootBlock()
	view := newView(t, root.Hash, nil, append(blocks, root)...)
	h := newOmp(t, &delivery.ConsumerConfig{LastEmittedNum: root.Num, LastHash: root.Hash, LastWeight: root.Weight, ReorgThreshold: 16, TrackedPrefixes: hx.Re(".*")}, view)
	w := &waitH{ompH: h, known: map[types.Hash]bool{}, done: map[types.Hash]int64{}, doneN: map[int64]int64{}, all: blocks}
	w.w = waiter.NewOmpWaiter(h.OrderedMessageProcessor)
	vs.Settle()
	return w
}

func (h *waitH) announce(b *hx.Block) {
	h.msg(header(h.t, b))
	h.known[b.Hash] = true
}

// again delivers a block a second time past the assembler's memory.
func (h *waitH) again(b *hx.Block) {
	h.ProcessCompleteBatch(&delivery.PendingBatch{Number: b.Num, Weight: b.Weight, ParentHash: b.Parent, Hash: b.Hash, Values: map[string][]byte{}, Deletes: map[string]struct{}{}})
	vs.Settle()
	h.drain()
	h.known[b.Hash] = true
}

// mark records that a block is being marked done.
func (h *waitH) mark(hash types.Hash, num int64) {
	if _, ok := h.done[hash]; !ok {
		h.done[hash] = h.t.Now()
	}
	if _, ok := h.doneN[num]; !ok {
		h.doneN[num] = h.t.Now()
	}
}

// apply marks every block of the updates from index i as done.
func (h *waitH) apply(i int) {
	for _, cu := range h.ups[i:] {
		for _, pb := range cu.Added() {
			h.mark(pb.Hash, pb.Number)
		}
		cu.Done()
	}
}

const keep = int64(60 * time.Second)

// judge checks one result; from and to are the times around the call.
func (h *waitH) judge(what string, r waiter.WaitResult, done int64, isDone, knownBefore bool, from, to int64, timeout time.Duration) {
	t := h.t
	switch r {
	case waiter.Success:
		if !isDone {
			t.Fail("waiting for %v succeeded although it was not marked done", what)
		}
		if done > from && to != done {
			t.Fail("waiting for %v returned %v after it was done", what, time.Duration(to-done))
		}
		if done <= from && to != from {
			t.Fail("waiting for %v, which was done, took %v", what, time.Duration(to-from))
		}
	case waiter.Timeout:
		if to-from < int64(timeout) {
			t.Fail("waiting for %v timed out after %v instead of %v", what, time.Duration(to-from), timeout)
		}
		if isDone && done < from+int64(timeout) {
			t.Fail("waiting for %v timed out although it was marked done", what)
		}
		if to-from > int64(timeout) {
			t.Fail("waiting for %v took %v instead of %v", what, time.Duration(to-from), timeout)
		}
	case waiter.NotFound:
		if knownBefore && !(isDone && done+keep <= from) {
			t.Fail("waiting for %v reported not found although it was announced", what)
		}
		if to != from {
			t.Fail("not found took %v", time.Duration(to-from))
		}
	default:
		t.Fail("result %v", r)
	}
}

func (h *waitH) waitHash(b *hx.Block, d time.Duration) waiter.WaitResult {
	known := h.known[b.Hash]
	from := h.t.Now()
	r := h.w.WaitForHashResult(b.Hash, d)
	done, ok := h.done[b.Hash]
	h.judge("block "+hx.N(b.Hash), r, done, ok, known, from, h.t.Now(), d)
	return r
}

func (h *waitH) waitNum(b *hx.Block, d time.Duration) waiter.WaitResult {
	known := false
	for _, x := range h.all {
		known = known || x.Num == b.Num && h.known[x.Hash]
	}
	from := h.t.Now()
	r := h.w.WaitForNumberResult(b.Num, d)
	done, ok := h.doneN[b.Num]
	h.judge(fmt.Sprintf("number %d", b.Num), r, done, ok, known, from, h.t.Now(), d)
	return r
}

var resName = []string{"success", "timeout", "notfound"}

func p14(tier string) []*vs.Scenario {
	var out []*vs.Scenario
	sec := time.Second
	// a block is announced, waited for by hash and number, and marked done at
	// some moment
	out = append(out, &vs.Scenario{Name: "race", Quick: 2, Deep: 3, Run: func(t *vs.T) {
		t.Explore(false)
		root := rootBlock()
		b := linear(root, 1, "m")[0]
		h := newWait(t, b)
		h.announce(b)
		at := []time.Duration{0, 2 * sec, 5 * sec, 8 * sec}[t.Choose(4)]
		fin := make(chan string, 4)
		t.Explore(true)
		go func() {
			vs.Sleep(at)
			h.apply(0)
			fin <- "applied"
		}()
		go func() { fin <- "h:" + resName[h.waitHash(b, 5*sec)] }()
		go func() { fin <- "n:" + resName[h.waitNum(b, 3*sec)] }()
		h.waitHash(b, sec)
		for i := 0; i < 3; i++ {
			t.Obs("%v", <-fin)
		}
	}})
	// waits race with the announcement itself
	out = append(out, &vs.Scenario{Name: "announce", Quick: 2, Deep: 3, Run: func(t *vs.T) {
		t.Explore(false)
		root := rootBlock()
		b := linear(root, 1, "m")[0]
		h := newWait(t, b)
		fin := make(chan string, 4)
		t.Explore(true)
		go func() { fin <- resName[h.waitHash(b, 2*sec)] }()
		go func() { fin <- resName[h.waitNum(b, 2*sec)] }()
		if err := h.ProcessMessage(header(t, b)); err != nil {
			t.Fail("%v", err)
		}
		cu := <-h.ch
		h.mark(b.Hash, b.Num)
		cu.Done()
		t.Obs("%v %v", <-fin, <-fin)
		h.known[b.Hash] = true
		vs.Settle()
		h.waitHash(b, sec)
		h.waitNum(b, sec)
	}})
	// competing blocks of one number
	out = append(out, &vs.Scenario{Name: "siblings", Quick: 1, Deep: 2, Run: func(t *vs.T) {
		t.Explore(false)
		root := rootBlock()
		a := linear(root, 1, "a")[0]
		b := linear(root, 2, "b")
		h := newWait(t, append([]*hx.Block{a}, b...)...)
		ord := t.Choose(2)
		if ord == 0 {
			h.announce(a)
			h.announce(b[0])
		} else {
			h.announce(b[0])
			h.announce(a)
		}
		fin := make(chan string, 8)
		t.Explore(true)
		for _, x := range []*hx.Block{a, b[0]} {
			x := x
			go func() { fin <- resName[h.waitHash(x, 3*sec)] }()
		}
		go func() { fin <- resName[h.waitNum(a, 3*sec)] }()
		go func() {
			vs.Sleep(sec)
			h.apply(0)
			fin <- ""
		}()
		for i := 0; i < 4; i++ {
			t.Obs("%v", <-fin)
		}
		t.Explore(false)
		// the other branch wins
		n := len(h.ups)
		h.announce(b[1])
		h.apply(n)
		vs.Settle()
		for _, x := range []*hx.Block{a, b[0], b[1]} {
			h.waitHash(x, sec)
			h.waitNum(x, sec)
		}
	}})
	// the same block is announced again, by another source or after a notice
	for how := 0; how < 5; how++ {
		how := how
		out = append(out, &vs.Scenario{Name: fmt.Sprintf("again/%d", how), Quick: 1, Deep: 2, Run: func(t *vs.T) {
			t.Explore(false)
			root := rootBlock()
			bs := linear(root, 2, "m")
			b := bs[0]
			h := newWait(t, bs...)
			fin := make(chan string, 8)
			n := 0
			wait := func(d time.Duration) {
				n++
				t.Explore(true)
				go func() { fin <- resName[h.waitHash(b, d)] }()
			}
			switch how {
			case 0: // between announcement and done
				h.announce(b)
				wait(5 * sec)
				h.again(b)
				wait(5 * sec)
				vs.Sleep(sec)
				h.apply(0)
			case 1: // after done
				h.announce(b)
				h.apply(0)
				vs.Settle()
				h.again(b)
				wait(5 * sec)
			case 2: // after a notice that takes the chain back
				h.announce(b)
				h.apply(0)
				h.msg(reorgMsg(t, newProducer(t, stdSchema), root))
				k := len(h.ups)
				h.announce(b)
				t.Explore(true)
				n++
				// it was applied once and will be again
				go func() { fin <- resName[h.w.WaitForHashResult(b.Hash, 5*sec)] }()
				vs.Sleep(sec)
				h.apply(k)
			case 3: // while the parent is still missing
				b = bs[1]
				h.announce(b)
				wait(9 * sec)
				h.again(b)
				wait(9 * sec)
				vs.Sleep(sec)
				h.announce(bs[0])
				h.apply(0)
			case 4: // three times
				h.announce(b)
				h.again(b)
				wait(5 * sec)
				h.again(b)
				vs.Sleep(sec)
				h.apply(0)
			}
			for ; n > 0; n-- {
				r := <-fin
				if r != "success" {
					t.Fail("waiting gave %v", r)
				}
			}
			t.Explore(false)
			vs.Settle()
			h.waitHash(b, sec)
			h.waitNum(b, sec)
		}})
	}
	// several subscribers mark the same update
	out = append(out, &vs.Scenario{Name: "two-subscribers", Quick: 2, Deep: 3, Run: func(t *vs.T) {
		t.Explore(false)
		root := rootBlock()
		b := linear(root, 1, "m")[0]
		h := newWait(t, b)
		h.announce(b)
		fin := make(chan string, 8)
		t.Explore(true)
		for i := 0; i < 2; i++ {
			go func() {
				h.apply(0)
				fin <- ""
			}()
		}
		h.waitHash(b, 5*sec)
		<-fin
		<-fin
		h.apply(0)
		h.waitHash(b, 5*sec)
	}})
	return out
}

// p15: what the waiter remembers and for how long.
func p15(tier string) []*vs.Scenario {
	var out []*vs.Scenario
	sec := time.Second
	// a sequence of events on a short chain with a side block, at chosen times
	out = append(out, &vs.Scenario{Name: "retention", Quick: 0, Deep: 0, Opts: vs.Opts{SchedOff: true}, Run: func(t *vs.T) {
		root := rootBlock()
		bs := linear(root, 2, "m")
		h := newWait(t, bs...)
		for i, b := range bs {
			n := len(h.ups)
			h.announce(b)
			vs.Sleep(time.Duration(t.Choose(2)) * sec)
			h.apply(n)
			vs.Settle()
			if i == 0 {
				vs.Sleep([]time.Duration{0, sec, 30 * sec, 59 * sec, 61 * sec}[t.Choose(5)])
			}
			for n := t.Choose(3); n > 0; n-- {
				if h.done[b.Hash]+keep <= t.Now() {
					return // forgotten; the application has to know it
				}
				h.again(b)
			}
		}
		for i := 0; i < 2; i++ {
			vs.Sleep([]time.Duration{0, sec, 29 * sec, 59 * sec, 60*sec - 1, 61 * sec}[t.Choose(6)])
			for _, b := range bs {
				want := waiter.Success
				if h.done[b.Hash]+keep <= t.Now() {
					want = waiter.NotFound
				}
				if h.done[b.Hash]+keep == t.Now() {
					continue
				}
				if r := h.waitNum(b, sec); r != want {
					t.Fail("%v after block %v was done waiting for its number gives %v, want %v", time.Duration(t.Now()-h.done[b.Hash]), hx.N(b.Hash), resName[r], resName[want])
				}
				if r := h.waitHash(b, sec); r != want {
					t.Fail("%v after block %v was done waiting for its hash gives %v, want %v", time.Duration(t.Now()-h.done[b.Hash]), hx.N(b.Hash), resName[r], resName[want])
				}
			}
		}
	}})
	// side blocks are forgotten with the number they competed for
	out = append(out, &vs.Scenario{Name: "side", Quick: 1, Deep: 2, Run: func(t *vs.T) {
		t.Explore(false)
		root := rootBlock()
		a := linear(root, 2, "a")
		s := linear(root, 1, "s")[0]
		h := newWait(t, append(a, s)...)
		h.announce(a[0])
		if t.Choose(2) == 0 {
			h.announce(s)
			h.apply(0)
		} else {
			h.apply(0)
			vs.Sleep(sec)
			h.announce(s)
		}
		t.Explore(true)
		vs.Sleep(50 * sec)
		if r := h.w.WaitForHashResult(s.Hash, sec); r != waiter.Timeout {
			t.Fail("waiting for a competing block that was not applied gives %v", resName[r])
		}
		vs.Sleep(15 * sec)
		for _, b := range []*hx.Block{a[0], s} {
			if r := h.w.WaitForHashResult(b.Hash, sec); r != waiter.NotFound {
				t.Fail("block %v is still remembered a minute after its number was done: %v", hx.N(b.Hash), resName[r])
			}
		}
		if r := h.w.WaitForNumberResult(s.Num, sec); r != waiter.NotFound {
			t.Fail("number still remembered: %v", resName[r])
		}
		// the chain goes on as before
		n := len(h.ups)
		h.announce(a[1])
		h.apply(n)
		vs.Settle()
		h.waitHash(a[1], sec)
	}})
	// a competitor that came late does not take later blocks with it
	out = append(out, &vs.Scenario{Name: "late-competitor", Quick: 0, Deep: 1, Run: func(t *vs.T) {
		t.Explore(false)
		root := rootBlock()
		a := linear(root, 1, "a")
		s := linear(root, 1, "s")[0]
		c := linear(root, 2, "c")
		h := newWait(t, append([]*hx.Block{a[0], s}, c...)...)
		h.announce(a[0])
		h.apply(0)
		x := []time.Duration{0, sec, 30 * sec, 59 * sec, 62 * sec}[t.Choose(5)]
		vs.Sleep(x)
		h.announce(s)
		y := []time.Duration{61 * sec, 63 * sec, 70 * sec, 100 * sec}[t.Choose(4)]
		vs.Sleep(y - x)
		n := len(h.ups)
		h.announce(c[0])
		h.announce(c[1])
		t.Explore(true)
		h.apply(n)
		vs.Settle()
		at := t.Now()
		for _, z := range []time.Duration{0, 10 * sec, 30 * sec, 50 * sec, 59 * sec} {
			vs.Sleep(z - time.Duration(t.Now()-at))
			for _, b := range c {
				if r := h.w.WaitForNumberResult(b.Num, sec/10); r != waiter.Success {
					t.Fail("waiting for number %d gives %v %v after its block was done", b.Num, resName[r], z)
				}
				if r := h.w.WaitForHashResult(b.Hash, sec/10); r != waiter.Success {
					t.Fail("waiting for block %v gives %v %v after it was done", hx.N(b.Hash), resName[r], z)
				}
			}
		}
		vs.Sleep(63 * sec)
		for _, b := range []*hx.Block{a[0], s, c[0], c[1]} {
			if r := h.w.WaitForHashResult(b.Hash, sec); r != waiter.NotFound {
				t.Fail("block %v is never forgotten: %v", hx.N(b.Hash), resName[r])
			}
			if r := h.w.WaitForNumberResult(b.Num, sec); r != waiter.NotFound {
				t.Fail("number %d is never forgotten: %v", b.Num, resName[r])
			}
		}
	}})
	// waits that outlast the memory
	out = append(out, &vs.Scenario{Name: "long-wait", Quick: 1, Deep: 2, Run: func(t *vs.T) {
		t.Explore(false)
		root := rootBlock()
		a := linear(root, 1, "a")[0]
		s := linear(root, 2, "s")
		h := newWait(t, append([]*hx.Block{a}, s...)...)
		h.announce(a)
		h.announce(s[0])
		fin := make(chan string, 4)
		t.Explore(true)
		go func() { fin <- resName[h.waitHash(s[0], 200*sec)] }()
		vs.Sleep(sec)
		h.apply(0)
		vs.Sleep([]time.Duration{10 * sec, 100 * sec}[t.Choose(2)])
		n := len(h.ups)
		h.announce(s[1])
		h.apply(n)
		if r := <-fin; r != "success" {
			t.Fail("%v", r)
		}
	}})
	// stopping the waiter does not disturb the stream
	out = append(out, &vs.Scenario{Name: "stop", Quick: 2, Deep: 3, Run: func(t *vs.T) {
		t.Explore(false)
		root := rootBlock()
		bs := linear(root, 3, "m")
		h := newWait(t, bs...)
		h.announce(bs[0])
		fin := make(chan string, 4)
		t.Explore(true)
		go func() { h.w.Stop(); fin <- "stopped" }()
		go func() { h.w.WaitForHashResult(bs[0].Hash, sec); fin <- "waited" }()
		for _, b := range bs[1:] {
			if err := h.ProcessMessage(header(t, b)); err != nil {
				t.Fail("%v", err)
			}
		}
		t.Obs("%v %v", <-fin, <-fin)
		vs.Settle()
		h.drain()
		if h.view.tip() != bs[2].Hash {
			t.Fail("the chain ends at %v", hx.N(h.view.tip()))
		}
		h.apply(0)
	}})
	return out
}
