package main

import (
	"context"
	"encoding/json"
	"fmt"
	"math/big"
	"strings"
	"time"

	"github.com/gorilla/websocket"
	rpct "github.com/openrelayxyz/cardinal-rpc/transports"
	"github.com/openrelayxyz/cardinal-streams/v2/delivery"
	"github.com/openrelayxyz/cardinal-streams/v2/transports"
	"github.com/openrelayxyz/cardinal-types"
	"github.com/openrelayxyz/cardinal-types/hexutil"
	"verif.local/h/hx"
	"verif.local/vs"
)

const wurl = "ws://node:8555"

// resumer is the store of blocks behind a websocket producer: the current
// chain, from which a stream starts at the block asked for, or threshold blocks
// before it if the hash is not the one on the chain.
type resumer struct {
	t         *vs.T
	chain     []*hx.Block
	threshold int64
	buffer    int
	Calls     int
	fail      func(n int) bool
	open      int       // streams being served
	only      *hx.Block // serve this block only
	begin     func(n int)
	end       func(n int)
	nums      map[types.Hash]int64 // the numbers of all blocks there were
}

// know remembers the number of a block.
func (r *resumer) know(b *hx.Block) {
	if r.nums == nil {
		r.nums = map[types.Hash]int64{}
	}
	r.nums[b.Hash] = b.Num
}

func pending(b *hx.Block) *delivery.PendingBatch {
	vals, dels := b.Content(hx.Re(".*"), nil)
	return &delivery.PendingBatch{Number: b.Num, Hash: b.Hash, ParentHash: b.Parent, Weight: b.Weight, Values: vals, Deletes: dels}
}

func (r *resumer) at(n int64) *hx.Block {
	if r.only != nil {
		if n == r.only.Num {
			return r.only
		}
		return nil
	}
	if i := n - r.chain[0].Num; i >= 0 && i < int64(len(r.chain)) {
		return r.chain[i]
	}
	return nil
}

// set makes a block the end of the chain.
func (r *resumer) set(b *hx.Block) {
	for _, b := range r.chain {
		r.know(b)
	}
	r.chain = append(append([]*hx.Block(nil), r.chain[:b.Num-r.chain[0].Num]...), b)
}

func (r *resumer) GetBlock(ctx context.Context, n uint64) *delivery.PendingBatch {
	if b := r.at(int64(n)); b != nil {
		return pending(b)
	}
	return nil
}

func (r *resumer) BlocksFrom(ctx context.Context, n uint64, hash types.Hash) (chan *delivery.PendingBatch, error) {
	i := r.Calls
	r.Calls++
	if r.fail != nil && r.fail(i) {
		return nil, fmt.Errorf("resumption failed")
	}
	if r.begin != nil {
		r.begin(i)
	}
	num := int64(n)
	for _, b := range r.chain {
		r.know(b)
	}
	if k, ok := r.nums[hash]; ok && k != num {
		r.t.Fail("a stream was asked to resume from number %d with the hash of block %v, which is number %d", n, hx.N(hash), k)
	}
	if r.only != nil {
		num, hash = r.only.Num, r.only.Hash
	}
	if b := r.at(num); b == nil || b.Hash != hash {
		num -= r.threshold
	}
	if num < r.chain[0].Num && r.only == nil {
		num = r.chain[0].Num
	}
	ch := make(chan *delivery.PendingBatch, r.buffer)
	r.open++
	go func() {
		defer func() { r.open-- }()
		defer close(ch)
		for b := r.at(num); b != nil; b = r.at(num) {
			select {
			case ch <- pending(b):
			case <-ctx.Done():
				return
			}
			num++
		}
		if r.end != nil {
			r.end(i)
		}
	}()
	return ch, nil
}

func wfresh(t *vs.T, chain ...*hx.Block) (*resumer, transports.Producer) {
	websocket.Reset()
	rpct.Reset()
	r := &resumer{t: t, chain: append([]*hx.Block{root}, chain...), threshold: 16}
	p, err := transports.NewWebsocketProducer(wurl, r)
	if err != nil {
		t.Fail("creating the producer: %v", err)
	}
	return r, p
}

func wconsumer(t *vs.T, from *hx.Block, want []*hx.Block) *kcons {
	c, err := transports.ResolveConsumer(wurl, "main", nil, nil, 0, kcfg(from))
	return newConsumer(t, c, err, want)
}

// wadd adds the block to the store and sends it.
func wadd(t *vs.T, r *resumer, p transports.Producer, b *hx.Block) {
	if r != nil {
		r.set(b)
	}
	del := b.Del
	if del == nil {
		del = map[string]struct{}{}
	}
	if err := p.AddBlock(b.Num, b.Hash, b.Parent, b.Weight, b.Upd, del, b.BatchIDs()); err != nil {
		t.Fail("adding block %v: %v", b, err)
	}
	for _, k := range hx.Keys(b.Subs) {
		s := b.Subs[k]
		if err := p.SendBatch(s.ID, s.Del, s.Upd); err != nil {
			t.Fail("sending batch %v: %v", hx.N(s.ID), err)
		}
	}
}

// p23: from history to the live feed
func p23(tier string) []*vs.Scenario {
	var out []*vs.Scenario
	sec := time.Second
	type cas struct {
		name        string
		pre, live   int
		rich        bool
		consumers   int
		buffer      int
		early       int
		quick, deep int
	}
	for _, c := range []cas{
		{name: "handover/0+2", pre: 0, live: 2, consumers: 1, quick: 2, deep: 3},
		{name: "handover/2+2", pre: 2, live: 2, consumers: 1, buffer: 4, quick: 2, deep: 3},
		{name: "handover/1+2rich", pre: 1, live: 2, rich: true, consumers: 1, quick: 2, deep: 3},
		{name: "early", pre: 2, live: 1, consumers: 1, early: 6, quick: 1, deep: 2},
		{name: "early/rich", pre: 1, live: 2, rich: true, consumers: 2, early: 4, quick: 1, deep: 2},
		{name: "two", pre: 1, live: 1, consumers: 2, buffer: 1, quick: 1, deep: 3},
	} {
		c := c
		out = append(out, &vs.Scenario{Name: c.name, Quick: c.quick, Deep: c.deep, Run: func(t *vs.T) {
			t.Explore(false)
			bs := chain(root, c.pre+c.live, "m", c.rich)
			r, p := wfresh(t, bs[:c.pre]...)
			r.buffer = c.buffer
			if c.early > 0 { // messages sent before the subscription's identifier
				rpct.Early = t.Choose(c.early)
				t.Obs("%d early", rpct.Early)
			}
			var ks []*kcons
			for i := 0; i < c.consumers; i++ {
				ks = append(ks, wconsumer(t, root, bs))
			}
			t.Explore(true)
			for _, k := range ks {
				k := k
				go func() {
					k.start()
					<-k.Ready()
					time.Sleep(time.Millisecond)
					k.drain()
					if len(k.got) < c.pre {
						t.Fail("a consumer reported that it is ready when %d of the %d blocks stored at the start had been delivered", len(k.got), c.pre)
					}
				}()
			}
			go func() {
				for _, b := range bs[c.pre:] {
					wadd(t, r, p, b)
				}
			}()
			vs.Settle()
			t.Explore(false)
			for i, k := range ks {
				k.settle(3 * sec)
				k.expect(len(bs), fmt.Sprintf("3s after consumer %d was started", i))
				if !isReady(k, sec) {
					t.Fail("consumer %d did not become ready", i)
				}
			}
			t.Obs("%d calls", r.Calls)
		}})
	}
	return out
}

// follower is a consumer whose chain is tracked through reorgs.
type follower struct {
	*kcons
	chain []*delivery.PendingBatch
	all   map[types.Hash]*hx.Block
}

func newFollower(k *kcons, blocks ...*hx.Block) *follower {
	f := &follower{kcons: k, all: map[types.Hash]*hx.Block{}}
	for _, b := range blocks {
		f.all[b.Hash] = b
	}
	return f
}

// take applies the updates delivered so far.
func (f *follower) take() {
	for len(f.ch) > 0 {
		u := <-f.ch
		for i := len(u.Removed()) - 1; i >= 0; i-- {
			pb := u.Removed()[i]
			if n := len(f.chain); n == 0 || f.chain[n-1].Hash != pb.Hash {
				f.t.Fail("block %v was removed from the chain %v", hx.N(pb.Hash), hx.Names(f.chain))
			}
			f.chain = f.chain[:len(f.chain)-1]
		}
		for _, pb := range u.Added() {
			last := root.Hash
			if n := len(f.chain); n > 0 {
				last = f.chain[n-1].Hash
			}
			if pb.ParentHash != last {
				f.t.Fail("block %v (parent %v) was added to the chain %v", hx.N(pb.Hash), hx.N(pb.ParentHash), hx.Names(f.chain))
			}
			b := f.all[pb.Hash]
			if b == nil {
				f.t.Fail("unknown block %v", hx.N(pb.Hash))
			}
			vals, dels := b.Content(hx.Re(".*"), nil)
			if d := hx.Diff(pb, b, vals, dels); d != "" {
				f.t.Fail("block %v: %v", hx.N(pb.Hash), d)
			}
			f.chain = append(f.chain, pb)
		}
	}
}

// expectChain lets time pass and compares the chain.
func (f *follower) expectChain(d time.Duration, want []*hx.Block, when string) {
	for i := time.Duration(0); i < d; i += time.Second {
		time.Sleep(time.Second)
		vs.Settle()
		f.take()
	}
	f.take()
	var s []string
	for _, b := range want {
		s = append(s, hx.N(b.Hash))
	}
	if g := hx.Names(f.chain); g != strings.Join(s, ",") {
		f.t.Fail("%s the chain is %v instead of %v", when, g, strings.Join(s, ","))
	}
}

// capture gives the messages that a producer sends for blocks to a connection
// that is live, in order; parts[i] lists those of blocks[i].
func capture(t *vs.T, blocks ...*hx.Block) (first []byte, ready []byte, parts [][][]byte) {
	_, p := wfresh(t)
	c := dial(t, root)
	ready, first = c.read(`"ready"`)
	for _, b := range blocks {
		wadd(t, nil, p, b)
		var ms [][]byte
		for i := 0; i <= len(b.Subs); i++ {
			m, _ := c.read("batch")
			ms = append(ms, m)
		}
		parts = append(parts, ms)
	}
	c.Close()
	return
}

// full gives the message with which a producer sends a stored block.
func full(t *vs.T, b *hx.Block) []byte {
	r, _ := wfresh(t)
	r.chain = []*hx.Block{b}
	m, _ := dial(t, b).read(`"batch"`)
	return m
}

// script serves connections: it confirms a subscription and hands the
// connection over.
func script(t *vs.T, f func(c *websocket.Conn, n int)) {
	websocket.Reset()
	n := 0
	websocket.Listen("8555", func(c *websocket.Conn) {
		defer c.Close()
		_, m, err := c.ReadMessage()
		if err != nil {
			return
		}
		var call struct{ ID json.RawMessage }
		json.Unmarshal(m, &call)
		c.WriteMessage(websocket.TextMessage, []byte(fmt.Sprintf(`{"jsonrpc":"2.0","id":%s,"result":"0x0"}`, call.ID)))
		n++
		f(c, n-1)
	})
}

func wsub(name string, del []string, kv ...string) hx.Sub {
	return hx.Sub{ID: hx.H("id" + name), Upd: hx.U(kv...), Del: del}
}

// p24: blocks in parts
func p24(tier string) []*vs.Scenario {
	var out []*vs.Scenario
	a := &hx.Block{Num: 101, Hash: hx.H("a"), Parent: root.Hash, Weight: hx.W(101), Upd: hx.U("k", "1", "e", ""), Del: hx.D("gone"),
		Subs: map[string]hx.Sub{"s1": wsub("a1", []string{"s1/x"}, "s1/a", "1"), "s2": wsub("a2", nil, "s2/a", "", "s2/b", "2"), "s3": wsub("a3", []string{"s3/x", "s3/y"})}}
	b := &hx.Block{Num: 102, Hash: hx.H("b"), Parent: a.Hash, Weight: hx.W(102), Upd: hx.U("k", "2"),
		Subs: map[string]hx.Sub{"s1": wsub("b1", nil, "s1/a", "3"), "s2": wsub("b2", []string{"s2/a"})}}
	c := &hx.Block{Num: 103, Hash: hx.H("c"), Parent: b.Hash, Weight: hx.W(103), Upd: hx.U("k", "3")}
	a1 := &hx.Block{Num: 101, Hash: hx.H("a"), Parent: root.Hash, Weight: hx.W(101), Upd: hx.U("k", "1"),
		Subs: map[string]hx.Sub{"s1": wsub("a1", []string{"s1/x"}, "s1/a", "1")}}
	type cas struct {
		name   string
		blocks []*hx.Block
		full   []*hx.Block // also sent whole
		deep   bool
	}
	for _, x := range []cas{
		{name: "one", blocks: []*hx.Block{a}},
		{name: "one+whole", blocks: []*hx.Block{a}, full: []*hx.Block{a}},
		{name: "two", blocks: []*hx.Block{a1, b}},
		{name: "two+whole", blocks: []*hx.Block{a1, b}, full: []*hx.Block{b}},
		{name: "three", blocks: []*hx.Block{a1, b, c}},
		{name: "four+two", blocks: []*hx.Block{a, b}, deep: true},
	} {
		x := x
		if x.deep && tier == "quick" {
			continue
		}
		type part struct {
			m     []byte
			b     int
			whole bool
		}
		var parts []part
		out = append(out, &vs.Scenario{Name: "order/" + x.name, Quick: 0, Deep: 0, Cap: 100000, Run: func(t *vs.T) {
			t.Explore(false)
			if parts == nil {
				_, _, ps := capture(t, x.blocks...)
				var l []part
				for i, ms := range ps {
					for _, m := range ms {
						l = append(l, part{m, i, false})
					}
				}
				for _, f := range x.full {
					for i := range x.blocks {
						if x.blocks[i] == f {
							l = append(l, part{full(t, f), i, true})
						}
					}
				}
				parts = l
			}
			next := make(chan []byte)
			script(t, func(c *websocket.Conn, n int) {
				for m := range next {
					c.WriteMessage(websocket.TextMessage, m)
				}
			})
			k := wconsumer(t, root, x.blocks)
			k.start()
			left := make([]int, len(x.blocks))
			for _, p := range parts {
				if !p.whole {
					left[p.b]++
				}
			}
			t.Explore(true)
			for _, i := range hx.Perm(t, len(parts)) {
				p := parts[i]
				next <- p.m
				vs.Settle()
				left[p.b]--
				if p.whole {
					left[p.b] = -1000
				}
				n := 0
				for n < len(left) && left[n] <= 0 {
					n++
				}
				k.drain()
				if len(k.got) != n {
					t.Fail("%d blocks were delivered when the parts of %d had been received", len(k.got), n)
				}
				t.Obs("%v", i)
			}
		}})
	}
	// the producer accepts exactly the announced parts, each once
	out = append(out, &vs.Scenario{Name: "programs", Quick: 0, Deep: 0, Run: func(t *vs.T) {
		t.Explore(false)
		_, p := wfresh(t)
		k := wconsumer(t, root, []*hx.Block{a1, b})
		k.start()
		vs.Settle()
		open := map[types.Hash]bool{}
		depth := 5
		if tier == "quick" {
			depth = 4
		}
		type op struct {
			b   *hx.Block
			sub string
		}
		ops := []op{{a1, ""}, {b, ""}, {a1, "s1"}, {b, "s1"}, {b, "s2"}}
		added := map[types.Hash]bool{}
		sent := map[types.Hash]bool{}
		for i := 0; i < depth; i++ {
			o := ops[t.Choose(len(ops))]
			t.Obs("%v%v", hx.N(o.b.Hash), o.sub)
			if o.sub == "" {
				if added[o.b.Hash] {
					return // the same block twice is not announced by producers
				}
				added[o.b.Hash] = true
				if err := p.AddBlock(o.b.Num, o.b.Hash, o.b.Parent, o.b.Weight, o.b.Upd, hx.D(), o.b.BatchIDs()); err != nil {
					t.Fail("adding block %v: %v", o.b, err)
				}
				for _, s := range o.b.Subs {
					open[s.ID] = true
				}
			} else {
				s := o.b.Subs[o.sub]
				err := p.SendBatch(s.ID, s.Del, s.Upd)
				if open[s.ID] != (err == nil) {
					t.Fail("sending batch %v: %v (announced and not sent yet: %v)", hx.N(s.ID), err, open[s.ID])
				}
				delete(open, s.ID)
				if err == nil {
					sent[s.ID] = true
				}
			}
			vs.Settle()
			k.drain()
			n := 0
			for _, b := range []*hx.Block{a1, b} {
				ok := added[b.Hash]
				for _, s := range b.Subs {
					ok = ok && sent[s.ID]
				}
				if !ok {
					break
				}
				n++
			}
			if len(k.got) != n {
				t.Fail("%d blocks were delivered when the parts of %d had been sent", len(k.got), n)
			}
		}
	}})
	return out
}

// p25: connections that break
func p25(tier string) []*vs.Scenario {
	var out []*vs.Scenario
	sec := time.Second
	type cas struct {
		name        string
		pre, live   int
		rich        bool
		cuts        int
		refuse      int
		fail        int
		gap         time.Duration
		quick, deep int
		reorg       bool
		late        bool // parts are sent after the later blocks
		between     bool // blocks are added when the store is asked for blocks and when it has given the last
	}
	for _, c := range []cas{
		{name: "cuts/2+2", pre: 2, live: 2, cuts: 2, quick: 1, deep: 1},
		{name: "cuts/1+2rich", pre: 1, live: 2, rich: true, cuts: 2, quick: 1, deep: 1},
		{name: "sched/1+1", pre: 1, live: 1, rich: true, cuts: 1, quick: 1, deep: 2},
		{name: "between", pre: 1, live: 3, rich: true, cuts: 1, between: true, quick: 0, deep: 1},
		{name: "between/2", pre: 1, live: 2, cuts: 2, between: true, quick: 0, deep: 1},
		{name: "refused", pre: 1, live: 2, cuts: 1, refuse: 3, gap: sec, quick: 1, deep: 1},
		{name: "resumption-fails", pre: 1, live: 2, cuts: 1, fail: 4, gap: sec, quick: 1, deep: 1},
		{name: "reorg", pre: 2, live: 1, cuts: 2, reorg: true, gap: sec, quick: 1, deep: 1},
		{name: "cuts/late", pre: 1, live: 3, rich: true, late: true, cuts: 2, gap: sec, quick: 0, deep: 1},
		{name: "reorg-rich", pre: 2, live: 1, cuts: 1, reorg: true, rich: true, gap: sec, quick: 1, deep: 1},
	} {
		c := c
		out = append(out, &vs.Scenario{Name: c.name, Quick: c.quick, Deep: c.deep, Run: func(t *vs.T) {
			t.Explore(false)
			bs := chain(root, c.pre+c.live, "m", c.rich)
			var side []*hx.Block
			if c.reorg { // a longer branch from the first block
				side = chain(bs[0], c.pre+c.live, "n", c.rich)
			}
			r, p := wfresh(t, bs[:c.pre]...)
			cuts := 0
			websocket.Cut = func(_ *websocket.Conn, n int, data []byte) bool {
				if cuts < c.cuts && t.Choose(2) == 1 {
					cuts++
					t.Obs("cut %d", n)
					return true
				}
				return false
			}
			refused := 0
			websocket.Refuse = func(n int) bool {
				if refused < c.refuse && t.Choose(2) == 1 {
					refused++
					t.Obs("refused %d", n)
					return true
				}
				return false
			}
			failed := 0
			r.fail = func(n int) bool {
				if failed < c.fail && t.Choose(2) == 1 {
					failed++
					t.Obs("failed %d", n)
					return true
				}
				return false
			}
			next := c.pre
			if c.between {
				some := func(int) {
					for next < len(bs) && t.Choose(2) == 1 {
						next++
						t.Obs("+%d", r.Calls)
						wadd(t, r, p, bs[next-1])
					}
				}
				r.begin, r.end = some, some
			}
			k := wconsumer(t, root, bs)
			f := newFollower(k, append(append([]*hx.Block(nil), bs...), side...)...)
			t.Explore(true)
			go k.start()
			done := false
			go func() {
				time.Sleep(c.gap)
				if c.between {
					time.Sleep(5 * sec)
					for next < len(bs) {
						next++
						wadd(t, r, p, bs[next-1])
					}
					done = true
					return
				}
				if c.late {
					for i, b := range bs[c.pre:] {
						if i > 0 {
							b.Subs = nil
						}
						r.set(b)
						if err := p.AddBlock(b.Num, b.Hash, b.Parent, b.Weight, b.Upd, hx.D(), b.BatchIDs()); err != nil {
							t.Fail("adding block %v: %v", b, err)
						}
						time.Sleep(time.Millisecond)
					}
					s := bs[c.pre].Subs["sub"]
					if err := p.SendBatch(s.ID, s.Del, s.Upd); err != nil {
						t.Fail("sending batch %v: %v", hx.N(s.ID), err)
					}
					done = true
					return
				}
				for _, b := range append(append([]*hx.Block(nil), bs[c.pre:]...), side...) {
					wadd(t, r, p, b)
					time.Sleep(c.gap)
				}
				done = true
			}()
			vs.Settle()
			t.Explore(false)
			time.Sleep(time.Duration(len(side)+c.live+1) * c.gap)
			want := bs
			if c.reorg {
				want = append([]*hx.Block{bs[0]}, side...)
			}
			if c.reorg {
				f.expectChain(time.Duration(10)*sec, want, "10s after the last block")
			} else {
				k.settle(10 * sec)
				k.expect(len(bs), "10s after the last block")
			}
			if !done {
				t.Fail("adding blocks blocks")
			}
			if !isReady(k, 0) {
				t.Fail("the consumer is not ready")
			}
			if websocket.Live != 1 {
				t.Fail("%d connections are open", websocket.Live)
			}
			time.Sleep(sec)
			vs.Settle()
			if n := rpct.Open(); n != 1 {
				t.Fail("%d streams are open on the producer", n)
			}
		}})
	}
	out = append(out, noisy(tier))
	return out
}

// p26: ends of connections
func p26(tier string) []*vs.Scenario {
	var out []*vs.Scenario
	sec := time.Second
	type cas struct {
		name        string
		pre, live   int
		down        bool // no server until later
		start       bool
		twice       bool
		quick, deep int
	}
	for _, c := range []cas{
		{name: "close/running", pre: 1, live: 2, start: true, quick: 1, deep: 2},
		{name: "close/unreachable", pre: 1, live: 1, start: true, down: true, quick: 2, deep: 3},
		{name: "close/not-started", quick: 2, deep: 3},
		{name: "close/twice", pre: 1, start: true, twice: true, quick: 1, deep: 2},
	} {
		c := c
		out = append(out, &vs.Scenario{Name: c.name, Quick: c.quick, Deep: c.deep, Run: func(t *vs.T) {
			t.Explore(false)
			bs := chain(root, c.pre+c.live+1, "m", true)
			r, p := wfresh(t, bs[:c.pre]...)
			vs.Settle()
			if c.down {
				websocket.Refuse = func(n int) bool { return true }
			}
			k := wconsumer(t, root, bs)
			other := wconsumer(t, root, bs)
			when := time.Duration(0)
			if c.start {
				when = []time.Duration{0, sec / 2, 3 * sec}[t.Choose(3)]
			}
			t.Explore(true)
			started, closed := 0, 0
			if c.start {
				go func() {
					k.Start()
					started++
				}()
			}
			if !c.down {
				go other.start()
			}
			go func() {
				time.Sleep(when)
				for _, b := range bs[c.pre : c.pre+c.live] {
					wadd(t, r, p, b)
				}
			}()
			n := 1
			if c.twice {
				n = 2
			}
			for i := 0; i < n; i++ {
				go func() {
					time.Sleep(when)
					k.Close()
					closed++
				}()
			}
			vs.Settle()
			t.Explore(false)
			time.Sleep(when)
			vs.Settle()
			time.Sleep(5 * sec)
			vs.Settle()
			if closed < n {
				t.Fail("closing a consumer %v after it was started did not return within 5s", when)
			}
			if c.start && started == 0 {
				t.Fail("starting a consumer that was closed after %v did not return within 5s", when)
			}
			websocket.Refuse = nil
			dials := websocket.Dials
			k.drain()
			had := len(k.got)
			time.Sleep(5 * sec)
			vs.Settle()
			if websocket.Dials != dials {
				t.Fail("a consumer that was closed %v after it was started connected again", when)
			}
			wadd(t, r, p, bs[len(bs)-1])
			time.Sleep(5 * sec)
			vs.Settle()
			k.drain()
			if len(k.got) != had {
				t.Fail("a block added after the consumer was closed was delivered")
			}
			rest := 0
			if !c.down {
				rest = 1
				other.settle(0)
				other.expect(len(bs), "after another consumer was closed")
			}
			if websocket.Live != rest {
				t.Fail("%d connections are open after the consumer was closed", websocket.Live-rest)
			}
			if n := rpct.Open(); n > rest {
				t.Fail("%d streams are still served after the consumer was closed", n-rest)
			}
			t.Obs("%v", had)
		}})
	}
	// a client that does not read, and goes away
	for _, n := range []int{3, 40, 1100} {
		for _, buf := range []int{1, 2000} {
			n, buf := n, buf
			if n < 1000 && buf > 1 {
				continue
			}
			quick := 2
			if n > 10 {
				quick = 1
			}
			if buf > 1 {
				quick = 0
			}
			out = append(out, &vs.Scenario{Name: fmt.Sprintf("stalled/%d/%d", n, buf), Quick: quick, Deep: quick, Opts: vs.Opts{MaxSteps: 200000}, Run: func(t *vs.T) {
				t.Explore(false)
				live := 0
				if n == 3 {
					live = t.Choose(4)
				}
				bs := chain(root, n, "m", false)
				r, p := wfresh(t, bs[:n-live]...)
				r.buffer = buf
				rpct.Outputs = 1
				websocket.Buffer = 1
				c := dial(t, root)
				t.Explore(true)
				time.Sleep(sec)
				added := false
				go func() {
					for _, b := range bs[n-live:] {
						wadd(t, r, p, b)
					}
					added = true
				}()
				go c.Close()
				vs.Settle()
				t.Explore(false)
				time.Sleep(2 * sec)
				vs.Settle()
				if !added {
					t.Fail("adding blocks does not return after a client that did not read has disconnected")
				}
				time.Sleep(2 * sec)
				vs.Settle()
				if o := rpct.Open(); o != 0 {
					t.Fail("the stream of a client that has disconnected is still served")
				}
				if r.open != 0 {
					t.Fail("blocks for a client that has disconnected are still requested")
				}
			}})
		}
	}
	return out
}

// p27: reorganisation notices over websockets
func p27(tier string) []*vs.Scenario {
	var out []*vs.Scenario
	sec := time.Second
	type cas struct {
		name             string
		old, at, fresh   int
		known            int // blocks of the new branch sent before the notice
		thr              int64
		rich, settle     bool
		late             int // blocks of the old chain sent together with the notice
		quick, deep      int
		consumers, early int
	}
	for _, c := range []cas{
		{name: "shallow", old: 3, at: 1, fresh: 2, thr: 8, quick: 3, deep: 4},
		{name: "shallow/settled", old: 3, at: 1, fresh: 2, thr: 8, settle: true, quick: 3, deep: 4},
		{name: "rich", old: 2, at: 0, fresh: 2, thr: 8, rich: true, quick: 2, deep: 3},
		{name: "late", old: 3, at: 0, fresh: 2, late: 2, thr: 8, quick: 2, deep: 3},
		{name: "late/rich", old: 3, at: 1, fresh: 1, late: 1, thr: 8, rich: true, quick: 2, deep: 3},
		{name: "deep", old: 6, at: 0, fresh: 3, thr: 2, quick: 2, deep: 3},
		{name: "known", old: 3, at: 0, fresh: 3, known: 2, thr: 8, quick: 2, deep: 3},
		{name: "known/deep", old: 4, at: 0, fresh: 3, known: 2, thr: 2, quick: 2, deep: 3},
	} {
		c := c
		out = append(out, &vs.Scenario{Name: c.name, Quick: c.quick, Deep: c.deep, Run: func(t *vs.T) {
			t.Explore(false)
			old := chain(root, c.old, "m", c.rich)
			anc := old[c.at]
			fresh := chain(anc, c.fresh, "n", c.rich)
			r, p := wfresh(t)
			cfg := kcfg(root)
			cfg.ReorgThreshold = c.thr
			cons, err := transports.ResolveConsumer(wurl, "main", nil, nil, 0, cfg)
			k := newConsumer(t, cons, err, nil)
			rch := make(chan map[int64]types.Hash, 10)
			k.SubscribeReorg(rch)
			vs.Settle()
			k.start()
			vs.Settle()
			for _, b := range old[:c.old-c.late] {
				wadd(t, r, p, b)
			}
			for _, b := range fresh[:c.known] {
				wadd(t, r, p, b)
			}
			vs.Settle()
			n := 0
			for len(k.ch) > 0 {
				n += len((<-k.ch).Added())
			}
			if n != c.old-c.late {
				t.Fail("%d of %d blocks were delivered", n, c.old-c.late)
			}
			t.Explore(true)
			for _, b := range old[c.old-c.late:] {
				wadd(t, r, p, b)
			}
			if c.settle {
				vs.Settle()
			}
			done, err := p.Reorg(anc.Num, anc.Hash)
			if err != nil {
				t.Fail("sending the notice: %v", err)
			}
			for _, b := range fresh {
				if c.settle {
					vs.Settle()
				}
				wadd(t, r, p, b)
			}
			done()
			vs.Settle()
			t.Explore(false)
			time.Sleep(sec)
			vs.Settle()
			if len(rch) != 1 {
				t.Fail("%d notices were delivered", len(rch))
			}
			if x := <-rch; len(x) != 1 || x[anc.Num] != anc.Hash {
				t.Fail("the notice delivered is %v", x)
			}
			var added []*delivery.PendingBatch
			for len(k.ch) > 0 {
				u := <-k.ch
				for range u.Removed() {
					if len(added) > 0 {
						added = added[:len(added)-1]
					}
				}
				added = append(added, u.Added()...)
			}
			t.Obs("%v", hx.Names(added))
			got := added
			if len(got) > len(fresh) {
				got = got[len(got)-len(fresh):]
			}
			for i, b := range fresh {
				if i >= len(got) || got[i].Hash != b.Hash {
					t.Fail("after the notice that makes %v the end of the chain, %v was delivered, not all of the new branch", hx.N(anc.Hash), hx.Names(added))
				}
				vals, dels := b.Content(hx.Re(".*"), nil)
				if d := hx.Diff(got[i], b, vals, dels); d != "" {
					t.Fail("block %v: %v", hx.N(b.Hash), d)
				}
			}
		}})
	}
	return out
}

// noise makes messages that have nothing to do with the stream or are broken.
var noise = []string{
	"",
	"not json",
	`{}`,
	`[]`,
	`{"jsonrpc":"2.0","id":99,"result":"0x5"}`,
	`{"jsonrpc":"2.0","id":-1,"error":{"code":-1,"message":"x"}}`,
	`{"jsonrpc":"2.0","method":"cardinal_subscribe","params":{"subscription":"0x9","result":{"type":"ready"}}}`,
	`{"jsonrpc":"2.0","method":"other_subscribe","params":{"subscription":"0x0","result":{"type":"ready"}}}`,
	`{"jsonrpc":"2.0","method":"cardinal_subscribe","params":{"subscription":"0x0","result":{"type":"batch"}}}`,
	`{"jsonrpc":"2.0","method":"cardinal_subscribe","params":{"subscription":"0x0","result":{"type":"subbatch"}}}`,
	`{"jsonrpc":"2.0","method":"cardinal_subscribe","params":{"subscription":"0x0","result":{"type":"reorg"}}}`,
	`{"jsonrpc":"2.0","method":"cardinal_subscribe","params":{"subscription":"0x0","result":{"type":"unknown","batch":{}}}}`,
	`{"jsonrpc":"2.0","method":"cardinal_subscribe","params":{"subscription":"0x0","result":{"type":"batch","batch":{"number":"0x65"}}}}`,
	`{"jsonrpc":"2.0","method":"cardinal_subscribe","params":{"subscription":"0x0","result":7}}`,
	`{"jsonrpc":"2.0","method":"cardinal_subscribe","params":{"subscription":"0x0","result":{"type":"batch","batch":{"number":"0x6`,
	`{"jsonrpc":"2.0","method":"cardinal_subscribe"}`,
	foreignBlock("other_subscribe", "0x0"),
	foreignBlock("cardinal_subscribe", "0x1"),
	foreignBlock("", "0x0"),
}

// foreignBlock makes a message that holds a block which would be the next one but
// belongs to something else.
func foreignBlock(method, id string) string {
	end := chain(root, 2, "m", true)[1]
	x := chain(end, 1, "x", false)[0]
	b := transports.TransportBatch{Number: hexutil.Uint64(x.Num), Weight: (*hexutil.Big)(x.Weight), Hash: x.Hash, ParentHash: x.Parent,
		Values: map[string]hexutil.Bytes{}, Deletes: []string{}, Batches: map[string]types.Hash{}}
	r, err := json.Marshal(map[string]any{"jsonrpc": "2.0", "method": method,
		"params": map[string]any{"subscription": id, "result": map[string]any{"type": "batch", "batch": b}}})
	if err != nil {
		panic(err)
	}
	return string(r)
}

// noisy streams: nothing is lost, repeated or made up, and the consumer goes on
func noisy(tier string) *vs.Scenario {
	bs := chain(root, 2, "m", true)
	var msgs [][]byte
	return &vs.Scenario{Name: "noise", Quick: 0, Deep: 0, Run: func(t *vs.T) {
		t.Explore(false)
		if msgs == nil {
			first, ready, parts := capture(t, bs...)
			l := [][]byte{first, ready, parts[0][0], parts[0][1], parts[1][0]}
			r, p := wfresh(t)
			_ = r
			c := dial(t, root)
			c.read(`"ready"`)
			p.Reorg(bs[0].Num, bs[0].Hash)
			m, _ := c.read(`"reorg"`)
			l = append(l, m, parts[1][1])
			msgs = l
		}
		at := t.Choose(len(msgs) + 2) // before the confirmation, before message i-1, at the end
		what := t.Choose(len(noise))
		t.Obs("%d at %d", what, at)
		websocket.Reset()
		websocket.Listen("8555", func(c *websocket.Conn) {
			defer c.Close()
			_, m, err := c.ReadMessage()
			if err != nil {
				return
			}
			var call struct{ ID json.RawMessage }
			json.Unmarshal(m, &call)
			send := func(m []byte) { c.WriteMessage(websocket.TextMessage, m) }
			if at == 0 {
				send([]byte(noise[what]))
			}
			send([]byte(fmt.Sprintf(`{"jsonrpc":"2.0","id":%s,"result":"0x0"}`, call.ID)))
			for i, m := range msgs {
				if at == i+1 {
					send([]byte(noise[what]))
				}
				send(m)
			}
			if at == len(msgs)+1 {
				send([]byte(noise[what]))
			}
			c.ReadMessage()
		})
		k := wconsumer(t, root, bs)
		reorgs := make(chan map[int64]types.Hash, 10)
		k.SubscribeReorg(reorgs)
		go k.start()
		vs.Settle()
		time.Sleep(5 * time.Second)
		k.settle(0)
		k.expect(2, "with a message among the others that is not part of the stream ("+noise[what]+")")
		if len(reorgs) != 1 {
			t.Fail("%d reorganisation notices were delivered", len(reorgs))
		}
		if !isReady(k, 0) {
			t.Fail("the consumer is not ready")
		}
		if websocket.Conns != 1 {
			t.Fail("the consumer connected %d times", websocket.Conns)
		}
	}}
}

// raw is a client connection without a consumer.
type raw struct {
	*websocket.Conn
	t *vs.T
}

// dial connects and subscribes from a block; messages up to the start of live
// blocks are skipped.
func dial(t *vs.T, from *hx.Block) *raw {
	vs.Settle()
	c, _, err := websocket.DefaultDialer.Dial(wurl, nil)
	if err != nil {
		t.Fail("dialing: %v", err)
	}
	r := &raw{c, t}
	h, _ := json.Marshal(from.Hash)
	r.write(`{"jsonrpc":"2.0","id":1,"method":"cardinal_subscribe","params":["streams","%#x",%s]}`, from.Num, h)
	return r
}

func (r *raw) write(f string, a ...any) {
	r.WriteMessage(websocket.TextMessage, []byte(fmt.Sprintf(f, a...)))
}

// read skips to a message that contains the text, and gives the last one before
// it too.
func (r *raw) read(text string) (m, before []byte) {
	for {
		_, x, err := r.ReadMessage()
		if err != nil {
			r.t.Fail("reading: %v", err)
		}
		before, m = m, x
		if strings.Contains(string(m), text) {
			return
		}
	}
}

// p28: content over websockets
func p28(tier string) []*vs.Scenario {
	var out []*vs.Scenario
	big1 := new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 256), big.NewInt(1))
	vals := []struct {
		k string
		v []byte
	}{
		{"a", []byte("1")}, {"empty", []byte{}}, {"nil", nil}, {"zero", []byte{0}}, {"bin", []byte{0, 255, 34, 10, 0}},
		{"", []byte("no key")}, {"q\"\\/<&>\n\x00", []byte("x")}, {"ünï/ cödé", []byte("x")}, {"0x12", []byte("0x12")},
	}
	dels := []string{"d", "", "q\"<\n", "ü"}
	routes := []string{"live", "history", "block"}
	for _, route := range routes {
		route := route
		for _, what := range []string{"identity", "content", "parts"} {
			what := what
			if what == "parts" && route != "live" {
				continue
			}
			out = append(out, &vs.Scenario{Name: route + "/" + what, Quick: 0, Deep: 0, Cap: 200000, Opts: vs.Opts{SchedOff: true}, Run: func(t *vs.T) {
				t.Explore(false)
				b := &hx.Block{Num: 101, Hash: hx.H("m1"), Parent: root.Hash, Weight: hx.W(101), Upd: hx.U("k", "v")}
				switch what {
				case "identity":
					b.Num = []int64{0, 1, 101, 1<<53 + 1, 1<<62 + 1}[t.Choose(5)]
					b.Weight = []*big.Int{hx.W(0), hx.W(1), hx.W(1<<62 + 1), big1}[t.Choose(4)]
					switch t.Choose(3) {
					case 1:
						b.Hash = types.Hash{31: 1}
					case 2:
						for i := range b.Hash {
							b.Hash[i] = 0xff
						}
					}
				case "content":
					n := len(vals)
					if tier == "quick" {
						n = 6
					}
					b.Upd = map[string][]byte{}
					for _, x := range vals[:n] {
						if t.Choose(2) == 1 {
							b.Upd[x.k] = x.v
						}
					}
					if tier == "quick" {
						for _, x := range vals[n:] {
							b.Upd[x.k] = x.v
						}
					}
					b.Del = hx.D()
					for _, k := range dels {
						if t.Choose(2) == 1 {
							b.Del[k] = struct{}{}
						}
					}
				case "parts":
					b.Subs = map[string]hx.Sub{}
					for _, name := range []string{"s/", "q\"<", ""} {
						s := hx.Sub{ID: hx.H("id" + name), Upd: map[string][]byte{}}
						switch t.Choose(6) {
						case 0:
							continue
						case 1:
							s.Upd["p/"+name] = []byte("x")
						case 2:
							s.Upd["p/"+name], s.Upd["p2"+name] = []byte{}, nil
						case 3:
							s.Upd = nil
							s.Del = []string{"d/" + name}
						case 4:
							s.Upd["q\""+name] = []byte{0, 255}
							s.Del = []string{"q\"<", name}
						case 5: // nothing
						}
						b.Subs[name] = s
					}
				}
				t.Obs("%v %v %v %v %v %v", b.Num, b.Weight, hx.N(b.Hash), hx.Keys(b.Upd), hx.Keys(b.Del), hx.Keys(b.Subs))
				r, p := wfresh(t)
				var pb *delivery.PendingBatch
				if route == "block" {
					r.only = b
					vs.Settle()
					c, _, err := websocket.DefaultDialer.Dial(wurl, nil)
					if err != nil {
						t.Fail("dialing: %v", err)
					}
					x := &raw{c, t}
					x.write(`{"jsonrpc":"2.0","id":7,"method":"cardinal_streamsBlock","params":["%#x"]}`, b.Num)
					m, _ := x.read("")
					var res struct {
						Result struct {
							Batch *transports.TransportBatch
						}
					}
					if err := json.Unmarshal(m, &res); err != nil || res.Result.Batch == nil {
						t.Fail("block requested: %s (%v)", m, err)
					}
					pb = res.Result.Batch.ToPendingBatch()
					x.write(`{"jsonrpc":"2.0","id":8,"method":"cardinal_streamsBlock","params":["%#x"]}`, b.Num+1)
					m, _ = x.read("")
					var e struct{ Result, Error json.RawMessage }
					if err := json.Unmarshal(m, &e); err != nil || len(e.Error) == 0 || string(e.Error) == "null" {
						t.Fail("a block that is not stored is answered with %s (%v)", m, err)
					}
				} else {
					if route == "history" {
						r.only = b
					}
					k := wconsumer(t, root, nil)
					ch := make(chan *delivery.PendingBatch, 10)
					k.Subscribe(ch)
					vs.Settle()
					k.start()
					vs.Settle()
					for len(ch) > 0 {
						if x := <-ch; x.Hash == b.Hash {
							pb = x
						}
					}
					if route == "live" {
						if pb != nil {
							t.Fail("a block is delivered before it was added")
						}
						wadd(t, nil, p, b)
						vs.Settle()
						if len(ch) != 1 {
							t.Fail("%d blocks were delivered", len(ch))
						}
						pb = <-ch
						if len(k.ch) != 1 || (<-k.ch).Added()[0] != pb {
							t.Fail("the block is not added to the chain")
						}
					}
				}
				v, d := b.Content(hx.Re(".*"), nil)
				if x := hx.Diff(pb, b, v, d); x != "" {
					t.Fail("the block received differs from the one sent: %v", x)
				}
			}})
		}
	}
	return out
}
