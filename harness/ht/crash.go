package main

import (
	"bytes"
	"fmt"
	"time"

	"github.com/Shopify/sarama"
	"github.com/gorilla/websocket"
	"github.com/openrelayxyz/cardinal-streams/v2/delivery"
	"github.com/openrelayxyz/cardinal-streams/v2/transports"
	"verif.local/h/hx"
	"verif.local/vs"
)

// recovered checks that the blocks are delivered, once each, in order and
// complete, to a consumer that ran all the time, to a new one, and to ones
// resumed from each of the tokens of the first.
func recovered(t *vs.T, cl *sarama.Cluster, topics []string, x *kcons, bs []*hx.Block) {
	x.settle(20 * time.Second)
	x.expect(len(bs), "20s after the blocks were published again, to a consumer that ran all the time,")
	cons, err := transports.NewKafkaConsumer(kurl, "main", topics, nil, 0, kcfg(root))
	n := newConsumer(t, cons, err, bs)
	n.start()
	n.settle(20 * time.Second)
	n.expect(len(bs), "after the crash, to a new consumer,")
	n.Close()
	i := t.Choose(len(bs))
	token := x.got[i].Resumption()
	least := needed(cl, topics, token, bs[i+1:])
	cons, err = transports.NewKafkaConsumer(kurl, "main", topics, []byte(token), least, kcfg(bs[i]))
	r := newConsumer(t, cons, err, bs[i+1:])
	r.start()
	r.settle(20 * time.Second)
	r.expect(len(bs)-i-1, "to a consumer resumed from block "+hx.N(bs[i].Hash))
	r.Close()
	x.Close()
}

// announced tells whether the announcement of a block is in the log.
func announced(cl *sarama.Cluster, b *hx.Block) bool {
	key := delivery.BatchType.GetKey(b.Hash[:])
	for _, l := range cl.Topics["main"] {
		for _, r := range l.Recs {
			if bytes.Equal(r.Key, key) {
				return true
			}
		}
	}
	return false
}

// p40: producers that die
func p40(tier string) []*vs.Scenario {
	var out []*vs.Scenario
	sec := time.Second
	topics := []string{"main", "state", "subs"}
	schema := kschema
	setup := func(t *vs.T, parts int) *sarama.Cluster {
		cl := fresh(t)
		cl.AddTopic("main", parts)
		cl.AddTopic("state", parts)
		cl.AddTopic("subs", parts)
		return cl
	}
	xcons := func(t *vs.T, bs []*hx.Block) *kcons {
		cons, err := transports.NewKafkaConsumer(kurl, "main", topics, nil, 0, kcfg(root))
		x := newConsumer(t, cons, err, bs)
		x.start()
		vs.Settle()
		return x
	}
	again := func(t *vs.T, p transports.Producer, bs []*hx.Block) {
		for _, b := range bs {
			publish(t, p, b)
			vs.Settle()
		}
	}
	type cas struct {
		name        string
		parts       int
		one         bool // all messages on one topic
		purge       bool
		blocks      int
		quick, deep int
		sched       bool
	}
	for _, c := range []cas{
		{name: "torn/1", parts: 1, blocks: 2, purge: true},
		{name: "torn/one-topic", parts: 1, blocks: 2, one: true, purge: true},
		{name: "torn/2", parts: 2, blocks: 2, purge: true},
		{name: "torn/sched", parts: 1, blocks: 1, purge: true, sched: true, quick: 1, deep: 1},
		{name: "resumed/1", parts: 1, blocks: 2},
		{name: "resumed/2", parts: 2, blocks: 2},
	} {
		c := c
		if tier == "thorough" {
			c.blocks++
		}
		out = append(out, &vs.Scenario{Name: c.name, Quick: c.quick, Deep: c.deep, Run: func(t *vs.T) {
			t.Explore(false)
			schema, topics := schema, topics
			if c.one {
				schema, topics = nil, []string{"main"}
			}
			cl := setup(t, c.parts)
			if c.parts > 1 { // sequences of a key's partitions
				turn := t.Choose(2)
				cl.Place = func(topic string, key []byte, n int) int {
					h := turn
					for _, b := range key {
						h += int(b)
					}
					return h % n
				}
			}
			bs := chain(root, c.blocks+1, "m", true)
			x := xcons(t, bs)
			var standby transports.Producer
			// the producer that takes over is started afterwards, stands by, or
			// publishes the same blocks all the time
			kind := 0
			if c.purge && !c.sched {
				kind = t.Choose(3)
			}
			if kind > 0 {
				standby = newProducer(t, schema, 20*sec)
			}
			time.Sleep(time.Millisecond)
			p := newProducer(t, schema, 20*sec)
			vs.Settle()
			// what every log gets of the first blocks
			count := map[*sarama.Log]int{}
			var logs []*sarama.Log
			for _, o := range produce(t, "main", schema, bs[:c.blocks]...) {
				l := cl.Partition(o.Topic, o.M.Key())
				if count[l] == 0 {
					logs = append(logs, l)
				}
				count[l]++
			}
			left := map[*sarama.Log]int{}
			for _, l := range logs {
				left[l] = t.Choose(count[l] + 1)
				t.Obs("%v:%v %d/%d", l.Topic, l.Part, left[l], count[l])
			}
			cl.Lost = func(l *sarama.Log) bool {
				left[l]--
				return left[l] < 0
			}
			for _, b := range bs[:c.blocks] {
				publish(t, p, b)
			}
			vs.Settle()
			p.SetHealth(false) // it has died
			cl.Lost = nil
			r := standby
			if r == nil {
				time.Sleep(time.Millisecond)
				r = newProducer(t, schema, 20*sec)
				vs.Settle()
			}
			if c.purge {
				if kind == 2 {
					for _, b := range bs[:c.blocks] {
						known := announced(cl, b)
						publish(t, r, b)
						vs.Settle()
						if m := missing(t, cl, schema, b); !known && m != "" {
							t.Fail("%v was not published by the second producer, although the first one died before it announced the block", m)
						}
					}
				}
				r.PurgeReplayCache()
				t.Explore(c.sched)
				again(t, r, bs)
				t.Explore(false)
				recovered(t, cl, topics, x, bs)
				return
			}
			t.Explore(false)
			latest := int64(0)
			for _, b := range bs {
				if announced(cl, b) {
					latest = b.Num
				}
			}
			n, err := r.LatestBlockFromFeed()
			if err != nil || n != latest {
				t.Fail("the latest block is %d (error %v) after a producer died, expected %d", n, err, latest)
			}
			for _, b := range bs {
				known, had := announced(cl, b), total(cl)
				publish(t, r, b)
				vs.Settle()
				if known {
					if total(cl) != had {
						t.Fail("block %v was published again, although it had been announced by the producer that died", hx.N(b.Hash))
					}
				} else if m := missing(t, cl, schema, b); m != "" {
					t.Fail("%v was not published by the second producer, although the first one died before it announced the block", m)
				} else if want := len(produce(t, "main", schema, b)); total(cl) != had+want {
					t.Fail("the second producer published %d messages for block %v, expected %d", total(cl)-had, hx.N(b.Hash), want)
				}
			}
			x.drain()
			x.Close()
		}})
	}
	// the second producer dies, too
	for _, parts := range []int{1, 2} {
		parts := parts
		out = append(out, &vs.Scenario{Name: fmt.Sprintf("twice/%d", parts), Quick: 0, Deep: 0, Run: func(t *vs.T) {
			t.Explore(false)
			cl := setup(t, parts)
			bs := chain(root, 2, "m", true)
			x := xcons(t, bs)
			n := len(produce(t, "main", schema, bs...))
			for i := 0; i < 2; i++ {
				time.Sleep(time.Millisecond)
				p := newProducer(t, schema, 20*sec)
				vs.Settle()
				p.PurgeReplayCache()
				left := t.Choose(n + 1)
				t.Obs("%d", left)
				cl.Lost = func(l *sarama.Log) bool {
					left--
					return left < 0
				}
				again(t, p, bs)
				p.SetHealth(false)
				time.Sleep([]time.Duration{0, 90 * sec}[t.Choose(2)])
				cl.Lost = nil
			}
			time.Sleep(time.Millisecond)
			p := newProducer(t, schema, 20*sec)
			vs.Settle()
			p.PurgeReplayCache()
			again(t, p, bs)
			recovered(t, cl, topics, x, bs)
		}})
	}
	// a websocket producer dies at a message, and another process takes over
	type wcas struct {
		name        string
		pre, live   int
		rich        bool
		branch      bool // the new process continues on another branch
		consumers   int
		quick, deep int
	}
	for _, c := range []wcas{
		{name: "ws/1+2", pre: 1, live: 2, consumers: 1},
		{name: "ws/1+2rich", pre: 1, live: 2, rich: true, consumers: 2},
		{name: "ws/branch", pre: 1, live: 2, branch: true, consumers: 1},
		{name: "ws/branch-rich", pre: 1, live: 2, rich: true, branch: true, consumers: 1},
		{name: "ws/sched", pre: 1, live: 1, rich: true, consumers: 1, quick: 1, deep: 2},
	} {
		c := c
		out = append(out, &vs.Scenario{Name: c.name, Quick: c.quick, Deep: c.deep, Run: func(t *vs.T) {
			t.Explore(false)
			bs := chain(root, c.pre+c.live, "m", c.rich)
			side := chain(bs[c.pre-1], c.live+1, "n", c.rich)
			r, p := wfresh(t, bs[:c.pre]...)
			died, last := false, 0
			die := func() {
				died, last = true, websocket.Conns
				websocket.Unlisten("8555")
				t.Obs("died")
				for _, c := range websocket.Servers {
					c.Close()
				}
			}
			websocket.Cut = func(conn *websocket.Conn, n int, data []byte) bool {
				if !died && t.Choose(2) == 1 {
					die()
				}
				return died && conn.ID < last
			}
			var fs []*follower
			for i := 0; i < c.consumers; i++ {
				k := wconsumer(t, root, bs)
				fs = append(fs, newFollower(k, append(append([]*hx.Block(nil), bs...), side...)...))
			}
			t.Explore(true)
			for _, f := range fs {
				go f.start()
			}
			vs.Settle()
			stored := c.pre
			for _, b := range bs[c.pre:] {
				if died {
					break
				}
				if t.Choose(2) == 1 { // stored before it is sent
					r.set(b)
					stored++
				}
				if err := p.AddBlock(b.Num, b.Hash, b.Parent, b.Weight, b.Upd, hx.D(), b.BatchIDs()); err != nil {
					t.Fail("adding block %v: %v", b, err)
				}
				vs.Settle()
				if died {
					break
				}
				for _, k := range hx.Keys(b.Subs) {
					if err := p.SendBatch(b.Subs[k].ID, b.Subs[k].Del, b.Subs[k].Upd); err != nil {
						t.Fail("sending batch %v: %v", k, err)
					}
				}
				vs.Settle()
				if stored < int(b.Num-root.Num) && !died {
					r.set(b)
					stored++
				}
			}
			if !died {
				die()
			}
			time.Sleep([]time.Duration{0, 3 * sec}[t.Choose(2)])
			// the other process
			want := bs
			r2 := &resumer{t: t, threshold: 16, chain: append([]*hx.Block{root}, bs[:stored]...)}
			for _, b := range append(append([]*hx.Block(nil), bs...), side...) {
				r2.know(b)
			}
			p2, err := transports.NewWebsocketProducer(wurl, r2)
			if err != nil {
				t.Fail("creating the second producer: %v", err)
			}
			time.Sleep([]time.Duration{0, 5 * sec}[t.Choose(2)])
			if c.branch {
				want = append(append([]*hx.Block(nil), bs[:c.pre]...), side...)
				for _, b := range side {
					wadd(t, r2, p2, b)
				}
			} else {
				for _, b := range bs[stored:] {
					wadd(t, r2, p2, b)
				}
			}
			vs.Settle()
			t.Explore(false)
			for _, f := range fs {
				f.expectChain(10*sec, want, "10s after the last block of the process that took over")
				if !isReady(f, 0) {
					t.Fail("the consumer is not ready")
				}
			}
			if websocket.Live != c.consumers {
				t.Fail("%d connections are open", websocket.Live)
			}
		}})
	}
	return out
}
