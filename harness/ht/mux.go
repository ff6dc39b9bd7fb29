package main

import (
	"fmt"
	"strings"
	"time"

	"github.com/Shopify/sarama"
	"github.com/gorilla/websocket"
	rpct "github.com/openrelayxyz/cardinal-rpc/transports"
	"github.com/openrelayxyz/cardinal-streams/v2/delivery"
	"github.com/openrelayxyz/cardinal-streams/v2/transports"
	"verif.local/h/hx"
	"verif.local/vs"
)

// two Kafka clusters, with topics of their own, and a websocket server
const kurl2, kaddr2 = "kafka://b2:9092", "b2:9092"

var kschema2 = map[string]string{"s/": "state-b", "sub/": "subs-b"}

var (
	brokerA  = transports.BrokerParams{URL: kurl, DefaultTopic: "main", Topics: []string{"main", "state", "subs"}, Rollback: 50}
	brokerB  = transports.BrokerParams{URL: kurl2, DefaultTopic: "main-b", Topics: []string{"main-b", "state-b", "subs-b"}, Rollback: 50}
	brokerWS = transports.BrokerParams{URL: wurl, DefaultTopic: "main"}
	brokerNo = transports.BrokerParams{URL: "null://"}
)

// clusters makes the clusters with their topics.
func clusters(t *vs.T, parts int) (a, b *sarama.Cluster) {
	a = fresh(t)
	b = sarama.At(kaddr2)
	for _, n := range brokerA.Topics {
		a.AddTopic(n, parts)
	}
	for _, n := range brokerB.Topics {
		b.AddTopic(n, parts)
	}
	return
}

func outsA(t *vs.T, bs ...*hx.Block) []hx.Out { return produce(t, "main", kschema, bs...) }
func outsB(t *vs.T, bs ...*hx.Block) []hx.Out { return produce(t, "main-b", kschema2, bs...) }

func muxConsumer(t *vs.T, brokers []transports.BrokerParams, token string, from *hx.Block, want []*hx.Block) *kcons {
	c, err := transports.ResolveMuxConsumer(brokers, []byte(token), kcfg(from))
	return newConsumer(t, c, err, want)
}

// p29: consumers of several brokers
func p29(tier string) []*vs.Scenario {
	var out []*vs.Scenario
	sec := time.Second
	// both clusters have everything; while the consumer starts or before
	for _, c := range []struct {
		name        string
		live        int
		rich        bool
		quick, deep int
	}{
		{"redundant/stored", 0, true, 1, 2},
		{"redundant/live", 1, true, 1, 2},
		{"redundant/plain", 1, false, 1, 2},
	} {
		c := c
		out = append(out, &vs.Scenario{Name: c.name, Quick: c.quick, Deep: c.deep, Run: func(t *vs.T) {
			t.Explore(false)
			a, b := clusters(t, 1)
			bs := chain(root, 2, "m", c.rich)
			appendAll(t, a, outsA(t, bs[:2-c.live]...))
			appendAll(t, b, outsB(t, bs[:2-c.live]...))
			k := muxConsumer(t, []transports.BrokerParams{brokerA, brokerB}, "", root, bs)
			k.start()
			if c.live > 0 {
				k.settle(20 * sec)
				t.Explore(true)
				go appendAll(t, a, outsA(t, bs[2-c.live:]...))
				go appendAll(t, b, outsB(t, bs[2-c.live:]...))
			} else {
				t.Explore(true)
			}
			vs.Settle()
			t.Explore(false)
			k.settle(20 * sec)
			k.expect(2, "20s after the last block")
			if !isReady(k, 0) {
				t.Fail("the consumer is not ready")
			}
		}})
	}
	// each message is on one of the clusters or on both
	for _, n := range []int{1, 2} {
		n := n
		out = append(out, &vs.Scenario{Name: fmt.Sprintf("split/%d", n), Quick: 0, Deep: 0, Run: func(t *vs.T) {
			t.Explore(false)
			a, b := clusters(t, 1)
			bs := chain(root, n, "m", true)
			if n > 1 {
				for _, b := range bs {
					delete(b.Upd, "s/"+hx.N(b.Hash))
				}
			}
			oa, ob := outsA(t, bs...), outsB(t, bs...)
			for i := range oa {
				w := t.Choose(3)
				t.Obs("%d", w)
				if w != 1 {
					appendAll(t, a, oa[i:i+1])
				}
				if w != 0 {
					appendAll(t, b, ob[i:i+1])
				}
			}
			brokers := []transports.BrokerParams{brokerA, brokerB}
			if t.Choose(2) == 1 {
				brokers = []transports.BrokerParams{brokerB, brokerA}
			}
			for i := range brokers {
				if n == 1 && t.Choose(2) == 1 {
					brokers[i].URL = "cardinal://" + brokers[i].URL
				}
			}
			k := muxConsumer(t, brokers, "", root, bs)
			k.start()
			k.settle(20 * sec)
			k.expect(n, "20s after the start")
		}})
	}
	// a cluster and a websocket server
	for _, c := range []struct {
		name        string
		stored      int
		quick, deep int
	}{
		{"kafka+ws/live", 1, 1, 2},
		{"kafka+ws/stored", 2, 1, 2},
	} {
		c := c
		out = append(out, &vs.Scenario{Name: c.name, Quick: c.quick, Deep: c.deep, Run: func(t *vs.T) {
			t.Explore(false)
			a, _ := clusters(t, 1)
			bs := chain(root, 2, "m", true)
			r, p := wfresh(t, bs[:c.stored]...)
			vs.Settle()
			appendAll(t, a, outsA(t, bs[:c.stored]...))
			k := muxConsumer(t, []transports.BrokerParams{brokerA, brokerWS}, "", root, bs)
			if c.stored < 2 {
				k.start()
				k.settle(20 * sec)
				t.Explore(true)
				go appendAll(t, a, outsA(t, bs[c.stored:]...))
				go func() {
					for _, b := range bs[c.stored:] {
						wadd(t, r, p, b)
					}
				}()
			} else {
				t.Explore(true)
				k.start()
			}
			vs.Settle()
			t.Explore(false)
			k.settle(20 * sec)
			k.expect(2, "20s after the last block")
			if !isReady(k, 0) {
				t.Fail("the consumer is not ready")
			}
		}})
	}
	// brokers that cannot be used do not keep the others from working, and it is
	// an error if none can
	out = append(out, &vs.Scenario{Name: "unavailable", Quick: 0, Deep: 1, Run: func(t *vs.T) {
		t.Explore(false)
		a, b := clusters(t, 1)
		bs := chain(root, 2, "m", true)
		_, _ = wfresh(t, bs...)
		vs.Settle()
		appendAll(t, a, outsA(t, bs...))
		appendAll(t, b, outsB(t, bs...))
		var brokers []transports.BrokerParams
		up := 0
		kinds := hx.Perm(t, 3)
		n := 1 + t.Choose(3)
		for _, i := range kinds[:n] {
			ok := t.Choose(2) == 0
			t.Obs("%d %v", i, ok)
			if ok {
				up++
			}
			switch i {
			case 0, 1:
				brokers = append(brokers, []transports.BrokerParams{brokerA, brokerB}[i])
				if !ok { // the consumer can be made but not started
					c, topics := []*sarama.Cluster{a, b}[i], []transports.BrokerParams{brokerA, brokerB}[i].Topics
					delete(c.Topics, topics[1])
				}
			case 2:
				brokers = append(brokers, brokerWS)
				if !ok {
					websocket.Refuse = func(int) bool { return true }
				}
			}
		}
		k := muxConsumer(t, brokers, "", root, bs)
		var err error
		returned := false
		t.Explore(true)
		go func() {
			err = k.Start()
			returned = true
		}()
		vs.Settle()
		t.Explore(false)
		k.settle(20 * sec)
		if up > 0 {
			if !returned || err != nil {
				t.Fail("with %d of %d brokers available, starting: returned %v, error %v", up, n, returned, err)
			}
			k.expect(2, "20s after the start")
			if !isReady(k, 0) {
				t.Fail("the consumer is not ready")
			}
		} else if returned && err == nil {
			t.Fail("a consumer of which no broker is available started")
		}
		closed := false
		go func() {
			k.Close()
			closed = true
		}()
		time.Sleep(5 * sec)
		vs.Settle()
		if !closed {
			t.Fail("closing did not return")
		}
		if !returned || up == 0 && err == nil {
			t.Fail("starting did not return (%v) or gave no error (%v)", returned, err)
		}
	}})
	// readiness: everyone is told, not before a broker is done
	for _, c := range []struct {
		name        string
		brokers     []transports.BrokerParams
		quick, deep int
	}{
		{"ready/kafka", []transports.BrokerParams{brokerA, brokerB}, 1, 2},
		{"ready/ws", []transports.BrokerParams{brokerA, brokerWS}, 1, 2},
		{"ready/one", []transports.BrokerParams{brokerA}, 1, 2},
	} {
		c := c
		out = append(out, &vs.Scenario{Name: c.name, Quick: c.quick, Deep: c.deep, Run: func(t *vs.T) {
			t.Explore(false)
			a, b := clusters(t, 1)
			bs := chain(root, 1, "m", false)
			_, _ = wfresh(t, bs...)
			vs.Settle()
			appendAll(t, a, outsA(t, bs...))
			appendAll(t, b, outsB(t, bs...))
			k := muxConsumer(t, c.brokers, "", root, bs)
			told := 0
			shared := k.Ready()
			wait := func(ch <-chan struct{}) {
				<-ch
				told++
				time.Sleep(time.Millisecond)
				k.drain()
				if len(k.got) < len(bs) {
					t.Fail("a consumer reported that it is ready when %d of %d stored blocks had been delivered", len(k.got), len(bs))
				}
			}
			t.Explore(true)
			go wait(shared)
			go wait(shared)
			go wait(k.Ready())
			k.start()
			go wait(k.Ready())
			vs.Settle()
			t.Explore(false)
			k.settle(60 * sec)
			go wait(k.Ready())
			go wait(shared)
			vs.Settle()
			time.Sleep(sec)
			if told != 6 {
				t.Fail("%d of 6 who wait for the consumer to be ready were told", told)
			}
		}})
	}
	// closing
	out = append(out, &vs.Scenario{Name: "close", Quick: 1, Deep: 2, Run: func(t *vs.T) {
		t.Explore(false)
		a, b := clusters(t, 1)
		bs := chain(root, 3, "m", false)
		r, p := wfresh(t, bs[0])
		vs.Settle()
		appendAll(t, a, outsA(t, bs[0]))
		appendAll(t, b, outsB(t, bs[0]))
		brokers := [][]transports.BrokerParams{{brokerA, brokerB}, {brokerA, brokerWS}}[t.Choose(2)]
		when := []time.Duration{-1, 0, sec, 20 * sec}[t.Choose(4)]
		k := muxConsumer(t, brokers, "", root, bs)
		t.Explore(true)
		if when >= 0 {
			go k.Start()
			time.Sleep(when)
		}
		go func() {
			appendAll(t, a, outsA(t, bs[1]))
			appendAll(t, b, outsB(t, bs[1]))
			wadd(t, r, p, bs[1])
		}()
		closed := 0
		for i := 0; i < 2; i++ {
			go func() {
				k.Close()
				closed++
			}()
		}
		vs.Settle()
		t.Explore(false)
		time.Sleep(10 * sec)
		vs.Settle()
		if closed != 2 {
			t.Fail("closing did not return")
		}
		k.drain()
		n := len(k.got)
		appendAll(t, a, outsA(t, bs[1:]...))
		appendAll(t, b, outsB(t, bs[1:]...))
		wadd(t, r, p, bs[2])
		k.settle(10 * sec)
		if len(k.got) != n {
			t.Fail("blocks published after the consumer was closed were delivered")
		}
		if a.OpenConsumers+b.OpenConsumers != 0 || websocket.Live != 0 || rpct.Open() != 0 {
			t.Fail("after closing %d partitions are consumed, %d connections and %d streams are open", a.OpenConsumers+b.OpenConsumers, websocket.Live, rpct.Open())
		}
		t.Obs("%v %v", when, n)
	}})
	// restarting from a token
	for _, live := range []bool{false, true} {
		live := live
		out = append(out, &vs.Scenario{Name: fmt.Sprintf("resume/%v", live), Quick: 0, Deep: 0, Run: func(t *vs.T) {
			t.Explore(false)
			a, b := clusters(t, 1)
			bs := chain(root, 3, "m", true)
			oa, ob := outsA(t, bs...), outsB(t, bs...)
			// b is behind by some messages
			na, nb := len(oa), t.Choose(len(ob)+1)
			if live {
				na, nb = nb, na
			}
			appendAll(t, a, oa[:na])
			appendAll(t, b, ob[:nb])
			brokers := []transports.BrokerParams{brokerA, brokerB}
			brokers[0].Rollback = int64(t.Choose(2))
			brokers[1].Rollback = int64(t.Choose(2))
			k := muxConsumer(t, brokers, "", root, bs)
			k.start()
			k.settle(20 * sec)
			k.expect(len(bs), "20s after the start")
			k.Close()
			appendAll(t, a, oa[na:])
			appendAll(t, b, ob[nb:])
			i := t.Choose(len(bs))
			token := k.got[i].Resumption()
			t.Obs("%d %d %d", na, nb, i)
			k2 := muxConsumer(t, brokers, token, bs[i], bs[i+1:])
			k2.start()
			k2.settle(20 * sec)
			k2.expect(len(bs)-i-1, "20s after restarting at "+hx.N(bs[i].Hash)+" with token "+token)
		}})
	}
	// each broker has a rollback of its own, which covers the messages of blocks
	// to come that precede the token
	out = append(out, &vs.Scenario{Name: "rollback", Quick: 0, Deep: 0, Run: func(t *vs.T) {
		t.Explore(false)
		a, b := clusters(t, 1)
		bs := chain(root, 4, "m", false)
		from := 2
		oa, ob := outsA(t, bs...), outsB(t, bs...)
		logs := []*sarama.Log{a.Topics["main"][0], b.Topics["main-b"][0]}
		for i := range oa {
			w := t.Choose(3) // on the first, the second or both
			t.Obs("%d", w)
			if w != 1 {
				appendAll(t, a, oa[i:i+1])
			}
			if w != 0 {
				appendAll(t, b, ob[i:i+1])
			}
		}
		brokers := []transports.BrokerParams{brokerA, brokerB}
		var tokens []string
		for i, l := range logs {
			brokers[i].Rollback = int64(t.Choose(3))
			need := l.Base
			for _, r := range l.Recs {
				for _, o := range append(oa[:from:from], ob[:from]...) {
					if string(o.M.Key()) == string(r.Key) {
						need = r.Offset + 1
					}
				}
			}
			pos := need + brokers[i].Rollback
			if pos > l.End() {
				pos = l.End()
			}
			tokens = append(tokens, fmt.Sprintf("%v:0=%d", l.Topic, pos))
		}
		if t.Choose(2) == 1 {
			brokers[0], brokers[1] = brokers[1], brokers[0]
		}
		token := strings.Join(tokens, ";")
		k := muxConsumer(t, brokers, token, bs[from-1], bs[from:])
		k.start()
		k.settle(20 * sec)
		k.expect(len(bs)-from, fmt.Sprintf("20s after starting at %v with token %q and rollbacks %d and %d", hx.N(bs[from-1].Hash), token, brokers[0].Rollback, brokers[1].Rollback))
	}})
	// the same block reported complete by one broker while parts of it arrive from
	// another
	out = append(out, &vs.Scenario{Name: "numbers", Quick: 0, Deep: 0, Run: func(t *vs.T) {
		t.Explore(false)
		a, b := clusters(t, 1)
		var ps []transports.Producer
		na, nb := t.Choose(3), t.Choose(3)
		for i := 0; i < na+nb; i++ {
			url, topic, schema := kurl, "main", kschema
			if i >= na {
				url, topic, schema = kurl2, "main-b", kschema2
			}
			p, err := transports.NewKafkaProducer(url, topic, schema)
			if err != nil {
				t.Fail("producer: %v", err)
			}
			ps = append(ps, p)
			time.Sleep(sec)
		}
		_, _ = a, b
		k := muxConsumer(t, []transports.BrokerParams{brokerA, brokerWS, brokerB, brokerNo}, "", root, nil)
		k.start()
		time.Sleep(35 * sec)
		vs.Settle()
		if n := k.ProducerCount(45 * sec); n != uint(na+nb) {
			t.Fail("%d producers are counted instead of %d and %d", n, na, nb)
		}
		t.Obs("%d %d", na, nb)
		k.Close()
	}})
	return out
}

var _ = delivery.BatchType
