package main

import (
	"fmt"
	"time"

	"github.com/Shopify/sarama"
	"github.com/gorilla/websocket"
	rpct "github.com/openrelayxyz/cardinal-rpc/transports"
	"github.com/openrelayxyz/cardinal-streams/v2/delivery"
	"github.com/openrelayxyz/cardinal-streams/v2/transports"
	"github.com/openrelayxyz/cardinal-types"
	"verif.local/h/hx"
	"verif.local/vs"
)

var (
	toA  = transports.ProducerBrokerParams{URL: kurl, DefaultTopic: "main", Schema: kschema}
	toB  = transports.ProducerBrokerParams{URL: "cardinal://" + kurl2, DefaultTopic: "main-b", Schema: kschema2}
	toWS = transports.ProducerBrokerParams{URL: wurl}
)

func muxProducer(t *vs.T, r *resumer, to ...transports.ProducerBrokerParams) transports.Producer {
	p, err := transports.ResolveMuxProducer(to, r)
	if err != nil {
		t.Fail("creating the producer: %v", err)
	}
	return p
}

// lacks lists what a cluster misses of blocks.
func lacks(cl *sarama.Cluster, outs []hx.Out) string {
	have := logged(cl)
	for _, o := range outs {
		if have[o.Topic+"|"+string(o.M.Key())] == 0 {
			return fmt.Sprintf("%v on %v", hx.Kind(o.M), o.Topic)
		}
	}
	return ""
}

// p30: producers for several brokers
func p30(tier string) []*vs.Scenario {
	var out []*vs.Scenario
	sec := time.Second
	setup := func(t *vs.T) (a, b *sarama.Cluster, r *resumer) {
		sarama.Reset()
		websocket.Reset()
		rpct.Reset()
		return sarama.At(kaddr), sarama.At(kaddr2), &resumer{t: t, chain: []*hx.Block{root}, threshold: 16}
	}
	all := []transports.ProducerBrokerParams{toA, toB, toWS}
	// everything reaches every broker
	for _, c := range []struct {
		name        string
		subsets     bool
		quick, deep int
	}{{"all", false, 1, 2}, {"subsets", true, 0, 1}} {
		c := c
		out = append(out, &vs.Scenario{Name: "publish/" + c.name, Quick: c.quick, Deep: c.deep, Run: func(t *vs.T) {
			t.Explore(false)
			a, b, r := setup(t)
			var to []transports.ProducerBrokerParams
			use := [3]bool{true, true, true}
			if c.subsets {
				use = [3]bool{}
				for _, i := range hx.Perm(t, 3)[:1+t.Choose(3)] {
					to = append(to, all[i])
					use[i] = true
				}
				a.NBrokers, b.NBrokers = 1, 1+t.Choose(2)
				b.Latency = t.Choose(2) == 1
			} else {
				to = all
			}
			t.Obs("%v", use)
			bs := chain(root, 2, "m", true)
			bs[1].Del = hx.D("gone")
			t.Explore(true)
			p := muxProducer(t, r, to...)
			var wk *kcons
			if use[2] {
				wk = wconsumer(t, root, bs)
				wk.start()
			}
			for _, b := range bs {
				r.set(b)
				publish(t, p, b)
			}
			vs.Settle()
			t.Explore(false)
			if use[0] {
				if m := lacks(a, outsA(t, bs...)); m != "" {
					t.Fail("%v was not published to the first cluster", m)
				}
				k := muxConsumer(t, []transports.BrokerParams{brokerA}, "", root, bs)
				k.start()
				k.settle(5 * sec)
				k.expect(2, "from the first cluster")
			} else if total(a) > 0 {
				t.Fail("%d messages were published to a cluster that is not used", total(a))
			}
			if use[1] {
				if m := lacks(b, outsB(t, bs...)); m != "" {
					t.Fail("%v was not published to the second cluster", m)
				}
				k := muxConsumer(t, []transports.BrokerParams{brokerB}, "", root, bs)
				k.start()
				k.settle(5 * sec)
				k.expect(2, "from the second cluster")
			} else if total(b) > 0 {
				t.Fail("%d messages were published to a cluster that is not used", total(b))
			}
			if use[2] {
				wk.settle(2 * sec)
				wk.expect(2, "over the websocket")
			}
			// again, it is published by the websocket only
			na, nb := total(a), total(b)
			for _, b := range bs {
				publish(t, p, b)
			}
			vs.Settle()
			if total(a) != na || total(b) != nb {
				t.Fail("blocks were published again to a cluster")
			}
			p.PurgeReplayCache()
			for _, b := range bs {
				publish(t, p, b)
			}
			vs.Settle()
			if total(a) != 2*na || total(b) != 2*nb {
				t.Fail("after the replay cache was purged %d and %d messages are in the clusters, expected %d and %d", total(a), total(b), 2*na, 2*nb)
			}
			if use[2] {
				wk.settle(2 * sec)
			}
		}})
	}
	// a broker fails: the others go on, the caller is told, and repeating the
	// block completes it everywhere
	for _, which := range []int{0, 1} {
		which := which
		out = append(out, &vs.Scenario{Name: fmt.Sprintf("failure/%d", which), Quick: 1, Deep: 2, Run: func(t *vs.T) {
			t.Explore(false)
			a, b, r := setup(t)
			cls := []*sarama.Cluster{a, b}
			bad, good := cls[which], cls[1-which]
			bad.Latency = t.Choose(2) == 0
			bs := chain(root, 2, "m", true)
			to := [][]transports.ProducerBrokerParams{{toA, toB, toWS}, {toWS, toB, toA}}[t.Choose(2)]
			p := muxProducer(t, r, to...)
			vs.Settle()
			wk := wconsumer(t, root, bs)
			wk.start()
			at, n := t.Choose(4), 0
			times := 1 + t.Choose(2)
			var failed []string
			bad.FailSend = func(topic string, key []byte) error {
				if key[0] == byte(delivery.PingType) {
					return nil
				}
				n++
				if n > at && n <= at+times {
					failed = append(failed, string(key))
					return sarama.ErrOutOfBrokers
				}
				return nil
			}
			outs := [][]func(bs ...*hx.Block) []hx.Out{
				{func(bs ...*hx.Block) []hx.Out { return outsA(t, bs...) }, func(bs ...*hx.Block) []hx.Out { return outsB(t, bs...) }},
				{func(bs ...*hx.Block) []hx.Out { return outsB(t, bs...) }, func(bs ...*hx.Block) []hx.Out { return outsA(t, bs...) }},
			}[which]
			t.Explore(true)
			// Failures are reported in order, by the call that sent the message or
			// a later one. In the latter case the message is not sent again, see P20.
			errs := 0
			late := map[types.Hash]bool{}
			call := func(b *hx.Block, add bool, err error) error {
				if err == nil {
					return nil
				}
				if errs++; errs > len(failed) {
					t.Fail("%d calls failed although only %d messages could not be sent: %v", errs, len(failed), err)
				}
				f := failed[errs-1]
				isAdd := f[0] != byte(delivery.SubBatchHeaderType) && f[0] != byte(delivery.SubBatchMsgType)
				if h := types.BytesToHash([]byte(f)[1:33]); h != b.Hash || isAdd != add {
					late[h] = true
				}
				return err
			}
			for _, b := range bs {
				r.set(b)
				for try := 0; ; try++ {
					err := call(b, true, addBlock(p, b))
					for _, k := range hx.Keys(b.Subs) {
						if err2 := call(b, false, p.SendBatch(b.Subs[k].ID, b.Subs[k].Del, b.Subs[k].Upd)); err == nil {
							err = err2
						}
					}
					if try == 0 {
						vs.Settle()
						if m := lacks(good, outs[1](b)); m != "" {
							t.Fail("%v was not sent to a cluster when the other one failed (error %v)", m, err)
						}
					}
					if err == nil {
						break
					}
					time.Sleep(5 * sec)
				}
				time.Sleep(sec)
				vs.Settle()
			}
			t.Explore(false)
			wk.settle(2 * sec)
			wk.expect(2, "over the websocket")
			t.Obs("%v %v %v", len(failed), errs, late)
			if len(failed) > 0 && errs == 0 {
				t.Fail("no call reported that %d messages could not be sent", len(failed))
			}
			for _, f := range failed[errs:] {
				late[types.BytesToHash([]byte(f)[1:33])] = true
			}
			for _, b := range bs {
				if m := lacks(bad, outs[0](b)); m != "" && !late[b.Hash] {
					t.Fail("publishing block %v was repeated successfully after a failure, but %v was not published", hx.N(b.Hash), m)
				}
			}
		}})
	}
	// the latest block
	out = append(out, &vs.Scenario{Name: "latest", Quick: 0, Deep: 0, Run: func(t *vs.T) {
		t.Explore(false)
		a, b, r := setup(t)
		bs := chain(root, 3, "m", false)
		for _, n := range []string{"main", "state", "subs"} {
			a.AddTopic(n, 1)
		}
		for _, n := range []string{"main-b", "state-b", "subs-b"} {
			b.AddTopic(n, 1)
		}
		var to []transports.ProducerBrokerParams
		low := int64(-1)
		for _, i := range hx.Perm(t, 3)[:1+t.Choose(3)] {
			to = append(to, all[i])
			if i == 2 {
				continue
			}
			n := t.Choose(4)
			v := int64(0)
			if n > 0 {
				v = bs[n-1].Num
				if i == 0 {
					appendAll(t, a, outsA(t, bs[:n]...))
				} else {
					appendAll(t, b, outsB(t, bs[:n]...))
				}
			}
			if low < 0 || v < low {
				low = v
			}
		}
		t.Obs("%v", to)
		p := muxProducer(t, r, to...)
		vs.Settle()
		n, err := p.LatestBlockFromFeed()
		if low < 0 {
			if err == nil {
				t.Fail("the latest block is %v although no broker knows it", n)
			}
		} else if err != nil || n != low {
			t.Fail("the latest block of several brokers is %v (%v), the lowest one of them is %v", n, err, low)
		}
	}})
	// health and number of producers
	out = append(out, &vs.Scenario{Name: "health", Quick: 0, Deep: 0, Run: func(t *vs.T) {
		t.Explore(false)
		_, _, r := setup(t)
		p := muxProducer(t, r, toA, toWS, toB)
		var others []transports.Producer
		na, nb := t.Choose(3), t.Choose(3)
		for i := 0; i < na+nb; i++ {
			url, topic, schema := kurl, "main", kschema
			if i >= na {
				url, topic, schema = kurl2, "main-b", kschema2
			}
			time.Sleep(sec)
			x, err := transports.NewKafkaProducer(url, topic, schema)
			if err != nil {
				t.Fail("producer: %v", err)
			}
			others = append(others, x)
		}
		ka := muxConsumer(t, []transports.BrokerParams{brokerA}, "", root, nil)
		kb := muxConsumer(t, []transports.BrokerParams{brokerB}, "", root, nil)
		ka.start()
		kb.start()
		healthy := true
		for round := 0; round < 3; round++ {
			if t.Choose(2) == 1 {
				healthy = !healthy
				p.SetHealth(healthy)
			}
			time.Sleep(35 * sec)
			vs.Settle()
			if n := p.ProducerCount(34 * sec); n != uint(na+nb) {
				t.Fail("%v other producers are counted, there are %v and %v", n, na, nb)
			}
			self := uint(0)
			if healthy {
				self = 1
			}
			if x, y := ka.ProducerCount(34*sec), kb.ProducerCount(34*sec); x != uint(na)+self || y != uint(nb)+self {
				t.Fail("consumers of the clusters count %v and %v producers instead of %v and %v with healthy=%v", x, y, na, nb, healthy)
			}
		}
		t.Obs("%v %v", na, nb)
	}})
	// notices of reorgs
	out = append(out, &vs.Scenario{Name: "reorg", Quick: 1, Deep: 2, Run: func(t *vs.T) {
		t.Explore(false)
		a, b, r := setup(t)
		p := muxProducer(t, r, [][]transports.ProducerBrokerParams{{toA, toWS, toB}, {toWS, toWS2}}[t.Choose(2)]...)
		wk := wconsumer(t, root, nil)
		wk.any = true
		wk.start()
		old := chain(root, 2, "o", true)
		for _, b := range old {
			r.set(b)
			publish(t, p, b)
		}
		wk.settle(2 * sec)
		n := len(wk.got)
		ch := make(chan map[int64]types.Hash, 10)
		wk.SubscribeReorg(ch)
		t.Explore(true)
		done, err := p.Reorg(root.Num, root.Hash)
		if err != nil || done == nil {
			t.Fail("the reorg gave an error: %v", err)
		}
		done()
		vs.Settle()
		t.Explore(false)
		time.Sleep(2 * sec)
		vs.Settle()
		if len(ch) != 1 {
			t.Fail("%d notices arrived over the websocket instead of one", len(ch))
		}
		if m := <-ch; m[root.Num] != root.Hash {
			t.Fail("the notice is %v", m)
		}
		t.Obs("%d %d %d", n, total(a), total(b))
	}})
	// brokers that cannot be used
	out = append(out, &vs.Scenario{Name: "refused", Quick: 0, Deep: 0, Run: func(t *vs.T) {
		t.Explore(false)
		a, b, r := setup(t)
		var to []transports.ProducerBrokerParams
		bad := 0
		n := 1 + t.Choose(3)
		for i := 0; i < n; i++ {
			k := t.Choose(8)
			t.Obs("%d", k)
			if k >= 3 {
				bad++
			}
			switch k {
			case 0, 1, 2:
				to = append(to, all[k])
			case 3:
				to = append(to, transports.ProducerBrokerParams{URL: "null://"})
			case 4:
				to = append(to, transports.ProducerBrokerParams{URL: "http://node:1234"})
			case 5:
				to = append(to, transports.ProducerBrokerParams{URL: "ws://node"})
			case 6:
				to = append(to, transports.ProducerBrokerParams{URL: kurl})
			case 7: // the schema is not possible
				to = append(to, transports.ProducerBrokerParams{URL: kurl, DefaultTopic: "main", Schema: map[string]string{"a": "x", "ab": "y"}})
			}
		}
		var p transports.Producer
		var err error
		returned := false
		go func() {
			p, err = transports.ResolveMuxProducer(to, r)
			returned = true
		}()
		time.Sleep(20 * sec)
		vs.Settle()
		if !returned {
			t.Fail("creating the producer did not return")
		}
		if (bad > 0) != (err != nil) || (p == nil) != (err != nil) {
			t.Fail("creating a producer with %d unusable brokers of %d gave %v, %v", bad, n, p, err)
		}
		_, _ = a, b
	}})
	return out
}

var toWS2 = transports.ProducerBrokerParams{URL: "cardinal://ws://node:8556"}
