package main

import (
	"bytes"
	"fmt"
	"time"

	"github.com/Shopify/sarama"
	"github.com/openrelayxyz/cardinal-streams/v2/delivery"
	"github.com/openrelayxyz/cardinal-streams/v2/transports"
	"github.com/openrelayxyz/cardinal-types"
	"verif.local/h/hx"
	"verif.local/vs"
)

// logged counts the messages per topic and key in a cluster.
func logged(cl *sarama.Cluster) map[string]int {
	m := map[string]int{}
	for topic, ls := range cl.Topics {
		for _, l := range ls {
			for _, r := range l.Recs {
				m[topic+"|"+string(r.Key)]++
			}
		}
	}
	return m
}

func total(cl *sarama.Cluster) int {
	n := 0
	for _, c := range logged(cl) {
		n += c
	}
	return n
}

// missing lists the messages of a block that are not in the topics ("" if none).
func missing(t *vs.T, cl *sarama.Cluster, schema map[string]string, b *hx.Block) string {
	have := logged(cl)
	for _, o := range produce(t, "main", schema, b) {
		if have[o.Topic+"|"+string(o.M.Key())] == 0 {
			return fmt.Sprintf("%v on %v", hx.Kind(o.M), o.Topic)
		}
	}
	return ""
}

func newProducer(t *vs.T, schema map[string]string, within time.Duration) transports.Producer {
	var p transports.Producer
	done := make(chan bool, 1)
	go func() {
		x, err := transports.NewKafkaProducer(kurl, "main", schema)
		if err != nil {
			t.Fail("creating the producer: %v", err)
		}
		p = x
		done <- true
	}()
	select {
	case <-done:
	case <-time.After(within):
		t.Fail("creating a producer did not return within %v", within)
	}
	return p
}

func addBlock(p transports.Producer, b *hx.Block) error {
	upd, del := b.Upd, b.Del
	if upd == nil {
		upd = map[string][]byte{}
	}
	if del == nil {
		del = map[string]struct{}{}
	}
	return p.AddBlock(b.Num, b.Hash, b.Parent, b.Weight, upd, del, b.BatchIDs())
}

func sendBatches(t *vs.T, p transports.Producer, b *hx.Block) error {
	for _, k := range hx.Keys(b.Subs) {
		if err := p.SendBatch(b.Subs[k].ID, b.Subs[k].Del, b.Subs[k].Upd); err != nil {
			return err
		}
	}
	return nil
}

func publish(t *vs.T, p transports.Producer, b *hx.Block) {
	if err := addBlock(p, b); err != nil {
		t.Fail("publishing block %v failed: %v", hx.N(b.Hash), err)
	}
	if err := sendBatches(t, p, b); err != nil {
		t.Fail("sending a sub-batch of block %v failed: %v", hx.N(b.Hash), err)
	}
}

var kschema = map[string]string{"s/": "state", "sub/": "subs"}

// consumeAll checks what a consumer makes of the topics.
func consumeAll(t *vs.T, bs []*hx.Block) {
	cons, err := transports.NewKafkaConsumer(kurl, "main", []string{"main", "state", "subs"}, nil, 0, kcfg(root))
	k := newConsumer(t, cons, err, bs)
	k.start()
	k.settle(20 * time.Second)
	k.expect(len(bs), "from the topics")
}

func fill(cl *sarama.Cluster, topic string, n int) {
	for i := 0; i < n; i++ {
		for _, l := range cl.Topics[topic] {
			l.Append([]byte("\xff"+fmt.Sprintf("%032d", i)), nil, time.Now())
		}
	}
}

func p20(tier string) []*vs.Scenario {
	var out []*vs.Scenario
	sec := time.Second
	// one producer and one consumer
	for _, c := range []struct {
		brokers int
		latency bool
		exists  bool
	}{{1, false, false}, {2, true, false}, {1, true, true}} {
		c := c
		out = append(out, &vs.Scenario{Name: fmt.Sprintf("publish/%d/%v/%v", c.brokers, c.latency, c.exists), Quick: 3 - c.brokers, Deep: 2, Run: func(t *vs.T) {
			t.Explore(false)
			cl := fresh(t)
			cl.NBrokers, cl.Latency = c.brokers, c.latency
			if c.exists {
				cl.AddTopic("main", 1)
				cl.AddTopic("state", 3)
			}
			bs := chain(root, 2, "m", true)
			t.Explore(true)
			p := newProducer(t, kschema, 20*sec)
			for _, b := range bs {
				publish(t, p, b)
			}
			vs.Settle()
			t.Explore(false)
			for _, name := range []string{"main", "state", "subs"} {
				if len(cl.Topics[name]) == 0 {
					t.Fail("topic %v was not created", name)
				}
			}
			n := 0
			for _, b := range bs {
				if m := missing(t, cl, kschema, b); m != "" {
					t.Fail("%v was not published", m)
				}
				n += len(produce(t, "main", kschema, b))
			}
			if total(cl) != n {
				t.Fail("%d messages were published instead of %d", total(cl), n)
			}
			consumeAll(t, bs)
		}})
	}
	// what is in the topic when the producer starts
	out = append(out, &vs.Scenario{Name: "history", Quick: 0, Deep: 0, Run: func(t *vs.T) {
		t.Explore(false)
		cl := fresh(t)
		parts := 1 + t.Choose(2)
		cl.AddTopic("main", parts)
		cl.AddTopic("state", 1)
		cl.AddTopic("subs", 1)
		cl.FetchMax = []int{0, 1, 7}[t.Choose(3)]
		bs := chain(root, 2, "m", true)
		before := []int{0, 1, 150}[t.Choose(3)]
		// (the messages of the block that are on the topic count, too)
		after := []int{0, 1, 40, 96, 97, 98, 99, 100}[t.Choose(8)]
		trim := t.Choose(4) // nothing, the messages before, all but one, everything
		announced := t.Choose(2) == 0
		at := t.Choose(parts)
		fill(cl, "main", before)
		if announced {
			for _, o := range produce(t, "main", kschema, bs[0]) {
				l := cl.Topics[o.Topic][0]
				if o.Topic == "main" {
					l = cl.Topics["main"][at]
				}
				l.Append(o.M.Key(), o.M.Value(), time.Now())
			}
		}
		fill(cl, "main", after)
		for _, l := range cl.Topics["main"] {
			n := int64(len(l.Recs))
			switch trim {
			case 1:
				l.Trim(int64(before))
			case 2:
				if n > 0 {
					l.Trim(n - 1)
				}
			case 3:
				l.Trim(n)
			}
		}
		had := total(cl)
		key := delivery.BatchType.GetKey(bs[0].Hash[:])
		visible, present := false, false
		for _, l := range cl.Topics["main"] {
			for _, r := range l.Recs {
				if bytes.Equal(r.Key, key) {
					present = true
					visible = r.Offset >= l.End()-100
				}
			}
		}
		p := newProducer(t, kschema, 20*sec)
		vs.Settle()
		publish(t, p, bs[0])
		vs.Settle()
		t.Obs("%v", total(cl)-had)
		if visible {
			if total(cl) != had {
				t.Fail("a block that is among the last 100 messages of its partition when the producer starts was published again")
			}
		} else if m := missing(t, cl, kschema, bs[0]); !present && m != "" {
			t.Fail("%v was not published, although the block is not in the topic", m)
		}
		had = total(cl)
		publish(t, p, bs[1])
		vs.Settle()
		if n := len(produce(t, "main", kschema, bs[1])); total(cl) != had+n {
			t.Fail("a new block led to %d messages instead of %d", total(cl)-had, n)
		}
	}})
	// two producers with the same blocks, in every order of their steps
	for _, settle := range []bool{true, false} {
		settle := settle
		name, quick, deep := "redundant/slow", 0, 0
		if !settle {
			name, quick, deep = "redundant/fast", 1, 2
		}
		out = append(out, &vs.Scenario{Name: name, Quick: quick, Deep: deep, Run: func(t *vs.T) {
			t.Explore(false)
			cl := fresh(t)
			bs := chain(root, 2, "m", true)
			var ps []transports.Producer
			for i := 0; i < 2; i++ {
				time.Sleep(time.Millisecond)
				ps = append(ps, newProducer(t, kschema, 20*sec))
			}
			vs.Settle()
			var order []int
			if settle {
				order = hx.Merge(t, []int{4, 4})
			} else {
				order = [][]int{{0, 1, 0, 1, 0, 1, 0, 1}, {0, 0, 1, 1, 0, 0, 1, 1}, {0, 1, 1, 0, 1, 0, 0, 1}}[t.Choose(3)]
			}
			t.Explore(!settle)
			step := []int{0, 0}
			for _, i := range order {
				b := bs[step[i]/2]
				had := total(cl)
				known := logged(cl)["main|"+string(delivery.BatchType.GetKey(b.Hash[:]))] > 0
				if step[i]%2 == 0 {
					if err := addBlock(ps[i], b); err != nil {
						t.Fail("publishing block %v failed: %v", hx.N(b.Hash), err)
					}
				} else if err := sendBatches(t, ps[i], b); err != nil {
					t.Fail("sending a sub-batch of block %v failed: %v", hx.N(b.Hash), err)
				}
				if settle {
					vs.Settle()
					if step[i]%2 == 0 && known && total(cl) != had {
						t.Fail("a producer published block %v although another one had done so", hx.N(b.Hash))
					}
				}
				step[i]++
			}
			vs.Settle()
			t.Explore(false)
			for _, b := range bs {
				if m := missing(t, cl, kschema, b); m != "" {
					t.Fail("%v was not published by any of two redundant producers", m)
				}
			}
			if settle {
				for k, n := range logged(cl) {
					if n != 1 {
						t.Fail("message %q was published %d times by two producers in turns", k, n)
					}
				}
			}
			t.Obs("%v", total(cl))
			consumeAll(t, bs)
		}})
	}
	// many blocks and sub-batches are remembered
	out = append(out, &vs.Scenario{Name: "many", Quick: 0, Deep: 0, Opts: vs.Opts{MaxSteps: 4000000}, Run: func(t *vs.T) {
		t.Explore(false)
		cl := fresh(t)
		c := [][2]int{{1, 400}, {400, 1}, {150, 5}}[t.Choose(3)]
		nb, ns := c[0], c[1]
		pad := []int{0, 2500}[t.Choose(2)]    // announcements of other blocks before
		stored := nb == 1 && t.Choose(2) == 0 // announced before the producer started
		inTurn := t.Choose(2) == 0
		cl.AddTopic("main", 2)
		cl.AddTopic("state", 1)
		bs := chain(root, pad+nb, "m", false)
		for i, b := range bs[pad:] {
			b.Upd = nil
			b.Subs = map[string]hx.Sub{}
			for j := 0; j < ns; j++ {
				b.Subs[fmt.Sprintf("s/%04d", j)] = hx.Sub{ID: hx.H(fmt.Sprintf("s%d.%d", i, j)), Upd: hx.U("s/x", "1")}
			}
		}
		announce := func() {
			for i, b := range bs {
				for _, o := range produce(t, "main", kschema, b) {
					if o.Topic == "main" {
						cl.Topics["main"][i%2].Append(o.M.Key(), o.M.Value(), time.Now())
					}
				}
			}
		}
		if stored && pad == 0 {
			announce()
		}
		p := newProducer(t, kschema, 20*sec)
		if !stored || pad > 0 {
			announce()
		}
		time.Sleep(sec)
		vs.Settle()
		had := total(cl)
		for _, b := range bs {
			if err := addBlock(p, b); err != nil {
				t.Fail("block %v, which another producer had published, was refused: %v", hx.N(b.Hash), err)
			}
			if inTurn {
				if err := sendBatches(t, p, b); err != nil {
					t.Fail("a sub-batch of block %v, which another producer had published, was refused: %v", hx.N(b.Hash), err)
				}
			}
		}
		if !inTurn {
			for _, b := range bs {
				if err := sendBatches(t, p, b); err != nil {
					t.Fail("a sub-batch of block %v, which another producer had published, was refused when it was sent after the other blocks: %v", hx.N(b.Hash), err)
				}
			}
		}
		vs.Settle()
		if total(cl) != had {
			t.Fail("%d messages were published for blocks that another producer had published", total(cl)-had)
		}
	}})
	// purging the memory makes blocks be published again, in full
	out = append(out, &vs.Scenario{Name: "purge", Quick: 2, Deep: 3, Run: func(t *vs.T) {
		t.Explore(false)
		cl := fresh(t)
		bs := chain(root, 1, "m", true)
		p := newProducer(t, kschema, 20*sec)
		n := len(produce(t, "main", kschema, bs[0]))
		t.Explore(true)
		publish(t, p, bs[0])
		vs.Settle()
		publish(t, p, bs[0])
		vs.Settle()
		if total(cl) != n {
			t.Fail("a block that had been published led to %d more messages", total(cl)-n)
		}
		p.PurgeReplayCache()
		publish(t, p, bs[0])
		vs.Settle()
		t.Explore(false)
		for k, c := range logged(cl) {
			if c != 2 {
				t.Fail("message %q was published %d times, expected twice after the replay cache was purged", k, c)
			}
		}
		if total(cl) != 2*n {
			t.Fail("%d messages were published, expected %d", total(cl), 2*n)
		}
	}})
	// sending fails: the caller learns of it, and trying again publishes all
	out = append(out, &vs.Scenario{Name: "failures", Quick: 2, Deep: 3, Run: func(t *vs.T) {
		t.Explore(false)
		cl := fresh(t)
		cl.Latency = t.Choose(2) == 0
		bs := chain(root, 3, "m", false)
		for _, b := range bs {
			for _, k := range []string{"s/a", "s/b", "sub/c"} {
				b.Upd[k] = []byte(k)
			}
		}
		p := newProducer(t, kschema, 20*sec)
		vs.Settle()
		at, n := t.Choose(4), 0
		failed := ""
		cl.FailSend = func(topic string, key []byte) error {
			if key[0] == byte(delivery.PingType) {
				return nil
			}
			n++
			if n == at+1 {
				failed = topic + "|" + string(key)
				return sarama.ErrOutOfBrokers
			}
			return nil
		}
		t.MapOrder(true)
		t.Explore(true)
		own := types.Hash{} // the block whose own call failed
		errs := 0
		for _, b := range bs {
			for try := 0; ; try++ {
				err := addBlock(p, b)
				if err == nil {
					break
				}
				errs++
				if b == bs[0] {
					own = b.Hash
				}
				if try > 3 {
					t.Fail("publishing block %v failed %d times, although only one message could not be sent: %v", hx.N(b.Hash), try, err)
				}
				time.Sleep(5 * sec)
			}
			time.Sleep(sec)
			vs.Settle()
		}
		t.Explore(false)
		t.MapOrder(false)
		t.Obs("%v %v", errs, hx.N(own))
		if failed != "" && errs == 0 {
			t.Fail("no call reported that message %q could not be sent", failed)
		}
		for i, b := range bs {
			m := missing(t, cl, kschema, b)
			if m != "" && (i > 0 || own == b.Hash) {
				t.Fail("publishing block %v was repeated successfully after a failure, but %v was not published", hx.N(b.Hash), m)
			}
		}
	}})
	for _, whole := range []bool{false, true} {
		whole := whole
		name := "failures/batch"
		if whole {
			name = "failures/block"
		}
		out = append(out, &vs.Scenario{Name: name, Quick: 1, Deep: 2, Run: func(t *vs.T) {
			t.Explore(false)
			cl := fresh(t)
			cl.Latency = t.Choose(2) == 0
			bs := chain(root, 2, "m", false)
			for _, b := range bs {
				n := hx.N(b.Hash)
				b.Subs = map[string]hx.Sub{"s": {ID: hx.H("s" + n), Upd: hx.U("s/1", n, "s/2", n)}, "sub": {ID: hx.H("t" + n), Upd: hx.U("sub/1", n), Del: []string{"sub/2"}}}
			}
			p := newProducer(t, kschema, 20*sec)
			vs.Settle()
			at, n := t.Choose(6), 0
			var failed types.Hash // the batch of which a message is not sent
			cl.FailSend = func(topic string, key []byte) error {
				switch delivery.MessageType(key[0]) {
				case delivery.SubBatchHeaderType, delivery.SubBatchMsgType:
				default:
					return nil
				}
				n++
				if n == at+1 {
					failed = types.BytesToHash(key[33:65])
					return sarama.ErrOutOfBrokers
				}
				return nil
			}
			pause := t.Choose(2) == 0 // whether the producer reads its own messages
			t.Explore(true)
			errs := 0
			own := false // the failure was reported by the call that sent the message
			try := func(b *hx.Block, k string) bool {
				err := error(nil)
				if k == "" {
					err = addBlock(p, b)
				} else {
					err = p.SendBatch(b.Subs[k].ID, b.Subs[k].Del, b.Subs[k].Upd)
				}
				if pause {
					time.Sleep(sec)
					vs.Settle()
				}
				if err == nil {
					return true
				}
				errs++
				if errs > 1 {
					t.Fail("%d calls failed although only one message could not be sent: %v", errs, err)
				}
				own = k != "" && b.Subs[k].ID == failed
				return false
			}
			for _, b := range bs {
				calls := []string{"", "s", "sub"}
				for i := 0; i < len(calls); {
					if try(b, calls[i]) {
						i++
					} else if whole {
						i = 0
					}
				}
			}
			time.Sleep(5 * sec)
			vs.Settle()
			t.Explore(false)
			t.Obs("%v %v", errs, own)
			for i, b := range bs {
				m := missing(t, cl, kschema, b)
				if m != "" && (i > 0 || own) {
					t.Fail("sending was repeated successfully after a failure, but %v of block %v was not published", m, hx.N(b.Hash))
				}
			}
		}})
	}
	return out
}

func p21(tier string) []*vs.Scenario {
	var out []*vs.Scenario
	sec := time.Second
	out = append(out, &vs.Scenario{Name: "latest", Quick: 0, Deep: 0, Run: func(t *vs.T) {
		t.Explore(false)
		cl := fresh(t)
		parts := 1 + t.Choose(2)
		cl.AddTopic("main", parts)
		cl.FetchMax = []int{0, 1, 30}[t.Choose(3)]
		if cl.FetchMax > 0 {
			cl.FetchDelay = func(string, int32) time.Duration { return 5 * time.Millisecond }
		}
		bs := chain(root, 3, "m", false)
		outs := produce(t, "main", nil, bs...)
		where := make([]int, 3)
		fillers := []int{0, 5, 120}[t.Choose(3)]
		fill(cl, "main", fillers)
		for i := range where {
			where[i] = t.Choose(parts + 1) // the last is: not published
		}
		high := int64(0)
		order := hx.Perm(t, 3)
		tail := []int{0, 96}[t.Choose(2)]
		for _, i := range order {
			if where[i] < parts {
				cl.Topics["main"][where[i]].Append(outs[i].M.Key(), outs[i].M.Value(), time.Now())
				if bs[i].Num > high {
					high = bs[i].Num
				}
			}
		}
		fill(cl, "main", tail)
		odd := t.Choose(3)
		for _, l := range cl.Topics["main"] {
			switch odd {
			case 1: // messages without a key are heartbeats
				l.Append(nil, nil, time.Now())
			case 2:
				l.Append(delivery.BatchType.GetKey(bytes.Repeat([]byte{7}, 32)), []byte("garbage"), time.Now())
			}
		}
		p := newProducer(t, nil, 20*sec)
		vs.Settle()
		t.Obs("%v %v %v", where, order, tail)
		had := cl.OpenConsumers // the producer's own
		got, err := p.LatestBlockFromFeed()
		if err != nil {
			t.Fail("no latest block: %v", err)
		}
		if got != high {
			t.Fail("the latest block of the feed is reported as %d, it is %d (blocks on partitions %v in order %v, followed by %d other messages)", got, high, where, order, tail)
		}
		vs.Settle()
		if n := cl.OpenConsumers - had; n > 0 {
			t.Fail("%d partitions are still consumed after looking for the latest block", n)
		}
		// and it can be asked again
		if got, err = p.LatestBlockFromFeed(); err != nil || got != high {
			t.Fail("asked again, the latest block of the feed is reported as %d (%v), it is %d", got, err, high)
		}
	}})
	out = append(out, &vs.Scenario{Name: "retention", Quick: 0, Deep: 0, Run: func(t *vs.T) {
		t.Explore(false)
		cl := fresh(t)
		cl.AddTopic("main", 2)
		bs := chain(root, 3, "m", false)
		n := []int{0, 40, 130}[t.Choose(3)]
		fill(cl, "main", n)
		for _, o := range produce(t, "main", nil, bs...) {
			cl.Topics["main"][t.Choose(2)].Append(o.M.Key(), o.M.Value(), time.Now())
		}
		high := int64(0)
		for _, l := range cl.Topics["main"] {
			keep := t.Choose(3)
			if k := len(l.Recs) - keep; k > 0 {
				l.Trim(int64(k))
			}
			for _, r := range l.Recs {
				if r.Key[0] == byte(delivery.BatchType) {
					if b, err := delivery.UnmarshalBatch(r.Value); err == nil && b.Number > high {
						high = b.Number
					}
				}
			}
		}
		p := newProducer(t, nil, 20*sec)
		vs.Settle()
		had := cl.OpenConsumers // the producer's own
		got, err := p.LatestBlockFromFeed()
		if err != nil || got != high {
			t.Fail("the latest block of the feed is reported as %d (%v), it is %d", got, err, high)
		}
		vs.Settle()
		if n := cl.OpenConsumers - had; n > 0 {
			t.Fail("%d partitions are still consumed after looking for the latest block", n)
		}
		t.Obs("%v", high)
	}})
	// while blocks are being published
	out = append(out, &vs.Scenario{Name: "live", Quick: 3, Deep: 5, Run: func(t *vs.T) {
		t.Explore(false)
		cl := fresh(t)
		cl.AddTopic("main", 1)
		bs := chain(root, 3, "m", false)
		outs := produce(t, "main", nil, bs...)
		p := newProducer(t, nil, 20*sec)
		vs.Settle()
		appendAll(t, cl, outs[:1])
		t.Explore(true)
		done := make(chan bool)
		go func() {
			appendAll(t, cl, outs[1:])
			done <- true
		}()
		got, err := p.LatestBlockFromFeed()
		<-done
		if err != nil || got < bs[0].Num || got > bs[2].Num {
			t.Fail("the latest block of the feed is reported as %d (%v), it is between %d and %d", got, err, bs[0].Num, bs[2].Num)
		}
		t.Obs("%v", got)
	}})
	return out
}

func p22(tier string) []*vs.Scenario {
	var out []*vs.Scenario
	sec := time.Second
	out = append(out, &vs.Scenario{Name: "count", Quick: 0, Deep: 0, Run: func(t *vs.T) {
		t.Explore(false)
		cl := fresh(t)
		cl.AddTopic("main", 1+t.Choose(2))
		n := 1 + t.Choose(3)
		var ps []transports.Producer
		for i := 0; i < n; i++ {
			ps = append(ps, newProducer(t, nil, 20*sec))
			time.Sleep(sec) // heartbeats are a second apart
		}
		cons, err := transports.NewKafkaConsumer(kurl, "main", []string{"main"}, nil, 0, kcfg(root))
		k := newConsumer(t, cons, err, nil)
		k.start()
		// each interval of 30s the producers are healthy or not
		last := make([]time.Time, n) // last heartbeat
		healthy := make([]bool, n)
		rounds := 3
		for r := 0; r < rounds; r++ {
			for i, p := range ps {
				healthy[i] = t.Choose(2) == 0
				p.SetHealth(healthy[i])
			}
			time.Sleep(30 * sec)
			vs.Settle()
			// every producer was due once
			for i := range ps {
				if healthy[i] {
					last[i] = time.Now()
				}
			}
			for _, d := range []time.Duration{45 * sec, 75 * sec} {
				want := make([]uint, n+1)
				for i, l := range last {
					if !l.IsZero() && time.Since(l) < d {
						for j := range want {
							if j != i {
								want[j]++
							}
						}
					}
				}
				for j, p := range ps {
					if got := p.ProducerCount(d); got != want[j] {
						t.Fail("producer %d of %d counts %d other producers in the last %v, there were %d (round %d)", j, n, got, d, want[j], r)
					}
				}
				if got := k.ProducerCount(d); got != want[n] {
					t.Fail("a consumer counts %d producers in the last %v, there were %d (round %d)", got, d, want[n], r)
				}
			}
			t.Obs("%v", healthy)
		}
		k.Close()
	}})
	return out
}
