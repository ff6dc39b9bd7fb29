package main

import (
	"bytes"
	"fmt"
	"time"

	"github.com/Shopify/sarama"
	"github.com/openrelayxyz/cardinal-streams/v2/delivery"
	"github.com/openrelayxyz/cardinal-streams/v2/transports"
	"verif.local/h/hx"
	"verif.local/vs"
)

type record struct{ k, v []byte }

// foreignRecords lists records that are no messages of any block.
func foreignRecords() []record {
	var out []record
	hash := hx.H("nowhere").Bytes()
	long := append(append(append([]byte{}, hash...), hash...), hash...)
	for _, v := range [][]byte{nil, []byte("garbage"), bytes.Repeat([]byte{0xff}, 12)} {
		out = append(out, record{nil, v})
		for _, ty := range []byte{byte(delivery.BatchType), byte(delivery.SubBatchHeaderType), byte(delivery.SubBatchMsgType), byte(delivery.BatchMsgType), byte(delivery.BatchDeleteMsgType), byte(delivery.PingType), 0x7f, 0xff} {
			for _, n := range []int{0, 1, 31, 32, 33, 63, 64, 65, 96} {
				out = append(out, record{append([]byte{ty}, long[:n]...), v})
			}
		}
	}
	return out
}

func (r record) String() string { return fmt.Sprintf("key %x value %x", r.k, r.v) }

func (r record) put(l *sarama.Log) { l.Append(r.k, r.v, time.Now()) }

func p34(tier string) []*vs.Scenario {
	var out []*vs.Scenario
	sec := time.Second
	js := foreignRecords()
	out = append(out, &vs.Scenario{Name: "producer", Quick: 0, Deep: 1, Run: func(t *vs.T) {
		t.Explore(false)
		cl := fresh(t)
		cl.AddTopic("main", 1)
		bs := chain(root, 3, "m", true)
		j := js[t.Choose(len(js))]
		at := t.Choose(4) // before, after the announcement, live before, after
		t.Obs("%v at %v", j, at)
		main := cl.Topics["main"][0]
		announce := func(b *hx.Block) {
			for _, o := range produce(t, "main", kschema, b) {
				if o.M.Key()[0] == byte(delivery.BatchType) {
					main.Append(o.M.Key(), o.M.Value(), time.Now())
				}
			}
		}
		if at == 0 {
			j.put(main)
		}
		announce(bs[0])
		if at == 1 {
			j.put(main)
		}
		t.Explore(true)
		p := newProducer(t, kschema, 20*sec)
		vs.Settle()
		if at == 2 {
			j.put(main)
		}
		announce(bs[1])
		if at == 3 {
			j.put(main)
		}
		vs.Settle()
		t.Explore(false)
		if n, err := p.LatestBlockFromFeed(); err != nil || n != bs[1].Num {
			t.Fail("with a record with %v in the topic the latest block is %v (%v), expected %v", j, n, err, bs[1].Num)
		}
		had := total(cl)
		publish(t, p, bs[0])
		publish(t, p, bs[1])
		vs.Settle()
		if total(cl) != had {
			t.Fail("with a record with %v in the topic a block was published again", j)
		}
		publish(t, p, bs[2])
		vs.Settle()
		if m := missing(t, cl, kschema, bs[2]); m != "" {
			t.Fail("with a record with %v in the topic %v was not published", j, m)
		}
		if n := p.ProducerCount(time.Hour); n > 1 || (n == 1 && (len(j.k) == 0 || j.k[0] != byte(delivery.PingType))) {
			t.Fail("with a record with %v in the topic %v other producers are counted", j, n)
		}
	}})
	for _, c := range []struct {
		name string
		live bool
	}{{"stored", false}, {"live", true}} {
		c := c
		out = append(out, &vs.Scenario{Name: "consumer/" + c.name, Quick: 0, Deep: 1, Run: func(t *vs.T) {
			t.Explore(false)
			cl := fresh(t)
			topics := []string{"main", "state", "subs"}
			for _, n := range topics {
				cl.AddTopic(n, 1)
			}
			bs := chain(root, 2, "m", true)
			outs := produce(t, "main", kschema, bs...)
			j := js[t.Choose(len(js))]
			where := topics[t.Choose(3)]
			n := 0
			for _, o := range outs {
				if o.Topic == where {
					n++
				}
			}
			at := t.Choose(n + 1)
			t.Obs("%v in %v at %v", j, where, at)
			cons, err := transports.NewKafkaConsumer(kurl, "main", topics, nil, 0, kcfg(root))
			k := newConsumer(t, cons, err, append([]*hx.Block{}, bs...))
			t.Explore(true)
			if c.live {
				k.start()
				vs.Settle()
			}
			n = 0
			for _, o := range outs {
				if o.Topic == where {
					if n == at {
						j.put(cl.Topics[where][0])
					}
					n++
				}
				appendAll(t, cl, []hx.Out{o})
			}
			if n == at {
				j.put(cl.Topics[where][0])
			}
			if !c.live {
				k.start()
			}
			k.settle(0)
			t.Explore(false)
			k.settle(10 * sec)
			k.expect(2, fmt.Sprintf("with a record with %v in %v", j, where))
			if !isReady(k, sec) {
				t.Fail("with a record with %v in %v the consumer does not become ready", j, where)
			}
			// the record does not stand in the way of later blocks
			last := chain(bs[1], 1, "x", true)
			k.want = append(k.want, last...)
			appendAll(t, cl, produce(t, "main", kschema, last...))
			k.settle(2 * sec)
			k.expect(3, fmt.Sprintf("with a record with %v in %v", j, where))
			k.Close()
			vs.Settle()
			if cl.OpenConsumers != 0 {
				t.Fail("%d partitions are still consumed after closing", cl.OpenConsumers)
			}
			// nor does it after a restart from the token of any block
			i := t.Choose(3)
			cons2, err := transports.NewKafkaConsumer(kurl, "main", topics, []byte(k.got[i].Resumption()), 1, kcfg(k.want[i]))
			k2 := newConsumer(t, cons2, err, k.want[i+1:])
			k2.start()
			k2.settle(10 * sec)
			k2.expect(2-i, fmt.Sprintf("after a restart with a record with %v in %v", j, where))
		}})
	}
	return out
}
