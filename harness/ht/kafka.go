package main

import (
	"bytes"
	"fmt"
	"strconv"
	"strings"
	"time"

	"github.com/Shopify/sarama"
	"github.com/openrelayxyz/cardinal-streams/v2/delivery"
	"github.com/openrelayxyz/cardinal-streams/v2/transports"
	"verif.local/h/hx"
	"verif.local/vs"
)

const kurl = "kafka://b1:9092"
const kaddr = "b1:9092"

var root = &hx.Block{Num: 100, Hash: hx.H("root"), Parent: hx.H("before"), Weight: hx.W(100)}

// chain makes n blocks on a parent, with one sub-batch and one schema key each
// if rich.
func chain(from *hx.Block, n int, prefix string, rich bool) []*hx.Block {
	var out []*hx.Block
	for i := 1; i <= n; i++ {
		name := fmt.Sprintf("%s%d", prefix, i)
		b := &hx.Block{Num: from.Num + 1, Hash: hx.H(name), Parent: from.Hash, Weight: hx.W(from.Weight.Int64() + 1),
			Upd: hx.U("num", name)}
		if rich {
			b.Upd["s/"+name] = []byte("v" + name)
			b.Subs = map[string]hx.Sub{"sub": {ID: hx.H("id" + name), Upd: hx.U("sub/a", name)}}
		}
		out = append(out, b)
		from = b
	}
	return out
}

func kcfg(last *hx.Block) *delivery.ConsumerConfig {
	c := &delivery.ConsumerConfig{ReorgThreshold: 16, TrackedPrefixes: hx.Re(".*")}
	if last != nil {
		c.LastEmittedNum, c.LastHash, c.LastWeight = last.Num, last.Hash, last.Weight
	} else {
		c.LastWeight = hx.W(0)
	}
	return c
}

// messages of blocks as the producer makes them.
func produce(t *vs.T, def string, schema map[string]string, blocks ...*hx.Block) []hx.Out {
	p, err := delivery.NewProducer(def, schema)
	if err != nil {
		t.Fail("producer: %v", err)
	}
	var out []hx.Out
	for _, b := range blocks {
		out = append(out, b.Publish(t, p)...)
	}
	return out
}

func appendAll(t *vs.T, c *sarama.Cluster, outs []hx.Out) {
	for _, o := range outs {
		c.Partition(o.Topic, o.M.Key()).Append(o.M.Key(), o.M.Value(), time.Now())
	}
}

// kcons is a consumer with its recorded updates.
type kcons struct {
	transports.Consumer
	t    *vs.T
	ch   chan *delivery.ChainUpdate
	ups  []*delivery.ChainUpdate
	got  []*delivery.PendingBatch
	want []*hx.Block // the blocks expected, in order
	any  bool        // accept any blocks
}

func newConsumer(t *vs.T, c transports.Consumer, err error, want []*hx.Block) *kcons {
	if err != nil {
		t.Fail("creating the consumer: %v", err)
	}
	k := &kcons{Consumer: c, t: t, ch: make(chan *delivery.ChainUpdate, 3000), want: want}
	k.Subscribe(k.ch)
	return k
}

func (k *kcons) start() {
	if err := k.Start(); err != nil {
		k.t.Fail("starting the consumer: %v", err)
	}
}

// drain takes the updates delivered so far and checks them: the blocks
// expected, in order, each once, with their content.
func (k *kcons) drain() {
	for {
		select {
		case u := <-k.ch:
			k.ups = append(k.ups, u)
			if len(u.Removed()) > 0 {
				k.t.Fail("blocks %v were removed", hx.Names(u.Removed()))
			}
			for _, pb := range u.Added() {
				i := len(k.got)
				k.got = append(k.got, pb)
				if k.any {
					continue
				}
				if i >= len(k.want) {
					k.t.Fail("block %v was delivered beyond the chain (after %v)", hx.N(pb.Hash), hx.Names(k.got[:i]))
				}
				b := k.want[i]
				if pb.Hash != b.Hash {
					k.t.Fail("block %v was delivered instead of %v", hx.N(pb.Hash), hx.N(b.Hash))
				}
				vals, dels := b.Content(hx.Re(".*"), nil)
				if d := hx.Diff(pb, b, vals, dels); d != "" {
					k.t.Fail("block %v: %v", hx.N(pb.Hash), d)
				}
			}
		default:
			return
		}
	}
}

// settle lets the system run until nothing more happens within d.
func (k *kcons) settle(d time.Duration) {
	vs.Settle()
	for i := time.Duration(0); i < d; i += time.Second {
		time.Sleep(time.Second)
		vs.Settle()
	}
	k.drain()
}

func (k *kcons) expect(n int, when string) {
	if len(k.got) < n {
		k.t.Fail("%s only %d of %d blocks were delivered (missing %v)", when, len(k.got), n, hx.N(k.want[len(k.got)].Hash))
	}
}

func isReady(c transports.Consumer, d time.Duration) bool {
	select {
	case <-c.Ready():
		return true
	case <-time.After(d):
		return false
	}
}

// place distributes the messages in order of appending over partitions through
// free choices.
func place(t *vs.T, c *sarama.Cluster, outs []hx.Out) string {
	var s []string
	for _, o := range outs {
		ls := c.Topics[o.Topic]
		l := ls[t.Choose(len(ls))]
		l.Append(o.M.Key(), o.M.Value(), time.Now())
		s = append(s, fmt.Sprint(l.Part))
	}
	return strings.Join(s, "")
}

// needed is the least rollback with which a restart from the token reads every
// message of the blocks.
func needed(cl *sarama.Cluster, topics []string, token string, bs []*hx.Block) int64 {
	pos := map[string]int64{}
	for _, x := range strings.Split(token, ";") {
		if kv := strings.Split(x, "="); len(kv) == 2 {
			n, _ := strconv.ParseInt(kv[1], 10, 64)
			pos[kv[0]] = n
		}
	}
	var least int64
	for _, topic := range topics {
		for _, l := range cl.Topics[topic] {
			at, ok := pos[fmt.Sprintf("%v:%v", topic, l.Part)]
			if !ok {
				continue // read from its start
			}
			for _, r := range l.Recs {
				for _, b := range bs {
					if bytes.Equal(r.Key[1:33], b.Hash[:]) && at-r.Offset > least {
						least = at - r.Offset
					}
				}
			}
		}
	}
	return least
}

func fresh(t *vs.T) *sarama.Cluster {
	sarama.Reset()
	return sarama.At(kaddr)
}

func p16(tier string) []*vs.Scenario {
	var out []*vs.Scenario
	sec := time.Second
	// blocks already in the log, every placement over the partitions
	type cas struct {
		name   string
		parts  int
		blocks int
		rich   bool
	}
	for _, c := range []cas{{"history/1", 1, 3, true}, {"history/2", 2, 3, false}, {"history/2rich", 2, 1, true}, {"history/3", 3, 2, false}} {
		c := c
		out = append(out, &vs.Scenario{Name: c.name, Quick: 1, Deep: 1, Run: func(t *vs.T) {
			t.Explore(false)
			cl := fresh(t)
			bs := chain(root, c.blocks, "m", c.rich)
			schema := map[string]string{}
			cl.AddTopic("main", c.parts)
			topics := []string{"main"}
			if c.rich {
				schema["s/"] = "state"
				cl.AddTopic("state", c.parts)
				topics = append(topics, "state")
			}
			cl.FetchMax = t.Choose(2)
			at := place(t, cl, produce(t, "main", schema, bs...))
			t.Obs("%s", at)
			cons, err := transports.NewKafkaConsumer(kurl, "main", topics, nil, 0, kcfg(root))
			k := newConsumer(t, cons, err, bs)
			t.Explore(true)
			k.start()
			k.settle(0)
			t.Explore(false)
			k.settle(20 * sec)
			k.expect(len(bs), "20s after starting")
		}})
	}
	// blocks arrive while the consumer starts
	for _, parts := range []int{1, 2} {
		parts := parts
		out = append(out, &vs.Scenario{Name: fmt.Sprintf("live/%d", parts), Quick: 1, Deep: 2, Run: func(t *vs.T) {
			t.Explore(false)
			cl := fresh(t)
			bs := chain(root, 3, "m", true)
			schema := map[string]string{"s/": "state"}
			cl.AddTopic("main", parts)
			cl.AddTopic("state", parts)
			var outs [][]hx.Out
			p, _ := delivery.NewProducer("main", schema)
			for _, b := range bs {
				outs = append(outs, b.Publish(t, p))
			}
			appendAll(t, cl, outs[0])
			cons, err := transports.NewKafkaConsumer(kurl, "main", []string{"main", "state"}, nil, 0, kcfg(root))
			k := newConsumer(t, cons, err, bs)
			t.Explore(true)
			done := make(chan bool)
			go func() {
				appendAll(t, cl, outs[1])
				appendAll(t, cl, outs[2])
				done <- true
			}()
			k.start()
			<-done
			k.settle(0)
			t.Explore(false)
			k.settle(20 * sec)
			k.expect(3, "20s after starting")
		}})
	}
	// restart from the token of any block, in every placement; what is before
	// the token is not delivered again, everything after it is
	for _, c := range []cas{{"resume/1", 1, 3, true}, {"resume/2", 2, 3, false}, {"resume/2rich", 2, 2, true}} {
		c := c
		quick := 0
		if c.name == "resume/1" {
			quick = 1
		}
		out = append(out, &vs.Scenario{Name: c.name, Quick: quick, Deep: 1, Run: func(t *vs.T) {
			t.Explore(false)
			cl := fresh(t)
			bs := chain(root, c.blocks, "m", c.rich)
			schema := map[string]string{}
			cl.AddTopic("main", c.parts)
			topics := []string{"main"}
			if c.rich {
				schema["s/"] = "state"
				cl.AddTopic("state", c.parts)
				topics = append(topics, "state")
			}
			cl.FetchMax = t.Choose(2)
			at := place(t, cl, produce(t, "main", schema, bs...))
			t.Obs("%s", at)
			cons, err := transports.NewKafkaConsumer(kurl, "main", topics, nil, 0, kcfg(root))
			k := newConsumer(t, cons, err, bs)
			k.start()
			k.settle(20 * sec)
			k.expect(len(bs), "20s after starting")
			k.Close()
			i := t.Choose(len(bs))
			token := k.got[i].Resumption()
			// the token covers blocks announced in order (P13), with several
			// partitions the rollback has to cover the difference
			least := needed(cl, topics, token, bs[i+1:])
			rollback := []int64{least, least + 1, 50}[t.Choose(3)]
			t.Obs("from %v -%v", i, rollback)
			cons2, err := transports.NewKafkaConsumer(kurl, "main", topics, []byte(token), rollback, kcfg(bs[i]))
			k2 := newConsumer(t, cons2, err, bs[i+1:])
			t.Explore(true)
			k2.start()
			k2.settle(0)
			t.Explore(false)
			k2.settle(20 * sec)
			k2.expect(len(bs)-i-1, "20s after restarting at block "+hx.N(bs[i].Hash)+" with token "+token)
		}})
	}
	// old messages are removed by retention before the consumer starts
	out = append(out, &vs.Scenario{Name: "retention", Quick: 1, Deep: 1, Run: func(t *vs.T) {
		t.Explore(false)
		cl := fresh(t)
		bs := chain(root, 4, "m", false)
		cl.AddTopic("main", 2)
		outs := produce(t, "main", nil, bs...)
		lg := cl.Topics["main"]
		for _, o := range outs[:2] {
			lg[t.Choose(2)].Append(o.M.Key(), o.M.Value(), time.Now())
		}
		lg[0].Trim(int64(len(lg[0].Recs)))
		lg[1].Trim(int64(len(lg[1].Recs)))
		for _, o := range outs[2:] {
			lg[t.Choose(2)].Append(o.M.Key(), o.M.Value(), time.Now())
		}
		t.Obs("%v %v", lg[0].Base, len(lg[0].Recs))
		cons, err := transports.NewKafkaConsumer(kurl, "main", []string{"main"}, nil, int64(t.Choose(2)), kcfg(bs[1]))
		k := newConsumer(t, cons, err, bs[2:])
		t.Explore(true)
		k.start()
		k.settle(0)
		t.Explore(false)
		k.settle(20 * sec)
		k.expect(2, "20s after starting")
	}})
	// many messages on one partition, few or none on another: the partitions
	// are kept in step
	for _, few := range []int{0, 1, 3} {
		few := few
		out = append(out, &vs.Scenario{Name: fmt.Sprintf("uneven/%d", few), Quick: 0, Deep: 0, Run: func(t *vs.T) {
			t.Explore(false)
			cl := fresh(t)
			n := 700
			bs := chain(root, n, "m", false)
			cl.AddTopic("main", 2)
			lg := cl.Topics["main"]
			pos := t.Choose(3) // the few are at the beginning, in the middle or at the end
			cl.FetchMax = []int{0, 10}[t.Choose(2)]
			for i, o := range produce(t, "main", nil, bs...) {
				part := 0
				if k := i - []int{0, n / 2, n - few}[pos]; k >= 0 && k < few {
					part = 1
				}
				lg[part].Append(o.M.Key(), o.M.Value(), time.Now())
			}
			t.Obs("%v", pos)
			cons, err := transports.NewKafkaConsumer(kurl, "main", []string{"main"}, nil, 0, kcfg(root))
			k := newConsumer(t, cons, err, bs)
			k.start()
			k.settle(60 * sec)
			k.expect(n, "60s after starting")
		}, Opts: vs.Opts{MaxSteps: 200000}})
	}
	return out
}
