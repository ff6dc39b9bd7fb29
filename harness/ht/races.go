package main

import (
	"time"

	"github.com/openrelayxyz/cardinal-streams/v2/delivery"
	"github.com/openrelayxyz/cardinal-streams/v2/transports"
	"github.com/openrelayxyz/cardinal-types"
	"verif.local/h/hx"
	"verif.local/vs"
)

// p31: data races. The binary is built with the race detector; vs hands over
// between goroutines without synchronisation that it could see and reports the
// order that the operations of the code establish.
func p31(tier string) []*vs.Scenario {
	var out []*vs.Scenario
	sec := time.Second
	add := func(name string, quick, deep int, f func(t *vs.T)) {
		out = append(out, &vs.Scenario{Name: name, Quick: quick, Deep: deep, Run: f, Opts: vs.Opts{MaxSteps: 200000}})
	}
	// what users do with a consumer while it runs
	use := func(t *vs.T, c transports.Consumer, bs []*hx.Block) {
		t.Explore(true)
		for i := 0; i < 2; i++ {
			go func() { // a subscriber
				ch := make(chan *delivery.ChainUpdate, 10)
				sub := c.Subscribe(ch)
				defer sub.Unsubscribe()
				timeout := time.After(30 * sec)
				for {
					select {
					case u := <-ch:
						n := 0
						for _, pb := range u.Added() {
							n += len(pb.Values) + len(pb.Deletes) + len(pb.Resumption()) + int(pb.Number) + len(pb.Hash) + pb.Weight.BitLen()
						}
						u.Done()
					case <-timeout:
						return
					}
				}
			}()
		}
		go func() { // subscriber to single blocks
			ch := make(chan *delivery.PendingBatch, 10)
			sub := c.Subscribe(ch)
			for range bs {
				select {
				case pb := <-ch:
					pb.Done()
					_ = pb.Resumption()
				case <-time.After(30 * sec):
				}
			}
			sub.Unsubscribe()
		}()
		go func() {
			ch := make(chan map[int64]types.Hash, 10)
			sub := c.SubscribeReorg(ch)
			select {
			case <-ch:
			case <-time.After(30 * sec):
			}
			sub.Unsubscribe()
		}()
		for i := 0; i < 2; i++ {
			b := bs[i%len(bs)]
			go func() {
				c.WhyNotReady(b.Hash)
				c.ProducerCount(45 * sec)
				time.Sleep(sec / 2)
				c.WhyNotReady(b.Hash)
				time.Sleep(35 * sec)
				c.ProducerCount(45 * sec)
				c.WhyNotReady(b.Hash)
			}()
			go func() {
				c.Waiter().WaitForHashResult(b.Hash, 5*sec)
				c.Waiter().WaitForNumberResult(b.Num, 5*sec)
			}()
			go func() {
				select {
				case <-c.Ready():
				case <-time.After(40 * sec):
				}
			}()
		}
		go c.Start()
	}
	finish := func(t *vs.T, c transports.Consumer) {
		time.Sleep(5 * sec)
		vs.Settle()
		t.Explore(false)
		time.Sleep(40 * sec)
		vs.Settle()
		for i := 0; i < 2; i++ {
			go c.Close()
		}
		vs.Settle()
		time.Sleep(sec)
		vs.Settle()
	}
	add("kafka", 1, 2, func(t *vs.T) {
		t.Explore(false)
		cl, _ := clusters(t, 2)
		bs := chain(root, 3, "m", true)
		appendAll(t, cl, outsA(t, bs[:2]...))
		c, err := transports.NewKafkaConsumer(kurl, "main", brokerA.Topics, nil, 0, kcfg(root))
		if err != nil {
			t.Fail("%v", err)
		}
		use(t, c, bs)
		time.Sleep(2 * sec)
		newProducer(t, kschema, 20*sec) // heartbeats
		appendAll(t, cl, outsA(t, bs[2:]...))
		finish(t, c)
	})
	add("mux/kafka", 1, 2, func(t *vs.T) {
		t.Explore(false)
		a, b := clusters(t, 1)
		bs := chain(root, 3, "m", true)
		appendAll(t, a, outsA(t, bs[:2]...))
		appendAll(t, b, outsB(t, bs[:2]...))
		c, err := transports.ResolveMuxConsumer([]transports.BrokerParams{brokerA, brokerB}, nil, kcfg(root))
		if err != nil {
			t.Fail("%v", err)
		}
		use(t, c, bs)
		time.Sleep(2 * sec)
		appendAll(t, a, outsA(t, bs[2:]...))
		appendAll(t, b, outsB(t, bs[2:]...))
		finish(t, c)
	})
	add("mux/ws", 1, 2, func(t *vs.T) {
		t.Explore(false)
		a, _ := clusters(t, 1)
		bs := chain(root, 3, "m", true)
		r, p := wfresh(t, bs[:1]...)
		vs.Settle()
		appendAll(t, a, outsA(t, bs[:2]...))
		c, err := transports.ResolveMuxConsumer([]transports.BrokerParams{brokerA, brokerWS}, nil, kcfg(root))
		if err != nil {
			t.Fail("%v", err)
		}
		use(t, c, bs)
		time.Sleep(2 * sec)
		appendAll(t, a, outsA(t, bs[2:]...))
		wadd(t, r, p, bs[1])
		wadd(t, r, p, bs[2])
		finish(t, c)
	})
	add("ws", 1, 2, func(t *vs.T) {
		t.Explore(false)
		bs := chain(root, 3, "m", true)
		r, p := wfresh(t, bs[:1]...)
		vs.Settle()
		c, err := transports.ResolveConsumer(wurl, "main", nil, nil, 0, kcfg(root))
		if err != nil {
			t.Fail("%v", err)
		}
		use(t, c, bs)
		wadd(t, r, p, bs[1])
		time.Sleep(2 * sec)
		wadd(t, r, p, bs[2])
		p.Reorg(bs[1].Num, bs[1].Hash)
		finish(t, c)
	})
	add("producer", 1, 2, func(t *vs.T) {
		t.Explore(false)
		cl := fresh(t)
		cl.AddTopic("main", 2)
		bs := chain(root, 3, "m", true)
		p := newProducer(t, kschema, 20*sec)
		q := newProducer(t, kschema, 20*sec)
		t.Explore(true)
		go func() {
			for _, b := range bs {
				publish(t, p, b)
				time.Sleep(20 * sec)
			}
		}()
		go func() {
			for _, b := range bs {
				publish(t, q, b)
				time.Sleep(30 * sec)
			}
			q.PurgeReplayCache()
		}()
		for i := 0; i < 2; i++ {
			go func() {
				for j := 0; j < 4; j++ {
					p.SetHealth(j%2 == 0)
					p.ProducerCount(time.Minute)
					time.Sleep(20 * sec)
				}
				p.LatestBlockFromFeed()
			}()
		}
		time.Sleep(sec)
		vs.Settle()
		t.Explore(false)
		time.Sleep(100 * sec)
		vs.Settle()
	})
	return out
}
