package main

import (
	"errors"
	"strings"
	"time"

	"github.com/Shopify/sarama"
	"github.com/gorilla/websocket"
	"github.com/openrelayxyz/cardinal-streams/v2/delivery"
	"github.com/openrelayxyz/cardinal-streams/v2/transports"
	"verif.local/h/hx"
	"verif.local/vs"
)

// left waits for goroutines to end and fails if there are some that were not
// there before (the harness's own and those of stand-ins for servers are not
// counted).
func left(t *vs.T, before []string, cl []*sarama.Cluster, when string) {
	for i := 0; i < 8; i++ {
		time.Sleep(15 * time.Second)
		vs.Settle()
	}
	n := map[string]int{}
	for _, g := range before {
		n[g]++
	}
	var more []string
	for _, g := range t.Live() {
		if d := strings.SplitN(g, "/", 2)[0]; d == "ht" || d == "hx" || d == "rpctransports" {
			continue
		}
		if n[g]--; n[g] < 0 {
			more = append(more, g)
		}
	}
	if len(more) > 0 {
		t.Fail("%s: still running after two minutes: %s", when, strings.Join(more, ", "))
	}
	for _, c := range cl {
		if c.OpenClients != 0 || c.OpenConsumers != 0 {
			t.Fail("%s: %d connections to %v are still open, %d partitions consumed", when, c.OpenClients, c.Addr, c.OpenConsumers)
		}
	}
	if websocket.Live != 0 {
		t.Fail("%s: %d websocket connections are still open", when, websocket.Live)
	}
}

// p42: what was closed leaves nothing running
func p42(tier string) []*vs.Scenario {
	var out []*vs.Scenario
	sec := time.Second
	// a partition's messages before the start
	states := func(t *vs.T, cl *sarama.Cluster, topic string) {
		for _, l := range cl.Topics[topic] {
			if s := t.Choose(3); s > 0 {
				l.Append([]byte("\xff"), nil, time.Now())
				l.Append([]byte("\xff"), nil, time.Now())
				l.Trim(int64(s - 1))
			}
		}
	}
	for _, c := range []struct {
		name        string
		parts       int
		quick, deep int
	}{
		{"kafka/1", 1, 1, 2},
		{"kafka/2", 2, 1, 1},
	} {
		c := c
		out = append(out, &vs.Scenario{Name: c.name, Quick: c.quick, Deep: c.deep, Run: func(t *vs.T) {
			t.Explore(false)
			cl := fresh(t)
			cl.AddTopic("main", c.parts)
			states(t, cl, "main")
			bs := chain(root, 3, "m", false)
			outs := produce(t, "main", nil, bs...)
			before := t.Live()
			cons, err := transports.ResolveConsumer("cardinal://"+kurl, "main", []string{"main"}, nil, 0, kcfg(root))
			k := newConsumer(t, cons, err, bs)
			mode := t.Choose(5)
			t.Obs("mode %d", mode)
			if mode == 4 { // started again after a failure
				cl.Request = func(op, topic string, part int32) error {
					if op == "consume" && int(part) == c.parts-1 {
						return sarama.ErrOutOfBrokers
					}
					return nil
				}
				if err := k.Start(); err == nil {
					t.Fail("the start did not fail")
				}
				cl.Request = nil
				if t.Choose(2) == 1 {
					k.start()
				}
			}
			if mode > 0 && mode < 4 {
				t.Explore(mode == 1 || mode == 2)
				if mode == 2 {
					go func() {
						for _, o := range outs {
							appendAll(t, cl, []hx.Out{o})
						}
					}()
				}
				k.start()
				if mode == 3 {
					appendAll(t, cl, outs)
					t.Explore(false)
					if !isReady(k, 30*sec) {
						t.Fail("not ready 30s after the last message")
					}
				}
			}
			within(t, 20*sec, "closing", k.Close)
			t.Explore(false)
			left(t, before, []*sarama.Cluster{cl}, "after closing a consumer")
		}})
	}
	out = append(out, &vs.Scenario{Name: "kafka/calls", Quick: 1, Deep: 2, Run: func(t *vs.T) {
		// calls that need a connection of their own, and creations that fail
		t.Explore(false)
		cl := fresh(t)
		cl.AddTopic("main", 2)
		states(t, cl, "main")
		before := t.Live()
		fail := func(ops string) {
			cl.Request = func(op, topic string, part int32) error {
				if strings.Contains(ops, op) && (part < 1 || t.Choose(2) == 1) {
					return sarama.ErrOutOfBrokers
				}
				return nil
			}
		}
		what := ""
		switch t.Choose(4) {
		case 0:
			what = "the token of a point in time"
			fail([]string{"-", "partitions", "at"}[t.Choose(3)])
			params := []transports.BrokerParams{{URL: "cardinal://" + kurl, DefaultTopic: "main", Topics: []string{"main"}}}
			within(t, 60*sec, what, func() {
				_, err := transports.ResumptionForTimestamp(params, time.Now().Unix()*1000)
				t.Obs("%v", err)
			})
		case 1:
			what = "a producer that could not be created"
			fail("partitions")
			within(t, 60*sec, what, func() {
				if _, err := transports.NewKafkaProducer(kurl, "main", nil); err == nil {
					t.Fail("creating a producer did not fail")
				}
			})
		case 2:
			what = "a consumer that could not be created"
			var err error
			if t.Choose(2) == 0 {
				_, err = transports.ResolveConsumer(kurl, "main", []string{"main"}, []byte("main:0=x"), 0, kcfg(root))
			} else {
				cl.Down = true
				_, err = transports.ResolveConsumer(kurl, "main", []string{"main"}, nil, 0, kcfg(root))
			}
			if err == nil {
				t.Fail("creating a consumer did not fail")
			}
		case 3:
			what = "the latest block of the feed"
			p, err := transports.NewKafkaProducer(kurl, "main", nil)
			if err != nil {
				t.Fail("creating a producer: %v", err)
			}
			vs.Settle()
			before = t.Live()
			had, consumed := cl.OpenClients, cl.OpenConsumers
			fail([]string{"-", "partitions", "newest", "consume"}[t.Choose(4)])
			t.Explore(true)
			within(t, 60*sec, what, func() {
				_, err := p.LatestBlockFromFeed()
				t.Obs("%v", err)
			})
			t.Explore(false)
			cl.OpenClients -= had
			cl.OpenConsumers -= consumed
		}
		cl.Request = nil
		left(t, before, []*sarama.Cluster{cl}, what)
	}})
	for _, c := range []struct {
		name        string
		quick, deep int
	}{
		{"ws/close", 2, 3},
	} {
		c := c
		out = append(out, &vs.Scenario{Name: c.name, Quick: c.quick, Deep: c.deep, Run: func(t *vs.T) {
			t.Explore(false)
			wfresh(t)
			bs := chain(root, 3, "m", false)
			res := &resumer{t: t, chain: append([]*hx.Block{root}, bs[:1]...), threshold: 2}
			var p transports.Producer
			mode := t.Choose(6)
			up := func() {
				var err error
				if p, err = transports.NewWebsocketProducer(wurl, res); err != nil {
					t.Fail("producer: %v", err)
				}
				vs.Settle()
			}
			if mode != 1 {
				up()
			}
			before := t.Live()
			cons, err := transports.ResolveConsumer("cardinal://"+wurl, "", nil, nil, 0, kcfg(root))
			k := newConsumer(t, cons, err, bs)
			if mode == 2 {
				websocket.Refuse = func(n int) bool { return n < 2 }
			}
			if mode > 0 {
				started := make(chan error, 1)
				t.Explore(mode == 1 || mode == 3)
				go func() { started <- k.Start() }()
				switch mode {
				case 1, 2: // nobody answers
					time.Sleep(time.Duration(t.Choose(4)) * 500 * time.Millisecond)
				case 3: // while the stream begins
				case 4: // in the middle
					<-started
					if !isReady(k, 20*sec) {
						t.Fail("not ready after 20s")
					}
					t.Explore(true)
					go func() {
						for _, b := range bs[1:] {

							wadd(t, res, p, b)
						}
					}()
				case 5: // while connecting again
					<-started
					t.Explore(true)
					go websocket.Servers[0].Close()
				}
			}
			within(t, 20*sec, "closing", k.Close)
			vs.Settle()
			t.Explore(false)
			left(t, before, nil, "after closing a consumer")
			if res.open != 0 {
				t.Fail("%d streams are still served after the only consumer was closed", res.open)
			}
		}})
	}
	for _, c := range []struct {
		name        string
		quick, deep int
	}{
		{"mux", 1, 1},
	} {
		c := c
		out = append(out, &vs.Scenario{Name: c.name, Quick: c.quick, Deep: c.deep, Run: func(t *vs.T) {
			t.Explore(false)
			a, b := clusters(t, 1)
			bs := chain(root, 2, "m", false)
			before := t.Live()
			mode := t.Choose(5)
			outs := outsA(t, bs...)
			appendAll(t, a, outs)
			if mode == 0 { // the second broker cannot be reached
				b.Down = true
				if _, err := transports.ResolveMuxConsumer([]transports.BrokerParams{brokerA, brokerB}, nil, kcfg(root)); err == nil {
					t.Fail("the consumer was created without one of its brokers")
				}
				left(t, before, []*sarama.Cluster{a, b}, "after creating a consumer of several brokers failed")
				return
			}
			k := muxConsumer(t, []transports.BrokerParams{brokerA, brokerB}, "", root, bs)
			waiting := 0
			wait := func() {
				waiting++
				go func() {
					<-k.Ready()
					waiting--
				}()
			}
			wait()
			vs.Settle()
			switch mode {
			case 2: // never ready
				t.Explore(true)
				k.start()
			case 3:
				t.Explore(true)
				k.start()
				wait()
				vs.Settle()
				if !isReady(k, 20*sec) {
					t.Fail("not ready after 20s")
				}
			case 4: // one cannot be started
				b.Request = func(op, topic string, part int32) error {
					if op == "consume" {
						return errors.New("no broker")
					}
					return nil
				}
				t.Explore(true)
				k.start()
			}
			within(t, 20*sec, "closing", k.Close)
			t.Explore(false)
			left(t, before, []*sarama.Cluster{a, b}, "after closing a consumer of several brokers")
			if mode == 3 && waiting != 0 {
				t.Fail("%d of those who wait for the consumer to become ready were not told", waiting)
			}
		}})
	}
	// the core by itself
	out = append(out, &vs.Scenario{Name: "core", Quick: 2, Deep: 3, Run: func(t *vs.T) {
		t.Explore(false)
		before := t.Live()
		bs := chain(root, 2, "m", false)
		omp, err := delivery.NewOrderedMessageProcessor(kcfg(root))
		if err != nil {
			t.Fail("creating: %v", err)
		}
		ch := make(chan *delivery.ChainUpdate, 100)
		sub := omp.Subscribe(ch)
		n := t.Choose(3)
		t.Explore(true)
		for _, b := range bs[:n] {
			omp.ProcessCompleteBatch(pending(b))
		}
		within(t, 20*sec, "closing", omp.Close)
		t.Explore(false)
		if t.Choose(2) == 1 {
			sub.Unsubscribe()
		}
		if len(ch) != n {
			t.Fail("%d of %d blocks were delivered before closing", len(ch), n)
		}
		within(t, 20*sec, "closing again", omp.Close)
		left(t, before, nil, "after closing a message processor")
	}})
	return out
}
