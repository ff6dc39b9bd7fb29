package main

import (
	"fmt"
	"strings"
	"time"

	"github.com/Shopify/sarama"
	"github.com/openrelayxyz/cardinal-streams/v2/delivery"
	"github.com/openrelayxyz/cardinal-streams/v2/transports"
	"verif.local/h/hx"
	"verif.local/vs"
)

// failing makes up to n requests of clients fail, in every combination.
func failing(t *vs.T, cl *sarama.Cluster, n int) *int {
	failed := new(int)
	cl.Request = func(op, topic string, part int32) error {
		if *failed < n && t.Choose(2) == 1 {
			*failed++
			t.Obs("%v %v:%v fails", op, topic, part)
			return sarama.ErrOutOfBrokers
		}
		return nil
	}
	return failed
}

// within fails if f takes longer than d.
func within(t *vs.T, d time.Duration, what string, f func()) {
	done := make(chan bool, 1)
	go func() {
		f()
		done <- true
	}()
	select {
	case <-done:
	case <-time.After(d):
		t.Fail("%s did not return within %v", what, d)
	}
}

// p41: requests to the cluster fail
func p41(tier string) []*vs.Scenario {
	var out []*vs.Scenario
	sec := time.Second
	most := 1
	if tier == "thorough" {
		most = 2
	}
	// a partition's prior state
	states := func(t *vs.T, cl *sarama.Cluster, topic string, parts int) {
		for i := 0; i < parts; i++ {
			l := cl.Topics[topic][i]
			switch s := t.Choose(3); s {
			case 1, 2: // messages that retention removed, in part or all
				for j := 0; j < 3; j++ {
					l.Append([]byte("\xff"+fmt.Sprintf("%032d", j)), nil, time.Now())
				}
				l.Trim(int64(s + 1))
			}
		}
	}
	for _, c := range []struct {
		name        string
		parts       int
		mode        string
		quick, deep int
	}{
		{name: "consumer/history/1", parts: 1, mode: "history"},
		{name: "consumer/history/2", parts: 2, mode: "history"},
		{name: "consumer/resume/1", parts: 1, mode: "resume"},
		{name: "consumer/resume/2", parts: 2, mode: "resume"},
		{name: "consumer/now", parts: 2, mode: "now"},
	} {
		c := c
		out = append(out, &vs.Scenario{Name: c.name, Quick: c.quick, Deep: c.deep, Run: func(t *vs.T) {
			t.Explore(false)
			cl := fresh(t)
			cl.AddTopic("main", c.parts)
			cl.AddTopic("state", 1)
			schema := map[string]string{"s/": "state"}
			topics := []string{"main", "state"}
			states(t, cl, "main", c.parts)
			states(t, cl, "state", 1)
			bs := chain(root, 4, "m", true)
			p, _ := delivery.NewProducer("main", schema)
			pre := t.Choose(3)
			for _, b := range bs[:pre] {
				t.Obs("%s", place(t, cl, b.Publish(t, p)))
			}
			var cons transports.Consumer
			var err error
			want := bs
			switch c.mode {
			case "history":
				cons, err = transports.NewKafkaConsumer(kurl, "main", topics, nil, 0, kcfg(root))
			case "now":
				cons, err = transports.NewKafkaConsumer(kurl, "main", topics, nil, int64(t.Choose(2)), kcfg(nil))
				want = nil
			case "resume":
				if pre == 0 {
					return
				}
				first, err1 := transports.NewKafkaConsumer(kurl, "main", topics, nil, 0, kcfg(root))
				k := newConsumer(t, first, err1, bs)
				k.start()
				k.settle(20 * sec)
				k.expect(pre, "before")
				k.Close()
				token := k.got[0].Resumption()
				want = bs[1:]
				cons, err = transports.NewKafkaConsumer(kurl, "main", topics, []byte(token), needed(cl, topics, token, want), kcfg(bs[0]))
			}
			k := newConsumer(t, cons, err, want)
			k.any = c.mode == "now"
			failed := failing(t, cl, most)
			cl.Starts = nil
			t.Explore(true)
			within(t, 20*sec, "starting a consumer, when a request fails,", func() { err = k.Start() })
			t.Explore(false)
			if err != nil {
				t.Obs("%v", err)
				if *failed == 0 {
					t.Fail("the consumer did not start: %v", err)
				}
				vs.Settle()
				time.Sleep(sec)
				if cl.OpenConsumers != 0 {
					t.Fail("%d partitions are consumed after the start failed", cl.OpenConsumers)
				}
				cl.Request, cl.Starts = nil, nil
				if err := k.Start(); err != nil {
					t.Fail("starting again after the start failed: %v", err)
				}
			}
			cl.Request = nil
			for _, s := range cl.Starts {
				at := strings.SplitN(s, "@", 2)
				var off int64
				fmt.Sscanf(at[1], "%d", &off)
				for _, topic := range topics {
					for _, l := range cl.Topics[topic] {
						if at[0] == fmt.Sprintf("%v:%v", topic, l.Part) && c.mode == "now" && off < l.End()-1 {
							t.Fail("a consumer without history reads partition %v from %d when it ends at %d (%d requests failed)", at[0], off, l.End(), *failed)
						}
					}
				}
			}
			if c.mode != "now" {
				k.settle(20 * sec)
				k.expect(pre-(len(bs)-len(want)), fmt.Sprintf("20s after starting (%d requests failed)", *failed))
			}
			if !isReady(k, 120*sec) {
				t.Fail("the consumer is not ready 120s after it started (%d requests failed)", *failed)
			}
			for _, b := range bs[pre:] {
				appendAll(t, cl, b.Publish(t, p))
			}
			k.settle(20 * sec)
			if c.mode != "now" {
				k.expect(len(want), fmt.Sprintf("20s after the last block was published (%d requests failed)", *failed))
			} else if n := len(k.got); n < len(bs)-pre || k.got[n-1].Hash != bs[len(bs)-1].Hash {
				t.Fail("%d of the %d blocks published after the start were delivered (%d requests failed)", n, len(bs)-pre, *failed)
			}
			within(t, 20*sec, "closing", k.Close)
			if cl.OpenConsumers != 0 {
				t.Fail("%d partitions are still consumed after the consumer was closed", cl.OpenConsumers)
			}
		}})
	}
	// producers
	for _, parts := range []int{1, 2} {
		parts := parts
		out = append(out, &vs.Scenario{Name: fmt.Sprintf("producer/%d", parts), Quick: 0, Deep: 0, Run: func(t *vs.T) {
			t.Explore(false)
			cl := fresh(t)
			cl.AddTopic("main", parts)
			cl.AddTopic("state", 1)
			cl.AddTopic("subs", 1)
			states(t, cl, "main", parts)
			bs := chain(root, 3, "m", true)
			pre := t.Choose(2)
			dp, _ := delivery.NewProducer("main", kschema)
			for _, b := range bs[:pre] {
				t.Obs("%s", place(t, cl, b.Publish(t, dp)))
			}
			failed := failing(t, cl, 2)
			var p transports.Producer
			var err error
			t.Explore(true)
			within(t, 20*sec, "creating a producer, when a request fails,", func() { p, err = transports.NewKafkaProducer(kurl, "main", kschema) })
			t.Explore(false)
			cl.Request = nil
			if err != nil {
				if *failed == 0 {
					t.Fail("creating a producer: %v", err)
				}
				p = newProducer(t, kschema, 20*sec)
				*failed = 0
			}
			vs.Settle()
			for i, b := range bs {
				had := total(cl)
				publish(t, p, b)
				vs.Settle()
				if m := missing(t, cl, kschema, b); m != "" {
					t.Fail("%v was not published (%d requests failed)", m, *failed)
				}
				if i < pre && *failed == 0 && total(cl) != had {
					t.Fail("block %v was published again", hx.N(b.Hash))
				}
			}
			// what others publish from now on is known
			b := chain(bs[2], 1, "x", true)[0]
			appendAll(t, cl, produce(t, "main", kschema, b))
			vs.Settle()
			time.Sleep(sec)
			had := total(cl)
			publish(t, p, b)
			vs.Settle()
			if n := total(cl) - had; n > 0 && *failed == 0 {
				t.Fail("block %v, which another producer had published, was published again", hx.N(b.Hash))
			}
			// the latest block
			*failed = 0
			failed = failing(t, cl, most)
			var n int64
			within(t, 20*sec, "LatestBlockFromFeed, when a request fails,", func() { n, err = p.LatestBlockFromFeed() })
			cl.Request = nil
			t.Obs("%v %v", n, err)
			if *failed == 0 && (err != nil || n != b.Num) {
				t.Fail("the latest block is reported as %d (error %v), it is %d", n, err, b.Num)
			}
			if err == nil && n > b.Num {
				t.Fail("the latest block is reported as %d, it is %d", n, b.Num)
			}
		}})
	}
	return out
}
