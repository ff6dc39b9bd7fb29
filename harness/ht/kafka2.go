package main

import (
	"fmt"
	"strings"
	"time"

	"github.com/Shopify/sarama"
	"github.com/openrelayxyz/cardinal-streams/v2/delivery"
	"github.com/openrelayxyz/cardinal-streams/v2/transports"
	"github.com/openrelayxyz/cardinal-types"
	"verif.local/h/hx"
	"verif.local/vs"
)

// p17: readiness
func p17(tier string) []*vs.Scenario {
	var out []*vs.Scenario
	sec := time.Second
	type cas struct {
		name        string
		parts       int
		blocks      int
		rich        bool
		waiters     int
		quick, deep int
		live        time.Duration // blocks added at this interval
		liveN       int
		hash        bool
		delay       bool // fetches take their time, on one or all partitions
	}
	for _, c := range []cas{
		{name: "slow/1", parts: 1, blocks: 3, rich: true, waiters: 2, quick: 1, deep: 1, hash: true, delay: true},
		{name: "slow/2", parts: 2, blocks: 3, waiters: 1, quick: 0, deep: 0, hash: true, delay: true},
		{name: "slow/2rich", parts: 2, blocks: 1, rich: true, waiters: 1, quick: 0, deep: 0, hash: true, delay: true},
		{name: "slow/3", parts: 3, blocks: 2, waiters: 1, quick: 0, deep: 1, hash: true, delay: true},
		{name: "slow/live", parts: 2, blocks: 2, waiters: 1, quick: 0, deep: 1, live: 7 * sec / 2, liveN: 2, hash: true, delay: true},
		{name: "caughtup/1", parts: 1, blocks: 3, rich: true, waiters: 1, quick: 1, deep: 2, hash: true},
		{name: "caughtup/2", parts: 2, blocks: 3, waiters: 2, quick: 1, deep: 1, hash: true},
		{name: "caughtup/3", parts: 3, blocks: 2, waiters: 3, quick: 1, deep: 1, hash: true},
		{name: "empty", parts: 2, blocks: 0, rich: true, waiters: 3, quick: 1, deep: 2, hash: true},
		{name: "fresh", parts: 2, blocks: 2, waiters: 2, quick: 1, deep: 1},
		{name: "slow-live", parts: 1, blocks: 2, waiters: 2, quick: 1, deep: 1, live: 7 * sec, liveN: 4, hash: true},
		{name: "fast-live", parts: 1, blocks: 2, waiters: 2, quick: 1, deep: 1, live: sec / 2, liveN: 10, hash: true},
	} {
		c := c
		out = append(out, &vs.Scenario{Name: c.name, Quick: c.quick, Deep: c.deep, Run: func(t *vs.T) {
			t.Explore(false)
			cl := fresh(t)
			bs := chain(root, c.blocks+c.liveN, "m", c.rich)
			schema := map[string]string{}
			cl.AddTopic("main", c.parts)
			topics := []string{"main"}
			if c.rich {
				schema["s/"] = "state"
				cl.AddTopic("state", c.parts)
				topics = append(topics, "state")
			}
			cl.FetchMax = t.Choose(2)
			if c.delay {
				d := []time.Duration{sec / 3, 3 * sec / 2, 4 * sec, 7 * sec}[t.Choose(4)]
				var logs []*sarama.Log
				for _, n := range topics {
					logs = append(logs, cl.Topics[n]...)
				}
				slow := t.Choose(len(logs) + 1)
				cl.FetchDelay = func(topic string, part int32) time.Duration {
					if slow < len(logs) && (logs[slow].Topic != topic || logs[slow].Part != part) {
						return 0
					}
					return d
				}
				t.Obs("%v %v", d, slow)
			}
			p, _ := delivery.NewProducer("main", schema)
			for i, b := range bs {
				if i < c.blocks {
					t.Obs("%s", place(t, cl, b.Publish(t, p)))
				}
			}
			var from *hx.Block
			if c.hash {
				from = root
			}
			cons, err := transports.NewKafkaConsumer(kurl, "main", topics, nil, 0, kcfg(from))
			k := newConsumer(t, cons, err, bs)
			k.any = !c.hash
			released := make([]bool, 2*c.waiters+1)
			wait := func(i int) {
				<-k.Ready()
				released[i] = true
				k.drain()
				if c.hash && len(k.got) < c.blocks {
					t.Fail("a consumer reported that it is ready when %d of the %d blocks in the log at the start had been delivered", len(k.got), c.blocks)
				}
			}
			t.Explore(true)
			for i := 0; i < c.waiters; i++ {
				i := i
				go wait(i)
			}
			k.start()
			for i := 0; i < c.waiters; i++ {
				i := i
				go wait(c.waiters + i)
			}
			if c.liveN > 0 {
				go func() {
					for _, b := range bs[c.blocks:] {
						time.Sleep(c.live)
						appendAll(t, cl, b.Publish(t, p))
					}
				}()
			}
			vs.Settle()
			t.Explore(false)
			time.Sleep(120 * sec)
			vs.Settle()
			go wait(2 * c.waiters)
			vs.Settle()
			n := 0
			for _, r := range released {
				if r {
					n++
				}
			}
			if n < len(released) {
				t.Fail("%d of %d waiters for the consumer to be ready were not released within 120s", len(released)-n, len(released))
			}
			k.settle(0)
			if c.hash {
				k.expect(len(bs), "when ready")
			}
			k.Close()
		}})
	}
	// every position in the log: ready without further messages
	out = append(out, &vs.Scenario{Name: "positions", Quick: 0, Deep: 1, Run: func(t *vs.T) {
		t.Explore(false)
		cl := fresh(t)
		parts := 1 + t.Choose(2)
		n := int64([]int{0, 1, 4}[t.Choose(3)])
		base := int64([]int{0, 3}[t.Choose(2)])
		var tokens []string
		for _, l := range cl.AddTopic("main", parts) {
			for i := int64(0); i < base+n; i++ {
				l.Append([]byte{byte(delivery.PingType), byte(i)}, nil, time.Now())
			}
			l.Trim(base)
			if pos := base + int64(t.Choose(int(n)+2)) - 1; pos >= base {
				tokens = append(tokens, fmt.Sprintf("main:%d=%d", l.Part, pos))
			}
		}
		rollback := []int64{0, 1, 2, 100}[t.Choose(4)]
		cfg := kcfg(root)
		if t.Choose(2) == 1 {
			cfg = kcfg(nil)
		}
		token := strings.Join(tokens, ";")
		t.Obs("%v+%v %v -%v", base, n, token, rollback)
		cons, err := transports.NewKafkaConsumer(kurl, "main", []string{"main"}, []byte(token), rollback, cfg)
		k := newConsumer(t, cons, err, nil)
		t.Explore(true)
		k.start()
		vs.Settle()
		t.Explore(false)
		if !isReady(k, 60*sec) {
			t.Fail("the consumer is not ready within a minute with %d messages from %d on in the log, token %q and rollback %d", n, base, token, rollback)
		}
		k.Close()
	}})
	// a long log on one partition does not have to wait for the others
	out = append(out, &vs.Scenario{Name: "uneven", Quick: 0, Deep: 0, Opts: vs.Opts{MaxSteps: 2000000}, Run: func(t *vs.T) {
		t.Explore(false)
		cl := fresh(t)
		few := []int{1, 300}[t.Choose(2)]
		for i, l := range cl.AddTopic("main", 2) {
			for j := 0; j < []int{few, 3600}[i]; j++ {
				l.Append([]byte{byte(delivery.PingType), byte(j)}, nil, time.Now())
			}
		}
		t.Obs("%v", few)
		cons, err := transports.NewKafkaConsumer(kurl, "main", []string{"main"}, nil, 0, kcfg(root))
		k := newConsumer(t, cons, err, nil)
		k.start()
		if !isReady(k, 60*sec) {
			t.Fail("the consumer is not ready within a minute with %d messages on one partition and 3600 on the other", few)
		}
		k.Close()
	}})
	return out
}

// p18: where consumers start
func p18(tier string) []*vs.Scenario {
	var out []*vs.Scenario
	sec := time.Second
	// every token, rollback, log extent
	out = append(out, &vs.Scenario{Name: "offsets", Quick: 0, Deep: 0, Run: func(t *vs.T) {
		t.Explore(false)
		cl := fresh(t)
		names := []string{"main", "other"}
		var logs []*sarama.Log
		parts := 1 + t.Choose(2)
		for _, n := range names {
			logs = append(logs, cl.AddTopic(n, parts)...)
		}
		n := int64([]int{0, 1, 4}[t.Choose(3)])
		base := int64([]int{0, 3}[t.Choose(2)])
		for _, l := range logs {
			for i := int64(0); i < base+n; i++ {
				l.Append([]byte{byte(delivery.PingType), byte(i)}, nil, time.Now())
			}
			l.Trim(base)
		}
		end := base + n
		tok := int64(t.Choose(int(end)+3)) - 2 // -2: none
		rollback := []int64{0, 1, 2, 100}[t.Choose(4)]
		zero := t.Choose(2) == 0
		which := t.Choose(len(logs)) // the partition named in the token
		cfg := kcfg(root)
		if zero {
			cfg = kcfg(nil)
		}
		name := fmt.Sprintf("%v:%v", logs[which].Topic, logs[which].Part)
		var token []byte
		if tok > -2 {
			token = []byte(fmt.Sprintf("%v=%d", name, tok))
		}
		cons, err := transports.NewKafkaConsumer(kurl, "main", names, token, rollback, cfg)
		if err != nil {
			t.Fail("creating the consumer: %v", err)
		}
		err = cons.Start()
		t.Obs("%v-%v tok %v rb %v zero %v: %v %v", base, end, tok, rollback, zero, cl.Starts, err != nil)
		what := fmt.Sprintf("with offsets %v..%v in the log, token %q, rollback %v, starting hash given: %v", base, end, token, rollback, !zero)
		if err != nil {
			if tok >= base && tok <= end || tok == -2 {
				t.Fail("the consumer did not start (%v) %s", err, what)
			}
			return
		}
		if len(cl.Starts) != len(logs) {
			t.Fail("%d partition consumers were started for %d partitions", len(cl.Starts), len(logs))
		}
		for _, start := range cl.Starts {
			at := strings.SplitN(start, "@", 2)
			tok := tok
			if at[0] != name {
				tok = -2
			}
			var off int64
			fmt.Sscanf(at[1], "%d", &off)
			lo, hi := base, end
			switch {
			case tok >= base && tok <= end:
				if lo = tok - rollback; lo < base {
					lo = base
				}
				hi = lo
			case tok > end: // beyond the log
			case tok >= 0: // before the log: as much as possible
				hi = base
			case tok == -1 || zero: // nothing, or nothing since the timestamp of the token
				lo = end - 1
				if tok == -1 && !zero || lo < base {
					lo = base
				}
			default:
				hi = base
			}
			if off < lo || off > hi {
				t.Fail("partition %v was consumed from offset %v instead of %v..%v, %s", at[0], off, lo, hi, what)
			}
		}
	}})
	// a restart that needs the rollback, on any partition of any topic: the
	// parts of the blocks after the restart precede the token by up to the rollback
	out = append(out, &vs.Scenario{Name: "rollback", Quick: 0, Deep: 0, Run: func(t *vs.T) {
		t.Explore(false)
		cl := fresh(t)
		rich := t.Choose(2) == 0
		bs := chain(root, 3, "m", rich)
		schema := map[string]string{}
		names := []string{"main"}
		parts := 2
		if rich {
			schema["s/"] = "state"
			names = append(names, "state")
			parts = 1
		}
		cl.AddTopic("main", parts)
		cl.AddTopic("state", parts)
		// messages older than the blocks, which retention removes, perhaps
		// together with those of the blocks that are not needed any more
		old := t.Choose(3)
		for _, n := range names {
			for i := 0; old > 0 && i < 3; i++ {
				for _, l := range cl.Topics[n] {
					l.Append([]byte{byte(delivery.PingType), byte(i)}, nil, time.Now())
				}
			}
		}
		var outs []hx.Out
		owner := map[string]int{} // the block a message belongs to
		pr, _ := delivery.NewProducer("main", schema)
		for i, b := range bs {
			for _, o := range b.Publish(t, pr) {
				owner[string(o.M.Key())] = i
				outs = append(outs, o)
			}
		}
		at := place(t, cl, outs)
		tokens := []string{}
		rollback := int64(1 + t.Choose(2))
		missing := 0
		from := t.Choose(3) // the block to start after
		for _, n := range names {
			for _, l := range cl.Topics[n] {
				// the position is up to the rollback after the first message of
				// the blocks to come
				need := l.End()
				for _, r := range l.Recs {
					if owner[string(r.Key)] >= from && r.Offset < need {
						need = r.Offset
					}
				}
				pos := need + rollback
				if pos > l.End() {
					pos = l.End()
				}
				if pos > need {
					missing++
				}
				tokens = append(tokens, fmt.Sprintf("%v:%v=%d", n, l.Part, pos))
				if old == 1 {
					l.Trim(3)
				} else if old == 2 {
					l.Trim(need)
				}
			}
		}
		if old > 0 {
			rollback += 2 // reaches back further than the log
		}
		first := root
		if from > 0 {
			first = bs[from-1]
		}
		token := strings.Join(tokens, ";")
		t.Obs("%s %s %d", at, token, missing)
		cons, err := transports.NewKafkaConsumer(kurl, "main", names, []byte(token), rollback, kcfg(first))
		k := newConsumer(t, cons, err, bs[from:])
		k.start()
		k.settle(20 * sec)
		k.expect(len(bs)-from, fmt.Sprintf("20s after starting with token %q, rollback %d and block %v", token, rollback, hx.N(first.Hash)))
	}})
	// start at a point in time
	for _, parts := range []int{1, 2} {
		for _, zero := range []bool{true, false} {
			parts, zero := parts, zero
			if zero && parts > 1 {
				// Without a start hash the first blocks are delivered as they
				// come; those overtaken on another partition are not.
				continue
			}
			out = append(out, &vs.Scenario{Name: fmt.Sprintf("timestamp/%d/%v", parts, !zero), Quick: 1, Deep: 1, Run: func(t *vs.T) {
				t.Explore(false)
				cl := fresh(t)
				cl.AddTopic("main", parts)
				bs := chain(root, 4, "m", false)
				t0 := time.Now().UnixNano() / int64(time.Millisecond)
				outs := produce(t, "main", nil, bs...)
				for i, o := range outs[:3] {
					lg := cl.Topics["main"][t.Choose(parts)]
					lg.Append(o.M.Key(), o.M.Value(), time.Unix(0, (t0+int64(i)*1000)*int64(time.Millisecond)))
				}
				since := t.Choose(4)
				rollback := []int64{0, 1, 10}[t.Choose(3)]
				token, err := transports.ResumptionForTimestamp([]transports.BrokerParams{{URL: []string{"", "cardinal://"}[t.Choose(3-parts)] + kurl, DefaultTopic: "main", Topics: []string{"main"}}}, t0+int64(since)*1000-500)
				if err != nil {
					t.Fail("no resumption for a timestamp: %v", err)
				}
				cfg := kcfg(nil)
				first := root
				if since > 0 {
					first = bs[since-1]
				}
				if !zero {
					cfg = kcfg(first)
				}
				t.Obs("%v %v %s", since, rollback, token)
				cons, err := transports.NewKafkaConsumer(kurl, "main", []string{"main"}, token, rollback, cfg)
				k := newConsumer(t, cons, err, nil)
				t.Explore(true)
				k.start()
				vs.Settle()
				t.Explore(false)
				time.Sleep(10 * sec)
				lg := cl.Topics["main"][t.Choose(parts)]
				lg.Append(outs[3].M.Key(), outs[3].M.Value(), time.Now())
				time.Sleep(20 * sec)
				vs.Settle()
				seen := map[types.Hash]int{}
				last := int64(0)
				for len(k.ch) > 0 {
					for _, pb := range (<-k.ch).Added() {
						seen[pb.Hash]++
						if last != 0 && pb.Number != last+1 {
							t.Fail("block %v follows block %v (token %q)", pb.Number, last, token)
						}
						last = pb.Number
					}
				}
				for i, b := range bs[since:] {
					if seen[b.Hash] != 1 {
						t.Fail("block %v, published after the timestamp the consumer was started from, was delivered %d times (token %q, rollback %v)", hx.N(bs[since+i].Hash), seen[b.Hash], token, rollback)
					}
				}
			}})
		}
	}
	return out
}

// p19: closing
func p19(tier string) []*vs.Scenario {
	var out []*vs.Scenario
	sec := time.Second
	type cas struct {
		name        string
		parts, msgs int
		quick, deep int
		start       bool
		trim        bool
		twice       bool
	}
	for _, c := range []cas{
		{name: "empty", parts: 2, msgs: 0, quick: 2, deep: 2, start: true},
		{name: "one", parts: 1, msgs: 2, quick: 1, deep: 2, start: true},
		{name: "two", parts: 2, msgs: 3, quick: 1, deep: 2, start: true},
		{name: "not-started", parts: 1, msgs: 1, quick: 2, deep: 2},
		{name: "twice", parts: 1, msgs: 1, quick: 1, deep: 2, start: true, twice: true},
		{name: "retention", parts: 2, msgs: 3, quick: 1, deep: 2, start: true, trim: true},
	} {
		c := c
		out = append(out, &vs.Scenario{Name: c.name, Quick: c.quick, Deep: c.deep, Run: func(t *vs.T) {
			t.Explore(false)
			cl := fresh(t)
			cl.AddTopic("main", c.parts)
			bs := chain(root, c.msgs+2, "m", false)
			outs := produce(t, "main", nil, bs...)
			if c.msgs > 0 {
				t.Obs("%s", place(t, cl, outs[:c.msgs]))
			}
			if c.trim { // the rest of a partition is removed while it is being consumed
				cl.FetchMax = 1
			}
			cons, err := transports.NewKafkaConsumer(kurl, "main", []string{"main"}, nil, 0, kcfg(root))
			k := newConsumer(t, cons, err, bs)
			when := time.Duration(0)
			if c.start {
				when = []time.Duration{0, sec / 2, 3 * sec, 10 * sec}[t.Choose(4)]
			}
			t.Explore(true)
			if c.start {
				k.start()
			}
			if c.trim {
				go func() {
					for _, l := range cl.Topics["main"] {
						l.Trim(int64(len(l.Recs)))
					}
				}()
			}
			if c.msgs > 0 && !c.trim {
				go appendAll(t, cl, outs[c.msgs:c.msgs+1])
			}
			time.Sleep(when)
			closed := 0
			closer := func() {
				k.Close()
				closed++
			}
			n := 1
			go closer()
			if c.twice {
				n++
				go closer()
			}
			vs.Settle()
			t.Explore(false)
			time.Sleep(30 * sec)
			vs.Settle()
			if closed < n {
				t.Fail("closing a consumer %v after it was started did not return within 30s", when)
			}
			if cl.OpenConsumers != 0 {
				t.Fail("%d partitions are still consumed after the consumer was closed", cl.OpenConsumers)
			}
			k.drain()
			had := len(k.got)
			appendAll(t, cl, outs[c.msgs+1:])
			time.Sleep(30 * sec)
			vs.Settle()
			k.drain()
			if len(k.got) != had {
				t.Fail("a block published after the consumer was closed was delivered")
			}
			t.Obs("%v", had)
		}})
	}
	// a start that fails leaves nothing behind and can be repeated
	for _, parts := range []int{1, 2} {
		parts := parts
		out = append(out, &vs.Scenario{Name: fmt.Sprintf("failed-start/%d", parts), Quick: 3 - parts, Deep: 2, Run: func(t *vs.T) {
			t.Explore(false)
			cl := fresh(t)
			cl.AddTopic("main", parts)
			bs := chain(root, 2, "m", false)
			outs := produce(t, "main", nil, bs...)
			t.Obs("%s", place(t, cl, outs))
			cons, err := transports.NewKafkaConsumer(kurl, "main", []string{"main", "late"}, nil, 0, kcfg(root))
			k := newConsumer(t, cons, err, bs)
			t.Explore(true)
			if k.Start() == nil {
				t.Fail("a consumer started although a topic does not exist")
			}
			vs.Settle()
			if cl.OpenConsumers != 0 {
				t.Fail("%d partitions are consumed after the start failed", cl.OpenConsumers)
			}
			if t.Choose(2) == 0 {
				cl.AddTopic("late", 1)
				k.start()
				t.Explore(false)
				k.settle(20 * sec)
				k.expect(2, "20s after starting again")
			}
			closed := false
			go func() {
				k.Close()
				closed = true
			}()
			vs.Settle()
			t.Explore(false)
			time.Sleep(30 * sec)
			vs.Settle()
			if !closed {
				t.Fail("closing a consumer whose start had failed did not return within 30s")
			}
			if cl.OpenConsumers != 0 {
				t.Fail("%d partitions are still consumed after the consumer was closed", cl.OpenConsumers)
			}
		}})
	}
	return out
}
