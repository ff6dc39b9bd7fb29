package main

import (
	"bytes"
	"fmt"
	"math/big"
	"sort"

	"github.com/openrelayxyz/cardinal-streams/v2/delivery"
	"github.com/openrelayxyz/cardinal-types"
	"verif.local/h/hx"
	"verif.local/vs"
)

// p03: consumers that track a subset of the prefixes.
func p03(tier string) []*vs.Scenario {
	var out []*vs.Scenario
	// every subset of this family of tracking expressions
	family := []string{"^foo/", "^bar/1/", "^state/", "^x$", "^bar/2/baz/$"}
	type sp struct {
		name string
		b    *hx.Block
	}
	specs := []sp{
		{"mixed", blk(7, "B", "A", hx.U("foo/a", "1", "bar/1/baz/k", "2", "x", "3", "y", "4"), hx.D("z"), nil)},
		{"regex-prefixes", blk(7, "B", "A", hx.U("bar/1/baz/k", "1", "bar/2/baz/k", "2"), hx.D("bar/2/baz/d", "foo/d"), nil)},
		{"subbatch", blk(7, "B", "A", hx.U("foo/a", "1"), nil, map[string]hx.Sub{"state/": sub("S", hx.U("k", "v"), "d")})},
		{"two-subbatches", blk(7, "B", "A", hx.U("x", "1"), nil, map[string]hx.Sub{"state/": sub("S", hx.U("k", "v")), "other/": sub("R", hx.U("q", "v"))})},
	}
	prefixOf := hx.PrefixOf(stdSchema)
	for _, s := range specs {
		s := s
		out = append(out, &vs.Scenario{Name: "subsets/" + s.name, Quick: 0, Deep: 1, Opts: vs.Opts{SchedOff: true}, Run: func(t *vs.T) {
			var tracked []string
			for _, f := range family {
				if t.Choose(2) == 1 {
					tracked = append(tracked, f)
				}
			}
			p := newProducer(t, stdSchema)
			log := &hx.Log{}
			ms := log.Add(s.b.Publish(t, p))
			res := hx.Re(tracked...)
			vals, dels := s.b.Content(res, prefixOf)
			c0 := cfg()
			c0.TrackedPrefixes = res
			mp := delivery.NewMessageProcessor(c0)
			c := newCollector(mp)
			// the messages this consumer needs
			need := make([]bool, len(ms))
			left := 0
			for i, m := range ms {
				need[i] = needed(m, s.b, res, prefixOf)
				if need[i] {
					left++
				}
			}
			order := hx.Perm(t, len(ms))
			released := false
			for _, k := range order {
				deliver(t, mp, ms[k])
				if need[k] {
					left--
				}
				got := c.drain()
				if left > 0 && len(got) > 0 {
					t.Fail("tracking %v: block released while %d tracked messages are missing", tracked, left)
				}
				if left == 0 && !released {
					if len(got) != 1 {
						t.Fail("tracking %v: all tracked messages delivered but %d blocks released", tracked, len(got))
					}
					released = true
					if d := hx.Diff(got[0], s.b, vals, dels); d != "" {
						t.Fail("tracking %v: reassembled block differs: %v", tracked, d)
					}
				} else if released && len(got) > 0 {
					t.Fail("tracking %v: released again", tracked)
				}
			}
			t.Obs("%v %v", tracked, order)
		}})
	}
	// consumers that do not even receive the messages of other topics
	out = append(out, &vs.Scenario{Name: "topic-subset", Quick: 0, Deep: 1, Opts: vs.Opts{SchedOff: true}, Run: func(t *vs.T) {
		b := specs[2].b
		p := newProducer(t, stdSchema)
		log := &hx.Log{}
		ms := log.Add(b.Publish(t, p))
		tr := [][]string{{"^foo/"}, {"^state/"}, {"^none"}, {".*"}}[t.Choose(4)]
		res := hx.Re(tr...)
		vals, dels := b.Content(res, prefixOf)
		c0 := cfg()
		c0.TrackedPrefixes = res
		mp := delivery.NewMessageProcessor(c0)
		c := newCollector(mp)
		var use []*hx.Msg
		for _, m := range ms {
			if needed(m, b, res, prefixOf) {
				use = append(use, m)
			}
		}
		for _, k := range hx.Perm(t, len(use)) {
			deliver(t, mp, use[k])
		}
		got := c.drain()
		if len(got) != 1 {
			t.Fail("tracking %v: %d blocks released", tr, len(got))
		}
		if d := hx.Diff(got[0], b, vals, dels); d != "" {
			t.Fail("tracking %v: reassembled block differs: %v", tr, d)
		}
	}})
	// at the ordered level: untracked content never holds up the chain
	out = append(out, &vs.Scenario{Name: "chain", Quick: 0, Deep: 0, Opts: vs.Opts{SchedOff: true}, Run: func(t *vs.T) {
		root := rootBlock()
		b1 := blk(101, "b", "R", hx.U("foo/a", "1"), nil, nil)
		b2 := blk(102, "c", "b", hx.U("bar/1/baz/x", "2"), nil, nil)
		b1.Weight, b2.Weight = hx.W(1001), hx.W(1002)
		p := newProducer(t, stdSchema)
		log := &hx.Log{}
		ms := append(log.Add(b1.Publish(t, p)), log.Add(b2.Publish(t, p))...)
		tr := [][]string{{"^foo/"}, {"^bar/"}, {"^zzz"}}[t.Choose(3)]
		res := hx.Re(tr...)
		h := newOmp(t, &delivery.ConsumerConfig{LastEmittedNum: 100, LastHash: root.Hash, LastWeight: root.Weight, ReorgThreshold: 8, TrackedPrefixes: res}, newView(t, root.Hash, nil, root, b1, b2))
		for _, k := range hx.Perm(t, len(ms)) {
			h.msg(ms[k])
		}
		if h.view.tip() != b2.Hash {
			t.Fail("tracking %v: chain ends at %v", tr, hx.N(h.view.tip()))
		}
		for _, cu := range h.ups {
			for _, pb := range cu.Added() {
				b := b1
				if pb.Hash == b2.Hash {
					b = b2
				}
				vals, dels := b.Content(res, prefixOf)
				if d := hx.Diff(pb, b, vals, dels); d != "" {
					t.Fail("tracking %v: block differs: %v", tr, d)
				}
			}
		}
	}})
	return out
}

func needed(m *hx.Msg, b *hx.Block, tracked interface{}, prefixOf func(string) string) bool {
	res := tracked.([]*regexpT)
	match := func(s string) bool {
		for _, r := range res {
			if r.MatchString(s) {
				return true
			}
		}
		return false
	}
	switch m.K[0] {
	case 0:
		return true
	case 1, 2:
		id := types.BytesToHash(m.K[33:65])
		for k, s := range b.Subs {
			if s.ID == id {
				return match(k)
			}
		}
		return false
	default:
		return match(prefixOf(string(m.K[33:])))
	}
}

// reference routing of a block, from the documentation of the producer
type ref struct {
	topic map[string][]string // topic -> "kind key=value" of the expected messages, sorted
	recs  map[string]string   // header records
}

func refBlock(b *hx.Block, schema map[string]string, def string) *ref {
	r := &ref{topic: map[string][]string{}, recs: map[string]string{}}
	prefixOf := hx.PrefixOf(schema)
	counts := map[string]int{}
	put := func(topic, s string) { r.topic[topic] = append(r.topic[topic], s) }
	for k, v := range b.Upd {
		if p := prefixOf(k); p != "" {
			counts[p]++
			put(topicOf(schema, k, def), fmt.Sprintf("3 %v %q=%q", hx.N(b.Hash), k, v))
		} else {
			r.recs[k] = fmt.Sprintf("value %q", v)
		}
	}
	for k := range b.Del {
		if p := prefixOf(k); p != "" {
			counts[p]++
			put(topicOf(schema, k, def), fmt.Sprintf("4 %v %q=%q", hx.N(b.Hash), k, ""))
		} else {
			r.recs[k] = "delete"
		}
	}
	for k, s := range b.Subs {
		r.recs[k] = "sub " + hx.N(s.ID)
	}
	for p, c := range counts {
		r.recs[p] = fmt.Sprintf("count %d", c)
	}
	for t := range r.topic {
		sort.Strings(r.topic[t])
	}
	return r
}

func topicOf(schema map[string]string, key, def string) string {
	for s, topic := range schema {
		if hx.PrefixOf(map[string]string{s: topic})(key) != "" {
			return topic
		}
	}
	return def
}

// checkBlockMessages compares the messages of AddBlock with the reference.
func checkBlockMessages(t *vs.T, b *hx.Block, schema map[string]string, def string, ms map[string][]delivery.Message) {
	r := refBlock(b, schema, def)
	got := map[string][]string{}
	headers := 0
	for _, topic := range hx.Keys(ms) {
		for i, m := range ms[topic] {
			k := m.Key()
			if len(k) < 33 || types.BytesToHash(k[1:33]) != b.Hash {
				t.Fail("message for another block: %x", k)
			}
			if k[0] == 0 {
				headers++
				if topic != def || i != len(ms[topic])-1 {
					t.Fail("the block announcement is message %d of %d on topic %v", i+1, len(ms[topic]), topic)
				}
				checkHeader(t, b, r, m)
				continue
			}
			if topic == "" {
				t.Fail("message without topic")
			}
			got[topic] = append(got[topic], fmt.Sprintf("%d %v %q=%q", k[0], hx.N(b.Hash), string(k[33:]), m.Value()))
		}
	}
	if headers != 1 {
		t.Fail("%d announcements for one block", headers)
	}
	for _, topic := range hx.Keys(got) {
		sort.Strings(got[topic])
		if fmt.Sprint(got[topic]) != fmt.Sprint(r.topic[topic]) {
			t.Fail("topic %v carries %v, want %v", topic, got[topic], r.topic[topic])
		}
	}
	for _, topic := range hx.Keys(r.topic) {
		if _, ok := got[topic]; !ok {
			t.Fail("nothing sent on topic %v, want %v", topic, r.topic[topic])
		}
	}
}

func checkHeader(t *vs.T, b *hx.Block, r *ref, m delivery.Message) {
	d, err := delivery.UnmarshalBatch(m.Value())
	if err != nil {
		t.Fail("announcement does not decode: %v", err)
	}
	if d.Number != b.Num || d.ParentHash != b.Parent || new(big.Int).SetBytes(d.Weight).Cmp(b.Weight) != 0 {
		t.Fail("announcement says number %v parent %v weight %x for %v", d.Number, hx.N(d.ParentHash), d.Weight, b)
	}
	for _, k := range hx.Keys(r.recs) {
		x, ok := d.Updates[k]
		if !ok {
			t.Fail("announcement lacks %q (%v)", k, r.recs[k])
		}
		s := ""
		switch {
		case x.Delete && x.Count == 0 && x.Subbatch == (types.Hash{}) && len(x.Value) == 0:
			s = "delete"
		case x.Count != 0 && !x.Delete && x.Subbatch == (types.Hash{}) && len(x.Value) == 0:
			s = fmt.Sprintf("count %d", x.Count)
		case x.Subbatch != (types.Hash{}) && x.Count == 0 && !x.Delete && len(x.Value) == 0:
			s = "sub " + hx.N(x.Subbatch)
		default:
			s = fmt.Sprintf("value %q", x.Value)
			if x.Delete || x.Count != 0 || x.Subbatch != (types.Hash{}) {
				s = "mixed"
			}
		}
		if s != r.recs[k] {
			t.Fail("announcement has %q: %v, want %v", k, s, r.recs[k])
		}
	}
	for _, k := range hx.Keys(d.Updates) {
		if _, ok := r.recs[k]; !ok {
			t.Fail("announcement has an extra record %q", k)
		}
	}
}

// checkSubMessages compares the messages of SendBatch with the content.
func checkSubMessages(t *vs.T, block types.Hash, s hx.Sub, topic string, ms map[string][]delivery.Message) {
	if len(ms) != 1 || len(ms[topic]) == 0 {
		t.Fail("sub-batch sent on %v, want only %v", hx.Keys(ms), topic)
	}
	list := ms[topic]
	n := len(list) - 1
	head := list[0]
	if !bytes.Equal(head.Key(), delivery.SubBatchHeaderType.GetKey(block.Bytes(), s.ID.Bytes())) {
		t.Fail("sub-batch does not start with its header: %x", head.Key())
	}
	if !bytes.Equal(head.Value(), delivery.AvroInt(n)) {
		t.Fail("sub-batch header announces %x, %d messages follow", head.Value(), n)
	}
	for i := 0; i < n; i++ {
		if !bytes.Equal(list[i+1].Key(), delivery.SubBatchMsgType.GetKey(block.Bytes(), s.ID.Bytes(), delivery.AvroInt(i))) {
			t.Fail("sub-batch message %d has key %x", i, list[i+1].Key())
		}
	}
}

// p04: what the producer sends.
func p04(tier string) []*vs.Scenario {
	var out []*vs.Scenario
	schema := map[string]string{"foo/": "foo", "bar/[^/]+/baz/": "bar", "foobar": "bar", "^state/": "state"}
	out = append(out, &vs.Scenario{Name: "routing", Quick: 1, Deep: 2, Opts: vs.Opts{SchedOff: true}, Run: func(t *vs.T) {
		ukeys := []string{"foo/a", "foo/b/c", "bar/1/baz/x", "foobar", "plain", "xfoo/a"}
		dkeys := []string{"foo/d", "bar/1/baz/y", "bar/2/baz/y", "gone"}
		b := &hx.Block{Num: 9, Hash: hx.H("B"), Parent: hx.H("A"), Weight: hx.W(300), Upd: map[string][]byte{}, Del: map[string]struct{}{}}
		for i, k := range ukeys {
			if t.Choose(2) == 1 {
				b.Upd[k] = []byte(fmt.Sprint("v", i))
			}
		}
		for _, k := range dkeys {
			if t.Choose(2) == 1 {
				b.Del[k] = struct{}{}
			}
		}
		p := newProducer(t, schema)
		t.MapOrder(true)
		ms, err := p.AddBlock(b.Num, b.Hash, b.Parent, b.Weight, b.Upd, b.Del, nil)
		t.MapOrder(false)
		if err != nil {
			t.Fail("refused: %v", err)
		}
		checkBlockMessages(t, b, schema, "default", ms)
		t.Obs("%v %v", hx.Keys(b.Upd), hx.Keys(b.Del))
	}})
	out = append(out, &vs.Scenario{Name: "subbatches", Quick: 1, Deep: 2, Opts: vs.Opts{SchedOff: true}, Run: func(t *vs.T) {
		b := &hx.Block{Num: 9, Hash: hx.H("B"), Parent: hx.H("A"), Weight: hx.W(300), Subs: map[string]hx.Sub{}}
		for i, k := range []string{"state/x", "other/", "bar/1/baz/"} {
			if len(b.Subs) == 2 {
				break
			}
			if t.Choose(2) == 1 {
				b.Subs[k] = hx.Sub{ID: hx.H(fmt.Sprintf("S%d", i)), Upd: map[string][]byte{}}
			}
		}
		p, q := newProducer(t, schema), newProducer(t, schema)
		t.MapOrder(true)
		ms, err := p.AddBlock(b.Num, b.Hash, b.Parent, b.Weight, nil, nil, b.BatchIDs())
		t.MapOrder(false)
		if err != nil {
			t.Fail("refused: %v", err)
		}
		checkBlockMessages(t, b, schema, "default", ms)
		if _, err := q.AddBlock(b.Num, b.Hash, b.Parent, b.Weight, nil, nil, b.BatchIDs()); err != nil {
			t.Fail("refused: %v", err)
		}
		names := hx.Keys(b.Subs)
		for _, i := range hx.Perm(t, len(names)) {
			k := names[i]
			s := b.Subs[k]
			nu, nd := t.Choose(4), t.Choose(3)
			for j := 0; j < nu; j++ {
				s.Upd[fmt.Sprintf("u%d", j)] = []byte{byte(j)}
			}
			for j := 0; j < nd; j++ {
				s.Del = append(s.Del, fmt.Sprintf("d%d", j))
			}
			t.MapOrder(true)
			sm, err := p.SendBatch(s.ID, s.Del, s.Upd)
			t.MapOrder(false)
			if err != nil {
				t.Fail("sub-batch %v refused: %v", k, err)
			}
			checkSubMessages(t, b.Hash, s, topicOf(schema, k, "default"), sm)
			// another producer given the same content sends the same messages
			sm2, err := q.SendBatch(s.ID, s.Del, s.Upd)
			if err != nil {
				t.Fail("sub-batch %v refused: %v", k, err)
			}
			sameMessages(t, sm, sm2)
		}
		t.Obs("%v", names)
	}})
	// redundant producers: each message may come from either
	for _, sh := range shapes() {
		sh := sh
		switch sh.name {
		case "one-prefix", "two-prefixes", "subbatch", "subbatch-and-prefix", "two-subbatches", "regex-prefixes", "empty-values-matched":
		default:
			continue
		}
		out = append(out, &vs.Scenario{Name: "interchangeable/" + sh.name, Quick: 1, Deep: 2, Opts: vs.Opts{SchedOff: true}, Run: func(t *vs.T) {
			p, q := newProducer(t, sh.schema), newProducer(t, sh.schema)
			t.MapOrder(true)
			a := sh.b.Publish(t, p)
			t.MapOrder(false)
			b := sh.b.Publish(t, q)
			if len(a) != len(b) {
				t.Fail("%d messages from one producer, %d from the other", len(a), len(b))
			}
			byKey := map[string]hx.Out{}
			for _, o := range b {
				byKey[o.Topic+"|"+string(o.M.Key())] = o
			}
			var mix []hx.Out
			for _, o := range a {
				x, ok := byKey[o.Topic+"|"+string(o.M.Key())]
				if !ok {
					t.Fail("only one of the producers sends %v on %v", hx.Kind(o.M), o.Topic)
				}
				if t.Choose(2) == 1 {
					mix = append(mix, x)
				} else {
					mix = append(mix, o)
				}
			}
			log := &hx.Log{}
			ms := log.Add(mix)
			mp := delivery.NewMessageProcessor(cfg())
			c := newCollector(mp)
			start, back := t.Choose(len(ms)), t.Choose(2)
			for i := range ms {
				k := (start + i) % len(ms)
				if back == 1 {
					k = len(ms) - 1 - k
				}
				if err := mp.ProcessMessage(ms[k]); err != nil {
					t.Fail("refused: %v", err)
				}
			}
			got := c.drain()
			if len(got) != 1 {
				t.Fail("%d blocks released", len(got))
			}
			vals, dels := sh.b.Content(hx.Re(".*"), nil)
			if d := hx.Diff(got[0], sh.b, vals, dels); d != "" {
				t.Fail("block assembled from two producers differs: %v", d)
			}
		}})
	}
	// extreme header fields
	out = append(out, &vs.Scenario{Name: "header-fields", Quick: 0, Deep: 0, Opts: vs.Opts{SchedOff: true}, Run: func(t *vs.T) {
		ws := []*big.Int{hx.W(0), hx.W(1), hx.W(255), hx.W(256), new(big.Int).Lsh(hx.W(1), 64), new(big.Int).Sub(new(big.Int).Lsh(hx.W(1), 256), hx.W(1))}
		ns := []int64{0, 1, 63, 64, 8191, 1 << 31, 1<<63 - 1}
		b := &hx.Block{Num: ns[t.Choose(len(ns))], Hash: hx.H("B"), Parent: [2]types.Hash{hx.H("A"), {}}[t.Choose(2)], Weight: ws[t.Choose(len(ws))], Upd: hx.U("foo/a", "1")}
		p := newProducer(t, schema)
		ms, err := p.AddBlock(b.Num, b.Hash, b.Parent, b.Weight, b.Upd, nil, nil)
		if err != nil {
			t.Fail("refused: %v", err)
		}
		checkBlockMessages(t, b, schema, "default", ms)
		mp := delivery.NewMessageProcessor(cfg())
		c := newCollector(mp)
		log := &hx.Log{}
		for _, m := range log.Add(hx.Flatten(ms)) {
			deliver(t, mp, m)
		}
		got := c.drain()
		if len(got) != 1 {
			t.Fail("%d blocks released", len(got))
		}
		if d := hx.Diff(got[0], b, b.Upd, nil); d != "" {
			t.Fail("block differs: %v", d)
		}
	}})
	return out
}

func sameMessages(t *vs.T, a, b map[string][]delivery.Message) {
	x, y := hx.Flatten(a), hx.Flatten(b)
	if len(x) != len(y) {
		t.Fail("producers send %d and %d messages", len(x), len(y))
	}
	for i := range x {
		if x[i].Topic != y[i].Topic || !bytes.Equal(x[i].M.Key(), y[i].M.Key()) {
			t.Fail("producers differ at message %d: %v and %v", i, hx.Kind(x[i].M), hx.Kind(y[i].M))
		}
		if !bytes.Equal(x[i].M.Value(), y[i].M.Value()) && x[i].M.Key()[0] == 2 {
			t.Fail("producers send different values for %v", hx.Kind(x[i].M))
		}
	}
}

// p05: refused input leaves no trace; operation sequences against a model.
func p05(tier string) []*vs.Scenario {
	depth := 4
	if tier == "thorough" {
		depth = 5
	}
	schema := map[string]string{"foo/": "foo", "state/": "state"}
	S, V, Z := hx.H("S"), hx.H("V"), hx.H("Z")
	type add struct {
		name string
		upd  map[string][]byte
		del  map[string]struct{}
		subs map[string]types.Hash
		err  bool
	}
	adds := []add{
		{"S,V", nil, nil, map[string]types.Hash{"state/": S, "o/": V}, false},
		{"S", hx.U("foo/a", "1"), nil, map[string]types.Hash{"state/": S}, false},
		{"none", hx.U("foo/a", "1"), nil, nil, false},
		{"zero id", nil, nil, map[string]types.Hash{"a/": S, "state/": V, "z/": {}}, true},
		{"key is also an update", hx.U("o/", "1"), nil, map[string]types.Hash{"a/": V, "o/": S}, true},
		{"key is also a delete", nil, hx.D("o/"), map[string]types.Hash{"a/": V, "o/": S}, true},
		{"key is also an indexed prefix", hx.U("foo/a", "1"), nil, map[string]types.Hash{"foo/": S, "a/": V}, true},
	}
	var out []*vs.Scenario
	out = append(out, &vs.Scenario{Name: "sequences", Quick: 1, Deep: 1, Opts: vs.Opts{SchedOff: true, MaxSteps: 1000}, Run: func(t *vs.T) {
		p := newProducer(t, schema)
		type reg struct {
			block types.Hash
			topic string
		}
		model := map[types.Hash]reg{}
		for step := 0; step < depth; step++ {
			block := hx.H(fmt.Sprintf("B%d", step))
			op := t.Choose(len(adds) + 3)
			if op < len(adds) {
				a := adds[op]
				t.MapOrder(true)
				ms, err := p.AddBlock(int64(step), block, hx.H("P"), hx.W(1), a.upd, a.del, a.subs)
				t.MapOrder(false)
				t.Obs("add %v:%v", a.name, err != nil)
				if (err != nil) != a.err {
					t.Fail("adding a block with %v: error %v", a.name, err)
				}
				if err != nil {
					if len(ms) != 0 {
						t.Fail("refused block produced messages")
					}
					continue
				}
				for _, k := range sortedKeys(a.subs) {
					model[a.subs[k]] = reg{block, topicOf(schema, k, "default")}
				}
				continue
			}
			id := []types.Hash{S, V, Z}[op-len(adds)]
			del, upd := []string{"d"}, hx.U("u", "1")
			switch t.Choose(4) {
			case 1:
				upd = nil
			case 2:
				del = nil
			case 3:
				del, upd = nil, nil
			}
			ms, err := p.SendBatch(id, del, upd)
			r, ok := model[id]
			t.Obs("send %v:%v", hx.N(id), err != nil)
			if ok != (err == nil) {
				t.Fail("sending sub-batch %v (announced and not sent yet: %v): error %v", hx.N(id), ok, err)
			}
			if err != nil {
				if len(ms) != 0 {
					t.Fail("refused sub-batch produced messages")
				}
				continue
			}
			delete(model, id)
			checkSubMessages(t, r.block, hx.Sub{ID: id}, r.topic, ms)
		}
	}})
	out = append(out, &vs.Scenario{Name: "schemas", Quick: 1, Deep: 2, Opts: vs.Opts{SchedOff: true}, Run: func(t *vs.T) {
		keys := []string{"a/", "a/b", "ab", "b/", "a", "[", "^b/"}
		schema := map[string]string{}
		for _, k := range keys {
			if t.Choose(2) == 1 {
				schema[k] = "t" + k
			}
		}
		t.MapOrder(true)
		p, err := delivery.NewProducer("default", schema)
		t.MapOrder(false)
		bad := false
		for _, x := range hx.Keys(schema) {
			if x == "[" {
				bad = true
			}
			for _, y := range hx.Keys(schema) {
				if x != y && len(x) >= len(y) && x[:len(y)] == y {
					bad = true
				}
			}
		}
		if bad != (err != nil) {
			t.Fail("schema %v: error %v", hx.Keys(schema), err)
		}
		if err == nil && p == nil {
			t.Fail("no producer")
		}
		t.Obs("%v", hx.Keys(schema))
	}})
	return out
}

func sortedKeys(m map[string]types.Hash) []string { return hx.Keys(m) }
