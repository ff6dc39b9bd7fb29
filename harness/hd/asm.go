package main

import (
	"fmt"
	"math/big"

	"github.com/openrelayxyz/cardinal-streams/v2/delivery"
	"github.com/openrelayxyz/cardinal-types"
	"verif.local/h/hx"
	"verif.local/vs"
)

var stdSchema = map[string]string{"foo/": "foo", "bar/[^/]+/baz/": "bar", "state/": "state"}

type shape struct {
	name   string
	schema map[string]string
	b      *hx.Block
	map_   int // map order bound
}

func blk(num int64, name, parent string, upd map[string][]byte, del map[string]struct{}, subs map[string]hx.Sub) *hx.Block {
	return &hx.Block{Num: num, Hash: hx.H(name), Parent: hx.H(parent), Weight: hx.W(num * 10), Upd: upd, Del: del, Subs: subs}
}

func sub(id string, upd map[string][]byte, del ...string) hx.Sub {
	return hx.Sub{ID: hx.H(id), Del: del, Upd: upd}
}

func shapes() []shape {
	s := func(name string, schema map[string]string, upd map[string][]byte, del map[string]struct{}, subs map[string]hx.Sub) shape {
		if schema == nil {
			schema = stdSchema
		}
		return shape{name: name, schema: schema, b: blk(7, "B", "A", upd, del, subs)}
	}
	bar := "bar/"
	return []shape{
		s("header-only", nil, nil, nil, nil),
		s("unmatched", nil, hx.U("x", "1", "y/z", "2"), hx.D("gone", "q/r"), nil),
		s("one-prefix", nil, hx.U("foo/a", "1", "foo/b", "2"), hx.D("foo/c"), nil),
		s("nested-keys", nil, hx.U("foo/a/b/c", "1", "foo/a", "2", "foo/a/b", "3"), nil, nil),
		s("regex-prefixes", nil, hx.U(bar+"1/baz/x", "1", bar+"2/baz/x", "2", bar+"1/baz/y/z", "3"), hx.D(bar+"2/baz/q"), nil),
		s("two-prefixes", nil, hx.U("foo/a", "1", bar+"1/baz/x", "2", "plain", "3"), hx.D("foo/d", "plaind"), nil),
		s("update-and-delete-same-key", nil, hx.U("foo/a", "1"), hx.D("foo/a"), nil),
		s("subbatch", nil, nil, nil, map[string]hx.Sub{"state/": sub("S", hx.U("state/1", "a", "state/2", "b"), "state/3", "state/4")}),
		s("subbatch-empty", nil, hx.U("foo/a", "1"), nil, map[string]hx.Sub{"state/": sub("S", nil)}),
		s("subbatch-deletes-only", nil, nil, nil, map[string]hx.Sub{"state/": sub("S", nil, "state/1", "state/2")}),
		s("subbatch-and-prefix", nil, hx.U("foo/a", "1"), hx.D("foo/b"), map[string]hx.Sub{"state/": sub("S", hx.U("state/1", "a"), "state/2")}),
		s("two-subbatches", nil, nil, nil, map[string]hx.Sub{"state/": sub("S", hx.U("state/1", "a")), "other/": sub("R", hx.U("other/1", "b"), "other/2")}),
		s("two-subbatches-one-empty", nil, hx.U("plain", "v"), nil, map[string]hx.Sub{"state/": sub("S", nil), "other/": sub("R", hx.U("k", "b"), "d")}),
		s("exact-key-prefix", map[string]string{"state/thing": "state"}, hx.U("state/thing", "1"), nil, nil),
		s("empty-values-matched", nil, hx.U("foo/a", "", "foo/b", "x"), nil, nil),
		s("empty-value-unmatched", nil, hx.U("x", "", "y", "1"), nil, nil),
		s("empty-value-subbatch", nil, nil, nil, map[string]hx.Sub{"state/": sub("S", hx.U("state/1", "", "state/2", "b"))}),
		s("partial-component-prefix", map[string]string{"st": "state"}, hx.U("state/x", "1", "stuff", "2"), hx.D("st/y"), nil),
		s("prefix-without-slash", map[string]string{"state/thing": "state"}, hx.U("state/thing/a", "1", "state/thingy", "2"), nil, nil),
		s("absolute-paths", map[string]string{"/foo/": "foo"}, hx.U("/foo/a", "1", "/bar", "2"), hx.D("/foo/b/c"), nil),
		s("odd-characters", map[string]string{"foo/": "foo"}, hx.U("foo//a", "1", "foo/./b", "2", "foo/../c", "3"), hx.D("foo/"), nil),
		s("regex-anchored", map[string]string{"^c/[0-9]+/": "c"}, hx.U("c/12/x", "1", "c/1/x", "2", "c/z/x", "3"), nil, nil),
	}
}

// collect subscribes to completed blocks.
type collector struct {
	ch  chan *delivery.PendingBatch
	got []*delivery.PendingBatch
}

func newCollector(mp *delivery.MessageProcessor) *collector {
	c := &collector{ch: make(chan *delivery.PendingBatch, 3000)}
	mp.Subscribe(c.ch)
	return c
}

func (c *collector) drain() []*delivery.PendingBatch {
	var out []*delivery.PendingBatch
	for {
		select {
		case pb := <-c.ch:
			out = append(out, pb)
			c.got = append(c.got, pb)
		default:
			return out
		}
	}
}

func cfg(tracked ...string) *delivery.ConsumerConfig {
	if len(tracked) == 0 {
		tracked = []string{".*"}
	}
	return &delivery.ConsumerConfig{LastEmittedNum: 0, LastHash: hx.H("A"), LastWeight: hx.W(1), ReorgThreshold: 8, TrackedPrefixes: hx.Re(tracked...)}
}

// strict is cfg with a panic for every message that cannot be counted, which
// must never happen to genuine messages.
func strict() *delivery.ConsumerConfig {
	c := cfg()
	c.FailedReconstructPanic = true
	return c
}

func newProducer(t *vs.T, schema map[string]string) *delivery.Producer {
	p, err := delivery.NewProducer("default", schema)
	if err != nil {
		t.Fail("producer refused the schema: %v", err)
	}
	return p
}

// deliver hands a message to the processor; map orders are explored inside.
func deliver(t *vs.T, mp *delivery.MessageProcessor, m delivery.ResumptionMessage) {
	old := t.MapOrder(true)
	err := mp.ProcessMessage(m)
	t.MapOrder(old)
	if err != nil {
		t.Fail("message %v was refused: %v", hx.Kind(m), err)
	}
}

// p01: every delivery order of the messages of a block.
func p01(tier string) []*vs.Scenario {
	var out []*vs.Scenario
	for _, sh := range shapes() {
		sh := sh
		out = append(out, &vs.Scenario{
			Name: "orders/" + sh.name, Quick: 2, Deep: 3, Opts: vs.Opts{SchedOff: true},
			Run: func(t *vs.T) {
				p := newProducer(t, sh.schema)
				log := &hx.Log{}
				ms := log.Add(sh.b.Publish(t, p))
				vals, dels := sh.b.Content(hx.Re(".*"), nil)
				mp := delivery.NewMessageProcessor(strict())
				c := newCollector(mp)
				order := hx.Perm(t, len(ms))
				for i, k := range order {
					deliver(t, mp, ms[k])
					got := c.drain()
					last := i == len(order)-1
					if !last && len(got) > 0 {
						t.Fail("block released after %d of %d messages", i+1, len(ms))
					}
					if last {
						if len(got) != 1 {
							t.Fail("after all %d messages %d blocks were released", len(ms), len(got))
						}
						if d := hx.Diff(got[0], sh.b, vals, dels); d != "" {
							t.Fail("reassembled block differs: %v", d)
						}
					}
				}
				t.Obs("%v", order)
			},
		})
	}
	// two blocks with overlapping keys, every interleaving of two in-order streams
	// and every order of the short ones
	pairs := []struct {
		name string
		a, b *hx.Block
	}{
		{"prefix", blk(7, "B", "A", hx.U("foo/a", "1"), hx.D("foo/b"), nil), blk(8, "C", "B", hx.U("foo/a", "2"), hx.D("foo/c"), nil)},
		{"siblings-same-keys", blk(7, "B", "A", hx.U("foo/a", "1", "p", "1"), nil, nil), blk(7, "C", "A", hx.U("foo/a", "2", "foo/z", "3"), nil, nil)},
		{"subbatch", blk(7, "B", "A", nil, nil, map[string]hx.Sub{"state/": sub("S", hx.U("state/1", "a"))}), blk(8, "C", "B", nil, nil, map[string]hx.Sub{"state/": sub("T", hx.U("state/1", "b"))})},
		{"subbatch-vs-prefix", blk(7, "B", "A", nil, nil, map[string]hx.Sub{"state/": sub("S", hx.U("foo/a", "a"))}), blk(8, "C", "B", hx.U("foo/a", "1", "foo/b", "2"), nil, nil)},
	}
	for _, pr := range pairs {
		pr := pr
		out = append(out, &vs.Scenario{
			Name: "two-blocks/" + pr.name, Quick: 2, Deep: 3, Opts: vs.Opts{SchedOff: true},
			Run: func(t *vs.T) {
				p := newProducer(t, stdSchema)
				log := &hx.Log{}
				ma := log.Add(pr.a.Publish(t, p))
				mb := log.Add(pr.b.Publish(t, p))
				ms := append(append([]*hx.Msg{}, ma...), mb...)
				mp := delivery.NewMessageProcessor(strict())
				c := newCollector(mp)
				order := hx.Perm(t, len(ms))
				left := map[types.Hash]int{pr.a.Hash: len(ma), pr.b.Hash: len(mb)}
				for _, k := range order {
					deliver(t, mp, ms[k])
					b := pr.a
					if k >= len(ma) {
						b = pr.b
					}
					left[b.Hash]--
					got := c.drain()
					want := 0
					if left[b.Hash] == 0 {
						want = 1
					}
					if len(got) != want {
						t.Fail("%d blocks released, want %d", len(got), want)
					}
					if want == 1 {
						vals, dels := b.Content(hx.Re(".*"), nil)
						if d := hx.Diff(got[0], b, vals, dels); d != "" {
							t.Fail("reassembled block differs: %v", d)
						}
					}
				}
				t.Obs("%v", order)
			},
		})
	}
	// sub-batches and prefixes with more messages than fit one index byte
	for _, kind := range []string{"long-subbatch", "many-keys"} {
		kind := kind
		out = append(out, &vs.Scenario{
			Name: kind, Quick: 0, Deep: 0, Opts: vs.Opts{SchedOff: true},
			Run: func(t *vs.T) {
				upd := map[string][]byte{}
				for i := 0; i < 70; i++ {
					upd[fmt.Sprintf("foo/%02d", i)] = []byte{byte(i)}
				}
				b := blk(7, "B", "A", nil, nil, map[string]hx.Sub{"state/": sub("S", upd, "gone")})
				if kind == "many-keys" {
					b = blk(7, "B", "A", upd, hx.D("foo/x", "foo/y"), nil)
				}
				m := newMonitor(t, stdSchema, b)
				n := len(m.ms)
				rot, rev := t.Choose(n), t.Choose(2)
				for i := 0; i < n; i++ {
					k := (i + rot) % n
					if rev == 1 {
						k = (n - 1 - i + rot) % n
					}
					m.deliver(k)
				}
				m.complete()
			},
		})
	}
	// numbers, weights and parents of all sizes
	out = append(out, &vs.Scenario{
		Name: "identity", Quick: 0, Deep: 0, Opts: vs.Opts{SchedOff: true},
		Run: func(t *vs.T) {
			nums := []int64{0, 1, 63, 64, 127, 128, 255, 256, 8191, 8192, 1 << 20, 1<<31 - 1, 1 << 31, 1 << 32, 1 << 40, 1<<62 + 1}
			big1 := new(big.Int).Lsh(big.NewInt(1), 255)
			ws := []*big.Int{new(big.Int), big.NewInt(1), big.NewInt(127), big.NewInt(128), big.NewInt(256), big.NewInt(1 << 16), big.NewInt(1<<62 + 5), new(big.Int).SetUint64(1<<64 - 1), new(big.Int).Lsh(big.NewInt(3), 64), new(big.Int).Sub(big1, big.NewInt(1)), big1}
			hs := []types.Hash{hx.H("B"), {}, {0: 0xff, 31: 1}, {0: 1}, {31: 0xff}, {0: 0xff, 1: 0xff, 15: 0xff, 31: 0xff}}
			b := &hx.Block{Num: nums[t.Choose(len(nums))], Weight: ws[t.Choose(len(ws))], Hash: hs[t.Choose(len(hs))], Parent: hs[t.Choose(len(hs))], Upd: hx.U("foo/a", "1", "x", "2")}
			m := newMonitor(t, stdSchema, b)
			for _, k := range hx.Perm(t, len(m.ms)) {
				m.deliver(k)
			}
			m.complete()
		},
	})
	return out
}

// monitor delivers messages of published blocks and requires that each block
// is released exactly when its last distinct message arrives, once.
type monitor struct {
	t      *vs.T
	blocks []*hx.Block
	ms     []*hx.Msg
	of     []int // block of a message
	id     []int // distinct message
	seen   map[int]bool
	left   []int
	done   []bool
	mp     *delivery.MessageProcessor
	c      *collector
	ids    map[string]int
	log    hx.Log
}

func newMonitor(t *vs.T, schema map[string]string, blocks ...*hx.Block) *monitor {
	m := &monitor{t: t, blocks: blocks, seen: map[int]bool{}, mp: delivery.NewMessageProcessor(strict()), ids: map[string]int{}, left: make([]int, len(blocks)), done: make([]bool, len(blocks))}
	m.c = newCollector(m.mp)
	m.publish(schema)
	for i := range m.ms {
		m.left[m.of[i]]++
	}
	return m
}

// publish adds the messages of all blocks as another producer sends them.
func (m *monitor) publish(schema map[string]string) (from, to int) {
	from = len(m.ms)
	p := newProducer(m.t, schema)
	for i, b := range m.blocks {
		for _, x := range m.log.Add(b.Publish(m.t, p)) {
			k := string(x.K)
			if _, ok := m.ids[k]; !ok {
				m.ids[k] = len(m.ids)
			}
			m.ms = append(m.ms, x)
			m.of = append(m.of, i)
			m.id = append(m.id, m.ids[k])
		}
	}
	return from, len(m.ms)
}

func (m *monitor) deliver(k int) {
	t := m.t
	deliver(t, m.mp, m.ms[k].Clone())
	b := m.of[k]
	if !m.seen[m.id[k]] {
		m.seen[m.id[k]] = true
		m.left[b]--
	}
	got := m.c.drain()
	switch {
	case m.left[b] > 0 && len(got) > 0:
		t.Fail("%v released while %d distinct messages of %v are missing", hx.Names(got), m.left[b], hx.N(m.blocks[b].Hash))
	case m.left[b] == 0 && m.done[b] && len(got) > 0:
		t.Fail("%v released after the block was released already", hx.Names(got))
	case m.left[b] == 0 && !m.done[b]:
		if len(got) != 1 {
			t.Fail("all messages of %v have arrived but %d blocks were released", hx.N(m.blocks[b].Hash), len(got))
		}
		m.done[b] = true
		vals, dels := m.blocks[b].Content(hx.Re(".*"), nil)
		if d := hx.Diff(got[0], m.blocks[b], vals, dels); d != "" {
			t.Fail("reassembled block differs: %v", d)
		}
	}
}

func (m *monitor) complete() {
	for i, d := range m.done {
		if !d {
			m.t.Fail("block %v was not released", hx.N(m.blocks[i].Hash))
		}
	}
}

// p02: duplicates, rollbacks and redundant producers.
func p02(tier string) []*vs.Scenario {
	var out []*vs.Scenario
	type dup struct {
		name string
		sh   shape
		n    int
		q    int
	}
	byName := map[string]shape{}
	for _, s := range shapes() {
		byName[s.name] = s
	}
	for _, d := range []dup{
		{"header-only", byName["header-only"], 3, 1},
		{"unmatched", byName["unmatched"], 3, 1},
		{"one-prefix", byName["one-prefix"], 2, 0},
		{"nested-keys", byName["nested-keys"], 2, 0},
		{"same-key", byName["update-and-delete-same-key"], 2, 0},
		{"subbatch-deletes-only", byName["subbatch-deletes-only"], 2, 1},
		{"subbatch-empty", byName["subbatch-empty"], 2, 1},
		{"empty-values", byName["empty-values-matched"], 2, 1},
		{"empty-value-subbatch", byName["empty-value-subbatch"], 2, 0},
		{"exact-key", byName["exact-key-prefix"], 3, 1},
	} {
		d := d
		out = append(out, &vs.Scenario{
			Name: fmt.Sprintf("duplicates/%s", d.name), Quick: d.q, Deep: d.q + 1, Opts: vs.Opts{SchedOff: true},
			Run: func(t *vs.T) { dupRun(t, d.sh, d.n) },
		})
	}
	// the position of a source is set back once or twice
	streams := []struct {
		name string
		bs   []*hx.Block
	}{
		{"prefix", []*hx.Block{blk(7, "B", "A", hx.U("foo/a", "1"), hx.D("foo/b"), nil), blk(8, "C", "B", hx.U("foo/a", "2"), nil, nil)}},
		{"subbatch", []*hx.Block{blk(7, "B", "A", nil, nil, map[string]hx.Sub{"state/": sub("S", hx.U("state/1", "a"), "d")}), blk(8, "C", "B", hx.U("x", ""), nil, nil), blk(9, "D", "C", hx.U("foo/a", ""), nil, nil)}},
		{"same-key", []*hx.Block{blk(7, "B", "A", hx.U("foo/a", "1"), hx.D("foo/a"), nil), blk(7, "C", "A", nil, hx.D("foo/a", "foo/b"), nil)}},
	}
	for _, st := range streams {
		st := st
		out = append(out, &vs.Scenario{Name: "rollback/" + st.name, Quick: 0, Deep: 1, Opts: vs.Opts{SchedOff: true}, Run: func(t *vs.T) {
			m := newMonitor(t, stdSchema, st.bs...)
			n := len(m.ms)
			order := make([]int, n)
			rot := t.Choose(3) // headers first, last or in between
			for i := range order {
				order[i] = (i + rot) % n
			}
			pos := 0
			for r := 0; r < 2; r++ {
				to := pos + t.Choose(n-pos+1)
				for ; pos < to; pos++ {
					m.deliver(order[pos])
				}
				pos -= t.Choose(pos + 1)
			}
			for ; pos < n; pos++ {
				m.deliver(order[pos])
			}
			m.complete()
		}})
		// two producers publish the same blocks; every merge of the two
		out = append(out, &vs.Scenario{Name: "producers/" + st.name, Quick: 0, Deep: 1, Opts: vs.Opts{SchedOff: true}, Run: func(t *vs.T) {
			m := newMonitor(t, stdSchema, st.bs...)
			from, to := m.publish(stdSchema)
			rev := t.Choose(2)
			var pos [2]int
			for _, w := range hx.Merge(t, []int{from, to - from}) {
				k := pos[w]
				pos[w]++
				if w == 1 {
					if rev == 1 {
						k = to - from - 1 - k
					}
					k += from
				}
				m.deliver(k)
			}
			m.complete()
		}})
	}
	// after up to twice the threshold blocks, one of which stays incomplete for
	// the time being, everything from an earlier position is repeated
	out = append(out, &vs.Scenario{Name: "rollback/many", Quick: 0, Deep: 0, Opts: vs.Opts{SchedOff: true}, Run: func(t *vs.T) {
		n := 2 + t.Choose(15)
		bs := linear(blk(6, "A", "root", nil, nil, nil), n, "m")
		late := t.Choose(n)
		for i, b := range bs {
			if i%2 == 0 || i == late {
				b.Upd = hx.U("foo/a", fmt.Sprint(i))
			}
		}
		m := newMonitor(t, stdSchema, bs...)
		skip := -1
		for k := range m.ms {
			if m.of[k] == late {
				skip = k
			}
		}
		all := func(from int) {
			for k := from; k < len(m.ms); k++ {
				if k != skip {
					m.deliver(k)
				}
			}
		}
		all(0)
		all(t.Choose(len(m.ms)))
		m.deliver(skip)
		skip = -1
		all(t.Choose(len(m.ms)))
		m.complete()
	}})
	// two blocks, every message twice, all arrangements
	out = append(out, &vs.Scenario{Name: "duplicates/two-blocks", Quick: 0, Deep: 1, Opts: vs.Opts{SchedOff: true}, Run: func(t *vs.T) {
		m := newMonitor(t, stdSchema, blk(7, "B", "A", hx.U("foo/a", "1"), nil, nil), blk(7, "C", "A", nil, hx.D("foo/a"), nil))
		for _, k := range hx.MultiPerm(t, []int{2, 2, 2, 2}) {
			m.deliver(k)
		}
		m.complete()
	}})
	// at the ordered level a block is added once
	out = append(out, &vs.Scenario{Name: "chain", Quick: 0, Deep: 0, Opts: vs.Opts{SchedOff: true}, Run: func(t *vs.T) {
		root := rootBlock()
		bs := linear(root, 2, "m")
		bs[0].Upd = hx.U("foo/a", "1")
		p := newProducer(t, stdSchema)
		log := &hx.Log{}
		ms := append(log.Add(bs[0].Publish(t, p)), log.Add(bs[1].Publish(t, p))...)
		h := newOmp(t, &delivery.ConsumerConfig{LastEmittedNum: root.Num, LastHash: root.Hash, LastWeight: root.Weight, ReorgThreshold: 16, TrackedPrefixes: hx.Re(".*")}, nil)
		for _, k := range hx.MultiPerm(t, []int{2, 2, 2}) {
			h.msg(ms[k].Clone())
		}
		n := 0
		for _, cu := range h.ups {
			if len(cu.Removed()) > 0 {
				t.Fail("a block was removed")
			}
			n += len(cu.Added())
		}
		if n != 2 {
			t.Fail("two blocks were published, %d added", n)
		}
	}})
	return out
}

func dupRun(t *vs.T, sh shape, n int) {
	p := newProducer(t, sh.schema)
	log := &hx.Log{}
	ms := log.Add(sh.b.Publish(t, p))
	vals, dels := sh.b.Content(hx.Re(".*"), nil)
	mp := delivery.NewMessageProcessor(strict())
	c := newCollector(mp)
	counts := make([]int, len(ms))
	for i := range counts {
		counts[i] = n
	}
	order := hx.MultiPerm(t, counts)
	seen := map[int]bool{}
	released := false
	for _, k := range order {
		seen[k] = true
		deliver(t, mp, ms[k].Clone())
		got := c.drain()
		switch {
		case len(got) > 0 && released:
			t.Fail("block released a second time")
		case len(got) > 0 && len(seen) < len(ms):
			t.Fail("block released with only %d of %d distinct messages delivered", len(seen), len(ms))
		case len(got) == 0 && !released && len(seen) == len(ms):
			t.Fail("block not released although all its messages were delivered")
		case len(got) > 0:
			released = true
			if x := hx.Diff(got[0], sh.b, vals, dels); x != "" {
				t.Fail("reassembled block differs: %v", x)
			}
		}
	}
	t.Obs("%v", order)
}
