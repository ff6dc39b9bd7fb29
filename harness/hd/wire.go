package main

import (
	"bytes"
	"errors"
	"fmt"
	"math/big"
	"sort"

	"github.com/openrelayxyz/cardinal-streams/v2/delivery"
	"github.com/openrelayxyz/cardinal-types"
	"verif.local/h/hx"
	"verif.local/vs"
)

// An encoder and decoder of the message format, written from SPEC.md and the
// Avro specification, independent of the library the code uses.

type rdr struct {
	b   []byte
	err error
}

func (r *rdr) fail(s string) {
	if r.err == nil {
		r.err = errors.New(s)
	}
	r.b = nil
}

func (r *rdr) take(n int64) []byte {
	if n < 0 || n > int64(len(r.b)) {
		r.fail("truncated")
		return nil
	}
	x := r.b[:n]
	r.b = r.b[n:]
	return x
}

func (r *rdr) long() int64 {
	var u uint64
	for i := 0; i < 10; i++ {
		x := r.take(1)
		if x == nil {
			return 0
		}
		u |= uint64(x[0]&0x7f) << (7 * i)
		if x[0] < 0x80 {
			return int64(u>>1) ^ -int64(u&1)
		}
	}
	r.fail("long of more than ten bytes")
	return 0
}

func (r *rdr) bytes() []byte { return r.take(r.long()) }

// blocks reads the items of an array or map.
func (r *rdr) blocks(item func()) {
	for r.err == nil {
		n := r.long()
		if n == 0 {
			return
		}
		if n < 0 {
			n = -n
			r.long()
		}
		for ; n > 0 && r.err == nil; n-- {
			item()
		}
	}
}

func (r *rdr) end() error {
	if r.err == nil && len(r.b) > 0 {
		return fmt.Errorf("%d bytes follow the value", len(r.b))
	}
	return r.err
}

// wrec is a record of the announcement.
type wrec struct {
	value []byte
	count int64
	del   bool
	sub   []byte
}

func (x wrec) String() string {
	s := ""
	if x.del {
		s += "delete "
	}
	if x.count != 0 {
		s += fmt.Sprintf("count %d ", x.count)
	}
	if !bytes.Equal(x.sub, make([]byte, 32)) {
		s += "sub " + hx.N(types.BytesToHash(x.sub)) + " "
	}
	if len(x.value) > 0 || s == "" {
		s += fmt.Sprintf("value %q ", x.value)
	}
	return s[:len(s)-1]
}

type wbatch struct {
	num    int64
	weight []byte
	parent []byte
	recs   map[string]wrec
}

func readBatch(b []byte) (*wbatch, error) {
	r := &rdr{b: b}
	w := &wbatch{recs: map[string]wrec{}}
	w.num, w.weight, w.parent = r.long(), r.bytes(), r.take(32)
	r.blocks(func() {
		k := string(r.bytes())
		var x wrec
		x.value, x.count = r.bytes(), r.long()
		d := r.take(1)
		if len(d) == 1 {
			if d[0] > 1 {
				r.fail("boolean is neither 0 nor 1")
			}
			x.del = d[0] == 1
		}
		x.sub = r.take(32)
		if _, ok := w.recs[k]; ok {
			r.fail("key twice in the map")
		}
		w.recs[k] = x
	})
	return w, r.end()
}

func readUpdate(b []byte) (del []string, upd map[string][]byte, err error) {
	r := &rdr{b: b}
	upd = map[string][]byte{}
	r.blocks(func() { del = append(del, string(r.bytes())) })
	r.blocks(func() {
		k := string(r.bytes())
		if _, ok := upd[k]; ok {
			r.fail("key twice in the map")
		}
		upd[k] = r.bytes()
	})
	return del, upd, r.end()
}

func readLong(b []byte) (int64, error) {
	r := &rdr{b: b}
	n := r.long()
	return n, r.end()
}

func putLong(b []byte, n int64) []byte {
	u := uint64(n<<1) ^ uint64(n>>63)
	for u >= 0x80 {
		b = append(b, byte(u)|0x80)
		u >>= 7
	}
	return append(b, byte(u))
}

func putBytes(b, x []byte) []byte { return append(putLong(b, int64(len(x))), x...) }

// putBlocks writes items in one of the forms Avro allows: 0 one block, 1 a
// block per item, 2 and 3 the same with byte sizes, 4 two blocks.
func putBlocks(b []byte, items [][]byte, style int) []byte {
	per := len(items)
	switch style {
	case 1, 3:
		per = 1
	case 4:
		per = (len(items) + 1) / 2
	}
	for i := 0; i < len(items); i += per {
		var body []byte
		n := 0
		for j := i; j < i+per && j < len(items); j++ {
			body = append(body, items[j]...)
			n++
		}
		if style == 2 || style == 3 {
			b = putLong(putLong(b, int64(-n)), int64(len(body)))
		} else {
			b = putLong(b, int64(n))
		}
		b = append(b, body...)
	}
	return append(b, 0)
}

const wireStyles = 5

func putBatch(w *wbatch, order []string, style int) []byte {
	b := putLong(nil, w.num)
	b = putBytes(b, w.weight)
	b = append(b, w.parent...)
	var items [][]byte
	for _, k := range order {
		x := w.recs[k]
		it := putBytes(nil, []byte(k))
		it = putLong(putBytes(it, x.value), x.count)
		if x.del {
			it = append(it, 1)
		} else {
			it = append(it, 0)
		}
		if x.sub == nil {
			it = append(it, make([]byte, 32)...)
		}
		items = append(items, append(it, x.sub...))
	}
	return putBlocks(b, items, style)
}

func putUpdate(del []string, upd map[string][]byte, style int) []byte {
	var ds, us [][]byte
	for _, k := range del {
		ds = append(ds, putBytes(nil, []byte(k)))
	}
	for _, k := range hx.Keys(upd) {
		us = append(us, putBytes(putBytes(nil, []byte(k)), upd[k]))
	}
	return putBlocks(putBlocks(nil, ds, style), us, style)
}

func wkey(ty byte, parts ...[]byte) []byte {
	return append([]byte{ty}, join(parts...)...)
}

var wireNums = []int64{0, 1, 63, 64, 127, 128, 8191, 8192, 1<<31 - 1, 1 << 31, 1<<32 + 5, 1 << 40, 1<<63 - 1}

func wireWeights() []*big.Int {
	one := big.NewInt(1)
	return []*big.Int{new(big.Int), one, big.NewInt(127), big.NewInt(128), big.NewInt(255), big.NewInt(256), new(big.Int).Lsh(one, 64), new(big.Int).Sub(new(big.Int).Lsh(one, 256), one)}
}

// wireCheck reads all messages of a block as another implementation would.
func wireCheck(t *vs.T, b *hx.Block, schema map[string]string, outs []hx.Out) {
	prefixOf := hx.PrefixOf(schema)
	upd, del := map[string][]byte{}, map[string]bool{}
	counts := map[string]int64{}
	var ann *wbatch
	heads := map[types.Hash]int64{}
	type part struct {
		idx int64
		del []string
		upd map[string][]byte
	}
	parts := map[types.Hash][]part{}
	for _, o := range outs {
		k, v := o.M.Key(), o.M.Value()
		if len(k) < 33 || !bytes.Equal(k[1:33], b.Hash[:]) {
			t.Fail("key %x does not name block %v", k, hx.N(b.Hash))
		}
		rest := k[33:]
		switch k[0] {
		case 0:
			if len(rest) > 0 || ann != nil {
				t.Fail("announcement %x is not the only one or has a longer key", k)
			}
			w, err := readBatch(v)
			if err != nil {
				t.Fail("announcement %x is not of the specified schema: %v", v, err)
			}
			ann = w
		case 1:
			if len(rest) != 32 {
				t.Fail("sub-batch header with key %x", k)
			}
			id := types.BytesToHash(rest)
			n, err := readLong(v)
			if err != nil || n < 0 {
				t.Fail("sub-batch header %x has no item count: %v", v, err)
			}
			if _, ok := heads[id]; ok {
				t.Fail("second header of sub-batch %v", hx.N(id))
			}
			heads[id] = n
		case 2:
			if len(rest) < 33 {
				t.Fail("sub-batch message with key %x", k)
			}
			id := types.BytesToHash(rest[:32])
			i, err := readLong(rest[32:])
			if err != nil {
				t.Fail("sub-batch message index %x: %v", rest[32:], err)
			}
			d, u, err := readUpdate(v)
			if err != nil {
				t.Fail("sub-batch message %x is not of the specified schema: %v", v, err)
			}
			parts[id] = append(parts[id], part{i, d, u})
		case 3:
			if _, ok := upd[string(rest)]; ok {
				t.Fail("update %q twice", rest)
			}
			upd[string(rest)] = v
			counts[prefixOf(string(rest))]++
		case 4:
			if len(v) > 0 {
				t.Fail("delete message with value %x", v)
			}
			if del[string(rest)] {
				t.Fail("delete %q twice", rest)
			}
			del[string(rest)] = true
			counts[prefixOf(string(rest))]++
		default:
			t.Fail("message of type %d", k[0])
		}
	}
	if ann == nil {
		t.Fail("no announcement")
	}
	if ann.num != b.Num || new(big.Int).SetBytes(ann.weight).Cmp(b.Weight) != 0 || !bytes.Equal(ann.parent, b.Parent[:]) {
		t.Fail("announcement says number %d weight %x parent %x for %v", ann.num, ann.weight, ann.parent, b)
	}
	// everything that is published once, where the format wants it
	for _, k := range hx.Keys(ann.recs) {
		x := ann.recs[k]
		n := 0
		if x.del {
			n++
			if prefixOf(k) != "" {
				t.Fail("delete %q is inline", k)
			}
			del[k] = true
		}
		if x.count != 0 {
			n++
			if counts[k] != x.count {
				t.Fail("%d messages announced for %q, %d sent", x.count, k, counts[k])
			}
			delete(counts, k)
		}
		if id := types.BytesToHash(x.sub); id != (types.Hash{}) {
			n++
			if b.Subs[k].ID != id {
				t.Fail("sub-batch %v announced for %q", hx.N(id), k)
			}
			c, ok := heads[id]
			if !ok {
				t.Fail("sub-batch %v has no header", hx.N(id))
			}
			ps := parts[id]
			if int64(len(ps)) != c {
				t.Fail("sub-batch %v announces %d items and has %d", hx.N(id), c, len(ps))
			}
			sort.Slice(ps, func(i, j int) bool { return ps[i].idx < ps[j].idx })
			gd, gu := map[string]struct{}{}, map[string][]byte{}
			for i, p := range ps {
				if p.idx != int64(i) {
					t.Fail("sub-batch %v has index %d in place %d", hx.N(id), p.idx, i)
				}
				for _, d := range p.del {
					gd[d] = struct{}{}
				}
				for k, v := range p.upd {
					if _, ok := gu[k]; ok {
						t.Fail("sub-batch %v updates %q twice", hx.N(id), k)
					}
					gu[k] = v
				}
			}
			wd := map[string]struct{}{}
			for _, d := range b.Subs[k].Del {
				wd[d] = struct{}{}
			}
			if d := hx.DiffContent(gu, gd, b.Subs[k].Upd, wd); d != "" {
				t.Fail("sub-batch %v: %v", hx.N(id), d)
			}
			delete(heads, id)
			delete(parts, id)
		}
		if len(x.value) > 0 || n == 0 {
			n++
			if prefixOf(k) != "" {
				t.Fail("update %q is inline", k)
			}
			upd[k] = x.value
		}
		if n != 1 {
			t.Fail("record %q is not exactly one of value, count, delete and sub-batch: %v", k, x)
		}
	}
	if len(counts) > 0 || len(heads) > 0 || len(parts) > 0 {
		t.Fail("messages that were not announced: %v %v %v", counts, len(heads), len(parts))
	}
	gd := map[string]struct{}{}
	for k := range del {
		gd[k] = struct{}{}
	}
	bd := b.Del
	if d := hx.DiffContent(upd, gd, b.Upd, bd); d != "" {
		t.Fail("%v", d)
	}
}

// wmsg builds a message of the hand-written encoder.
func wmsg(src string, off int64, k, v []byte) *hx.Msg { return &hx.Msg{K: k, V: v, Src: src, Off: off} }

// setPartitions enumerates assignments of n items to up to k messages.
func setPartitions(t *vs.T, n, k int) []int {
	out := make([]int, n)
	used := 0
	for i := range out {
		m := used + 1
		if m > k {
			m = k
		}
		out[i] = t.Choose(m)
		if out[i] == used {
			used++
		}
	}
	return out
}

func p35(tier string) []*vs.Scenario {
	var out []*vs.Scenario
	opts := vs.Opts{SchedOff: true}
	add := func(name string, quick, deep int, run func(t *vs.T)) {
		out = append(out, &vs.Scenario{Name: name, Quick: quick, Deep: deep, Opts: opts, Run: run})
	}
	opts.MaxSteps = 10000000
	// what producers write
	for _, sh := range shapes() {
		sh := sh
		add("encode/"+sh.name, 0, 1, func(t *vs.T) {
			b := *sh.b
			ws := wireWeights()
			b.Num, b.Weight = wireNums[t.Choose(len(wireNums))], ws[t.Choose(len(ws))]
			b.Hash = []types.Hash{hx.H("B"), {0: 0xff, 31: 0xff}, {31: 1}, {0: 1, 7: 0x80}}[t.Choose(4)]
			p := newProducer(t, sh.schema)
			old := t.MapOrder(true)
			outs := b.Publish(t, p)
			t.MapOrder(old)
			wireCheck(t, &b, sh.schema, outs)
		})
	}
	// more records than fit a block of the encoding, longer indices and counts
	add("encode/many", 0, 0, func(t *vs.T) {
		where := t.Choose(4)
		ns := []int{1, 63, 64, 65, 99, 100, 101, 127, 128, 200, 201, 300}
		if where == 3 {
			ns = append(ns, 8191, 8192, 8193, 1<<17)
		}
		n := ns[t.Choose(len(ns))]
		upd := map[string][]byte{}
		var del []string
		for i := 0; i < n && where != 3; i++ {
			upd[fmt.Sprintf("k/%05d", i)] = []byte{byte(i), byte(i >> 8)}
			del = append(del, fmt.Sprintf("d/%05d", i))
		}
		b := blk(7, "B", "A", upd, hx.D(del...), nil)
		schema := map[string]string{}
		switch where {
		case 1: // in announced messages
			schema["k/"], schema["d/"] = "k", "d"
		case 2: // in a sub-batch
			b.Upd, b.Del = nil, nil
			b.Subs = map[string]hx.Sub{"s/": sub("S", upd, del...)}
		case 3: // one big value and many of them
			b.Upd = hx.U("big", string(make([]byte, n)))
			b.Subs = map[string]hx.Sub{"s/": sub("S", hx.U("big", string(make([]byte, n))))}
		}
		wireCheck(t, b, schema, b.Publish(t, newProducer(t, schema)))
	})
	add("encode/notice", 0, 0, func(t *vs.T) {
		n := wireNums[t.Choose(len(wireNums))]
		p := newProducer(t, stdSchema)
		h := []types.Hash{hx.H("B"), {0: 0xff, 31: 0xff}, {31: 1}}[t.Choose(3)]
		m, ty := p.Reorg(n, h), byte(5)
		if t.Choose(2) == 1 {
			m, ty = p.ReorgDone(n, h), 6
		}
		if !bytes.Equal(m.Key(), wkey(ty, h[:])) {
			t.Fail("notice with key %x", m.Key())
		}
		if x, err := readLong(m.Value()); err != nil || x != n {
			t.Fail("notice for number %d says %d (%v)", n, x, err)
		}
	})
	// what consumers must understand
	add("decode/notice", 0, 0, func(t *vs.T) {
		n := wireNums[t.Choose(len(wireNums))]
		h := []types.Hash{hx.H("B"), {0: 0xff, 31: 0xff}, {31: 1}}[t.Choose(3)]
		mp := delivery.NewMessageProcessor(cfg())
		ch := make(chan map[int64]types.Hash, 4)
		mp.SubscribeReorgs(ch)
		deliver(t, mp, wmsg("x:0", 0, wkey(5, h[:]), putLong(nil, n)))
		select {
		case m := <-ch:
			if len(m) != 1 || m[n] != h {
				t.Fail("notice for number %d was taken for %v", n, m)
			}
		default:
			t.Fail("notice for number %d had no effect", n)
		}
	})
	// numbers and weights in every form
	add("decode/identity", 0, 0, func(t *vs.T) {
		n := wireNums[t.Choose(len(wireNums))]
		ws := wireWeights()
		w := ws[t.Choose(len(ws))]
		wb := append(make([]byte, []int{0, 1, 31}[t.Choose(3)]), w.Bytes()...)
		b := &hx.Block{Num: n, Hash: hx.H("B"), Parent: []types.Hash{hx.H("A"), {}, {0: 0xff}}[t.Choose(3)], Weight: w, Upd: hx.U("x", "1")}
		a := &wbatch{num: n, weight: wb, parent: b.Parent[:], recs: map[string]wrec{"x": {value: []byte("1")}}}
		mp := delivery.NewMessageProcessor(cfg())
		c := newCollector(mp)
		deliver(t, mp, wmsg("x:0", 0, wkey(0, b.Hash[:]), putBatch(a, []string{"x"}, t.Choose(wireStyles))))
		wireGot(t, c, b)
	})
	// records of every kind, in every order and form of the map, before and
	// after the other messages
	add("decode/records", 0, 1, func(t *vs.T) {
		b := blk(7, "B", "A", hx.U("foo/1", "a", "in", "v", "empty", ""), hx.D("foo/2", "gone"), map[string]hx.Sub{"state/": sub("S", hx.U("state/1", "s"), "state/2")})
		recs := map[string]wrec{"in": {value: []byte("v")}, "empty": {}, "gone": {del: true}, "foo/": {count: 2}, "state/": {sub: b.Subs["state/"].ID.Bytes()}}
		keys := hx.Keys(recs)
		var order []string
		for _, k := range hx.Perm(t, len(keys)) {
			order = append(order, keys[k])
		}
		style := t.Choose(wireStyles)
		a := &wbatch{num: b.Num, weight: b.Weight.Bytes(), parent: b.Parent[:], recs: recs}
		S := b.Subs["state/"].ID
		ms := []*hx.Msg{
			wmsg("x:0", 0, wkey(0, b.Hash[:]), putBatch(a, order, style)),
			wmsg("x:0", 1, wkey(3, b.Hash[:], []byte("foo/1")), []byte("a")),
			wmsg("x:0", 2, wkey(4, b.Hash[:], []byte("foo/2")), nil),
			wmsg("x:0", 3, wkey(1, b.Hash[:], S[:]), putLong(nil, 1)),
			wmsg("x:0", 4, wkey(2, b.Hash[:], S[:], putLong(nil, 0)), putUpdate([]string{"state/2"}, hx.U("state/1", "s"), style)),
		}
		first := t.Choose(len(ms))
		wireRun(t, b, append(append([]*hx.Msg{}, ms[first:]...), ms[:first]...))
	})
	// a sub-batch whose items are spread over messages in every way
	items := []struct {
		name string
		s    hx.Sub
	}{
		{"updates", sub("S", hx.U("state/1", "a", "state/2", "", "x", "c", "y/z", "d"))},
		{"mixed", sub("S", hx.U("state/1", "a", "state/2", "b"), "state/3", "gone")},
		{"deletes", sub("S", nil, "state/1", "state/2", "x")},
		{"both", sub("S", hx.U("k", "a", "l", "b"), "k")},
	}
	for _, it := range items {
		it := it
		add("decode/packing/"+it.name, 0, 0, func(t *vs.T) {
			b := blk(7, "B", "A", nil, nil, map[string]hx.Sub{"state/": it.s})
			keys := hx.Keys(it.s.Upd)
			nu := len(keys)
			n := nu + len(it.s.Del)
			to := setPartitions(t, n, 3)
			cnt := 0
			for _, x := range to {
				if x >= cnt {
					cnt = x + 1
				}
			}
			empty := t.Choose(3) // an item without content: none, first, last
			style := t.Choose(wireStyles)
			upd := make([]map[string][]byte, cnt)
			del := make([][]string, cnt)
			for i, x := range to {
				if i < nu {
					if upd[x] == nil {
						upd[x] = map[string][]byte{}
					}
					upd[x][keys[i]] = it.s.Upd[keys[i]]
				} else {
					del[x] = append(del[x], it.s.Del[i-nu])
				}
			}
			switch empty {
			case 1:
				upd, del = append([]map[string][]byte{nil}, upd...), append([][]string{nil}, del...)
			case 2:
				upd, del = append(upd, nil), append(del, nil)
			}
			a := &wbatch{num: b.Num, weight: b.Weight.Bytes(), parent: b.Parent[:], recs: map[string]wrec{"state/": {sub: it.s.ID.Bytes()}}}
			ms := []*hx.Msg{
				wmsg("x:0", 0, wkey(0, b.Hash[:]), putBatch(a, []string{"state/"}, style)),
				wmsg("y:0", 0, wkey(1, b.Hash[:], it.s.ID[:]), putLong(nil, int64(len(upd)))),
			}
			for i := range upd {
				ms = append(ms, wmsg("y:0", int64(i+1), wkey(2, b.Hash[:], it.s.ID[:], putLong(nil, int64(i))), putUpdate(del[i], upd[i], style)))
			}
			var seq []*hx.Msg
			for _, k := range hx.Perm(t, len(ms)) {
				seq = append(seq, ms[k])
			}
			wireRun(t, b, seq)
		})
	}
	// long sub-batches: indices and counts of one, two and three bytes
	add("decode/long", 0, 0, func(t *vs.T) {
		n := []int{0, 1, 63, 64, 65, 8191, 8192, 8193}[t.Choose(8)]
		upd := map[string][]byte{}
		s := sub("S", upd)
		b := blk(7, "B", "A", nil, nil, map[string]hx.Sub{"state/": s})
		a := &wbatch{num: b.Num, weight: b.Weight.Bytes(), parent: b.Parent[:], recs: map[string]wrec{"state/": {sub: s.ID.Bytes()}}}
		head := wmsg("y:0", 0, wkey(1, b.Hash[:], s.ID[:]), putLong(nil, int64(n)))
		ann := wmsg("x:0", 0, wkey(0, b.Hash[:]), putBatch(a, []string{"state/"}, 0))
		ms := make([]*hx.Msg, 0, n)
		for i := 0; i < n; i++ {
			k := fmt.Sprintf("state/%05d", i)
			upd[k] = []byte{byte(i)}
			ms = append(ms, wmsg("y:0", int64(i+1), wkey(2, b.Hash[:], s.ID[:], putLong(nil, int64(i))), putUpdate(nil, map[string][]byte{k: upd[k]}, 0)))
		}
		if t.Choose(2) == 1 {
			for i, j := 0, len(ms)-1; i < j; i, j = i+1, j-1 {
				ms[i], ms[j] = ms[j], ms[i]
			}
		}
		how := 0
		if n < 8000 {
			how = t.Choose(3)
		}
		switch how {
		case 0:
			ms = append([]*hx.Msg{ann, head}, ms...)
		case 1:
			ms = append([]*hx.Msg{ann}, append(ms, head)...)
		case 2:
			ms = append(append([]*hx.Msg{head}, ms...), ann)
		}
		wireRun(t, b, ms)
	})
	return out
}

func wireGot(t *vs.T, c *collector, b *hx.Block) {
	got := c.drain()
	if len(got) != 1 {
		t.Fail("%d blocks released, want 1", len(got))
	}
	vals, dels := b.Content(hx.Re(".*"), nil)
	if d := hx.Diff(got[0], b, vals, dels); d != "" {
		t.Fail("%v", d)
	}
}

// wireRun delivers the messages of a block; the last one must release it.
func wireRun(t *vs.T, b *hx.Block, ms []*hx.Msg) {
	mp := delivery.NewMessageProcessor(cfg())
	c := newCollector(mp)
	for i, m := range ms {
		deliver(t, mp, m)
		if i < len(ms)-1 && len(c.drain()) > 0 {
			t.Fail("released after %d of %d messages", i+1, len(ms))
		}
	}
	wireGot(t, c, b)
}
