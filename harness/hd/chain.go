package main

import (
	"fmt"
	"math/big"

	"github.com/openrelayxyz/cardinal-streams/v2/delivery"
	"github.com/openrelayxyz/cardinal-types"
	"verif.local/h/hx"
	"verif.local/vs"
)

// chainView applies the chain updates a subscriber sees and checks that they
// link up.
type chainView struct {
	t      *vs.T
	base   types.Hash           // the block the view starts from
	chain  []types.Hash         // blocks on top of base
	num    map[types.Hash]int64 // of published blocks
	w      map[types.Hash]*big.Int
	par    map[types.Hash]types.Hash
	free   bool // no base: the first block may be anything
	n      int
	below  int // number of blocks of hist that may be reverted below base
	hist   []types.Hash
	ever   map[types.Hash]int
	mode   int
	blocks []*hx.Block
}

func newView(t *vs.T, base types.Hash, hist []types.Hash, blocks ...*hx.Block) *chainView {
	v := &chainView{t: t, base: base, hist: hist, num: map[types.Hash]int64{}, w: map[types.Hash]*big.Int{}, par: map[types.Hash]types.Hash{}, ever: map[types.Hash]int{}, blocks: blocks}
	for _, b := range blocks {
		v.num[b.Hash], v.w[b.Hash], v.par[b.Hash] = b.Num, b.Weight, b.Parent
	}
	v.chain = append(v.chain, hist...)
	return v
}

func (v *chainView) tip() types.Hash {
	if len(v.chain) > 0 {
		return v.chain[len(v.chain)-1]
	}
	return v.base
}

func names(hs []types.Hash) string {
	s := ""
	for i, h := range hs {
		if i > 0 {
			s += ","
		}
		s += hx.N(h)
	}
	return s
}

const (
	chkLink = 1 << iota
	chkHeavier
	chkConverge
)

func (v *chainView) apply(cu *delivery.ChainUpdate) {
	t := v.t
	add, rem := cu.Added(), cu.Removed()
	v.n++
	t.Obs("+%v-%v", hx.Names(add), hx.Names(rem))
	old := v.tip()
	if v.mode&chkLink != 0 {
		v.link(add, rem)
	}
	// the view as the update describes it
	if k := len(v.chain) - len(rem); k >= 0 {
		v.chain = v.chain[:k]
	} else {
		v.chain = nil
	}
	for _, pb := range add {
		if pb == nil {
			t.Fail("an update contains a nil block")
		}
		v.chain = append(v.chain, pb.Hash)
		v.ever[pb.Hash]++
	}
	if v.mode&chkHeavier != 0 && len(rem) > 0 && v.w[v.tip()] != nil && v.w[old] != nil && v.w[v.tip()].Cmp(v.w[old]) <= 0 {
		t.Fail("reorganisation from %v (weight %v) to %v (weight %v), which is not heavier", hx.N(old), v.w[old], hx.N(v.tip()), v.w[v.tip()])
	}
}

func (v *chainView) link(add, rem []*delivery.PendingBatch) {
	t := v.t
	for _, pb := range append(append([]*delivery.PendingBatch{}, rem...), add...) {
		if pb == nil {
			t.Fail("an update contains a nil block")
		}
		if p, ok := v.par[pb.Hash]; !ok || p != pb.ParentHash || v.num[pb.Hash] != pb.Number || v.w[pb.Hash].Cmp(pb.Weight) != 0 {
			t.Fail("update carries block %v whose number, parent or weight was not published", hx.N(pb.Hash))
		}
	}
	if len(add) == 0 && len(rem) == 0 {
		t.Fail("empty update")
	}
	if len(rem) > len(v.chain) {
		t.Fail("update removes %v but the chain is %v", hx.Names(rem), names(v.chain))
	}
	k := len(v.chain) - len(rem)
	for i, pb := range rem {
		if v.chain[k+i] != pb.Hash {
			t.Fail("update removes %v, which is not the end of the chain %v", hx.Names(rem), names(v.chain))
		}
	}
	for _, r := range rem {
		for _, a := range add {
			if r.Hash == a.Hash {
				t.Fail("an update both removes and adds block %v", hx.N(a.Hash))
			}
		}
	}
	chain := append([]types.Hash{}, v.chain[:k]...)
	tip := v.base
	if k > 0 {
		tip = chain[k-1]
	}
	for _, pb := range add {
		if v.free && len(chain) == 0 {
			// the first block of a stream without a start
		} else if pb.ParentHash != tip {
			t.Fail("added block %v (parent %v) does not extend %v (update +%v -%v)", hx.N(pb.Hash), hx.N(pb.ParentHash), hx.N(tip), hx.Names(add), hx.Names(rem))
		}
		for _, h := range append([]types.Hash{v.base}, chain...) {
			if h == pb.Hash {
				t.Fail("block %v is added although the chain contains it", hx.N(h))
			}
		}
		tip = pb.Hash
		chain = append(chain, tip)
	}
}

// omp is an ordered processor with its subscriptions.
type ompH struct {
	*delivery.OrderedMessageProcessor
	t    *vs.T
	ch   chan *delivery.ChainUpdate
	rch  chan map[int64]types.Hash
	ups  []*delivery.ChainUpdate
	view *chainView
}

func newOmp(t *vs.T, c *delivery.ConsumerConfig, view *chainView) *ompH {
	o, err := delivery.NewOrderedMessageProcessor(c)
	if err != nil {
		t.Fail("NewOrderedMessageProcessor: %v", err)
	}
	h := &ompH{OrderedMessageProcessor: o, t: t, ch: make(chan *delivery.ChainUpdate, 3000), rch: make(chan map[int64]types.Hash, 20), view: view}
	o.Subscribe(h.ch)
	o.SubscribeReorg(h.rch)
	vs.Settle()
	return h
}

func (h *ompH) drain() int {
	n := 0
	for {
		select {
		case cu := <-h.ch:
			n++
			h.ups = append(h.ups, cu)
			if h.view != nil {
				h.view.apply(cu)
			}
		default:
			return n
		}
	}
}

func (h *ompH) msg(m delivery.ResumptionMessage) {
	old := h.t.MapOrder(true)
	if err := h.ProcessMessage(m); err != nil {
		h.t.MapOrder(old)
		h.t.Fail("message %v was refused: %v", hx.Kind(m), err)
	}
	vs.Settle()
	h.t.MapOrder(old)
	h.drain()
}

// block delivers a block whose only message is its header.
var pcache = map[types.Hash]*hx.Msg{}

func header(t *vs.T, b *hx.Block) *hx.Msg {
	p := newProducer(t, stdSchema)
	outs := b.Publish(t, p)
	if len(outs) != 1 {
		t.Fail("a block without indexed updates produced %d messages", len(outs))
	}
	return &hx.Msg{K: outs[0].M.Key(), V: outs[0].M.Value(), Src: outs[0].Topic + ":0"}
}

// tree is a block tree on top of a root.
type tree struct {
	root   *hx.Block
	blocks []*hx.Block
}

// enumTree enumerates all labelled trees with n blocks above the given roots
// (the labels are the delivery order, so this is every tree shape with every
// delivery order) and all weight increments lo..lo+k-1 per block.
func enumTree(t *vs.T, roots []*hx.Block, n int, lo, k int64) []*hx.Block {
	parent := make([]int, n) // -1-r: root r
	set := make([]bool, n)
	for i := 0; i < n; i++ {
		var cand []int
		for r := range roots {
			cand = append(cand, -1-r)
		}
		for j := 0; j < n; j++ {
			x := j
			for x >= 0 && x != i && set[x] {
				x = parent[x]
			}
			if x != i {
				cand = append(cand, j)
			}
		}
		parent[i] = cand[t.Choose(len(cand))]
		set[i] = true
	}
	incs := make([]int64, n)
	for i := range incs {
		incs[i] = lo
		if k > 1 {
			incs[i] += int64(t.Choose(int(k)))
		}
	}
	out := make([]*hx.Block, n)
	var build func(i int) *hx.Block
	build = func(i int) *hx.Block {
		if i < 0 {
			return roots[-1-i]
		}
		if out[i] == nil {
			p := build(parent[i])
			out[i] = &hx.Block{Num: p.Num + 1, Hash: hx.H(fmt.Sprintf("%c", 'a'+i)), Parent: p.Hash, Weight: new(big.Int).Add(p.Weight, big.NewInt(incs[i]))}
		}
		return out[i]
	}
	for i := range out {
		build(i)
	}
	return out
}

func describe(bs []*hx.Block) string {
	s := ""
	for _, b := range bs {
		s += b.String() + " "
	}
	return s
}

func rootBlock() *hx.Block {
	return &hx.Block{Num: 100, Hash: hx.H("R"), Parent: hx.H("Q"), Weight: hx.W(1000)}
}

// heaviest returns the greatest weight among the blocks descending from base
// (or from anything in hist, if given).
func heaviest(base types.Hash, hist []types.Hash, w0 *big.Int, blocks []*hx.Block) *big.Int {
	conn := map[types.Hash]bool{base: true}
	for _, h := range hist {
		conn[h] = true
	}
	max := new(big.Int).Set(w0)
	for again := true; again; {
		again = false
		for _, b := range blocks {
			if conn[b.Parent] && !conn[b.Hash] {
				conn[b.Hash] = true
				again = true
				if b.Weight.Cmp(max) > 0 {
					max.Set(b.Weight)
				}
			}
		}
	}
	return max
}

type chainOpt struct {
	n       int
	lo, inc int64 // weight increments lo..lo+inc-1
	start   bool  // the start block itself is delivered first
	hist    int   // number of ancestors of the start block delivered first
	zero    bool  // the start block has weight zero
	below   bool  // blocks may fork below the start block
	mode    int
	dup     bool // one block is delivered again at the end or in between
	thr     int64
}

func chainRun(t *vs.T, o chainOpt) {
	root := rootBlock()
	if o.zero {
		root.Weight = new(big.Int)
	}
	var hist []*hx.Block // oldest first
	cur := root
	for i := 0; i < o.hist; i++ {
		p := &hx.Block{Num: cur.Num - 1, Hash: cur.Parent, Parent: hx.H(fmt.Sprintf("Q%d", i)), Weight: new(big.Int).Sub(cur.Weight, big.NewInt(1))}
		hist = append([]*hx.Block{p}, hist...)
		cur = p
	}
	roots := []*hx.Block{root}
	if o.below {
		roots = append(roots, hist...)
	}
	blocks := enumTree(t, roots, o.n, o.lo, o.inc)
	thr := o.thr
	if thr == 0 {
		thr = 16
	}
	all := append(append(append([]*hx.Block{}, hist...), root), blocks...)
	var hh []types.Hash
	for _, b := range hist[min(len(hist), 1):] { // the oldest is the deepest fork point
		hh = append(hh, b.Hash)
	}
	base := root.Hash
	if len(hist) > 0 {
		base = hist[0].Hash
		hh = append(hh, root.Hash)
	}
	view := newView(t, base, hh, all...)
	view.mode = o.mode
	c := &delivery.ConsumerConfig{LastEmittedNum: root.Num, LastHash: root.Hash, LastWeight: root.Weight, ReorgThreshold: thr, TrackedPrefixes: hx.Re(".*")}
	h := newOmp(t, c, view)
	t.Logf("tree %v", describe(blocks))
	if o.start {
		for _, b := range append(append([]*hx.Block{}, hist...), root) {
			h.msg(header(t, b))
		}
		if view.n > 0 && o.mode&chkHeavier != 0 {
			t.Fail("redelivered history produced updates")
		}
	}
	dupAt, dupOf, dupHow := -1, 0, 0
	if o.dup {
		dupAt = t.Choose(len(blocks))
		dupOf = t.Choose(dupAt + 1)
		dupHow = t.Choose(2)
	}
	for i := range blocks {
		h.msg(header(t, blocks[i]))
		if i == dupAt {
			n := view.n
			b := blocks[dupOf]
			if dupHow == 0 {
				h.msg(header(t, b))
			} else {
				h.ProcessCompleteBatch(&delivery.PendingBatch{Number: b.Num, Weight: b.Weight, ParentHash: b.Parent, Hash: b.Hash, Values: map[string][]byte{}, Deletes: map[string]struct{}{}})
				vs.Settle()
				h.drain()
			}
			if view.n != n && o.mode&chkHeavier != 0 {
				t.Fail("delivering block %v again produced an update: blocks in delivery order: %v", hx.N(b.Hash), describe(blocks))
			}
		}
	}
	if o.mode&chkConverge != 0 {
		var hs []types.Hash
		for _, b := range hist {
			hs = append(hs, b.Hash)
		}
		want := heaviest(root.Hash, hs, root.Weight, blocks)
		got := view.w[view.tip()]
		if got == nil || got.Cmp(want) != 0 {
			t.Fail("the chain ends at %v (weight %v) although a delivered chain has weight %v: blocks in delivery order: %v", hx.N(view.tip()), got, want, describe(blocks))
		}
	}
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

type named struct {
	name string
	o    chainOpt
	q, d int
}

func chainScens(mode int, list []named) []*vs.Scenario {
	var out []*vs.Scenario
	for _, o := range list {
		o := o
		o.o.mode = mode
		out = append(out, &vs.Scenario{Name: o.name, Quick: o.q, Deep: o.d, Opts: vs.Opts{SchedOff: true},
			Run: func(t *vs.T) { chainRun(t, o.o) }})
	}
	return out
}

func treeList() []named {
	return []named{
		{"start-delivered/weights/n4", chainOpt{n: 4, lo: 1, inc: 3, start: true}, 0, 0},
		{"start-delivered/n6", chainOpt{n: 6, lo: 1, inc: 1, start: true}, -1, -1},
		{"start-unseen/weights/n4", chainOpt{n: 4, lo: 1, inc: 2}, 0, 0},
		{"start-unseen/n5", chainOpt{n: 5, lo: 1, inc: 1}, 0, 0},
		{"below-start/n4", chainOpt{n: 4, lo: 1, inc: 1, start: true, hist: 2, below: true}, 0, 0},
		{"below-start/weights/n3", chainOpt{n: 3, lo: 1, inc: 3, start: true, hist: 2, below: true}, 0, 0},
		{"zero-weights/n4", chainOpt{n: 4, lo: 0, inc: 2, start: true, zero: true}, 0, 0},
		{"map-orders/n5", chainOpt{n: 5, lo: 1, inc: 1, start: true}, 1, 1},
		// thorough only
		{"start-unseen/n6", chainOpt{n: 6, lo: 1, inc: 1}, -1, 0},
		{"below-start/n5", chainOpt{n: 5, lo: 1, inc: 1, start: true, hist: 2, below: true}, -1, 0},
		{"start-delivered/weights/n5", chainOpt{n: 5, lo: 1, inc: 2, start: true}, -1, 0},
		{"map-orders/n6", chainOpt{n: 6, lo: 1, inc: 1, start: true}, -1, 1},
		{"start-delivered/n7", chainOpt{n: 7, lo: 1, inc: 1, start: true}, 0, 0},
		{"start-delivered/n8", chainOpt{n: 8, lo: 1, inc: 1, start: true}, -1, 0},
	}
}

func p06(tier string) []*vs.Scenario {
	out := chainScens(chkLink, treeList())
	out = append(out, messageLevel(chkLink)...)
	return out
}

func p07(tier string) []*vs.Scenario {
	out := chainScens(chkConverge, treeList())
	out = append(out, messageLevel(chkConverge)...)
	return out
}

func p08(tier string) []*vs.Scenario {
	out := chainScens(chkHeavier, []named{
		{"duplicates/n4", chainOpt{n: 4, lo: 1, inc: 2, start: true, dup: true}, 0, 0},
		{"duplicates/n5", chainOpt{n: 5, lo: 1, inc: 1, start: true, dup: true}, 0, 0},
		{"duplicates/zero-increments/n4", chainOpt{n: 4, lo: 0, inc: 2, start: true, dup: true}, 0, 0},
		{"duplicates/start-unseen/n4", chainOpt{n: 4, lo: 1, inc: 1, dup: true}, 0, 0},
		{"duplicates/n6", chainOpt{n: 6, lo: 1, inc: 1, start: true, dup: true}, -1, 0},
	})
	return append(out, chainScens(chkHeavier, treeList())...)
}

// messageLevel: blocks of two or three messages each, all message orders.
func messageLevel(mode int) []*vs.Scenario {
	return []*vs.Scenario{{Name: "messages/n3", Quick: 0, Deep: 1, Opts: vs.Opts{SchedOff: true}, Run: func(t *vs.T) {
		root := rootBlock()
		blocks := enumTree(t, []*hx.Block{root}, 3, 1, 1)
		p := newProducer(t, stdSchema)
		log := &hx.Log{}
		var ms []*hx.Msg
		for i, b := range blocks {
			switch i {
			case 0:
				b.Subs = map[string]hx.Sub{"state/": sub("S"+hx.N(b.Hash), nil)}
			case 1:
				b.Upd = hx.U("foo/a", hx.N(b.Hash))
			}
			ms = append(ms, log.Add(b.Publish(t, p))...)
		}
		view := newView(t, root.Hash, nil, append(blocks, root)...)
		view.mode = mode
		h := newOmp(t, &delivery.ConsumerConfig{LastEmittedNum: root.Num, LastHash: root.Hash, LastWeight: root.Weight, ReorgThreshold: 16, TrackedPrefixes: hx.Re(".*")}, view)
		h.msg(header(t, root))
		for _, k := range hx.Perm(t, len(ms)) {
			h.msg(ms[k])
		}
		if mode&chkConverge != 0 {
			if want := heaviest(root.Hash, nil, root.Weight, blocks); view.w[view.tip()].Cmp(want) != 0 {
				t.Fail("the chain ends at %v although a delivered chain has weight %v: %v", hx.N(view.tip()), want, describe(blocks))
			}
		}
		if mode&chkLink != 0 {
			for _, cu := range h.ups {
				for _, pb := range cu.Added() {
					for _, b := range blocks {
						if b.Hash == pb.Hash {
							vals, dels := b.Content(hx.Re(".*"), nil)
							if d := hx.Diff(pb, b, vals, dels); d != "" {
								t.Fail("emitted block differs: %v", d)
							}
						}
					}
				}
			}
		}
	}}}
}
