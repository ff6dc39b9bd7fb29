package main

import (
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"

	"github.com/openrelayxyz/cardinal-streams/v2/delivery"
	"github.com/openrelayxyz/cardinal-types"
	"verif.local/h/hx"
	"verif.local/vs"
)

// p09: whitelist.
func p09(tier string) []*vs.Scenario {
	var out []*vs.Scenario
	add := func(name string, n int, lo, k int64, nwl, q, d int) {
		out = append(out, &vs.Scenario{Name: name, Quick: q, Deep: d, Opts: vs.Opts{SchedOff: true}, Run: func(t *vs.T) {
			root := rootBlock()
			blocks := enumTree(t, []*hx.Block{root}, n, lo, k)
			wl := map[uint64]types.Hash{}
			for i := 0; i < nwl; i++ {
				c := t.Choose(n + 1)
				num := uint64(root.Num + 1 + int64(i))
				if c == n {
					wl[num] = hx.H("foreign")
				} else {
					if blocks[c].Num != int64(num) {
						if c > 0 {
							return // same as another choice
						}
						continue // no entry for this number
					}
					wl[num] = blocks[c].Hash
				}
			}
			view := newView(t, root.Hash, nil, append(blocks, root)...)
			h := newOmp(t, &delivery.ConsumerConfig{LastEmittedNum: root.Num, LastHash: root.Hash, LastWeight: root.Weight, ReorgThreshold: 16, TrackedPrefixes: hx.Re(".*"), Whitelist: wl}, view)
			if t.Choose(2) == 0 {
				h.msg(header(t, root))
			}
			byHash := map[types.Hash]*hx.Block{}
			for _, b := range blocks {
				byHash[b.Hash] = b
			}
			excluded := func(b *hx.Block) bool {
				for x := b; x != nil; x = byHash[x.Parent] {
					if w, ok := wl[uint64(x.Num)]; ok && w != x.Hash {
						return true
					}
				}
				return false
			}
			for i := range blocks {
				h.msg(header(t, blocks[i]))
				for _, cu := range h.ups {
					for _, pb := range cu.Added() {
						if b := byHash[pb.Hash]; b != nil && excluded(b) {
							t.Fail("block %v was emitted although the whitelist %v excludes it or an ancestor: %v", hx.N(pb.Hash), wlNames(wl), describe(blocks))
						}
					}
				}
			}
			var ok []*hx.Block
			for _, b := range blocks {
				if !excluded(b) {
					ok = append(ok, b)
				}
			}
			want := heaviest(root.Hash, nil, root.Weight, ok)
			if got := view.w[view.tip()]; got == nil || got.Cmp(want) != 0 {
				t.Fail("whitelist %v: the chain ends at %v (weight %v), the heaviest allowed chain has weight %v: %v", wlNames(wl), hx.N(view.tip()), got, want, describe(blocks))
			}
			t.Obs("%v", wlNames(wl))
		}})
	}
	// without a start block: the first block may be an excluded one
	out = append(out, &vs.Scenario{Name: "fresh/n5", Quick: 0, Deep: 0, Opts: vs.Opts{SchedOff: true}, Run: func(t *vs.T) { p09Fresh(t, 5) }})
	out = append(out, &vs.Scenario{Name: "fresh/n6", Quick: -1, Deep: 0, Opts: vs.Opts{SchedOff: true}, Run: func(t *vs.T) { p09Fresh(t, 6) }})
	add("n4/one", 4, 1, 2, 1, 0, 0)
	add("n5/one", 5, 1, 1, 1, 0, 0)
	add("n4/two", 4, 1, 1, 2, 0, 0)
	add("n5/two", 5, 1, 1, 2, 0, 0)
	add("n6/two", 6, 1, 1, 2, -1, 0)
	add("n5/three", 5, 1, 1, 3, -1, 0)
	return out
}

// p09Fresh delivers a tree parents first to a consumer without a start block
// and with one whitelist entry.
func p09Fresh(t *vs.T, n int) {
	root := rootBlock()
	var blocks []*hx.Block
	for i := 0; i < n; i++ {
		p := root
		if i > 0 {
			if c := t.Choose(i + 1); c < i {
				p = blocks[c]
			}
		}
		blocks = append(blocks, &hx.Block{Num: p.Num + 1, Hash: hx.H(fmt.Sprintf("%c", 'a'+i)), Parent: p.Hash, Weight: new(big.Int).Add(p.Weight, big.NewInt(1))})
	}
	wl := map[uint64]types.Hash{}
	if c := t.Choose(n + 1); c < n {
		wl[uint64(blocks[c].Num)] = blocks[c].Hash
	} else {
		wl[uint64(root.Num+1+int64(t.Choose(2)))] = hx.H("foreign")
	}
	view := newView(t, types.Hash{}, nil, blocks...)
	view.free = true
	h := newOmp(t, &delivery.ConsumerConfig{ReorgThreshold: 16, TrackedPrefixes: hx.Re(".*"), Whitelist: wl}, view)
	ex := map[types.Hash]bool{}
	for _, b := range blocks {
		if w, ok := wl[uint64(b.Num)]; (ok && w != b.Hash) || ex[b.Parent] {
			ex[b.Hash] = true
		}
		h.msg(header(t, b))
		for _, cu := range h.ups {
			for _, pb := range cu.Added() {
				if ex[pb.Hash] {
					t.Fail("block %v was emitted although the whitelist %v excludes it or an ancestor: %v", hx.N(pb.Hash), wlNames(wl), describe(blocks))
				}
			}
		}
	}
	t.Obs("%v", wlNames(wl))
}

func wlNames(m map[uint64]types.Hash) string {
	var s []string
	for k, v := range m {
		s = append(s, fmt.Sprintf("%d:%v", k, hx.N(v)))
	}
	sort.Strings(s)
	return strings.Join(s, " ")
}

func linear(from *hx.Block, n int, prefix string) []*hx.Block {
	var out []*hx.Block
	p := from
	for i := 0; i < n; i++ {
		b := &hx.Block{Num: p.Num + 1, Hash: hx.H(fmt.Sprintf("%v%d", prefix, p.Num+1-rootBlock().Num)), Parent: p.Hash, Weight: new(big.Int).Add(p.Weight, big.NewInt(1))}
		out = append(out, b)
		p = b
	}
	return out
}

// p10: reorganisations within the threshold keep working on a long chain, and
// old blocks are let go.
func p10(tier string) []*vs.Scenario {
	var out []*vs.Scenario
	deepest := 3
	if tier == "thorough" {
		deepest = 4
	}
	for thr := 1; thr <= deepest; thr++ {
		thr := thr
		out = append(out, &vs.Scenario{Name: fmt.Sprintf("reorg/threshold%d", thr), Quick: 0, Deep: 0, Opts: vs.Opts{SchedOff: true, MaxSteps: 100000}, Run: func(t *vs.T) {
			root := rootBlock()
			l := 1 + t.Choose(3*thr+2) // length of the chain before the reorganisation
			depth := 1 + t.Choose(thr)
			if depth > l {
				return
			}
			main := linear(root, l, "m")
			fork := root
			if l > depth {
				fork = main[l-depth-1]
			}
			side := linear(fork, depth+1, "s")
			// afterwards the old branch wins again, if that is within the threshold
			back := linear(main[l-1], 2, "n")
			all := append(append(append([]*hx.Block{root}, main...), side...), back...)
			view := newView(t, root.Hash, nil, all...)
			view.mode = chkLink | chkHeavier
			h := newOmp(t, &delivery.ConsumerConfig{LastEmittedNum: root.Num, LastHash: root.Hash, LastWeight: root.Weight, ReorgThreshold: int64(thr), TrackedPrefixes: hx.Re(".*")}, view)
			if t.Choose(2) == 0 {
				h.msg(header(t, root))
			}
			for _, b := range main {
				h.msg(header(t, b))
			}
			if view.tip() != main[l-1].Hash {
				t.Fail("threshold %d: a chain of %d blocks ends at %v", thr, l, hx.N(view.tip()))
			}
			for _, i := range hx.Perm(t, len(side)) {
				h.msg(header(t, side[i]))
			}
			if view.tip() != side[depth].Hash {
				t.Fail("threshold %d: after %d blocks a heavier branch replacing the last %d was not taken (end %v)", thr, l, depth, hx.N(view.tip()))
			}
			if depth+1 <= thr {
				for _, i := range hx.Perm(t, len(back)) {
					h.msg(header(t, back[i]))
				}
				if view.tip() != back[1].Hash {
					t.Fail("threshold %d: the branch that was left %d blocks ago became heavier but was not taken (end %v)", thr, depth, hx.N(view.tip()))
				}
			}
			t.Obs("l%d d%d", l, depth)
		}})
		out = append(out, &vs.Scenario{Name: fmt.Sprintf("release/threshold%d", thr), Quick: 0, Deep: 0, Opts: vs.Opts{SchedOff: true, MaxSteps: 100000}, Run: func(t *vs.T) {
			root := rootBlock()
			const l = 14
			main := linear(root, 4*thr+4, "m")
			// a side block, an incomplete block, at some height
			at := 1 + t.Choose(3)
			side := linear(main[at-1], 1, "s")
			p := newProducer(t, stdSchema)
			inc := &hx.Block{Num: main[at].Num, Hash: hx.H("inc"), Parent: main[at-1].Hash, Weight: main[at].Weight, Upd: hx.U("foo/a", "1")}
			outs := inc.Publish(t, p)
			view := newView(t, root.Hash, nil, append(append([]*hx.Block{root, inc}, main...), side...)...)
			view.mode = chkLink
			h := newOmp(t, &delivery.ConsumerConfig{LastEmittedNum: root.Num, LastHash: root.Hash, LastWeight: root.Weight, ReorgThreshold: int64(thr), TrackedPrefixes: hx.Re(".*")}, view)
			h.msg(header(t, root))
			for i, b := range main {
				h.msg(header(t, b))
				if i == at {
					for _, s := range side {
						h.msg(header(t, s))
					}
					h.msg(&hx.Msg{K: outs[0].M.Key(), V: outs[0].M.Value(), Src: "x"})
				}
				// whatever lies within the threshold is still known
				for j := i; j >= 0 && i-j < thr; j-- {
					if h.WhyNotReady(main[j].Hash) == "not found" {
						t.Fail("threshold %d: block %d is no longer held %d blocks later", thr, j, i-j)
					}
				}
			}
			gone := []types.Hash{main[0].Hash, side[0].Hash, inc.Hash, root.Hash}
			for i := 0; i < len(main)-2*thr-1; i++ {
				gone = append(gone, main[i].Hash)
			}
			for _, g := range gone {
				if s := h.WhyNotReady(g); s != "not found" {
					t.Fail("threshold %d: block %v is still held (%v) when the chain is %d blocks further", thr, hx.N(g), s, len(main)-at)
				}
			}
			// they are not held again when their messages are repeated
			n := len(h.ups)
			var again []*hx.Msg
			for _, o := range outs {
				again = append(again, &hx.Msg{K: o.M.Key(), V: o.M.Value(), Src: "x"})
			}
			again = append(again, header(t, main[0]), header(t, side[0]), header(t, main[at]))
			for k := 0; k < 2; k++ {
				for _, i := range hx.Perm(t, len(again)) {
					h.msg(again[i])
					for _, g := range gone {
						if s := h.WhyNotReady(g); s != "not found" {
							t.Fail("threshold %d: block %v is held again (%v) after messages of it were repeated", thr, hx.N(g), s)
						}
					}
				}
				if k == 0 && t.Choose(2) == 1 {
					break
				}
				again = again[:len(outs)]
			}
			if len(h.ups) != n {
				t.Fail("threshold %d: a repeated old block led to an update", thr)
			}
		}})
		// blocks of a branch whose beginning never arrives: they come in any
		// order at any heights of the chain
		out = append(out, &vs.Scenario{Name: fmt.Sprintf("orphans/threshold%d", thr), Quick: 0, Deep: 0, Opts: vs.Opts{SchedOff: true, MaxSteps: 100000}, Run: func(t *vs.T) {
			root := rootBlock()
			main := linear(root, 6*thr+8, "m")
			branch := linear(root, 4, "s") // the first one is not delivered
			branch = append(branch, linear(branch[2], 1, "t")...)
			n := 1 + t.Choose(4)
			order := hx.Perm(t, 4)[:n]
			when := make([]int, n)
			last := 0
			for i := range when {
				last += t.Choose(3)
				when[i] = last
			}
			view := newView(t, root.Hash, nil, append(append([]*hx.Block{root}, main...), branch...)...)
			view.mode = chkLink | chkHeavier
			h := newOmp(t, &delivery.ConsumerConfig{LastEmittedNum: root.Num, LastHash: root.Hash, LastWeight: root.Weight, ReorgThreshold: int64(thr), TrackedPrefixes: hx.Re(".*")}, view)
			h.msg(header(t, root))
			for i, b := range main {
				h.msg(header(t, b))
				for k := range order {
					if when[k] == i {
						h.msg(header(t, branch[1+order[k]]))
					}
				}
			}
			h.msg(header(t, main[len(main)-1]))
			if view.tip() != main[len(main)-1].Hash {
				t.Fail("the chain ends at %v", hx.N(view.tip()))
			}
			for _, k := range order {
				b := branch[1+k]
				if s := h.WhyNotReady(b.Hash); s != "not found" {
					t.Fail("threshold %d: block %v (number %d) of a branch without a beginning is still held (%v) when the chain has reached %d", thr, hx.N(b.Hash), b.Num, s, main[len(main)-1].Num)
				}
			}
		}})
	}
	return out
}

// p11: where a consumer starts.
func p11(tier string) []*vs.Scenario {
	var out []*vs.Scenario
	// resuming: history up to and including the last block is redelivered in
	// any order, mixed with new blocks
	resume := func(name string, nh, n int, q, d int) {
		out = append(out, &vs.Scenario{Name: name, Quick: q, Deep: d, Opts: vs.Opts{SchedOff: true}, Run: func(t *vs.T) {
			root := rootBlock()
			var old []*hx.Block
			cur := root
			old = append(old, root)
			for i := 0; i < nh; i++ {
				p := &hx.Block{Num: cur.Num - 1, Hash: cur.Parent, Parent: hx.H(fmt.Sprintf("Q%d", i)), Weight: new(big.Int).Sub(cur.Weight, big.NewInt(1))}
				old = append(old, p)
				cur = p
			}
			blocks := enumTree(t, []*hx.Block{root}, n, 1, 1)
			view := newView(t, root.Hash, nil, append(append([]*hx.Block{}, old...), blocks...)...)
			view.mode = chkLink
			h := newOmp(t, &delivery.ConsumerConfig{LastEmittedNum: root.Num, LastHash: root.Hash, LastWeight: root.Weight, ReorgThreshold: 16, TrackedPrefixes: hx.Re(".*")}, view)
			// the tree enumeration orders the new blocks; the old ones are merged in
			for k, w := range hx.MultiPerm(t, append(ones(len(old)), len(blocks))) {
				_ = k
				if w < len(old) {
					h.msg(header(t, old[w]))
				} else {
					h.msg(header(t, blocks[0]))
					blocks = blocks[1:]
				}
			}
			for _, cu := range h.ups {
				for _, pb := range cu.Added() {
					for _, o := range old {
						if pb.Hash == o.Hash {
							t.Fail("block %v, at or before the start block, was emitted again", hx.N(o.Hash))
						}
					}
				}
			}
			var all []*hx.Block
			for _, b := range view.blocks {
				if b.Num > root.Num {
					all = append(all, b)
				}
			}
			if want := heaviest(root.Hash, nil, root.Weight, all); view.w[view.tip()].Cmp(want) != 0 {
				t.Fail("resumed at R, the chain ends at %v (weight %v), a delivered chain has weight %v: %v", hx.N(view.tip()), view.w[view.tip()], want, describe(all))
			}
		}})
	}
	resume("resume/h1n3", 1, 3, 0, 0)
	resume("resume/h2n2", 2, 2, 0, 0)
	resume("resume/h0n4", 0, 4, 0, 0)
	resume("resume/h2n3", 2, 3, -1, 0)
	resume("resume/h1n4", 1, 4, -1, 0)
	// without any known block: in delivery order (parents first) every tree
	out = append(out, &vs.Scenario{Name: "fresh/n5", Quick: 0, Deep: 0, Opts: vs.Opts{SchedOff: true}, Run: func(t *vs.T) {
		first := rootBlock()
		if t.Choose(2) == 1 {
			first.Parent = types.Hash{} // a genesis block
			first.Num, first.Weight = 0, hx.W(int64(t.Choose(2)))
		}
		blocks := []*hx.Block{first}
		for i := 0; i < 5; i++ {
			p := blocks[t.Choose(len(blocks))]
			blocks = append(blocks, &hx.Block{Num: p.Num + 1, Hash: hx.H(fmt.Sprintf("%c", 'a'+i)), Parent: p.Hash, Weight: new(big.Int).Add(p.Weight, big.NewInt(1))})
		}
		view := newView(t, types.Hash{}, nil, blocks...)
		view.free = true
		view.mode = chkLink
		var w *big.Int
		if t.Choose(2) == 1 {
			w = new(big.Int)
		}
		h := newOmp(t, &delivery.ConsumerConfig{LastWeight: w, ReorgThreshold: 16, TrackedPrefixes: hx.Re(".*")}, view)
		for _, b := range blocks {
			h.msg(header(t, b))
		}
		if len(h.ups) == 0 || len(h.ups[0].Added()) == 0 || h.ups[0].Added()[0].Hash != first.Hash {
			t.Fail("the first block was not emitted first")
		}
		if want := heaviest(first.Hash, nil, first.Weight, blocks); view.w[view.tip()].Cmp(want) != 0 {
			t.Fail("the chain ends at %v (weight %v), a delivered chain has weight %v: %v", hx.N(view.tip()), view.w[view.tip()], want, describe(blocks))
		}
	}})
	return out
}

func ones(n int) []int {
	x := make([]int, n)
	for i := range x {
		x[i] = 1
	}
	return x
}

func reorgMsg(t *vs.T, p *delivery.Producer, b *hx.Block) *hx.Msg {
	m := p.Reorg(b.Num, b.Hash)
	return &hx.Msg{K: m.Key(), V: m.Value(), Src: "reorg:0"}
}

// p12: explicit reorganisation notices.
func p12(tier string) []*vs.Scenario {
	var out []*vs.Scenario
	add := func(name string, settle bool, thr, oldLen, at, newLen, late, pre int, again bool, q, d int) {
		out = append(out, &vs.Scenario{Name: name, Quick: q, Deep: d, Run: func(t *vs.T) {
			t.Explore(false)
			root := rootBlock()
			old := linear(root, oldLen, "m")
			anc := old[at]
			fresh := linear(anc, newLen, "n")
			view := newView(t, root.Hash, nil, append(append([]*hx.Block{root}, old...), fresh...)...)
			h := newOmp(t, &delivery.ConsumerConfig{LastEmittedNum: root.Num, LastHash: root.Hash, LastWeight: root.Weight, ReorgThreshold: int64(thr), TrackedPrefixes: hx.Re(".*")}, view)
			h.msg(header(t, root))
			for _, b := range old[:oldLen-late] {
				h.msg(header(t, b))
			}
			for _, b := range fresh[:pre] {
				h.msg(header(t, b))
			}
			if view.tip() != old[oldLen-late-1].Hash {
				t.Fail("the chain ends at %v", hx.N(view.tip()))
			}
			n0 := len(h.ups)
			p := newProducer(t, stdSchema)
			var ms []*hx.Msg
			for _, b := range old[oldLen-late:] {
				ms = append(ms, header(t, b))
			}
			ms = append(ms, reorgMsg(t, p, anc))
			for i, b := range fresh {
				if again || i >= pre {
					ms = append(ms, header(t, b))
				}
			}
			t.Explore(true)
			for _, m := range ms {
				if err := h.ProcessMessage(m); err != nil {
					t.Fail("%v refused: %v", hx.Kind(m), err)
				}
				if settle {
					vs.Settle()
				}
			}
			t.Explore(false)
			vs.Settle()
			h.view = nil
			h.drain()
			var notices []map[int64]types.Hash
			for {
				select {
				case r := <-h.rch:
					notices = append(notices, r)
					continue
				default:
				}
				break
			}
			if len(notices) != 1 || len(notices[0]) != 1 || notices[0][anc.Num] != anc.Hash {
				t.Fail("reorganisation notices: %v, want one for %v", notices, anc)
			}
			// what the subscriber adds after the notice
			var added []types.Hash
			for _, cu := range h.ups[n0:] {
				for range cu.Removed() {
					if len(added) > 0 {
						added = added[:len(added)-1]
					}
				}
				for _, pb := range cu.Added() {
					added = append(added, pb.Hash)
				}
			}
			var want []types.Hash
			for _, b := range fresh {
				want = append(want, b.Hash)
			}
			// late blocks of the old chain may be emitted before the new ones
			got := added
			if len(got) > len(want) {
				got = got[len(got)-len(want):]
			}
			t.Obs("%v", names(added))
			if names(got) != names(want) {
				t.Fail("after the notice the chain continues with %v, want %v on %v (threshold %d)", names(added), names(want), hx.N(anc.Hash), thr)
			}
		}})
	}
	add("deep/settled", true, 2, 6, 0, 7, 0, 0, false, 1, 2)
	add("deep/burst", false, 2, 6, 0, 7, 0, 0, false, 2, 3)
	add("deep/burst/late", false, 2, 6, 0, 7, 2, 0, false, 1, 2)
	add("deep/threshold1", false, 1, 5, 0, 3, 0, 0, false, 2, 3)
	add("shallow/burst", false, 8, 4, 2, 5, 0, 0, false, 2, 3)
	add("shallow/settled", true, 8, 4, 1, 2, 0, 0, false, 1, 2)
	add("known/burst", false, 8, 4, 1, 3, 0, 2, false, 1, 2)
	add("known/again", false, 8, 4, 1, 3, 0, 2, true, 1, 2)
	add("known/again/deep", false, 2, 5, 0, 3, 0, 2, true, 1, 2)
	add("known/again/all", false, 8, 4, 1, 2, 0, 2, true, 1, 2)
	add("known/again/old", false, 2, 6, 0, 3, 0, 0, true, 1, 2)
	// a block that was never completed and was released for its age belongs to
	// the branch of a later notice
	out = append(out, &vs.Scenario{Name: "released", Quick: 1, Deep: 2, Run: func(t *vs.T) {
		t.Explore(false)
		root := rootBlock()
		old := linear(root, 10+t.Choose(3), "m")
		at := t.Choose(2)
		fresh := linear(old[at], 2, "n")
		fresh[0].Upd = hx.U("foo/1", "v")
		p := newProducer(t, stdSchema)
		fm := (&hx.Log{}).Add(fresh[0].Publish(t, p))
		view := newView(t, root.Hash, nil, append(append([]*hx.Block{root}, old...), fresh...)...)
		h := newOmp(t, &delivery.ConsumerConfig{LastEmittedNum: root.Num, LastHash: root.Hash, LastWeight: root.Weight, ReorgThreshold: 2, TrackedPrefixes: hx.Re(".*")}, view)
		part := t.Choose(len(fm)) // the message that gets lost
		for i, m := range fm {
			if i != part {
				h.msg(m)
			}
		}
		for _, b := range old {
			h.msg(header(t, b))
		}
		h.msg(header(t, old[len(old)-1]))
		n0 := len(h.ups)
		ms := []*hx.Msg{reorgMsg(t, p, old[at])}
		for _, m := range fm {
			ms = append(ms, m.Clone())
		}
		ms = append(ms, header(t, fresh[1]))
		t.Explore(true)
		for _, m := range ms {
			if err := h.ProcessMessage(m); err != nil {
				t.Fail("%v refused: %v", hx.Kind(m), err)
			}
		}
		t.Explore(false)
		vs.Settle()
		h.view = nil
		h.drain()
		var added []types.Hash
		for _, cu := range h.ups[n0:] {
			for _, pb := range cu.Added() {
				added = append(added, pb.Hash)
			}
		}
		t.Obs("%v", names(added))
		if names(added) != names([]types.Hash{fresh[0].Hash, fresh[1].Hash}) {
			t.Fail("after the notice the chain continues with %v, want %v,%v on %v", names(added), hx.N(fresh[0].Hash), hx.N(fresh[1].Hash), hx.N(old[at].Hash))
		}
	}})
	// two notices, the second before or after the branch point of the first
	for _, settle := range []bool{false, true} {
		settle := settle
		q := 2
		if settle {
			q = 1
		}
		out = append(out, &vs.Scenario{Name: fmt.Sprintf("twice/%v", settle), Quick: q, Deep: q + 1, Run: func(t *vs.T) {
			t.Explore(false)
			root := rootBlock()
			old := linear(root, 5, "m")
			first := old[t.Choose(3)]
			f1 := linear(first, t.Choose(3), "n")
			var f2 []*hx.Block
			second := old[0]
			switch t.Choose(3) {
			case 1:
				if len(f1) == 0 {
					return
				}
				second = f1[0]
			case 2:
				second = first
			}
			f2 = linear(second, 2, "o")
			view := newView(t, root.Hash, nil, append(append(append([]*hx.Block{root}, old...), f1...), f2...)...)
			h := newOmp(t, &delivery.ConsumerConfig{LastEmittedNum: root.Num, LastHash: root.Hash, LastWeight: root.Weight, ReorgThreshold: 2, TrackedPrefixes: hx.Re(".*")}, view)
			h.msg(header(t, root))
			for _, b := range old {
				h.msg(header(t, b))
			}
			n0 := len(h.ups)
			p := newProducer(t, stdSchema)
			ms := []*hx.Msg{reorgMsg(t, p, first)}
			for _, b := range f1 {
				ms = append(ms, header(t, b))
			}
			ms = append(ms, reorgMsg(t, p, second))
			for _, b := range f2 {
				ms = append(ms, header(t, b))
			}
			t.Explore(true)
			for _, m := range ms {
				if err := h.ProcessMessage(m); err != nil {
					t.Fail("%v refused: %v", hx.Kind(m), err)
				}
				if settle {
					vs.Settle()
				}
			}
			t.Explore(false)
			vs.Settle()
			h.view = nil
			h.drain()
			got := ""
			for len(h.rch) > 0 {
				for _, hash := range <-h.rch {
					got += hx.N(hash) + ";"
				}
			}
			if want := hx.N(first.Hash) + ";" + hx.N(second.Hash) + ";"; got != want {
				t.Fail("notices for %v, want %v", got, want)
			}
			var added, want []types.Hash
			for _, cu := range h.ups[n0:] {
				if len(cu.Removed()) > 0 {
					t.Fail("update removes %v", hx.Names(cu.Removed()))
				}
				for _, pb := range cu.Added() {
					added = append(added, pb.Hash)
				}
			}
			for _, b := range append(append([]*hx.Block{}, f1...), f2...) {
				want = append(want, b.Hash)
			}
			t.Obs("%v", names(added))
			if names(added) != names(want) {
				t.Fail("after the notices for %v and %v the subscriber got %v, want %v", hx.N(first.Hash), hx.N(second.Hash), names(added), names(want))
			}
		}})
	}
	// the branch that was left goes on for a while after the notice
	for _, deep := range []bool{false, true} {
		deep := deep
		out = append(out, &vs.Scenario{Name: fmt.Sprintf("other-branch/deep=%v", deep), Quick: 0, Deep: 1, Opts: vs.Opts{SchedOff: true}, Run: func(t *vs.T) {
			root := rootBlock()
			thr, at := int64(8), t.Choose(3)
			old := linear(root, 6, "m")
			if deep {
				thr, at = 2, 0
			}
			main := old[:5-t.Choose(2)]
			fresh := linear(old[at], 1+t.Choose(4), "n")
			rest := append(old[len(main):], linear(old[5], 1, "m")...)
			all := append(append(append([]*hx.Block{root}, old...), fresh...), rest...)
			view := newView(t, root.Hash, nil, all...)
			h := newOmp(t, &delivery.ConsumerConfig{LastEmittedNum: root.Num, LastHash: root.Hash, LastWeight: root.Weight, ReorgThreshold: thr, TrackedPrefixes: hx.Re(".*")}, view)
			h.msg(header(t, root))
			for _, b := range main {
				h.msg(header(t, b))
			}
			h.msg(reorgMsg(t, newProducer(t, stdSchema), old[at]))
			h.view = newView(t, old[at].Hash, nil, all...)
			h.view.mode = chkLink
			var next [2]int
			for _, w := range hx.Merge(t, []int{len(fresh), len(rest)}) {
				b := [][]*hx.Block{fresh, rest}[w][next[w]]
				next[w]++
				h.msg(header(t, b))
				if w == 0 && next[1] == 0 && h.view.tip() != b.Hash {
					t.Fail("after the notice for %v and %d blocks on it the chain ends at %v", hx.N(old[at].Hash), next[0], hx.N(h.view.tip()))
				}
			}
			t.Obs("%v", hx.N(h.view.tip()))
		}})
	}
	// at the level of completed blocks: after a notice blocks are assembled again
	out = append(out, &vs.Scenario{Name: "reassemble", Quick: 0, Deep: 0, Opts: vs.Opts{SchedOff: true}, Run: func(t *vs.T) {
		root := rootBlock()
		bs := linear(root, 3, "m")
		for i, b := range bs {
			b.Upd = hx.U(fmt.Sprintf("foo/%d", i), "v")
		}
		p := newProducer(t, stdSchema)
		log := &hx.Log{}
		var ms []*hx.Msg
		for _, b := range bs {
			ms = append(ms, log.Add(b.Publish(t, p))...)
		}
		mp := delivery.NewMessageProcessor(cfg())
		c := newCollector(mp)
		rch := make(chan map[int64]types.Hash, 5)
		mp.SubscribeReorgs(rch)
		for _, m := range ms {
			deliver(t, mp, m)
		}
		if n := len(c.drain()); n != 3 {
			t.Fail("%d blocks released", n)
		}
		k := t.Choose(3)
		deliver(t, mp, reorgMsg(t, p, bs[k]))
		select {
		case r := <-rch:
			if r[bs[k].Num] != bs[k].Hash {
				t.Fail("notice %v", r)
			}
		default:
			t.Fail("no notice")
		}
		for _, i := range hx.Perm(t, 2) {
			deliver(t, mp, ms[2*k+i].Clone())
		}
		got := c.drain()
		if len(got) != 1 || got[0].Hash != bs[k].Hash {
			t.Fail("a block sent again after the notice was released %d times", len(got))
		}
	}})
	return out
}

// p13: resumption tokens.
func parseToken(t *vs.T, tok string) map[string]int64 {
	m := map[string]int64{}
	if tok == "" {
		return m
	}
	for _, part := range strings.Split(tok, ";") {
		i := strings.LastIndexByte(part, '=')
		if i < 0 {
			t.Fail("resumption token %q does not parse", tok)
		}
		n, err := strconv.ParseInt(part[i+1:], 10, 64)
		if err != nil {
			t.Fail("resumption token %q does not parse", tok)
		}
		if _, ok := m[part[:i]]; ok {
			t.Fail("resumption token %q names a source twice", tok)
		}
		m[part[:i]] = n
	}
	return m
}

func p13(tier string) []*vs.Scenario {
	var out []*vs.Scenario
	late := false // sub-batches are sent when later blocks have been announced
	add := func(name string, contents []map[string][]byte, subs []map[string]hx.Sub, twice bool, q, d int) {
		late := late
		out = append(out, &vs.Scenario{Name: name, Quick: q, Deep: d, Opts: vs.Opts{SchedOff: true}, Run: func(t *vs.T) {
			root := rootBlock()
			bs := linear(root, len(contents), "m")
			p := newProducer(t, stdSchema)
			log := &hx.Log{}
			src := map[string][]*hx.Msg{}
			if late {
				// every block is announced and its sub-batches are sent later, in
				// any order
				var lens []int
				for i, b := range bs {
					b.Upd, b.Subs = contents[i], subs[i]
					lens = append(lens, 1+len(b.Subs))
				}
				pos := make([]int, len(bs))
				for _, i := range hx.Merge(t, lens) {
					b := bs[i]
					var outs []hx.Out
					if pos[i] == 0 {
						if i > 0 && pos[i-1] == 0 {
							return // blocks are announced in the order of the chain
						}
						ms, err := p.AddBlock(b.Num, b.Hash, b.Parent, b.Weight, b.Upd, b.Del, b.BatchIDs())
						if err != nil {
							t.Fail("%v", err)
						}
						outs = hx.Flatten(ms)
					} else {
						sb := b.Subs[hx.Keys(b.Subs)[pos[i]-1]]
						ms, err := p.SendBatch(sb.ID, sb.Del, sb.Upd)
						if err != nil {
							t.Fail("%v", err)
						}
						outs = hx.Flatten(ms)
					}
					pos[i]++
					for _, m := range log.Add(outs) {
						src[m.Src] = append(src[m.Src], m)
					}
				}
			}
			for i, b := range bs {
				if late {
					break
				}
				b.Upd = contents[i]
				if subs != nil {
					b.Subs = subs[i]
				}
				outs := b.Publish(t, p)
				for j, m := range log.Add(outs) {
					if twice && j > 0 {
						// the topic has two partitions
						m.Src = m.Src[:len(m.Src)-1] + string(rune('0'+(i+j)%2))
						m.Off = int64(len(src[m.Src]))
					}
					src[m.Src] = append(src[m.Src], m)
				}
			}
			ks := hx.Keys(src)
			var lens []int
			for _, k := range ks {
				lens = append(lens, len(src[k]))
			}
			order := hx.Merge(t, lens)
			conf := func(last *hx.Block) *delivery.ConsumerConfig {
				return &delivery.ConsumerConfig{LastEmittedNum: last.Num, LastHash: last.Hash, LastWeight: last.Weight, ReorgThreshold: 16, TrackedPrefixes: hx.Re(".*")}
			}
			all := append([]*hx.Block{root}, bs...)
			view := newView(t, root.Hash, nil, all...)
			view.mode = chkLink
			h := newOmp(t, conf(root), view)
			pos := map[string]int{}
			type tk struct {
				b   *hx.Block
				tok string
			}
			type late1 struct {
				b  *hx.Block
				pb *delivery.PendingBatch
			}
			var toks []tk
			var late []late1
			var got []*hx.Msg
			num := map[types.Hash]int64{}
			for _, b := range bs {
				num[b.Hash] = b.Num
			}
			seenSrc := map[string]bool{}
			for _, s := range order {
				k := ks[s]
				m := src[k][pos[k]]
				pos[k]++
				seenSrc[k] = true
				n := len(h.ups)
				h.msg(m)
				got = append(got, m)
				for _, cu := range h.ups[n:] {
					for _, pb := range cu.Added() {
						for _, b := range bs {
							if b.Hash == pb.Hash {
								toks = append(toks, tk{b, pb.Resumption()})
								late = append(late, late1{b, pb})
							}
						}
					}
				}
			}
			if view.tip() != bs[len(bs)-1].Hash {
				t.Fail("the chain ends at %v", hx.N(view.tip()))
			}
			// a block's token may be taken at any later time
			have := map[string]bool{}
			for _, l := range late {
				toks = append(toks, tk{l.b, l.pb.Resumption()})
			}
			for _, x := range toks {
				if id := fmt.Sprint(hx.N(x.b.Hash), sortedToken(x.tok)); have[id] {
					continue
				} else {
					have[id] = true
				}
				tok := parseToken(t, x.tok)
				// a new consumer that starts after x.b reads every source from the
				// position in the token
				resume := func(limit map[string]int64) types.Hash {
					v2 := newView(t, x.b.Hash, nil, all...)
					v2.mode = chkLink
					h2 := newOmp(t, conf(x.b), v2)
					for _, k := range ks {
						off, ok := tok[k]
						if !ok {
							off = 0 // sources not in the token are read from the start
						}
						if l, ok := limit[k]; ok && l < off {
							off = l
						}
						if off < 0 || off > int64(len(src[k])) {
							t.Fail("token %q points outside of %v", x.tok, k)
						}
						for _, m := range src[k][off:] {
							h2.msg(m.Clone())
						}
					}
					return v2.tip()
				}
				if tip := resume(nil); tip != bs[len(bs)-1].Hash {
					// messages of later blocks received before x.b was announced
					early := map[string]int64{}
					for _, m := range got {
						if hash := types.BytesToHash(m.K[1:33]); m.K[0] == 0 && hash == x.b.Hash {
							break
						} else if o, ok := early[m.Src]; num[hash] > x.b.Num && (!ok || m.Off < o) {
							early[m.Src] = m.Off
						}
					}
					why := ""
					if resume(early) == bs[len(bs)-1].Hash {
						why = " (it skips messages that were received before their block and the token's block were announced)"
					}
					t.Fail("resumed after %v with token %q the chain ends at %v, not %v%v", hx.N(x.b.Hash), x.tok, hx.N(tip), hx.N(bs[len(bs)-1].Hash), why)
				}
				t.Obs("%v", sortedToken(x.tok))
			}
		}})
	}
	u := hx.U
	add("two-sources", []map[string][]byte{u("foo/1", "a"), u("foo/2", "b"), u("foo/3", "c")}, nil, false, 0, 0)
	add("idle-source", []map[string][]byte{u("foo/1", "a"), u(), u("foo/3", "c", "foo/4", "d")}, nil, false, 0, 0)
	add("idle-header", []map[string][]byte{u(), u(), u("foo/3", "c")}, nil, false, 0, 0)
	add("three-sources", []map[string][]byte{u("foo/1", "a"), u("bar/1/baz/x", "b"), u("foo/3", "c")}, nil, false, 0, 0)
	add("two-partitions", []map[string][]byte{u("foo/1", "a", "foo/2", "b"), u(), u("foo/3", "c", "foo/4", "d")}, nil, true, 0, 0)
	add("four-blocks", []map[string][]byte{u("foo/1", "a"), u("bar/1/baz/x", "b"), u(), u("foo/3", "c", "bar/1/baz/y", "d")}, nil, false, 0, 0)
	add("four-blocks/burst", []map[string][]byte{u("bar/1/baz/x", "b"), u("foo/1", "a"), u(), u("foo/3", "c", "foo/4", "d")}, nil, false, 0, 0)
	add("three-sources/long", []map[string][]byte{u("foo/1", "a", "bar/1/baz/x", "b"), u(), u("bar/1/baz/y", "e"), u("foo/3", "c", "bar/1/baz/z", "d")}, nil, false, -1, 0)
	add("subbatches", []map[string][]byte{u("foo/1", "a"), u(), u()}, []map[string]hx.Sub{nil, {"state/": sub("S", u("k", "v"))}, {"state/": sub("T", u("k", "w"))}}, false, 0, 0)
	late = true
	add("late-subbatches", []map[string][]byte{u(), u("foo/1", "a"), u()}, []map[string]hx.Sub{{"foo/": sub("S", u("k", "v"))}, {"bar/1/baz/": sub("T", u("k", "w"))}, nil}, false, 0, 0)
	add("late-subbatches/overtaking", []map[string][]byte{u(), u(), u("foo/1", "a")}, []map[string]hx.Sub{{"foo/": sub("S", u("k", "v"))}, nil, nil}, false, 0, 0)
	add("late-subbatches/one-source", []map[string][]byte{u(), u(), u()}, []map[string]hx.Sub{{"x": sub("S", u("k", "v"))}, {"y": sub("T", u("k", "w"))}, {"z": sub("W", u("k", "x"))}}, false, 0, 0)
	add("late-subbatches/one-topic", []map[string][]byte{u(), u(), u()}, []map[string]hx.Sub{{"foo/": sub("S", u("k", "v"))}, {"foo/": sub("T", u("k", "w"))}, nil}, false, 0, 0)
	add("late-subbatches/two", []map[string][]byte{u(), u()}, []map[string]hx.Sub{{"foo/": sub("S", u("k", "v")), "x": sub("W", u("k", "x"))}, {"foo/": sub("T", u("k", "w"))}}, false, 0, 0)
	// blocks that arrive one after another: positions advance with the chain
	advance := func(name string, subs bool, contents ...map[string][]byte) {
		out = append(out, &vs.Scenario{Name: "advance/" + name, Opts: vs.Opts{SchedOff: true}, Run: func(t *vs.T) {
			root := rootBlock()
			bs := linear(root, len(contents), "m")
			p := newProducer(t, stdSchema)
			log := &hx.Log{}
			view := newView(t, root.Hash, nil, append([]*hx.Block{root}, bs...)...)
			h := newOmp(t, &delivery.ConsumerConfig{LastEmittedNum: root.Num, LastHash: root.Hash, LastWeight: root.Weight, ReorgThreshold: 16, TrackedPrefixes: hx.Re(".*")}, view)
			floor := map[string]int64{} // first message of the last earlier block on a source
			var toks []*delivery.PendingBatch
			var floors []map[string]int64
			for i, b := range bs {
				b.Upd = contents[i]
				if subs {
					b.Subs = map[string]hx.Sub{"state/": sub(fmt.Sprint("S", i), hx.U("k", "v"))}
				}
				ms := log.Add(b.Publish(t, p))
				first := map[string]int64{}
				for _, m := range ms {
					if o, ok := first[m.Src]; !ok || m.Off < o {
						first[m.Src] = m.Off
					}
				}
				// any order that keeps the order of each source
				bySrc := map[string][]*hx.Msg{}
				for _, m := range ms {
					bySrc[m.Src] = append(bySrc[m.Src], m)
				}
				ks := hx.Keys(bySrc)
				var lens []int
				for _, k := range ks {
					lens = append(lens, len(bySrc[k]))
				}
				n := len(h.ups)
				for _, s := range hx.Merge(t, lens) {
					h.msg(bySrc[ks[s]][0])
					bySrc[ks[s]] = bySrc[ks[s]][1:]
				}
				if len(h.ups) != n+1 || len(h.ups[n].Added()) != 1 {
					t.Fail("%v was not emitted with its last message", hx.N(b.Hash))
				}
				cp := map[string]int64{}
				for k, v := range floor {
					cp[k] = v
				}
				toks, floors = append(toks, h.ups[n].Added()[0]), append(floors, cp)
				for k, v := range first {
					floor[k] = v
				}
			}
			for i, pb := range toks {
				tok := parseToken(t, pb.Resumption())
				for k, v := range floors[i] {
					if o, ok := tok[k]; !ok || o < v {
						t.Fail("token %q of %v goes back further than the messages of the block before it that is on %v (from %d)", pb.Resumption(), hx.N(pb.Hash), k, v)
					}
				}
			}
		}})
	}
	advance("two-sources", false, u("foo/1", "a"), u("foo/2", "b"), u("foo/3", "c"), u("foo/4", "c", "foo/5", "d"))
	advance("three-sources", false, u("foo/1", "a"), u("bar/1/baz/x", "b"), u("foo/2", "c", "bar/1/baz/y", "d"), u(), u("foo/3", "c"))
	advance("subbatches", true, u(), u("foo/1", "a"), u(), u())
	return out
}

func sortedToken(s string) string {
	p := strings.Split(s, ";")
	sort.Strings(p)
	return strings.Join(p, ";")
}
