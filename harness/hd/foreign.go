package main

import (
	"fmt"
	"strings"
	"time"

	"github.com/openrelayxyz/cardinal-streams/v2/delivery"
	"github.com/openrelayxyz/cardinal-types"
	"verif.local/h/hx"
	"verif.local/vs"
)

type junk struct {
	name string
	k, v []byte
}

// junkFor lists messages that are no part of the block, although most of them
// claim to be.
func junkFor(b *hx.Block, value []byte) []junk {
	var out []junk
	h := b.Hash.Bytes()
	other := hx.H("nowhere").Bytes()
	add := func(name string, v []byte, parts ...[]byte) {
		out = append(out, junk{name, append([]byte{}, join(parts...)...), v})
	}
	for ty := 0; ty <= 8; ty++ {
		mt := []byte{byte(ty)}
		switch ty {
		case int(delivery.ReorgType):
			continue // a request of its own, see P12
		case 7:
			mt[0] = 0x7f
		case 8:
			mt[0] = byte(delivery.PingType)
		}
		for _, n := range []int{0, 1, 31} {
			add(fmt.Sprintf("type %#x, %d bytes", mt[0], n), value, mt, h[:n])
		}
		for _, hash := range [][]byte{h, other} {
			w := "block"
			if &hash[0] == &other[0] {
				w = "other"
			}
			if ty != int(delivery.BatchType) || w == "other" {
				add(fmt.Sprintf("type %#x, %v", mt[0], w), value, mt, hash)
			}
			add(fmt.Sprintf("type %#x, %v, 1 more byte", mt[0], w), value, mt, hash, []byte{0})
			if ty != int(delivery.BatchType) {
				add(fmt.Sprintf("type %#x, %v, other batch", mt[0], w), value, mt, hash, other)
				add(fmt.Sprintf("type %#x, %v, 31 bytes of another batch", mt[0], w), value, mt, hash, other[:31])
				add(fmt.Sprintf("type %#x, %v, other batch, index 0", mt[0], w), value, mt, hash, other, delivery.AvroInt(0))
			}
		}
	}
	for _, k := range hx.Keys(b.Subs) {
		id := b.Subs[k].ID.Bytes()
		sm := []byte{byte(delivery.SubBatchMsgType)}
		rec := (&delivery.SubBatchRecord{Updates: hx.U("forged", "1"), Delete: []string{"gone"}}).EncodeAvro()
		for _, i := range []int{-1, 2, 3, 1 << 20, -1 << 31} {
			add(fmt.Sprintf("message %d of batch %v", i, k), rec, sm, h, id, delivery.AvroInt(i))
		}
		add("message of batch "+k+" without index", rec, sm, h, id)
		add("message of batch "+k+" with unending index", rec, sm, h, id, []byte{0xff, 0xff, 0xff})
		add("message of batch "+k+" with overlong index", rec, sm, h, id, []byte{0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 1})
		add("short id of batch "+k, rec, sm, h, id[:30])
		add("header of batch "+k+" with more bytes in front", rec, []byte{byte(delivery.SubBatchHeaderType)}, h, []byte{1}, id)
	}
	return out
}

func join(parts ...[]byte) []byte {
	var out []byte
	for _, p := range parts {
		out = append(out, p...)
	}
	return out
}

func foreignBlock() *hx.Block {
	return blk(7, "B", "A", hx.U("foo/a", "1", "plain", "2"), nil, map[string]hx.Sub{"state/": sub("S", hx.U("state/1", "a"), "state/2")})
}

// p33: messages that belong to nothing do no harm
func p33(tier string) []*vs.Scenario {
	var out []*vs.Scenario
	values := []struct {
		name string
		v    []byte
	}{{"nil", nil}, {"text", []byte("garbage")}, {"ff", []byte{0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff}}, {"int", delivery.AvroInt(3)}, {"record", (&delivery.SubBatchRecord{Updates: hx.U("forged", "1")}).EncodeAvro()}}
	for n := 1; n <= 2; n++ {
		for _, val := range values {
			n, val := n, val
			quick := 0
			if n == 2 {
				quick = -1
			}
			out = append(out, &vs.Scenario{Name: fmt.Sprintf("orders/%d/%v", n, val.name), Quick: quick, Deep: 0, Opts: vs.Opts{SchedOff: true}, Run: func(t *vs.T) {
				b := foreignBlock()
				log := &hx.Log{}
				ms := log.Add(b.Publish(t, newProducer(t, stdSchema)))
				vals, dels := b.Content(hx.Re(".*"), nil)
				js := junkFor(b, val.v)
				at := map[int][]junk{}
				what := ""
				for i := 0; i < n; i++ {
					j := js[t.Choose(len(js))]
					k := t.Choose(len(ms) + 1)
					at[k] = append(at[k], j)
					what += fmt.Sprintf(" [%v, value %v]", j.name, val.name)
				}
				t.Obs("%v", what)
				var order []int
				if n == 1 {
					order = hx.Perm(t, len(ms))
				} else { // forwards, backwards
					for i := range ms {
						order = append(order, i)
					}
					if t.Choose(2) == 1 {
						for i := range order {
							order[i] = len(ms) - 1 - i
						}
					}
				}
				mp := delivery.NewMessageProcessor(cfg())
				c := newCollector(mp)
				released := 0
				bystander := func(i int) {
					for _, pb := range c.drain() {
						if pb.Hash != b.Hash {
							continue
						}
						released++
						if i < len(ms) {
							t.Fail("block released after %d of %d messages and%v", i, len(ms), what)
						}
						if d := hx.Diff(pb, b, vals, dels); d != "" {
							t.Fail("the block differs with%v: %v", what, d)
						}
					}
				}
				off := int64(100)
				for i := 0; i <= len(ms); i++ {
					for _, j := range at[i] {
						m := &hx.Msg{K: j.k, V: j.v, Src: "junk:0", Off: off}
						off++
						mp.ProcessMessage(m)
						bystander(i)
					}
					if i == len(ms) {
						break
					}
					if err := mp.ProcessMessage(ms[order[i]]); err != nil {
						t.Fail("message %v was refused with%v: %v", hx.Kind(ms[order[i]]), what, err)
					}
					bystander(i + 1)
				}
				if released != 1 {
					t.Fail("the block was released %d times with%v", released, what)
				}
			}})
		}
	}
	return out
}

// p32: the state of a block is told truthfully, at any time
func p32(tier string) []*vs.Scenario {
	var out []*vs.Scenario
	for _, sh := range shapes() {
		sh := sh
		out = append(out, &vs.Scenario{Name: "parts/" + sh.name, Quick: 1, Deep: 2, Opts: vs.Opts{SchedOff: true}, Run: func(t *vs.T) {
			log := &hx.Log{}
			ms := log.Add(sh.b.Publish(t, newProducer(t, sh.schema)))
			mp := delivery.NewMessageProcessor(cfg())
			c := newCollector(mp)
			order := hx.Perm(t, len(ms))
			missing := map[*hx.Msg]bool{}
			for _, m := range ms {
				missing[m] = true
			}
			check := func() {
				old := t.MapOrder(true)
				s := mp.WhyNotReady(sh.b.Hash)
				t.MapOrder(old)
				if e := explains(s, sh.b, missing); e != "" {
					t.Fail("%v", e)
				}
				if s := mp.WhyNotReady(hx.H("unknown")); s != "not found" {
					t.Fail("an unknown block is %q", s)
				}
			}
			check()
			for i, k := range order {
				if err := mp.ProcessMessage(ms[k]); err != nil {
					t.Fail("message %v was refused: %v", hx.Kind(ms[k]), err)
				}
				delete(missing, ms[k])
				if i < len(order)-1 {
					check()
				}
			}
			if s := mp.WhyNotReady(sh.b.Hash); s != "not found" {
				t.Fail("a released block is %q", s)
			}
			if n := len(c.drain()); n != 1 {
				t.Fail("%d blocks were released", n)
			}
			t.Obs("%v", order)
		}})
	}
	// blocks in the ordered processor
	out = append(out, &vs.Scenario{Name: "chain", Quick: 0, Deep: 1, Run: func(t *vs.T) {
		t.Explore(false)
		a := &hx.Block{Num: 1, Hash: hx.H("1"), Parent: hx.H("A"), Weight: hx.W(10), Upd: hx.U("k", "1")}
		b := &hx.Block{Num: 2, Hash: hx.H("2"), Parent: a.Hash, Weight: hx.W(20), Upd: hx.U("foo/k", "2", "foo/l", "3")}
		c := &hx.Block{Num: 3, Hash: hx.H("3"), Parent: b.Hash, Weight: hx.W(30), Upd: hx.U("k", "3")}
		x := &hx.Block{Num: 2, Hash: hx.H("2x"), Parent: hx.H("missing"), Weight: hx.W(15), Upd: hx.U("k", "3")}
		bs := []*hx.Block{a, b, c, x}
		p := newProducer(t, stdSchema)
		log := &hx.Log{}
		var parts [][]*hx.Msg
		n := []int{}
		for _, b := range bs {
			parts = append(parts, log.Add(b.Publish(t, p)))
			n = append(n, len(parts[len(parts)-1]))
		}
		omp, err := delivery.NewOrderedMessageProcessor(cfg())
		if err != nil {
			t.Fail("%v", err)
		}
		seen := map[types.Hash]bool{}
		ch := make(chan *delivery.ChainUpdate, 3000)
		omp.Subscribe(ch)
		t.Explore(true)
		at := make([]int, len(bs))
		for _, i := range hx.MultiPerm(t, n) {
			if err := omp.ProcessMessage(parts[i][at[i]]); err != nil {
				t.Fail("%v", err)
			}
			at[i]++
			vs.Settle()
			for len(ch) > 0 {
				for _, pb := range (<-ch).Added() {
					seen[pb.Hash] = true
				}
			}
			for j, b := range bs {
				s := omp.WhyNotReady(b.Hash)
				want := "pending parent"
				hdr := false
				for _, m := range parts[j][:at[j]] {
					hdr = hdr || m.K[0] == byte(delivery.BatchType)
				}
				switch {
				case at[j] == 0 || (at[j] < n[j] && !hdr):
					want = "not found"
				case at[j] < n[j]:
					want = "Pending prefix"
				case seen[b.Hash]:
					want = "done"
				}
				ok := strings.HasPrefix(s, want)
				if want == "pending parent" && s == "done, not evicted" { // on a side branch
					ok = true
				}
				if !ok {
					t.Fail("block %v is %q, expected %q", b, s, want)
				}
			}
		}
		t.Obs("%v", at)
	}})
	// nobody receives blocks; questions are answered all the same
	for _, kind := range []string{"updates", "blocks", "waiters", "reorgs"} {
		kind := kind
		out = append(out, &vs.Scenario{Name: "stuck/" + kind, Quick: 2, Deep: 3, Run: func(t *vs.T) {
			t.Explore(false)
			omp, err := delivery.NewOrderedMessageProcessor(cfg())
			if err != nil {
				t.Fail("%v", err)
			}
			switch kind {
			case "updates":
				omp.Subscribe(make(chan *delivery.ChainUpdate))
			case "blocks":
				omp.Subscribe(make(chan *delivery.PendingBatch))
			case "waiters":
				omp.Subscribe(make(chan *delivery.Waiter))
			case "reorgs":
				omp.SubscribeReorg(make(chan map[int64]types.Hash))
			}
			p := newProducer(t, stdSchema)
			log := &hx.Log{}
			bs := []*hx.Block{blk(1, "1", "A", hx.U("k", "1"), nil, nil), blk(2, "2", "1", hx.U("foo/k", "2"), nil, nil)}
			t.Explore(true)
			go func() {
				for _, b := range bs {
					for _, m := range log.Add(b.Publish(t, p)) {
						omp.ProcessMessage(m)
					}
				}
			}()
			go omp.ProcessReorg(0, hx.H("A"))
			done := make(chan bool, 2)
			for i := 0; i < 2; i++ {
				go func() {
					for _, b := range bs {
						s := omp.WhyNotReady(b.Hash)
						t.Obs("%v ", s)
					}
					done <- true
				}()
			}
			for i := 0; i < 2; i++ {
				select {
				case <-done:
				case <-time.After(time.Second):
					t.Fail("a question about a block is not answered while a subscriber does not receive")
				}
			}
		}})
	}
	return out
}

// explains returns what is wrong with an explanation, given the missing parts.
func explains(s string, b *hx.Block, missing map[*hx.Msg]bool) string {
	if len(missing) == 0 {
		return ""
	}
	var kinds []string
	announced := true
	fits := false
	for m := range missing {
		kinds = append(kinds, hx.Kind(m))
		switch m.K[0] {
		case byte(delivery.BatchType):
			announced = false
		case byte(delivery.SubBatchHeaderType):
			fits = fits || strings.HasPrefix(s, "Pending batches")
		case byte(delivery.SubBatchMsgType):
			id := fmt.Sprintf("%#x", m.K[33:65])
			fits = fits || (strings.HasPrefix(s, "Pending batch '") && strings.Contains(s, id))
		case byte(delivery.BatchMsgType), byte(delivery.BatchDeleteMsgType):
			if k := strings.Index(s, "'"); k >= 0 && strings.HasPrefix(s, "Pending prefix '") {
				fits = fits || strings.HasPrefix(string(m.K[33:]), s[k+1:len(s)-1])
			}
		}
	}
	if !announced {
		if s != "not found" {
			return fmt.Sprintf("a block without announcement is %q", s)
		}
		return ""
	}
	if !fits {
		return fmt.Sprintf("a block that misses %v is %q", kinds, s)
	}
	return ""
}
