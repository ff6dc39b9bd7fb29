package main

import (
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/big"
	"strings"
	"time"

	"github.com/gorilla/websocket"
	"github.com/openrelayxyz/cardinal-streams/v2/delivery"
	"github.com/openrelayxyz/cardinal-types"
	"verif.local/h/hx"
	"verif.local/vs"
)

// The messages of the websocket protocol are read and written here without the
// types of the code.

// jget reads a message into generic values.
func jget(t *vs.T, m []byte) map[string]any {
	var v map[string]any
	d := json.NewDecoder(strings.NewReader(string(m)))
	d.UseNumber()
	if err := d.Decode(&v); err != nil || d.More() {
		t.Fail("message %s is not one JSON object: %v", m, err)
	}
	return v
}

func jobj(t *vs.T, v any, what string) map[string]any {
	m, ok := v.(map[string]any)
	if !ok {
		t.Fail("%s is %v instead of an object", what, v)
	}
	return m
}

func jhex(t *vs.T, v any, what string) string {
	s, ok := v.(string)
	if !ok || !strings.HasPrefix(s, "0x") {
		t.Fail("%s is %v instead of a hexadecimal string", what, v)
	}
	return s[2:]
}

// jnum reads a quantity: no leading zeros.
func jnum(t *vs.T, v any, what string) *big.Int {
	s := jhex(t, v, what)
	n, ok := new(big.Int).SetString(s, 16)
	if !ok || len(s) > 1 && s[0] == '0' || s[0] == '-' || s[0] == '+' {
		t.Fail("%s is %v instead of a hexadecimal quantity", what, v)
	}
	return n
}

func jbytes(t *vs.T, v any, what string) []byte {
	b, err := hex.DecodeString(jhex(t, v, what))
	if err != nil {
		t.Fail("%s is %v instead of hexadecimal data", what, v)
	}
	return b
}

func jhash(t *vs.T, v any, what string) types.Hash {
	b := jbytes(t, v, what)
	if len(b) != 32 {
		t.Fail("%s is %v instead of a hash", what, v)
	}
	return types.BytesToHash(b)
}

// jresult takes the content out of a notification of a subscription.
func jresult(t *vs.T, m []byte, id string) map[string]any {
	v := jget(t, m)
	if v["jsonrpc"] != "2.0" || v["method"] != "cardinal_subscribe" || v["error"] != nil {
		t.Fail("message %s is no notification", m)
	}
	p := jobj(t, v["params"], "params")
	if p["subscription"] != id {
		t.Fail("message %s is not for subscription %v", m, id)
	}
	return jobj(t, p["result"], "result")
}

// jcontent compares values and deletes.
func jcontent(t *vs.T, v map[string]any, upd map[string][]byte, del map[string]struct{}) {
	gv, gd := map[string][]byte{}, map[string]struct{}{}
	if v["values"] != nil {
		for k, x := range jobj(t, v["values"], "values") {
			gv[k] = jbytes(t, x, "value of "+k)
		}
	}
	if v["deletes"] != nil {
		l, ok := v["deletes"].([]any)
		if !ok {
			t.Fail("deletes are %v", v["deletes"])
		}
		for _, x := range l {
			s, ok := x.(string)
			if _, twice := gd[s]; !ok || twice {
				t.Fail("deletes are %v", l)
			}
			gd[s] = struct{}{}
		}
	}
	if d := hx.DiffContent(gv, gd, upd, del); d != "" {
		t.Fail("%v", d)
	}
}

// jbatch checks the announcement of a block; inline tells whether it comes with
// the content of its sub-batches.
func jbatch(t *vs.T, v map[string]any, b *hx.Block, inline bool) {
	if v["type"] != "batch" {
		t.Fail("message of type %v instead of batch", v["type"])
	}
	x := jobj(t, v["batch"], "batch")
	if n := jnum(t, x["number"], "number"); n.Cmp(big.NewInt(b.Num)) != 0 {
		t.Fail("number %v instead of %d", n, b.Num)
	}
	if w := jnum(t, x["weight"], "weight"); w.Cmp(b.Weight) != 0 {
		t.Fail("weight %v instead of %v", w, b.Weight)
	}
	if h := jhash(t, x["hash"], "hash"); h != b.Hash {
		t.Fail("hash %v instead of %v", h, b.Hash)
	}
	if h := jhash(t, x["parent"], "parent"); h != b.Parent {
		t.Fail("parent %v instead of %v", h, b.Parent)
	}
	upd, del := b.Upd, b.Del
	if inline {
		upd, del = b.Content(hx.Re(".*"), nil)
	}
	jcontent(t, x, upd, del)
	n := 0
	if x["batches"] != nil {
		for k, id := range jobj(t, x["batches"], "batches") {
			s, ok := b.Subs[k]
			if !ok || inline || jhash(t, id, "batch id") != s.ID {
				t.Fail("batch %q: %v", k, id)
			}
			n++
		}
	}
	if !inline && n != len(b.Subs) {
		t.Fail("%d sub-batches are announced instead of %d", n, len(b.Subs))
	}
}

// jtext writes an object with its fields in the given order.
func jtext(kv ...string) string {
	var s []string
	for i := 0; i+1 < len(kv); i += 2 {
		k, _ := json.Marshal(kv[i])
		s = append(s, string(k)+":"+kv[i+1])
	}
	return "{" + strings.Join(s, ",") + "}"
}

func jstr(s string) string {
	b, _ := json.Marshal(s)
	return string(b)
}

func jvalues(upd map[string][]byte) string {
	var kv []string
	for _, k := range hx.Keys(upd) {
		kv = append(kv, k, jstr("0x"+hex.EncodeToString(upd[k])))
	}
	return jtext(kv...)
}

func jlist(l []string) string {
	var s []string
	for _, x := range l {
		s = append(s, jstr(x))
	}
	return "[" + strings.Join(s, ",") + "]"
}

// optional gives the forms an absent or present field may take.
func optional(t *vs.T, kv []string, name, text string, empty bool, none string) []string {
	if !empty {
		return append(kv, name, text)
	}
	switch t.Choose(3) {
	case 0:
		return kv
	case 1:
		return append(kv, name, "null")
	}
	return append(kv, name, none)
}

// order arranges the fields of an object: as they are, reversed, with unknown
// fields in between.
func order(t *vs.T, kv []string) string {
	switch t.Choose(3) {
	case 1:
		var r []string
		for i := len(kv) - 2; i >= 0; i -= 2 {
			r = append(r, kv[i], kv[i+1])
		}
		kv = r
	case 2:
		kv = append([]string{"future", `{"type":"batch","hash":[1]}`}, append(kv, "more", "[null,{}]")...)
	}
	return jtext(kv...)
}

// p36: the JSON format of the websocket protocol
func p36(tier string) []*vs.Scenario {
	var out []*vs.Scenario
	add := func(name string, quick, deep int, run func(t *vs.T)) {
		out = append(out, &vs.Scenario{Name: name, Quick: quick, Deep: deep, Opts: vs.Opts{SchedOff: true}, Run: func(t *vs.T) {
			t.Explore(false)
			run(t)
		}})
	}
	big1 := new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 256), big.NewInt(1))
	nums := []int64{0, 1, 15, 16, 255, 1<<32 + 1, 1<<53 + 1, 1<<63 - 1}
	weights := []*big.Int{hx.W(0), hx.W(1), hx.W(16), hx.W(1<<62 + 1), big1}
	hashes := []types.Hash{hx.H("m1"), {31: 1}, {0: 0x10}, {0: 0xff, 31: 0xff}}
	// what a client receives
	for _, route := range []string{"live", "history", "block"} {
		route := route
		add("server/"+route, 0, 0, func(t *vs.T) {
			b := &hx.Block{Num: nums[t.Choose(len(nums))], Weight: weights[t.Choose(len(weights))], Hash: hashes[t.Choose(len(hashes))], Parent: []types.Hash{root.Hash, {}, {31: 2}}[t.Choose(3)]}
			switch t.Choose(4) {
			case 0:
				b.Upd, b.Del = map[string][]byte{}, map[string]struct{}{}
			case 1:
				b.Upd, b.Del = hx.U("k", "v", "e", "", "0x", "0x00", "ü\"<", "\x00\xff"), hx.D("d", "", "<\n")
			case 2:
				b.Upd, b.Del = hx.U("k", "v"), hx.D()
				b.Subs = map[string]hx.Sub{"s/": wsub("s", []string{"s/d"}, "s/k", "x", "s/e", ""), "t/": wsub("t", nil)}
			case 3:
				b.Upd, b.Del = hx.U(), hx.D("x")
				b.Subs = map[string]hx.Sub{"s/": wsub("s", []string{"a", "b"})}
			}
			r, p := wfresh(t)
			if route == "history" || route == "block" {
				r.only = b
			}
			vs.Settle()
			ws, _, err := websocket.DefaultDialer.Dial(wurl, nil)
			if err != nil {
				t.Fail("dialing: %v", err)
			}
			c := &raw{ws, t}
			if route == "block" {
				c.write(`{"id":9,"method":"cardinal_streamsBlock","jsonrpc":"2.0","params":["0x%x"]}`, b.Num)
				m, _ := c.read("")
				v := jget(t, m)
				if v["jsonrpc"] != "2.0" || fmt.Sprint(v["id"]) != "9" || v["error"] != nil {
					t.Fail("answer %s", m)
				}
				jbatch(t, jobj(t, v["result"], "result"), b, true)
				return
			}
			c.write(`{"params":["streams","0x%x","0x%x"],"method":"cardinal_subscribe","jsonrpc":"2.0","id":1}`, root.Num, root.Hash[:])
			m, _ := c.read("")
			v := jget(t, m)
			id, ok := v["result"].(string)
			if v["jsonrpc"] != "2.0" || fmt.Sprint(v["id"]) != "1" || v["error"] != nil || !ok {
				t.Fail("answer %s", m)
			}
			jnum(t, id, "subscription id")
			if route == "history" {
				m, _ = c.read("")
				jbatch(t, jresult(t, m, id), b, true)
				for {
					m, _ = c.read("")
					x := jresult(t, m, id)
					if x["type"] == "ready" {
						break
					}
					jbatch(t, x, b, true) // the block may be sent again
				}
				return
			}
			for {
				m, _ = c.read("")
				if jresult(t, m, id)["type"] == "ready" {
					break
				}
			}
			wadd(t, nil, p, b)
			m, _ = c.read("")
			jbatch(t, jresult(t, m, id), b, false)
			left := map[types.Hash]hx.Sub{}
			for _, s := range b.Subs {
				left[s.ID] = s
			}
			for len(left) > 0 {
				m, _ = c.read("")
				x := jresult(t, m, id)
				if x["type"] != "subbatch" {
					t.Fail("message of type %v instead of subbatch", x["type"])
				}
				x = jobj(t, x["subbatch"], "subbatch")
				if h := jhash(t, x["hash"], "hash"); h != b.Hash {
					t.Fail("sub-batch of block %v", h)
				}
				s, ok := left[jhash(t, x["batchid"], "batchid")]
				if !ok {
					t.Fail("sub-batch %v", x["batchid"])
				}
				delete(left, s.ID)
				jcontent(t, x, s.Upd, hx.D(s.Del...))
			}
			if _, err := p.Reorg(b.Num, b.Hash); err != nil {
				t.Fail("reorg: %v", err)
			}
			m, _ = c.read("")
			x := jresult(t, m, id)
			if x["type"] != "reorg" {
				t.Fail("message of type %v instead of reorg", x["type"])
			}
			x = jobj(t, x["batch"], "batch")
			if n, h := jnum(t, x["number"], "number"), jhash(t, x["hash"], "hash"); n.Cmp(big.NewInt(b.Num)) != 0 || h != b.Hash {
				t.Fail("reorg to %v %v", n, h)
			}
		})
	}
	// serve confirms the subscription of a consumer under an id and sends texts
	serve := func(t *vs.T, id string, texts []string, requests *[]map[string]any) {
		websocket.Reset()
		websocket.Listen("8555", func(c *websocket.Conn) {
			defer c.Close()
			_, m, err := c.ReadMessage()
			if err != nil {
				return
			}
			call := jget(t, m)
			*requests = append(*requests, call)
			cid, _ := json.Marshal(call["id"])
			c.WriteMessage(websocket.TextMessage, []byte(fmt.Sprintf(`{"id":%s,"result":%q,"jsonrpc":"2.0"}`, cid, id)))
			for _, x := range texts {
				c.WriteMessage(websocket.TextMessage, []byte(fmt.Sprintf(`{"params":{"result":%s,"subscription":%q},"jsonrpc":"2.0","method":"cardinal_subscribe"}`, x, id)))
			}
			c.ReadMessage()
		})
	}
	ids := []string{"0x0", "0x1", "0xff", "0xffffffffffffffff"}
	hexh := func(h types.Hash) string { return jstr("0x" + hex.EncodeToString(h[:])) }
	head := func(b *hx.Block) []string {
		return []string{"number", jstr(fmt.Sprintf("0x%x", b.Num)), "weight", jstr("0x" + b.Weight.Text(16)), "hash", hexh(b.Hash), "parent", hexh(b.Parent)}
	}
	// what a consumer asks for
	add("client/request", 0, 0, func(t *vs.T) {
		num := nums[t.Choose(len(nums))]
		hash := hashes[t.Choose(len(hashes))]
		from := &hx.Block{Num: num, Hash: hash, Weight: hx.W(1)}
		var reqs []map[string]any
		serve(t, "0x0", nil, &reqs)
		k := wconsumer(t, from, nil)
		k.start()
		if len(reqs) != 1 {
			t.Fail("%d requests", len(reqs))
		}
		v := reqs[0]
		p, _ := v["params"].([]any)
		if v["jsonrpc"] != "2.0" || v["method"] != "cardinal_subscribe" || v["id"] == nil || len(p) != 3 || p[0] != "streams" {
			t.Fail("the request is %v", v)
		}
		if n := jnum(t, p[1], "number"); n.Cmp(big.NewInt(num)) != 0 {
			t.Fail("stream requested from number %v instead of %d", n, num)
		}
		if h := jhash(t, p[2], "hash"); h != hash {
			t.Fail("stream requested from %v instead of %v", h, hash)
		}
		k.Close()
	})
	// what a consumer understands
	add("client/batch", 0, 0, func(t *vs.T) {
		b := &hx.Block{Num: root.Num + 1, Hash: hx.H("m1"), Parent: root.Hash, Weight: hx.W(root.Weight.Int64() + 1)}
		b.Upd = []map[string][]byte{nil, hx.U("k", "v"), hx.U("k", "", "ü\"", "\x00\xff")}[t.Choose(3)]
		dels := [][]string{nil, {"d"}, {"", "<"}}[t.Choose(3)]
		b.Del = hx.D(dels...)
		kv := head(b)
		kv = optional(t, kv, "values", jvalues(b.Upd), len(b.Upd) == 0, "{}")
		kv = optional(t, kv, "deletes", jlist(dels), len(dels) == 0, "[]")
		kv = optional(t, kv, "batches", "", true, "{}")
		outer := []string{"type", `"batch"`, "batch", order(t, kv)}
		texts := []string{order(t, outer), `{"type":"ready"}`}
		wireConsume(t, serve, ids[t.Choose(len(ids))], texts, b)
	})
	add("client/subbatch", 0, 0, func(t *vs.T) {
		s := hx.Sub{ID: []types.Hash{hx.H("ids"), {31: 1}}[t.Choose(2)]}
		s.Upd = []map[string][]byte{nil, hx.U("s/k", "v"), hx.U("s/k", "", "o", "\x00")}[t.Choose(3)]
		s.Del = [][]string{nil, {"s/d"}, {"x", ""}}[t.Choose(3)]
		b := &hx.Block{Num: root.Num + 1, Hash: hx.H("m1"), Parent: root.Hash, Weight: hx.W(root.Weight.Int64() + 1), Upd: hx.U("k", "v"), Subs: map[string]hx.Sub{"s/": s}}
		kv := append(head(b), "values", jvalues(b.Upd), "batches", jtext("s/", hexh(s.ID)))
		ann := jtext("batch", order(t, kv), "type", `"batch"`)
		kv = []string{"hash", hexh(b.Hash), "batchid", hexh(s.ID)}
		kv = optional(t, kv, "values", jvalues(s.Upd), len(s.Upd) == 0, "{}")
		kv = optional(t, kv, "deletes", jlist(s.Del), len(s.Del) == 0, "[]")
		part := order(t, []string{"type", `"subbatch"`, "subbatch", order(t, kv)})
		texts := []string{ann, part, `{"type":"ready"}`}
		if t.Choose(2) == 1 {
			texts[0], texts[1] = part, ann
		}
		wireConsume(t, serve, ids[t.Choose(len(ids))], texts, b)
	})
	add("client/reorg", 0, 0, func(t *vs.T) {
		n := []int64{root.Num, 0, 1<<53 + 1}[t.Choose(3)]
		h := hashes[t.Choose(len(hashes))]
		kv := []string{"number", jstr(fmt.Sprintf("0x%x", n)), "hash", hexh(h)}
		switch t.Choose(3) {
		case 1: // as this version writes it
			kv = append(kv, "weight", "null", "parent", hexh(types.Hash{}), "values", "null", "deletes", "null", "batches", "null")
		case 2:
			kv = append(kv, "weight", `"0x0"`, "values", "{}")
		}
		text := order(t, []string{"type", `"reorg"`, "batch", order(t, kv)})
		var reqs []map[string]any
		serve(t, ids[t.Choose(len(ids))], []string{text}, &reqs)
		k := wconsumer(t, root, nil)
		ch := make(chan map[int64]types.Hash, 4)
		k.SubscribeReorg(ch)
		k.start()
		vs.Settle()
		if len(ch) != 1 {
			t.Fail("%d notices for %s", len(ch), text)
		}
		if m := <-ch; len(m) != 1 || m[n] != h {
			t.Fail("notice %v for %s", m, text)
		}
		k.Close()
	})
	return out
}

func wireConsume(t *vs.T, serve func(t *vs.T, id string, texts []string, requests *[]map[string]any), id string, texts []string, b *hx.Block) {
	var reqs []map[string]any
	serve(t, id, texts, &reqs)
	k := wconsumer(t, root, []*hx.Block{b})
	ch := make(chan *delivery.PendingBatch, 10)
	k.Subscribe(ch)
	k.start()
	vs.Settle()
	k.drain()
	if len(k.got) != 1 || len(ch) != 1 {
		t.Fail("the block was not delivered from %s", texts)
	}
	select {
	case <-k.Ready():
	default:
		t.Fail("not ready after %s", texts)
	}
	k.Close()
	time.Sleep(2 * time.Second)
	if len(reqs) != 1 {
		t.Fail("%d requests", len(reqs))
	}
}
