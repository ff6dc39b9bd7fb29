// Package hx has the parts shared by the harnesses: block descriptions,
// message logs, reference models and recorders.
package hx

import (
	"bytes"
	"fmt"
	"math/big"
	"regexp"
	"sort"
	"strings"
	"time"

	"github.com/openrelayxyz/cardinal-streams/v2/delivery"
	"github.com/openrelayxyz/cardinal-types"
	"verif.local/vs"
)

// H makes a hash from a short name.
func H(name string) types.Hash {
	var h types.Hash
	copy(h[:], name)
	if name != "" {
		h[31] = 0x5a
	}
	return h
}

// N gives the short name back.
func N(h types.Hash) string {
	if h == (types.Hash{}) {
		return "0"
	}
	i := 0
	for i < 31 && h[i] != 0 {
		i++
	}
	return string(h[:i])
}

// Msg is a delivered message.
type Msg struct {
	K, V []byte
	Src  string
	Off  int64
	T    int64
}

func (m *Msg) Key() []byte     { return m.K }
func (m *Msg) Value() []byte   { return m.V }
func (m *Msg) Source() string  { return m.Src }
func (m *Msg) Offset() int64   { return m.Off }
func (m *Msg) Time() time.Time { return time.Unix(1600000000, m.T) }

func (m *Msg) String() string { return fmt.Sprintf("%v@%v:%x", m.Src, m.Off, short(m.K)) }

func short(b []byte) []byte {
	if len(b) > 6 {
		return b[:6]
	}
	return b
}

// Kind names a message for traces.
func Kind(m delivery.Message) string {
	k := m.Key()
	if len(k) < 33 {
		return fmt.Sprintf("%x", k)
	}
	names := []string{"hdr", "sbh", "sbm", "upd", "del", "reorg", "done"}
	n := fmt.Sprint(k[0])
	if int(k[0]) < len(names) {
		n = names[k[0]]
	}
	s := n + "(" + N(types.BytesToHash(k[1:33]))
	switch k[0] {
	case 1, 2:
		if len(k) >= 65 {
			s += "." + N(types.BytesToHash(k[33:65]))
		}
		if k[0] == 2 {
			s += fmt.Sprintf(".%x", k[65:])
		}
	case 3, 4:
		s += "." + string(k[33:])
	}
	return s + ")"
}

// Sub is the content of a sub-batch.
type Sub struct {
	ID  types.Hash
	Del []string
	Upd map[string][]byte
}

// Block is a published block.
type Block struct {
	Num    int64
	Hash   types.Hash
	Parent types.Hash
	Weight *big.Int
	Upd    map[string][]byte
	Del    map[string]struct{}
	Subs   map[string]Sub
}

func (b *Block) String() string {
	return fmt.Sprintf("%v#%v<-%v w%v", N(b.Hash), b.Num, N(b.Parent), b.Weight)
}

func U(kv ...string) map[string][]byte {
	m := map[string][]byte{}
	for i := 0; i+1 < len(kv); i += 2 {
		m[kv[i]] = []byte(kv[i+1])
	}
	return m
}

func D(k ...string) map[string]struct{} {
	m := map[string]struct{}{}
	for _, x := range k {
		m[x] = struct{}{}
	}
	return m
}

func (b *Block) BatchIDs() map[string]types.Hash {
	m := map[string]types.Hash{}
	for k, s := range b.Subs {
		m[k] = s.ID
	}
	return m
}

// Out is a produced message with its topic.
type Out struct {
	Topic string
	M     delivery.Message
}

// Flatten lists produced messages, topics in sorted order.
func Flatten(m map[string][]delivery.Message) []Out {
	var topics []string
	for t := range m {
		topics = append(topics, t)
	}
	sort.Strings(topics)
	var out []Out
	for _, t := range topics {
		for _, x := range m[t] {
			out = append(out, Out{t, x})
		}
	}
	return out
}

// Publish runs the producer for the block and its sub-batches.
func (b *Block) Publish(t *vs.T, p *delivery.Producer) []Out {
	upd, del := b.Upd, b.Del
	if upd == nil {
		upd = map[string][]byte{}
	}
	if del == nil {
		del = map[string]struct{}{}
	}
	ms, err := p.AddBlock(b.Num, b.Hash, b.Parent, b.Weight, upd, del, b.BatchIDs())
	if err != nil {
		t.Fail("publishing block %v was refused: %v", b, err)
	}
	out := Flatten(ms)
	var names []string
	for k := range b.Subs {
		names = append(names, k)
	}
	sort.Strings(names)
	for _, k := range names {
		s := b.Subs[k]
		ms, err := p.SendBatch(s.ID, s.Del, s.Upd)
		if err != nil {
			t.Fail("sending batch %v of block %v was refused: %v", N(s.ID), b, err)
		}
		out = append(out, Flatten(ms)...)
	}
	return out
}

// Log assigns offsets per topic.
type Log struct{ next map[string]int64 }

func (l *Log) Add(outs []Out) []*Msg {
	if l.next == nil {
		l.next = map[string]int64{}
	}
	var ms []*Msg
	for _, o := range outs {
		ms = append(ms, &Msg{K: o.M.Key(), V: o.M.Value(), Src: o.Topic + ":0", Off: l.next[o.Topic], T: int64(len(ms))})
		l.next[o.Topic]++
	}
	return ms
}

// Clone makes a fresh copy of a message (as a second delivery would).
func (m *Msg) Clone() *Msg {
	return &Msg{K: append([]byte(nil), m.K...), V: append([]byte(nil), m.V...), Src: m.Src, Off: m.Off, T: m.T}
}

// Content is what a consumer should see of a block.
func (b *Block) Content(tracked []*regexp.Regexp, prefixOf func(key string) string) (map[string][]byte, map[string]struct{}) {
	vals, dels := map[string][]byte{}, map[string]struct{}{}
	ok := func(k string) bool {
		p := k
		if prefixOf != nil {
			if q := prefixOf(k); q != "" {
				p = q
			}
		}
		for _, re := range tracked {
			if re.MatchString(p) {
				return true
			}
		}
		return false
	}
	for k, v := range b.Upd {
		if ok(k) {
			vals[k] = v
		}
	}
	for k := range b.Del {
		if ok(k) {
			dels[k] = struct{}{}
		}
	}
	for k, s := range b.Subs {
		keep := false
		for _, re := range tracked {
			if re.MatchString(k) {
				keep = true
			}
		}
		if keep {
			for k, v := range s.Upd {
				vals[k] = v
			}
			for _, k := range s.Del {
				dels[k] = struct{}{}
			}
		}
	}
	return vals, dels
}

// PrefixOf gives the announced prefix under which a key is sent (the text
// matched by the schema), as the producer documents it.
func PrefixOf(schema map[string]string) func(string) string {
	var res []*regexp.Regexp
	var ks []string
	for k := range schema {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		if !strings.HasPrefix(k, "^") {
			k = "^" + k
		}
		res = append(res, regexp.MustCompile(k))
	}
	return func(key string) string {
		for _, r := range res {
			if p := r.FindString(key); p != "" {
				return p
			}
		}
		return ""
	}
}

// Diff compares a completed block with the published one ("" if equal).
func Diff(pb *delivery.PendingBatch, b *Block, vals map[string][]byte, dels map[string]struct{}) string {
	if pb == nil {
		return "nil block"
	}
	if pb.Hash != b.Hash || pb.Number != b.Num || pb.ParentHash != b.Parent || pb.Weight == nil || pb.Weight.Cmp(b.Weight) != 0 {
		return fmt.Sprintf("identity is %v#%v<-%v w%v, published %v", N(pb.Hash), pb.Number, N(pb.ParentHash), pb.Weight, b)
	}
	return DiffContent(pb.Values, pb.Deletes, vals, dels)
}

func DiffContent(gv map[string][]byte, gd map[string]struct{}, vals map[string][]byte, dels map[string]struct{}) string {
	for _, k := range Keys(vals) {
		v, ok := gv[k]
		if !ok {
			return fmt.Sprintf("update %q is missing", k)
		}
		if !bytes.Equal(v, vals[k]) {
			return fmt.Sprintf("update %q has value %q, published %q", k, v, vals[k])
		}
	}
	for _, k := range Keys(gv) {
		if _, ok := vals[k]; !ok {
			return fmt.Sprintf("update %q was not published for this block or is not tracked", k)
		}
	}
	for _, k := range Keys(dels) {
		if _, ok := gd[k]; !ok {
			return fmt.Sprintf("delete %q is missing", k)
		}
	}
	for _, k := range Keys(gd) {
		if _, ok := dels[k]; !ok {
			return fmt.Sprintf("delete %q was not published for this block or is not tracked", k)
		}
	}
	return ""
}

// Keys of a map, sorted.
func Keys[V any](m map[string]V) []string {
	out := make([]string, 0, len(m))
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func Re(s ...string) []*regexp.Regexp {
	var out []*regexp.Regexp
	for _, x := range s {
		out = append(out, regexp.MustCompile(x))
	}
	return out
}

func W(n int64) *big.Int { return big.NewInt(n) }

// Perm enumerates the orders of n items through free choices.
func Perm(t *vs.T, n int) []int {
	left := make([]int, n)
	for i := range left {
		left[i] = i
	}
	out := make([]int, 0, n)
	for len(left) > 0 {
		i := t.Choose(len(left))
		out = append(out, left[i])
		left = append(left[:i], left[i+1:]...)
	}
	return out
}

// MultiPerm enumerates the distinct orders of a multiset: counts[i] copies of
// item i.
func MultiPerm(t *vs.T, counts []int) []int {
	c := append([]int(nil), counts...)
	total := 0
	for _, x := range c {
		total += x
	}
	out := make([]int, 0, total)
	for len(out) < total {
		var avail []int
		for i, x := range c {
			if x > 0 {
				avail = append(avail, i)
			}
		}
		i := avail[t.Choose(len(avail))]
		c[i]--
		out = append(out, i)
	}
	return out
}

// Merge enumerates the interleavings of sequences of the given lengths; the
// result lists which sequence the next item comes from.
func Merge(t *vs.T, lens []int) []int { return MultiPerm(t, lens) }

// Names of hashes of a list of blocks.
func Names(x []*delivery.PendingBatch) string {
	var s []string
	for _, pb := range x {
		if pb == nil {
			s = append(s, "nil")
			continue
		}
		s = append(s, N(pb.Hash))
	}
	return strings.Join(s, ",")
}

// Narrow adds variants of the scenarios in which the queues of the code (and of
// its peers) that normally take hundreds of elements take only q.
func Narrow(scs []*vs.Scenario, q int, names ...string) []*vs.Scenario {
	for _, s := range scs {
		for _, n := range names {
			if strings.HasPrefix(s.Name, n) {
				c := *s
				c.Name = fmt.Sprintf("narrow%d/%s", q, s.Name)
				c.Opts.Queues = q
				scs = append(scs, &c)
				break
			}
		}
	}
	return scs
}
