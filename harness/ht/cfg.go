package main

import (
	"bytes"
	"crypto/hmac"
	"crypto/sha256"
	"crypto/sha512"
	"encoding/base64"
	"encoding/binary"
	"fmt"
	"hash"
	"net/url"
	"reflect"
	"strings"
	"time"

	"github.com/Shopify/sarama"
	"github.com/gorilla/websocket"
	rpct "github.com/openrelayxyz/cardinal-rpc/transports"
	"github.com/openrelayxyz/cardinal-streams/v2/delivery"
	"github.com/openrelayxyz/cardinal-streams/v2/transports"
	"github.com/openrelayxyz/cardinal-streams/v2/waiter"
	"github.com/openrelayxyz/cardinal-types"
	"verif.local/h/hx"
	"verif.local/vs"
)

// An option of a broker URL: its name, values, and what they set.
type urlOption struct {
	name   string
	values []string
	set    func(v string, c *sarama.Config)
}

var urlOptions = []urlOption{
	{"tls", []string{"1", "0", "x"}, func(v string, c *sarama.Config) { c.Net.TLS.Enable = v == "1" }},
	{"fetch.default", []string{"12345", "x", "2147483647"}, func(v string, c *sarama.Config) {
		switch v {
		case "12345":
			c.Consumer.Fetch.Default = 12345
		case "2147483647":
			c.Consumer.Fetch.Default = 2147483647
		}
	}},
	{"max.waittime", []string{"700", "x"}, func(v string, c *sarama.Config) {
		if v == "700" {
			c.Consumer.MaxWaitTime = 700 * time.Millisecond
		}
	}},
	{"compression.codec", []string{"gzip", "none", "lz4", "zstd", "snappy", "bogus"}, func(v string, c *sarama.Config) {
		c.Producer.Compression = map[string]sarama.CompressionCodec{"gzip": sarama.CompressionGZIP, "none": sarama.CompressionNone,
			"lz4": sarama.CompressionLZ4, "zstd": sarama.CompressionZSTD, "snappy": sarama.CompressionSnappy, "bogus": sarama.CompressionSnappy}[v]
	}},
	{"message.send.max.retries", []string{"0", "7", "x"}, func(v string, c *sarama.Config) {
		c.Producer.Retry.Max = map[string]int{"0": 0, "7": 7, "x": 100}[v]
	}},
	{"request.required.acks", []string{"0", "1", "-1", "x"}, func(v string, c *sarama.Config) {
		c.Producer.RequiredAcks = map[string]sarama.RequiredAcks{"0": sarama.NoResponse, "1": sarama.WaitForLocal, "-1": sarama.WaitForAll, "x": sarama.WaitForAll}[v]
	}},
	{"retry.backoff.ms", []string{"7", "0", "x"}, func(v string, c *sarama.Config) {
		switch v {
		case "7":
			c.Producer.Retry.Backoff = 7 * time.Millisecond
		case "0":
			c.Producer.Retry.Backoff = 0
		}
	}},
	{"net.maxopenrequests", []string{"1", "9", "x"}, func(v string, c *sarama.Config) {
		switch v {
		case "1":
			c.Net.MaxOpenRequests = 1
		case "9":
			c.Net.MaxOpenRequests = 9
		}
	}},
	{"idempotent", []string{"1", "0"}, func(v string, c *sarama.Config) { c.Producer.Idempotent = v == "1" }},
	{"unknown", []string{"1"}, func(v string, c *sarama.Config) {}},
}

// Users in URLs and what they mean.
var urlUsers = []struct{ in, user, pass string }{
	{"", "", ""},
	{"u@", "u", ""},
	{"u:p@", "u", "p"},
	{"user%40example.com:p%2Fa%3As%23%3F@", "user@example.com", "p/a:s#?"},
	{"u:a%20b=,c@", "u", "a b=,c"},
}

var urlMechanisms = []string{"", "SCRAM-SHA-256", "SCRAM-SHA-512", "GSSAPI", "PLAIN"}

var urlHosts = [][]string{{"b1:9092"}, {"b1:9092", "b2:9093", "b3:9094"}, {"10.0.0.1"}}

func parseURL(t *vs.T, u string) (hosts []string, c *sarama.Config) {
	defer func() {
		if e := recover(); e != nil {
			t.Fail("parsing %q panicked: %v", u, e)
		}
	}()
	return transports.ParseKafkaURL(u)
}

// checkURL parses a URL and compares with what its parts mean.
func checkURL(t *vs.T, prefix string, hosts []string, user, mech int, opts [][2]int, backwards bool) {
	want := sarama.NewConfig()
	want.Version = sarama.V2_5_0_0
	want.Producer.Compression = sarama.CompressionSnappy
	want.Producer.Retry.Max = 100
	want.Producer.RequiredAcks = sarama.WaitForAll
	var q []string
	for _, o := range opts {
		op := urlOptions[o[0]]
		q = append(q, op.name+"="+op.values[o[1]])
		op.set(op.values[o[1]], want)
	}
	if m := urlMechanisms[mech]; m != "" {
		q = append(q, "sasl.mechanism="+m)
		if m != "PLAIN" {
			want.Net.SASL.Mechanism = sarama.SASLMechanism(m)
		}
	}
	if backwards {
		for i, j := 0, len(q)-1; i < j; i, j = i+1, j-1 {
			q[i], q[j] = q[j], q[i]
		}
	}
	if us := urlUsers[user]; us.in != "" {
		want.Net.SASL.Enable, want.Net.SASL.User, want.Net.SASL.Password = true, us.user, us.pass
	}
	u := prefix + urlUsers[user].in + strings.Join(hosts, ",")
	if len(q) > 0 {
		u += "?" + strings.Join(q, "&")
		if backwards {
			u = prefix + urlUsers[user].in + strings.Join(hosts, ",") + "/?" + strings.Join(q, "&")
		}
	}
	got, c := parseURL(t, u)
	if !reflect.DeepEqual(got, hosts) {
		t.Fail("the brokers of %q are %q", u, got)
	}
	gen := c.Net.SASL.SCRAMClientGeneratorFunc
	if scram := mech == 1 || mech == 2; (gen != nil) != scram {
		t.Fail("%q: a SCRAM client is configured: %v", u, gen != nil)
	}
	d := *c
	d.Net.SASL.SCRAMClientGeneratorFunc = nil
	if !reflect.DeepEqual(&d, want) {
		t.Fail("the configuration of %q is %s", u, confDiff(reflect.ValueOf(d), reflect.ValueOf(*want), ""))
	}
}

// confDiff names the fields in which configurations differ.
func confDiff(a, b reflect.Value, name string) string {
	if a.Kind() == reflect.Struct {
		s := ""
		for i := 0; i < a.NumField(); i++ {
			s += confDiff(a.Field(i), b.Field(i), name+"."+a.Type().Field(i).Name)
		}
		return s
	}
	if x, y := fmt.Sprint(a), fmt.Sprint(b); x != y {
		return fmt.Sprintf("%s=%s instead of %s ", name, x, y)
	}
	return ""
}

// scramServer is the server's side of RFC 5802.
type scramServer struct {
	h          func() hash.Hash
	user, pass string
	iter       int
	nonce      string
	serverSig  []byte
	first      string
	bare       string
}

func (s *scramServer) mac(key, data []byte) []byte {
	m := hmac.New(s.h, key)
	m.Write(data)
	return m.Sum(nil)
}

func (s *scramServer) salted(salt []byte) []byte {
	u := s.mac([]byte(s.pass), append(append([]byte(nil), salt...), binary.BigEndian.AppendUint32(nil, 1)...))
	r := append([]byte(nil), u...)
	for i := 1; i < s.iter; i++ {
		u = s.mac([]byte(s.pass), u)
		for j := range r {
			r[j] ^= u[j]
		}
	}
	return r
}

var scramSalt = []byte("salt of the user")

// begin answers the client's first message.
func (s *scramServer) begin(m string) (string, error) {
	if !strings.HasPrefix(m, "n,,") {
		return "", fmt.Errorf("first message %q", m)
	}
	s.bare = m[3:]
	i := strings.Index(s.bare, ",r=")
	if !strings.HasPrefix(s.bare, "n=") || i < 0 || len(s.bare) < i+3+8 {
		return "", fmt.Errorf("first message %q", m)
	}
	name := strings.NewReplacer("=2C", ",", "=3D", "=").Replace(s.bare[2:i])
	if name != s.user {
		return "", fmt.Errorf("user %q", name)
	}
	s.nonce = s.bare[i+3:] + "server"
	s.first = fmt.Sprintf("r=%s,s=%s,i=%d", s.nonce, base64.StdEncoding.EncodeToString(scramSalt), s.iter)
	return s.first, nil
}

// finish checks the client's proof.
func (s *scramServer) finish(m string) (string, error) {
	i := strings.LastIndex(m, ",p=")
	if i < 0 || m[:i] != "c=biws,r="+s.nonce {
		return "", fmt.Errorf("final message %q", m)
	}
	proof, err := base64.StdEncoding.DecodeString(m[i+3:])
	if err != nil {
		return "", err
	}
	sp := s.salted(scramSalt)
	auth := []byte(s.bare + "," + s.first + "," + m[:i])
	client := s.mac(sp, []byte("Client Key"))
	h := s.h()
	h.Write(client)
	sig := s.mac(h.Sum(nil), auth)
	for j := range sig {
		sig[j] ^= client[j]
	}
	if !bytes.Equal(sig, proof) {
		return "", fmt.Errorf("wrong proof")
	}
	return "v=" + base64.StdEncoding.EncodeToString(s.mac(s.mac(sp, []byte("Server Key")), auth)), nil
}

// scram runs the exchange as the client library does; it reports whether the
// server accepted the client, and the client's error.
func scram(gen func() sarama.SCRAMClient, user, pass string, s *scramServer, forge string) (accepted bool, err error) {
	cl := gen()
	if err := cl.Begin(user, pass, ""); err != nil {
		return false, err
	}
	m, err := cl.Step("")
	if err != nil {
		return false, err
	}
	answer, err := s.begin(m)
	if err != nil {
		return false, nil
	}
	if forge == "nonce" {
		answer = "r=x" + answer[2:]
	}
	if m, err = cl.Step(answer); err != nil {
		return false, err
	}
	if cl.Done() {
		return false, fmt.Errorf("done before the server authenticated itself")
	}
	if answer, err = s.finish(m); err != nil {
		return false, nil
	}
	switch forge {
	case "signature":
		answer = "v=" + base64.StdEncoding.EncodeToString(bytes.Repeat([]byte{7}, s.h().Size()))
	case "error":
		answer = "e=other-error"
	}
	if _, err = cl.Step(answer); err != nil {
		return true, err
	}
	if !cl.Done() {
		return true, fmt.Errorf("not done after the exchange")
	}
	return true, nil
}

// scramSteps is the exchange of one connection as a list of steps, so that the
// exchanges of several connections can be interleaved.
func scramSteps(gen func() sarama.SCRAMClient, s *scramServer) []func() error {
	var cl sarama.SCRAMClient
	var m string
	step := func(serve func(string) (string, error)) func() error {
		return func() (err error) {
			if m, err = cl.Step(m); err == nil && serve != nil {
				m, err = serve(m)
			}
			return err
		}
	}
	return []func() error{
		func() error { cl = gen(); return nil },
		func() error { return cl.Begin(s.user, s.pass, "") },
		step(s.begin),
		step(s.finish),
		step(nil),
		func() error {
			if !cl.Done() {
				return fmt.Errorf("not done after the exchange")
			}
			return nil
		},
	}
}

// entries are the functions that take a broker URL.
var entries = []struct {
	name string
	prod bool
	call func(u string) (any, error)
}{
	{"ResolveProducer", true, func(u string) (any, error) { p, err := transports.ResolveProducer(u, "main", kschema); return p, err }},
	{"ResolveProducerWithResumer", true, func(u string) (any, error) {
		p, err := transports.ResolveProducerWithResumer(u, "main", kschema, &resumer{chain: []*hx.Block{root}})
		return p, err
	}},
	{"ResolveMuxProducer", true, func(u string) (any, error) {
		p, err := transports.ResolveMuxProducer([]transports.ProducerBrokerParams{{URL: u, DefaultTopic: "main", Schema: kschema}}, &resumer{chain: []*hx.Block{root}})
		return p, err
	}},
	{"ResolveConsumer", false, func(u string) (any, error) {
		c, err := transports.ResolveConsumer(u, "main", []string{"main", "state", "subs"}, nil, 0, kcfg(root))
		return c, err
	}},
	{"ResolveMuxConsumer", false, func(u string) (any, error) {
		c, err := transports.ResolveMuxConsumer([]transports.BrokerParams{{URL: u, DefaultTopic: "main", Topics: []string{"main", "state", "subs"}}}, nil, kcfg(root))
		return c, err
	}},
	{"ResumptionForTimestamp", false, func(u string) (any, error) {
		b, err := transports.ResumptionForTimestamp([]transports.BrokerParams{{URL: u, DefaultTopic: "main", Topics: []string{"main", "state", "subs"}}}, 0)
		return b, err
	}},
	{"CreateTopicIfDoesNotExist", true, func(u string) (any, error) {
		return nil, transports.CreateTopicIfDoesNotExist(u, "main", -1, nil)
	}},
}

// p37: broker URLs and configuration
func p37(tier string) []*vs.Scenario {
	var out []*vs.Scenario
	add := func(name string, quick, deep int, f func(t *vs.T)) {
		out = append(out, &vs.Scenario{Name: name, Quick: quick, Deep: deep, Run: f})
	}
	prefixes := []string{"kafka://", ""}
	// every pair of option values, alone with every user, mechanism and list
	add("url/pairs", 0, 0, func(t *vs.T) {
		pre, h, us, me := prefixes[t.Choose(2)], urlHosts[t.Choose(3)], t.Choose(len(urlUsers)), t.Choose(len(urlMechanisms))
		n := 0
		checkURL(t, pre, h, us, me, nil, false)
		for i := range urlOptions {
			for v := range urlOptions[i].values {
				checkURL(t, pre, h, us, me, [][2]int{{i, v}}, false)
				for j := i + 1; j < len(urlOptions); j++ {
					for w := range urlOptions[j].values {
						for _, back := range []bool{false, true} {
							checkURL(t, pre, h, us, me, [][2]int{{i, v}, {j, w}}, back)
							n++
						}
					}
				}
			}
		}
		t.Obs("%d pairs", n)
	})
	if tier == "thorough" {
		add("url/all", 0, 0, func(t *vs.T) {
			us, me := t.Choose(len(urlUsers)), t.Choose(len(urlMechanisms))
			first := t.Choose(len(urlOptions[0].values) + 1)
			second := t.Choose(len(urlOptions[1].values) + 1)
			n := 0
			var rec func(i int, opts [][2]int)
			rec = func(i int, opts [][2]int) {
				if i == len(urlOptions)-1 {
					checkURL(t, "kafka://", urlHosts[1], us, me, opts, n%2 == 1)
					n++
					return
				}
				if i == 0 && first > 0 || i == 1 && second > 0 {
					v := []int{first, second}[i] - 1
					rec(i+1, append(opts[:len(opts):len(opts)], [2]int{i, v}))
					return
				}
				rec(i+1, opts)
				if i < 2 {
					return
				}
				for v := range urlOptions[i].values {
					rec(i+1, append(opts[:len(opts):len(opts)], [2]int{i, v}))
				}
			}
			rec(0, nil)
			t.Obs("%d", n)
		})
	}
	// the SASL exchange with a server
	add("scram", 0, 0, func(t *vs.T) {
		users := []string{"u", "user@example.com", "a=b,c"}
		passes := []string{"p", "", "p/a:s#?", "pässwörd", strings.Repeat("long", 50)}
		mech := t.Choose(2)
		user, pass := users[t.Choose(len(users))], passes[t.Choose(len(passes))]
		h := []func() hash.Hash{sha256.New, sha512.New}[mech]
		iter := []int{4096, 5000}[t.Choose(2)]
		_, c := parseURL(t, "kafka://"+url.UserPassword(user, pass).String()+"@b1:9092?sasl.mechanism="+urlMechanisms[mech+1])
		gen := c.Net.SASL.SCRAMClientGeneratorFunc
		if gen == nil || c.Net.SASL.User != user || c.Net.SASL.Password != pass {
			t.Fail("user %q and password %q became %q and %q", user, pass, c.Net.SASL.User, c.Net.SASL.Password)
		}
		kind := []string{"", "nonce", "signature", "error", "password", "twice"}[t.Choose(6)]
		s := &scramServer{h: h, user: user, pass: pass, iter: iter}
		if kind == "password" {
			s.pass += "x"
		}
		t.Obs("%s", kind)
		ok, err := scram(gen, c.Net.SASL.User, c.Net.SASL.Password, s, kind)
		if pass == "" && err != nil {
			return // the library may refuse empty passwords
		}
		switch kind {
		case "", "twice":
			if !ok || err != nil {
				t.Fail("user %q with password %q is refused by the server (%v), error of the client: %v", user, pass, !ok, err)
			}
			if kind == "twice" { // a second connection
				s2 := &scramServer{h: h, user: user, pass: pass, iter: iter}
				if ok, err := scram(gen, user, pass, s2, ""); !ok || err != nil {
					t.Fail("the second connection is refused (%v): %v", !ok, err)
				}
				if s.nonce == s2.nonce {
					t.Fail("two connections use the same nonce %v", s.nonce)
				}
			}
		case "password":
			if ok {
				t.Fail("a wrong password is accepted")
			}
		default:
			if err == nil {
				t.Fail("a server with a wrong %s is accepted", kind)
			}
		}
	})
	// brokers that are connected to at the same time
	add("scram-interleaved", 0, 0, func(t *vs.T) {
		mech := t.Choose(2)
		h := []func() hash.Hash{sha256.New, sha512.New}[mech]
		_, c := parseURL(t, "kafka://u:p@b1:9092?sasl.mechanism="+urlMechanisms[mech+1])
		var left [2][]func() error
		for i := range left {
			left[i] = scramSteps(c.Net.SASL.SCRAMClientGeneratorFunc, &scramServer{h: h, user: "u", pass: "p", iter: 4096})
		}
		for len(left[0])+len(left[1]) > 0 {
			i := 0
			if len(left[0]) == 0 || len(left[1]) > 0 && t.Choose(2) == 1 {
				i = 1
			}
			f := left[i][0]
			left[i] = left[i][1:]
			if err := f(); err != nil {
				t.Fail("connection %d fails with %d and %d steps left: %v", i, len(left[0]), len(left[1]), err)
			}
		}
	})
	// URLs that cannot be used
	bad := []string{"kafka://u:p/w@b1:9092", "kafka://b1:9092,b2:x", "kafka://b1:9092\x7f", "kafka://%zz:9092", "kafka://b1:port",
		"kafka://u:p@ss#x:1@b1:9092?%", "http://b1:9092", "b1:9092", "", "cardinal://", "cardinal://http://b1:9092", "kafka//b1",
		"ws://node", "ws://node:x", "KAFKA://b1:9092", "null//", "file:///x"}
	for i := range entries {
		e := entries[i]
		add("malformed/"+e.name, 0, 0, func(t *vs.T) {
			sarama.Reset()
			websocket.Reset()
			rpct.Reset()
			u := bad[t.Choose(len(bad))]
			if t.Choose(2) == 1 {
				u = "cardinal://" + u
			}
			if strings.HasPrefix(strings.TrimPrefix(u, "cardinal://"), "ws://") && strings.HasSuffix(e.name, "Consumer") {
				return // fails when it connects
			}
			if e.name == "CreateTopicIfDoesNotExist" && !strings.HasPrefix(u, "kafka://") {
				return // takes lists of brokers too
			}
			var err error
			func() {
				defer func() {
					if x := recover(); x != nil {
						t.Fail("%s(%q) panicked: %v", e.name, u, x)
					}
				}()
				_, err = e.call(u)
			}()
			t.Obs("%v", err != nil)
			strange := u == "kafka://u:p@ss#x:1@b1:9092?%" || u == "cardinal://kafka://u:p@ss#x:1@b1:9092?%"
			if err == nil && !strange {
				t.Fail("%s(%q) succeeded", e.name, u)
			}
			if k := sarama.Known(); len(k) > 0 && !strange {
				t.Fail("%s(%q) connected to %q", e.name, u, k)
			}
		})
	}
	// what every scheme leads to
	for i := range entries {
		e := entries[i]
		add("schemes/"+e.name, 0, 0, func(t *vs.T) {
			schemes := []string{"kafka", "ws", "wss", "null"}
			scheme := schemes[t.Choose(4)]
			u := map[string]string{"kafka": "kafka://b1:9092,b2:9092", "ws": "ws://node:8555", "wss": "wss://node:8555", "null": "null://x"}[scheme]
			full := u
			if t.Choose(2) == 1 {
				full = "cardinal://" + u
			}
			if e.name == "CreateTopicIfDoesNotExist" && (scheme != "kafka" || full != u) {
				return
			}
			sarama.Reset()
			cl := sarama.At("b1:9092,b2:9092")
			bs := chain(root, 2, "m", true)
			var r *resumer
			var p transports.Producer
			switch {
			case scheme == "kafka" && !e.prod:
				p = nil
				if x, err := transports.NewKafkaProducer(u, "main", kschema); err == nil {
					p = x
				}
			case scheme == "ws" || scheme == "wss":
				if !e.prod {
					r, p = wfresh(t)
				} else {
					websocket.Reset()
					rpct.Reset()
				}
			}
			before := cl.Clients
			x, err := e.call(full)
			allowed := map[string]bool{"kafka": true}
			switch e.name {
			case "ResolveProducerWithResumer", "ResolveMuxProducer":
				allowed["ws"], allowed["wss"] = true, true
			case "ResolveConsumer", "ResolveMuxConsumer":
				allowed["ws"], allowed["wss"], allowed["null"] = true, true, true
			case "ResumptionForTimestamp":
				allowed["null"] = true
			}
			if !allowed[scheme] {
				if err == nil {
					t.Fail("%s(%q) succeeded", e.name, full)
				}
				t.Obs("refused")
				return
			}
			if err != nil {
				t.Fail("%s(%q): %v", e.name, full, err)
			}
			t.Obs("%s", scheme)
			if k := sarama.Known(); len(k) != 1 {
				t.Fail("%s(%q) connected to %q", e.name, full, k)
			}
			if used := cl.Clients > before; used != (scheme == "kafka") {
				t.Fail("%s(%q) connected to Kafka: %v", e.name, full, used)
			}
			switch v := x.(type) {
			case transports.Producer:
				var c transports.Consumer
				var err error
				if scheme == "kafka" {
					c, err = transports.NewKafkaConsumer(u, "main", []string{"main", "state", "subs"}, nil, 0, kcfg(root))
				} else {
					c, err = transports.ResolveConsumer(u, "main", nil, nil, 0, kcfg(root))
				}
				k := newConsumer(t, c, err, bs)
				k.start()
				k.settle(2 * time.Second)
				for _, b := range bs {
					wadd(t, nil, v, b)
				}
				k.settle(5 * time.Second)
				k.expect(2, "through the producer of "+full)
				k.Close()
			case transports.Consumer:
				if scheme == "null" {
					nullChecks(t, v, full)
					return
				}
				k := newConsumer(t, v, nil, bs)
				k.start()
				k.settle(2 * time.Second)
				for _, b := range bs {
					wadd(t, r, p, b)
				}
				k.settle(5 * time.Second)
				k.expect(2, "to the consumer of "+full)
				if !isReady(k, 0) {
					t.Fail("the consumer of %q is not ready", full)
				}
				k.Close()
			case []byte:
				if scheme == "null" && len(v) != 0 {
					t.Fail("the resumption of %q is %q", full, v)
				}
				if n := bytes.Count(v, []byte("=")); scheme == "kafka" && n != 6 {
					t.Fail("the resumption of %q is %q", full, v)
				}
			}
		})
	}
	add("null", 0, 0, func(t *vs.T) { nullChecks(t, transports.NewNullConsumer(), "null") })
	// the topics of a producer
	add("topics", 0, 0, func(t *vs.T) {
		sarama.Reset()
		cl := sarama.At(kaddr)
		cl.NBrokers = 1 + t.Choose(5)
		parts := []int32{-1, 0, 1, 5}[t.Choose(4)]
		exist := []int{0, 1, 3}[t.Choose(3)]
		if exist > 0 {
			cl.AddTopic("main", exist)
			cl.Created = nil
		}
		var entries map[string]*string
		retention := "86400000"
		kind := t.Choose(3)
		switch kind {
		case 1:
			entries = map[string]*string{}
		case 2:
			entries = map[string]*string{"retention.ms": &retention}
		}
		name := []string{"main", ""}[t.Choose(2)]
		err := transports.CreateTopicIfDoesNotExist(kurl, name, parts, entries)
		if name == "" {
			if err == nil || len(cl.Created) > 0 {
				t.Fail("a topic without name: error %v, created %q", err, cl.Created)
			}
			return
		}
		if err != nil {
			t.Fail("creating a topic: %v", err)
		}
		if exist > 0 {
			if len(cl.Created) > 0 || len(cl.Topics["main"]) != exist {
				t.Fail("a topic with %d partitions was replaced by one with %d", exist, len(cl.Topics["main"]))
			}
			return
		}
		if len(cl.Created) != 1 || cl.Created[0] != "main" {
			t.Fail("created topics: %q", cl.Created)
		}
		d := cl.Details["main"]
		n, f := parts, cl.NBrokers
		if n <= 0 {
			n = int32(2 * cl.NBrokers)
		}
		if f > 3 {
			f = 3
		}
		want := map[string]string{"max.message.bytes": "10000024"}
		if kind == 2 {
			want["retention.ms"] = retention
		}
		got := map[string]string{}
		for k, v := range d.ConfigEntries {
			if v != nil {
				got[k] = *v
			}
		}
		if d.NumPartitions != n || int(d.ReplicationFactor) != f || !reflect.DeepEqual(got, want) || len(d.ReplicaAssignment) > 0 {
			t.Fail("with %d brokers and %d partitions asked for, the topic was created with %d partitions, replication %d, %v", cl.NBrokers, parts, d.NumPartitions, d.ReplicationFactor, got)
		}
		t.Obs("%d %d", n, f)
	})
	add("topics/failing", 0, 0, func(t *vs.T) {
		sarama.Reset()
		cl := sarama.At(kaddr)
		op, topic := []string{"metadata", "create"}[t.Choose(2)], []string{"main", "state", "subs"}[t.Choose(3)]
		fail := []error{fmt.Errorf("connection lost"), sarama.ErrPolicyViolation}[t.Choose(2)]
		hit := false
		cl.Admin = func(o, x string) error {
			if o == op && x == topic && !hit {
				hit = true
				return fail
			}
			return nil
		}
		direct := t.Choose(2) == 1
		var err error
		if direct {
			err = transports.CreateTopicIfDoesNotExist(kurl, topic, -1, nil)
		} else {
			_, err = transports.NewKafkaProducer(kurl, "main", kschema)
		}
		if err == nil {
			t.Fail("the error %v of the %s request for topic %s is not reported", fail, op, topic)
		}
		// and once it works again, the rest is made
		if _, err := transports.NewKafkaProducer(kurl, "main", kschema); err != nil {
			t.Fail("creating a producer after a failure: %v", err)
		}
		for _, x := range []string{"main", "state", "subs"} {
			if len(cl.Topics[x]) != 2 {
				t.Fail("topic %s has %d partitions", x, len(cl.Topics[x]))
			}
		}
	})
	// two producers are started with a new cluster at the same time
	add("topics/together", 1, 3, func(t *vs.T) {
		t.Explore(false)
		sarama.Reset()
		cl := sarama.At(kaddr)
		cl.Admin = func(op, topic string) error {
			c := make(chan bool, 1)
			c <- true
			<-c
			return nil
		}
		ps := make([]transports.Producer, 2)
		done := make(chan error, 2)
		t.Explore(true)
		for i := range ps {
			i := i
			go func() {
				var err error
				ps[i], err = transports.NewKafkaProducer(kurl, "main", kschema)
				done <- err
			}()
		}
		for range ps {
			if err := <-done; err != nil {
				t.Fail("one of two producers started together: %v", err)
			}
		}
		t.Explore(false)
		t.Obs("%q", cl.Created)
		for _, x := range []string{"main", "state", "subs"} {
			if len(cl.Topics[x]) != 2 {
				t.Fail("topic %s has %d partitions", x, len(cl.Topics[x]))
			}
		}
		bs := chain(root, 2, "m", true)
		for i, b := range bs {
			publish(t, ps[i], b)
		}
		vs.Settle()
		consumeAll(t, bs)
	})
	// brokers that demand everything the URL says
	for _, mech := range []string{"", "SCRAM-SHA-256", "SCRAM-SHA-512"} {
		mech := mech
		add("demands/"+mech, 0, 0, func(t *vs.T) {
			sarama.Reset()
			cl := sarama.At(kaddr)
			cl.Admit = func(c *sarama.Config) bool {
				ok := c.Net.TLS.Enable && c.Net.SASL.Enable && c.Net.SASL.User == "u" && c.Net.SASL.Password == "p" && c.Version == sarama.V2_5_0_0
				if mech != "" {
					gen := c.Net.SASL.SCRAMClientGeneratorFunc
					h := sha256.New
					if mech == "SCRAM-SHA-512" {
						h = sha512.New
					}
					ok = ok && gen != nil && string(c.Net.SASL.Mechanism) == mech
					if ok {
						acc, err := scram(gen, c.Net.SASL.User, c.Net.SASL.Password, &scramServer{h: h, user: "u", pass: "p", iter: 4096}, "")
						ok = acc && err == nil
					}
				}
				return ok
			}
			var confs []*sarama.Config
			admit := cl.Admit
			cl.Admit = func(c *sarama.Config) bool {
				confs = append(confs, c)
				return admit(c)
			}
			opts := "compression.codec=zstd&request.required.acks=1&message.send.max.retries=9&retry.backoff.ms=44&fetch.default=777&max.waittime=70"
			if mech != "" {
				opts += "&sasl.mechanism=" + mech
			}
			good := "kafka://u:p@b1:9092/?tls=1&" + opts
			wrong := []string{"kafka://u:p@b1:9092/?" + opts, "kafka://u:x@b1:9092/?tls=1&" + opts, "kafka://b1:9092/?tls=1&" + opts, "kafka://x:p@b1:9092/?tls=1&" + opts}
			topics := []string{"main", "state", "subs"}
			route := t.Choose(3) // direct, resolved, several brokers
			card := ""
			if route > 0 {
				card = []string{"", "cardinal://"}[t.Choose(2)]
			}
			producer := func(u string) (transports.Producer, error) {
				switch route {
				case 0:
					return transports.NewKafkaProducer(u, "main", kschema)
				case 1:
					return transports.ResolveProducer(card+u, "main", kschema)
				}
				return transports.ResolveMuxProducer([]transports.ProducerBrokerParams{{URL: card + u, DefaultTopic: "main", Schema: kschema}}, nil)
			}
			consumer := func(u string, tok []byte, from *hx.Block) (transports.Consumer, error) {
				switch route {
				case 0:
					return transports.NewKafkaConsumer(u, "main", topics, tok, 5, kcfg(from))
				case 1:
					return transports.ResolveConsumer(card+u, "main", topics, tok, 5, kcfg(from))
				}
				return transports.ResolveMuxConsumer([]transports.BrokerParams{{URL: card + u, DefaultTopic: "main", Topics: topics, Rollback: 5}}, tok, kcfg(from))
			}
			bp := func(u string) []transports.BrokerParams {
				return []transports.BrokerParams{{URL: card + u, DefaultTopic: "main", Topics: topics}}
			}
			p, err := producer(good)
			if err != nil {
				t.Fail("producer: %v", err)
			}
			bs := chain(root, 4, "m", true)
			publish(t, p, bs[0])
			publish(t, p, bs[1])
			vs.Settle()
			if n, err := p.LatestBlockFromFeed(); err != nil || n != bs[1].Num {
				t.Fail("the latest block is %d (%v)", n, err)
			}
			c, err := consumer(good, nil, root)
			k := newConsumer(t, c, err, bs)
			k.start()
			k.settle(3 * time.Second)
			k.expect(2, "from the beginning")
			tok := k.got[1].Resumption()
			publish(t, p, bs[2])
			k.settle(3 * time.Second)
			k.expect(3, "live")
			k.Close()
			c, err = consumer(good, []byte(tok), bs[1])
			k = newConsumer(t, c, err, bs[2:])
			k.start()
			k.settle(3 * time.Second)
			k.expect(1, "after a restart")
			publish(t, p, bs[3])
			k.settle(3 * time.Second)
			k.expect(2, "live after a restart")
			k.Close()
			if _, err := transports.ResumptionForTimestamp(bp(good), 0); err != nil {
				t.Fail("resumption by time: %v", err)
			}
			for _, c := range confs {
				if c.Producer.Compression != sarama.CompressionZSTD || c.Producer.RequiredAcks != sarama.WaitForLocal || c.Producer.Retry.Max != 9 || c.Producer.Retry.Backoff != 44*time.Millisecond ||
					c.Consumer.Fetch.Default != 777 || c.Consumer.MaxWaitTime != 70*time.Millisecond || !c.Producer.Return.Errors {
					t.Fail("a client was made with a configuration that is not the one of the URL")
				}
			}
			for _, u := range wrong {
				if _, err := producer(u); err == nil {
					t.Fail("a producer for %q was made though the brokers refuse it", u)
				}
				if c, err := consumer(u, nil, root); err == nil {
					if err := c.Start(); err == nil {
						t.Fail("a consumer for %q was started though the brokers refuse it", u)
					}
				}
				if _, err := transports.ResumptionForTimestamp(bp(u), 0); err == nil {
					t.Fail("resumption by time for %q succeeded though the brokers refuse it", u)
				}
			}
			t.Obs("%d clients", len(confs))
		})
	}
	// messages of almost 10 MB pass through topics made by the producer
	add("large", 0, 0, func(t *vs.T) {
		sarama.Reset()
		cl := sarama.At(kaddr)
		p, err := transports.NewKafkaProducer(kurl, "main", kschema)
		if err != nil {
			t.Fail("producer: %v", err)
		}
		big := bytes.Repeat([]byte{0xab}, []int{900000, 1000100, 1048600, 5000000, 9999800}[t.Choose(5)])
		b := &hx.Block{Num: root.Num + 1, Hash: hx.H("big"), Parent: root.Hash, Weight: hx.W(root.Weight.Int64() + 1), Upd: map[string][]byte{}}
		switch t.Choose(3) {
		case 0:
			b.Upd = map[string][]byte{"s/big": big}
		case 1:
			b.Upd = map[string][]byte{"other": big}
		case 2:
			b.Subs = map[string]hx.Sub{"sub": {ID: hx.H("sub"), Upd: map[string][]byte{"sub/x": big}}}
		}
		publish(t, p, b)
		vs.Settle()
		time.Sleep(time.Second)
		vs.Settle()
		if m := missing(t, cl, kschema, b); m != "" {
			t.Fail("the %s of a block with a value of %d bytes is not in the topics", m, len(big))
		}
		consumeAll(t, []*hx.Block{b})
	})
	return out
}

// nullChecks uses a consumer of nothing.
func nullChecks(t *vs.T, c transports.Consumer, u string) {
	done := make(chan bool, 1)
	go func() {
		ups := make(chan *delivery.ChainUpdate)
		sub := c.Subscribe(ups)
		rsub := c.SubscribeReorg(make(chan map[int64]types.Hash))
		<-c.Ready()
		if err := c.Start(); err != nil {
			t.Fail("starting the consumer of %q: %v", u, err)
		}
		<-c.Ready()
		<-c.Ready()
		if n := c.ProducerCount(time.Minute); n != 0 {
			t.Fail("the consumer of %q counts %d producers", u, n)
		}
		c.WhyNotReady(hx.H("x"))
		w := c.Waiter()
		if w == nil {
			t.Fail("the consumer of %q has no waiter", u)
		}
		if r := w.WaitForHashResult(hx.H("x"), time.Hour); r != waiter.NotFound {
			t.Fail("the consumer of %q found a block: %v", u, r)
		}
		if r := w.WaitForNumberResult(7, time.Hour); r != waiter.NotFound {
			t.Fail("the consumer of %q found a block: %v", u, r)
		}
		w.WaitForHash(hx.H("x"), time.Hour)
		w.WaitForNumber(7, time.Hour)
		w.Stop()
		select {
		case <-sub.Err():
			t.Fail("the subscription of %q ended", u)
		case <-rsub.Err():
			t.Fail("the reorg subscription of %q ended", u)
		default:
		}
		sub.Unsubscribe()
		rsub.Unsubscribe()
		c.Close()
		done <- true
	}()
	select {
	case <-done:
	case <-time.After(time.Minute):
		t.Fail("a method of the consumer of %q does not return", u)
	}
}
