// Package sarama is a stand-in for the Kafka client library and the cluster
// behind it: an in-memory cluster per broker list with the behaviour of the
// client that the streams rely on (read from sarama v1.28.0):
//
//   - ConsumePartition starts at the newest or oldest offset or at an explicit
//     one between the two, and refuses others; a partition can be consumed
//     once per consumer.
//   - A partition consumer fetches what is in the log, updates its high water
//     mark on every fetch that returned messages, and feeds them through a
//     buffered channel. Closing it drops what was not fed yet.
//   - An async producer appends in the order of its input per partition and
//     reports failures on its (unbuffered) error channel.
package sarama

import (
	"crypto/tls"
	"fmt"
	"hash/fnv"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

type StdLogger interface {
	Print(v ...interface{})
	Printf(format string, v ...interface{})
	Println(v ...interface{})
}

type nolog struct{}

func (nolog) Print(v ...interface{})                 {}
func (nolog) Printf(format string, v ...interface{}) {}
func (nolog) Println(v ...interface{})               {}

var Logger StdLogger = nolog{}

type KError int16

func (e KError) Error() string { return fmt.Sprintf("kafka server: error %d", int16(e)) }

type ConfigurationError string

func (e ConfigurationError) Error() string { return "kafka: invalid configuration (" + string(e) + ")" }

const (
	OffsetNewest int64 = -1
	OffsetOldest int64 = -2
)

type RequiredAcks int16

const (
	NoResponse   RequiredAcks = 0
	WaitForLocal RequiredAcks = 1
	WaitForAll   RequiredAcks = -1
)

type CompressionCodec int8

const (
	CompressionNone CompressionCodec = iota
	CompressionGZIP
	CompressionSnappy
	CompressionLZ4
	CompressionZSTD
)

type SASLMechanism string

const (
	SASLTypeOAuth       = "OAUTHBEARER"
	SASLTypePlaintext   = "PLAIN"
	SASLTypeSCRAMSHA256 = "SCRAM-SHA-256"
	SASLTypeSCRAMSHA512 = "SCRAM-SHA-512"
	SASLTypeGSSAPI      = "GSSAPI"
)

type SCRAMClient interface {
	Begin(userName, password, authzID string) error
	Step(challenge string) (response string, err error)
	Done() bool
}

type KafkaVersion struct{ v [4]uint }

// IsAtLeast tells whether v is v2 or later.
func (v KafkaVersion) IsAtLeast(v2 KafkaVersion) bool {
	for i := range v.v {
		if v.v[i] != v2.v[i] {
			return v.v[i] > v2.v[i]
		}
	}
	return true
}

var (
	V0_8_2_0  = KafkaVersion{[4]uint{0, 8, 2, 0}}
	V0_8_2_1  = KafkaVersion{[4]uint{0, 8, 2, 1}}
	V0_8_2_2  = KafkaVersion{[4]uint{0, 8, 2, 2}}
	V0_9_0_0  = KafkaVersion{[4]uint{0, 9, 0, 0}}
	V0_9_0_1  = KafkaVersion{[4]uint{0, 9, 0, 1}}
	V0_10_0_0 = KafkaVersion{[4]uint{0, 10, 0, 0}}
	V0_10_0_1 = KafkaVersion{[4]uint{0, 10, 0, 1}}
	V0_10_1_0 = KafkaVersion{[4]uint{0, 10, 1, 0}}
	V0_10_1_1 = KafkaVersion{[4]uint{0, 10, 1, 1}}
	V0_10_2_0 = KafkaVersion{[4]uint{0, 10, 2, 0}}
	V0_10_2_1 = KafkaVersion{[4]uint{0, 10, 2, 1}}
	V0_11_0_0 = KafkaVersion{[4]uint{0, 11, 0, 0}}
	V0_11_0_1 = KafkaVersion{[4]uint{0, 11, 0, 1}}
	V0_11_0_2 = KafkaVersion{[4]uint{0, 11, 0, 2}}
	V1_0_0_0  = KafkaVersion{[4]uint{1, 0, 0, 0}}
	V1_1_0_0  = KafkaVersion{[4]uint{1, 1, 0, 0}}
	V1_1_1_0  = KafkaVersion{[4]uint{1, 1, 1, 0}}
	V2_0_0_0  = KafkaVersion{[4]uint{2, 0, 0, 0}}
	V2_0_1_0  = KafkaVersion{[4]uint{2, 0, 1, 0}}
	V2_1_0_0  = KafkaVersion{[4]uint{2, 1, 0, 0}}
	V2_2_0_0  = KafkaVersion{[4]uint{2, 2, 0, 0}}
	V2_3_0_0  = KafkaVersion{[4]uint{2, 3, 0, 0}}
	V2_4_0_0  = KafkaVersion{[4]uint{2, 4, 0, 0}}
	V2_5_0_0  = KafkaVersion{[4]uint{2, 5, 0, 0}}
	V2_6_0_0  = KafkaVersion{[4]uint{2, 6, 0, 0}}
	V2_7_0_0  = KafkaVersion{[4]uint{2, 7, 0, 0}}

	MinVersion     = V0_8_2_0
	MaxVersion     = V2_7_0_0
	DefaultVersion = V1_0_0_0
)

type Config struct {
	Admin struct {
		Retry   struct{ Max int }
		Timeout time.Duration
	}
	Net struct {
		MaxOpenRequests                        int
		DialTimeout, ReadTimeout, WriteTimeout time.Duration
		TLS                                    struct {
			Enable bool
			Config *tls.Config
		}
		SASL struct {
			Enable                   bool
			Mechanism                SASLMechanism
			Version                  int16
			Handshake                bool
			AuthIdentity             string
			User                     string
			Password                 string
			SCRAMAuthzID             string
			SCRAMClientGeneratorFunc func() SCRAMClient
		}
		KeepAlive time.Duration
	}
	Metadata struct {
		Retry struct {
			Max     int
			Backoff time.Duration
		}
		RefreshFrequency time.Duration
		Full             bool
		Timeout          time.Duration
	}
	Producer struct {
		MaxMessageBytes  int
		RequiredAcks     RequiredAcks
		Timeout          time.Duration
		Compression      CompressionCodec
		CompressionLevel int
		Idempotent       bool
		Return           struct{ Successes, Errors bool }
		Flush            struct {
			Bytes, Messages int
			Frequency       time.Duration
			MaxMessages     int
		}
		Retry struct {
			Max     int
			Backoff time.Duration
		}
	}
	Consumer struct {
		Retry             struct{ Backoff time.Duration }
		Fetch             struct{ Min, Default, Max int32 }
		MaxWaitTime       time.Duration
		MaxProcessingTime time.Duration
		Return            struct{ Errors bool }
		Offsets           struct{ Initial int64 }
	}
	ClientID          string
	RackID            string
	ChannelBufferSize int
	ApiVersionRequest bool
	Version           KafkaVersion
}

func NewConfig() *Config {
	c := &Config{}
	c.Net.MaxOpenRequests = 5
	c.Producer.MaxMessageBytes = 1000000
	c.Producer.RequiredAcks = WaitForLocal
	c.Producer.Retry.Max = 3
	c.Producer.Retry.Backoff = 100 * time.Millisecond
	c.Producer.Return.Errors = true
	c.Consumer.Fetch.Min = 1
	c.Consumer.Fetch.Default = 1024 * 1024
	c.Consumer.MaxWaitTime = 250 * time.Millisecond
	c.Consumer.MaxProcessingTime = 100 * time.Millisecond
	c.Consumer.Offsets.Initial = OffsetNewest
	c.ClientID = "sarama"
	c.ChannelBufferSize = 256
	c.Version = V1_0_0_0
	return c
}

// Validate refuses what the client refuses.
func (c *Config) Validate() error {
	if c.Net.SASL.Enable && c.Net.SASL.Mechanism == "" {
		c.Net.SASL.Mechanism = SASLTypePlaintext
	}
	switch {
	case c.Net.MaxOpenRequests <= 0:
		return ConfigurationError("Net.MaxOpenRequests must be > 0")
	case c.Net.SASL.Enable && c.Net.SASL.Mechanism == SASLTypeOAuth:
		return ConfigurationError("An AccessTokenProvider instance must be provided to Net.SASL.TokenProvider")
	case c.Net.SASL.Enable && c.Net.SASL.Mechanism == SASLTypeGSSAPI:
		return ConfigurationError("Net.SASL.GSSAPI.ServiceName must not be empty when GSS-API mechanism is used")
	case c.Net.SASL.Enable && c.Net.SASL.User == "":
		return ConfigurationError("Net.SASL.User must not be empty when SASL is enabled")
	case c.Net.SASL.Enable && c.Net.SASL.Password == "":
		return ConfigurationError("Net.SASL.Password must not be empty when SASL is enabled")
	case c.Net.SASL.Enable && (c.Net.SASL.Mechanism == SASLTypeSCRAMSHA256 || c.Net.SASL.Mechanism == SASLTypeSCRAMSHA512) && c.Net.SASL.SCRAMClientGeneratorFunc == nil:
		return ConfigurationError("A SCRAMClientGeneratorFunc function must be provided to Net.SASL.SCRAMClientGeneratorFunc")
	case c.Producer.MaxMessageBytes <= 0:
		return ConfigurationError("Producer.MaxMessageBytes must be > 0")
	case c.Producer.RequiredAcks < -1:
		return ConfigurationError("Producer.RequiredAcks must be >= -1")
	case c.Producer.Retry.Max < 0:
		return ConfigurationError("Producer.Retry.Max must be >= 0")
	case c.Producer.Compression == CompressionLZ4 && !c.Version.IsAtLeast(V0_10_0_0):
		return ConfigurationError("lz4 compression requires Version >= V0_10_0_0")
	case c.Producer.Compression == CompressionZSTD && !c.Version.IsAtLeast(V2_1_0_0):
		return ConfigurationError("zstd compression requires Version >= V2_1_0_0")
	case c.Producer.Idempotent && !c.Version.IsAtLeast(V0_11_0_0):
		return ConfigurationError("Idempotent producer requires Version >= V0_11_0_0")
	case c.Producer.Idempotent && c.Producer.Retry.Max == 0:
		return ConfigurationError("Idempotent producer requires Producer.Retry.Max >= 1")
	case c.Producer.Idempotent && c.Producer.RequiredAcks != WaitForAll:
		return ConfigurationError("Idempotent producer requires Producer.RequiredAcks to be WaitForAll")
	case c.Producer.Idempotent && c.Net.MaxOpenRequests > 1:
		return ConfigurationError("Idempotent producer requires Net.MaxOpenRequests to be 1")
	case c.Consumer.Fetch.Min <= 0:
		return ConfigurationError("Consumer.Fetch.Min must be > 0")
	case c.Consumer.Fetch.Default <= 0:
		return ConfigurationError("Consumer.Fetch.Default must be > 0")
	case c.Consumer.Fetch.Max < 0:
		return ConfigurationError("Consumer.Fetch.Max must be >= 0")
	case c.Consumer.MaxWaitTime < time.Millisecond:
		return ConfigurationError("Consumer.MaxWaitTime must be >= 1ms")
	case c.ChannelBufferSize < 0:
		return ConfigurationError("ChannelBufferSize must be >= 0")
	}
	return nil
}

type Encoder interface {
	Encode() ([]byte, error)
	Length() int
}
type StringEncoder string

func (s StringEncoder) Encode() ([]byte, error) { return []byte(s), nil }
func (s StringEncoder) Length() int             { return len(s) }

type ByteEncoder []byte

func (b ByteEncoder) Encode() ([]byte, error) { return b, nil }
func (b ByteEncoder) Length() int             { return len(b) }

type RecordHeader struct{ Key, Value []byte }

// ---- the cluster ----------------------------------------------------------

// Record is a message in the log.
type Record struct {
	Key, Value []byte
	Offset     int64
	Time       time.Time
}

// Log is one partition.
type Log struct {
	Topic string
	Part  int32
	Base  int64 // the oldest offset kept
	Recs  []*Record
	grown chan struct{} // closed when messages are appended
}

func (l *Log) End() int64 { return l.Base + int64(len(l.Recs)) }

// Append adds a message.
func (l *Log) Append(key, value []byte, at time.Time) int64 {
	off := l.End()
	l.Recs = append(l.Recs, &Record{Key: append([]byte(nil), key...), Value: append([]byte(nil), value...), Offset: off, Time: at})
	if l.grown != nil {
		g := l.grown
		l.grown = nil
		close(g)
	}
	return off
}

// Trim removes the n oldest messages.
func (l *Log) Trim(n int64) {
	l.Base += n
	l.Recs = l.Recs[n:]
}

// Cluster is the set of brokers behind one broker list.
type Cluster struct {
	Addr   string
	Topics map[string][]*Log
	// NBrokers is the number of brokers (2 partitions each by default).
	NBrokers int
	// FetchMax bounds the messages of one fetch (0: no bound).
	FetchMax int
	// FetchDelay is how long a fetch from a partition takes.
	FetchDelay func(topic string, part int32) time.Duration
	// Down makes new clients fail.
	Down bool
	// Place overrides the partitioner.
	Place func(topic string, key []byte, n int) int
	// FailSend makes a produced message fail.
	FailSend func(topic string, key []byte) error
	// Lost makes a message disappear on its way to the log: the process that
	// sent it died before the log had it.
	Lost func(l *Log) bool
	// Latency makes appending asynchronous, one goroutine per partition.
	Latency bool
	// SlowConsume, if set, runs before a partition consumer is returned.
	SlowConsume func(topic string, part int32)
	// Created lists topics in the order they were created.
	Created []string
	// OpenConsumers counts partition consumers that were not closed.
	OpenConsumers int
	// Starts lists the offsets at which partitions were consumed.
	Starts []string
	// Details lists what topics were created with by request.
	Details map[string]TopicDetail
	// Admin, if set, runs before a request about topics is answered ("metadata"
	// or "create"). The request fails with the error; a KError is in the response.
	Admin func(op, topic string) error
	// Request, if set, may make a request of a client fail ("partitions",
	// "newest", "oldest", "at", "consume").
	Request func(op, topic string, part int32) error
	// Admit, if set, decides about configurations of clients.
	Admit func(conf *Config) bool
	// Clients counts the clients made.
	Clients int
	// OpenClients counts clients and producers that were not closed.
	OpenClients int
}

var clusters = map[string]*Cluster{}

// Reset forgets every cluster.
func Reset() { clusters = map[string]*Cluster{} }

// Known lists the broker lists that were ever used.
func Known() []string {
	var out []string
	for a := range clusters {
		out = append(out, a)
	}
	sort.Strings(out)
	return out
}

// At gives the cluster behind a broker list.
func At(addr string) *Cluster {
	c := clusters[addr]
	if c == nil {
		c = &Cluster{Addr: addr, Topics: map[string][]*Log{}, NBrokers: 1}
		clusters[addr] = c
	}
	return c
}

// AddTopic creates a topic.
func (c *Cluster) AddTopic(name string, partitions int) []*Log {
	ls := make([]*Log, partitions)
	for i := range ls {
		ls[i] = &Log{Topic: name, Part: int32(i)}
	}
	c.Topics[name] = ls
	c.Created = append(c.Created, name)
	return ls
}

func (c *Cluster) request(op, topic string, part int32) error {
	if c.Request == nil {
		return nil
	}
	return c.Request(op, topic, part)
}

func (c *Cluster) log(topic string, part int32) (*Log, error) {
	ls := c.Topics[topic]
	if int(part) >= len(ls) || part < 0 {
		return nil, ErrUnknownTopicOrPartition
	}
	return ls[part], nil
}

// Partition gives the partition for a key.
func (c *Cluster) Partition(topic string, key []byte) *Log {
	ls := c.Topics[topic]
	if len(ls) == 0 {
		return nil
	}
	if c.Place != nil {
		return ls[c.Place(topic, key, len(ls))]
	}
	h := fnv.New32a()
	h.Write(key)
	p := int32(h.Sum32()) % int32(len(ls))
	if p < 0 {
		p = -p
	}
	return ls[p]
}

// ---- client ---------------------------------------------------------------

type Client interface {
	Config() *Config
	Controller() (*Broker, error)
	Brokers() []*Broker
	Topics() ([]string, error)
	Partitions(topic string) ([]int32, error)
	WritablePartitions(topic string) ([]int32, error)
	RefreshMetadata(topics ...string) error
	GetOffset(topic string, partitionID int32, time int64) (int64, error)
	Close() error
	Closed() bool
}

type client struct {
	c      *Cluster
	cfg    *Config
	closed bool
}

func connect(addrs []string, conf *Config) (*Cluster, *Config, error) {
	if len(addrs) == 0 {
		return nil, nil, ErrOutOfBrokers
	}
	c := At(strings.Join(addrs, ","))
	if conf == nil {
		conf = NewConfig()
	}
	if err := conf.Validate(); err != nil {
		return nil, nil, err
	}
	c.Clients++
	if c.Down || c.Admit != nil && !c.Admit(conf) {
		return nil, nil, ErrOutOfBrokers
	}
	return c, conf, nil
}

func NewClient(addrs []string, conf *Config) (Client, error) {
	c, conf, err := connect(addrs, conf)
	if err != nil {
		return nil, err
	}
	c.OpenClients++
	return &client{c: c, cfg: conf}, nil
}

func (cl *client) Config() *Config { return cl.cfg }
func (cl *client) Controller() (*Broker, error) {
	if cl.closed {
		return nil, ErrClosedClient
	}
	return &Broker{c: cl.c}, nil
}
func (cl *client) Brokers() []*Broker {
	out := make([]*Broker, cl.c.NBrokers)
	for i := range out {
		out[i] = &Broker{c: cl.c, id: int32(i)}
	}
	return out
}
func (cl *client) Topics() ([]string, error) {
	if cl.closed {
		return nil, ErrClosedClient
	}
	var out []string
	for t := range cl.c.Topics {
		out = append(out, t)
	}
	sort.Strings(out)
	return out, nil
}
func (cl *client) Partitions(topic string) ([]int32, error) {
	if cl.closed {
		return nil, ErrClosedClient
	}
	if err := cl.c.request("partitions", topic, 0); err != nil {
		return nil, err
	}
	ls := cl.c.Topics[topic]
	if len(ls) == 0 {
		return nil, ErrUnknownTopicOrPartition
	}
	out := make([]int32, len(ls))
	for i := range out {
		out[i] = int32(i)
	}
	return out, nil
}
func (cl *client) WritablePartitions(topic string) ([]int32, error) { return cl.Partitions(topic) }
func (cl *client) RefreshMetadata(topics ...string) error           { return nil }
func (cl *client) GetOffset(topic string, part int32, at int64) (int64, error) {
	if cl.closed {
		return -1, ErrClosedClient
	}
	op := "at"
	if at == OffsetNewest {
		op = "newest"
	} else if at == OffsetOldest {
		op = "oldest"
	}
	if err := cl.c.request(op, topic, part); err != nil {
		return -1, err
	}
	l, err := cl.c.log(topic, part)
	if err != nil {
		return -1, err
	}
	switch at {
	case OffsetNewest:
		return l.End(), nil
	case OffsetOldest:
		return l.Base, nil
	}
	for _, r := range l.Recs {
		if r.Time.UnixNano()/int64(time.Millisecond) >= at {
			return r.Offset, nil
		}
	}
	return -1, nil
}
func (cl *client) Close() error {
	if cl.closed {
		return ErrClosedClient
	}
	cl.closed = true
	cl.c.OpenClients--
	return nil
}
func (cl *client) Closed() bool { return cl.closed }

// ---- broker ---------------------------------------------------------------

type Broker struct {
	c  *Cluster
	id int32
}

func (b *Broker) Open(conf *Config) error  { return nil }
func (b *Broker) Close() error             { return nil }
func (b *Broker) Connected() (bool, error) { return true, nil }
func (b *Broker) ID() int32                { return b.id }
func (b *Broker) Addr() string             { return b.c.Addr }

type MetadataRequest struct {
	Version                int16
	Topics                 []string
	AllowAutoTopicCreation bool
}
type PartitionMetadata struct {
	Err KError
	ID  int32
}
type TopicMetadata struct {
	Err        KError
	Name       string
	IsInternal bool
	Partitions []*PartitionMetadata
}
type MetadataResponse struct {
	Brokers []*Broker
	Topics  []*TopicMetadata
}
type TopicDetail struct {
	NumPartitions     int32
	ReplicationFactor int16
	ReplicaAssignment map[int32][]int32
	ConfigEntries     map[string]*string
}
type TopicError struct {
	Err    KError
	ErrMsg *string
}

func (t *TopicError) Error() string { return t.Err.Error() }

type CreateTopicsRequest struct {
	Version      int16
	TopicDetails map[string]*TopicDetail
	Timeout      time.Duration
	ValidateOnly bool
}
type CreateTopicsResponse struct {
	Version      int16
	ThrottleTime time.Duration
	TopicErrors  map[string]*TopicError
}

func (b *Broker) GetMetadata(req *MetadataRequest) (*MetadataResponse, error) {
	r := &MetadataResponse{}
	for _, t := range req.Topics {
		tm := &TopicMetadata{Name: t}
		if b.c.Admin != nil {
			if err := b.c.Admin("metadata", t); err != nil {
				return nil, err
			}
		}
		if ls := b.c.Topics[t]; len(ls) > 0 {
			for i := range ls {
				tm.Partitions = append(tm.Partitions, &PartitionMetadata{ID: int32(i)})
			}
		} else {
			tm.Err = ErrUnknownTopicOrPartition
		}
		r.Topics = append(r.Topics, tm)
	}
	return r, nil
}

func (b *Broker) CreateTopics(req *CreateTopicsRequest) (*CreateTopicsResponse, error) {
	r := &CreateTopicsResponse{TopicErrors: map[string]*TopicError{}}
	var names []string
	for t := range req.TopicDetails {
		names = append(names, t)
	}
	sort.Strings(names)
	for _, t := range names {
		if b.c.Admin != nil {
			if err := b.c.Admin("create", t); err != nil {
				if k, ok := err.(KError); ok {
					r.TopicErrors[t] = &TopicError{Err: k}
					continue
				}
				return nil, err
			}
		}
		if len(b.c.Topics[t]) > 0 {
			r.TopicErrors[t] = &TopicError{Err: ErrTopicAlreadyExists}
			continue
		}
		d := req.TopicDetails[t]
		if d.NumPartitions <= 0 {
			r.TopicErrors[t] = &TopicError{Err: ErrInvalidPartitions}
			continue
		}
		if d.ReplicationFactor <= 0 || int(d.ReplicationFactor) > b.c.NBrokers {
			r.TopicErrors[t] = &TopicError{Err: ErrInvalidReplicationFactor}
			continue
		}
		if req.ValidateOnly {
			r.TopicErrors[t] = &TopicError{Err: ErrNoError}
			continue
		}
		b.c.AddTopic(t, int(d.NumPartitions))
		if b.c.Details == nil {
			b.c.Details = map[string]TopicDetail{}
		}
		b.c.Details[t] = *d
		r.TopicErrors[t] = &TopicError{Err: ErrNoError}
	}
	return r, nil
}

// ---- consumer -------------------------------------------------------------

type ConsumerMessage struct {
	Headers        []*RecordHeader
	Timestamp      time.Time
	BlockTimestamp time.Time
	Key, Value     []byte
	Topic          string
	Partition      int32
	Offset         int64
}

type ConsumerError struct {
	Topic     string
	Partition int32
	Err       error
}

func (ce ConsumerError) Error() string { return ce.Err.Error() }

type Consumer interface {
	Topics() ([]string, error)
	Partitions(topic string) ([]int32, error)
	ConsumePartition(topic string, partition int32, offset int64) (PartitionConsumer, error)
	HighWaterMarks() map[string]map[int32]int64
	Close() error
}

type PartitionConsumer interface {
	AsyncClose()
	Close() error
	Messages() <-chan *ConsumerMessage
	Errors() <-chan *ConsumerError
	HighWaterMarkOffset() int64
}

type consumer struct {
	cl       *client
	own      bool
	children map[string]*partitionConsumer
}

func NewConsumerFromClient(c Client) (Consumer, error) {
	if c.Closed() {
		return nil, ErrClosedClient
	}
	return &consumer{cl: c.(*client), children: map[string]*partitionConsumer{}}, nil
}

func NewConsumer(addrs []string, config *Config) (Consumer, error) {
	c, err := NewClient(addrs, config)
	if err != nil {
		return nil, err
	}
	con, err := NewConsumerFromClient(c)
	if err == nil {
		con.(*consumer).own = true
	}
	return con, err
}

func (c *consumer) Topics() ([]string, error)                { return c.cl.Topics() }
func (c *consumer) Partitions(topic string) ([]int32, error) { return c.cl.Partitions(topic) }
func (c *consumer) HighWaterMarks() map[string]map[int32]int64 {
	out := map[string]map[int32]int64{}
	for _, pc := range c.children {
		if out[pc.l.Topic] == nil {
			out[pc.l.Topic] = map[int32]int64{}
		}
		out[pc.l.Topic][pc.l.Part] = pc.hwm
	}
	return out
}
func (c *consumer) Close() error {
	if c.own {
		return c.cl.Close()
	}
	return nil
}

func (c *consumer) ConsumePartition(topic string, part int32, offset int64) (PartitionConsumer, error) {
	if c.cl.closed {
		return nil, ErrClosedClient
	}
	cl := c.cl.c
	if err := cl.request("consume", topic, part); err != nil {
		return nil, err
	}
	l, err := cl.log(topic, part)
	if err != nil {
		return nil, err
	}
	switch {
	case offset == OffsetNewest:
		offset = l.End()
	case offset == OffsetOldest:
		offset = l.Base
	case offset >= l.Base && offset <= l.End():
	default:
		return nil, ErrOffsetOutOfRange
	}
	k := fmt.Sprintf("%v:%v", topic, part)
	if c.children[k] != nil {
		return nil, ConfigurationError("That topic/partition is already being consumed")
	}
	if cl.SlowConsume != nil {
		cl.SlowConsume(topic, part)
	}
	pc := &partitionConsumer{
		c: c, l: l, k: k, next: offset,
		messages: make(chan *ConsumerMessage, 256),
		errors:   make(chan *ConsumerError, 256),
		dying:    make(chan struct{}),
	}
	c.children[k] = pc
	cl.OpenConsumers++
	cl.Starts = append(cl.Starts, fmt.Sprintf("%v@%v", k, offset))
	go pc.feed()
	return pc, nil
}

type partitionConsumer struct {
	c        *consumer
	l        *Log
	k        string
	next     int64
	hwm      int64
	messages chan *ConsumerMessage
	errors   chan *ConsumerError
	dying    chan struct{}
	closing  bool
}

func (pc *partitionConsumer) feed() {
loop:
	for {
		if pc.next >= pc.l.End() {
			if pc.l.grown == nil {
				pc.l.grown = make(chan struct{})
			}
			select {
			case <-pc.dying:
				break loop
			case <-pc.l.grown:
			}
			continue
		}
		if f := pc.c.cl.c.FetchDelay; f != nil {
			if d := f(pc.l.Topic, pc.l.Part); d > 0 {
				select {
				case <-pc.dying:
					break loop
				case <-time.After(d):
				}
			}
		}
		if pc.next < pc.l.Base {
			break loop // removed by retention: the consumer is shut down
		}
		recs := pc.l.Recs[pc.next-pc.l.Base:]
		if m := pc.c.cl.c.FetchMax; m > 0 && len(recs) > m {
			recs = recs[:m]
		}
		pc.hwm = pc.l.End()
		for _, r := range recs {
			m := &ConsumerMessage{
				Timestamp: r.Time, Key: append([]byte(nil), r.Key...), Value: append([]byte(nil), r.Value...),
				Topic: pc.l.Topic, Partition: pc.l.Part, Offset: r.Offset,
			}
			select {
			case <-pc.dying:
				break loop
			case pc.messages <- m:
			}
			pc.next = r.Offset + 1
		}
	}
	pc.c.cl.c.OpenConsumers--
	delete(pc.c.children, pc.k)
	close(pc.messages)
	close(pc.errors)
}

func (pc *partitionConsumer) AsyncClose() {
	if !pc.closing {
		pc.closing = true
		close(pc.dying)
	}
}
func (pc *partitionConsumer) Close() error {
	pc.AsyncClose()
	for range pc.errors {
	}
	return nil
}
func (pc *partitionConsumer) Messages() <-chan *ConsumerMessage { return pc.messages }
func (pc *partitionConsumer) Errors() <-chan *ConsumerError     { return pc.errors }
func (pc *partitionConsumer) HighWaterMarkOffset() int64        { return pc.hwm }

// ---- producer -------------------------------------------------------------

type ProducerMessage struct {
	Topic     string
	Key       Encoder
	Value     Encoder
	Headers   []RecordHeader
	Metadata  interface{}
	Offset    int64
	Partition int32
	Timestamp time.Time
}

type ProducerError struct {
	Msg *ProducerMessage
	Err error
}

func (pe ProducerError) Error() string {
	return "kafka: Failed to produce message to topic " + pe.Msg.Topic + ": " + pe.Err.Error()
}
func (pe ProducerError) Unwrap() error { return pe.Err }

type AsyncProducer interface {
	AsyncClose()
	Close() error
	Input() chan<- *ProducerMessage
	Successes() <-chan *ProducerMessage
	Errors() <-chan *ProducerError
}

type asyncProducer struct {
	own       bool
	c         *Cluster
	cfg       *Config
	input     chan *ProducerMessage
	errors    chan *ProducerError
	successes chan *ProducerMessage
	queues    map[*Log]chan *ProducerMessage
}

func NewAsyncProducer(addrs []string, conf *Config) (AsyncProducer, error) {
	c, conf, err := connect(addrs, conf)
	if err != nil {
		return nil, err
	}
	c.OpenClients++
	return newProducer(c, conf, true), nil
}

func newProducer(c *Cluster, conf *Config, own bool) *asyncProducer {
	p := &asyncProducer{
		own: own, c: c, cfg: conf,
		input:     make(chan *ProducerMessage),
		errors:    make(chan *ProducerError),
		successes: make(chan *ProducerMessage),
		queues:    map[*Log]chan *ProducerMessage{},
	}
	go p.run()
	return p
}

func NewAsyncProducerFromClient(c Client) (AsyncProducer, error) {
	if c.Closed() {
		return nil, ErrClosedClient
	}
	return newProducer(c.(*client).c, c.Config(), false), nil
}

func enc(e Encoder) []byte {
	if e == nil {
		return nil
	}
	b, _ := e.Encode()
	return b
}

func (p *asyncProducer) run() {
	for m := range p.input {
		key := enc(m.Key)
		var err error
		if p.c.FailSend != nil {
			err = p.c.FailSend(m.Topic, key)
		}
		size := len(key) + len(enc(m.Value)) + 36 // maximumRecordOverhead
		if size > p.cfg.Producer.MaxMessageBytes {
			err = ErrMessageSizeTooLarge
		}
		if d, ok := p.c.Details[m.Topic]; ok {
			limit := 1048588 // the broker's default
			if v := d.ConfigEntries["max.message.bytes"]; v != nil {
				limit, _ = strconv.Atoi(*v)
			}
			if size > limit {
				err = ErrMessageSizeTooLarge
			}
		}
		l := p.c.Partition(m.Topic, key)
		if err == nil && l == nil {
			err = ErrUnknownTopicOrPartition
		}
		if err != nil {
			p.fail(m, err)
			continue
		}
		if !p.c.Latency {
			p.append(l, m)
			continue
		}
		q := p.queues[l]
		if q == nil {
			q = make(chan *ProducerMessage, 256)
			p.queues[l] = q
			go func() {
				for m := range q {
					p.append(l, m)
				}
			}()
		}
		q <- m
	}
	for _, q := range p.queues {
		close(q)
	}
	close(p.errors)
	close(p.successes)
}

func (p *asyncProducer) append(l *Log, m *ProducerMessage) {
	if p.c.Lost != nil && p.c.Lost(l) {
		return
	}
	at := m.Timestamp
	if at.IsZero() {
		at = time.Now()
	}
	m.Partition = l.Part
	m.Offset = l.Append(enc(m.Key), enc(m.Value), at)
	if p.cfg.Producer.Return.Successes {
		p.successes <- m
	}
}

func (p *asyncProducer) fail(m *ProducerMessage, err error) {
	if !p.cfg.Producer.Return.Errors {
		return
	}
	go func() { p.errors <- &ProducerError{Msg: m, Err: err} }()
}

func (p *asyncProducer) AsyncClose() {
	close(p.input)
	if p.own {
		p.c.OpenClients--
	}
}
func (p *asyncProducer) Input() chan<- *ProducerMessage     { return p.input }
func (p *asyncProducer) Successes() <-chan *ProducerMessage { return p.successes }
func (p *asyncProducer) Errors() <-chan *ProducerError      { return p.errors }
func (p *asyncProducer) Close() error {
	p.AsyncClose()
	for range p.errors {
	}
	return nil
}

// SyncProducer sends and waits for the acknowledgement.
type SyncProducer interface {
	SendMessage(msg *ProducerMessage) (partition int32, offset int64, err error)
	SendMessages(msgs []*ProducerMessage) error
	Close() error
}

type ProducerErrors []*ProducerError

func (pe ProducerErrors) Error() string {
	return fmt.Sprintf("kafka: Failed to deliver %d messages.", len(pe))
}

type syncProducer struct {
	p *asyncProducer
	m sync.Mutex
}

func NewSyncProducer(addrs []string, conf *Config) (SyncProducer, error) {
	if conf == nil {
		conf = NewConfig()
		conf.Producer.Return.Successes = true
	}
	if !conf.Producer.Return.Errors || !conf.Producer.Return.Successes {
		return nil, ConfigurationError("Producer.Return.Successes and Producer.Return.Errors must be true to be used in a SyncProducer")
	}
	p, err := NewAsyncProducer(addrs, conf)
	if err != nil {
		return nil, err
	}
	return &syncProducer{p: p.(*asyncProducer)}, nil
}

func NewSyncProducerFromClient(c Client) (SyncProducer, error) {
	p, err := NewAsyncProducerFromClient(c)
	if err != nil {
		return nil, err
	}
	return &syncProducer{p: p.(*asyncProducer)}, nil
}

func (sp *syncProducer) SendMessage(m *ProducerMessage) (int32, int64, error) {
	sp.m.Lock()
	defer sp.m.Unlock()
	sp.p.input <- m
	select {
	case m := <-sp.p.successes:
		return m.Partition, m.Offset, nil
	case e := <-sp.p.errors:
		return -1, -1, e.Err
	}
}

func (sp *syncProducer) SendMessages(msgs []*ProducerMessage) error {
	var errs ProducerErrors
	for _, m := range msgs {
		if _, _, err := sp.SendMessage(m); err != nil {
			errs = append(errs, &ProducerError{Msg: m, Err: err})
		}
	}
	if len(errs) > 0 {
		return errs
	}
	return nil
}

func (sp *syncProducer) Close() error { return sp.p.Close() }
