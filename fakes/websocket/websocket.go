// Package websocket is a stand-in for gorilla/websocket: connections are pairs
// of in-memory pipes, servers are registered by port. Messages that were
// written before a connection was closed by the other side can still be read.
package websocket

import (
	"context"
	"errors"
	"net/http"
	"net/url"
	"time"
)

const (
	TextMessage   = 1
	BinaryMessage = 2
	CloseMessage  = 8
	PingMessage   = 9
	PongMessage   = 10
)

const (
	CloseNormalClosure   = 1000
	CloseGoingAway       = 1001
	CloseAbnormalClosure = 1006
)

var ErrBadHandshake = errors.New("websocket: bad handshake")
var ErrCloseSent = errors.New("websocket: close sent")

type CloseError struct {
	Code int
	Text string
}

func (e *CloseError) Error() string { return "websocket: close" }

func IsCloseError(err error, codes ...int) bool           { return false }
func IsUnexpectedCloseError(err error, codes ...int) bool { return true }
func FormatCloseMessage(code int, text string) []byte     { return []byte(text) }

type half struct {
	data   chan []byte
	closed chan struct{} // closed by the owner of this end
	down   bool
}

type Conn struct {
	ID     int
	Server bool
	Sent   int // messages written through this end
	mine   *half
	peer   *half
}

// Control of the network, set by the harness.
var (
	listeners map[string]func(*Conn)
	// Conns counts the connections made.
	Conns int
	// Live counts connections whose client side is open.
	Live int
	// Buffer is the number of messages that fit into a connection.
	Buffer = 4096
	// Dials counts the attempts.
	Dials int
	// Servers lists the servers' ends of the connections made.
	Servers []*Conn
	// Cut decides before the n-th message (from 0) a server writes to a
	// connection whether the connection breaks instead.
	Cut func(c *Conn, n int, data []byte) bool
	// Refuse decides whether the n-th attempt to connect (from 0) fails.
	Refuse func(n int) bool
	// OnRead sees every message a client receives.
	OnRead func(c *Conn, data []byte)
)

func Reset() {
	listeners = map[string]func(*Conn){}
	Conns, Dials, Live, Servers = 0, 0, 0, nil
	Cut, Refuse, OnRead = nil, nil, nil
	Buffer = 4096
}

func init() { Reset() }

// Listen registers the server of a port.
func Listen(port string, h func(*Conn)) { listeners[port] = h }

// Unlisten removes it.
func Unlisten(port string) { delete(listeners, port) }

func (c *Conn) ReadMessage() (int, []byte, error) {
	select {
	case <-c.mine.closed:
		return 0, nil, errors.New("use of closed network connection")
	default:
	}
	select {
	case m := <-c.peer.data:
		if !c.Server && OnRead != nil {
			OnRead(c, m)
		}
		return TextMessage, m, nil
	case <-c.mine.closed:
		return 0, nil, errors.New("use of closed network connection")
	case <-c.peer.closed:
		select {
		case m := <-c.peer.data:
			if !c.Server && OnRead != nil {
				OnRead(c, m)
			}
			return TextMessage, m, nil
		default:
		}
		return 0, nil, &CloseError{Code: CloseAbnormalClosure}
	}
}

func (c *Conn) WriteMessage(kind int, data []byte) error {
	if c.mine.down || c.peer.down {
		return ErrCloseSent
	}
	if c.Server && Cut != nil && Cut(c, c.Sent, data) {
		c.Close()
		return errors.New("broken pipe")
	}
	c.Sent++
	select {
	case c.mine.data <- append([]byte(nil), data...):
		return nil
	case <-c.mine.closed:
	case <-c.peer.closed:
	}
	return ErrCloseSent
}

func (c *Conn) Close() error {
	if !c.mine.down {
		c.mine.down = true
		if !c.Server {
			Live--
		}
		close(c.mine.closed)
	}
	return nil
}

func (c *Conn) SetReadLimit(limit int64)                         {}
func (c *Conn) SetReadDeadline(t time.Time) error                { return nil }
func (c *Conn) SetWriteDeadline(t time.Time) error               { return nil }
func (c *Conn) SetPongHandler(h func(appData string) error)      {}
func (c *Conn) SetPingHandler(h func(appData string) error)      {}
func (c *Conn) SetCloseHandler(h func(code int, s string) error) {}
func (c *Conn) WriteControl(kind int, data []byte, deadline time.Time) error {
	if c.mine.down || c.peer.down {
		return ErrCloseSent
	}
	return nil
}

type Dialer struct {
	HandshakeTimeout                time.Duration
	ReadBufferSize, WriteBufferSize int
	Subprotocols                    []string
	EnableCompression               bool
}

var DefaultDialer = &Dialer{}

func (d *Dialer) Dial(u string, h http.Header) (*Conn, *http.Response, error) {
	n := Dials
	Dials++
	p, err := url.Parse(u)
	if err != nil {
		return nil, nil, err
	}
	l := listeners[p.Port()]
	if l == nil || Refuse != nil && Refuse(n) {
		return nil, nil, errors.New("connection refused")
	}
	a := &half{data: make(chan []byte, Buffer), closed: make(chan struct{})}
	b := &half{data: make(chan []byte, Buffer), closed: make(chan struct{})}
	id := Conns
	Conns++
	Live++
	srv := &Conn{ID: id, Server: true, mine: b, peer: a}
	Servers = append(Servers, srv)
	go l(srv)
	return &Conn{ID: id, mine: a, peer: b}, nil, nil
}

func (d *Dialer) DialContext(ctx context.Context, u string, h http.Header) (*Conn, *http.Response, error) {
	return d.Dial(u, h)
}
