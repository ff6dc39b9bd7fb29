// Package transports is a stand-in for the RPC server: calls and subscriptions
// are handled as in cardinal-rpc v1.1.0 (handleWsFunc and registry.subscribe),
// including that a subscription may produce values before its identifier has
// been sent.
package transports

import (
	"encoding/json"
	"reflect"
	"runtime"
	"strconv"
	"strings"
	"time"

	"github.com/gorilla/websocket"
	"github.com/openrelayxyz/cardinal-rpc"
	"github.com/openrelayxyz/cardinal-types/hexutil"
)

// Contexts lists the contexts of the connections handled, in order.
var Contexts []*Ctx

// Outputs is the size of the queue of outgoing messages of a connection.
var Outputs = 256

// Early is the number of values of a subscription that are sent before its
// identifier.
var Early int

var streams []reflect.Value

func Reset() { Contexts, streams, Outputs, Early = nil, nil, 256, 0 }

// Open counts the subscriptions whose channel has not been closed.
func Open() int {
	n := 0
	for _, ch := range streams {
		closed := false
		for {
			v, ok := ch.TryRecv()
			if closed = !ok && v.IsValid(); closed || !ok {
				break
			}
		}
		if !closed {
			n++
		}
	}
	return n
}

type TransportManager struct {
	services map[string]interface{}
	ports    []int64
}

func NewTransportManager(concurrency int) *TransportManager {
	return &TransportManager{services: map[string]interface{}{}}
}
func (tm *TransportManager) Register(namespace string, service interface{}) {
	tm.services[namespace] = service
}
func (tm *TransportManager) AddWSServer(port int64)   { tm.ports = append(tm.ports, port) }
func (tm *TransportManager) AddHTTPServer(port int64) {}
func (tm *TransportManager) Run(healthPort int64) error {
	for _, p := range tm.ports {
		websocket.Listen(strconv.Itoa(int(p)), tm.handle)
	}
	return nil
}
func (tm *TransportManager) Stop() {
	for _, p := range tm.ports {
		websocket.Unlisten(strconv.Itoa(int(p)))
	}
}

// Ctx is the context of a connection.
type Ctx struct {
	done chan struct{}
	over bool
}

type ctxErr struct{}

func (ctxErr) Error() string { return "context canceled" }

func NewCtx() *Ctx { return &Ctx{done: make(chan struct{})} }

func (c *Ctx) Deadline() (time.Time, bool)       { return time.Time{}, false }
func (c *Ctx) Done() <-chan struct{}             { return c.done }
func (c *Ctx) Value(key interface{}) interface{} { return nil }
func (c *Ctx) Err() error {
	if c.over {
		return ctxErr{}
	}
	return nil
}
func (c *Ctx) Cancel() {
	if !c.over {
		c.over = true
		close(c.done)
	}
}

func (tm *TransportManager) handle(c *websocket.Conn) {
	ctx := NewCtx()
	Contexts = append(Contexts, ctx)
	defer ctx.Cancel()
	defer c.Close()
	outputs := make(chan interface{}, Outputs)
	gone := make(chan struct{})
	go func() {
		defer close(gone)
		for {
			select {
			case <-ctx.Done():
				return
			case output := <-outputs:
				data, _ := json.Marshal(output)
				if err := c.WriteMessage(websocket.TextMessage, data); err != nil {
					c.Close()
					return
				}
			}
		}
	}()
	var subs hexutil.Uint64
	for {
		_, body, err := c.ReadMessage()
		if err != nil {
			return
		}
		call := &rpc.Call{}
		if err := json.Unmarshal(body, call); err != nil {
			continue
		}
		// The queue of the server has room for the reply. Here it may be small,
		// do not wait when nothing is taken out of it any more.
		reply := tm.call(ctx, call, outputs, &subs)
		select {
		case outputs <- reply:
		default:
			select {
			case outputs <- reply:
			case <-gone:
				return
			}
		}
	}
}

func (tm *TransportManager) call(ctx *Ctx, call *rpc.Call, outputs chan interface{}, subs *hexutil.Uint64) *rpc.Response {
	r := &rpc.Response{Version: "2.0", ID: call.ID}
	ns := strings.Split(call.Method, "_")[0]
	name := strings.TrimPrefix(call.Method, ns+"_")
	params := call.Params
	sub := name == "subscribe"
	if sub {
		if json.Unmarshal(params[0], &name) != nil {
			r.Error = rpc.NewRPCError(-32602, "invalid argument")
			return r
		}
		params = params[1:]
	}
	svc := tm.services[ns]
	if svc == nil {
		r.Error = rpc.NewRPCError(-32601, "no such method")
		return r
	}
	m := reflect.ValueOf(svc).MethodByName(strings.ToUpper(name[:1]) + name[1:])
	if !m.IsValid() {
		r.Error = rpc.NewRPCError(-32601, "no such method")
		return r
	}
	args := []reflect.Value{}
	i := 0
	for j := 0; j < m.Type().NumIn(); j++ {
		t := m.Type().In(j)
		if j == 0 && t.Kind() == reflect.Interface {
			args = append(args, reflect.ValueOf(ctx))
			continue
		}
		v := reflect.New(t)
		if i >= len(params) || json.Unmarshal(params[i], v.Interface()) != nil {
			r.Error = rpc.NewRPCError(-32602, "invalid argument")
			return r
		}
		i++
		args = append(args, v.Elem())
	}
	id := *subs
	if sub {
		*subs++
	}
	out := m.Call(args)
	if e := out[len(out)-1]; !e.IsNil() {
		if !sub {
			r.Error = rpc.NewRPCError(-1, e.Interface().(error).Error())
		}
		return r // registry.subscribe loses the error
	}
	if !sub {
		r.Result = out[0].Interface()
		return r
	}
	ch := out[0]
	streams = append(streams, ch)
	early := Early
	forward := func() bool {
		item, ok := ch.Recv()
		if !ok {
			return false
		}
		n := &rpc.SubscriptionResponse{Version: "2.0", Method: call.Method}
		n.Params.ID = id
		n.Params.Result = item.Interface()
		outputs <- n
		return true
	}
	for ; early > 0 && forward(); early-- {
	}
	go func() {
		runtime.Gosched()
		for forward() {
		}
	}()
	r.Result = id
	return r
}
