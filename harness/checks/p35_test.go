package checks

import (
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"runtime"
	"sync"
	"time"

	"github.com/dropmorepackets/haproxy-go/peers"
	"github.com/dropmorepackets/haproxy-go/peers/sticktable"
	"github.com/dropmorepackets/haproxy-go/pkg/encoding"
	"github.com/dropmorepackets/haproxy-go/spop"
	"pgregory.net/rapid"

	"verif/harness/memnet"
	"verif/harness/pbt"
	"verif/harness/ref"
)

// p35Op does something to one of the agents or peers.
//
//	serve   call Serve with a new listener
//	dial    connect to one of its listeners
//	use     do something on a connection
//	wait    have a handler wait for its context (agents)
//	end     end a connection
//	fail    make a listener fail
//	cancel  cancel the base context; the next calls use another one
type p35Op struct {
	Kind  string
	Obj   int
	Which int        `json:",omitempty"`
	N     *spNotify  `json:",omitempty"`
	H     *peHistory `json:",omitempty"`
}

type p35Case struct {
	Objects []string // "agent", "peer", "source"
	NoBase  []bool
	Ops     []p35Op
}

func init() {
	pbt.Register(&pbt.Property{
		ID: "P35",
		Rule: "1-3 agents, peers with a Handler and peers with a HandlerSource, with and without a base context, in one process. Up to 40 operations: Serve with one more listener (while earlier calls go on or after they have ended), connect to any of the listeners, exchange NOTIFYs or a history of updates on any connection, have handlers wait for their context, end connections, make listeners fail, cancel a base context and set another. After each operation everything is compared: which calls have returned, what every connection was sent, what each handler got, whose context is over. " +
			"Non-trivial: an agent or peer that serves connections of two listeners.",
		Parts: []*pbt.Part{
			pbt.NewPart("servers", 2500, genP35, p35Run),
		},
	})
}

func genP35(t *rapid.T) p35Case {
	var c p35Case
	for n := pick(t, "objects", 1, 1, 2, 3); n > 0; n-- {
		c.Objects = append(c.Objects, pick(t, "object", "agent", "peer", "source"))
		c.NoBase = append(c.NoBase, chance(t, "no base context", 20))
	}
	for n := genCount(t, "ops", 1, 40, 200); n > 0; n-- {
		op := p35Op{
			Kind:  pick(t, "op", "serve", "serve", "dial", "dial", "dial", "use", "use", "wait", "end", "fail", "cancel"),
			Obj:   rapid.IntRange(0, len(c.Objects)-1).Draw(t, "which object"),
			Which: rapid.IntRange(0, 9).Draw(t, "which"),
		}
		if op.Kind == "dial" || op.Kind == "use" {
			if c.Objects[op.Obj] == "agent" {
				n := genNotify(t, 12)
				for i := range n.Msgs {
					n.Msgs[i].Sleep = 0
				}
				op.N = &n
			} else {
				h := genHistory(t, 6, 20)
				op.H = &h
			}
		}
		c.Ops = append(c.Ops, op)
	}
	return c
}

type p35Listener struct {
	*memnet.Listener
}

func (l p35Listener) Accept() (net.Conn, error) {
	c, err := l.Listener.Accept()
	if err != nil {
		err = errors.New("out of order")
	}
	return c, err
}

// p35Call is a call of Serve.
type p35Call struct {
	l        p35Listener
	conns    int
	ended    bool // by what was done
	returned bool
	err      error
}

type p35Conn struct {
	c     *memnet.Conn
	ended bool

	cl   *spClient // agents
	name string    // of the message whose handler waits

	h     *p35Handler // peers
	want  []sentUpdate
	syncs int
}

type p35Object struct {
	mu     *sync.Mutex
	kind   string
	noBase bool
	cancel context.CancelFunc
	calls  []*p35Call
	conns  []*p35Conn

	agent         *spop.Agent
	sp            *spWorld
	waiting, done map[string]bool

	peer     *peers.Peer
	handlers []*p35Handler
	bad      error
}

// p35Handler is a peer's, of one or all connections.
type p35Handler struct {
	o       *p35Object
	ctxs    map[net.Conn]context.Context
	updates map[net.Conn][]string
	closes  int
}

func (o *p35Object) newHandler() *p35Handler {
	h := &p35Handler{o: o, ctxs: map[net.Conn]context.Context{}, updates: map[net.Conn][]string{}}
	o.mu.Lock()
	defer o.mu.Unlock()
	o.handlers = append(o.handlers, h)
	return h
}

func (h *p35Handler) HandleHandshake(ctx context.Context, _ *peers.Handshake) {
	h.o.mu.Lock()
	defer h.o.mu.Unlock()
	h.ctxs[peers.Connection(ctx)] = ctx
}

func (h *p35Handler) HandleUpdate(ctx context.Context, u *sticktable.EntryUpdate) {
	h.o.mu.Lock()
	defer h.o.mu.Unlock()
	c := peers.Connection(ctx)
	h.updates[c] = append(h.updates[c], showUpdate(u))
}

func (h *p35Handler) Close() error {
	h.o.mu.Lock()
	defer h.o.mu.Unlock()
	h.closes++
	return nil
}

func newP35Object(kind string, noBase bool) *p35Object {
	o := &p35Object{mu: &sync.Mutex{}, kind: kind, noBase: noBase, waiting: map[string]bool{}, done: map[string]bool{}}
	if kind == "agent" {
		o.sp = newSpWorld()
		o.sp.cancel()
		o.sp.noBase = noBase
		o.agent = &spop.Agent{Handler: spop.HandlerFunc(o.sp.handle)}
		o.sp.other = func(ctx context.Context, _ *encoding.ActionWriter, m *encoding.Message) {
			name := string(m.NameBytes())
			o.mu.Lock()
			if !o.waiting[name] && o.bad == nil {
				o.bad = fmt.Errorf("the handler is called with %q", name)
			}
			o.mu.Unlock()
			<-ctx.Done()
			o.mu.Lock()
			defer o.mu.Unlock()
			o.done[name] = true
		}
	} else {
		o.peer = &peers.Peer{}
		if kind == "peer" {
			o.peer.Handler = o.newHandler()
		} else {
			o.peer.HandlerSource = func() peers.Handler { return o.newHandler() }
		}
	}
	o.base()
	return o
}

// base sets a base context.
func (o *p35Object) base() {
	if o.noBase {
		o.cancel = func() {}
		return
	}
	ctx, cancel := context.WithCancel(context.WithValue(context.Background(), ctxKey{}, o.sp))
	o.cancel = cancel
	if o.agent != nil {
		o.agent.BaseContext = ctx
	} else {
		o.peer.BaseContext = ctx
	}
}

func (o *p35Object) serve() {
	call := &p35Call{l: p35Listener{memnet.Listen()}}
	o.calls = append(o.calls, call)
	serve := func(l net.Listener) error { return o.agent.Serve(l) }
	if o.peer != nil {
		serve = func(l net.Listener) error { return o.peer.Serve(l) }
	}
	go func() {
		err := serve(call.l)
		o.mu.Lock()
		defer o.mu.Unlock()
		call.returned, call.err = true, err
	}()
}

// use goes on with a connection.
func (o *p35Object) use(c *p35Conn, op p35Op) {
	if o.agent == nil {
		msgs, want, _ := op.H.encode()
		c.want = append(c.want, want...)
		c.syncs += op.H.syncRequests()
		c.c.Feed(msgs...)
		return
	}
	if needed([]spNotify{*op.N}, c.cl.id) > int(c.cl.size) {
		return
	}
	k := len(c.cl.notifies)
	c.cl.notifies = append(c.cl.notifies[:k:k], *op.N)
	c.cl.finished = false
	go c.cl.exchange(o.sp, k, k)
}

func (o *p35Object) do(op p35Op, id int) {
	var calls []*p35Call
	for _, call := range o.calls {
		if !call.ended {
			calls = append(calls, call)
		}
	}
	var conns []*p35Conn
	busy := 0
	for _, c := range o.conns {
		switch {
		case c.ended:
		case c.name != "" && op.Kind != "end":
			busy++
		default:
			conns = append(conns, c)
		}
	}
	switch op.Kind {
	case "serve":
		o.serve()
	case "dial":
		if len(calls) == 0 {
			return
		}
		call := calls[op.Which%len(calls)]
		call.conns++
		c := &p35Conn{c: call.l.Dial(memnet.Options{})}
		o.conns = append(o.conns, c)
		if o.agent != nil {
			c.cl = &spClient{id: id, c: c.c, size: 16380, notifies: []spNotify{*op.N}}
			c.cl.size = max(c.cl.size, uint64(needed(c.cl.notifies, id)))
			go c.cl.run(o.sp)
		} else {
			c.c.Feed([]byte(peHello))
			o.use(c, op)
		}
	case "use":
		if len(conns) > 0 {
			o.use(conns[op.Which%len(conns)], op)
		}
	case "wait":
		if o.agent == nil || len(conns) == 0 || busy >= min(3, runtime.NumCPU()-1) {
			return
		}
		c := conns[op.Which%len(conns)]
		c.name = fmt.Sprint("wait ", id)
		o.mu.Lock()
		o.waiting[c.name] = true
		o.mu.Unlock()
		c.c.Feed(ref.AppendFrame(nil, ref.Frame{Type: ref.FNotify, Flags: ref.FlagFin, Stream: 7, ID: 7, Payload: ref.AppendMessage(nil, ref.Message{Name: ref.Str(c.name)})}))
	case "end":
		if len(conns) > 0 {
			c := conns[op.Which%len(conns)]
			c.ended = true
			c.c.EndInput(io.EOF)
		}
	case "fail":
		if len(calls) > 0 {
			call := calls[op.Which%len(calls)]
			call.ended = true
			call.l.Close()
		}
	case "cancel":
		if o.noBase {
			return
		}
		o.cancel()
		for _, call := range o.calls {
			call.ended = true
		}
		for _, c := range o.conns {
			if !c.ended && o.agent != nil {
				c.c.EndInput(io.EOF)
			}
			c.ended = true
		}
	}
}

func (o *p35Object) check() error {
	for i, call := range o.calls {
		if call.ended != call.returned {
			return fmt.Errorf("call %d of Serve: returned %v (%v), its listener or context is over: %v", i, call.returned, call.err, call.ended)
		}
		if call.ended && !call.l.Closed() {
			return fmt.Errorf("the listener of call %d stays open", i)
		}
		if call.returned && call.err == nil {
			return fmt.Errorf("call %d of Serve reports no error", i)
		}
	}
	if o.bad != nil {
		return o.bad
	}
	if o.sp != nil {
		if err := o.sp.err(); err != nil {
			return err
		}
	}
	ended := 0
	for i, c := range o.conns {
		if c.ended {
			ended++
		}
		if c.c.Closed() != c.ended {
			return fmt.Errorf("connection %d: closed %v, ended %v", i, c.c.Closed(), c.ended)
		}
		if o.agent != nil {
			if c.name != "" && o.done[c.name] != c.ended {
				return fmt.Errorf("connection %d: the context of the handler is over: %v, the connection: %v", i, o.done[c.name], c.ended)
			}
			if c.name == "" && !c.ended {
				if err := c.cl.settled(o.sp); err != nil {
					return err
				}
			}
			continue
		}
		if c.h == nil {
			for _, h := range o.handlers {
				if h.ctxs[c.c] != nil {
					c.h = h
				}
			}
		}
		if c.h == nil {
			return fmt.Errorf("connection %d has no handler", i)
		}
		if (c.h.ctxs[c.c].Err() != nil) != c.ended {
			return fmt.Errorf("connection %d: the context of the handler: %v, the connection is over: %v", i, c.h.ctxs[c.c].Err(), c.ended)
		}
		got := c.h.updates[c.c]
		if len(got) != len(c.want) {
			return fmt.Errorf("connection %d: %d updates reach the handler, %d were sent", i, len(got), len(c.want))
		}
		for j, u := range c.want {
			if s := shownAs(u.Table, u.U); got[j] != s {
				return fmt.Errorf("connection %d: update %d is %s, want %s", i, j, trunc(got[j]), trunc(s))
			}
		}
		if err := onlyPartials(c.c.Output(), c.syncs); err != nil {
			return fmt.Errorf("connection %d: %w", i, err)
		}
		if o.kind == "source" {
			want := 0
			if c.ended {
				want = 1
			}
			if len(c.h.ctxs) != 1 || c.h.closes != want {
				return fmt.Errorf("connection %d: its handler serves %d connections, is closed %d times", i, len(c.h.ctxs), c.h.closes)
			}
		}
	}
	if o.kind == "peer" && o.handlers[0].closes != ended {
		return fmt.Errorf("the handler is closed %d times, %d connections are over", o.handlers[0].closes, ended)
	}
	if o.kind == "source" && len(o.handlers) != len(o.conns) {
		return fmt.Errorf("%d handlers for %d connections", len(o.handlers), len(o.conns))
	}
	return nil
}

func p35Run(r *pbt.R, c p35Case) error {
	_, err := bubble(r, func() error {
		var objs []*p35Object
		for i, kind := range c.Objects {
			o := newP35Object(kind, c.NoBase[i])
			defer o.cancel()
			objs = append(objs, o)
		}
		defer func() {
			for _, o := range objs {
				o.cancel()
				for _, call := range o.calls {
					call.l.Close()
				}
				for _, c := range o.conns {
					c.c.EndInput(io.EOF)
				}
			}
			rest(time.Second)
		}()
		for n, op := range c.Ops {
			o := objs[op.Obj]
			o.do(op, n)
			rest(5 * time.Millisecond)
			for i, o := range objs {
				o.mu.Lock()
				err := o.check()
				o.mu.Unlock()
				if err != nil {
					return fmt.Errorf("after operation %d (%s of %s %d): %s %d: %w", n, op.Kind, c.Objects[op.Obj], op.Obj, o.kind, i, err)
				}
			}
			if op.Kind == "cancel" {
				o.base()
			}
			r.Count(op.Kind, 1)
		}
		for _, o := range objs {
			used := 0
			for _, call := range o.calls {
				if call.conns > 0 {
					used++
				}
			}
			r.NonTrivialIf(used > 1)
			if used > 1 {
				r.Label(o.kind + " with several listeners")
			}
		}
		return nil
	})
	return err
}
