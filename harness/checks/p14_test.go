package checks

import (
	"context"
	"encoding/binary"
	"fmt"
	"io"
	"runtime"
	"sync"
	"syscall"
	"time"

	"github.com/dropmorepackets/haproxy-go/pkg/encoding"
	"github.com/dropmorepackets/haproxy-go/spop"
	"pgregory.net/rapid"

	"verif/harness/memnet"
	"verif/harness/pbt"
	"verif/harness/ref"
)

// p14Op: "open" a connection, "notify" on one with a handler that returns at
// once (How: panics, or makes an ACK that is too large), "block" on one with a handler that waits for its context, "end" one in
// the given way, "wait", "base": cancel the base context.
type p14Op struct {
	Op   string
	Conn int     `json:",omitempty"`
	How  string  `json:",omitempty"`
	Code int     `json:",omitempty"`
	Odd  bool    `json:",omitempty"` // the message before the code
	Msg  ref.Str `json:",omitempty"`
	D    int     `json:",omitempty"` // s
}

type p14Case struct {
	Base string // how the base context ends: cancel, deadline, parent; none: no base context
	At   int    // s, half a second before the deadline
	Ops  []p14Op
}

func init() {
	pbt.Register(&pbt.Property{
		ID: "P14",
		Rule: "Histories of up to 40 steps against one agent: connections open, send NOTIFYs whose handlers return, panic, make an ACK that is too large or wait for their context, and end by DISCONNECT (any code, any message), EOF between or within frames, reset or an oversized frame, hours may pass, and the base context is cancelled, by itself, by its deadline or by its parent, or was never set; after each step the state of every context handed out, the handlers waiting for one, the listener and Serve are compared with the model. " +
			"Non-trivial: an ended connection next to a live one that both had handlers, or a cancelled base context with handlers waiting.",
		Parts: []*pbt.Part{
			pbt.NewPart("lifetimes", 5000, func(t *rapid.T) p14Case {
				c := p14Case{Base: pick(t, "base", "cancel", "cancel", "parent", "deadline", "none")}
				if c.Base == "deadline" {
					c.At = pick(t, "at", 0, 5, 30, 60, 3600, 100000)
				}
				for n := rapid.IntRange(1, 5).Draw(t, "open"); n > 0; n-- {
					c.Ops = append(c.Ops, p14Op{Op: "open"})
				}
				for n := genCount(t, "nops", 1, 40, 500); n > 0; n-- {
					op := p14Op{Conn: rapid.IntRange(0, 7).Draw(t, "conn")}
					switch k := rapid.IntRange(0, 19).Draw(t, "op"); {
					case k < 4:
						op.Op = "open"
					case k < 8:
						op.Op = "notify"
						op.How = pick(t, "incident", "", "", "panic", "large")
					case k < 12:
						op.Op = "block"
					case k < 17:
						op.Op = "end"
						op.How = pick(t, "how", "disconnect", "disconnect", "eof", "midframe", "reset", "oversized")
						op.Code = genP14Code(t)
						op.Odd = rapid.Bool().Draw(t, "odd")
						op.Msg = genStr(t, "msg", 300)
					case k < 19:
						op.Op = "wait"
						op.D = pick(t, "d", 1, 1, 60, 3600, 100000)
					default:
						op.Op = "base"
					}
					c.Ops = append(c.Ops, op)
				}
				return c
			}, p14Run),
			pbt.NewPart("saturated", 1500, func(t *rapid.T) p14Busy {
				var c p14Busy
				for n := rapid.IntRange(1, 5*runtime.NumCPU()).Draw(t, "conns"); n > 0; n-- {
					c.Ends = append(c.Ends, p14End{
						After: chance(t, "later", 50),
						How:   pick(t, "how", "disconnect", "disconnect", "eof", "midframe", "reset", "oversized", "stay"),
						Code:  genP14Code(t),
					})
				}
				return c
			}, p14Saturated),
		},
	})
}

// p14End is a connection with a handler that waits for its context, and how it
// ends: in the first or in the second half.
type p14End struct {
	After bool
	How   string
	Code  int
}

type p14Busy struct {
	Ends []p14End
}

// p14Saturated has more handlers waiting for their context than the agent may
// be able to run at once.
func p14Saturated(r *pbt.R, c p14Busy) error {
	_, err := bubble(r, func() error {
		base, cancel := context.WithCancel(context.Background())
		defer cancel()
		var mu sync.Mutex
		ctxs := make([]context.Context, len(c.Ends))
		returned := make([]bool, len(c.Ends))
		var failure error
		l := memnet.Listen()
		agent := &spop.Agent{BaseContext: base, Handler: spop.HandlerFunc(func(ctx context.Context, _ *encoding.ActionWriter, m *encoding.Message) {
			var id int
			mu.Lock()
			if _, err := fmt.Sscanf(string(m.NameBytes()), "block %d", &id); err != nil || id >= len(c.Ends) || ctxs[id] != nil {
				failure = fmt.Errorf("unexpected message %q", m.NameBytes())
				mu.Unlock()
				return
			}
			ctxs[id] = ctx
			mu.Unlock()
			<-ctx.Done()
			mu.Lock()
			returned[id] = true
			mu.Unlock()
		})}
		go func() { _ = agent.Serve(l) }()
		conns := make([]*memnet.Conn, len(c.Ends))
		ended := make([]bool, len(c.Ends))
		defer func() {
			cancel()
			for _, nc := range conns {
				if nc != nil {
					nc.EndInput(io.EOF)
				}
			}
			rest(time.Second)
		}()
		look := func(when string, over bool) error {
			rest(time.Second)
			mu.Lock()
			defer mu.Unlock()
			if failure != nil {
				return failure
			}
			running, idle := 0, 0
			for i := range conns {
				switch {
				case ctxs[i] == nil:
					if !ended[i] {
						idle++
					}
				case (ctxs[i].Err() != nil) != (ended[i] || over):
					return fmt.Errorf("%s: connection %d ended: %v (by %s), the context of its handler: %v", when, i, ended[i], c.Ends[i].How, ctxs[i].Err())
				case ctxs[i].Err() != nil && !returned[i]:
					return fmt.Errorf("%s: handler %d still waits for its context", when, i)
				case ctxs[i].Err() == nil:
					running++
				}
			}
			if idle > 0 && running == 0 && !over {
				return fmt.Errorf("%s: %d NOTIFYs are not handled although no handler is running", when, idle)
			}
			r.NonTrivialIf(idle > 0)
			return nil
		}

		for i := range conns {
			conns[i] = l.Dial(memnet.Options{})
			conns[i].Feed(ref.AppendFrame(nil, helloFrame(helloKVs(16380))))
			conns[i].Feed(ref.AppendFrame(nil, ref.Frame{Type: ref.FNotify, Flags: ref.FlagFin, Stream: 1, ID: 1, Payload: ref.AppendMessage(nil, ref.Message{Name: ref.Str(fmt.Sprintf("block %d", i))})}))
		}
		if err := look("at first", false); err != nil {
			return err
		}
		for half := 0; half < 2; half++ {
			for i, e := range c.Ends {
				if e.After != (half == 1) || e.How == "stay" {
					continue
				}
				ended[i] = true
				p14EndConn(conns[i], e)
				r.Label("ended by " + e.How)
				if half == 1 {
					if err := look(fmt.Sprintf("after the end of %d", i), false); err != nil {
						return err
					}
				}
			}
			if err := look("after the ends", false); err != nil {
				return err
			}
		}
		cancel()
		return look("after the end of the base context", true)
	})
	return err
}

func genP14Code(t *rapid.T) int {
	if chance(t, "odd code", 15) {
		return int(genU32(t, "code"))
	}
	return pick(t, "code", append(seq(17), 99)...)
}

func seq(n int) (s []int) {
	for i := range n {
		s = append(s, i)
	}
	return s
}

func p14EndConn(nc *memnet.Conn, e p14End) {
	switch e.How {
	case "disconnect":
		kvs := []ref.KV{{Name: ref.Str("status-code"), V: ref.Value{T: ref.TUInt32, Int: uint64(e.Code)}}, {Name: ref.Str("message"), V: ref.Value{T: ref.TString, Bytes: ref.Str("bye")}}}
		nc.Feed(ref.AppendFrame(nil, ref.Frame{Type: ref.FHaproxyDisconnect, Flags: ref.FlagFin, Payload: ref.AppendKVs(nil, kvs)}))
	case "eof":
		nc.EndInput(io.EOF)
	case "midframe":
		nc.Feed([]byte{0, 0, 1, 0, 3}[:1+e.Code%5])
		nc.EndInput(io.EOF)
	case "reset":
		nc.FailWrites(syscall.EPIPE)
		nc.EndInput(syscall.ECONNRESET)
	case "oversized":
		nc.Feed(binary.BigEndian.AppendUint32(nil, 16381))
	}
}

type p14Ctx struct {
	ctx      context.Context
	waiting  bool // for ctx
	returned bool
}

type p14Conn struct {
	c     *memnet.Conn
	ended bool
	sent  int
	ctxs  []*p14Ctx
}

type p14Key struct{}

func p14Run(r *pbt.R, c p14Case) error {
	_, err := bubble(r, func() error {
		parent, cancelParent := context.WithCancel(context.WithValue(context.Background(), p14Key{}, "parent"))
		defer cancelParent()
		base, cancel := context.WithCancel(parent)
		switch c.Base {
		case "deadline":
			base, cancel = context.WithTimeout(parent, time.Duration(c.At)*time.Second+time.Second/2)
		case "none":
			base = nil
		}
		defer cancel()
		start := time.Now()

		var mu sync.Mutex
		var conns []*p14Conn
		var failure error
		l := memnet.Listen()
		agent := &spop.Agent{BaseContext: base, Handler: spop.HandlerFunc(func(ctx context.Context, w *encoding.ActionWriter, m *encoding.Message) {
			var id int
			var kind string
			mu.Lock()
			if _, err := fmt.Sscanf(string(m.NameBytes()), "%s %d", &kind, &id); err != nil || id >= len(conns) {
				failure = fmt.Errorf("message %q", m.NameBytes())
				mu.Unlock()
				return
			}
			x := &p14Ctx{ctx: ctx, waiting: kind == "block"}
			conns[id].ctxs = append(conns[id].ctxs, x)
			mu.Unlock()
			if x.waiting {
				<-ctx.Done()
			}
			mu.Lock()
			x.returned = true
			mu.Unlock()
			switch kind {
			case "panic":
				panic("deliberate")
			case "large":
				if err := w.SetBinary(encoding.VarScopeRequest, "large", make([]byte, 20000)); err != nil {
					panic(err)
				}
			}
		})}
		served := false
		go func() {
			_ = agent.Serve(l)
			mu.Lock()
			served = true
			mu.Unlock()
		}()
		defer func() {
			for _, pc := range conns {
				pc.c.EndInput(io.EOF)
			}
			_ = l.Close()
			rest(time.Second)
		}()

		cancelled := false
		look := func() error {
			rest(time.Second)
			if c.Base == "deadline" && time.Since(start) > time.Duration(c.At)*time.Second {
				cancelled = true
			}
			mu.Lock()
			defer mu.Unlock()
			if failure != nil {
				return failure
			}
			if served != cancelled || l.Closed() != cancelled {
				return fmt.Errorf("base context cancelled: %v, listener closed: %v, Serve returned: %v", cancelled, l.Closed(), served)
			}
			live, dead := false, false
			for i, pc := range conns {
				if pc.sent != len(pc.ctxs) {
					return fmt.Errorf("connection %d: %d handlers called for %d NOTIFYs", i, len(pc.ctxs), pc.sent)
				}
				over := pc.ended || cancelled
				for k, x := range pc.ctxs {
					if (x.ctx.Err() != nil) != over {
						return fmt.Errorf("connection %d ended: %v, base context cancelled: %v, context of handler %d: %v", i, pc.ended, cancelled, k, x.ctx.Err())
					}
					if over && !x.returned {
						return fmt.Errorf("connection %d: handler %d still waits for its context", i, k)
					}
					if base != nil && x.ctx.Value(p14Key{}) != "parent" {
						return fmt.Errorf("connection %d: context of handler %d is not derived from the base context", i, k)
					}
					dead = dead || over
					live = live || !over
					r.NonTrivialIf(cancelled && x.waiting)
				}
				if !over && pc.c.Closed() {
					return fmt.Errorf("connection %d is closed by the agent", i)
				}
			}
			r.NonTrivialIf(live && dead)
			return nil
		}
		waiting := func() int { // handlers
			n := 0
			for _, pc := range conns {
				for _, x := range pc.ctxs {
					if !x.returned {
						n++
					}
				}
			}
			return n
		}

		if err := look(); err != nil {
			return err
		}
		for step, op := range c.Ops {
			if cancelled {
				break
			}
			var pc *p14Conn
			if len(conns) > 0 {
				op.Conn %= len(conns)
				if pc = conns[op.Conn]; pc.ended {
					pc = nil
				}
			}
			switch op.Op {
			case "open":
				if len(conns) == 8 {
					continue
				}
				nc := &p14Conn{c: l.Dial(memnet.Options{})}
				mu.Lock()
				conns = append(conns, nc)
				mu.Unlock()
				nc.c.Feed(ref.AppendFrame(nil, helloFrame(helloKVs(16380))))
			case "notify", "block":
				// One worker stays free: the others may all be waiting.
				if pc == nil || op.Op == "block" && waiting() >= runtime.NumCPU()-1 {
					continue
				}
				pc.sent++
				name := fmt.Sprintf("%s %d", op.Op, op.Conn)
				if op.Op == "notify" && op.How != "" {
					name = fmt.Sprintf("%s %d", op.How, op.Conn)
					r.Label("handler: " + op.How)
				}
				pc.c.Feed(ref.AppendFrame(nil, ref.Frame{Type: ref.FNotify, Flags: ref.FlagFin, Stream: 1, ID: uint64(pc.sent), Payload: ref.AppendMessage(nil, ref.Message{Name: ref.Str(name)})}))
			case "end":
				if pc == nil {
					continue
				}
				pc.ended = true
				r.Label("ended by " + op.How)
				switch op.How {
				case "disconnect":
					kvs := []ref.KV{{Name: ref.Str("status-code"), V: ref.Value{T: ref.TUInt32, Int: uint64(op.Code)}}, {Name: ref.Str("message"), V: ref.Value{T: ref.TString, Bytes: op.Msg}}}
					if op.Odd {
						kvs[0], kvs[1] = kvs[1], kvs[0]
					}
					pc.c.Feed(ref.AppendFrame(nil, ref.Frame{Type: ref.FHaproxyDisconnect, Flags: ref.FlagFin, Payload: ref.AppendKVs(nil, kvs)}))
				case "eof":
					pc.c.EndInput(io.EOF)
				case "midframe":
					pc.c.Feed([]byte{0, 0, 1, 0, 3}[:1+op.Code%5])
					pc.c.EndInput(io.EOF)
				case "reset":
					pc.c.FailWrites(syscall.EPIPE)
					pc.c.EndInput(syscall.ECONNRESET)
				case "oversized":
					pc.c.Feed(binary.BigEndian.AppendUint32(nil, 16381))
				}
			case "wait":
				time.Sleep(time.Duration(op.D) * time.Second)
			case "base":
				switch c.Base {
				case "cancel":
					cancel()
				case "parent":
					cancelParent()
				default:
					continue
				}
				cancelled = true
			}
			if err := look(); err != nil {
				return fmt.Errorf("step %d %+v: %w", step, op, err)
			}
		}
		return nil
	})
	return err
}
