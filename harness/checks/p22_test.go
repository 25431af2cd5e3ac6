package checks

import (
	"context"
	"errors"
	"fmt"
	"io"
	"runtime"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/dropmorepackets/haproxy-go/peers"
	"github.com/dropmorepackets/haproxy-go/peers/sticktable"
	"pgregory.net/rapid"

	"verif/harness/memnet"
	"verif/harness/pbt"
	"verif/harness/ref"
)

type p22Session struct {
	Start     int    // ms
	Hello     string // "", "none", "part", "junk", "long"
	Handshake int    `json:",omitempty"` // ms HandleHandshake takes
	Updates   int
	Busy      []int  `json:",omitempty"` // ms each update takes
	Gap       int    `json:",omitempty"` // ms between updates
	Sends     bool   `json:",omitempty"` // the handler sends entries from a goroutine of its own until that fails
	End       string // how it ends: see p22Ends
	After     int    // ms until then
	Part      bool   `json:",omitempty"` // in the middle of a message
	Yield     int
	CloseErr  bool `json:",omitempty"` // the handler's Close returns an error
}

type p22Case struct {
	Shared   bool // one handler for all
	Sessions []p22Session
	Cancel   int // ms after which the base context is cancelled; 0: when all is over
}

var p22Ends = []string{"eof", "reset", "error", "unknown class", "unknown type", "bad update", "bad definition", "silence", "write", "alive"}

func init() {
	pbt.Register(&pbt.Property{
		ID: "P22",
		Rule: "1-6 sessions at once, rarely 140, with a source of handlers or one shared handler: no, partial, wrong or proper handshakes, up to 8 updates, handlers that take up to 20 s, fail to close, or send from goroutines of their own; ended at any moment, also inside a message or a busy handler, by EOF, reset, error messages, unknown classes and types, undecodable data, silence, failing writes, or kept alive; the base context is cancelled in the middle or at the end. Goroutines are counted. Race detector. " +
			"Non-trivial: a session that ends other than by silence, or several.",
		Parts: []*pbt.Part{
			pbt.NewPart("endings", 2500, func(t *rapid.T) p22Case {
				c := p22Case{Shared: chance(t, "shared", 25)}
				if chance(t, "cancel", 40) {
					c.Cancel = rapid.IntRange(1, 12000).Draw(t, "at")
				}
				n := genCount(t, "sessions", 1, 6, 300)
				if chance(t, "many", 3) {
					n = pick(t, "many sessions", 17, 40, 70, 140)
				}
				for ; n > 0; n-- {
					s := p22Session{
						Start:    pick(t, "start", 0, 0, 1, 10, 4000),
						Updates:  genCount(t, "updates", 0, 8, 1000),
						Gap:      pick(t, "gap", 0, 0, 1, 100, 3000),
						End:      p22Ends[rapid.IntRange(0, len(p22Ends)-1).Draw(t, "end")],
						After:    pick(t, "after", 0, 0, 1, 10, 1000, 4500),
						Part:     chance(t, "part", 30),
						Yield:    rapid.IntRange(0, 2).Draw(t, "yield"),
						Sends:    chance(t, "sends", 20),
						CloseErr: chance(t, "close", 20),
					}
					if s.Updates > 8 {
						s.Gap = min(s.Gap, 100)
					}
					if chance(t, "bad hello", 15) {
						s.Hello = pick(t, "hello", "none", "part", "junk", "long")
					}
					if chance(t, "slow handshake", 25) {
						s.Handshake = pick(t, "handshake", 1, 1000, 20000)
					}
					if chance(t, "busy", 40) {
						s.Busy = rapid.SliceOfN(rapid.SampledFrom([]int{0, 1, 10, 4000, 20000}), 0, 8).Draw(t, "busies")
					}
					c.Sessions = append(c.Sessions, s)
				}
				return c
			}, p22Run),
		},
	})
}

// p22Shared is a handler for all sessions.
type p22Shared struct {
	w        *peWorld
	mu       sync.Mutex
	of       map[any]*peSession
	closes   int
	closeErr error
}

func (h *p22Shared) session(ctx context.Context) *peSession {
	c := peers.Connection(ctx)
	h.mu.Lock()
	defer h.mu.Unlock()
	return h.of[c]
}

func (h *p22Shared) HandleHandshake(ctx context.Context, hs *peers.Handshake) {
	h.session(ctx).HandleHandshake(ctx, hs)
}

func (h *p22Shared) HandleUpdate(ctx context.Context, u *sticktable.EntryUpdate) {
	h.session(ctx).HandleUpdate(ctx, u)
}

func (h *p22Shared) Close() error {
	h.mu.Lock()
	defer h.mu.Unlock()
	h.closes++
	return h.closeErr
}

// libGoroutines counts the goroutines of this bubble that run library code.
func libGoroutines() (n int, stacks string) {
	return goroutines("dropmorepackets/haproxy-go/peers")
}

// goroutines counts those of this bubble whose stack contains what.
func goroutines(what string) (n int, stacks string) {
	// Workers of agents in other bubbles remain, so this can get long.
	buf := make([]byte, 1<<20)
	for runtime.Stack(buf, true) == len(buf) {
		buf = make([]byte, 2*len(buf))
	}
	buf = buf[:runtime.Stack(buf, true)]
	gs := strings.Split(string(buf), "\n\n")
	bubble := func(g string) string {
		head, _, _ := strings.Cut(g, "\n")
		_, b, _ := strings.Cut(head, "synctest bubble ")
		return b
	}
	own := bubble(gs[0])
	if own == "" {
		panic(pbt.Harness("not in a bubble: " + gs[0]))
	}
	for _, g := range gs {
		if bubble(g) == own && strings.Contains(g, what) {
			n++
			stacks += g + "\n\n"
		}
	}
	return n, stacks
}

// script sends what the session sends, and ends it.
func (s p22Session) script(conn *memnet.Conn) {
	d := ref.Table{ID: 1, Name: ref.Str("t"), KeyType: ref.KInt, KeyLen: 4}
	time.Sleep(time.Duration(s.Start) * ms)
	switch s.Hello {
	case "part":
		conn.Feed([]byte(peHello[:20]))
	case "junk":
		conn.Feed([]byte("GET / HTTP/1.1\r\n\r\nHost: x\n\n"))
	case "long":
		conn.Feed(letters('l', 100_000), []byte("\n"))
	case "":
		conn.Feed([]byte(peHello))
		conn.Feed(ref.AppendMsg(nil, ref.Msg{Class: ref.ClassTable, Type: ref.MsgDefinition, Data: ref.AppendTable(nil, d)}))
		for i := 0; i < s.Updates; i++ {
			conn.Feed(ref.AppendMsg(nil, ref.UpdateMsg(d, ref.Update{ID: uint32(i), Key: ref.Str{0, 0, 0, byte(i)}})))
			time.Sleep(time.Duration(s.Gap) * ms)
		}
		if s.Part {
			conn.Feed([]byte{ref.ClassTable, ref.MsgUpdate, 8, 0, 0})
		}
	}
	if s.End != "alive" {
		time.Sleep(time.Duration(s.After) * ms)
	}
	complete := func() {
		if s.Part && s.Hello == "" {
			conn.Feed([]byte{0, 9, 0, 0, 0, 9})
		}
	}
	var m ref.Msg
	switch s.End {
	case "eof":
		conn.EndInput(io.EOF)
		return
	case "reset":
		conn.EndInput(syscall.ECONNRESET)
		conn.FailWrites(syscall.EPIPE)
		return
	case "write":
		conn.FailWrites(syscall.EPIPE)
		return
	case "silence":
		return
	case "alive":
		complete()
		for i := 0; i < 1500 && !conn.Closed(); i++ { // longer than any case takes
			conn.Feed([]byte{ref.ClassControl, ref.CtlHeartbeat})
			time.Sleep(3 * time.Second)
		}
		return
	case "error":
		m = ref.Msg{Class: ref.ClassError, Type: s.After % 3}
	case "unknown class":
		m = ref.Msg{Class: 2 + s.After%7, Type: s.After % 200}
	case "unknown type":
		m = ref.Msg{Class: ref.ClassTable, Type: 0x87 + s.After%100}
	case "bad update":
		m = ref.Msg{Class: ref.ClassTable, Type: ref.MsgUpdate, Data: ref.Str{1, 2, 3}}
	case "bad definition":
		m = ref.Msg{Class: ref.ClassTable, Type: ref.MsgDefinition, Data: ref.Str{1, 200}}
	}
	complete()
	conn.Feed(ref.AppendMsg(nil, m))
}

// lasts tells whether nothing but the base context must end the session: a
// handshake may take forever.
func (s p22Session) lasts() bool {
	switch s.Hello {
	case "none", "part":
		return s.End != "eof" && s.End != "reset"
	case "":
		return s.End == "alive"
	}
	return false
}

func p22Run(r *pbt.R, c p22Case) error {
	r.NonTrivialIf(len(c.Sessions) > 1)
	leaked, err := bubble(r, func() error {
		w := newPeWorld()
		w.onHandshake = func(s *peSession, ctx context.Context, _ *peers.Handshake) {
			sc := c.Sessions[s.id]
			time.Sleep(time.Duration(sc.Handshake) * ms)
			if !sc.Sends {
				return
			}
			wr := peers.WriterFromContext(ctx)
			def := &sticktable.Definition{StickTableID: 1, Name: "t", KeyType: sticktable.KeyTypeSignedInteger, KeyLength: 4}
			k := sticktable.SignedIntegerKey(1)
			go func() {
				for wr.SendEntries([]*sticktable.EntryUpdate{{StickTable: def, Key: &k}, {StickTable: def, Key: &k, WithExpiry: true}}) == nil {
					time.Sleep(700 * ms)
				}
			}()
		}
		w.onUpdate = func(s *peSession, _ context.Context, n int) {
			if busy := c.Sessions[s.id].Busy; n < len(busy) {
				time.Sleep(time.Duration(busy[n]) * ms)
			}
		}
		errClose := errors.New("close failed")
		w.closeErr = func(id int) error {
			if id < len(c.Sessions) && c.Sessions[id].CloseErr {
				return errClose
			}
			return nil
		}
		shared := &p22Shared{w: w, of: map[any]*peSession{}}
		for _, s := range c.Sessions {
			if s.CloseErr {
				shared.closeErr = errClose
			}
		}
		if c.Shared {
			w.peer.HandlerSource = nil
			w.peer.Handler = shared
			for i := range c.Sessions {
				w.sessions = append(w.sessions, &peSession{w: w, id: i})
			}
		}
		w.serve()
		rest(0)
		base, _ := libGoroutines()
		// When all handlers are surely done.
		longest := 0
		for i, s := range c.Sessions {
			shared.mu.Lock()
			conn := w.dial(memnet.Options{Yield: s.Yield})
			if c.Shared {
				shared.of[conn] = w.sessions[i]
			}
			shared.mu.Unlock()
			n := s.Start + s.Handshake + s.Updates*s.Gap + s.After
			for _, b := range s.Busy {
				n += b
			}
			longest = max(longest, n)
			r.NonTrivialIf(s.End != "silence" && s.Hello == "")
			r.Label("end " + s.End)
			go s.script(conn)
		}
		total := time.Duration(longest)*ms + 20*time.Second
		if c.Cancel > 0 {
			time.Sleep(time.Duration(c.Cancel) * ms)
			w.cancel()
			rest(time.Millisecond)
			w.mu.Lock()
			served := w.served
			w.mu.Unlock()
			if !served || !w.l.Closed() {
				return fmt.Errorf("Serve does not return when the base context is cancelled")
			}
			for i, conn := range w.conns {
				if !conn.Closed() {
					return fmt.Errorf("connection %d (%+v) is not closed when the base context is cancelled", i, c.Sessions[i])
				}
			}
			base = 0
		}
		rest(total)
		if err := w.err(); err != nil {
			return err
		}
		lasting := 0
		for i, s := range c.Sessions {
			conn, ps := w.conns[i], w.session(i)
			if ps == nil {
				return fmt.Errorf("connection %d has no handler", i)
			}
			if s.lasts() && c.Cancel == 0 {
				lasting++
				if s.End == "alive" && s.Hello == "" && (conn.Closed() || ps.closes > 0 || ps.ctx == nil || ps.ctx.Err() != nil) {
					return fmt.Errorf("session %d (%+v) is ended although nothing is wrong with it", i, s)
				}
				continue
			}
			if err := p22Ended(conn, ps, c.Shared); err != nil {
				return fmt.Errorf("session %d (%+v, base context cancelled after %d ms): %w", i, s, c.Cancel, err)
			}
		}
		if n, stacks := libGoroutines(); lasting == 0 && n > base {
			return fmt.Errorf("%d goroutines are left, %d at the beginning: %s", n, base, stacks)
		}
		w.cancel()
		rest(total)
		w.mu.Lock()
		served := w.served
		w.mu.Unlock()
		if !served {
			return fmt.Errorf("Serve does not return when the base context is cancelled")
		}
		for i, s := range c.Sessions {
			if err := p22Ended(w.conns[i], w.session(i), c.Shared); err != nil {
				return fmt.Errorf("session %d (%+v), in the end: %w", i, s, err)
			}
		}
		shared.mu.Lock()
		defer shared.mu.Unlock()
		if c.Shared && shared.closes != len(c.Sessions) {
			return fmt.Errorf("the handler of %d sessions is closed %d times", len(c.Sessions), shared.closes)
		}
		if n, stacks := libGoroutines(); n > 0 {
			return fmt.Errorf("%d goroutines are left in the end: %s", n, stacks)
		}
		if len(w.sessions) != len(c.Sessions) {
			return fmt.Errorf("%d handlers for %d connections", len(w.sessions), len(c.Sessions))
		}
		return w.err()
	})
	if err == nil && leaked {
		return fmt.Errorf("goroutines are left after the end")
	}
	return err
}

func p22Ended(conn *memnet.Conn, s *peSession, shared bool) error {
	if !conn.Closed() {
		return fmt.Errorf("its connection is not closed")
	}
	if s.ctx != nil && s.ctx.Err() == nil {
		return fmt.Errorf("its context is not cancelled")
	}
	if len(s.handshakes) > 1 {
		return fmt.Errorf("HandleHandshake is called %d times", len(s.handshakes))
	}
	if !shared && s.closes != 1 {
		return fmt.Errorf("its handler is closed %d times", s.closes)
	}
	return nil
}
