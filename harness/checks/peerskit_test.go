package checks

import (
	"bytes"
	"context"
	"fmt"
	"sync"
	"time"

	"github.com/dropmorepackets/haproxy-go/peers"
	"github.com/dropmorepackets/haproxy-go/peers/sticktable"
	"pgregory.net/rapid"

	"verif/harness/memnet"
	"verif/harness/ref"
)

// peWorld is a peer with handlers that log what they are called with. The
// n-th session is the one of the n-th connection dialled.
type peWorld struct {
	l      *memnet.Listener
	peer   *peers.Peer
	cancel context.CancelFunc

	mu       sync.Mutex
	served   bool
	conns    []*memnet.Conn
	tcp      []*tcpConn // instead of conns
	noBase   bool       // the peer has no base context
	sessions []*peSession
	errs     []error

	// Called by the handlers, without the lock.
	onHandshake func(*peSession, context.Context, *peers.Handshake)
	onUpdate    func(*peSession, context.Context, int)

	// The handlers are functions, called for updates only.
	funcs bool

	// What the Close of a session's handler returns.
	closeErr func(id int) error
}

type peSession struct {
	w          *peWorld
	id         int
	ctx        context.Context
	handshakes []peers.Handshake
	updates    []peUpdate
	closes     int
	closedAt   time.Time
	busy       bool
	closeErr   error
}

// peUpdate is an update the handler got, and how it looked then.
type peUpdate struct {
	u    *sticktable.EntryUpdate
	at   time.Time
	seen string
}

func newPeWorld() *peWorld {
	w := &peWorld{l: memnet.Listen()}
	ctx, cancel := context.WithCancel(context.WithValue(context.Background(), ctxKey{}, w))
	w.cancel = cancel
	w.peer = &peers.Peer{BaseContext: ctx, HandlerSource: func() peers.Handler {
		w.mu.Lock()
		defer w.mu.Unlock()
		s := &peSession{w: w, id: len(w.sessions)}
		if w.closeErr != nil {
			s.closeErr = w.closeErr(s.id)
		}
		w.sessions = append(w.sessions, s)
		if w.funcs {
			s.handshakes = []peers.Handshake{{}}
			return peers.HandlerFunc(s.HandleUpdate)
		}
		return s
	}}
	return w
}

// useFunc makes a function the handler of all sessions, of which there must
// be no more than one.
func (w *peWorld) useFunc() {
	w.funcs = true
	w.peer.Handler = w.peer.HandlerSource()
	w.peer.HandlerSource = nil
}

func (w *peWorld) serve() {
	go func() {
		_ = w.peer.Serve(w.l)
		w.mu.Lock()
		defer w.mu.Unlock()
		w.served = true
	}()
}

func (w *peWorld) dial(o memnet.Options) *memnet.Conn {
	c := w.l.Dial(o)
	w.mu.Lock()
	defer w.mu.Unlock()
	w.conns = append(w.conns, c)
	return c
}

func (w *peWorld) fail(format string, args ...any) {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.errs = append(w.errs, fmt.Errorf(format, args...))
}

func (w *peWorld) err() error {
	w.mu.Lock()
	defer w.mu.Unlock()
	if len(w.errs) > 0 {
		return w.errs[0]
	}
	return nil
}

// session returns the one of the n-th connection, or nil.
func (w *peWorld) session(n int) *peSession {
	w.mu.Lock()
	defer w.mu.Unlock()
	if n >= len(w.sessions) {
		return nil
	}
	return w.sessions[n]
}

// enter checks that the handler's methods are called one at a time, with the
// right context, and none after Close.
func (s *peSession) enter(what string, ctx context.Context) {
	w := s.w
	w.mu.Lock()
	defer w.mu.Unlock()
	fail := func(format string, args ...any) {
		w.errs = append(w.errs, fmt.Errorf("session %d: "+format, append([]any{s.id}, args...)...))
	}
	if s.busy {
		fail("%s is called while another call is going on", what)
	}
	s.busy = true
	if s.closes > 0 && what != "Close" {
		fail("%s is called after Close", what)
	}
	if ctx == nil {
		return
	}
	if !w.noBase && ctx.Value(ctxKey{}) != w {
		fail("the context of %s is not derived from the base context", what)
	}
	if w.tcp != nil {
		if s.id >= len(w.tcp) || peers.Connection(ctx).RemoteAddr().String() != w.tcp[s.id].nc.LocalAddr().String() {
			fail("%s is called for another connection's", what)
		}
	} else if s.id >= len(w.conns) {
		fail("there is no such connection")
	} else if c := peers.Connection(ctx); c != w.conns[s.id] {
		fail("%s is called for another connection's", what)
	}
	if peers.WriterFromContext(ctx) == nil {
		fail("no writer in the context of %s", what)
	}
	if s.ctx == nil {
		s.ctx = ctx
	}
	if what == "HandleUpdate" && len(s.handshakes) == 0 {
		fail("HandleUpdate is called before HandleHandshake")
	}
	if what == "HandleHandshake" && len(s.handshakes) > 0 {
		fail("HandleHandshake is called again")
	}
}

func (s *peSession) leave() {
	s.w.mu.Lock()
	defer s.w.mu.Unlock()
	s.busy = false
}

func (s *peSession) HandleHandshake(ctx context.Context, h *peers.Handshake) {
	s.enter("HandleHandshake", ctx)
	defer s.leave()
	s.w.mu.Lock()
	s.handshakes = append(s.handshakes, *h)
	f := s.w.onHandshake
	s.w.mu.Unlock()
	if f != nil {
		f(s, ctx, h)
	}
}

func (s *peSession) HandleUpdate(ctx context.Context, u *sticktable.EntryUpdate) {
	s.enter("HandleUpdate", ctx)
	defer s.leave()
	s.w.mu.Lock()
	s.updates = append(s.updates, peUpdate{u, time.Now(), showUpdate(u)})
	n := len(s.updates) - 1
	f := s.w.onUpdate
	s.w.mu.Unlock()
	if f != nil {
		f(s, ctx, n)
	}
}

func (s *peSession) Close() error {
	s.enter("Close", nil)
	defer s.leave()
	s.w.mu.Lock()
	defer s.w.mu.Unlock()
	s.closes++
	s.closedAt = time.Now()
	return s.closeErr
}

// showUpdate tells everything about an update.
func showUpdate(e *sticktable.EntryUpdate) string {
	if e.StickTable == nil {
		return "no table"
	}
	d := refTable(e.StickTable)
	u, err := refUpdate(d, e)
	return fmt.Sprintf("%+v %+v %v", d, u, err)
}

// shownAs is what showUpdate returns for u.
func shownAs(d ref.Table, u ref.Update) string {
	return fmt.Sprintf("%+v %+v %v", d, u, error(nil))
}

// sameUpdates compares what the handler got, and what has become of it, with
// what was sent.
func (s *peSession) sameUpdates(want []sentUpdate) error {
	s.w.mu.Lock()
	defer s.w.mu.Unlock()
	for i, w := range want {
		if i >= len(s.updates) {
			return fmt.Errorf("session %d: only %d of %d updates reached the handler, %s is missing", s.id, len(s.updates), len(want), trunc(w.U))
		}
		e := s.updates[i].u
		show := showUpdate(e)
		if show != s.updates[i].seen {
			return fmt.Errorf("session %d: update %d changed after it was handed out from %s to %s", s.id, i, trunc(s.updates[i].seen), trunc(show))
		}
		d := refTable(e.StickTable)
		if !sameTable(d, w.Table) {
			return fmt.Errorf("session %d: update %d is of table %s, want %s", s.id, i, trunc(d), trunc(w.Table))
		}
		u, err := refUpdate(d, e)
		if err != nil {
			return fmt.Errorf("session %d: update %d: %w", s.id, i, err)
		}
		if !sameUpdate(u, w.U) {
			return fmt.Errorf("session %d: update %d is %s, want %s", s.id, i, trunc(u), trunc(w.U))
		}
	}
	if len(s.updates) > len(want) {
		return fmt.Errorf("session %d: %d updates reached the handler, only %d were sent; the first of the others is %s", s.id, len(s.updates), len(want), trunc(s.updates[len(want)].seen))
	}
	return nil
}

// sentUpdate is an update as the handler should see it.
type sentUpdate struct {
	Table ref.Table
	U     ref.Update
}

// peMsg is a message from the remote: a definition of, or an update for, one
// of the case's tables, or anything else.
type peMsg struct {
	Def   int         `json:",omitempty"` // index+1 of a table
	U     *ref.Update `json:",omitempty"` // for the table defined last
	Other *ref.Msg    `json:",omitempty"`
}

// peHistory is a conforming history of messages.
type peHistory struct {
	Tables []ref.Table
	Msgs   []peMsg
}

func genHistory(t *rapid.T, maxMsgs, maxLen int) peHistory {
	return genHistoryOf(t, rapid.IntRange(1, 4).Draw(t, "ntables"), maxMsgs, maxLen)
}

func genHistoryOf(t *rapid.T, tables, maxMsgs, maxLen int) peHistory {
	var h peHistory
	for n := tables; n > 0; n-- {
		h.Tables = append(h.Tables, genTable(t, 6))
	}
	current, full := -1, true
	for n := genCount(t, "nmsgs", 0, maxMsgs, max(maxMsgs, countOf(maxLen, 3000))); n > 0; n-- {
		switch k := rapid.IntRange(0, 9).Draw(t, "msg"); {
		case k < 2 || current < 0 && k < 8:
			current = rapid.IntRange(0, len(h.Tables)-1).Draw(t, "table")
			full = true
			h.Msgs = append(h.Msgs, peMsg{Def: current + 1})
		case k < 8:
			u := genUpdate(t, h.Tables[current], maxLen)
			u = padded(h.Tables[current], u)
			if full && u.Inc {
				u.Inc, u.ID = false, genU32(t, "updateid")
			}
			if chance(t, "last id", 10) && !u.Inc {
				u.ID = 1<<32 - 1
			}
			full = false
			h.Msgs = append(h.Msgs, peMsg{U: &u})
		default:
			m := genControl(t)
			if current >= 0 && chance(t, "switch", 20) {
				// to the table in use
				m = &ref.Msg{Class: ref.ClassTable, Type: ref.MsgSwitch, Data: ref.AppendVarint(nil, h.Tables[current].ID)}
			}
			h.Msgs = append(h.Msgs, peMsg{Other: m})
		}
	}
	return h
}

// genControl makes a control message or an acknowledgement.
func genControl(t *rapid.T) *ref.Msg {
	if chance(t, "ack", 40) {
		b := ref.AppendVarint(nil, genU64(t, "acked table"))
		return &ref.Msg{Class: ref.ClassTable, Type: ref.MsgAck, Data: append(b, genBytes(t, "acked", 4)...)}
	}
	return &ref.Msg{Class: ref.ClassControl, Type: rapid.IntRange(0, 4).Draw(t, "control")}
}

// encode returns the messages' encodings, and for each the updates that should
// have reached the handler after it.
func (h peHistory) encode() (msgs [][]byte, want []sentUpdate, after []int) {
	var table ref.Table
	var id uint32
	for _, m := range h.Msgs {
		var msg ref.Msg
		switch {
		case m.Def > 0:
			table = h.Tables[m.Def-1]
			msg = ref.Msg{Class: ref.ClassTable, Type: ref.MsgDefinition, Data: ref.AppendTable(nil, table)}
		case m.U != nil:
			u := *m.U
			msg = ref.UpdateMsg(table, u)
			if u.Inc {
				u.ID = id + 1
			}
			id = u.ID
			want = append(want, sentUpdate{table, u})
		default:
			msg = *m.Other
		}
		msgs = append(msgs, ref.AppendMsg(nil, msg))
		after = append(after, len(want))
	}
	return msgs, want, after
}

// syncRequests counts the synchronisation requests.
func (h peHistory) syncRequests() int {
	n := 0
	for _, m := range h.Msgs {
		if m.Other != nil && m.Other.Class == ref.ClassControl && m.Other.Type == ref.CtlSyncReq {
			n++
		}
	}
	return n
}

const (
	peHello  = "HAProxyS 2.1\ngo-peer\nhaproxy 4711 1\n"
	peStatus = "200\n"
)

// peOutput decodes what a peer was sent: the status line, then messages.
// Heartbeats are counted and left out.
func peOutput(out []byte) (ms []ref.Msg, heartbeats int, err error) {
	if !bytes.HasPrefix(out, []byte(peStatus)) {
		return nil, 0, fmt.Errorf("no status line but %s", trunc(ref.Str(out)))
	}
	all, rest, err := ref.Msgs(out[len(peStatus):])
	if err != nil || len(rest) > 0 {
		return nil, 0, fmt.Errorf("output ends with %s (%v)", trunc(ref.Str(rest)), err)
	}
	ms, heartbeats = peMsgs(all)
	return ms, heartbeats, nil
}

// peMsgs counts heartbeats and leaves them out.
func peMsgs(all []ref.Msg) (ms []ref.Msg, heartbeats int) {
	for _, m := range all {
		if m.Class == ref.ClassControl && m.Type == ref.CtlHeartbeat {
			heartbeats++
			continue
		}
		ms = append(ms, m)
	}
	return ms, heartbeats
}

// onlyPartials checks that the output consists of n answers to synchronisation
// requests.
func onlyPartials(out []byte, n int) error {
	ms, _, err := peOutput(out)
	if err != nil {
		return err
	}
	for _, m := range ms {
		if m.Class != ref.ClassControl || m.Type != ref.CtlSyncPartial {
			return fmt.Errorf("unexpected message %v", m)
		}
	}
	if len(ms) != n {
		return fmt.Errorf("%d answers to %d synchronisation requests", len(ms), n)
	}
	return nil
}
