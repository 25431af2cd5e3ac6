package checks

import (
	"context"
	"fmt"
	"slices"
	"time"

	"github.com/dropmorepackets/haproxy-go/peers"
	"pgregory.net/rapid"

	"verif/harness/memnet"
	"verif/harness/pbt"
	"verif/harness/ref"
)

// p21Msg is a message of the remote. Times are in ms.
type p21Msg struct {
	Gap    int   // since the end of the last one
	Kind   int   // control message, or 5: update, 6: acknowledgement, 7: definition
	Busy   int   `json:",omitempty"` // the handler of an update takes that long
	Pieces []int `json:",omitempty"` // pauses before further bytes of it
}

type p21Session struct {
	Start     int
	Hello     []int `json:",omitempty"` // pauses inside the handshake
	Handshake int   // HandleHandshake takes that long
	Undefined bool  `json:",omitempty"` // there is no definition right after the handshake
	Msgs      []p21Msg
	Rounds    int `json:",omitempty"` // how often Msgs are sent, at least once
}

// all messages of the session.
func (s p21Session) all() []p21Msg {
	return slices.Repeat(s.Msgs, max(1, s.Rounds))
}

type p21Case struct{ Sessions []p21Session }

func genP21Session(t *rapid.T) p21Session {
	s := p21Session{Start: rapid.IntRange(0, 3000).Draw(t, "start")}
	busy := []int{0, 1, 100, 2900, 3100, 4900, 5100, 6000, 9999, 30000, 200000}
	if chance(t, "slow handshake", 40) {
		s.Handshake = pick(t, "handshake", busy...)
	}
	if chance(t, "slow hello", 15) {
		s.Hello = rapid.SliceOfN(rapid.IntRange(1, 20000), 1, 3).Draw(t, "hello")
	}
	short := []int{0, 1, 500, 1000, 2999, 3000, 3001, 4000, 4800}
	long := append([]int{5200, 5999, 6000, 10000, 60000}, short...)
	s.Undefined = chance(t, "no definition", 30)
	kinds := []int{4, 4, 5, 5, 5, 0, 1, 2, 3, 6, 7}
	if s.Undefined {
		kinds = []int{4, 4, 0, 1, 2, 3, 6, 7} // updates need one
	}
	for n := genCount(t, "msgs", 0, 14, 1000); n > 0; n-- {
		m := p21Msg{Kind: pick(t, "kind", kinds...)}
		gaps := short
		if chance(t, "long", 8) {
			gaps = long
		}
		m.Gap = pick(t, "gap", gaps...)
		if m.Kind == 5 && chance(t, "busy", 40) {
			m.Busy = pick(t, "for", busy...)
		}
		if chance(t, "pieces", 20) {
			for k := rapid.IntRange(1, 4).Draw(t, "npieces"); k > 0; k-- {
				m.Pieces = append(m.Pieces, pick(t, "piece", 0, 100, 1000, 1500, 3000))
			}
		}
		s.Msgs = append(s.Msgs, m)
	}
	if chance(t, "many rounds", 8) {
		s.Rounds = pick(t, "rounds", 2, 30, 100, 300, 1000)
		// As they are, few last that long.
		for i := range s.Msgs {
			s.Msgs[i].Gap = min(s.Msgs[i].Gap, 4800)
			s.Msgs[i].Pieces = nil
		}
	}
	return s
}

func init() {
	pbt.Register(&pbt.Property{
		ID: "P21",
		Rule: "1-3 sessions in virtual time, each with a handshake (sometimes slow, HandleHandshake taking up to 200 s) and up to 14 messages (heartbeats and other control messages, definitions, acknowledgements, updates whose handler takes up to 200 s) with gaps from 0 to 60 s, sometimes arriving in pieces seconds apart, sometimes the same up to 1000 times; then nothing. A model of the waiting time predicts when each is dropped; cases within 150 ms of the limit are not judged further. " +
			"Non-trivial: a message after more than 3 s of silence, a busy handler, or one in pieces.",
		Parts: []*pbt.Part{
			pbt.NewPart("timing", 4000, func(t *rapid.T) p21Case {
				var c p21Case
				for n := pick(t, "sessions", 1, 1, 2, 3); n > 0; n-- {
					c.Sessions = append(c.Sessions, genP21Session(t))
				}
				return c
			}, p21Run),
		},
	})
}

const ms = time.Millisecond

// bytes of the message.
func (m p21Msg) bytes(i int) []byte {
	d := ref.Table{ID: 1, Name: ref.Str("t"), KeyType: ref.KInt, KeyLen: 4}
	switch m.Kind {
	case 5:
		return ref.AppendMsg(nil, ref.UpdateMsg(d, ref.Update{ID: uint32(i), Key: ref.Str{0, 0, 0, byte(i)}}))
	case 6:
		return ref.AppendMsg(nil, ref.Msg{Class: ref.ClassTable, Type: ref.MsgAck, Data: ref.Str{1, 0, 0, 0, 0}})
	case 7:
		return ref.AppendMsg(nil, ref.Msg{Class: ref.ClassTable, Type: ref.MsgDefinition, Data: ref.AppendTable(nil, d)})
	}
	return []byte{ref.ClassControl, byte(m.Kind)}
}

// p21Model tells when the session is dropped.
type p21Model struct {
	ready  time.Duration // since when it waits
	judged bool          // false once it is too close to tell
	drop   bool
}

const p21Limit = 5 * time.Second

// arrive is told of a message that is complete at the given time and keeps the
// handler busy. It returns whether the session still exists.
func (m *p21Model) arrive(at, busy time.Duration) bool {
	wait := at - m.ready
	if d := wait - p21Limit; d > -150*ms && d < 150*ms {
		m.judged = false
		return false
	}
	if wait > p21Limit {
		m.drop = true
		return false
	}
	m.ready = max(at, m.ready) + busy
	return true
}

func p21Run(r *pbt.R, c p21Case) error {
	leaked, err := bubble(r, func() error {
		w := newPeWorld()
		began := time.Now()
		busies := make([][]int, len(c.Sessions)) // of the updates in one round
		for i, s := range c.Sessions {
			for _, m := range s.Msgs {
				if m.Kind == 5 {
					busies[i] = append(busies[i], m.Busy)
				}
			}
		}
		w.onHandshake = func(s *peSession, _ context.Context, _ *peers.Handshake) {
			time.Sleep(time.Duration(c.Sessions[s.id].Handshake) * ms)
		}
		w.onUpdate = func(s *peSession, _ context.Context, n int) {
			if busy := busies[s.id]; len(busy) > 0 {
				time.Sleep(time.Duration(busy[n%len(busy)]) * ms)
			}
		}
		w.serve()
		models := make([]*p21Model, len(c.Sessions))
		hellos := make([]time.Duration, len(c.Sessions))
		var end time.Duration
		for i, s := range c.Sessions {
			conn := w.dial(memnet.Options{Yield: 1})
			// The model first.
			at := time.Duration(s.Start) * ms
			for _, p := range s.Hello {
				at += time.Duration(p) * ms
			}
			hellos[i] = at
			m := &p21Model{ready: at + time.Duration(s.Handshake)*ms, judged: true}
			models[i] = m
			r.NonTrivialIf(s.Handshake > 0)
			alive := s.Undefined || m.arrive(at, 0)
			r.LabelIf(s.Undefined, "silent after the handshake")
			for _, msg := range s.all() {
				at += time.Duration(msg.Gap) * ms
				for _, p := range msg.Pieces {
					at += time.Duration(p) * ms
				}
				if alive {
					r.NonTrivialIf(at-m.ready > 3*time.Second || msg.Busy > 0 || len(msg.Pieces) > 0)
					alive = m.arrive(at, time.Duration(msg.Busy)*ms)
				}
			}
			end = max(end, m.ready, at)
			go func() {
				pieces := func(b []byte, pauses []int) {
					for k, p := range pauses {
						n := min(len(b)-1, max(1, len(b)/(len(pauses)-k+1)))
						conn.Feed(b[:n])
						b = b[n:]
						time.Sleep(time.Duration(p) * ms)
					}
					conn.Feed(b)
				}
				time.Sleep(time.Duration(s.Start) * ms)
				pieces([]byte(peHello), s.Hello)
				if !s.Undefined {
					conn.Feed(p21Msg{Kind: 7}.bytes(0))
				}
				for i, m := range s.all() {
					time.Sleep(time.Duration(m.Gap) * ms)
					pieces(m.bytes(i), m.Pieces)
				}
			}()
		}
		rest(end + p21Limit + 2*time.Second)
		if err := w.err(); err != nil {
			return err
		}
		for i, m := range models {
			conn, s := w.conns[i], w.session(i)
			fail := func(format string, args ...any) error {
				return fmt.Errorf("session %d of %s: "+format, append([]any{i, trunc(c.Sessions[i])}, args...)...)
			}
			closed, at := conn.Closed(), conn.ClosedAt().Sub(began)
			stamps := conn.Stamps()
			if len(stamps) == 0 {
				return fail("nothing is sent")
			}
			if d := stamps[0].T.Sub(began) - hellos[i]; d > time.Second {
				return fail("the handshake is answered after %v", d)
			}
			upto := began.Add(end + p21Limit + 2*time.Second)
			if closed {
				upto = conn.ClosedAt()
			}
			last := stamps[0].T
			for _, st := range append(stamps[1:], memnet.Stamp{T: upto}) {
				if d := st.T.Sub(last); d > 3100*ms {
					return fail("nothing is sent for %v from %v on", d, last.Sub(began))
				}
				last = st.T
			}
			if !m.judged {
				r.Label("too close to the limit")
				if closed && at < m.ready+p21Limit-150*ms {
					return fail("dropped at %v, it waits since %v", at, m.ready)
				}
				continue
			}
			r.LabelIf(m.drop, "dropped before the last message")
			r.LabelIf(m.ready-hellos[i] > 10*time.Minute, "served for over 10 minutes")
			due := m.ready + p21Limit
			if !closed {
				return fail("not dropped at %v", due)
			}
			if at < due-150*ms || at > due+time.Second {
				return fail("dropped at %v, want %v", at, due)
			}
			if s.closes != 1 || s.closedAt.Sub(began) > due+time.Second {
				return fail("handler closed %d times, at %v, want %v", s.closes, s.closedAt.Sub(began), due)
			}
			if s.ctx.Err() == nil {
				return fail("its context is not cancelled")
			}
		}
		w.cancel()
		rest(time.Hour) // a handler may be busy
		return w.err()
	})
	if err == nil && leaked {
		return fmt.Errorf("goroutines are left after the end")
	}
	return err
}
