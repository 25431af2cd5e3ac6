package checks

import (
	"fmt"
	"io"
	"runtime/metrics"
	"syscall"
	"time"

	"pgregory.net/rapid"

	"verif/harness/memnet"
	"verif/harness/pbt"
	"verif/harness/ref"
)

type p23Hostile struct {
	Hello     ref.Str `json:",omitempty"` // instead of a proper handshake
	Msgs      []ref.Str
	Sizes     []int  `json:",omitempty"`
	Start     int    `json:",omitempty"` // ms
	End       string `json:",omitempty"` // "eof", "reset" or nothing
	FailWrite bool   `json:",omitempty"`
	FailAfter int    `json:",omitempty"`
	Yield     int    `json:",omitempty"`
}

type p23Case struct {
	Hostile  []p23Hostile
	Siblings []peHistory // sent in three parts: before, during, after
}

func genP23Hostile(t *rapid.T) p23Hostile {
	h := p23Hostile{Sizes: genSizes(t, "sizes", 15), Yield: rapid.IntRange(0, 2).Draw(t, "yield"), End: pick(t, "end", "", "", "eof", "reset")}
	if chance(t, "late", 30) {
		h.Start = rapid.IntRange(1, 20).Draw(t, "start")
	}
	if chance(t, "failing writes", 12) {
		h.FailWrite, h.FailAfter = true, rapid.IntRange(0, 10).Draw(t, "after")
	}
	if chance(t, "bad hello", 12) {
		h.Hello = mutate(t, []byte(genHandshake(t).lines()))
	}
	msgs, _, _ := genHistory(t, 12, 40).encode()
	bad := pick(t, "bad", 0, 12, 30)
	for _, b := range msgs {
		if bad == 0 || !chance(t, "anomaly", bad) {
			h.Msgs = append(h.Msgs, b)
			continue
		}
		var m ref.Str
		switch rapid.IntRange(0, 10).Draw(t, "anomaly/kind") {
		case 0:
			m = ref.Str{ref.ClassError, rapid.Byte().Draw(t, "error")}
		case 1:
			m = ref.AppendMsg(nil, ref.Msg{Class: pick(t, "class", 2, 3, 9, 11, 127, 128, 254, 255), Type: rapid.IntRange(0, 255).Draw(t, "type"), Data: genBytes(t, "data", 3)})
		case 2:
			m = ref.AppendMsg(nil, ref.Msg{Class: ref.ClassTable, Type: pick(t, "type", 0, 1, 4, 127, 0x87, 0x88, 0xa0, 0xff), Data: genBytes(t, "data", 3)})
		case 3:
			m = ref.AppendMsg(nil, ref.Msg{Class: ref.ClassControl, Type: rapid.IntRange(5, 255).Draw(t, "type"), Data: genBytes(t, "data", 3)})
		case 4: // an update out of the blue
			d := genTable(t, 3)
			m = ref.AppendMsg(nil, ref.UpdateMsg(d, genUpdate(t, d, 20)))
		case 5: // a bad definition
			m = ref.AppendMsg(nil, ref.Msg{Class: ref.ClassTable, Type: ref.MsgDefinition, Data: mangle(t, ref.AppendTable(nil, genTable(t, 8)))})
		case 6, 7, 8: // the same message with bad content
			c := &ref.Cursor{B: b[2:]}
			if b[1] < 128 {
				m = mutate(t, b)
				break
			}
			m = ref.AppendMsg(nil, ref.Msg{Class: int(b[0]), Type: int(b[1]), Data: mangle(t, c.LenBytes())})
		case 9:
			m = append(ref.Str{ref.ClassTable, rapid.ByteRange(0x80, 0x88).Draw(t, "type")}, ref.AppendVarint(nil, genClaim(t))...)
			m = append(m, genBytes(t, "data", 4)...)
		case 10:
			m = mutate(t, b)
		}
		h.Msgs = append(h.Msgs, m)
	}
	return h
}

// What becomes of a session.
const (
	p23Alive = iota
	p23Ended
	p23Open // not said
)

// p23Outcome is what a session should make of its messages: the updates, with
// those whose id is not said, the synchronisation requests answered, and how
// it ends.
type p23Outcome struct {
	want   []sentUpdate
	anyID  []bool
	syncs  int
	end    int
	reason string
}

func p23Model(b []byte) (o p23Outcome) {
	var table *ref.Table
	known := false
	stop := func(end int, reason string) p23Outcome {
		o.end, o.reason = end, reason
		return o
	}
	// problem ends the session because of what is left of the data.
	problem := func(c *ref.Cursor, what string) bool {
		switch {
		case c.Err == ref.ErrUnspecified || c.Err == nil && c.Left() > 0:
			stop(p23Open, "odd "+what)
		case c.Err != nil:
			stop(p23Ended, "undecodable "+what)
		default:
			return false
		}
		return true
	}
	for len(b) > 0 {
		c := &ref.Cursor{B: b}
		class, typ := int(c.Byte()), int(c.Byte())
		var data []byte
		if typ >= 128 && c.Err == nil {
			n := c.Varint()
			if c.Err == nil && n > 1<<31-1 {
				return stop(p23Open, "huge length")
			}
			data = c.Take(n)
		}
		if c.Err == ref.ErrShort {
			return o
		}
		if c.Err != nil {
			return stop(p23Open, "odd length")
		}
		b = b[c.Off:]
		switch class {
		case ref.ClassControl:
			if typ > ref.CtlHeartbeat {
				return stop(p23Ended, "unknown control message")
			}
			if typ == ref.CtlSyncReq {
				o.syncs++
			}
			continue
		case ref.ClassError:
			return stop(p23Ended, "error message")
		case ref.ClassTable:
		default:
			return stop(p23Ended, "unknown class")
		}
		c = &ref.Cursor{B: data}
		switch typ {
		case ref.MsgAck:
		case ref.MsgSwitch:
			return stop(p23Open, "table switch")
		case ref.MsgDefinition:
			d := c.Table()
			if problem(c, "definition") {
				return o
			}
			switch d.KeyType {
			case ref.KInt, ref.KIPv4, ref.KIPv6, ref.KString, ref.KBinary:
			default:
				return stop(p23Open, "unknown key type")
			}
			table, known = &d, false
		case ref.MsgUpdate, ref.MsgIncremental, ref.MsgTimed, ref.MsgIncTimed:
			if table == nil {
				return stop(p23Ended, "no definition")
			}
			inc := typ == ref.MsgIncremental || typ == ref.MsgIncTimed
			u := c.Update(*table, inc, typ == ref.MsgTimed || typ == ref.MsgIncTimed)
			if problem(c, "update") {
				return o
			}
			o.want = append(o.want, sentUpdate{*table, u})
			o.anyID = append(o.anyID, inc && !known)
			known = true
		default:
			return stop(p23Ended, "unknown update message")
		}
	}
	return o
}

// ids fills in the ids of updates that come without one.
func (o *p23Outcome) ids(s *peSession) {
	for i := range o.want {
		u := &o.want[i].U
		switch {
		case o.anyID[i] && i < len(s.updates):
			u.ID = s.updates[i].u.LocalUpdateID
		case u.Inc && i > 0:
			u.ID = o.want[i-1].U.ID + 1
		}
	}
}

type p23Claim struct {
	Length uint64
	Type   int
	Inner  bool   // a definition whose name has that length
	Sent   int    // bytes that follow
	Early  bool   // before the handshake ends
	End    string `json:",omitempty"`
}

func init() {
	pbt.Register(&pbt.Property{
		ID: "P23",
		Rule: "Part hostile: 1-6 hostile sessions with up to 12 messages, some replaced by error messages, unknown classes and types, updates without definition, mutated or undecodable definitions and updates, claims up to 2^64 and random changes, or with a mutated handshake; failing writes, resets; next to up to 3 well-behaved sessions that send before, meanwhile and afterwards. A reference session predicts updates, answers and the end. Part claims: messages and names of which little more than the length is sent; allocation is measured. " +
			"Non-trivial: a hostile session that must be ended, next to a well-behaved one; a claim beyond 1 MB.",
		Parts: []*pbt.Part{
			pbt.NewPart("hostile", 6000, func(t *rapid.T) p23Case {
				var c p23Case
				for n := rapid.IntRange(1, 6).Draw(t, "hostile"); n > 0; n-- {
					c.Hostile = append(c.Hostile, genP23Hostile(t))
				}
				for n := rapid.IntRange(0, 3).Draw(t, "siblings"); n > 0; n-- {
					c.Siblings = append(c.Siblings, genHistory(t, 12, 40))
				}
				return c
			}, p23Run),
			pbt.NewPart("claims", 400, func(t *rapid.T) []p23Claim {
				return rapid.SliceOfN(rapid.Custom(func(t *rapid.T) p23Claim {
					return p23Claim{
						Length: pick(t, "length", uint64(1)<<26, 1<<28, 1<<30, 1<<31-1, 1<<31, 1<<32, 1<<62, 1<<63-1, 1<<63, 1<<64-1, genClaim(t)),
						Type:   pick(t, "type", ref.MsgUpdate, ref.MsgIncremental, ref.MsgDefinition, ref.MsgSwitch, ref.MsgAck, ref.MsgTimed, ref.MsgIncTimed, 0xff),
						Inner:  chance(t, "inner", 30),
						Sent:   rapid.IntRange(0, 40).Draw(t, "sent"),
						Early:  chance(t, "early", 10),
						End:    pick(t, "end", "", "eof", "reset"),
					}
				}), 1, 4).Draw(t, "claims")
			}, p23RunClaims),
		},
	})
}

func endInput(c *memnet.Conn, end string) {
	switch end {
	case "eof":
		c.EndInput(io.EOF)
	case "reset":
		c.EndInput(syscall.ECONNRESET)
		c.FailWrites(syscall.EPIPE)
	}
}

func p23Run(r *pbt.R, c p23Case) error {
	leaked, err := bubble(r, func() error {
		w := newPeWorld()
		w.serve()
		// The well-behaved sessions first, so that they have the first numbers.
		type sibling struct {
			msgs [][]byte
			want []sentUpdate
			sync int
		}
		var sibs []sibling
		for i, h := range c.Siblings {
			conn := w.dial(memnet.Options{Yield: i})
			conn.Feed([]byte(peHello))
			msgs, want, _ := h.encode()
			sibs = append(sibs, sibling{msgs, want, h.syncRequests()})
		}
		third := func(k int) {
			for i, s := range sibs {
				n := len(s.msgs)
				w.conns[i].Feed(s.msgs[k*n/3 : (k+1)*n/3]...)
			}
		}
		third(0)
		rest(ms)
		models := make([]p23Outcome, len(c.Hostile))
		for i, h := range c.Hostile {
			conn := w.dial(memnet.Options{Yield: h.Yield, FailWrite: h.FailWrite, FailWriteAfter: h.FailAfter})
			hello := h.Hello
			if len(hello) == 0 {
				hello = ref.Str(peHello)
			}
			var b []byte
			for _, m := range h.Msgs {
				b = append(b, m...)
			}
			models[i] = p23Model(b)
			if len(h.Hello) > 0 || h.FailWrite {
				models[i] = p23Outcome{end: p23Open, reason: "bad handshake or connection"}
			} else {
				r.Label([]string{"goes on", "ends: ", "open: "}[models[i].end] + models[i].reason)
			}
			r.NonTrivialIf(models[i].end == p23Ended && len(sibs) > 0)
			go func() {
				time.Sleep(time.Duration(h.Start) * ms)
				feed(conn, append(append([]byte(nil), hello...), b...), h.Sizes, 0)
			}()
		}
		third(1)
		rest(time.Second)
		if err := w.err(); err != nil {
			return err
		}
		for i, o := range models {
			k := len(sibs) + i
			conn, s := w.conns[k], w.session(k)
			if err := p23Check(conn, s, o, len(c.Hostile[i].Hello) > 0 || c.Hostile[i].FailWrite); err != nil {
				return fmt.Errorf("hostile session %d (%s) %s: %w", i, o.reason, trunc(c.Hostile[i]), err)
			}
			endInput(conn, c.Hostile[i].End)
		}
		rest(time.Second)
		third(2)
		rest(time.Second)
		for i, sib := range sibs {
			conn, s := w.conns[i], w.session(i)
			if err := s.sameUpdates(sib.want); err != nil {
				return fmt.Errorf("well-behaved %w", err)
			}
			if conn.Closed() || s.closes > 0 || s.ctx.Err() != nil {
				return fmt.Errorf("well-behaved session %d is ended", i)
			}
			if err := onlyPartials(conn.Output(), sib.sync); err != nil {
				return fmt.Errorf("well-behaved session %d: %w", i, err)
			}
		}
		rest(6 * time.Second)
		for i, h := range c.Hostile {
			conn, s := w.conns[len(sibs)+i], w.session(len(sibs)+i)
			if len(h.Hello) == 0 && (!conn.Closed() || s.closes != 1) {
				return fmt.Errorf("hostile session %d is not ended after all", i)
			}
		}
		// The next one is served.
		conn := w.dial(memnet.Options{})
		conn.Feed([]byte(peHello))
		rest(ms)
		if out := string(conn.Output()); out != peStatus {
			return fmt.Errorf("a new session is answered with %q", out)
		}
		w.cancel()
		rest(time.Minute)
		return w.err()
	})
	if err == nil && leaked {
		return fmt.Errorf("goroutines are left after the end")
	}
	return err
}

func p23Check(conn *memnet.Conn, s *peSession, o p23Outcome, anything bool) error {
	if anything {
		return nil
	}
	if len(s.handshakes) != 1 {
		return fmt.Errorf("HandleHandshake is called %d times", len(s.handshakes))
	}
	o.ids(s)
	if o.end == p23Open {
		// Only what comes before is known.
		all := s.updates
		if len(all) > len(o.want) {
			s.updates = all[:len(o.want)]
		}
		err := s.sameUpdates(o.want)
		s.updates = all
		return err
	}
	if err := s.sameUpdates(o.want); err != nil {
		return err
	}
	if err := onlyPartials(conn.Output(), o.syncs); err != nil {
		return err
	}
	ended := conn.Closed() && s.closes == 1 && s.ctx.Err() != nil
	if o.end == p23Ended && !ended {
		return fmt.Errorf("it is not ended (connection closed: %v, handler closed %d times)", conn.Closed(), s.closes)
	}
	if o.end == p23Alive && (conn.Closed() || s.closes > 0 || s.ctx.Err() != nil) {
		return fmt.Errorf("it is ended")
	}
	return nil
}

func p23RunClaims(r *pbt.R, claims []p23Claim) error {
	_, err := bubble(r, func() error {
		w := newPeWorld()
		w.serve()
		var conns []*memnet.Conn
		for _, cl := range claims {
			conn := w.dial(memnet.Options{})
			conns = append(conns, conn)
			if !cl.Early {
				conn.Feed([]byte(peHello))
			}
			d := ref.Table{ID: 1, Name: ref.Str("t"), KeyType: ref.KBinary, KeyLen: cl.Length}
			if !cl.Inner {
				d.KeyLen = 4
			}
			conn.Feed(ref.AppendMsg(nil, ref.Msg{Class: ref.ClassTable, Type: ref.MsgDefinition, Data: ref.AppendTable(nil, d)}))
			r.NonTrivialIf(!cl.Early && cl.Length > 1<<20)
		}
		rest(ms)
		s := []metrics.Sample{{Name: "/gc/heap/allocs:bytes"}}
		metrics.Read(s)
		before := s[0].Value.Uint64()
		for i, cl := range claims {
			tail := letters('d', cl.Sent)
			b := ref.Str{ref.ClassTable, byte(cl.Type)}
			if cl.Inner {
				data := ref.Str{0, 0, 0, 1}
				if cl.Type == ref.MsgDefinition {
					data = append(ref.Str{1}, ref.AppendVarint(nil, cl.Length)...)
				}
				b = ref.AppendMsg(nil, ref.Msg{Class: ref.ClassTable, Type: cl.Type, Data: append(data, tail...)})
			} else {
				b = append(append(b, ref.AppendVarint(nil, cl.Length)...), tail...)
			}
			conns[i].Feed(b)
		}
		rest(time.Second)
		for i, cl := range claims {
			endInput(conns[i], cl.End)
		}
		rest(10 * time.Second)
		metrics.Read(s)
		if d := s[0].Value.Uint64() - before; d > uint64(len(claims))<<22 {
			return fmt.Errorf("%d bytes allocated for messages of which only the length was sent: %+v", d, claims)
		}
		for i, cl := range claims {
			if !cl.Early && !conns[i].Closed() {
				return fmt.Errorf("session %d (%+v) is not ended", i, cl)
			}
		}
		w.cancel()
		rest(time.Minute)
		return w.err()
	})
	return err
}
