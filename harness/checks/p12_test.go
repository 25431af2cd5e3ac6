package checks

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"time"

	"pgregory.net/rapid"

	"verif/harness/memnet"
	"verif/harness/pbt"
	"verif/harness/ref"
)

const far = 1 << 30 // no exact length wanted

// p12Step is a NOTIFY whose content is In bytes longer than the limit (In <=
// 0), answered with an ACK whose content is Out bytes longer than the limit.
type p12Step struct {
	In, Out int
	Split   int   `json:",omitempty"` // more messages, sharing the actions
	Sizes   []int `json:",omitempty"`
}

type p12Conn struct {
	Size  int // offered max-frame-size
	Hello int `json:",omitempty"` // content length of the HELLO relative to 65535; far: as it comes
	Steps []p12Step
	// Over ends the connection with a frame that claims so much more than the
	// limit (0: none), of which Sent bytes follow.
	Over uint32 `json:",omitempty"`
	Sent int    `json:",omitempty"`
}

type p12Case struct{ Conns []p12Conn }

func init() {
	pbt.Register(&pbt.Property{
		ID: "P12",
		Rule: "1-3 connections with max-frame-size 256 to 200000 and HELLOs around 65535 bytes, each sending up to 6 NOTIFYs whose content, and whose ACK's content, is exactly at, just below or well below the limit, or for the ACK 1 or more bytes above it, the last frame sometimes above the limit by 1 byte up to 2^32, sent in part or whole; a part with limits up to 34 MB. " +
			"Non-trivial: a frame or ACK within 2 bytes of the limit, or above it.",
		Parts: []*pbt.Part{
			pbt.NewPart("limits", 2500, func(t *rapid.T) p12Case {
				var c p12Case
				n := genCount(t, "conns", 1, 3, 100)
				many := n > 3
				for ; n > 0; n-- {
					pc := p12Conn{Size: pick(t, "size", 256, 257, 400, 1000, 16380, 65534, 65535, 65536, 70000, 100000, 200000), Hello: far}
					if n, ok := dictNum(t, "size", 256, 300000); ok {
						pc.Size = int(n)
					}
					if many {
						pc.Size = min(pc.Size, 16380)
					}
					if chance(t, "hello", 15) {
						pc.Hello = pick(t, "hellolen", 0, -1, 1, 2, 4000, -300)
					}
					for k := rapid.IntRange(0, 6).Draw(t, "steps"); k > 0; k-- {
						s := p12Step{In: -far, Out: -far, Sizes: genSizes(t, "sizes", 6)}
						if chance(t, "in", 50) {
							s.In = pick(t, "inlen", 0, 0, -1, -2, -5)
						}
						if chance(t, "out", 60) {
							s.Out = pick(t, "outlen", 0, 0, -1, 1, 1, 2, 3, -2, 20, 300, 65535, 70000)
						}
						if n, ok := dictNum(t, "in", 64, uint64(pc.Size)); ok {
							s.In = int(n) - pc.Size
						}
						if n, ok := dictNum(t, "out", 64, uint64(pc.Size)); ok {
							s.Out = int(n) - pc.Size
						}
						if chance(t, "splits", 40) {
							s.Split = rapid.IntRange(1, 3).Draw(t, "split")
						}
						pc.Steps = append(pc.Steps, s)
					}
					if chance(t, "oversized", 40) {
						pc.Over = pick[uint32](t, "over", 1, 1, 2, 100, 70000, 1<<20, 1<<31, 1<<32-1)
						pc.Over = min(pc.Over, uint32(1<<32-1-pc.Size))
						pc.Sent = pick(t, "sent", 0, 5, 100, 1<<20)
						if many {
							pc.Sent = min(pc.Sent, 100)
						}
					}
					c.Conns = append(c.Conns, pc)
				}
				return c
			}, p12Run),
			pbt.NewPart("large", 24, func(t *rapid.T) p12Case {
				pc := p12Conn{Size: max(256, genBig(t, "size")), Hello: far}
				for k := rapid.IntRange(1, 3).Draw(t, "steps"); k > 0; k-- {
					s := p12Step{In: pick(t, "inlen", 0, 0, -1, -far), Out: pick(t, "outlen", -far, 0, 0, -1, 1, 1)}
					if s.In > -far && chance(t, "chunks", 50) {
						s.Sizes = genSizes(t, "sizes", 70000)
					}
					pc.Steps = append(pc.Steps, s)
				}
				if chance(t, "oversized", 40) {
					pc.Over = pick[uint32](t, "over", 1, 1, 2, 70000)
					pc.Sent = pick(t, "sent", 0, 5, 1<<20)
				}
				return p12Case{Conns: []p12Conn{pc}}
			}, p12Run),
		},
	})
}

// fit finds lengths for two strings such that size() is as wanted, if it can.
func fit(want int, size func(a, b int) int) (int, int) {
	for b := 0; b < 3; b++ {
		a := max(0, want-size(0, b))
		for ; a > 0 && size(a, b) > want; a-- {
		}
		if size(a, b) == want {
			return a, b
		}
	}
	return 0, 0
}

func letters(c byte, n int) ref.Str { return ref.Str(bytes.Repeat([]byte{c}, n)) }

// notify builds the NOTIFY of a step.
func (s p12Step) notify(conn, i, limit int) spNotify {
	n := spNotify{Stream: uint64(i), Frame: uint64(i) * 1000, Sizes: s.Sizes}
	n.Msgs = make([]spMsg, 1+s.Split)
	for j := range n.Msgs {
		n.Msgs[j].Ops = []actionOp{{A: ref.Action{Kind: ref.ActSet, Scope: 3, Name: ref.Str("v")}}}
		n.Msgs[j].Ops[0].A.V = ref.Value{T: ref.TInt64, Int: uint64(1000*i + j)}
	}
	first, last := &n.Msgs[0], &n.Msgs[len(n.Msgs)-1]
	if s.In > -far {
		w := newSpWorld()
		set := func(a, b int) int {
			first.Tail = letters('n', b)
			first.Args = []ref.KV{{Name: ref.Str("p"), V: ref.Value{T: ref.TString, Bytes: letters('x', a)}}}
			first.Read = 1
			f := w.script(conn, i, &n)
			return len(ref.FrameHeader(f)) + len(f.Payload)
		}
		a, b := fit(limit+s.In, set)
		set(a, b)
	}
	if s.Out > -far {
		set := func(a, b int) int {
			// a bytes shared between all, b in a name
			k := len(n.Msgs)
			for j := range n.Msgs {
				n.Msgs[j].Ops[0].A.V = ref.Value{T: ref.TBinary, Bytes: letters(byte('a'+j), a/k)}
			}
			last.Ops[0].A.V.Bytes = letters('z', a-a/k*(k-1))
			last.Ops[0].A.Name = letters('v', b+1)
			return n.ackLen()
		}
		a, b := fit(limit+s.Out, set)
		set(a, b)
	}
	return n
}

func p12Run(r *pbt.R, c p12Case) error {
	_, err := bubble(r, func() error {
		w := newSpWorld()
		w.serve()
		defer w.cancel()
		clients := make([]*spClient, len(c.Conns))
		for i, pc := range c.Conns {
			cl := &spClient{id: i, c: w.l.Dial(memnet.Options{}), size: uint64(pc.Size)}
			clients[i] = cl
			if pc.Hello != far {
				a, b := fit(65535+pc.Hello, func(a, b int) int {
					cl.kvs = append(helloKVs(cl.size), ref.KV{Name: letters('k', b), V: ref.Value{T: ref.TString, Bytes: letters('p', a)}})
					f := helloFrame(cl.kvs)
					return len(ref.FrameHeader(f)) + len(f.Payload)
				})
				cl.kvs = append(helloKVs(cl.size), ref.KV{Name: letters('k', b), V: ref.Value{T: ref.TString, Bytes: letters('p', a)}})
				r.NonTrivial()
			}
			for k, s := range pc.Steps {
				n := s.notify(i, k, pc.Size)
				cl.notifies = append(cl.notifies, n)
				if d := n.ackLen() - pc.Size; s.Out > -far && d >= -2 {
					r.NonTrivial()
					r.LabelIf(d == 0, "ACK at the limit")
					r.LabelIf(d == 1, "ACK above the limit by one")
					r.LabelIf(d > 1, "ACK above the limit")
				}
				r.LabelIf(s.In == 0, "NOTIFY at the limit")
				r.NonTrivialIf(s.In >= -2)
			}
			if pc.Hello == far || pc.Hello <= 0 {
				go cl.run(w)
			} else {
				r.Label("HELLO above the limit")
				cl.c.Feed(ref.AppendFrame(nil, helloFrame(cl.kvs)))
			}
		}
		rest(time.Hour)
		for i, pc := range c.Conns {
			cl := clients[i]
			if pc.Hello != far && pc.Hello > 0 {
				if err := w.err(); err != nil {
					return err
				}
				if err := p12Closed(cl.c.(*memnet.Conn), 0); err != nil {
					return fmt.Errorf("after a HELLO of %d bytes: %w", 65535+pc.Hello, err)
				}
				continue
			}
			if err := cl.settled(w); err != nil {
				return fmt.Errorf("max-frame-size %d: %w", pc.Size, err)
			}
		}
		for i, pc := range c.Conns {
			if cl := clients[i]; pc.Over > 0 && !cl.c.Closed() {
				r.NonTrivial()
				r.Label("frame above the limit")
				// A whole NOTIFY, as far as it is sent.
				b := binary.BigEndian.AppendUint32(nil, uint32(pc.Size)+pc.Over)
				body := ref.FrameHeader(ref.Frame{Type: ref.FNotify, Flags: ref.FlagFin, Stream: 1, ID: 1})
				body = ref.AppendMessage(body, ref.Message{Name: ref.Str("oversized")})
				for l := min(pc.Sent, pc.Size+int(pc.Over)); len(body) < l; {
					body = ref.AppendMessage(body, ref.Message{Name: letters('o', min(200, max(0, l-len(body)-2)))})
				}
				if pc.Sent == 0 {
					body = nil
				}
				cl.c.Feed(append(b, body[:min(len(body), pc.Size+int(pc.Over))]...))
			}
		}
		rest(time.Hour)
		for i, pc := range c.Conns {
			cl := clients[i]
			if pc.Hello != far && pc.Hello > 0 {
				continue
			}
			if err := w.err(); err != nil {
				return err
			}
			if pc.Over == 0 {
				if err := cl.settled(w); err != nil {
					return err
				}
				cl.c.EndInput(io.EOF)
				continue
			}
			if err := p12Closed(cl.c.(*memnet.Conn), cl.frames(len(cl.notifies))); err != nil {
				return fmt.Errorf("after a frame of %d bytes, max-frame-size %d: %w", uint32(pc.Size)+pc.Over, pc.Size, err)
			}
		}
		rest(time.Second)
		return w.err()
	})
	return err
}

// p12Closed: after want frames, an AGENT-DISCONNECT.
func p12Closed(c *memnet.Conn, want int) error {
	if !c.Closed() {
		return fmt.Errorf("the connection is not closed")
	}
	fs, rest, err := ref.Frames(c.Output())
	if err != nil || len(rest) > 0 {
		return fmt.Errorf("output ends with %x (%v)", rest, err)
	}
	if len(fs) != want+1 {
		return fmt.Errorf("%d frames were sent, want %d and an AGENT-DISCONNECT: %s", len(fs), want, trunc(fs))
	}
	return checkDisconnect(fs[want])
}
