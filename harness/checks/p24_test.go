package checks

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"strings"
	"time"

	"github.com/dropmorepackets/haproxy-go/peers"
	"github.com/dropmorepackets/haproxy-go/peers/sticktable"
	"pgregory.net/rapid"

	"verif/harness/memnet"
	"verif/harness/pbt"
	"verif/harness/ref"
)

type p24Handshake struct {
	Protocol, Version, Remote, Local string
	PID, RelPID                      int
}

const peerNameChars = "abcXYZ0189_:.-"

func genToken(t *rapid.T, label string) string {
	n := pick(t, label+"/n", 1, 2, 5, 12, 64, 300)
	if chance(t, label+"/long", 3) {
		n = 20000
	}
	var b strings.Builder
	for i := 0; i < min(n, 20); i++ {
		if chance(t, label+"/odd", 10) {
			b.WriteByte(rapid.ByteRange(0x21, 0x7e).Draw(t, label))
		} else {
			b.WriteByte(peerNameChars[rapid.IntRange(0, len(peerNameChars)-1).Draw(t, label)])
		}
	}
	for b.Len() < n {
		b.WriteByte('x')
	}
	return b.String()
}

func genHandshake(t *rapid.T) p24Handshake {
	h := p24Handshake{Protocol: "HAProxyS", Version: "2.1", Remote: genToken(t, "remote"), Local: genToken(t, "local")}
	if chance(t, "spaces", 10) {
		h.Remote = pick(t, "remote", " "+h.Remote, h.Remote+" ", h.Remote+"\t", h.Remote+"  "+h.Local, " ")
	}
	if chance(t, "other version", 20) {
		h.Protocol, h.Version = genToken(t, "protocol"), genToken(t, "version")
	}
	pids := []int{0, 1, 42, 32768, 4194304, 1<<31 - 1}
	h.PID = pids[rapid.IntRange(0, len(pids)-1).Draw(t, "pid")]
	h.RelPID = pids[rapid.IntRange(0, len(pids)-1).Draw(t, "relpid")]
	return h
}

func (h p24Handshake) lines() string {
	return fmt.Sprintf("%s %s\n%s\n%s %d %d\n", h.Protocol, h.Version, h.Remote, h.Local, h.PID, h.RelPID)
}

func (h p24Handshake) lib() peers.Handshake {
	return peers.Handshake{ProtocolIdentifier: h.Protocol, Version: h.Version, RemotePeer: h.Remote, LocalPeerIdentifier: h.Local, ProcessID: h.PID, RelativeProcessID: h.RelPID}
}

type p24Case struct {
	H       p24Handshake
	History peHistory
	Send    int        `json:",omitempty"` // what the handler sends from HandleHandshake: 1 itself, 2 from a goroutine
	Sizes   []int      `json:",omitempty"`
	Groups  []p24Group `json:",omitempty"` // how messages arrive, one at a time beyond these
}

// p24Group is some messages that arrive together, and the beginning of the
// next one.
type p24Group struct {
	N     int
	Extra int  `json:",omitempty"`
	Hold  bool `json:",omitempty"` // the remote reads what it is sent only afterwards
}

type p24RoundTrip struct {
	H       p24Handshake
	Rest    ref.Str
	OneByte bool
	Fail    int  // the writer fails after so many bytes; -1: not at all
	Broken  int  `json:",omitempty"` // the reader fails after so many bytes
	New     bool `json:",omitempty"` // the handshake is made by NewHandshake
}

func init() {
	pbt.Register(&pbt.Property{
		ID: "P24",
		Rule: "Part session: a handshake with random fields (names up to 20000 bytes, pids up to 2^31-1), split at random, then up to 30, rarely 300, control, acknowledgement, definition and update messages, one at a time or several at once, also with the beginning of the next one, sometimes to a remote that reads its replies only afterwards, replies looked at after each arrival; the handler sometimes sends a definition from HandleHandshake. Part roundtrip: a handshake written, to writers that fail at any byte, and read back with other data behind it or from a reader that fails; also what NewHandshake returns. Part malformed: a handshake with one line that lacks a field or has something else for a number, with messages behind it. Part burst: up to thousands of control messages at once, to a remote that only reads its replies up to a second later. " +
			"Non-trivial: a synchronisation request among other messages, or a handler that sends; a handshake followed by data or a failing writer or reader.",
		Parts: []*pbt.Part{
			pbt.NewPart("session", 4000, func(t *rapid.T) p24Case {
				c := p24Case{H: genHandshake(t), History: genHistory(t, 30, 20), Sizes: genSizes(t, "sizes", 40)}
				long := chance(t, "long", 4)
				if long {
					c.History = genHistory(t, 300, 20)
				}
				if chance(t, "sends", 30) {
					c.Send = rapid.IntRange(1, 2).Draw(t, "send")
				}
				if rapid.Bool().Draw(t, "grouped") {
					for n := 0; n < len(c.History.Msgs); {
						g := p24Group{N: pick(t, "group", 1, 1, 2, 2, 3, 8)}
						if long {
							g.N = pick(t, "large group", 1, 30, 300)
						}
						if chance(t, "extra", 30) {
							g.Extra = pick(t, "extra bytes", 1, 1, 2, 3, 10, 1000)
						}
						g.Hold = chance(t, "hold", 20)
						c.Groups = append(c.Groups, g)
						n += g.N
					}
				}
				return c
			}, p24Run),
			pbt.NewPart("roundtrip", 6000, func(t *rapid.T) p24RoundTrip {
				c := p24RoundTrip{H: genHandshake(t), OneByte: rapid.Bool().Draw(t, "onebyte"), Fail: -1}
				if chance(t, "fails", 30) {
					c.Fail = rapid.IntRange(0, len(c.H.lines())-1).Draw(t, "fail")
				} else {
					c.Rest = genBytes(t, "rest", rapid.IntRange(0, 8).Draw(t, "nrest"))
					if chance(t, "broken", 20) {
						c.Broken = rapid.IntRange(1, len(c.H.lines())-1).Draw(t, "break")
					}
				}
				c.New = chance(t, "new", 10)
				return c
			}, p24RunRoundTrip),
			pbt.NewPart("malformed", 1200, func(t *rapid.T) p24Bad {
				return p24Bad{
					H:       genHandshake(t),
					What:    rapid.IntRange(0, len(p24BadLines)-1).Draw(t, "what"),
					History: genHistory(t, 6, 20),
					Sizes:   genSizes(t, "sizes", 40),
				}
			}, p24RunBad),
			pbt.NewPart("burst", 600, func(t *rapid.T) p24Burst {
				c := p24Burst{H: genHandshake(t), Hold: pick(t, "hold", 0, 1, 1, 100, 1000), Sizes: genSizes(t, "sizes", 4000)}
				for n := rapid.IntRange(1, 6).Draw(t, "runs"); n > 0; n-- {
					run := p24RunOf{N: genCount(t, "n", 1, pick(t, "max", 3, 20, 300, 3000), 20000)}
					if chance(t, "other", 40) {
						run.Type = pick(t, "type", ref.CtlHeartbeat, ref.CtlSyncFinished, ref.CtlSyncPartial, ref.CtlSyncConfirm)
					}
					c.Runs = append(c.Runs, run)
				}
				return c
			}, p24RunBurst),
		},
	})
}

func p24Run(r *pbt.R, c p24Case) error {
	_, err := bubble(r, func() error {
		w := newPeWorld()
		def := &sticktable.Definition{StickTableID: 3, Name: "pushed", KeyType: sticktable.KeyTypeString, KeyLength: 10}
		w.onHandshake = func(s *peSession, ctx context.Context, _ *peers.Handshake) {
			send := func() {
				if err := peers.WriterFromContext(ctx).SendTableDefinition(def); err != nil {
					w.fail("SendTableDefinition: %v", err)
				}
			}
			switch c.Send {
			case 1:
				send()
			case 2:
				go send()
			}
		}
		w.serve()
		defer w.cancel()
		conn := w.dial(memnet.Options{Yield: 1})
		feed(conn, []byte(c.H.lines()), c.Sizes, 20)
		rest(time.Millisecond)
		s := w.session(0)
		look := func() ([]ref.Msg, error) {
			if err := w.err(); err != nil {
				return nil, err
			}
			if conn.Closed() {
				return nil, fmt.Errorf("the session is ended")
			}
			ms, _, err := peOutput(conn.Output())
			return ms, err
		}
		ms, err := look()
		if err != nil {
			return fmt.Errorf("after the handshake %q: %w", c.H.lines(), err)
		}
		if len(s.handshakes) != 1 || s.handshakes[0] != c.H.lib() {
			return fmt.Errorf("the handler was told of %s, want %s", trunc(s.handshakes), trunc(c.H))
		}
		pushed := 0
		if c.Send > 0 {
			r.NonTrivial()
			if len(ms) != 1 || ms[0].Type != ref.MsgDefinition {
				return fmt.Errorf("the pushed definition is missing: %v", ms)
			}
			pushed = 1
		}
		if len(ms) != pushed {
			return fmt.Errorf("unexpected messages after the handshake: %v", ms)
		}
		msgs, want, after := c.History.encode()
		syncs, early := 0, 0
		for i, g := 0, 0; i < len(msgs); g++ {
			group := p24Group{N: 1}
			if g < len(c.Groups) {
				group = c.Groups[g]
			}
			n := min(max(group.N, 1), len(msgs)-i)
			r.LabelIf(n > 1, "messages at once")
			var b []byte
			for _, m := range msgs[i : i+n] {
				b = append(b, m...)
			}
			for _, m := range c.History.Msgs[i : i+n] {
				if m.Other != nil && m.Other.Class == ref.ClassControl && m.Other.Type == ref.CtlSyncReq {
					syncs++
					r.NonTrivialIf(len(msgs) > 1)
				}
			}
			i += n
			b = b[early:]
			if early = 0; i < len(msgs) && group.Extra > 0 {
				// at least one byte is yet to come
				early = min(group.Extra, len(msgs[i])-1)
				b = append(b, msgs[i][:early]...)
				r.LabelIf(early > 0, "with a part of the next")
			}
			conn.Hold(group.Hold)
			conn.Feed(b)
			rest(time.Millisecond)
			if group.Hold {
				r.LabelIf(n > 20, "many messages while held")
				conn.Hold(false)
				rest(time.Millisecond)
			}
			ms, err := look()
			if err != nil {
				return fmt.Errorf("before message %d, after %x: %w", i, b, err)
			}
			for _, m := range ms[pushed:] {
				if m.Class != ref.ClassControl || m.Type != ref.CtlSyncPartial {
					return fmt.Errorf("before message %d, after %x: unexpected reply %v", i, b, m)
				}
			}
			if len(ms)-pushed != syncs {
				return fmt.Errorf("before message %d, after %x: %d answers to %d synchronisation requests", i, b, len(ms)-pushed, syncs)
			}
			if err := s.sameUpdates(want[:after[i-1]]); err != nil {
				return err
			}
		}
		w.cancel()
		rest(time.Second)
		return w.err()
	})
	return err
}

// p24Burst is many control messages at once, to a remote that only reads its
// replies some time later.
type p24Burst struct {
	H     p24Handshake
	Runs  []p24RunOf
	Hold  int   // ms
	Sizes []int `json:",omitempty"`
}

type p24RunOf struct {
	N    int
	Type int `json:",omitempty"` // 0: synchronisation requests
}

func p24RunBurst(r *pbt.R, c p24Burst) error {
	_, err := bubble(r, func() error {
		w := newPeWorld()
		w.serve()
		defer w.cancel()
		conn := w.dial(memnet.Options{Yield: 1})
		conn.Feed([]byte(c.H.lines()))
		rest(time.Millisecond)
		var in []byte
		syncs := 0
		for _, run := range c.Runs {
			in = append(in, bytes.Repeat([]byte{ref.ClassControl, byte(run.Type)}, run.N)...)
			if run.Type == ref.CtlSyncReq {
				syncs += run.N
			}
		}
		r.NonTrivialIf(syncs > 1)
		r.LabelIf(syncs > 100 && c.Hold > 0, "more than 100 requests before replies are read")
		conn.Hold(c.Hold > 0)
		feed(conn, in, c.Sizes, 0)
		rest(time.Duration(max(c.Hold, 1)) * time.Millisecond)
		conn.Hold(false)
		rest(time.Millisecond)
		if err := w.err(); err != nil {
			return err
		}
		if conn.Closed() {
			return fmt.Errorf("the session is ended")
		}
		ms, _, err := peOutput(conn.Output())
		if err != nil {
			return err
		}
		for _, m := range ms {
			if m.Class != ref.ClassControl || m.Type != ref.CtlSyncPartial {
				return fmt.Errorf("unexpected reply %v", m)
			}
		}
		if len(ms) != syncs {
			return fmt.Errorf("%d answers to %d synchronisation requests", len(ms), syncs)
		}
		w.cancel()
		rest(time.Second)
		return w.err()
	})
	return err
}

type p24Bad struct {
	H       p24Handshake
	What    int
	History peHistory
	Sizes   []int `json:",omitempty"`
}

// p24BadLines makes a line that is not as specified, and says which one.
var p24BadLines = []func(h p24Handshake) (int, string){
	func(h p24Handshake) (int, string) { return 0, "" },
	func(h p24Handshake) (int, string) { return 0, h.Protocol },
	func(h p24Handshake) (int, string) { return 2, "" },
	func(h p24Handshake) (int, string) { return 2, h.Local },
	func(h p24Handshake) (int, string) { return 2, fmt.Sprintf("%s %d", h.Local, h.PID) },
	func(h p24Handshake) (int, string) { return 2, fmt.Sprintf("%s x %d", h.Local, h.RelPID) },
	func(h p24Handshake) (int, string) { return 2, fmt.Sprintf("%s %d x", h.Local, h.PID) },
	func(h p24Handshake) (int, string) { return 2, fmt.Sprintf("%s %d -", h.Local, h.PID) },
	func(h p24Handshake) (int, string) { return 2, fmt.Sprintf("%s p%d %d", h.Local, h.PID, h.RelPID) },
}

func p24RunBad(r *pbt.R, c p24Bad) error {
	r.NonTrivial()
	lines := strings.SplitAfterN(c.H.lines(), "\n", 3)
	which, bad := p24BadLines[c.What](c.H)
	lines[which] = bad + "\n"
	hello := strings.Join(lines, "")
	var got peers.Handshake
	if _, err := got.ReadFrom(strings.NewReader(hello)); err == nil {
		return fmt.Errorf("ReadFrom takes the handshake %q", hello)
	}
	_, err := bubble(r, func() error {
		w := newPeWorld()
		w.serve()
		defer w.cancel()
		conn := w.dial(memnet.Options{Yield: 1})
		in := []byte(hello)
		msgs, _, _ := c.History.encode()
		for _, m := range msgs {
			in = append(in, m...)
		}
		feed(conn, in, c.Sizes, 20)
		rest(time.Second)
		if err := w.err(); err != nil {
			return err
		}
		s := w.session(0)
		if !conn.Closed() || s != nil && (s.closes != 1 || len(s.handshakes) > 0 || len(s.updates) > 0) {
			return fmt.Errorf("after the handshake %q: closed %v, session %s", hello, conn.Closed(), trunc(s))
		}
		if bytes.HasPrefix(conn.Output(), []byte(peStatus)) {
			return fmt.Errorf("the handshake %q is answered by %q", hello, conn.Output())
		}
		w.cancel()
		rest(time.Second)
		return w.err()
	})
	return err
}

type failingWriter struct {
	buf  bytes.Buffer
	left int // -1: does not fail
}

func (w *failingWriter) Write(p []byte) (int, error) {
	if w.left >= 0 && len(p) > w.left {
		n := w.left
		w.buf.Write(p[:n])
		w.left = 0
		return n, memnet.ErrWrite
	}
	if w.left >= 0 {
		w.left -= len(p)
	}
	return w.buf.Write(p)
}

type chunkReader struct {
	b     []byte
	max   int
	err   error // at the end
	after int   // reads since the end
}

func (r *chunkReader) Read(p []byte) (int, error) {
	if len(r.b) == 0 && r.err != nil && len(p) > 0 {
		r.after++
		return 0, r.err
	}
	if len(p) > r.max {
		p = p[:r.max]
	}
	n := copy(p, r.b)
	r.b = r.b[n:]
	if n == 0 && len(p) > 0 {
		return 0, fmt.Errorf("read beyond the end")
	}
	return n, nil
}

func p24RunRoundTrip(r *pbt.R, c p24RoundTrip) error {
	h := c.H.lib()
	if host, err := os.Hostname(); c.New && err == nil && host != "" && !strings.ContainsAny(host, " \t\r\n") {
		h = *peers.NewHandshake(c.H.Remote)
		want := peers.Handshake{ProtocolIdentifier: "HAProxyS", Version: "2.1", RemotePeer: c.H.Remote, LocalPeerIdentifier: host, ProcessID: os.Getpid()}
		if h != want {
			return fmt.Errorf("NewHandshake returns %s, want %s", trunc(h), trunc(want))
		}
		r.Label("NewHandshake")
		c.H.Protocol, c.H.Version, c.H.Local, c.H.PID, c.H.RelPID = "HAProxyS", "2.1", host, os.Getpid(), 0
	}
	if n := len(c.H.lines()); c.Fail >= n {
		c.Fail = n - 1
	}
	fw := &failingWriter{left: c.Fail}
	n, err := h.WriteTo(fw)
	if n != int64(fw.buf.Len()) {
		return fmt.Errorf("WriteTo reports %d bytes, wrote %d", n, fw.buf.Len())
	}
	if c.Fail >= 0 {
		r.NonTrivial()
		if err == nil {
			return fmt.Errorf("the write failure after %d bytes is not reported", c.Fail)
		}
		return nil
	}
	if err != nil {
		return fmt.Errorf("WriteTo: %w", err)
	}
	if fw.buf.String() != c.H.lines() {
		return fmt.Errorf("wrote %q, want %q", fw.buf.String(), c.H.lines())
	}
	r.NonTrivialIf(len(c.Rest) > 0)
	in := &chunkReader{b: append(fw.buf.Bytes(), c.Rest...), max: 1 << 20}
	if c.OneByte {
		in.max = 1
	}
	var got peers.Handshake
	if n := fw.buf.Len(); c.Broken > 0 {
		r.NonTrivial()
		in.b, in.err = in.b[:min(c.Broken, n-1)], memnet.ErrWrite
		if _, err := got.ReadFrom(in); err == nil || in.after > 3 {
			return fmt.Errorf("reading from a reader that fails after %q reports %v, after %d more reads", fw.buf.String()[:min(c.Broken, n-1)], err, in.after-1)
		}
		return nil
	}
	if _, err := got.ReadFrom(in); err != nil {
		return fmt.Errorf("ReadFrom: %w", err)
	}
	if got != h {
		return fmt.Errorf("read back %s, want %s", trunc(got), trunc(h))
	}
	if !bytes.Equal(in.b, c.Rest) {
		return fmt.Errorf("%x is left of what follows the handshake, want %x", in.b, []byte(c.Rest))
	}
	return nil
}
