package checks

import (
	"bytes"
	"context"
	"fmt"
	"time"

	"github.com/dropmorepackets/haproxy-go/pkg/encoding"
	"pgregory.net/rapid"

	"verif/harness/memnet"
	"verif/harness/pbt"
	"verif/harness/ref"
)

// p15Way is a way in which a stream arrives.
type p15Way struct {
	Sizes   []int `json:",omitempty"`
	ReadMax int   `json:",omitempty"` // 1: byte by byte
	Pause   int   `json:",omitempty"` // ms between chunks
	Yield   int   `json:",omitempty"`
}

func genP15Way(t *rapid.T, label string, pauses ...int) p15Way {
	w := p15Way{Sizes: genSizes(t, label, 60), Yield: rapid.IntRange(0, 2).Draw(t, label+"/yield")}
	if chance(t, label+"/small reads", 40) {
		w.ReadMax = pick(t, label+"/readmax", 1, 1, 2, 3, 7, 4096)
	}
	if chance(t, label+"/pauses", 50) {
		w.Pause = pick(t, label+"/pause", pauses...)
	}
	return w
}

func (w p15Way) trivial() bool { return len(w.Sizes) == 0 && w.ReadMax == 0 }

type p15Spop struct {
	Extra    int
	Merge    bool `json:",omitempty"`
	Hello    p15Way
	Notifies []spNotify // in chunks of their own
}

type p15Peers struct {
	H      peHistory
	Merge  bool   // handshake and messages in one stream
	Groups []int  // numbers of messages per stream
	Way    p15Way // pauses are shared out so that no message takes long
}

// p15Any is any stream, in two ways.
type p15Any struct {
	Hello  ref.Str
	Second ref.Str // sent behind Hello
	Merge  bool    // without waiting
	Ways   [2]p15Way
}

func init() {
	minute, hour := 60_000, 3_600_000
	pbt.Register(&pbt.Property{
		ID: "P15",
		Rule: "Parts spop and peers: conforming exchanges (as in P10 and P19) whose bytes arrive in random chunks, byte by byte, or with the HELLO or handshake and what follows in one piece, with pauses of up to hours between the chunks for SPOP, and within what the silence limit allows for peers; oracle: what the bytes call for. Parts spop-any and peers-any: any handshake, and any frame or messages behind it (also malformed), sent in two ways to two servers; handler calls, output and end of the connection must be the same. " +
			"Non-trivial: not everything in one piece.",
		Parts: []*pbt.Part{
			pbt.NewPart("spop", 3000, func(t *rapid.T) p15Spop {
				c := p15Spop{Extra: pick(t, "extra", 0, 1, 1000), Merge: chance(t, "merge", 40), Hello: genP15Way(t, "hello", 1, 1000, minute, hour)}
				max := pick(t, "max", 12, 12, 300, 9000)
				for n := genCount(t, "notifies", 0, 5, 500); n > 0; n-- {
					y := genNotify(t, max)
					y.Sizes = genSizes(t, "sizes", 60)
					if chance(t, "pauses", 50) {
						y.Pause = pick(t, "pause", 1, 1000, minute, hour)
					}
					c.Notifies = append(c.Notifies, y)
				}
				return c
			}, p15RunSpop),
			pbt.NewPart("peers", 4000, func(t *rapid.T) p15Peers {
				max := pick(t, "max", 12, 12, 300, 9000)
				return p15Peers{
					H:      genHistory(t, 25, max),
					Merge:  chance(t, "merge", 50),
					Groups: rapid.SliceOfN(rapid.IntRange(1, 10), 0, 8).Draw(t, "groups"),
					Way:    genP15Way(t, "way", 1, 20, 1000),
				}
			}, p15RunPeers),
			pbt.NewPart("spop-any", 4000, func(t *rapid.T) p15Any {
				h := genP09Hello(t)
				f := helloFrame(nil)
				f.Payload = h.payload()
				if chance(t, "mutated hello", 20) {
					f.Payload = mutate(t, f.Payload)
				}
				c := p15Any{Hello: ref.AppendFrame(nil, f), Merge: rapid.Bool().Draw(t, "merge")}
				if chance(t, "plain hello", 60) {
					c.Hello = ref.AppendFrame(nil, helloFrame(helloKVs(uint64(pick(t, "size", 256, 16380, 70000)))))
				}
				if !chance(t, "no second", 10) {
					var p []byte
					for k := rapid.IntRange(0, 3).Draw(t, "msgs"); k > 0; k-- {
						p = ref.AppendMessage(p, genMessage(t, 4, pick(t, "max", 12, 300, 6000)))
					}
					if chance(t, "mutated", 50) {
						p = mutate(t, p)
					}
					g := ref.Frame{Type: pick(t, "type", ref.FNotify, ref.FNotify, ref.FNotify, ref.FHaproxyDisconnect, 0, 200), Flags: 1, Stream: genU64(t, "stream"), ID: genU64(t, "frame"), Payload: p}
					c.Second = ref.AppendFrame(nil, g)
				}
				c.Ways = [2]p15Way{genP15Way(t, "a", 1, minute), genP15Way(t, "b", 1, minute, hour)}
				return c
			}, p15RunSpopAny),
			pbt.NewPart("peers-any", 4000, func(t *rapid.T) p15Any {
				var b []byte
				msgs, _, _ := genHistory(t, 12, 60).encode()
				for _, m := range msgs {
					b = append(b, m...)
				}
				c := p15Any{Hello: ref.Str(genHandshake(t).lines()), Second: mutate(t, b), Merge: rapid.Bool().Draw(t, "merge")}
				if chance(t, "mutated hello", 20) {
					c.Hello = mutate(t, c.Hello)
				}
				c.Ways = [2]p15Way{genP15Way(t, "a", 1, 20), genP15Way(t, "b", 1, 20)}
				return c
			}, p15RunPeersAny),
		},
	})
}

func p15RunSpop(r *pbt.R, c p15Spop) error {
	r.NonTrivialIf(!c.Hello.trivial() || c.Merge && len(c.Notifies) > 0)
	for _, n := range c.Notifies {
		r.NonTrivialIf(len(n.Sizes) > 0)
	}
	_, err := bubble(r, func() error {
		w := newSpWorld()
		w.serve()
		defer w.cancel()
		if c.Merge && len(c.Notifies) > 0 {
			c.Notifies[0].Pause = c.Hello.Pause
		}
		cl := &spClient{
			c:        w.l.Dial(memnet.Options{Yield: c.Hello.Yield, ReadMax: c.Hello.ReadMax}),
			size:     uint64(needed(c.Notifies, 0) + c.Extra),
			notifies: c.Notifies,
			hello:    c.Hello.Sizes,
			merge:    c.Merge,
		}
		go cl.run(w)
		rest(10_000 * time.Hour)
		return cl.settled(w)
	})
	return err
}

func p15RunPeers(r *pbt.R, c p15Peers) error {
	r.NonTrivialIf(!c.Way.trivial() || c.Merge || len(c.Groups) > 0)
	_, err := bubble(r, func() error {
		w := newPeWorld()
		w.serve()
		defer w.cancel()
		conn := w.dial(memnet.Options{Yield: c.Way.Yield, ReadMax: c.Way.ReadMax})
		msgs, want, _ := c.H.encode()
		// Group the messages into streams.
		streams := [][]byte{[]byte(peHello)}
		for i, n := 0, 0; i < len(msgs); n++ {
			k := len(msgs)
			if n < len(c.Groups) {
				k = min(i+c.Groups[n], k)
			}
			b := bytes.Join(msgs[i:k], nil)
			if n == 0 && c.Merge {
				streams[0] = append(streams[0], b...)
			} else {
				streams = append(streams, b)
			}
			i = k
		}
		for _, b := range streams {
			chunks := memnet.Split(b, c.Way.Sizes)
			pause := time.Duration(c.Way.Pause) * time.Millisecond
			pause = min(pause, 4*time.Second/time.Duration(len(chunks)))
			for _, chunk := range chunks {
				time.Sleep(pause)
				conn.Feed(chunk)
			}
		}
		rest(time.Second)
		s := w.session(0)
		if err := w.err(); err != nil {
			return err
		}
		if len(s.handshakes) != 1 {
			return fmt.Errorf("HandleHandshake is called %d times", len(s.handshakes))
		}
		if err := s.sameUpdates(want); err != nil {
			return err
		}
		if conn.Closed() || s.closes > 0 {
			return fmt.Errorf("the session is ended although nothing is wrong with it")
		}
		if err := onlyPartials(conn.Output(), c.H.syncRequests()); err != nil {
			return err
		}
		w.cancel()
		rest(time.Second)
		return w.err()
	})
	return err
}

// p15Feed sends the two parts of the case in the given way.
func p15Feed(conn *memnet.Conn, c p15Any, w p15Way) {
	if c.Merge {
		feed(conn, append(append([]byte(nil), c.Hello...), c.Second...), w.Sizes, w.Pause)
		return
	}
	feed(conn, c.Hello, w.Sizes, w.Pause)
	rest(time.Millisecond)
	feed(conn, c.Second, w.Sizes, w.Pause)
}

// p15Outcome is what a server makes of a stream.
type p15Outcome struct {
	Calls  []string
	Output ref.Str
	Closed bool
}

func p15Same(r *pbt.R, c p15Any, run func(p15Way) (p15Outcome, error)) error {
	r.NonTrivialIf(!c.Ways[0].trivial() || !c.Ways[1].trivial())
	var o [2]p15Outcome
	for i, w := range c.Ways {
		var err error
		if o[i], err = run(w); err != nil {
			return err
		}
	}
	r.LabelIf(o[0].Closed, "closed")
	r.LabelIf(len(o[0].Calls) > 0, "handler calls")
	if a, b := fmt.Sprintf("%+v", o[0]), fmt.Sprintf("%+v", o[1]); a != b {
		return fmt.Errorf("the same bytes lead to %s when they arrive as in %+v, and to %s as in %+v", trunc(a), c.Ways[0], trunc(b), c.Ways[1])
	}
	return nil
}

func p15RunSpopAny(r *pbt.R, c p15Any) error {
	return p15Same(r, c, func(way p15Way) (o p15Outcome, err error) {
		_, err = bubble(r, func() error {
			w := newSpWorld()
			w.other = func(_ context.Context, aw *encoding.ActionWriter, m *encoding.Message) {
				call := fmt.Sprintf("%x:", m.NameBytes())
				e := encoding.AcquireKVEntry()
				defer encoding.ReleaseKVEntry(e)
				for m.KV.Next(e) {
					call += fmt.Sprintf(" %x=%v", e.NameBytes(), e.Value())
					_ = echo(aw, e)
				}
				if m.KV.Error() != nil {
					call += " and an error"
				}
				w.mu.Lock()
				defer w.mu.Unlock()
				o.Calls = append(o.Calls, call)
			}
			w.serve()
			defer w.cancel()
			conn := w.l.Dial(memnet.Options{Yield: way.Yield, ReadMax: way.ReadMax})
			p15Feed(conn, c, way)
			rest(time.Hour)
			o.Output, o.Closed = conn.Output(), conn.Closed()
			conn.EndInput(fmt.Errorf("over"))
			rest(time.Hour)
			return w.err()
		})
		return o, err
	})
}

func p15RunPeersAny(r *pbt.R, c p15Any) error {
	return p15Same(r, c, func(way p15Way) (o p15Outcome, err error) {
		_, err = bubble(r, func() error {
			w := newPeWorld()
			w.serve()
			defer w.cancel()
			conn := w.dial(memnet.Options{Yield: way.Yield, ReadMax: way.ReadMax})
			p15Feed(conn, c, way)
			rest(10 * time.Millisecond)
			o.Closed = conn.Closed()
			out := conn.Output()
			s := w.session(0)
			for _, h := range s.handshakes {
				o.Calls = append(o.Calls, fmt.Sprintf("%+v", h))
			}
			for _, u := range s.updates {
				o.Calls = append(o.Calls, u.seen)
			}
			if len(out) > 0 {
				ms, _, err := peOutput(out)
				if err != nil {
					return err
				}
				o.Output = ref.Str(fmt.Sprint(ms))
			}
			w.cancel()
			rest(time.Second)
			return w.err()
		})
		return o, err
	})
}
