package checks

import (
	"context"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"runtime"
	"runtime/metrics"
	"syscall"
	"time"

	"github.com/dropmorepackets/haproxy-go/pkg/encoding"
	"pgregory.net/rapid"

	"verif/harness/memnet"
	"verif/harness/pbt"
	"verif/harness/ref"
)

// p13Hostile is a connection that does not follow the protocol.
type p13Hostile struct {
	Stream    ref.Str
	Sizes     []int  `json:",omitempty"`
	Start     int    `json:",omitempty"` // ms
	End       string `json:",omitempty"` // "eof", "reset", or nothing
	FailWrite bool   `json:",omitempty"`
	FailAfter int    `json:",omitempty"`
	Yield     int    `json:",omitempty"`
}

type p13Wave struct {
	Healthy []p10Conn    `json:",omitempty"`
	Hostile []p13Hostile `json:",omitempty"`
	More    []spNotify   `json:",omitempty"` // one more NOTIFY on earlier connections
}

type p13Case struct{ Waves []p13Wave }

func genP13Stream(t *rapid.T) ref.Str {
	var b []byte
	if chance(t, "random stream", 8) {
		return genBytes(t, "stream", rapid.IntRange(0, 60).Draw(t, "n"))
	}
	if !chance(t, "no hello", 10) {
		kvs := helloKVs(uint64(pick(t, "size", 256, 16380, 70000)))
		if chance(t, "odd hello", 10) {
			kvs = append(kvs, genKVs(t, 3, 20)...)
		}
		b = ref.AppendFrame(b, helloFrame(kvs))
		if chance(t, "mutated hello", 10) {
			b = mutate(t, b)
		}
	}
	for n := rapid.IntRange(0, 6).Draw(t, "frames"); n > 0; n-- {
		kind := rapid.IntRange(0, 11).Draw(t, "kind")
		switch kind {
		case 0:
			b = ref.AppendFrame(b, helloFrame(helloKVs(1000)))
		case 1: // too short for a header
			k := rapid.IntRange(0, 7).Draw(t, "short")
			b = binary.BigEndian.AppendUint32(b, uint32(k))
			b = append(b, ref.FrameHeader(ref.Frame{Type: ref.FNotify, Flags: ref.FlagFin, Stream: 1, ID: 1})[:k]...)
		case 2:
			typ := pick(t, "type", 0, 4, 100, ref.FAgentHello, ref.FAgentDisconnect, ref.FAck, 255)
			b = ref.AppendFrame(b, ref.Frame{Type: typ, Flags: ref.FlagFin, Payload: genBytes(t, "payload", 5)})
		case 3:
			kvs := []ref.KV{{Name: ref.Str("status-code"), V: ref.Value{T: ref.TUInt32, Int: uint64(pick(t, "code", 0, 1, 2, 10, 99, 1000))}}, {Name: ref.Str("message"), V: ref.Value{T: ref.TString, Bytes: ref.Str("bye")}}}
			p := mutate(t, ref.AppendKVs(nil, kvs))
			b = ref.AppendFrame(b, ref.Frame{Type: ref.FHaproxyDisconnect, Flags: ref.FlagFin, Payload: p})
		case 4:
			b = binary.BigEndian.AppendUint32(b, rapid.Uint32().Draw(t, "length"))
			b = append(b, genBytes(t, "after", 6)...)
		case 5:
			b = append(b, genBytes(t, "junk", rapid.IntRange(1, 12).Draw(t, "njunk"))...)
		default:
			var p []byte
			for k := rapid.IntRange(0, 3).Draw(t, "msgs"); k > 0; k-- {
				m := genMessage(t, 4, 300)
				if chance(t, "panicking", 40) {
					m.Name = ref.Str(fmt.Sprintf("panic %d", rapid.IntRange(0, 4).Draw(t, "panic")))
				}
				p = ref.AppendMessage(p, m)
			}
			if kind < 9 {
				p = mutate(t, p)
			}
			if chance(t, "short claim", 5) && len(p) > 0 {
				p = p[:len(p)-1]
			}
			b = ref.AppendFrame(b, ref.Frame{Type: ref.FNotify, Flags: uint32(pick(t, "flags", 1, 1, 1, 0, 2, 1<<31)), Stream: genU64(t, "stream"), ID: genU64(t, "frame"), Payload: p})
		}
	}
	if chance(t, "mutated stream", 15) {
		b = mutate(t, b)
	}
	return b
}

func genP13Hostile(t *rapid.T) p13Hostile {
	h := p13Hostile{
		Stream: genP13Stream(t), Sizes: genSizes(t, "sizes", 10), Yield: rapid.IntRange(0, 2).Draw(t, "yield"),
		End: pick(t, "end", "", "eof", "reset"),
	}
	if chance(t, "late", 40) {
		h.Start = rapid.IntRange(1, 30).Draw(t, "start")
	}
	if chance(t, "failing writes", 25) {
		h.FailWrite, h.FailAfter = true, pick(t, "after", 0, 3, 50, 60, 100)
	}
	return h
}

func addPanics(t *rapid.T, ns []spNotify, percent int) {
	for i := range ns {
		for j := range ns[i].Msgs {
			if chance(t, "panics", percent) {
				ns[i].Msgs[j].Panic = rapid.IntRange(1, 4).Draw(t, "kind")
			}
		}
	}
}

func init() {
	pbt.Register(&pbt.Property{
		ID: "P13",
		Rule: "One agent and 1-3 waves of up to 6 well-behaved connections (as in P10, some handlers panicking in four ways) next to up to 8 hostile ones: duplicate, mutated or missing HELLOs, frames of 0-7 bytes, unknown types, mutated NOTIFYs and DISCONNECTs, pipelined panicking messages, claims up to 2^32, junk, failing writes, resets; connections of earlier waves send again afterwards. Part capacity: before and after up to 400 panics and hostile connections, more handlers than workers are made to wait, and those that run counted. Part claims: hostile connections only claim long frames, allocation is measured. Race detector. " +
			"Non-trivial: a hostile connection or a panicking handler next to, or before, a well-behaved exchange.",
		Parts: []*pbt.Part{
			pbt.NewPart("hostile", 2000, func(t *rapid.T) p13Case {
				var c p13Case
				percent := pick(t, "percent", 0, 10, 50)
				for n := rapid.IntRange(1, 3).Draw(t, "waves"); n > 0; n-- {
					var wave p13Wave
					for k := rapid.IntRange(1, 6).Draw(t, "healthy"); k > 0; k-- {
						pc := genP10Conn(t, 4, 300)
						addPanics(t, pc.Notifies, percent)
						wave.Healthy = append(wave.Healthy, pc)
					}
					for k := rapid.IntRange(0, 8).Draw(t, "hostile"); k > 0; k-- {
						wave.Hostile = append(wave.Hostile, genP13Hostile(t))
					}
					if len(c.Waves) > 0 {
						for k := rapid.IntRange(0, 3).Draw(t, "more"); k > 0; k-- {
							wave.More = append(wave.More, genNotify(t, 12))
						}
						addPanics(t, wave.More, percent)
					}
					c.Waves = append(c.Waves, wave)
				}
				return c
			}, p13Run),
			pbt.NewPart("capacity", 120, func(t *rapid.T) p13Capacity {
				c := p13Capacity{Panics: genCount(t, "panics", 0, 60, 400), Conns: rapid.IntRange(1, 5).Draw(t, "conns")}
				for k := rapid.IntRange(0, 20).Draw(t, "hostile"); k > 0; k-- {
					h := genP13Hostile(t)
					h.End = "eof"
					c.Hostile = append(c.Hostile, h)
				}
				return c
			}, p13RunCapacity),
			pbt.NewPart("claims", 300, func(t *rapid.T) []p13Claim {
				return rapid.SliceOfN(rapid.Custom(func(t *rapid.T) p13Claim {
					return p13Claim{
						Size:   pick[uint32](t, "size", 256, 65535, 1<<26, 1<<30, 1<<31-1),
						Length: pick[uint32](t, "length", 1<<26, 1<<28, 1<<30, 1<<31-1, 1<<31, 1<<32-1),
						Sent:   rapid.IntRange(0, 40).Draw(t, "sent"),
						Early:  chance(t, "early", 30),
					}
				}), 1, 4).Draw(t, "claims")
			}, p13RunClaims),
		},
	})
}

// p13Handle is the handler for hostile messages.
func p13Handle(ctx context.Context, aw *encoding.ActionWriter, m *encoding.Message) {
	name := string(m.NameBytes())
	e := encoding.AcquireKVEntry()
	defer encoding.ReleaseKVEntry(e)
	for m.KV.Next(e) {
		_ = echo(aw, e)
	}
	switch name {
	case "panic 0":
		panic("hostile")
	case "panic 1":
		panic(errors.New("hostile"))
	case "panic 2":
		e.ValueAddr()
		panic(ctx)
	case "panic 3":
		var p *p13Hostile
		p.Start++
	case "panic 4":
		time.Sleep(20 * time.Millisecond)
		panic(io.EOF)
	}
}

func p13Run(r *pbt.R, c p13Case) error {
	panics := false
	for _, wave := range c.Waves {
		r.NonTrivialIf(len(wave.Hostile) > 0)
		for _, h := range wave.Healthy {
			for _, n := range h.Notifies {
				panics = panics || n.panics()
				if n.panics() {
					r.Count("NOTIFYs with a panic", 1)
				}
			}
		}
		r.Count("hostile connections", len(wave.Hostile))
	}
	r.NonTrivialIf(panics)
	_, err := bubble(r, func() error {
		w := newSpWorld()
		w.other = p13Handle
		w.serve()
		defer w.cancel()
		var all []*spClient
		for _, wave := range c.Waves {
			old := all
			for _, h := range wave.Hostile {
				hc := w.l.Dial(memnet.Options{Yield: h.Yield, FailWrite: h.FailWrite, FailWriteAfter: h.FailAfter})
				go func() {
					time.Sleep(time.Duration(h.Start) * time.Millisecond)
					feed(hc, p13Sane(h.Stream), h.Sizes, 0)
					switch h.End {
					case "eof":
						hc.EndInput(io.EOF)
					case "reset":
						hc.EndInput(syscall.ECONNRESET)
						hc.FailWrites(syscall.EPIPE)
					}
				}()
			}
			all = append(all, runP10Conns(w, wave.Healthy, len(all))...)
			for i, n := range wave.More {
				if i < len(old) {
					cl := old[len(old)-1-i]
					if needed([]spNotify{n}, cl.id) > int(cl.size) {
						continue
					}
					k := len(cl.notifies)
					cl.notifies = append(cl.notifies[:k:k], n)
					cl.finished = false
					go cl.exchange(w, k, k)
				}
			}
			rest(time.Hour)
			for _, cl := range all {
				if err := cl.settled(w); err != nil {
					return err
				}
			}
		}
		w.mu.Lock()
		served := w.served
		w.mu.Unlock()
		if served || w.l.Closed() {
			return fmt.Errorf("the agent stopped serving")
		}
		for _, cl := range all {
			cl.c.EndInput(io.EOF)
		}
		rest(time.Second)
		return w.err()
	})
	return err
}

// p13Capacity is a number of panics, one after the other or on several
// connections at the same time, and other misbehaviour.
type p13Capacity struct {
	Panics, Conns int
	Hostile       []p13Hostile `json:",omitempty"`
}

func p13RunCapacity(r *pbt.R, c p13Capacity) error {
	r.NonTrivialIf(c.Panics > 0)
	_, err := bubble(r, func() error {
		w := newSpWorld()
		running, release := 0, make(chan struct{})
		w.other = func(ctx context.Context, aw *encoding.ActionWriter, m *encoding.Message) {
			if string(m.NameBytes()) != "hold" {
				p13Handle(ctx, aw, m)
				return
			}
			w.mu.Lock()
			running++
			ch := release
			w.mu.Unlock()
			<-ch
		}
		w.serve()
		defer w.cancel()
		dial := func() *memnet.Conn {
			conn := w.l.Dial(memnet.Options{})
			conn.Feed(ref.AppendFrame(nil, helloFrame(helloKVs(16380))))
			return conn
		}
		notify := func(name string, id int) []byte {
			return ref.AppendFrame(nil, ref.Frame{Type: ref.FNotify, Flags: ref.FlagFin, Stream: uint64(id), ID: 1, Payload: ref.AppendMessage(nil, ref.Message{Name: ref.Str(name)})})
		}
		// capacity is how many handlers run at the same time, of more than can.
		capacity := func() int {
			var conns []*memnet.Conn
			for i := 0; i < 4*runtime.NumCPU(); i++ {
				conns = append(conns, dial())
			}
			rest(time.Second)
			for i, conn := range conns {
				conn.Feed(notify("hold", i+1))
			}
			rest(time.Second)
			w.mu.Lock()
			n := running
			close(release)
			w.mu.Unlock()
			rest(time.Second)
			w.mu.Lock()
			running, release = 0, make(chan struct{})
			w.mu.Unlock()
			for _, conn := range conns {
				conn.EndInput(io.EOF)
			}
			rest(time.Second)
			return n
		}
		before := capacity()
		var conns []*memnet.Conn
		for i := 0; i < c.Conns; i++ {
			conns = append(conns, dial())
		}
		for _, h := range c.Hostile {
			hc := w.l.Dial(memnet.Options{Yield: h.Yield, FailWrite: h.FailWrite, FailWriteAfter: h.FailAfter})
			go func() {
				time.Sleep(time.Duration(h.Start) * time.Millisecond)
				feed(hc, p13Sane(h.Stream), h.Sizes, 0)
				hc.EndInput(io.EOF)
			}()
		}
		rest(time.Millisecond)
		for i := 0; i < c.Panics; i++ {
			conns[i%len(conns)].Feed(notify(fmt.Sprintf("panic %d", i/3%5), i+1))
			if i%len(conns) == len(conns)-1 {
				rest(50 * time.Millisecond)
			}
		}
		rest(time.Minute)
		if after := capacity(); after < before {
			return fmt.Errorf("%d handlers run at the same time where it was %d before the panics and hostile connections", after, before)
		}
		for _, conn := range conns {
			conn.EndInput(io.EOF)
		}
		rest(time.Second)
		return w.err()
	})
	return err
}

// p13Sane cuts a stream that negotiates huge frames before it sends claims of
// such (part claims does that).
func p13Sane(b []byte) []byte {
	limit := uint32(65535)
	for off := 0; off+4 <= len(b); {
		l := binary.BigEndian.Uint32(b[off:])
		if l > limit {
			return b
		}
		if l > 1<<20 {
			return b[:off]
		}
		if off == 0 {
			f, _, complete, err := ref.NextFrame(b)
			if !complete || err != nil {
				return b
			}
			if o := (p09Hello{IsRaw: true, Raw: f.Payload}).offer(); o.ok {
				limit = uint32(o.size)
			} else if o.open {
				return b[:4+l]
			}
		}
		off += 4 + int(l)
	}
	return b
}

// p13Claim: a frame header that claims a length, with little after it.
type p13Claim struct {
	Size, Length uint32
	Sent         int
	Early        bool // before the handshake
}

func p13RunClaims(r *pbt.R, claims []p13Claim) error {
	_, err := bubble(r, func() error {
		w := newSpWorld()
		w.serve()
		defer w.cancel()
		var conns []*memnet.Conn
		for _, cl := range claims {
			c := w.l.Dial(memnet.Options{})
			conns = append(conns, c)
			if !cl.Early {
				c.Feed(ref.AppendFrame(nil, helloFrame(helloKVs(uint64(cl.Size)))))
			}
			r.NonTrivialIf(!cl.Early && cl.Length <= cl.Size)
		}
		rest(time.Second)
		s := []metrics.Sample{{Name: "/gc/heap/allocs:bytes"}}
		metrics.Read(s)
		before := s[0].Value.Uint64()
		for i, cl := range claims {
			b := binary.BigEndian.AppendUint32(nil, cl.Length)
			b = append(b, ref.AppendMessage(ref.FrameHeader(ref.Frame{Type: ref.FNotify, Flags: ref.FlagFin, Stream: 1, ID: 1}), ref.Message{Name: letters('n', 100)})[:cl.Sent]...)
			conns[i].Feed(b)
		}
		rest(time.Hour)
		metrics.Read(s)
		if d := s[0].Value.Uint64() - before; d > uint64(len(claims))<<23 {
			return fmt.Errorf("%d bytes allocated for frames of which only the length was sent: %+v", d, claims)
		}
		for i, cl := range claims {
			size := cl.Size
			if cl.Early {
				size = 65535
			}
			if cl.Length > size && !conns[i].Closed() {
				return fmt.Errorf("not closed: %+v", cl)
			}
			conns[i].EndInput(io.EOF)
		}
		rest(time.Hour)
		return w.err()
	})
	return err
}
