package checks

import (
	"fmt"
	"slices"
	"time"

	"pgregory.net/rapid"

	"verif/harness/memnet"
	"verif/harness/pbt"
	"verif/harness/ref"
)

type p09Hello struct {
	Type   int `json:",omitempty"` // 0: HAPROXY-HELLO
	KVs    []ref.KV
	Raw    ref.Str `json:",omitempty"` // payload instead of KVs
	IsRaw  bool    `json:",omitempty"`
	Sizes  []int   `json:",omitempty"`
	NoWait bool    `json:",omitempty"` // sends a NOTIFY without waiting for the answer
}

// offer is what a HELLO means.
type offer struct {
	ok     bool
	size   uint64
	health bool
	open   bool // what should happen is left open
}

func (h p09Hello) payload() []byte {
	if h.IsRaw {
		return h.Raw
	}
	return ref.AppendKVs(nil, h.KVs)
}

func (h p09Hello) offer() (o offer) {
	if h.Type != 0 {
		return o
	}
	b := h.payload()
	if 7+len(b) > 65535 {
		return o // too long a frame
	}
	kvs, err := ref.KVs(b)
	if err == ref.ErrUnspecified {
		o.open = true
		return o
	}
	sizes, healths, bad := 0, 0, false
	for _, kv := range kvs {
		v := kv.V
		if v.T == ref.TInt32 && int64(v.Int) != int64(int32(v.Int)) || v.T == ref.TUInt32 && v.Int != uint64(uint32(v.Int)) {
			o.open = true
		}
		switch string(kv.Name) {
		case "max-frame-size":
			sizes++
			if !ref.IsInt(v.T) || v.Int < 256 || v.Int > 1<<31-1 {
				bad = true
			}
			o.size = v.Int
		case "healthcheck":
			healths++
			if v.T != ref.TBool {
				o.open = true
			}
			o.health = v.Bool
		}
	}
	if sizes > 1 || healths > 1 {
		o.open = true
	}
	o.ok = err == nil && sizes == 1 && !bad
	return o
}

func genP09Hello(t *rapid.T) p09Hello {
	var h p09Hello
	h.KVs = genKVs(t, 3, 300)
	if chance(t, "many entries", 5) {
		for n := pick(t, "nentries", 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 600); n > 0; n-- {
			h.KVs = append(h.KVs, ref.KV{Name: ref.Str(fmt.Sprint("entry", n)), V: ref.Value{T: ref.TNull}})
		}
	}
	add := func(name string, v ref.Value) {
		i := rapid.IntRange(0, len(h.KVs)).Draw(t, "position")
		h.KVs = slices.Insert(h.KVs, i, ref.KV{Name: ref.Str(name), V: v})
	}
	if !chance(t, "no size", 6) {
		v := ref.Value{T: pick(t, "sizetype", ref.TUInt32, ref.TUInt32, ref.TInt32, ref.TInt64, ref.TUInt64)}
		switch rapid.IntRange(0, 6).Draw(t, "sizekind") {
		case 0, 1, 2:
			v.Int = uint64(pick(t, "size", 256, 257, 16380, 65535, 65536, 1<<31-1))
		case 3:
			v.Int = rapid.Uint64Range(256, 1<<31-1).Draw(t, "size")
		case 4:
			v.Int = rapid.Uint64Range(0, 255).Draw(t, "size")
		case 5:
			v.Int = genU64(t, "size")
		case 6:
			v.Int = pick[uint64](t, "size", 255, 1<<31, 1<<31+256, 1<<32, 1<<32+256, 1<<32+65535, 1<<63, 1<<63+256, 1<<64-1, 1<<64-256, 0)
		}
		switch {
		case chance(t, "other type", 4):
			v = genValueOf(t, "size", pick(t, "oddtype", ref.TNull, ref.TBool, ref.TIPv4, ref.TString, ref.TBinary), 20)
		case v.T == ref.TUInt32:
			v.Int = uint64(uint32(v.Int))
		case v.T == ref.TInt32:
			v.Int = uint64(int64(int32(v.Int)))
		}
		add("max-frame-size", v)
	}
	if chance(t, "healthcheck", 30) {
		add("healthcheck", ref.Value{T: ref.TBool, Bool: chance(t, "health", 70)})
	}
	for _, name := range []string{"supported-versions", "capabilities", "engine-id"} {
		if chance(t, name, 50) {
			v := ref.Value{T: ref.TString, Bytes: pick(t, name+"/v", ref.Str("2.0"), ref.Str("1.0, 2.0"), ref.Str(""), ref.Str("pipelining,async"), ref.Str("0a-0b"))}
			if chance(t, name+"/odd", 10) {
				v = genValue(t, name+"/odd", 300)
			}
			add(name, v)
		}
	}
	if chance(t, "similar", 15) {
		add(pick(t, "similarname", "max-frame-siz", "max-frame-size2", "Max-Frame-Size", "healthchecks", "healthchec", ""), genValue(t, "similar", 20))
	}
	if chance(t, "long", 6) {
		// Up to what a frame may hold before the handshake.
		size := pick(t, "longsize", genLen(t, "frame", 65535), rapid.IntRange(300, 65535).Draw(t, "anysize"), 65535)
		fill := ref.KV{Name: ref.Str("fill"), V: ref.Value{T: ref.TString}}
		if n := size - 7 - len(h.payload()) - 5 - 1; n > 3 {
			fill.V.Bytes = make(ref.Str, n-len(ref.AppendVarint(nil, uint64(n))))
			h.KVs = slices.Insert(h.KVs, rapid.IntRange(0, len(h.KVs)).Draw(t, "longposition"), fill)
		}
	}
	switch {
	case chance(t, "wrong type", 10):
		h.Type = pick(t, "type", ref.FNotify, ref.FHaproxyDisconnect, 4, ref.FAgentHello, ref.FAck, 255)
		if h.Type == ref.FNotify && rapid.Bool().Draw(t, "message") {
			h.Raw, h.IsRaw = ref.AppendMessage(nil, ref.Message{Name: ref.Str("early")}), true
		}
	case chance(t, "mutated", 20):
		h.Raw, h.IsRaw = mutate(t, h.payload()), true
	}
	h.Sizes = genSizes(t, "sizes", 30)
	h.NoWait = chance(t, "nowait", 20)
	return h
}

type p09Case struct{ Hellos []p09Hello }

func init() {
	pbt.Register(&pbt.Property{
		ID: "P09",
		Rule: "1-8 connections to one agent, each beginning with a HELLO of random entries (up to 600) of every type in random order: max-frame-size missing or under any integer type with values around 256, 2^31, 2^32 and 2^63 or of another type, healthcheck true, false or absent, rarely as long as a frame may be, names one letter off, or with a mutated payload, or a frame of another type; split at random, sometimes followed by a NOTIFY at once. Accepted connections then exchange a NOTIFY. " +
			"Non-trivial: a connection whose HELLO has at least two entries.",
		Parts: []*pbt.Part{
			pbt.NewPart("hello", 3000, func(t *rapid.T) p09Case {
				var c p09Case
				for n := genCount(t, "conns", 1, 8, 300); n > 0; n-- {
					c.Hellos = append(c.Hellos, genP09Hello(t))
				}
				return c
			}, p09Run),
		},
	})
}

func p09Run(r *pbt.R, c p09Case) error {
	_, err := bubble(r, func() error {
		w := newSpWorld()
		w.serve()
		defer w.cancel()
		follow := spNotify{Stream: 7, Frame: 9, Msgs: []spMsg{{Ops: []actionOp{{A: ref.Action{Kind: ref.ActSet, Scope: 2, Name: ref.Str("v"), V: ref.Value{T: ref.TBool, Bool: true}}}}}}}
		early := ref.AppendFrame(nil, ref.Frame{Type: ref.FNotify, Flags: ref.FlagFin, Stream: 1, ID: 1, Payload: ref.AppendMessage(nil, ref.Message{Name: ref.Str("early")})})
		conns := make([]*memnet.Conn, len(c.Hellos))
		clients := make([]*spClient, len(c.Hellos))
		for i, h := range c.Hellos {
			o := h.offer()
			r.NonTrivialIf(len(h.KVs) > 1)
			conns[i] = w.l.Dial(memnet.Options{Yield: i % 2})
			switch {
			case o.open:
				r.Label("left open")
				continue
			case o.ok && !o.health:
				r.Label("accepted")
				kvs, _ := ref.KVs(h.payload())
				clients[i] = &spClient{id: i, c: conns[i], size: o.size, kvs: kvs, hello: h.Sizes, merge: h.NoWait, notifies: []spNotify{follow}}
				go clients[i].run(w)
				continue
			case o.ok:
				r.Label("health check")
			default:
				r.Label("rejected")
			}
			f := ref.Frame{Type: ref.FHaproxyHello, Flags: ref.FlagFin, Payload: h.payload()}
			if h.Type != 0 {
				f.Type = h.Type
			}
			b := ref.AppendFrame(nil, f)
			if h.NoWait {
				b = append(b, early...)
			}
			feed(conns[i], b, h.Sizes, 0)
		}
		rest(time.Minute)
		for i, h := range c.Hellos {
			if clients[i] == nil && !h.NoWait && !h.offer().open {
				conns[i].Feed(early)
			}
		}
		rest(time.Hour)
		for i, h := range c.Hellos {
			o := h.offer()
			if o.open {
				continue
			}
			if clients[i] != nil {
				if err := clients[i].settled(w); err != nil {
					return fmt.Errorf("HELLO %s: %w", trunc(h), err)
				}
				continue
			}
			if err := w.err(); err != nil {
				return err
			}
			fs, rest, err := ref.Frames(conns[i].Output())
			if err != nil || len(rest) > 0 {
				return fmt.Errorf("HELLO %s: output %x: %v", trunc(h), conns[i].Output(), err)
			}
			if o.ok {
				if len(fs) == 0 {
					return fmt.Errorf("health check %s is not answered", trunc(h))
				}
				if err := checkHello(fs[0], o.size); err != nil {
					return err
				}
				fs = fs[1:]
			}
			if !o.ok && !o.health && len(fs) == 0 {
				return fmt.Errorf("HELLO %s (%+v) is refused without an AGENT-DISCONNECT", trunc(h), o)
			}
			if len(fs) > 0 && fs[0].Type == ref.FAgentDisconnect {
				if err := checkDisconnect(fs[0]); err != nil {
					return fmt.Errorf("HELLO %s (%+v): %w", trunc(h), o, err)
				}
				fs = fs[1:]
			}
			if len(fs) > 0 {
				return fmt.Errorf("HELLO %s (%+v) is answered with frame %+v", trunc(h), o, fs[0])
			}
			if !conns[i].Closed() {
				return fmt.Errorf("HELLO %s (%+v): the connection is not closed", trunc(h), o)
			}
		}
		return nil
	})
	return err
}
