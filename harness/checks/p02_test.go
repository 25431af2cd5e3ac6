package checks

import (
	"bytes"
	"fmt"
	"net/netip"

	"github.com/dropmorepackets/haproxy-go/pkg/encoding"
	"pgregory.net/rapid"

	"verif/harness/pbt"
	"verif/harness/ref"
)

// writeKV writes kv with the method for its type.
func writeKV(w *encoding.KVWriter, kv ref.KV) error {
	name, v := string(kv.Name), kv.V
	switch v.T {
	case ref.TNull:
		return w.SetNull(name)
	case ref.TBool:
		return w.SetBool(name, v.Bool)
	case ref.TInt32:
		return w.SetInt32(name, int32(v.Int))
	case ref.TUInt32:
		return w.SetUInt32(name, uint32(v.Int))
	case ref.TInt64:
		return w.SetInt64(name, int64(v.Int))
	case ref.TUInt64:
		return w.SetUInt64(name, v.Int)
	case ref.TIPv4, ref.TIPv6:
		return w.SetAddr(name, addrOf(v.Bytes))
	case ref.TString:
		return w.SetString(name, string(v.Bytes))
	case ref.TBinary:
		b := append([]byte(nil), v.Bytes...)
		err := w.SetBinary(name, b)
		for i := range b {
			b[i] ^= 0xff // the writer must have copied it
		}
		return err
	}
	panic(pbt.Harness("type"))
}

// entryIs compares every accessor of e with kv.
func entryIs(e *encoding.KVEntry, kv ref.KV) error {
	name := string(kv.Name)
	if string(e.NameBytes()) != name {
		return fmt.Errorf("NameBytes %s, want %s", trunc(ref.Str(e.NameBytes())), trunc(kv.Name))
	}
	if !e.NameEquals(name) || !e.NameEqualBytes(kv.Name) || !e.NameEqualUnsafe(name) {
		return fmt.Errorf("name comparisons with %s: %v %v %v, want true", trunc(kv.Name),
			e.NameEquals(name), e.NameEqualBytes(kv.Name), e.NameEqualUnsafe(name))
	}
	others := []string{name + "x", name + "\x00", ""}
	if len(name) > 0 {
		flipped := []byte(name)
		flipped[len(name)-1] ^= 0x20
		first := []byte(name)
		first[0] ^= 1
		mid := []byte(name)
		mid[len(mid)/2] ^= 0x80
		others = append(others, name[:len(name)-1], string(flipped), string(first), string(mid))
	}
	for _, o := range others {
		if o == name {
			continue
		}
		if e.NameEquals(o) || e.NameEqualBytes([]byte(o)) || e.NameEqualUnsafe(o) {
			return fmt.Errorf("name %s compares equal to %s: %v %v %v", trunc(kv.Name), trunc(ref.Str(o)),
				e.NameEquals(o), e.NameEqualBytes([]byte(o)), e.NameEqualUnsafe(o))
		}
	}

	v := kv.V
	if int(e.Type()) != v.T {
		return fmt.Errorf("type %d, want %d", e.Type(), v.T)
	}
	var dynamic any
	switch {
	case v.T == ref.TNull:
	case v.T == ref.TBool:
		dynamic = v.Bool
		if e.ValueBool() != v.Bool {
			return fmt.Errorf("ValueBool %v, want %v", e.ValueBool(), v.Bool)
		}
	case ref.IsInt(v.T):
		switch v.T {
		case ref.TInt32:
			dynamic = int32(v.Int)
		case ref.TUInt32:
			dynamic = uint32(v.Int)
		case ref.TInt64:
			dynamic = int64(v.Int)
		case ref.TUInt64:
			dynamic = v.Int
		}
		if e.ValueInt() != int64(v.Int) {
			return fmt.Errorf("ValueInt %d, want %d", e.ValueInt(), int64(v.Int))
		}
	case v.T == ref.TIPv4 || v.T == ref.TIPv6:
		a := addrOf(v.Bytes)
		dynamic = a
		if e.ValueAddr() != a {
			return fmt.Errorf("ValueAddr %v, want %v", e.ValueAddr(), a)
		}
		if !bytes.Equal(e.ValueBytes(), v.Bytes) {
			return fmt.Errorf("ValueBytes %x, want %x", e.ValueBytes(), []byte(v.Bytes))
		}
	default:
		if v.T == ref.TString {
			dynamic = string(v.Bytes)
		}
		if !bytes.Equal(e.ValueBytes(), v.Bytes) {
			return fmt.Errorf("ValueBytes %s, want %s", trunc(ref.Str(e.ValueBytes())), trunc(v.Bytes))
		}
	}
	got := e.Value()
	if v.T == ref.TBinary {
		b, ok := got.([]byte)
		if !ok || !bytes.Equal(b, v.Bytes) {
			return fmt.Errorf("Value %T %s, want %s", got, trunc(got), trunc(v.Bytes))
		}
	} else if got != dynamic {
		return fmt.Errorf("Value %T %s, want %T %s", got, trunc(got), dynamic, trunc(dynamic))
	}
	return nil
}

type p02Case struct {
	Prefix  ref.Str
	Extra   int
	All     bool // scan to the end rather than a declared count
	Entries []ref.KV
}

func init() {
	pbt.Register(&pbt.Property{
		ID: "P02",
		Rule: "0-8 entries of all ten types with arbitrary name and value bytes, lengths around every length-prefix width up to 70000, integers from small values, width edges and the whole range, IPv4, IPv6 and IPv4-mapped addresses, written after a random prefix into a buffer with 0-40 spare bytes; bytes compared with the reference encoding, then scanned (declared count or to the end) comparing every accessor; a part with names and values up to 34 MB. " +
			"Non-trivial: at least two entries, or one holding more than 239 bytes, a negative or multi-byte integer, or an address.",
		Parts: []*pbt.Part{
			pbt.NewPart("roundtrip", 120000, func(t *rapid.T) p02Case {
				c := p02Case{
					Prefix: genBytes(t, "prefix", rapid.IntRange(0, 6).Draw(t, "nprefix")),
					Extra:  rapid.IntRange(0, 40).Draw(t, "extra"),
					All:    rapid.Bool().Draw(t, "all"),
				}
				max := 2400
				if chance(t, "long", 3) {
					max = 70000
				}
				c.Entries = genKVs(t, 8, max)
				return c
			}, p02Run),
			pbt.NewPart("large", 60, func(t *rapid.T) p02Large {
				c := p02Large{All: rapid.Bool().Draw(t, "all"), Extra: pick(t, "extra", 0, 0, 1, 70000)}
				for n := rapid.IntRange(1, 3).Draw(t, "entries"); n > 0; n-- {
					c.Values = append(c.Values, p02Value{Len: genBig(t, "len"), Bin: rapid.Bool().Draw(t, "binary"), Name: chance(t, "in name", 15), Next: genKVs(t, 2, 20)})
				}
				return c
			}, p02RunLarge),
		},
	})
}

// p02Value is a value of Len bytes, or a name, and what follows it.
type p02Value struct {
	Len  int
	Bin  bool
	Name bool
	Next []ref.KV
}

type p02Large struct {
	All    bool
	Extra  int
	Values []p02Value
}

func p02RunLarge(r *pbt.R, c p02Large) error {
	d := p02Case{All: c.All, Extra: c.Extra}
	for i, v := range c.Values {
		kv := ref.KV{Name: letters(byte('a'+i), i), V: ref.Value{T: ref.TString}}
		if v.Bin {
			kv.V.T = ref.TBinary
		}
		if v.Name {
			kv.Name = fill(v.Len)
		} else {
			kv.V.Bytes = fill(v.Len)
		}
		d.Entries = append(append(d.Entries, kv), v.Next...)
	}
	return p02Run(r, d)
}

func p02Run(r *pbt.R, c p02Case) error {
	r.NonTrivialIf(len(c.Entries) > 1)
	want := ref.AppendKVs(append([]byte(nil), c.Prefix...), c.Entries)
	buf := make([]byte, len(want)+c.Extra)
	copy(buf, c.Prefix)
	w := encoding.NewKVWriter(buf, len(c.Prefix))
	for i, kv := range c.Entries {
		r.Label(fmt.Sprintf("type %d", kv.V.T))
		r.NonTrivialIf(len(kv.V.Bytes) > 239 || kv.V.Int >= 240 || kv.V.T == ref.TIPv4 || kv.V.T == ref.TIPv6)
		r.LabelIf(len(kv.V.Bytes) >= 2288, "long value")
		if err := writeKV(w, kv); err != nil {
			return fmt.Errorf("entry %d does not fit a buffer made for it: %w", i, err)
		}
	}
	if w.Off() != len(want) {
		return fmt.Errorf("Off %d, want %d", w.Off(), len(want))
	}
	if !bytes.Equal(w.Bytes(), want) {
		return fmt.Errorf("encoded as %s, want %s", trunc(ref.Str(w.Bytes())), trunc(ref.Str(want)))
	}

	in := append([]byte(nil), w.Bytes()[len(c.Prefix):]...)
	count := len(c.Entries)
	if c.All {
		count = -1
	}
	s := encoding.NewKVScanner(in, count)
	e := &encoding.KVEntry{}
	for i, kv := range c.Entries {
		if !s.Next(e) {
			return fmt.Errorf("scan ends at entry %d of %d: %v", i, len(c.Entries), s.Error())
		}
		if err := entryIs(e, kv); err != nil {
			return fmt.Errorf("entry %d: %w", i, err)
		}
	}
	for i := 0; i < 3; i++ {
		if s.Next(e) {
			return fmt.Errorf("an entry after the last one: %s", trunc(ref.Str(e.NameBytes())))
		}
		if s.Error() != nil {
			return fmt.Errorf("error at the end: %w", s.Error())
		}
	}
	if s.RemainingBuf() != 0 {
		return fmt.Errorf("%d bytes remain after the last entry", s.RemainingBuf())
	}
	return nil
}

// p03Op is an entry, or an invalid address (Bad).
type p03Op struct {
	Bad bool `json:",omitempty"`
	KV  ref.KV
}

type p03Case struct {
	Off   int
	Sizes []int // of the buffer; nil: every size that matters
	Ops   []p03Op
}

func init() {
	pbt.Register(&pbt.Property{
		ID: "P03",
		Rule: "1-6 writes (all types, and the invalid address) against a buffer of every size from the start offset up to what all of them need (all sizes when that is at most 120 bytes, else sizes around the end of every entry and random ones), with guard bytes before and after it; a model knows which calls fit. " +
			"Non-trivial: at least one call fails for lack of space after one that succeeded.",
		Parts: []*pbt.Part{
			pbt.NewPart("exhaust", 80000, func(t *rapid.T) p03Case {
				c := p03Case{Off: pick(t, "off", 0, 0, 1, 7)}
				max := 20
				if chance(t, "long", 20) {
					max = 2400
				}
				total := c.Off
				ends := []int{}
				for n := rapid.IntRange(1, 6).Draw(t, "nops"); n > 0; n-- {
					op := p03Op{Bad: chance(t, "bad", 5), KV: genKV(t, max)}
					c.Ops = append(c.Ops, op)
					if !op.Bad {
						total += len(ref.AppendKV(nil, op.KV))
						ends = append(ends, total)
					}
				}
				if total > 120 {
					for i := 0; i < 20; i++ {
						c.Sizes = append(c.Sizes, rapid.IntRange(c.Off, total).Draw(t, "size"))
					}
					for _, e := range ends {
						c.Sizes = append(c.Sizes, e, e-1)
					}
				}
				return c
			}, p03Run),
		},
	})
}

func p03Run(r *pbt.R, c p03Case) error {
	sizes := c.Sizes
	if sizes == nil {
		total := c.Off
		for _, op := range c.Ops {
			total += len(ref.AppendKV(nil, op.KV))
		}
		for n := c.Off; n <= total; n++ {
			sizes = append(sizes, n)
		}
	}
	r.Count("buffer sizes tried", len(sizes))
	for _, size := range sizes {
		if size < c.Off {
			continue
		}
		if err := p03One(r, c, size); err != nil {
			return fmt.Errorf("buffer of %d bytes: %w", size, err)
		}
	}
	return nil
}

func p03One(r *pbt.R, c p03Case, size int) error {
	buf, intact := canaryBuf(size)
	want := append([]byte(nil), buf[:c.Off]...)
	w := encoding.NewKVWriter(buf, c.Off)
	var kept []ref.KV
	for i, op := range c.Ops {
		var err error
		fits := false
		if op.Bad {
			err = w.SetAddr(string(op.KV.Name), netip.Addr{})
		} else {
			next := ref.AppendKV(append([]byte(nil), want...), op.KV)
			fits = len(next) <= size
			err = writeKV(w, op.KV)
			if fits {
				want = next
				kept = append(kept, op.KV)
			}
		}
		if ierr := intact(); ierr != nil {
			return fmt.Errorf("call %d (%s): %w", i, trunc(op), ierr)
		}
		if fits && err != nil {
			return fmt.Errorf("call %d (%s) fails although it fits: %w", i, trunc(op), err)
		}
		if !fits && err == nil {
			return fmt.Errorf("call %d (%s) succeeds although it does not fit", i, trunc(op))
		}
		if !fits && !op.Bad {
			r.NonTrivialIf(len(kept) > 0)
			r.Count("calls without space", 1)
		}
		if w.Off() != len(want) || !bytes.Equal(w.Bytes(), want) {
			return fmt.Errorf("after call %d (%s, error %v) the writer holds %s, want %s", i, trunc(op), err, trunc(ref.Str(w.Bytes())), trunc(ref.Str(want)))
		}
	}
	got, err := ref.KVs(w.Bytes()[c.Off:])
	if err != nil || len(got) != len(kept) {
		return fmt.Errorf("the result does not decode to the %d entries that fit: %d, %v", len(kept), len(got), err)
	}
	return nil
}
