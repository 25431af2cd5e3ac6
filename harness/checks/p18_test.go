package checks

import (
	"fmt"
	"runtime/metrics"

	"github.com/dropmorepackets/haproxy-go/peers/sticktable"
	"pgregory.net/rapid"

	"verif/harness/pbt"
	"verif/harness/ref"
)

type p18Case struct {
	Table ref.Table // of updates
	Inc   bool      `json:",omitempty"`
	Timed bool      `json:",omitempty"`
	Kind  int       `json:",omitempty"` // data type (data) or key type (key)
	Len   uint64    `json:",omitempty"` // key length (key)
	In    ref.Str
}

// genClaim makes lengths that could be believed, with consequences.
func genClaim(t *rapid.T) uint64 {
	switch rapid.IntRange(0, 5).Draw(t, "claim") {
	case 0, 1:
		return rapid.Uint64Range(1<<21, 1<<30).Draw(t, "big")
	case 2:
		return 1<<rapid.UintRange(30, 63).Draw(t, "bit") + rapid.Uint64Range(0, 4).Draw(t, "more") - 2
	case 3:
		return -rapid.Uint64Range(1, 300).Draw(t, "wrap")
	default:
		return genU64(t, "v")
	}
}

// mangle is mutate with believable length claims.
func mangle(t *rapid.T, b []byte) ref.Str {
	if chance(t, "claim", 40) && len(b) > 0 {
		i := rapid.IntRange(0, len(b)-1).Draw(t, "claimat")
		c := append([]byte(nil), b[:i]...)
		c = ref.AppendVarint(c, genClaim(t))
		return append(c, b[i+1:]...)
	}
	return mutate(t, b)
}

func init() {
	pbt.Register(&pbt.Property{
		ID: "P18",
		Rule: "definitions, updates, keys, data: random bytes, or a valid encoding with mutations or with a length replaced by a large claim (2 MB to 2^64), decoded for random tables whose key length may be any number and which may name unknown key types, array and unknown data types; compared with the reference decoder (what it leaves open is only checked for safety), with the heap allocated bounded by 100 times the input plus 1 MB. " +
			"Non-trivial: the reference finds the input malformed.",
		Parts: []*pbt.Part{
			pbt.NewPart("definitions", 60000, func(t *rapid.T) p18Case {
				if chance(t, "random", 10) {
					return p18Case{In: genBytes(t, "in", rapid.IntRange(0, 60).Draw(t, "nin"))}
				}
				return p18Case{In: mangle(t, ref.AppendTable(nil, genTable(t, 24)))}
			}, p18RunDefinition),
			pbt.NewPart("updates", 60000, func(t *rapid.T) p18Case {
				c := p18Case{Table: genTable(t, 8)}
				u := genUpdate(t, c.Table, 40)
				c.Inc, c.Timed = u.Inc, u.Timed
				if chance(t, "random", 10) {
					c.In = genBytes(t, "in", rapid.IntRange(0, 60).Draw(t, "nin"))
				} else {
					c.In = mangle(t, ref.AppendUpdate(nil, c.Table, u))
				}
				switch rapid.IntRange(0, 9).Draw(t, "odd") {
				case 9:
					c.Table.Types = append(c.Table.Types, ref.TableType{T: rapid.IntRange(ref.NDataTypes, 70).Draw(t, "unknown")})
				case 6:
					c.Table.KeyLen = genClaim(t)
				case 7:
					c.Table.KeyType = pick(t, "badkey", 0, 1, 3, 8, 9, 77, -1)
				case 8: // array data types: safety only
					c.Table.Types = append(c.Table.Types, ref.TableType{T: pick(t, "array", 22, 23, 24)})
				}
				return c
			}, p18RunUpdate),
			pbt.NewPart("keys", 40000, func(t *rapid.T) p18Case {
				d := genTable(t, 0)
				c := p18Case{Kind: d.KeyType, Len: d.KeyLen, In: mangle(t, ref.AppendKey(nil, d, genKey(t, d, 40)))}
				if chance(t, "badlen", 20) {
					c.Len = genClaim(t)
				}
				return c
			}, p18RunKey),
			pbt.NewPart("data", 60000, func(t *rapid.T) p18Case {
				typ := pick(t, "type", rapid.IntRange(0, ref.NDataTypes-1).Draw(t, "anytype"), 19)
				c := p18Case{Kind: typ}
				if kind := ref.DataKind[typ]; kind == ref.DArray {
					c.In = genBytes(t, "in", rapid.IntRange(0, 20).Draw(t, "nin"))
				} else {
					c.In = mangle(t, ref.AppendDatum(nil, kind, genDatum(t, kind, 40)))
				}
				return c
			}, p18RunData),
		},
	})
}

// frugal runs decode, which returns how much it consumed, and checks what it
// claims and allocates.
func frugal(in []byte, decode func(b []byte) (int, error)) (n int, err error, bad error) {
	b := append([]byte(nil), in...)
	b = b[:len(b):len(b)]
	s := []metrics.Sample{{Name: "/gc/heap/allocs:bytes"}}
	metrics.Read(s)
	before := s[0].Value.Uint64()
	n, err = decode(b)
	metrics.Read(s)
	if d := s[0].Value.Uint64() - before; d > uint64(1<<20+100*len(in)) {
		return n, err, fmt.Errorf("%d bytes allocated to decode %d: %x", d, len(in), in)
	}
	if n < 0 || n > len(in) {
		return n, err, fmt.Errorf("%d bytes reported as consumed of %d (error %v): %x", n, len(in), err, in)
	}
	return n, err, nil
}

// agree compares the outcome with the reference's. It returns whether there is
// a result to compare.
func agree(r *pbt.R, c *ref.Cursor, n int, err error) (bool, error) {
	r.NonTrivialIf(c.Err != nil)
	switch c.Err {
	case nil:
		r.Label("valid")
		if err != nil {
			return false, fmt.Errorf("error for valid data: %w: %x", err, c.B)
		}
		if n != c.Off {
			return false, fmt.Errorf("%d bytes consumed, want %d: %x", n, c.Off, c.B)
		}
		return true, nil
	case ref.ErrUnspecified:
		r.Label("left open")
		return false, nil
	default:
		r.LabelIf(c.Err == ref.ErrShort, "too short")
		r.LabelIf(c.Err == ref.ErrInvalid, "unknown type")
		if err == nil {
			return false, fmt.Errorf("no error (%d bytes consumed) for malformed data (%v): %x", n, c.Err, c.B)
		}
		return false, nil
	}
}

func p18RunDefinition(r *pbt.R, c p18Case) error {
	var d sticktable.Definition
	n, err, bad := frugal(c.In, d.Unmarshal)
	if bad != nil {
		return bad
	}
	cur := &ref.Cursor{B: c.In}
	want := cur.Table()
	ok, aerr := agree(r, cur, n, err)
	if ok && !sameTable(refTable(&d), want) {
		return fmt.Errorf("decoded as %s, want %s: %x", trunc(refTable(&d)), trunc(want), []byte(c.In))
	}
	return aerr
}

func p18RunUpdate(r *pbt.R, c p18Case) error {
	def := libTable(c.Table)
	e := &sticktable.EntryUpdate{StickTable: def, WithLocalUpdateID: !c.Inc, WithExpiry: c.Timed}
	n, err, bad := frugal(c.In, e.Unmarshal)
	if bad != nil {
		return bad
	}
	cur := &ref.Cursor{B: c.In}
	want := cur.Update(c.Table, c.Inc, c.Timed)
	ok, aerr := agree(r, cur, n, err)
	if ok {
		got, err := refUpdate(c.Table, e)
		if err != nil {
			return err
		}
		if !sameUpdate(got, want) {
			return fmt.Errorf("decoded as %s, want %s: %x", trunc(got), trunc(want), []byte(c.In))
		}
		_ = e.String()
	}
	return aerr
}

func p18RunKey(r *pbt.R, c p18Case) error {
	t := ref.Table{KeyType: c.Kind, KeyLen: c.Len}
	k := sticktable.KeyType(c.Kind).New()
	n, err, bad := frugal(c.In, func(b []byte) (int, error) { return k.Unmarshal(b, c.Len) })
	if bad != nil {
		return bad
	}
	cur := &ref.Cursor{B: c.In}
	want := cur.Update(t, true, false).Key
	ok, aerr := agree(r, cur, n, err)
	if ok {
		got, err := refKey(t, k)
		if err != nil {
			return err
		}
		if string(got) != string(want) {
			return fmt.Errorf("decoded as %x, want %x: %x", []byte(got), []byte(want), []byte(c.In))
		}
		_ = k.String()
	}
	return aerr
}

func p18RunData(r *pbt.R, c p18Case) error {
	d := sticktable.DataType(c.Kind).New()
	n, err, bad := frugal(c.In, d.Unmarshal)
	if bad != nil {
		return bad
	}
	cur := &ref.Cursor{B: c.In}
	want := cur.Datum(ref.DataKind[c.Kind])
	ok, aerr := agree(r, cur, n, err)
	if ok {
		got, err := refDatum(ref.DataKind[c.Kind], d)
		if err != nil {
			return err
		}
		if !sameDatum(got, want) {
			return fmt.Errorf("decoded as %+v, want %+v: %x", got, want, []byte(c.In))
		}
		_ = d.String()
	}
	return aerr
}
