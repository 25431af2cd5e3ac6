package checks

import (
	"bytes"
	"fmt"
	"slices"

	"github.com/dropmorepackets/haproxy-go/peers/sticktable"
	"pgregory.net/rapid"

	"verif/harness/pbt"
	"verif/harness/ref"
)

type p17Case struct {
	Table  ref.Table
	U      ref.Update
	Extra  int
	Suffix ref.Str
	Preset uint32 // id the caller sets before decoding an incremental update
}

func init() {
	pbt.Register(&pbt.Property{
		ID: "P17",
		Rule: "an entry of a random table (all key types; string keys up to 70000 bytes; binary keys up to the key length, which goes to 70000; 0-24 data types), with or without update id and expiry, every kind of value over its whole range, dictionary values absent, cached and spelled out up to 5000 bytes; marshalled with and without spare room and guard bytes, compared with the reference encoding, unmarshalled with other bytes following; a part with keys and dictionary values up to 34 MB. " +
			"Non-trivial: at least two values, or a dictionary value, or a padded key.",
		Parts: []*pbt.Part{
			pbt.NewPart("entries", 150000, func(t *rapid.T) p17Case {
				c := p17Case{Table: genTable(t, 24), Extra: rapid.IntRange(0, 20).Draw(t, "extra"), Suffix: genBytes(t, "suffix", rapid.IntRange(0, 5).Draw(t, "nsuffix"))}
				if c.Table.KeyType == ref.KBinary && chance(t, "long key", 10) {
					c.Table.KeyLen = uint64(genLen(t, "long", 70000))
				}
				max := 300
				if chance(t, "long", 3) {
					max = 5000
				}
				c.U = genUpdate(t, c.Table, max)
				if c.Table.KeyType == ref.KString && chance(t, "exact", 2) {
					n := genLen(t, "length", 70000)
					tail := genBytes(t, "tail", min(n, 4))
					c.U.Key = append(bytes.Repeat([]byte{rapid.Byte().Draw(t, "fill")}, n-len(tail)), tail...)
				}
				c.Preset = genU32(t, "preset")
				return c
			}, p17Run),
			pbt.NewPart("large", 50, func(t *rapid.T) p17Large {
				c := p17Large{Case: p17Case{Table: genTable(t, 4), Extra: rapid.IntRange(0, 20).Draw(t, "extra"), Suffix: genBytes(t, "suffix", rapid.IntRange(0, 5).Draw(t, "nsuffix"))}}
				c.Key, c.Dict, c.Short = genLarge(t, &c.Case.Table)
				c.Case.U = genUpdate(t, c.Case.Table, 20)
				return c
			}, func(r *pbt.R, c p17Large) error {
				enlarge(&c.Case.Table, &c.Case.U, c.Key, c.Dict, c.Short)
				return p17Run(r, c.Case)
			}),
			pbt.NewPart("arrays", -1, func(t *rapid.T) p16Raw { return p16Raw{} }, p16RunRaw),
		},
	})
}

// p17Large is a case whose key and dictionary value get another length.
type p17Large struct {
	Case      p17Case
	Key, Dict int
	Short     int
}

// genLarge draws lengths for a key and a dictionary value, and changes d such
// that it has what they are for. A binary key is so much shorter than the
// table says.
func genLarge(t *rapid.T, d *ref.Table) (key, dict, short int) {
	if chance(t, "large dictionary value", 50) {
		dict = genBig(t, "dict")
		if i := slices.IndexFunc(d.Types, func(typ ref.TableType) bool { return typ.T >= 19 }); i < 0 {
			d.Types = append(d.Types, ref.TableType{T: 19})
		} else if d.Types[i].T > 19 {
			d.Types = slices.Insert(d.Types, i, ref.TableType{T: 19})
		}
	}
	if dict == 0 || chance(t, "large key", 30) {
		key = genBig(t, "key")
		d.KeyType, d.KeyLen = ref.KString, 32
		if chance(t, "binary", 40) {
			d.KeyType, d.KeyLen = ref.KBinary, 4
			short = pick(t, "shorter", 0, 0, 1, 100, key)
		}
	}
	return key, dict, min(short, key)
}

func enlarge(d *ref.Table, u *ref.Update, key, dict, short int) {
	if key > 0 {
		u.Key = fill(key - short)
		if d.KeyType == ref.KBinary {
			d.KeyLen = uint64(key)
		}
	}
	for i, typ := range d.Types {
		if dict > 0 && ref.DataKind[typ.T] == ref.DDict {
			u.Data[i].ID = max(1, u.Data[i].ID)
			u.Data[i].Bytes = fill(dict)
		}
	}
}

func p17Run(r *pbt.R, c p17Case) error {
	r.NonTrivialIf(len(c.U.Data) > 1)
	for i, d := range c.Table.Types {
		if ref.DataKind[d.T] == ref.DDict {
			r.NonTrivial()
			switch v := c.U.Data[i]; {
			case v.ID == 0:
				r.Label("dictionary value absent")
			case len(v.Bytes) == 0:
				r.Label("dictionary value cached")
			default:
				r.Label("dictionary value spelled out")
			}
		}
	}
	r.Label(fmt.Sprintf("key type %d", c.Table.KeyType))
	short := c.Table.KeyType == ref.KBinary && len(c.U.Key) < int(c.Table.KeyLen)
	r.NonTrivialIf(short)
	r.LabelIf(short, "padded key")

	want := ref.AppendUpdate(nil, c.Table, c.U)
	def := libTable(c.Table)
	e := libUpdate(c.Table, def, c.U)
	buf, intact := canaryBuf(len(want) + c.Extra)
	n, err := e.Marshal(buf)
	if ierr := intact(); ierr != nil {
		return ierr
	}
	if err != nil || n != len(want) || !bytes.Equal(buf[:n], want) {
		return fmt.Errorf("Marshal of %s: %d, %v, %x; want %x", trunc(c.U), n, err, buf[:min(max(n, 0), len(buf))], want)
	}
	after, err := refUpdate(c.Table, e)
	if err != nil || !sameUpdate(after, c.U) || e.StickTable != def || !sameTable(refTable(def), c.Table) {
		return fmt.Errorf("Marshal changed %s to %s (%v)", trunc(c.U), trunc(after), err)
	}

	in := append(append([]byte(nil), want...), c.Suffix...)
	got := &sticktable.EntryUpdate{StickTable: def, WithLocalUpdateID: !c.U.Inc, WithExpiry: c.U.Timed}
	wanted := padded(c.Table, c.U)
	if c.U.Inc {
		got.LocalUpdateID = c.Preset
		wanted.ID = c.Preset
	}
	n, err = got.Unmarshal(in)
	if err != nil || n != len(want) {
		return fmt.Errorf("Unmarshal of %s: %d, %v; want %d bytes", trunc(c.U), n, err, len(want))
	}
	u, err := refUpdate(c.Table, got)
	if err != nil {
		return fmt.Errorf("Unmarshal of %s: %w", trunc(c.U), err)
	}
	if !sameUpdate(u, wanted) {
		return fmt.Errorf("Unmarshal yields %s, want %s", trunc(u), trunc(wanted))
	}
	if got.StickTable != def || !sameTable(refTable(def), c.Table) {
		return fmt.Errorf("Unmarshal changed the table to %s", trunc(refTable(def)))
	}
	_ = got.String()
	return nil
}
