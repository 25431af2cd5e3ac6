package checks

import (
	"bytes"
	"fmt"

	"github.com/dropmorepackets/haproxy-go/peers/sticktable"
	"pgregory.net/rapid"

	"verif/harness/pbt"
	"verif/harness/ref"
)

type p16Case struct {
	Table  ref.Table
	Extra  int     // spare bytes in the destination
	Suffix ref.Str // after the encoding
}

// p16Raw is a definition or entry with array data, see known_findings.txt.
type p16Raw struct {
	Table *ref.Table // nil: In is a definition
	In    ref.Str
	Want  int // bytes it consists of
}

func init() {
	pbt.Register(&pbt.Property{
		ID: "P16",
		Rule: "definitions: any id, name up to 70000 bytes, expiry, key type 0-8 with any key length, any ascending set of the non-array data types with rate parameters; marshalled with and without spare room and guard bytes, compared with the reference encoding, unmarshalled with other bytes following. unknown: definitions naming a data type from 27 to 63. names: every data type's printed name. " +
			"Non-trivial: at least one rate, or two data types, or a name over 239 bytes.",
		Parts: []*pbt.Part{
			pbt.NewPart("definitions", 150000, func(t *rapid.T) p16Case {
				c := p16Case{Table: genTable(t, 24), Extra: rapid.IntRange(0, 20).Draw(t, "extra"), Suffix: genBytes(t, "suffix", rapid.IntRange(0, 5).Draw(t, "nsuffix"))}
				if chance(t, "long name", 5) {
					c.Table.Name = genStr(t, "name", 70000)
				}
				if chance(t, "otherkey", 30) {
					c.Table.KeyType = rapid.IntRange(0, 8).Draw(t, "anykeytype")
					c.Table.KeyLen = genU64(t, "anykeylen")
				}
				return c
			}, p16Run),
			pbt.NewPart("unknown", 4000, func(t *rapid.T) p16Case {
				c := p16Case{Table: genTable(t, 6)}
				c.Extra = rapid.IntRange(ref.NDataTypes, 63).Draw(t, "unknown")
				c.Suffix = genBytes(t, "suffix", rapid.IntRange(0, 20).Draw(t, "nsuffix"))
				return c
			}, p16RunUnknown),
			pbt.NewPart("names", 100, func(t *rapid.T) int { return rapid.IntRange(0, ref.NDataTypes-1).Draw(t, "type") }, func(r *pbt.R, i int) error {
				for i := range ref.DataName {
					if got := sticktable.DataType(i).String(); got != ref.DataName[i] {
						return fmt.Errorf("data type %d prints as %q, want %q", i, got, ref.DataName[i])
					}
				}
				return nil
			}),
			pbt.NewPart("arrays", -1, func(t *rapid.T) p16Raw { return p16Raw{} }, p16RunRaw),
		},
	})
}

func p16Run(r *pbt.R, c p16Case) error {
	freq := 0
	for _, t := range c.Table.Types {
		if ref.DataKind[t.T] == ref.DFreq {
			freq++
		}
	}
	r.NonTrivialIf(freq > 0 || len(c.Table.Types) > 1 || len(c.Table.Name) > 239)
	r.LabelIf(freq > 0, "rates")

	want := ref.AppendTable(nil, c.Table)
	def := libTable(c.Table)
	buf, intact := canaryBuf(len(want) + c.Extra)
	n, err := def.Marshal(buf)
	if ierr := intact(); ierr != nil {
		return ierr
	}
	if err != nil || n != len(want) || !bytes.Equal(buf[:n], want) {
		return fmt.Errorf("Marshal of %s: %d, %v, %x; want %x", trunc(c.Table), n, err, buf[:min(max(n, 0), len(buf))], want)
	}
	if !sameTable(refTable(def), c.Table) {
		return fmt.Errorf("Marshal changed %s to %s", trunc(c.Table), trunc(refTable(def)))
	}

	in := append(append([]byte(nil), want...), c.Suffix...)
	var got sticktable.Definition
	n, err = got.Unmarshal(in)
	if err != nil || n != len(want) {
		return fmt.Errorf("Unmarshal of %s: %d, %v; want %d bytes", trunc(c.Table), n, err, len(want))
	}
	for i := range in {
		in[i] ^= 0xff
	}
	if !sameTable(refTable(&got), c.Table) {
		return fmt.Errorf("Unmarshal yields %s, want %s", trunc(refTable(&got)), trunc(c.Table))
	}
	return nil
}

func p16RunUnknown(r *pbt.R, c p16Case) error {
	r.NonTrivial()
	t := c.Table
	b := ref.AppendVarint(nil, t.ID)
	b = ref.AppendString(b, t.Name)
	b = ref.AppendVarint(b, uint64(t.KeyType))
	b = ref.AppendVarint(b, t.KeyLen)
	bits := uint64(1) << c.Extra
	for _, d := range t.Types {
		bits |= 1 << d.T
	}
	b = ref.AppendVarint(b, bits)
	b = ref.AppendVarint(b, t.Expiry)
	for _, d := range t.Types {
		if ref.DataKind[d.T] == ref.DFreq {
			b = ref.AppendVarint(b, d.A)
			b = ref.AppendVarint(b, d.Period)
		}
	}
	b = append(b, c.Suffix...)
	var got sticktable.Definition
	if _, err := got.Unmarshal(b); err == nil {
		return fmt.Errorf("a definition with data type %d is accepted: %s", c.Extra, trunc(refTable(&got)))
	}
	return nil
}

func p16RunRaw(r *pbt.R, c p16Raw) error {
	if c.Table == nil {
		var got sticktable.Definition
		n, err := got.Unmarshal(c.In)
		if err != nil || n != c.Want {
			return fmt.Errorf("Unmarshal: %d, %v; want %d bytes", n, err, c.Want)
		}
		return nil
	}
	e := &sticktable.EntryUpdate{StickTable: libTable(*c.Table), WithLocalUpdateID: true}
	n, err := e.Unmarshal(c.In)
	if err != nil || n != c.Want {
		return fmt.Errorf("Unmarshal: %d, %v; want %d bytes", n, err, c.Want)
	}
	return nil
}
