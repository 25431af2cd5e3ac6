package checks

import (
	"bytes"
	"fmt"
	"net/netip"
	"regexp"
	"strconv"
	"strings"

	"github.com/dropmorepackets/haproxy-go/peers"
	"github.com/dropmorepackets/haproxy-go/peers/sticktable"
	"pgregory.net/rapid"

	"verif/harness/pbt"
	"verif/harness/ref"
)

type p31Case struct {
	Table ref.Table
	U     ref.Update
	V     ref.Update // another entry of the table, with the same kind of message
}

type p31Number struct {
	Enum int
	A, B int
}

func init() {
	pbt.Register(&pbt.Property{
		ID: "P31",
		Rule: "updates: two entries of a random table (all key types, 0-24 data types, every kind of value over its whole range), decoded from their encoding, the second drawn freely or from the first with one component changed a little; each key, value and update printed twice, texts compared with what they say and with each other. constants: pairs of numbers as each of the public enumerations. " +
			"Non-trivial: the two entries differ, and there is at least one value.",
		Parts: []*pbt.Part{
			pbt.NewPart("updates", 100000, func(t *rapid.T) p31Case {
				c := p31Case{Table: genTable(t, rapid.SampledFrom([]int{3, 24}).Draw(t, "maxtypes"))}
				max := 60
				if chance(t, "long", 3) {
					max = 3000
				}
				c.U = padded(c.Table, genUpdate(t, c.Table, max))
				c.V = padded(c.Table, genUpdate(t, c.Table, max))
				c.V.Inc, c.V.Timed = c.U.Inc, c.U.Timed
				c.V.ID = 0
				if !c.U.Inc {
					c.V.ID = genU32(t, "otherid")
				}
				c.V.Expiry = c.U.Expiry
				what := rapid.IntRange(-4, len(c.U.Data)).Draw(t, "what")
				if what < -1 {
					return c
				}
				w := c.U
				w.Key = append(ref.Str(nil), c.U.Key...)
				w.Data = append([]ref.Datum(nil), c.U.Data...)
				switch {
				case what == -1:
					w.ID = c.V.ID
				case what == len(c.U.Data):
					switch n := len(w.Key); {
					case n > 0 && rapid.Bool().Draw(t, "keybit"):
						w.Key[rapid.IntRange(0, n-1).Draw(t, "keybyte")] ^= 1 << rapid.IntRange(0, 7).Draw(t, "bit")
					case c.Table.KeyType == ref.KString && n > 0 && rapid.Bool().Draw(t, "cut"):
						w.Key = w.Key[:n-1]
					case c.Table.KeyType == ref.KString:
						w.Key = append(w.Key, rapid.SampledFrom([]byte{0, ' ', '\n', 'x', 0xff}).Draw(t, "added"))
					default:
						w.Key = c.V.Key
					}
				default:
					d := &w.Data[what]
					bit := uint64(1) << rapid.IntRange(0, 63).Draw(t, "valuebit")
					switch ref.DataKind[c.Table.Types[what].T] {
					case ref.DSint:
						d.Int = uint64(int64(int32(d.Int) ^ int32(bit>>32|bit)))
					case ref.DUint:
						d.Int = uint64(uint32(d.Int) ^ uint32(bit>>32|bit))
					case ref.DULL:
						d.Int ^= bit
					case ref.DFreq:
						d.Freq[rapid.IntRange(0, 2).Draw(t, "freqpart")] ^= bit
					case ref.DDict:
						if n := len(d.Bytes); d.ID > 0 && n > 0 && rapid.Bool().Draw(t, "dictbyte") {
							d.Bytes = append(ref.Str(nil), d.Bytes...)
							d.Bytes[rapid.IntRange(0, n-1).Draw(t, "dictpos")] ^= byte(bit>>56|bit>>48|bit>>40|bit>>32|bit>>24|bit>>16|bit>>8) | 1
						} else if d.ID > 0 && rapid.Bool().Draw(t, "dictcut") {
							d.Bytes = nil
						} else {
							d.ID = max1(d.ID ^ bit)
						}
					}
				}
				c.V = w
				return c
			}, p31Run),
			pbt.NewPart("constants", 20000, func(t *rapid.T) p31Number {
				g := rapid.OneOf(rapid.IntRange(-2, 260), rapid.Int())
				c := p31Number{Enum: rapid.IntRange(0, 6).Draw(t, "enum"), A: g.Draw(t, "a"), B: g.Draw(t, "b")}
				if c.Enum < 4 {
					c.A, c.B = c.A&255, c.B&255
				}
				return c
			}, p31RunNumber),
		},
	})
}

var digits = regexp.MustCompile(`[0-9]+`)

// p31Decode decodes an entry and prints all of it.
func p31Decode(d ref.Table, u ref.Update) (key string, data []string, all string, err error) {
	def := libTable(d)
	e := &sticktable.EntryUpdate{StickTable: def, WithLocalUpdateID: !u.Inc, WithExpiry: u.Timed}
	if _, err := e.Unmarshal(ref.AppendUpdate(nil, d, u)); err != nil {
		return "", nil, "", fmt.Errorf("Unmarshal of %s: %w", trunc(u), err)
	}
	if len(e.Data) != len(d.Types) {
		return "", nil, "", fmt.Errorf("Unmarshal of %s: %d values", trunc(u), len(e.Data))
	}

	all = e.String()
	key = e.Key.String()
	for i, v := range e.Data {
		data = append(data, v.String())
		if name := def.DataTypes[i].DataType.String(); name != ref.DataName[d.Types[i].T] {
			return "", nil, "", fmt.Errorf("data type %d is called %q", d.Types[i].T, name)
		}
	}

	if again := e.String(); again != all || e.Key.String() != key {
		return "", nil, "", fmt.Errorf("%s printed as %q, then as %q", trunc(u), all, again)
	}
	for i, v := range e.Data {
		if again := v.String(); again != data[i] {
			return "", nil, "", fmt.Errorf("value %d of %s printed as %q, then as %q", i, trunc(u), data[i], again)
		}
	}
	after, err := refUpdate(d, e)
	if err != nil || !sameUpdate(after, u) || !sameTable(refTable(def), d) {
		return "", nil, "", fmt.Errorf("printing %s changed it to %s (%v)", trunc(u), trunc(after), err)
	}
	return key, data, all, nil
}

// p31Key compares a key's text with the key.
func p31Key(d ref.Table, u ref.Update, text string) error {
	ok := true
	switch d.KeyType {
	case ref.KInt:
		var v uint32
		for _, b := range u.Key {
			v = v<<8 | uint32(b)
		}
		ok = text == strconv.Itoa(int(int32(v)))
	case ref.KIPv4, ref.KIPv6:
		a, err := netip.ParseAddr(text)
		ok = err == nil && bytes.Equal(a.AsSlice(), u.Key)
	case ref.KString:
		ok = text == string(u.Key)
	}
	if !ok {
		return fmt.Errorf("key %x of a table with key type %d prints as %q", []byte(u.Key), d.KeyType, text)
	}
	return nil
}

// p31Datum compares a value's text with the value.
func p31Datum(kind int, d ref.Datum, text string) error {
	ok := true
	switch kind {
	case ref.DSint:
		ok = text == strconv.FormatInt(int64(d.Int), 10)
	case ref.DUint, ref.DULL:
		ok = text == strconv.FormatUint(d.Int, 10)
	case ref.DFreq:
		n := digits.FindAllString(text, -1)
		ok = len(n) == 3
		for i := range n {
			ok = ok && n[i] == strconv.FormatUint(d.Freq[i], 10)
		}
	case ref.DDict:
		if d.ID > 0 {
			ok = digits.FindString(text) == strconv.FormatUint(d.ID, 10)
		}
	}
	if !ok {
		return fmt.Errorf("value %s of kind %d prints as %q", trunc(d), kind, text)
	}
	return nil
}

func p31Run(r *pbt.R, c p31Case) error {
	r.Label(fmt.Sprintf("key type %d", c.Table.KeyType))
	type printed struct {
		key  string
		data []string
		all  string
	}
	var p [2]printed
	for i, u := range []ref.Update{c.U, c.V} {
		var err error
		if p[i].key, p[i].data, p[i].all, err = p31Decode(c.Table, u); err != nil {
			return err
		}
		if err := p31Key(c.Table, u, p[i].key); err != nil {
			return err
		}
		parts := []string{p[i].key}
		if !u.Inc {
			parts = []string{strconv.FormatUint(uint64(u.ID), 10), p[i].key}
		}
		for j, typ := range c.Table.Types {
			if err := p31Datum(ref.DataKind[typ.T], u.Data[j], p[i].data[j]); err != nil {
				return err
			}
			parts = append(parts, ref.DataName[typ.T], p[i].data[j])
		}
		rest := p[i].all
		for _, part := range parts {
			at := strings.Index(rest, part)
			if at < 0 {
				return fmt.Errorf("%s prints as %q: %q is not where it should be", trunc(u), p[i].all, part)
			}
			rest = rest[at+len(part):]
		}
	}

	// what is different prints differently, what is the same prints the same
	differ := 0
	tell := func(what string, same, sameText bool, a, b string) error {
		if !same {
			differ++
		}
		if same != sameText {
			return fmt.Errorf("%s of %s and %s: same %v, printed as %q and %q", what, trunc(c.U), trunc(c.V), same, a, b)
		}
		return nil
	}
	if err := tell("keys", bytes.Equal(c.U.Key, c.V.Key), p[0].key == p[1].key, p[0].key, p[1].key); err != nil {
		return err
	}
	for i := range c.U.Data {
		if err := tell(fmt.Sprintf("values %d", i), sameDatum(c.U.Data[i], c.V.Data[i]), p[0].data[i] == p[1].data[i], p[0].data[i], p[1].data[i]); err != nil {
			return err
		}
	}
	if c.U.ID != c.V.ID {
		differ++
	}
	// Texts of string keys may contain anything, so the whole is only
	// unambiguous if one component differs.
	if differ < 2 {
		if err := tell("entries", differ == 0, p[0].all == p[1].all, p[0].all, p[1].all); err != nil {
			return err
		}
	}
	r.NonTrivialIf(differ > 0 && len(c.U.Data) > 0)
	r.LabelIf(differ == 1, "one component differs")
	r.LabelIf(differ == 0, "equal")
	return nil
}

func p31RunNumber(r *pbt.R, c p31Number) error {
	print := []func(int) string{
		func(i int) string { return peers.MessageClass(i).String() },
		func(i int) string { return peers.ControlMessageType(i).String() },
		func(i int) string { return peers.ErrorMessageType(i).String() },
		func(i int) string { return peers.StickTableUpdateMessageType(i).String() },
		func(i int) string { return peers.HandshakeStatus(i).String() },
		func(i int) string { return sticktable.KeyType(i).String() },
		func(i int) string { return sticktable.DataType(i).String() },
	}[c.Enum]
	r.NonTrivialIf(c.A != c.B)
	a, b := print(c.A), print(c.B)
	if a == "" || b == "" || (a == b) != (c.A == c.B) {
		return fmt.Errorf("numbers %d and %d of enumeration %d print as %q and %q", c.A, c.B, c.Enum, a, b)
	}
	return nil
}
