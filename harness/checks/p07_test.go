package checks

import (
	"bytes"
	"fmt"
	"net"
	"net/netip"
	"reflect"
	"strconv"

	"github.com/dropmorepackets/haproxy-go/pkg/encoding"
	"pgregory.net/rapid"

	"verif/harness/pbt"
	"verif/harness/ref"
)

// Kinds of fields.
const (
	fString = iota
	fBytes
	fInt32
	fInt64
	fUint32
	fUint64
	fBool
	fAddr
	nFieldKinds
)

var fieldTypes = []reflect.Type{
	reflect.TypeFor[string](), reflect.TypeFor[[]byte](), reflect.TypeFor[int32](), reflect.TypeFor[int64](),
	reflect.TypeFor[uint32](), reflect.TypeFor[uint64](), reflect.TypeFor[bool](), reflect.TypeFor[netip.Addr](),
}

// Types of the user's own with the same underlying types, as far as there are
// any.
type (
	p07String string
	p07Bytes  []byte
	p07Int32  int32
	p07Int64  int64
	p07Uint32 uint32
	p07Uint64 uint64
	p07Bool   bool
)

var namedTypes = []reflect.Type{
	reflect.TypeFor[p07String](), reflect.TypeFor[p07Bytes](), reflect.TypeFor[p07Int32](), reflect.TypeFor[p07Int64](),
	reflect.TypeFor[p07Uint32](), reflect.TypeFor[p07Uint64](), reflect.TypeFor[p07Bool](), reflect.TypeFor[netip.Addr](),
}

// oddTypes are those that are not supported.
var oddTypes = []reflect.Type{
	reflect.TypeFor[int](), reflect.TypeFor[int8](), reflect.TypeFor[uint16](), reflect.TypeFor[float64](), reflect.TypeFor[[]string](),
	reflect.TypeFor[[]int32](), reflect.TypeFor[[4]byte](), reflect.TypeFor[struct{ A string }](), reflect.TypeFor[map[string]string](),
	reflect.TypeFor[chan int](), reflect.TypeFor[func()](), reflect.TypeFor[net.IPNet](), reflect.TypeFor[complex128](), reflect.TypeFor[*string](),
}

// fieldTakes: the documented types of entries for each kind of field.
var fieldTakes = [][]int{
	{ref.TString}, {ref.TString, ref.TBinary}, {ref.TInt32}, {ref.TInt64}, {ref.TUInt32}, {ref.TUInt64}, {ref.TBool}, {ref.TIPv4, ref.TIPv6},
}

type p07Field struct {
	Key  string // "" for a field without a key
	Tag  string // the whole tag value; unused if NoTag
	Kind int
	Ptr  bool
	// Named: the field has a type of the user's own.
	Named bool `json:",omitempty"`
	// Init: the field holds a value before the first call.
	Init bool
}

func (f p07Field) typ() reflect.Type {
	if f.Named {
		return namedTypes[f.Kind]
	}
	return fieldTypes[f.Kind]
}

type p07Call struct {
	Entries []ref.KV
	// Cut is how many bytes are cut off the end of the encoding.
	Cut int `json:",omitempty"`
	// All scans to the end rather than a declared count.
	All bool
	// Rest follows the declared entries.
	Rest ref.Str `json:",omitempty"`
	// Skip is how many entries are read before.
	Skip int `json:",omitempty"`
	// Fresh starts from a new struct instead of reusing the last one.
	Fresh bool
}

type p07Case struct {
	Fields []p07Field
	Calls  []p07Call
}

var p07Keys = []string{"a", "b", "key", "status-code", "client.ip", "A", "-x"}

func init() {
	pbt.Register(&pbt.Property{
		ID: "P07",
		Rule: "structs made by reflection of 1-6 fields of all documented types, plain and pointer, some of named types, tagged with distinct keys (with and without options), untagged, without a key or tagged '-', preset or zero; 1-3 Unmarshal calls on the same or a new struct with 0-8 entries that mostly match a field's key and type, otherwise mismatch, are null, repeated, unknown, or cut short; a model of the documented mapping predicts each field, and the input is overwritten before comparing; sometimes entries are read before, or other bytes follow the declared ones; bytes and pointed-to values kept from earlier calls must not change. " +
			"A part with 12 to 300 fields, one with fields of types that are not supported, or that are not exported. Non-trivial: a successful call sets a pointer field, repeats a key, or reuses a struct with a pointer set earlier; or a call must fail.",
		Parts: []*pbt.Part{
			pbt.NewPart("mapping", 100000, func(t *rapid.T) p07Case { return p07Gen(t, p07Keys, 6, 8) }, p07Run),
			pbt.NewPart("wide", 400, func(t *rapid.T) p07Case {
				count := pick(t, "keys", 12, 31, 32, 33, 63, 64, 65, 66, 100, 130, 300)
				if n, ok := dictNum(t, "count", 8, 400); ok {
					count = int(n)
				}
				keys := make([]string, count)
				style := rapid.IntRange(0, 2).Draw(t, "style")
				for i := range keys {
					switch style {
					case 0:
						keys[i] = fmt.Sprintf("k%d", i)
					case 1:
						keys[i] = fmt.Sprintf("%d-a-long-key-with-the-same-end", i)
					default:
						keys[i] = string(letters('k', 1+i))
					}
				}
				return p07Gen(t, keys, len(keys), pick(t, "entries", 8, 60, 250))
			}, p07Run),
			pbt.NewPart("unsupported", 3000, func(t *rapid.T) p07Odd {
				return p07Odd{
					Type:   rapid.IntRange(0, len(oddTypes)-1).Draw(t, "type"),
					Ptr:    rapid.Bool().Draw(t, "ptr"),
					Hidden: chance(t, "hidden", 20),
					Before: genKVs(t, 3, 10),
					V:      genValue(t, "value", 20),
				}
			}, p07RunOdd),
			pbt.NewPart("target", 300, func(t *rapid.T) []ref.KV { return genKVs(t, 3, 10) }, p07RunTarget),
		},
	})
}

func p07Gen(t *rapid.T, all []string, fields, entries int) p07Case {
	var c p07Case
	keys := rapid.Permutation(all).Draw(t, "keys")
	n := rapid.IntRange(1, fields).Draw(t, "nfields")
	tagged := false // every field, and each has an entry
	if fields > len(p07Keys) && chance(t, "every key", 60) {
		n = fields
		tagged = chance(t, "tagged", 60)
	}
	for i := 0; i < n; i++ {
		f := p07Field{
			Key:  keys[i],
			Kind: rapid.IntRange(0, nFieldKinds-1).Draw(t, "kind"),
			Ptr:  rapid.Bool().Draw(t, "ptr"),
			Init: chance(t, "init", 40),
		}
		f.Named = chance(t, "named", 15)
		tag := rapid.IntRange(0, 10).Draw(t, "tag")
		if tagged {
			tag = min(tag, 7)
		}
		switch tag {
		case 6, 7:
			f.Tag = f.Key + ",omitempty"
		case 8:
			f.Key, f.Tag = "", "-"
		case 9:
			f.Key, f.Tag = "", ""
		case 10:
			f.Key, f.Tag = "", ",omitempty"
		default:
			f.Tag = f.Key
		}
		c.Fields = append(c.Fields, f)
	}
	longest := 300
	if chance(t, "long", 12) {
		longest = pick(t, "longest", 2400, 5000, 70000)
	}
	for n := rapid.IntRange(1, 3).Draw(t, "ncalls"); n > 0; n-- {
		call := p07Call{All: rapid.Bool().Draw(t, "all"), Fresh: chance(t, "fresh", 20)}
		m := rapid.IntRange(0, entries).Draw(t, "nentries")
		each := tagged && chance(t, "each", 60)
		if each {
			m = len(c.Fields)
		}
		for ; m > 0; m-- {
			f := c.Fields[rapid.IntRange(0, len(c.Fields)-1).Draw(t, "field")]
			if each {
				f = c.Fields[m-1]
			}
			kv := ref.KV{Name: ref.Str(f.Key)}
			takes := fieldTakes[f.Kind]
			kv.V = genValueOf(t, "value", takes[rapid.IntRange(0, len(takes)-1).Draw(t, "type")], longest)
			odd := rapid.IntRange(0, 39).Draw(t, "odd")
			if odd == 35 && entries > 8 && !chance(t, "mismatch", 4) {
				odd = 0
			}
			switch odd {
			case 35:
				kv.V = genValue(t, "other", 20) // most likely a mismatch
			case 36, 37, 38:
				if f.Ptr {
					kv.V = ref.Value{T: ref.TNull}
				}
			case 39:
				if entries > 8 {
					break
				}
				if f.Kind != fString || kv.V.T != ref.TBinary {
					kv.V.T = ref.TNull
					kv.V = ref.Value{T: ref.TNull}
				}
			case 30, 31, 32, 33, 34:
				kv.Name = ref.Str(pick(t, "unknown", append([]string{""}, all...)...) + pick(t, "suffix", "", "x", "\x00", ",omitempty"))
				kv.V = genValue(t, "unknown", 20)
			}
			// Whether a string field takes a binary entry is not documented
			// unambiguously.
			for _, g := range c.Fields {
				if g.Key == string(kv.Name) && g.Kind == fString && kv.V.T == ref.TBinary {
					kv.V.T = ref.TString
				}
			}
			call.Entries = append(call.Entries, kv)
		}
		if chance(t, "cut", 6) {
			call.Cut = rapid.IntRange(1, 12).Draw(t, "ncut")
		}
		if !call.All && call.Cut == 0 && chance(t, "rest", 30) {
			call.Rest = append(ref.AppendKVs(nil, genKVs(t, 2, 10)), genBytes(t, "rest", 3)...)
			if chance(t, "known", 50) && len(call.Entries) > 0 {
				call.Rest = ref.AppendKVs(nil, call.Entries[:1])
			}
		}
		if call.Cut == 0 && chance(t, "skip", 10) {
			call.Skip = rapid.IntRange(0, len(call.Entries)).Draw(t, "skipped")
		}
		c.Calls = append(c.Calls, call)
	}
	return c
}

func fieldValue(kind int, v ref.Value) any {
	switch kind {
	case fString:
		return string(v.Bytes)
	case fBytes:
		return append([]byte{}, v.Bytes...)
	case fInt32:
		return int32(v.Int)
	case fInt64:
		return int64(v.Int)
	case fUint32:
		return uint32(v.Int)
	case fUint64:
		return v.Int
	case fBool:
		return v.Bool
	default:
		return addrOf(v.Bytes)
	}
}

// p07Preset is what Init puts into a field.
func p07Preset(kind, i int) any {
	switch kind {
	case fString:
		return "preset" + strconv.Itoa(i)
	case fBytes:
		return []byte("preset" + strconv.Itoa(i))
	case fInt32:
		return int32(-1000 - i)
	case fInt64:
		return int64(-1000 - i)
	case fUint32:
		return uint32(1000 + i)
	case fUint64:
		return uint64(1000 + i)
	case fBool:
		return true
	default:
		return netip.AddrFrom4([4]byte{9, 9, 9, byte(i)})
	}
}

func sameValue(a, b any) bool {
	x, ok1 := a.([]byte)
	y, ok2 := b.([]byte)
	if ok1 && ok2 {
		return bytes.Equal(x, y)
	}
	return !ok1 && !ok2 && a == b
}

func p07Run(r *pbt.R, c p07Case) error {
	var sf []reflect.StructField
	for i, f := range c.Fields {
		typ := f.typ()
		if f.Ptr {
			typ = reflect.PointerTo(typ)
		}
		field := reflect.StructField{Name: "F" + strconv.Itoa(i), Type: typ}
		if f.Tag != "" {
			field.Tag = reflect.StructTag("json:\"x\" spoe:" + strconv.Quote(f.Tag))
		}
		sf = append(sf, field)
	}
	st := reflect.StructOf(sf)

	var target reflect.Value
	model := make([]any, len(c.Fields)) // nil: a nil pointer
	// Values that were in the struct at some time, which the user may have
	// kept, and what they were.
	type held struct {
		value reflect.Value
		was   any
	}
	var kept []held
	keep := func() {
		for i, f := range c.Fields {
			switch fv := target.Elem().Field(i); {
			case f.Ptr && !fv.IsNil():
				kept = append(kept, held{fv.Elem(), model[i]})
			case f.Kind == fBytes && !f.Ptr:
				kept = append(kept, held{reflect.ValueOf(fv.Bytes()), append([]byte(nil), fv.Bytes()...)})
			}
		}
	}
	fresh := func() {
		target = reflect.New(st)
		for i, f := range c.Fields {
			var v any = reflect.Zero(fieldTypes[f.Kind]).Interface()
			if f.Init {
				v = p07Preset(f.Kind, i)
			}
			switch {
			case f.Ptr && f.Init:
				p := reflect.New(f.typ())
				p.Elem().Set(reflect.ValueOf(v).Convert(f.typ()))
				target.Elem().Field(i).Set(p)
			case f.Ptr:
				v = nil
			default:
				target.Elem().Field(i).Set(reflect.ValueOf(v).Convert(f.typ()))
			}
			model[i] = v
		}
		keep()
	}
	fresh()

	for n, call := range c.Calls {
		if call.Fresh {
			fresh()
		}
		in := ref.AppendKVs(nil, call.Entries)
		count := len(call.Entries)
		if call.All {
			count = -1
		}
		bad := false
		entries := call.Entries
		if call.Cut > 0 && len(in) > 0 {
			in = in[:max(len(in)-call.Cut, 0)]

			whole, err := ref.KVs(in)
			bad = err != nil || (!call.All && len(whole) < count)
			entries = whole
		}

		in = append(in, call.Rest...)
		entries = entries[min(call.Skip, len(entries)):]

		// The model.
		next := append([]any(nil), model...)
		seen := map[int]bool{}
		nontrivial := false
		for _, kv := range entries {
			i := -1
			for j, f := range c.Fields {
				if f.Key != "" && f.Key == string(kv.Name) {
					i = j
				}
			}
			if i < 0 {
				continue
			}
			f := c.Fields[i]
			if seen[i] || f.Ptr {
				nontrivial = true
			}
			if f.Ptr && kv.V.T == ref.TNull {
				next[i] = nil
				seen[i] = true
				continue
			}
			ok := false
			for _, typ := range fieldTakes[f.Kind] {
				ok = ok || typ == kv.V.T
			}
			if !ok {
				bad = true
				r.Label("mismatch")
				break
			}
			next[i] = fieldValue(f.Kind, kv.V)
			seen[i] = true
		}
		for i, f := range c.Fields {
			if f.Ptr && f.Key != "" && !seen[i] {
				if next[i] != nil {
					nontrivial = true
				}
				next[i] = nil
			}
		}

		s := encoding.NewKVScanner(in, count)
		for i := 0; i < call.Skip; i++ {
			if !s.Next(&encoding.KVEntry{}) {
				return fmt.Errorf("call %d: entry %d of %s is missing: %v", n, i, trunc(call), s.Error())
			}
		}
		err := s.Unmarshal(target.Interface())
		if bad {
			r.NonTrivial()
			if err == nil {
				return fmt.Errorf("call %d: no error for %s into %v", n, trunc(call), c.Fields)
			}
			fresh() // what the struct holds after an error is left open
			continue
		}
		if err != nil {
			return fmt.Errorf("call %d: %w for %s into %v", n, err, trunc(call), c.Fields)
		}
		if len(call.Rest) != s.RemainingBuf() || s.Next(&encoding.KVEntry{}) {
			return fmt.Errorf("call %d: %d bytes remain behind the entries, want %d: %s into %v", n, s.RemainingBuf(), len(call.Rest), trunc(call), c.Fields)
		}
		if nontrivial {
			r.NonTrivial()
		}
		for i := range in {
			in[i] ^= 0xff
		}
		model = next
		for i, f := range c.Fields {
			fv := target.Elem().Field(i)
			if f.Ptr {
				if fv.IsNil() != (model[i] == nil) {
					return fmt.Errorf("call %d: pointer field %d (%+v) is nil: %v, want %s", n, i, f, fv.IsNil(), trunc(model[i]))
				}
				if fv.IsNil() {
					continue
				}
				fv = fv.Elem()
			}
			if got := fv.Convert(fieldTypes[f.Kind]).Interface(); !sameValue(got, model[i]) {
				return fmt.Errorf("call %d: field %d (%+v) is %s, want %s", n, i, f, trunc(got), trunc(model[i]))
			}
		}
		for _, h := range kept {
			if got := h.value.Convert(reflect.TypeOf(h.was)).Interface(); !sameValue(got, h.was) {
				return fmt.Errorf("call %d: %s that was in the struct before has become %s", n, trunc(h.was), trunc(got))
			}
		}
		keep()
	}
	return nil
}

// p07Odd is an entry for a field of a type that is not supported, or for one
// that is not exported.
type p07Odd struct {
	Type   int
	Ptr    bool
	Hidden bool `json:",omitempty"`
	Before []ref.KV
	V      ref.Value
}

func p07RunOdd(r *pbt.R, c p07Odd) error {
	typ := oddTypes[c.Type]
	if c.Ptr || typ.Kind() == reflect.Pointer {
		if c.V.T == ref.TNull {
			return nil // a null does not need any support
		}
		typ = reflect.PointerTo(oddTypes[c.Type])
	}
	field := reflect.StructField{Name: "Odd", Type: typ, Tag: `spoe:"odd"`}
	if c.Hidden {
		field.Name, field.PkgPath, field.Type = "odd", "verif/harness", fieldTypes[c.Type%nFieldKinds]
		if c.Ptr {
			field.Type = reflect.PointerTo(field.Type)
		}
	}
	r.NonTrivial()
	kvs := append(c.Before[:len(c.Before):len(c.Before)], ref.KV{Name: ref.Str("odd"), V: c.V})
	in := ref.AppendKVs(nil, kvs)
	target := reflect.New(reflect.StructOf([]reflect.StructField{field}))
	if err := encoding.NewKVScanner(in, len(kvs)).Unmarshal(target.Interface()); err == nil {
		return fmt.Errorf("no error for %s into a field of type %s (%s)", trunc(kvs), field.Type, field.Name)
	}
	return nil
}

// p07RunTarget: anything but a pointer to a struct is refused.
func p07RunTarget(r *pbt.R, kvs []ref.KV) error {
	in := ref.AppendKVs(nil, kvs)
	s := ""
	for _, v := range []any{nil, struct{}{}, "x", &s, (*struct{ A string })(nil), map[string]string{}} {
		if err := encoding.NewKVScanner(in, len(kvs)).Unmarshal(v); err == nil {
			return fmt.Errorf("unmarshalling into %T succeeds", v)
		}
	}
	return nil
}
