package checks

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"net/netip"

	"github.com/dropmorepackets/haproxy-go/peers/sticktable"
	"pgregory.net/rapid"

	"verif/harness/pbt"
	"verif/harness/ref"
)

// genTable makes a valid definition without array data types.
func genTable(t *rapid.T, maxTypes int) ref.Table {
	d := ref.Table{
		ID:      genU64(t, "id"),
		Name:    genStr(t, "table", 300),
		KeyType: pick(t, "keytype", ref.KString, ref.KInt, ref.KIPv4, ref.KIPv6, ref.KBinary),
		Expiry:  genU64(t, "expiry"),
	}
	switch d.KeyType {
	case ref.KInt, ref.KIPv4:
		d.KeyLen = 4
	case ref.KIPv6:
		d.KeyLen = 16
	case ref.KString:
		d.KeyLen = pick(t, "keylen", 32, genU64(t, "keylen"))
	case ref.KBinary:
		d.KeyLen = uint64(genLen(t, "keylen", 600))
	}
	d.Types = genTypes(t, maxTypes)
	return d
}

func genTypes(t *rapid.T, max int) []ref.TableType {
	chosen := map[int]bool{}
	if chance(t, "all", 2) && max >= 24 {
		for i := range ref.DataKind {
			chosen[i] = true
		}
	} else {
		for n := rapid.IntRange(0, min(max, 6)).Draw(t, "ntypes"); n > 0; n-- {
			chosen[rapid.IntRange(0, ref.NDataTypes-1).Draw(t, "type")] = true
		}
		if chance(t, "dict", 30) {
			chosen[19] = true
		}
	}
	var types []ref.TableType
	for i, kind := range ref.DataKind {
		if !chosen[i] || kind == ref.DArray {
			continue
		}
		d := ref.TableType{T: i}
		if kind == ref.DFreq {
			d.A = pick(t, "prefix", uint64(i), genU64(t, "prefix"))
			d.Period = genU64(t, "period")
		}
		types = append(types, d)
	}
	return types
}

func genKey(t *rapid.T, d ref.Table, max int) ref.Str {
	switch d.KeyType {
	case ref.KInt, ref.KIPv4:
		return genBytes(t, "key", 4)
	case ref.KIPv6:
		k := genBytes(t, "key", 16)
		if chance(t, "mapped", 15) {
			copy(k, "\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xff\xff")
		}
		return k
	case ref.KBinary:
		n := int(d.KeyLen)
		if n > 0 && chance(t, "shortkey", 40) {
			n = rapid.IntRange(0, n).Draw(t, "nkey")
		}
		if n > 24 {
			return append(bytes.Repeat([]byte{rapid.Byte().Draw(t, "fill")}, n-4), genBytes(t, "key", 4)...)
		}
		return genBytes(t, "key", n)
	default:
		return genStr(t, "key", max)
	}
}

func genDatum(t *rapid.T, kind, max int) ref.Datum {
	var d ref.Datum
	switch kind {
	case ref.DSint:
		d.Int = uint64(int64(int32(genU32(t, "sint"))))
	case ref.DUint:
		d.Int = uint64(genU32(t, "uint"))
	case ref.DULL:
		d.Int = genU64(t, "ull")
	case ref.DFreq:
		for i := range d.Freq {
			d.Freq[i] = genU64(t, "freq")
		}
	case ref.DDict:
		switch rapid.IntRange(0, 3).Draw(t, "dict") {
		case 0: // absent
		case 1: // cached
			d.ID = max1(genU64(t, "dictid"))
		default:
			d.ID = max1(genU64(t, "dictid"))
			d.Bytes = genStr(t, "dictvalue", max)
		}
	}
	return d
}

func max1(v uint64) uint64 { return max(v, 1) }

func genUpdate(t *rapid.T, d ref.Table, max int) ref.Update {
	u := ref.Update{
		Inc:   chance(t, "inc", 40),
		Timed: rapid.Bool().Draw(t, "timed"),
		Key:   genKey(t, d, max),
	}
	if !u.Inc {
		u.ID = genU32(t, "updateid")
	}
	if u.Timed {
		u.Expiry = genU32(t, "entryexpiry")
	}
	for _, typ := range d.Types {
		u.Data = append(u.Data, genDatum(t, ref.DataKind[typ.T], max))
	}
	return u
}

// exactly makes the key of u, a string, such that its encoding with an id has n
// bytes, if it can have that length.
func exactly(d ref.Table, u *ref.Update, n int) {
	with := *u
	with.Inc = false
	for i := 0; i < 4; i++ {
		k := n - len(ref.AppendUpdate(nil, d, with))
		if k > 0 {
			with.Key = append(with.Key[:len(with.Key):len(with.Key)], bytes.Repeat([]byte{'x'}, k)...)
		} else {
			with.Key = with.Key[:max(0, len(with.Key)+k)]
		}
	}
	u.Key = with.Key
}

// libTable converts to the library's type.
func libTable(d ref.Table) *sticktable.Definition {
	l := &sticktable.Definition{
		StickTableID: d.ID,
		Name:         string(d.Name),
		KeyType:      sticktable.KeyType(d.KeyType),
		KeyLength:    d.KeyLen,
		Expiry:       d.Expiry,
	}
	for _, t := range d.Types {
		l.DataTypes = append(l.DataTypes, sticktable.DataTypeDefinition{DataType: sticktable.DataType(t.T), Counter: t.A, Period: t.Period})
	}
	return l
}

// refTable converts back.
func refTable(l *sticktable.Definition) ref.Table {
	d := ref.Table{ID: l.StickTableID, Name: ref.Str(l.Name), KeyType: int(l.KeyType), KeyLen: l.KeyLength, Expiry: l.Expiry}
	for _, t := range l.DataTypes {
		d.Types = append(d.Types, ref.TableType{T: int(t.DataType), A: t.Counter, Period: t.Period})
	}
	return d
}

func sameTable(a, b ref.Table) bool {
	return fmt.Sprintf("%+v", a) == fmt.Sprintf("%+v", b)
}

func libKey(d ref.Table, key []byte) sticktable.MapKey {
	switch d.KeyType {
	case ref.KInt:
		k := sticktable.SignedIntegerKey(binary.BigEndian.Uint32(key))
		return &k
	case ref.KIPv4:
		k := sticktable.IPv4AddressKey(netip.AddrFrom4([4]byte(key)))
		return &k
	case ref.KIPv6:
		k := sticktable.IPv6AddressKey(netip.AddrFrom16([16]byte(key)))
		return &k
	case ref.KString:
		k := sticktable.StringKey(key)
		return &k
	case ref.KBinary:
		k := sticktable.BinaryKey(append([]byte(nil), key...))
		return &k
	}
	panic(pbt.Harness("key type"))
}

// refKey converts back; the type must be the one of the table.
func refKey(d ref.Table, key sticktable.MapKey) (ref.Str, error) {
	switch k := key.(type) {
	case *sticktable.SignedIntegerKey:
		if d.KeyType == ref.KInt {
			return binary.BigEndian.AppendUint32(nil, uint32(*k)), nil
		}
	case *sticktable.IPv4AddressKey:
		if a := netip.Addr(*k); d.KeyType == ref.KIPv4 && a.Is4() {
			return a.AsSlice(), nil
		}
	case *sticktable.IPv6AddressKey:
		if a := netip.Addr(*k); d.KeyType == ref.KIPv6 && a.Is6() {
			return a.AsSlice(), nil
		}
	case *sticktable.StringKey:
		if d.KeyType == ref.KString {
			return ref.Str(*k), nil
		}
	case *sticktable.BinaryKey:
		if d.KeyType == ref.KBinary {
			return ref.Str(*k), nil
		}
	}
	return nil, fmt.Errorf("key %T %v in a table with key type %d", key, key, d.KeyType)
}

func libDatum(kind int, d ref.Datum) sticktable.MapData {
	switch kind {
	case ref.DSint:
		v := sticktable.SignedIntegerData(int32(d.Int))
		return &v
	case ref.DUint:
		v := sticktable.UnsignedIntegerData(d.Int)
		return &v
	case ref.DULL:
		v := sticktable.UnsignedLongLongData(d.Int)
		return &v
	case ref.DFreq:
		return &sticktable.FreqData{CurrentTick: d.Freq[0], CurrentPeriod: d.Freq[1], LastPeriod: d.Freq[2]}
	case ref.DDict:
		v := &sticktable.DictData{ID: d.ID}
		if len(d.Bytes) > 0 {
			v.Value = append([]byte(nil), d.Bytes...)
		}
		return v
	}
	panic(pbt.Harness("data kind"))
}

func refDatum(kind int, data sticktable.MapData) (d ref.Datum, err error) {
	ok := false
	switch v := data.(type) {
	case *sticktable.SignedIntegerData:
		ok = kind == ref.DSint
		d.Int = uint64(int64(*v))
	case *sticktable.UnsignedIntegerData:
		ok = kind == ref.DUint
		d.Int = uint64(*v)
	case *sticktable.UnsignedLongLongData:
		ok = kind == ref.DULL
		d.Int = uint64(*v)
	case *sticktable.FreqData:
		ok = kind == ref.DFreq
		d.Freq = [3]uint64{v.CurrentTick, v.CurrentPeriod, v.LastPeriod}
	case *sticktable.DictData:
		ok = kind == ref.DDict
		d.ID, d.Bytes = v.ID, ref.Str(v.Value)
	}
	if !ok {
		return d, fmt.Errorf("value %T %v for a data type of kind %d", data, data, kind)
	}
	return d, nil
}

func libUpdate(d ref.Table, def *sticktable.Definition, u ref.Update) *sticktable.EntryUpdate {
	e := &sticktable.EntryUpdate{
		StickTable:        def,
		Key:               libKey(d, u.Key),
		WithLocalUpdateID: !u.Inc,
		LocalUpdateID:     u.ID,
		WithExpiry:        u.Timed,
		Expiry:            u.Expiry,
	}
	for i, v := range u.Data {
		e.Data = append(e.Data, libDatum(ref.DataKind[d.Types[i].T], v))
	}
	return e
}

// refUpdate converts back what was decoded for table d.
func refUpdate(d ref.Table, e *sticktable.EntryUpdate) (ref.Update, error) {
	u := ref.Update{Inc: !e.WithLocalUpdateID, Timed: e.WithExpiry, ID: e.LocalUpdateID}
	if e.WithExpiry {
		u.Expiry = e.Expiry
	}
	var err error
	if u.Key, err = refKey(d, e.Key); err != nil {
		return u, err
	}
	if len(e.Data) != len(d.Types) {
		return u, fmt.Errorf("%d values in a table with %d data types", len(e.Data), len(d.Types))
	}
	for i, v := range e.Data {
		r, err := refDatum(ref.DataKind[d.Types[i].T], v)
		if err != nil {
			return u, fmt.Errorf("value %d: %w", i, err)
		}
		u.Data = append(u.Data, r)
	}
	return u, nil
}

// padded is u as the remote sees it: binary keys have the table's length.
func padded(d ref.Table, u ref.Update) ref.Update {
	if d.KeyType == ref.KBinary {
		u.Key = append(append(ref.Str(nil), u.Key...), make([]byte, int(d.KeyLen)-len(u.Key))...)
	}
	return u
}

func sameUpdate(a, b ref.Update) bool {
	if a.Inc != b.Inc || a.Timed != b.Timed || a.ID != b.ID || a.Expiry != b.Expiry || !bytes.Equal(a.Key, b.Key) || len(a.Data) != len(b.Data) {
		return false
	}
	for i := range a.Data {
		if !sameDatum(a.Data[i], b.Data[i]) {
			return false
		}
	}
	return true
}

func sameDatum(a, b ref.Datum) bool {
	return a.Int == b.Int && a.Freq == b.Freq && a.ID == b.ID && bytes.Equal(a.Bytes, b.Bytes)
}
