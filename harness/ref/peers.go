package ref

import (
	"encoding/binary"
	"fmt"
)

// Key types of stick tables.
const (
	KInt    = 2
	KIPv4   = 4
	KIPv6   = 5
	KString = 6
	KBinary = 7
)

// Kinds of stored data.
const (
	DSint = iota
	DUint
	DULL
	DFreq
	DDict
	DArray // arrays: known finding, see known_findings.txt
)

// DataKind of each stored data type, by its HAProxy number, and HAProxy's
// name for it.
var DataKind = []int{
	DSint, DUint, DUint, DFreq, DUint, DFreq, DUint, DUint, DFreq, DUint,
	DFreq, DUint, DFreq, DULL, DFreq, DULL, DFreq, DUint, DFreq, DDict,
	DUint, DFreq, DArray, DArray, DArray, DUint, DFreq,
}

var DataName = []string{
	"server_id", "gpt0", "gpc0", "gpc0_rate", "conn_cnt", "conn_rate", "conn_cur", "sess_cnt", "sess_rate", "http_req_cnt",
	"http_req_rate", "http_err_cnt", "http_err_rate", "bytes_in_cnt", "bytes_in_rate", "bytes_out_cnt", "bytes_out_rate", "gpc1", "gpc1_rate", "server_key",
	"http_fail_cnt", "http_fail_rate", "gpt", "gpc", "gpc_rate", "glitch_cnt", "glitch_rate",
}

// NDataTypes is the number of known data types.
var NDataTypes = len(DataKind)

// TableType is a data type of a table with its parameters (rates only).
type TableType struct {
	T      int
	A      uint64 `json:",omitempty"`
	Period uint64 `json:",omitempty"`
}

type Table struct {
	ID      uint64
	Name    Str
	KeyType int
	KeyLen  uint64
	Expiry  uint64
	Types   []TableType // ascending
}

func AppendTable(b []byte, t Table) []byte {
	b = AppendVarint(b, t.ID)
	b = AppendString(b, t.Name)
	b = AppendVarint(b, uint64(t.KeyType))
	b = AppendVarint(b, t.KeyLen)
	var bits uint64
	for _, d := range t.Types {
		bits |= 1 << uint(d.T)
	}
	b = AppendVarint(b, bits)
	b = AppendVarint(b, t.Expiry)
	for _, d := range t.Types {
		if DataKind[d.T] == DFreq {
			b = AppendVarint(b, d.A)
			b = AppendVarint(b, d.Period)
		}
	}
	return b
}

// Table decodes a definition.
func (c *Cursor) Table() Table {
	var t Table
	t.ID = c.Varint()
	t.Name = Str(c.LenBytes())
	kt := c.Varint()
	t.KeyLen = c.Varint()
	bits := c.Varint()
	t.Expiry = c.Varint()
	if c.Err == nil && kt > 1<<31-1 {
		c.Err = ErrUnspecified
	}
	t.KeyType = int(kt)
	for i := 0; i < 64 && c.Err == nil; i++ {
		if bits>>uint(i)&1 == 0 {
			continue
		}
		if i >= NDataTypes {
			c.Err = ErrInvalid
			break
		}
		d := TableType{T: i}
		switch DataKind[i] {
		case DFreq:
			d.A = c.Varint()
			d.Period = c.Varint()
		case DArray:
			c.Err = ErrUnspecified
		}
		t.Types = append(t.Types, d)
	}
	return t
}

// Datum is a stored value: Int for DSint (sign-extended), DUint and DULL,
// Freq for rates, ID and Bytes for dictionary values.
type Datum struct {
	Int   uint64    `json:",omitempty"`
	Freq  [3]uint64 `json:",omitzero"`
	ID    uint64    `json:",omitempty"`
	Bytes Str       `json:",omitempty"`
}

// Update is an entry update.
type Update struct {
	Inc    bool   `json:",omitempty"` // incremental: no id on the wire
	Timed  bool   `json:",omitempty"`
	ID     uint32 `json:",omitempty"`
	Expiry uint32 `json:",omitempty"`
	Key    Str    // 4/16 bytes for integers and addresses, raw otherwise
	Data   []Datum
}

func AppendDatum(b []byte, kind int, d Datum) []byte {
	switch kind {
	case DSint, DUint, DULL:
		return AppendVarint(b, d.Int)
	case DFreq:
		for _, v := range d.Freq {
			b = AppendVarint(b, v)
		}
		return b
	case DDict:
		if d.ID == 0 {
			return append(b, 0)
		}
		in := AppendVarint(nil, d.ID)
		if len(d.Bytes) > 0 {
			in = AppendString(in, d.Bytes)
		}
		return AppendString(b, in)
	}
	panic("ref: data kind")
}

func AppendKey(b []byte, t Table, key []byte) []byte {
	switch t.KeyType {
	case KString:
		return AppendString(b, key)
	case KBinary:
		b = append(b, key...)
		for i := len(key); i < int(t.KeyLen); i++ {
			b = append(b, 0)
		}
		return b
	default:
		return append(b, key...)
	}
}

func AppendUpdate(b []byte, t Table, u Update) []byte {
	if !u.Inc {
		b = binary.BigEndian.AppendUint32(b, u.ID)
	}
	if u.Timed {
		b = binary.BigEndian.AppendUint32(b, u.Expiry)
	}
	b = AppendKey(b, t, u.Key)
	for i, d := range u.Data {
		b = AppendDatum(b, DataKind[t.Types[i].T], d)
	}
	return b
}

func (c *Cursor) Datum(kind int) Datum {
	var d Datum
	switch kind {
	case DSint:
		d.Int = c.Varint()
		if c.Err == nil && d.Int != uint64(int64(int32(d.Int))) {
			c.Err = ErrUnspecified
		}
	case DUint:
		d.Int = c.Varint()
		if c.Err == nil && d.Int>>32 != 0 {
			c.Err = ErrUnspecified
		}
	case DULL:
		d.Int = c.Varint()
	case DFreq:
		for i := range d.Freq {
			d.Freq[i] = c.Varint()
		}
	case DDict:
		l := c.Varint()
		if c.Err != nil || l == 0 {
			return d
		}
		in := Cursor{B: c.Take(l)}
		if c.Err != nil {
			return d
		}
		d.ID = in.Varint()
		if in.Err == nil && in.Left() > 0 {
			d.Bytes = Str(in.LenBytes())
		}
		// An inner length that disagrees with the outer one is malformed, but
		// receivers differ in how strictly they check it.
		if in.Err != nil || in.Left() > 0 || d.ID == 0 {
			c.Err = ErrUnspecified
		}
	default:
		c.Err = ErrUnspecified
	}
	return d
}

// Update decodes an entry update of table t.
func (c *Cursor) Update(t Table, inc, timed bool) Update {
	u := Update{Inc: inc, Timed: timed}
	if !inc {
		u.ID = c.Uint32()
	}
	if timed {
		u.Expiry = c.Uint32()
	}
	switch t.KeyType {
	case KInt:
		u.Key = Str(c.Take(4))
	case KIPv4, KIPv6:
		want := uint64(4)
		if t.KeyType == KIPv6 {
			want = 16
		}
		if t.KeyLen != want && c.Err == nil {
			c.Err = ErrUnspecified
		}
		u.Key = Str(c.Take(want))
	case KString:
		u.Key = Str(c.LenBytes())
	case KBinary:
		u.Key = Str(c.Take(t.KeyLen))
	default:
		if c.Err == nil {
			c.Err = ErrInvalid
		}
	}
	for _, d := range t.Types {
		if c.Err == nil && d.T >= NDataTypes {
			c.Err = ErrInvalid
		}
		if c.Err != nil {
			break
		}
		u.Data = append(u.Data, c.Datum(DataKind[d.T]))
	}
	return u
}

// Peers message classes and types.
const (
	ClassControl = 0
	ClassError   = 1
	ClassTable   = 10

	CtlSyncReq      = 0
	CtlSyncFinished = 1
	CtlSyncPartial  = 2
	CtlSyncConfirm  = 3
	CtlHeartbeat    = 4

	MsgUpdate      = 0x80
	MsgIncremental = 0x81
	MsgDefinition  = 0x82
	MsgSwitch      = 0x83
	MsgAck         = 0x84
	MsgTimed       = 0x85
	MsgIncTimed    = 0x86
)

// Msg is a peers protocol message; those of type 128 and above carry data.
type Msg struct {
	Class int
	Type  int
	Data  Str
}

func (m Msg) String() string { return fmt.Sprintf("{%d %#x %v}", m.Class, m.Type, m.Data) }

func AppendMsg(b []byte, m Msg) []byte {
	b = append(b, byte(m.Class), byte(m.Type))
	if m.Type >= 128 {
		b = AppendString(b, m.Data)
	}
	return b
}

// UpdateMsg is the message carrying u.
func UpdateMsg(t Table, u Update) Msg {
	typ := MsgUpdate
	switch {
	case u.Inc && u.Timed:
		typ = MsgIncTimed
	case u.Inc:
		typ = MsgIncremental
	case u.Timed:
		typ = MsgTimed
	}
	return Msg{ClassTable, typ, AppendUpdate(nil, t, u)}
}

// Msgs decodes a stream; rest is what follows the last whole message.
func Msgs(b []byte) (ms []Msg, rest []byte, err error) {
	for len(b) > 0 {
		c := Cursor{B: b}
		m := Msg{Class: int(c.Byte()), Type: int(c.Byte())}
		if c.Err == nil && m.Type >= 128 {
			m.Data = Str(c.LenBytes())
		}
		if c.Err == ErrShort {
			return ms, b, nil
		}
		if c.Err != nil {
			return ms, b, c.Err
		}
		ms = append(ms, m)
		b = b[c.Off:]
	}
	return ms, nil, nil
}
