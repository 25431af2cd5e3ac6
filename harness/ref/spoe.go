package ref

import (
	"bytes"
	"encoding/binary"
	"fmt"
)

// SPOE data types.
const (
	TNull = iota
	TBool
	TInt32
	TUInt32
	TInt64
	TUInt64
	TIPv4
	TIPv6
	TString
	TBinary
)

// Value is a typed datum: Bool for TBool, Int (64-bit two's complement) for
// the integers, Bytes for addresses, strings and binary.
type Value struct {
	T     int
	Bool  bool   `json:",omitempty"`
	Int   uint64 `json:",omitempty"`
	Bytes Str    `json:",omitempty"`
}

type KV struct {
	Name Str
	V    Value
}

func IsInt(t int) bool { return t >= TInt32 && t <= TUInt64 }

func AppendString(b []byte, s []byte) []byte {
	return append(AppendVarint(b, uint64(len(s))), s...)
}

func AppendValue(b []byte, v Value) []byte {
	switch {
	case v.T == TBool:
		t := byte(TBool)
		if v.Bool {
			t |= 0x10
		}
		return append(b, t)
	case v.T == TNull:
		return append(b, TNull)
	case IsInt(v.T):
		return AppendVarint(append(b, byte(v.T)), v.Int)
	case v.T == TIPv4 || v.T == TIPv6:
		return append(append(b, byte(v.T)), v.Bytes...)
	case v.T == TString || v.T == TBinary:
		return AppendString(append(b, byte(v.T)), v.Bytes)
	}
	panic(fmt.Sprintf("ref: type %d", v.T))
}

func AppendKV(b []byte, kv KV) []byte { return AppendValue(AppendString(b, kv.Name), kv.V) }

func AppendKVs(b []byte, kvs []KV) []byte {
	for _, kv := range kvs {
		b = AppendKV(b, kv)
	}
	return b
}

func (c *Cursor) Value() Value {
	t := c.Byte()
	v := Value{T: int(t & 0x0f)}
	switch {
	case v.T == TNull:
	case v.T == TBool:
		v.Bool = t&0x10 != 0
	case IsInt(v.T):
		v.Int = c.Varint()
	case v.T == TIPv4:
		v.Bytes = Str(c.Take(4))
	case v.T == TIPv6:
		v.Bytes = Str(c.Take(16))
	case v.T == TString || v.T == TBinary:
		v.Bytes = Str(c.LenBytes())
	default:
		if c.Err == nil {
			c.Err = ErrInvalid
		}
	}
	return v
}

func (c *Cursor) KV() KV {
	name := c.LenBytes()
	return KV{Name: Str(name), V: c.Value()}
}

// KVs decodes entries up to the end of b.
func KVs(b []byte) ([]KV, error) {
	c := Cursor{B: b}
	var kvs []KV
	for c.Left() > 0 {
		kv := c.KV()
		if c.Err != nil {
			return kvs, c.Err
		}
		kvs = append(kvs, kv)
	}
	return kvs, nil
}

func (v Value) Equal(w Value) bool {
	return v.T == w.T && v.Bool == w.Bool && v.Int == w.Int && bytes.Equal(v.Bytes, w.Bytes)
}

func (kv KV) Equal(o KV) bool { return bytes.Equal(kv.Name, o.Name) && kv.V.Equal(o.V) }

// Message of a NOTIFY frame.
type Message struct {
	Name Str
	Args []KV
}

func AppendMessage(b []byte, m Message) []byte {
	b = append(AppendString(b, m.Name), byte(len(m.Args)))
	return AppendKVs(b, m.Args)
}

// Actions of an ACK frame.
const (
	ActSet   = 1
	ActUnset = 2
)

type Action struct {
	Kind  int
	Scope int
	Name  Str
	V     Value
}

func AppendAction(b []byte, a Action) []byte {
	nb := byte(3)
	if a.Kind == ActUnset {
		nb = 2
	}
	b = AppendString(append(b, byte(a.Kind), nb, byte(a.Scope)), a.Name)
	if a.Kind == ActSet {
		b = AppendValue(b, a.V)
	}
	return b
}

func Actions(b []byte) ([]Action, error) {
	c := Cursor{B: b}
	var as []Action
	for c.Left() > 0 {
		var a Action
		a.Kind = int(c.Byte())
		nb := c.Byte()
		a.Scope = int(c.Byte())
		a.Name = Str(c.LenBytes())
		if c.Err == nil {
			switch {
			case a.Kind == ActSet && nb == 3:
				a.V = c.Value()
			case a.Kind == ActUnset && nb == 2:
			default:
				return as, fmt.Errorf("%w: action type %d with %d arguments", ErrInvalid, a.Kind, nb)
			}
		}
		if c.Err != nil {
			return as, c.Err
		}
		as = append(as, a)
	}
	return as, nil
}

// Same: integers may be sent under any integer type of the same value.
func (a Action) Same(o Action) bool {
	if a.Kind != o.Kind || a.Scope != o.Scope || !bytes.Equal(a.Name, o.Name) {
		return false
	}
	if a.Kind == ActUnset {
		return true
	}
	if IsInt(a.V.T) && IsInt(o.V.T) {
		return a.V.Int == o.V.Int
	}
	return a.V.Equal(o.V)
}

// DiffActions returns "" if got is exactly the wanted list.
func DiffActions(got, want []Action) string {
	if len(got) != len(want) {
		return fmt.Sprintf("%d actions, want %d: got %v want %v", len(got), len(want), Trunc(got), Trunc(want))
	}
	for i := range got {
		if !got[i].Same(want[i]) {
			return fmt.Sprintf("action %d is %v, want %v", i, Trunc(got[i]), Trunc(want[i]))
		}
	}
	return ""
}

// SPOP frame types.
const (
	FHaproxyHello      = 1
	FHaproxyDisconnect = 2
	FNotify            = 3
	FAgentHello        = 101
	FAgentDisconnect   = 102
	FAck               = 103
)

type Frame struct {
	Type    int
	Flags   uint32
	Stream  uint64
	ID      uint64
	Payload []byte
}

const FlagFin = 1

func FrameHeader(f Frame) []byte {
	b := []byte{byte(f.Type)}
	b = binary.BigEndian.AppendUint32(b, f.Flags)
	b = AppendVarint(b, f.Stream)
	return AppendVarint(b, f.ID)
}

// AppendFrame adds the frame with its length prefix.
func AppendFrame(b []byte, f Frame) []byte {
	content := append(FrameHeader(f), f.Payload...)
	b = binary.BigEndian.AppendUint32(b, uint32(len(content)))
	return append(b, content...)
}

// NextFrame decodes the frame at the start of b. complete is false when b
// does not hold all of it.
func NextFrame(b []byte) (f Frame, n int, complete bool, err error) {
	if len(b) < 4 {
		return f, 0, false, nil
	}
	l := uint64(binary.BigEndian.Uint32(b))
	if uint64(len(b)-4) < l {
		return f, 0, false, nil
	}
	c := Cursor{B: b[4 : 4+l]}
	f.Type = int(c.Byte())
	f.Flags = c.Uint32()
	f.Stream = c.Varint()
	f.ID = c.Varint()
	if c.Err != nil {
		return f, 0, true, fmt.Errorf("frame header: %w", c.Err)
	}
	f.Payload = c.B[c.Off:]
	return f, int(4 + l), true, nil
}

// Frames decodes a whole stream; rest is what follows the last whole frame.
func Frames(b []byte) (fs []Frame, rest []byte, err error) {
	for {
		f, n, complete, err := NextFrame(b)
		if err != nil {
			return fs, b, err
		}
		if !complete {
			return fs, b, nil
		}
		fs = append(fs, f)
		b = b[n:]
	}
}
