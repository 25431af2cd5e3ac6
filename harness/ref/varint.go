// Package ref is an independent implementation of the SPOE and peers wire
// formats, written from the protocol documents and captures of HAProxy. It
// shares no code with the code under test and favours obviousness over speed.
package ref

import "errors"

var (
	// ErrShort: the input ends before the item does.
	ErrShort = errors.New("ref: input too short")
	// ErrUnspecified: the input uses something the protocol leaves open, for
	// example an integer that does not fit 64 bits.
	ErrUnspecified = errors.New("ref: unspecified encoding")
	// ErrInvalid: the input violates the protocol.
	ErrInvalid = errors.New("ref: invalid encoding")
)

// AppendVarint: below 240 a single byte. Otherwise the first byte carries the
// four low bits with its own four high bits set, 240 is subtracted, and each
// further byte carries seven bits, 128 being subtracted for each that is not
// the last one.
func AppendVarint(b []byte, v uint64) []byte {
	if v < 240 {
		return append(b, byte(v))
	}
	b = append(b, byte(v)|0xf0)
	rest := (v - 240) / 16
	for rest >= 128 {
		b = append(b, byte(rest)|0x80)
		rest = (rest - 128) / 128
	}
	return append(b, byte(rest))
}

// VarintLen is the length of the encoding of v.
func VarintLen(v uint64) int { return len(AppendVarint(nil, v)) }

// Varint decodes the integer at the start of b and returns its length.
func Varint(b []byte) (uint64, int, error) {
	if len(b) == 0 {
		return 0, 0, ErrShort
	}
	if b[0] < 240 {
		return uint64(b[0]), 1, nil
	}
	value := uint64(b[0])
	overflow := false
	for i := 1; ; i++ {
		if i >= len(b) {
			return 0, 0, ErrShort
		}
		shift := uint(4 + 7*(i-1))
		if i > 9 {
			overflow = true
		} else {
			d := uint64(b[i]) << shift
			if d>>shift != uint64(b[i]) {
				overflow = true
			}
			if value+d < value {
				overflow = true
			}
			value += d
		}
		if b[i] < 128 {
			if overflow {
				return 0, 0, ErrUnspecified
			}
			return value, i + 1, nil
		}
	}
}

// Cursor reads items off a byte string. The first failure sticks.
type Cursor struct {
	B   []byte
	Off int
	Err error
}

func (c *Cursor) Left() int { return len(c.B) - c.Off }

func (c *Cursor) Varint() uint64 {
	if c.Err != nil {
		return 0
	}
	v, n, err := Varint(c.B[c.Off:])
	if err != nil {
		c.Err = err
		return 0
	}
	c.Off += n
	return v
}

func (c *Cursor) Take(n uint64) []byte {
	if c.Err != nil {
		return nil
	}
	if n > uint64(c.Left()) {
		c.Err = ErrShort
		return nil
	}
	b := c.B[c.Off : c.Off+int(n) : c.Off+int(n)]
	c.Off += int(n)
	return b
}

func (c *Cursor) Byte() byte {
	b := c.Take(1)
	if b == nil {
		return 0
	}
	return b[0]
}

func (c *Cursor) Uint32() uint32 {
	b := c.Take(4)
	if b == nil {
		return 0
	}
	return uint32(b[0])<<24 | uint32(b[1])<<16 | uint32(b[2])<<8 | uint32(b[3])
}

// LenBytes reads a length-prefixed byte string.
func (c *Cursor) LenBytes() []byte { return c.Take(c.Varint()) }
