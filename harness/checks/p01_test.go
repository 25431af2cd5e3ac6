package checks

import (
	"bytes"
	"errors"
	"fmt"

	"github.com/dropmorepackets/haproxy-go/pkg/encoding"
	"pgregory.net/rapid"

	"verif/harness/pbt"
	"verif/harness/ref"
)

type p01Values struct {
	Values []uint64
	Suffix ref.Str
}

func init() {
	pbt.Register(&pbt.Property{
		ID: "P01",
		Rule: "values: 1-4 integers from small values, the edges of every encoding width, single-bit neighbourhoods and all of uint64; each is written into every too small and several sufficient destinations with guard bytes around, its encoding compared with the reference and decoded from a slice and a byte reader, whole, truncated at every point, and followed by other bytes. bytes: arbitrary bytes decoded and compared with the reference decoder. " +
			"Non-trivial: an encoding of at least two bytes.",
		Parts: []*pbt.Part{
			pbt.NewPart("values", 200000, func(t *rapid.T) p01Values {
				return p01Values{
					Values: rapid.SliceOfN(rapid.Custom(func(t *rapid.T) uint64 { return genU64(t, "v") }), 1, 4).Draw(t, "values"),
					Suffix: genBytes(t, "suffix", rapid.IntRange(0, 4).Draw(t, "nsuffix")),
				}
			}, p01RunValues),
			pbt.NewPart("bytes", 200000, func(t *rapid.T) ref.Str {
				n := rapid.IntRange(0, 14).Draw(t, "n")
				b := genBytes(t, "b", n)
				if n > 0 && rapid.Bool().Draw(t, "multi") {
					b[0] |= 0xf0
				}
				return b
			}, p01RunBytes),
		},
	})
}

func p01RunValues(r *pbt.R, c p01Values) error {
	var all []byte
	for _, v := range c.Values {
		want := ref.AppendVarint(nil, v)
		all = append(all, want...)
		r.NonTrivialIf(len(want) > 1)
		r.Label(fmt.Sprintf("width %d", len(want)))

		for size := 0; size <= len(want)+3; size++ {
			buf, intact := canaryBuf(size)
			n, err := encoding.PutVarint(buf, v)
			if ierr := intact(); ierr != nil {
				return fmt.Errorf("PutVarint(%d bytes, %d): %w", size, v, ierr)
			}
			if size < len(want) {
				if !errors.Is(err, encoding.ErrInsufficientSpace) {
					return fmt.Errorf("PutVarint(%d bytes, %d) = %d, %v; want insufficient space", size, v, n, err)
				}
				continue
			}
			if err != nil || n != len(want) || !bytes.Equal(buf[:n], want) {
				return fmt.Errorf("PutVarint(%d bytes, %d) = %d, %v, bytes %x; want %x", size, v, n, err, buf, want)
			}
		}

		for cut := 0; cut < len(want); cut++ {
			if got, n, err := encoding.Varint(want[:cut:cut]); !errors.Is(err, encoding.ErrUnterminatedSequence) {
				return fmt.Errorf("Varint(%x) = %d, %d, %v; want unterminated", want[:cut], got, n, err)
			}
			if got, err := encoding.ReadVarint(bytes.NewReader(want[:cut])); !errors.Is(err, encoding.ErrUnterminatedSequence) {
				return fmt.Errorf("ReadVarint(%x) = %d, %v; want unterminated", want[:cut], got, err)
			}
		}
	}

	// Decoding one after the other, other bytes following.
	all = append(all, c.Suffix...)
	rest := all
	rd := bytes.NewReader(all)
	for _, v := range c.Values {
		got, n, err := encoding.Varint(rest)
		if err != nil || got != v || n != ref.VarintLen(v) {
			return fmt.Errorf("Varint(%x) = %d, %d, %v; want %d, %d", rest, got, n, err, v, ref.VarintLen(v))
		}
		rest = rest[n:]
		got, err = encoding.ReadVarint(rd)
		if err != nil || got != v {
			return fmt.Errorf("ReadVarint before %x = %d, %v; want %d", rest, got, err, v)
		}
		if rd.Len() != len(rest) {
			return fmt.Errorf("ReadVarint of %d left %d bytes, want %d", v, rd.Len(), len(rest))
		}
	}
	return nil
}

func p01RunBytes(r *pbt.R, b ref.Str) error {
	want, wn, werr := ref.Varint(b)
	got, n, err := encoding.Varint(b)
	rd := bytes.NewReader(b)
	rgot, rerr := encoding.ReadVarint(rd)
	rn := len(b) - rd.Len()
	switch werr {
	case nil:
		r.NonTrivialIf(wn > 1)
		if err != nil || got != want || n != wn {
			return fmt.Errorf("Varint(%x) = %d, %d, %v; want %d, %d", b, got, n, err, want, wn)
		}
		if rerr != nil || rgot != want || rn != wn {
			return fmt.Errorf("ReadVarint(%x) = %d, %v after %d bytes; want %d, %d", b, rgot, rerr, rn, want, wn)
		}
	case ref.ErrShort:
		r.NonTrivialIf(len(b) > 1)
		r.Label("truncated")
		if !errors.Is(err, encoding.ErrUnterminatedSequence) {
			return fmt.Errorf("Varint(%x) = %d, %d, %v; want unterminated", b, got, n, err)
		}
		if !errors.Is(rerr, encoding.ErrUnterminatedSequence) {
			return fmt.Errorf("ReadVarint(%x) = %d, %v; want unterminated", b, rgot, rerr)
		}
	default: // does not fit 64 bits: anything but a panic or reading too far
		r.Label("over-long")
		if n < 0 || n > len(b) {
			return fmt.Errorf("Varint(%x) consumed %d bytes", b, n)
		}
	}
	return nil
}
