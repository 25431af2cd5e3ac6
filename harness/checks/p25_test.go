package checks

import (
	"bytes"
	"fmt"

	"github.com/dropmorepackets/haproxy-go/pkg/buffer"
	"pgregory.net/rapid"

	"verif/harness/pbt"
)

// p25Op: w write through WriteNBytes, W through WriteBytes and AdvanceW, r and
// R likewise for reads, p peek, g grow, 0 reset, j scribble over the free
// space. N is cut to what the model allows.
type p25Op struct {
	Op string
	N  int
}

type p25Case struct {
	Size  int
	Slice bool // start with a slice of Size bytes, to be read
	Ops   []p25Op
}

func init() {
	pbt.Register(&pbt.Property{
		ID: "P25",
		Rule: "1-40 operations (both ways of writing and reading, peeking, growing, resetting, scribbling over free space) within capacity, on a buffer of 0-48 bytes (sometimes up to 70000) or one made from a slice, against a byte queue; slices handed out by reads are compared again at the end of each epoch. " +
			"Non-trivial: the buffer grew while holding unread bytes that were read later.",
		Parts: []*pbt.Part{
			pbt.NewPart("queue", 150000, func(t *rapid.T) p25Case {
				c := p25Case{Size: rapid.IntRange(0, 48).Draw(t, "size"), Slice: chance(t, "slice", 25)}
				ns := rapid.IntRange(0, 24)
				if chance(t, "large", 3) {
					sizes := []int{0, 1, 100, 255, 256, 257, 1000, 4095, 4096, 4097, 16384, 65534, 65535, 65536, 65537, 70000}
					ns = rapid.SampledFrom(sizes)
					c.Size = pick(t, "largesize", sizes...)
				}
				for n := genCount(t, "nops", 1, 40, 2000); n > 0; n-- {
					c.Ops = append(c.Ops, p25Op{
						Op: pick(t, "op", "w", "w", "W", "W", "r", "R", "r", "R", "p", "g", "g", "j", "0"),
						N:  ns.Draw(t, "n"),
					})
				}
				return c
			}, p25Run),
		},
	})
}

func p25Run(r *pbt.R, c p25Case) error {
	var s *buffer.SliceBuffer
	var unread []byte
	next := byte(1)
	fill := func(b []byte) {
		for i := range b {
			b[i] = next
			next = next*5 + 7
		}
	}
	if c.Slice {
		b := make([]byte, c.Size)
		fill(b)
		unread = append(unread, b...)
		s = buffer.NewSliceBufferWithSlice(b)
	} else {
		s = buffer.NewSliceBuffer(c.Size)
		if len(s.WriteBytes()) < c.Size {
			return fmt.Errorf("a new buffer of %d bytes has room for %d", c.Size, len(s.WriteBytes()))
		}
	}
	type handed struct{ got, want []byte }
	var out []handed
	stillIntact := func(when string) error {
		for _, h := range out {
			if !bytes.Equal(h.got, h.want) {
				return fmt.Errorf("%s: bytes read before changed from %x to %x", when, h.want, h.got)
			}
		}
		return nil
	}
	grewWith := 0 // unread bytes at the last growth, still to be read
	for i, op := range c.Ops {
		room := len(s.WriteBytes())
		at := fmt.Sprintf("operation %d (%s %d, %d unread, %d free)", i, op.Op, op.N, len(unread), room)
		switch op.Op {
		case "w":
			n := min(op.N, room)
			b := s.WriteNBytes(n)
			if len(b) != n {
				return fmt.Errorf("%s: got %d bytes to write", at, len(b))
			}
			fill(b)
			unread = append(unread, b...)
		case "W":
			n := min(op.N, room)
			b := s.WriteBytes()
			fill(b[:n])
			unread = append(unread, b[:n]...)
			s.AdvanceW(n)
		case "j":
			b := s.WriteBytes()
			for i := range b {
				b[i] = 0xEE
			}
		case "r":
			n := min(op.N, len(unread))
			b := s.ReadNBytes(n)
			if !bytes.Equal(b, unread[:n]) {
				return fmt.Errorf("%s: read %x, want %x", at, b, unread[:n])
			}
			out = append(out, handed{b, append([]byte(nil), b...)})
			unread = unread[n:]
			if n > 0 && grewWith > 0 {
				r.NonTrivial()
				grewWith -= n
			}
		case "R":
			n := min(op.N, len(unread))
			s.AdvanceR(n)
			unread = unread[n:]
			grewWith -= n
		case "g":
			s.Grow(op.N)
			if len(s.WriteBytes()) < op.N {
				return fmt.Errorf("%s: %d bytes free afterwards", at, len(s.WriteBytes()))
			}
			if op.N > room {
				r.Label("grown")
				grewWith = len(unread)
			}
		case "0":
			if err := stillIntact(at); err != nil {
				return err
			}
			out = nil
			s.Reset()
			unread = nil
			grewWith = 0
			if len(s.WriteBytes()) < c.Size {
				return fmt.Errorf("%s: only %d bytes free after reset", at, len(s.WriteBytes()))
			}
		}
		if s.Len() != len(unread) {
			return fmt.Errorf("%s: Len %d, want %d", at, s.Len(), len(unread))
		}
		if !bytes.Equal(s.ReadBytes(), unread) {
			return fmt.Errorf("%s: unread bytes %x, want %x", at, s.ReadBytes(), unread)
		}
	}
	// No free space may overlap what is unread or was handed out.
	for _, b := range [][]byte{s.WriteBytes()} {
		for i := range b {
			b[i] ^= 0xff
		}
	}
	if !bytes.Equal(s.ReadBytes(), unread) {
		return fmt.Errorf("free space overlaps the unread bytes: %x, want %x", s.ReadBytes(), unread)
	}
	return stillIntact("at the end")
}
