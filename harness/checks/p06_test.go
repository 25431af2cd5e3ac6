package checks

import (
	"bytes"
	"fmt"

	"github.com/dropmorepackets/haproxy-go/pkg/encoding"
	"pgregory.net/rapid"

	"verif/harness/pbt"
	"verif/harness/ref"
)

type p06KV struct {
	In    ref.Str
	Count int
}

func init() {
	pbt.Register(&pbt.Property{
		ID: "P06",
		Rule: "entries: random bytes, or an encoding of 0-5 entries with up to three mutations (truncated, bytes changed, flipped, removed, inserted, huge integers put in), scanned with a declared count from 0 to beyond what is there or without one. messages: the same for payloads of 0-4 messages. The reference decoder says what each step must deliver; integers beyond 64 bits are only checked for safety. " +
			"Non-trivial: the reference finds the input malformed after delivering at least one entry or message, or malformed by truncation.",
		Parts: []*pbt.Part{
			pbt.NewPart("entries", 150000, func(t *rapid.T) p06KV {
				var c p06KV
				n := rapid.IntRange(0, 5).Draw(t, "n")
				if chance(t, "random", 15) {
					c.In = genBytes(t, "in", rapid.IntRange(0, 40).Draw(t, "nin"))
				} else {
					var kvs []ref.KV
					for i := 0; i < n; i++ {
						kvs = append(kvs, genKV(t, 40))
					}
					c.In = mutate(t, ref.AppendKVs(nil, kvs))
				}
				c.Count = pick(t, "count", n, n, n, -1, -1, 0, n+1, n+rapid.IntRange(0, 255).Draw(t, "more"), max(n-1, 0))
				return c
			}, p06RunKV),
			pbt.NewPart("messages", 100000, func(t *rapid.T) ref.Str {
				if chance(t, "random", 15) {
					return genBytes(t, "in", rapid.IntRange(0, 60).Draw(t, "nin"))
				}
				var b []byte
				for n := genCount(t, "nmessages", 0, 4, 300); n > 0; n-- {
					b = ref.AppendMessage(b, genMessage(t, 3, 30))
				}
				return mutate(t, b)
			}, p06RunMessages),
		},
	})
}

// inside tells that b could have come from in.
func inside(in, b []byte) bool { return len(b) == 0 || bytes.Contains(in, b) }

// scanEntries scans with s, whose input the cursor is at, and compares. It
// returns whether the input was good to the end.
func scanEntries(s *encoding.KVScanner, c *ref.Cursor, in []byte, count int) (delivered int, good bool, err error) {
	e := &encoding.KVEntry{}
	for i := 0; ; i++ {
		if i > len(in)+1 {
			return delivered, false, fmt.Errorf("%d entries from %d bytes", i, len(in))
		}
		atEnd := count == i || (count < 0 && c.Left() == 0)
		var want ref.KV
		if !atEnd {
			want = c.KV()
		}
		got := s.Next(e)
		if got && (!inside(in, e.NameBytes()) || !inside(in, e.ValueBytes())) {
			return delivered, false, fmt.Errorf("entry %d is not part of the input: %x %x", i, e.NameBytes(), e.ValueBytes())
		}
		switch {
		case c.Err == ref.ErrUnspecified:
			for j := 0; got && j <= len(in)+1; j++ {
				got = s.Next(e)
				if got && (!inside(in, e.NameBytes()) || !inside(in, e.ValueBytes())) {
					return delivered, false, fmt.Errorf("entry %d is not part of the input: %x %x", i, e.NameBytes(), e.ValueBytes())
				}
			}
			if got {
				return delivered, false, fmt.Errorf("scanning does not end")
			}
			return delivered, false, nil
		case atEnd:
			if got {
				return delivered, false, fmt.Errorf("an entry %x after the last one (%d)", e.NameBytes(), i)
			}
			if s.Error() != nil {
				return delivered, false, fmt.Errorf("error after all %d entries: %w", i, s.Error())
			}
			return delivered, true, nil
		case c.Err != nil:
			for j := 0; j < 4; j++ {
				if got {
					return delivered, false, fmt.Errorf("entry %d is malformed (%v) but delivered as %x %d %x", i, c.Err, e.NameBytes(), e.Type(), e.ValueBytes())
				}
				if s.Error() == nil {
					return delivered, false, fmt.Errorf("entry %d is malformed (%v) but no error is reported when asked for the %d. time", i, c.Err, j+1)
				}
				got = s.Next(e)
			}
			if s.Discard() == nil {
				return delivered, false, fmt.Errorf("entry %d is malformed (%v) but discarding it reports no error", i, c.Err)
			}
			return delivered, false, nil
		case !got:
			return delivered, false, fmt.Errorf("entry %d (%s) is missing: %v", i, trunc(want), s.Error())
		}
		if want.V.T == ref.TInt32 && want.V.Int != uint64(int64(int32(want.V.Int))) ||
			want.V.T == ref.TUInt32 && want.V.Int>>32 != 0 {
			// A number that does not fit its type: its value is open.
			if !bytes.Equal(e.NameBytes(), want.Name) || int(e.Type()) != want.V.T {
				return delivered, false, fmt.Errorf("entry %d is %x of type %d, want %s", i, e.NameBytes(), e.Type(), trunc(want))
			}
		} else if err := entryIs(e, want); err != nil {
			return delivered, false, fmt.Errorf("entry %d: %w", i, err)
		}
		delivered++
	}
}

func p06RunKV(r *pbt.R, c p06KV) error {
	in := append([]byte(nil), c.In...)
	in = in[:len(in):len(in)]
	cur := &ref.Cursor{B: c.In}
	n, good, err := scanEntries(encoding.NewKVScanner(in, c.Count), cur, c.In, c.Count)
	r.NonTrivialIf(!good && (n > 0 || cur.Err == ref.ErrShort))
	r.LabelIf(cur.Err == ref.ErrShort, "truncated")
	r.LabelIf(cur.Err == ref.ErrInvalid, "unknown type")
	r.LabelIf(cur.Err == ref.ErrUnspecified, "over-long integer")
	r.LabelIf(good, "well-formed")
	if err == nil && !bytes.Equal(in, c.In) {
		return fmt.Errorf("scanning changed the input")
	}
	return err
}

func p06RunMessages(r *pbt.R, in ref.Str) error {
	s := encoding.NewMessageScanner(append([]byte(nil), in...))
	m := &encoding.Message{}
	cur := &ref.Cursor{B: in}
	for i := 0; ; i++ {
		atEnd := cur.Left() == 0
		var name []byte
		var count byte
		if !atEnd {
			name = cur.LenBytes()
			count = cur.Byte()
		}
		got := s.Next(m)
		switch {
		case cur.Err == ref.ErrUnspecified:
			r.Label("over-long integer")
			return drainMessages(s, m, got, in)
		case atEnd:
			r.Label("well-formed")
			if got {
				return fmt.Errorf("a message %x after the last one (%d)", m.NameBytes(), i)
			}
			if s.Error() != nil {
				return fmt.Errorf("error after all %d messages: %w", i, s.Error())
			}
			return nil
		case cur.Err != nil:
			r.NonTrivial()
			r.Label("truncated message")
			for j := 0; j < 4; j++ {
				if got {
					return fmt.Errorf("message %d is malformed but delivered as %x", i, m.NameBytes())
				}
				if s.Error() == nil {
					return fmt.Errorf("message %d is malformed but no error is reported when asked for the %d. time", i, j+1)
				}
				got = s.Next(m)
			}
			return nil
		case !got:
			return fmt.Errorf("message %d (%x, %d arguments) is missing: %v", i, name, count, s.Error())
		}
		if !bytes.Equal(m.NameBytes(), name) {
			return fmt.Errorf("message %d is named %x, want %x", i, m.NameBytes(), name)
		}
		_, good, err := scanEntries(m.KV, cur, in, int(count))
		if err != nil {
			return fmt.Errorf("message %d: %w", i, err)
		}
		if !good {
			r.NonTrivial()
			r.Label("malformed argument")
			return drainMessages(s, m, true, in)
		}
	}
}

// drainMessages goes on after an error, as a careless consumer would.
func drainMessages(s *encoding.MessageScanner, m *encoding.Message, got bool, in []byte) error {
	for i := 0; got; i++ {
		if i > len(in)+1 {
			return fmt.Errorf("scanning messages does not end")
		}
		if !inside(in, m.NameBytes()) {
			return fmt.Errorf("message name %x is not part of the input", m.NameBytes())
		}
		_ = m.KV.Discard()
		got = s.Next(m)
	}
	return nil
}
