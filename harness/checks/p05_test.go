package checks

import (
	"bytes"
	"fmt"

	"github.com/dropmorepackets/haproxy-go/pkg/encoding"
	"pgregory.net/rapid"

	"verif/harness/pbt"
	"verif/harness/ref"
)

type p05Message struct {
	M ref.Message
	// Read is how many arguments are read before the rest is discarded; one
	// more than there are means reading past the end.
	Read int
}

type p05Case struct {
	Pooled   bool
	Messages []p05Message
}

func init() {
	pbt.Register(&pbt.Property{
		ID: "P05",
		Rule: "0-6 messages (arbitrary names, 0-6 arguments of any type, rarely up to 255) in one payload; of each message a generated number of arguments is read and compared, between none and past the end, then the rest discarded. " +
			"Non-trivial: at least two messages, one but the last having arguments left to discard.",
		Parts: []*pbt.Part{
			pbt.NewPart("messages", 100000, func(t *rapid.T) p05Case {
				c := p05Case{Pooled: rapid.Bool().Draw(t, "pooled")}
				for n := genCount(t, "nmessages", 0, 6, 1000); n > 0; n-- {
					max := 12
					if chance(t, "long", 5) {
						max = pick(t, "maxlen", 2400, 2400, 70000)
					}
					m := genMessage(t, 6, max)
					if chance(t, "many", 2) {
						m.Args = nil
						for i := pick(t, "args", 128, 127, 129, 255); i > 0; i-- {
							m.Args = append(m.Args, ref.KV{V: ref.Value{T: ref.TBool, Bool: i%2 == 0}})
						}
					}
					c.Messages = append(c.Messages, p05Message{m, rapid.IntRange(0, len(m.Args)+1).Draw(t, "read")})
				}
				return c
			}, p05Run),
		},
	})
}

func p05Run(r *pbt.R, c p05Case) error {
	var payload []byte
	for i, m := range c.Messages {
		payload = ref.AppendMessage(payload, m.M)
		if i < len(c.Messages)-1 && m.Read < len(m.M.Args) {
			r.NonTrivial()
		}
		r.LabelIf(len(m.M.Args) == 0, "message without arguments")
	}
	kept := append([]byte(nil), payload...)

	var s *encoding.MessageScanner
	var m *encoding.Message
	if c.Pooled {
		s, m = encoding.AcquireMessageScanner(payload), encoding.AcquireMessage()
		defer encoding.ReleaseMessageScanner(s)
		defer encoding.ReleaseMessage(m)
	} else {
		s, m = encoding.NewMessageScanner(payload), &encoding.Message{}
	}
	e := &encoding.KVEntry{}
	for i, want := range c.Messages {
		if !s.Next(m) {
			return fmt.Errorf("message %d of %d is missing: %v", i, len(c.Messages), s.Error())
		}
		if !bytes.Equal(m.NameBytes(), want.M.Name) {
			return fmt.Errorf("message %d is named %s, want %s", i, trunc(ref.Str(m.NameBytes())), trunc(want.M.Name))
		}
		for j := 0; j < want.Read; j++ {
			got := m.KV.Next(e)
			if j >= len(want.M.Args) {
				if got {
					return fmt.Errorf("message %d has an argument %s after its %d declared ones", i, trunc(ref.Str(e.NameBytes())), j)
				}
				break
			}
			if !got {
				return fmt.Errorf("message %d: argument %d of %d is missing: %v", i, j, len(want.M.Args), m.KV.Error())
			}
			if err := entryIs(e, want.M.Args[j]); err != nil {
				return fmt.Errorf("message %d argument %d: %w", i, j, err)
			}
		}
		if err := m.KV.Error(); err != nil {
			return fmt.Errorf("message %d after %d of %d arguments: %w", i, want.Read, len(want.M.Args), err)
		}
		if err := m.KV.Discard(); err != nil {
			return fmt.Errorf("discarding the rest of message %d after %d of %d arguments: %w", i, want.Read, len(want.M.Args), err)
		}
		if m.KV.Next(e) {
			return fmt.Errorf("message %d has an argument after its rest was discarded", i)
		}
	}
	for i := 0; i < 2; i++ {
		if s.Next(m) {
			return fmt.Errorf("a message %s after the %d sent", trunc(ref.Str(m.NameBytes())), len(c.Messages))
		}
		if err := s.Error(); err != nil {
			return fmt.Errorf("at the end of %d messages: %w", len(c.Messages), err)
		}
	}
	if !bytes.Equal(payload, kept) {
		return fmt.Errorf("scanning changed the payload")
	}
	return nil
}
