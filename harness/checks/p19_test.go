package checks

import (
	"fmt"
	"io"
	"time"

	"pgregory.net/rapid"

	"verif/harness/memnet"
	"verif/harness/pbt"
	"verif/harness/ref"
)

type p19Session struct {
	H     peHistory
	Sizes []int `json:",omitempty"`
	Yield int   `json:",omitempty"`
}

type p19Case struct {
	Sessions []p19Session
	Func     bool `json:",omitempty"` // the handler is a function
}

func init() {
	pbt.Register(&pbt.Property{
		ID: "P19",
		Rule: "1-3 peer sessions at the same time, each a handshake and a conforming history of up to 40 messages over up to 4 tables: definitions and re-definitions of every key type and of up to 27 data types, full, timed and incremental updates (ids around the wrap), control messages and acknowledgements, in random chunks; a part with up to 70 tables and 400 messages, one with keys and dictionary values up to 16 MB, one with messages of chosen lengths up to 2 MB. The handler, sometimes a HandlerFunc, keeps every update; they are compared with what was sent when everything is over. " +
			"Non-trivial: an incremental update, or updates of two tables.",
		Parts: []*pbt.Part{
			pbt.NewPart("history", 5000, func(t *rapid.T) p19Case {
				c := p19Case{Func: chance(t, "func", 15)}
				for n := pick(t, "sessions", 1, 1, 2, 3); n > 0; n-- {
					maxLen := pick(t, "maxlen", 20, 300, 300, 20000)
					c.Sessions = append(c.Sessions, p19Session{H: genHistory(t, 40, maxLen), Sizes: genSizes(t, "sizes", 30), Yield: rapid.IntRange(0, 2).Draw(t, "yield")})
				}
				return c
			}, p19Run),
			pbt.NewPart("long", 150, func(t *rapid.T) p19Case {
				tables := pick(t, "tables", 1, 5, 17, 33, 70)
				return p19Case{Sessions: []p19Session{{H: genHistoryOf(t, tables, 400, 20), Sizes: genSizes(t, "sizes", 30)}}}
			}, p19Run),
			pbt.NewPart("lengths", 400, genP19Lens, p19RunLens),
			pbt.NewPart("large", 24, func(t *rapid.T) p19Large {
				c := p19Large{Table: genTable(t, 4), Others: genHistory(t, 5, 20)}
				c.Key, c.Dict, _ = genLarge(t, &c.Table)
				c.Key, c.Dict = min(c.Key, 1<<24+1), min(c.Dict, 1<<24+1)
				for n := rapid.IntRange(1, 4).Draw(t, "updates"); n > 0; n-- {
					c.Updates = append(c.Updates, padded(c.Table, genUpdate(t, c.Table, 20)))
					c.Which = append(c.Which, len(c.Which) == 0 || chance(t, "large", 30))
				}
				c.Updates[0].Inc = false
				c.Sizes = genSizes(t, "sizes", 60)
				return c
			}, p19RunLarge),
		},
	})
}

// p19Large is a history with a table that has large keys or values.
type p19Large struct {
	Others    peHistory
	Table     ref.Table
	Updates   []ref.Update
	Which     []bool // are large
	Key, Dict int
	Sizes     []int `json:",omitempty"`
}

// p19Lens is a history with messages of certain lengths.
type p19Lens struct {
	Table   ref.Table // with string keys
	Updates []ref.Update
	Lens    []int
	Sizes   []int `json:",omitempty"`
}

func genP19Lens(t *rapid.T) p19Lens {
	c := p19Lens{Table: genTable(t, 3), Sizes: genSizes(t, "sizes", 20)}
	c.Table.KeyType, c.Table.KeyLen = ref.KString, 32
	for n := rapid.IntRange(1, 4).Draw(t, "updates"); n > 0; n-- {
		u := genUpdate(t, c.Table, 20)
		u.Inc = u.Inc && len(c.Updates) > 0
		l, ok := dictNum(t, "length", 1, 1<<21)
		if !ok {
			l = uint64(genLen(t, "length", pick(t, "most", 300, 5000, 300000)))
		}
		c.Updates, c.Lens = append(c.Updates, u), append(c.Lens, int(l))
	}
	return c
}

func p19RunLens(r *pbt.R, c p19Lens) error {
	h := peHistory{Tables: []ref.Table{c.Table}, Msgs: []peMsg{{Def: 1}}}
	for i, u := range c.Updates {
		n := c.Lens[i]
		if u.Inc {
			n += 4
		}
		exactly(c.Table, &u, n)
		h.Msgs = append(h.Msgs, peMsg{U: &u})
	}
	r.NonTrivialIf(len(c.Updates) > 1)
	return p19Run(r, p19Case{Sessions: []p19Session{{H: h, Sizes: c.Sizes}}})
}

func p19RunLarge(r *pbt.R, c p19Large) error {
	h := c.Others
	for i, u := range c.Updates {
		if c.Which[i] || c.Table.KeyType == ref.KBinary {
			enlarge(&c.Table, &u, c.Key, c.Dict, 0)
		}
		c.Updates[i] = u
	}
	h.Tables = append(h.Tables[:len(h.Tables):len(h.Tables)], c.Table)
	h.Msgs = append(h.Msgs[:len(h.Msgs):len(h.Msgs)], peMsg{Def: len(h.Tables)})
	for i := range c.Updates {
		h.Msgs = append(h.Msgs, peMsg{U: &c.Updates[i]})
	}
	r.NonTrivial()
	return p19Run(r, p19Case{Sessions: []p19Session{{H: h, Sizes: c.Sizes}, {H: c.Others}}})
}

func p19Run(r *pbt.R, c p19Case) error {
	_, err := bubble(r, func() error {
		w := newPeWorld()
		if c.Func {
			r.Label("HandlerFunc")
			w.funcs = true
			if len(c.Sessions) == 1 {
				w.useFunc()
			}
		}
		w.serve()
		defer w.cancel()
		var wants [][]sentUpdate
		for _, s := range c.Sessions {
			conn := w.dial(memnet.Options{Yield: s.Yield})
			msgs, want, _ := s.H.encode()
			wants = append(wants, want)
			stream := []byte(peHello)
			tables := map[string]bool{}
			for _, m := range msgs {
				stream = append(stream, m...)
			}
			for _, u := range want {
				tables[string(u.Table.Name)] = true
				r.NonTrivialIf(u.U.Inc)
				r.Count("updates", 1)
			}
			r.NonTrivialIf(len(tables) > 1)
			conn.Feed(memnet.Split(stream, s.Sizes)...)
		}
		rest(time.Second)
		for i, want := range wants {
			s := w.session(i)
			if err := w.err(); err != nil {
				return err
			}
			if s == nil {
				return fmt.Errorf("session %d does not exist", i)
			}
			if err := s.sameUpdates(want); err != nil {
				return err
			}
			if w.conns[i].Closed() || s.closes > 0 {
				return fmt.Errorf("session %d is ended although the history conforms", i)
			}
			if err := onlyPartials(w.conns[i].Output(), c.Sessions[i].H.syncRequests()); err != nil {
				return fmt.Errorf("session %d: %w", i, err)
			}
			w.conns[i].EndInput(io.EOF)
		}
		rest(time.Second)
		for i, want := range wants {
			if err := w.session(i).sameUpdates(want); err != nil {
				return err
			}
		}
		w.cancel()
		rest(time.Second)
		return w.err()
	})
	return err
}
