package checks

import (
	"fmt"
	"io"
	"time"

	"pgregory.net/rapid"

	"verif/harness/memnet"
	"verif/harness/pbt"
)

type p10Conn struct {
	Extra    int // by how much max-frame-size exceeds what is needed
	Yield    int
	ReadMax  int   `json:",omitempty"`
	Start    int   `json:",omitempty"` // ms
	Stall    int   `json:",omitempty"` // ms that each write takes
	Hello    []int `json:",omitempty"`
	Merge    bool  `json:",omitempty"`
	Notifies []spNotify
}

type p10Case struct{ Conns []p10Conn }

func genP10Conn(t *rapid.T, maxNotifies, maxLen int) p10Conn {
	c := p10Conn{
		Extra: pick(t, "extra", 0, 1, 1000, 20000),
		Yield: rapid.IntRange(0, 3).Draw(t, "yield"),
		Merge: chance(t, "merge", 20),
	}
	if chance(t, "late", 20) {
		c.Start = rapid.IntRange(1, 40).Draw(t, "start")
	}
	if chance(t, "stalls", 10) {
		c.Stall = pick(t, "stall", 1, 10, 300, 1000)
	}
	for n := genCount(t, "nnotifies", 0, maxNotifies, countOf(maxLen, 2000)); n > 0; n-- {
		c.Notifies = append(c.Notifies, genNotify(t, maxLen))
	}
	return c
}

// runP10Conns starts a client for each, numbered from the given id, and returns
// them.
func runP10Conns(w *spWorld, conns []p10Conn, from int) []*spClient {
	var cls []*spClient
	for i, pc := range conns {
		i += from
		cl := &spClient{
			id:       i,
			c:        w.l.Dial(memnet.Options{Yield: pc.Yield, ReadMax: pc.ReadMax, Stall: time.Duration(pc.Stall) * time.Millisecond}),
			size:     uint64(needed(pc.Notifies, i) + pc.Extra),
			notifies: pc.Notifies,
			hello:    pc.Hello,
			merge:    pc.Merge,
		}
		cls = append(cls, cl)
		go func() {
			time.Sleep(time.Duration(pc.Start) * time.Millisecond)
			cl.run(w)
		}()
	}
	return cls
}

func init() {
	pbt.Register(&pbt.Property{
		ID: "P10",
		Rule: "1-24 connections to one agent at the same time, each sending a HELLO and up to 5 NOTIFYs (0-3 messages with 0-4 arguments of every type), the next one as soon as the last is answered; unique message names tell the handler what to expect and do (read some arguments, wait or yield, copy arguments into actions, set and unset variables, fail a call); goroutines yield around every read and write, some remotes take up to a second for every write, and in some cases one handler takes up to months; race detector. " +
			"Non-trivial: at least two connections that send NOTIFYs with messages.",
		Parts: []*pbt.Part{
			pbt.NewPart("concurrent", 1600, func(t *rapid.T) p10Case {
				var c p10Case
				n := pick(t, "conns", 1, 2, 3, 5, 8, 16, 24, genCount(t, "nconns", 1, 24, 300))
				max := pick(t, "maxlen", 12, 12, 300, 3000)
				for i := 0; i < n; i++ {
					c.Conns = append(c.Conns, genP10Conn(t, 5, max))
				}
				if chance(t, "slow", 5) {
					// One handler takes very long.
					var all []*spMsg
					for _, pc := range c.Conns {
						for _, n := range pc.Notifies {
							for j := range n.Msgs {
								all = append(all, &n.Msgs[j])
							}
						}
					}
					if len(all) > 0 {
						all[rapid.IntRange(0, len(all)-1).Draw(t, "which")].Sleep = 1000 * pick(t, "seconds", 4, 12, 40, 100, 1000, 4000, 100000, 10000000)
					}
				}
				return c
			}, p10Run),
		},
	})
}

func p10Run(r *pbt.R, c p10Case) error {
	busy := 0
	for _, pc := range c.Conns {
		for _, n := range pc.Notifies {
			if len(n.Msgs) > 0 {
				busy++
				break
			}
		}
		r.Count("NOTIFYs", len(pc.Notifies))
	}
	r.NonTrivialIf(busy > 1)
	r.Label(fmt.Sprintf("%d connections", len(c.Conns)))
	_, err := bubble(r, func() error {
		w := newSpWorld()
		w.serve()
		cls := runP10Conns(w, c.Conns, 0)
		rest(3000 * time.Hour)
		defer w.cancel()
		for _, cl := range cls {
			if err := cl.settled(w); err != nil {
				return err
			}
		}
		for _, cl := range cls {
			cl.c.EndInput(io.EOF)
		}
		rest(time.Hour)
		return w.err()
	})
	return err
}
