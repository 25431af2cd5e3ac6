package checks

import (
	"bytes"
	"fmt"
	"time"

	"pgregory.net/rapid"

	"verif/harness/memnet"
	"verif/harness/pbt"
	"verif/harness/ref"
)

type p26Case struct {
	Run       wRun
	FailWrite bool `json:",omitempty"`
	FailAfter int  `json:",omitempty"`
}

type p26Small struct {
	Table ref.Table
	U     ref.Update
}

func init() {
	pbt.Register(&pbt.Property{
		ID: "P26",
		Rule: "Part sends: as in P20 with up to 4 goroutines, but some items cannot be sent: keys, dictionary values and binary key lengths of 65 to 200 KB, address keys in tables with another key length, addresses of the wrong family or none, names of 4 to 70 KB; in some cases the connection fails after any number of bytes. Afterwards the remote asks for a synchronisation and waits for a heartbeat. Race detector. Part small: definitions and updates encoded into buffers of every length. " +
			"Non-trivial: a send fails, or one succeeds after the buffer was too small.",
		Parts: []*pbt.Part{
			pbt.NewPart("sends", 1500, func(t *rapid.T) p26Case {
				c := p26Case{Run: genWRun(t, 4, 8, pick(t, "max", 20, 20, 300), 8)}
				for _, l := range c.Run.Goroutines {
					for i := range l {
						if chance(t, "bad item", 40) {
							genBad(t, c.Run.Tables, &l[i])
						}
					}
				}
				if chance(t, "connection fails", 25) {
					c.FailWrite, c.Run.InUpdate = true, false
					c.FailAfter = 4 + rapid.IntRange(0, 1000).Draw(t, "after")
				}
				return c
			}, p26Run),
			pbt.NewPart("small", 3000, func(t *rapid.T) p26Small {
				d := genTable(t, 24)
				return p26Small{Table: d, U: genUpdate(t, d, 300)}
			}, p26RunSmall),
		},
	})
}

func p26Run(r *pbt.R, c p26Case) error {
	_, err := bubble(r, func() error {
		w := newPeWorld()
		defer w.cancel()
		conn, sends, stop := c.Run.run(w, memnet.Options{FailWrite: c.FailWrite, FailWriteAfter: c.FailAfter})
		defer stop()
		rest(time.Millisecond)
		if err := w.err(); err != nil {
			return err
		}
		for _, l := range sends {
			for _, s := range l {
				r.NonTrivialIf(s.err != nil)
			}
		}
		out := conn.Output()
		if conn.WriteFailed() {
			r.Label("the connection fails")
			ms, _, _ := ref.Msgs(out[len(peStatus):])
			ms, _ = peMsgs(ms)
			ms, _ = partials(ms)
			return wired(r, ms, sends, true)
		}
		// The last message may be incomplete here: what comes before the bad
		// entry of a batch is not necessarily sent at once.
		ms, left, err := ref.Msgs(out[len(peStatus):])
		if err != nil {
			return err
		}
		if len(left) > 0 {
			r.Label("part of a failed batch is sent at once")
			if err := failedBatch(sends); err != nil {
				return err
			}
		}
		ms, _ = peMsgs(ms)
		ms, before := partials(ms)
		if err := wired(r, ms, sends, false); err != nil {
			return err
		}
		if c.FailWrite {
			return nil // it would fail now
		}
		// The rest of the control messages, a request, and a heartbeat.
		rest(4 * time.Second)
		conn.Feed([]byte{ref.ClassControl, ref.CtlSyncReq})
		rest(3500 * time.Millisecond)
		ms, beats, err := peOutput(conn.Output())
		if err != nil {
			return err
		}
		// Nothing but what was sent is there, except entries of failed batches.
		ms, n := partials(ms)
		if err := wired(r, ms, sends, false); err != nil {
			return err
		}
		if n != c.Run.syncRequests()+1 || n <= before && beats == 0 {
			return fmt.Errorf("%d answers to %d synchronisation requests", n, c.Run.syncRequests()+1)
		}
		if beats == 0 {
			return fmt.Errorf("no heartbeat is sent any more")
		}
		if conn.Closed() {
			return fmt.Errorf("the session is ended")
		}
		w.cancel()
		rest(time.Second)
		return w.err()
	})
	return err
}

func failedBatch(sends [][]*wSend) error {
	for _, l := range sends {
		for _, s := range l {
			if s.err != nil && len(s.parts) > 1 {
				return nil
			}
		}
	}
	return fmt.Errorf("the last message sent is incomplete")
}

func p26RunSmall(r *pbt.R, c p26Small) error {
	def := libTable(c.Table)
	e := libUpdate(c.Table, def, c.U)
	for _, x := range []struct {
		what    string
		marshal func([]byte) (int, error)
		want    []byte
	}{
		{"definition", def.Marshal, ref.AppendTable(nil, c.Table)},
		{"update", e.Marshal, ref.AppendUpdate(nil, c.Table, padded(c.Table, c.U))},
	} {
		lens := []int{}
		for n := 0; n <= len(x.want); n++ {
			if n < 40 || n > len(x.want)-40 || n%17 == 0 {
				lens = append(lens, n)
			}
		}
		for _, n := range append(lens, len(x.want)+5) {
			buf, check := canaryBuf(n)
			got, err := x.marshal(buf[:n:n])
			if cerr := check(); cerr != nil {
				return fmt.Errorf("%s: %w", x.what, cerr)
			}
			switch {
			case n < len(x.want):
				r.NonTrivial()
				if err == nil {
					return fmt.Errorf("a %s of %d bytes is encoded into %d bytes without an error: %s", x.what, len(x.want), n, trunc(c))
				}
			case err != nil:
				return fmt.Errorf("a %s of %d bytes cannot be encoded into %d: %w", x.what, len(x.want), n, err)
			case got != len(x.want) || !bytes.Equal(buf[:got], x.want):
				return fmt.Errorf("a %s is encoded as %s, want %s", x.what, trunc(ref.Str(buf[:min(got, n)])), trunc(ref.Str(x.want)))
			}
		}
	}
	return nil
}
