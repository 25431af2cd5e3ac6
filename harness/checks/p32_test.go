package checks

import (
	"bytes"
	"context"
	"fmt"
	"io"
	"slices"
	"sync"
	"time"

	"github.com/dropmorepackets/haproxy-go/peers"
	"github.com/dropmorepackets/haproxy-go/peers/sticktable"
	"pgregory.net/rapid"

	"verif/harness/memnet"
	"verif/harness/pbt"
	"verif/harness/ref"
)

// How updates are forwarded.
const (
	fwdAtOnce  = iota // by the handler
	fwdQueued         // by a goroutine per receiver
	fwdBatched        // by a goroutine per receiver, what has come in as a batch
	fwdLater          // when all have come in
	nFwd
)

type p32Case struct {
	Sources   []p19Session
	Receivers []int // how each is forwarded to
	Keep      bool  // definitions are sent only if the table is another one
}

func init() {
	pbt.Register(&pbt.Property{
		ID: "P32",
		Rule: "1-3 peer sessions that send conforming histories as in P19 and 1-3 others to which the application forwards every update it receives, with the definition received with it: by the handler, by a goroutine, in batches, or when everything has been received; to several receivers at once. What the receivers get is decoded by the reference. " +
			"Non-trivial: at least two updates of different tables.",
		Parts: []*pbt.Part{
			pbt.NewPart("forward", 6000, func(t *rapid.T) p32Case {
				c := p32Case{Keep: rapid.Bool().Draw(t, "keep")}
				for n := pick(t, "sources", 1, 1, 2, 3); n > 0; n-- {
					s := p19Session{H: genHistory(t, 30, pick(t, "maxlen", 20, 300, 3000)), Sizes: genSizes(t, "sizes", 30), Yield: rapid.IntRange(0, 2).Draw(t, "yield")}
					for i := range s.H.Tables {
						name := s.H.Tables[i].Name
						s.H.Tables[i].Name = append(ref.Str{'0' + byte(n), '0' + byte(i)}, name[:min(len(name), 500)]...)
					}
					c.Sources = append(c.Sources, s)
				}
				for n := pick(t, "receivers", 1, 1, 2, 3); n > 0; n-- {
					c.Receivers = append(c.Receivers, rapid.IntRange(0, nFwd-1).Draw(t, "how"))
				}
				return c
			}, p32Run),
		},
	})
}

// p32Receiver forwards updates to a session.
type p32Receiver struct {
	how  int
	keep bool
	w    *peers.Writer

	mu    sync.Mutex
	last  *sticktable.Definition
	queue []*sticktable.EntryUpdate
	wake  chan struct{}
	err   error
}

// forward sends updates, each after its definition.
func (f *p32Receiver) forward(us []*sticktable.EntryUpdate, batch bool) {
	f.mu.Lock()
	defer f.mu.Unlock()
	for len(us) > 0 && f.err == nil {
		def := us[0].StickTable
		if f.last != def || !f.keep {
			if f.err = f.w.SendTableDefinition(def); f.err != nil {
				return
			}
			f.last = def
		}
		n := 1
		if batch {
			for n < len(us) && us[n].StickTable == def {
				n++
			}
			list := append([]*sticktable.EntryUpdate(nil), us[:n]...)
			f.err = f.w.SendEntries(list)
			if f.err == nil && !slices.Equal(list, us[:n]) {
				f.err = fmt.Errorf("SendEntries has changed the list it was given")
			}
		} else {
			f.err = f.w.SendEntry(us[0])
		}
		us = us[n:]
	}
}

// drain forwards what is in the queue.
func (f *p32Receiver) drain(batch bool) {
	f.mu.Lock()
	us := f.queue
	f.queue = nil
	f.mu.Unlock()
	f.forward(us, batch)
}

func (f *p32Receiver) put(u *sticktable.EntryUpdate) {
	if f.how == fwdAtOnce {
		f.forward([]*sticktable.EntryUpdate{u}, false)
		return
	}
	f.mu.Lock()
	f.queue = append(f.queue, u)
	f.mu.Unlock()
	if f.how != fwdLater {
		select {
		case f.wake <- struct{}{}:
		default:
		}
	}
}

func p32Run(r *pbt.R, c p32Case) error {
	_, err := bubble(r, func() error {
		w := newPeWorld()
		var fs []*p32Receiver
		for _, how := range c.Receivers {
			fs = append(fs, &p32Receiver{how: how, keep: c.Keep, wake: make(chan struct{}, 1)})
		}
		w.onHandshake = func(s *peSession, ctx context.Context, _ *peers.Handshake) {
			if s.id >= len(fs) {
				return
			}
			f := fs[s.id]
			f.w = peers.WriterFromContext(ctx)
			if f.how == fwdQueued || f.how == fwdBatched {
				go func() {
					for {
						select {
						case <-ctx.Done():
							return
						case <-f.wake:
							f.drain(f.how == fwdBatched)
						}
					}
				}()
			}
		}
		w.onUpdate = func(s *peSession, _ context.Context, n int) {
			s.w.mu.Lock()
			u := s.updates[n].u
			s.w.mu.Unlock()
			for _, f := range fs {
				f.put(u)
			}
		}
		w.serve()
		defer w.cancel()
		for range fs {
			w.dial(memnet.Options{}).Feed([]byte(peHello))
			rest(time.Millisecond)
		}
		var wants [][]sentUpdate
		for _, s := range c.Sources {
			conn := w.dial(memnet.Options{Yield: s.Yield})
			msgs, want, _ := s.H.encode()
			wants = append(wants, want)
			stream := []byte(peHello)
			for _, m := range msgs {
				stream = append(stream, m...)
			}
			conn.Feed(memnet.Split(stream, s.Sizes)...)
		}
		rest(time.Second)
		for _, f := range fs {
			if f.how == fwdLater {
				f.drain(len(c.Sources)%2 == 0)
			}
		}
		rest(time.Second)
		if err := w.err(); err != nil {
			return err
		}
		tables := map[string]bool{}
		for i, want := range wants {
			s := w.session(len(fs) + i)
			if s == nil {
				return fmt.Errorf("source %d has no session", i)
			}
			// also that forwarding has not changed the updates
			if err := s.sameUpdates(want); err != nil {
				return err
			}
			for _, u := range want {
				tables[string(u.Table.Name)] = true
				r.Count("updates", len(fs))
			}
		}
		r.NonTrivialIf(len(tables) > 1)
		for i, f := range fs {
			f.mu.Lock()
			err := f.err
			f.mu.Unlock()
			if err != nil {
				return fmt.Errorf("receiver %d: forwarding failed: %w", i, err)
			}
			r.Label(fmt.Sprintf("forwarding %d", f.how))
			if err := p32Received(w.conns[i].Output(), wants); err != nil {
				return fmt.Errorf("receiver %d: %w", i, err)
			}
			if w.conns[i].Closed() {
				return fmt.Errorf("the session of receiver %d is ended", i)
			}
		}
		for _, conn := range w.conns {
			conn.EndInput(io.EOF)
		}
		rest(time.Second)
		w.cancel()
		rest(time.Second)
		return w.err()
	})
	return err
}

// p32Received compares what a receiver was sent with what the sources sent:
// of each source all updates in order, of the right table, with new ids.
func p32Received(out []byte, wants [][]sentUpdate) error {
	ms, _, err := peOutput(out)
	if err != nil {
		return err
	}
	at := make([]int, len(wants))
	var table *ref.Table
	source := 0
	var lastID int64 = -1
	for _, m := range ms {
		if m.Class != ref.ClassTable {
			return fmt.Errorf("unexpected message %v", m)
		}
		cur := ref.Cursor{B: m.Data}
		if m.Type == ref.MsgDefinition {
			d := cur.Table()
			if cur.Err != nil || cur.Left() > 0 {
				return fmt.Errorf("broken definition %v (%v)", m, cur.Err)
			}
			if len(d.Name) < 2 || int(d.Name[0]-'0') < 1 || int(d.Name[0]-'0') > len(wants) {
				return fmt.Errorf("nobody has sent the definition %s", trunc(d))
			}
			table, source = &d, len(wants)-int(d.Name[0]-'0')
			continue
		}
		if m.Type != ref.MsgUpdate && m.Type != ref.MsgTimed {
			return fmt.Errorf("unexpected message %v", m)
		}
		if table == nil {
			return fmt.Errorf("an update before any definition")
		}
		u := cur.Update(*table, false, m.Type == ref.MsgTimed)
		if cur.Err != nil || cur.Left() > 0 {
			return fmt.Errorf("broken update %v (%v)", m, cur.Err)
		}
		if int64(u.ID) <= lastID {
			return fmt.Errorf("an update has id %d after %d", u.ID, lastID)
		}
		lastID = int64(u.ID)
		if at[source] >= len(wants[source]) {
			return fmt.Errorf("more updates of source %d than it has sent", source)
		}
		want := wants[source][at[source]]
		at[source]++
		if !sameTable(*table, want.Table) {
			return fmt.Errorf("update %d of source %d is for table %s, want %s", at[source]-1, source, trunc(*table), trunc(want.Table))
		}
		wu := want.U
		wu.ID, wu.Inc, u.Inc = u.ID, false, false
		if !sameUpdate(u, wu) || !bytes.Equal(u.Key, wu.Key) {
			return fmt.Errorf("update %d of source %d is %s, want %s", at[source]-1, source, trunc(u), trunc(wu))
		}
	}
	for i, n := range at {
		if n < len(wants[i]) {
			return fmt.Errorf("only %d of %d updates of source %d have arrived", n, len(wants[i]), i)
		}
	}
	return nil
}
