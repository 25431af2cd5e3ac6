package checks

import (
	"context"
	"fmt"
	"runtime"
	"sync"
	"time"
	"weak"

	"github.com/dropmorepackets/haproxy-go/peers"
	"github.com/dropmorepackets/haproxy-go/peers/sticktable"
	"github.com/dropmorepackets/haproxy-go/pkg/encoding"
	"github.com/dropmorepackets/haproxy-go/spop"
	"pgregory.net/rapid"

	"verif/harness/memnet"
	"verif/harness/pbt"
	"verif/harness/ref"
)

type p29Spop struct {
	Kinds  []p13Hostile
	Rounds int
	Conns  int // at the same time, per kind and round
	Hidden bool
	Busy   int `json:",omitempty"` // ms that handlers take
}

type p29Peers struct {
	Kinds  []p23Hostile
	Rounds int
	Conns  int
	Hidden bool
	Busy   int  `json:",omitempty"`
	Sends  bool // handlers send, also from a goroutine
	Shared bool // one handler for all
}

// p29Hidden makes the context package use a goroutine for every context
// derived from it, instead of noting it in a place that cannot be looked at.
type p29Hidden struct {
	context.Context
	done chan struct{}
}

func (h p29Hidden) Done() <-chan struct{} { return h.done }

func p29Base(hidden bool) (context.Context, func()) {
	ctx, cancel := context.WithCancel(context.Background())
	if !hidden {
		return ctx, cancel
	}
	h := p29Hidden{ctx, make(chan struct{})}
	return h, func() {
		cancel()
		close(h.done)
	}
}

func init() {
	pbt.Register(&pbt.Property{
		ID: "P29",
		Rule: "One agent, or peer, and hundreds of connections in rounds: 1-5 kinds of the hostile or ordinary streams of P13 and P23 (also bad and cut-off handshakes, panicking and busy handlers, failing writes, handlers that send), several of each at the same time, all ended by the remote. When everything has come to rest, each connection must be closed, the number of goroutines (including those of contexts derived from the base context) that of the beginning, and after garbage collection no more of the connections reachable than workers and queue have room for (peers: none, nor their handlers). " +
			"Non-trivial: a kind with messages behind a handshake.",
		Parts: []*pbt.Part{
			pbt.NewPart("spop", 400, func(t *rapid.T) p29Spop {
				c := p29Spop{Rounds: rapid.IntRange(1, 8).Draw(t, "rounds"), Conns: genCount(t, "conns", 1, 20, 600), Hidden: rapid.Bool().Draw(t, "hidden")}
				for n := rapid.IntRange(1, 5).Draw(t, "kinds"); n > 0; n-- {
					c.Kinds = append(c.Kinds, genP13Hostile(t))
				}
				if chance(t, "busy", 30) {
					c.Busy = pick(t, "for", 1, 20, 100_000)
				}
				return c
			}, p29RunSpop),
			pbt.NewPart("peers", 400, func(t *rapid.T) p29Peers {
				c := p29Peers{Rounds: rapid.IntRange(1, 5).Draw(t, "rounds"), Conns: genCount(t, "conns", 1, 10, 300), Hidden: rapid.Bool().Draw(t, "hidden"), Sends: rapid.Bool().Draw(t, "sends"), Shared: chance(t, "shared", 20)}
				for n := rapid.IntRange(1, 5).Draw(t, "kinds"); n > 0; n-- {
					c.Kinds = append(c.Kinds, genP23Hostile(t))
				}
				if chance(t, "busy", 30) {
					c.Busy = pick(t, "for", 1, 20, 7000)
				}
				return c
			}, p29RunPeers),
		},
	})
}

// p29Reachable counts the pointers still good after garbage collection.
func p29Reachable[T any](ps []weak.Pointer[T], limit int) int {
	n := 0
	for i := 0; i < 5; i++ {
		runtime.GC()
		n = 0
		for _, p := range ps {
			if p.Value() != nil {
				n++
			}
		}
		if n <= limit {
			break
		}
		rest(time.Second)
	}
	return n
}

// p29Round dials the connections of a round, feeds and ends them, and checks
// that they are closed.
func p29Round(l *memnet.Listener, kinds []p13Hostile, n int, over time.Duration, refs []weak.Pointer[memnet.Conn]) ([]weak.Pointer[memnet.Conn], error) {
	var conns []*memnet.Conn
	var wg sync.WaitGroup
	for range n {
		for _, k := range kinds {
			conn := l.Dial(memnet.Options{Yield: k.Yield, FailWrite: k.FailWrite, FailWriteAfter: k.FailAfter})
			conns = append(conns, conn)
			refs = append(refs, weak.Make(conn))
			wg.Add(1)
			go func() {
				defer wg.Done()
				time.Sleep(time.Duration(k.Start) * ms)
				feed(conn, k.Stream, k.Sizes, 0)
				end := k.End
				if end == "" {
					end = "eof"
					time.Sleep(time.Second)
				}
				endInput(conn, end)
			}()
		}
	}
	wg.Wait()
	rest(over)
	for i, conn := range conns {
		if !conn.Closed() {
			return refs, fmt.Errorf("connection %d (%s) is not closed after its end", i, trunc(kinds[i%len(kinds)]))
		}
	}
	return refs, nil
}

func p29RunSpop(r *pbt.R, c p29Spop) error {
	for i := range c.Kinds {
		c.Kinds[i].Stream = p13Sane(c.Kinds[i].Stream)
		r.NonTrivialIf(len(c.Kinds[i].Stream) > 150)
	}
	_, err := bubble(r, func() error {
		base, cancel := p29Base(c.Hidden)
		defer cancel()
		l := memnet.Listen()
		agent := &spop.Agent{BaseContext: base, Handler: spop.HandlerFunc(func(ctx context.Context, aw *encoding.ActionWriter, m *encoding.Message) {
			if c.Busy > 0 {
				time.Sleep(time.Duration(c.Busy) * ms)
			}
			p13Handle(ctx, aw, m)
		})}
		go func() { _ = agent.Serve(l) }()
		rest(0)
		before, _ := goroutines("")
		var refs []weak.Pointer[memnet.Conn]
		for range c.Rounds {
			var err error
			if refs, err = p29Round(l, c.Kinds, c.Conns, 1000*time.Hour, refs); err != nil {
				return err
			}
		}
		r.Count("connections", len(refs))
		if n, stacks := goroutines(""); n > before {
			return fmt.Errorf("%d goroutines are left after the end of %d connections, %d at the beginning: %s", n, len(refs), before, stacks)
		}
		limit := 4*runtime.NumCPU() + 8
		r.LabelIf(len(refs) > limit, "more connections than may be remembered")
		if n := p29Reachable(refs, limit); n > limit {
			return fmt.Errorf("%d of %d connections are still reachable after their end", n, len(refs))
		}
		return nil
	})
	return err
}

type p29Handler struct {
	busy  time.Duration
	sends bool
}

func (h *p29Handler) HandleHandshake(ctx context.Context, _ *peers.Handshake) {
	if !h.sends {
		return
	}
	w := peers.WriterFromContext(ctx)
	def := &sticktable.Definition{StickTableID: 1, Name: "t", KeyType: sticktable.KeyTypeSignedInteger, KeyLength: 4}
	k := sticktable.SignedIntegerKey(1)
	_ = w.SendTableDefinition(def)
	go func() {
		for w.SendEntry(&sticktable.EntryUpdate{StickTable: def, Key: &k}) == nil {
			time.Sleep(700 * ms)
		}
	}()
}

func (h *p29Handler) HandleUpdate(context.Context, *sticktable.EntryUpdate) { time.Sleep(h.busy) }
func (h *p29Handler) Close() error                                          { return nil }

func p29RunPeers(r *pbt.R, c p29Peers) error {
	var kinds []p13Hostile
	for _, k := range c.Kinds {
		b := k.Hello
		if len(b) == 0 {
			b = ref.Str(peHello)
			r.NonTrivialIf(len(k.Msgs) > 2)
		}
		for _, m := range k.Msgs {
			b = append(b, m...)
		}
		kinds = append(kinds, p13Hostile{Stream: b, Sizes: k.Sizes, Start: k.Start, End: k.End, FailWrite: k.FailWrite, FailAfter: k.FailAfter, Yield: k.Yield})
	}
	leaked, err := bubble(r, func() error {
		base, cancel := p29Base(c.Hidden)
		defer cancel()
		l := memnet.Listen()
		var mu sync.Mutex
		var handlers []weak.Pointer[p29Handler]
		peer := &peers.Peer{BaseContext: base}
		busy := time.Duration(c.Busy) * ms
		if c.Shared {
			peer.Handler = &p29Handler{busy, c.Sends}
		} else {
			peer.HandlerSource = func() peers.Handler {
				h := &p29Handler{busy, c.Sends}
				mu.Lock()
				defer mu.Unlock()
				handlers = append(handlers, weak.Make(h))
				return h
			}
		}
		go func() { _ = peer.Serve(l) }()
		rest(0)
		before, _ := goroutines("")
		var refs []weak.Pointer[memnet.Conn]
		for range c.Rounds {
			var err error
			if refs, err = p29Round(l, kinds, c.Conns, time.Hour, refs); err != nil {
				return err
			}
		}
		r.Count("connections", len(refs))
		if n, stacks := goroutines(""); n > before {
			return fmt.Errorf("%d goroutines are left after the end of %d sessions, %d at the beginning: %s", n, len(refs), before, stacks)
		}
		// A few that a stack may still hold.
		const limit = 4
		if n := p29Reachable(refs, limit); n > limit {
			return fmt.Errorf("%d of %d connections are still reachable after their end", n, len(refs))
		}
		mu.Lock()
		defer mu.Unlock()
		if n := p29Reachable(handlers, limit); n > limit {
			return fmt.Errorf("%d of %d handlers are still reachable after the end of their sessions", n, len(refs))
		}
		return nil
	})
	if err == nil && leaked {
		return fmt.Errorf("goroutines are left after the end")
	}
	return err
}
