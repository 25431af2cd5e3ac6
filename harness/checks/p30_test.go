package checks

import (
	"bytes"
	"context"
	"encoding/binary"
	"fmt"
	"runtime"
	"sync"
	"time"

	"github.com/dropmorepackets/haproxy-go/peers"
	"github.com/dropmorepackets/haproxy-go/peers/sticktable"
	"pgregory.net/rapid"

	"verif/harness/memnet"
	"verif/harness/pbt"
	"verif/harness/ref"
)

// Everything is sent in p30Windows windows of the same length, the first to
// warm up.
const p30Windows = 4

type p30Notify struct {
	N     spNotify
	Large bool `json:",omitempty"` // its ACK does not fit
}

type p30Conn struct {
	Yield    int
	Start    int // ms
	Gap      int `json:",omitempty"` // ms between rounds
	Notifies []p30Notify
}

type p30Spop struct {
	Conns  []p30Conn
	Rounds int // per window, how often the NOTIFYs of each connection are sent
}

type p30Session struct {
	H     peHistory
	Gap   int `json:",omitempty"`
	Sizes []int
	Sends int // entries sent in each round
	Batch int // the number of them in a batch
	Bad   bool
	Again bool // the definition is sent in each round
	Burst int  `json:",omitempty"` // further entries sent in the first round
	Flood int  `json:",omitempty"` // incremental updates received before the first round
}

type p30Peers struct {
	Sessions []p30Session
	Rounds   int
}

func genRounds(t *rapid.T) int {
	n := genCount(t, "nrounds", 100, 1000, 4000)
	if n > 1000 {
		return n
	}
	return pick(t, "rounds", 100, 300, 300, 1000)
}

func init() {
	pbt.Register(&pbt.Property{
		ID: "P30",
		Rule: "Part spop: 1-4 connections to an agent, each with 1-4 NOTIFYs as in P10, some of whose handlers panic or ask for an ACK that is too large, sent over and over, 400 to 4000 times with new stream and frame ids; every answer is compared with the model. Part peers: 1-3 sessions, each with a conforming history of up to 8 messages repeated that often, every update compared with what was sent, while a goroutine sends definitions, entries and batches, also failing ones, and up to 70000 at once; sometimes up to 70000 incremental updates arrive first; the output is decoded and compared. In both, after each quarter everything comes to rest, garbage is collected, and goroutines and live objects are counted; they must not grow from quarter to quarter. " +
			"Non-trivial: at least 1000 NOTIFYs, or updates and sends.",
		Parts: []*pbt.Part{
			pbt.NewPart("spop", 160, func(t *rapid.T) p30Spop {
				c := p30Spop{Rounds: genRounds(t)}
				for n := pick(t, "conns", 1, 1, 2, 4); n > 0; n-- {
					pc := p30Conn{Yield: rapid.IntRange(0, 1).Draw(t, "yield"), Start: rapid.IntRange(0, 20).Draw(t, "start"), Gap: pick(t, "gap", 0, 0, 0, 1, 60_000)}
					for k := rapid.IntRange(1, 4).Draw(t, "notifies"); k > 0; k-- {
						n := p30Notify{N: genNotify(t, 40)}
						if len(n.N.Msgs) > 0 && chance(t, "trouble", 25) {
							if rapid.Bool().Draw(t, "panics") {
								n.N.Msgs[rapid.IntRange(0, len(n.N.Msgs)-1).Draw(t, "which")].Panic = rapid.IntRange(1, 4).Draw(t, "panic")
							} else {
								n.Large = true
							}
						}
						if chance(t, "chunks", 20) {
							n.N.Sizes = genSizes(t, "sizes", 10)
						}
						pc.Notifies = append(pc.Notifies, n)
					}
					c.Conns = append(c.Conns, pc)
				}
				return c
			}, p30RunSpop),
			pbt.NewPart("peers", 160, func(t *rapid.T) p30Peers {
				c := p30Peers{Rounds: genRounds(t)}
				for n := pick(t, "sessions", 1, 1, 2, 3); n > 0; n-- {
					s := p30Session{
						H:     genHistory(t, 8, 40),
						Gap:   pick(t, "gap", 0, 0, 1, 700, 4500),
						Sizes: genSizes(t, "sizes", 10),
						Bad:   chance(t, "bad", 30),
						Again: rapid.Bool().Draw(t, "again"),
					}
					if chance(t, "sends", 60) {
						s.Sends = rapid.IntRange(1, 5).Draw(t, "nsends")
						s.Batch = rapid.IntRange(0, s.Sends).Draw(t, "batch")
					}
					if chance(t, "burst", 10) {
						s.Burst = pick(t, "nburst", 300, 5000, 70000)
					}
					if chance(t, "flood", 10) {
						s.Flood = pick(t, "nflood", 300, 5000, 70000)
					}
					// Rounds begin with a definition, so that their
					// updates are the same each time.
					s.H.Msgs = append([]peMsg{{Def: 1}}, s.H.Msgs...)
					c.Sessions = append(c.Sessions, s)
				}
				return c
			}, p30RunPeers),
		},
	})
}

// p30Usage is what is in use after garbage collection.
type p30Usage struct {
	goroutines     int
	stacks         string
	objects, small int // live objects; bytes in small ones
}

func p30Measure() (u p30Usage) {
	u.goroutines, u.stacks = goroutines("")
	for range 3 {
		runtime.GC()
	}
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	u.objects = int(m.HeapObjects)
	for _, s := range m.BySize {
		u.small += int(s.Size) * int(s.Mallocs-s.Frees)
	}
	return u
}

// p30Grown compares the usage after each window.
func p30Grown(us []p30Usage, rounds int) error {
	first, last := us[0], us[len(us)-1]
	if last.goroutines > first.goroutines {
		return fmt.Errorf("%d goroutines after %d rounds, %d after %d: %s", last.goroutines, rounds*len(us), first.goroutines, rounds, last.stacks)
	}
	grown := 1 << 60
	for i := 1; i < len(us); i++ {
		grown = min(grown, us[i].objects-us[i-1].objects)
	}
	if grown >= rounds/2 {
		return fmt.Errorf("at least %d more objects in use after every %d rounds", grown, rounds)
	}
	if n := last.small - first.small; n > 64<<10+16*rounds*(len(us)-1) {
		return fmt.Errorf("%d more bytes in use after %d rounds", n, rounds*(len(us)-1))
	}
	return nil
}

// p30Barrier lets several goroutines go through windows together.
type p30Barrier struct {
	mu     sync.Mutex
	cond   *sync.Cond
	window int
}

func (b *p30Barrier) await(window int) {
	b.mu.Lock()
	defer b.mu.Unlock()
	for b.window < window {
		b.cond.Wait()
	}
}

func (b *p30Barrier) open(window int) {
	b.mu.Lock()
	defer b.mu.Unlock()
	b.window = window
	b.cond.Broadcast()
}

func newP30Barrier() *p30Barrier {
	b := &p30Barrier{}
	b.cond = sync.NewCond(&b.mu)
	return b
}

func p30RunSpop(r *pbt.R, c p30Spop) error {
	total := 0
	for i := range c.Conns {
		c.Conns[i].Notifies = append([]p30Notify(nil), c.Conns[i].Notifies...)
		total += len(c.Conns[i].Notifies) * c.Rounds * p30Windows
	}
	r.Count("NOTIFYs", total)
	r.NonTrivialIf(total >= 1000)
	_, err := bubble(r, func() error {
		w := newSpWorld()
		w.brief = true
		w.serve()
		defer w.cancel()
		b := newP30Barrier()
		var wg sync.WaitGroup
		conns := make([]*memnet.Conn, len(c.Conns))
		for i, pc := range c.Conns {
			conn := w.l.Dial(memnet.Options{Yield: pc.Yield})
			conns[i] = conn
			wg.Add(1)
			go func() {
				defer wg.Done()
				time.Sleep(time.Duration(pc.Start) * ms)
				p30Client(w, b, i, conn, c.Rounds, pc)
			}()
		}
		var us []p30Usage
		for k := 1; k <= p30Windows; k++ {
			b.open(k)
			rest(10000 * time.Hour)
			if err := w.err(); err != nil {
				return err
			}
			us = append(us, p30Measure())
		}
		wg.Wait()
		for i, conn := range conns {
			if conn.Closed() {
				return fmt.Errorf("connection %d is closed by the agent although the exchange was in order", i)
			}
			if out := conn.Drain(); len(out) > 0 {
				return fmt.Errorf("connection %d was sent %s in the end", i, trunc(ref.Str(out)))
			}
		}
		w.mu.Lock()
		for i, pc := range c.Conns {
			for k, n := range pc.Notifies {
				after := false
				for j, m := range n.N.Msgs {
					name := spName(i, k, j, m.Tail)
					if got, want := w.calls[name], c.Rounds*p30Windows; got != want && !(after && got == 0) {
						w.mu.Unlock()
						return fmt.Errorf("%d of %d handler calls with message %s", got, want, trunc(ref.Str(name)))
					}
					after = after || m.Panic != 0
				}
			}
		}
		w.mu.Unlock()
		return p30Grown(us, c.Rounds)
	})
	return err
}

// p30Client sends the NOTIFYs of a connection over and over.
func p30Client(w *spWorld, b *p30Barrier, id int, conn *memnet.Conn, rounds int, pc p30Conn) {
	var ns []spNotify
	for _, n := range pc.Notifies {
		ns = append(ns, n.N)
	}
	size := uint64(needed(ns, id) + 100)
	for i, n := range pc.Notifies {
		if n.Large {
			m := &ns[i].Msgs[len(n.N.Msgs)-1]
			m.Ops = append(m.Ops[:len(m.Ops):len(m.Ops)], actionOp{A: ref.Action{Kind: ref.ActSet, Scope: 1, Name: ref.Str("large"), V: ref.Value{T: ref.TBinary, Bytes: ref.Str(make([]byte, size))}}})
		}
	}
	frames := make([]ref.Frame, len(ns))
	for i := range ns {
		frames[i] = w.script(id, i, &ns[i])
	}
	conn.Feed(ref.AppendFrame(nil, helloFrame(helloKVs(size))))
	if out, ok := conn.WaitOutput(frameCount(1)); !ok {
		w.fail("connection %d is closed instead of a handshake: %x", id, out)
		return
	}
	conn.Drain()
	for round := 0; round < rounds*p30Windows; round++ {
		b.await(round/rounds + 1)
		time.Sleep(time.Duration(pc.Gap) * ms)
		for i, n := range ns {
			f := frames[i]
			f.Stream += uint64(round)
			f.ID += 3 * uint64(round)
			n.Stream, n.Frame = f.Stream, f.ID
			fail := func(format string, args ...any) {
				w.fail("connection %d round %d NOTIFY %d: "+format, append([]any{id, round, i}, args...)...)
			}
			if !n.answered(size) {
				w.mu.Lock()
				for j, m := range n.Msgs {
					w.done[spName(id, i, j, m.Tail)] = false
				}
				w.mu.Unlock()
				feed(conn, ref.AppendFrame(nil, f), n.Sizes, n.Pause)
				w.await(id, i, n)
				time.Sleep(time.Millisecond)
				if out := conn.Drain(); len(out) > 0 {
					fail("answered with %s", trunc(ref.Str(out)))
					return
				}
				continue
			}
			feed(conn, ref.AppendFrame(nil, f), n.Sizes, n.Pause)
			if out, ok := conn.WaitOutput(frameCount(1)); !ok {
				fail("closed instead of an answer: %s", trunc(ref.Str(out)))
				return
			}
			fs, rest, err := ref.Frames(conn.Drain())
			if err == nil {
				err = checkAck(fs[0], n)
			}
			if err != nil || len(fs) > 1 || len(rest) > 0 {
				fail("%v, %d frames and %x", err, len(fs), rest)
				return
			}
		}
	}
}

// p30Handler compares updates as they come.
type p30Handler struct {
	w       *p30World
	id      int
	want    []string // of each round
	flood   int      // incremental updates expected first
	updates int
	writer  chan *peers.Writer
	closes  int
}

type p30World struct {
	mu   sync.Mutex
	errs []error
}

func (w *p30World) fail(format string, args ...any) {
	w.mu.Lock()
	defer w.mu.Unlock()
	if len(w.errs) < 10 {
		w.errs = append(w.errs, fmt.Errorf(format, args...))
	}
}

func (w *p30World) err() error {
	w.mu.Lock()
	defer w.mu.Unlock()
	if len(w.errs) > 0 {
		return w.errs[0]
	}
	return nil
}

func (h *p30Handler) HandleHandshake(ctx context.Context, _ *peers.Handshake) {
	h.writer <- peers.WriterFromContext(ctx)
}

func (h *p30Handler) HandleUpdate(ctx context.Context, u *sticktable.EntryUpdate) {
	if ctx.Err() != nil {
		h.w.fail("session %d: the context of an update is cancelled", h.id)
	}
	if n := h.updates + h.flood; h.updates < 0 {
		want := ref.Update{ID: p30FloodID + uint32(n), Inc: n > 0, Key: ref.Str(binary.BigEndian.AppendUint32(nil, uint32(n))), Data: []ref.Datum{{Int: 5}}}
		if got, want := showUpdate(u), shownAs(p30Table, want); got != want {
			h.w.fail("session %d: update %d is %s, want %s", h.id, n, trunc(got), trunc(want))
		}
		h.updates++
		return
	}
	if len(h.want) == 0 {
		h.w.fail("session %d: update that was not sent: %s", h.id, trunc(ref.Str(showUpdate(u))))
		return
	}
	if got, want := showUpdate(u), h.want[h.updates%len(h.want)]; got != want {
		h.w.fail("session %d: update %d is %s, want %s", h.id, h.updates, trunc(got), trunc(want))
	}
	h.updates++
}

func (h *p30Handler) Close() error {
	h.closes++
	return nil
}

func p30RunPeers(r *pbt.R, c p30Peers) error {
	total := 0
	for _, s := range c.Sessions {
		_, want, _ := s.H.encode()
		total += (len(want)+s.Sends)*c.Rounds*p30Windows + s.Burst + s.Flood
		r.LabelIf(s.Burst > 65536 || s.Flood > 65536, "more than 65536 at once")
	}
	r.Count("updates and sends", total)
	r.NonTrivialIf(total >= 1000)
	leaked, err := bubble(r, func() error {
		w := &p30World{}
		var mu sync.Mutex
		var handlers []*p30Handler
		l := memnet.Listen()
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		peer := &peers.Peer{BaseContext: ctx, HandlerSource: func() peers.Handler {
			mu.Lock()
			defer mu.Unlock()
			h := &p30Handler{w: w, id: len(handlers), writer: make(chan *peers.Writer, 1)}
			if h.id < len(c.Sessions) {
				h.flood = c.Sessions[h.id].Flood
				h.updates = -h.flood
				_, want, _ := c.Sessions[h.id].H.encode()
				for _, u := range want {
					h.want = append(h.want, shownAs(u.Table, u.U))
				}
			}
			handlers = append(handlers, h)
			return h
		}}
		go func() { _ = peer.Serve(l) }()
		b := newP30Barrier()
		var conns []*memnet.Conn
		for i, s := range c.Sessions {
			conn := l.Dial(memnet.Options{Yield: 1})
			conns = append(conns, conn)
			rest(0)
			conn.Feed([]byte(peHello))
			rest(0)
			mu.Lock()
			h := handlers[i]
			mu.Unlock()
			go p30Remote(w, b, i, conn, h, c.Rounds, s)
		}
		var us []p30Usage
		quiet := make(chan struct{})
		alive := sync.WaitGroup{}
		alive.Add(1)
		go func() { // the remotes are never silent for long
			defer alive.Done()
			for {
				select {
				case <-quiet:
					return
				case <-time.After(2 * time.Second):
					for _, conn := range conns {
						conn.Feed([]byte{ref.ClassControl, ref.CtlHeartbeat})
					}
				}
			}
		}()
		for k := 1; k <= p30Windows; k++ {
			b.open(k)
			rest(time.Duration(c.Rounds) * 5 * time.Second)
			if err := w.err(); err != nil {
				return err
			}
			us = append(us, p30Measure())
		}
		for i, conn := range conns {
			if conn.Closed() {
				return fmt.Errorf("session %d is closed although it was in order", i)
			}
			h := handlers[i]
			if want := len(h.want) * c.Rounds * p30Windows; h.updates != want {
				return fmt.Errorf("session %d: %d of %d updates reached the handler", i, h.updates, want)
			}
			if h.closes > 0 {
				return fmt.Errorf("session %d: its handler is closed", i)
			}
		}
		if err := p30Grown(us, c.Rounds); err != nil {
			return err
		}
		close(quiet)
		alive.Wait()
		cancel()
		rest(time.Hour)
		return w.err()
	})
	if err == nil && leaked {
		return fmt.Errorf("goroutines are left after the end")
	}
	return err
}

var p30Table = ref.Table{ID: 7, Name: ref.Str("sent"), KeyType: ref.KInt, KeyLen: 4, Types: []ref.TableType{{T: 2}}}

// p30FloodID is the id of the first update of a flood; the ids wrap.
const p30FloodID = 1<<32 - 1000

// p30Remote is the remote of a session, and what the application sends to it.
func p30Remote(w *p30World, b *p30Barrier, id int, conn *memnet.Conn, h *p30Handler, rounds int, s p30Session) {
	fail := func(format string, args ...any) {
		w.fail("session %d: "+format, append([]any{id}, args...)...)
	}
	var writer *peers.Writer
	select {
	case writer = <-h.writer:
	default:
		fail("the handshake is not handled")
		return
	}
	out := conn.Drain()
	if !bytes.HasPrefix(out, []byte(peStatus)) {
		fail("no status line but %s", trunc(ref.Str(out)))
		return
	}
	out = out[len(peStatus):]
	var stream []byte
	msgs, _, _ := s.H.encode()
	for _, m := range msgs {
		stream = append(stream, m...)
	}
	syncs := s.H.syncRequests()
	table := p30Table
	def := libTable(table)
	defMsg := ref.Msg{Class: ref.ClassTable, Type: ref.MsgDefinition, Data: ref.AppendTable(nil, table)}
	var ids uint32
	started := false
	for round := 0; round < rounds*p30Windows; round++ {
		b.await(round/rounds + 1)
		var want []ref.Msg
		if round == 0 && s.Flood > 0 {
			flood := ref.AppendMsg(nil, defMsg)
			for i := 0; i < s.Flood; i++ {
				u := ref.Update{ID: p30FloodID, Inc: i > 0, Key: ref.Str(binary.BigEndian.AppendUint32(nil, uint32(i))), Data: []ref.Datum{{Int: 5}}}
				flood = ref.AppendMsg(flood, ref.UpdateMsg(table, u))
			}
			conn.Feed(flood)
		}
		conn.Feed(memnet.Split(stream, s.Sizes)...)
		if s.Sends > 0 {
			if s.Again || round == 0 {
				if err := writer.SendTableDefinition(def); err != nil {
					fail("SendTableDefinition: %v", err)
				}
				want = append(want, defMsg)
			}
			if s.Bad {
				k := sticktable.StringKey(make([]byte, 1<<17))
				bad := &sticktable.EntryUpdate{StickTable: &sticktable.Definition{Name: "bad", KeyType: sticktable.KeyTypeString, KeyLength: 1 << 18}, Key: &k}
				if err := writer.SendEntry(bad); err == nil {
					fail("an entry of 128 KB is sent")
				}
			}
			for k := 0; round == 0 && k < s.Burst; k++ {
				u := ref.Update{Key: ref.Str(binary.BigEndian.AppendUint32(nil, uint32(k))), Data: []ref.Datum{{Int: 1}}}
				if err := writer.SendEntry(libUpdate(table, def, u)); err != nil {
					fail("SendEntry: %v", err)
				}
				want = append(want, ref.UpdateMsg(table, u))
			}
			var batch []*sticktable.EntryUpdate
			for k := 0; k < s.Sends; k++ {
				u := ref.Update{Key: ref.Str(binary.BigEndian.AppendUint32(nil, uint32(round*s.Sends+k))), Data: []ref.Datum{{Int: uint64(round)}}}
				e := libUpdate(table, def, u)
				want = append(want, ref.UpdateMsg(table, u))
				if k < s.Batch {
					batch = append(batch, e)
				} else if err := writer.SendEntry(e); err != nil {
					fail("SendEntry: %v", err)
				}
				if len(batch) == s.Batch && s.Batch > 0 {
					if err := writer.SendEntries(batch); err != nil {
						fail("SendEntries: %v", err)
					}
					batch = nil
				}
			}
		}
		time.Sleep(time.Duration(max(s.Gap, 1)) * ms)
		out = append(out, conn.Drain()...)
		all, rest, err := ref.Msgs(out)
		if err != nil {
			fail("round %d: output ends with %s (%v)", round, trunc(ref.Str(rest)), err)
			return
		}
		out = append([]byte(nil), rest...)
		ms, _ := peMsgs(all)
		replies := 0
		for _, m := range ms {
			if m.Class == ref.ClassControl && m.Type == ref.CtlSyncPartial {
				replies++
				continue
			}
			if len(want) == 0 {
				fail("round %d: unexpected message %v", round, m)
				return
			}
			e := want[0]
			want = want[1:]
			if m.Type != ref.MsgDefinition {
				if len(m.Data) < 4 {
					fail("round %d: message %v", round, m)
					return
				}
				n := binary.BigEndian.Uint32([]byte(m.Data))
				if started && n <= ids {
					fail("round %d: id %d after %d", round, n, ids)
					return
				}
				started, ids = true, n
				e.Data, m.Data = e.Data[4:], m.Data[4:]
			}
			if m.Class != e.Class || m.Type != e.Type || !bytes.Equal([]byte(m.Data), []byte(e.Data)) {
				fail("round %d: message %v, want %v", round, m, e)
				return
			}
		}
		if len(want) > 0 {
			fail("round %d: %v is not sent", round, want[0])
			return
		}
		if replies != syncs {
			fail("round %d: %d answers to %d synchronisation requests", round, replies, syncs)
			return
		}
	}
}
