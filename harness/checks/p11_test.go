package checks

import (
	"bytes"
	"context"
	"fmt"
	"io"
	"runtime"
	"slices"
	"testing/synctest"
	"time"

	"github.com/dropmorepackets/haproxy-go/pkg/encoding"
	"pgregory.net/rapid"

	"verif/harness/memnet"
	"verif/harness/pbt"
	"verif/harness/ref"
)

// p11Op: "send" a NOTIFY with Msgs messages on N idle connections, "release"
// the At-th of the waiting handlers, N times over, "drop" a connection, "wait"
// for N seconds.
type p11Op struct {
	Op   string
	N    int `json:",omitempty"`
	At   int `json:",omitempty"`
	Msgs int `json:",omitempty"`
}

type p11Case struct {
	Conns int
	Yield int
	Ops   []p11Op
}

func init() {
	pbt.Register(&pbt.Property{
		ID: "P11",
		Rule: "Histories over up to 72, rarely 1030, connections to one agent whose handlers wait until they are released: up to 30 steps that send NOTIFYs (1-3 messages) on many idle connections at once, release waiting handlers in any order, drop a connection, or let up to months pass; after each step, once everything has come to rest, as many handlers must be running as there are unfinished NOTIFYs or as ever ran at once; in the end all are released. A second part has up to 48 connections that each send up to 60 NOTIFYs one after the other as fast as they are answered. In a third, all of up to 32 connections have a NOTIFY outstanding all the time, and none may wait while 3 times as many others are handled. Goroutines yield around reads and writes; race detector. " +
			"Non-trivial: more NOTIFYs outstanding at once than the workers and their queue hold.",
		Parts: []*pbt.Part{
			pbt.NewPart("bursts", 1500, func(t *rapid.T) p11Case {
				ncpu := runtime.NumCPU()
				c := p11Case{Conns: pick(t, "conns", 2, ncpu, 3*ncpu, 3*ncpu+1, 4*ncpu, 9*ncpu), Yield: rapid.IntRange(0, 3).Draw(t, "yield")}
				if n := genCount(t, "nconns", 0, 72, 1100); n > 72 {
					c.Conns = n
				}
				if chance(t, "very many", 2) {
					c.Conns = pick(t, "conns", 300, 520, 1030)
				}
				for n := rapid.IntRange(1, 30).Draw(t, "nops"); n > 0; n-- {
					var op p11Op
					switch rapid.IntRange(0, 10).Draw(t, "op") {
					case 0, 1, 2:
						op = p11Op{Op: "send", N: pick(t, "n", 1, 2, c.Conns/2, c.Conns, c.Conns), Msgs: pick(t, "msgs", 1, 1, 2, 3)}
					case 10:
						op = p11Op{Op: "wait", N: pick(t, "seconds", 1, 10, 60, 600, 3600, 100000, 10000000)}
					case 9:
						op = p11Op{Op: "drop", At: rapid.IntRange(0, c.Conns-1).Draw(t, "at")}
					default:
						op = p11Op{Op: "release", N: pick(t, "n", 1, 1, 2, 5, 20, 100), At: rapid.IntRange(0, 3*ncpu).Draw(t, "at")}
					}
					c.Ops = append(c.Ops, op)
				}
				return c
			}, p11Run),
			pbt.NewPart("churn", 150, func(t *rapid.T) p11Churn {
				ncpu := runtime.NumCPU()
				return p11Churn{
					Conns: pick(t, "conns", 2, ncpu, ncpu+1, 2*ncpu, 3*ncpu, 3*ncpu+2, 6*ncpu),
					Each:  genCount(t, "each", 1, 60, 1000),
					Msgs:  pick(t, "msgs", 0, 1, 1, 3),
					Spin:  rapid.IntRange(0, 3).Draw(t, "spin"),
					Yield: rapid.IntRange(0, 3).Draw(t, "yield"),
				}
			}, p11RunChurn),
			pbt.NewPart("fair", 60, func(t *rapid.T) p11Fair {
				ncpu := runtime.NumCPU()
				return p11Fair{
					Conns:   pick(t, "conns", ncpu+2, 2*ncpu, 3*ncpu, 3*ncpu+1, 4*ncpu),
					Rounds:  rapid.IntRange(1, 8).Draw(t, "rounds"),
					Release: rapid.SliceOfN(rapid.IntRange(0, ncpu-1), 1, 8).Draw(t, "release"),
				}
			}, p11RunFair),
		},
	})
}

// p11Fair has connections that all have a NOTIFY outstanding all the time: one
// handler after the other is released, the Release-th of those running, and
// its connection sends another NOTIFY at once.
type p11Fair struct {
	Conns, Rounds int // rounds of as many as there are connections
	Release       []int
}

func p11RunFair(r *pbt.R, c p11Fair) error {
	_, err := bubble(r, func() error {
		w := newSpWorld()
		var waiting []p11Waiting
		w.other = func(_ context.Context, aw *encoding.ActionWriter, m *encoding.Message) {
			ch := make(chan struct{})
			w.mu.Lock()
			waiting = append(waiting, p11Waiting{string(m.NameBytes()), ch})
			w.mu.Unlock()
			<-ch
		}
		w.serve()
		defer w.cancel()
		release := func(at int) (name string) {
			w.mu.Lock()
			defer w.mu.Unlock()
			if len(waiting) > 0 {
				at %= len(waiting)
				name = waiting[at].name
				close(waiting[at].ch)
				waiting = slices.Delete(waiting, at, at+1)
			}
			return name
		}
		defer func() {
			for release(0) != "" {
				synctest.Wait()
			}
		}()
		conns := make([]*memnet.Conn, c.Conns)
		sent := map[string]int{} // when, of those whose handler is not running yet
		serial := make([]int, c.Conns)
		notify := func(i, step int) {
			serial[i]++
			name := p11Name(i, serial[i], 0)
			sent[name] = step
			conns[i].Feed(ref.AppendFrame(nil, ref.Frame{Type: ref.FNotify, Flags: ref.FlagFin, Stream: uint64(i), ID: uint64(serial[i]), Payload: ref.AppendMessage(nil, ref.Message{Name: ref.Str(name)})}))
		}
		for i := range conns {
			conns[i] = w.l.Dial(memnet.Options{})
			conns[i].Feed(ref.AppendFrame(nil, helloFrame(helloKVs(16380))))
			rest(time.Millisecond)
			notify(i, 0)
		}
		owner := func(name string) int {
			for i := range conns {
				if name == p11Name(i, serial[i], 0) {
					return i
				}
			}
			return -1
		}
		r.NonTrivialIf(c.Conns > runtime.NumCPU() && c.Rounds > 3)
		for step := 1; step <= c.Rounds*c.Conns+3*c.Conns; step++ {
			synctest.Wait()
			name := release(c.Release[step%len(c.Release)])
			i := owner(name)
			if i < 0 {
				return fmt.Errorf("step %d: the handler of %q was running, but %d NOTIFYs are unanswered", step, name, c.Conns)
			}
			synctest.Wait()
			notify(i, step)
			synctest.Wait()
			w.mu.Lock()
			for _, x := range waiting {
				delete(sent, x.name)
			}
			delete(sent, name)
			w.mu.Unlock()
			for name, at := range sent {
				// It is the turn of each after all others, at most.
				if step-at > 3*c.Conns {
					return fmt.Errorf("step %d: message %s waits since step %d, although %d handlers have returned since then", step, name, at, step-at)
				}
			}
		}
		r.Count("NOTIFYs", c.Rounds*c.Conns)
		return w.err()
	})
	return err
}

// p11Churn has connections that each send one NOTIFY after the other as fast as
// they are answered, so that the queue is full and empty by turns.
type p11Churn struct {
	Conns, Each, Msgs int
	Spin, Yield       int // times the processor is given up in handlers, and around reads and writes
}

func p11RunChurn(r *pbt.R, c p11Churn) error {
	_, err := bubble(r, func() error {
		w := newSpWorld()
		calls := map[string]int{}
		w.other = func(_ context.Context, aw *encoding.ActionWriter, m *encoding.Message) {
			w.mu.Lock()
			calls[string(m.NameBytes())]++
			w.mu.Unlock()
			for i := 0; i < c.Spin; i++ {
				runtime.Gosched()
			}
			if err := aw.SetStringBytes(encoding.VarScopeRequest, "handled", m.NameBytes()); err != nil {
				w.fail("message %s: %v", m.NameBytes(), err)
			}
		}
		w.serve()
		defer w.cancel()
		conns := make([]*memnet.Conn, c.Conns)
		for i := range conns {
			conn := w.l.Dial(memnet.Options{Yield: c.Yield})
			conns[i] = conn
			conn.Feed(ref.AppendFrame(nil, helloFrame(helloKVs(16380))))
		}
		rest(time.Second)
		want := make([][]byte, c.Conns)
		for i, conn := range conns {
			var notifies [][]byte
			expect := conn.Output()
			lens := []int{len(expect)}
			for k := 0; k < c.Each; k++ {
				var payload, actions []byte
				for j := 0; j < c.Msgs; j++ {
					name := ref.Str(p11Name(i, k, j))
					payload = ref.AppendMessage(payload, ref.Message{Name: name})
					actions = ref.AppendAction(actions, ref.Action{Kind: ref.ActSet, Scope: int(encoding.VarScopeRequest), Name: ref.Str("handled"), V: ref.Value{T: ref.TString, Bytes: name}})
				}
				notifies = append(notifies, ref.AppendFrame(nil, ref.Frame{Type: ref.FNotify, Flags: ref.FlagFin, Stream: uint64(i), ID: uint64(k + 1), Payload: payload}))
				expect = ref.AppendFrame(expect, ref.Frame{Type: ref.FAck, Flags: ref.FlagFin, Stream: uint64(i), ID: uint64(k + 1), Payload: actions})
				lens = append(lens, len(expect))
			}
			want[i] = expect
			go func() {
				for k, b := range notifies {
					conn.Feed(b)
					if _, ok := conn.WaitOutput(func(out []byte) bool { return len(out) >= lens[k+1] }); !ok {
						return
					}
				}
			}()
		}
		rest(time.Hour)
		if err := w.err(); err != nil {
			return err
		}
		r.NonTrivialIf(c.Conns > 3*runtime.NumCPU())
		r.Count("notifies", c.Conns*c.Each)
		for i, conn := range conns {
			if conn.Closed() {
				return fmt.Errorf("connection %d is closed by the agent", i)
			}
			if out := conn.Output(); !bytes.Equal(out, want[i]) {
				fs, rest, err := ref.Frames(out)
				return fmt.Errorf("connection %d: %d ACKs to %d NOTIFYs sent one after the other, %d more bytes, %v; want %s, got %s", i, len(fs)-1, c.Each, len(rest), err, trunc(ref.Str(want[i])), trunc(ref.Str(out)))
			}
		}
		w.mu.Lock()
		defer w.mu.Unlock()
		for name, n := range calls {
			if n != 1 {
				return fmt.Errorf("message %q is handled %d times", name, n)
			}
		}
		if len(calls) != c.Conns*c.Each*c.Msgs {
			return fmt.Errorf("%d messages are handled, %d were sent", len(calls), c.Conns*c.Each*c.Msgs)
		}
		return nil
	})
	return err
}

type p11Waiting struct {
	name string
	ch   chan struct{}
}

type p11Conn struct {
	c       *memnet.Conn
	sent    []int // messages of each NOTIFY
	dropped bool
}

func (pc *p11Conn) acked() (int, error) {
	fs, rest, err := ref.Frames(pc.c.Output())
	if err != nil || len(rest) > 0 {
		return 0, fmt.Errorf("%d frames, then %x (%v)", len(fs), rest, err)
	}
	return len(fs) - 1, nil
}

func p11Run(r *pbt.R, c p11Case) error {
	_, err := bubble(r, func() error {
		w := newSpWorld()
		var waiting []p11Waiting
		calls := map[string]int{}
		w.other = func(_ context.Context, aw *encoding.ActionWriter, m *encoding.Message) {
			name := string(m.NameBytes())
			ch := make(chan struct{})
			w.mu.Lock()
			calls[name]++
			waiting = append(waiting, p11Waiting{name, ch})
			w.mu.Unlock()
			<-ch
			if err := aw.SetStringBytes(encoding.VarScopeRequest, "handled", m.NameBytes()); err != nil {
				w.fail("message %s: %v", name, err)
			}
		}
		w.serve()
		defer w.cancel()
		nwaiting := func() int {
			w.mu.Lock()
			defer w.mu.Unlock()
			return len(waiting)
		}
		release := func(at int) {
			w.mu.Lock()
			defer w.mu.Unlock()
			if len(waiting) > 0 {
				at %= len(waiting)
				close(waiting[at].ch)
				waiting = slices.Delete(waiting, at, at+1)
			}
		}
		defer func() { // let everything go, so that little is left over
			for nwaiting() > 0 {
				for nwaiting() > 0 {
					release(0)
				}
				synctest.Wait()
			}
		}()

		conns := make([]*p11Conn, c.Conns)
		for i := range conns {
			conns[i] = &p11Conn{c: w.l.Dial(memnet.Options{Yield: c.Yield})}
			conns[i].c.Feed(ref.AppendFrame(nil, helloFrame(helloKVs(16380))))
		}
		rest(time.Second)
		for i, pc := range conns {
			if n, err := pc.acked(); n != 0 || err != nil {
				return fmt.Errorf("connection %d after its HELLO: %d ACKs, %v", i, n, err)
			}
		}

		type snapshot struct{ step, running, outstanding int }
		var history []snapshot
		most := 0
		look := func(step int) error {
			synctest.Wait()
			if err := w.err(); err != nil {
				return err
			}
			out := 0
			for i, pc := range conns {
				if pc.dropped {
					continue
				}
				n, err := pc.acked()
				if err != nil {
					return fmt.Errorf("connection %d: output %w", i, err)
				}
				if n < len(pc.sent) {
					out++
				}
				if n > len(pc.sent) {
					return fmt.Errorf("connection %d was sent %d ACKs for %d NOTIFYs", i, n, len(pc.sent))
				}
			}
			most = max(most, nwaiting())
			history = append(history, snapshot{step, nwaiting(), out})
			r.NonTrivialIf(out > 3*runtime.NumCPU())
			return nil
		}
		for step, op := range c.Ops {
			switch op.Op {
			case "send":
				n := op.N
				for i, pc := range conns {
					if acked, _ := pc.acked(); n == 0 || pc.dropped || acked < len(pc.sent) {
						continue
					}
					n--
					k := len(pc.sent)
					var payload []byte
					for j := 0; j < op.Msgs; j++ {
						payload = ref.AppendMessage(payload, ref.Message{Name: ref.Str(p11Name(i, k, j))})
					}
					pc.sent = append(pc.sent, op.Msgs)
					pc.c.Feed(ref.AppendFrame(nil, ref.Frame{Type: ref.FNotify, Flags: ref.FlagFin, Stream: uint64(i), ID: uint64(k + 1), Payload: payload}))
					r.Count("NOTIFYs", 1)
				}
			case "release":
				for i := 0; i < op.N && nwaiting() > 0; i++ {
					release(op.At)
					if i%3 == 2 {
						if err := look(step); err != nil {
							return err
						}
					}
				}
			case "wait":
				rest(time.Duration(op.N) * time.Second)
			case "drop":
				if !conns[op.At].dropped {
					conns[op.At].dropped = true
					conns[op.At].c.EndInput(io.EOF)
				}
			}
			if err := look(step); err != nil {
				return err
			}
		}
		for nwaiting() > 0 {
			for i := nwaiting(); i > 0; i-- {
				release(0)
			}
			if err := look(-1); err != nil {
				return err
			}
		}

		for _, s := range history {
			if s.running < min(s.outstanding, most) {
				return fmt.Errorf("after step %d, with everything at rest, only %d handlers are running although %d NOTIFYs are unanswered and %d handlers can run at once", s.step, s.running, s.outstanding, most)
			}
		}
		for i, pc := range conns {
			fs, _, _ := ref.Frames(pc.c.Output())
			acked := len(fs) - 1
			if !pc.dropped && acked != len(pc.sent) {
				return fmt.Errorf("connection %d: %d ACKs for %d NOTIFYs", i, acked, len(pc.sent))
			}
			if !pc.dropped && pc.c.Closed() {
				return fmt.Errorf("connection %d is closed by the agent", i)
			}
			for k, msgs := range pc.sent {
				var want []ref.Action
				for j := 0; j < msgs; j++ {
					name := p11Name(i, k, j)
					want = append(want, ref.Action{Kind: ref.ActSet, Scope: int(encoding.VarScopeRequest), Name: ref.Str("handled"), V: ref.Value{T: ref.TString, Bytes: ref.Str(name)}})
					if n := calls[name]; n > 1 || n == 0 && !pc.dropped {
						return fmt.Errorf("connection %d: message %d of NOTIFY %d handled %d times", i, j, k, n)
					}
					delete(calls, name)
				}
				if k >= acked || pc.dropped {
					continue
				}
				f := fs[k+1]
				as, err := ref.Actions(f.Payload)
				if f.Type != ref.FAck || f.Stream != uint64(i) || f.ID != uint64(k+1) || err != nil || ref.DiffActions(as, want) != "" {
					return fmt.Errorf("connection %d NOTIFY %d is answered with %+v (%v, %v, want %v)", i, k, f, as, err, want)
				}
			}
		}
		if len(calls) > 0 {
			return fmt.Errorf("unexpected messages handled: %s", trunc(calls))
		}
		return nil
	})
	return err
}

func p11Name(conn, notify, msg int) string { return fmt.Sprintf("burst/%d/%d/%d", conn, notify, msg) }
