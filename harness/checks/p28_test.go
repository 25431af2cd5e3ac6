package checks

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"runtime"
	"sync"
	"syscall"
	"time"

	"github.com/dropmorepackets/haproxy-go/peers"
	"github.com/dropmorepackets/haproxy-go/pkg/encoding"
	"github.com/dropmorepackets/haproxy-go/spop"
	"pgregory.net/rapid"

	"verif/harness/memnet"
	"verif/harness/pbt"
	"verif/harness/ref"
)

type p28Conn struct {
	Notifies []spNotify `json:",omitempty"`
	Hello    []int      `json:",omitempty"`
	Merge    bool       `json:",omitempty"`
	Extra    int        `json:",omitempty"`
	Slow     int        `json:",omitempty"` // ms before each small read
	Health   bool       `json:",omitempty"`
	Busy     bool       `json:",omitempty"` // a handler waits for the context when it ends
	End      string     // "", "close", "reset", "half", "disconnect"
}

type p28Spop struct {
	Entry  string
	Second bool   // another agent tries to use the same address
	Net    string `json:",omitempty"` // "", "v6", "any", "name"
	Conns  []p28Conn
}

type p28Session struct {
	H     peHistory
	Sizes []int  `json:",omitempty"`
	Slow  int    `json:",omitempty"`
	End   string // "", "close", "reset", "half", "error"
	Sends [][]wItem
}

type p28Peers struct {
	Entry    string
	Second   bool
	Net      string `json:",omitempty"`
	Tables   []ref.Table
	Fat      int `json:",omitempty"`
	Sessions []p28Session
}

type p28Bad struct {
	Kind string
	Addr string
}

func init() {
	entries := []string{"method", "method", "method", "serve", "serve", "none", "package"}
	pbt.Register(&pbt.Property{
		ID: "P28",
		Rule: "Real loopback TCP and real time. Part spop: an agent started by the package function, the method or Serve with a listener; 1-6 connections at once, exchanging up to 4 NOTIFYs in random chunks, some reading slowly through a small window, some health checks, then ended by close, reset, half close or DISCONNECT, also under a handler that waits for its context; over IPv4, IPv6, all interfaces or a name; a second agent tries to listen on the same address; finally the base context is cancelled. Part peers: the same for 1-4 peer sessions with a history of messages in and sends from several goroutines out. Part errors: addresses that cannot be listened on, closed and failing listeners and contexts that are over, contradicting handlers. Race detector. " +
			"Non-trivial: NOTIFYs with messages, or updates or sends, on at least two connections, or an error.",
		Parts: []*pbt.Part{
			pbt.NewPart("spop", 800, func(t *rapid.T) p28Spop {
				c := p28Spop{Entry: pick(t, "entry", entries...), Second: chance(t, "second", 30), Net: genNet(t)}
				max := pick(t, "maxlen", 12, 300, 3000, 60000)
				for n := genCount(t, "conns", 1, 6, 150); n > 0; n-- {
					pc := p28Conn{
						Hello: genSizes(t, "hello", 30),
						Merge: chance(t, "merge", 20),
						Extra: pick(t, "extra", 0, 1, 1000),
						End:   pick(t, "end", "", "close", "reset", "half", "disconnect"),
						Busy:  chance(t, "busy", 50),
					}
					if chance(t, "slow", 15) {
						pc.Slow = 1
					}
					if chance(t, "health", 15) {
						pc.Health = true
						c.Conns = append(c.Conns, pc)
						continue
					}
					for k := rapid.IntRange(0, 4).Draw(t, "notifies"); k > 0; k-- {
						n := genNotify(t, max)
						n.Sizes = genSizes(t, "sizes", 30)
						for i := range n.Msgs {
							n.Msgs[i].Sleep /= 10
						}
						pc.Notifies = append(pc.Notifies, n)
					}
					c.Conns = append(c.Conns, pc)
				}
				return c
			}, func(r *pbt.R, c p28Spop) error { return tried(func() error { return p28RunSpop(r, c) }) }),
			pbt.NewPart("peers", 800, func(t *rapid.T) p28Peers {
				c := p28Peers{Entry: pick(t, "entry", entries...), Second: chance(t, "second", 30), Net: genNet(t), Tables: genWTables(t)}
				if chance(t, "fat", 20) {
					c.Fat = pick(t, "keys", 2000, 8000, 16000)
					c.Tables[0].KeyType = ref.KString
				}
				maxLen := pick(t, "maxlen", 20, 300, 20000)
				for n := genCount(t, "sessions", 1, 4, 100); n > 0; n-- {
					s := p28Session{
						H:     genHistory(t, 15, maxLen),
						Sizes: genSizes(t, "sizes", 40),
						End:   pick(t, "end", "", "close", "reset", "half", "error"),
					}
					if chance(t, "slow", 15) {
						s.Slow = 1
					}
					for g := rapid.IntRange(0, 3).Draw(t, "goroutines"); g > 0; g-- {
						var its []wItem
						for k := rapid.IntRange(0, 5).Draw(t, "items"); k > 0; k-- {
							it := genWItem(t, c.Tables, 300, 6)
							it.Sleep = 0
							its = append(its, it)
						}
						s.Sends = append(s.Sends, its)
					}
					c.Sessions = append(c.Sessions, s)
				}
				return c
			}, func(r *pbt.R, c p28Peers) error { return tried(func() error { return p28RunPeers(r, c) }) }),
			pbt.NewPart("errors", 300, func(t *rapid.T) p28Bad {
				return p28Bad{
					Kind: pick(t, "kind", "address", "address", "listener", "failing", "context", "handlers"),
					Addr: pick(t, "addr", "127.0.0.1", "127.0.0.1:99999", "127.0.0.1:-1", "192.0.2.1:12345", ":nosuchport", "x y:1", "[::1:1"),
				}
			}, p28RunBad),
		},
	})
}

func genNet(t *rapid.T) string {
	return pick(t, "net", "", "", "", "v6", "any", "any6", "name")
}

// p28Start runs serve, or listenAndServe.
func p28Start(entry, addr string, serve func(net.Listener) error, method, pkg func() error) (<-chan error, error) {
	over := make(chan error, 1)
	switch entry {
	case "serve":
		l, err := net.Listen("tcp", addr)
		if err != nil {
			panic(pbt.Harness(err.Error()))
		}
		go func() { over <- serve(l) }()
	case "package":
		go func() { over <- pkg() }()
	default:
		go func() { over <- method() }()
	}
	return over, nil
}

// p28Second: listening on an address in use fails.
func p28Second(addr string, listen func() error) error {
	over := make(chan error, 1)
	go func() { over <- listen() }()
	select {
	case err := <-over:
		if err == nil {
			return fmt.Errorf("listening on %s, which is in use, reports no error", addr)
		}
	case <-time.After(patience()):
		return fmt.Errorf("listening on %s, which is in use, does not return", addr)
	}
	return nil
}

func p28RunSpop(r *pbt.R, c p28Spop) error {
	w := newSpWorld()
	defer w.cancel()
	var mu sync.Mutex
	begun, done := map[string]bool{}, map[string]bool{}
	has := func(m map[string]bool, k string) func() bool {
		return func() bool {
			mu.Lock()
			defer mu.Unlock()
			return m[k]
		}
	}
	w.other = func(ctx context.Context, _ *encoding.ActionWriter, m *encoding.Message) {
		name := string(m.NameBytes())
		mu.Lock()
		begun[name] = true
		mu.Unlock()
		select {
		case <-ctx.Done():
			mu.Lock()
			done[name] = true
			mu.Unlock()
		case <-time.After(2 * patience()):
		}
	}
	addr, dial := sharedAddr(c.Net)
	r.Label("address " + c.Net)
	w.agent.Addr = addr
	w.noBase = c.Entry == "none" || c.Entry == "package"
	if w.noBase {
		w.agent.BaseContext = nil
	}
	handler := w.agent.Handler
	over, err := p28Start(c.Entry, addr, w.agent.Serve, w.agent.ListenAndServe, func() error { return spop.ListenAndServe(addr, handler) })
	if err != nil {
		return err
	}
	r.Label("entry " + c.Entry)

	var conns []*tcpConn
	defer func() {
		for _, nc := range conns {
			nc.close()
		}
	}()
	var clients []*spClient
	busy := 0
	for i, pc := range c.Conns {
		nc, err := tcpDial(dial, over, pc.Slow)
		if err != nil {
			return err
		}
		conns = append(conns, nc)
		clients = append(clients, &spClient{
			id: i, c: nc, size: uint64(needed(pc.Notifies, i) + pc.Extra), notifies: pc.Notifies, hello: pc.Hello, merge: pc.Merge,
		})
		if len(pc.Notifies) > 0 {
			busy++
		}
	}
	r.NonTrivialIf(busy > 1)
	if c.Second {
		a := &spop.Agent{Addr: addr, Handler: handler, BaseContext: context.Background()}
		if err := p28Second(addr, a.ListenAndServe); err != nil {
			return err
		}
	}
	var wg sync.WaitGroup
	for i, pc := range c.Conns {
		wg.Add(1)
		go func() {
			defer wg.Done()
			if pc.Health {
				feed(conns[i], ref.AppendFrame(nil, helloFrame(append(helloKVs(16380), ref.KV{Name: ref.Str("healthcheck"), V: ref.Value{T: ref.TBool, Bool: true}}))), pc.Hello, 0)
				return
			}
			clients[i].run(w)
		}()
	}
	wg.Wait()
	for i, pc := range c.Conns {
		if !pc.Health {
			if err := clients[i].settled(w); err != nil {
				return err
			}
			continue
		}
		r.Label("health check")
		if err := conns[i].waitEnd(); err != io.EOF {
			return fmt.Errorf("connection %d, a health check, ends with %v", i, err)
		}
		fs, rest, err := ref.Frames(conns[i].Output())
		if err != nil || len(fs) != 1 || len(rest) > 0 {
			return fmt.Errorf("connection %d, a health check, is sent %x", i, conns[i].Output())
		}
		if err := checkHello(fs[0], 16380); err != nil {
			return fmt.Errorf("connection %d, a health check: %w", i, err)
		}
	}

	// The ends.
	waiting := map[int]string{}
	for i, pc := range c.Conns {
		if pc.Health || !pc.Busy || len(waiting) >= runtime.NumCPU() {
			continue
		}
		name := fmt.Sprintf("wait %d", i)
		waiting[i] = name
		conns[i].Feed(ref.AppendFrame(nil, ref.Frame{Type: ref.FNotify, Flags: ref.FlagFin, Stream: 1, ID: 99, Payload: ref.AppendMessage(nil, ref.Message{Name: ref.Str(name)})}))
		if !eventually(has(begun, name)) {
			return fmt.Errorf("connection %d: the last NOTIFY is not handled", i)
		}
	}
	for i, pc := range c.Conns {
		if pc.Health {
			continue
		}
		r.LabelIf(pc.End != "", "end "+pc.End)
		switch pc.End {
		case "disconnect":
			kvs := []ref.KV{{Name: ref.Str("status-code"), V: ref.Value{T: ref.TUInt32}}, {Name: ref.Str("message"), V: ref.Value{T: ref.TString, Bytes: ref.Str("normal")}}}
			conns[i].Feed(ref.AppendFrame(nil, ref.Frame{Type: ref.FHaproxyDisconnect, Flags: ref.FlagFin, Payload: ref.AppendKVs(nil, kvs)}))
		case "close":
			conns[i].close()
		case "reset":
			conns[i].EndInput(syscall.ECONNRESET)
		case "half":
			conns[i].EndInput(io.EOF)
		default:
			continue
		}
		if name, ok := waiting[i]; ok && !eventually(has(done, name)) {
			return fmt.Errorf("connection %d is ended (%s), but the context of its handler is not cancelled", i, pc.End)
		}
		if pc.End == "half" {
			if err := conns[i].waitEnd(); err == nil {
				return fmt.Errorf("connection %d, which the remote has ended, stays open", i)
			}
		}
	}
	for i, pc := range c.Conns {
		if name, ok := waiting[i]; ok && pc.End == "" && has(done, name)() {
			return fmt.Errorf("connection %d lives, but the context of its handler is cancelled", i)
		}
		if !pc.Health && pc.End == "" && conns[i].Closed() {
			return fmt.Errorf("connection %d is closed by the agent", i)
		}
	}
	if err := w.err(); err != nil {
		return err
	}
	if w.noBase {
		select {
		case err := <-over:
			return fmt.Errorf("serving ends: %v", err)
		default:
		}
		return nil
	}
	w.cancel()
	for i, name := range waiting {
		if !eventually(has(done, name)) {
			return fmt.Errorf("connection %d: the context of its handler is not cancelled with the base context", i)
		}
	}
	if err := served(addr, over); err != nil {
		return err
	}
	return w.err()
}

func p28RunPeers(r *pbt.R, c p28Peers) error {
	w := newPeWorld()
	defer w.cancel()
	w.tcp = []*tcpConn{}
	addr, dial := sharedAddr(c.Net)
	r.Label("address " + c.Net)
	w.peer.Addr = addr
	w.noBase = c.Entry == "none" || c.Entry == "package"
	if w.noBase {
		w.peer.BaseContext = nil
	}
	sessions := c.Sessions
	if c.Entry == "package" {
		// One handler for all connections.
		sessions = sessions[:1]
	}
	shared := &peSession{w: w}

	wg := &sync.WaitGroup{}
	var sends [][][]*wSend
	for _, s := range sessions {
		var all [][]*wSend
		for g, its := range s.Sends {
			var l []*wSend
			for i, it := range its {
				l = append(l, it.prepare(c.Tables, c.Fat, g, i))
			}
			all = append(all, l)
		}
		sends = append(sends, all)
		wg.Add(1)
	}
	w.onHandshake = func(s *peSession, ctx context.Context, _ *peers.Handshake) {
		defer wg.Done()
		wr := peers.WriterFromContext(ctx)
		for _, l := range sends[s.id] {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for _, s := range l {
					s.send(wr)
				}
			}()
		}
	}
	over, err := p28Start(c.Entry, addr, w.peer.Serve, w.peer.ListenAndServe, func() error {
		return peers.ListenAndServe(addr, shared)
	})
	if err != nil {
		return err
	}
	r.Label("entry " + c.Entry)
	count := func() int {
		w.mu.Lock()
		defer w.mu.Unlock()
		return len(w.sessions)
	}
	if c.Entry == "package" {
		w.sessions = append(w.sessions, shared)
	}

	stop := make(chan struct{})
	var beats sync.WaitGroup
	defer func() {
		close(stop)
		beats.Wait()
		for _, nc := range w.tcp {
			nc.close()
		}
	}()
	var wants [][]sentUpdate
	busy := 0
	for i, s := range sessions {
		w.mu.Lock()
		nc, err := tcpDial(dial, over, s.Slow)
		if err == nil {
			w.tcp = append(w.tcp, nc)
		}
		w.mu.Unlock()
		if err != nil {
			return err
		}
		if !eventually(func() bool { return count() > i }) {
			return fmt.Errorf("connection %d gets no handler", i)
		}
		msgs, want, _ := s.H.encode()
		wants = append(wants, want)
		if len(want)+len(s.Sends) > 0 {
			busy++
		}
		stream := append([]byte(peHello), bytes.Join(msgs, nil)...)
		beats.Add(1)
		go func() {
			defer beats.Done()
			nc.Feed(memnet.Split(stream, s.Sizes)...)
			for {
				select {
				case <-stop:
					return
				case <-time.After(500 * time.Millisecond):
					nc.Feed([]byte{ref.ClassControl, ref.CtlHeartbeat})
				}
			}
		}()
	}
	r.NonTrivialIf(busy > 1)
	if c.Second {
		p := &peers.Peer{Addr: addr, Handler: shared, BaseContext: context.Background()}
		if err := p28Second(addr, p.ListenAndServe); err != nil {
			return err
		}
	}

	// Everything is sent and delivered.
	returned := make(chan struct{})
	go func() {
		wg.Wait()
		close(returned)
	}()
	select {
	case <-returned:
	case <-time.After(patience()):
		return fmt.Errorf("not all calls of HandleHandshake and the writers return")
	}
	for i, s := range sessions {
		ps, want := w.session(i), wants[i]
		eventually(func() bool {
			w.mu.Lock()
			defer w.mu.Unlock()
			return len(ps.updates) >= len(want)
		})
		if err := w.err(); err != nil {
			return err
		}
		if err := ps.sameUpdates(want); err != nil {
			return err
		}
		n := s.H.syncRequests()
		for _, l := range sends[i] {
			for _, x := range l {
				if x.err == nil {
					n += len(x.parts)
				}
			}
		}
		out, _ := w.tcp[i].WaitOutput(func(out []byte) bool {
			ms, _, err := peOutput(out)
			return err == nil && len(ms) >= n
		})
		ms, _, err := peOutput(out)
		if err != nil {
			return fmt.Errorf("session %d: %w", i, err)
		}
		ms, k := partials(ms)
		if k != s.H.syncRequests() {
			return fmt.Errorf("session %d: %d answers to %d synchronisation requests", i, k, s.H.syncRequests())
		}
		if err := wired(r, ms, sends[i], false); err != nil {
			return fmt.Errorf("session %d: %w", i, err)
		}
		if w.tcp[i].Closed() {
			return fmt.Errorf("session %d is ended although nothing is wrong with it", i)
		}
	}

	// The ends.
	gone := func(i int) func() bool {
		return func() bool {
			w.mu.Lock()
			defer w.mu.Unlock()
			ps := w.sessions[i]
			return ps.closes > 0 && (ps.ctx == nil || ps.ctx.Err() != nil)
		}
	}
	for i, s := range sessions {
		nc := w.tcp[i]
		r.LabelIf(s.End != "", "end "+s.End)
		switch s.End {
		case "close":
			nc.close()
		case "reset":
			nc.EndInput(syscall.ECONNRESET)
		case "half":
			nc.EndInput(io.EOF)
		case "error":
			nc.Feed(ref.AppendMsg(nil, ref.Msg{Class: ref.ClassError, Type: 0}))
		default:
			continue
		}
		if !eventually(gone(i)) {
			return fmt.Errorf("session %d is ended (%s), but its handler is not closed or its context not cancelled", i, s.End)
		}
		if (s.End == "half" || s.End == "error") && nc.waitEnd() == nil {
			return fmt.Errorf("the connection of session %d (%s) stays open", i, s.End)
		}
	}
	for i, s := range sessions {
		if s.End == "" && (gone(i)() || w.tcp[i].Closed()) {
			return fmt.Errorf("session %d is ended although nothing is wrong with it", i)
		}
	}
	if w.noBase {
		select {
		case err := <-over:
			return fmt.Errorf("serving ends: %v", err)
		default:
		}
		return w.err()
	}
	w.cancel()
	if err := served(addr, over); err != nil {
		return err
	}
	for i, s := range sessions {
		if !eventually(gone(i)) {
			return fmt.Errorf("session %d is not ended with the base context", i)
		}
		if s.End == "" && w.tcp[i].waitEnd() == nil {
			return fmt.Errorf("the connection of session %d stays open when the base context is cancelled", i)
		}
	}
	for i := range sessions {
		w.mu.Lock()
		n := w.sessions[i].closes
		w.mu.Unlock()
		if n != 1 {
			return fmt.Errorf("the handler of session %d is closed %d times", i, n)
		}
	}
	return w.err()
}

// p28Failing is a listener that fails after some connections.
type p28Failing struct {
	net.Listener
	after int
}

func (l *p28Failing) Accept() (net.Conn, error) {
	if l.after--; l.after < 0 {
		return nil, errors.New("out of order")
	}
	go func() {
		if c, err := net.Dial("tcp", l.Addr().String()); err == nil {
			c.Close()
		}
	}()
	return l.Listener.Accept()
}

func p28RunBad(r *pbt.R, c p28Bad) error {
	r.NonTrivial()
	r.Label(c.Kind)
	handle := spop.HandlerFunc(func(context.Context, *encoding.ActionWriter, *encoding.Message) {})
	w := newPeWorld()
	defer w.cancel()
	session := &peSession{w: w}
	calls := map[string]func() error{}
	var free []string // listened on only while the calls last
	fresh := func() string {
		free = append(free, freshAddr())
		return free[len(free)-1]
	}
	switch c.Kind {
	case "address":
		calls["spop.ListenAndServe"] = func() error { return spop.ListenAndServe(c.Addr, handle) }
		calls["peers.ListenAndServe"] = func() error { return peers.ListenAndServe(c.Addr, session) }
		calls["Agent.ListenAndServe"] = (&spop.Agent{Addr: c.Addr, Handler: handle}).ListenAndServe
		calls["Peer.ListenAndServe"] = (&peers.Peer{Addr: c.Addr, Handler: session}).ListenAndServe
	case "listener":
		l, err := net.Listen("tcp", freshAddr())
		if err != nil {
			panic(pbt.Harness(err.Error()))
		}
		l.Close()
		calls["Agent.Serve"] = func() error { return (&spop.Agent{Handler: handle}).Serve(l) }
		calls["Peer.Serve"] = func() error { return (&peers.Peer{Handler: session}).Serve(l) }
	case "failing":
		for i := 0; i < 2; i++ {
			l, err := net.Listen("tcp", freshAddr())
			if err != nil {
				panic(pbt.Harness(err.Error()))
			}
			defer l.Close()
			f := &p28Failing{Listener: l, after: len(c.Addr) % 3}
			if i == 0 {
				calls["Agent.Serve"] = func() error { return (&spop.Agent{Handler: handle}).Serve(f) }
			} else {
				calls["Peer.Serve"] = func() error { return (&peers.Peer{Handler: session}).Serve(f) }
			}
		}
	case "context":
		ctx, cancel := context.WithCancelCause(context.Background())
		cancel(errors.New("over"))
		calls["Agent.ListenAndServe"] = (&spop.Agent{Addr: fresh(), Handler: handle, BaseContext: ctx}).ListenAndServe
		calls["Peer.ListenAndServe"] = (&peers.Peer{Addr: fresh(), Handler: session, BaseContext: ctx}).ListenAndServe
	case "handlers":
		p := &peers.Peer{Addr: fresh(), Handler: session, HandlerSource: func() peers.Handler { return session }}
		calls["Peer.ListenAndServe"] = p.ListenAndServe
	}
	for what, f := range calls {
		over := make(chan error, 1)
		go func() { over <- f() }()
		select {
		case err := <-over:
			if err == nil && c.Kind != "context" {
				return fmt.Errorf("%s reports no error", what)
			}
		case <-time.After(patience()):
			return fmt.Errorf("%s does not return", what)
		}
	}
	for _, addr := range free {
		if !eventually(func() bool {
			l, err := net.Listen("tcp", addr)
			if err == nil {
				l.Close()
			}
			return err == nil
		}) {
			return fmt.Errorf("%s is still listened on after the call has failed", addr)
		}
	}
	return nil
}
