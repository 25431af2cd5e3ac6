import sys, os; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib import *
ENC="github.com/dropmorepackets/haproxy-go/pkg/encoding"
ST="github.com/dropmorepackets/haproxy-go/peers/sticktable"

mk("linger-zero","P28","spop",[("spop/agent.go","""			err = tcp.SetReadBuffer(math.MaxUint16) // 64KB seems like a fair buffer size
			if err != nil {
				return err
			}
""","""			err = tcp.SetReadBuffer(math.MaxUint16) // 64KB seems like a fair buffer size
			if err != nil {
				return err
			}
			// don't pile up connections in TIME_WAIT
			if err := tcp.SetLinger(0); err != nil {
				return err
			}
""")],spop_test(["bytes"],'''
// TestDemo: a health check gets the AGENT-HELLO and then an orderly end.
func TestDemo(t *testing.T) {
	l := serve(t, context.Background(), func(context.Context, *encoding.ActionWriter, *encoding.Message) {})
	for i := 0; i < 50; i++ {
		c := dial(t, l)
		f := helloFrame(16380)
		f = append(str(f, "healthcheck"), 0x11)
		binary.BigEndian.PutUint32(f, uint32(len(f)-4))
		c.Write(f)
		c.SetReadDeadline(time.Now().Add(5 * time.Second))
		b, err := io.ReadAll(c)
		if err != nil || !bytes.Contains(b, []byte("max-frame-size")) {
			t.Fatalf("health check %d: received %q, then %v", i, b, err)
		}
	}
}
'''),"a health check over real TCP: the agent closes first, with nothing unread","Connections closed by the agent are reset instead of ended, so a health check sees an error after (or instead of) the AGENT-HELLO.")

mk("tcp-listener-kept","P28","spop",[("spop/agent.go","""	go func() {
		<-a.BaseContext.Done()
		l.Close()
	}()
""","""	// Closing our own listener is up to ListenAndServe.
	if _, ok := l.(*net.TCPListener); !ok {
		go func() {
			<-a.BaseContext.Done()
			l.Close()
		}()
	}
""")],codec_test("spop_test",["context","net","time"],["github.com/dropmorepackets/haproxy-go/spop"],'''
func TestDemo(t *testing.T) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	addr := l.Addr().String()
	l.Close()
	ctx, cancel := context.WithCancel(context.Background())
	a := &spop.Agent{Addr: addr, BaseContext: ctx, Handler: spop.HandlerFunc(nil)}
	done := make(chan error, 1)
	go func() { done <- a.ListenAndServe() }()
	time.Sleep(100 * time.Millisecond)
	cancel()
	select {
	case <-done:
	case <-time.After(5 * time.Second):
		t.Fatal("ListenAndServe goes on after the end of the base context")
	}
}
'''),"the end of the base context of an agent that listens on a TCP address rather than on another kind of listener","Cancelling the base context no longer closes a TCP listener, so ListenAndServe never returns.")

mk("both-handlers","P28","peers",[("peers/peers.go","""		return fmt.Errorf("cannot set Handler and HandlerSource at the same time")
	}
""","""		log.Println("cannot set Handler and HandlerSource at the same time")
	}
""")],peer_test([],'''
func TestDemo(t *testing.T) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	t.Cleanup(func() { l.Close() })
	h := &handler{}
	p := &peers.Peer{Handler: h, HandlerSource: func() peers.Handler { return h }}
	done := make(chan error, 1)
	go func() { done <- p.Serve(l) }()
	select {
	case err := <-done:
		if err == nil {
			t.Fatal("no error")
		}
	case <-time.After(2 * time.Second):
		t.Fatal("a peer with a handler and a source of handlers serves")
	}
}
'''),"a Peer configured with both a Handler and a HandlerSource","Contradicting handlers are not reported any more: the source silently wins.")

mk("session-map","P29","peers",[("peers/peers.go","""	for {
		nc, err := l.Accept()
""","""	var mu sync.Mutex
	sessions := make(map[*protocolClient]struct{})
	for {
		nc, err := l.Accept()
"""),("peers/peers.go","""			if err := p.Serve(); err != nil && err != p.ctx.Err() {
				log.Println(err)
			}
""","""			mu.Lock()
			sessions[p] = struct{}{}
			mu.Unlock()

			if err := p.Serve(); err != nil && err != p.ctx.Err() {
				log.Println(err)
				return
			}

			mu.Lock()
			delete(sessions, p)
			mu.Unlock()
""")],peer_test(["runtime","sync/atomic"],'''
// TestDemo: what a handler holds can be reclaimed once its session has ended.
func TestDemo(t *testing.T) {
	log.SetOutput(io.Discard)
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	t.Cleanup(func() { l.Close() })
	var freed, closed atomic.Int32
	p := &peers.Peer{HandlerSource: func() peers.Handler {
		state := make([]byte, 1<<16)
		h := &handler{}
		h.update = func(context.Context, *sticktable.EntryUpdate) { state[0]++ }
		h.close = func() { closed.Add(1) }
		runtime.AddCleanup(h, func(int) { freed.Add(1) }, 0)
		return h
	}}
	go p.Serve(l)
	const n = 20
	for i := 0; i < n; i++ {
		c, err := net.Dial("tcp", l.Addr().String())
		if err != nil {
			t.Fatal(err)
		}
		shake(t, c)
		if i%2 == 1 {
			c.Write(msg(1, 0)) // protocol error
			io.Copy(io.Discard, c)
		}
		c.Close()
	}
	for end := time.Now().Add(8 * time.Second); ; time.Sleep(20 * time.Millisecond) {
		runtime.GC()
		if closed.Load() == n && freed.Load() >= n-1 {
			return
		}
		if time.Now().After(end) {
			t.Fatalf("%d of %d handlers were closed, %d are gone", closed.Load(), n, freed.Load())
		}
	}
}
'''),"sessions that end with an error: each leaves its entry behind","A session that ends with an error stays in a map of the peer, with its handler, connection and buffers, for as long as the process lives.")

mk("frame-owner","P29","spop",[("spop/frame.go","""	frameType frameType
}
""","""	frameType frameType

	// sources are the connections this frame has been read from.
	sources []io.Reader
}
"""),("spop/frame.go","""	frameLen := binary.BigEndian.Uint32(f.length)

""","""	frameLen := binary.BigEndian.Uint32(f.length)
	f.sources = append(f.sources, r)

""")],codec_test("spop",["runtime","strings","sync/atomic"],[],'''
type source struct {
	*strings.Reader
	state [1 << 16]byte
}

// TestDemo: the memory of what a frame was read from can be reclaimed once
// the frame went back to its pool.
func TestDemo(t *testing.T) {
	var freed atomic.Int32
	const n = 400
	var f *frame
	for i := 0; i < n; i++ {
		// Something else from the pool must not make this a new frame.
		f = acquireFrame()
		s := &source{Reader: strings.NewReader("\\x00\\x00\\x00\\x07\\x03\\x00\\x00\\x00\\x01\\x01\\x01")}
		runtime.AddCleanup(s, func(int) { freed.Add(1) }, 0)
		if _, err := f.readFrom(s, 1000); err != nil {
			t.Fatal(err)
		}
		releaseFrame(f)
	}
	runtime.GC()
	runtime.GC()
	runtime.GC()
	for i := 0; i < 50 && freed.Load() < n-1; i++ {
		runtime.GC()
		runtime.Gosched()
	}
	if freed.Load() < n-1 {
		t.Fatalf("%d of %d sources are gone", freed.Load(), n)
	}
	runtime.KeepAlive(f)
}
'''),"a pooled frame that was used by a connection which has ended since","Frames in the pool, and the frame being read by a living connection, keep every connection they were ever used for.")

mk("panic-keeps-socket","P29","spop",[("spop/agent.go","""			defer nc.Close()
			defer p.Close()

""","""			defer p.Close()

"""),("spop/agent.go","""				log.Println(err)
			}
		}()
	}
}
""","""				log.Println(err)
				nc.Close()
				return
			}
			if p.gotHello {
				nc.Close()
			}
		}()
	}
}
""")],spop_test([],'''
func TestDemo(t *testing.T) {
	l := serve(t, context.Background(), func(context.Context, *encoding.ActionWriter, *encoding.Message) {})
	c := dial(t, l)
	c.(*net.TCPConn).CloseWrite() // like a TCP port check
	c.SetReadDeadline(time.Now().Add(3 * time.Second))
	if _, err := io.Copy(io.Discard, c); err != nil {
		t.Fatalf("the agent keeps its end of a connection that was ended before the handshake: %v", err)
	}
}
'''),"a connection that the remote ends before it has sent a HELLO","The agent does not close its socket for connections that end in good order before the handshake, so each leaks a file descriptor.")

mk("queue-wait-once","P11","spop",[("spop/scheduler.go","""	for bq.isEmpty() {
		bq.notEmptyCond.Wait()""","""	if bq.isEmpty() {
		bq.notEmptyCond.Wait()""")],spop_test(["fmt","runtime","sync"],'''
func TestDemo(t *testing.T) {
	var mu sync.Mutex
	calls := map[string]int{}
	l := serve(t, context.Background(), func(_ context.Context, _ *encoding.ActionWriter, m *encoding.Message) {
		mu.Lock()
		calls[string(m.NameBytes())]++
		mu.Unlock()
	})
	const each = 2000
	n := 2 * runtime.NumCPU()
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		c := dial(t, l)
		shake(t, c, 16380)
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			for k := 0; k < each; k++ {
				c.Write(frame(3, 1, uint64(k+1), message(nil, fmt.Sprint(i, " ", k))))
				if readFrame(c, 3*time.Second) == nil {
					t.Errorf("connection %d: no answer to request %d", i, k)
					return
				}
			}
		}(i)
	}
	wg.Wait()
	mu.Lock()
	defer mu.Unlock()
	for k, v := range calls {
		if v != 1 {
			t.Errorf("%q was handled %d times", k, v)
		}
	}
}
'''),"a request taken by a worker that was not waiting, between the wake-up of a waiting worker and its turn","A woken worker takes an element of an empty queue: an old request is handled again or the worker panics, and the head of the queue is off by one.")

mk("close-error-keeps-socket","P22","peers",[("peers/peers.go","""			defer nc.Close()
			defer p.Close()

""","""			defer func() {
				if err := p.Close(); err != nil {
					log.Println(err)
					return
				}
				nc.Close()
			}()

""")],peer_test(["errors"],'''
type failing struct{ handler }

func (*failing) Close() error { return errors.New("close failed") }

func TestDemo(t *testing.T) {
	c := serve(t, &failing{})
	shake(t, c)
	c.(*net.TCPConn).CloseWrite()
	c.SetReadDeadline(time.Now().Add(4 * time.Second))
	if _, err := io.Copy(io.Discard, c); err != nil {
		t.Fatalf("the connection stays open: %v", err)
	}
}
'''),"a handler whose Close returns an error","The connection of a session stays open if the handler's Close fails.")

mk("ack-too-big-cancels","P14","spop",[("spop/protocol.go","""	}).writeTo(c.rw, c.maxFrameSize)
	return err
""","""	}).writeTo(c.rw, c.maxFrameSize)
	if err != nil {
		c.ctxCancel(err)
	}
	return err
""")],spop_test(["strings"],'''
func TestDemo(t *testing.T) {
	l := serve(t, context.Background(), func(ctx context.Context, w *encoding.ActionWriter, m *encoding.Message) {
		switch string(m.NameBytes()) {
		case "big":
			w.SetString(1, "a", strings.Repeat("x", 2000))
		case "late":
			if ctx.Err() != nil {
				return
			}
			w.SetString(1, "a", "live")
		}
	})
	c := dial(t, l)
	shake(t, c, 1000)
	c.Write(frame(3, 1, 1, message(nil, "big")))
	time.Sleep(50 * time.Millisecond)
	c.Write(frame(3, 1, 2, message(nil, "late")))
	f := readFrame(c, 3*time.Second)
	if !strings.Contains(string(f), "live") {
		t.Fatalf("answer %q after an ACK that was too large", f)
	}
}
'''),"a NOTIFY after one whose ACK was too large for the connection","An ACK that does not fit the negotiated size ends the context of the connection, which goes on to be served.") 

mk("disconnect-resource","P14","spop",[("spop/protocol.go","""	case ErrorIO, ErrorTimeout, ErrorNone:
	default:
""","""	case ErrorIO, ErrorTimeout, ErrorNone:
	case ErrorRes:
		// HAProxy is short of resources and will be back.
		return nil
	default:
""")],spop_test([],'''
func TestDemo(t *testing.T) {
	ended := make(chan struct{})
	started := make(chan struct{})
	l := serve(t, context.Background(), func(ctx context.Context, w *encoding.ActionWriter, m *encoding.Message) {
		close(started)
		<-ctx.Done()
		close(ended)
	})
	c := dial(t, l)
	shake(t, c, 1000)
	c.Write(frame(3, 1, 1, message(nil, "m")))
	<-started
	b := putVarint(append(str(nil, "status-code"), 3), 13)
	b = str(append(str(b, "message"), 8), "resource allocation error")
	c.Write(frame(2, 0, 0, b))
	select {
	case <-ended:
	case <-time.After(3 * time.Second):
		t.Fatal("the context of the handler outlives the DISCONNECT")
	}
}
'''),"a DISCONNECT with one particular status code while a handler waits for its context","The context of a connection is not cancelled by a DISCONNECT for lack of resources.")

mk("panic-error-only","P13","spop",[("spop/agent.go","			if e := recover(); e != nil {","			if e, ok := recover().(error); ok {")],spop_test([],'''
func TestDemo(t *testing.T) {
	l := serve(t, context.Background(), func(ctx context.Context, w *encoding.ActionWriter, m *encoding.Message) {
		if string(m.NameBytes()) == "bad" {
			w.SetString(1, "a", "half")
			panic("not an error value")
		}
		w.SetString(1, "a", "good")
	})
	c := dial(t, l)
	shake(t, c, 1000)
	c.Write(frame(3, 1, 1, message(nil, "bad")))
	time.Sleep(50 * time.Millisecond)
	c.Write(frame(3, 1, 2, message(nil, "good")))
	f := readFrame(c, 3*time.Second)
	if len(f) < 7 || f[6] != 2 {
		t.Fatalf("first answer %q", f)
	}
}
'''),"a handler that panics with a value that is not an error","A panic with a value other than an error counts as success, so the actions made before it are sent in an ACK.")

mk("id-wrap-skips-zero","P19","peers",[("peers/protocol.go","		e.LocalUpdateID = c.lastEntryUpdate.LocalUpdateID + 1\n","		e.LocalUpdateID = max(c.lastEntryUpdate.LocalUpdateID+1, 1)\n")],peer_test([],'''
func TestDemo(t *testing.T) {
	ids := make(chan uint32, 10)
	c := serve(t, &handler{update: func(_ context.Context, u *sticktable.EntryUpdate) { ids <- u.LocalUpdateID }})
	shake(t, c)
	c.Write(table())
	c.Write(msg(10, 0x80, 0xff, 0xff, 0xff, 0xff, 0, 0, 0, 1, 1))
	c.Write(msg(10, 0x81, 0, 0, 0, 2, 1))
	for _, want := range []uint32{0xffffffff, 0} {
		select {
		case got := <-ids:
			if got != want {
				t.Fatalf("id %d instead of %d", got, want)
			}
		case <-time.After(3 * time.Second):
			t.Fatal("no update")
		}
	}
}
'''),"an incremental update after the one with the highest 32-bit id","The id of an incremental update skips 0 when it wraps around.")

mk("table-redefined-in-place","P19","peers",[("peers/protocol.go","""		c.lastTableDefinition = &std

""","""		if d := c.lastTableDefinition; d != nil && d.StickTableID == std.StickTableID && d.Name == std.Name {
			*d = std
			return nil
		}
		c.lastTableDefinition = &std

""")],peer_test([],'''
func TestDemo(t *testing.T) {
	us := make(chan *sticktable.EntryUpdate, 10)
	c := serve(t, &handler{update: func(_ context.Context, u *sticktable.EntryUpdate) { us <- u }})
	shake(t, c)
	c.Write(table())
	c.Write(msg(10, 0x80, 0, 0, 0, 1, 0, 0, 0, 1, 1))
	c.Write(msg(10, 0x82, 1, 1, 't', 2, 4, 0, 99)) // the same without data
	c.Write(msg(10, 0x80, 0, 0, 0, 2, 0, 0, 0, 1))
	var got []*sticktable.EntryUpdate
	for i := 0; i < 2; i++ {
		select {
		case u := <-us:
			got = append(got, u)
		case <-time.After(3 * time.Second):
			t.Fatal("no update")
		}
	}
	if a, b := len(got[0].StickTable.DataTypes), got[0].StickTable.Expiry; a != 1 || b != 60 {
		t.Fatalf("the table of the first update changed: %d types, expiry %d", a, b)
	}
}
'''),"a table that is defined again, with other data, while the application holds an update of it","Defining a table again changes the definition that earlier updates refer to.")

mk("heartbeat-skipped-after-send","P21","peers",[("peers/protocol.go","""	nextHeartbeat       *time.Ticker
""","""	sent                atomic.Bool
	nextHeartbeat       *time.Ticker
"""),("peers/protocol.go","""	n, err := c.bw.Write(data)
	if err != nil {
		return n, err
""","""	c.sent.Store(true)
	n, err := c.bw.Write(data)
	if err != nil {
		return n, err
"""),("peers/protocol.go","""		_, err := c.lockedWrite([]byte{byte(MessageClassControl), byte(ControlMessageHeartbeat)})
		if err != nil {
			c.ctxCancel()
			return
		}
""","""		// Replies serve as heartbeats, too.
		if c.sent.Swap(false) {
			continue
		}
		_, err := c.lockedWrite([]byte{byte(MessageClassControl), byte(ControlMessageHeartbeat)})
		if err != nil {
			c.ctxCancel()
			return
		}
		c.sent.Store(false)
"""),("peers/protocol.go","""	"sync"
	"time"
""","""	"sync"
	"sync/atomic"
	"time"
""")],peer_test([],'''
func TestDemo(t *testing.T) {
	c := serve(t, &handler{})
	shake(t, c)
	start := time.Now()
	b := make([]byte, 2)
	// The reply to a request just after the first heartbeat.
	for i := 0; i < 2; i++ {
		c.SetReadDeadline(time.Now().Add(3500 * time.Millisecond))
		if _, err := io.ReadFull(c, b); err != nil {
			t.Fatalf("nothing for 3.5 s, %v after the handshake", time.Since(start))
		}
		if b[0] != 0 || b[1] != 4 {
			c.SetReadDeadline(time.Now().Add(3500 * time.Millisecond))
			if _, err := io.ReadFull(c, b); err != nil {
				t.Fatalf("nothing for 3.5 s after a reply, %v after the handshake", time.Since(start))
			}
		}
		c.Write(msg(0, 4))
		time.Sleep(50 * time.Millisecond)
		c.Write(msg(0, 0))
		if i == 0 {
			c.SetReadDeadline(time.Now().Add(time.Second))
			if _, err := io.ReadFull(c, b); err != nil {
				t.Fatal("no reply")
			}
		}
	}
}
'''),"a reply shortly after a heartbeat and nothing else until after the next one","A heartbeat is left out if anything was sent since the last one, so up to six seconds pass without a message.")

mk("drip-keeps-alive","P21","peers",[("peers/protocol.go","""		if _, err := m.ReadFrom(c.br); err != nil {
			if c.ctx.Err() != nil {""","""		if _, err := c.br.Peek(1); err == nil {
			c.resetLastMessage()
		}
		if _, err := m.ReadFrom(c.br); err != nil {
			if c.ctx.Err() != nil {""")],peer_test([],'''
func TestDemo(t *testing.T) {
	closed := make(chan struct{})
	c := serve(t, &handler{close: func() { close(closed) }})
	shake(t, c)
	time.Sleep(3500 * time.Millisecond)
	c.Write([]byte{0}) // half a message
	select {
	case <-closed:
	case <-time.After(2500 * time.Millisecond):
		t.Fatal("no complete message for 6 s, but the session goes on")
	}
}
'''),"a remote that sends the beginning of a message and falls silent","The first byte of a message counts as a message, so the session ends later than five seconds after the last one.")

mk("frame-deadline","P15","spop",[("spop/frame.go","""	frameLen := binary.BigEndian.Uint32(f.length)

""","""	frameLen := binary.BigEndian.Uint32(f.length)

	// A remote that started a frame has to finish it.
	if d, ok := r.(interface{ SetReadDeadline(time.Time) error }); ok {
		_ = d.SetReadDeadline(time.Now().Add(20 * time.Second))
	}

"""),("spop/frame.go","""	"sync"

""","""	"sync"
	"time"

""")],spop_test([],'''
func TestDemo(t *testing.T) {
	l := serve(t, context.Background(), func(ctx context.Context, w *encoding.ActionWriter, m *encoding.Message) {})
	c := dial(t, l)
	shake(t, c, 1000)
	time.Sleep(21 * time.Second) // no frame is under way
	c.Write(frame(3, 1, 1, message(nil, "m")))
	if f := readFrame(c, 3*time.Second); f == nil || f[0] != 103 {
		t.Fatalf("answer %q", f)
	}
}
'''),"an idle connection: the deadline of one frame is still set while the next is awaited","A read deadline is set for each frame and never cleared, so a connection that is idle for 20 s is lost.")

mk("discard-stops","P05","pkg/encoding",[("pkg/encoding/kvscanner.go","	for k.Next(e) {\n	}\n","	for i := 0; i < 128 && k.Next(e); i++ {\n	}\n")],codec_test("encoding",["fmt"],[],'''
func TestDemo(t *testing.T) {
	b := append([]byte{1, 'm'}, 200)
	for i := 0; i < 200; i++ {
		n := fmt.Sprint("arg", i)
		b = append(append(append(b, byte(len(n))), n...), 0x11)
	}
	b = append(b, 1, 'n', 0)
	s := NewMessageScanner(b)
	m := AcquireMessage()
	defer ReleaseMessage(m)
	var names []string
	for s.Next(m) {
		names = append(names, string(m.NameBytes()))
		if err := m.KV.Discard(); err != nil {
			t.Fatal(err)
		}
	}
	if s.Error() != nil || fmt.Sprint(names) != "[m n]" {
		t.Fatal(names, s.Error())
	}
}
'''),"a message with more than 128 arguments that are not all read by its handler","Discarding the arguments of a message stops after 128, so the next message starts in the middle of them.")

mk("empty-ack-unsent","P10","spop",[("spop/frames.go","""	frameLen := uint64(f.buf.Len()) + uint64(aw.Off())
""","""	if aw.Off() == 0 && a.FrameID == 0 {
		// nothing to acknowledge
		return 0, nil
	}

	frameLen := uint64(f.buf.Len()) + uint64(aw.Off())
""")],spop_test([],'''
func TestDemo(t *testing.T) {
	l := serve(t, context.Background(), func(ctx context.Context, w *encoding.ActionWriter, m *encoding.Message) {})
	c := dial(t, l)
	shake(t, c, 1000)
	c.Write(frame(3, 1, 0, message(nil, "m")))
	if f := readFrame(c, 3*time.Second); f == nil || f[0] != 103 {
		t.Fatalf("answer %q", f)
	}
}
'''),"a NOTIFY with frame id 0 whose handlers set nothing","A NOTIFY with frame id 0 without actions is not answered.")
