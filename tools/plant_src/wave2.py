import sys; sys.path.insert(0,"/tmp/mk")
from lib import *
ENC="github.com/dropmorepackets/haproxy-go/pkg/encoding"
ST="github.com/dropmorepackets/haproxy-go/peers/sticktable"

mk("queue-signal-when-empty","P11","spop",[("spop/scheduler.go","""	bq.size++

	bq.notEmptyCond.Signal()
""","""	bq.size++

	if bq.size == 1 {
		bq.notEmptyCond.Signal()
	}
""")],codec_test("spop",["sync/atomic","time"],[],'''
func TestDemo(t *testing.T) {
	for round := 0; round < 200; round++ {
		q := newQueue(8)
		var got atomic.Int32
		for i := 0; i < 4; i++ {
			go func() {
				q.Get()
				got.Add(1)
			}()
		}
		time.Sleep(time.Millisecond) // they wait
		for i := 0; i < 4; i++ {
			q.Put(nil, nil)
		}
		for end := time.Now().Add(2 * time.Second); got.Load() < 4; time.Sleep(100 * time.Microsecond) {
			if time.Now().After(end) {
				t.Fatalf("round %d: %d of 4 waiting workers got one of 4 requests", round, got.Load())
			}
		}
	}
}
'''),"two requests that arrive before the worker woken for the first one has run","Workers are only woken for the first request in the queue, so of several that arrive together the others wait for a busy worker while idle ones sleep.")

mk("queue-slot-pointer","P11","spop",[("spop/scheduler.go","func (bq *queue) Get() queueElem {","func (bq *queue) Get() *queueElem {"),("spop/scheduler.go","	item := bq.elems[bq.head]\n","	item := &bq.elems[bq.head]\n")],spop_test(["fmt","runtime","sync"],'''
func TestDemo(t *testing.T) {
	var mu sync.Mutex
	calls := map[string]int{}
	l := serve(t, context.Background(), func(_ context.Context, _ *encoding.ActionWriter, m *encoding.Message) {
		mu.Lock()
		calls[string(m.NameBytes())]++
		mu.Unlock()
	})
	const each = 300
	n := 8 * runtime.NumCPU()
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		c := dial(t, l)
		shake(t, c, 16380)
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			for k := 0; k < each; k++ {
				c.Write(frame(3, 1, uint64(k), message(nil, fmt.Sprint(i, " ", k))))
				if readFrame(c, 3*time.Second) == nil {
					t.Errorf("connection %d: no answer to request %d", i, k)
					return
				}
			}
		}(i)
	}
	wg.Wait()
	mu.Lock()
	defer mu.Unlock()
	for k, v := range calls {
		if v != 1 {
			t.Errorf("%q was handled %d times", k, v)
		}
	}
}
'''),"a queue that is filled once around between a worker taking a request and reading it from its slot","A worker refers to the slot of its request after the slot is free again, so under load one request is handled twice and another one never.",race=True)

mk("hello-double-release","P13","spop",[("spop/protocol.go","""			if err := c.frameHandler(f); err != nil {
				return err
			}
			if c.ctx.Err() != nil {""","""			err := c.frameHandler(f)
			if err != nil {
				releaseFrame(f)
				return err
			}
			if c.ctx.Err() != nil {""")] ,spop_test(["bytes","fmt","sync"],'''
func TestDemo(t *testing.T) {
	l := serve(t, context.Background(), func(_ context.Context, w *encoding.ActionWriter, m *encoding.Message) {
		e := encoding.AcquireKVEntry()
		defer encoding.ReleaseKVEntry(e)
		time.Sleep(time.Millisecond)
		for m.KV.Next(e) {
			w.SetStringBytes(encoding.VarScopeSession, string(e.NameBytes()), e.ValueBytes())
		}
	})
	done := make(chan struct{})
	go func() {
		defer close(done)
		for i := 0; i < 300; i++ {
			c, err := net.Dial("tcp", l.Addr().String())
			if err != nil {
				return
			}
			c.Write(helloFrame(1))
			io.Copy(io.Discard, c)
			c.Close()
		}
	}()
	var wg sync.WaitGroup
	for i := 0; i < 6; i++ {
		c := dial(t, l)
		shake(t, c, 16380)
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			for k := uint64(1); k < 400; k++ {
				v := fmt.Sprintf("value %d of %d", k, i)
				c.Write(frame(3, k, uint64(i), message(nil, "m", "arg", v)))
				f := readFrame(c, 5*time.Second)
				if !bytes.HasSuffix(f, str(append(str(nil, "arg"), 8), v)) {
					t.Errorf("connection %d sent %q and got %q", i, v, f)
					return
				}
			}
		}(i)
	}
	wg.Wait()
	<-done
}
'''),"a refused HELLO, followed by two connections that use frames at the same time","The frame of a refused HELLO is put into the pool twice, so later two connections share one buffer.")

mk("message-keeps-scanner","P08","pkg/encoding",[("pkg/encoding/messagescanner.go","""	m.name = nil
	m.KV = nil
	m.kvEntryCount = 0
""","""	m.name = nil
	m.kvEntryCount = 0
""")],codec_test("encoding_test",[],[ENC],'''
func TestDemo(t *testing.T) {
	long := []byte{1, 'a', 2, 1, 'k', 0, 1, 'l', 0}
	short := []byte{1, 'b', 0}
	for i := 0; i < 100; i++ {
		s, m := encoding.AcquireMessageScanner(long), encoding.AcquireMessage()
		if !s.Next(m) || string(m.NameBytes()) != "a" {
			t.Fatalf("%q %v", m.NameBytes(), s.Error())
		}
		// The rest of the message is not read.
		encoding.ReleaseMessage(m)
		encoding.ReleaseMessageScanner(s)

		func() {
			defer func() {
				if v := recover(); v != nil {
					t.Fatal(v)
				}
			}()
			s, m := encoding.AcquireMessageScanner(short), encoding.AcquireMessage()
			if !s.Next(m) || string(m.NameBytes()) != "b" {
				t.Fatalf("%q %v", m.NameBytes(), s.Error())
			}
			m.KV.Discard()
			if s.Next(m) || s.Error() != nil {
				t.Fatalf("%q %v", m.NameBytes(), s.Error())
			}
			encoding.ReleaseMessage(m)
			encoding.ReleaseMessageScanner(s)
		}()
	}
}
'''),"a message released before the scan has moved past it (a handler panicked, or the consumer stopped early)","A released message keeps the argument scanner of its last use, by which the next scan with it repositions itself.")

mk("definition-reused","P19","peers",[("peers/protocol.go","""		var std sticktable.Definition
		if _, err := std.Unmarshal(m.Data); err != nil {
			return err
		}
		c.lastTableDefinition = &std
""","""		if c.lastTableDefinition == nil {
			c.lastTableDefinition = new(sticktable.Definition)
		}
		*c.lastTableDefinition = sticktable.Definition{}
		if _, err := c.lastTableDefinition.Unmarshal(m.Data); err != nil {
			return err
		}
""")],peer_test([],'''
func TestDemo(t *testing.T) {
	got := make(chan *sticktable.EntryUpdate, 10)
	c := serve(t, &handler{update: func(_ context.Context, u *sticktable.EntryUpdate) { got <- u }})
	shake(t, c)
	c.Write(msg(10, 0x82, 1, 1, 't', 2, 4, 4, 60))
	c.Write(msg(10, 0x80, 0, 0, 0, 7, 0, 0, 0, 1, 5))
	c.Write(msg(10, 0x82, 2, 1, 'u', 2, 4, 4, 60))
	c.Write(msg(10, 0x80, 0, 0, 0, 8, 0, 0, 0, 1, 5))
	a := <-got
	<-got
	if a.StickTable.Name != "t" || a.StickTable.StickTableID != 1 {
		t.Errorf("the update of table t is now one of %q", a.StickTable.Name)
	}
}
'''),"an update that is kept until another table has been defined","All updates of a session share one definition that is overwritten by the next, so updates kept by the application change their table.")

mk("heartbeat-direct-write","P20","peers",[("peers/protocol.go","		_, err := c.lockedWrite([]byte{byte(MessageClassControl), byte(ControlMessageHeartbeat)})\n		if err != nil {","		_, err := c.rw.Write([]byte{byte(MessageClassControl), byte(ControlMessageHeartbeat)})\n		if err != nil {")],
head("peers",{"bytes","context","io","net","sync","testing","time"},["github.com/dropmorepackets/haproxy-go/peers/sticktable"])+'''
type demoHandler struct{ w chan *Writer }

func (h *demoHandler) HandleHandshake(ctx context.Context, _ *Handshake)           { h.w <- WriterFromContext(ctx) }
func (h *demoHandler) HandleUpdate(context.Context, *sticktable.EntryUpdate) {}
func (h *demoHandler) Close() error                                          { return nil }

// demoConn is slow: the first of the big writes takes four seconds.
type demoConn struct {
	net.Conn
	in   *bytes.Reader
	mu   sync.Mutex
	slow bool
	out  []byte
}

func (c *demoConn) Read(b []byte) (int, error) {
	if n, _ := c.in.Read(b); n > 0 {
		return n, nil
	}
	time.Sleep(20 * time.Second)
	return 0, io.EOF
}

func (c *demoConn) Write(b []byte) (int, error) {
	c.mu.Lock()
	first := len(b) > 1000 && !c.slow
	c.slow = c.slow || first
	c.out = append(c.out, b...)
	c.mu.Unlock()
	if first {
		time.Sleep(4 * time.Second)
	}
	return len(b), nil
}

func (c *demoConn) Close() error { return nil }

type demoListener struct{ conns chan net.Conn }

func (l demoListener) Accept() (net.Conn, error) {
	c, ok := <-l.conns
	if !ok {
		return nil, io.EOF
	}
	return c, nil
}
func (l demoListener) Close() error   { return nil }
func (l demoListener) Addr() net.Addr { return &net.TCPAddr{} }

func TestDemo(t *testing.T) {
	h := &demoHandler{make(chan *Writer, 1)}
	l := demoListener{make(chan net.Conn, 1)}
	c := &demoConn{in: bytes.NewReader([]byte("HAProxyS 2.1\\nme\\nyou 1 0\\n"))}
	l.conns <- c
	go (&Peer{Handler: h}).Serve(l)
	w := <-h.w
	def := &sticktable.Definition{Name: "t", KeyType: sticktable.KeyTypeString, KeyLength: 100}
	key := sticktable.StringKey(bytes.Repeat([]byte("x"), 99))
	var es []*sticktable.EntryUpdate
	for i := 0; i < 2000; i++ {
		es = append(es, &sticktable.EntryUpdate{StickTable: def, Key: &key})
	}
	if err := w.SendEntries(es); err != nil {
		t.Fatal(err)
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	b := bytes.TrimPrefix(c.out, []byte("200\\n"))
	for n := 0; n < len(es); {
		switch {
		case bytes.HasPrefix(b, []byte{0, 4}):
			b = b[2:]
		case bytes.HasPrefix(b, []byte{10, 0x80, 104}) && len(b) >= 107 && bytes.Count(b[8:107], []byte("x")) == 99:
			b = b[107:]
			n++
		default:
			t.Fatalf("entry %d: the stream goes on with %q", n, b[:min(len(b), 120)])
		}
	}
}
''',"a batch larger than the output buffer, whose sending takes until the next heartbeat is due","Heartbeats bypass the lock and the buffer of the writer, so one can land between the two halves of an entry.")

mk("definition-shared-scratch","P20","peers",[("peers/writer.go","""	var buf [4096]byte
	n, err := def.Marshal(buf[:])
""","""	buf := w.buf[:4096]
	n, err := def.Marshal(buf)
""")],peer_test(["bufio","encoding/binary","sync"],'''
func TestDemo(t *testing.T) {
	ws := make(chan *peers.Writer, 1)
	c := serve(t, &handler{handshake: func(ctx context.Context, _ *peers.Handshake) { ws <- peers.WriterFromContext(ctx) }})
	shake(t, c)
	w := <-ws
	def := &sticktable.Definition{Name: "tablename", KeyType: sticktable.KeyTypeSignedInteger, KeyLength: 4}
	const each = 5000
	var wg sync.WaitGroup
	wg.Add(2)
	go func() {
		defer wg.Done()
		for k := 0; k < each; k++ {
			key := sticktable.SignedIntegerKey(0x01020304)
			w.SendEntry(&sticktable.EntryUpdate{StickTable: def, Key: &key})
		}
	}()
	go func() {
		defer wg.Done()
		for k := 0; k < each; k++ {
			w.SendTableDefinition(def)
		}
	}()
	r := bufio.NewReader(c)
	for n := 0; n < 2*each; {
		b := make([]byte, 2)
		c.SetReadDeadline(time.Now().Add(10 * time.Second))
		if _, err := io.ReadFull(r, b); err != nil {
			t.Fatal(err)
		}
		if b[1] < 128 {
			continue
		}
		l, _ := r.ReadByte()
		p := make([]byte, l)
		if _, err := io.ReadFull(r, p); err != nil {
			t.Fatal(err)
		}
		if b[1] == 0x80 && (len(p) != 8 || binary.BigEndian.Uint32(p[4:]) != 0x01020304) || b[1] == 0x82 && string(p[2:11]) != "tablename" {
			t.Fatalf("message %x %q", b[1], p)
		}
		n++
	}
	wg.Wait()
}
'''),"a definition that is sent while another goroutine sends entries","Definitions are marshalled into the scratch buffer of the entries without its lock.",race=True)

mk("signed-data-32bit","P17","peers/sticktable",[("peers/sticktable/values.go","""func (v *SignedIntegerData) Marshal(b []byte) (int, error) {
	return encoding.PutVarint(b, uint64(*v))""","""func (v *SignedIntegerData) Marshal(b []byte) (int, error) {
	return encoding.PutVarint(b, uint64(uint32(*v)))""")],codec_test("sticktable_test",["bytes"],[ENC,ST],'''
func TestDemo(t *testing.T) {
	for _, i := range []int32{0, 1, 1<<31 - 1, -1, -1 << 31} {
		v := sticktable.SignedIntegerData(i)
		b, want := make([]byte, 10), make([]byte, 10)
		n, err := v.Marshal(b)
		if err != nil {
			t.Fatal(err)
		}
		// HAProxy encodes the sign-extended value.
		k, _ := encoding.PutVarint(want, uint64(int64(i)))
		if !bytes.Equal(b[:n], want[:k]) {
			t.Errorf("%d is encoded as %x, want %x", i, b[:n], want[:k])
		}
	}
}
'''),"a negative value of a signed data type, looked at on the wire","Negative values are not sign-extended on the wire; the library's own decoder truncates and does not notice.")

mk("limit-not-lowered","P12","spop",[("spop/protocol.go","			limit = c.maxFrameSize\n","			limit = max(limit, c.maxFrameSize)\n")],spop_test([],'''
func TestDemo(t *testing.T) {
	called := make(chan bool, 10)
	l := serve(t, context.Background(), func(context.Context, *encoding.ActionWriter, *encoding.Message) { called <- true })
	for _, n := range []int{100, 1000, 60000} {
		c := dial(t, l)
		shake(t, c, 256)
		c.Write(frame(3, 1, 1, message(nil, "m", "k", string(make([]byte, n)))))
		select {
		case <-called:
			if n > 256 {
				t.Errorf("the handler is called for a frame of more than %d bytes, the limit is 256", n)
			}
		case <-time.After(300 * time.Millisecond):
			if n < 256 {
				t.Error("the handler is not called")
			}
		}
	}
}
'''),"a negotiated max-frame-size below 64 KiB and a frame between the two","The limit from before the handshake stays in force if it is the larger one.")

mk("first-silence","P21","peers",[("peers/protocol.go","""		if err := c.messageHandler(&m); err != nil {
			return fmt.Errorf("message handler: %v", err)
		}
		c.resetLastMessage()
""","""		if err := c.messageHandler(&m); err != nil {
			return fmt.Errorf("receiving message: %v", err)
		}
		if m.MessageClass != MessageClassControl || m.MessageType == byte(ControlMessageHeartbeat) {
			c.resetLastMessage()
		}
""")] if False else [("peers/protocol.go","	defer c.lastMessageTimer.Stop()\n	select {\n	case <-c.ctx.Done():\n","	defer c.lastMessageTimer.Stop()\n	// Heartbeats of the remote count from its handshake.\n	c.resetLastMessage()\n	select {\n	case <-c.ctx.Done():\n")] if False else [("peers/protocol.go","		c.lastMessageTimer = time.NewTimer(time.Second * 5)\n","		c.lastMessageTimer = time.NewTimer(time.Second * 8)\n")],peer_test([],'''
func TestDemo(t *testing.T) {
	ended := make(chan time.Duration, 1)
	start := time.Now()
	c := serve(t, &handler{close: func() { ended <- time.Since(start) }})
	shake(t, c)
	go io.Copy(io.Discard, c)
	select {
	case d := <-ended:
		if d < 4900*time.Millisecond || d > 6500*time.Millisecond {
			t.Errorf("dropped after %v", d)
		}
	case <-time.After(10 * time.Second):
		t.Error("not dropped within ten seconds")
	}
}
'''),"a remote that falls silent right after its handshake, without a single message","The first period of silence may last eight instead of five seconds.")

mk("peer-header-short-read","P15","peers",[("peers/protocol.go","	n, err := io.ReadFull(r, header)\n","	n, err := r.Read(header)\n")],peer_test([],'''
func TestDemo(t *testing.T) {
	got := make(chan uint32, 1)
	c := serve(t, &handler{update: func(_ context.Context, u *sticktable.EntryUpdate) { got <- u.LocalUpdateID }})
	shake(t, c)
	c.Write(table())
	time.Sleep(50 * time.Millisecond)
	m := msg(10, 0x80, 0, 0, 0, 7, 0, 0, 0, 1, 5)
	c.Write(m[:1])
	time.Sleep(50 * time.Millisecond)
	c.Write(m[1:])
	select {
	case id := <-got:
		if id != 7 {
			t.Errorf("update %d", id)
		}
	case <-time.After(2 * time.Second):
		t.Error("no update")
	}
}
'''),"a segment boundary between class and type of a peer message","A message header that arrives in two pieces is taken for a message of type 0, and everything behind it is misread.")

mk("addr-unmap","P02","pkg/encoding",[("pkg/encoding/encoding.go","	s := ip.AsSlice()\n","	s := ip.Unmap().AsSlice()\n")],codec_test("encoding_test",["net/netip"],[ENC],'''
func TestDemo(t *testing.T) {
	for _, s := range []string{"192.0.2.1", "2001:db8::1", "::", "::ffff:192.0.2.1"} {
		w := encoding.NewKVWriter(make([]byte, 100), 0)
		if err := w.SetAddr("k", netip.MustParseAddr(s)); err != nil {
			t.Fatal(err)
		}
		w.SetBool("b", true)
		sc, e := encoding.NewKVScanner(w.Bytes(), -1), &encoding.KVEntry{}
		if !sc.Next(e) || e.ValueAddr().String() != s {
			t.Errorf("%s: %x %v", s, e.ValueBytes(), sc.Error())
		}
	}
}
'''),"an IPv4-mapped IPv6 address","The type of the entry says IPv6, but only the four bytes of the mapped address are written, so everything behind them is misread.")

mk("hello-stops-at-size","P09","spop",[("spop/protocol.go","""	for s.Next(k) {
		switch {
		case k.NameEquals(helloKeyMaxFrameSize):""","""	for c.maxFrameSize == 0 && s.Next(k) {
		switch {
		case k.NameEquals(helloKeyMaxFrameSize):""")],spop_test([],'''
func TestDemo(t *testing.T) {
	size := putVarint(append(str(nil, "max-frame-size"), 3), 16380)
	check := append(str(nil, "healthcheck"), 0x11)
	for i, b := range [][]byte{append(append([]byte{}, check...), size...), append(append([]byte{}, size...), check...)} {
		l := serve(t, context.Background(), func(context.Context, *encoding.ActionWriter, *encoding.Message) {})
		c := dial(t, l)
		c.Write(frame(1, 0, 0, b))
		if f := readFrame(c, 2*time.Second); f == nil {
			t.Fatalf("order %d: no answer", i)
		}
		c.SetReadDeadline(time.Now().Add(time.Second))
		if _, err := io.Copy(io.Discard, c); err != nil {
			t.Errorf("order %d: the connection is not closed: %v", i, err)
		}
	}
}
'''),"a HELLO in which the healthcheck entry follows max-frame-size","The rest of a HELLO is ignored once the size is known, so a health check is not noticed, nor is malformed data.")

mk("ack-count","P27","spop",[("spop/frame.go","	return written + int64(n), err\n","	return int64(n), err\n")],codec_test("spop_test",["bytes"],["github.com/dropmorepackets/haproxy-go/pkg/encoding","github.com/dropmorepackets/haproxy-go/spop"],'''
func TestDemo(t *testing.T) {
	for n := 0; n < 3; n++ {
		var b bytes.Buffer
		f := spop.AckFrame{StreamID: 1, FrameID: 2, ActionWriterCallback: func(w *encoding.ActionWriter) error {
			for i := 0; i < n; i++ {
				w.SetBool(encoding.VarScopeSession, "k", true)
			}
			return nil
		}}
		got, err := f.WriteTo(&b)
		if err != nil || got != int64(b.Len()) {
			t.Errorf("%d actions: %d bytes reported, %d written, %v", n, got, b.Len(), err)
		}
	}
}
'''),"an ACK with actions (one without is counted correctly)","The length prefix and the header are missing from the reported number of bytes.")

mk("unmarshal-alias","P07","pkg/encoding",[("pkg/encoding/kvunmarshal.go","""		cp := make([]byte, len(val))
		copy(cp, val)
		field.SetBytes(cp)
""","""		if cap(field.Bytes()) < len(val) {
			field.SetBytes(make([]byte, len(val)))
		}
		field.SetBytes(append(field.Bytes()[:0], val...))
""")],codec_test("encoding_test",[],[ENC],'''
func TestDemo(t *testing.T) {
	w := encoding.NewKVWriter(make([]byte, 1000), 0)
	w.SetBinary("b", []byte("new"))
	shared := []byte("shared")
	v := struct {
		B []byte `spoe:"b"`
	}{B: shared[:0]}
	if err := encoding.NewKVScanner(w.Bytes(), -1).Unmarshal(&v); err != nil {
		t.Fatal(err)
	}
	if string(v.B) != "new" || string(shared) != "shared" {
		t.Errorf("%q %q", v.B, shared)
	}
}
'''),"a struct that is reused while its earlier []byte value is still held by someone","The bytes of the previous value are overwritten in place, so a value taken from a struct changes when the struct is reused.")

mk("context-without-cancel","P14","spop",[("spop/protocol.go","	c.ctx, c.ctxCancel = context.WithCancelCause(ctx)\n","	c.ctx, c.ctxCancel = context.WithCancelCause(context.WithoutCancel(ctx))\n")],spop_test([],'''
func TestDemo(t *testing.T) {
	ctx, cancel := context.WithCancel(context.Background())
	ended, started := make(chan bool, 1), make(chan bool, 1)
	l := serve(t, ctx, func(ctx context.Context, _ *encoding.ActionWriter, _ *encoding.Message) {
		started <- true
		select {
		case <-ctx.Done():
			ended <- true
		case <-time.After(3 * time.Second):
			ended <- false
		}
	})
	c := dial(t, l)
	shake(t, c, 16380)
	c.Write(frame(3, 1, 1, message(nil, "m")))
	<-started
	cancel()
	if !<-ended {
		t.Error("the handler is not told of the end of the base context")
	}
}
'''),"a base context that is cancelled while a handler is waiting for its context","Handlers keep running after the base context of the agent has been cancelled.")

mk("update-before-definition","P23","peers",[("peers/protocol.go","""		return fmt.Errorf("cannot process entry update without table definition")
""","""		log.Println("ignoring entry update without table definition")
		return nil
""")],peer_test([],'''
func TestDemo(t *testing.T) {
	c := serve(t, &handler{})
	shake(t, c)
	c.Write(msg(10, 0x80, 0, 0, 0, 7, 0, 0, 0, 1, 5))
	c.SetReadDeadline(time.Now().Add(2 * time.Second))
	if _, err := io.ReadFull(c, make([]byte, 1)); err != io.EOF {
		t.Errorf("the session goes on: %v", err)
	}
}
'''),"an entry update that precedes any table definition","Updates that cannot be attributed to a table are skipped silently instead of ending the session.")
