import sys, os; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib import *

mk("queue-newest-first","P11","spop",[("spop/scheduler.go",'''	item := bq.elems[bq.head]
	bq.head = (bq.head + 1) % len(bq.elems)
''','''	// The newest request is the one whose data is still in the cache.
	bq.tail = (bq.tail + len(bq.elems) - 1) % len(bq.elems)
	item := bq.elems[bq.tail]
''')],spop_test(["runtime"],'''
func TestDemo(t *testing.T) {
	started := make(chan string, 1000)
	release := make(chan struct{})
	l := serve(t, context.Background(), func(_ context.Context, _ *encoding.ActionWriter, m *encoding.Message) {
		started <- string(m.NameBytes())
		<-release
	})
	n := runtime.NumCPU()
	var cs []net.Conn
	send := func(i int, name string) {
		cs[i].Write(frame(3, 1, 1, message(nil, name)))
		time.Sleep(20 * time.Millisecond)
	}
	for i := 0; i < n+2; i++ {
		cs = append(cs, dial(t, l))
		shake(t, cs[i], 16380)
		name := "busy"
		if i == n {
			name = "first"
		} else if i > n {
			name = "later"
		}
		send(i, name)
	}
	for i := 0; i < n; i++ {
		<-started
	}
	// A handler returns, and another request comes in, over and over.
	for k := 0; k < 40; k++ {
		release <- struct{}{}
		if <-started == "first" {
			return
		}
		// Whoever was answered sends again.
		for i := range cs {
			cs[i].SetReadDeadline(time.Now().Add(time.Millisecond))
			if f := readFrame(cs[i], 5*time.Millisecond); f != nil {
				send(i, "later")
			}
		}
	}
	t.Fatal("40 later requests were handled before the first one")
}
'''),"more requests than workers at any time: the queue never becomes empty","The oldest requests are overtaken by later ones without end.")

mk("queue-drops-stale","P11","spop",[("spop/scheduler.go",'''	f  *frame
	pc *protocolClient
}
''','''	f  *frame
	pc *protocolClient
	at time.Time
}
'''),("spop/scheduler.go",'''	"sync"
''','''	"sync"
	"time"
'''),("spop/scheduler.go",'''queueElem{f, pc}''','''queueElem{f, pc, time.Now()}'''),("spop/scheduler.go",'''		// Use wrap panic to prevent''','''		if time.Since(qe.at) > 15*time.Second {
			// HAProxy has given up on this one.
			releaseFrame(qe.f)
			continue
		}

		// Use wrap panic to prevent'''),("spop/scheduler.go",'''		if err != nil {
			log.Println(err)
			continue
		}
	}
}
''','''		if err != nil {
			log.Println(err)
		}
	}
}
''')],spop_test(["runtime"],'''
func TestDemo(t *testing.T) {
	release := make(chan struct{})
	l := serve(t, context.Background(), func(_ context.Context, _ *encoding.ActionWriter, m *encoding.Message) { <-release })
	var cs []net.Conn
	for i := 0; i < runtime.NumCPU()+1; i++ {
		c := dial(t, l)
		shake(t, c, 16380)
		c.Write(frame(3, 1, 1, message(nil, "m")))
		cs = append(cs, c)
	}
	time.Sleep(17 * time.Second)
	close(release)
	for i, c := range cs {
		if f := readFrame(c, 5*time.Second); f == nil || f[0] != 103 {
			t.Fatalf("request %d was not answered: %q", i, f)
		}
	}
}
'''),"a request that waits in the queue for more than 15 seconds","It is dropped without being handled or acknowledged.")

mk("late-ack-dropped","P10","spop",[("spop/protocol.go",'''		return s.Error()
	}

	_, err := (&AckFrame''','''		err := s.Error()
		if err == nil && time.Since(received) > 20*time.Second {
			err = fmt.Errorf("notify %d was handled too late", f.meta.FrameID)
		}
		return err
	}

	_, err := (&AckFrame'''),("spop/protocol.go",'''func (c *protocolClient) onNotify(f *frame) error {
	s := ''','''func (c *protocolClient) onNotify(f *frame) error {
	received := time.Now()

	s := '''),("spop/protocol.go",'''	"syscall"
''','''	"syscall"
	"time"
''')],spop_test([],'''
func TestDemo(t *testing.T) {
	l := serve(t, context.Background(), func(_ context.Context, _ *encoding.ActionWriter, m *encoding.Message) { time.Sleep(21 * time.Second) })
	c := dial(t, l)
	shake(t, c, 16380)
	c.Write(frame(3, 1, 1, message(nil, "m")))
	if f := readFrame(c, 30*time.Second); f == nil || f[0] != 103 {
		t.Fatalf("the request was not answered: %q", f)
	}
}
'''),"a handler that takes more than 20 seconds","Its NOTIFY is never acknowledged.")

mk("batch-repeats-dropped","P20","peers",[("peers/writer.go",'''	for _, entry := range entries {
		updateID''','''	for i, entry := range entries {
		// Nothing has happened to the entry since it was written.
		if i > 0 && entry == entries[i-1] {
			continue
		}

		updateID''')],peer_test([],'''
func TestDemo(t *testing.T) {
	ws := make(chan *peers.Writer, 1)
	c := serve(t, &handler{handshake: func(ctx context.Context, _ *peers.Handshake) { ws <- peers.WriterFromContext(ctx) }})
	shake(t, c)
	w := <-ws
	def := &sticktable.Definition{Name: "t", KeyType: sticktable.KeyTypeSignedInteger, KeyLength: 4}
	key := sticktable.SignedIntegerKey(7)
	e := &sticktable.EntryUpdate{StickTable: def, Key: &key}
	if err := w.SendEntries([]*sticktable.EntryUpdate{e, e, e}); err != nil {
		t.Fatal(err)
	}
	c.SetReadDeadline(time.Now().Add(2 * time.Second))
	if _, err := io.ReadFull(c, make([]byte, 3*11)); err != nil {
		t.Fatal("not all of the three entries arrive:", err)
	}
}
'''),"a batch with the same entry twice in a row","It is sent once only.")

mk("switch-repeats-dropped","P20","peers",[("peers/writer.go",'''	nextUpdateID uint32
}
''','''	nextUpdateID uint32

	tableID  uint64 // that was switched to last
	switched bool
}
'''),("peers/writer.go",'''	n, err := encoding.PutVarint(buf[:], tableID)
	if err != nil {
		return fmt.Errorf("encoding table ID: %w", err)
	}

	if err := w.writeMessage(
''','''	n, err := encoding.PutVarint(buf[:], tableID)
	if err != nil {
		return fmt.Errorf("encoding table ID: %w", err)
	}

	w.mu.Lock()
	defer w.mu.Unlock()

	// The remote uses this table already.
	if w.switched && w.tableID == tableID {
		return nil
	}
	w.tableID, w.switched = tableID, true

	if err := w.writeMessageLocked(
'''),("peers/writer.go",'''		byte(StickTableUpdateMessageTypeStickTableSwitch),
		buf[:n],
	); err != nil {
		return err
	}

	return w.Flush()
''','''		byte(StickTableUpdateMessageTypeStickTableSwitch),
		buf[:n],
	); err != nil {
		return err
	}

	return w.bw.Flush()
''')],peer_test([],'''
func TestDemo(t *testing.T) {
	ws := make(chan *peers.Writer, 1)
	c := serve(t, &handler{handshake: func(ctx context.Context, _ *peers.Handshake) { ws <- peers.WriterFromContext(ctx) }})
	shake(t, c)
	w := <-ws
	if err := w.SendTableSwitch(1); err != nil {
		t.Fatal(err)
	}
	def := &sticktable.Definition{StickTableID: 2, Name: "t", KeyType: sticktable.KeyTypeSignedInteger, KeyLength: 4}
	if err := w.SendTableDefinition(def); err != nil { // the remote uses this one from now on
		t.Fatal(err)
	}
	if err := w.SendTableSwitch(1); err != nil {
		t.Fatal(err)
	}
	c.SetReadDeadline(time.Now().Add(2 * time.Second))
	b := make([]byte, 4+3+7+4)
	if _, err := io.ReadFull(c, b); err != nil || b[len(b)-4] != 10 || b[len(b)-3] != 0x83 {
		t.Fatalf("%x, %v", b, err)
	}
}
'''),"two switches to the same table with the definition of another one in between","The second switch is not sent, and the remote takes what follows for the other table's.")
