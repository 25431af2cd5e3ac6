import sys; sys.path.insert(0,"/tmp/mk")
from lib import *
ENC="github.com/dropmorepackets/haproxy-go/pkg/encoding"
ST="github.com/dropmorepackets/haproxy-go/peers/sticktable"
S="peers/sticktable/"

mk("varint-reader-32bit","P01","pkg/encoding",[("pkg/encoding/varint.go","""	r := uint(4)
	for {
		b, err := rd.ReadByte()
		if err != nil {
			return 0, ErrUnterminatedSequence
		}

		v := uint64(b)
		val += v << r
""","""	r := uint(4)
	for {
		b, err := rd.ReadByte()
		if err != nil {
			return 0, ErrUnterminatedSequence
		}

		v := uint32(b)
		val += uint64(v << r)
""")],codec_test("encoding_test",["bytes"],[ENC],'''
func TestDemo(t *testing.T) {
	for _, v := range []uint64{0, 240, 2288, 1 << 20, 1<<31 - 1, 1 << 32, 1<<40 + 12345, 1 << 63, 1<<64 - 1} {
		b := make([]byte, 10)
		n, err := encoding.PutVarint(b, v)
		if err != nil {
			t.Fatal(err)
		}
		got, err := encoding.ReadVarint(bytes.NewReader(b[:n]))
		if err != nil || got != v {
			t.Errorf("%d is read as %d, %v", v, got, err)
		}
	}
}
'''),"an integer beyond 32 bits read through the io.ByteReader decoder","ReadVarint loses the bits of the continuation bytes that are shifted beyond 32 bits, so it disagrees with Varint and with what was encoded.")

mk("kvwriter-int32-sign","P02","pkg/encoding",[("pkg/encoding/kvwriter.go","	return aw.setInt(name, DataTypeInt32, int64(v))","	return aw.setInt(name, DataTypeInt32, int64(uint32(v)))")],
codec_test("encoding_test",[],[ENC],'''
func TestDemo(t *testing.T) {
	for _, v := range []int32{0, 1, 1<<31 - 1, -1, -1 << 31} {
		w := encoding.NewKVWriter(make([]byte, 100), 0)
		if err := w.SetInt32("k", v); err != nil {
			t.Fatal(err)
		}
		s, e := encoding.NewKVScanner(w.Bytes(), -1), &encoding.KVEntry{}
		if !s.Next(e) || e.ValueInt() != int64(v) {
			t.Errorf("%d is read as %d", v, e.ValueInt())
		}
	}
}
'''),"a negative 32-bit value, looked at with ValueInt or on the wire (Value() still agrees)","SetInt32 does not sign-extend, so a negative value is on the wire as a positive one of 32 bits and ValueInt returns it as such.")

mk("putbytes-space","P03","pkg/encoding",[("pkg/encoding/encoding.go","	if l+n > len(b) {\n		return 0, ErrInsufficientSpace\n	}\n\n	copy(b[n:], v)\n	return n + l, nil","	if l > len(b) {\n		return 0, ErrInsufficientSpace\n	}\n\n	return n + copy(b[n:], v), nil")],
codec_test("encoding_test",["bytes"],[ENC],'''
func TestDemo(t *testing.T) {
	for size := 0; size < 40; size++ {
		w := encoding.NewKVWriter(make([]byte, size), 0)
		var want []string
		for _, v := range []string{"0123456789", "abc"} {
			if err := w.SetString("k", v); err == nil {
				want = append(want, v)
			}
		}
		s, e := encoding.NewKVScanner(bytes.Clone(w.Bytes()), -1), &encoding.KVEntry{}
		for _, v := range want {
			if !s.Next(e) || string(e.ValueBytes()) != v {
				t.Fatalf("size %d: %q was written, read %q, %v", size, v, e.ValueBytes(), s.Error())
			}
		}
		if s.Next(e) || s.Error() != nil {
			t.Fatalf("size %d: more than what was written: %v", size, s.Error())
		}
	}
}
'''),"a buffer that ends within the last one to nine bytes of a string, the width of its length prefix","The space check ignores the length prefix, so a value that lacks room for exactly that many bytes is cut off without an error and the list no longer decodes.")

mk("varintlen-boundary","P04","pkg/encoding",[("pkg/encoding/actionwriter.go","v >= 128; v = (v - 128) >> 7","v > 128; v = (v - 128) >> 7")],
codec_test("encoding_test",["bytes"],[ENC],'''
func TestDemo(t *testing.T) {
	for _, n := range []int{239, 240, 2287, 2288, 2290, 2303, 2304} {
		w := encoding.NewActionWriter(make([]byte, 0), 0)
		if err := w.SetString(encoding.VarScopeSession, "", ""); err != nil {
			t.Fatal(err)
		}
		want := bytes.Clone(w.Bytes())
		if err := w.SetBinary(encoding.VarScopeSession, "", make([]byte, n)); err != nil {
			if !bytes.Equal(w.Bytes(), want) {
				t.Errorf("%d bytes: %v, and the list is now %q", n, err, w.Bytes())
			}
			t.Errorf("%d bytes: %v", n, err)
		}
	}
}
'''),"a value or name of 2288 to 2303 bytes (or the next such boundary) in a buffer that has to grow for it","The length of the length prefix is underestimated by one at the boundary, so growing leaves one byte too few, the call fails and leaves half an action in the list.")

mk("argcount-signed","P05","pkg/encoding",[("pkg/encoding/messagescanner.go","	m.KV = AcquireKVScanner(s.buf, int(m.kvEntryCount))","	m.KV = AcquireKVScanner(s.buf, int(int8(m.kvEntryCount)))")],
codec_test("encoding_test",["fmt"],[ENC],'''
func TestDemo(t *testing.T) {
	for _, n := range []int{0, 1, 127, 128, 200, 255} {
		b := []byte{5, 'f', 'i', 'r', 's', 't', byte(n)}
		for i := 0; i < n; i++ {
			b = append(b, 1, 'k', 0)
		}
		b = append(b, 6, 's', 'e', 'c', 'o', 'n', 'd', 0)
		s, m, got := encoding.NewMessageScanner(b), &encoding.Message{}, ""
		for s.Next(m) {
			k, e := 0, &encoding.KVEntry{}
			for m.KV.Next(e) {
				k++
			}
			got += fmt.Sprintf("%s %d %v;", m.NameBytes(), k, m.KV.Error())
		}
		if want := fmt.Sprintf("first %d <nil>;second 0 <nil>;", n); got != want || s.Error() != nil {
			t.Errorf("%d arguments: %s, %v", n, got, s.Error())
		}
	}
}
'''),"a message with at least 128 arguments that is followed by another one","The number of arguments is taken as a signed byte; a negative one means all that is left, so the first message swallows the second.")

mk("string-length-error","P06","pkg/encoding",[("pkg/encoding/kvscanner.go","""		nameLen, n, err := Varint(k.buf)
		if err != nil {
			k.lastErr = err
			return false
		}
		k.buf = k.buf[n:]

		if e.byteVal, ok = k.take(nameLen); !ok {""","""		nameLen, n, err := Varint(k.buf)
		if err != nil {
			return false
		}
		k.buf = k.buf[n:]

		if e.byteVal, ok = k.take(nameLen); !ok {""")],
codec_test("encoding_test",[],[ENC],'''
func TestDemo(t *testing.T) {
	w := encoding.NewKVWriter(make([]byte, 1000), 0)
	w.SetInt32("a", 1)
	start := w.Off()
	w.SetString("s", string(make([]byte, 300)))
	for n := start + 1; n < w.Off(); n++ {
		s, e := encoding.NewKVScanner(w.Bytes()[:n], -1), &encoding.KVEntry{}
		for s.Next(e) {
		}
		if s.Error() == nil {
			t.Errorf("the entry is cut off after %d bytes, which is not reported", n-start)
		}
	}
}
'''),"data that ends exactly before or within the length of a string value","The end of the data within the length prefix of a string value is not recorded: the scan looks complete.")

mk("unmarshal-first-wins","P07","pkg/encoding",[("pkg/encoding/kvunmarshal.go","""		if fi == nil {
			// Unknown key, skip it
			continue
		}
""","""		if fi == nil || setPointerFields[fi.fieldIdx] {
			// Unknown or already known key, skip it
			continue
		}
""")],codec_test("encoding_test",[],[ENC],'''
func TestDemo(t *testing.T) {
	w := encoding.NewKVWriter(make([]byte, 1000), 0)
	w.SetInt32("k", 1)
	w.SetInt32("k", 2)
	w.SetInt32("p", 1)
	w.SetInt32("p", 2)
	var v struct {
		K int32  `spoe:"k"`
		P *int32 `spoe:"p"`
	}
	if err := encoding.NewKVScanner(w.Bytes(), -1).Unmarshal(&v); err != nil {
		t.Fatal(err)
	}
	if v.K != 2 || v.P == nil || *v.P != 2 {
		t.Errorf("%v %v", v.K, *v.P)
	}
}
'''),"a repeated argument that is mapped to a pointer field","For pointer fields the first of several entries of a name wins, for others the last.")

mk("scanner-pool-error","P08","pkg/encoding",[("pkg/encoding/kvscanner.go","""	s.lastErr = nil
	s.buf = nil
	s.left = 0
""","""	s.buf = nil
	s.left = 0
""")],codec_test("encoding_test",[],[ENC],'''
func TestDemo(t *testing.T) {
	e := encoding.AcquireKVEntry()
	for i := 0; i < 100; i++ {
		s := encoding.AcquireKVScanner([]byte{5, 'a'}, -1)
		for s.Next(e) {
		}
		encoding.ReleaseKVScanner(s)

		s = encoding.AcquireKVScanner([]byte{1, 'k', 0}, -1)
		if !s.Next(e) || s.Error() != nil {
			t.Fatalf("scan after a failed one: %v", s.Error())
		}
		encoding.ReleaseKVScanner(s)
	}
}
'''),"a scan that failed, whose scanner is then reused from the pool","A released scanner keeps its error, so the next user of it sees no entries and an error of somebody else's data.")

mk("hello-size-cap","P09","spop",[("spop/protocol.go","""		Version:      version,
		MaxFrameSize: c.maxFrameSize,
""","""		Version:      version,
		MaxFrameSize: min(c.maxFrameSize, 1<<24-1),
""")],spop_test(["bytes"],'''
func TestDemo(t *testing.T) {
	l := serve(t, context.Background(), func(context.Context, *encoding.ActionWriter, *encoding.Message) {})
	for _, size := range []uint64{256, 16380, 65536, 1<<24 - 1, 1 << 24, 1<<31 - 1} {
		c := dial(t, l)
		c.Write(helloFrame(size))
		f := readFrame(c, 5*time.Second)
		if want := putVarint(append(str(nil, "max-frame-size"), 3), size); !bytes.Contains(f, want) {
			t.Errorf("offer %d is answered with %q", size, f)
		}
	}
}
'''),"an offer beyond 16 MB (tune.bufsize is bounded by a C int)","The AGENT-HELLO does not echo the offered size but a cap, while the connection goes on with the offer.")

mk("queue-signal-when-full","P11","spop",[("spop/scheduler.go","""	defer bq.notFullCond.Signal()

	for bq.isEmpty() {
		bq.notEmptyCond.Wait()
	}

""","""	for bq.isEmpty() {
		bq.notEmptyCond.Wait()
	}

	if bq.isFull() {
		defer bq.notFullCond.Signal()
	}

""")],codec_test("spop",["fmt","runtime","sync/atomic","time"],[],'''
// TestDemo lets more senders wait for a slot than there are workers, which then
// finish at the same time.
func TestDemo(t *testing.T) {
	for round := 0; round < 300; round++ {
		q := newQueue(4)
		for i := 0; i < 4; i++ {
			q.Put(nil, nil)
		}
		var done atomic.Int32
		const senders = 8
		for i := 0; i < senders; i++ {
			go func() {
				q.Put(nil, nil)
				done.Add(1)
			}()
		}
		time.Sleep(time.Millisecond)
		for i := 0; i < 4; i++ {
			go q.Get()
		}
		// Four got slots: four senders must get them.
		for end := time.Now().Add(2 * time.Second); done.Load() < 4; runtime.Gosched() {
			if time.Now().After(end) {
				t.Fatal(fmt.Sprintf("round %d: 4 slots are free, but only %d of the %d senders got one", round, done.Load(), senders))
			}
		}
	}
}
'''),"several connections waiting for a slot in the full queue while workers take requests faster than the waiters run","A slot that becomes free is only announced when the queue was full, so when two are freed in a row only one waiter wakes up; the others wait while slots and workers are idle.")

mk("ack-limit-header","P12","spop",[("spop/frames.go","	frameLen := uint64(f.buf.Len()) + uint64(aw.Off())\n	if frameLen > uint64(limit) {","	frameLen := uint64(aw.Off())\n	if frameLen > uint64(limit) {")],
spop_test([],'''
func TestDemo(t *testing.T) {
	// An ACK has 7 bytes of header here; the action 3+2 and its value 3 bytes.
	for n := 220; n < 260; n++ {
		l := serve(t, context.Background(), func(_ context.Context, w *encoding.ActionWriter, _ *encoding.Message) {
			w.SetBinary(encoding.VarScopeSession, "v", make([]byte, n))
		})
		c := dial(t, l)
		shake(t, c, 256)
		c.Write(frame(3, 1, 1, message(nil, "m")))
		if f := readFrame(c, 100*time.Millisecond); len(f) > 256 {
			t.Errorf("an ACK of %d bytes was sent, the limit is 256", len(f))
		}
	}
}
'''),"an ACK whose actions fit the negotiated size, but not together with the frame header","The header is not counted against the negotiated max-frame-size, so ACKs a few bytes longer than HAProxy accepts are sent.")

mk("worker-exits-on-error","P13","spop",[("spop/scheduler.go","			log.Println(err)\n			continue\n","			log.Println(err)\n			return\n")],
spop_test(["runtime"],'''
func TestDemo(t *testing.T) {
	l := serve(t, context.Background(), func(_ context.Context, _ *encoding.ActionWriter, m *encoding.Message) {
		if string(m.NameBytes()) == "panic" {
			panic("handler")
		}
	})
	c := dial(t, l)
	shake(t, c, 16380)
	for i := 0; i < runtime.NumCPU(); i++ {
		c.Write(frame(3, 1, uint64(i), message(nil, "panic")))
	}
	time.Sleep(200 * time.Millisecond)
	c = dial(t, l)
	shake(t, c, 16380)
	c.Write(frame(3, 1, 1, message(nil, "fine")))
	if f := readFrame(c, 5*time.Second); f == nil {
		t.Error("a healthy connection gets no answer after a number of panics")
	}
}
'''),"as many handler panics or malformed NOTIFYs as there are workers (CPUs)","Each failed request ends one of the shared workers; once all are gone, no request of any connection is answered.")

mk("disconnect-code-keeps-context","P14","spop",[("spop/protocol.go","""		err = fmt.Errorf("disconnect frame with code %d: %s", code, code)
	}

	c.ctxCancel(err)
	return err
""","""		return fmt.Errorf("disconnect frame with code %d: %s", code, code)
	}

	c.ctxCancel(err)
	return err
"""),("spop/protocol.go","	var err error\n	switch code {\n	// HAProxy returns","	switch code {\n	// HAProxy returns"),("spop/protocol.go","	c.ctxCancel(err)\n	return err\n","	c.ctxCancel(nil)\n	return nil\n")] if False else [("spop/protocol.go","""	var err error
	switch code {
	// HAProxy returns an IO error when it doesn't require a connection
	// anymore.
	case ErrorIO, ErrorTimeout, ErrorNone:
	default:
		err = fmt.Errorf("disconnect frame with code %d: %s", code, code)
	}

	c.ctxCancel(err)
	return err
""","""	switch code {
	// HAProxy returns an IO error when it doesn't require a connection
	// anymore.
	case ErrorIO, ErrorTimeout, ErrorNone:
		c.ctxCancel(nil)
		return nil
	default:
		return fmt.Errorf("disconnect frame with code %d: %s", code, code)
	}
""")],spop_test([],'''
func TestDemo(t *testing.T) {
	for _, code := range []uint64{0, 1, 2, 3, 4, 10, 99} {
		ended := make(chan bool, 1)
		l := serve(t, context.Background(), func(ctx context.Context, _ *encoding.ActionWriter, _ *encoding.Message) {
			select {
			case <-ctx.Done():
				ended <- true
			case <-time.After(3 * time.Second):
				ended <- false
			}
		})
		c := dial(t, l)
		shake(t, c, 16380)
		c.Write(frame(3, 1, 1, message(nil, "m")))
		time.Sleep(50 * time.Millisecond)
		b := putVarint(append(str(nil, "status-code"), 3), code)
		c.Write(frame(2, 0, 0, str(append(str(b, "message"), 8), "bye")))
		if !<-ended {
			t.Errorf("the handler is not told of a DISCONNECT with code %d", code)
		}
	}
}
'''),"a HAPROXY-DISCONNECT with an error code other than 0, 1 and 2 while a handler is running and the connection stays open","Only an ordinary disconnect cancels the context; handlers of a connection HAProxy gave up because of an error go on.")

mk("frame-length-short-read","P15","spop",[("spop/frame.go","	if _, err := io.ReadFull(r, f.length); err != nil {","	if _, err := r.Read(f.length); err != nil {")],
spop_test([],'''
func TestDemo(t *testing.T) {
	for cut := 0; cut < 6; cut++ {
		l := serve(t, context.Background(), func(context.Context, *encoding.ActionWriter, *encoding.Message) {})
		c := dial(t, l)
		shake(t, c, 16380)
		f := frame(3, 1, 1, message(nil, "m", "k", "v"))
		c.Write(f[:cut])
		time.Sleep(50 * time.Millisecond)
		c.Write(f[cut:])
		if f := readFrame(c, 2*time.Second); f == nil || f[0] != 103 {
			t.Errorf("a frame in pieces of %d and %d bytes gets %q", cut, len(f)-cut, f)
		}
	}
}
'''),"a TCP segment boundary within the four bytes of a frame length","A short read of the frame length is taken for the whole of it, with bytes of an earlier frame for the rest.")

mk("isdelay-gpc1-rate","P16","peers/sticktable",[("peers/sticktable/constants.go","""		DataTypeGPC1Rate,
		DataTypeHttpFailRate,
""","""		DataTypeHttpFailRate,
""")],codec_test("sticktable_test",["bytes"],[ST],'''
func TestDemo(t *testing.T) {
	d := sticktable.Definition{StickTableID: 1, Name: "t", KeyType: sticktable.KeyTypeSignedInteger, KeyLength: 4,
		DataTypes: []sticktable.DataTypeDefinition{
			{DataType: sticktable.DataTypeGPC0},
			{DataType: sticktable.DataTypeGPC1Rate, Counter: 1, Period: 10},
		}}
	b := make([]byte, 100)
	n, err := d.Marshal(b)
	if err != nil {
		t.Fatal(err)
	}
	// The bits 2 and 18 of the data types are 1 << 2 | 1 << 18.
	want := []byte{1, 1, 't', 2, 4, 0xf4, 0xf1, 0x7e, 0, 1, 10}
	if !bytes.Equal(b[:n], want) {
		t.Errorf("%x, want %x", b[:n], want)
	}
}
'''),"a table that stores gpc1_rate","gpc1_rate is no longer treated as a rate: its period is neither written nor read, so all that follows it in a definition of HAProxy is misread. The library's own round trip does not notice.")

mk("freq-order","P17","peers/sticktable",[("peers/sticktable/values.go","""	f.CurrentPeriod = currentPeriod
""","""	f.LastPeriod = currentPeriod
"""),("peers/sticktable/values.go","""	f.LastPeriod = lastPeriod
""","""	f.CurrentPeriod = lastPeriod
"""),("peers/sticktable/values.go","encoding.PutVarint(b[offset:], f.CurrentPeriod)","encoding.PutVarint(b[offset:], f.LastPeriod) "),("peers/sticktable/values.go","encoding.PutVarint(b[offset:], f.LastPeriod)\n","encoding.PutVarint(b[offset:], f.CurrentPeriod)\n"),("peers/sticktable/values.go","encoding.PutVarint(b[offset:], f.LastPeriod) \n","encoding.PutVarint(b[offset:], f.LastPeriod)\n")],codec_test("sticktable_test",[],[ST],'''
func TestDemo(t *testing.T) {
	// tick, current and last period, in that order (peers-v2.0.txt)
	var f sticktable.FreqData
	if _, err := f.Unmarshal([]byte{1, 2, 3}); err != nil {
		t.Fatal(err)
	}
	if f.CurrentTick != 1 || f.CurrentPeriod != 2 || f.LastPeriod != 3 {
		t.Errorf("%+v", f)
	}
	b := make([]byte, 3)
	if _, err := f.Marshal(b); err != nil || string(b) != "\\x01\\x02\\x03" {
		t.Errorf("%v %v", b, err)
	}
}
'''),"a rate whose two periods differ, compared with what HAProxy sent","The current and the last period of a rate are exchanged in both directions, which the library's own round trip does not notice.")

mk("unknown-datatype-accepted","P18","peers/sticktable",[("peers/sticktable/sticktables.go","""			info := d.DataType.New()
			if info == nil {
				return offset, fmt.Errorf("unknown data type: %v", d.DataType)
			}

			if d.DataType.IsDelay() {
				counter, n, err""","""			if d.DataType.IsDelay() {
				counter, n, err""")],codec_test("sticktable_test",[],[ST],'''
func TestDemo(t *testing.T) {
	for bit := 0; bit < 64; bit++ {
		known := sticktable.DataType(bit).New() != nil
		d := sticktable.Definition{Name: "t", KeyType: sticktable.KeyTypeSignedInteger, KeyLength: 4, DataTypes: []sticktable.DataTypeDefinition{{DataType: sticktable.DataType(bit)}}}
		b := make([]byte, 100)
		n, err := d.Marshal(b)
		if err != nil {
			t.Fatal(err)
		}
		var got sticktable.Definition
		if _, err := got.Unmarshal(b[:n]); (err == nil) != known {
			t.Errorf("data type %d: %v", bit, err)
		}
	}
}
'''),"a definition of a newer HAProxy that names a data type the library does not know","The definition is accepted although nothing can be decoded with it and the parameters of the unknown type are unknown.")

mk("incremental-base","P19","peers",[("peers/protocol.go","""	c.lastEntryUpdate = &e

	c.handler""","""	// Incremental updates count from the last full one.
	if e.WithLocalUpdateID {
		c.lastEntryUpdate = &e
	}

	c.handler""")],peer_test([],'''
func TestDemo(t *testing.T) {
	ids := make(chan uint32, 10)
	c := serve(t, &handler{update: func(_ context.Context, u *sticktable.EntryUpdate) { ids <- u.LocalUpdateID }})
	shake(t, c)
	c.Write(table())
	c.Write(msg(10, 0x80, 0, 0, 0, 7, 0, 0, 0, 1, 5))
	for i := 0; i < 3; i++ {
		c.Write(msg(10, 0x81, 0, 0, 0, 1, 5))
	}
	for want := uint32(7); want < 11; want++ {
		select {
		case got := <-ids:
			if got != want {
				t.Errorf("update id %d, want %d", got, want)
			}
		case <-time.After(5 * time.Second):
			t.Fatal("no update")
		}
	}
}
'''),"two incremental updates in a row","Each incremental update gets the id after the last full update instead of the id after the previous update.")

mk("entry-id-outside-lock","P20","peers",[("peers/writer.go","""	w.mu.Lock()
	defer w.mu.Unlock()

	updateID := w.nextUpdateID
	w.nextUpdateID++

	msgType := StickTableUpdateMessageTypeEntryUpdate
	if entry.WithExpiry {
		msgType = StickTableUpdateMessageTypeUpdateTimed
	}

	offset, err := marshalEntry(w.buf, entry, updateID)
	if err != nil {
		return fmt.Errorf("marshaling entry update: %w", err)
	}

	if err := w.writeMessageLocked(
		MessageClassStickTableUpdates,
		byte(msgType),
		w.buf[:offset],
	); err != nil {
		return err
	}

	return w.bw.Flush()
}

// SendEntries""","""	w.mu.Lock()
	updateID := w.nextUpdateID
	w.nextUpdateID++
	w.mu.Unlock()

	msgType := StickTableUpdateMessageTypeEntryUpdate
	if entry.WithExpiry {
		msgType = StickTableUpdateMessageTypeUpdateTimed
	}

	// Marshal without holding up the other senders.
	buf := make([]byte, len(w.buf))
	offset, err := marshalEntry(buf, entry, updateID)
	if err != nil {
		return fmt.Errorf("marshaling entry update: %w", err)
	}

	w.mu.Lock()
	defer w.mu.Unlock()
	if err := w.writeMessageLocked(
		MessageClassStickTableUpdates,
		byte(msgType),
		buf[:offset],
	); err != nil {
		return err
	}

	return w.bw.Flush()
}

// SendEntries""")],peer_test(["bufio","encoding/binary","sync"],'''
func TestDemo(t *testing.T) {
	ws := make(chan *peers.Writer, 1)
	c := serve(t, &handler{handshake: func(ctx context.Context, _ *peers.Handshake) { ws <- peers.WriterFromContext(ctx) }})
	shake(t, c)
	w := <-ws
	def := &sticktable.Definition{Name: "t", KeyType: sticktable.KeyTypeSignedInteger, KeyLength: 4}
	const senders, each = 8, 2000
	var wg sync.WaitGroup
	for i := 0; i < senders; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < each; k++ {
				key := sticktable.SignedIntegerKey(k)
				if err := w.SendEntry(&sticktable.EntryUpdate{StickTable: def, Key: &key}); err != nil {
					t.Error(err)
				}
			}
		}()
	}
	r, last := bufio.NewReader(c), -1
	for n := 0; n < senders*each; {
		b := make([]byte, 2)
		c.SetReadDeadline(time.Now().Add(10 * time.Second))
		if _, err := io.ReadFull(r, b); err != nil {
			t.Fatal(err)
		}
		if b[1] < 128 {
			continue
		}
		b = make([]byte, 9) // length, id, key
		if _, err := io.ReadFull(r, b); err != nil {
			t.Fatal(err)
		}
		id := int(binary.BigEndian.Uint32(b[1:]))
		if id <= last {
			t.Fatalf("update id %d is sent after %d", id, last)
		}
		last = id
		n++
	}
	wg.Wait()
}
'''),"two senders, one of which is overtaken by the other between taking its id and writing","The update id is taken and the entry written under separate locks, so ids can appear on the wire out of order.")

mk("heartbeat-reset-on-receive","P21","peers",[("peers/protocol.go","""		if err := c.messageHandler(&m); err != nil {
			return fmt.Errorf("message handler: %v", err)
		}
""","""		c.resetHeartbeat()
		if err := c.messageHandler(&m); err != nil {
			return fmt.Errorf("receiving message: %v", err)
		}
""")],peer_test([],'''
func TestDemo(t *testing.T) {
	c := serve(t, &handler{})
	shake(t, c)
	got := make(chan error, 1)
	go func() {
		c.SetReadDeadline(time.Now().Add(8 * time.Second))
		_, err := io.ReadFull(c, make([]byte, 2))
		got <- err
	}()
	for i := 0; i < 9; i++ {
		c.Write([]byte{0, 4}) // a heartbeat of the remote
		select {
		case err := <-got:
			if err != nil {
				t.Fatal(err)
			}
			return
		case <-time.After(time.Second):
		}
	}
	t.Fatal("no heartbeat within 8 seconds")
}
'''),"a remote that sends something more often than every three seconds","Whatever the remote sends postpones our own heartbeat, so a busy remote receives nothing for more than five seconds and drops us.")

mk("handler-source-once","P22","peers",[("peers/peers.go","""	for {
		nc, err := l.Accept()
		if err != nil {
			return fmt.Errorf("accepting conn: %w", err)
		}
""","""	var handler Handler
	for {
		nc, err := l.Accept()
		if err != nil {
			return fmt.Errorf("accepting conn: %w", err)
		}
		if handler == nil {
			handler = source()
			source = func() Handler { return handler }
		}
""")],peer_test(["sync/atomic"],'''
func TestDemo(t *testing.T) {
	log.SetOutput(io.Discard)
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	defer l.Close()
	var mu atomic.Int32
	p := &peers.Peer{HandlerSource: func() peers.Handler {
		mu.Add(1)
		return &handler{}
	}}
	go p.Serve(l)
	for i := int32(1); i < 4; i++ {
		c, err := net.Dial("tcp", l.Addr().String())
		if err != nil {
			t.Fatal(err)
		}
		defer c.Close()
		shake(t, c)
		if n := mu.Load(); n != i {
			t.Errorf("%d handlers for %d connections", n, i)
		}
	}
}
'''),"more than one connection to a Peer with a HandlerSource","All connections share the handler of the first one, which is closed when any of them ends.")

mk("size-limit-error-ignored","P23","peers",[("peers/protocol.go","""		return fmt.Errorf("message size limit")
""","""		log.Println("remote could not handle one of our messages")
		return nil
""")],peer_test([],'''
func TestDemo(t *testing.T) {
	for typ := byte(0); typ < 3; typ++ {
		c := serve(t, &handler{})
		shake(t, c)
		c.Write([]byte{1, typ})
		c.SetReadDeadline(time.Now().Add(2 * time.Second))
		if _, err := io.ReadFull(c, make([]byte, 1)); err != io.EOF {
			t.Errorf("the session goes on after an error message of type %d: %v", typ, err)
		}
	}
}
'''),"an error message of the remote about the size of a message","The session goes on although the remote reported that it lost the state of it.")

mk("sync-finished-reply","P24","peers",[("peers/protocol.go","""	case ControlMessageSyncFinished:
		return nil
""","""	case ControlMessageSyncFinished:
		_, err := c.lockedWrite([]byte{byte(MessageClassControl), byte(ControlMessageSyncConfirmed)})
		return err
""")],peer_test([],'''
func TestDemo(t *testing.T) {
	for typ := byte(1); typ < 5; typ++ {
		c := serve(t, &handler{})
		shake(t, c)
		c.Write([]byte{0, typ})
		c.SetReadDeadline(time.Now().Add(500 * time.Millisecond))
		b := make([]byte, 2)
		if n, _ := io.ReadFull(c, b); n > 0 {
			t.Errorf("control message %d is answered with %v", typ, b)
		}
	}
}
'''),"a remote that reports the end of a synchronisation that was not asked for","A finished synchronisation is confirmed although none was requested.")

mk("grow-counts-read-space","P25","pkg/buffer",[("pkg/buffer/slicebuf.go","	if n <= len(s.buf)-s.writeOffset {","	if n <= len(s.buf)-s.Len() {")],
codec_test("buffer_test",[],["github.com/dropmorepackets/haproxy-go/pkg/buffer"],'''
func TestDemo(t *testing.T) {
	for read := 0; read <= 8; read++ {
		b := buffer.NewSliceBuffer(10)
		copy(b.WriteNBytes(8), "01234567")
		b.ReadNBytes(read)
		b.Grow(6)
		if n := len(b.WriteBytes()); n < 6 {
			t.Errorf("%d bytes read: there is room for %d bytes after Grow(6)", read, n)
		}
	}
}
'''),"growing a buffer of which some bytes have been read","Space in front of the unread bytes counts as available although it is not, so the requested space is missing.")

mk("batch-flush-error","P26","peers",[("peers/writer.go","""		if err := w.writeMessageLocked(
			MessageClassStickTableUpdates,
			byte(msgType),
			w.buf[:offset],
		); err != nil {
			return err
		}
	}

	return w.bw.Flush()
""","""		if err := w.writeMessageLocked(
			MessageClassStickTableUpdates,
			byte(msgType),
			w.buf[:offset],
		); err != nil {
			return err
		}
	}

	_ = w.bw.Flush()
	return nil
""")],head("peers",{"errors","sync","testing"},["github.com/dropmorepackets/haproxy-go/peers/sticktable"])+'''
type brokenConn struct{}

func (brokenConn) Write([]byte) (int, error) { return 0, errors.New("broken pipe") }

func TestDemo(t *testing.T) {
	def := &sticktable.Definition{Name: "t", KeyType: sticktable.KeyTypeSignedInteger, KeyLength: 4}
	var key sticktable.SignedIntegerKey
	e := &sticktable.EntryUpdate{StickTable: def, Key: &key}
	if newWriter(brokenConn{}, &sync.Mutex{}).SendEntry(e) == nil {
		t.Error("SendEntry reports no error")
	}
	if newWriter(brokenConn{}, &sync.Mutex{}).SendEntries([]*sticktable.EntryUpdate{e, e}) == nil {
		t.Error("SendEntries reports no error")
	}
}
''',"a connection that fails while the end of a batch is flushed","SendEntries reports success although its entries did not reach the connection.")

mk("hello-capabilities-separator","P27","spop",[("spop/frames.go",'strings.Join(a.Capabilities, ",")','strings.Join(a.Capabilities, " ")')],codec_test("spop_test",["bytes"],["github.com/dropmorepackets/haproxy-go/spop"],'''
func TestDemo(t *testing.T) {
	var b bytes.Buffer
	f := spop.AgentHelloFrame{Version: "2.0", Capabilities: []string{"pipelining", "async"}, MaxFrameSize: 16380}
	if _, err := f.WriteTo(&b); err != nil {
		t.Fatal(err)
	}
	if !bytes.HasSuffix(b.Bytes(), []byte("\\x10pipelining,async")) {
		t.Errorf("%q", b.Bytes())
	}
}
'''),"an AGENT-HELLO with more than one capability","Capabilities are not separated by commas, so HAProxy sees one unknown capability.")
