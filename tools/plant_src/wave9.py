import sys, os; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib import *

mk("failed-batch-ids","P26","peers",[("peers/writer.go",'''	defer w.mu.Unlock()

	for _, entry := range entries {
		updateID := w.nextUpdateID
''','''	defer w.mu.Unlock()

	firstID := w.nextUpdateID
	for _, entry := range entries {
		updateID := w.nextUpdateID
'''),("peers/writer.go",'''		offset, err := marshalEntry(w.buf, entry, updateID)
		if err != nil {
			return''','''		offset, err := marshalEntry(w.buf, entry, updateID)
		if err != nil {
			// A batch that fails takes no ids.
			w.nextUpdateID = firstID
			return''')],codec_test("peers",["bytes","strings","sync"],["github.com/dropmorepackets/haproxy-go/peers/sticktable"],'''
func TestDemo(t *testing.T) {
	def := &sticktable.Definition{Name: "t", KeyType: sticktable.KeyTypeString, KeyLength: 100}
	entry := func(s string) *sticktable.EntryUpdate {
		key := sticktable.StringKey(s)
		return &sticktable.EntryUpdate{StickTable: def, Key: &key}
	}
	var b bytes.Buffer
	w := newWriter(&b, &sync.Mutex{})
	if w.SendEntries([]*sticktable.EntryUpdate{entry("a"), entry(strings.Repeat("x", 1<<17))}) == nil {
		t.Fatal("an entry that is too large is sent")
	}
	if err := w.SendEntry(entry("b")); err != nil {
		t.Fatal(err)
	}
	seen := map[string]bool{}
	for c := b.Bytes(); len(c) > 0; c = c[3+int(c[2]):] {
		if id := string(c[3:7]); seen[id] {
			t.Fatalf("two updates have id %x", id)
		} else {
			seen[id] = true
		}
	}
}
'''),"a batch of which the first entries can be encoded and a later one cannot, and a send after it","The entries before the failing one have been sent with ids that the next sends use again.")

mk("grow-compacts","P25","pkg/buffer",[("pkg/buffer/slicebuf.go",'''	buf := make([]byte, s.writeOffset+n)
	copy(buf, s.buf[:s.writeOffset])
	s.buf = buf
''','''	// Use the space in front of the unread bytes if that is enough.
	buf := s.buf
	if n > len(s.buf)-s.Len() {
		buf = make([]byte, s.Len()+n)
	}
	s.writeOffset = copy(buf, s.buf[s.readOffset:s.writeOffset])
	s.readOffset = 0
	s.buf = buf
''')],codec_test("buffer_test",[],["github.com/dropmorepackets/haproxy-go/pkg/buffer"],'''
func TestDemo(t *testing.T) {
	b := buffer.NewSliceBuffer(10)
	copy(b.WriteNBytes(8), "01234567")
	p := b.ReadNBytes(6)
	b.Grow(6)
	copy(b.WriteNBytes(6), "abcdef")
	if string(p) != "012345" {
		t.Errorf("the bytes read have changed to %q", p)
	}
	if s := string(b.ReadBytes()); s != "67abcdef" {
		t.Errorf("there is %q to read", s)
	}
}
'''),"growing a buffer by no more than the space of bytes that have been read","Growing exposes space that has been used: bytes that were handed out before are overwritten.")

mk("dict-early-alloc","P18","peers/sticktable",[("peers/sticktable/values.go",'''	if valueLength == 0 {
		return offset, nil
	}

	if valueLength > uint64(len(b)-offset) {
		return offset, encoding.ErrUnterminatedSequence
	}
	value := make([]byte, valueLength)
''','''	if valueLength == 0 {
		return offset, nil
	}

	value := make([]byte, valueLength)
	if len(value) > len(b)-offset {
		return offset, encoding.ErrUnterminatedSequence
	}
''')],codec_test("sticktable_test",["runtime"],["github.com/dropmorepackets/haproxy-go/peers/sticktable","github.com/dropmorepackets/haproxy-go/pkg/encoding"],'''
func TestDemo(t *testing.T) {
	for _, claimed := range []uint64{1 << 26, 1 << 63, 1<<64 - 1} {
		b := make([]byte, 32)
		b[0], b[1] = 31, 1
		if _, err := encoding.PutVarint(b[2:], claimed); err != nil {
			t.Fatal(err)
		}
		var before, after runtime.MemStats
		runtime.ReadMemStats(&before)
		if _, err := new(sticktable.DictData).Unmarshal(b); err == nil {
			t.Error("no error")
		}
		runtime.ReadMemStats(&after)
		if n := after.TotalAlloc - before.TotalAlloc; n > 1<<20 {
			t.Errorf("%d bytes allocated", n)
		}
	}
}
'''),"a dictionary entry that claims a value longer than the message","The value is allocated before its length is checked: a few bytes make the agent allocate gigabytes or panic.")

mk("update-context","P30","peers",[("peers/protocol.go",'''	c.handler.HandleUpdate(c.ctx, &e)
''','''	// Whoever keeps the context of an update learns why it has ended.
	ctx, cancel := context.WithCancelCause(c.ctx)
	context.AfterFunc(c.ctx, func() { cancel(errors.New("session over")) })
	c.handler.HandleUpdate(ctx, &e)
''')],peer_test(["runtime"],'''
func TestDemo(t *testing.T) {
	const n = 50000
	seen := make(chan bool, 100)
	c := serve(t, &handler{update: func(context.Context, *sticktable.EntryUpdate) { seen <- true }})
	shake(t, c)
	c.Write(table())
	run := func(from int) uint64 {
		go func() {
			for i := from; i < from+n; i++ {
				c.Write(msg(10, 0x80, 0, 0, byte(i>>8), byte(i), 0, 0, 0, 1, 1))
			}
		}()
		for i := 0; i < n; i++ {
			<-seen
		}
		runtime.GC()
		var m runtime.MemStats
		runtime.ReadMemStats(&m)
		return m.HeapAlloc
	}
	before := run(0)
	if after := run(n); after > before+n*50 {
		t.Errorf("%d updates have left %d bytes", n, after-before)
	}
}
'''),"many updates in one session","Each update leaves two registrations with the context of the session behind, so that the memory it uses grows without bounds.")

mk("healthcheck-first","P09","spop",[("spop/protocol.go",'''			if k.ValueBool() {
				defer c.ctxCancel(nil)
			}
		}
	}

	if err''','''			if k.ValueBool() {
				defer c.ctxCancel(nil)
				healthcheck = true
			}
		}
		// There is nothing else to learn for a health check.
		if healthcheck {
			break
		}
	}

	if err'''),("spop/protocol.go",'''	defer encoding.ReleaseKVEntry(k)
	for s.Next(k) {
		switch {
		case k.NameEquals(helloKeyMaxFrameSize):
''','''	defer encoding.ReleaseKVEntry(k)

	var healthcheck bool
	for s.Next(k) {
		switch {
		case k.NameEquals(helloKeyMaxFrameSize):
''')],spop_test([],'''
func TestDemo(t *testing.T) {
	l := serve(t, context.Background(), func(context.Context, *encoding.ActionWriter, *encoding.Message) {})
	hello := func(entries ...[]byte) []byte {
		var b []byte
		for _, e := range entries {
			b = append(b, e...)
		}
		return frame(1, 0, 0, b)
	}
	versions := append(append(str(nil, "supported-versions"), 8), str(nil, "2.0")...)
	size := putVarint(append(str(nil, "max-frame-size"), 3), 16380)
	caps := append(append(str(nil, "capabilities"), 8), str(nil, "")...)
	check := append(str(nil, "healthcheck"), 0x11)
	for _, h := range [][]byte{hello(versions, size, caps, check), hello(check, versions, size, caps)} {
		c := dial(t, l)
		c.Write(h)
		if f := readFrame(c, 5*time.Second); f == nil || f[0] != 101 {
			t.Errorf("no HELLO: %q", f)
		}
	}
}
'''),"a health check that names max-frame-size behind healthcheck","The HELLO is refused because its max-frame-size has not been read.")

mk("last-int-truncated","P06","pkg/encoding",[("pkg/encoding/kvscanner.go",'''		var v uint64
		v, n, k.lastErr = Varint(k.buf)
		if k.lastErr != nil {
			return false
		}
''','''		v, n, err := Varint(k.buf)
		if err != nil {
			// The entries end here.
			k.buf = nil
			return false
		}
''')],codec_test("encoding_test",[],["github.com/dropmorepackets/haproxy-go/pkg/encoding"],'''
func TestDemo(t *testing.T) {
	for _, count := range []int{-1, 1, 2} {
		s := encoding.NewKVScanner([]byte{1, 'a', 3, 250}, count)
		e := encoding.AcquireKVEntry()
		for s.Next(e) {
		}
		if s.Error() == nil {
			t.Errorf("%d entries: a number that is cut short is not reported", count)
		}
	}
}
'''),"an integer that is cut short in the last of the declared entries","The truncated entry is dropped without an error.")

mk("definition-expiry-int32","P16","peers/sticktable",[("peers/sticktable/sticktables.go",'''	s.Expiry = expiry
''','''	// Expiries are ticks, which HAProxy keeps in 32 bits.
	s.Expiry = uint64(uint32(expiry))
''')],codec_test("sticktable_test",["reflect"],["github.com/dropmorepackets/haproxy-go/peers/sticktable"],'''
func TestDemo(t *testing.T) {
	for _, expiry := range []uint64{1, 1<<32 - 1, 1 << 32} {
		d := sticktable.Definition{Name: "t", KeyType: sticktable.KeyTypeString, KeyLength: 9, Expiry: expiry}
		b := make([]byte, 100)
		n, err := d.Marshal(b)
		if err != nil {
			t.Fatal(err)
		}
		var e sticktable.Definition
		if _, err := e.Unmarshal(b[:n]); err != nil || !reflect.DeepEqual(d, e) {
			t.Errorf("%v becomes %v, %v", d, e, err)
		}
	}
}
'''),"a table with an expiry of 49 days or more","The expiry of the definition is cut to 32 bits.")
