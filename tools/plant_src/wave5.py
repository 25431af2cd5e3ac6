import sys, os; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib import *
ENC="github.com/dropmorepackets/haproxy-go/pkg/encoding"
ST="github.com/dropmorepackets/haproxy-go/peers/sticktable"
TU="github.com/dropmorepackets/haproxy-go/pkg/testutil"

mk("unmarshal-bitmask","P07","pkg/encoding",[("pkg/encoding/kvunmarshal.go","""	setPointerFields := make(map[int]bool, len(pointerFieldIndices))
""","""	var setPointerFields uint64
"""),("pkg/encoding/kvunmarshal.go","""			setPointerFields[fi.fieldIdx] = true
""","""			setPointerFields |= 1 << fi.fieldIdx
"""),("pkg/encoding/kvunmarshal.go","""		if !setPointerFields[idx] {
""","""		if setPointerFields&(1<<idx) == 0 {
""")],codec_test("encoding_test",["fmt","reflect"],["github.com/dropmorepackets/haproxy-go/pkg/encoding"],'''
func TestDemo(t *testing.T) {
	var fields []reflect.StructField
	w := encoding.NewKVWriter(make([]byte, 1<<16), 0)
	for i := 0; i < 70; i++ {
		name := fmt.Sprintf("f%d", i)
		fields = append(fields, reflect.StructField{Name: "F" + name, Type: reflect.TypeOf(new(string)), Tag: reflect.StructTag(`spoe:"` + name + `"`)})
		if err := w.SetString(name, name); err != nil {
			t.Fatal(err)
		}
	}
	v := reflect.New(reflect.StructOf(fields))
	if err := encoding.NewKVScanner(w.Bytes(), 70).Unmarshal(v.Interface()); err != nil {
		t.Fatal(err)
	}
	for i := 0; i < 70; i++ {
		if p := v.Elem().Field(i).Interface().(*string); p == nil || *p != fmt.Sprintf("f%d", i) {
			t.Fatalf("field %d: %v", i, p)
		}
	}
}
'''),"an optional field that is the 65th or later of its struct","It is nil although the list has a value for it.")

mk("handshake-two-numbers","P24","peers",[("peers/messages.go","""	_, err = fmt.Sscanf(line, "%s %d %d", &h.LocalPeerIdentifier, &h.ProcessID, &h.RelativeProcessID)
	if err != nil {
		return -1, err
	}
""","""	// Later versions of HAProxy may stop sending the relative process ID.
	n2, err := fmt.Sscanf(line, "%s %d %d", &h.LocalPeerIdentifier, &h.ProcessID, &h.RelativeProcessID)
	if err != nil && n2 < 2 {
		return -1, err
	}
""")],peer_test([],'''
func TestDemo(t *testing.T) {
	called := make(chan bool, 1)
	c := serve(t, &handler{handshake: func(context.Context, *peers.Handshake) { called <- true }})
	fmt.Fprintf(c, "HAProxyS 2.1\\nme\\nyou 12 x\\n")
	c.SetReadDeadline(time.Now().Add(3 * time.Second))
	if b, _ := io.ReadAll(c); len(b) > 0 {
		t.Fatalf("answer %q to a malformed handshake", b)
	}
	select {
	case <-called:
		t.Fatal("handler called")
	default:
	}
}
'''),"a handshake whose last number is malformed or missing","The peer is accepted.")

mk("peers-listen-tcp4","P28","peers",[("peers/peers.go","""	l, err := net.Listen("tcp", a.Addr)
""","""	l, err := net.Listen(network(a.Addr), a.Addr)
"""),("peers/peers.go","""type contextKey string
""","""// network avoids dual-stack sockets for the unspecified address.
func network(addr string) string {
	if host, _, err := net.SplitHostPort(addr); err == nil && (host == "" || host == "localhost") {
		return "tcp4"
	}
	return "tcp"
}

type contextKey string
""")],peer_test(["strconv"],'''
func TestDemo(t *testing.T) {
	log.SetOutput(io.Discard)
	l, err := net.Listen("tcp", "[::1]:0")
	if err != nil {
		t.Skip(err)
	}
	port := l.Addr().(*net.TCPAddr).Port
	l.Close()
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	p := &peers.Peer{Handler: &handler{}, Addr: ":" + strconv.Itoa(port), BaseContext: ctx}
	go p.ListenAndServe()
	for i := 0; ; i++ {
		c, err := net.Dial("tcp", "[::1]:"+strconv.Itoa(port))
		if err == nil {
			shake(t, c)
			c.Close()
			return
		}
		if i == 50 {
			t.Fatal(err)
		}
		time.Sleep(20 * time.Millisecond)
	}
}
'''),"an address without a host, and a remote that connects over IPv6","Nothing listens there.")

mk("long-key-rejected","P17","peers/sticktable",[("peers/sticktable/values.go","""	if valueLength == 0 {
		return n, nil
	}
	if valueLength > uint64(len(b)-n) {
		return n, encoding.ErrUnterminatedSequence
	}
	*v = StringKey(""","""	// Keys are limited by the buffers of HAProxy, which have 16 kB each.
	if valueLength-1 >= 1<<20-1 {
		if valueLength > 0 {
			err = encoding.ErrUnterminatedSequence
		}
		return n, err
	}
	if valueLength > uint64(len(b)-n) {
		return n, encoding.ErrUnterminatedSequence
	}
	*v = StringKey(""")],codec_test("sticktable_test",["strings"],["github.com/dropmorepackets/haproxy-go/peers/sticktable"],'''
func TestDemo(t *testing.T) {
	key := sticktable.StringKey(strings.Repeat("x", 1<<20))
	b := make([]byte, len(key)+10)
	n, err := key.Marshal(b, 32)
	if err != nil {
		t.Fatal(err)
	}
	var got sticktable.StringKey
	if m, err := got.Unmarshal(b[:n], 32); err != nil || m != n || got != key {
		t.Fatalf("%d of %d bytes, %v", m, n, err)
	}
}
'''),"a string key of a megabyte or more","It is taken for a truncated one.")

mk("sync-reply-queue","P24","peers",[("peers/protocol.go","""		_, _ = c.lockedWrite([]byte{byte(MessageClassControl), byte(ControlMessageSyncPartial)})
		return nil
""","""		// Do not let a remote that is slow to read its replies keep us from
		// reading its updates.
		select {
		case c.replies <- [2]byte{byte(MessageClassControl), byte(ControlMessageSyncPartial)}:
		default:
		}
		return nil
"""),("peers/protocol.go","""	handler Handler
}
""","""	handler Handler

	replies chan [2]byte
}
"""),("peers/protocol.go","""	c.wmu = wmu
""","""	c.wmu = wmu
	c.replies = make(chan [2]byte, 16)
"""),("peers/protocol.go","""	go c.heartbeat()
""","""	go c.heartbeat()
	go c.reply()
"""),("peers/protocol.go","""func (c *protocolClient) lastMessage() {
""","""func (c *protocolClient) reply() {
	for {
		select {
		case <-c.ctx.Done():
			return
		case b := <-c.replies:
			if _, err := c.lockedWrite(b[:]); err != nil {
				c.ctxCancel()
				return
			}
		}
	}
}

func (c *protocolClient) lastMessage() {
""")],peer_test(["bytes"],'''
func TestDemo(t *testing.T) {
	c := serve(t, &handler{})
	shake(t, c)
	const n = 20000
	go c.Write(make([]byte, 2*n))
	got, b := 0, make([]byte, 4096)
	c.SetReadDeadline(time.Now().Add(2 * time.Second))
	for got < n {
		k, err := c.Read(b)
		got += bytes.Count(b[:k], []byte{2})
		if err != nil {
			t.Fatalf("%d replies to %d requests", got, n)
		}
	}
}
'''),"many synchronization requests in a row","Those that do not fit the queue get no reply.")

mk("session-limit","P22","peers",[("peers/peers.go","""	for {
		nc, err := l.Accept()
""","""	sessions := make(chan struct{}, 128)
	for {
		nc, err := l.Accept()
"""),("peers/peers.go","""		go func() {
			defer nc.Close()
			defer p.Close()
""","""		// A remote has few connections, so don't keep state for those of others.
		select {
		case sessions <- struct{}{}:
		default:
			nc.Close()
			continue
		}
		go func() {
			defer func() { <-sessions }()
			defer nc.Close()
			defer p.Close()
""")],peer_test([],'''
func TestDemo(t *testing.T) {
	log.SetOutput(io.Discard)
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	defer l.Close()
	p := &peers.Peer{Handler: &handler{}}
	go p.Serve(l)
	for i := 0; i < 140; i++ {
		c, err := net.Dial("tcp", l.Addr().String())
		if err != nil {
			t.Fatal(err)
		}
		defer c.Close()
		shake(t, c)
	}
}
'''),"more than 128 sessions at the same time","Further ones are closed without a handshake, and their handler is never closed.")


mk("putaddr-append","P03","pkg/encoding",[("pkg/encoding/encoding.go",'''	if len(b) < len(s) {
		return 0, ErrInsufficientSpace
	}

	copy(b, s)
	return len(s), nil
''','''	if cap(b) < len(s) {
		return 0, ErrInsufficientSpace
	}

	return len(append(b[:0], s...)), nil
''')],codec_test("encoding_test",["net/netip"],[ENC],'''
func TestDemo(t *testing.T) {
	b := make([]byte, 64)
	w := encoding.NewKVWriter(b[:6], 0)
	if err := w.SetAddr("abc", netip.MustParseAddr("1.2.3.4")); err == nil {
		t.Fatal("no error for an address that does not fit")
	}
	for i, v := range b[6:] {
		if v != 0 {
			t.Fatalf("byte %d behind the buffer changed", i)
		}
	}
}
'''),"a buffer that is part of a larger one and too short for an address","The address ends up in the bytes behind the buffer.")

mk("varint-overlong","P01","pkg/encoding",[("pkg/encoding/varint.go",'''		val += v << r
		off++
		r += 7

		if v < 128 {
			break
		}
	}

	return val, off, nil
''','''		val += v << r
		off++
		r += 7

		if v < 128 {
			break
		}
		// Neither lengths nor counters are this large.
		if r > 53 && v == 255 {
			return 0, 0, ErrUnterminatedSequence
		}
	}

	return val, off, nil
''')],codec_test("encoding_test",[],[ENC],'''
func TestDemo(t *testing.T) {
	for _, v := range []uint64{1 << 62, 1<<63 - 1, 1 << 63, 1<<64 - 1, 1<<64 - 1<<57, 0x87f7f7f7f7f7f7ff, 0x8000000000000000 + 0x7ff0000000000000} {
		for d := uint64(0); d < 1<<12; d++ {
			v := v + d<<45
			b := make([]byte, 10)
			n, err := encoding.PutVarint(b, v)
			if err != nil {
				t.Fatal(err)
			}
			if got, m, err := encoding.Varint(b[:n]); got != v || m != n || err != nil {
				t.Fatalf("%x: %x, %d, %v", v, got, m, err)
			}
		}
	}
}
'''),"a value above 2^60 with certain high bits","It is reported as malformed.")

mk("definition-names-interned","P16","peers/sticktable",[("peers/sticktable/sticktables.go",'''	s.Name = string(b[offset : offset+int(nameLength)])
''','''	s.Name = intern(b[offset : offset+int(nameLength)])
'''),("peers/sticktable/sticktables.go",'''func (s *Definition) Unmarshal(b []byte) (int, error) {
''','''var names struct {
	sync.Mutex
	m map[[32]byte]string
}

// intern returns b as a string. Remotes announce the same few tables over and
// over, so these share their names.
func intern(b []byte) string {
	var k [32]byte
	if copy(k[:], b) < len(b)-8 {
		return string(b)
	}

	names.Lock()
	defer names.Unlock()
	s, ok := names.m[k]
	if !ok {
		s = string(b)
		if names.m == nil || len(names.m) > 1000 {
			names.m = make(map[[32]byte]string)
		}
		names.m[k] = s
	}
	return s
}

func (s *Definition) Unmarshal(b []byte) (int, error) {
'''),("peers/sticktable/sticktables.go",'''	"fmt"
	"strings"
''','''	"fmt"
	"strings"
	"sync"
''')],codec_test("sticktable_test",["strings"],[ST],'''
func TestDemo(t *testing.T) {
	for _, name := range []string{"a", "a\\x00", strings.Repeat("x", 32), strings.Repeat("x", 32) + "y"} {
		d := sticktable.Definition{Name: name, KeyType: sticktable.KeyTypeString, KeyLength: 8}
		b := make([]byte, 200)
		n, err := d.Marshal(b)
		if err != nil {
			t.Fatal(err)
		}
		var got sticktable.Definition
		if _, err := got.Unmarshal(b[:n]); err != nil || got.Name != name {
			t.Fatalf("%q instead of %q, %v", got.Name, name, err)
		}
	}
}
'''),"two tables whose names have 33 to 40 bytes and the same first 32, or differ in trailing NULs","The second definition gets the name of the first one.")

mk("pipe-write-under-lock","P33","pkg/testutil",[("pkg/testutil/pipeconn.go",'''		return 0, net.ErrClosed
	}
	c.closedMtx.Unlock()

	return c.rw.Write(b)
''','''		return 0, net.ErrClosed
	}
	defer c.closedMtx.Unlock()

	return c.rw.Write(b)
''')],codec_test("testutil_test",["time"],[TU],'''
func TestDemo(t *testing.T) {
	_, c := testutil.PipeConn()
	wrote := make(chan error, 1)
	go func() {
		_, err := c.Write([]byte("x"))
		wrote <- err
	}()
	time.Sleep(50 * time.Millisecond)
	closed := make(chan bool)
	go func() {
		c.Close()
		close(closed)
	}()
	for i := 0; i < 2; i++ {
		select {
		case <-wrote:
			wrote = nil
		case <-closed:
			closed = nil
		case <-time.After(3 * time.Second):
			t.Fatal("closing does not end a pending write")
		}
	}
}
'''),"a close while a write waits for the other end to read","Both wait forever.")

mk("repeat-reader-chunk","P33","pkg/testutil",[("pkg/testutil/reader.go",'''		// Calculate how many bytes to copy
		toCopy := min(len(p)-n, remaining)
		copy(p[n:], r.data[r.offset:r.offset+toCopy])
		n += toCopy
		r.offset += toCopy
''','''		// Once around, the rest can be copied from what is already there.
		if r.offset == 0 && n >= len(r.data) {
			for m := n; n < len(p); {
				n += copy(p[n:], p[m-len(r.data):n])
			}
			r.offset = n % len(r.data)
			break
		}

		// Calculate how many bytes to copy
		toCopy := min(len(p)-n, remaining)
		copy(p[n:], r.data[r.offset:r.offset+toCopy])
		n += toCopy
		r.offset += toCopy
''')],codec_test("testutil_test",[],[TU],'''
func TestDemo(t *testing.T) {
	r := testutil.NewRepeatReader([]byte("abc"))
	want := 0
	for _, n := range []int{2, 11, 1, 9, 4} {
		b := make([]byte, n)
		if m, err := r.Read(b); m != n || err != nil {
			t.Fatal(m, err)
		}
		for i, c := range b {
			if c != "abc"[want%3] {
				t.Fatalf("byte %d of %q", i, b)
			}
			want++
		}
	}
}
'''),"a read of more than twice the data that starts in the middle of it","The next read continues at the wrong place.")

mk("entry-scratch-shared","P20","peers",[("peers/writer.go",'''		buf: make([]byte, 65536),
''','''		buf: scratch.Get().([]byte),
'''),("peers/writer.go",'''func newWriter(w io.Writer, mu *sync.Mutex) *Writer {
''','''// scratch has the buffers of writers.
var scratch = sync.Pool{New: func() any { return make([]byte, 65536) }}

// release gives the buffer of a writer that is not needed anymore back.
func (w *Writer) release() { scratch.Put(w.buf) }

func newWriter(w io.Writer, mu *sync.Mutex) *Writer {
'''),("peers/peers.go",'''		p := newProtocolClient(ctx, nc, a.HandlerSource(), wmu, w.bufferedWriter())
		go func() {
''','''		p := newProtocolClient(ctx, nc, a.HandlerSource(), wmu, w.bufferedWriter())
		go func() {
			defer w.release()
''')],'package peers\n','a writer that is still used after its session has ended, while other sessions send','It encodes its entries into the buffer of another session.') if 0 else None
