import sys, os; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib import *
ENC="github.com/dropmorepackets/haproxy-go/pkg/encoding"
ST="github.com/dropmorepackets/haproxy-go/peers/sticktable"
PE="github.com/dropmorepackets/haproxy-go/peers"

mk("resent-notify","P30","spop",[("spop/protocol.go","""	gotHello bool
}
""","""	gotHello bool

	ackedMu sync.Mutex
	acked   map[uint32]struct{}
}

// firstTime tells a NOTIFY from one that HAProxy has sent before.
func (c *protocolClient) firstTime(f *frame) bool {
	key := uint32(f.meta.StreamID)<<8 | uint32(f.meta.FrameID)&0xff
	c.ackedMu.Lock()
	defer c.ackedMu.Unlock()
	if _, ok := c.acked[key]; ok {
		return false
	}
	if c.acked == nil {
		c.acked = make(map[uint32]struct{})
	}
	c.acked[key] = struct{}{}
	return true
}
"""),("spop/protocol.go","""	"log"
	"syscall"
""","""	"log"
	"sync"
	"syscall"
"""),("spop/protocol.go","""func (c *protocolClient) onNotify(f *frame) error {
""","""func (c *protocolClient) onNotify(f *frame) error {
	if !c.firstTime(f) {
		return nil
	}

""")],spop_test([],'''
// TestDemo: every NOTIFY on a long-lived connection is answered.
func TestDemo(t *testing.T) {
	l := serve(t, context.Background(), func(context.Context, *encoding.ActionWriter, *encoding.Message) {})
	c := dial(t, l)
	shake(t, c, 16380)
	for i := uint64(1); i <= 600; i++ {
		c.Write(frame(3, 7, i, message(nil, "m", "a", "b")))
		if f := readFrame(c, 5*time.Second); f == nil || f[0] != 103 {
			t.Fatalf("NOTIFY %d of a stream was not acknowledged: %q", i, f)
		}
	}
}
'''),"a NOTIFY whose frame id is 256 above the one of an earlier NOTIFY on the same stream","NOTIFYs are taken for repeated ones and left unanswered.")

mk("panic-budget","P30","spop",[("spop/protocol.go","""	gotHello bool
}
""","""	gotHello bool
	panics   atomic.Int32
}

// maxPanics is how often a handler may panic on one connection.
const maxPanics = 100
"""),("spop/protocol.go","""	"log"
	"syscall"
""","""	"log"
	"sync/atomic"
	"syscall"
"""),("spop/protocol.go","""			if err != nil {
				return err
			}

			if err := m.KV.Discard(); err != nil {
""","""			if err != nil {
				if c.panics.Add(1) >= maxPanics {
					c.ctxCancel(err)
				}
				return err
			}

			if err := m.KV.Discard(); err != nil {
""")],spop_test([],'''
// TestDemo: the context of a handler lives as long as the connection.
func TestDemo(t *testing.T) {
	var n int
	l := serve(t, context.Background(), func(ctx context.Context, aw *encoding.ActionWriter, _ *encoding.Message) {
		n++
		if n <= 300 {
			panic("demo")
		}
		aw.SetBool(encoding.VarScopeSession, "ended", ctx.Err() != nil)
	})
	c := dial(t, l)
	shake(t, c, 16380)
	for i := uint64(1); i <= 301; i++ {
		c.Write(frame(3, 7, i, message(nil, "m", "a", "b")))
	}
	f := readFrame(c, 5*time.Second)
	if f == nil || f[0] != 103 {
		t.Fatalf("no ACK: %q", f)
	}
	if f[len(f)-1] != 1 {
		t.Fatal("the context has ended while the connection is open")
	}
}
'''),"a connection on which the handler has panicked a hundred times","The context of the connection ends while the connection is still open and served.")

mk("notify-afterfunc","P30","spop",[("spop/protocol.go","""func (c *protocolClient) onNotify(f *frame) error {
	s := encoding""","""func (c *protocolClient) onNotify(f *frame) error {
	var abort atomic.Bool
	context.AfterFunc(c.ctx, func() { abort.Store(true) })

	s := encoding"""),("spop/protocol.go","""		for s.Next(m) {
""","""		for !abort.Load() && s.Next(m) {
"""),("spop/protocol.go","""	"log"
	"syscall"
""","""	"log"
	"sync/atomic"
	"syscall"
""")],spop_test(["runtime"],'''
func objects() uint64 {
	for i := 0; i < 3; i++ {
		runtime.GC()
	}
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return m.HeapObjects
}

// TestDemo: a connection does not grow with the NOTIFYs it has carried.
func TestDemo(t *testing.T) {
	l := serve(t, context.Background(), func(context.Context, *encoding.ActionWriter, *encoding.Message) {})
	c := dial(t, l)
	shake(t, c, 16380)
	var before uint64
	for i := uint64(1); i <= 11000; i++ {
		if i == 1000 {
			before = objects()
		}
		c.Write(frame(3, 7, i, message(nil, "m", "a", "b")))
		if f := readFrame(c, 5*time.Second); f == nil {
			t.Fatal("no ACK")
		}
	}
	if after := objects(); after > before+5000 {
		t.Fatalf("%d objects after 1000 NOTIFYs, %d after 11000", before, after)
	}
}
'''),"a long-lived connection","Each NOTIFY leaves a registration at the context of its connection, so the memory of a connection grows until it ends.")

mk("address-unmapped","P31","peers/sticktable",[("peers/sticktable/values.go","""	*v = IPv6AddressKey(netip.AddrFrom16([16]byte(b)))

	return 16, nil
}

func (v *IPv6AddressKey) String() string {
	return (*netip.Addr)(v).String()
""","""	*v = IPv6AddressKey(netip.AddrFrom16([16]byte(b)))

	return 16, nil
}

func (v *IPv6AddressKey) String() string {
	return (*netip.Addr)(v).Unmap().WithZone("").String()
""")],codec_test("sticktable_test",[],[ST],'''
func TestDemo(t *testing.T) {
	b := make([]byte, 16)
	b[10], b[11], b[12], b[15] = 0xff, 0xff, 10, 1
	var k sticktable.IPv6AddressKey
	if _, err := k.Unmarshal(b, 16); err != nil {
		t.Fatal(err)
	}
	if s := k.String(); s != "::ffff:10.0.0.1" {
		t.Fatalf("printed as %s", s)
	}
}
'''),"an IPv6 key in ::ffff:0:0/96","IPv4-mapped IPv6 keys print like IPv4 keys.")

mk("key-as-format","P31","peers/sticktable",[("peers/sticktable/sticktables.go","""	return fmt.Sprintf("EntryUpdate %d: %s - %s", e.LocalUpdateID, e.Key, strings.Join(data, " | "))
""","""	prefix := fmt.Sprintf("EntryUpdate %d: ", e.LocalUpdateID)
	if e.Key != nil {
		prefix += e.Key.String()
	}
	format := prefix + " - %s"
	return fmt.Sprintf(format, strings.Join(data, " | "))
""")],codec_test("sticktable_test",[],[ST],'''
func TestDemo(t *testing.T) {
	k := sticktable.StringKey("/a%20b")
	u := sticktable.EntryUpdate{StickTable: &sticktable.Definition{KeyType: sticktable.KeyTypeString}, Key: &k, LocalUpdateID: 3}
	if s := u.String(); s != "EntryUpdate 3: /a%20b - " {
		t.Fatalf("printed as %q", s)
	}
}
'''),"a string key with a percent sign","Keys are taken for a format.")

mk("string-key-nul","P31","peers/sticktable",[("peers/sticktable/values.go","""func (v *StringKey) String() string {
	return string(*v)
}
""","""func (v *StringKey) String() string {
	// keys are padded to the length of the table
	return strings.TrimRight(string(*v), "\\x00")
}
"""),("peers/sticktable/values.go","""	"net/netip"
""","""	"net/netip"
	"strings"
""")],codec_test("sticktable_test",[],[ST],'''
func TestDemo(t *testing.T) {
	a, b := sticktable.StringKey("a"), sticktable.StringKey("a\\x00")
	if a.String() == b.String() {
		t.Fatal("two keys print the same")
	}
}
'''),"a string key that ends in NUL","Different keys print the same.")

mk("id-written-back","P32","peers",[("peers/writer.go","""	updateID := w.nextUpdateID
	w.nextUpdateID++

	msgType := StickTableUpdateMessageTypeEntryUpdate
	if entry.WithExpiry {
		msgType = StickTableUpdateMessageTypeUpdateTimed
	}

	offset, err := marshalEntry(w.buf, entry, updateID)
	if err != nil {
		return fmt.Errorf("marshaling entry update: %w", err)
	}

	if err := w.writeMessageLocked(
		MessageClassStickTableUpdates,
		byte(msgType),
		w.buf[:offset],
	); err != nil {
		return err
	}

	return w.bw.Flush()
""","""	updateID := w.nextUpdateID
	w.nextUpdateID++

	msgType := StickTableUpdateMessageTypeEntryUpdate
	if entry.WithExpiry {
		msgType = StickTableUpdateMessageTypeUpdateTimed
	}

	// let the caller know the id
	entry.LocalUpdateID = updateID

	offset, err := marshalEntry(w.buf, entry, updateID)
	if err != nil {
		return fmt.Errorf("marshaling entry update: %w", err)
	}

	if err := w.writeMessageLocked(
		MessageClassStickTableUpdates,
		byte(msgType),
		w.buf[:offset],
	); err != nil {
		return err
	}

	return w.bw.Flush()
""")],peer_test([],'''
func TestDemo(t *testing.T) {
	ws := make(chan *peers.Writer, 1)
	c := serve(t, &handler{handshake: func(ctx context.Context, _ *peers.Handshake) { ws <- peers.WriterFromContext(ctx) }})
	shake(t, c)
	go io.Copy(io.Discard, c)
	k := sticktable.SignedIntegerKey(1)
	v := sticktable.UnsignedIntegerData(1)
	u := &sticktable.EntryUpdate{StickTable: &sticktable.Definition{Name: "t", KeyType: sticktable.KeyTypeSignedInteger, KeyLength: 4,
		DataTypes: []sticktable.DataTypeDefinition{{DataType: sticktable.DataTypeGPC0}}}, WithLocalUpdateID: true, LocalUpdateID: 77, Key: &k, Data: []sticktable.MapData{&v}}
	w := <-ws
	w.SendTableDefinition(u.StickTable)
	w.SendEntry(u)
	if u.LocalUpdateID != 77 {
		t.Fatalf("sending changed the id of the update to %d", u.LocalUpdateID)
	}
}
'''),"an update that the application keeps and sends on to another peer with SendEntry","Sending an update overwrites the id its sender gave it, for everyone who holds the update.")

mk("entries-released","P32","peers",[("peers/writer.go","""			w.buf[:offset],
		); err != nil {
			return err
		}
	}

	return w.bw.Flush()
}
""","""			w.buf[:offset],
		); err != nil {
			return err
		}
	}

	if err := w.bw.Flush(); err != nil {
		return err
	}
	clear(entries) // don't keep the updates alive
	return nil
}
""")],peer_test([],'''
func TestDemo(t *testing.T) {
	ws := make(chan *peers.Writer, 1)
	c := serve(t, &handler{handshake: func(ctx context.Context, _ *peers.Handshake) { ws <- peers.WriterFromContext(ctx) }})
	shake(t, c)
	go io.Copy(io.Discard, c)
	k := sticktable.SignedIntegerKey(1)
	v := sticktable.UnsignedIntegerData(1)
	u := &sticktable.EntryUpdate{StickTable: &sticktable.Definition{Name: "t", KeyType: sticktable.KeyTypeSignedInteger, KeyLength: 4,
		DataTypes: []sticktable.DataTypeDefinition{{DataType: sticktable.DataTypeGPC0}}}, WithLocalUpdateID: true, LocalUpdateID: 77, Key: &k, Data: []sticktable.MapData{&v}}
	w := <-ws
	w.SendTableDefinition(u.StickTable)
	us := []*sticktable.EntryUpdate{u}
	w.SendEntries(us)
	if us[0] != u {
		t.Fatal("sending emptied the list of the caller")
	}
}
'''),"a list of updates that is sent to more than one peer","SendEntries clears the list it was given, so that a second send of it panics.")

mk("types-sorted-in-place","P32","peers/sticktable",[("peers/sticktable/sticktables.go","""	for _, dataType := range s.DataTypes {
		dataTypes |= 1 << dataType.DataType
	}
""","""	for _, dataType := range s.DataTypes {
		dataTypes |= 1 << dataType.DataType
	}
	// the windows follow in the order of the counters
	sort.SliceStable(s.DataTypes, func(i, j int) bool {
		return !s.DataTypes[i].DataType.IsDelay() && s.DataTypes[j].DataType.IsDelay()
	})
"""),("peers/sticktable/sticktables.go","""	"fmt"
	"strings"
""","""	"fmt"
	"sort"
	"strings"
""")],codec_test("sticktable_test",[],[ST],'''
func TestDemo(t *testing.T) {
	d := sticktable.Definition{Name: "t", KeyType: sticktable.KeyTypeSignedInteger, KeyLength: 4, DataTypes: []sticktable.DataTypeDefinition{
		{DataType: sticktable.DataTypeGPC0}, {DataType: sticktable.DataTypeGPC0Rate, Counter: 1, Period: 10}, {DataType: sticktable.DataTypeGPC1}}}
	if _, err := d.Marshal(make([]byte, 200)); err != nil {
		t.Fatal(err)
	}
	if d.DataTypes[1].DataType != sticktable.DataTypeGPC0Rate {
		t.Fatalf("sending the definition changed it: %v", d.DataTypes)
	}
}
'''),"a table with a rate before a counter whose definition is sent on while updates of it are kept","Sending a definition reorders its data types, so that the values of the updates that refer to it are attributed to the wrong types.")

mk("grow-copies-256k","P04","pkg/encoding",[("pkg/encoding/actionwriter.go","""	data := make([]byte, size)
	copy(data, aw.data[:aw.off])
	aw.data = data
""","""	data := make([]byte, size)
	for i := 0; i < aw.off; i += growChunk {
		end := min(i+growChunk, aw.off)
		copy(data[i:end], aw.data[i:])
		if end-i < growChunk || i >= maxChunks*growChunk {
			break
		}
	}
	aw.data = data
"""),("pkg/encoding/actionwriter.go","""func varintLen(v uint64) int {
""","""const (
	growChunk = 4 << 10
	maxChunks = 64
)

func varintLen(v uint64) int {
""")],codec_test("encoding_test",["bytes"],[ENC],'''
func TestDemo(t *testing.T) {
	w := encoding.NewActionWriter(make([]byte, 100), 0)
	v := bytes.Repeat([]byte("v"), 1000)
	for i := 0; i < 1000; i++ {
		if err := w.SetBinary(encoding.VarScopeSession, "n", v); err != nil {
			t.Fatal(err)
		}
	}
	if n := bytes.Count(w.Bytes(), []byte("v")); n != 1000*1000 {
		t.Fatalf("%d of 1000000 bytes are there", n)
	}
}
'''),"an action list of more than 260 KiB, which an agent and a HAProxy with large buffers can exchange","The list has zeroes where the actions past 260 KiB were.")

mk("tag-dash-prefix","P07","pkg/encoding",[("pkg/encoding/kvunmarshal.go","""		if tag == "" || tag == "-" {
""","""		if tag == "" || tag[0] == '-' {
""")],codec_test("encoding_test",[],[ENC],'''
func TestDemo(t *testing.T) {
	b := make([]byte, 100)
	w := encoding.NewKVWriter(b, 0)
	if err := w.SetString("-v", "x"); err != nil {
		t.Fatal(err)
	}
	var s struct {
		V string `spoe:"-v"`
	}
	if err := encoding.NewKVScanner(w.Bytes(), 1).Unmarshal(&s); err != nil || s.V != "x" {
		t.Fatalf("%q, %v", s.V, err)
	}
}
'''),"a field whose tag starts with a dash","The field is skipped although only the tag \"-\" means that.")

mk("switch-forgets-table","P19","peers",[("peers/protocol.go","""		log.Printf("not implemented: %s", t)
		return nil
""","""		if len(m.Data) == 0 {
			return fmt.Errorf("table switch without table")
		}
		// Updates for another table must not end up in this one.
		if d := c.lastTableDefinition; d != nil && d.StickTableID != uint64(m.Data[0]) {
			log.Printf("not implemented: %s", t)
			c.lastTableDefinition = nil
		}
		return nil
""")],peer_test([],'''
func TestDemo(t *testing.T) {
	ids := make(chan uint32, 10)
	c := serve(t, &handler{update: func(_ context.Context, u *sticktable.EntryUpdate) { ids <- u.LocalUpdateID }})
	shake(t, c)
	c.Write(msg(10, 0x82, 0xfc, 3, 1, 't', 2, 4, 4, 60)) // table 300
	c.Write(msg(10, 0x83, 0xfc, 3))                    // the table in use
	c.Write(msg(10, 0x80, 0, 0, 0, 9, 0, 0, 0, 1, 1))
	select {
	case <-ids:
	case <-time.After(3 * time.Second):
		t.Fatal("no update after a switch to the table in use")
	}
}
'''),"a switch message for the table in use, with an id of 240 or more","Updates after it end the session.")

mk("partial-unflushed","P24","peers",[("peers/protocol.go","""		_, _ = c.lockedWrite([]byte{byte(MessageClassControl), byte(ControlMessageSyncPartial)})
		return nil
""","""		// Nothing waits for this, so let it go along with the next message
		// unless the remote has already sent more.
		c.wmu.Lock()
		_, _ = c.bw.Write([]byte{byte(MessageClassControl), byte(ControlMessageSyncPartial)})
		c.wmu.Unlock()
		if c.br.Buffered() == 0 {
			_, _ = c.lockedWrite(nil)
		}
		return nil
""")],peer_test([],'''
func TestDemo(t *testing.T) {
	c := serve(t, &handler{})
	shake(t, c)
	c.Write([]byte{0, 0, 0, 4}) // a request and a heartbeat at once
	b := make([]byte, 2)
	c.SetReadDeadline(time.Now().Add(2 * time.Second))
	if _, err := io.ReadFull(c, b); err != nil || b[0] != 0 || b[1] != 2 {
		t.Fatalf("no reply to the request: %v, %v", b, err)
	}
}
'''),"a synchronization request that arrives together with another message, followed by silence","The reply waits for the next heartbeat.")
