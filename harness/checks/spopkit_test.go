package checks

import (
	"context"
	"errors"
	"fmt"
	"runtime"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/dropmorepackets/haproxy-go/pkg/encoding"
	"github.com/dropmorepackets/haproxy-go/spop"
	"pgregory.net/rapid"

	"verif/harness/memnet"
	"verif/harness/pbt"
	"verif/harness/ref"
)

// bubble runs fn in a synctest bubble: time is virtual, and synctest.Wait and
// Sleep tell when everything has come to rest. Goroutines that are left over
// are reported.
func bubble(r *pbt.R, fn func() error) (leaked bool, err error) {
	defer func() {
		if v := recover(); v != nil {
			s := fmt.Sprint(v)
			if strings.Contains(s, "blocked goroutines remain") {
				leaked = true
				return
			}
			panic(v)
		}
	}()
	synctest.Test(r.T, func(t *testing.T) {
		defer func() {
			if v := recover(); v != nil {
				if h, ok := v.(pbt.Harness); ok {
					panic(h)
				}
				err = fmt.Errorf("panic: %v", v)
			}
		}()
		err = fn()
	})
	return leaked, err
}

// rest lets d pass and everything come to rest.
func rest(d time.Duration) {
	time.Sleep(d)
	synctest.Wait()
}

// spMsg is a message of a NOTIFY, and what the handler does with it.
type spMsg struct {
	Tail  ref.Str    `json:",omitempty"` // of the name
	Args  []ref.KV   `json:",omitempty"`
	Read  int        `json:",omitempty"` // arguments looked at
	Echo  bool       `json:",omitempty"` // set a variable from each of them
	Ops   []actionOp `json:",omitempty"`
	Sleep int        `json:",omitempty"` // ms, between reading and acting
	Yield int        `json:",omitempty"`
	Panic int        `json:",omitempty"` // 1-4: kind of panic, after acting
}

type spNotify struct {
	Stream, Frame uint64
	Msgs          []spMsg
	Sizes         []int `json:",omitempty"` // of the chunks it arrives in
	Pause         int   `json:",omitempty"` // ms between chunks
	Pad           int   `json:",omitempty"` // used by P12: make the ACK this long
}

func (n spNotify) panics() bool {
	for _, m := range n.Msgs {
		if m.Panic != 0 {
			return true
		}
	}
	return false
}

// actions are those the handler requests.
func (n spNotify) actions() []ref.Action {
	var as []ref.Action
	for _, m := range n.Msgs {
		if m.Echo {
			for _, kv := range m.Args[:min(m.Read, len(m.Args))] {
				as = append(as, ref.Action{Kind: ref.ActSet, Scope: 1, Name: kv.Name, V: kv.V})
			}
		}
		for _, op := range m.Ops {
			if !op.Bad {
				as = append(as, op.A)
			}
		}
	}
	return as
}

// ackLen is the length of the frame that answers n.
func (n spNotify) ackLen() int {
	l := len(ref.FrameHeader(ref.Frame{Type: ref.FAck, Stream: n.Stream, ID: n.Frame}))
	for _, a := range n.actions() {
		l += len(ref.AppendAction(nil, a))
	}
	return l
}

func genNotify(t *rapid.T, max int) spNotify {
	n := spNotify{Stream: genU64(t, "stream"), Frame: genU64(t, "frame")}
	msgs := genCount(t, "nmsgs", 0, 3, countOf(max, 400))
	if chance(t, "many messages", 2) {
		msgs = pick(t, "manymsgs", 8, 16, 17, 40, 130, 260)
	}
	for k := msgs; k > 0; k-- {
		m := spMsg{Tail: genStr(t, "tail", 20), Args: genKVs(t, 4, max), Echo: chance(t, "echo", 50)}
		if msgs > 3 {
			m.Tail, m.Args = nil, m.Args[:min(1, len(m.Args))]
		} else if chance(t, "many arguments", 2) {
			for n := pick(t, "nargs", 16, 17, 64, 65, 127, 128, 129, 255-len(m.Args)); n > 0; n-- {
				m.Args = append(m.Args, ref.KV{Name: ref.Str(fmt.Sprint("arg", n)), V: ref.Value{T: ref.TInt32, Int: uint64(n)}})
			}
			m.Args = m.Args[:min(255, len(m.Args))]
		}
		m.Read = rapid.IntRange(0, len(m.Args)+1).Draw(t, "read")
		for j := genCount(t, "nops", 0, 3, countOf(max, 400)); j > 0; j-- {
			m.Ops = append(m.Ops, genActionOp(t, max))
		}
		if chance(t, "sleeps", 15) {
			m.Sleep = rapid.IntRange(1, 50).Draw(t, "sleep")
		}
		if chance(t, "yields", 30) {
			m.Yield = rapid.IntRange(1, 5).Draw(t, "yield")
		}
		n.Msgs = append(n.Msgs, m)
	}
	return n
}

// spWorld is an agent with a handler that follows the messages' scripts.
type spWorld struct {
	l      *memnet.Listener
	agent  *spop.Agent
	cancel context.CancelFunc
	served bool

	mu      sync.Mutex
	cond    *sync.Cond
	scripts map[string]*spMsg
	calls   map[string]int
	order   []string
	done    map[string]bool
	errs    []error
	noBase  bool // the agent has no base context
	brief   bool // the order of the calls is not recorded

	// other handles messages without a script.
	other func(context.Context, *encoding.ActionWriter, *encoding.Message)
}

type ctxKey struct{}

func newSpWorld() *spWorld {
	w := &spWorld{l: memnet.Listen(), scripts: map[string]*spMsg{}, calls: map[string]int{}, done: map[string]bool{}}
	w.cond = sync.NewCond(&w.mu)
	ctx, cancel := context.WithCancel(context.WithValue(context.Background(), ctxKey{}, w))
	w.cancel = cancel
	w.agent = &spop.Agent{Handler: spop.HandlerFunc(w.handle), BaseContext: ctx}
	return w
}

func (w *spWorld) serve() {
	go func() {
		_ = w.agent.Serve(w.l)
		w.mu.Lock()
		defer w.mu.Unlock()
		w.served = true
	}()
}

func (w *spWorld) fail(format string, args ...any) {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.errs = append(w.errs, fmt.Errorf(format, args...))
}

// err is the first thing that went wrong.
func (w *spWorld) err() error {
	w.mu.Lock()
	defer w.mu.Unlock()
	if len(w.errs) > 0 {
		return w.errs[0]
	}
	return nil
}

const healthy = "healthy/"

func spName(conn, notify, msg int, tail ref.Str) string {
	return fmt.Sprintf(healthy+"%d/%d/%d/", conn, notify, msg) + string(tail)
}

// script registers the messages of n and returns its frame.
func (w *spWorld) script(conn, i int, n *spNotify) ref.Frame {
	var payload []byte
	for j := range n.Msgs {
		m := &n.Msgs[j]
		name := spName(conn, i, j, m.Tail)
		w.mu.Lock()
		w.scripts[name] = m
		w.mu.Unlock()
		payload = ref.AppendMessage(payload, ref.Message{Name: ref.Str(name), Args: m.Args})
	}
	return ref.Frame{Type: ref.FNotify, Flags: ref.FlagFin, Stream: n.Stream, ID: n.Frame, Payload: payload}
}

func (w *spWorld) handle(ctx context.Context, aw *encoding.ActionWriter, m *encoding.Message) {
	name := string(m.NameBytes())
	w.mu.Lock()
	s := w.scripts[name]
	if s != nil {
		w.calls[name]++
		if !w.brief {
			w.order = append(w.order, name)
		}
	}
	w.mu.Unlock()
	if s == nil {
		if w.other == nil {
			w.fail("the handler is called with a message %s that was not sent", trunc(ref.Str(name)))
			return
		}
		w.other(ctx, aw, m)
		return
	}
	defer func() {
		w.mu.Lock()
		defer w.mu.Unlock()
		w.done[name] = true
		w.cond.Broadcast()
	}()

	if !w.noBase && ctx.Value(ctxKey{}) != w {
		w.fail("the context of %s is not derived from the base context", trunc(ref.Str(name)))
	}
	if w.brief && ctx.Err() != nil {
		w.fail("the context of %s is cancelled: %v", trunc(ref.Str(name)), context.Cause(ctx))
	}

	// Look at the arguments only after others had their chance to interfere.
	var entries []*encoding.KVEntry
	for i := 0; i < s.Read; i++ {
		e := encoding.AcquireKVEntry()
		if !m.KV.Next(e) {
			if i < len(s.Args) {
				w.fail("message %s: argument %d of %d is missing: %v", trunc(ref.Str(name)), i, len(s.Args), m.KV.Error())
				return
			}
			encoding.ReleaseKVEntry(e)
			break
		}
		if i >= len(s.Args) {
			w.fail("message %s has more than its %d arguments", trunc(ref.Str(name)), len(s.Args))
			return
		}
		entries = append(entries, e)
	}
	if err := m.KV.Error(); err != nil {
		w.fail("message %s after %d arguments: %v", trunc(ref.Str(name)), s.Read, err)
	}
	for i := 0; i < s.Yield; i++ {
		runtime.Gosched()
	}
	if s.Sleep > 0 {
		time.Sleep(time.Duration(s.Sleep) * time.Millisecond)
	}
	if string(m.NameBytes()) != name {
		w.fail("the name of message %s changed to %s", trunc(ref.Str(name)), trunc(ref.Str(m.NameBytes())))
	}
	for i, e := range entries {
		if err := entryIs(e, s.Args[i]); err != nil {
			w.fail("message %s argument %d: %v", trunc(ref.Str(name)), i, err)
		}
		if s.Echo {
			if err := echo(aw, e); err != nil {
				w.fail("message %s: %v", trunc(ref.Str(name)), err)
			}
		}
		encoding.ReleaseKVEntry(e)
	}
	for _, op := range s.Ops {
		if err := writeAction(aw, op); (err != nil) != op.Bad {
			w.fail("message %s: action %s: %v", trunc(ref.Str(name)), trunc(op), err)
		}
	}
	switch s.Panic {
	case 1:
		panic("handler panics")
	case 2:
		panic(errors.New("handler panics with an error"))
	case 3:
		var p *spMsg
		p.Read++
	case 4:
		_ = entries[len(entries)]
	}
}

// echo sets a variable from an entry.
func echo(aw *encoding.ActionWriter, e *encoding.KVEntry) error {
	s, name := encoding.VarScopeSession, string(e.NameBytes())
	switch int(e.Type()) {
	case ref.TNull:
		return aw.SetNull(s, name)
	case ref.TBool:
		return aw.SetBool(s, name, e.ValueBool())
	case ref.TInt32, ref.TUInt32, ref.TInt64, ref.TUInt64:
		return aw.SetInt64(s, name, e.ValueInt())
	case ref.TIPv4, ref.TIPv6:
		return aw.SetAddr(s, name, e.ValueAddr())
	case ref.TString:
		return aw.SetStringBytes(s, name, e.ValueBytes())
	default:
		return aw.SetBinary(s, name, e.ValueBytes())
	}
}

// helloKVs are the entries HAProxy sends.
func helloKVs(size uint64) []ref.KV {
	return []ref.KV{
		{Name: ref.Str("supported-versions"), V: ref.Value{T: ref.TString, Bytes: ref.Str("2.0")}},
		{Name: ref.Str("max-frame-size"), V: ref.Value{T: ref.TUInt32, Int: size}},
		{Name: ref.Str("capabilities"), V: ref.Value{T: ref.TString}},
		{Name: ref.Str("engine-id"), V: ref.Value{T: ref.TString, Bytes: ref.Str("aabbccdd-0011-2233-4455-66778899aabb")}},
	}
}

func helloFrame(kvs []ref.KV) ref.Frame {
	return ref.Frame{Type: ref.FHaproxyHello, Flags: ref.FlagFin, Payload: ref.AppendKVs(nil, kvs)}
}

// checkHello compares an AGENT-HELLO with what the offer calls for.
// checkDisconnect: f is an AGENT-DISCONNECT that HAProxy understands and that
// tells of an error.
func checkDisconnect(f ref.Frame) error {
	kvs, err := ref.KVs(f.Payload)
	if err != nil || f.Type != ref.FAgentDisconnect || f.Flags != ref.FlagFin || f.Stream != 0 || f.ID != 0 {
		return fmt.Errorf("not an AGENT-DISCONNECT: %+v (%v)", f, err)
	}
	code, message := false, false
	for _, kv := range kvs {
		switch string(kv.Name) {
		case "status-code":
			code = kv.V.T == ref.TUInt32 && kv.V.Int > 0
		case "message":
			message = kv.V.T == ref.TString
		}
	}
	if !code || !message {
		return fmt.Errorf("the AGENT-DISCONNECT has %+v", kvs)
	}
	return nil
}

func checkHello(f ref.Frame, size uint64) error {
	if f.Type != ref.FAgentHello || f.Flags != ref.FlagFin || f.Stream != 0 || f.ID != 0 {
		return fmt.Errorf("AGENT-HELLO expected, got %+v", f)
	}
	kvs, err := ref.KVs(f.Payload)
	if err != nil {
		return fmt.Errorf("AGENT-HELLO %x: %w", f.Payload, err)
	}
	seen := map[string]int{}
	for _, kv := range kvs {
		seen[string(kv.Name)]++
		switch string(kv.Name) {
		case "version":
			if kv.V.T != ref.TString || string(kv.V.Bytes) != "2.0" {
				return fmt.Errorf("AGENT-HELLO version %v", kv.V)
			}
		case "max-frame-size":
			if !ref.IsInt(kv.V.T) || kv.V.Int != size {
				return fmt.Errorf("AGENT-HELLO max-frame-size %v, offered %d", kv.V, size)
			}
		case "capabilities":
			if kv.V.T != ref.TString || len(kv.V.Bytes) != 0 {
				return fmt.Errorf("AGENT-HELLO capabilities %v", kv.V)
			}
		default:
			return fmt.Errorf("AGENT-HELLO entry %v", kv)
		}
	}
	if seen["version"] != 1 || seen["max-frame-size"] != 1 || seen["capabilities"] != 1 {
		return fmt.Errorf("AGENT-HELLO entries %v", seen)
	}
	return nil
}

// checkAck compares an ACK with what n calls for.
func checkAck(f ref.Frame, n spNotify) error {
	if f.Type != ref.FAck || f.Flags != ref.FlagFin {
		return fmt.Errorf("ACK expected, got type %d flags %#x", f.Type, f.Flags)
	}
	if f.Stream != n.Stream || f.ID != n.Frame {
		return fmt.Errorf("ACK for stream %d frame %d, NOTIFY was stream %d frame %d", f.Stream, f.ID, n.Stream, n.Frame)
	}
	as, err := ref.Actions(f.Payload)
	if err != nil {
		return fmt.Errorf("ACK payload %s: %w", trunc(ref.Str(f.Payload)), err)
	}
	if d := ref.DiffActions(as, n.actions()); d != "" {
		return fmt.Errorf("ACK: %s", d)
	}
	return nil
}

// frameCount tells whether out has at least n whole frames.
func frameCount(n int) func([]byte) bool {
	return func(out []byte) bool {
		fs, _, err := ref.Frames(out)
		return err != nil || len(fs) >= n
	}
}

// feed sends b in chunks, with pauses.
func feed(c wire, b []byte, sizes []int, pause int) {
	for i, chunk := range memnet.Split(b, sizes) {
		if i > 0 && pause > 0 {
			time.Sleep(time.Duration(pause) * time.Millisecond)
		}
		c.Feed(chunk)
	}
}

// wire is the remote's view of a connection.
type wire interface {
	Feed(chunks ...[]byte)
	WaitOutput(done func(out []byte) bool) ([]byte, bool)
	Output() []byte
	Closed() bool
	EndInput(err error)
}

// spClient is a well-behaved HAProxy connection.
type spClient struct {
	id       int
	c        wire
	size     uint64
	notifies []spNotify
	kvs      []ref.KV // of the HELLO, if not the usual ones
	hello    []int    // chunk sizes
	merge    bool     // the HELLO and the first NOTIFY in one stream

	finished bool
	answered int // NOTIFYs dealt with
}

// run speaks the protocol, one NOTIFY at a time, and reports to w what is
// wrong. It stops short when the agent does not answer.
func (cl *spClient) run(w *spWorld) {
	kvs := cl.kvs
	if kvs == nil {
		kvs = helloKVs(cl.size)
	}
	hello := ref.AppendFrame(nil, helloFrame(kvs))
	fed := 0
	pause := 0
	if len(cl.notifies) > 0 {
		pause = cl.notifies[0].Pause
		if cl.merge {
			hello = append(hello, ref.AppendFrame(nil, w.script(cl.id, 0, &cl.notifies[0]))...)
			fed = 1
		}
	}
	feed(cl.c, hello, cl.hello, pause)
	out, ok := cl.c.WaitOutput(frameCount(1))
	if !ok {
		w.fail("connection %d is closed instead of a handshake: %x", cl.id, out)
		return
	}
	fs, _, err := ref.Frames(out)
	if err == nil {
		err = checkHello(fs[0], cl.size)
	}
	if err != nil {
		w.fail("connection %d: %v", cl.id, err)
		return
	}
	cl.exchange(w, 0, fed)
}

// exchange goes through the NOTIFYs beginning with the given one; those before
// fed have been sent already.
func (cl *spClient) exchange(w *spWorld, from, fed int) {
	for i, n := range cl.notifies[from:] {
		i += from
		if i >= fed {
			feed(cl.c, ref.AppendFrame(nil, w.script(cl.id, i, &cl.notifies[i])), n.Sizes, n.Pause)
		}
		if !n.answered(cl.size) {
			// No answer; wait for the handler and then for everything.
			w.await(cl.id, i, n)
			time.Sleep(time.Millisecond)
			cl.answered++
			continue
		}
		want := cl.frames(i + 1)
		out, ok := cl.c.WaitOutput(frameCount(want))
		if !ok {
			w.fail("connection %d is closed instead of an answer to NOTIFY %d", cl.id, i)
			return
		}
		fs, rest, err := ref.Frames(out)
		if err == nil {
			err = checkAck(fs[want-1], n)
		}
		if err == nil && (len(fs) > want || len(rest) > 0) {
			err = fmt.Errorf("more than an answer: %d frames and %x", len(fs)-want, rest)
		}
		if err != nil {
			w.fail("connection %d NOTIFY %d: %v", cl.id, i, err)
			return
		}
		cl.answered++
	}
	cl.finished = true
}

// answered: n gets an ACK if frames may have the given size.
func (n spNotify) answered(size uint64) bool {
	return !n.panics() && n.ackLen() <= int(size)
}

// frames is the number of frames the client has been sent once the first k
// NOTIFYs are dealt with.
func (cl *spClient) frames(k int) int {
	want := 1
	for _, n := range cl.notifies[:k] {
		if n.answered(cl.size) {
			want++
		}
	}
	return want
}

// await blocks until the handler is through with the message of n that
// panics, or else with its last one.
func (w *spWorld) await(conn, i int, n spNotify) {
	if len(n.Msgs) == 0 {
		return
	}
	last := len(n.Msgs) - 1
	for j, m := range n.Msgs {
		if m.Panic != 0 {
			last = j
			break
		}
	}
	name := spName(conn, i, last, n.Msgs[last].Tail)
	w.mu.Lock()
	defer w.mu.Unlock()
	for !w.done[name] {
		w.cond.Wait()
	}
}

// settled checks, once everything has come to rest, that the client is done,
// that its connection is still open, and that it was sent nothing else.
func (cl *spClient) settled(w *spWorld) error {
	if err := w.err(); err != nil {
		return err
	}
	if !cl.finished {
		if cl.answered < len(cl.notifies) {
			n := cl.notifies[cl.answered]
			return fmt.Errorf("connection %d: NOTIFY %d (stream %d, frame %d) is never answered; output %s", cl.id, cl.answered, n.Stream, n.Frame, trunc(ref.Str(cl.c.Output())))
		}
		return fmt.Errorf("connection %d: the HELLO is never answered", cl.id)
	}
	if cl.c.Closed() {
		return fmt.Errorf("connection %d is closed by the agent although the exchange was in order", cl.id)
	}
	want := cl.frames(len(cl.notifies))
	fs, rest, err := ref.Frames(cl.c.Output())
	if err != nil || len(fs) != want || len(rest) > 0 {
		return fmt.Errorf("connection %d was sent %d frames and %x (%v), want %d frames", cl.id, len(fs), rest, err, want)
	}
	return w.checkCalls(cl)
}

// checkCalls: every message of the client handled once, in order.
func (w *spWorld) checkCalls(cl *spClient) error {
	w.mu.Lock()
	defer w.mu.Unlock()
	var order []string
	prefix := fmt.Sprintf(healthy+"%d/", cl.id)
	for _, name := range w.order {
		if strings.HasPrefix(name, prefix) {
			order = append(order, name)
		}
	}
	k := 0
	for i, n := range cl.notifies {
		panicked := false
		for j, m := range n.Msgs {
			name := spName(cl.id, i, j, m.Tail)
			if panicked && (k >= len(order) || order[k] != name) {
				continue // whether messages after the panic are handled is left open
			}
			if k >= len(order) || order[k] != name {
				return fmt.Errorf("connection %d: message %d of NOTIFY %d should be handled next; handler calls: %s", cl.id, j, i, trunc(order))
			}
			k++
			panicked = panicked || m.Panic != 0
		}
	}
	if k != len(order) {
		return fmt.Errorf("connection %d: unexpected handler calls %s", cl.id, trunc(order[k:]))
	}
	return nil
}

// needed is the frame size the notifies call for.
func needed(ns []spNotify, conn int) int {
	size := 256
	w := &spWorld{scripts: map[string]*spMsg{}}
	for i := range ns {
		f := w.script(conn, i, &ns[i])
		size = max(size, len(ref.FrameHeader(f))+len(f.Payload), ns[i].ackLen())
	}
	return size
}
