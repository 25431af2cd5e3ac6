package checks

import (
	"errors"
	"fmt"
	"reflect"
	"strings"

	"github.com/dropmorepackets/haproxy-go/pkg/encoding"
	"github.com/dropmorepackets/haproxy-go/spop"
	"pgregory.net/rapid"

	"verif/harness/memnet"
	"verif/harness/pbt"
	"verif/harness/ref"
)

const (
	p27Hello = iota
	p27Disconnect
	p27Ack
)

type p27Frame struct {
	Kind         int
	Version      ref.Str    `json:",omitempty"`
	Capabilities []ref.Str  `json:",omitempty"`
	Size         uint32     `json:",omitempty"`
	Code         int        `json:",omitempty"`
	Stream, ID   uint64     `json:",omitempty"`
	Ops          []actionOp `json:",omitempty"`
	Fill         int        `json:",omitempty"` // bytes in one more action
	Error        bool       `json:",omitempty"` // the callback fails
	Fail         int        `json:",omitempty"` // the writer fails after so many bytes, less one; 0: not at all
}

type p27Case struct{ Frames []p27Frame }

// p27Messages has a part of the message for each status code.
var p27Messages = map[int]string{
	0: "normal", 1: "I/O", 2: "timeout", 3: "too big", 4: "invalid frame", 5: "version", 6: "max-frame-size", 7: "capabilities",
	8: "version", 9: "max-frame-size", 10: "fragmentation", 11: "interlaced", 12: "frame-id", 13: "resource", 99: "unknown",
}

func init() {
	pbt.Register(&pbt.Property{
		ID: "P27",
		Rule: "1-6 frames one after the other: AGENT-HELLO with any version (up to 300 bytes), up to 4 capabilities and any size; AGENT-DISCONNECT with known and unknown codes; ACK with any ids and up to 5 actions, some failing, filled up to and beyond 64 KiB, with failing callbacks; written to writers that fail after any number of bytes. " +
			"Non-trivial: at least two frames, and an ACK with actions, a failing callback or a failing writer among them.",
		Parts: []*pbt.Part{
			pbt.NewPart("frames", 20000, func(t *rapid.T) p27Case {
				var c p27Case
				for n := rapid.IntRange(1, 6).Draw(t, "frames"); n > 0; n-- {
					f := p27Frame{Kind: pick(t, "frame", p27Ack, p27Hello, p27Disconnect)}
					switch f.Kind {
					case p27Hello:
						f.Version = pick(t, "v", ref.Str("2.0"), genStr(t, "version", 300))
						for k := rapid.IntRange(0, 4).Draw(t, "capabilities"); k > 0; k-- {
							f.Capabilities = append(f.Capabilities, pick(t, "capability", ref.Str("async"), ref.Str("pipelining"), genStr(t, "other", 300)))
						}
						f.Size = genU32(t, "size")
					case p27Disconnect:
						f.Code = pick(t, "code", 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 99, 99, 14, 98, 100, 1<<31-1)
					case p27Ack:
						f.Stream, f.ID = genU64(t, "stream"), genU64(t, "frame")
						for k := genCount(t, "ops", 0, 5, 1000); k > 0; k-- {
							f.Ops = append(f.Ops, genActionOp(t, 300))
						}
						if chance(t, "fill", 15) {
							f.Fill = pick(t, "filled", rapid.IntRange(1, 70000).Draw(t, "n"), 65400, 65535, 65480+rapid.IntRange(0, 40).Draw(t, "m"))
						}
						f.Error = chance(t, "error", 15)
					}
					if chance(t, "fails", 20) {
						f.Fail = rapid.IntRange(1, 120).Draw(t, "after")
					}
					c.Frames = append(c.Frames, f)
				}
				return c
			}, p27Run),
		},
	})
}

var errCallback = errors.New("the callback fails")

func p27Run(r *pbt.R, c p27Case) error {
	for _, f := range c.Frames {
		r.NonTrivialIf(len(c.Frames) > 1 && (len(f.Ops) > 0 || f.Error || f.Fail > 0))
		if err := p27One(r, f); err != nil {
			return fmt.Errorf("%s: %w", trunc(f), err)
		}
	}
	return nil
}

func p27One(r *pbt.R, f p27Frame) error {
	w := &failingWriter{left: f.Fail - 1}
	var n int64
	var err error
	want := ref.Frame{Flags: ref.FlagFin}
	var actions []ref.Action
	full := false
	size := f.Fill // no less than the size of all actions
	for _, op := range f.Ops {
		size += len(op.A.Name) + len(op.A.V.Bytes) + 40
	}
	switch f.Kind {
	case p27Hello:
		want.Type = ref.FAgentHello
		h := spop.AgentHelloFrame{Version: string(f.Version), MaxFrameSize: f.Size}
		for _, s := range f.Capabilities {
			h.Capabilities = append(h.Capabilities, string(s))
		}
		n, err = h.WriteTo(w)
	case p27Disconnect:
		want.Type = ref.FAgentDisconnect
		d := spop.AgentDisconnectFrame{}
		reflect.ValueOf(&d).Elem().FieldByName("ErrCode").SetInt(int64(f.Code))
		n, err = d.WriteTo(w)
	case p27Ack:
		want.Type, want.Stream, want.ID = ref.FAck, f.Stream, f.ID
		a := spop.AckFrame{StreamID: f.Stream, FrameID: f.ID}
		a.ActionWriterCallback = func(aw *encoding.ActionWriter) error {
			ops := f.Ops
			if f.Fill > 0 {
				ops = append(ops[:len(ops):len(ops)], actionOp{A: ref.Action{Kind: ref.ActSet, Name: ref.Str("fill"), V: ref.Value{T: ref.TBinary, Bytes: letters('f', f.Fill)}}})
			}
			for _, op := range ops {
				if err := writeAction(aw, op); err != nil {
					full = full || !op.Bad
				} else {
					actions = append(actions, op.A)
				}
			}
			if f.Error {
				return errCallback
			}
			return nil
		}
		n, err = a.WriteTo(w)
	}
	out := w.buf.Bytes()
	if n != int64(len(out)) {
		return fmt.Errorf("%d bytes reported, %d written (error %v)", n, len(out), err)
	}
	if f.Error {
		if !errors.Is(err, errCallback) || len(out) > 0 {
			return fmt.Errorf("the callback's error leads to %v, %d bytes are written", err, len(out))
		}
		return nil
	}
	if err == nil {
		fs, rest, ferr := ref.Frames(out)
		if ferr != nil || len(fs) != 1 || len(rest) > 0 {
			return fmt.Errorf("%d frames and %d bytes are written (%v): %s", len(fs), len(rest), ferr, trunc(ref.Str(out)))
		}
		got := fs[0]
		if got.Type != want.Type || got.Flags != want.Flags || got.Stream != want.Stream || got.ID != want.ID {
			return fmt.Errorf("wrote type %d flags %#x stream %d id %d, want %+v", got.Type, got.Flags, got.Stream, got.ID, want)
		}
		if full && size < 60000 {
			return fmt.Errorf("an action does not fit")
		}
		return p27Payload(f, got.Payload, actions)
	}
	// A failure must have a reason.
	switch {
	case w.left == 0 && errors.Is(err, memnet.ErrWrite):
		r.Label("the writer fails")
	case size > 60000 && len(out) == 0:
		r.Label("too large")
	default:
		return fmt.Errorf("%d bytes written: %w", len(out), err)
	}
	return nil
}

func p27Payload(f p27Frame, payload []byte, actions []ref.Action) error {
	if f.Kind == p27Ack {
		as, err := ref.Actions(payload)
		if err != nil {
			return err
		}
		if d := ref.DiffActions(as, actions); d != "" {
			return errors.New(d)
		}
		return nil
	}
	kvs, err := ref.KVs(payload)
	if err != nil {
		return err
	}
	got := map[string]ref.Value{}
	for _, kv := range kvs {
		if _, ok := got[string(kv.Name)]; ok {
			return fmt.Errorf("entry %q is there twice", string(kv.Name))
		}
		got[string(kv.Name)] = kv.V
	}
	str := func(name string, want string) error {
		v, ok := got[name]
		if !ok || v.T != ref.TString || string(v.Bytes) != want {
			return fmt.Errorf("%s is %s, want %q", name, trunc(v), want)
		}
		return nil
	}
	u32 := func(name string, want uint32) error {
		v, ok := got[name]
		if !ok || v.T != ref.TUInt32 || v.Int != uint64(want) {
			return fmt.Errorf("%s is %s, want %d", name, trunc(v), want)
		}
		return nil
	}
	if f.Kind == p27Hello {
		var caps []string
		for _, c := range f.Capabilities {
			caps = append(caps, string(c))
		}
		if len(kvs) != 3 {
			return fmt.Errorf("%d entries", len(kvs))
		}
		return errors.Join(str("version", string(f.Version)), u32("max-frame-size", f.Size), str("capabilities", strings.Join(caps, ",")))
	}
	if len(kvs) != 2 {
		return fmt.Errorf("%d entries", len(kvs))
	}
	v := got["message"]
	if v.T != ref.TString || !strings.Contains(string(v.Bytes), p27Messages[f.Code]) || len(v.Bytes) == 0 {
		return fmt.Errorf("message is %s for code %d", trunc(v), f.Code)
	}
	return u32("status-code", uint32(f.Code))
}
