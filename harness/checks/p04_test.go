package checks

import (
	"bytes"
	"fmt"
	"net/netip"

	"github.com/dropmorepackets/haproxy-go/pkg/encoding"
	"pgregory.net/rapid"

	"verif/harness/pbt"
	"verif/harness/ref"
)

// scopes by their SPOE number.
var scopes = list(encoding.VarScopeProcess, encoding.VarScopeSession, encoding.VarScopeTransaction, encoding.VarScopeRequest, encoding.VarScopeResponse)

// actionOp is a requested action; Bad is a call with an invalid address, and
// Alt selects another method for the same value.
type actionOp struct {
	A   ref.Action
	Bad bool `json:",omitempty"`
	Alt bool `json:",omitempty"`
	// Zone is that of an IPv6 address, which the format has no place for: the
	// call may fail, or the zone is lost.
	Zone string `json:",omitempty"`
}

func genActionOp(t *rapid.T, max int) actionOp {
	op := actionOp{Bad: chance(t, "bad", 4), Alt: rapid.Bool().Draw(t, "alt")}
	op.A.Kind = pick(t, "kind", ref.ActSet, ref.ActSet, ref.ActSet, ref.ActUnset)
	op.A.Scope = rapid.IntRange(0, 4).Draw(t, "scope")
	op.A.Name = genStr(t, "var", max)
	if op.A.Kind == ref.ActSet {
		op.A.V = genValue(t, "value", max)
		if op.A.V.T == ref.TIPv6 && chance(t, "zone", 15) {
			op.Zone = "eth0"
		}
	}
	return op
}

// writeAction performs op.
func writeAction(w *encoding.ActionWriter, op actionOp) error {
	s, name, v := scopes[op.A.Scope], string(op.A.Name), op.A.V
	if op.Bad {
		return w.SetAddr(s, name, netip.Addr{})
	}
	if op.A.Kind == ref.ActUnset {
		return w.Unset(s, name)
	}
	switch v.T {
	case ref.TNull:
		return w.SetNull(s, name)
	case ref.TBool:
		return w.SetBool(s, name, v.Bool)
	case ref.TInt32:
		return w.SetInt32(s, name, int32(v.Int))
	case ref.TUInt32:
		return w.SetUInt32(s, name, uint32(v.Int))
	case ref.TInt64:
		return w.SetInt64(s, name, int64(v.Int))
	case ref.TUInt64:
		return w.SetUInt64(s, name, v.Int)
	case ref.TIPv4, ref.TIPv6:
		return w.SetAddr(s, name, addrOf(v.Bytes).WithZone(op.Zone))
	}
	b := append([]byte(nil), v.Bytes...)
	var err error
	switch {
	case v.T == ref.TBinary:
		err = w.SetBinary(s, name, b)
	case op.Alt:
		err = w.SetStringBytes(s, name, b)
	default:
		err = w.SetString(s, name, string(b))
	}
	for i := range b {
		b[i] ^= 0xff
	}
	return err
}

type p04Case struct {
	Prefix ref.Str
	Spare  int // bytes after the prefix; -1: a nil buffer
	Ops    []actionOp
}

func init() {
	pbt.Register(&pbt.Property{
		ID: "P04",
		Rule: "1-10 set/unset calls of every type and scope, invalid addresses and some with a zone among them, with names and values up to 70000 bytes, on a writer whose initial buffer is nil or leaves between 0 bytes and more than enough space after a random prefix; lists of up to 8 MB in a part of their own; after every call the list is decoded by the reference and compared with the calls that succeeded. " +
			"Non-trivial: the buffer had to grow after at least one action was in it.",
		Parts: []*pbt.Part{
			pbt.NewPart("calls", 120000, func(t *rapid.T) p04Case {
				var c p04Case
				max := 30
				switch rapid.IntRange(0, 20).Draw(t, "long") {
				case 17, 18, 19:
					max = 2400
				case 20:
					max = 70000
				}
				if chance(t, "prefix", 60) {
					c.Prefix = fill(genCount(t, "nprefix", 0, 6, 70000))
				}
				total := 0
				for n := genCount(t, "nops", 1, 10, countOf(max, 2000)); n > 0; n-- {
					op := genActionOp(t, max)
					c.Ops = append(c.Ops, op)
					total += len(ref.AppendAction(nil, op.A))
				}
				switch {
				case len(c.Prefix) == 0 && chance(t, "nil", 10):
					c.Spare = -1
				case chance(t, "tiny", 30):
					c.Spare = rapid.IntRange(0, 8).Draw(t, "spare")
				default:
					c.Spare = rapid.IntRange(0, total+4).Draw(t, "spare")
				}
				return c
			}, p04Run),
			pbt.NewPart("large", 600, func(t *rapid.T) p04Case {
				c := p04Case{Spare: pick(t, "spare", -1, 0, 300, 65535, 1<<20)}
				total := 0
				for n := rapid.IntRange(1, 8).Draw(t, "nops"); n > 0; n-- {
					op := genActionOp(t, 300)
					if op.A.V.T == ref.TString || op.A.V.T == ref.TBinary || chance(t, "large", 30) {
						op.A.V = ref.Value{T: pick(t, "type", ref.TString, ref.TBinary), Bytes: bytes.Repeat([]byte{rapid.Byte().Draw(t, "fill")}, pick(t, "size", 30000, 65536, 300000, 1<<20, 2000000)-rapid.IntRange(0, 300).Draw(t, "less"))}
						op.A.Kind, op.Bad, op.Zone = ref.ActSet, false, ""
					}
					if n := total + len(ref.AppendAction(nil, op.A)); n < 8<<20 {
						c.Ops = append(c.Ops, op)
						total = n
					}
				}
				return c
			}, p04Run),
		},
	})
}

func p04Run(r *pbt.R, c p04Case) error {
	var buf []byte
	intact := func() error { return nil }
	if c.Spare >= 0 {
		buf, intact = canaryBuf(len(c.Prefix) + c.Spare)
		buf = buf[:len(buf):len(buf)]
		copy(buf, c.Prefix)
	}
	r.LabelIf(c.Spare < 0, "nil buffer")
	w := encoding.NewActionWriter(buf, len(c.Prefix))
	var want []ref.Action
	wrote := len(c.Prefix)
	for i, op := range c.Ops {
		err := writeAction(w, op)
		if ierr := intact(); ierr != nil {
			return fmt.Errorf("call %d: %w", i, ierr)
		}
		if op.Bad {
			r.Label("failed call")
			if err == nil {
				return fmt.Errorf("call %d with an invalid address succeeds", i)
			}
		} else if err == nil || op.Zone == "" {
			if err != nil {
				return fmt.Errorf("call %d (%s): %w", i, trunc(op.A), err)
			}
			n := len(ref.AppendAction(nil, op.A))
			if len(want) > 0 && wrote <= len(buf) && wrote+n > len(buf) {
				r.NonTrivial()
				r.Label("grown")
			}
			wrote += n
			want = append(want, op.A)
		}
		b := w.Bytes()
		if len(b) != w.Off() {
			return fmt.Errorf("after call %d Off is %d but there are %d bytes", i, w.Off(), len(b))
		}
		if !bytes.HasPrefix(b, c.Prefix) {
			return fmt.Errorf("after call %d the bytes before the initial offset are %s, want %s", i, trunc(ref.Str(b[:min(len(b), len(c.Prefix))])), trunc(c.Prefix))
		}
		got, derr := ref.Actions(b[len(c.Prefix):])
		if derr != nil {
			return fmt.Errorf("after call %d (%s, error %v) the list does not decode: %w: %s", i, trunc(op), err, derr, trunc(ref.Str(b)))
		}
		if d := ref.DiffActions(got, want); d != "" {
			return fmt.Errorf("after call %d (%s, error %v): %s", i, trunc(op), err, d)
		}
	}
	return nil
}
