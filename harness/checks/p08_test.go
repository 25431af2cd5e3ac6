package checks

import (
	"fmt"
	"runtime"
	"strings"
	"sync"

	"github.com/dropmorepackets/haproxy-go/pkg/encoding"
	"pgregory.net/rapid"

	"verif/harness/pbt"
	"verif/harness/ref"
)

// p08Op works on slot S (0-2) of its kind:
//
//	ks scanner   ke entry   ms message scanner   m message   kw, aw writers
//
// "+": acquire, with In, N as input and count, or buffer size and offset.
// "-": release. The rest are uses, see p08World.do.
type p08Op struct {
	On  string
	Do  string
	S   int       `json:",omitempty"`
	S2  int       `json:",omitempty"`
	In  ref.Str   `json:",omitempty"`
	N   int       `json:",omitempty"`
	Act *actionOp `json:",omitempty"`
}

type p08Case struct {
	Scripts [][]p08Op // run by one goroutine each
}

const p08Slots = 3

func genP08Script(t *rapid.T, n int) []p08Op {
	var ops []p08Op
	have := map[string]*[p08Slots]bool{}
	for _, on := range []string{"ks", "ke", "ms", "m", "kw", "aw"} {
		have[on] = &[p08Slots]bool{}
	}
	uses := map[string][]string{
		"ks": {"next", "next", "next", "next", "discard", "unmarshal"},
		"ke": {"reset"},
		"ms": {"next"},
		"m":  {"kvnext", "kvnext", "kvnext", "kvdiscard"},
		"kw": {"set"},
		"aw": {"set"},
	}
	for len(ops) < n {
		op := p08Op{On: pick(t, "on", "ks", "ks", "ks", "ke", "ms", "ms", "m", "m", "kw", "kw", "aw", "aw")}
		if op.On == "ke" && chance(t, "rather use", 50) {
			op.On = "ks"
		}
		op.S = pick(t, "slot", 0, 0, 0, 1, 2)
		op.S2 = pick(t, "slot2", 0, 0, 0, 1, 2)
		switch {
		case !have[op.On][op.S]:
			op.Do = "+"
			have[op.On][op.S] = true
		case chance(t, "release", 35):
			op.Do = "-"
			have[op.On][op.S] = false
			if op.On == "ms" {
				have["m"] = &[p08Slots]bool{} // see do
			}
		default:
			u := uses[op.On]
			op.Do = u[rapid.IntRange(0, len(u)-1).Draw(t, "do")]
		}
		// Uses that need a second object: get it first.
		second := map[string]string{"ks next": "ke", "ms next": "m", "m kvnext": "ke"}[op.On+" "+op.Do]
		if second != "" && !have[second][op.S2] {
			have[second][op.S2] = true
			ops = append(ops, p08Op{On: second, Do: "+", S: op.S2})
		}
		switch op.On + op.Do {
		case "ks+":
			kvs := genKVs(t, 4, 20)
			op.In = ref.AppendKVs(nil, kvs)
			if chance(t, "mutated", 40) {
				op.In = mutate(t, op.In)
			}
			op.N = pick(t, "count", len(kvs), len(kvs), -1, len(kvs)+1, 0)
		case "ms+":
			var b []byte
			for n := rapid.IntRange(0, 3).Draw(t, "nmessages"); n > 0; n-- {
				b = ref.AppendMessage(b, genMessage(t, 3, 20))
			}
			op.In = b
			if chance(t, "mutated", 40) {
				op.In = mutate(t, b)
			}
		case "kw+":
			op.N = rapid.IntRange(0, 60).Draw(t, "size")
		case "kwset":
			a := actionOp{A: ref.Action{Name: genStr(t, "name", 12), V: genValue(t, "value", 20)}}
			op.Act = &a
		case "aw+":
			op.N = rapid.IntRange(0, 30).Draw(t, "size")
		case "awset":
			a := genActionOp(t, 20)
			op.Act = &a
		}
		ops = append(ops, op)
	}
	return ops
}

func init() {
	pbt.Register(&pbt.Property{
		ID: "P08",
		Rule: "scripts of 10-60 operations on up to three slots each of pooled scanners, entries, message scanners, messages and both writers (acquire, partial and failing uses on valid and mutated input, release); the same script is run on newly made objects and every result and every visible field must agree. 'concurrent' runs 2-6 scripts at the same time on the same pools under the race detector. " +
			"Non-trivial: an object was acquired after one of its kind had been used and released, and then used.",
		Parts: []*pbt.Part{
			pbt.NewPart("sequential", 12000, func(t *rapid.T) p08Case {
				return p08Case{Scripts: [][]p08Op{genP08Script(t, genCount(t, "nops", 10, 60, 500))}}
			}, p08Run),
			pbt.NewPart("concurrent", 2000, func(t *rapid.T) p08Case {
				var c p08Case
				for n := rapid.IntRange(2, 6).Draw(t, "scripts"); n > 0; n-- {
					c.Scripts = append(c.Scripts, genP08Script(t, rapid.IntRange(10, 40).Draw(t, "nops")))
				}
				return c
			}, p08Run),
		},
	})
}

// p08World runs scripts on pooled or on new objects. Slots hold nil while
// unused.
type p08World struct {
	pooled bool
	ks     [p08Slots]*encoding.KVScanner
	ke     [p08Slots]*encoding.KVEntry
	ms     [p08Slots]*encoding.MessageScanner
	m      [p08Slots]*encoding.Message
	by     [p08Slots]int // which message scanner filled the message, plus one
	kw     [p08Slots]*encoding.KVWriter
	aw     [p08Slots]*encoding.ActionWriter
}

func showEntry(e *encoding.KVEntry) string {
	return fmt.Sprintf("name=%x type=%d bytes=%x int=%d bool=%v", e.NameBytes(), e.Type(), e.ValueBytes(), e.ValueInt(), e.ValueBool())
}

// do performs op and describes everything visible.
func (w *p08World) do(op p08Op) (res string) {
	defer func() {
		if v := recover(); v != nil {
			res = fmt.Sprintf("panic: %v", v)
		}
	}()
	in := append([]byte(nil), op.In...)
	s := op.S
	switch op.On {
	case "ks":
		k := w.ks[s]
		switch {
		case op.Do == "+" && k == nil:
			if w.pooled {
				k = encoding.AcquireKVScanner(in, op.N)
			} else {
				k = encoding.NewKVScanner(in, op.N)
			}
			w.ks[s] = k
		case k == nil:
			return "unused"
		case op.Do == "-":
			if w.pooled {
				encoding.ReleaseKVScanner(k)
			}
			w.ks[s] = nil
			return "released"
		case op.Do == "next":
			if w.ke[op.S2] == nil {
				return "no entry"
			}
			ok := k.Next(w.ke[op.S2])
			res = fmt.Sprint(ok)
			if ok { // what a failed call leaves in the entry is left open
				res += " " + showEntry(w.ke[op.S2])
			}
		case op.Do == "discard":
			res = fmt.Sprint(k.Discard())
		case op.Do == "unmarshal":
			var v struct {
				A *string `spoe:"a"`
				B *int64  `spoe:"b"`
				C []byte  `spoe:"c"`
			}
			res = fmt.Sprint(k.Unmarshal(&v) == nil)
		}
		return res + fmt.Sprintf(" left=%d error=%v", k.RemainingBuf(), k.Error())

	case "ke":
		e := w.ke[s]
		switch {
		case op.Do == "+" && e == nil:
			if w.pooled {
				e = encoding.AcquireKVEntry()
			} else {
				e = &encoding.KVEntry{}
			}
			w.ke[s] = e
			return showEntry(e)
		case e == nil:
			return "unused"
		case op.Do == "-":
			if w.pooled {
				encoding.ReleaseKVEntry(e)
			}
			w.ke[s] = nil
			return "released"
		case op.Do == "reset":
			e.Reset()
			return showEntry(e)
		}
		return ""

	case "ms":
		k := w.ms[s]
		switch {
		case op.Do == "+" && k == nil:
			if w.pooled {
				k = encoding.AcquireMessageScanner(in)
			} else {
				k = encoding.NewMessageScanner(in)
			}
			w.ms[s] = k
		case k == nil:
			return "unused"
		case op.Do == "-":
			if w.pooled {
				encoding.ReleaseMessageScanner(k)
			}
			w.ms[s] = nil
			// A message still holds a part of the scanner's input.
			for i, by := range w.by {
				if by == s+1 {
					w.dropMessage(i)
				}
			}
			return "released"
		case op.Do == "next":
			m := w.m[op.S2]
			// A message belongs to one scanner while it is in use.
			if m == nil || (w.by[op.S2] != 0 && w.by[op.S2] != s+1) {
				return "no message"
			}
			for i, by := range w.by {
				if by == s+1 && i != op.S2 {
					return "scanner in use with another message"
				}
			}
			w.by[op.S2] = s + 1
			ok := k.Next(m)
			res = fmt.Sprint(ok)
			if ok {
				res += fmt.Sprintf(" name=%x", m.NameBytes())
			}
		}
		return res + fmt.Sprintf(" error=%v", k.Error())

	case "m":
		m := w.m[s]
		switch {
		case op.Do == "+" && m == nil:
			if w.pooled {
				m = encoding.AcquireMessage()
			} else {
				m = &encoding.Message{}
			}
			w.m[s] = m
			return fmt.Sprintf("name=%x kv=%v", m.NameBytes(), m.KV != nil)
		case m == nil:
			return "unused"
		case op.Do == "-":
			w.dropMessage(s)
			return "released"
		case m.KV == nil:
			return "no arguments"
		case op.Do == "kvnext":
			if w.ke[op.S2] == nil {
				return "no entry"
			}
			if ok := m.KV.Next(w.ke[op.S2]); ok {
				res = showEntry(w.ke[op.S2])
			}
		case op.Do == "kvdiscard":
			res = fmt.Sprint(m.KV.Discard())
		}
		return res + fmt.Sprintf(" left=%d error=%v", m.KV.RemainingBuf(), m.KV.Error())

	case "kw":
		k := w.kw[s]
		switch {
		case op.Do == "+" && k == nil:
			buf := make([]byte, op.N)
			if w.pooled {
				k = encoding.AcquireKVWriter(buf, op.N/8)
			} else {
				k = encoding.NewKVWriter(buf, op.N/8)
			}
			w.kw[s] = k
		case k == nil:
			return "unused"
		case op.Do == "-":
			if w.pooled {
				encoding.ReleaseKVWriter(k)
			}
			w.kw[s] = nil
			return "released"
		case op.Do == "set":
			res = fmt.Sprint(writeKV(k, ref.KV{Name: op.Act.A.Name, V: op.Act.A.V}))
		}
		return res + fmt.Sprintf(" off=%d bytes=%x", k.Off(), k.Bytes())

	case "aw":
		k := w.aw[s]
		switch {
		case op.Do == "+" && k == nil:
			buf := make([]byte, op.N)
			if w.pooled {
				k = encoding.AcquireActionWriter(buf, op.N/8)
			} else {
				k = encoding.NewActionWriter(buf, op.N/8)
			}
			w.aw[s] = k
		case k == nil:
			return "unused"
		case op.Do == "-":
			if w.pooled {
				encoding.ReleaseActionWriter(k)
			}
			w.aw[s] = nil
			return "released"
		case op.Do == "set":
			res = fmt.Sprint(writeAction(k, *op.Act))
		}
		return res + fmt.Sprintf(" off=%d bytes=%x", k.Off(), k.Bytes())
	}
	panic(pbt.Harness("operation " + op.On))
}

func (w *p08World) dropMessage(i int) {
	if w.pooled {
		encoding.ReleaseMessage(w.m[i])
	}
	w.m[i] = nil
	w.by[i] = 0
}

// look describes everything that objects in use show, to notice changes made
// through other objects.
func (w *p08World) look() string {
	var b strings.Builder
	for i := 0; i < p08Slots; i++ {
		if k := w.ks[i]; k != nil {
			fmt.Fprintf(&b, "ks%d left=%d error=%v\n", i, k.RemainingBuf(), k.Error())
		}
		if k := w.ms[i]; k != nil {
			fmt.Fprintf(&b, "ms%d error=%v\n", i, k.Error())
		}
		if k := w.kw[i]; k != nil {
			fmt.Fprintf(&b, "kw%d %x\n", i, k.Bytes())
		}
		if k := w.aw[i]; k != nil {
			fmt.Fprintf(&b, "aw%d %x\n", i, k.Bytes())
		}
	}
	return b.String()
}

func p08Run(r *pbt.R, c p08Case) error {
	// The expected results first, on new objects.
	want := make([][]string, len(c.Scripts))
	used := map[string]bool{}
	for i, script := range c.Scripts {
		w := &p08World{}
		dirty := map[string]bool{}
		reused := map[string]bool{}
		for _, op := range script {
			res := w.do(op)
			want[i] = append(want[i], res, w.look())
			switch {
			case op.Do == "-" && res == "released":
				dirty[op.On] = true
			case op.Do == "+" && dirty[op.On]:
				reused[op.On] = true
			case reused[op.On] && res != "unused":
				r.NonTrivial()
				used["reused "+op.On] = true
			}
		}
	}

	for l := range used {
		r.Label(l)
	}

	errs := make([]error, len(c.Scripts))
	one := func(i int) {
		w := &p08World{pooled: true}
		for n, op := range c.Scripts[i] {
			res := w.do(op)
			if res != want[i][2*n] {
				errs[i] = fmt.Errorf("script %d, operation %d %s: pooled %s, new %s", i, n, trunc(op), trunc(res), trunc(want[i][2*n]))
				return
			}
			if look := w.look(); look != want[i][2*n+1] {
				errs[i] = fmt.Errorf("script %d, after operation %d %s: pooled objects show %s, new ones %s", i, n, trunc(op), trunc(look), trunc(want[i][2*n+1]))
				return
			}
			if len(c.Scripts) > 1 && n%3 == 0 {
				runtime.Gosched()
			}
		}
	}
	if len(c.Scripts) == 1 {
		one(0)
		return errs[0]
	}
	var wg sync.WaitGroup
	for i := range c.Scripts {
		wg.Add(1)
		go func() {
			defer wg.Done()
			one(i)
		}()
	}
	wg.Wait()
	for _, err := range errs {
		if err != nil {
			return err
		}
	}
	return nil
}
