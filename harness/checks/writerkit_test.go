package checks

import (
	"bytes"
	"context"
	"encoding/binary"
	"fmt"
	"net/netip"
	"runtime"
	"sync"
	"testing/synctest"
	"time"

	"github.com/dropmorepackets/haproxy-go/peers"
	"github.com/dropmorepackets/haproxy-go/peers/sticktable"
	"pgregory.net/rapid"

	"verif/harness/memnet"
	"verif/harness/pbt"
	"verif/harness/ref"
)

const (
	wDefinition = iota
	wSwitch
	wEntry
	wBatch
	wFlush
)

// wItem is something to send through a peers.Writer.
type wItem struct {
	Kind    int
	Table   int          `json:",omitempty"`
	Updates []ref.Update `json:",omitempty"` // the keys get a number
	Bad     []int        `json:",omitempty"` // what is wrong with them
	Huge    int          `json:",omitempty"` // length of the definition's name
	Yield   int          `json:",omitempty"`
	Sleep   int          `json:",omitempty"` // ms, before
}

// What can be wrong with an entry.
const (
	badHugeKey = iota + 1
	badHugeValue
	badKeyLength
	badFamily
	badHugeLength
)

// genWTables makes tables with room for a number in the key.
func genWTables(t *rapid.T) []ref.Table {
	var ts []ref.Table
	for n := rapid.IntRange(1, 3).Draw(t, "tables"); n > 0; n-- {
		d := genTable(t, 5)
		if d.KeyType == ref.KBinary {
			d.KeyLen = max(d.KeyLen, 4)
		}
		ts = append(ts, d)
	}
	return ts
}

func genWItem(t *rapid.T, tables []ref.Table, maxLen, maxBatch int) wItem {
	it := wItem{Table: rapid.IntRange(0, len(tables)-1).Draw(t, "table")}
	d := tables[it.Table]
	n := 0
	switch rapid.IntRange(0, 7).Draw(t, "item") {
	case 0:
		it.Kind = wDefinition
	case 1:
		it.Kind = wSwitch
	case 2, 3, 4:
		it.Kind, n = wEntry, 1
	default:
		it.Kind, n = wBatch, genCount(t, "batch", 0, maxBatch, max(maxBatch, countOf(maxLen, 2000)))
	}
	for ; n > 0; n-- {
		it.Updates = append(it.Updates, genUpdate(t, d, maxLen))
	}
	if chance(t, "yields", 50) {
		it.Yield = rapid.IntRange(1, 4).Draw(t, "yield")
	}
	if chance(t, "sleeps", 10) {
		it.Sleep = pick(t, "sleep", 1, 10, 3000)
	}
	return it
}

// genBad makes some of the item's parts impossible to send.
func genBad(t *rapid.T, tables []ref.Table, it *wItem) {
	if it.Kind == wDefinition {
		it.Huge = pick(t, "huge", 0, 0, 4060, 4090, 4096, 5000, 70000)
	}
	if len(it.Updates) == 0 {
		return
	}
	d := tables[it.Table]
	var kinds []int
	switch d.KeyType {
	case ref.KString:
		kinds = append(kinds, badHugeKey)
	case ref.KIPv4, ref.KIPv6:
		kinds = append(kinds, badKeyLength, badFamily)
	case ref.KBinary:
		kinds = append(kinds, badHugeLength)
	}
	for _, typ := range d.Types {
		if ref.DataKind[typ.T] == ref.DDict {
			kinds = append(kinds, badHugeValue)
		}
	}
	if len(kinds) == 0 {
		return
	}
	it.Bad = make([]int, len(it.Updates))
	for i := range it.Bad {
		if chance(t, "bad", 30) {
			it.Bad[i] = kinds[rapid.IntRange(0, len(kinds)-1).Draw(t, "kind")]
		}
	}
}

// wPart is a message that an item should lead to.
type wPart struct {
	typ     int
	payload string // without the id
	// May the call succeed, must it?
	may, must bool
}

// wSend is an item ready to be sent, and what came of it.
type wSend struct {
	item  wItem
	do    func(*peers.Writer) error
	parts []wPart
	done  bool
	err   error
}

// prepare makes what goroutine g sends as its i-th item.
func (it wItem) prepare(tables []ref.Table, fat, g, i int) *wSend {
	s := &wSend{item: it}
	number := func(j int) []byte { return binary.BigEndian.AppendUint32(nil, uint32(g<<24|i<<12|j)) }
	table := tables[it.Table]
	switch it.Kind {
	case wSwitch:
		id := uint64(binary.BigEndian.Uint32(number(0)))
		s.parts = []wPart{{ref.MsgSwitch, string(ref.AppendVarint(nil, id)), true, true}}
		s.do = func(w *peers.Writer) error { return w.SendTableSwitch(id) }
		return s
	case wDefinition:
		table.Name = append(ref.Str(fmt.Sprintf("%x/", number(0))), table.Name...)
		for len(table.Name) < it.Huge {
			table.Name = append(table.Name, 'x')
		}
		def := libTable(table)
		s.parts = []wPart{{ref.MsgDefinition, string(ref.AppendTable(nil, table)), true, it.Huge == 0}}
		s.do = func(w *peers.Writer) error { return w.SendTableDefinition(def) }
		return s
	}
	def := libTable(table)
	var entries []*sticktable.EntryUpdate
	for j, u := range it.Updates {
		d, def := table, def
		u.Data = append([]ref.Datum(nil), u.Data...)
		p := wPart{may: true, must: true}
		bad := 0
		if len(it.Bad) > 0 {
			bad = it.Bad[j]
		}
		switch bad {
		case badHugeKey:
			u.Key = make(ref.Str, []int{65520, 65536, 70000, 200000}[j%4])
			p.must = false
		case badHugeValue:
			for k, typ := range d.Types {
				if ref.DataKind[typ.T] == ref.DDict {
					u.Data[k].ID, u.Data[k].Bytes = 7, make(ref.Str, []int{65500, 65536, 70000, 200000}[j%4])
				}
			}
			p.must = false
		case badKeyLength:
			d.KeyLen = []uint64{0, 5, 20, 4 + 16 - d.KeyLen}[j%4]
			def = libTable(d)
			p.may = false
		case badHugeLength:
			d.KeyLen = []uint64{65536, 70000, 200000, 65530}[j%4]
			def = libTable(d)
			p.must = false
		}
		switch n := number(j); d.KeyType {
		case ref.KString:
			u.Key = append(append(n, u.Key...), bytes.Repeat([]byte{'x'}, fat)...)
		default:
			u.Key = append(append(ref.Str(nil), n...), u.Key[min(4, len(u.Key)):]...)
		}
		e := libUpdate(d, def, u)
		if bad == badFamily {
			p.may = false
			if d.KeyType == ref.KIPv4 {
				k := sticktable.IPv4AddressKey(netip.AddrFrom16([16]byte{0x20, 1, 15: 1}))
				e.Key = &k
			} else {
				e.Key = new(sticktable.IPv6AddressKey)
			}
		}
		p.typ = ref.MsgUpdate
		if u.Timed {
			p.typ = ref.MsgTimed
		}
		p.must = p.must && p.may
		w := u
		w.Inc = true // without the id
		p.payload = string(ref.AppendUpdate(nil, d, padded(d, w)))
		s.parts = append(s.parts, p)
		entries = append(entries, e)
	}
	if it.Kind == wEntry {
		s.do = func(w *peers.Writer) error { return w.SendEntry(entries[0]) }
	} else {
		s.do = func(w *peers.Writer) error { return w.SendEntries(entries) }
	}
	return s
}

func (s *wSend) send(w *peers.Writer) {
	if s.item.Sleep > 0 {
		time.Sleep(time.Duration(s.item.Sleep) * time.Millisecond)
	}
	for i := 0; i < s.item.Yield; i++ {
		runtime.Gosched()
	}
	s.err = s.do(w)
	s.done = true
}

// wRun is a session whose handler sends items from several goroutines.
type wRun struct {
	Tables      []ref.Table
	Fat         int `json:",omitempty"` // string keys are that long
	Goroutines  [][]wItem
	InHandshake bool // the first list is sent by HandleHandshake itself
	InUpdate    bool // the last list is sent by HandleUpdate, one item per update
	Controls    []int
	Gap         int // ms between what the remote sends
	Yield       int
}

func genWRun(t *rapid.T, goroutines, items, maxLen, maxBatch int) wRun {
	c := wRun{
		Tables:      genWTables(t),
		InHandshake: chance(t, "in handshake", 30),
		InUpdate:    chance(t, "in update", 30),
		Controls:    rapid.SliceOfN(rapid.IntRange(0, 4), 0, 8).Draw(t, "controls"),
		Gap:         pick(t, "gap", 0, 1, 7, 500),
		Yield:       rapid.IntRange(0, 3).Draw(t, "yield"),
	}
	if chance(t, "fat", 20) {
		c.Fat = pick(t, "keys", 2000, 8000, 16000)
		c.Tables[0].KeyType = ref.KString
	}
	for g := rapid.IntRange(1, goroutines).Draw(t, "goroutines"); g > 0; g-- {
		var its []wItem
		for n := genCount(t, "items", 0, items, max(items, countOf(maxLen, 2000))); n > 0; n-- {
			its = append(its, genWItem(t, c.Tables, maxLen, maxBatch))
		}
		c.Goroutines = append(c.Goroutines, its)
	}
	return c
}

// run sends everything. It returns once all calls have returned, or could have.
// The remote sends heartbeats until stop is called.
func (c wRun) run(w *peWorld, o memnet.Options) (conn *memnet.Conn, all [][]*wSend, stop func()) {
	var sends [][]*wSend
	for g, its := range c.Goroutines {
		var l []*wSend
		for i, it := range its {
			l = append(l, it.prepare(c.Tables, c.Fat, g, i))
		}
		sends = append(sends, l)
	}
	conn, stop = c.runSends(w, o, sends)
	return conn, sends, stop
}

func (c wRun) runSends(w *peWorld, o memnet.Options, sends [][]*wSend) (conn *memnet.Conn, stop func()) {
	wg := &sync.WaitGroup{}
	sendAll := func(l []*wSend, w *peers.Writer) {
		for _, s := range l {
			s.send(w)
		}
	}
	wg.Add(1) // the handshake
	w.onHandshake = func(_ *peSession, ctx context.Context, _ *peers.Handshake) {
		defer wg.Done()
		wr := peers.WriterFromContext(ctx)
		last := len(sends)
		if c.InUpdate {
			last--
			wg.Add(len(sends[last]))
		}
		for g, l := range sends[:last] {
			if g == 0 && c.InHandshake {
				continue
			}
			wg.Add(1)
			go func() {
				defer wg.Done()
				sendAll(l, wr)
			}()
		}
		if c.InHandshake && last > 0 {
			sendAll(sends[0], wr)
		}
	}
	w.onUpdate = func(_ *peSession, ctx context.Context, n int) {
		defer wg.Done()
		sends[len(sends)-1][n].send(peers.WriterFromContext(ctx))
	}
	w.serve()
	o.Yield = c.Yield
	conn = w.dial(o)
	conn.Feed([]byte(peHello))
	stopped := make(chan struct{})
	go func() {
		gap := time.Duration(c.Gap) * time.Millisecond
		for _, typ := range c.Controls {
			conn.Feed(ref.AppendMsg(nil, ref.Msg{Class: ref.ClassControl, Type: typ}))
			time.Sleep(gap)
		}
		if c.InUpdate {
			conn.Feed(ref.AppendMsg(nil, ref.Msg{Class: ref.ClassTable, Type: ref.MsgDefinition, Data: ref.AppendTable(nil, ref.Table{ID: 1, Name: ref.Str("t"), KeyType: ref.KInt, KeyLen: 4})}))
			for range sends[len(sends)-1] {
				conn.Feed(ref.AppendMsg(nil, ref.Msg{Class: ref.ClassTable, Type: ref.MsgUpdate, Data: ref.Str("\x00\x00\x00\x01\x00\x00\x00\x02")}))
				time.Sleep(gap)
			}
		}
		for {
			conn.Feed([]byte{ref.ClassControl, ref.CtlHeartbeat})
			select {
			case <-stopped:
				return
			case <-time.After(2 * time.Second):
			}
		}
	}()
	returned := make(chan struct{})
	go func() {
		wg.Wait()
		close(returned)
	}()
	select {
	case <-returned:
	case <-time.After(20 * time.Minute):
	}
	synctest.Wait()
	return conn, sync.OnceFunc(func() { close(stopped) })
}

func (c wRun) syncRequests() int {
	n := 0
	for _, typ := range c.Controls {
		if typ == ref.CtlSyncReq {
			n++
		}
	}
	return n
}

// wired checks the messages sent: those of every call that succeeded, once
// each and in order; none of a call that failed (unless broken), but of a
// batch those that can be encoded may be there; increasing ids.
func wired(r *pbt.R, ms []ref.Msg, sends [][]*wSend, broken bool) error {
	type place struct{ g, i, j int }
	where := map[string]place{}
	find := func(typ int, payload string) string { return string(rune(typ)) + payload }
	for g, l := range sends {
		for i, s := range l {
			if !s.done {
				return fmt.Errorf("call %d of goroutine %d does not return", i, g)
			}
			must, may := true, true
			for j, p := range s.parts {
				must, may = must && p.must, may && p.may
				if !p.may {
					continue
				}
				k := find(p.typ, p.payload)
				if _, ok := where[k]; ok {
					r.Label("ambiguous")
					return nil
				}
				where[k] = place{g, i, j}
			}
			if s.err == nil && !may {
				return fmt.Errorf("call %d of goroutine %d reports no error for %s", i, g, trunc(s.item))
			}
			if s.err != nil && must && !broken {
				return fmt.Errorf("call %d of goroutine %d, %s: %w", i, g, trunc(s.item), s.err)
			}
			if s.err != nil {
				r.Count("failed sends", 1)
			}
		}
	}
	next := make([]place, len(sends))
	seen := map[place]bool{}
	last := int64(-1)
	for n, m := range ms {
		payload := string(m.Data)
		if m.Class == ref.ClassTable && (m.Type == ref.MsgUpdate || m.Type == ref.MsgTimed) {
			if len(payload) < 4 {
				return fmt.Errorf("message %d is too short: %v", n, m)
			}
			id := int64(binary.BigEndian.Uint32([]byte(payload)))
			if id <= last {
				return fmt.Errorf("message %d: update id %d follows %d", n, id, last)
			}
			last = id
			payload = payload[4:]
		}
		p, ok := where[find(m.Type, payload)]
		if m.Class != ref.ClassTable || !ok {
			return fmt.Errorf("message %d was not sent by anyone: %s", n, trunc(m))
		}
		if at := next[p.g]; p.i < at.i || p.i == at.i && p.j < at.j {
			return fmt.Errorf("message %d: goroutine %d sent part %d of its item %d before part %d of item %d, or only once", n, p.g, p.j, p.i, at.j-1, at.i)
		}
		next[p.g] = place{p.g, p.i, p.j + 1}
		seen[p] = true
		s := sends[p.g][p.i]
		if s.err != nil && len(s.parts) == 1 && !broken {
			return fmt.Errorf("message %d is that of a call which failed with %v: %s", n, s.err, trunc(m))
		}
	}
	for g, l := range sends {
		for i, s := range l {
			for j := range s.parts {
				if s.err == nil && !seen[place{g, i, j}] {
					return fmt.Errorf("part %d of item %d of goroutine %d (%s) is missing from the %d messages", j, i, g, trunc(s.item), len(ms))
				}
			}
		}
	}
	return nil
}

// partials takes out the answers to synchronisation requests.
func partials(ms []ref.Msg) (rest []ref.Msg, n int) {
	for _, m := range ms {
		if m.Class == ref.ClassControl && m.Type == ref.CtlSyncPartial {
			n++
			continue
		}
		rest = append(rest, m)
	}
	return rest, n
}
