package checks

import (
	"encoding/binary"
	"fmt"
	"reflect"
	"time"

	"github.com/dropmorepackets/haproxy-go/peers"
	"github.com/dropmorepackets/haproxy-go/peers/sticktable"
	"pgregory.net/rapid"

	"verif/harness/memnet"
	"verif/harness/pbt"
	"verif/harness/ref"
)

func init() {
	pbt.Register(&pbt.Property{
		ID: "P20",
		Rule: "One peer session whose handler passes its Writer to 1-10 goroutines (one of them sometimes HandleHandshake or HandleUpdate itself) that send up to 20 definitions, switches, entries and batches of up to 1500 entries each, over 1-3 tables with values of up to 20000 bytes, yielding and sleeping up to 3 s in between, while the remote sends heartbeats and synchronisation requests; goroutines yield inside writes; a second part has batches of several writes that start just when heartbeats and answers are due; in a third goroutines send the same few definitions, switches and entries again and again, as the same objects or ones whose content was overwritten in between, with any table ids and messages of chosen lengths up to 60000; race detector. Every item has a number in it. " +
			"Non-trivial: at least two goroutines that send entries.",
		Parts: []*pbt.Part{
			pbt.NewPart("concurrent", 1500, func(t *rapid.T) wRun {
				if chance(t, "long batches", 5) {
					return genWRun(t, 3, 3, 20, pick(t, "batches", 300, 300, 1500))
				}
				switch rapid.IntRange(0, 5).Draw(t, "size") {
				case 0:
					return genWRun(t, 3, 4, 20000, 30)
				case 1:
					return genWRun(t, 4, 20, 300, 8)
				default:
					return genWRun(t, 10, 8, 20, 6)
				}
			}, p20Run),
			// Batches that take several writes and start just when the
			// library has something to send by itself.
			pbt.NewPart("aligned", 250, func(t *rapid.T) wRun {
				c := genWRun(t, 3, 4, 20000, 30)
				c.Tables[0].KeyType = ref.KString
				c.Fat = pick(t, "keys", 8000, 16000, 30000)
				c.Gap = pick(t, "gap", 3000, 3000, 1000)
				c.Yield = rapid.IntRange(1, 6).Draw(t, "yields")
				for g := range c.Goroutines {
					for i := range c.Goroutines[g] {
						it := &c.Goroutines[g][i]
						it.Sleep = pick(t, "sleep", 3000, 3000, 1000, 0)
						if it.Kind == wEntry {
							it.Kind = wBatch
						}
						if it.Kind == wBatch {
							it.Table = 0
							it.Updates = nil
							for n := rapid.IntRange(1, 12).Draw(t, "batch"); n > 0; n-- {
								it.Updates = append(it.Updates, genUpdate(t, c.Tables[0], 20))
							}
						}
					}
				}
				return c
			}, p20Run),
			pbt.NewPart("again", 600, genP20Again, p20RunAgain),
		},
	})
}

// p20Step sends the Which-th updates (wEntry, wBatch), definition or table id
// of its goroutine. Those that are Reused are in the same objects as the ones
// before, whose content is overwritten.
type p20Step struct {
	Kind  int
	Which []int
	Reuse bool `json:",omitempty"`
	Sleep int  `json:",omitempty"`
	Yield int  `json:",omitempty"`
}

// p20Again has goroutines that send the same things again and again.
type p20Again struct {
	wRun
	Of       []int          // table of each goroutine
	Pools    [][]ref.Update // of each goroutine
	Lens     [][]int        // of those with string keys, unless 0
	Switches [][]uint64     // table ids
	Steps    [][]p20Step
}

func genP20Again(t *rapid.T) p20Again {
	c := p20Again{wRun: wRun{
		Tables:      genWTables(t),
		InHandshake: chance(t, "in handshake", 15),
		Gap:         pick(t, "gap", 1, 100, 1000, 3000),
		Yield:       rapid.IntRange(0, 2).Draw(t, "yields"),
	}}
	for n := rapid.IntRange(0, 3).Draw(t, "controls"); n > 0; n-- {
		c.Controls = append(c.Controls, pick(t, "control", ref.CtlHeartbeat, ref.CtlSyncReq))
	}
	taken := map[uint64]bool{}
	for g := rapid.IntRange(1, 4).Draw(t, "goroutines"); g > 0; g-- {
		of := rapid.IntRange(0, len(c.Tables)-1).Draw(t, "table")
		var pool []ref.Update
		var lens []int
		var ids []uint64
		for n := rapid.IntRange(1, 3).Draw(t, "pool"); n > 0; n-- {
			pool = append(pool, genUpdate(t, c.Tables[of], pick(t, "maxlen", 10, 10, 300)))
			k := 0
			if chance(t, "exact length", 25) {
				k = genLen(t, "length", 60000)
			}
			lens = append(lens, k)
			id := genU64(t, "switch")
			for taken[id] {
				id++
			}
			taken[id] = true
			ids = append(ids, id)
		}
		var steps []p20Step
		for n := rapid.IntRange(1, 12).Draw(t, "steps"); n > 0; n-- {
			s := p20Step{Kind: pick(t, "kind", wDefinition, wSwitch, wEntry, wEntry, wBatch, wFlush), Reuse: chance(t, "reuse", 40)}
			k := 1
			if s.Kind == wBatch {
				k = rapid.IntRange(0, 6).Draw(t, "batch")
			}
			for ; k > 0; k-- {
				s.Which = append(s.Which, rapid.IntRange(0, len(pool)-1).Draw(t, "which"))
			}
			if chance(t, "sleeps", 15) {
				s.Sleep = pick(t, "sleep", 1, 1000, 3000)
			}
			if chance(t, "yields", 30) {
				s.Yield = rapid.IntRange(1, 3).Draw(t, "yield")
			}
			steps = append(steps, s)
		}
		c.Of, c.Pools, c.Steps = append(c.Of, of), append(c.Pools, pool), append(c.Steps, steps)
		c.Lens, c.Switches = append(c.Lens, lens), append(c.Switches, ids)
	}
	return c
}

// overwrite makes e the update u, in the objects it consists of.
func overwrite(e, u *sticktable.EntryUpdate) {
	key, data := e.Key, e.Data
	*e = *u
	reflect.ValueOf(key).Elem().Set(reflect.ValueOf(u.Key).Elem())
	e.Key = key
	for i, d := range data {
		reflect.ValueOf(d).Elem().Set(reflect.ValueOf(u.Data[i]).Elem())
	}
	e.Data = data
}

func p20RunAgain(r *pbt.R, c p20Again) error {
	_, err := bubble(r, func() error {
		w := newPeWorld()
		defer w.cancel()
		var sends [][]*wSend
		owner := map[string]int{}
		want := make([][]string, len(c.Steps))
		for g, steps := range c.Steps {
			table := c.Tables[c.Of[g]]
			def := libTable(table)
			var entries []*sticktable.EntryUpdate
			var makes []func() *sticktable.EntryUpdate
			var texts []string
			for j, u := range c.Pools[g] {
				u.Key = append(binary.BigEndian.AppendUint32(nil, uint32(g<<24|j)), u.Key[min(4, len(u.Key)):]...)
				if table.KeyType == ref.KString && c.Lens[g][j] > 0 {
					exactly(table, &u, c.Lens[g][j])
					u.Key = append(u.Key, make(ref.Str, max(0, 4-len(u.Key)))...)
					binary.BigEndian.PutUint32(u.Key, uint32(g<<24|j))
				}
				makes = append(makes, func() *sticktable.EntryUpdate { return libUpdate(table, def, u) })
				entries = append(entries, makes[j]())
				typ := ref.MsgUpdate
				if u.Timed {
					typ = ref.MsgTimed
				}
				plain := u
				plain.Inc = true // without the id
				texts = append(texts, string(rune(typ))+string(ref.AppendUpdate(nil, table, padded(table, plain))))
			}
			defs := make([]*sticktable.Definition, 3)
			shared, sharedDef := makes[0](), libTable(table)
			names := make([]string, 3)
			for j := range defs {
				d := table
				d.Name = append(ref.Str(fmt.Sprintf("%d/%d/", g, j)), d.Name...)
				defs[j] = libTable(d)
				names[j] = string(rune(ref.MsgDefinition)) + string(ref.AppendTable(nil, d))
			}
			var l []*wSend
			for _, step := range steps {
				s := &wSend{item: wItem{Sleep: step.Sleep, Yield: step.Yield}}
				switch step.Kind {
				case wFlush:
					s.do = (*peers.Writer).Flush
				case wDefinition:
					j := step.Which[0]
					want[g] = append(want[g], names[j])
					s.do = func(w *peers.Writer) error {
						d := defs[j]
						if step.Reuse {
							*sharedDef = *d
							d = sharedDef
						}
						return w.SendTableDefinition(d)
					}
				case wSwitch:
					id := c.Switches[g][step.Which[0]]
					want[g] = append(want[g], string(rune(ref.MsgSwitch))+string(ref.AppendVarint(nil, id)))
					s.do = func(w *peers.Writer) error { return w.SendTableSwitch(id) }
				case wEntry:
					j := step.Which[0]
					want[g] = append(want[g], texts[j])
					s.do = func(w *peers.Writer) error {
						e := entries[j]
						if step.Reuse {
							overwrite(shared, makes[j]())
							e = shared
						}
						return w.SendEntry(e)
					}
				default:
					for _, j := range step.Which {
						want[g] = append(want[g], texts[j])
					}
					s.do = func(w *peers.Writer) error {
						var list []*sticktable.EntryUpdate
						for i, j := range step.Which {
							list = append(list, entries[j])
							if step.Reuse && i == len(step.Which)-1 {
								overwrite(shared, makes[j]())
								list[i] = shared
							}
						}
						return w.SendEntries(list)
					}
				}
				l = append(l, s)
			}
			for _, text := range want[g] {
				owner[text] = g
			}
			sends = append(sends, l)
			r.NonTrivialIf(len(want[g]) > len(c.Pools[g])+3)
			r.Count("items", len(l))
		}
		conn, stop := c.runSends(w, memnet.Options{}, sends)
		defer stop()
		rest(4*time.Second + time.Duration(len(c.Controls)*c.Gap)*time.Millisecond)
		if err := w.err(); err != nil {
			return err
		}
		for g, l := range sends {
			for i, s := range l {
				if !s.done || s.err != nil {
					return fmt.Errorf("call %d of goroutine %d: returned %v, %v", i, g, s.done, s.err)
				}
			}
		}
		ms, _, err := peOutput(conn.Output())
		if err != nil {
			return err
		}
		ms, _ = partials(ms)
		last := int64(-1)
		next := make([]int, len(want))
		for n, m := range ms {
			text := string(rune(m.Type)) + string(m.Data)
			if m.Class == ref.ClassTable && (m.Type == ref.MsgUpdate || m.Type == ref.MsgTimed) {
				if len(m.Data) < 4 {
					return fmt.Errorf("message %d is too short: %v", n, m)
				}
				id := int64(binary.BigEndian.Uint32(m.Data))
				if id <= last {
					return fmt.Errorf("message %d: update id %d follows %d", n, id, last)
				}
				last = id
				text = string(rune(m.Type)) + string(m.Data[4:])
			}
			g, ok := owner[text]
			if !ok || m.Class != ref.ClassTable {
				return fmt.Errorf("message %d was not sent by anyone: %s", n, trunc(m))
			}
			if next[g] == len(want[g]) || want[g][next[g]] != text {
				return fmt.Errorf("message %d is not what goroutine %d has sent as its %d. item: %s", n, g, next[g], trunc(m))
			}
			next[g]++
		}
		for g := range want {
			if next[g] < len(want[g]) {
				return fmt.Errorf("only %d of the %d items of goroutine %d arrive", next[g], len(want[g]), g)
			}
		}
		if conn.Closed() {
			return fmt.Errorf("the session is ended")
		}
		w.cancel()
		rest(time.Second)
		return w.err()
	})
	return err
}

func p20Run(r *pbt.R, c wRun) error {
	busy := 0
	for _, l := range c.Goroutines {
		n := 0
		for _, it := range l {
			n += len(it.Updates)
		}
		if n > 0 {
			busy++
		}
		r.Count("entries", n)
		r.Count("items", len(l))
	}
	r.NonTrivialIf(busy > 1)
	_, err := bubble(r, func() error {
		w := newPeWorld()
		defer w.cancel()
		conn, sends, stop := c.run(w, memnet.Options{})
		defer stop()
		rest(time.Millisecond)
		out := conn.Output()
		// The rest of the control messages.
		rest(4*time.Second + time.Duration(len(c.Controls)*c.Gap)*time.Millisecond)
		if err := w.err(); err != nil {
			return err
		}
		ms, _, err := peOutput(out)
		if err != nil {
			return err
		}
		ms, _ = partials(ms)
		if err := wired(r, ms, sends, false); err != nil {
			return err
		}
		if conn.Closed() {
			return fmt.Errorf("the session is ended")
		}
		ms, _, err = peOutput(conn.Output())
		if err != nil {
			return err
		}
		if _, n := partials(ms); n != c.syncRequests() {
			return fmt.Errorf("%d answers to %d synchronisation requests", n, c.syncRequests())
		}
		r.LabelIf(len(out) > 65536, "more than 64 KiB")
		w.cancel()
		rest(time.Second)
		return w.err()
	})
	return err
}
