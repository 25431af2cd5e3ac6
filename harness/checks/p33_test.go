package checks

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"sync"
	"time"

	"github.com/dropmorepackets/haproxy-go/pkg/testutil"
	"pgregory.net/rapid"

	"verif/harness/pbt"
	"verif/harness/ref"
)

// p33End is what one end of a pipe does.
type p33End struct {
	Writes []int `json:",omitempty"`
	Wait   []int `json:",omitempty"` // ms before each write
	Reads  []int // sizes, over and over
	Slow   int   `json:",omitempty"` // ms before each read
	Close  int   `json:",omitempty"` // at so many ms; 0: when the other end has all
}

type p33Pipe struct{ A, B p33End }

type p33Reader struct {
	Data  ref.Str
	Reads []int
}

type p33File struct {
	Name    string
	Content ref.Str
}

func init() {
	genEnd := func(t *rapid.T, l string) (e p33End) {
		for n := rapid.IntRange(0, 8).Draw(t, l+"/writes"); n > 0; n-- {
			e.Writes = append(e.Writes, pick(t, l+"/write", 0, 1, 2, 7, 100, 5000, 70000))
			e.Wait = append(e.Wait, pick(t, l+"/wait", 0, 0, 1, 5))
		}
		for n := rapid.IntRange(1, 4).Draw(t, l+"/reads"); n > 0; n-- {
			e.Reads = append(e.Reads, pick(t, l+"/read", 1, 2, 3, 64, 1000, 70000))
		}
		if chance(t, l+"/slow", 30) {
			e.Slow = pick(t, l+"/ms", 1, 3)
		}
		if chance(t, l+"/closes", 40) {
			e.Close = rapid.IntRange(1, 30).Draw(t, l+"/close")
		}
		return e
	}
	pbt.Register(&pbt.Property{
		ID: "P33",
		Rule: "Part pipe: both ends of a PipeConn write up to 8 chunks of up to 70000 bytes and read with buffers of any size at the same time, one or both may close at any moment. Part reader: a RepeatReader over 0-300 bytes is read with buffers of 0-2000 bytes. Part file: temporary files of any content. Race detector off, virtual time. " +
			"Non-trivial: both ends write, or one closes while the other writes; a read beyond the end of the data; a file that is not empty.",
		Parts: []*pbt.Part{
			pbt.NewPart("pipe", 2000, func(t *rapid.T) p33Pipe { return p33Pipe{genEnd(t, "a"), genEnd(t, "b")} }, p33RunPipe),
			pbt.NewPart("reader", 5000, func(t *rapid.T) p33Reader {
				return p33Reader{
					Data:  genBytes(t, "data", pick(t, "len", 0, 1, 2, 3, 17, 300)),
					Reads: rapid.SliceOfN(rapid.SampledFrom([]int{0, 1, 2, 3, 5, 16, 17, 18, 299, 300, 301, 2000}), 1, 20).Draw(t, "reads"),
				}
			}, p33RunReader),
			pbt.NewPart("file", 200, func(t *rapid.T) p33File {
				return p33File{pick(t, "name", "", "x", "*.cfg", "a b"), genBytes(t, "content", pick(t, "len", 0, 1, 100, 100000))}
			}, p33RunFile),
		},
	})
}

// p33Byte is the k-th byte an end sends.
func p33Byte(end, k int) byte { return byte(k*7 + k>>8*13 + k>>16 + end*101) }

func p33RunPipe(r *pbt.R, c p33Pipe) error {
	_, err := bubble(r, func() error {
		rw, nc := testutil.PipeConn()
		ends := []io.ReadWriteCloser{rw, nc}
		var mu sync.Mutex
		var sent, got [2]int // bytes whose writes returned, bytes read
		var ends2 [2]error   // what ended the reads
		var werr [2]error
		var fail error
		var wg, writers sync.WaitGroup
		for i, pe := range []p33End{c.A, c.B} {
			wg.Add(2)
			writers.Add(1)
			go func() {
				defer wg.Done()
				defer writers.Done()
				k := 0
				for j, n := range pe.Writes {
					time.Sleep(time.Duration(pe.Wait[j]) * ms)
					b := make([]byte, n)
					for x := range b {
						b[x] = p33Byte(i, k+x)
					}
					m, err := ends[i].Write(b)
					k += m
					mu.Lock()
					sent[i] += m
					werr[i] = err
					if err == nil && m != n && fail == nil {
						fail = fmt.Errorf("end %d: a write of %d bytes reports %d and no error", i, n, m)
					}
					mu.Unlock()
					if err != nil {
						return
					}
				}
			}()
			go func() {
				defer wg.Done()
				for j := 0; ; j++ {
					time.Sleep(time.Duration(pe.Slow) * ms)
					buf := make([]byte, pe.Reads[j%len(pe.Reads)])
					n, err := ends[i].Read(buf)
					mu.Lock()
					for _, x := range buf[:n] {
						if want := p33Byte(1-i, got[i]); x != want && fail == nil {
							fail = fmt.Errorf("end %d: byte %d read is %#x, want %#x", i, got[i], x, want)
						}
						got[i]++
					}
					mu.Unlock()
					if err != nil {
						mu.Lock()
						ends2[i] = err
						mu.Unlock()
						return
					}
				}
			}()
			if pe.Close > 0 {
				wg.Add(1)
				go func() {
					defer wg.Done()
					time.Sleep(time.Duration(pe.Close) * ms)
					if err := ends[i].Close(); err != nil {
						mu.Lock()
						fail = fmt.Errorf("end %d: Close: %w", i, err)
						mu.Unlock()
					}
				}()
			}
		}
		closes := c.A.Close > 0 || c.B.Close > 0
		r.NonTrivialIf(len(c.A.Writes) > 0 && len(c.B.Writes) > 0)
		if !closes {
			writers.Wait()
			rest(time.Hour)
			mu.Lock()
			s, g, e := sent, got, werr
			mu.Unlock()
			total := [2]int{}
			for i, pe := range []p33End{c.A, c.B} {
				for _, n := range pe.Writes {
					total[i] += n
				}
				if e[i] != nil || s[i] != total[i] || g[1-i] != total[i] {
					return fmt.Errorf("end %d: %d of %d bytes are sent (%v), %d are received", i, s[i], total[i], e[i], g[1-i])
				}
			}
			_ = ends[(len(c.A.Writes)+len(c.B.Writes))%2].Close()
		}
		wg.Wait() // a call that is left waiting is a deadlock of the bubble
		mu.Lock()
		defer mu.Unlock()
		if fail != nil {
			return fail
		}
		for i := range ends {
			if sent[i] != got[1-i] {
				return fmt.Errorf("end %d reports %d bytes sent, the other has read %d", i, sent[i], got[1-i])
			}
		}
		// Both ends are over now.
		for i, e := range ends {
			if ends2[i] == nil {
				return fmt.Errorf("end %d: reads end without an error", i)
			}
			if n, err := e.Write([]byte{1}); n != 0 || err == nil {
				return fmt.Errorf("end %d: a write after the end reports %d, %v", i, n, err)
			}
			if n, err := e.Read(make([]byte, 1)); n != 0 || err == nil {
				return fmt.Errorf("end %d: a read after the end reports %d, %v", i, n, err)
			}
		}
		if c.B.Close > 0 {
			if _, err := nc.Read(make([]byte, 1)); !errors.Is(err, net.ErrClosed) {
				return fmt.Errorf("reading from a closed net.Conn reports %v", err)
			}
			if _, err := nc.Write([]byte{1}); !errors.Is(err, net.ErrClosed) {
				return fmt.Errorf("writing to a closed net.Conn reports %v", err)
			}
		}
		return nil
	})
	return err
}

func p33RunReader(r *pbt.R, c p33Reader) error {
	data := append([]byte(nil), c.Data...)
	rr := testutil.NewRepeatReader(data)
	at := 0
	for i, n := range c.Reads {
		buf := bytes.Repeat([]byte{0xee}, n)
		got, err := rr.Read(buf)
		if len(data) == 0 {
			if got != 0 || err != io.EOF {
				return fmt.Errorf("read %d of nothing reports %d, %v", i, got, err)
			}
			continue
		}
		if got != n || err != nil {
			return fmt.Errorf("read %d of %d bytes reports %d, %v", i, n, got, err)
		}
		for k, b := range buf {
			if want := c.Data[at%len(data)]; b != want {
				return fmt.Errorf("read %d: byte %d is %#x, want %#x", i, k, b, want)
			}
			at++
		}
	}
	r.NonTrivialIf(len(data) > 0 && at > len(data))
	if !bytes.Equal(data, c.Data) {
		return fmt.Errorf("reading has changed the data")
	}
	return nil
}

func p33RunFile(r *pbt.R, c p33File) error {
	t := &fakeTB{}
	var a, b string
	fatal, err := t.run(func() {
		a = testutil.TempFile(t, c.Name, string(c.Content))
		b = testutil.TempFile(t, c.Name, string(c.Content))
	})
	if err != nil || fatal != "" {
		return fmt.Errorf("TempFile: %v %s", err, fatal)
	}
	if a == b {
		return fmt.Errorf("two files with one name: %s", a)
	}
	for _, f := range []string{a, b} {
		got, err := os.ReadFile(f)
		if err != nil {
			return err
		}
		if !bytes.Equal(got, c.Content) {
			return fmt.Errorf("a file holds %s, want %s", trunc(ref.Str(got)), trunc(c.Content))
		}
	}
	r.NonTrivialIf(len(c.Content) > 0)
	if err := t.end(); err != nil {
		return err
	}
	for _, f := range []string{a, b} {
		if _, err := os.Stat(f); !errors.Is(err, os.ErrNotExist) {
			return fmt.Errorf("a file is still there after the test: %v", err)
		}
	}
	return nil
}
