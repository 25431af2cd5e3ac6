// Package memnet is an in-memory listener and connection for driving a server:
// the server sees net.Listener and net.Conn, the harness decides how what it
// sends is split into reads, when writes fail, and where goroutines yield.
//
// All blocking is done on sync.Cond, which synctest counts as durable.
package memnet

import (
	"errors"
	"io"
	"net"
	"os"
	"runtime"
	"sync"
	"time"
)

type addr string

func (a addr) Network() string { return "mem" }
func (a addr) String() string  { return string(a) }

type Listener struct {
	mu     sync.Mutex
	cond   *sync.Cond
	queue  []*Conn
	closed bool
	closes int
}

func Listen() *Listener {
	l := &Listener{}
	l.cond = sync.NewCond(&l.mu)
	return l
}

func (l *Listener) Accept() (net.Conn, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	for len(l.queue) == 0 && !l.closed {
		l.cond.Wait()
	}
	if l.closed {
		return nil, &net.OpError{Op: "accept", Net: "mem", Err: net.ErrClosed}
	}
	c := l.queue[0]
	l.queue[0] = nil
	l.queue = l.queue[1:]
	return c, nil
}

func (l *Listener) Close() error {
	l.mu.Lock()
	defer l.mu.Unlock()
	l.closes++
	if l.closed {
		return net.ErrClosed
	}
	l.closed = true
	l.cond.Broadcast()
	return nil
}

func (l *Listener) Closed() bool {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.closed
}

func (l *Listener) Addr() net.Addr { return addr("listener") }

// Dial creates a connection and queues it for Accept.
func (l *Listener) Dial(o Options) *Conn {
	c := &Conn{opt: o}
	c.cond = sync.NewCond(&c.mu)
	l.mu.Lock()
	defer l.mu.Unlock()
	if l.closed {
		c.closed = true
	}
	l.queue = append(l.queue, c)
	l.cond.Broadcast()
	return c
}

// Options of a connection.
type Options struct {
	// Yield makes every Read and Write give up the processor that many times.
	Yield int
	// FailWriteAfter makes writes fail once that many bytes were accepted
	// (negative or zero with FailWrite unset: never).
	FailWrite      bool
	FailWriteAfter int
	WriteErr       error
	// ReadMax bounds how much one Read returns (0: no bound).
	ReadMax int
	// Stall is how long each Write takes. It only is for connections that are
	// written to by a single goroutine at a time.
	Stall time.Duration
}

// Conn is the server's end; the harness uses the upper-case extra methods.
type Conn struct {
	opt Options

	mu       sync.Mutex
	cond     *sync.Cond
	in       [][]byte
	inErr    error // after in is used up
	out      []byte
	outTimes []Stamp
	held     bool
	closed   bool
	closedAt time.Time
	closes   int
	wfailed  bool
	readBy   time.Time
	writeBy  time.Time
	timer    *time.Timer
	wtimer   *time.Timer
}

// Stamp tells that the output had grown to Len bytes at time T.
type Stamp struct {
	Len int
	T   time.Time
}

func (c *Conn) yield() {
	for i := 0; i < c.opt.Yield; i++ {
		runtime.Gosched()
	}
}

func (c *Conn) Read(p []byte) (int, error) {
	c.yield()
	c.mu.Lock()
	defer c.mu.Unlock()
	if len(p) == 0 {
		return 0, nil
	}
	for {
		if c.closed {
			return 0, &net.OpError{Op: "read", Net: "mem", Err: net.ErrClosed}
		}
		if expired(c.readBy) {
			return 0, &net.OpError{Op: "read", Net: "mem", Err: os.ErrDeadlineExceeded}
		}
		if len(c.in) > 0 {
			break
		}
		if c.inErr != nil {
			if c.inErr == io.EOF {
				return 0, io.EOF
			}
			return 0, &net.OpError{Op: "read", Net: "mem", Err: c.inErr}
		}
		c.cond.Wait()
	}
	b := c.in[0]
	if c.opt.ReadMax > 0 && len(p) > c.opt.ReadMax {
		p = p[:c.opt.ReadMax]
	}
	n := copy(p, b)
	if n == len(b) {
		c.in = c.in[1:]
	} else {
		c.in[0] = b[n:]
	}
	return n, nil
}

var ErrWrite = errors.New("memnet: injected write failure")

func (c *Conn) Write(p []byte) (int, error) {
	c.yield()
	if c.opt.Stall > 0 {
		time.Sleep(c.opt.Stall)
	}
	n, err := c.write(p)
	c.yield()
	return n, err
}

func (c *Conn) write(p []byte) (int, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	for c.held && !c.closed && !expired(c.writeBy) {
		c.cond.Wait()
	}
	if c.closed {
		return 0, &net.OpError{Op: "write", Net: "mem", Err: net.ErrClosed}
	}
	if expired(c.writeBy) {
		return 0, &net.OpError{Op: "write", Net: "mem", Err: os.ErrDeadlineExceeded}
	}
	n := len(p)
	var err error
	if c.opt.FailWrite && len(c.out)+n > c.opt.FailWriteAfter {
		n = max(c.opt.FailWriteAfter-len(c.out), 0)
		err = c.opt.WriteErr
		if err == nil {
			err = ErrWrite
		}
		err = &net.OpError{Op: "write", Net: "mem", Err: err}
		c.wfailed = true
	}
	c.out = append(c.out, p[:n]...)
	if n > 0 {
		c.outTimes = append(c.outTimes, Stamp{len(c.out), time.Now()})
	}
	c.cond.Broadcast()
	return n, err
}

func (c *Conn) Close() error {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.closes++
	if c.closed {
		return net.ErrClosed
	}
	for _, t := range []*time.Timer{c.timer, c.wtimer} {
		if t != nil {
			t.Stop()
		}
	}
	c.closed = true
	c.closedAt = time.Now()
	c.cond.Broadcast()
	return nil
}

func (c *Conn) LocalAddr() net.Addr  { return addr("server") }
func (c *Conn) RemoteAddr() net.Addr { return addr("client") }
func (c *Conn) SetDeadline(t time.Time) error {
	_ = c.SetWriteDeadline(t)
	return c.SetReadDeadline(t)
}

func (c *Conn) SetReadDeadline(t time.Time) error {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.readBy = t
	c.wakeAt(&c.timer, t)
	return nil
}

func (c *Conn) SetWriteDeadline(t time.Time) error {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.writeBy = t
	c.wakeAt(&c.wtimer, t)
	return nil
}

// wakeAt makes those that wait look at their deadline now, and at t.
func (c *Conn) wakeAt(timer **time.Timer, t time.Time) {
	if *timer != nil {
		(*timer).Stop()
		*timer = nil
	}
	if !t.IsZero() {
		*timer = time.AfterFunc(time.Until(t), func() {
			c.mu.Lock()
			defer c.mu.Unlock()
			c.cond.Broadcast()
		})
	}
	c.cond.Broadcast()
}

func expired(t time.Time) bool { return !t.IsZero() && !time.Now().Before(t) }

// Feed makes each chunk available to a separate Read.
func (c *Conn) Feed(chunks ...[]byte) {
	c.mu.Lock()
	defer c.mu.Unlock()
	for _, b := range chunks {
		if len(b) > 0 {
			c.in = append(c.in, append([]byte(nil), b...))
		}
	}
	c.cond.Broadcast()
}

// EndInput makes reads fail with err (io.EOF: orderly end) once everything fed
// has been read.
func (c *Conn) EndInput(err error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.inErr == nil {
		c.inErr = err
	}
	c.cond.Broadcast()
}

// FailWrites makes all further writes fail.
func (c *Conn) FailWrites(err error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.opt.FailWrite = true
	c.opt.FailWriteAfter = len(c.out)
	c.opt.WriteErr = err
}

// Hold makes writes wait until they no longer are to be held, the connection is
// closed or their deadline has passed.
func (c *Conn) Hold(held bool) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.held = held
	c.cond.Broadcast()
}

// Unread tells how many fed bytes the server has not read.
func (c *Conn) Unread() int {
	c.mu.Lock()
	defer c.mu.Unlock()
	n := 0
	for _, b := range c.in {
		n += len(b)
	}
	return n
}

// Output returns everything the server has written.
func (c *Conn) Output() []byte {
	c.mu.Lock()
	defer c.mu.Unlock()
	return append([]byte(nil), c.out...)
}

// Drain returns the output, which is then forgotten, as are its stamps.
func (c *Conn) Drain() []byte {
	c.mu.Lock()
	defer c.mu.Unlock()
	out := c.out
	c.out, c.outTimes = nil, nil
	return out
}

// Stamps returns when the output grew.
func (c *Conn) Stamps() []Stamp {
	c.mu.Lock()
	defer c.mu.Unlock()
	return append([]Stamp(nil), c.outTimes...)
}

func (c *Conn) Closed() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.closed
}

func (c *Conn) ClosedAt() time.Time {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.closedAt
}

func (c *Conn) WriteFailed() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.wfailed
}

// WaitOutput blocks until done(output) or the server closes the connection,
// and returns the output.
func (c *Conn) WaitOutput(done func(out []byte) bool) ([]byte, bool) {
	c.mu.Lock()
	defer c.mu.Unlock()
	for {
		if done(c.out) {
			return append([]byte(nil), c.out...), true
		}
		if c.closed {
			return append([]byte(nil), c.out...), false
		}
		c.cond.Wait()
	}
}

// Split cuts b at the given sizes, the rest forming the last chunk.
func Split(b []byte, sizes []int) [][]byte {
	var chunks [][]byte
	for _, n := range sizes {
		if n <= 0 {
			continue
		}
		if n >= len(b) {
			break
		}
		chunks = append(chunks, b[:n])
		b = b[n:]
	}
	if len(b) > 0 {
		chunks = append(chunks, b)
	}
	return chunks
}
