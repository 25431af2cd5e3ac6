package checks

import (
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"verif/harness/pbt"
)

// patience is how long something over a real socket may take. Once a case has
// failed, it is less: what is left to do is to find a smaller one.
func patience() time.Duration {
	if tcpFailed.Load() {
		return 2 * time.Second
	}
	return 30 * time.Second
}

var tcpFailed atomic.Bool

var tcpPort = struct {
	sync.Mutex
	n int
}{}

// freshAddr returns a loopback address nobody else listens on: no other
// process of ours has the same IP.
func freshAddr() string {
	tcpPort.Lock()
	defer tcpPort.Unlock()
	for {
		tcpPort.n++
		pid := os.Getpid()
		a := fmt.Sprintf("127.%d.%d.%d:%d", 10+pid>>14, pid>>7&127, 1+pid&127, 20000+tcpPort.n%40000)
		l, err := net.Listen("tcp", a)
		if err == nil {
			l.Close()
			return a
		}
		if tcpPort.n > 100000 {
			panic(pbt.Harness("no address: " + err.Error()))
		}
	}
}

// tcpBlock holds the ports that this process alone uses on addresses that all
// share.
var tcpBlock struct {
	sync.Mutex
	l       net.Listener
	port, n int
}

// sharedAddr returns an address to listen on and one to dial: of IPv6, of all
// interfaces, of a name. It is a fresh one of IPv4 where there is no other.
func sharedAddr(kind string) (listen, dial string) {
	if kind == "" {
		a := freshAddr()
		return a, a
	}
	tcpBlock.Lock()
	defer tcpBlock.Unlock()
	for k := 0; tcpBlock.l == nil; k++ {
		if k == 100 {
			panic(pbt.Harness("no ports"))
		}
		l, err := net.Listen("tcp", fmt.Sprintf("127.8.8.8:%d", 9000+k))
		if err == nil {
			tcpBlock.l, tcpBlock.port = l, 10000+100*k
		}
	}
	for try := 0; try < 100; try++ {
		port := fmt.Sprint(tcpBlock.port + tcpBlock.n%100)
		tcpBlock.n++
		switch kind {
		case "v6":
			listen, dial = "[::1]:"+port, "[::1]:"+port
		case "any":
			listen, dial = ":"+port, "127.0.0.1:"+port
		case "any6":
			listen, dial = ":"+port, "[::1]:"+port
		case "name":
			listen, dial = "localhost:"+port, "localhost:"+port
		}
		if l, err := net.Listen("tcp", listen); err == nil {
			nc, err := net.Dial("tcp", dial)
			l.Close()
			if err == nil {
				nc.Close()
				return listen, dial
			}
		}
	}
	a := freshAddr()
	return a, a
}

// tcpConn is the remote's end of a real connection.
type tcpConn struct {
	nc   *net.TCPConn
	slow time.Duration // before each read

	mu    sync.Mutex
	cond  *sync.Cond
	out   []byte
	end   error // of the output
	ended bool
}

// tcpDial connects to a server that is about to listen, unless it gives up.
func tcpDial(addr string, over <-chan error, slow int) (*tcpConn, error) {
	for began := time.Now(); ; time.Sleep(time.Millisecond) {
		nc, err := net.Dial("tcp", addr)
		if err == nil {
			c := &tcpConn{nc: nc.(*net.TCPConn), slow: time.Duration(slow) * time.Millisecond}
			c.cond = sync.NewCond(&c.mu)
			if slow > 0 {
				_ = c.nc.SetReadBuffer(4096)
			}
			go c.read()
			return c, nil
		}
		select {
		case err := <-over:
			return nil, fmt.Errorf("serving %s ends: %v", addr, err)
		default:
		}
		if time.Since(began) > patience() {
			return nil, fmt.Errorf("nobody listens on %s: %w", addr, err)
		}
	}
}

func (c *tcpConn) read() {
	buf := make([]byte, 65536)
	if c.slow > 0 {
		buf = buf[:2000]
	}
	for {
		time.Sleep(c.slow)
		n, err := c.nc.Read(buf)
		c.mu.Lock()
		c.out = append(c.out, buf[:n]...)
		if err != nil {
			c.end = err
		}
		c.cond.Broadcast()
		c.mu.Unlock()
		if err != nil {
			return
		}
	}
}

func (c *tcpConn) Feed(chunks ...[]byte) {
	for _, b := range chunks {
		_ = c.nc.SetWriteDeadline(time.Now().Add(patience()))
		if _, err := c.nc.Write(b); err != nil {
			return
		}
	}
}

func (c *tcpConn) wait(done func() bool) bool {
	late := false
	timer := time.AfterFunc(patience(), func() {
		c.mu.Lock()
		defer c.mu.Unlock()
		late = true
		c.cond.Broadcast()
	})
	defer timer.Stop()
	c.mu.Lock()
	defer c.mu.Unlock()
	for !done() {
		if late || c.end != nil {
			return done()
		}
		c.cond.Wait()
	}
	return true
}

func (c *tcpConn) WaitOutput(done func([]byte) bool) ([]byte, bool) {
	ok := c.wait(func() bool { return done(c.out) })
	return c.Output(), ok
}

// waitEnd returns how the output ended: io.EOF if in order, nil if it did not.
func (c *tcpConn) waitEnd() error {
	c.wait(func() bool { return c.end != nil })
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.end
}

func (c *tcpConn) Output() []byte {
	c.mu.Lock()
	defer c.mu.Unlock()
	return append([]byte(nil), c.out...)
}

func (c *tcpConn) Closed() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.end != nil && !c.ended
}

// EndInput closes our half, or resets the connection.
func (c *tcpConn) EndInput(err error) {
	c.mu.Lock()
	c.ended = true
	c.mu.Unlock()
	switch {
	case errors.Is(err, syscall.ECONNRESET):
		_ = c.nc.SetLinger(0)
		_ = c.nc.Close()
	case err == io.EOF:
		_ = c.nc.CloseWrite()
	default:
		_ = c.nc.Close()
	}
}

func (c *tcpConn) close() { c.EndInput(net.ErrClosed) }

// eventually polls.
func eventually(ok func() bool) bool {
	for began := time.Now(); ; time.Sleep(time.Millisecond) {
		if ok() {
			return true
		}
		if time.Since(began) > patience() {
			return ok()
		}
	}
}

// tried runs a case that real time may have disturbed again if it fails slowly.
func tried(run func() error) (err error) {
	for i := 0; i < 2; i++ {
		began := time.Now()
		if err = run(); err == nil {
			return nil
		}
		if time.Since(began) < 3*time.Second || tcpFailed.Load() {
			break
		}
	}
	tcpFailed.Store(true)
	return err
}

// served is what happens once the base context is cancelled: serving ends, and
// the address is free.
func served(addr string, over <-chan error) error {
	select {
	case <-over:
	case <-time.After(patience()):
		return fmt.Errorf("serving %s does not end with the base context", addr)
	}
	// The listener may still be about to be closed.
	var err error
	eventually(func() bool {
		var l net.Listener
		if l, err = net.Listen("tcp", addr); err == nil {
			l.Close()
		}
		return err == nil
	})
	if err != nil {
		return fmt.Errorf("the address is still in use after serving it has ended: %w", err)
	}
	return nil
}
