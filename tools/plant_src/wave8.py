import sys, os; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib import *

SPOP_AGAIN='''
// listen calls Serve of an agent with a new listener.
func listen(t *testing.T, a *spop.Agent) (net.Listener, chan error) {
	t.Helper()
	log.SetOutput(io.Discard)
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	over := make(chan error, 1)
	go func() { over <- a.Serve(l) }()
	t.Cleanup(func() { l.Close() })
	return l, over
}

func answered(t *testing.T, c net.Conn) {
	t.Helper()
	c.Write(frame(3, 5, 7, message(nil, "m")))
	if f := readFrame(c, 5*time.Second); f == nil || f[0] != 103 {
		t.Fatalf("no ACK: %q", f)
	}
}
'''

mk("accepted-die-with-listener","P35","spop",[("spop/agent.go",'''	go func() {
		<-a.BaseContext.Done()
		l.Close()
	}()
''','''	// Nothing of this call is left once it has returned.
	ctx, cancel := context.WithCancel(a.BaseContext)
	defer cancel()
	go func() {
		<-ctx.Done()
		l.Close()
	}()
'''),("spop/agent.go","newProtocolClient(a.BaseContext, nc,","newProtocolClient(ctx, nc,")],spop_test([],SPOP_AGAIN+'''
func TestDemo(t *testing.T) {
	alive := make(chan error, 10)
	a := &spop.Agent{BaseContext: context.Background(), Handler: spop.HandlerFunc(func(ctx context.Context, _ *encoding.ActionWriter, m *encoding.Message) {
		alive <- ctx.Err()
	})}
	l, over := listen(t, a)
	c := dial(t, l)
	shake(t, c, 16380)
	answered(t, c)
	<-alive
	l.Close()
	<-over
	time.Sleep(100 * time.Millisecond)
	answered(t, c)
	if err := <-alive; err != nil {
		t.Fatal("the connection lives, but the context of its handler is over:", err)
	}
}
'''),"a connection that is used after the listener it was accepted from has failed","Connections end, and contexts of their handlers are cancelled, because a listener has failed.")

mk("latest-listener-closed","P35","peers",[("peers/peers.go",'''	Addr          string
}
''','''	Addr          string

	l net.Listener
}
'''),("peers/peers.go",'''	go func() {
		<-a.BaseContext.Done()
		l.Close()
	}()
''','''	a.l = l
	go func() {
		<-a.BaseContext.Done()
		a.l.Close()
	}()
''')],head("peers_test",{"context","io","log","net","testing","time"},["github.com/dropmorepackets/haproxy-go/peers"])+'''
func TestDemo(t *testing.T) {
	log.SetOutput(io.Discard)
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	p := &peers.Peer{BaseContext: ctx, HandlerSource: func() peers.Handler { return nil }}
	over := make(chan error, 2)
	for i := 0; i < 2; i++ {
		l, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			t.Fatal(err)
		}
		defer l.Close()
		go func() { over <- p.Serve(l) }()
		time.Sleep(100 * time.Millisecond)
	}
	cancel()
	for i := 0; i < 2; i++ {
		select {
		case <-over:
		case <-time.After(5 * time.Second):
			t.Fatal("a call of Serve does not return when the base context is cancelled")
		}
	}
}
''',"a second listener served by the same peer while the first one still is","Cancelling the base context closes only the latest of its listeners; the other calls of Serve go on.")

mk("workers-stop-with-context","P35","spop",[("spop/agent.go",'''	Addr        string
}
''','''	Addr        string

	as *asyncScheduler
}
'''),("spop/agent.go",'''	as := newAsyncScheduler()
''','''	// All listeners share the workers.
	if a.as == nil {
		a.as = newAsyncScheduler()
		// They end with the agent.
		context.AfterFunc(a.BaseContext, a.as.q.Close)
	}
	as := a.as
'''),("spop/scheduler.go",'''	lock         sync.RWMutex
}
''','''	lock         sync.RWMutex
	closed       bool
}
'''),("spop/scheduler.go",'''	for bq.isEmpty() {
		bq.notEmptyCond.Wait()
	}

	item''','''	for bq.isEmpty() {
		if bq.closed {
			return queueElem{}
		}
		bq.notEmptyCond.Wait()
	}

	item'''),("spop/scheduler.go",'''type asyncScheduler struct {
''','''// Close makes Get return nothing once the queue is empty.
func (bq *queue) Close() {
	bq.lock.Lock()
	defer bq.lock.Unlock()

	bq.closed = true
	bq.notEmptyCond.Broadcast()
}

type asyncScheduler struct {
'''),("spop/scheduler.go",'''		qe := a.q.Get()
''','''		qe := a.q.Get()
		if qe.pc == nil {
			return
		}
''')],spop_test([],SPOP_AGAIN+'''
func TestDemo(t *testing.T) {
	a := &spop.Agent{Handler: spop.HandlerFunc(func(context.Context, *encoding.ActionWriter, *encoding.Message) {})}
	for i := 0; i < 2; i++ {
		ctx, cancel := context.WithCancel(context.Background())
		a.BaseContext = ctx
		l, over := listen(t, a)
		c := dial(t, l)
		shake(t, c, 16380)
		answered(t, c)
		cancel()
		<-over
		time.Sleep(50 * time.Millisecond)
	}
}
'''),"an agent that serves again, with another base context, after its first one was cancelled","The second call of Serve answers no NOTIFY: the workers have ended with the first context.")
