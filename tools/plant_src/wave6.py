import sys, os; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib import *
ENC="github.com/dropmorepackets/haproxy-go/pkg/encoding"
TU="github.com/dropmorepackets/haproxy-go/pkg/testutil"
FAKE='''
// As "haproxy" on the PATH, this program copies its configuration and listens.
func TestMain(m *testing.M) {
	if to := os.Getenv("DEMO_HAPROXY"); to != "" {
		config, _ := os.ReadFile(os.Args[2])
		os.WriteFile(to, config, 0o600)
		for _, re := range []string{`stats socket (\\S+)`, `bind unix@(\\S+)`} {
			net.Listen("unix", string(regexp.MustCompile(re).FindSubmatch(config)[1]))
			time.Sleep(300 * time.Millisecond)
		}
		time.Sleep(20 * time.Second)
		return
	}
	os.Exit(m.Run())
}

func start(t *testing.T, cfg testutil.HAProxyConfig) (socket, config string) {
	t.Helper()
	dir := t.TempDir()
	self, err := os.Executable()
	if err != nil {
		t.Fatal(err)
	}
	if err := os.Symlink(self, dir+"/haproxy"); err != nil {
		t.Fatal(err)
	}
	t.Setenv("PATH", dir)
	t.Setenv("DEMO_HAPROXY", dir+"/config")
	socket = cfg.Run(t)
	b, err := os.ReadFile(dir + "/config")
	if err != nil {
		t.Fatal(err)
	}
	return socket, string(b)
}
'''
def fake_test(std, body): return codec_test("testutil_test",{"net","os","regexp","time"}|set(std),[TU],FAKE+body)

mk("config-html-template","P34","pkg/testutil",[("pkg/testutil/haproxy.go",'''	"fmt"
	"net"
''','''	"fmt"
	"html/template"
	"net"
'''),("pkg/testutil/haproxy.go",'''	"text/template"
''',"")],fake_test(["strings"],'''
func TestDemo(t *testing.T) {
	want := "http-request set-header X \\"a\\" if { src -m ip 10.0.0.1 } !{ path /x } # <'&"
	_, config := start(t, testutil.HAProxyConfig{FrontendPort: "8000", EngineAddr: "127.0.0.1:1", CustomFrontendConfig: want})
	if !strings.Contains(config, want) {
		t.Fatal(config)
	}
}
'''),"a configuration with quotes, ampersands or angle brackets","They are escaped as in HTML.")

mk("frontend-not-awaited","P34","pkg/testutil",[("pkg/testutil/haproxy.go",'''			l, err = net.Dial("unix", tcfg.FrontendSocket)
			if err != nil {
				continue
			}
			l.Close()

''','''			_, err = net.ResolveUnixAddr("unix", tcfg.FrontendSocket)
			if err != nil {
				continue
			}

''')],fake_test([],'''
func TestDemo(t *testing.T) {
	socket, _ := start(t, testutil.HAProxyConfig{FrontendPort: "8000"})
	c, err := net.Dial("unix", socket)
	if err != nil {
		t.Fatal(err)
	}
	c.Close()
}
'''),"a HAProxy that opens its frontend some time after its stats socket","Run returns too early.")

mk("process-args-split","P34","pkg/testutil",[("pkg/testutil/subprocess.go",'''	c := exec.Command(cmd, args...)
''','''	fields := strings.Fields(cmdString)
	c := exec.Command(fields[0], fields[1:]...)
''')],codec_test("testutil_test",["os","time"],[TU],'''
func TestDemo(t *testing.T) {
	f := t.TempDir() + "/out"
	testutil.RunProcess(t, "touch", []string{f + " with a space"})
	for i := 0; i < 200; i++ {
		if _, err := os.Stat(f + " with a space"); err == nil {
			return
		}
		time.Sleep(10 * time.Millisecond)
	}
	t.Fatal("no such file")
}
'''),"an argument that is empty or contains white space","The process gets other arguments.")

mk("allocs-at-most","P34","pkg/testutil",[("pkg/testutil/allocs.go","	if uint64(avg) != n {\n","	if uint64(avg) > n {\n")],codec_test("testutil_test",[],[TU],'''
type tb struct {
	testing.TB
	failed bool
}

func (t *tb) Helper()               {}
func (t *tb) Failed() bool          { return t.failed }
func (t *tb) Errorf(string, ...any) { t.failed = true }

func TestDemo(t *testing.T) {
	var f tb
	testutil.WithNAllocations(&f, 3, func() {})
	if !f.failed {
		t.Fatal("no allocations pass as 3")
	}
}
'''),"a function that allocates less often than declared","The test passes.")

mk("contradiction-leaks-listener","P28","peers",[("peers/peers.go",'''		return fmt.Errorf("opening listener: %w", err)
	}
	defer l.Close()

	return a.Serve(l)
''','''		return fmt.Errorf("opening listener: %w", err)
	}

	// Serve closes the listener once the base context is cancelled.
	return a.Serve(l)
''')],peer_test([],'''
func TestDemo(t *testing.T) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	addr := l.Addr().String()
	l.Close()
	p := &peers.Peer{Addr: addr, Handler: &handler{}, HandlerSource: func() peers.Handler { return &handler{} }}
	if err := p.ListenAndServe(); err == nil {
		t.Fatal("no error")
	}
	l, err = net.Listen("tcp", addr)
	if err != nil {
		t.Fatal(err)
	}
	l.Close()
}
'''),"a peer with contradicting handlers","The address stays in use although the call has failed.")

mk("unexported-skipped","P07","pkg/encoding",[("pkg/encoding/kvunmarshal.go",'''		if !fi.field.CanSet() {
			return fmt.Errorf("field %s is not settable", rt.Field(fi.fieldIdx).Name)
		}
''','''		if !fi.field.CanSet() {
			continue
		}
''')],codec_test("encoding_test",[],[ENC],'''
func TestDemo(t *testing.T) {
	w := encoding.NewKVWriter(make([]byte, 100), 0)
	if err := w.SetString("name", "x"); err != nil {
		t.Fatal(err)
	}
	var v struct {
		name string `spoe:"name"`
	}
	if err := encoding.NewKVScanner(w.Bytes(), 1).Unmarshal(&v); err == nil {
		t.Fatalf("no error, and %q", v.name)
	}
}
'''),"an entry for a field that is not exported","It is ignored silently.")

mk("serve-ends-quietly","P28","spop",[("spop/agent.go",'''		if err != nil {
			return fmt.Errorf("accepting conn: %w", err)
''','''		if errors.Is(err, net.ErrClosed) {
			return nil
		} else if err != nil {
			return fmt.Errorf("accepting conn: %w", err)
''')],spop_test([],'''
func TestDemo(t *testing.T) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	l.Close()
	h := spop.HandlerFunc(func(context.Context, *encoding.ActionWriter, *encoding.Message) {})
	if err := (&spop.Agent{Handler: h}).Serve(l); err == nil {
		t.Fatal("serving a closed listener is no error")
	}
}
'''),"a listener that has been closed by something else than the base context","Serve reports no error.")
