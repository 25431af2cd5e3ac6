package checks

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"net"
	"os"
	"regexp"
	"runtime"
	"slices"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"

	"github.com/dropmorepackets/haproxy-go/pkg/testutil"
	"pgregory.net/rapid"

	"verif/harness/pbt"
	"verif/harness/ref"
)

// fakeTB stands in for the test that uses testutil: it collects what is logged
// and what is to be cleaned up.
type fakeTB struct {
	testing.TB

	mu       sync.Mutex
	cleanups []func()
	failed   bool
	fatal    string
	log      strings.Builder
}

func (t *fakeTB) Helper()      {}
func (t *fakeTB) Name() string { return "TestOfTheHarness" }
func (t *fakeTB) Cleanup(f func()) {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.cleanups = append(t.cleanups, f)
}
func (t *fakeTB) note(s string, fails bool) {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.log.WriteString(s + "\n")
	t.failed = t.failed || fails
}
func (t *fakeTB) Log(args ...any)                   { t.note(fmt.Sprintln(args...), false) }
func (t *fakeTB) Logf(format string, args ...any)   { t.note(fmt.Sprintf(format, args...), false) }
func (t *fakeTB) Error(args ...any)                 { t.note(fmt.Sprintln(args...), true) }
func (t *fakeTB) Errorf(format string, args ...any) { t.note(fmt.Sprintf(format, args...), true) }
func (t *fakeTB) Fail()                             { t.note("", true) }
func (t *fakeTB) FailNow()                          { t.Fatal("FailNow") }
func (t *fakeTB) Fatalf(format string, args ...any) { t.Fatal(fmt.Sprintf(format, args...)) }
func (t *fakeTB) Context() context.Context          { return context.Background() }
func (t *fakeTB) Fatal(args ...any) {
	s := fmt.Sprint(args...)
	t.note(s, true)
	t.mu.Lock()
	t.fatal = "fatal: " + s
	t.mu.Unlock()
	runtime.Goexit()
}
func (t *fakeTB) Failed() bool {
	t.mu.Lock()
	defer t.mu.Unlock()
	return t.failed
}
func (t *fakeTB) TempDir() string {
	dir, err := os.MkdirTemp("", "faketb")
	if err != nil {
		t.Fatal(err)
	}
	t.Cleanup(func() { os.RemoveAll(dir) })
	return dir
}

// run is a test that consists of body. It returns how body ended it, if it did.
func (t *fakeTB) run(body func()) (fatal string, err error) {
	over := make(chan error)
	go func() {
		done := false
		defer func() {
			e := recover()
			if e == nil && !done && t.fatal == "" {
				e = "the goroutine of the test is ended"
			}
			if e != nil {
				over <- fmt.Errorf("panic: %v", e)
			}
			close(over)
		}()
		body()
		done = true
	}()
	select {
	case err = <-over:
	case <-time.After(patience()):
		err = errors.New("the call does not return")
	}
	t.mu.Lock()
	defer t.mu.Unlock()
	return t.fatal, err
}

// end runs what is to be cleaned up, last first.
func (t *fakeTB) end() error {
	for {
		t.mu.Lock()
		n := len(t.cleanups)
		if n == 0 {
			t.mu.Unlock()
			return nil
		}
		f := t.cleanups[n-1]
		t.cleanups = t.cleanups[:n-1]
		t.mu.Unlock()
		over := make(chan struct{})
		go func() {
			defer close(over)
			f()
		}()
		select {
		case <-over:
		case <-time.After(patience()):
			return errors.New("cleaning up does not end")
		}
	}
}

// p34Fake is what the fake HAProxy does.
type p34Fake struct {
	Out, Err ref.Str `json:",omitempty"` // printed
	Start    int     `json:",omitempty"` // ms until it listens
	Gap      int     `json:",omitempty"` // ms between the sockets
	Never    string  `json:",omitempty"` // what it never does: "start", "stats", "frontend"
	Record   string  `json:",omitempty"` // where it writes what it was given
}

type p34Record struct {
	PID    int
	Args   []ref.Str
	Config ref.Str
	Engine ref.Str
}

var (
	statsSocket    = regexp.MustCompile(`(?m)^\s*stats socket (\S+)`)
	frontendSocket = regexp.MustCompile(`(?m)^\s*bind unix@(\S+)`)
	engineFile     = regexp.MustCompile(`(?m)^\s*filter spoe .*config (\S+)`)
)

// p34Process is the fake HAProxy, or any other process.
func p34Process() {
	var f p34Fake
	if err := json.Unmarshal([]byte(os.Getenv("VERIF_FAKE")), &f); err != nil {
		os.Exit(3)
	}
	// Should nobody end it.
	time.AfterFunc(5*time.Minute, func() { os.Exit(4) })
	os.Stdout.Write(f.Out)
	os.Stderr.Write(f.Err)
	rec := p34Record{PID: os.Getpid()}
	for _, a := range os.Args[1:] {
		rec.Args = append(rec.Args, ref.Str(a))
	}
	if i := slices.Index(os.Args, "-f"); i >= 0 && i+1 < len(os.Args) {
		config, _ := os.ReadFile(os.Args[i+1])
		rec.Config = config
		if m := engineFile.FindSubmatch(config); m != nil {
			rec.Engine, _ = os.ReadFile(string(m[1]))
		}
	}
	b, _ := json.Marshal(rec)
	os.WriteFile(f.Record+".new", b, 0o600)
	os.Rename(f.Record+".new", f.Record)
	if f.Never == "start" {
		os.Exit(5)
	}
	time.Sleep(time.Duration(f.Start) * time.Millisecond)
	for i, re := range []*regexp.Regexp{statsSocket, frontendSocket} {
		if m := re.FindSubmatch(rec.Config); m != nil && f.Never != [...]string{"stats", "frontend"}[i] {
			if l, err := net.Listen("unix", string(m[1])); err == nil {
				go func() {
					for {
						if c, err := l.Accept(); err == nil {
							c.Close()
						}
					}
				}()
			}
		}
		if i == 0 {
			time.Sleep(time.Duration(f.Gap) * time.Millisecond)
		}
	}
	os.WriteFile(f.Record+".ready", nil, 0o600)
	select {}
}

type p34HAProxy struct {
	Cfg     testutil.HAProxyConfig
	Fake    p34Fake
	Fails   bool // the test fails afterwards
	Missing bool // there is no HAProxy
}

type p34Proc struct {
	Fake  p34Fake
	Args  []ref.Str
	Fails bool
	Gone  bool // it has ended before the test does
}

type p34Ports struct{ Listeners, Ports int }

type p34Allocs struct {
	Does, Want int
	Failed     bool
}

func init() {
	pbt.Register(&pbt.Property{
		ID: "P34",
		Rule: "Part haproxy: HAProxyConfig with each field empty or several lines that hold what templates and markup would treat specially, against a fake HAProxy on the PATH that records its arguments and configuration, prints something, and listens at once, some time later, one socket after the other, or never, or is not there at all; the test then ends, having failed or not. Part process: RunProcess with random arguments and output, while the process runs or after it has ended. Part ports: listeners and ports. Part allocs: functions that allocate. " +
			"Non-trivial: a configuration with at least two fields set, a process that prints something, or several listeners or ports, or allocations.",
		Parts: []*pbt.Part{
			pbt.NewPart("haproxy", 240, func(t *rapid.T) p34HAProxy {
				c := p34HAProxy{Fails: chance(t, "fails", 40), Missing: chance(t, "missing", 8)}
				text := func(name string) string {
					if !chance(t, name, 50) {
						return ""
					}
					return strings.Join(rapid.SliceOfN(rapid.SampledFrom([]string{
						"acl a hdr(x) -m str \"<&>'\"", "http-request set-header X {{ .Y }} if { path / }", "option dontlognull", "  timeout queue 1m", "# comment {{end}}",
						"log-format %[var(txn.e2e.x)]\\ \\\"ä\\\"", "http-response set-var(txn.a) str(&amp;)", "maxconn 7", "server s 127.0.0.1:1 check", "", "\tstick-table type ip size 10k store gpc0 peers mypeers",
					}), 1, 5).Draw(t, name+"/lines"), pick(t, name+"/sep", "\n", "\n", "\r\n")) + pick(t, name+"/last", "", "\n")
				}
				c.Cfg.CustomFrontendConfig = text("frontend")
				c.Cfg.BackendConfig = text("backend")
				c.Cfg.CustomBackendConfig = text("custom backend")
				c.Cfg.CustomConfig = text("custom")
				if c.Cfg.CustomConfig != "" {
					c.Cfg.CustomConfig = "backend other\n" + c.Cfg.CustomConfig
				}
				c.Cfg.EngineConfig = text("engine")
				if chance(t, "spoe", 50) {
					c.Cfg.EngineAddr = fmt.Sprintf("127.0.0.1:%d", rapid.IntRange(1, 65535).Draw(t, "engine port"))
				}
				if chance(t, "peers", 50) {
					c.Cfg.PeerAddr = fmt.Sprintf("127.0.0.1:%d", rapid.IntRange(1, 65535).Draw(t, "peer port"))
				}
				c.Cfg.FrontendPort = fmt.Sprint(rapid.IntRange(1, 65535).Draw(t, "port"))
				c.Fake = genP34Fake(t)
				c.Fake.Start = pick(t, "start", 0, 0, 0, 1, 20, 200)
				c.Fake.Gap = pick(t, "gap", 0, 0, 1, 20, 100)
				if chance(t, "never", 10) {
					c.Fake.Never = pick(t, "what", "start", "stats", "frontend")
				}
				return c
			}, func(r *pbt.R, c p34HAProxy) error { return tried(func() error { return p34RunHAProxy(r, c) }) }),
			pbt.NewPart("process", 240, func(t *rapid.T) p34Proc {
				c := p34Proc{Fake: genP34Fake(t), Fails: chance(t, "fails", 60), Gone: chance(t, "gone", 30)}
				for n := rapid.IntRange(0, 4).Draw(t, "nargs"); n > 0; n-- {
					c.Args = append(c.Args, ref.Str(bytes.ReplaceAll(genStr(t, "arg", 300), []byte{0}, []byte{'0'})))
				}
				return c
			}, func(r *pbt.R, c p34Proc) error { return tried(func() error { return p34RunProcess(r, c) }) }),
			pbt.NewPart("ports", 400, func(t *rapid.T) p34Ports {
				return p34Ports{rapid.IntRange(0, 5).Draw(t, "listeners"), rapid.IntRange(0, 5).Draw(t, "ports")}
			}, p34RunPorts),
			pbt.NewPart("allocs", 400, func(t *rapid.T) p34Allocs {
				c := p34Allocs{Does: rapid.IntRange(0, 20).Draw(t, "does"), Failed: chance(t, "failed", 20)}
				c.Want = pick(t, "want", c.Does, c.Does, 0, c.Does+1, max(c.Does-1, 0), rapid.IntRange(0, 20).Draw(t, "wants"))
				return c
			}, func(r *pbt.R, c p34Allocs) error {
				// Other goroutines may allocate something meanwhile.
				err := p34RunAllocs(r, c)
				for i := 0; i < 4 && err != nil; i++ {
					err = p34RunAllocs(r, c)
				}
				return err
			}),
		},
	})
}

func genP34Fake(t *rapid.T) p34Fake {
	out := func(label string) ref.Str {
		b := genStr(t, label, pick(t, label+"/max", 30, 3000, 70000))
		for i, c := range b { // text
			if c < ' ' && c != '\n' || c >= 0x7f {
				b[i] = 'a' + c%26
			}
		}
		return b
	}
	return p34Fake{Out: out("out"), Err: out("err")}
}

// p34World is a place for temporary files and programs.
type p34World struct {
	dir, tmp, bin, record string
	env                   map[string]string
}

func newP34World(f *p34Fake, programs ...string) *p34World {
	dir, err := os.MkdirTemp("", "p34")
	must(err)
	w := &p34World{dir: dir, tmp: dir + "/t", bin: dir + "/bin", record: dir + "/record", env: map[string]string{}}
	must(os.Mkdir(w.tmp, 0o700))
	must(os.Mkdir(w.bin, 0o700))
	self, err := os.Executable()
	must(err)
	for _, p := range programs {
		must(os.Symlink(self, w.bin+"/"+p))
	}
	f.Record = w.record
	b, err := json.Marshal(f)
	must(err)
	for k, v := range map[string]string{"TMPDIR": w.tmp, "PATH": w.bin, "VERIF_FAKE": string(b)} {
		w.env[k] = os.Getenv(k)
		must(os.Setenv(k, v))
	}
	return w
}

func must(err error) {
	if err != nil {
		panic(pbt.Harness(err.Error()))
	}
}

func (w *p34World) close() {
	if rec := w.recorded(); rec != nil { // what the code under test has left
		_ = syscall.Kill(rec.PID, syscall.SIGKILL)
	}
	for k, v := range w.env {
		if k == "VERIF_FAKE" {
			os.Unsetenv(k)
			continue
		}
		os.Setenv(k, v)
	}
	os.RemoveAll(w.dir)
}

// recorded returns what the fake process was given, once it has started.
func (w *p34World) recorded() *p34Record {
	b, err := os.ReadFile(w.record)
	if err != nil {
		return nil
	}
	var rec p34Record
	must(json.Unmarshal(b, &rec))
	return &rec
}

// left reports what is still there after the test.
func (w *p34World) left() error {
	if rec := w.recorded(); rec != nil && !eventually(func() bool { return syscall.Kill(rec.PID, 0) != nil }) {
		return errors.New("the process is still there after the test")
	}
	files, err := os.ReadDir(w.tmp)
	must(err)
	if len(files) > 0 {
		return fmt.Errorf("files are still there after the test: %v", files)
	}
	return nil
}

// logged checks that a failed test, and only that, logs each of the texts.
func (w *p34World) logged(t *fakeTB, fails bool, texts ...ref.Str) error {
	log := t.log.String()
	for _, s := range texts {
		if fails && !strings.Contains(log, string(s)) {
			return fmt.Errorf("a failed test does not log %s, only %s", trunc(s), trunc(ref.Str(log)))
		}
	}
	return nil
}

// sections splits a configuration into the lines of its sections, without
// indentation and empty lines.
func sections(config string) map[string][]string {
	m := map[string][]string{}
	name := ""
	for _, l := range lines(config) {
		switch f := strings.Fields(l); f[0] {
		case "global", "defaults", "frontend", "backend", "peers":
			if len(f) <= 2 {
				name = strings.Join(f, " ")
				continue
			}
		}
		m[name] = append(m[name], l)
	}
	return m
}

func lines(s string) (ls []string) {
	for _, l := range strings.Split(s, "\n") {
		if l = strings.TrimSpace(l); l != "" {
			ls = append(ls, l)
		}
	}
	return ls
}

// containsRun reports whether part is in whole, in one piece.
func containsRun(whole, part []string) bool {
	for i := 0; i+len(part) <= len(whole); i++ {
		if slices.Equal(whole[i:i+len(part)], part) {
			return true
		}
	}
	return false
}

func p34RunHAProxy(r *pbt.R, c p34HAProxy) error {
	set := 0
	for _, s := range []string{c.Cfg.CustomFrontendConfig, c.Cfg.BackendConfig, c.Cfg.CustomBackendConfig, c.Cfg.CustomConfig, c.Cfg.EngineConfig, c.Cfg.EngineAddr, c.Cfg.PeerAddr} {
		if s != "" {
			set++
		}
	}
	r.NonTrivialIf(set >= 2)
	programs := []string{"haproxy"}
	if c.Missing {
		programs = nil
	}
	w := newP34World(&c.Fake, programs...)
	defer w.close()
	goroutines := runtime.NumGoroutine()
	t := &fakeTB{}
	var socket string
	began := time.Now()
	fatal, err := t.run(func() { socket = c.Cfg.Run(t) })
	took := time.Since(began)
	if err != nil {
		return err
	}
	comes := !c.Missing && c.Fake.Never == ""
	if comes != (fatal == "") {
		ready, err := os.Stat(w.record + ".ready")
		if comes && took > 2500*time.Millisecond && (err != nil || ready.ModTime().After(began.Add(1500*time.Millisecond))) {
			r.Label("too slow") // this machine is
			_ = t.end()
			return nil
		}
		return fmt.Errorf("Run ends with %q", fatal)
	}
	if comes {
		r.Label("started")
		conn, err := net.Dial("unix", socket)
		if err != nil {
			return fmt.Errorf("Run has returned, but %v", err)
		}
		conn.Close()
		if err := p34Config(c, w, socket); err != nil {
			return err
		}
		if c.Fails {
			t.Error("failed")
		}
	} else {
		r.Label("not started")
	}
	var texts []ref.Str
	if rec := w.recorded(); rec != nil { // after it has printed everything
		texts = append(texts, rec.Config, c.Fake.Out, c.Fake.Err)
	}
	if err := t.end(); err != nil {
		return err
	}
	if comes && t.Failed() != c.Fails {
		return fmt.Errorf("cleaning up fails: %s", trunc(ref.Str(t.log.String())))
	}
	if err := w.logged(t, t.Failed(), texts...); err != nil {
		return err
	}
	if err := w.left(); err != nil {
		return err
	}
	if !eventually(func() bool { return runtime.NumGoroutine() <= goroutines }) {
		return fmt.Errorf("%d goroutines are left after the test", runtime.NumGoroutine()-goroutines)
	}
	return nil
}

// p34Config compares what HAProxy was given with what was asked for.
func p34Config(c p34HAProxy, w *p34World, socket string) error {
	rec := w.recorded()
	if rec == nil {
		return errors.New("Run has returned before HAProxy has started")
	}
	config := string(rec.Config)
	bad := func(format string, args ...any) error {
		return fmt.Errorf("%s; it is started with %q and %s", fmt.Sprintf(format, args...), rec.Args, trunc(rec.Config))
	}
	i := slices.IndexFunc(rec.Args, func(a ref.Str) bool { return string(a) == "-L" })
	if i < 0 || i+1 == len(rec.Args) {
		return bad("no name is given to HAProxy")
	}
	name := string(rec.Args[i+1])
	cfg := c.Cfg
	if cfg.BackendConfig == "" {
		cfg.BackendConfig = "http-request return status 200 content-type \"text/plain\" string \"Hello World!\\n\"\n"
	}
	// As it is, also what the next section begins with and comments.
	for _, s := range []string{cfg.CustomConfig, cfg.CustomFrontendConfig, cfg.BackendConfig, cfg.CustomBackendConfig} {
		if !strings.Contains(config, s) {
			return bad("the configuration does not contain %s", trunc(ref.Str(s)))
		}
	}
	secs := sections(config)
	for _, want := range []struct{ section, text string }{
		{"frontend test", cfg.CustomFrontendConfig},
		{"backend backend", cfg.BackendConfig},
		{"backend backend", cfg.CustomBackendConfig},
		{"frontend test", "bind 127.0.0.1:" + cfg.FrontendPort},
	} {
		if !containsRun(secs[want.section], lines(want.text)) {
			return bad("section %q lacks %s", want.section, trunc(ref.Str(want.text)))
		}
	}
	if m := frontendSocket.FindStringSubmatch(config); m == nil || m[1] != socket {
		return bad("Run returns %s", socket)
	}
	if strings.Contains(config, "filter spoe") != (cfg.EngineAddr != "") || (secs["backend e2e-spoa"] != nil) != (cfg.EngineAddr != "") {
		return bad("the SPOE agent is at %q", cfg.EngineAddr)
	}
	if cfg.EngineAddr != "" {
		if !containsRun(secs["backend e2e-spoa"], []string{"server e2e " + cfg.EngineAddr}) || !slices.ContainsFunc(secs["frontend test"], func(l string) bool { return strings.HasPrefix(l, "filter spoe engine e2e config ") }) {
			return bad("the SPOE agent is at %q", cfg.EngineAddr)
		}
		if cfg.EngineConfig != "" && string(rec.Engine) != cfg.EngineConfig || len(rec.Engine) == 0 {
			return bad("the engine is configured as %s, want %s", trunc(rec.Engine), trunc(ref.Str(cfg.EngineConfig)))
		}
	}
	local := false
	for _, l := range secs["peers mypeers"] {
		if f := strings.Fields(l); len(f) == 3 && f[0] == "peer" && f[1] == name {
			local = true
		}
	}
	if (cfg.PeerAddr != "") != local || local != containsRun(secs["peers mypeers"], []string{"peer go_client " + cfg.PeerAddr}) {
		return bad("the peer is at %q", cfg.PeerAddr)
	}
	return nil
}

func p34RunProcess(r *pbt.R, c p34Proc) error {
	r.NonTrivialIf(len(c.Fake.Out)+len(c.Fake.Err) > 0)
	if c.Gone {
		c.Fake.Never = "start"
	}
	w := newP34World(&c.Fake, "program")
	defer w.close()
	t := &fakeTB{}
	var args []string
	for _, a := range c.Args {
		args = append(args, string(a))
	}
	if fatal, err := t.run(func() { testutil.RunProcess(t, "program", args) }); err != nil || fatal != "" {
		return fmt.Errorf("RunProcess: %v %s", err, fatal)
	}
	if !eventually(func() bool { return w.recorded() != nil }) {
		r.Label("too slow")
		_ = t.end()
		return nil
	}
	rec := w.recorded()
	if !slices.EqualFunc(rec.Args, c.Args, func(a, b ref.Str) bool { return bytes.Equal(a, b) }) {
		return fmt.Errorf("the process is started with %q, want %q", rec.Args, args)
	}
	if c.Gone {
		// A zombie from now on, unless it has been waited for.
		eventually(func() bool { return !running(rec.PID) })
	} else if syscall.Kill(rec.PID, 0) != nil {
		return errors.New("the process is gone before the test is over")
	}
	if c.Fails {
		t.Error("failed")
	}
	if err := t.end(); err != nil {
		return err
	}
	if !c.Gone && t.Failed() != c.Fails {
		return fmt.Errorf("cleaning up fails: %s", trunc(ref.Str(t.log.String())))
	}
	if err := w.logged(t, t.Failed(), c.Fake.Out, c.Fake.Err); err != nil {
		return err
	}
	return w.left()
}

// running tells whether a child has not exited yet.
func running(pid int) bool {
	b, err := os.ReadFile("/proc/" + strconv.Itoa(pid) + "/stat")
	if err != nil {
		return false
	}
	b = b[bytes.LastIndexByte(b, ')')+1:]
	return !bytes.HasPrefix(bytes.TrimSpace(b), []byte("Z"))
}

func p34RunPorts(r *pbt.R, c p34Ports) error {
	r.NonTrivialIf(c.Listeners+c.Ports > 1)
	t := &fakeTB{}
	var ls []net.Listener
	var ports []int
	fatal, err := t.run(func() {
		for i := 0; i < c.Listeners; i++ {
			ls = append(ls, testutil.TCPListener(t))
		}
		for i := 0; i < c.Ports; i++ {
			ports = append(ports, testutil.TCPPort(t))
		}
	})
	if err != nil || fatal != "" {
		return fmt.Errorf("TCPListener and TCPPort: %v %s", err, fatal)
	}
	if slices.Contains(ports, 0) {
		return errors.New("port 0")
	}
	for _, l := range ls {
		port := l.Addr().(*net.TCPAddr).Port
		if slices.Contains(ports, port) {
			return fmt.Errorf("port %d is in use already", port)
		}
		conn, err := net.Dial("tcp", fmt.Sprintf("127.0.0.1:%d", port))
		if err != nil {
			return fmt.Errorf("a listener cannot be connected to: %v", err)
		}
		conn.Close()
	}
	if err := t.end(); err != nil {
		return err
	}
	for _, l := range ls {
		if err := l.(*net.TCPListener).SetDeadline(time.Now()); !errors.Is(err, net.ErrClosed) {
			return errors.New("a listener is open after the test")
		}
	}
	return nil
}

var allocSink []*[64]byte

func p34RunAllocs(r *pbt.R, c p34Allocs) error {
	r.NonTrivialIf(c.Does > 0 || c.Want > 0)
	t := &fakeTB{}
	allocSink = make([]*[64]byte, 64)
	fn := func() {
		for i := 0; i < c.Does; i++ {
			allocSink[i] = new([64]byte)
		}
		if c.Failed {
			t.failed = true
		}
	}
	fatal, err := t.run(func() {
		if c.Want == 0 {
			testutil.WithoutAllocations(t, fn)
		} else {
			testutil.WithNAllocations(t, uint64(c.Want), fn)
		}
	})
	if err != nil || fatal != "" {
		return fmt.Errorf("WithNAllocations: %v %s", err, fatal)
	}
	if want := c.Failed || c.Does != c.Want; t.Failed() != want {
		return fmt.Errorf("%d allocations instead of %d: the test has failed: %v; %s", c.Does, c.Want, t.Failed(), t.log.String())
	}
	return t.end()
}
