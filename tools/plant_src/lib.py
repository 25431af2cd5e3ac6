import json, os, re, shutil, subprocess, sys, tempfile
VERIF="/verif"
DEMO='''#!/bin/bash
# Run with cwd /repo. Exit 0: the property holds; otherwise it is broken.
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 2
trap 'rm -f "$tmp/overlay.json"; rmdir "$tmp"' EXIT
[ -d /opt/veriftools/go1.27.3/bin ] && export PATH=/opt/veriftools/go1.27.3/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=readonly GOWORK=off
printf '{"Replace":{"%%s":"%%s"}}' "$PWD/%(pkg)s/zz_demo_test.go" "$here/demo_test.go" > "$tmp/overlay.json"
go test%(race)s -overlay "$tmp/overlay.json" -vet=off -count=1 -timeout 200s -run '^TestDemo' ./%(pkg)s
'''
SPOP_HELP='''
// agent is a connection to an agent of its own.
func serve(t *testing.T, ctx context.Context, h spop.HandlerFunc) net.Listener {
	t.Helper()
	log.SetOutput(io.Discard)
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	a := &spop.Agent{Handler: h, BaseContext: ctx}
	go a.Serve(l)
	t.Cleanup(func() { l.Close() })
	return l
}

func dial(t *testing.T, l net.Listener) net.Conn {
	t.Helper()
	c, err := net.Dial("tcp", l.Addr().String())
	if err != nil {
		t.Fatal(err)
	}
	t.Cleanup(func() { c.Close() })
	return c
}

func putVarint(b []byte, v uint64) []byte {
	if v < 240 {
		return append(b, byte(v))
	}
	b = append(b, byte(v)|240)
	v = (v - 240) >> 4
	for v >= 128 {
		b = append(b, byte(v)|128)
		v = (v - 128) >> 7
	}
	return append(b, byte(v))
}

func str(b []byte, s string) []byte { return append(putVarint(b, uint64(len(s))), s...) }

func frame(typ byte, stream, id uint64, payload []byte) []byte {
	b := append([]byte{typ}, 0, 0, 0, 1)
	b = putVarint(putVarint(b, stream), id)
	b = append(b, payload...)
	return append(binary.BigEndian.AppendUint32(nil, uint32(len(b))), b...)
}

func helloFrame(size uint64) []byte {
	var b []byte
	b = str(append(str(b, "supported-versions"), 8), "2.0")
	b = putVarint(append(str(b, "max-frame-size"), 3), size)
	b = str(append(str(b, "capabilities"), 8), "")
	b = str(append(str(b, "engine-id"), 8), "engine")
	return frame(1, 0, 0, b)
}

// message is a message with string arguments.
func message(b []byte, name string, args ...string) []byte {
	b = append(str(b, name), byte(len(args)/2))
	for i := 0; i < len(args); i += 2 {
		b = str(append(str(b, args[i]), 8), args[i+1])
	}
	return b
}

// readFrame returns the next frame without its length, nil at the end.
func readFrame(c net.Conn, wait time.Duration) []byte {
	c.SetReadDeadline(time.Now().Add(wait))
	var n [4]byte
	if _, err := io.ReadFull(c, n[:]); err != nil {
		return nil
	}
	b := make([]byte, binary.BigEndian.Uint32(n[:]))
	if _, err := io.ReadFull(c, b); err != nil {
		return nil
	}
	return b
}

func shake(t *testing.T, c net.Conn, size uint64) {
	t.Helper()
	c.Write(helloFrame(size))
	if f := readFrame(c, 5*time.Second); f == nil || f[0] != 101 {
		t.Fatalf("no AGENT-HELLO: %q", f)
	}
}
'''
PEER_HELP='''
type handler struct {
	handshake func(context.Context, *peers.Handshake)
	update    func(context.Context, *sticktable.EntryUpdate)
	close     func()
}

func (h *handler) HandleHandshake(ctx context.Context, hs *peers.Handshake) {
	if h.handshake != nil {
		h.handshake(ctx, hs)
	}
}

func (h *handler) HandleUpdate(ctx context.Context, u *sticktable.EntryUpdate) {
	if h.update != nil {
		h.update(ctx, u)
	}
}

func (h *handler) Close() error {
	if h.close != nil {
		h.close()
	}
	return nil
}

func serve(t *testing.T, h peers.Handler) net.Conn {
	t.Helper()
	log.SetOutput(io.Discard)
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	p := &peers.Peer{Handler: h}
	go p.Serve(l)
	t.Cleanup(func() { l.Close() })
	c, err := net.Dial("tcp", l.Addr().String())
	if err != nil {
		t.Fatal(err)
	}
	t.Cleanup(func() { c.Close() })
	return c
}

func shake(t *testing.T, c net.Conn) {
	t.Helper()
	fmt.Fprintf(c, "HAProxyS 2.1\\nme\\nyou 1 0\\n")
	b := make([]byte, 4)
	c.SetReadDeadline(time.Now().Add(5 * time.Second))
	if _, err := io.ReadFull(c, b); err != nil || string(b) != "200\\n" {
		t.Fatalf("status %q, %v", b, err)
	}
	c.SetReadDeadline(time.Time{})
}

// msg is a message with a payload of less than 240 bytes.
func msg(class, typ byte, payload ...byte) []byte {
	b := []byte{class, typ}
	if typ >= 128 {
		b = append(b, byte(len(payload)))
	}
	return append(b, payload...)
}

// table is a definition with an integer key and gpc0.
func table() []byte { return msg(10, 0x82, 1, 1, 't', 2, 4, 4, 60) }
'''
def mk(id, prop, pkg, edits, test, needs, breaks, race=False):
    d=f"{VERIF}/seeded/{id}"; os.makedirs(d,exist_ok=True)
    w="/var/tmp/mkrepo"
    if os.path.isdir(w): subprocess.run(["git","-C",w,"checkout","-q","--","."],check=True)
    subprocess.run(["rsync","-a","--delete","/repo/",w+"/"],check=True) if shutil.which("rsync") else (shutil.rmtree(w,ignore_errors=True), subprocess.run(["cp","-a","/repo",w],check=True))
    for f,old,new in edits:
        p=f"{w}/{f}"; s=open(p).read()
        assert s.count(old)==1,(id,f,s.count(old),old)
        open(p,"w").write(s.replace(old,new))
    fs=[e[0] for e in edits]
    out=subprocess.run(["/opt/veriftools/go1.27.3/bin/gofmt","-l"]+sorted(set(fs)),cwd=w,capture_output=True,text=True).stdout
    if out: print("gofmt:",id,out)
    diff=subprocess.run(["git","diff"],cwd=w,capture_output=True,text=True).stdout
    open(d+"/patch.diff","w").write(diff)
    # which removed lines are original?
    orig=0; tot=0
    for l in diff.splitlines():
        if l.startswith("-") and not l.startswith("---"):
            tot+=1
            if any(l[1:]==x for f in set(fs) for x in subprocess.run(["git","show","6a362ac:"+f],cwd="/repo",capture_output=True,text=True).stdout.splitlines()): orig+=1
    if orig<tot or tot==0: print("lines:",id,orig,"of",tot,"removed lines are original")
    open(d+"/demo.sh","w").write(DEMO%dict(pkg=pkg,race=" -race" if race else "")); os.chmod(d+"/demo.sh",0o755)
    open(d+"/demo_test.go","w").write(test)
    open(d+"/meta.json","w").write(json.dumps(dict(property=prop,needs=needs,what_it_breaks=breaks),indent=1)+"\n")
def spop_test(imports,body):
    base={"context","encoding/binary","io","log","net","testing","time"}|set(imports)
    return head("spop_test",base,["github.com/dropmorepackets/haproxy-go/pkg/encoding","github.com/dropmorepackets/haproxy-go/spop"])+SPOP_HELP+body
def peer_test(imports,body):
    base={"context","fmt","io","log","net","testing","time"}|set(imports)
    return head("peers_test",base,["github.com/dropmorepackets/haproxy-go/peers","github.com/dropmorepackets/haproxy-go/peers/sticktable"])+PEER_HELP+body
def head(pkg,std,rest):
    return "package %s\n\nimport (\n%s\n%s)\n"%(pkg,"".join('\t"%s"\n'%x for x in sorted(std)),"".join('\t"%s"\n'%x for x in rest))
def codec_test(pkg,std,rest,body):
    return head(pkg,set(std)|{"testing"},rest)+body
