package main

import (
	"bytes"
	"fmt"
	"net"
	"os"
	"os/exec"
	"path"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"time"
)

// C24: the ufs command as a process.

type connC24 struct {
	Kind  string // look, junk, half, quit
	Anam  Str    // attach name: "\x01k" is the k-th file of the tree
	Pick  int
	Junk  Str
	Stay  bool // left open
	Msize uint32
}

type planC24 struct {
	Root   int // how the root is given
	Net    int
	User   Str
	NoUser bool `json:",omitempty"`
	Debug  int
	Prof   bool `json:",omitempty"` // the command built with the pprof tag
	Style  int
	Init   []Op
	Conns  []connC24
}

func genC24(g *G) interface{} {
	p := &planC24{Root: g.N(8), Net: g.N(5), Debug: g.W(60, 30, 10), Style: g.N(3)}
	p.User = pick(g, Str("harvey"), "glenda", "u", "a b", "é☺", "-", "root")
	p.NoUser = g.P(15)
	p.Prof = g.P(25)
	var w fsWeights
	for n := g.R(1, 12); n > 0; n-- {
		p.Init = append(p.Init, g.hostOp(w, true))
	}
	n := g.R(1, 12)
	if g.P(15) {
		n = g.R(30, 90)
	}
	for ; n > 0; n-- {
		x := connC24{Kind: pick(g, "look", "look", "look", "look", "junk", "half", "quit"), Pick: g.N(40), Stay: g.P(40), Msize: pick(g, uint32(8192), 8192, 1000, 300, 70000)}
		switch g.W(30, 40, 15, 15) {
		case 1:
			x.Anam = Str([]byte{1, byte(g.N(20))})
		case 2:
			x.Anam = pick(g, Str("/"), "//", ".", "..", "/..", "../..")
		case 3:
			x.Anam = pick(g, Str("nonexistent"), "a/nope", "zz")
		}
		if x.Kind == "junk" {
			x.Junk = g.Str(200)
			if g.P(50) {
				r := g.rawReq()
				x.Junk = Str(r.bytes())
			}
		}
		p.Conns = append(p.Conns, x)
	}
	return p
}

func runC24(c *Ctx, pl interface{}) {
	p := pl.(*planC24)
	if *fUfs == "" {
		c.Broken("no ufs command given")
	}
	root := filepath.Join(c.Dir, "exp", "root")
	c.Must(os.MkdirAll(root, 0755))
	c.Must(os.WriteFile(filepath.Join(c.Dir, "exp", "outside"), []byte("outside"), 0644))
	x := newFsx(c, root, "", string(p.User))
	x.umask = 022
	x.load()
	for _, op := range p.Init {
		if op.K == "hmk" || op.K == "hmkdir" {
			x.doHost(op)
		}
	}
	var files []string
	for q := range x.tree {
		files = append(files, q)
	}
	sort.Strings(files)
	user := string(p.User)
	rootArg, cwd := root, "/"
	switch p.Root {
	case 1:
		rootArg = root + "/"
	case 2:
		rootArg, cwd = ".", root
	case 3:
		rootArg, cwd = "root", filepath.Join(c.Dir, "exp")
	case 4:
		rootArg, cwd = "../exp/root/", filepath.Join(c.Dir, "exp")
	case 5:
		rootArg = root + "/../root"
	case 6:
		rootArg, cwd = "./root", filepath.Join(c.Dir, "exp")
	}
	flagArg := func(n, v string) []string {
		switch p.Style {
		case 1:
			return []string{"-" + n + "=" + v}
		case 2:
			return []string{"--" + n, v}
		}
		return []string{"-" + n, v}
	}
	var cmd *exec.Cmd
	var out *limited
	var network, addr string
	started := false
	var ended chan error
	for try := 0; try < 5 && !started; try++ {
		var args []string
		args = append(args, flagArg("root", rootArg)...)
		port := 0
		if p.Net != 3 {
			ln, err := net.Listen("tcp4", "127.0.0.1:0")
			c.Must(err)
			port = ln.Addr().(*net.TCPAddr).Port
			// Other workers of this check keep off a port whose UDP
			// namesake is taken.
			u, err := net.ListenPacket("udp4", fmt.Sprintf("127.0.0.1:%d", port))
			ln.Close()
			if err != nil {
				try--
				continue
			}
			c.Cleanup(func() { u.Close() })
		}
		network, addr = "tcp4", fmt.Sprintf("127.0.0.1:%d", port)
		switch p.Net {
		case 0:
			args = append(args, flagArg("addr", addr)...)
		case 1:
			args = append(append(args, flagArg("addr", addr)...), flagArg("ntype", "tcp")...)
			network = "tcp"
		case 2:
			args = append(args, flagArg("addr", fmt.Sprintf(":%d", port))...)
		case 3:
			network, addr = "unix", filepath.Join(c.Dir, fmt.Sprintf("s%d", try))
			args = append(append(args, flagArg("ntype", "unix")...), flagArg("addr", addr)...)
		case 4:
			args = append(append(args, flagArg("ntype", "tcp4")...), flagArg("addr", fmt.Sprintf("localhost:%d", port))...)
		}
		if p.NoUser {
			user = "harvey"
		} else {
			args = append(args, flagArg("user", user)...)
		}
		if p.Debug > 0 {
			args = append(args, flagArg("debug", fmt.Sprint(p.Debug))...)
		}
		bin := *fUfs
		if p.Prof && *fAlt != "" {
			bin = *fAlt
			c.Label("with the pprof tag")
		}
		cmd = exec.Command(bin, args...)
		cmd.Dir = cwd
		out = &limited{}
		cmd.Stdout, cmd.Stderr = out, out
		cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
		cmd.Env = append(os.Environ(), "HOME="+c.Dir)
		c.Must(cmd.Start())
		e := make(chan error, 1)
		ended = e
		k := cmd
		go func() { e <- k.Wait() }()
		up := false
		dl := time.Now().Add(opTimeout)
		for !up && time.Now().Before(dl) {
			conn, err := net.Dial(network, addr)
			if err == nil {
				conn.Close()
				up = true
				break
			}
			select {
			case <-e:
				dl = time.Time{}
			case <-time.After(3 * time.Millisecond):
			}
		}
		if up {
			started = true
			break
		}
		cmd.Process.Kill()
		// The port of the profiler may be in use: that must not matter.
		inUse := false
		for _, l := range strings.Split(out.String(), "\n") {
			inUse = inUse || strings.Contains(l, "address already in use") && !strings.Contains(l, ":6060")
		}
		if !inUse {
			c.Failf("ufs %q does not serve at %s %s: %s", args, network, addr, out.String())
		}
	}
	if !started {
		c.Broken("no free port found")
	}
	c.Cleanup(func() { cmd.Process.Kill() })
	args := strings.Join(cmd.Args[1:], " ")
	alive := func(what string) {
		select {
		case err := <-ended:
			c.Failf("ufs %s ended (%v) after %s: %s", args, err, what, out.String())
		default:
		}
	}
	dial := func() net.Conn {
		var conn net.Conn
		var err error
		for i := 0; i < 50; i++ {
			conn, err = net.Dial(network, addr)
			if err == nil {
				break
			}
			alive("a connection was refused")
			time.Sleep(20 * time.Millisecond)
		}
		if err != nil {
			c.Failf("ufs %s: can not connect to %s %s: %v", args, network, addr, err)
		}
		c.Cleanup(func() { conn.Close() })
		return conn
	}
	type open struct {
		y   *fsx
		cn  connC24
		fid string // the file it is attached to
	}
	fail := func(y *fsx, f string, a ...interface{}) {
		time.Sleep(100 * time.Millisecond)
		alive("a request")
		c.Failf("ufs %s: %s\nhistory:\n  %s", args, fmt.Sprintf(f, a...), strings.Join(y.hist, "\n  "))
	}
	inode := func(q string) uint64 {
		fi, err := os.Stat(x.host(q))
		c.Must(err)
		return fi.Sys().(*syscall.Stat_t).Ino
	}
	looked := 0
	// look reads what is at q, through fid 1, which is attached at at.
	look := func(y *fsx, at, q string) {
		var names []string
		for r := q; r != at; r = path.Dir(r) {
			names = append([]string{path.Base(r)}, names...)
		}
		if len(names) > 16 {
			return
		}
		r := y.rpc(M{T: tTwalk, Fid: 1, Fid2: 2, Names: names})
		if r.T != tRwalk || len(r.Qids) != len(names) {
			fail(y, "%s can not be reached", q)
		}
		if r = y.rpc(M{T: tTstat, Fid: 2}); r.T != tRstat {
			fail(y, "no stat of %s", q)
		}
		d, _, _, ok := decodeDir(r.Data)
		if !ok {
			fail(y, "stat of %s is malformed", q)
		}
		if string(d.User) != user || string(d.Group) != user {
			fail(y, "stat of %s has owner %q and group %q, want %q", q, d.User, d.Group, user)
		}
		if d.Qid.P != inode(q) {
			fail(y, "%s is not the host's file (QID path %d, inode %d)", q, d.Qid.P, inode(q))
		}
		nd := x.tree[q]
		if nd.kind == 'f' && x.canOpen(q, os.O_RDONLY) {
			if r = y.rpc(M{T: tTopen, Fid: 2, Mode: 0}); r.T != tRopen {
				fail(y, "%s can not be opened", q)
			}
			var got []byte
			for {
				r = y.rpc(M{T: tTread, Fid: 2, Off: uint64(len(got)), N: 4000})
				if r.T != tRread {
					fail(y, "%s can not be read", q)
				}
				if len(r.Data) == 0 {
					break
				}
				got = append(got, r.Data...)
				if len(got) > int(nd.data.size) {
					break
				}
			}
			if w := nd.data.readAt(0, nd.data.size); !bytes.Equal(got, w) {
				fail(y, "contents of %s: %s (got / want)", q, diffAt(got, w))
			}
			c.Label("file read")
		}
		y.rpc(M{T: tTclunk, Fid: 2})
		looked++
	}
	var stay []open
	for _, cn := range p.Conns {
		conn := dial()
		y := newFsx(c, root, "", user)
		y.conn, y.pr = conn, nil
		c.Label("%s", cn.Kind)
		switch cn.Kind {
		case "junk":
			conn.Write([]byte(cn.Junk))
			if !cn.Stay {
				conn.Close()
			}
			continue
		case "half":
			b := encode(M{T: tTversion, Tag: 65535, N: 8192, S1: "9P2000"})
			conn.Write(b[:(cn.Pick)%len(b)])
			if !cn.Stay {
				conn.Close()
			}
			continue
		case "quit":
			conn.Write(encode(M{T: tTversion, Tag: 65535, N: 8192, S1: "9P2000"}))
			conn.Write(encode(M{T: tTattach, Tag: 1, Fid: 1, Fid2: noFid}))
			conn.Close()
			continue
		}
		y.pr = newPeer(conn)
		ms := cn.Msize
		if ms < 256 {
			ms = 8192
		}
		if r := y.rpc(M{T: tTversion, N: ms, S1: "9P2000"}); r.T != tRversion {
			fail(y, "no version")
		}
		an := string(cn.Anam)
		if len(an) == 2 && an[0] == 1 {
			an = files[int(an[1])%len(files)]
			if cn.Pick%2 == 0 {
				an = strings.TrimPrefix(an, "/")
			}
		}
		at := path.Join("/", an)
		r := y.rpc(M{T: tTattach, Fid: 1, Fid2: noFid, S1: "someone", S2: an})
		nd := x.tree[at]
		if nd == nil {
			if r.T != tRerror {
				fail(y, "attach to %q, which does not exist, succeeded", an)
			}
			conn.Close()
			continue
		}
		if r.T != tRattach {
			if nd.kind == 'd' {
				fail(y, "attach to %q failed", an)
			}
			conn.Close()
			continue
		}
		if r.Qid.P != inode(at) {
			fail(y, "attach to %q gives QID path %d, the host's inode is %d", an, r.Qid.P, inode(at))
		}
		if cn.Stay {
			stay = append(stay, open{y, cn, at})
			continue
		}
		var below []string
		for _, q := range files {
			if within1(at, q) {
				below = append(below, q)
			}
		}
		look(y, at, below[cn.Pick%len(below)])
		conn.Close()
	}
	// Those that stayed connected still work.
	for _, s := range stay {
		var below []string
		for _, q := range files {
			if within1(s.fid, q) {
				below = append(below, q)
			}
		}
		look(s.y, s.fid, below[s.cn.Pick%len(below)])
	}
	if len(stay) > 1 {
		c.Label("simultaneous connections")
	}
	alive("all connections")
	x.verify("walk", "C24")
	if looked > 0 {
		c.NonTrivial()
	}
}

func (l *limited) String() string {
	l.mu.Lock()
	defer l.mu.Unlock()
	return tail(l.b.String(), 3000)
}

func init() {
	register(&Prop{ID: "C24", Rule: "at least one file or directory was looked up and compared with the host through the running command", Unpriv: true, Quick: 2000, Thorough: 20000,
		Assume: []string{"network types tcp, tcp4 and unix on the loopback interface; accept errors of the system are not provoked here (C09 injects them)"},
		New:    func() interface{} { return new(planC24) }, Gen: genC24, Run: runC24})
}
