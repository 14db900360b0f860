package main

import (
	"bytes"
	"fmt"
	"os"
	"path"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"

	"github.com/Harvey-OS/ninep/protocol"
)

// C31: several sessions share the files of one tree. First they take turns,
// and each must see what the others did; then they do things at once, which
// must come out as if they had been done one after another.

type stepC31 struct {
	S  int
	Op Op
}

// roundC31 is something that all sessions do at once.
type roundC31 struct {
	K    string
	N    int // how often
	Size int
	How  int
	Rot  bool `json:",omitempty"` // each session begins elsewhere
}

type planC31 struct {
	User   Str
	Debug  bool `json:",omitempty"`
	N      int  // sessions
	Msize  []uint32
	Init   []Op
	Steps  []stepC31
	Rounds []roundC31
}

var roundKinds = []string{"mkdir", "remove", "rename", "onto", "own", "chunks", "register", "list", "create", "rmdir", "mvdir", "crrm"}

func genC31(g *G) interface{} {
	p := &planC31{User: "harvey", Debug: g.P(8), N: g.R(2, 4)}
	for i := 0; i < p.N; i++ {
		p.Msize = append(p.Msize, pick(g, uint32(8192), 8192, 1024, 400, 65536))
	}
	ids := []string{"C14", "C14", "C15", "C16", "C17", "C18", "C20", "C21"}
	w := fsFocus[pick(g, ids...)]
	w.lists = 0
	for k := g.R(1, 6); k > 0; k-- {
		p.Init = append(p.Init, g.hostOp(w, true))
	}
	if g.P(75) {
		s := 0
		for k := g.R(4, 26); k > 0; k-- {
			if g.P(20) {
				w = fsFocus[pick(g, ids...)]
				w.lists = 0
			}
			if g.P(60) {
				s = g.N(p.N)
			}
			switch {
			case g.P(3):
				p.Steps = append(p.Steps, stepC31{s, Op{K: "drop", N: uint32(g.N(3))}})
			case g.P(12):
				for _, op := range g.listing() {
					p.Steps = append(p.Steps, stepC31{s, op})
				}
			case g.P(22):
				// Two sessions get the same file.
				op := Op{K: "fetch", G: g.N(30), S: pick(g, Str("f"), "f", "f", "d", ""), F: g.N(8), N: 1, Mode: pick(g, uint8(2), 2, 0, 0, 1, 0x12)}
				p.Steps = append(p.Steps, stepC31{s, op}, stepC31{g.N(p.N), op})
			default:
				p.Steps = append(p.Steps, stepC31{s, g.fsOp(w)})
			}
		}
	}
	for k := g.W(45, 35, 15, 5); k > 0; k-- {
		p.Rounds = append(p.Rounds, roundC31{K: pick(g, roundKinds...), N: pick(g, 1, g.R(1, 8), g.R(5, 40)), Size: g.R(1, 3000), How: g.N(12), Rot: g.P(30)})
	}
	return p
}

func runC31(c *Ctx, pl interface{}) {
	p := pl.(*planC31)
	if p.N < 1 || p.N > 15 {
		return
	}
	root := newRoot(c)
	l := ufsListener(c, root, string(p.User), p.Debug)
	var xs []*fsx
	for i := 0; i < p.N; i++ {
		x := newFsx(c, root, "", string(p.User))
		x.umask, x.all, x.who = 022, true, fmt.Sprintf("[%d] ", i)
		if i > 0 {
			x.tree, x.qids, x.vers = xs[0].tree, xs[0].qids, xs[0].vers
		}
		xs = append(xs, x)
	}
	for _, x := range xs {
		x.kin = xs
	}
	xs[0].load()
	for _, op := range p.Init {
		if strings.HasPrefix(op.K, "h") {
			xs[0].doHost(op)
		}
	}
	_, _, gave := guardV(func() { shareTurns(c, p, l, xs) })
	if gave {
		c.Label("given up")
		return
	}
	perm := os.FileMode(xs[0].tree["/"].perm)
	if len(p.Rounds) > 0 {
		c.Must(os.Chmod(root, perm|0700))
	}
	for k, r := range p.Rounds {
		if r.N < 1 || r.N > 100 {
			continue
		}
		rr := &round{c: c, r: r, dir: fmt.Sprintf("round%d", k), root: root, xs: xs}
		c.Must(os.Mkdir(rr.host(), 0755))
		rr.run()
		c.Must(os.RemoveAll(rr.host()))
		c.Label("round: %s", r.K)
		c.NonTrivial()
	}
	if len(p.Rounds) > 0 {
		// They have left the rest as it was.
		c.Must(os.Chmod(root, perm))
		guardV(func() {
			for _, x := range xs {
				x.probeAll()
			}
			xs[0].verify("stat", "")
			xs[0].checkFds("the rounds")
		})
	}
}

// shareTurns executes the steps.
func shareTurns(c *Ctx, p *planC31, l *protocol.Listener, xs []*fsx) {
	begin := func(i int) {
		ms := uint32(8192)
		if i < len(p.Msize) && p.Msize[i] >= 256 {
			ms = p.Msize[i]
		}
		xs[i].do(Op{K: "version", N: ms})
		xs[i].do(Op{K: "attach"})
	}
	for i, x := range xs {
		x.connect(l)
		begin(i)
	}
	seen := 0
	for k, s := range p.Steps {
		i := s.S
		if i < 0 {
			i = -i
		}
		i %= len(xs)
		x := xs[i]
		if s.Op.K == "drop" {
			if s.Op.N > 0 {
				b := encode(M{T: tTwrite, Tag: 9, Fid: 1, Data: []byte("incomplete")})
				x.conn.Write(b[:len(b)-int(s.Op.N%3)*5])
			}
			x.conn.Close()
			x.fids, x.dead = map[uint32]*mfid{}, map[uint32]string{}
			x.logf("disconnected")
			for _, o := range xs {
				o.multi = true // when its files are closed is C27's subject
			}
			x.connect(l)
			begin(i)
			c.Label("disconnect")
		} else {
			x.do(s.Op)
		}
		// What do the others see?
		for j, o := range xs {
			if j == i {
				continue
			}
			var ns []uint32
			for n := uint32(0); n < 12; n++ {
				if f := o.fids[n]; f != nil && !f.stale && o.tree[f.path] != nil {
					ns = append(ns, n)
				}
			}
			if len(ns) == 0 {
				continue
			}
			n := ns[k%len(ns)]
			f := o.fids[n]
			o.probe(n, "")
			if f.open && !f.maybeOpen && f.mode != 1 && o.tree[f.path].kind == 'f' {
				o.doRead(Op{F: int(n), N: 9000})
				if len(o.tree[f.path].data.pages) > 0 {
					seen++
				}
			}
			for m, y := range x.fids {
				if m != 0 && y.path == f.path && f.path != "/" {
					seen++
				}
			}
		}
	}
	for _, x := range xs {
		x.do(Op{K: "probe"})
		x.checkFds("the steps")
	}
	if seen > 1 && len(p.Steps) > 3 {
		c.Label("turns")
		c.NonTrivial()
	}
}

// ---- rounds

type round struct {
	c    *Ctx
	r    roundC31
	dir  string
	root string
	xs   []*fsx
}

func (r *round) host(names ...string) string {
	return path.Join(append([]string{r.root, r.dir}, names...)...)
}

const rf = 1000 // the first fid used in rounds

// lane makes the requests of one session in a round. It does not touch what
// sessions share.
type lane struct {
	c  *Ctx
	x  *fsx
	i  int
	r  *round
	at []string // what was done
}

// send makes a number of requests at once and returns the replies.
func (s *lane) send(ms ...M) []M {
	for k := range ms {
		ms[k].Tag = uint16(1 + k)
		ms[k] = ms[k].norm()
	}
	var out []byte
	for _, m := range ms {
		out = append(out, encode(m)...)
	}
	// In parts, as there may be more than fits; the replies are read all along.
	go s.x.conn.Write(out)
	var rs []M
	for _, m := range ms {
		b, err := s.x.pr.recv(opTimeout)
		if err == errTimeout {
			s.c.Hangf("round %s, session %d: %v", s.r.r.K, s.i, m)
		}
		if err != nil {
			s.c.Failf("round %s, session %d: %v is not answered: %v", s.r.r.K, s.i, m, err)
		}
		r := checkReply(s.c, "file server", b, m)
		if r.T != tRerror && r.T != m.T+1 {
			s.fail("%v -> %v", m, r)
		}
		s.at = append(s.at, fmt.Sprintf("%v -> %v", m, r))
		rs = append(rs, r)
	}
	return rs
}

func (s *lane) fail(f string, a ...interface{}) {
	h := s.at
	if len(h) > 30 {
		h = h[len(h)-30:]
	}
	s.c.Failf("with %d sessions at once (%s), session %d: %s\nits last requests:\n  %s", len(s.r.xs), s.r.r.K, s.i, fmt.Sprintf(f, a...), strings.Join(h, "\n  "))
}

// ok makes requests that must all succeed.
func (s *lane) ok(ms ...M) []M {
	rs := s.send(ms...)
	for k, r := range rs {
		if !isOK(r) {
			s.fail("this must succeed: %v -> %v", ms[k], r)
		}
	}
	return rs
}

func (s *lane) walk(fid uint32, names ...string) M {
	return M{T: tTwalk, Fid: rf, Fid2: fid, Names: append([]string{s.r.dir}, names...)}
}

// all lets every session execute f at the same time.
func (r *round) all(f func(s *lane)) {
	vs := make([]*violation, len(r.xs))
	hs := make([]*harnessError, len(r.xs))
	var wg sync.WaitGroup
	start := make(chan bool)
	for i, x := range r.xs {
		i, s := i, &lane{c: r.c, x: x, i: i, r: r}
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			vs[i], hs[i], _ = guard(func() { f(s) })
		}()
	}
	close(start)
	wg.Wait()
	for i := range vs {
		if hs[i] != nil {
			panic(hs[i])
		}
	}
	for i := range vs {
		if vs[i] != nil {
			panic(vs[i])
		}
	}
}

func (r *round) failf(f string, a ...interface{}) {
	r.c.Failf("after %d sessions worked at once (%s): %s", len(r.xs), r.r.K, fmt.Sprintf(f, a...))
}

func (r *round) mk(name string, b []byte) {
	r.c.Must(os.WriteFile(r.host(name), b, 0644))
}

// order returns the numbers below N as session i takes them.
func (r *round) order(i int) []int {
	var o []int
	for k := 0; k < r.r.N; k++ {
		j := k
		if r.r.Rot {
			j = (k + i*3) % r.r.N
		}
		o = append(o, j)
	}
	return o
}

// each lets every session make the requests that f gives for each number, all
// at once, and returns the replies: of session i for number j.
func (r *round) each(f func(s *lane, i, j int) []M) [][][]M {
	res := make([][][]M, len(r.xs))
	r.all(func(s *lane) {
		res[s.i] = make([][]M, r.r.N)
		var ms []M
		var cnt []int
		ord := r.order(s.i)
		for _, j := range ord {
			q := f(s, s.i, j)
			ms = append(ms, q...)
			cnt = append(cnt, len(q))
		}
		rs := s.send(ms...)
		for k, j := range ord {
			res[s.i][j], rs = rs[:cnt[k]], rs[cnt[k]:]
		}
	})
	return res
}

// won returns the sessions whose k-th request for number j succeeded.
func won(res [][][]M, j, k int) (w []int) {
	for i := range res {
		if isOK(res[i][j][k]) {
			w = append(w, i)
		}
	}
	return
}

func (r *round) exists(name string) bool {
	_, err := os.Lstat(r.host(name))
	return err == nil
}

func (r *round) contents(name string) string {
	b, err := os.ReadFile(r.host(name))
	if err != nil {
		r.failf("%v", err)
	}
	return string(b)
}

func wstatName(fid uint32, name string) M {
	d := noChange()
	d.Name = Str(name)
	return M{T: tTwstat, Fid: fid, Data: encodeDir(d)}
}

func noChange() DirMsg {
	return DirMsg{Type: 0xFFFF, Dev: 0xFFFFFFFF, Qid: QID{0xFF, 0xFFFFFFFF, ^uint64(0)}, Mode: 0xFFFFFFFF, Atime: 0xFFFFFFFF, Mtime: 0xFFFFFFFF, Length: ^uint64(0)}
}

func (r *round) run() {
	const d = uint32(1 << 31)
	clunk := func(f uint32) M { return M{T: tTclunk, Fid: f} }
	r.all(func(s *lane) {
		s.ok(M{T: tTattach, Fid: rf, Fid2: noFid, S1: "u", S2: "/"})
	})
	defer r.all(func(s *lane) {
		s.ok(clunk(rf))
	})
	n := len(r.xs)
	name := func(p string, k ...int) string {
		for _, v := range k {
			p += fmt.Sprintf("_%d", v)
		}
		return p
	}
	body := func(k ...int) []byte { return bytes.Repeat([]byte(name("b", k...)), 1+r.r.Size/50) }
	switch r.r.K {
	case "mkdir":
		res := r.each(func(s *lane, i, j int) []M {
			return []M{s.walk(rf + 1), {T: tTcreate, Fid: rf + 1, S1: name("n", j), Perm: d | 0755}, clunk(rf + 1)}
		})
		for j := 0; j < r.r.N; j++ {
			if w := won(res, j, 1); len(w) != 1 {
				r.failf("directory %s was created by sessions %v, want exactly one", name("n", j), w)
			}
			if fi, err := os.Lstat(r.host(name("n", j))); err != nil || !fi.IsDir() || fi.Mode().Perm() != 0755 {
				r.failf("directory %s: %v, %v", name("n", j), fi, err)
			}
		}
	case "remove":
		for j := 0; j < r.r.N; j++ {
			if r.r.How&1 == 0 {
				r.mk(name("n", j), body(j))
			} else {
				r.c.Must(os.Mkdir(r.host(name("n", j)), 0755))
			}
		}
		var pre [][][]M
		if r.r.How&2 == 0 { // everybody has a fid for every file before
			pre = r.each(func(s *lane, i, j int) []M { return []M{s.walk(rf+1+uint32(j), name("n", j))} })
		}
		res := r.each(func(s *lane, i, j int) []M {
			ms := []M{{T: tTremove, Fid: rf + 1 + uint32(j)}}
			if pre == nil {
				ms = append([]M{s.walk(rf+1+uint32(j), name("n", j))}, ms...)
			}
			return ms
		})
		for j := 0; j < r.r.N; j++ {
			k := 1
			if pre != nil {
				k = 0
				if w := won(pre, j, 0); len(w) != n {
					r.failf("walks to %s only succeeded in sessions %v", name("n", j), w)
				}
			}
			if w := won(res, j, k); len(w) != 1 {
				r.failf("%s was removed by sessions %v, want exactly one", name("n", j), w)
			}
			if r.exists(name("n", j)) {
				r.failf("%s was removed but exists", name("n", j))
			}
		}
	case "rename":
		for j := 0; j < r.r.N; j++ {
			r.mk(name("s", j), body(j))
		}
		r.each(func(s *lane, i, j int) []M { return []M{s.walk(rf+1+uint32(j), name("s", j))} })
		res := r.each(func(s *lane, i, j int) []M {
			return []M{wstatName(rf+1+uint32(j), name("t", j, i)), clunk(rf + 1 + uint32(j))}
		})
		for j := 0; j < r.r.N; j++ {
			w := won(res, j, 0)
			if len(w) != 1 {
				r.failf("%s was renamed, to different names, by sessions %v, want exactly one", name("s", j), w)
			}
			if r.exists(name("s", j)) {
				r.failf("%s was renamed but exists", name("s", j))
			}
			for i := 0; i < n; i++ {
				if t := name("t", j, i); r.exists(t) != (i == w[0]) {
					r.failf("session %d renamed %s, %s exists: %v", w[0], name("s", j), t, r.exists(t))
				}
			}
			if b := r.contents(name("t", j, w[0])); b != string(body(j)) {
				r.failf("the contents of %s changed when it was renamed", name("s", j))
			}
		}
	case "onto":
		for j := 0; j < r.r.N; j++ {
			if r.r.How&1 == 0 {
				r.mk(name("t", j), []byte("old"))
			}
			for i := 0; i < n; i++ {
				r.mk(name("s", j, i), body(j, i))
			}
		}
		r.each(func(s *lane, i, j int) []M { return []M{s.walk(rf+1+uint32(j), name("s", j, i))} })
		res := r.each(func(s *lane, i, j int) []M {
			return []M{wstatName(rf+1+uint32(j), name("t", j)), clunk(rf + 1 + uint32(j))}
		})
		for j := 0; j < r.r.N; j++ {
			if w := won(res, j, 0); len(w) != n {
				r.failf("renaming different files to %s only succeeded in sessions %v: %v", name("t", j), w, res)
			}
			b := r.contents(name("t", j))
			ok := false
			for i := 0; i < n; i++ {
				if r.exists(name("s", j, i)) {
					r.failf("%s was renamed but exists", name("s", j, i))
				}
				ok = ok || b == string(body(j, i))
			}
			if !ok {
				r.failf("%s has the contents of none of the files renamed to it: %q", name("t", j), short(b))
			}
		}
	case "own":
		res := r.each(func(s *lane, i, j int) []M {
			f := rf + 1 + uint32(j)
			b := body(i, j)
			if m := int(s.x.msize) - 24; len(b) > m {
				b = b[:m]
			}
			ms := []M{s.walk(f), {T: tTcreate, Fid: f, S1: name("p", i, j), Perm: 0644, Mode: 2}, {T: tTwrite, Fid: f, Data: b},
				{T: tTread, Fid: f, N: uint32(len(b))}, {T: tTstat, Fid: f}, wstatName(f, name("P", i, j)), {T: tTread, Fid: f, N: uint32(len(b))}}
			if j%3 == 1 {
				return append(ms, M{T: tTremove, Fid: f})
			}
			return append(ms, clunk(f))
		})
		for i := 0; i < n; i++ {
			for j := 0; j < r.r.N; j++ {
				b := body(i, j)
				if m := int(r.xs[i].msize) - 24; len(b) > m {
					b = b[:m]
				}
				for k, q := range res[i][j] {
					switch {
					case !isOK(q):
						r.failf("session %d on its own file %s, request %d: %v", i, name("p", i, j), k, q)
					case k == 2 && int(q.N) != len(b), k == 3 && !bytes.Equal(q.Data, b), k == 6 && !bytes.Equal(q.Data, b):
						r.failf("session %d on its own file %s with %d bytes, request %d: %v", i, name("p", i, j), len(b), k, q)
					case k == 4:
						if e, _, _, ok := decodeDir(q.Data); !ok || string(e.Name) != name("p", i, j) || e.Length != uint64(len(b)) {
							r.failf("session %d on its own file %s with %d bytes, stat: %v", i, name("p", i, j), len(b), e)
						}
					}
				}
				if r.exists(name("p", i, j)) {
					r.failf("%s was renamed but exists", name("p", i, j))
				}
				if j%3 == 1 {
					if r.exists(name("P", i, j)) {
						r.failf("%s was removed but exists", name("P", i, j))
					}
				} else if r.contents(name("P", i, j)) != string(b) {
					r.failf("the contents of %s are wrong", name("P", i, j))
				}
			}
		}
	case "chunks", "create":
		// All write their own parts of one file: opened, or created by all.
		sz := 1 + r.r.Size%240
		part := func(i, j int) []byte { return bytes.Repeat([]byte{byte(1 + (i*40+j)%255)}, sz) }
		if r.r.K == "chunks" {
			r.mk("f", bytes.Repeat([]byte{0}, r.r.How*100))
			r.all(func(s *lane) { s.ok(s.walk(rf+1, "f"), M{T: tTopen, Fid: rf + 1, Mode: 2}) })
		} else {
			r.all(func(s *lane) { s.ok(s.walk(rf+1), M{T: tTcreate, Fid: rf + 1, S1: "f", Perm: 0644, Mode: 2}) })
		}
		res := r.each(func(s *lane, i, j int) []M {
			off := uint64(j*n+i) * uint64(sz)
			return []M{{T: tTwrite, Fid: rf + 1, Off: off, Data: part(i, j)}, {T: tTread, Fid: rf + 1, Off: off, N: uint32(sz)}}
		})
		r.all(func(s *lane) { s.ok(clunk(rf + 1)) })
		b := r.contents("f")
		for i := 0; i < n; i++ {
			for j := 0; j < r.r.N; j++ {
				q := res[i][j]
				switch {
				case !isOK(q[0]) || int(q[0].N) != sz:
					r.failf("session %d: writing its part of a file: %v", i, q[0])
				case !isOK(q[1]) || !bytes.Equal(q[1].Data, part(i, j)):
					r.failf("session %d: reading back its part of a file: %v, want %d bytes %#x", i, q[1], sz, part(i, j)[0])
				}
				if o := (j*n + i) * sz; o+sz > len(b) || b[o:o+sz] != string(part(i, j)) {
					r.failf("the part that session %d wrote at %d is lost", i, o)
				}
			}
		}
		want := r.r.N * n * sz
		if r.r.K == "chunks" && want < r.r.How*100 {
			want = r.r.How * 100
		}
		if len(b) != want {
			r.failf("the file has %d bytes, want %d", len(b), want)
		}
	case "register":
		r.register()
	case "list":
		r.list()
	case "rmdir":
		// Some remove a directory that the others create a file in.
		for j := 0; j < r.r.N; j++ {
			r.c.Must(os.Mkdir(r.host(name("d", j)), 0755))
		}
		r.each(func(s *lane, i, j int) []M { return []M{s.walk(rf+1+uint32(j), name("d", j))} })
		isRm := func(i int) bool { return i%2 == r.r.How%2 }
		res := r.each(func(s *lane, i, j int) []M {
			f := rf + 1 + uint32(j)
			if isRm(i) {
				return []M{{T: tTremove, Fid: f}}
			}
			return []M{{T: tTcreate, Fid: f, S1: "x", Perm: 0644, Mode: 1}, clunk(f)}
		})
		for j := 0; j < r.r.N; j++ {
			rm, cr, nc := 0, 0, 0
			for i := 0; i < n; i++ {
				ok := isOK(res[i][j][0])
				if !isRm(i) {
					nc++
					if ok {
						cr++
					}
				} else if ok {
					rm++
				}
			}
			if rm > 1 || rm == 1 && cr > 0 || rm == 0 && cr != nc {
				r.failf("of %d that created a file in directory %s %d succeeded, and %d removed the directory", nc, name("d", j), cr, rm)
			}
			if r.exists(name("d", j)) != (rm == 0) || r.exists(name("d", j)+"/x") != (cr > 0) {
				r.failf("of %d that created a file in directory %s %d succeeded, and %d removed the directory; now the directory exists: %v, the file: %v", nc, name("d", j), cr, rm, r.exists(name("d", j)), r.exists(name("d", j)+"/x"))
			}
		}
	case "mvdir":
		// One renames a directory that the others create files in.
		for j := 0; j < r.r.N; j++ {
			r.c.Must(os.Mkdir(r.host(name("d", j)), 0755))
			r.mk(name("d", j)+"/old", body(j))
		}
		r.each(func(s *lane, i, j int) []M { return []M{s.walk(rf+1+uint32(j), name("d", j))} })
		res := r.each(func(s *lane, i, j int) []M {
			f := rf + 1 + uint32(j)
			if i == 0 {
				return []M{wstatName(f, name("e", j)), clunk(f)}
			}
			return []M{{T: tTcreate, Fid: f, S1: name("x", i), Perm: 0644, Mode: 1}, clunk(f)}
		})
		for j := 0; j < r.r.N; j++ {
			if !isOK(res[0][j][0]) {
				r.failf("renaming directory %s: %v", name("d", j), res[0][j][0])
			}
			if r.exists(name("d", j)) {
				r.failf("%s was renamed but exists", name("d", j))
			}
			if r.contents(name("e", j)+"/old") != string(body(j)) {
				r.failf("the contents of %s/old changed when the directory was renamed", name("d", j))
			}
			for i := 1; i < n; i++ {
				if ok := isOK(res[i][j][0]); ok != r.exists(name("e", j)+"/"+name("x", i)) {
					r.failf("creating %s in %s while it was renamed to %s: %v, but it exists: %v", name("x", i), name("d", j), name("e", j), ok, !ok)
				}
			}
		}
	case "crrm":
		// Some create what the others remove.
		isRm := func(i int) bool { return i%2 == r.r.How%2 }
		res := r.each(func(s *lane, i, j int) []M {
			f := rf + 1 + uint32(j)
			if isRm(i) {
				return []M{s.walk(f, "n"), {T: tTremove, Fid: f}}
			}
			return []M{s.walk(f), {T: tTcreate, Fid: f, S1: "n", Perm: 0644, Mode: 2}, {T: tTwrite, Fid: f, Data: []byte("data")}, {T: tTread, Fid: f, N: 10}, clunk(f)}
		})
		made, gone := 0, 0
		for j := 0; j < r.r.N; j++ {
			for i := 0; i < n; i++ {
				q := res[i][j]
				if isRm(i) {
					if isOK(q[1]) {
						gone++
					}
					continue
				}
				for _, q := range q {
					if !isOK(q) {
						r.failf("creating a file and writing to it while others remove it: %v", res[i][j])
					}
				}
				made++
			}
		}
		if gone > made {
			r.failf("%d files were created but %d removed", made, gone)
		}
		if made > 0 && gone == 0 && !r.exists("n") {
			r.failf("a file was created, and not removed, but does not exist")
		}
	default:
		r.c.Broken("unknown round %q", r.r.K)
	}
}

// register: one session changes something of a file to one value after another;
// the others look at it. They must see a value that was current at some time
// between when they asked and when they were answered.
func (r *round) register() {
	n := 3 + r.r.N*2
	size := 1 + r.r.Size%300
	how := r.r.How % 6
	const t0 = 1000000000
	switch how {
	case 0: // contents
		r.mk("f", bytes.Repeat([]byte{0}, size))
	default:
		r.mk("f", nil)
		r.c.Must(os.Chmod(r.host("f"), 0600))
		t := syscall.Timeval{Sec: t0}
		r.c.Must(syscall.Utimes(r.host("f"), []syscall.Timeval{t, t}))
	}
	var begun, done atomic.Int64
	var stop atomic.Bool
	r.all(func(s *lane) {
		if s.i == 0 {
			defer stop.Store(true)
			if how < 2 {
				s.ok(s.walk(rf+1, "f"), M{T: tTopen, Fid: rf + 1, Mode: 1})
			} else {
				s.ok(s.walk(rf+1, "f"))
			}
			for v := 1; v <= n; v++ {
				d := noChange()
				q := M{T: tTwstat, Fid: rf + 1}
				switch how {
				case 0:
					q = M{T: tTwrite, Fid: rf + 1, Data: bytes.Repeat([]byte{byte(v)}, size)}
				case 1:
					q = M{T: tTwrite, Fid: rf + 1, Off: uint64((v - 1) * size), Data: bytes.Repeat([]byte{byte(v)}, size)}
				case 2:
					d.Length = uint64(v * size)
				case 3:
					d.Mtime = t0 + uint32(v)
				case 4:
					d.Mode = 0600 | uint32(v%64)
				case 5: // all of them
					d.Length, d.Mtime = uint64(v*size), t0+uint32(v)
				}
				if q.T == tTwstat {
					q.Data = encodeDir(d)
				}
				begun.Store(int64(v))
				rs := s.ok(q)
				if q.T == tTwrite && int(rs[0].N) != size {
					s.fail("a write of %d bytes reported %d", size, rs[0].N)
				}
				done.Store(int64(v))
			}
			s.ok(M{T: tTclunk, Fid: rf + 1})
			return
		}
		via := (r.r.How/6 + s.i + r.r.Size) % 3
		s.ok(s.walk(rf+1, "f"), M{T: tTopen, Fid: rf + 1})
		for k := 0; k < 3000; k++ {
			last := stop.Load()
			lo := done.Load()
			var dirs []DirMsg
			var data []byte
			isData := false
			switch {
			case how == 0 || how == 1 && via == 0:
				isData = true
				q := M{T: tTread, Fid: rf + 1, N: uint32(size)}
				if how == 1 { // the part that is to be written next
					q.Off = uint64(lo) * uint64(size)
				}
				data = s.ok(q)[0].Data
			case via == 0:
				dirs = append(dirs, s.stat(s.ok(M{T: tTstat, Fid: rf + 1})[0]))
			case via == 1:
				dirs = append(dirs, s.stat(s.ok(s.walk(rf+2, "f"), M{T: tTstat, Fid: rf + 2}, M{T: tTclunk, Fid: rf + 2})[1]))
			default:
				dirs = s.list(rf+2, 8192)
			}
			hi := begun.Load()
			switch {
			case how == 0:
				if len(data) != size {
					s.fail("a read of %d bytes returned %d", size, len(data))
				}
				for o, b := range data {
					if int64(b) < lo || int64(b) > hi {
						s.fail("byte %d of the file is %d, but %d was written to it before it was read, and nothing beyond %d by then", o, b, lo, hi)
					}
				}
			case isData:
				for o, b := range data {
					// A file can grow before what is written to it is there.
					if int64(b) != lo+1 && b != 0 {
						s.fail("byte %d of part %d of the file is %d", o, lo, b)
					}
				}
			}
			for _, d := range dirs {
				if d.Name != "f" {
					s.fail("stat of f has name %q", d.Name)
				}
				v := d.Length
				if how == 2 || how == 1 || how == 5 {
					if v < uint64(lo)*uint64(size) || v > uint64(hi)*uint64(size) || how != 1 && v%uint64(size) != 0 {
						s.fail("the length of the file is %d, but at least %d and at most %d by then", v, lo*int64(size), hi*int64(size))
					}
				}
				if how == 3 {
					if v := int64(d.Mtime) - t0; v < lo || v > hi {
						s.fail("the modification time of the file is %d, but at least %d and at most %d by then", d.Mtime, t0+lo, t0+hi)
					}
				}
				if how == 4 {
					ok := false
					for v := lo; v <= hi; v++ {
						ok = ok || v == 0 && d.Mode == 0600 || v > 0 && d.Mode == 0600|uint32(v%64)
					}
					if !ok {
						s.fail("the mode of the file is %#o, which is none of those it had from change %d to %d", d.Mode, lo, hi)
					}
				}
			}
			if last {
				break
			}
		}
		s.ok(M{T: tTclunk, Fid: rf + 1})
	})
	r.c.Label("register %d", how)
}

func (s *lane) stat(r M) DirMsg {
	d, n, sz, ok := decodeDir(r.Data)
	if !ok || !sz || n != len(r.Data) {
		s.fail("stat data % x is not one directory entry", tailB(r.Data))
	}
	return d
}

// list reads the directory of the round to its end.
func (s *lane) list(fid uint32, cnt uint32) (ds []DirMsg) {
	s.ok(s.walk(fid), M{T: tTopen, Fid: fid})
	off := uint64(0)
	for {
		b := s.ok(M{T: tTread, Fid: fid, Off: off, N: cnt})[0].Data
		if len(b) == 0 {
			break
		}
		off += uint64(len(b))
		for len(b) > 0 {
			d, n, sz, ok := decodeDir(b)
			if !ok || !sz {
				s.fail("a read of a directory does not return whole entries: % x", tailB(b))
			}
			ds = append(ds, d)
			b = b[n:]
		}
	}
	s.ok(M{T: tTclunk, Fid: fid})
	return
}

// list: some sessions create and remove files, or rename them, in a directory
// that others list. What does not change is listed once.
func (r *round) list() {
	want := map[string]bool{}
	for k := 0; k < r.r.N; k++ {
		nm := fmt.Sprintf("stable%d", k)
		r.mk(nm, make([]byte, k))
		want[nm] = true
	}
	var left atomic.Int64
	left.Store(int64((len(r.xs) + 1) / 2))
	r.all(func(s *lane) {
		f := uint32(rf + 1)
		if s.i%2 == 0 {
			defer left.Add(-1)
			for k := 0; k < 10+r.r.N; k++ {
				nm := fmt.Sprintf("churn%d_%d", s.i, k%7)
				switch (k + r.r.How) % 3 {
				case 0:
					s.ok(s.walk(f), M{T: tTcreate, Fid: f, S1: nm, Perm: 0644}, M{T: tTremove, Fid: f})
				case 1:
					s.ok(s.walk(f), M{T: tTcreate, Fid: f, S1: nm, Perm: 0644}, wstatName(f, nm+"x"), M{T: tTremove, Fid: f})
				case 2:
					s.ok(s.walk(f), M{T: tTcreate, Fid: f, S1: nm, Perm: 1<<31 | 0755}, M{T: tTremove, Fid: f})
				}
			}
			return
		}
		for k := 0; k < 1000; k++ {
			last := left.Load() == 0
			seen := map[string]bool{}
			for _, d := range s.list(f, uint32(200+r.r.Size)) {
				nm := string(d.Name)
				if !want[nm] {
					if !strings.HasPrefix(nm, "churn") {
						s.fail("the directory lists %q, which never existed", nm)
					}
					continue
				}
				if seen[nm] {
					s.fail("the directory lists %q twice, though it did not change", nm)
				}
				seen[nm] = true
				if fmt.Sprintf("stable%d", d.Length) != nm {
					s.fail("the directory lists %q with length %d", nm, d.Length)
				}
			}
			if len(seen) != len(want) {
				s.fail("the directory lists %d of the %d files in it that did not change", len(seen), len(want))
			}
			if last {
				break
			}
		}
	})
}

func init() {
	register(&Prop{ID: "C31", Rule: "sessions took turns and at least twice looked at a file that another session had a fid for, or did something at once", Unpriv: true, Quick: 12000, Thorough: 150000,
		New: func() interface{} { return new(planC31) }, Gen: genC31, Run: runC31})
}
