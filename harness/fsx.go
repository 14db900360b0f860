package main

import (
	"bytes"
	"fmt"
	"io"
	"os"
	"path"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"time"

	"flag"

	ufs "github.com/Harvey-OS/ninep/filesystem"
	"github.com/Harvey-OS/ninep/protocol"
)

// ---- the model of a file system tree

const pageSize = 4096

// sparse is the contents of a file.
type sparse struct {
	size  int64
	pages map[int64]*[pageSize]byte
}

func newSparse(b []byte) *sparse {
	s := &sparse{pages: map[int64]*[pageSize]byte{}}
	s.writeAt(b, 0)
	return s
}
func (s *sparse) writeAt(b []byte, off int64) {
	if len(b) == 0 {
		return
	}
	if e := off + int64(len(b)); e > s.size {
		s.size = e
	}
	for len(b) > 0 {
		p := off / pageSize
		pg := s.pages[p]
		if pg == nil {
			pg = new([pageSize]byte)
			s.pages[p] = pg
		}
		n := copy(pg[off%pageSize:], b)
		b = b[n:]
		off += int64(n)
	}
}
func (s *sparse) readAt(off int64, n int64) []byte {
	if off >= s.size || n <= 0 {
		return nil
	}
	if n > s.size-off {
		n = s.size - off
	}
	out := make([]byte, n)
	for i := int64(0); i < n; {
		o := off + i
		pg := s.pages[o/pageSize]
		k := pageSize - o%pageSize
		if k > n-i {
			k = n - i
		}
		if pg != nil {
			copy(out[i:i+k], pg[o%pageSize:])
		}
		i += k
	}
	return out
}
func (s *sparse) truncate(n int64) {
	for p, pg := range s.pages {
		if p*pageSize >= n {
			delete(s.pages, p)
		} else if (p+1)*pageSize > n {
			for i := n - p*pageSize; i < pageSize; i++ {
				pg[i] = 0
			}
		}
	}
	s.size = n
}

type node struct {
	kind byte // f, d, l
	perm uint32
	data *sparse
	link string
}

type dirRead struct {
	off   uint64
	last  uint64
	seen  map[string]bool
	done  bool
	taint bool
}

type mfid struct {
	path      string // from the exported root, "/" for the root itself
	open      bool
	mode      uint8
	stale     bool // its path no longer means what it did: anything goes
	maybeOpen bool // of a directory just created: the protocol and the server differ
	dr        *dirRead
}

// fsx drives one connection to the file server and compares it with the model.
type fsx struct {
	c     *Ctx
	l     *protocol.Listener
	root  string // host path of the exported root
	base  string // all is done below this path; "" for the root
	user  string
	tree  map[string]*node
	fids  map[uint32]*mfid
	dead  map[uint32]string // fids that were valid once, and how they ended
	conn  io.ReadWriteCloser
	pr    *peer
	msize uint32
	tag   uint16
	qids  map[uint64]uint64 // inode to QID path
	vers  map[uint64][2]int64
	hist  []string
	multi bool // one of several sessions: no looking at the whole process
	all   bool // every deviation counts
	// QID paths need not identify files (as where there are no inodes).
	anyQid bool
	// kin, if not nil, are all the sessions on this tree, this one included.
	// They share tree, qids and vers.
	kin   []*fsx
	who   string
	umask uint32
	nops  int
	// cl, if not nil, makes the calls instead of conn. Fid numbers are
	// replaced by ones it hands out.
	cl   *protocol.Client
	fmap map[uint32]uint32
	kept [][2][]byte // data calls returned, and what it was then

	limit *limit // to hold during the next request
	plus  string // tags of whatever fails now, in addition
}

// abandon ends a case in which something is wrong that another property is
// about.
type abandon struct{ msg string }

func (x *fsx) fail(tags string, f string, a ...interface{}) {
	msg := fmt.Sprintf(f, a...)
	tags += " " + x.plus
	h := x.hist
	if len(h) > 40 {
		h = h[len(h)-40:]
	}
	if x.multi || x.all || strings.Contains(tags, x.c.Prop) {
		x.c.Failf("%s\nhistory:\n  %s", msg, strings.Join(h, "\n  "))
	}
	panic(&abandon{tags + ": " + msg})
}

func (x *fsx) host(p string) string { return filepath.Join(x.root, p) }

func (x *fsx) logf(f string, a ...interface{}) {
	s := x.who + fmt.Sprintf(f, a...)
	for _, k := range x.sessions() {
		k.hist = append(k.hist, s)
	}
}

// sessions returns all the sessions on the same tree.
func (x *fsx) sessions() []*fsx {
	if x.kin != nil {
		return x.kin
	}
	return []*fsx{x}
}

func newFsx(c *Ctx, root, base, user string) *fsx {
	return &fsx{c: c, root: root, base: base, user: user, tree: map[string]*node{}, fids: map[uint32]*mfid{}, dead: map[uint32]string{},
		qids: map[uint64]uint64{}, vers: map[uint64][2]int64{}, msize: 8192 + 24}
}

// ufsListener makes the file server for a root.
func ufsListener(c *Ctx, root, user string, debug bool) *protocol.Listener {
	d := "0"
	if debug {
		d = "1"
	}
	c.Must(flag.Set("root", root))
	c.Must(flag.Set("user", user))
	c.Must(flag.Set("debug", d))
	l, err := ufs.NewUFS()
	if err != nil {
		c.Failf("NewUFS: %v", err)
	}
	return l
}

func (x *fsx) connect(l *protocol.Listener) {
	a, b := memPair()
	if err := l.Accept(b); err != nil {
		x.c.Failf("Accept: %v", err)
	}
	x.c.Cleanup(func() { a.Close() })
	x.conn, x.pr = a, newPeer(a)
}

// rpc sends a request and returns the reply.
func (x *fsx) rpc(m M) M {
	if x.cl != nil {
		return x.call(m)
	}
	x.tag++
	if x.tag == 65535 {
		x.tag = 1
	}
	m.Tag = x.tag
	if l := x.limit; l != nil {
		x.limit = nil
		defer l.impose(x)()
	}
	x.conn.Write(encode(m))
	b, err := x.pr.recv(opTimeout)
	if err == errTimeout {
		x.c.Hangf("%v\nhistory:\n  %s", m, strings.Join(x.hist, "\n  "))
	}
	if err != nil {
		x.c.Failf("%v is not answered: %v\nhistory:\n  %s", m, err, strings.Join(x.hist, "\n  "))
	}
	r := checkReply(x.c, "file server", b, m)
	x.logf("%v -> %v", m, r)
	return r
}

// children returns the sorted names in a directory of the model.
func (x *fsx) children(p string) []string {
	var r []string
	pre := p
	if pre != "/" {
		pre += "/"
	}
	for q := range x.tree {
		if q != "/" && strings.HasPrefix(q, pre) && !strings.Contains(q[len(pre):], "/") {
			r = append(r, q[len(pre):])
		}
	}
	sort.Strings(r)
	return r
}

func join(p, n string) string {
	if p == "/" {
		return "/" + n
	}
	return p + "/" + n
}

func within1(p, q string) bool { // q is p or below
	return q == p || p == "/" || strings.HasPrefix(q, p+"/")
}

// stale marks the fids at or below p, except one, as stale.
func (x *fsx) staleBelow(p string, except *mfid) {
	for _, k := range x.sessions() {
		for _, f := range k.fids {
			if f != except && within1(p, f.path) {
				f.stale = true
			}
		}
	}
}

func (x *fsx) taintDirs() {
	for _, k := range x.sessions() {
		for _, f := range k.fids {
			if f.dr != nil {
				f.dr.taint = true
			}
		}
	}
}

// load makes the model agree with the host.
func (x *fsx) load() {
	for p := range x.tree { // in place: it may be shared
		delete(x.tree, p)
	}
	b := x.base
	if b == "" {
		b = "/"
	}
	x.loadAt(b)
}

func (x *fsx) loadAt(p string) {
	fi, err := os.Lstat(x.host(p))
	x.c.Must(err)
	n := &node{perm: uint32(fi.Mode().Perm())}
	x.tree[p] = n
	switch {
	case fi.IsDir():
		n.kind = 'd'
		es, err := os.ReadDir(x.host(p))
		x.c.Must(err)
		for _, e := range es {
			x.loadAt(join(p, e.Name()))
		}
	case fi.Mode()&os.ModeSymlink != 0:
		n.kind = 'l'
		n.link, _ = os.Readlink(x.host(p))
	default:
		n.kind = 'f'
		if fi.Size() > 1<<22 {
			// only for a file whose model is lost; contents are not compared
			panic(&abandon{"large file to load"})
		}
		n.data = newSparse(x.hostRead(p, fi))
		n.data.size = fi.Size()
	}
}

func (x *fsx) hostRead(p string, fi os.FileInfo) []byte {
	b, err := os.ReadFile(x.host(p))
	if err != nil && os.IsPermission(err) {
		os.Chmod(x.host(p), 0600)
		b, err = os.ReadFile(x.host(p))
		os.Chmod(x.host(p), fi.Mode().Perm())
	}
	x.c.Must(err)
	return b
}

// opTags gives the properties that a change of the tree by an operation that
// was not to make it bears on.
func opTags(op, cat string) string {
	t := map[string]string{
		"content": "C14", "perm": "C20", "struct": "C21",
	}[cat]
	switch op {
	case "open":
		t += " C15"
	case "walk":
		t += " C16"
	case "wstat":
		t += " C20"
		if cat == "struct" {
			t = "C20"
		}
	case "create", "remove":
		t += " C21"
	case "write", "read":
		t += " C14"
	default:
		t += " C17"
	}
	return t
}

// verify compares the tree on the host with the model.
func (x *fsx) verify(op, extra string) {
	seen := map[string]bool{}
	say := func(cat, f string, a ...interface{}) {
		x.fail(opTags(op, cat)+" "+extra, "after the last operation the host's tree is not what it should be: "+f, a...)
	}
	var visit func(p string)
	visit = func(p string) {
		seen[p] = true
		fi, err := os.Lstat(x.host(p))
		n := x.tree[p]
		if err != nil {
			say("struct", "%s: %v", p, err)
		}
		if n == nil {
			say("struct", "%s exists", p)
		}
		kind := byte('f')
		if fi.IsDir() {
			kind = 'd'
		} else if fi.Mode()&os.ModeSymlink != 0 {
			kind = 'l'
		}
		if kind != n.kind {
			say("struct", "%s is of kind %c, want %c", p, kind, n.kind)
		}
		if kind != 'l' && uint32(fi.Mode().Perm()) != n.perm {
			say("perm", "%s has permissions %#o, want %#o", p, fi.Mode().Perm(), n.perm)
		}
		switch kind {
		case 'd':
			es, err := os.ReadDir(x.host(p))
			x.c.Must(err)
			for _, e := range es {
				visit(join(p, e.Name()))
			}
		case 'f':
			if fi.Size() != n.data.size {
				say("content", "%s has %d bytes, want %d", p, fi.Size(), n.data.size)
			}
			if n.data.size <= 1<<18 {
				b := x.hostRead(p, fi)
				if w := n.data.readAt(0, n.data.size); !bytes.Equal(b, w) {
					say("content", "contents of %s: %s (host / want)", p, diffAt(b, w))
				}
			} else if msg := x.verifySparse(p, fi, n.data); msg != "" {
				say("content", "contents of %s: %s", p, msg)
			}
		}
	}
	b := x.base
	if b == "" {
		b = "/"
	}
	visit(b)
	for p := range x.tree {
		if !seen[p] {
			say("struct", "%s is missing", p)
		}
	}
}

func (x *fsx) verifySparse(p string, fi os.FileInfo, s *sparse) string {
	f, err := os.Open(x.host(p))
	if err != nil {
		os.Chmod(x.host(p), 0600)
		f, err = os.Open(x.host(p))
		os.Chmod(x.host(p), fi.Mode().Perm())
		x.c.Must(err)
	}
	defer f.Close()
	buf := make([]byte, pageSize)
	check := func(pg int64) string {
		n, _ := f.ReadAt(buf, pg*pageSize)
		w := s.readAt(pg*pageSize, pageSize)
		if !bytes.Equal(buf[:n], w) {
			return fmt.Sprintf("at %d, %s (host / want)", pg*pageSize, diffAt(buf[:n], w))
		}
		return ""
	}
	for pg := range s.pages {
		if m := check(pg); m != "" {
			return m
		}
	}
	// Anywhere the host has data at all.
	left := 20000
	for off := int64(0); off < s.size && left > 0; {
		d, err := syscall.Seek(int(f.Fd()), off, 3) // SEEK_DATA
		if err != nil {
			break
		}
		e, err := syscall.Seek(int(f.Fd()), d, 4) // SEEK_HOLE
		if err != nil {
			break
		}
		for pg := d / pageSize; pg*pageSize < e && left > 0; pg++ {
			left--
			if s.pages[pg] == nil {
				if m := check(pg); m != "" {
					return m
				}
			}
		}
		off = e
	}
	return ""
}

// openFds counts the descriptors of this process on files below the root,
// the root itself not included.
func (x *fsx) openFds() int {
	n := 0
	es, _ := os.ReadDir("/proc/self/fd")
	for _, e := range es {
		t, err := os.Readlink("/proc/self/fd/" + e.Name())
		if err == nil && strings.HasPrefix(t, x.root+"/") {
			n++
		}
	}
	return n
}

func (x *fsx) checkFds(what string) {
	if x.multi {
		return
	}
	want := 0
	for _, k := range x.sessions() {
		for _, f := range k.fids {
			if f.open && f.path != "/" {
				want++
			}
			if f.maybeOpen || (f.stale && f.path == "/") {
				return
			}
		}
	}
	got := 0
	if !waitFor(2*time.Second, func() bool { got = x.openFds(); return got <= want }) {
		x.fail("C17", "after %s the server holds %d host files open, but only %d fids are open", what, got, want)
	}
}

// checkQid compares a QID with the file at p.
func (x *fsx) checkQid(q QID, p, tags string, version bool) {
	fi, err := os.Lstat(x.host(p))
	if err != nil {
		x.c.Broken("lstat for a QID: %v", err)
	}
	t := uint8(0)
	if fi.IsDir() {
		t = 0x80
	} else if fi.Mode()&os.ModeSymlink != 0 {
		t = 0x02
	}
	if q.T != t {
		x.fail(tags, "QID %v of %s has type %#x, want %#x", q, p, q.T, t)
	}
	ino := fi.Sys().(*syscall.Stat_t).Ino
	if x.anyQid {
		delete(x.qids, ino)
	}
	// Forget files that are gone, since their inode may come back.
	if old, ok := x.qids[ino]; ok {
		if old != q.P {
			x.fail(tags, "QID %v of %s: the path of the same file was %d before", q, p, old)
		}
	} else {
		for i, o := range x.qids {
			if o == q.P && !x.anyQid {
				x.fail(tags, "QID %v of %s (inode %d) has the path of another file (inode %d)", q, p, ino, i)
			}
		}
		x.qids[ino] = q.P
	}
	if version {
		mt := fi.ModTime().UnixNano()
		if old, ok := x.vers[ino]; ok {
			d := mt - old[0]
			if d < 0 {
				d = -d
			}
			if d == 0 && uint32(old[1]) != q.V {
				x.fail("C19", "QID version of %s changed from %d to %d, but its modification time did not", p, old[1], q.V)
			}
			if d >= 1000000 && d < 40*24*3600*1e9 && uint32(old[1]) == q.V {
				x.fail("C19", "QID version of %s is still %d, but its modification time changed by %v", p, q.V, time.Duration(d))
			}
		}
		x.vers[ino] = [2]int64{mt, int64(q.V)}
	}
}

// forget drops what is known of the inodes at and below p.
func (x *fsx) forget(p string) {
	for q := range x.tree {
		if within1(p, q) {
			if fi, err := os.Lstat(x.host(q)); err == nil {
				ino := fi.Sys().(*syscall.Stat_t).Ino
				delete(x.qids, ino)
				delete(x.vers, ino)
			}
		}
	}
}

// checkDir compares a directory entry with the file at p.
func (x *fsx) checkDir(d DirMsg, p, tags string) {
	fi, err := os.Lstat(x.host(p))
	if err != nil {
		x.c.Broken("lstat for a stat: %v", err)
	}
	x.checkQid(d.Qid, p, tags, true)
	mode := uint32(fi.Mode().Perm())
	if fi.IsDir() {
		mode |= 0x80000000
	}
	switch {
	case p != "/" && string(d.Name) != path.Base(p):
		x.fail(tags, "stat of %s has name %q", p, d.Name)
	case d.Mode != mode:
		x.fail(tags, "stat of %s has mode %#o, want %#o", p, d.Mode, mode)
	case fi.Mode().IsRegular() && d.Length != uint64(fi.Size()):
		x.fail(tags, "stat of %s has length %d, want %d", p, d.Length, fi.Size())
	case d.Mtime != uint32(fi.ModTime().Unix()):
		x.fail(tags, "stat of %s has modification time %d, want %d", p, d.Mtime, fi.ModTime().Unix())
	case string(d.User) != x.user || string(d.Group) != x.user:
		x.fail(tags, "stat of %s has owner %q and group %q, want %q", p, d.User, d.Group, x.user)
	}
}

func (x *fsx) parseStat(b []byte, tags string) DirMsg {
	d, n, sz, ok := decodeDir(b)
	if !ok || !sz || n != len(b) {
		x.fail(tags, "stat data % x is not one directory entry", tailB(b))
	}
	return d
}

// ---- operations

type WOp struct {
	SetMode, SetLen, SetMt, SetAt bool   `json:",omitempty"`
	Mode                          uint32 `json:",omitempty"`
	Len                           uint64 `json:",omitempty"`
	Mt, At                        uint32 `json:",omitempty"`
	Name, User, Group             Str    `json:",omitempty"`
	Cut                           int    `json:",omitempty"` // send only part of the entry
}

// Op is an operation as plans have it. FS says how F is understood: a literal
// number, or the F-th of the fids in some state.
type Op struct {
	K      string
	FS, GS string `json:",omitempty"`
	F, G   int    `json:",omitempty"`
	Names  []Str  `json:",omitempty"`
	S      Str    `json:",omitempty"`
	Perm   uint32 `json:",omitempty"`
	Mode   uint8  `json:",omitempty"`
	Off    uint64 `json:",omitempty"`
	Rel    bool   `json:",omitempty"` // Off is relative to the end of the file
	Frac   int    `json:",omitempty"` // Off is this many sixteenths of the size
	N      uint32 `json:",omitempty"`
	Fault  int    `json:",omitempty"` // a host resource runs out
	Data   Blob
	W      WOp
}

func (x *fsx) pickFid(sel string, k int) uint32 {
	if k < 0 {
		k = -k
	}
	var c []uint32
	for n, f := range x.fids {
		nd := x.tree[f.path]
		if f.stale || nd == nil {
			if sel == "s" {
				c = append(c, n)
			}
			continue
		}
		ok := false
		switch sel {
		case "e":
			ok = true
		case "d":
			ok = nd.kind == 'd' && !f.open
		case "D":
			ok = nd.kind == 'd' && f.open
		case "f":
			ok = nd.kind == 'f' && !f.open
		case "c": // closed
			ok = !f.open
		case "o":
			ok = nd.kind == 'f' && f.open
		case "r":
			ok = nd.kind == 'f' && f.open && f.mode != 1
		case "w":
			ok = nd.kind == 'f' && f.open && (f.mode == 1 || f.mode == 2)
		}
		if ok {
			c = append(c, n)
		}
	}
	if sel == "u" {
		for n := uint32(1); n < 12; n++ {
			if x.fids[n] == nil {
				c = append(c, n)
			}
		}
	}
	sort.Slice(c, func(i, j int) bool { return c[i] < c[j] })
	if len(c) == 0 {
		if sel == "" {
			return uint32(k)
		}
		if u := uint32(k); sel != "e" && u%4 != 0 {
			return x.pickFid("e", int(u/4))
		}
		return uint32(k)%11 + 1
	}
	return c[uint32(k)%uint32(len(c))]
}

// name resolves a name of a plan: "\x01k" is the k-th entry of the directory.
func (x *fsx) name(dir string, s Str) string {
	if len(s) == 2 && s[0] == 1 {
		if n := x.tree[dir]; n != nil && n.kind == 'd' {
			if c := x.children(dir); len(c) > 0 {
				return c[int(s[1])%len(c)]
			}
		}
		return "a"
	}
	return string(s)
}

func parent(p string) string { return path.Dir(p) }

const (
	mustOK = iota
	mustFail
	either
)

func (x *fsx) outcome(r M, exp int, okTags, failTags, why string) bool {
	ok := r.T != tRerror
	if ok && exp == mustFail {
		x.fail(failTags, "this must fail (%s) but succeeded: %s", why, x.hist[len(x.hist)-1])
	}
	if !ok && exp == mustOK {
		x.fail(okTags, "this must succeed but failed: %s", x.hist[len(x.hist)-1])
	}
	return ok
}

func (x *fsx) canOpen(p string, flags int) bool {
	f, err := os.OpenFile(x.host(p), flags, 0)
	if err != nil {
		return false
	}
	f.Close()
	return true
}
func (x *fsx) canWriteDir(p string) bool { return syscall.Access(x.host(p), 3) == nil } // W_OK|X_OK

// probe stats a fid and compares it with what it should denote.
func (x *fsx) probe(n uint32, tags string) {
	f := x.fids[n]
	if f == nil {
		r := x.rpc(M{T: tTstat, Fid: n})
		if r.T != tRerror {
			x.fail("C17 "+tags, "fid %d is not valid (%s) but can be used: %s", n, x.dead[n], x.hist[len(x.hist)-1])
		}
		return
	}
	if f.stale || x.tree[f.path] == nil {
		return
	}
	r := x.rpc(M{T: tTstat, Fid: n})
	if r.T == tRerror {
		x.fail("C17 "+tags, "fid %d denotes %s but can not be used: %s", n, f.path, x.hist[len(x.hist)-1])
	}
	d := x.parseStat(r.Data, "C19")
	fi, err := os.Lstat(x.host(f.path))
	if err != nil {
		x.c.Broken("probe: %v", err)
	}
	ino := fi.Sys().(*syscall.Stat_t).Ino
	if q, ok := x.qids[ino]; ok && q != d.Qid.P && !x.anyQid {
		x.fail("C17 "+tags, "fid %d denotes %s, which has QID path %d, but its stat says %d", n, f.path, q, d.Qid.P)
	}
	x.checkDir(d, f.path, "C19")
}

// probeState looks whether fid n is open as the model has it, by reading one
// byte at offset zero of a file.
func (x *fsx) probeState(n uint32, tags string) {
	f := x.fids[n]
	if f == nil || f.stale || x.tree[f.path] == nil || x.tree[f.path].kind != 'f' {
		return
	}
	ok := isOK(x.rpc(M{T: tTread, Fid: n, N: 1}))
	switch {
	case !f.open && ok:
		x.fail(tags, "fid %d is not open but can be read: %s", n, x.hist[len(x.hist)-1])
	case f.open && f.mode != 1 && !ok:
		x.fail(tags, "fid %d is open for reading but can not be read: %s", n, x.hist[len(x.hist)-1])
	}
}

func (x *fsx) unbind(n uint32, how string) {
	delete(x.fids, n)
	x.dead[n] = how
}

// fresh makes a new fid for the file at p, to tell a fid that has gone bad
// from an operation that has. It returns 0 if that does not work.
func (x *fsx) fresh(p string, open bool, mode uint8) uint32 {
	const n = 99
	x.rpc(M{T: tTclunk, Fid: n})
	if r := x.rpc(M{T: tTattach, Fid: n, Fid2: noFid, S1: "u", S2: p}); r.T == tRerror {
		return 0
	}
	if open {
		if r := x.rpc(M{T: tTopen, Fid: n, Mode: mode & 3}); r.T == tRerror {
			return 0
		}
	}
	return n
}

// goneBad fails for C17 if request m works on a new fid for the same file with
// result ok, while it does not on this one.
func (x *fsx) goneBad(f *mfid, m M, ok func(M) bool) {
	if x.c.Prop != "C17" {
		return
	}
	what := x.hist[len(x.hist)-1]
	if n := x.fresh(f.path, f.open, f.mode); n != 0 {
		m.Fid = n
		if r := x.rpc(m); ok(r) {
			x.fail("C17", "fid for %s no longer works, a new one does: %s", f.path, what)
		}
	}
}

func isOK(r M) bool { return r.T != tRerror }

// do executes an operation.
func (x *fsx) do(op Op) {
	x.nops++
	switch op.K {
	case "version":
		x.doVersion(op)
	case "attach":
		x.doAttach(op)
	case "walk":
		x.doWalk(op)
	case "open":
		x.doOpen(op)
	case "create":
		x.doCreate(op)
	case "read":
		x.doRead(op)
	case "write":
		x.doWrite(op)
	case "clunk":
		x.doClunk(op)
	case "remove":
		x.doRemove(op)
	case "stat":
		x.doStat(op)
	case "wstat":
		x.doWstat(op)
	case "flush":
		if r := x.rpc(M{T: tTflush, OTag: uint16(op.N)}); r.T != tRflush {
			x.fail("C22", "flush failed: %v", r)
		}
		x.verify("flush", "")
	case "list":
		x.doList(op)
	case "fetch":
		x.doFetch(op)
	case "vanish":
		x.doVanish(op)
	case "probe":
		var ns []int
		for n := range x.fids {
			ns = append(ns, int(n))
		}
		for n := range x.dead {
			if x.fids[n] == nil {
				ns = append(ns, int(n))
			}
		}
		sort.Ints(ns)
		for _, n := range ns {
			x.probe(uint32(n), "")
		}
		x.verify("stat", "")
	default:
		x.doHost(op)
	}
}

func (x *fsx) doVersion(op Op) {
	n := op.N
	r := x.rpc(M{T: tTversion, N: n, S1: "9P2000"})
	if r.T != tRversion {
		if n >= 256 {
			x.fail("C22", "version with msize %d refused: %v", n, r)
		}
		panic(&abandon{"small msize refused"})
	}
	if r.S1 != "9P2000" || r.N > n {
		x.fail("C22", "version with msize %d: %v", n, r)
	}
	x.msize = r.N
	had := len(x.fids)
	var ns []uint32
	for k := range x.fids {
		x.unbind(k, "dropped by a version request")
		ns = append(ns, k)
	}
	for _, k := range ns {
		x.probe(k, "")
	}
	if had > 0 {
		x.c.Label("version with fids")
	}
	x.checkFds("a version request")
	x.verify("version", "")
}

func (x *fsx) doAttach(op Op) {
	n := x.pickFid(op.FS, op.F)
	an := string(op.S)
	target := path.Join("/", x.base, path.Join("/", an))
	if x.base != "" {
		an = path.Join(x.base, path.Join("/", an))
	}
	old := x.fids[n]
	afid := uint32(noFid)
	switch op.N {
	case 0:
	case 1:
		afid = n
	default:
		afid = op.N - 2
	}
	r := x.rpc(M{T: tTattach, Fid: n, Fid2: afid, S1: "user", S2: an})
	nd := x.tree[target]
	switch {
	case afid != noFid:
		x.outcome(r, mustFail, "", "C17", "there is no authentication")
		x.c.Label("attach with an authentication fid")
		x.probe(n, "C17")
	case old != nil:
		x.outcome(r, mustFail, "", "C17", "the fid is in use")
		x.c.Label("attach to a fid in use")
		x.probe(n, "C17")
	case nd == nil:
		x.outcome(r, mustFail, "", "C16", "there is no such file")
	default:
		exp := mustOK
		if nd.kind != 'd' {
			exp = either
		}
		if x.outcome(r, exp, "C16 C17", "", "") {
			x.checkQid(r.Qid, target, "C16 C19", true)
			x.fids[n] = &mfid{path: target}
		}
	}
	x.verify("attach", "")
}

func (x *fsx) doWalk(op Op) {
	n, m := x.pickFid(op.FS, op.F), x.pickFid(op.GS, op.G)
	if op.GS == "=" {
		m = n
	}
	f := x.fids[n]
	if f != nil && (f.stale || x.tree[f.path] == nil) {
		return
	}
	var names []string
	var stops []string // the files reached
	complete := true
	if f != nil {
		p := f.path
		if x.tree[p].kind == 'l' {
			return
		}
		for _, s := range op.Names {
			if len(names) == 16 {
				break
			}
			nd := x.tree[p]
			nm := "a"
			if complete {
				nm = x.name(p, s)
			} else if len(s) != 2 || s[0] != 1 {
				nm = string(s)
			}
			if nm == "" || nm == "." || strings.Contains(nm, "/") {
				nm = "a"
			}
			if complete && (nd.kind == 'l' || nd.kind == 'f' && nm == "..") {
				break // not specified
			}
			if nm == ".." && complete {
				if x.base != "" && p == x.base {
					break
				}
				p = parent(p)
			} else if complete {
				if nd.kind != 'd' {
					complete = false
				} else {
					p = join(p, nm)
					complete = x.tree[p] != nil
				}
			}
			names = append(names, nm)
			if complete {
				stops = append(stops, p)
			}
		}
	} else {
		for _, s := range op.Names {
			names = append(names, x.name("/", s))
		}
	}
	r := x.rpc(M{T: tTwalk, Fid: n, Fid2: m, Names: names})
	used := x.fids[m]
	defer func() {
		x.verify("walk", "")
	}()
	both := func() {
		x.probe(n, "C16")
		x.probeState(n, "C16 C17")
		if m != n {
			x.probe(m, "C16")
			x.probeState(m, "C16 C17")
		}
	}
	if f == nil {
		x.outcome(r, mustFail, "", "C17 C16", "the fid is not valid")
		both()
		return
	}
	if len(names) == 0 {
		switch {
		case m == n:
			// The walked fid itself is no fid in use: nothing happens.
			if !isOK(r) {
				x.goneBad(f, M{T: tTwalk, Fid: n, Fid2: 98}, isOK)
			}
			x.outcome(r, mustOK, "C16", "", "")
			if len(r.Qids) != 0 {
				x.fail("C16", "a walk of no elements returned %d QIDs", len(r.Qids))
			}
			x.probe(n, "C16")
			x.probeState(n, "C16 C17")
			x.c.Label("clone onto itself")
		case used != nil:
			x.outcome(r, mustFail, "", "C16 C17", "the new fid is in use")
			both()
			x.c.Label("walk onto a fid in use")
		default:
			if !isOK(r) {
				x.goneBad(f, M{T: tTwalk, Fid: n, Fid2: 98}, isOK)
			}
			x.outcome(r, mustOK, "C16", "", "")
			if len(r.Qids) != 0 {
				x.fail("C16", "a walk of no elements returned %d QIDs", len(r.Qids))
			}
			x.fids[m] = &mfid{path: f.path, maybeOpen: false}
			x.probe(m, "C16")
			x.probeState(m, "C16 C17")
			x.probeState(n, "C16 C17")
			x.c.Label("clone")
			if f.open {
				x.c.Label("clone of an open fid")
			}
		}
		return
	}
	if len(stops) == 0 {
		x.outcome(r, mustFail, "", "C16", "the first element does not exist")
		both()
		x.c.Label("walk fails at once")
		return
	}
	qids := func() {
		if len(r.Qids) != len(stops) {
			x.fail("C16", "a walk of %q reaches %q but returned %d QIDs", names, stops, len(r.Qids))
		}
		for i, q := range r.Qids {
			x.checkQid(q, stops[i], "C16 C19", true)
		}
	}
	if len(stops) < len(names) {
		if m != n && used != nil || f.open && m == n {
			if isOK(r) {
				qids()
			}
		} else {
			x.outcome(r, mustOK, "C16", "", "")
			qids()
		}
		both()
		x.c.Label("walk fails later")
		return
	}
	switch {
	case m != n && used != nil:
		x.outcome(r, mustFail, "", "C16 C17", "the new fid is in use")
		both()
		x.c.Label("walk onto a fid in use")
	case f.open:
		// 9P forbids it; what it does must be right all the same.
		if x.outcome(r, either, "", "", "") {
			qids()
			x.fids[m] = &mfid{path: stops[len(stops)-1]}
		}
		both()
	default:
		if !isOK(r) {
			x.goneBad(f, M{T: tTwalk, Fid: n, Fid2: 98, Names: names}, isOK)
		}
		x.outcome(r, mustOK, "C16", "", "")
		qids()
		x.fids[m] = &mfid{path: stops[len(stops)-1]}
		both()
		if m == n {
			x.c.Label("walk onto itself")
		}
		x.c.Label("walk succeeds")
		for _, nm := range names {
			if nm == ".." {
				x.c.Label("walk with ..")
				break
			}
		}
	}
}

func (x *fsx) doOpen(op Op) {
	n := x.pickFid(op.FS, op.F)
	f := x.fids[n]
	if f != nil && (f.stale || x.tree[f.path] == nil || x.tree[f.path].kind == 'l') {
		return
	}
	mode := op.Mode
	acc, trunc := mode&3, mode&0x10 != 0
	exp, why := mustOK, ""
	var nd *node
	if f != nil {
		nd = x.tree[f.path]
		var flags = []int{os.O_RDONLY, os.O_WRONLY, os.O_RDWR, os.O_RDONLY}[acc]
		switch {
		case f.maybeOpen:
			exp = either
		case f.open:
			exp, why = mustFail, "the fid is open already"
		case nd.kind == 'd' && (acc == 1 || acc == 2 || trunc):
			exp, why = mustFail, "it is a directory"
		case !x.canOpen(f.path, flags) || trunc && !x.canOpen(f.path, os.O_WRONLY):
			exp, why = mustFail, "the host's permissions do not allow it"
		case acc == 3 && (trunc || nd.perm&0111 == 0):
			exp = either
		}
		if f.maybeOpen && nd.kind == 'd' && (acc == 1 || acc == 2 || trunc) {
			exp, why = mustFail, "it is a directory"
		}
	} else {
		exp, why = mustFail, "the fid is not valid"
	}
	if mode&^0x13 != 0 && exp == mustOK {
		exp = either // bits that mean nothing here
	}
	if op.Fault > 0 && exp == mustOK {
		exp, why = mustFail, noFiles
		x.limit = &limit{what: rlimitNofile}
		defer x.faulted(op)
	}
	m := M{T: tTopen, Fid: n, Mode: mode}
	r := x.rpc(m)
	ft := "C15"
	if f == nil {
		ft = "C17"
	} else if f.open {
		ft = "C15 C17"
	}
	if !isOK(r) && exp == mustOK && !trunc {
		x.goneBad(f, m, isOK)
	}
	if x.outcome(r, exp, "C15", ft, why) {
		f.open, f.mode, f.maybeOpen = true, acc, false
		f.dr = nil
		if nd.kind == 'd' {
			f.dr = &dirRead{done: true, taint: true} // nothing read yet
		}
		x.checkQid(r.Qid, f.path, "C16 C19", true)
		if mode&^0x13 != 0 {
			x.c.Label("open with further mode bits")
		}
		if trunc {
			nd.data.truncate(0)
			x.taintDirs()
			x.c.Label("open with truncation")
		}
		x.c.Label("open mode %d", acc)
	} else {
		x.c.Label("open refused: %s", why)
		x.probe(n, "C15")
	}
	x.verify("open", "C15")
}

func (x *fsx) doRead(op Op) {
	n := x.pickFid(op.FS, op.F)
	f := x.fids[n]
	if f != nil && (f.stale || x.tree[f.path] == nil || f.maybeOpen) {
		return
	}
	var nd *node
	off := op.Off
	if f != nil {
		nd = x.tree[f.path]
		if nd.kind == 'l' {
			return
		}
		if op.Frac > 0 && nd.kind == 'f' {
			off = uint64(nd.data.size) / 16 * uint64(op.Frac)
		} else if op.Rel && nd.kind == 'f' {
			off = uint64(nd.data.size + int64(op.Off))
			if int64(off) < 0 {
				off = 0
			}
		}
	}
	if nd != nil && nd.kind == 'd' && f.open {
		x.readDir(op, n, f)
		return
	}
	cnt := op.N
	m := M{T: tTread, Fid: n, Off: off, N: cnt}
	r := x.rpc(m)
	ok := isOK(r)
	if ok && uint64(len(r.Data)) > uint64(cnt) {
		x.fail("C14 C22", "a read of %d bytes returned %d", cnt, len(r.Data))
	}
	if ok && uint32(11+len(r.Data)) > x.msize {
		x.fail("C22", "a read reply is %d bytes long, msize is %d", 11+len(r.Data), x.msize)
	}
	switch {
	case f == nil:
		x.outcome(r, mustFail, "", "C17 C15", "the fid is not valid")
	case !f.open:
		x.outcome(r, mustFail, "", "C15", "the fid is not open")
		x.c.Label("read refused: not open")
	case f.mode == 1:
		if cnt == 0 || off >= 1<<62 {
			break // the host may refuse it or not
		}
		x.outcome(r, mustFail, "", "C15", "the fid is open for writing only")
		x.c.Label("read refused: write only")
	case int32(cnt) < 0 || off >= 1<<62:
		// Either is fine, but wrong data is not.
		if ok && len(r.Data) > 0 {
			if off >= 1<<62 || !bytes.Equal(r.Data, nd.data.readAt(int64(off), int64(len(r.Data)))) {
				x.fail("C14", "a read at %d of %d bytes returned wrong data", off, cnt)
			}
		}
	default:
		// A huge file can have much more to offer than a message can carry.
		wantLen := nd.data.size - int64(off)
		if wantLen < 0 {
			wantLen = 0
		}
		if wantLen > int64(cnt) {
			wantLen = int64(cnt)
		}
		part := wantLen
		if most := int64(x.msize) + 24; part > most {
			part = most
		}
		want := nd.data.readAt(int64(off), part)
		good := func(r M) bool {
			if !isOK(r) || len(r.Data) > len(want) || !bytes.Equal(r.Data, want[:len(r.Data)]) {
				return false
			}
			if wantLen > 0 && len(r.Data) == 0 {
				return false
			}
			return int64(len(r.Data)) == wantLen || wantLen+24 > int64(x.msize)
		}
		if !good(r) {
			x.goneBad(f, m, good)
			if !ok {
				x.fail("C14 C15", "this must succeed but failed: %s", x.hist[len(x.hist)-1])
			}
			x.fail("C14", "read of %d bytes at %d of %s (%d bytes): %s (got / want)", cnt, off, f.path, nd.data.size, diffAt(r.Data, want))
		}
		switch {
		case wantLen == 0:
			x.c.Label("read at or past the end")
		case int64(len(r.Data)) < wantLen:
			x.c.Label("read cut by msize")
		default:
			x.c.Label("read data")
		}
		if nd.data.size > 1<<31 {
			x.c.Label("read of a huge file")
		}
	}
	x.verify("read", "")
}

// readDir reads from an open directory: at offset 0, or on from where the last
// read ended; other offsets mean nothing.
func (x *fsx) readDir(op Op, n uint32, f *mfid) {
	d := f.dr
	off := uint64(0)
	if op.Off != 0 && d != nil && !(d.done && d.taint && d.seen == nil) {
		off = d.off
	}
	if off == 0 && op.Off != 0 && d != nil && d.seen != nil && d.off == 0 {
		// Nothing came yet: this is a restart, too.
	}
	if off == 0 {
		d = &dirRead{seen: map[string]bool{}}
		f.dr = d
	}
	cnt := op.N & 0x7FFFFFFF
	r := x.rpc(M{T: tTread, Fid: n, Off: off, N: cnt})
	// What can still come, and how much room the largest of it needs.
	left, max := 0, 0
	for _, c := range x.children(f.path) {
		if !d.seen[c] {
			left++
			if s := 2 + (DirMsg{Name: Str(c), User: Str(x.user), Group: Str(x.user)}).size() + len(x.user); s > max {
				max = s // with room for a modifier name
			}
		}
	}
	room := int(cnt)
	if int(x.msize)-24 < room {
		room = int(x.msize) - 24
	}
	if !isOK(r) {
		if room >= max && !d.taint {
			x.fail("C18", "reading directory %s: %v", f.path, r)
		}
		d.taint = true
		return
	}
	if len(r.Data) > int(cnt) {
		x.fail("C18 C22", "a read of %d bytes of directory %s returned %d", cnt, f.path, len(r.Data))
	}
	if uint32(11+len(r.Data)) > x.msize {
		x.fail("C22", "a read reply is %d bytes long, msize is %d", 11+len(r.Data), x.msize)
	}
	d.off += uint64(len(r.Data))
	b := r.Data
	for len(b) > 0 {
		e, k, sz, ok := decodeDir(b)
		if !ok || !sz {
			x.fail("C18", "a read of directory %s does not return whole entries: % x", f.path, tailB(b))
		}
		b = b[k:]
		nm := string(e.Name)
		if d.taint {
			continue
		}
		p := join(f.path, nm)
		if x.tree[p] == nil {
			x.fail("C18", "directory %s lists %q, which does not exist", f.path, nm)
		}
		if d.seen[nm] {
			x.fail("C18", "directory %s lists %q twice", f.path, nm)
		}
		d.seen[nm] = true
		x.checkDir(e, p, "C18")
		x.c.Label("directory entry")
	}
	if d.taint {
		return
	}
	if len(r.Data) == 0 {
		if left > 0 && room >= max {
			x.fail("C18", "directory %s: a read of %d bytes returned nothing, but %d entries (of up to %d bytes) have not been listed", f.path, cnt, left, max)
		}
		if left > 0 {
			x.c.Label("entry does not fit")
		} else {
			d.done = true
			x.c.Label("directory listed to the end")
		}
	}
}

// doFetch makes a new fid for some file of kind S of the tree and, if N is 1,
// opens it.
func (x *fsx) doFetch(op Op) {
	var c []string
	for p, n := range x.tree {
		if (op.S == "" || op.S[0] == n.kind) && within1(x.top(), p) {
			c = append(c, p)
		}
	}
	if len(c) == 0 {
		return
	}
	sort.Strings(c)
	k := op.G
	if k < 0 {
		k = -k
	}
	p := c[k%len(c)]
	var names []Str
	for q := p; q != x.top(); q = parent(q) {
		names = append([]Str{Str(path.Base(q))}, names...)
	}
	if len(names) > 16 {
		return
	}
	n := int(x.pickFid("u", op.F))
	if x.fids[uint32(n)] != nil {
		x.do(Op{K: "clunk", F: n})
	}
	x.do(Op{K: "attach", F: n})
	if x.fids[uint32(n)] == nil {
		return
	}
	if len(names) > 0 {
		x.do(Op{K: "walk", F: n, GS: "=", Names: names})
	}
	if op.N == 1 && x.fids[uint32(n)] != nil {
		x.do(Op{K: "open", F: n, Mode: op.Mode})
	}
}

// top is the path below which all is done.
func (x *fsx) top() string {
	if x.base == "" {
		return "/"
	}
	return x.base
}

// doList reads a directory to its end, with other reads of it in between at
// the listing's own offset that are too small for any entry, and restarts.
func (x *fsx) doList(op Op) {
	n := x.pickFid(op.FS, op.F)
	f := x.fids[n]
	if f == nil || f.stale || x.tree[f.path] == nil || x.tree[f.path].kind != 'd' || !f.open {
		return
	}
	if op.Fault == 1 && x.anyQid {
		// For a moment the directory can not be opened, as a variant that
		// opens it again at the beginning has to. Later it can.
		x.c.Must(os.Chmod(x.host(f.path), 0))
		x.logf("host: %s has no permissions", f.path)
		x.rpc(M{T: tTread, Fid: n, N: op.N & 0x7FFFFFFF})
		x.c.Must(os.Chmod(x.host(f.path), os.FileMode(x.tree[f.path].perm)))
		x.logf("host: %s has its permissions back", f.path)
		x.c.Label("a directory can not be opened for a moment")
		x.checkFds("a read of a directory that can not be opened")
	}
	x.readDir(Op{N: op.N}, n, f)
	restart := op.Mode == 1
	for i := 0; i < 2000 && !f.dr.done && !f.dr.taint; i++ {
		cnt := op.N
		if op.Mode == 2 && i%3 == int(op.Off)%3 {
			cnt = uint32(op.Off) % 60
		} else if i > 0 && f.dr.off == f.dr.last {
			cnt = 8192 // an entry did not fit
		}
		f.dr.last = f.dr.off
		if restart && uint64(i) == op.Off%8 {
			restart = false
			x.readDir(Op{N: op.N}, n, f)
			continue
		}
		x.readDir(Op{Off: 1, N: cnt}, n, f)
		if room := int(x.msize) - 24; room < 400 && f.dr.off == f.dr.last && cnt == 8192 {
			break // it may be too large for this session
		}
	}
}

func (x *fsx) doWrite(op Op) {
	n := x.pickFid(op.FS, op.F)
	f := x.fids[n]
	if f != nil && (f.stale || x.tree[f.path] == nil || f.maybeOpen) {
		return
	}
	data := op.Data.Expand()
	if len(data) > 1<<20 {
		data = data[:1<<20]
	}
	off := op.Off
	var nd *node
	if f != nil {
		nd = x.tree[f.path]
		if nd.kind == 'l' {
			return
		}
		if op.Frac > 0 && nd.kind == 'f' {
			off = uint64(nd.data.size) / 16 * uint64(op.Frac)
		} else if op.Rel && nd.kind == 'f' {
			off = uint64(nd.data.size + int64(op.Off))
			if int64(off) < 0 {
				off = 0
			}
		}
	}
	if off > 1<<40 && off < 1<<63 {
		off &= 1<<40 - 1
	}
	m := M{T: tTwrite, Fid: n, Off: off, Data: data}
	fits := -1
	if op.Fault > 0 && f != nil && f.open && (f.mode == 1 || f.mode == 2) && off < 1<<62 && len(data) > 0 {
		fits = op.Fault % len(data)
		x.limit = &limit{what: rlimitFsize, to: off + uint64(fits)}
		defer x.faulted(op)
	}
	r := x.rpc(m)
	switch {
	case fits >= 0:
		x.shortWrite(r, f, nd, data, off, fits)
	case f == nil:
		x.outcome(r, mustFail, "", "C17 C15", "the fid is not valid")
	case !f.open:
		x.outcome(r, mustFail, "", "C15", "the fid is not open")
		x.c.Label("write refused: not open")
	case f.mode == 0 || f.mode == 3:
		if len(data) == 0 {
			break
		}
		x.outcome(r, mustFail, "", "C15", "the fid is open for reading only")
		x.c.Label("write refused: read only")
	case off >= 1<<63:
		if len(data) > 0 {
			x.outcome(r, mustFail, "", "C14", "there is no such offset")
		}
	default:
		if !isOK(r) {
			x.goneBad(f, m, isOK)
		}
		x.outcome(r, mustOK, "C14 C15", "", "")
		if int64(r.N) > int64(len(data)) || len(data) > 0 && r.N == 0 {
			x.fail("C14", "a write of %d bytes reported %d", len(data), int32(r.N))
		}
		nd.data.writeAt(data[:r.N], int64(off))
		x.taintDirs()
		if len(data) > 0 {
			x.c.Label("write data")
		}
		if off > 1<<32 {
			x.c.Label("write at a huge offset")
		}
	}
	ex := ""
	if f == nil {
		ex = "C17"
	} else if !f.open || f.mode == 0 || f.mode == 3 {
		ex = "C15"
	}
	x.verify("write", ex)
}

func (x *fsx) doClunk(op Op) {
	n := x.pickFid(op.FS, op.F)
	f := x.fids[n]
	r := x.rpc(M{T: tTclunk, Fid: n})
	if f == nil {
		x.outcome(r, mustFail, "", "C17", "the fid is not valid")
	} else {
		x.outcome(r, mustOK, "C17", "", "")
		x.unbind(n, "clunked")
		x.probe(n, "")
		x.checkFds("a clunk")
		x.c.Label("clunk open=%v", f.open)
	}
	x.verify("clunk", "")
}

func (x *fsx) doRemove(op Op) {
	n := x.pickFid(op.FS, op.F)
	f := x.fids[n]
	if f != nil && f.stale {
		return
	}
	exp, why := mustOK, ""
	if f == nil {
		exp, why = mustFail, "the fid is not valid"
	} else {
		nd := x.tree[f.path]
		switch {
		case f.path == "/" || f.path == x.base:
			exp, why = mustFail, "it is the root"
			if f.path != "/" {
				return
			}
		case nd.kind == 'd' && len(x.children(f.path)) > 0:
			exp, why = mustFail, "the directory is not empty"
		case !x.canWriteDir(parent(f.path)):
			exp, why = mustFail, "the host's permissions do not allow it"
		}
	}
	if f != nil && exp != mustFail {
		x.forget(f.path)
	}
	r := x.rpc(M{T: tTremove, Fid: n})
	ft := "C21"
	if f == nil {
		ft = "C17"
	}
	if f != nil && f.path == "/" {
		ft = "C13 C21"
	}
	ok := x.outcome(r, exp, "C21", ft, why)
	if f != nil {
		x.unbind(n, "removed")
		if ok {
			x.staleBelow(f.path, nil)
			delete(x.tree, f.path)
			x.taintDirs()
			x.c.Label("remove succeeds")
		} else {
			x.c.Label("remove refused: %s", why)
		}
		x.checkFds("a remove")
	}
	x.probe(n, "C21")
	x.verify("remove", "")
}

func (x *fsx) doStat(op Op) {
	n := x.pickFid(op.FS, op.F)
	f := x.fids[n]
	if f != nil && (f.stale || x.tree[f.path] == nil) {
		return
	}
	m := M{T: tTstat, Fid: n}
	r := x.rpc(m)
	if f == nil {
		x.outcome(r, mustFail, "", "C17 C19", "the fid is not valid")
	} else {
		if !isOK(r) {
			x.goneBad(f, m, isOK)
		}
		x.outcome(r, mustOK, "C19", "", "")
		d := x.parseStat(r.Data, "C19")
		if x.c.Prop == "C17" {
			x.probe(n, "")
		}
		x.checkDir(d, f.path, "C19")
		x.c.Label("stat of %c", x.tree[f.path].kind)
	}
	x.verify("stat", "")
}

func (x *fsx) doCreate(op Op) {
	n := x.pickFid(op.FS, op.F)
	f := x.fids[n]
	if f != nil && (f.stale || x.tree[f.path] == nil || x.tree[f.path].kind == 'l') {
		return
	}
	nm := "a"
	if f != nil {
		nm = x.name(f.path, op.S)
	} else {
		nm = x.name("/", op.S)
	}
	dir := op.Perm&0x80000000 != 0
	perm := op.Perm & 0777
	if dir {
		perm |= 0500
	}
	acc := op.Mode & 3
	exp, why := mustOK, ""
	var p string
	var old *node
	if f == nil {
		exp, why = mustFail, "the fid is not valid"
	} else {
		p = join(f.path, nm)
		old = x.tree[p]
		switch {
		case nm == "" || nm == "." || nm == ".." || strings.Contains(nm, "/"):
			exp, why = mustFail, "the name is not allowed"
			p = f.path
		case f.open:
			exp, why = mustFail, "the fid is open"
		case x.tree[f.path].kind != 'd':
			exp, why = mustFail, "the fid is not a directory"
		case len(nm) > 255 || strings.Contains(nm, "\x00"):
			exp, why = mustFail, "the host does not allow the name"
		case old != nil && old.kind == 'l':
			return
		case dir && old != nil:
			exp, why = mustFail, "it exists"
		case old != nil && old.kind == 'd':
			exp, why = mustFail, "it is a directory"
		case old != nil:
			fl := []int{os.O_WRONLY, os.O_WRONLY, os.O_RDWR, os.O_WRONLY}[acc]
			if !x.canOpen(p, fl) || acc != 1 && !x.canOpen(p, os.O_RDONLY) {
				exp, why = mustFail, "the host's permissions do not allow it"
			}
		case !x.canWriteDir(f.path):
			exp, why = mustFail, "the host's permissions do not allow it"
		}
		if exp == mustOK && f.maybeOpen {
			exp = either
		}
	}
	if op.Mode&^0x13 != 0 && exp == mustOK {
		exp = either
	}
	if op.Fault > 0 && exp == mustOK && !dir {
		exp, why = mustFail, noFiles
		x.limit = &limit{what: rlimitNofile}
		defer x.faulted(op)
	}
	m := M{T: tTcreate, Fid: n, S1: nm, Perm: perm | op.Perm&0x80000000, Mode: op.Mode}
	r := x.rpc(m)
	ft := "C21"
	if f == nil {
		ft = "C17 C21"
	} else if f.open {
		ft = "C21 C17"
	}
	if !isOK(r) && exp == mustOK {
		x.goneBad(f, m, isOK)
	}
	if x.outcome(r, exp, "C21", ft, why) {
		if old != nil {
			old.data.truncate(0)
			x.c.Label("create over a file")
		} else {
			nd := &node{kind: 'f', perm: perm &^ x.umask, data: newSparse(nil)}
			if dir {
				nd.kind, nd.data = 'd', nil
			}
			x.tree[p] = nd
			x.c.Label("create %c", nd.kind)
		}
		*f = mfid{path: p}
		if dir {
			f.maybeOpen = true
		} else {
			f.open, f.mode = true, acc
		}
		x.taintDirs()
		x.verify("create", "C21")
		x.checkQid(r.Qid, p, "C19 C21", true)
		x.probe(n, "C21")
		if !dir && op.N&1 != 0 {
			// It is open in the mode asked for.
			exp, why := mustOK, ""
			if acc == 1 {
				exp, why = mustFail, "it was created for writing"
			}
			r := x.rpc(M{T: tTread, Fid: n, N: 10})
			if x.outcome(r, exp, "C21", "C15 C21", why) && len(r.Data) > 0 {
				x.fail("C21", "a new file has contents %q", r.Data)
			}
			x.c.Label("created file is read")
		}
		if !dir && op.N&2 != 0 {
			exp, why := mustOK, ""
			if acc != 1 && acc != 2 {
				exp, why = mustFail, "it was created for reading"
			}
			if x.outcome(x.rpc(M{T: tTwrite, Fid: n, Off: 1, Data: []byte("cr")}), exp, "C21", "C15 C21", why) {
				x.tree[p].data.writeAt([]byte("cr"), 1)
				x.taintDirs()
				x.verify("create", "C21")
			}
			x.c.Label("created file is written")
		}
		return
	}
	x.c.Label("create refused: %s", why)
	x.verify("create", "C21")
	x.probe(n, "C21")
}

func (x *fsx) doWstat(op Op) {
	n := x.pickFid(op.FS, op.F)
	f := x.fids[n]
	if f != nil && (f.stale || x.tree[f.path] == nil || x.tree[f.path].kind == 'l') {
		return
	}
	w := op.W
	d := DirMsg{Type: 0xFFFF, Dev: 0xFFFFFFFF, Qid: QID{0xFF, 0xFFFFFFFF, ^uint64(0)}, Mode: 0xFFFFFFFF, Atime: 0xFFFFFFFF, Mtime: 0xFFFFFFFF, Length: ^uint64(0), User: w.User, Group: w.Group}
	var nd *node
	var from, to string
	exp, why := mustOK, ""
	hard := true // a refusal must not have changed anything
	hasName := w.Name != ""
	changes := 0
	if f != nil {
		nd = x.tree[f.path]
		from = f.path
	}
	if w.SetMode {
		changes++
		d.Mode = w.Mode & 0777
		if nd != nil && nd.kind == 'd' {
			d.Mode |= 0x80000000 | 0500
		}
	}
	if w.SetLen {
		changes++
		d.Length = w.Len
		if d.Length == ^uint64(0) {
			d.Length = 0
		}
	}
	if w.SetMt {
		changes++
		if d.Mtime = w.Mt; d.Mtime == 0xFFFFFFFF {
			d.Mtime = 0
		}
	}
	if w.SetAt {
		changes++
		if d.Atime = w.At; d.Atime == 0xFFFFFFFF {
			d.Atime = 0
		}
	}
	soft := func(s string) {
		if exp == mustOK {
			exp, why, hard = mustFail, s, false
		}
	}
	if f == nil {
		exp, why = mustFail, "the fid is not valid"
		d.Name = w.Name
	} else {
		if hasName {
			changes++
			s := string(w.Name)
			abs := strings.HasPrefix(s, "/")
			if abs {
				var cl []string
				p := x.base
				for _, e := range strings.Split(s[1:], "/") {
					q := p
					if q == "" {
						q = "/"
					}
					e = x.name(q, Str(e))
					if e == "" || e == "." || e == ".." {
						e = "a"
					}
					cl = append(cl, e)
					p = join(q, e)
				}
				to = p
				d.Name = Str(p)
			} else {
				s = x.name(parent(f.path), w.Name)
				if s == "." || s == ".." || strings.Contains(s, "/") {
					s = "a"
				}
				to = join(parent(f.path), s)
				d.Name = Str(s)
			}
			if f.path == x.base && x.base != "" {
				return
			}
		}
		if w.User != "" || w.Group != "" {
			exp, why = mustFail, "it would change owner or group"
		}
		if hasName && exp == mustOK {
			tn := x.tree[to]
			tp := x.tree[parent(to)]
			sp := parent(from)
			switch {
			case from == "/":
				exp, why = mustFail, "the root can not be renamed"
			case tn != nil && tn.kind == 'l':
				return
			case tn != nil && tn.kind == 'd' && to != from:
				exp, why = mustFail, "the new name is a directory"
			case to == from && nd.kind == 'd':
				exp, hard = either, false
			case to == from:
			case tp == nil || tp.kind != 'd':
				soft("there is no directory for the new name")
			case len(path.Base(to)) > 255 || strings.Contains(to, "\x00"):
				soft("the host does not allow the name")
			case nd.kind == 'd' && within1(from, to):
				soft("a directory can not be moved into itself")
			case tn != nil && nd.kind == 'd':
				soft("a directory can not replace a file")
			case !x.canWriteDir(sp) || !x.canWriteDir(parent(to)):
				soft("the host's permissions do not allow it")
			case nd.kind == 'd' && sp != parent(to) && (!x.canWriteDir(from) || w.SetMode && d.Mode&0300 != 0300):
				exp, hard = either, false
			}
		}
		if w.SetLen && exp == mustOK {
			switch {
			case nd.kind == 'd':
				soft("a directory has no length")
			case d.Length >= 1<<63:
				soft("there is no such length")
			case d.Length > 1<<40:
				d.Length &= 1<<40 - 1
				fallthrough
			default:
				now, then := x.canOpen(from, os.O_WRONLY), nd.perm&0200 != 0
				if w.SetMode {
					then = d.Mode&0200 != 0
				}
				if now && !then || !now && then {
					exp, hard = either, false
				} else if !now {
					soft("the host's permissions do not allow it")
				}
			}
		}
	}
	blob := encodeDir(d)
	if w.Cut > 0 && w.Cut < len(blob) {
		blob = blob[:len(blob)-w.Cut]
		exp, why, hard = mustFail, "the entry is incomplete", true
	}
	var before os.FileInfo
	if f != nil {
		var err error
		before, err = os.Lstat(x.host(from))
		x.c.Must(err)
		if hasName && exp != mustFail && to != from && x.tree[to] != nil {
			x.forget(to)
		}
	}
	if op.Fault > 0 && exp == mustOK && w.SetLen && changes == 1 && int64(d.Length) > nd.data.size {
		exp, why = mustFail, "the host does not allow files of that length"
		x.limit = &limit{what: rlimitFsize, to: uint64(nd.data.size)}
		defer x.faulted(op)
	}
	r := x.rpc(M{T: tTwstat, Fid: n, Data: blob})
	ft := "C20"
	if f == nil {
		ft = "C17 C20"
	}
	var after os.FileInfo
	var err error
	if f != nil {
		// Now, before verify reads it.
		at := from
		if isOK(r) && hasName {
			at = to
		}
		after, err = os.Lstat(x.host(at))
	}
	ok := x.outcome(r, exp, "C20", ft, why)
	if f == nil {
		x.verify("wstat", "C17")
		return
	}
	if !ok {
		x.c.Label("wstat refused: %s", why)
		if hard {
			if err != nil {
				x.fail("C20", "a wstat that is refused removed the file: %v", err)
			}
			b, a := before.Sys().(*syscall.Stat_t), after.Sys().(*syscall.Stat_t)
			if b.Mtim != a.Mtim || b.Atim != a.Atim {
				x.fail("C20", "a wstat that is refused changed the times of %s", from)
			}
			x.verify("wstat", "C20")
			x.probe(n, "C20")
			return
		}
		// The host refused a part of it; the rest may have been done.
		if changes > 1 || hasName {
			x.load()
			for _, k := range x.sessions() {
				for _, g := range k.fids {
					if g.path != "/" && (x.tree[g.path] == nil || hasName && (within1(from, g.path) || within1(to, g.path))) {
						g.stale = true
					}
				}
			}
			for i := range x.qids {
				delete(x.qids, i)
			}
			for i := range x.vers {
				delete(x.vers, i)
			}
			x.taintDirs()
			return
		}
		x.verify("wstat", "C20")
		x.probe(n, "C20")
		return
	}
	x.taintDirs()
	if w.SetMode {
		nd.perm = d.Mode & 0777
		x.c.Label("wstat mode")
	}
	if w.SetLen {
		nd.data.truncate(int64(d.Length))
		x.c.Label("wstat length")
	}
	if hasName && to != from {
		if x.tree[to] != nil {
			x.staleBelow(to, f)
			delete(x.tree, to)
			x.c.Label("wstat name, replaces a file")
		}
		moved := map[string]*node{}
		for p, q := range x.tree {
			if within1(from, p) {
				moved[p] = q
			}
		}
		x.staleBelow(from, f)
		for p := range moved {
			delete(x.tree, p)
		}
		for p, q := range moved {
			x.tree[to+p[len(from):]] = q
		}
		f.path = to
		x.c.Label("wstat name of %c", nd.kind)
		if parent(to) != parent(from) {
			x.c.Label("wstat name to another directory")
		}
	}
	x.verify("wstat", "C20")
	x.c.Must(err)
	b, a := before.Sys().(*syscall.Stat_t), after.Sys().(*syscall.Stat_t)
	if b.Ino != a.Ino {
		x.fail("C20", "after the wstat, %s is not the file it was", f.path)
	}
	if w.SetMt {
		if int64(a.Mtim.Sec) != int64(d.Mtime) {
			x.fail("C20", "the modification time of %s is %d, want %d", f.path, a.Mtim.Sec, d.Mtime)
		}
		x.c.Label("wstat mtime")
	} else if !w.SetLen && a.Mtim != b.Mtim {
		x.fail("C20", "the modification time of %s changed from %v to %v, which was not asked for", f.path, b.Mtim, a.Mtim)
	}
	if w.SetAt {
		if int64(a.Atim.Sec) != int64(d.Atime) {
			x.fail("C20", "the access time of %s is %d, want %d", f.path, a.Atim.Sec, d.Atime)
		}
		x.c.Label("wstat atime")
	} else if a.Atim != b.Atim {
		x.fail("C20", "the access time of %s changed from %v to %v, which was not asked for", f.path, b.Atim, a.Atim)
	}
	if changes > 1 {
		x.c.Label("wstat of several attributes")
	}
	if changes == 0 {
		x.c.Label("wstat of nothing")
	}
	x.probe(n, "C20")
}

// doHost does something on the host, behind the server's back.
func (x *fsx) doHost(op Op) {
	// S is a path below the base.
	p := x.base
	if p == "" {
		p = "/"
	}
	for _, s := range op.Names {
		nm := x.name(p, s)
		if nm == "" || nm == "." || nm == ".." || strings.Contains(nm, "/") || strings.Contains(nm, "\x00") || len(nm) > 255 {
			nm = "a"
		}
		nd := x.tree[p]
		if nd == nil || nd.kind != 'd' {
			return
		}
		p = join(p, nm)
	}
	if p == "/" || p == x.base {
		return
	}
	nd := x.tree[p]
	if up := x.tree[parent(p)]; up == nil || up.kind != 'd' {
		return
	}
	h := x.host(p)
	switch op.K {
	case "hmkdir":
		if nd != nil || !x.canWriteDir(parent(p)) {
			return
		}
		perm := op.Perm&0777 | 0500
		x.c.Must(os.Mkdir(h, 0700))
		x.c.Must(os.Chmod(h, os.FileMode(perm)))
		x.tree[p] = &node{kind: 'd', perm: perm}
	case "hmk":
		if nd != nil || !x.canWriteDir(parent(p)) {
			return
		}
		perm := op.Perm & 0777
		b := op.Data.Expand()
		x.c.Must(os.WriteFile(h, b, 0600))
		x.c.Must(os.Chmod(h, os.FileMode(perm)))
		x.tree[p] = &node{kind: 'f', perm: perm, data: newSparse(b)}
	case "hmany":
		if nd == nil || nd.kind != 'd' || op.N > 5000 || !x.canWriteDir(p) {
			return
		}
		for i := 0; i < int(op.N); i++ {
			q := join(p, fmt.Sprintf("m%d", i))
			if x.tree[q] == nil {
				x.c.Must(os.WriteFile(x.host(q), nil, 0600))
				x.tree[q] = &node{kind: 'f', perm: 0600, data: newSparse(nil)}
			}
		}
	case "hlink":
		if nd != nil || !x.canWriteDir(parent(p)) {
			return
		}
		x.c.Must(os.Symlink("nowhere", h))
		x.tree[p] = &node{kind: 'l', link: "nowhere"}
	case "hwrite":
		if nd == nil || nd.kind != 'f' || !x.canOpen(p, os.O_WRONLY) {
			return
		}
		b := op.Data.Expand()
		f, err := os.OpenFile(h, os.O_WRONLY, 0)
		x.c.Must(err)
		off := int64(op.Off % 10000)
		_, err = f.WriteAt(b, off)
		f.Close()
		x.c.Must(err)
		nd.data.writeAt(b, off)
	case "htouch":
		if nd == nil || nd.kind == 'l' {
			return
		}
		// within 40 days of a fixed time, in milliseconds
		t := time.Unix(1600000000, 0).Add(time.Duration(op.Off%(40*24*3600*1000-1)) * time.Millisecond)
		x.c.Must(os.Chtimes(h, time.Unix(1500000000+int64(op.N%1000), 0), t))
	case "hchmod":
		if nd == nil || nd.kind == 'l' {
			return
		}
		perm := op.Perm & 0777
		if nd.kind == 'd' {
			perm |= 0500
		}
		x.c.Must(os.Chmod(h, os.FileMode(perm)))
		nd.perm = perm
	case "hrm":
		if nd == nil || nd.kind == 'd' && len(x.children(p)) > 0 || !x.canWriteDir(parent(p)) {
			return
		}
		x.forget(p)
		x.c.Must(os.Remove(h))
		x.staleBelow(p, nil)
		delete(x.tree, p)
	default:
		x.c.Broken("unknown operation %q", op.K)
	}
	x.taintDirs()
	x.logf("host: %s %s %#o", op.K, p, op.Perm)
	if x.conn != nil {
		x.c.Label("host changes")
	}
}
