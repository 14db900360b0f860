package main

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
)

// C13: containment. The exported root lies several levels deep in the scratch
// directory of the case, with decoys on every level around it. All of this runs
// as an unprivileged user; climbs are bounded so that even a server without any
// containment stays inside the scratch directory.

const (
	c13Depth = 6 // levels of the root below the scratch directory
	c13Ups   = 5 // at most this many climbs in the history of a fid
)

type opC13 struct {
	K     string
	F, G  int
	Names []Str
	S     Str
	Perm  uint32
	Mode  uint8
	N     uint32
	Data  Blob
	W     WOp
}

type planC13 struct {
	Slash int `json:",omitempty"`
	Debug bool
	Deep  int // the root's own name is one of several
	Bare  bool `json:",omitempty"` // the root is empty at first
	Ops   []opC13
}

var c13Roots = []string{"root", "a", "x y", "..r", "r."}

// c13Elem: pieces of names. "\x02p" stands for the absolute path of p.
func (g *G) c13Elem() Str {
	switch g.W(30, 22, 10, 8, 6, 8, 6) {
	case 0:
		return pick(g, Str("a"), "b", "f", "sub", "new", "secret", "root", "root2", "rootsecret")
	case 1:
		return ".."
	case 2:
		return pick(g, Str("../secret"), "../root2", "../root2/secret", "../rootsecret", "../../secret", "../out", "../../../secret", "../root/../secret", "../a", "../new")
	case 3:
		return pick(g, Str("a/.."), "a/../..", "a/../../secret", "sub/../../secret", "./..", "../.", "../", "/..", "/../secret", "/../new", "/../out/new", "..//secret", "sub/../../new", ".././../new", "a/b/../../../new")
	case 4:
		return pick(g, Str("."), "", "/", "//", "./.", "...", "..a", "/.", "a//b")
	case 5: // absolute, on the host
		return "\x02" + pick(g, Str(""), "secret", "l1", "l1/secret", "l1/l2", "l1/l2/secret", "new", "l1/l2/l3/out", "l1/l2/l3/new", "l1/l2/l3/l4/root2", "\x03", "\x03/secret", "\x03/../secret", "\x03/a", "\x03/../new")
	}
	return pick(g, Str("..\x00"), "..\\secret", "%2e%2e", "a\x00/../../secret", "..;", "../"+g.Str(6), "\xc0\xae\xc0\xae")
}

func (g *G) c13Name() Str {
	s := g.c13Elem()
	for g.P(20) {
		s += "/" + g.c13Elem()
	}
	return s
}

func genC13(g *G) interface{} {
	p := &planC13{Debug: g.P(8), Deep: g.N(len(c13Roots))}
	if g.P(40) {
		p.Slash = g.N(6)
	}
	rm := 8
	if p.Bare = g.P(12); p.Bare {
		rm = 30
	}
	for n := g.R(2, 20); n > 0; n-- {
		op := opC13{F: g.N(6), G: g.N(6)}
		switch g.W(12, 30, 14, 14, 8, 6, rm, 5, 14) {
		case 0:
			op.K = "attach"
			op.S = g.c13Name()
			if g.P(30) {
				op.S = ""
			}
		case 1:
			op.K = "walk"
			for k := g.R(1, 4); k > 0; k-- {
				op.Names = append(op.Names, g.c13Name())
			}
			if g.P(20) {
				op.G = op.F
			}
		case 2:
			op.K, op.Mode = "open", pick(g, uint8(0), 0, 0, 1, 2, 0x11, 0x12)
		case 3:
			op.K, op.S, op.Perm, op.Mode = "create", g.c13Name(), 0644, pick(g, uint8(0), 1, 2)
			if g.P(35) {
				op.Perm = 0x800001ED
			}
		case 4:
			op.K, op.N = "read", 8000
		case 5:
			op.K, op.Data = "write", Blob{Lit: "WRITTEN", N: g.N(10)}
		case 6:
			op.K = "remove"
		case 7:
			op.K = pick(g, "stat", "clunk")
		case 8:
			op.K = "wstat"
			if g.P(75) {
				op.W.Name = g.c13Name()
				if g.P(25) {
					op.W.Name = pick(g, Str("/../"), "/../../", "/a/../../", "/../../../") + pick(g, Str("secret"), "new", "out", "root2", "out/new", "root2/new", "out/secret")
				}
			}
			if g.P(30) {
				op.W.SetMode, op.W.Mode = true, pick(g, uint32(0600), 0777, 0)
			}
			if g.P(20) {
				op.W.SetLen = true
			}
			if g.P(10) {
				op.W.SetMt, op.W.Mt = true, 12345
			}
		}
		p.Ops = append(p.Ops, op)
	}
	return p
}

type ent struct {
	desc string
	ino  uint64
}

// snap describes all below dir, except what lies below skip.
func snap(c *Ctx, dir, skip string) map[string]ent {
	m := map[string]ent{}
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		if p == skip {
			return filepath.SkipDir
		}
		d := fmt.Sprintf("%v", fi.Mode())
		st := fi.Sys().(*syscall.Stat_t)
		if fi.Mode().IsRegular() {
			b, _ := os.ReadFile(p)
			d += fmt.Sprintf(" %v %q", st.Mtim, b)
		} else if p != dir {
			d += fmt.Sprintf(" %v", st.Mtim)
		}
		m[p] = ent{d, st.Ino}
		return nil
	})
	return m
}

func snapDiff(a, b map[string]ent) string {
	var r []string
	for p, x := range a {
		if y, ok := b[p]; !ok {
			r = append(r, p+" is gone")
		} else if x != y {
			r = append(r, fmt.Sprintf("%s changed from %v to %v", p, x, y))
		}
	}
	for p := range b {
		if _, ok := a[p]; !ok {
			r = append(r, p+" is new")
		}
	}
	sort.Strings(r)
	return strings.Join(r, "; ")
}

func runC13(c *Ctx, pl interface{}) {
	p := pl.(*planC13)
	base := filepath.Join(c.Dir, "t")
	secret := 0
	decoys := func(d string) {
		secret++
		c.Must(os.WriteFile(filepath.Join(d, "secret"), []byte(fmt.Sprintf("SECRET-%d", secret)), 0666))
		c.Must(os.Chmod(filepath.Join(d, "secret"), 0666))
		c.Must(os.Mkdir(filepath.Join(d, "out"), 0777))
		c.Must(os.WriteFile(filepath.Join(d, "out", "secret"), []byte(fmt.Sprintf("SECRET-%d-out", secret)), 0666))
	}
	name := c13Roots[0]
	if p.Deep > 0 && p.Deep < len(c13Roots) {
		name = c13Roots[p.Deep]
	}
	d := base
	var path []string
	for i := 0; i < c13Depth; i++ {
		if i == c13Depth-1 {
			path = append(path, name)
		} else {
			path = append(path, fmt.Sprintf("l%d", i+1))
		}
	}
	c.Must(os.Mkdir(d, 0755))
	decoys(d)
	for _, e := range path[:len(path)-1] {
		d = filepath.Join(d, e)
		c.Must(os.Mkdir(d, 0755))
		decoys(d)
	}
	// Neighbours of the root whose names begin as its does.
	for _, e := range []string{name + "2", name + "x"} {
		c.Must(os.Mkdir(filepath.Join(d, e), 0777))
		decoys(filepath.Join(d, e))
	}
	c.Must(os.WriteFile(filepath.Join(d, name+"secret"), []byte("SECRET-n"), 0666))
	root := filepath.Join(d, name)
	if p.Bare {
		c.Must(os.Mkdir(root, 0755))
		c.Label("empty root")
	} else {
		c.Must(os.MkdirAll(filepath.Join(root, "a", "b"), 0755))
		c.Must(os.MkdirAll(filepath.Join(root, "sub"), 0755))
		for _, f := range []string{"f", "a/f", "a/b/f", "sub/f"} {
			c.Must(os.WriteFile(filepath.Join(root, f), []byte("inside"), 0644))
		}
	}
	before := snap(c, base, root)
	// Creating, renaming or removing the root would show in its parent, whose
	// time stamps are part of the snapshot.
	rst, err := os.Lstat(root)
	c.Must(err)
	rino := rst.Sys().(*syscall.Stat_t).Ino
	outside := map[uint64]string{}
	for q, e := range before {
		outside[e.ino] = q
	}
	for q := c.Dir; ; q = filepath.Dir(q) {
		if st, err := os.Lstat(q); err == nil && st.Sys().(*syscall.Stat_t).Dev == rst.Sys().(*syscall.Stat_t).Dev {
			outside[st.Sys().(*syscall.Stat_t).Ino] = q
		}
		if q == "/" {
			break
		}
	}
	l := ufsListener(c, rootAs(root, p.Slash), "harvey", p.Debug)
	x := newFsx(c, root, "", "harvey")
	x.connect(l)
	ups := map[int]int{}
	count := func(s string) int {
		n := 0
		for _, e := range strings.FieldsFunc(s, func(r rune) bool { return r == '/' || r == '\\' }) {
			if strings.HasPrefix(e, "..") {
				n++
			}
		}
		return n
	}
	abs := false
	name1 := func(s Str) string {
		t := string(s)
		if i := strings.IndexByte(t, 2); i >= 0 {
			abs = true
			t = t[:i] + base + "/" + strings.TrimRight(t[i+1:], "/")
		}
		if i := strings.IndexByte(t, 3); i >= 0 {
			t = strings.Replace(t[:i]+root+t[i+1:], base+"/"+base, base, 1)
		}
		if len(t) > 60000 {
			t = t[:60000]
		}
		// Nothing absolute but within the scratch directory: other paths
		// would be real ones if containment failed.
		return t
	}
	// safeAbs tells whether s, taken as a host path or below any directory of
	// the case, stays in the scratch directory.
	// For an unprivileged user, names such as /../new are harmless on the host:
	// none of the generated ones exists there, and none can be made.
	safeAbs := func(s string) bool {
		if os.Getuid() != 0 && strings.HasPrefix(s, "/..") {
			t := strings.Split(filepath.Clean(s), "/")[1]
			return t == "secret" || t == "new" || t == "out" || t == "root2" || t == "rootsecret"
		}
		return !strings.HasPrefix(s, "/") || strings.HasPrefix(s, base) || count(s) == 0 && len(s) < 40
	}
	check := func(what string, r M) {
		leak := func(ino uint64) {
			if q, ok := outside[ino]; ok {
				c.Failf("a reply describes %s, outside the root %s: %v\nhistory:\n  %s", q, root, r, strings.Join(x.hist, "\n  "))
			}
		}
		switch r.T {
		case tRattach, tRopen, tRcreate:
			leak(r.Qid.P)
		case tRwalk:
			for _, q := range r.Qids {
				leak(q.P)
			}
		case tRstat:
			if e, _, _, ok := decodeDir(r.Data); ok {
				leak(e.Qid.P)
			}
		case tRread:
			if bytes.Contains(r.Data, []byte("SECRET")) {
				c.Failf("a read returns the contents of a file outside the root\nhistory:\n  %s", strings.Join(x.hist, "\n  "))
			}
			for b := r.Data; len(b) > 0; {
				e, k, _, ok := decodeDir(b)
				if !ok || k == 0 {
					break
				}
				leak(e.Qid.P)
				b = b[k:]
			}
		}
		if df := snapDiff(before, snap(c, base, root)); df != "" {
			c.Failf("%s changed something outside the root %s: %s\nhistory:\n  %s", what, root, df, strings.Join(x.hist, "\n  "))
		}
		st, err := os.Lstat(root)
		if err != nil || st.Sys().(*syscall.Stat_t).Ino != rino {
			c.Failf("%s: the root is gone\nhistory:\n  %s", what, strings.Join(x.hist, "\n  "))
		}
	}
	climbs, done := 0, 0
	do := func(m M) M {
		r := x.rpc(m)
		check(tname(m.T), r)
		return r
	}
	do(M{T: tTversion, N: 8192, S1: "9P2000"})
	do(M{T: tTattach, Fid: 0, Fid2: noFid})
	for _, op := range p.Ops {
		f, g := ((op.F%6)+6)%6, ((op.G%6)+6)%6
		switch op.K {
		case "attach":
			s := name1(op.S)
			if count(s) > c13Ups || !safeAbs(s) {
				continue
			}
			if count(s) > 0 {
				climbs++
			}
			// With the last fids, so that a history can have several.
			do(M{T: tTclunk, Fid: uint32(f)})
			if r := do(M{T: tTattach, Fid: uint32(f), Fid2: noFid, S2: s}); isOK(r) {
				ups[f] = count(s)
				done++
			}
		case "walk":
			u := ups[f]
			var ns []string
			for _, s := range op.Names {
				t := name1(s)
				ns = append(ns, t)
				u += count(t)
				if !safeAbs(t) {
					u = 99
				}
			}
			if u > c13Ups {
				continue
			}
			climbs++
			if r := do(M{T: tTwalk, Fid: uint32(f), Fid2: uint32(g), Names: ns}); isOK(r) {
				if u > ups[g] {
					ups[g] = u
				}
				done++
			}
		case "create":
			s := name1(op.S)
			if ups[f]+count(s) > c13Ups || !safeAbs(s) {
				continue
			}
			climbs++
			if r := do(M{T: tTcreate, Fid: uint32(f), S1: s, Perm: op.Perm, Mode: op.Mode}); isOK(r) {
				ups[f] += count(s)
				done++
			}
		case "wstat":
			d := DirMsg{Type: 0xFFFF, Dev: 0xFFFFFFFF, Qid: QID{0xFF, 0xFFFFFFFF, ^uint64(0)}, Mode: 0xFFFFFFFF, Atime: 0xFFFFFFFF, Mtime: 0xFFFFFFFF, Length: ^uint64(0)}
			s := name1(op.W.Name)
			if ups[f]+count(s)+1 > c13Ups || !safeAbs(s) {
				continue
			}
			d.Name = Str(s)
			if op.W.SetMode {
				d.Mode = op.W.Mode | 0500
			}
			if op.W.SetLen {
				d.Length = op.W.Len
			}
			if op.W.SetMt {
				d.Mtime = op.W.Mt
			}
			climbs++
			if r := do(M{T: tTwstat, Fid: uint32(f), Data: encodeDir(d)}); isOK(r) {
				ups[f] += count(s)
				done++
			}
		case "open":
			do(M{T: tTopen, Fid: uint32(f), Mode: op.Mode})
		case "read":
			do(M{T: tTread, Fid: uint32(f), N: op.N})
		case "write":
			do(M{T: tTwrite, Fid: uint32(f), Data: op.Data.Expand()})
		case "remove":
			do(M{T: tTremove, Fid: uint32(f)})
		case "clunk":
			do(M{T: tTclunk, Fid: uint32(f)})
		default:
			do(M{T: tTstat, Fid: uint32(f)})
		}
		c.Label("%s", op.K)
	}
	if abs {
		c.Label("absolute host names")
	}
	if climbs > 0 && done > 0 {
		c.NonTrivial()
	}
}

func init() {
	register(&Prop{ID: "C13", Rule: "at least one request with a name that could climb was sent and at least one of the naming requests succeeded", Unpriv: true, Quick: 10000, Thorough: 150000,
		Assume: []string{"no symbolic links in the exported tree (the property excludes them)", "access times of files outside are not watched: that a file was read shows in replies"},
		New:    func() interface{} { return new(planC13) }, Gen: genC13, Run: runC13})
}
