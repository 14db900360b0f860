package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"sync/atomic"
)

// Properties of the file server that are decided by running histories of
// requests against the real server and a model of a file system: C14 to C21.

type planFS struct {
	User  Str
	Debug bool `json:",omitempty"`
	Slash int  `json:",omitempty"` // how the root is written
	Msize uint32
	Init  []Op
	Ops   []Op
}

// rootAs writes a root directory in one of several ways.
func rootAs(root string, k int) string {
	switch k {
	case 1:
		return root + "/"
	case 2:
		return root + "//"
	case 3:
		return root + "/."
	case 4:
		return filepath.Dir(root) + "/./" + filepath.Base(root)
	case 5:
		return filepath.Dir(root) + "//" + filepath.Base(root) + "/"
	}
	return root
}

var rootSeq atomic.Int64

// newRoot makes a directory to export, of a name not used before in this
// process, so that files left open by earlier cases are told apart.
func newRoot(c *Ctx) string {
	root := filepath.Join(c.Dir, fmt.Sprintf("root%d", rootSeq.Add(1)))
	c.Must(os.Mkdir(root, 0755))
	return root
}

func runFS(c *Ctx, pl interface{}) {
	p := pl.(*planFS)
	root := newRoot(c)
	x := newFsx(c, root, "", string(p.User))
	x.umask = 022
	if c.Prop == "C32" {
		x.all, x.anyQid = true, true
	}
	x.load()
	for _, op := range p.Init {
		if strings.HasPrefix(op.K, "h") {
			x.doHost(op)
		}
	}
	x.taintDirs()
	l := ufsListener(c, rootAs(root, p.Slash), string(p.User), p.Debug)
	x.connect(l)
	defer func() {
		if r := recover(); r != nil {
			if a, ok := r.(*abandon); ok {
				c.Label("given up: %s", firstWords(a.msg, 40))
				c.nontriv = false
				return
			}
			panic(r)
		}
	}()
	ms := p.Msize
	if ms < 256 {
		ms = 8192
	}
	x.do(Op{K: "version", N: ms})
	x.do(Op{K: "attach"})
	for _, op := range p.Ops {
		x.do(op)
	}
	x.do(Op{K: "probe"})
	for _, l := range fsRules[c.Prop].labels {
		ok := false
		for _, a := range strings.Split(l, "|") {
			ok = ok || c.labels[a] > 0
		}
		if !ok {
			return
		}
	}
	c.NonTrivial()
}

func firstWords(s string, n int) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		s = s[:i]
	}
	if len(s) > n {
		s = s[:n]
	}
	return s
}

// fsRule: a case counts as non-trivial if for each of labels (alternatives
// separated by |) something of that kind happened.
type fsRule struct {
	rule   string
	labels []string
	quick  int
	deep   int
}

var fsRules = map[string]fsRule{
	"C14": {"the history has a successful write of at least one byte through the server and a read that returned data", []string{"write data", "read data|read cut by msize"}, 12000, 150000},
	"C15": {"the history has a successful open and a request refused because of the open mode, permissions, file type or open state", []string{"open mode 0|open mode 1|open mode 2|open mode 3", "open refused: it is a directory|open refused: the fid is open already|open refused: the host's permissions do not allow it|read refused: not open|read refused: write only|write refused: not open|write refused: read only"}, 12000, 150000},
	"C16": {"the history has a complete walk and one that fails at the first or a later element, goes onto a fid in use, or clones a fid", []string{"walk succeeds", "walk fails at once|walk fails later|walk onto a fid in use|clone"}, 12000, 150000},
	"C17": {"the history ends a fid by clunk, remove or version while others are in use", []string{"clunk open=true|clunk open=false|remove succeeds|version with fids", "walk succeeds|clone"}, 12000, 150000},
	"C18": {"the history lists a directory with at least one entry to its end", []string{"directory entry", "directory listed to the end"}, 6000, 80000},
	"C19": {"the history stats two kinds of files or a file and its directory, or sees host changes between", []string{"stat of f|stat of l", "stat of d|host changes"}, 12000, 150000},
	"C20": {"the history has a successful wstat that changes something", []string{"wstat mode|wstat length|wstat mtime|wstat atime|wstat name of f|wstat name of d"}, 12000, 150000},
	"C29": {"a host resource ran out during a request (file descriptors, file size) or the file of a fid vanished", []string{"fault"}, 12000, 150000},
	"C32": {"the history lists a directory with at least one entry", []string{"directory entry"}, 6000, 80000},
	"C21": {"the history has a successful create and a successful remove, or a refused one of either", []string{"create f|create d|create over a file", "remove succeeds|remove refused: it is the root|remove refused: the directory is not empty|remove refused: the host's permissions do not allow it|create refused: it exists|create refused: the fid is open|create refused: it is a directory|create refused: the fid is not a directory|create refused: the host's permissions do not allow it|create refused: the name is not allowed"}, 12000, 150000},
}

// ---- generation

var fsNames = []Str{"a", "b", "c", "d", "ab", "a b", "é☺", "..a", "...", ".x", "-", "a\nb", "%s%d", "*", "\xff\xfe"}

// fsName: an existing child mostly.
func (g *G) fsName(existing int) Str {
	if g.P(existing) {
		return Str([]byte{1, byte(g.N(8))})
	}
	switch g.W(70, 4, 2, 2, 2, 2, 2, 2) {
	case 1:
		return Str(strings.Repeat("n", pick(g, 1, 100, 254, 255, 256, 300)))
	case 2:
		return pick(g, Str("x/y"), "/", "/a", "a/", "../a", "a/..")
	case 3:
		return ""
	case 4:
		return "."
	case 5:
		return ".."
	case 6:
		return "a\x00b"
	case 7:
		return g.Str(40)
	}
	return pick(g, fsNames...)
}

func (g *G) perm(dir bool) uint32 {
	switch g.W(30, 25, 20, 10, 15) {
	case 0:
		if dir {
			return 0755
		}
		return 0644
	case 1:
		return 0777
	case 2:
		return uint32(g.N(512))
	case 3:
		return pick(g, uint32(0), 0200, 0400, 0100, 0444, 0555, 0222)
	}
	return 0700
}

type fsWeights struct {
	version, attach, walk, open, create, read, write, clunk, remove, stat, wstat, flush, probe, host int
	lists                                                                                            int // read a whole directory
	restrict                                                                                         int // percentage of files with odd permissions
	faults                                                                                           int // percentage of requests during which a resource runs out
}

var fsFocus = map[string]fsWeights{
	"C14": {version: 1, attach: 2, walk: 14, open: 14, create: 8, read: 26, write: 26, clunk: 5, remove: 2, stat: 1, wstat: 6, flush: 1, probe: 1, host: 2},
	"C15": {version: 1, attach: 2, walk: 20, open: 30, create: 6, read: 14, write: 14, clunk: 6, remove: 2, stat: 1, wstat: 3, probe: 2, host: 3, restrict: 40},
	"C16": {version: 1, attach: 5, walk: 60, open: 6, create: 6, read: 2, write: 2, clunk: 8, remove: 2, stat: 2, wstat: 3, probe: 3, host: 4, restrict: 5},
	"C17": {version: 3, attach: 8, walk: 22, open: 14, create: 6, read: 6, write: 5, clunk: 14, remove: 7, stat: 3, wstat: 3, flush: 1, probe: 8, host: 2, restrict: 5},
	"C18": {version: 1, attach: 3, walk: 12, open: 10, create: 6, read: 30, write: 2, clunk: 4, remove: 4, stat: 1, wstat: 2, probe: 1, host: 4, lists: 30},
	"C19": {version: 1, attach: 5, walk: 22, open: 8, create: 8, read: 8, write: 6, clunk: 4, remove: 3, stat: 25, wstat: 8, probe: 5, host: 16, restrict: 15, lists: 5},
	"C20": {version: 1, attach: 3, walk: 22, open: 6, create: 6, read: 3, write: 4, clunk: 4, remove: 3, stat: 2, wstat: 40, probe: 3, host: 4, restrict: 15},
	"C29": {version: 1, attach: 2, walk: 20, open: 16, create: 12, read: 8, write: 22, clunk: 5, remove: 2, stat: 1, wstat: 12, probe: 1, host: 3, faults: 30},
	"C21": {version: 1, attach: 3, walk: 26, open: 5, create: 30, read: 3, write: 5, clunk: 5, remove: 20, stat: 1, wstat: 4, probe: 3, host: 4, restrict: 15},
}

func (g *G) fidLit() int {
	if g.P(10) {
		return int(pick[uint32](g, 1<<31, 1<<31-1, 0xFFFFFFFE, 256, 65535, 65536))
	}
	return g.N(13)
}

// fidSel picks a selector among the given ones, or sometimes any number.
func (g *G) fidSel(sels ...string) (string, int) {
	if g.P(8) {
		return "", g.fidLit()
	}
	return pick(g, sels...), g.N(16)
}

func (g *G) fsOp(w fsWeights) Op {
	var op Op
	if g.P(22) {
		op = Op{K: "fetch", S: pick(g, Str("f"), "f", "f", "d", ""), F: g.N(16), G: g.N(64)}
		if g.P(w.open*2 + w.read + w.write) {
			op.N, op.Mode = 1, pick(g, uint8(0), 0, 1, 2, 2, 2, 3)
			if g.P(10) {
				op.Mode |= 0x10
			}
			if g.P(10) {
				op.Mode |= g.U8()
			}
		}
		return op
	}
	switch g.W(w.version, w.attach, w.walk, w.open, w.create, w.read, w.write, w.clunk, w.remove, w.stat, w.wstat, w.flush, w.probe, w.host) {
	case 0:
		op = Op{K: "version", N: g.msize()}
	case 1:
		op = Op{K: "attach"}
		op.FS, op.F = g.fidSel("u", "u", "u", "e")
		if g.P(10) {
			op.N = pick(g, uint32(1), 2, 3, 0x80000001, 0xFFFFFFFF, uint32(2+g.N(13)))
		}
		switch g.W(50, 20, 20, 10) {
		case 1:
			op.S = pick(g, fsNames...)
		case 2:
			op.S = pick(g, fsNames...) + "/" + pick(g, fsNames...)
		case 3:
			op.S = pick(g, Str("/"), "//", "..", "../a", "/..", "a/..", "a/../b", "./a", "/a/")
		}
	case 2:
		op = Op{K: "walk"}
		op.FS, op.F = g.fidSel("d", "d", "d", "d", "d", "d", "d", "e", "e", "c", "f", "D", "o")
		op.GS, op.G = g.fidSel("u", "u", "u", "u", "u", "u", "=", "=", "e")
		n := g.W(15, 50, 20, 10, 5)
		if n == 4 {
			n = g.R(4, 17)
		}
		for ; n > 0; n-- {
			if g.P(15) {
				op.Names = append(op.Names, "..")
			} else {
				op.Names = append(op.Names, g.fsName(75))
			}
		}
	case 3:
		op = Op{K: "open", Mode: pick(g, uint8(0), 0, 0, 1, 1, 2, 2, 2, 3)}
		if g.P(20) {
			op.Mode |= 0x10
		}
		if g.P(10) {
			op.Mode |= g.U8()
		}
		op.FS, op.F = g.fidSel("f", "f", "f", "f", "d", "c", "e", "o", "D")
	case 4:
		op = Op{K: "create", Mode: pick(g, uint8(0), 1, 2, 2, 2, 3), Perm: g.perm(false), S: g.fsName(25), N: uint32(g.N(4))}
		if g.P(10) {
			op.Mode |= 0x10
		}
		if g.P(10) {
			op.Mode |= g.U8()
		}
		if g.P(25) {
			op.Perm = g.perm(true) | 0x80000000
		}
		op.FS, op.F = g.fidSel("d", "d", "d", "d", "d", "d", "d", "c", "e", "f", "D", "o")
	case 5:
		op = Op{K: "read"}
		op.Off, op.Rel = g.off()
		if g.P(30) {
			op.Frac = g.R(1, 16)
		}
		op.N = g.count()
		op.FS, op.F = g.fidSel("r", "r", "r", "r", "r", "o", "D", "D", "w", "e", "c")
		if w.lists > 0 {
			op.FS = "D"
			op.Off = uint64(g.W(15, 85))
			op.N = pick(g, uint32(8192), 8192, 1000, 400, 200, 100, 64, 60, uint32(g.N(200)), 0, 1)
		}
	case 6:
		op = Op{K: "write", Data: g.Blob(20000)}
		if op.Data.Len() > 2000 && g.P(80) {
			op.Data.N = g.N(200)
		}
		op.Off, op.Rel = g.off()
		if g.P(30) {
			op.Frac = g.R(1, 16)
		}
		op.FS, op.F = g.fidSel("w", "w", "w", "w", "w", "o", "r", "D", "e", "c")
	case 7:
		op = Op{K: "clunk"}
		op.FS, op.F = g.fidSel("e", "e", "o", "D", "c", "s")
	case 8:
		op = Op{K: "remove"}
		op.FS, op.F = g.fidSel("f", "f", "f", "o", "d", "e", "D")
	case 9:
		op = Op{K: "stat"}
		op.FS, op.F = g.fidSel("e", "e", "f", "o", "d", "D")
	case 10:
		op = Op{K: "wstat"}
		op.FS, op.F = g.fidSel("f", "f", "f", "o", "o", "d", "D", "e")
		op.W = g.wop()
	case 11:
		op = Op{K: "flush", N: uint32(g.N(65536))}
	case 12:
		op = Op{K: "probe"}
	case 13:
		op = g.hostOp(w, false)
	}
	return op
}

func (g *G) wop() WOp {
	var w WOp
	if g.P(6) {
		return w
	}
	one := g.N(6)
	if one == 0 || g.P(15) {
		w.SetMode, w.Mode = true, g.perm(false)
	}
	if one == 1 || g.P(15) {
		w.SetLen = true
		switch g.W(60, 20, 10, 5) {
		case 0:
			w.Len = uint64(g.N(300))
		case 1:
			w.Len = uint64(g.N(20000))
		case 2:
			w.Len = 1<<31 + uint64(g.r.Int64N(1<<33))
		case 3:
			w.Len = 1<<63 + uint64(g.N(100))
		}
	}
	if one == 2 || g.P(15) {
		w.SetMt, w.Mt = true, g.timeVal()
	}
	if one == 3 || g.P(15) {
		w.SetAt, w.At = true, g.timeVal()
	}
	if one >= 4 || g.P(10) {
		if g.P(45) {
			w.Name = "/"
			for n := g.W(50, 35, 15); n > 0; n-- {
				w.Name += g.relName(80) + "/"
			}
			w.Name += g.relName(20)
		} else {
			w.Name = g.relName(30)
		}
	}
	if g.P(6) {
		w.User = pick(g, Str("harvey"), "root", "x")
	}
	if g.P(6) {
		w.Group = pick(g, Str("harvey"), "root", "x")
	}
	if g.P(3) {
		w.Cut = g.R(1, 60)
	}
	return w
}

// relName: a name that can stand in a path.
func (g *G) relName(existing int) Str {
	for {
		s := g.fsName(existing)
		if s != "" && s != "." && s != ".." && !strings.Contains(string(s), "/") && !strings.Contains(string(s[1:]), "\x01") && (s[0] != 1 || len(s) == 2) && s != "\x01/" {
			return s
		}
	}
}

func (g *G) timeVal() uint32 {
	t := pick(g, 0, 1, uint32(1<<31-1), uint32(1500000000+g.N(1000000)), uint32(g.N(1<<31-1)), 1<<31, 0xFFFFFFFE)
	if strconv.IntSize == 32 {
		t &= 1<<31 - 1 // all that the system has room for
	}
	return t
}

func (g *G) off() (uint64, bool) {
	switch g.W(35, 30, 15, 8, 6, 3) {
	case 0:
		return 0, false
	case 1: // near the end
		return uint64(int64(g.R(-40, 40))), true
	case 2:
		return uint64(g.N(300)), false
	case 3:
		return uint64(pick(g, 4095, 4096, 8167, 8168, 8192, 10000, 65536) + g.R(-1, 1)), false
	case 4:
		return pick(g, uint64(1)<<31-1, 1<<31, 1<<32-1, 1<<32, 1<<32+5, 5<<30, 1<<36) + uint64(g.N(3)), false
	}
	return pick(g, uint64(1)<<63, ^uint64(0), 1<<63-1, 1<<62, 1<<39), false
}

func (g *G) count() uint32 {
	switch g.W(40, 30, 20, 4) {
	case 0:
		return uint32(g.N(300))
	case 1:
		return 8192
	case 2:
		return pick(g, uint32(0), 1, 4096, 8167, 8168, 8169, 8191, 8193, 65536, 1<<20)
	}
	return pick(g, uint32(1<<31-1), 1<<31, 1<<32-1, 1<<30)
}

func (g *G) msize() uint32 {
	switch g.W(60, 15, 15, 10) {
	case 0:
		return 8192
	case 1:
		return uint32(g.R(256, 1024))
	case 2:
		return pick(g, uint32(8192+24), 8191, 8193, 4096, 65536, 1<<20, 1<<31-1, 1<<31, 1<<32-1)
	}
	return uint32(g.R(256, 70000))
}

func (g *G) hostOp(w fsWeights, init bool) Op {
	op := Op{K: pick(g, "hmkdir", "hmk", "hlink", "hwrite", "htouch", "htouch", "htouch", "hchmod", "hrm")}
	n := g.W(0, 55, 30, 15)
	if init {
		op.K = pick(g, "hmkdir", "hmk", "hmk")
		if g.P(10) {
			op.K = pick(g, "hlink", "htouch")
		}
	}
	ex := 75
	for i := 0; i < n; i++ {
		if i == n-1 && strings.HasPrefix(op.K, "hmk") || op.K == "hlink" {
			ex = 0
			if init && i < n-1 {
				ex = 90
			}
		}
		op.Names = append(op.Names, g.fsName(ex))
	}
	op.Perm = 0644
	if op.K == "hmkdir" {
		op.Perm = 0755
	}
	if g.P(w.restrict) {
		op.Perm = g.perm(op.K == "hmkdir")
	}
	if op.K == "hmk" || op.K == "hwrite" {
		op.Data = g.Blob(3000)
		if g.P(5) {
			op.Data = Blob{N: g.N(30000), S: 5}
		}
	}
	op.Off = uint64(g.r.Int64N(40 * 24 * 3600 * 1000))
	if op.K == "hwrite" {
		op.Off = uint64(g.N(500))
	}
	op.N = uint32(g.N(1000))
	return op
}

func genFS(id string) func(g *G) interface{} {
	return func(g *G) interface{} {
		w := fsFocus[id]
		p := &planFS{User: pick(g, Str("harvey"), "harvey", "u", "", "glenda é"), Debug: g.P(10), Msize: 8192}
		if g.P(15) {
			p.Slash = g.N(6)
		}
		if g.P(15) {
			p.Msize = g.msize()
		}
		n := g.R(2, 12)
		if id == "C18" {
			n = g.N(6)
		}
		for ; n > 0; n-- {
			p.Init = append(p.Init, g.hostOp(w, true))
		}
		if id == "C18" && g.P(60) {
			// A directory with many entries, or with long names.
			n := g.R(1, 40)
			if g.P(10) {
				n = g.R(100, 400)
			}
			long := g.P(30)
			for i := 0; i < n; i++ {
				nm := Str("e") + Str(strings.Repeat("x", g.N(20)))
				if long && g.P(50) {
					nm = Str(strings.Repeat("L", g.R(100, 240)))
				}
				nm += Str([]byte{byte('a' + i/26%26), byte('a' + i%26), byte('a' + i/676)})
				op := Op{K: "hmk", Names: []Str{nm}, Perm: 0644, Data: Blob{N: g.N(4)}}
				if g.P(15) {
					op.K, op.Perm = pick(g, "hmkdir", "hlink"), 0755
				}
				p.Init = append(p.Init, op)
			}
		}
		if id == "C18" && g.Idx%300 == 17 {
			p.Init = append(p.Init, Op{K: "hmkdir", Names: []Str{"many"}, Perm: 0755}, Op{K: "hmany", Names: []Str{"many"}, N: uint32(pick(g, 600, 1100, g.R(600, 1500), 2100))})
			p.Ops = append(p.Ops, Op{K: "walk", FS: "d", GS: "u", Names: []Str{"many"}}, Op{K: "open", FS: "c", F: 1}, Op{K: "list", FS: "D", N: pick(g, uint32(8192), 1000)})
			return p
		}
		n = g.R(3, 30)
		if id == "C14" {
			n = g.R(10, 45)
		}
		big := id == "C14" && g.P(10) // large messages
		if big {
			p.Msize = pick(g, uint32(1<<16+24), 1<<17, 1<<20, 1<<20+24, 1<<21, 1<<21+24, 1<<22)
		}
		if g.Thorough && g.P(30) {
			n = g.R(30, 100)
		}
		for ; n > 0; n-- {
			switch {
			case w.lists > 0 && g.P(w.lists):
				p.Ops = append(p.Ops, g.listing()...)
			case w.faults > 0 && g.P(8):
				op := Op{K: "vanish", N: uint32(g.N(1 << 10))}
				op.FS, op.F = pick(g, "f", "f", "f", "o", "d", "e", "D"), g.N(16)
				p.Ops = append(p.Ops, op)
			case len(p.Ops) > 2 && g.P(12):
				// The same once more.
				p.Ops = append(p.Ops, p.Ops[len(p.Ops)-1-g.N(min(len(p.Ops), 8))])
			default:
				op := g.fsOp(w)
				if big && op.K == "read" && g.P(50) {
					op.N, op.Frac = pick(g, uint32(65536), 65537, 100000, 131072, 1<<20, 1<<20+1, 1<<21, 1<<22), 0
					op.Off, op.Rel = uint64(g.N(100)), false
				}
				if big && op.K == "write" && g.P(40) {
					op.Data = Blob{N: pick(g, 65536, 66000, 131072, g.R(60000, 300000), 1<<20), S: uint32(g.N(100))}
					op.Off, op.Rel, op.Frac = uint64(g.N(100)), false, 0
				}
				if w.faults > 0 && g.P(w.faults) {
					op.Fault = 1 + g.N(pick(g, 1, 10, 1000, 10000))
					if op.K == "wstat" && g.P(50) {
						op.W = WOp{SetLen: true, Len: uint64(g.R(1, 5000))}
					}
				}
				p.Ops = append(p.Ops, op)
			}
		}
		return p
	}
}

// listing opens a directory and reads it to the end, mostly.
func (g *G) listing() []Op {
	var ops []Op
	if g.P(60) {
		op := Op{K: "walk", FS: "d", F: g.N(8), GS: "u", G: g.N(8)}
		if g.P(40) {
			op.Names = []Str{Str([]byte{1, byte(g.N(8))})}
		}
		ops = append(ops, op, Op{K: "open", FS: "d", F: g.N(8)})
	}
	ops = append(ops, Op{K: "list", FS: "D", F: g.N(8), N: pick(g, uint32(8192), 8192, 1000, 400, uint32(g.R(320, 700)), uint32(g.R(50, 130))), Off: uint64(g.N(100)), Mode: uint8(g.N(4))})
	return ops
}

func init() {
	for id, r := range fsRules {
		register(&Prop{ID: id, Rule: r.rule, Unpriv: true, Quick: r.quick, Thorough: r.deep,
			Assume: []string{
				"single session on one connection, requests one after another; the host file system is the sandbox's, accessed as an unprivileged user with umask 022",
				"fids whose file was renamed or removed through another fid or on the host are not judged further; symbolic links are only walked to, listed and statted",
			},
			New: func() interface{} { return new(planFS) }, Gen: genFS(id), Run: runFS})
	}
	// The same on the Windows variant, which check.sh builds this program with.
	w := props["C32"]
	w.Gen = func(g *G) interface{} {
		id := "C18"
		if g.P(30) {
			id = pick(g, "C14", "C15", "C16", "C17", "C19", "C20", "C21")
		}
		p := genFS(id)(g).(*planFS)
		for i := range p.Ops {
			if p.Ops[i].K == "list" && g.P(15) {
				p.Ops[i].Fault = 1
			}
		}
		return p
	}
	w.Assume = append(w.Assume, "the files that Windows builds use are built for, and run on, Linux; what QID paths identify is not judged")
}
