package main

import (
	"bytes"
	"os"
	"os/signal"
	"sort"
	"syscall"
)

// Failures of the host: C29. Descriptors and file size run out by way of the
// limits of this process, for the time of one request.

const (
	rlimitFsize  = 1
	rlimitNofile = 7
	noFiles      = "the host has no file descriptor left"
)

type limit struct {
	what int
	to   uint64
}

// impose sets a limit and returns what lifts it.
func (l *limit) impose(x *fsx) func() {
	signal.Ignore(syscall.SIGXFSZ)
	var old syscall.Rlimit
	x.c.Must(syscall.Getrlimit(l.what, &old))
	lim := old
	if lim.Cur = l.to; lim.Cur > lim.Max {
		lim.Cur = lim.Max
	}
	x.c.Must(syscall.Setrlimit(l.what, &lim))
	x.plus = "C29"
	return func() { x.c.Must(syscall.Setrlimit(l.what, &old)) }
}

// faulted does, once an operation failed for lack of a resource, the same
// again with the resource there.
func (x *fsx) faulted(op Op) {
	if r := recover(); r != nil {
		panic(r)
	}
	x.c.Label("fault")
	x.c.Label("fault: %s", op.K)
	x.plus = "C29"
	x.probeAll()
	op.Fault = 0
	x.do(op)
	x.checkFds("a failure of the host")
	x.plus = ""
}

// probeAll looks at all fids.
func (x *fsx) probeAll() {
	var ns []int
	for n := range x.fids {
		ns = append(ns, int(n))
	}
	sort.Ints(ns)
	for _, n := range ns {
		x.probe(uint32(n), "")
		x.probeState(uint32(n), "")
	}
}

// shortWrite judges a write of which the host takes only some bytes.
func (x *fsx) shortWrite(r M, f *mfid, nd *node, data []byte, off uint64, fits int) {
	if isOK(r) && int64(r.N) > int64(fits) {
		x.fail("C14", "the host took %d bytes of a write of %d, but %d were reported", fits, len(data), int32(r.N))
	}
	n := 0
	if isOK(r) {
		n = int(r.N)
	} else if fits > 0 {
		// Some of it may have been written.
		h, err := os.Open(x.host(f.path))
		if err != nil {
			os.Chmod(x.host(f.path), 0600)
			h, err = os.Open(x.host(f.path))
			os.Chmod(x.host(f.path), os.FileMode(nd.perm))
		}
		x.c.Must(err)
		b := make([]byte, fits)
		k, _ := h.ReadAt(b, int64(off))
		h.Close()
		for n < k && b[n] == data[n] {
			n++
		}
		if was := nd.data.readAt(int64(off), int64(n)); bytes.Equal(was, data[:len(was)]) && int64(off)+int64(n) <= nd.data.size {
			n = 0
		}
	}
	nd.data.writeAt(data[:n], int64(off))
	x.taintDirs()
	x.c.Label("write that the host does not take in full")
}

// doVanish removes the file of a fid on the host. What needs it then fails,
// and the fid can still be given up.
func (x *fsx) doVanish(op Op) {
	n := x.pickFid(op.FS, op.F)
	f := x.fids[n]
	if f == nil || f.stale || f.path == "/" || f.path == x.base || x.tree[f.path] == nil || f.maybeOpen {
		return
	}
	nd := x.tree[f.path]
	if nd.kind == 'l' || nd.kind == 'd' && len(x.children(f.path)) > 0 || !x.canWriteDir(parent(f.path)) {
		return
	}
	x.plus = "C29"
	x.forget(f.path)
	x.c.Must(os.Remove(x.host(f.path)))
	x.logf("host: removed %s, the file of fid %d", f.path, n)
	x.staleBelow(f.path, f)
	delete(x.tree, f.path)
	x.taintDirs()
	why := "the file is gone"
	wst := encodeDir(DirMsg{Type: 0xFFFF, Dev: 0xFFFFFFFF, Qid: QID{0xFF, 0xFFFFFFFF, ^uint64(0)}, Mode: 0700, Atime: 0xFFFFFFFF, Mtime: 0xFFFFFFFF, Length: ^uint64(0)})
	k := op.N
	for i := 0; i < 3; i++ {
		switch k % 7 {
		case 0:
			// A server may ask the open file.
			if r := x.rpc(M{T: tTstat, Fid: n}); !f.open {
				x.outcome(r, mustFail, "", "", why)
			}
		case 1:
			x.outcome(x.rpc(M{T: tTopen, Fid: n, Mode: uint8(k>>3) & 3}), mustFail, "", "", why)
		case 2:
			x.outcome(x.rpc(M{T: tTwalk, Fid: n, Fid2: 97, Names: []string{"a"}}), mustFail, "", "", why)
			x.outcome(x.rpc(M{T: tTstat, Fid: 97}), mustFail, "", "", "the walk failed")
		case 3:
			if r := x.rpc(M{T: tTwstat, Fid: n, Data: wst}); !f.open {
				x.outcome(r, mustFail, "", "", why)
			}
		case 4:
			p := uint32(0644)
			if k&8 != 0 {
				p = 0x800001ed
			}
			x.outcome(x.rpc(M{T: tTcreate, Fid: n, S1: "a", Perm: p, Mode: 2}), mustFail, "", "", why)
		case 5:
			if !f.open {
				x.outcome(x.rpc(M{T: tTread, Fid: n, N: 10}), mustFail, "", "", "the fid is not open")
			} else if nd.kind == 'd' {
				x.rpc(M{T: tTread, Fid: n, N: 1000})
			}
		case 6:
			if !f.open {
				x.outcome(x.rpc(M{T: tTwrite, Fid: n, Data: []byte("x")}), mustFail, "", "", "the fid is not open")
			}
		}
		x.verify("stat", "")
		k /= 7
	}
	if k&1 != 0 {
		x.outcome(x.rpc(M{T: tTremove, Fid: n}), mustFail, "", "", why)
	} else {
		x.outcome(x.rpc(M{T: tTclunk, Fid: n}), mustOK, "", "", "")
	}
	x.unbind(n, "given up after its file vanished")
	x.probe(n, "")
	x.checkFds("a file vanished")
	x.probeAll()
	x.verify("clunk", "")
	x.c.Label("fault")
	x.c.Label("fault: vanish")
	x.plus = ""
}
