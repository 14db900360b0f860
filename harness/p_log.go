package main

import (
	"bytes"
	"fmt"
	"log"
	"strings"
	"sync"

	"github.com/Harvey-OS/ninep/pkg/debugfs"
	"github.com/Harvey-OS/ninep/protocol"
)

// C34: what the debug wrapper logs is what happens.

// logBuf collects what is logged.
type logBuf struct {
	mu sync.Mutex
	b  bytes.Buffer
}

func (l *logBuf) Write(p []byte) (int, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.b.Write(p)
}

func (l *logBuf) take() string {
	l.mu.Lock()
	defer l.mu.Unlock()
	s := l.b.String()
	l.b.Reset()
	return s
}

// says finds values in a text, in order, and returns the first that is not
// there. A number counts only if no digit is next to it.
func says(text string, vals []interface{}) (string, bool) {
	for _, v := range vals {
		w := fmt.Sprint(v)
		_, isStr := v.(string)
		at := 0
		for {
			i := strings.Index(text[at:], w)
			if i < 0 {
				return w, false
			}
			i += at
			e := i + len(w)
			if !isStr && (i > 0 && digit(text[i-1]) || e < len(text) && digit(text[e])) {
				at = i + 1
				continue
			}
			text = text[e:]
			break
		}
	}
	return "", true
}

func digit(b byte) bool { return b >= '0' && b <= '9' }

func dirVals(d DirMsg) []interface{} {
	return []interface{}{d.Type, d.Dev, d.Qid.T, d.Qid.V, d.Qid.P, d.Mode, d.Atime, d.Mtime, d.Length, string(d.Name), string(d.User), string(d.Group), string(d.Muid)}
}

// told are the values that the log must give of a message: those that say what
// is asked or answered, but of data read and written only the length.
func told(m M) []interface{} {
	v := []interface{}{tname(m.T)}
	add := func(x ...interface{}) { v = append(v, x...) }
	q := func(x QID) { add(x.T, x.V, x.P) }
	switch m.T {
	case tTversion, tRversion:
		add(m.N, m.S1)
	case tTattach:
		add(m.Fid, m.Fid2, m.S1, m.S2)
	case tRattach:
		q(m.Qid)
	case tTflush:
		add(m.OTag)
	case tTwalk:
		add(m.Fid, m.Fid2)
		for _, n := range m.Names {
			add(n)
		}
	case tRwalk:
		for _, x := range m.Qids {
			q(x)
		}
	case tTopen:
		add(m.Fid, m.Mode)
	case tTcreate:
		add(m.Fid, m.S1, m.Perm, m.Mode)
	case tRopen, tRcreate:
		q(m.Qid)
		add(m.N)
	case tTread:
		add(m.Fid, m.Off, int32(m.N))
	case tTwrite:
		add(m.Fid, m.Off, len(m.Data))
	case tRread:
		add(len(m.Data))
	case tRwrite:
		add(int32(m.N))
	case tTclunk, tTremove, tTstat:
		add(m.Fid)
	case tRstat, tTwstat:
		if m.T == tTwstat {
			add(m.Fid)
		}
		if d, n, sizeOK, ok := decodeDir(m.Data); ok && sizeOK && n == len(m.Data) {
			v = append(v, dirVals(d)...)
		}
	}
	return v
}

func runC34(c *Ctx, pl interface{}) {
	p := pl.(*planC23)
	var lb logBuf
	fl := log.Flags()
	log.SetFlags(0)
	log.SetOutput(&lb)
	defer func() {
		log.SetFlags(fl)
		log.SetOutput(devNull{})
	}()
	stats := map[uint32][]byte{}
	var before string
	ns := &modelNS{salt: p.Salt, res: func(salt uint32, m M) M {
		before = lb.take()
		r := resFor(salt, m)
		if b, ok := stats[m.Fid]; ok && r.T == tRstat {
			r.Data = b
		}
		return r
	}}
	dfs := protocol.NineServer(&debugfs.DebugFileServer{FileServer: ns})
	n := 0
	for _, x := range p.Calls {
		if _, ok := layouts[x.M.T]; !ok || !isReq(x.M.T) {
			continue
		}
		m := x.M.M()
		m.Tag = 0
		if x.Dir != nil {
			b := encodeDir(*x.Dir)
			if x.Cut > 0 && x.Cut <= len(b) {
				b = b[:len(b)-x.Cut]
			}
			if m.T == tTwstat {
				m.Data = b
			} else {
				stats = map[uint32][]byte{m.Fid: b}
			}
		}
		if len(m.Data) > 65535 && m.T == tTwstat {
			m.Data = m.Data[:65535]
		}
		lb.take()
		before = ""
		r, err := directCall(dfs, m)
		after := lb.take()
		// The call, before it is passed on.
		if w, ok := says(before, told(m)); !ok {
			c.Failf("%v was passed on when this had been logged:\n%s\nwhere %s is missing (or out of order)", m, short(before), short(w))
		}
		if strings.Contains(before, "<<<") && !strings.Contains(fmt.Sprint(m.S1, m.S2, m.Names, string(m.Data)), "<<<") {
			c.Failf("%v: a result is logged before there is one: %s", m, short(before))
		}
		// The result, before it is returned.
		want := []interface{}{"rror", ""}
		if err != nil {
			want[1] = err.Error()
			c.Label("error")
		} else {
			want = told(r)
			c.Label("%s", tname(m.T))
		}
		if w, ok := says(after, want); !ok {
			c.Failf("%v returned %v, %v, and this was logged of it:\n%s\nwhere %s is missing (or out of order)", m, r, err, short(after), short(w))
		}
		if err != nil && strings.Contains(after, "<<< "+tname(m.T+1)) && !strings.Contains(err.Error(), "<<<") {
			c.Failf("%v returned error %v, and this was logged of it:\n%s", m, err, short(after))
		}
		n++
	}
	if n > 1 {
		c.NonTrivial()
	}
}

func genC34(g *G) interface{} {
	p := genC23(g).(*planC23)
	p.Par, p.Net, p.Flags = false, false, 0
	for i := range p.Calls {
		if x := &p.Calls[i]; g.P(50) && x.M.T != tTwstat && x.M.T != tTstat {
			// Values that can be told apart.
			x.M.Fid, x.M.Fid2, x.M.N = uint32(g.R(1000, 1999)), uint32(g.R(2000, 2999)), uint32(g.R(3000, 3999))
			x.M.Off, x.M.Perm, x.M.OTag = uint64(g.R(4000, 4999)), uint32(g.R(5000, 5999)), uint16(g.R(6000, 6999))
			x.M.S1, x.M.S2 = pick(g, Str("one"), "a b", "ö"), pick(g, Str("two"), "c d")
		}
	}
	return p
}

func init() {
	register(&Prop{ID: "C34", Rule: "at least two calls were made through the wrapper", Quick: 20000, Thorough: 300000,
		Assume: []string{"the log is written by the standard log package, as plain text: names and numbers in decimal, in the order of the protocol's fields; how they are set out is not judged", "the wrapped file server is a stand-in that answers by formula"},
		New:    func() interface{} { return new(planC23) }, Gen: genC34, Run: runC34})
}
