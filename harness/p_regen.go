package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"hash/fnv"
	"io"
	"os"
	"os/exec"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/Harvey-OS/ninep/protocol"
)

// ---- C03: the committed stubs and regenerated ones behave alike
//
// Two builds of this program, one with the committed stubs and one with the
// regenerated ones, describe what they do with the same plan; the descriptions
// have to be equal. Texts of errors that the code itself makes up do not
// count, texts of errors that it transports do.

type itC03 struct {
	K    int // 0 encode, 1 decode, 2 server session, 3 client calls, 4 directory entry, 5 ServerError
	M    Msg
	Dir  DirMsg
	Dec  decItem
	Reqs []rawReq
	Cal  []callC03
	Salt uint32
	Junk Blob
	S    Str
	End  int `json:",omitempty"` // 1, 2: how the connection ends, after Junk
}

type callC03 struct {
	M     Msg
	Rep   rawReq
	Stray *rawReq `json:",omitempty"` // a reply to nothing, sent before
}

type planC03 struct{ Items []itC03 }

func genC03(g *G) interface{} {
	p := &planC03{}
	for n := g.R(3, 10); n > 0; n-- {
		it := itC03{K: g.W(30, 35, 14, 14, 6, 1)}
		if g.P(40) {
			it.Junk = g.Blob(40)
		}
		switch it.K {
		case 0:
			it.M = g.Msg(allTypes[g.N(len(allTypes))], g.P(10))
		case 1:
			it.Dec = genC02(g).(*planC02).Items[0]
		case 2:
			it.Salt = g.r.Uint32()
			for k := g.R(1, 8); k > 0; k-- {
				it.Reqs = append(it.Reqs, g.rawReq())
			}
		case 3:
			for k := g.R(1, 5); k > 0; k-- {
				x := callC03{M: g.Msg(tTypes[g.N(len(tTypes))], g.P(3))}
				switch g.W(50, 15, 25, 10) {
				case 0:
					x.Rep.M = g.Msg(x.M.T+1, g.P(5))
				case 1:
					x.Rep.M = g.Msg(tRerror, false)
				case 2:
					x.Rep.M = g.Msg(x.M.T+1, false)
					if x.Rep.Len = g.lens(); x.Rep.Len == nil || g.P(30) {
						x.Rep.Muts = g.muts(len(encode(x.Rep.M.M())) - 7)
					}
				case 3:
					x.Rep.M = g.Msg(rTypes[g.N(len(rTypes))], false)
				}
				x.Rep.T = x.Rep.M.T
				if g.P(8) {
					x.Rep.T = g.U8()
				}
				if g.P(12) {
					r := g.repMsg()
					r.M.Tag = uint16(g.R(1, 65535))
					x.Stray = &r
				}
				it.Cal = append(it.Cal, x)
			}
		case 4:
			it.Dir = g.Dir(g.P(10))
		case 5:
			it.S = g.Str(300)
		}
		p.Items = append(p.Items, it)
	}
	return p
}

// sum describes bytes.
func sum(b []byte) string {
	if len(b) <= 400 {
		return fmt.Sprintf("%x", b)
	}
	h := fnv.New64a()
	h.Write(b)
	return fmt.Sprintf("%x...(%d bytes, %x)", b[:200], len(b), h.Sum64())
}

func sumM(m M) string {
	n := m.norm()
	h := fnv.New64a()
	fmt.Fprintf(h, "%#v", n)
	return fmt.Sprintf("%v #%x", n, h.Sum64())
}

// behave describes what this build does with an item.
func behave(c *Ctx, it itC03) (out string) {
	defer func() {
		switch x := recover().(type) {
		case nil:
		case *violation:
			out += "; " + x.Msg
		case *harnessError:
			panic(x)
		default:
			out += fmt.Sprint("; panic: ", x)
		}
	}()
	switch it.K {
	case 0:
		if _, ok := layouts[it.M.T]; !ok {
			return "none"
		}
		b := bytes.NewBuffer(it.Junk.Expand())
		repoMarshal(b, it.M.M())
		return "encodes to " + sum(b.Bytes())
	case 1:
		d := it.Dec
		var base []byte
		switch {
		case d.IsRaw:
			base = []byte(d.Raw)
		case d.T == 0:
			base = mutateLens(encodeDir(d.Dir), dirCountFields(d.Dir), d.Len)
		default:
			if _, ok := layouts[d.T]; !ok {
				return "none"
			}
			if _, ok := layouts[d.As]; !ok {
				return "none"
			}
			base = mutateLens(encode(d.M.M())[5:], countFields(d.M.M()), d.Len)
		}
		in := mutate(base, d.Muts)
		one := func(in []byte) string {
			b := bytes.NewBuffer(append(append([]byte(nil), in...), d.Cap.Expand()...)[:len(in)])
			if d.T == 0 {
				v, err := protocol.Unmarshaldir(b)
				if err != nil {
					return "refused"
				}
				return fmt.Sprintf("decodes to %+v, leaving %s", v, sum(b.Bytes()))
			}
			m, err := repoUnmarshal(d.As, b)
			if err != nil {
				return "refused"
			}
			return "decodes to " + sumM(m)
		}
		out = sum(in) + " " + one(in)
		if d.Cuts {
			for k := range in {
				out += fmt.Sprintf("; first %d bytes: %s", k, one(in[:k]))
			}
		}
		return out
	case 2:
		f := newFarm(c, it.Salt, c.listenerOpts()...)
		a := f.dial(c)
		defer a.Close()
		pr := newPeer(a)
		send := func(raw []byte, wf bool) bool {
			a.Write(raw)
			b, err := pr.recv(opTimeout)
			out += "; " + sum(raw) + " -> "
			if err != nil {
				out += err.Error()
				return false
			}
			m, ok := decode(b)
			switch {
			case !ok:
				out += "malformed " + sum(b)
			case m.T == tRerror && !wf:
				out += fmt.Sprintf("Rerror tag %d", m.Tag)
			default:
				out += sumM(m)
			}
			return true
		}
		if send(encode(M{T: tTversion, Tag: 65535, N: 4000, S1: "9P2000"}), true) {
			for _, r := range it.Reqs {
				_, wf := r.parse()
				if !send(r.bytes(), wf) {
					break
				}
			}
		}
		if it.End > 0 {
			// Part of a message, and the end of the stream.
			a.Write(it.Junk.Expand())
			a.w.end(io.EOF)
			for {
				b, err := pr.recv(opTimeout)
				if err != nil {
					out += "; at the end " + err.Error()
					break
				}
				out += "; at the end " + sum(b)
			}
		}
		for _, ns := range f.served() {
			for _, m := range ns.taken() {
				out += "; call " + sumM(m)
			}
		}
		return out
	case 3:
		a, b := memPair()
		cl := newTraced(c, a, c.trace)
		pr := newPeer(b)
		defer a.Close()
		defer b.Close()
		for _, x := range it.Cal {
			if !isReq(x.M.T) {
				continue
			}
			cr := startCall(cl, x.M.M(), 0)
			raw, err := pr.recv(opTimeout)
			if err != nil {
				return out + "; no request: " + err.Error()
			}
			rep := x.Rep
			rep.M.Tag = le.Uint16(raw[5:])
			reply := rep.bytes()
			if x.Stray != nil {
				st := *x.Stray
				st.M.Tag = rep.M.Tag ^ (st.M.Tag | 1)
				b.Write(st.bytes())
			}
			b.Write(reply)
			t := time.NewTimer(opTimeout)
			select {
			case <-cr.done:
			case <-t.C:
				return out + "; the call does not return"
			}
			t.Stop()
			le.PutUint16(raw[5:], 0)
			out += "; " + sum(raw) + " -> " + sum(reply) + ": "
			m, wf := decode(reply)
			switch {
			case cr.err != nil && wf && m.T == tRerror:
				out += "error " + short(cr.err.Error())
			case cr.err != nil:
				out += "an error"
			default:
				out += sumM(cr.r)
			}
		}
		if it.End > 0 {
			// The server goes away, perhaps within a message, or sends
			// what is no message.
			cr := startCall(cl, M{T: tTclunk, Fid: 77}, 0)
			if _, err := pr.recv(opTimeout); err != nil {
				return out + "; no request: " + err.Error()
			}
			b.Write(it.Junk.Expand())
			if it.End == 1 {
				b.Close()
			} else {
				b.w.end(errReset)
			}
			for k := 0; k < 2; k++ {
				t := time.NewTimer(opTimeout)
				select {
				case <-cr.done:
					out += fmt.Sprintf("; at the end %v", cr.err != nil)
				case <-t.C:
					return out + "; at the end timeout"
				}
				t.Stop()
				cr = startCall(cl, M{T: tTstat, Fid: 77}, 0)
			}
		}
		return out
	case 4:
		if it.Dir.size() > 65535 {
			return "none"
		}
		b := bytes.NewBuffer(it.Junk.Expand())
		protocol.Marshaldir(b, it.Dir.repo())
		out = "encodes to " + sum(b.Bytes())
		d, err := protocol.Unmarshaldir(b)
		return out + fmt.Sprintf(", decodes to %+v, %v", d, err == nil)
	case 5:
		b := bytes.NewBuffer(it.Junk.Expand())
		protocol.ServerError(b, string(it.S))
		return "makes " + sum(b.Bytes())
	}
	return "none"
}

func isReq(t uint8) bool {
	for _, x := range tTypes {
		if x == t {
			return true
		}
	}
	return false
}

// behaveMode reads plans, one per line, and writes descriptions.
func behaveMode() {
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	out := bufio.NewWriter(os.Stdout)
	for {
		l, err := in.ReadBytes('\n')
		if err != nil {
			os.Exit(0)
		}
		var p planC03
		if err := json.Unmarshal(l, &p); err != nil {
			fmt.Fprintln(os.Stderr, "harness:", err)
			os.Exit(4)
		}
		c := &Ctx{labels: map[string]int{}}
		var res []string
		for _, it := range p.Items {
			res = append(res, behave(c, it))
		}
		for _, f := range c.cleanup {
			f()
		}
		b, _ := json.Marshal(res)
		out.Write(append(b, '\n'))
		out.Flush()
	}
}

// a build of this program that describes behaviour
type behaver struct {
	path string
	mu   sync.Mutex
	cmd  *exec.Cmd
	in   io.WriteCloser
	out  *bufio.Reader
	err  *limited
}

var errCrash = errors.New("the process ended")

func (b *behaver) stop() {
	if b.cmd != nil {
		b.cmd.Process.Kill()
		b.cmd.Wait()
		b.cmd = nil
	}
}

// ask returns the description, or that the process crashed or does not answer.
func (b *behaver) ask(c *Ctx, plan []byte) ([]string, error) {
	b.mu.Lock()
	defer b.mu.Unlock()
	if b.cmd == nil {
		cmd := exec.Command(b.path, "-mode", "behave", "-prop", "C03", "-optimeout", fmt.Sprint(opTimeout.Seconds()))
		cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
		b.err = &limited{}
		cmd.Stderr = b.err
		in, err := cmd.StdinPipe()
		c.Must(err)
		out, err := cmd.StdoutPipe()
		c.Must(err)
		c.Must(cmd.Start())
		b.cmd, b.in, b.out = cmd, in, bufio.NewReaderSize(out, 1<<20)
	}
	type ans struct {
		l   []byte
		err error
	}
	ch := make(chan ans, 1)
	in, out := b.in, b.out
	go func() {
		if _, err := in.Write(append(plan, '\n')); err != nil {
			ch <- ans{nil, err}
			return
		}
		l, err := out.ReadBytes('\n')
		ch <- ans{l, err}
	}()
	t := time.NewTimer(6 * opTimeout)
	defer t.Stop()
	select {
	case a := <-ch:
		if a.err != nil {
			b.cmd.Wait()
			code, _ := exitCode(nil)
			if b.cmd.ProcessState != nil {
				code = b.cmd.ProcessState.ExitCode()
			}
			b.cmd = nil
			e := b.err.b.String()
			if !crashed(code, e) {
				c.Broken("%s: exit %d: %s", b.path, code, tail(e, 2000))
			}
			return nil, errCrash
		}
		var r []string
		c.Must(json.Unmarshal(a.l, &r))
		return r, nil
	case <-t.C:
		b.stop()
		return nil, errTimeout
	}
}

var behOld, behNew *behaver

func runC03(c *Ctx, pl interface{}) {
	p := pl.(*planC03)
	if *fAlt == "" {
		c.Broken("no regenerated build")
	}
	if behOld == nil {
		self, err := os.Executable()
		c.Must(err)
		behOld, behNew = &behaver{path: self}, &behaver{path: *fAlt}
	}
	b, err := json.Marshal(p)
	c.Must(err)
	var o, n []string
	var oe, ne error
	var wg sync.WaitGroup
	wg.Add(1)
	var he interface{}
	go func() {
		defer wg.Done()
		defer func() { he = recover() }()
		n, ne = behNew.ask(c, append([]byte(nil), b...))
	}()
	o, oe = behOld.ask(c, append([]byte(nil), b...))
	wg.Wait()
	if he != nil {
		panic(he)
	}
	if oe == errTimeout && ne == errTimeout {
		c.Label("neither answers")
		return
	}
	if oe == errTimeout || ne == errTimeout {
		c.Hangf("one build does not answer: committed stubs: %v, regenerated: %v", oe, ne)
	}
	if oe != ne {
		c.Failf("committed stubs: %v, regenerated: %v", oe, ne)
	}
	for i := range o {
		if i < len(n) && o[i] != n[i] {
			if strings.Contains(o[i], "timeout") != strings.Contains(n[i], "timeout") {
				c.Hangf("item %d: committed stubs: %s; regenerated: %s", i, tail(o[i], 3000), tail(n[i], 3000))
			}
			k := 0
			for k < len(o[i]) && k < len(n[i]) && o[i][k] == n[i][k] {
				k++
			}
			if k > 1000 {
				k -= 500
			} else {
				k = 0
			}
			c.Failf("item %d (kind %d): with the committed stubs %s; with regenerated ones %s", i, p.Items[i].K, tail(o[i][k:], 1500), tail(n[i][k:], 1500))
		}
	}
	if len(o) != len(n) {
		c.Failf("%d and %d descriptions", len(o), len(n))
	}
	for _, it := range p.Items {
		c.Label("%s", [...]string{"encode", "decode", "server session", "client calls", "directory entry", "ServerError"}[it.K%6])
		switch it.K {
		case 0:
			c.Label("encode %s", tname(it.M.T))
		case 1:
			c.Label("decode %s", tname(it.Dec.As))
		case 2:
			for _, r := range it.Reqs {
				c.Label("serve %s", tname(r.T))
			}
		case 3:
			for _, x := range it.Cal {
				c.Label("call %s", tname(x.M.T))
			}
		}
	}
	c.NonTrivial()
}

func init() {
	register(&Prop{ID: "C03", Rule: "the plan was executed by both builds and the descriptions compared", Quick: 12000, Thorough: 500000,
		Assume: []string{"texts of errors that the code makes up itself may differ", "the generator reads the message definitions of the tree under test"},
		New:    func() interface{} { return &planC03{} }, Gen: genC03, Run: runC03})
}
