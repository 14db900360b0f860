package main

import (
	"bytes"
	"fmt"

	"github.com/Harvey-OS/ninep/protocol"
)

// ---- C01: wire format and round trip

type planC01 struct {
	Junk Blob // what the destination buffer holds before
	Read int  // how much of it has been read already
	Ms   []Msg
	Dirs []DirMsg
}

func genC01(g *G) interface{} {
	p := &planC01{}
	if g.P(60) {
		p.Junk = g.Blob(300)
		p.Read = g.N(p.Junk.Len() + 1)
	}
	n := g.R(1, 5)
	for i := 0; i < n; i++ {
		p.Ms = append(p.Ms, g.Msg(allTypes[g.N(len(allTypes))], g.P(25)))
	}
	if g.P(40) {
		p.Dirs = append(p.Dirs, g.Dir(g.P(30)))
	}
	switch g.Idx {
	case 3, 4: // more than 24 bits of size
		p.Ms = []Msg{{T: pick(g, uint8(tRread), tTwrite), Tag: 7, Fid: 9, Off: 1 << 40, Data: Blob{N: 1<<24 + g.N(1000), S: 1}}}
	case 5, 6: // as many elements as the count can say
		m := Msg{T: tRwalk, Tag: 3}
		for i := 0; i < 65535; i++ {
			m.Qids = append(m.Qids, QID{1, uint32(i), uint64(i) << 32})
		}
		w := Msg{T: tTwalk, Tag: 3}
		for i := 0; i < 65535; i++ {
			w.Names = append(w.Names, Str(fmt.Sprint(i%7)))
		}
		p.Ms = []Msg{m, w}
	}
	return p
}

func diffAt(a, b []byte) string {
	n := 0
	for n < len(a) && n < len(b) && a[n] == b[n] {
		n++
	}
	w := func(x []byte) []byte {
		if n > len(x) {
			return nil
		}
		e := n + 12
		if e > len(x) {
			e = len(x)
		}
		return x[n:e]
	}
	return fmt.Sprintf("differ at byte %d of %d/%d: % x / % x", n, len(a), len(b), w(a), w(b))
}

func runC01(c *Ctx, pl interface{}) {
	p := pl.(*planC01)
	mk := func() *bytes.Buffer {
		b := bytes.NewBuffer(p.Junk.Expand())
		if p.Read <= b.Len() {
			b.Next(p.Read)
		}
		return b
	}
	shared := mk()
	for i, pm := range p.Ms {
		m := pm.M()
		want := encode(m)
		for k, b := range []*bytes.Buffer{mk(), shared, {}} {
			repoMarshal(b, m)
			if !bytes.Equal(b.Bytes(), want) {
				c.Failf("encoding of %v (buffer kind %d): %s (got / want)", m, k, diffAt(b.Bytes(), want))
			}
		}
		b := bytes.NewBuffer(append([]byte(nil), want[5:]...))
		got, err := repoUnmarshal(m.T, b)
		if err != nil {
			c.Failf("decoding of %v: %v", m, err)
		}
		if !got.equal(m) {
			c.Failf("decoding of %v gives %v", m, got)
		}
		if b.Len() != 0 {
			c.Failf("decoding of %v leaves %d bytes", m, b.Len())
		}
		// The code's own image decodes the same way.
		var b2 bytes.Buffer
		repoMarshal(&b2, m)
		b2.Next(5)
		if got, err := repoUnmarshal(m.T, &b2); err != nil || !got.equal(m) {
			c.Failf("round trip of %v gives %v, %v", m, got, err)
		}
		c.Label("%s", tname(m.T))
		if len(m.Data) > 65535 || len(m.S1) > 255 || len(m.Names) > 16 || len(m.Qids) > 16 {
			c.Label("large")
		}
		if i > 0 || p.Junk.Len() > 0 {
			c.Label("used buffer")
		}
		if len(layouts[m.T]) > 0 {
			c.NonTrivial()
		}
	}
	for _, d := range p.Dirs {
		if d.size() > 65535 {
			continue // of a shrunk plan; can not be encoded
		}
		want := encodeDir(d)
		for k, b := range []*bytes.Buffer{mk(), shared, {}} {
			protocol.Marshaldir(b, d.repo())
			if !bytes.Equal(b.Bytes(), want) {
				c.Failf("encoding of dir %+v (buffer kind %d): %s (got / want)", d, k, diffAt(b.Bytes(), want))
			}
		}
		b := bytes.NewBuffer(append([]byte(nil), want...))
		got, err := protocol.Unmarshaldir(b)
		if err != nil || fromDir(got) != d {
			c.Failf("decoding of dir %+v gives %+v, %v", d, got, err)
		}
		if b.Len() != 0 {
			c.Failf("decoding of dir %+v leaves %d bytes", d, b.Len())
		}
		c.Label("Dir")
		c.NonTrivial()
	}
}

// ---- C02: strict decoding

type mut struct {
	K string // cut, add, set, ins, del, cnt
	P int
	B Str `json:",omitempty"`
	V uint32
}

type decItem struct {
	T     uint8 // 0: directory entry
	As    uint8 // type to decode as
	M     Msg
	Dir   DirMsg
	Raw   Str  `json:",omitempty"`
	IsRaw bool `json:",omitempty"`
	Len   []lenMut
	Muts  []mut
	Cuts  bool `json:",omitempty"` // try every prefix too
	Cap   Blob // bytes in the buffer's memory after the end of the message
}

// lenMut changes the K-th count in a message by D, or sets it to V if D is 0.
type lenMut struct {
	K, D int
	V    uint32
}

// countFields returns offset and width of the counts in tag and fields of m.
func countFields(m M) (r [][2]int) {
	o := 2
	add := func(w, n int) {
		r = append(r, [2]int{o, w})
		o += w + n
	}
	for _, k := range layouts[m.T] {
		switch k {
		case 'f', 'g', 'n', 'p':
			o += 4
		case 'o':
			o += 8
		case 'm':
			o++
		case 't':
			o += 2
		case 'q':
			o += 13
		case 's':
			add(2, len(m.S1))
		case 'u':
			add(2, len(m.S2))
		case 'N':
			add(2, 0)
			for _, s := range m.Names {
				add(2, len(s))
			}
		case 'Q':
			add(2, 13*len(m.Qids))
		case 'D':
			add(4, len(m.Data))
		case 'd':
			add(2, len(m.Data))
		}
	}
	return
}

func dirCountFields(d DirMsg) [][2]int {
	o := 41
	r := [][2]int{{0, 2}}
	for _, s := range []Str{d.Name, d.User, d.Group, d.Muid} {
		r = append(r, [2]int{o, 2})
		o += 2 + len(s)
	}
	return r
}

func mutateLens(b []byte, cf [][2]int, ms []lenMut) []byte {
	b = append([]byte(nil), b...)
	for _, m := range ms {
		if len(cf) == 0 {
			break
		}
		f := cf[m.K%len(cf)]
		v := m.V
		if f[1] == 2 {
			if m.D != 0 {
				v = uint32(int(le.Uint16(b[f[0]:])) + m.D)
			}
			le.PutUint16(b[f[0]:], uint16(v))
		} else {
			if m.D != 0 {
				v = uint32(int(le.Uint32(b[f[0]:])) + m.D)
			}
			le.PutUint32(b[f[0]:], v)
		}
	}
	return b
}

func (g *G) lens() []lenMut {
	if g.P(70) {
		return nil
	}
	m := lenMut{K: g.N(12), D: pick(g, -2, -1, -1, 0, 1, 1, 2, 13, -13)}
	if m.D == 0 {
		m.V = pick(g, uint32(0), 1, 0xFF, 0xFFFF, 0x7FFF, 0x8000, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF, 1<<16, 1<<24)
	}
	return []lenMut{m}
}

type planC02 struct{ Items []decItem }

func (g *G) muts(n int) []mut {
	var ms []mut
	for k := g.W(25, 50, 15, 10); k > 0; k-- {
		m := mut{K: pick(g, "cut", "cut", "add", "set", "ins", "del", "cnt"), P: g.N(n + 8)}
		if g.P(40) {
			m.P = n - g.N(5)
			if m.P < 0 {
				m.P = 0
			}
		}
		switch m.K {
		case "add", "ins":
			m.B = Str(g.Bytes(g.R(1, 5)))
		case "set":
			m.V = uint32(g.U8())
		case "cnt":
			m.V = pick(g, 0, 1, 2, 0xFFFF, 0xFFFFFFFF, 0x7FFFFFFF, 0x80000000, 256, 0x10000, g.U32())
		case "del":
			m.V = uint32(g.R(1, 4))
		}
		ms = append(ms, m)
	}
	return ms
}

func mutate(b []byte, ms []mut) []byte {
	b = append([]byte(nil), b...)
	for _, m := range ms {
		p := m.P
		if p > len(b) {
			p = len(b)
		}
		switch m.K {
		case "cut":
			b = b[:p]
		case "add":
			b = append(b, m.B...)
		case "ins":
			b = append(b[:p:p], append([]byte(m.B), b[p:]...)...)
		case "del":
			e := p + int(m.V)
			if e > len(b) {
				e = len(b)
			}
			b = append(b[:p:p], b[e:]...)
		case "set":
			if p < len(b) {
				b[p] = byte(m.V)
			}
		case "cnt": // 2 or 4 bytes
			var x [4]byte
			le.PutUint32(x[:], m.V)
			n := 4
			if m.V%2 == 0 {
				n = 2
			}
			copy(b[p:], x[:n])
		}
	}
	return b
}

func genC02(g *G) interface{} {
	p := &planC02{}
	for n := g.R(8, 20); n > 0; n-- {
		it := decItem{}
		if g.P(25) {
			it.Dir = g.Dir(g.P(5))
			it.Muts = g.muts(it.Dir.size() + 2)
			it.Len = g.lens()
		} else {
			it.T = allTypes[g.N(len(allTypes))]
			it.As = it.T
			if g.P(10) {
				it.As = allTypes[g.N(len(allTypes))]
			}
			it.M = g.Msg(it.T, g.P(5))
			n := len(encode(it.M.M())) - 5
			it.Muts = g.muts(n)
			if it.Len = g.lens(); it.Len != nil && g.P(80) {
				it.Muts = nil
			}
			it.Cuts = n < 200 && g.P(10)
		}
		if g.P(10) {
			it.IsRaw = true
			it.Raw = Str(g.Bytes(g.N(60)))
		}
		if g.P(50) {
			it.Cap = g.Blob(40)
			if g.P(50) { // looks like more of the same
				it.Cap = Blob{Lit: Str(bytes.Repeat([]byte{1, 0}, 100))}
			}
		}
		p.Items = append(p.Items, it)
	}
	return p
}

func runC02(c *Ctx, pl interface{}) {
	for _, it := range pl.(*planC02).Items {
		var base []byte
		switch {
		case it.IsRaw:
			base = []byte(it.Raw)
		case it.T == 0:
			base = mutateLens(encodeDir(it.Dir), dirCountFields(it.Dir), it.Len)
		default:
			if _, ok := layouts[it.T]; !ok {
				continue
			}
			if _, ok := layouts[it.As]; !ok {
				continue
			}
			base = mutateLens(encode(it.M.M())[5:], countFields(it.M.M()), it.Len)
		}
		in := mutate(base, it.Muts)
		if len(it.Muts) > 0 || len(it.Len) > 0 || it.Cuts || it.IsRaw || it.As != it.T {
			c.NonTrivial()
		}
		decodeOne(c, it, in)
		if it.Cuts {
			c.Label("all prefixes")
			for k := range in {
				decodeOne(c, it, in[:k])
			}
		}
	}
}

func decodeOne(c *Ctx, it decItem, in []byte) {
	full := append(append([]byte(nil), in...), it.Cap.Expand()...)
	b := bytes.NewBuffer(full[:len(in)])
	if it.T == 0 {
		want, n, sizeOK, ok := decodeDir(in)
		got, err := protocol.Unmarshaldir(b)
		switch {
		case !ok && err == nil:
			c.Failf("directory entry % x is incomplete but decodes to %+v", in, got)
		case ok && sizeOK && err != nil:
			c.Failf("directory entry % x is well-formed but refused: %v", in, err)
		case ok && err == nil && fromDir(got) != want:
			c.Failf("directory entry % x decodes to %+v, want %+v", in, got, want)
		case ok && sizeOK && !bytes.Equal(b.Bytes(), in[n:]):
			c.Failf("after the directory entry of %d bytes in % x, % x is left", n, in, b.Bytes())
		}
		c.Label("dir ok=%v", ok && sizeOK)
		return
	}
	want, ok := decodeBody(it.As, in)
	got, err := repoUnmarshal(it.As, b)
	switch {
	case !ok && err == nil:
		c.Failf("%s body % x is malformed but decodes to %v", tname(it.As), in, got)
	case ok && err != nil:
		c.Failf("%s body % x is well-formed but refused: %v", tname(it.As), in, err)
	case ok && !got.equal(want):
		c.Failf("%s body % x decodes to %v, want %v", tname(it.As), in, got, want)
	}
	c.Label("%s ok=%v", tname(it.As), ok)
}

func init() {
	register(&Prop{ID: "C01", Rule: "encodes at least one message with fields or a directory entry", Quick: 80000, Thorough: 3000000,
		Assume: []string{"the reference codec in /verif/harness/wire.go is right"},
		New:    func() interface{} { return &planC01{} }, Gen: genC01, Run: runC01})
	register(&Prop{ID: "C02", Rule: "at least one body is mutated, raw, or decoded as another type than it was made for", Quick: 80000, Thorough: 3000000,
		Assume: []string{"the reference decoder in /verif/harness/wire.go is right", "a directory entry whose size prefix disagrees with its contents may be accepted or refused"},
		New:    func() interface{} { return &planC02{} }, Gen: genC02, Run: runC02})
}
