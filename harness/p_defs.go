package main

import (
	"bytes"
	"context"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

// C36: the generator makes working stubs for whatever the messages are defined
// to be. A case gives some of the messages other members, generates the stubs,
// builds a program with them, and has that compare them with the definition.

type defC36 struct {
	Msg  string // attach, walk, ...
	T, R []int  // types of the members, as indices into typesC36
}

type planC36 struct {
	Defs []defC36
	Seed uint32 // of the values
}

var typesC36 = []string{
	"uint8", "uint16", "uint32", "uint64", "string", "[]string", "[]byte", "[]DataCnt16", "[]QID", "QID",
	"FID", "Tag", "Mode", "Perm", "Offset", "Count", "MaxSize", "NumEntries", "MType", "Dir", "int32",
}

var msgsC36 = []string{"attach", "flush", "walk", "open", "create", "stat", "wstat", "clunk", "remove", "read", "write"}

func genC36(g *G) interface{} {
	p := &planC36{Seed: g.r.Uint32() >> 4}
	members := func() (l []int) {
		n := g.W(6, 14, 20, 20, 14, 10, 6, 5, 5)
		if g.P(5) {
			n = g.R(9, 25)
		}
		for ; n > 0; n-- {
			if len(l) > 0 && g.P(20) {
				l = append(l, l[len(l)-1])
			} else {
				l = append(l, g.N(len(typesC36)))
			}
		}
		return
	}
	for _, m := range msgsC36 {
		if g.P(90) {
			p.Defs = append(p.Defs, defC36{Msg: m, T: members(), R: members()})
		}
	}
	return p
}

// edit is a replacement of a piece of a source file.
type editC36 struct {
	from, to int
	text     string
}

func edited(src []byte, es []editC36) []byte {
	sort.Slice(es, func(i, j int) bool { return es[i].from < es[j].from })
	var out bytes.Buffer
	at := 0
	for _, e := range es {
		out.Write(src[at:e.from])
		out.WriteString(e.text)
		at = e.to
	}
	out.Write(src[at:])
	return out.Bytes()
}

func typeC36(i int) string { return typesC36[uint(i)%uint(len(typesC36))] }

// goType is the type of a parameter for a member.
func goType(t, pkg string) string {
	if t == "[]DataCnt16" {
		return "[]byte"
	}
	e := strings.TrimPrefix(t, "[]")
	if e[0] >= 'A' && e[0] <= 'Z' {
		return strings.TrimSuffix(t, e) + pkg + e
	}
	return t
}

func params(pre string, l []int, pkg string) string {
	var s []string
	for i, t := range l {
		s = append(s, fmt.Sprintf("%s%d %s", pre, i, goType(typeC36(t), pkg)))
	}
	return strings.Join(s, ", ")
}

func runC36(c *Ctx, pl interface{}) {
	p := pl.(*planC36)
	gp := filepath.Join(c.Dir, "gp")
	tree := filepath.Join(gp, "src/github.com/Harvey-OS/ninep")
	err := filepath.Walk(*fSrc, func(f string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(*fSrc, f)
		switch {
		case fi.IsDir() && fi.Name() == ".git":
			return filepath.SkipDir
		case fi.IsDir():
			return os.MkdirAll(filepath.Join(tree, rel), 0755)
		case !strings.HasSuffix(f, ".go") || strings.HasSuffix(f, "_test.go"):
			return nil
		}
		b, err := os.ReadFile(f)
		if err != nil {
			return err
		}
		return os.WriteFile(filepath.Join(tree, rel), b, 0644)
	})
	c.Must(err)
	proto := filepath.Join(tree, "protocol")

	// Where the messages are defined.
	type place struct {
		file     string
		from, to int
	}
	structs, methods := map[string]place{}, map[string]place{}
	fset := token.NewFileSet()
	files, _ := filepath.Glob(filepath.Join(proto, "*.go"))
	for _, f := range files {
		if filepath.Base(f) == "gen.go" || filepath.Base(f) == "genout.go" {
			continue
		}
		t, err := parser.ParseFile(fset, f, nil, parser.ParseComments)
		c.Must(err)
		at := func(n ast.Node) place { return place{f, fset.Position(n.Pos()).Offset, fset.Position(n.End()).Offset} }
		ast.Inspect(t, func(n ast.Node) bool {
			s, ok := n.(*ast.TypeSpec)
			if !ok {
				return true
			}
			switch u := s.Type.(type) {
			case *ast.StructType:
				structs[s.Name.Name] = at(u)
			case *ast.InterfaceType:
				if s.Name.Name == "NineServer" {
					for _, m := range u.Methods.List {
						if len(m.Names) == 1 {
							methods[m.Names[0].Name] = at(m)
						}
					}
				}
			}
			return true
		})
	}
	var defs []defC36
	es, is := map[string][]editC36{}, map[string][]editC36{}
	seen := map[string]bool{}
	for _, d := range p.Defs {
		ts, ok1 := structs["T"+d.Msg+"Pkt"]
		rs, ok2 := structs["R"+d.Msg+"Pkt"]
		m, ok3 := methods["R"+d.Msg]
		if !ok1 || !ok2 || !ok3 || seen[d.Msg] {
			c.Label("not defined where expected")
			continue
		}
		seen[d.Msg] = true
		defs = append(defs, d)
		st := func(pre string, l []int) string {
			s := "struct {\n"
			for i, t := range l {
				s += fmt.Sprintf("\t%s%d %s\n", pre, i, typeC36(t))
			}
			return s + "}"
		}
		es[ts.file] = append(es[ts.file], editC36{ts.from, ts.to, st("TA", d.T)})
		es[rs.file] = append(es[rs.file], editC36{rs.from, rs.to, st("RA", d.R)})
		res := params("RA", d.R, "")
		if res != "" {
			res += ", "
		}
		is[m.file] = append(is[m.file], editC36{m.from, m.to, "R" + d.Msg + "(" + params("TA", d.T, "") + ") (" + res + "err error)"})
	}
	if len(defs) == 0 {
		return
	}
	orig := map[string][]byte{}
	apply := func(maps ...map[string][]editC36) {
		for f, src := range orig {
			var l []editC36
			for _, m := range maps {
				l = append(l, m[f]...)
			}
			c.Must(os.WriteFile(f, edited(src, l), 0644))
		}
	}
	for _, m := range []map[string][]editC36{es, is} {
		for f := range m {
			b, err := os.ReadFile(f)
			c.Must(err)
			orig[f] = b
		}
	}
	cache := filepath.Join(c.Dir, "cache")
	if out, err := exec.Command("cp", "-al", os.Getenv("GOCACHE"), cache).CombinedOutput(); err != nil {
		c.Broken("copying the build cache: %v: %s", err, out)
	}
	tool := func(dir string, args ...string) (string, bool) {
		ctx, cancel := context.WithTimeout(context.Background(), 5*time.Minute)
		defer cancel()
		cmd := exec.CommandContext(ctx, args[0], args[1:]...)
		cmd.Dir = dir
		cmd.Env = append(os.Environ(), "GOPATH="+gp, "GOCACHE="+cache, "GOMAXPROCS=2", "GOFLAGS=-p=2", "TMPDIR="+c.Dir)
		b, err := cmd.CombinedOutput()
		if ctx.Err() != nil {
			c.Broken("%v takes too long", args)
		}
		return string(b), err == nil
	}
	show := func() string {
		s := "the definitions:\n"
		for _, d := range defs {
			s += fmt.Sprintf("  T%s {%s}, R%s {%s}\n", d.Msg, params("TA", d.T, ""), d.Msg, params("RA", d.R, ""))
		}
		return s
	}
	// As a developer does: the members first, then the stubs, then the
	// interface that the new stubs call.
	apply(es)
	if out, ok := tool(proto, "go", "build", "-o", filepath.Join(c.Dir, "gen"), "gen.go"); !ok {
		c.Label("other code depends on the members: %s", firstWords(out, 60))
		return
	}
	if out, ok := tool(proto, filepath.Join(c.Dir, "gen")); !ok {
		c.Failf("go run gen.go fails: %s\n%s", out, show())
	}
	apply(es, is)
	drv := filepath.Join(gp, "src/driver")
	c.Must(os.MkdirAll(drv, 0755))
	var tab, ms bytes.Buffer
	for _, d := range defs {
		q := func(l []int) string {
			var s []string
			for _, t := range l {
				s = append(s, fmt.Sprintf("%q", typeC36(t)))
			}
			return "[]string{" + strings.Join(s, ",") + "}"
		}
		fmt.Fprintf(&tab, "\t{%q, %s, %s, byte(protocol.T%[1]s), byte(protocol.R%[1]s), protocol.MarshalT%[1]sPkt, protocol.UnmarshalT%[1]sPkt, protocol.MarshalR%[1]sPkt, protocol.UnmarshalR%[1]sPkt, (*protocol.Client).CallT%[1]s},\n", d.Msg, q(d.T), q(d.R))
		var args, rets []string
		for i := range d.T {
			args = append(args, fmt.Sprintf("TA%d", i))
		}
		for i := range d.R {
			rets = append(rets, fmt.Sprintf("&RA%d", i))
		}
		res := params("RA", d.R, "protocol.")
		if res != "" {
			res += ", "
		}
		fmt.Fprintf(&ms, "func (n *ns) R%s(%s) (%serr error) {\n\terr = n.called(%q, []interface{}{%s}, []interface{}{%s})\n\treturn\n}\n", d.Msg, params("TA", d.T, "protocol."), res, d.Msg, strings.Join(args, ", "), strings.Join(rets, ", "))
	}
	src := strings.Replace(driverC36, "//TABLE\n", tab.String(), 1) + ms.String()
	src = strings.Replace(src, "SEED", fmt.Sprint(p.Seed), 1)
	c.Must(os.WriteFile(filepath.Join(drv, "main.go"), []byte(src), 0644))
	if out, ok := tool(drv, "go", "build", "-o", filepath.Join(c.Dir, "driver"), "."); !ok {
		if strings.Contains(out, "ninep/protocol/") || strings.Contains(out, "main.go:") {
			if !strings.Contains(out, "genout.go:") && !strings.Contains(out, "main.go:") {
				c.Label("other code depends on the members")
				return
			}
			c.Failf("the generated stubs do not compile, or do not have the members in their order: %s\n%s", out, show())
		}
		c.Broken("%s", out)
	}
	if out, ok := tool(drv, filepath.Join(c.Dir, "driver")); !ok {
		if strings.HasPrefix(out, "HARNESS:") {
			c.Broken("%s", out)
		}
		if len(out) > 4000 {
			out = out[:4000]
		}
		c.Failf("%s\n%s", out, show())
	}
	for _, d := range defs {
		for _, l := range [][]int{d.T, d.R} {
			kinds := map[int]bool{}
			for _, t := range l {
				kinds[t] = true
				c.Label("member of type %s", typeC36(t))
			}
			if len(l) >= 3 && len(kinds) >= 2 {
				c.NonTrivial()
			}
			c.Label("message defined and exercised")
		}
	}
}

func init() {
	register(&Prop{ID: "C36", Rule: "stubs were generated, built and exercised for a message of at least three members of at least two types", Quick: 120, Thorough: 1500,
		Assume: []string{"member types are those that occur in 9P messages, and lists of those kinds that occur as lists; names follow the rules stated in protocol.go (members of T and R messages differ, none is named like a type)"},
		New:    func() interface{} { return new(planC36) }, Gen: genC36, Run: runC36})
}

const driverC36 = `package main

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"log"
	"math/rand"
	"net"
	"os"
	"reflect"
	"strings"
	"time"

	"github.com/Harvey-OS/ninep/protocol"
)

var table = []struct {
	name                               string
	tt, rt                             []string
	tn, rn                             byte
	mt, ut, mr, ur, call interface{}
}{
//TABLE
}

var rnd = rand.New(rand.NewSource(SEED))
var le = binary.LittleEndian

func die(f string, a ...interface{}) {
	fmt.Printf(f+"\n", a...)
	os.Exit(1)
}

func str() string {
	n := []int{0, 1, rnd.Intn(10), rnd.Intn(300)}[rnd.Intn(4)]
	if rnd.Intn(400) == 0 {
		n = 65535
	}
	b := make([]byte, n)
	rnd.Read(b)
	return string(b)
}

func num() uint64 {
	switch rnd.Intn(6) {
	case 0:
		return 0
	case 1:
		return ^uint64(0)
	case 2:
		return 1 << uint(rnd.Intn(64))
	}
	return rnd.Uint64()
}

// value makes a value of a member of type t.
func value(t string, gt reflect.Type) reflect.Value {
	v := reflect.New(gt).Elem()
	fill(t, v)
	return v
}

func fill(t string, v reflect.Value) {
	switch v.Kind() {
	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		n := num()
		v.SetUint(n << (64 - uint(v.Type().Bits())) >> (64 - uint(v.Type().Bits())))
	case reflect.Int32:
		v.SetInt(int64(int32(num())))
	case reflect.String:
		v.SetString(str())
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			fill("", v.Field(i))
		}
	case reflect.Slice:
		n := []int{0, 1, rnd.Intn(5), rnd.Intn(40)}[rnd.Intn(4)]
		if v.Type().Elem().Kind() == reflect.Uint8 {
			n *= 1 + rnd.Intn(30)
			if t != "[]DataCnt16" && rnd.Intn(300) == 0 {
				n = 65536 + rnd.Intn(10)
			}
		}
		s := reflect.MakeSlice(v.Type(), n, n)
		for i := 0; i < n; i++ {
			fill("", s.Index(i))
		}
		v.Set(s)
	default:
		fmt.Printf("HARNESS: %v\n", v.Kind())
		os.Exit(2)
	}
}

// enc is the wire format of a member.
func enc(t string, v reflect.Value, b []byte) []byte {
	switch v.Kind() {
	case reflect.Uint8:
		return append(b, byte(v.Uint()))
	case reflect.Uint16:
		return le.AppendUint16(b, uint16(v.Uint()))
	case reflect.Uint32:
		return le.AppendUint32(b, uint32(v.Uint()))
	case reflect.Uint64:
		return le.AppendUint64(b, v.Uint())
	case reflect.Int32:
		return le.AppendUint32(b, uint32(v.Int()))
	case reflect.String:
		return append(le.AppendUint16(b, uint16(v.Len())), v.String()...)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			b = enc("", v.Field(i), b)
		}
		return b
	}
	if v.Type().Elem().Kind() == reflect.Uint8 && t != "[]DataCnt16" {
		b = le.AppendUint32(b, uint32(v.Len()))
	} else {
		b = le.AppendUint16(b, uint16(v.Len()))
	}
	for i := 0; i < v.Len(); i++ {
		b = enc("", v.Index(i), b)
	}
	return b
}

var short = errors.New("short")

func take(b *[]byte, n uint64) []byte {
	if uint64(len(*b)) < n {
		panic(short)
	}
	x := (*b)[:n]
	*b = (*b)[n:]
	return x
}

// dec takes a member off b.
func dec(t string, v reflect.Value, b *[]byte) {
	switch v.Kind() {
	case reflect.Uint8:
		v.SetUint(uint64(take(b, 1)[0]))
	case reflect.Uint16:
		v.SetUint(uint64(le.Uint16(take(b, 2))))
	case reflect.Uint32:
		v.SetUint(uint64(le.Uint32(take(b, 4))))
	case reflect.Uint64:
		v.SetUint(le.Uint64(take(b, 8)))
	case reflect.Int32:
		v.SetInt(int64(int32(le.Uint32(take(b, 4)))))
	case reflect.String:
		v.SetString(string(take(b, uint64(le.Uint16(take(b, 2))))))
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			dec("", v.Field(i), b)
		}
	case reflect.Slice:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			var n uint64
			if t == "[]DataCnt16" {
				n = uint64(le.Uint16(take(b, 2)))
			} else {
				n = uint64(le.Uint32(take(b, 4)))
			}
			v.SetBytes(append([]byte{}, take(b, n)...))
			return
		}
		n := int(le.Uint16(take(b, 2)))
		s := reflect.MakeSlice(v.Type(), 0, 0)
		for i := 0; i < n; i++ {
			e := reflect.New(v.Type().Elem()).Elem()
			dec("", e, b)
			s = reflect.Append(s, e)
		}
		v.Set(s)
	}
}

func eq(a, b reflect.Value) bool {
	if a.Type() != b.Type() {
		return false
	}
	if a.Kind() == reflect.Slice && a.Len() == 0 && b.Len() == 0 {
		return true
	}
	return reflect.DeepEqual(a.Interface(), b.Interface())
}

func text(l []reflect.Value) string {
	var s []string
	for _, v := range l {
		x := fmt.Sprintf("%#v", v.Interface())
		if len(x) > 200 {
			x = x[:200] + "..."
		}
		s = append(s, x)
	}
	return strings.Join(s, ", ")
}

// body is what a body decodes to, or not.
func body(tt []string, types []reflect.Type, b []byte) (vs []reflect.Value, tag uint16, ok bool) {
	defer func() {
		if x := recover(); x != nil {
			if x != short {
				panic(x)
			}
			ok = false
		}
	}()
	tag = le.Uint16(take(&b, 2))
	for i, t := range tt {
		v := reflect.New(types[i]).Elem()
		dec(t, v, &b)
		vs = append(vs, v)
	}
	return vs, tag, len(b) == 0
}

func call(f interface{}, args ...reflect.Value) []reflect.Value { return reflect.ValueOf(f).Call(args) }

func isErr(v reflect.Value) bool { return !v.IsNil() }

// codec checks one message.
func codec(name string, tt []string, typ byte, m, u interface{}) {
	mt := reflect.TypeOf(m) // func(*bytes.Buffer, Tag, members...)
	if mt.NumIn() != 2+len(tt) {
		die("Marshal%s takes %d members, not %d", name, mt.NumIn()-2, len(tt))
	}
	ut := reflect.TypeOf(u) // func(*bytes.Buffer) (members..., Tag, error)
	if ut.NumOut() != 2+len(tt) {
		die("Unmarshal%s returns %d members, not %d", name, ut.NumOut()-2, len(tt))
	}
	var types []reflect.Type
	for i := range tt {
		types = append(types, mt.In(2+i))
		if ut.Out(i) != mt.In(2+i) {
			die("member %d of %s is a %v when encoded and a %v when decoded", i, name, mt.In(2+i), ut.Out(i))
		}
	}
	decode := func(b []byte, why string) {
		want, tag, ok := body(tt, types, b)
		r := call(u, reflect.ValueOf(bytes.NewBuffer(append([]byte{}, b...))))
		if ok == isErr(r[len(r)-1]) {
			die("%s: decoding %s (%x) gives error %v", name, why, cut(b), r[len(r)-1])
		}
		if !ok {
			return
		}
		for i := range want {
			if !eq(want[i], r[i]) {
				die("%s: decoding %s (%x) gives %s, not %s", name, why, cut(b), text(r), text(want))
			}
		}
		if uint16(r[len(r)-2].Uint()) != tag {
			die("%s: decoding %s gives tag %v, not %d", name, why, r[len(r)-2], tag)
		}
	}
	for k := 0; k < 60; k++ {
		tag := uint16(num())
		var vs []reflect.Value
		want := []byte{0, 0, 0, 0, typ, byte(tag), byte(tag >> 8)}
		for i, t := range tt {
			v := value(t, types[i])
			vs = append(vs, v)
			want = enc(t, v, want)
		}
		le.PutUint32(want, uint32(len(want)))
		b := bytes.NewBufferString("old contents")
		call(m, append([]reflect.Value{reflect.ValueOf(b), reflect.ValueOf(protocol.Tag(tag))}, vs...)...)
		if !bytes.Equal(b.Bytes(), want) {
			die("%s{%s} with tag %d is encoded as %x, not %x", name, text(vs), tag, cut(b.Bytes()), cut(want))
		}
		bd := want[5:]
		decode(bd, "what was encoded")
		for j := 0; j < 12; j++ {
			decode(bd[:rnd.Intn(len(bd))], "a part of it")
			x := append([]byte{}, bd...)
			for n := 1 + rnd.Intn(3); n > 0; n-- {
				x[rnd.Intn(len(x))] = byte(num())
			}
			decode(x, "a changed copy")
		}
		decode(append(append([]byte{}, bd...), byte(num())), "one byte too many")
	}
	for k := 0; k < 40; k++ {
		b := make([]byte, rnd.Intn(60))
		for i := range b {
			if rnd.Intn(3) == 0 {
				b[i] = byte(num())
			}
		}
		decode(b, "random bytes")
	}
}

func cut(b []byte) []byte {
	if len(b) > 200 {
		return b[:200]
	}
	return b
}

// ns notes what it is called with and answers what it was told to.
type ns struct {
	protocol.NineServer
	name string
	args []reflect.Value
	ret  []reflect.Value
	err  error
}

func (n *ns) Rversion(m protocol.MaxSize, v string) (protocol.MaxSize, string, error) { return m, v, nil }

func (n *ns) called(name string, args, ret []interface{}) error {
	n.name, n.args = name, nil
	for _, a := range args {
		v := reflect.ValueOf(a)
		if v.Kind() == reflect.Slice {
			w := reflect.MakeSlice(v.Type(), v.Len(), v.Len())
			reflect.Copy(w, v)
			v = w
		}
		n.args = append(n.args, v)
	}
	if n.err != nil {
		return n.err
	}
	for i, r := range ret {
		reflect.ValueOf(r).Elem().Set(n.ret[i])
	}
	return nil
}

func main() {
	log.SetOutput(io.Discard)
	time.AfterFunc(4*time.Minute, func() { die("a call is not answered") })
	for _, m := range table {
		codec("T"+m.name, m.tt, m.tn, m.mt, m.ut)
		codec("R"+m.name, m.rt, m.rn, m.mr, m.ur)
	}
	n := &ns{}
	l, err := protocol.NewListener(func() protocol.NineServer { return n })
	if err != nil {
		die("NewListener: %v", err)
	}
	a, b := net.Pipe()
	l.Accept(a)
	cl, err := protocol.NewClient(func(c *protocol.Client) error {
		c.FromNet, c.ToNet = b, b
		return nil
	})
	if err != nil {
		die("NewClient: %v", err)
	}
	if _, _, err := cl.CallTversion(1<<20, "9P2000"); err != nil {
		die("version: %v", err)
	}
	for k := 0; k < 40; k++ {
		for _, i := range rnd.Perm(len(table)) {
			m := table[i]
			ct := reflect.TypeOf(m.call) // func(*Client, members...) (members..., error)
			if ct.NumIn() != 1+len(m.tt) || ct.NumOut() != 1+len(m.rt) {
				die("CallT%s takes %d members and returns %d, not %d and %d", m.name, ct.NumIn()-1, ct.NumOut()-1, len(m.tt), len(m.rt))
			}
			var args []reflect.Value
			for j, t := range m.tt {
				args = append(args, value(t, ct.In(1+j)))
			}
			n.ret, n.name, n.err = nil, "", nil
			for j, t := range m.rt {
				n.ret = append(n.ret, value(t, ct.Out(j)))
			}
			if rnd.Intn(4) == 0 {
				n.err = errors.New(fmt.Sprintf("error %d", k))
			}
			r := call(m.call, append([]reflect.Value{reflect.ValueOf(cl)}, args...)...)
			if n.name != m.name {
				die("CallT%s(%s) reaches the server as %q", m.name, text(args), n.name)
			}
			for j := range args {
				if !eq(args[j], n.args[j]) {
					die("CallT%s(%s) reaches the server with %s", m.name, text(args), text(n.args))
				}
			}
			if n.err != nil {
				if e := r[len(r)-1]; !isErr(e) || e.Interface().(error).Error() != n.err.Error() {
					die("CallT%s: error %v, not %v", m.name, e, n.err)
				}
				continue
			}
			if isErr(r[len(r)-1]) {
				die("CallT%s(%s), which the server answers with %s, gives error %v", m.name, text(args), text(n.ret), r[len(r)-1])
			}
			for j := range n.ret {
				if !eq(n.ret[j], r[j]) {
					die("CallT%s(%s), which the server answers with %s, returns %s", m.name, text(args), text(n.ret), text(r))
				}
			}
		}
	}
	fmt.Println("ok")
}

`
