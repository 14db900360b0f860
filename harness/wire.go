package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"reflect"

	"github.com/Harvey-OS/ninep/protocol"
)

// The reference 9P2000 codec. It is written from the protocol's description
// and shares nothing with the repository.

// 9P2000 message types.
const (
	tTversion = 100 + iota
	tRversion
	tTauth
	tRauth
	tTattach
	tRattach
	tTerror
	tRerror
	tTflush
	tRflush
	tTwalk
	tRwalk
	tTopen
	tRopen
	tTcreate
	tRcreate
	tTread
	tRread
	tTwrite
	tRwrite
	tTclunk
	tRclunk
	tTremove
	tRremove
	tTstat
	tRstat
	tTwstat
	tRwstat
)

const noFid = 0xFFFFFFFF

// layouts gives the fields after the tag: f,g fids; n uint32; p uint32 perm;
// o uint64; m uint8; t uint16 tag; s,u strings; N list of strings; q QID;
// Q list of QIDs; D data with a 32-bit count; d data with a 16-bit count.
var layouts = map[uint8]string{
	tTversion: "ns", tRversion: "ns",
	tTattach: "fgsu", tRattach: "q",
	tRerror: "s",
	tTflush: "t", tRflush: "",
	tTwalk: "fgN", tRwalk: "Q",
	tTopen: "fm", tRopen: "qn",
	tTcreate: "fspm", tRcreate: "qn",
	tTread: "fon", tRread: "D",
	tTwrite: "foD", tRwrite: "n",
	tTclunk: "f", tRclunk: "",
	tTremove: "f", tRremove: "",
	tTstat: "f", tRstat: "d",
	tTwstat: "fd", tRwstat: "",
}

var typeNames = map[uint8]string{
	tTversion: "Tversion", tRversion: "Rversion", tTauth: "Tauth", tRauth: "Rauth", tTattach: "Tattach", tRattach: "Rattach",
	tTerror: "Terror", tRerror: "Rerror", tTflush: "Tflush", tRflush: "Rflush", tTwalk: "Twalk", tRwalk: "Rwalk",
	tTopen: "Topen", tRopen: "Ropen", tTcreate: "Tcreate", tRcreate: "Rcreate", tTread: "Tread", tRread: "Rread",
	tTwrite: "Twrite", tRwrite: "Rwrite", tTclunk: "Tclunk", tRclunk: "Rclunk", tTremove: "Tremove", tRremove: "Rremove",
	tTstat: "Tstat", tRstat: "Rstat", tTwstat: "Twstat", tRwstat: "Rwstat",
}

func tname(t uint8) string {
	if s, ok := typeNames[t]; ok {
		return s
	}
	return fmt.Sprintf("type%d", t)
}

var tTypes = []uint8{tTversion, tTattach, tTflush, tTwalk, tTopen, tTcreate, tTread, tTwrite, tTclunk, tTremove, tTstat, tTwstat}
var rTypes = []uint8{tRversion, tRattach, tRerror, tRflush, tRwalk, tRopen, tRcreate, tRread, tRwrite, tRclunk, tRremove, tRstat, tRwstat}
var allTypes = append(append([]uint8{}, tTypes...), rTypes...)

type QID struct {
	T uint8  `json:",omitempty"`
	V uint32 `json:",omitempty"`
	P uint64 `json:",omitempty"`
}

func (q QID) repo() protocol.QID { return protocol.QID{Type: q.T, Version: q.V, Path: q.P} }
func fromQID(q protocol.QID) QID { return QID{q.Type, q.Version, q.Path} }

// Msg is a message as it is kept in plans.
type Msg struct {
	T     uint8
	Tag   uint16 `json:",omitempty"`
	Fid   uint32 `json:",omitempty"`
	Fid2  uint32 `json:",omitempty"`
	N     uint32 `json:",omitempty"`
	Perm  uint32 `json:",omitempty"`
	Off   uint64 `json:",omitempty"`
	Mode  uint8  `json:",omitempty"`
	OTag  uint16 `json:",omitempty"`
	S1    Str    `json:",omitempty"`
	S2    Str    `json:",omitempty"`
	Names []Str  `json:",omitempty"`
	Qid   QID
	Qids  []QID `json:",omitempty"`
	Data  Blob
}

// M is a message with its contents expanded.
type M struct {
	T     uint8
	Tag   uint16
	Fid   uint32
	Fid2  uint32
	N     uint32
	Perm  uint32
	Off   uint64
	Mode  uint8
	OTag  uint16
	S1    string
	S2    string
	Names []string
	Qid   QID
	Qids  []QID
	Data  []byte
}

func (m Msg) M() M {
	x := M{T: m.T, Tag: m.Tag, Fid: m.Fid, Fid2: m.Fid2, N: m.N, Perm: m.Perm, Off: m.Off, Mode: m.Mode, OTag: m.OTag,
		S1: string(m.S1), S2: string(m.S2), Qid: m.Qid, Qids: m.Qids, Data: m.Data.Expand()}
	for _, s := range m.Names {
		x.Names = append(x.Names, string(s))
	}
	return x.norm()
}

// norm drops the fields that the type of the message does not have.
func (m M) norm() M {
	r := M{T: m.T, Tag: m.Tag}
	for _, k := range layouts[m.T] {
		switch k {
		case 'f':
			r.Fid = m.Fid
		case 'g':
			r.Fid2 = m.Fid2
		case 'n':
			r.N = m.N
		case 'p':
			r.Perm = m.Perm
		case 'o':
			r.Off = m.Off
		case 'm':
			r.Mode = m.Mode
		case 't':
			r.OTag = m.OTag
		case 's':
			r.S1 = m.S1
		case 'u':
			r.S2 = m.S2
		case 'N':
			if len(m.Names) > 0 {
				r.Names = m.Names
			}
		case 'q':
			r.Qid = m.Qid
		case 'Q':
			if len(m.Qids) > 0 {
				r.Qids = m.Qids
			}
		case 'D', 'd':
			if len(m.Data) > 0 {
				r.Data = m.Data
			}
		}
	}
	return r
}

func (m M) equal(o M) bool {
	a, b := m.norm(), o.norm()
	if !bytes.Equal(a.Data, b.Data) {
		return false
	}
	a.Data, b.Data = nil, nil
	return reflect.DeepEqual(a, b)
}

func short(s string) string {
	if len(s) > 120 {
		return fmt.Sprintf("%q...(%d bytes)", s[:100], len(s))
	}
	return fmt.Sprintf("%q", s)
}

func (m M) String() string {
	s := fmt.Sprintf("%s tag %d", tname(m.T), m.Tag)
	for _, k := range layouts[m.T] {
		switch k {
		case 'f':
			s += fmt.Sprintf(" fid %d", m.Fid)
		case 'g':
			s += fmt.Sprintf(" fid2 %d", m.Fid2)
		case 'n':
			s += fmt.Sprintf(" n %d", m.N)
		case 'p':
			s += fmt.Sprintf(" perm %#o", m.Perm)
		case 'o':
			s += fmt.Sprintf(" off %d", m.Off)
		case 'm':
			s += fmt.Sprintf(" mode %#x", m.Mode)
		case 't':
			s += fmt.Sprintf(" oldtag %d", m.OTag)
		case 's':
			s += " " + short(m.S1)
		case 'u':
			s += " " + short(m.S2)
		case 'N':
			t := fmt.Sprintf("%q", m.Names)
			if len(t) > 300 {
				t = t[:300] + "..."
			}
			s += fmt.Sprintf(" %d names %s", len(m.Names), t)
		case 'q':
			s += fmt.Sprintf(" qid %v", m.Qid)
		case 'Q':
			t := fmt.Sprintf("%v", m.Qids)
			if len(t) > 300 {
				t = t[:300] + "..."
			}
			s += fmt.Sprintf(" %d qids %s", len(m.Qids), t)
		case 'D', 'd':
			s += " data " + short(string(m.Data))
		}
	}
	return s
}

var le = binary.LittleEndian

// encode returns the wire image of a message.
func encode(m M) []byte {
	b := make([]byte, 7, 64+len(m.Data)+len(m.S1)+len(m.S2))
	b[4] = m.T
	le.PutUint16(b[5:], m.Tag)
	str := func(s string) {
		b = le.AppendUint16(b, uint16(len(s)))
		b = append(b, s...)
	}
	qid := func(q QID) {
		b = append(b, q.T)
		b = le.AppendUint32(b, q.V)
		b = le.AppendUint64(b, q.P)
	}
	for _, k := range layouts[m.T] {
		switch k {
		case 'f':
			b = le.AppendUint32(b, m.Fid)
		case 'g':
			b = le.AppendUint32(b, m.Fid2)
		case 'n':
			b = le.AppendUint32(b, m.N)
		case 'p':
			b = le.AppendUint32(b, m.Perm)
		case 'o':
			b = le.AppendUint64(b, m.Off)
		case 'm':
			b = append(b, m.Mode)
		case 't':
			b = le.AppendUint16(b, m.OTag)
		case 's':
			str(m.S1)
		case 'u':
			str(m.S2)
		case 'N':
			b = le.AppendUint16(b, uint16(len(m.Names)))
			for _, s := range m.Names {
				str(s)
			}
		case 'q':
			qid(m.Qid)
		case 'Q':
			b = le.AppendUint16(b, uint16(len(m.Qids)))
			for _, q := range m.Qids {
				qid(q)
			}
		case 'D':
			b = le.AppendUint32(b, uint32(len(m.Data)))
			b = append(b, m.Data...)
		case 'd':
			b = le.AppendUint16(b, uint16(len(m.Data)))
			b = append(b, m.Data...)
		}
	}
	le.PutUint32(b, uint32(len(b)))
	return b
}

type rd struct {
	b   []byte
	bad bool
}

func (r *rd) take(n int) []byte {
	if r.bad || n > len(r.b) {
		r.bad = true
		return make([]byte, 8)
	}
	x := r.b[:n]
	r.b = r.b[n:]
	return x
}
func (r *rd) u8() uint8   { return r.take(1)[0] }
func (r *rd) u16() uint16 { return le.Uint16(r.take(2)) }
func (r *rd) u32() uint32 { return le.Uint32(r.take(4)) }
func (r *rd) u64() uint64 { return le.Uint64(r.take(8)) }
func (r *rd) bytes(n int) []byte {
	if r.bad || n < 0 || n > len(r.b) {
		r.bad = true
		return nil
	}
	return append([]byte(nil), r.take(n)...)
}
func (r *rd) str() string { return string(r.bytes(int(r.u16()))) }
func (r *rd) qid() QID    { return QID{r.u8(), r.u32(), r.u64()} }

// decodeBody decodes tag and fields strictly.
func decodeBody(t uint8, body []byte) (M, bool) {
	m := M{T: t}
	lay, ok := layouts[t]
	if !ok {
		return m, false
	}
	r := &rd{b: body}
	m.Tag = r.u16()
	for _, k := range lay {
		switch k {
		case 'f':
			m.Fid = r.u32()
		case 'g':
			m.Fid2 = r.u32()
		case 'n':
			m.N = r.u32()
		case 'p':
			m.Perm = r.u32()
		case 'o':
			m.Off = r.u64()
		case 'm':
			m.Mode = r.u8()
		case 't':
			m.OTag = r.u16()
		case 's':
			m.S1 = r.str()
		case 'u':
			m.S2 = r.str()
		case 'N':
			for n := r.u16(); n > 0 && !r.bad; n-- {
				m.Names = append(m.Names, r.str())
			}
		case 'q':
			m.Qid = r.qid()
		case 'Q':
			for n := r.u16(); n > 0 && !r.bad; n-- {
				m.Qids = append(m.Qids, r.qid())
			}
		case 'D':
			m.Data = r.bytes(int(r.u32()))
		case 'd':
			m.Data = r.bytes(int(r.u16()))
		}
	}
	return m.norm(), !r.bad && len(r.b) == 0
}

// decode decodes a framed message strictly.
func decode(b []byte) (M, bool) {
	if len(b) < 7 || int64(le.Uint32(b)) != int64(len(b)) {
		return M{}, false
	}
	return decodeBody(b[4], b[5:])
}

// ---- directory entries

type DirMsg struct {
	Type   uint16 `json:",omitempty"`
	Dev    uint32 `json:",omitempty"`
	Qid    QID
	Mode   uint32 `json:",omitempty"`
	Atime  uint32 `json:",omitempty"`
	Mtime  uint32 `json:",omitempty"`
	Length uint64 `json:",omitempty"`
	Name   Str    `json:",omitempty"`
	User   Str    `json:",omitempty"`
	Group  Str    `json:",omitempty"`
	Muid   Str    `json:",omitempty"`
}

func (d DirMsg) repo() protocol.Dir {
	return protocol.Dir{Type: d.Type, Dev: d.Dev, QID: d.Qid.repo(), Mode: d.Mode, Atime: d.Atime, Mtime: d.Mtime, Length: d.Length,
		Name: string(d.Name), User: string(d.User), Group: string(d.Group), ModUser: string(d.Muid)}
}
func fromDir(d protocol.Dir) DirMsg {
	return DirMsg{d.Type, d.Dev, fromQID(d.QID), d.Mode, d.Atime, d.Mtime, d.Length, Str(d.Name), Str(d.User), Str(d.Group), Str(d.ModUser)}
}
func (d DirMsg) size() int {
	return 2 + 4 + 13 + 4 + 4 + 4 + 8 + 8 + len(d.Name) + len(d.User) + len(d.Group) + len(d.Muid)
}

func encodeDir(d DirMsg) []byte {
	b := le.AppendUint16(nil, uint16(d.size()))
	b = le.AppendUint16(b, d.Type)
	b = le.AppendUint32(b, d.Dev)
	b = append(b, d.Qid.T)
	b = le.AppendUint32(b, d.Qid.V)
	b = le.AppendUint64(b, d.Qid.P)
	b = le.AppendUint32(b, d.Mode)
	b = le.AppendUint32(b, d.Atime)
	b = le.AppendUint32(b, d.Mtime)
	b = le.AppendUint64(b, d.Length)
	for _, s := range []Str{d.Name, d.User, d.Group, d.Muid} {
		b = le.AppendUint16(b, uint16(len(s)))
		b = append(b, s...)
	}
	return b
}

// decodeDir decodes an entry from the front of b. It returns the number of
// bytes used and whether the size prefix agrees with it.
func decodeDir(b []byte) (d DirMsg, n int, sizeOK, ok bool) {
	r := &rd{b: b}
	sz := r.u16()
	d.Type = r.u16()
	d.Dev = r.u32()
	d.Qid = r.qid()
	d.Mode = r.u32()
	d.Atime = r.u32()
	d.Mtime = r.u32()
	d.Length = r.u64()
	d.Name = Str(r.str())
	d.User = Str(r.str())
	d.Group = Str(r.str())
	d.Muid = Str(r.str())
	n = len(b) - len(r.b)
	return d, n, int(sz) == n-2, !r.bad
}

// ---- adaptors to the code under test

func strs(ss []string) []string {
	if ss == nil {
		return []string{}
	}
	return ss
}
func repoQids(qs []QID) []protocol.QID {
	r := make([]protocol.QID, len(qs))
	for i, q := range qs {
		r[i] = q.repo()
	}
	return r
}
func fromQids(qs []protocol.QID) []QID {
	var r []QID
	for _, q := range qs {
		r = append(r, fromQID(q))
	}
	return r
}

func repoMarshal(b *bytes.Buffer, m M) {
	t := protocol.Tag(m.Tag)
	fid := protocol.FID(m.Fid)
	switch m.T {
	case tTversion:
		protocol.MarshalTversionPkt(b, t, protocol.MaxSize(m.N), m.S1)
	case tRversion:
		protocol.MarshalRversionPkt(b, t, protocol.MaxSize(m.N), m.S1)
	case tTattach:
		protocol.MarshalTattachPkt(b, t, fid, protocol.FID(m.Fid2), m.S1, m.S2)
	case tRattach:
		protocol.MarshalRattachPkt(b, t, m.Qid.repo())
	case tRerror:
		protocol.MarshalRerrorPkt(b, t, m.S1)
	case tTflush:
		protocol.MarshalTflushPkt(b, t, protocol.Tag(m.OTag))
	case tRflush:
		protocol.MarshalRflushPkt(b, t)
	case tTwalk:
		protocol.MarshalTwalkPkt(b, t, fid, protocol.FID(m.Fid2), m.Names)
	case tRwalk:
		protocol.MarshalRwalkPkt(b, t, repoQids(m.Qids))
	case tTopen:
		protocol.MarshalTopenPkt(b, t, fid, protocol.Mode(m.Mode))
	case tRopen:
		protocol.MarshalRopenPkt(b, t, m.Qid.repo(), protocol.MaxSize(m.N))
	case tTcreate:
		protocol.MarshalTcreatePkt(b, t, fid, m.S1, protocol.Perm(m.Perm), protocol.Mode(m.Mode))
	case tRcreate:
		protocol.MarshalRcreatePkt(b, t, m.Qid.repo(), protocol.MaxSize(m.N))
	case tTread:
		protocol.MarshalTreadPkt(b, t, fid, protocol.Offset(m.Off), protocol.Count(m.N))
	case tRread:
		protocol.MarshalRreadPkt(b, t, m.Data)
	case tTwrite:
		protocol.MarshalTwritePkt(b, t, fid, protocol.Offset(m.Off), m.Data)
	case tRwrite:
		protocol.MarshalRwritePkt(b, t, protocol.Count(m.N))
	case tTclunk:
		protocol.MarshalTclunkPkt(b, t, fid)
	case tRclunk:
		protocol.MarshalRclunkPkt(b, t)
	case tTremove:
		protocol.MarshalTremovePkt(b, t, fid)
	case tRremove:
		protocol.MarshalRremovePkt(b, t)
	case tTstat:
		protocol.MarshalTstatPkt(b, t, fid)
	case tRstat:
		protocol.MarshalRstatPkt(b, t, m.Data)
	case tTwstat:
		protocol.MarshalTwstatPkt(b, t, fid, m.Data)
	case tRwstat:
		protocol.MarshalRwstatPkt(b, t)
	default:
		panic("repoMarshal")
	}
}

// repoUnmarshal decodes tag and fields with the code under test. Data fields
// alias b, as they do for any caller.
func repoUnmarshal(t uint8, b *bytes.Buffer) (m M, err error) {
	m.T = t
	var tag protocol.Tag
	var f, g protocol.FID
	var n protocol.MaxSize
	var q protocol.QID
	var qs []protocol.QID
	var mode protocol.Mode
	var perm protocol.Perm
	var off protocol.Offset
	var cnt protocol.Count
	var ot protocol.Tag
	switch t {
	case tTversion:
		n, m.S1, tag, err = protocol.UnmarshalTversionPkt(b)
	case tRversion:
		n, m.S1, tag, err = protocol.UnmarshalRversionPkt(b)
	case tTattach:
		f, g, m.S1, m.S2, tag, err = protocol.UnmarshalTattachPkt(b)
	case tRattach:
		q, tag, err = protocol.UnmarshalRattachPkt(b)
	case tRerror:
		m.S1, tag, err = protocol.UnmarshalRerrorPkt(b)
	case tTflush:
		ot, tag, err = protocol.UnmarshalTflushPkt(b)
	case tRflush:
		tag, err = protocol.UnmarshalRflushPkt(b)
	case tTwalk:
		f, g, m.Names, tag, err = protocol.UnmarshalTwalkPkt(b)
	case tRwalk:
		qs, tag, err = protocol.UnmarshalRwalkPkt(b)
	case tTopen:
		f, mode, tag, err = protocol.UnmarshalTopenPkt(b)
	case tRopen:
		q, n, tag, err = protocol.UnmarshalRopenPkt(b)
	case tTcreate:
		f, m.S1, perm, mode, tag, err = protocol.UnmarshalTcreatePkt(b)
	case tRcreate:
		q, n, tag, err = protocol.UnmarshalRcreatePkt(b)
	case tTread:
		f, off, cnt, tag, err = protocol.UnmarshalTreadPkt(b)
		n = protocol.MaxSize(cnt)
	case tRread:
		m.Data, tag, err = protocol.UnmarshalRreadPkt(b)
	case tTwrite:
		f, off, m.Data, tag, err = protocol.UnmarshalTwritePkt(b)
	case tRwrite:
		cnt, tag, err = protocol.UnmarshalRwritePkt(b)
		n = protocol.MaxSize(cnt)
	case tTclunk:
		f, tag, err = protocol.UnmarshalTclunkPkt(b)
	case tRclunk:
		tag, err = protocol.UnmarshalRclunkPkt(b)
	case tTremove:
		f, tag, err = protocol.UnmarshalTremovePkt(b)
	case tRremove:
		tag, err = protocol.UnmarshalRremovePkt(b)
	case tTstat:
		f, tag, err = protocol.UnmarshalTstatPkt(b)
	case tRstat:
		m.Data, tag, err = protocol.UnmarshalRstatPkt(b)
	case tTwstat:
		f, m.Data, tag, err = protocol.UnmarshalTwstatPkt(b)
	case tRwstat:
		tag, err = protocol.UnmarshalRwstatPkt(b)
	default:
		panic("repoUnmarshal")
	}
	m.Tag, m.Fid, m.Fid2, m.N, m.Qid, m.Qids = uint16(tag), uint32(f), uint32(g), uint32(n), fromQID(q), fromQids(qs)
	m.Mode, m.Perm, m.Off, m.OTag = uint8(mode), uint32(perm), uint64(off), uint16(ot)
	return m, err
}

// repoCall makes a call on a client of the code under test and returns the
// result as the reply it stands for.
func repoCall(c *protocol.Client, m M) (r M, err error) {
	r.T = m.T + 1
	fid := protocol.FID(m.Fid)
	switch m.T {
	case tTversion:
		var n protocol.MaxSize
		n, r.S1, err = c.CallTversion(protocol.MaxSize(m.N), m.S1)
		r.N = uint32(n)
	case tTattach:
		var q protocol.QID
		q, err = c.CallTattach(fid, protocol.FID(m.Fid2), m.S1, m.S2)
		r.Qid = fromQID(q)
	case tTflush:
		err = c.CallTflush(protocol.Tag(m.OTag))
	case tTwalk:
		var qs []protocol.QID
		qs, err = c.CallTwalk(fid, protocol.FID(m.Fid2), m.Names)
		r.Qids = fromQids(qs)
	case tTopen:
		var q protocol.QID
		var n protocol.MaxSize
		q, n, err = c.CallTopen(fid, protocol.Mode(m.Mode))
		r.Qid, r.N = fromQID(q), uint32(n)
	case tTcreate:
		var q protocol.QID
		var n protocol.MaxSize
		q, n, err = c.CallTcreate(fid, m.S1, protocol.Perm(m.Perm), protocol.Mode(m.Mode))
		r.Qid, r.N = fromQID(q), uint32(n)
	case tTread:
		r.Data, err = c.CallTread(fid, protocol.Offset(m.Off), protocol.Count(m.N))
	case tTwrite:
		var n protocol.Count
		n, err = c.CallTwrite(fid, protocol.Offset(m.Off), m.Data)
		r.N = uint32(n)
	case tTclunk:
		err = c.CallTclunk(fid)
	case tTremove:
		err = c.CallTremove(fid)
	case tTstat:
		r.Data, err = c.CallTstat(fid)
	case tTwstat:
		err = c.CallTwstat(fid, m.Data)
	default:
		panic("repoCall")
	}
	return r, err
}

// ---- generators

func (g *G) QID() QID { return QID{g.U8(), g.U32(), g.U64()} }

// Msg makes a message of type t that the protocol can carry. big allows large
// contents.
func (g *G) Msg(t uint8, big bool) Msg {
	m := Msg{T: t, Tag: g.U16()}
	max, lmax := 300, 20
	if big {
		max, lmax = 65535, 3000
	}
	for _, k := range layouts[t] {
		switch k {
		case 'f':
			m.Fid = g.U32()
		case 'g':
			m.Fid2 = g.U32()
		case 'n':
			m.N = g.U32()
		case 'p':
			m.Perm = g.U32()
		case 'o':
			m.Off = g.U64()
		case 'm':
			m.Mode = g.U8()
		case 't':
			m.OTag = g.U16()
		case 's':
			m.S1 = g.Str(max)
		case 'u':
			m.S2 = g.Str(max)
		case 'N':
			n := g.N(6)
			if g.P(15) {
				n = g.N(lmax)
			}
			for i := 0; i < n; i++ {
				if n > 20 {
					m.Names = append(m.Names, g.Str(12))
				} else {
					m.Names = append(m.Names, g.Str(max))
				}
			}
		case 'q':
			m.Qid = g.QID()
		case 'Q':
			n := g.N(6)
			if g.P(15) {
				n = g.N(lmax)
			}
			for i := 0; i < n; i++ {
				m.Qids = append(m.Qids, g.QID())
			}
		case 'D':
			if big {
				m.Data = g.Blob(300000)
			} else {
				m.Data = g.Blob(600)
			}
		case 'd':
			m.Data = g.Blob(max)
		}
	}
	return m
}

func (g *G) Dir(big bool) DirMsg {
	max := 80
	if big {
		max = 16000
	}
	d := DirMsg{g.U16(), g.U32(), g.QID(), g.U32(), g.U32(), g.U32(), g.U64(), g.Str(max), g.Str(max), g.Str(max), g.Str(max)}
	if big && g.P(20) {
		// as large as the size prefix can say
		d.User, d.Group, d.Muid = "u", "", "m"
		d.Name = Str(g.Bytes(65535 - d.size() + len(d.Name)))
	}
	return d
}
