From d0323a785672f12b3765f6f98a847cac5e7b39c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:20:24 +0000
Subject: [PATCH 01/27] fix: reject messages that end inside an integer field

bytes.Buffer.Read returns a short count and no error when only part of
the field is left, so a truncated packet decoded with stale bytes.
---
 protocol/gen.go    |   5 +-
 protocol/genout.go | 175 +++++++++++++++++++++++----------------------
 2 files changed, 91 insertions(+), 89 deletions(-)

diff --git a/protocol/gen.go b/protocol/gen.go
index 17e6cf2..173fcaf 100644
--- a/protocol/gen.go
+++ b/protocol/gen.go
@@ -41,6 +41,7 @@ package protocol
 import (
 "bytes"
 "fmt"
+"io"
 _ "log"
 )
 `
@@ -143,7 +144,7 @@ return
 	ufunc = template.Must(template.New("mr").Parse(`func Unmarshal{{.UFunc}}Pkt (b *bytes.Buffer) ({{.URet}} t Tag, err error) {
 var u [8]uint8
 var l uint64
-if _, err = b.Read(u[:2]); err != nil {
+if _, err = io.ReadFull(b, u[:2]); err != nil {
 err = fmt.Errorf("pkt too short for Tag; need 2, have %d", b.Len())
 return
 }
@@ -217,7 +218,7 @@ func emitEncodeInt(v interface{}, n string, l int, e *emitter) {
 func emitDecodeInt(v interface{}, n string, l int, e *emitter) {
 	t := reflect.ValueOf(v).Type().Name()
 	debug("emit reflect.ValueOf(v) %s %v, %v", t, n, l)
-	e.UCode.WriteString(fmt.Sprintf("\tif _, err = b.Read(u[:%v]); err != nil {\n\t\terr = fmt.Errorf(\"pkt too short for uint%v: need %v, have %%d\", b.Len())\n\treturn\n\t}\n", l, l*8, l))
+	e.UCode.WriteString(fmt.Sprintf("\tif _, err = io.ReadFull(b, u[:%v]); err != nil {\n\t\terr = fmt.Errorf(\"pkt too short for uint%v: need %v, have %%d\", b.Len())\n\treturn\n\t}\n", l, l*8, l))
 	e.UCode.WriteString(fmt.Sprintf("\t%v = %s(u[0])\n", n, t))
 	for i := 1; i < l; i++ {
 		e.UCode.WriteString(fmt.Sprintf("\t%v |= %s(u[%d])<<%v\n", n, t, i, i*8))
diff --git a/protocol/genout.go b/protocol/genout.go
index 05107d6..25d5e4a 100644
--- a/protocol/genout.go
+++ b/protocol/genout.go
@@ -3,6 +3,7 @@ package protocol
 import (
 "bytes"
 "fmt"
+"io"
 _ "log"
 )
 func MarshalRerrorPkt (b *bytes.Buffer, t Tag, Error string) {
@@ -24,13 +25,13 @@ return
 func UnmarshalRerrorPkt (b *bytes.Buffer) (Error string,  t Tag, err error) {
 var u [8]uint8
 var l uint64
-if _, err = b.Read(u[:2]); err != nil {
+if _, err = io.ReadFull(b, u[:2]); err != nil {
 err = fmt.Errorf("pkt too short for Tag; need 2, have %d", b.Len())
 return
 }
 l = uint64(u[0]) | uint64(u[1])<<8
 t = Tag(l)
-	if _, err = b.Read(u[:2]); err != nil {
+	if _, err = io.ReadFull(b, u[:2]); err != nil {
 		err = fmt.Errorf("pkt too short for uint16: need 2, have %d", b.Len())
 	return
 	}
@@ -71,13 +72,13 @@ return
 func UnmarshalRversionPkt (b *bytes.Buffer) (RMsize MaxSize, RVersion string,  t Tag, err error) {
 var u [8]uint8
 var l uint64
-if _, err = b.Read(u[:2]); err != nil {
+if _, err = io.ReadFull(b, u[:2]); err != nil {
 err = fmt.Errorf("pkt too short for Tag; need 2, have %d", b.Len())
 return
 }
 l = uint64(u[0]) | uint64(u[1])<<8
 t = Tag(l)
-	if _, err = b.Read(u[:4]); err != nil {
+	if _, err = io.ReadFull(b, u[:4]); err != nil {
 		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
 	return
 	}
@@ -85,7 +86,7 @@ t = Tag(l)
 	RMsize |= MaxSize(u[1])<<8
 	RMsize |= MaxSize(u[2])<<16
 	RMsize |= MaxSize(u[3])<<24
-	if _, err = b.Read(u[:2]); err != nil {
+	if _, err = io.ReadFull(b, u[:2]); err != nil {
 		err = fmt.Errorf("pkt too short for uint16: need 2, have %d", b.Len())
 	return
 	}
@@ -126,13 +127,13 @@ return
 func UnmarshalTversionPkt (b *bytes.Buffer) (TMsize MaxSize, TVersion string,  t Tag, err error) {
 var u [8]uint8
 var l uint64
-if _, err = b.Read(u[:2]); err != nil {
+if _, err = io.ReadFull(b, u[:2]); err != nil {
 err = fmt.Errorf("pkt too short for Tag; need 2, have %d", b.Len())
 return
 }
 l = uint64(u[0]) | uint64(u[1])<<8
 t = Tag(l)
-	if _, err = b.Read(u[:4]); err != nil {
+	if _, err = io.ReadFull(b, u[:4]); err != nil {
 		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
 	return
 	}
@@ -140,7 +141,7 @@ t = Tag(l)
 	TMsize |= MaxSize(u[1])<<8
 	TMsize |= MaxSize(u[2])<<16
 	TMsize |= MaxSize(u[3])<<24
-	if _, err = b.Read(u[:2]); err != nil {
+	if _, err = io.ReadFull(b, u[:2]); err != nil {
 		err = fmt.Errorf("pkt too short for uint16: need 2, have %d", b.Len())
 	return
 	}
@@ -220,18 +221,18 @@ return
 func UnmarshalRattachPkt (b *bytes.Buffer) (QID QID,  t Tag, err error) {
 var u [8]uint8
 var l uint64
-if _, err = b.Read(u[:2]); err != nil {
+if _, err = io.ReadFull(b, u[:2]); err != nil {
 err = fmt.Errorf("pkt too short for Tag; need 2, have %d", b.Len())
 return
 }
 l = uint64(u[0]) | uint64(u[1])<<8
 t = Tag(l)
-	if _, err = b.Read(u[:1]); err != nil {
+	if _, err = io.ReadFull(b, u[:1]); err != nil {
 		err = fmt.Errorf("pkt too short for uint8: need 1, have %d", b.Len())
 	return
 	}
 	QID.Type = uint8(u[0])
-	if _, err = b.Read(u[:4]); err != nil {
+	if _, err = io.ReadFull(b, u[:4]); err != nil {
 		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
 	return
 	}
@@ -239,7 +240,7 @@ t = Tag(l)
 	QID.Version |= uint32(u[1])<<8
 	QID.Version |= uint32(u[2])<<16
 	QID.Version |= uint32(u[3])<<24
-	if _, err = b.Read(u[:8]); err != nil {
+	if _, err = io.ReadFull(b, u[:8]); err != nil {
 		err = fmt.Errorf("pkt too short for uint64: need 8, have %d", b.Len())
 	return
 	}
@@ -287,13 +288,13 @@ return
 func UnmarshalTattachPkt (b *bytes.Buffer) (SFID FID, AFID FID, Uname string, Aname string,  t Tag, err error) {
 var u [8]uint8
 var l uint64
-if _, err = b.Read(u[:2]); err != nil {
+if _, err = io.ReadFull(b, u[:2]); err != nil {
 err = fmt.Errorf("pkt too short for Tag; need 2, have %d", b.Len())
 return
 }
 l = uint64(u[0]) | uint64(u[1])<<8
 t = Tag(l)
-	if _, err = b.Read(u[:4]); err != nil {
+	if _, err = io.ReadFull(b, u[:4]); err != nil {
 		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
 	return
 	}
@@ -301,7 +302,7 @@ t = Tag(l)
 	SFID |= FID(u[1])<<8
 	SFID |= FID(u[2])<<16
 	SFID |= FID(u[3])<<24
-	if _, err = b.Read(u[:4]); err != nil {
+	if _, err = io.ReadFull(b, u[:4]); err != nil {
 		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
 	return
 	}
@@ -309,7 +310,7 @@ t = Tag(l)
 	AFID |= FID(u[1])<<8
 	AFID |= FID(u[2])<<16
 	AFID |= FID(u[3])<<24
-	if _, err = b.Read(u[:2]); err != nil {
+	if _, err = io.ReadFull(b, u[:2]); err != nil {
 		err = fmt.Errorf("pkt too short for uint16: need 2, have %d", b.Len())
 	return
 	}
@@ -321,7 +322,7 @@ t = Tag(l)
 	}
 	Uname = string(b.Bytes()[:l])
 	_ = b.Next(int(l))
-	if _, err = b.Read(u[:2]); err != nil {
+	if _, err = io.ReadFull(b, u[:2]); err != nil {
 		err = fmt.Errorf("pkt too short for uint16: need 2, have %d", b.Len())
 	return
 	}
@@ -388,7 +389,7 @@ return
 func UnmarshalRflushPkt (b *bytes.Buffer) ( t Tag, err error) {
 var u [8]uint8
 var l uint64
-if _, err = b.Read(u[:2]); err != nil {
+if _, err = io.ReadFull(b, u[:2]); err != nil {
 err = fmt.Errorf("pkt too short for Tag; need 2, have %d", b.Len())
 return
 }
@@ -419,13 +420,13 @@ return
 func UnmarshalTflushPkt (b *bytes.Buffer) (OTag Tag,  t Tag, err error) {
 var u [8]uint8
 var l uint64
-if _, err = b.Read(u[:2]); err != nil {
+if _, err = io.ReadFull(b, u[:2]); err != nil {
 err = fmt.Errorf("pkt too short for Tag; need 2, have %d", b.Len())
 return
 }
 l = uint64(u[0]) | uint64(u[1])<<8
 t = Tag(l)
-	if _, err = b.Read(u[:2]); err != nil {
+	if _, err = io.ReadFull(b, u[:2]); err != nil {
 		err = fmt.Errorf("pkt too short for uint16: need 2, have %d", b.Len())
 	return
 	}
@@ -504,13 +505,13 @@ return
 func UnmarshalRwalkPkt (b *bytes.Buffer) (QIDs []QID,  t Tag, err error) {
 var u [8]uint8
 var l uint64
-if _, err = b.Read(u[:2]); err != nil {
+if _, err = io.ReadFull(b, u[:2]); err != nil {
 err = fmt.Errorf("pkt too short for Tag; need 2, have %d", b.Len())
 return
 }
 l = uint64(u[0]) | uint64(u[1])<<8
 t = Tag(l)
-	if _, err = b.Read(u[:2]); err != nil {
+	if _, err = io.ReadFull(b, u[:2]); err != nil {
 		err = fmt.Errorf("pkt too short for uint16: need 2, have %d", b.Len())
 	return
 	}
@@ -518,12 +519,12 @@ t = Tag(l)
 	l |= uint64(u[1])<<8
 	QIDs = make([]QID, l)
 for i := range QIDs {
-	if _, err = b.Read(u[:1]); err != nil {
+	if _, err = io.ReadFull(b, u[:1]); err != nil {
 		err = fmt.Errorf("pkt too short for uint8: need 1, have %d", b.Len())
 	return
 	}
 	QIDs[i].Type = uint8(u[0])
-	if _, err = b.Read(u[:4]); err != nil {
+	if _, err = io.ReadFull(b, u[:4]); err != nil {
 		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
 	return
 	}
@@ -531,7 +532,7 @@ for i := range QIDs {
 	QIDs[i].Version |= uint32(u[1])<<8
 	QIDs[i].Version |= uint32(u[2])<<16
 	QIDs[i].Version |= uint32(u[3])<<24
-	if _, err = b.Read(u[:8]); err != nil {
+	if _, err = io.ReadFull(b, u[:8]); err != nil {
 		err = fmt.Errorf("pkt too short for uint64: need 8, have %d", b.Len())
 	return
 	}
@@ -582,13 +583,13 @@ return
 func UnmarshalTwalkPkt (b *bytes.Buffer) (SFID FID, NewFID FID, Paths []string,  t Tag, err error) {
 var u [8]uint8
 var l uint64
-if _, err = b.Read(u[:2]); err != nil {
+if _, err = io.ReadFull(b, u[:2]); err != nil {
 err = fmt.Errorf("pkt too short for Tag; need 2, have %d", b.Len())
 return
 }
 l = uint64(u[0]) | uint64(u[1])<<8
 t = Tag(l)
-	if _, err = b.Read(u[:4]); err != nil {
+	if _, err = io.ReadFull(b, u[:4]); err != nil {
 		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
 	return
 	}
@@ -596,7 +597,7 @@ t = Tag(l)
 	SFID |= FID(u[1])<<8
 	SFID |= FID(u[2])<<16
 	SFID |= FID(u[3])<<24
-	if _, err = b.Read(u[:4]); err != nil {
+	if _, err = io.ReadFull(b, u[:4]); err != nil {
 		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
 	return
 	}
@@ -604,7 +605,7 @@ t = Tag(l)
 	NewFID |= FID(u[1])<<8
 	NewFID |= FID(u[2])<<16
 	NewFID |= FID(u[3])<<24
-	if _, err = b.Read(u[:2]); err != nil {
+	if _, err = io.ReadFull(b, u[:2]); err != nil {
 		err = fmt.Errorf("pkt too short for uint16: need 2, have %d", b.Len())
 	return
 	}
@@ -612,7 +613,7 @@ t = Tag(l)
 	l |= uint64(u[1])<<8
 	Paths = make([]string, l)
 for i := range Paths {
-	if _, err = b.Read(u[:2]); err != nil {
+	if _, err = io.ReadFull(b, u[:2]); err != nil {
 		err = fmt.Errorf("pkt too short for uint16: need 2, have %d", b.Len())
 	return
 	}
@@ -697,18 +698,18 @@ return
 func UnmarshalRopenPkt (b *bytes.Buffer) (OQID QID, IOUnit MaxSize,  t Tag, err error) {
 var u [8]uint8
 var l uint64
-if _, err = b.Read(u[:2]); err != nil {
+if _, err = io.ReadFull(b, u[:2]); err != nil {
 err = fmt.Errorf("pkt too short for Tag; need 2, have %d", b.Len())
 return
 }
 l = uint64(u[0]) | uint64(u[1])<<8
 t = Tag(l)
-	if _, err = b.Read(u[:1]); err != nil {
+	if _, err = io.ReadFull(b, u[:1]); err != nil {
 		err = fmt.Errorf("pkt too short for uint8: need 1, have %d", b.Len())
 	return
 	}
 	OQID.Type = uint8(u[0])
-	if _, err = b.Read(u[:4]); err != nil {
+	if _, err = io.ReadFull(b, u[:4]); err != nil {
 		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
 	return
 	}
@@ -716,7 +717,7 @@ t = Tag(l)
 	OQID.Version |= uint32(u[1])<<8
 	OQID.Version |= uint32(u[2])<<16
 	OQID.Version |= uint32(u[3])<<24
-	if _, err = b.Read(u[:8]); err != nil {
+	if _, err = io.ReadFull(b, u[:8]); err != nil {
 		err = fmt.Errorf("pkt too short for uint64: need 8, have %d", b.Len())
 	return
 	}
@@ -728,7 +729,7 @@ t = Tag(l)
 	OQID.Path |= uint64(u[5])<<40
 	OQID.Path |= uint64(u[6])<<48
 	OQID.Path |= uint64(u[7])<<56
-	if _, err = b.Read(u[:4]); err != nil {
+	if _, err = io.ReadFull(b, u[:4]); err != nil {
 		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
 	return
 	}
@@ -764,13 +765,13 @@ return
 func UnmarshalTopenPkt (b *bytes.Buffer) (OFID FID, Omode Mode,  t Tag, err error) {
 var u [8]uint8
 var l uint64
-if _, err = b.Read(u[:2]); err != nil {
+if _, err = io.ReadFull(b, u[:2]); err != nil {
 err = fmt.Errorf("pkt too short for Tag; need 2, have %d", b.Len())
 return
 }
 l = uint64(u[0]) | uint64(u[1])<<8
 t = Tag(l)
-	if _, err = b.Read(u[:4]); err != nil {
+	if _, err = io.ReadFull(b, u[:4]); err != nil {
 		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
 	return
 	}
@@ -778,7 +779,7 @@ t = Tag(l)
 	OFID |= FID(u[1])<<8
 	OFID |= FID(u[2])<<16
 	OFID |= FID(u[3])<<24
-	if _, err = b.Read(u[:1]); err != nil {
+	if _, err = io.ReadFull(b, u[:1]); err != nil {
 		err = fmt.Errorf("pkt too short for uint8: need 1, have %d", b.Len())
 	return
 	}
@@ -855,18 +856,18 @@ return
 func UnmarshalRcreatePkt (b *bytes.Buffer) (OQID QID, IOUnit MaxSize,  t Tag, err error) {
 var u [8]uint8
 var l uint64
-if _, err = b.Read(u[:2]); err != nil {
+if _, err = io.ReadFull(b, u[:2]); err != nil {
 err = fmt.Errorf("pkt too short for Tag; need 2, have %d", b.Len())
 return
 }
 l = uint64(u[0]) | uint64(u[1])<<8
 t = Tag(l)
-	if _, err = b.Read(u[:1]); err != nil {
+	if _, err = io.ReadFull(b, u[:1]); err != nil {
 		err = fmt.Errorf("pkt too short for uint8: need 1, have %d", b.Len())
 	return
 	}
 	OQID.Type = uint8(u[0])
-	if _, err = b.Read(u[:4]); err != nil {
+	if _, err = io.ReadFull(b, u[:4]); err != nil {
 		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
 	return
 	}
@@ -874,7 +875,7 @@ t = Tag(l)
 	OQID.Version |= uint32(u[1])<<8
 	OQID.Version |= uint32(u[2])<<16
 	OQID.Version |= uint32(u[3])<<24
-	if _, err = b.Read(u[:8]); err != nil {
+	if _, err = io.ReadFull(b, u[:8]); err != nil {
 		err = fmt.Errorf("pkt too short for uint64: need 8, have %d", b.Len())
 	return
 	}
@@ -886,7 +887,7 @@ t = Tag(l)
 	OQID.Path |= uint64(u[5])<<40
 	OQID.Path |= uint64(u[6])<<48
 	OQID.Path |= uint64(u[7])<<56
-	if _, err = b.Read(u[:4]); err != nil {
+	if _, err = io.ReadFull(b, u[:4]); err != nil {
 		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
 	return
 	}
@@ -929,13 +930,13 @@ return
 func UnmarshalTcreatePkt (b *bytes.Buffer) (OFID FID, Name string, CreatePerm Perm, Omode Mode,  t Tag, err error) {
 var u [8]uint8
 var l uint64
-if _, err = b.Read(u[:2]); err != nil {
+if _, err = io.ReadFull(b, u[:2]); err != nil {
 err = fmt.Errorf("pkt too short for Tag; need 2, have %d", b.Len())
 return
 }
 l = uint64(u[0]) | uint64(u[1])<<8
 t = Tag(l)
-	if _, err = b.Read(u[:4]); err != nil {
+	if _, err = io.ReadFull(b, u[:4]); err != nil {
 		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
 	return
 	}
@@ -943,7 +944,7 @@ t = Tag(l)
 	OFID |= FID(u[1])<<8
 	OFID |= FID(u[2])<<16
 	OFID |= FID(u[3])<<24
-	if _, err = b.Read(u[:2]); err != nil {
+	if _, err = io.ReadFull(b, u[:2]); err != nil {
 		err = fmt.Errorf("pkt too short for uint16: need 2, have %d", b.Len())
 	return
 	}
@@ -955,7 +956,7 @@ t = Tag(l)
 	}
 	Name = string(b.Bytes()[:l])
 	_ = b.Next(int(l))
-	if _, err = b.Read(u[:4]); err != nil {
+	if _, err = io.ReadFull(b, u[:4]); err != nil {
 		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
 	return
 	}
@@ -963,7 +964,7 @@ t = Tag(l)
 	CreatePerm |= Perm(u[1])<<8
 	CreatePerm |= Perm(u[2])<<16
 	CreatePerm |= Perm(u[3])<<24
-	if _, err = b.Read(u[:1]); err != nil {
+	if _, err = io.ReadFull(b, u[:1]); err != nil {
 		err = fmt.Errorf("pkt too short for uint8: need 1, have %d", b.Len())
 	return
 	}
@@ -1026,13 +1027,13 @@ return
 func UnmarshalRstatPkt (b *bytes.Buffer) (B []byte,  t Tag, err error) {
 var u [8]uint8
 var l uint64
-if _, err = b.Read(u[:2]); err != nil {
+if _, err = io.ReadFull(b, u[:2]); err != nil {
 err = fmt.Errorf("pkt too short for Tag; need 2, have %d", b.Len())
 return
 }
 l = uint64(u[0]) | uint64(u[1])<<8
 t = Tag(l)
-	if _, err = b.Read(u[:2]); err != nil {
+	if _, err = io.ReadFull(b, u[:2]); err != nil {
 		err = fmt.Errorf("pkt too short for uint16: need 2, have %d", b.Len())
 	return
 	}
@@ -1067,13 +1068,13 @@ return
 func UnmarshalTstatPkt (b *bytes.Buffer) (OFID FID,  t Tag, err error) {
 var u [8]uint8
 var l uint64
-if _, err = b.Read(u[:2]); err != nil {
+if _, err = io.ReadFull(b, u[:2]); err != nil {
 err = fmt.Errorf("pkt too short for Tag; need 2, have %d", b.Len())
 return
 }
 l = uint64(u[0]) | uint64(u[1])<<8
 t = Tag(l)
-	if _, err = b.Read(u[:4]); err != nil {
+	if _, err = io.ReadFull(b, u[:4]); err != nil {
 		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
 	return
 	}
@@ -1136,7 +1137,7 @@ return
 func UnmarshalRwstatPkt (b *bytes.Buffer) ( t Tag, err error) {
 var u [8]uint8
 var l uint64
-if _, err = b.Read(u[:2]); err != nil {
+if _, err = io.ReadFull(b, u[:2]); err != nil {
 err = fmt.Errorf("pkt too short for Tag; need 2, have %d", b.Len())
 return
 }
@@ -1172,13 +1173,13 @@ return
 func UnmarshalTwstatPkt (b *bytes.Buffer) (OFID FID, B []byte,  t Tag, err error) {
 var u [8]uint8
 var l uint64
-if _, err = b.Read(u[:2]); err != nil {
+if _, err = io.ReadFull(b, u[:2]); err != nil {
 err = fmt.Errorf("pkt too short for Tag; need 2, have %d", b.Len())
 return
 }
 l = uint64(u[0]) | uint64(u[1])<<8
 t = Tag(l)
-	if _, err = b.Read(u[:4]); err != nil {
+	if _, err = io.ReadFull(b, u[:4]); err != nil {
 		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
 	return
 	}
@@ -1186,7 +1187,7 @@ t = Tag(l)
 	OFID |= FID(u[1])<<8
 	OFID |= FID(u[2])<<16
 	OFID |= FID(u[3])<<24
-	if _, err = b.Read(u[:2]); err != nil {
+	if _, err = io.ReadFull(b, u[:2]); err != nil {
 		err = fmt.Errorf("pkt too short for uint16: need 2, have %d", b.Len())
 	return
 	}
@@ -1249,7 +1250,7 @@ return
 func UnmarshalRclunkPkt (b *bytes.Buffer) ( t Tag, err error) {
 var u [8]uint8
 var l uint64
-if _, err = b.Read(u[:2]); err != nil {
+if _, err = io.ReadFull(b, u[:2]); err != nil {
 err = fmt.Errorf("pkt too short for Tag; need 2, have %d", b.Len())
 return
 }
@@ -1282,13 +1283,13 @@ return
 func UnmarshalTclunkPkt (b *bytes.Buffer) (OFID FID,  t Tag, err error) {
 var u [8]uint8
 var l uint64
-if _, err = b.Read(u[:2]); err != nil {
+if _, err = io.ReadFull(b, u[:2]); err != nil {
 err = fmt.Errorf("pkt too short for Tag; need 2, have %d", b.Len())
 return
 }
 l = uint64(u[0]) | uint64(u[1])<<8
 t = Tag(l)
-	if _, err = b.Read(u[:4]); err != nil {
+	if _, err = io.ReadFull(b, u[:4]); err != nil {
 		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
 	return
 	}
@@ -1351,7 +1352,7 @@ return
 func UnmarshalRremovePkt (b *bytes.Buffer) ( t Tag, err error) {
 var u [8]uint8
 var l uint64
-if _, err = b.Read(u[:2]); err != nil {
+if _, err = io.ReadFull(b, u[:2]); err != nil {
 err = fmt.Errorf("pkt too short for Tag; need 2, have %d", b.Len())
 return
 }
@@ -1384,13 +1385,13 @@ return
 func UnmarshalTremovePkt (b *bytes.Buffer) (OFID FID,  t Tag, err error) {
 var u [8]uint8
 var l uint64
-if _, err = b.Read(u[:2]); err != nil {
+if _, err = io.ReadFull(b, u[:2]); err != nil {
 err = fmt.Errorf("pkt too short for Tag; need 2, have %d", b.Len())
 return
 }
 l = uint64(u[0]) | uint64(u[1])<<8
 t = Tag(l)
-	if _, err = b.Read(u[:4]); err != nil {
+	if _, err = io.ReadFull(b, u[:4]); err != nil {
 		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
 	return
 	}
@@ -1458,13 +1459,13 @@ return
 func UnmarshalRreadPkt (b *bytes.Buffer) (Data []uint8,  t Tag, err error) {
 var u [8]uint8
 var l uint64
-if _, err = b.Read(u[:2]); err != nil {
+if _, err = io.ReadFull(b, u[:2]); err != nil {
 err = fmt.Errorf("pkt too short for Tag; need 2, have %d", b.Len())
 return
 }
 l = uint64(u[0]) | uint64(u[1])<<8
 t = Tag(l)
-	if _, err = b.Read(u[:4]); err != nil {
+	if _, err = io.ReadFull(b, u[:4]); err != nil {
 		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
 	return
 	}
@@ -1513,13 +1514,13 @@ return
 func UnmarshalTreadPkt (b *bytes.Buffer) (OFID FID, Off Offset, Len Count,  t Tag, err error) {
 var u [8]uint8
 var l uint64
-if _, err = b.Read(u[:2]); err != nil {
+if _, err = io.ReadFull(b, u[:2]); err != nil {
 err = fmt.Errorf("pkt too short for Tag; need 2, have %d", b.Len())
 return
 }
 l = uint64(u[0]) | uint64(u[1])<<8
 t = Tag(l)
-	if _, err = b.Read(u[:4]); err != nil {
+	if _, err = io.ReadFull(b, u[:4]); err != nil {
 		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
 	return
 	}
@@ -1527,7 +1528,7 @@ t = Tag(l)
 	OFID |= FID(u[1])<<8
 	OFID |= FID(u[2])<<16
 	OFID |= FID(u[3])<<24
-	if _, err = b.Read(u[:8]); err != nil {
+	if _, err = io.ReadFull(b, u[:8]); err != nil {
 		err = fmt.Errorf("pkt too short for uint64: need 8, have %d", b.Len())
 	return
 	}
@@ -1539,7 +1540,7 @@ t = Tag(l)
 	Off |= Offset(u[5])<<40
 	Off |= Offset(u[6])<<48
 	Off |= Offset(u[7])<<56
-	if _, err = b.Read(u[:4]); err != nil {
+	if _, err = io.ReadFull(b, u[:4]); err != nil {
 		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
 	return
 	}
@@ -1606,13 +1607,13 @@ return
 func UnmarshalRwritePkt (b *bytes.Buffer) (RLen Count,  t Tag, err error) {
 var u [8]uint8
 var l uint64
-if _, err = b.Read(u[:2]); err != nil {
+if _, err = io.ReadFull(b, u[:2]); err != nil {
 err = fmt.Errorf("pkt too short for Tag; need 2, have %d", b.Len())
 return
 }
 l = uint64(u[0]) | uint64(u[1])<<8
 t = Tag(l)
-	if _, err = b.Read(u[:4]); err != nil {
+	if _, err = io.ReadFull(b, u[:4]); err != nil {
 		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
 	return
 	}
@@ -1660,13 +1661,13 @@ return
 func UnmarshalTwritePkt (b *bytes.Buffer) (OFID FID, Off Offset, Data []uint8,  t Tag, err error) {
 var u [8]uint8
 var l uint64
-if _, err = b.Read(u[:2]); err != nil {
+if _, err = io.ReadFull(b, u[:2]); err != nil {
 err = fmt.Errorf("pkt too short for Tag; need 2, have %d", b.Len())
 return
 }
 l = uint64(u[0]) | uint64(u[1])<<8
 t = Tag(l)
-	if _, err = b.Read(u[:4]); err != nil {
+	if _, err = io.ReadFull(b, u[:4]); err != nil {
 		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
 	return
 	}
@@ -1674,7 +1675,7 @@ t = Tag(l)
 	OFID |= FID(u[1])<<8
 	OFID |= FID(u[2])<<16
 	OFID |= FID(u[3])<<24
-	if _, err = b.Read(u[:8]); err != nil {
+	if _, err = io.ReadFull(b, u[:8]); err != nil {
 		err = fmt.Errorf("pkt too short for uint64: need 8, have %d", b.Len())
 	return
 	}
@@ -1686,7 +1687,7 @@ t = Tag(l)
 	Off |= Offset(u[5])<<40
 	Off |= Offset(u[6])<<48
 	Off |= Offset(u[7])<<56
-	if _, err = b.Read(u[:4]); err != nil {
+	if _, err = io.ReadFull(b, u[:4]); err != nil {
 		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
 	return
 	}
@@ -1807,13 +1808,13 @@ func Unmarshaldir (b *bytes.Buffer) (D Dir,  err error) {
 var u [8]uint8
 var l uint64
 _ = b.Next(2) // eat the length too
-	if _, err = b.Read(u[:2]); err != nil {
+	if _, err = io.ReadFull(b, u[:2]); err != nil {
 		err = fmt.Errorf("pkt too short for uint16: need 2, have %d", b.Len())
 	return
 	}
 	D.Type = uint16(u[0])
 	D.Type |= uint16(u[1])<<8
-	if _, err = b.Read(u[:4]); err != nil {
+	if _, err = io.ReadFull(b, u[:4]); err != nil {
 		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
 	return
 	}
@@ -1821,12 +1822,12 @@ _ = b.Next(2) // eat the length too
 	D.Dev |= uint32(u[1])<<8
 	D.Dev |= uint32(u[2])<<16
 	D.Dev |= uint32(u[3])<<24
-	if _, err = b.Read(u[:1]); err != nil {
+	if _, err = io.ReadFull(b, u[:1]); err != nil {
 		err = fmt.Errorf("pkt too short for uint8: need 1, have %d", b.Len())
 	return
 	}
 	D.QID.Type = uint8(u[0])
-	if _, err = b.Read(u[:4]); err != nil {
+	if _, err = io.ReadFull(b, u[:4]); err != nil {
 		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
 	return
 	}
@@ -1834,7 +1835,7 @@ _ = b.Next(2) // eat the length too
 	D.QID.Version |= uint32(u[1])<<8
 	D.QID.Version |= uint32(u[2])<<16
 	D.QID.Version |= uint32(u[3])<<24
-	if _, err = b.Read(u[:8]); err != nil {
+	if _, err = io.ReadFull(b, u[:8]); err != nil {
 		err = fmt.Errorf("pkt too short for uint64: need 8, have %d", b.Len())
 	return
 	}
@@ -1846,7 +1847,7 @@ _ = b.Next(2) // eat the length too
 	D.QID.Path |= uint64(u[5])<<40
 	D.QID.Path |= uint64(u[6])<<48
 	D.QID.Path |= uint64(u[7])<<56
-	if _, err = b.Read(u[:4]); err != nil {
+	if _, err = io.ReadFull(b, u[:4]); err != nil {
 		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
 	return
 	}
@@ -1854,7 +1855,7 @@ _ = b.Next(2) // eat the length too
 	D.Mode |= uint32(u[1])<<8
 	D.Mode |= uint32(u[2])<<16
 	D.Mode |= uint32(u[3])<<24
-	if _, err = b.Read(u[:4]); err != nil {
+	if _, err = io.ReadFull(b, u[:4]); err != nil {
 		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
 	return
 	}
@@ -1862,7 +1863,7 @@ _ = b.Next(2) // eat the length too
 	D.Atime |= uint32(u[1])<<8
 	D.Atime |= uint32(u[2])<<16
 	D.Atime |= uint32(u[3])<<24
-	if _, err = b.Read(u[:4]); err != nil {
+	if _, err = io.ReadFull(b, u[:4]); err != nil {
 		err = fmt.Errorf("pkt too short for uint32: need 4, have %d", b.Len())
 	return
 	}
@@ -1870,7 +1871,7 @@ _ = b.Next(2) // eat the length too
 	D.Mtime |= uint32(u[1])<<8
 	D.Mtime |= uint32(u[2])<<16
 	D.Mtime |= uint32(u[3])<<24
-	if _, err = b.Read(u[:8]); err != nil {
+	if _, err = io.ReadFull(b, u[:8]); err != nil {
 		err = fmt.Errorf("pkt too short for uint64: need 8, have %d", b.Len())
 	return
 	}
@@ -1882,7 +1883,7 @@ _ = b.Next(2) // eat the length too
 	D.Length |= uint64(u[5])<<40
 	D.Length |= uint64(u[6])<<48
 	D.Length |= uint64(u[7])<<56
-	if _, err = b.Read(u[:2]); err != nil {
+	if _, err = io.ReadFull(b, u[:2]); err != nil {
 		err = fmt.Errorf("pkt too short for uint16: need 2, have %d", b.Len())
 	return
 	}
@@ -1894,7 +1895,7 @@ _ = b.Next(2) // eat the length too
 	}
 	D.Name = string(b.Bytes()[:l])
 	_ = b.Next(int(l))
-	if _, err = b.Read(u[:2]); err != nil {
+	if _, err = io.ReadFull(b, u[:2]); err != nil {
 		err = fmt.Errorf("pkt too short for uint16: need 2, have %d", b.Len())
 	return
 	}
@@ -1906,7 +1907,7 @@ _ = b.Next(2) // eat the length too
 	}
 	D.User = string(b.Bytes()[:l])
 	_ = b.Next(int(l))
-	if _, err = b.Read(u[:2]); err != nil {
+	if _, err = io.ReadFull(b, u[:2]); err != nil {
 		err = fmt.Errorf("pkt too short for uint16: need 2, have %d", b.Len())
 	return
 	}
@@ -1918,7 +1919,7 @@ _ = b.Next(2) // eat the length too
 	}
 	D.Group = string(b.Bytes()[:l])
 	_ = b.Next(int(l))
-	if _, err = b.Read(u[:2]); err != nil {
+	if _, err = io.ReadFull(b, u[:2]); err != nil {
 		err = fmt.Errorf("pkt too short for uint16: need 2, have %d", b.Len())
 	return
 	}
-- 
2.43.0


From 838aedb4687abb129ec43a7a9185e3eee504b10c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:20:26 +0000
Subject: [PATCH 02/27] fix: reject data and stat counts that reach past the
 end of the message

The decoder sliced the buffer by the count from the wire, which panics,
or exposes stale buffer contents, when the count is too large.
---
 protocol/gen.go    |  2 ++
 protocol/genout.go | 16 ++++++++++++++++
 2 files changed, 18 insertions(+)

diff --git a/protocol/gen.go b/protocol/gen.go
index 173fcaf..e1e108c 100644
--- a/protocol/gen.go
+++ b/protocol/gen.go
@@ -340,11 +340,13 @@ func genDecodeSlice(v interface{}, n string, e *emitter) error {
 	case "[]byte", "[]uint8":
 		var u uint64
 		emitDecodeInt(u, "l", 4, e)
+		e.UCode.WriteString("\tif uint64(b.Len()) < l {\n\t\terr = fmt.Errorf(\"pkt too short for data: need %d, have %d\", l, b.Len())\n\treturn\n\t}\n")
 		e.UCode.WriteString(fmt.Sprintf("\t%v = b.Bytes()[:l]\n", n))
 		e.UCode.WriteString("\t_ = b.Next(int(l))\n")
 	case "[]protocol.DataCnt16":
 		var u uint64
 		emitDecodeInt(u, "l", 2, e)
+		e.UCode.WriteString("\tif uint64(b.Len()) < l {\n\t\terr = fmt.Errorf(\"pkt too short for data: need %d, have %d\", l, b.Len())\n\treturn\n\t}\n")
 		e.UCode.WriteString(fmt.Sprintf("\t%v = b.Bytes()[:l]\n", n))
 		e.UCode.WriteString("\t_ = b.Next(int(l))\n")
 	default:
diff --git a/protocol/genout.go b/protocol/genout.go
index 25d5e4a..92185aa 100644
--- a/protocol/genout.go
+++ b/protocol/genout.go
@@ -1039,6 +1039,10 @@ t = Tag(l)
 	}
 	l = uint64(u[0])
 	l |= uint64(u[1])<<8
+	if uint64(b.Len()) < l {
+		err = fmt.Errorf("pkt too short for data: need %d, have %d", l, b.Len())
+	return
+	}
 	B = b.Bytes()[:l]
 	_ = b.Next(int(l))
 
@@ -1193,6 +1197,10 @@ t = Tag(l)
 	}
 	l = uint64(u[0])
 	l |= uint64(u[1])<<8
+	if uint64(b.Len()) < l {
+		err = fmt.Errorf("pkt too short for data: need %d, have %d", l, b.Len())
+	return
+	}
 	B = b.Bytes()[:l]
 	_ = b.Next(int(l))
 
@@ -1473,6 +1481,10 @@ t = Tag(l)
 	l |= uint64(u[1])<<8
 	l |= uint64(u[2])<<16
 	l |= uint64(u[3])<<24
+	if uint64(b.Len()) < l {
+		err = fmt.Errorf("pkt too short for data: need %d, have %d", l, b.Len())
+	return
+	}
 	Data = b.Bytes()[:l]
 	_ = b.Next(int(l))
 
@@ -1695,6 +1707,10 @@ t = Tag(l)
 	l |= uint64(u[1])<<8
 	l |= uint64(u[2])<<16
 	l |= uint64(u[3])<<24
+	if uint64(b.Len()) < l {
+		err = fmt.Errorf("pkt too short for data: need %d, have %d", l, b.Len())
+	return
+	}
 	Data = b.Bytes()[:l]
 	_ = b.Next(int(l))
 
-- 
2.43.0


From 0a1e2f0cb3a3080fbf3e22dbaeefb6e2d9d6e084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:20:28 +0000
Subject: [PATCH 03/27] fix: answer undecodable requests with an error instead
 of executing them

The server stubs ignored the decode error and called the file server
with whatever had been decoded so far.
---
 protocol/gen.go    |  6 ++--
 protocol/genout.go | 72 ++++++++++++++++++++++++++++++----------------
 2 files changed, 52 insertions(+), 26 deletions(-)

diff --git a/protocol/gen.go b/protocol/gen.go
index e1e108c..b6be0ef 100644
--- a/protocol/gen.go
+++ b/protocol/gen.go
@@ -159,8 +159,10 @@ return
 `))
 	sfunc = template.Must(template.New("s").Parse(`func (s *Server) Srv{{.R.UFunc}}(b*bytes.Buffer) (err error) {
 	{{.T.MList}}{{.T.MLsep}} t, err := Unmarshal{{.T.MFunc}}Pkt(b)
-	//if err != nil {
-	//}
+	if err != nil {
+		MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+		return err
+	}
 	if {{.R.MList}}{{.R.MLsep}} err := s.NS.{{.R.MFunc}}({{.T.MList}}); err != nil {
 	MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
 } else {
diff --git a/protocol/genout.go b/protocol/genout.go
index 92185aa..bd0ab3d 100644
--- a/protocol/genout.go
+++ b/protocol/genout.go
@@ -161,8 +161,10 @@ return
 }
 func (s *Server) SrvRversion(b*bytes.Buffer) (err error) {
 	TMsize, TVersion,  t, err := UnmarshalTversionPkt(b)
-	//if err != nil {
-	//}
+	if err != nil {
+		MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+		return err
+	}
 	if RMsize, RVersion,  err := s.NS.Rversion(TMsize, TVersion); err != nil {
 	MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
 } else {
@@ -342,8 +344,10 @@ return
 }
 func (s *Server) SrvRattach(b*bytes.Buffer) (err error) {
 	SFID, AFID, Uname, Aname,  t, err := UnmarshalTattachPkt(b)
-	//if err != nil {
-	//}
+	if err != nil {
+		MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+		return err
+	}
 	if QID,  err := s.NS.Rattach(SFID, AFID, Uname, Aname); err != nil {
 	MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
 } else {
@@ -440,8 +444,10 @@ return
 }
 func (s *Server) SrvRflush(b*bytes.Buffer) (err error) {
 	OTag,  t, err := UnmarshalTflushPkt(b)
-	//if err != nil {
-	//}
+	if err != nil {
+		MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+		return err
+	}
 	if  err := s.NS.Rflush(OTag); err != nil {
 	MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
 } else {
@@ -634,8 +640,10 @@ return
 }
 func (s *Server) SrvRwalk(b*bytes.Buffer) (err error) {
 	SFID, NewFID, Paths,  t, err := UnmarshalTwalkPkt(b)
-	//if err != nil {
-	//}
+	if err != nil {
+		MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+		return err
+	}
 	if QIDs,  err := s.NS.Rwalk(SFID, NewFID, Paths); err != nil {
 	MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
 } else {
@@ -792,8 +800,10 @@ return
 }
 func (s *Server) SrvRopen(b*bytes.Buffer) (err error) {
 	OFID, Omode,  t, err := UnmarshalTopenPkt(b)
-	//if err != nil {
-	//}
+	if err != nil {
+		MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+		return err
+	}
 	if OQID, IOUnit,  err := s.NS.Ropen(OFID, Omode); err != nil {
 	MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
 } else {
@@ -977,8 +987,10 @@ return
 }
 func (s *Server) SrvRcreate(b*bytes.Buffer) (err error) {
 	OFID, Name, CreatePerm, Omode,  t, err := UnmarshalTcreatePkt(b)
-	//if err != nil {
-	//}
+	if err != nil {
+		MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+		return err
+	}
 	if OQID, IOUnit,  err := s.NS.Rcreate(OFID, Name, CreatePerm, Omode); err != nil {
 	MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
 } else {
@@ -1094,8 +1106,10 @@ return
 }
 func (s *Server) SrvRstat(b*bytes.Buffer) (err error) {
 	OFID,  t, err := UnmarshalTstatPkt(b)
-	//if err != nil {
-	//}
+	if err != nil {
+		MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+		return err
+	}
 	if B,  err := s.NS.Rstat(OFID); err != nil {
 	MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
 } else {
@@ -1211,8 +1225,10 @@ return
 }
 func (s *Server) SrvRwstat(b*bytes.Buffer) (err error) {
 	OFID, B,  t, err := UnmarshalTwstatPkt(b)
-	//if err != nil {
-	//}
+	if err != nil {
+		MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+		return err
+	}
 	if  err := s.NS.Rwstat(OFID, B); err != nil {
 	MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
 } else {
@@ -1313,8 +1329,10 @@ return
 }
 func (s *Server) SrvRclunk(b*bytes.Buffer) (err error) {
 	OFID,  t, err := UnmarshalTclunkPkt(b)
-	//if err != nil {
-	//}
+	if err != nil {
+		MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+		return err
+	}
 	if  err := s.NS.Rclunk(OFID); err != nil {
 	MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
 } else {
@@ -1415,8 +1433,10 @@ return
 }
 func (s *Server) SrvRremove(b*bytes.Buffer) (err error) {
 	OFID,  t, err := UnmarshalTremovePkt(b)
-	//if err != nil {
-	//}
+	if err != nil {
+		MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+		return err
+	}
 	if  err := s.NS.Rremove(OFID); err != nil {
 	MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
 } else {
@@ -1568,8 +1588,10 @@ return
 }
 func (s *Server) SrvRread(b*bytes.Buffer) (err error) {
 	OFID, Off, Len,  t, err := UnmarshalTreadPkt(b)
-	//if err != nil {
-	//}
+	if err != nil {
+		MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+		return err
+	}
 	if Data,  err := s.NS.Rread(OFID, Off, Len); err != nil {
 	MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
 } else {
@@ -1721,8 +1743,10 @@ return
 }
 func (s *Server) SrvRwrite(b*bytes.Buffer) (err error) {
 	OFID, Off, Data,  t, err := UnmarshalTwritePkt(b)
-	//if err != nil {
-	//}
+	if err != nil {
+		MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+		return err
+	}
 	if RLen,  err := s.NS.Rwrite(OFID, Off, Data); err != nil {
 	MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
 } else {
-- 
2.43.0


From 52f5b7282d91e37a277e23dd690808d984749f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:21:29 +0000
Subject: [PATCH 04/27] fix: cut off error texts that do not fit into an Rerror

File server errors quote names of up to 64 KiB from the request, so the
text could exceed the 16-bit length field and make the reply malformed.
---
 protocol/gen.go    |  2 +-
 protocol/genout.go | 24 ++++++++++++------------
 protocol/server.go | 10 ++++++++++
 3 files changed, 23 insertions(+), 13 deletions(-)

diff --git a/protocol/gen.go b/protocol/gen.go
index b6be0ef..1763a34 100644
--- a/protocol/gen.go
+++ b/protocol/gen.go
@@ -164,7 +164,7 @@ return
 		return err
 	}
 	if {{.R.MList}}{{.R.MLsep}} err := s.NS.{{.R.MFunc}}({{.T.MList}}); err != nil {
-	MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+	MarshalRerrorPkt(b, t, errorString(err))
 } else {
 	Marshal{{.R.MFunc}}Pkt(b, t, {{.R.MList}})
 }
diff --git a/protocol/genout.go b/protocol/genout.go
index bd0ab3d..84bc8f0 100644
--- a/protocol/genout.go
+++ b/protocol/genout.go
@@ -166,7 +166,7 @@ func (s *Server) SrvRversion(b*bytes.Buffer) (err error) {
 		return err
 	}
 	if RMsize, RVersion,  err := s.NS.Rversion(TMsize, TVersion); err != nil {
-	MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+	MarshalRerrorPkt(b, t, errorString(err))
 } else {
 	MarshalRversionPkt(b, t, RMsize, RVersion)
 }
@@ -349,7 +349,7 @@ func (s *Server) SrvRattach(b*bytes.Buffer) (err error) {
 		return err
 	}
 	if QID,  err := s.NS.Rattach(SFID, AFID, Uname, Aname); err != nil {
-	MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+	MarshalRerrorPkt(b, t, errorString(err))
 } else {
 	MarshalRattachPkt(b, t, QID)
 }
@@ -449,7 +449,7 @@ func (s *Server) SrvRflush(b*bytes.Buffer) (err error) {
 		return err
 	}
 	if  err := s.NS.Rflush(OTag); err != nil {
-	MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+	MarshalRerrorPkt(b, t, errorString(err))
 } else {
 	MarshalRflushPkt(b, t, )
 }
@@ -645,7 +645,7 @@ func (s *Server) SrvRwalk(b*bytes.Buffer) (err error) {
 		return err
 	}
 	if QIDs,  err := s.NS.Rwalk(SFID, NewFID, Paths); err != nil {
-	MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+	MarshalRerrorPkt(b, t, errorString(err))
 } else {
 	MarshalRwalkPkt(b, t, QIDs)
 }
@@ -805,7 +805,7 @@ func (s *Server) SrvRopen(b*bytes.Buffer) (err error) {
 		return err
 	}
 	if OQID, IOUnit,  err := s.NS.Ropen(OFID, Omode); err != nil {
-	MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+	MarshalRerrorPkt(b, t, errorString(err))
 } else {
 	MarshalRopenPkt(b, t, OQID, IOUnit)
 }
@@ -992,7 +992,7 @@ func (s *Server) SrvRcreate(b*bytes.Buffer) (err error) {
 		return err
 	}
 	if OQID, IOUnit,  err := s.NS.Rcreate(OFID, Name, CreatePerm, Omode); err != nil {
-	MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+	MarshalRerrorPkt(b, t, errorString(err))
 } else {
 	MarshalRcreatePkt(b, t, OQID, IOUnit)
 }
@@ -1111,7 +1111,7 @@ func (s *Server) SrvRstat(b*bytes.Buffer) (err error) {
 		return err
 	}
 	if B,  err := s.NS.Rstat(OFID); err != nil {
-	MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+	MarshalRerrorPkt(b, t, errorString(err))
 } else {
 	MarshalRstatPkt(b, t, B)
 }
@@ -1230,7 +1230,7 @@ func (s *Server) SrvRwstat(b*bytes.Buffer) (err error) {
 		return err
 	}
 	if  err := s.NS.Rwstat(OFID, B); err != nil {
-	MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+	MarshalRerrorPkt(b, t, errorString(err))
 } else {
 	MarshalRwstatPkt(b, t, )
 }
@@ -1334,7 +1334,7 @@ func (s *Server) SrvRclunk(b*bytes.Buffer) (err error) {
 		return err
 	}
 	if  err := s.NS.Rclunk(OFID); err != nil {
-	MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+	MarshalRerrorPkt(b, t, errorString(err))
 } else {
 	MarshalRclunkPkt(b, t, )
 }
@@ -1438,7 +1438,7 @@ func (s *Server) SrvRremove(b*bytes.Buffer) (err error) {
 		return err
 	}
 	if  err := s.NS.Rremove(OFID); err != nil {
-	MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+	MarshalRerrorPkt(b, t, errorString(err))
 } else {
 	MarshalRremovePkt(b, t, )
 }
@@ -1593,7 +1593,7 @@ func (s *Server) SrvRread(b*bytes.Buffer) (err error) {
 		return err
 	}
 	if Data,  err := s.NS.Rread(OFID, Off, Len); err != nil {
-	MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+	MarshalRerrorPkt(b, t, errorString(err))
 } else {
 	MarshalRreadPkt(b, t, Data)
 }
@@ -1748,7 +1748,7 @@ func (s *Server) SrvRwrite(b*bytes.Buffer) (err error) {
 		return err
 	}
 	if RLen,  err := s.NS.Rwrite(OFID, Off, Data); err != nil {
-	MarshalRerrorPkt(b, t, fmt.Sprintf("%v", err))
+	MarshalRerrorPkt(b, t, errorString(err))
 } else {
 	MarshalRwritePkt(b, t, RLen)
 }
diff --git a/protocol/server.go b/protocol/server.go
index 3da8bd5..45a8b21 100644
--- a/protocol/server.go
+++ b/protocol/server.go
@@ -243,6 +243,16 @@ func (c *conn) serve() {
 	}
 }
 
+// errorString returns the text of err for an Rerror, which carries a 16-bit
+// length. Longer texts are cut off, since they can not be encoded.
+func errorString(err error) string {
+	s := fmt.Sprintf("%v", err)
+	if len(s) > 1<<16-1 {
+		s = s[:1<<16-1]
+	}
+	return s
+}
+
 // Dispatch dispatches request to different functions.
 // It's also the the first place we try to establish server semantics.
 // We could do this with interface assertions and such a la rsc/fuse
-- 
2.43.0


From b0a1054c9ed2817c63f2dee2be5274a9deeec48e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:21:30 +0000
Subject: [PATCH 05/27] fix: read whole messages on the server, however they
 arrive

A header that arrived in pieces ended the connection, and a message cut
off by the end of the stream or with an impossible size was executed.
---
 protocol/server.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/protocol/server.go b/protocol/server.go
index 45a8b21..f8f745e 100644
--- a/protocol/server.go
+++ b/protocol/server.go
@@ -212,16 +212,20 @@ func (c *conn) serve() {
 
 	for !c.dead {
 		l := make([]byte, 7)
-		if n, err := c.rwc.Read(l); err != nil || n < 7 {
+		if _, err := io.ReadFull(c.rwc, l); err != nil {
 			c.logf("readNetPackets: short read: %v", err)
 			c.dead = true
 			return
 		}
 		sz := int64(l[0]) + int64(l[1])<<8 + int64(l[2])<<16 + int64(l[3])<<24
+		if sz < 7 {
+			c.logf("readNetPackets: bad message size %v", sz)
+			c.dead = true
+			return
+		}
 		t := MType(l[4])
 		b := bytes.NewBuffer(l[5:])
-		r := io.LimitReader(c.rwc, sz-7)
-		if _, err := io.Copy(b, r); err != nil {
+		if _, err := io.CopyN(b, c.rwc, sz-7); err != nil {
 			c.logf("readNetPackets: short read: %v", err)
 			c.dead = true
 			return
-- 
2.43.0


From 3656d817dfe20c98d0874c437de5c8fb178ee4c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:05 +0000
Subject: [PATCH 06/27] fix: do not call a nil Trace when a client receives a
 reply

A client without tracing crashed on its first reply.
---
 protocol/client.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/protocol/client.go b/protocol/client.go
index 9f67f3c..1750f8b 100644
--- a/protocol/client.go
+++ b/protocol/client.go
@@ -160,9 +160,10 @@ func (c *Client) IO() {
 		if int(t-1) >= len(c.RPC) {
 			panic(fmt.Sprintf("tag %d >= len(c.RPC) %d", t, len(c.RPC)))
 		}
-		c.Trace("RPC %v ", c.RPC[t-1])
 		rrr := c.RPC[t-1]
-		c.Trace("rrr %v ", rrr)
+		if c.Trace != nil {
+			c.Trace("RPC %v ", rrr)
+		}
 		rrr.Reply <- r.b
 		c.Tags <- t
 	}
-- 
2.43.0


From 88125b793c9ee81dc2bc5e3310df84280a92cd8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:06 +0000
Subject: [PATCH 07/27] fix: read whole replies on the client, however they
 arrive

A reply header that arrived in pieces was taken for the end of the
connection, and a reply cut off by it was delivered as if complete.
---
 protocol/client.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/protocol/client.go b/protocol/client.go
index 1750f8b..22a055c 100644
--- a/protocol/client.go
+++ b/protocol/client.go
@@ -93,7 +93,7 @@ func (c *Client) readNetPackets() {
 			c.Trace("Before read")
 		}
 
-		if n, err := c.FromNet.Read(l); err != nil || n < 7 {
+		if _, err := io.ReadFull(c.FromNet, l); err != nil {
 			log.Printf("readNetPackets: short read: %v", err)
 			c.Dead = true
 			return
@@ -102,9 +102,13 @@ func (c *Client) readNetPackets() {
 			c.Trace("Server reads %v", l)
 		}
 		s := int64(l[0]) + int64(l[1])<<8 + int64(l[2])<<16 + int64(l[3])<<24
+		if s < 7 {
+			log.Printf("readNetPackets: bad message size %v", s)
+			c.Dead = true
+			return
+		}
 		b := bytes.NewBuffer(l)
-		r := io.LimitReader(c.FromNet, s-7)
-		if _, err := io.Copy(b, r); err != nil {
+		if _, err := io.CopyN(b, c.FromNet, s-7); err != nil {
 			log.Printf("readNetPackets: short read: %v", err)
 			c.Dead = true
 			return
-- 
2.43.0


From 7ffd1f81a75de6af8c0d22b7a52897b73dd2ca7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:42 +0000
Subject: [PATCH 08/27] fix: fail calls on a dead client instead of crashing or
 hanging

When the connection ended, the client dereferenced a nil reply; a write
error exited the whole program; and a reply with a tag not in use crashed
or blocked the client. Outstanding and later calls now return an error, as
the Client documentation says, and stray replies are ignored.
---
 protocol/client.go | 136 ++++++++++++++++++++++++++++++++-------------
 protocol/gen.go    |   7 ++-
 protocol/genout.go |  84 ++++++++++++++++------------
 3 files changed, 148 insertions(+), 79 deletions(-)

diff --git a/protocol/client.go b/protocol/client.go
index 22a055c..0e0638a 100644
--- a/protocol/client.go
+++ b/protocol/client.go
@@ -8,10 +8,12 @@ package protocol
 
 import (
 	"bytes"
+	"errors"
 	"fmt"
 	"io"
 	"log"
 	"runtime"
+	"sync"
 	"sync/atomic"
 )
 
@@ -33,8 +35,16 @@ type Client struct {
 	Msize      uint32
 	Dead       bool
 	Trace      Tracer
+
+	// done is closed once the client is Dead.
+	done chan struct{}
+
+	// mu guards RPC, which is indexed by tags the server sends.
+	mu sync.Mutex
 }
 
+var errDead = errors.New("connection to server is dead")
+
 func NewClient(opts ...ClientOpt) (*Client, error) {
 	var c = &Client{}
 
@@ -51,6 +61,7 @@ func NewClient(opts ...ClientOpt) (*Client, error) {
 	}
 	c.FromClient = make(chan *RPCCall, NumTags)
 	c.FromServer = make(chan *RPCReply)
+	c.done = make(chan struct{})
 	go c.IO()
 	go c.readNetPackets()
 	return c, nil
@@ -74,20 +85,21 @@ func (c *Client) GetFID() FID {
 	return FID(atomic.AddUint64(&c.FID, 1))
 }
 
+// readNetPackets reads replies and passes them on to IO. It closes FromServer
+// when there can be no more of them.
 func (c *Client) readNetPackets() {
+	defer close(c.FromServer)
 	if c.FromNet == nil {
 		if c.Trace != nil {
 			c.Trace("c.FromNet is nil, marking dead")
 		}
-		c.Dead = true
 		return
 	}
 	defer c.FromNet.Close()
-	defer close(c.FromServer)
 	if c.Trace != nil {
 		c.Trace("Starting readNetPackets")
 	}
-	for !c.Dead {
+	for {
 		l := make([]byte, 7)
 		if c.Trace != nil {
 			c.Trace("Before read")
@@ -95,7 +107,6 @@ func (c *Client) readNetPackets() {
 
 		if _, err := io.ReadFull(c.FromNet, l); err != nil {
 			log.Printf("readNetPackets: short read: %v", err)
-			c.Dead = true
 			return
 		}
 		if c.Trace != nil {
@@ -104,13 +115,11 @@ func (c *Client) readNetPackets() {
 		s := int64(l[0]) + int64(l[1])<<8 + int64(l[2])<<16 + int64(l[3])<<24
 		if s < 7 {
 			log.Printf("readNetPackets: bad message size %v", s)
-			c.Dead = true
 			return
 		}
 		b := bytes.NewBuffer(l)
 		if _, err := io.CopyN(b, c.FromNet, s-7); err != nil {
 			log.Printf("readNetPackets: short read: %v", err)
-			c.Dead = true
 			return
 		}
 		if c.Trace != nil {
@@ -118,39 +127,52 @@ func (c *Client) readNetPackets() {
 		}
 		c.FromServer <- &RPCReply{b: b.Bytes()}
 	}
-	if c.Trace != nil {
-		c.Trace("Client %v is all done", c)
-	}
+}
 
+// writeNetPackets assigns tags to calls and sends them to the server.
+func (c *Client) writeNetPackets() {
+	if c.FromNet == nil || c.ToNet == nil {
+		return
+	}
+	for {
+		var r *RPCCall
+		var t Tag
+		select {
+		case r = <-c.FromClient:
+		case <-c.done:
+			return
+		}
+		select {
+		case t = <-c.Tags:
+		case <-c.done:
+			return
+		}
+		r.b[5] = uint8(t)
+		r.b[6] = uint8(t >> 8)
+		if c.Trace != nil {
+			c.Trace(fmt.Sprintf("Tag for request is %v", t))
+		}
+		c.mu.Lock()
+		c.RPC[int(t)-1] = r
+		c.mu.Unlock()
+		if c.Trace != nil {
+			c.Trace("Write %v to ToNet", r.b)
+		}
+		if _, err := c.ToNet.Write(r.b); err != nil {
+			log.Printf("Write to server: %v", err)
+			// This ends readNetPackets, and with it the client.
+			c.FromNet.Close()
+			return
+		}
+	}
 }
 
+// IO delivers replies to the calls that wait for them, until there are no more
+// replies, which is when the client is dead.
 func (c *Client) IO() {
-	go func() {
-		for {
-			r := <-c.FromClient
-			t := <-c.Tags
-			if c.Trace != nil {
-				c.Trace(fmt.Sprintf("Tag for request is %v", t))
-			}
-			r.b[5] = uint8(t)
-			r.b[6] = uint8(t >> 8)
-			if c.Trace != nil {
-				c.Trace(fmt.Sprintf("Tag for request is %v", t))
-			}
-			c.RPC[int(t)-1] = r
-			if c.Trace != nil {
-				c.Trace("Write %v to ToNet", r.b)
-			}
-			if _, err := c.ToNet.Write(r.b); err != nil {
-				c.Dead = true
-				log.Fatalf("Write to server: %v", err)
-				return
-			}
-		}
-	}()
+	go c.writeNetPackets()
 
-	for {
-		r := <-c.FromServer
+	for r := range c.FromServer {
 		if c.Trace != nil {
 			c.Trace("Read %v FromServer", r.b)
 		}
@@ -158,19 +180,53 @@ func (c *Client) IO() {
 		if c.Trace != nil {
 			c.Trace(fmt.Sprintf("Tag for reply is %v", t))
 		}
-		if t < 1 {
-			panic(fmt.Sprintf("tag %d < 1", t))
+		var rrr *RPCCall
+		c.mu.Lock()
+		if t >= 1 && int(t-1) < len(c.RPC) {
+			rrr, c.RPC[t-1] = c.RPC[t-1], nil
 		}
-		if int(t-1) >= len(c.RPC) {
-			panic(fmt.Sprintf("tag %d >= len(c.RPC) %d", t, len(c.RPC)))
-		}
-		rrr := c.RPC[t-1]
+		c.mu.Unlock()
 		if c.Trace != nil {
 			c.Trace("RPC %v ", rrr)
 		}
+		if rrr == nil {
+			log.Printf("reply with tag %v, which is not in use", t)
+			continue
+		}
 		rrr.Reply <- r.b
 		c.Tags <- t
 	}
+	c.Dead = true
+	close(c.done)
+}
+
+// rpc sends a request and waits for its reply. It fails if the client is dead,
+// or dies before the reply arrives.
+func (c *Client) rpc(b []byte) ([]byte, error) {
+	// The buffer allows IO to go on when nobody waits for the reply any more.
+	r := make(chan []byte, 1)
+	select {
+	case <-c.done:
+		return nil, errDead
+	default:
+	}
+	select {
+	case c.FromClient <- &RPCCall{b: b, Reply: r}:
+	case <-c.done:
+		return nil, errDead
+	}
+	select {
+	case bb := <-r:
+		return bb, nil
+	case <-c.done:
+	}
+	// The reply may have been the last thing that arrived.
+	select {
+	case bb := <-r:
+		return bb, nil
+	default:
+		return nil, errDead
+	}
 }
 
 func (c *Client) String() string {
diff --git a/protocol/gen.go b/protocol/gen.go
index 1763a34..dfca962 100644
--- a/protocol/gen.go
+++ b/protocol/gen.go
@@ -176,11 +176,12 @@ func (c *Client)Call{{.T.MFunc}} ({{.T.MParms}}) ({{.R.URet}} err error) {
 var b = bytes.Buffer{}
 if c.Trace != nil {c.Trace("%v", {{.T.MFunc}})}
 t := Tag(0)
-r := make (chan []byte)
 if c.Trace != nil { c.Trace(":tag %v, FID %v", t, c.FID)}
 Marshal{{.T.MFunc}}Pkt(&b, t, {{.T.MList}})
-c.FromClient <- &RPCCall{b: b.Bytes(), Reply: r}
-bb := <-r
+bb, err := c.rpc(b.Bytes())
+if err != nil {
+	return {{.R.UList}} err
+}
 if MType(bb[4]) == Rerror {
 	s, _, err := UnmarshalRerrorPkt(bytes.NewBuffer(bb[5:]))
 	if err != nil {
diff --git a/protocol/genout.go b/protocol/genout.go
index 84bc8f0..4cdb283 100644
--- a/protocol/genout.go
+++ b/protocol/genout.go
@@ -177,11 +177,12 @@ func (c *Client)CallTversion (TMsize MaxSize, TVersion string) (RMsize MaxSize,
 var b = bytes.Buffer{}
 if c.Trace != nil {c.Trace("%v", Tversion)}
 t := Tag(0)
-r := make (chan []byte)
 if c.Trace != nil { c.Trace(":tag %v, FID %v", t, c.FID)}
 MarshalTversionPkt(&b, t, TMsize, TVersion)
-c.FromClient <- &RPCCall{b: b.Bytes(), Reply: r}
-bb := <-r
+bb, err := c.rpc(b.Bytes())
+if err != nil {
+	return RMsize, RVersion,  err
+}
 if MType(bb[4]) == Rerror {
 	s, _, err := UnmarshalRerrorPkt(bytes.NewBuffer(bb[5:]))
 	if err != nil {
@@ -360,11 +361,12 @@ func (c *Client)CallTattach (SFID FID, AFID FID, Uname string, Aname string) (QI
 var b = bytes.Buffer{}
 if c.Trace != nil {c.Trace("%v", Tattach)}
 t := Tag(0)
-r := make (chan []byte)
 if c.Trace != nil { c.Trace(":tag %v, FID %v", t, c.FID)}
 MarshalTattachPkt(&b, t, SFID, AFID, Uname, Aname)
-c.FromClient <- &RPCCall{b: b.Bytes(), Reply: r}
-bb := <-r
+bb, err := c.rpc(b.Bytes())
+if err != nil {
+	return QID,  err
+}
 if MType(bb[4]) == Rerror {
 	s, _, err := UnmarshalRerrorPkt(bytes.NewBuffer(bb[5:]))
 	if err != nil {
@@ -460,11 +462,12 @@ func (c *Client)CallTflush (OTag Tag) ( err error) {
 var b = bytes.Buffer{}
 if c.Trace != nil {c.Trace("%v", Tflush)}
 t := Tag(0)
-r := make (chan []byte)
 if c.Trace != nil { c.Trace(":tag %v, FID %v", t, c.FID)}
 MarshalTflushPkt(&b, t, OTag)
-c.FromClient <- &RPCCall{b: b.Bytes(), Reply: r}
-bb := <-r
+bb, err := c.rpc(b.Bytes())
+if err != nil {
+	return  err
+}
 if MType(bb[4]) == Rerror {
 	s, _, err := UnmarshalRerrorPkt(bytes.NewBuffer(bb[5:]))
 	if err != nil {
@@ -656,11 +659,12 @@ func (c *Client)CallTwalk (SFID FID, NewFID FID, Paths []string) (QIDs []QID,  e
 var b = bytes.Buffer{}
 if c.Trace != nil {c.Trace("%v", Twalk)}
 t := Tag(0)
-r := make (chan []byte)
 if c.Trace != nil { c.Trace(":tag %v, FID %v", t, c.FID)}
 MarshalTwalkPkt(&b, t, SFID, NewFID, Paths)
-c.FromClient <- &RPCCall{b: b.Bytes(), Reply: r}
-bb := <-r
+bb, err := c.rpc(b.Bytes())
+if err != nil {
+	return QIDs,  err
+}
 if MType(bb[4]) == Rerror {
 	s, _, err := UnmarshalRerrorPkt(bytes.NewBuffer(bb[5:]))
 	if err != nil {
@@ -816,11 +820,12 @@ func (c *Client)CallTopen (OFID FID, Omode Mode) (OQID QID, IOUnit MaxSize,  err
 var b = bytes.Buffer{}
 if c.Trace != nil {c.Trace("%v", Topen)}
 t := Tag(0)
-r := make (chan []byte)
 if c.Trace != nil { c.Trace(":tag %v, FID %v", t, c.FID)}
 MarshalTopenPkt(&b, t, OFID, Omode)
-c.FromClient <- &RPCCall{b: b.Bytes(), Reply: r}
-bb := <-r
+bb, err := c.rpc(b.Bytes())
+if err != nil {
+	return OQID, IOUnit,  err
+}
 if MType(bb[4]) == Rerror {
 	s, _, err := UnmarshalRerrorPkt(bytes.NewBuffer(bb[5:]))
 	if err != nil {
@@ -1003,11 +1008,12 @@ func (c *Client)CallTcreate (OFID FID, Name string, CreatePerm Perm, Omode Mode)
 var b = bytes.Buffer{}
 if c.Trace != nil {c.Trace("%v", Tcreate)}
 t := Tag(0)
-r := make (chan []byte)
 if c.Trace != nil { c.Trace(":tag %v, FID %v", t, c.FID)}
 MarshalTcreatePkt(&b, t, OFID, Name, CreatePerm, Omode)
-c.FromClient <- &RPCCall{b: b.Bytes(), Reply: r}
-bb := <-r
+bb, err := c.rpc(b.Bytes())
+if err != nil {
+	return OQID, IOUnit,  err
+}
 if MType(bb[4]) == Rerror {
 	s, _, err := UnmarshalRerrorPkt(bytes.NewBuffer(bb[5:]))
 	if err != nil {
@@ -1122,11 +1128,12 @@ func (c *Client)CallTstat (OFID FID) (B []byte,  err error) {
 var b = bytes.Buffer{}
 if c.Trace != nil {c.Trace("%v", Tstat)}
 t := Tag(0)
-r := make (chan []byte)
 if c.Trace != nil { c.Trace(":tag %v, FID %v", t, c.FID)}
 MarshalTstatPkt(&b, t, OFID)
-c.FromClient <- &RPCCall{b: b.Bytes(), Reply: r}
-bb := <-r
+bb, err := c.rpc(b.Bytes())
+if err != nil {
+	return B,  err
+}
 if MType(bb[4]) == Rerror {
 	s, _, err := UnmarshalRerrorPkt(bytes.NewBuffer(bb[5:]))
 	if err != nil {
@@ -1241,11 +1248,12 @@ func (c *Client)CallTwstat (OFID FID, B []byte) ( err error) {
 var b = bytes.Buffer{}
 if c.Trace != nil {c.Trace("%v", Twstat)}
 t := Tag(0)
-r := make (chan []byte)
 if c.Trace != nil { c.Trace(":tag %v, FID %v", t, c.FID)}
 MarshalTwstatPkt(&b, t, OFID, B)
-c.FromClient <- &RPCCall{b: b.Bytes(), Reply: r}
-bb := <-r
+bb, err := c.rpc(b.Bytes())
+if err != nil {
+	return  err
+}
 if MType(bb[4]) == Rerror {
 	s, _, err := UnmarshalRerrorPkt(bytes.NewBuffer(bb[5:]))
 	if err != nil {
@@ -1345,11 +1353,12 @@ func (c *Client)CallTclunk (OFID FID) ( err error) {
 var b = bytes.Buffer{}
 if c.Trace != nil {c.Trace("%v", Tclunk)}
 t := Tag(0)
-r := make (chan []byte)
 if c.Trace != nil { c.Trace(":tag %v, FID %v", t, c.FID)}
 MarshalTclunkPkt(&b, t, OFID)
-c.FromClient <- &RPCCall{b: b.Bytes(), Reply: r}
-bb := <-r
+bb, err := c.rpc(b.Bytes())
+if err != nil {
+	return  err
+}
 if MType(bb[4]) == Rerror {
 	s, _, err := UnmarshalRerrorPkt(bytes.NewBuffer(bb[5:]))
 	if err != nil {
@@ -1449,11 +1458,12 @@ func (c *Client)CallTremove (OFID FID) ( err error) {
 var b = bytes.Buffer{}
 if c.Trace != nil {c.Trace("%v", Tremove)}
 t := Tag(0)
-r := make (chan []byte)
 if c.Trace != nil { c.Trace(":tag %v, FID %v", t, c.FID)}
 MarshalTremovePkt(&b, t, OFID)
-c.FromClient <- &RPCCall{b: b.Bytes(), Reply: r}
-bb := <-r
+bb, err := c.rpc(b.Bytes())
+if err != nil {
+	return  err
+}
 if MType(bb[4]) == Rerror {
 	s, _, err := UnmarshalRerrorPkt(bytes.NewBuffer(bb[5:]))
 	if err != nil {
@@ -1604,11 +1614,12 @@ func (c *Client)CallTread (OFID FID, Off Offset, Len Count) (Data []uint8,  err
 var b = bytes.Buffer{}
 if c.Trace != nil {c.Trace("%v", Tread)}
 t := Tag(0)
-r := make (chan []byte)
 if c.Trace != nil { c.Trace(":tag %v, FID %v", t, c.FID)}
 MarshalTreadPkt(&b, t, OFID, Off, Len)
-c.FromClient <- &RPCCall{b: b.Bytes(), Reply: r}
-bb := <-r
+bb, err := c.rpc(b.Bytes())
+if err != nil {
+	return Data,  err
+}
 if MType(bb[4]) == Rerror {
 	s, _, err := UnmarshalRerrorPkt(bytes.NewBuffer(bb[5:]))
 	if err != nil {
@@ -1759,11 +1770,12 @@ func (c *Client)CallTwrite (OFID FID, Off Offset, Data []uint8) (RLen Count,  er
 var b = bytes.Buffer{}
 if c.Trace != nil {c.Trace("%v", Twrite)}
 t := Tag(0)
-r := make (chan []byte)
 if c.Trace != nil { c.Trace(":tag %v, FID %v", t, c.FID)}
 MarshalTwritePkt(&b, t, OFID, Off, Data)
-c.FromClient <- &RPCCall{b: b.Bytes(), Reply: r}
-bb := <-r
+bb, err := c.rpc(b.Bytes())
+if err != nil {
+	return RLen,  err
+}
 if MType(bb[4]) == Rerror {
 	s, _, err := UnmarshalRerrorPkt(bytes.NewBuffer(bb[5:]))
 	if err != nil {
-- 
2.43.0


From 3b751fc9db51d5b132a248ff8ca214bbfa3767b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:45 +0000
Subject: [PATCH 09/27] fix: refuse replies of the wrong type

A client decoded any reply that is not an error as the type it expected.
---
 protocol/gen.go    |  2 ++
 protocol/genout.go | 24 ++++++++++++++++++++++++
 2 files changed, 26 insertions(+)

diff --git a/protocol/gen.go b/protocol/gen.go
index dfca962..3378777 100644
--- a/protocol/gen.go
+++ b/protocol/gen.go
@@ -188,6 +188,8 @@ if MType(bb[4]) == Rerror {
 		return {{.R.UList}} err
 	}
 	return {{.R.UList}} fmt.Errorf("%v", s)
+} else if MType(bb[4]) != {{.R.MFunc}} {
+	return {{.R.UList}} fmt.Errorf("reply to {{.T.MFunc}} is of type %d, not {{.R.MFunc}}", bb[4])
 } else {
 	{{.R.MList}}{{.R.MLsep}} _, err = Unmarshal{{.R.UFunc}}Pkt(bytes.NewBuffer(bb[5:]))
 }
diff --git a/protocol/genout.go b/protocol/genout.go
index 4cdb283..82fc825 100644
--- a/protocol/genout.go
+++ b/protocol/genout.go
@@ -189,6 +189,8 @@ if MType(bb[4]) == Rerror {
 		return RMsize, RVersion,  err
 	}
 	return RMsize, RVersion,  fmt.Errorf("%v", s)
+} else if MType(bb[4]) != Rversion {
+	return RMsize, RVersion,  fmt.Errorf("reply to Tversion is of type %d, not Rversion", bb[4])
 } else {
 	RMsize, RVersion,  _, err = UnmarshalRversionPkt(bytes.NewBuffer(bb[5:]))
 }
@@ -373,6 +375,8 @@ if MType(bb[4]) == Rerror {
 		return QID,  err
 	}
 	return QID,  fmt.Errorf("%v", s)
+} else if MType(bb[4]) != Rattach {
+	return QID,  fmt.Errorf("reply to Tattach is of type %d, not Rattach", bb[4])
 } else {
 	QID,  _, err = UnmarshalRattachPkt(bytes.NewBuffer(bb[5:]))
 }
@@ -474,6 +478,8 @@ if MType(bb[4]) == Rerror {
 		return  err
 	}
 	return  fmt.Errorf("%v", s)
+} else if MType(bb[4]) != Rflush {
+	return  fmt.Errorf("reply to Tflush is of type %d, not Rflush", bb[4])
 } else {
 	 _, err = UnmarshalRflushPkt(bytes.NewBuffer(bb[5:]))
 }
@@ -671,6 +677,8 @@ if MType(bb[4]) == Rerror {
 		return QIDs,  err
 	}
 	return QIDs,  fmt.Errorf("%v", s)
+} else if MType(bb[4]) != Rwalk {
+	return QIDs,  fmt.Errorf("reply to Twalk is of type %d, not Rwalk", bb[4])
 } else {
 	QIDs,  _, err = UnmarshalRwalkPkt(bytes.NewBuffer(bb[5:]))
 }
@@ -832,6 +840,8 @@ if MType(bb[4]) == Rerror {
 		return OQID, IOUnit,  err
 	}
 	return OQID, IOUnit,  fmt.Errorf("%v", s)
+} else if MType(bb[4]) != Ropen {
+	return OQID, IOUnit,  fmt.Errorf("reply to Topen is of type %d, not Ropen", bb[4])
 } else {
 	OQID, IOUnit,  _, err = UnmarshalRopenPkt(bytes.NewBuffer(bb[5:]))
 }
@@ -1020,6 +1030,8 @@ if MType(bb[4]) == Rerror {
 		return OQID, IOUnit,  err
 	}
 	return OQID, IOUnit,  fmt.Errorf("%v", s)
+} else if MType(bb[4]) != Rcreate {
+	return OQID, IOUnit,  fmt.Errorf("reply to Tcreate is of type %d, not Rcreate", bb[4])
 } else {
 	OQID, IOUnit,  _, err = UnmarshalRcreatePkt(bytes.NewBuffer(bb[5:]))
 }
@@ -1140,6 +1152,8 @@ if MType(bb[4]) == Rerror {
 		return B,  err
 	}
 	return B,  fmt.Errorf("%v", s)
+} else if MType(bb[4]) != Rstat {
+	return B,  fmt.Errorf("reply to Tstat is of type %d, not Rstat", bb[4])
 } else {
 	B,  _, err = UnmarshalRstatPkt(bytes.NewBuffer(bb[5:]))
 }
@@ -1260,6 +1274,8 @@ if MType(bb[4]) == Rerror {
 		return  err
 	}
 	return  fmt.Errorf("%v", s)
+} else if MType(bb[4]) != Rwstat {
+	return  fmt.Errorf("reply to Twstat is of type %d, not Rwstat", bb[4])
 } else {
 	 _, err = UnmarshalRwstatPkt(bytes.NewBuffer(bb[5:]))
 }
@@ -1365,6 +1381,8 @@ if MType(bb[4]) == Rerror {
 		return  err
 	}
 	return  fmt.Errorf("%v", s)
+} else if MType(bb[4]) != Rclunk {
+	return  fmt.Errorf("reply to Tclunk is of type %d, not Rclunk", bb[4])
 } else {
 	 _, err = UnmarshalRclunkPkt(bytes.NewBuffer(bb[5:]))
 }
@@ -1470,6 +1488,8 @@ if MType(bb[4]) == Rerror {
 		return  err
 	}
 	return  fmt.Errorf("%v", s)
+} else if MType(bb[4]) != Rremove {
+	return  fmt.Errorf("reply to Tremove is of type %d, not Rremove", bb[4])
 } else {
 	 _, err = UnmarshalRremovePkt(bytes.NewBuffer(bb[5:]))
 }
@@ -1626,6 +1646,8 @@ if MType(bb[4]) == Rerror {
 		return Data,  err
 	}
 	return Data,  fmt.Errorf("%v", s)
+} else if MType(bb[4]) != Rread {
+	return Data,  fmt.Errorf("reply to Tread is of type %d, not Rread", bb[4])
 } else {
 	Data,  _, err = UnmarshalRreadPkt(bytes.NewBuffer(bb[5:]))
 }
@@ -1782,6 +1804,8 @@ if MType(bb[4]) == Rerror {
 		return RLen,  err
 	}
 	return RLen,  fmt.Errorf("%v", s)
+} else if MType(bb[4]) != Rwrite {
+	return RLen,  fmt.Errorf("reply to Twrite is of type %d, not Rwrite", bb[4])
 } else {
 	RLen,  _, err = UnmarshalRwritePkt(bytes.NewBuffer(bb[5:]))
 }
-- 
2.43.0


From 98157b3affda72d1c7ee2b1db6526292956090d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:24:27 +0000
Subject: [PATCH 10/27] fix: keep clients inside the root of the file server

A walk through .., a created name with slashes or .., and a rename to an
absolute name with .. led out of the root, and the root itself could be
renamed or removed.
---
 filesystem/filesystem.go | 32 ++++++++++++++++++++++++++++++--
 1 file changed, 30 insertions(+), 2 deletions(-)

diff --git a/filesystem/filesystem.go b/filesystem/filesystem.go
index 2523097..975e2e3 100644
--- a/filesystem/filesystem.go
+++ b/filesystem/filesystem.go
@@ -13,6 +13,7 @@ import (
 	"os"
 	"path"
 	"path/filepath"
+	"strings"
 	"sync"
 	"time"
 
@@ -101,6 +102,24 @@ func (e *FileServer) Rflush(o protocol.Tag) error {
 	return nil
 }
 
+// isRoot tells whether p is the root of this server.
+func (e *FileServer) isRoot(p string) bool {
+	return p == path.Clean(e.rootPath)
+}
+
+// walk1 returns the path that walking from p to name leads to. That is never
+// out of the root of this server: .. from the root is the root, and any other
+// name can only lead down.
+func (e *FileServer) walk1(p, name string) string {
+	if name != ".." {
+		return path.Join(p, path.Join("/", name))
+	}
+	if e.isRoot(p) {
+		return p
+	}
+	return path.Dir(p)
+}
+
 func (e *FileServer) Rwalk(fid protocol.FID, newfid protocol.FID, paths []string) ([]protocol.QID, error) {
 	e.mu.Lock()
 	f, ok := e.files[fid]
@@ -124,7 +143,7 @@ func (e *FileServer) Rwalk(fid protocol.FID, newfid protocol.FID, paths []string
 
 	var i int
 	for i = range paths {
-		p = path.Join(p, paths[i])
+		p = e.walk1(p, paths[i])
 		st, err := os.Lstat(p)
 		if err != nil {
 			// From the RFC: If the first element cannot be walked for any
@@ -185,6 +204,9 @@ func (e *FileServer) Rcreate(fid protocol.FID, name string, perm protocol.Perm,
 	if f.file != nil {
 		return protocol.QID{}, 0, fmt.Errorf("FID already open")
 	}
+	if name == "" || name == "." || name == ".." || strings.Contains(name, "/") {
+		return protocol.QID{}, 0, fmt.Errorf("bad file name %q", name)
+	}
 	n := path.Join(f.fullName, name)
 	if perm&protocol.Perm(protocol.DMDIR) != 0 {
 		p := os.FileMode(int(perm) & 0777)
@@ -271,6 +293,9 @@ func (e *FileServer) Rwstat(fid protocol.FID, b []byte) error {
 	*/
 
 	if dir.Name != "" {
+		if e.isRoot(f.fullName) {
+			return fmt.Errorf("can not rename the root")
+		}
 		changed = true
 		// If we path.Join dir.Name to / before adding it to
 		// the fid path, that ensures nobody gets to walk out of the
@@ -282,7 +307,7 @@ func (e *FileServer) Rwstat(fid protocol.FID, b []byte) error {
 		// we will make it relative to root. This is a gigantic performance
 		// improvement in systems that allow it.
 		if filepath.IsAbs(dir.Name) {
-			newname = path.Join(e.rootPath, dir.Name)
+			newname = path.Join(e.rootPath, path.Join("/", dir.Name))
 		}
 
 		// If to exists, and to is a directory, we can't do the
@@ -358,6 +383,9 @@ func (e *FileServer) Rremove(fid protocol.FID) error {
 	if err != nil {
 		return err
 	}
+	if e.isRoot(f.fullName) {
+		return fmt.Errorf("can not remove the root")
+	}
 	return os.Remove(f.fullName)
 }
 
-- 
2.43.0


From 68abd11365712fe70936fc1965574d0cf5873101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:24:28 +0000
Subject: [PATCH 11/27] fix: report a failed mkdir

The error was overwritten by that of the stat that follows, so creating a
directory over an existing file succeeded.
---
 filesystem/filesystem.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/filesystem/filesystem.go b/filesystem/filesystem.go
index 975e2e3..4ffd03f 100644
--- a/filesystem/filesystem.go
+++ b/filesystem/filesystem.go
@@ -210,7 +210,9 @@ func (e *FileServer) Rcreate(fid protocol.FID, name string, perm protocol.Perm,
 	n := path.Join(f.fullName, name)
 	if perm&protocol.Perm(protocol.DMDIR) != 0 {
 		p := os.FileMode(int(perm) & 0777)
-		err := os.Mkdir(n, p)
+		if err := os.Mkdir(n, p); err != nil {
+			return protocol.QID{}, 0, err
+		}
 		_, q, err := stat(n)
 		if err != nil {
 			return protocol.QID{}, 0, err
-- 
2.43.0


From 5779e3c4736418b9e79c6250666bd7eaa89b0a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:24:29 +0000
Subject: [PATCH 12/27] fix: refuse to open a FID that is already open

The second open replaced, and if it failed lost, the file of the first,
which was never closed.
---
 filesystem/filesystem.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/filesystem/filesystem.go b/filesystem/filesystem.go
index 4ffd03f..9af791e 100644
--- a/filesystem/filesystem.go
+++ b/filesystem/filesystem.go
@@ -187,6 +187,9 @@ func (e *FileServer) Ropen(fid protocol.FID, mode protocol.Mode) (protocol.QID,
 	if !ok {
 		return protocol.QID{}, 0, fmt.Errorf("does not exist")
 	}
+	if f.file != nil {
+		return protocol.QID{}, 0, fmt.Errorf("FID already open")
+	}
 
 	var err error
 	f.file, err = os.OpenFile(f.fullName, modeToUnixFlags(mode), 0)
-- 
2.43.0


From 38e6d3a706a08ee125cd9c2dacfb2881e18c69d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:24:30 +0000
Subject: [PATCH 13/27] fix: make the FIDs of a walk independent of each other

A clone shared the open file of its original, so that clunking either
broke the other; a walk of no elements onto the same FID failed; and
walking an open FID onto itself lost its open file.
---
 filesystem/filesystem.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/filesystem/filesystem.go b/filesystem/filesystem.go
index 9af791e..9ccfd76 100644
--- a/filesystem/filesystem.go
+++ b/filesystem/filesystem.go
@@ -130,12 +130,16 @@ func (e *FileServer) Rwalk(fid protocol.FID, newfid protocol.FID, paths []string
 	if len(paths) == 0 {
 		e.mu.Lock()
 		defer e.mu.Unlock()
+		if fid == newfid {
+			return []protocol.QID{}, nil
+		}
 		_, ok := e.files[newfid]
 		if ok {
 			return nil, fmt.Errorf("FID in use: clone walk, fid %d newfid %d", fid, newfid)
 		}
-		nf := *f
-		e.files[newfid] = &nf
+		// The clone is not open: it must not share the open file of fid,
+		// which goes away when fid is clunked.
+		e.files[newfid] = &file{fullName: f.fullName, QID: f.QID}
 		return []protocol.QID{}, nil
 	}
 	p := f.fullName
@@ -175,6 +179,8 @@ func (e *FileServer) Rwalk(fid protocol.FID, newfid protocol.FID, paths []string
 		if _, ok := e.files[newfid]; ok {
 			return nil, fmt.Errorf("FID in use: walk to %v, fid %v, newfid %v", paths, fid, newfid)
 		}
+	} else if f.file != nil {
+		return nil, fmt.Errorf("FID already open")
 	}
 	e.files[newfid] = &file{fullName: p, QID: q[i]}
 	return q, nil
-- 
2.43.0


From 96bf53ee49a7bc7c16ed268eeab3cdf126a27841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:24:31 +0000
Subject: [PATCH 14/27] fix: refuse to attach to a FID in use, and drop all
 FIDs on Tversion

An attach silently replaced whatever the FID stood for, and lost its open
file. As Tversion starts a new session, the FIDs of the previous one must
not be in the way.
---
 filesystem/filesystem.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/filesystem/filesystem.go b/filesystem/filesystem.go
index 9ccfd76..4ce5c63 100644
--- a/filesystem/filesystem.go
+++ b/filesystem/filesystem.go
@@ -65,6 +65,12 @@ func (e *FileServer) Rversion(msize protocol.MaxSize, version string) (protocol.
 	if version != "9P2000" {
 		return 0, "", fmt.Errorf("%v not supported; only 9P2000", version)
 	}
+	// This starts a new session, in which there are no FIDs yet.
+	e.mu.Lock()
+	defer e.mu.Unlock()
+	for fid := range e.files {
+		e.clunkLocked(fid)
+	}
 	e.Versioned = true
 	return msize, version, nil
 }
@@ -93,6 +99,11 @@ func (e *FileServer) Rattach(fid protocol.FID, afid protocol.FID, uname string,
 	}
 	r := &file{fullName: aname}
 	r.QID = fileInfoToQID(st)
+	e.mu.Lock()
+	defer e.mu.Unlock()
+	if _, ok := e.files[fid]; ok {
+		return protocol.QID{}, fmt.Errorf("FID in use: attach, fid %d", fid)
+	}
 	e.files[fid] = r
 	e.root = r
 	return r.QID, nil
@@ -372,6 +383,10 @@ func (e *FileServer) Rwstat(fid protocol.FID, b []byte) error {
 func (e *FileServer) clunk(fid protocol.FID) (*file, error) {
 	e.mu.Lock()
 	defer e.mu.Unlock()
+	return e.clunkLocked(fid)
+}
+
+func (e *FileServer) clunkLocked(fid protocol.FID) (*file, error) {
 	f, ok := e.files[fid]
 	if !ok {
 		return nil, fmt.Errorf("does not exist")
-- 
2.43.0


From 8710114ca0e3d967258376f8234afda92c0e638f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:29:16 +0000
Subject: [PATCH 15/27] fix: do not lose a directory entry that does not fit
 into a read

It was dropped, and missing from the listing, instead of being saved for
the next read as intended.
---
 filesystem/filesystem.go | 33 +++++++++++++--------------------
 1 file changed, 13 insertions(+), 20 deletions(-)

diff --git a/filesystem/filesystem.go b/filesystem/filesystem.go
index 4ce5c63..a8683db 100644
--- a/filesystem/filesystem.go
+++ b/filesystem/filesystem.go
@@ -434,18 +434,13 @@ func (e *FileServer) Rread(fid protocol.FID, o protocol.Offset, c protocol.Count
 		// We make the assumption that they can always fit at least one
 		// directory entry into a read. If that assumption does not hold
 		// so many things are broken that we can't fix them here.
-		// But we'll drop out of the loop below having returned nothing
-		// anyway.
+		// But we'll return nothing anyway, and keep the entry for the
+		// next read.
 		b := bytes.NewBuffer(f.oflow)
 		f.oflow = nil
-		pos := 0
-
-		for {
-			if b.Len() > int(c) {
-				f.oflow = b.Bytes()[pos:]
-				return b.Bytes()[:pos], nil
-			}
-			pos += b.Len()
+		// We're not quite doing the array right.
+		// What does work is returning one thing so, for now, do that.
+		if b.Len() == 0 {
 			st, err := f.file.Readdir(1)
 			if err == io.EOF {
 				return b.Bytes(), nil
@@ -459,16 +454,14 @@ func (e *FileServer) Rread(fid protocol.FID, o protocol.Offset, c protocol.Count
 				return nil, err
 			}
 			protocol.Marshaldir(b, *d9p)
-			// Seen on linux clients: sometimes the math is wrong and
-			// they end up asking for the last element with not enough data.
-			// Linux bug or bug with this server? Not sure yet.
-			if b.Len() > int(c) {
-				log.Printf("Warning: Server bug? %v, need %d bytes;count is %d: skipping", d9p, b.Len(), c)
-				return nil, nil
-			}
-			// We're not quite doing the array right.
-			// What does work is returning one thing so, for now, do that.
-			return b.Bytes(), nil
+		}
+		// Seen on linux clients: sometimes the math is wrong and
+		// they end up asking for the last element with not enough data.
+		// Linux bug or bug with this server? Not sure yet.
+		if b.Len() > int(c) {
+			log.Printf("Warning: Server bug? need %d bytes;count is %d", b.Len(), c)
+			f.oflow = b.Bytes()
+			return nil, nil
 		}
 		return b.Bytes(), nil
 	}
-- 
2.43.0


From a947d60511346996693350847cc94daf4c3111f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:29:18 +0000
Subject: [PATCH 16/27] fix: limit the size of reads

A negative count made the server panic. A huge one made it allocate as
much memory, and send a reply larger than the agreed message size.
---
 filesystem/filesystem.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/filesystem/filesystem.go b/filesystem/filesystem.go
index a8683db..efb37ed 100644
--- a/filesystem/filesystem.go
+++ b/filesystem/filesystem.go
@@ -36,6 +36,7 @@ type FileServer struct {
 	rootPath  string
 	Versioned bool
 	IOunit    protocol.MaxSize
+	msize     protocol.MaxSize
 
 	// mu guards below
 	mu    sync.Mutex
@@ -65,12 +66,16 @@ func (e *FileServer) Rversion(msize protocol.MaxSize, version string) (protocol.
 	if version != "9P2000" {
 		return 0, "", fmt.Errorf("%v not supported; only 9P2000", version)
 	}
+	if msize <= protocol.IOHDRSZ {
+		return 0, "", fmt.Errorf("msize %d is too small", msize)
+	}
 	// This starts a new session, in which there are no FIDs yet.
 	e.mu.Lock()
 	defer e.mu.Unlock()
 	for fid := range e.files {
 		e.clunkLocked(fid)
 	}
+	e.msize = msize
 	e.Versioned = true
 	return msize, version, nil
 }
@@ -423,6 +428,13 @@ func (e *FileServer) Rread(fid protocol.FID, o protocol.Offset, c protocol.Count
 	if f.file == nil {
 		return nil, fmt.Errorf("FID not open")
 	}
+	if c < 0 {
+		return nil, fmt.Errorf("bad count %d", c)
+	}
+	// A reply must not be larger than the client said it can be.
+	if m := e.msize - protocol.IOHDRSZ; protocol.MaxSize(c) > m {
+		c = protocol.Count(m)
+	}
 	if f.QID.Type&protocol.QTDIR != 0 {
 		if o == 0 {
 			f.oflow = nil
-- 
2.43.0


From 63ce8bb1f9b9128b30c92be4009da496cacb28b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:29:19 +0000
Subject: [PATCH 17/27] fix: change nothing in a wstat that is refused

The permissions were changed before the owner, group and name were looked
at.
---
 filesystem/filesystem.go | 48 ++++++++++++++++++++++------------------
 1 file changed, 27 insertions(+), 21 deletions(-)

diff --git a/filesystem/filesystem.go b/filesystem/filesystem.go
index efb37ed..cc0731c 100644
--- a/filesystem/filesystem.go
+++ b/filesystem/filesystem.go
@@ -294,40 +294,23 @@ func (e *FileServer) Rwstat(fid protocol.FID, b []byte) error {
 	if err != nil {
 		return err
 	}
-	if dir.Mode != 0xFFFFFFFF {
-		changed = true
-		mode := dir.Mode & 0777
-		if err := os.Chmod(f.fullName, os.FileMode(mode)); err != nil {
-			return err
-		}
-	}
 
+	// Refuse what we won't do before we change anything: a wstat either
+	// happens as a whole or not at all.
 	// Try to find local uid, gid by name.
 	if dir.User != "" || dir.Group != "" {
 		return fmt.Errorf("Permission denied")
-		changed = true
 	}
 
-	/*
-		if uid != ninep.NOUID || gid != ninep.NOUID {
-			changed = true
-			e := os.Chown(fid.path, int(uid), int(gid))
-			if e != nil {
-				req.RespondError(toError(e))
-				return
-			}
-		}
-	*/
-
+	var newname string
 	if dir.Name != "" {
 		if e.isRoot(f.fullName) {
 			return fmt.Errorf("can not rename the root")
 		}
-		changed = true
 		// If we path.Join dir.Name to / before adding it to
 		// the fid path, that ensures nobody gets to walk out of the
 		// root of this server.
-		newname := path.Join(path.Dir(f.fullName), path.Join("/", dir.Name))
+		newname = path.Join(path.Dir(f.fullName), path.Join("/", dir.Name))
 
 		// absolute renaming. Ufs can do this, so let's support it.
 		// We'll allow an absolute path in the Name and, if it is,
@@ -344,6 +327,29 @@ func (e *FileServer) Rwstat(fid protocol.FID, b []byte) error {
 		if err == nil && st.IsDir() {
 			return fmt.Errorf("is a directory")
 		}
+	}
+
+	if dir.Mode != 0xFFFFFFFF {
+		changed = true
+		mode := dir.Mode & 0777
+		if err := os.Chmod(f.fullName, os.FileMode(mode)); err != nil {
+			return err
+		}
+	}
+
+	/*
+		if uid != ninep.NOUID || gid != ninep.NOUID {
+			changed = true
+			e := os.Chown(fid.path, int(uid), int(gid))
+			if e != nil {
+				req.RespondError(toError(e))
+				return
+			}
+		}
+	*/
+
+	if newname != "" {
+		changed = true
 		if err := os.Rename(f.fullName, newname); err != nil {
 			return err
 		}
-- 
2.43.0


From a8ac187205e15df946298d84d1c2dcfbbe54001f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:29:20 +0000
Subject: [PATCH 18/27] fix: leave the access time alone in a wstat that does
 not set it

Setting only the modification time set the access time to 2^32-1.
---
 filesystem/filesystem.go | 21 +++++++--------------
 1 file changed, 7 insertions(+), 14 deletions(-)

diff --git a/filesystem/filesystem.go b/filesystem/filesystem.go
index cc0731c..4f7acd6 100644
--- a/filesystem/filesystem.go
+++ b/filesystem/filesystem.go
@@ -363,22 +363,15 @@ func (e *FileServer) Rwstat(fid protocol.FID, b []byte) error {
 		}
 	}
 
-	// If either mtime or atime need to be changed, then
-	// we must change both.
 	if dir.Mtime != ^uint32(0) || dir.Atime != ^uint32(0) {
 		changed = true
-		mt, at := time.Unix(int64(dir.Mtime), 0), time.Unix(int64(dir.Atime), 0)
-		if cmt, cat := (dir.Mtime == ^uint32(0)), (dir.Atime == ^uint32(0)); cmt || cat {
-			st, err := os.Stat(f.fullName)
-			if err != nil {
-				return err
-			}
-			switch cmt {
-			case true:
-				mt = st.ModTime()
-			default:
-				//at = atime(st.Sys().(*syscall.Stat_t))
-			}
+		// A zero time leaves the file time as it is.
+		var mt, at time.Time
+		if dir.Mtime != ^uint32(0) {
+			mt = time.Unix(int64(dir.Mtime), 0)
+		}
+		if dir.Atime != ^uint32(0) {
+			at = time.Unix(int64(dir.Atime), 0)
 		}
 		if err := os.Chtimes(f.fullName, at, mt); err != nil {
 			return err
-- 
2.43.0


From 0f3605e6663eae1b045805751a96fc01bc795fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:29:50 +0000
Subject: [PATCH 19/27] fix: do not agree to messages larger than the server's
 maximum

With a large msize one read request could make the server allocate 2 GiB.
---
 filesystem/filesystem.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/filesystem/filesystem.go b/filesystem/filesystem.go
index 4f7acd6..c5110f8 100644
--- a/filesystem/filesystem.go
+++ b/filesystem/filesystem.go
@@ -69,6 +69,9 @@ func (e *FileServer) Rversion(msize protocol.MaxSize, version string) (protocol.
 	if msize <= protocol.IOHDRSZ {
 		return 0, "", fmt.Errorf("msize %d is too small", msize)
 	}
+	if msize > protocol.MSIZE {
+		msize = protocol.MSIZE
+	}
 	// This starts a new session, in which there are no FIDs yet.
 	e.mu.Lock()
 	defer e.mu.Unlock()
@@ -510,6 +513,7 @@ func NewUFS(opts ...protocol.ListenerOpt) (*protocol.Listener, error) {
 		f.files = make(map[protocol.FID]*file)
 		f.rootPath = *root // for now.
 		f.IOunit = 8192
+		f.msize = protocol.MSIZE
 		// any opts for the ufs layer can be added here too ...
 		var d protocol.NineServer = f
 		if *debug != 0 {
-- 
2.43.0


From 72c911c543d14af629efd6b5244561cf5d093b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:25:29 +0000
Subject: [PATCH 20/27] fix: do not crash when a directory entry vanishes
 during a listing

Readdir skips entries whose file no longer exists and may return none and
no error; the server then panicked, which any client could bring about by
removing files while it read their directory.
---
 filesystem/filesystem.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/filesystem/filesystem.go b/filesystem/filesystem.go
index c5110f8..bac87ec 100644
--- a/filesystem/filesystem.go
+++ b/filesystem/filesystem.go
@@ -456,6 +456,10 @@ func (e *FileServer) Rread(fid protocol.FID, o protocol.Offset, c protocol.Count
 		// What does work is returning one thing so, for now, do that.
 		if b.Len() == 0 {
 			st, err := f.file.Readdir(1)
+			// An entry that was removed in the meantime is skipped.
+			for err == nil && len(st) == 0 {
+				st, err = f.file.Readdir(1)
+			}
 			if err == io.EOF {
 				return b.Bytes(), nil
 			}
-- 
2.43.0


From 20e56940bfe6b67d35f9b1f1a82820d1095406a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:47 +0000
Subject: [PATCH 21/27] fix: report the current QID version when opening a file

The QID was the one of the walk, so that a file changed since then, or
truncated by the open itself, was reported with its old version.
---
 filesystem/filesystem.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/filesystem/filesystem.go b/filesystem/filesystem.go
index bac87ec..0440f5e 100644
--- a/filesystem/filesystem.go
+++ b/filesystem/filesystem.go
@@ -221,6 +221,10 @@ func (e *FileServer) Ropen(fid protocol.FID, mode protocol.Mode) (protocol.QID,
 	if err != nil {
 		return protocol.QID{}, 0, err
 	}
+	// The file may have changed since the walk, or by being truncated now.
+	if st, err := f.file.Stat(); err == nil {
+		f.QID.Version = fileInfoToQID(st).Version
+	}
 
 	return f.QID, e.IOunit, nil
 }
-- 
2.43.0


From 81ded30548cb98b959d0382cdbd35274df0da7ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:16 +0000
Subject: [PATCH 22/27] fix: read the client's FID counter atomically when
 tracing

---
 protocol/gen.go    |  3 ++-
 protocol/genout.go | 25 +++++++++++++------------
 2 files changed, 15 insertions(+), 13 deletions(-)

diff --git a/protocol/gen.go b/protocol/gen.go
index 3378777..ee245d3 100644
--- a/protocol/gen.go
+++ b/protocol/gen.go
@@ -43,6 +43,7 @@ import (
 "fmt"
 "io"
 _ "log"
+"sync/atomic"
 )
 `
 )
@@ -176,7 +177,7 @@ func (c *Client)Call{{.T.MFunc}} ({{.T.MParms}}) ({{.R.URet}} err error) {
 var b = bytes.Buffer{}
 if c.Trace != nil {c.Trace("%v", {{.T.MFunc}})}
 t := Tag(0)
-if c.Trace != nil { c.Trace(":tag %v, FID %v", t, c.FID)}
+if c.Trace != nil { c.Trace(":tag %v, FID %v", t, atomic.LoadUint64(&c.FID))}
 Marshal{{.T.MFunc}}Pkt(&b, t, {{.T.MList}})
 bb, err := c.rpc(b.Bytes())
 if err != nil {
diff --git a/protocol/genout.go b/protocol/genout.go
index 82fc825..19fc24b 100644
--- a/protocol/genout.go
+++ b/protocol/genout.go
@@ -5,6 +5,7 @@ import (
 "fmt"
 "io"
 _ "log"
+"sync/atomic"
 )
 func MarshalRerrorPkt (b *bytes.Buffer, t Tag, Error string) {
 var l uint64
@@ -177,7 +178,7 @@ func (c *Client)CallTversion (TMsize MaxSize, TVersion string) (RMsize MaxSize,
 var b = bytes.Buffer{}
 if c.Trace != nil {c.Trace("%v", Tversion)}
 t := Tag(0)
-if c.Trace != nil { c.Trace(":tag %v, FID %v", t, c.FID)}
+if c.Trace != nil { c.Trace(":tag %v, FID %v", t, atomic.LoadUint64(&c.FID))}
 MarshalTversionPkt(&b, t, TMsize, TVersion)
 bb, err := c.rpc(b.Bytes())
 if err != nil {
@@ -363,7 +364,7 @@ func (c *Client)CallTattach (SFID FID, AFID FID, Uname string, Aname string) (QI
 var b = bytes.Buffer{}
 if c.Trace != nil {c.Trace("%v", Tattach)}
 t := Tag(0)
-if c.Trace != nil { c.Trace(":tag %v, FID %v", t, c.FID)}
+if c.Trace != nil { c.Trace(":tag %v, FID %v", t, atomic.LoadUint64(&c.FID))}
 MarshalTattachPkt(&b, t, SFID, AFID, Uname, Aname)
 bb, err := c.rpc(b.Bytes())
 if err != nil {
@@ -466,7 +467,7 @@ func (c *Client)CallTflush (OTag Tag) ( err error) {
 var b = bytes.Buffer{}
 if c.Trace != nil {c.Trace("%v", Tflush)}
 t := Tag(0)
-if c.Trace != nil { c.Trace(":tag %v, FID %v", t, c.FID)}
+if c.Trace != nil { c.Trace(":tag %v, FID %v", t, atomic.LoadUint64(&c.FID))}
 MarshalTflushPkt(&b, t, OTag)
 bb, err := c.rpc(b.Bytes())
 if err != nil {
@@ -665,7 +666,7 @@ func (c *Client)CallTwalk (SFID FID, NewFID FID, Paths []string) (QIDs []QID,  e
 var b = bytes.Buffer{}
 if c.Trace != nil {c.Trace("%v", Twalk)}
 t := Tag(0)
-if c.Trace != nil { c.Trace(":tag %v, FID %v", t, c.FID)}
+if c.Trace != nil { c.Trace(":tag %v, FID %v", t, atomic.LoadUint64(&c.FID))}
 MarshalTwalkPkt(&b, t, SFID, NewFID, Paths)
 bb, err := c.rpc(b.Bytes())
 if err != nil {
@@ -828,7 +829,7 @@ func (c *Client)CallTopen (OFID FID, Omode Mode) (OQID QID, IOUnit MaxSize,  err
 var b = bytes.Buffer{}
 if c.Trace != nil {c.Trace("%v", Topen)}
 t := Tag(0)
-if c.Trace != nil { c.Trace(":tag %v, FID %v", t, c.FID)}
+if c.Trace != nil { c.Trace(":tag %v, FID %v", t, atomic.LoadUint64(&c.FID))}
 MarshalTopenPkt(&b, t, OFID, Omode)
 bb, err := c.rpc(b.Bytes())
 if err != nil {
@@ -1018,7 +1019,7 @@ func (c *Client)CallTcreate (OFID FID, Name string, CreatePerm Perm, Omode Mode)
 var b = bytes.Buffer{}
 if c.Trace != nil {c.Trace("%v", Tcreate)}
 t := Tag(0)
-if c.Trace != nil { c.Trace(":tag %v, FID %v", t, c.FID)}
+if c.Trace != nil { c.Trace(":tag %v, FID %v", t, atomic.LoadUint64(&c.FID))}
 MarshalTcreatePkt(&b, t, OFID, Name, CreatePerm, Omode)
 bb, err := c.rpc(b.Bytes())
 if err != nil {
@@ -1140,7 +1141,7 @@ func (c *Client)CallTstat (OFID FID) (B []byte,  err error) {
 var b = bytes.Buffer{}
 if c.Trace != nil {c.Trace("%v", Tstat)}
 t := Tag(0)
-if c.Trace != nil { c.Trace(":tag %v, FID %v", t, c.FID)}
+if c.Trace != nil { c.Trace(":tag %v, FID %v", t, atomic.LoadUint64(&c.FID))}
 MarshalTstatPkt(&b, t, OFID)
 bb, err := c.rpc(b.Bytes())
 if err != nil {
@@ -1262,7 +1263,7 @@ func (c *Client)CallTwstat (OFID FID, B []byte) ( err error) {
 var b = bytes.Buffer{}
 if c.Trace != nil {c.Trace("%v", Twstat)}
 t := Tag(0)
-if c.Trace != nil { c.Trace(":tag %v, FID %v", t, c.FID)}
+if c.Trace != nil { c.Trace(":tag %v, FID %v", t, atomic.LoadUint64(&c.FID))}
 MarshalTwstatPkt(&b, t, OFID, B)
 bb, err := c.rpc(b.Bytes())
 if err != nil {
@@ -1369,7 +1370,7 @@ func (c *Client)CallTclunk (OFID FID) ( err error) {
 var b = bytes.Buffer{}
 if c.Trace != nil {c.Trace("%v", Tclunk)}
 t := Tag(0)
-if c.Trace != nil { c.Trace(":tag %v, FID %v", t, c.FID)}
+if c.Trace != nil { c.Trace(":tag %v, FID %v", t, atomic.LoadUint64(&c.FID))}
 MarshalTclunkPkt(&b, t, OFID)
 bb, err := c.rpc(b.Bytes())
 if err != nil {
@@ -1476,7 +1477,7 @@ func (c *Client)CallTremove (OFID FID) ( err error) {
 var b = bytes.Buffer{}
 if c.Trace != nil {c.Trace("%v", Tremove)}
 t := Tag(0)
-if c.Trace != nil { c.Trace(":tag %v, FID %v", t, c.FID)}
+if c.Trace != nil { c.Trace(":tag %v, FID %v", t, atomic.LoadUint64(&c.FID))}
 MarshalTremovePkt(&b, t, OFID)
 bb, err := c.rpc(b.Bytes())
 if err != nil {
@@ -1634,7 +1635,7 @@ func (c *Client)CallTread (OFID FID, Off Offset, Len Count) (Data []uint8,  err
 var b = bytes.Buffer{}
 if c.Trace != nil {c.Trace("%v", Tread)}
 t := Tag(0)
-if c.Trace != nil { c.Trace(":tag %v, FID %v", t, c.FID)}
+if c.Trace != nil { c.Trace(":tag %v, FID %v", t, atomic.LoadUint64(&c.FID))}
 MarshalTreadPkt(&b, t, OFID, Off, Len)
 bb, err := c.rpc(b.Bytes())
 if err != nil {
@@ -1792,7 +1793,7 @@ func (c *Client)CallTwrite (OFID FID, Off Offset, Data []uint8) (RLen Count,  er
 var b = bytes.Buffer{}
 if c.Trace != nil {c.Trace("%v", Twrite)}
 t := Tag(0)
-if c.Trace != nil { c.Trace(":tag %v, FID %v", t, c.FID)}
+if c.Trace != nil { c.Trace(":tag %v, FID %v", t, atomic.LoadUint64(&c.FID))}
 MarshalTwritePkt(&b, t, OFID, Off, Data)
 bb, err := c.rpc(b.Bytes())
 if err != nil {
-- 
2.43.0


From 86c3b1178aed11c9df644a33d5d879c1f4979fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:16 +0000
Subject: [PATCH 23/27] fix: take the QID of a created file from the open file

Between the open and a look-up by name someone else may remove or rename
the file. The create then failed although it had happened, and the file
stayed open.
---
 filesystem/filesystem.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/filesystem/filesystem.go b/filesystem/filesystem.go
index 0440f5e..3ac4ac2 100644
--- a/filesystem/filesystem.go
+++ b/filesystem/filesystem.go
@@ -260,10 +260,13 @@ func (e *FileServer) Rcreate(fid protocol.FID, name string, perm protocol.Perm,
 	if err != nil {
 		return protocol.QID{}, 0, err
 	}
-	_, q, err := stat(n)
+	// Not by name: someone else may have removed or renamed it by now.
+	st, err := of.Stat()
 	if err != nil {
+		of.Close()
 		return protocol.QID{}, 0, err
 	}
+	q := fileInfoToQID(st)
 	f.fullName = n
 	f.QID = q
 	f.file = of
-- 
2.43.0


From 81ab336b9d883cc854de0605e7d36a8e5e81b0a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:01 +0000
Subject: [PATCH 24/27] fix: let the file system compile for Windows

The type of a file was renamed, but not here.
---
 filesystem/filesystem_windows.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/filesystem/filesystem_windows.go b/filesystem/filesystem_windows.go
index 7a5ef70..70cc388 100644
--- a/filesystem/filesystem_windows.go
+++ b/filesystem/filesystem_windows.go
@@ -13,13 +13,13 @@ import "os"
 // resetDir closes the underlying file and reopens it so it can be read again.
 // This is because Windows doesn't seem to support calling Seek on a directory
 // handle.
-func resetDir(f *File) error {
+func resetDir(f *file) error {
 	f2, err := os.OpenFile(f.fullName, os.O_RDONLY, 0)
 	if err != nil {
 		return err
 	}
 
-	f.File.Close()
-	f.File = f2
+	f.file.Close()
+	f.file = f2
 	return nil
 }
-- 
2.43.0


From b481df5b287b50d37137c8c04107644736d04172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:02 +0000
Subject: [PATCH 25/27] fix: report no I/O unit that does not fit into a
 message

---
 filesystem/filesystem.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/filesystem/filesystem.go b/filesystem/filesystem.go
index 3ac4ac2..9f44f68 100644
--- a/filesystem/filesystem.go
+++ b/filesystem/filesystem.go
@@ -62,6 +62,15 @@ func stat(s string) (*protocol.Dir, protocol.QID, error) {
 	return d, q, nil
 }
 
+// iounit limits an I/O unit to what fits into a message, which is what the
+// client takes it to be.
+func (e *FileServer) iounit(n protocol.MaxSize) protocol.MaxSize {
+	if m := e.msize - protocol.IOHDRSZ; n > m {
+		return m
+	}
+	return n
+}
+
 func (e *FileServer) Rversion(msize protocol.MaxSize, version string) (protocol.MaxSize, string, error) {
 	if version != "9P2000" {
 		return 0, "", fmt.Errorf("%v not supported; only 9P2000", version)
@@ -226,7 +235,7 @@ func (e *FileServer) Ropen(fid protocol.FID, mode protocol.Mode) (protocol.QID,
 		f.QID.Version = fileInfoToQID(st).Version
 	}
 
-	return f.QID, e.IOunit, nil
+	return f.QID, e.iounit(e.IOunit), nil
 }
 func (e *FileServer) Rcreate(fid protocol.FID, name string, perm protocol.Perm, mode protocol.Mode) (protocol.QID, protocol.MaxSize, error) {
 	f, err := e.getFile(fid)
@@ -251,7 +260,7 @@ func (e *FileServer) Rcreate(fid protocol.FID, name string, perm protocol.Perm,
 		}
 		f.fullName = n
 		f.QID = q
-		return q, 8000, err
+		return q, e.iounit(8000), err
 	}
 
 	m := modeToUnixFlags(mode) | os.O_CREATE | os.O_TRUNC
@@ -270,7 +279,7 @@ func (e *FileServer) Rcreate(fid protocol.FID, name string, perm protocol.Perm,
 	f.fullName = n
 	f.QID = q
 	f.file = of
-	return q, 8000, err
+	return q, e.iounit(8000), err
 }
 func (e *FileServer) Rclunk(fid protocol.FID) error {
 	_, err := e.clunk(fid)
-- 
2.43.0


From 622609d835dd6195987e84dc5ccef2bdd413c2df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:41 +0000
Subject: [PATCH 26/27] fix: keep the client's FID counter aligned on 32-bit
 systems

---
 protocol/client.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/protocol/client.go b/protocol/client.go
index 0e0638a..66a4c58 100644
--- a/protocol/client.go
+++ b/protocol/client.go
@@ -25,8 +25,10 @@ import (
 // Once a client is marked Dead all further requests to it will fail.
 // The ToNet/FromNet are separate so we can use io.Pipe for testing.
 type Client struct {
-	Tags       chan Tag
+	// FID comes first: it is accessed atomically, for which a 64-bit word
+	// has to be aligned, and on 32-bit systems only the first one is.
 	FID        uint64
+	Tags       chan Tag
 	RPC        []*RPCCall
 	ToNet      io.WriteCloser
 	FromNet    io.ReadCloser
-- 
2.43.0


From 217e8d0ac44701c510a1ddab4fcee21361fd51f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:45 +0000
Subject: [PATCH 27/27] fix: close both streams of a client that is dead, and
 have it be dead without one

---
 protocol/client.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/protocol/client.go b/protocol/client.go
index 66a4c58..c791391 100644
--- a/protocol/client.go
+++ b/protocol/client.go
@@ -91,6 +91,10 @@ func (c *Client) GetFID() FID {
 // when there can be no more of them.
 func (c *Client) readNetPackets() {
 	defer close(c.FromServer)
+	if c.ToNet != nil {
+		// This also ends a write that the server does not read.
+		defer c.ToNet.Close()
+	}
 	if c.FromNet == nil {
 		if c.Trace != nil {
 			c.Trace("c.FromNet is nil, marking dead")
@@ -98,6 +102,12 @@ func (c *Client) readNetPackets() {
 		return
 	}
 	defer c.FromNet.Close()
+	if c.ToNet == nil {
+		if c.Trace != nil {
+			c.Trace("c.ToNet is nil, marking dead")
+		}
+		return
+	}
 	if c.Trace != nil {
 		c.Trace("Starting readNetPackets")
 	}
-- 
2.43.0

