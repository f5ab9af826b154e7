From 376cf5a4907a81fb41c35181a21d4a3cafd8d49f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:59 +0000
Subject: [PATCH 001/170] fix: recognise gimbal lock at float32 precision when
 converting rotations to Euler angles

---
 geom/euler.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geom/euler.go b/geom/euler.go
index e613db3..38ca6b7 100644
--- a/geom/euler.go
+++ b/geom/euler.go
@@ -25,7 +25,7 @@ func NewEulerFromQuaternion(q *Quaternion, order RotationOrder) *EulerAngles {
 }
 
 func NewEulerFromMatrix4(mat *Matrix4, order RotationOrder) *EulerAngles {
-	const eps = 0.00000001
+	const eps = 0.000001
 	m11, m21, m31 := float64(mat[0]), float64(mat[1]), float64(mat[2])
 	m12, m22, m32 := float64(mat[4]), float64(mat[5]), float64(mat[6])
 	m13, m23, m33 := float64(mat[8]), float64(mat[9]), float64(mat[10])
-- 
2.43.0


From 3fd7e085cbd92ad32aa2181a9d50b730b6ec5773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:42 +0000
Subject: [PATCH 002/170] fix: use the polygon's area normal when triangulating
 concave polygons

---
 geom/utils.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/geom/utils.go b/geom/utils.go
index 5d54cde..bee8956 100644
--- a/geom/utils.go
+++ b/geom/utils.go
@@ -38,8 +38,7 @@ func Triangulate(poly []*Vector3) [][3]int {
 		ii[i] = i
 		v0 := poly[(i+len(poly)-1)%len(poly)]
 		v1 := poly[i]
-		v2 := poly[(i+1)%len(poly)]
-		n = n.Add(v0.Sub(v1).Cross(v2.Sub(v1)))
+		n = n.Add(v1.Sub(poly[0]).Cross(v0.Sub(poly[0])))
 	}
 	n = n.Normalize()
 
-- 
2.43.0


From d1de0e34669aa4ec61fe4aa097ad615de7413a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:10 +0000
Subject: [PATCH 003/170] fix: do not cut an ear whose diagonal passes through
 another corner

---
 geom/utils.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/geom/utils.go b/geom/utils.go
index bee8956..5a849ee 100644
--- a/geom/utils.go
+++ b/geom/utils.go
@@ -27,6 +27,13 @@ func IsInTriangle(p, a, b, c *Vector3) bool {
 	return c1.Dot(c2) > 0 && c2.Dot(c3) > 0 && c3.Dot(c1) > 0
 }
 
+// isOnSegment returns true if p is between a and b.
+func isOnSegment(p, a, b *Vector3) bool {
+	const eps = 0.00001
+	pa, pb, l := a.Sub(p), b.Sub(p), a.Sub(b).LenSqr()*eps
+	return pa.Dot(pb) < 0 && pa.Cross(pb).LenSqr() <= l*l
+}
+
 func Triangulate(poly []*Vector3) [][3]int {
 	var dst [][3]int
 	if len(poly) < 3 {
@@ -53,13 +60,14 @@ func Triangulate(poly []*Vector3) [][3]int {
 			v0 := poly[i0]
 			v1 := poly[i1]
 			v2 := poly[i2]
-			if v0.Sub(v1).Cross(v2.Sub(v1)).Dot(n) >= 0 {
+			area := v0.Sub(v1).Cross(v2.Sub(v1)).Dot(n)
+			if area >= 0 {
 				ok := true
 				var tmp []int
 				tmp = append(tmp, ii[:i]...)
 				tmp = append(tmp, ii[i+1:]...)
 				for _, i := range tmp {
-					if IsInTriangle(poly[i], v0, v1, v2) {
+					if IsInTriangle(poly[i], v0, v1, v2) || area > 0 && isOnSegment(poly[i], v0, v2) {
 						ok = false
 						break
 					}
-- 
2.43.0


From ec35c4cec6a11803f0b8c86c0858766301b868a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:24 +0000
Subject: [PATCH 004/170] fix: write PMX joint bodies with the rigid body index
 size

---
 mmd/pmx_writer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mmd/pmx_writer.go b/mmd/pmx_writer.go
index e7de800..ce88a15 100644
--- a/mmd/pmx_writer.go
+++ b/mmd/pmx_writer.go
@@ -368,8 +368,8 @@ func (w *PMXWriter) writeJoint(j *Joint) {
 	w.writeText(j.NameEn)
 	w.writeUint8(j.Type)
 
-	w.writeIndex(AttrBoneIndexSz, j.Body1)
-	w.writeIndex(AttrBoneIndexSz, j.Body2)
+	w.writeIndex(AttrRBIndexSz, j.Body1)
+	w.writeIndex(AttrRBIndexSz, j.Body2)
 
 	w.write(&j.Position)
 	w.write(&j.Rotation)
-- 
2.43.0


From f8dfa975bf8434f3c5bebfa10878eabdc3c7114b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:24 +0000
Subject: [PATCH 005/170] fix: enlarge PMX index sizes that are too small for
 the model

---
 mmd/pmx_writer.go | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/mmd/pmx_writer.go b/mmd/pmx_writer.go
index ce88a15..dc853bf 100644
--- a/mmd/pmx_writer.go
+++ b/mmd/pmx_writer.go
@@ -77,6 +77,12 @@ type PMXWriter struct {
 
 func (w *PMXWriter) Write(doc *Document) error {
 	// header
+	doc.Header.reserveIndexSize(AttrVertIndexSz, len(doc.Vertexes), 0xff, 0xffff)
+	doc.Header.reserveIndexSize(AttrTexIndexSz, len(doc.Textures), 0x7f, 0x7fff)
+	doc.Header.reserveIndexSize(AttrMatIndexSz, len(doc.Materials), 0x7f, 0x7fff)
+	doc.Header.reserveIndexSize(AttrBoneIndexSz, len(doc.Bones), 0x7f, 0x7fff)
+	doc.Header.reserveIndexSize(AttrMorphIndexSz, len(doc.Morphs), 0x7f, 0x7fff)
+	doc.Header.reserveIndexSize(AttrRBIndexSz, len(doc.Bodies), 0x7f, 0x7fff)
 	w.writeHeader(doc.Header)
 	w.writeText(doc.Name)
 	w.writeText(doc.NameEn)
@@ -163,6 +169,19 @@ func (w *PMXWriter) writeHeader(h *Header) {
 	w.write(&h.Info)
 }
 
+// reserveIndexSize enlarges the index size if it is too small for n elements.
+func (h *Header) reserveIndexSize(attrTyp int, n, max1, max2 int) {
+	var sz byte = 1
+	if n > max2 {
+		sz = 4
+	} else if n > max1 {
+		sz = 2
+	}
+	if h.Info[attrTyp] < sz {
+		h.Info[attrTyp] = sz
+	}
+}
+
 func (w *PMXWriter) writeVertex(v *Vertex) {
 	w.write(&v.Pos)
 	w.write(&v.Normal)
-- 
2.43.0


From 0e3dbc76edd9900c3ff280cdfe4e09f1bd4b1610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:25 +0000
Subject: [PATCH 006/170] fix: report write errors when saving PMX

---
 mmd/mmd.go        |  6 +++++-
 mmd/pmx_writer.go | 34 +++++++++++++++++++---------------
 2 files changed, 24 insertions(+), 16 deletions(-)

diff --git a/mmd/mmd.go b/mmd/mmd.go
index f893a12..d0406b6 100644
--- a/mmd/mmd.go
+++ b/mmd/mmd.go
@@ -244,5 +244,9 @@ func Save(doc *Document, path string) error {
 	if err != nil {
 		return err
 	}
-	return WritePMX(doc, w)
+	err = WritePMX(doc, w)
+	if closeErr := w.Close(); err == nil {
+		err = closeErr
+	}
+	return err
 }
diff --git a/mmd/pmx_writer.go b/mmd/pmx_writer.go
index dc853bf..04cdfa4 100644
--- a/mmd/pmx_writer.go
+++ b/mmd/pmx_writer.go
@@ -7,44 +7,48 @@ import (
 )
 
 type baseWriter struct {
-	w io.Writer
+	w   io.Writer
+	err error
 }
 
 func (p *baseWriter) write(v interface{}) error {
-	return binary.Write(p.w, binary.LittleEndian, v)
+	if p.err == nil {
+		p.err = binary.Write(p.w, binary.LittleEndian, v)
+	}
+	return p.err
 }
 
 func (p *baseWriter) writeUint8(v uint8) {
-	binary.Write(p.w, binary.LittleEndian, &v)
+	p.write(&v)
 }
 
 func (p *baseWriter) writeUint16(v uint16) {
-	binary.Write(p.w, binary.LittleEndian, &v)
+	p.write(&v)
 }
 
 func (p *baseWriter) writeInt(v int) {
 	vv := int32(v)
-	binary.Write(p.w, binary.LittleEndian, &vv)
+	p.write(&vv)
 }
 
 func (p *baseWriter) writeFloat(v float32) {
-	binary.Write(p.w, binary.LittleEndian, &v)
+	p.write(&v)
 }
 
 func (p *baseWriter) writeVUInt(sz byte, vv int) int {
 	if sz == 1 {
 		var v = uint8(vv)
-		binary.Write(p.w, binary.LittleEndian, &v)
+		p.write(&v)
 		return int(v)
 	}
 	if sz == 2 {
 		var v = uint16(vv)
-		binary.Write(p.w, binary.LittleEndian, &v)
+		p.write(&v)
 		return int(v)
 	}
 	if sz == 4 {
 		var v = uint32(vv)
-		binary.Write(p.w, binary.LittleEndian, &v)
+		p.write(&v)
 		return int(v)
 	}
 	return 0
@@ -53,17 +57,17 @@ func (p *baseWriter) writeVUInt(sz byte, vv int) int {
 func (p *baseWriter) writeVInt(sz byte, vv int) int {
 	if sz == 1 {
 		var v = int8(vv)
-		binary.Write(p.w, binary.LittleEndian, &v)
+		p.write(&v)
 		return int(v)
 	}
 	if sz == 2 {
 		var v = int16(vv)
-		binary.Write(p.w, binary.LittleEndian, &v)
+		p.write(&v)
 		return int(v)
 	}
 	if sz == 4 {
 		var v = int32(vv)
-		binary.Write(p.w, binary.LittleEndian, &v)
+		p.write(&v)
 		return int(v)
 	}
 	return 0
@@ -140,12 +144,12 @@ func (w *PMXWriter) Write(doc *Document) error {
 
 	w.writeInt(0)
 
-	return nil
+	return w.err
 }
 
 func (w *PMXWriter) writeText(v string) {
 	w.writeInt(len(v))
-	binary.Write(w.w, binary.LittleEndian, []byte(v))
+	w.write([]byte(v))
 }
 
 func (w *PMXWriter) writeIndex(attrTyp int, v int) {
@@ -405,5 +409,5 @@ func (w *PMXWriter) writeJoint(j *Joint) {
 
 // WritePMX writes .pmx data
 func WritePMX(doc *Document, w io.Writer) error {
-	return (&PMXWriter{baseWriter: baseWriter{w}}).Write(doc)
+	return (&PMXWriter{baseWriter: baseWriter{w: w}}).Write(doc)
 }
-- 
2.43.0


From 5f95356b46dc4eac466977e11ba477ed431059e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:27 +0000
Subject: [PATCH 007/170] fix: report truncated PMX/PMD/VMD data as an error
 instead of exiting or ignoring it

---
 mmd/base_parser.go | 32 +++++++++++++++++++++-----------
 mmd/pmd_parser.go  | 17 ++++++++++++++---
 mmd/pmx_parser.go  | 40 +++++++++++++++++++---------------------
 3 files changed, 54 insertions(+), 35 deletions(-)

diff --git a/mmd/base_parser.go b/mmd/base_parser.go
index f2896a4..93a2d9c 100644
--- a/mmd/base_parser.go
+++ b/mmd/base_parser.go
@@ -11,47 +11,57 @@ type baseParser struct {
 }
 
 func (p *baseParser) read(v interface{}) error {
-	return binary.Read(p.r, binary.LittleEndian, v)
+	if p.err == nil {
+		p.err = binary.Read(p.r, binary.LittleEndian, v)
+	}
+	return p.err
+}
+
+// fail keeps the first error.
+func (p *baseParser) fail(err error) {
+	if p.err == nil {
+		p.err = err
+	}
 }
 
 func (p *baseParser) readUint8() uint8 {
 	var v uint8
-	binary.Read(p.r, binary.LittleEndian, &v)
+	p.read(&v)
 	return v
 }
 
 func (p *baseParser) readUint16() uint16 {
 	var v uint16
-	p.err = binary.Read(p.r, binary.LittleEndian, &v)
+	p.read(&v)
 	return v
 }
 
 func (p *baseParser) readInt() int {
 	var v uint32
-	p.err = binary.Read(p.r, binary.LittleEndian, &v)
+	p.read(&v)
 	return int(v)
 }
 
 func (p *baseParser) readFloat() float32 {
 	var v float32
-	p.err = binary.Read(p.r, binary.LittleEndian, &v)
+	p.read(&v)
 	return v
 }
 
 func (p *baseParser) readVUInt(sz byte) int {
 	if sz == 1 {
 		var v uint8
-		p.err = binary.Read(p.r, binary.LittleEndian, &v)
+		p.read(&v)
 		return int(v)
 	}
 	if sz == 2 {
 		var v uint16
-		p.err = binary.Read(p.r, binary.LittleEndian, &v)
+		p.read(&v)
 		return int(v)
 	}
 	if sz == 4 {
 		var v uint32
-		p.err = binary.Read(p.r, binary.LittleEndian, &v)
+		p.read(&v)
 		return int(v)
 	}
 	return 0
@@ -60,17 +70,17 @@ func (p *baseParser) readVUInt(sz byte) int {
 func (p *baseParser) readVInt(sz byte) int {
 	if sz == 1 {
 		var v int8
-		p.err = binary.Read(p.r, binary.LittleEndian, &v)
+		p.read(&v)
 		return int(v)
 	}
 	if sz == 2 {
 		var v int16
-		p.err = binary.Read(p.r, binary.LittleEndian, &v)
+		p.read(&v)
 		return int(v)
 	}
 	if sz == 4 {
 		var v int32
-		p.err = binary.Read(p.r, binary.LittleEndian, &v)
+		p.read(&v)
 		return int(v)
 	}
 	return 0
diff --git a/mmd/pmd_parser.go b/mmd/pmd_parser.go
index fa31023..cf93eb5 100644
--- a/mmd/pmd_parser.go
+++ b/mmd/pmd_parser.go
@@ -39,8 +39,7 @@ func (p *PMDParser) readHeader() error {
 	if string(h.Format) != "Pmd" {
 		return fmt.Errorf("Unsupported format")
 	}
-	p.read(&h.Version)
-	return nil
+	return p.read(&h.Version)
 }
 
 func (p *PMDParser) readVertex() *Vertex {
@@ -155,7 +154,12 @@ func (p *PMDParser) Parse() (*Document, error) {
 	// IK
 	n = int(p.readUint16())
 	for i := 0; i < n; i++ {
-		b := model.Bones[p.readUint16()]
+		bi := int(p.readUint16())
+		if bi >= len(model.Bones) {
+			p.fail(fmt.Errorf("invalid bone index %v", bi))
+			break
+		}
+		b := model.Bones[bi]
 		b.IK.TargetID = p.readVInt(2)
 		ln := int(p.readUint8())
 		b.IK.Loop = int(p.readUint16())
@@ -173,10 +177,17 @@ func (p *PMDParser) Parse() (*Document, error) {
 		for i := 0; i < n-1; i++ {
 			model.Morphs[i] = p.readMorph()
 			for _, v := range model.Morphs[i].Vertex {
+				if v.Target < 0 || v.Target >= len(base.Vertex) {
+					p.fail(fmt.Errorf("invalid morph vertex index %v", v.Target))
+					break
+				}
 				v.Target = base.Vertex[v.Target].Target
 			}
 		}
 	}
 
+	if p.err != nil {
+		return nil, p.err
+	}
 	return &model, nil
 }
diff --git a/mmd/pmx_parser.go b/mmd/pmx_parser.go
index fad066a..e4912e3 100644
--- a/mmd/pmx_parser.go
+++ b/mmd/pmx_parser.go
@@ -2,7 +2,6 @@ package mmd
 
 import (
 	"bufio"
-	"encoding/binary"
 	"fmt"
 	"io"
 	"log"
@@ -35,11 +34,11 @@ func (p *PMXParser) readText() string {
 
 	if p.header.Info[AttrStringEncoding] == 0 {
 		utf16data := make([]uint16, len/2)
-		binary.Read(p.r, binary.LittleEndian, &utf16data)
+		p.read(&utf16data)
 		return string(utf16.Decode(utf16data))
 	}
 	data := make([]byte, len)
-	binary.Read(p.r, binary.LittleEndian, &data)
+	p.read(&data)
 	return string(data)
 }
 
@@ -57,24 +56,19 @@ func (p *PMXParser) readHeader() error {
 	p.read(&h.Version)
 	h.Info = make([]byte, p.readUint8())
 	p.read(&h.Info)
-	return nil
+	if p.err == nil && len(h.Info) <= AttrRBIndexSz {
+		return fmt.Errorf("Unsupported header")
+	}
+	return p.err
 }
 
 func (p *PMXParser) readVertex() *Vertex {
 	var v Vertex
-	if err := p.read(&v.Pos); err != nil {
-		log.Fatal(err)
-	}
-	if err := p.read(&v.Normal); err != nil {
-		log.Fatal(err)
-	}
-	if err := p.read(&v.UV); err != nil {
-		log.Fatal(err)
-	}
+	p.read(&v.Pos)
+	p.read(&v.Normal)
+	p.read(&v.UV)
 	v.ExtUVs = make([]Vector4, p.header.Info[AttrExtUV])
-	if err := p.read(&v.ExtUVs); err != nil {
-		log.Fatal(err)
-	}
+	p.read(&v.ExtUVs)
 	wehghtType := p.readUint8()
 	if wehghtType == 0 {
 		v.Bones = []int{p.readIndex(AttrBoneIndexSz)}
@@ -103,8 +97,7 @@ func (p *PMXParser) readVertex() *Vertex {
 		v.BoneWeights = weights[:]
 		p.read(weights[2:])
 	} else {
-		log.Println(v)
-		log.Fatal("unknown weight ", wehghtType)
+		p.fail(fmt.Errorf("unknown weight %v", wehghtType))
 	}
 	v.EdgeScale = p.readFloat()
 	return &v
@@ -254,7 +247,7 @@ func (p *PMXParser) readMorph() *Morph {
 			m.Material = append(m.Material, &v)
 			break
 		default:
-			log.Fatal("Unknown morph type ", m.MorphType)
+			p.fail(fmt.Errorf("unknown morph type %v", m.MorphType))
 			break
 		}
 	}
@@ -400,6 +393,9 @@ func (p *PMXParser) Parse() (*Document, error) {
 		pmx.Joints = append(pmx.Joints, p.readJoint())
 	}
 
+	if p.err != nil {
+		return nil, p.err
+	}
 	return &pmx, nil
 }
 
@@ -407,7 +403,7 @@ func (p *PMXParser) Parse() (*Document, error) {
 func Parse(r io.Reader) (*Document, error) {
 	// check format
 	format := make([]byte, 4)
-	if _, err := r.Read(format[:3]); err != nil {
+	if _, err := io.ReadFull(r, format[:3]); err != nil {
 		return nil, err
 	}
 
@@ -416,7 +412,9 @@ func Parse(r io.Reader) (*Document, error) {
 		p.header = &Header{Format: format[:3]}
 		return p.Parse()
 	}
-	r.Read(format[3:])
+	if _, err := io.ReadFull(r, format[3:]); err != nil {
+		return nil, err
+	}
 	p := NewPMXParser(bufio.NewReader(r))
 	p.header = &Header{Format: format}
 	return p.Parse()
-- 
2.43.0


From 397a9620f46d38bc081af9aa587d01946e9e4a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:42 +0000
Subject: [PATCH 008/170] fix: the external parent key of a PMX bone is a 32bit
 integer, not a bone index

---
 mmd/pmx_parser.go | 4 ++--
 mmd/pmx_writer.go | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/mmd/pmx_parser.go b/mmd/pmx_parser.go
index e4912e3..72fba94 100644
--- a/mmd/pmx_parser.go
+++ b/mmd/pmx_parser.go
@@ -174,8 +174,8 @@ func (p *PMXParser) readBone() *Bone {
 	}
 
 	if b.Flags&8192 != 0 {
-		// ??
-		p.readIndex(AttrBoneIndexSz)
+		// key
+		p.readInt()
 	}
 
 	if b.Flags&32 != 0 {
diff --git a/mmd/pmx_writer.go b/mmd/pmx_writer.go
index 04cdfa4..110a08d 100644
--- a/mmd/pmx_writer.go
+++ b/mmd/pmx_writer.go
@@ -306,8 +306,8 @@ func (w *PMXWriter) writeBone(b *Bone) {
 	}
 
 	if b.Flags&8192 != 0 {
-		// ??
-		w.writeIndex(AttrBoneIndexSz, -1)
+		// key
+		w.writeInt(0)
 	}
 
 	if b.Flags&32 != 0 {
-- 
2.43.0


From 3523cffdab168f731dc1a905544ed7be83d60fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:43 +0000
Subject: [PATCH 009/170] fix: skip PMX additional UV morphs instead of
 rejecting the file

---
 mmd/pmx_parser.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mmd/pmx_parser.go b/mmd/pmx_parser.go
index 72fba94..96e5c9a 100644
--- a/mmd/pmx_parser.go
+++ b/mmd/pmx_parser.go
@@ -231,6 +231,11 @@ func (p *PMXParser) readMorph() *Morph {
 			p.read(&v.Value)
 			m.UV = append(m.UV, &v)
 			break
+		case 4, 5, 6, 7:
+			// additional UVs
+			p.readUIndex(AttrVertIndexSz)
+			p.read(&Vector4{})
+			break
 		case 8:
 			var v MorphMaterial
 			v.Target = p.readIndex(AttrMatIndexSz)
-- 
2.43.0


From 051e2b0954a1211c37a166c51a76e7e30e739095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:25 +0000
Subject: [PATCH 010/170] fix: Object.SetRotation uses the rotation order
 GetRotation reads

---
 mqo/mqo.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/mqo/mqo.go b/mqo/mqo.go
index 9ed9d77..3b7e4ae 100644
--- a/mqo/mqo.go
+++ b/mqo/mqo.go
@@ -286,8 +286,7 @@ func NewObject(name string) *Object {
 }
 
 func (o *Object) SetRotation(r *geom.Quaternion) {
-	// RotationOrderYXZ?
-	o.Rotation = geom.NewEulerFromQuaternion(r, geom.RotationOrderZXY).Vector3.Scale(180 / math.Pi)
+	o.Rotation = geom.NewEulerFromQuaternion(r, geom.RotationOrderYXZ).Vector3.Scale(180 / math.Pi)
 }
 
 func (o *Object) GetRotation() *geom.Quaternion {
-- 
2.43.0


From ee5442b1269f1ad0775ea451dfe261a6f1a174f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:26 +0000
Subject: [PATCH 011/170] fix: read the locking flag of MQO objects

---
 mqo/mqo_parser.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mqo/mqo_parser.go b/mqo/mqo_parser.go
index 8ea4f75..5efaca0 100644
--- a/mqo/mqo_parser.go
+++ b/mqo/mqo_parser.go
@@ -253,6 +253,7 @@ func (p *Parser) readObject() *Object {
 		"depth":       func() { o.Depth = p.readInt() },
 		"folding":     func() { o.Folding = p.readInt() > 0 },
 		"visible":     func() { o.Visible = p.readInt() > 0 },
+		"locking":     func() { o.Locked = p.readInt() > 0 },
 		"shading":     func() { o.Shading = p.readInt() },
 		"facet":       func() { o.Facet = p.readFloat() },
 		"patch":       func() { o.Patch = p.readInt() },
-- 
2.43.0


From c5761a91882f6b97f7b485980aadebf086dde10a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:27 +0000
Subject: [PATCH 012/170] fix: write the emission color of MQO materials

---
 mqo/mqo_writer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mqo/mqo_writer.go b/mqo/mqo_writer.go
index 93c93c6..9f17ca9 100644
--- a/mqo/mqo_writer.go
+++ b/mqo/mqo_writer.go
@@ -85,6 +85,9 @@ func (writer *Writer) WriteMQO(mqo *Document, ww io.Writer) error {
 		fmt.Fprintf(w, " col(%.3f %.3f %.3f %.3f) dif(%.3f) amb(%.3f) emi(%.3f) spc(%.3f) power(%.2f)",
 			mat.Color.X, mat.Color.Y, mat.Color.Z, mat.Color.W,
 			mat.Diffuse, mat.Ambient, mat.Emission, mat.Specular, mat.Power)
+		if mat.EmissionColor != nil {
+			fmt.Fprintf(w, " emi_col(%.3f %.3f %.3f)", mat.EmissionColor.X, mat.EmissionColor.Y, mat.EmissionColor.Z)
+		}
 		if mat.Texture != "" {
 			fmt.Fprintf(w, " tex(\"%v\")", strings.Replace(mat.Texture, "\\", "/", -1))
 		}
-- 
2.43.0


From b365be5a89441502a3e051d6f7e67d66b7d0556b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:28 +0000
Subject: [PATCH 013/170] fix: read negative integers in MQO files

---
 mqo/mqo_parser.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/mqo/mqo_parser.go b/mqo/mqo_parser.go
index 5efaca0..5300efd 100644
--- a/mqo/mqo_parser.go
+++ b/mqo/mqo_parser.go
@@ -71,12 +71,17 @@ func (p *Parser) readFloat() float32 {
 
 func (p *Parser) readInt() int {
 	tok := p.s.Scan()
+	sign := 1
+	if p.s.TokenText() == "-" {
+		tok = p.s.Scan()
+		sign = -1
+	}
 	if tok != scanner.Int {
 		log.Printf("  Invalid num  %s\n", p.s.TokenText())
 		return 0
 	}
 	n, _ := strconv.Atoi(p.s.TokenText())
-	return n
+	return n * sign
 }
 
 func (p *Parser) readStr() string {
-- 
2.43.0


From 3dcef225fec0f445e09556b8654c70a640d17778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:30 +0000
Subject: [PATCH 014/170] fix: read back the physics data saved in MQX files

---
 mqo/mqx_parser.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/mqo/mqx_parser.go b/mqo/mqx_parser.go
index 5b39d88..4de88cd 100644
--- a/mqo/mqx_parser.go
+++ b/mqo/mqx_parser.go
@@ -8,8 +8,9 @@ import (
 func ReadMQX(r io.Reader) (*MQXDoc, error) {
 	var data struct {
 		MQXDoc
-		BonePlugin  *BonePlugin
-		MorphPlugin *MorphPlugin
+		BonePlugin    *BonePlugin
+		MorphPlugin   *MorphPlugin
+		PhysicsPlugin *PhysicsPlugin
 	}
 	err := xml.NewDecoder(r).Decode(&data)
 	doc := data.MQXDoc
@@ -19,6 +20,9 @@ func ReadMQX(r io.Reader) (*MQXDoc, error) {
 	if data.MorphPlugin != nil {
 		doc.Plugins = append(doc.Plugins, data.MorphPlugin)
 	}
+	if data.PhysicsPlugin != nil {
+		doc.Plugins = append(doc.Plugins, data.PhysicsPlugin)
+	}
 	for _, p := range doc.Plugins {
 		p.PostDeserialize(nil)
 	}
-- 
2.43.0


From f96e94495fe4a6e838abb48ead3eda291aa1318a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:31 +0000
Subject: [PATCH 015/170] fix: do not list skinned objects again each time a
 document is saved

---
 mqo/bone_plugin.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mqo/bone_plugin.go b/mqo/bone_plugin.go
index 64c6d3e..f16e20e 100644
--- a/mqo/bone_plugin.go
+++ b/mqo/bone_plugin.go
@@ -222,12 +222,16 @@ func (p *BonePlugin) PreSerialize(mqo *Document) {
 		}
 	}
 
+	saved := map[int]bool{}
+	for _, o := range p.Obj {
+		saved[o.ID] = true
+	}
 	for i, o := range mqo.Objects {
 		id := o.UID
 		if id <= 0 {
 			id = i + 1
 		}
-		if objs[id] {
+		if objs[id] && !saved[id] {
 			p.Obj = append(p.Obj, BoneObj{ID: id})
 		}
 	}
-- 
2.43.0


From 0c2092abddacf3fd3f62d0195b457c4e2d54dc36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:32 +0000
Subject: [PATCH 016/170] fix: detect the MQO code page also when the reader
 returns short reads

---
 mqo/mqo_parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mqo/mqo_parser.go b/mqo/mqo_parser.go
index 5300efd..b08f565 100644
--- a/mqo/mqo_parser.go
+++ b/mqo/mqo_parser.go
@@ -335,7 +335,7 @@ func (p *Parser) readObject() *Object {
 
 func (p *Parser) detectCodePage() {
 	buf := make([]byte, 128)
-	n, _ := p.r.Read(buf)
+	n, _ := io.ReadFull(p.r, buf)
 	p.r = io.MultiReader(bytes.NewReader(buf[:n]), p.r)
 	if matched, _ := regexp.Match(`CodePage\s+utf8`, buf[:n]); !matched {
 		p.r = transform.NewReader(p.r, transform.Chain(japanese.ShiftJIS.NewDecoder(), &basckSlashReplacer{}))
-- 
2.43.0


From c162eac6d39465ed232aee876beb287da91f4936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:33 +0000
Subject: [PATCH 017/170] fix: make names unique also when saving to mqoz

---
 mqo/mqo_writer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mqo/mqo_writer.go b/mqo/mqo_writer.go
index 9f17ca9..2ef19a8 100644
--- a/mqo/mqo_writer.go
+++ b/mqo/mqo_writer.go
@@ -270,6 +270,7 @@ func SaveMQOZ(doc *Document, path string) error {
 }
 
 func Save(doc *Document, path string) error {
+	doc.FixNames()
 	if strings.HasSuffix(path, ".mqoz") {
 		return SaveMQOZ(doc, path)
 	}
@@ -278,6 +279,5 @@ func Save(doc *Document, path string) error {
 		return err
 	}
 	defer w.Close()
-	doc.FixNames()
 	return NewWriter(path).WriteMQO(doc, w)
 }
-- 
2.43.0


From 3db37b7387e3a855d39d650502a9920a2eca4180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:34 +0000
Subject: [PATCH 018/170] fix: ignore material morphs whose target does not
 exist

---
 mqo/morph_plugin.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mqo/morph_plugin.go b/mqo/morph_plugin.go
index d601695..dece800 100644
--- a/mqo/morph_plugin.go
+++ b/mqo/morph_plugin.go
@@ -68,7 +68,7 @@ func (p *MorphPlugin) ApplyMaterialMorph(doc *Document, name string, value float
 	for _, m := range doc.Materials {
 		if strings.HasPrefix(m.Name, morphPrefix) {
 			t := matByID[m.Name[len(morphPrefix):]]
-			if m == nil {
+			if t == nil {
 				continue
 			}
 			t.Color = *t.Color.Scale(1 - value).Add(m.Color.Scale(value))
-- 
2.43.0


From 260e5474c3210a4606ba877188f1275cd82132c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:35 +0000
Subject: [PATCH 019/170] fix: keep face normals when cloning an object

---
 mqo/mqo.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/mqo/mqo.go b/mqo/mqo.go
index 3b7e4ae..1808570 100644
--- a/mqo/mqo.go
+++ b/mqo/mqo.go
@@ -313,9 +313,18 @@ func (o *Object) Clone() *Object {
 	}
 	cp.Faces = make([]*Face, len(o.Faces))
 	for i, v := range o.Faces {
-		d := &Face{Material: v.Material, Verts: make([]int, len(v.Verts)), UVs: make([]Vector2, len(v.UVs))}
+		d := &Face{UID: v.UID, Material: v.Material, Verts: make([]int, len(v.Verts)), UVs: make([]Vector2, len(v.UVs))}
 		copy(d.Verts, v.Verts)
 		copy(d.UVs, v.UVs)
+		if v.Normals != nil {
+			d.Normals = make([]*Vector3, len(v.Normals))
+		}
+		for j, n := range v.Normals {
+			if n != nil {
+				nn := *n
+				d.Normals[j] = &nn
+			}
+		}
 		cp.Faces[i] = d
 	}
 	return &cp
-- 
2.43.0


From 8637fa2e58c27a09af550a95cc400d29deff9283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:37 +0000
Subject: [PATCH 020/170] fix: fill in the missing normals of faces that have
 only some

---
 mqo/utils.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/mqo/utils.go b/mqo/utils.go
index 1de0fd7..277f868 100644
--- a/mqo/utils.go
+++ b/mqo/utils.go
@@ -65,14 +65,16 @@ func (obj *Object) GetSmoothNormals() []Vector3 {
 func (obj *Object) FixhNormals() {
 	var normals []Vector3
 	for _, f := range obj.Faces {
-		if len(f.Normals) == len(f.Verts) {
-			continue
-		}
-		if normals == nil {
-			normals = obj.GetSmoothNormals()
+		if len(f.Normals) != len(f.Verts) {
+			f.Normals = make([]*Vector3, len(f.Verts))
 		}
-		f.Normals = make([]*Vector3, len(f.Verts))
 		for i, v := range f.Verts {
+			if f.Normals[i] != nil {
+				continue
+			}
+			if normals == nil {
+				normals = obj.GetSmoothNormals()
+			}
 			f.Normals[i] = &normals[v]
 		}
 	}
-- 
2.43.0


From c3df3e77de35d74ce34644954f684d98bcf7d9c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:27 +0000
Subject: [PATCH 021/170] fix: write color and string shader parameters and
 shader mappings of MQO materials

---
 mqo/mqo_writer.go | 43 ++++++++++++++++++++++++++++++++-----------
 1 file changed, 32 insertions(+), 11 deletions(-)

diff --git a/mqo/mqo_writer.go b/mqo/mqo_writer.go
index 2ef19a8..a8e2ec8 100644
--- a/mqo/mqo_writer.go
+++ b/mqo/mqo_writer.go
@@ -32,6 +32,26 @@ func boolToInt(b bool) int {
 	return 0
 }
 
+func writeShaderParams(w io.Writer, params map[string]interface{}) {
+	for name, v := range params {
+		typ := "int"
+		switch vv := v.(type) {
+		case bool:
+			typ = "bool"
+			v = boolToInt(vv)
+		case float32, float64:
+			typ = "float"
+		case []float32:
+			typ = "color"
+			v = strings.Trim(fmt.Sprint(vv), "[]")
+		case string:
+			typ = "string"
+			v = "\"" + vv + "\""
+		}
+		fmt.Fprintf(w, "\t\t\t%v %v %v\n", name, typ, v)
+	}
+}
+
 func (writer *Writer) WriteMQO(mqo *Document, ww io.Writer) error {
 	w := bufio.NewWriter(ww)
 	w.WriteString("Metasequoia Document\n")
@@ -116,19 +136,20 @@ func (writer *Writer) WriteMQO(mqo *Document, ww io.Writer) error {
 			fmt.Fprintf(w, "\t\tshadertype \"%v\"\n", mat.Ex2.ShaderType)
 			fmt.Fprintf(w, "\t\tshadername \"%v\"\n", mat.Ex2.ShaderName)
 			fmt.Fprintf(w, "\t\tshaderparam %v {\n", len(mat.Ex2.ShaderParams))
-			for name, v := range mat.Ex2.ShaderParams {
-				typ := "int"
-				if b, ok := v.(bool); ok {
-					typ = "bool"
-					v = boolToInt(b)
-				} else if _, ok := v.(float64); ok {
-					typ = "float"
-				} else if _, ok := v.(float32); ok {
-					typ = "float"
+			writeShaderParams(w, mat.Ex2.ShaderParams)
+			w.WriteString("\t\t}\n")
+			if len(mat.Ex2.ShaderMapping) > 0 {
+				fmt.Fprintf(w, "\t\tshadermapping %v {\n", len(mat.Ex2.ShaderMapping))
+				for name, path := range mat.Ex2.ShaderMapping {
+					fmt.Fprintf(w, "\t\t\t\"%v\" \"%v\"\n", name, strings.Replace(path, "\\", "/", -1))
 				}
-				fmt.Fprintf(w, "\t\t\t%v %v %v\n", name, typ, v)
+				w.WriteString("\t\t}\n")
+			}
+			for name, params := range mat.Ex2.ShaderMappingParams {
+				fmt.Fprintf(w, "\t\tshadermappingparam \"%v\" %v {\n", name, len(params))
+				writeShaderParams(w, params)
+				w.WriteString("\t\t}\n")
 			}
-			w.WriteString("\t\t}\n")
 			w.WriteString("\t}\n")
 		}
 		w.WriteString("}\n")
-- 
2.43.0


From da8fe44e7f327cb33fabdb8ba987e0488c166da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:29 +0000
Subject: [PATCH 022/170] fix: report write errors when saving MQO and MQX

---
 mqo/mqo_writer.go | 33 ++++++++++++++++++++++++++-------
 mqo/mqx_writer.go | 13 +++++++++----
 2 files changed, 35 insertions(+), 11 deletions(-)

diff --git a/mqo/mqo_writer.go b/mqo/mqo_writer.go
index a8e2ec8..311a0a1 100644
--- a/mqo/mqo_writer.go
+++ b/mqo/mqo_writer.go
@@ -256,12 +256,20 @@ func (writer *Writer) WriteMQO(mqo *Document, ww io.Writer) error {
 	}
 
 	w.WriteString("Eof\n")
-	w.Flush()
+	if err := w.Flush(); err != nil {
+		return err
+	}
 
 	if mqxFile != "" && writer.Create != nil {
-		w, _ := writer.Create(mqxFile)
-		defer w.Close()
-		WriteMQX(mqo, w, filepath.Base(writer.path))
+		w, err := writer.Create(mqxFile)
+		if err != nil {
+			return err
+		}
+		if err := WriteMQX(mqo, w, filepath.Base(writer.path)); err != nil {
+			w.Close()
+			return err
+		}
+		return w.Close()
 	}
 
 	return nil
@@ -276,9 +284,11 @@ func SaveMQOZ(doc *Document, path string) error {
 	}
 	defer w.Close()
 	zw := zip.NewWriter(w)
-	defer zw.Close()
 
 	mqow, err := zw.Create(name + ".mqo")
+	if err != nil {
+		return err
+	}
 	writer := NewWriter(path)
 	writer.Create = func(name string) (io.WriteCloser, error) {
 		w, err := zw.Create(name)
@@ -287,7 +297,13 @@ func SaveMQOZ(doc *Document, path string) error {
 			io.Closer
 		}{w, io.NopCloser(nil)}, err
 	}
-	return writer.WriteMQO(doc, mqow)
+	if err := writer.WriteMQO(doc, mqow); err != nil {
+		return err
+	}
+	if err := zw.Close(); err != nil {
+		return err
+	}
+	return w.Close()
 }
 
 func Save(doc *Document, path string) error {
@@ -300,5 +316,8 @@ func Save(doc *Document, path string) error {
 		return err
 	}
 	defer w.Close()
-	return NewWriter(path).WriteMQO(doc, w)
+	if err := NewWriter(path).WriteMQO(doc, w); err != nil {
+		return err
+	}
+	return w.Close()
 }
diff --git a/mqo/mqx_writer.go b/mqo/mqx_writer.go
index 2ef14ed..4de21e6 100644
--- a/mqo/mqx_writer.go
+++ b/mqo/mqx_writer.go
@@ -18,8 +18,13 @@ func WriteMQX(mqo *Document, w io.Writer, mqoName string) error {
 		p.PreSerialize(mqo)
 	}
 
-	xmlBuf, _ := xml.MarshalIndent(mqx, "", "    ")
-	w.Write([]byte(xml.Header))
-	w.Write(xmlBuf)
-	return nil
+	xmlBuf, err := xml.MarshalIndent(mqx, "", "    ")
+	if err != nil {
+		return err
+	}
+	if _, err := w.Write([]byte(xml.Header)); err != nil {
+		return err
+	}
+	_, err = w.Write(xmlBuf)
+	return err
 }
-- 
2.43.0


From 797ac1770cd5b84846add45e7de6b449a4d5400c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:31 +0000
Subject: [PATCH 023/170] fix: accept back slashes in UTF-8 MQO files

---
 mqo/mqo_parser.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mqo/mqo_parser.go b/mqo/mqo_parser.go
index b08f565..75c1a4e 100644
--- a/mqo/mqo_parser.go
+++ b/mqo/mqo_parser.go
@@ -339,6 +339,8 @@ func (p *Parser) detectCodePage() {
 	p.r = io.MultiReader(bytes.NewReader(buf[:n]), p.r)
 	if matched, _ := regexp.Match(`CodePage\s+utf8`, buf[:n]); !matched {
 		p.r = transform.NewReader(p.r, transform.Chain(japanese.ShiftJIS.NewDecoder(), &basckSlashReplacer{}))
+	} else {
+		p.r = transform.NewReader(p.r, &basckSlashReplacer{})
 	}
 }
 
-- 
2.43.0


From 6bdb91c6982062f30151df6b13d0dd0a047d1b97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:33 +0000
Subject: [PATCH 024/170] fix: report MQO files that end inside a block

---
 mqo/mqo_parser.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/mqo/mqo_parser.go b/mqo/mqo_parser.go
index 75c1a4e..d32b4e0 100644
--- a/mqo/mqo_parser.go
+++ b/mqo/mqo_parser.go
@@ -101,7 +101,9 @@ func (p *Parser) skipN(n int) {
 }
 
 func (p *Parser) skip(t string) {
-	p.s.Scan()
+	if p.s.Scan() == scanner.EOF {
+		p.s.ErrorCount++
+	}
 	if p.s.TokenText() != t {
 		log.Printf("  Invalid token  %s != %s\n", p.s.TokenText(), t)
 	}
@@ -156,7 +158,11 @@ func (p *Parser) procArray(init, elem func(n int), name string) {
 
 func (p *Parser) procObj(handlers map[string]func(), name string) {
 	p.skip("{")
-	for tok := p.s.Scan(); tok != scanner.EOF; tok = p.s.Scan() {
+	for tok := p.s.Scan(); ; tok = p.s.Scan() {
+		if tok == scanner.EOF {
+			p.s.ErrorCount++
+			break
+		}
 		if p.s.TokenText() == "}" {
 			break
 		}
-- 
2.43.0


From 4578561f5e7386264f43892ce03ccf9cb3a35b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:00 +0000
Subject: [PATCH 025/170] fix: do not give an object an id that another object
 already has

---
 mqo/mqo.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/mqo/mqo.go b/mqo/mqo.go
index 1808570..d63565c 100644
--- a/mqo/mqo.go
+++ b/mqo/mqo.go
@@ -29,9 +29,17 @@ func (doc *Document) GetPlugins() []Plugin {
 }
 
 func (doc *Document) FixObjectID() {
+	used := map[int]bool{}
+	for _, obj := range doc.Objects {
+		used[obj.UID] = true
+	}
 	for i, obj := range doc.Objects {
 		if obj.UID == 0 {
-			obj.UID = i + 1 // TODO: unique id
+			obj.UID = i + 1
+			for used[obj.UID] {
+				obj.UID++
+			}
+			used[obj.UID] = true
 		}
 	}
 }
-- 
2.43.0


From 2428b644d540969ced63f0a6d2295dc17889b5f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:14 +0000
Subject: [PATCH 026/170] fix: world transforms of MQO objects follow the
 object hierarchy

---
 mqo/mqo.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mqo/mqo.go b/mqo/mqo.go
index d63565c..32d7a1c 100644
--- a/mqo/mqo.go
+++ b/mqo/mqo.go
@@ -59,7 +59,7 @@ func (doc *Document) GetWorldTransforms() map[*Object]*Matrix4 {
 	dt := []*Matrix4{geom.NewMatrix4()}
 
 	for _, o := range doc.Objects {
-		for len(dd) > 1 && dd[len(dd)-1] <= o.Depth {
+		for len(dd) > 1 && dd[len(dd)-1] >= o.Depth {
 			dd = dd[:len(dd)-1]
 			dt = dt[:len(dt)-1]
 		}
-- 
2.43.0


From a9fef35fec21002e1c8639b4cb8240cf4e477e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:14:46 +0000
Subject: [PATCH 027/170] fix: count skipped bytes once when reading binary FBX
 from a stream

---
 fbx/binary_parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fbx/binary_parser.go b/fbx/binary_parser.go
index 74774d1..58dab1a 100644
--- a/fbx/binary_parser.go
+++ b/fbx/binary_parser.go
@@ -26,8 +26,8 @@ func (r *positionReader) SkipTo(pos int64) error {
 	if offset < 0 {
 		return fmt.Errorf("cannot rewind")
 	}
-	r.position = pos
 	if s, ok := r.r.(io.Seeker); ok {
+		r.position = pos
 		_, err := s.Seek(pos, 0)
 		return err
 	}
-- 
2.43.0


From acdc5e36c5a5dd49fdaa07836b07e1d70306f86f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:14:48 +0000
Subject: [PATCH 028/170] fix: do not read the footer of binary FBX files as
 nodes

---
 fbx/binary_parser.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/fbx/binary_parser.go b/fbx/binary_parser.go
index 58dab1a..9500062 100644
--- a/fbx/binary_parser.go
+++ b/fbx/binary_parser.go
@@ -39,6 +39,7 @@ type binaryParser struct {
 	r       *positionReader
 	version uint32
 	err     error
+	end     bool // end marker of the top level node list
 }
 
 func (p *binaryParser) read(v interface{}) interface{} {
@@ -204,6 +205,7 @@ func (p *binaryParser) readNode() *Node {
 	}
 
 	if next == 0 {
+		p.end = true
 		return nil
 	}
 
@@ -249,7 +251,11 @@ func (p *binaryParser) Parse() (*Node, error) {
 	root := &Node{Name: "_FBX_ROOT"}
 
 	for p.err == nil {
+		p.end = false
 		node := p.readNode()
+		if node == nil && p.end {
+			break // the rest is the footer
+		}
 		if node != nil {
 			root.AddChild(node)
 		}
-- 
2.43.0


From 6dda5fd76a60c811b4ca6148f82c298e822e3476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:15:30 +0000
Subject: [PATCH 029/170] fix: report truncated binary FBX files

---
 fbx/binary_parser.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/fbx/binary_parser.go b/fbx/binary_parser.go
index 9500062..4520ea2 100644
--- a/fbx/binary_parser.go
+++ b/fbx/binary_parser.go
@@ -260,7 +260,10 @@ func (p *binaryParser) Parse() (*Node, error) {
 			root.AddChild(node)
 		}
 	}
-	if p.err != nil && p.err != io.EOF {
+	if p.err == io.EOF {
+		p.err = io.ErrUnexpectedEOF
+	}
+	if p.err != nil {
 		return nil, p.err
 	}
 	return root, nil
-- 
2.43.0


From 7f2dbc442638869dba3aac4a95e82f7343cd0fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:15:31 +0000
Subject: [PATCH 030/170] fix: read numbers with an exponent in ASCII FBX files

---
 fbx/text_parser.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/fbx/text_parser.go b/fbx/text_parser.go
index 375ee9e..9e6b7a6 100644
--- a/fbx/text_parser.go
+++ b/fbx/text_parser.go
@@ -72,7 +72,7 @@ func (p *textParser) getToken() (tokenType, string) {
 		} else if c >= '0' && c <= '9' || c == '.' || c == '-' {
 			buf := []byte{c}
 			c = p.read()
-			for (c >= '0' && c <= '9' || c == '.' || c == 'e' || c == '-') && p.err == nil {
+			for (c >= '0' && c <= '9' || c == '.' || c == 'e' || c == 'E' || c == '-' || c == '+') && p.err == nil {
 				buf = append(buf, c)
 				c = p.read()
 			}
@@ -136,7 +136,7 @@ func (p *textParser) parseArrayProp() *Attribute {
 		} else if typ == Number {
 			v, _ := strconv.ParseFloat(s, 64)
 			dvalues = append(dvalues, v)
-			hasPoint = hasPoint || strings.Contains(s, ".")
+			hasPoint = hasPoint || strings.ContainsAny(s, ".eE")
 		} else {
 			p.errorf("Invalid token: %v", s)
 			break
@@ -179,7 +179,7 @@ func (p *textParser) parseNodeList() []*Node {
 					node.Children = p.parseNodeList()
 					break
 				} else if typ == Number {
-					if strings.Contains(s, ".") {
+					if strings.ContainsAny(s, ".eE") {
 						v, err := strconv.ParseFloat(s, 64)
 						if err != nil {
 							p.errorf("failed to parse float: '%v'", s)
-- 
2.43.0


From 04dc749c636ec960939b6c5fc9a248bb18e8d358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:15:33 +0000
Subject: [PATCH 031/170] fix: read empty arrays in ASCII FBX files

---
 fbx/text_parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fbx/text_parser.go b/fbx/text_parser.go
index 9e6b7a6..aaf1340 100644
--- a/fbx/text_parser.go
+++ b/fbx/text_parser.go
@@ -127,7 +127,7 @@ func (p *textParser) parseArrayProp() *Attribute {
 	}
 	var dvalues []float64
 	var hasPoint bool
-	for i := 0; i < int(size) && p.err == nil; {
+	for p.err == nil {
 		typ, s := p.getToken()
 		if typ == EOL || typ == Comma {
 			continue
-- 
2.43.0


From 8852f9c09a3d35723bbc333a8d64ddf7dd5aff52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:15:34 +0000
Subject: [PATCH 032/170] fix: keep 64bit integers in arrays of ASCII FBX files

---
 fbx/text_parser.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/fbx/text_parser.go b/fbx/text_parser.go
index aaf1340..b6bd52f 100644
--- a/fbx/text_parser.go
+++ b/fbx/text_parser.go
@@ -126,7 +126,8 @@ func (p *textParser) parseArrayProp() *Attribute {
 		}
 	}
 	var dvalues []float64
-	var hasPoint bool
+	var i64values []int64
+	var hasPoint, hasInt64 bool
 	for p.err == nil {
 		typ, s := p.getToken()
 		if typ == EOL || typ == Comma {
@@ -136,6 +137,9 @@ func (p *textParser) parseArrayProp() *Attribute {
 		} else if typ == Number {
 			v, _ := strconv.ParseFloat(s, 64)
 			dvalues = append(dvalues, v)
+			iv, _ := strconv.ParseInt(s, 10, 64)
+			i64values = append(i64values, iv)
+			hasInt64 = hasInt64 || int64(int32(iv)) != iv
 			hasPoint = hasPoint || strings.ContainsAny(s, ".eE")
 		} else {
 			p.errorf("Invalid token: %v", s)
@@ -146,7 +150,9 @@ func (p *textParser) parseArrayProp() *Attribute {
 		p.errorf("read array:.size: %v != %v", size, len(dvalues))
 	}
 	var values interface{} = dvalues
-	if !hasPoint {
+	if !hasPoint && hasInt64 {
+		values = i64values
+	} else if !hasPoint {
 		var i32values []int32
 		for _, v := range dvalues {
 			i32values = append(i32values, int32(v))
-- 
2.43.0


From f13cec39cd9d155bc4d1b84ad7362e5d2119b39e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:15:36 +0000
Subject: [PATCH 033/170] fix: ASCII FBX files may start with a short comment

---
 fbx/text_parser.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fbx/text_parser.go b/fbx/text_parser.go
index b6bd52f..f2b9d79 100644
--- a/fbx/text_parser.go
+++ b/fbx/text_parser.go
@@ -77,7 +77,7 @@ func (p *textParser) getToken() (tokenType, string) {
 				c = p.read()
 			}
 			if p.err == nil {
-				p.buf = append(p.buf, c)
+				p.buf = append([]byte{c}, p.buf...)
 			}
 			return Number, string(buf)
 		} else if c == '\n' {
@@ -98,7 +98,7 @@ func (p *textParser) getToken() (tokenType, string) {
 				c = p.read()
 			}
 			if p.err == nil {
-				p.buf = append(p.buf, c)
+				p.buf = append([]byte{c}, p.buf...)
 			}
 			return Ident, string(buf)
 		}
-- 
2.43.0


From 1d1a81e8f33481ef8af11f898946b389d61009eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:15:37 +0000
Subject: [PATCH 034/170] fix: find the scene in ASCII FBX 6.1 files

---
 fbx/fbx_document.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fbx/fbx_document.go b/fbx/fbx_document.go
index b65a76b..63baf46 100644
--- a/fbx/fbx_document.go
+++ b/fbx/fbx_document.go
@@ -82,7 +82,7 @@ func BuildDocument(root *Node) (*Document, error) {
 		templates[node.GetString()] = &Obj{Node: node.FindChild("PropertyTemplate")}
 	}
 	doc.GlobalSettings = &Obj{Node: root.FindChild("GlobalSettings"), Template: templates["GlobalSettings"]}
-	objectByName := map[string]Object{"Scene\x00\x01Model": doc.Scene}
+	objectByName := map[string]Object{"Scene\x00\x01Model": doc.Scene, "Model::Scene": doc.Scene}
 	for _, node := range root.FindChild("Objects").GetChildren() {
 		if fbxVersion == 6100 {
 			// TODO: clone
-- 
2.43.0


From 8a343ac8e470d1e1cdb6d4f9d0d690998f1df718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:15:39 +0000
Subject: [PATCH 035/170] fix: find child models by name also in ASCII FBX
 files

---
 fbx/fbx_model.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fbx/fbx_model.go b/fbx/fbx_model.go
index 4c65d49..c147f6a 100644
--- a/fbx/fbx_model.go
+++ b/fbx/fbx_model.go
@@ -91,7 +91,7 @@ func (m *Model) GetChildModels() []*Model {
 func (m *Model) FindChildModel(name string) *Model {
 	for _, o := range m.Refs {
 		if m, ok := o.(*Model); ok {
-			if m.Name() == name+"::Model" {
+			if m.Name() == name+"::Model" || m.Name() == "Model::"+name {
 				return m
 			}
 		}
-- 
2.43.0


From 85b6f0a804cb7155c442159c22330505debe5fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:16:55 +0000
Subject: [PATCH 036/170] fix: empty FBX arrays have no elements

---
 fbx/fbx_node.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/fbx/fbx_node.go b/fbx/fbx_node.go
index 5880884..37bfc1b 100644
--- a/fbx/fbx_node.go
+++ b/fbx/fbx_node.go
@@ -81,7 +81,7 @@ func (n *Node) GetString() string {
 
 func (n *Node) GetInt32Array() []int32 {
 	array := n.Attr(0).ToInt32Array()
-	if array == nil && n.Attr(0) != nil {
+	if array == nil && n.Attr(0) != nil && !n.Attr(0).isArray() {
 		for _, attr := range n.Attributes {
 			array = append(array, int32(attr.ToInt(0)))
 		}
@@ -91,7 +91,7 @@ func (n *Node) GetInt32Array() []int32 {
 
 func (n *Node) GetFloat32Array() []float32 {
 	array := n.Attr(0).ToFloat32Array()
-	if array == nil && n.Attr(0) != nil {
+	if array == nil && n.Attr(0) != nil && !n.Attr(0).isArray() {
 		for _, attr := range n.Attributes {
 			array = append(array, attr.ToFloat32(0))
 		}
@@ -154,6 +154,10 @@ func (p Attribute) Len() uint {
 	return 0
 }
 
+func (p *Attribute) isArray() bool {
+	return reflect.ValueOf(p.Value).Kind() == reflect.Slice
+}
+
 func (p *Attribute) ToInt(defvalue int) int {
 	return int(p.ToInt64(int64(defvalue)))
 }
-- 
2.43.0


From 88c041f2ead5ee43b6d480310980b6b27b5e1be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:16:57 +0000
Subject: [PATCH 037/170] fix: write and read strings in ASCII FBX files
 without escape sequences other than &quot;

---
 fbx/fbx_node.go    | 2 +-
 fbx/text_parser.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/fbx/fbx_node.go b/fbx/fbx_node.go
index 37bfc1b..d0f7b72 100644
--- a/fbx/fbx_node.go
+++ b/fbx/fbx_node.go
@@ -269,7 +269,7 @@ func (p *Attribute) String() string {
 		if len(segments) == 2 {
 			segments[0], segments[1] = segments[1], segments[0]
 		}
-		return fmt.Sprintf("%q", strings.Join(segments, "::"))
+		return "\"" + strings.ReplaceAll(strings.Join(segments, "::"), "\"", "&quot;") + "\""
 	case []byte:
 		return fmt.Sprintf("\"%v\"", v)
 	default:
diff --git a/fbx/text_parser.go b/fbx/text_parser.go
index f2b9d79..2b335ed 100644
--- a/fbx/text_parser.go
+++ b/fbx/text_parser.go
@@ -90,7 +90,7 @@ func (p *textParser) getToken() (tokenType, string) {
 				buf = append(buf, c)
 				c = p.read()
 			}
-			return String, string(buf)
+			return String, strings.ReplaceAll(string(buf), "&quot;", "\"")
 		} else if c >= 'A' && c <= 'z' {
 			buf := []byte{}
 			for (c >= 'A' && c <= 'z' || c >= '0' && c <= '9' || c == '-') && p.err == nil {
-- 
2.43.0


From b00cba083eb4f62f0b191ac0b8df4be4c20b5ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:18:53 +0000
Subject: [PATCH 038/170] fix: write binary FBX attributes as base64 in ASCII
 files

---
 fbx/fbx_node.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/fbx/fbx_node.go b/fbx/fbx_node.go
index d0f7b72..80f5717 100644
--- a/fbx/fbx_node.go
+++ b/fbx/fbx_node.go
@@ -1,6 +1,7 @@
 package fbx
 
 import (
+	"encoding/base64"
 	"fmt"
 	"io"
 	"reflect"
@@ -271,7 +272,7 @@ func (p *Attribute) String() string {
 		}
 		return "\"" + strings.ReplaceAll(strings.Join(segments, "::"), "\"", "&quot;") + "\""
 	case []byte:
-		return fmt.Sprintf("\"%v\"", v)
+		return "\"" + base64.StdEncoding.EncodeToString(v) + "\""
 	default:
 		return fmt.Sprint(v)
 	}
@@ -287,7 +288,7 @@ func (n *Node) Dump(w io.Writer, d int, full bool) {
 			continue
 		}
 		s := p.String()
-		if p.Len() > 0 {
+		if _, isBytes := p.Value.([]byte); p.Len() > 0 && !isBytes {
 			s = fmt.Sprint("*", p.Len(), " ", arrayReplacer.Replace(s))
 		}
 		if i == 0 {
-- 
2.43.0


From 4ab1c97da90baebe72ed28812c89601543882d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:18:55 +0000
Subject: [PATCH 039/170] fix: write empty arrays in ASCII FBX files so that
 they can be read

---
 fbx/fbx_node.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fbx/fbx_node.go b/fbx/fbx_node.go
index 80f5717..522f445 100644
--- a/fbx/fbx_node.go
+++ b/fbx/fbx_node.go
@@ -288,7 +288,7 @@ func (n *Node) Dump(w io.Writer, d int, full bool) {
 			continue
 		}
 		s := p.String()
-		if _, isBytes := p.Value.([]byte); p.Len() > 0 && !isBytes {
+		if _, isBytes := p.Value.([]byte); p.isArray() && !isBytes {
 			s = fmt.Sprint("*", p.Len(), " ", arrayReplacer.Replace(s))
 		}
 		if i == 0 {
-- 
2.43.0


From f4204cbb2d32fd4f16adedf0f61386821410c1dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:18:56 +0000
Subject: [PATCH 040/170] fix: store the values of FBX layer elements

---
 fbx/fbx_geometry.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fbx/fbx_geometry.go b/fbx/fbx_geometry.go
index 9e07936..cc44e59 100644
--- a/fbx/fbx_geometry.go
+++ b/fbx/fbx_geometry.go
@@ -101,6 +101,7 @@ func (g *Geometry) GetShapes() []*GeometryShape {
 
 func (g *Geometry) setLayerElementNode(name string, typeIndex int, values []*Node) {
 	node := NewNode(name, 0)
+	node.Children = values
 	if g.AddOrReplaceChild(node) {
 		layer := g.FindChild("Layer")
 		el := NewNode("LayerElement")
@@ -125,7 +126,7 @@ func (g *Geometry) SetLayerElementUVIndexed(uv []*geom.Vector2, indices []int32,
 	for _, v := range uv {
 		floatArray = append(floatArray, v.X, v.Y)
 	}
-	g.setLayerElementNode("LayerElementNormal", 0, []*Node{
+	g.setLayerElementNode("LayerElementUV", 0, []*Node{
 		NewNode("MappingInformationType", string(mappingType)),
 		NewNode("ReferenceInformationType", "IndexToDirect"),
 		NewNode("UV", floatArray),
-- 
2.43.0


From f36cf8506deab17c987ca3af5ea0fa8fc5859f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:18:58 +0000
Subject: [PATCH 041/170] fix: keep the model tree and the material list up to
 date when building FBX documents

---
 fbx/fbx_document.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/fbx/fbx_document.go b/fbx/fbx_document.go
index 63baf46..66815ac 100644
--- a/fbx/fbx_document.go
+++ b/fbx/fbx_document.go
@@ -149,6 +149,9 @@ func (doc *Document) AddObject(obj Object) int64 {
 		obj.GetNode().Attributes[0].Value = doc.newID()
 	}
 	doc.ObjectByID[obj.ID()] = obj
+	if mat, ok := obj.(*Material); ok {
+		doc.Materials = append(doc.Materials, mat)
+	}
 	objs := doc.RawNode.FindChild("Objects")
 	objs.Children = append(objs.Children, obj.GetNode())
 	return obj.ID()
@@ -156,6 +159,11 @@ func (doc *Document) AddObject(obj Object) int64 {
 
 func (doc *Document) AddConnection(parent, child Object) {
 	parent.AddRef(child)
+	if parentModel, ok := parent.(*Model); ok {
+		if childModel, ok := child.(*Model); ok {
+			childModel.Parent = parentModel
+		}
+	}
 	conns := doc.RawNode.FindChild("Connections")
 	conns.Children = append(conns.Children, NewNode("C", "OO", child.ID(), parent.ID()))
 }
-- 
2.43.0


From 8b92c8d09d7ba1fae431ee320cd910c1b5b24aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:21:46 +0000
Subject: [PATCH 042/170] fix: do not leave the class in names of FBX
 materials, bones and shapes

---
 converter/fbx2mqo.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/converter/fbx2mqo.go b/converter/fbx2mqo.go
index 59add09..3b02f76 100644
--- a/converter/fbx2mqo.go
+++ b/converter/fbx2mqo.go
@@ -87,9 +87,14 @@ func (c *fbxToMqoState) convert() {
 	}
 }
 
+// fbxObjectName strips the class from "name::Class" (binary) or "Class::name" (ASCII).
+func fbxObjectName(name, class string) string {
+	return strings.TrimSuffix(strings.TrimPrefix(name, class+"::"), "::"+class)
+}
+
 func (c *fbxToMqoState) convertMaterial(m *fbx.Material) *mqo.Material {
 	mat := &mqo.Material{}
-	mat.Name = m.Name()
+	mat.Name = fbxObjectName(m.Name(), "Material")
 	col := m.GetColor("DiffuseColor", &geom.Vector3{X: 1, Y: 1, Z: 1})
 	opacity := m.GetFactor("Opacity", 1)
 	mat.Color = geom.Vector4{X: col.X, Y: col.Y, Z: col.Z, W: opacity}
@@ -107,7 +112,7 @@ func (c *fbxToMqoState) convertMaterial(m *fbx.Material) *mqo.Material {
 
 func (c *fbxToMqoState) convertModel(m *fbx.Model, d int, parentTransform *geom.Matrix4) {
 	dst := c.dst
-	obj := mqo.NewObject(strings.TrimSuffix(strings.TrimPrefix(m.Name(), "Model::"), "::Model"))
+	obj := mqo.NewObject(fbxObjectName(m.Name(), "Model"))
 	dst.Objects = append(dst.Objects, obj)
 	obj.UID = len(dst.Objects)
 	obj.Depth = d
@@ -306,7 +311,7 @@ func (c *fbxToMqoState) convertDeformer(sub *fbx.Deformer, objID int) {
 		pos := c.coordMat.Mul(m.GetWorldMatrix()).ApplyTo(&geom.Vector3{})
 		b := &mqo.Bone{
 			ID:     len(c.bones) + 1,
-			Name:   strings.TrimPrefix(m.Name(), "Model::"),
+			Name:   fbxObjectName(m.Name(), "Model"),
 			Pos:    mqo.Vector3Attr{Vector3: *pos},
 			Parent: c.boneNodeMap[m.Parent],
 		}
@@ -331,7 +336,7 @@ func (c *fbxToMqoState) convertShape(node *fbx.GeometryShape, src *mqo.Object, g
 	indexes := node.GetIndexes()
 
 	obj := src.Clone()
-	obj.Name = node.Name()
+	obj.Name = fbxObjectName(node.Name(), "Geometry")
 
 	if len(vertices) != len(indexes) {
 		log.Println("ERROR: Shape ", node.Name(), len(vertices), len(indexes))
-- 
2.43.0


From 875f3bdf55d1ba26cbd8ed541dc8679434823a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:21:47 +0000
Subject: [PATCH 043/170] fix: bone weights of MQO are percentages when
 converting from FBX

---
 converter/fbx2mqo.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/converter/fbx2mqo.go b/converter/fbx2mqo.go
index 3b02f76..787de72 100644
--- a/converter/fbx2mqo.go
+++ b/converter/fbx2mqo.go
@@ -324,7 +324,7 @@ func (c *fbxToMqoState) convertDeformer(sub *fbx.Deformer, objID int) {
 	indexes := sub.GetIndexes()
 	if len(weights) == len(indexes) {
 		for i := range indexes {
-			bone.SetVertexWeight(objID, int(indexes[i])+1, weights[i])
+			bone.SetVertexWeight(objID, int(indexes[i])+1, weights[i]*100)
 		}
 	} else {
 		log.Println("ERR: Deformer weights ", len(weights), len(indexes))
-- 
2.43.0


From 286eabc91150b22d7af8e4aae5523a553a2184b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:21:49 +0000
Subject: [PATCH 044/170] fix: resolve indexed FBX normals

---
 converter/fbx2mqo.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/converter/fbx2mqo.go b/converter/fbx2mqo.go
index 787de72..57f21d1 100644
--- a/converter/fbx2mqo.go
+++ b/converter/fbx2mqo.go
@@ -202,8 +202,21 @@ func (c *fbxToMqoState) convertGeometry(g *fbx.Geometry, obj *mqo.Object, transf
 	matAllSame := matType == "AllSame" && len(matArray) > 0
 	normalNode := g.GetLayerElementNormal()
 	normArray := normalNode.Array.GetVec3Array()
-	normByVertex := normalNode.GetMappingInformationType() == "ByControlPoint" && len(normArray) >= len(g.Vertices)
-	normByPolygonVertex := normalNode.GetMappingInformationType() == "ByPolygonVertex"
+	if normalNode.GetReferenceInformationType() == "IndexToDirect" {
+		// resolve index
+		var resolved []*geom.Vector3
+		for _, i := range normalNode.GetIndexes() {
+			if int(i) < 0 || int(i) >= len(normArray) {
+				resolved = nil
+				break
+			}
+			resolved = append(resolved, normArray[i])
+		}
+		normArray = resolved
+	}
+	normMapping := normalNode.GetMappingInformationType()
+	normByVertex := (normMapping == "ByControlPoint" || normMapping == "ByVertice") && len(normArray) >= len(g.Vertices)
+	normByPolygonVertex := normMapping == "ByPolygonVertex"
 
 	uvnode := g.GetLayerElementUV()
 	var uv []*geom.Vector2
-- 
2.43.0


From b24a0544b5d737cfad5f7b16bfd1457f1081dc3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:21:50 +0000
Subject: [PATCH 045/170] fix: FBX faces without a material or UV do not crash
 the conversion

---
 converter/fbx2mqo.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/converter/fbx2mqo.go b/converter/fbx2mqo.go
index 57f21d1..edee1f6 100644
--- a/converter/fbx2mqo.go
+++ b/converter/fbx2mqo.go
@@ -249,7 +249,7 @@ func (c *fbxToMqoState) convertGeometry(g *fbx.Geometry, obj *mqo.Object, transf
 		} else if matAllSame {
 			matIdx = int(matArray[0])
 		}
-		if matIdx < len(materialIDs) {
+		if matIdx >= 0 && matIdx < len(materialIDs) {
 			face.Material = materialIDs[matIdx]
 		}
 		for n, v := range f {
@@ -263,7 +263,10 @@ func (c *fbxToMqoState) convertGeometry(g *fbx.Geometry, obj *mqo.Object, transf
 		}
 		if uvIndex != nil { // Indexed
 			for n := range f {
-				v := uv[uvIndex[vcount+n]]
+				v := &geom.Vector2{}
+				if i := int(uvIndex[vcount+n]); i >= 0 && i < len(uv) {
+					v = uv[i]
+				}
 				face.UVs = append(face.UVs, geom.Vector2{X: v.X, Y: 1 - v.Y})
 			}
 		} else if uv != nil {
-- 
2.43.0


From 247b99881090cd5bbf49293735aac8d5175acb86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:29:59 +0000
Subject: [PATCH 046/170] fix: keep names that are already unique when making
 names unique

---
 mqo/mqo.go | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/mqo/mqo.go b/mqo/mqo.go
index 32d7a1c..70080fe 100644
--- a/mqo/mqo.go
+++ b/mqo/mqo.go
@@ -73,25 +73,35 @@ func (doc *Document) GetWorldTransforms() map[*Object]*Matrix4 {
 func (doc *Document) FixNames() {
 	objNames := map[string]bool{}
 	for _, obj := range doc.Objects {
-		if objNames[obj.Name] {
+		objNames[obj.Name] = true
+	}
+	objSeen := map[string]bool{}
+	for _, obj := range doc.Objects {
+		if objSeen[obj.Name] {
 			n := 2
 			for objNames[fmt.Sprintf("%s_%d", obj.Name, n)] {
 				n++
 			}
 			obj.Name = fmt.Sprintf("%s_%d", obj.Name, n)
+			objNames[obj.Name] = true
 		}
-		objNames[obj.Name] = true
+		objSeen[obj.Name] = true
 	}
 	matNames := map[string]bool{}
 	for _, mat := range doc.Materials {
-		if matNames[mat.Name] {
+		matNames[mat.Name] = true
+	}
+	matSeen := map[string]bool{}
+	for _, mat := range doc.Materials {
+		if matSeen[mat.Name] {
 			n := 2
 			for matNames[fmt.Sprintf("%s_%d", mat.Name, n)] {
 				n++
 			}
 			mat.Name = fmt.Sprintf("%s_%d", mat.Name, n)
+			matNames[mat.Name] = true
 		}
-		matNames[mat.Name] = true
+		matSeen[mat.Name] = true
 	}
 }
 
-- 
2.43.0


From 9875daaa2128264bca1fb918c0fff16f000ef410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:36:44 +0000
Subject: [PATCH 047/170] fix: choose the four largest bone weights before
 normalising them

---
 converter/mqo2gltf.go | 32 +++++++++++++++-----------------
 1 file changed, 15 insertions(+), 17 deletions(-)

diff --git a/converter/mqo2gltf.go b/converter/mqo2gltf.go
index 89ffa8b..c709ded 100644
--- a/converter/mqo2gltf.go
+++ b/converter/mqo2gltf.go
@@ -236,6 +236,9 @@ func (m *mqoToGltf) getWeights(bones []*mqo.Bone, obj *mqo.Object, boneIDToJoint
 			jointIds = append(jointIds, boneIDToJoint[b.ID])
 			for _, vw := range bw.Vertexes {
 				v := obj.GetVertexIndexByID(vw.VertexID)
+				if v < 0 || v >= vs {
+					log.Fatal("invalid weight. V:", vw.VertexID, " O:", obj.Name)
+				}
 				jindex := njoint[v]
 				njoint[v]++
 				if jindex >= 4 {
@@ -251,28 +254,23 @@ func (m *mqoToGltf) getWeights(bones []*mqo.Bone, obj *mqo.Object, boneIDToJoint
 						continue
 					}
 				}
-				if v < 0 || v >= vs {
-					log.Fatal("invalid weight. V:", vw.VertexID, " O:", obj.Name)
-				}
 				joints[v][jindex] = uint16(len(jointIds)) - 1
 				weights[v][jindex] = vw.Weight * 0.01
 			}
-			for _, vw := range bw.Vertexes {
-				v := obj.GetVertexIndexByID(vw.VertexID)
-				if njoint[v] > 4 {
-					log.Println("WWARNING: njoint > 4. V:", vw.VertexID, " O:", obj.Name)
-					var sum float32 = 0
-					for _, w := range weights[v] {
-						sum += w
-					}
-					if sum > 0 {
-						for i := range weights[v] {
-							weights[v][i] /= sum
-						}
-					}
+		}
+	}
+	for v, n := range njoint {
+		if n > 4 {
+			log.Println("WWARNING: njoint > 4. V:", v, " O:", obj.Name)
+			var sum float32 = 0
+			for _, w := range weights[v] {
+				sum += w
+			}
+			if sum > 0 {
+				for i := range weights[v] {
+					weights[v][i] /= sum
 				}
 			}
-
 		}
 	}
 	return jointIds, joints, weights
-- 
2.43.0


From 33bce582c28231941d2637dc7d2187872368bef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:36:45 +0000
Subject: [PATCH 048/170] fix: bones whose parent does not exist are roots of
 the glTF skeleton

---
 converter/mqo2gltf.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/converter/mqo2gltf.go b/converter/mqo2gltf.go
index c709ded..02817d0 100644
--- a/converter/mqo2gltf.go
+++ b/converter/mqo2gltf.go
@@ -190,8 +190,7 @@ func (m *mqoToGltf) addBoneNodes(bones []*mqo.Bone) (map[int]uint32, map[uint32]
 
 	for _, b := range bones {
 		node := m.Nodes[idmap[b.ID]]
-		if b.Parent > 0 {
-			parent := bonemap[b.Parent]
+		if parent := bonemap[b.Parent]; b.Parent > 0 && parent != nil {
 			node.Translation[0] = ((b.Pos.X - parent.Pos.X) * scale)
 			node.Translation[1] = ((b.Pos.Y - parent.Pos.Y) * scale)
 			node.Translation[2] = ((b.Pos.Z - parent.Pos.Z) * scale)
-- 
2.43.0


From 2ffc20d05945f8dde71839e2fbd81eca8a2c2691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:36:46 +0000
Subject: [PATCH 049/170] fix: keep faces without a material when converting to
 glTF

---
 converter/mqo2gltf.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/converter/mqo2gltf.go b/converter/mqo2gltf.go
index 02817d0..6b542f3 100644
--- a/converter/mqo2gltf.go
+++ b/converter/mqo2gltf.go
@@ -719,12 +719,15 @@ func (m *mqoToGltf) ConvertObject(obj *mqo.Object, bones []*mqo.Bone, boneIDToJo
 	// make primitive for each materials
 	var primitives []*gltf.Primitive
 	for i, mat := range materials {
-		primitives = append(primitives, &gltf.Primitive{
+		primitive := &gltf.Primitive{
 			Indices:    gltf.Index(indicesAccessors[i]),
 			Attributes: attributes,
-			Material:   gltf.Index(uint32(mat)),
 			Targets:    targets,
-		})
+		}
+		if mat >= 0 {
+			primitive.Material = gltf.Index(uint32(mat))
+		}
+		primitives = append(primitives, primitive)
 	}
 	return &gltf.Mesh{
 		Name:       obj.Name,
@@ -769,6 +772,11 @@ func (m *mqoToGltf) Convert(doc *mqo.Document, textureDir string) (*gltf.Documen
 	}
 
 	materialMap := map[int]int{}
+	for i := range materialUsed {
+		if i < 0 || i >= len(doc.Materials) {
+			materialMap[i] = -1 // default material
+		}
+	}
 	materialCount := 0
 	for i, mat := range doc.Materials {
 		if !materialUsed[i] {
-- 
2.43.0


From 1decdc40261fd9906254c70a95408cacc38f6fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:36:47 +0000
Subject: [PATCH 050/170] fix: only merge texture coordinates that differ by
 less than the epsilon

---
 converter/mqo2gltf.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/converter/mqo2gltf.go b/converter/mqo2gltf.go
index 6b542f3..759dffa 100644
--- a/converter/mqo2gltf.go
+++ b/converter/mqo2gltf.go
@@ -625,7 +625,7 @@ func (m *mqoToGltf) ConvertObject(obj *mqo.Object, bones []*mqo.Bone, boneIDToJo
 				if assigned != nil {
 					vi := -1
 					for _, v := range assigned {
-						if f.UVs[i].Sub(&geom.Vector2{X: texcood0[v][0], Y: texcood0[v][1]}).LenSqr() < TextureUVEpsilon {
+						if f.UVs[i].Sub(&geom.Vector2{X: texcood0[v][0], Y: texcood0[v][1]}).LenSqr() < TextureUVEpsilon*TextureUVEpsilon {
 							verts[i] = v
 							vi = v
 						}
-- 
2.43.0


From 0a5e7a0f5a7aa37e79b1e54e5023268d1a0f7cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:36:49 +0000
Subject: [PATCH 051/170] fix: do not add skins to glTF nodes without a mesh

---
 converter/mqo2gltf.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/converter/mqo2gltf.go b/converter/mqo2gltf.go
index 759dffa..f5bf4b0 100644
--- a/converter/mqo2gltf.go
+++ b/converter/mqo2gltf.go
@@ -852,7 +852,7 @@ func (m *mqoToGltf) Convert(doc *mqo.Document, textureDir string) (*gltf.Documen
 				node.Mesh = gltf.Index(uint32(len(m.Document.Meshes)))
 				m.Document.Meshes = append(m.Document.Meshes, mesh)
 			}
-			if len(joints) > 0 {
+			if len(joints) > 0 && node.Mesh != nil {
 				node.Skin = gltf.Index(m.addSkin(joints, jointToBone))
 			}
 			if m.ExportLights {
-- 
2.43.0


From f67a02ea453429dc1c9d7c7916c569202789c552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:36:50 +0000
Subject: [PATCH 052/170] fix: morph targets only have the attributes of their
 base

---
 converter/mqo2gltf.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/converter/mqo2gltf.go b/converter/mqo2gltf.go
index f5bf4b0..7f13e53 100644
--- a/converter/mqo2gltf.go
+++ b/converter/mqo2gltf.go
@@ -700,10 +700,13 @@ func (m *mqoToGltf) ConvertObject(obj *mqo.Object, bones []*mqo.Bone, boneIDToJo
 			v := morphObj.Vertexes[i]
 			mv = append(mv, [3]float32{v.X*scale - vertexes[i][0], v.Y*scale - vertexes[i][1], v.Z*scale - vertexes[i][2]})
 		}
-		targets = append(targets, map[string]uint32{
+		target := map[string]uint32{
 			"POSITION": modeler.WritePosition(m.Document, mv),
-			"NORMAL":   attributes["NORMAL"], // for UniVRM. TODO
-		})
+		}
+		if normal, ok := attributes["NORMAL"]; ok {
+			target["NORMAL"] = normal // for UniVRM. TODO
+		}
+		targets = append(targets, target)
 		targetNames = append(targetNames, morphObj.Name)
 	}
 
-- 
2.43.0


From d599f9259858e3e10696952b85f3c84137cfb031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:36:51 +0000
Subject: [PATCH 053/170] fix: ignore morph targets whose object does not exist

---
 converter/mqo2gltf.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/converter/mqo2gltf.go b/converter/mqo2gltf.go
index 7f13e53..0b20a47 100644
--- a/converter/mqo2gltf.go
+++ b/converter/mqo2gltf.go
@@ -830,7 +830,7 @@ func (m *mqoToGltf) Convert(doc *mqo.Document, textureDir string) (*gltf.Documen
 		if m.convertMorph {
 			if morph, ok := morphBases[obj.Name]; ok {
 				for _, t := range morph.Target {
-					if len(objectByName[t.Name].Vertexes) != len(obj.Vertexes) {
+					if objectByName[t.Name] == nil || len(objectByName[t.Name].Vertexes) != len(obj.Vertexes) {
 						log.Print("unmached morph target: ", t.Name)
 						continue
 					}
-- 
2.43.0


From d15e2652bed242cef198bd8f43bfbdb237d79aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:37:18 +0000
Subject: [PATCH 054/170] fix: siblings of an object are not its children in
 glTF when depths are skipped

---
 converter/mqo2gltf.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/converter/mqo2gltf.go b/converter/mqo2gltf.go
index 0b20a47..a303256 100644
--- a/converter/mqo2gltf.go
+++ b/converter/mqo2gltf.go
@@ -825,6 +825,7 @@ func (m *mqoToGltf) Convert(doc *mqo.Document, textureDir string) (*gltf.Documen
 
 	var lights []map[string]interface{}
 	var nodePath []*gltf.Node
+	var nodeDepth []int
 	for i, obj := range targetObjects {
 		var morphTargets []*mqo.Object
 		if m.convertMorph {
@@ -882,8 +883,9 @@ func (m *mqoToGltf) Convert(doc *mqo.Document, textureDir string) (*gltf.Documen
 		}
 		m.Nodes[i] = node
 		// node.AddChild()
-		if len(nodePath) > obj.Depth {
-			nodePath = nodePath[:obj.Depth]
+		for len(nodePath) > 0 && nodeDepth[len(nodePath)-1] >= obj.Depth {
+			nodePath = nodePath[:len(nodePath)-1]
+			nodeDepth = nodeDepth[:len(nodePath)]
 		}
 		if !m.IgnoreObjectHierarchy && len(nodePath) > 0 {
 			parent := nodePath[len(nodePath)-1]
@@ -893,6 +895,7 @@ func (m *mqoToGltf) Convert(doc *mqo.Document, textureDir string) (*gltf.Documen
 		}
 		if node.MatrixOrDefault() == gltf.DefaultMatrix {
 			nodePath = append(nodePath, node)
+			nodeDepth = append(nodeDepth, obj.Depth)
 		}
 
 		// Physics
-- 
2.43.0


From 4e3401be044686866b99b993d41beec9c9c7dbd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:37:19 +0000
Subject: [PATCH 055/170] fix: scale the placement of the object that provides
 shared geometry

---
 converter/mqo2gltf.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/converter/mqo2gltf.go b/converter/mqo2gltf.go
index a303256..90db602 100644
--- a/converter/mqo2gltf.go
+++ b/converter/mqo2gltf.go
@@ -847,7 +847,7 @@ func (m *mqoToGltf) Convert(doc *mqo.Document, textureDir string) (*gltf.Documen
 				if sharedGeoms[key] != nil && sharedGeoms[key].count > 1 {
 					shared = sharedGeoms[key]
 					if shared.matrix == nil {
-						shared.matrix = obj.InternalTransform.Inverse()
+						shared.matrix = obj.InternalTransform.TranslationScale(m.Scale).Inverse()
 					}
 				}
 			}
-- 
2.43.0


From 95fefd49034ce80e8d6fe7438df10716b2ca8787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:37:20 +0000
Subject: [PATCH 056/170] fix: look for alpha in the whole area of the texture
 that is used

---
 converter/mqo2gltf.go | 47 ++++++++++++++++++++++++++-----------------
 1 file changed, 29 insertions(+), 18 deletions(-)

diff --git a/converter/mqo2gltf.go b/converter/mqo2gltf.go
index 90db602..8b2cec8 100644
--- a/converter/mqo2gltf.go
+++ b/converter/mqo2gltf.go
@@ -73,28 +73,41 @@ type uvrect struct {
 }
 
 func newUVRectFromPoint(p geom.Vector2) *uvrect {
-	x := p.X - float32(math.Floor(float64(p.X)))
-	y := p.Y - float32(math.Floor(float64(p.Y)))
-	return &uvrect{y, y, x, x}
+	return &uvrect{p.Y, p.Y, p.X, p.X}
 }
 
 func (b *uvrect) Add(p geom.Vector2) {
-	x := p.X - float32(math.Floor(float64(p.X)))
-	y := p.Y - float32(math.Floor(float64(p.Y)))
-	if x < b.left {
-		b.left = x
+	if p.X < b.left {
+		b.left = p.X
 	}
-	if x > b.right {
-		b.right = x
+	if p.X > b.right {
+		b.right = p.X
 	}
-	if y < b.top {
-		b.top = y
+	if p.Y < b.top {
+		b.top = p.Y
 	}
-	if y > b.bottom {
-		b.bottom = y
+	if p.Y > b.bottom {
+		b.bottom = p.Y
 	}
 }
 
+// uvRangeToPixels returns range of the pixels in the (repeated) texture.
+func uvRangeToPixels(min, max float32, size int) (int, int) {
+	offset := math.Floor(float64(min))
+	p0 := int(math.Floor((float64(min) - offset) * float64(size)))
+	p1 := int(math.Ceil((float64(max) - offset) * float64(size)))
+	if p1 > size {
+		return 0, size
+	}
+	if p0 >= size {
+		p0 = size - 1
+	}
+	if p1 <= p0 {
+		p1 = p0 + 1
+	}
+	return p0, p1
+}
+
 const BlenderPhysicsName = "BLENDER_physics"
 
 type BlenderPhysicsBody struct {
@@ -307,11 +320,9 @@ func (m *mqoToGltf) hasAlpha(texture string, textures *textureCache, rect *uvrec
 			SubImage(r image.Rectangle) image.Image
 		}); ok {
 			b := img.Bounds()
-			r := image.Rectangle{
-				Min: image.Point{X: int(float32(b.Dx()) * rect.left), Y: int(float32(b.Dy()) * rect.top)},
-				Max: image.Point{X: int(float32(b.Dx()) * rect.right), Y: int(float32(b.Dy()) * rect.bottom)},
-			}
-			img = s.SubImage(r)
+			x0, x1 := uvRangeToPixels(rect.left, rect.right, b.Dx())
+			y0, y1 := uvRangeToPixels(rect.top, rect.bottom, b.Dy())
+			img = s.SubImage(image.Rect(x0, y0, x1, y1).Add(b.Min))
 		}
 	}
 	switch img.ColorModel() {
-- 
2.43.0


From 2c2dcd42581805afa9af20c9192ab2a3e16c54dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:37:21 +0000
Subject: [PATCH 057/170] fix: textures with an absolute path can be converted

---
 converter/mqo2gltf.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/converter/mqo2gltf.go b/converter/mqo2gltf.go
index 8b2cec8..9a1b646 100644
--- a/converter/mqo2gltf.go
+++ b/converter/mqo2gltf.go
@@ -133,7 +133,11 @@ func (c *textureCache) getImage(name string) (image.Image, error) {
 		return t.img, t.err
 	}
 
-	f, err := os.Open(filepath.Join(c.srcDir, t.name))
+	path := t.name
+	if !filepath.IsAbs(path) {
+		path = filepath.Join(c.srcDir, path)
+	}
+	f, err := os.Open(path)
 	if err != nil {
 		t.err = err
 		return nil, err
-- 
2.43.0


From 1433f7d4d1c910f44d19817af281f292f3141744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:37:23 +0000
Subject: [PATCH 058/170] fix: the texture resolution limit also applies to the
 height

---
 converter/mqo2gltf.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/converter/mqo2gltf.go b/converter/mqo2gltf.go
index 9a1b646..821149f 100644
--- a/converter/mqo2gltf.go
+++ b/converter/mqo2gltf.go
@@ -349,13 +349,23 @@ func scaleTexture(texture string, mime string, textures *textureCache, scale flo
 
 	if limit > 0 {
 		sz := int(float32(rect.Dx()) * scale)
+		if h := int(float32(rect.Dy()) * scale); h > sz {
+			sz = h
+		}
 		if sz > limit {
 			scale *= float32(limit) / float32(sz)
 		}
 	}
 
 	if scale != 1.0 {
-		dst := image.NewRGBA(image.Rect(0, 0, int(float32(rect.Dx())*scale), int(float32(rect.Dy())*scale)))
+		w, h := int(float32(rect.Dx())*scale), int(float32(rect.Dy())*scale)
+		if w < 1 {
+			w = 1
+		}
+		if h < 1 {
+			h = 1
+		}
+		dst := image.NewRGBA(image.Rect(0, 0, w, h))
 		draw.CatmullRom.Scale(dst, dst.Bounds(), img, rect, draw.Over, nil)
 		img = dst
 	}
-- 
2.43.0


From 784dd1032557dee246c3d87e0bf9105f4c895571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:38:50 +0000
Subject: [PATCH 059/170] fix: detect alpha also in palette and 16bit textures

---
 converter/mqo2gltf.go | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/converter/mqo2gltf.go b/converter/mqo2gltf.go
index 821149f..0cad076 100644
--- a/converter/mqo2gltf.go
+++ b/converter/mqo2gltf.go
@@ -15,7 +15,6 @@ import (
 	"github.com/qmuntal/gltf/modeler"
 
 	"image"
-	"image/color"
 	"image/jpeg"
 	"image/png"
 
@@ -329,13 +328,8 @@ func (m *mqoToGltf) hasAlpha(texture string, textures *textureCache, rect *uvrec
 			img = s.SubImage(image.Rect(x0, y0, x1, y1).Add(b.Min))
 		}
 	}
-	switch img.ColorModel() {
-	case color.YCbCrModel, color.CMYKModel:
-		return false
-	case color.RGBAModel:
-		return !img.(*image.RGBA).Opaque()
-	case color.NRGBAModel:
-		return !img.(*image.NRGBA).Opaque()
+	if img, ok := img.(interface{ Opaque() bool }); ok {
+		return !img.Opaque()
 	}
 	return false
 }
-- 
2.43.0


From b68476391aa06b3ce1a08e8909c757768e1f5b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:47:51 +0000
Subject: [PATCH 060/170] fix: do not transform the mesh of an object with a
 light twice

---
 converter/mqo2gltf.go | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/converter/mqo2gltf.go b/converter/mqo2gltf.go
index 0cad076..336d3f1 100644
--- a/converter/mqo2gltf.go
+++ b/converter/mqo2gltf.go
@@ -878,16 +878,32 @@ func (m *mqoToGltf) Convert(doc *mqo.Document, textureDir string) (*gltf.Documen
 			if len(joints) > 0 && node.Mesh != nil {
 				node.Skin = gltf.Index(m.addSkin(joints, jointToBone))
 			}
+			lightNode := node
 			if m.ExportLights {
 				if lightParam, ok := obj.Extra["light"].(map[string]interface{}); ok {
-					if node.Extensions == nil {
-						node.Extensions = gltf.Extensions{}
+					if node.Mesh != nil && obj.InternalTransform != nil {
+						// The mesh is already transformed.
+						lightNode = &gltf.Node{Name: obj.Name + "_light"}
+						mat := obj.InternalTransform.TranslationScale(m.Scale)
+						if shared != nil {
+							mat = shared.matrix.Inverse()
+						}
+						mat.ToArray(lightNode.Matrix[:])
+						lightNode.Matrix[3] = 0
+						lightNode.Matrix[7] = 0
+						lightNode.Matrix[11] = 0
+						lightNode.Matrix[15] = 1
+						node.Children = append(node.Children, uint32(len(m.Nodes)))
+						m.Nodes = append(m.Nodes, lightNode)
+					}
+					if lightNode.Extensions == nil {
+						lightNode.Extensions = gltf.Extensions{}
 					}
-					node.Extensions["KHR_lights_punctual"] = map[string]interface{}{"light": len(lights)}
+					lightNode.Extensions["KHR_lights_punctual"] = map[string]interface{}{"light": len(lights)}
 					lights = append(lights, lightParam)
 				}
 			}
-			if (m.ExportLights && obj.Extra["light"] != nil || shared != nil) && obj.InternalTransform != nil {
+			if (m.ExportLights && obj.Extra["light"] != nil && lightNode == node || shared != nil) && obj.InternalTransform != nil {
 				m := obj.InternalTransform.TranslationScale(m.Scale)
 				if shared != nil {
 					m = m.Mul(shared.matrix)
-- 
2.43.0


From 986a973661db088221d6d690a0a68c459f561a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:47:53 +0000
Subject: [PATCH 061/170] fix: lines have no normal

---
 mqo/utils.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mqo/utils.go b/mqo/utils.go
index 277f868..12bc630 100644
--- a/mqo/utils.go
+++ b/mqo/utils.go
@@ -52,6 +52,9 @@ func (obj *Object) GetSmoothNormals() []Vector3 {
 			v1 := obj.Vertexes[face.Verts[(i+len(face.Verts)-1)%len(face.Verts)]].Sub(obj.Vertexes[v])
 			v2 := obj.Vertexes[face.Verts[(i+1)%len(face.Verts)]].Sub(obj.Vertexes[v])
 			cross := Vector3{X: v1.Y*v2.Z - v1.Z*v2.Y, Y: v1.Z*v2.X - v1.X*v2.Z, Z: v1.X*v2.Y - v1.Y*v2.X}
+			if cross.LenSqr() == 0 {
+				continue // line
+			}
 			cross.Normalize()
 			normal[v] = *normal[v].Add(&cross)
 		}
-- 
2.43.0


From 244a304e562d016196c98cb506d8514493bf3e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:51:05 +0000
Subject: [PATCH 062/170] fix: place lights of objects sharing geometry that
 have no mesh

---
 converter/mqo2gltf.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/converter/mqo2gltf.go b/converter/mqo2gltf.go
index 336d3f1..11860f2 100644
--- a/converter/mqo2gltf.go
+++ b/converter/mqo2gltf.go
@@ -881,7 +881,7 @@ func (m *mqoToGltf) Convert(doc *mqo.Document, textureDir string) (*gltf.Documen
 			lightNode := node
 			if m.ExportLights {
 				if lightParam, ok := obj.Extra["light"].(map[string]interface{}); ok {
-					if node.Mesh != nil && obj.InternalTransform != nil {
+					if (node.Mesh != nil || shared != nil) && obj.InternalTransform != nil {
 						// The mesh is already transformed.
 						lightNode = &gltf.Node{Name: obj.Name + "_light"}
 						mat := obj.InternalTransform.TranslationScale(m.Scale)
-- 
2.43.0


From 8572f482fbb45ef66cbaa74033c1e7e2a33ba811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:51:06 +0000
Subject: [PATCH 063/170] fix: the area used by a material includes vertices
 shared with other materials

---
 converter/mqo2gltf.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/converter/mqo2gltf.go b/converter/mqo2gltf.go
index 11860f2..9521b57 100644
--- a/converter/mqo2gltf.go
+++ b/converter/mqo2gltf.go
@@ -639,6 +639,7 @@ func (m *mqoToGltf) ConvertObject(obj *mqo.Object, bones []*mqo.Bone, boneIDToJo
 			}
 
 			for i, index := range verts {
+				bounds.Add(f.UVs[i])
 				assigned := indicesMap[index]
 				normal := f.Normals[i]
 				if assigned != nil {
@@ -665,7 +666,6 @@ func (m *mqoToGltf) ConvertObject(obj *mqo.Object, bones []*mqo.Bone, boneIDToJo
 				indicesMap[index] = append(indicesMap[index], verts[i])
 				texcood0[verts[i]] = [2]float32{f.UVs[i].X, f.UVs[i].Y}
 				normal.ToArray(normals[verts[i]][:])
-				bounds.Add(f.UVs[i])
 			}
 		} else {
 			for i, index := range verts {
-- 
2.43.0


From 474ab5d90d10b271139a52633932fc61b9956ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:52:22 +0000
Subject: [PATCH 064/170] fix: the same model always gives the same glTF file

---
 converter/mqo2gltf.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/converter/mqo2gltf.go b/converter/mqo2gltf.go
index 9521b57..2f9bf75 100644
--- a/converter/mqo2gltf.go
+++ b/converter/mqo2gltf.go
@@ -7,6 +7,7 @@ import (
 	"math"
 	"os"
 	"path/filepath"
+	"sort"
 	"strings"
 
 	"github.com/binzume/modelconv/geom"
@@ -966,6 +967,7 @@ func (m *mqoToGltf) Convert(doc *mqo.Document, textureDir string) (*gltf.Documen
 	for ext := range m.extensions {
 		m.ExtensionsUsed = append(m.ExtensionsUsed, ext)
 	}
+	sort.Strings(m.ExtensionsUsed)
 
 	if len(m.Document.Textures) > 0 {
 		m.Document.Samplers = []*gltf.Sampler{{}}
-- 
2.43.0


From 7c077084ee8800de07150bfe306da0a233a11b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:55:53 +0000
Subject: [PATCH 065/170] fix: NewMMDToMQOConverter(nil) uses the default
 options

---
 converter/mmd2mqo.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/converter/mmd2mqo.go b/converter/mmd2mqo.go
index d447620..ae6c9c3 100644
--- a/converter/mmd2mqo.go
+++ b/converter/mmd2mqo.go
@@ -19,6 +19,9 @@ type mmdToMQO struct {
 }
 
 func NewMMDToMQOConverter(options *MMDToMQOOption) *mmdToMQO {
+	if options == nil {
+		options = &MMDToMQOOption{}
+	}
 	return &mmdToMQO{MMDToMQOOption: *options}
 }
 
-- 
2.43.0


From 8fde72795755968d347029e829f3b1d4c812f9dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:55:55 +0000
Subject: [PATCH 066/170] fix: sum of the weights of a bone listed twice in a
 vertex of a morph base

---
 converter/mmd2mqo.go | 15 +--------------
 1 file changed, 1 insertion(+), 14 deletions(-)

diff --git a/converter/mmd2mqo.go b/converter/mmd2mqo.go
index ae6c9c3..f4d9dd1 100644
--- a/converter/mmd2mqo.go
+++ b/converter/mmd2mqo.go
@@ -285,20 +285,7 @@ func (c *mmdToMQO) Convert(pmx *mmd.Document) *mqo.Document {
 		morphTargets.Base = o.Name
 		vmap := map[int]int{}
 		c.convertFaces(pmx, faces, face2mat, o, vmap)
-		for pmv, mqv := range vmap {
-			v := pmx.Vertexes[pmv]
-			c := map[int]*mqo.VertexWeight{}
-			for bi, b := range v.Bones {
-				if v.BoneWeights[bi] > 0 {
-					if c[b] != nil {
-						c[b].Weight += v.BoneWeights[bi]
-						continue
-					}
-					c[b] = bones[b].SetVertexWeight(len(mq.Objects)+1, mqv+1, 100*v.BoneWeights[bi])
-				}
-			}
-		}
-
+		c.setWeight(pmx, bones, len(mq.Objects)+1, vmap)
 		mq.Objects = append(mq.Objects, o)
 		base := o
 
-- 
2.43.0


From bef665abbe8e5da5c801db635fcb358b8ca9ba6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:55:56 +0000
Subject: [PATCH 067/170] fix: PMX vertices may have no bone

---
 converter/mmd2mqo.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/converter/mmd2mqo.go b/converter/mmd2mqo.go
index f4d9dd1..f49a9c1 100644
--- a/converter/mmd2mqo.go
+++ b/converter/mmd2mqo.go
@@ -124,7 +124,7 @@ func (c *mmdToMQO) setWeight(pmx *mmd.Document, bones []*mqo.Bone, objid int, vm
 		v := pmx.Vertexes[pmv]
 		c := map[int]*mqo.VertexWeight{}
 		for bi, b := range v.Bones {
-			if v.BoneWeights[bi] > 0 {
+			if v.BoneWeights[bi] > 0 && b >= 0 && b < len(bones) {
 				if c[b] != nil {
 					c[b].Weight += 100 * v.BoneWeights[bi]
 					continue
-- 
2.43.0


From a23536f5b486efe21896efa648547ccd524f6444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:55:57 +0000
Subject: [PATCH 068/170] fix: PMX bones may have no inherit parent or IK
 target

---
 converter/mmd2mqo.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/converter/mmd2mqo.go b/converter/mmd2mqo.go
index f49a9c1..0253d4e 100644
--- a/converter/mmd2mqo.go
+++ b/converter/mmd2mqo.go
@@ -65,7 +65,7 @@ func (c *mmdToMQO) convertBones(pmx *mmd.Document) []*mqo.Bone {
 		}
 		if pmBone.Flags&mmd.BoneFlagInheritRotation > 0 &&
 			pmBone.InheritParentInfluence > c.InheritParentThreshold &&
-			len(pmx.Bones) > pmBone.InheritParentID {
+			pmBone.InheritParentID >= 0 && len(pmx.Bones) > pmBone.InheritParentID {
 			for _, n := range c.KnownBoneNames {
 				if n == pmx.Bones[pmBone.InheritParentID].Name {
 					mqBone.Parent = pmBone.InheritParentID + 1
@@ -80,7 +80,7 @@ func (c *mmdToMQO) convertBones(pmx *mmd.Document) []*mqo.Bone {
 	}
 
 	for _, pmBone := range pmx.Bones {
-		if len(pmBone.IK.Links) > 0 {
+		if len(pmBone.IK.Links) > 0 && pmBone.IK.TargetID >= 0 && pmBone.IK.TargetID < len(bones) {
 			var tipName string
 			if pmBone.TailID > 0 && pmBone.TailID < len(pmx.Bones) {
 				tipName = pmx.Bones[pmBone.TailID].Name
-- 
2.43.0


From 8305e2907ab3e9ba1f3034c3503c23f9b7f941a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:55:58 +0000
Subject: [PATCH 069/170] fix: morph offsets of vertices that are in no face do
 not move another vertex

---
 converter/mmd2mqo.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/converter/mmd2mqo.go b/converter/mmd2mqo.go
index 0253d4e..6e9fbb9 100644
--- a/converter/mmd2mqo.go
+++ b/converter/mmd2mqo.go
@@ -297,7 +297,11 @@ func (c *mmdToMQO) Convert(pmx *mmd.Document) *mqo.Document {
 			o.Visible = false
 			morphTargets.Target = append(morphTargets.Target, &mqo.MorphTarget{Name: o.Name})
 			for _, mv := range morph.Vertex {
-				v := o.Vertexes[vmap[mv.Target]]
+				vi, ok := vmap[mv.Target]
+				if !ok {
+					continue // not in any face
+				}
+				v := o.Vertexes[vi]
 				v.X += mv.Offset.X
 				v.Y += mv.Offset.Y
 				v.Z += mv.Offset.Z * -1
@@ -310,10 +314,11 @@ func (c *mmdToMQO) Convert(pmx *mmd.Document) *mqo.Document {
 			}
 
 			for _, mu := range morph.UV {
-				if mu.Target < 0 {
-					continue
+				vi, ok := vmap[mu.Target]
+				if !ok {
+					continue // not in any face
 				}
-				for _, fv := range vertToFV[vmap[mu.Target]] {
+				for _, fv := range vertToFV[vi] {
 					uv := &o.Faces[fv[0]].UVs[fv[1]]
 					uv.X += mu.Value.X
 					uv.Y += mu.Value.Y
-- 
2.43.0


From 67a4f3f6bb36b37164ff4a378a8cd218b151ae24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:55:59 +0000
Subject: [PATCH 070/170] fix: the size of a rigid body is not mirrored

---
 converter/mmd2mqo.go | 2 +-
 converter/mqo2mmd.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/converter/mmd2mqo.go b/converter/mmd2mqo.go
index 6e9fbb9..0eb1c07 100644
--- a/converter/mmd2mqo.go
+++ b/converter/mmd2mqo.go
@@ -367,7 +367,7 @@ func (c *mmdToMQO) Convert(pmx *mmd.Document) *mqo.Document {
 				Name: b.Name,
 				Shapes: []*mqo.PhysicsShape{{
 					Type:     shapeType,
-					Size:     mqo.Vector3XmlAttr(*c.convertVec3(&b.Size)),
+					Size:     mqo.Vector3XmlAttr(b.Size),
 					Position: mqo.Vector3XmlAttr(*c.convertVec3(&b.Position)),
 					Rotation: mqo.Vector3XmlAttr(b.Rotation),
 				}},
diff --git a/converter/mqo2mmd.go b/converter/mqo2mmd.go
index ec5a9ac..ae247cd 100644
--- a/converter/mqo2mmd.go
+++ b/converter/mqo2mmd.go
@@ -192,7 +192,7 @@ func (c *mqoToMMD) convertBody(b *mqo.PhysicsBody, boneIndexByID map[int]int) []
 			Name:  b.Name,
 			Shape: shapeType,
 
-			Size:           *c.convertVec3(shape.Size.Vec3()),
+			Size:           *shape.Size.Vec3().Scale(c.Scale),
 			Position:       *c.convertVec3(shape.Position.Vec3()),
 			Rotation:       mmd.Vector3(shape.Rotation),
 			Mass:           b.Mass,
-- 
2.43.0


From 9ae09508d0f18f99411423519e1ac5626dfdb649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:56:01 +0000
Subject: [PATCH 071/170] fix: keep the Z offset of morphs in PMX

---
 converter/mqo2mmd.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/converter/mqo2mmd.go b/converter/mqo2mmd.go
index ae247cd..6d92f29 100644
--- a/converter/mqo2mmd.go
+++ b/converter/mqo2mmd.go
@@ -98,7 +98,7 @@ func (c *mqoToMMD) Convert(doc *mqo.Document) (*mmd.Document, error) {
 										p := c.convertVec3(target.Vertexes[v])
 										morphTargets[t.Name].Vertex = append(morphTargets[t.Name].Vertex, &mmd.MorphVertex{
 											Target: verts[i],
-											Offset: mmd.Vector3{X: p.X - vert.Pos.X, Y: p.Y - vert.Pos.Y},
+											Offset: mmd.Vector3{X: p.X - vert.Pos.X, Y: p.Y - vert.Pos.Y, Z: p.Z - vert.Pos.Z},
 										})
 									}
 								}
-- 
2.43.0


From 7b2e509ee224b17554458d74128f3a5834b0cdd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:56:02 +0000
Subject: [PATCH 072/170] fix: mirror the normals when converting to PMX

---
 converter/mqo2mmd.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/converter/mqo2mmd.go b/converter/mqo2mmd.go
index 6d92f29..856499d 100644
--- a/converter/mqo2mmd.go
+++ b/converter/mqo2mmd.go
@@ -87,7 +87,7 @@ func (c *mqoToMMD) Convert(doc *mqo.Document) (*mmd.Document, error) {
 						vert := &mmd.Vertex{
 							Pos:       *c.convertVec3(obj.Vertexes[v]),
 							UV:        mmd.Vector2{X: uv.X, Y: uv.Y},
-							Normal:    mmd.Vector3{X: normals[v].X, Y: normals[v].Y, Z: normals[v].Z},
+							Normal:    mmd.Vector3{X: normals[v].X, Y: normals[v].Y, Z: -normals[v].Z},
 							EdgeScale: 1,
 						}
 						dst.Vertexes = append(dst.Vertexes, vert)
-- 
2.43.0


From 1c91ba558cbb4f04fff4d58354ff783fa24a0e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:56:03 +0000
Subject: [PATCH 073/170] fix: kinematic bodies follow the bone in PMX

---
 converter/mqo2mmd.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/converter/mqo2mmd.go b/converter/mqo2mmd.go
index 856499d..3eb7997 100644
--- a/converter/mqo2mmd.go
+++ b/converter/mqo2mmd.go
@@ -207,8 +207,8 @@ func (c *mqoToMMD) convertBody(b *mqo.PhysicsBody, boneIndexByID map[int]int) []
 		if i > 0 {
 			body.Name += "_" + fmt.Sprint(i)
 		}
-		if b.Kinematic {
-			body.Mode = 1
+		if !b.Kinematic {
+			body.Mode = 1 // dynamic
 		}
 		bodies = append(bodies, body)
 	}
-- 
2.43.0


From 279057496b9aa0a0b9c9b387d685aaeddb2c2fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:56:04 +0000
Subject: [PATCH 074/170] fix: bodies without bone are not attached to the
 first bone in PMX

---
 converter/mqo2mmd.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/converter/mqo2mmd.go b/converter/mqo2mmd.go
index 3eb7997..2dbc126 100644
--- a/converter/mqo2mmd.go
+++ b/converter/mqo2mmd.go
@@ -202,7 +202,10 @@ func (c *mqoToMMD) convertBody(b *mqo.PhysicsBody, boneIndexByID map[int]int) []
 			AngularDamping: b.AngularDamping,
 			Restitution:    b.Restitution,
 			Friction:       b.Friction,
-			Bone:           boneIndexByID[b.TargetBoneID],
+			Bone:           -1,
+		}
+		if bone, ok := boneIndexByID[b.TargetBoneID]; ok {
+			body.Bone = bone
 		}
 		if i > 0 {
 			body.Name += "_" + fmt.Sprint(i)
-- 
2.43.0


From a2bbcce0219573a7720fac160380c21b55d92974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:56:06 +0000
Subject: [PATCH 075/170] fix: bones with a missing parent are roots in PMX

---
 converter/mqo2mmd.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/converter/mqo2mmd.go b/converter/mqo2mmd.go
index 2dbc126..0460f4f 100644
--- a/converter/mqo2mmd.go
+++ b/converter/mqo2mmd.go
@@ -24,8 +24,7 @@ func (c *mqoToMMD) Convert(doc *mqo.Document) (*mmd.Document, error) {
 		dst.Bones = append(dst.Bones, c.convertBone(b))
 	}
 	for i, b := range bones {
-		if b.Parent > 0 {
-			parentID := boneIndexByID[b.Parent]
+		if parentID, ok := boneIndexByID[b.Parent]; ok && b.Parent > 0 {
 			dst.Bones[i].ParentID = parentID
 			dst.Bones[parentID].TailID = i
 			dst.Bones[parentID].Flags = dst.Bones[parentID].Flags | mmd.BoneFlagTailIndex
-- 
2.43.0


From 5884addde3490a085dd519b439e428c160e5327c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:56:07 +0000
Subject: [PATCH 076/170] fix: keep double sided materials in PMX

---
 converter/mqo2mmd.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/converter/mqo2mmd.go b/converter/mqo2mmd.go
index 0460f4f..8935819 100644
--- a/converter/mqo2mmd.go
+++ b/converter/mqo2mmd.go
@@ -162,8 +162,13 @@ func (c *mqoToMMD) convertBone(bone *mqo.Bone) *mmd.Bone {
 }
 
 func (c *mqoToMMD) convertMaterial(m *mqo.Material, faceCount, texture int) *mmd.Material {
+	var flags uint8
+	if m.DoubleSided {
+		flags |= mmd.MaterialFlagDoubleSided
+	}
 	return &mmd.Material{
 		Name:        m.Name,
+		Flags:       flags,
 		Color:       mmd.Vector4{X: m.Color.X, Y: m.Color.Y, Z: m.Color.Z, W: m.Color.W},
 		Specularity: m.Power,
 		TextureID:   texture,
-- 
2.43.0


From 8f7249537a16a89e2ada4c1ef25098913f2e3e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:56:08 +0000
Subject: [PATCH 077/170] fix: materials have no sphere texture in PMX

---
 converter/mqo2mmd.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/converter/mqo2mmd.go b/converter/mqo2mmd.go
index 8935819..8472abe 100644
--- a/converter/mqo2mmd.go
+++ b/converter/mqo2mmd.go
@@ -172,6 +172,7 @@ func (c *mqoToMMD) convertMaterial(m *mqo.Material, faceCount, texture int) *mmd
 		Color:       mmd.Vector4{X: m.Color.X, Y: m.Color.Y, Z: m.Color.Z, W: m.Color.W},
 		Specularity: m.Power,
 		TextureID:   texture,
+		EnvID:       -1,
 		Toon:        -1,
 		Count:       faceCount * 3,
 	}
-- 
2.43.0


From f6ea0c1c375f062b17839f499b5ef1098bbbb187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:56:09 +0000
Subject: [PATCH 078/170] fix: keep the four largest weights in PMX

---
 converter/mqo2mmd.go | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/converter/mqo2mmd.go b/converter/mqo2mmd.go
index 8472abe..ba66a8c 100644
--- a/converter/mqo2mmd.go
+++ b/converter/mqo2mmd.go
@@ -131,6 +131,7 @@ func (c *mqoToMMD) Convert(doc *mqo.Document) (*mmd.Document, error) {
 }
 
 func (c *mqoToMMD) setWeights(dst *mmd.Document, obj *mqo.Object, vmap map[int][]int, bones []*mqo.Bone) {
+	tooMany := map[int]bool{}
 	for bi, b := range bones {
 		for _, bw := range b.Weights {
 			if bw.ObjectID != obj.UID {
@@ -141,6 +142,17 @@ func (c *mqoToMMD) setWeights(dst *mmd.Document, obj *mqo.Object, vmap map[int][
 				for _, v := range vmap[vi] {
 					vertex := dst.Vertexes[v]
 					if len(vertex.BoneWeights) >= 4 {
+						// Overwrite smallest weight.
+						min := 0
+						for i, w := range vertex.BoneWeights {
+							if w < vertex.BoneWeights[min] {
+								min = i
+							}
+						}
+						if w := vw.Weight * 0.01; vertex.BoneWeights[min] < w {
+							vertex.Bones[min], vertex.BoneWeights[min] = bi, w
+						}
+						tooMany[v] = true
 						continue
 					}
 					vertex.Bones = append(vertex.Bones, bi)
@@ -149,6 +161,17 @@ func (c *mqoToMMD) setWeights(dst *mmd.Document, obj *mqo.Object, vmap map[int][
 			}
 		}
 	}
+	for v := range tooMany {
+		var sum float32
+		for _, w := range dst.Vertexes[v].BoneWeights {
+			sum += w
+		}
+		if sum > 0 {
+			for i := range dst.Vertexes[v].BoneWeights {
+				dst.Vertexes[v].BoneWeights[i] /= sum
+			}
+		}
+	}
 }
 
 func (c *mqoToMMD) convertBone(bone *mqo.Bone) *mmd.Bone {
-- 
2.43.0


From 4569a9f76ba3be460a26a90aa6173abd0635b7b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:10:40 +0000
Subject: [PATCH 079/170] fix: scaling a glTF document also scales morph
 targets, nodes and skins

The matrix meant for offsets was built from the identity instead of the
given transformation, so only the vertices were scaled.
---
 gltfutil/gltf_utils.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gltfutil/gltf_utils.go b/gltfutil/gltf_utils.go
index fc71355..6be180f 100644
--- a/gltfutil/gltf_utils.go
+++ b/gltfutil/gltf_utils.go
@@ -82,7 +82,7 @@ func ApplyTransform(doc *gltf.Document, transformMat *geom.Matrix4) {
 	if transformMat == nil {
 		return
 	}
-	scaleMat := geom.NewMatrix4().Clone()
+	scaleMat := transformMat.Clone()
 	scaleMat[12], scaleMat[13], scaleMat[14] = 0, 0, 0 // remove translate
 
 	accs := map[uint32]bool{}
-- 
2.43.0


From b30c8f284d7a344234b4ac351780a2cc54203296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:10:42 +0000
Subject: [PATCH 080/170] fix: scaling a glTF document keeps skins in place

Inverse bind matrices were normalised, which loses the scale they contain,
read without the offset of their accessor, and changed once per skin that
uses them.
---
 gltfutil/gltf_utils.go | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/gltfutil/gltf_utils.go b/gltfutil/gltf_utils.go
index 6be180f..9c062fe 100644
--- a/gltfutil/gltf_utils.go
+++ b/gltfutil/gltf_utils.go
@@ -132,8 +132,11 @@ func ApplyTransform(doc *gltf.Document, transformMat *geom.Matrix4) {
 	for _, node := range doc.Nodes {
 		scaleMat.ApplyTo(geom.NewVector3FromArray(node.Translation)).ToArray(node.Translation[:])
 	}
+	invMat := scaleMat.Inverse()
+	matrices := map[uint32]bool{}
 	for _, skin := range doc.Skins {
-		if skin.InverseBindMatrices != nil {
+		if skin.InverseBindMatrices != nil && !matrices[*skin.InverseBindMatrices] {
+			matrices[*skin.InverseBindMatrices] = true
 			accessor := doc.Accessors[*skin.InverseBindMatrices]
 			if accessor.BufferView != nil {
 				bufferView := doc.BufferViews[*accessor.BufferView]
@@ -143,14 +146,9 @@ func ApplyTransform(doc *gltf.Document, transformMat *geom.Matrix4) {
 					continue
 				}
 				for i := range skin.Joints {
-					offset := bufferView.ByteOffset + uint32(i)*64
+					offset := bufferView.ByteOffset + accessor.ByteOffset + uint32(i)*64
 					mat := readMatrix(data[offset : offset+64])
-					// apply scale
-					scaleMat.Mul(geom.NewMatrix4FromSlice(mat[:])).ToArray(mat[:])
-					// normalize rotation
-					geom.NewVector3FromSlice(mat[0:3]).Normalize().ToArray(mat[0:3])
-					geom.NewVector3FromSlice(mat[4:7]).Normalize().ToArray(mat[4:7])
-					geom.NewVector3FromSlice(mat[8:11]).Normalize().ToArray(mat[8:11])
+					scaleMat.Mul(geom.NewMatrix4FromSlice(mat[:])).Mul(invMat).ToArray(mat[:])
 					writeMatrix(data[offset:offset+64], mat)
 				}
 			}
-- 
2.43.0


From b29831ec86f21a40cfeda4913ace5702381979e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:10:43 +0000
Subject: [PATCH 081/170] fix: scaling a glTF document also scales nodes placed
 by a matrix

---
 gltfutil/gltf_utils.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gltfutil/gltf_utils.go b/gltfutil/gltf_utils.go
index 9c062fe..ba06658 100644
--- a/gltfutil/gltf_utils.go
+++ b/gltfutil/gltf_utils.go
@@ -129,10 +129,13 @@ func ApplyTransform(doc *gltf.Document, transformMat *geom.Matrix4) {
 			log.Fatalf("Write err %v", err)
 		}
 	}
+	invMat := scaleMat.Inverse()
 	for _, node := range doc.Nodes {
 		scaleMat.ApplyTo(geom.NewVector3FromArray(node.Translation)).ToArray(node.Translation[:])
+		if node.Matrix != gltf.DefaultMatrix && node.Matrix != [16]float32{} {
+			scaleMat.Mul(geom.NewMatrix4FromSlice(node.Matrix[:])).Mul(invMat).ToArray(node.Matrix[:])
+		}
 	}
-	invMat := scaleMat.Inverse()
 	matrices := map[uint32]bool{}
 	for _, skin := range doc.Skins {
 		if skin.InverseBindMatrices != nil && !matrices[*skin.InverseBindMatrices] {
-- 
2.43.0


From 2abde8e20c8f79eeeb20414ba11aae4391511173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:11:21 +0000
Subject: [PATCH 082/170] fix: scaling a glTF document also scales animated
 translations

---
 gltfutil/gltf_utils.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/gltfutil/gltf_utils.go b/gltfutil/gltf_utils.go
index ba06658..26d8433 100644
--- a/gltfutil/gltf_utils.go
+++ b/gltfutil/gltf_utils.go
@@ -98,6 +98,13 @@ func ApplyTransform(doc *gltf.Document, transformMat *geom.Matrix4) {
 			}
 		}
 	}
+	for _, anim := range doc.Animations {
+		for _, ch := range anim.Channels {
+			if ch.Target.Path == gltf.TRSTranslation && ch.Sampler != nil {
+				accs[*anim.Samplers[*ch.Sampler].Output] = true
+			}
+		}
+	}
 	for a, diff := range accs {
 		acr := doc.Accessors[a]
 		pos, err := modeler.ReadPosition(doc, acr, [][3]float32{})
-- 
2.43.0


From 82895615b6ca1f55b4dfb7a40b3ca3f26c7bb246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:12:13 +0000
Subject: [PATCH 083/170] fix: find the images of a glTF document relative to
 its folder

The path was computed with filepath.Rel, the wrong way round, so images
were only found by accident; escaped names were not found at all.
---
 gltfutil/gltf_utils.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/gltfutil/gltf_utils.go b/gltfutil/gltf_utils.go
index 26d8433..dc7a5c7 100644
--- a/gltfutil/gltf_utils.go
+++ b/gltfutil/gltf_utils.go
@@ -4,6 +4,7 @@ import (
 	"io/ioutil"
 	"log"
 	"math"
+	"net/url"
 	"os"
 	"path/filepath"
 	"strings"
@@ -51,8 +52,14 @@ func ToSingleFile(doc *gltf.Document, srcDir string) error {
 		b.URI = ""
 	}
 	for _, m := range doc.Images {
-		if m.BufferView == nil && m.URI != "" {
-			path, _ := filepath.Rel(srcDir, m.URI)
+		if m.BufferView == nil && m.URI != "" && !strings.HasPrefix(m.URI, "data:") {
+			path, err := url.PathUnescape(m.URI)
+			if err != nil {
+				path = m.URI
+			}
+			if !filepath.IsAbs(path) {
+				path = filepath.Join(srcDir, filepath.FromSlash(path))
+			}
 			f, err := os.Open(path)
 			if err != nil {
 				log.Print(err)
-- 
2.43.0


From 9083b788ed89a4dfb4726ed075f05b2220562bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:12:14 +0000
Subject: [PATCH 084/170] fix: keep the data of all buffers when a glTF
 document becomes one file

Only the first buffer is stored in a GLB file; the others lost their URI and
with it their data.
---
 gltfutil/gltf_utils.go | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/gltfutil/gltf_utils.go b/gltfutil/gltf_utils.go
index dc7a5c7..ad720ff 100644
--- a/gltfutil/gltf_utils.go
+++ b/gltfutil/gltf_utils.go
@@ -47,7 +47,30 @@ func RemoveExtension(doc *gltf.Document, extension string) {
 	delete(doc.Extensions, extension)
 }
 
+// mergeBuffers moves all data to the first buffer (a GLB file has only one).
+func mergeBuffers(doc *gltf.Document) {
+	if len(doc.Buffers) < 2 {
+		return
+	}
+	dst := doc.Buffers[0]
+	offsets := make([]uint32, len(doc.Buffers))
+	for i, b := range doc.Buffers[1:] {
+		for len(dst.Data)%4 != 0 {
+			dst.Data = append(dst.Data, 0)
+		}
+		offsets[i+1] = uint32(len(dst.Data))
+		dst.Data = append(dst.Data, b.Data...)
+	}
+	dst.ByteLength = uint32(len(dst.Data))
+	for _, v := range doc.BufferViews {
+		v.ByteOffset += offsets[v.Buffer]
+		v.Buffer = 0
+	}
+	doc.Buffers = doc.Buffers[:1]
+}
+
 func ToSingleFile(doc *gltf.Document, srcDir string) error {
+	mergeBuffers(doc)
 	for _, b := range doc.Buffers {
 		b.URI = ""
 	}
-- 
2.43.0


From ac5dcbedea6838dda08e121ee348c7d34f4172f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:13:53 +0000
Subject: [PATCH 085/170] fix: widen joint indices without damaging the rest of
 their buffer view

The whole view was treated as joint indices, which destroys other attributes
in the same view, and the offset of the accessor was not adjusted.
---
 gltfutil/gltf_joint.go | 47 ++++++++++++++++++------------------------
 1 file changed, 20 insertions(+), 27 deletions(-)

diff --git a/gltfutil/gltf_joint.go b/gltfutil/gltf_joint.go
index 09258aa..1453e9a 100644
--- a/gltfutil/gltf_joint.go
+++ b/gltfutil/gltf_joint.go
@@ -2,10 +2,12 @@ package gltfutil
 
 import (
 	"encoding/binary"
+	"log"
 	"math"
 
 	"github.com/binzume/modelconv/geom"
 	"github.com/qmuntal/gltf"
+	"github.com/qmuntal/gltf/modeler"
 )
 
 type Quaternion = geom.Vector4
@@ -92,36 +94,27 @@ func ResetJointMatrix(doc *gltf.Document) {
 }
 
 func FixJointComponentType(doc *gltf.Document) {
-	fixedbuffer := map[uint32]bool{}
 	for _, mesh := range doc.Meshes {
 		for _, primitiv := range mesh.Primitives {
-			for k, attr := range primitiv.Attributes {
-				accessor := doc.Accessors[attr]
-				if k == "JOINTS_0" && doc.Accessors[attr].ComponentType == 2 { // byte
-					bufferView := doc.BufferViews[*accessor.BufferView]
-					buffer := doc.Buffers[bufferView.Buffer]
-
-					accessor.ComponentType = 4
-					if fixedbuffer[*accessor.BufferView] {
-						continue
-					}
-					fixedbuffer[*accessor.BufferView] = true
-
-					// byte to uint16
-					src := buffer.Data[bufferView.ByteOffset : bufferView.ByteOffset+bufferView.ByteLength]
-					dst := make([]byte, bufferView.ByteLength*2)
-					for i, b := range src {
-						binary.LittleEndian.PutUint16(dst[i*2:i*2+2], uint16(b))
-					}
-
-					bufferView.ByteLength *= 2
-					bufferView.ByteStride *= 2
-					bufferView.ByteOffset = uint32(len(buffer.Data))
-
-					buffer.Data = append(buffer.Data, dst...)
-					buffer.ByteLength += uint32(len(dst))
-				}
+			attr, ok := primitiv.Attributes["JOINTS_0"]
+			if !ok || doc.Accessors[attr].ComponentType != gltf.ComponentUbyte {
+				continue
+			}
+			accessor := doc.Accessors[attr]
+			joints, err := modeler.ReadJoints(doc, accessor, nil)
+			if err != nil {
+				log.Print(err)
+				continue
+			}
+			// The view may contain other data, so the joints get a new one.
+			buffer := doc.Buffers[len(doc.Buffers)-1]
+			for len(buffer.Data)%4 != 0 {
+				buffer.Data = append(buffer.Data, 0)
 			}
+			buffer.ByteLength = uint32(len(buffer.Data))
+			accessor.BufferView = gltf.Index(modeler.WriteBufferView(doc, gltf.TargetArrayBuffer, joints))
+			accessor.ByteOffset = 0
+			accessor.ComponentType = gltf.ComponentUshort
 		}
 	}
 }
-- 
2.43.0


From 1301920de61f3e3c38deac531baf3fd591dafe72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:14:59 +0000
Subject: [PATCH 086/170] fix: resetting the rotation of joints keeps the shape
 of the model

Inverse bind matrices were only right for joints without scale whose accessor
starts at the beginning of its view, nodes placed by a matrix kept their
rotation, meshes without skin lost theirs, and deep hierarchies were left
half done.
---
 gltfutil/gltf_joint.go | 100 ++++++++++++++++++++++++++++++-----------
 1 file changed, 73 insertions(+), 27 deletions(-)

diff --git a/gltfutil/gltf_joint.go b/gltfutil/gltf_joint.go
index 1453e9a..a3369f7 100644
--- a/gltfutil/gltf_joint.go
+++ b/gltfutil/gltf_joint.go
@@ -27,41 +27,54 @@ func writeMatrix(data []byte, mat [16]float32) {
 	}
 }
 
+// nodeMatrices returns the world matrices of all nodes.
+func nodeMatrices(doc *gltf.Document) []*geom.Matrix4 {
+	parents := make([]*uint32, len(doc.Nodes))
+	for i, node := range doc.Nodes {
+		for _, c := range node.Children {
+			parents[c] = gltf.Index(uint32(i))
+		}
+	}
+	mats := make([]*geom.Matrix4, len(doc.Nodes))
+	for i, node := range doc.Nodes {
+		mats[i] = localMatrix(node)
+		for p, depth := parents[i], 0; p != nil && depth < len(doc.Nodes); p, depth = parents[*p], depth+1 {
+			mats[i] = localMatrix(doc.Nodes[*p]).Mul(mats[i])
+		}
+	}
+	return mats
+}
+
+func localMatrix(node *gltf.Node) *geom.Matrix4 {
+	if mat := node.MatrixOrDefault(); mat != gltf.DefaultMatrix {
+		return geom.NewMatrix4FromSlice(mat[:])
+	}
+	r := node.RotationOrDefault()
+	return geom.NewTRSMatrix4(
+		geom.NewVector3FromArray(node.Translation),
+		&Quaternion{X: r[0], Y: r[1], Z: r[2], W: r[3]},
+		geom.NewVector3FromArray(node.ScaleOrDefault()))
+}
+
 func ResetJointMatrix(doc *gltf.Document) {
-	for _, skin := range doc.Skins {
-		if skin.InverseBindMatrices != nil {
-			accessor := doc.Accessors[*skin.InverseBindMatrices]
-			if accessor.BufferView != nil {
-				bufferView := doc.BufferViews[*accessor.BufferView]
-				// TODO: support sparse data.
-				data := doc.Buffers[bufferView.Buffer].Data
-				if len(data) == 0 {
-					continue
-				}
-				for i := range skin.Joints {
-					// fix inverseBindMatrix
-					offset := bufferView.ByteOffset + uint32(i)*64
-					mat := readMatrix(data[offset : offset+64])
+	oldMatrices := nodeMatrices(doc)
 
-					x := mat[0]*mat[12] + mat[1]*mat[13] + mat[2]*mat[14]
-					y := mat[4]*mat[12] + mat[5]*mat[13] + mat[6]*mat[14]
-					z := mat[8]*mat[12] + mat[9]*mat[13] + mat[10]*mat[14]
-					writeMatrix(data[offset:offset+64], [16]float32{
-						1, 0, 0, 0,
-						0, 1, 0, 0,
-						0, 0, 1, 0,
-						x, y, z, 1,
-					})
-				}
-			}
+	for _, node := range doc.Nodes {
+		if mat := node.MatrixOrDefault(); mat != gltf.DefaultMatrix {
+			t, r, s := geom.NewMatrix4FromSlice(mat[:]).Decompose()
+			node.Matrix = gltf.DefaultMatrix
+			node.Translation = [3]float32{t.X, t.Y, t.Z}
+			node.Rotation = [4]float32{r.X, r.Y, r.Z, r.W}
+			node.Scale = [3]float32{s.X, s.Y, s.Z}
 		}
+		node.Rotation = node.RotationOrDefault()
 	}
 
 	// TODO: check node dependency
-	for i := 0; i < 10; i++ {
+	for i := 0; i <= len(doc.Nodes); i++ {
 		fixed := 0
 		for _, node := range doc.Nodes {
-			if node.Rotation == [4]float32{0, 0, 0, 1} || node.Skin != nil {
+			if node.Rotation == [4]float32{0, 0, 0, 1} || node.Mesh != nil {
 				continue
 			}
 			fixed++
@@ -91,6 +104,39 @@ func ResetJointMatrix(doc *gltf.Document) {
 			break
 		}
 	}
+
+	// Keep the skins in place: newMatrix * newIBM = oldMatrix * oldIBM
+	newMatrices := nodeMatrices(doc)
+	fixed := map[uint32]bool{}
+	for _, skin := range doc.Skins {
+		if skin.InverseBindMatrices == nil {
+			mats := make([][4][4]float32, len(skin.Joints))
+			for i := range mats {
+				mats[i] = [4][4]float32{{1, 0, 0, 0}, {0, 1, 0, 0}, {0, 0, 1, 0}, {0, 0, 0, 1}}
+			}
+			skin.InverseBindMatrices = gltf.Index(modeler.WriteAccessor(doc, gltf.TargetNone, mats))
+		}
+		if fixed[*skin.InverseBindMatrices] {
+			continue
+		}
+		fixed[*skin.InverseBindMatrices] = true
+		accessor := doc.Accessors[*skin.InverseBindMatrices]
+		if accessor.BufferView == nil {
+			continue
+		}
+		bufferView := doc.BufferViews[*accessor.BufferView]
+		// TODO: support sparse data.
+		data := doc.Buffers[bufferView.Buffer].Data
+		if len(data) == 0 {
+			continue
+		}
+		for i, joint := range skin.Joints {
+			offset := bufferView.ByteOffset + accessor.ByteOffset + uint32(i)*64
+			mat := readMatrix(data[offset : offset+64])
+			newMatrices[joint].Inverse().Mul(oldMatrices[joint]).Mul(geom.NewMatrix4FromSlice(mat[:])).ToArray(mat[:])
+			writeMatrix(data[offset:offset+64], mat)
+		}
+	}
 }
 
 func FixJointComponentType(doc *gltf.Document) {
-- 
2.43.0


From 511f4654f4f2be40081dee10763326002f6f06bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:31:05 +0000
Subject: [PATCH 087/170] fix: VRM presets work without own material settings

---
 converter/vrmconfig.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/converter/vrmconfig.go b/converter/vrmconfig.go
index adc14b3..2ce34fb 100644
--- a/converter/vrmconfig.go
+++ b/converter/vrmconfig.go
@@ -95,6 +95,9 @@ func LoadVRMConfig(name string) (*Config, error) {
 }
 
 func (c *Config) MergePreset(preset *Config) {
+	if c.MaterialSettings == nil {
+		c.MaterialSettings = map[string]*MaterialSetting{}
+	}
 	for name, m := range preset.MaterialSettings {
 		if _, exist := c.MaterialSettings[name]; !exist {
 			c.MaterialSettings[name] = m
-- 
2.43.0


From 128b36d7879a147d2577e12ec4092f141bcec772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:31:06 +0000
Subject: [PATCH 088/170] fix: ignore VRM morph mappings of nodes without mesh

---
 converter/vrmconfig.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/converter/vrmconfig.go b/converter/vrmconfig.go
index 2ce34fb..6b0b48d 100644
--- a/converter/vrmconfig.go
+++ b/converter/vrmconfig.go
@@ -281,7 +281,7 @@ func applyConfigInternal(doc *vrm.Document, conf *Config, foundBones map[string]
 			continue
 		}
 
-		if id, ok := nodeMap[mapping.NodeName]; ok {
+		if id, ok := nodeMap[mapping.NodeName]; ok && doc.Nodes[id].Mesh != nil {
 			blendShapeMap[[2]int{int(*doc.Nodes[id].Mesh), mapping.TargetIndex}] = mapping.Name
 			m := &vrm.BlendShapeGroup{
 				Name:       mapping.Name,
-- 
2.43.0


From f542713f810803831d6b673bec8f50576a38fcc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:31:08 +0000
Subject: [PATCH 089/170] fix: no first person bone if the head is not mapped

---
 converter/vrmconfig.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/converter/vrmconfig.go b/converter/vrmconfig.go
index 6b0b48d..4e26d5f 100644
--- a/converter/vrmconfig.go
+++ b/converter/vrmconfig.go
@@ -356,7 +356,7 @@ func ApplyConfig(doc *vrm.Document, conf *Config) (*vrm.Document, error) {
 	}
 
 	if ext.FirstPerson == nil {
-		if node, ok := foundBones["head"]; ok {
+		if node, ok := foundBones["head"]; ok && node >= 0 {
 			ext.FirstPerson = &vrm.FirstPerson{
 				FirstPersonBone: node,
 			}
-- 
2.43.0


From 2c7c3386e696114bd386a5d26e4a424ca1aba4d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:31:09 +0000
Subject: [PATCH 090/170] fix: set the alpha of VRM materials without colour

---
 converter/vrmconfig.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/converter/vrmconfig.go b/converter/vrmconfig.go
index 4e26d5f..60d5c0f 100644
--- a/converter/vrmconfig.go
+++ b/converter/vrmconfig.go
@@ -202,7 +202,13 @@ func applyConfigInternal(doc *vrm.Document, conf *Config, foundBones map[string]
 			} else if setting.AlphaMode == "opaque" {
 				mat.AlphaMode = gltf.AlphaOpaque
 			}
-			if setting.Alpha > 0 && mat.PBRMetallicRoughness != nil {
+			if setting.Alpha > 0 {
+				if mat.PBRMetallicRoughness == nil {
+					mat.PBRMetallicRoughness = &gltf.PBRMetallicRoughness{}
+				}
+				if mat.PBRMetallicRoughness.BaseColorFactor == nil {
+					mat.PBRMetallicRoughness.BaseColorFactor = &[4]float32{1, 1, 1, 1}
+				}
 				mat.PBRMetallicRoughness.BaseColorFactor[3] = setting.Alpha
 			}
 		}
-- 
2.43.0


From df28f8e20c33366545224014b978b914e2f106c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:31:10 +0000
Subject: [PATCH 091/170] fix: VRM node patterns match in the order of the
 nodes

---
 converter/vrmconfig.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/converter/vrmconfig.go b/converter/vrmconfig.go
index 60d5c0f..37a4317 100644
--- a/converter/vrmconfig.go
+++ b/converter/vrmconfig.go
@@ -8,6 +8,7 @@ import (
 	"os"
 	"path"
 	"path/filepath"
+	"sort"
 	"strings"
 
 	"github.com/binzume/modelconv/gltfutil"
@@ -117,6 +118,7 @@ func matchNodeName(pattern string, nodeMap map[string]int) []int {
 				result = append(result, id)
 			}
 		}
+		sort.Ints(result)
 	} else if id, ok := nodeMap[pattern]; ok {
 		result = append(result, id)
 	}
-- 
2.43.0


From bf4a4ea01149f36129063fa78e6ff9493d6d92cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:31:12 +0000
Subject: [PATCH 092/170] fix: find the morph targets of loaded glTF files for
 VRM

---
 converter/vrmconfig.go | 45 ++++++++++++++++++++++++++----------------
 1 file changed, 28 insertions(+), 17 deletions(-)

diff --git a/converter/vrmconfig.go b/converter/vrmconfig.go
index 37a4317..3f79183 100644
--- a/converter/vrmconfig.go
+++ b/converter/vrmconfig.go
@@ -125,6 +125,21 @@ func matchNodeName(pattern string, nodeMap map[string]int) []int {
 	return result
 }
 
+// targetNames returns names of morph targets in extras of a mesh.
+func targetNames(extras map[string]interface{}) []string {
+	switch names := extras["targetNames"].(type) {
+	case []string:
+		return names
+	case []interface{}: // loaded from file
+		result := make([]string, len(names))
+		for i, name := range names {
+			result[i], _ = name.(string)
+		}
+		return result
+	}
+	return nil
+}
+
 func findReursive(doc *vrm.Document, target uint32, m map[uint32]string) (string, bool) {
 	if name, ok := m[target]; ok {
 		return name, ok
@@ -261,10 +276,8 @@ func applyConfigInternal(doc *vrm.Document, conf *Config, foundBones map[string]
 	targets := map[string][2]int{}
 	for mi, mesh := range doc.Meshes {
 		if extras, ok := mesh.Extras.(map[string]interface{}); ok {
-			if names, ok := extras["targetNames"].([]string); ok {
-				for i, name := range names {
-					targets[name] = [2]int{mi, i}
-				}
+			for i, name := range targetNames(extras) {
+				targets[name] = [2]int{mi, i}
 			}
 		}
 	}
@@ -343,21 +356,19 @@ func ApplyConfig(doc *vrm.Document, conf *Config) (*vrm.Document, error) {
 	if conf.ExportAllMorph {
 		for mi, mesh := range doc.Meshes {
 			if extras, ok := mesh.Extras.(map[string]interface{}); ok {
-				if names, ok := extras["targetNames"].([]string); ok {
-					for i, name := range names {
-						if _, used := blendShapeMap[[2]int{mi, i}]; used {
-							continue
-						}
-						m := &vrm.BlendShapeGroup{
-							Name: name,
-							Binds: []*vrm.BlendShapeBind{
-								{
-									Mesh: uint32(mi), Index: i, Weight: 100,
-								},
+				for i, name := range targetNames(extras) {
+					if _, used := blendShapeMap[[2]int{mi, i}]; used {
+						continue
+					}
+					m := &vrm.BlendShapeGroup{
+						Name: name,
+						Binds: []*vrm.BlendShapeBind{
+							{
+								Mesh: uint32(mi), Index: i, Weight: 100,
 							},
-						}
-						ext.BlendShapeMaster.BlendShapeGroups = append(ext.BlendShapeMaster.BlendShapeGroups, m)
+						},
 					}
+					ext.BlendShapeMaster.BlendShapeGroups = append(ext.BlendShapeMaster.BlendShapeGroups, m)
 				}
 			}
 		}
-- 
2.43.0


From 3421eb9a8b577aca025ddee907ad2fd1ce8f66d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:31:13 +0000
Subject: [PATCH 093/170] fix: keep the metadata and bones of VRM files

---
 converter/vrmconfig.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/converter/vrmconfig.go b/converter/vrmconfig.go
index 3f79183..2ef35ec 100644
--- a/converter/vrmconfig.go
+++ b/converter/vrmconfig.go
@@ -323,7 +323,9 @@ func applyConfigInternal(doc *vrm.Document, conf *Config, foundBones map[string]
 func ApplyConfig(doc *vrm.Document, conf *Config) (*vrm.Document, error) {
 	ext := doc.VRM()
 	ext.ExporterVersion = vrm.ExporterVersion
-	ext.Meta = conf.Metadata
+	if conf.Metadata != (vrm.Metadata{}) {
+		ext.Meta = conf.Metadata
+	}
 
 	if len(ext.MaterialProperties) != len(doc.Materials) {
 		ext.MaterialProperties = []*vrm.MaterialProperty{}
@@ -339,6 +341,7 @@ func ApplyConfig(doc *vrm.Document, conf *Config) (*vrm.Document, error) {
 		nodeMap[node.Name] = id
 	}
 	foundBones := map[string]int{}
+	sourceBones := ext.Humanoid.Bones
 	ext.Humanoid.Bones = []*vrm.Bone{}
 
 	blendShapeMap := map[[2]int]string{}
@@ -382,6 +385,13 @@ func ApplyConfig(doc *vrm.Document, conf *Config) (*vrm.Document, error) {
 		}
 	}
 
+	for _, b := range sourceBones {
+		if _, ok := foundBones[b.Bone]; !ok {
+			foundBones[b.Bone] = b.Node
+			ext.Humanoid.Bones = append(ext.Humanoid.Bones, b)
+		}
+	}
+
 	for _, name := range vrm.RequiredBones {
 		if _, ok := foundBones[name]; ok {
 			continue
-- 
2.43.0


From aafe1460d42cb7b95cf27d731ceb95254d3b4395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:31:14 +0000
Subject: [PATCH 094/170] fix: detect spring bones without parent

---
 converter/vrmconfig.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/converter/vrmconfig.go b/converter/vrmconfig.go
index 2ef35ec..b669282 100644
--- a/converter/vrmconfig.go
+++ b/converter/vrmconfig.go
@@ -455,7 +455,10 @@ func DetectSpringBones(doc *gltf.Document, conf *Config) {
 	var nodeNames []string
 	for i, n := range doc.Nodes {
 		l := springLen(doc, n)
-		if l > 0 && springLen(doc, doc.Nodes[parents[i]]) < 0 {
+		if l <= 0 {
+			continue
+		}
+		if parent, ok := parents[i]; !ok || springLen(doc, doc.Nodes[parent]) < 0 {
 			log.Println("Add SpringBone:", i, n.Name)
 			nodeNames = append(nodeNames, n.Name)
 		}
-- 
2.43.0


From 4aa0d6fe3415cdad05311113aafb95520a78cf66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:32:53 +0000
Subject: [PATCH 095/170] fix: write the first person bone of VRM if it is the
 first node

---
 vrm/vrm.go | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/vrm/vrm.go b/vrm/vrm.go
index fa84be4..30900ed 100644
--- a/vrm/vrm.go
+++ b/vrm/vrm.go
@@ -1,6 +1,10 @@
 package vrm
 
-import "github.com/binzume/modelconv/geom"
+import (
+	"encoding/json"
+
+	"github.com/binzume/modelconv/geom"
+)
 
 type Quaternion = geom.Vector4
 
@@ -91,7 +95,7 @@ type Bone struct {
 }
 
 type FirstPerson struct {
-	FirstPersonBone       int                `json:"firstPersonBone,omitempty"`
+	FirstPersonBone       int                `json:"firstPersonBone"`
 	FirstPersonBoneOffset map[string]float64 `json:"firstPersonBoneOffset,omitempty"`
 
 	MeshAnnotations []interface{} `json:"meshAnnotations,omitempty"`
@@ -103,6 +107,16 @@ type FirstPerson struct {
 	LookAtVerticalUp      map[string]interface{} `json:"lookAtVerticalUp,omitempty"`
 }
 
+func (f *FirstPerson) UnmarshalJSON(data []byte) error {
+	type alias FirstPerson
+	tmp := alias{FirstPersonBone: -1} // none
+	if err := json.Unmarshal(data, &tmp); err != nil {
+		return err
+	}
+	*f = FirstPerson(tmp)
+	return nil
+}
+
 type BlendShapeMaster struct {
 	BlendShapeGroups []*BlendShapeGroup `json:"blendShapeGroups"`
 }
-- 
2.43.0


From 2c3c684d24b200dbfe19fdef10ce0fbabc8e36f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:36:33 +0000
Subject: [PATCH 096/170] fix: animation times have bounds in glTF

---
 converter/glbanim.go | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/converter/glbanim.go b/converter/glbanim.go
index 00f9aaf..3bf92f8 100644
--- a/converter/glbanim.go
+++ b/converter/glbanim.go
@@ -22,6 +22,18 @@ func keysEquals(a, b []uint32) bool {
 	return true
 }
 
+// writeKeyframes adds an accessor of times. (30 fps)
+func writeKeyframes(doc *gltf.Document, frames []uint32) uint32 {
+	var keys []float32
+	for _, k := range frames {
+		keys = append(keys, float32(k)/30)
+	}
+	acc := modeler.WriteAccessor(doc, gltf.TargetNone, keys)
+	doc.Accessors[acc].Min = []float32{keys[0]}
+	doc.Accessors[acc].Max = []float32{keys[len(keys)-1]}
+	return acc
+}
+
 func isDefaultRotations(samples []*mmd.Vector4) bool {
 	ident := mmd.Vector4{X: 0, Y: 0, Z: 0, W: 1}
 	for _, q := range samples {
@@ -60,11 +72,7 @@ func addBoneChannels(doc *gltf.Document, a *gltf.Animation, bones map[uint32]*mq
 			if prevCh != nil && keysEquals(channel.Frames, prevCh.Frames) {
 				keysAcc = prevKeysAcc
 			} else {
-				var keys []float32
-				for _, k := range channel.Frames {
-					keys = append(keys, float32(k)/30)
-				}
-				keysAcc = modeler.WriteAccessor(doc, gltf.TargetArrayBuffer, keys)
+				keysAcc = writeKeyframes(doc, channel.Frames)
 			}
 
 			var rot mqo.Vector3
@@ -210,12 +218,7 @@ func addMorphChannels(doc *gltf.Document, a *gltf.Animation, morphs map[string]*
 	}
 
 	for ni, mm := range nodeChannels {
-		var keys []float32
-		for _, k := range mm[0].Frames {
-			keys = append(keys, float32(k)/30)
-		}
-
-		sampleCount := len(keys)
+		sampleCount := len(mm[0].Frames)
 		sampleSize := targets[mm[0].Target][2]
 		weights := make([]uint8, sampleSize*sampleCount)
 
@@ -230,7 +233,7 @@ func addMorphChannels(doc *gltf.Document, a *gltf.Animation, morphs map[string]*
 		}
 		log.Print(doc.Nodes[ni], weights)
 
-		keysAcc := modeler.WriteAccessor(doc, gltf.TargetArrayBuffer, keys)
+		keysAcc := writeKeyframes(doc, mm[0].Frames)
 		weightsAcc := modeler.WriteAccessor(doc, gltf.TargetArrayBuffer, weights)
 		doc.Accessors[weightsAcc].Normalized = true
 
-- 
2.43.0


From ed4e239173929b79e3b551f98e768da2942096be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:36:35 +0000
Subject: [PATCH 097/170] fix: animated translations are relative to the parent
 bone

---
 converter/glbanim.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/converter/glbanim.go b/converter/glbanim.go
index 3bf92f8..2662a58 100644
--- a/converter/glbanim.go
+++ b/converter/glbanim.go
@@ -80,7 +80,7 @@ func addBoneChannels(doc *gltf.Document, a *gltf.Animation, bones map[uint32]*mq
 			qOffset := mqo.Vector4{X: 0, Y: 0, Z: 0, W: 1}
 			if b, ok := bones[uint32(n)]; ok {
 				rot = b.RotationOffset
-				pos = b.Pos.Vector3
+				pos = mqo.Vector3{X: doc.Nodes[n].Translation[0], Y: doc.Nodes[n].Translation[1], Z: doc.Nodes[n].Translation[2]}
 
 				if boneByID[b.Parent] != nil && b.RotationOffset.X != boneByID[b.Parent].RotationOffset.X {
 					// TODO rotation matrix
@@ -159,7 +159,7 @@ func addBoneChannels(doc *gltf.Document, a *gltf.Animation, bones map[uint32]*mq
 				if *s != (mmd.Vector3{X: 0, Y: 0, Z: 0}) {
 					translate = true
 				}
-				translations = append(translations, [3]float32{pos.X*0.001 + r[0], pos.Y*0.001 + r[1], pos.Z*0.001 + r[2]})
+				translations = append(translations, [3]float32{pos.X + r[0], pos.Y + r[1], pos.Z + r[2]})
 			}
 			if translate {
 				log.Println("Translate channel:", channel.Target)
-- 
2.43.0


From 376ec9704082fd6414594ba4db08dbecb0288778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:36:36 +0000
Subject: [PATCH 098/170] fix: animation channels have the same order in every
 conversion

---
 converter/glbanim.go | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/converter/glbanim.go b/converter/glbanim.go
index 2662a58..a416a9c 100644
--- a/converter/glbanim.go
+++ b/converter/glbanim.go
@@ -3,6 +3,7 @@ package converter
 import (
 	"log"
 	"math"
+	"sort"
 
 	"github.com/binzume/modelconv/mmd"
 	"github.com/binzume/modelconv/mqo"
@@ -66,7 +67,13 @@ func addBoneChannels(doc *gltf.Document, a *gltf.Animation, bones map[uint32]*mq
 
 	var prevCh *mmd.BoneChannel
 	var prevKeysAcc uint32
-	for _, channel := range bb {
+	var names []string
+	for name := range bb {
+		names = append(names, name)
+	}
+	sort.Strings(names)
+	for _, name := range names {
+		channel := bb[name]
 		if n, ok := boneToNode[channel.Target]; ok {
 			var keysAcc uint32
 			if prevCh != nil && keysEquals(channel.Frames, prevCh.Frames) {
@@ -210,14 +217,24 @@ func addMorphChannels(doc *gltf.Document, a *gltf.Animation, morphs map[string]*
 	}
 
 	nodeChannels := map[int][]*mmd.MorphChannel{}
-	for _, m := range morphs {
+	var names []string
+	for name := range morphs {
+		names = append(names, name)
+	}
+	sort.Strings(names)
+	for _, name := range names {
+		m := morphs[name]
 		if _, exits := targets[m.Target]; !exits {
 			continue
 		}
 		nodeChannels[targets[m.Target][0]] = append(nodeChannels[targets[m.Target][0]], m)
 	}
 
-	for ni, mm := range nodeChannels {
+	for ni := range doc.Nodes {
+		mm := nodeChannels[ni]
+		if len(mm) == 0 {
+			continue
+		}
 		sampleCount := len(mm[0].Frames)
 		sampleSize := targets[mm[0].Target][2]
 		weights := make([]uint8, sampleSize*sampleCount)
-- 
2.43.0


From 2a122f1364c0d20404879f0bedd75c8abd027c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:36:38 +0000
Subject: [PATCH 099/170] fix: animate morphs that have different key frames

---
 converter/glbanim.go | 42 +++++++++++++++++++++++++++++++++---------
 1 file changed, 33 insertions(+), 9 deletions(-)

diff --git a/converter/glbanim.go b/converter/glbanim.go
index a416a9c..cbfe615 100644
--- a/converter/glbanim.go
+++ b/converter/glbanim.go
@@ -196,6 +196,34 @@ func addBoneChannels(doc *gltf.Document, a *gltf.Animation, bones map[uint32]*mq
 	}
 }
 
+// mergeFrames returns the frames of all channels in order.
+func mergeFrames(channels []*mmd.MorphChannel) []uint32 {
+	exists := map[uint32]bool{}
+	var frames []uint32
+	for _, m := range channels {
+		for _, f := range m.Frames {
+			if !exists[f] {
+				exists[f] = true
+				frames = append(frames, f)
+			}
+		}
+	}
+	sort.Slice(frames, func(i, j int) bool { return frames[i] < frames[j] })
+	return frames
+}
+
+func morphWeight(m *mmd.MorphChannel, frame uint32) float32 {
+	i := sort.Search(len(m.Frames), func(i int) bool { return m.Frames[i] >= frame })
+	if i == len(m.Frames) {
+		return m.Weights[i-1]
+	}
+	if i == 0 || m.Frames[i] == frame {
+		return m.Weights[i]
+	}
+	t := float32(frame-m.Frames[i-1]) / float32(m.Frames[i]-m.Frames[i-1])
+	return m.Weights[i-1]*(1-t) + m.Weights[i]*t
+}
+
 func addMorphChannels(doc *gltf.Document, a *gltf.Animation, morphs map[string]*mmd.MorphChannel) {
 	targets := map[string][3]int{} // targetName => [node, targetIndex]
 	for i, n := range doc.Nodes {
@@ -235,22 +263,18 @@ func addMorphChannels(doc *gltf.Document, a *gltf.Animation, morphs map[string]*
 		if len(mm) == 0 {
 			continue
 		}
-		sampleCount := len(mm[0].Frames)
+		frames := mergeFrames(mm)
 		sampleSize := targets[mm[0].Target][2]
-		weights := make([]uint8, sampleSize*sampleCount)
+		weights := make([]uint8, sampleSize*len(frames))
 
 		for _, m := range mm {
-			if len(m.Frames) != sampleCount {
-				log.Print("TODO: resample", m.Target, len(m.Frames), sampleCount)
-				continue
-			}
-			for f, v := range m.Weights {
-				weights[f*sampleSize+targets[m.Target][1]] = uint8(v * 255)
+			for i, f := range frames {
+				weights[i*sampleSize+targets[m.Target][1]] = uint8(morphWeight(m, f) * 255)
 			}
 		}
 		log.Print(doc.Nodes[ni], weights)
 
-		keysAcc := writeKeyframes(doc, mm[0].Frames)
+		keysAcc := writeKeyframes(doc, frames)
 		weightsAcc := modeler.WriteAccessor(doc, gltf.TargetArrayBuffer, weights)
 		doc.Accessors[weightsAcc].Normalized = true
 
-- 
2.43.0


From 69ab45c6f16266b94aca98fdfe9db9c540cc2f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:36:39 +0000
Subject: [PATCH 100/170] fix: keep the values of animated morphs

---
 converter/glbanim.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/converter/glbanim.go b/converter/glbanim.go
index cbfe615..3b178ec 100644
--- a/converter/glbanim.go
+++ b/converter/glbanim.go
@@ -265,18 +265,17 @@ func addMorphChannels(doc *gltf.Document, a *gltf.Animation, morphs map[string]*
 		}
 		frames := mergeFrames(mm)
 		sampleSize := targets[mm[0].Target][2]
-		weights := make([]uint8, sampleSize*len(frames))
+		weights := make([]float32, sampleSize*len(frames))
 
 		for _, m := range mm {
 			for i, f := range frames {
-				weights[i*sampleSize+targets[m.Target][1]] = uint8(morphWeight(m, f) * 255)
+				weights[i*sampleSize+targets[m.Target][1]] = morphWeight(m, f)
 			}
 		}
 		log.Print(doc.Nodes[ni], weights)
 
 		keysAcc := writeKeyframes(doc, frames)
-		weightsAcc := modeler.WriteAccessor(doc, gltf.TargetArrayBuffer, weights)
-		doc.Accessors[weightsAcc].Normalized = true
+		weightsAcc := modeler.WriteAccessor(doc, gltf.TargetNone, weights)
 
 		a.Samplers = append(a.Samplers, &gltf.AnimationSampler{
 			Input:         gltf.Index(uint32(keysAcc)),
-- 
2.43.0


From 7f9f004bebcd03bd1a4e6d9ae682b5db5397a4bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:38:59 +0000
Subject: [PATCH 101/170] fix: turn all descendants of a bone whatever their
 order

---
 mqo/bone_plugin.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/mqo/bone_plugin.go b/mqo/bone_plugin.go
index f16e20e..f4ec7ee 100644
--- a/mqo/bone_plugin.go
+++ b/mqo/bone_plugin.go
@@ -255,11 +255,13 @@ func (doc *Document) BoneTransform(baseBone *Bone, rot *geom.Quaternion, boneFn
 	}
 	boneFn(baseBone)
 
-	// broken if bone.Parent > bone.ID ...
-	for _, b := range bones {
-		if b.Parent > 0 && targetBones[boneByID[b.Parent]] && !targetBones[b] {
-			boneFn(b)
-			targetBones[b] = true
+	for n := 0; n != len(targetBones); {
+		n = len(targetBones)
+		for _, b := range bones {
+			if b.Parent > 0 && targetBones[boneByID[b.Parent]] && !targetBones[b] {
+				boneFn(b)
+				targetBones[b] = true
+			}
 		}
 	}
 
-- 
2.43.0


From 01bf568bb8add553162d951906b7c612ec83eb58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:39:26 +0000
Subject: [PATCH 102/170] fix: animate bones whose rest pose was rotated

---
 converter/glbanim.go | 68 ++++++++++++--------------------------------
 1 file changed, 18 insertions(+), 50 deletions(-)

diff --git a/converter/glbanim.go b/converter/glbanim.go
index 3b178ec..52fe681 100644
--- a/converter/glbanim.go
+++ b/converter/glbanim.go
@@ -5,6 +5,7 @@ import (
 	"math"
 	"sort"
 
+	"github.com/binzume/modelconv/geom"
 	"github.com/binzume/modelconv/mmd"
 	"github.com/binzume/modelconv/mqo"
 	"github.com/qmuntal/gltf"
@@ -45,6 +46,12 @@ func isDefaultRotations(samples []*mmd.Vector4) bool {
 	return true
 }
 
+func rotationOffset(r *mqo.Vector3) *geom.Quaternion {
+	y, z := float64(r.Y)/2, float64(r.X)/2
+	return geom.NewQuaternion(0, 0, float32(math.Sin(z)), float32(math.Cos(z))).Mul(
+		geom.NewQuaternion(0, float32(math.Sin(y)), 0, float32(math.Cos(y))))
+}
+
 func addBoneChannels(doc *gltf.Document, a *gltf.Animation, bones map[uint32]*mqo.Bone, bb map[string]*mmd.BoneChannel) {
 	var scale float32 = 80 * 0.001
 
@@ -82,47 +89,20 @@ func addBoneChannels(doc *gltf.Document, a *gltf.Animation, bones map[uint32]*mq
 				keysAcc = writeKeyframes(doc, channel.Frames)
 			}
 
-			var rot mqo.Vector3
-			var pos mqo.Vector3
-			qOffset := mqo.Vector4{X: 0, Y: 0, Z: 0, W: 1}
-			if b, ok := bones[uint32(n)]; ok {
-				rot = b.RotationOffset
-				pos = mqo.Vector3{X: doc.Nodes[n].Translation[0], Y: doc.Nodes[n].Translation[1], Z: doc.Nodes[n].Translation[2]}
-
-				if boneByID[b.Parent] != nil && b.RotationOffset.X != boneByID[b.Parent].RotationOffset.X {
-					// TODO rotation matrix
-					d := (boneByID[b.Parent].RotationOffset.X - b.RotationOffset.X) * float32(math.Cos(float64(boneByID[b.Parent].RotationOffset.Y)))
-					qOffset = mqo.Vector4{X: 0, Y: 0, Z: float32(math.Sin(float64(d / 2))), W: float32(math.Cos(float64(d / 2)))}
-					log.Println("rotation offset", qOffset)
-				}
+			// rotation of the rest pose (see mqo.Document.BoneAdjustX)
+			b := bones[uint32(n)]
+			offset := rotationOffset(&b.RotationOffset)
+			parentOffset := rotationOffset(&mqo.Vector3{Y: b.RotationOffset.Y})
+			if parent := boneByID[b.Parent]; parent != nil {
+				parentOffset = rotationOffset(&parent.RotationOffset)
 			}
-
-			// TODO rotation matrix
-			cosRotY := float32(math.Cos(float64(rot.Y)))
-			sinRotY := float32(math.Sin(float64(rot.Y)))
-			cosRotX := float32(math.Cos(float64(rot.X)))
-			sinRotX := float32(math.Sin(float64(rot.X)))
+			pos := mqo.Vector3{X: doc.Nodes[n].Translation[0], Y: doc.Nodes[n].Translation[1], Z: doc.Nodes[n].Translation[2]}
 
 			rotate := false
 			var rotations [][4]float32
 			for _, ms := range channel.Rotations {
-				s := (&mqo.Vector4{X: ms.X, Y: ms.Y, Z: ms.Z, W: ms.W}).Mul(&qOffset)
-				r := [4]float32{-s.X, -s.Y, s.Z, s.W}
-
-				r = [4]float32{
-					r[0]*cosRotY - r[2]*sinRotY,
-					r[1],
-					r[0]*sinRotY + r[2]*cosRotY,
-					r[3],
-				}
-
-				r = [4]float32{
-					r[0]*cosRotX - r[1]*sinRotX,
-					r[0]*sinRotX + r[1]*cosRotX,
-					r[2],
-					r[3],
-				}
-
+				q := parentOffset.Mul(&mqo.Vector4{X: -ms.X, Y: -ms.Y, Z: ms.Z, W: ms.W}).Mul(offset.Inverse())
+				r := [4]float32{q.X, q.Y, q.Z, q.W}
 				if r != [4]float32{0, 0, 0, 1} {
 					rotate = true
 				}
@@ -150,23 +130,11 @@ func addBoneChannels(doc *gltf.Document, a *gltf.Animation, bones map[uint32]*mq
 			translate := false
 			var translations [][3]float32
 			for _, s := range channel.Positions {
-				r := [3]float32{s.X * scale, s.Y * scale, -s.Z * scale}
-
-				r = [3]float32{
-					r[0]*cosRotY - r[2]*sinRotY,
-					r[1],
-					r[0]*sinRotY + r[2]*cosRotY,
-				}
-
-				r = [3]float32{
-					r[0]*cosRotX - r[1]*sinRotX,
-					r[0]*sinRotX + r[1]*cosRotX,
-					r[2],
-				}
+				r := parentOffset.ApplyTo(&mqo.Vector3{X: s.X * scale, Y: s.Y * scale, Z: -s.Z * scale})
 				if *s != (mmd.Vector3{X: 0, Y: 0, Z: 0}) {
 					translate = true
 				}
-				translations = append(translations, [3]float32{pos.X + r[0], pos.Y + r[1], pos.Z + r[2]})
+				translations = append(translations, [3]float32{pos.X + r.X, pos.Y + r.Y, pos.Z + r.Z})
 			}
 			if translate {
 				log.Println("Translate channel:", channel.Target)
-- 
2.43.0


From 92263d3f8afa244ad1b5f96c8d638b92cb6ba572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:45:10 +0000
Subject: [PATCH 103/170] fix: keep the alpha mode of glTF materials

---
 converter/gltf2mqo.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/converter/gltf2mqo.go b/converter/gltf2mqo.go
index 837204d..8f7d588 100644
--- a/converter/gltf2mqo.go
+++ b/converter/gltf2mqo.go
@@ -35,8 +35,8 @@ func (c *gltfToMqo) convertMaterial(src *gltf.Document, m *gltf.Material) *mqo.M
 		ShaderType: "hlsl",
 		ShaderName: "glTF",
 		ShaderParams: map[string]interface{}{
-			"AlphaMode":   m.AlphaMode,
-			"AlphaCutoff": m.AlphaCutoffOrDefault(),
+			"AlphaMode":   int(m.AlphaMode) + mqo.AlphaModeOpaque,
+			"AlphaCutOff": m.AlphaCutoffOrDefault(),
 		},
 	}
 	if m.PBRMetallicRoughness != nil {
-- 
2.43.0


From 4606cb04dbb921b360e723d1f4c294da1770c2c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:45:11 +0000
Subject: [PATCH 104/170] fix: glTF materials without parameters are white

---
 converter/gltf2mqo.go | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/converter/gltf2mqo.go b/converter/gltf2mqo.go
index 8f7d588..00d067e 100644
--- a/converter/gltf2mqo.go
+++ b/converter/gltf2mqo.go
@@ -39,16 +39,18 @@ func (c *gltfToMqo) convertMaterial(src *gltf.Document, m *gltf.Material) *mqo.M
 			"AlphaCutOff": m.AlphaCutoffOrDefault(),
 		},
 	}
-	if m.PBRMetallicRoughness != nil {
-		col := m.PBRMetallicRoughness.BaseColorFactorOrDefault()
-		mat.Color = mqo.Vector4{X: col[0], Y: col[1], Z: col[2], W: col[3]}
-		mat.Specular = m.PBRMetallicRoughness.MetallicFactorOrDefault()
-		mat.Ex2.ShaderParams["Metallic"] = m.PBRMetallicRoughness.MetallicFactorOrDefault()
-		mat.Ex2.ShaderParams["Roughness"] = m.PBRMetallicRoughness.RoughnessFactorOrDefault()
-		if m.PBRMetallicRoughness.BaseColorTexture != nil {
-			i := m.PBRMetallicRoughness.BaseColorTexture.Index
-			mat.Texture = src.Images[*src.Textures[i].Source].URI
-		}
+	pbr := m.PBRMetallicRoughness
+	if pbr == nil {
+		pbr = &gltf.PBRMetallicRoughness{}
+	}
+	col := pbr.BaseColorFactorOrDefault()
+	mat.Color = mqo.Vector4{X: col[0], Y: col[1], Z: col[2], W: col[3]}
+	mat.Specular = pbr.MetallicFactorOrDefault()
+	mat.Ex2.ShaderParams["Metallic"] = pbr.MetallicFactorOrDefault()
+	mat.Ex2.ShaderParams["Roughness"] = pbr.RoughnessFactorOrDefault()
+	if pbr.BaseColorTexture != nil {
+		i := pbr.BaseColorTexture.Index
+		mat.Texture = src.Images[*src.Textures[i].Source].URI
 	}
 	return mat
 }
-- 
2.43.0


From ae94206de0f288699385512133ffa31130a1f1a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:45:12 +0000
Subject: [PATCH 105/170] fix: texture paths of glTF materials are URIs

---
 converter/gltf2mqo.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/converter/gltf2mqo.go b/converter/gltf2mqo.go
index 00d067e..0a27f9a 100644
--- a/converter/gltf2mqo.go
+++ b/converter/gltf2mqo.go
@@ -2,6 +2,8 @@ package converter
 
 import (
 	"log"
+	"net/url"
+	"strings"
 
 	"github.com/binzume/modelconv/geom"
 	"github.com/binzume/modelconv/mqo"
@@ -50,7 +52,12 @@ func (c *gltfToMqo) convertMaterial(src *gltf.Document, m *gltf.Material) *mqo.M
 	mat.Ex2.ShaderParams["Roughness"] = pbr.RoughnessFactorOrDefault()
 	if pbr.BaseColorTexture != nil {
 		i := pbr.BaseColorTexture.Index
-		mat.Texture = src.Images[*src.Textures[i].Source].URI
+		if source := src.Textures[i].Source; source != nil && !strings.HasPrefix(src.Images[*source].URI, "data:") {
+			mat.Texture = src.Images[*source].URI
+			if path, err := url.PathUnescape(mat.Texture); err == nil {
+				mat.Texture = path
+			}
+		}
 	}
 	return mat
 }
-- 
2.43.0


From 22a01907fa952ec7a1c325ec500ff914f6714dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:45:14 +0000
Subject: [PATCH 106/170] fix: convert all triangles of glTF meshes

---
 converter/gltf2mqo.go | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/converter/gltf2mqo.go b/converter/gltf2mqo.go
index 0a27f9a..9a32229 100644
--- a/converter/gltf2mqo.go
+++ b/converter/gltf2mqo.go
@@ -65,9 +65,11 @@ func (c *gltfToMqo) convertMaterial(src *gltf.Document, m *gltf.Material) *mqo.M
 func (c *gltfToMqo) convertMesh(src *gltf.Document, m *gltf.Mesh) *mqo.Object {
 	obj := mqo.NewObject(m.Name)
 	for _, p := range m.Primitives {
-		if p.Indices == nil {
+		if p.Mode != gltf.PrimitiveTriangles {
+			log.Print("unsupported primitive mode: ", p.Mode)
 			continue
 		}
+		vertexOffset := len(obj.Vertexes)
 		if a, ok := p.Attributes["POSITION"]; ok {
 			acr := src.Accessors[a]
 			pos, err := modeler.ReadPosition(src, acr, [][3]float32{})
@@ -89,18 +91,25 @@ func (c *gltfToMqo) convertMesh(src *gltf.Document, m *gltf.Mesh) *mqo.Object {
 				continue
 			}
 		}
-		acr := src.Accessors[*p.Indices]
-		indices, err := modeler.ReadIndices(src, acr, []uint32{})
-		if err != nil {
-			log.Fatalf("err %v", err)
-			continue
+		var indices []uint32
+		if p.Indices != nil {
+			var err error
+			indices, err = modeler.ReadIndices(src, src.Accessors[*p.Indices], []uint32{})
+			if err != nil {
+				log.Fatalf("err %v", err)
+				continue
+			}
+		} else {
+			for i := vertexOffset; i < len(obj.Vertexes); i++ {
+				indices = append(indices, uint32(i-vertexOffset))
+			}
 		}
-		mat := 0
+		mat := -1
 		if p.Material != nil {
 			mat = int(*p.Material)
 		}
 		for i := 0; i < len(indices)/3; i++ {
-			f := &mqo.Face{Material: mat, Verts: []int{int(indices[i*3]), int(indices[i*3+2]), int(indices[i*3+1])}}
+			f := &mqo.Face{Material: mat, Verts: []int{vertexOffset + int(indices[i*3]), vertexOffset + int(indices[i*3+2]), vertexOffset + int(indices[i*3+1])}}
 			if len(texCoord) > int(indices[i*3]) {
 				f.UVs = []mqo.Vector2{
 					{X: texCoord[indices[i*3]][0], Y: texCoord[indices[i*3]][1]},
-- 
2.43.0


From 219413b90bf8d4106a0de3d31a414c316f978683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:45:15 +0000
Subject: [PATCH 107/170] fix: place glTF meshes where their nodes are

---
 converter/gltf2mqo.go  | 17 +++++++++++++++--
 gltfutil/gltf_joint.go |  8 ++++----
 2 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/converter/gltf2mqo.go b/converter/gltf2mqo.go
index 9a32229..294d5ca 100644
--- a/converter/gltf2mqo.go
+++ b/converter/gltf2mqo.go
@@ -6,6 +6,7 @@ import (
 	"strings"
 
 	"github.com/binzume/modelconv/geom"
+	"github.com/binzume/modelconv/gltfutil"
 	"github.com/binzume/modelconv/mqo"
 	"github.com/qmuntal/gltf"
 	"github.com/qmuntal/gltf/modeler"
@@ -149,9 +150,21 @@ func (c *gltfToMqo) Convert(src *gltf.Document) (*mqo.Document, error) {
 		mqdoc.Materials = append(mqdoc.Materials, c.convertMaterial(src, mat))
 	}
 
-	for _, node := range src.Nodes {
+	mats := gltfutil.NodeMatrices(src)
+	for i, node := range src.Nodes {
 		if node.Mesh != nil {
-			mqdoc.Objects = append(mqdoc.Objects, c.convertMesh(src, src.Meshes[*node.Mesh]))
+			obj := c.convertMesh(src, src.Meshes[*node.Mesh])
+			if node.Skin == nil {
+				for _, v := range obj.Vertexes {
+					*v = *mats[i].ApplyTo(v)
+				}
+				if mats[i].Det() < 0 {
+					for _, f := range obj.Faces {
+						f.Flip()
+					}
+				}
+			}
+			mqdoc.Objects = append(mqdoc.Objects, obj)
 		}
 	}
 
diff --git a/gltfutil/gltf_joint.go b/gltfutil/gltf_joint.go
index a3369f7..059eedb 100644
--- a/gltfutil/gltf_joint.go
+++ b/gltfutil/gltf_joint.go
@@ -27,8 +27,8 @@ func writeMatrix(data []byte, mat [16]float32) {
 	}
 }
 
-// nodeMatrices returns the world matrices of all nodes.
-func nodeMatrices(doc *gltf.Document) []*geom.Matrix4 {
+// NodeMatrices returns the world matrices of all nodes.
+func NodeMatrices(doc *gltf.Document) []*geom.Matrix4 {
 	parents := make([]*uint32, len(doc.Nodes))
 	for i, node := range doc.Nodes {
 		for _, c := range node.Children {
@@ -57,7 +57,7 @@ func localMatrix(node *gltf.Node) *geom.Matrix4 {
 }
 
 func ResetJointMatrix(doc *gltf.Document) {
-	oldMatrices := nodeMatrices(doc)
+	oldMatrices := NodeMatrices(doc)
 
 	for _, node := range doc.Nodes {
 		if mat := node.MatrixOrDefault(); mat != gltf.DefaultMatrix {
@@ -106,7 +106,7 @@ func ResetJointMatrix(doc *gltf.Document) {
 	}
 
 	// Keep the skins in place: newMatrix * newIBM = oldMatrix * oldIBM
-	newMatrices := nodeMatrices(doc)
+	newMatrices := NodeMatrices(doc)
 	fixed := map[uint32]bool{}
 	for _, skin := range doc.Skins {
 		if skin.InverseBindMatrices == nil {
-- 
2.43.0


From 08924266288fd88913ebad73a990f57d24c4e5b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:45:17 +0000
Subject: [PATCH 108/170] fix: glTF joints become bones where they are

---
 converter/gltf2mqo.go | 55 ++++++++++++++++++++++++++++---------------
 1 file changed, 36 insertions(+), 19 deletions(-)

diff --git a/converter/gltf2mqo.go b/converter/gltf2mqo.go
index 294d5ca..337ff00 100644
--- a/converter/gltf2mqo.go
+++ b/converter/gltf2mqo.go
@@ -123,22 +123,21 @@ func (c *gltfToMqo) convertMesh(src *gltf.Document, m *gltf.Mesh) *mqo.Object {
 	return obj
 }
 
-func (c *gltfToMqo) convertBones(src *gltf.Document, node uint32, parent int, bones []*mqo.Bone) []*mqo.Bone {
+func (c *gltfToMqo) convertBones(src *gltf.Document, node uint32, parent int, targets map[uint32]bool, mats []*geom.Matrix4, bones []*mqo.Bone) []*mqo.Bone {
 	n := src.Nodes[node]
-	pos := geom.NewVector3FromArray(n.Translation)
-	if parent > 0 {
-		pos = pos.Add(&bones[parent-1].Pos.Vector3)
-	}
-	b := &mqo.Bone{
-		ID:     len(bones) + 1,
-		Name:   n.Name,
-		Group:  0,
-		Pos:    mqo.Vector3Attr{Vector3: *pos},
-		Parent: parent,
+	if targets[node] {
+		b := &mqo.Bone{
+			ID:     len(bones) + 1,
+			Name:   n.Name,
+			Group:  0,
+			Pos:    mqo.Vector3Attr{Vector3: *mats[node].ApplyTo(&geom.Vector3{})},
+			Parent: parent,
+		}
+		bones = append(bones, b)
+		parent = b.ID
 	}
-	bones = append(bones, b)
 	for _, child := range n.Children {
-		bones = c.convertBones(src, child, b.ID, bones)
+		bones = c.convertBones(src, child, parent, targets, mats, bones)
 	}
 	return bones
 }
@@ -168,14 +167,32 @@ func (c *gltfToMqo) Convert(src *gltf.Document) (*mqo.Document, error) {
 		}
 	}
 
-	bonemap := map[uint32]bool{}
-	var bones []*mqo.Bone
+	targets := map[uint32]bool{}
+	var addTree func(node uint32)
+	addTree = func(node uint32) {
+		targets[node] = true
+		for _, child := range src.Nodes[node].Children {
+			addTree(child)
+		}
+	}
 	for _, skin := range src.Skins {
+		for _, joint := range skin.Joints {
+			targets[joint] = true
+		}
 		if skin.Skeleton != nil {
-			if _, exist := bonemap[*skin.Skeleton]; !exist {
-				bonemap[*skin.Skeleton] = true
-				bones = c.convertBones(src, *skin.Skeleton, 0, bones)
-			}
+			addTree(*skin.Skeleton)
+		}
+	}
+	hasParent := map[uint32]bool{}
+	for _, node := range src.Nodes {
+		for _, child := range node.Children {
+			hasParent[child] = true
+		}
+	}
+	var bones []*mqo.Bone
+	for i := range src.Nodes {
+		if !hasParent[uint32(i)] {
+			bones = c.convertBones(src, uint32(i), 0, targets, mats, bones)
 		}
 	}
 	mqo.GetBonePlugin(mqdoc).SetBones(bones)
-- 
2.43.0


From 3b47052042be90f2e4619d73ee2c22ebfb084295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:54:36 +0000
Subject: [PATCH 109/170] fix: remove the temporary directory when a package
 cannot be opened

---
 unity/unity_assets.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/unity/unity_assets.go b/unity/unity_assets.go
index 98e357e..6971aa2 100644
--- a/unity/unity_assets.go
+++ b/unity/unity_assets.go
@@ -71,9 +71,15 @@ func OpenPackage(packagePath string) (Assets, error) {
 	}
 	err = extractPackage(packagePath, tmpDir)
 	if err != nil {
+		os.RemoveAll(tmpDir)
 		return nil, err
 	}
-	return scanPackage(tmpDir, true, packagePath)
+	pkg, err := scanPackage(tmpDir, true, packagePath)
+	if err != nil {
+		os.RemoveAll(tmpDir)
+		return nil, err
+	}
+	return pkg, nil
 }
 
 type assets struct {
-- 
2.43.0


From 5180613f0a3dce9d4bf3bc3c2859eaf36c15b0f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:54:38 +0000
Subject: [PATCH 110/170] fix: refuse package entries that lead out of the
 temporary directory

---
 unity/unity_assets.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/unity/unity_assets.go b/unity/unity_assets.go
index 6971aa2..bf14102 100644
--- a/unity/unity_assets.go
+++ b/unity/unity_assets.go
@@ -3,6 +3,7 @@ package unity
 import (
 	"archive/tar"
 	"compress/gzip"
+	"fmt"
 	"io"
 	"io/fs"
 	"io/ioutil"
@@ -216,6 +217,9 @@ func extractPackage(pacakage, dst string) error {
 		}
 
 		name := filepath.Join(dst, header.Name)
+		if name != filepath.Clean(dst) && !strings.HasPrefix(name, filepath.Clean(dst)+string(filepath.Separator)) {
+			return fmt.Errorf("invalid path in package: %s", header.Name)
+		}
 
 		switch header.Typeflag {
 		case tar.TypeDir:
-- 
2.43.0


From 6106f3628263b74dba863cb9cc70ff417e251d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:54:39 +0000
Subject: [PATCH 111/170] fix: extract packages that have no directory entries

---
 unity/unity_assets.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/unity/unity_assets.go b/unity/unity_assets.go
index bf14102..c23bd4e 100644
--- a/unity/unity_assets.go
+++ b/unity/unity_assets.go
@@ -229,6 +229,9 @@ func extractPackage(pacakage, dst string) error {
 				}
 			}
 		case tar.TypeReg:
+			if err := os.MkdirAll(filepath.Dir(name), 0755); err != nil {
+				return err
+			}
 			f, err := os.Create(name)
 			if err != nil {
 				return err
-- 
2.43.0


From 4559abb24b3e74d35bdc5205bf509134c7aebdc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:54:41 +0000
Subject: [PATCH 112/170] fix: the path of a packaged asset is the first line
 of its pathname file

---
 unity/unity_assets.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/unity/unity_assets.go b/unity/unity_assets.go
index c23bd4e..6ff44a9 100644
--- a/unity/unity_assets.go
+++ b/unity/unity_assets.go
@@ -175,7 +175,8 @@ func scanPackage(packageDir string, tmp bool, originalPath string) (*packageFs,
 		if err != nil {
 			return nil, err
 		}
-		path := string(b)
+		// first line only. (the second line is "00" in some packages)
+		path := strings.TrimRight(strings.SplitN(string(b), "\n", 2)[0], "\r")
 		guid := f.Name()
 		asset := &Asset{
 			GUID: guid,
-- 
2.43.0


From ecb57d8219cd320e593c0c15228fa244443b4e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:09:23 +0000
Subject: [PATCH 113/170] fix: prefab overrides keep names that look like
 numbers

---
 unity/unity.go       |  8 ++++----
 unity/unity_scene.go | 10 ++--------
 2 files changed, 6 insertions(+), 12 deletions(-)

diff --git a/unity/unity.go b/unity/unity.go
index c205f46..80a2f2a 100644
--- a/unity/unity.go
+++ b/unity/unity.go
@@ -117,10 +117,10 @@ func (o *GameObject) GetTransform() *Transform {
 type PrefabInstance struct {
 	Modification struct {
 		Modifications []struct {
-			Target          *Ref        `yaml:"target"`
-			PropertyPath    string      `yaml:"propertyPath"`
-			Value           interface{} `yaml:"value"`
-			ObjectReference *Ref        `yaml:"objectReference"`
+			Target          *Ref   `yaml:"target"`
+			PropertyPath    string `yaml:"propertyPath"`
+			Value           string `yaml:"value"`
+			ObjectReference *Ref   `yaml:"objectReference"`
 		} `yaml:"m_Modifications"`
 		TransformParent   *Ref          `yaml:"m_TransformParent"`
 		RemovedComponents []interface{} `yaml:"m_RemovedComponents"`
diff --git a/unity/unity_scene.go b/unity/unity_scene.go
index 1008096..8f82dbf 100644
--- a/unity/unity_scene.go
+++ b/unity/unity_scene.go
@@ -118,13 +118,7 @@ func LoadSceneAsset(assets Assets, sceneAsset *Asset) (*Scene, error) {
 					continue
 				}
 				var flaotValue float32
-				if v, ok := mod.Value.(float32); ok {
-					flaotValue = v
-				} else if v, ok := mod.Value.(float64); ok {
-					flaotValue = float32(v)
-				} else if v, ok := mod.Value.(int64); ok {
-					flaotValue = float32(v)
-				} else if v, ok := mod.Value.(int); ok {
+				if v, err := strconv.ParseFloat(mod.Value, 32); err == nil {
 					flaotValue = float32(v)
 				}
 				prop := strings.Split(mod.PropertyPath, ".")
@@ -148,7 +142,7 @@ func LoadSceneAsset(assets Assets, sceneAsset *Asset) (*Scene, error) {
 							} else if v, ok := field.(**Ref); ok {
 								*v = mod.ObjectReference
 							} else if v, ok := field.(*string); ok {
-								*v, _ = mod.Value.(string)
+								*v = mod.Value
 							} else if v, ok := field.(*Vector3); ok && len(prop) == 2 {
 								if prop[1] == "x" {
 									v.X = flaotValue
-- 
2.43.0


From 6d18e67638a761528add42eb3e438e24b1b6ec8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:09:25 +0000
Subject: [PATCH 114/170] fix: keep the objects added to prefab instances and
 instances of prefab variants

---
 unity/unity.go       |  7 +++++--
 unity/unity_scene.go | 27 +++++++++------------------
 2 files changed, 14 insertions(+), 20 deletions(-)

diff --git a/unity/unity.go b/unity/unity.go
index 80a2f2a..8579500 100644
--- a/unity/unity.go
+++ b/unity/unity.go
@@ -42,8 +42,11 @@ func (s *Scene) GetTransform(ref *Ref, prefabInstance *Ref) *Transform {
 	if t, ok := s.GetElement2(ref, prefabInstance).(*Transform); ok {
 		// stripped.
 		if !t.GameObject.IsValid() && t.CorrespondingSourceObject.IsValid() {
-			if t2, ok := t.Scene.GetElement2(t.CorrespondingSourceObject, t.PrefabInstance).(*Transform); ok {
-				return t2
+			if prefab, ok := t.Scene.GetElement(t.PrefabInstance).(*PrefabInstance); ok {
+				// The source may be stripped too.
+				if t2 := prefab.PrefabScene.GetTransform(t.CorrespondingSourceObject, nil); t2 != nil {
+					return t2
+				}
 			}
 		}
 		return t
diff --git a/unity/unity_scene.go b/unity/unity_scene.go
index 8f82dbf..988bfd4 100644
--- a/unity/unity_scene.go
+++ b/unity/unity_scene.go
@@ -57,8 +57,6 @@ func LoadSceneAsset(assets Assets, sceneAsset *Asset) (*Scene, error) {
 	scene := NewScene(assets, sceneAsset.GUID)
 	var objects []*GameObject
 
-	addedChildren := map[Ref][]*Transform{}
-
 	for _, doc := range ParseYamlDocuments(b) {
 		var element Element
 		fileId, _ := strconv.ParseInt(doc.refID, 10, 64)
@@ -104,11 +102,6 @@ func LoadSceneAsset(assets Assets, sceneAsset *Asset) (*Scene, error) {
 				if tr != nil {
 					tr.Father = *prefab.Modification.TransformParent
 					tr.Father.GUID = scene.GUID
-					for _, c := range root.Components {
-						if _, ok := s.GetElement2(&c.Ref, root.PrefabInstance).(*Transform); ok {
-							addedChildren[tr.Father] = append(addedChildren[tr.Father], tr)
-						}
-					}
 				}
 				objects = append(objects, root)
 			}
@@ -198,21 +191,19 @@ func LoadSceneAsset(assets Assets, sceneAsset *Asset) (*Scene, error) {
 		// log.Println("obj", a, err)
 	}
 
-	// Root objects
 	for i, obj := range objects {
 		tr := obj.GetTransform()
-		if tr != nil && !tr.Father.IsValid() && !obj.CorrespondingSourceObject.IsValid() {
-			scene.Objects = append(scene.Objects, objects[i])
-		}
-	}
-
-	for pref, children := range addedChildren {
-		parent := scene.GetTransform(&pref, nil)
-		if parent == nil {
+		if tr == nil {
 			continue
 		}
-		for _, child := range children {
-			parent.AddChild(child)
+		if tr.Father.IsValid() {
+			// A prefab does not list the children that were added to its instance.
+			if parent := scene.GetTransform(&tr.Father, nil); parent != nil {
+				parent.AddChild(tr)
+			}
+		} else if !obj.CorrespondingSourceObject.IsValid() {
+			// Root objects
+			scene.Objects = append(scene.Objects, objects[i])
 		}
 	}
 	return scene, nil
-- 
2.43.0


From 5be513cec6c99bdb4b327d4e82221c40d5e9cfa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:11:25 +0000
Subject: [PATCH 115/170] fix: Unity texture tiling starts at the bottom left
 and includes the offset

---
 converter/unity2mqo.go | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/converter/unity2mqo.go b/converter/unity2mqo.go
index 622e4cf..99287e4 100644
--- a/converter/unity2mqo.go
+++ b/converter/unity2mqo.go
@@ -29,8 +29,9 @@ type unityToMqoState struct {
 	src *unity.Scene
 	dst *mqo.Document
 	mat map[string]struct {
-		index   int
-		uvScale *geom.Vector2
+		index    int
+		uvScale  *geom.Vector2
+		uvOffset *geom.Vector2
 	}
 	matToGUID map[int]string
 
@@ -57,8 +58,9 @@ func (conv *UnityToMQOConverter) Convert(secne *unity.Scene) (*mqo.Document, err
 		src:              secne,
 		dst:              mqo.NewDocument(),
 		mat: map[string]struct {
-			index   int
-			uvScale *geom.Vector2
+			index    int
+			uvScale  *geom.Vector2
+			uvOffset *geom.Vector2
 		}{},
 		matToGUID: map[int]string{},
 	}
@@ -106,9 +108,10 @@ func (c *unityToMqoState) convertObject(o *unity.GameObject, d int, parentTransf
 				continue
 			}
 			mat := struct {
-				index   int
-				uvScale *geom.Vector2
-			}{len(dst.Materials), nil}
+				index    int
+				uvScale  *geom.Vector2
+				uvOffset *geom.Vector2
+			}{len(dst.Materials), nil, nil}
 			c.matToGUID[len(dst.Materials)] = matGUID
 			materials = append(materials, mat.index)
 			m := &mqo.Material{Name: matGUID, Color: geom.Vector4{X: 1, Y: 1, Z: 1, W: 1}, Diffuse: 0.8}
@@ -137,6 +140,7 @@ func (c *unityToMqoState) convertObject(o *unity.GameObject, d int, parentTransf
 						}
 					}
 					mat.uvScale = &t.Scale
+					mat.uvOffset = &t.Offset
 				}
 				if t := material.GetTextureProperty("_BumpMap"); t != nil && t.Texture.IsValid() {
 					texAsset := c.src.Assets.GetAsset(t.Texture.GUID)
@@ -171,11 +175,12 @@ func (c *unityToMqoState) convertObject(o *unity.GameObject, d int, parentTransf
 			obj := dst.Objects[meshObjectIndex]
 			obj.Visible = active && meshRenderer.Enabled != 0
 			for _, face := range obj.Faces {
-				scale := c.mat[c.matToGUID[face.Material]].uvScale
-				if scale != nil {
+				mat := c.mat[c.matToGUID[face.Material]]
+				if mat.uvScale != nil {
 					for i := range face.UVs {
-						face.UVs[i].X *= scale.X
-						face.UVs[i].Y *= scale.Y
+						// The origin is the bottom left of the texture.
+						face.UVs[i].X = face.UVs[i].X*mat.uvScale.X + mat.uvOffset.X
+						face.UVs[i].Y = 1 - ((1-face.UVs[i].Y)*mat.uvScale.Y + mat.uvOffset.Y)
 					}
 				}
 			}
-- 
2.43.0


From 73da498944cd315598bb436795d42575f0e6621c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:11:27 +0000
Subject: [PATCH 116/170] fix: the ends of a cylinder do not share their
 texture coordinates

---
 unity/unity_builtin.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/unity/unity_builtin.go b/unity/unity_builtin.go
index cf14140..710f3c5 100644
--- a/unity/unity_builtin.go
+++ b/unity/unity_builtin.go
@@ -135,7 +135,7 @@ func Cylinder(s int) (vs []*geom.Vector3, faces [][]int, uvs [][]geom.Vector2) {
 	const r = 0.5
 	var top []int
 	var bottom []int
-	var topuv []geom.Vector2
+	var topuv, bottomuv []geom.Vector2
 
 	for i := 0; i < s; i++ {
 		t := float64(i) / float64(s) * math.Pi * 2
@@ -152,9 +152,10 @@ func Cylinder(s int) (vs []*geom.Vector3, faces [][]int, uvs [][]geom.Vector2) {
 			{X: 1 - float32(i+1)/float32(s), Y: 0},
 		})
 		topuv = append(topuv, geom.Vector2{X: float32(i) / float32(s), Y: 1})
+		bottomuv = append(bottomuv, topuv[i])
 	}
 	faces = append(faces, top, bottom)
-	uvs = append(uvs, topuv, topuv)
+	uvs = append(uvs, topuv, bottomuv)
 	return
 }
 
-- 
2.43.0


From 2c2965f5dc3346d35ba1205849823eb4f7434baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:11:28 +0000
Subject: [PATCH 117/170] fix: mirror the centers of Unity colliders like
 everything else

---
 converter/unity2mqo.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/converter/unity2mqo.go b/converter/unity2mqo.go
index 99287e4..47316e3 100644
--- a/converter/unity2mqo.go
+++ b/converter/unity2mqo.go
@@ -227,13 +227,17 @@ func (c *unityToMqoState) convertRigidBody(o *unity.GameObject, transform *geom.
 	scale := c.ConvertScale
 	_, rot, sc := transform.Decompose()
 	angle := geom.NewEulerFromQuaternion(rot, geom.RotationOrderZXY)
+	position := func(center geom.Vector3) mqo.Vector3XmlAttr {
+		center.Z = -center.Z
+		return mqo.Vector3XmlAttr(*transform.ApplyTo(&center))
+	}
 
 	var boxColliders []*unity.BoxCollider
 	o.GetComponents(&boxColliders)
 	for _, co := range boxColliders {
 		shapes = append(shapes, &mqo.PhysicsShape{
 			Type:     "BOX",
-			Position: mqo.Vector3XmlAttr(*transform.ApplyTo(&co.Center)),
+			Position: position(co.Center),
 			Size:     mqo.Vector3XmlAttr(*co.Size.Scale(sc.X * 0.5)),
 			Rotation: mqo.Vector3XmlAttr(angle.Vector3),
 		})
@@ -243,7 +247,7 @@ func (c *unityToMqoState) convertRigidBody(o *unity.GameObject, transform *geom.
 	for _, co := range sphereColliders {
 		shapes = append(shapes, &mqo.PhysicsShape{
 			Type:     "SPHERE",
-			Position: mqo.Vector3XmlAttr(*transform.ApplyTo(&co.Center)),
+			Position: position(co.Center),
 			Size:     mqo.Vector3XmlAttr{X: co.Radius * sc.X, Y: co.Radius * sc.Y, Z: co.Radius * sc.Z},
 			Rotation: mqo.Vector3XmlAttr(angle.Vector3),
 		})
@@ -253,7 +257,7 @@ func (c *unityToMqoState) convertRigidBody(o *unity.GameObject, transform *geom.
 	for _, co := range capsuleColliders {
 		shapes = append(shapes, &mqo.PhysicsShape{
 			Type:     "CAPSULE",
-			Position: mqo.Vector3XmlAttr(*transform.ApplyTo(&co.Center)),
+			Position: position(co.Center),
 			Size:     mqo.Vector3XmlAttr{X: co.Radius * sc.X, Y: (co.Height - co.Radius*2) * sc.Y, Z: co.Radius * sc.Z},
 			Rotation: mqo.Vector3XmlAttr(angle.Vector3),
 		})
-- 
2.43.0


From ad546c6920ca67c6d3082ed035a630a066c650e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:11:30 +0000
Subject: [PATCH 118/170] fix: box and mesh colliders take the size of the
 scaled object

---
 converter/unity2mqo.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/converter/unity2mqo.go b/converter/unity2mqo.go
index 47316e3..a9cf5e1 100644
--- a/converter/unity2mqo.go
+++ b/converter/unity2mqo.go
@@ -224,7 +224,6 @@ func (c *unityToMqoState) convertObject(o *unity.GameObject, d int, parentTransf
 
 func (c *unityToMqoState) convertRigidBody(o *unity.GameObject, transform *geom.Matrix4, obj *mqo.Object) {
 	var shapes []*mqo.PhysicsShape
-	scale := c.ConvertScale
 	_, rot, sc := transform.Decompose()
 	angle := geom.NewEulerFromQuaternion(rot, geom.RotationOrderZXY)
 	position := func(center geom.Vector3) mqo.Vector3XmlAttr {
@@ -238,7 +237,7 @@ func (c *unityToMqoState) convertRigidBody(o *unity.GameObject, transform *geom.
 		shapes = append(shapes, &mqo.PhysicsShape{
 			Type:     "BOX",
 			Position: position(co.Center),
-			Size:     mqo.Vector3XmlAttr(*co.Size.Scale(sc.X * 0.5)),
+			Size:     mqo.Vector3XmlAttr{X: co.Size.X * sc.X * 0.5, Y: co.Size.Y * sc.Y * 0.5, Z: co.Size.Z * sc.Z * 0.5},
 			Rotation: mqo.Vector3XmlAttr(angle.Vector3),
 		})
 	}
@@ -268,19 +267,19 @@ func (c *unityToMqoState) convertRigidBody(o *unity.GameObject, transform *geom.
 		if name, ok := unity.UnityMeshes[*co.Mesh]; ok {
 			switch name {
 			case "Cube":
-				const size = 1
+				const size = 0.5
 				shapes = append(shapes, &mqo.PhysicsShape{
 					Type:     "BOX",
 					Position: mqo.Vector3XmlAttr(*transform.ApplyTo(&geom.Vector3{})),
 					Rotation: mqo.Vector3XmlAttr(angle.Vector3),
-					Size:     mqo.Vector3XmlAttr{X: size * scale, Y: size * scale, Z: size * scale},
+					Size:     mqo.Vector3XmlAttr{X: size * sc.X, Y: size * sc.Y, Z: size * sc.Z},
 				})
 			case "Sphere":
 				const radius = 0.5
 				shapes = append(shapes, &mqo.PhysicsShape{
 					Type:     "SPHERE",
 					Position: mqo.Vector3XmlAttr(*transform.ApplyTo(&geom.Vector3{})),
-					Size:     mqo.Vector3XmlAttr{X: radius * scale, Y: radius * scale, Z: radius * scale},
+					Size:     mqo.Vector3XmlAttr{X: radius * sc.X, Y: radius * sc.Y, Z: radius * sc.Z},
 				})
 			default:
 				shapes = append(shapes, &mqo.PhysicsShape{
-- 
2.43.0


From e2d92bdae63090c764b56d8c6e58a105c9173398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:11:31 +0000
Subject: [PATCH 119/170] fix: find meshes of nested FBX models

---
 fbx/fbx_model.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/fbx/fbx_model.go b/fbx/fbx_model.go
index c147f6a..9364964 100644
--- a/fbx/fbx_model.go
+++ b/fbx/fbx_model.go
@@ -94,6 +94,9 @@ func (m *Model) FindChildModel(name string) *Model {
 			if m.Name() == name+"::Model" || m.Name() == "Model::"+name {
 				return m
 			}
+			if c := m.FindChildModel(name); c != nil {
+				return c
+			}
 		}
 	}
 	return nil
-- 
2.43.0


From 447757c0865aa13fbb4535b06491f71abef9aa3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:11:33 +0000
Subject: [PATCH 120/170] fix: a mesh reference does not include the child
 models of the FBX

---
 converter/fbx2mqo.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/converter/fbx2mqo.go b/converter/fbx2mqo.go
index edee1f6..0c77e39 100644
--- a/converter/fbx2mqo.go
+++ b/converter/fbx2mqo.go
@@ -171,6 +171,9 @@ func (c *fbxToMqoState) convertModel(m *fbx.Model, d int, parentTransform *geom.
 			}
 		}
 	}
+	if c.TargetModelName != "" {
+		return
+	}
 	for _, m := range m.GetChildModels() {
 		if c.ConvertWholeNode || m.Kind() != "LimbNode" {
 			c.convertModel(m, d+1, transform)
-- 
2.43.0


From 0701789fe2392dde49657228623806cf1f1c55de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:11:34 +0000
Subject: [PATCH 121/170] fix: import meshes from .FBX assets

---
 converter/unity2mqo.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/converter/unity2mqo.go b/converter/unity2mqo.go
index a9cf5e1..7cff7ee 100644
--- a/converter/unity2mqo.go
+++ b/converter/unity2mqo.go
@@ -344,7 +344,7 @@ func (c *unityToMqoState) importMesh(mesh *unity.Ref, obj *mqo.Object, materials
 	log.Println("Import mesh:", asset, meta.GetRecycleNameByFileID(mesh.FileID))
 
 	if c.lastFbxID != mesh.GUID { // TODO
-		if !strings.HasSuffix(asset.Path, ".fbx") {
+		if !strings.EqualFold(filepath.Ext(asset.Path), ".fbx") {
 			return fmt.Errorf("not supported: %s", asset.Path)
 		}
 
-- 
2.43.0


From 2be909db95eedec313dac7591dd8a094d3c49e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:25:32 +0000
Subject: [PATCH 122/170] fix: cones of spot lights in the form of
 KHR_lights_punctual

---
 converter/unity2mqo.go | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/converter/unity2mqo.go b/converter/unity2mqo.go
index 7cff7ee..d6d7fa4 100644
--- a/converter/unity2mqo.go
+++ b/converter/unity2mqo.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"io"
 	"log"
+	"math"
 	"os"
 	"path/filepath"
 	"strings"
@@ -197,14 +198,22 @@ func (c *unityToMqoState) convertObject(o *unity.GameObject, d int, parentTransf
 			t = "point"
 		}
 		c := light.Color.Array()
-		obj.Extra["light"] = map[string]interface{}{
-			"type":           t,
-			"color":          c[0:3],
-			"intensity":      light.Intensity,
-			"range":          light.Range,
-			"outerConeAngle": light.SpotAngle,
-			"innerConeAngle": light.InnerSpotAngle,
+		param := map[string]interface{}{
+			"type":      t,
+			"color":     c[0:3],
+			"intensity": light.Intensity,
 		}
+		if t != "directional" {
+			param["range"] = light.Range
+		}
+		if t == "spot" {
+			// Unity has the angle between both sides of the cone in degrees.
+			param["spot"] = map[string]interface{}{
+				"outerConeAngle": light.SpotAngle * math.Pi / 360,
+				"innerConeAngle": light.InnerSpotAngle * math.Pi / 360,
+			}
+		}
+		obj.Extra["light"] = param
 		obj.InternalTransform = transform
 	}
 
-- 
2.43.0


From d2e9d6a12702708c8220b11ddf79a640dce95f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:25:33 +0000
Subject: [PATCH 123/170] fix: stop at prefabs that contain themselves

---
 unity/unity_scene.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/unity/unity_scene.go b/unity/unity_scene.go
index 988bfd4..094a619 100644
--- a/unity/unity_scene.go
+++ b/unity/unity_scene.go
@@ -34,6 +34,16 @@ func LoadScene(assets Assets, scenePath string) (*Scene, error) {
 }
 
 func LoadSceneAsset(assets Assets, sceneAsset *Asset) (*Scene, error) {
+	return loadSceneAsset(assets, sceneAsset, map[string]bool{})
+}
+
+func loadSceneAsset(assets Assets, sceneAsset *Asset, loading map[string]bool) (*Scene, error) {
+	if loading[sceneAsset.GUID] {
+		return nil, fmt.Errorf("prefab contains itself: %s", sceneAsset.Path)
+	}
+	loading[sceneAsset.GUID] = true
+	defer delete(loading, sceneAsset.GUID)
+
 	r, err := assets.Open(sceneAsset.Path)
 	if err != nil {
 		return nil, err
@@ -89,7 +99,7 @@ func LoadSceneAsset(assets Assets, sceneAsset *Asset) (*Scene, error) {
 				log.Println("prefab not found", prefab.SourcePrefab)
 				continue
 			}
-			s, err := LoadSceneAsset(assets, prefabAsset)
+			s, err := loadSceneAsset(assets, prefabAsset, loading)
 			if err != nil {
 				log.Println("failed to loadPrefab", prefab.SourcePrefab)
 				continue
-- 
2.43.0


From 84d965ddda44d832f0a8467d7e5ee4aba9bb367a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:26:25 +0000
Subject: [PATCH 124/170] fix: incomplete documents of Unity scenes do not
 crash the import

---
 converter/unity2mqo.go |  8 +++++++-
 unity/unity.go         |  2 +-
 unity/unity_scene.go   | 18 +++++++++++++-----
 3 files changed, 21 insertions(+), 7 deletions(-)

diff --git a/converter/unity2mqo.go b/converter/unity2mqo.go
index d6d7fa4..c8d33a2 100644
--- a/converter/unity2mqo.go
+++ b/converter/unity2mqo.go
@@ -103,7 +103,10 @@ func (c *unityToMqoState) convertObject(o *unity.GameObject, d int, parentTransf
 	if o.GetComponent(&meshFilter) && o.GetComponent(&meshRenderer) && meshFilter.Mesh.IsValid() {
 		var materials []int
 		for _, materialRef := range meshRenderer.Materials {
-			matGUID := materialRef.GUID
+			matGUID := ""
+			if materialRef != nil {
+				matGUID = materialRef.GUID
+			}
 			if m, ok := c.mat[matGUID]; ok {
 				materials = append(materials, m.index)
 				continue
@@ -273,6 +276,9 @@ func (c *unityToMqoState) convertRigidBody(o *unity.GameObject, transform *geom.
 	var meshColliders []*unity.MeshCollider
 	o.GetComponents(&meshColliders)
 	for _, co := range meshColliders {
+		if co.Mesh == nil {
+			continue
+		}
 		if name, ok := unity.UnityMeshes[*co.Mesh]; ok {
 			switch name {
 			case "Cube":
diff --git a/unity/unity.go b/unity/unity.go
index 8579500..11b4518 100644
--- a/unity/unity.go
+++ b/unity/unity.go
@@ -71,7 +71,7 @@ type GameObject struct {
 	IsActive  int    `yaml:"m_IsActive"`
 	TagString string `yaml:"m_TagString"`
 
-	Components []*struct {
+	Components []struct {
 		Ref Ref `yaml:"component"`
 	} `yaml:"m_Component"`
 
diff --git a/unity/unity_scene.go b/unity/unity_scene.go
index 094a619..c7be907 100644
--- a/unity/unity_scene.go
+++ b/unity/unity_scene.go
@@ -77,6 +77,10 @@ func loadSceneAsset(assets Assets, sceneAsset *Asset, loading map[string]bool) (
 				GameObject *GameObject `yaml:"GameObject" typeid:"unity3d.com,2011:1"`
 			}
 			err = doc.Decode(&d)
+			if d.GameObject == nil {
+				log.Println("invalid gameObject", err, scene.GUID, fileId)
+				continue
+			}
 			d.GameObject.init(scene)
 			element = d.GameObject
 			objects = append(objects, d.GameObject)
@@ -110,7 +114,10 @@ func loadSceneAsset(assets Assets, sceneAsset *Asset, loading map[string]bool) (
 				root := s.Objects[0]
 				tr := root.GetTransform()
 				if tr != nil {
-					tr.Father = *prefab.Modification.TransformParent
+					tr.Father = Ref{}
+					if prefab.Modification.TransformParent != nil {
+						tr.Father = *prefab.Modification.TransformParent
+					}
 					tr.Father.GUID = scene.GUID
 				}
 				objects = append(objects, root)
@@ -125,16 +132,17 @@ func loadSceneAsset(assets Assets, sceneAsset *Asset, loading map[string]bool) (
 					flaotValue = float32(v)
 				}
 				prop := strings.Split(mod.PropertyPath, ".")
-				typ := reflect.TypeOf(target).Elem()
-				if typ.Kind() != reflect.Struct {
+				typ := reflect.TypeOf(target)
+				if typ.Kind() != reflect.Ptr || typ.Elem().Kind() != reflect.Struct {
 					continue
 				}
+				typ = typ.Elem()
 				for i := 0; i < typ.NumField(); i++ {
 					if y := typ.Field(i).Tag.Get("yaml"); y != "" {
 						if (strings.Split(y, ",")[0]) == prop[0] {
 							field := reflect.ValueOf(target).Elem().Field(i).Addr().Interface()
-							if len(prop) == 3 && prop[1] == "Array" && strings.HasPrefix(prop[2], "data[") {
-								if idx, err := strconv.ParseInt(prop[2][5:len(prop[2])-1], 10, 32); err == nil && int(idx) < reflect.ValueOf(target).Elem().Field(i).Len() {
+							if len(prop) == 3 && prop[1] == "Array" && strings.HasPrefix(prop[2], "data[") && typ.Field(i).Type.Kind() == reflect.Slice {
+								if idx, err := strconv.ParseUint(strings.TrimSuffix(prop[2][5:], "]"), 10, 31); err == nil && int(idx) < reflect.ValueOf(target).Elem().Field(i).Len() {
 									field = reflect.ValueOf(target).Elem().Field(i).Index(int(idx)).Addr().Interface()
 								}
 							}
-- 
2.43.0


From c8d7c4b44f7d692a8210aef6424945521fdfdd3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:26:26 +0000
Subject: [PATCH 125/170] fix: short last line of a Unity document

---
 unity/unity_yaml.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unity/unity_yaml.go b/unity/unity_yaml.go
index 5d14fd0..e616138 100644
--- a/unity/unity_yaml.go
+++ b/unity/unity_yaml.go
@@ -51,7 +51,7 @@ func ParseYamlDocuments(data []byte) []*YAMLDoc {
 		s.nextLine()
 	}
 	if doc != nil {
-		doc.Body = data[docStart:s.pos]
+		doc.Body = data[docStart:]
 		docs = append(docs, doc)
 	}
 	return docs
-- 
2.43.0


From 46a9fa6766f5af1f0c21e72a25d5080c7126f529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:19 +0000
Subject: [PATCH 126/170] fix: Unity components without content do not crash
 the import

---
 unity/unity_scene.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/unity/unity_scene.go b/unity/unity_scene.go
index c7be907..1f8600b 100644
--- a/unity/unity_scene.go
+++ b/unity/unity_scene.go
@@ -194,7 +194,8 @@ func loadSceneAsset(assets Assets, sceneAsset *Asset, loading map[string]bool) (
 			if fieldid, ok := componentTags[doc.Tag]; ok {
 				var components componentDesc
 				err = doc.Decode(&components)
-				if component, _ := reflect.ValueOf(components).Field(fieldid).Interface().(Component); component != nil {
+				field := reflect.ValueOf(components).Field(fieldid)
+				if component, _ := field.Interface().(Component); component != nil && !field.IsNil() {
 					component.init(scene)
 					element = component
 				}
-- 
2.43.0


From da9a824c67763e63aaabcfaf229d8e08aa06c490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:21 +0000
Subject: [PATCH 127/170] fix: Unity documents with a cut tag do not crash the
 import

---
 unity/unity_yaml.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/unity/unity_yaml.go b/unity/unity_yaml.go
index e616138..e9d417e 100644
--- a/unity/unity_yaml.go
+++ b/unity/unity_yaml.go
@@ -61,8 +61,8 @@ func (s *yamlSplitter) getTag() string {
 	tag := s.readToken()
 	if len(tag) > 0 && tag[0] == '!' {
 		t := strings.SplitN(tag[1:], "!", 2)
-		if v, ok := s.tags[t[0]]; ok {
-			tag = v + tag[len(t[0])+2:]
+		if v, ok := s.tags[t[0]]; ok && len(t) == 2 {
+			tag = v + t[1]
 		}
 	}
 	return tag
-- 
2.43.0


From 72bcb5871f680445455bb775795e8ae3975f882d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:17 +0000
Subject: [PATCH 128/170] fix: stop at Unity objects that are their own
 descendants

---
 converter/unity2mqo.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/converter/unity2mqo.go b/converter/unity2mqo.go
index c8d33a2..7877cb2 100644
--- a/converter/unity2mqo.go
+++ b/converter/unity2mqo.go
@@ -35,6 +35,7 @@ type unityToMqoState struct {
 		uvOffset *geom.Vector2
 	}
 	matToGUID map[int]string
+	parents   map[*unity.GameObject]bool
 
 	// TODL: LRU cache
 	lastFbx   *fbx.Document
@@ -64,6 +65,7 @@ func (conv *UnityToMQOConverter) Convert(secne *unity.Scene) (*mqo.Document, err
 			uvOffset *geom.Vector2
 		}{},
 		matToGUID: map[int]string{},
+		parents:   map[*unity.GameObject]bool{},
 	}
 
 	s := state.ConvertScale
@@ -224,9 +226,11 @@ func (c *unityToMqoState) convertObject(o *unity.GameObject, d int, parentTransf
 		c.convertRigidBody(o, transform, obj)
 	}
 
+	c.parents[o] = true
+	defer delete(c.parents, o)
 	for _, child := range tr.GetChildren() {
 		childObj := child.GetGameObject()
-		if childObj == nil {
+		if childObj == nil || c.parents[childObj] {
 			log.Println("GameObject not found", child.GameObject, tr.CorrespondingSourceObject)
 			continue
 		}
-- 
2.43.0


From a0ff767347c11b3f34ff28ce41b5193d3b8fdb30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:46 +0000
Subject: [PATCH 129/170] fix: -chparent reports unknown parents

---
 cmd/modelconv/main.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cmd/modelconv/main.go b/cmd/modelconv/main.go
index fd79fef..54217ff 100644
--- a/cmd/modelconv/main.go
+++ b/cmd/modelconv/main.go
@@ -285,7 +285,11 @@ func main() {
 				continue
 			}
 			if b, ok := boneByName[boneAndParent[0]]; ok {
-				b.Parent = boneByName[boneAndParent[1]].ID
+				parent, ok := boneByName[boneAndParent[1]]
+				if !ok {
+					log.Fatal("parent bone not found: ", n)
+				}
+				b.Parent = parent.ID
 			}
 		}
 	}
-- 
2.43.0


From 100aed8c15a0f991af00d4d4c1f07a6524e6e3ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:47 +0000
Subject: [PATCH 130/170] fix: patterns of options match names that have
 slashes or brackets

---
 cmd/modelconv/main.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cmd/modelconv/main.go b/cmd/modelconv/main.go
index 54217ff..e63e993 100644
--- a/cmd/modelconv/main.go
+++ b/cmd/modelconv/main.go
@@ -265,8 +265,10 @@ func main() {
 	}
 
 	match := func(patterns []string, name string) bool {
+		// Names are not paths: "/" is an ordinary character.
+		escape := func(s string) string { return strings.ReplaceAll(s, "/", "\x00") }
 		for _, pattern := range patterns {
-			if m, _ := path.Match(pattern, name); m {
+			if m, _ := path.Match(escape(pattern), escape(name)); m || pattern == name {
 				return true
 			}
 		}
-- 
2.43.0


From e9a77c7959e25ba045f4294f199c9e347fe35bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:50 +0000
Subject: [PATCH 131/170] fix: buffers of .gltf files are named after them and
 found by escaped names

---
 cmd/modelconv/main.go  |  7 +----
 cmd/modelconv/utils.go |  4 +--
 gltfutil/gltf_utils.go | 60 +++++++++++++++++++++++++++++++++++++++++-
 3 files changed, 62 insertions(+), 9 deletions(-)

diff --git a/cmd/modelconv/main.go b/cmd/modelconv/main.go
index e63e993..c029cd0 100644
--- a/cmd/modelconv/main.go
+++ b/cmd/modelconv/main.go
@@ -82,12 +82,7 @@ func saveGltfDocument(doc *gltf.Document, output, ext, srcDir, vrmConf string) e
 		}
 		return gltf.SaveBinary(doc, output)
 	} else if ext == ".gltf" {
-		for i, b := range doc.Buffers {
-			if b.URI == "" {
-				b.URI = fmt.Sprintf("%s%d.bin", strings.TrimSuffix(filepath.Base(output), filepath.Ext(output)), i)
-			}
-		}
-		return gltf.Save(doc, output)
+		return gltfutil.Save(doc, output)
 	} else if ext == ".vrm" {
 		conf, err := converter.LoadVRMConfig(vrmConf)
 		if err != nil {
diff --git a/cmd/modelconv/utils.go b/cmd/modelconv/utils.go
index 2c132f2..4d260eb 100644
--- a/cmd/modelconv/utils.go
+++ b/cmd/modelconv/utils.go
@@ -9,10 +9,10 @@ import (
 
 	"github.com/binzume/modelconv/converter"
 	"github.com/binzume/modelconv/fbx"
+	"github.com/binzume/modelconv/gltfutil"
 	"github.com/binzume/modelconv/mmd"
 	"github.com/binzume/modelconv/mqo"
 	"github.com/binzume/modelconv/unity"
-	"github.com/qmuntal/gltf"
 )
 
 func loadAnimation(input string) (*mmd.Animation, error) {
@@ -32,7 +32,7 @@ func loadDocument(input string) (*mqo.Document, error) {
 	case isMQO(ext):
 		return mqo.Load(input)
 	case isGltf(ext):
-		doc, err := gltf.Open(input)
+		doc, err := gltfutil.Load(input)
 		if err != nil {
 			return nil, err
 		}
diff --git a/gltfutil/gltf_utils.go b/gltfutil/gltf_utils.go
index ad720ff..0deffb3 100644
--- a/gltfutil/gltf_utils.go
+++ b/gltfutil/gltf_utils.go
@@ -1,6 +1,9 @@
 package gltfutil
 
 import (
+	"fmt"
+	"io"
+	"io/fs"
 	"io/ioutil"
 	"log"
 	"math"
@@ -15,8 +18,63 @@ import (
 	"github.com/qmuntal/gltf/modeler"
 )
 
+// uriFS accesses the files of a directory by relative URIs.
+type uriFS string
+
+func (dir uriFS) path(uri string) (string, error) {
+	name, err := url.PathUnescape(uri)
+	if err != nil || !fs.ValidPath(name) {
+		return "", &fs.PathError{Op: "open", Path: uri, Err: fs.ErrInvalid}
+	}
+	return filepath.Join(string(dir), filepath.FromSlash(name)), nil
+}
+
+func (dir uriFS) Open(uri string) (fs.File, error) {
+	path, err := dir.path(uri)
+	if err != nil {
+		return nil, err
+	}
+	return os.Open(path)
+}
+
+func (dir uriFS) Create(uri string) (io.WriteCloser, error) {
+	path, err := dir.path(uri)
+	if err != nil {
+		return nil, err
+	}
+	return os.Create(path)
+}
+
 func Load(path string) (*gltf.Document, error) {
-	return gltf.Open(path)
+	f, err := os.Open(path)
+	if err != nil {
+		return nil, err
+	}
+	defer f.Close()
+	doc := new(gltf.Document)
+	if err := gltf.NewDecoderFS(f, uriFS(filepath.Dir(path))).Decode(doc); err != nil {
+		return nil, err
+	}
+	return doc, nil
+}
+
+// Save writes a .gltf file, and its buffers to .bin files named after it.
+func Save(doc *gltf.Document, path string) error {
+	for i, b := range doc.Buffers {
+		name := fmt.Sprintf("%s%d.bin", strings.TrimSuffix(filepath.Base(path), filepath.Ext(path)), i)
+		b.URI = strings.ReplaceAll(url.PathEscape(name), ":", "%3A")
+	}
+	f, err := os.Create(path)
+	if err != nil {
+		return err
+	}
+	e := gltf.NewEncoderFS(f, uriFS(filepath.Dir(path)))
+	e.AsBinary = false
+	if err := e.Encode(doc); err != nil {
+		f.Close()
+		return err
+	}
+	return f.Close()
 }
 
 func RemoveExtension(doc *gltf.Document, extension string) {
-- 
2.43.0


From 717dba754ec4dded9ae1ec3537867e85845684a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:52 +0000
Subject: [PATCH 132/170] fix: .gltf files saved to another directory keep
 their images

---
 cmd/modelconv/main.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cmd/modelconv/main.go b/cmd/modelconv/main.go
index c029cd0..663126d 100644
--- a/cmd/modelconv/main.go
+++ b/cmd/modelconv/main.go
@@ -82,6 +82,12 @@ func saveGltfDocument(doc *gltf.Document, output, ext, srcDir, vrmConf string) e
 		}
 		return gltf.SaveBinary(doc, output)
 	} else if ext == ".gltf" {
+		if filepath.Clean(filepath.Dir(output)) != filepath.Clean(srcDir) {
+			// Images would not be found from another directory.
+			if err := gltfutil.ToSingleFile(doc, srcDir); err != nil {
+				return err
+			}
+		}
 		return gltfutil.Save(doc, output)
 	} else if ext == ".vrm" {
 		conf, err := converter.LoadVRMConfig(vrmConf)
-- 
2.43.0


From ec5c192cee6c29566200493e38fb7dc2b84cc4cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:11:50 +0000
Subject: [PATCH 133/170] fix: report write errors when saving FBX

---
 fbx/fbx.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/fbx/fbx.go b/fbx/fbx.go
index 122da9a..82649ed 100644
--- a/fbx/fbx.go
+++ b/fbx/fbx.go
@@ -1,6 +1,7 @@
 package fbx
 
 import (
+	"bufio"
 	"fmt"
 	"io"
 	"os"
@@ -29,12 +30,15 @@ func Save(doc *Document, path string) error {
 	if err != nil {
 		return err
 	}
-	defer w.Close()
-
-	return Write(w, doc)
+	if err := Write(w, doc); err != nil {
+		w.Close()
+		return err
+	}
+	return w.Close()
 }
 
-func Write(w io.Writer, doc *Document) error {
+func Write(ww io.Writer, doc *Document) error {
+	w := bufio.NewWriter(ww) // keeps the first error
 	fmt.Fprintln(w, "; FBX 7.5.0 project file")
 	fmt.Fprintln(w, "; Generator: https://github.com/binzume/modelconv")
 	fmt.Fprintln(w, "; -----------------------------------------------")
@@ -44,5 +48,5 @@ func Write(w io.Writer, doc *Document) error {
 			n.Dump(w, 0, true)
 		}
 	}
-	return nil
+	return w.Flush()
 }
-- 
2.43.0


From a12d1dff9f63ed2942ceebeed6427770f5c63964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:12:44 +0000
Subject: [PATCH 134/170] fix: report write errors when saving GLB and VRM

---
 cmd/modelconv/main.go  |  6 +++---
 gltfutil/gltf_utils.go | 19 +++++++++++++++++++
 vrm/vrm_writer.go      |  6 ++++--
 3 files changed, 26 insertions(+), 5 deletions(-)

diff --git a/cmd/modelconv/main.go b/cmd/modelconv/main.go
index 663126d..1fcce34 100644
--- a/cmd/modelconv/main.go
+++ b/cmd/modelconv/main.go
@@ -80,7 +80,7 @@ func saveGltfDocument(doc *gltf.Document, output, ext, srcDir, vrmConf string) e
 		if err != nil {
 			return err
 		}
-		return gltf.SaveBinary(doc, output)
+		return gltfutil.SaveBinary(doc, output)
 	} else if ext == ".gltf" {
 		if filepath.Clean(filepath.Dir(output)) != filepath.Clean(srcDir) {
 			// Images would not be found from another directory.
@@ -107,10 +107,10 @@ func saveGltfDocument(doc *gltf.Document, output, ext, srcDir, vrmConf string) e
 			log.Print(err)
 		}
 		if err != nil {
-			gltf.SaveBinary(doc, output) // for debug
+			gltfutil.SaveBinary(doc, output) // for debug
 			return err
 		}
-		return gltf.SaveBinary(doc, output)
+		return gltfutil.SaveBinary(doc, output)
 	}
 	return fmt.Errorf("Unsuppored output type: %v", ext)
 }
diff --git a/gltfutil/gltf_utils.go b/gltfutil/gltf_utils.go
index 0deffb3..c94a103 100644
--- a/gltfutil/gltf_utils.go
+++ b/gltfutil/gltf_utils.go
@@ -1,6 +1,7 @@
 package gltfutil
 
 import (
+	"bufio"
 	"fmt"
 	"io"
 	"io/fs"
@@ -77,6 +78,24 @@ func Save(doc *gltf.Document, path string) error {
 	return f.Close()
 }
 
+// SaveBinary writes a .glb file.
+func SaveBinary(doc *gltf.Document, path string) error {
+	f, err := os.Create(path)
+	if err != nil {
+		return err
+	}
+	w := bufio.NewWriter(f) // The encoder does not report all write errors.
+	e := gltf.NewEncoderFS(w, uriFS(filepath.Dir(path)))
+	err = e.Encode(doc)
+	if flushErr := w.Flush(); err == nil {
+		err = flushErr
+	}
+	if closeErr := f.Close(); err == nil {
+		err = closeErr
+	}
+	return err
+}
+
 func RemoveExtension(doc *gltf.Document, extension string) {
 	for _, n := range doc.Accessors {
 		delete(n.Extensions, extension)
diff --git a/vrm/vrm_writer.go b/vrm/vrm_writer.go
index 20f050e..281e053 100644
--- a/vrm/vrm_writer.go
+++ b/vrm/vrm_writer.go
@@ -1,6 +1,7 @@
 package vrm
 
 import (
+	"bufio"
 	"io"
 	"io/fs"
 	"os"
@@ -19,11 +20,12 @@ func (f *createfs) Create(name string) (io.WriteCloser, error) {
 }
 
 // Write vrm file
-func Write(doc *Document, w io.Writer, path string) error {
+func Write(doc *Document, ww io.Writer, path string) error {
+	w := bufio.NewWriter(ww) // The encoder does not report all write errors.
 	e := gltf.NewEncoderFS(w, &createfs{os.DirFS(filepath.Dir(path)), path})
 	e.AsBinary = true
 	if err := e.Encode((*gltf.Document)(doc)); err != nil {
 		return err
 	}
-	return nil
+	return w.Flush()
 }
-- 
2.43.0


From 4dcb1b4493aef5c6f8e42c8a4c11be37979e6af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:17:21 +0000
Subject: [PATCH 135/170] fix: report damaged MQX files

---
 mqo/mqo_parser.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mqo/mqo_parser.go b/mqo/mqo_parser.go
index d32b4e0..bbaad25 100644
--- a/mqo/mqo_parser.go
+++ b/mqo/mqo_parser.go
@@ -404,9 +404,11 @@ func (p *Parser) Parse() (*Document, error) {
 		r, _ := p.Open(mqxFile)
 		if r != nil {
 			defer r.Close()
-			if mqx, err := ReadMQX(r); err == nil {
-				doc.Plugins = mqx.Plugins
+			mqx, err := ReadMQX(r)
+			if err != nil {
+				return &doc, fmt.Errorf("%s: %v", mqxFile, err)
 			}
+			doc.Plugins = mqx.Plugins
 		}
 	}
 	return &doc, nil
-- 
2.43.0


From 0dea819b27d8828eba8b0e1ced19a45583ca9548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:17:22 +0000
Subject: [PATCH 136/170] fix: report truncated buffers of .gltf files

---
 gltfutil/gltf_utils.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/gltfutil/gltf_utils.go b/gltfutil/gltf_utils.go
index c94a103..bc11d50 100644
--- a/gltfutil/gltf_utils.go
+++ b/gltfutil/gltf_utils.go
@@ -56,6 +56,11 @@ func Load(path string) (*gltf.Document, error) {
 	if err := gltf.NewDecoderFS(f, uriFS(filepath.Dir(path))).Decode(doc); err != nil {
 		return nil, err
 	}
+	for i, b := range doc.Buffers {
+		if len(b.Data) < int(b.ByteLength) {
+			return nil, fmt.Errorf("buffer %d: %w", i, io.ErrUnexpectedEOF)
+		}
+	}
 	return doc, nil
 }
 
-- 
2.43.0


From 07fe78d88d0b32c80aadc7d0a1bd93a0f2e81530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:18:12 +0000
Subject: [PATCH 137/170] fix: report MQO files that end inside a skipped block

---
 mqo/mqo_parser.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mqo/mqo_parser.go b/mqo/mqo_parser.go
index bbaad25..bb8c5df 100644
--- a/mqo/mqo_parser.go
+++ b/mqo/mqo_parser.go
@@ -144,6 +144,7 @@ func (p *Parser) skipBlock() {
 			p.skipBlock()
 		}
 	}
+	p.s.ErrorCount++ // not closed
 }
 
 func (p *Parser) procArray(init, elem func(n int), name string) {
@@ -393,8 +394,8 @@ func (p *Parser) Parse() (*Document, error) {
 			mqxFile = p.readStr()
 		} else if tok == scanner.Ident && p.s.TokenText() == "Eof" {
 			break
-		} else {
-			// log.Println(" > ", p.s.TokenText())
+		} else if p.s.TokenText() == "{" {
+			p.skipBlock()
 		}
 	}
 	if p.s.ErrorCount > 0 {
-- 
2.43.0


From 90abf841543a61e8aca4d577607ae3b600129c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:31 +0000
Subject: [PATCH 138/170] fix: reuse geometry only between objects with the
 same UVs and primitives

With ReuseGeometry, objects made from the same mesh referred to the
texture coordinates and index lists of the first one, even when their
materials had another tiling or were merged differently (wrong UVs, lost
faces or a panic), and objects with ignored faces were placed twice.
---
 converter/mqo2gltf.go | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/converter/mqo2gltf.go b/converter/mqo2gltf.go
index 2f9bf75..9d730aa 100644
--- a/converter/mqo2gltf.go
+++ b/converter/mqo2gltf.go
@@ -2,6 +2,8 @@ package converter
 
 import (
 	"bytes"
+	"fmt"
+	"hash/fnv"
 	"io"
 	"log"
 	"math"
@@ -159,6 +161,27 @@ type geomCache struct {
 	matrix     *geom.Matrix4
 }
 
+// sharedGeometryKey returns a key of objects that can refer the same vertices and indices.
+func (m *mqoToGltf) sharedGeometryKey(obj *mqo.Object, materialMap map[int]int) (string, bool) {
+	key, ok := obj.Extra["sharedGeometryKey"].(string)
+	if !ok || !m.ReuseGeometry {
+		return "", false
+	}
+	h := fnv.New64a()
+	primitives := map[int]int{}
+	for _, f := range obj.Faces {
+		mat, ok := materialMap[f.Material]
+		if !ok {
+			return "", false // Ignored faces
+		}
+		if _, ok := primitives[mat]; !ok {
+			primitives[mat] = len(primitives)
+		}
+		fmt.Fprintln(h, primitives[mat], f.UVs)
+	}
+	return fmt.Sprintf("%s %v %x", key, obj.Shading > 0, h.Sum64()), true
+}
+
 func NewMQOToGLTFConverter(options *MQOToGLTFOption) *mqoToGltf {
 	if options == nil {
 		options = &MQOToGLTFOption{}
@@ -835,7 +858,7 @@ func (m *mqoToGltf) Convert(doc *mqo.Document, textureDir string) (*gltf.Documen
 
 	sharedGeoms := map[string]*geomCache{}
 	for _, obj := range targetObjects {
-		if key, ok := obj.Extra["sharedGeometryKey"].(string); ok {
+		if key, ok := m.sharedGeometryKey(obj, materialMap); ok {
 			if sharedGeoms[key] == nil {
 				sharedGeoms[key] = &geomCache{}
 			}
@@ -863,7 +886,7 @@ func (m *mqoToGltf) Convert(doc *mqo.Document, textureDir string) (*gltf.Documen
 		node := &gltf.Node{Name: obj.Name}
 		if obj.Visible {
 			var shared *geomCache
-			if key, ok := obj.Extra["sharedGeometryKey"].(string); m.ReuseGeometry && ok {
+			if key, ok := m.sharedGeometryKey(obj, materialMap); ok {
 				if sharedGeoms[key] != nil && sharedGeoms[key].count > 1 {
 					shared = sharedGeoms[key]
 					if shared.matrix == nil {
-- 
2.43.0


From 9dc4725bc6ad3abfc15b69dd142be8be67ac7ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:21:49 +0000
Subject: [PATCH 139/170] fix: stop reading PMX, PMD and VMD files with broken
 counts at the end of the data

---
 mmd/base_parser.go | 13 +++++++++++
 mmd/pmd_parser.go  | 28 ++++++++++-------------
 mmd/pmx_parser.go  | 56 +++++++++++++++++++++-------------------------
 mmd/vmd_parser.go  |  4 ++--
 4 files changed, 53 insertions(+), 48 deletions(-)

diff --git a/mmd/base_parser.go b/mmd/base_parser.go
index 93a2d9c..7a29b76 100644
--- a/mmd/base_parser.go
+++ b/mmd/base_parser.go
@@ -1,7 +1,9 @@
 package mmd
 
 import (
+	"bytes"
 	"encoding/binary"
+	"fmt"
 	"io"
 )
 
@@ -24,6 +26,15 @@ func (p *baseParser) fail(err error) {
 	}
 }
 
+// readBytes reads n bytes. Memory is allocated as the data arrives, because n may be broken.
+func (p *baseParser) readBytes(n int) []byte {
+	var buf bytes.Buffer
+	if p.err == nil {
+		_, p.err = io.CopyN(&buf, p.r, int64(n))
+	}
+	return buf.Bytes()
+}
+
 func (p *baseParser) readUint8() uint8 {
 	var v uint8
 	p.read(&v)
@@ -64,6 +75,7 @@ func (p *baseParser) readVUInt(sz byte) int {
 		p.read(&v)
 		return int(v)
 	}
+	p.fail(fmt.Errorf("invalid index size %v", sz))
 	return 0
 }
 
@@ -83,5 +95,6 @@ func (p *baseParser) readVInt(sz byte) int {
 		p.read(&v)
 		return int(v)
 	}
+	p.fail(fmt.Errorf("invalid index size %v", sz))
 	return 0
 }
diff --git a/mmd/pmd_parser.go b/mmd/pmd_parser.go
index cf93eb5..829599e 100644
--- a/mmd/pmd_parser.go
+++ b/mmd/pmd_parser.go
@@ -99,7 +99,7 @@ func (p *PMDParser) readMorph() *Morph {
 	m.Name = p.readString(20)
 	vn := p.readInt()
 	p.read(&m.PanelType)
-	for i := 0; i < vn; i++ {
+	for i := 0; i < vn && p.err == nil; i++ {
 		var mv MorphVertex
 		mv.Target = p.readVInt(4)
 		p.read(&mv.Offset)
@@ -121,39 +121,35 @@ func (p *PMDParser) Parse() (*Document, error) {
 
 	// Vertexes
 	n := p.readInt()
-	model.Vertexes = make([]*Vertex, n)
-	for i := 0; i < n; i++ {
-		model.Vertexes[i] = p.readVertex()
+	for i := 0; i < n && p.err == nil; i++ {
+		model.Vertexes = append(model.Vertexes, p.readVertex())
 	}
 
 	// Faces
 	n = p.readInt()
-	model.Faces = make([]*Face, n/3)
-	for i := 0; i < n/3; i++ {
+	for i := 0; i < n/3 && p.err == nil; i++ {
 		var f Face
 		f.Verts[0] = int(p.readUint16())
 		f.Verts[1] = int(p.readUint16())
 		f.Verts[2] = int(p.readUint16())
-		model.Faces[i] = &f
+		model.Faces = append(model.Faces, &f)
 	}
 
 	// Materials
 	mn := p.readInt()
-	model.Materials = make([]*Material, mn)
-	for i := 0; i < mn; i++ {
-		model.Materials[i] = p.readMaterial(&model, i)
+	for i := 0; i < mn && p.err == nil; i++ {
+		model.Materials = append(model.Materials, p.readMaterial(&model, i))
 	}
 
 	// Bones
 	bn := int(p.readUint16())
-	model.Bones = make([]*Bone, bn)
-	for i := 0; i < bn; i++ {
-		model.Bones[i] = p.readBone()
+	for i := 0; i < bn && p.err == nil; i++ {
+		model.Bones = append(model.Bones, p.readBone())
 	}
 
 	// IK
 	n = int(p.readUint16())
-	for i := 0; i < n; i++ {
+	for i := 0; i < n && p.err == nil; i++ {
 		bi := int(p.readUint16())
 		if bi >= len(model.Bones) {
 			p.fail(fmt.Errorf("invalid bone index %v", bi))
@@ -164,7 +160,7 @@ func (p *PMDParser) Parse() (*Document, error) {
 		ln := int(p.readUint8())
 		b.IK.Loop = int(p.readUint16())
 		p.readFloat()
-		for i := 0; i < ln; i++ {
+		for i := 0; i < ln && p.err == nil; i++ {
 			b.IK.Links = append(b.IK.Links, &Link{TargetID: p.readVInt(2)})
 		}
 	}
@@ -174,7 +170,7 @@ func (p *PMDParser) Parse() (*Document, error) {
 	if n > 0 {
 		base := p.readMorph()
 		model.Morphs = make([]*Morph, n-1)
-		for i := 0; i < n-1; i++ {
+		for i := 0; i < n-1 && p.err == nil; i++ {
 			model.Morphs[i] = p.readMorph()
 			for _, v := range model.Morphs[i].Vertex {
 				if v.Target < 0 || v.Target >= len(base.Vertex) {
diff --git a/mmd/pmx_parser.go b/mmd/pmx_parser.go
index 96e5c9a..27f0ffa 100644
--- a/mmd/pmx_parser.go
+++ b/mmd/pmx_parser.go
@@ -2,6 +2,7 @@ package mmd
 
 import (
 	"bufio"
+	"encoding/binary"
 	"fmt"
 	"io"
 	"log"
@@ -30,16 +31,17 @@ func (p *PMXParser) readUIndex(attrTyp int) int {
 }
 
 func (p *PMXParser) readText() string {
-	len := p.readInt()
+	n := p.readInt()
 
 	if p.header.Info[AttrStringEncoding] == 0 {
-		utf16data := make([]uint16, len/2)
-		p.read(&utf16data)
+		data := p.readBytes(n / 2 * 2)
+		utf16data := make([]uint16, len(data)/2)
+		for i := range utf16data {
+			utf16data[i] = binary.LittleEndian.Uint16(data[i*2:])
+		}
 		return string(utf16.Decode(utf16data))
 	}
-	data := make([]byte, len)
-	p.read(&data)
-	return string(data)
+	return string(p.readBytes(n))
 }
 
 func (p *PMXParser) readHeader() error {
@@ -183,7 +185,7 @@ func (p *PMXParser) readBone() *Bone {
 		b.IK.Loop = p.readInt()
 		b.IK.LimitRad = p.readFloat()
 		links := p.readInt()
-		for i := 0; i < links; i++ {
+		for i := 0; i < links && p.err == nil; i++ {
 			var l Link
 			l.TargetID = p.readIndex(AttrBoneIndexSz)
 			l.HasLimit = p.readUint8() != 0
@@ -206,7 +208,7 @@ func (p *PMXParser) readMorph() *Morph {
 	p.read(&m.MorphType)
 
 	n := p.readInt()
-	for i := 0; i < n; i++ {
+	for i := 0; i < n && p.err == nil; i++ {
 		switch m.MorphType {
 		case 0:
 			m.Group = append(m.Group, &MorphGroup{
@@ -276,7 +278,7 @@ func (p *PMXParser) readDisplayGroup() {
 	d.NameEn = p.readText()
 	d.Flags = p.readUint8()
 	n := p.readInt()
-	for i := 0; i < n; i++ {
+	for i := 0; i < n && p.err == nil; i++ {
 		t := DisplayTarget{Type: p.readUint8()}
 		if t.Type == 0 {
 			t.Target = p.readIndex(AttrBoneIndexSz)
@@ -348,53 +350,47 @@ func (p *PMXParser) Parse() (*Document, error) {
 	pmx.CommentEn = p.readText()
 
 	vn := p.readInt()
-	pmx.Vertexes = make([]*Vertex, vn)
-	for i := 0; i < vn; i++ {
-		pmx.Vertexes[i] = p.readVertex()
+	for i := 0; i < vn && p.err == nil; i++ {
+		pmx.Vertexes = append(pmx.Vertexes, p.readVertex())
 	}
 
 	fn := p.readInt() / 3
-	pmx.Faces = make([]*Face, fn)
-	for i := 0; i < fn; i++ {
-		pmx.Faces[i] = p.readFace()
+	for i := 0; i < fn && p.err == nil; i++ {
+		pmx.Faces = append(pmx.Faces, p.readFace())
 	}
 
 	tn := p.readInt()
-	pmx.Textures = make([]string, tn)
-	for i := 0; i < tn; i++ {
-		pmx.Textures[i] = p.readText()
+	for i := 0; i < tn && p.err == nil; i++ {
+		pmx.Textures = append(pmx.Textures, p.readText())
 	}
 
 	mn := p.readInt()
-	pmx.Materials = make([]*Material, mn)
-	for i := 0; i < mn; i++ {
-		pmx.Materials[i] = p.readMaterial()
+	for i := 0; i < mn && p.err == nil; i++ {
+		pmx.Materials = append(pmx.Materials, p.readMaterial())
 	}
 
 	bn := p.readInt()
-	pmx.Bones = make([]*Bone, bn)
-	for i := 0; i < bn; i++ {
-		pmx.Bones[i] = p.readBone()
+	for i := 0; i < bn && p.err == nil; i++ {
+		pmx.Bones = append(pmx.Bones, p.readBone())
 	}
 
 	pn := p.readInt()
-	pmx.Morphs = make([]*Morph, pn)
-	for i := 0; i < pn; i++ {
-		pmx.Morphs[i] = p.readMorph()
+	for i := 0; i < pn && p.err == nil; i++ {
+		pmx.Morphs = append(pmx.Morphs, p.readMorph())
 	}
 
 	gn := p.readInt()
-	for i := 0; i < gn; i++ {
+	for i := 0; i < gn && p.err == nil; i++ {
 		p.readDisplayGroup() // TODO
 	}
 
 	rb := p.readInt()
-	for i := 0; i < rb; i++ {
+	for i := 0; i < rb && p.err == nil; i++ {
 		pmx.Bodies = append(pmx.Bodies, p.readRigidBody())
 	}
 
 	jn := p.readInt()
-	for i := 0; i < jn; i++ {
+	for i := 0; i < jn && p.err == nil; i++ {
 		pmx.Joints = append(pmx.Joints, p.readJoint())
 	}
 
diff --git a/mmd/vmd_parser.go b/mmd/vmd_parser.go
index 8e0755e..858abba 100644
--- a/mmd/vmd_parser.go
+++ b/mmd/vmd_parser.go
@@ -120,7 +120,7 @@ func (p *VMDParser) Parse() (*Animation, error) {
 	anim.Name = p.readString(20)
 
 	frames := p.readInt()
-	for i := 0; i < frames; i++ {
+	for i := 0; i < frames && p.err == nil; i++ {
 		sample := &AnimationBoneSample{}
 		sample.Target = p.readString(15)
 		sample.Frame = p.readInt()
@@ -131,7 +131,7 @@ func (p *VMDParser) Parse() (*Animation, error) {
 	}
 
 	frames = p.readInt()
-	for i := 0; i < frames; i++ {
+	for i := 0; i < frames && p.err == nil; i++ {
 		sample := &AnimationMorphSample{}
 		sample.Target = p.readString(15)
 		sample.Frame = p.readInt()
-- 
2.43.0


From 3a8c8a1bfb257c2c79d206e93b6155fc33768176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:26:05 +0000
Subject: [PATCH 140/170] fix: do not allocate memory for broken lengths in
 binary FBX files

---
 fbx/binary_parser.go | 60 ++++++++++++++++++++++++++------------------
 1 file changed, 36 insertions(+), 24 deletions(-)

diff --git a/fbx/binary_parser.go b/fbx/binary_parser.go
index 4520ea2..8ad9cce 100644
--- a/fbx/binary_parser.go
+++ b/fbx/binary_parser.go
@@ -2,6 +2,7 @@ package fbx
 
 import (
 	"bufio"
+	"bytes"
 	"compress/zlib"
 	"encoding/binary"
 	"fmt"
@@ -91,10 +92,20 @@ func (p *binaryParser) readFloat64() float64 {
 	return v
 }
 
+// readBytes reads n bytes. Memory is allocated as the data arrives, because n may be broken.
+func (p *binaryParser) readBytes(r io.Reader, n int64) []byte {
+	var buf bytes.Buffer
+	if p.err == nil {
+		_, p.err = io.CopyN(&buf, r, n)
+		if p.err == io.EOF {
+			p.err = io.ErrUnexpectedEOF
+		}
+	}
+	return buf.Bytes()
+}
+
 func (p *binaryParser) readString(len uint) string {
-	bytes := make([]byte, len)
-	p.read(bytes)
-	return string(bytes)
+	return string(p.readBytes(p.r, int64(len)))
 }
 
 func (p *binaryParser) readName() string {
@@ -102,9 +113,27 @@ func (p *binaryParser) readName() string {
 }
 
 func (p *binaryParser) readPropArray(typ uint8) *Attribute {
-	count := uint(p.readUint32())
+	count := int64(p.readUint32())
 	encoding := p.readUint32()
 	sz := p.readUint32()
+	size := count * map[uint8]int64{'b': 1, 'y': 2, 'i': 4, 'l': 8, 'f': 4, 'd': 8}[typ]
+	var data []byte
+	if encoding == 0 {
+		data = p.readBytes(p.r, size)
+	} else {
+		next := p.r.position + int64(sz)
+		r, err := zlib.NewReader(io.LimitReader(p.r, int64(sz)))
+		if err != nil {
+			p.err = err
+			return nil
+		}
+		defer r.Close()
+		data = p.readBytes(r, size)
+		p.r.SkipTo(next)
+	}
+	if p.err != nil {
+		return nil
+	}
 	var buf interface{}
 	switch typ {
 	case 'b':
@@ -122,22 +151,7 @@ func (p *binaryParser) readPropArray(typ uint8) *Attribute {
 	default:
 		return nil
 	}
-	if encoding == 0 {
-		p.read(buf)
-	} else {
-		next := p.r.position + int64(sz)
-		r, err := zlib.NewReader(io.LimitReader(p.r, int64(sz)))
-		if err != nil {
-			p.err = err
-			return &Attribute{buf}
-		}
-		defer r.Close()
-		err = binary.Read(r, binary.LittleEndian, buf)
-		if p.err == nil {
-			p.err = err
-		}
-		p.r.SkipTo(next)
-	}
+	binary.Read(bytes.NewReader(data), binary.LittleEndian, buf)
 	return &Attribute{buf}
 }
 
@@ -172,9 +186,7 @@ func (p *binaryParser) readProp() *Attribute {
 	case 'S':
 		return &Attribute{p.readString(uint(p.readUint32()))}
 	case 'R':
-		buf := make([]byte, p.readUint32())
-		p.read(buf)
-		return &Attribute{buf}
+		return &Attribute{p.readBytes(p.r, int64(p.readUint32()))}
 	case 'b', 'y', 'i', 'l', 'f', 'd':
 		return p.readPropArray(typ)
 	}
@@ -240,7 +252,7 @@ func (p *binaryParser) Parse() (*Node, error) {
 	magic := p.readString(21)
 	if magic != "Kaydara FBX Binary  \x00" {
 		// try parse texy. TODO
-		if magic[0] == ';' {
+		if magic != "" && magic[0] == ';' {
 			p2 := &textParser{r: bufio.NewReader(p.r.r), buf: []byte(magic)}
 			return p2.Parse()
 		}
-- 
2.43.0


From 6da1b1b20d15b349f77c102169861fe4be5cdfa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:32:12 +0000
Subject: [PATCH 141/170] fix: stop reading MQO files with broken counts at the
 end of the file

---
 mqo/mqo_parser.go | 39 ++++++++++++++++++++++-----------------
 1 file changed, 22 insertions(+), 17 deletions(-)

diff --git a/mqo/mqo_parser.go b/mqo/mqo_parser.go
index bb8c5df..c438039 100644
--- a/mqo/mqo_parser.go
+++ b/mqo/mqo_parser.go
@@ -147,11 +147,16 @@ func (p *Parser) skipBlock() {
 	p.s.ErrorCount++ // not closed
 }
 
+// more returns false after n values or at the end of the file, because n may be broken.
+func (p *Parser) more(i, n int) bool {
+	return i < n && p.s.Peek() != scanner.EOF
+}
+
 func (p *Parser) procArray(init, elem func(n int), name string) {
 	n := p.readInt()
 	p.skip("{")
 	init(n)
-	for i := 0; i < n; i++ {
+	for i := 0; p.more(i, n); i++ {
 		elem(i)
 	}
 	p.skip("}")
@@ -278,46 +283,46 @@ func (p *Parser) readObject() *Object {
 		"color":       func() { o.Color = &Vector3{X: p.readFloat(), Y: p.readFloat(), Z: p.readFloat()} },
 		"vertex": func() {
 			p.procArray(func(n int) {
-				o.Vertexes = make([]*Vector3, n)
+				o.Vertexes = nil
 			}, func(i int) {
-				o.Vertexes[i] = &Vector3{X: p.readFloat(), Y: p.readFloat(), Z: p.readFloat()}
+				o.Vertexes = append(o.Vertexes, &Vector3{X: p.readFloat(), Y: p.readFloat(), Z: p.readFloat()})
 			}, "vertex")
 		},
 		"face": func() {
 			p.procArray(func(n int) {
-				o.Faces = make([]*Face, n)
+				o.Faces = nil
 			}, func(i int) {
 				var f Face
-				o.Faces[i] = &f
+				o.Faces = append(o.Faces, &f)
 				vn := p.readInt()
 				p.procAttrs(map[string]func(){
 					"V": func() {
-						f.Verts = make([]int, vn)
-						for i := 0; i < vn; i++ {
-							f.Verts[i] = p.readInt()
+						f.Verts = nil
+						for i := 0; p.more(i, vn); i++ {
+							f.Verts = append(f.Verts, p.readInt())
 						}
 					},
 					"M": func() { f.Material = p.readInt() },
 					"UV": func() {
-						f.UVs = make([]Vector2, vn)
-						for i := 0; i < vn; i++ {
-							f.UVs[i] = Vector2{X: p.readFloat(), Y: p.readFloat()}
+						f.UVs = nil
+						for i := 0; p.more(i, vn); i++ {
+							f.UVs = append(f.UVs, Vector2{X: p.readFloat(), Y: p.readFloat()})
 						}
 					},
 					"N": func() {
-						flags := make([]int, vn)
-						f.Normals = make([]*Vector3, vn)
-						for i := 0; i < vn; i++ {
-							flags[i] = p.readInt()
+						var flags []int
+						for i := 0; p.more(i, vn); i++ {
+							flags = append(flags, p.readInt())
 						}
-						for i := 0; i < vn; i++ {
+						f.Normals = make([]*Vector3, len(flags))
+						for i := range flags {
 							if flags[i]&2 != 0 {
 								f.Normals[i] = &Vector3{X: p.readFloat(), Y: p.readFloat(), Z: p.readFloat()}
 							}
 						}
 					},
 					"CRS": func() {
-						for i := 0; i < vn; i++ {
+						for i := 0; p.more(i, vn); i++ {
 							p.readFloat()
 						}
 					},
-- 
2.43.0


From 259e7e402a443a79161493eefca90f97185c4079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:23 +0000
Subject: [PATCH 142/170] fix: report broken vertex references in PMX and PMD
 files instead of crashing

---
 converter/mmd2mqo.go |  2 +-
 mmd/mmd.go           | 33 +++++++++++++++++++++++++++++++++
 mmd/pmd_parser.go    |  3 +++
 mmd/pmx_parser.go    |  3 +++
 4 files changed, 40 insertions(+), 1 deletion(-)

diff --git a/converter/mmd2mqo.go b/converter/mmd2mqo.go
index 0eb1c07..ddbae0c 100644
--- a/converter/mmd2mqo.go
+++ b/converter/mmd2mqo.go
@@ -38,7 +38,7 @@ func (c *mmdToMQO) convertMaterial(mat *mmd.Material, model *mmd.Document) *mqo.
 	m.Ambient = 1.4
 	m.Power = mat.Specularity
 	m.DoubleSided = mat.Flags&mmd.MaterialFlagDoubleSided != 0
-	if mat.TextureID >= 0 {
+	if mat.TextureID >= 0 && mat.TextureID < len(model.Textures) {
 		m.Texture = model.Textures[mat.TextureID]
 	}
 
diff --git a/mmd/mmd.go b/mmd/mmd.go
index d0406b6..8fa9833 100644
--- a/mmd/mmd.go
+++ b/mmd/mmd.go
@@ -1,6 +1,7 @@
 package mmd
 
 import (
+	"fmt"
 	"os"
 
 	"github.com/binzume/modelconv/geom"
@@ -27,6 +28,38 @@ type Document struct {
 	Joints    []*Joint
 }
 
+// validate checks references to vertexes and faces.
+func (doc *Document) validate() error {
+	invalid := func(v int) bool { return v < 0 || v >= len(doc.Vertexes) }
+	for _, f := range doc.Faces {
+		for _, v := range f.Verts {
+			if invalid(v) {
+				return fmt.Errorf("invalid vertex index %v in faces", v)
+			}
+		}
+	}
+	for _, m := range doc.Morphs {
+		for _, t := range m.Vertex {
+			if invalid(t.Target) {
+				return fmt.Errorf("invalid vertex index %v in morph %v", t.Target, m.Name)
+			}
+		}
+		for _, t := range m.UV {
+			if invalid(t.Target) {
+				return fmt.Errorf("invalid vertex index %v in morph %v", t.Target, m.Name)
+			}
+		}
+	}
+	count := 0
+	for _, m := range doc.Materials {
+		count += m.Count / 3
+		if m.Count < 0 || count > len(doc.Faces) {
+			return fmt.Errorf("invalid face count %v in material %v", m.Count, m.Name)
+		}
+	}
+	return nil
+}
+
 func NewDocument() *Document {
 	return &Document{Header: &Header{
 		Format:  []byte("PMX "),
diff --git a/mmd/pmd_parser.go b/mmd/pmd_parser.go
index 829599e..9c6ed01 100644
--- a/mmd/pmd_parser.go
+++ b/mmd/pmd_parser.go
@@ -182,6 +182,9 @@ func (p *PMDParser) Parse() (*Document, error) {
 		}
 	}
 
+	if p.err == nil {
+		p.err = model.validate()
+	}
 	if p.err != nil {
 		return nil, p.err
 	}
diff --git a/mmd/pmx_parser.go b/mmd/pmx_parser.go
index 27f0ffa..9142342 100644
--- a/mmd/pmx_parser.go
+++ b/mmd/pmx_parser.go
@@ -394,6 +394,9 @@ func (p *PMXParser) Parse() (*Document, error) {
 		pmx.Joints = append(pmx.Joints, p.readJoint())
 	}
 
+	if p.err == nil {
+		p.err = pmx.validate()
+	}
 	if p.err != nil {
 		return nil, p.err
 	}
-- 
2.43.0


From 18db2e60793c2e5639a78879ead6c1553b71c860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:23 +0000
Subject: [PATCH 143/170] fix: report broken vertex references in MQO files
 instead of crashing

---
 mqo/mqo_parser.go |  6 ++++++
 mqo/mqo_writer.go |  4 +++-
 mqo/utils.go      | 10 ++++++++++
 3 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/mqo/mqo_parser.go b/mqo/mqo_parser.go
index c438039..04e735f 100644
--- a/mqo/mqo_parser.go
+++ b/mqo/mqo_parser.go
@@ -342,6 +342,12 @@ func (p *Parser) readObject() *Object {
 			}, "vertexattr")
 		},
 	}, fmt.Sprintf("Object %v\n", o.Name))
+	for i, f := range o.Faces {
+		if !o.HasVertexes(f) {
+			log.Printf("  Invalid vertex  Object %v F%v %v\n", o.Name, i, f.Verts)
+			p.s.ErrorCount++
+		}
+	}
 	return o
 }
 
diff --git a/mqo/mqo_writer.go b/mqo/mqo_writer.go
index 311a0a1..ba978b1 100644
--- a/mqo/mqo_writer.go
+++ b/mqo/mqo_writer.go
@@ -201,7 +201,9 @@ func (writer *Writer) WriteMQO(mqo *Document, ww io.Writer) error {
 			w.WriteString("\t\tuid {\n")
 			uids := make([]int, len(obj.Vertexes))
 			for uid, v := range obj.VertexByUID {
-				uids[v] = uid
+				if v >= 0 && v < len(uids) {
+					uids[v] = uid
+				}
 			}
 			for i, uid := range uids {
 				if uid == 0 {
diff --git a/mqo/utils.go b/mqo/utils.go
index 12bc630..bf128d5 100644
--- a/mqo/utils.go
+++ b/mqo/utils.go
@@ -40,6 +40,16 @@ func (doc *Document) ApplyTransform(transform *Matrix4) {
 	}
 }
 
+// HasVertexes returns true if all the vertexes of the face exist in the object.
+func (obj *Object) HasVertexes(f *Face) bool {
+	for _, v := range f.Verts {
+		if v < 0 || v >= len(obj.Vertexes) {
+			return false
+		}
+	}
+	return true
+}
+
 func (obj *Object) GetSmoothNormals() []Vector3 {
 	normal := make([]Vector3, len(obj.Vertexes))
 
-- 
2.43.0


From aa1312b9d73286297fdfec9e55ba655a1cf61787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:23 +0000
Subject: [PATCH 144/170] fix: do not crash on broken references in FBX files

---
 converter/fbx2mqo.go |  8 ++++++--
 fbx/fbx_document.go  | 44 ++++++++++++++++++++++++++++++++++++++++----
 fbx/fbx_object.go    |  3 +++
 3 files changed, 49 insertions(+), 6 deletions(-)

diff --git a/converter/fbx2mqo.go b/converter/fbx2mqo.go
index 0c77e39..05f65bc 100644
--- a/converter/fbx2mqo.go
+++ b/converter/fbx2mqo.go
@@ -141,7 +141,7 @@ func (c *fbxToMqoState) convertModel(m *fbx.Model, d int, parentTransform *geom.
 					materialIDs = make([]int, len(c.MaterialOverride))
 					n := 0
 					for _, m := range matArray {
-						if matMap[m] || m >= int32(len(materialIDs)) {
+						if matMap[m] || m < 0 || m >= int32(len(materialIDs)) {
 							continue
 						}
 						matMap[m] = true
@@ -279,6 +279,10 @@ func (c *fbxToMqoState) convertGeometry(g *fbx.Geometry, obj *mqo.Object, transf
 			}
 		}
 		vcount += len(f)
+		if !obj.HasVertexes(face) {
+			log.Println("ERROR: Polygon ", g.Name(), i, f)
+			continue
+		}
 		face.Flip()
 		obj.Faces = append(obj.Faces, face)
 	}
@@ -363,7 +367,7 @@ func (c *fbxToMqoState) convertShape(node *fbx.GeometryShape, src *mqo.Object, g
 	}
 
 	for i, idx := range indexes {
-		if int(idx) < len(obj.Vertexes) {
+		if idx >= 0 && int(idx) < len(obj.Vertexes) {
 			obj.Vertexes[idx] = transfrom.ApplyTo(g.Vertices[idx].Add(vertices[i]))
 		}
 	}
diff --git a/fbx/fbx_document.go b/fbx/fbx_document.go
index 66815ac..b77f516 100644
--- a/fbx/fbx_document.go
+++ b/fbx/fbx_document.go
@@ -1,6 +1,10 @@
 package fbx
 
-import "github.com/binzume/modelconv/geom"
+import (
+	"fmt"
+
+	"github.com/binzume/modelconv/geom"
+)
 
 type Document struct {
 	FileId       []byte
@@ -137,6 +141,34 @@ func BuildDocument(root *Node) (*Document, error) {
 		}
 	}
 
+	// A cyclic model tree cannot be traversed.
+	const visiting, visited = 1, 2
+	state := map[*Model]int{}
+	var visit func(m *Model) error
+	visit = func(m *Model) error {
+		if state[m] == visiting {
+			return fmt.Errorf("cyclic connection: %v", m.Name())
+		}
+		if state[m] == visited {
+			return nil
+		}
+		state[m] = visiting
+		for _, child := range m.GetChildModels() {
+			if err := visit(child); err != nil {
+				return err
+			}
+		}
+		state[m] = visited
+		return nil
+	}
+	for _, obj := range doc.ObjectByID {
+		if m, ok := obj.(*Model); ok {
+			if err := visit(m); err != nil {
+				return nil, err
+			}
+		}
+	}
+
 	return doc, nil
 }
 
@@ -182,8 +214,12 @@ func (doc *Document) CoordMatrix() *geom.Matrix4 {
 		0, 0, 0, 0,
 		0, 0, 0, 1,
 	}
-	mat[gs.GetProperty("CoordAxis").ToInt(0)*4] = gs.GetProperty("CoordAxisSign").ToFloat32(1)
-	mat[gs.GetProperty("UpAxis").ToInt(1)*4+1] = gs.GetProperty("UpAxisSign").ToFloat32(1)
-	mat[gs.GetProperty("FrontAxis").ToInt(2)*4+2] = gs.GetProperty("FrontAxisSign").ToFloat32(1)
+	for i, name := range []string{"CoordAxis", "UpAxis", "FrontAxis"} {
+		axis := gs.GetProperty(name).ToInt(i)
+		if axis < 0 || axis > 2 {
+			axis = i // invalid
+		}
+		mat[axis*4+i] = gs.GetProperty(name + "Sign").ToFloat32(1)
+	}
 	return &mat
 }
diff --git a/fbx/fbx_object.go b/fbx/fbx_object.go
index c3285c0..87862d5 100644
--- a/fbx/fbx_object.go
+++ b/fbx/fbx_object.go
@@ -59,6 +59,9 @@ func (o *Obj) GetProperty(name string) *Property {
 	if o.properties == nil {
 		o.properties = map[string]*Property{}
 		for _, node := range o.FindChild("Properties70").GetChildren() {
+			if len(node.Attributes) < 4 {
+				continue // broken
+			}
 			o.properties[node.Attr(0).ToString()] = &Property{
 				AttributeList: node.Attributes[4:],
 				Type:          node.Attr(1).ToString(),
-- 
2.43.0


From f8284e5de94ebc257afb35d01669eb2b35863cda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:05:11 +0000
Subject: [PATCH 145/170] fix: report broken references in glTF files instead
 of crashing

---
 converter/gltf2mqo.go  |  29 ++++-
 converter/vrmconfig.go |   3 +
 gltfutil/gltf_joint.go |   3 +
 gltfutil/gltf_utils.go |   6 +
 gltfutil/validate.go   | 250 +++++++++++++++++++++++++++++++++++++++++
 5 files changed, 290 insertions(+), 1 deletion(-)
 create mode 100644 gltfutil/validate.go

diff --git a/converter/gltf2mqo.go b/converter/gltf2mqo.go
index 337ff00..c934cdb 100644
--- a/converter/gltf2mqo.go
+++ b/converter/gltf2mqo.go
@@ -63,6 +63,25 @@ func (c *gltfToMqo) convertMaterial(src *gltf.Document, m *gltf.Material) *mqo.M
 	return mat
 }
 
+// hasData returns false if the data is not in a buffer (e.g. it is compressed).
+func (c *gltfToMqo) hasData(src *gltf.Document, p *gltf.Primitive) bool {
+	var accessors []uint32
+	if p.Indices != nil {
+		accessors = append(accessors, *p.Indices)
+	}
+	for _, name := range []string{"POSITION", "TEXCOORD_0"} {
+		if a, ok := p.Attributes[name]; ok {
+			accessors = append(accessors, a)
+		}
+	}
+	for _, a := range accessors {
+		if acr := src.Accessors[a]; acr.BufferView == nil && acr.Sparse == nil {
+			return false
+		}
+	}
+	return true
+}
+
 func (c *gltfToMqo) convertMesh(src *gltf.Document, m *gltf.Mesh) *mqo.Object {
 	obj := mqo.NewObject(m.Name)
 	for _, p := range m.Primitives {
@@ -70,6 +89,10 @@ func (c *gltfToMqo) convertMesh(src *gltf.Document, m *gltf.Mesh) *mqo.Object {
 			log.Print("unsupported primitive mode: ", p.Mode)
 			continue
 		}
+		if !c.hasData(src, p) {
+			log.Print("primitive without data: ", m.Name)
+			continue
+		}
 		vertexOffset := len(obj.Vertexes)
 		if a, ok := p.Attributes["POSITION"]; ok {
 			acr := src.Accessors[a]
@@ -111,7 +134,11 @@ func (c *gltfToMqo) convertMesh(src *gltf.Document, m *gltf.Mesh) *mqo.Object {
 		}
 		for i := 0; i < len(indices)/3; i++ {
 			f := &mqo.Face{Material: mat, Verts: []int{vertexOffset + int(indices[i*3]), vertexOffset + int(indices[i*3+2]), vertexOffset + int(indices[i*3+1])}}
-			if len(texCoord) > int(indices[i*3]) {
+			if !obj.HasVertexes(f) {
+				log.Print("invalid vertex index: ", m.Name)
+				continue
+			}
+			if n := uint32(len(texCoord)); n > indices[i*3] && n > indices[i*3+1] && n > indices[i*3+2] {
 				f.UVs = []mqo.Vector2{
 					{X: texCoord[indices[i*3]][0], Y: texCoord[indices[i*3]][1]},
 					{X: texCoord[indices[i*3+2]][0], Y: texCoord[indices[i*3+2]][1]},
diff --git a/converter/vrmconfig.go b/converter/vrmconfig.go
index b669282..8330f53 100644
--- a/converter/vrmconfig.go
+++ b/converter/vrmconfig.go
@@ -386,6 +386,9 @@ func ApplyConfig(doc *vrm.Document, conf *Config) (*vrm.Document, error) {
 	}
 
 	for _, b := range sourceBones {
+		if b == nil {
+			continue
+		}
 		if _, ok := foundBones[b.Bone]; !ok {
 			foundBones[b.Bone] = b.Node
 			ext.Humanoid.Bones = append(ext.Humanoid.Bones, b)
diff --git a/gltfutil/gltf_joint.go b/gltfutil/gltf_joint.go
index 059eedb..4b89af3 100644
--- a/gltfutil/gltf_joint.go
+++ b/gltfutil/gltf_joint.go
@@ -147,6 +147,9 @@ func FixJointComponentType(doc *gltf.Document) {
 				continue
 			}
 			accessor := doc.Accessors[attr]
+			if accessor.BufferView == nil && accessor.Sparse == nil {
+				continue // no data
+			}
 			joints, err := modeler.ReadJoints(doc, accessor, nil)
 			if err != nil {
 				log.Print(err)
diff --git a/gltfutil/gltf_utils.go b/gltfutil/gltf_utils.go
index bc11d50..b88b045 100644
--- a/gltfutil/gltf_utils.go
+++ b/gltfutil/gltf_utils.go
@@ -61,6 +61,9 @@ func Load(path string) (*gltf.Document, error) {
 			return nil, fmt.Errorf("buffer %d: %w", i, io.ErrUnexpectedEOF)
 		}
 	}
+	if err := validate(doc); err != nil {
+		return nil, err
+	}
 	return doc, nil
 }
 
@@ -219,6 +222,9 @@ func ApplyTransform(doc *gltf.Document, transformMat *geom.Matrix4) {
 	}
 	for a, diff := range accs {
 		acr := doc.Accessors[a]
+		if acr.BufferView == nil && acr.Sparse == nil {
+			continue // no data
+		}
 		pos, err := modeler.ReadPosition(doc, acr, [][3]float32{})
 		if err != nil {
 			log.Fatalf("err %v", err)
diff --git a/gltfutil/validate.go b/gltfutil/validate.go
new file mode 100644
index 0000000..e34ea39
--- /dev/null
+++ b/gltfutil/validate.go
@@ -0,0 +1,250 @@
+package gltfutil
+
+import (
+	"encoding/binary"
+	"fmt"
+	"reflect"
+
+	"github.com/qmuntal/gltf"
+)
+
+// refChecker collects the first invalid reference.
+type refChecker struct {
+	doc *gltf.Document
+	err error
+}
+
+func (c *refChecker) errorf(format string, a ...interface{}) {
+	if c.err == nil {
+		c.err = fmt.Errorf(format, a...)
+	}
+}
+
+// ref checks the index of an element in a list.
+func (c *refChecker) ref(owner, kind string, index uint32, n int) bool {
+	if uint64(index) >= uint64(n) {
+		c.errorf("%s: invalid %s index %d", owner, kind, index)
+		return false
+	}
+	return true
+}
+
+func (c *refChecker) optRef(owner, kind string, index *uint32, n int) bool {
+	return index == nil || c.ref(owner, kind, *index, n)
+}
+
+func (c *refChecker) attributes(owner string, attrs gltf.Attribute) {
+	for name, a := range attrs {
+		c.ref(owner, name+" accessor", a, len(c.doc.Accessors))
+	}
+}
+
+// viewData returns the bytes of count elements in a buffer view.
+func (c *refChecker) viewData(owner string, view, offset, count, size uint32) ([]byte, uint32) {
+	if !c.ref(owner, "buffer view", view, len(c.doc.BufferViews)) {
+		return nil, 0
+	}
+	bv := c.doc.BufferViews[view]
+	stride := bv.ByteStride
+	if stride == 0 {
+		stride = size
+	}
+	end := uint64(offset)
+	if count > 0 {
+		end += uint64(count-1)*uint64(stride) + uint64(size)
+	}
+	if size == 0 || stride < size || end > uint64(bv.ByteLength) {
+		c.errorf("%s: out of buffer view %d", owner, view)
+	}
+	if c.err != nil {
+		return nil, stride
+	}
+	return c.doc.Buffers[bv.Buffer].Data[bv.ByteOffset:][offset:end], stride
+}
+
+func (c *refChecker) accessor(owner string, a *gltf.Accessor) {
+	size := a.ComponentType.ByteSize() * a.Type.Components()
+	if a.BufferView != nil {
+		bv := *a.BufferView
+		if int(bv) < len(c.doc.BufferViews) {
+			if stride := c.doc.BufferViews[bv].ByteStride; stride != 0 && stride < gltf.SizeOfElement(a.ComponentType, a.Type) {
+				c.errorf("%s: invalid stride %d", owner, stride)
+			}
+		}
+		c.viewData(owner, *a.BufferView, a.ByteOffset, a.Count, size)
+	}
+	if s := a.Sparse; s != nil {
+		var total uint64
+		for _, b := range c.doc.Buffers {
+			total += uint64(len(b.Data))
+		}
+		if s.Count > a.Count || uint64(a.Count) > total {
+			c.errorf("%s: invalid sparse count %d", owner, s.Count)
+			return
+		}
+		c.viewData(owner, s.Values.BufferView, s.Values.ByteOffset, s.Count, size)
+		indexSize := gltf.SizeOfElement(s.Indices.ComponentType, gltf.AccessorScalar)
+		data, stride := c.viewData(owner, s.Indices.BufferView, s.Indices.ByteOffset, s.Count, indexSize)
+		for c.err == nil && len(data) > 0 {
+			c.ref(owner, "sparse", readIndex(data, s.Indices.ComponentType), int(a.Count))
+			if len(data) < int(stride) {
+				break
+			}
+			data = data[stride:]
+		}
+	}
+}
+
+func readIndex(data []byte, t gltf.ComponentType) uint32 {
+	switch t {
+	case gltf.ComponentByte, gltf.ComponentUbyte:
+		return uint32(data[0])
+	case gltf.ComponentShort, gltf.ComponentUshort:
+		return uint32(binary.LittleEndian.Uint16(data))
+	}
+	return binary.LittleEndian.Uint32(data)
+}
+
+// nodeTree checks that the nodes are trees.
+func (c *refChecker) nodeTree() {
+	parents := make([]*uint32, len(c.doc.Nodes))
+	for i, n := range c.doc.Nodes {
+		for _, child := range n.Children {
+			if parents[child] != nil {
+				c.errorf("node %d: has many parents", child)
+				return
+			}
+			parents[child] = gltf.Index(uint32(i))
+		}
+	}
+	checked := make([]bool, len(c.doc.Nodes))
+	for i := range c.doc.Nodes {
+		visiting := map[uint32]bool{}
+		for n := gltf.Index(uint32(i)); n != nil && !checked[*n]; n = parents[*n] {
+			if visiting[*n] {
+				c.errorf("node %d: cyclic tree", *n)
+				return
+			}
+			visiting[*n] = true
+		}
+		for n := range visiting {
+			checked[n] = true
+		}
+	}
+}
+
+// validate checks the references of the document.
+func validate(doc *gltf.Document) error {
+	for _, list := range []interface{}{doc.Accessors, doc.Animations, doc.Buffers, doc.BufferViews, doc.Cameras, doc.Images,
+		doc.Materials, doc.Meshes, doc.Nodes, doc.Samplers, doc.Scenes, doc.Skins, doc.Textures} {
+		for v, i := reflect.ValueOf(list), 0; i < v.Len(); i++ {
+			if v.Index(i).IsNil() {
+				return fmt.Errorf("invalid element %d in %v", i, v.Type())
+			}
+		}
+	}
+
+	c := &refChecker{doc: doc}
+	for i, v := range doc.BufferViews {
+		owner := fmt.Sprintf("bufferView %d", i)
+		if c.ref(owner, "buffer", v.Buffer, len(doc.Buffers)) &&
+			uint64(v.ByteOffset)+uint64(v.ByteLength) > uint64(len(doc.Buffers[v.Buffer].Data)) {
+			c.errorf("%s: out of buffer %d", owner, v.Buffer)
+		}
+	}
+	for i, a := range doc.Accessors {
+		c.accessor(fmt.Sprintf("accessor %d", i), a)
+	}
+	for i, m := range doc.Images {
+		c.optRef(fmt.Sprintf("image %d", i), "buffer view", m.BufferView, len(doc.BufferViews))
+	}
+	for i, t := range doc.Textures {
+		owner := fmt.Sprintf("texture %d", i)
+		c.optRef(owner, "sampler", t.Sampler, len(doc.Samplers))
+		c.optRef(owner, "image", t.Source, len(doc.Images))
+	}
+	for i, m := range doc.Materials {
+		owner := fmt.Sprintf("material %d", i)
+		textures := []*gltf.TextureInfo{m.EmissiveTexture}
+		if pbr := m.PBRMetallicRoughness; pbr != nil {
+			textures = append(textures, pbr.BaseColorTexture, pbr.MetallicRoughnessTexture)
+		}
+		for _, t := range textures {
+			if t != nil {
+				c.ref(owner, "texture", t.Index, len(doc.Textures))
+			}
+		}
+		if t := m.NormalTexture; t != nil {
+			c.optRef(owner, "texture", t.Index, len(doc.Textures))
+		}
+		if t := m.OcclusionTexture; t != nil {
+			c.optRef(owner, "texture", t.Index, len(doc.Textures))
+		}
+	}
+	for i, m := range doc.Meshes {
+		owner := fmt.Sprintf("mesh %d", i)
+		for _, p := range m.Primitives {
+			if p == nil {
+				c.errorf("%s: invalid primitive", owner)
+				continue
+			}
+			c.attributes(owner, p.Attributes)
+			for _, t := range p.Targets {
+				c.attributes(owner, t)
+			}
+			c.optRef(owner, "indices accessor", p.Indices, len(doc.Accessors))
+			c.optRef(owner, "material", p.Material, len(doc.Materials))
+		}
+	}
+	for i, n := range doc.Nodes {
+		owner := fmt.Sprintf("node %d", i)
+		c.optRef(owner, "camera", n.Camera, len(doc.Cameras))
+		c.optRef(owner, "mesh", n.Mesh, len(doc.Meshes))
+		c.optRef(owner, "skin", n.Skin, len(doc.Skins))
+		for _, child := range n.Children {
+			c.ref(owner, "child", child, len(doc.Nodes))
+		}
+	}
+	c.optRef("document", "scene", doc.Scene, len(doc.Scenes))
+	for i, s := range doc.Scenes {
+		for _, n := range s.Nodes {
+			c.ref(fmt.Sprintf("scene %d", i), "node", n, len(doc.Nodes))
+		}
+	}
+	for i, s := range doc.Skins {
+		owner := fmt.Sprintf("skin %d", i)
+		for _, n := range s.Joints {
+			c.ref(owner, "joint", n, len(doc.Nodes))
+		}
+		c.optRef(owner, "skeleton", s.Skeleton, len(doc.Nodes))
+		if s.InverseBindMatrices != nil && c.ref(owner, "accessor", *s.InverseBindMatrices, len(doc.Accessors)) {
+			a := doc.Accessors[*s.InverseBindMatrices]
+			if a.ComponentType != gltf.ComponentFloat || a.Type != gltf.AccessorMat4 || uint64(a.Count) < uint64(len(s.Joints)) {
+				c.errorf("%s: invalid inverse bind matrices", owner)
+			}
+		}
+	}
+	for i, anim := range doc.Animations {
+		owner := fmt.Sprintf("animation %d", i)
+		for _, s := range anim.Samplers {
+			if s == nil || s.Input == nil || s.Output == nil {
+				c.errorf("%s: invalid sampler", owner)
+				continue
+			}
+			c.ref(owner, "input accessor", *s.Input, len(doc.Accessors))
+			c.ref(owner, "output accessor", *s.Output, len(doc.Accessors))
+		}
+		for _, ch := range anim.Channels {
+			if ch == nil {
+				c.errorf("%s: invalid channel", owner)
+				continue
+			}
+			c.optRef(owner, "sampler", ch.Sampler, len(anim.Samplers))
+			c.optRef(owner, "node", ch.Target.Node, len(doc.Nodes))
+		}
+	}
+	if c.err == nil {
+		c.nodeTree()
+	}
+	return c.err
+}
-- 
2.43.0


From 61e41534c782649ad11e2d3bdc6e1aefe1868ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:05:11 +0000
Subject: [PATCH 146/170] fix: do not write bones with cyclic parents as cyclic
 glTF nodes

---
 converter/mqo2gltf.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/converter/mqo2gltf.go b/converter/mqo2gltf.go
index 9d730aa..7371a86 100644
--- a/converter/mqo2gltf.go
+++ b/converter/mqo2gltf.go
@@ -228,9 +228,19 @@ func (m *mqoToGltf) addBoneNodes(bones []*mqo.Bone) (map[int]uint32, map[uint32]
 		m.Nodes = append(m.Nodes, &gltf.Node{Name: b.Name, Translation: [3]float32{0, 0, 0}, Rotation: [4]float32{0, 0, 0, 1}})
 	}
 
+	isCyclic := func(b *mqo.Bone) bool {
+		p := b
+		for i := 0; i < len(bones) && p != nil && p.Parent > 0; i++ {
+			if p = bonemap[p.Parent]; p == b {
+				return true
+			}
+		}
+		return false
+	}
+
 	for _, b := range bones {
 		node := m.Nodes[idmap[b.ID]]
-		if parent := bonemap[b.Parent]; b.Parent > 0 && parent != nil {
+		if parent := bonemap[b.Parent]; b.Parent > 0 && parent != nil && !isCyclic(b) {
 			node.Translation[0] = ((b.Pos.X - parent.Pos.X) * scale)
 			node.Translation[1] = ((b.Pos.Y - parent.Pos.Y) * scale)
 			node.Translation[2] = ((b.Pos.Z - parent.Pos.Z) * scale)
-- 
2.43.0


From 7728ada32ea9ed8a0e8c9376b69fd2a61bda201e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:11:24 +0000
Subject: [PATCH 147/170] fix: read and transform sparse accessors of glTF
 files

---
 converter/gltf2mqo.go  |  7 +++--
 gltfutil/gltf_joint.go | 10 ++-----
 gltfutil/gltf_utils.go |  6 ++--
 gltfutil/sparse.go     | 64 ++++++++++++++++++++++++++++++++++++++++++
 gltfutil/validate.go   |  3 ++
 5 files changed, 76 insertions(+), 14 deletions(-)
 create mode 100644 gltfutil/sparse.go

diff --git a/converter/gltf2mqo.go b/converter/gltf2mqo.go
index c934cdb..1f2b63d 100644
--- a/converter/gltf2mqo.go
+++ b/converter/gltf2mqo.go
@@ -63,8 +63,8 @@ func (c *gltfToMqo) convertMaterial(src *gltf.Document, m *gltf.Material) *mqo.M
 	return mat
 }
 
-// hasData returns false if the data is not in a buffer (e.g. it is compressed).
-func (c *gltfToMqo) hasData(src *gltf.Document, p *gltf.Primitive) bool {
+// loadData returns false if the data is not in a buffer (e.g. it is compressed).
+func (c *gltfToMqo) loadData(src *gltf.Document, p *gltf.Primitive) bool {
 	var accessors []uint32
 	if p.Indices != nil {
 		accessors = append(accessors, *p.Indices)
@@ -78,6 +78,7 @@ func (c *gltfToMqo) hasData(src *gltf.Document, p *gltf.Primitive) bool {
 		if acr := src.Accessors[a]; acr.BufferView == nil && acr.Sparse == nil {
 			return false
 		}
+		gltfutil.ResolveSparse(src, a)
 	}
 	return true
 }
@@ -89,7 +90,7 @@ func (c *gltfToMqo) convertMesh(src *gltf.Document, m *gltf.Mesh) *mqo.Object {
 			log.Print("unsupported primitive mode: ", p.Mode)
 			continue
 		}
-		if !c.hasData(src, p) {
+		if !c.loadData(src, p) {
 			log.Print("primitive without data: ", m.Name)
 			continue
 		}
diff --git a/gltfutil/gltf_joint.go b/gltfutil/gltf_joint.go
index 4b89af3..4b1e921 100644
--- a/gltfutil/gltf_joint.go
+++ b/gltfutil/gltf_joint.go
@@ -121,11 +121,11 @@ func ResetJointMatrix(doc *gltf.Document) {
 		}
 		fixed[*skin.InverseBindMatrices] = true
 		accessor := doc.Accessors[*skin.InverseBindMatrices]
+		resolveSparse(doc, accessor)
 		if accessor.BufferView == nil {
 			continue
 		}
 		bufferView := doc.BufferViews[*accessor.BufferView]
-		// TODO: support sparse data.
 		data := doc.Buffers[bufferView.Buffer].Data
 		if len(data) == 0 {
 			continue
@@ -150,18 +150,14 @@ func FixJointComponentType(doc *gltf.Document) {
 			if accessor.BufferView == nil && accessor.Sparse == nil {
 				continue // no data
 			}
+			resolveSparse(doc, accessor)
 			joints, err := modeler.ReadJoints(doc, accessor, nil)
 			if err != nil {
 				log.Print(err)
 				continue
 			}
 			// The view may contain other data, so the joints get a new one.
-			buffer := doc.Buffers[len(doc.Buffers)-1]
-			for len(buffer.Data)%4 != 0 {
-				buffer.Data = append(buffer.Data, 0)
-			}
-			buffer.ByteLength = uint32(len(buffer.Data))
-			accessor.BufferView = gltf.Index(modeler.WriteBufferView(doc, gltf.TargetArrayBuffer, joints))
+			accessor.BufferView = gltf.Index(writeBufferView(doc, gltf.TargetArrayBuffer, joints))
 			accessor.ByteOffset = 0
 			accessor.ComponentType = gltf.ComponentUshort
 		}
diff --git a/gltfutil/gltf_utils.go b/gltfutil/gltf_utils.go
index b88b045..383a370 100644
--- a/gltfutil/gltf_utils.go
+++ b/gltfutil/gltf_utils.go
@@ -225,14 +225,12 @@ func ApplyTransform(doc *gltf.Document, transformMat *geom.Matrix4) {
 		if acr.BufferView == nil && acr.Sparse == nil {
 			continue // no data
 		}
+		resolveSparse(doc, acr)
 		pos, err := modeler.ReadPosition(doc, acr, [][3]float32{})
 		if err != nil {
 			log.Fatalf("err %v", err)
 			continue
 		}
-		if acr.Sparse != nil {
-			log.Fatal("TODO: support sparsed accessor")
-		}
 
 		acr.Min = []float32{math.MaxFloat32, math.MaxFloat32, math.MaxFloat32}
 		acr.Max = []float32{-math.MaxFloat32, -math.MaxFloat32, -math.MaxFloat32}
@@ -266,9 +264,9 @@ func ApplyTransform(doc *gltf.Document, transformMat *geom.Matrix4) {
 		if skin.InverseBindMatrices != nil && !matrices[*skin.InverseBindMatrices] {
 			matrices[*skin.InverseBindMatrices] = true
 			accessor := doc.Accessors[*skin.InverseBindMatrices]
+			resolveSparse(doc, accessor)
 			if accessor.BufferView != nil {
 				bufferView := doc.BufferViews[*accessor.BufferView]
-				// TODO: support sparse data.
 				data := doc.Buffers[bufferView.Buffer].Data
 				if len(data) == 0 {
 					continue
diff --git a/gltfutil/sparse.go b/gltfutil/sparse.go
new file mode 100644
index 0000000..6668f01
--- /dev/null
+++ b/gltfutil/sparse.go
@@ -0,0 +1,64 @@
+package gltfutil
+
+import (
+	"github.com/qmuntal/gltf"
+	"github.com/qmuntal/gltf/modeler"
+)
+
+// writeBufferView adds a new buffer view.
+func writeBufferView(doc *gltf.Document, target gltf.Target, data interface{}) uint32 {
+	buffer := doc.Buffers[len(doc.Buffers)-1]
+	for len(buffer.Data)%4 != 0 {
+		buffer.Data = append(buffer.Data, 0)
+	}
+	buffer.ByteLength = uint32(len(buffer.Data))
+	return modeler.WriteBufferView(doc, target, data)
+}
+
+// elements returns the data of the elements of a buffer view and their size and stride.
+func elements(doc *gltf.Document, view, offset uint32, c gltf.ComponentType, t gltf.AccessorType) ([]byte, int, int) {
+	v := doc.BufferViews[view]
+	size := c.ByteSize() * t.Components()
+	if t == gltf.AccessorMat2 || t == gltf.AccessorMat3 {
+		size = gltf.SizeOfElement(c, t) // columns are aligned
+	}
+	stride := v.ByteStride
+	if stride == 0 {
+		stride = size
+	}
+	return doc.Buffers[v.Buffer].Data[v.ByteOffset+offset : v.ByteOffset+v.ByteLength], int(size), int(stride)
+}
+
+// ResolveSparse replaces the data of a sparse accessor with a buffer view that has all elements.
+func ResolveSparse(doc *gltf.Document, accessor uint32) {
+	resolveSparse(doc, doc.Accessors[accessor])
+}
+
+func resolveSparse(doc *gltf.Document, a *gltf.Accessor) {
+	if a.Sparse == nil {
+		return
+	}
+	src, size, srcStride := elements(doc, a.Sparse.Values.BufferView, a.Sparse.Values.ByteOffset, a.ComponentType, a.Type)
+	stride, byteStride := size, 0
+	if size%4 != 0 && a.Type != gltf.AccessorScalar {
+		stride = (size + 3) / 4 * 4
+		byteStride = stride
+	}
+	data := make([]byte, int(a.Count)*stride)
+	if a.BufferView != nil {
+		base, _, baseStride := elements(doc, *a.BufferView, a.ByteOffset, a.ComponentType, a.Type)
+		for i := 0; i < int(a.Count); i++ {
+			copy(data[i*stride:i*stride+size], base[i*baseStride:])
+		}
+	}
+	indexType := a.Sparse.Indices.ComponentType
+	indices, _, indexStride := elements(doc, a.Sparse.Indices.BufferView, a.Sparse.Indices.ByteOffset, indexType, gltf.AccessorScalar)
+	for i := 0; i < int(a.Sparse.Count); i++ {
+		index := int(readIndex(indices[i*indexStride:], indexType))
+		copy(data[index*stride:index*stride+size], src[i*srcStride:])
+	}
+	a.BufferView = gltf.Index(writeBufferView(doc, gltf.TargetNone, data))
+	doc.BufferViews[*a.BufferView].ByteStride = uint32(byteStride)
+	a.ByteOffset = 0
+	a.Sparse = nil
+}
diff --git a/gltfutil/validate.go b/gltfutil/validate.go
index e34ea39..92159a7 100644
--- a/gltfutil/validate.go
+++ b/gltfutil/validate.go
@@ -64,6 +64,9 @@ func (c *refChecker) viewData(owner string, view, offset, count, size uint32) ([
 
 func (c *refChecker) accessor(owner string, a *gltf.Accessor) {
 	size := a.ComponentType.ByteSize() * a.Type.Components()
+	if a.Type == gltf.AccessorMat2 || a.Type == gltf.AccessorMat3 {
+		size = gltf.SizeOfElement(a.ComponentType, a.Type) // columns are aligned
+	}
 	if a.BufferView != nil {
 		bv := *a.BufferView
 		if int(bv) < len(c.doc.BufferViews) {
-- 
2.43.0


From e7d3d6cb9114eb3f5c06b53f3e5c83e8fcee14b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:31 +0000
Subject: [PATCH 148/170] fix: keep all data of VRM files

Spring bone groups without a center referred to node 0, and the fields reference,
isBinary, specVersion and the stretch and twist settings of humanoids were lost.
---
 converter/vrmconfig.go | 10 ++++++++++
 vrm/vrm.go             | 23 +++++++++++++++++++++++
 2 files changed, 33 insertions(+)

diff --git a/converter/vrmconfig.go b/converter/vrmconfig.go
index 8330f53..7c6ee4d 100644
--- a/converter/vrmconfig.go
+++ b/converter/vrmconfig.go
@@ -38,6 +38,16 @@ type AnimationBoneGroupSettings struct {
 	NodeNames []string `json:"nodeNames"`
 }
 
+func (g *AnimationBoneGroupSettings) UnmarshalJSON(data []byte) error {
+	if err := json.Unmarshal(data, &g.SecondaryAnimationBoneGroup); err != nil {
+		return err
+	}
+	names := struct {
+		NodeNames *[]string `json:"nodeNames"`
+	}{&g.NodeNames}
+	return json.Unmarshal(data, &names)
+}
+
 type ColliderGroupSettings struct {
 	vrm.SecondaryAnimationColliderGroup
 	NodeName string `json:"nodeName"`
diff --git a/vrm/vrm.go b/vrm/vrm.go
index 30900ed..2b73ee2 100644
--- a/vrm/vrm.go
+++ b/vrm/vrm.go
@@ -33,6 +33,7 @@ type VRM struct {
 	MaterialProperties []*MaterialProperty `json:"materialProperties"`
 
 	ExporterVersion string `json:"exporterVersion"`
+	SpecVersion     string `json:"specVersion,omitempty"`
 }
 
 func NewVRM() *VRM {
@@ -68,6 +69,8 @@ type Metadata struct {
 	Contact string `json:"contactInformation"`
 	Texture *int   `json:"texture,omitempty"`
 
+	Reference string `json:"reference,omitempty"`
+
 	AllowedUserName      string `json:"allowedUserName,omitempty"`
 	ViolentUssageName    string `json:"violentUssageName,omitempty"`
 	SexualUssageName     string `json:"sexualUssageName,omitempty"`
@@ -81,6 +84,15 @@ type Metadata struct {
 
 type Humanoid struct {
 	Bones []*Bone `json:"humanBones"`
+
+	ArmStretch        *float64 `json:"armStretch,omitempty"`
+	LegStretch        *float64 `json:"legStretch,omitempty"`
+	UpperArmTwist     *float64 `json:"upperArmTwist,omitempty"`
+	LowerArmTwist     *float64 `json:"lowerArmTwist,omitempty"`
+	UpperLegTwist     *float64 `json:"upperLegTwist,omitempty"`
+	LowerLegTwist     *float64 `json:"lowerLegTwist,omitempty"`
+	FeetSpacing       *float64 `json:"feetSpacing,omitempty"`
+	HasTranslationDoF *bool    `json:"hasTranslationDoF,omitempty"`
 }
 
 type Bone struct {
@@ -126,6 +138,7 @@ type BlendShapeGroup struct {
 	PresetName     string                     `json:"presetName"`
 	Binds          []*BlendShapeBind          `json:"binds"`
 	MaterialValues []*BlendShapeMaterialValue `json:"materialValues,omitempty"`
+	IsBinary       bool                       `json:"isBinary,omitempty"`
 }
 
 type BlendShapeBind struct {
@@ -157,6 +170,16 @@ type SecondaryAnimationBoneGroup struct {
 	ColliderGroups []int              `json:"colliderGroups,omitempty"`
 }
 
+func (g *SecondaryAnimationBoneGroup) UnmarshalJSON(data []byte) error {
+	type alias SecondaryAnimationBoneGroup
+	tmp := alias{Center: -1} // none
+	if err := json.Unmarshal(data, &tmp); err != nil {
+		return err
+	}
+	*g = SecondaryAnimationBoneGroup(tmp)
+	return nil
+}
+
 type SecondaryAnimationColliderGroup struct {
 	Node      uint32                        `json:"node"`
 	Colliders []*SecondaryAnimationCollider `json:"colliders"`
-- 
2.43.0


From 445db73ac6b2cdf7379f2c4350c4c8ee3a53c803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:11 +0000
Subject: [PATCH 149/170] fix: write external buffers of VRM documents beside
 the file

The path of the file itself was used as their directory.
---
 vrm/vrm_writer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vrm/vrm_writer.go b/vrm/vrm_writer.go
index 281e053..0dfcdf5 100644
--- a/vrm/vrm_writer.go
+++ b/vrm/vrm_writer.go
@@ -22,7 +22,7 @@ func (f *createfs) Create(name string) (io.WriteCloser, error) {
 // Write vrm file
 func Write(doc *Document, ww io.Writer, path string) error {
 	w := bufio.NewWriter(ww) // The encoder does not report all write errors.
-	e := gltf.NewEncoderFS(w, &createfs{os.DirFS(filepath.Dir(path)), path})
+	e := gltf.NewEncoderFS(w, &createfs{os.DirFS(filepath.Dir(path)), filepath.Dir(path)})
 	e.AsBinary = true
 	if err := e.Encode((*gltf.Document)(doc)); err != nil {
 		return err
-- 
2.43.0


From 26b922b283b0d160ffa1d36b6117d4dd0355b2d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:46 +0000
Subject: [PATCH 150/170] fix: read and write the limits of VRM bones as the
 format defines them

They are objects with x, y and z. A file with limits could not be decoded, and all of
its VRM data was replaced by an empty extension.
---
 vrm/vrm.go | 35 +++++++++++++++++++++++++++++++----
 1 file changed, 31 insertions(+), 4 deletions(-)

diff --git a/vrm/vrm.go b/vrm/vrm.go
index 2b73ee2..91e8460 100644
--- a/vrm/vrm.go
+++ b/vrm/vrm.go
@@ -100,10 +100,37 @@ type Bone struct {
 	Node             int    `json:"node"`
 	UseDefaultValues bool   `json:"useDefaultValues"`
 
-	Min        *[3]float32 `json:"min,omitempty"`
-	Max        *[3]float32 `json:"max,omitempty"`
-	Center     *[3]float32 `json:"center,omitempty"`
-	AxisLength float32     `json:"axisLength,omitempty"`
+	Min        *LimitVector `json:"min,omitempty"`
+	Max        *LimitVector `json:"max,omitempty"`
+	Center     *LimitVector `json:"center,omitempty"`
+	AxisLength float32      `json:"axisLength,omitempty"`
+}
+
+// LimitVector is {"x":x,"y":y,"z":z} in JSON. Arrays are also accepted.
+type LimitVector [3]float32
+
+type limitVectorJSON struct {
+	X float32 `json:"x"`
+	Y float32 `json:"y"`
+	Z float32 `json:"z"`
+}
+
+func (v LimitVector) MarshalJSON() ([]byte, error) {
+	return json.Marshal(limitVectorJSON{v[0], v[1], v[2]})
+}
+
+func (v *LimitVector) UnmarshalJSON(data []byte) error {
+	var array [3]float32
+	if err := json.Unmarshal(data, &array); err == nil {
+		*v = array
+		return nil
+	}
+	var obj limitVectorJSON
+	if err := json.Unmarshal(data, &obj); err != nil {
+		return err
+	}
+	*v = LimitVector{obj.X, obj.Y, obj.Z}
+	return nil
 }
 
 type FirstPerson struct {
-- 
2.43.0


From 0afce1c96a2ddb6f04ad9c226c3cb7d0224f18a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:01 +0000
Subject: [PATCH 151/170] fix: fbx: read properties, global settings and
 deformers of version 6.1 files

They hold Properties60 (no label), GlobalSettings among the objects, and
deformers connected to the model that holds the geometry; placements,
material colors, axes and skins were lost.
---
 fbx/fbx_document.go | 12 +++++++++++-
 fbx/fbx_object.go   |  9 +++++++++
 2 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/fbx/fbx_document.go b/fbx/fbx_document.go
index b77f516..4187eb1 100644
--- a/fbx/fbx_document.go
+++ b/fbx/fbx_document.go
@@ -85,7 +85,11 @@ func BuildDocument(root *Node) (*Document, error) {
 		}
 		templates[node.GetString()] = &Obj{Node: node.FindChild("PropertyTemplate")}
 	}
-	doc.GlobalSettings = &Obj{Node: root.FindChild("GlobalSettings"), Template: templates["GlobalSettings"]}
+	globalSettings := root.FindChild("GlobalSettings")
+	if globalSettings == nil {
+		globalSettings = root.FindChild("Objects").FindChild("GlobalSettings") // 6.1
+	}
+	doc.GlobalSettings = &Obj{Node: globalSettings, Template: templates["GlobalSettings"]}
 	objectByName := map[string]Object{"Scene\x00\x01Model": doc.Scene, "Model::Scene": doc.Scene}
 	for _, node := range root.FindChild("Objects").GetChildren() {
 		if fbxVersion == 6100 {
@@ -131,6 +135,12 @@ func BuildDocument(root *Node) (*Document, error) {
 			if to != nil && from != nil {
 				to.AddRef(from)
 
+				if toModel, ok := to.(*Model); ok && fbxVersion == 6100 && from.NodeName() == "Deformer" {
+					if g := toModel.GetGeometry(); g != nil {
+						g.AddRef(from) // the model holds the geometry
+					}
+				}
+
 				// build model tree
 				if toModel, ok := to.(*Model); ok {
 					if fromModel, ok := from.(*Model); ok {
diff --git a/fbx/fbx_object.go b/fbx/fbx_object.go
index 87862d5..f9c4af1 100644
--- a/fbx/fbx_object.go
+++ b/fbx/fbx_object.go
@@ -58,6 +58,15 @@ func (o *Obj) Kind() string {
 func (o *Obj) GetProperty(name string) *Property {
 	if o.properties == nil {
 		o.properties = map[string]*Property{}
+		for _, node := range o.FindChild("Properties60").GetChildren() { // 6.1: no label
+			if len(node.Attributes) < 3 {
+				continue // broken
+			}
+			o.properties[node.Attr(0).ToString()] = &Property{
+				AttributeList: node.Attributes[3:],
+				Type:          node.Attr(1).ToString(),
+				Flag:          node.Attr(2).ToString()}
+		}
 		for _, node := range o.FindChild("Properties70").GetChildren() {
 			if len(node.Attributes) < 4 {
 				continue // broken
-- 
2.43.0


From b22c2ad67fdb17c28a3f9fcbaaa40c8e1cdf453b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:01 +0000
Subject: [PATCH 152/170] fix: fbx: SetProperty panics for an object without
 properties

---
 fbx/fbx_object.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fbx/fbx_object.go b/fbx/fbx_object.go
index f9c4af1..46dec8a 100644
--- a/fbx/fbx_object.go
+++ b/fbx/fbx_object.go
@@ -97,6 +97,10 @@ func (o *Obj) SetProperty(name string, prop *Property) *Property {
 	}
 	attrs = append(attrs, prop.AttributeList...)
 	properties70 := o.FindChild("Properties70")
+	if properties70 == nil {
+		properties70 = &Node{Name: "Properties70"}
+		o.Children = append(o.Children, properties70)
+	}
 	for _, node := range properties70.GetChildren() {
 		if node.Attr(0).ToString() == name {
 			node.Attributes = attrs
-- 
2.43.0


From 57b9945060e34a6767500d307657d9034d1fb4ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:50 +0000
Subject: [PATCH 153/170] fix: fbx: read ASCII lists continued on the next line
 before the comma

Exporters of version 6.1 files wrap lists so that the continuation line starts
with the comma (or with the first value); such files were refused.
---
 fbx/text_parser.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/fbx/text_parser.go b/fbx/text_parser.go
index 2b335ed..c381565 100644
--- a/fbx/text_parser.go
+++ b/fbx/text_parser.go
@@ -105,6 +105,21 @@ func (p *textParser) getToken() (tokenType, string) {
 	}
 	return EOL, ""
 }
+
+// continued returns true if the next line is the rest of a list.
+func (p *textParser) continued() bool {
+	c := p.read()
+	for p.err == nil && (c == ' ' || c == '\t' || c == '\r') {
+		c = p.read()
+	}
+	if p.err == io.EOF {
+		p.err = nil
+		return false
+	}
+	p.buf = append([]byte{c}, p.buf...)
+	return c == ',' || c >= '0' && c <= '9' || c == '.' || c == '-'
+}
+
 func (p *textParser) Skip(t tokenType) bool {
 	typ, s := p.getToken()
 	if typ != t && p.err == nil {
@@ -178,6 +193,9 @@ func (p *textParser) parseNodeList() []*Node {
 			for p.err == nil {
 				typ, s := p.getToken()
 				if typ == EOL && prev != Comma {
+					if p.continued() {
+						continue
+					}
 					break
 				}
 				prev = typ
-- 
2.43.0


From b6af3ad8a3de73e5e1d969b64b97038bac4069dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:43 +0000
Subject: [PATCH 154/170] fix: mqo: a vertex without a UID gets one that is not
 used by another vertex

---
 mqo/mqo_writer.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/mqo/mqo_writer.go b/mqo/mqo_writer.go
index ba978b1..89e4984 100644
--- a/mqo/mqo_writer.go
+++ b/mqo/mqo_writer.go
@@ -199,6 +199,7 @@ func (writer *Writer) WriteMQO(mqo *Document, ww io.Writer) error {
 		if len(obj.VertexByUID) > 0 {
 			w.WriteString("\tvertexattr {\n")
 			w.WriteString("\t\tuid {\n")
+			unused := len(obj.Vertexes) + 1
 			uids := make([]int, len(obj.Vertexes))
 			for uid, v := range obj.VertexByUID {
 				if v >= 0 && v < len(uids) {
@@ -208,6 +209,12 @@ func (writer *Writer) WriteMQO(mqo *Document, ww io.Writer) error {
 			for i, uid := range uids {
 				if uid == 0 {
 					uid = i + 1
+					if _, used := obj.VertexByUID[uid]; used {
+						for ; used; unused++ {
+							uid = unused
+							_, used = obj.VertexByUID[uid]
+						}
+					}
 				}
 				fmt.Fprintf(w, "\t\t\t%d\n", uid)
 			}
-- 
2.43.0


From 235217d07b5ff45a1b6684e1dda7670c97d0a1b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:17 +0000
Subject: [PATCH 155/170] fix: fbx: SetLayerElement functions panic for a
 geometry without layers

---
 fbx/fbx_geometry.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fbx/fbx_geometry.go b/fbx/fbx_geometry.go
index cc44e59..380c8ce 100644
--- a/fbx/fbx_geometry.go
+++ b/fbx/fbx_geometry.go
@@ -104,6 +104,10 @@ func (g *Geometry) setLayerElementNode(name string, typeIndex int, values []*Nod
 	node.Children = values
 	if g.AddOrReplaceChild(node) {
 		layer := g.FindChild("Layer")
+		if layer == nil {
+			layer = NewNode("Layer", 0)
+			g.AddChild(layer)
+		}
 		el := NewNode("LayerElement")
 		el.Children = []*Node{
 			NewNode("Type", name),
-- 
2.43.0


From 0a5d5c7f467a1167685e37939b7c30f8854b1c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:19 +0000
Subject: [PATCH 156/170] fix: gltf: joints of skins that share their inverse
 bind matrices are reset wrongly

---
 gltfutil/gltf_joint.go | 32 ++++++++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/gltfutil/gltf_joint.go b/gltfutil/gltf_joint.go
index 4b1e921..b22e11f 100644
--- a/gltfutil/gltf_joint.go
+++ b/gltfutil/gltf_joint.go
@@ -4,6 +4,7 @@ import (
 	"encoding/binary"
 	"log"
 	"math"
+	"reflect"
 
 	"github.com/binzume/modelconv/geom"
 	"github.com/qmuntal/gltf"
@@ -107,6 +108,7 @@ func ResetJointMatrix(doc *gltf.Document) {
 
 	// Keep the skins in place: newMatrix * newIBM = oldMatrix * oldIBM
 	newMatrices := NodeMatrices(doc)
+	splitInverseBindMatrices(doc)
 	fixed := map[uint32]bool{}
 	for _, skin := range doc.Skins {
 		if skin.InverseBindMatrices == nil {
@@ -139,6 +141,36 @@ func ResetJointMatrix(doc *gltf.Document) {
 	}
 }
 
+// splitInverseBindMatrices makes sure that no skins with different joints share
+// their matrices.
+func splitInverseBindMatrices(doc *gltf.Document) {
+	joints := map[uint32][]uint32{}
+	for _, skin := range doc.Skins {
+		if skin.InverseBindMatrices == nil {
+			continue
+		}
+		used, ok := joints[*skin.InverseBindMatrices]
+		if !ok {
+			joints[*skin.InverseBindMatrices] = skin.Joints
+			continue
+		}
+		if reflect.DeepEqual(used, skin.Joints) {
+			continue
+		}
+		accessor := doc.Accessors[*skin.InverseBindMatrices]
+		resolveSparse(doc, accessor)
+		if accessor.BufferView == nil {
+			continue
+		}
+		mats, err := modeler.ReadAccessor(doc, accessor, nil)
+		if err != nil {
+			log.Print(err)
+			continue
+		}
+		skin.InverseBindMatrices = gltf.Index(modeler.WriteAccessor(doc, gltf.TargetNone, mats))
+	}
+}
+
 func FixJointComponentType(doc *gltf.Document) {
 	for _, mesh := range doc.Meshes {
 		for _, primitiv := range mesh.Primitives {
-- 
2.43.0


From 953ffe99686c614526ca0c00dbed7c6e5e68a83b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:19 +0000
Subject: [PATCH 157/170] fix: gltf: scale data used by several accessors once,
 and not the scales of an animation

---
 gltfutil/gltf_utils.go | 53 ++++++++++++++++++++++++++++++++++++++----
 1 file changed, 49 insertions(+), 4 deletions(-)

diff --git a/gltfutil/gltf_utils.go b/gltfutil/gltf_utils.go
index 383a370..f22bfa6 100644
--- a/gltfutil/gltf_utils.go
+++ b/gltfutil/gltf_utils.go
@@ -193,6 +193,45 @@ func ToSingleFile(doc *gltf.Document, srcDir string) error {
 	return nil
 }
 
+// splitTranslations makes sure that no translation shares its values with
+// another property.
+func splitTranslations(doc *gltf.Document) {
+	others := map[uint32]bool{}
+	for _, anim := range doc.Animations {
+		for _, ch := range anim.Channels {
+			if ch.Target.Path != gltf.TRSTranslation && ch.Sampler != nil {
+				others[*anim.Samplers[*ch.Sampler].Output] = true
+			}
+		}
+	}
+	copies := map[uint32]uint32{}
+	for _, anim := range doc.Animations {
+		for _, ch := range anim.Channels {
+			if ch.Target.Path != gltf.TRSTranslation || ch.Sampler == nil || !others[*anim.Samplers[*ch.Sampler].Output] {
+				continue
+			}
+			sampler := *anim.Samplers[*ch.Sampler]
+			output := *sampler.Output
+			if _, ok := copies[output]; !ok {
+				accessor := doc.Accessors[output]
+				if accessor.BufferView == nil && accessor.Sparse == nil {
+					continue // no data
+				}
+				resolveSparse(doc, accessor)
+				values, err := modeler.ReadPosition(doc, accessor, nil)
+				if err != nil {
+					log.Print(err)
+					continue
+				}
+				copies[output] = modeler.WriteAccessor(doc, gltf.TargetNone, values)
+			}
+			sampler.Output = gltf.Index(copies[output])
+			anim.Samplers = append(anim.Samplers, &sampler)
+			ch.Sampler = gltf.Index(uint32(len(anim.Samplers)) - 1)
+		}
+	}
+}
+
 func ApplyTransform(doc *gltf.Document, transformMat *geom.Matrix4) {
 	if transformMat == nil {
 		return
@@ -213,6 +252,7 @@ func ApplyTransform(doc *gltf.Document, transformMat *geom.Matrix4) {
 			}
 		}
 	}
+	splitTranslations(doc)
 	for _, anim := range doc.Animations {
 		for _, ch := range anim.Channels {
 			if ch.Target.Path == gltf.TRSTranslation && ch.Sampler != nil {
@@ -220,7 +260,9 @@ func ApplyTransform(doc *gltf.Document, transformMat *geom.Matrix4) {
 			}
 		}
 	}
-	for a, diff := range accs {
+	// Accessors may have data in common, so all of them are read first.
+	positions := map[uint32][][3]float32{}
+	for a := range accs {
 		acr := doc.Accessors[a]
 		if acr.BufferView == nil && acr.Sparse == nil {
 			continue // no data
@@ -231,7 +273,10 @@ func ApplyTransform(doc *gltf.Document, transformMat *geom.Matrix4) {
 			log.Fatalf("err %v", err)
 			continue
 		}
-
+		positions[a] = pos
+	}
+	for a, pos := range positions {
+		acr, diff := doc.Accessors[a], accs[a]
 		acr.Min = []float32{math.MaxFloat32, math.MaxFloat32, math.MaxFloat32}
 		acr.Max = []float32{-math.MaxFloat32, -math.MaxFloat32, -math.MaxFloat32}
 		for i := range pos {
@@ -247,7 +292,7 @@ func ApplyTransform(doc *gltf.Document, transformMat *geom.Matrix4) {
 		}
 		bufferView := doc.BufferViews[*acr.BufferView]
 		buffer := doc.Buffers[bufferView.Buffer]
-		err = binary.Write(buffer.Data[bufferView.ByteOffset+acr.ByteOffset:], bufferView.ByteStride, pos)
+		err := binary.Write(buffer.Data[bufferView.ByteOffset+acr.ByteOffset:], bufferView.ByteStride, pos)
 		if err != nil {
 			log.Fatalf("Write err %v", err)
 		}
@@ -271,7 +316,7 @@ func ApplyTransform(doc *gltf.Document, transformMat *geom.Matrix4) {
 				if len(data) == 0 {
 					continue
 				}
-				for i := range skin.Joints {
+				for i := 0; i < int(accessor.Count); i++ {
 					offset := bufferView.ByteOffset + accessor.ByteOffset + uint32(i)*64
 					mat := readMatrix(data[offset : offset+64])
 					scaleMat.Mul(geom.NewMatrix4FromSlice(mat[:])).Mul(invMat).ToArray(mat[:])
-- 
2.43.0


From 29cb93d304aa279cf81452f87dbc6daff5a205a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:01 +0000
Subject: [PATCH 158/170] fix: mqo: end of a long Shift_JIS file is not read

---
 mqo/mqo_parser.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mqo/mqo_parser.go b/mqo/mqo_parser.go
index 04e735f..8e09f2a 100644
--- a/mqo/mqo_parser.go
+++ b/mqo/mqo_parser.go
@@ -49,6 +49,9 @@ func (*basckSlashReplacer) Transform(dst, src []byte, atEOF bool) (nDst, nSrc in
 			dst[i] = '/'
 		}
 	}
+	if n < len(src) {
+		return n, n, transform.ErrShortDst
+	}
 	return n, n, nil
 }
 
-- 
2.43.0


From 231dba3698cc5cc39305318ec55ede2f5d0d334c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:02 +0000
Subject: [PATCH 159/170] fix: mqo: errors in a skipped block count after a
 nested block

---
 mqo/mqo_parser.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mqo/mqo_parser.go b/mqo/mqo_parser.go
index 8e09f2a..020d868 100644
--- a/mqo/mqo_parser.go
+++ b/mqo/mqo_parser.go
@@ -135,10 +135,11 @@ func (p *Parser) procAttrs(handlers map[string]func(), name string) {
 }
 
 func (p *Parser) skipBlock() {
+	handler := p.s.Error
 	p.s.Error = func(s *scanner.Scanner, msg string) {
 		s.ErrorCount--
 	}
-	defer func() { p.s.Error = nil }()
+	defer func() { p.s.Error = handler }()
 	for tok := p.s.Scan(); tok != scanner.EOF; tok = p.s.Scan() {
 		if p.s.TokenText() == "}" {
 			return
-- 
2.43.0


From a87989abbc7d5cf2a89ba7cd7339cbe0aa6c1659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:03 +0000
Subject: [PATCH 160/170] fix: mqo: BoneTransform sums the weights in random
 order

---
 mqo/bone_plugin.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mqo/bone_plugin.go b/mqo/bone_plugin.go
index f4ec7ee..0ab836b 100644
--- a/mqo/bone_plugin.go
+++ b/mqo/bone_plugin.go
@@ -255,12 +255,14 @@ func (doc *Document) BoneTransform(baseBone *Bone, rot *geom.Quaternion, boneFn
 	}
 	boneFn(baseBone)
 
+	orderedBones := []*Bone{baseBone}
 	for n := 0; n != len(targetBones); {
 		n = len(targetBones)
 		for _, b := range bones {
 			if b.Parent > 0 && targetBones[boneByID[b.Parent]] && !targetBones[b] {
 				boneFn(b)
 				targetBones[b] = true
+				orderedBones = append(orderedBones, b)
 			}
 		}
 	}
@@ -280,7 +282,7 @@ func (doc *Document) BoneTransform(baseBone *Bone, rot *geom.Quaternion, boneFn
 	}
 
 	verts := map[*Vector3]float32{}
-	for b := range targetBones {
+	for _, b := range orderedBones { // sum of the weights depends on the order
 		verts[&b.Pos.Vector3] = 1
 		for _, bw := range b.Weights {
 			objectIDs := append(morphObjs[bw.ObjectID], bw.ObjectID)
-- 
2.43.0


From de276a0d8ad67024963a4b11e7eb5c95b2a66050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:32:43 +0000
Subject: [PATCH 161/170] fix: animation of bones with the same name goes to a
 random one

---
 converter/glbanim.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/converter/glbanim.go b/converter/glbanim.go
index 52fe681..2bf911c 100644
--- a/converter/glbanim.go
+++ b/converter/glbanim.go
@@ -57,7 +57,9 @@ func addBoneChannels(doc *gltf.Document, a *gltf.Animation, bones map[uint32]*mq
 
 	boneToNode := map[string]int{}
 	for n, b := range bones {
-		boneToNode[b.Name] = int(n)
+		if first, exists := boneToNode[b.Name]; !exists || int(n) < first {
+			boneToNode[b.Name] = int(n)
+		}
 	}
 
 	boneByID := map[int]*mqo.Bone{}
-- 
2.43.0


From 592f026d24933737d3c751d4d2b5706e8cb545e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:20 +0000
Subject: [PATCH 162/170] fix: fbx: polygons without material get the first one
 of the scene

---
 converter/fbx2mqo.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/converter/fbx2mqo.go b/converter/fbx2mqo.go
index 05f65bc..02482a6 100644
--- a/converter/fbx2mqo.go
+++ b/converter/fbx2mqo.go
@@ -245,7 +245,7 @@ func (c *fbxToMqoState) convertGeometry(g *fbx.Geometry, obj *mqo.Object, transf
 
 	vcount := 0
 	for i, f := range g.Polygons {
-		face := &mqo.Face{}
+		face := &mqo.Face{Material: -1}
 		var matIdx int
 		if matByPolygon {
 			matIdx = int(matArray[i])
-- 
2.43.0


From ddae0beaee6b3b16f2c93c2feb7ee78722a8bd14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:24 +0000
Subject: [PATCH 163/170] fix: mmd: faces without material are lost

---
 converter/mqo2mmd.go | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/converter/mqo2mmd.go b/converter/mqo2mmd.go
index ba66a8c..e40d8b4 100644
--- a/converter/mqo2mmd.go
+++ b/converter/mqo2mmd.go
@@ -52,7 +52,23 @@ func (c *mqoToMMD) Convert(doc *mqo.Document) (*mmd.Document, error) {
 	}
 
 	doc.FixObjectID()
-	for mi, m := range doc.Materials {
+	materials := doc.Materials
+	// materialIndex returns len(doc.Materials) if the face has no material.
+	materialIndex := func(f *mqo.Face) int {
+		if f.Material < 0 || f.Material >= len(doc.Materials) {
+			return len(doc.Materials)
+		}
+		return f.Material
+	}
+	for _, obj := range doc.Objects {
+		for _, f := range obj.Faces {
+			if obj.Visible && morphTargets[obj.Name] == nil && len(f.Verts) >= 3 &&
+				materialIndex(f) == len(doc.Materials) && len(materials) == len(doc.Materials) {
+				materials = append(materials[:len(materials):len(materials)], &mqo.Material{Name: "default", Color: mqo.Vector4{X: 1, Y: 1, Z: 1, W: 1}})
+			}
+		}
+	}
+	for mi, m := range materials {
 		faceCount := 0
 		for _, obj := range doc.Objects {
 			if !obj.Visible || morphTargets[obj.Name] != nil {
@@ -67,7 +83,7 @@ func (c *mqoToMMD) Convert(doc *mqo.Document) (*mmd.Document, error) {
 			normals := obj.GetSmoothNormals()
 
 			for _, f := range obj.Faces {
-				if len(f.Verts) < 3 || f.Material != mi {
+				if len(f.Verts) < 3 || materialIndex(f) != mi {
 					continue
 				}
 				verts := make([]int, len(f.Verts))
-- 
2.43.0


From ad97198a64fba75b621cf49816b5d27610958988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:07 +0000
Subject: [PATCH 164/170] fix: mqo: shader parameters are written in random
 order

---
 mqo/mqo_writer.go | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/mqo/mqo_writer.go b/mqo/mqo_writer.go
index 89e4984..8f0c630 100644
--- a/mqo/mqo_writer.go
+++ b/mqo/mqo_writer.go
@@ -7,6 +7,7 @@ import (
 	"io"
 	"os"
 	"path/filepath"
+	"sort"
 	"strings"
 )
 
@@ -33,7 +34,13 @@ func boolToInt(b bool) int {
 }
 
 func writeShaderParams(w io.Writer, params map[string]interface{}) {
-	for name, v := range params {
+	var names []string
+	for name := range params {
+		names = append(names, name)
+	}
+	sort.Strings(names)
+	for _, name := range names {
+		v := params[name]
 		typ := "int"
 		switch vv := v.(type) {
 		case bool:
@@ -140,12 +147,24 @@ func (writer *Writer) WriteMQO(mqo *Document, ww io.Writer) error {
 			w.WriteString("\t\t}\n")
 			if len(mat.Ex2.ShaderMapping) > 0 {
 				fmt.Fprintf(w, "\t\tshadermapping %v {\n", len(mat.Ex2.ShaderMapping))
-				for name, path := range mat.Ex2.ShaderMapping {
+				var names []string
+				for name := range mat.Ex2.ShaderMapping {
+					names = append(names, name)
+				}
+				sort.Strings(names)
+				for _, name := range names {
+					path := mat.Ex2.ShaderMapping[name]
 					fmt.Fprintf(w, "\t\t\t\"%v\" \"%v\"\n", name, strings.Replace(path, "\\", "/", -1))
 				}
 				w.WriteString("\t\t}\n")
 			}
-			for name, params := range mat.Ex2.ShaderMappingParams {
+			var names []string
+			for name := range mat.Ex2.ShaderMappingParams {
+				names = append(names, name)
+			}
+			sort.Strings(names)
+			for _, name := range names {
+				params := mat.Ex2.ShaderMappingParams[name]
 				fmt.Fprintf(w, "\t\tshadermappingparam \"%v\" %v {\n", name, len(params))
 				writeShaderParams(w, params)
 				w.WriteString("\t\t}\n")
-- 
2.43.0


From 8b6eb45e4fe8856e0a100789a39824968f222966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:09 +0000
Subject: [PATCH 165/170] fix: mmd: bone weights are written in random order

---
 converter/mmd2mqo.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/converter/mmd2mqo.go b/converter/mmd2mqo.go
index ddbae0c..15e0e5b 100644
--- a/converter/mmd2mqo.go
+++ b/converter/mmd2mqo.go
@@ -3,6 +3,7 @@ package converter
 import (
 	"fmt"
 	"log"
+	"sort"
 
 	"github.com/binzume/modelconv/geom"
 	"github.com/binzume/modelconv/mmd"
@@ -120,7 +121,13 @@ func (c *mmdToMQO) convertFaces(pmx *mmd.Document, faces []int, face2mat []int,
 }
 
 func (c *mmdToMQO) setWeight(pmx *mmd.Document, bones []*mqo.Bone, objid int, vmap map[int]int) {
-	for pmv, mqv := range vmap {
+	var verts []int
+	for pmv := range vmap {
+		verts = append(verts, pmv)
+	}
+	sort.Slice(verts, func(i, j int) bool { return vmap[verts[i]] < vmap[verts[j]] })
+	for _, pmv := range verts {
+		mqv := vmap[pmv]
 		v := pmx.Vertexes[pmv]
 		c := map[int]*mqo.VertexWeight{}
 		for bi, b := range v.Bones {
-- 
2.43.0


From 3969576da9d27b15211c2a234baccf955a4e39cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:12 +0000
Subject: [PATCH 166/170] fix: gltf: data of sparse accessors is written in
 random order

---
 gltfutil/gltf_utils.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/gltfutil/gltf_utils.go b/gltfutil/gltf_utils.go
index f22bfa6..076d095 100644
--- a/gltfutil/gltf_utils.go
+++ b/gltfutil/gltf_utils.go
@@ -262,8 +262,11 @@ func ApplyTransform(doc *gltf.Document, transformMat *geom.Matrix4) {
 	}
 	// Accessors may have data in common, so all of them are read first.
 	positions := map[uint32][][3]float32{}
-	for a := range accs {
-		acr := doc.Accessors[a]
+	for i, acr := range doc.Accessors {
+		a := uint32(i)
+		if _, ok := accs[a]; !ok {
+			continue
+		}
 		if acr.BufferView == nil && acr.Sparse == nil {
 			continue // no data
 		}
-- 
2.43.0


From 46a214cdcbceea415db8b69a3aabd4fc75387218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:56 +0000
Subject: [PATCH 167/170] fix: mqo: joints stay where they were when a document
 is transformed

---
 mqo/physics_plugin.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mqo/physics_plugin.go b/mqo/physics_plugin.go
index 30ce287..75cd757 100644
--- a/mqo/physics_plugin.go
+++ b/mqo/physics_plugin.go
@@ -99,4 +99,7 @@ func (p *PhysicsPlugin) ApplyTransform(transform *Matrix4) {
 			s.Size.X, s.Size.Y, s.Size.Z = geom.Abs(s.Size.X*scale.X), geom.Abs(s.Size.Y*scale.Y), geom.Abs(s.Size.Z*scale.Z)
 		}
 	}
+	for _, j := range p.Constraints {
+		j.Position = Vector3XmlAttr(*transform.ApplyTo(j.Position.Vec3()))
+	}
 }
-- 
2.43.0


From fc235a0b4c0c9ad6c73cd3a1576ef6205c4b47ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:04 +0000
Subject: [PATCH 168/170] fix: gltf: only the last of several target lists of a
 base became morph targets

---
 converter/mqo2gltf.go | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/converter/mqo2gltf.go b/converter/mqo2gltf.go
index 7371a86..ca37835 100644
--- a/converter/mqo2gltf.go
+++ b/converter/mqo2gltf.go
@@ -801,7 +801,7 @@ func (m *mqoToGltf) checkMaterials(obj *mqo.Object, materials map[int]bool) {
 func (m *mqoToGltf) Convert(doc *mqo.Document, textureDir string) (*gltf.Document, error) {
 	objectByName := map[string]*mqo.Object{}
 	morphTargets := map[string]*mqo.Object{}
-	morphBases := map[string]*mqo.MorphTargetList{}
+	morphBases := map[string][]*mqo.MorphTarget{}
 	uvBounds := map[int]*uvrect{}
 	for _, obj := range doc.Objects {
 		objectByName[obj.Name] = obj
@@ -809,7 +809,7 @@ func (m *mqoToGltf) Convert(doc *mqo.Document, textureDir string) (*gltf.Documen
 
 	morphs := mqo.GetMorphPlugin(doc).Morphs()
 	for _, m := range morphs {
-		morphBases[m.Base] = m
+		morphBases[m.Base] = append(morphBases[m.Base], m.Target...)
 		for _, t := range m.Target {
 			morphTargets[t.Name] = objectByName[t.Name]
 		}
@@ -882,14 +882,12 @@ func (m *mqoToGltf) Convert(doc *mqo.Document, textureDir string) (*gltf.Documen
 	for i, obj := range targetObjects {
 		var morphTargets []*mqo.Object
 		if m.convertMorph {
-			if morph, ok := morphBases[obj.Name]; ok {
-				for _, t := range morph.Target {
-					if objectByName[t.Name] == nil || len(objectByName[t.Name].Vertexes) != len(obj.Vertexes) {
-						log.Print("unmached morph target: ", t.Name)
-						continue
-					}
-					morphTargets = append(morphTargets, objectByName[t.Name])
+			for _, t := range morphBases[obj.Name] {
+				if objectByName[t.Name] == nil || len(objectByName[t.Name].Vertexes) != len(obj.Vertexes) {
+					log.Print("unmached morph target: ", t.Name)
+					continue
 				}
+				morphTargets = append(morphTargets, objectByName[t.Name])
 			}
 		}
 
-- 
2.43.0


From 337cb4f2858034af34653776b3f9be517747c482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:04 +0000
Subject: [PATCH 169/170] fix: mmd: only the last of several target lists of a
 base became morphs

---
 converter/mqo2mmd.go | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/converter/mqo2mmd.go b/converter/mqo2mmd.go
index e40d8b4..db3253a 100644
--- a/converter/mqo2mmd.go
+++ b/converter/mqo2mmd.go
@@ -33,14 +33,14 @@ func (c *mqoToMMD) Convert(doc *mqo.Document) (*mmd.Document, error) {
 
 	objectByName := map[string]*mqo.Object{}
 	morphTargets := map[string]*mmd.Morph{}
-	morphBases := map[string]*mqo.MorphTargetList{}
+	morphBases := map[string][]*mqo.MorphTarget{}
 	for _, obj := range doc.Objects {
 		objectByName[obj.Name] = obj
 	}
 
 	morphs := mqo.GetMorphPlugin(doc).Morphs()
 	for _, m := range morphs {
-		morphBases[m.Base] = m
+		morphBases[m.Base] = append(morphBases[m.Base], m.Target...)
 		for _, t := range m.Target {
 			mmdMorph := &mmd.Morph{
 				Name:      t.Name,
@@ -106,16 +106,14 @@ func (c *mqoToMMD) Convert(doc *mqo.Document) (*mmd.Document, error) {
 							EdgeScale: 1,
 						}
 						dst.Vertexes = append(dst.Vertexes, vert)
-						if morphBases[obj.Name] != nil {
-							for _, t := range morphBases[obj.Name].Target {
-								if target, ok := objectByName[t.Name]; ok {
-									if v < len(target.Vertexes) && target.Vertexes[v] != obj.Vertexes[v] {
-										p := c.convertVec3(target.Vertexes[v])
-										morphTargets[t.Name].Vertex = append(morphTargets[t.Name].Vertex, &mmd.MorphVertex{
-											Target: verts[i],
-											Offset: mmd.Vector3{X: p.X - vert.Pos.X, Y: p.Y - vert.Pos.Y, Z: p.Z - vert.Pos.Z},
-										})
-									}
+						for _, t := range morphBases[obj.Name] {
+							if target, ok := objectByName[t.Name]; ok {
+								if v < len(target.Vertexes) && target.Vertexes[v] != obj.Vertexes[v] {
+									p := c.convertVec3(target.Vertexes[v])
+									morphTargets[t.Name].Vertex = append(morphTargets[t.Name].Vertex, &mmd.MorphVertex{
+										Target: verts[i],
+										Offset: mmd.Vector3{X: p.X - vert.Pos.X, Y: p.Y - vert.Pos.Y, Z: p.Z - vert.Pos.Z},
+									})
 								}
 							}
 						}
-- 
2.43.0


From 431b156d799829cb74a6842ab79b9656bc5a2d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:44 +0000
Subject: [PATCH 170/170] fix: unity: textures with a GUID that contains ../
 are saved elsewhere

---
 converter/unity2mqo.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/converter/unity2mqo.go b/converter/unity2mqo.go
index 7877cb2..8e1ecab 100644
--- a/converter/unity2mqo.go
+++ b/converter/unity2mqo.go
@@ -331,8 +331,9 @@ func (c *unityToMqoState) convertRigidBody(o *unity.GameObject, transform *geom.
 
 func (c *unityToMqoState) saveTexrure(assets unity.Assets, texAsset *unity.Asset) (string, error) {
 	texDir := filepath.Join(filepath.Dir(assets.GetSourcePath()), "saved_textures")
-	texPath := filepath.Join(texDir, texAsset.GUID+"_"+filepath.Base(texAsset.Path))
-	texName := "saved_textures/" + texAsset.GUID + "_" + filepath.Base(texAsset.Path)
+	fileName := filepath.Base(texAsset.GUID + "_" + filepath.Base(texAsset.Path)) // in texDir, whatever the GUID contains
+	texPath := filepath.Join(texDir, fileName)
+	texName := "saved_textures/" + fileName
 	_ = os.Mkdir(texDir, 0755)
 	if _, err := os.Stat(texPath); err == nil {
 		return texName, nil
-- 
2.43.0

