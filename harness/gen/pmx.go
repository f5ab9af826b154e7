package gen

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"
	"unicode/utf16"

	"github.com/binzume/modelconv/geom"
	"github.com/binzume/modelconv/mmd"
	"golang.org/x/text/encoding/japanese"
	"pgregory.net/rapid"
)

// PMXOpts bounds the generated model.
type PMXOpts struct {
	MaxVerts, MaxFaces, MaxMats, MaxBones, MaxMorphs, MaxBodies, MaxJoints int
	ForConvert                                                             bool // restrict to what the converters are meant to keep
	UniqueNames                                                            bool
}

func SmallPMX() PMXOpts {
	return PMXOpts{MaxVerts: 8, MaxFaces: 6, MaxMats: 4, MaxBones: 6, MaxMorphs: 4, MaxBodies: 3, MaxJoints: 3}
}

func optIndex(t *T, n string, cnt int) int {
	if cnt == 0 {
		return -1
	}
	return rapid.IntRange(-1, cnt-1).Draw(t, n)
}

func text(t *T, n string) string {
	if rapid.IntRange(0, 3).Draw(t, n+".empty") == 0 {
		return ""
	}
	if rapid.IntRange(0, 5).Draw(t, n+".wild") == 5 {
		return rapid.StringN(0, 12, -1).Draw(t, n)
	}
	if rapid.IntRange(0, 5).Draw(t, n+".astral") == 5 {
		// characters that take two UTF-16 units
		return Name(t, n) + rapid.SampledFrom([]string{"😀", "𠮷野家", "a𝄞", "\U0010ffff", "é"}).Draw(t, n+".wide")
	}
	return Name(t, n)
}

func Weights(t *T, n string, bones int, kinds []int) ([]int, []float32) {
	bi := func() int { return rapid.IntRange(0, bones-1).Draw(t, n+".bone") }
	if bones == 0 {
		return []int{-1}, []float32{1}
	}
	switch k := rapid.SampledFrom(kinds).Draw(t, n+".wtype"); k {
	case 1:
		return []int{bi()}, []float32{1}
	case 2, 11:
		w := U(t, n+".w")
		ws := []float32{w, 1 - w}
		if k == 11 {
			for i := 0; i < 9; i++ {
				ws = append(ws, F(t, n+".sdef", 10))
			}
		}
		return []int{bi(), bi()}, ws
	default:
		return []int{bi(), bi(), bi(), bi()}, []float32{U(t, n+".w"), U(t, n+".w"), U(t, n+".w"), U(t, n+".w")}
	}
}

// PMXDoc generates a well formed model.
func PMXDoc(t *T, o PMXOpts) *mmd.Document {
	d := mmd.NewDocument()
	d.Header.Version = rapid.SampledFrom([]float32{2, 2.1}).Draw(t, "version")
	d.Name, d.NameEn, d.Comment, d.CommentEn = text(t, "name"), text(t, "nameEn"), text(t, "comment"), text(t, "commentEn")
	nv := Int(t, "verts", 0, o.MaxVerts)
	nb := Int(t, "bones", 0, o.MaxBones)
	nm := Int(t, "mats", 0, o.MaxMats)
	nt := Int(t, "textures", 0, 3)
	ext := Int(t, "extuv", 0, 4)
	if o.ForConvert {
		ext = 0
	}
	d.Header.Info[mmd.AttrExtUV] = byte(ext)
	for i := 0; i < nt; i++ {
		d.Textures = append(d.Textures, text(t, "texture"))
	}
	for i := 0; i < nv; i++ {
		v := &mmd.Vertex{Pos: V3(t, "pos", 100), Normal: V3(t, "normal", 1), UV: V2(t, "uv", 2), EdgeScale: F(t, "edge", 2)}
		for k := 0; k < ext; k++ {
			v.ExtUVs = append(v.ExtUVs, V4(t, "ext", 5))
		}
		v.Bones, v.BoneWeights = Weights(t, "skin", nb, []int{1, 2, 4, 11})
		d.Vertexes = append(d.Vertexes, v)
	}
	left := 0
	if nv > 0 {
		left = Int(t, "faces", 0, o.MaxFaces)
	}
	for i := 0; i < left; i++ {
		d.Faces = append(d.Faces, &mmd.Face{Verts: [3]int{Int(t, "f0", 0, nv-1), Int(t, "f1", 0, nv-1), Int(t, "f2", 0, nv-1)}})
	}
	for i := 0; i < nm; i++ {
		m := &mmd.Material{Name: text(t, "mat"), NameEn: text(t, "matEn"), Color: Col4(t, "color"), Specular: Col3(t, "spec"),
			Specularity: F(t, "power", 50), AColor: Col3(t, "amb"), Flags: byte(Int(t, "flags", 0, 255)), EdgeColor: Col4(t, "edge"), EdgeScale: F(t, "es", 3),
			TextureID: optIndex(t, "tex", nt), EnvID: optIndex(t, "env", nt), EnvMode: byte(Int(t, "envmode", 0, 3)), ToonType: byte(Int(t, "toontype", 0, 1)),
			Memo: text(t, "memo")}
		if m.ToonType == 0 {
			m.Toon = optIndex(t, "toon", nt)
		} else {
			m.Toon = Int(t, "toon", 0, 9)
		}
		n := left
		if i < nm-1 {
			n = Int(t, "count", 0, left)
		}
		left -= n
		m.Count = n * 3
		d.Materials = append(d.Materials, m)
	}
	for i := 0; i < nb; i++ {
		b := &mmd.Bone{Name: text(t, "bone"), NameEn: text(t, "boneEn"), Pos: V3(t, "bpos", 50), ParentID: optIndex(t, "parent", nb), Layer: Int(t, "layer", 0, 3), TailID: -1}
		for _, f := range []uint16{1, 2, 4, 8, 16, 32, 0x80, 256, 512, 1024, 2048, 4096, 8192} {
			if Bool(t, "flag") {
				b.Flags |= f
			}
		}
		if b.Flags&1 != 0 {
			b.TailID = optIndex(t, "tail", nb)
		} else {
			b.TailPos = V3(t, "tailpos", 10)
		}
		if b.Flags&(256|512) != 0 {
			b.InheritParentID, b.InheritParentInfluence = optIndex(t, "inh", nb), F(t, "infl", 2)
		}
		if b.Flags&1024 != 0 {
			b.FixedAxis = V3(t, "axis", 1)
		}
		if b.Flags&32 != 0 {
			b.IK.TargetID, b.IK.Loop, b.IK.LimitRad = optIndex(t, "ik", nb), Int(t, "loop", 0, 300), F(t, "rad", 3)
			for k := Int(t, "links", 0, 3); k > 0; k-- {
				l := &mmd.Link{TargetID: optIndex(t, "link", nb), HasLimit: Bool(t, "limit")}
				if l.HasLimit {
					l.LimitMin, l.LimitMax = V3(t, "min", 3), V3(t, "max", 3)
				}
				b.IK.Links = append(b.IK.Links, l)
			}
		}
		d.Bones = append(d.Bones, b)
	}
	np := Int(t, "morphs", 0, o.MaxMorphs)
	for i := 0; i < np; i++ {
		m := &mmd.Morph{Name: text(t, "morph"), NameEn: text(t, "morphEn"), PanelType: byte(Int(t, "panel", 0, 4)), MorphType: rapid.SampledFrom([]byte{0, 1, 3, 8}).Draw(t, "mtype")}
		for k := Int(t, "offsets", 0, 4); k > 0; k-- {
			switch m.MorphType {
			case 0:
				m.Group = append(m.Group, &mmd.MorphGroup{Target: optIndex(t, "mt", np), Weight: F(t, "mw", 1)})
			case 1:
				if nv > 0 {
					m.Vertex = append(m.Vertex, &mmd.MorphVertex{Target: Int(t, "mt", 0, nv-1), Offset: V3(t, "mo", 5)})
				}
			case 3:
				if nv > 0 {
					m.UV = append(m.UV, &mmd.MorphUV{Target: Int(t, "mt", 0, nv-1), Value: V4(t, "mo", 1)})
				}
			case 8:
				m.Material = append(m.Material, &mmd.MorphMaterial{Target: optIndex(t, "mt", nm), Flags: byte(Int(t, "mf", 0, 1)), Diffuse: Col4(t, "md"), Specular: Col3(t, "ms"),
					Specularity: F(t, "msp", 50), Ambient: Col3(t, "ma"), EdgeColor: Col4(t, "me"), EdgeSize: F(t, "mes", 2), TextureTint: Col4(t, "mtt"), EnvironmentTint: Col4(t, "met"), ToonTint: Col4(t, "mto")})
			}
		}
		d.Morphs = append(d.Morphs, m)
	}
	nr := Int(t, "bodies", 0, o.MaxBodies)
	for i := 0; i < nr; i++ {
		d.Bodies = append(d.Bodies, &mmd.RigidBody{Name: text(t, "body"), NameEn: text(t, "bodyEn"), Bone: optIndex(t, "bb", nb), Group: Int(t, "group", 0, 15),
			GroupTarget: int(int16(Int(t, "gt", 0, 65535))), Shape: uint8(Int(t, "shape", 0, 2)), Size: V3(t, "bs", 5), Position: V3(t, "bp", 50), Rotation: V3(t, "br", 3),
			Mass: F(t, "mass", 10), LinearDamping: U(t, "ld"), AngularDamping: U(t, "ad"), Restitution: U(t, "re"), Friction: U(t, "fr"), Mode: uint8(Int(t, "mode", 0, 2))})
	}
	if nr > 0 {
		for k := Int(t, "joints", 0, o.MaxJoints); k > 0; k-- {
			d.Joints = append(d.Joints, &mmd.Joint{Name: text(t, "joint"), NameEn: text(t, "jointEn"), Type: 0, Body1: optIndex(t, "b1", nr), Body2: optIndex(t, "b2", nr),
				Position: V3(t, "jp", 50), Rotation: V3(t, "jr", 3), PositionMin: V3(t, "pmin", 5), PositionMax: V3(t, "pmax", 5), RotationMin: V3(t, "rmin", 3), RotationMax: V3(t, "rmax", 3),
				LinerSpring: V3(t, "ls", 100), AngulerSpring: V3(t, "as", 100)})
		}
	}
	return d
}

// IndexSizes draws sizes that can hold the model's indices.
func IndexSizes(t *T, d *mmd.Document) [6]byte {
	need := func(n, m1, m2 int, name string) byte {
		lo := byte(1)
		if n > m2 {
			lo = 4
		} else if n > m1 {
			lo = 2
		}
		var c []byte
		for _, s := range []byte{1, 2, 4} {
			if s >= lo {
				c = append(c, s)
			}
		}
		return rapid.SampledFrom(c).Draw(t, name)
	}
	return [6]byte{need(len(d.Vertexes), 255, 65535, "vsz"), need(len(d.Textures), 127, 32767, "tsz"), need(len(d.Materials), 127, 32767, "msz"),
		need(len(d.Bones), 127, 32767, "bsz"), need(len(d.Morphs), 127, 32767, "psz"), need(len(d.Bodies), 127, 32767, "rsz")}
}

// PMXExtra is content of a PMX file that the document model does not hold.
type PMXExtra struct {
	UTF16      bool
	Groups     int // display frames
	SoftBodies bool
	ExtraInfo  int // additional global bytes in the header
	LocalAxis  geom.Vector3
	ExtKey     int32
	BoneMorphs []int // positions in the morph list at which a bone / extra UV morph is inserted
	MorphKinds []byte
	Trailing   []byte
}

type enc struct {
	bytes.Buffer
	utf16 bool
	sz    [6]byte
}

func (e *enc) u8(v int)  { e.WriteByte(byte(v)) }
func (e *enc) u16(v int) { binary.Write(e, binary.LittleEndian, uint16(v)) }
func (e *enc) i32(v int) { binary.Write(e, binary.LittleEndian, int32(v)) }
func (e *enc) f(vs ...float32) {
	for _, v := range vs {
		var b [4]byte
		binary.LittleEndian.PutUint32(b[:], math.Float32bits(v))
		e.Write(b[:])
	}
}
func (e *enc) v2(v geom.Vector2) { e.f(v.X, v.Y) }
func (e *enc) v3(v geom.Vector3) { e.f(v.X, v.Y, v.Z) }
func (e *enc) v4(v geom.Vector4) { e.f(v.X, v.Y, v.Z, v.W) }
func (e *enc) text(s string) {
	if e.utf16 {
		u := utf16.Encode([]rune(s))
		e.i32(len(u) * 2)
		for _, c := range u {
			e.u16(int(c))
		}
		return
	}
	e.i32(len(s))
	e.WriteString(s)
}
func (e *enc) idx(kind int, v int) {
	switch e.sz[kind] {
	case 1:
		e.u8(v)
	case 2:
		e.u16(v)
	default:
		e.i32(v)
	}
}

const (
	ixV = iota
	ixT
	ixM
	ixB
	ixP
	ixR
)

// EncodePMX is the reference PMX 2.x encoder.
func EncodePMX(d *mmd.Document, sz [6]byte, x PMXExtra) []byte {
	e := &enc{utf16: x.UTF16, sz: sz}
	e.WriteString("PMX ")
	e.f(d.Header.Version)
	e.u8(8 + x.ExtraInfo)
	if x.UTF16 {
		e.u8(0)
	} else {
		e.u8(1)
	}
	e.u8(int(d.Header.Info[mmd.AttrExtUV]))
	e.Write(sz[:])
	for i := 0; i < x.ExtraInfo; i++ {
		e.u8(0)
	}
	e.text(d.Name)
	e.text(d.NameEn)
	e.text(d.Comment)
	e.text(d.CommentEn)
	e.i32(len(d.Vertexes))
	for _, v := range d.Vertexes {
		e.v3(v.Pos)
		e.v3(v.Normal)
		e.v2(v.UV)
		for _, u := range v.ExtUVs {
			e.v4(u)
		}
		switch len(v.BoneWeights) {
		case 1:
			e.u8(0)
			e.idx(ixB, v.Bones[0])
		case 2:
			e.u8(1)
			e.idx(ixB, v.Bones[0])
			e.idx(ixB, v.Bones[1])
			e.f(v.BoneWeights[0])
		case 4:
			e.u8(2)
			for _, b := range v.Bones {
				e.idx(ixB, b)
			}
			e.f(v.BoneWeights...)
		case 11:
			e.u8(3)
			e.idx(ixB, v.Bones[0])
			e.idx(ixB, v.Bones[1])
			e.f(v.BoneWeights[0])
			e.f(v.BoneWeights[2:]...)
		default:
			panic("weights")
		}
		e.f(v.EdgeScale)
	}
	e.i32(len(d.Faces) * 3)
	for _, f := range d.Faces {
		for _, v := range f.Verts {
			e.idx(ixV, v)
		}
	}
	e.i32(len(d.Textures))
	for _, s := range d.Textures {
		e.text(s)
	}
	e.i32(len(d.Materials))
	for _, m := range d.Materials {
		e.text(m.Name)
		e.text(m.NameEn)
		e.v4(m.Color)
		e.v3(m.Specular)
		e.f(m.Specularity)
		e.v3(m.AColor)
		e.u8(int(m.Flags))
		e.v4(m.EdgeColor)
		e.f(m.EdgeScale)
		e.idx(ixT, m.TextureID)
		e.idx(ixT, m.EnvID)
		e.u8(int(m.EnvMode))
		e.u8(int(m.ToonType))
		if m.ToonType == 0 {
			e.idx(ixT, m.Toon)
		} else {
			e.u8(m.Toon)
		}
		e.text(m.Memo)
		e.i32(m.Count)
	}
	e.i32(len(d.Bones))
	for _, b := range d.Bones {
		e.text(b.Name)
		e.text(b.NameEn)
		e.v3(b.Pos)
		e.idx(ixB, b.ParentID)
		e.i32(b.Layer)
		e.u16(int(b.Flags))
		if b.Flags&1 != 0 {
			e.idx(ixB, b.TailID)
		} else {
			e.v3(b.TailPos)
		}
		if b.Flags&0x300 != 0 {
			e.idx(ixB, b.InheritParentID)
			e.f(b.InheritParentInfluence)
		}
		if b.Flags&0x400 != 0 {
			e.v3(b.FixedAxis)
		}
		if b.Flags&0x800 != 0 {
			e.v3(x.LocalAxis)
			e.v3(x.LocalAxis)
		}
		if b.Flags&0x2000 != 0 {
			e.i32(int(x.ExtKey))
		}
		if b.Flags&0x20 != 0 {
			e.idx(ixB, b.IK.TargetID)
			e.i32(b.IK.Loop)
			e.f(b.IK.LimitRad)
			e.i32(len(b.IK.Links))
			for _, l := range b.IK.Links {
				e.idx(ixB, l.TargetID)
				if l.HasLimit {
					e.u8(1)
					e.v3(l.LimitMin)
					e.v3(l.LimitMax)
				} else {
					e.u8(0)
				}
			}
		}
	}
	e.i32(len(d.Morphs))
	for i, m := range d.Morphs {
		e.text(m.Name)
		e.text(m.NameEn)
		e.u8(int(m.PanelType))
		e.u8(int(m.MorphType))
		switch m.MorphType {
		case 0:
			e.i32(len(m.Group))
		case 1:
			e.i32(len(m.Vertex))
		case 3:
			e.i32(len(m.UV))
		case 8:
			e.i32(len(m.Material))
		case 2:
			e.i32(i%2 + 1)
			for k := 0; k < i%2+1; k++ {
				e.idx(ixB, -1)
				e.v3(x.LocalAxis)
				e.v4(geom.Vector4{W: 1})
			}
		case 4, 5, 6, 7:
			e.i32(i%2 + 1)
			for k := 0; k < i%2+1; k++ {
				e.idx(ixV, 0)
				e.v4(geom.Vector4{W: 1})
			}
		}
		for _, g := range m.Group {
			e.idx(ixP, g.Target)
			e.f(g.Weight)
		}
		for _, g := range m.Vertex {
			e.idx(ixV, g.Target)
			e.v3(g.Offset)
		}
		for _, g := range m.UV {
			e.idx(ixV, g.Target)
			e.v4(g.Value)
		}
		for _, g := range m.Material {
			e.idx(ixM, g.Target)
			e.u8(int(g.Flags))
			e.v4(g.Diffuse)
			e.v3(g.Specular)
			e.f(g.Specularity)
			e.v3(g.Ambient)
			e.v4(g.EdgeColor)
			e.f(g.EdgeSize)
			e.v4(g.TextureTint)
			e.v4(g.EnvironmentTint)
			e.v4(g.ToonTint)
		}
	}
	e.i32(x.Groups)
	for i := 0; i < x.Groups; i++ {
		e.text(fmt.Sprint("frame", i))
		e.text("表情")
		e.u8(i % 2)
		e.i32(i)
		for k := 0; k < i; k++ {
			e.u8(k % 2)
			if k%2 == 0 {
				e.idx(ixB, k)
			} else {
				e.idx(ixP, k)
			}
		}
	}
	e.i32(len(d.Bodies))
	for _, b := range d.Bodies {
		e.text(b.Name)
		e.text(b.NameEn)
		e.idx(ixB, b.Bone)
		e.u8(b.Group)
		e.u16(b.GroupTarget)
		e.u8(int(b.Shape))
		e.v3(b.Size)
		e.v3(b.Position)
		e.v3(b.Rotation)
		e.f(b.Mass, b.LinearDamping, b.AngularDamping, b.Restitution, b.Friction)
		e.u8(int(b.Mode))
	}
	e.i32(len(d.Joints))
	for _, j := range d.Joints {
		e.text(j.Name)
		e.text(j.NameEn)
		e.u8(int(j.Type))
		e.idx(ixR, j.Body1)
		e.idx(ixR, j.Body2)
		for _, v := range []geom.Vector3{j.Position, j.Rotation, j.PositionMin, j.PositionMax, j.RotationMin, j.RotationMax, j.LinerSpring, j.AngulerSpring} {
			e.v3(v)
		}
	}
	e.Write(x.Trailing)
	return e.Bytes()
}

// ---- reference decoder

type dec struct {
	b     []byte
	utf16 bool
	sz    [6]byte
}

func (d *dec) take(n int) []byte {
	if n < 0 || n > len(d.b) {
		panic(fmt.Errorf("reference decoder: %d bytes wanted, %d left", n, len(d.b)))
	}
	r := d.b[:n]
	d.b = d.b[n:]
	return r
}
func (d *dec) u8() int          { return int(d.take(1)[0]) }
func (d *dec) u16() int         { return int(binary.LittleEndian.Uint16(d.take(2))) }
func (d *dec) i32() int         { return int(int32(binary.LittleEndian.Uint32(d.take(4)))) }
func (d *dec) f() float32       { return math.Float32frombits(binary.LittleEndian.Uint32(d.take(4))) }
func (d *dec) v2() geom.Vector2 { return geom.Vector2{X: d.f(), Y: d.f()} }
func (d *dec) v3() geom.Vector3 { return geom.Vector3{X: d.f(), Y: d.f(), Z: d.f()} }
func (d *dec) v4() geom.Vector4 { return geom.Vector4{X: d.f(), Y: d.f(), Z: d.f(), W: d.f()} }
func (d *dec) text() string {
	b := d.take(d.i32())
	if !d.utf16 {
		return string(b)
	}
	var u []uint16
	for i := 0; i+1 < len(b); i += 2 {
		u = append(u, binary.LittleEndian.Uint16(b[i:]))
	}
	return string(utf16.Decode(u))
}
func (d *dec) idx(kind int) int {
	switch d.sz[kind] {
	case 1:
		if kind == ixV {
			return d.u8()
		}
		return int(int8(d.u8()))
	case 2:
		if kind == ixV {
			return d.u16()
		}
		return int(int16(d.u16()))
	case 4:
		return d.i32()
	}
	panic(fmt.Errorf("reference decoder: index size %d", d.sz[kind]))
}

// DecodePMX is the reference PMX 2.x decoder.
func DecodePMX(b []byte) (doc *mmd.Document, err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("%v", r)
		}
	}()
	d := &dec{b: b}
	doc = mmd.NewDocument()
	if string(d.take(4)) != "PMX " {
		return nil, fmt.Errorf("magic")
	}
	doc.Header.Version = d.f()
	n := d.u8()
	if n < 8 {
		return nil, fmt.Errorf("header size %d", n)
	}
	info := append([]byte{}, d.take(n)...)
	doc.Header.Info = info
	d.utf16 = info[0] == 0
	copy(d.sz[:], info[2:8])
	doc.Name, doc.NameEn, doc.Comment, doc.CommentEn = d.text(), d.text(), d.text(), d.text()
	for n := d.i32(); n > 0; n-- {
		v := &mmd.Vertex{Pos: d.v3(), Normal: d.v3(), UV: d.v2()}
		for k := 0; k < int(info[1]); k++ {
			v.ExtUVs = append(v.ExtUVs, d.v4())
		}
		switch k := d.u8(); k {
		case 0:
			v.Bones, v.BoneWeights = []int{d.idx(ixB)}, []float32{1}
		case 1, 3:
			v.Bones = []int{d.idx(ixB), d.idx(ixB)}
			w := d.f()
			v.BoneWeights = []float32{w, 1 - w}
			if k == 3 {
				for i := 0; i < 9; i++ {
					v.BoneWeights = append(v.BoneWeights, d.f())
				}
			}
		case 2:
			v.Bones = []int{d.idx(ixB), d.idx(ixB), d.idx(ixB), d.idx(ixB)}
			v.BoneWeights = []float32{d.f(), d.f(), d.f(), d.f()}
		default:
			return nil, fmt.Errorf("weight type %d", k)
		}
		v.EdgeScale = d.f()
		doc.Vertexes = append(doc.Vertexes, v)
	}
	for n := d.i32(); n > 0; n -= 3 {
		doc.Faces = append(doc.Faces, &mmd.Face{Verts: [3]int{d.idx(ixV), d.idx(ixV), d.idx(ixV)}})
	}
	for n := d.i32(); n > 0; n-- {
		doc.Textures = append(doc.Textures, d.text())
	}
	for n := d.i32(); n > 0; n-- {
		m := &mmd.Material{Name: d.text(), NameEn: d.text(), Color: d.v4(), Specular: d.v3(), Specularity: d.f(), AColor: d.v3(), Flags: byte(d.u8()),
			EdgeColor: d.v4(), EdgeScale: d.f(), TextureID: d.idx(ixT), EnvID: d.idx(ixT), EnvMode: byte(d.u8()), ToonType: byte(d.u8())}
		if m.ToonType == 0 {
			m.Toon = d.idx(ixT)
		} else {
			m.Toon = d.u8()
		}
		m.Memo = d.text()
		m.Count = d.i32()
		doc.Materials = append(doc.Materials, m)
	}
	for n := d.i32(); n > 0; n-- {
		b := &mmd.Bone{Name: d.text(), NameEn: d.text(), Pos: d.v3(), ParentID: d.idx(ixB), Layer: d.i32(), Flags: uint16(d.u16()), TailID: -1}
		if b.Flags&1 != 0 {
			b.TailID = d.idx(ixB)
		} else {
			b.TailPos = d.v3()
		}
		if b.Flags&0x300 != 0 {
			b.InheritParentID, b.InheritParentInfluence = d.idx(ixB), d.f()
		}
		if b.Flags&0x400 != 0 {
			b.FixedAxis = d.v3()
		}
		if b.Flags&0x800 != 0 {
			d.v3()
			d.v3()
		}
		if b.Flags&0x2000 != 0 {
			d.i32()
		}
		if b.Flags&0x20 != 0 {
			b.IK.TargetID, b.IK.Loop, b.IK.LimitRad = d.idx(ixB), d.i32(), d.f()
			for k := d.i32(); k > 0; k-- {
				l := &mmd.Link{TargetID: d.idx(ixB), HasLimit: d.u8() != 0}
				if l.HasLimit {
					l.LimitMin, l.LimitMax = d.v3(), d.v3()
				}
				b.IK.Links = append(b.IK.Links, l)
			}
		}
		doc.Bones = append(doc.Bones, b)
	}
	for n := d.i32(); n > 0; n-- {
		m := &mmd.Morph{Name: d.text(), NameEn: d.text(), PanelType: byte(d.u8()), MorphType: byte(d.u8())}
		for k := d.i32(); k > 0; k-- {
			switch m.MorphType {
			case 0:
				m.Group = append(m.Group, &mmd.MorphGroup{Target: d.idx(ixP), Weight: d.f()})
			case 1:
				m.Vertex = append(m.Vertex, &mmd.MorphVertex{Target: d.idx(ixV), Offset: d.v3()})
			case 2:
				d.idx(ixB)
				d.v3()
				d.v4()
			case 3:
				m.UV = append(m.UV, &mmd.MorphUV{Target: d.idx(ixV), Value: d.v4()})
			case 4, 5, 6, 7:
				d.idx(ixV)
				d.v4()
			case 8:
				m.Material = append(m.Material, &mmd.MorphMaterial{Target: d.idx(ixM), Flags: byte(d.u8()), Diffuse: d.v4(), Specular: d.v3(), Specularity: d.f(),
					Ambient: d.v3(), EdgeColor: d.v4(), EdgeSize: d.f(), TextureTint: d.v4(), EnvironmentTint: d.v4(), ToonTint: d.v4()})
			default:
				return nil, fmt.Errorf("morph type %d", m.MorphType)
			}
		}
		doc.Morphs = append(doc.Morphs, m)
	}
	for n := d.i32(); n > 0; n-- {
		d.text()
		d.text()
		d.u8()
		for k := d.i32(); k > 0; k-- {
			if d.u8() == 0 {
				d.idx(ixB)
			} else {
				d.idx(ixP)
			}
		}
	}
	for n := d.i32(); n > 0; n-- {
		doc.Bodies = append(doc.Bodies, &mmd.RigidBody{Name: d.text(), NameEn: d.text(), Bone: d.idx(ixB), Group: d.u8(), GroupTarget: int(int16(d.u16())), Shape: uint8(d.u8()),
			Size: d.v3(), Position: d.v3(), Rotation: d.v3(), Mass: d.f(), LinearDamping: d.f(), AngularDamping: d.f(), Restitution: d.f(), Friction: d.f(), Mode: uint8(d.u8())})
	}
	for n := d.i32(); n > 0; n-- {
		doc.Joints = append(doc.Joints, &mmd.Joint{Name: d.text(), NameEn: d.text(), Type: uint8(d.u8()), Body1: d.idx(ixR), Body2: d.idx(ixR), Position: d.v3(), Rotation: d.v3(),
			PositionMin: d.v3(), PositionMax: d.v3(), RotationMin: d.v3(), RotationMax: d.v3(), LinerSpring: d.v3(), AngulerSpring: d.v3()})
	}
	// the soft body count of PMX 2.1 may follow
	if len(d.b) != 0 && !(len(d.b) == 4 && d.i32() == 0) {
		return nil, fmt.Errorf("%d bytes after the joints", len(d.b))
	}
	return doc, nil
}

// ---- PMD and VMD

// SJIS encodes s for a fixed field of n bytes (cut at a character boundary,
// zero padded; after the terminator any byte may follow).
func SJIS(s string, n int, pad byte) []byte {
	var out []byte
	for _, r := range s {
		b, err := japanese.ShiftJIS.NewEncoder().Bytes([]byte(string(r)))
		if err != nil || len(out)+len(b) > n {
			break
		}
		out = append(out, b...)
	}
	k := len(out)
	for len(out) < n {
		out = append(out, pad)
	}
	if k < n {
		out[k] = 0
	}
	return out
}

// FitSJIS cuts s to what fits in n bytes of Shift_JIS.
func FitSJIS(s string, n int) string {
	k, r := 0, ""
	for _, c := range s {
		b, err := japanese.ShiftJIS.NewEncoder().Bytes([]byte(string(c)))
		if err != nil || k+len(b) > n {
			break
		}
		k += len(b)
		r += string(c)
	}
	return r
}

// PMDModel is the content of a PMD file as its specification lays it out.
type PMDModel struct {
	Version   float32
	Name      string
	Comment   string
	Verts     []PMDVert
	Faces     [][3]int
	Mats      []PMDMat
	Bones     []PMDBone
	IKs       []PMDIK
	MorphBase []PMDMorphVert
	Morphs    []PMDMorph
	Trailing  []byte
	Pad       byte
}
type PMDVert struct {
	Pos, Normal geom.Vector3
	UV          geom.Vector2
	B1, B2      int
	W, Edge     int
}
type PMDMat struct {
	Color     geom.Vector4
	Power     float32
	Spec, Amb geom.Vector3
	Toon      int
	Edge      int
	Count     int
	Tex       string
}
type PMDBone struct {
	Name         string
	Parent, Tail int
	Type, IK     int
	Pos          geom.Vector3
}
type PMDIK struct {
	Bone, Target, Loop int
	Weight             float32
	Links              []int
}
type PMDMorphVert struct {
	Index int
	Pos   geom.Vector3
}
type PMDMorph struct {
	Name  string
	Panel int
	Verts []PMDMorphVert
}

func EncodePMD(m *PMDModel) []byte {
	e := &enc{}
	e.WriteString("Pmd")
	e.f(m.Version)
	e.Write(SJIS(m.Name, 20, m.Pad))
	e.Write(SJIS(m.Comment, 256, m.Pad))
	e.i32(len(m.Verts))
	for _, v := range m.Verts {
		e.v3(v.Pos)
		e.v3(v.Normal)
		e.v2(v.UV)
		e.u16(v.B1)
		e.u16(v.B2)
		e.u8(v.W)
		e.u8(v.Edge)
	}
	e.i32(len(m.Faces) * 3)
	for _, f := range m.Faces {
		for _, i := range f {
			e.u16(i)
		}
	}
	e.i32(len(m.Mats))
	for _, a := range m.Mats {
		e.v4(a.Color)
		e.f(a.Power)
		e.v3(a.Spec)
		e.v3(a.Amb)
		e.u8(a.Toon)
		e.u8(a.Edge)
		e.i32(a.Count)
		e.Write(SJIS(a.Tex, 20, m.Pad))
	}
	e.u16(len(m.Bones))
	for _, b := range m.Bones {
		e.Write(SJIS(b.Name, 20, m.Pad))
		e.u16(b.Parent)
		e.u16(b.Tail)
		e.u8(b.Type)
		e.u16(b.IK)
		e.v3(b.Pos)
	}
	e.u16(len(m.IKs))
	for _, k := range m.IKs {
		e.u16(k.Bone)
		e.u16(k.Target)
		e.u8(len(k.Links))
		e.u16(k.Loop)
		e.f(k.Weight)
		for _, l := range k.Links {
			e.u16(l)
		}
	}
	if m.MorphBase == nil && len(m.Morphs) == 0 {
		e.u16(0)
	} else {
		e.u16(len(m.Morphs) + 1)
		e.Write(SJIS("base", 20, m.Pad))
		e.i32(len(m.MorphBase))
		e.u8(0)
		for _, v := range m.MorphBase {
			e.i32(v.Index)
			e.v3(v.Pos)
		}
		for _, p := range m.Morphs {
			e.Write(SJIS(p.Name, 20, m.Pad))
			e.i32(len(p.Verts))
			e.u8(p.Panel)
			for _, v := range p.Verts {
				e.i32(v.Index)
				e.v3(v.Pos)
			}
		}
	}
	e.Write(m.Trailing)
	return e.Bytes()
}

// PMDGen draws a PMD model.
func PMDGen(t *T) *PMDModel {
	nm := func(n string, k int) string { return FitSJIS(Name(t, n), k) }
	m := &PMDModel{Version: 1, Name: nm("name", 20), Pad: rapid.SampledFrom([]byte{0, 0xfd}).Draw(t, "pad")}
	for i := Int(t, "comment", 0, 5); i > 0; i-- {
		m.Comment += Name(t, "comment")
	}
	m.Comment = FitSJIS(m.Comment, 256)
	nv, nb := Int(t, "verts", 0, 10), Int(t, "bones", 0, 6)
	fill := 0 // bones 6... are alike
	if Chance(t, "manybones", 12) {
		fill = Int(t, "fill", 100, 400)
	}
	for i := 0; i < nv; i++ {
		v := PMDVert{Pos: V3(t, "pos", 100), Normal: V3(t, "n", 1), UV: V2(t, "uv", 2), W: Int(t, "w", 0, 100), Edge: Int(t, "edge", 0, 1)}
		if nb+fill > 0 {
			nb := nb + fill
			v.B1, v.B2 = Int(t, "b1", 0, nb-1), Int(t, "b2", 0, nb-1)
		}
		m.Verts = append(m.Verts, v)
	}
	nf := 0
	if nv > 0 {
		nf = Int(t, "faces", 0, 6)
	}
	for i := 0; i < nf; i++ {
		m.Faces = append(m.Faces, [3]int{Int(t, "f", 0, nv-1), Int(t, "f", 0, nv-1), Int(t, "f", 0, nv-1)})
	}
	k := Int(t, "mats", 0, 4)
	for i := 0; i < k; i++ {
		a := PMDMat{Color: Col4(t, "color"), Power: F(t, "pow", 50), Spec: Col3(t, "spec"), Amb: Col3(t, "amb"), Toon: Int(t, "toon", 0, 255), Edge: Int(t, "edge", 0, 1)}
		a.Count = nf * 3
		if i < k-1 {
			a.Count = 3 * Int(t, "count", 0, nf)
		}
		nf -= a.Count / 3
		if Bool(t, "hasTex") {
			a.Tex = rapid.SampledFrom([]string{"a.bmp", "tex.png*x.spa", "ソ.tga", "body.png", "b.bmp*能.sph"}).Draw(t, "tex")
		}
		m.Mats = append(m.Mats, a)
	}
	for i := 0; i < nb; i++ {
		b := PMDBone{Name: nm("bone", 20), Parent: optIndex(t, "parent", nb), Tail: Int(t, "tail", -1, nb-1), Type: Int(t, "type", 0, 9), IK: optIndex(t, "ik", nb), Pos: V3(t, "pos", 50)}
		m.Bones = append(m.Bones, b)
	}
	for i := 0; i < fill; i++ {
		m.Bones = append(m.Bones, PMDBone{Name: fmt.Sprint("filler", i), Parent: nb + i - 1, Tail: nb + i + 1, Pos: geom.Vector3{X: float32(i)}})
	}
	if nb += fill; nb > 0 {
		for i := Int(t, "iks", 0, 2); i > 0; i-- {
			x := PMDIK{Bone: Int(t, "ikbone", 0, nb-1), Target: Int(t, "iktarget", 0, nb-1), Loop: Int(t, "loop", 0, 1000), Weight: F(t, "ikw", 1)}
			dup := false
			for _, o := range m.IKs {
				dup = dup || o.Bone == x.Bone
			}
			if dup {
				continue
			}
			for j := Int(t, "links", 0, 3); j > 0; j-- {
				x.Links = append(x.Links, Int(t, "link", 0, nb-1))
			}
			m.IKs = append(m.IKs, x)
		}
	}
	if nv > 0 && Bool(t, "morphs") {
		m.MorphBase = []PMDMorphVert{}
		for i := Int(t, "base", 1, 5); i > 0; i-- {
			m.MorphBase = append(m.MorphBase, PMDMorphVert{Index: Int(t, "bi", 0, nv-1), Pos: V3(t, "bp", 5)})
		}
		for i := Int(t, "nmorph", 0, 3); i > 0; i-- {
			p := PMDMorph{Name: nm("morph", 20), Panel: Int(t, "panel", 0, 4)}
			for j := Int(t, "mv", 0, 4); j > 0; j-- {
				p.Verts = append(p.Verts, PMDMorphVert{Index: Int(t, "mi", 0, len(m.MorphBase)-1), Pos: V3(t, "mp", 5)})
			}
			m.Morphs = append(m.Morphs, p)
		}
	}
	m.Trailing = rapid.SampledFrom([][]byte{nil, {0}, {0, 0, 0, 0, 0, 0}, bytes.Repeat([]byte{1}, 600)}).Draw(t, "trailing")
	return m
}

// VMDModel

func VMDGen(t *T) *mmd.Animation {
	nm := func(n string, k int) string { return FitSJIS(Name(t, n), k) }
	a := &mmd.Animation{Name: nm("model", 20)}
	names := []string{nm("b0", 15), nm("b1", 15), "センター"}
	for i := Int(t, "bones", 0, 10); i > 0; i-- {
		s := &mmd.AnimationBoneSample{Target: rapid.SampledFrom(names).Draw(t, "target"), Frame: rapid.SampledFrom([]int{0, 1, 2, 3, 10, 255, 256, 70000}).Draw(t, "frame"),
			Position: V3(t, "pos", 20), Rotation: V4(t, "rot", 1)}
		for k := range s.Params {
			s.Params[k] = byte((k*7 + i) % 128)
		}
		a.Bone = append(a.Bone, s)
	}
	for i := Int(t, "morphs", 0, 8); i > 0; i-- {
		a.Morph = append(a.Morph, &mmd.AnimationMorphSample{Target: rapid.SampledFrom(names).Draw(t, "mtarget"), Frame: Int(t, "mframe", 0, 70000), Value: U(t, "value")})
	}
	return a
}

func EncodeVMD(a *mmd.Animation, pad byte, trailing []byte) []byte {
	e := &enc{}
	e.Write(SJIS("Vocaloid Motion Data 0002", 30, pad))
	e.Write(SJIS(a.Name, 20, pad))
	e.i32(len(a.Bone))
	for _, s := range a.Bone {
		e.Write(SJIS(s.Target, 15, pad))
		e.i32(s.Frame)
		e.v3(s.Position)
		e.v4(s.Rotation)
		e.Write(s.Params[:])
	}
	e.i32(len(a.Morph))
	for _, s := range a.Morph {
		e.Write(SJIS(s.Target, 15, pad))
		e.i32(s.Frame)
		e.f(s.Value)
	}
	e.Write(trailing)
	return e.Bytes()
}
