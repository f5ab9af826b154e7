package gen

import (
	"fmt"
	"math"
	"strings"

	"github.com/binzume/modelconv/geom"
	"github.com/binzume/modelconv/mqo"
	"pgregory.net/rapid"
)

// MQOOpts bounds the generated documents.
type MQOOpts struct {
	MaxObjects, MaxVerts, MaxFaces, MaxMats, MaxBones int
	Scene, Ex2, Plugins, Physics                      bool
	DupNames                                          bool
	FreeMaterials                                     bool // material values off the printed grid
	VertexUIDs                                        bool
	PartialUIDs                                       bool // some vertices have no id
	Normals                                           bool
	NameFn                                            func(*T, string) string
	Coord                                             float64
}

func SmallMQO() MQOOpts {
	return MQOOpts{MaxObjects: 4, MaxVerts: 8, MaxFaces: 4, MaxMats: 3, MaxBones: 4, Scene: true, Ex2: true, Plugins: true, Physics: true, VertexUIDs: true, Normals: true, Coord: 1000, NameFn: Name}
}

// Grid draws a value that survives printing with the given number of decimals.
func Grid(t *T, n string, dec int, lo, hi float64) float32 {
	p := math.Pow(10, float64(dec))
	k := rapid.IntRange(int(lo*p), int(hi*p)).Draw(t, n)
	return float32(float64(k) / p)
}

func (o MQOOpts) mv(t *T, n string, dec int, lo, hi float64) float32 {
	if o.FreeMaterials {
		return float32(rapid.Float64Range(lo, hi).Draw(t, n))
	}
	return Grid(t, n, dec, lo, hi)
}

// Coordinate values incl. tiny and huge ones (printed with exponents).
func Coord(t *T, n string, lim float64) float32 {
	switch rapid.IntRange(0, 9).Draw(t, n+".k") {
	case 0:
		return float32(rapid.Float64Range(-1e-4, 1e-4).Draw(t, n))
	case 1:
		return float32(rapid.Float64Range(-3e7, 3e7).Draw(t, n))
	case 2:
		return 0
	}
	return F(t, n, lim)
}

func coord3(t *T, n string, lim float64) geom.Vector3 {
	return geom.Vector3{X: Coord(t, n+".x", lim), Y: Coord(t, n+".y", lim), Z: Coord(t, n+".z", lim)}
}

func MQOTexName(t *T, n string) string {
	s := Ident(t, n)
	switch rapid.IntRange(0, 4).Draw(t, n+".k") {
	case 0:
		s = "tex/" + s
	case 1:
		s = "テクスチャ/" + s
	case 2:
		s = s + " (1)"
	}
	return s + rapid.SampledFrom([]string{".png", ".jpg", ".bmp", ".PNG", ".tga"}).Draw(t, n+".ext")
}

func shaderParams(t *T, n string) map[string]interface{} {
	r := map[string]interface{}{}
	for i := rapid.IntRange(0, 4).Draw(t, n+".n"); i > 0; i-- {
		k := Ident(t, n+".key")
		if Chance(t, n+".dot", 3) {
			k += "." + Ident(t, n+".key2")
		}
		switch rapid.IntRange(0, 5).Draw(t, n+".type") {
		case 0:
			r[k] = rapid.IntRange(-5, 100).Draw(t, n+".i")
		case 1:
			r[k] = Coord(t, n+".f", 10)
		case 2:
			r[k] = float64(Coord(t, n+".f64", 10))
		case 3:
			r[k] = Bool(t, n+".b")
		case 4:
			c := Col4(t, n+".c")
			r[k] = []float32{c.X, c.Y, c.Z, c.W}
		case 5:
			r[k] = Name(t, n+".s")
		}
	}
	return r
}

func (o MQOOpts) Material(t *T, name string) *mqo.Material {
	m := &mqo.Material{Name: name}
	m.Color = geom.Vector4{X: o.mv(t, "col.r", 3, 0, 1), Y: o.mv(t, "col.g", 3, 0, 1), Z: o.mv(t, "col.b", 3, 0, 1), W: o.mv(t, "col.a", 3, 0, 1)}
	m.Diffuse = o.mv(t, "dif", 3, 0, 1)
	m.Ambient = o.mv(t, "amb", 3, 0, 1)
	m.Emission = o.mv(t, "emi", 3, 0, 1)
	m.Specular = o.mv(t, "spc", 3, 0, 1)
	m.Power = o.mv(t, "power", 2, 0, 100)
	if Bool(t, "tex") {
		m.Texture = MQOTexName(t, "tex")
	}
	if Chance(t, "bump", 3) {
		m.BumpTexture = MQOTexName(t, "bump")
	}
	if Chance(t, "aplane", 3) {
		m.AlphaTexture = MQOTexName(t, "aplane")
	}
	if Chance(t, "emicol", 3) {
		m.EmissionColor = &geom.Vector3{X: o.mv(t, "emc.r", 3, 0, 1), Y: o.mv(t, "emc.g", 3, 0, 1), Z: o.mv(t, "emc.b", 3, 0, 1)}
	}
	m.DoubleSided = Bool(t, "dbls")
	m.Shader = rapid.IntRange(0, 4).Draw(t, "shader")
	if Chance(t, "matuid", 3) {
		m.UID = rapid.IntRange(1, 99).Draw(t, "uid")
	}
	if o.Ex2 && Chance(t, "ex2", 3) {
		m.Ex2 = &mqo.MaterialEx2{ShaderType: rapid.SampledFrom([]string{"", "hlsl", "glsl"}).Draw(t, "stype"), ShaderName: rapid.SampledFrom([]string{"glTF", "pmd", "Toon", "MToon x"}).Draw(t, "sname"),
			ShaderParams: shaderParams(t, "sp"), ShaderMapping: map[string]string{}, ShaderMappingParams: map[string]map[string]interface{}{}}
		for i := rapid.IntRange(0, 2).Draw(t, "maps"); i > 0; i-- {
			m.Ex2.ShaderMapping[Ident(t, "mapk")] = MQOTexName(t, "mapv")
		}
		for i := rapid.IntRange(0, 1).Draw(t, "mapps"); i > 0; i-- {
			m.Ex2.ShaderMappingParams[Ident(t, "mappk")] = shaderParams(t, "mpp")
		}
	}
	return m
}

// MQODoc draws a document inside the domain of the file format.
func MQODoc(t *T, o MQOOpts) *mqo.Document {
	doc := mqo.NewDocument()
	if o.Scene && Bool(t, "scene") {
		s := &mqo.Scene{CameraPos: coord3(t, "pos", 1000), CameraLookAt: coord3(t, "lookat", 1000),
			CameraRot: geom.Vector3{X: Grid(t, "pich", 4, -4, 4), Y: Grid(t, "head", 4, -4, 4), Z: Grid(t, "bank", 4, -4, 4)}, Zoom2: Grid(t, "zoom2", 4, 0, 100), Ortho: Bool(t, "ortho")}
		if Bool(t, "clip") {
			s.FrontClip = Grid(t, "front", 3, 0.001, 10)
			s.BackClip = Grid(t, "back", 3, 0.001, 10000)
		}
		if Bool(t, "scene.amb") {
			s.AmbientLight = &geom.Vector3{X: Grid(t, "al.r", 3, 0, 1), Y: Grid(t, "al.g", 3, 0, 1), Z: Grid(t, "al.b", 3, 0, 1)}
		}
		doc.Scene = s
	}
	nm := rapid.IntRange(0, o.MaxMats).Draw(t, "mats")
	names := UniqueNames(t, "mat", nm, o.NameFn)
	for i := 0; i < nm; i++ {
		n := names[i]
		if o.DupNames && i > 0 && Bool(t, "dupm") {
			n = doc.Materials[rapid.IntRange(0, i-1).Draw(t, "dupof")].Name
		}
		doc.Materials = append(doc.Materials, o.Material(t, n))
	}
	no := rapid.IntRange(0, o.MaxObjects).Draw(t, "objs")
	names = UniqueNames(t, "obj", no, o.NameFn)
	depth := 0
	uidKind := rapid.IntRange(0, 2).Draw(t, "uids") // none, 1.., shuffled
	uids := rapid.Permutation([]int{1, 2, 3, 4, 5, 6, 7, 8, 9, 20, 31}).Draw(t, "uidperm")
	for i := 0; i < no; i++ {
		n := names[i]
		if o.DupNames && i > 0 && Bool(t, "dupo") {
			n = doc.Objects[rapid.IntRange(0, i-1).Draw(t, "dupof")].Name
		}
		obj := o.Object(t, n, nm)
		if i > 0 {
			depth = rapid.IntRange(0, depth+1).Draw(t, "depth")
		}
		obj.Depth = depth
		switch uidKind {
		case 1:
			obj.UID = i + 1
		case 2:
			obj.UID = uids[i]
		}
		doc.Objects = append(doc.Objects, obj)
	}
	if o.Plugins {
		o.plugins(t, doc)
	}
	return doc
}

// Object draws one object with nm materials available.
func (o MQOOpts) Object(t *T, name string, nm int) *mqo.Object {
	obj := mqo.NewObject(name)
	obj.Visible = !Chance(t, "hidden", 4)
	obj.Locked = Chance(t, "locked", 3)
	obj.Folding = Chance(t, "folding", 3)
	obj.Shading = rapid.IntRange(0, 1).Draw(t, "shading")
	obj.Facet = Grid(t, "facet", 2, 0, 180)
	if Chance(t, "patch", 4) {
		obj.Patch = rapid.IntRange(1, 3).Draw(t, "patchtype")
		obj.PatchSegment = rapid.IntRange(0, 8).Draw(t, "segment")
	}
	if Chance(t, "mirror", 3) {
		obj.Mirror = rapid.IntRange(0, 2).Draw(t, "mirrortype")
		obj.MirrorDis = Grid(t, "mirrordis", 3, 0, 100)
	}
	if Bool(t, "trs") {
		s, r, tr := coord3(t, "scale", 10), geom.Vector3{X: F(t, "rx", 90), Y: F(t, "ry", 180), Z: F(t, "rz", 180)}, coord3(t, "tr", 100)
		obj.Scale, obj.Rotation, obj.Translation = &s, &r, &tr
	}
	if Chance(t, "color", 3) {
		obj.Color = &geom.Vector3{X: Grid(t, "oc.r", 3, 0, 1), Y: Grid(t, "oc.g", 3, 0, 1), Z: Grid(t, "oc.b", 3, 0, 1)}
	}
	nv := rapid.IntRange(0, o.MaxVerts).Draw(t, "nv")
	for i := 0; i < nv; i++ {
		v := coord3(t, "v", o.Coord)
		obj.Vertexes = append(obj.Vertexes, &v)
	}
	if o.VertexUIDs && nv > 0 && Chance(t, "vuid", 3) {
		ids := map[int]bool{}
		for i := 0; i < nv; i++ {
			id := rapid.IntRange(1, 3*nv).Draw(t, "vid")
			for ids[id] {
				id++
			}
			ids[id] = true
			obj.VertexByUID[id] = i
		}
		if o.PartialUIDs && Chance(t, "somevuid", 3) {
			// vertices added later have no id yet
			for id, v := range obj.VertexByUID {
				if v >= nv/2 {
					delete(obj.VertexByUID, id)
				}
			}
		}
	}
	if nv > 0 {
		for i := rapid.IntRange(0, o.MaxFaces).Draw(t, "nf"); i > 0; i-- {
			f := &mqo.Face{}
			k := rapid.IntRange(2, 6).Draw(t, "corners")
			if k > nv {
				k = nv
			}
			perm := rapid.Permutation(iota_(nv)).Draw(t, "fv")
			f.Verts = append([]int{}, perm[:k]...)
			f.Material = rapid.IntRange(-1, nm).Draw(t, "fm")
			if nm > 0 && f.Material < nm && f.Material >= 0 {
				// fine
			} else if !Chance(t, "oddmat", 4) {
				f.Material = 0
			}
			if Bool(t, "uv") {
				for j := 0; j < k; j++ {
					f.UVs = append(f.UVs, geom.Vector2{X: Coord(t, "u", 2), Y: Coord(t, "v", 2)})
				}
			}
			if Chance(t, "fuid", 3) {
				f.UID = rapid.IntRange(1, 1000).Draw(t, "fuidv")
			}
			if o.Normals && Chance(t, "normals", 3) {
				for j := 0; j < k; j++ {
					if Chance(t, "nonormal", 4) {
						f.Normals = append(f.Normals, nil)
					} else {
						n := UnitV3(t, "n")
						f.Normals = append(f.Normals, &n)
					}
				}
			}
			obj.Faces = append(obj.Faces, f)
		}
	}
	return obj
}

func iota_(n int) []int {
	r := make([]int, n)
	for i := range r {
		r[i] = i
	}
	return r
}

// Iota returns 0..n-1.
func Iota(n int) []int { return iota_(n) }

// UnitV3 draws a unit vector.
func UnitV3(t *T, n string) geom.Vector3 {
	z := rapid.Float64Range(-1, 1).Draw(t, n+".z")
	a := rapid.Float64Range(0, 2*math.Pi).Draw(t, n+".a")
	r := math.Sqrt(1 - z*z)
	return geom.Vector3{X: float32(r * math.Cos(a)), Y: float32(r * math.Sin(a)), Z: float32(z)}
}

func va(v geom.Vector3) mqo.Vector3Attr { return mqo.Vector3Attr{Vector3: v} }

func xa(v geom.Vector3) mqo.Vector3XmlAttr { return mqo.Vector3XmlAttr{X: v.X, Y: v.Y, Z: v.Z} }

func xmlName(t *T, n string) string {
	s := Name(t, n)
	if Chance(t, n+".q", 5) {
		s += "\"&<"
	}
	return s
}

func (o MQOOpts) plugins(t *T, doc *mqo.Document) {
	uid := func(i int) int {
		if doc.Objects[i].UID > 0 {
			return doc.Objects[i].UID
		}
		return i + 1
	}
	if Bool(t, "bones") {
		bp := mqo.GetBonePlugin(doc)
		bp.Name = "Bone"
		nb := rapid.IntRange(0, o.MaxBones).Draw(t, "nb")
		bp.BoneSet2.Limit = rapid.IntRange(0, 4).Draw(t, "limit")
		for i := 0; i < nb; i++ {
			b := &mqo.Bone{ID: i + 1, Name: xmlName(t, "bone"), Pos: va(coord3(t, "bpos", 1000)), Group: rapid.IntRange(0, 3).Draw(t, "grp"),
				Movable: rapid.IntRange(0, 1).Draw(t, "mov"), Hide: rapid.IntRange(0, 1).Draw(t, "hide"), Dummy: rapid.IntRange(0, 1).Draw(t, "dummy")}
			b.Parent = rapid.IntRange(0, i).Draw(t, "parent")
			if Chance(t, "bcol", 3) {
				b.Color = "1,0,0"
			}
			if Chance(t, "up", 3) {
				v := va(UnitV3(t, "upv"))
				b.UpVector = &v
			}
			if Chance(t, "rot", 3) {
				v := va(V3(t, "rotv", 180))
				b.Rotate = &v
			}
			if Chance(t, "ik", 4) {
				b.IK = &mqo.BoneIK{ChainCount: rapid.IntRange(0, 4).Draw(t, "chain"), Name: xmlName(t, "ikn"), TipName: xmlName(t, "ikt")}
			}
			for oi, obj := range doc.Objects {
				if len(obj.Vertexes) == 0 || !Bool(t, "weights") {
					continue
				}
				for k := rapid.IntRange(0, 4).Draw(t, "nw"); k > 0; k-- {
					vi := rapid.IntRange(0, len(obj.Vertexes)-1).Draw(t, "wv")
					b.SetVertexWeight(uid(oi), VertexUID(obj, vi), Grid(t, "w", 3, 0, 100))
				}
			}
			bp.AddBone(b)
		}
		for i := rapid.IntRange(0, 2).Draw(t, "poses"); i > 0; i-- {
			bp.PoseSet.BonePoses = append(bp.PoseSet.BonePoses, &mqo.BonePose{ID: rapid.IntRange(0, 5).Draw(t, "poseid"), Name: xmlName(t, "posen"),
				MvX: F(t, "mvx", 10), MvY: F(t, "mvy", 10), MvZ: F(t, "mvz", 10), RotB: F(t, "rotb", 90), RotH: F(t, "roth", 90), RotP: F(t, "rotp", 90), ScB: F(t, "scb", 2), ScH: F(t, "sch", 2), ScP: F(t, "scp", 2)})
		}
		if Chance(t, "oldbones", 4) {
			b := &mqo.BoneOld{ID: 1, Name: xmlName(t, "oldname"), Group: 1, RtX: F(t, "rtx", 10), TpY: F(t, "tpy", 10), MvZ: F(t, "omvz", 10), Sc: F(t, "sc", 3), RotB: 1, RotH: 2, RotP: 3, MaxAngB: 10, MaxAngH: 11, MaxAngP: 12, MinAngB: -1, MinAngH: -2, MinAngP: -3}
			b.Children = []*mqo.BoneRef{{ID: 2}}
			b.Weights = []*mqo.BoneWeight{{ObjectID: 1, VertexID: 2, Weight: F(t, "ow", 100)}}
			bp.BoneSet.Bone = []*mqo.BoneOld{b}
		}
	}
	if Bool(t, "morphs") {
		mp := mqo.GetMorphPlugin(doc)
		for i := rapid.IntRange(0, 2).Draw(t, "mlists"); i > 0; i-- {
			l := &mqo.MorphTargetList{Base: xmlName(t, "base")}
			for k := rapid.IntRange(0, 3).Draw(t, "mtargets"); k > 0; k-- {
				l.Target = append(l.Target, &mqo.MorphTarget{Name: xmlName(t, "target"), Param: rapid.IntRange(-10, 100).Draw(t, "param")})
			}
			mp.MorphSet.Targets = append(mp.MorphSet.Targets, l)
		}
	}
	if o.Physics && Bool(t, "physics") {
		pp := mqo.GetPhysicsPlugin(doc)
		for i := rapid.IntRange(0, 2).Draw(t, "bodies"); i > 0; i-- {
			b := &mqo.PhysicsBody{Mass: F(t, "mass", 10), Kinematic: Bool(t, "kin"), CollisionGroup: rapid.IntRange(0, 15).Draw(t, "cg"), CollisionMask: rapid.IntRange(0, 65535).Draw(t, "cm"),
				Restitution: U(t, "res"), Friction: U(t, "fri"), LinearDamping: U(t, "ld"), AngularDamping: U(t, "ad"), Name: xmlName(t, "bodyname"),
				TargetBoneID: rapid.IntRange(0, 5).Draw(t, "tb"), TargetObjID: rapid.IntRange(0, 5).Draw(t, "to")}
			for k := rapid.IntRange(0, 2).Draw(t, "shapes"); k > 0; k-- {
				b.Shapes = append(b.Shapes, &mqo.PhysicsShape{Type: rapid.SampledFrom([]string{"BOX", "SPHERE", "CAPSULE", "CYLINDER", "MESH"}).Draw(t, "stype"), Size: xa(coord3(t, "ssize", 10)), Position: xa(coord3(t, "spos", 100)), Rotation: xa(V3(t, "srot", 3))})
			}
			pp.Bodies = append(pp.Bodies, b)
		}
		for i := rapid.IntRange(0, 2).Draw(t, "joints"); i > 0; i-- {
			pp.Constraints = append(pp.Constraints, &mqo.PhysicsJointConstraint{Type: rapid.SampledFrom([]string{"", "SPRING"}).Draw(t, "jt"), Body1: rapid.IntRange(0, 3).Draw(t, "b1"), Body2: rapid.IntRange(0, 3).Draw(t, "b2"), Name: xmlName(t, "jn"),
				Position: xa(coord3(t, "jp", 100)), Rotation: xa(V3(t, "jr", 3)), LinerSpring: xa(V3(t, "jl", 3)), AngulerSpring: xa(V3(t, "ja", 3))})
		}
	}
}

// VertexUID is the id by which weights refer to a vertex.
func VertexUID(obj *mqo.Object, i int) int {
	for id, v := range obj.VertexByUID {
		if v == i {
			return id
		}
	}
	return i + 1
}

// DescribeMQO renders a document compactly.
func DescribeMQO(doc *mqo.Document) string {
	var sb strings.Builder
	for _, m := range doc.Materials {
		fmt.Fprintf(&sb, "material %q col%v tex %q/%q/%q shader %d ex2 %v\n", m.Name, m.Color, m.Texture, m.AlphaTexture, m.BumpTexture, m.Shader, m.Ex2)
	}
	for _, o := range doc.Objects {
		fmt.Fprintf(&sb, "object %q uid %d depth %d visible %v mirror %d/%v patch %d trs %v %v %v\n", o.Name, o.UID, o.Depth, o.Visible, o.Mirror, o.MirrorDis, o.Patch, o.Translation, o.Rotation, o.Scale)
		for i, v := range o.Vertexes {
			if i > 40 {
				fmt.Fprintf(&sb, " ... %d vertices\n", len(o.Vertexes))
				break
			}
			fmt.Fprintf(&sb, " v%d %v\n", i, *v)
		}
		for i, f := range o.Faces {
			if i > 40 {
				fmt.Fprintf(&sb, " ... %d faces\n", len(o.Faces))
				break
			}
			fmt.Fprintf(&sb, " f%d %v m%d uv %v n ", i, f.Verts, f.Material, f.UVs)
			for _, n := range f.Normals {
				if n == nil {
					fmt.Fprint(&sb, "nil ")
				} else {
					fmt.Fprint(&sb, *n, " ")
				}
			}
			fmt.Fprintln(&sb)
		}
	}
	for _, p := range doc.Plugins {
		switch pl := p.(type) {
		case *mqo.BonePlugin:
			for _, b := range pl.Bones() {
				fmt.Fprintf(&sb, "bone %d %q parent %d pos %v", b.ID, b.Name, b.Parent, b.Pos.Vector3)
				for _, w := range b.Weights {
					fmt.Fprintf(&sb, " obj%d[", w.ObjectID)
					for _, v := range w.Vertexes {
						fmt.Fprintf(&sb, "%d:%v ", v.VertexID, v.Weight)
					}
					fmt.Fprint(&sb, "]")
				}
				fmt.Fprintln(&sb)
			}
		case *mqo.MorphPlugin:
			for _, m := range pl.Morphs() {
				fmt.Fprintf(&sb, "morph base %q:", m.Base)
				for _, t := range m.Target {
					fmt.Fprintf(&sb, " %q=%d", t.Name, t.Param)
				}
				fmt.Fprintln(&sb)
			}
		case *mqo.PhysicsPlugin:
			for _, b := range pl.Bodies {
				fmt.Fprintf(&sb, "body %+v", *b)
				for _, s := range b.Shapes {
					fmt.Fprintf(&sb, " %+v", *s)
				}
				fmt.Fprintln(&sb)
			}
		}
	}
	return sb.String()
}
