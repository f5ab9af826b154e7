package gen

import (
	"fmt"
	"math"

	"pgregory.net/rapid"
)

// FScene is an FBX scene in the terms of the format.
type FScene struct {
	Axis    [3]int // coord, up, front
	Sign    [3]int
	Models  []*FModel
	Geos    []*FGeo
	Mats    []*FMat
	TmplScl *P3 // Lcl Scaling of the Model template
	TmplDif *float64
	Unit    *float64
	V61     bool // for a version 6.1 file
}

type FModel struct {
	ID           int64
	Name, Kind   string
	T, R, S, Pre *P3
	Parent       int // index, -1: scene
	Geo          int // index, -1: none
	Mats         []int
}

type FGeo struct {
	ID      int64
	Name    string
	Verts   []P3
	Polys   [][]int
	Normals [][]P3         // per polygon corner; nil: none
	NrmMap  string         // ByPolygonVertex, ByControlPoint
	NrmRef  string         // Direct, IndexToDirect
	VNrm    []P3           // ByControlPoint normals
	UVs     [][][2]float64 // per polygon corner
	UVRef   string
	MatIdx  []int // per polygon (ByPolygon) or one (AllSame)
	MatMap  string
	Skin    []FCluster
	Shapes  []FShape // blend shape channels
	Inline  []FShape // Shape children (old style)
}

type FCluster struct {
	Model  int
	Idx    []int
	W      []float64
	Link   M // TransformLink
	NoMesh bool
}

type FShape struct {
	Name string
	Idx  []int
	Off  []P3
}

type FMat struct {
	ID      int64
	Name    string
	Diffuse *P3
	DifF    *float64
	SpecC   *P3
	SpecF   *float64
	EmiC    *P3
	EmiF    *float64
	AmbC    *P3
	AmbF    *float64
	Opacity *float64
	Power   *float64
	Tex     string
}

func optV(t *T, n string, f func() P3) *P3 {
	if Bool(t, n+"?") {
		v := f()
		return &v
	}
	return nil
}
func optF(t *T, n string) *float64 {
	if Bool(t, n+"?") {
		v := float64(U(t, n))
		return &v
	}
	return nil
}

func col(t *T, n string) func() P3 {
	return func() P3 { v := Col3(t, n); return V(&v) }
}

var axisSystems = [][2][3]int{
	{{0, 1, 2}, {1, 1, 1}}, {{0, 2, 1}, {1, 1, -1}}, {{2, 1, 0}, {-1, 1, 1}}, {{1, 2, 0}, {1, 1, 1}}, {{0, 1, 2}, {-1, 1, -1}}, {{0, 2, 1}, {-1, 1, 1}}, {{2, 0, 1}, {1, 1, 1}},
}

// Coord is the file's axis conversion.
func (s *FScene) Coord() M {
	var m M
	m[15] = 1
	for r := 0; r < 3; r++ {
		m[s.Axis[r]*4+r] = float64(s.Sign[r])
	}
	return m
}

func d2r(v *P3) P3 {
	if v == nil {
		return P3{}
	}
	return v.Scale(math.Pi / 180)
}

// Local is a model's own transformation.
func (s *FScene) Local(i int) M {
	m := s.Models[i]
	tr := P3{}
	if m.T != nil {
		tr = *m.T
	}
	sc := P3{1, 1, 1}
	if s.TmplScl != nil {
		sc = *s.TmplScl
	}
	if m.S != nil {
		sc = *m.S
	}
	e := func(v P3) M { return RotZ(v[2]).Mul(RotY(v[1])).Mul(RotX(v[0])) }
	return TransM(tr).Mul(e(d2r(m.Pre))).Mul(e(d2r(m.R))).Mul(ScaleM(sc))
}

// World is a model's transformation in the file's axes.
func (s *FScene) World(i int) M {
	m := s.Local(i)
	for p := s.Models[i].Parent; p >= 0; p = s.Models[p].Parent {
		m = s.Local(p).Mul(m)
	}
	return m
}

type FSceneOpts struct {
	Skin, Shapes bool
	Name         func(*T, string) string
}

// FBXScene draws a scene.
func FBXScene(t *T, o FSceneOpts) *FScene {
	if o.Name == nil {
		o.Name = Ident
	}
	s := &FScene{}
	ax := rapid.SampledFrom(axisSystems).Draw(t, "axes")
	s.Axis, s.Sign = ax[0], ax[1]
	if Chance(t, "tmplScl", 4) {
		s.TmplScl = &P3{2, 2, 2}
	}
	if Chance(t, "tmplDif", 4) {
		v := 0.25
		s.TmplDif = &v
	}
	nmat := Int(t, "mats", 0, 3)
	mnames := UniqueNames(t, "mat", nmat, o.Name)
	for i := 0; i < nmat; i++ {
		m := &FMat{ID: int64(1000 + i), Name: mnames[i]}
		m.Diffuse = optV(t, "dif", col(t, "dif"))
		m.SpecC = optV(t, "spec", col(t, "spec"))
		m.EmiC = optV(t, "emi", col(t, "emi"))
		m.AmbC = optV(t, "amb", col(t, "amb"))
		m.DifF, m.SpecF, m.EmiF, m.AmbF, m.Opacity = optF(t, "difF"), optF(t, "specF"), optF(t, "emiF"), optF(t, "ambF"), optF(t, "opa")
		if Bool(t, "pow?") {
			v := float64(Int(t, "pow", 1, 50))
			m.Power = &v
		}
		if Chance(t, "tex", 2) {
			m.Tex = rapid.SampledFrom([]string{"a.png", "tex\\b.tga", "tex/髪.png", "c d.jpg"}).Draw(t, "texn")
		}
		s.Mats = append(s.Mats, m)
	}
	nm := Int(t, "models", 1, 5)
	smallIDs := Chance(t, "smallids", 3)
	names := UniqueNames(t, "model", nm, o.Name)
	for i := 0; i < nm; i++ {
		m := &FModel{ID: int64(100 + i), Name: names[i], Parent: -1, Geo: -1}
		if i > 0 && Bool(t, "child") {
			m.Parent = Int(t, "parent", 0, i-1)
		}
		if smallIDs {
			m.ID = int64(1 + i)
		} else if Chance(t, "bigid", 5) {
			m.ID = 1<<40 + int64(i)
		}
		m.Kind = rapid.SampledFrom([]string{"Mesh", "Mesh", "Null"}).Draw(t, "kind")
		m.T = optV(t, "T", func() P3 { return Pt(t, "T", 100) })
		m.R = optV(t, "R", func() P3 {
			return P3{float64(Int(t, "rx", -180, 180)), float64(Int(t, "ry", -180, 180)), float64(Int(t, "rz", -180, 180))}
		})
		m.S = optV(t, "S", func() P3 { return P3{Pos(t, "sx"), Pos(t, "sy"), Pos(t, "sz")} })
		if Chance(t, "pre", 3) {
			m.Pre = &P3{float64(Int(t, "px", -180, 180)), float64(Int(t, "py", -180, 180)), float64(Int(t, "pz", -180, 180))}
		}
		s.Models = append(s.Models, m)
		if m.Kind == "Mesh" && Int(t, "geo?", 0, 4) > 0 {
			m.Geo = len(s.Geos)
			s.Geos = append(s.Geos, s.geo(t, o, m))
		}
	}
	// bones
	if o.Skin && len(s.Geos) > 0 && Bool(t, "skin") {
		nb := Int(t, "bones", 1, 4)
		first := len(s.Models)
		for i := 0; i < nb; i++ {
			m := &FModel{ID: int64(500 + i), Name: fmt.Sprintf("bone%d", i), Kind: "LimbNode", Parent: -1, Geo: -1}
			if i > 0 && Int(t, "bchild", 0, 3) > 0 {
				m.Parent = Int(t, "bparent", first, first+i-1)
			}
			m.T = optV(t, "bT", func() P3 { return Pt(t, "bT", 10) })
			m.R = optV(t, "bR", func() P3 { return P3{float64(Int(t, "brx", -90, 90)), 0, float64(Int(t, "brz", -90, 90))} })
			s.Models = append(s.Models, m)
		}
		links := map[int]M{}
		for _, g := range s.Geos {
			if !Bool(t, "skinned") {
				continue
			}
			used := map[int]bool{}
			for k := Int(t, "clusters", 1, 3); k > 0; k-- {
				b := Int(t, "cb", first, first+nb-1)
				if used[b] {
					continue
				}
				used[b] = true
				c := FCluster{Model: b, Link: s.World(b)}
				if _, ok := links[b]; !ok {
					links[b] = c.Link
					if Chance(t, "bindpose", 3) { // posed otherwise when it was bound
						links[b] = TransM(Pt(t, "bind", 20)).Mul(c.Link)
					}
				}
				c.Link = links[b]
				for v := range g.Verts {
					if Bool(t, "w?") {
						c.Idx = append(c.Idx, v)
						c.W = append(c.W, float64(Int(t, "w", 1, 100))/100)
					}
				}
				if len(c.Idx) == 1 { // order in the file is free
				} else if len(c.Idx) > 1 && Bool(t, "rev") {
					for i, j := 0, len(c.Idx)-1; i < j; i, j = i+1, j-1 {
						c.Idx[i], c.Idx[j] = c.Idx[j], c.Idx[i]
						c.W[i], c.W[j] = c.W[j], c.W[i]
					}
				}
				g.Skin = append(g.Skin, c)
			}
		}
	}
	return s
}

func (s *FScene) geo(t *T, o FSceneOpts, m *FModel) *FGeo {
	g := &FGeo{ID: int64(300 + len(s.Geos)), Name: m.Name + "geo"}
	nv := Int(t, "nv", 3, 8)
	for i := 0; i < nv; i++ {
		g.Verts = append(g.Verts, Pt(t, "v", 50))
	}
	for k := Int(t, "np", 1, 4); k > 0; k-- {
		n := Int(t, "pn", 3, min(nv, 5))
		if Chance(t, "line", 12) {
			n = 2
		}
		perm := rapid.Permutation(Iota(nv)).Draw(t, "perm")
		g.Polys = append(g.Polys, perm[:n])
	}
	unit := func(n string) P3 { v := UnitV3(t, n); return V(&v) }
	switch Int(t, "nrm", 0, 2) {
	case 1:
		g.NrmMap = "ByPolygonVertex"
		for _, p := range g.Polys {
			var r []P3
			for range p {
				r = append(r, unit("n"))
			}
			g.Normals = append(g.Normals, r)
		}
	case 2:
		g.NrmMap = rapid.SampledFrom([]string{"ByControlPoint", "ByVertice"}).Draw(t, "nmap")
		for range g.Verts {
			g.VNrm = append(g.VNrm, unit("n"))
		}
		for _, p := range g.Polys {
			var r []P3
			for _, v := range p {
				r = append(r, g.VNrm[v])
			}
			g.Normals = append(g.Normals, r)
		}
	}
	g.NrmRef = rapid.SampledFrom([]string{"Direct", "IndexToDirect"}).Draw(t, "nref")
	if Bool(t, "uv") {
		g.UVRef = rapid.SampledFrom([]string{"Direct", "IndexToDirect"}).Draw(t, "uvref")
		for _, p := range g.Polys {
			var r [][2]float64
			for range p {
				r = append(r, [2]float64{float64(F(t, "u", 2)), float64(F(t, "v", 2))})
			}
			g.UVs = append(g.UVs, r)
		}
	}
	if len(s.Mats) > 0 {
		n := Int(t, "nmats", 0, len(s.Mats))
		perm := rapid.Permutation(Iota(len(s.Mats))).Draw(t, "matperm")
		m.Mats = perm[:n]
		if n > 0 {
			switch Int(t, "matmap", 0, 2) {
			case 0:
				g.MatMap, g.MatIdx = "AllSame", []int{Int(t, "mi", 0, n-1)}
			case 1:
				g.MatMap = "ByPolygon"
				for range g.Polys {
					g.MatIdx = append(g.MatIdx, Int(t, "mi", 0, n-1))
					if Chance(t, "nomat", 8) {
						g.MatIdx[len(g.MatIdx)-1] = -1
					}
				}
			}
		}
	}
	if o.Shapes {
		mk := func(name string) FShape {
			sh := FShape{Name: name}
			for i := range g.Verts {
				if Bool(t, "sh?") {
					sh.Idx = append(sh.Idx, i)
					sh.Off = append(sh.Off, Pt(t, "off", 5))
				}
			}
			return sh
		}
		for k, nk := 0, Int(t, "shapes", 0, 2); k < nk; k++ {
			g.Shapes = append(g.Shapes, mk(fmt.Sprintf("%s_shape%d", m.Name, k)))
		}
		if Chance(t, "inline", 4) {
			g.Inline = append(g.Inline, mk(m.Name+"_inline"))
		}
	}
	return g
}

// MatOf tells the material (index into Mats) of a polygon, -1 for none.
func (s *FScene) MatOf(m *FModel, poly int) int {
	g := s.Geos[m.Geo]
	k := 0
	switch g.MatMap {
	case "AllSame":
		k = g.MatIdx[0]
	case "ByPolygon":
		k = g.MatIdx[poly]
	}
	if k >= 0 && k < len(m.Mats) {
		return m.Mats[k]
	}
	return -1
}

func p70(name, typ, label, flag string, v ...interface{}) *FN {
	return N("P", append([]interface{}{name, typ, label, flag}, v...)...)
}

func vals(p P3) []interface{} { return []interface{}{p[0], p[1], p[2]} }

func flat(ps []P3) []float64 {
	r := []float64{}
	for _, p := range ps {
		r = append(r, p[:]...)
	}
	return r
}
func i32(a []int) []int32 {
	r := []int32{}
	for _, x := range a {
		r = append(r, int32(x))
	}
	return r
}

// Tree renders the scene as the node list of a version 7 file. Float arrays are
// 64 or 32 bit as asked; extra adds content readers have to pass over.
func (s *FScene) Tree(t *T) []*FN {
	f32 := Bool(t, "f32")
	extra := Bool(t, "extra")
	fa := func(v []float64) interface{} {
		if f32 {
			r := make([]float32, len(v))
			for i := range v {
				r[i] = float32(v[i])
			}
			return r
		}
		return v
	}
	gs := N("Properties70")
	put := func(n string, v int) { gs.With(p70(n, "int", "Integer", "", int32(v))) }
	put("UpAxis", s.Axis[1])
	put("UpAxisSign", s.Sign[1])
	put("FrontAxis", s.Axis[2])
	put("FrontAxisSign", s.Sign[2])
	put("CoordAxis", s.Axis[0])
	put("CoordAxisSign", s.Sign[0])
	unit := 1.0
	if s.Unit != nil {
		unit = *s.Unit
	}
	gs.With(p70("UnitScaleFactor", "double", "Number", "", unit))
	if extra {
		gs.With(p70("DefaultCamera", "KString", "", "", "Producer Perspective"), p70("TimeMode", "enum", "", "", int32(11)))
	}
	defs := N("Definitions").With(N("Version", int32(100)), N("Count", int32(4)))
	ot := func(n string, props ...*FN) {
		x := N("ObjectType", n).With(N("Count", int32(1)))
		if len(props) > 0 {
			x.With(N("PropertyTemplate", "Fbx"+n).With(N("Properties70").With(props...)))
		}
		defs.With(x)
	}
	ot("GlobalSettings")
	if s.TmplScl != nil {
		ot("Model", p70("Lcl Scaling", "Lcl Scaling", "", "A", vals(*s.TmplScl)...), p70("QuaternionInterpolate", "enum", "", "", int32(0)))
	} else {
		ot("Model")
	}
	if s.TmplDif != nil {
		ot("Material", p70("DiffuseFactor", "Number", "", "A", *s.TmplDif))
	} else {
		ot("Material")
	}
	objs, conns := N("Objects"), N("Connections")
	oo := func(child, parent int64) { conns.With(N("C", "OO", child, parent)) }
	op := func(child, parent int64, prop string) { conns.With(N("C", "OP", child, parent, prop)) }
	next := int64(5000)
	id := func() int64 { next++; return next }
	for _, g := range s.Geos {
		var idx []int32
		for _, p := range g.Polys {
			for i, v := range p {
				if i == len(p)-1 {
					v = ^v
				}
				idx = append(idx, int32(v))
			}
		}
		n := N("Geometry", g.ID, g.Name+"\x00\x01Geometry", "Mesh")
		if extra {
			n.With(N("Properties70"), N("GeometryVersion", int32(124)))
		}
		n.With(N("Vertices", fa(flat(g.Verts))), N("PolygonVertexIndex", idx))
		if extra {
			n.With(N("Edges", []int32{0, 1, 2}))
		}
		if g.Normals != nil {
			l := N("LayerElementNormal", int32(0)).With(N("Version", int32(101)), N("Name", ""), N("MappingInformationType", g.NrmMap), N("ReferenceInformationType", g.NrmRef))
			var list []P3
			if g.VNrm != nil {
				list = g.VNrm
			} else {
				for _, r := range g.Normals {
					list = append(list, r...)
				}
			}
			if g.NrmRef == "Direct" {
				l.With(N("Normals", fa(flat(list))))
			} else {
				arr, ix := dedupReverse(list)
				l.With(N("Normals", fa(flat(arr))), N("NormalsIndex", i32(ix)))
			}
			n.With(l)
		}
		if g.UVs != nil {
			l := N("LayerElementUV", int32(0)).With(N("Version", int32(101)), N("Name", "map1"), N("MappingInformationType", "ByPolygonVertex"), N("ReferenceInformationType", g.UVRef))
			var list []P3
			for _, r := range g.UVs {
				for _, uv := range r {
					list = append(list, P3{uv[0], uv[1]})
				}
			}
			fl := func(ps []P3) []float64 {
				r := []float64{}
				for _, p := range ps {
					r = append(r, p[0], p[1])
				}
				return r
			}
			if g.UVRef == "Direct" {
				l.With(N("UV", fa(fl(list))))
			} else {
				arr, ix := dedupReverse(list)
				l.With(N("UV", fa(fl(arr))), N("UVIndex", i32(ix)))
			}
			n.With(l)
		}
		if g.MatMap != "" {
			n.With(N("LayerElementMaterial", int32(0)).With(N("MappingInformationType", g.MatMap), N("ReferenceInformationType", "IndexToDirect"), N("Materials", i32(g.MatIdx))))
		}
		for _, sh := range g.Inline {
			n.With(N("Shape", sh.Name).With(N("Indexes", i32(sh.Idx)), N("Vertices", fa(flat(sh.Off)))))
		}
		objs.With(n)
		if len(g.Skin) > 0 {
			skin := id()
			objs.With(N("Deformer", skin, "\x00\x01Deformer", "Skin"))
			oo(skin, g.ID)
			for _, c := range g.Skin {
				cl := id()
				objs.With(N("Deformer", cl, "\x00\x01SubDeformer", "Cluster").With(
					N("Indexes", i32(c.Idx)), N("Weights", fa(c.W)), N("Transform", c.Link.Inv().slice()), N("TransformLink", c.Link.slice())))
				oo(cl, skin)
				oo(s.Models[c.Model].ID, cl)
			}
		}
		if len(g.Shapes) > 0 {
			bs := id()
			objs.With(N("Deformer", bs, "\x00\x01Deformer", "BlendShape"))
			oo(bs, g.ID)
			for _, sh := range g.Shapes {
				ch, gg := id(), id()
				objs.With(N("Deformer", ch, sh.Name+"\x00\x01SubDeformer", "BlendShapeChannel").With(N("DeformPercent", 0.0), N("FullWeights", []float64{100})))
				objs.With(N("Geometry", gg, sh.Name+"\x00\x01Geometry", "Shape").With(N("Indexes", i32(sh.Idx)), N("Vertices", fa(flat(sh.Off)))))
				oo(ch, bs)
				oo(gg, ch)
			}
		}
	}
	for _, m := range s.Models {
		pr := N("Properties70")
		if extra {
			pr.With(p70("InheritType", "enum", "", "", int32(1)), p70("DefaultAttributeIndex", "int", "Integer", "", int32(0)))
		}
		set := func(name string, v *P3) {
			if v != nil {
				pr.With(p70(name, name, "", "A", vals(*v)...))
			}
		}
		set("PreRotation", m.Pre)
		set("Lcl Translation", m.T)
		set("Lcl Rotation", m.R)
		set("Lcl Scaling", m.S)
		n := N("Model", m.ID, m.Name+"\x00\x01Model", m.Kind).With(N("Version", int32(232)))
		if len(pr.Kids) > 0 || Bool(t, "noprops") {
			n.With(pr)
		}
		if extra {
			n.With(N("Shading", byte('T')), N("Culling", "CullingOff"))
		}
		objs.With(n)
	}
	for _, m := range s.Mats {
		pr := N("Properties70")
		c := func(name string, v *P3) {
			if v != nil {
				pr.With(p70(name, "Color", "", "A", vals(*v)...))
			}
		}
		f := func(name string, v *float64) {
			if v != nil {
				pr.With(p70(name, "Number", "", "A", *v))
			}
		}
		c("DiffuseColor", m.Diffuse)
		c("SpecularColor", m.SpecC)
		c("EmissiveColor", m.EmiC)
		c("AmbientColor", m.AmbC)
		f("DiffuseFactor", m.DifF)
		f("SpecularFactor", m.SpecF)
		f("EmissiveFactor", m.EmiF)
		f("AmbientFactor", m.AmbF)
		f("Opacity", m.Opacity)
		f("ShininessExponent", m.Power)
		objs.With(N("Material", m.ID, m.Name+"\x00\x01Material", "").With(N("Version", int32(102)), N("ShadingModel", "phong"), pr))
		if m.Tex != "" {
			tx := id()
			objs.With(N("Texture", tx, "tx\x00\x01Texture", "").With(N("Type", "TextureVideoClip"), N("FileName", "C:\\abs\\"+m.Tex), N("RelativeFilename", m.Tex)))
			op(tx, m.ID, "DiffuseColor")
		}
	}
	for _, m := range s.Models {
		p := int64(0)
		if m.Parent >= 0 {
			p = s.Models[m.Parent].ID
		}
		oo(m.ID, p)
		if m.Geo >= 0 {
			oo(s.Geos[m.Geo].ID, m.ID)
		}
		for _, k := range m.Mats {
			oo(s.Mats[k].ID, m.ID)
		}
	}
	if extra {
		conns.With(N("C", "OO", int64(999999), int64(0)))
		objs.With(N("AnimationStack", int64(900), "Take 001\x00\x01AnimStack", "").With(N("Properties70").With(p70("LocalStop", "KTime", "Time", "", int64(46186158000)))))
	}
	root := []*FN{
		N("FBXHeaderExtension").With(N("FBXHeaderVersion", int32(1003)), N("FBXVersion", int32(7400)), N("Creator", "gen")),
	}
	if extra {
		root = append(root, N("FileId", []byte{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16}), N("CreationTime", "2020-01-01 00:00:00:000"), N("Creator", "gen x"))
	}
	root = append(root, N("GlobalSettings").With(N("Version", int32(1000)), gs), defs, objs, conns)
	if extra {
		root = append(root, N("Takes").With(N("Current", "")))
	}
	return root
}

func (a M) slice() []float64 { return append([]float64{}, a[:]...) }

// dedupReverse makes an indexed list whose values are unique and stored in
// reverse order of first use.
func dedupReverse(list []P3) ([]P3, []int) {
	seen := map[P3]int{}
	var u []P3
	for _, p := range list {
		if _, ok := seen[p]; !ok {
			seen[p] = len(u)
			u = append(u, p)
		}
	}
	out := make([]P3, len(u))
	for i, p := range u {
		out[len(u)-1-i] = p
	}
	var idx []int
	for _, p := range list {
		idx = append(idx, len(u)-1-seen[p])
	}
	return out, idx
}
