package gen

import (
	"fmt"
	"math"
	"strconv"
	"strings"

	"pgregory.net/rapid"
)

// BuiltinGUID is the asset of Unity's builtin meshes.
const BuiltinGUID = "0000000000000000e000000000000000"

// DefaultMatGUID is the asset of Unity's builtin materials.
const DefaultMatGUID = "0000000000000000f000000000000000"

// BuiltinMeshes are Unity's builtin meshes.
var BuiltinMeshes = []struct {
	Name string
	ID   int64
}{{"Cube", 10202}, {"Cylinder", 10206}, {"Sphere", 10207}, {"Capsule", 10208}, {"Plane", 10209}, {"Quad", 10210}}

// URef is a reference to an object of another file.
type URef struct {
	ID   int64
	GUID string
}

func (r URef) String() string {
	if r.GUID == "" {
		return fmt.Sprintf("{fileID: %d}", r.ID)
	}
	typ := 3
	if r.GUID == BuiltinGUID || r.GUID == DefaultMatGUID {
		typ = 0
	} else if r.ID == 2100000 {
		typ = 2
	}
	return fmt.Sprintf("{fileID: %d, guid: %s, type: %d}", r.ID, r.GUID, typ)
}

// UTRS is a local transformation in Unity's left handed axes.
type UTRS struct {
	Pos, Scl [3]float32
	Rot      [4]float32
}

// Mat is the transformation in right handed axes (Z turned around).
func (t UTRS) Mat() M {
	p, s := t.Pos, t.Scl
	return TransM(P3{float64(p[0]), float64(p[1]), -float64(p[2])}).
		Mul(QuatM(-float64(t.Rot[0]), -float64(t.Rot[1]), float64(t.Rot[2]), float64(t.Rot[3]))).
		Mul(ScaleM(P3{float64(s[0]), float64(s[1]), float64(s[2])}))
}

// ULight is a light component.
type ULight struct {
	Type                         int
	Color                        [4]float32
	Intensity, Range, Out, Inner float32
}

// UCol is a collider component.
type UCol struct {
	Kind   string // Box, Sphere, Capsule, Mesh
	Center [3]float32
	Size   [3]float32
	Radius float32
	Height float32
	Dir    int
	Mesh   URef
}

// UBody is a rigid body component.
type UBody struct {
	Mass, Drag, Angular float32
	Kinematic           bool
}

// UObj holds what a game object is.
type UObj struct {
	Name     string
	Active   bool
	TRS      UTRS
	Mesh     *URef
	Renderer bool
	Enabled  bool
	Mats     []URef
	Light    *ULight
	Cols     []UCol
	Body     *UBody
}

// UNode is a game object of a file, or an instance of a prefab in it.
type UNode struct {
	UObj
	Kids []*UNode
	Inst *UInst

	go_, tr, filter, render, light, body int64
	cols                                 []int64
	extra                                int // a component that is not converted
	xid                                  int64
	strip                                int64 // stripped transform of an instance's root
}

// UInst is an instance of a prefab.
type UInst struct {
	Src   *UFile
	id    int64
	Mods  []UMod
	Added []UAdded
	Strip bool
}

// UAdded is an object added below an object of a prefab instance.
type UAdded struct {
	To    *UNode // object of the prefab's file
	Node  *UNode
	strip int64
}

// UMod is a value changed in a prefab instance.
type UMod struct {
	Target int64
	To     *UNode
	Path   string
	Value  string
	Ref    URef
	Apply  func(o *UObj)
}

// UFile is a scene or prefab.
type UFile struct {
	GUID, Path string
	Roots      []*UNode
	used       map[int64]bool
}

// EObj is a game object after the prefabs are expanded.
type EObj struct {
	UObj
	Kids   []*EObj
	Listed []bool // the child's place is given by its parent's list of children
}

func (e *EObj) add(k *EObj, listed bool) {
	e.Kids, e.Listed = append(e.Kids, k), append(e.Listed, listed)
}

// Expand gives the objects of a file, and the object of each of its nodes.
func (f *UFile) Expand() ([]*EObj, map[*UNode]*EObj) {
	m := map[*UNode]*EObj{}
	var node func(n *UNode) *EObj
	node = func(n *UNode) *EObj {
		if n.Inst == nil {
			e := &EObj{UObj: n.UObj}
			m[n] = e
			e.Mats = append([]URef{}, n.Mats...)
			e.Cols = append([]UCol{}, n.Cols...)
			if n.Light != nil {
				l := *n.Light
				e.Light = &l
			}
			if n.Body != nil {
				b := *n.Body
				e.Body = &b
			}
			for _, k := range n.Kids {
				// without a stripped transform its place cannot be told
				e.add(node(k), k.Inst == nil || k.Inst.Src.resolvable())
			}
			return e
		}
		roots, sub := n.Inst.Src.Expand()
		for _, mod := range n.Inst.Mods {
			if e := sub[mod.To]; e != nil {
				mod.Apply(&e.UObj)
			}
		}
		for _, a := range n.Inst.Added {
			sub[a.To].add(node(a.Node), false)
		}
		m[n] = roots[0]
		return roots[0]
	}
	var out []*EObj
	for _, r := range f.Roots {
		out = append(out, node(r))
	}
	return out, m
}

func (f *UFile) newID(t *T) int64 {
	if f.used == nil {
		f.used = map[int64]bool{1: true, 2: true, 3: true, 4: true}
	}
	var id int64
	switch Int(t, "id.kind", 0, 2) {
	case 0:
		id = int64(Int(t, "id", 1, 1<<30))
	case 1:
		id = rapid.Int64Range(1<<40, math.MaxInt64-1000).Draw(t, "id")
	default:
		id = int64(len(f.used) + 10)
	}
	for f.used[id] {
		id++
	}
	f.used[id] = true
	return id
}

func f32(v float32) string {
	s := strconv.FormatFloat(float64(v), 'g', -1, 32)
	if s == "-0" {
		return "0"
	}
	return s
}

func xyz(v [3]float32) string {
	return fmt.Sprintf("{x: %s, y: %s, z: %s}", f32(v[0]), f32(v[1]), f32(v[2]))
}

// UWorld is a set of files with the assets they use.
type UWorld struct {
	Files  []*UFile // the scene is last
	Assets []*UAsset
	Mats   []*UMat
	FBX    []*UFBX
}

// UMat is a material asset.
type UMat struct {
	GUID, Name      string
	Color, Emission *[4]float32
	Tex, Bump       string // GUID
	TexPath         string
	BumpPath        string
	Scale, Offset   [2]float32
}

// UFBX is a model asset.
type UFBX struct {
	GUID  string
	Scene *FScene
	Unit  *float64
	Mesh  map[int64]int // file id to model
}

// UOpts selects what a scene may hold.
type UOpts struct {
	FBX, Lights, Physics, Textures, Shear bool
	Prefabs                               int
}

type uGen struct {
	t *T
	o UOpts
	w *UWorld
	n int
}

func (g *uGen) name() string {
	g.n++
	switch Int(g.t, "name.kind", 0, 3) {
	case 0: // looks like a number
		return fmt.Sprintf("%d%03d", Int(g.t, "num", 0, 9), g.n)
	case 1:
		return fmt.Sprintf("%d.%d0", g.n, Int(g.t, "num", 1, 9))
	}
	return fmt.Sprintf("%s~%d", Name(g.t, "name"), g.n)
}

func (g *uGen) trs() UTRS {
	t := g.t
	q := QuatOf(RotM(t, "rot"))
	r := UTRS{Scl: [3]float32{1, 1, 1}}
	for i := range q {
		r.Rot[i] = float32(q[i])
	}
	p := V3(t, "pos", 20)
	r.Pos = [3]float32{p.X, p.Y, p.Z}
	switch Int(t, "scl.kind", 0, 3) {
	case 0:
		v := float32(Int(t, "scl", 1, 16)) / 4
		r.Scl = [3]float32{v, v, v}
	case 1:
		if g.o.Shear {
			for i := range r.Scl {
				r.Scl[i] = float32(Int(t, "scl", 1, 16)) / 4
				if Chance(t, "neg", 5) {
					r.Scl[i] = -r.Scl[i]
				}
			}
		}
	}
	return r
}

func (g *uGen) matRefs(n int) []URef {
	var out []URef
	for i := 0; i < n; i++ {
		k := Int(g.t, "mat", 0, len(g.w.Mats)+1)
		if k == len(g.w.Mats) {
			out = append(out, URef{10303, DefaultMatGUID})
		} else if k > len(g.w.Mats) {
			out = append(out, URef{}) // none
		} else {
			out = append(out, URef{2100000, g.w.Mats[k].GUID})
		}
	}
	return out
}

func (g *uGen) meshRef() (URef, int) {
	t := g.t
	if g.o.FBX && len(g.w.FBX) > 0 && Bool(t, "fbxMesh") {
		x := g.w.FBX[Int(t, "fbx", 0, len(g.w.FBX)-1)]
		var ids []int64
		for id := range x.Mesh {
			ids = append(ids, id)
		}
		if len(ids) > 0 {
			for i := range ids { // map order must not matter
				ids[i] = 4300000 + 2*int64(i)
			}
			id := ids[Int(t, "mesh", 0, len(ids)-1)]
			return URef{id, x.GUID}, x.Slots(id)
		}
	}
	b := BuiltinMeshes[Int(t, "builtin", 0, len(BuiltinMeshes)-1)]
	return URef{b.ID, BuiltinGUID}, Int(t, "nmats", 1, 2)
}

// FirstUse gives the renderer's material of each polygon: materials are listed
// in the order in which the polygons use them.
func (g *FGeo) FirstUse() []int {
	rank := map[int]int{}
	out := make([]int, len(g.Polys))
	for i, m := range g.MatIdx {
		if _, ok := rank[m]; !ok {
			rank[m] = len(rank)
		}
		out[i] = rank[m]
	}
	return out
}

// Slots is the number of materials a mesh uses.
func (x *UFBX) Slots(id int64) int {
	n := 1
	for _, k := range x.Scene.Geos[x.Scene.Models[x.Mesh[id]].Geo].MatIdx {
		if k+1 > n {
			n = k + 1
		}
	}
	return n
}

func (g *uGen) object(f *UFile) *UNode {
	t := g.t
	n := &UNode{go_: f.newID(t), tr: f.newID(t)}
	n.Name, n.Active, n.TRS = g.name(), Int(t, "active", 0, 5) > 0, g.trs()
	if n.extra = Int(t, "extra", 0, 12); n.extra < 7 {
		n.xid = f.newID(t)
	}
	if Int(t, "mesh?", 0, 3) > 0 {
		m, slots := g.meshRef()
		n.Mesh = &m
		n.filter = f.newID(t)
		n.Renderer = Int(t, "renderer?", 0, 7) > 0
		n.Enabled = Int(t, "enabled", 0, 5) > 0
		n.Mats = g.matRefs(slots)
		if m.GUID == BuiltinGUID && Chance(t, "no mats", 12) {
			n.Mats = nil
		}
		n.render = f.newID(t)
	}
	if g.o.Lights && Bool(t, "light?") {
		l := &ULight{Type: Int(t, "ltype", 0, 2), Intensity: U(t, "int") * 4, Range: U(t, "range")*20 + 0.5}
		col := Col4(t, "lcol")
		l.Color = [4]float32{col.X, col.Y, col.Z, col.W}
		l.Out = float32(Int(t, "spot", 1, 179))
		l.Inner = l.Out * U(t, "inner")
		n.Light, n.light = l, f.newID(t)
	}
	if g.o.Physics {
		for k := Int(t, "cols", 0, 4) - Int(t, "nocols", 0, 1); k > 0; k-- {
			n.Cols = append(n.Cols, g.collider())
			n.cols = append(n.cols, f.newID(t))
		}
		if Bool(t, "body?") {
			n.Body = &UBody{Mass: U(t, "mass") * 5, Drag: U(t, "drag"), Angular: U(t, "adrag"), Kinematic: Bool(t, "kin")}
			n.body = f.newID(t)
		}
	}
	return n
}

func (g *uGen) collider() UCol {
	t := g.t
	c := UCol{Kind: rapid.SampledFrom([]string{"Box", "Sphere", "Capsule", "Mesh"}).Draw(t, "col")}
	v := V3(t, "center", 5)
	c.Center = [3]float32{v.X, v.Y, v.Z}
	for i := range c.Size {
		c.Size[i] = float32(Int(t, "size", 1, 20)) / 4
	}
	c.Radius, c.Height, c.Dir = float32(Int(t, "radius", 1, 8))/4, float32(Int(t, "height", 16, 32))/4, Int(t, "dir", 0, 2)
	b := BuiltinMeshes[Int(t, "builtin", 0, len(BuiltinMeshes)-1)]
	c.Mesh = URef{b.ID, BuiltinGUID}
	return c
}

func (g *uGen) tree(f *UFile, depth, budget int, prefabs []*UFile) *UNode {
	t := g.t
	if len(prefabs) > 0 && Chance(t, "inst", 3) {
		return g.instance(f, prefabs, depth)
	}
	n := g.object(f)
	if depth > 0 {
		for k := Int(t, "kids", 0, budget); k > 0; k-- {
			n.Kids = append(n.Kids, g.tree(f, depth-1, budget, prefabs))
		}
	}
	return n
}

func (f *UFile) own() []*UNode {
	var out []*UNode
	var walk func(n *UNode)
	walk = func(n *UNode) {
		if n.Inst == nil {
			out = append(out, n)
			for _, k := range n.Kids {
				walk(k)
			}
		} else {
			for _, a := range n.Inst.Added {
				walk(a.Node)
			}
		}
	}
	for _, r := range f.Roots {
		walk(r)
	}
	return out
}

func (g *uGen) instance(f *UFile, prefabs []*UFile, depth int) *UNode {
	t := g.t
	src := prefabs[Int(t, "src", 0, len(prefabs)-1)]
	n := &UNode{Inst: &UInst{Src: src, id: f.newID(t), Strip: true}, strip: f.newID(t)}
	own := src.own()
	for k := Int(t, "mods", 0, 4); k > 0 && len(own) > 0; k-- {
		g.mod(n.Inst, own[Int(t, "modTo", 0, len(own)-1)])
	}
	if depth > 0 {
		tos := append([]*UNode{}, own...)
		if r := src.Roots[0]; r.Inst != nil && src.resolvable() {
			tos = append(tos, r)
		}
		for k := Int(t, "added", 0, 2); k > 0 && len(tos) > 0; k-- {
			to := tos[Int(t, "addTo", 0, len(tos)-1)]
			n.Inst.Added = append(n.Inst.Added, UAdded{To: to, Node: g.tree(f, depth-1, 1, prefabs), strip: f.newID(t)})
		}
	}
	return n
}

func (g *uGen) mod(in *UInst, to *UNode) {
	t := g.t
	add := func(target int64, path, value string, ref URef, f func(o *UObj)) {
		in.Mods = append(in.Mods, UMod{Target: target, To: to, Path: path, Value: value, Ref: ref, Apply: f})
	}
	b01 := func(b bool) string {
		if b {
			return "1"
		}
		return "0"
	}
	switch Int(t, "mod", 0, 11) {
	case 0:
		s := g.name()
		add(to.go_, "m_Name", YAMLString(s), URef{}, func(o *UObj) { o.Name = s })
	case 1:
		b := Bool(t, "modActive")
		add(to.go_, "m_IsActive", b01(b), URef{}, func(o *UObj) { o.Active = b })
	case 2, 3:
		k, v := Int(t, "axis", 0, 2), F(t, "modPos", 20)
		add(to.tr, "m_LocalPosition."+"xyz"[k:k+1], f32(v), URef{}, func(o *UObj) { o.TRS.Pos[k] = v })
	case 4:
		v := float32(Int(t, "modScl", 1, 12)) / 4
		for k := 0; k < 3; k++ {
			k := k
			add(to.tr, "m_LocalScale."+"xyz"[k:k+1], f32(v), URef{}, func(o *UObj) { o.TRS.Scl[k] = v })
		}
	case 5:
		q := QuatOf(RotM(t, "modRot"))
		for k := 0; k < 4; k++ {
			k, v := k, float32(q[k])
			add(to.tr, "m_LocalRotation."+"xyzw"[k:k+1], f32(v), URef{}, func(o *UObj) { o.TRS.Rot[k] = v })
		}
	case 6:
		add(to.tr, "m_RootOrder", strconv.Itoa(Int(t, "order", 0, 9)), URef{}, func(*UObj) {})
		add(to.tr, "m_LocalEulerAnglesHint.x", "12.5", URef{}, func(*UObj) {})
	case 7:
		if to.Mesh != nil && to.Renderer {
			b := Bool(t, "modEnabled")
			add(to.render, "m_Enabled", b01(b), URef{}, func(o *UObj) { o.Enabled = b })
		}
	case 8:
		if to.Mesh != nil && to.Renderer && len(to.Mats) > 0 {
			k := Int(t, "slot", 0, len(to.Mats)-1)
			r := g.matRefs(1)[0]
			add(to.render, fmt.Sprintf("m_Materials.Array.data[%d]", k), "", r, func(o *UObj) { o.Mats[k] = r })
		}
	case 9:
		if to.Light != nil {
			v := U(t, "modInt") * 3
			add(to.light, "m_Intensity", f32(v), URef{}, func(o *UObj) { o.Light.Intensity = v })
			k, w := Int(t, "modChannel", 0, 3), U(t, "modR")
			add(to.light, "m_Color."+"rgba"[k:k+1], f32(w), URef{}, func(o *UObj) { o.Light.Color[k] = w })
			if Bool(t, "modKind") {
				lt, rg, sp := Int(t, "modType", 0, 2), U(t, "modRange")*9+1, float32(Int(t, "modSpot", 1, 179))
				add(to.light, "m_Type", strconv.Itoa(lt), URef{}, func(o *UObj) { o.Light.Type = lt })
				add(to.light, "m_Range", f32(rg), URef{}, func(o *UObj) { o.Light.Range = rg })
				add(to.light, "m_SpotAngle", f32(sp), URef{}, func(o *UObj) { o.Light.Out = sp })
				add(to.light, "m_InnerSpotAngle", f32(sp/2), URef{}, func(o *UObj) { o.Light.Inner = sp / 2 })
			}
		} else if to.Mesh != nil {
			b := BuiltinMeshes[Int(t, "modMesh", 0, len(BuiltinMeshes)-1)]
			r := URef{b.ID, BuiltinGUID}
			add(to.filter, "m_Mesh", "", r, func(o *UObj) { o.Mesh = &r })
		}
	case 10:
		if to.Body != nil {
			v, b := U(t, "modMass")*7, Bool(t, "modKinematic")
			add(to.body, "m_Mass", f32(v), URef{}, func(o *UObj) { o.Body.Mass = v })
			add(to.body, "m_Drag", f32(v/8), URef{}, func(o *UObj) { o.Body.Drag = v / 8 })
			add(to.body, "m_IsKinematic", b01(b), URef{}, func(o *UObj) { o.Body.Kinematic = b })
		}
	case 11:
		if len(to.Cols) > 0 {
			i, k := Int(t, "modCol", 0, len(to.Cols)-1), Int(t, "modColAxis", 0, 2)
			id, v, d := to.cols[i], float32(Int(t, "modColSize", 1, 8))/4, Int(t, "modDir", 0, 2)
			if to.Cols[i].Kind != "Mesh" {
				add(id, "m_Center."+"xyz"[k:k+1], f32(-v), URef{}, func(o *UObj) { o.Cols[i].Center[k] = -v })
			}
			switch to.Cols[i].Kind {
			case "Box":
				add(id, "m_Size."+"xyz"[k:k+1], f32(v), URef{}, func(o *UObj) { o.Cols[i].Size[k] = v })
			case "Sphere":
				add(id, "m_Radius", f32(v), URef{}, func(o *UObj) { o.Cols[i].Radius = v })
			case "Capsule":
				add(id, "m_Radius", f32(v), URef{}, func(o *UObj) { o.Cols[i].Radius = v })
				add(id, "m_Direction", strconv.Itoa(d), URef{}, func(o *UObj) { o.Cols[i].Dir = d })
			}
		}
	}
}

func (f *UFile) resolvable() bool {
	r := f.Roots[0]
	return r.Inst == nil || r.Inst.Strip && r.Inst.Src.resolvable()
}

// rootTr is the identifier of a prefab's root transform.
func (f *UFile) rootTr() int64 {
	r := f.Roots[0]
	if r.Inst == nil {
		return r.tr
	}
	if r.Inst.Strip {
		return r.strip
	}
	return (r.Inst.id ^ r.Inst.Src.rootTr()) & math.MaxInt64
}

func trOf(n *UNode) int64 {
	if n.Inst != nil {
		return n.strip
	}
	return n.tr
}

// Docs writes the documents of a file.
func (f *UFile) Docs() []string {
	var docs []string
	doc := func(class int, id int64, stripped bool, body string) {
		s := fmt.Sprintf("--- !u!%d &%d", class, id)
		if stripped {
			s += " stripped"
		}
		docs = append(docs, s+"\n"+body)
	}
	none := "  m_CorrespondingSourceObject: {fileID: 0}\n  m_PrefabInstance: {fileID: 0}\n  m_PrefabAsset: {fileID: 0}\n"
	b01 := map[bool]int{true: 1}
	var node func(n *UNode, father int64)
	node = func(n *UNode, father int64) {
		if in := n.Inst; in != nil {
			var sb strings.Builder
			fmt.Fprintf(&sb, "PrefabInstance:\n  m_ObjectHideFlags: 0\n  serializedVersion: 2\n  m_Modification:\n    m_TransformParent: {fileID: %d}\n", father)
			if len(in.Mods) == 0 {
				sb.WriteString("    m_Modifications: []\n")
			} else {
				sb.WriteString("    m_Modifications:\n")
			}
			for _, m := range in.Mods {
				v := m.Value
				if v != "" {
					v = " " + v
				}
				fmt.Fprintf(&sb, "    - target: %s\n      propertyPath: %s\n      value:%s\n      objectReference: %s\n", URef{m.Target, in.Src.GUID}, YAMLPath(m.Path), v, m.Ref)
			}
			sb.WriteString("    m_RemovedComponents: []\n")
			fmt.Fprintf(&sb, "  m_SourcePrefab: %s\n", URef{100100000, in.Src.GUID})
			doc(1001, in.id, false, sb.String())
			strip := func(id, src int64) {
				doc(4, id, true, fmt.Sprintf("Transform:\n  m_CorrespondingSourceObject: %s\n  m_PrefabInstance: {fileID: %d}\n  m_PrefabAsset: {fileID: 0}\n", URef{src, in.Src.GUID}, in.id))
			}
			if in.Strip {
				strip(n.strip, in.Src.rootTr())
			}
			ids := map[*UNode]int64{}
			if in.Strip {
				ids[in.Src.Roots[0]] = n.strip
			}
			for _, a := range in.Added {
				if ids[a.To] == 0 {
					ids[a.To] = a.strip
					src := a.To.tr
					if a.To.Inst != nil {
						src = in.Src.rootTr()
					}
					strip(a.strip, src)
				}
				node(a.Node, ids[a.To])
			}
			return
		}
		comps := []int64{n.tr}
		base := func() string {
			return "  m_ObjectHideFlags: 0\n" + none + fmt.Sprintf("  m_GameObject: {fileID: %d}\n", n.go_)
		}
		if n.Mesh != nil {
			comps = append(comps, n.filter)
			doc(33, n.filter, false, "MeshFilter:\n"+base()+fmt.Sprintf("  m_Mesh: %s\n", *n.Mesh))
			if n.Renderer {
				comps = append(comps, n.render)
				s := "MeshRenderer:\n" + base() + fmt.Sprintf("  m_Enabled: %d\n  m_CastShadows: 1\n  m_Materials:\n", b01[n.Enabled])
				for _, m := range n.Mats {
					s += fmt.Sprintf("  - %s\n", m)
				}
				if len(n.Mats) == 0 {
					s = strings.TrimSuffix(s, "\n") + " []\n"
				}
				doc(23, n.render, false, s+"  m_StaticBatchInfo:\n    firstSubMesh: 0\n    subMeshCount: 0\n")
			}
		}
		if l := n.Light; l != nil {
			comps = append(comps, n.light)
			doc(108, n.light, false, "Light:\n"+base()+fmt.Sprintf("  m_Enabled: 1\n  serializedVersion: 10\n  m_Type: %d\n  m_Shape: 0\n  m_Color: {r: %s, g: %s, b: %s, a: %s}\n  m_Intensity: %s\n  m_Range: %s\n  m_SpotAngle: %s\n  m_InnerSpotAngle: %s\n",
				l.Type, f32(l.Color[0]), f32(l.Color[1]), f32(l.Color[2]), f32(l.Color[3]), f32(l.Intensity), f32(l.Range), f32(l.Out), f32(l.Inner))+
				"  m_CullingMask:\n    serializedVersion: 2\n    m_Bits: 4294967295\n  m_Flare: {fileID: 0}\n  m_AreaSize: {x: 1, y: 1}\n")
		}
		for i, c := range n.Cols {
			comps = append(comps, n.cols[i])
			mat := "  m_Material: {fileID: 0}\n  m_IsTrigger: 0\n"
			switch c.Kind {
			case "Box":
				doc(65, n.cols[i], false, "BoxCollider:\n"+base()+mat+"  m_Enabled: 1\n  serializedVersion: 2\n  m_Size: "+xyz(c.Size)+"\n  m_Center: "+xyz(c.Center)+"\n")
			case "Sphere":
				doc(135, n.cols[i], false, "SphereCollider:\n"+base()+mat+"  m_Enabled: 1\n  m_Radius: "+f32(c.Radius)+"\n  m_Center: "+xyz(c.Center)+"\n")
			case "Capsule":
				doc(136, n.cols[i], false, "CapsuleCollider:\n"+base()+mat+"  m_Enabled: 1\n  m_Radius: "+f32(c.Radius)+"\n  m_Height: "+f32(c.Height)+fmt.Sprintf("\n  m_Direction: %d\n  m_Center: ", c.Dir)+xyz(c.Center)+"\n")
			case "Mesh":
				doc(64, n.cols[i], false, "MeshCollider:\n"+base()+mat+"  m_Enabled: 1\n  m_Convex: 0\n  m_CookingOptions: 30\n  m_Mesh: "+c.Mesh.String()+"\n")
			}
		}
		if b := n.Body; b != nil {
			comps = append(comps, n.body)
			doc(54, n.body, false, "Rigidbody:\n"+base()+fmt.Sprintf("  serializedVersion: 2\n  m_Mass: %s\n  m_Drag: %s\n  m_AngularDrag: %s\n  m_UseGravity: 1\n  m_IsKinematic: %d\n", f32(b.Mass), f32(b.Drag), f32(b.Angular), b01[b.Kinematic]))
		}
		switch n.extra {
		case 1: // a script
			comps = append(comps, n.xid)
			doc(114, n.xid, false, "MonoBehaviour:\n"+base()+"  m_Enabled: 1\n  m_EditorHideFlags: 0\n  m_Script: {fileID: 11500000, guid: 0123456789abcdef0123456789abcdef, type: 3}\n  m_Name: \n  m_Mesh: {fileID: 10207, guid: 0000000000000000e000000000000000, type: 0}\n  speed: 1.5\n")
		case 2: // a missing script
			comps = append(comps, 0)
		case 3: // a component that is nowhere
			comps = append([]int64{n.xid}, comps...)
		case 4: // a component of a kind that is not converted
			comps = append(comps, n.xid)
			doc(81, n.xid, false, "AudioListener:\n"+base()+"  m_Enabled: 1\n")
		case 5: // no mesh
			if n.Mesh == nil {
				comps = append(comps, n.xid)
				doc(33, n.xid, false, "MeshFilter:\n"+base()+"  m_Mesh: {fileID: 0}\n")
			}
		case 6: // a collider without mesh
			comps = append(comps, n.xid)
			doc(64, n.xid, false, "MeshCollider:\n"+base()+"  m_Material: {fileID: 0}\n  m_IsTrigger: 0\n  m_Enabled: 1\n  m_Mesh: {fileID: 0}\n")
		}
		s := "GameObject:\n  m_ObjectHideFlags: 0\n" + none + "  serializedVersion: 6\n  m_Component:\n"
		for _, c := range comps {
			s += fmt.Sprintf("  - component: {fileID: %d}\n", c)
		}
		s += "  m_Layer: 0\n  m_Name: " + YAMLString(n.Name) + "\n  m_TagString: Untagged\n  m_Icon: {fileID: 0}\n  m_NavMeshLayer: 0\n  m_StaticEditorFlags: 0\n" + fmt.Sprintf("  m_IsActive: %d\n", b01[n.Active])
		doc(1, n.go_, false, s)
		tr := n.TRS
		s = "Transform:\n" + base() + fmt.Sprintf("  m_LocalRotation: {x: %s, y: %s, z: %s, w: %s}\n", f32(tr.Rot[0]), f32(tr.Rot[1]), f32(tr.Rot[2]), f32(tr.Rot[3])) +
			"  m_LocalPosition: " + xyz(tr.Pos) + "\n  m_LocalScale: " + xyz(tr.Scl) + "\n"
		if len(n.Kids) == 0 {
			s += "  m_Children: []\n"
		} else {
			s += "  m_Children:\n"
			for _, k := range n.Kids {
				s += fmt.Sprintf("  - {fileID: %d}\n", trOf(k))
			}
		}
		s += fmt.Sprintf("  m_Father: {fileID: %d}\n  m_RootOrder: 0\n  m_LocalEulerAnglesHint: {x: 0, y: 0, z: 0}\n", father)
		doc(4, n.tr, false, s)
		for _, k := range n.Kids {
			node(k, n.tr)
		}
	}
	for _, r := range f.Roots {
		node(r, 0)
	}
	return docs
}

// YAMLPath writes a property path (quoted when it has brackets, as Unity does).
func YAMLPath(s string) string {
	if strings.Contains(s, "[") {
		return "'" + s + "'"
	}
	return s
}

// Text writes a file, its documents in any order.
func (f *UFile) Text(t *T) []byte {
	docs := f.Docs()
	head := "%YAML 1.1\n%TAG !u! tag:unity3d.com,2011:\n"
	extra := []string{
		"--- !u!29 &1\nOcclusionCullingSettings:\n  m_ObjectHideFlags: 0\n  serializedVersion: 2\n  m_OcclusionBakeSettings:\n    smallestOccluder: 5\n    smallestHole: 0.25\n",
		"--- !u!104 &2\nRenderSettings:\n  m_ObjectHideFlags: 0\n  m_Fog: 0\n  m_FogColor: {r: 0.5, g: 0.5, b: 0.5, a: 1}\n",
	}
	var sb strings.Builder
	sb.WriteString(head)
	if Bool(t, "settings") {
		sb.WriteString(strings.Join(extra, ""))
	}
	for _, i := range rapid.Permutation(Iota(len(docs))).Draw(t, "docs") {
		sb.WriteString(docs[i])
	}
	s := sb.String()
	if Bool(t, "wrap") {
		s = strings.ReplaceAll(s, ", type: 3}", ",\n        type: 3}")
	}
	if Chance(t, "crlf", 4) {
		s = strings.ReplaceAll(s, "\n", "\r\n")
	}
	if Chance(t, "noEOL", 4) {
		s = strings.TrimRight(s, "\r\n")
		if strings.HasSuffix(s, "}") && Bool(t, "wrapEnd") {
			s = s[:len(s)-1] + "\n  }"
		}
	}
	return []byte(s)
}

// Text writes a material asset.
func (m *UMat) Text(t *T) []byte {
	s := "%YAML 1.1\n%TAG !u! tag:unity3d.com,2011:\n"
	mono := "--- !u!114 &-123456\nMonoBehaviour:\n  m_ObjectHideFlags: 11\n  m_Name: \n  version: 4\n"
	first := Bool(t, "mono first")
	if first {
		s += mono
	}
	s += "--- !u!21 &2100000\nMaterial:\n  serializedVersion: 6\n  m_ObjectHideFlags: 0\n  m_Name: " + YAMLString(m.Name) + "\n  m_Shader: {fileID: 46, guid: 0000000000000000f000000000000000, type: 0}\n  m_ShaderKeywords: \n  m_LightmapFlags: 4\n  m_CustomRenderQueue: -1\n  stringTagMap: {}\n  disabledShaderPasses: []\n  m_SavedProperties:\n    serializedVersion: 3\n    m_TexEnvs:\n"
	tex := func(prop, guid string, sc, of [2]float32) {
		ref := "{fileID: 0}"
		if guid != "" {
			ref = "{fileID: 2800000, guid: " + guid + ", type: 3}"
		}
		s += fmt.Sprintf("    - %s:\n        m_Texture: %s\n        m_Scale: {x: %s, y: %s}\n        m_Offset: {x: %s, y: %s}\n", prop, ref, f32(sc[0]), f32(sc[1]), f32(of[0]), f32(of[1]))
	}
	one := [2]float32{1, 1}
	tex("_BumpMap", m.Bump, one, [2]float32{})
	tex("_DetailAlbedoMap", "", [2]float32{3, 3}, [2]float32{})
	tex("_MainTex", m.Tex, m.Scale, m.Offset)
	s += "    m_Floats:\n    - _BumpScale: 1\n    - _Cutoff: 0.5\n    - _Glossiness: 0.25\n"
	col := func(n string, c *[4]float32) string {
		return fmt.Sprintf("    - %s: {r: %s, g: %s, b: %s, a: %s}\n", n, f32(c[0]), f32(c[1]), f32(c[2]), f32(c[3]))
	}
	if m.Color == nil && m.Emission == nil {
		s += "    m_Colors: []\n"
	} else {
		s += "    m_Colors:\n"
		if m.Color != nil {
			s += col("_Color", m.Color)
		}
		if m.Emission != nil {
			s += col("_EmissionColor", m.Emission)
		}
	}
	if !first {
		s += mono
	}
	return []byte(s)
}

// UnityWorld draws assets, prefabs and a scene that uses them.
func UnityWorld(t *T, o UOpts) *UWorld {
	w := &UWorld{}
	g := &uGen{t: t, o: o, w: w}
	nm, nf := Int(t, "materials", 0, 3), 0
	if o.FBX {
		nf = Int(t, "fbxs", 1, 2)
	}
	np := Int(t, "prefabs", 0, o.Prefabs)
	guids := GUIDs(t, 3*nm+nf+np+1)
	guid := func() string { s := guids[0]; guids = guids[1:]; return s }
	for i := 0; i < nm; i++ {
		m := &UMat{GUID: guid(), Name: rapid.SampledFrom([]string{"Mat", "Mat", "マテ", "m 1"}).Draw(t, "matName"), Scale: [2]float32{1, 1}}
		col := func(n string) *[4]float32 {
			if !Bool(t, n+"?") {
				return nil
			}
			v := Col4(t, n)
			return &[4]float32{v.X, v.Y, v.Z, v.W}
		}
		m.Color, m.Emission = col("color"), col("emission")
		tex := func(n string) (string, string) {
			gd := guid()
			if !Bool(t, n) {
				return "", ""
			}
			p := fmt.Sprintf("Assets/%s %d.png", n, i)
			w.Assets = append(w.Assets, NewUAsset(gd, p, []byte(fmt.Sprintf("pixels of %s", p)), nil))
			return gd, p
		}
		m.Tex, m.TexPath = tex("tex")
		m.Bump, m.BumpPath = tex("bump")
		if Bool(t, "tiled") {
			m.Scale = [2]float32{float32(Int(t, "sx", 1, 16)) / 4, float32(Int(t, "sy", 1, 16)) / 4}
			m.Offset = [2]float32{float32(Int(t, "ox", -4, 4)) / 8, float32(Int(t, "oy", -4, 4)) / 8}
		}
		w.Mats = append(w.Mats, m)
		w.Assets = append(w.Assets, NewUAsset(m.GUID, fmt.Sprintf("Assets/mat%d.mat", i), m.Text(t), nil))
	}
	for i := 0; i < nf; i++ {
		g.fbx(guid(), i)
	}
	for i := 0; i < np; i++ {
		f := &UFile{GUID: guid(), Path: fmt.Sprintf("Assets/p%d.prefab", i)}
		f.Roots = []*UNode{g.tree(f, 2, 2, w.Files)}
		if in := f.Roots[0].Inst; in != nil {
			in.Strip = len(in.Added) > 0 || Bool(t, "strip")
		}
		w.Files = append(w.Files, f)
	}
	f := &UFile{GUID: guid(), Path: "Assets/Scenes/シーン 1.unity"}
	for k := Int(t, "roots", 1, 3); k > 0; k-- {
		f.Roots = append(f.Roots, g.tree(f, 3, 2, w.Files))
	}
	w.Files = append(w.Files, f)
	for _, f := range w.Files {
		w.Assets = append(w.Assets, NewUAsset(f.GUID, f.Path, f.Text(t), nil))
	}
	return w
}

func (g *uGen) fbx(guid string, i int) {
	t := g.t
	s := FBXScene(t, FSceneOpts{})
	s.Mats, s.TmplDif, s.TmplScl = nil, nil, nil
	x := &UFBX{GUID: guid, Scene: s, Mesh: map[int64]int{}}
	if Bool(t, "unit") {
		u := rapid.SampledFrom([]float64{1, 100, 2.54}).Draw(t, "unitv")
		x.Unit, s.Unit = &u, &u
	}
	rec := map[int64]string{}
	for k, m := range s.Models {
		m.Mats = nil
		if m.Geo < 0 {
			continue
		}
		geo := s.Geos[m.Geo]
		geo.MatMap, geo.MatIdx = "", nil
		if len(geo.Polys) > 1 && Bool(t, "slots") {
			geo.MatMap = "ByPolygon"
			for j := range geo.Polys {
				n := 0
				for _, v := range geo.MatIdx {
					if v+1 > n {
						n = v + 1
					}
				}
				if j == 0 {
					geo.MatIdx = append(geo.MatIdx, 0)
				} else {
					geo.MatIdx = append(geo.MatIdx, Int(t, "slot", 0, n))
				}
			}
			// any order: the renderer lists them in the order of their first use
			n := 0
			for _, v := range geo.MatIdx {
				if v+1 > n {
					n = v + 1
				}
			}
			perm := rapid.Permutation(Iota(n)).Draw(t, "slot order")
			for j := range geo.MatIdx {
				geo.MatIdx[j] = perm[geo.MatIdx[j]]
			}
		}
		id := 4300000 + 2*int64(len(x.Mesh))
		x.Mesh[id] = k
		rec[id] = m.Name
	}
	if len(s.Models) == 1 && Bool(t, "unnamed") {
		rec = map[int64]string{}
	}
	data, _ := EncodeFBX(s.Tree(t), DrawFBXBin(t))
	g.w.FBX = append(g.w.FBX, x)
	ext := rapid.SampledFrom([]string{"fbx", "FBX"}).Draw(t, "fbxExt")
	g.w.Assets = append(g.w.Assets, NewUAsset(guid, fmt.Sprintf("Assets/m%d.%s", i, ext), data, rec))
}
