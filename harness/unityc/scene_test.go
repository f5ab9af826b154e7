package unityc

import (
	"bytes"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"strings"
	"testing"

	"github.com/binzume/modelconv/converter"
	"github.com/binzume/modelconv/geom"
	"github.com/binzume/modelconv/mqo"
	"github.com/binzume/modelconv/unity"

	"pgregory.net/rapid"

	"github.com/qmuntal/gltf"

	"verif/harness/gen"
	"verif/harness/gltfx"
	"verif/harness/hx"
)

// mnode is an object of the converted document with its children.
type mnode struct {
	o    *mqo.Object
	kids []*mnode
}

func mqoTree(c *hx.C, doc *mqo.Document) []*mnode {
	root := &mnode{}
	stack := []*mnode{root}
	for _, o := range doc.Objects {
		if o.Depth < 0 || o.Depth > len(stack)-1 {
			c.Fatalf("object %q has depth %d below depth %d", o.Name, o.Depth, len(stack)-2)
		}
		stack = stack[:o.Depth+1]
		n := &mnode{o: o}
		stack[len(stack)-1].kids = append(stack[len(stack)-1].kids, n)
		stack = append(stack, n)
	}
	return root.kids
}

func descTree(sb *strings.Builder, e *gen.EObj, d int) {
	fmt.Fprintf(sb, "%s%q active=%v pos=%v rot=%v scl=%v", strings.Repeat("  ", d), e.Name, e.Active, e.TRS.Pos, e.TRS.Rot, e.TRS.Scl)
	if e.Mesh != nil {
		fmt.Fprintf(sb, " mesh=%v renderer=%v enabled=%v mats=%v", *e.Mesh, e.Renderer, e.Enabled, e.Mats)
	}
	if e.Light != nil {
		fmt.Fprintf(sb, " light=%+v", *e.Light)
	}
	if len(e.Cols) > 0 {
		fmt.Fprintf(sb, " colliders=%+v", e.Cols)
	}
	sb.WriteByte('\n')
	for _, k := range e.Kids {
		descTree(sb, k, d+1)
	}
}

type check struct {
	*hx.C
	w      *gen.UWorld
	doc    *mqo.Document
	scale  float64
	src    string // directory of the saved textures
	saved  bool
	mats   map[string]bool
	bodies map[int]*mqo.PhysicsBody
	phys   bool
	seen   map[int]bool
	nmesh  int
}

func nameIs(got, want string) bool {
	return got == want || strings.HasPrefix(got, want+"(") && strings.HasSuffix(got, ")")
}

type mismatch string

// Fatalf gives up on the pairing of objects that is being tried.
func (c *check) Fatalf(format string, args ...interface{}) {
	panic(mismatch(fmt.Sprintf(format, args...)))
}

// try runs f and gives the mismatch it found.
func (c *check) try(f func()) (msg string) {
	defer func() {
		if r := recover(); r != nil {
			m, ok := r.(mismatch)
			if !ok {
				panic(r)
			}
			msg = string(m)
		}
	}()
	f()
	return ""
}

// match compares the children of an object with the expected ones. Instances
// of one prefab may have the same name, so every object of that name is tried.
func (c *check) match(where string, got []*mnode, want []*gen.EObj, listed []bool, extra int, parent gen.M, active, shear bool) {
	used := make([]bool, len(got))
	memo := map[[2]int]string{}
	same := func(i, k int) string {
		m, ok := memo[[2]int{i, k}]
		if !ok {
			m = c.try(func() { c.object(got[k], want[i], parent, active, shear) })
			memo[[2]int{i, k}] = m
		}
		return m
	}
	// An object may match several that are expected, when one of them leaves
	// something open, so the choice is undone when it leads nowhere.
	var from func(i, last int) string
	from = func(i, last int) string {
		if i == len(want) {
			return ""
		}
		e := want[i]
		var names []string
		msg := ""
		for k, g := range got {
			names = append(names, g.o.Name)
			if used[k] || !nameIs(g.o.Name, e.Name) {
				continue
			}
			next := last
			if listed != nil && listed[i] {
				if k < last {
					if msg == "" {
						msg = fmt.Sprintf("%s: %q is out of order", where, e.Name)
					}
					continue
				}
				next = k
			}
			m := same(i, k)
			if m == "" {
				used[k] = true
				if m = from(i+1, next); m == "" {
					return ""
				}
				used[k] = false
			}
			msg = m
		}
		if msg == "" {
			msg = fmt.Sprintf("%s: no object %q below it, only %q", where, e.Name, names)
		}
		return msg
	}
	if msg := from(0, -1); msg != "" {
		c.Fatalf("%s", msg)
	}
	n := 0
	for k, g := range got {
		if !used[k] {
			n++
			if n > extra {
				c.Fatalf("%s: object %q is not in the scene", where, g.o.Name)
			}
		}
	}
}

func uniform(s [3]float32) bool { return s[0] == s[1] && s[1] == s[2] && s[0] > 0 }

func (c *check) object(g *mnode, e *gen.EObj, parent gen.M, active, shear bool) {
	o := g.o
	where := fmt.Sprintf("object %q", e.Name)
	active = active && e.Active
	world := parent.Mul(e.TRS.Mat())
	// the local transformation of the object
	loc := e.TRS.Mat()
	loc[12], loc[13], loc[14] = loc[12]*c.scale, loc[13]*c.scale, loc[14]*c.scale
	lg := gen.MatOf(o.GetLocalTransform())
	for i := range loc {
		tol := 2e-4 * math.Max(1, loc.MaxAbs())
		if i < 12 {
			// angles are kept in degrees, as float32, and lose precision near
			// the poles
			k := i / 4 * 4
			tol = 4e-3 * math.Max(1, math.Abs(loc[k])+math.Abs(loc[k+1])+math.Abs(loc[k+2]))
		}
		if math.Abs(lg[i]-loc[i]) > tol {
			c.Fatalf("%s: local transformation %v, want %v", where, lg, loc)
		}
	}
	fbx := e.Mesh != nil && e.Renderer && e.Mesh.GUID != gen.BuiltinGUID
	extra := 0
	meshNode := o
	if fbx {
		extra = 1
	}
	vis := active
	if e.Mesh != nil && e.Renderer && !fbx {
		vis = active && e.Enabled
	}
	if o.Visible != vis {
		c.Fatalf("%s: visible %v, want %v", where, o.Visible, vis)
	}
	if e.Mesh == nil || !e.Renderer || fbx {
		if len(o.Vertexes)+len(o.Faces) > 0 {
			c.Fatalf("%s: has %d faces, want none", where, len(o.Faces))
		}
	} else {
		ref := &unity.Ref{FileID: e.Mesh.ID, GUID: e.Mesh.GUID}
		vs, faces, uvs, _ := unity.GetBuiltinMesh(ref)
		var ps []gen.P3
		for _, v := range vs {
			ps = append(ps, gen.V(v))
		}
		mats := make([]int, len(faces))
		var uv [][][2]float64
		for _, u := range uvs {
			var r [][2]float64
			for _, x := range u {
				r = append(r, [2]float64{float64(x.X), float64(x.Y)})
			}
			uv = append(uv, r)
		}
		c.mesh(where, meshNode, world, ps, faces, uv, mats, e.Mats)
	}
	if fbx {
		var sub *mnode
		for _, k := range g.kids {
			own := false
			for _, w := range e.Kids {
				if nameIs(k.o.Name, w.Name) {
					own = true
				}
			}
			if !own {
				sub = k
				break
			}
		}
		if sub == nil {
			c.Fatalf("%s: its mesh is missing", where)
		}
		if len(sub.kids) > 0 {
			c.Fatalf("%s: %q below its mesh", where, sub.kids[0].o.Name)
		}
		if sub.o.Visible != (active && e.Enabled) {
			c.Fatalf("%s: mesh visible %v, want %v", where, sub.o.Visible, active && e.Enabled)
		}
		var x *gen.UFBX
		for _, f := range c.w.FBX {
			if f.GUID == e.Mesh.GUID {
				x = f
			}
		}
		s := x.Scene
		geo := s.Geos[s.Models[x.Mesh[e.Mesh.ID]].Geo]
		unit := 0.01
		if x.Unit != nil {
			unit *= *x.Unit
		}
		m := world.Mul(gen.ScaleM(gen.P3{-unit, unit, -unit})).Mul(s.Coord())
		var faces [][]int
		var uv [][][2]float64
		mats := geo.FirstUse()
		for j, p := range geo.Polys {
			var f []int
			var r [][2]float64
			for k := range p {
				src := len(p) - 1 - k
				f = append(f, p[src])
				if geo.UVs != nil {
					r = append(r, [2]float64{geo.UVs[j][src][0], 1 - geo.UVs[j][src][1]})
				}
			}
			faces = append(faces, f)
			if geo.UVs != nil {
				uv = append(uv, r)
			}
		}
		c.mesh(where, sub.o, m, geo.Verts, faces, uv, mats, e.Mats)
		c.Label("fbx mesh")
	}
	c.light(where, o, e, world)
	if c.phys {
		c.physics(where, o, e, world, shear)
	}
	c.LabelIf(!active, "inactive")
	c.match(where, g.kids, e.Kids, e.Listed, extra, world, active, shear || !uniform(e.TRS.Scl))
}

// mesh compares the faces of an object.
func (c *check) mesh(where string, o *mqo.Object, m gen.M, vs []gen.P3, faces [][]int, uvs [][][2]float64, slot []int, mats []gen.URef) {
	c.nmesh++
	if len(o.Faces) != len(faces) {
		c.Fatalf("%s: %d faces, want %d", where, len(o.Faces), len(faces))
	}
	pos := make([]gen.P3, len(vs))
	ext := 0.0
	for i, v := range vs {
		pos[i] = m.Apply(v).Scale(c.scale)
		ext = math.Max(ext, math.Max(pos[i].Len(), 1))
	}
	// rounding of the chain of matrices
	tol := 2e-5 * (ext + c.scale*m.MaxAbs()*10)
	for i, f := range faces {
		g := o.Faces[i]
		if len(g.Verts) != len(f) {
			c.Fatalf("%s: face %d has %d corners, want %d", where, i, len(g.Verts), len(f))
		}
		var mat *gen.UMat
		if len(mats) > 0 {
			mat = c.material(where, g.Material, mats[slot[i]])
			c.LabelIf(slot[i] > 0, "second material")
		} else if g.Material < -1 || g.Material >= len(c.doc.Materials) {
			c.Fatalf("%s: material %d of %d", where, g.Material, len(c.doc.Materials))
		} else { // any material
			uvs = nil
		}
		n := len(f)
		ok := false
		for sh := 0; sh < n && !ok; sh++ {
			ok = true
			for k := 0; k < n && ok; k++ {
				v := g.Verts[(k+sh)%n]
				if v < 0 || v >= len(o.Vertexes) || gen.V(o.Vertexes[v]).Dist(pos[f[k]]) > tol {
					ok = false
					break
				}
				if len(uvs) > i && len(uvs[i]) == n {
					if len(g.UVs) != n {
						c.Fatalf("%s: face %d has %d texture coordinates", where, i, len(g.UVs))
					}
					u, w := uvs[i][k][0], uvs[i][k][1]
					if mat != nil && mat.Tex != "" {
						u = u*float64(mat.Scale[0]) + float64(mat.Offset[0])
						w = 1 - ((1-w)*float64(mat.Scale[1]) + float64(mat.Offset[1]))
					}
					p := g.UVs[(k+sh)%n]
					if math.Abs(float64(p.X)-u) > 1e-4 || math.Abs(float64(p.Y)-w) > 1e-4 {
						ok = false
					}
				}
			}
		}
		if !ok {
			var got, want []gen.P3
			for _, v := range g.Verts {
				if v >= 0 && v < len(o.Vertexes) {
					got = append(got, gen.V(o.Vertexes[v]))
				}
			}
			for _, v := range f {
				want = append(want, pos[v])
			}
			var wuv interface{} = "none"
			if len(uvs) > i {
				wuv = uvs[i]
			}
			c.Fatalf("%s: face %d at %v with %v, want %v with %v (before tiling, material %+v)", where, i, got, g.UVs, want, wuv, mat)
		}
	}
}

// material checks the material of a face and gives the asset behind it.
func (c *check) material(where string, idx int, ref gen.URef) *gen.UMat {
	if idx < 0 || idx >= len(c.doc.Materials) {
		c.Fatalf("%s: material %d of %d", where, idx, len(c.doc.Materials))
	}
	g := c.doc.Materials[idx]
	c.mats[ref.GUID] = true
	if ref.GUID == gen.DefaultMatGUID {
		if g.Name != "UnityDefaultMaterial" || g.Color != (geom.Vector4{X: 1, Y: 1, Z: 1, W: 1}) || g.Texture != "" {
			c.Fatalf("%s: material %+v, want the default material", where, g)
		}
		return nil
	}
	if ref.GUID == "" { // none: any plain material
		if g.Texture != "" || g.BumpTexture != "" || g.EmissionColor != nil {
			c.Fatalf("%s: material %+v, want a plain one", where, g)
		}
		for _, m := range c.w.Mats {
			if g.Name == m.Name {
				c.Fatalf("%s: material %q, want none of the assets", where, g.Name)
			}
		}
		c.Label("no material")
		return nil
	}
	for _, m := range c.w.Mats {
		if m.GUID != ref.GUID {
			continue
		}
		col := [4]float32{1, 1, 1, 1}
		if m.Color != nil {
			col = *m.Color
		}
		if g.Name != m.Name || g.Color != (geom.Vector4{X: col[0], Y: col[1], Z: col[2], W: col[3]}) {
			c.Fatalf("%s: material %q %v, want %q %v", where, g.Name, g.Color, m.Name, col)
		}
		var em, ge [3]float32
		if m.Emission != nil {
			copy(em[:], m.Emission[:3])
		}
		if g.EmissionColor != nil {
			ge = [3]float32{g.EmissionColor.X, g.EmissionColor.Y, g.EmissionColor.Z}
		}
		if em != ge {
			c.Fatalf("%s: material %q glows %v, want %v", where, m.Name, ge, em)
		}
		c.texture(where, g.Texture, m.Tex, m.TexPath)
		c.texture(where, g.BumpTexture, m.Bump, m.BumpPath)
		return m
	}
	c.Fatalf("%s: unknown material %v", where, ref)
	return nil
}

func (c *check) texture(where, got, guid, path string) {
	if guid == "" || !c.saved {
		if got != "" {
			c.Fatalf("%s: texture %q, want none", where, got)
		}
		return
	}
	var want []byte
	for _, a := range c.w.Assets {
		if a.GUID == guid {
			want = a.Data
		}
	}
	b, err := os.ReadFile(filepath.Join(c.src, filepath.FromSlash(got)))
	if got == "" || err != nil || !bytes.Equal(b, want) {
		c.Fatalf("%s: texture %q (%v) is not a copy of %s", where, got, err, path)
	}
}

func (c *check) light(where string, o *mqo.Object, e *gen.EObj, world gen.M) {
	l, ok := o.Extra["light"].(map[string]interface{})
	if ok != (e.Light != nil) {
		c.Fatalf("%s: light %v, want %v", where, o.Extra["light"], e.Light)
	}
	if !ok {
		return
	}
	if o.InternalTransform == nil {
		c.Fatalf("%s: its light has no place", where)
	}
	w := gen.ScaleM(gen.P3{c.scale, c.scale, c.scale}).Mul(world)
	if d := gen.MatOf(o.InternalTransform).MaxDiff(w); d > 1e-4*math.Max(1, w.MaxAbs()) {
		c.Fatalf("%s: light at %v, want %v", where, *o.InternalTransform, w)
	}
	if want := []string{"spot", "directional", "point"}[e.Light.Type]; l["type"] != want {
		c.Fatalf("%s: light is a %v, want %v", where, l["type"], want)
	}
	if l["intensity"] != e.Light.Intensity || fmt.Sprint(l["color"]) != fmt.Sprint(e.Light.Color[:3]) {
		c.Fatalf("%s: light %v, want %+v", where, l, *e.Light)
	}
	if e.Light.Type != 1 && l["range"] != e.Light.Range {
		c.Fatalf("%s: light range %v, want %v", where, l["range"], e.Light.Range)
	}
	spot, ok := l["spot"].(map[string]interface{})
	if ok != (e.Light.Type == 0) {
		c.Fatalf("%s: light %v, type %d", where, l, e.Light.Type)
	}
	if ok {
		// half of the angle, in radians
		out, in := float64(e.Light.Out)*math.Pi/360, float64(e.Light.Inner)*math.Pi/360
		if math.Abs(num(spot["outerConeAngle"])-out) > 1e-5 || math.Abs(num(spot["innerConeAngle"])-in) > 1e-5 {
			c.Fatalf("%s: cone %v, want %v to %v", where, spot, in, out)
		}
		c.Label("spot light")
	}
	if _, ok := l["range"]; ok && e.Light.Type == 1 {
		c.Fatalf("%s: directional light %v with a range", where, l)
	}
	c.Label("light")
}

func num(v interface{}) float64 {
	switch v := v.(type) {
	case float32:
		return float64(v)
	case float64:
		return v
	}
	return math.NaN()
}

func (c *check) physics(where string, o *mqo.Object, e *gen.EObj, world gen.M, shear bool) {
	b := c.bodies[o.UID]
	c.seen[o.UID] = true
	var want []gen.UCol
	for _, kind := range []string{"Box", "Sphere", "Capsule", "Mesh"} { // their order is free
		for _, x := range e.Cols {
			if x.Kind == kind {
				want = append(want, x)
			}
		}
	}
	if len(want) == 0 {
		if b != nil {
			c.Fatalf("%s: body %+v without colliders", where, b)
		}
		return
	}
	if b == nil || len(b.Shapes) != len(want) {
		c.Fatalf("%s: body %s, want %d colliders", where, hx.Dump(b), len(want))
	}
	body := gen.UBody{Mass: 1, Kinematic: true}
	if e.Body != nil {
		body = *e.Body
	}
	if b.Mass != body.Mass || b.Kinematic != body.Kinematic || b.LinearDamping != body.Drag || b.AngularDamping != body.Angular {
		c.Fatalf("%s: body %s, want %+v", where, hx.Dump(b), body)
	}
	for i, w := range want {
		s := b.Shapes[i]
		typ := map[string]string{"Box": "BOX", "Sphere": "SPHERE", "Capsule": "CAPSULE"}[w.Kind]
		ctr := gen.P3{float64(w.Center[0]), float64(w.Center[1]), -float64(w.Center[2])}
		size := gen.P3{}
		switch w.Kind {
		case "Box":
			size = gen.P3{float64(w.Size[0]) / 2, float64(w.Size[1]) / 2, float64(w.Size[2]) / 2}
		case "Sphere":
			size = gen.P3{float64(w.Radius), float64(w.Radius), float64(w.Radius)}
		case "Capsule":
			size = gen.P3{float64(w.Radius), float64(w.Height - 2*w.Radius), float64(w.Radius)}
		case "Mesh":
			ctr = gen.P3{}
			switch w.Mesh.ID {
			case 10202:
				typ, size = "BOX", gen.P3{0.5, 0.5, 0.5}
			case 10207:
				typ, size = "SPHERE", gen.P3{0.5, 0.5, 0.5}
			default:
				if s.Type != "MESH" {
					c.Fatalf("%s: collider %d is a %s, want MESH", where, i, s.Type)
				}
				continue
			}
		}
		if s.Type != typ {
			c.Fatalf("%s: collider %d is a %s, want %s", where, i, s.Type, typ)
		}
		pos := world.Apply(ctr).Scale(c.scale)
		if got := gen.V(s.Position.Vec3()); got.Dist(pos) > 2e-5*(pos.Len()+c.scale*world.MaxAbs()*10) {
			c.Fatalf("%s: %s collider at %v, want %v", where, s.Type, got, pos)
		}
		if shear || e.TRS.Scl[0] < 0 || e.TRS.Scl[1] < 0 || e.TRS.Scl[2] < 0 {
			continue
		}
		for k := 0; k < 3; k++ {
			size[k] *= gen.P3{world[k*4], world[k*4+1], world[k*4+2]}.Len() * c.scale
		}
		if s.Type != "SPHERE" {
			// angles in any order: there is no convention to rely on
			r := world
			r[12], r[13], r[14] = 0, 0, 0
			for k := 0; k < 3; k++ {
				l := gen.P3{world[k*4], world[k*4+1], world[k*4+2]}.Len()
				for j := 0; j < 3; j++ {
					r[k*4+j] /= l
				}
			}
			a := s.Rotation.Vec3()
			ms := []gen.M{gen.RotX(float64(a.X)), gen.RotY(float64(a.Y)), gen.RotZ(float64(a.Z))}
			d := math.Inf(1)
			for _, o := range [][3]int{{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}} {
				d = math.Min(d, ms[o[0]].Mul(ms[o[1]]).Mul(ms[o[2]]).MaxDiff(r))
			}
			if d > 1e-2 {
				c.Fatalf("%s: %s collider turned by %v, want %v", where, s.Type, a, r)
			}
		}
		if w.Kind == "Capsule" && w.Dir != 1 {
			continue
		}
		if got := gen.V(s.Size.Vec3()); got.Dist(size) > 1e-4*size.Len() {
			c.Fatalf("%s: %s collider of size %v, want %v", where, s.Type, got, size)
		}
	}
	c.Label("collider")
}

// reuse exports the scene as glTF twice: geometry shared between objects gives
// the same picture.
func (c *check) reuse(lights bool) {
	out := func(reuse bool) (*gltfx.Doc, []gen.M) {
		d, err := converter.NewMQOToGLTFConverter(&converter.MQOToGLTFOption{ReuseGeometry: reuse, ExportLights: lights}).Convert(hx.Clone(c.doc), c.src)
		if err != nil {
			c.C.Fatalf("cannot export the scene: %v", err)
		}
		var b bytes.Buffer
		if err := gltf.NewEncoder(&b).Encode(d); err != nil {
			c.C.Fatalf("cannot write the exported scene: %v", err)
		}
		g, err := gltfx.Parse(b.Bytes(), "")
		if err != nil {
			c.C.Fatalf("cannot read the exported scene: %v", err)
		}
		var w []gen.M
		for i := range g.Nodes {
			w = append(w, g.World(i))
		}
		return g, w
	}
	a, aw := out(false)
	b, bw := out(true)
	if len(a.Nodes) < len(c.doc.Objects) || len(b.Nodes) < len(c.doc.Objects) {
		c.C.Fatalf("%d objects, %d and %d nodes", len(c.doc.Objects), len(a.Nodes), len(b.Nodes))
	}
	shared := 0
	size := 0.0
	for _, o := range c.doc.Objects {
		for _, v := range o.Vertexes {
			size = math.Max(size, gen.V(v).Len()*0.001)
		}
	}
	for i, o := range c.doc.Objects {
		p, err := a.Prims(i, aw)
		q, err2 := b.Prims(i, bw)
		if err != nil || err2 != nil || len(p) != len(q) {
			c.C.Fatalf("object %q: %d and %d primitives (%v, %v)", o.Name, len(p), len(q), err, err2)
		}
		if b.Nodes[i].Mesh != nil && bw[i] != gen.Ident4() {
			shared++
		}
		// rounding of the placement of the first copy, seen from this one
		tol := 2e-5 * size * math.Max(1, bw[i].MaxAbs())
		for j := range p {
			if len(p[j].Tris) != len(q[j].Tris) || p[j].Material != q[j].Material || (p[j].UV == nil) != (q[j].UV == nil) {
				c.C.Fatalf("object %q primitive %d: %d triangles of material %d, shared: %d of %d", o.Name, j, len(p[j].Tris), p[j].Material, len(q[j].Tris), q[j].Material)
			}
			// polygons may be divided in another way
			has := func(x, y gltfx.Prim) {
				for k, t := range x.Tris {
					for e, v := range t {
						w := y.Tris[k][e]
						ok := x.Pos[v].Dist(y.Pos[w]) <= tol && (x.UV == nil || math.Hypot(x.UV[v][0]-y.UV[w][0], x.UV[v][1]-y.UV[w][1]) <= 2e-4)
						for _, t := range y.Tris {
							if ok {
								break
							}
							for _, w := range t {
								ok = ok || x.Pos[v].Dist(y.Pos[w]) <= tol && (x.UV == nil || math.Hypot(x.UV[v][0]-y.UV[w][0], x.UV[v][1]-y.UV[w][1]) <= 2e-4)
							}
						}
						if !ok {
							c.C.Fatalf("object %q: a corner of triangle %d at %v is not there when geometry is shared, or only then", o.Name, k, x.Pos[v])
						}
					}
				}
			}
			has(p[j], q[j])
			has(q[j], p[j])
		}
	}
	c.LabelIf(shared > 0, "shared geometry")
}

func openWorld(c *hx.C, dir string, w *gen.UWorld) (unity.Assets, string, func()) {
	src := filepath.Join(dir, "src")
	os.Mkdir(src, 0755)
	switch gen.Int(c.T, "container", 0, 3) {
	case 0:
		tmp := filepath.Join(dir, "tmp")
		os.Mkdir(tmp, 0755)
		p := filepath.Join(src, "x.unitypackage")
		os.WriteFile(p, gen.Pack(gen.PackageEntries(c.T, w.Assets)), 0644)
		var a unity.Assets
		var err error
		withTemp(tmp, func() { a, err = unity.OpenPackage(p) })
		if err != nil {
			c.Fatalf("cannot open the package: %v", err)
		}
		return a, src, func() { a.Close() }
	default:
		gen.WriteProject(src, w.Assets)
		a, err := unity.OpenProject(src)
		if err != nil {
			c.Fatalf("cannot open the project: %v", err)
		}
		return a, src, func() { a.Close() }
	}
}

func sceneProp(o gen.UOpts) func(c *hx.C) {
	return func(c *hx.C) {
		dir, done := hx.Scratch(c)
		defer done()
		w := gen.UnityWorld(c.T, o)
		scene := w.Files[len(w.Files)-1]
		want, _ := scene.Expand()
		c.DescF(func() string {
			var sb strings.Builder
			for _, e := range want {
				descTree(&sb, e, 0)
			}
			for _, a := range w.Assets {
				if strings.HasSuffix(a.Path, ".unity") || strings.HasSuffix(a.Path, ".prefab") {
					fmt.Fprintf(&sb, "\n%s (%s)\n%s", a.Path, a.GUID, a.Data)
				}
			}
			return sb.String()
		})
		others := gen.Chance(c.T, "other scenes", 6)
		if others {
			g := fmt.Sprintf("%032x", 0xabcdef)
			w.Assets = append(w.Assets, &gen.UAsset{Path: rapid.SampledFrom([]string{"Assets/0.unity", "Assets/zz.unity"}).Draw(c.T, "other"), GUID: g,
				Data: []byte("%YAML 1.1\n%TAG !u! tag:unity3d.com,2011:\n--- !u!29 &1\nOcclusionCullingSettings:\n  m_ObjectHideFlags: 0\n"), Meta: "fileFormatVersion: 2\nguid: " + g + "\n"})
		}
		assets, src, closeIt := openWorld(c, dir, w)
		defer closeIt()
		path := scene.Path
		if others {
			if s, err := unity.LoadScene(assets, ""); err == nil {
				c.Fatalf("one of two scenes is taken without being named: %v", s.GUID)
			}
			c.Label("two scenes")
		} else if gen.Bool(c.T, "onlyScene") {
			path = "" // there is only one
		}
		s, err := unity.LoadScene(assets, path)
		if err != nil {
			c.Fatalf("cannot load the scene: %v", err)
		}
		opt := &converter.UnityToMQOOption{SaveTexrure: gen.Bool(c.T, "saveTextures"), ConvertPhysics: o.Physics}
		scale := 1000.0
		if gen.Bool(c.T, "scale?") {
			opt.ConvertScale, scale = 10, 10
		}
		doc, err := converter.NewUnityToMQOConverter(opt).Convert(s)
		if err != nil {
			c.Fatalf("cannot convert the scene: %v", err)
		}
		x := &check{C: c, w: w, doc: doc, scale: scale, src: src, saved: opt.SaveTexrure, mats: map[string]bool{}, bodies: map[int]*mqo.PhysicsBody{}, phys: o.Physics, seen: map[int]bool{}}
		uids := map[int]bool{}
		for _, o := range doc.Objects {
			if uids[o.UID] {
				c.Fatalf("object id %d is used twice", o.UID)
			}
			uids[o.UID] = true
		}
		if p := mqo.FindPhysicsPlugin(doc); p != nil {
			for _, b := range p.Bodies {
				if x.bodies[b.TargetObjID] != nil {
					c.Fatalf("two bodies for object %d", b.TargetObjID)
				}
				x.bodies[b.TargetObjID] = b
			}
		}
		tree := mqoTree(c, doc)
		if m := x.try(func() { x.match("scene", tree, want, nil, 0, gen.Ident4(), true, false) }); m != "" {
			c.Fatalf("%s", m)
		}
		if o.FBX {
			x.reuse(gen.Bool(c.T, "lights out"))
		}
		for id := range x.bodies {
			if !x.seen[id] {
				c.Fatalf("a body of object %d, which is no game object", id)
			}
		}
		if x.nmesh > 0 {
			c.NonTrivial(c.Render())
		}
		n := 0
		for _, f := range w.Files {
			for _, a := range w.Assets {
				if a.GUID == f.GUID {
					n += bytes.Count(a.Data, []byte("PrefabInstance:\n")) + bytes.Count(a.Data, []byte("PrefabInstance:\r\n"))
				}
			}
		}
		c.LabelIf(n > 0, "prefab instance")
		c.LabelIf(n > 3, "many prefab instances")
	}
}

// shapeProp checks the meshes that are built into Unity, as faces that are
// clockwise seen from the front.
func shapeProp(c *hx.C) {
	kind := rapid.SampledFrom([]string{"Cube", "Sphere", "Cylinder", "Capsule", "Plane", "Quad"}).Draw(c.T, "shape")
	a, b := gen.Int(c.T, "a", 3, 40), gen.Int(c.T, "b", 2, 24)
	if kind == "Cube" || kind == "Plane" || kind == "Quad" {
		a, b = 0, 0
	}
	scene := gen.Chance(c.T, "scene", 3)
	var vs []*geom.Vector3
	var faces [][]int
	var uvs [][]geom.Vector2
	if scene { // as scenes refer to it
		id := map[string]int64{"Cube": 10202, "Cylinder": 10206, "Sphere": 10207, "Capsule": 10208, "Plane": 10209, "Quad": 10210}[kind]
		a, b = 12, 8 // or finer
		vs, faces, uvs, _ = unity.GetBuiltinMesh(&unity.Ref{FileID: id, GUID: gen.BuiltinGUID})
	} else {
		switch kind {
		case "Cube":
			vs, faces, uvs = unity.Cube()
		case "Sphere":
			vs, faces, uvs = unity.Sphere(a, b)
		case "Cylinder":
			vs, faces, uvs = unity.Cylinder(a)
		case "Capsule":
			b = 8
			vs, faces, uvs = unity.Capsule(a)
		case "Plane":
			vs, faces, uvs = unity.Plane()
		case "Quad":
			vs, faces, uvs = unity.Quad()
		}
	}
	c.Desc("%s %d %d scene=%v: %d vertices, %d faces", kind, a, b, scene, len(vs), len(faces))
	if len(faces) == 0 || len(uvs) != len(faces) {
		c.Fatalf("%d faces, %d with texture coordinates", len(faces), len(uvs))
	}
	edges := map[[2]int]int{}
	vol := 0.0
	var front gen.P3
	for i, f := range faces {
		if len(f) < 3 || len(uvs[i]) != len(f) {
			c.Fatalf("face %d: %d corners, %d texture coordinates", i, len(f), len(uvs[i]))
		}
		for k, v := range f {
			if v < 0 || v >= len(vs) {
				c.Fatalf("face %d: corner %d of %d vertices", i, v, len(vs))
			}
			edges[[2]int{v, f[(k+1)%len(f)]}]++
			if u := uvs[i][k]; !(u.X >= 0 && u.X <= 1 && u.Y >= 0 && u.Y <= 1) {
				c.Fatalf("face %d: texture coordinate %v", i, u)
			}
		}
		for k := 2; k < len(f); k++ { // clockwise: the other way round
			p, q, r := gen.V(vs[f[0]]), gen.V(vs[f[k]]), gen.V(vs[f[k-1]])
			n := q.Sub(p).Cross(r.Sub(p))
			front = front.Add(n)
			vol += p.Dot(n) / 6
		}
	}
	lo, hi := gen.P3{1e9, 1e9, 1e9}, gen.P3{-1e9, -1e9, -1e9}
	for _, v := range vs {
		p := gen.V(v)
		for i := range p {
			lo[i], hi[i] = math.Min(lo[i], p[i]), math.Max(hi[i], p[i])
		}
		r := math.Hypot(p[0], p[2])
		on := 0.0
		switch kind {
		case "Sphere":
			on = p.Len() - 0.5
		case "Cylinder":
			on = math.Max(math.Abs(r-0.5), math.Abs(math.Abs(p[1])-1))
		case "Capsule":
			on = math.Hypot(r, math.Max(0, math.Abs(p[1])-0.5)) - 0.5
		}
		if math.Abs(on) > 1e-5 {
			c.Fatalf("vertex %v is not on the surface", p)
		}
	}
	size := map[string]gen.P3{"Cube": {1, 1, 1}, "Sphere": {1, 1, 1}, "Cylinder": {1, 2, 1}, "Capsule": {1, 2, 1}, "Plane": {10, 0, 10}, "Quad": {1, 1, 0}}[kind]
	slack := 1e-5
	if a > 0 { // corners of a polygon
		slack = 1 - math.Cos(math.Pi/float64(a)) + 1e-5
		if kind == "Sphere" {
			slack += 1 - math.Sin(math.Floor(float64(b)/2)/float64(b)*math.Pi)
		}
	}
	for i := range size {
		if hi[i]-lo[i] > size[i]+1e-5 || hi[i]-lo[i] < size[i]-slack*2 || (size[i] != 1 || a == 0) && math.Abs(hi[i]+lo[i]) > 1e-5 {
			c.Fatalf("from %v to %v, want a size of %v", lo, hi, size)
		}
	}
	if kind == "Plane" || kind == "Quad" {
		want := gen.P3{0, 100, 0}
		if kind == "Quad" {
			want = gen.P3{0, 0, 1}
		}
		if front.Scale(0.5).Dist(want) > 1e-4 {
			c.Fatalf("faces to %v, want %v", front.Scale(0.5), want)
		}
	} else {
		for e, n := range edges {
			if n != 1 || edges[[2]int{e[1], e[0]}] != 1 {
				c.Fatalf("the surface is open at %v and %v", *vs[e[0]], *vs[e[1]])
			}
		}
		full := map[string]float64{"Cube": 1, "Sphere": math.Pi / 6, "Cylinder": math.Pi / 2, "Capsule": math.Pi/6 + math.Pi/4}[kind]
		least := full - 1e-5
		if a > 0 { // an inscribed polygon is smaller
			x, y := 2*math.Pi/float64(a), math.Pi/float64(b)
			least = full * math.Sin(x) / x * math.Sin(y) / y * math.Sin(y) / y * 0.9
		}
		if !(vol <= full+1e-4 && vol >= least) {
			c.Fatalf("volume %v, want %v to %v", vol, least, full)
		}
	}
	c.Label(kind)
	c.NonTrivial(fmt.Sprint(kind, a, b))
}

// brokenProp removes lines or documents from the files of a scene: what is
// left loads without a crash.
func brokenProp(c *hx.C) {
	dir, done := hx.Scratch(c)
	defer done()
	w := gen.UnityWorld(c.T, gen.UOpts{Lights: true, Physics: true, Prefabs: 2, Textures: true, FBX: gen.Bool(c.T, "fbx")})
	scene := w.Files[len(w.Files)-1]
	var sb strings.Builder
	for _, a := range w.Assets {
		if !strings.HasSuffix(a.Path, ".unity") && !strings.HasSuffix(a.Path, ".prefab") && !strings.HasSuffix(a.Path, ".mat") {
			continue
		}
		for k := gen.Int(c.T, "breaks", 0, 4); k > 0; k-- {
			switch gen.Int(c.T, "break", 0, 5) {
			case 5: // a reference
				lines := strings.Split(string(a.Data), "\n")
				i := gen.Int(c.T, "line", 0, len(lines)-1)
				for k := 0; k < len(lines) && !strings.Contains(lines[i], "guid: "); k++ {
					i = (i + 1) % len(lines)
				}
				if p := strings.Index(lines[i], "guid: "); p >= 0 && len(lines[i]) >= p+38 && gen.Bool(c.T, "other file") {
					to := w.Assets[gen.Int(c.T, "asset", 0, len(w.Assets)-1)]
					lines[i] = lines[i][:p+6] + to.GUID + lines[i][p+38:]
				} else if p := strings.Index(lines[i], "fileID: "); p >= 0 {
					lines[i] = lines[i][:p+8] + "7" + lines[i][p+8:]
				}
				a.Data = []byte(strings.Join(lines, "\n"))
			case 0: // a document
				docs := strings.Split(string(a.Data), "--- ")
				i := gen.Int(c.T, "doc", 0, len(docs)-1)
				a.Data = []byte(strings.Join(append(docs[:i:i], docs[i+1:]...), "--- "))
			case 1: // the end
				a.Data = a.Data[:gen.Int(c.T, "len", 0, len(a.Data))]
			case 2: // a value
				lines := strings.Split(string(a.Data), "\n")
				i := gen.Int(c.T, "line", 0, len(lines)-1)
				if p := strings.Index(lines[i], ": "); p >= 0 {
					lines[i] = lines[i][:p+1] + rapid.SampledFrom([]string{"", " ", " []", " {}", " 0", " x", " -1"}).Draw(c.T, "value")
				} else if p := strings.Index(lines[i], "- "); p >= 0 {
					lines[i] = lines[i][:p+1]
				}
				a.Data = []byte(strings.Join(lines, "\n"))
			case 3: // the content of a document
				docs := strings.Split(string(a.Data), "--- ")
				i := gen.Int(c.T, "doc", 0, len(docs)-1)
				if p := strings.Index(docs[i], "\n"); p >= 0 && i > 0 {
					docs[i] = docs[i][:p+1] + rapid.SampledFrom([]string{"", "x\n", "5\n", "x: 1\n", "- 1\n", "[\n"}).Draw(c.T, "body")
				}
				a.Data = []byte(strings.Join(docs, "--- "))
			default: // lines
				lines := strings.Split(string(a.Data), "\n")
				i := gen.Int(c.T, "line", 0, len(lines)-1)
				j := i + gen.Int(c.T, "n", 1, 3)
				if j > len(lines) {
					j = len(lines)
				}
				a.Data = []byte(strings.Join(append(lines[:i:i], lines[j:]...), "\n"))
			}
		}
		fmt.Fprintf(&sb, "%s (%s)\n%s\n", a.Path, a.GUID, a.Data)
	}
	c.Desc("%s", sb.String())
	gen.WriteProject(filepath.Join(dir, "src"), w.Assets)
	assets, err := unity.OpenProject(filepath.Join(dir, "src"))
	if err != nil {
		c.Fatalf("cannot open the project: %v", err)
	}
	defer assets.Close()
	s, err := unity.LoadScene(assets, scene.Path)
	if err != nil {
		return
	}
	doc, err := converter.NewUnityToMQOConverter(&converter.UnityToMQOOption{ConvertPhysics: true}).Convert(s)
	if err != nil {
		return
	}
	for _, o := range doc.Objects {
		for _, f := range o.Faces {
			if f.Material < -1 || f.Material >= len(doc.Materials) {
				c.Fatalf("object %q has material %d of %d", o.Name, f.Material, len(doc.Materials))
			}
		}
	}
	c.LabelIf(len(doc.Objects) > 0, "objects left")
	c.NonTrivial(sb.String())
}

// cycleProp loads prefabs that contain each other.
func cycleProp(c *hx.C) {
	dir, done := hx.Scratch(c)
	defer done()
	n := gen.Int(c.T, "prefabs", 1, 3)
	guids := gen.GUIDs(c.T, n+1)
	next := make([][]int, n+1)
	var as []*gen.UAsset
	for i := 0; i <= n; i++ {
		s := "%YAML 1.1\n%TAG !u! tag:unity3d.com,2011:\n" +
			"--- !u!1 &10\nGameObject:\n  m_Component:\n  - component: {fileID: 11}\n  m_Name: " + fmt.Sprintf("O%d", i) + "\n  m_IsActive: 1\n" +
			"--- !u!4 &11\nTransform:\n  m_GameObject: {fileID: 10}\n  m_LocalRotation: {x: 0, y: 0, z: 0, w: 1}\n  m_LocalPosition: {x: 0, y: 0, z: 0}\n  m_LocalScale: {x: 1, y: 1, z: 1}\n  m_Children: []\n  m_Father: {fileID: 0}\n"
		for k := gen.Int(c.T, "instances", 1, 2); k > 0; k-- {
			to := gen.Int(c.T, "of", 1, n)
			next[i] = append(next[i], to)
			s += fmt.Sprintf("--- !u!1001 &%d\nPrefabInstance:\n  m_Modification:\n    m_TransformParent: {fileID: 11}\n    m_Modifications: []\n  m_SourcePrefab: {fileID: 100100000, guid: %s, type: 3}\n", 100+k, guids[to])
		}
		path := fmt.Sprintf("Assets/p%d.prefab", i)
		if i == 0 {
			path = "Assets/s.unity"
		}
		as = append(as, &gen.UAsset{Path: path, GUID: guids[i], Data: []byte(s), Meta: "fileFormatVersion: 2\nguid: " + guids[i] + "\n"})
	}
	// objects that are their own descendants
	loop := gen.Int(c.T, "loop", 0, 3)
	if loop > 0 {
		d := string(as[0].Data) + "--- !u!4 &11\nTransform:\n  m_GameObject: {fileID: 10}\n  m_LocalRotation: {x: 0, y: 0, z: 0, w: 1}\n  m_LocalPosition: {x: 0, y: 0, z: 0}\n  m_LocalScale: {x: 1, y: 1, z: 1}\n  m_Children:\n  - {fileID: 20}\n  m_Father: {fileID: 0}\n"
		for k := 0; k < loop; k++ {
			to := 22 + 2*k
			if k == loop-1 {
				to = 20 + 2*gen.Int(c.T, "back", 0, loop-1)
			}
			d += fmt.Sprintf("--- !u!1 &%d\nGameObject:\n  m_Component:\n  - component: {fileID: %d}\n  m_Name: L%d\n  m_IsActive: 1\n--- !u!4 &%d\nTransform:\n  m_GameObject: {fileID: %d}\n  m_LocalRotation: {x: 0, y: 0, z: 0, w: 1}\n  m_LocalPosition: {x: 0, y: 0, z: 0}\n  m_LocalScale: {x: 1, y: 1, z: 1}\n  m_Children:\n  - {fileID: %d}\n  m_Father: {fileID: 11}\n",
				21+2*k, 20+2*k, k, 20+2*k, 21+2*k, to)
		}
		as[0].Data = []byte(d)
	}
	c.Desc("prefabs contain %v, loop %d", next, loop)
	gen.WriteProject(filepath.Join(dir, "src"), as)
	assets, err := unity.OpenProject(filepath.Join(dir, "src"))
	if err != nil {
		c.Fatalf("cannot open the project: %v", err)
	}
	defer assets.Close()
	s, err := unity.LoadScene(assets, "Assets/s.unity")
	if err != nil { // refused
		c.NonTrivial(fmt.Sprint(next, loop))
		return
	}
	doc, err := converter.NewUnityToMQOConverter(nil).Convert(s)
	if err == nil && len(doc.Objects) == 0 {
		c.Fatalf("no objects")
	}
	c.NonTrivial(fmt.Sprint(next, loop))
}

func TestC16(t *testing.T) {
	hx.Main(t, "C16",
		hx.Leg{Name: "meshes", Quick: 400, Prop: sceneProp(gen.UOpts{Textures: true, Shear: true})},
		hx.Leg{Name: "prefabs", Quick: 400, Prop: sceneProp(gen.UOpts{Prefabs: 3, Shear: true})},
		hx.Leg{Name: "fbx", Quick: 200, Prop: sceneProp(gen.UOpts{FBX: true, Prefabs: 1, Shear: true})},
		hx.Leg{Name: "lights", Quick: 200, Prop: sceneProp(gen.UOpts{Lights: true, Physics: true, Prefabs: 1, Shear: true})},
		hx.Leg{Name: "shapes", Quick: 400, Prop: shapeProp},
		hx.Leg{Name: "broken", Quick: 200, Prop: brokenProp},
		hx.Leg{Name: "cycles", Quick: 60, Prop: cycleProp},
	)
}
