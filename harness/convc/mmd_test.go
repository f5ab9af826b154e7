package convc

import (
	"bytes"
	"fmt"
	"math"
	"sort"
	"strings"
	"testing"

	"github.com/binzume/modelconv/converter"
	"github.com/binzume/modelconv/geom"
	"github.com/binzume/modelconv/mmd"
	"github.com/binzume/modelconv/mqo"
	"pgregory.net/rapid"

	"verif/harness/gen"
	"verif/harness/hx"
)

func mirror(v geom.Vector3) gen.P3 { return gen.P3{float64(v.X), float64(v.Y), -float64(v.Z)} }

// drawPMX draws a model whose vertices are distinct points and whose faces all
// belong to a material.
func drawPMX(c *hx.C) *mmd.Document {
	o := gen.SmallPMX()
	o.MaxVerts, o.MaxFaces, o.MaxMorphs = 14, 10, 6
	d := gen.PMXDoc(c.T, o)
	for i, v := range d.Vertexes {
		v.Pos.X += float32(i) * 300 // coordinates are within +-100
	}
	if len(d.Materials) == 0 {
		d.Faces = nil
	}
	names := gen.UniqueNames(c.T, "morphname", len(d.Morphs), gen.ConvName)
	for i, m := range d.Morphs {
		m.Name = "morph_" + names[i]
	}
	if gen.Bool(c.T, "uniqbones") {
		for i, n := range gen.UniqueNames(c.T, "bonename", len(d.Bones), gen.ConvName) {
			d.Bones[i].Name = n
		}
	}
	return d
}

func vertexAt(d *mmd.Document, p gen.P3, scale float64) int {
	i := int(math.Floor((p[0]*scale + 150) / 300))
	if i < 0 || i >= len(d.Vertexes) {
		return -1
	}
	if mirror(d.Vertexes[i].Pos).Dist(gen.P3{p[0] * scale, p[1] * scale, p[2] * scale}) > 1e-2 {
		return -1
	}
	return i
}

func weightsOf(v *mmd.Vertex, nb int) map[int]float64 {
	r := map[int]float64{}
	for i, b := range v.Bones {
		if b >= 0 && b < nb && v.BoneWeights[i] > 0 {
			r[b] += float64(v.BoneWeights[i])
		}
	}
	return r
}

func sameWeights(a, b map[int]float64, tol float64) bool {
	for k, w := range a {
		if math.Abs(w-b[k]) > tol {
			return false
		}
	}
	for k, w := range b {
		if math.Abs(w-a[k]) > tol {
			return false
		}
	}
	return true
}

// boneWeights collects the weights of an object's vertices by bone index.
func boneWeights(doc *mqo.Document, o *mqo.Object) []map[int]float64 {
	r := make([]map[int]float64, len(o.Vertexes))
	for i := range r {
		r[i] = map[int]float64{}
	}
	for bi, b := range mqo.GetBonePlugin(doc).Bones() {
		for _, w := range b.Weights {
			if w.ObjectID != o.UID {
				continue
			}
			for _, vw := range w.Vertexes {
				vi, ok := o.VertexByUID[vw.VertexID]
				if !ok {
					vi = vw.VertexID - 1
				}
				if vi >= 0 && vi < len(r) {
					r[vi][bi] += float64(vw.Weight) / 100
				}
			}
		}
	}
	return r
}

func propMMDToMQO(c *hx.C) {
	src := drawPMX(c)
	var opt *converter.MMDToMQOOption
	if !gen.Chance(c.T, "nilopt", 4) {
		opt = &converter.MMDToMQOOption{InheritParentThreshold: rapid.SampledFrom([]float32{0, 0.4, 1.5}).Draw(c.T, "threshold")}
		for _, b := range src.Bones {
			if gen.Bool(c.T, "known") {
				opt.KnownBoneNames = append(opt.KnownBoneNames, b.Name)
			}
			if gen.Chance(c.T, "at threshold", 4) {
				b.InheritParentInfluence = opt.InheritParentThreshold
			}
		}
	}
	c.DescF(func() string { return hx.Dump(src) })
	c.Desc("options %+v", opt)
	out := converter.NewMMDToMQOConverter(opt).Convert(hx.Clone(src))
	byName := map[string]*mqo.Object{}
	targetOf := map[string]*mqo.MorphTargetList{}
	for _, l := range mqo.GetMorphPlugin(out).Morphs() {
		for _, t := range l.Target {
			if targetOf[t.Name] != nil {
				c.Fatalf("morph %q has two bases", t.Name)
			}
			targetOf[t.Name] = l
		}
	}
	uids := map[int]bool{}
	for _, o := range out.Objects {
		if uids[o.UID] || o.UID == 0 {
			c.Fatalf("object id %d is used twice", o.UID)
		}
		uids[o.UID] = true
		byName[o.Name] = o
	}
	// faces
	type key struct{ a, b, c, m int }
	want := map[key]int{}
	fi := 0
	for mi, m := range src.Materials {
		for k := 0; k < m.Count/3; k++ {
			f := src.Faces[fi]
			want[key{f.Verts[0], f.Verts[1], f.Verts[2], mi}]++
			fi++
		}
	}
	where := map[int][]*mqo.Object{}
	index := map[*mqo.Object]map[int]int{} // source vertex -> vertex
	for _, o := range out.Objects {
		if targetOf[o.Name] != nil {
			continue
		}
		if !o.Visible {
			c.Fatalf("object %q is hidden", o.Name)
		}
		idx := map[int]int{}
		index[o] = idx
		ws := boneWeights(out, o)
		for i, v := range o.Vertexes {
			s := vertexAt(src, gen.V(v), 1)
			if s < 0 {
				c.Fatalf("object %q: vertex %v is not in the source", o.Name, *v)
			}
			if _, dup := idx[s]; dup {
				c.Fatalf("object %q: vertex %d appears twice", o.Name, s)
			}
			idx[s] = i
			where[s] = append(where[s], o)
			if w := weightsOf(src.Vertexes[s], len(src.Bones)); !sameWeights(ws[i], w, 1e-4) {
				c.Fatalf("object %q vertex %d: weights %v, want %v", o.Name, s, ws[i], w)
			}
		}
		for _, f := range o.Faces {
			if len(f.Verts) != 3 || len(f.UVs) != 3 || len(f.Normals) != 3 {
				c.Fatalf("object %q: face %+v", o.Name, *f)
			}
			var s [3]int
			for k, v := range f.Verts {
				s[k] = vertexAt(src, gen.V(o.Vertexes[v]), 1)
				sv := src.Vertexes[s[k]]
				if f.UVs[k] != sv.UV || f.Normals[k] == nil || gen.V(f.Normals[k]).Dist(mirror(sv.Normal)) > 1e-6 {
					c.Fatalf("object %q: corner of vertex %d has uv %v normal %v, want %v %v", o.Name, s[k], f.UVs[k], f.Normals[k], sv.UV, mirror(sv.Normal))
				}
			}
			k := key{s[0], s[1], s[2], f.Material}
			want[k]--
			if want[k] < 0 {
				c.Fatalf("object %q: face %v is not in the source (or too often)", o.Name, k)
			}
		}
	}
	for k, n := range want {
		if n != 0 {
			c.Fatalf("face %v was lost", k)
		}
	}
	// morphs
	morphs := 0
	for _, m := range src.Morphs {
		off := map[int]gen.P3{}
		uv := map[int][2]float64{}
		used := false
		for _, v := range m.Vertex {
			off[v.Target] = off[v.Target].Add(mirror(v.Offset))
			used = used || len(where[v.Target]) > 0
		}
		for _, v := range m.UV {
			uv[v.Target] = [2]float64{uv[v.Target][0] + float64(v.Value.X), uv[v.Target][1] + float64(v.Value.Y)}
			used = used || len(where[v.Target]) > 0
		}
		l := targetOf[m.Name]
		if !used {
			if l != nil && len(m.Vertex)+len(m.UV) == 0 {
				c.Fatalf("morph %q should not be a shape", m.Name)
			}
			continue
		}
		morphs++
		if l == nil {
			c.Fatalf("morph %q was lost", m.Name)
		}
		base, o := byName[l.Base], byName[m.Name]
		if base == nil || o == nil || o.Visible || len(base.Vertexes) != len(o.Vertexes) || len(base.Faces) != len(o.Faces) {
			c.Fatalf("morph %q: target %v does not match its base %v", m.Name, o, base)
		}
		for s := range off {
			for _, x := range where[s] {
				if x != base {
					c.Fatalf("morph %q moves vertex %d, which is also in object %q", m.Name, s, x.Name)
				}
			}
		}
		for s, i := range index[base] {
			w := gen.V(base.Vertexes[i]).Add(off[s])
			if gen.V(o.Vertexes[i]).Dist(w) > 1e-2 {
				c.Fatalf("morph %q vertex %d is at %v, want %v", m.Name, s, *o.Vertexes[i], w)
			}
		}
		for k, f := range o.Faces {
			bf := base.Faces[k]
			if fmt.Sprint(f.Verts) != fmt.Sprint(bf.Verts) || f.Material != bf.Material || len(f.UVs) != 3 {
				c.Fatalf("morph %q: face %v, want %v", m.Name, f, bf)
			}
			for j, v := range f.Verts {
				d := uv[vertexAt(src, gen.V(base.Vertexes[v]), 1)]
				if math.Abs(float64(f.UVs[j].X)-float64(bf.UVs[j].X)-d[0]) > 1e-4 || math.Abs(float64(f.UVs[j].Y)-float64(bf.UVs[j].Y)-d[1]) > 1e-4 {
					c.Fatalf("morph %q: uv %v, want %v moved by %v", m.Name, f.UVs[j], bf.UVs[j], d)
				}
			}
		}
		for i, w := range boneWeights(out, o) {
			if len(w) > 0 {
				c.Fatalf("morph target %q vertex %d has weights", m.Name, i)
			}
		}
	}
	// materials
	n := len(src.Materials)
	if len(out.Materials) < n {
		c.Fatalf("%d materials, want %d", len(out.Materials), n)
	}
	near4 := func(a geom.Vector4, b [4]float64) bool {
		return math.Abs(float64(a.X)-b[0]) < 1e-5 && math.Abs(float64(a.Y)-b[1]) < 1e-5 && math.Abs(float64(a.Z)-b[2]) < 1e-5 && math.Abs(float64(a.W)-b[3]) < 1e-5
	}
	col := func(v geom.Vector4) [4]float64 {
		return [4]float64{float64(v.X), float64(v.Y), float64(v.Z), float64(v.W)}
	}
	for i, m := range src.Materials {
		g := out.Materials[i]
		tex := ""
		if m.TextureID >= 0 {
			tex = src.Textures[m.TextureID]
		}
		if g.Name != m.Name || !near4(g.Color, col(m.Color)) || g.Power != m.Specularity || g.DoubleSided != (m.Flags&1 != 0) || g.Texture != tex {
			c.Fatalf("material %d: %+v, want %+v with texture %q", i, *g, *m, tex)
		}
		if e, _ := g.Ex2.ShaderParams["Edge"].(bool); e != (m.EdgeScale > 0) {
			c.Fatalf("material %d: edge %v, want %v", i, e, m.EdgeScale)
		}
	}
	for _, m := range src.Morphs {
		for _, x := range m.Material {
			if x.Target < 0 {
				continue
			}
			if n >= len(out.Materials) {
				c.Fatalf("material morph %q was lost", m.Name)
			}
			g := out.Materials[n]
			n++
			base := src.Materials[x.Target]
			a, b := col(base.Color), col(x.Diffuse)
			for k := range a {
				if x.Flags == 1 {
					a[k] += b[k]
				} else {
					a[k] *= b[k]
				}
			}
			if g.Name != "$MORPH:"+m.Name+":"+base.Name || !near4(g.Color, a) {
				c.Fatalf("material morph %q: %q %v, want %v", m.Name, g.Name, g.Color, a)
			}
			if b := out.Materials[x.Target]; g.Texture != b.Texture || g.DoubleSided != b.DoubleSided {
				c.Fatalf("material morph %q: %+v, want %+v in the morph's color", m.Name, *g, *b)
			}
		}
	}
	if len(out.Materials) != n {
		c.Fatalf("%d materials, want %d", len(out.Materials), n)
	}
	checkMMDBones(c, src, out, opt)
	checkMMDPhysics(c, src, out)
	c.LabelIf(morphs > 0, "morphs")
	c.LabelIf(len(src.Faces) > 0, "faces")
	c.LabelIf(len(src.Bodies) > 0, "bodies")
	if len(src.Faces) > 0 {
		c.NonTrivial(hx.Dump(src))
	}
}

func checkMMDBones(c *hx.C, src *mmd.Document, out *mqo.Document, opt *converter.MMDToMQOOption) {
	bones := mqo.GetBonePlugin(out).Bones()
	if len(bones) != len(src.Bones) {
		c.Fatalf("%d bones, want %d", len(bones), len(src.Bones))
	}
	ids := map[int]int{}
	for i, b := range bones {
		if _, dup := ids[b.ID]; dup || b.ID <= 0 {
			c.Fatalf("bone id %d", b.ID)
		}
		ids[b.ID] = i
	}
	for i, s := range src.Bones {
		b := bones[i]
		parent := s.ParentID
		if s.Flags&0x100 != 0 && opt != nil && s.InheritParentInfluence > opt.InheritParentThreshold && s.InheritParentID >= 0 {
			for _, n := range opt.KnownBoneNames {
				if n == src.Bones[s.InheritParentID].Name {
					parent = s.InheritParentID
				}
			}
		}
		got := -1
		if b.Parent > 0 {
			p, ok := ids[b.Parent]
			if !ok {
				c.Fatalf("bone %d: unknown parent %d", i, b.Parent)
			}
			got = p
		}
		if b.Name != s.Name || got != parent || b.Group != s.Layer || gen.V(&b.Pos.Vector3).Dist(mirror(s.Pos)) > 1e-4 || (b.Movable != 0) != (s.Flags&4 != 0) {
			c.Fatalf("bone %d: %+v parent %d, want %+v parent %d", i, *b, got, *s, parent)
		}
	}
	ik := map[int]*mmd.Bone{}
	for _, s := range src.Bones {
		if len(s.IK.Links) > 0 && s.IK.TargetID >= 0 {
			ik[s.IK.TargetID] = s // the last one counts
		}
	}
	for i, b := range bones {
		s := ik[i]
		if (s != nil) != (b.IK != nil) || s != nil && (b.IK.Name != s.Name || b.IK.ChainCount != len(s.IK.Links)+1) {
			c.Fatalf("bone %d: ik %+v, want %+v", i, b.IK, s)
		}
		if s != nil && s.Flags&1 != 0 && s.TailID > 0 && b.IK.TipName != src.Bones[s.TailID].Name {
			c.Fatalf("bone %d: ik tip %q, want %q", i, b.IK.TipName, src.Bones[s.TailID].Name)
		}
	}
}

func checkMMDPhysics(c *hx.C, src *mmd.Document, out *mqo.Document) {
	ph := mqo.GetPhysicsPlugin(out)
	if len(ph.Bodies) != len(src.Bodies) || len(ph.Constraints) != len(src.Joints) {
		c.Fatalf("%d bodies %d joints, want %d and %d", len(ph.Bodies), len(ph.Constraints), len(src.Bodies), len(src.Joints))
	}
	ids := map[int]int{}
	for i, b := range mqo.GetBonePlugin(out).Bones() {
		ids[b.ID] = i
	}
	for i, s := range src.Bodies {
		b := ph.Bodies[i]
		bone := -1
		if b.TargetBoneID != 0 {
			bone = ids[b.TargetBoneID]
		}
		if b.Name != s.Name || bone != s.Bone || b.Mass != s.Mass || b.Kinematic != (s.Mode == 0) || b.CollisionGroup != s.Group || b.CollisionMask != s.GroupTarget ||
			b.LinearDamping != s.LinearDamping || b.AngularDamping != s.AngularDamping || b.Restitution != s.Restitution || b.Friction != s.Friction || len(b.Shapes) != 1 {
			c.Fatalf("body %d: %+v (bone %d), want %+v", i, *b, bone, *s)
		}
		sh := b.Shapes[0]
		if sh.Type != []string{"SPHERE", "BOX", "CAPSULE"}[s.Shape] || *sh.Size.Vec3() != s.Size || gen.V(sh.Position.Vec3()).Dist(mirror(s.Position)) > 1e-4 || *sh.Rotation.Vec3() != s.Rotation {
			c.Fatalf("body %d: shape %+v, want %+v", i, *sh, *s)
		}
	}
	for i, s := range src.Joints {
		j := ph.Constraints[i]
		if j.Name != s.Name || j.Body1 != s.Body1+1 || j.Body2 != s.Body2+1 || gen.V(j.Position.Vec3()).Dist(mirror(s.Position)) > 1e-4 || *j.Rotation.Vec3() != s.Rotation ||
			*j.LinerSpring.Vec3() != s.LinerSpring || *j.AngulerSpring.Vec3() != s.AngulerSpring {
			c.Fatalf("joint %d: %+v, want %+v", i, *j, *s)
		}
	}
}

func TestC12(t *testing.T) {
	hx.Main(t, "C12", hx.Leg{Name: "model", Quick: 1500, Prop: propMMDToMQO})
}

// ---- MQO to MMD

const mmdScale = 1.0 / 80

func propMQOToMMD(c *hx.C) {
	o := gen.FullModel()
	o.Textures, o.GlTFShader, o.NoNormals = false, false, true
	o.Physics = true
	m := gen.DrawModel(c.T, o, "")
	doc := m.Doc
	isTarget := map[string]string{}
	for _, l := range mqo.GetMorphPlugin(doc).Morphs() {
		for _, t := range l.Target {
			isTarget[t.Name] = l.Base
		}
	}
	// put every object at a place of its own
	slot := map[string]int{}
	var slots []*mqo.Object
	byName := map[string]*mqo.Object{}
	for _, x := range doc.Objects {
		byName[x.Name] = x
		if _, ok := isTarget[x.Name]; !ok {
			slot[x.Name] = len(slots)
			slots = append(slots, x)
		}
	}
	for _, x := range doc.Objects {
		n := x.Name
		if b, ok := isTarget[n]; ok {
			n = b
		}
		for i, v := range x.Vertexes {
			x.Vertexes[i] = &geom.Vector3{X: v.X + 10000*float32(slot[n]), Y: v.Y, Z: v.Z}
		}
	}
	for i, x := range doc.Materials {
		if gen.Bool(c.T, "tex") {
			x.Texture = fmt.Sprintf("tex%d.png", rapid.IntRange(0, i).Draw(c.T, "texn"))
		}
	}
	src := hx.Clone(doc)
	c.DescF(func() string { return gen.DescribeMQO(src) })
	gen.DropUIDs(c.T, doc)
	out, err := converter.NewMQOToMMDConverter(nil).Convert(doc)
	if err != nil {
		c.Fatalf("conversion failed: %v", err)
	}
	checkPMXRefs(c, out)
	locate := func(p geom.Vector3) (*mqo.Object, int) {
		q := mirror(p).Scale(1 / mmdScale)
		k := int(math.Floor((q[0] + 5000) / 10000))
		if k < 0 || k >= len(slots) {
			return nil, -1
		}
		x := slots[k]
		best, bd := -1, 0.1
		for i, v := range x.Vertexes {
			if d := gen.V(v).Dist(q); d < bd {
				best, bd = i, d
			}
		}
		return x, best
	}
	type vref struct {
		o *mqo.Object
		v int
	}
	refs := make([]vref, len(out.Vertexes))
	bones := mqo.GetBonePlugin(src).Bones()
	weights := map[*mqo.Object][]map[int]float64{}
	smooth := map[*mqo.Object][]gen.P3{}
	slotsSrc := map[string]*mqo.Object{}
	for _, x := range src.Objects {
		slotsSrc[x.Name] = x
	}
	for i := range slots {
		slots[i] = slotsSrc[slots[i].Name]
		weights[slots[i]] = boneWeights(src, slots[i])
		smooth[slots[i]] = smoothNormals(slots[i])
	}
	for i, v := range out.Vertexes {
		x, vi := locate(v.Pos)
		if vi < 0 {
			c.Fatalf("vertex %d at %v is not in the source", i, v.Pos)
		}
		refs[i] = vref{x, vi}
		if w := smooth[x][vi]; w.Len() > 0.05 && mirror(v.Normal).Dist(w.Norm()) > 5e-3 {
			c.Fatalf("object %q vertex %d: normal %v, want %v mirrored", x.Name, vi, v.Normal, w.Norm())
		}
		checkTopWeights(c, fmt.Sprintf("object %q vertex %d", x.Name, vi), weightsOf(v, len(out.Bones)), weights[x][vi])
	}
	// faces
	matOf := func(f *mqo.Face) int { // the last one for faces without material
		if f.Material < 0 || f.Material >= len(src.Materials) {
			return len(src.Materials)
		}
		return f.Material
	}
	mats := append([]*mqo.Material{}, src.Materials...)
	for _, x := range slots {
		for _, f := range x.Faces {
			if x.Visible && len(f.Verts) >= 3 && matOf(f) == len(mats) {
				mats = append(mats, nil)
				c.Label("faces without material")
			}
		}
	}
	if len(out.Materials) != len(mats) {
		c.Fatalf("%d materials, want %d", len(out.Materials), len(mats))
	}
	fi := 0
	for mi, sm := range mats {
		g := out.Materials[mi]
		tex := ""
		if sm == nil {
			sm = &mqo.Material{Name: g.Name, Color: g.Color, Power: g.Specularity, DoubleSided: g.Flags&1 != 0}
		}
		if g.TextureID < -1 || g.EnvID < -1 || g.Toon < -1 {
			c.Fatalf("material %q: textures %d %d %d", sm.Name, g.TextureID, g.EnvID, g.Toon)
		}
		if g.TextureID >= 0 {
			tex = out.Textures[g.TextureID]
		}
		if g.Name != sm.Name || g.Color != sm.Color || g.Specularity != sm.Power || tex != sm.Texture || (g.Flags&1 != 0) != sm.DoubleSided {
			c.Fatalf("material %d: %+v texture %q, want %+v", mi, *g, tex, *sm)
		}
		edges := map[string]int{}
		add := func(x *mqo.Object, a, b, n int) {
			if a > b {
				a, b, n = b, a, -n
			}
			edges[fmt.Sprintf("%s %d %d", x.Name, a, b)] += n
		}
		tris := 0
		faces := map[*mqo.Object][]*mqo.Face{}
		for _, x := range slots {
			if !x.Visible {
				continue
			}
			for _, f := range x.Faces {
				if len(f.Verts) < 3 || matOf(f) != mi {
					continue
				}
				faces[x] = append(faces[x], f)
				tris += len(f.Verts) - 2
				for i := range f.Verts {
					add(x, f.Verts[i], f.Verts[(i+1)%len(f.Verts)], -1)
				}
			}
		}
		if g.Count != tris*3 {
			c.Fatalf("material %d has %d corners, want %d", mi, g.Count, tris*3)
		}
		for ; tris > 0; tris-- {
			if fi >= len(out.Faces) {
				c.Fatalf("faces of material %d are missing", mi)
			}
			f := out.Faces[fi]
			fi++
			x := refs[f.Verts[0]].o
			var t [3]corner
			for k, v := range f.Verts {
				if refs[v].o != x {
					c.Fatalf("face %d connects objects", fi-1)
				}
				uv := out.Vertexes[v].UV
				t[2-k] = corner{v: refs[v].v, uv: [2]float64{float64(uv.X), float64(uv.Y)}, ok: true}
				add(x, refs[v].v, refs[f.Verts[(k+1)%3]].v, 1)
			}
			if !inSomeFace(faces[x], t, func(*mqo.Face) bool { return true }) {
				c.Fatalf("face %d of material %d is not part of a face of object %q with these texture coordinates: %v", fi-1, mi, x.Name, t)
			}
		}
		for e, n := range edges {
			if n != 0 {
				c.Fatalf("material %d: the triangles do not tile the faces at %s (%d)", mi, e, n)
			}
		}
	}
	if fi != len(out.Faces) {
		c.Fatalf("%d faces belong to no material", len(out.Faces)-fi)
	}
	// morphs
	var targets []*mqo.MorphTarget
	for _, l := range mqo.GetMorphPlugin(src).Morphs() {
		targets = append(targets, l.Target...)
	}
	if len(out.Morphs) != len(targets) {
		c.Fatalf("%d morphs, want %d", len(out.Morphs), len(targets))
	}
	for k, t := range targets {
		mo := out.Morphs[k]
		if mo.Name != t.Name || mo.MorphType != 1 {
			c.Fatalf("morph %d: %+v, want a vertex morph %q", k, *mo, t.Name)
		}
		off := map[int]gen.P3{}
		for _, v := range mo.Vertex {
			off[v.Target] = off[v.Target].Add(mirror(v.Offset))
		}
		x := slotsSrc[t.Name]
		for i, r := range refs {
			want := gen.P3{}
			if x != nil && isTarget[t.Name] == r.o.Name {
				want = gen.V(x.Vertexes[r.v]).Sub(gen.V(r.o.Vertexes[r.v])).Scale(mmdScale)
			}
			if off[i].Dist(want) > 1e-4 {
				c.Fatalf("morph %q moves vertex %d of %q by %v, want %v (mirrored)", t.Name, r.v, r.o.Name, off[i], want)
			}
		}
	}
	// bones
	ids := map[int]int{}
	for i, b := range bones {
		ids[b.ID] = i
	}
	if len(out.Bones) != len(bones) {
		c.Fatalf("%d bones, want %d", len(out.Bones), len(bones))
	}
	for i, b := range bones {
		g := out.Bones[i]
		parent := -1
		if p, ok := ids[b.Parent]; ok && b.Parent > 0 {
			parent = p
		}
		if g.Name != b.Name || g.ParentID != parent || mirror(g.Pos).Dist(gen.V(&b.Pos.Vector3).Scale(mmdScale)) > 1e-4 {
			c.Fatalf("bone %d: %+v, want %+v with parent %d", i, *g, *b, parent)
		}
		if g.Flags&^1 != 2|8|16 {
			c.Fatalf("bone %d has flags %x, want a visible bone that can be turned", i, g.Flags)
		}
		if g.Flags&1 != 0 && (g.TailID < 0 || out.Bones[g.TailID].ParentID != i) {
			c.Fatalf("bone %d: the tail %d is not a child", i, g.TailID)
		}
	}
	// bodies
	n := 0
	for _, b := range mqo.GetPhysicsPlugin(src).Bodies {
		bone := -1
		if i, ok := ids[b.TargetBoneID]; ok {
			bone = i
		}
		seen := map[string]bool{}
		for k, s := range b.Shapes {
			if n >= len(out.Bodies) {
				c.Fatalf("bodies are missing")
			}
			g := out.Bodies[n]
			n++
			if k == 0 && g.Name != b.Name || !strings.HasPrefix(g.Name, b.Name) || seen[g.Name] {
				c.Fatalf("body %d is called %q, for shape %d of %q", n-1, g.Name, k, b.Name)
			}
			seen[g.Name] = true
			if g.Shape != map[string]uint8{"SPHERE": 0, "BOX": 1, "CAPSULE": 2}[s.Type] || g.Bone != bone || (g.Mode == 0) != b.Kinematic || g.Mass != b.Mass || g.Group != b.CollisionGroup || g.GroupTarget != b.CollisionMask ||
				g.LinearDamping != b.LinearDamping || g.AngularDamping != b.AngularDamping || g.Restitution != b.Restitution || g.Friction != b.Friction ||
				mirror(g.Position).Dist(gen.V(s.Position.Vec3()).Scale(mmdScale)) > 1e-4 || gen.V(&g.Size).Dist(gen.V(s.Size.Vec3()).Scale(mmdScale)) > 1e-4 {
				c.Fatalf("body %d: %+v, want %+v shape %+v on bone %d", n-1, *g, *b, *s, bone)
			}
		}
	}
	if n != len(out.Bodies) {
		c.Fatalf("%d bodies, want %d", len(out.Bodies), n)
	}
	c.LabelIf(len(targets) > 0, "morphs")
	c.LabelIf(len(bones) > 0, "bones")
	if len(out.Faces) > 0 {
		c.NonTrivial(gen.DescribeMQO(src))
	}
}

// checkTopWeights: all influences if there are at most four, else the four
// largest rescaled to one.
func checkTopWeights(c *hx.C, what string, got, src map[int]float64) {
	type bw struct {
		b int
		w float64
	}
	var all []bw
	for b, w := range src {
		all = append(all, bw{b, w})
	}
	sort.Slice(all, func(i, j int) bool { return all[i].w > all[j].w })
	n := len(all)
	if n > 4 {
		n = 4
	}
	total := 1.0
	if len(all) > 4 {
		total = 0
		for _, a := range all[:n] {
			total += a.w
		}
	}
	if len(got) != n {
		c.Fatalf("%s: influences %v, want %d of %v", what, got, n, all)
	}
	if n == 0 {
		return
	}
	smallest := all[n-1].w
	for _, a := range all {
		if g, ok := got[a.b]; ok {
			if math.Abs(g-a.w/total) > 1e-4 || a.w < smallest-1e-6 {
				c.Fatalf("%s: bone %d has weight %v, want %v of %v", what, a.b, g, a.w, total)
			}
		} else if a.w > smallest+1e-6 {
			c.Fatalf("%s: bone %d with weight %v is missing: %v", what, a.b, a.w, got)
		}
	}
}

// checkPMXRefs: every reference is in range, and the file can be written and
// read back.
func checkPMXRefs(c *hx.C, d *mmd.Document) {
	in := func(what string, i, lo, n int) {
		if i < lo || i >= n {
			c.Fatalf("%s refers to %d of %d", what, i, n)
		}
	}
	for i, v := range d.Vertexes {
		if len(v.Bones) > 4 || len(v.Bones) != len(v.BoneWeights) {
			c.Fatalf("vertex %d has %d bones and %d weights", i, len(v.Bones), len(v.BoneWeights))
		}
		for _, b := range v.Bones {
			in("vertex", b, -1, len(d.Bones))
		}
	}
	for _, f := range d.Faces {
		for _, v := range f.Verts {
			in("face", v, 0, len(d.Vertexes))
		}
	}
	for _, m := range d.Materials {
		in("texture of a material", m.TextureID, -1, len(d.Textures))
		in("sphere texture of a material", m.EnvID, -1, len(d.Textures))
		in("toon texture of a material", m.Toon, -1, len(d.Textures))
	}
	for _, b := range d.Bones {
		in("parent of a bone", b.ParentID, -1, len(d.Bones))
		in("tail of a bone", b.TailID, -1, len(d.Bones))
	}
	for _, m := range d.Morphs {
		for _, v := range m.Vertex {
			in("morph", v.Target, 0, len(d.Vertexes))
		}
	}
	for _, b := range d.Bodies {
		in("body", b.Bone, -1, len(d.Bones))
	}
	var buf bytes.Buffer
	if err := mmd.WritePMX(hx.Clone(d), &buf); err != nil {
		c.Fatalf("cannot be written: %v", err)
	}
	r, err := gen.DecodePMX(buf.Bytes())
	if err != nil {
		c.Fatalf("the written file is damaged: %v", err)
	}
	if len(r.Vertexes) != len(d.Vertexes) || len(r.Faces) != len(d.Faces) || len(r.Bones) != len(d.Bones) || len(r.Morphs) != len(d.Morphs) || len(r.Bodies) != len(d.Bodies) || len(r.Materials) != len(d.Materials) {
		c.Fatalf("the written file lost elements")
	}
}

// PMX to MQO and back keeps what both formats can hold.
func propMMDRound(c *hx.C) {
	src := drawPMX(c)
	for _, v := range src.Vertexes {
		// distinct unit normals and full weights
		n := gen.V(&v.Normal)
		if n.Len() < 0.1 {
			n = gen.P3{0, 1, 0}
		}
		v.Normal = *n.Norm().Geom()
		sum := float32(0)
		k := len(v.Bones)
		for _, w := range v.BoneWeights[:k] {
			sum += w
		}
		for i := range v.BoneWeights[:k] {
			if sum > 0 {
				v.BoneWeights[i] /= sum
			}
		}
	}
	c.DescF(func() string { return hx.Dump(src) })
	mq := converter.NewMMDToMQOConverter(nil).Convert(hx.Clone(src))
	out, err := converter.NewMQOToMMDConverter(nil).Convert(mq)
	if err != nil {
		c.Fatalf("conversion failed: %v", err)
	}
	checkPMXRefs(c, out)
	at := func(p geom.Vector3) int {
		q := gen.V(&p).Scale(1 / mmdScale)
		i := int(math.Floor((q[0] + 150) / 300))
		if i < 0 || i >= len(src.Vertexes) || gen.V(&src.Vertexes[i].Pos).Dist(q) > 1e-2 {
			return -1
		}
		return i
	}
	refs := make([]int, len(out.Vertexes))
	for i, v := range out.Vertexes {
		s := at(v.Pos)
		if s < 0 {
			c.Fatalf("vertex %d at %v is not in the source", i, v.Pos)
		}
		refs[i] = s
		sv := src.Vertexes[s]
		if v.UV != sv.UV || gen.V(&v.Normal).Dist(gen.V(&sv.Normal)) > 1e-3 {
			c.Fatalf("vertex %d: uv %v normal %v, want %v %v", s, v.UV, v.Normal, sv.UV, sv.Normal)
		}
		if w := weightsOf(sv, len(src.Bones)); !sameWeights(weightsOf(v, len(out.Bones)), w, 1e-3) {
			c.Fatalf("vertex %d: weights %v, want %v", s, weightsOf(v, len(out.Bones)), w)
		}
	}
	fi, oi := 0, 0
	for mi, m := range src.Materials {
		g := out.Materials[mi]
		if g.Count != m.Count || g.Name != m.Name || g.Color != m.Color || g.Flags&1 != m.Flags&1 {
			c.Fatalf("material %d: %+v, want %+v", mi, *g, *m)
		}
		want := map[[3]int]int{}
		for k := 0; k < m.Count/3; k++ {
			want[src.Faces[fi].Verts]++
			f := out.Faces[oi].Verts
			want[[3]int{refs[f[0]], refs[f[1]], refs[f[2]]}]--
			fi++
			oi++
		}
		for f, n := range want {
			if n != 0 {
				c.Fatalf("material %d face %v: %d lost (negative: new)", mi, f, n)
			}
		}
	}
	used := map[int]bool{}
	for _, f := range src.Faces[:fi] {
		for _, v := range f.Verts {
			used[v] = true
		}
	}
	morph := map[string]*mmd.Morph{}
	for _, m := range out.Morphs {
		morph[m.Name] = m
	}
	for _, m := range src.Morphs {
		off := map[int]gen.P3{}
		for _, v := range m.Vertex {
			if used[v.Target] {
				off[v.Target] = off[v.Target].Add(gen.V(&v.Offset))
			}
		}
		if len(off) == 0 {
			continue
		}
		g := morph[m.Name]
		if g == nil {
			c.Fatalf("morph %q was lost", m.Name)
		}
		got := map[int]gen.P3{}
		for _, v := range g.Vertex {
			got[v.Target] = got[v.Target].Add(gen.V(&v.Offset))
		}
		for i, s := range refs {
			if got[i].Scale(1/mmdScale).Dist(off[s]) > 1e-2 {
				c.Fatalf("morph %q vertex %d moves by %v, want %v", m.Name, s, got[i].Scale(1/mmdScale), off[s])
			}
		}
	}
	for i, b := range src.Bones {
		g := out.Bones[i]
		if g.Name != b.Name || g.ParentID != b.ParentID || gen.V(&g.Pos).Scale(1/mmdScale).Dist(gen.V(&b.Pos)) > 1e-2 {
			c.Fatalf("bone %d: %+v, want %+v", i, *g, *b)
		}
	}
	if len(out.Bodies) != len(src.Bodies) {
		c.Fatalf("%d bodies, want %d", len(out.Bodies), len(src.Bodies))
	}
	for i, b := range src.Bodies {
		g := out.Bodies[i]
		if g.Name != b.Name || g.Bone != b.Bone || g.Shape != b.Shape || (g.Mode == 0) != (b.Mode == 0) || gen.V(&g.Position).Scale(1/mmdScale).Dist(gen.V(&b.Position)) > 1e-2 ||
			gen.V(&g.Size).Scale(1/mmdScale).Dist(gen.V(&b.Size)) > 1e-2 || g.Mass != b.Mass || g.Rotation != b.Rotation {
			c.Fatalf("body %d: %+v, want %+v", i, *g, *b)
		}
	}
	if fi > 0 {
		c.NonTrivial(hx.Dump(src))
	}
}

func TestC13(t *testing.T) {
	hx.Main(t, "C13",
		hx.Leg{Name: "model", Quick: 900, Prop: propMQOToMMD},
		hx.Leg{Name: "roundtrip", Quick: 900, Prop: propMMDRound},
	)
}
