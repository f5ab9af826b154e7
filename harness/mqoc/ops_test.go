package mqoc

import (
	"fmt"
	"math"
	"testing"

	"github.com/binzume/modelconv/geom"
	"github.com/binzume/modelconv/mqo"
	"pgregory.net/rapid"

	"verif/harness/gen"
	"verif/harness/hx"
)

func near(c *hx.C, what string, got *geom.Vector3, want gen.P3, tol float64) {
	if got == nil {
		c.Fatalf("%s: missing", what)
	}
	if d := gen.V(got).Dist(want); !(d <= tol) {
		c.Fatalf("%s: got %v, want %v (tolerance %g)", what, *got, want, tol)
	}
}

func deg(a float64) float64 { return a * math.Pi / 180 }

// reference: heading (Y), then pitch (X), then bank (Z), applied innermost last.
func refRot(r *geom.Vector3) gen.M {
	return gen.RotY(deg(float64(r.Y))).Mul(gen.RotX(deg(float64(r.X)))).Mul(gen.RotZ(deg(float64(r.Z))))
}

func refLocal(o *mqo.Object) gen.M {
	return gen.TransM(gen.V(o.Translation)).Mul(refRot(o.Rotation)).Mul(gen.ScaleM(gen.V(o.Scale)))
}

func drawTRS(c *hx.C, o *mqo.Object, uniform bool) {
	s := gen.Pos(c.T, "s")
	o.Scale = &geom.Vector3{X: float32(s), Y: float32(s), Z: float32(s)}
	if !uniform {
		o.Scale.Y, o.Scale.Z = float32(gen.Pos(c.T, "sy")), float32(gen.Pos(c.T, "sz"))
	}
	r := geom.Vector3{X: float32(gen.Angle(c.T, "rx") / math.Pi * 180), Y: float32(gen.Angle(c.T, "ry") / math.Pi * 180), Z: float32(gen.Angle(c.T, "rz") / math.Pi * 180)}
	if gen.Chance(c.T, "norot", 4) {
		r = geom.Vector3{}
	}
	o.Rotation = &r
	t := gen.V3(c.T, "t", 100)
	o.Translation = &t
}

func propLocal(c *hx.C) {
	o := mqo.NewObject("o")
	drawTRS(c, o, false)
	c.Desc("t %v r %v s %v", *o.Translation, *o.Rotation, *o.Scale)
	c.NonTrivial(fmt.Sprint(*o.Translation, *o.Rotation, *o.Scale))
	want := refLocal(o)
	scale := want.MaxAbs()
	if d := gen.MatOf(o.GetLocalTransform()).MaxDiff(want); d > 1e-4*scale {
		c.Fatalf("local transform is off by %g: got %v want %v", d, *o.GetLocalTransform(), want)
	}
	// single precision sine leaves some play next to pitch = +-90 degrees
	rtol := 1e-3
	if math.Abs(math.Sin(deg(float64(o.Rotation.X)))) > 0.9999 {
		rtol = 6e-3
	}
	// setting it again describes the same placement
	o2 := mqo.NewObject("o2")
	o2.SetLocalTransform(want.Geom())
	if d := refLocal(o2).MaxDiff(want); d > rtol*scale {
		c.Fatalf("SetLocalTransform: off by %g: t %v r %v s %v gives %v, want %v", d, *o2.Translation, *o2.Rotation, *o2.Scale, refLocal(o2), want)
	}
	// and a rotation given as a quaternion
	q := gen.QuatOf(refRot(o.Rotation))
	o2.SetRotation(geom.NewQuaternion(float32(q[0]), float32(q[1]), float32(q[2]), float32(q[3])))
	if d := refRot(o2.Rotation).MaxDiff(refRot(o.Rotation)); d > rtol {
		c.Fatalf("SetRotation: off by %g: %v instead of %v", d, *o2.Rotation, *o.Rotation)
	}
	g := o2.GetRotation()
	if d := gen.QuatM(float64(g.X), float64(g.Y), float64(g.Z), float64(g.W)).MaxDiff(refRot(o.Rotation)); d > rtol {
		c.Fatalf("GetRotation after SetRotation: off by %g", d)
	}
}

func propWorld(c *hx.C) {
	doc := mqo.NewDocument()
	n := gen.Int(c.T, "n", 1, 8)
	depth := 0
	var parents []int
	last := map[int]int{}
	for i := 0; i < n; i++ {
		o := mqo.NewObject(fmt.Sprint("o", i))
		drawTRS(c, o, false)
		if i > 0 {
			depth = gen.Int(c.T, "depth", 0, depth+1)
		}
		if gen.Chance(c.T, "skip level", 8) && i > 0 {
			depth++ // deeper than the previous one allows: still a child of it
		}
		o.Depth = depth
		p := -1
		for d := depth - 1; d >= 0; d-- {
			if x, ok := last[d]; ok {
				p = x
				break
			}
		}
		for d := range last {
			if d >= depth {
				delete(last, d)
			}
		}
		last[depth] = i
		parents = append(parents, p)
		doc.Objects = append(doc.Objects, o)
	}
	c.DescF(func() string { return gen.DescribeMQO(doc) })
	if n >= 3 {
		c.NonTrivial(hx.Dump(doc))
	}
	got := doc.GetWorldTransforms()
	if len(got) != n {
		c.Fatalf("%d transforms for %d objects", len(got), n)
	}
	world := make([]gen.M, n)
	mag := make([]float64, n)
	for i, o := range doc.Objects {
		l := refLocal(o)
		world[i], mag[i] = l, math.Max(1, l.MaxAbs())
		if parents[i] >= 0 {
			world[i] = world[parents[i]].Mul(l)
			mag[i] *= 3 * mag[parents[i]]
		}
		if got[o] == nil {
			c.Fatalf("no transform for object %d", i)
		}
		if d := gen.MatOf(got[o]).MaxDiff(world[i]); d > 1e-4*mag[i] {
			c.Fatalf("world transform of object %d (parent %d) is off by %g: got %v want %v", i, parents[i], d, *got[o], world[i])
		}
	}
}

// ApplyTransform moves everything the document holds.
func propTransform(c *hx.C) {
	o := gen.SmallMQO()
	o.Coord = 100
	doc := gen.MQODoc(c.T, o)
	for _, x := range doc.Objects {
		for _, v := range x.Vertexes {
			*v = gen.V3(c.T, "v", 100)
		}
		drawTRS(c, x, true)
		if gen.Chance(c.T, "internal", 3) {
			x.InternalTransform = gen.TransM(gen.V(x.Translation)).Mul(refRot(x.Rotation)).Geom()
		}
	}
	bp, _, pp := plugins(doc)
	if bp != nil {
		for _, b := range bp.Bones() {
			b.Pos.Vector3 = gen.V3(c.T, "bp", 100)
		}
	}
	if pp != nil {
		for _, b := range pp.Bodies {
			for _, s := range b.Shapes {
				p, z := gen.V3(c.T, "sp", 100), gen.V3(c.T, "ss", 10)
				s.Position = mqo.Vector3XmlAttr(p)
				s.Size = mqo.Vector3XmlAttr{X: float32(math.Abs(float64(z.X))), Y: float32(math.Abs(float64(z.Y))), Z: float32(math.Abs(float64(z.Z)))}
			}
		}
		for _, x := range pp.Constraints {
			x.Position = mqo.Vector3XmlAttr(gen.V3(c.T, "jp", 100))
		}
	}
	kind := gen.Int(c.T, "kind", 0, 3)
	var m gen.M
	s := gen.Pos(c.T, "scale")
	sv := gen.P3{s, s, s}
	switch kind {
	case 0:
		m = gen.ScaleM(sv)
	case 1:
		m = gen.TransM(gen.Pt(c.T, "tr", 100)).Mul(gen.RotM(c.T, "rot")).Mul(gen.ScaleM(sv))
	case 2: // non uniform
		sv = gen.P3{s, gen.Pos(c.T, "my"), gen.Pos(c.T, "mz")}
		m = gen.ScaleM(sv)
		for _, x := range doc.Objects {
			x.Rotation = &geom.Vector3{}
		}
	case 3: // -rot180
		m = gen.ScaleM(gen.P3{-1, 1, -1})
		sv = gen.P3{1, 1, 1}
	}
	m = gen.MatOf(m.Geom())
	nontrivial(c, doc)
	c.Desc("transform %v", m)
	c.Label(fmt.Sprint("kind", kind))
	before := hx.Clone(doc)
	doc.ApplyTransform(m.Geom())
	k := math.Max(1, m.MaxAbs())
	tol := 1e-3 * k
	for i, x := range doc.Objects {
		b := before.Objects[i]
		for j := range b.Vertexes {
			near(c, fmt.Sprintf("object %d vertex %d", i, j), x.Vertexes[j], m.Apply(gen.V(b.Vertexes[j])), tol)
		}
		for j, f := range b.Faces {
			g := x.Faces[j]
			if d := hx.Diff([]interface{}{g.Verts, g.UVs, g.Material, g.UID, len(g.Normals)}, []interface{}{f.Verts, f.UVs, f.Material, f.UID, len(f.Normals)}, 0); d != "" {
				c.Fatalf("object %d face %d: %s", i, j, d)
			}
			for l, n := range f.Normals {
				if n == nil {
					if g.Normals[l] != nil {
						c.Fatalf("a normal appeared")
					}
					continue
				}
				want := m.Normal(gen.V(n)).Norm()
				if g.Normals[l] == nil || !(gen.V(g.Normals[l]).Norm().Dist(want) < 1e-3) {
					c.Fatalf("object %d face %d normal %d: direction %v, want %v", i, j, l, g.Normals[l], want)
				}
			}
		}
		want := m.Mul(refLocal(b))
		if d := refLocal(x).MaxDiff(want); d > 8e-3*math.Max(1, want.MaxAbs()) {
			c.Fatalf("object %d: placement off by %g: got %v want %v", i, d, refLocal(x), want)
		}
		if b.InternalTransform != nil {
			want := m.Mul(gen.MatOf(b.InternalTransform))
			if d := gen.MatOf(x.InternalTransform).MaxDiff(want); d > 1e-3*math.Max(1, want.MaxAbs()) {
				c.Fatalf("object %d: internal transform off by %g", i, d)
			}
		}
	}
	b0, m0, p0 := plugins(before)
	bp, mp, pp := plugins(doc)
	if b0 != nil {
		for i, b := range b0.Bones() {
			near(c, "bone "+b.Name, &bp.Bones()[i].Pos.Vector3, m.Apply(gen.V(&b.Pos.Vector3)), tol)
			bp.Bones()[i].Pos = b.Pos
		}
		if d := hx.Diff(bp, b0, 0); d != "" {
			c.Fatalf("bones: %s", d)
		}
	}
	if m0 != nil {
		if d := hx.Diff(mp, m0, 0); d != "" {
			c.Fatalf("morphs: %s", d)
		}
	}
	if p0 != nil {
		for i, b := range p0.Bodies {
			for j, s := range b.Shapes {
				g := pp.Bodies[i].Shapes[j]
				near(c, "shape position", g.Position.Vec3(), m.Apply(gen.V(s.Position.Vec3())), tol)
				near(c, "shape size", g.Size.Vec3(), gen.P3{float64(s.Size.X) * sv[0], float64(s.Size.Y) * sv[1], float64(s.Size.Z) * sv[2]}, tol)
				g.Position, g.Size = s.Position, s.Size
				if kind == 1 || kind == 3 {
					g.Rotation = s.Rotation // no claim about how it turns
				}
				near(c, "shape rotation", g.Rotation.Vec3(), gen.V(s.Rotation.Vec3()), 1e-4)
				g.Rotation = s.Rotation
			}
		}
		for i, j := range p0.Constraints {
			g := pp.Constraints[i]
			near(c, "joint position", g.Position.Vec3(), m.Apply(gen.V(j.Position.Vec3())), tol)
			g.Position = j.Position
			if kind == 1 || kind == 3 {
				g.Rotation = j.Rotation
			}
			near(c, "joint rotation", g.Rotation.Vec3(), gen.V(j.Rotation.Vec3()), 1e-4)
			g.Rotation = j.Rotation
		}
		if d := hx.Diff(pp, p0, 0); d != "" {
			c.Fatalf("physics: %s", d)
		}
	}
}

// morphs: the base moves towards the target, other targets keep their offset.
func propMorph(c *hx.C) {
	doc := mqo.NewDocument()
	n := gen.Int(c.T, "verts", 1, 6)
	k := gen.Int(c.T, "targets", 1, 4)
	mk := func(name string, n int) *mqo.Object {
		o := mqo.NewObject(name)
		for i := 0; i < n; i++ {
			v := gen.V3(c.T, "v", 100)
			o.Vertexes = append(o.Vertexes, &v)
		}
		doc.Objects = append(doc.Objects, o)
		return o
	}
	list := &mqo.MorphTargetList{Base: "base"}
	odd := -1
	if k > 1 && gen.Chance(c.T, "oddtarget", 4) {
		odd = gen.Int(c.T, "odd", 0, k-1)
	}
	if gen.Bool(c.T, "targets first") {
		mk("other", n)
	}
	base := mk("base", n)
	for i := 0; i < k; i++ {
		nv := n
		if i == odd {
			nv++
		}
		mk(fmt.Sprint("t", i), nv)
		list.Target = append(list.Target, &mqo.MorphTarget{Name: fmt.Sprint("t", i)})
	}
	if gen.Chance(c.T, "missing", 4) {
		list.Target = append(list.Target, &mqo.MorphTarget{Name: "nowhere"})
	}
	mp := mqo.GetMorphPlugin(doc)
	mp.MorphSet.Targets = append(mp.MorphSet.Targets, list)
	// a second list on another base that has a target of the same name
	shares := "" // the target that both lists have
	if gen.Bool(c.T, "unrelated list") {
		mk("base2", n)
		mk("u", n)
		l2 := &mqo.MorphTargetList{Base: "base2", Target: []*mqo.MorphTarget{{Name: "u"}}}
		if gen.Bool(c.T, "shared target") {
			shares = fmt.Sprint("t", gen.Int(c.T, "shared", 0, k-1))
			l2.Target = append(l2.Target, &mqo.MorphTarget{Name: shares})
		}
		mp.MorphSet.Targets = append(mp.MorphSet.Targets, l2)
	}
	nm := gen.Int(c.T, "mats", 0, 3)
	for i := 0; i < nm; i++ {
		doc.Materials = append(doc.Materials, &mqo.Material{Name: fmt.Sprint("m", i), Color: gen.Col4(c.T, "col")})
	}
	which := gen.Int(c.T, "which", 0, k-1)
	name := fmt.Sprint("t", which)
	morphs := map[string]geom.Vector4{}
	if nm > 0 && gen.Bool(c.T, "material morph") {
		for i := 0; i < gen.Int(c.T, "mm", 1, 3); i++ {
			t := rapid.SampledFrom([]string{"m0", "m1", "m2", "gone"}).Draw(c.T, "mt")
			on := rapid.SampledFrom([]string{"t0", "t1", "x"}).Draw(c.T, "mname")
			nameOf := "$MORPH:" + on + ":" + t
			col := gen.Col4(c.T, "mcol")
			dup := false
			for _, m := range doc.Materials {
				dup = dup || m.Name == nameOf
			}
			if dup {
				continue
			}
			doc.Materials = append(doc.Materials, &mqo.Material{Name: nameOf, Color: col})
			if on == name {
				morphs[t] = col
			}
		}
	}
	value := gen.U(c.T, "value")
	before := hx.Clone(doc)
	c.DescF(func() string { return gen.DescribeMQO(before) + fmt.Sprint("apply ", name, " ", value) })
	c.NonTrivial(hx.Dump(doc) + name + fmt.Sprint(value))
	ok := mp.Apply(doc, name, value)
	effective := which != odd
	if ok != effective {
		c.Fatalf("Apply returned %v", ok)
	}
	get := func(d *mqo.Document, n string) *mqo.Object {
		for _, o := range d.Objects {
			if o.Name == n {
				return o
			}
		}
		return nil
	}
	for _, o := range before.Objects {
		g := get(doc, o.Name)
		for i := range o.Vertexes {
			want := gen.V(o.Vertexes[i])
			shift := gen.P3{}
			if effective {
				tv, bv := gen.V(get(before, name).Vertexes[min(i, n-1)]), gen.V(get(before, "base").Vertexes[min(i, n-1)])
				shift = tv.Sub(bv).Scale(float64(value))
			}
			isTarget := false
			for ti, t := range list.Target {
				isTarget = isTarget || t.Name == o.Name && ti != which && ti != odd
			}
			if o.Name == base.Name || isTarget {
				want = want.Add(shift)
			}
			if shares == name && effective && (o.Name == "base2" || o.Name == "u") {
				want = want.Add(gen.V(get(before, name).Vertexes[i]).Sub(gen.V(get(before, "base2").Vertexes[i])).Scale(float64(value)))
			}
			near(c, fmt.Sprintf("%s vertex %d", o.Name, i), g.Vertexes[i], want, 1e-3)
		}
	}
	for i, m := range before.Materials {
		want := m.Color
		if t, ok := morphs[m.Name]; ok {
			v := value
			want = geom.Vector4{X: m.Color.X*(1-v) + t.X*v, Y: m.Color.Y*(1-v) + t.Y*v, Z: m.Color.Z*(1-v) + t.Z*v, W: m.Color.W*(1-v) + t.W*v}
		}
		if d := hx.Diff(doc.Materials[i].Color, want, 1e-5); d != "" {
			c.Fatalf("material %q color: %s", m.Name, d)
		}
	}
}

func cornerKey(o *mqo.Object, f *mqo.Face, i int) string {
	s := fmt.Sprint(f.Verts[i], " ")
	if len(f.UVs) > 0 {
		s += fmt.Sprint(f.UVs[i])
	}
	if len(f.Normals) > 0 {
		if n := f.Normals[i]; n != nil {
			s += fmt.Sprint(" n", *n)
		}
	}
	return s
}

// triangulation keeps what belongs to each corner.
func propTriangulate(c *hx.C) {
	o := gen.SmallMQO()
	o.Coord = 50
	obj := mqo.NewObject("o")
	nf := gen.Int(c.T, "faces", 1, 4)
	var norm []gen.P3
	var area []float64
	for i := 0; i < nf; i++ {
		f := &mqo.Face{Material: gen.Int(c.T, "mat", 0, 3), UID: gen.Int(c.T, "uid", 0, 5)}
		k := gen.Int(c.T, "k", 3, 7)
		// star shaped polygon around a centre in a random plane
		ctr := gen.Pt(c.T, "ctr", 50)
		rot := gen.RotM(c.T, "plane")
		angs := make([]float64, k)
		base := rapid.Float64Range(0, 2*math.Pi).Draw(c.T, "a0")
		for j := range angs {
			angs[j] = base + 2*math.Pi*(float64(j)+rapid.Float64Range(-0.3, 0.3).Draw(c.T, "da"))/float64(k)
		}
		n := gen.P3{}
		var ps []gen.P3
		for j := 0; j < k; j++ {
			r := rapid.Float64Range(1, 10).Draw(c.T, "r")
			p := ctr.Add(rot.Apply(gen.P3{r * math.Cos(angs[j]), r * math.Sin(angs[j]), 0}))
			ps = append(ps, p)
			f.Verts = append(f.Verts, len(obj.Vertexes))
			obj.Vertexes = append(obj.Vertexes, p.Geom())
		}
		for j := 1; j+1 < k; j++ {
			n = n.Add(ps[j].Sub(ps[0]).Cross(ps[j+1].Sub(ps[0])))
		}
		norm = append(norm, n.Norm())
		area = append(area, n.Len())
		if gen.Bool(c.T, "uv") {
			for range f.Verts {
				f.UVs = append(f.UVs, gen.V2(c.T, "uv", 2))
			}
		}
		if gen.Bool(c.T, "normals") {
			for range f.Verts {
				if gen.Chance(c.T, "nil", 4) {
					f.Normals = append(f.Normals, nil)
				} else {
					n := gen.UnitV3(c.T, "n")
					f.Normals = append(f.Normals, &n)
				}
			}
		}
		obj.Faces = append(obj.Faces, f)
	}
	doc := mqo.NewDocument()
	doc.Objects = []*mqo.Object{obj}
	before := hx.Clone(obj)
	c.DescF(func() string { return gen.DescribeMQO(&mqo.Document{Objects: []*mqo.Object{before}}) })
	c.NonTrivial(hx.Dump(before))
	obj.Triangulate()
	if d := hx.Diff(obj.Vertexes, before.Vertexes, 0); d != "" {
		c.Fatalf("vertices changed: %s", d)
	}
	fi := 0
	for i, f := range before.Faces {
		own := map[int]int{}
		for j, v := range f.Verts {
			own[v] = j
		}
		sum := 0.0
		count := 0
		for fi < len(obj.Faces) {
			g := obj.Faces[fi]
			if len(g.Verts) != 3 {
				c.Fatalf("face with %d corners after triangulation", len(g.Verts))
			}
			if _, ok := own[g.Verts[0]]; !ok {
				break
			}
			if g.Material != f.Material {
				c.Fatalf("face %d: material %d became %d", i, f.Material, g.Material)
			}
			if (len(f.UVs) > 0) != (len(g.UVs) == 3) || (len(f.Normals) > 0) != (len(g.Normals) == 3) {
				c.Fatalf("face %d: %d UVs and %d normals became %d and %d", i, len(f.UVs), len(f.Normals), len(g.UVs), len(g.Normals))
			}
			for j, v := range g.Verts {
				k, ok := own[v]
				if !ok {
					c.Fatalf("triangle mixes corners of different faces")
				}
				if cornerKey(obj, g, j) != cornerKey(before, f, k) {
					c.Fatalf("face %d corner %d: %q became %q", i, k, cornerKey(before, f, k), cornerKey(obj, g, j))
				}
			}
			a, b, d := gen.V(obj.Vertexes[g.Verts[0]]), gen.V(obj.Vertexes[g.Verts[1]]), gen.V(obj.Vertexes[g.Verts[2]])
			sum += b.Sub(a).Cross(d.Sub(a)).Dot(norm[i])
			count++
			fi++
		}
		if count != len(f.Verts)-2 {
			c.Fatalf("face %d with %d corners became %d triangles", i, len(f.Verts), count)
		}
		if math.Abs(sum-area[i]) > 1e-3*math.Max(1, area[i]) {
			c.Fatalf("face %d: area %g became %g", i, area[i]/2, sum/2)
		}
	}
	if fi != len(obj.Faces) {
		c.Fatalf("extra triangles")
	}
}

// normals: explicit ones are kept, the others follow the faces.
func propNormals(c *hx.C) {
	o := gen.SmallMQO()
	o.Coord = 50
	o.NameFn = gen.Ident
	obj := o.Object(c.T, "o", 2)
	for _, v := range obj.Vertexes {
		*v = gen.V3(c.T, "v", 50)
	}
	before := hx.Clone(obj)
	c.DescF(func() string { return gen.DescribeMQO(&mqo.Document{Objects: []*mqo.Object{before}}) })
	if len(obj.Faces) > 0 {
		c.NonTrivial(hx.Dump(before))
	}
	// reference
	sum := make([]gen.P3, len(obj.Vertexes))
	mag := make([]float64, len(obj.Vertexes))
	bad := make([]bool, len(obj.Vertexes))
	for _, f := range before.Faces {
		k := len(f.Verts)
		for i, v := range f.Verts {
			if len(f.Normals) > i && f.Normals[i] != nil {
				sum[v] = sum[v].Add(gen.V(f.Normals[i]))
				mag[v]++
				continue
			}
			p := gen.V(obj.Vertexes[v])
			a := gen.V(obj.Vertexes[f.Verts[(i+k-1)%k]]).Sub(p)
			b := gen.V(obj.Vertexes[f.Verts[(i+1)%k]]).Sub(p)
			x := a.Cross(b)
			if x.Len() < 1e-3*(a.Len()*b.Len()+1e-9) || a.Len() < 1e-2 || b.Len() < 1e-2 {
				bad[v] = true // the direction of a degenerate corner is not defined
				continue
			}
			sum[v] = sum[v].Add(x.Norm())
			mag[v]++
		}
	}
	check := func(what string, v int, n *geom.Vector3) {
		if n == nil {
			c.Fatalf("%s: no normal", what)
		}
		if bad[v] || sum[v].Len() < 0.05*math.Max(1, mag[v]) {
			return
		}
		near(c, what, n, sum[v].Norm(), 2e-2)
	}
	sm := obj.GetSmoothNormals()
	if len(sm) != len(obj.Vertexes) {
		c.Fatalf("%d normals for %d vertices", len(sm), len(obj.Vertexes))
	}
	for v := range sm {
		check(fmt.Sprint("smooth normal of vertex ", v), v, &sm[v])
		if l := gen.V(&sm[v]).Len(); mag[v] > 0 && !bad[v] && sum[v].Len() > 0.05*mag[v] && math.Abs(l-1) > 1e-3 {
			c.Fatalf("smooth normal of vertex %d has length %g", v, l)
		}
	}
	if d := hx.Diff(obj, before, 0); d != "" {
		c.Fatalf("computing normals changed the object: %s", d)
	}
	obj.FixhNormals()
	for i, f := range obj.Faces {
		if len(f.Normals) != len(f.Verts) {
			c.Fatalf("face %d has %d normals", i, len(f.Normals))
		}
		for j, n := range f.Normals {
			b := before.Faces[i]
			if len(b.Normals) > j && b.Normals[j] != nil {
				if n == nil || *n != *b.Normals[j] {
					c.Fatalf("face %d corner %d: explicit normal %v became %v", i, j, *b.Normals[j], n)
				}
				continue
			}
			check(fmt.Sprintf("face %d corner %d", i, j), f.Verts[j], n)
		}
		f.Normals = before.Faces[i].Normals
	}
	if d := hx.Diff(obj, before, 0); d != "" {
		c.Fatalf("filling in normals changed something else: %s", d)
	}
}

// a clone equals its source and does not share geometry with it; flipping twice is nothing.
func propCloneFlip(c *hx.C) {
	o := gen.SmallMQO()
	obj := o.Object(c.T, gen.Name(c.T, "n"), 2)
	before := hx.Clone(obj)
	c.DescF(func() string { return gen.DescribeMQO(&mqo.Document{Objects: []*mqo.Object{before}}) })
	if len(obj.Faces) > 0 {
		c.NonTrivial(hx.Dump(before))
	}
	cp := obj.Clone()
	if d := hx.Diff(cp, before, 0); d != "" {
		c.Fatalf("clone differs: %s", d)
	}
	for _, v := range cp.Vertexes {
		v.X += 1
	}
	for _, f := range cp.Faces {
		for i := range f.Verts {
			f.Verts[i]++
		}
		for i := range f.UVs {
			f.UVs[i].X++
		}
		for _, n := range f.Normals {
			if n != nil {
				n.X++
			}
		}
		f.Material++
	}
	if d := hx.Diff(obj, before, 0); d != "" {
		c.Fatalf("changing the clone changed the source: %s", d)
	}
	for i, f := range obj.Faces {
		f.Flip()
		k := len(f.Verts)
		b := before.Faces[i]
		for j := range f.Verts {
			if cornerKey(obj, f, j) != cornerKey(before, b, k-1-j) {
				c.Fatalf("flipped face: corner %d is %q, want %q", j, cornerKey(obj, f, j), cornerKey(before, b, k-1-j))
			}
		}
		f.Flip()
	}
	if d := hx.Diff(obj, before, 0); d != "" {
		c.Fatalf("flipping twice changed the object: %s", d)
	}
}

// object ids: assigned where missing, unique, existing ones kept.
func propIDs(c *hx.C) {
	doc := mqo.NewDocument()
	n := gen.Int(c.T, "n", 1, 7)
	used := map[int]bool{}
	for i := 0; i < n; i++ {
		o := mqo.NewObject("o")
		if gen.Bool(c.T, "has") {
			id := gen.Int(c.T, "id", 1, 9)
			if !used[id] {
				used[id] = true
				o.UID = id
			}
		}
		doc.Objects = append(doc.Objects, o)
	}
	before := hx.Clone(doc)
	c.DescF(func() string { return gen.DescribeMQO(before) })
	c.NonTrivial(hx.Dump(before))
	doc.FixObjectID()
	seen := map[int]bool{}
	for i, o := range doc.Objects {
		if b := before.Objects[i].UID; b != 0 && o.UID != b {
			c.Fatalf("id %d became %d", b, o.UID)
		}
		if o.UID <= 0 || seen[o.UID] {
			c.Fatalf("object %d has id %d", i, o.UID)
		}
		seen[o.UID] = true
		if doc.GetObjectByID(o.UID) != o {
			c.Fatalf("looking up id %d finds another object", o.UID)
		}
	}
}

// T-pose adjustment: the limb turns as a whole around its base.
func propTPose(c *hx.C) {
	doc := mqo.NewDocument()
	no := gen.Int(c.T, "objs", 1, 3)
	for i := 0; i < no; i++ {
		o := mqo.NewObject(fmt.Sprint("o", i))
		o.UID = i + 1
		for j := gen.Int(c.T, "nv", 1, 5); j > 0; j-- {
			v := gen.V3(c.T, "v", 50)
			o.Vertexes = append(o.Vertexes, &v)
		}
		if gen.Chance(c.T, "vuids", 3) {
			for j := range o.Vertexes {
				o.VertexByUID[100-j] = j
			}
		}
		doc.Objects = append(doc.Objects, o)
	}
	bp := mqo.GetBonePlugin(doc)
	nb := gen.Int(c.T, "bones", 2, 7)
	for i := 0; i < nb; i++ {
		b := &mqo.Bone{ID: i + 1, Name: fmt.Sprint("b", i)}
		b.Pos.Vector3 = gen.V3(c.T, "bp", 50)
		b.Parent = gen.Int(c.T, "parent", 0, i)
		bp.AddBone(b)
	}
	// weights of a vertex over the bones add up to at most 100
	for oi, o := range doc.Objects {
		for vi := range o.Vertexes {
			left := 100
			for _, b := range rapid.Permutation(gen.Iota(nb)).Draw(c.T, "wb")[:min(nb, gen.Int(c.T, "wn", 0, 3))] {
				w := gen.Int(c.T, "w", 0, left)
				left -= w
				bp.Bones()[b].SetVertexWeight(oi+1, gen.VertexUID(o, vi), float32(w))
			}
		}
	}
	if gen.Chance(c.T, "lost object", 4) { // weights of an object that is gone
		b := bp.Bones()[gen.Int(c.T, "lost bone", 0, nb-1)]
		b.Weights = append([]*mqo.BoneWeight2{{ObjectID: 77, Vertexes: []*mqo.VertexWeight{{VertexID: 1, Weight: 100}}}}, b.Weights...)
		c.Label("lost object")
	}
	// a morph target of the first object
	if gen.Bool(c.T, "morph") {
		t := doc.Objects[0].Clone()
		t.Name, t.UID = "target", 50
		for _, v := range t.Vertexes {
			v.X += gen.F(c.T, "mx", 5)
		}
		doc.Objects = append(doc.Objects, t)
		mp := mqo.GetMorphPlugin(doc)
		mp.MorphSet.Targets = append(mp.MorphSet.Targets, &mqo.MorphTargetList{Base: "o0", Target: []*mqo.MorphTarget{{Name: "target"}}})
	}
	if gen.Bool(c.T, "physics") {
		pp := mqo.GetPhysicsPlugin(doc)
		for i := gen.Int(c.T, "bodies", 1, 3); i > 0; i-- {
			p := gen.V3(c.T, "pp", 50)
			r := gen.V3(c.T, "pr", 1)
			pp.Bodies = append(pp.Bodies, &mqo.PhysicsBody{TargetBoneID: gen.Int(c.T, "tb", 0, nb), Shapes: []*mqo.PhysicsShape{{Type: "BOX", Position: mqo.Vector3XmlAttr(p), Rotation: mqo.Vector3XmlAttr(r)}}})
		}
	}
	base := gen.Int(c.T, "base", 0, nb-1)
	before := hx.Clone(doc)
	c.DescF(func() string { return gen.DescribeMQO(before) + fmt.Sprint("base bone ", base+1) })
	bones := plBones(before)
	desc := make([]bool, nb)
	desc[base] = true
	child := -1
	best := 0.0
	tie := false
	for i, b := range bones {
		if b.Parent > 0 && desc[b.Parent-1] {
			desc[i] = true
		}
		if b.Parent == base+1 {
			d := gen.V(&b.Pos.Vector3).Dist(gen.V(&bones[base].Pos.Vector3))
			if math.Abs(d-best) < 1e-3 {
				tie = true
			}
			if d > best {
				best, child = d, i
			}
		}
	}
	rot := gen.Ident4()
	general := gen.Chance(c.T, "general", 3)
	if general { // any rotation
		rot = gen.RotM(c.T, "rot")
		q := gen.QuatOf(rot)
		calls := map[string]int{}
		doc.BoneTransform(plBones(doc)[base], geom.NewQuaternion(float32(q[0]), float32(q[1]), float32(q[2]), float32(q[3])), func(b *mqo.Bone) { calls[b.Name]++ })
		for i, b := range bones {
			if n := calls[b.Name]; n > 1 || (n == 1) != desc[i] {
				c.Fatalf("bone %q is visited %d times, descendant %v", b.Name, n, desc[i])
			}
		}
		child = base
		c.Label("any rotation")
		c.NonTrivial(hx.Dump(before) + fmt.Sprint(base, rot))
	} else {
		if tie && child >= 0 {
			c.Skip("two children equally far: which one decides is not specified")
		}
		doc.BoneAdjustX(plBones(doc)[base])
	}
	if child >= 0 && !general {
		c.NonTrivial(hx.Dump(before) + fmt.Sprint(base))
		v := gen.V(&bones[child].Pos.Vector3).Sub(gen.V(&bones[base].Pos.Vector3))
		a := math.Atan2(v[1], v[0])
		l := math.Hypot(v[0], v[1])
		if l < 1e-2 || math.Abs(math.Abs(a)-math.Pi/2) < 1e-4 {
			c.Skip("no direction to turn to")
		}
		if math.Abs(a) < math.Pi/2 {
			rot = gen.RotZ(-a)
		} else {
			rot = gen.RotZ(math.Pi - a)
		}
		g := gen.V(&plBones(doc)[child].Pos.Vector3).Sub(gen.V(&plBones(doc)[base].Pos.Vector3))
		if math.Abs(g[1]) > 2e-3 || g[0]*v[0] < 0 {
			c.Fatalf("the limb is not along X: %v (was %v)", g, v)
		}
	}
	pivot := gen.V(&bones[base].Pos.Vector3)
	turn := func(p gen.P3, w float64) gen.P3 {
		q := rot.Apply(p.Sub(pivot)).Add(pivot)
		return q.Scale(w).Add(p.Scale(1 - w))
	}
	for i, b := range bones {
		w := 0.0
		if desc[i] {
			w = 1
		}
		near(c, "bone "+b.Name, &plBones(doc)[i].Pos.Vector3, turn(gen.V(&b.Pos.Vector3), w), 2e-3)
	}
	for oi, o := range before.Objects {
		src := oi + 1
		if o.Name == "target" {
			src = 1
		}
		for vi, v := range o.Vertexes {
			w := 0.0
			for i, b := range bones {
				if !desc[i] {
					continue
				}
				for _, bw := range b.Weights {
					if bw.ObjectID != src {
						continue
					}
					for _, vw := range bw.Vertexes {
						if vw.VertexID == gen.VertexUID(before.Objects[src-1], vi) {
							w += float64(vw.Weight) / 100
						}
					}
				}
			}
			near(c, fmt.Sprintf("%s vertex %d (weight %g)", o.Name, vi, w), doc.Objects[oi].Vertexes[vi], turn(gen.V(v), w), 5e-3)
		}
	}
	_, _, p0 := plugins(before)
	_, _, p1 := plugins(doc)
	if p0 != nil {
		for i, b := range p0.Bodies {
			w := 0.0
			r := gen.Ident4()
			if b.TargetBoneID > 0 && desc[b.TargetBoneID-1] && child >= 0 {
				w, r = 1, rot
			}
			s0, s1 := b.Shapes[0], p1.Bodies[i].Shapes[0]
			near(c, "collider position", s1.Position.Vec3(), turn(gen.V(s0.Position.Vec3()), w), 2e-3)
			xyz := func(s mqo.Vector3XmlAttr) gen.M {
				return gen.RotX(float64(s.X)).Mul(gen.RotY(float64(s.Y))).Mul(gen.RotZ(float64(s.Z)))
			}
			if d := xyz(s1.Rotation).MaxDiff(r.Mul(xyz(s0.Rotation))); d > 2e-3 {
				c.Fatalf("collider rotation is off by %g", d)
			}
		}
	}
}

func plBones(doc *mqo.Document) []*mqo.Bone {
	b, _, _ := plugins(doc)
	return b.Bones()
}

func TestC20(t *testing.T) {
	hx.Main(t, "C20",
		hx.Leg{Name: "local", Quick: 1500, Prop: propLocal},
		hx.Leg{Name: "world", Quick: 500, Prop: propWorld},
		hx.Leg{Name: "transform", Quick: 400, Prop: propTransform},
		hx.Leg{Name: "morph", Quick: 1000, Prop: propMorph},
		hx.Leg{Name: "triangulate", Quick: 500, Prop: propTriangulate},
		hx.Leg{Name: "normals", Quick: 1000, Prop: propNormals},
		hx.Leg{Name: "clone", Quick: 500, Prop: propCloneFlip},
		hx.Leg{Name: "ids", Quick: 1000, Prop: propIDs},
		hx.Leg{Name: "tpose", Quick: 1000, Prop: propTPose},
	)
}
