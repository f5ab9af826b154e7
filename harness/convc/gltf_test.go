package convc

import (
	"bytes"
	"encoding/json"
	"fmt"
	"image"
	_ "image/jpeg"
	_ "image/png"
	"math"
	"sort"
	"strings"
	"testing"

	"github.com/binzume/modelconv/converter"
	"github.com/binzume/modelconv/geom"
	"github.com/binzume/modelconv/mqo"
	"github.com/qmuntal/gltf"
	"pgregory.net/rapid"

	"verif/harness/gen"
	"verif/harness/gltfx"
	"verif/harness/hx"
)

func glbBytes(c *hx.C, doc *gltf.Document) []byte {
	var buf bytes.Buffer
	enc := gltf.NewEncoder(&buf)
	enc.AsBinary = true
	if err := enc.Encode(doc); err != nil {
		c.Fatalf("cannot encode: %v", err)
	}
	return buf.Bytes()
}

// glb encodes a document and reads it back with the independent reader.
func glb(c *hx.C, doc *gltf.Document) *gltfx.Doc {
	d, err := gltfx.Parse(glbBytes(c, doc), "")
	if err != nil {
		c.Fatalf("the converted file cannot be read: %v", err)
	}
	return d
}

func drawOption(c *hx.C) *converter.MQOToGLTFOption {
	o := &converter.MQOToGLTFOption{}
	o.Scale = rapid.SampledFrom([]float32{0, 1, 0.01, 0.5, 3}).Draw(c.T, "scale")
	o.ForceUnlit = gen.Chance(c.T, "forceUnlit", 5)
	o.IgnoreObjectHierarchy = gen.Chance(c.T, "ignoreHierarchy", 4)
	o.DetectAlphaTexture = gen.Bool(c.T, "detectAlpha")
	o.ConvertPhysics = gen.Bool(c.T, "convertPhysics")
	o.ReuseGeometry = gen.Bool(c.T, "reuseGeometry")
	o.ExportLights = gen.Bool(c.T, "exportLights")
	if gen.Chance(c.T, "recompress", 3) {
		o.TextureReCompress = true
	}
	if gen.Chance(c.T, "threshold", 4) {
		o.TextureBytesThreshold = int64(rapid.SampledFrom([]int{1, 100, 150, 10000}).Draw(c.T, "thresholdv"))
	}
	if gen.Chance(c.T, "limit", 3) {
		o.TextureResolutionLimit = rapid.IntRange(1, 10).Draw(c.T, "limitv")
	}
	if gen.Chance(c.T, "texscale", 3) {
		o.TextureScale = rapid.SampledFrom([]float32{0.5, 2, 0.1}).Draw(c.T, "texscalev")
	}
	return o
}

type conv struct {
	m    *gen.Model
	src  *mqo.Document // as before the conversion
	opt  converter.MQOToGLTFOption
	out  *gltfx.Doc
	doc  *gltf.Document
	s    float64
	objs []*mqo.Object // objects that become nodes, in order
	byN  map[string]*mqo.Object
	node map[string]int
}

// ignored reports whether faces of material i are left out on purpose.
func (v *conv) ignored(i int) bool {
	if i < 0 || i >= len(v.src.Materials) {
		return false
	}
	n := v.src.Materials[i].Name
	return strings.HasSuffix(n, "$IGNORE") || strings.HasPrefix(n, "$MORPH:")
}

func (v *conv) parentOf(i int) int {
	for k := i - 1; k >= 0; k-- {
		if v.objs[k].Depth < v.objs[i].Depth {
			return k
		}
	}
	return -1
}

// targets lists the morph targets an object should get.
func (v *conv) targets(o *mqo.Object) []*mqo.Object {
	var r []*mqo.Object
	for _, l := range mqo.GetMorphPlugin(v.src).Morphs() {
		if l.Base == o.Name {
			for _, t := range l.Target {
				if x := v.byN[t.Name]; x != nil && len(x.Vertexes) == len(o.Vertexes) {
					r = append(r, x)
				}
			}
		}
	}
	return r
}

func convert(c *hx.C, m *gen.Model, opt *converter.MQOToGLTFOption) *conv {
	v := &conv{m: m, src: hx.Clone(m.Doc), opt: *opt, byN: map[string]*mqo.Object{}, node: map[string]int{}}
	c.Desc("options %+v", v.opt)
	c.DescF(func() string { return gen.DescribeMQO(v.src) })
	v.s = float64(opt.Scale)
	if opt.Scale == 0 {
		v.s = 0.001
	}
	gen.DropUIDs(c.T, m.Doc)
	cv := converter.NewMQOToGLTFConverter(opt)
	doc, err := cv.Convert(m.Doc, m.Dir)
	if err != nil {
		c.Fatalf("conversion failed: %v", err)
	}
	v.out = glb(c, doc)
	v.doc = doc
	isTarget := map[string]bool{}
	for _, o := range v.src.Objects {
		v.byN[o.Name] = o
	}
	for _, l := range mqo.GetMorphPlugin(v.src).Morphs() {
		for _, t := range l.Target {
			isTarget[t.Name] = true
		}
	}
	for _, o := range v.src.Objects {
		if isTarget[o.Name] || v.opt.IgnoreObjectHierarchy && (!o.Visible || len(o.Faces) == 0) {
			continue
		}
		v.objs = append(v.objs, o)
	}
	for i, n := range v.out.Nodes {
		if _, dup := v.node[n.Name]; dup {
			c.Fatalf("two nodes are called %q", n.Name)
		}
		v.node[n.Name] = i
	}
	return v
}

// pt finds the source vertex at a position.
func findVertex(o *mqo.Object, p gen.P3, s float64) int {
	best, bd := -1, math.Inf(1)
	for i, v := range o.Vertexes {
		if d := gen.V(v).Scale(s).Dist(p); d < bd {
			best, bd = i, d
		}
	}
	if bd > 1e-5*s*2000 {
		return -1
	}
	return best
}

func (v *conv) checkGeometry(c *hx.C) {
	bones := mqo.GetBonePlugin(v.src).Bones()
	if want := len(v.objs) + len(bones); len(v.out.Nodes) != want {
		c.Fatalf("%d nodes for %d objects and %d bones", len(v.out.Nodes), len(v.objs), len(bones))
	}
	par := v.out.Parents()
	roots := map[int]bool{}
	for _, r := range v.out.Scenes[0].Nodes {
		roots[r] = true
	}
	for i, o := range v.objs {
		ni, ok := v.node[o.Name]
		if !ok {
			c.Fatalf("object %q has no node", o.Name)
		}
		want := -1
		if k := v.parentOf(i); k >= 0 && !v.opt.IgnoreObjectHierarchy {
			want = v.node[v.objs[k].Name]
		}
		if par[ni] != want || roots[ni] != (want < 0) {
			c.Fatalf("node %q: parent %d root %v, want parent %d", o.Name, par[ni], roots[ni], want)
		}
		v.checkObject(c, o, ni)
	}
}

type corner struct {
	v  int
	uv [2]float64
	ok bool
	n  gen.P3
}

func (v *conv) checkObject(c *hx.C, o *mqo.Object, ni int) {
	node := v.out.Nodes[ni]
	world := v.out.World(ni)
	var faces []*mqo.Face
	if o.Visible {
		for _, f := range o.Faces {
			if len(f.Verts) >= 3 && !v.ignored(f.Material) {
				faces = append(faces, f)
			}
		}
	}
	if node.Mesh == nil {
		if len(faces) > 0 {
			c.Fatalf("object %q lost its %d faces", o.Name, len(faces))
		}
		return
	}
	if len(faces) == 0 {
		c.Fatalf("object %q has a mesh but nothing to show", o.Name)
	}
	mesh := v.out.Meshes[*node.Mesh]
	if mesh.Name != o.Name {
		c.Fatalf("mesh of %q is called %q", o.Name, mesh.Name)
	}
	matName := func(i int) string {
		if i < 0 || i >= len(v.src.Materials) {
			return "(none)"
		}
		return v.src.Materials[i].Name
	}
	// what should be there
	edges := map[string]int{} // material + directed edge -> balance
	count := map[string]int{}
	key := func(m string, a, b int) string { return fmt.Sprintf("%s %d>%d", m, a, b) }
	add := func(m string, a, b, n int) {
		if a > b {
			a, b, n = b, a, -n
		}
		edges[key(m, a, b)] += n
	}
	for _, f := range faces {
		m := matName(f.Material)
		n := len(f.Verts)
		count[m] += n - 2
		for i := range f.Verts {
			add(m, f.Verts[(i+1)%n], f.Verts[i], -1) // reversed winding
		}
	}
	smooth := smoothNormals(o)
	targets := v.targets(o)
	for _, p := range mesh.Primitives {
		name := "(none)"
		if p.Material != nil {
			name = v.out.Materials[*p.Material].Name
		}
		pos := read(c, v.out, p.Attributes["POSITION"])
		var uv, nrm [][]float64
		if a, ok := p.Attributes["TEXCOORD_0"]; ok {
			uv = read(c, v.out, a)
		}
		if a, ok := p.Attributes["NORMAL"]; ok {
			nrm = read(c, v.out, a)
		}
		if (nrm != nil) != (o.Shading > 0 && !v.opt.ForceUnlit) {
			c.Fatalf("object %q with shading %d: normals %v", o.Name, o.Shading, nrm != nil)
		}
		src := make([]int, len(pos))
		at := func(i int) corner {
			q := world.Apply(gen.P3{pos[i][0], pos[i][1], pos[i][2]})
			s := findVertex(o, q, v.s)
			if s < 0 {
				c.Fatalf("object %q: vertex at %v is not in the source", o.Name, q)
			}
			src[i] = s
			r := corner{v: s}
			if uv != nil {
				r.uv, r.ok = [2]float64{uv[i][0], uv[i][1]}, true
			}
			if nrm != nil {
				r.n = gen.P3{nrm[i][0], nrm[i][1], nrm[i][2]}
			}
			return r
		}
		idx := read(c, v.out, *p.Indices)
		for i := 0; i+2 < len(idx); i += 3 {
			t := [3]corner{at(int(idx[i][0])), at(int(idx[i+1][0])), at(int(idx[i+2][0]))}
			count[name]--
			for k := 0; k < 3; k++ {
				add(name, t[k].v, t[(k+1)%3].v, 1)
			}
			if !inSomeFace(faces, t, func(f *mqo.Face) bool { return matName(f.Material) == name }) {
				c.Fatalf("object %q material %q: triangle %v is not part of a face with these texture coordinates", o.Name, name, t)
			}
			if nrm == nil {
				continue
			}
			for k := 0; k < 3; k++ {
				v.checkNormal(c, o, faces, t[k], smooth, world)
			}
		}
		// morphs
		if len(p.Targets) != len(targets) {
			c.Fatalf("object %q: %d morph targets, want %d", o.Name, len(p.Targets), len(targets))
		}
		for k, t := range p.Targets {
			d := read(c, v.out, t["POSITION"])
			for i := range pos {
				q := world.Apply(gen.P3{pos[i][0], pos[i][1], pos[i][2]})
				s := findVertex(o, q, v.s)
				if s < 0 {
					c.Fatalf("object %q: vertex at %v is not in the source", o.Name, q)
				}
				want := gen.V(targets[k].Vertexes[s]).Sub(gen.V(o.Vertexes[s])).Scale(v.s)
				if (gen.P3{d[i][0], d[i][1], d[i][2]}).Dist(want) > 1e-3*v.s {
					c.Fatalf("object %q target %q: vertex %d moves by %v, want %v", o.Name, targets[k].Name, s, d[i], want)
				}
			}
		}
	}
	for m, n := range count {
		if n != 0 {
			c.Fatalf("object %q material %q: %d triangles missing (negative: too many)", o.Name, m, n)
		}
	}
	for e, n := range edges {
		if n != 0 {
			c.Fatalf("object %q: the triangles do not tile the faces at %s (%d)", o.Name, e, n)
		}
	}
	if len(targets) > 0 {
		names, _ := mesh.Extras["targetNames"].([]interface{})
		var want []interface{}
		for _, t := range targets {
			want = append(want, t.Name)
		}
		if fmt.Sprint(names) != fmt.Sprint(want) {
			c.Fatalf("object %q: target names %v, want %v", o.Name, names, want)
		}
	}
}

func read(c *hx.C, d *gltfx.Doc, a int) [][]float64 {
	v, err := d.Read(a)
	if err != nil {
		c.Fatalf("%v", err)
	}
	return v
}

// inSomeFace: the corners are corners of one face, in reverse order.
func inSomeFace(faces []*mqo.Face, t [3]corner, okMat func(*mqo.Face) bool) bool {
	for _, f := range faces {
		if !okMat(f) {
			continue
		}
		var p [3]int
		ok := true
		for k := range t {
			p[k] = -1
			for i, v := range f.Verts {
				if v == t[k].v {
					p[k] = i
				}
			}
			if p[k] < 0 {
				ok = false
				break
			}
			if len(f.UVs) > 0 && (!t[k].ok || math.Hypot(float64(f.UVs[p[k]].X)-t[k].uv[0], float64(f.UVs[p[k]].Y)-t[k].uv[1]) > 1.2e-4) {
				ok = false
				break
			}
		}
		if !ok {
			continue
		}
		// reversed cyclic order
		n := len(f.Verts)
		a, b := (p[0]-p[1]+n)%n, (p[0]-p[2]+n)%n
		if a > 0 && b > 0 && a < b {
			return true
		}
	}
	return false
}

// smoothNormals averages the normals of the corners at each vertex.
func smoothNormals(o *mqo.Object) []gen.P3 {
	r := make([]gen.P3, len(o.Vertexes))
	for _, f := range o.Faces {
		n := len(f.Verts)
		for i, v := range f.Verts {
			if len(f.Normals) > i && f.Normals[i] != nil {
				r[v] = r[v].Add(gen.V(f.Normals[i]))
				continue
			}
			a := gen.V(o.Vertexes[f.Verts[(i+n-1)%n]]).Sub(gen.V(o.Vertexes[v]))
			b := gen.V(o.Vertexes[f.Verts[(i+1)%n]]).Sub(gen.V(o.Vertexes[v]))
			r[v] = r[v].Add(a.Cross(b).Norm())
		}
	}
	return r
}

func (v *conv) checkNormal(c *hx.C, o *mqo.Object, faces []*mqo.Face, k corner, smooth []gen.P3, world gen.M) {
	n := world.Normal(k.n).Norm()
	sm := smooth[k.v]
	needSmooth := false
	for _, f := range faces {
		for i, fv := range f.Verts {
			if fv != k.v {
				continue
			}
			if len(f.Normals) == len(f.Verts) && f.Normals[i] != nil {
				if n.Dist(gen.V(f.Normals[i]).Norm()) < 2e-3 {
					return
				}
			} else {
				needSmooth = true
			}
		}
	}
	if needSmooth && (sm.Len() < 0.05 || n.Dist(sm.Norm()) < 5e-3) {
		return
	}
	c.Fatalf("object %q vertex %d: normal %v is none of its normals (average %v)", o.Name, k.v, n, sm.Norm())
}

func propGltfGeometry(c *hx.C) {
	dir, done := hx.Scratch(c)
	defer done()
	o := gen.FullModel()
	o.Textures = false
	m := gen.DrawModel(c.T, o, dir)
	v := convert(c, m, drawOption(c))
	v.checkGeometry(c)
	v.label(c)
}

func (v *conv) label(c *hx.C) {
	faces, seams := 0, false
	for _, o := range v.src.Objects {
		faces += len(o.Faces)
		for _, f := range o.Faces {
			seams = seams || len(f.UVs) > 0
		}
	}
	c.LabelIf(seams, "texture coordinates")
	c.LabelIf(len(mqo.GetMorphPlugin(v.src).Morphs()) > 0, "morphs")
	c.LabelIf(len(mqo.GetBonePlugin(v.src).Bones()) > 0, "bones")
	if faces > 0 {
		c.NonTrivial(gen.DescribeMQO(v.src) + fmt.Sprintf("%+v", v.opt))
	}
}

// objects sharing geometry (as made from scenes that use a mesh repeatedly)
// and objects carrying lights.
func propGltfShared(c *hx.C) {
	dir, done := hx.Scratch(c)
	defer done()
	o := gen.FullModel()
	o.Textures, o.Bones, o.Morphs, o.OddMaterials, o.NoNormals, o.DepthGap = false, false, false, false, true, false
	o.Objects = 3
	m := gen.DrawModel(c.T, o, dir)
	var base *mqo.Object
	for _, x := range m.Doc.Objects {
		if len(x.Faces) > 0 {
			base = x
		}
	}
	if base == nil {
		c.Skip("no geometry")
	}
	if len(m.Doc.Materials) > 1 && gen.Chance(c.T, "ignored", 4) {
		m.Doc.Materials[len(m.Doc.Materials)-1].Name += "$IGNORE"
		c.Label("ignored material")
	}
	rigid := true
	place := func(x *mqo.Object, i int) {
		mat := gen.TransM(gen.Pt(c.T, "t", 300)).Mul(gen.RotM(c.T, "r")).Mul(gen.ScaleM(gen.P3{gen.Pos(c.T, "sx"), gen.Pos(c.T, "sy"), gen.Pos(c.T, "sz")}))
		if gen.Bool(c.T, "uniform") {
			mat = gen.TransM(gen.Pt(c.T, "t", 300)).Mul(gen.RotM(c.T, "r"))
		} else {
			rigid = false
		}
		for j, p := range base.Vertexes {
			x.Vertexes[j] = mat.Apply(gen.V(p)).Geom()
		}
		x.InternalTransform = mat.Geom()
		x.Extra = map[string]interface{}{"sharedGeometryKey": "k"}
	}
	if gen.Chance(c.T, "lines only", 6) {
		// nothing of the shared geometry is exported, but lights are
		for _, f := range base.Faces {
			f.Verts = f.Verts[:2]
			f.UVs, f.Normals = nil, nil
		}
		c.Label("lines only")
	}
	var copies []*mqo.Object
	for i := rapid.IntRange(1, 3).Draw(c.T, "copies"); i > 0; i-- {
		x := gen.CloneObj(base)
		x.Name = fmt.Sprintf("copy%d", i)
		x.UID = 50 + i
		x.Depth = rapid.IntRange(0, 2).Draw(c.T, "cdepth")
		place(x, i)
		if gen.Chance(c.T, "tiled", 3) {
			k := gen.Pos(c.T, "tiling")
			for _, f := range x.Faces {
				for j := range f.UVs {
					f.UVs[j].X *= float32(k)
				}
			}
			c.Label("other tiling")
		}
		if gen.Chance(c.T, "rematerial", 3) {
			mm := map[int]int{}
			for _, f := range x.Faces {
				if _, ok := mm[f.Material]; !ok {
					mm[f.Material] = rapid.IntRange(0, len(m.Doc.Materials)-1).Draw(c.T, "material")
				}
				f.Material = mm[f.Material]
			}
			c.Label("other materials")
		}
		if gen.Chance(c.T, "reshade", 6) {
			x.Shading = 1 - x.Shading
			c.Label("other shading")
		}
		copies = append(copies, x)
	}
	lights := 0
	for i, x := range copies {
		if gen.Chance(c.T, "light", 3) {
			x.Extra["light"] = map[string]interface{}{"type": "point", "intensity": float64(lights + 1), "color": []float32{1, 0.5, 0.25}}
			lights++
		}
		at := rapid.IntRange(0, len(m.Doc.Objects)).Draw(c.T, "at")
		m.Doc.Objects = append(m.Doc.Objects[:at], append([]*mqo.Object{x}, m.Doc.Objects[at:]...)...)
		_ = i
	}
	m.Doc.Objects[0].Depth = 0
	v := convert(c, m, drawOption(c))
	for i, x := range v.objs {
		ni, ok := v.node[x.Name]
		if !ok {
			c.Fatalf("object %q has no node", x.Name)
		}
		_ = i
		v.checkObject2(c, x, ni, rigid)
	}
	c.LabelIf(rigid, "rigid placement")
	if v.opt.ExportLights {
		v.checkLights(c)
	}
	c.LabelIf(v.opt.ReuseGeometry, "reuse")
	c.NonTrivial(gen.DescribeMQO(v.src) + fmt.Sprintf("%+v", v.opt))
}

// checkLights: every light is emitted once, with its parameters, at the place
// of its object.
func (v *conv) checkLights(c *hx.C) {
	var e struct {
		Lights []struct {
			Intensity float64
			Type      string
			Color     []float64
		}
	}
	json.Unmarshal(v.out.Extensions["KHR_lights_punctual"], &e)
	at := map[float64]int{} // by intensity, which is different for every light
	for i, n := range v.out.Nodes {
		raw, ok := n.Extensions["KHR_lights_punctual"]
		if !ok {
			continue
		}
		var r struct{ Light *int }
		if err := json.Unmarshal(raw, &r); err != nil || r.Light == nil || *r.Light < 0 || *r.Light >= len(e.Lights) {
			c.Fatalf("node %q: bad light reference %s", n.Name, raw)
		}
		l := e.Lights[*r.Light]
		if _, dup := at[l.Intensity]; dup {
			c.Fatalf("the light of intensity %v is used twice", l.Intensity)
		}
		at[l.Intensity] = i
		if l.Type != "point" || !near(l.Color, []float64{1, 0.5, 0.25}, 1e-6) {
			c.Fatalf("node %q: light %+v", n.Name, l)
		}
	}
	n := 0
	size := 1.0
	for _, x := range v.src.Objects {
		for _, p := range x.Vertexes {
			size = math.Max(size, gen.V(p).Len())
		}
	}
	for _, x := range v.objs {
		l, ok := x.Extra["light"].(map[string]interface{})
		if !ok || !x.Visible {
			continue
		}
		n++
		ni, ok := at[l["intensity"].(float64)]
		if !ok {
			c.Fatalf("object %q lost its light", x.Name)
		}
		m := gen.MatOf(x.InternalTransform)
		w := v.out.World(ni)
		wp, gp := m.Apply(gen.P3{}).Scale(v.s), w.Apply(gen.P3{})
		var wd, gd gen.P3
		for k := 0; k < 3; k++ {
			var ax gen.P3
			ax[2-k] = 1
			wd, gd = m.Dir(ax).Norm(), w.Dir(ax).Norm()
			if gd.Dist(wd) > 1e-2 {
				break
			}
		}
		if gp.Dist(wp) > 3e-4*size*v.s*math.Max(1, w.MaxAbs()/math.Max(v.s, 1)) || gd.Dist(wd) > 1e-2 {
			c.Fatalf("the light of object %q is at %v facing %v, want %v facing %v", x.Name, gp, gd, wp, wd)
		}
	}
	if len(e.Lights) != n || len(at) != n {
		c.Fatalf("%d lights (%d used), want %d", len(e.Lights), len(at), n)
	}
}

// checkObject2 compares the placed triangles as a set of points (vertices of
// repeated geometry may be far from unit scale).
func (v *conv) checkObject2(c *hx.C, o *mqo.Object, ni int, rigid bool) {
	smooth := smoothNormals(o)
	node := v.out.Nodes[ni]
	if node.Mesh == nil {
		for _, f := range o.Faces {
			if o.Visible && len(f.Verts) >= 3 && !strings.HasSuffix(v.src.Materials[f.Material].Name, "$IGNORE") {
				c.Fatalf("object %q lost its faces", o.Name)
			}
		}
		return
	}
	world := v.out.World(ni)
	size := 1.0
	for _, p := range o.Vertexes {
		size = math.Max(size, gen.V(p).Len())
	}
	for _, x := range v.src.Objects {
		for _, p := range x.Vertexes {
			size = math.Max(size, gen.V(p).Len())
		}
	}
	tol := size * v.s * 2e-4 * math.Max(1, world.MaxAbs()/math.Max(v.s, 1))
	want := map[string]int{}
	for _, f := range o.Faces {
		if len(f.Verts) >= 3 && !strings.HasSuffix(v.src.Materials[f.Material].Name, "$IGNORE") {
			want[v.src.Materials[f.Material].Name] += len(f.Verts) - 2
		}
	}
	for _, p := range v.out.Meshes[*node.Mesh].Primitives {
		pos := read(c, v.out, p.Attributes["POSITION"])
		idx := read(c, v.out, *p.Indices)
		want[v.out.Materials[*p.Material].Name] -= len(idx) / 3
		var uv, nrm [][]float64
		if a, ok := p.Attributes["TEXCOORD_0"]; ok {
			uv = read(c, v.out, a)
		}
		if a, ok := p.Attributes["NORMAL"]; ok {
			nrm = read(c, v.out, a)
		}
		if (nrm != nil) != (o.Shading > 0 && !v.opt.ForceUnlit) {
			c.Fatalf("object %q with shading %d: normals %v", o.Name, o.Shading, nrm != nil)
		}
		for i := 0; i+2 < len(idx); i += 3 {
			var t [3]gen.P3
			for k := range t {
				q := pos[int(idx[i+k][0])]
				t[k] = world.Apply(gen.P3{q[0], q[1], q[2]})
			}
			found := false
			for _, f := range o.Faces {
				if v.src.Materials[f.Material].Name != v.out.Materials[*p.Material].Name {
					continue
				}
				hits := 0
				for k := range t {
					for j, fv := range f.Verts {
						if gen.V(o.Vertexes[fv]).Scale(v.s).Dist(t[k]) >= tol {
							continue
						}
						vi := int(idx[i+k][0])
						if len(f.UVs) > j && (uv == nil || math.Hypot(uv[vi][0]-float64(f.UVs[j].X), uv[vi][1]-float64(f.UVs[j].Y)) > 2e-4) {
							continue
						}
						if n := smooth[fv]; rigid && nrm != nil && n.Len() > 0.05 && world.Normal(gen.P3{nrm[vi][0], nrm[vi][1], nrm[vi][2]}).Norm().Dist(n.Norm()) > 2e-2 {
							continue
						}
						hits++
						break
					}
				}
				found = found || hits == 3
			}
			if !found {
				c.Fatalf("object %q: triangle %v is not in the source (tol %g)", o.Name, t, tol)
			}
		}
	}
	for m, n := range want {
		if n != 0 {
			c.Fatalf("object %q material %q: %d triangles missing", o.Name, m, n)
		}
	}
}

func TestC10(t *testing.T) {
	hx.Main(t, "C10",
		hx.Leg{Name: "model", Quick: 700, Prop: propGltfGeometry},
		hx.Leg{Name: "shared", Quick: 500, Prop: propGltfShared},
	)
}

// ---- validity

func propGltfValid(c *hx.C) {
	dir, done := hx.Scratch(c)
	defer done()
	o := gen.FullModel()
	o.Physics = true
	m := gen.DrawModel(c.T, o, dir)
	if bones := mqo.GetBonePlugin(m.Doc).Bones(); len(bones) > 0 && gen.Chance(c.T, "cyclic", 12) {
		// parents in a circle of any length
		at := rapid.Permutation(gen.Iota(len(bones))).Draw(c.T, "circle")
		at = at[:rapid.IntRange(1, len(at)).Draw(c.T, "circleLen")]
		for i, b := range at {
			bones[b].Parent = bones[at[(i+1)%len(at)]].ID
		}
		c.Label("cyclic bones")
	}
	v := convert(c, m, drawOption(c))
	if errs := v.out.Validate(); len(errs) > 0 {
		c.Fatalf("invalid glTF: %s", strings.Join(errs, "; "))
	}
	if gen.Chance(c.T, "again", 3) {
		opt := v.opt
		doc2, err := converter.NewMQOToGLTFConverter(&opt).Convert(hx.Clone(v.src), m.Dir)
		if err != nil {
			c.Fatalf("the second conversion failed: %v", err)
		}
		if a, b := glbBytes(c, v.doc), glbBytes(c, doc2); !bytes.Equal(a, b) {
			c.Fatalf("converting the same model twice gives different files (%d and %d bytes)", len(a), len(b))
		}
		c.Label("twice")
	}
	v.label(c)
}

func TestC09(t *testing.T) {
	hx.Main(t, "C09", hx.Leg{Name: "model", Quick: 700, Prop: propGltfValid})
}

// ---- skinning

func propGltfSkin(c *hx.C) {
	dir, done := hx.Scratch(c)
	defer done()
	o := gen.FullModel()
	o.Textures, o.GlTFShader, o.NoNormals = false, false, true
	o.Physics = true
	o.OddMaterials = false
	m := gen.DrawModel(c.T, o, dir)
	v := convert(c, m, drawOption(c))
	bones := mqo.GetBonePlugin(v.src).Bones()
	byID := map[int]*mqo.Bone{}
	for _, b := range bones {
		byID[b.ID] = b
	}
	par := v.out.Parents()
	tol := 1e-4 * 2000 * v.s
	for _, b := range bones {
		ni, ok := v.node[b.Name]
		if !ok {
			c.Fatalf("bone %q has no node", b.Name)
		}
		want := -1
		if p := byID[b.Parent]; p != nil && b.Parent > 0 {
			want = v.node[p.Name]
		}
		if par[ni] != want {
			c.Fatalf("bone %q: parent node %d, want %d", b.Name, par[ni], want)
		}
		w := v.out.World(ni)
		pos := w.Apply(gen.P3{})
		if pos.Dist(gen.V(&b.Pos.Vector3).Scale(v.s)) > tol {
			c.Fatalf("bone %q is at %v, want %v times %g", b.Name, pos, b.Pos.Vector3, v.s)
		}
	}
	skinned := 0
	for _, x := range v.objs {
		node := v.out.Nodes[v.node[x.Name]]
		// weights of the source
		type bw struct {
			b string
			w float64
		}
		src := make([][]bw, len(x.Vertexes))
		any := false
		for _, b := range bones {
			for _, w := range b.Weights {
				if w.ObjectID != x.UID {
					continue
				}
				any = true
				for _, vw := range w.Vertexes {
					vi, ok := x.VertexByUID[vw.VertexID]
					if !ok {
						vi = vw.VertexID - 1
					}
					src[vi] = append(src[vi], bw{b.Name, float64(vw.Weight) / 100})
				}
			}
		}
		if node.Mesh == nil {
			continue
		}
		if !any {
			if node.Skin != nil {
				c.Fatalf("object %q has a skin but no weights", x.Name)
			}
			continue
		}
		if node.Skin == nil {
			c.Fatalf("object %q lost its skin", x.Name)
		}
		skinned++
		skin := v.out.Skins[*node.Skin]
		if skin.IBM == nil {
			c.Fatalf("object %q: no inverse bind matrices", x.Name)
		}
		ibm := read(c, v.out, *skin.IBM)
		bind := make([]gen.M, len(skin.Joints))
		for i, j := range skin.Joints {
			var im gen.M
			copy(im[:], ibm[i])
			bind[i] = v.out.World(j).Mul(im)
			if d := bind[i].MaxDiff(gen.Ident4()); d > tol {
				c.Fatalf("object %q joint %q: the bind pose is not the rest pose: %v", x.Name, v.out.Nodes[j].Name, bind[i])
			}
		}
		for _, p := range v.out.Meshes[*node.Mesh].Primitives {
			pos := read(c, v.out, p.Attributes["POSITION"])
			jo := read(c, v.out, p.Attributes["JOINTS_0"])
			we := read(c, v.out, p.Attributes["WEIGHTS_0"])
			for i := range pos {
				s := findVertex(x, gen.P3{pos[i][0], pos[i][1], pos[i][2]}, v.s)
				if s < 0 {
					c.Fatalf("object %q: vertex at %v is not in the source", x.Name, pos[i])
				}
				got := map[string]float64{}
				sum := 0.0
				for k := 0; k < 4; k++ {
					if we[i][k] != 0 {
						got[v.out.Nodes[skin.Joints[int(jo[i][k])]].Name] += we[i][k]
						sum += we[i][k]
					}
				}
				if math.Abs(sum-1) > 1e-4 {
					c.Fatalf("object %q vertex %d: weights sum to %v", x.Name, s, sum)
				}
				all := append([]bw{}, src[s]...)
				sort.Slice(all, func(a, b int) bool { return all[a].w > all[b].w })
				n := len(all)
				if n > 4 {
					n = 4
				}
				total := 0.0
				for _, a := range all[:n] {
					total += a.w
				}
				if len(got) != n {
					c.Fatalf("object %q vertex %d: influences %v, want %d of %v", x.Name, s, got, n, all)
				}
				smallest := all[n-1].w
				for _, a := range all {
					if g, ok := got[a.b]; ok {
						if math.Abs(g-a.w/total) > 1e-4 || a.w < smallest-1e-6 {
							c.Fatalf("object %q vertex %d: bone %q has weight %v, want %v of %v", x.Name, s, a.b, g, a.w, total)
						}
					} else if a.w > smallest+1e-6 {
						c.Fatalf("object %q vertex %d: bone %q with weight %v is missing: %v", x.Name, s, a.b, a.w, got)
					}
				}
			}
		}
	}
	v.checkPhysics(c, byID)
	c.LabelIf(skinned > 0, "skinned")
	c.LabelIf(skinned > 1, "two skins")
	if skinned > 0 {
		c.NonTrivial(gen.DescribeMQO(v.src))
	}
}

func (v *conv) checkPhysics(c *hx.C, byID map[int]*mqo.Bone) {
	type shape struct {
		BoundingBox       []float64
		ShapeType         string
		OffsetTranslation []float64
		OffsetScale       []float64
	}
	type body struct {
		CollisionShapes []shape
		Mass            float64
		Static          bool
	}
	want := map[string]*body{}
	for _, b := range mqo.GetPhysicsPlugin(v.src).Bodies {
		name, off := "", gen.P3{}
		if b.TargetBoneID != 0 && byID[b.TargetBoneID] != nil {
			name, off = byID[b.TargetBoneID].Name, gen.V(&byID[b.TargetBoneID].Pos.Vector3)
		} else if b.TargetObjID != 0 {
			for _, o := range v.objs {
				if o.UID == b.TargetObjID {
					name = o.Name
				}
			}
		}
		if name == "" || len(b.Shapes) == 0 {
			continue
		}
		if want[name] == nil {
			want[name] = &body{}
		}
		w := want[name]
		w.Mass += float64(b.Mass)
		w.Static = w.Static || b.Kinematic
		for _, s := range b.Shapes {
			sz := gen.V(s.Size.Vec3()).Scale(v.s)
			p := gen.V(s.Position.Vec3()).Sub(off).Scale(v.s)
			w.CollisionShapes = append(w.CollisionShapes, shape{sz[:], s.Type, p[:], sz[:]})
		}
	}
	for _, n := range v.out.Nodes {
		raw, ok := n.Extensions["BLENDER_physics"]
		w := want[n.Name]
		if !v.opt.ConvertPhysics {
			w = nil
		}
		if ok != (w != nil) {
			c.Fatalf("node %q: physics %s, want %v", n.Name, raw, w)
		}
		if !ok {
			continue
		}
		var g body
		if err := json.Unmarshal(raw, &g); err != nil {
			c.Fatalf("node %q: %v", n.Name, err)
		}
		if math.Abs(g.Mass-w.Mass) > 1e-4 || g.Static != w.Static || len(g.CollisionShapes) != len(w.CollisionShapes) {
			c.Fatalf("node %q: body %+v, want %+v", n.Name, g, *w)
		}
		for i, s := range g.CollisionShapes {
			ws := w.CollisionShapes[i]
			if s.ShapeType != ws.ShapeType || !near(s.BoundingBox, ws.BoundingBox, 1e-2*v.s) || !near(s.OffsetScale, ws.OffsetScale, 1e-2*v.s) || !near(s.OffsetTranslation, ws.OffsetTranslation, 1e-2*v.s) {
				c.Fatalf("node %q: shape %+v, want %+v", n.Name, s, ws)
			}
		}
	}
}

func near(a, b []float64, tol float64) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !(math.Abs(a[i]-b[i]) <= tol) {
			return false
		}
	}
	return true
}

func TestC11(t *testing.T) {
	hx.Main(t, "C11", hx.Leg{Name: "model", Quick: 1000, Prop: propGltfSkin})
}

// ---- materials and textures

func fparam(m *mqo.Material, n string) float64 {
	switch x := m.Ex2.ShaderParams[n].(type) {
	case float32:
		return float64(x)
	case float64:
		return x
	}
	return 0
}

func cparam(m *mqo.Material, n string) []float64 {
	x, ok := m.Ex2.ShaderParams[n].([]float32)
	if !ok {
		return nil
	}
	return []float64{float64(x[0]), float64(x[1]), float64(x[2])}
}

func opt1(f *float64, d float64) float64 {
	if f == nil {
		return d
	}
	return *f
}

type extSpec struct {
	flag, name string
	num        map[string]string
	col        map[string]string
	tex        map[string]string
}

var extSpecs = []extSpec{
	{"SpecularExt", "KHR_materials_specular", map[string]string{"specularFactor": "SpecularFactor"}, map[string]string{"specularColorFactor": "SpecularColorFactor"}, map[string]string{"specularTexture": "Specular", "specularColorTexture": "SpecularColor"}},
	{"Clearcoat", "KHR_materials_clearcoat", map[string]string{"clearcoatFactor": "ClearcoatFactor", "clearcoatRoughnessFactor": "ClearcoatRoughnessFactor"}, nil, map[string]string{"clearcoatTexture": "Clearcoat", "clearcoatRoughnessTexture": "ClearcoatRoughness", "clearcoatNormalTexture": "ClearcoatNormal"}},
	{"Sheen", "KHR_materials_sheen", map[string]string{"sheenRoughnessFactor": "SheenRoughnessFactor"}, map[string]string{"sheenColorFactor": "SheenColorFactor"}, map[string]string{"sheenColorTexture": "SheenColor", "sheenRoughnessTexture": "SheenRoughness"}},
	{"IorExt", "KHR_materials_ior", map[string]string{"ior": "Ior"}, nil, nil},
	{"Volume", "KHR_materials_volume", map[string]string{"thicknessFactor": "ThicknessFactor", "attenuationDistance": "AttenuationDistance"}, map[string]string{"attenuationColor": "AttenuationColor"}, map[string]string{"thicknessTexture": "Thickness"}},
	{"Transmission", "KHR_materials_transmission", map[string]string{"transmissionFactor": "TransmissionFactor"}, nil, map[string]string{"transmissionTexture": "Transmission"}},
}

func (v *conv) checkMaterials(c *hx.C) {
	used := map[int]bool{}
	for _, o := range v.objs {
		if o.Visible {
			for _, f := range o.Faces {
				used[f.Material] = true
			}
		}
	}
	var want []*mqo.Material
	idx := map[*mqo.Material]int{}
	for i, m := range v.src.Materials {
		if used[i] && !v.ignored(i) {
			want = append(want, m)
			idx[m] = i
		}
	}
	if len(v.out.Materials) != len(want) {
		c.Fatalf("%d materials, want %d", len(v.out.Materials), len(want))
	}
	for i, m := range want {
		v.checkMaterial(c, m, v.out.Materials[i], idx[m])
	}
}

func (v *conv) checkMaterial(c *hx.C, m *mqo.Material, g gltfx.Material, index int) {
	bad := func(what string, got, want interface{}) {
		c.Fatalf("material %q: %s is %v, want %v", m.Name, what, got, want)
	}
	if g.Name != m.Name {
		bad("name", g.Name, m.Name)
	}
	if g.PBR == nil {
		bad("pbr", nil, "present")
	}
	base := g.PBR.BaseColorFactor
	if base == nil {
		base = []float64{1, 1, 1, 1}
	}
	if w := []float64{float64(m.Color.X), float64(m.Color.Y), float64(m.Color.Z), float64(m.Color.W)}; !near(base, w, 1e-6) {
		bad("base color", base, w)
	}
	isGltf := m.Ex2 != nil && m.Ex2.ShaderName == "glTF"
	metal, rough := float64(m.Specular), 0.4
	unlit := v.opt.ForceUnlit
	alpha := "OPAQUE"
	var cutoff *float64
	if isGltf {
		metal, rough = fparam(m, "Metallic"), fparam(m, "Roughness")
		mode, _ := m.Ex2.ShaderParams["AlphaMode"].(int)
		switch mode {
		case 2:
			alpha = "MASK"
			x := fparam(m, "AlphaCutOff")
			cutoff = &x
		case 3:
			alpha = "BLEND"
		}
		u, _ := m.Ex2.ShaderParams["Extensions.Unlit"].(bool)
		unlit = unlit || u || metal == 0 && rough == 1
		for _, e := range extSpecs {
			on, _ := m.Ex2.ShaderParams["Extensions."+e.flag].(bool)
			raw, ok := g.Extensions[e.name]
			if ok != on {
				bad(e.name, string(raw), on)
			}
			if on {
				v.checkExt(c, m, e, raw)
			}
		}
	} else {
		if m.Ex2 == nil && m.Shader == 1 {
			unlit = true
		}
		if m.Color.W < 0.985 {
			alpha = "BLEND"
		} else if m.Color.W < 0.995 {
			alpha = "" // either
		} else if v.opt.DetectAlphaTexture {
			switch v.usesAlpha(m, index) {
			case 1:
				alpha = "BLEND"
			case 2:
				alpha = ""
			}
		}
		for _, e := range extSpecs {
			if _, ok := g.Extensions[e.name]; ok {
				bad(e.name, "present", "absent")
			}
		}
	}
	if math.Abs(opt1(g.PBR.MetallicFactor, 1)-metal) > 1e-6 || math.Abs(opt1(g.PBR.RoughnessFactor, 1)-rough) > 1e-6 {
		bad("metallic/roughness", []float64{opt1(g.PBR.MetallicFactor, 1), opt1(g.PBR.RoughnessFactor, 1)}, []float64{metal, rough})
	}
	mode := g.AlphaMode
	if mode == "" {
		mode = "OPAQUE"
	}
	if alpha != "" && mode != alpha {
		bad("alpha mode", mode, alpha)
	}
	if cutoff != nil && math.Abs(opt1(g.AlphaCutoff, 0.5)-*cutoff) > 1e-6 {
		bad("alpha cutoff", opt1(g.AlphaCutoff, 0.5), *cutoff)
	}
	if _, ok := g.Extensions["KHR_materials_unlit"]; ok != unlit {
		bad("unlit", ok, unlit)
	}
	if g.DoubleSided != m.DoubleSided {
		bad("double sided", g.DoubleSided, m.DoubleSided)
	}
	em := []float64{0, 0, 0}
	if m.EmissionColor != nil {
		em = []float64{float64(m.EmissionColor.X), float64(m.EmissionColor.Y), float64(m.EmissionColor.Z)}
	} else if m.Emission > 0 {
		em = []float64{float64(m.Emission), float64(m.Emission), float64(m.Emission)}
	}
	if s := math.Max(em[0], math.Max(em[1], em[2])); s > 1 {
		em = []float64{em[0] / s, em[1] / s, em[2] / s}
	}
	ge := g.EmissiveFactor
	if ge == nil {
		ge = []float64{0, 0, 0}
	}
	if !near(ge, em, 1e-5) {
		bad("emissive factor", ge, em)
	}
	v.checkTex(c, m.Name+" texture", m.Texture, g.PBR.BaseColorTexture)
	v.checkTex(c, m.Name+" bump", m.BumpTexture, g.NormalTexture)
}

func (v *conv) checkExt(c *hx.C, m *mqo.Material, e extSpec, raw json.RawMessage) {
	var got map[string]interface{}
	if err := json.Unmarshal(raw, &got); err != nil {
		c.Fatalf("material %q: %s: %v", m.Name, e.name, err)
	}
	for k, p := range e.num {
		w := fparam(m, "Extensions."+p)
		g, ok := got[k].(float64)
		if ok != (w != 0) || math.Abs(g-w) > 1e-6 {
			c.Fatalf("material %q: %s.%s is %v, want %v", m.Name, e.name, k, got[k], w)
		}
	}
	for k, p := range e.col {
		w := cparam(m, "Extensions."+p)
		var g []float64
		if l, ok := got[k].([]interface{}); ok {
			for _, x := range l {
				g = append(g, x.(float64))
			}
		}
		if (w == nil) != (g == nil) || w != nil && !near(g, w, 1e-6) {
			c.Fatalf("material %q: %s.%s is %v, want %v", m.Name, e.name, k, g, w)
		}
	}
	for k, p := range e.tex {
		var ti *gltfx.TexInfo
		if o, ok := got[k].(map[string]interface{}); ok {
			f, _ := o["index"].(float64)
			n := int(f)
			ti = &gltfx.TexInfo{Index: &n}
		}
		v.checkTex(c, m.Name+" "+p, m.Ex2.ShaderMapping[p], ti)
	}
}

// usesAlpha: 0 no, 1 yes, 2 cannot tell.
func (v *conv) usesAlpha(m *mqo.Material, index int) int {
	im := v.m.Images[m.Texture]
	if im == nil || !im.Alpha {
		return 0
	}
	lo, hi := [2]float64{math.Inf(1), math.Inf(1)}, [2]float64{math.Inf(-1), math.Inf(-1)}
	for _, o := range v.objs {
		if !o.Visible {
			continue
		}
		for _, f := range o.Faces {
			if f.Material != index || len(f.Verts) < 3 {
				continue
			}
			for _, uv := range f.UVs {
				for k, x := range []float64{float64(uv.X), float64(uv.Y)} {
					lo[k], hi[k] = math.Min(lo[k], x), math.Max(hi[k], x)
				}
			}
		}
	}
	if math.IsInf(lo[0], 0) {
		return 1 // no texture coordinates: the whole picture counts
	}
	b := im.Pix.Bounds()
	wide := [2]int{b.Dx(), b.Dy()}
	// pixels of the (repeating) picture surely inside / near the rectangle
	in := func(k, p int, grow float64) bool {
		n := float64(wide[k])
		a, z := lo[k]*n-grow, hi[k]*n+grow
		if z-a >= n {
			return true
		}
		if math.Floor(lo[k]) != math.Floor(hi[k]) {
			return true // wraps around
		}
		off := math.Floor(lo[k]) * n
		return float64(p)+1 > a-off && float64(p) < z-off
	}
	inside := func(k, p int) bool { // some repetition of the pixel
		n := float64(wide[k])
		for off := math.Floor(lo[k]) * n; off <= hi[k]*n+n; off += n {
			if float64(p)+1+off > lo[k]*n+0.02 && float64(p)+off < hi[k]*n-0.02 {
				return true
			}
		}
		return false
	}
	sure, maybe := false, false
	for y := 0; y < b.Dy(); y++ {
		for x := 0; x < b.Dx(); x++ {
			if _, _, _, a := im.Pix.At(b.Min.X+x, b.Min.Y+y).RGBA(); a == 0xffff {
				continue
			}
			sure = sure || inside(0, x) && inside(1, y)
			maybe = maybe || in(0, x, 1.02) && in(1, y, 1.02)
		}
	}
	if sure {
		return 1
	}
	if maybe {
		return 2
	}
	return 0
}

func (v *conv) checkTex(c *hx.C, what, path string, ti *gltfx.TexInfo) {
	im := v.m.Images[path]
	if path == "" || im == nil {
		if ti != nil {
			c.Fatalf("%s %q: unexpected texture", what, path)
		}
		return
	}
	if ti == nil {
		c.Fatalf("%s %q is missing", what, path)
	}
	ii, err := v.out.TexImage(ti)
	if err != nil {
		c.Fatalf("%s %q: %v", what, path, err)
	}
	data, err := v.out.ImageBytes(ii)
	if err != nil {
		c.Fatalf("%s %q: %v", what, path, err)
	}
	low := strings.ToLower(path)
	mime := "image/png"
	if strings.HasSuffix(low, ".jpg") || strings.HasSuffix(low, ".jpeg") {
		mime = "image/jpeg"
	}
	if v.out.Images[ii].MimeType != mime {
		c.Fatalf("%s %q is stored as %s", what, path, v.out.Images[ii].MimeType)
	}
	native := mime == "image/jpeg" || strings.HasSuffix(low, ".png")
	re := v.opt.TextureReCompress || !native || v.opt.TextureBytesThreshold > 0 && int64(len(im.Data)) > v.opt.TextureBytesThreshold
	if !re {
		if !bytes.Equal(data, im.Data) {
			c.Fatalf("%s %q: the stored picture is not the file (%d bytes, want %d)", what, path, len(data), len(im.Data))
		}
		return
	}
	got, _, err := image.Decode(bytes.NewReader(data))
	if err != nil {
		c.Fatalf("%s %q: %v", what, path, err)
	}
	w, h := im.Pix.Bounds().Dx(), im.Pix.Bounds().Dy()
	sc := float64(v.opt.TextureScale)
	if sc == 0 {
		sc = 1
	}
	gw, gh := got.Bounds().Dx(), got.Bounds().Dy()
	if l := v.opt.TextureResolutionLimit; l > 0 && (gw > l || gh > l) {
		c.Fatalf("%s %q is %dx%d, the limit is %d", what, path, gw, gh, l)
	}
	if l := float64(v.opt.TextureResolutionLimit); l > 0 {
		if k := l / math.Max(float64(w)*sc, float64(h)*sc); k < 1 {
			sc *= k
		}
	}
	// rounding of the size is not specified
	if math.Abs(float64(gw)-math.Max(1, float64(w)*sc)) > 1.01 || math.Abs(float64(gh)-math.Max(1, float64(h)*sc)) > 1.01 {
		c.Fatalf("%s %q: %dx%d became %dx%d, scale %v", what, path, w, h, gw, gh, sc)
	}
	if gw == w && gh == h && sc == 1 && mime == "image/png" {
		for y := 0; y < h; y++ {
			for x := 0; x < w; x++ {
				r0, g0, b0, a0 := im.Pix.At(im.Pix.Bounds().Min.X+x, im.Pix.Bounds().Min.Y+y).RGBA()
				r1, g1, b1, a1 := got.At(x, y).RGBA()
				if diff16(r0, r1) || diff16(g0, g1) || diff16(b0, b1) || diff16(a0, a1) {
					c.Fatalf("%s %q: pixel %d,%d changed: %v -> %v", what, path, x, y, im.Pix.At(x, y), got.At(x, y))
				}
			}
		}
	}
}

func diff16(a, b uint32) bool { return math.Abs(float64(a)-float64(b)) > 0x202 }

func propGltfMaterial(c *hx.C) {
	dir, done := hx.Scratch(c)
	defer done()
	o := gen.FullModel()
	o.Bones, o.Morphs, o.NoNormals = false, false, true
	o.Objects = 2
	m := gen.DrawModel(c.T, o, dir)
	v := convert(c, m, drawOption(c))
	v.checkMaterials(c)
	c.LabelIf(len(v.out.Images) > 0, "textures")
	c.LabelIf(v.opt.DetectAlphaTexture, "detect alpha")
	if len(v.out.Materials) > 0 {
		c.NonTrivial(hx.Dump(v.src.Materials) + fmt.Sprintf("%+v", v.opt))
	}
}

// propGltfAlpha: only a part of each texture is used.
func propGltfAlpha(c *hx.C) {
	dir, done := hx.Scratch(c)
	defer done()
	o := gen.FullModel()
	o.Bones, o.Morphs, o.NoNormals, o.OddMaterials = false, false, true, false
	o.Objects = 3
	m := gen.DrawModel(c.T, o, dir)
	type rect struct{ x, y, w, h float64 }
	part := map[int]rect{}
	for i, mt := range m.Doc.Materials {
		mt.Color.W = 1
		f := func(n string) float64 { return rapid.Float64Range(0, 1).Draw(c.T, n) }
		r := rect{f("x"), f("y"), f("w"), f("h")}
		if gen.Chance(c.T, "shifted", 3) {
			r.x, r.y = r.x+float64(rapid.IntRange(-2, 2).Draw(c.T, "tx")), r.y+float64(rapid.IntRange(-2, 2).Draw(c.T, "ty"))
		}
		part[i] = r
	}
	f := func(n string) float64 { // often the border of the rectangle
		return math.Min(1, math.Max(0, rapid.Float64Range(-0.5, 1.5).Draw(c.T, n)))
	}
	for _, x := range m.Doc.Objects {
		for _, fc := range x.Faces {
			r, ok := part[fc.Material]
			if !ok {
				continue
			}
			fc.UVs = nil
			for range fc.Verts {
				fc.UVs = append(fc.UVs, geom.Vector2{X: float32(r.x + r.w*f("u")), Y: float32(r.y + r.h*f("v"))})
			}
		}
	}
	opt := drawOption(c)
	opt.DetectAlphaTexture = true
	v := convert(c, m, opt)
	v.checkMaterials(c)
	for i, mt := range v.src.Materials {
		if v.m.Images[mt.Texture] != nil && v.m.Images[mt.Texture].Alpha && v.used(i) {
			c.Label([]string{"opaque part", "transparent part", "border"}[v.usesAlpha(mt, i)])
		}
	}
	if len(v.out.Materials) > 0 {
		c.NonTrivial(hx.Dump(v.src.Materials) + hx.Dump(v.src.Objects) + fmt.Sprintf("%+v", v.opt))
	}
}

func (v *conv) used(index int) bool {
	for _, o := range v.objs {
		for _, f := range o.Faces {
			if o.Visible && f.Material == index && len(f.Verts) > 2 {
				return true
			}
		}
	}
	return false
}

func TestC26(t *testing.T) {
	hx.Main(t, "C26", hx.Leg{Name: "alpha", Quick: 3000, Prop: propGltfAlpha}, hx.Leg{Name: "materials", Quick: 800, Prop: propGltfMaterial})
}

var _ = geom.Vector3{}
