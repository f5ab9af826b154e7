package convc

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"strings"
	"testing"

	"github.com/binzume/modelconv/geom"
	"github.com/binzume/modelconv/gltfutil"
	"github.com/qmuntal/gltf"
	"pgregory.net/rapid"

	"verif/harness/gen"
	"verif/harness/gltfx"
	"verif/harness/hx"
)

// memory reads a document with the independent reader without encoding it to
// a file.
func memory(c *hx.C, doc *gltf.Document, dir string) *gltfx.Doc {
	js, err := json.Marshal(doc)
	if err != nil {
		c.Fatalf("cannot marshal: %v", err)
	}
	var bufs [][]byte
	for _, b := range doc.Buffers {
		bufs = append(bufs, b.Data)
	}
	d, err := gltfx.FromJSON(js, bufs, dir)
	if err != nil {
		c.Fatalf("cannot be read: %v", err)
	}
	return d
}

func drawGLTF(c *hx.C, o gltfx.DrawOpts, dir string) (*gltfx.Doc, *gltf.Document, string) {
	d := gltfx.Draw(c.T, o)
	dir = filepath.Join(dir, "src") // pictures may lie in a folder beside it
	os.MkdirAll(dir, 0755)
	path := d.Write(c.T, dir)
	c.DescF(func() string { b, _ := json.MarshalIndent(d.JSON, "", " "); return string(b) })
	before, err := gltfx.Load(path)
	if err != nil {
		panic("generator: " + err.Error())
	}
	if errs := before.Validate(); len(errs) > 0 && !d.Missing {
		panic(fmt.Sprint("generator: ", errs))
	}
	doc, err := gltfutil.Load(path)
	if err != nil {
		c.Fatalf("cannot be loaded: %v", err)
	}
	return before, doc, path
}

func nearList(a, b []float64, tol float64) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !(math.Abs(a[i]-b[i]) <= tol*(1+math.Abs(a[i]))) {
			return false
		}
	}
	return true
}

// samePrims compares two scenes node by node; at maps points of the first to
// points of the second.
func samePrims(c *hx.C, what string, a, b *gltfx.Doc, wa, wb []gen.M, at func(gen.P3) gen.P3, normals bool, tol func(node int, p *gltfx.Prim) float64) {
	if len(a.Nodes) != len(b.Nodes) {
		c.Fatalf("%s: %d nodes, want %d", what, len(b.Nodes), len(a.Nodes))
	}
	for i := range a.Nodes {
		pa, err := a.Prims(i, wa)
		if err != nil {
			panic(err)
		}
		pb, err := b.Prims(i, wb)
		if err != nil {
			c.Fatalf("%s: node %d: %v", what, i, err)
		}
		if len(pa) != len(pb) {
			c.Fatalf("%s: node %d has %d primitives, want %d", what, i, len(pb), len(pa))
		}
		for k := range pa {
			x, y := &pa[k], &pb[k]
			w := fmt.Sprintf("%s: node %d primitive %d", what, i, k)
			e := tol(i, x)
			if len(x.Pos) != len(y.Pos) || len(x.Targets) != len(y.Targets) || fmt.Sprint(x.Tris) != fmt.Sprint(y.Tris) || x.Material != y.Material || x.Mode != y.Mode || len(x.Normals) != len(y.Normals) || len(x.UV) != len(y.UV) {
				c.Fatalf("%s: %d vertices %d targets triangles %v material %d mode %d %d normals %d uvs, want %d %d %v %d %d %d %d", w, len(y.Pos), len(y.Targets), y.Tris, y.Material, y.Mode, len(y.Normals), len(y.UV),
					len(x.Pos), len(x.Targets), x.Tris, x.Material, x.Mode, len(x.Normals), len(x.UV))
			}
			for v := range x.Pos {
				if q := at(x.Pos[v]); !(q.Dist(y.Pos[v]) <= e) {
					c.Fatalf("%s: vertex %d is at %v, want %v (tolerance %v)", w, v, y.Pos[v], q, e)
				}
				for t := range x.Targets {
					if q := at(x.Targets[t][v]); !(q.Dist(y.Targets[t][v]) <= e) {
						c.Fatalf("%s: vertex %d with target %d is at %v, want %v", w, v, t, y.Targets[t][v], q)
					}
				}
				if x.UV != nil && fmt.Sprint(x.UV[v]) != fmt.Sprint(y.UV[v]) {
					c.Fatalf("%s: vertex %d has uv %v, want %v", w, v, y.UV[v], x.UV[v])
				}
				if normals && x.Normals != nil && regular(x.Mats[v]) && x.Normals[v].Norm().Dist(y.Normals[v].Norm()) > 1e-3 {
					c.Fatalf("%s: vertex %d has normal %v, want %v", w, v, y.Normals[v].Norm(), x.Normals[v].Norm())
				}
			}
		}
	}
}

// regular reports whether a blended matrix is far enough from being singular
// for normals to be compared.
func regular(m gen.M) bool {
	a, b, c := gen.P3{m[0], m[1], m[2]}, gen.P3{m[4], m[5], m[6]}, gen.P3{m[8], m[9], m[10]}
	lo := math.Min(a.Len(), math.Min(b.Len(), c.Len()))
	hi := math.Max(a.Len(), math.Max(b.Len(), c.Len()))
	return lo > 1e-3*hi && math.Abs(a.Cross(b).Dot(c)) > 0.2*a.Len()*b.Len()*c.Len()
}

// extent bounds the size of the numbers that make up the vertices of a node.
func extent(d *gltfx.Doc, w []gen.M, node int, p *gltfx.Prim) float64 {
	m := 1.0
	for _, x := range p.Pos {
		m = math.Max(m, x.Len())
	}
	for _, t := range p.Targets {
		for _, x := range t {
			m = math.Max(m, x.Len())
		}
	}
	if s := d.Nodes[node].Skin; s != nil {
		sk := d.Skins[*s]
		ib := 1.0
		if sk.IBM != nil {
			v, _ := d.Read(*sk.IBM)
			for _, x := range v {
				for _, y := range x {
					ib = math.Max(ib, math.Abs(y))
				}
			}
		}
		wm := 1.0
		for _, j := range sk.Joints {
			wm = math.Max(wm, w[j].MaxAbs())
		}
		m = math.Max(m, ib*wm*20)
	} else {
		m = math.Max(m, w[node].MaxAbs()*20)
	}
	return m
}

// docSame compares parts of the document with those of the file at path.
func docSame(c *hx.C, what string, path string, b *gltfx.Doc, keys ...string) {
	doc, err := gltfutil.Load(path)
	if err != nil {
		panic(err)
	}
	a := memory(c, doc, "")
	for _, k := range keys {
		if d := hx.Diff(b.Raw[k], a.Raw[k], 0); d != "" {
			c.Fatalf("%s: %s changed: %s", what, k, d)
		}
	}
}

func propScale(c *hx.C) {
	dir, done := hx.Scratch(c)
	defer done()
	o := gltfx.FullDraw()
	o.FreeBind = true
	o.NodeScale = 2
	s := gen.P3{1, 1, 1}
	s[0] = float64(rapid.SampledFrom([]float32{1, 2, 0.5, 0.08, 1.5, 10, 1000}).Draw(c.T, "scale"))
	s[1], s[2] = s[0], s[0]
	uniform := !gen.Chance(c.T, "nonuniform", 3)
	if !uniform {
		s[1] = float64(rapid.SampledFrom([]float32{1, 2, 0.25, 1.5}).Draw(c.T, "scaleY"))
		s[2] = float64(rapid.SampledFrom([]float32{1, 3, 0.25, 1.5}).Draw(c.T, "scaleZ"))
		o.Rotations = false
	}
	before, doc, path := drawGLTF(c, o, dir)
	c.Desc("scale %v", s)
	gltfutil.ApplyTransform(doc, geom.NewScaleMatrix4(float32(s[0]), float32(s[1]), float32(s[2])))
	after := memory(c, doc, filepath.Dir(path))
	at := func(p gen.P3) gen.P3 { return gen.P3{p[0] * s[0], p[1] * s[1], p[2] * s[2]} }
	if errs := after.Validate(); len(errs) > 0 {
		ok := len(before.Validate()) > 0
		if !ok {
			c.Fatalf("the scaled document is not valid: %v", errs)
		}
	}
	wa, wb := before.Worlds(before.Local), after.Worlds(after.Local)
	big := math.Max(s[0], math.Max(s[1], s[2]))
	small := math.Min(s[0], math.Min(s[1], s[2]))
	tol := func(n int, p *gltfx.Prim) float64 {
		return 2e-5 * extent(before, wa, n, p) * math.Max(1, big) * math.Max(1, big/small)
	}
	samePrims(c, "scaled", before, after, wa, wb, at, uniform, tol)
	sm := gen.ScaleM(s)
	par := before.Parents()
	for i := range wa {
		want := sm.Mul(wa[i]).Mul(sm.Inv())
		m := 1.0
		for k := i; k >= 0; k = par[k] {
			m = math.Max(m, math.Max(sm.Mul(wa[k]).MaxAbs(), wa[k].MaxAbs()))
		}
		if d := want.MaxDiff(wb[i]); !(d <= 1e-5*m*m) {
			c.Fatalf("node %d is at %v, want %v", i, wb[i], want)
		}
	}
	// animations
	if len(before.Animations) != len(after.Animations) {
		c.Fatalf("%d animations, want %d", len(after.Animations), len(before.Animations))
	}
	anim := false
	for i, a := range before.Animations {
		b := after.Animations[i]
		if len(a.Channels) != len(b.Channels) {
			c.Fatalf("animation %d: %d channels, want %d", i, len(b.Channels), len(a.Channels))
		}
		for k, ca := range a.Channels {
			cb := b.Channels[k]
			if *ca.Target.Node != *cb.Target.Node || ca.Target.Path != cb.Target.Path || a.Samplers[ca.Sampler].Interpolation != b.Samplers[cb.Sampler].Interpolation && a.Samplers[ca.Sampler].Interpolation != "LINEAR" {
				c.Fatalf("animation %d channel %d: %+v, want %+v", i, k, cb, ca)
			}
			ia, _ := before.Read(a.Samplers[ca.Sampler].Input)
			ib, err := after.Read(b.Samplers[cb.Sampler].Input)
			oa, _ := before.Read(a.Samplers[ca.Sampler].Output)
			ob, err2 := after.Read(b.Samplers[cb.Sampler].Output)
			if err != nil || err2 != nil || fmt.Sprint(ia) != fmt.Sprint(ib) || len(oa) != len(ob) {
				c.Fatalf("animation %d channel %d: keys changed (%v %v)", i, k, err, err2)
			}
			for x := range oa {
				w := oa[x]
				if ca.Target.Path == "translation" {
					anim = true
					p := at(gen.P3{w[0], w[1], w[2]})
					w = p[:]
				}
				if !nearList(w, ob[x], 1e-5) {
					c.Fatalf("animation %d channel %d (%s): value %d is %v, want %v", i, k, ca.Target.Path, x, ob[x], w)
				}
			}
		}
	}
	docSame(c, "scaled", path, after, "materials", "textures", "images", "scenes", "skins", "meshes")
	skinned, static, targets := false, false, false
	for _, n := range before.Nodes {
		if n.Mesh != nil {
			skinned = skinned || n.Skin != nil
			static = static || n.Skin == nil
			targets = targets || len(before.Meshes[*n.Mesh].Primitives[0].Targets) > 0
		}
	}
	c.LabelIf(skinned, "skinned")
	c.LabelIf(static, "static")
	c.LabelIf(targets, "targets")
	c.LabelIf(anim, "animated")
	c.LabelIf(!uniform, "nonuniform")
	if skinned || static {
		c.NonTrivial(hx.Dump(before.Raw) + fmt.Sprint(s))
	}
}

func TestC17(t *testing.T) {
	hx.Main(t, "C17", hx.Leg{Name: "scale", Quick: 1000, Prop: propScale})
}

// ---- single file and joint normalisation

func reload(c *hx.C, doc *gltf.Document, path string) *gltfx.Doc {
	if err := gltf.SaveBinary(doc, path); err != nil {
		c.Fatalf("cannot be saved: %v", err)
	}
	d, err := gltfx.Load(path)
	if err != nil {
		c.Fatalf("the saved file cannot be read: %v", err)
	}
	return d
}

func checkImages(c *hx.C, before, after *gltfx.Doc) int {
	if len(before.Images) != len(after.Images) {
		c.Fatalf("%d images, want %d", len(after.Images), len(before.Images))
	}
	n := 0
	for i, im := range before.Images {
		want, err := before.ImageBytes(i)
		if err != nil {
			if after.Images[i].URI != im.URI || after.Images[i].BufferView != nil {
				c.Fatalf("image %d is missing and became %+v", i, after.Images[i])
			}
			continue
		}
		x := after.Images[i]
		if x.BufferView == nil && !strings.HasPrefix(x.URI, "data:") {
			c.Fatalf("image %d is still outside: %q", i, x.URI)
		}
		got, err := after.ImageBytes(i)
		if err != nil || !bytes.Equal(got, want) {
			c.Fatalf("image %d (%q) has %d bytes (%v), want %d", i, im.URI, len(got), err, len(want))
		}
		if x.BufferView != nil {
			want := "image/jpeg"
			if bytes.HasPrefix(got, []byte("\x89PNG")) {
				want = "image/png"
			}
			if x.MimeType != want {
				c.Fatalf("image %d: type %q, want %q", i, x.MimeType, want)
			}
		}
		if im.BufferView == nil && !strings.HasPrefix(im.URI, "data:") {
			n++
		}
		if x.Name != im.Name {
			c.Fatalf("image %d: name %q, want %q", i, x.Name, im.Name)
		}
	}
	return n
}

func checkValid(c *hx.C, before, after *gltfx.Doc) {
	if len(before.Validate()) > 0 {
		return // a picture is missing
	}
	for _, e := range after.Validate() {
		if strings.Contains(e, "alphaCutoff without MASK") {
			continue // a configuration may change the mode; the cutoff is then unused
		}
		c.Fatalf("the result is not valid: %v", e)
	}
}

func propSingle(c *hx.C) {
	dir, done := hx.Scratch(c)
	defer done()
	o := gltfx.FullDraw()
	o.FreeBind, o.NodeScale, o.MatExt = true, 2, true
	before, doc, path := drawGLTF(c, o, dir)
	src := filepath.Dir(path)
	if gen.Bool(c.T, "relative") {
		if wd, err := os.Getwd(); err == nil {
			if r, err := filepath.Rel(wd, src); err == nil {
				src = r
			}
		}
	}
	if err := gltfutil.ToSingleFile(doc, src); err != nil {
		c.Fatalf("failed: %v", err)
	}
	joints := gen.Bool(c.T, "joints")
	if joints {
		gltfutil.FixJointComponentType(doc)
	}
	out := filepath.Join(dir, "out")
	os.MkdirAll(out, 0755)
	after := reload(c, doc, filepath.Join(out, "x.glb"))
	if l, _ := os.ReadDir(out); len(l) != 1 {
		c.Fatalf("%d files were written", len(l))
	}
	checkValid(c, before, after)
	embedded := checkImages(c, before, after)
	w := before.Worlds(before.Local)
	samePrims(c, "single file", before, after, w, after.Worlds(after.Local), func(p gen.P3) gen.P3 { return p }, true, func(n int, p *gltfx.Prim) float64 { return 1e-6 * extent(before, w, n, p) })
	docSame(c, "single file", path, after, "materials", "textures", "scenes", "skins", "meshes", "nodes", "animations")
	for i := range before.Accessors {
		a, err := before.Read(i)
		b, err2 := after.Read(i)
		if err != nil || err2 != nil || fmt.Sprint(a) != fmt.Sprint(b) {
			c.Fatalf("accessor %d: %v, want %v (%v)", i, b, a, err2)
		}
	}
	if joints {
		for _, m := range after.Meshes {
			for _, p := range m.Primitives {
				if a, ok := p.Attributes["JOINTS_0"]; ok && after.Accessors[a].ComponentType != 5123 {
					c.Fatalf("joints have component type %d", after.Accessors[a].ComponentType)
				}
			}
		}
	}
	c.LabelIf(len(before.Buffers) > 1, "buffers")
	c.LabelIf(embedded > 0, "embedded")
	c.LabelIf(len(before.Skins) > 0, "skin")
	if len(before.Accessors) > 0 || embedded > 0 {
		c.NonTrivial(hx.Dump(before.Raw))
	}
}

func propReset(c *hx.C) {
	dir, done := hx.Scratch(c)
	defer done()
	o := gltfx.FullDraw()
	o.Images, o.Animations, o.Chain = false, false, true
	o.FreeBind = gen.Bool(c.T, "free")
	before, doc, path := drawGLTF(c, o, dir)
	gltfutil.ResetJointMatrix(doc)
	after := memory(c, doc, dir)
	checkValid(c, before, after)
	wa, wb := before.Worlds(before.Local), after.Worlds(after.Local)
	samePrims(c, "joints reset", before, after, wa, wb, func(p gen.P3) gen.P3 { return p }, true, func(n int, p *gltfx.Prim) float64 { return 5e-5 * extent(before, wa, n, p) })
	par := before.Parents()
	rotated := false
	for i, n := range after.Nodes {
		pa, pb := gen.P3{wa[i][12], wa[i][13], wa[i][14]}, gen.P3{wb[i][12], wb[i][13], wb[i][14]}
		m := 1.0
		for k := i; k >= 0; k = par[k] {
			m = math.Max(m, wa[k].MaxAbs())
		}
		if !(pa.Dist(pb) <= 1e-4*m) {
			c.Fatalf("node %d is at %v, want %v", i, pb, pa)
		}
		if n.Mesh != nil {
			continue
		}
		l := after.Local(i)
		for k := 0; k < 11; k++ {
			if k%5 != 0 && k%4 != 3 && math.Abs(l[k]) > 1e-5*l.MaxAbs() || k%5 == 0 && l[k] <= 0 {
				c.Fatalf("node %d still has rotation %v matrix %v", i, n.Rotation, n.Matrix)
			}
		}
		rotated = rotated || before.Nodes[i].Rotation != nil
	}
	docSame(c, "joints reset", path, after, "materials", "scenes", "meshes")
	for i, s := range before.Skins {
		if fmt.Sprint(s.Joints) != fmt.Sprint(after.Skins[i].Joints) {
			c.Fatalf("skin %d has the joints %v, want %v", i, after.Skins[i].Joints, s.Joints)
		}
	}
	skinned := false
	for _, n := range before.Nodes {
		skinned = skinned || n.Skin != nil
	}
	c.LabelIf(skinned, "skinned")
	c.LabelIf(rotated, "rotated")
	c.LabelIf(len(before.Nodes) > 7, "chain")
	if rotated {
		c.NonTrivial(hx.Dump(before.Raw))
	}
}

func TestC18(t *testing.T) {
	hx.Main(t, "C18",
		hx.Leg{Name: "single", Quick: 700, Prop: propSingle},
		hx.Leg{Name: "reset", Quick: 700, Prop: propReset},
	)
}
