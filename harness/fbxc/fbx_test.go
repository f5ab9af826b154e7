// Package fbxc checks reading and writing of FBX files.
package fbxc

import (
	"bytes"
	"encoding/base64"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"reflect"
	"strings"
	"testing"

	"github.com/binzume/modelconv/fbx"
	"github.com/binzume/modelconv/geom"
	"pgregory.net/rapid"

	"verif/harness/gen"
	"verif/harness/hx"
)

func show(kids []*gen.FN, d int) string {
	var sb strings.Builder
	for _, k := range kids {
		fmt.Fprintf(&sb, "%s%s", strings.Repeat(" ", d), k.Name)
		for _, a := range k.Attrs {
			s := fmt.Sprintf("%#v", a)
			if len(s) > 200 {
				s = s[:200] + "..."
			}
			fmt.Fprintf(&sb, " | %s", s)
		}
		sb.WriteString("\n")
		sb.WriteString(show(k.Kids, d+1))
	}
	return sb.String()
}

func nontrivialTree(c *hx.C, kids []*gen.FN, how string) {
	n, a, d := gen.FBXCount(kids)
	c.LabelIf(d >= 2, "nested")
	if n >= 2 && a >= 2 {
		c.NonTrivial(how + show(kids, 0))
	}
}

// exact comparison of a parsed tree with the reference tree (binary files).
func diffTree(path string, got []*fbx.Node, want []*gen.FN) string {
	if len(got) != len(want) {
		var names []string
		for _, g := range got {
			names = append(names, g.Name)
		}
		return fmt.Sprintf("%s: %d nodes %v, want %d", path, len(got), names, len(want))
	}
	for i, w := range want {
		g := got[i]
		p := fmt.Sprintf("%s/%s[%d]", path, w.Name, i)
		if g.Name != w.Name {
			return fmt.Sprintf("%s: name %q", p, g.Name)
		}
		if len(g.Attributes) != len(w.Attrs) {
			return fmt.Sprintf("%s: %d attributes, want %d", p, len(g.Attributes), len(w.Attrs))
		}
		for j, a := range w.Attrs {
			if !sameValue(g.Attributes[j].Value, a) {
				return fmt.Sprintf("%s: attribute %d is %T %v, want %T %v", p, j, g.Attributes[j].Value, g.Attributes[j].Value, a, a)
			}
		}
		if d := diffTree(p, g.Children, w.Kids); d != "" {
			return d
		}
	}
	return ""
}

func sameValue(g, w interface{}) bool {
	if reflect.DeepEqual(g, w) {
		return true
	}
	gv, wv := reflect.ValueOf(g), reflect.ValueOf(w)
	return gv.IsValid() && gv.Type() == wv.Type() && gv.Kind() == reflect.Slice && gv.Len() == 0 && wv.Len() == 0
}

// number tells whether v is a scalar number, as exact integer or as float.
func number(v interface{}) (i int64, f float64, isInt, ok bool) {
	rv := reflect.ValueOf(v)
	switch rv.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return rv.Int(), float64(rv.Int()), true, true
	case reflect.Uint8:
		return int64(rv.Uint()), float64(rv.Uint()), true, true
	case reflect.Float32, reflect.Float64:
		return 0, rv.Float(), false, true
	}
	return
}

// sameNumber compares a number read from text with the one that was written.
func sameNumber(g, w interface{}) bool {
	gi, gf, gInt, ok := number(g)
	if !ok {
		return false
	}
	wi, wf, wInt, _ := number(w)
	if wInt && gInt {
		return gi == wi
	}
	if _, is32 := w.(float32); is32 {
		return float32(gf) == float32(wf)
	}
	return gf == wf && !wInt // an integer must not come back as a float
}

// sameText compares an attribute list read from an ASCII file.
func sameText(got []interface{}, want []interface{}, flat bool, str func(string) string) string {
	var w []interface{}
	for _, a := range want {
		rv := reflect.ValueOf(a)
		_, isBytes := a.([]byte)
		if flat && rv.Kind() == reflect.Slice && !isBytes && rv.Len() > 0 {
			for i := 0; i < rv.Len(); i++ {
				w = append(w, rv.Index(i).Interface())
			}
			continue
		}
		w = append(w, a)
	}
	if len(got) != len(w) {
		return fmt.Sprintf("%d attributes %v, want %d %v", len(got), got, len(w), w)
	}
	for i, a := range w {
		g := got[i]
		rv, gv := reflect.ValueOf(a), reflect.ValueOf(g)
		ok := false
		switch x := a.(type) {
		case string:
			s, is := g.(string)
			ok = is && s == str(gen.FBXName(x))
		case []byte:
			s, is := g.(string)
			ok = is && s == base64.StdEncoding.EncodeToString(x)
		default:
			if rv.Kind() == reflect.Slice {
				ok = gv.IsValid() && gv.Kind() == reflect.Slice && gv.Len() == rv.Len()
				for j := 0; ok && j < rv.Len(); j++ {
					gj, wj := gv.Index(j).Interface(), rv.Index(j).Interface()
					if _, _, isInt, _ := number(wj); isInt {
						ok = sameNumber(gj, wj)
					} else {
						_, gf, _, isNum := number(gj)
						_, wf, _, _ := number(wj)
						if rv.Type().Elem().Kind() == reflect.Float32 {
							ok = isNum && float32(gf) == float32(wf)
						} else {
							ok = isNum && gf == wf
						}
					}
				}
			} else {
				ok = sameNumber(g, a)
			}
		}
		if !ok {
			return fmt.Sprintf("attribute %d is %T %v, want %T %v", i, g, g, a, a)
		}
	}
	return ""
}

func values(n *fbx.Node) []interface{} {
	var r []interface{}
	for _, a := range n.Attributes {
		r = append(r, a.Value)
	}
	return r
}

func diffText(path string, got []*fbx.Node, want []*gen.FN, flat bool, str func(string) string) string {
	if len(got) != len(want) {
		var names []string
		for _, g := range got {
			names = append(names, g.Name)
		}
		return fmt.Sprintf("%s: %d nodes %v, want %d", path, len(got), names, len(want))
	}
	for i, w := range want {
		g := got[i]
		p := fmt.Sprintf("%s/%s[%d]", path, w.Name, i)
		if g.Name != w.Name {
			return fmt.Sprintf("%s: name %q", p, g.Name)
		}
		if d := sameText(values(g), w.Attrs, flat, str); d != "" {
			return p + ": " + d
		}
		if d := diffText(p, g.Children, w.Kids, flat, str); d != "" {
			return d
		}
	}
	return ""
}

// drawTree draws a node list that never looks like a scene (the scene legs do
// that): names with a meaning only appear below the top level.
func drawTree(c *hx.C, long int) []*gen.FN { return gen.FBXTree(c.T, "n", 3, long) }

// ---- C05 ----

func propBinary(long int) func(c *hx.C) {
	return func(c *hx.C) {
		kids := drawTree(c, long)
		o := gen.DrawFBXBin(c.T)
		data, _ := gen.EncodeFBX(kids, o)
		c.Desc("%+v\n%s", o, show(kids, 0))
		nontrivialTree(c, kids, fmt.Sprint(o))
		check := func(how string, doc *fbx.Document, err error) {
			if err != nil {
				c.Fatalf("%s: %v", how, err)
			}
			if d := diffTree("", doc.RawNode.Children, kids); d != "" {
				c.Fatalf("%s: %s", how, d)
			}
		}
		doc, err := fbx.Parse(bytes.NewReader(data))
		check("seekable", doc, err)
		doc, err = fbx.Parse(gen.Chunked(c.T, data))
		check("stream", doc, err)
		dir, done := hx.Scratch(c)
		defer done()
		p := filepath.Join(dir, "x.fbx")
		os.WriteFile(p, data, 0644)
		doc, err = fbx.Load(p)
		check("Load", doc, err)
	}
}

func propText(c *hx.C) {
	kids := drawTree(c, 30)
	o := gen.DrawFBXText(c.T)
	data := gen.EmitFBXText(kids, o)
	c.DescF(func() string { return fmt.Sprintf("%+v\n%s", o, data) })
	nontrivialTree(c, kids, fmt.Sprint(o))
	c.LabelIf(o.Flat, "flat arrays")
	str := func(s string) string {
		if o.CRLF {
			return strings.ReplaceAll(s, "\n", "\r\n")
		}
		return s
	}
	for i := 0; i < 2; i++ {
		var doc *fbx.Document
		var err error
		if i == 0 {
			doc, err = fbx.Parse(bytes.NewReader(data))
		} else {
			doc, err = fbx.Parse(gen.Chunked(c.T, data))
		}
		if err != nil {
			c.Fatalf("Parse: %v", err)
		}
		if d := diffText("", doc.RawNode.Children, kids, o.Flat, str); d != "" {
			c.Fatalf("%s", d)
		}
	}
}

func near(a, b, tol float64) bool { return math.Abs(a-b) <= tol*math.Max(1, math.Abs(b)) }

func scale(ms ...gen.M) float64 {
	s := 1.0
	for _, m := range ms {
		s = math.Max(s, m.MaxAbs())
	}
	return s
}

// checkScene compares a document's objects with the scene it was made from.
func checkScene(c *hx.C, how string, s *gen.FScene, doc *fbx.Document) {
	bin := func(name, class string) []string {
		return []string{name + "::" + class, class + "::" + name}
	}
	named := func(got string, want []string) bool { return got == want[0] || got == want[1] }
	var kids func(p int) []int
	kids = func(p int) (r []int) {
		for i, m := range s.Models {
			if m.Parent == p {
				r = append(r, i)
			}
		}
		return
	}
	if d := gen.MatOf(doc.CoordMatrix()).MaxDiff(s.Coord()); d > 0 {
		c.Fatalf("%s: CoordMatrix %v, want %v", how, doc.CoordMatrix(), s.Coord())
	}
	var walk func(m *fbx.Model, p int)
	walk = func(m *fbx.Model, p int) {
		want := kids(p)
		got := m.GetChildModels()
		if len(got) != len(want) {
			c.Fatalf("%s: model %d has %d children, want %d", how, p, len(got), len(want))
		}
		for i, k := range want {
			w, g := s.Models[k], got[i]
			if !named(g.Name(), bin(w.Name, "Model")) || g.Kind() != w.Kind || !s.V61 && g.ID() != w.ID {
				c.Fatalf("%s: model %d is %q %q %d, want %q %q %d", how, k, g.Name(), g.Kind(), g.ID(), w.Name, w.Kind, w.ID)
			}
			if doc.ObjectByID[g.ID()] != fbx.Object(g) {
				c.Fatalf("%s: ObjectByID[%d] is not the model", how, w.ID)
			}
			if m.FindChildModel(w.Name) != g {
				c.Fatalf("%s: FindChildModel(%q) does not find the model", how, w.Name)
			}
			if g.Parent != m {
				c.Fatalf("%s: parent of model %q", how, w.Name)
			}
			ref := s.World(k)
			if d := gen.MatOf(g.GetWorldMatrix()).MaxDiff(ref); d > 1e-4*scaleOf(s, k) {
				c.Fatalf("%s: world matrix of %q is %v, want %v (diff %g)", how, w.Name, g.GetWorldMatrix(), ref, d)
			}
			geo := g.GetGeometry()
			if (geo != nil) != (w.Geo >= 0) {
				c.Fatalf("%s: geometry of %q: %v", how, w.Name, geo)
			}
			if geo != nil {
				checkGeo(c, how, s, s.Geos[w.Geo], geo)
			}
			mats := g.FindRefs("Material")
			if len(mats) != len(w.Mats) {
				c.Fatalf("%s: %q has %d materials, want %d", how, w.Name, len(mats), len(w.Mats))
			}
			for j, mi := range w.Mats {
				if !s.V61 && mats[j].ID() != s.Mats[mi].ID || !named(mats[j].Name(), bin(s.Mats[mi].Name, "Material")) {
					c.Fatalf("%s: material %d of %q", how, j, w.Name)
				}
			}
			walk(g, k)
		}
	}
	walk(doc.Scene, -1)
	if len(doc.Materials) != len(s.Mats) {
		c.Fatalf("%s: %d materials, want %d", how, len(doc.Materials), len(s.Mats))
	}
	for i, w := range s.Mats {
		g := doc.Materials[i]
		if !named(g.Name(), bin(w.Name, "Material")) {
			c.Fatalf("%s: material %q, want %q", how, g.Name(), w.Name)
		}
		col := func(n string, v *gen.P3) {
			def := &geom.Vector3{X: 0.125, Y: 0.25, Z: 0.5}
			want := gen.V(def)
			if v != nil {
				want = *v
			}
			if got := gen.V(g.GetColor(n, def)); got.Dist(want) > 1e-5 {
				c.Fatalf("%s: %s of %q is %v, want %v", how, n, w.Name, got, want)
			}
		}
		fac := func(n string, v *float64, def float64) {
			want := def
			if v != nil {
				want = *v
			}
			if got := float64(g.GetFactor(n, 0.75)); !near(got, want, 1e-5) {
				c.Fatalf("%s: %s of %q is %v, want %v", how, n, w.Name, got, want)
			}
		}
		col("DiffuseColor", w.Diffuse)
		col("SpecularColor", w.SpecC)
		col("EmissiveColor", w.EmiC)
		col("AmbientColor", w.AmbC)
		dd := 0.75
		if s.TmplDif != nil {
			dd = *s.TmplDif
		}
		fac("DiffuseFactor", w.DifF, dd)
		fac("Opacity", w.Opacity, 0.75)
		fac("ShininessExponent", w.Power, 0.75)
		tex := g.GetTexture("DiffuseColor")
		if (tex != nil) != (w.Tex != "") || tex != nil && tex.FindChild("RelativeFilename").GetString() != w.Tex {
			c.Fatalf("%s: texture of %q: %v, want %q", how, w.Name, tex, w.Tex)
		}
	}
}

func scaleOf(s *gen.FScene, k int) float64 {
	r := 1.0
	for ; k >= 0; k = s.Models[k].Parent {
		r *= math.Max(1, s.Local(k).MaxAbs())
	}
	return math.Max(r, 1)
}

func checkGeo(c *hx.C, how string, s *gen.FScene, w *gen.FGeo, g *fbx.Geometry) {
	if len(g.Vertices) != len(w.Verts) {
		c.Fatalf("%s: %d vertices, want %d", how, len(g.Vertices), len(w.Verts))
	}
	for i, v := range w.Verts {
		if gen.V(g.Vertices[i]).Dist(v) > 1e-5 {
			c.Fatalf("%s: vertex %d is %v, want %v", how, i, g.Vertices[i], v)
		}
	}
	n := 0
	if len(g.Polygons) != len(w.Polys) {
		c.Fatalf("%s: %d polygons, want %d", how, len(g.Polygons), len(w.Polys))
	}
	for i, p := range w.Polys {
		n += len(p)
		if !reflect.DeepEqual(g.Polygons[i], p) {
			c.Fatalf("%s: polygon %d is %v, want %v", how, i, g.Polygons[i], p)
		}
	}
	if g.PolygonVertexCount != n {
		c.Fatalf("%s: PolygonVertexCount %d, want %d", how, g.PolygonVertexCount, n)
	}
	var clusters, shapes []*fbx.Deformer
	for _, d := range g.GetDeformers() {
		if d.Kind() == "BlendShapeChannel" {
			shapes = append(shapes, d)
		} else {
			clusters = append(clusters, d)
		}
	}
	if len(clusters) != len(w.Skin) || len(shapes) != len(w.Shapes) {
		c.Fatalf("%s: %d clusters and %d shapes, want %d and %d", how, len(clusters), len(shapes), len(w.Skin), len(w.Shapes))
	}
	for i, x := range w.Skin {
		d := clusters[i]
		if m := d.GetTarget(); m == nil || !s.V61 && m.ID() != s.Models[x.Model].ID || !strings.Contains(m.Name(), s.Models[x.Model].Name) {
			c.Fatalf("%s: cluster %d target", how, i)
		}
		ix, ws := d.GetIndexes(), d.GetWeights()
		if len(ix) != len(x.Idx) || len(ws) != len(x.W) {
			c.Fatalf("%s: cluster %d: %v %v, want %v %v", how, i, ix, ws, x.Idx, x.W)
		}
		for j := range ix {
			if int(ix[j]) != x.Idx[j] || ws[j] != float32(x.W[j]) {
				c.Fatalf("%s: cluster %d: %v %v, want %v %v", how, i, ix, ws, x.Idx, x.W)
			}
		}
		if gen.MatOf(d.GetTransformLink()).MaxDiff(x.Link) > 1e-5*scale(x.Link) {
			c.Fatalf("%s: TransformLink %v, want %v", how, d.GetTransformLink(), x.Link)
		}
	}
	shape := func(g *fbx.GeometryShape, x gen.FShape) {
		if !strings.Contains(g.Name(), x.Name) {
			c.Fatalf("%s: shape %q, want %q", how, g.Name(), x.Name)
		}
		ix, vs := g.GetIndexes(), g.GetVertices()
		if len(ix) != len(x.Idx) || len(vs) != len(x.Off) {
			c.Fatalf("%s: shape: %v %v, want %v %v", how, ix, vs, x.Idx, x.Off)
		}
		for j := range ix {
			if int(ix[j]) != x.Idx[j] || gen.V(vs[j]).Dist(x.Off[j]) > 1e-5 {
				c.Fatalf("%s: shape: %v %v, want %v %v", how, ix, vs, x.Idx, x.Off)
			}
		}
	}
	for i, x := range w.Shapes {
		sh := shapes[i].GetShapes()
		if len(sh) != 1 {
			c.Fatalf("%s: channel has %d shapes", how, len(sh))
		}
		shape(sh[0], x)
	}
	if len(g.GetShapes()) != len(w.Inline) {
		c.Fatalf("%s: %d shapes in the geometry, want %d", how, len(g.GetShapes()), len(w.Inline))
	}
	for i, x := range w.Inline {
		shape(g.GetShapes()[i], x)
	}
}

func drawScene(c *hx.C) (*gen.FScene, []*gen.FN) {
	name := gen.Ident
	if gen.Bool(c.T, "jp") {
		name = func(t *gen.T, n string) string { return strings.ReplaceAll(gen.Name(t, n), ":", "") + "x" }
	}
	s := gen.FBXScene(c.T, gen.FSceneOpts{Skin: true, Shapes: true, Name: name})
	kids := s.Tree(c.T)
	if len(s.Geos) > 0 {
		c.NonTrivial(show(kids, 0))
	}
	c.LabelIf(len(s.Geos) > 0, "geometry")
	return s, kids
}

func propScene(c *hx.C) {
	s, kids := drawScene(c)
	text := gen.Bool(c.T, "text")
	var data []byte
	if text {
		data = gen.EmitFBXText(kids, gen.DrawFBXText(c.T))
		c.DescF(func() string { return string(data) })
	} else {
		o := gen.DrawFBXBin(c.T)
		data, _ = gen.EncodeFBX(kids, o)
		c.DescF(func() string { return show(kids, 0) })
	}
	doc, err := fbx.Parse(bytes.NewReader(data))
	if err != nil {
		c.Fatalf("Parse: %v", err)
	}
	checkScene(c, "read", s, doc)
}

// version 6.1 files: objects are identified by name, meshes hold the geometry
func prop6100(c *hx.C) {
	s := gen.FBXScene(c.T, gen.FSceneOpts{Skin: true, Shapes: true})
	s.To61()
	kids := s.Tree61(c.T)
	if len(s.Geos) > 0 {
		c.NonTrivial(show(kids, 0))
	}
	var data []byte
	if gen.Bool(c.T, "text") {
		data = gen.EmitFBXText(kids, gen.DrawFBXText(c.T))
	} else {
		o := gen.DrawFBXBin(c.T)
		o.Version = 6100
		data, _ = gen.EncodeFBX(kids, o)
	}
	c.DescF(func() string { return show(kids, 0) })
	doc, err := fbx.Parse(bytes.NewReader(data))
	if err != nil {
		c.Fatalf("Parse: %v", err)
	}
	checkScene(c, "6.1", s, doc)
}

// large arrays and a footer whose first bytes look like a small offset
func propLarge(c *hx.C) {
	n := gen.Int(c.T, "n", 1, 6) * 250000
	seed := rapid.Uint32().Draw(c.T, "seed")
	arr := make([]float64, n)
	x := seed
	for i := range arr {
		x = x*1664525 + 1013904223
		arr[i] = float64(x)
	}
	o := gen.DrawFBXBin(c.T)
	kids := []*gen.FN{gen.N("A", "x").With(gen.N("B", arr), gen.N("C", int32(3))), gen.N("D", int64(4))}
	data, _ := gen.EncodeFBX(kids, o)
	c.Desc("%d doubles, %+v", n, o)
	c.NonTrivial(fmt.Sprint(n, seed, o))
	var doc *fbx.Document
	var err error
	if gen.Bool(c.T, "stream") {
		doc, err = fbx.Parse(gen.Chunked(c.T, data))
	} else {
		doc, err = fbx.Parse(bytes.NewReader(data))
	}
	if err != nil {
		c.Fatalf("Parse: %v", err)
	}
	if d := diffTree("", doc.RawNode.Children, kids); d != "" {
		if len(d) > 300 {
			d = d[:300]
		}
		c.Fatalf("%s", d)
	}
}

func TestC05(t *testing.T) {
	hx.Main(t, "C05",
		hx.Leg{Name: "binary", Quick: 1500, Prop: propBinary(30)},
		hx.Leg{Name: "binary-arrays", Quick: 60, Prop: propBinary(3000)},
		hx.Leg{Name: "ascii", Quick: 2000, Prop: propText},
		hx.Leg{Name: "scene", Quick: 1200, Prop: propScene},
		hx.Leg{Name: "v6100", Quick: 500, Prop: prop6100},
		hx.Leg{Name: "large", Quick: 4, Thorough: 10, Prop: propLarge},
	)
}
