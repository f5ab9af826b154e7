// Package convc checks the converters between document types.
package convc

import (
	"bytes"
	"fmt"
	"math"
	"testing"

	"github.com/binzume/modelconv/converter"
	"github.com/binzume/modelconv/fbx"
	"github.com/binzume/modelconv/geom"
	"github.com/binzume/modelconv/mqo"

	"verif/harness/gen"
	"verif/harness/hx"
)

func cyc(n int, same func(shift int) bool) bool {
	for s := 0; s < n; s++ {
		if same(s) {
			return true
		}
	}
	return n == 0
}

func nearP(a *geom.Vector3, b gen.P3, tol float64) bool { return gen.V(a).Dist(b) <= tol }

func hasGeo(s *gen.FScene, i int) bool {
	if s.Models[i].Geo >= 0 {
		return true
	}
	for k, m := range s.Models {
		if m.Parent == i && hasGeo(s, k) {
			return true
		}
	}
	return false
}

// objTol bounds the float32 error of points below model k.
func objTol(s *gen.FScene, k int) float64 {
	r := 1.0
	for ; k >= 0; k = s.Models[k].Parent {
		r *= math.Max(1, s.Local(k).MaxAbs())
	}
	return r * 50 * 4e-6
}

type wantObj struct {
	model int
	depth int
	shape *gen.FShape
}

// fbxObjects lists the objects a scene turns into.
func fbxObjects(s *gen.FScene, whole bool) []wantObj {
	var out []wantObj
	var walk func(i, d int)
	walk = func(i, d int) {
		out = append(out, wantObj{model: i, depth: d})
		if g := s.Models[i].Geo; g >= 0 {
			for k := range s.Geos[g].Shapes {
				out = append(out, wantObj{i, d + 1, &s.Geos[g].Shapes[k]})
			}
			for k := range s.Geos[g].Inline {
				out = append(out, wantObj{i, d + 1, &s.Geos[g].Inline[k]})
			}
		}
		for k, m := range s.Models {
			if m.Parent == i && (whole || m.Kind != "LimbNode") {
				walk(k, d+1)
			}
		}
	}
	for k, m := range s.Models {
		if m.Parent < 0 && (whole || m.Kind != "LimbNode" && hasGeo(s, k)) {
			walk(k, 0)
		}
	}
	return out
}

func checkFBXMQO(c *hx.C, s *gen.FScene, doc *mqo.Document, objs []wantObj, noShape, noBone bool) {
	if len(doc.Materials) != len(s.Mats) {
		c.Fatalf("%d materials, want %d", len(doc.Materials), len(s.Mats))
	}
	for i, w := range s.Mats {
		m := doc.Materials[i]
		col := gen.P3{1, 1, 1}
		if w.Diffuse != nil {
			col = *w.Diffuse
		}
		opa, dif := 1.0, 1.0
		if w.Opacity != nil {
			opa = *w.Opacity
		}
		if s.TmplDif != nil {
			dif = *s.TmplDif
		}
		if w.DifF != nil {
			dif = *w.DifF
		}
		pow := 0.0
		if w.Power != nil {
			pow = *w.Power
		}
		spec := 0.0
		if w.SpecC != nil && w.SpecF != nil {
			spec = w.SpecC[0] * *w.SpecF
		}
		amb := 0.0
		if w.AmbC != nil && w.AmbF != nil {
			amb = w.AmbC[0] * *w.AmbF
		}
		emi := 0.0
		if w.EmiC != nil && w.EmiF != nil {
			emi = w.EmiC[0] * *w.EmiF
		}
		if m.Name != w.Name {
			c.Fatalf("material %d is %q, want %q", i, m.Name, w.Name)
		}
		got := gen.P3{float64(m.Color.X), float64(m.Color.Y), float64(m.Color.Z)}
		if got.Dist(col) > 1e-5 || math.Abs(float64(m.Color.W)-opa) > 1e-5 {
			c.Fatalf("material %q: color %v, want %v %v", w.Name, m.Color, col, opa)
		}
		if math.Abs(float64(m.Diffuse)-dif) > 1e-5 || math.Abs(float64(m.Power)-pow) > 1e-4 ||
			math.Abs(float64(m.Specular)-spec) > 1e-5 || math.Abs(float64(m.Ambient)-amb) > 1e-5 || (m.Emission > 0) != (emi > 0) {
			c.Fatalf("material %q: dif %v spc %v amb %v emi %v pow %v, want %v %v %v %v %v", w.Name, m.Diffuse, m.Specular, m.Ambient, m.Emission, m.Power, dif, spec, amb, emi, pow)
		}
		if m.Texture != w.Tex {
			c.Fatalf("material %q: texture %q, want %q", w.Name, m.Texture, w.Tex)
		}
	}
	if len(doc.Objects) != len(objs) {
		var names []string
		for _, o := range doc.Objects {
			names = append(names, o.Name)
		}
		c.Fatalf("%d objects %q, want %d", len(doc.Objects), names, len(objs))
	}
	uids := map[int]bool{}
	objOf := map[int]*mqo.Object{}
	for i, w := range objs {
		o := doc.Objects[i]
		m := s.Models[w.model]
		name := m.Name
		if w.shape != nil {
			name = w.shape.Name
		} else {
			objOf[w.model] = o
		}
		if o.Name != name || o.Depth != w.depth || o.Visible != (w.shape == nil) {
			c.Fatalf("object %d: %q depth %d visible %v, want %q depth %d", i, o.Name, o.Depth, o.Visible, name, w.depth)
		}
		if o.UID == 0 || uids[o.UID] {
			c.Fatalf("object %d: id %d is not unique", i, o.UID)
		}
		uids[o.UID] = true
		if m.Geo < 0 {
			if len(o.Vertexes)+len(o.Faces) > 0 {
				c.Fatalf("object %q has geometry", o.Name)
			}
			continue
		}
		g := s.Geos[m.Geo]
		mat := s.Coord().Mul(s.World(w.model))
		tol := objTol(s, w.model)
		if len(o.Vertexes) != len(g.Verts) || len(o.Faces) != len(g.Polys) {
			c.Fatalf("object %q: %d vertices %d faces, want %d %d", o.Name, len(o.Vertexes), len(o.Faces), len(g.Verts), len(g.Polys))
		}
		off := make([]gen.P3, len(g.Verts))
		if w.shape != nil {
			for j, v := range w.shape.Idx {
				off[v] = w.shape.Off[j]
			}
		}
		for j, v := range g.Verts {
			if want := mat.Apply(v.Add(off[j])); !nearP(o.Vertexes[j], want, tol) {
				c.Fatalf("object %q: vertex %d at %v, want %v (tol %g)", o.Name, j, o.Vertexes[j], want, tol)
			}
		}
		for j, p := range g.Polys {
			f := o.Faces[j]
			n := len(p)
			if len(f.Verts) != n || len(f.UVs) != 0 && len(f.UVs) != n || len(f.Normals) != 0 && len(f.Normals) != n {
				c.Fatalf("object %q: face %d is %v uv %v normals %v, want %v", o.Name, j, f.Verts, f.UVs, f.Normals, p)
			}
			if (g.UVs != nil) != (len(f.UVs) > 0) {
				c.Fatalf("object %q: face %d UVs %v, want %v", o.Name, j, f.UVs, g.UVs)
			}
			if g.Normals != nil && len(f.Normals) == 0 {
				c.Fatalf("object %q: face %d lost its normals", o.Name, j)
			}
			ok := cyc(n, func(sh int) bool {
				for k := 0; k < n; k++ {
					src := (n - 1 - k + sh) % n
					if f.Verts[k] != p[src] {
						return false
					}
					if g.UVs != nil {
						uv := g.UVs[j][src]
						if math.Abs(float64(f.UVs[k].X)-uv[0]) > 1e-5 || math.Abs(float64(f.UVs[k].Y)-(1-uv[1])) > 1e-5 {
							return false
						}
					}
					if g.Normals != nil {
						if !nearP(f.Normals[k], mat.Normal(g.Normals[j][src]).Norm(), 2e-3) {
							return false
						}
					}
				}
				return true
			})
			if !ok {
				c.Fatalf("object %q: face %d is %v uv %v normals %s, want the reverse of %v uv %v normals %v (%s %s)", o.Name, j, f.Verts, f.UVs, hx.Dump(f.Normals), p, g.UVs, g.Normals, g.NrmMap, g.NrmRef)
			}
			wm := s.MatOf(m, j)
			c.LabelIf(wm < 0, "no material")
			if f.Material != wm {
				c.Fatalf("object %q: face %d has material %d, want %d", o.Name, j, f.Material, wm)
			}
		}
	}
	// morphs
	morphs := mqo.GetMorphPlugin(doc).Morphs()
	k := 0
	for mi, m := range s.Models {
		o := objOf[mi]
		if o == nil || m.Geo < 0 || noShape {
			continue
		}
		g := s.Geos[m.Geo]
		var names []string
		for _, sh := range g.Shapes {
			names = append(names, sh.Name)
		}
		for _, sh := range g.Inline {
			names = append(names, sh.Name)
		}
		if len(names) == 0 {
			continue
		}
		k++
		found := false
		for _, l := range morphs {
			if l.Base == o.Name {
				found = true
				var got []string
				for _, t := range l.Target {
					got = append(got, t.Name)
				}
				if fmt.Sprint(got) != fmt.Sprint(names) {
					c.Fatalf("morphs of %q: %q, want %q", o.Name, got, names)
				}
			}
		}
		if !found {
			c.Fatalf("no morphs for %q", o.Name)
		}
	}
	if k != len(morphs) {
		c.Fatalf("%d morph lists, want %d", len(morphs), k)
	}
	// bones
	need := map[int]bool{}
	link := map[int]*gen.M{}
	for mi, m := range s.Models {
		if objOf[mi] == nil || m.Geo < 0 || noBone {
			continue
		}
		for _, cl := range s.Geos[m.Geo].Skin {
			l := cl.Link
			link[cl.Model] = &l
			for b := cl.Model; b >= 0; b = s.Models[b].Parent {
				need[b] = true
			}
		}
	}
	bones := mqo.GetBonePlugin(doc).Bones()
	if len(bones) != len(need) {
		c.Fatalf("%d bones, want %d", len(bones), len(need))
	}
	byName := map[string]*mqo.Bone{}
	byID := map[int]*mqo.Bone{}
	for _, b := range bones {
		if byID[b.ID] != nil || b.ID <= 0 {
			c.Fatalf("bone id %d is not unique", b.ID)
		}
		byName[b.Name], byID[b.ID] = b, b
	}
	for mi := range need {
		m := s.Models[mi]
		b := byName[m.Name]
		if b == nil {
			c.Fatalf("no bone %q", m.Name)
		}
		if m.Parent < 0 {
			if b.Parent != 0 {
				c.Fatalf("bone %q has parent %d, want none", b.Name, b.Parent)
			}
		} else if p := byID[b.Parent]; p == nil || p.Name != s.Models[m.Parent].Name {
			c.Fatalf("bone %q has parent %v, want %q", b.Name, p, s.Models[m.Parent].Name)
		}
		ref := s.World(mi)
		if l := link[mi]; l != nil {
			ref = *l
		}
		if want := s.Coord().Mul(ref).Apply(gen.P3{}); !nearP(&b.Pos.Vector3, want, objTol(s, mi)) {
			c.Fatalf("bone %q at %v, want %v", b.Name, b.Pos, want)
		}
		type key struct{ o, v int }
		want := map[key]float64{}
		for oi, om := range s.Models {
			if objOf[oi] == nil || om.Geo < 0 || noBone {
				continue
			}
			for _, cl := range s.Geos[om.Geo].Skin {
				if cl.Model != mi {
					continue
				}
				for j, v := range cl.Idx {
					want[key{objOf[oi].UID, v}] = cl.W[j]
				}
			}
		}
		n := 0
		for _, bw := range b.Weights {
			var o *mqo.Object
			for _, x := range doc.Objects {
				if x.UID == bw.ObjectID {
					o = x
				}
			}
			if o == nil {
				c.Fatalf("bone %q has weights for object %d", b.Name, bw.ObjectID)
			}
			for _, vw := range bw.Vertexes {
				n++
				v := o.GetVertexIndexByID(vw.VertexID)
				if w, ok := want[key{bw.ObjectID, v}]; !ok || math.Abs(float64(vw.Weight)-100*w) > 1e-3 {
					c.Fatalf("bone %q: weight of vertex %d of %q is %v%%, want %v", b.Name, v, o.Name, vw.Weight, w)
				}
			}
		}
		if n != len(want) {
			c.Fatalf("bone %q has %d weights, want %d", b.Name, n, len(want))
		}
	}
}

func propFBX(c *hx.C) {
	s := gen.FBXScene(c.T, gen.FSceneOpts{Skin: true, Shapes: true})
	var kids []*gen.FN
	bin := gen.DrawFBXBin(c.T)
	if gen.Chance(c.T, "v61", 5) {
		s.To61()
		kids = s.Tree61(c.T)
		bin.Version = 6100
		c.Label("6.1")
	} else {
		kids = s.Tree(c.T)
	}
	var data []byte
	if gen.Chance(c.T, "text", 3) {
		data = gen.EmitFBXText(kids, gen.DrawFBXText(c.T))
	} else {
		data, _ = gen.EncodeFBX(kids, bin)
	}
	doc, err := fbx.Parse(bytes.NewReader(data))
	if err != nil {
		c.Fatalf("Parse: %v", err)
	}
	c.DescF(func() string { return string(gen.EmitFBXText(kids, gen.FBXText{Num: 0})) })
	if len(s.Geos) > 0 {
		c.NonTrivial(fmt.Sprint(hx.Dump(s)))
	}
	whole := gen.Chance(c.T, "whole", 4)
	noShape, noBone := gen.Chance(c.T, "noShape", 5), gen.Chance(c.T, "noBone", 5)
	var opt *converter.FBXToMQOOption
	if whole || noShape || noBone || gen.Bool(c.T, "opt") {
		opt = &converter.FBXToMQOOption{ConvertWholeNode: whole, DisableBlendShape: noShape, DisableBone: noBone}
	}
	conv := converter.NewFBXToMQOConverter(opt)
	objs := fbxObjects(s, whole)
	if noShape {
		var r []wantObj
		for _, o := range objs {
			if o.shape == nil {
				r = append(r, o)
			}
		}
		objs = r
	}
	for i := 0; i < 2; i++ { // converting does not change the source
		got, err := conv.Convert(doc)
		if err != nil {
			c.Fatalf("Convert: %v", err)
		}
		checkFBXMQO(c, s, got, objs, noShape, noBone)
	}
}

func TestC14(t *testing.T) {
	hx.Main(t, "C14", hx.Leg{Name: "scene", Quick: 1500, Prop: propFBX})
}
