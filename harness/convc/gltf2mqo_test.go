package convc

import (
	"fmt"
	"math"
	"net/url"
	"strings"
	"testing"

	"github.com/binzume/modelconv/converter"
	"github.com/binzume/modelconv/mqo"

	"verif/harness/gen"
	"verif/harness/gltfx"
	"verif/harness/hx"
)

func propGltfToMQO(c *hx.C) {
	dir, done := hx.Scratch(c)
	defer done()
	o := gltfx.FullDraw()
	o.NodeScale, o.Modes, o.PlainBind, o.MatExt, o.Mirror = 2, true, true, true, true
	before, doc, _ := drawGLTF(c, o, dir)
	got, err := converter.NewGLTFToMQOConverter(nil).Convert(doc)
	if err != nil {
		c.Fatalf("conversion failed: %v", err)
	}
	checkGltfMQO(c, before, got, 1)
}

// checkGltfMQO compares an MQO document with the glTF file it was made from.
func checkGltfMQO(c *hx.C, before *gltfx.Doc, got *mqo.Document, scale float64) {
	if len(got.Materials) != len(before.Materials) {
		c.Fatalf("%d materials, want %d", len(got.Materials), len(before.Materials))
	}
	for i, m := range before.Materials {
		g := got.Materials[i]
		col, metal, rough := []float64{1, 1, 1, 1}, 1.0, 1.0
		tex := ""
		if p := m.PBR; p != nil {
			if p.BaseColorFactor != nil {
				col = p.BaseColorFactor
			}
			if p.MetallicFactor != nil {
				metal = *p.MetallicFactor
			}
			if p.RoughnessFactor != nil {
				rough = *p.RoughnessFactor
			}
			if p.BaseColorTexture != nil {
				im, err := before.TexImage(p.BaseColorTexture)
				if err != nil {
					panic(err)
				}
				if u := before.Images[im].URI; u != "" && !strings.HasPrefix(u, "data:") {
					tex, _ = url.PathUnescape(u)
				}
			}
		}
		em := []float64{0, 0, 0}
		if m.EmissiveFactor != nil {
			em = m.EmissiveFactor
		}
		mode, cut := map[string]int{"": 1, "OPAQUE": 1, "MASK": 2, "BLEND": 3}[m.AlphaMode], 0.5
		if m.AlphaCutoff != nil {
			cut = *m.AlphaCutoff
		}
		if g.Name != m.Name || g.DoubleSided != m.DoubleSided || !near([]float64{float64(g.Color.X), float64(g.Color.Y), float64(g.Color.Z), float64(g.Color.W)}, col, 1e-6) || g.Texture != tex {
			c.Fatalf("material %d: %q double sided %v colour %v texture %q, want %q %v %v %q", i, g.Name, g.DoubleSided, g.Color, g.Texture, m.Name, m.DoubleSided, col, tex)
		}
		if e := g.EmissionColor; e == nil || !near([]float64{float64(e.X), float64(e.Y), float64(e.Z)}, em, 1e-6) {
			c.Fatalf("material %q: emission %v, want %v", m.Name, e, em)
		}
		if g.GetShaderName() != "glTF" || g.Ex2.ShaderType != "hlsl" || g.Ex2.IntParam("AlphaMode") != mode || math.Abs(g.Ex2.FloatParam("Metallic")-metal) > 1e-6 || math.Abs(g.Ex2.FloatParam("Roughness")-rough) > 1e-6 ||
			mode == 2 && math.Abs(g.Ex2.FloatParam("AlphaCutOff")-cut) > 1e-6 {
			c.Fatalf("material %q: shader %+v, want mode %d metallic %v roughness %v cutoff %v", m.Name, g.Ex2, mode, metal, rough, cut)
		}
		c.LabelIf(tex != "", "texture")
	}
	worlds := before.Worlds(before.Local)
	k, faces := 0, 0
	for i, n := range before.Nodes {
		if n.Mesh == nil {
			continue
		}
		if k >= len(got.Objects) {
			c.Fatalf("the mesh of node %d (%q) is missing", i, n.Name)
		}
		obj := got.Objects[k]
		k++
		if w := before.Meshes[*n.Mesh].Name; obj.Name != w {
			c.Fatalf("object %d is %q, want %q", k-1, obj.Name, w)
		}
		if !obj.Visible {
			c.Fatalf("object %q is hidden", obj.Name)
		}
		prims, err := before.Prims(i, worlds)
		if err != nil {
			panic(err)
		}
		mirrored := false
		if n.Skin == nil {
			a, b, d := worlds[i].Dir(gen.P3{1, 0, 0}), worlds[i].Dir(gen.P3{0, 1, 0}), worlds[i].Dir(gen.P3{0, 0, 1})
			mirrored = a.Cross(b).Dot(d) < 0
		}
		c.LabelIf(mirrored, "mirrored")
		f := 0
		for pi := range prims {
			p := &prims[pi]
			tol := extent(before, worlds, i, p) * 1e-4
			for _, t := range p.Tris {
				if f >= len(obj.Faces) {
					c.Fatalf("object %q: face %d is missing", obj.Name, f)
				}
				x := obj.Faces[f]
				f++
				want := [3]int{t[0], t[2], t[1]}
				if mirrored {
					want = t
				}
				if len(x.Verts) != 3 || x.Material != p.Material || (len(x.UVs) > 0) != (p.UV != nil) {
					c.Fatalf("object %q face %d: %+v, want material %d, texture coordinates %v", obj.Name, f-1, x, p.Material, p.UV != nil)
				}
				// the corners are the same in the same order, whichever is first
				ok := false
				var g [3]gen.P3
				for r := 0; r < 3 && !ok; r++ {
					ok = true
					for j := 0; j < 3; j++ {
						vi := x.Verts[(j+r)%3]
						if vi < 0 || vi >= len(obj.Vertexes) {
							c.Fatalf("object %q face %d: vertex %d of %d", obj.Name, f-1, vi, len(obj.Vertexes))
						}
						g[j] = gen.V(obj.Vertexes[vi])
						if g[j].Dist(p.Pos[want[j]].Scale(scale)) > tol*scale {
							ok = false
						}
						if len(x.UVs) == 3 {
							uv, w := x.UVs[(j+r)%3], p.UV[want[j]]
							if !near([]float64{float64(uv.X), float64(uv.Y)}, w, 1e-5) {
								ok = false
							}
						}
					}
				}
				if !ok {
					c.Fatalf("object %q face %d: %v uv %v, want %v %v %v uv %v", obj.Name, f-1, g, x.UVs, p.Pos[want[0]], p.Pos[want[1]], p.Pos[want[2]], p.UV)
				}
			}
			c.LabelIf(pi > 0, "several primitives")
			c.LabelIf(p.Mode != 4, "other mode")
			c.LabelIf(p.Material < 0, "no material")
		}
		if f != len(obj.Faces) {
			c.Fatalf("object %q has %d faces, want %d", obj.Name, len(obj.Faces), f)
		}
		faces += f
	}
	if k != len(got.Objects) {
		c.Fatalf("%d objects, want %d", len(got.Objects), k)
	}
	// bones
	want := map[int]bool{}
	for _, s := range before.Skins {
		for _, j := range s.Joints {
			want[j] = true
		}
		if s.Skeleton != nil {
			todo := []int{*s.Skeleton}
			for len(todo) > 0 {
				want[todo[0]] = true
				todo = append(todo[1:], before.Nodes[todo[0]].Children...)
			}
		}
	}
	byName := map[string]int{}
	for i, n := range before.Nodes {
		byName[n.Name] = i
	}
	parents := before.Parents()
	bones := mqo.GetBonePlugin(got).Bones()
	byID := map[int]*mqo.Bone{}
	for _, b := range bones {
		if byID[b.ID] != nil || b.ID <= 0 {
			c.Fatalf("bone %q has number %d", b.Name, b.ID)
		}
		byID[b.ID] = b
	}
	if len(bones) != len(want) {
		c.Fatalf("%d bones, want %d", len(bones), len(want))
	}
	for _, b := range bones {
		i, ok := byName[b.Name]
		if !ok || !want[i] {
			c.Fatalf("unexpected bone %q", b.Name)
		}
		delete(want, i)
		p := parents[i]
		name := ""
		for p >= 0 && name == "" {
			for _, x := range bones {
				if x.Name == before.Nodes[p].Name {
					name = x.Name
				}
			}
			p = parents[p]
		}
		gp := ""
		if q := byID[b.Parent]; q != nil {
			gp = q.Name
		} else if b.Parent != 0 {
			c.Fatalf("bone %q has parent number %d", b.Name, b.Parent)
		}
		if gp != name {
			c.Fatalf("bone %q is below %q, want %q", b.Name, gp, name)
		}
		w := worlds[i].Apply(gen.P3{})
		if g := gen.V(&b.Pos.Vector3); g.Dist(w.Scale(scale)) > (1+w.Len()*5+worlds[i].MaxAbs())*scale*1e-4 {
			c.Fatalf("bone %q is at %v, want %v", b.Name, g, w)
		}
		c.Label("bones")
	}
	if faces > 0 {
		c.NonTrivial(fmt.Sprint(before.Raw))
	}
}

func TestC25(t *testing.T) {
	hx.Main(t, "C25", hx.Leg{Name: "scene", Quick: 1000, Prop: propGltfToMQO})
}
