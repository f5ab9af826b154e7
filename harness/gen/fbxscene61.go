package gen

import "fmt"

// To61 drops what a version 6.1 file has no place for: property templates and
// blend shape channels (its shapes are in the model); textures belong to models there.
func (s *FScene) To61() {
	s.V61 = true
	s.TmplScl, s.TmplDif = nil, nil
	for _, g := range s.Geos {
		g.Inline = append(g.Shapes, g.Inline...)
		g.Shapes = nil
	}
	for _, m := range s.Mats {
		m.Tex = ""
	}
}

func floats(v []float64) []interface{} {
	r := []interface{}{}
	for _, x := range v {
		r = append(r, x)
	}
	return r
}

func ints(v []int) []interface{} {
	r := []interface{}{}
	for _, x := range v {
		r = append(r, int32(x))
	}
	return r
}

// Tree61 renders the scene as the node list of a version 6.1 file: objects are
// known by their names, models hold the geometry, values are plain lists and
// properties have no label.
func (s *FScene) Tree61(t *T) []*FN {
	extra := Bool(t, "extra")
	p60 := func(name, typ, flag string, v ...interface{}) *FN {
		return N("Property", append([]interface{}{name, typ, flag}, v...)...)
	}
	objs, conns := N("Objects"), N("Connections")
	oo := func(child, parent string) { conns.With(N("Connect", "OO", child, parent)) }
	name := func(n, class string) string { return n + "\x00\x01" + class }
	model := func(i int) string {
		if i < 0 {
			return name("Scene", "Model")
		}
		return name(s.Models[i].Name, "Model")
	}
	late := Bool(t, "late") // deformers after the models
	var defs []*FN
	for i, m := range s.Models {
		pr := N("Properties60")
		if extra {
			pr.With(p60("QuaternionInterpolate", "bool", "", int32(0)), p60("Visibility", "Visibility", "A+", 1.0))
		}
		set := func(n, typ, flag string, v *P3) {
			if v != nil {
				pr.With(p60(n, typ, flag, vals(*v)...))
			}
		}
		set("Lcl Translation", "Lcl Translation", "A+", m.T)
		set("Lcl Rotation", "Lcl Rotation", "A+", m.R)
		set("Lcl Scaling", "Lcl Scaling", "A+", m.S)
		set("PreRotation", "Vector3D", "", m.Pre)
		n := N("Model", model(i), m.Kind).With(N("Version", int32(232)), pr)
		if m.Geo >= 0 {
			g := s.Geos[m.Geo]
			var idx []int
			for _, p := range g.Polys {
				for k, v := range p {
					if k == len(p)-1 {
						v = ^v
					}
					idx = append(idx, v)
				}
			}
			n.With(N("Vertices", floats(flat(g.Verts))...), N("PolygonVertexIndex", ints(idx)...), N("GeometryVersion", int32(124)))
			if g.Normals != nil {
				l := N("LayerElementNormal", int32(0)).With(N("Version", int32(101)), N("Name", ""), N("MappingInformationType", g.NrmMap), N("ReferenceInformationType", g.NrmRef))
				list := g.VNrm
				if list == nil {
					for _, r := range g.Normals {
						list = append(list, r...)
					}
				}
				if g.NrmRef == "Direct" {
					l.With(N("Normals", floats(flat(list))...))
				} else {
					arr, ix := dedupReverse(list)
					l.With(N("Normals", floats(flat(arr))...), N("NormalsIndex", ints(ix)...))
				}
				n.With(l)
			}
			if g.UVs != nil {
				l := N("LayerElementUV", int32(0)).With(N("MappingInformationType", "ByPolygonVertex"), N("ReferenceInformationType", g.UVRef))
				var list []P3
				for _, r := range g.UVs {
					for _, uv := range r {
						list = append(list, P3{uv[0], uv[1]})
					}
				}
				fl := func(ps []P3) []interface{} {
					r := []float64{}
					for _, p := range ps {
						r = append(r, p[0], p[1])
					}
					return floats(r)
				}
				if g.UVRef == "Direct" {
					l.With(N("UV", fl(list)...))
				} else {
					arr, ix := dedupReverse(list)
					l.With(N("UV", fl(arr)...), N("UVIndex", ints(ix)...))
				}
				n.With(l)
			}
			if g.MatMap != "" {
				n.With(N("LayerElementMaterial", int32(0)).With(N("MappingInformationType", g.MatMap), N("ReferenceInformationType", "IndexToDirect"), N("Materials", ints(g.MatIdx)...)))
			}
			for _, sh := range g.Inline {
				n.With(N("Shape", sh.Name).With(N("Indexes", ints(sh.Idx)...), N("Vertices", floats(flat(sh.Off))...)))
			}
			if len(g.Skin) > 0 {
				skin := name("Skin "+g.Name, "Deformer")
				defs = append(defs, N("Deformer", skin, "Skin").With(N("Version", int32(100)), N("Link_DeformAcuracy", int32(50))))
				oo(skin, model(i))
				for k, c := range g.Skin {
					cl := name(fmt.Sprintf("Cluster %s %d", g.Name, k), "SubDeformer")
					defs = append(defs, N("Deformer", cl, "Cluster").With(N("Indexes", ints(c.Idx)...), N("Weights", floats(c.W)...),
						N("Transform", floats(c.Link.Inv().slice())...), N("TransformLink", floats(c.Link.slice())...)))
					oo(cl, skin)
					oo(model(c.Model), cl)
				}
			}
		}
		if late {
			objs.With(n)
		} else {
			defs = append(defs, n)
		}
	}
	objs.With(defs...)
	for _, m := range s.Mats {
		pr := N("Properties60")
		c := func(n string, v *P3) {
			if v != nil {
				pr.With(p60(n, "ColorRGB", "", vals(*v)...))
			}
		}
		f := func(n string, v *float64) {
			if v != nil {
				pr.With(p60(n, "double", "", *v))
			}
		}
		c("DiffuseColor", m.Diffuse)
		c("SpecularColor", m.SpecC)
		c("EmissiveColor", m.EmiC)
		c("AmbientColor", m.AmbC)
		f("DiffuseFactor", m.DifF)
		f("SpecularFactor", m.SpecF)
		f("EmissiveFactor", m.EmiF)
		f("AmbientFactor", m.AmbF)
		f("Opacity", m.Opacity)
		f("ShininessExponent", m.Power)
		objs.With(N("Material", name(m.Name, "Material"), "").With(N("Version", int32(102)), N("ShadingModel", "phong"), pr))
	}
	unit := 1.0
	if s.Unit != nil {
		unit = *s.Unit
	}
	gs := N("Properties60")
	put := func(n string, v int) { gs.With(p60(n, "int", "", int32(v))) }
	put("UpAxis", s.Axis[1])
	put("UpAxisSign", s.Sign[1])
	put("FrontAxis", s.Axis[2])
	put("FrontAxisSign", s.Sign[2])
	put("CoordAxis", s.Axis[0])
	put("CoordAxisSign", s.Sign[0])
	gs.With(p60("UnitScaleFactor", "double", "", unit))
	objs.With(N("GlobalSettings").With(N("Version", int32(1000)), gs))
	for i, m := range s.Models {
		oo(model(i), model(m.Parent))
		for _, k := range m.Mats {
			oo(name(s.Mats[k].Name, "Material"), model(i))
		}
	}
	if extra {
		oo(name("nobody", "Model"), model(-1))
	}
	root := []*FN{N("FBXHeaderExtension").With(N("FBXHeaderVersion", int32(1003)), N("FBXVersion", int32(6100)), N("Creator", "gen"))}
	if extra {
		root = append(root, N("CreationTime", "2010-01-01 00:00:00:000"), N("Creator", "gen"),
			N("Definitions").With(N("Version", int32(100)), N("Count", int32(2)), N("ObjectType", "Model").With(N("Count", int32(1)))))
	}
	root = append(root, objs, conns)
	if extra {
		root = append(root, N("Takes").With(N("Current", "")), N("Version5").With(N("Settings").With(N("FrameRate", "24"))))
	}
	return root
}
