package gen

import (
	"bytes"
	"fmt"
	"sort"
	"strings"

	"github.com/binzume/modelconv/geom"
	"github.com/binzume/modelconv/mqo"
	"golang.org/x/text/encoding/japanese"
	"pgregory.net/rapid"
)

// MQOStyle is how a document is written down.
type MQOStyle struct {
	SJIS      bool
	NoPage    bool // SJIS without a CodePage line
	Eol       string
	Indent    string
	Noise     bool // attributes and blocks other versions of the format have
	BackSlash bool // texture paths with '\'
	XML       string
	Thumb     bool
	Fmt       int
	Eof       bool
}

func DrawMQOStyle(t *T) MQOStyle {
	return MQOStyle{SJIS: Bool(t, "sjis"), NoPage: Bool(t, "nopage"), Eol: rapid.SampledFrom([]string{"\r\n", "\n"}).Draw(t, "eol"),
		Indent: rapid.SampledFrom([]string{"\t", "  ", ""}).Draw(t, "indent"), Noise: Bool(t, "noise"), BackSlash: Bool(t, "bs"), Thumb: Chance(t, "thumb", 3), Fmt: rapid.IntRange(0, 3).Draw(t, "fmt"), Eof: !Chance(t, "noeof", 4)}
}

func shuffled(t *T, parts []string) []string {
	if len(parts) < 2 {
		return parts
	}
	return rapid.Permutation(parts).Draw(t, "order")
}

// EmitMQO writes the document as the format describes it, independently of the code under test.
func EmitMQO(t *T, doc *mqo.Document, st MQOStyle) []byte {
	var b bytes.Buffer
	ln := func(depth int, f string, a ...interface{}) {
		b.WriteString(strings.Repeat(st.Indent, depth))
		fmt.Fprintf(&b, f, a...)
		b.WriteString(st.Eol)
	}
	num := func(v float32) string {
		switch st.Fmt {
		case 1: // always with a point
			s := fmt.Sprintf("%v", v)
			if !strings.ContainsAny(s, ".e") {
				s += ".0000"
			}
			return s
		case 2:
			return fmt.Sprintf("%.9e", v)
		case 3:
			s := fmt.Sprintf("%.10f", v)
			var x float32
			fmt.Sscan(s, &x)
			if x == v {
				return s
			}
		}
		return fmt.Sprintf("%v", v)
	}
	v3 := func(v *geom.Vector3) string { return num(v.X) + " " + num(v.Y) + " " + num(v.Z) }
	path := func(s string) string {
		if st.BackSlash {
			return strings.ReplaceAll(s, "/", "\\")
		}
		return s
	}
	bit := func(x bool) int {
		if x {
			return 1
		}
		return 0
	}
	ln(0, "Metasequoia Document")
	ln(0, "Format Text Ver %s", rapid.SampledFrom([]string{"1.0", "1.1", "1.2"}).Draw(t, "ver"))
	if !st.SJIS {
		ln(0, "CodePage utf8")
	} else if !st.NoPage {
		ln(0, "CodePage 932")
	}
	ln(0, "")
	if st.XML != "" {
		ln(0, "IncludeXml \"%s\"", st.XML)
	}
	if st.Thumb {
		ln(0, "Thumbnail 128 128 24 rgb raw {")
		for i := rapid.IntRange(1, 3).Draw(t, "thumblines"); i > 0; i-- {
			ln(1, "%s", rapid.StringMatching("[0-9a-f]{32}").Draw(t, "hex"))
		}
		ln(0, "}")
	}
	if s := doc.Scene; s != nil {
		ln(0, "Scene {")
		lines := []string{
			"pos " + v3(&s.CameraPos), "lookat " + v3(&s.CameraLookAt), "head " + num(s.CameraRot.Y), "pich " + num(s.CameraRot.X), "bank " + num(s.CameraRot.Z),
			"zoom2 " + num(s.Zoom2), fmt.Sprintf("ortho %d", bit(s.Ortho)),
		}
		if s.FrontClip > 0 {
			lines = append(lines, "frontclip "+num(s.FrontClip))
		}
		if s.BackClip > 0 {
			lines = append(lines, "backclip "+num(s.BackClip))
		}
		if s.AmbientLight != nil {
			lines = append(lines, "amb "+v3(s.AmbientLight))
		}
		if st.Noise {
			lines = append(lines, "dirlights 1 {"+st.Eol+"light {"+st.Eol+"dir 0.408 0.408 0.816"+st.Eol+"color 1.000 1.000 1.000"+st.Eol+"}"+st.Eol+"}")
		}
		for _, l := range shuffled(t, lines) {
			ln(1, "%s", l)
		}
		ln(0, "}")
	}
	if st.Noise && Bool(t, "backimage") {
		ln(0, "BackImage {")
		ln(1, "part 0 \"back.bmp\" 1 0.5 -0.5 1 1")
		ln(0, "}")
	}
	if st.Noise && Bool(t, "deepblock") {
		// an unknown chunk holding chunks of its own, some spelled like known ones
		ln(0, "Unknown%s {", rapid.SampledFrom([]string{"", " 2", " \"x\" 1 0.5"}).Draw(t, "deephead"))
		ln(1, "Object \"inner\" {")
		ln(2, "vertex 1 {")
		ln(3, "0 0 0")
		ln(2, "}")
		if Bool(t, "deeper") {
			ln(2, "face 1 {")
			ln(3, "sub {")
			ln(4, "2 V(0 1)")
			ln(3, "}")
			ln(2, "}")
		}
		ln(1, "}")
		ln(1, "tail %s", rapid.SampledFrom([]string{"1 2 3", "05ef129e2b0f 09", "0x 1e+"}).Draw(t, "tail"))
		ln(0, "}")
	}
	ln(0, "Material %d {", len(doc.Materials))
	ex2 := 0
	for _, m := range doc.Materials {
		attrs := []string{
			fmt.Sprintf("col(%s %s %s %s)", num(m.Color.X), num(m.Color.Y), num(m.Color.Z), num(m.Color.W)),
			"dif(" + num(m.Diffuse) + ")", "amb(" + num(m.Ambient) + ")", "emi(" + num(m.Emission) + ")", "spc(" + num(m.Specular) + ")", "power(" + num(m.Power) + ")",
		}
		if m.EmissionColor != nil {
			attrs = append(attrs, "emi_col("+v3(m.EmissionColor)+")")
		}
		if m.Texture != "" {
			attrs = append(attrs, "tex(\""+path(m.Texture)+"\")")
		}
		if m.AlphaTexture != "" {
			attrs = append(attrs, "aplane(\""+path(m.AlphaTexture)+"\")")
		}
		if m.BumpTexture != "" {
			attrs = append(attrs, "bump(\""+path(m.BumpTexture)+"\")")
		}
		if m.DoubleSided || Bool(t, "explicitdbls") {
			attrs = append(attrs, fmt.Sprintf("dbls(%d)", bit(m.DoubleSided)))
		}
		if m.UID != 0 {
			attrs = append(attrs, fmt.Sprintf("uid(%d)", m.UID))
		}
		if m.Shader != 0 || Bool(t, "explicitshader") {
			attrs = append(attrs, fmt.Sprintf("shader(%d)", m.Shader))
		}
		if st.Noise {
			attrs = append(attrs, "vcol(1)", "reflect(0.000)", "refract(1.000)", "proj_type(3)", "proj_pos(0.00 -1.00 0.00)", "amb_col(1.000 1.000 1.000)")
		}
		ln(1, "\"%s\" %s", m.Name, strings.Join(shuffled(t, attrs), " "))
		if m.Ex2 != nil {
			ex2++
		}
	}
	ln(0, "}")
	if ex2 > 0 {
		params := func(d int, head string, ps map[string]interface{}) {
			var keys []string
			for k := range ps {
				keys = append(keys, k)
			}
			sort.Strings(keys)
			ln(d, "%s %d {", head, len(keys))
			for _, k := range keys {
				switch v := ps[k].(type) {
				case int:
					ln(d+1, "%s int %d", k, v)
				case float32:
					ln(d+1, "%s float %s", k, num(v))
				case float64:
					ln(d+1, "%s float %s", k, num(float32(v)))
				case bool:
					ln(d+1, "%s bool %s", k, rapid.SampledFrom([][]string{{"false", "true"}, {"0", "1"}}).Draw(t, "boolstyle")[bit(v)])
				case []float32:
					ln(d+1, "%s color %s %s %s %s", k, num(v[0]), num(v[1]), num(v[2]), num(v[3]))
				case string:
					ln(d+1, "%s string \"%s\"", k, v)
				}
			}
			ln(d, "}")
		}
		ln(0, "MaterialEx2 %d {", ex2)
		for i, m := range doc.Materials {
			if m.Ex2 == nil {
				continue
			}
			ln(1, "material %d {", i)
			ln(2, "shadertype \"%s\"", m.Ex2.ShaderType)
			ln(2, "shadername \"%s\"", m.Ex2.ShaderName)
			params(2, "shaderparam", m.Ex2.ShaderParams)
			if len(m.Ex2.ShaderMapping) > 0 {
				ln(2, "shadermapping %d {", len(m.Ex2.ShaderMapping))
				for k, v := range m.Ex2.ShaderMapping {
					ln(3, "\"%s\" \"%s\"", k, path(v))
				}
				ln(2, "}")
			}
			for k, v := range m.Ex2.ShaderMappingParams {
				params(2, "shadermappingparam \""+k+"\"", v)
			}
			ln(1, "}")
		}
		ln(0, "}")
	}
	for _, o := range doc.Objects {
		ln(0, "Object \"%s\" {", o.Name)
		var lines []string
		add := func(f string, a ...interface{}) { lines = append(lines, fmt.Sprintf(f, a...)) }
		if o.UID != 0 {
			add("uid %d", o.UID)
		}
		add("depth %d", o.Depth)
		add("folding %d", bit(o.Folding))
		add("scale %s", v3(o.Scale))
		add("rotation %s %s %s", num(o.Rotation.Y), num(o.Rotation.X), num(o.Rotation.Z)) // heading, pitch, bank
		add("translation %s", v3(o.Translation))
		add("visible %d", 15*bit(o.Visible))
		add("locking %d", bit(o.Locked))
		add("shading %d", o.Shading)
		add("facet %s", num(o.Facet))
		if o.Patch > 0 {
			add("patch %d", o.Patch)
			add("segment %d", o.PatchSegment)
		}
		if o.Mirror != 0 || o.MirrorDis != 0 {
			add("mirror %d", o.Mirror)
			add("mirror_dis %s", num(o.MirrorDis))
		}
		if o.Color != nil {
			add("color %s", v3(o.Color))
		}
		if st.Noise {
			add("color_type 0")
			add("mirror_axis 1")
			add("lathe 0")
			add("blob 0 {%s 1 2 -3 %s}", st.Eol, st.Eol)
			if Bool(t, "deepobj") {
				add("patchdata 1 {%s a {%s b 2 {%s 1 -2 %s}%s c 1%s}%s d 2%s}", st.Eol, st.Eol, st.Eol, st.Eol, st.Eol, st.Eol, st.Eol, st.Eol)
			}
		}
		for _, l := range shuffled(t, lines) {
			ln(1, "%s", l)
		}
		ln(1, "vertex %d {", len(o.Vertexes))
		for _, v := range o.Vertexes {
			ln(2, "%s", v3(v))
		}
		ln(1, "}")
		if len(o.VertexByUID) > 0 {
			ln(1, "vertexattr {")
			if st.Noise {
				ln(2, "weit {")
				ln(3, "0 1.000")
				ln(2, "}")
			}
			ln(2, "uid {")
			for i := range o.Vertexes {
				ln(3, "%d", VertexUID(o, i))
			}
			ln(2, "}")
			ln(1, "}")
		}
		ln(1, "face %d {", len(o.Faces))
		for _, f := range o.Faces {
			var vs, uv []string
			for _, v := range f.Verts {
				vs = append(vs, fmt.Sprint(v))
			}
			attrs := []string{"V(" + strings.Join(vs, " ") + ")"}
			if f.Material != 0 || Bool(t, "explicitmat") {
				attrs = append(attrs, fmt.Sprintf("M(%d)", f.Material))
			}
			if len(f.UVs) > 0 {
				for _, v := range f.UVs {
					uv = append(uv, num(v.X)+" "+num(v.Y))
				}
				attrs = append(attrs, "UV("+strings.Join(uv, " ")+")")
			}
			if len(f.Normals) > 0 {
				var fl, ns []string
				for _, n := range f.Normals {
					if n == nil {
						fl = append(fl, rapid.SampledFrom([]string{"0", "1"}).Draw(t, "nflag"))
					} else {
						fl = append(fl, rapid.SampledFrom([]string{"2", "3"}).Draw(t, "nflag"))
						ns = append(ns, v3(n))
					}
				}
				attrs = append(attrs, "N("+strings.Join(append(fl, ns...), " ")+")")
			}
			if f.UID != 0 {
				attrs = append(attrs, fmt.Sprintf("UID(%d)", f.UID))
			}
			if st.Noise {
				var cols, crs []string
				for range f.Verts {
					cols = append(cols, "4294967295")
					crs = append(crs, "0.5")
				}
				attrs = append(attrs, "COL("+strings.Join(cols, " ")+")", "CRS("+strings.Join(crs, " ")+")")
			}
			ln(2, "%d %s", len(f.Verts), strings.Join(shuffled(t, attrs), " "))
		}
		ln(1, "}")
		ln(0, "}")
	}
	if st.Eof {
		ln(0, "Eof")
	}
	if !st.SJIS {
		return b.Bytes()
	}
	r, err := japanese.ShiftJIS.NewEncoder().Bytes(b.Bytes())
	if err != nil {
		panic(err)
	}
	return r
}

func xe(s string) string {
	return strings.NewReplacer("&", "&amp;", "<", "&lt;", ">", "&gt;", "\"", "&quot;").Replace(s)
}

// EmitMQX writes the plugin data as XML.
func EmitMQX(t *T, doc *mqo.Document, mqoName string, noise bool) []byte {
	var b bytes.Buffer
	p := func(f string, a ...interface{}) { fmt.Fprintf(&b, f+"\r\n", a...) }
	el := func(name string, attrs []string, empty bool) {
		end := ">"
		if empty {
			end = "/>"
		}
		p("<%s %s%s", name, strings.Join(shuffled(t, attrs), " "), end)
	}
	a := func(k string, v interface{}) string { return fmt.Sprintf("%s=\"%s\"", k, xe(fmt.Sprint(v))) }
	a3 := func(k string, v geom.Vector3) string { return a(k, fmt.Sprintf("%v,%v,%v", v.X, v.Y, v.Z)) }
	x3 := func(n string, v mqo.Vector3XmlAttr) {
		el(n, []string{a("x", v.X), a("y", v.Y), a("z", v.Z)}, true)
	}
	p(`<?xml version="1.0" encoding="UTF-8"?>`)
	p("<MetasequoiaDocument>")
	p("<IncludedBy>%s</IncludedBy>", xe(mqoName))
	if noise {
		p("<Plugin.12345678.9ABCDEF0 name=\"Other\"><Thing a=\"1\"/></Plugin.12345678.9ABCDEF0>")
	}
	for _, pl := range doc.Plugins {
		switch x := pl.(type) {
		case *mqo.BonePlugin:
			p("<Plugin.56A31D20.71F282AB name=\"Bone\">")
			p("<BoneSet>")
			for _, o := range x.BoneSet.Bone {
				el("Bone", []string{a("id", o.ID), a("name", o.Name), a("group", o.Group), a("isDummy", o.IsDummy), a("rtX", o.RtX), a("rtY", o.RtY), a("rtZ", o.RtZ), a("tpX", o.TpX), a("tpY", o.TpY), a("tpZ", o.TpZ),
					a("mvX", o.MvX), a("mvY", o.MvY), a("mvZ", o.MvZ), a("rotB", o.RotB), a("rotH", o.RotH), a("rotP", o.RotP), a("sc", o.Sc),
					a("maxAngB", o.MaxAngB), a("maxAngH", o.MaxAngH), a("maxAngP", o.MaxAngP), a("minAngB", o.MinAngB), a("minAngH", o.MinAngH), a("minAngP", o.MinAngP)}, false)
				p("<P id=\"%d\"/>", o.Parent.ID)
				for _, ch := range o.Children {
					p("<C id=\"%d\"/>", ch.ID)
				}
				for _, w := range o.Weights {
					el("W", []string{a("oi", w.ObjectID), a("vi", w.VertexID), a("w", w.Weight)}, true)
				}
				p("</Bone>")
			}
			p("</BoneSet>")
			p("<BoneSet2 limit=\"%d\">", x.BoneSet2.Limit)
			for _, o := range x.BoneSet2.Bones {
				at := []string{a("id", o.ID), a("name", o.Name), a3("pos", o.Pos.Vector3)}
				if o.Group != 0 {
					at = append(at, a("group", o.Group))
				}
				if o.Parent != 0 {
					at = append(at, a("parent", o.Parent))
				}
				if o.Movable != 0 {
					at = append(at, a("movable", o.Movable))
				}
				if o.Hide != 0 {
					at = append(at, a("hide", o.Hide))
				}
				if o.Dummy != 0 {
					at = append(at, a("dummy", o.Dummy))
				}
				if o.Color != "" {
					at = append(at, a("color", o.Color))
				}
				if o.UpVector != nil {
					at = append(at, a3("upVector", o.UpVector.Vector3))
				}
				if o.Rotate != nil {
					at = append(at, a3("rotate", o.Rotate.Vector3))
				}
				if noise {
					at = append(at, a("maxAngle", "90,90,90"))
				}
				el("Bone", at, false)
				if o.IK != nil {
					el("IK", []string{a("chain", o.IK.ChainCount), a("name", o.IK.Name), a("tipName", o.IK.TipName)}, true)
				}
				for _, w := range o.Weights {
					p("<W obj=\"%d\">", w.ObjectID)
					for _, v := range w.Vertexes {
						el("V", []string{a("v", v.VertexID), a("w", v.Weight)}, true)
					}
					p("</W>")
				}
				p("</Bone>")
			}
			p("</BoneSet2>")
			p("<Poses>")
			for _, o := range x.PoseSet.BonePoses {
				el("Pose", []string{a("id", o.ID), a("name", o.Name), a("mvX", o.MvX), a("mvY", o.MvY), a("mvZ", o.MvZ), a("rotB", o.RotB), a("rotH", o.RotH), a("rotP", o.RotP), a("scB", o.ScB), a("scH", o.ScH), a("scP", o.ScP)}, true)
			}
			p("</Poses>")
			p("<Obj id=\"1\"/>")
			p("</Plugin.56A31D20.71F282AB>")
		case *mqo.MorphPlugin:
			p("<Plugin.56A31D20.C452C6DB name=\"Morph\">")
			p("<MorphSet>")
			for _, l := range x.MorphSet.Targets {
				p("<TargetList %s>", a("base", l.Base))
				for _, o := range l.Target {
					el("Target", []string{a("name", o.Name), a("param", o.Param)}, true)
				}
				p("</TargetList>")
			}
			p("</MorphSet>")
			p("</Plugin.56A31D20.C452C6DB>")
		case *mqo.PhysicsPlugin:
			p("<Plugin.7A6E6962.43594850 %s>", a("name", x.Name))
			p("<Bodies>")
			for _, o := range x.Bodies {
				el("Body", []string{a("mass", o.Mass), a("kinematic", o.Kinematic), a("name", o.Name), a("targetBone", o.TargetBoneID), a("targetObj", o.TargetObjID)}, false)
				p("<Shapes>")
				for _, s := range o.Shapes {
					p("<Shape %s>", a("type", s.Type))
					x3("Size", s.Size)
					x3("Position", s.Position)
					x3("Rotation", s.Rotation)
					p("</Shape>")
				}
				p("</Shapes>")
				p("<CollisionGroup>%d</CollisionGroup>", o.CollisionGroup)
				p("<CollisionMask>%d</CollisionMask>", o.CollisionMask)
				p("<Restitution>%v</Restitution>", o.Restitution)
				p("<Friction>%v</Friction>", o.Friction)
				p("<LinearDamping>%v</LinearDamping>", o.LinearDamping)
				p("<AngularDamping>%v</AngularDamping>", o.AngularDamping)
				p("</Body>")
			}
			p("</Bodies>")
			p("<Constraints>")
			for _, o := range x.Constraints {
				el("Joint", []string{a("type", o.Type), a("body1", o.Body1), a("body2", o.Body2), a("name", o.Name)}, false)
				x3("Position", o.Position)
				x3("Rotation", o.Rotation)
				x3("LinerSpring", o.LinerSpring)
				x3("AngulerSpring", o.AngulerSpring)
				p("</Joint>")
			}
			p("</Constraints>")
			p("</Plugin.7A6E6962.43594850>")
		}
	}
	p("</MetasequoiaDocument>")
	return b.Bytes()
}
