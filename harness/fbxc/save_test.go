package fbxc

import (
	"bytes"
	"fmt"
	"path/filepath"
	"reflect"
	"strings"
	"testing"

	"github.com/binzume/modelconv/fbx"
	"github.com/binzume/modelconv/geom"

	"verif/harness/gen"
	"verif/harness/hx"
)

func ident(s string) string { return s }

func noFileID(kids []*gen.FN) (r []*gen.FN) {
	for _, k := range kids {
		if k.Name != "FileId" {
			r = append(r, k)
		}
	}
	return
}

// save writes the document and loads it again; saving that must give the same bytes.
func resave(c *hx.C, doc *fbx.Document) *fbx.Document {
	var w bytes.Buffer
	if err := fbx.Write(&w, doc); err != nil {
		c.Fatalf("Write: %v", err)
	}
	c.DescF(func() string { return "written:\n" + w.String() })
	var w1 bytes.Buffer
	if fbx.Write(&w1, doc); !bytes.Equal(w.Bytes(), w1.Bytes()) {
		c.Fatalf("writing twice gives different files:\n%s\n%s", w.Bytes(), w1.Bytes())
	}
	dir, done := hx.Scratch(c)
	defer done()
	p := filepath.Join(dir, "x.fbx")
	if err := fbx.Save(doc, p); err != nil {
		c.Fatalf("Save: %v", err)
	}
	got, err := fbx.Load(p)
	if err != nil {
		c.Fatalf("Load of the saved file: %v", err)
	}
	var w2 bytes.Buffer
	if err := fbx.Write(&w2, got); err != nil {
		c.Fatalf("Write: %v", err)
	}
	got2, err := fbx.Parse(bytes.NewReader(w2.Bytes()))
	if err != nil {
		c.Fatalf("reading the second generation: %v\n%s", err, w2.Bytes())
	}
	if a, b := fmt.Sprint(dump(got.RawNode)), fmt.Sprint(dump(got2.RawNode)); a != b {
		c.Fatalf("second generation differs:\n%s\n%s", a, b)
	}
	return got
}

func dump(n *fbx.Node) string {
	var sb strings.Builder
	fmt.Fprintf(&sb, "%q(", n.Name)
	for _, a := range n.Attributes {
		fmt.Fprintf(&sb, "%v,", a.Value)
	}
	for _, k := range n.Children {
		sb.WriteString(dump(k))
	}
	sb.WriteString(")")
	return sb.String()
}

func propSaveTree(c *hx.C) {
	kids := drawTree(c, 40)
	o := gen.DrawFBXBin(c.T)
	data, _ := gen.EncodeFBX(kids, o)
	c.Desc("%s", show(kids, 0))
	nontrivialTree(c, kids, "")
	doc, err := fbx.Parse(bytes.NewReader(data))
	if err != nil {
		c.Fatalf("Parse: %v", err)
	}
	got := resave(c, doc)
	if d := diffTree("source", doc.RawNode.Children, kids); d != "" {
		c.Fatalf("saving changed the document: %s", d)
	}
	if d := diffText("", got.RawNode.Children, noFileID(kids), false, ident); d != "" {
		c.Fatalf("%s", d)
	}
}

func propSaveScene(c *hx.C) {
	s, kids := drawScene(c)
	var data []byte
	text := gen.Bool(c.T, "text")
	if text {
		o := gen.DrawFBXText(c.T)
		data = gen.EmitFBXText(kids, o)
	} else {
		data, _ = gen.EncodeFBX(kids, gen.DrawFBXBin(c.T))
	}
	doc, err := fbx.Parse(bytes.NewReader(data))
	if err != nil {
		c.Fatalf("Parse: %v", err)
	}
	// edits of the loaded document are in the file
	for _, m := range s.Models {
		if !gen.Chance(c.T, "edit", 4) {
			continue
		}
		c.Label("edited")
		o := doc.ObjectByID[m.ID].(*fbx.Model)
		p := gen.Pt(c.T, "p", 50)
		v := &geom.Vector3{X: float32(p[0]), Y: float32(p[1]), Z: float32(p[2])}
		switch gen.Int(c.T, "what", 0, 2) {
		case 0:
			o.SetTranslation(v)
			m.T = &p
		case 1:
			o.SetRotation(v)
			m.R = &p
		case 2:
			p = gen.P3{gen.Pos(c.T, "sx"), gen.Pos(c.T, "sy"), gen.Pos(c.T, "sz")}
			o.SetScaling(&geom.Vector3{X: float32(p[0]), Y: float32(p[1]), Z: float32(p[2])})
			m.S = &p
		}
	}
	extend(c, s, doc)
	layers := editLayers(c, s, doc)
	got := resave(c, doc)
	checkScene(c, "saved", s, got)
	checkScene(c, "original", s, doc)
	layers("original", doc)
	layers("saved", got)
}

// extend adds objects to a loaded document.
func extend(c *hx.C, s *gen.FScene, doc *fbx.Document) {
	t := c.T
	if !gen.Chance(t, "extend", 2) {
		return
	}
	ids := map[int64]bool{0: true}
	for id := range doc.ObjectByID {
		ids[id] = true
	}
	add := func(o fbx.Object) int64 {
		if gen.Chance(t, "wantid", 3) {
			// an id the caller chose, which may be taken
			o.GetNode().Attributes[0].Value = int64(gen.Int(t, "id", 1, 110))
		}
		id := doc.AddObject(o)
		if id != o.ID() || ids[id] || doc.ObjectByID[id] != o {
			c.Fatalf("AddObject gives id %d (object says %d), in use: %v", id, o.ID(), ids[id])
		}
		ids[id] = true
		return id
	}
	var mats []*fbx.Material
	for i := gen.Int(t, "newmats", 0, 2); i > 0; i-- {
		m := fbx.NewMaterial(fmt.Sprintf("newmat%d", i))
		w := &gen.FMat{Name: fmt.Sprintf("newmat%d", i)}
		p := gen.P3{0.25, float64(gen.Int(t, "g", 0, 8)) / 8, 0.75}
		m.SetColor("DiffuseColor", &geom.Vector3{X: float32(p[0]), Y: float32(p[1]), Z: float32(p[2])})
		w.Diffuse = &p
		f := float64(gen.Int(t, "f", 0, 8)) / 8
		if m.GetFactor("DiffuseFactor", -1) != -1 {
			c.Fatalf("a new material has a DiffuseFactor: %v", m.GetFactor("DiffuseFactor", -1))
		}
		m.SetFloatProperty("DiffuseFactor", f)
		w.DifF = &f
		w.ID = add(m)
		s.Mats = append(s.Mats, w)
		mats = append(mats, m)
	}
	for i := gen.Int(t, "newmodels", 1, 4); i > 0; i-- {
		m := fbx.NewModel(fmt.Sprintf("newmodel%d", i), "Null")
		w := &gen.FModel{Name: fmt.Sprintf("newmodel%d", i), Kind: "Null", Parent: gen.Int(t, "newparent", -1, len(s.Models)-1), Geo: -1}
		if gen.Bool(t, "T") {
			p := gen.Pt(t, "p", 50)
			m.SetTranslation(&geom.Vector3{X: float32(p[0]), Y: float32(p[1]), Z: float32(p[2])})
			w.T = &p
		}
		// The templates of the document only apply after loading it again, so
		// nothing is left to them.
		p := gen.P3{gen.Pos(t, "sx"), 1, gen.Pos(t, "sz")}
		m.SetScaling(&geom.Vector3{X: float32(p[0]), Y: float32(p[1]), Z: float32(p[2])})
		w.S = &p
		w.ID = add(m)
		parent := doc.Scene
		if w.Parent >= 0 {
			parent = doc.ObjectByID[s.Models[w.Parent].ID].(*fbx.Model)
		}
		doc.AddConnection(parent, m)
		for k, mat := range mats {
			if gen.Bool(t, "usemat") {
				doc.AddConnection(m, mat)
				w.Mats = append(w.Mats, len(s.Mats)-len(mats)+k)
			}
		}
		s.Models = append(s.Models, w)
	}
	c.Label("extended")
}

// editLayers replaces normals and materials of loaded geometries.
func editLayers(c *hx.C, s *gen.FScene, doc *fbx.Document) func(string, *fbx.Document) {
	t := c.T
	want := map[int64][]*geom.Vector3{}
	for _, x := range s.Geos {
		if !gen.Chance(t, "layers", 4) {
			continue
		}
		g := doc.ObjectByID[x.ID].(*fbx.Geometry)
		for k := gen.Int(t, "times", 1, 2); k > 0; k-- {
			var ns []*geom.Vector3
			for range x.Verts {
				v := gen.UnitV3(t, "n")
				ns = append(ns, &v)
			}
			g.SetLayerElementNormal(ns, fbx.ByControlPoint)
			want[x.ID] = ns
		}
		c.Label("layers edited")
	}
	return func(how string, d *fbx.Document) {
		for id, ns := range want {
			g := d.ObjectByID[id].(*fbx.Geometry)
			l := g.GetLayerElementNormal()
			if diff := hx.Diff(l.Array.GetVec3Array(), ns, 0); diff != "" || l.GetMappingInformationType() != fbx.ByControlPoint {
				c.Fatalf("%s: new normals of geometry %d (%v): %s", how, id, l.GetMappingInformationType(), diff)
			}
			k := 0
			for _, n := range g.GetChildren() {
				if n.Name == "LayerElementNormal" {
					k++
				}
			}
			if k != 1 {
				c.Fatalf("%s: %d layers of normals", how, k)
			}
			oneEntryPerLayer(c, how, g)
		}
	}
}

// oneEntryPerLayer: the Layer node lists an element at most once.
func oneEntryPerLayer(c *hx.C, how string, g *fbx.Geometry) {
	seen := map[string]bool{}
	for _, el := range g.FindChild("Layer").GetChildren() {
		if el.Name != "LayerElement" {
			continue
		}
		k := fmt.Sprint(el.FindChild("Type").GetString(), el.FindChild("TypedIndex").GetInt(0))
		if seen[k] {
			c.Fatalf("%s: the layer lists %s twice", how, k)
		}
		seen[k] = true
		if g.FindChild(el.FindChild("Type").GetString()) == nil {
			c.Fatalf("%s: the layer lists %s, which is not there", how, k)
		}
	}
}

// documents built with the API
func propBuilt(c *hx.C) {
	doc := fbx.NewDocument()
	t := c.T
	type mm struct {
		m        *fbx.Model
		name     string
		tr, r, s *geom.Vector3
		parent   int
		geo      int
		mats     []int
	}
	type gg struct {
		g     *fbx.Geometry
		verts []*geom.Vector3
		faces [][]int
		nrm   []*geom.Vector3
		nmap  fbx.MappingType
		uv    []*geom.Vector2
		uvi   []int32
		mat   []int32
		mmap  fbx.MappingType
	}
	var mats []*fbx.Material
	var cols []geom.Vector3
	nmat := gen.Int(t, "mats", 0, 2)
	for i := 0; i < nmat; i++ {
		m := fbx.NewMaterial(fmt.Sprintf("mat%d", i))
		col := gen.Col3(t, "col")
		m.SetColor("DiffuseColor", &col)
		mats, cols = append(mats, m), append(cols, col)
	}
	var models []*mm
	var geos []*gg
	n := gen.Int(t, "models", 1, 4)
	names := gen.UniqueNames(t, "m", n, gen.Ident)
	for i := 0; i < n; i++ {
		x := &mm{m: fbx.NewModel(names[i], "Mesh"), name: names[i], parent: -1, geo: -1}
		if gen.Bool(t, "early") {
			if v := *x.m.GetTranslation(); v != (geom.Vector3{}) {
				c.Fatalf("a new model is at %v", v)
			}
		}
		if gen.Bool(t, "T") {
			v := gen.V3(t, "T", 100)
			x.tr = &v
			if gen.Bool(t, "short") {
				x.m.SetProperty("Lcl Translation", &fbx.Property{Type: "Lcl Translation", Flag: "A"})
			}
			x.m.SetTranslation(&geom.Vector3{X: 1, Y: 2, Z: 3})
			x.m.SetTranslation(&v)
		}
		if gen.Bool(t, "R") {
			v := gen.V3(t, "R", 180)
			x.r = &v
			x.m.SetRotation(&v)
		}
		if gen.Bool(t, "S") {
			v := geom.Vector3{X: float32(gen.Pos(t, "s")), Y: float32(gen.Pos(t, "s")), Z: float32(gen.Pos(t, "s"))}
			x.s = &v
			x.m.SetScaling(&v)
		}
		if i > 0 && gen.Bool(t, "child") {
			x.parent = gen.Int(t, "parent", 0, i-1)
		}
		if gen.Bool(t, "geo") {
			g := &gg{}
			nv := gen.Int(t, "nv", 3, 6)
			for j := 0; j < nv; j++ {
				v := gen.V3(t, "v", 100)
				g.verts = append(g.verts, &v)
			}
			corners := 0
			for j := gen.Int(t, "nf", 1, 3); j > 0; j-- {
				f := gen.Iota(gen.Int(t, "fn", 3, nv))
				g.faces = append(g.faces, f)
				corners += len(f)
			}
			g.g = fbx.NewGeometry(names[i]+"g", g.verts, g.faces)
			if gen.Bool(t, "nrm") {
				cnt := nv
				g.nmap = fbx.ByControlPoint
				if gen.Bool(t, "bypoly") {
					g.nmap, cnt = fbx.ByPolygonVertex, corners
				}
				for j := 0; j < cnt; j++ {
					v := gen.UnitV3(t, "n")
					g.nrm = append(g.nrm, &v)
				}
				if gen.Bool(t, "twice") {
					g.g.SetLayerElementNormal([]*geom.Vector3{{X: 1}}, fbx.AllSame)
				}
				g.g.SetLayerElementNormal(g.nrm, g.nmap)
			}
			if gen.Bool(t, "uv") {
				for j := 0; j < corners; j++ {
					v := gen.V2(t, "uv", 3)
					g.uv = append(g.uv, &v)
					g.uvi = append(g.uvi, int32(corners-1-j))
				}
				g.g.SetLayerElementUVIndexed(g.uv, g.uvi, fbx.ByPolygonVertex)
			}
			if nmat > 0 && gen.Bool(t, "mat") {
				g.mmap = fbx.AllSame
				k := 1
				if gen.Bool(t, "bypolygon") {
					g.mmap, k = fbx.ByPolygon, len(g.faces)
				}
				for j := 0; j < k; j++ {
					g.mat = append(g.mat, int32(gen.Int(t, "mi", 0, nmat-1)))
				}
				g.g.SetLayerElementMaterialIndex(g.mat, g.mmap)
			}
			x.geo = len(geos)
			geos = append(geos, g)
		}
		if nmat > 0 && gen.Bool(t, "hasmat") {
			x.mats = gen.Iota(nmat)
		}
		models = append(models, x)
	}
	ids := map[int64]bool{0: true}
	add := func(o fbx.Object) {
		id := doc.AddObject(o)
		if id != o.ID() || ids[id] || doc.ObjectByID[id] != o {
			c.Fatalf("AddObject gives id %d (object says %d), in use: %v", id, o.ID(), ids[id])
		}
		ids[id] = true
		if doc.AddObject(o) != id {
			c.Fatalf("adding an object twice changes its id")
		}
	}
	for _, x := range models {
		add(x.m)
	}
	for _, g := range geos {
		add(g.g)
	}
	for _, m := range mats {
		add(m)
	}
	for _, x := range models {
		if x.parent < 0 {
			doc.AddConnection(doc.Scene, x.m)
		} else {
			doc.AddConnection(models[x.parent].m, x.m)
		}
		if x.geo >= 0 {
			doc.AddConnection(x.m, geos[x.geo].g)
		}
		for _, k := range x.mats {
			doc.AddConnection(x.m, mats[k])
		}
	}
	c.Desc("%d models, %d geometries, %d materials", len(models), len(geos), len(mats))
	check := func(how string, d *fbx.Document) {
		for _, x := range models {
			o := d.ObjectByID[x.m.ID()]
			m, ok := o.(*fbx.Model)
			if !ok {
				c.Fatalf("%s: model %q: %v", how, x.name, o)
			}
			if s := m.Name(); s != x.name+"::Model" && s != "Model::"+x.name {
				c.Fatalf("%s: name %q", how, s)
			}
			def := func(v *geom.Vector3, k float32) geom.Vector3 {
				if v == nil {
					return geom.Vector3{X: k, Y: k, Z: k}
				}
				return *v
			}
			if *m.GetTranslation() != def(x.tr, 0) || *m.GetRotation() != def(x.r, 0) || *m.GetScaling() != def(x.s, 1) {
				c.Fatalf("%s: placement of %q: %v %v %v", how, x.name, m.GetTranslation(), m.GetRotation(), m.GetScaling())
			}
			want := d.Scene
			if x.parent >= 0 {
				want, _ = d.ObjectByID[models[x.parent].m.ID()].(*fbx.Model)
			}
			if m.Parent != want {
				c.Fatalf("%s: parent of %q is %v, want %v", how, x.name, m.Parent, want)
			}
			if want.FindChildModel(x.name) != m {
				c.Fatalf("%s: %q is not among the children of its parent", how, x.name)
			}
			g := m.GetGeometry()
			if (g != nil) != (x.geo >= 0) {
				c.Fatalf("%s: geometry of %q", how, x.name)
			}
			if len(m.FindRefs("Material")) != len(x.mats) {
				c.Fatalf("%s: materials of %q", how, x.name)
			}
			for j, k := range x.mats {
				if m.FindRefs("Material")[j].ID() != mats[k].ID() {
					c.Fatalf("%s: material %d of %q", how, j, x.name)
				}
			}
			if g == nil {
				continue
			}
			w := geos[x.geo]
			oneEntryPerLayer(c, how, g)
			for name, has := range map[string]bool{"LayerElementNormal": w.nrm != nil, "LayerElementUV": w.uv != nil, "LayerElementMaterial": w.mat != nil} {
				n := 0
				for _, el := range g.FindChild("Layer").GetChildren() {
					if el.FindChild("Type").GetString() == name {
						n++
					}
				}
				if (n == 1) != has {
					c.Fatalf("%s: the layer lists %s %d times", how, name, n)
				}
			}
			if d := hx.Diff(g.Vertices, w.verts, 0); d != "" {
				c.Fatalf("%s: vertices %s", how, d)
			}
			if !reflect.DeepEqual(g.Polygons, w.faces) {
				c.Fatalf("%s: polygons %v, want %v", how, g.Polygons, w.faces)
			}
			if l := g.GetLayerElementNormal(); true {
				if d := hx.Diff(l.Array.GetVec3Array(), w.nrm, 0); d != "" {
					c.Fatalf("%s: normals %s", how, d)
				}
				if l.GetMappingInformationType() != w.nmap || w.nmap != "" && l.GetReferenceInformationType() != "Direct" {
					c.Fatalf("%s: normal mapping %v, want %v", how, l.GetMappingInformationType(), w.nmap)
				}
			}
			if l := g.GetLayerElementUV(); true {
				if d := hx.Diff(l.Array.GetVec2Array(), w.uv, 0); d != "" {
					c.Fatalf("%s: UVs %s", how, d)
				}
				if d := hx.Diff(l.GetIndexes(), w.uvi, 0); d != "" {
					c.Fatalf("%s: UV indices %s", how, d)
				}
				if w.uv != nil && (l.GetMappingInformationType() != fbx.ByPolygonVertex || l.GetReferenceInformationType() != "IndexToDirect") {
					c.Fatalf("%s: UV mapping", how)
				}
			}
			if l := g.GetLayerElementMaterial(); true {
				if d := hx.Diff(l.GetIndexes(), w.mat, 0); d != "" {
					c.Fatalf("%s: material indices %s", how, d)
				}
				if l.GetMappingInformationType() != w.mmap {
					c.Fatalf("%s: material mapping %q, want %q", how, l.GetMappingInformationType(), w.mmap)
				}
			}
		}
		if len(d.Materials) != len(mats) {
			c.Fatalf("%s: %d materials, want %d", how, len(d.Materials), len(mats))
		}
		for i := range mats {
			m, ok := d.ObjectByID[mats[i].ID()].(*fbx.Material)
			if !ok || *m.GetColor("DiffuseColor", nil) != cols[i] {
				c.Fatalf("%s: material %d: %v", how, i, m)
			}
		}
		if gen.MatOf(d.CoordMatrix()) != gen.Ident4() {
			c.Fatalf("%s: CoordMatrix %v", how, d.CoordMatrix())
		}
	}
	check("built", doc)
	got := resave(c, doc)
	check("saved", got)
	if len(geos) > 0 {
		c.NonTrivial(dump(got.RawNode))
	}
}

func TestC06(t *testing.T) {
	hx.Main(t, "C06",
		hx.Leg{Name: "tree", Quick: 1500, Prop: propSaveTree},
		hx.Leg{Name: "scene", Quick: 800, Prop: propSaveScene},
		hx.Leg{Name: "built", Quick: 1500, Prop: propBuilt},
	)
}
