package mqoc

import (
	"archive/zip"
	"bytes"
	"encoding/xml"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"testing"

	"github.com/binzume/modelconv/mqo"
	"pgregory.net/rapid"

	"verif/harness/gen"
	"verif/harness/hx"
)

// norm brings shader parameter numbers to one type: the file holds decimal text.
func norm(doc *mqo.Document) *mqo.Document {
	doc = hx.Clone(doc)
	fix := func(m map[string]interface{}) {
		for k, v := range m {
			if f, ok := v.(float64); ok {
				m[k] = float32(f)
			}
		}
	}
	for _, m := range doc.Materials {
		if m.Ex2 != nil {
			fix(m.Ex2.ShaderParams)
			for _, p := range m.Ex2.ShaderMappingParams {
				fix(p)
			}
		}
	}
	return doc
}

var skipFields = []string{"BonePlugin.Obj", "BonePlugin.XMLName", "MorphPlugin.XMLName", "PhysicsPlugin.XMLName", "Object.Extra", "Document.Plugins"}

func plugins(doc *mqo.Document) (b *mqo.BonePlugin, m *mqo.MorphPlugin, p *mqo.PhysicsPlugin) {
	for _, x := range doc.Plugins {
		switch v := x.(type) {
		case *mqo.BonePlugin:
			b = v
		case *mqo.MorphPlugin:
			m = v
		case *mqo.PhysicsPlugin:
			p = v
		}
	}
	return
}

// vertexOf is the vertex that a weight of the id refers to.
func vertexOf(o *mqo.Object, id int) int {
	if v, ok := o.VertexByUID[id]; ok {
		return v
	}
	if id >= 1 && id <= len(o.Vertexes) {
		return id - 1
	}
	return -1
}

// sameVertexIDs allows that the vertices without an id got one: the ids that
// referred to a vertex refer to the same one.
func sameVertexIDs(c *hx.C, what string, g, w *mqo.Document) {
	for i, o := range w.Objects {
		if i >= len(g.Objects) || len(o.VertexByUID) == 0 || len(o.VertexByUID) >= len(o.Vertexes) {
			continue
		}
		c.Label("vertices with and without ids")
		x := g.Objects[i]
		if len(x.Vertexes) != len(o.Vertexes) {
			continue // reported by the comparison
		}
		for id := 1; id <= len(o.Vertexes); id++ {
			if a, b := vertexOf(x, id), vertexOf(o, id); a != b {
				c.Fatalf("%s: object %d: vertex id %d refers to vertex %d, want %d (ids %v, were %v)", what, i, id, a, b, x.VertexByUID, o.VertexByUID)
			}
		}
		for id := range o.VertexByUID {
			if a, b := vertexOf(x, id), vertexOf(o, id); a != b {
				c.Fatalf("%s: object %d: vertex id %d refers to vertex %d, want %d (ids %v, were %v)", what, i, id, a, b, x.VertexByUID, o.VertexByUID)
			}
		}
		x.VertexByUID = o.VertexByUID
	}
}

func same(c *hx.C, what string, got, want *mqo.Document, tol float64) {
	g, w := norm(got), norm(want)
	sameVertexIDs(c, what, g, w)
	if d := hx.Diff(g, w, tol, skipFields...); d != "" {
		c.Fatalf("%s: %s", what, d)
	}
	samePlugins(c, what, got, want)
}

func samePlugins(c *hx.C, what string, got, want *mqo.Document) {
	gb, gm, gp := plugins(got)
	wb, wm, wp := plugins(want)
	if wb != nil {
		if gb == nil {
			c.Fatalf("%s: the bones are gone", what)
		}
		if d := hx.Diff(gb, wb, 0, skipFields...); d != "" {
			c.Fatalf("%s: bones: %s", what, d)
		}
	} else if gb != nil && len(gb.Bones()) > 0 {
		c.Fatalf("%s: bones appeared", what)
	}
	if wm != nil {
		if gm == nil {
			c.Fatalf("%s: the morphs are gone", what)
		}
		if d := hx.Diff(gm.MorphSet, wm.MorphSet, 0); d != "" {
			c.Fatalf("%s: morphs: %s", what, d)
		}
	} else if gm != nil && len(gm.Morphs()) > 0 {
		c.Fatalf("%s: morphs appeared", what)
	}
	if wp != nil {
		if gp == nil {
			c.Fatalf("%s: the physics data is gone", what)
		}
		if d := hx.Diff(gp, wp, 0, skipFields...); d != "" {
			c.Fatalf("%s: physics: %s", what, d)
		}
	} else if gp != nil && len(gp.Bodies) > 0 {
		c.Fatalf("%s: physics appeared", what)
	}
}

// the list of skinned objects names each object that has weights once.
func checkObjList(c *hx.C, what string, doc *mqo.Document) {
	b, _, _ := plugins(doc)
	if b == nil {
		return
	}
	weighted := map[int]bool{}
	for _, x := range b.Bones() {
		for _, w := range x.Weights {
			weighted[w.ObjectID] = true
		}
	}
	for _, x := range b.BoneSet.Bone {
		for _, w := range x.Weights {
			weighted[w.ObjectID] = true
		}
	}
	listed := map[int]bool{}
	for _, o := range b.Obj {
		if listed[o.ID] {
			c.Fatalf("%s: object %d is listed twice as skinned", what, o.ID)
		}
		listed[o.ID] = true
	}
	for i, o := range doc.Objects {
		id := o.UID
		if id <= 0 {
			id = i + 1
		}
		if weighted[id] && !listed[id] {
			c.Fatalf("%s: object %d has weights but is not listed as skinned (%v)", what, id, b.Obj)
		}
	}
}

func nontrivial(c *hx.C, doc *mqo.Document) {
	c.DescF(func() string { return gen.DescribeMQO(doc) })
	faces := 0
	for _, o := range doc.Objects {
		faces += len(o.Faces)
	}
	c.LabelIf(len(doc.Plugins) > 0, "plugins")
	c.LabelIf(faces > 0, "faces")
	c.LabelIf(len(doc.Materials) > 0, "materials")
	if faces > 0 && len(doc.Materials) > 0 {
		c.NonTrivial(hx.Dump(doc))
	}
}

func fileName(c *hx.C, n string) string {
	return rapid.SampledFrom([]string{"model", "a.b", "モデル", "with space", "x-1", "mqo", "y.mqx"}).Draw(c.T, n)
}

func saveLoad(c *hx.C, doc *mqo.Document, path string) *mqo.Document {
	if err := mqo.Save(doc, path); err != nil {
		c.Fatalf("Save %s: %v", filepath.Base(path), err)
	}
	got, err := mqo.Load(path)
	if err != nil {
		b, _ := os.ReadFile(path)
		if len(b) > 5000 {
			b = b[:5000]
		}
		c.Fatalf("Load %s: %v\n%s", filepath.Base(path), err, b)
	}
	return got
}

// strict reads a written file with the format's own grammar.
func strict(c *hx.C, path string, want *mqo.Document, tol float64) {
	b, err := os.ReadFile(path)
	if err != nil {
		c.Fatalf("%v", err)
	}
	dir := map[string][]byte{}
	if filepath.Ext(path) == ".mqoz" {
		z, err := zip.NewReader(bytes.NewReader(b), int64(len(b)))
		if err != nil {
			c.Fatalf("the archive cannot be opened: %v", err)
		}
		b = nil
		for _, f := range z.File {
			r, err := f.Open()
			if err != nil {
				c.Fatalf("archive entry %s: %v", f.Name, err)
			}
			data, err := io.ReadAll(r)
			if err != nil {
				c.Fatalf("archive entry %s: %v", f.Name, err)
			}
			dir[f.Name] = data
			if strings.HasSuffix(f.Name, ".mqo") {
				if b != nil {
					c.Fatalf("two documents in the archive")
				}
				b = data
			}
		}
		if b == nil {
			c.Fatalf("no document in the archive")
		}
	}
	doc, inc, err := gen.StrictMQO(b)
	if err != nil {
		c.Fatalf("the file is not well formed: %v\n%s", err, b)
	}
	for _, o := range doc.Objects {
		o.Extra = nil
	}
	w := norm(want)
	for i, o := range w.Objects {
		o.Extra = nil
		if i >= len(doc.Objects) {
			break
		}
		g := doc.Objects[i]
		if o.Patch <= 0 {
			g.PatchSegment = o.PatchSegment
		}
		g.InternalTransform = o.InternalTransform
	}
	sameVertexIDs(c, "the text of the file", doc, w)
	if d := hx.Diff(norm(doc), w, tol, skipFields...); d != "" {
		c.Fatalf("the text of the file: %s", d)
	}
	if (inc != "") != (len(want.Plugins) > 0) {
		c.Fatalf("companion file %q with %d plugins", inc, len(want.Plugins))
	}
	if inc == "" {
		return
	}
	x := dir[inc]
	if filepath.Ext(path) != ".mqoz" {
		if x, err = os.ReadFile(filepath.Join(filepath.Dir(path), inc)); err != nil {
			c.Fatalf("%v", err)
		}
	}
	mqx(c, x, filepath.Base(path), want)
}

// mqx reads a written companion file as plain XML.
func mqx(c *hx.C, data []byte, name string, want *mqo.Document) {
	type node struct {
		XMLName xml.Name
		Attrs   []xml.Attr `xml:",any,attr"`
		Text    string     `xml:",chardata"`
		Kids    []node     `xml:",any"`
	}
	attr := func(n node, k string) string {
		for _, a := range n.Attrs {
			if a.Name.Local == k {
				return a.Value
			}
		}
		return ""
	}
	if !bytes.HasPrefix(data, []byte("<?xml version=\"1.0\" encoding=\"UTF-8\"?>")) {
		c.Fatalf("the companion file has no XML declaration: %.60q", data)
	}
	var root node
	if err := xml.Unmarshal(data, &root); err != nil {
		c.Fatalf("the companion file is not XML: %v\n%s", err, data)
	}
	if root.XMLName.Local != "MetasequoiaDocument" || strings.TrimSpace(root.Text) != "" {
		c.Fatalf("the companion file is a %s %q", root.XMLName.Local, root.Text)
	}
	find := func(n node, path ...string) (out []node) {
		out = []node{n}
		for _, p := range path {
			var next []node
			for _, x := range out {
				for _, k := range x.Kids {
					if k.XMLName.Local == p {
						next = append(next, k)
					}
				}
			}
			out = next
		}
		return
	}
	if x := find(root, "IncludedBy"); len(x) != 1 || x[0].Text != name {
		c.Fatalf("the companion file belongs to %v, want %s", x, name)
	}
	b, m, _ := plugins(want)
	pb := find(root, "Plugin.56A31D20.71F282AB")
	pm := find(root, "Plugin.56A31D20.C452C6DB")
	if (b != nil) != (len(pb) == 1) || (m != nil) != (len(pm) == 1) {
		c.Fatalf("bones %v: %d plugins, morphs %v: %d plugins", b != nil, len(pb), m != nil, len(pm))
	}
	if b != nil {
		if n := attr(pb[0], "name"); n != "Bone" {
			c.Fatalf("the bone plugin is called %q", n)
		}
		bones := find(pb[0], "BoneSet2", "Bone")
		if len(bones) != len(b.Bones()) {
			c.Fatalf("%d bones in the companion file, want %d", len(bones), len(b.Bones()))
		}
		for i, w := range b.Bones() {
			g := bones[i]
			par := ""
			if w.Parent != 0 {
				par = fmt.Sprint(w.Parent)
			}
			if attr(g, "id") != fmt.Sprint(w.ID) || attr(g, "name") != w.Name || attr(g, "parent") != par || len(find(g, "W")) != len(w.Weights) {
				c.Fatalf("bone %q is %v", w.Name, g)
			}
			var p [3]float32
			for k, t := range strings.Split(attr(g, "pos"), ",") {
				v, err := strconv.ParseFloat(t, 32)
				if err != nil || k > 2 {
					c.Fatalf("bone %q at %q", w.Name, attr(g, "pos"))
				}
				p[k] = float32(v)
			}
			if p != [3]float32{w.Pos.X, w.Pos.Y, w.Pos.Z} {
				c.Fatalf("bone %q at %v, want %v", w.Name, p, w.Pos)
			}
			for j, bw := range w.Weights {
				x := find(g, "W")[j]
				vs := find(x, "V")
				if attr(x, "obj") != fmt.Sprint(bw.ObjectID) || len(vs) != len(bw.Vertexes) {
					c.Fatalf("bone %q weights of object %d: %v", w.Name, bw.ObjectID, x)
				}
				for k, vw := range bw.Vertexes {
					f, err := strconv.ParseFloat(attr(vs[k], "w"), 32)
					if attr(vs[k], "v") != fmt.Sprint(vw.VertexID) || err != nil || float32(f) != vw.Weight {
						c.Fatalf("bone %q weight %d: %v, want %v", w.Name, k, vs[k], *vw)
					}
				}
			}
		}
		listed := map[string]bool{}
		for _, x := range find(pb[0], "Obj") {
			listed[attr(x, "id")] = true
		}
		for _, w := range b.Bones() {
			for _, bw := range w.Weights {
				if want.GetObjectByID(bw.ObjectID) != nil && !listed[fmt.Sprint(bw.ObjectID)] {
					c.Fatalf("object %d has weights but is not listed", bw.ObjectID)
				}
			}
		}
		c.LabelIf(len(bones) > 0, "bones")
	}
	if m != nil {
		ls := find(pm[0], "MorphSet", "TargetList")
		if len(ls) != len(m.Morphs()) {
			c.Fatalf("%d morphs in the companion file, want %d", len(ls), len(m.Morphs()))
		}
		for i, w := range m.Morphs() {
			ts := find(ls[i], "Target")
			if attr(ls[i], "base") != w.Base || len(ts) != len(w.Target) {
				c.Fatalf("morphs of %q are %v", w.Base, ls[i])
			}
			for j, t := range w.Target {
				if attr(ts[j], "name") != t.Name || attr(ts[j], "param") != fmt.Sprint(t.Param) {
					c.Fatalf("morph %q of %q is %v", t.Name, w.Base, ts[j])
				}
			}
		}
	}
}

func propRoundTrip(c *hx.C) {
	o := gen.SmallMQO()
	o.PartialUIDs = true
	doc := gen.MQODoc(c.T, o)
	nontrivial(c, doc)
	want := hx.Clone(doc)
	dir, done := hx.Scratch(c)
	defer done()
	ext := rapid.SampledFrom([]string{".mqo", ".mqoz"}).Draw(c.T, "ext")
	c.Label(ext)
	path := filepath.Join(dir, fileName(c, "file")+ext)
	got := saveLoad(c, doc, path)
	same(c, "load after save", got, want, 0)
	same(c, "document after saving it", doc, want, 0)
	strict(c, path, want, 0)
	checkObjList(c, "load after save", got)
	// again, as the other container, next to the first
	path2 := filepath.Join(dir, "second"+rapid.SampledFrom([]string{".mqo", ".mqoz"}).Draw(c.T, "ext2"))
	got2 := saveLoad(c, got, path2)
	same(c, "second generation", got2, want, 0)
	checkObjList(c, "second generation", got2)
	// saving over the first file
	got3 := saveLoad(c, got2, path)
	same(c, "third generation over the first file", got3, want, 0)
	checkObjList(c, "third generation", got3)
	if g, err := mqo.Load(path2); err != nil {
		c.Fatalf("second file after writing the first again: %v", err)
	} else {
		same(c, "second file after writing the first again", g, want, 0)
	}
}

// two different documents with different names in one folder do not mix.
func propNeighbours(c *hx.C) {
	o := gen.SmallMQO()
	o.PartialUIDs = true
	a, b := gen.MQODoc(c.T, o), gen.MQODoc(c.T, o)
	wa, wb := hx.Clone(a), hx.Clone(b)
	nontrivial(c, a)
	dir, done := hx.Scratch(c)
	defer done()
	// names that only differ after a dot are different names too
	stems := rapid.SampledFrom([][2]string{{"one", "two"}, {"chara.a", "chara.b"}, {"chara", "chara.v2"}, {"v1.0", "v1.1"}, {"a", "A b"}, {"x", "x_"}, {"体.1", "体.2"}}).Draw(c.T, "stems")
	exts := []string{".mqo", ".mqoz", ".x.mqo"}
	pa := filepath.Join(dir, stems[0]+rapid.SampledFrom(exts).Draw(c.T, "exta"))
	pb := filepath.Join(dir, stems[1]+rapid.SampledFrom(exts).Draw(c.T, "extb"))
	if err := mqo.Save(a, pa); err != nil {
		c.Fatalf("Save: %v", err)
	}
	if err := mqo.Save(b, pb); err != nil {
		c.Fatalf("Save: %v", err)
	}
	ga, err := mqo.Load(pa)
	if err != nil {
		c.Fatalf("Load: %v", err)
	}
	gb, err := mqo.Load(pb)
	if err != nil {
		c.Fatalf("Load: %v", err)
	}
	same(c, "first document", ga, wa, 0)
	same(c, "second document", gb, wb, 0)
}

// repeated names become unique, the rest stays.
func propNames(c *hx.C) {
	o := gen.SmallMQO()
	o.DupNames = true
	o.MaxObjects, o.MaxMats = 7, 6
	o.MaxVerts = 3
	doc := gen.MQODoc(c.T, o)
	pool := []string{"a", "a_2", "a_3", "b", "a_2_2", "髪"}
	if rapid.Bool().Draw(c.T, "pool") {
		for _, x := range doc.Objects {
			x.Name = rapid.SampledFrom(pool).Draw(c.T, "on")
		}
		for _, x := range doc.Materials {
			x.Name = rapid.SampledFrom(pool).Draw(c.T, "mn")
		}
	}
	want := hx.Clone(doc)
	nontrivial(c, doc)
	dir, done := hx.Scratch(c)
	defer done()
	path := filepath.Join(dir, "n"+rapid.SampledFrom([]string{".mqo", ".mqoz"}).Draw(c.T, "ext"))
	got := saveLoad(c, doc, path)
	check := func(kind string, before, after []string) {
		if len(before) != len(after) {
			c.Fatalf("%d %ss became %d", len(before), kind, len(after))
		}
		count := map[string]int{}
		for _, n := range before {
			count[n]++
		}
		dup := false
		for _, k := range count {
			dup = dup || k > 1
		}
		c.LabelIf(dup, "duplicate "+kind)
		seen := map[string]bool{}
		first := map[string]bool{}
		for i, n := range after {
			if seen[n] {
				c.Fatalf("%s name %q is used twice: %v", kind, n, after)
			}
			seen[n] = true
			if !strings.HasPrefix(n, before[i]) {
				c.Fatalf("%s %q became %q", kind, before[i], n)
			}
			if !dup && n != before[i] {
				c.Fatalf("%s %q was renamed to %q without need", kind, before[i], n)
			}
			// the first holder of a name keeps it
			if !first[before[i]] && n != before[i] {
				c.Fatalf("%s %q was renamed to %q without need", kind, before[i], n)
			}
			first[before[i]] = true
		}
	}
	var bo, ao, bm, am []string
	for i, x := range want.Objects {
		bo = append(bo, x.Name)
		if i < len(got.Objects) {
			ao = append(ao, got.Objects[i].Name)
			x.Name = got.Objects[i].Name
		}
	}
	for i, x := range want.Materials {
		bm = append(bm, x.Name)
		if i < len(got.Materials) {
			am = append(am, got.Materials[i].Name)
			x.Name = got.Materials[i].Name
		}
	}
	check("object", bo, ao)
	check("material", bm, am)
	same(c, "rest of the document", got, want, 0)
	strict(c, path, want, 0)
}

// any values: printed with the precision of the format.
func propPrecision(c *hx.C) {
	o := gen.SmallMQO()
	o.FreeMaterials = true
	o.Plugins = false
	doc := gen.MQODoc(c.T, o)
	if doc.Scene != nil {
		doc.Scene.CameraRot = gen.V3(c.T, "rot", 4)
		doc.Scene.Zoom2 = gen.U(c.T, "zoom")
	}
	want := hx.Clone(doc)
	nontrivial(c, doc)
	var buf bytes.Buffer
	if err := mqo.NewWriter("").WriteMQO(doc, &buf); err != nil {
		c.Fatalf("WriteMQO: %v", err)
	}
	got, err := mqo.NewParser(bytes.NewReader(buf.Bytes()), "").Parse()
	if err != nil {
		c.Fatalf("Parse: %v\n%s", err, buf.Bytes())
	}
	for i, m := range got.Materials {
		if i < len(want.Materials) {
			if d := float64(m.Power - want.Materials[i].Power); d > 0.0051 || d < -0.0051 {
				c.Fatalf("power %v, want %v", m.Power, want.Materials[i].Power)
			}
			m.Power = want.Materials[i].Power
		}
	}
	for i, ob := range got.Objects {
		if i < len(want.Objects) {
			if d := hx.Diff([]interface{}{ob.Vertexes, ob.Faces, ob.Scale, ob.Rotation, ob.Translation}, []interface{}{want.Objects[i].Vertexes, want.Objects[i].Faces, want.Objects[i].Scale, want.Objects[i].Rotation, want.Objects[i].Translation}, 0); d != "" {
				c.Fatalf("object %d: %s", i, d)
			}
		}
	}
	same(c, "text round trip", got, want, 0.00051)
}

// a document with many vertices and faces.
func propLarge(c *hx.C) {
	o := gen.SmallMQO()
	doc := gen.MQODoc(c.T, o)
	obj := mqo.NewObject("large")
	n := rapid.SampledFrom([]int{50, 300, 1000, 5000}).Draw(c.T, "n")
	base := gen.F(c.T, "base", 1000)
	for i := 0; i < n; i++ {
		obj.Vertexes = append(obj.Vertexes, &mqo.Vector3{X: base * float32(i), Y: float32(i) / 7, Z: -float32(i) * 1.1})
	}
	for i := 0; i+3 < n; i += 2 {
		f := &mqo.Face{Verts: []int{i, i + 1, i + 3, i + 2}, UVs: []mqo.Vector2{{X: 0, Y: float32(i)}, {X: 1}, {Y: 1}, {X: 0.5}}}
		obj.Faces = append(obj.Faces, f)
	}
	doc.Objects = append(doc.Objects, obj)
	want := hx.Clone(doc)
	nontrivial(c, doc)
	dir, done := hx.Scratch(c)
	defer done()
	got := saveLoad(c, doc, filepath.Join(dir, "l"+rapid.SampledFrom([]string{".mqo", ".mqoz"}).Draw(c.T, "ext")))
	want.Objects[len(want.Objects)-1].Name = got.Objects[len(got.Objects)-1].Name
	same(c, "large document", got, want, 0)
}

func TestC03(t *testing.T) {
	hx.Main(t, "C03",
		hx.Leg{Name: "roundtrip", Quick: 500, Prop: propRoundTrip},
		hx.Leg{Name: "neighbours", Quick: 150, Prop: propNeighbours},
		hx.Leg{Name: "names", Quick: 300, Prop: propNames},
		hx.Leg{Name: "precision", Quick: 500, Prop: propPrecision},
		hx.Leg{Name: "large", Quick: 12, Prop: propLarge},
	)
}

var _ = fmt.Sprint
var _ = sort.Strings
