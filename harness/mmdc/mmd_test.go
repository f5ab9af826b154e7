package mmdc

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"testing"

	"github.com/binzume/modelconv/geom"
	"github.com/binzume/modelconv/mmd"
	"pgregory.net/rapid"

	"verif/harness/gen"
	"verif/harness/hx"
)

// skin is the effective binding of a vertex: weight per bone, zero weights dropped.
func skin(v *mmd.Vertex) map[int]float32 {
	r := map[int]float32{}
	for i, b := range v.Bones {
		if i < len(v.BoneWeights) && v.BoneWeights[i] != 0 && b >= 0 {
			r[b] += v.BoneWeights[i]
		}
	}
	return r
}

func cloneDoc(d *mmd.Document) *mmd.Document {
	x, err := gen.DecodePMX(gen.EncodePMX(d, [6]byte{4, 4, 4, 4, 4, 4}, gen.PMXExtra{}))
	if err != nil {
		panic(err)
	}
	return x
}

func same(c *hx.C, what string, got, want *mmd.Document) {
	if got == nil {
		c.Fatalf("%s: no document", what)
	}
	if got.Header == nil || string(got.Header.Format) != "PMX " || got.Header.Version != want.Header.Version {
		c.Fatalf("%s: header %+v", what, got.Header)
	}
	if d := hx.Diff(got, want, 0, "Document.Header"); d != "" {
		c.Fatalf("%s: %s", what, d)
	}
}

func describe(c *hx.C, d *mmd.Document) {
	c.DescF(func() string { return hx.Dump(d) })
}

func key(d *mmd.Document) string { return hx.Dump(d) }

func nontrivial(c *hx.C, d *mmd.Document) {
	n := 0
	for _, k := range []int{len(d.Vertexes), len(d.Materials), len(d.Bones), len(d.Morphs), len(d.Bodies), len(d.Joints)} {
		if k > 0 {
			n++
		}
	}
	if n >= 3 {
		c.NonTrivial(key(d))
	}
	c.LabelIf(len(d.Joints) > 0, "joints")
	c.LabelIf(len(d.Morphs) > 0, "morphs")
	c.LabelIf(len(d.Faces) > 0, "faces")
}

// writePMX -> the bytes are PMX (independent decoder) and read back as the model.
func propRoundTrip(c *hx.C) {
	want := gen.PMXDoc(c.T, gen.SmallPMX())
	describe(c, want)
	nontrivial(c, want)
	checkRoundTrip(c, want)
}

func checkRoundTrip(c *hx.C, want *mmd.Document) {
	src := cloneDoc(want)
	src.Header.Info = append([]byte{}, mmd.NewDocument().Header.Info...)
	src.Header.Info[mmd.AttrExtUV] = want.Header.Info[mmd.AttrExtUV]
	if rapid.Bool().Draw(c.T, "loadedHeader") { // as if loaded from a file using other sizes / UTF-16
		sz := gen.IndexSizes(c.T, want)
		copy(src.Header.Info[2:], sz[:])
		src.Header.Info[mmd.AttrStringEncoding] = byte(gen.Int(c.T, "enc", 0, 1))
	}
	var buf bytes.Buffer
	if err := mmd.WritePMX(src, &buf); err != nil {
		c.Fatalf("WritePMX: %v", err)
	}
	first := append([]byte{}, buf.Bytes()...)
	ref, err := gen.DecodePMX(first)
	if err != nil {
		c.Fatalf("written data is not PMX: %v", err)
	}
	same(c, "reference decoding of the written data", ref, want)
	got, err := mmd.Parse(bytes.NewReader(first))
	if err != nil {
		c.Fatalf("Parse of the written data: %v", err)
	}
	same(c, "read back", got, want)
	// writing again what was read gives the same bytes
	buf.Reset()
	if err := mmd.WritePMX(got, &buf); err != nil {
		c.Fatalf("second WritePMX: %v", err)
	}
	if !bytes.Equal(buf.Bytes(), first) {
		c.Fatalf("second save differs from the first")
	}
}

// many elements: every index size boundary.
func propSizes(c *hx.C) {
	d := mmd.NewDocument()
	counts := []int{0, 1, 126, 127, 128, 129, 130, 200, 255, 256, 257, 300}
	n := func(name string) int { return rapid.SampledFrom(counts).Draw(c.T, name) }
	fill(c, d, n("v"), n("t"), n("m"), n("b"), n("p"), n("r"))
	c.Desc("vertices %d textures %d materials %d bones %d morphs %d bodies %d joints %d faces %d", len(d.Vertexes), len(d.Textures), len(d.Materials), len(d.Bones), len(d.Morphs), len(d.Bodies), len(d.Joints), len(d.Faces))
	c.NonTrivial(fmt.Sprint(len(d.Vertexes), len(d.Textures), len(d.Materials), len(d.Bones), len(d.Morphs), len(d.Bodies), gen.Int(c.T, "salt", 0, 1<<30)))
	checkRoundTrip(c, d)
}

func propBig(c *hx.C) {
	d := mmd.NewDocument()
	big := func(name string) int {
		return rapid.SampledFrom([]int{3, 3, 32767, 32768, 32769}).Draw(c.T, name)
	}
	v := rapid.SampledFrom([]int{65535, 65536, 65537, 65540}).Draw(c.T, "v")
	var x [5]int
	x[gen.Int(c.T, "which", 0, 4)] = big("n")
	fill(c, d, v, x[0], x[1], x[2], x[3], x[4])
	c.Desc("vertices %d others %v", v, x)
	c.NonTrivial(fmt.Sprint(v, x))
	checkRoundTrip(c, d)
}

func fill(c *hx.C, d *mmd.Document, nv, nt, nm, nb, np, nr int) {
	at := func(n int, name string) int { // favours the last ones
		if n == 0 {
			return -1
		}
		if rapid.Bool().Draw(c.T, name+".last") {
			return n - 1
		}
		return gen.Int(c.T, name, 0, n-1)
	}
	for i := 0; i < nt; i++ {
		d.Textures = append(d.Textures, "t")
	}
	lb := at(nb, "bone")
	for i := 0; i < nv; i++ {
		d.Vertexes = append(d.Vertexes, &mmd.Vertex{Pos: geom.Vector3{X: float32(i)}, Bones: []int{lb}, BoneWeights: []float32{1}})
	}
	if nv > 0 {
		for i := 0; i < 4; i++ {
			d.Faces = append(d.Faces, &mmd.Face{Verts: [3]int{at(nv, "f"), at(nv, "f"), at(nv, "f")}})
		}
	}
	lt := at(nt, "tex")
	for i := 0; i < nm; i++ {
		d.Materials = append(d.Materials, &mmd.Material{TextureID: lt, EnvID: -1, Toon: -1})
	}
	for i := 0; i < nb; i++ {
		d.Bones = append(d.Bones, &mmd.Bone{ParentID: i - 1, TailID: -1})
	}
	for i := 0; i < np; i++ {
		m := &mmd.Morph{MorphType: 1}
		if i == np-1 {
			m.MorphType = 0
			m.Group = []*mmd.MorphGroup{{Target: at(np, "mg"), Weight: 1}, {Target: -1, Weight: 0.5}}
		} else if nv > 0 && i%16 == 0 {
			m.Vertex = []*mmd.MorphVertex{{Target: at(nv, "mv"), Offset: geom.Vector3{Y: 1}}}
		} else if nm > 0 && i%16 == 1 {
			m.MorphType = 8
			m.Material = []*mmd.MorphMaterial{{Target: at(nm, "mm")}}
		}
		d.Morphs = append(d.Morphs, m)
	}
	for i := 0; i < nr; i++ {
		d.Bodies = append(d.Bodies, &mmd.RigidBody{Bone: lb})
	}
	if nr > 0 {
		for i := 0; i < 3; i++ {
			d.Joints = append(d.Joints, &mmd.Joint{Body1: at(nr, "j1"), Body2: at(nr, "j2")})
		}
	}
}

// vertices without weights or with three of them, and saving through a file.
func propSkinShapes(c *hx.C) {
	o := gen.SmallPMX()
	d := gen.PMXDoc(c.T, o)
	for i := 0; i < 2; i++ {
		d.Bones = append(d.Bones, &mmd.Bone{ParentID: -1, TailID: -1})
	}
	var want []map[int]float32
	for i := gen.Int(c.T, "extra", 1, 4); i > 0; i-- {
		v := &mmd.Vertex{Pos: gen.V3(c.T, "p", 10)}
		for k := 0; k < int(d.Header.Info[mmd.AttrExtUV]); k++ {
			v.ExtUVs = append(v.ExtUVs, geom.Vector4{X: float32(k)})
		}
		n := rapid.SampledFrom([]int{0, 3, 1, 2, 4}).Draw(c.T, "nw")
		switch n {
		case 0:
		case 1:
			v.Bones, v.BoneWeights = []int{gen.Int(c.T, "b", 0, len(d.Bones)-1)}, []float32{1}
		case 2:
			w := gen.U(c.T, "w")
			v.Bones, v.BoneWeights = []int{0, len(d.Bones) - 1}, []float32{w, 1 - w}
		default:
			for k := 0; k < n; k++ {
				v.Bones = append(v.Bones, gen.Int(c.T, "b", 0, len(d.Bones)-1))
				v.BoneWeights = append(v.BoneWeights, gen.U(c.T, "w"))
			}
		}
		d.Vertexes = append(d.Vertexes, v)
	}
	describe(c, d)
	c.NonTrivial(key(d))
	for _, v := range d.Vertexes {
		want = append(want, skin(v))
	}
	ref := *d // shallow: slices of other things stay comparable
	dir, done := hx.Scratch(c)
	defer done()
	p := filepath.Join(dir, "model.pmx")
	if err := mmd.Save(d, p); err != nil {
		c.Fatalf("Save: %v", err)
	}
	raw, _ := os.ReadFile(p)
	if _, err := gen.DecodePMX(raw); err != nil {
		c.Fatalf("saved file is not PMX: %v", err)
	}
	got, err := mmd.Load(p)
	if err != nil {
		c.Fatalf("Load: %v", err)
	}
	if len(got.Vertexes) != len(want) {
		c.Fatalf("%d vertices, want %d", len(got.Vertexes), len(want))
	}
	for i, v := range got.Vertexes {
		if dd := hx.Diff(skin(v), want[i], 1e-6); dd != "" {
			c.Fatalf("skin of vertex %d: %s", i, dd)
		}
		if dd := hx.Diff(v, ref.Vertexes[i], 0, "Vertex.Bones", "Vertex.BoneWeights"); dd != "" {
			c.Fatalf("vertex %d: %s", i, dd)
		}
	}
	if dd := hx.Diff(got, &ref, 0, "Document.Header", "Document.Vertexes"); dd != "" {
		c.Fatalf("loaded: %s", dd)
	}
}

func TestC01(t *testing.T) {
	hx.Main(t, "C01",
		hx.Leg{Name: "roundtrip", Quick: 2500, Prop: propRoundTrip},
		hx.Leg{Name: "sizes", Quick: 120, Prop: propSizes},
		hx.Leg{Name: "big", Quick: 2, Thorough: 4, Prop: propBig},
		hx.Leg{Name: "skins", Quick: 600, Prop: propSkinShapes},
	)
}

// ---- C02: reading files made by other programs

func propReadPMX(c *hx.C) {
	want := gen.PMXDoc(c.T, gen.SmallPMX())
	x := gen.PMXExtra{UTF16: rapid.Bool().Draw(c.T, "utf16"), Groups: gen.Int(c.T, "groups", 0, 4), ExtraInfo: gen.Int(c.T, "extraInfo", 0, 1) * 2,
		LocalAxis: gen.V3(c.T, "axis", 1), ExtKey: int32(gen.Int(c.T, "extkey", -3, 100000))}
	for i := range want.Morphs { // kinds whose offsets the model does not hold
		if gen.Chance(c.T, "othermorph", 4) {
			k := rapid.SampledFrom([]byte{2, 4, 5, 6, 7}).Draw(c.T, "mkind")
			m := want.Morphs[i]
			want.Morphs[i] = &mmd.Morph{Name: m.Name, NameEn: m.NameEn, PanelType: m.PanelType, MorphType: k}
			c.Label("othermorph")
		}
	}
	if rapid.Bool().Draw(c.T, "trailing") {
		x.Trailing = []byte{0, 0, 0, 0}
	}
	sz := gen.IndexSizes(c.T, want)
	data := gen.EncodePMX(want, sz, x)
	c.Desc("index sizes %v utf16 %v display frames %d", sz, x.UTF16, x.Groups)
	describe(c, want)
	nontrivial(c, want)
	c.LabelIf(x.UTF16, "utf16")
	if self, err := gen.DecodePMX(data); err != nil || hx.Diff(self, want, 0, "Document.Header") != "" {
		panic(fmt.Sprint("reference codec disagrees with itself: ", err))
	}
	got, err := mmd.Parse(bytes.NewReader(data))
	if err != nil {
		c.Fatalf("Parse: %v", err)
	}
	same(c, "Parse", got, want)
	ch := gen.Chunked(c.T, data)
	got2, err := mmd.Parse(ch)
	if err != nil {
		c.Fatalf("Parse from a reader that delivers %v bytes at a time: %v", ch.Sizes, err)
	}
	same(c, "Parse (chunked)", got2, want)
	got3, err := mmd.NewPMXParser(gen.Chunked(c.T, data)).Parse()
	if err != nil {
		c.Fatalf("PMXParser: %v", err)
	}
	same(c, "PMXParser", got3, want)
}

func u16s(v int) int { return int(int16(v)) }

func pmdExpect(m *gen.PMDModel) *mmd.Document {
	d := &mmd.Document{Name: m.Name, Comment: m.Comment}
	for _, v := range m.Verts {
		w := float32(v.W) / 100
		d.Vertexes = append(d.Vertexes, &mmd.Vertex{Pos: v.Pos, Normal: v.Normal, UV: v.UV, EdgeScale: float32(v.Edge), Bones: []int{v.B1, v.B2}, BoneWeights: []float32{w, 1 - w}})
	}
	for _, f := range m.Faces {
		d.Faces = append(d.Faces, &mmd.Face{Verts: f})
	}
	for i, a := range m.Mats {
		x := &mmd.Material{Name: fmt.Sprintf("mat%d", i+1), Color: a.Color, Specular: a.Spec, Specularity: a.Power, AColor: a.Amb, EdgeScale: float32(a.Edge), Toon: a.Toon, Count: a.Count}
		if a.Color.W < 1 {
			x.Flags = 1 // seen from both sides
		}
		d.Materials = append(d.Materials, x)
	}
	for _, b := range m.Bones {
		x := &mmd.Bone{Name: b.Name, Pos: b.Pos, ParentID: u16s(b.Parent), TailID: u16s(b.Tail)}
		if x.TailID == 0 {
			x.TailID = -1
		}
		d.Bones = append(d.Bones, x)
	}
	for _, k := range m.IKs {
		b := d.Bones[k.Bone]
		b.IK.TargetID, b.IK.Loop = k.Target, k.Loop
		for _, l := range k.Links {
			b.IK.Links = append(b.IK.Links, &mmd.Link{TargetID: l})
		}
	}
	for _, p := range m.Morphs {
		x := &mmd.Morph{Name: p.Name, PanelType: byte(p.Panel)}
		for _, v := range p.Verts {
			x.Vertex = append(x.Vertex, &mmd.MorphVertex{Target: m.MorphBase[v.Index].Index, Offset: v.Pos})
		}
		d.Morphs = append(d.Morphs, x)
	}
	return d
}

func contains(list []string, s string) bool {
	for _, x := range list {
		if x == s {
			return true
		}
	}
	return false
}

func checkPMD(c *hx.C, what string, m *gen.PMDModel, got *mmd.Document, err error) {
	if err != nil {
		c.Fatalf("%s: %v", what, err)
	}
	if d := hx.Diff(got, pmdExpect(m), 0, "Document.Header", "Document.Textures", "Material.TextureID", "Morph.MorphType", "Material.EnvID"); d != "" {
		c.Fatalf("%s: %s", what, d)
	}
	for i, a := range m.Mats {
		x := got.Materials[i]
		tex, ok := "", x.TextureID >= 0 && x.TextureID < len(got.Textures)
		if ok {
			tex = got.Textures[x.TextureID]
		}
		want := a.Tex
		if k := bytes.IndexByte([]byte(want), '*'); k >= 0 {
			want = want[:k]
		}
		for _, part := range strings.Split(a.Tex, "*") {
			if part != "" && !contains(got.Textures, part) {
				c.Fatalf("%s: texture %q of material %d is not in %q", what, part, i, got.Textures)
			}
		}
		if tex != want || (want == "" && x.TextureID != -1) {
			c.Fatalf("%s: material %d has texture %q (index %d of %q), want %q", what, i, tex, x.TextureID, got.Textures, want)
		}
	}
}

func propReadPMD(c *hx.C) {
	m := gen.PMDGen(c.T)
	data := gen.EncodePMD(m)
	c.DescF(func() string { return hx.Dump(m) })
	if len(m.Verts) > 0 && len(m.Bones) > 0 {
		c.NonTrivial(hx.Dump(m))
	}
	c.LabelIf(len(m.Morphs) > 0, "morphs")
	c.LabelIf(len(m.IKs) > 0, "ik")
	got, err := mmd.Parse(bytes.NewReader(data))
	checkPMD(c, "Parse", m, got, err)
	got, err = mmd.Parse(gen.Chunked(c.T, data))
	checkPMD(c, "Parse (chunked)", m, got, err)
	got, err = mmd.NewPMDParser(gen.Chunked(c.T, data)).Parse()
	checkPMD(c, "PMDParser", m, got, err)
}

func propReadVMD(c *hx.C) {
	a := gen.VMDGen(c.T)
	pad := rapid.SampledFrom([]byte{0, 0xfd}).Draw(c.T, "pad")
	data := gen.EncodeVMD(a, pad, rapid.SampledFrom([][]byte{nil, {0, 0, 0, 0, 0, 0, 0, 0}}).Draw(c.T, "trailing"))
	c.DescF(func() string { return hx.Dump(a) })
	if len(a.Bone) > 1 && len(a.Morph) > 1 {
		c.NonTrivial(hx.Dump(a))
	}
	got, err := mmd.NewVMDParser(gen.Chunked(c.T, data)).Parse()
	if err != nil {
		c.Fatalf("Parse: %v", err)
	}
	if d := hx.Diff(got, a, 0); d != "" {
		c.Fatalf("VMD: %s", d)
	}
	// channels: every key of the target, ordered by frame
	type bk struct {
		f uint32
		p geom.Vector3
		r geom.Vector4
	}
	want := map[string][]bk{}
	for _, s := range a.Bone {
		want[s.Target] = append(want[s.Target], bk{uint32(s.Frame), s.Position, s.Rotation})
	}
	ch := got.GetBoneChannels()
	if len(ch) != len(want) {
		c.Fatalf("%d bone channels, want %d", len(ch), len(want))
	}
	str := func(v []bk) []string {
		var s []string
		for _, k := range v {
			s = append(s, fmt.Sprintf("%08d %v %v", k.f, k.p, k.r))
		}
		sort.Strings(s)
		return s
	}
	for n, w := range want {
		x := ch[n]
		if x == nil || x.Target != n || len(x.Frames) != len(w) || len(x.Positions) != len(w) || len(x.Rotations) != len(w) {
			c.Fatalf("bone channel %q is incomplete", n)
		}
		var g []bk
		for i := range x.Frames {
			if i > 0 && x.Frames[i] < x.Frames[i-1] {
				c.Fatalf("bone channel %q is not ordered by frame: %v", n, x.Frames)
			}
			g = append(g, bk{x.Frames[i], *x.Positions[i], *x.Rotations[i]})
		}
		if d := hx.Diff(str(g), str(w), 0); d != "" {
			c.Fatalf("bone channel %q: %s", n, d)
		}
	}
	mw := map[string][]string{}
	for _, s := range a.Morph {
		mw[s.Target] = append(mw[s.Target], fmt.Sprintf("%08d %v", s.Frame, s.Value))
	}
	mc := got.GetMorphChannels()
	if len(mc) != len(mw) {
		c.Fatalf("%d morph channels, want %d", len(mc), len(mw))
	}
	for n, w := range mw {
		x := mc[n]
		if x == nil || x.Target != n || len(x.Frames) != len(w) || len(x.Weights) != len(w) {
			c.Fatalf("morph channel %q is incomplete", n)
		}
		var g []string
		for i := range x.Frames {
			if i > 0 && x.Frames[i] < x.Frames[i-1] {
				c.Fatalf("morph channel %q is not ordered by frame: %v", n, x.Frames)
			}
			g = append(g, fmt.Sprintf("%08d %v", x.Frames[i], x.Weights[i]))
		}
		sort.Strings(g)
		sort.Strings(w)
		if d := hx.Diff(g, w, 0); d != "" {
			c.Fatalf("morph channel %q: %s", n, d)
		}
	}
}

func TestC02(t *testing.T) {
	hx.Main(t, "C02",
		hx.Leg{Name: "pmx", Quick: 2000, Prop: propReadPMX},
		hx.Leg{Name: "pmd", Quick: 2000, Prop: propReadPMD},
		hx.Leg{Name: "vmd", Quick: 1500, Prop: propReadVMD},
	)
}
