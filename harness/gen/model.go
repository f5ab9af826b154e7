package gen

import (
	"bytes"
	"fmt"
	"image"
	"image/color"
	"image/jpeg"
	"image/png"
	"math"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/binzume/modelconv/geom"
	"github.com/binzume/modelconv/mqo"
	"golang.org/x/image/bmp"
	"pgregory.net/rapid"
)

// ModelOpts bounds the models drawn for conversions.
type ModelOpts struct {
	Objects                       int
	Bones, Morphs, Physics        bool
	Textures                      bool // with files in Dir
	GlTFShader                    bool
	OddMaterials                  bool // faces whose material does not exist, ignored materials
	NoNormals                     bool
	TriOnly                       bool
	FullWeights                   bool // every vertex of a skinned object has weights summing to 100
	MaxWeights                    int
	Coord                         float64
	Hidden                        bool
	ParentsFirst                  bool
	UIDs                          bool
	BadRefs                       bool // missing morph targets, missing parent bones
	TwoSkins                      bool
	NameFn                        func(*T, string) string
	Unreferenced, Lines, DepthGap bool
	Seams                         bool
}

func FullModel() ModelOpts {
	return ModelOpts{Objects: 4, Bones: true, Morphs: true, Textures: true, GlTFShader: true, OddMaterials: true, FullWeights: true, MaxWeights: 6, Coord: 500, Hidden: true, UIDs: true, BadRefs: true, TwoSkins: true,
		NameFn: ConvName, Unreferenced: true, Lines: true, DepthGap: true, Seams: true}
}

// ConvName draws a name that every format can hold.
func ConvName(t *T, n string) string {
	switch rapid.IntRange(0, 3).Draw(t, n+".k") {
	case 0:
		return rapid.SampledFrom(JapaneseChars).Draw(t, n) + rapid.SampledFrom(JapaneseChars).Draw(t, n+"2")
	case 1:
		return Ident(t, n) + " " + Ident(t, n+"2")
	}
	return Ident(t, n)
}

// Img is a generated texture file.
type Img struct {
	Path  string // as referred to
	Data  []byte
	Pix   image.Image // decoded
	Exact bool        // lossless
	Alpha bool        // some pixel is transparent
}

// Image draws a small picture of the given extension.
func Image(t *T, n, ext string) *Img {
	w := rapid.IntRange(1, 12).Draw(t, n+".w")
	h := rapid.IntRange(1, 12).Draw(t, n+".h")
	if Chance(t, n+".larger", 4) {
		w, h = w*4, h*4
	}
	seed := rapid.Uint32().Draw(t, n+".pix")
	next := func() byte {
		seed = seed*1664525 + 1013904223
		return byte(seed >> 24)
	}
	im := &Img{Exact: true}
	alpha := Bool(t, n+".alpha")
	ax, ay := rapid.IntRange(0, w-1).Draw(t, n+".ax"), rapid.IntRange(0, h-1).Draw(t, n+".ay")
	scatter := Bool(t, n+".scatter")
	src := image.NewNRGBA(image.Rect(0, 0, w, h))
	for y := 0; y < h; y++ {
		for x := 0; x < w; x++ {
			c := color.NRGBA{next(), next(), next(), 255}
			if alpha && (x == ax && y == ay || scatter && next() < 30) {
				c.A = next() / 2
			}
			src.SetNRGBA(x, y, c)
		}
	}
	im.Pix = src
	im.Alpha = alpha
	var buf bytes.Buffer
	switch ext {
	case ".jpg", ".jpeg", ".JPG":
		jpeg.Encode(&buf, src, nil)
		im.Pix, _ = jpeg.Decode(bytes.NewReader(buf.Bytes()))
		im.Exact, im.Alpha = false, false
	case ".bmp":
		for i := 3; i < len(src.Pix); i += 4 {
			src.Pix[i] = 255
		}
		bmp.Encode(&buf, src)
		im.Alpha = false
	case ".tga":
		// uncompressed true colour, 32 bit, top to bottom
		buf.Write([]byte{0, 0, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, byte(w), 0, byte(h), 0, 32, 0x28})
		for i := 0; i < len(src.Pix); i += 4 {
			buf.Write([]byte{src.Pix[i+2], src.Pix[i+1], src.Pix[i], src.Pix[i+3]})
		}
		buf.Write(append(make([]byte, 8), "TRUEVISION-XFILE.\x00"...)) // footer
	default:
		var enc image.Image = src
		switch rapid.IntRange(0, 3).Draw(t, n+".model") {
		case 1:
			pal := image.NewPaletted(src.Bounds(), color.Palette{color.NRGBA{10, 20, 30, 255}, color.NRGBA{200, 100, 0, 255}, color.NRGBA{0, 0, 0, 0}})
			for y := 0; y < h; y++ {
				for x := 0; x < w; x++ {
					k := uint8(next() % 2)
					if alpha && x == ax && y == ay {
						k = 2
					}
					pal.SetColorIndex(x, y, k)
				}
			}
			enc, im.Pix = pal, pal
		case 2:
			g := image.NewGray(src.Bounds())
			for i := range g.Pix {
				g.Pix[i] = next()
			}
			enc, im.Pix, im.Alpha = g, g, false
		}
		png.Encode(&buf, enc)
	}
	im.Data = buf.Bytes()
	return im
}

// Model is a document with its texture files.
type Model struct {
	Doc    *mqo.Document
	Images map[string]*Img // by the name materials use; nil if the file is missing
	Dir    string
}

var texDirs = []string{"", "tex/", "テクスチャ/", "a b/"}

// texture draws a reference to a texture file and creates the file.
func (m *Model) texture(t *T, n string, opaqueExt bool) string {
	if len(m.Images) > 0 && Chance(t, n+".reuse", 3) {
		var names []string
		for _, mat := range m.Doc.Materials {
			if mat.Texture != "" {
				names = append(names, mat.Texture)
			}
		}
		if len(names) > 0 {
			return rapid.SampledFrom(names).Draw(t, n+".of")
		}
	}
	ext := rapid.SampledFrom([]string{".png", ".jpg", ".bmp", ".PNG", ".tga", ".jpeg"}).Draw(t, n+".ext")
	dir := rapid.SampledFrom(texDirs).Draw(t, n+".dir")
	p := fmt.Sprintf("%s%s%d%s", dir, Ident(t, n), len(m.Images), ext)
	if len(m.Images) > 0 && Chance(t, n+".sameBase", 4) {
		// the name of another texture in another directory
		var bases []string
		used := map[string]bool{}
		for q := range m.Images {
			bases = append(bases, filepath.Base(q))
			used[strings.TrimPrefix(q, m.Dir+"/")] = true
		}
		sort.Strings(bases)
		if b := rapid.SampledFrom(bases).Draw(t, n+".base"); !used[dir+b] {
			p, ext = dir+b, filepath.Ext(b)
		}
	}
	if Chance(t, n+".missing", 8) {
		m.Images[p] = nil
		return p
	}
	im := Image(t, n, ext)
	im.Path = p
	full := filepath.Join(m.Dir, filepath.FromSlash(p))
	if Chance(t, n+".abs", 8) {
		p = full
	}
	m.Images[p] = im
	os.MkdirAll(filepath.Dir(full), 0755)
	if err := os.WriteFile(full, im.Data, 0644); err != nil {
		panic(err)
	}
	return p
}

var gltfFlags = []string{"SpecularExt", "Clearcoat", "Sheen", "IorExt", "Volume", "Transmission"}

func (m *Model) material(t *T, o ModelOpts, name string) *mqo.Material {
	mat := &mqo.Material{Name: name, Color: geom.Vector4{X: Grid(t, "r", 3, 0, 1), Y: Grid(t, "g", 3, 0, 1), Z: Grid(t, "b", 3, 0, 1), W: 1}}
	if Chance(t, "translucent", 3) {
		mat.Color.W = Grid(t, "a", 3, 0, 1)
	}
	mat.Diffuse = Grid(t, "dif", 3, 0, 1)
	mat.Ambient = Grid(t, "amb", 3, 0, 1)
	mat.Specular = Grid(t, "spc", 3, 0, 1)
	mat.Power = Grid(t, "pow", 2, 0, 100)
	if Chance(t, "emi", 3) {
		mat.Emission = Grid(t, "emi", 3, 0, 1)
	}
	if Chance(t, "emc", 4) {
		mat.EmissionColor = &geom.Vector3{X: Grid(t, "er", 3, 0, 3), Y: Grid(t, "eg", 3, 0, 3), Z: Grid(t, "eb", 3, 0, 3)}
	}
	mat.DoubleSided = Bool(t, "dbls")
	mat.Shader = rapid.SampledFrom([]int{3, 0, 1, 2, 4}).Draw(t, "shader")
	if o.Textures && Bool(t, "tex") {
		mat.Texture = m.texture(t, "tex", false)
	}
	if o.Textures && Chance(t, "bump", 4) {
		mat.BumpTexture = m.texture(t, "bump", false)
	}
	if o.GlTFShader && Chance(t, "gltf", 3) {
		e := mqo.NewMaterialEx2("glTF")
		mat.Ex2 = e
		num := func(n string, lo, hi float64) interface{} {
			v := Grid(t, n, 3, lo, hi)
			if Bool(t, n+".64") {
				return float64(v)
			}
			return v
		}
		e.ShaderParams["Metallic"] = num("metallic", 0, 1)
		e.ShaderParams["Roughness"] = num("rough", 0, 1)
		if Chance(t, "flat", 4) {
			e.ShaderParams["Metallic"], e.ShaderParams["Roughness"] = float32(0), float32(1)
		}
		if Bool(t, "alphamode") {
			e.ShaderParams["AlphaMode"] = rapid.IntRange(0, 3).Draw(t, "alphamodev")
			if Bool(t, "cutoff") {
				e.ShaderParams["AlphaCutOff"] = num("cutoffv", 0, 1)
			}
		}
		if Chance(t, "unlit", 4) {
			e.ShaderParams["Extensions.Unlit"] = Bool(t, "unlitv")
		}
		for _, f := range gltfFlags {
			if Chance(t, f, 4) {
				e.ShaderParams["Extensions."+f] = !Chance(t, f+".off", 4)
			}
		}
		for _, p := range []string{"SpecularFactor", "ClearcoatFactor", "ClearcoatRoughnessFactor", "SheenRoughnessFactor", "ThicknessFactor", "AttenuationDistance", "TransmissionFactor", "Ior"} {
			if Chance(t, p, 3) {
				e.ShaderParams["Extensions."+p] = num(p+"v", 0, 1)
			}
		}
		if v, ok := e.ShaderParams["Extensions.Ior"]; ok {
			_ = v
			e.ShaderParams["Extensions.Ior"] = num("iorv", 1, 2)
		}
		for _, p := range []string{"SpecularColorFactor", "SheenColorFactor", "AttenuationColor"} {
			if Chance(t, p, 3) {
				e.ShaderParams["Extensions."+p] = []float32{Grid(t, p+"r", 3, 0, 1), Grid(t, p+"g", 3, 0, 1), Grid(t, p+"b", 3, 0, 1), 1}[:rapid.IntRange(3, 4).Draw(t, p+"n")]
			}
		}
		if o.Textures {
			for _, p := range []string{"Specular", "SpecularColor", "Clearcoat", "ClearcoatRoughness", "ClearcoatNormal", "SheenColor", "SheenRoughness", "Thickness", "Transmission"} {
				if Chance(t, "map"+p, 10) {
					e.ShaderMapping[p] = m.texture(t, "map"+p, false)
				}
			}
		}
	} else if o.GlTFShader && Chance(t, "othershader", 8) {
		mat.Ex2 = mqo.NewMaterialEx2("pmd")
	}
	return mat
}

// CloneObj copies the geometry of an object.
func CloneObj(o *mqo.Object) *mqo.Object {
	cp := *o
	cp.Vertexes, cp.Faces = nil, nil
	for _, v := range o.Vertexes {
		vv := *v
		cp.Vertexes = append(cp.Vertexes, &vv)
	}
	for _, f := range o.Faces {
		d := &mqo.Face{UID: f.UID, Material: f.Material, Verts: append([]int{}, f.Verts...), UVs: append([]geom.Vector2{}, f.UVs...)}
		for _, n := range f.Normals {
			if n != nil {
				nn := *n
				n = &nn
			}
			d.Normals = append(d.Normals, n)
		}
		cp.Faces = append(cp.Faces, d)
	}
	return &cp
}

// far reports whether p is away from all vertices of the object.
func far(obj *mqo.Object, p *geom.Vector3, d float32) bool {
	for _, v := range obj.Vertexes {
		if V(v).Dist(V(p)) < float64(d) {
			return false
		}
	}
	return true
}

func (o ModelOpts) addVert(obj *mqo.Object, p *geom.Vector3) int {
	for !far(obj, p, float32(o.Coord)/100) {
		p = &geom.Vector3{X: p.X + float32(o.Coord)/37, Y: p.Y - float32(o.Coord)/53, Z: p.Z + float32(o.Coord)/71}
	}
	obj.Vertexes = append(obj.Vertexes, p)
	return len(obj.Vertexes) - 1
}

func (o ModelOpts) pt(t *T, n string) geom.Vector3 { return V3(t, n, o.Coord) }

// Shape fills an object with vertices and faces: lattices, polygons and loose
// triangles over shared vertices. All vertices are distinct points.
func (o ModelOpts) Shape(t *T, obj *mqo.Object, nm int) {
	mat := func() int {
		if o.OddMaterials && Chance(t, "oddmat", 12) {
			return rapid.SampledFrom([]int{-1, nm, nm + 3}).Draw(t, "oddmatv")
		}
		if nm == 0 {
			return 0
		}
		return rapid.IntRange(0, nm-1).Draw(t, "mat")
	}
	face := func(verts ...int) {
		obj.Faces = append(obj.Faces, &mqo.Face{Verts: verts, Material: mat()})
	}
	for k := rapid.IntRange(1, 3).Draw(t, "patches"); k > 0; k-- {
		switch kind := rapid.IntRange(0, 2).Draw(t, "patch"); {
		case kind == 0: // lattice of parallelograms
			w, h := rapid.IntRange(1, 3).Draw(t, "w"), rapid.IntRange(1, 2).Draw(t, "h")
			org := o.pt(t, "org")
			r := RotM(t, "rot")
			su, sv := float64(rapid.IntRange(2, 20).Draw(t, "su"))*o.Coord/50, float64(rapid.IntRange(2, 20).Draw(t, "sv"))*o.Coord/50
			base := len(obj.Vertexes)
			var pts []*geom.Vector3
			ok := true
			for j := 0; j <= h; j++ {
				for i := 0; i <= w; i++ {
					p := r.Apply(P3{float64(i) * su, float64(j) * sv, 0}).Add(V(&org)).Geom()
					ok = ok && far(obj, p, float32(o.Coord)/200)
					pts = append(pts, p)
				}
			}
			if !ok {
				continue
			}
			obj.Vertexes = append(obj.Vertexes, pts...)
			flip := Bool(t, "flip")
			for j := 0; j < h; j++ {
				for i := 0; i < w; i++ {
					a := base + j*(w+1) + i
					q := []int{a, a + 1, a + w + 2, a + w + 1}
					if flip {
						q = []int{q[3], q[2], q[1], q[0]}
					}
					if !o.TriOnly && Bool(t, "quad") {
						face(q...)
					} else {
						face(q[0], q[1], q[2])
						face(q[2], q[3], q[0])
					}
				}
			}
		case kind == 1 && !o.TriOnly: // convex polygon on a circle
			n := rapid.IntRange(3, 7).Draw(t, "n")
			org := o.pt(t, "org")
			r := RotM(t, "rot")
			rad := float64(rapid.IntRange(5, 30).Draw(t, "rad")) * o.Coord / 50
			var vs []int
			base := len(obj.Vertexes)
			ok := true
			var pts []*geom.Vector3
			for i := 0; i < n; i++ {
				a := (float64(i) + 0.5*rapid.Float64Range(0, 1).Draw(t, "a")) * 2 * math.Pi / float64(n)
				p := r.Apply(P3{rad * math.Cos(a), rad * math.Sin(a), 0}).Add(V(&org)).Geom()
				ok = ok && far(obj, p, float32(o.Coord)/200)
				pts = append(pts, p)
				vs = append(vs, base+i)
			}
			if !ok {
				continue
			}
			obj.Vertexes = append(obj.Vertexes, pts...)
			if Bool(t, "flip") {
				for i, j := 0, len(vs)-1; i < j; i, j = i+1, j-1 {
					vs[i], vs[j] = vs[j], vs[i]
				}
			}
			face(vs...)
		default: // loose triangles
			n := rapid.IntRange(3, 5).Draw(t, "n")
			var vs []int
			for i := 0; i < n; i++ {
				p := o.pt(t, "p")
				vs = append(vs, o.addVert(obj, &p))
			}
			for i := 0; i < n-2; i++ {
				p := rapid.Permutation(vs).Draw(t, "perm")
				a, b, c := V(obj.Vertexes[p[0]]), V(obj.Vertexes[p[1]]), V(obj.Vertexes[p[2]])
				ab, ac := b.Sub(a), c.Sub(a)
				if ab.Cross(ac).Len() < 0.05*ab.Len()*ac.Len() || ab.Cross(ac).Len() < 0.05*ab.Len()*b.Sub(c).Len() {
					continue // nearly degenerate
				}
				face(p[0], p[1], p[2])
			}
		}
	}
	if o.Unreferenced && Chance(t, "loose", 4) {
		p := o.pt(t, "loosev")
		o.addVert(obj, &p)
	}
	if o.Lines && len(obj.Vertexes) > 2 && Chance(t, "line", 6) {
		face(0, 1)
	}
	// texture coordinates
	if Bool(t, "uvs") {
		base := make([]geom.Vector2, len(obj.Vertexes))
		for i := range base {
			base[i] = geom.Vector2{X: Grid(t, "u", 3, -1, 2), Y: Grid(t, "v", 3, -1, 2)}
		}
		mixed := Chance(t, "mixeduv", 4)
		for _, f := range obj.Faces {
			if mixed && Chance(t, "nouv", 3) {
				continue
			}
			for _, v := range f.Verts {
				uv := base[v]
				if o.Seams && Chance(t, "seam", 3) {
					uv.X += rapid.SampledFrom([]float32{0.5, 0.001, -0.004, 0.008, 0.02, 1}).Draw(t, "seamx")
					uv.Y += rapid.SampledFrom([]float32{0, 0.25, 0.002}).Draw(t, "seamy")
				}
				f.UVs = append(f.UVs, uv)
			}
		}
	}
	if !o.NoNormals && Chance(t, "normals", 3) {
		for _, f := range obj.Faces {
			if Chance(t, "facenormals", 4) {
				continue
			}
			for range f.Verts {
				if Chance(t, "nonormal", 6) {
					f.Normals = append(f.Normals, nil)
				} else {
					n := UnitV3(t, "n")
					f.Normals = append(f.Normals, &n)
				}
			}
		}
	}
}

// DrawModel draws a model; texture files are written to dir.
func DrawModel(t *T, o ModelOpts, dir string) *Model {
	m := &Model{Doc: mqo.NewDocument(), Images: map[string]*Img{}, Dir: dir}
	doc := m.Doc
	lo := 1
	if o.OddMaterials {
		lo = 0
	}
	nm := rapid.IntRange(lo, 3).Draw(t, "mats")
	for i, n := range UniqueNames(t, "mat", nm, o.NameFn) {
		if o.OddMaterials && i > 0 && Chance(t, "ignored", 6) {
			if Bool(t, "ignoredk") {
				n += rapid.SampledFrom([]string{"$IGNORE", "$IGNORE", "$IGNOREx", "$ignore"}).Draw(t, "suffix")
			} else {
				n = "$MORPH:x:" + n
			}
		}
		doc.Materials = append(doc.Materials, m.material(t, o, n))
	}
	no := rapid.IntRange(1, o.Objects).Draw(t, "objs")
	uids := rapid.Permutation([]int{1, 2, 3, 4, 5, 6, 7, 8, 9, 20, 31, 40}).Draw(t, "uids")
	withUID := o.UIDs && Bool(t, "withuid")
	depth := 0
	for i, n := range UniqueNames(t, "obj", no, o.NameFn) {
		obj := mqo.NewObject("o_" + n)
		obj.Visible = !(o.Hidden && Chance(t, "hidden", 5))
		obj.Shading = 1
		if Chance(t, "flat", 4) {
			obj.Shading = 0
		}
		if i > 0 {
			depth = rapid.IntRange(0, depth+1).Draw(t, "depth")
			if o.DepthGap && Chance(t, "gap", 6) {
				depth++
			}
		}
		obj.Depth = depth
		obj.UID = i + 1
		if withUID {
			obj.UID = uids[i]
		}
		if !Chance(t, "emptyobj", 6) {
			o.Shape(t, obj, nm)
		}
		if o.UIDs && len(obj.Vertexes) > 0 && Chance(t, "vuid", 4) {
			// ids in an order of their own
			p := rapid.Permutation(Iota(len(obj.Vertexes))).Draw(t, "vids")
			off := rapid.IntRange(0, 3).Draw(t, "vidoff")
			for v, id := range p {
				obj.VertexByUID[id+1+off] = v
			}
		}
		doc.Objects = append(doc.Objects, obj)
	}
	if o.Morphs && Bool(t, "morphs") {
		m.morphs(t, o)
	}
	if o.Bones && Bool(t, "bones") {
		m.bones(t, o)
	}
	if o.Physics && Bool(t, "physics") {
		m.physics(t, o)
	}
	return m
}

func (m *Model) morphs(t *T, o ModelOpts) {
	doc := m.Doc
	mp := mqo.GetMorphPlugin(doc)
	bases := append([]*mqo.Object{}, doc.Objects...)
	id := 0
	for _, b := range bases {
		if len(b.Vertexes) == 0 || !Chance(t, "isbase", 2) {
			continue
		}
		l := &mqo.MorphTargetList{Base: b.Name}
		for k := rapid.IntRange(1, 3).Draw(t, "targets"); k > 0; k-- {
			id++
			to := CloneObj(b)
			to.Name = fmt.Sprintf("m%d_%s", id, o.NameFn(t, "tname"))
			to.UID = 100 + id
			to.Visible = Bool(t, "tvisible")
			to.Depth = b.Depth + 1
			for j, v := range to.Vertexes {
				nv := *v
				if Bool(t, "moved") {
					nv = geom.Vector3{X: v.X + F(t, "dx", 50), Y: v.Y + F(t, "dy", 50), Z: v.Z + F(t, "dz", 50)}
				}
				to.Vertexes[j] = &nv
			}
			if o.BadRefs && Chance(t, "mismatch", 8) {
				to.Vertexes = append(to.Vertexes, &geom.Vector3{X: 1})
			}
			l.Target = append(l.Target, &mqo.MorphTarget{Name: to.Name, Param: rapid.IntRange(0, 100).Draw(t, "param")})
			if o.BadRefs && Chance(t, "nomorphobj", 8) {
				continue
			}
			// anywhere in the list, mostly below its base
			at := len(doc.Objects)
			if Bool(t, "below") {
				for q, x := range doc.Objects {
					if x == b {
						at = q + 1
					}
				}
			}
			doc.Objects = append(doc.Objects[:at], append([]*mqo.Object{to}, doc.Objects[at:]...)...)
		}
		mp.MorphSet.Targets = append(mp.MorphSet.Targets, l)
		if n := len(l.Target); n > 1 && Chance(t, "twolists", 4) {
			mp.MorphSet.Targets = append(mp.MorphSet.Targets, &mqo.MorphTargetList{Base: b.Name, Target: l.Target[n-1:]})
			l.Target = l.Target[:n-1]
		}
	}
}

func (m *Model) bones(t *T, o ModelOpts) {
	doc := m.Doc
	bp := mqo.GetBonePlugin(doc)
	nb := rapid.IntRange(1, 7).Draw(t, "nb")
	ids := Iota(nb)
	if !o.ParentsFirst {
		ids = rapid.Permutation(Iota(nb)).Draw(t, "boneids")
	}
	off := 1
	if o.UIDs {
		off += rapid.IntRange(0, 2).Draw(t, "boneoff")
	}
	var bones []*mqo.Bone
	for i, n := range UniqueNames(t, "bone", nb, o.NameFn) {
		b := &mqo.Bone{ID: ids[i] + off, Name: "b_" + n, Pos: mqo.Vector3Attr{Vector3: o.pt(t, "bpos")}}
		if i > 0 && !Chance(t, "root", 5) {
			b.Parent = bones[rapid.IntRange(0, i-1).Draw(t, "parent")].ID
		} else if o.BadRefs && Chance(t, "badparent", 6) {
			b.Parent = 99
		}
		bones = append(bones, b)
	}
	list := bones
	if !o.ParentsFirst {
		list = nil
		for _, i := range rapid.Permutation(Iota(nb)).Draw(t, "boneorder") {
			list = append(list, bones[i])
		}
	}
	for _, b := range list {
		bp.AddBone(b)
	}
	isTarget := map[string]bool{}
	for _, l := range mqo.GetMorphPlugin(doc).Morphs() {
		for _, x := range l.Target {
			isTarget[x.Name] = true
		}
	}
	skinned := 0
	for _, obj := range doc.Objects {
		if len(obj.Vertexes) == 0 || isTarget[obj.Name] || !Bool(t, "skinned") || skinned > 0 && !o.TwoSkins {
			continue
		}
		skinned++
		for v := range obj.Vertexes {
			k := rapid.IntRange(1, min(o.MaxWeights, nb)).Draw(t, "nw")
			p := rapid.Permutation(Iota(nb)).Draw(t, "wb")[:k]
			left := 100
			for j, bi := range p {
				w := left
				if j < k-1 {
					w = rapid.IntRange(1, max(1, left-(k-1-j))).Draw(t, "w")
				}
				left -= w
				bones[bi].SetVertexWeight(obj.UID, VertexUID(obj, v), float32(w))
			}
		}
	}
}

func (m *Model) physics(t *T, o ModelOpts) {
	doc := m.Doc
	pp := mqo.GetPhysicsPlugin(doc)
	bones := mqo.GetBonePlugin(doc).Bones()
	for i := rapid.IntRange(1, 3).Draw(t, "bodies"); i > 0; i-- {
		b := &mqo.PhysicsBody{Name: fmt.Sprintf("body%d", i), Mass: float32(rapid.IntRange(0, 20).Draw(t, "mass")) / 4, Kinematic: Bool(t, "kin"), CollisionGroup: rapid.IntRange(0, 15).Draw(t, "cg"), CollisionMask: rapid.IntRange(0, 65535).Draw(t, "cm"),
			Restitution: U(t, "res"), Friction: U(t, "fri"), LinearDamping: U(t, "ld"), AngularDamping: U(t, "ad")}
		if len(bones) > 0 && Bool(t, "bonetarget") {
			b.TargetBoneID = bones[rapid.IntRange(0, len(bones)-1).Draw(t, "tb")].ID
		} else if Bool(t, "objtarget") {
			b.TargetObjID = doc.Objects[rapid.IntRange(0, len(doc.Objects)-1).Draw(t, "to")].UID
		}
		for k := rapid.IntRange(0, 2).Draw(t, "shapes"); k > 0; k-- {
			sz := geom.Vector3{X: float32(rapid.IntRange(1, 40).Draw(t, "sx")), Y: float32(rapid.IntRange(1, 40).Draw(t, "sy")), Z: float32(rapid.IntRange(1, 40).Draw(t, "sz"))}
			b.Shapes = append(b.Shapes, &mqo.PhysicsShape{Type: rapid.SampledFrom([]string{"BOX", "SPHERE", "CAPSULE"}).Draw(t, "stype"), Size: xa(sz), Position: xa(o.pt(t, "spos")), Rotation: xa(V3(t, "srot", 3))})
		}
		pp.Bodies = append(pp.Bodies, b)
	}
}

// DropUIDs removes the ids that mqo.Document.FixObjectID gives back.
func DropUIDs(t *T, doc *mqo.Document) {
	if !Chance(t, "noUID", 3) {
		return
	}
	for i, o := range doc.Objects {
		if o.UID == i+1 {
			o.UID = 0
		}
	}
}
