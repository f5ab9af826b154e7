package gen

import (
	"fmt"
	"regexp"
	"strconv"
	"strings"

	"github.com/binzume/modelconv/mqo"
)

// MQO text is lines: a header, then blocks. StrictMQO reads it that way and
// accepts nothing that the format does not define.
func StrictMQO(text []byte) (doc *mqo.Document, xml string, err error) {
	defer func() {
		if r := recover(); r != nil {
			e, ok := r.(strictErr)
			if !ok {
				panic(r)
			}
			err = fmt.Errorf("%s", string(e))
		}
	}()
	s := &strict{}
	for _, l := range strings.Split(string(text), "\n") {
		s.lines = append(s.lines, strings.Trim(l, " \t\r"))
	}
	s.expect("Metasequoia Document")
	if l := s.next(); !regexp.MustCompile(`^Format Text Ver 1\.[012]$`).MatchString(l) {
		s.fail("bad format line")
	}
	doc = &mqo.Document{}
	for {
		l := s.next()
		head, rest, _ := strings.Cut(l, " ")
		switch head {
		case "CodePage":
			if rest != "utf8" {
				s.fail("bad code page")
			}
		case "IncludeXml":
			xml = s.str(rest)
		case "Scene":
			s.open(rest, -1)
			s.scene(doc)
		case "Material":
			n := s.open(rest, 1)
			for i := 0; i < n; i++ {
				doc.Materials = append(doc.Materials, s.material())
			}
			s.expect("}")
		case "MaterialEx2":
			n := s.open(rest, 1)
			for i := 0; i < n; i++ {
				s.ex2(doc)
			}
			s.expect("}")
		case "Object":
			if !strings.HasSuffix(rest, " {") {
				s.fail("no block")
			}
			doc.Objects = append(doc.Objects, s.object(s.str(strings.TrimSuffix(rest, " {"))))
		case "Eof":
			if rest != "" {
				s.fail("bad end")
			}
			for s.pos < len(s.lines) {
				if s.lines[s.pos] != "" {
					s.next()
					s.fail("text after the end")
				}
				s.pos++
			}
			return doc, xml, nil
		default:
			s.fail("unknown block")
		}
	}
}

type strictErr string

type strict struct {
	lines []string
	pos   int
	cur   string
}

func (s *strict) fail(f string, a ...interface{}) {
	panic(strictErr(fmt.Sprintf("line %d %q: ", s.pos, s.cur) + fmt.Sprintf(f, a...)))
}

func (s *strict) next() string {
	for s.pos < len(s.lines) && s.lines[s.pos] == "" {
		s.pos++
	}
	if s.pos >= len(s.lines) {
		s.cur = ""
		s.fail("the file ends")
	}
	s.cur = s.lines[s.pos]
	s.pos++
	return s.cur
}

func (s *strict) expect(l string) {
	if s.next() != l {
		s.fail("want %q", l)
	}
}

// open reads "n {" and gives n, or "{".
func (s *strict) open(rest string, nums int) int {
	if nums < 0 {
		if rest != "{" {
			s.fail("want {")
		}
		return 0
	}
	if !strings.HasSuffix(rest, " {") {
		s.fail("want a count and {")
	}
	return s.int(strings.TrimSuffix(rest, " {"))
}

func (s *strict) str(t string) string {
	if len(t) < 2 || t[0] != '"' || t[len(t)-1] != '"' || strings.Contains(t[1:len(t)-1], "\"") {
		s.fail("bad string %q", t)
	}
	return t[1 : len(t)-1]
}

func (s *strict) int(t string) int {
	n, err := strconv.Atoi(t)
	if err != nil || strings.HasPrefix(t, "+") {
		s.fail("bad integer %q", t)
	}
	return n
}

var numRe = regexp.MustCompile(`^-?[0-9]+(\.[0-9]+)?(e[-+][0-9]+)?$`)

func (s *strict) num(t string) float32 {
	v, err := strconv.ParseFloat(t, 32)
	if err != nil || !numRe.MatchString(t) {
		s.fail("bad number %q", t)
	}
	return float32(v)
}

func (s *strict) nums(t string, n int) []float32 {
	f := strings.Split(t, " ")
	if len(f) != n {
		s.fail("%d values, want %d", len(f), n)
	}
	out := make([]float32, n)
	for i, x := range f {
		out[i] = s.num(x)
	}
	return out
}

func (s *strict) vec(t string) mqo.Vector3 {
	v := s.nums(t, 3)
	return mqo.Vector3{X: v[0], Y: v[1], Z: v[2]}
}

func (s *strict) flag(t string) bool {
	if t != "0" && t != "1" {
		s.fail("bad flag %q", t)
	}
	return t == "1"
}

func (s *strict) scene(doc *mqo.Document) {
	doc.Scene = &mqo.Scene{}
	c := doc.Scene
	seen := map[string]bool{}
	for {
		l := s.next()
		if l == "}" {
			return
		}
		k, v, _ := strings.Cut(l, " ")
		if seen[k] {
			s.fail("twice")
		}
		seen[k] = true
		switch k {
		case "pos":
			c.CameraPos = s.vec(v)
		case "lookat":
			c.CameraLookAt = s.vec(v)
		case "head":
			c.CameraRot.Y = s.num(v)
		case "pich":
			c.CameraRot.X = s.num(v)
		case "bank":
			c.CameraRot.Z = s.num(v)
		case "ortho":
			c.Ortho = s.flag(v)
		case "zoom2":
			c.Zoom2 = s.num(v)
		case "amb":
			a := s.vec(v)
			c.AmbientLight = &a
		case "frontclip":
			c.FrontClip = s.num(v)
		case "backclip":
			c.BackClip = s.num(v)
		default:
			s.fail("unknown scene value")
		}
	}
}

// args splits `name(a) other("b c" d)`.
func (s *strict) args(t string) (keys, vals []string) {
	for t != "" {
		p := strings.IndexByte(t, '(')
		if p <= 0 || strings.ContainsAny(t[:p], " \")") {
			s.fail("bad attribute %q", t)
		}
		keys = append(keys, t[:p])
		t = t[p+1:]
		q := strings.IndexByte(t, ')')
		if strings.HasPrefix(t, "\"") {
			e := strings.IndexByte(t[1:], '"')
			if e < 0 {
				s.fail("bad string")
			}
			q = e + 2
		}
		if q < 0 || q >= len(t) || t[q] != ')' {
			s.fail("no closing parenthesis")
		}
		vals = append(vals, t[:q])
		t = t[q+1:]
		if t != "" {
			if t[0] != ' ' {
				s.fail("attributes are not separated")
			}
			t = t[1:]
		}
	}
	seen := map[string]bool{}
	for _, k := range keys {
		if seen[k] {
			s.fail("%s twice", k)
		}
		seen[k] = true
	}
	return
}

func (s *strict) material() *mqo.Material {
	l := s.next()
	if l[0] != '"' {
		s.fail("no name")
	}
	e := strings.IndexByte(l[1:], '"')
	if e < 0 {
		s.fail("no name")
	}
	m := &mqo.Material{Name: l[1 : e+1]}
	rest := l[e+2:]
	if rest != "" && rest[0] != ' ' {
		s.fail("name and attributes are not separated")
	}
	keys, vals := s.args(strings.TrimPrefix(rest, " "))
	for i, k := range keys {
		v := vals[i]
		switch k {
		case "shader":
			m.Shader = s.int(v)
		case "dbls":
			m.DoubleSided = s.flag(v)
		case "uid":
			m.UID = s.int(v)
		case "col":
			c := s.nums(v, 4)
			m.Color = mqo.Vector4{X: c[0], Y: c[1], Z: c[2], W: c[3]}
		case "dif":
			m.Diffuse = s.num(v)
		case "amb":
			m.Ambient = s.num(v)
		case "emi":
			m.Emission = s.num(v)
		case "spc":
			m.Specular = s.num(v)
		case "power":
			m.Power = s.num(v)
		case "emi_col":
			c := s.vec(v)
			m.EmissionColor = &c
		case "tex", "aplane", "bump":
			p := s.str(v)
			if p == "" || strings.Contains(p, "\\") {
				s.fail("bad path")
			}
			*map[string]*string{"tex": &m.Texture, "aplane": &m.AlphaTexture, "bump": &m.BumpTexture}[k] = p
		default:
			s.fail("unknown attribute %s", k)
		}
	}
	return m
}

func (s *strict) params(n int) map[string]interface{} {
	out := map[string]interface{}{}
	for i := 0; i < n; i++ {
		f := strings.SplitN(s.next(), " ", 3)
		if len(f) != 3 {
			s.fail("want a name, a type and a value")
		}
		if _, dup := out[f[0]]; dup {
			s.fail("twice")
		}
		switch f[1] {
		case "bool":
			out[f[0]] = s.flag(f[2])
		case "int":
			out[f[0]] = s.int(f[2])
		case "float":
			out[f[0]] = s.num(f[2])
		case "color":
			if n := strings.Count(f[2], " ") + 1; n == 3 || n == 4 {
				out[f[0]] = s.nums(f[2], n)
			} else {
				s.fail("bad colour")
			}
		case "string":
			out[f[0]] = s.str(f[2])
		default:
			s.fail("unknown type")
		}
	}
	s.expect("}")
	return out
}

func (s *strict) ex2(doc *mqo.Document) {
	l := s.next()
	if !strings.HasPrefix(l, "material ") {
		s.fail("want a material")
	}
	i := s.open(strings.TrimPrefix(l, "material "), 1)
	if i < 0 || i >= len(doc.Materials) || doc.Materials[i].Ex2 != nil {
		s.fail("material %d of %d", i, len(doc.Materials))
	}
	x := mqo.NewMaterialEx2("")
	doc.Materials[i].Ex2 = x
	for {
		l := s.next()
		if l == "}" {
			return
		}
		k, v, _ := strings.Cut(l, " ")
		switch k {
		case "shadertype":
			x.ShaderType = s.str(v)
		case "shadername":
			x.ShaderName = s.str(v)
		case "shaderparam":
			x.ShaderParams = s.params(s.open(v, 1))
		case "shadermapping":
			for n := s.open(v, 1); n > 0; n-- {
				a, b, ok := strings.Cut(s.next(), "\" \"")
				if !ok {
					s.fail("want two strings")
				}
				x.ShaderMapping[s.str(a+"\"")] = s.str("\"" + b)
			}
			s.expect("}")
		case "shadermappingparam":
			e := strings.LastIndex(v, "\" ")
			if e < 0 {
				s.fail("no name")
			}
			x.ShaderMappingParams[s.str(v[:e+1])] = s.params(s.open(v[e+2:], 1))
		default:
			s.fail("unknown value")
		}
	}
}

func (s *strict) object(name string) *mqo.Object {
	o := mqo.NewObject(name)
	o.Scale, o.Rotation, o.Translation = nil, nil, nil
	o.Shading, o.Facet = -1, -1
	seen := map[string]bool{}
	for {
		l := s.next()
		if l == "}" {
			for _, k := range []string{"vertex", "face", "depth", "shading", "facet"} {
				if !seen[k] {
					s.fail("the object has no %s", k)
				}
			}
			return o
		}
		k, v, _ := strings.Cut(l, " ")
		if seen[k] {
			s.fail("twice")
		}
		seen[k] = true
		vec := func() *mqo.Vector3 { r := s.vec(v); return &r }
		switch k {
		case "uid":
			o.UID = s.int(v)
		case "depth":
			o.Depth = s.int(v)
		case "folding":
			o.Folding = s.flag(v)
		case "scale":
			o.Scale = vec()
		case "rotation": // heading, pitch, bank
			r := s.vec(v)
			o.Rotation = &mqo.Vector3{X: r.Y, Y: r.X, Z: r.Z}
		case "translation":
			o.Translation = vec()
		case "visible":
			n := s.int(v)
			o.Visible = n > 0
		case "locking":
			o.Locked = s.flag(v)
		case "shading":
			o.Shading = s.int(v)
		case "facet":
			o.Facet = s.num(v)
		case "mirror":
			o.Mirror = s.int(v)
		case "mirror_dis":
			o.MirrorDis = s.num(v)
		case "patch":
			o.Patch = s.int(v)
		case "segment":
			o.PatchSegment = s.int(v)
		case "color":
			o.Color = vec()
		case "vertex":
			for n := s.open(v, 1); n > 0; n-- {
				p := s.vec(s.next())
				o.Vertexes = append(o.Vertexes, &p)
			}
			s.expect("}")
		case "vertexattr":
			s.open(v, -1)
			s.expect("uid {")
			for i := range o.Vertexes {
				u := s.int(s.next())
				if _, dup := o.VertexByUID[u]; dup {
					s.fail("id %d is used twice", u)
				}
				o.VertexByUID[u] = i
			}
			s.expect("}")
			s.expect("}")
		case "face":
			for n := s.open(v, 1); n > 0; n-- {
				o.Faces = append(o.Faces, s.face(len(o.Vertexes)))
			}
			s.expect("}")
		default:
			s.fail("unknown object value")
		}
	}
}

func (s *strict) face(nv int) *mqo.Face {
	f := &mqo.Face{Material: -1}
	c, rest, _ := strings.Cut(s.next(), " ")
	n := s.int(c)
	keys, vals := s.args(rest)
	if n > 0 && (len(keys) == 0 || keys[0] != "V") {
		s.fail("no vertices")
	}
	for i, k := range keys {
		v := vals[i]
		switch k {
		case "V":
			fs := strings.Split(v, " ")
			if n == 0 && v == "" {
				fs = nil
			}
			if len(fs) != n {
				s.fail("%d vertices, want %d", len(fs), n)
			}
			for _, x := range fs {
				vi := s.int(x)
				if vi < 0 || vi >= nv {
					s.fail("vertex %d of %d", vi, nv)
				}
				f.Verts = append(f.Verts, vi)
			}
		case "M":
			f.Material = s.int(v)
		case "UID":
			f.UID = s.int(v)
		case "UV":
			u := s.nums(v, 2*n)
			for j := 0; j < n; j++ {
				f.UVs = append(f.UVs, mqo.Vector2{X: u[2*j], Y: u[2*j+1]})
			}
		case "N": // a kind for every corner, then the normals of those with one
			fs := strings.Split(v, " ")
			if len(fs) < n {
				s.fail("too few normals")
			}
			p := n
			for j := 0; j < n; j++ {
				switch fs[j] {
				case "0":
					f.Normals = append(f.Normals, nil)
				case "2":
					if p+3 > len(fs) {
						s.fail("too few normals")
					}
					f.Normals = append(f.Normals, &mqo.Vector3{X: s.num(fs[p]), Y: s.num(fs[p+1]), Z: s.num(fs[p+2])})
					p += 3
				default:
					s.fail("normal kind %s", fs[j])
				}
			}
			if p != len(fs) {
				s.fail("too many normals")
			}
		default:
			s.fail("unknown attribute %s", k)
		}
	}
	return f
}
