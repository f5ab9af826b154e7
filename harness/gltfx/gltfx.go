// Package gltfx is an independent reader and validator of glTF 2.0 files,
// written from the specification.
package gltfx

import (
	"bytes"
	"encoding/base64"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"image/jpeg"
	"image/png"
	"math"
	"net/url"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"verif/harness/gen"
)

type M = map[string]interface{}

type Accessor struct {
	BufferView    *int      `json:"bufferView"`
	ByteOffset    int       `json:"byteOffset"`
	ComponentType int       `json:"componentType"`
	Normalized    bool      `json:"normalized"`
	Count         int       `json:"count"`
	Type          string    `json:"type"`
	Min           []float64 `json:"min"`
	Max           []float64 `json:"max"`
	Sparse        *Sparse   `json:"sparse"`
}

// Sparse tells where to find some elements of an accessor.
type Sparse struct {
	Count   int `json:"count"`
	Indices struct {
		BufferView    int `json:"bufferView"`
		ByteOffset    int `json:"byteOffset"`
		ComponentType int `json:"componentType"`
	} `json:"indices"`
	Values struct {
		BufferView int `json:"bufferView"`
		ByteOffset int `json:"byteOffset"`
	} `json:"values"`
}
type BufferView struct {
	Buffer     int `json:"buffer"`
	ByteOffset int `json:"byteOffset"`
	ByteLength int `json:"byteLength"`
	ByteStride int `json:"byteStride"`
	Target     int `json:"target"`
}
type Buffer struct {
	URI        string `json:"uri"`
	ByteLength int    `json:"byteLength"`
}
type Primitive struct {
	Attributes map[string]int   `json:"attributes"`
	Indices    *int             `json:"indices"`
	Material   *int             `json:"material"`
	Mode       *int             `json:"mode"`
	Targets    []map[string]int `json:"targets"`
	Extras     json.RawMessage  `json:"extras"`
}
type Mesh struct {
	Name       string      `json:"name"`
	Primitives []Primitive `json:"primitives"`
	Weights    []float64   `json:"weights"`
	Extras     M           `json:"extras"`
}
type Node struct {
	Name        string                     `json:"name"`
	Children    []int                      `json:"children"`
	Mesh        *int                       `json:"mesh"`
	Skin        *int                       `json:"skin"`
	Camera      *int                       `json:"camera"`
	Matrix      []float64                  `json:"matrix"`
	Translation []float64                  `json:"translation"`
	Rotation    []float64                  `json:"rotation"`
	Scale       []float64                  `json:"scale"`
	Weights     []float64                  `json:"weights"`
	Extensions  map[string]json.RawMessage `json:"extensions"`
}
type Skin struct {
	Joints   []int `json:"joints"`
	IBM      *int  `json:"inverseBindMatrices"`
	Skeleton *int  `json:"skeleton"`
}
type TexInfo struct {
	Index    *int     `json:"index"`
	TexCoord int      `json:"texCoord"`
	Scale    *float64 `json:"scale"`
	Strength *float64 `json:"strength"`
}
type PBR struct {
	BaseColorFactor          []float64 `json:"baseColorFactor"`
	MetallicFactor           *float64  `json:"metallicFactor"`
	RoughnessFactor          *float64  `json:"roughnessFactor"`
	BaseColorTexture         *TexInfo  `json:"baseColorTexture"`
	MetallicRoughnessTexture *TexInfo  `json:"metallicRoughnessTexture"`
}
type Material struct {
	Name             string                     `json:"name"`
	PBR              *PBR                       `json:"pbrMetallicRoughness"`
	NormalTexture    *TexInfo                   `json:"normalTexture"`
	OcclusionTexture *TexInfo                   `json:"occlusionTexture"`
	EmissiveTexture  *TexInfo                   `json:"emissiveTexture"`
	EmissiveFactor   []float64                  `json:"emissiveFactor"`
	AlphaMode        string                     `json:"alphaMode"`
	AlphaCutoff      *float64                   `json:"alphaCutoff"`
	DoubleSided      bool                       `json:"doubleSided"`
	Extensions       map[string]json.RawMessage `json:"extensions"`
}
type Image struct {
	URI        string `json:"uri"`
	Name       string `json:"name"`
	MimeType   string `json:"mimeType"`
	BufferView *int   `json:"bufferView"`
}
type Texture struct {
	Sampler *int `json:"sampler"`
	Source  *int `json:"source"`
}
type AnimSampler struct {
	Input         int    `json:"input"`
	Output        int    `json:"output"`
	Interpolation string `json:"interpolation"`
}
type Channel struct {
	Sampler int `json:"sampler"`
	Target  struct {
		Node *int   `json:"node"`
		Path string `json:"path"`
	} `json:"target"`
}
type Animation struct {
	Name     string        `json:"name"`
	Samplers []AnimSampler `json:"samplers"`
	Channels []Channel     `json:"channels"`
}
type Scene struct {
	Nodes []int `json:"nodes"`
}
type Doc struct {
	Asset              M                          `json:"asset"`
	Scene              *int                       `json:"scene"`
	Scenes             []Scene                    `json:"scenes"`
	Nodes              []Node                     `json:"nodes"`
	Meshes             []Mesh                     `json:"meshes"`
	Skins              []Skin                     `json:"skins"`
	Accessors          []Accessor                 `json:"accessors"`
	BufferViews        []BufferView               `json:"bufferViews"`
	Buffers            []Buffer                   `json:"buffers"`
	Materials          []Material                 `json:"materials"`
	Textures           []Texture                  `json:"textures"`
	Images             []Image                    `json:"images"`
	Samplers           []M                        `json:"samplers"`
	Animations         []Animation                `json:"animations"`
	Cameras            []M                        `json:"cameras"`
	Extensions         map[string]json.RawMessage `json:"extensions"`
	ExtensionsUsed     []string                   `json:"extensionsUsed"`
	ExtensionsRequired []string                   `json:"extensionsRequired"`

	Raw  M        `json:"-"`
	Data [][]byte `json:"-"` // buffers
	Dir  string   `json:"-"`
	GLB  bool     `json:"-"`
}

// Load reads a .gltf or .glb/.vrm file.
func Load(path string) (*Doc, error) {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil, err
	}
	return Parse(b, filepath.Dir(path))
}

// Parse reads file contents; dir is where relative URIs are resolved.
func Parse(b []byte, dir string) (*Doc, error) {
	d := &Doc{Dir: dir}
	js := b
	var bin []byte
	if len(b) >= 4 && string(b[:4]) == "glTF" {
		d.GLB = true
		if len(b) < 20 {
			return nil, fmt.Errorf("GLB too short")
		}
		le := binary.LittleEndian
		if le.Uint32(b[4:]) != 2 {
			return nil, fmt.Errorf("GLB version %d", le.Uint32(b[4:]))
		}
		if int(le.Uint32(b[8:])) != len(b) {
			return nil, fmt.Errorf("GLB header length %d, file has %d", le.Uint32(b[8:]), len(b))
		}
		pos := 12
		for n := 0; pos < len(b); n++ {
			if pos+8 > len(b) {
				return nil, fmt.Errorf("GLB chunk header truncated")
			}
			l, typ := int(le.Uint32(b[pos:])), string(b[pos+4:pos+8])
			if l%4 != 0 || pos+8+l > len(b) {
				return nil, fmt.Errorf("GLB chunk %d: length %d", n, l)
			}
			c := b[pos+8 : pos+8+l]
			switch {
			case n == 0 && typ == "JSON":
				js = c
			case n == 1 && typ == "BIN\x00":
				bin = c
			default:
				return nil, fmt.Errorf("GLB chunk %d has type %q", n, typ)
			}
			pos += 8 + l
		}
	}
	if err := json.Unmarshal(js, d); err != nil {
		return nil, fmt.Errorf("JSON: %v", err)
	}
	if err := json.Unmarshal(js, &d.Raw); err != nil {
		return nil, err
	}
	for i, bf := range d.Buffers {
		var data []byte
		switch {
		case bf.URI == "":
			if !d.GLB || i != 0 {
				return nil, fmt.Errorf("buffer %d has no uri", i)
			}
			data = bin
			if len(data) < bf.ByteLength || len(data) > bf.ByteLength+3 {
				return nil, fmt.Errorf("buffer 0: byteLength %d, BIN chunk %d", bf.ByteLength, len(data))
			}
			data = data[:bf.ByteLength]
		default:
			var err error
			data, err = d.Resource(bf.URI)
			if err != nil {
				return nil, fmt.Errorf("buffer %d: %v", i, err)
			}
			if len(data) < bf.ByteLength {
				return nil, fmt.Errorf("buffer %d: byteLength %d, file %d", i, bf.ByteLength, len(data))
			}
		}
		d.Data = append(d.Data, data)
	}
	return d, nil
}

// Resource resolves a URI.
func (d *Doc) Resource(uri string) ([]byte, error) {
	if strings.HasPrefix(uri, "data:") {
		i := strings.Index(uri, ",")
		if i < 0 || !strings.HasSuffix(uri[:i], ";base64") {
			return nil, fmt.Errorf("bad data uri")
		}
		return base64.StdEncoding.DecodeString(uri[i+1:])
	}
	p, err := url.PathUnescape(uri)
	if err != nil {
		p = uri
	}
	return os.ReadFile(filepath.Join(d.Dir, filepath.FromSlash(p)))
}

var compSize = map[int]int{5120: 1, 5121: 1, 5122: 2, 5123: 2, 5125: 4, 5126: 4}
var typeCount = map[string]int{"SCALAR": 1, "VEC2": 2, "VEC3": 3, "VEC4": 4, "MAT2": 4, "MAT3": 9, "MAT4": 16}

// Read returns the elements of an accessor (not normalized).
func (d *Doc) Read(i int) ([][]float64, error) {
	if i < 0 || i >= len(d.Accessors) {
		return nil, fmt.Errorf("accessor %d does not exist", i)
	}
	a := d.Accessors[i]
	cs, n := compSize[a.ComponentType], typeCount[a.Type]
	if cs == 0 || n == 0 || a.Count < 1 {
		return nil, fmt.Errorf("accessor %d: componentType %d type %q count %d", i, a.ComponentType, a.Type, a.Count)
	}
	var out [][]float64
	if a.BufferView == nil {
		out = make([][]float64, a.Count)
		for k := range out {
			out[k] = make([]float64, n)
		}
	} else {
		var err error
		if out, err = d.elements(i, a.ComponentType, n, a.Count, *a.BufferView, a.ByteOffset); err != nil {
			return nil, err
		}
	}
	if s := a.Sparse; s != nil {
		if s.Count < 1 || s.Count > a.Count {
			return nil, fmt.Errorf("accessor %d: %d sparse elements", i, s.Count)
		}
		switch s.Indices.ComponentType {
		case 5121, 5123, 5125:
		default:
			return nil, fmt.Errorf("accessor %d: sparse index type %d", i, s.Indices.ComponentType)
		}
		for _, v := range []int{s.Indices.BufferView, s.Values.BufferView} {
			if v >= 0 && v < len(d.BufferViews) && d.BufferViews[v].ByteStride != 0 {
				return nil, fmt.Errorf("accessor %d: sparse view %d has a stride", i, v)
			}
		}
		at, err := d.elements(i, s.Indices.ComponentType, 1, s.Count, s.Indices.BufferView, s.Indices.ByteOffset)
		if err != nil {
			return nil, err
		}
		vals, err := d.elements(i, a.ComponentType, n, s.Count, s.Values.BufferView, s.Values.ByteOffset)
		if err != nil {
			return nil, err
		}
		last := -1
		for k := range at {
			e := int(at[k][0])
			if e <= last || e >= a.Count {
				return nil, fmt.Errorf("accessor %d: sparse index %d after %d of %d", i, e, last, a.Count)
			}
			last = e
			out[e] = vals[k]
		}
	}
	return out, nil
}

// elements reads the elements of an accessor from a view.
func (d *Doc) elements(i, ct, n, count, view, offset int) ([][]float64, error) {
	out := make([][]float64, count)
	cs := compSize[ct]
	v, err := d.View(view)
	if err != nil {
		return nil, fmt.Errorf("accessor %d: %v", i, err)
	}
	bv := d.BufferViews[view]
	el := cs * n
	stride := el
	if bv.ByteStride != 0 {
		stride = bv.ByteStride
	}
	if offset%cs != 0 || (bv.ByteOffset+offset)%cs != 0 {
		return nil, fmt.Errorf("accessor %d: offset %d+%d not a multiple of %d", i, bv.ByteOffset, offset, cs)
	}
	if stride < el || stride%cs != 0 {
		return nil, fmt.Errorf("accessor %d: stride %d for elements of %d", i, stride, el)
	}
	if offset+stride*(count-1)+el > len(v) {
		return nil, fmt.Errorf("accessor %d: needs %d bytes at %d, view has %d", i, stride*(count-1)+el, offset, len(v))
	}
	le := binary.LittleEndian
	for k := range out {
		out[k] = make([]float64, n)
		for j := range out[k] {
			b := v[offset+k*stride+j*cs:]
			switch ct {
			case 5120:
				out[k][j] = float64(int8(b[0]))
			case 5121:
				out[k][j] = float64(b[0])
			case 5122:
				out[k][j] = float64(int16(le.Uint16(b)))
			case 5123:
				out[k][j] = float64(le.Uint16(b))
			case 5125:
				out[k][j] = float64(le.Uint32(b))
			case 5126:
				out[k][j] = float64(math.Float32frombits(le.Uint32(b)))
			}
		}
	}
	return out, nil
}

// View returns the bytes of a buffer view.
func (d *Doc) View(i int) ([]byte, error) {
	if i < 0 || i >= len(d.BufferViews) {
		return nil, fmt.Errorf("bufferView %d does not exist", i)
	}
	bv := d.BufferViews[i]
	if bv.Buffer < 0 || bv.Buffer >= len(d.Data) {
		return nil, fmt.Errorf("bufferView %d: buffer %d does not exist", i, bv.Buffer)
	}
	b := d.Data[bv.Buffer]
	if bv.ByteLength < 1 || bv.ByteOffset < 0 || bv.ByteOffset+bv.ByteLength > len(b) || bv.ByteOffset+bv.ByteLength > d.Buffers[bv.Buffer].ByteLength {
		return nil, fmt.Errorf("bufferView %d: %d+%d exceeds the buffer of %d", i, bv.ByteOffset, bv.ByteLength, d.Buffers[bv.Buffer].ByteLength)
	}
	return b[bv.ByteOffset : bv.ByteOffset+bv.ByteLength], nil
}

// ImageBytes returns the encoded bytes of an image.
func (d *Doc) ImageBytes(i int) ([]byte, error) {
	if i < 0 || i >= len(d.Images) {
		return nil, fmt.Errorf("image %d does not exist", i)
	}
	im := d.Images[i]
	if im.BufferView != nil {
		return d.View(*im.BufferView)
	}
	return d.Resource(im.URI)
}

// TexImage resolves a texture to its image index.
func (d *Doc) TexImage(t *TexInfo) (int, error) {
	if t.Index == nil || *t.Index < 0 || *t.Index >= len(d.Textures) {
		return 0, fmt.Errorf("texture does not exist")
	}
	tx := d.Textures[*t.Index]
	if tx.Source == nil || *tx.Source < 0 || *tx.Source >= len(d.Images) {
		return 0, fmt.Errorf("texture %d: image does not exist", *t.Index)
	}
	if tx.Sampler != nil && (*tx.Sampler < 0 || *tx.Sampler >= len(d.Samplers)) {
		return 0, fmt.Errorf("texture %d: sampler %d does not exist", *t.Index, *tx.Sampler)
	}
	return *tx.Source, nil
}

// Local is a node's own transformation.
func (d *Doc) Local(i int) gen.M {
	n := d.Nodes[i]
	if len(n.Matrix) == 16 {
		var m gen.M
		copy(m[:], n.Matrix)
		return m
	}
	m := gen.Ident4()
	if len(n.Translation) == 3 {
		m = m.Mul(gen.TransM(gen.P3{n.Translation[0], n.Translation[1], n.Translation[2]}))
	}
	if len(n.Rotation) == 4 {
		m = m.Mul(gen.QuatM(n.Rotation[0], n.Rotation[1], n.Rotation[2], n.Rotation[3]))
	}
	if len(n.Scale) == 3 {
		m = m.Mul(gen.ScaleM(gen.P3{n.Scale[0], n.Scale[1], n.Scale[2]}))
	}
	return m
}

// Parents maps each node to its parent (-1: root).
func (d *Doc) Parents() []int {
	p := make([]int, len(d.Nodes))
	for i := range p {
		p[i] = -1
	}
	for i, n := range d.Nodes {
		for _, c := range n.Children {
			if c >= 0 && c < len(p) {
				p[c] = i
			}
		}
	}
	return p
}

// World is a node's transformation in the scene.
func (d *Doc) World(i int) gen.M {
	par := d.Parents()
	m := d.Local(i)
	for k, n := par[i], 0; k >= 0 && n <= len(par); k, n = par[k], n+1 {
		m = d.Local(k).Mul(m)
	}
	return m
}

// Validate checks the rules of the specification that this package covers. It
// returns all problems found.
func (d *Doc) Validate() []string {
	var errs []string
	bad := func(f string, a ...interface{}) {
		if len(errs) < 20 {
			errs = append(errs, fmt.Sprintf(f, a...))
		}
	}
	if v, _ := d.Asset["version"].(string); v != "2.0" {
		bad("asset.version %q", v)
	}
	for _, key := range []string{"scenes", "nodes", "meshes", "skins", "accessors", "bufferViews", "buffers", "materials", "textures", "images", "samplers", "animations", "extensionsUsed", "extensionsRequired"} {
		if l, ok := d.Raw[key].([]interface{}); ok && len(l) == 0 {
			bad("%s is an empty array", key)
		}
	}
	finite := func(what string, v []float64) {
		for _, x := range v {
			if math.IsNaN(x) || math.IsInf(x, 0) {
				bad("%s has a non-finite value %v", what, v)
				return
			}
		}
	}
	if d.Scene != nil && (*d.Scene < 0 || *d.Scene >= len(d.Scenes)) {
		bad("scene %d does not exist", *d.Scene)
	}
	// node forest
	parents := make([]int, len(d.Nodes))
	for i := range parents {
		parents[i] = -1
	}
	for i, n := range d.Nodes {
		for _, c := range n.Children {
			if c < 0 || c >= len(d.Nodes) {
				bad("node %d: child %d does not exist", i, c)
				continue
			}
			if parents[c] >= 0 {
				bad("node %d has the parents %d and %d", c, parents[c], i)
			}
			parents[c] = i
		}
		if n.Mesh != nil && (*n.Mesh < 0 || *n.Mesh >= len(d.Meshes)) {
			bad("node %d: mesh %d does not exist", i, *n.Mesh)
		}
		if n.Skin != nil {
			if *n.Skin < 0 || *n.Skin >= len(d.Skins) {
				bad("node %d: skin %d does not exist", i, *n.Skin)
			}
			if n.Mesh == nil {
				bad("node %d has a skin but no mesh", i)
			} else if *n.Mesh >= 0 && *n.Mesh < len(d.Meshes) {
				for _, p := range d.Meshes[*n.Mesh].Primitives {
					if _, ok := p.Attributes["JOINTS_0"]; !ok {
						bad("node %d is skinned but mesh %d has no joints", i, *n.Mesh)
					}
				}
			}
		}
		if n.Camera != nil && (*n.Camera < 0 || *n.Camera >= len(d.Cameras)) {
			bad("node %d: camera", i)
		}
		if len(n.Matrix) != 0 {
			if len(n.Matrix) != 16 {
				bad("node %d: matrix", i)
			}
			if n.Translation != nil || n.Rotation != nil || n.Scale != nil {
				bad("node %d has a matrix and TRS", i)
			}
		}
		finite(fmt.Sprintf("node %d", i), append(append(append(append([]float64{}, n.Matrix...), n.Translation...), n.Rotation...), n.Scale...))
		if len(n.Rotation) == 4 {
			s := 0.0
			for _, x := range n.Rotation {
				s += x * x
			}
			if math.Abs(s-1) > 1e-3 {
				bad("node %d: rotation %v is not a unit quaternion", i, n.Rotation)
			}
		}
	}
	for i := range d.Nodes {
		k, steps := i, 0
		for k >= 0 && steps <= len(d.Nodes) {
			k = parents[k]
			steps++
		}
		if steps > len(d.Nodes) {
			bad("node %d is in a cycle", i)
		}
	}
	for i, s := range d.Scenes {
		seen := map[int]bool{}
		for _, n := range s.Nodes {
			if n < 0 || n >= len(d.Nodes) {
				bad("scene %d: node %d does not exist", i, n)
				continue
			}
			if seen[n] {
				bad("scene %d lists node %d twice", i, n)
			}
			seen[n] = true
			if parents[n] >= 0 {
				bad("scene %d: node %d is not a root", i, n)
			}
		}
	}
	// buffers
	for i := range d.BufferViews {
		if _, err := d.View(i); err != nil {
			bad("%v", err)
		}
		bv := d.BufferViews[i]
		if bv.ByteStride != 0 && (bv.ByteStride < 4 || bv.ByteStride > 252 || bv.ByteStride%4 != 0) {
			bad("bufferView %d: byteStride %d", i, bv.ByteStride)
		}
	}
	data := map[int][][]float64{}
	get := func(i int) [][]float64 {
		if v, ok := data[i]; ok {
			return v
		}
		v, err := d.Read(i)
		if err != nil {
			bad("%v", err)
		}
		data[i] = v
		return v
	}
	for i, a := range d.Accessors {
		v := get(i)
		for _, x := range v {
			finite(fmt.Sprintf("accessor %d", i), x)
		}
		if len(a.Min) > 0 || len(a.Max) > 0 {
			n := typeCount[a.Type]
			if len(a.Min) != n || len(a.Max) != n {
				bad("accessor %d: min/max have %d/%d values", i, len(a.Min), len(a.Max))
				continue
			}
			for j := 0; j < n && len(v) > 0; j++ {
				lo, hi := math.Inf(1), math.Inf(-1)
				for _, x := range v {
					lo, hi = math.Min(lo, x[j]), math.Max(hi, x[j])
				}
				if float32(lo) != float32(a.Min[j]) || float32(hi) != float32(a.Max[j]) {
					bad("accessor %d: component %d is in [%v,%v], min/max say [%v,%v]", i, j, lo, hi, a.Min[j], a.Max[j])
				}
			}
		}
	}
	skinOf := map[int][]int{}
	for _, n := range d.Nodes {
		if n.Mesh != nil && n.Skin != nil {
			skinOf[*n.Mesh] = append(skinOf[*n.Mesh], *n.Skin)
		}
	}
	for mi, m := range d.Meshes {
		if len(m.Primitives) == 0 {
			bad("mesh %d has no primitives", mi)
		}
		nt := -1
		for pi, p := range m.Primitives {
			where := fmt.Sprintf("mesh %d primitive %d", mi, pi)
			count := -1
			if _, ok := p.Attributes["POSITION"]; !ok {
				bad("%s has no POSITION", where)
			}
			var names []string
			for k := range p.Attributes {
				names = append(names, k)
			}
			sort.Strings(names)
			for _, k := range names {
				ai := p.Attributes[k]
				v := get(ai)
				if v == nil {
					continue
				}
				a := d.Accessors[ai]
				if count < 0 {
					count = a.Count
				}
				if a.Count != count {
					bad("%s: %s has %d elements, want %d", where, k, a.Count, count)
				}
				want := map[string]string{"POSITION": "VEC3 5126", "NORMAL": "VEC3 5126", "TANGENT": "VEC4 5126"}[k]
				if got := fmt.Sprintf("%s %d", a.Type, a.ComponentType); want != "" && got != want {
					bad("%s: %s is %s", where, k, got)
				}
				if k == "POSITION" && len(a.Min) != 3 {
					bad("%s: POSITION has no min/max", where)
				}
				if strings.HasPrefix(k, "TEXCOORD_") && a.Type != "VEC2" {
					bad("%s: %s is %s", where, k, a.Type)
				}
				if strings.HasPrefix(k, "JOINTS_") {
					if a.Type != "VEC4" || a.ComponentType != 5121 && a.ComponentType != 5123 {
						bad("%s: %s is %s %d", where, k, a.Type, a.ComponentType)
					}
					for _, s := range skinOf[mi] {
						for _, x := range v {
							for _, j := range x {
								if s >= 0 && s < len(d.Skins) && int(j) >= len(d.Skins[s].Joints) {
									bad("%s: joint %v, skin %d has %d", where, j, s, len(d.Skins[s].Joints))
								}
							}
						}
					}
				}
				if strings.HasPrefix(k, "WEIGHTS_") && a.Type != "VEC4" {
					bad("%s: %s is %s", where, k, a.Type)
				}
				if bvi := a.BufferView; bvi != nil && *bvi < len(d.BufferViews) {
					bv := d.BufferViews[*bvi]
					stride := bv.ByteStride
					if stride == 0 {
						stride = compSize[a.ComponentType] * typeCount[a.Type]
					}
					if stride%4 != 0 || a.ByteOffset%4 != 0 || bv.ByteOffset%4 != 0 {
						bad("%s: %s is not 4-byte aligned (stride %d offset %d+%d)", where, k, stride, bv.ByteOffset, a.ByteOffset)
					}
				}
			}
			if (p.Attributes["JOINTS_0"] != 0) != (p.Attributes["WEIGHTS_0"] != 0) {
				_, j := p.Attributes["JOINTS_0"]
				_, w := p.Attributes["WEIGHTS_0"]
				if j != w {
					bad("%s: joints without weights or weights without joints", where)
				}
			}
			n := count
			if p.Indices != nil {
				v := get(*p.Indices)
				if v != nil {
					a := d.Accessors[*p.Indices]
					if a.Type != "SCALAR" || a.ComponentType != 5121 && a.ComponentType != 5123 && a.ComponentType != 5125 {
						bad("%s: indices are %s %d", where, a.Type, a.ComponentType)
					}
					n = len(v)
					for _, x := range v {
						if int(x[0]) >= count {
							bad("%s: index %v, there are %d vertices", where, x[0], count)
							break
						}
					}
				}
			}
			if p.Mode == nil || *p.Mode == 4 {
				if n%3 != 0 || n == 0 {
					bad("%s: %d indices for triangles", where, n)
				}
			}
			if p.Material != nil && (*p.Material < 0 || *p.Material >= len(d.Materials)) {
				bad("%s: material %d does not exist", where, *p.Material)
			}
			if nt < 0 {
				nt = len(p.Targets)
			}
			if len(p.Targets) != nt {
				bad("%s has %d morph targets, another primitive %d", where, len(p.Targets), nt)
			}
			for ti, t := range p.Targets {
				for k, ai := range t {
					v := get(ai)
					if _, ok := p.Attributes[k]; !ok {
						bad("%s: target %d has %s, the base does not", where, ti, k)
					}
					if v != nil && (len(v) != count || d.Accessors[ai].Type != "VEC3") {
						bad("%s: target %d %s has %d elements (%s), want %d", where, ti, k, len(v), d.Accessors[ai].Type, count)
					}
					if k == "POSITION" && v != nil && len(d.Accessors[ai].Min) != 3 {
						bad("%s: target %d POSITION has no min/max", where, ti)
					}
				}
			}
		}
		if names, ok := m.Extras["targetNames"].([]interface{}); ok && len(names) != nt {
			bad("mesh %d: %d target names for %d targets", mi, len(names), nt)
		}
		if len(m.Weights) > 0 && len(m.Weights) != nt {
			bad("mesh %d: %d weights for %d targets", mi, len(m.Weights), nt)
		}
	}
	for i, s := range d.Skins {
		if len(s.Joints) == 0 {
			bad("skin %d has no joints", i)
		}
		seen := map[int]bool{}
		for _, j := range s.Joints {
			if j < 0 || j >= len(d.Nodes) {
				bad("skin %d: joint %d does not exist", i, j)
			}
			if seen[j] {
				bad("skin %d: joint %d is listed twice", i, j)
			}
			seen[j] = true
		}
		if s.Skeleton != nil && (*s.Skeleton < 0 || *s.Skeleton >= len(d.Nodes)) {
			bad("skin %d: skeleton", i)
		}
		if s.IBM != nil {
			v := get(*s.IBM)
			if v != nil {
				a := d.Accessors[*s.IBM]
				if a.Type != "MAT4" || a.ComponentType != 5126 || a.Count < len(s.Joints) {
					bad("skin %d: inverse bind matrices %s %d count %d for %d joints", i, a.Type, a.ComponentType, a.Count, len(s.Joints))
				}
			}
		}
	}
	used := map[string]bool{}
	ext := func(e map[string]json.RawMessage) {
		for k := range e {
			used[k] = true
		}
	}
	tex := func(where string, t *TexInfo) {
		if t != nil {
			if _, err := d.TexImage(t); err != nil {
				bad("%s: %v", where, err)
			}
		}
	}
	for i, m := range d.Materials {
		where := fmt.Sprintf("material %d", i)
		if m.PBR != nil {
			tex(where, m.PBR.BaseColorTexture)
			tex(where, m.PBR.MetallicRoughnessTexture)
			if m.PBR.BaseColorFactor != nil && len(m.PBR.BaseColorFactor) != 4 {
				bad("%s: baseColorFactor", where)
			}
			for _, x := range append(append([]float64{}, m.PBR.BaseColorFactor...), opt(m.PBR.MetallicFactor, 0), opt(m.PBR.RoughnessFactor, 0)) {
				if !(x >= 0 && x <= 1) {
					bad("%s: factor %v", where, x)
				}
			}
		}
		tex(where, m.NormalTexture)
		tex(where, m.OcclusionTexture)
		tex(where, m.EmissiveTexture)
		for _, x := range m.EmissiveFactor {
			if !(x >= 0 && x <= 1) {
				bad("%s: emissiveFactor %v", where, m.EmissiveFactor)
			}
		}
		switch m.AlphaMode {
		case "", "OPAQUE", "MASK", "BLEND":
		default:
			bad("%s: alphaMode %q", where, m.AlphaMode)
		}
		if m.AlphaCutoff != nil && m.AlphaMode != "MASK" {
			bad("%s: alphaCutoff without MASK", where)
		}
		ext(m.Extensions)
		for name, raw := range m.Extensions {
			var e map[string]interface{}
			if json.Unmarshal(raw, &e) != nil {
				bad("%s: extension %s is not an object", where, name)
			}
			for k, v := range e {
				if o, ok := v.(map[string]interface{}); ok && strings.HasSuffix(k, "Texture") {
					f, ok := o["index"].(float64)
					n := int(f)
					if !ok {
						bad("%s: %s.%s has no index", where, name, k)
						continue
					}
					tex(where+" "+name+"."+k, &TexInfo{Index: &n})
				}
			}
		}
	}
	for i := range d.Textures {
		n := i
		tex("textures", &TexInfo{Index: &n})
	}
	for i, im := range d.Images {
		b, err := d.ImageBytes(i)
		if err != nil {
			bad("image %d: %v", i, err)
			continue
		}
		if im.BufferView != nil && im.MimeType == "" || im.BufferView != nil && im.URI != "" {
			bad("image %d: mimeType %q uri %q", i, im.MimeType, im.URI)
		}
		switch im.MimeType {
		case "image/png":
			_, err = png.DecodeConfig(bytes.NewReader(b))
		case "image/jpeg":
			_, err = jpeg.DecodeConfig(bytes.NewReader(b))
		case "":
		default:
			bad("image %d: mimeType %q", i, im.MimeType)
		}
		if err != nil {
			bad("image %d is not %s: %v", i, im.MimeType, err)
		}
	}
	for _, n := range d.Nodes {
		ext(n.Extensions)
	}
	ext(d.Extensions)
	list := map[string]bool{}
	for _, e := range d.ExtensionsUsed {
		if list[e] {
			bad("extensionsUsed lists %s twice", e)
		}
		list[e] = true
	}
	for e := range used {
		if !list[e] {
			bad("extension %s is used but not declared", e)
		}
	}
	for _, e := range d.ExtensionsRequired {
		if !list[e] {
			bad("extension %s is required but not declared as used", e)
		}
	}
	for i, a := range d.Animations {
		if len(a.Channels) == 0 || len(a.Samplers) == 0 {
			bad("animation %d has %d channels and %d samplers", i, len(a.Channels), len(a.Samplers))
		}
		for k, s := range a.Samplers {
			in, out := get(s.Input), get(s.Output)
			if in == nil || out == nil {
				continue
			}
			if d.Accessors[s.Input].Type != "SCALAR" || d.Accessors[s.Input].ComponentType != 5126 || len(d.Accessors[s.Input].Min) != 1 {
				bad("animation %d sampler %d: input %+v", i, k, d.Accessors[s.Input])
			}
			for j := range in {
				if j > 0 && in[j][0] <= in[j-1][0] || in[j][0] < 0 {
					bad("animation %d sampler %d: times are not increasing: %v", i, k, in)
					break
				}
			}
		}
		seen := map[string]bool{}
		for k, ch := range a.Channels {
			if ch.Sampler < 0 || ch.Sampler >= len(a.Samplers) {
				bad("animation %d channel %d: sampler %d", i, k, ch.Sampler)
				continue
			}
			if ch.Target.Node == nil || *ch.Target.Node < 0 || *ch.Target.Node >= len(d.Nodes) {
				bad("animation %d channel %d: no node", i, k)
				continue
			}
			s := a.Samplers[ch.Sampler]
			in, out := get(s.Input), get(s.Output)
			key := fmt.Sprint(*ch.Target.Node, ch.Target.Path)
			if seen[key] {
				bad("animation %d has two channels for %s", i, key)
			}
			seen[key] = true
			per := 1
			want := "VEC3"
			switch ch.Target.Path {
			case "translation", "scale":
			case "rotation":
				want = "VEC4"
			case "weights":
				want = "SCALAR"
				per = 0
				if mi := d.Nodes[*ch.Target.Node].Mesh; mi != nil && len(d.Meshes[*mi].Primitives) > 0 {
					per = len(d.Meshes[*mi].Primitives[0].Targets)
				}
				if per == 0 {
					bad("animation %d channel %d animates weights of a node without morph targets", i, k)
				}
			default:
				bad("animation %d channel %d: path %q", i, k, ch.Target.Path)
			}
			if s.Interpolation == "CUBICSPLINE" {
				per *= 3
			}
			if in != nil && out != nil && (d.Accessors[s.Output].Type != want || len(out) != per*len(in)) {
				bad("animation %d channel %d: %d outputs of %s for %d inputs (%s)", i, k, len(out), d.Accessors[s.Output].Type, len(in), ch.Target.Path)
			}
			if ch.Target.Path == "rotation" && s.Interpolation != "CUBICSPLINE" {
				for _, q := range out {
					l := 0.0
					for _, x := range q {
						l += x * x
					}
					if math.Abs(l-1) > 1e-3 {
						bad("animation %d channel %d: rotation %v", i, k, q)
						break
					}
				}
			}
		}
	}
	return errs
}

func opt(f *float64, def float64) float64 {
	if f == nil {
		return def
	}
	return *f
}
