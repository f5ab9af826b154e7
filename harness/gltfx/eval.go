package gltfx

import (
	"encoding/json"
	"fmt"

	"verif/harness/gen"
)

// FromJSON builds a document from its JSON text and the bytes of its buffers.
func FromJSON(js []byte, bufs [][]byte, dir string) (*Doc, error) {
	d := &Doc{Dir: dir, Data: bufs}
	if err := json.Unmarshal(js, d); err != nil {
		return nil, err
	}
	if err := json.Unmarshal(js, &d.Raw); err != nil {
		return nil, err
	}
	for i, b := range d.Buffers {
		if i >= len(bufs) || len(bufs[i]) < b.ByteLength {
			return nil, fmt.Errorf("buffer %d has %d bytes, byteLength %d", i, len(bufs[i]), b.ByteLength)
		}
	}
	return d, nil
}

// Prim is a primitive as it appears in the scene.
type Prim struct {
	Pos      []gen.P3
	Targets  [][]gen.P3 // with one target fully applied
	Normals  []gen.P3   // not normalised; nil: none
	UV       [][]float64
	Tris     [][3]int
	Material int
	Mode     int
	Mats     []gen.M // transformation of each vertex
}

// Norm returns accessor elements as numbers in [0,1] or [-1,1] if normalized.
func (d *Doc) Norm(i int) ([][]float64, error) {
	v, err := d.Read(i)
	if err != nil || !d.Accessors[i].Normalized {
		return v, err
	}
	k := map[int]float64{5120: 127, 5121: 255, 5122: 32767, 5123: 65535}[d.Accessors[i].ComponentType]
	for _, x := range v {
		for j := range x {
			x[j] /= k
			if x[j] < -1 {
				x[j] = -1
			}
		}
	}
	return v, nil
}

// Worlds returns the transformations of all nodes, given their local ones.
func (d *Doc) Worlds(local func(int) gen.M) []gen.M {
	par := d.Parents()
	r := make([]gen.M, len(d.Nodes))
	for i := range r {
		m := local(i)
		for k, n := par[i], 0; k >= 0 && n <= len(par); k, n = par[k], n+1 {
			m = local(k).Mul(m)
		}
		r[i] = m
	}
	return r
}

func p3s(v [][]float64) []gen.P3 {
	r := make([]gen.P3, len(v))
	for i, x := range v {
		r[i] = gen.P3{x[0], x[1], x[2]}
	}
	return r
}

// Prims evaluates the mesh of a node in a pose (world transformations).
func (d *Doc) Prims(node int, worlds []gen.M) ([]Prim, error) {
	n := d.Nodes[node]
	if n.Mesh == nil {
		return nil, nil
	}
	var out []Prim
	for _, p := range d.Meshes[*n.Mesh].Primitives {
		raw, err := d.Read(p.Attributes["POSITION"])
		if err != nil {
			return nil, err
		}
		pos := p3s(raw)
		r := Prim{Material: -1, Mode: 4}
		if p.Material != nil {
			r.Material = *p.Material
		}
		if p.Mode != nil {
			r.Mode = *p.Mode
		}
		r.Mats = make([]gen.M, len(pos))
		for i := range r.Mats {
			r.Mats[i] = worlds[node]
		}
		if n.Skin != nil {
			s := d.Skins[*n.Skin]
			ibm := make([]gen.M, len(s.Joints))
			for i := range ibm {
				ibm[i] = gen.Ident4()
			}
			if s.IBM != nil {
				v, err := d.Read(*s.IBM)
				if err != nil {
					return nil, err
				}
				for i := range ibm {
					copy(ibm[i][:], v[i])
				}
			}
			js, err := d.Read(p.Attributes["JOINTS_0"])
			if err != nil {
				return nil, err
			}
			ws, err := d.Norm(p.Attributes["WEIGHTS_0"])
			if err != nil {
				return nil, err
			}
			for i := range r.Mats {
				var m gen.M
				for k := range js[i] {
					j := int(js[i][k])
					if j >= len(ibm) {
						return nil, fmt.Errorf("joint %d of %d", j, len(ibm))
					}
					x := worlds[s.Joints[j]].Mul(ibm[j])
					for e := range m {
						m[e] += ws[i][k] * x[e]
					}
				}
				r.Mats[i] = m
			}
		}
		for i, x := range pos {
			r.Pos = append(r.Pos, r.Mats[i].Apply(x))
		}
		for _, t := range p.Targets {
			v, err := d.Read(t["POSITION"])
			if err != nil {
				return nil, err
			}
			var tp []gen.P3
			for i, x := range p3s(v) {
				tp = append(tp, r.Mats[i].Apply(pos[i].Add(x)))
			}
			r.Targets = append(r.Targets, tp)
		}
		if a, ok := p.Attributes["NORMAL"]; ok {
			v, err := d.Read(a)
			if err != nil {
				return nil, err
			}
			for i, x := range p3s(v) {
				r.Normals = append(r.Normals, r.Mats[i].Normal(x))
			}
		}
		if a, ok := p.Attributes["TEXCOORD_0"]; ok {
			if r.UV, err = d.Norm(a); err != nil {
				return nil, err
			}
		}
		var idx []int
		if p.Indices != nil {
			v, err := d.Read(*p.Indices)
			if err != nil {
				return nil, err
			}
			for _, x := range v {
				idx = append(idx, int(x[0]))
			}
		} else {
			idx = seq(len(pos))
		}
		if r.Mode == 4 {
			for i := 0; i+2 < len(idx); i += 3 {
				r.Tris = append(r.Tris, [3]int{idx[i], idx[i+1], idx[i+2]})
			}
		}
		out = append(out, r)
	}
	return out, nil
}
