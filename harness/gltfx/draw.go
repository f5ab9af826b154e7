package gltfx

import (
	"encoding/base64"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"math"
	"net/url"
	"os"
	"path/filepath"
	"strings"

	"pgregory.net/rapid"

	"verif/harness/gen"
)

// DrawOpts bounds what Draw generates.
type DrawOpts struct {
	MaxNodes     int
	MaxMeshes    int
	MaxPrims     int
	MaxSkins     int
	Targets      bool
	Animations   bool
	Images       bool
	Rotations    bool // nodes may be rotated
	Matrix       bool // nodes may use matrices
	NodeScale    int  // 0: none, 1: uniform, 2: any
	FreeBind     bool // inverse bind matrices need not undo the rest pose
	UniformBind  bool // bind matrices are built from uniform scales
	SharedLayout bool // accessors may share views, be interleaved, live in several buffers
	Chain        bool // long node chains
	Names        func(t *gen.T, n string) string
	Modes        bool // primitives other than triangles
	MatExt       bool
	Mirror       bool // nodes may be mirrored
	PlainBind    bool // skins undo the rest pose exactly
	Sparse       bool // accessors may be sparse
}

// FullDraw is the widest profile.
func FullDraw() DrawOpts {
	return DrawOpts{MaxNodes: 7, MaxMeshes: 3, MaxPrims: 2, MaxSkins: 2, Targets: true, Animations: true, Images: true, Rotations: true,
		Matrix: true, NodeScale: 1, SharedLayout: true, Sparse: true, Names: gen.ConvName}
}

// Drawn is a generated file set.
type Drawn struct {
	JSON    M
	Bufs    [][]byte
	Files   map[string][]byte // picture files by (unescaped) path
	Missing bool              // some picture does not exist
	layout  int
	big     int // view for everything, -1: none yet
}

type view struct {
	buf, off, length, stride int
}

func f32(x float64) float64 { return float64(float32(x)) }

type builder struct {
	t   *gen.T
	o   DrawOpts
	d   *Drawn
	acc []M
	vw  []M
	lay int          // 0: a view each, 1: one view for several accessors of an element size, 2: interleaved
	src map[int]attr // values of dense accessors
}

func (b *builder) alloc(n int) (int, int) {
	k := 0
	if len(b.d.Bufs) > 1 {
		k = rapid.IntRange(0, len(b.d.Bufs)-1).Draw(b.t, "buf")
	}
	return k, b.allocIn(k, n)
}

func (b *builder) allocIn(k, n int) int {
	for len(b.d.Bufs[k])%4 != 0 {
		b.d.Bufs[k] = append(b.d.Bufs[k], 0xEE)
	}
	for j := rapid.IntRange(0, 2).Draw(b.t, "gap"); j > 0; j-- {
		b.d.Bufs[k] = append(b.d.Bufs[k], 0xEE, 0xEE, 0xEE, 0xEE)
	}
	off := len(b.d.Bufs[k])
	b.d.Bufs[k] = append(b.d.Bufs[k], make([]byte, n)...)
	return off
}

func put(dst []byte, ct int, v float64) {
	le := binary.LittleEndian
	switch ct {
	case 5120, 5121:
		dst[0] = byte(int(v))
	case 5122, 5123:
		le.PutUint16(dst, uint16(int(v)))
	case 5125:
		le.PutUint32(dst, uint32(v))
	case 5126:
		le.PutUint32(dst, math.Float32bits(float32(v)))
	}
}

type attr struct {
	ct    int
	typ   string
	vals  [][]float64
	mm    bool // with min and max
	norm  bool
	idx   bool // not a vertex attribute
	dense bool // never sparse
}

func (a attr) size() int { return compSize[a.ct] * typeCount[a.typ] }

func (b *builder) accessor(a attr, viewIdx, byteOffset int) int {
	m := M{"bufferView": viewIdx, "componentType": a.ct, "count": len(a.vals), "type": a.typ}
	if byteOffset != 0 || gen.Chance(b.t, "explicit0", 4) {
		m["byteOffset"] = byteOffset
	}
	if a.norm {
		m["normalized"] = true
	}
	if a.mm {
		n := typeCount[a.typ]
		lo, hi := make([]float64, n), make([]float64, n)
		for j := 0; j < n; j++ {
			lo[j], hi[j] = math.Inf(1), math.Inf(-1)
			for _, v := range a.vals {
				lo[j], hi[j] = math.Min(lo[j], f32(v[j])), math.Max(hi[j], f32(v[j]))
			}
		}
		m["min"], m["max"] = lo, hi
	}
	b.acc = append(b.acc, m)
	if b.src == nil {
		b.src = map[int]attr{}
	}
	b.src[len(b.acc)-1] = a
	return len(b.acc) - 1
}

func (b *builder) view(buf, off, n, stride int) int {
	m := M{"buffer": buf, "byteLength": n}
	if off != 0 || gen.Chance(b.t, "explicit0", 4) {
		m["byteOffset"] = off
	}
	if stride != 0 {
		m["byteStride"] = stride
	}
	b.vw = append(b.vw, m)
	return len(b.vw) - 1
}

// plain reports whether an accessor has all its data in a view.
func (b *builder) plain(id int) bool {
	return b.acc[id]["bufferView"] != nil && b.acc[id]["sparse"] == nil
}

// prefix returns an accessor for the first n elements of another one.
func (b *builder) prefix(id, n int) int {
	a := b.src[id]
	a.vals = a.vals[:n]
	off, _ := b.acc[id]["byteOffset"].(int)
	return b.accessor(a, b.acc[id]["bufferView"].(int), off)
}

// store lays out attributes of equal length and returns their accessors.
func (b *builder) store(as ...attr) []int {
	out := make([]int, len(as))
	pad := func(n int) int { return (n + 3) / 4 * 4 }
	if len(as) > 1 && b.lay == 2 && gen.Bool(b.t, "interleave") {
		stride := 0
		offs := make([]int, len(as))
		for i, a := range as {
			offs[i] = stride
			stride += pad(a.size())
		}
		n := len(as[0].vals)
		k, off := b.alloc(stride * n)
		v := b.view(k, off, stride*n, stride)
		for i, a := range as {
			for e, x := range a.vals {
				for j, y := range x {
					put(b.d.Bufs[k][off+e*stride+offs[i]+j*compSize[a.ct]:], a.ct, y)
				}
			}
			out[i] = b.accessor(a, v, offs[i])
		}
		return out
	}
	// sizes of the single pieces
	at := func(k, off, step int, a attr) {
		for e, x := range a.vals {
			for j, y := range x {
				put(b.d.Bufs[k][off+e*step+j*compSize[a.ct]:], a.ct, y)
			}
		}
	}
	if b.lay >= 1 && len(as) > 1 && gen.Bool(b.t, "oneview") {
		// attributes with the same element size one after another in a view
		groups := map[int][]int{}
		var order []int
		for i, a := range as {
			s := pad(a.size())
			if groups[s] == nil {
				order = append(order, s)
			}
			groups[s] = append(groups[s], i)
		}
		for _, s := range order {
			total := 0
			var offs []int
			for _, i := range groups[s] {
				if gen.Chance(b.t, "lead", 3) {
					total += s
				}
				offs = append(offs, total)
				total += s * len(as[i].vals)
			}
			k, off := b.alloc(total)
			stride := 0
			for _, i := range groups[s] {
				if as[i].size() != s || gen.Bool(b.t, "stride") {
					stride = s
				}
			}
			v := b.view(k, off, total, stride)
			for gi, i := range groups[s] {
				at(k, off+offs[gi], s, as[i])
				out[i] = b.accessor(as[i], v, offs[gi])
			}
		}
		return out
	}
	for i, a := range as {
		if b.o.Sparse && !a.dense && gen.Chance(b.t, "sparse", 4) {
			out[i] = b.sparse(a)
			continue
		}
		s := a.size()
		stride := 0
		if !a.idx && s%4 != 0 {
			s = pad(s)
			stride = s
		} else if !a.idx && gen.Chance(b.t, "stride", 4) {
			if gen.Bool(b.t, "widestride") {
				s += 4
			}
			stride = s
		}
		lead := 0
		if b.lay >= 1 && gen.Chance(b.t, "lead", 3) {
			lead = 4 * rapid.IntRange(1, 4).Draw(b.t, "leadn")
			if a.typ == "MAT4" {
				lead = 64
			}
		}
		total := lead + s*len(a.vals)
		k, off := b.alloc(total)
		at(k, off+lead, s, a)
		out[i] = b.accessor(a, b.view(k, off, total, stride), lead)
	}
	return out
}

// sparse stores some of the elements apart from the others, which may all be
// zero.
func (b *builder) sparse(a attr) int {
	t := b.t
	base := attr{ct: a.ct, typ: a.typ, idx: a.idx, norm: a.norm, dense: true}
	zero := gen.Bool(t, "sparsezero")
	var at [][]float64
	vals := attr{ct: a.ct, typ: a.typ, idx: true, dense: true}
	for i, v := range a.vals {
		isZero := true
		for _, x := range v {
			isZero = isZero && x == 0
		}
		if zero && !isZero || gen.Chance(t, "sparseelement", 3) {
			at = append(at, []float64{float64(i)})
			vals.vals = append(vals.vals, v)
			w := make([]float64, len(v))
			for j := range w {
				w[j] = float64(gen.Int(t, "sparsebase", 0, 3))
			}
			v = w
		}
		base.vals = append(base.vals, v)
	}
	if len(at) == 0 {
		zero = false
		at, vals.vals = [][]float64{{0}}, a.vals[:1]
	}
	in := attr{ct: 5125, typ: "SCALAR", vals: at, idx: true, dense: true}
	if len(a.vals) < 256 {
		in.ct = rapid.SampledFrom([]int{5121, 5123, 5125}).Draw(t, "sparseindex")
	} else if len(a.vals) < 65536 {
		in.ct = rapid.SampledFrom([]int{5123, 5125}).Draw(t, "sparseindex")
	}
	// part stores tightly packed values in a view
	piece := func(x attr) M {
		lead := 0
		if gen.Bool(t, "lead") {
			lead = 4 * rapid.IntRange(1, 4).Draw(t, "leadn")
		}
		k, off := b.alloc(lead + x.size()*len(x.vals))
		for e, v := range x.vals {
			for j, y := range v {
				put(b.d.Bufs[k][off+lead+e*x.size()+j*compSize[x.ct]:], x.ct, y)
			}
		}
		m := M{"bufferView": b.view(k, off, lead+x.size()*len(x.vals), 0)}
		if lead != 0 || gen.Chance(t, "explicit0", 4) {
			m["byteOffset"] = lead
		}
		return m
	}
	ins := piece(in)
	ins["componentType"] = in.ct
	sp := M{"count": len(at), "indices": ins, "values": piece(vals)}
	id := 0
	if zero {
		id = b.accessor(a, 0, 0)
		delete(b.acc[id], "bufferView")
		delete(b.acc[id], "byteOffset")
	} else {
		id = b.store(base)[0]
		if a.mm {
			x := b.acc[b.accessor(a, 0, 0)]
			b.acc = b.acc[:len(b.acc)-1]
			b.acc[id]["min"], b.acc[id]["max"] = x["min"], x["max"]
		}
	}
	b.acc[id]["sparse"] = sp
	return id
}

func rows(ps []gen.P3) [][]float64 {
	r := make([][]float64, len(ps))
	for i, p := range ps {
		r[i] = []float64{p[0], p[1], p[2]}
	}
	return r
}

// Draw generates a well formed document.
func Draw(t *gen.T, o DrawOpts) *Drawn {
	d := &Drawn{JSON: M{"asset": M{"version": "2.0"}}, Files: map[string][]byte{}}
	b := &builder{t: t, o: o, d: d}
	d.Bufs = [][]byte{nil}
	if o.SharedLayout {
		b.lay = rapid.IntRange(0, 2).Draw(t, "layout")
		if gen.Chance(t, "buffers", 3) {
			d.Bufs = [][]byte{nil, nil}
		}
	}
	// nodes
	nn := rapid.IntRange(1, o.MaxNodes).Draw(t, "nodes")
	if o.Chain && gen.Chance(t, "chain", 3) {
		nn = rapid.IntRange(8, 16).Draw(t, "chainlen")
	}
	parent := make([]int, nn)
	nodes := make([]M, nn)
	names := gen.UniqueNames(t, "node", nn, o.Names)
	local := make([]gen.M, nn)
	for i := range nodes {
		parent[i] = -1
		if i > 0 && !gen.Chance(t, "root", 4) {
			if nn > 8 {
				parent[i] = i - 1
			} else {
				parent[i] = rapid.IntRange(0, i-1).Draw(t, "parent")
			}
		}
		nodes[i] = M{"name": names[i]}
		tr, rot, sc := gen.Ident4(), gen.Ident4(), gen.Ident4()
		hasT, hasR := gen.Bool(t, "hasT"), o.Rotations && gen.Bool(t, "hasR")
		if hasT {
			p := gen.Pt(t, "t", 5)
			nodes[i]["translation"] = p[:]
			tr = gen.TransM(p)
		}
		if hasR {
			q := gen.QuatOf(gen.RotM(t, "r"))
			for j := range q {
				q[j] = f32(q[j])
			}
			nodes[i]["rotation"] = q[:]
			rot = gen.QuatM(q[0], q[1], q[2], q[3])
		}
		if o.NodeScale > 0 && gen.Chance(t, "hasS", 3) {
			s := gen.P3{1, 1, 1}
			s[0] = rapid.SampledFrom([]float64{0.5, 2, 0.01, 100, 1.25}).Draw(t, "s")
			s[1], s[2] = s[0], s[0]
			if o.NodeScale > 1 && gen.Bool(t, "nonuniform") {
				s[1] = rapid.SampledFrom([]float64{0.5, 2, 3}).Draw(t, "sy")
			}
			if o.Mirror && gen.Chance(t, "mirror", 3) {
				k := rapid.IntRange(0, 2).Draw(t, "maxis")
				s[k] = -s[k]
			}
			for j := range s {
				s[j] = f32(s[j])
			}
			nodes[i]["scale"] = s[:]
			sc = gen.ScaleM(s)
		}
		local[i] = tr.Mul(rot).Mul(sc)
		if o.Matrix && gen.Chance(t, "matrix", 4) {
			for j := range local[i] {
				local[i][j] = f32(local[i][j])
			}
			nodes[i] = M{"name": names[i], "matrix": append([]float64{}, local[i][:]...)}
		}
	}
	world := make([]gen.M, nn)
	for i := range world {
		world[i] = local[i]
		if parent[i] >= 0 {
			world[i] = world[parent[i]].Mul(local[i])
		}
	}
	// materials and pictures
	nm := rapid.IntRange(0, 3).Draw(t, "materials")
	var mats, images, textures []M
	matNames := gen.UniqueNames(t, "mat", nm, o.Names)
	ni := 0
	if o.Images {
		ni = rapid.IntRange(0, 3).Draw(t, "images")
	}
	for i := 0; i < ni; i++ {
		ext := rapid.SampledFrom([]string{".png", ".jpg", ".PNG", ".jpeg"}).Draw(t, "imgext")
		im := gen.Image(t, fmt.Sprintf("img%d", i), ext)
		mime := "image/jpeg"
		if strings.EqualFold(ext, ".png") {
			mime = "image/png"
		}
		switch rapid.IntRange(0, 4).Draw(t, "imgkind") {
		case 0:
			images = append(images, M{"uri": "data:" + mime + ";base64," + base64.StdEncoding.EncodeToString(im.Data)})
		case 1:
			k, off := b.alloc(len(im.Data))
			copy(d.Bufs[k][off:], im.Data)
			images = append(images, M{"bufferView": b.view(k, off, len(im.Data), 0), "mimeType": mime})
		default:
			p := rapid.SampledFrom([]string{"", "tex/", "テク/", "a b/", "../img/"}).Draw(t, "imgdir") + rapid.SampledFrom([]string{"", "", "", "data", "a+b", "5%", "x#", "x%2by"}).Draw(t, "imgpre") + fmt.Sprintf("%s%d%s", gen.Ident(t, "imgname"), i, ext)
			u := p
			if gen.Bool(t, "escape") || strings.ContainsAny(p, " %#") {
				u = (&url.URL{Path: p}).EscapedPath()
			}
			x := M{"uri": u}
			if gen.Chance(t, "mime", 3) {
				x["mimeType"] = mime
			}
			images = append(images, x)
			if gen.Chance(t, "missing", 8) {
				d.Missing = true
			} else {
				d.Files[p] = im.Data
			}
		}
		if gen.Bool(t, "imgnamed") {
			images[i]["name"] = gen.Ident(t, "imgn")
		}
		textures = append(textures, M{"source": i})
	}
	for i := 0; i < nm; i++ {
		m := M{"name": matNames[i]}
		if gen.Chance(t, "matunnamed", 8) {
			delete(m, "name")
		}
		pbr := M{}
		if gen.Bool(t, "color") {
			c := gen.Col4(t, "col")
			pbr["baseColorFactor"] = []float64{float64(c.X), float64(c.Y), float64(c.Z), float64(c.W)}
		}
		if gen.Chance(t, "metallic", 3) {
			pbr["metallicFactor"] = float64(gen.U(t, "mf"))
		}
		if gen.Chance(t, "rough", 3) {
			pbr["roughnessFactor"] = float64(gen.U(t, "rf"))
		}
		if ni > 0 && gen.Bool(t, "tex") {
			pbr["baseColorTexture"] = M{"index": rapid.IntRange(0, ni-1).Draw(t, "texi")}
		}
		if len(pbr) > 0 {
			m["pbrMetallicRoughness"] = pbr
		}
		if gen.Bool(t, "double") {
			m["doubleSided"] = true
		}
		switch rapid.IntRange(0, 3).Draw(t, "alpha") {
		case 1:
			m["alphaMode"] = "BLEND"
		case 2:
			m["alphaMode"] = "MASK"
			if gen.Bool(t, "cutoff") {
				m["alphaCutoff"] = float64(gen.U(t, "cut"))
			}
		case 3:
			m["alphaMode"] = "OPAQUE"
		}
		if gen.Chance(t, "emissive", 3) {
			c := gen.Col3(t, "em")
			m["emissiveFactor"] = []float64{float64(c.X), float64(c.Y), float64(c.Z)}
		}
		if o.MatExt && gen.Chance(t, "unlit", 4) {
			m["extensions"] = M{"KHR_materials_unlit": M{}}
		}
		mats = append(mats, m)
	}
	// skins
	var skins []M
	ns := 0
	if o.MaxSkins > 0 {
		ns = rapid.IntRange(0, o.MaxSkins).Draw(t, "skins")
	}
	njoints := make([]int, ns)
	for i := 0; i < ns; i++ {
		if i > 0 && gen.Chance(t, "sameskin", 4) {
			skins = append(skins, skins[i-1])
			njoints[i] = njoints[i-1]
			continue
		}
		if i > 0 && o.SharedLayout && skins[i-1]["inverseBindMatrices"] != nil && gen.Chance(t, "sameibm", 4) {
			// other joints with the same matrices
			joints := append([]int{}, skins[i-1]["joints"].([]int)...)
			if o.FreeBind {
				joints = rapid.Permutation(joints).Draw(t, "samejoints")
			}
			joints = joints[:rapid.IntRange(1, len(joints)).Draw(t, "nsamejoints")]
			skins = append(skins, M{"joints": joints, "inverseBindMatrices": skins[i-1]["inverseBindMatrices"]})
			njoints[i] = len(joints)
			continue
		}
		perm := rapid.Permutation(seq(nn)).Draw(t, "joints")
		joints := perm[:rapid.IntRange(1, nn).Draw(t, "njoints")]
		njoints[i] = len(joints)
		s := M{"joints": joints}
		if !gen.Chance(t, "noibm", 8) || !o.FreeBind {
			bind := gen.Ident4()
			if !o.PlainBind && gen.Chance(t, "bindshape", 3) {
				bind = gen.TransM(gen.Pt(t, "bindt", 3))
			}
			if gen.Chance(t, "baked", 3) && !o.FreeBind {
				bind = gen.Ident4()
			}
			var vals [][]float64
			for _, j := range joints {
				ibm := world[j].Inv().Mul(bind)
				if o.FreeBind && gen.Bool(t, "freebind") {
					ibm = gen.TransM(gen.Pt(t, "ibt", 3))
					if o.Rotations {
						ibm = ibm.Mul(gen.RotM(t, "ibr"))
					}
					ibm = ibm.Mul(gen.ScaleM(gen.P3{2, 2, 2}))
				}
				vals = append(vals, append([]float64{}, ibm[:]...))
			}
			if gen.Chance(t, "extraibm", 5) {
				vals = append(vals, append([]float64{}, vals[0]...))
			}
			s["inverseBindMatrices"] = b.store(attr{ct: 5126, typ: "MAT4", vals: vals, idx: true})[0]
		}
		if gen.Chance(t, "skeleton", 4) {
			s["skeleton"] = joints[0]
		}
		skins = append(skins, s)
	}
	// meshes
	var meshes []M
	nme := rapid.IntRange(0, o.MaxMeshes).Draw(t, "meshes")
	skinned := make([]bool, nme)
	maxJoint := make([]int, nme)
	ntargets := make([]int, nme)
	for i := 0; i < nme; i++ {
		m := M{}
		if gen.Bool(t, "meshname") {
			m["name"] = o.Names(t, "meshn")
		}
		skinned[i] = ns > 0 && gen.Bool(t, "skinned")
		maxJoint[i] = nn
		for _, n := range njoints {
			if n < maxJoint[i] {
				maxJoint[i] = n
			}
		}
		if o.Targets && gen.Bool(t, "targets") {
			ntargets[i] = rapid.IntRange(1, 3).Draw(t, "ntargets")
			if gen.Bool(t, "targetnames") {
				m["extras"] = M{"targetNames": gen.UniqueNames(t, "tn", ntargets[i], o.Names)}
			}
			if gen.Bool(t, "weights") {
				w := make([]float64, ntargets[i])
				for k := range w {
					w[k] = float64(gen.U(t, "w"))
				}
				m["weights"] = w
			}
		}
		var prims []M
		np := rapid.IntRange(1, o.MaxPrims).Draw(t, "prims")
		var shared []int
		var sharedN int
		for k := 0; k < np; k++ {
			p := M{}
			nv := 3 * rapid.IntRange(1, 3).Draw(t, "verts3")
			at := M{}
			if k > 0 && gen.Chance(t, "sharedattr", 4) && shared != nil {
				// same vertices, other indices
				for a, v := range prims[0]["attributes"].(M) {
					at[a] = v
				}
				p["targets"] = prims[0]["targets"]
				if p["targets"] == nil {
					delete(p, "targets")
				}
				nv = sharedN
			} else if k > 0 && o.SharedLayout && gen.Chance(t, "prefix", 3) && b.allPlain(prims[0]) {
				// some of the same vertices
				nv = 3 * rapid.IntRange(1, sharedN/3).Draw(t, "prefix3")
				for _, a := range attrOrder {
					if v, ok := prims[0]["attributes"].(M)[a].(int); ok {
						at[a] = b.prefix(v, nv)
					}
				}
				if ts, ok := prims[0]["targets"].([]M); ok {
					var targets []M
					for _, tg := range ts {
						x := M{}
						for _, a := range attrOrder {
							if v, ok := tg[a].(int); ok {
								x[a] = b.prefix(v, nv)
							}
						}
						targets = append(targets, x)
					}
					p["targets"] = targets
				}
			} else {
				var as []attr
				var keys []string
				pos := make([][]float64, nv)
				for v := range pos {
					x := gen.Pt(t, "pos", 10)
					pos[v] = x[:]
				}
				as, keys = append(as, attr{ct: 5126, typ: "VEC3", vals: pos, mm: true}), append(keys, "POSITION")
				if gen.Bool(t, "normals") {
					ns := make([][]float64, nv)
					for v := range ns {
						x := gen.Pt(t, "nrm", 1)
						if x.Len() < 0.1 {
							x = gen.P3{0, 0, 1}
						}
						x = x.Norm()
						ns[v] = []float64{f32(x[0]), f32(x[1]), f32(x[2])}
					}
					as, keys = append(as, attr{ct: 5126, typ: "VEC3", vals: ns}), append(keys, "NORMAL")
				}
				if gen.Bool(t, "uvs") {
					a := attr{ct: rapid.SampledFrom([]int{5126, 5126, 5121, 5123}).Draw(t, "uvct"), typ: "VEC2"}
					for v := 0; v < nv; v++ {
						x := gen.V2(t, "uv", 1)
						u := []float64{float64(x.X), float64(x.Y)}
						if a.ct != 5126 {
							a.norm = true
							m := 255.0
							if a.ct == 5123 {
								m = 65535
							}
							u = []float64{math.Floor(math.Abs(u[0]) * m), math.Floor(math.Abs(u[1]) * m)}
						}
						a.vals = append(a.vals, u)
					}
					as, keys = append(as, a), append(keys, "TEXCOORD_0")
				}
				if skinned[i] {
					j := attr{ct: rapid.SampledFrom([]int{5121, 5123}).Draw(t, "jct"), typ: "VEC4"}
					w := attr{ct: rapid.SampledFrom([]int{5126, 5121, 5123}).Draw(t, "wct"), typ: "VEC4"}
					one := 1.0
					if w.ct != 5126 {
						w.norm = true
						one = map[int]float64{5121: 255, 5123: 65535}[w.ct]
					}
					for v := 0; v < nv; v++ {
						var js, ws [4]float64
						rest := 64
						for x := 0; x < 4; x++ {
							js[x] = float64(rapid.IntRange(0, maxJoint[i]-1).Draw(t, "j"))
							k := rest
							if x < 3 {
								k = rapid.IntRange(0, rest).Draw(t, "wv")
							}
							rest -= k
							ws[x] = math.Floor(one*float64(k)/64 + 0.001)
							if w.ct == 5126 {
								ws[x] = float64(k) / 64
							}
						}
						if w.ct != 5126 {
							ws[0] += one - ws[0] - ws[1] - ws[2] - ws[3]
						}
						j.vals, w.vals = append(j.vals, append([]float64{}, js[:]...)), append(w.vals, append([]float64{}, ws[:]...))
					}
					as, keys = append(as, j, w), append(keys, "JOINTS_0", "WEIGHTS_0")
				}
				for a, x := range b.store(as...) {
					at[keys[a]] = x
				}
				var targets []M
				for k := 0; k < ntargets[i]; k++ {
					off := make([][]float64, nv)
					for v := range off {
						x := gen.Pt(t, "off", 2)
						if gen.Bool(t, "still") {
							x = gen.P3{}
						}
						off[v] = x[:]
					}
					if o.Sparse && gen.Chance(t, "zeros", 6) {
						// no data: all zero
						for v := range off {
							off[v] = []float64{0, 0, 0}
						}
						id := b.accessor(attr{ct: 5126, typ: "VEC3", vals: off, mm: true}, 0, 0)
						delete(b.acc[id], "bufferView")
						delete(b.acc[id], "byteOffset")
						targets = append(targets, M{"POSITION": id})
						continue
					}
					if o.SharedLayout && k > 0 && gen.Chance(t, "sametarget", 6) {
						targets = append(targets, M{"POSITION": targets[k-1]["POSITION"]})
						continue
					}
					tg := M{"POSITION": b.store(attr{ct: 5126, typ: "VEC3", vals: off, mm: true})[0]}
					if at["NORMAL"] != nil && gen.Chance(t, "targetnormal", 3) {
						nd := make([][]float64, nv)
						for v := range nd {
							x := gen.Pt(t, "noff", 1)
							nd[v] = x[:]
						}
						tg["NORMAL"] = b.store(attr{ct: 5126, typ: "VEC3", vals: nd})[0]
					}
					targets = append(targets, tg)
				}
				if len(targets) > 0 {
					p["targets"] = targets
				}
				if k == 0 {
					shared, sharedN = []int{1}, nv
				}
			}
			p["attributes"] = at
			if !gen.Chance(t, "noindices", 4) {
				a := attr{ct: rapid.SampledFrom([]int{5121, 5123, 5125}).Draw(t, "ict"), typ: "SCALAR", idx: true}
				for v := 3 * rapid.IntRange(1, 4).Draw(t, "tris"); v > 0; v-- {
					a.vals = append(a.vals, []float64{float64(rapid.IntRange(0, nv-1).Draw(t, "i"))})
				}
				p["indices"] = b.store(a)[0]
			}
			if nm > 0 && !gen.Chance(t, "nomat", 5) {
				p["material"] = rapid.IntRange(0, nm-1).Draw(t, "mati")
			}
			if gen.Chance(t, "mode", 4) {
				p["mode"] = 4
			}
			if o.Modes && gen.Chance(t, "strip", 6) {
				p["mode"] = rapid.SampledFrom([]int{0, 1, 3, 5, 6}).Draw(t, "modev")
			}
			prims = append(prims, p)
		}
		m["primitives"] = prims
		meshes = append(meshes, m)
	}
	if nme > 0 {
		for i := range nodes {
			if !gen.Bool(t, "hasmesh") {
				continue
			}
			k := rapid.IntRange(0, nme-1).Draw(t, "mesh")
			nodes[i]["mesh"] = k
			if skinned[k] {
				nodes[i]["skin"] = rapid.IntRange(0, ns-1).Draw(t, "skin")
			}
		}
	}
	// order of the nodes
	perm := seq(nn)
	if gen.Bool(t, "shuffle") {
		perm = rapid.Permutation(perm).Draw(t, "order")
	}
	at := make([]int, nn) // node -> position
	for pos, i := range perm {
		at[i] = pos
	}
	placed := make([]M, nn)
	var roots []int
	for pos, i := range perm {
		placed[pos] = nodes[i]
	}
	for i := range nodes {
		if parent[i] < 0 {
			roots = append(roots, at[i])
		} else {
			c, _ := nodes[parent[i]]["children"].([]int)
			nodes[parent[i]]["children"] = append(c, at[i])
		}
	}
	for i, s := range skins {
		if i > 0 && fmt.Sprintf("%p", s) == fmt.Sprintf("%p", skins[i-1]) {
			continue
		}
		js := s["joints"].([]int)
		nj := make([]int, len(js))
		for k, j := range js {
			nj[k] = at[j]
		}
		s["joints"] = nj
		if k, ok := s["skeleton"].(int); ok {
			s["skeleton"] = at[k]
		}
	}
	// animations
	if o.Animations && gen.Bool(t, "anim") {
		a := M{"name": gen.Ident(t, "animname")}
		var samplers, channels []M
		seen := map[string]bool{}
		for k := rapid.IntRange(1, 4).Draw(t, "channels"); k > 0; k-- {
			n := rapid.IntRange(0, nn-1).Draw(t, "animnode")
			path := rapid.SampledFrom([]string{"translation", "translation", "rotation", "scale", "weights"}).Draw(t, "path")
			if path == "rotation" && !o.Rotations || path == "scale" && o.NodeScale == 0 || nodes[n]["matrix"] != nil {
				path = "translation"
			}
			per := 1
			if path == "weights" {
				mi, ok := nodes[n]["mesh"].(int)
				if !ok || ntargets[mi] == 0 {
					continue
				}
				per = ntargets[mi]
			}
			if nodes[n]["matrix"] != nil || seen[fmt.Sprint(n, path)] {
				continue
			}
			seen[fmt.Sprint(n, path)] = true
			if len(samplers) > 0 && gen.Chance(t, "samesampler", 4) && (channels[len(channels)-1]["target"].(M)["path"] == path && path != "weights" || o.SharedLayout && vec3Path(path) && vec3Path(channels[len(channels)-1]["target"].(M)["path"].(string))) {
				channels = append(channels, M{"sampler": len(samplers) - 1, "target": M{"node": at[n], "path": path}})
				continue
			}
			nk := rapid.IntRange(1, 3).Draw(t, "keys")
			in := attr{ct: 5126, typ: "SCALAR", mm: true, idx: true}
			out := attr{ct: 5126, typ: "VEC3", idx: true}
			switch path {
			case "rotation":
				out.typ = "VEC4"
			case "weights":
				out.typ = "SCALAR"
			}
			mode := rapid.SampledFrom([]string{"", "LINEAR", "STEP", "CUBICSPLINE"}).Draw(t, "interp")
			if mode == "CUBICSPLINE" {
				per *= 3
			}
			for x := 0; x < nk; x++ {
				in.vals = append(in.vals, []float64{float64(x) / 4})
				for y := 0; y < per; y++ {
					switch path {
					case "rotation":
						q := gen.QuatOf(gen.RotM(t, "ar"))
						out.vals = append(out.vals, q[:])
					case "weights":
						out.vals = append(out.vals, []float64{float64(gen.U(t, "aw"))})
					default:
						p := gen.Pt(t, "at", 5)
						out.vals = append(out.vals, p[:])
					}
				}
			}
			s := M{"input": b.store(in)[0], "output": b.store(out)[0]}
			if mode != "" {
				s["interpolation"] = mode
			}
			samplers = append(samplers, s)
			channels = append(channels, M{"sampler": len(samplers) - 1, "target": M{"node": at[n], "path": path}})
		}
		if len(channels) > 0 {
			a["samplers"], a["channels"] = samplers, channels
			d.JSON["animations"] = []M{a}
		}
	}
	if len(d.Bufs) > 1 && (len(d.Bufs[1]) == 0 || len(d.Bufs[0]) == 0) {
		// a buffer must not be empty
		for i := range d.Bufs {
			if len(d.Bufs[i]) == 0 {
				d.Bufs[i] = make([]byte, 4)
			}
		}
	}
	j := d.JSON
	set := func(k string, v []M) {
		if len(v) > 0 {
			j[k] = v
		}
	}
	set("nodes", placed)
	set("meshes", meshes)
	set("skins", skins)
	set("materials", mats)
	set("images", images)
	set("textures", textures)
	set("accessors", b.acc)
	set("bufferViews", b.vw)
	j["scene"] = 0
	j["scenes"] = []M{{"nodes": roots}}
	used := map[string]bool{}
	for _, m := range mats {
		if e, ok := m["extensions"].(M); ok {
			for k := range e {
				used[k] = true
			}
		}
	}
	if len(used) > 0 {
		j["extensionsUsed"] = []string{"KHR_materials_unlit"}
	}
	return d
}

var attrOrder = []string{"POSITION", "NORMAL", "TEXCOORD_0", "JOINTS_0", "WEIGHTS_0"}

func (b *builder) allPlain(p M) bool {
	for _, v := range p["attributes"].(M) {
		if !b.plain(v.(int)) {
			return false
		}
	}
	ts, _ := p["targets"].([]M)
	for _, tg := range ts {
		for _, v := range tg {
			if !b.plain(v.(int)) {
				return false
			}
		}
	}
	return true
}

func vec3Path(p string) bool { return p == "translation" || p == "scale" }

func seq(n int) []int {
	r := make([]int, n)
	for i := range r {
		r[i] = i
	}
	return r
}

// Write creates the files in dir and returns the path of the document.
func (d *Drawn) Write(t *gen.T, dir string) string {
	glb := gen.Bool(t, "glb")
	for p, data := range d.Files {
		full := filepath.Join(dir, filepath.FromSlash(p))
		os.MkdirAll(filepath.Dir(full), 0755)
		if err := os.WriteFile(full, data, 0644); err != nil {
			panic(err)
		}
	}
	var bufs []M
	used := len(d.Bufs[0]) > 0
	if used {
		for i, x := range d.Bufs {
			m := M{"byteLength": len(x)}
			switch {
			case glb && i == 0:
			case gen.Chance(t, "datauri", 3):
				m["uri"] = "data:application/octet-stream;base64," + base64.StdEncoding.EncodeToString(x)
			default:
				n := fmt.Sprintf(rapid.SampledFrom([]string{"buf%d.bin", "my buf %d.bin", "モデル%d.bin", "sub/b %d.bin"}).Draw(t, "bufname"), i)
				m["uri"] = (&url.URL{Path: n}).EscapedPath()
				os.MkdirAll(filepath.Dir(filepath.Join(dir, n)), 0755)
				if err := os.WriteFile(filepath.Join(dir, n), x, 0644); err != nil {
					panic(err)
				}
			}
			bufs = append(bufs, m)
		}
		d.JSON["buffers"] = bufs
	}
	js, err := json.Marshal(d.JSON)
	if err != nil {
		panic(err)
	}
	if !glb {
		p := filepath.Join(dir, "in.gltf")
		if err := os.WriteFile(p, js, 0644); err != nil {
			panic(err)
		}
		return p
	}
	for len(js)%4 != 0 {
		js = append(js, ' ')
	}
	var bin []byte
	if used {
		bin = append([]byte{}, d.Bufs[0]...)
		for len(bin)%4 != 0 {
			bin = append(bin, 0)
		}
	}
	le := binary.LittleEndian
	out := append([]byte("glTF"), 2, 0, 0, 0)
	total := 12 + 8 + len(js)
	if bin != nil {
		total += 8 + len(bin)
	}
	out = le.AppendUint32(out, uint32(total))
	out = le.AppendUint32(out, uint32(len(js)))
	out = append(append(out, "JSON"...), js...)
	if bin != nil {
		out = le.AppendUint32(out, uint32(len(bin)))
		out = append(append(out, "BIN\x00"...), bin...)
	}
	p := filepath.Join(dir, "in.glb")
	if err := os.WriteFile(p, out, 0644); err != nil {
		panic(err)
	}
	return p
}
