package convc

import (
	"bytes"
	"fmt"
	"math"
	"sort"
	"testing"

	"github.com/binzume/modelconv/converter"
	"github.com/binzume/modelconv/geom"
	"github.com/binzume/modelconv/mmd"
	"github.com/binzume/modelconv/mqo"
	"pgregory.net/rapid"

	"verif/harness/gen"
	"verif/harness/gltfx"
	"verif/harness/hx"
)

type boneKey struct {
	pos gen.P3
	rot [4]float64
}

// animChannels reads the channels of an animation: node, path -> times and values.
type animChan struct {
	times []float64
	vals  [][]float64
}

func animChannels(c *hx.C, d *gltfx.Doc, a gltfx.Animation) map[string]*animChan {
	out := map[string]*animChan{}
	for _, ch := range a.Channels {
		s := a.Samplers[ch.Sampler]
		if s.Interpolation != "" && s.Interpolation != "LINEAR" {
			c.Fatalf("channel interpolation %q", s.Interpolation)
		}
		in := read(c, d, s.Input)
		v, err := d.Norm(s.Output)
		if err != nil {
			c.Fatalf("animation output: %v", err)
		}
		ac := &animChan{vals: v}
		for _, x := range in {
			ac.times = append(ac.times, x[0])
		}
		out[fmt.Sprint(*ch.Target.Node, " ", ch.Target.Path)] = ac
	}
	return out
}

// at returns the value at a key frame (or beyond the ends).
func (a *animChan) at(frame int) ([]float64, bool) {
	t := float64(frame) / 30
	const e = 1e-4
	if t <= a.times[0]+e {
		return a.vals[0], true
	}
	if n := len(a.times) - 1; t >= a.times[n]-e {
		return a.vals[n], true
	}
	for i, x := range a.times {
		if math.Abs(x-t) < e {
			return a.vals[i], true
		}
	}
	return nil, false
}

func frameSet(t *gen.T, n string) []int {
	k := rapid.IntRange(1, 4).Draw(t, n+".n")
	set := map[int]bool{}
	for i := 0; i < k; i++ {
		set[rapid.SampledFrom([]int{0, 1, 2, 5, 10, 30, 31, 299, 5000}).Draw(t, n)] = true
	}
	var out []int
	for f := range set {
		out = append(out, f)
	}
	sort.Ints(out)
	return out
}

func propAnimation(tpose bool) func(c *hx.C) {
	return func(c *hx.C) {
		dir, done := hx.Scratch(c)
		defer done()
		o := gen.FullModel()
		o.Textures, o.GlTFShader, o.NoNormals, o.OddMaterials = false, false, true, false
		o.MaxWeights = 4
		o.Morphs = !tpose
		m := gen.DrawModel(c.T, o, dir)
		orig := hx.Clone(m.Doc)
		var bones []*mqo.Bone
		for _, b := range mqo.GetBonePlugin(orig).Bones() {
			bones = append(bones, b)
		}
		byID := map[int]*mqo.Bone{}
		for _, b := range bones {
			byID[b.ID] = b
		}
		rot180 := gen.Bool(c.T, "rot180")
		var turned []int
		for i, b := range bones {
			if tpose && gen.Chance(c.T, "turn", 2) {
				turned = append(turned, i)
			}
			_ = b
		}
		if tpose && len(turned) == 0 {
			c.Skip("no bone to turn")
		}

		// the motion
		anim := &mmd.Animation{Name: "motion"}
		keys := map[string]map[int]boneKey{}
		common := gen.Chance(c.T, "common frames", 2)
		shared := frameSet(c.T, "shared")
		for _, b := range bones {
			if !tpose && gen.Chance(c.T, "still", 3) {
				continue
			}
			fs := shared
			if !common {
				fs = frameSet(c.T, "frames")
			}
			keys[b.Name] = map[int]boneKey{}
			noRot, noPos := gen.Chance(c.T, "no rotation", 4), gen.Chance(c.T, "no translation", 2)
			for _, f := range fs {
				s := &mmd.AnimationBoneSample{Target: b.Name, Frame: f, Rotation: mmd.Quaternion{W: 1}}
				if !noRot && !gen.Chance(c.T, "id", 5) {
					q := gen.QuatOf(gen.RotM(c.T, "rot"))
					s.Rotation = mmd.Quaternion{X: float32(q[0]), Y: float32(q[1]), Z: float32(q[2]), W: float32(q[3])}
				}
				if !noPos {
					s.Position = gen.V3(c.T, "pos", 20)
				}
				anim.Bone = append(anim.Bone, s)
				// right handed: z is mirrored
				keys[b.Name][f] = boneKey{
					gen.P3{float64(s.Position.X), float64(s.Position.Y), -float64(s.Position.Z)}.Scale(80),
					[4]float64{-float64(s.Rotation.X), -float64(s.Rotation.Y), float64(s.Rotation.Z), float64(s.Rotation.W)}}
			}
		}
		if gen.Chance(c.T, "other bone", 3) {
			anim.Bone = append(anim.Bone, &mmd.AnimationBoneSample{Target: "no such bone", Rotation: mmd.Quaternion{W: 1}, Position: mmd.Vector3{X: 1}})
		}
		morphKeys := map[string]map[int]float64{}
		for _, l := range mqo.GetMorphPlugin(orig).Morphs() {
			for _, t := range l.Target {
				if gen.Chance(c.T, "no motion", 3) || morphKeys[t.Name] != nil {
					continue
				}
				fs := shared
				if !common {
					fs = frameSet(c.T, "mframes")
				}
				morphKeys[t.Name] = map[int]float64{}
				for _, f := range fs {
					w := float64(float32(rapid.IntRange(-4, 12).Draw(c.T, "weight")) / 8)
					morphKeys[t.Name][f] = w
					anim.Morph = append(anim.Morph, &mmd.AnimationMorphSample{Target: t.Name, Frame: f, Value: float32(w)})
				}
			}
		}
		// samples of a file come in any order
		if len(anim.Bone) > 1 {
			p := rapid.Permutation(gen.Iota(len(anim.Bone))).Draw(c.T, "order")
			var l []*mmd.AnimationBoneSample
			for _, i := range p {
				l = append(l, anim.Bone[i])
			}
			anim.Bone = l
		}
		c.DescF(func() string {
			s := fmt.Sprintln("rot180", rot180, "turned", turned)
			for _, k := range anim.Bone {
				s += fmt.Sprintf("bone %q frame %d pos %v rot %v\n", k.Target, k.Frame, k.Position, k.Rotation)
			}
			for _, k := range anim.Morph {
				s += fmt.Sprintf("morph %q frame %d %v\n", k.Target, k.Frame, k.Value)
			}
			return s
		})

		// as the command does it
		if rot180 {
			m.Doc.ApplyTransform(geom.NewScaleMatrix4(-1, 1, -1))
			for _, b := range mqo.GetBonePlugin(m.Doc).Bones() {
				b.RotationOffset.Y = math.Pi
			}
		}
		for _, i := range turned {
			m.Doc.BoneAdjustX(mqo.GetBonePlugin(m.Doc).Bones()[i])
		}
		src2 := hx.Clone(m.Doc)
		for i, b := range mqo.GetBonePlugin(m.Doc).Bones() {
			mqo.GetBonePlugin(src2).Bones()[i].RotationOffset = b.RotationOffset
		}
		do := func(doc *mqo.Document) []byte {
			cv := converter.NewMQOToGLTFConverter(&converter.MQOToGLTFOption{})
			g, err := cv.Convert(doc, dir)
			if err != nil {
				c.Fatalf("conversion failed: %v", err)
			}
			a := hx.Clone(anim)
			converter.AddAnimationTpGlb(g, a, cv.JointNodeToBone, true)
			return glbBytes(c, g)
		}
		raw := do(m.Doc)
		if gen.Chance(c.T, "twice", 4) {
			if !bytes.Equal(raw, do(src2)) {
				c.Fatalf("converting twice gives different files")
			}
			c.Label("twice")
		}
		out, err := gltfx.Parse(raw, dir)
		if err != nil {
			c.Fatalf("cannot be read: %v", err)
		}
		if errs := out.Validate(); len(errs) > 0 {
			c.Fatalf("invalid: %v", errs)
		}
		if len(out.Animations) > 1 {
			c.Fatalf("%d animations", len(out.Animations))
		}
		ch := map[string]*animChan{}
		if len(out.Animations) == 1 {
			if out.Animations[0].Name != "motion" {
				c.Fatalf("animation is called %q", out.Animations[0].Name)
			}
			ch = animChannels(c, out, out.Animations[0])
		}
		node := map[string]int{}
		for i, n := range out.Nodes {
			node[n.Name] = i
		}
		unused := map[string]bool{}
		for k := range ch {
			unused[k] = true
		}

		// times of bone channels
		for _, b := range bones {
			ni, ok := node[b.Name]
			if !ok {
				if len(keys[b.Name]) > 0 {
					c.Label("bone not exported")
				}
				continue
			}
			var fs []int
			for f := range keys[b.Name] {
				fs = append(fs, f)
			}
			sort.Ints(fs)
			for _, p := range []string{"rotation", "translation"} {
				k := fmt.Sprint(ni, " ", p)
				a := ch[k]
				delete(unused, k)
				if a == nil {
					continue // the pose decides whether that is right
				}
				if len(a.times) != len(fs) {
					c.Fatalf("bone %q has %s at %v, want frames %v", b.Name, p, a.times, fs)
				}
				for i, f := range fs {
					if math.Abs(a.times[i]-float64(f)/30) > 1e-4*(1+float64(f)/30) {
						c.Fatalf("bone %q has %s at %v, want frames %v", b.Name, p, a.times, fs)
					}
				}
				c.Label(p)
			}
		}

		// poses
		frames := map[int]bool{}
		for _, ks := range keys {
			for f := range ks {
				frames[f] = true
			}
		}
		poses := 0
		for f := range frames {
			w, ok := pose(bones, byID, keys, f)
			if !ok {
				continue
			}
			local := func(i int) gen.M {
				n := out.Nodes[i]
				r, t := ch[fmt.Sprint(i, " rotation")], ch[fmt.Sprint(i, " translation")]
				if r == nil && t == nil {
					return out.Local(i)
				}
				m := gen.Ident4()
				if t != nil {
					v, ok := t.at(f)
					if !ok {
						c.Fatalf("node %q has no translation at frame %d: %v", n.Name, f, t.times)
					}
					m = gen.TransM(gen.P3{v[0], v[1], v[2]})
				} else if len(n.Translation) == 3 {
					m = gen.TransM(gen.P3{n.Translation[0], n.Translation[1], n.Translation[2]})
				}
				if r != nil {
					v, ok := r.at(f)
					if !ok {
						c.Fatalf("node %q has no rotation at frame %d: %v", n.Name, f, r.times)
					}
					m = m.Mul(gen.QuatM(v[0], v[1], v[2], v[3]))
				} else if len(n.Rotation) == 4 {
					m = m.Mul(gen.QuatM(n.Rotation[0], n.Rotation[1], n.Rotation[2], n.Rotation[3]))
				}
				return m
			}
			worlds := out.Worlds(local)
			place := func(p gen.P3) gen.P3 {
				if rot180 {
					p = gen.P3{-p[0], p[1], -p[2]}
				}
				return p.Scale(0.001)
			}
			size := 1.0
			for _, x := range w {
				size = math.Max(size, x.MaxAbs())
			}
			tol := size * 0.001 * 3e-4
			for i, b := range bones {
				ni, ok := node[b.Name]
				if !ok {
					continue
				}
				if g, wp := worlds[ni].Apply(gen.P3{}), place(w[i].Apply(gen.P3{})); g.Dist(wp) > tol {
					c.Fatalf("frame %d: bone %q is at %v, want %v", f, b.Name, g, wp)
				}
			}
			// vertices held by one bone move with it
			for _, obj := range orig.Objects {
				ni, ok := node[obj.Name]
				if !ok || out.Nodes[ni].Mesh == nil || out.Nodes[ni].Skin == nil {
					continue
				}
				rest := out.Worlds(out.Local)
				pr, err := out.Prims(ni, rest)
				if err != nil {
					c.Fatalf("%v", err)
				}
				pp, err := out.Prims(ni, worlds)
				if err != nil {
					c.Fatalf("%v", err)
				}
				cur := map[int][]int{} // vertex by source index
				o2 := objByName(m.Doc, obj.Name)
				for k := range pr {
					for vi, p := range pr[k].Pos {
						s := findVertex(o2, p, 0.001)
						if gen.V(o2.Vertexes[s]).Scale(0.001).Dist(p) > 1e-4*size*0.001+1e-6 {
							continue
						}
						_ = cur
						ws, total := boneShares(orig, bones, obj, s)
						if total < 99.9 {
							continue
						}
						var wp gen.P3
						single := false
						for bi, x := range ws {
							single = single || x > 99.9
							wp = wp.Add(w[bi].Apply(gen.V(obj.Vertexes[s]).Sub(gen.V(&bones[bi].Pos.Vector3))).Scale(x / total))
						}
						if tpose && !single {
							continue
						}
						c.Label("posed vertices")
						if g := pp[k].Pos[vi]; g.Dist(place(wp)) > tol*4+1e-6*size {
							c.Fatalf("frame %d: vertex %d of %q is at %v, want %v", f, s, obj.Name, g, place(wp))
						}
					}
				}
			}
			poses++
		}

		// morphs
		for ni, n := range out.Nodes {
			k := fmt.Sprint(ni, " weights")
			a := ch[k]
			delete(unused, k)
			if n.Mesh == nil {
				continue
			}
			names := targetNames(out, *n.Mesh)
			fs := map[int]bool{}
			for _, x := range names {
				for f := range morphKeys[x] {
					fs[f] = true
				}
			}
			if len(fs) == 0 {
				if a != nil {
					c.Fatalf("node %q has animated morphs", n.Name)
				}
				continue
			}
			if a == nil || len(a.times) != len(fs) {
				c.Fatalf("node %q: morphs are animated at %v, want frames %v", n.Name, a, fs)
			}
			for f := range fs {
				got := make([]float64, len(names))
				at := -1
				for i, t := range a.times {
					if math.Abs(t-float64(f)/30) < 1e-4*(1+t) {
						at = i
					}
				}
				if at < 0 {
					c.Fatalf("node %q: no morphs at frame %d: %v", n.Name, f, a.times)
				}
				for j, x := range names {
					got[j] = a.vals[at*len(names)+j][0]
					want := linear(morphKeys[x], f)
					if math.Abs(got[j]-want) > 2.5e-3 {
						c.Fatalf("node %q frame %d: weight of %q is %v, want %v", n.Name, f, x, got[j], want)
					}
				}
			}
			c.Label("morphs")
		}
		for k := range unused {
			c.Fatalf("unexpected channel for node and path %s", k)
		}
		c.LabelIf(poses > 0, "poses")
		if poses > 0 || len(morphKeys) > 0 {
			c.NonTrivial(gen.DescribeMQO(orig) + hx.Dump(anim) + fmt.Sprint(rot180, turned))
		}
	}
}

func objByName(d *mqo.Document, name string) *mqo.Object {
	for _, o := range d.Objects {
		if o.Name == name {
			return o
		}
	}
	return nil
}

func boneShares(d *mqo.Document, bones []*mqo.Bone, obj *mqo.Object, vi int) (map[int]float64, float64) {
	out, total := map[int]float64{}, 0.0
	for i, b := range bones {
		for _, bw := range b.Weights {
			if bw.ObjectID != obj.UID {
				continue
			}
			for _, vw := range bw.Vertexes {
				if vw.VertexID == gen.VertexUID(obj, vi) && vw.Weight > 0 {
					out[i] += float64(vw.Weight)
					total += float64(vw.Weight)
				}
			}
		}
	}
	return out, total
}

// linear interpolates keys, holding the ends.
func linear(keys map[int]float64, f int) float64 {
	lo, hi := -1, -1
	for k := range keys {
		if k <= f && (lo < 0 || k > lo) {
			lo = k
		}
		if k >= f && (hi < 0 || k < hi) {
			hi = k
		}
	}
	switch {
	case lo < 0 && hi < 0:
		return 0
	case lo < 0 || lo == hi:
		return keys[hi]
	case hi < 0:
		return keys[lo]
	}
	t := float64(f-lo) / float64(hi-lo)
	return keys[lo]*(1-t) + keys[hi]*t
}

// pose is the transformation of every bone at a frame at which every bone has
// a key or holds its first or last one (in units and axes of MQO).
func pose(bones []*mqo.Bone, byID map[int]*mqo.Bone, keys map[string]map[int]boneKey, f int) ([]gen.M, bool) {
	local := map[int]gen.M{}
	for _, b := range bones {
		p := gen.V(&b.Pos.Vector3)
		if q := byID[b.Parent]; q != nil {
			p = p.Sub(gen.V(&q.Pos.Vector3))
		}
		m := gen.TransM(p)
		if ks := keys[b.Name]; len(ks) > 0 {
			first, last := 1<<30, -1
			for k := range ks {
				first, last = min(first, k), max(last, k)
			}
			k, ok := ks[min(max(f, first), last)]
			if !ok {
				return nil, false
			}
			m = gen.TransM(p.Add(k.pos)).Mul(gen.QuatM(k.rot[0], k.rot[1], k.rot[2], k.rot[3]))
		}
		local[b.ID] = m
	}
	var out []gen.M
	for _, b := range bones {
		m := local[b.ID]
		for q := byID[b.Parent]; q != nil; q = byID[q.Parent] {
			m = local[q.ID].Mul(m)
		}
		out = append(out, m)
	}
	return out, true
}

func TestC21(t *testing.T) {
	hx.Main(t, "C21", hx.Leg{Name: "motion", Quick: 500, Prop: propAnimation(false)}, hx.Leg{Name: "tpose", Quick: 300, Prop: propAnimation(true)})
}
