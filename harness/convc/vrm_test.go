package convc

import (
	"encoding/json"
	"fmt"
	"os"
	"path"
	"path/filepath"
	"sort"
	"strings"
	"testing"

	"github.com/binzume/modelconv/converter"
	"github.com/binzume/modelconv/gltfutil"
	"github.com/binzume/modelconv/vrm"
	"pgregory.net/rapid"

	"verif/harness/gen"
	"verif/harness/gltfx"
	"verif/harness/hx"
)

// the bones of the mmd preset, with the names MMD models give them
var mmdBones = [][3]string{
	{"hips", "センター", "center"}, {"spine", "上半身", "upper body"}, {"chest", "上半身2", "upper body2"}, {"neck", "首", "neck"}, {"head", "頭", "head"},
	{"leftShoulder", "左肩", "shoulder_L"}, {"leftUpperArm", "左腕", "arm_L"}, {"leftLowerArm", "左ひじ", "elbow_L"}, {"leftHand", "左手首", "wrist_L"},
	{"rightShoulder", "右肩", "shoulder_R"}, {"rightUpperArm", "右腕", "arm_R"}, {"rightLowerArm", "右ひじ", "elbow_R"}, {"rightHand", "右手首", "wrist_R"},
	{"leftUpperLeg", "左足", "leg_L"}, {"leftLowerLeg", "左ひざ", "knee_L"}, {"leftFoot", "左足首", "ankle_L"}, {"leftToes", "左つま先", "L toe"},
	{"rightUpperLeg", "右足", "leg_R"}, {"rightLowerLeg", "右ひざ", "knee_R"}, {"rightFoot", "右足首", "ankle_R"}, {"rightToes", "右つま先", "R toe"},
	{"leftEye", "左目", "eye_L"}, {"rightEye", "右目", "eye_R"},
}

var mmdMorphs = [][2]string{{"Blink", "まばたき"}, {"A", "あ"}, {"I", "い"}, {"U", "う"}, {"E", "え"}, {"O", "お"},
	{"Blink_L", "ウインク"}, {"Blink_R", "ウインク右"}, {"Joy", "笑い"}, {"Fun", "にこり"}, {"Angry", "怒り"}, {"Sorrow", "困る"}}

var requiredBones = []string{"hips", "spine", "chest", "neck", "head", "leftUpperArm", "leftLowerArm", "leftHand", "rightUpperArm", "rightLowerArm", "rightHand",
	"leftUpperLeg", "leftLowerLeg", "leftFoot", "rightUpperLeg", "rightLowerLeg", "rightFoot"}

func vrmName(t *gen.T, n string) string {
	switch rapid.IntRange(0, 5).Draw(t, n+".v") {
	case 0:
		return mmdBones[rapid.IntRange(0, len(mmdBones)-1).Draw(t, n+".mmd")][1+rapid.IntRange(0, 4).Draw(t, n+".en")/4]
	case 1:
		return rapid.SampledFrom(requiredBones).Draw(t, n+".std")
	case 2:
		return rapid.SampledFrom([]string{"hair", "skirt"}).Draw(t, n+".spring") + fmt.Sprint(rapid.IntRange(1, 12).Draw(t, n+".no"))
	case 3:
		return mmdMorphs[rapid.IntRange(0, len(mmdMorphs)-1).Draw(t, n+".mo")][1]
	}
	return gen.ConvName(t, n)
}

// limits are objects in VRM files
type limits []float64

func (l *limits) UnmarshalJSON(b []byte) error {
	var v map[string]float64
	if err := json.Unmarshal(b, &v); err != nil {
		return fmt.Errorf("limits are no object: %s", b)
	}
	*l = limits{v["x"], v["y"], v["z"]}
	return nil
}

type vrmBone struct {
	Bone       string
	Node       *int
	Default    bool `json:"useDefaultValues"`
	Min        limits
	Max        limits
	Center     limits
	AxisLength float64
}
type vrmGroup struct {
	Name, PresetName string
	Binds            []struct {
		Mesh, Index int
		Weight      float64
	}
	MaterialValues []interface{}
}
type vrmSpring struct {
	Comment                                        string
	Stiffiness, GravityPower, DragForce, HitRadius float64
	Center                                         int
	Bones                                          []int
}
type vrmCollider struct {
	Node      int
	Colliders []struct {
		Radius float64
		Offset map[string]float64
	}
}
type vrmExt struct {
	Meta               map[string]interface{}
	Humanoid           struct{ HumanBones []vrmBone }
	FirstPerson        *struct{ FirstPersonBone *int }
	BlendShapeMaster   struct{ BlendShapeGroups []vrmGroup }
	SecondaryAnimation struct {
		BoneGroups     []vrmSpring
		ColliderGroups []vrmCollider
	}
	MaterialProperties []struct{ Name, Shader string }
	raw                map[string]interface{}
}

func readVRM(c *hx.C, d *gltfx.Doc) *vrmExt {
	raw, ok := d.Extensions["VRM"]
	if !ok {
		c.Fatalf("the document has no VRM extension")
	}
	var e vrmExt
	if err := json.Unmarshal(raw, &e); err != nil {
		c.Fatalf("VRM extension cannot be read: %v", err)
	}
	json.Unmarshal(raw, &e.raw)
	used := false
	for _, x := range d.ExtensionsUsed {
		used = used || x == "VRM"
	}
	if !used {
		c.Fatalf("the VRM extension is not listed as used")
	}
	// every reference is valid
	seen := map[string]bool{}
	for _, b := range e.Humanoid.HumanBones {
		if b.Node == nil || *b.Node < 0 || *b.Node >= len(d.Nodes) {
			c.Fatalf("bone %q has no valid node", b.Bone)
		}
		if seen[b.Bone] {
			c.Fatalf("bone %q is given twice", b.Bone)
		}
		seen[b.Bone] = true
	}
	for _, g := range e.BlendShapeMaster.BlendShapeGroups {
		for _, b := range g.Binds {
			if b.Mesh < 0 || b.Mesh >= len(d.Meshes) || b.Index < 0 || b.Index >= len(d.Meshes[b.Mesh].Primitives[0].Targets) {
				c.Fatalf("blend shape %q refers to target %d of mesh %d", g.Name, b.Index, b.Mesh)
			}
		}
	}
	if e.FirstPerson != nil && e.FirstPerson.FirstPersonBone != nil {
		if n := *e.FirstPerson.FirstPersonBone; n < -1 || n >= len(d.Nodes) {
			c.Fatalf("first person bone %d does not exist", n)
		}
	}
	for _, g := range e.SecondaryAnimation.BoneGroups {
		for _, n := range g.Bones {
			if n < 0 || n >= len(d.Nodes) {
				c.Fatalf("spring bone %d does not exist", n)
			}
		}
	}
	if len(e.MaterialProperties) != len(d.Materials) {
		c.Fatalf("%d material properties for %d materials", len(e.MaterialProperties), len(d.Materials))
	}
	for i, m := range e.MaterialProperties {
		if m.Name != d.Materials[i].Name || m.Shader == "" {
			c.Fatalf("material property %d is %q (%s), want %q", i, m.Name, m.Shader, d.Materials[i].Name)
		}
	}
	return &e
}

type vm = map[string]interface{}

func targetNames(d *gltfx.Doc, mesh int) []string {
	l, _ := d.Meshes[mesh].Extras["targetNames"].([]interface{})
	var out []string
	for _, x := range l {
		out = append(out, x.(string))
	}
	return out
}

// drawVRMConfig draws a configuration for a document. Without references to
// the document (other names only) it may serve as preset.
func drawVRMConfig(c *hx.C, d *gltfx.Doc, p string) vm {
	t := c.T
	conf := vm{}
	anyNode := func(n string) string {
		if gen.Chance(t, n+".none", 4) || len(d.Nodes) == 0 {
			return p + "missing"
		}
		return d.Nodes[rapid.IntRange(0, len(d.Nodes)-1).Draw(t, n)].Name
	}
	if gen.Bool(t, p+"meta") {
		conf["meta"] = vm{"title": gen.ConvName(t, p+"title"), "author": gen.ConvName(t, p+"author"), "version": "1." + fmt.Sprint(rapid.IntRange(0, 9).Draw(t, "ver")), "licenseName": rapid.SampledFrom([]string{"CC0", "Other"}).Draw(t, "lic"),
			"contactInformation": gen.Ident(t, p+"contact"), "otherLicenseUrl": "http://example.com/a?b=1&c=2", "allowedUserName": "Everyone"}
	}
	var bones []vm
	for i := rapid.IntRange(0, 6).Draw(t, p+"bones"); i > 0; i-- {
		name := mmdBones[rapid.IntRange(0, len(mmdBones)-1).Draw(t, p+"bone")][0]
		b := vm{"bone": name}
		var names []string
		for j := rapid.IntRange(0, 3).Draw(t, p+"names"); j > 0; j-- {
			names = append(names, anyNode(p+"bn"))
		}
		switch {
		case len(names) == 1 && gen.Bool(t, p+"old"):
			b["nodeName"] = names[0]
		case len(names) > 1 && gen.Chance(t, p+"both", 6):
			b["nodeName"] = names[len(names)-1]
			b["nodeNames"] = names[:len(names)-1]
		default:
			b["nodeNames"] = names
		}
		if gen.Chance(t, p+"range", 4) {
			which := rapid.SampledFrom([]string{"all", "min", "max", "center"}).Draw(t, p+"given")
			object := gen.Bool(t, p+"object")
			for k, x := range map[string][]float64{"min": {-1, -2, -3}, "max": {4, 5, 6}, "center": {0.5, 0, 0}} {
				if which == "all" || which == k {
					b[k] = x
					if object {
						b[k] = vm{"x": x[0], "y": x[1], "z": x[2]}
					}
				}
			}
			if gen.Bool(t, p+"axis") {
				b["axisLength"] = 2.5
			}
			if gen.Bool(t, p+"def") {
				b["useDefaultValues"] = true
			}
		}
		bones = append(bones, b)
	}
	if len(bones) > 0 {
		conf["boneMappings"] = bones
	}
	var morphs []vm
	for i := rapid.IntRange(0, 4).Draw(t, p+"morphs"); i > 0; i-- {
		m := vm{"name": fmt.Sprintf("%sshape%d", p, i)}
		var all []string
		for mi := range d.Meshes {
			all = append(all, targetNames(d, mi)...)
		}
		if len(all) > 0 && gen.Bool(t, p+"byName") || len(d.Nodes) == 0 {
			m["targetName"] = p + "missing"
			if len(all) > 0 && !gen.Chance(t, p+"tmissing", 4) {
				m["targetName"] = rapid.SampledFrom(all).Draw(t, p+"tname")
			}
			if gen.Chance(t, p+"matval", 3) {
				m["materialValues"] = []vm{{"materialName": "m", "propertyName": "_Color", "targetValue": []float64{1, 0.5, 0, 1}}}
			}
		} else {
			ni := rapid.IntRange(0, len(d.Nodes)-1).Draw(t, p+"mnode")
			m["nodeName"] = d.Nodes[ni].Name
			if mesh := d.Nodes[ni].Mesh; mesh != nil {
				n := len(d.Meshes[*mesh].Primitives[0].Targets)
				if n == 0 {
					continue // there is no shape to name
				}
				m["targetIndex"] = rapid.IntRange(0, n-1).Draw(t, p+"tindex")
			} else if gen.Bool(t, p+"nomesh") {
				m["targetIndex"] = 1
			}
			if gen.Chance(t, p+"mnmissing", 5) {
				m["nodeName"] = p + "missing"
			}
		}
		morphs = append(morphs, m)
	}
	if len(morphs) > 0 {
		conf["morphMappings"] = morphs
	}
	mats := vm{}
	setting := func(n string) vm {
		s := vm{}
		if gen.Bool(t, n+".unlit") {
			s["forceUnlit"] = true
		}
		if a := rapid.SampledFrom([]string{"", "blend", "mask", "opaque"}).Draw(t, n+".mode"); a != "" {
			s["alphaMode"] = a
		}
		if gen.Bool(t, n+".a") {
			s["alpha"] = float64(rapid.IntRange(1, 4).Draw(t, n+".alpha")) / 4
		}
		return s
	}
	for i, m := range d.Materials {
		if gen.Chance(t, p+"set", 2) && m.Name != "" {
			mats[m.Name] = setting(fmt.Sprint(p, "mat", i))
		}
	}
	if gen.Chance(t, p+"any", 3) {
		mats["*"] = setting(p + "mat*")
	}
	if len(mats) > 0 {
		conf["materialSettings"] = mats
	}
	var groups []vm
	for i := rapid.IntRange(0, 2).Draw(t, p+"groups"); i > 0; i-- {
		g := vm{"comment": fmt.Sprint(p, "group", i), "stiffiness": float64(i) + 0.5, "gravityPower": 0.25, "dragForce": 0.125, "hitRadius": 0.5, "center": -1}
		if gen.Chance(t, p+"nocenter", 3) {
			delete(g, "center")
		}
		var names []string
		for j := rapid.IntRange(1, 2).Draw(t, p+"gnames"); j > 0; j-- {
			if gen.Bool(t, p+"wild") {
				names = append(names, rapid.SampledFrom([]string{"hair*", "skirt*", "hair?", "*", "左*", "nothing*"}).Draw(t, p+"pattern"))
			} else {
				names = append(names, anyNode(p+"gn"))
			}
		}
		g["nodeNames"] = names
		groups = append(groups, g)
	}
	if len(groups) > 0 {
		conf["animationBoneGroups"] = groups
	}
	var cols []vm
	for i := rapid.IntRange(0, 2).Draw(t, p+"cols"); i > 0; i-- {
		cols = append(cols, vm{"nodeName": anyNode(p + "cn"), "colliders": []vm{{"radius": 0.25 * float64(i), "offset": vm{"x": 1.0, "y": 2.0, "z": float64(i)}}}})
	}
	if len(cols) > 0 {
		conf["colliderGroups"] = cols
	}
	return conf
}

func list(v vm, key string) []vm {
	x, _ := v[key].([]vm)
	return x
}

func strs(v vm, key string) []string {
	x, _ := v[key].([]string)
	return x
}

func num(v vm, key string) float64 {
	switch x := v[key].(type) {
	case float64:
		return x
	case int:
		return float64(x)
	}
	return 0
}

func js(v interface{}) string {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	var x interface{}
	json.Unmarshal(b, &x)
	b, _ = json.Marshal(x)
	return string(b)
}

// withPreset is the configuration together with those it builds on.
func withPreset(conf, preset vm) vm {
	if preset == nil {
		return conf
	}
	out := vm{}
	for k, v := range conf {
		out[k] = v
	}
	for _, k := range []string{"boneMappings", "morphMappings", "animationBoneGroups", "colliderGroups"} {
		if all := append(append([]vm{}, list(conf, k)...), list(preset, k)...); len(all) > 0 {
			out[k] = all
		}
	}
	mats := vm{}
	for _, m := range []vm{preset, conf} {
		s, _ := m["materialSettings"].(vm)
		for k, v := range s {
			mats[k] = v
		}
	}
	out["materialSettings"] = mats
	return out
}

func mmdPreset() vm {
	var bones, morphs []vm
	for _, b := range mmdBones {
		bones = append(bones, vm{"bone": b[0], "nodeNames": []string{b[1], b[2]}})
	}
	for _, m := range mmdMorphs {
		morphs = append(morphs, vm{"name": m[0], "targetName": m[1]})
	}
	return vm{"boneMappings": bones, "morphMappings": morphs}
}

// checkConfig compares a document prepared for VRM with the configuration.
func checkConfig(c *hx.C, before, after *gltfx.Doc, e *vrmExt, conf vm, kept *vrmExt) {
	at := map[string]int{}
	for i, n := range before.Nodes {
		if n.Name != "" {
			at[n.Name] = i
		}
	}
	// bones: the first mapping of each that finds a node wins
	want := map[string]int{}
	src := map[string]vm{}
	off := map[string]bool{}
	for _, m := range list(conf, "boneMappings") {
		name := m["bone"].(string)
		if _, ok := want[name]; ok || off[name] {
			continue
		}
		names := append([]string{}, strs(m, "nodeNames")...)
		if s, ok := m["nodeName"].(string); ok {
			names = append(names, s)
		}
		if len(names) == 0 {
			off[name] = true
		}
		for _, n := range names {
			if i, ok := at[n]; ok && before.Nodes[i].Mesh == nil {
				want[name], src[name] = i, m
				break
			}
		}
	}
	mapped := len(want)
	optional := map[string]bool{}
	if kept != nil {
		for _, b := range kept.Humanoid.HumanBones {
			if _, ok := want[b.Bone]; !ok && !off[b.Bone] {
				want[b.Bone] = *b.Node
			}
		}
	}
	for _, name := range requiredBones {
		if _, ok := want[name]; ok || off[name] {
			continue
		}
		if i, ok := at[name]; ok {
			want[name] = i
			optional[name] = before.Nodes[i].Mesh != nil
		}
	}
	n := 0
	for _, b := range e.Humanoid.HumanBones {
		w, ok := want[b.Bone]
		if !ok || w != *b.Node {
			c.Fatalf("bone %q is node %d, want %d (%v)", b.Bone, *b.Node, w, ok)
		}
		if m, ok := src[b.Bone]; ok {
			lim := func(k string) limits {
				if x, ok := m[k].(vm); ok {
					return limits{num(x, "x"), num(x, "y"), num(x, "z")}
				}
				x, _ := m[k].([]float64)
				return x
			}
			def := m["useDefaultValues"] == true || lim("min") == nil && lim("max") == nil && lim("center") == nil
			if fmt.Sprint(b.Min, b.Max, b.Center, b.AxisLength) != fmt.Sprint(lim("min"), lim("max"), lim("center"), num(m, "axisLength")) || b.Default != def {
				c.Fatalf("bone %q has limits %v %v %v %v %v, want %v", b.Bone, b.Min, b.Max, b.Center, b.AxisLength, b.Default, m)
			}
		}
		delete(want, b.Bone)
		n++
	}
	for name := range want {
		if !optional[name] {
			c.Fatalf("bone %q is missing", name)
		}
	}
	c.LabelIf(mapped > 0, "mapped bones")
	c.LabelIf(n > mapped, "bones by name")
	// first person
	if kept == nil {
		var head = -1
		for _, b := range e.Humanoid.HumanBones {
			if b.Bone == "head" && src["head"] != nil {
				head = *b.Node
			}
		}
		got := -1
		if e.FirstPerson != nil && e.FirstPerson.FirstPersonBone != nil {
			got = *e.FirstPerson.FirstPersonBone
		}
		if head >= 0 && got != head {
			c.Fatalf("first person bone is %d, want the head %d", got, head)
		}
		if e.FirstPerson != nil && head < 0 {
			c.Fatalf("first person bone is %d without a head", got)
		}
	}
	// morphs
	groups := e.BlendShapeMaster.BlendShapeGroups
	if kept != nil {
		k := kept.BlendShapeMaster.BlendShapeGroups
		if len(groups) < len(k) || len(k) > 0 && js(groups[:len(k)]) != js(k) {
			c.Fatalf("blend shapes %s, want to begin with %s", js(groups), js(k))
		}
		groups = groups[len(k):]
	}
	used := map[[2]int]bool{}
	for _, m := range list(conf, "morphMappings") {
		name := m["name"].(string)
		var binds [][2]int
		if tn, ok := m["targetName"].(string); ok {
			for mi := range before.Meshes {
				for ti, x := range targetNames(before, mi) {
					if x == tn {
						binds = append(binds, [2]int{mi, ti})
					}
				}
			}
		} else if i, ok := at[m["nodeName"].(string)]; ok && before.Nodes[i].Mesh != nil {
			binds = [][2]int{{*before.Nodes[i].Mesh, int(num(m, "targetIndex"))}}
		}
		mv, _ := m["materialValues"].([]vm)
		if len(binds) == 0 && len(mv) == 0 {
			continue
		}
		if len(groups) == 0 || groups[0].Name != name || groups[0].PresetName != name {
			c.Fatalf("blend shape %q is missing: %s", name, js(groups))
		}
		g := groups[0]
		groups = groups[1:]
		if len(binds) == 0 != (len(g.Binds) == 0) {
			c.Fatalf("blend shape %q has binds %v, want %v", name, g.Binds, binds)
		}
		for _, b := range g.Binds {
			found := false
			for _, x := range binds {
				found = found || x == [2]int{b.Mesh, b.Index}
			}
			if !found || b.Weight != 100 {
				c.Fatalf("blend shape %q has bind %v, want one of %v", name, b, binds)
			}
			used[[2]int{b.Mesh, b.Index}] = true
			c.Label("morphs")
		}
		if len(mv) > 0 && js(g.MaterialValues) != js(mv) {
			c.Fatalf("blend shape %q has values %s, want %s", name, js(g.MaterialValues), js(mv))
		}
	}
	if conf["exportAllMorph"] == true {
		for mi := range before.Meshes {
			for ti, x := range targetNames(before, mi) {
				if used[[2]int{mi, ti}] {
					continue
				}
				if len(groups) == 0 || groups[0].Name != x || len(groups[0].Binds) != 1 || groups[0].Binds[0].Mesh != mi || groups[0].Binds[0].Index != ti || groups[0].Binds[0].Weight != 100 {
					c.Fatalf("target %q of mesh %d is not exported: %s", x, mi, js(groups))
				}
				groups = groups[1:]
				c.Label("all morphs")
			}
		}
	}
	if len(groups) > 0 {
		c.Fatalf("unexpected blend shape %s", js(groups[0]))
	}
	// materials
	settings, _ := conf["materialSettings"].(vm)
	for i, m := range before.Materials {
		s, ok := settings[m.Name].(vm)
		if !ok {
			s, ok = settings["*"].(vm)
		}
		g := after.Materials[i]
		mode, alpha := m.AlphaMode, 1.0
		if mode == "" {
			mode = "OPAQUE"
		}
		factor := []float64{1, 1, 1, 1}
		if m.PBR != nil && m.PBR.BaseColorFactor != nil {
			factor = append([]float64{}, m.PBR.BaseColorFactor...)
		}
		_, unlit := m.Extensions["KHR_materials_unlit"]
		_ = alpha
		if ok {
			if a, ok := s["alphaMode"].(string); ok {
				mode = strings.ToUpper(a)
			}
			if a := num(s, "alpha"); a > 0 {
				factor[3] = a
			}
			unlit = unlit || s["forceUnlit"] == true
			c.Label("material settings")
		}
		gm, gf := g.AlphaMode, []float64{1, 1, 1, 1}
		if gm == "" {
			gm = "OPAQUE"
		}
		if g.PBR != nil && g.PBR.BaseColorFactor != nil {
			gf = g.PBR.BaseColorFactor
		}
		_, gu := g.Extensions["KHR_materials_unlit"]
		if gm != mode || !nearList(factor, gf, 1e-6) || gu != unlit || g.Name != m.Name {
			c.Fatalf("material %q: mode %s colour %v unlit %v, want %s %v %v", m.Name, gm, gf, gu, mode, factor, unlit)
		}
	}
	// springs
	sub := func(i int) []int {
		out := []int{i}
		for k := 0; k < len(out); k++ {
			out = append(out, before.Nodes[out[k]].Children...)
		}
		return out
	}
	springs := e.SecondaryAnimation.BoneGroups
	if kept != nil {
		k := kept.SecondaryAnimation.BoneGroups
		if len(springs) < len(k) || len(k) > 0 && js(springs[:len(k)]) != js(k) {
			c.Fatalf("springs %s, want to begin with %s", js(springs), js(k))
		}
		springs = springs[len(k):]
	}
	taken := map[int]bool{}
	for _, g := range list(conf, "animationBoneGroups") {
		var got vrmSpring
		if len(springs) > 0 && springs[0].Comment == g["comment"] {
			got = springs[0]
			springs = springs[1:]
			if got.Stiffiness != num(g, "stiffiness") || got.GravityPower != num(g, "gravityPower") || got.DragForce != num(g, "dragForce") || got.HitRadius != num(g, "hitRadius") || got.Center != -1 {
				c.Fatalf("spring group %+v, want %v", got, g)
			}
			c.Label("springs")
		}
		cand := map[int]bool{}
		for _, pat := range strs(g, "nodeNames") {
			for name, i := range at {
				ok := name == pat
				if strings.ContainsAny(pat, "*?") {
					ok, _ = path.Match(pat, name)
				}
				if ok && before.Nodes[i].Mesh == nil {
					cand[i] = true
				}
			}
		}
		chosen := map[int]bool{}
		for _, i := range got.Bones {
			if !cand[i] || chosen[i] {
				c.Fatalf("spring group %q: node %d (%q) was not asked for", got.Comment, i, before.Nodes[i].Name)
			}
			chosen[i] = true
			for _, k := range sub(i) {
				if taken[k] {
					c.Fatalf("spring group %q: node %d below %d swings twice", got.Comment, k, i)
				}
				taken[k] = true
			}
		}
		for i := range cand {
			ok := false
			for _, k := range sub(i) {
				ok = ok || taken[k]
			}
			if !ok {
				c.Fatalf("spring group %v: node %d (%q) does not swing", g["comment"], i, before.Nodes[i].Name)
			}
		}
	}
	if len(springs) > 0 {
		c.Fatalf("unexpected spring group %+v", springs[0])
	}
	cols := e.SecondaryAnimation.ColliderGroups
	if kept != nil {
		k := kept.SecondaryAnimation.ColliderGroups
		if len(cols) < len(k) || len(k) > 0 && js(cols[:len(k)]) != js(k) {
			c.Fatalf("colliders %s, want to begin with %s", js(cols), js(k))
		}
		cols = cols[len(k):]
	}
	for _, w := range list(conf, "colliderGroups") {
		i, ok := at[w["nodeName"].(string)]
		if !ok {
			continue
		}
		if len(cols) == 0 || cols[0].Node != i || len(cols[0].Colliders) != 1 || cols[0].Colliders[0].Radius != list(w, "colliders")[0]["radius"] || js(cols[0].Colliders[0].Offset) != js(list(w, "colliders")[0]["offset"]) {
			c.Fatalf("colliders %s, want %s at node %d", js(cols), js(w), i)
		}
		cols = cols[1:]
		c.Label("colliders")
	}
	if len(cols) > 0 {
		c.Fatalf("unexpected collider %+v", cols[0])
	}
	// meta
	meta, ok := conf["meta"].(vm)
	if !ok && kept != nil {
		meta, ok = kept.Meta, true
	}
	if ok {
		for k, v := range meta {
			if e.Meta[k] != v {
				c.Fatalf("meta %s is %v, want %v", k, e.Meta[k], v)
			}
		}
	}
}

func loadConfig(c *hx.C, path string, conf vm) *converter.Config {
	b, err := json.MarshalIndent(conf, "", " ")
	if err != nil {
		panic(err)
	}
	if err := os.WriteFile(path, b, 0644); err != nil {
		panic(err)
	}
	cf, err := converter.LoadVRMConfig(path)
	if err != nil {
		c.Fatalf("configuration cannot be loaded: %v", err)
	}
	return cf
}

// installPreset puts a preset where the program finds it by name.
func installPreset(b []byte) (string, func()) {
	exe, err := os.Executable()
	if err != nil {
		panic(err)
	}
	d := filepath.Join(filepath.Dir(exe), "vrmconfig_presets")
	if err := os.MkdirAll(d, 0755); err != nil {
		panic(err)
	}
	name := fmt.Sprint("verif", os.Getpid())
	if err := os.WriteFile(filepath.Join(d, name+".json"), b, 0644); err != nil {
		panic(err)
	}
	return name, func() { os.Remove(filepath.Join(d, name+".json")) }
}

func propVRMConfig(c *hx.C) {
	dir, done := hx.Scratch(c)
	defer done()
	o := gltfx.FullDraw()
	o.MaxNodes = 12
	o.Animations, o.SharedLayout = false, false
	o.Names = vrmName
	before, doc, path := drawGLTF(c, o, dir)
	conf := drawVRMConfig(c, before, "")
	full := conf
	if gen.Chance(c.T, "lost preset", 30) {
		conf["preset"] = rapid.SampledFrom([]string{"nosuch", filepath.Join(dir, "nosuch.json")}).Draw(c.T, "nosuch")
		cf := loadConfig(c, filepath.Join(dir, "conf.json"), conf)
		if _, err := converter.ApplyVRMConfig(doc, filepath.Join(dir, "out.vrm"), filepath.Dir(path), cf); err == nil {
			c.Fatalf("the missing preset %v is not reported", conf["preset"])
		}
		return
	}
	switch rapid.IntRange(0, 3).Draw(c.T, "preset") {
	case 0:
		conf["preset"] = "mmd"
		full = withPreset(conf, mmdPreset())
		c.Label("mmd preset")
	case 1:
		p := drawVRMConfig(c, before, "p")
		pp := filepath.Join(dir, "base.json")
		b, _ := json.Marshal(p)
		os.WriteFile(pp, b, 0644)
		conf["preset"] = pp
		if gen.Chance(c.T, "installed", 3) {
			// a named preset, installed beside the program
			name, remove := installPreset(b)
			defer remove()
			conf["preset"] = name
			c.Label("installed preset")
		}
		full = withPreset(conf, p)
		c.Label("own preset")
	}
	if gen.Chance(c.T, "damaged config", 30) {
		// no JSON at all, or a value of another type
		p := filepath.Join(dir, "bad.json")
		b, _ := json.Marshal(conf)
		bad := rapid.SampledFrom([]string{string(b[:len(b)-1]), "", string(b) + "}", `{"boneMappings":{}}`, `{"preset":1}`, `{"materialSettings":[]}`}).Draw(c.T, "bad")
		os.WriteFile(p, []byte(bad), 0644)
		var err error
		if gen.Bool(c.T, "as preset") {
			_, err = converter.ApplyVRMConfig(doc, filepath.Join(dir, "out.vrm"), filepath.Dir(path), &converter.Config{Preset: p})
		} else if gen.Bool(c.T, "ToVRM") {
			_, err = converter.ToVRM(doc, filepath.Join(dir, "out.vrm"), filepath.Dir(path), p)
		} else {
			_, err = converter.LoadVRMConfig(p)
		}
		if err == nil {
			c.Fatalf("the damaged configuration %q is not reported", bad)
		}
		c.Label("damaged configuration")
		return
	}
	if gen.Bool(c.T, "allMorph") {
		conf["exportAllMorph"] = true
		full["exportAllMorph"] = true
	}
	cf := loadConfig(c, filepath.Join(dir, "conf.json"), conf)
	apply := func() (*vrm.Document, error) {
		return converter.ApplyVRMConfig(doc, filepath.Join(dir, "out.vrm"), filepath.Dir(path), cf)
	}
	if gen.Chance(c.T, "by file", 4) {
		apply = func() (*vrm.Document, error) {
			return converter.ToVRM(doc, filepath.Join(dir, "out.vrm"), filepath.Dir(path), filepath.Join(dir, "conf.json"))
		}
		c.Label("ToVRM")
	}
	vdoc, err := apply()
	if err != nil {
		c.Fatalf("cannot be prepared: %v", err)
	}
	if gen.Chance(c.T, "twice", 3) {
		d2, err := gltfutil.Load(path)
		if err != nil {
			c.Fatalf("cannot be loaded: %v", err)
		}
		if _, err := converter.ApplyVRMConfig(d2, filepath.Join(dir, "out.vrm"), filepath.Dir(path), loadConfig(c, filepath.Join(dir, "conf.json"), conf)); err != nil {
			c.Fatalf("cannot be prepared: %v", err)
		}
		if a, b := js(doc.Extensions["VRM"]), js(d2.Extensions["VRM"]); a != b {
			c.Fatalf("preparing twice gives %s and %s", a, b)
		}
		c.Label("twice")
	}
	missing := vdoc.ValidateBones()
	out := filepath.Join(dir, "out.vrm")
	after := reload(c, doc, out)
	checkValid(c, before, after)
	e := readVRM(c, after)
	checkConfig(c, before, after, e, full, nil)
	lost := 0
	for _, name := range requiredBones {
		ok := false
		for _, b := range e.Humanoid.HumanBones {
			ok = ok || b.Bone == name
		}
		if !ok {
			lost++
			if missing == nil || !strings.Contains(missing.Error(), name) {
				c.Fatalf("required bone %q is missing, reported %v", name, missing)
			}
		}
	}
	if lost == 0 && missing != nil {
		c.Fatalf("missing bones reported: %v", missing)
	}
	if len(before.Nodes) > 0 && len(full) > 0 {
		c.NonTrivial(js(full) + fmt.Sprint(before.Raw))
	}
	// the finished model may be converted again
	doc2, err := gltfutil.Load(out)
	if err != nil {
		c.Fatalf("cannot be loaded: %v", err)
	}
	conf2 := vm{}
	if gen.Bool(c.T, "second") {
		conf2 = drawVRMConfig(c, after, "s")
		c.Label("second configuration")
	}
	if ext, ok := doc2.Extensions[vrm.ExtensionName].(*vrm.VRM); ok && gen.Chance(c.T, "material properties", 4) {
		// those of a model that had other materials
		if n := len(ext.MaterialProperties); n > 0 && gen.Bool(c.T, "fewer properties") {
			ext.MaterialProperties = ext.MaterialProperties[:n-1]
		} else {
			ext.MaterialProperties = append(ext.MaterialProperties, vrm.NewMaterialProperty("gone"))
		}
		c.Label("other material properties")
	}
	cf2 := loadConfig(c, filepath.Join(dir, "conf2.json"), conf2)
	if _, err := converter.ApplyVRMConfig(doc2, filepath.Join(dir, "again.vrm"), dir, cf2); err != nil {
		c.Fatalf("cannot be prepared again: %v", err)
	}
	again := reload(c, doc2, filepath.Join(dir, "again.vrm"))
	checkConfig(c, after, again, readVRM(c, again), conf2, e)
}

// spring bones and colliders made from physics bodies
func propVRMPhysics(c *hx.C) {
	dir, done := hx.Scratch(c)
	defer done()
	o := gen.FullModel()
	o.Textures, o.Morphs, o.OddMaterials, o.NoNormals = false, false, false, true
	o.Physics = true
	m := gen.DrawModel(c.T, o, dir)
	opt := drawOption(c)
	opt.ConvertPhysics = true
	v := convert(c, m, opt)
	doc := v.doc
	cf := &converter.Config{AnimationBoneFromPhysics: gen.Bool(c.T, "springs"), ConvertPhysicsCollider: gen.Bool(c.T, "colliders")}
	if _, err := converter.ApplyVRMConfig(doc, filepath.Join(dir, "out.vrm"), dir, cf); err != nil {
		c.Fatalf("cannot be prepared: %v", err)
	}
	after := reload(c, doc, filepath.Join(dir, "out.vrm"))
	e := readVRM(c, after)
	// reference, from the physics of the exported file
	type body struct {
		Static bool
		Shapes []struct {
			ShapeType         string
			OffsetScale       []float64
			OffsetTranslation []float64
		} `json:"collisionShapes"`
	}
	bodies := map[int]*body{}
	for i, n := range v.out.Nodes {
		if raw, ok := n.Extensions["BLENDER_physics"]; ok {
			var b body
			if err := json.Unmarshal(raw, &b); err != nil {
				panic(err)
			}
			bodies[i] = &b
		}
		if _, ok := after.Nodes[i].Extensions["BLENDER_physics"]; ok {
			c.Fatalf("node %d still has physics", i)
		}
	}
	var swings func(i int) bool
	swings = func(i int) bool {
		b := bodies[i]
		if b == nil || b.Static {
			return false
		}
		for _, k := range v.out.Nodes[i].Children {
			if !swings(k) && (bodies[k] != nil || len(v.out.Nodes[k].Children) > 0) {
				return false
			}
		}
		return true
	}
	parents := v.out.Parents()
	var want []int
	if cf.AnimationBoneFromPhysics {
		for i := range v.out.Nodes {
			if swings(i) && (parents[i] < 0 || !swings(parents[i])) && v.out.Nodes[i].Mesh == nil {
				want = append(want, i)
			}
		}
	}
	var got []int
	for _, g := range e.SecondaryAnimation.BoneGroups {
		got = append(got, g.Bones...)
	}
	sort.Ints(got)
	if fmt.Sprint(got) != fmt.Sprint(want) {
		c.Fatalf("spring bones %v, want %v", got, want)
	}
	var wc, gc []string
	if cf.ConvertPhysicsCollider {
		for i, b := range bodies {
			if b.Static {
				for _, s := range b.Shapes {
					if (s.ShapeType == "SPHERE" || s.ShapeType == "CAPSULE") && s.OffsetScale[0] != 0 {
						wc = append(wc, fmt.Sprint(i, float32(s.OffsetScale[0]), f32s(s.OffsetTranslation)))
					}
				}
			}
		}
	}
	for _, g := range e.SecondaryAnimation.ColliderGroups {
		for _, x := range g.Colliders {
			gc = append(gc, fmt.Sprint(g.Node, float32(x.Radius), f32s([]float64{x.Offset["x"], x.Offset["y"], x.Offset["z"]})))
		}
	}
	sort.Strings(wc)
	sort.Strings(gc)
	if fmt.Sprint(wc) != fmt.Sprint(gc) {
		c.Fatalf("colliders %v, want %v", gc, wc)
	}
	c.LabelIf(len(want) > 0, "physics springs")
	c.LabelIf(len(wc) > 0, "physics colliders")
	if len(bodies) > 0 {
		c.NonTrivial(gen.DescribeMQO(v.src) + fmt.Sprintf("%+v", *cf))
	}
}

func f32s(v []float64) []float32 {
	var out []float32
	for _, x := range v {
		out = append(out, float32(x))
	}
	return out
}

func TestC19(t *testing.T) {
	hx.Main(t, "C19", hx.Leg{Name: "config", Quick: 1000, Prop: propVRMConfig}, hx.Leg{Name: "physics", Quick: 500, Prop: propVRMPhysics})
}
