package gltfx

import (
	"encoding/json"

	"pgregory.net/rapid"

	"verif/harness/gen"
)

func anyValue(t *gen.T, depth int) interface{} {
	switch k := rapid.IntRange(0, 8).Draw(t, "x.kind"); {
	case k == 0:
		return rapid.SampledFrom([]interface{}{true, false}).Draw(t, "x.bool")
	case k == 1:
		return float64(rapid.IntRange(-1<<40, 1<<40).Draw(t, "x.int"))
	case k == 2:
		return rapid.SampledFrom([]float64{0, 0.1, -1.5, 1e-9, 123456.789, 3e20}).Draw(t, "x.num")
	case k <= 5 || depth > 2:
		return rapid.SampledFrom([]string{"", "a", "テスト", "<b>&\"", "line\nbreak", "\u2028"}).Draw(t, "x.str")
	case k == 6:
		l := []interface{}{}
		for n := rapid.IntRange(0, 3).Draw(t, "x.len"); n > 0; n-- {
			l = append(l, anyValue(t, depth+1))
		}
		return l
	}
	return anyObject(t, depth+1)
}

func anyObject(t *gen.T, depth int) M {
	m := M{}
	for n := rapid.IntRange(0, 3).Draw(t, "x.keys"); n > 0; n-- {
		m[rapid.SampledFrom([]string{"a", "b", "Name", "値", "with space", "mesh", "node"}).Draw(t, "x.key")] = anyValue(t, depth+1)
	}
	return m
}

// Decorate adds what no conversion interprets: extras, unknown extensions,
// cameras, samplers, names, further scenes and file information.
func (d *Drawn) Decorate(t *gen.T) {
	js, err := json.Marshal(d.JSON)
	if err != nil {
		panic(err)
	}
	j := M{}
	json.Unmarshal(js, &j)
	used := map[string]bool{}
	l, _ := j["extensionsUsed"].([]interface{})
	for _, x := range l {
		used[x.(string)] = true
	}
	extra := func(o M, at string) {
		if gen.Chance(t, at+".extras?", 3) && o["extras"] == nil {
			o["extras"] = anyObject(t, 0)
			if at != "mesh" && gen.Chance(t, at+".plain", 4) {
				o["extras"] = anyValue(t, 0)
			}
		}
		if gen.Chance(t, at+".ext?", 4) {
			e, _ := o["extensions"].(M)
			if e == nil {
				e = M{}
			}
			n := rapid.SampledFrom([]string{"EXT_test", "VENDOR_more", "KHR_texture_basisu_x"}).Draw(t, at+".extname")
			if e[n] == nil {
				e[n] = anyObject(t, 0)
				used[n] = true
			}
			o["extensions"] = e
		}
	}
	list := func(key string) []M {
		var r []M
		l, _ := j[key].([]interface{})
		for _, x := range l {
			r = append(r, x.(M))
		}
		return r
	}
	put := func(key string, l []M) {
		var r []interface{}
		for _, x := range l {
			r = append(r, x)
		}
		j[key] = r
	}
	nodes := list("nodes")
	if gen.Bool(t, "cameras") {
		var cams []M
		for n := rapid.IntRange(1, 2).Draw(t, "ncameras"); n > 0; n-- {
			c := M{"type": "perspective"}
			if gen.Bool(t, "camname") {
				c["name"] = gen.Ident(t, "camn")
			}
			if gen.Bool(t, "ortho") {
				c["type"] = "orthographic"
				c["orthographic"] = M{"xmag": float64(rapid.IntRange(1, 9).Draw(t, "xmag")), "ymag": 2.5, "zfar": 100.0, "znear": 0.0}
			} else {
				p := M{"yfov": float64(rapid.IntRange(1, 9).Draw(t, "yfov")) / 8, "znear": 0.125}
				if gen.Bool(t, "aspect") {
					p["aspectRatio"] = 1.5
				}
				if gen.Bool(t, "zfar") {
					p["zfar"] = 1000.0
				}
				c["perspective"] = p
			}
			extra(c, "camera")
			cams = append(cams, c)
		}
		put("cameras", cams)
		for _, n := range nodes {
			if gen.Chance(t, "node.camera?", 3) {
				n["camera"] = rapid.IntRange(0, len(cams)-1).Draw(t, "node.camera")
			}
		}
	}
	texs := list("textures")
	if len(texs) > 0 && gen.Bool(t, "samplers") {
		var ss []M
		for n := rapid.IntRange(1, 3).Draw(t, "nsamplers"); n > 0; n-- {
			s := M{}
			if gen.Bool(t, "mag") {
				s["magFilter"] = rapid.SampledFrom([]int{9728, 9729}).Draw(t, "magv")
			}
			if gen.Bool(t, "min") {
				s["minFilter"] = rapid.SampledFrom([]int{9728, 9729, 9984, 9985, 9986, 9987}).Draw(t, "minv")
			}
			if gen.Bool(t, "ws") {
				s["wrapS"] = rapid.SampledFrom([]int{33071, 33648, 10497}).Draw(t, "wsv")
			}
			if gen.Bool(t, "wt") {
				s["wrapT"] = rapid.SampledFrom([]int{33071, 33648, 10497}).Draw(t, "wtv")
			}
			extra(s, "sampler")
			ss = append(ss, s)
		}
		put("samplers", ss)
		for _, x := range texs {
			if gen.Bool(t, "tex.sampler?") {
				x["sampler"] = rapid.IntRange(0, len(ss)-1).Draw(t, "tex.sampler")
			}
		}
	}
	for _, x := range texs {
		if gen.Chance(t, "tex.name?", 3) {
			x["name"] = gen.Ident(t, "tex.name")
		}
		extra(x, "texture")
	}
	for _, m := range list("materials") {
		extra(m, "material")
		if len(texs) == 0 {
			continue
		}
		info := func(p string) M {
			i := M{"index": rapid.IntRange(0, len(texs)-1).Draw(t, p)}
			if gen.Bool(t, p+".coord?") {
				i["texCoord"] = rapid.IntRange(0, 1).Draw(t, p+".coord")
			}
			if gen.Chance(t, p+".transform?", 4) {
				i["extensions"] = M{"KHR_texture_transform": M{"offset": []interface{}{0.25, 0.1}, "scale": []interface{}{2.0, 3.0}, "rotation": 0.5}}
				used["KHR_texture_transform"] = true
			}
			extra(i, p)
			return i
		}
		if gen.Chance(t, "normalTexture", 4) {
			i := info("normal")
			if gen.Bool(t, "normalScale") {
				i["scale"] = rapid.SampledFrom([]float64{0, 0.5, 1, 2}).Draw(t, "normalScaleV")
			}
			m["normalTexture"] = i
		}
		if gen.Chance(t, "occlusionTexture", 4) {
			i := info("occlusion")
			if gen.Bool(t, "strength") {
				i["strength"] = rapid.SampledFrom([]float64{0, 0.5, 1}).Draw(t, "strengthV")
			}
			m["occlusionTexture"] = i
		}
		if gen.Chance(t, "emissiveTexture", 4) {
			m["emissiveTexture"] = info("emissive")
		}
		if p, ok := m["pbrMetallicRoughness"].(M); ok && gen.Chance(t, "mrTexture", 4) {
			p["metallicRoughnessTexture"] = info("mr")
			extra(p, "pbr")
		}
	}
	for _, n := range nodes {
		extra(n, "node")
		if mi, ok := n["mesh"].(float64); ok && gen.Chance(t, "node.weights?", 3) {
			p := list("meshes")[int(mi)]["primitives"].([]interface{})[0].(M)
			if ts, ok := p["targets"].([]interface{}); ok {
				w := []interface{}{}
				for range ts {
					w = append(w, rapid.SampledFrom([]float64{0, 0.5, 1}).Draw(t, "node.weight"))
				}
				n["weights"] = w
			}
		}
	}
	for _, m := range list("meshes") {
		ps := m["primitives"].([]interface{})
		ts, _ := ps[0].(M)["targets"].([]interface{})
		if _, ok := m["extras"].(M); ok || m["extras"] == nil {
			extra(m, "mesh")
			if len(ts) > 0 && gen.Chance(t, "mesh.weights?", 3) {
				w := []interface{}{}
				for range ts {
					w = append(w, rapid.SampledFrom([]float64{0, 0.25, 1}).Draw(t, "mesh.weight"))
				}
				m["weights"] = w
			}
		}
		for _, p := range ps {
			extra(p.(M), "primitive")
		}
	}
	for _, k := range []string{"skins", "animations", "accessors", "bufferViews", "images"} {
		for _, x := range list(k) {
			if gen.Chance(t, "decorated", 3) {
				extra(x, k)
				if gen.Chance(t, k+".name?", 3) && k != "bufferViews" {
					x["name"] = gen.Ident(t, k+".name")
				}
			}
		}
	}
	for _, a := range list("animations") {
		for _, k := range []string{"samplers", "channels"} {
			for _, x := range a[k].([]interface{}) {
				extra(x.(M), k)
			}
		}
	}
	scenes := list("scenes")
	for n := rapid.IntRange(0, 2).Draw(t, "scenes"); n > 0; n-- {
		s := M{}
		if r, ok := scenes[0]["nodes"].([]interface{}); ok && len(r) > 0 && gen.Bool(t, "scene.nodes") {
			s["nodes"] = r[:rapid.IntRange(1, len(r)).Draw(t, "scene.n")]
		}
		scenes = append(scenes, s)
	}
	for _, s := range scenes {
		if gen.Bool(t, "scene.name?") {
			s["name"] = gen.Ident(t, "scene.name")
		}
		extra(s, "scene")
	}
	put("scenes", scenes)
	switch rapid.IntRange(0, 3).Draw(t, "scene") {
	case 0:
		delete(j, "scene")
	case 1:
		j["scene"] = rapid.IntRange(0, len(scenes)-1).Draw(t, "scene.i")
	}
	as := j["asset"].(M)
	if gen.Bool(t, "generator") {
		as["generator"] = "gen " + gen.Ident(t, "gen")
	}
	if gen.Bool(t, "copyright") {
		as["copyright"] = rapid.SampledFrom([]string{"2020 (c) 作者", "CC0"}).Draw(t, "copy")
	}
	if gen.Chance(t, "minVersion", 4) {
		as["minVersion"] = "2.0"
	}
	extra(as, "asset")
	extra(j, "document")
	for i := range list("nodes") {
		if gen.Chance(t, "lightnode", 8) {
			e, _ := j["extensions"].(M)
			if e == nil {
				e = M{}
				j["extensions"] = e
			}
			e["KHR_lights_punctual"] = M{"lights": []interface{}{M{"type": "spot", "color": []interface{}{1.0, 0.5, 0.0}, "spot": M{"innerConeAngle": 0.1, "outerConeAngle": 0.5}, "range": 3.0}}}
			ne, _ := nodes[i]["extensions"].(M)
			if ne == nil {
				ne = M{}
				nodes[i]["extensions"] = ne
			}
			ne["KHR_lights_punctual"] = M{"light": 0.0}
			used["KHR_lights_punctual"] = true
		}
	}
	var names []interface{}
	for _, k := range []string{"KHR_materials_unlit", "EXT_test", "KHR_texture_transform", "VENDOR_more", "KHR_lights_punctual", "KHR_texture_basisu_x"} {
		if used[k] {
			names = append(names, k)
		}
	}
	if gen.Chance(t, "declared", 4) {
		names = append(names, "EXT_unused")
	}
	if len(names) > 0 {
		j["extensionsUsed"] = names
		if gen.Chance(t, "required", 4) {
			j["extensionsRequired"] = names[:1]
		}
	}
	d.JSON = j
}

// HumanBones are the names VRM knows; the first 17 are required by the
// converter.
var HumanBones = []string{"hips", "spine", "chest", "neck", "head", "leftUpperArm", "leftLowerArm", "leftHand", "rightUpperArm", "rightLowerArm", "rightHand",
	"leftUpperLeg", "leftLowerLeg", "leftFoot", "rightUpperLeg", "rightLowerLeg", "rightFoot",
	"leftShoulder", "rightShoulder", "leftToes", "rightToes", "leftEye", "rightEye", "jaw", "upperChest", "leftThumbProximal", "rightLittleDistal"}

// AddVRM gives the document a VRM extension, with references to its nodes,
// meshes, targets and textures.
func (d *Drawn) AddVRM(t *gen.T) {
	js, _ := json.Marshal(d.JSON)
	j := M{}
	json.Unmarshal(js, &j)
	count := func(k string) int { l, _ := j[k].([]interface{}); return len(l) }
	nn, nm, nt := count("nodes"), count("materials"), count("textures")
	str := func(n string) string {
		return rapid.SampledFrom([]string{"", "x", "名前", "a \"b\" <c>", "0.1"}).Draw(t, "vrm."+n)
	}
	f := func(n string) float64 {
		return rapid.SampledFrom([]float64{0, 1, 0.1, -0.25, 100, 1e-7}).Draw(t, "vrm."+n)
	}
	has := func(n string) bool { return gen.Bool(t, "vrm."+n+"?") }
	node := func(n string) float64 { return float64(rapid.IntRange(0, nn-1).Draw(t, "vrm."+n)) }
	xyz := func(n string) M { return M{"x": f(n + ".x"), "y": f(n + ".y"), "z": f(n + ".z")} }
	v := M{}
	if has("exporter") {
		v["exporterVersion"] = "UniVRM-0.99"
	}
	if has("spec") {
		v["specVersion"] = "0.0"
	}
	meta := M{}
	for _, k := range []string{"title", "version", "author", "contactInformation", "reference", "allowedUserName", "violentUssageName", "sexualUssageName",
		"commercialUssageName", "otherPermissionUrl", "licenseName", "otherLicenseUrl"} {
		if has(k) {
			meta[k] = str(k)
		}
	}
	if has("texture") && nt > 0 {
		meta["texture"] = float64(rapid.IntRange(0, nt-1).Draw(t, "vrm.texture"))
	}
	if has("meta") {
		v["meta"] = meta
	}
	hum := M{}
	var bones []interface{}
	names := rapid.Permutation(HumanBones).Draw(t, "vrm.bones")
	nb := rapid.IntRange(0, 6).Draw(t, "vrm.nbones")
	if gen.Chance(t, "vrm.all", 4) {
		nb = len(names)
	}
	for _, n := range names[:nb] {
		b := M{"bone": n, "node": node("bone"), "useDefaultValues": has("def")}
		for _, k := range []string{"min", "max", "center"} {
			if has(k) {
				b[k] = rapid.SampledFrom([]interface{}{[]interface{}{0.0, 0.0, 0.0}, []interface{}{-30.0, 0.5, 90.0}, []interface{}{0.1, 0.0, 0.0}}).Draw(t, "vrm."+k)
				if gen.Bool(t, "vrm.asxyz") {
					l := b[k].([]interface{})
					b[k] = M{"x": l[0], "y": l[1], "z": l[2]}
				}
			}
		}
		if has("axis") {
			b["axisLength"] = f("axis")
		}
		bones = append(bones, b)
	}
	if bones != nil || has("nobones") {
		hum["humanBones"] = bones
	}
	for _, k := range []string{"armStretch", "legStretch", "upperArmTwist", "lowerArmTwist", "upperLegTwist", "lowerLegTwist", "feetSpacing"} {
		if gen.Chance(t, "vrm."+k+"?", 3) {
			hum[k] = f(k)
		}
	}
	if has("dof") {
		hum["hasTranslationDoF"] = has("dofv")
	}
	if has("humanoid") || bones != nil {
		v["humanoid"] = hum
	}
	if has("first") {
		p := M{}
		if has("first.bone") {
			p["firstPersonBone"] = node("first") - float64(rapid.IntRange(0, 1).Draw(t, "vrm.none"))
		}
		if has("first.offset") {
			p["firstPersonBoneOffset"] = xyz("offset")
		}
		if has("annotations") && count("meshes") > 0 {
			p["meshAnnotations"] = []interface{}{M{"mesh": 0.0, "firstPersonFlag": rapid.SampledFrom([]string{"Auto", "Both"}).Draw(t, "vrm.flag")}}
		}
		if has("look") {
			p["lookAtTypeName"] = rapid.SampledFrom([]string{"Bone", "BlendShape"}).Draw(t, "vrm.look")
		}
		for _, k := range []string{"lookAtHorizontalInner", "lookAtHorizontalOuter", "lookAtVerticalDown", "lookAtVerticalUp"} {
			if has(k) {
				p[k] = M{"curve": []interface{}{0.0, 0.0, 0.0, 1.0, f("curve")}, "xRange": f("xrange"), "yRange": 10.0}
			}
		}
		v["firstPerson"] = p
	}
	if has("shapes") {
		var gs []interface{}
		for n := rapid.IntRange(0, 3).Draw(t, "vrm.nshapes"); n > 0; n-- {
			g := M{"name": str("shape"), "presetName": rapid.SampledFrom([]string{"joy", "unknown", "a"}).Draw(t, "vrm.preset")}
			if has("binary") {
				g["isBinary"] = has("binaryv")
			}
			if has("binds") {
				bs := []interface{}{}
				ms, _ := j["meshes"].([]interface{})
				for i, m := range ms {
					ts, _ := m.(M)["primitives"].([]interface{})[0].(M)["targets"].([]interface{})
					if len(ts) > 0 && has("bind") {
						bs = append(bs, M{"mesh": float64(i), "index": float64(rapid.IntRange(0, len(ts)-1).Draw(t, "vrm.index")), "weight": f("weight")})
					}
				}
				g["binds"] = bs
			}
			if has("matvalues") && nm > 0 {
				g["materialValues"] = []interface{}{M{"materialName": str("matname"), "propertyName": "_Color", "targetValue": []interface{}{f("mv"), 0.0, 1.0, f("mw")}}}
			}
			gs = append(gs, g)
		}
		m := M{}
		if gs != nil || has("noshapes") {
			m["blendShapeGroups"] = gs
		}
		v["blendShapeMaster"] = m
	}
	if has("springs") {
		s := M{}
		nc := rapid.IntRange(0, 2).Draw(t, "vrm.ncolliders")
		var cs, bs []interface{}
		for i := 0; i < nc; i++ {
			var l []interface{}
			for n := rapid.IntRange(0, 2).Draw(t, "vrm.nspheres"); n > 0; n-- {
				l = append(l, M{"radius": f("radius"), "offset": xyz("collider")})
			}
			cs = append(cs, M{"node": node("collider"), "colliders": l})
		}
		for n := rapid.IntRange(0, 2).Draw(t, "vrm.nsprings"); n > 0; n-- {
			g := M{"bones": []interface{}{}}
			for _, k := range []string{"stiffiness", "gravityPower", "dragForce", "hitRadius"} {
				if has(k) {
					g[k] = f(k)
				}
			}
			if has("comment") {
				g["comment"] = str("comment")
			}
			if has("gravity") {
				g["gravityDir"] = xyz("gravity")
			}
			if has("center") {
				g["center"] = node("center") - float64(rapid.IntRange(0, 1).Draw(t, "vrm.nocenter"))
			}
			for k := rapid.IntRange(0, 3).Draw(t, "vrm.nspringbones"); k > 0; k-- {
				g["bones"] = append(g["bones"].([]interface{}), node("springbone"))
			}
			if nc > 0 && has("collides") {
				g["colliderGroups"] = []interface{}{float64(rapid.IntRange(0, nc-1).Draw(t, "vrm.cgroup"))}
			}
			bs = append(bs, g)
		}
		if bs != nil || has("nosprings") {
			s["boneGroups"] = bs
		}
		if cs != nil || has("nocolliders") {
			s["colliderGroups"] = cs
		}
		v["secondaryAnimation"] = s
	}
	if has("materials") {
		ps := []interface{}{}
		ms, _ := j["materials"].([]interface{})
		for _, m := range ms {
			p := M{"name": m.(M)["name"], "shader": rapid.SampledFrom([]string{"VRM/MToon", "VRM_USE_GLTFSHADER", "Standard"}).Draw(t, "vrm.shader"),
				"renderQueue": float64(rapid.IntRange(-1, 3000).Draw(t, "vrm.queue"))}
			if has("floats") {
				p["floatProperties"] = M{"_Cutoff": f("cutoff"), "_BumpScale": f("bump")}
			}
			if has("vectors") {
				p["vectorProperties"] = M{"_Color": []interface{}{f("r"), f("g"), 0.0, 1.0}}
			}
			if has("textures") && nt > 0 {
				p["textureProperties"] = M{"_MainTex": float64(rapid.IntRange(0, nt-1).Draw(t, "vrm.maintex"))}
			}
			if has("keywords") {
				p["keywordMap"] = M{"_ALPHABLEND_ON": has("kw"), "_NORMALMAP": true}
			}
			if has("tags") {
				p["tagMap"] = M{"RenderType": "Opaque", "empty": ""}
			}
			ps = append(ps, p)
		}
		v["materialProperties"] = ps
	}
	e, _ := j["extensions"].(M)
	if e == nil {
		e = M{}
		j["extensions"] = e
	}
	e["VRM"] = v
	l, _ := j["extensionsUsed"].([]interface{})
	j["extensionsUsed"] = append(l, "VRM")

	d.JSON = j
}
