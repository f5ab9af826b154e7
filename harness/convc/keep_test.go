package convc

import (
	"context"
	"encoding/json"
	"fmt"
	"math"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"testing"
	"time"

	"github.com/binzume/modelconv/converter"
	"github.com/binzume/modelconv/gltfutil"
	"github.com/binzume/modelconv/vrm"
	"github.com/qmuntal/gltf"
	"pgregory.net/rapid"

	"verif/harness/gen"
	"verif/harness/gltfx"
	"verif/harness/hx"
)

// values that may be left out because they are what is meant without them
var gltfDefaults = map[string][]interface{}{
	"byteOffset": {0.0}, "texCoord": {0.0}, "normalized": {false}, "doubleSided": {false}, "mode": {4.0}, "alphaMode": {"OPAQUE"}, "alphaCutoff": {0.5},
	"interpolation": {"LINEAR"}, "metallicFactor": {1.0}, "roughnessFactor": {1.0}, "wrapS": {10497.0}, "wrapT": {10497.0},
	"strength": {1.0}, "baseColorFactor": {[]interface{}{1.0, 1.0, 1.0, 1.0}}, "emissiveFactor": {[]interface{}{0.0, 0.0, 0.0}},
	"translation": {[]interface{}{0.0, 0.0, 0.0}}, "rotation": {[]interface{}{0.0, 0.0, 0.0, 1.0}}, "scale": {1.0, []interface{}{1.0, 1.0, 1.0}},
	"matrix":   {[]interface{}{1.0, 0.0, 0.0, 0.0, 0.0, 1.0, 0.0, 0.0, 0.0, 0.0, 1.0, 0.0, 0.0, 0.0, 0.0, 1.0}},
	"children": {[]interface{}{}}, "weights": {[]interface{}{}}, "extensionsUsed": {[]interface{}{}}, "extensionsRequired": {[]interface{}{}}, "nodes": {[]interface{}{}},
	"name": {""}, "pbrMetallicRoughness": {vm{}}, "mimeType": {""}, "generator": {""}, "copyright": {""}, "minVersion": {""}, "uri": {""},
}

// sameJSON compares two glTF documents, or parts of them. Numbers of the
// format are single precision; extras and extensions are compared as they are.
func sameJSON(path string, got, want interface{}, exact bool, skip func(path string) bool) string {
	if skip(path) {
		return ""
	}
	switch w := want.(type) {
	case vm:
		g, ok := got.(vm)
		if !ok {
			return fmt.Sprintf("%s: got %s, want %s", path, js(got), js(want))
		}
		var keys []string
		for k := range w {
			keys = append(keys, k)
		}
		for k := range g {
			if _, ok := w[k]; !ok {
				keys = append(keys, k)
			}
		}
		sort.Strings(keys)
		for _, k := range keys {
			p := path + "." + k
			if skip(p) {
				continue
			}
			a, ok1 := g[k]
			b, ok2 := w[k]
			if ok1 != ok2 && !exact && (p == ".extensions" || p == ".bufferViews") {
				// may hold only what was added
				a, b, ok1, ok2 = orEmpty(a, b), orEmpty(b, a), true, true
			}
			if ok1 != ok2 && !exact {
				one := a
				if ok2 {
					one = b
				}
				fine := false
				for _, d := range gltfDefaults[k] {
					fine = fine || reflect.DeepEqual(d, one)
				}
				if fine {
					continue
				}
			}
			if !ok1 {
				return fmt.Sprintf("%s: lost %s", p, js(b))
			}
			if !ok2 {
				return fmt.Sprintf("%s: new %s", p, js(a))
			}
			if d := sameJSON(p, a, b, exact || k == "extras" || k == "extensions", skip); d != "" {
				return d
			}
		}
		return ""
	case []interface{}:
		g, ok := got.([]interface{})
		if !ok || len(g) < len(w) || len(g) > len(w) && !skip(path+"+") {
			return fmt.Sprintf("%s: got %s, want %s", path, js(got), js(want))
		}
		for i := range w {
			if d := sameJSON(fmt.Sprintf("%s[%d]", path, i), g[i], w[i], exact, skip); d != "" {
				return d
			}
		}
		return ""
	case float64:
		g, ok := got.(float64)
		if ok && (g == w || !exact && (float32(g) == float32(w) || math.Abs(g-w) <= 1e-6*math.Max(math.Abs(g), math.Abs(w)))) {
			return ""
		}
	default:
		if reflect.DeepEqual(got, want) {
			return ""
		}
	}
	return fmt.Sprintf("%s: got %s, want %s", path, js(got), js(want))
}

func orEmpty(v, other interface{}) interface{} {
	if _, ok := other.(vm); ok && v == nil {
		return vm{}
	}
	if v == nil {
		return []interface{}{}
	}
	return v
}

// what VRM files may leave out if it is empty
var vrmOptional = map[string]bool{"axisLength": true, "firstPersonBoneOffset": true, "meshAnnotations": true, "lookAtTypeName": true, "lookAtHorizontalInner": true,
	"lookAtHorizontalOuter": true, "lookAtVerticalDown": true, "lookAtVerticalUp": true, "allowedUserName": true, "violentUssageName": true, "sexualUssageName": true,
	"commercialUssageName": true, "otherPermissionUrl": true, "reference": true, "materialValues": true, "isBinary": true, "specVersion": true, "boneGroups": true,
	"colliderGroups": true, "gravityDir": true, "secondaryAnimation": true}

// whose absence means "none", which is -1
var vrmNone = map[string]bool{"firstPersonBone": true, "center": true}

func emptyJSON(v interface{}) bool {
	switch x := v.(type) {
	case nil:
		return true
	case string:
		return x == ""
	case bool:
		return !x
	case float64:
		return x == 0
	case []interface{}:
		return len(x) == 0
	case vm:
		for _, y := range x {
			if !emptyJSON(y) {
				return false
			}
		}
		return true
	}
	return false
}

// limitsOf brings the limits of bones to one form
func vrmLimits(v vm) {
	h, _ := v["humanoid"].(vm)
	l, _ := h["humanBones"].([]interface{})
	for _, b := range l {
		for _, k := range []string{"min", "max", "center"} {
			if a, ok := b.(vm)[k].([]interface{}); ok {
				b.(vm)[k] = vm{"x": a[0], "y": a[1], "z": a[2]}
			}
		}
	}
}

func sameVRM(path string, got, want interface{}) string {
	if want == nil || got == nil {
		if emptyJSON(want) && emptyJSON(got) {
			return ""
		}
		return fmt.Sprintf("%s: got %s, want %s", path, js(got), js(want))
	}
	switch w := want.(type) {
	case vm:
		g, ok := got.(vm)
		if !ok {
			break
		}
		for k, b := range w {
			a, ok := g[k]
			if !ok && !emptyJSON(b) || !ok && b != nil && !vrmOptional[k] && k != "humanoid" && k != "blendShapeMaster" && k != "meta" {
				return fmt.Sprintf("%s.%s: lost %s", path, k, js(b))
			}
			if !ok {
				continue
			}
			if d := sameVRM(path+"."+k, a, b); d != "" {
				return d
			}
		}
		for k, a := range g {
			if _, ok := w[k]; ok || emptyJSON(a) && !vrmNone[k] || vrmNone[k] && a == -1.0 {
				continue
			}
			if x, ok := a.(vm); ok {
				// an object whose members mean nothing
				if d := sameVRM(path+"."+k, x, vm{}); d == "" {
					continue
				}
			}
			return fmt.Sprintf("%s.%s: new %s", path, k, js(a))
		}
		return ""
	case []interface{}:
		g, ok := got.([]interface{})
		if !ok || len(g) != len(w) {
			break
		}
		for i := range w {
			if d := sameVRM(fmt.Sprintf("%s[%d]", path, i), g[i], w[i]); d != "" {
				return d
			}
		}
		return ""
	case float64:
		g, ok := got.(float64)
		if ok && (g == w || strings.Contains(path, ".humanBones") && math.Abs(g-w) <= 1e-6*math.Abs(w)) {
			return ""
		}
	default:
		if got == want {
			return ""
		}
	}
	return fmt.Sprintf("%s: got %s, want %s", path, js(got), js(want))
}

func vrmOf(d *gltfx.Doc) vm {
	e, _ := d.Raw["extensions"].(vm)
	v, _ := e["VRM"].(vm)
	return v
}

// packing skips what putting a document into other files may change
func packing(p string) bool {
	if strings.HasSuffix(p, ".extensions.VRM") && strings.Count(p, ".") == 2 || p == ".buffers" || p == ".bufferViews+" {
		return true
	}
	if strings.HasPrefix(p, ".bufferViews[") {
		return strings.HasSuffix(p, "].buffer") || strings.HasSuffix(p, "].byteOffset")
	}
	return strings.HasPrefix(p, ".images[") && strings.Count(p, ".") == 2 && (strings.HasSuffix(p, ".uri") || strings.HasSuffix(p, ".bufferView") || strings.HasSuffix(p, ".mimeType"))
}

// preparing skips what making a VRM may change: the rotations of joints, and
// with them accessors
func preparing(p string) bool {
	if packing(p) || strings.HasPrefix(p, ".accessors") || p == ".extensionsUsed" || strings.HasPrefix(p, ".bufferViews") {
		return true
	}
	if strings.HasPrefix(p, ".nodes[") && strings.Count(p, ".") == 2 {
		for _, k := range []string{"matrix", "translation", "rotation", "scale"} {
			if strings.HasSuffix(p, "]."+k) {
				return true
			}
		}
	}
	if strings.HasPrefix(p, ".meshes[") && strings.Contains(p, ".primitives[") && strings.Count(p, ".") > 3 && (strings.Contains(p, ".attributes.") || strings.Contains(p, ".targets[")) {
		return true
	}
	return strings.HasPrefix(p, ".skins[") && strings.HasSuffix(p, "].inverseBindMatrices") || strings.HasPrefix(p, ".animations[") && (strings.HasSuffix(p, "].input") || strings.HasSuffix(p, "].output"))
}

func checkBones(c *hx.C, v *vrm.Document, want vm) {
	var lost []string
	has := map[string]bool{}
	h, _ := want["humanoid"].(vm)
	l, _ := h["humanBones"].([]interface{})
	for _, b := range l {
		has[b.(vm)["bone"].(string)] = true
	}
	for _, n := range requiredBones {
		if !has[n] {
			lost = append(lost, n)
		}
	}
	err := v.ValidateBones()
	if (err != nil) != (len(lost) > 0) {
		c.Fatalf("bones %v are missing, reported %v", lost, err)
	}
	for _, n := range lost {
		if !strings.Contains(err.Error(), n) {
			c.Fatalf("bone %q is missing, reported %v", n, err)
		}
	}
	if err != nil {
		_, s, _ := strings.Cut(err.Error(), ":")
		for _, w := range strings.FieldsFunc(s, func(r rune) bool { return !(r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z') }) {
			if has[w] {
				c.Fatalf("bone %q is not missing, reported %v", w, err)
			}
		}
	}
	c.LabelIf(len(lost) == 0, "all bones")
	c.LabelIf(len(lost) > 0 && len(lost) < len(requiredBones), "some bones")
}

func keepDraw(c *hx.C, dir string, withVRM bool) (*gltfx.Doc, *gltfx.Drawn, string) {
	o := gltfx.FullDraw()
	o.Sparse, o.FreeBind, o.MatExt = false, true, true
	o.MaxNodes = 8
	if gen.Bool(c.T, "bones") {
		o.Names = vrmName
	}
	d := gltfx.Draw(c.T, o)
	d.Decorate(c.T)
	if withVRM {
		d.AddVRM(c.T)
	}
	path := d.Write(c.T, dir)
	if strings.HasSuffix(path, ".glb") && gen.Bool(c.T, "as vrm") {
		p := filepath.Join(dir, "in.vrm")
		if err := os.Rename(path, p); err != nil {
			panic(err)
		}
		path = p
	}
	c.DescF(func() string { b, _ := json.MarshalIndent(d.JSON, "", " "); return string(b) })
	before, err := gltfx.Load(path)
	if err != nil {
		panic("generator: " + err.Error())
	}
	if errs := before.Validate(); len(errs) > 0 && !d.Missing {
		panic(fmt.Sprint("generator: ", errs))
	}
	return before, d, path
}

func checkKept(c *hx.C, before, after *gltfx.Doc, skip func(string) bool) {
	if d := sameJSON("", after.Raw, before.Raw, false, skip); d != "" {
		c.Fatalf("the document changed: %s", d)
	}
}

func checkVRMKept(c *hx.C, before, after *gltfx.Doc) {
	a, b := vrmOf(after), vrmOf(before)
	if (a == nil) != (b == nil) {
		c.Fatalf("VRM data: %s, want %s", js(a), js(b))
	}
	vrmLimits(a)
	vrmLimits(b)
	if b != nil {
		if d := sameVRM("VRM", a, b); d != "" {
			c.Fatalf("VRM data changed: %s", d)
		}
	}
}

// checkPrepared compares the VRM data of a document that was made a VRM
// without a configuration.
func checkPrepared(c *hx.C, before, after *gltfx.Doc) {
	a, b := vrmOf(after), vrmOf(before)
	if a == nil {
		c.Fatalf("no VRM data")
	}
	if b == nil {
		b = vm{}
	}
	vrmLimits(a)
	vrmLimits(b)
	n := 0
	l, _ := after.Raw["extensionsUsed"].([]interface{})
	for _, x := range l {
		if x == "VRM" {
			n++
		}
	}
	w, _ := before.Raw["extensionsUsed"].([]interface{})
	if n != 1 || len(l) < len(w) || fmt.Sprint(l[:len(w)]) != fmt.Sprint(w) || len(l) > len(w)+1 {
		c.Fatalf("extensions used: %v, before %v", l, w)
	}
	if s, _ := a["exporterVersion"].(string); s == "" {
		c.Fatalf("no exporter version")
	}
	bl := func(v vm) []interface{} {
		h, _ := v["humanoid"].(vm)
		l, _ := h["humanBones"].([]interface{})
		return l
	}
	ga, gb := bl(a), bl(b)
	if len(ga) < len(gb) {
		c.Fatalf("%d bones, had %d", len(ga), len(gb))
	}
	for i := range gb {
		if d := sameVRM(fmt.Sprintf("VRM.humanoid.humanBones[%d]", i), ga[i], gb[i]); d != "" {
			c.Fatalf("VRM data changed: %s", d)
		}
	}
	required := map[string]bool{}
	for _, n := range requiredBones {
		required[n] = true
	}
	for _, x := range gb {
		delete(required, x.(vm)["bone"].(string))
	}
	for _, x := range ga[len(gb):] {
		b := x.(vm)
		name := b["bone"].(string)
		if !required[name] || after.Nodes[int(b["node"].(float64))].Name != name {
			c.Fatalf("bone %s was added", js(x))
		}
		delete(required, name)
	}
	// the rest, without what the preparation gives anew
	strip := func(v vm, like vm) vm {
		o := vm{}
		for k, x := range v {
			o[k] = x
		}
		delete(o, "exporterVersion")
		if h, ok := v["humanoid"].(vm); ok {
			n := vm{}
			for k, x := range h {
				if k != "humanBones" {
					n[k] = x
				}
			}
			o["humanoid"] = n
		}
		if l, _ := like["materialProperties"].([]interface{}); len(l) != len(before.Materials) {
			delete(o, "materialProperties")
		}
		return o
	}
	if d := sameVRM("VRM", strip(a, b), strip(b, b)); d != "" {
		c.Fatalf("VRM data changed: %s", d)
	}
	l, _ = a["materialProperties"].([]interface{})
	if len(l) != len(after.Materials) {
		c.Fatalf("%d material properties for %d materials", len(l), len(after.Materials))
	}
}

func keepDone(c *hx.C, before *gltfx.Doc) {
	if vrmOf(before) != nil {
		c.Label("VRM")
	}
	if len(before.Nodes) > 0 {
		c.NonTrivial(hx.Dump(before.Raw))
	}
}

func propKeep(c *hx.C) {
	dir, done := hx.Scratch(c)
	defer done()
	in, out := filepath.Join(dir, "src"), filepath.Join(dir, "out")
	os.MkdirAll(in, 0755)
	os.MkdirAll(out, 0755)
	before, _, path := keepDraw(c, in, gen.Bool(c.T, "vrm"))
	doc, err := gltfutil.Load(path)
	if err != nil {
		c.Fatalf("cannot be loaded: %v", err)
	}
	keepDone(c, before)
	var file string
	prepared := false
	switch rapid.IntRange(0, 2).Draw(c.T, "way") {
	case 0:
		file = filepath.Join(in, "out.gltf")
		if gen.Bool(c.T, "single") {
			file = filepath.Join(out, "out.gltf")
			if err := gltfutil.ToSingleFile(doc, in); err != nil {
				c.Fatalf("failed: %v", err)
			}
		}
		err = gltfutil.Save(doc, file)
		c.Label("gltf")
	case 1:
		file = filepath.Join(out, "out.glb")
		if err := gltfutil.ToSingleFile(doc, in); err != nil {
			c.Fatalf("failed: %v", err)
		}
		err = gltfutil.SaveBinary(doc, file)
		c.Label("glb")
	case 2:
		file = filepath.Join(out, "out.vrm")
		prepared = true
		if _, err := converter.ApplyVRMConfig(doc, file, in, &converter.Config{}); err != nil {
			c.Fatalf("failed: %v", err)
		}
		err = gltfutil.SaveBinary(doc, file)
		c.Label("prepared")
	}
	if err != nil {
		c.Fatalf("cannot be saved: %v", err)
	}
	after, err := gltfx.Load(file)
	if err != nil {
		c.Fatalf("the saved file cannot be read: %v", err)
	}
	checkValid(c, before, after)
	if prepared {
		checkKept(c, before, after, preparing)
		checkPrepared(c, before, after)
		return
	}
	checkKept(c, before, after, packing)
	checkVRMKept(c, before, after)
}

// VRM documents in memory
func propVRMFile(c *hx.C) {
	dir, done := hx.Scratch(c)
	defer done()
	in, out := filepath.Join(dir, "src"), filepath.Join(dir, "out")
	os.MkdirAll(in, 0755)
	os.MkdirAll(out, 0755)
	before, _, path := keepDraw(c, in, !gen.Chance(c.T, "plain", 5))
	for _, b := range before.Buffers {
		if strings.ContainsAny(b.URI, "%") {
			return // names of buffers are taken as they are
		}
	}
	keepDone(c, before)
	f, err := os.Open(path)
	if err != nil {
		panic(err)
	}
	defer f.Close()
	doc, err := vrm.Parse(f, path)
	if err != nil {
		c.Fatalf("cannot be read: %v", err)
	}
	want := vrmOf(before)
	used := map[string]bool{"VRM": false, "nosuch": false, "": false}
	for _, x := range before.ExtensionsUsed {
		used[x] = true
	}
	for n, w := range used {
		if doc.IsExtentionUsed(n) != w {
			c.Fatalf("extension %q used: %v, want %v", n, !w, w)
		}
	}
	if want != nil || gen.Bool(c.T, "ask") {
		meta, _ := want["meta"].(vm)
		s := func(k string) string { x, _ := meta[k].(string); return x }
		v := doc.VRM()
		if v.Title() != s("title") || v.Author() != s("author") {
			c.Fatalf("title %q author %q, want %q %q", v.Title(), v.Author(), s("title"), s("author"))
		}
		if doc.VRM() != v {
			c.Fatalf("asking again gives other VRM data")
		}
		checkBones(c, doc, want)
		n := 0
		for _, x := range doc.ExtensionsUsed {
			if x == "VRM" {
				n++
			}
		}
		if n != 1 || len(doc.ExtensionsUsed) > len(before.ExtensionsUsed)+1 {
			c.Fatalf("extensions used: %v", doc.ExtensionsUsed)
		}
		if want == nil {
			// nothing is invented
			b, err := json.Marshal(v)
			if err != nil {
				c.Fatalf("%v", err)
			}
			var x vm
			json.Unmarshal(b, &x)
			if d := sameVRM("VRM", x, vm{}); d != "" {
				c.Fatalf("new VRM data: %s", d)
			}
			v.Meta.Title = "new"
			if got := doc.VRM().Title(); got != "new" {
				c.Fatalf("the title is %q", got)
			}
			c.Label("new VRM data")
		}
	}
	file := filepath.Join(out, "out.vrm")
	w, err := os.Create(file)
	if err != nil {
		panic(err)
	}
	for i, b := range doc.Buffers {
		if b.URI == "" && i > 0 {
			b.URI = fmt.Sprintf("part%d.bin", i)
		}
		if strings.Contains(b.URI, "/") && !strings.HasPrefix(b.URI, "data:") {
			os.MkdirAll(filepath.Dir(filepath.Join(out, b.URI)), 0755)
		}
	}
	err = vrm.Write(doc, w, file)
	w.Close()
	if err != nil {
		c.Fatalf("cannot be written: %v", err)
	}
	after, err := gltfx.Load(file)
	if err != nil {
		c.Fatalf("the written file cannot be read: %v", err)
	}
	if want == nil {
		checkKept(c, before, after, func(p string) bool { return packing(p) || p == ".extensions" || p == ".extensionsUsed" })
	} else {
		checkKept(c, before, after, packing)
		checkVRMKept(c, before, after)
	}
	for i := range before.Buffers {
		if string(before.Data[i][:before.Buffers[i].ByteLength]) != string(after.Data[i][:after.Buffers[i].ByteLength]) {
			c.Fatalf("buffer %d changed", i)
		}
		c.LabelIf(before.Buffers[i].URI != "" && !strings.HasPrefix(before.Buffers[i].URI, "data:"), "buffer file")
	}
	var again gltf.Document
	b, _ := os.ReadFile(file)
	if err := gltf.NewDecoder(strings.NewReader(string(b))).Decode(&again); err == nil && want != nil {
		if js(again.Extensions["VRM"]) != js((*vrm.Document)(doc).VRM()) {
			c.Fatalf("read again: %s, want %s", js(again.Extensions["VRM"]), js(doc.VRM()))
		}
	}
}

func propKeepCommand(c *hx.C) {
	dir, done := hx.Scratch(c)
	defer done()
	in, out := filepath.Join(dir, "src"), filepath.Join(dir, "out")
	os.MkdirAll(in, 0755)
	os.MkdirAll(out, 0755)
	before, _, path := keepDraw(c, in, !gen.Chance(c.T, "plain", 3))
	keepDone(c, before)
	ext := rapid.SampledFrom([]string{".glb", ".gltf", ".vrm", ".VRM"}).Draw(c.T, "ext")
	file := filepath.Join(out, "x"+ext)
	ctx, cancel := context.WithTimeout(context.Background(), time.Minute)
	defer cancel()
	if b, err := exec.CommandContext(ctx, os.Getenv("HX_CLI"), path, file).CombinedOutput(); err != nil {
		c.Fatalf("the command failed: %v\n%s", err, b)
	}
	after, err := gltfx.Load(file)
	if err != nil {
		c.Fatalf("the result cannot be read: %v", err)
	}
	checkValid(c, before, after)
	c.Label(strings.ToLower(ext))
	if strings.EqualFold(ext, ".vrm") {
		checkKept(c, before, after, preparing)
		checkPrepared(c, before, after)
		return
	}
	checkKept(c, before, after, packing)
	checkVRMKept(c, before, after)
}

func TestC28(t *testing.T) {
	hx.Main(t, "C28", hx.Leg{Name: "document", Quick: 1500, Prop: propKeep}, hx.Leg{Name: "vrm", Quick: 1500, Prop: propVRMFile}, hx.Leg{Name: "command", Quick: 150, Prop: propKeepCommand})
}
