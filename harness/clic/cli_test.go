package clic

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"math"
	"os"
	"os/exec"
	"path"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"testing"
	"time"

	"github.com/binzume/modelconv/converter"
	"github.com/binzume/modelconv/fbx"
	"github.com/binzume/modelconv/geom"
	"github.com/binzume/modelconv/gltfutil"
	"github.com/binzume/modelconv/mmd"
	"github.com/binzume/modelconv/mqo"
	"github.com/binzume/modelconv/unity"
	"github.com/qmuntal/gltf"
	"pgregory.net/rapid"

	"verif/harness/gen"
	"verif/harness/gltfx"
	"verif/harness/hx"
)

// cmdline runs the command in dir and gives its exit status and output.
func cmdline(c *hx.C, dir string, args ...string) (int, string) {
	ctx, cancel := context.WithTimeout(context.Background(), 300*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, os.Getenv("HX_CLI"), args...)
	cmd.Dir = dir
	tmp := filepath.Join(dir, "tmp")
	os.MkdirAll(tmp, 0755)
	cmd.Env = append(os.Environ(), "TMPDIR="+tmp)
	out, err := cmd.CombinedOutput()
	code := 0
	if err != nil {
		ee, ok := err.(*exec.ExitError)
		if !ok {
			panic(err)
		}
		code = ee.ExitCode()
	}
	if ctx.Err() != nil {
		c.Fatalf("%v: no end after 300 s", args)
	}
	if bytes.Contains(out, []byte("\ngoroutine ")) && bytes.Contains(out, []byte("panic")) {
		c.Fatalf("%v: crash\n%s", args, out)
	}
	if l, _ := os.ReadDir(tmp); len(l) > 0 {
		c.Fatalf("%v: left %q in the temporary directory", args, l[0].Name())
	}
	return code, string(out)
}

func files(dir string) map[string]string {
	m := map[string]string{}
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err == nil && !fi.IsDir() {
			b, _ := os.ReadFile(p)
			r, _ := filepath.Rel(dir, p)
			m[r] = string(b)
		}
		return nil
	})
	return m
}

// run converts and checks which files were written.
func (k *job) run(c *hx.C, args []string) {
	before := files(k.dir)
	cwd := k.dir
	if k.cwd != "" {
		cwd = k.cwd
	}
	code, out := cmdline(c, cwd, args...)
	if code != 0 {
		c.Fatalf("%v: exit status %d\n%s", args, code, out)
	}
	after := files(k.dir)
	for n, b := range before {
		if a, ok := after[n]; (!ok || a != b) && !k.mayWrite(n) {
			c.Fatalf("%v: changed %s", args, n)
		}
	}
	for n := range after {
		if _, ok := before[n]; !ok && !k.mayWrite(n) {
			c.Fatalf("%v: wrote %s", args, n)
		}
	}
	if _, ok := after[k.out]; !ok {
		c.Fatalf("%v: did not write %s", args, k.out)
	}
	if k.repeat {
		k.again(c, cwd, args, before, after)
	}
}

// again repeats the run, in the original directory and over other files, which must end with the same files.
func (k *job) again(c *hx.C, cwd string, args []string, before, after map[string]string) {
	for i := 0; i < 3; i++ {
		how := "again"
		for n, b := range after {
			if _, ok := before[n]; ok {
				continue
			}
			p := filepath.Join(k.dir, n)
			switch {
			case i < 2: // in the original directory
				os.Remove(p)
			case strings.Contains(n, "saved_textures"): // existing textures are kept
			default: // over a longer file
				how = "over a longer file"
				if err := os.WriteFile(p, []byte(b+strings.Repeat("}\nx", 500)), 0644); err != nil {
					panic(err)
				}
			}
		}
		for n, b := range before {
			if after[n] != b {
				if err := os.WriteFile(filepath.Join(k.dir, n), []byte(b), 0644); err != nil {
					panic(err)
				}
			}
		}
		if code, out := cmdline(c, cwd, args...); code != 0 {
			c.Fatalf("%v: exit status %d when run %s\n%s", args, code, how, out)
		}
		got := files(k.dir)
		for n, b := range after {
			if g, ok := got[n]; !ok {
				c.Fatalf("%v: does not write %s when run %s", args, n, how)
			} else if g != b {
				c.Fatalf("%v: %s (%d bytes) differs when run %s (%d bytes), from byte %d", args, n, len(b), how, len(g), diffAt(b, g))
			}
		}
		for n := range got {
			if _, ok := after[n]; !ok {
				c.Fatalf("%v: writes %s when run %s", args, n, how)
			}
		}
	}
}

func diffAt(a, b string) int {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	return i
}

// job is a conversion with the reference result.
type job struct {
	dir     string // working directory
	in, out string // relative to it
	ext     string // of the output
	ref     string // directory of the reference result
	tex     string // where textures may be written
	cwd     string // where the command runs, if not in dir
	posed   bool   // vertices were moved with bones
	repeat  bool   // only check that the result is the same every time
}

func (k *job) stem() string { return strings.TrimSuffix(k.out, filepath.Ext(k.out)) }

func (k *job) mayWrite(n string) bool {
	switch {
	case n == k.out:
		return true
	case k.ext == ".mqo" && n == k.stem()+".mqx":
		return true
	case k.ext == ".gltf" && strings.HasPrefix(n, k.stem()) && strings.HasSuffix(n, ".bin"):
		return true
	case k.tex != "" && strings.HasPrefix(n, k.tex):
		return true
	}
	return false
}

// plainStrings replaces quotes, back slashes and control characters.
func plainStrings(v reflect.Value) {
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if !v.IsNil() {
			plainStrings(v.Elem())
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			plainStrings(v.Field(i))
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			plainStrings(v.Index(i))
		}
	case reflect.String:
		if v.CanSet() {
			v.SetString(strings.Map(func(r rune) rune {
				if r < ' ' || r == '"' || r == '\\' || r == 0x7f {
					return '_'
				}
				return r
			}, v.String()))
		}
	}
}

// glob matches patterns with * and ?.
func glob(p, s []rune) bool {
	if len(p) == 0 {
		return len(s) == 0
	}
	switch p[0] {
	case '*':
		return glob(p[1:], s) || len(s) > 0 && glob(p, s[1:])
	case '?':
		return len(s) > 0 && glob(p[1:], s[1:])
	}
	return len(s) > 0 && s[0] == p[0] && glob(p[1:], s[1:])
}

func matches(pattern, name string) bool {
	if strings.ContainsRune(pattern, '[') { // may be a class or just a bracket of a name
		if m, _ := path.Match(strings.ReplaceAll(pattern, "/", "\x00"), strings.ReplaceAll(name, "/", "\x00")); m {
			return true
		}
		return pattern == name
	}
	return pattern == name || glob([]rune(pattern), []rune(name))
}

func anyMatch(ps []string, name string) bool {
	for _, p := range ps {
		if matches(p, name) {
			return true
		}
	}
	return false
}

func pattern(c *hx.C, names []string) string {
	if len(names) == 0 {
		return "nothing"
	}
	n := []rune(rapid.SampledFrom(names).Draw(c.T, "of"))
	switch gen.Int(c.T, "pattern", 0, 6) {
	case 0:
		return "*"
	case 1:
		return string(n[:gen.Int(c.T, "cut", 0, len(n))]) + "*"
	case 2:
		return "*" + string(n[gen.Int(c.T, "cut", 0, len(n)):])
	case 3:
		if len(n) > 0 {
			n[gen.Int(c.T, "at", 0, len(n)-1)] = '?'
		}
		return string(n)
	case 4:
		return string(n) + "x"
	}
	return string(n)
}

func patterns(c *hx.C, names []string) []string {
	var l []string
	for k := gen.Int(c.T, "patterns", 1, 3); k > 0; k-- {
		l = append(l, pattern(c, names))
	}
	return l
}

// opts are the options of a run.
type opts struct {
	posed                       bool
	args                        []string
	scale                       float64
	sx, sy, sz                  float64
	rot180                      bool
	hide, hidemat, unlit, tpose []string
	alpha                       [][2]string
	morph                       []morphOpt
	chparent                    [][2]string
	glt                         converter.MQOToGLTFOption
	vrmconf                     string
	allMorph                    bool
	threshold                   float32
}

type morphOpt struct {
	name  string
	value float32
}

func (o *opts) flag(c *hx.C, name, value string) {
	if gen.Bool(c.T, "dashes") {
		name = "-" + name
	}
	if value == "" {
		o.args = append(o.args, "-"+name)
	} else if gen.Bool(c.T, "equals") {
		o.args = append(o.args, "-"+name+"="+value)
	} else {
		o.args = append(o.args, "-"+name, value)
	}
}

func num(c *hx.C, n string) float64 {
	return rapid.SampledFrom([]float64{1, 0.5, 2, 0.1, 1.25, 1000, -1, 0.001}).Draw(c.T, n)
}

// drawScale draws the options that change the size.
func (o *opts) drawScale(c *hx.C) {
	o.sx, o.sy, o.sz, o.threshold = 1, 1, 1, 0.4
	if gen.Bool(c.T, "scale?") {
		o.scale = num(c, "scale")
		o.flag(c, "scale", fmt.Sprint(o.scale))
	}
	for i, p := range []*float64{&o.sx, &o.sy, &o.sz} {
		if gen.Chance(c.T, "axis", 4) {
			*p = num(c, "axisScale")
			o.flag(c, "scale"+string("XYZ"[i]), fmt.Sprint(*p))
		}
	}
	if gen.Chance(c.T, "rot180", 4) {
		o.rot180 = true
		o.flag(c, "rot180", "")
	}
}

// plain tells names that can be given in a list.
func plain(names []string, seps string) []string {
	var r []string
	for _, n := range names {
		if n != "" && !strings.ContainsAny(n, seps+`*?\`) && n == strings.TrimSpace(n) {
			r = append(r, n)
		}
	}
	return r
}

func (o *opts) drawModel(c *hx.C, doc *mqo.Document) {
	var objs, mats, bones, targets []string
	for _, x := range doc.Objects {
		objs = append(objs, x.Name)
	}
	for _, x := range doc.Materials {
		mats = append(mats, x.Name)
	}
	all := mqo.GetBonePlugin(doc).Bones()
	for _, x := range all {
		bones = append(bones, x.Name)
	}
	for _, l := range mqo.GetMorphPlugin(doc).Morphs() {
		for _, t := range l.Target {
			targets = append(targets, t.Name)
		}
	}
	if gen.Chance(c.T, "hide", 3) {
		o.hide = patterns(c, plain(objs, ","))
		o.flag(c, "hide", strings.Join(o.hide, ","))
	}
	matNames := plain(mats, ",:")
	switch gen.Int(c.T, "matopt", 0, 6) {
	case 0:
		o.hidemat = patterns(c, matNames)
		o.flag(c, "hidemat", strings.Join(o.hidemat, ","))
	case 1, 2:
		var l []string
		for k := gen.Int(c.T, "alphas", 1, 2); k > 0; k-- {
			a := [2]string{pattern(c, matNames), rapid.SampledFrom([]string{"opaque", "mask", "blend", "0", "0.5", "1", "0.25"}).Draw(c.T, "alpha")}
			o.alpha = append(o.alpha, a)
			l = append(l, a[0]+":"+a[1])
		}
		if gen.Chance(c.T, "noValue", 6) { // has no effect
			l = append(l, pattern(c, matNames))
		}
		o.flag(c, "alpha", strings.Join(l, ","))
	case 3:
		o.unlit = patterns(c, matNames)
		o.flag(c, "unlit", strings.Join(o.unlit, ","))
	}
	if gen.Chance(c.T, "morph", 4) {
		names := append(plain(targets, ",:"), "nothing")
		var l []string
		for k := gen.Int(c.T, "morphs", 1, 2); k > 0; k-- {
			m := morphOpt{rapid.SampledFrom(names).Draw(c.T, "target"), float32(gen.Int(c.T, "value", -2, 4)) / 4}
			o.morph = append(o.morph, m)
			l = append(l, fmt.Sprintf("%s:%v", m.name, m.value))
		}
		o.flag(c, "morph", strings.Join(l, ","))
	}
	uniq := map[string]*mqo.Bone{}
	byID := map[int]*mqo.Bone{}
	for _, b := range all {
		uniq[b.Name] = b
		byID[b.ID] = b
	}
	names := plain(bones, ",:")
	if len(names) > 1 && len(uniq) == len(all) && gen.Chance(c.T, "chparent", 3) {
		parent := map[*mqo.Bone]*mqo.Bone{}
		for _, b := range all {
			parent[b] = byID[b.Parent]
		}
		var args []string
		for k := gen.Int(c.T, "chparents", 1, 3); k > 0; k-- {
			b, p := rapid.SampledFrom(names).Draw(c.T, "bone"), rapid.SampledFrom(names).Draw(c.T, "newParent")
			below := false
			n := 0
			for x := uniq[p]; x != nil && n <= len(all); x, n = parent[x], n+1 {
				below = below || x.Name == b
			}
			if !below && n <= len(all) {
				o.chparent = append(o.chparent, [2]string{b, p})
				parent[uniq[b]] = uniq[p]
				if gen.Bool(c.T, "unknownBone") {
					args = append(args, "no such bone:neither")
				}
				args = append(args, b+":"+p)
			}
		}
		if len(args) > 0 {
			o.flag(c, "chparent", strings.Join(args, ","))
		}
	}
	if len(names) > 0 && gen.Chance(c.T, "autotpose", 4) {
		o.tpose = patterns(c, names)
		o.flag(c, "autotpose", strings.Join(o.tpose, ","))
	}
}

// drawGltf draws the options that only matter for glTF output.
func (o *opts) drawGltf(c *hx.C) {
	o.glt = converter.MQOToGLTFOption{TextureResolutionLimit: 4096, TextureScale: 1}
	f := func(name string, p *bool) {
		if gen.Chance(c.T, name, 6) {
			*p = true
			o.flag(c, name, "")
		}
	}
	f("texReCompress", &o.glt.TextureReCompress)
	f("reuseGeometry", &o.glt.ReuseGeometry)
	f("ignoreHierarchy", &o.glt.IgnoreObjectHierarchy)
	f("detectAlphaTexture", &o.glt.DetectAlphaTexture)
	f("gltfExportLight", &o.glt.ExportLights)
	f("physics", &o.glt.ConvertPhysics)
	f("vrmExportAllMorph", &o.allMorph)
	if gen.Chance(c.T, "texResolutionLimit", 6) {
		o.glt.TextureResolutionLimit = gen.Int(c.T, "limit", 1, 8)
		o.flag(c, "texResolutionLimit", fmt.Sprint(o.glt.TextureResolutionLimit))
	}
	if gen.Chance(c.T, "texResizeScale", 6) {
		o.glt.TextureScale = 0.5
		o.flag(c, "texResizeScale", "0.5")
	}
	if gen.Chance(c.T, "texBytesThreshold", 6) {
		o.glt.TextureBytesThreshold = 100
		o.flag(c, "texBytesThreshold", "100")
	}
}

// size is the scale of the result.
func (o *opts) size(def float64) (geom.Vector3, bool) {
	s := o.scale
	if s == 0 {
		s = def
	}
	v := geom.Vector3{X: float32(s * o.sx), Y: float32(s * o.sy), Z: float32(s * o.sz)}
	if o.rot180 {
		v.X, v.Z = -v.X, -v.Z
	}
	return v, v != geom.Vector3{X: 1, Y: 1, Z: 1}
}

// apply is the reference of the options that change the model.
func (o *opts) apply(c *hx.C, doc *mqo.Document, def float64) {
	if v, ok := o.size(def); ok {
		doc.ApplyTransform(geom.NewScaleMatrix4(v.X, v.Y, v.Z))
		if o.rot180 {
			for _, b := range mqo.GetBonePlugin(doc).Bones() {
				b.RotationOffset.Y = math.Pi
			}
		}
	} else if o.rot180 {
		c.Skip("turned back")
	}
	bones := mqo.GetBonePlugin(doc).Bones()
	for _, p := range o.chparent {
		for _, b := range bones {
			for _, x := range bones {
				if b.Name == p[0] && x.Name == p[1] {
					b.Parent = x.ID
				}
			}
		}
	}
	for _, b := range bones {
		if anyMatch(o.tpose, b.Name) {
			doc.BoneAdjustX(b)
			o.glt.ReuseGeometry = false
			o.posed = true
			c.Label("autotpose")
		}
	}
	hidden := -1 // depth of the hidden parent
	for _, x := range doc.Objects {
		if hidden >= 0 && x.Depth <= hidden {
			hidden = -1
		}
		if hidden < 0 && anyMatch(o.hide, x.Name) {
			hidden = x.Depth
		}
		if hidden >= 0 {
			x.Visible = false
			c.Label("hidden object")
		}
	}
	for _, m := range o.morph {
		mqo.GetMorphPlugin(doc).Apply(doc, m.name, m.value)
	}
	for _, m := range doc.Materials {
		n := 0
		name := m.Name
		if anyMatch(o.hidemat, name) {
			m.Name += "$IGNORE"
			m.Color.W = 0
			c.Label("hidden material")
		}
		for _, a := range o.alpha {
			if !matches(a[0], name) {
				continue
			}
			if n++; n > 1 {
				c.Skip("two alpha values")
			}
			c.Label("alpha " + a[1])
			switch a[1] {
			case "opaque":
				alphaMode(m, 1)
				m.Color.W = 1
			case "mask":
				alphaMode(m, 2)
			case "blend":
				alphaMode(m, 3)
			case "0":
				m.Name += "$IGNORE"
				m.Color.W = 0
			default:
				var v float32
				fmt.Sscan(a[1], &v)
				m.Color.W = v
				if m.Ex2 != nil && m.Ex2.ShaderName == "glTF" {
					alphaMode(m, 3)
				}
			}
		}
		if anyMatch(o.unlit, name) {
			m.Shader, m.Ex2 = 1, nil
			c.Label("unlit")
		}
	}
}

// alphaMode is the reference of an alpha mode: only glTF shaders have one, and keep all of their other settings.
func alphaMode(m *mqo.Material, mode int) {
	if m.Ex2 == nil || m.Ex2.ShaderName != "glTF" {
		m.Ex2 = &mqo.MaterialEx2{ShaderName: "glTF", ShaderParams: map[string]interface{}{}, ShaderMapping: map[string]string{}, ShaderMappingParams: map[string]map[string]interface{}{}}
	}
	m.Ex2.ShaderParams["AlphaMode"] = mode
}

// save is the reference of writing a model.
func (k *job) save(c *hx.C, doc *mqo.Document, o *opts, srcDir string, vmd []string) string {
	k.posed = o.posed
	path := filepath.Join(k.ref, filepath.Base(k.out))
	must := func(err error) {
		if err != nil {
			c.Fatalf("reference: %v", err)
		}
	}
	switch k.ext {
	case ".mqo", ".mqoz":
		must(mqo.Save(doc, path))
	case ".pmx":
		p, err := converter.NewMQOToMMDConverter(nil).Convert(doc)
		must(err)
		must(mmd.Save(p, path))
	default:
		g := o.glt
		conv := converter.NewMQOToGLTFConverter(&g)
		d, err := conv.Convert(doc, srcDir)
		must(err)
		for _, v := range vmd {
			f, err := os.Open(v)
			must(err)
			a, err := mmd.NewVMDParser(f).Parse()
			f.Close()
			must(err)
			converter.AddAnimationTpGlb(d, a, conv.JointNodeToBone, true)
		}
		k.saveGltf(c, d, o, srcDir, path)
	}
	return path
}

func (k *job) saveGltf(c *hx.C, d *gltf.Document, o *opts, srcDir, path string) {
	switch k.ext {
	case ".vrm":
		conf, err := converter.LoadVRMConfig(o.vrmconf)
		if err != nil {
			conf = &converter.Config{}
		}
		if o.glt.ConvertPhysics {
			conf.AnimationBoneFromPhysics, conf.ConvertPhysicsCollider = true, true
		}
		conf.ExportAllMorph = conf.ExportAllMorph || o.allMorph
		if _, err := converter.ApplyVRMConfig(d, filepath.Join(k.dir, k.out), srcDir, conf); err != nil {
			c.Skip("cannot become a VRM")
		}
	default:
		gltfutil.ToSingleFile(d, srcDir)
	}
	if err := gltf.SaveBinary(d, path); err != nil {
		c.Fatalf("reference: %v", err)
	}
}

// compare compares the result with the reference.
func (k *job) compare(c *hx.C, ref string) {
	if k.repeat {
		return
	}
	out := filepath.Join(k.dir, k.out)
	switch k.ext {
	case ".mqo", ".mqoz":
		a, err := mqo.Load(out)
		if err != nil {
			c.Fatalf("the result does not load: %v", err)
		}
		b, err := mqo.Load(ref)
		if err != nil {
			c.Fatalf("reference: %v", err)
		}
		for _, d := range []*mqo.Document{a, b} {
			tidy(d)
		}
		if d := hx.Diff(a, b, 1e-4); d != "" {
			c.Fatalf("the result differs from the same steps of the library: %s", d)
		}
	case ".pmx":
		a, err := mmd.Load(out)
		if err != nil {
			c.Fatalf("the result does not load: %v", err)
		}
		b, err := mmd.Load(ref)
		if err != nil {
			c.Fatalf("reference: %v", err)
		}
		if k.posed {
			for _, d := range []*mmd.Document{a, b} {
				for _, v := range d.Vertexes {
					v.Normal = mmd.Vector3{}
				}
			}
		}
		if d := hx.Diff(a, b, 1e-4); d != "" {
			c.Fatalf("the result differs from the same steps of the library: %s", d)
		}
	case ".gltf":
		a, err := gltfx.Load(out)
		if err != nil {
			c.Fatalf("the result does not load: %v", err)
		}
		b, err := gltfx.Load(ref)
		if err != nil {
			c.Fatalf("reference: %v", err)
		}
		sameGltf(c, a, b, k.posed)
	default:
		a, err := os.ReadFile(out)
		if err != nil {
			c.Fatalf("%v", err)
		}
		b, _ := os.ReadFile(ref)
		if !bytes.Equal(a, b) {
			if k.ext == ".glb" || k.ext == ".vrm" {
				x, err := gltfx.Parse(a, k.dir)
				if err != nil {
					c.Fatalf("the result does not load: %v", err)
				}
				y, _ := gltfx.Parse(b, k.ref)
				sameGltf(c, x, y, k.posed)
				return
			}
			c.Fatalf("the result (%d bytes) differs from the same steps of the library (%d bytes)", len(a), len(b))
		}
	}
}

// tidy drops empty plugins and sorts what has no order.
func tidy(d *mqo.Document) {
	var l []mqo.Plugin
	for _, p := range d.Plugins {
		switch x := p.(type) {
		case *mqo.BonePlugin:
			if len(x.Bones()) == 0 {
				continue
			}
			for _, b := range x.Bones() {
				for _, w := range b.Weights {
					sort.SliceStable(w.Vertexes, func(i, j int) bool { return w.Vertexes[i].VertexID < w.Vertexes[j].VertexID })
				}
			}
		case *mqo.MorphPlugin:
			if len(x.Morphs()) == 0 {
				continue
			}
		}
		l = append(l, p)
	}
	d.Plugins = l
}

func imageBytes(d *gltfx.Doc, i int) []byte {
	im := d.Images[i]
	var b []byte
	if im.BufferView != nil {
		b, _ = d.View(*im.BufferView)
	} else {
		b, _ = d.Resource(im.URI)
	}
	return b
}

// sameGltf compares documents whatever the layout of their buffers and the
// place of their pictures.
func sameGltf(c *hx.C, a, b *gltfx.Doc, posed bool) {
	// Rounding of positions turns normals of thin faces.
	normals := map[int]bool{}
	for _, m := range b.Meshes {
		for _, p := range m.Primitives {
			if n, ok := p.Attributes["NORMAL"]; ok && posed {
				normals[n] = true
			}
		}
	}
	strip := func(d *gltfx.Doc) map[string]interface{} {
		m := map[string]interface{}{}
		for k, v := range d.Raw {
			if k != "animations" && k != "buffers" && k != "bufferViews" && k != "accessors" && k != "images" {
				m[k] = v
			}
		}
		return m
	}
	if d := hx.Diff(strip(a), strip(b), 1e-4); d != "" {
		c.Fatalf("the result differs from the same steps of the library: %s", d)
	}
	if len(a.Accessors) != len(b.Accessors) || len(a.Images) != len(b.Images) {
		c.Fatalf("%d accessors and %d images, want %d and %d", len(a.Accessors), len(a.Images), len(b.Accessors), len(b.Images))
	}
	// Channels have no order.
	used := map[int]bool{}
	anim := func(d *gltfx.Doc) []string {
		var l []string
		for i, an := range d.Animations {
			for _, ch := range an.Channels {
				s := an.Samplers[ch.Sampler]
				used[s.Input], used[s.Output] = true, true
				x, e1 := d.Read(s.Input)
				y, e2 := d.Read(s.Output)
				n := -1
				if ch.Target.Node != nil {
					n = *ch.Target.Node
				}
				l = append(l, fmt.Sprint(i, an.Name, n, ch.Target.Path, s.Interpolation, x, y, e1, e2))
			}
		}
		sort.Strings(l)
		return l
	}
	if d := hx.Diff(anim(a), anim(b), 0); d != "" {
		c.Fatalf("animation: %s", d)
	}
	for i := range a.Accessors {
		if used[i] {
			continue
		}
		x, err := a.Read(i)
		if err != nil {
			c.Fatalf("accessor %d: %v", i, err)
		}
		y, err := b.Read(i)
		if err != nil {
			c.Fatalf("reference: accessor %d: %v", i, err)
		}
		p, q := a.Accessors[i], b.Accessors[i]
		if p.Normalized != q.Normalized || p.ComponentType != q.ComponentType || p.Type != q.Type || len(x) != len(y) {
			c.Fatalf("accessor %d: %v, want %v", i, p, q)
		}
		if normals[i] {
			continue
		}
		// The order of summation is not repeatable when bones turn vertices.
		big := 1.0
		for _, r := range y {
			for _, f := range r {
				big = math.Max(big, math.Abs(float64(f)))
			}
		}
		for j := range x {
			for l := range x[j] {
				if e := math.Abs(float64(x[j][l]) - float64(y[j][l])); e > 1e-5*big {
					c.Fatalf("accessor %d, element %d: %v, want %v", i, j, x[j], y[j])
				}
			}
		}
		if d := hx.Diff([][]float64{p.Min, p.Max}, [][]float64{q.Min, q.Max}, 1e-5); d != "" {
			c.Fatalf("accessor %d, bounds: %s", i, d)
		}
	}
	for i := range a.Images {
		if !bytes.Equal(imageBytes(a, i), imageBytes(b, i)) {
			c.Fatalf("image %d: %d bytes, want %d", i, len(imageBytes(a, i)), len(imageBytes(b, i)))
		}
	}
}

// names draws the paths of input and output and the arguments that give them.
func (k *job) names(c *hx.C, o *opts, inExt string, outs []string, extra []string) []string {
	stem := rapid.SampledFrom([]string{"model", "モデル", "my model", "a.b", "x#y", "100%", "a:b"}).Draw(c.T, "stem")
	if inExt == ".gltf" || inExt == ".glb" || strings.HasPrefix(inExt, "=") {
		// already written
	} else {
		k.in = filepath.Join("in", stem+inExt)
	}
	args := append(append([]string{}, o.args...), k.in)
	args = append(args, extra...)
	k.ext = rapid.SampledFrom(outs).Draw(c.T, "outExt")
	in := strings.TrimSuffix(k.in, filepath.Ext(k.in))
	isMQO := strings.HasPrefix(strings.ToLower(filepath.Ext(k.in)), ".mqo")
	def := ".mqo"
	if isMQO {
		def = ".glb"
	}
	if len(extra) == 0 && gen.Chance(c.T, "noOutput", 4) && !strings.HasPrefix(inExt, "=") {
		if gen.Bool(c.T, "format") {
			args = append([]string{"-format", k.ext[1:]}, args...)
		} else {
			k.ext = def
		}
		k.out = in + k.ext
		c.Label("default output")
		return args
	}
	dir := rapid.SampledFrom([]string{"in", "out"}).Draw(c.T, "outDir")
	ostem := rapid.SampledFrom([]string{"result", "結果", "my result", "r.s", "a:b", "5%"}).Draw(c.T, "outStem")
	k.out = filepath.Join(dir, ostem+k.ext)
	if gen.Chance(c.T, "upper", 6) && k.ext != ".mqo" && k.ext != ".mqoz" {
		k.out = filepath.Join(dir, ostem+strings.ToUpper(k.ext))
	} else if gen.Chance(c.T, "formatToo", 6) && k.ext != ".mqo" && k.ext != ".mqoz" && k.ext != ".gltf" {
		k.out = filepath.Join(dir, ostem+".dat")
		args = append([]string{"-format", k.ext[1:]}, args...)
		c.Label("-format")
	}
	if gen.Bool(c.T, "absolute") {
		args[len(args)-1-len(extra)] = filepath.Join(k.dir, k.in)
		return append(args, filepath.Join(k.dir, k.out))
	}
	return append(args, k.out)
}

func newJob(c *hx.C, repeat bool) (*job, func()) {
	dir, done := hx.Scratch(c)
	k := &job{dir: filepath.Join(dir, "work"), ref: filepath.Join(dir, "ref"), repeat: repeat}
	for _, d := range []string{"in", "out"} {
		os.MkdirAll(filepath.Join(k.dir, d), 0755)
	}
	os.MkdirAll(k.ref, 0755)
	return k, done
}

func fourColours(doc *mqo.Document) {
	for _, x := range doc.Materials { // colours have four values in files
		if x.Ex2 != nil {
			for n, v := range x.Ex2.ShaderParams {
				if f, ok := v.([]float32); ok && len(f) == 3 {
					x.Ex2.ShaderParams[n] = append(append([]float32{}, f...), 1)
				}
			}
		}
	}
}

// vrmOptions draws the configuration of VRM output.
func (o *opts) vrmOptions(c *hx.C, k *job, mmdIn bool, names []string) {
	node := func() string {
		var l []string
		for i := gen.Int(c.T, "nodes", 1, 4); i > 0; i-- {
			n := gen.Ident(c.T, "node")
			if len(names) > 0 {
				n = rapid.SampledFrom(names).Draw(c.T, "node")
			}
			b, _ := json.Marshal(n)
			l = append(l, string(b))
		}
		return strings.Join(l, ",")
	}
	if k.ext != ".vrm" && mmdIn && gen.Chance(c.T, "known", 2) {
		// the bones of the configuration are known
		o.vrmconf = filepath.Join(k.dir, "conf.json")
		os.WriteFile(o.vrmconf, []byte(fmt.Sprintf(`{"boneMappings":[{"bone":"hips","nodeNames":[%s]},{"bone":"spine","nodeNames":[%s]}]}`, node(), node())), 0644)
		o.args = append([]string{"-vrmconfig", o.vrmconf}, o.args...)
		c.Label("known bones")
		return
	}
	if k.ext != ".vrm" {
		if gen.Chance(c.T, "beside", 6) { // not used
			os.WriteFile(filepath.Join(k.dir, strings.TrimSuffix(k.in, filepath.Ext(k.in))+".vrmconfig.json"), []byte(`{"preset":"mmd"}`), 0644)
		}
		return
	}
	conf := fmt.Sprintf(`{"boneMappings":[{"bone":"hips","nodeNames":[%s]}],"exportAllMorph":%v}`, node(), gen.Bool(c.T, "conf.all"))
	switch gen.Int(c.T, "vrmconf", 0, 4) {
	case 0:
		o.vrmconf = filepath.Join(k.dir, "conf.json")
		os.WriteFile(o.vrmconf, []byte(conf), 0644)
		o.args = append([]string{"-vrmconfig", o.vrmconf}, o.args...)
	case 1:
		o.vrmconf = filepath.Join(k.dir, strings.TrimSuffix(k.in, filepath.Ext(k.in))+".vrmconfig.json")
		os.WriteFile(o.vrmconf, []byte(conf), 0644)
		c.Label("configuration beside the input")
	case 2:
		o.vrmconf = "mmd"
		o.args = append([]string{"-vrmconfig", "mmd"}, o.args...)
	case 3:
		o.vrmconf = filepath.Join(k.dir, "nosuch.json")
		o.args = append([]string{"-vrmconfig", o.vrmconf}, o.args...)
	default:
		if mmdIn {
			o.vrmconf = "mmd"
		}
	}
}

func propModel(c *hx.C, repeat bool) {
	k, done := newJob(c, repeat)
	defer done()
	in := filepath.Join(k.dir, "in")
	mo := gen.FullModel()
	mo.Physics = true
	mo.NameFn = func(t *gen.T, n string) string {
		s := gen.ConvName(t, n)
		switch gen.Int(t, n+".x", 0, 5) {
		case 0:
			s += "/" + gen.Ident(t, n)
		case 1:
			s += "[1]"
		}
		return s
	}
	m := gen.DrawModel(c.T, mo, in)
	fourColours(m.Doc)
	inExt := rapid.SampledFrom([]string{".mqo", ".mqoz", ".mqo", ".MQO"}).Draw(c.T, "inExt")
	o := &opts{}
	o.drawScale(c)
	o.drawModel(c, m.Doc)
	o.drawGltf(c)
	args := k.names(c, o, inExt, []string{".mqo", ".mqoz", ".glb", ".gltf", ".vrm", ".pmx", ".glb"}, nil)
	n := len(o.args)
	o.vrmOptions(c, k, false, nil)
	args = append(append([]string{}, o.args[:len(o.args)-n]...), args...)
	if err := mqo.Save(m.Doc, filepath.Join(k.dir, k.in)); err != nil {
		c.Fatalf("cannot write the input: %v", err)
	}
	c.Desc("modelconv %q", args)
	doc, err := mqo.Load(filepath.Join(k.dir, k.in))
	if err != nil {
		c.Fatalf("cannot read the input: %v", err)
	}
	o.apply(c, doc, 1)
	ref := k.save(c, doc, o, in, nil)
	k.run(c, args)
	k.compare(c, ref)
	c.Label("to " + k.ext)
	if len(o.args) > 0 {
		c.NonTrivial(fmt.Sprint(args, c.Render()))
	}
}

func propMMD(c *hx.C, repeat bool) {
	k, done := newJob(c, repeat)
	defer done()
	in := filepath.Join(k.dir, "in")
	inExt := rapid.SampledFrom([]string{".pmx", ".pmd", ".PMX"}).Draw(c.T, "inExt")
	var data []byte
	var bones []string
	if strings.ToLower(inExt) == ".pmx" {
		po := gen.SmallPMX()
		po.MaxVerts, po.MaxFaces, po.MaxMorphs = 14, 10, 6
		d := gen.PMXDoc(c.T, po)
		plainStrings(reflect.ValueOf(d)) // MQO files cannot have quotes or line breaks in names
		if len(d.Materials) == 0 {
			d.Faces = nil
		}
		arms := []string{"右腕", "左腕", "右ひじ", "センター", "頭", "首"}
		seen := map[string]bool{}
		for i, b := range d.Bones {
			if i < len(arms) && gen.Bool(c.T, "arm") {
				b.Name = arms[i]
			}
			// no bone is its own descendant
			if b.ParentID >= i {
				b.ParentID = i - 1
			}
			if b.InheritParentID >= i {
				b.InheritParentID = i - 1
			}
			for seen[b.Name] { // which of them moves is not defined
				b.Name += fmt.Sprint(i)
			}
			seen[b.Name] = true
			bones = append(bones, b.Name)
		}
		data = gen.EncodePMX(d, gen.IndexSizes(c.T, d), gen.PMXExtra{})
	} else {
		data = gen.EncodePMD(gen.PMDGen(c.T))
	}
	o := &opts{}
	o.drawScale(c)
	outs := []string{".mqo", ".mqoz", ".glb", ".gltf", ".vrm", ".vrm", ".pmx"}
	var extra, vmd []string
	if gen.Chance(c.T, "motion", 3) {
		a := gen.VMDGen(c.T)
		for _, s := range a.Bone {
			if len(bones) > 0 && gen.Bool(c.T, "ofBone") {
				s.Target = gen.FitSJIS(rapid.SampledFrom(bones).Draw(c.T, "animated"), 15)
			}
		}
		os.WriteFile(filepath.Join(in, "motion.VMD"), gen.EncodeVMD(a, 0, nil), 0644)
		extra = []string{"in/motion.VMD"}
		vmd = []string{filepath.Join(in, "motion.VMD")}
		if gen.Chance(c.T, "motions", 3) {
			for _, s := range a.Bone {
				s.Frame++
			}
			a.Bone = append(a.Bone, &mmd.AnimationBoneSample{Target: "センター", Position: mmd.Vector3{X: 1}, Rotation: mmd.Quaternion{W: 1}})
			os.WriteFile(filepath.Join(in, "more.vmd"), gen.EncodeVMD(a, 0, nil), 0644)
			extra, vmd = append(extra, "in/more.vmd"), append(vmd, filepath.Join(in, "more.vmd"))
			c.Label("two motions")
		}
		outs = []string{".glb", ".gltf", ".mqo"}
		c.Label("motion")
	}
	o.drawGltf(c)
	if gen.Chance(c.T, "threshold", 5) {
		o.threshold = rapid.SampledFrom([]float32{0, 1, 0.75}).Draw(c.T, "thr")
		o.flag(c, "mmdFixInheritParentThreshold", fmt.Sprint(o.threshold))
	}
	if gen.Chance(c.T, "tpose", 6) && len(plain(bones, ",")) > 0 {
		o.tpose = patterns(c, plain(bones, ","))
		o.flag(c, "autotpose", strings.Join(o.tpose, ","))
	}
	args := k.names(c, o, inExt, outs, extra)
	n := len(o.args)
	o.vrmOptions(c, k, true, bones)
	args = append(append([]string{}, o.args[:len(o.args)-n]...), args...)
	path := filepath.Join(k.dir, k.in)
	os.WriteFile(path, data, 0644)
	c.Desc("modelconv %q", args)
	src, err := mmd.Load(path)
	if err != nil {
		c.Fatalf("cannot read the input: %v", err)
	}
	if k.ext == ".vrm" {
		o.rot180 = true
		if o.tpose == nil {
			o.tpose = []string{"右腕", "左腕"}
		}
	}
	var known []string
	if o.vrmconf != "" {
		if conf, err := converter.LoadVRMConfig(o.vrmconf); err == nil {
			for _, b := range conf.BoneMappings {
				known = append(known, b.NodeNames...)
			}
		}
	}
	doc := converter.NewMMDToMQOConverter(&converter.MMDToMQOOption{KnownBoneNames: known, InheritParentThreshold: o.threshold}).Convert(src)
	o.apply(c, doc, 80)
	ref := k.save(c, doc, o, in, vmd)
	k.run(c, args)
	k.compare(c, ref)
	c.Label("to " + k.ext)
	c.NonTrivial(fmt.Sprint(args, c.Render()))
}

func propGltf(c *hx.C, repeat bool) {
	k, done := newJob(c, repeat)
	defer done()
	in := filepath.Join(k.dir, "in")
	d := gltfx.Draw(c.T, gltfx.FullDraw())
	path := d.Write(c.T, in)
	k.in = filepath.Join("in", filepath.Base(path))
	if gen.Chance(c.T, "vrmIn", 5) && strings.HasSuffix(path, ".glb") {
		k.in = "in/x.vrm"
		os.Rename(path, filepath.Join(k.dir, k.in))
	}
	o := &opts{}
	o.drawScale(c)
	o.glt = converter.MQOToGLTFOption{TextureResolutionLimit: 4096, TextureScale: 1}
	args := k.names(c, o, ".gltf", []string{".glb", ".gltf", ".gltf", ".vrm", ".mqo"}, nil)
	n := len(o.args)
	o.vrmOptions(c, k, false, nil)
	args = append(append([]string{}, o.args[:len(o.args)-n]...), args...)
	c.DescF(func() string {
		b, _ := json.MarshalIndent(d.JSON, "", " ")
		return fmt.Sprintf("modelconv %q\n%s", args, b)
	})
	path = filepath.Join(k.dir, k.in)
	doc, err := gltfutil.Load(path)
	if err != nil {
		c.Fatalf("cannot read the input: %v", err)
	}
	ref := filepath.Join(k.ref, filepath.Base(k.out))
	if k.ext == ".mqo" {
		m, err := converter.NewGLTFToMQOConverter(nil).Convert(doc)
		if err != nil {
			c.Fatalf("reference: %v", err)
		}
		o.apply(c, m, 1)
		k.save(c, m, o, in, nil)
	} else {
		if v, ok := o.size(1); ok {
			gltfutil.ApplyTransform(doc, geom.NewScaleMatrix4(v.X, v.Y, v.Z))
		}
		k.saveGltf(c, doc, o, in, ref)
	}
	k.run(c, args)
	k.compare(c, ref)
	c.Label("to " + k.ext)
	c.NonTrivial(fmt.Sprint(args, c.Render()))
}

func propFBX(c *hx.C, repeat bool) {
	k, done := newJob(c, repeat)
	defer done()
	in := filepath.Join(k.dir, "in")
	s := gen.FBXScene(c.T, gen.FSceneOpts{Skin: true, Shapes: true})
	kids := s.Tree(c.T)
	var data []byte
	if gen.Chance(c.T, "text", 3) {
		data = gen.EmitFBXText(kids, gen.DrawFBXText(c.T))
	} else {
		data, _ = gen.EncodeFBX(kids, gen.DrawFBXBin(c.T))
	}
	o := &opts{}
	o.drawScale(c)
	o.glt = converter.MQOToGLTFOption{TextureResolutionLimit: 4096, TextureScale: 1}
	args := k.names(c, o, rapid.SampledFrom([]string{".fbx", ".FBX"}).Draw(c.T, "inExt"), []string{".mqo", ".glb", ".fbx"}, nil)
	path := filepath.Join(k.dir, k.in)
	os.WriteFile(path, data, 0644)
	c.Desc("modelconv %q", args)
	doc, err := fbx.Load(path)
	if err != nil {
		c.Fatalf("cannot read the input: %v", err)
	}
	ref := filepath.Join(k.ref, filepath.Base(k.out))
	if k.ext == ".fbx" {
		if err := fbx.Save(doc, ref); err != nil {
			c.Fatalf("reference: %v", err)
		}
	} else {
		m, err := converter.NewFBXToMQOConverter(nil).Convert(doc)
		if err != nil {
			c.Fatalf("reference: %v", err)
		}
		o.apply(c, m, 1)
		ref = k.save(c, m, o, in, nil)
	}
	k.run(c, args)
	k.compare(c, ref)
	c.Label("to " + k.ext)
	c.NonTrivial(fmt.Sprint(args, c.Render()))
}

func propUnity(c *hx.C, repeat bool) {
	k, done := newJob(c, repeat)
	defer done()
	in := filepath.Join(k.dir, "in")
	w := gen.UnityWorld(c.T, gen.UOpts{Textures: true, Physics: true, Prefabs: 1, Lights: true})
	scene := w.Files[len(w.Files)-1]
	o := &opts{}
	o.drawScale(c)
	o.drawGltf(c)
	var assets unity.Assets
	var err error
	srcDir := in
	which := ""
	refIn := filepath.Join(k.ref, "src")
	os.MkdirAll(refIn, 0755)
	if gen.Chance(c.T, "package", 3) {
		data := gen.Pack(gen.PackageEntries(c.T, w.Assets))
		os.WriteFile(filepath.Join(in, "x.unitypackage"), data, 0644)
		os.WriteFile(filepath.Join(refIn, "x.unitypackage"), data, 0644)
		k.in = "in/x.unitypackage"
		if gen.Bool(c.T, "which") {
			which = scene.Path
			k.in += "#" + which
		}
		k.tex = "in/saved_textures/"
		tmp := filepath.Join(k.ref, "tmp")
		os.MkdirAll(tmp, 0755)
		old := os.Getenv("TMPDIR")
		os.Setenv("TMPDIR", tmp)
		assets, err = unity.OpenPackage(filepath.Join(refIn, "x.unitypackage"))
		os.Setenv("TMPDIR", old)
		srcDir = refIn
		c.Label("package")
	} else {
		if gen.Chance(c.T, "upwards", 6) {
			// a GUID that leads out of the directory of saved textures
			for _, a := range w.Assets {
				if strings.HasSuffix(strings.ToLower(a.Path), ".png") {
					for _, x := range w.Assets {
						x.Data = bytes.ReplaceAll(x.Data, []byte(a.GUID), []byte("../"+a.GUID))
						x.Meta = strings.ReplaceAll(x.Meta, a.GUID, "../"+a.GUID)
					}
					c.Label("GUID ../")
					break
				}
			}
		}
		gen.WriteProject(filepath.Join(in, "Proj"), w.Assets)
		gen.WriteProject(filepath.Join(refIn, "Proj"), w.Assets)
		which = scene.Path
		k.in = "in/Proj/" + which
		if gen.Chance(c.T, "hash", 3) {
			k.in = "in/Proj/Assets#" + which
		}
		k.tex = "in/Proj/saved_textures/"
		assets, err = unity.OpenAssets(filepath.Join(refIn, "Proj", "Assets"))
		srcDir = filepath.Join(refIn, "Proj")
	}
	if err != nil {
		c.Fatalf("cannot open the assets: %v", err)
	}
	defer assets.Close()
	args := k.names(c, o, "=unity", []string{".mqo", ".glb"}, nil)
	if strings.HasPrefix(k.in, "in/Proj/") && gen.Chance(c.T, "inside", 3) {
		k.cwd = filepath.Join(in, "Proj")
		args = append(args[:len(args)-2:len(args)-2], strings.TrimPrefix(k.in, "in/Proj/"), filepath.Join(k.dir, k.out))
		c.Label("inside the project")
	}
	c.Desc("modelconv %q", args)
	s, err := unity.LoadScene(assets, which)
	if err != nil {
		c.Fatalf("cannot load the scene: %v", err)
	}
	m, err := converter.NewUnityToMQOConverter(&converter.UnityToMQOOption{ConvertPhysics: o.glt.ConvertPhysics, SaveTexrure: true}).Convert(s)
	if err != nil {
		c.Fatalf("reference: %v", err)
	}
	o.apply(c, m, 1)
	ref := k.save(c, m, o, srcDir, nil)
	k.run(c, args)
	k.compare(c, ref)
	c.Label("to " + k.ext)
	c.NonTrivial(fmt.Sprint(args, c.Render()))
}

// propRefused runs commands that cannot succeed.
func propRefused(c *hx.C) {
	k, done := newJob(c, false)
	defer done()
	in := filepath.Join(k.dir, "in")
	mo := gen.FullModel()
	mo.Textures = false
	m := gen.DrawModel(c.T, mo, in)
	fourColours(m.Doc)
	if err := mqo.Save(m.Doc, filepath.Join(in, "m.mqo")); err != nil {
		c.Fatalf("%v", err)
	}
	gltf.SaveBinary(&gltf.Document{}, filepath.Join(in, "g.glb"))
	out := rapid.SampledFrom([]string{".mqo", ".mqoz", ".glb", ".gltf", ".vrm", ".pmx"}).Draw(c.T, "out")
	garbage := func(name string) string {
		b := rapid.SliceOfN(rapid.Byte(), 0, 60).Draw(c.T, "garbage")
		os.WriteFile(filepath.Join(in, name), append([]byte("!"), b...), 0644)
		return "in/" + name
	}
	var args []string
	kind := gen.Int(c.T, "kind", 0, 9)
	switch kind {
	case 0: // no such file
		args = []string{"in/none" + rapid.SampledFrom([]string{".mqo", ".mqoz", ".pmx", ".pmd", ".fbx", ".glb", ".gltf", ".vrm", ".unitypackage", ".unity", ".prefab"}).Draw(c.T, "in"), "out/x" + out}
		if strings.HasSuffix(args[0], ".fbx") && gen.Bool(c.T, "fbx") {
			args[1] = "out/x.fbx"
		}
	case 1: // no such format
		args = []string{garbage(rapid.SampledFrom([]string{"x.txt", "x", "x.obj", "x.mq", ".mqo.txt"}).Draw(c.T, "name")), "out/x" + out}
	case 2:
		args = []string{"in/m.mqo", "out/x" + rapid.SampledFrom([]string{".txt", "", ".pmd", ".unity", ".obj"}).Draw(c.T, "bad")}
	case 3:
		args = []string{"-format", "obj", "in/m.mqo", "out/x" + out}
	case 4: // not of its format
		args = []string{garbage("x" + rapid.SampledFrom([]string{".mqoz", ".pmx", ".pmd", ".glb", ".gltf", ".unitypackage"}).Draw(c.T, "in")), "out/x" + out}
	case 5: // no such directory
		args = []string{"in/m.mqo", "nowhere/x" + out}
	case 6: // bad options
		o := rapid.SampledFrom([][]string{{"-morph", "a"}, {"-morph", "a:b"}, {"-morph", "a:"}, {"-chparent", "a"}, {"-chparent", "a:b:c"}, {"-scale", "x"}, {"-nosuch"}}).Draw(c.T, "opt")
		args = append(append([]string{}, o...), "in/m.mqo", "out/x"+out)
	case 7: // values for what exists
		bones := mqo.GetBonePlugin(m.Doc).Bones()
		if len(bones) > 0 && gen.Bool(c.T, "bone") {
			n := plain([]string{bones[0].Name}, ",:")
			if len(n) == 0 {
				c.Skip("name")
			}
			args = []string{"-chparent", n[0] + ":no such parent", "in/m.mqo", "out/x" + out}
		} else if len(m.Doc.Materials) > 0 {
			args = []string{"-alpha", "*:none", "in/m.mqo", "out/x" + out}
		} else {
			c.Skip("no materials")
		}
	case 8: // a motion that does not exist or is none
		out = rapid.SampledFrom([]string{".glb", ".gltf", ".vrm"}).Draw(c.T, "outg")
		v := "in/none.vmd"
		if gen.Bool(c.T, "garbage?") {
			v = garbage("x.vmd")
		}
		args = []string{"in/m.mqo", v, "out/x" + out}
	case 9: // a scene that does not exist
		w := gen.UnityWorld(c.T, gen.UOpts{})
		switch gen.Int(c.T, "unity", 0, 2) {
		case 0:
			os.WriteFile(filepath.Join(in, "x.unitypackage"), gen.Pack(gen.PackageEntries(c.T, w.Assets)), 0644)
			args = []string{"in/x.unitypackage#Assets/none.unity", "out/x" + out}
		case 1:
			gen.WriteProject(filepath.Join(in, "Proj"), w.Assets)
			args = []string{"in/Proj/Assets#Assets/none.prefab", "out/x" + out}
		case 2:
			gen.WriteProject(filepath.Join(in, "Proj"), w.Assets)
			args = []string{"in/Proj/Assets/none.unity", "out/x" + out}
		}
	}
	c.Desc("modelconv %q", args)
	before := files(k.dir)
	code, text := cmdline(c, k.dir, args...)
	if code == 0 {
		c.Fatalf("%q succeeds\n%s", args, text)
	}
	if strings.TrimSpace(text) == "" {
		c.Fatalf("%q fails without a message", args)
	}
	after := files(k.dir)
	var names []string
	for n := range after {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		if b, ok := before[n]; !ok || b != after[n] {
			c.Fatalf("%q fails but writes %s", args, n)
		}
	}
	c.Label(fmt.Sprint("kind ", kind))
	c.NonTrivial(fmt.Sprint(args, c.Render()))
}

func once(prop func(*hx.C, bool)) func(*hx.C) { return func(c *hx.C) { prop(c, false) } }

func often(prop func(*hx.C, bool)) func(*hx.C) { return func(c *hx.C) { prop(c, true) } }

func TestC24(t *testing.T) {
	hx.Main(t, "C24",
		hx.Leg{Name: "model", Quick: 150, Prop: once(propModel)},
		hx.Leg{Name: "mmd", Quick: 80, Prop: once(propMMD)},
		hx.Leg{Name: "gltf", Quick: 80, Prop: once(propGltf)},
		hx.Leg{Name: "fbx", Quick: 30, Prop: once(propFBX)},
		hx.Leg{Name: "unity", Quick: 40, Prop: once(propUnity)},
		hx.Leg{Name: "refused", Quick: 80, Prop: propRefused},
	)
}

// TestC29 runs the same conversion several times.
func TestC29(t *testing.T) {
	hx.Main(t, "C29",
		hx.Leg{Name: "model", Quick: 80, Prop: often(propModel)},
		hx.Leg{Name: "mmd", Quick: 60, Prop: often(propMMD)},
		hx.Leg{Name: "gltf", Quick: 40, Prop: often(propGltf)},
		hx.Leg{Name: "fbx", Quick: 40, Prop: often(propFBX)},
		hx.Leg{Name: "unity", Quick: 40, Prop: often(propUnity)},
	)
}
