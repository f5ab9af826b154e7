package ioc

import (
	"archive/zip"
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"testing"

	"github.com/binzume/modelconv/mqo"
	"pgregory.net/rapid"

	"verif/harness/gen"
	"verif/harness/gltfx"
	"verif/harness/hx"
)

var evilInts = []uint32{0, 1, 2, 0x7f, 0x80, 0xff, 0x100, 0x7fff, 0xffff, 0x10000, 0x7fffffff, 0x80000000, 0xfffffffe, 0xffffffff}

var evilWords = []string{"-1", "0", "1", "2", "3", "999999", "-999999", "2147483647", "4294967295", "9999999999999999999999", "1e400", "NaN",
	"", "x", "{", "}", "\"", "(", ")", "[", "]", "-", "null", "\x00", "\n"}

func isWord(x byte) bool {
	return x >= '0' && x <= '9' || x >= 'a' && x <= 'z' || x >= 'A' && x <= 'Z' || x == '.' || x == '-' || x == '_'
}

// wordAt finds the word at or after a position.
func wordAt(b []byte, at int) (int, int) {
	for at < len(b) && !isWord(b[at]) {
		at++
	}
	for at > 0 && at < len(b) && isWord(b[at-1]) {
		at--
	}
	end := at
	for end < len(b) && isWord(b[end]) {
		end++
	}
	return at, end
}

// damageBytes changes, loses, repeats or moves some bytes of a file.
func damageBytes(c *hx.C, data []byte, text bool) []byte {
	t := c.T
	b := append([]byte{}, data...)
	for i := gen.Int(t, "damages", 1, 3); i > 0 && len(b) > 4; i-- {
		at := gen.Int(t, "at", 0, len(b)-1)
		kind := gen.Int(t, "how", 0, 7)
		if text && kind < 3 {
			kind = 6
		}
		switch kind {
		case 0:
			b[at] ^= 1 << gen.Int(t, "bit", 0, 7)
		case 1, 2:
			var x [4]byte
			binary.LittleEndian.PutUint32(x[:], rapid.SampledFrom(evilInts).Draw(t, "value"))
			copy(b[at:], x[:rapid.SampledFrom([]int{1, 2, 4, 4}).Draw(t, "width")])
		case 3: // lose a piece
			n := min(gen.Int(t, "n", 1, 40), len(b)-at)
			b = append(b[:at:at], b[at+n:]...)
		case 4: // repeat a piece
			n := min(gen.Int(t, "n", 1, 40), len(b)-at)
			b = append(b[:at+n:at+n], b[at:]...)
		case 5: // move a piece
			n := min(gen.Int(t, "n", 1, 40), len(b)-at)
			piece := append([]byte{}, b[at:at+n]...)
			to := gen.Int(t, "to", 0, len(b)-n)
			b = append(b[:at:at], b[at+n:]...)
			b = append(b[:to:to], append(piece, b[to:]...)...)
		case 6: // another number or word
			from, end := wordAt(b, at)
			w := rapid.SampledFrom(evilWords).Draw(t, "word")
			b = append(b[:from:from], append([]byte(w), b[end:]...)...)
		case 7: // a word from elsewhere in the file
			from, end := wordAt(b, at)
			from2, end2 := wordAt(b, gen.Int(t, "other", 0, len(b)-1))
			w := append([]byte{}, b[from2:end2]...)
			b = append(b[:from:from], append(w, b[end:]...)...)
		}
	}
	return b
}

// ints lists the integers of a document that may refer to something.
func ints(v reflect.Value, seen map[uintptr]bool) []reflect.Value {
	var out []reflect.Value
	switch v.Kind() {
	case reflect.Ptr:
		if !v.IsNil() && !seen[v.Pointer()] {
			seen[v.Pointer()] = true
			out = ints(v.Elem(), seen)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			out = append(out, ints(v.Field(i), seen)...)
		}
	case reflect.Slice, reflect.Array:
		for i := 0; i < v.Len(); i++ {
			out = append(out, ints(v.Index(i), seen)...)
		}
	case reflect.Int:
		if v.CanSet() {
			out = append(out, v)
		}
	}
	return out
}

// damageInts gives some integers of a document the value of others or
// arbitrary ones.
func damageInts(c *hx.C, doc interface{}) {
	all := ints(reflect.ValueOf(doc), map[uintptr]bool{})
	if len(all) == 0 {
		return
	}
	for i := gen.Int(c.T, "references", 1, 3); i > 0; i-- {
		x := all[gen.Int(c.T, "which", 0, len(all)-1)]
		x.SetInt(int64(rapid.SampledFrom([]int{-2, -1, 0, 1, 2, 3, 5, 8, 20, 100, 127, 255, 32767}).Draw(c.T, "to")))
	}
}

// damageJSON gives some numbers of a JSON text other values.
func damageJSON(c *hx.C, b []byte) []byte {
	var x interface{}
	if err := json.Unmarshal(b, &x); err != nil {
		panic(err)
	}
	var set []func(v interface{})
	var walk func(x interface{}, own func(v interface{}))
	walk = func(x interface{}, own func(v interface{})) {
		switch y := x.(type) {
		case map[string]interface{}:
			var keys []string
			for k := range y {
				keys = append(keys, k)
			}
			sort.Strings(keys)
			for _, k := range keys {
				k := k
				walk(y[k], func(v interface{}) {
					if v == nil {
						delete(y, k)
					} else {
						y[k] = v
					}
				})
			}
		case []interface{}:
			for i := range y {
				i := i
				walk(y[i], func(v interface{}) { y[i] = v })
			}
		case float64:
			set = append(set, own)
		}
	}
	walk(x, nil)
	for i := gen.Int(c.T, "references", 1, 3); i > 0 && len(set) > 0; i-- {
		set[gen.Int(c.T, "which", 0, len(set)-1)](rapid.SampledFrom([]interface{}{0, 1, 2, 3, 4, 5, 7, 12, 100, 5121, 5123, 5125, 5126, 70000, 4294967295, -1, nil}).Draw(c.T, "to"))
	}
	b, _ = json.Marshal(x)
	return b
}

type damaged struct {
	kind, main string // main is the name of the file to read
	files      map[string][]byte
}

func (d *damaged) write(c *hx.C, dir string) {
	for n, b := range d.files {
		if err := os.WriteFile(filepath.Join(dir, n), b, 0644); err != nil {
			c.Fatalf("%v", err)
		}
	}
}

func (d *damaged) show() string {
	return fmt.Sprintf("%s: %q", d.kind, d.files)
}

// drawDamaged draws a model file of some kind with damaged bytes or
// references.
func drawDamaged(c *hx.C, kinds []string) *damaged {
	t := c.T
	kind := rapid.SampledFrom(kinds).Draw(t, "kind")
	refs := gen.Bool(t, "references")
	one := func(name string, b []byte) *damaged {
		return &damaged{kind: kind, main: name, files: map[string][]byte{name: b}}
	}
	switch kind {
	case "pmx":
		d := gen.PMXDoc(t, gen.SmallPMX())
		sz := gen.IndexSizes(t, d)
		if refs {
			damageInts(c, d)
			return one("x.pmx", gen.EncodePMX(d, sz, gen.PMXExtra{}))
		}
		return one("x.pmx", damageBytes(c, gen.EncodePMX(d, sz, gen.PMXExtra{}), false))
	case "pmd":
		m := gen.PMDGen(t)
		if refs {
			damageInts(c, m)
			return one("x.pmd", gen.EncodePMD(m))
		}
		return one("x.pmd", damageBytes(c, gen.EncodePMD(m), false))
	case "vmd":
		d := gen.PMXDoc(t, gen.SmallPMX())
		x := one("m.pmx", gen.EncodePMX(d, gen.IndexSizes(t, d), gen.PMXExtra{}))
		x.files["x.vmd"] = damageBytes(c, gen.EncodeVMD(gen.VMDGen(t), 0, nil), false)
		return x
	case "fbx":
		b, _ := gen.EncodeFBX(drawTree(c), gen.DrawFBXBin(t))
		return one("x.fbx", damageBytes(c, b, false))
	case "fbx text":
		return one("x.fbx", damageBytes(c, gen.EmitFBXText(drawTree(c), gen.DrawFBXText(t)), true))
	case "mqo":
		return one("x.mqo", damageBytes(c, gen.EmitMQO(t, gen.MQODoc(t, gen.SmallMQO()), gen.DrawMQOStyle(t)), true))
	case "mqx", "mqoz":
		dir, done := hx.Scratch(c)
		defer done()
		d := drawMQO(c)
		mqo.GetBonePlugin(d)
		if err := mqo.Save(d, filepath.Join(dir, "x.mqo")); err != nil {
			c.Fatalf("reference: %v", err)
		}
		x := &damaged{kind: kind, main: "x.mqo", files: map[string][]byte{}}
		for _, n := range []string{"x.mqo", "x.mqx"} {
			b, err := os.ReadFile(filepath.Join(dir, n))
			if err != nil {
				c.Fatalf("reference: %v", err)
			}
			x.files[n] = b
		}
		part := "x.mqx"
		if kind == "mqoz" {
			part = rapid.SampledFrom([]string{"x.mqo", "x.mqx"}).Draw(t, "part")
		}
		x.files[part] = damageBytes(c, x.files[part], true)
		if kind == "mqoz" {
			var z bytes.Buffer
			w := zip.NewWriter(&z)
			for _, n := range []string{"x.mqo", "x.mqx"} {
				f, _ := w.Create(n)
				f.Write(x.files[n])
			}
			w.Close()
			b := z.Bytes()
			if gen.Chance(t, "archive", 4) {
				b = damageBytes(c, b, false)
			}
			return one("x.mqoz", b)
		}
		return x
	case "gltf", "glb":
		o := gltfx.FullDraw()
		o.Images = false
		dir, done := hx.Scratch(c)
		defer done()
		p := gltfx.Draw(t, o).Write(t, dir)
		x := &damaged{kind: kind, files: map[string][]byte{}}
		x.main, _ = filepath.Rel(dir, p)
		filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
			if err == nil && !fi.IsDir() && filepath.Dir(p) == dir {
				x.files[filepath.Base(p)], _ = os.ReadFile(p)
			}
			return nil
		})
		b := x.files[x.main]
		switch {
		case !refs:
			b = damageBytes(c, b, strings.HasSuffix(x.main, ".gltf"))
		case strings.HasSuffix(x.main, ".gltf"):
			b = damageJSON(c, b)
		default:
			n := int(binary.LittleEndian.Uint32(b[12:]))
			js := damageJSON(c, b[20:20+n])
			for len(js)%4 != 0 {
				js = append(js, ' ')
			}
			nb := append(append(append([]byte{}, b[:20]...), js...), b[20+n:]...)
			binary.LittleEndian.PutUint32(nb[8:], uint32(len(nb)))
			binary.LittleEndian.PutUint32(nb[12:], uint32(len(js)))
			b = nb
		}
		x.files[x.main] = b
		return x
	}
	panic(kind)
}

// damagedParse parses damaged streams. The watchdog reports what takes
// minutes or gigabytes.
func damagedParse(c *hx.C) {
	x := drawDamaged(c, []string{"pmx", "pmd", "vmd", "fbx", "fbx text", "mqo", "mqx"})
	c.DescF(x.show)
	name := map[string]string{"vmd": "x.vmd", "mqx": "x.mqx"}[x.kind]
	if name == "" {
		name = x.main
	}
	var r io.Reader = bytes.NewReader(x.files[name])
	if gen.Bool(c.T, "pieces") {
		r = gen.Chunked(c.T, x.files[name])
	}
	err := parse(x.kind, r)
	c.LabelIf(err == nil, x.kind+" accepted")
	c.LabelIf(err != nil, x.kind+" refused")
	c.NonTrivial(x.show())
}

// damagedConvert runs the command on damaged files with 4 GB of memory and
// 60 s of processor time.
func damagedConvert(c *hx.C) {
	dir, done := hx.Scratch(c)
	defer done()
	x := drawDamaged(c, strings.Split(envOr("HX_KINDS", "pmx,pmd,vmd,fbx,fbx text,mqo,mqx,mqoz,gltf"), ","))
	x.write(c, dir)
	out := "out" + rapid.SampledFrom([]string{".mqo", ".mqoz", ".glb", ".gltf", ".vrm", ".pmx", ".fbx"}).Draw(c.T, "out")
	args := []string{x.main, out}
	if x.kind == "vmd" {
		args = []string{x.main, "x.vmd", "out.glb"}
	}
	var flags []string
	for _, f := range []string{"-physics", "-vrmExportAllMorph", "-autotpose=右腕,左腕", "-scale=2"} {
		if gen.Chance(c.T, f, 4) {
			flags = append(flags, f)
		}
	}
	args = append(flags, args...)
	c.DescF(func() string { return fmt.Sprintf("modelconv %v\n%s", args, x.show()) })
	cmd := exec.Command("bash", append([]string{"-c", `ulimit -v 4000000 -t 60; exec "$0" "$@"`, os.Getenv("HX_CLI")}, args...)...)
	cmd.Dir = dir
	text, err := cmd.CombinedOutput()
	if bytes.Contains(text, []byte("\ngoroutine ")) {
		c.Fatalf("modelconv %v: crash\n%s", args, tail(text))
	}
	if err != nil && !cmd.ProcessState.Exited() {
		c.Fatalf("modelconv %v: does not end: %v\n%s", args, err, tail(text))
	}
	c.LabelIf(err == nil, x.kind+" accepted")
	c.LabelIf(err != nil, x.kind+" refused")
	c.NonTrivial(fmt.Sprint(args) + x.show())
}

func envOr(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

// tail keeps the message of a crash.
func tail(b []byte) string {
	if i := bytes.LastIndex(b, []byte("panic:")); i >= 0 {
		b = b[i:]
	} else if i := bytes.LastIndex(b, []byte("fatal error:")); i >= 0 {
		b = b[i:]
	}
	if len(b) > 3000 {
		b = b[:3000]
	}
	return string(b)
}

func TestC27(t *testing.T) {
	hx.Main(t, "C27",
		hx.Leg{Name: "parse", Quick: 4000, Prop: damagedParse},
		hx.Leg{Name: "convert", Quick: 1200, Prop: damagedConvert},
	)
}
