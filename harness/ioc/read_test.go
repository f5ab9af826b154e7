package ioc

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"testing"

	"github.com/binzume/modelconv/fbx"
	"github.com/binzume/modelconv/gltfutil"
	"github.com/binzume/modelconv/mmd"
	"github.com/binzume/modelconv/mqo"
	"github.com/binzume/modelconv/vrm"
	"pgregory.net/rapid"

	"verif/harness/gen"
	"verif/harness/gltfx"
	"verif/harness/hx"
)

// cutReader gives the data in pieces and then ends or fails.
type cutReader struct {
	r   *gen.ChunkReader
	err error
}

func (r *cutReader) Read(p []byte) (int, error) {
	n, err := r.r.Read(p)
	if err == io.EOF && r.err != nil {
		err = r.err
	}
	return n, err
}

var errRead = errors.New("input/output error")

// inside gives the positions where a text is inside of a block: after an
// opening brace and up to its closing brace.
func inside(data []byte, comment byte) []bool {
	in := make([]bool, len(data)+1)
	depth, quoted, skip := 0, false, false
	for i, b := range data {
		in[i] = depth > 0
		switch {
		case skip:
			skip = b != '\n'
		case b == '"':
			quoted = !quoted
		case quoted:
		case comment != 0 && b == comment:
			skip = true
		case b == '{':
			depth++
		case b == '}':
			depth--
		}
	}
	in[len(data)] = depth > 0
	return in
}

type input struct {
	kind, ext string
	data      []byte
	must      func(cut int) bool // whether a file cut there is damaged
}

func drawInput(c *hx.C, kinds []string) *input {
	x := &input{kind: rapid.SampledFrom(kinds).Draw(c.T, "kind")}
	x.must = func(cut int) bool { return cut < len(x.data) }
	switch x.kind {
	case "pmx":
		d := gen.PMXDoc(c.T, gen.SmallPMX())
		x.ext, x.data = ".pmx", gen.EncodePMX(d, gen.IndexSizes(c.T, d), gen.PMXExtra{})
	case "pmd":
		m := gen.PMDGen(c.T)
		m.Trailing = nil
		x.ext, x.data = ".pmd", gen.EncodePMD(m)
	case "vmd":
		x.ext, x.data = ".vmd", gen.EncodeVMD(gen.VMDGen(c.T), 0, nil)
	case "fbx":
		var end int
		x.ext = ".fbx"
		x.data, end = gen.EncodeFBX(drawTree(c), gen.DrawFBXBin(c.T))
		// the footer is not needed
		x.must = func(cut int) bool { return cut < end }
	case "fbx text":
		x.ext = ".fbx"
		x.data = gen.EmitFBXText(drawTree(c), gen.DrawFBXText(c.T))
		in := inside(x.data, ';')
		x.must = func(cut int) bool { return in[cut] }
	case "mqo":
		st := gen.DrawMQOStyle(c.T)
		st.XML = ""
		x.ext = ".mqo"
		x.data = gen.EmitMQO(c.T, gen.MQODoc(c.T, gen.SmallMQO()), st)
		in := inside(x.data, 0)
		x.must = func(cut int) bool { return in[cut] }
	case "mqx":
		x.ext = ".mqx"
		x.data = bytes.TrimSpace(gen.EmitMQX(c.T, drawMQO(c), "x.mqo", gen.Bool(c.T, "noise")))
	case "vrm":
		dir, done := hx.Scratch(c)
		defer done()
		d := drawGLTF(c)
		if err := gltfutil.SaveBinary(d, filepath.Join(dir, "x.glb")); err != nil {
			c.Fatalf("reference: %v", err)
		}
		x.ext = ".glb"
		x.data, _ = os.ReadFile(filepath.Join(dir, "x.glb"))
		// the last chunk is padded
		x.must = func(cut int) bool { return cut < len(x.data)-3 }
	case "mqoz":
		dir, done := hx.Scratch(c)
		defer done()
		if err := mqo.Save(drawMQO(c), filepath.Join(dir, "x.mqoz")); err != nil {
			c.Fatalf("reference: %v", err)
		}
		x.ext = ".mqoz"
		x.data, _ = os.ReadFile(filepath.Join(dir, "x.mqoz"))
	}
	return x
}

func drawTree(c *hx.C) []*gen.FN {
	return gen.FBXScene(c.T, gen.FSceneOpts{Skin: true, Shapes: true}).Tree(c.T)
}

func (x *input) cut(c *hx.C) int {
	n := len(x.data)
	cut := rapid.OneOf(rapid.IntRange(0, n-1), rapid.IntRange(max(0, n-12), n-1), rapid.IntRange(0, min(n-1, 40))).Draw(c.T, "cut")
	for i := 0; !x.must(cut) && i < n; i++ {
		cut = (cut + 1) % n
	}
	if !x.must(cut) {
		c.Skip("nothing to cut")
	}
	return cut
}

func parse(kind string, r io.Reader) error {
	var err error
	switch kind {
	case "pmx", "pmd":
		_, err = mmd.Parse(r)
	case "vmd":
		_, err = mmd.NewVMDParser(r).Parse()
	case "fbx", "fbx text":
		_, err = fbx.Parse(r)
	case "mqo":
		_, err = mqo.NewParser(r, "").Parse()
	case "mqx":
		_, err = mqo.ReadMQX(r)
	case "vrm":
		_, err = vrm.Parse(r, "x.vrm")
	}
	return err
}

// readProp reads streams that end or fail early.
func readProp(c *hx.C) {
	x := drawInput(c, []string{"pmx", "pmd", "vmd", "fbx", "fbx text", "mqo", "mqx", "vrm"})
	whole := gen.Chunked(c.T, x.data)
	if x.kind == "vrm" { // the library misses padding in short reads
		whole = &gen.ChunkReader{Data: x.data}
	}
	if err := parse(x.kind, whole); err != nil {
		c.Fatalf("%s: the whole file is refused: %v", x.kind, err)
	}
	cut := x.cut(c)
	r := &cutReader{r: gen.Chunked(c.T, x.data[:cut])}
	if gen.Bool(c.T, "fails") {
		r.err = errRead
		c.Label("read error")
	}
	c.DescF(func() string {
		return fmt.Sprintf("%s cut at %d of %d, error %v\n%q", x.kind, cut, len(x.data), r.err, x.data)
	})
	if parse(x.kind, r) == nil {
		c.Fatalf("%s: no error although only %d of %d bytes can be read (error %v)", x.kind, cut, len(x.data), r.err)
	}
	c.Label(x.kind)
	c.NonTrivial(fmt.Sprint(x.kind, cut, string(x.data)))
}

// loadProp loads cut files.
func loadProp(c *hx.C) {
	dir, done := hx.Scratch(c)
	defer done()
	kind := rapid.SampledFrom([]string{"file", "mqx", "gltf"}).Draw(c.T, "what")
	write := func(n string, b []byte) string {
		p := filepath.Join(dir, n)
		if err := os.WriteFile(p, b, 0644); err != nil {
			c.Fatalf("%v", err)
		}
		return p
	}
	load := func(p string) error {
		var err error
		switch filepath.Ext(p) {
		case ".pmx", ".pmd":
			_, err = mmd.Load(p)
		case ".fbx":
			_, err = fbx.Load(p)
		case ".mqo", ".mqoz":
			_, err = mqo.Load(p)
		default:
			_, err = gltfutil.Load(p)
		}
		return err
	}
	switch kind {
	case "file":
		x := drawInput(c, []string{"pmx", "pmd", "fbx", "fbx text", "mqo", "vrm", "mqoz"})
		if err := load(write("x"+x.ext, x.data)); err != nil {
			c.Fatalf("%s: the whole file is refused: %v", x.kind, err)
		}
		cut := x.cut(c)
		c.DescF(func() string { return fmt.Sprintf("%s cut at %d of %d\n%q", x.kind, cut, len(x.data), x.data) })
		if load(write("x"+x.ext, x.data[:cut])) == nil {
			c.Fatalf("%s: no error although only %d of %d bytes can be read", x.kind, cut, len(x.data))
		}
		c.Label(x.kind)
		c.NonTrivial(fmt.Sprint(x.kind, cut, string(x.data)))
	case "mqx":
		d := drawMQO(c)
		mqo.GetBonePlugin(d)
		p := filepath.Join(dir, "x.mqo")
		if err := mqo.Save(d, p); err != nil {
			c.Fatalf("reference: %v", err)
		}
		b, err := os.ReadFile(filepath.Join(dir, "x.mqx"))
		if err != nil {
			c.Fatalf("reference: %v", err)
		}
		if err := load(p); err != nil {
			c.Fatalf("the whole file is refused: %v", err)
		}
		cut := gen.Int(c.T, "cut", 0, len(b)-1)
		write("x.mqx", b[:cut])
		c.DescF(func() string { return fmt.Sprintf("plugin file cut at %d of %d", cut, len(b)) })
		if load(p) == nil {
			c.Fatalf("no error although only %d of %d bytes of the plugin file can be read", cut, len(b))
		}
		c.Label(kind)
		c.NonTrivial(fmt.Sprint(cut, string(b)))
	case "gltf":
		o := gltfx.FullDraw()
		o.Images = false
		p := gltfx.Draw(c.T, o).Write(c.T, dir)
		var parts []string
		filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
			if err == nil && !fi.IsDir() && fi.Size() > 0 {
				parts = append(parts, p)
			}
			return nil
		})
		if err := load(p); err != nil {
			c.Fatalf("the whole file is refused: %v", err)
		}
		part := rapid.SampledFrom(parts).Draw(c.T, "part")
		b, _ := os.ReadFile(part)
		cut := gen.Int(c.T, "cut", 0, len(b)-1)
		if strings.HasSuffix(part, ".glb") { // padding of the last chunk
			cut = min(cut, len(b)-4)
		}
		if err := os.WriteFile(part, b[:cut], 0644); err != nil {
			c.Fatalf("%v", err)
		}
		rel, _ := filepath.Rel(dir, part)
		c.DescF(func() string { return fmt.Sprintf("%s cut at %d of %d", rel, cut, len(b)) })
		if load(p) == nil {
			c.Fatalf("no error although only %d of %d bytes of %s can be read", cut, len(b), rel)
		}
		c.Label(kind + filepath.Ext(part))
		c.NonTrivial(fmt.Sprint(cut, rel, string(b)))
	}
}

// commandProp runs the command on cut files.
func commandProp(c *hx.C) {
	dir, done := hx.Scratch(c)
	defer done()
	x := drawInput(c, []string{"pmx", "pmd", "fbx", "fbx text", "mqo", "vrm", "mqoz", "vmd"})
	cut := x.cut(c)
	in := "in" + x.ext
	os.WriteFile(filepath.Join(dir, in), x.data[:cut], 0644)
	out := "out" + rapid.SampledFrom([]string{".mqo", ".mqoz", ".glb", ".gltf", ".vrm", ".pmx"}).Draw(c.T, "out")
	args := []string{in, out}
	if x.kind == "vmd" {
		d := gen.PMXDoc(c.T, gen.SmallPMX())
		d.Faces, d.Materials, d.Bones, d.Bodies, d.Joints = nil, nil, nil, nil, nil
		os.WriteFile(filepath.Join(dir, "m.pmx"), gen.EncodePMX(d, gen.IndexSizes(c.T, d), gen.PMXExtra{}), 0644)
		out = "out.glb"
		args = []string{"m.pmx", in, out}
	}
	c.DescF(func() string {
		return fmt.Sprintf("modelconv %v with %s cut at %d of %d\n%q", args, x.kind, cut, len(x.data), x.data)
	})
	cmd := exec.Command(os.Getenv("HX_CLI"), args...)
	cmd.Dir = dir
	text, err := cmd.CombinedOutput()
	if err == nil {
		c.Fatalf("%v: success although only %d of %d bytes can be read", args, cut, len(x.data))
	}
	if bytes.Contains(text, []byte("goroutine ")) {
		c.Fatalf("%v: crash\n%s", args, text)
	}
	if _, err := os.Stat(filepath.Join(dir, out)); err == nil {
		c.Fatalf("%v: writes a result although only %d of %d bytes can be read", args, cut, len(x.data))
	}
	c.Label(x.kind)
	c.NonTrivial(fmt.Sprint(args, cut, string(x.data)))
}

func TestC23(t *testing.T) {
	hx.Main(t, "C23",
		hx.Leg{Name: "streams", Quick: 1000, Prop: readProp},
		hx.Leg{Name: "files", Quick: 400, Prop: loadProp},
		hx.Leg{Name: "command", Quick: 60, Prop: commandProp},
	)
}
