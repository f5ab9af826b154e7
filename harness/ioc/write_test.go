package ioc

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"os"
	"os/exec"
	"os/signal"
	"path/filepath"
	"strings"
	"syscall"
	"testing"

	"github.com/binzume/modelconv/fbx"
	"github.com/binzume/modelconv/gltfutil"
	"github.com/binzume/modelconv/mmd"
	"github.com/binzume/modelconv/mqo"
	"github.com/binzume/modelconv/vrm"
	"github.com/qmuntal/gltf"
	"pgregory.net/rapid"

	"verif/harness/gen"
	"verif/harness/gltfx"
	"verif/harness/hx"
)

var errFault = errors.New("no space left")

// drawMQO draws a document, sometimes with many vertices so that buffers are
// flushed on the way.
func drawMQO(c *hx.C) *mqo.Document {
	d := gen.MQODoc(c.T, gen.SmallMQO())
	if len(d.Objects) > 0 && gen.Chance(c.T, "long", 3) {
		o := d.Objects[0]
		for i := 0; i < 600; i++ {
			o.Vertexes = append(o.Vertexes, &mqo.Vector3{X: float32(i)})
		}
	}
	return d
}

func drawFBX(c *hx.C) *fbx.Document {
	var kids []*gen.FN
	if gen.Bool(c.T, "scene") {
		kids = gen.FBXScene(c.T, gen.FSceneOpts{}).Tree(c.T)
	} else {
		kids = gen.FBXTree(c.T, "n", 2, 40)
	}
	data, _ := gen.EncodeFBX(kids, gen.DrawFBXBin(c.T))
	d, err := fbx.Parse(bytes.NewReader(data))
	if err != nil {
		c.Skip("not read")
	}
	return d
}

func drawPMX(c *hx.C) *mmd.Document {
	d := gen.PMXDoc(c.T, gen.SmallPMX())
	b := gen.EncodePMX(d, gen.IndexSizes(c.T, d), gen.PMXExtra{})
	doc, err := mmd.Parse(bytes.NewReader(b))
	if err != nil {
		c.Fatalf("reference: %v", err)
	}
	return doc
}

func drawGLTF(c *hx.C) *gltf.Document {
	dir, done := hx.Scratch(c)
	defer done()
	o := gltfx.FullDraw()
	o.Images = false
	doc, err := gltfutil.Load(gltfx.Draw(c.T, o).Write(c.T, dir))
	if err != nil {
		c.Fatalf("reference: %v", err)
	}
	if err := gltfutil.ToSingleFile(doc, dir); err != nil {
		c.Fatalf("reference: %v", err)
	}
	return doc
}

// closer fails when it is closed.
type closer struct {
	io.Writer
	err    error
	closed *int
}

func (w closer) Close() error { *w.closed++; return w.err }

// faultProp writes to destinations that stop accepting data at any byte.
func faultProp(c *hx.C) {
	var write func(w io.Writer) error
	kind := rapid.SampledFrom([]string{"mqo", "mqx", "pmx", "fbx", "vrm"}).Draw(c.T, "kind")
	switch kind {
	case "mqo":
		d := drawMQO(c)
		write = func(w io.Writer) error { return mqo.NewWriter("").WriteMQO(d, w) }
	case "mqx":
		d := drawMQO(c)
		write = func(w io.Writer) error { return mqo.WriteMQX(d, w, "x.mqo") }
	case "pmx":
		d := drawPMX(c)
		write = func(w io.Writer) error { return mmd.WritePMX(d, w) }
	case "fbx":
		d := drawFBX(c)
		write = func(w io.Writer) error { return fbx.Write(w, d) }
	case "vrm":
		d := drawGLTF(c)
		write = func(w io.Writer) error { return vrm.Write((*vrm.Document)(d), w, "x.vrm") }
	}
	var all bytes.Buffer
	if err := write(&all); err != nil {
		c.Fatalf("%s: cannot be written: %v", kind, err)
	}
	total := all.Len()
	at := rapid.OneOf(rapid.IntRange(0, total-1), rapid.IntRange(max(0, total-8), total-1), rapid.IntRange(0, min(total-1, 40))).Draw(c.T, "at")
	w := &gen.FaultWriter{N: at, Err: errFault}
	c.Desc("%s of %d bytes, the destination fails after %d", kind, total, at)
	if err := write(w); err == nil {
		c.Fatalf("%s: success although only %d of %d bytes were written", kind, at, total)
	}
	w = &gen.FaultWriter{N: total, Err: errFault}
	if err := write(w); err != nil || w.Wrote != total {
		c.Fatalf("%s: %v with room for everything (%d of %d bytes)", kind, err, w.Wrote, total)
	}
	c.Label(kind)
	c.LabelIf(at > 4096, "after 4096 bytes")
	c.NonTrivial(fmt.Sprint(kind, at, all.String()))
}

// mqxProp writes documents with plugins where the second file fails.
func mqxProp(c *hx.C) {
	d := drawMQO(c)
	mqo.GetBonePlugin(d)
	open := func(e1, e2 error, room int) (*mqo.Writer, *gen.FaultWriter, *int, *int) {
		wr := mqo.NewWriter("dir/x.mqo")
		f := &gen.FaultWriter{N: room, Err: errFault}
		n, closed := 0, 0
		wr.Create = func(name string) (io.WriteCloser, error) {
			if n++; name != "x.mqx" {
				c.Fatalf("creates %q", name)
			}
			if e1 != nil {
				return nil, e1
			}
			return closer{f, e2, &closed}, nil
		}
		return wr, f, &n, &closed
	}
	wr, f, n, closed := open(nil, nil, 1<<30)
	if err := wr.WriteMQO(d, io.Discard); err != nil || *n != 1 || *closed != 1 {
		c.Fatalf("plugins: %v, %d files created, %d closed", err, *n, *closed)
	}
	total := f.Wrote
	kind := gen.Int(c.T, "kind", 0, 2)
	room := 1 << 30
	var e1, e2 error
	switch kind {
	case 0:
		e1 = errFault
	case 1:
		e2 = errFault
	case 2:
		room = gen.Int(c.T, "room", 0, total-1)
	}
	wr, _, n, closed = open(e1, e2, room)
	c.Desc("plugin file of %d bytes, fault %d at %d", total, kind, room)
	if err := wr.WriteMQO(d, io.Discard); err == nil {
		c.Fatalf("success although the plugin file failed (%d)", kind)
	}
	if e1 == nil && *closed != 1 {
		c.Fatalf("closed %d times", *closed)
	}
	c.Label(fmt.Sprint("fault ", kind))
	c.NonTrivial(fmt.Sprint(kind, room, gen.DescribeMQO(d)))
}

// limited runs f while files cannot grow beyond n bytes.
func limited(n int64, f func() error) error {
	signal.Ignore(syscall.SIGXFSZ)
	var old syscall.Rlimit
	if err := syscall.Getrlimit(syscall.RLIMIT_FSIZE, &old); err != nil {
		panic(err)
	}
	lim := old
	lim.Cur = uint64(n)
	if err := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &lim); err != nil {
		panic(err)
	}
	defer syscall.Setrlimit(syscall.RLIMIT_FSIZE, &old)
	return f()
}

// fullProp saves to files on a full device.
func fullProp(c *hx.C) {
	if _, err := os.Stat("/dev/full"); err != nil {
		c.Skip("no /dev/full")
	}
	dir, done := hx.Scratch(c)
	defer done()
	kind := rapid.SampledFrom([]string{"mqo", "mqx", "mqoz", "pmx", "fbx", "gltf", "bin", "glb"}).Draw(c.T, "kind")
	var save func(string) error
	ext := kind
	switch kind {
	case "mqo", "mqoz":
		d := drawMQO(c)
		save = func(p string) error { return mqo.Save(d, p) }
	case "mqx":
		d := drawMQO(c)
		mqo.GetBonePlugin(d)
		ext = "mqo"
		save = func(p string) error { return mqo.Save(d, p) }
	case "pmx":
		d := drawPMX(c)
		save = func(p string) error { return mmd.Save(d, p) }
	case "fbx":
		d := drawFBX(c)
		save = func(p string) error { return fbx.Save(d, p) }
	case "glb":
		d := drawGLTF(c)
		save = func(p string) error { return gltfutil.SaveBinary(d, p) }
	case "gltf", "bin":
		d := drawGLTF(c)
		if kind == "bin" && (len(d.Buffers) == 0 || len(d.Buffers[0].Data) == 0) {
			c.Skip("no data")
		}
		ext = "gltf"
		save = func(p string) error { return gltfutil.Save(d, p) }
	}
	good := filepath.Join(dir, "good."+ext)
	if err := save(good); err != nil {
		c.Fatalf("%s: cannot be saved: %v", kind, err)
	}
	full := map[string]string{"mqx": "x.mqx", "bin": "x0.bin"}[kind]
	if full == "" {
		full = "x." + ext
	}
	if err := os.Symlink("/dev/full", filepath.Join(dir, full)); err != nil {
		c.Fatalf("%v", err)
	}
	c.Desc("%s saved with %s on a full device", kind, full)
	if err := save(filepath.Join(dir, "x."+ext)); err == nil {
		c.Fatalf("%s: success although nothing could be written to %s", kind, full)
	}
	if err := save(filepath.Join(dir, "none", "x."+ext)); err == nil {
		c.Fatalf("%s: success in a directory that does not exist", kind)
	}
	// the file can only grow to a limit
	st, err := os.Stat(filepath.Join(dir, map[string]string{"mqx": "good.mqx", "bin": "good0.bin"}[kind]))
	if kind != "mqx" && kind != "bin" {
		st, err = os.Stat(good)
	}
	if err != nil || st.Size() == 0 {
		c.Fatalf("%s: not written: %v", kind, err)
	}
	limit := rapid.OneOf(rapid.Int64Range(0, st.Size()-1), rapid.Int64Range(max(0, st.Size()-6), st.Size()-1)).Draw(c.T, "limit")
	c.Desc("file of %d bytes may only grow to %d", st.Size(), limit)
	if err := limited(limit, func() error { return save(filepath.Join(dir, "also."+ext)) }); err == nil {
		if kind == "mqoz" { // compressed sizes vary a little
			if _, err := mqo.Load(filepath.Join(dir, "also."+ext)); err == nil {
				c.Skip("fits")
			}
		}
		c.Fatalf("%s: success although only %d of %d bytes could be written", kind, limit, st.Size())
	}
	c.Label(kind)
	b, _ := os.ReadFile(good)
	c.NonTrivial(kind + string(b))
}

// cliProp runs the command with its output on a full device.
func cliProp(c *hx.C) {
	if _, err := os.Stat("/dev/full"); err != nil {
		c.Skip("no /dev/full")
	}
	dir, done := hx.Scratch(c)
	defer done()
	in := rapid.SampledFrom([]string{".mqo", ".pmx", ".fbx", ".glb"}).Draw(c.T, "in")
	outs := []string{".mqo", ".mqx", ".mqoz", ".glb", ".gltf", ".vrm", ".pmx", ".bin"}
	path := filepath.Join(dir, "in"+in)
	var err error
	switch in {
	case ".mqo":
		mo := gen.FullModel()
		m := gen.DrawModel(c.T, mo, dir)
		for _, x := range m.Doc.Materials {
			x.Ex2 = nil
		}
		err = mqo.Save(m.Doc, path)
	case ".pmx":
		d := drawPMX(c)
		if len(d.Materials) == 0 {
			d.Faces = nil
		}
		for i, b := range d.Bones {
			b.ParentID = min(b.ParentID, i-1)
		}
		err = mmd.Save(d, path)
	case ".fbx":
		data, _ := gen.EncodeFBX(gen.FBXScene(c.T, gen.FSceneOpts{}).Tree(c.T), gen.DrawFBXBin(c.T))
		err = os.WriteFile(path, data, 0644)
		outs = append(outs, ".fbx")
	case ".glb":
		err = gltf.SaveBinary(drawGLTF(c), path)
	}
	if err != nil {
		c.Fatalf("reference: %v", err)
	}
	out := rapid.SampledFrom(outs).Draw(c.T, "out")
	full, target := "x"+out, "x"+out
	switch out {
	case ".mqx":
		target = "x.mqo"
	case ".bin":
		full, target = "x0.bin", "x.gltf"
	}
	run := func(args ...string) (int, string) {
		cmd := exec.Command(os.Getenv("HX_CLI"), args...)
		cmd.Dir = dir
		b, err := cmd.CombinedOutput()
		if ee, ok := err.(*exec.ExitError); ok {
			return ee.ExitCode(), string(b)
		} else if err != nil {
			panic(err)
		}
		return 0, string(b)
	}
	c.Desc("modelconv in%s %s with %s on a full device", in, target, full)
	os.Mkdir(filepath.Join(dir, "good"), 0755)
	if code, text := run("in"+in, "good/"+target); code != 0 {
		if strings.Contains(text, "goroutine ") {
			c.Fatalf("crash: %s", text)
		}
		c.Skip("cannot be converted")
	}
	if st, err := os.Stat(filepath.Join(dir, "good", full)); err != nil || st.Size() == 0 {
		c.Skip("no such part")
	}
	if err := os.Symlink("/dev/full", filepath.Join(dir, full)); err != nil {
		c.Fatalf("%v", err)
	}
	code, text := run("in"+in, target)
	if code == 0 {
		c.Fatalf("success although nothing could be written to %s\n%s", full, text)
	}
	if strings.Contains(text, "goroutine ") {
		c.Fatalf("crash: %s", text)
	}
	c.Label(in + " to " + out)
	b, _ := os.ReadFile(path)
	c.NonTrivial(in + out + string(b))
}

func TestC22(t *testing.T) {
	hx.Main(t, "C22",
		hx.Leg{Name: "fault", Quick: 700, Prop: faultProp},
		hx.Leg{Name: "plugins", Quick: 300, Prop: mqxProp},
		hx.Leg{Name: "full", Quick: 300, Prop: fullProp},
		hx.Leg{Name: "command", Quick: 60, Prop: cliProp},
	)
}
