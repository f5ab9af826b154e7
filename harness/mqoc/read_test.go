package mqoc

import (
	"archive/zip"
	"bytes"
	"io"
	"os"
	"path/filepath"
	"strings"
	"testing"
	"testing/iotest"

	"github.com/binzume/modelconv/mqo"
	"pgregory.net/rapid"

	"verif/harness/gen"
	"verif/harness/hx"
)

func cut(b []byte) []byte {
	if len(b) > 4000 {
		return b[:4000]
	}
	return b
}

// text written by an independent emitter is read as the document it describes.
func propRead(c *hx.C) {
	o := gen.SmallMQO()
	o.Plugins = false
	doc := gen.MQODoc(c.T, o)
	nontrivial(c, doc)
	st := gen.DrawMQOStyle(c.T)
	data := gen.EmitMQO(c.T, doc, st)
	c.DescF(func() string { return string(cut(data)) })
	c.LabelIf(st.SJIS, "sjis")
	c.LabelIf(st.Noise, "noise")
	got, err := mqo.NewParser(gen.Chunked(c.T, data), "").Parse()
	if err != nil {
		c.Fatalf("Parse: %v", err)
	}
	same(c, "read", got, doc, 0)
	got, err = mqo.NewParser(bytes.NewReader(data), "").Parse()
	if err != nil {
		c.Fatalf("Parse (whole): %v", err)
	}
	same(c, "read (whole)", got, doc, 0)
}

// the same with more data than the transcoding buffers hold
func propReadLong(c *hx.C) {
	o := gen.SmallMQO()
	o.Plugins = false
	doc := gen.MQODoc(c.T, o)
	n := gen.Int(c.T, "objects", 10, 150)
	base := gen.Name(c.T, "n")
	for i := 0; i < n; i++ {
		x := mqo.NewObject(base + gen.JapaneseChars[i%len(gen.JapaneseChars)] + gen.JapaneseChars[(i/7)%len(gen.JapaneseChars)])
		x.Vertexes = append(x.Vertexes, &mqo.Vector3{X: float32(i)}, &mqo.Vector3{Y: float32(i)})
		x.Faces = append(x.Faces, &mqo.Face{Verts: []int{0, 1}})
		doc.Objects = append(doc.Objects, x)
	}
	nontrivial(c, doc)
	st := gen.DrawMQOStyle(c.T)
	st.SJIS = !gen.Chance(c.T, "utf8", 4)
	data := gen.EmitMQO(c.T, doc, st)
	if rapid.Bool().Draw(c.T, "edge") {
		// fill the file up so that it ends close to the end of a buffer
		size := len(data) + 16
		size = (size+4095)/4096*4096 + gen.Int(c.T, "over", -64, 160)
		if pad := size - len(data) - 7; pad > 0 {
			i := bytes.Index(data, []byte("Material "))
			data = append(data[:i:i], append([]byte("Pad {"+strings.Repeat("a", pad)+"}\n"), data[i:]...)...)
		}
	}
	var src io.Reader = bytes.NewReader(data)
	if rapid.Bool().Draw(c.T, "in chunks") {
		src = gen.Chunked(c.T, data)
	} else if rapid.Bool().Draw(c.T, "end with data") {
		src = iotest.DataErrReader(src) // like a file of an archive
	}
	got, err := mqo.NewParser(src, "").Parse()
	if err != nil {
		c.Fatalf("Parse of %d bytes: %v", len(data), err)
	}
	same(c, "read", got, doc, 0)
}

// files: plain and zipped, with the plugin data next to it.
func propReadFile(c *hx.C) {
	o := gen.SmallMQO()
	doc := gen.MQODoc(c.T, o)
	if rapid.Bool().Draw(c.T, "one object") && len(doc.Objects) > 1 {
		doc.Objects = doc.Objects[:1]
	}
	nontrivial(c, doc)
	st := gen.DrawMQOStyle(c.T)
	dir, done := hx.Scratch(c)
	defer done()
	name := fileName(c, "file")
	if st.SJIS && name == "モデル" {
		name = "model"
	}
	if len(doc.Plugins) > 0 {
		st.XML = name + ".mqx"
	}
	data := gen.EmitMQO(c.T, doc, st)
	mqx := gen.EmitMQX(c.T, doc, name+".mqo", st.Noise)
	c.DescF(func() string { return string(cut(data)) + "\n" + string(cut(mqx)) })
	var path string
	if rapid.Bool().Draw(c.T, "zip") {
		c.Label("mqoz")
		path = filepath.Join(dir, rapid.SampledFrom([]string{name, "renamed"}).Draw(c.T, "zipname")+".mqoz")
		var zb bytes.Buffer
		zw := zip.NewWriter(&zb)
		files := []string{name + ".mqo", name + ".mqx", "thumb.bmp"}
		for _, f := range rapid.Permutation(files).Draw(c.T, "ziporder") {
			h := &zip.FileHeader{Name: f, Method: rapid.SampledFrom([]uint16{zip.Store, zip.Deflate}).Draw(c.T, "method")}
			w, err := zw.CreateHeader(h)
			if err != nil {
				panic(err)
			}
			switch f {
			case files[0]:
				w.Write(data)
			case files[1]:
				if len(doc.Plugins) > 0 {
					w.Write(mqx)
				}
			default:
				w.Write([]byte("BM"))
			}
		}
		zw.Close()
		os.WriteFile(path, zb.Bytes(), 0644)
	} else {
		path = filepath.Join(dir, name+".mqo")
		os.WriteFile(path, data, 0644)
		if len(doc.Plugins) > 0 {
			os.WriteFile(filepath.Join(dir, name+".mqx"), mqx, 0644)
		}
	}
	got, err := mqo.Load(path)
	if err != nil {
		c.Fatalf("Load: %v", err)
	}
	same(c, "load", got, doc, 0)
}

func TestC04(t *testing.T) {
	hx.Main(t, "C04",
		hx.Leg{Name: "text", Quick: 1200, Prop: propRead},
		hx.Leg{Name: "long", Quick: 250, Prop: propReadLong},
		hx.Leg{Name: "file", Quick: 400, Prop: propReadFile},
	)
}
