PROP="C03"
NEEDS="a face with explicit normals for some corners but not for its first"
BREAKS="the explicit normals of such a face are not written"
EDITS=[("mqo/mqo_writer.go","			if len(f.Normals) == len(f.Verts) {","			if len(f.Normals) == len(f.Verts) && f.Normals[0] != nil {")]
DEMO='''
package main

import (
	"fmt"
	"os"
	"path/filepath"

	"github.com/binzume/modelconv/mqo"
)

func main() {
	dir, err := os.MkdirTemp("", "demo")
	if err != nil {
		panic(err)
	}
	code := 0
	doc := mqo.NewDocument()
	o := mqo.NewObject("o")
	o.Vertexes = []*mqo.Vector3{{}, {X: 1}, {Y: 1}}
	o.Faces = []*mqo.Face{{Verts: []int{0, 1, 2}, Normals: []*mqo.Vector3{nil, {Z: 1}, {X: 1}}}}
	doc.Objects = append(doc.Objects, o)
	p := filepath.Join(dir, "a.mqo")
	if err := mqo.Save(doc, p); err != nil {
		fmt.Println(err)
		code = 1
	}
	got, err := mqo.Load(p)
	if err != nil {
		fmt.Println(err)
		code = 1
	} else if n := got.Objects[0].Faces[0].Normals; len(n) != 3 || n[0] != nil || n[1] == nil || n[2] == nil {
		fmt.Println("normals:", n)
		code = 1
	}
	os.RemoveAll(dir)
	os.Exit(code)
}
'''
