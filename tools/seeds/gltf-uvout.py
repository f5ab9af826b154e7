PROP="C25"
NEEDS="a mesh whose first primitive has texture coordinates and whose second has none"
BREAKS="faces of a primitive without texture coordinates get those of the primitive before"
EDITS=[("converter/gltf2mqo.go","		var texCoord [][2]float32\n",""),("converter/gltf2mqo.go","	for _, p := range m.Primitives {\n","	var texCoord [][2]float32\n	for _, p := range m.Primitives {\n")]
DEMO='''
package main

import (
	"fmt"
	"os"

	"github.com/binzume/modelconv/converter"
	"github.com/qmuntal/gltf"
	"github.com/qmuntal/gltf/modeler"
)

func main() {
	doc := gltf.NewDocument()
	pos := modeler.WritePosition(doc, [][3]float32{{0, 0, 0}, {1, 0, 0}, {0, 1, 0}})
	uv := modeler.WriteTextureCoord(doc, [][2]float32{{0, 0}, {1, 0}, {0, 1}})
	idx := modeler.WriteIndices(doc, []uint16{0, 1, 2})
	doc.Meshes = []*gltf.Mesh{{Name: "m", Primitives: []*gltf.Primitive{
		{Attributes: map[string]uint32{"POSITION": pos, "TEXCOORD_0": uv}, Indices: gltf.Index(idx)},
		{Attributes: map[string]uint32{"POSITION": pos}, Indices: gltf.Index(idx)},
	}}}
	doc.Nodes = []*gltf.Node{{Name: "n", Mesh: gltf.Index(0)}}
	doc.Scenes[0].Nodes = []uint32{0}
	got, err := converter.NewGLTFToMQOConverter(nil).Convert(doc)
	if err != nil {
		fmt.Println(err)
		os.Exit(1)
	}
	with, without := 0, 0
	for _, o := range got.Objects {
		for _, f := range o.Faces {
			if len(f.UVs) > 0 {
				with++
			} else {
				without++
			}
		}
	}
	if with != 1 || without != 1 {
		fmt.Println(with, "faces with and", without, "without texture coordinates")
		os.Exit(1)
	}
}
'''
