PROP="C11"
NEEDS="a vertex with weights for five or more bones, where a later weight is larger than several of the first four"
BREAKS="the new weight replaces the last smaller one instead of the smallest, so a larger weight is dropped while a smaller stays"
EDITS=[("converter/mqo2gltf.go","							minWeight = w\n","")]
DEMO='''
package main

import (
	"fmt"
	"os"

	"github.com/binzume/modelconv/converter"
	"github.com/binzume/modelconv/mqo"
	"github.com/qmuntal/gltf/modeler"
)

func main() {
	doc := mqo.NewDocument()
	o := mqo.NewObject("o")
	o.UID = 1
	o.Visible = true
	o.Vertexes = []*mqo.Vector3{{}, {X: 1}, {Y: 1}}
	o.Faces = []*mqo.Face{{Verts: []int{0, 1, 2}}}
	doc.Objects = append(doc.Objects, o)
	var bones []*mqo.Bone
	for i, w := range []float32{5, 10, 20, 25, 40} {
		b := &mqo.Bone{ID: i + 1, Name: fmt.Sprint("b", i)}
		if i > 0 {
			b.Parent = 1
		}
		for v := 1; v <= 3; v++ {
			b.SetVertexWeight(1, v, w)
		}
		bones = append(bones, b)
	}
	mqo.GetBonePlugin(doc).SetBones(bones)
	got, err := converter.NewMQOToGLTFConverter(nil).Convert(doc, "")
	if err != nil {
		fmt.Println(err)
		os.Exit(1)
	}
	ws, err := modeler.ReadWeights(got, got.Accessors[got.Meshes[0].Primitives[0].Attributes["WEIGHTS_0"]], nil)
	if err != nil {
		fmt.Println(err)
		os.Exit(1)
	}
	for _, w := range ws {
		var min, sum float32 = 1, 0
		for _, x := range w {
			sum += x
			if x < min {
				min = x
			}
		}
		// 10, 20, 25 and 40 are left
		if min/sum < 0.1 {
			fmt.Println("weights", w)
			os.Exit(1)
		}
	}
}
'''
