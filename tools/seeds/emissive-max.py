PROP="C26"
NEEDS="a material whose emission colour is brightest, and brighter than one, in blue"
BREAKS="the emissive factor is not brought into the range of glTF (0 to 1) when only its blue part is out of it"
EDITS=[("converter/mqo2gltf.go","geom.Max(geom.Max(mm.EmissiveFactor[0], mm.EmissiveFactor[1]), mm.EmissiveFactor[2])","geom.Max(mm.EmissiveFactor[0], mm.EmissiveFactor[1])")]
DEMO='''
package main

import (
	"fmt"
	"os"

	"github.com/binzume/modelconv/converter"
	"github.com/binzume/modelconv/mqo"
)

func main() {
	doc := mqo.NewDocument()
	doc.Materials = []*mqo.Material{{Name: "m", Color: mqo.Vector4{X: 1, Y: 1, Z: 1, W: 1}, EmissionColor: &mqo.Vector3{X: 0.5, Y: 0.5, Z: 2}}}
	o := mqo.NewObject("o")
	o.Visible = true
	o.Vertexes = []*mqo.Vector3{{}, {X: 1}, {Y: 1}}
	o.Faces = []*mqo.Face{{Verts: []int{0, 1, 2}}}
	doc.Objects = append(doc.Objects, o)
	got, err := converter.NewMQOToGLTFConverter(nil).Convert(doc, "")
	if err != nil {
		fmt.Println(err)
		os.Exit(1)
	}
	for _, m := range got.Materials {
		for _, v := range m.EmissiveFactor {
			if v < 0 || v > 1 {
				fmt.Println("emissive factor", m.EmissiveFactor)
				os.Exit(1)
			}
		}
	}
}
'''
