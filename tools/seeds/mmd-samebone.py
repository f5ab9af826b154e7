PROP="C12"
NEEDS="an MMD vertex that names one bone several times (BDEF4 of one bone with weights that sum to one)"
BREAKS="only the last weight of such a bone is kept, so the weights of the vertex no longer sum to 100 percent"
EDITS=[("converter/mmd2mqo.go","c[b].Weight += 100 * v.BoneWeights[bi]","c[b].Weight = 100 * v.BoneWeights[bi]")]
DEMO='''
package main

import (
	"fmt"
	"math"
	"os"

	"github.com/binzume/modelconv/converter"
	"github.com/binzume/modelconv/mmd"
	"github.com/binzume/modelconv/mqo"
)

func main() {
	doc := &mmd.Document{Materials: []*mmd.Material{{Name: "m", Count: 3}}, Bones: []*mmd.Bone{{Name: "b", ParentID: -1}}, Faces: []*mmd.Face{{Verts: [3]int{0, 1, 2}}}}
	for i := 0; i < 3; i++ {
		doc.Vertexes = append(doc.Vertexes, &mmd.Vertex{Pos: mmd.Vector3{X: float32(i), Y: float32(i * i)}, Bones: []int{0, 0, -1, -1}, BoneWeights: []float32{0.25, 0.75, 0, 0}})
	}
	got := converter.NewMMDToMQOConverter(nil).Convert(doc)
	for _, b := range mqo.GetBonePlugin(got).Bones() {
		for _, w := range b.Weights {
			for _, v := range w.Vertexes {
				if math.Abs(float64(v.Weight)-100) > 0.01 {
					fmt.Println("weight", v.Weight)
					os.Exit(1)
				}
			}
		}
	}
}
'''
