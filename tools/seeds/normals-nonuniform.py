PROP="C20"
NEEDS="an object with explicit normals transformed by a non-uniform scale (or a scale and rotation)"
BREAKS="normals are transformed like positions instead of by the inverse transpose, so they stop being perpendicular to their faces"
EDITS=[("mqo/utils.go","	normalTransform := rsmat.Inverse().Transposed()\n","	normalTransform := rsmat\n")]
DEMO='''
package main

import (
	"fmt"
	"math"
	"os"

	"github.com/binzume/modelconv/geom"
	"github.com/binzume/modelconv/mqo"
)

func main() {
	o := mqo.NewObject("o")
	o.Vertexes = []*geom.Vector3{{X: 1}, {Y: 1}, {Y: 1, Z: 1}}
	n := &geom.Vector3{X: 1, Y: 1}
	o.Faces = []*mqo.Face{{Verts: []int{0, 1, 2}, Normals: []*geom.Vector3{n, n, n}}}
	o.ApplyTransform(geom.NewScaleMatrix4(1, 4, 1))
	e := o.Vertexes[1].Sub(o.Vertexes[0])
	if d := e.Dot(o.Faces[0].Normals[0]); math.Abs(float64(d)) > 1e-4 {
		fmt.Println("normal is not perpendicular:", d)
		os.Exit(1)
	}
}
'''
