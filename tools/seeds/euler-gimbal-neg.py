PROP="C07"
NEEDS="a rotation with the middle angle at -90 degrees (gimbal lock) converted to Euler angles in YXZ order"
BREAKS="gimbal lock is only recognised on the side where the matrix element is -1; on the other side the angles are computed from rounding noise"
EDITS=[("geom/euler.go","		if math.Abs(m23) < 1-eps {\n","		if m23 > eps-1 {\n")]
DEMO='''
package main

import (
	"fmt"
	"math"
	"os"

	"github.com/binzume/modelconv/geom"
)

func main() {
	bad := 0
	for i := 0; i < 50; i++ {
		a := float32(i) * 0.05
		q := geom.NewEuler(-math.Pi/2, a, 0.3, geom.RotationOrderYXZ).ToQuaternion()
		r := geom.NewEulerFromQuaternion(q, geom.RotationOrderYXZ).ToQuaternion()
		dot := q.X*r.X + q.Y*r.Y + q.Z*r.Z + q.W*r.W
		if math.Abs(math.Abs(float64(dot))-1) > 1e-3 {
			bad++
		}
	}
	if bad > 0 {
		fmt.Println("rotations changed:", bad)
		os.Exit(1)
	}
}
'''
