package gen

import (
	"math"

	"github.com/binzume/modelconv/geom"
	"pgregory.net/rapid"
)

// M is a column major 4x4 matrix in double precision; the reference arithmetic
// of the oracles.
type M [16]float64

type P3 [3]float64

func Ident4() M { return M{1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1} }

func (a M) Mul(b M) (r M) {
	for c := 0; c < 4; c++ {
		for w := 0; w < 4; w++ {
			for k := 0; k < 4; k++ {
				r[c*4+w] += a[k*4+w] * b[c*4+k]
			}
		}
	}
	return
}

func (a M) Apply(p P3) P3 {
	return P3{
		a[0]*p[0] + a[4]*p[1] + a[8]*p[2] + a[12],
		a[1]*p[0] + a[5]*p[1] + a[9]*p[2] + a[13],
		a[2]*p[0] + a[6]*p[1] + a[10]*p[2] + a[14]}
}

func (a M) Dir(p P3) P3 {
	a[12], a[13], a[14] = 0, 0, 0
	return a.Apply(p)
}

func TransM(t P3) M { m := Ident4(); m[12], m[13], m[14] = t[0], t[1], t[2]; return m }
func ScaleM(s P3) M { m := Ident4(); m[0], m[5], m[10] = s[0], s[1], s[2]; return m }

// QuatM is the rotation of a unit quaternion (x,y,z,w).
func QuatM(x, y, z, w float64) M {
	n := math.Sqrt(x*x + y*y + z*z + w*w)
	if n == 0 {
		return Ident4()
	}
	x, y, z, w = x/n, y/n, z/n, w/n
	return M{
		1 - 2*(y*y+z*z), 2 * (x*y + z*w), 2 * (x*z - y*w), 0,
		2 * (x*y - z*w), 1 - 2*(x*x+z*z), 2 * (y*z + x*w), 0,
		2 * (x*z + y*w), 2 * (y*z - x*w), 1 - 2*(x*x+y*y), 0,
		0, 0, 0, 1}
}

func RotX(a float64) M {
	s, c := math.Sin(a), math.Cos(a)
	return M{1, 0, 0, 0, 0, c, s, 0, 0, -s, c, 0, 0, 0, 0, 1}
}
func RotY(a float64) M {
	s, c := math.Sin(a), math.Cos(a)
	return M{c, 0, -s, 0, 0, 1, 0, 0, s, 0, c, 0, 0, 0, 0, 1}
}
func RotZ(a float64) M {
	s, c := math.Sin(a), math.Cos(a)
	return M{c, s, 0, 0, -s, c, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1}
}

// Inv3 inverts an affine matrix.
func (a M) Inv() M {
	det := a[0]*(a[5]*a[10]-a[9]*a[6]) - a[4]*(a[1]*a[10]-a[9]*a[2]) + a[8]*(a[1]*a[6]-a[5]*a[2])
	var r M
	r[0] = (a[5]*a[10] - a[9]*a[6]) / det
	r[1] = -(a[1]*a[10] - a[9]*a[2]) / det
	r[2] = (a[1]*a[6] - a[5]*a[2]) / det
	r[4] = -(a[4]*a[10] - a[8]*a[6]) / det
	r[5] = (a[0]*a[10] - a[8]*a[2]) / det
	r[6] = -(a[0]*a[6] - a[4]*a[2]) / det
	r[8] = (a[4]*a[9] - a[8]*a[5]) / det
	r[9] = -(a[0]*a[9] - a[8]*a[1]) / det
	r[10] = (a[0]*a[5] - a[4]*a[1]) / det
	r[15] = 1
	t := r.Apply(P3{a[12], a[13], a[14]})
	r[12], r[13], r[14] = -t[0], -t[1], -t[2]
	return r
}

// Normal transforms a normal: inverse transpose of the linear part.
func (a M) Normal(n P3) P3 {
	i := a.Inv()
	return P3{i[0]*n[0] + i[1]*n[1] + i[2]*n[2], i[4]*n[0] + i[5]*n[1] + i[6]*n[2], i[8]*n[0] + i[9]*n[1] + i[10]*n[2]}
}

func V(v *geom.Vector3) P3 { return P3{float64(v.X), float64(v.Y), float64(v.Z)} }
func MatOf(m *geom.Matrix4) (r M) {
	for i := range r {
		r[i] = float64(m[i])
	}
	return
}
func (a M) Geom() *geom.Matrix4 {
	var r geom.Matrix4
	for i := range r {
		r[i] = float32(a[i])
	}
	return &r
}
func (p P3) Geom() *geom.Vector3 {
	return &geom.Vector3{X: float32(p[0]), Y: float32(p[1]), Z: float32(p[2])}
}
func (p P3) Sub(q P3) P3        { return P3{p[0] - q[0], p[1] - q[1], p[2] - q[2]} }
func (p P3) Add(q P3) P3        { return P3{p[0] + q[0], p[1] + q[1], p[2] + q[2]} }
func (p P3) Scale(k float64) P3 { return P3{p[0] * k, p[1] * k, p[2] * k} }
func (p P3) Dot(q P3) float64   { return p[0]*q[0] + p[1]*q[1] + p[2]*q[2] }
func (p P3) Len() float64       { return math.Sqrt(p.Dot(p)) }
func (p P3) Dist(q P3) float64  { return p.Sub(q).Len() }
func (p P3) Cross(q P3) P3 {
	return P3{p[1]*q[2] - p[2]*q[1], p[2]*q[0] - p[0]*q[2], p[0]*q[1] - p[1]*q[0]}
}
func (p P3) Norm() P3 {
	l := p.Len()
	if l == 0 {
		return p
	}
	return p.Scale(1 / l)
}

// MaxAbs is the largest magnitude of the entries.
func (a M) MaxAbs() float64 {
	m := 0.0
	for _, x := range a {
		m = math.Max(m, math.Abs(x))
	}
	return m
}

// MaxDiff is the largest difference of two matrices.
func (a M) MaxDiff(b M) float64 {
	m := 0.0
	for i := range a {
		d := math.Abs(a[i] - b[i])
		if math.IsNaN(d) {
			return math.Inf(1)
		}
		m = math.Max(m, d)
	}
	return m
}

// Angle draws an angle in radians, favouring the special ones.
func Angle(t *T, n string) float64 {
	switch rapid.IntRange(0, 3).Draw(t, n+".kind") {
	case 0:
		return float64(rapid.IntRange(-4, 4).Draw(t, n+".q")) * math.Pi / 4
	case 1:
		return float64(rapid.IntRange(-180, 180).Draw(t, n+".deg")) * math.Pi / 180
	}
	return rapid.Float64Range(-math.Pi, math.Pi).Draw(t, n)
}

// RotM draws a rotation matrix.
func RotM(t *T, n string) M {
	switch rapid.IntRange(0, 4).Draw(t, n+".k") {
	case 0:
		return Ident4()
	case 1:
		return RotX(Angle(t, n+".a"))
	case 2:
		return RotY(Angle(t, n+".a"))
	case 3:
		return RotZ(Angle(t, n+".a"))
	}
	return RotZ(Angle(t, n+".z")).Mul(RotY(Angle(t, n+".y"))).Mul(RotX(Angle(t, n+".x")))
}

// QuatOf turns a rotation matrix into a quaternion (x,y,z,w).
func QuatOf(m M) [4]float64 {
	// pick the largest component
	t := [4]float64{1 + m[0] - m[5] - m[10], 1 - m[0] + m[5] - m[10], 1 - m[0] - m[5] + m[10], 1 + m[0] + m[5] + m[10]}
	k := 0
	for i := range t {
		if t[i] > t[k] {
			k = i
		}
	}
	s := 2 * math.Sqrt(t[k])
	switch k {
	case 0:
		return [4]float64{s / 4, (m[4] + m[1]) / s, (m[8] + m[2]) / s, (m[6] - m[9]) / s}
	case 1:
		return [4]float64{(m[4] + m[1]) / s, s / 4, (m[9] + m[6]) / s, (m[8] - m[2]) / s}
	case 2:
		return [4]float64{(m[8] + m[2]) / s, (m[9] + m[6]) / s, s / 4, (m[1] - m[4]) / s}
	}
	return [4]float64{(m[6] - m[9]) / s, (m[8] - m[2]) / s, (m[1] - m[4]) / s, s / 4}
}

// Pos draws a positive scale factor.
func Pos(t *T, n string) float64 {
	switch rapid.IntRange(0, 2).Draw(t, n+".k") {
	case 0:
		return float64(rapid.SampledFrom([]int{1, 1, 2, 3, 10}).Draw(t, n))
	}
	return float64(float32(rapid.Float64Range(0.05, 20).Draw(t, n)))
}

// Pt draws a point.
func Pt(t *T, n string, lim float64) P3 {
	v := V3(t, n, lim)
	return V(&v)
}
