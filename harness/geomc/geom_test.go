package geomc

import (
	"fmt"
	"math"
	"testing"

	"github.com/binzume/modelconv/geom"
	"pgregory.net/rapid"

	"verif/harness/hx"
)

const eps32 = 1.0 / (1 << 23)

type m4 [16]float64 // column major

func toM(m *geom.Matrix4) (r m4) {
	for i := range r {
		r[i] = float64(m[i])
	}
	return
}

// (a*b)[row,col] = sum a[row,k] b[k,col]; also returns the sum of magnitudes.
func mul(a, b m4) (r, mag m4) {
	for col := 0; col < 4; col++ {
		for row := 0; row < 4; row++ {
			for k := 0; k < 4; k++ {
				p := a[k*4+row] * b[col*4+k]
				r[col*4+row] += p
				mag[col*4+row] += math.Abs(p)
			}
		}
	}
	return
}

func rotM(ax [3]float64, ang float64) m4 {
	l := math.Sqrt(ax[0]*ax[0] + ax[1]*ax[1] + ax[2]*ax[2])
	x, y, z := ax[0]/l, ax[1]/l, ax[2]/l
	c, s := math.Cos(ang), math.Sin(ang)
	t := 1 - c
	return m4{
		t*x*x + c, t*x*y + s*z, t*x*z - s*y, 0,
		t*x*y - s*z, t*y*y + c, t*y*z + s*x, 0,
		t*x*z + s*y, t*y*z - s*x, t*z*z + c, 0,
		0, 0, 0, 1}
}

// det of a 3x3 minor with sum of magnitudes
func minor(m m4, r, c int) (d, mag float64) {
	var v [9]float64
	n := 0
	for cc := 0; cc < 4; cc++ {
		if cc == c {
			continue
		}
		for rr := 0; rr < 4; rr++ {
			if rr == r {
				continue
			}
			v[n] = m[cc*4+rr]
			n++
		}
	}
	t := [6]float64{v[0] * v[4] * v[8], v[3] * v[7] * v[2], v[6] * v[1] * v[5], -v[6] * v[4] * v[2], -v[3] * v[1] * v[8], -v[0] * v[7] * v[5]}
	for _, x := range t {
		d += x
		mag += math.Abs(x)
	}
	return
}

func det(m m4) (d, mag float64) {
	sg := 1.0
	for c := 0; c < 4; c++ {
		x, xm := minor(m, 0, c)
		d += sg * m[c*4] * x
		mag += math.Abs(m[c*4]) * xm
		sg = -sg
	}
	return
}

var (
	genF    = rapid.Custom(func(t *rapid.T) float32 { return drawF(t, 1000) })
	genUnit = rapid.Float64Range(-1, 1)
)

// drawF draws a coordinate: small integers, special values and uniform reals.
func drawF(t *rapid.T, lim float64) float32 {
	switch rapid.IntRange(0, 3).Draw(t, "kind") {
	case 0:
		return float32(rapid.IntRange(-3, 3).Draw(t, "i"))
	case 1:
		return float32(rapid.IntRange(-1000, 1000).Draw(t, "q")) / 8
	default:
		v := rapid.Float64Range(-lim, lim).Draw(t, "f")
		if math.Abs(v) < 1e-5 { // denormals and underflow are not what this is about
			v = 0
		}
		return float32(v)
	}
}

func drawV(c *hx.C, n string) *geom.Vector3 {
	return &geom.Vector3{X: genF.Draw(c.T, n+".x"), Y: genF.Draw(c.T, n+".y"), Z: genF.Draw(c.T, n+".z")}
}

// drawAngle draws an angle with emphasis on the special ones, in radians.
func drawAngle(c *hx.C, n string) float64 {
	switch rapid.IntRange(0, 3).Draw(c.T, n+".kind") {
	case 0:
		return float64(rapid.IntRange(-4, 4).Draw(c.T, n+".q")) * math.Pi / 4
	case 1:
		a := float64(rapid.IntRange(-2, 2).Draw(c.T, n+".h")) * math.Pi / 2
		return a + rapid.Float64Range(-1, 1).Draw(c.T, n+".d")*math.Pow(10, -float64(rapid.IntRange(1, 7).Draw(c.T, n+".e")))
	case 2:
		return float64(rapid.IntRange(-180, 180).Draw(c.T, n+".deg")) * math.Pi / 180
	}
	return rapid.Float64Range(-math.Pi, math.Pi).Draw(c.T, n)
}

func drawAxis(c *hx.C, n string) [3]float64 {
	switch rapid.IntRange(0, 2).Draw(c.T, n+".kind") {
	case 0:
		v := [3]float64{}
		v[rapid.IntRange(0, 2).Draw(c.T, n+".i")] = 1
		return v
	case 1:
		v := [3]float64{float64(rapid.IntRange(-2, 2).Draw(c.T, n)), float64(rapid.IntRange(-2, 2).Draw(c.T, n)), float64(rapid.IntRange(-2, 2).Draw(c.T, n))}
		if v == [3]float64{} {
			v[1] = 1
		}
		return v
	}
	v := [3]float64{genUnit.Draw(c.T, n+".x"), genUnit.Draw(c.T, n+".y"), genUnit.Draw(c.T, n+".z")}
	if math.Abs(v[0])+math.Abs(v[1])+math.Abs(v[2]) < 1e-3 {
		v[2] = 1
	}
	return v
}

func quatOf(ax [3]float64, ang float64) *geom.Quaternion {
	l := math.Sqrt(ax[0]*ax[0] + ax[1]*ax[1] + ax[2]*ax[2])
	s := math.Sin(ang/2) / l
	return geom.NewQuaternion(float32(ax[0]*s), float32(ax[1]*s), float32(ax[2]*s), float32(math.Cos(ang/2)))
}

func drawRot(c *hx.C, n string) (m4, *geom.Quaternion) {
	ax, an := drawAxis(c, n+".axis"), drawAngle(c, n+".angle")
	return rotM(ax, an), quatOf(ax, an)
}

func drawMatrix(c *hx.C, n string) *geom.Matrix4 {
	m := &geom.Matrix4{}
	if rapid.Bool().Draw(c.T, n+".affine") {
		_, q := drawRot(c, n+".r")
		return geom.NewTRSMatrix4(drawV(c, n+".t"), q, drawScale(c, n+".s"))
	}
	for i := range m {
		m[i] = drawF(c.T, 10)
	}
	return m
}

func drawScale(c *hx.C, n string) *geom.Vector3 {
	f := func(k string) float32 {
		v := float32(rapid.Float64Range(0.1, 10).Draw(c.T, n+k))
		if rapid.IntRange(0, 2).Draw(c.T, n+k+".one") == 0 {
			v = 1
		}
		if rapid.IntRange(0, 3).Draw(c.T, n+k+".neg") == 0 {
			v = -v
		}
		return v
	}
	return &geom.Vector3{X: f(".x"), Y: f(".y"), Z: f(".z")}
}

func near(c *hx.C, what string, got, want, tol float64) {
	if math.IsNaN(got) || math.Abs(got-want) > tol+1e-35 {
		c.Fatalf("%s: got %v, want %v (tolerance %g)", what, got, want, tol)
	}
}

func nearM(c *hx.C, what string, got, want m4, tol float64) {
	for i := range got {
		near(c, fmt.Sprintf("%s[%d]", what, i), got[i], want[i], tol)
	}
}

// ---- legs of C07

func propMatrix(c *hx.C) {
	a, b := drawMatrix(c, "a"), drawMatrix(c, "b")
	v := drawV(c, "v")
	a0, b0, v0 := *a, *b, *v
	c.Desc("a=%v b=%v v=%v", *a, *b, *v)
	c.NonTrivial(fmt.Sprint(*a, *b, *v))
	ma, mb := toM(a), toM(b)
	want, mag := mul(ma, mb)
	got := toM(a.Mul(b))
	for i := range got {
		near(c, fmt.Sprintf("Mul[%d]", i), got[i], want[i], 8*eps32*mag[i]+1e-30)
	}
	// application of the affine part to a point
	p := a.ApplyTo(v)
	pv := [3]float64{float64(p.X), float64(p.Y), float64(p.Z)}
	for r := 0; r < 3; r++ {
		w := ma[r]*float64(v.X) + ma[4+r]*float64(v.Y) + ma[8+r]*float64(v.Z) + ma[12+r]
		mg := math.Abs(ma[r]*float64(v.X)) + math.Abs(ma[4+r]*float64(v.Y)) + math.Abs(ma[8+r]*float64(v.Z)) + math.Abs(ma[12+r])
		near(c, "ApplyTo", pv[r], w, 8*eps32*mg+1e-30)
	}
	s := genF.Draw(c.T, "s")
	for i := 0; i < 16; i++ {
		near(c, "Add", float64(a.Add(b)[i]), ma[i]+mb[i], 2*eps32*(math.Abs(ma[i])+math.Abs(mb[i])))
		near(c, "Sub", float64(a.Sub(b)[i]), ma[i]-mb[i], 2*eps32*(math.Abs(ma[i])+math.Abs(mb[i])))
		near(c, "Scale", float64(a.Scale(s)[i]), ma[i]*float64(s), 2*eps32*math.Abs(ma[i]*float64(s)))
		if a.Transposed()[(i%4)*4+i/4] != a[i] {
			c.Fatalf("Transposed[%d]", i)
		}
	}
	d, dmag := det(ma)
	near(c, "Det", float64(a.Det()), d, 24*eps32*dmag+1e-30)
	// S(s) * m * S(1/s) for affine m
	if a[3] == 0 && a[7] == 0 && a[11] == 0 && a[15] == 1 {
		ts := a.TranslationScale(s)
		for i := 0; i < 16; i++ {
			w := ma[i]
			if i >= 12 && i < 15 {
				w *= float64(s)
			}
			near(c, "TranslationScale", float64(ts[i]), w, 2*eps32*math.Abs(w))
		}
	}
	var arr [16]float32
	a.ToArray(arr[:])
	if *geom.NewMatrix4FromSlice(arr[:]) != *a || *a.Clone() != *a {
		c.Fatalf("array round trip")
	}
	if *a != a0 || *b != b0 || *v != v0 {
		c.Fatalf("operand modified")
	}
	// the same operand twice, and results that live on their own
	sq, mag := mul(ma, ma)
	aa := toM(a.Mul(a))
	for i := range aa {
		near(c, fmt.Sprintf("a.Mul(a)[%d]", i), aa[i], sq[i], 8*eps32*mag[i]+1e-30)
		near(c, "a.Add(a)", float64(a.Add(a)[i]), 2*ma[i], 2*eps32*math.Abs(2*ma[i]))
		near(c, "a.Sub(a)", float64(a.Sub(a)[i]), 0, 0)
	}
	if *a != a0 {
		c.Fatalf("operand modified by a product with itself")
	}
	id := geom.NewMatrix4()
	for i, m := range []*geom.Matrix4{a.Mul(b), a.Add(b), a.Sub(b), a.Scale(s), a.Transposed(), a.Inverse(), a.Clone(), a.TranslationScale(s), geom.NewMatrix4FromSlice(arr[:]),
		a.Mul(id), id.Mul(a), a.Scale(1), a.TranslationScale(1)} {
		for k := range m {
			m[k] = 12345
		}
		if *a != a0 || *b != b0 || *geom.NewMatrix4FromSlice(arr[:]) != a0 || *id != *geom.NewMatrix4() {
			c.Fatalf("changing result %d changes an operand", i)
		}
	}
}

func propInverse(c *hx.C) {
	a := drawMatrix(c, "a")
	c.Desc("a=%v", *a)
	ma := toM(a)
	d, dmag := det(ma)
	inv := toM(a.Inverse())
	if dmag == 0 {
		return
	}
	cond := 32 * eps32 * dmag / math.Abs(d)
	if !(cond < 0.05) {
		c.Label("ill-conditioned")
		return
	}
	c.NonTrivial(fmt.Sprint(*a))
	for col := 0; col < 4; col++ {
		for row := 0; row < 4; row++ {
			mn, mg := minor(ma, col, row)
			if (row+col)%2 == 1 {
				mn = -mn
			}
			w := mn / d
			near(c, fmt.Sprintf("Inverse[%d,%d]", row, col), inv[col*4+row], w, 1e-30+32*eps32*mg/math.Abs(d)+2*cond*math.Abs(w))
		}
	}
}

func propTRS(c *hx.C) {
	rm, q := drawRot(c, "r")
	t, s := drawV(c, "t"), drawScale(c, "s")
	t0, s0, q0 := *t, *s, *q
	c.Desc("t=%v q=%v s=%v", *t, *q, *s)
	c.NonTrivial(fmt.Sprint(*t, *q, *s))
	c.LabelIf(s.X*s.Y*s.Z < 0, "mirrored")
	sm := m4{float64(s.X), 0, 0, 0, 0, float64(s.Y), 0, 0, 0, 0, float64(s.Z), 0, 0, 0, 0, 1}
	want, _ := mul(rm, sm)
	want[12], want[13], want[14] = float64(t.X), float64(t.Y), float64(t.Z)
	m := geom.NewTRSMatrix4(t, q, s)
	nearM(c, "TRS", toM(m), want, 2e-5)
	if *t != t0 || *s != s0 || *q != q0 {
		c.Fatalf("operand modified")
	}
	t2, r2, s2 := m.Decompose()
	if *t2 != *t {
		c.Fatalf("Decompose translation %v", *t2)
	}
	near(c, "|rotation|", float64(r2.Len()), 1, 2e-5)
	near(c, "|sx|", math.Abs(float64(s2.X)), math.Abs(float64(s.X)), 2e-5)
	near(c, "|sy|", math.Abs(float64(s2.Y)), math.Abs(float64(s.Y)), 2e-5)
	near(c, "|sz|", math.Abs(float64(s2.Z)), math.Abs(float64(s.Z)), 2e-5)
	nearM(c, "recomposed", toM(geom.NewTRSMatrix4(t2, r2, s2)), want, 2e-4)
	if s.X > 0 && s.Y > 0 && s.Z > 0 {
		dot := math.Abs(float64(r2.Dot(q)))
		near(c, "Decompose rotation", dot, 1, 2e-5)
		if s2.X < 0 || s2.Y < 0 || s2.Z < 0 {
			c.Fatalf("positive scale decomposed as %v", *s2)
		}
	}
	// elementary matrices
	nearM(c, "NewRotationMatrix4FromQuaternion", toM(geom.NewRotationMatrix4FromQuaternion(q)), rm, 2e-6)
	if *geom.NewTranslateMatrix4(t.X, t.Y, t.Z).ApplyTo(s) != (geom.Vector3{X: t.X + s.X, Y: t.Y + s.Y, Z: t.Z + s.Z}) {
		c.Fatalf("translate")
	}
	if *geom.NewScaleMatrix4(s.X, s.Y, s.Z).ApplyTo(t) != (geom.Vector3{X: t.X * s.X, Y: t.Y * s.Y, Z: t.Z * s.Z}) {
		c.Fatalf("scale")
	}
	if *geom.NewMatrix4().ApplyTo(t) != *t {
		c.Fatalf("identity")
	}
}

func propQuat(c *hx.C) {
	ma, a := drawRot(c, "a")
	mb, b := drawRot(c, "b")
	v := drawV(c, "v")
	a0, b0, v0 := *a, *b, *v
	c.Desc("a=%v b=%v v=%v", *a, *b, *v)
	c.NonTrivial(fmt.Sprint(*a, *b, *v))
	l := 1 + math.Abs(float64(v.X)) + math.Abs(float64(v.Y)) + math.Abs(float64(v.Z))
	app := func(m m4, what string, got *geom.Vector3) {
		g := [3]float64{float64(got.X), float64(got.Y), float64(got.Z)}
		for r := 0; r < 3; r++ {
			near(c, what, g[r], m[r]*float64(v.X)+m[4+r]*float64(v.Y)+m[8+r]*float64(v.Z), 4e-6*l)
		}
	}
	app(ma, "Quaternion.ApplyTo", a.ApplyTo(v))
	app(rotMT(ma), "inverse quaternion", a.Inverse().ApplyTo(v))
	ab, _ := mul(ma, mb)
	app(ab, "quaternion product", a.Mul(b).ApplyTo(v))
	nearM(c, "product matrix", toM(geom.NewRotationMatrix4FromQuaternion(a.Mul(b))), ab, 4e-6)
	near(c, "Dot", float64(a.Dot(b)), float64(a.X)*float64(b.X)+float64(a.Y)*float64(b.Y)+float64(a.Z)*float64(b.Z)+float64(a.W)*float64(b.W), 1e-6)
	if *a != a0 || *b != b0 || *v != v0 {
		c.Fatalf("operand modified")
	}
	app(mustMul(ma, ma), "a*a", a.Mul(a).ApplyTo(v))
	// plain four component arithmetic, on values that are not unit length
	x, y := drawV4(c, "x"), drawV4(c, "y")
	f := genF.Draw(c.T, "f")
	x0, y0 := *x, *y
	arr := func(v *geom.Vector4) [4]float32 { return [4]float32{v.X, v.Y, v.Z, v.W} }
	add, sub, had, sc := arr(x.Add(y)), arr(x.Sub(y)), arr(x.HadamardProduct(y)), arr(x.Scale(f))
	xa, ya := arr(x), arr(y)
	l2 := 0.0
	for i := range xa {
		if add[i] != xa[i]+ya[i] || sub[i] != xa[i]-ya[i] || had[i] != xa[i]*ya[i] || sc[i] != xa[i]*f {
			c.Fatalf("Vector4 arithmetic: %v %v %v: %v %v %v %v", xa, ya, f, add, sub, had, sc)
		}
		l2 += float64(xa[i]) * float64(xa[i])
	}
	near(c, "Vector4.LenSqr", float64(x.LenSqr()), l2, 8*eps32*l2)
	near(c, "Vector4.Len", float64(x.Len()), math.Sqrt(l2), 8*eps32*math.Sqrt(l2))
	if *geom.NewQuaternionFromArray(xa) != x0 || *geom.NewQuaternion(x.X, x.Y, x.Z, x.W) != x0 || *geom.NewVector4(x.X, x.Y, x.Z, x.W) != x0 {
		c.Fatalf("Vector4 array round trip")
	}
	one := geom.NewVector4(1, 1, 1, 1)
	for i, m := range []*geom.Vector4{x.Add(y), x.Sub(y), x.HadamardProduct(y), x.Scale(f), x.Scale(1), x.Mul(y), x.Inverse(), x.HadamardProduct(one), x.Mul(&geom.Quaternion{W: 1})} {
		*m = geom.Vector4{X: 99, Y: 98, Z: 97, W: 96}
		if *x != x0 || *y != y0 {
			c.Fatalf("changing result %d changes an operand", i)
		}
	}
	k := float32(rapid.Float64Range(0.01, 100).Draw(c.T, "k"))
	n := a.Scale(k).Normalize()
	near(c, "Normalize", float64(n.Len()), 1, 2e-6)
	near(c, "Normalize direction", float64(n.Dot(a)), 1, 4e-6)
	if z := (&geom.Quaternion{}).Normalize(); *z != (geom.Quaternion{W: 1}) {
		c.Fatalf("zero quaternion normalizes to %v", *z)
	}
}

func mustMul(a, b m4) m4 {
	r, _ := mul(a, b)
	return r
}

func drawV4(c *hx.C, n string) *geom.Vector4 {
	return &geom.Vector4{X: genF.Draw(c.T, n+".x"), Y: genF.Draw(c.T, n+".y"), Z: genF.Draw(c.T, n+".z"), W: genF.Draw(c.T, n+".w")}
}

func rotMT(m m4) m4 {
	var r m4
	for i := range m {
		r[(i%4)*4+i/4] = m[i]
	}
	return r
}

var orders = []struct {
	o    geom.RotationOrder
	axes [3]int
	name string
}{
	{geom.RotationOrderXYZ, [3]int{0, 1, 2}, "XYZ"},
	{geom.RotationOrderYXZ, [3]int{1, 0, 2}, "YXZ"},
	{geom.RotationOrderZXY, [3]int{2, 0, 1}, "ZXY"},
	{geom.RotationOrderZYX, [3]int{2, 1, 0}, "ZYX"},
}

func propEuler(c *hx.C) {
	o := orders[rapid.IntRange(0, 3).Draw(c.T, "order")]
	ang := [3]float32{float32(drawAngle(c, "x")), float32(drawAngle(c, "y")), float32(drawAngle(c, "z"))}
	c.Desc("order=%s angles=%v", o.name, ang)
	c.NonTrivial(fmt.Sprint(o.name, ang))
	want := m4{1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1}
	for _, ax := range o.axes {
		v := [3]float64{}
		v[ax] = 1
		want, _ = mul(want, rotM(v, float64(ang[ax])))
	}
	e := geom.NewEuler(ang[0], ang[1], ang[2], o.o)
	q := e.ToQuaternion()
	near(c, "|q|", float64(q.Len()), 1, 1e-6)
	nearM(c, "euler to quaternion", toM(geom.NewRotationMatrix4FromQuaternion(q)), want, 3e-6)
	// and back, for every order
	mid := math.Abs(math.Cos(float64(ang[o.axes[1]])))
	c.LabelIf(mid < 1e-2, "near-gimbal")
	c.LabelIf(mid < 1e-5, "gimbal")
	tol := 5e-6 + 2e-6/math.Max(mid, 1e-3)
	if mid < 1e-2 {
		tol = 3e-3
	}
	e2 := geom.NewEulerFromQuaternion(q, o.o)
	if e2.Order != o.o {
		c.Fatalf("order lost")
	}
	nearM(c, "quaternion to euler", toM(geom.NewRotationMatrix4FromQuaternion(e2.ToQuaternion())), want, tol)
	e3 := geom.NewEulerFromMatrix4(geom.NewRotationMatrix4FromQuaternion(q), o.o)
	nearM(c, "matrix to euler", toM(geom.NewRotationMatrix4FromQuaternion(e3.ToQuaternion())), want, tol)
	// angles in the principal range come back as themselves
	if mid > 0.05 && math.Cos(float64(ang[o.axes[1]])) > 0 {
		for i, g := range [3]float32{e2.X, e2.Y, e2.Z} {
			d := math.Remainder(float64(g)-float64(ang[i]), 2*math.Pi)
			near(c, "principal angle", d, 0, 2e-4)
		}
	}
}

func propVector(c *hx.C) {
	a, b := drawV(c, "a"), drawV(c, "b")
	s := genF.Draw(c.T, "s")
	a0, b0 := *a, *b
	c.Desc("a=%v b=%v s=%v", *a, *b, s)
	c.NonTrivial(fmt.Sprint(*a, *b, s))
	x := [3]float64{float64(a.X), float64(a.Y), float64(a.Z)}
	y := [3]float64{float64(b.X), float64(b.Y), float64(b.Z)}
	ar := func(v *geom.Vector3) [3]float64 { return [3]float64{float64(v.X), float64(v.Y), float64(v.Z)} }
	add, sub, sc, cr := ar(a.Add(b)), ar(a.Sub(b)), ar(a.Scale(s)), ar(a.Cross(b))
	dot, dmag, l2 := 0.0, 0.0, 0.0
	for i := 0; i < 3; i++ {
		near(c, "Add", add[i], x[i]+y[i], 2*eps32*(math.Abs(x[i])+math.Abs(y[i])))
		near(c, "Sub", sub[i], x[i]-y[i], 2*eps32*(math.Abs(x[i])+math.Abs(y[i])))
		near(c, "Scale", sc[i], x[i]*float64(s), 2*eps32*math.Abs(x[i]*float64(s)))
		j, k := (i+1)%3, (i+2)%3
		near(c, "Cross", cr[i], x[j]*y[k]-x[k]*y[j], 4*eps32*(math.Abs(x[j]*y[k])+math.Abs(x[k]*y[j])))
		dot += x[i] * y[i]
		dmag += math.Abs(x[i] * y[i])
		l2 += x[i] * x[i]
	}
	near(c, "Dot", float64(a.Dot(b)), dot, 8*eps32*dmag)
	near(c, "LenSqr", float64(a.LenSqr()), l2, 8*eps32*l2)
	near(c, "Len", float64(a.Len()), math.Sqrt(l2), 8*eps32*math.Sqrt(l2))
	var arr [3]float32
	a.ToArray(arr[:])
	if *geom.NewVector3FromArray(arr) != *a || *geom.NewVector3FromSlice(arr[:]) != *a || *geom.NewVector3(a.X, a.Y, a.Z) != *a {
		c.Fatalf("array round trip")
	}
	if *a != a0 || *b != b0 {
		c.Fatalf("operand modified")
	}
	u, v := &geom.Vector2{X: a.X, Y: a.Y}, &geom.Vector2{X: b.X, Y: b.Y}
	m2 := math.Abs(x[0]*y[0]) + math.Abs(x[1]*y[1])
	near(c, "Vector2.Dot", float64(u.Dot(v)), x[0]*y[0]+x[1]*y[1], 8*eps32*m2)
	near(c, "Vector2.Cross", float64(u.Cross(v)), x[0]*y[1]-x[1]*y[0], 8*eps32*(math.Abs(x[0]*y[1])+math.Abs(x[1]*y[0])))
	near(c, "Vector2.Len", float64(u.Len()), math.Hypot(x[0], x[1]), 8*eps32*math.Hypot(x[0], x[1]))
	near(c, "Vector2.LenSqr", float64(u.LenSqr()), x[0]*x[0]+x[1]*x[1], 8*eps32*(x[0]*x[0]+x[1]*x[1]))
	p, m, k := u.Add(v), u.Sub(v), u.Scale(s)
	if p.X != a.X+b.X || p.Y != a.Y+b.Y || m.X != a.X-b.X || m.Y != a.Y-b.Y || k.X != a.X*s || k.Y != a.Y*s {
		c.Fatalf("Vector2 arithmetic")
	}
	aa, a2, ax := ar(a.Add(a)), ar(a.Sub(a)), ar(a.Cross(a))
	for i := 0; i < 3; i++ {
		near(c, "a+a", aa[i], 2*x[i], 4*eps32*math.Abs(x[i]))
		near(c, "a-a", a2[i], 0, 0)
		near(c, "a x a", ax[i], 0, 8*eps32*l2)
	}
	for i, r := range []*geom.Vector3{a.Add(b), a.Sub(b), a.Scale(s), a.Scale(1), a.Cross(b), a.Add(&geom.Vector3{}), a.Sub(&geom.Vector3{}), geom.NewMatrix4().ApplyTo(a), (&geom.Quaternion{W: 1}).ApplyTo(a)} {
		*r = geom.Vector3{X: 99, Y: 98, Z: 97}
		if *a != a0 || *b != b0 {
			c.Fatalf("changing result %d changes an operand", i)
		}
	}
	for i, r := range []*geom.Vector2{u.Add(v), u.Sub(v), u.Scale(s), u.Scale(1), u.Add(&geom.Vector2{})} {
		*r = geom.Vector2{X: 99, Y: 98}
		if *u != (geom.Vector2{X: a.X, Y: a.Y}) || *v != (geom.Vector2{X: b.X, Y: b.Y}) {
			c.Fatalf("changing two component result %d changes an operand", i)
		}
	}
	if geom.Abs(a.X) != float32(math.Abs(x[0])) || geom.Min(a.X, b.X) != float32(math.Min(x[0], y[0])) || geom.Max(a.X, b.X) != float32(math.Max(x[0], y[0])) {
		c.Fatalf("Abs, Min or Max of %v, %v", a.X, b.X)
	}
	// a direction is always of unit length, also that of nothing
	near(c, "zero Normalize", float64((&geom.Vector3{}).Normalize().Len()), 1, 0)
	near(c, "zero Vector2.Normalize", float64((&geom.Vector2{}).Normalize().Len()), 1, 0)
	if h := x[0]*x[0] + x[1]*x[1]; h > 1e-6 {
		n := u.Scale(1).Normalize()
		near(c, "Vector2.Normalize", float64(n.Len()), 1, 2e-6)
		near(c, "Vector2.Normalize direction", float64(n.Dot(u)), math.Sqrt(h), 1e-5*math.Sqrt(h))
	}
	if l2 > 1e-6 {
		n := a.Scale(1).Normalize()
		near(c, "Normalize", float64(n.Len()), 1, 2e-6)
		near(c, "Normalize direction", float64(n.Dot(a)), math.Sqrt(l2), 1e-5*math.Sqrt(l2))
	}
}

func TestC07(t *testing.T) {
	hx.Main(t, "C07",
		hx.Leg{Name: "matrix", Quick: 12000, Prop: propMatrix},
		hx.Leg{Name: "inverse", Quick: 15000, Prop: propInverse},
		hx.Leg{Name: "trs", Quick: 20000, Prop: propTRS},
		hx.Leg{Name: "quaternion", Quick: 15000, Prop: propQuat},
		hx.Leg{Name: "euler", Quick: 60000, Prop: propEuler},
		hx.Leg{Name: "vector", Quick: 4000, Prop: propVector},
	)
}
