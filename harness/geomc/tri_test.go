package geomc

import (
	"fmt"
	"math"
	"testing"

	"github.com/binzume/modelconv/geom"
	"pgregory.net/rapid"

	"verif/harness/hx"
)

type p2 struct{ x, y float64 }

func cross2(a, b, c p2) float64 { return (b.x-a.x)*(c.y-a.y) - (b.y-a.y)*(c.x-a.x) }

// place puts a planar polygon into space: two orthonormal axes and an offset.
func place(c *hx.C, poly []p2) (_ []*geom.Vector3, nn [3]float64) {
	ax, an := drawAxis(c, "plane.axis"), drawAngle(c, "plane.angle")
	m := rotM(ax, an)
	o := drawV(c, "origin")
	if rapid.Bool().Draw(c.T, "flat") {
		m = m4{1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1}
		o = &geom.Vector3{}
	} else { // keep the offset comparable to the polygon: float32 has 24 bits
		o = o.Scale(1.0 / float32(rapid.SampledFrom([]int{100, 10}).Draw(c.T, "near")))
	}
	k := math.Pow(10, float64(rapid.IntRange(-3, 3).Draw(c.T, "size")))
	o = o.Scale(float32(k))
	for i := range m {
		m[i] *= k
	}
	defer func() {
		for i := range nn {
			nn[i] /= k
		}
	}()
	var out []*geom.Vector3
	for _, p := range poly {
		out = append(out, &geom.Vector3{
			X: float32(m[0]*p.x+m[4]*p.y) + o.X,
			Y: float32(m[1]*p.x+m[5]*p.y) + o.Y,
			Z: float32(m[2]*p.x+m[6]*p.y) + o.Z,
		})
	}
	return out, [3]float64{m[8], m[9], m[10]}
}

func area3(a, b, c *geom.Vector3, n [3]float64) float64 {
	ux, uy, uz := float64(b.X)-float64(a.X), float64(b.Y)-float64(a.Y), float64(b.Z)-float64(a.Z)
	vx, vy, vz := float64(c.X)-float64(a.X), float64(c.Y)-float64(a.Y), float64(c.Z)-float64(a.Z)
	return ((uy*vz-uz*vy)*n[0] + (uz*vx-ux*vz)*n[1] + (ux*vy-uy*vx)*n[2]) / 2
}

// checkTopology: n-2 triangles over valid distinct indices whose edges glue to
// exactly the polygon's boundary.
func checkTopology(c *hx.C, n int, tris [][3]int) {
	want := n - 2
	if n < 3 {
		want = 0
	}
	if len(tris) != want {
		c.Fatalf("%d corners gave %d triangles", n, len(tris))
	}
	edges := map[[2]int]int{}
	for _, t := range tris {
		for i := 0; i < 3; i++ {
			if t[i] < 0 || t[i] >= n {
				c.Fatalf("index out of range: %v of %d corners", t, n)
			}
			if t[i] == t[(i+1)%3] {
				c.Fatalf("triangle %v repeats a corner", t)
			}
			a, b := t[i], t[(i+1)%3]
			if edges[[2]int{b, a}] > 0 {
				edges[[2]int{b, a}]--
			} else {
				edges[[2]int{a, b}]++
			}
		}
	}
	for e, k := range edges {
		if k == 0 {
			continue
		}
		if k != 1 || (e[0]+1)%n != e[1] {
			c.Fatalf("edge %v is left over %d times: triangles %v do not tile the polygon", e, k, tris)
		}
	}
	if n >= 3 {
		for i := 0; i < n; i++ {
			if edges[[2]int{i, (i + 1) % n}] != 1 {
				c.Fatalf("boundary edge %d-%d is missing from %v", i, (i+1)%n, tris)
			}
		}
	}
}

// genSimple builds a simple polygon, counter-clockwise in its own plane.
func genSimple(c *hx.C) ([]p2, string) {
	n := rapid.IntRange(3, 14).Draw(c.T, "n")
	var poly []p2
	kind := rapid.SampledFrom([]string{"convex", "star", "comb", "spiral"}).Draw(c.T, "shape")
	switch kind {
	case "convex":
		for i := 0; i < n; i++ {
			a := 2 * math.Pi * (float64(i) + rapid.Float64Range(0, 0.7).Draw(c.T, "j")) / float64(n)
			poly = append(poly, p2{math.Cos(a) * 3, math.Sin(a) * 2})
		}
	case "star":
		for i := 0; i < n; i++ {
			a := 2 * math.Pi * (float64(i) + rapid.Float64Range(0, 0.6).Draw(c.T, "j")) / float64(n)
			r := rapid.Float64Range(0.2, 4).Draw(c.T, "r")
			if n < 5 { // the origin must stay inside
				r = 1 + r/4
			}
			poly = append(poly, p2{math.Cos(a) * r, math.Sin(a) * r})
		}
	case "comb": // monotone along x: lower chain then upper chain back
		k := rapid.IntRange(1, 6).Draw(c.T, "teeth")
		x := 0.0
		var lo, hi []p2
		for i := 0; i <= k; i++ {
			lo = append(lo, p2{x, rapid.Float64Range(-3, 0).Draw(c.T, "lo")})
			hi = append(hi, p2{x + rapid.Float64Range(0, 0.3).Draw(c.T, "dx"), rapid.Float64Range(0.1, 3).Draw(c.T, "hi")})
			x += rapid.Float64Range(0.4, 2).Draw(c.T, "step")
		}
		poly = append(poly, lo...)
		for i := len(hi) - 1; i >= 0; i-- {
			poly = append(poly, hi[i])
		}
	case "spiral": // a bent band: outer arc out, inner arc back
		k := rapid.IntRange(2, 8).Draw(c.T, "segments")
		turn := rapid.Float64Range(0.5, 5).Draw(c.T, "turn")
		var outer, inner []p2
		for i := 0; i <= k; i++ {
			a := turn * float64(i) / float64(k)
			r := rapid.Float64Range(2, 3).Draw(c.T, "ro")
			outer = append(outer, p2{math.Cos(a) * r * 1.3, math.Sin(a) * r * 1.3})
			ri := rapid.Float64Range(0.3, 1).Draw(c.T, "ri") * math.Cos(turn/float64(k)/2) * 1.5
			inner = append(inner, p2{math.Cos(a) * ri, math.Sin(a) * ri})
		}
		poly = append(poly, outer...)
		for i := len(inner) - 1; i >= 0; i-- {
			poly = append(poly, inner[i])
		}
	}
	return poly, kind
}

// simple reports whether the polygon is simple with a margin (no near touching
// corners, no nearly collinear triple of corners that could be an ear test).
func simple(poly []p2) bool {
	n := len(poly)
	sc := 0.0
	for _, p := range poly {
		sc = math.Max(sc, math.Max(math.Abs(p.x), math.Abs(p.y)))
	}
	for i := 0; i < n; i++ {
		for j := i + 1; j < n; j++ {
			for k := j + 1; k < n; k++ {
				if math.Abs(cross2(poly[i], poly[j], poly[k])) < 2e-3*sc*sc {
					return false
				}
			}
		}
	}
	for i := 0; i < n; i++ {
		a, b := poly[i], poly[(i+1)%n]
		for j := i + 1; j < n; j++ {
			if j == i+1 || (j+1)%n == i {
				continue
			}
			p, q := poly[j], poly[(j+1)%n]
			if cross2(a, b, p)*cross2(a, b, q) < 0 && cross2(p, q, a)*cross2(p, q, b) < 0 {
				return false
			}
		}
	}
	area := 0.0
	for i := 1; i+1 < n; i++ {
		area += cross2(poly[0], poly[i], poly[i+1])
	}
	return area > 1e-2*sc*sc
}

func descPoly(c *hx.C, pts []*geom.Vector3) string {
	s := ""
	for _, p := range pts {
		s += fmt.Sprintf("(%v,%v,%v) ", p.X, p.Y, p.Z)
	}
	c.Desc("polygon %s", s)
	return s
}

func propSimple(c *hx.C) {
	poly, kind := genSimple(c)
	if !simple(poly) {
		c.Label("discarded:" + kind)
		return
	}
	if rapid.Bool().Draw(c.T, "clockwise") {
		for i, j := 0, len(poly)-1; i < j; i, j = i+1, j-1 {
			poly[i], poly[j] = poly[j], poly[i]
		}
		c.Label("reversed")
	}
	r := rapid.IntRange(0, len(poly)-1).Draw(c.T, "start")
	poly = append(append([]p2{}, poly[r:]...), poly[:r]...)
	pts, n := place(c, poly)
	key := descPoly(c, pts)
	orig := make([]geom.Vector3, len(pts))
	for i := range pts {
		orig[i] = *pts[i]
	}
	reflex := 0
	total := 0.0
	for i := range pts {
		total += area3(pts[0], pts[i], pts[(i+1)%len(pts)], n)
	}
	for i := range pts {
		if area3(pts[(i+len(pts)-1)%len(pts)], pts[i], pts[(i+1)%len(pts)], n)*total < 0 {
			reflex++
		}
	}
	c.Label(kind)
	if len(pts) > 3 {
		c.NonTrivial(key)
	}
	c.LabelIf(reflex > 0, "concave")
	tris := geom.Triangulate(pts)
	checkTopology(c, len(pts), tris)
	sum := 0.0
	for _, t := range tris {
		a := area3(pts[t[0]], pts[t[1]], pts[t[2]], n)
		if a*total <= 0 {
			c.Fatalf("triangle %v has the opposite orientation or no area (%g of %g)", t, a, total)
		}
		sum += math.Abs(a)
	}
	near(c, "covered area", sum, math.Abs(total), 1e-4*math.Abs(total))
	for i := range pts {
		if *pts[i] != orig[i] {
			c.Fatalf("corner %d was modified", i)
		}
	}
}

// propAny: whatever the corners are (coincident, collinear, self intersecting,
// not planar), the result has n-2 triangles that use the polygon's corners.
func propAny(c *hx.C) {
	n := rapid.IntRange(0, 12).Draw(c.T, "n")
	var pts []*geom.Vector3
	grid := rapid.Bool().Draw(c.T, "grid")
	for i := 0; i < n; i++ {
		if grid {
			pts = append(pts, &geom.Vector3{X: float32(rapid.IntRange(0, 3).Draw(c.T, "x")), Y: float32(rapid.IntRange(0, 3).Draw(c.T, "y"))})
		} else {
			pts = append(pts, drawV(c, "p"))
		}
	}
	key := descPoly(c, pts)
	if n > 3 {
		c.NonTrivial(key)
	}
	c.LabelIf(grid, "grid")
	checkTopology(c, n, geom.Triangulate(pts))
}

// propGrid: rectilinear simple polygons on a grid, where most corners are
// collinear with others; triangles may be degenerate but never inverted.
func propGrid(c *hx.C) {
	k := rapid.IntRange(1, 5).Draw(c.T, "columns")
	var poly []p2
	for i := 0; i <= k; i++ { // bottom, left to right
		poly = append(poly, p2{float64(i), 0})
	}
	prev := -1
	for i := k - 1; i >= 0; i-- { // skyline, right to left
		h := rapid.IntRange(1, 4).Draw(c.T, "h")
		if h != prev {
			if prev >= 0 {
				// vertical step at x=i+1
				poly = append(poly, p2{float64(i + 1), float64(prev)})
			}
			poly = append(poly, p2{float64(i + 1), float64(h)})
			prev = h
		}
	}
	poly = append(poly, p2{0, float64(prev)})
	r := rapid.IntRange(0, len(poly)-1).Draw(c.T, "start")
	poly = append(append([]p2{}, poly[r:]...), poly[:r]...)
	var pts []*geom.Vector3
	nn := [3]float64{}
	if rapid.Bool().Draw(c.T, "axis") {
		ax := rapid.IntRange(0, 2).Draw(c.T, "plane")
		for _, p := range poly {
			v := [3]float32{}
			v[(ax+1)%3], v[(ax+2)%3] = float32(p.x), float32(p.y)
			pts = append(pts, geom.NewVector3FromArray(v))
		}
		nn[ax] = 1
	} else {
		c.Label("rotated")
		k := rapid.Float64Range(0.1, 2).Draw(c.T, "size")
		for i := range poly {
			poly[i].x *= k
			poly[i].y *= k
		}
		m := rotM(drawAxis(c, "plane.axis"), drawAngle(c, "plane.angle"))
		for _, p := range poly {
			pts = append(pts, &geom.Vector3{
				X: float32(m[0]*p.x + m[4]*p.y), Y: float32(m[1]*p.x + m[5]*p.y), Z: float32(m[2]*p.x + m[6]*p.y)})
		}
		nn = [3]float64{m[8], m[9], m[10]}
	}
	c.NonTrivial(descPoly(c, pts))
	total := 0.0
	for i := range pts {
		total += area3(pts[0], pts[i], pts[(i+1)%len(pts)], nn)
	}
	tris := geom.Triangulate(pts)
	checkTopology(c, len(pts), tris)
	sum := 0.0
	for _, t := range tris {
		a := area3(pts[t[0]], pts[t[1]], pts[t[2]], nn)
		if a < -1e-5*total {
			c.Fatalf("triangle %v is inverted (%g of %g)", t, a, total)
		}
		sum += a
	}
	near(c, "covered area", sum, total, 1e-4*total)
}

// propSubdivided: simple outlines whose edges carry extra corners, in space, at
// any size. The extra corners are collinear up to rounding, so single triangles
// may be slivers, but none is really inverted and nothing is left out.
func propSubdivided(c *hx.C) {
	base, kind := genSimple(c)
	if !simple(base) {
		c.Label("discarded:" + kind)
		return
	}
	var poly []p2
	for i, p := range base {
		q := base[(i+1)%len(base)]
		poly = append(poly, p)
		k := rapid.IntRange(0, 4).Draw(c.T, "cuts")
		for j := 1; j <= k; j++ {
			f := float64(j) / float64(k+1)
			poly = append(poly, p2{p.x + (q.x-p.x)*f, p.y + (q.y-p.y)*f})
		}
	}
	if rapid.Bool().Draw(c.T, "clockwise") {
		for i, j := 0, len(poly)-1; i < j; i, j = i+1, j-1 {
			poly[i], poly[j] = poly[j], poly[i]
		}
	}
	r := rapid.IntRange(0, len(poly)-1).Draw(c.T, "start")
	poly = append(append([]p2{}, poly[r:]...), poly[:r]...)
	k := math.Pow(10, float64(rapid.IntRange(-3, 3).Draw(c.T, "size")))
	m := rotM(drawAxis(c, "plane.axis"), drawAngle(c, "plane.angle"))
	var pts []*geom.Vector3
	for _, p := range poly {
		pts = append(pts, &geom.Vector3{X: float32((m[0]*p.x + m[4]*p.y) * k), Y: float32((m[1]*p.x + m[5]*p.y) * k), Z: float32((m[2]*p.x + m[6]*p.y) * k)})
	}
	n := [3]float64{m[8], m[9], m[10]}
	key := descPoly(c, pts)
	c.LabelIf(len(poly) > len(base), "subdivided")
	if len(poly) > 3 {
		c.NonTrivial(key)
	}
	total := 0.0
	for i := range pts {
		total += area3(pts[0], pts[i], pts[(i+1)%len(pts)], n)
	}
	tris := geom.Triangulate(pts)
	checkTopology(c, len(pts), tris)
	sum := 0.0
	for _, t := range tris {
		a := area3(pts[t[0]], pts[t[1]], pts[t[2]], n) / total
		if a < -1e-4 {
			c.Fatalf("triangle %v is inverted (%g of the area)", t, a)
		}
		sum += math.Abs(a)
	}
	near(c, "covered area", sum, 1, 1e-3)
}

func TestC08(t *testing.T) {
	hx.Main(t, "C08",
		hx.Leg{Name: "simple", Quick: 12000, Prop: propSimple},
		hx.Leg{Name: "subdivided", Quick: 12000, Prop: propSubdivided},
		hx.Leg{Name: "any", Quick: 10000, Prop: propAny},
		hx.Leg{Name: "grid", Quick: 2000, Prop: propGrid},
	)
}
