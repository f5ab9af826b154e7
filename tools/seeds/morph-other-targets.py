PROP="C20"
NEEDS="a morph list in which the applied target is not the first one"
BREAKS="applying a morph leaves the targets listed before it where they were, so their offsets from the base change"
EDITS=[("mqo/morph_plugin.go","""		if i == target {
			o = bobj
		}
""","""		if i < target {
			continue
		}
		if i == target {
			o = bobj
		}
""")]
DEMO='''
package main

import (
	"fmt"
	"math"
	"os"

	"github.com/binzume/modelconv/geom"
	"github.com/binzume/modelconv/mqo"
)

func obj(n string, x float32) *mqo.Object {
	o := mqo.NewObject(n)
	o.Vertexes = []*geom.Vector3{{X: x}}
	return o
}

func main() {
	doc := mqo.NewDocument()
	b, t1, t2 := obj("b", 0), obj("t1", 3), obj("t2", 1)
	doc.Objects = append(doc.Objects, b, t1, t2)
	mp := mqo.GetMorphPlugin(doc)
	mp.MorphSet.Targets = []*mqo.MorphTargetList{{Base: "b", Target: []*mqo.MorphTarget{{Name: "t1"}, {Name: "t2"}}}}
	mp.Apply(doc, "t2", 1)
	if d := t1.Vertexes[0].X - b.Vertexes[0].X; math.Abs(float64(d-3)) > 1e-4 {
		fmt.Println("offset of t1 is", d)
		os.Exit(1)
	}
}
'''
