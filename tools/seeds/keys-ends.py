PROP="C21"
NEEDS="two bones that are animated with as many keys, the same first and the same last key, and other keys in between"
BREAKS="the key times of the bone before are used for the second bone although they differ, so it moves at wrong times"
EDITS=[("converter/glbanim.go","""	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
""","""	if len(a) > 0 && (a[0] != b[0] || a[len(a)-1] != b[len(b)-1]) {
		return false
	}
""")]
DEMO='''
package main

import (
	"fmt"
	"os"

	"github.com/binzume/modelconv/converter"
	"github.com/binzume/modelconv/mmd"
	"github.com/binzume/modelconv/mqo"
	"github.com/qmuntal/gltf"
)

func main() {
	a := &mmd.Animation{}
	for _, f := range []int{0, 10, 30} {
		a.Bone = append(a.Bone, &mmd.AnimationBoneSample{Target: "a", Frame: f, Position: mmd.Vector3{X: 1}, Rotation: mmd.Quaternion{W: 1}})
	}
	for _, f := range []int{0, 20, 30} {
		a.Bone = append(a.Bone, &mmd.AnimationBoneSample{Target: "b", Frame: f, Position: mmd.Vector3{X: 1}, Rotation: mmd.Quaternion{W: 1}})
	}
	doc := gltf.NewDocument()
	doc.Nodes = []*gltf.Node{{Name: "a"}, {Name: "b"}}
	bones := map[uint32]*mqo.Bone{0: {ID: 1, Name: "a"}, 1: {ID: 2, Name: "b"}}
	converter.AddAnimationTpGlb(doc, a, bones, true)
	s := doc.Animations[0].Samplers
	if len(s) != 2 || *s[0].Input == *s[1].Input {
		fmt.Println("the bones have the same key times")
		os.Exit(1)
	}
}
'''
