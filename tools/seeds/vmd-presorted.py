PROP="C02"
NEEDS="a VMD file whose bone keys are out of order although the first key is not later than the last one"
BREAKS="bone channels are only sorted when the first stored key comes after the last one, so key frames come out in stored order for other unsorted files"
EDITS=[("mmd/vmd_parser.go","	sort.Slice(a.Bone, func(i, j int) bool { return a.Bone[i].Frame < a.Bone[j].Frame })\n",
"""	if n := len(a.Bone); n > 1 && a.Bone[0].Frame > a.Bone[n-1].Frame {
		sort.Slice(a.Bone, func(i, j int) bool { return a.Bone[i].Frame < a.Bone[j].Frame })
	}
""")]
DEMO='''
package main

import (
	"fmt"
	"os"

	"github.com/binzume/modelconv/mmd"
)

func main() {
	a := &mmd.Animation{}
	for _, f := range []int{0, 20, 10, 30} {
		a.Bone = append(a.Bone, &mmd.AnimationBoneSample{Target: "b", Frame: f})
	}
	ch := a.GetBoneChannels()["b"]
	for i := 1; i < len(ch.Frames); i++ {
		if ch.Frames[i] < ch.Frames[i-1] {
			fmt.Println("frames out of order:", ch.Frames)
			os.Exit(1)
		}
	}
}
'''
