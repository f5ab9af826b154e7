PROP="C03"
NEEDS="two models with bones saved in one folder under names that only differ after the first dot"
BREAKS="both documents use one companion file, so saving the second replaces the bones of the first"
EDITS=[("mqo/mqo_writer.go",'mqxFile = filepath.Base(path[0:len(path)-len(filepath.Ext(path))] + ".mqx")','mqxFile = strings.SplitN(filepath.Base(path), ".", 2)[0] + ".mqx"')]
DEMO='''
package main

import (
	"fmt"
	"os"
	"path/filepath"

	"github.com/binzume/modelconv/mqo"
)

func main() {
	dir, err := os.MkdirTemp("", "demo")
	if err != nil {
		panic(err)
	}
	code := 0
	for _, n := range []string{"a.v1", "a.v2"} {
		doc := mqo.NewDocument()
		doc.Objects = append(doc.Objects, mqo.NewObject("o"))
		mqo.GetBonePlugin(doc).SetBones([]*mqo.Bone{{ID: 1, Name: "bone " + n}})
		if err := mqo.Save(doc, filepath.Join(dir, n+".mqo")); err != nil {
			fmt.Println(err)
			code = 1
		}
	}
	for _, n := range []string{"a.v1", "a.v2"} {
		doc, err := mqo.Load(filepath.Join(dir, n+".mqo"))
		if err != nil {
			fmt.Println(err)
			code = 1
			continue
		}
		if b := mqo.GetBonePlugin(doc).Bones(); len(b) != 1 || b[0].Name != "bone "+n {
			fmt.Println(n, "has other bones")
			code = 1
		}
	}
	os.RemoveAll(dir)
	os.Exit(code)
}
'''
