PROP="C29"
NEEDS="saving a model over the result of a larger one, both with a plugin file (bones or morphs)"
BREAKS="the end of the older, longer plugin file stays behind the new content"
EDITS=[("mqo/mqo_writer.go",'			return os.Create(filepath.Dir(path) + "/" + name)','			return os.OpenFile(filepath.Dir(path)+"/"+name, os.O_WRONLY|os.O_CREATE, 0666)')]
DEMO='''
package main

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"

	"github.com/binzume/modelconv/mqo"
)

func model(n int) *mqo.Document {
	doc := mqo.NewDocument()
	var bones []*mqo.Bone
	for i := 0; i < n; i++ {
		bones = append(bones, &mqo.Bone{ID: i + 1, Name: fmt.Sprint("bone", i)})
	}
	mqo.GetBonePlugin(doc).SetBones(bones)
	return doc
}

func main() {
	dir, err := os.MkdirTemp("", "demo")
	if err != nil {
		panic(err)
	}
	code := 0
	save := func(n int, name string) []byte {
		p := filepath.Join(dir, name, "model.mqo")
		os.MkdirAll(filepath.Dir(p), 0755)
		if err := mqo.Save(model(n), p); err != nil {
			fmt.Println(err)
			code = 1
		}
		b, err := os.ReadFile(filepath.Join(dir, name, "model.mqx"))
		if err != nil {
			fmt.Println(err)
			code = 1
		}
		return b
	}
	save(10, "used")
	if a, b := save(1, "used"), save(1, "new"); !bytes.Equal(a, b) {
		fmt.Printf("the plugin file has %d bytes over an older one, %d otherwise\\n", len(a), len(b))
		code = 1
	}
	os.RemoveAll(dir)
	os.Exit(code)
}
'''
