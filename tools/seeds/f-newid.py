PROP="C06"
NEEDS="objects added to a document whose next free id is followed by two or more ids in use"
BREAKS="a new object gets the id of an object that exists already"
EDITS=[("fbx/fbx_document.go","""	for doc.ObjectByID[doc.NextObjectID] != nil {
		doc.NextObjectID++
	}""","""	if doc.ObjectByID[doc.NextObjectID] != nil {
		doc.NextObjectID++
	}""")]
DEMO='''
package main

import (
	"fmt"
	"os"

	"github.com/binzume/modelconv/fbx"
)

func main() {
	doc := fbx.NewDocument()
	seen := map[int64]bool{}
	add := func(id int64) {
		o := fbx.NewMaterial("m")
		o.GetNode().Attributes[0].Value = id
		seen[doc.AddObject(o)] = true
	}
	next := doc.NextObjectID + 1
	for i := int64(0); i < 4; i++ {
		add(next + i) // objects of a file
	}
	n := len(seen)
	for i := 0; i < 3; i++ {
		add(0)
		n++
	}
	if len(seen) != n {
		fmt.Println(n, "objects have", len(seen), "ids")
		os.Exit(1)
	}
}
'''
