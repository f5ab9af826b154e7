package unityc

import (
	"archive/tar"
	"bytes"
	"crypto/sha256"
	"fmt"
	"io"
	"io/fs"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"testing"

	"github.com/binzume/modelconv/unity"
	"pgregory.net/rapid"

	"verif/harness/gen"
	"verif/harness/hx"
)

// snapshot lists a directory tree with the contents of its files.
func snapshot(dir string) map[string]string {
	m := map[string]string{}
	filepath.Walk(dir, func(p string, fi fs.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		r, _ := filepath.Rel(dir, p)
		switch {
		case fi.IsDir():
			m[r] = "dir"
		case fi.Mode()&os.ModeSymlink != 0:
			l, _ := os.Readlink(p)
			m[r] = "link " + l
		default:
			b, _ := os.ReadFile(p)
			m[r] = fmt.Sprintf("%x", sha256.Sum256(b))
		}
		return nil
	})
	return m
}

func treeDiff(a, b map[string]string) string {
	var d []string
	for k, v := range a {
		if w, ok := b[k]; !ok {
			d = append(d, "removed "+k)
		} else if v != w {
			d = append(d, "changed "+k)
		}
	}
	for k := range b {
		if _, ok := a[k]; !ok {
			d = append(d, "added "+k)
		}
	}
	sort.Strings(d)
	return strings.Join(d, ", ")
}

// withTemp runs f with its own empty TMPDIR.
func withTemp(dir string, f func()) {
	old, had := os.LookupEnv("TMPDIR")
	os.Setenv("TMPDIR", dir)
	defer func() {
		if had {
			os.Setenv("TMPDIR", old)
		} else {
			os.Unsetenv("TMPDIR")
		}
	}()
	f()
}

func checkAssets(c *hx.C, a unity.Assets, want []*gen.UAsset) {
	var got, exp []string
	for _, x := range a.GetAllAssets() {
		got = append(got, x.GUID+" "+filepath.ToSlash(x.Path))
	}
	for _, x := range want {
		exp = append(exp, x.GUID+" "+x.Path)
	}
	sort.Strings(got)
	sort.Strings(exp)
	if fmt.Sprintf("%q", got) != fmt.Sprintf("%q", exp) {
		c.Fatalf("assets:\n %q\nwant:\n %q", got, exp)
	}
	for _, x := range want {
		g := a.GetAsset(x.GUID)
		p := a.GetAssetByPath(x.Path)
		if g == nil || p == nil || g.GUID != x.GUID || p.GUID != x.GUID || filepath.ToSlash(g.Path) != x.Path || filepath.ToSlash(p.Path) != x.Path {
			c.Fatalf("asset %s %q: by GUID %v, by path %v", x.GUID, x.Path, g, p)
		}
		m, err := a.GetMetaFile(g)
		if err != nil || m.GUID != x.GUID {
			c.Fatalf("asset %q: metadata %+v %v, want GUID %s", x.Path, m, err, x.GUID)
		}
		for id, n := range x.Recycle {
			if s := m.GetRecycleNameByFileID(id); s != n {
				c.Fatalf("asset %q: object %d is named %q, want %q", x.Path, id, s, n)
			}
		}
		if s := m.GetRecycleNameByFileID(1234567); s != "" {
			c.Fatalf("asset %q: name %q for an object it does not list", x.Path, s)
		}
		if x.Data == nil {
			continue
		}
		for _, path := range []string{x.Path, g.Path} {
			f, err := a.Open(path)
			if err != nil {
				c.Fatalf("asset %q cannot be opened: %v", path, err)
			}
			b, err := io.ReadAll(f)
			f.Close()
			if err != nil || !bytes.Equal(b, x.Data) {
				c.Fatalf("asset %q: %d bytes %v, want %d", path, len(b), err, len(x.Data))
			}
		}
	}
	if g := a.GetAsset("ffffffffffffffffffffffffffffffff"); g != nil {
		c.Fatalf("asset %v for an unknown GUID", g)
	}
	if g := a.GetAssetByPath("Assets/no such file"); g != nil {
		c.Fatalf("asset %v for an unknown path", g)
	}
	if f, err := a.Open("Assets/no such file"); err == nil {
		c.Fatalf("opened a file that does not exist: %v", f)
	}
}

func propPackage(c *hx.C) {
	dir, done := hx.Scratch(c)
	defer done()
	assets := gen.UAssets(c.T, 6)
	src, tmp := filepath.Join(dir, "src"), filepath.Join(dir, "tmp")
	os.Mkdir(src, 0755)
	os.Mkdir(tmp, 0755)
	desc := func() string {
		s := ""
		for _, a := range assets {
			s += fmt.Sprintf("%s %q (%d bytes)\n", a.GUID, a.Path, len(a.Data))
		}
		return s
	}
	c.DescF(desc)
	var open func() (unity.Assets, error)
	var source string
	kind := gen.Int(c.T, "kind", 0, 3)
	switch kind {
	case 0, 1:
		entries := gen.PackageEntries(c.T, assets)
		source = filepath.Join(src, "a.unitypackage")
		os.WriteFile(source, gen.Pack(entries), 0644)
		open = func() (unity.Assets, error) { return unity.OpenPackage(source) }
	case 2:
		source = filepath.Join(src, "x")
		os.Mkdir(source, 0755)
		os.WriteFile(filepath.Join(source, "note.txt"), []byte("x"), 0644)
		os.Mkdir(filepath.Join(source, "empty"), 0755)
		gen.WriteExtracted(source, assets)
		open = func() (unity.Assets, error) { return unity.OpenPackage(source) }
	case 3:
		proj := filepath.Join(src, "proj")
		gen.WriteProject(proj, assets)
		source = filepath.Join(proj, "Assets")
		if gen.Bool(c.T, "viaProject") {
			open = func() (unity.Assets, error) { return unity.OpenProject(proj) }
		} else {
			open = func() (unity.Assets, error) { return unity.OpenAssets(source) }
		}
	}
	before := snapshot(src)
	withTemp(tmp, func() {
		// two at once, to show that they do not disturb each other
		a, err := open()
		if err != nil {
			c.Fatalf("cannot be opened: %v", err)
		}
		two := gen.Bool(c.T, "two")
		var b unity.Assets
		if two {
			if b, err = open(); err != nil {
				c.Fatalf("cannot be opened twice: %v", err)
			}
		}
		if a.GetSourcePath() != source {
			c.Fatalf("source path %q, want %q", a.GetSourcePath(), source)
		}
		checkAssets(c, a, assets)
		if err := a.Close(); err != nil {
			c.Fatalf("Close: %v", err)
		}
		if two {
			checkAssets(c, b, assets)
			if err := b.Close(); err != nil {
				c.Fatalf("Close: %v", err)
			}
		}
	})
	if d := treeDiff(before, snapshot(src)); d != "" {
		c.Fatalf("the source was touched: %s", d)
	}
	if d := treeDiff(map[string]string{".": "dir"}, snapshot(tmp)); d != "" {
		c.Fatalf("left in the temporary directory after Close: %s", d)
	}
	c.Label([]string{"package", "package", "extracted", "project"}[kind])
	if len(assets) > 1 {
		c.NonTrivial(fmt.Sprint(kind, desc()))
	}
}

// propHostile opens archives that name files outside of the package, or that
// are damaged. Every name used leads to the case's own scratch directory
// whatever the code does with it.
func propHostile(c *hx.C) {
	root, done := hx.Scratch(c)
	defer done()
	deep := filepath.Join(root, "a/b/c/d/e")
	tmp := filepath.Join(deep, "tmp")
	os.MkdirAll(tmp, 0755)
	victim := filepath.Join(root, "a/victim")
	os.WriteFile(victim, []byte("precious"), 0644)
	vdir := filepath.Join(root, "a/vdir")
	os.Mkdir(vdir, 0755)
	os.WriteFile(filepath.Join(vdir, "f"), []byte("keep"), 0644)
	assets := gen.UAssets(c.T, 4)
	entries := gen.PackageEntries(c.T, assets)
	bad := 0
	for i := 0; i < gen.Int(c.T, "bad", 0, 3); i++ {
		ups := strings.Repeat("../", gen.Int(c.T, "ups", 1, 5))
		pre := rapid.SampledFrom([]string{"", "./", "g/", "g/../", "g/x/../../"}).Draw(c.T, "prefix")
		var e []gen.TarEntry
		switch gen.Int(c.T, "kind", 0, 6) {
		case 0:
			e = []gen.TarEntry{{Name: pre + ups + "evil", Type: tar.TypeReg, Data: []byte("evil")}}
		case 1:
			e = []gen.TarEntry{{Name: pre + ups + "evildir/", Type: tar.TypeDir}, {Name: pre + ups + "evildir/x", Type: tar.TypeReg, Data: []byte("evil")}}
		case 2: // tmp/modelconv_assets_N -> tmp -> e d c b a
			e = []gen.TarEntry{{Name: "../../../../../../victim", Type: tar.TypeReg, Data: []byte("evil")}}
		case 3:
			e = []gen.TarEntry{{Name: victim, Type: tar.TypeReg, Data: []byte("evil")}}
		case 4:
			e = []gen.TarEntry{{Name: "ln", Type: tar.TypeSymlink, Link: vdir}, {Name: "ln/f", Type: tar.TypeReg, Data: []byte("evil")}}
		case 5:
			e = []gen.TarEntry{{Name: "hl", Type: tar.TypeLink, Link: victim}, {Name: "hl", Type: tar.TypeReg, Data: []byte("evil")}}
		case 6:
			e = []gen.TarEntry{{Name: "sl", Type: tar.TypeSymlink, Link: victim}, {Name: "sl", Type: tar.TypeReg, Data: []byte("evil")}}
		}
		at := gen.Int(c.T, "at", 0, len(entries))
		entries = append(entries[:at:at], append(e, entries[at:]...)...)
		bad++
	}
	data := gen.Pack(entries)
	damage := rapid.SampledFrom([]string{"none", "none", "cut", "flip", "text"}).Draw(c.T, "damage")
	switch damage {
	case "cut":
		data = data[:gen.Int(c.T, "cut", 0, len(data)-1)]
	case "flip":
		data = append([]byte{}, data...)
		data[gen.Int(c.T, "pos", 0, len(data)-1)] ^= byte(1 << gen.Int(c.T, "bit", 0, 7))
	case "text":
		data = []byte("not a package")
	}
	pkg := filepath.Join(deep, "p.unitypackage")
	os.WriteFile(pkg, data, 0644)
	c.DescF(func() string {
		s := "damage: " + damage + "\n"
		for _, e := range entries {
			s += fmt.Sprintf("%c %s %s\n", e.Type, strings.ReplaceAll(e.Name, root, "ROOT"), strings.ReplaceAll(e.Link, root, "ROOT"))
		}
		return s
	})
	before := snapshot(root)
	wd, err := os.Getwd()
	if err != nil {
		panic(err)
	}
	os.Chdir(tmp)
	defer os.Chdir(wd)
	withTemp(tmp, func() {
		var a unity.Assets
		a, err = unity.OpenPackage(pkg)
		if err != nil {
			return
		}
		for k := range snapshot(root) {
			if _, ok := before[k]; !ok && !strings.HasPrefix(k, "a/b/c/d/e/tmp/modelconv_assets_") {
				c.Fatalf("written outside of the temporary directory: %s", k)
			}
		}
		if bad == 0 && (damage == "none" || damage == "cut") {
			checkAssets(c, a, assets)
		}
		if cerr := a.Close(); cerr != nil {
			c.Fatalf("Close: %v", cerr)
		}
	})
	if d := treeDiff(before, snapshot(root)); d != "" {
		c.Fatalf("opening the package (error: %v) changed: %s", err, d)
	}
	if err != nil && bad == 0 && damage == "none" {
		c.Fatalf("a good package was refused: %v", err)
	}
	if err == nil && (damage == "text") {
		c.Fatalf("a file that is no package was accepted")
	}
	c.Label("damage " + damage)
	c.LabelIf(err != nil, "refused")
	if bad > 0 || damage != "none" {
		c.NonTrivial(string(data))
	}
}

func TestC15(t *testing.T) {
	hx.Main(t, "C15",
		hx.Leg{Name: "assets", Quick: 1500, Prop: propPackage},
		hx.Leg{Name: "hostile", Quick: 1500, Prop: propHostile},
	)
}
