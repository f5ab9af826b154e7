package gen

import (
	"archive/tar"
	"bytes"
	"compress/gzip"
	"fmt"
	"os"
	"path"
	"path/filepath"
	"sort"
	"strings"

	"pgregory.net/rapid"
)

// UAsset is one asset of a Unity package or project.
type UAsset struct {
	GUID    string
	Path    string // with forward slashes, starts with Assets/
	Data    []byte // nil: folder
	Recycle map[int64]string
	Meta    string
}

// NewUAsset builds an asset with a metadata file.
func NewUAsset(guid, p string, data []byte, recycle map[int64]string) *UAsset {
	a := &UAsset{GUID: guid, Path: p, Data: data, Recycle: recycle}
	var sb strings.Builder
	fmt.Fprintf(&sb, "fileFormatVersion: 2\nguid: %s\n", guid)
	switch {
	case data == nil:
		sb.WriteString("folderAsset: yes\nDefaultImporter:\n  externalObjects: {}\n")
	case recycle != nil:
		sb.WriteString("ModelImporter:\n  serializedVersion: 23\n  fileIDToRecycleName:\n")
		var ids []int64
		for id := range recycle {
			ids = append(ids, id)
		}
		sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
		for _, id := range ids {
			fmt.Fprintf(&sb, "    %d: %s\n", id, YAMLString(recycle[id]))
		}
		sb.WriteString("  externalObjects: {}\n")
	default:
		sb.WriteString("NativeFormatImporter:\n  externalObjects: {}\n  mainObjectFileID: 2100000\n")
	}
	sb.WriteString("  userData: \n  assetBundleName: \n  assetBundleVariant: \n")
	a.Meta = sb.String()
	return a
}

// YAMLString writes a string as a YAML scalar the way Unity does: plain when
// it can be, else single quotes, or double quotes with \u escapes.
func YAMLString(s string) string {
	ascii, plain := true, s != ""
	for i, r := range s {
		if r > 126 || r < 32 {
			ascii = false
		}
		if !(r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '_' || (r == ' ' || r == '.') && i > 0 && i < len(s)-1) {
			plain = false
		}
	}
	if plain && strings.ToLower(s) != "null" {
		return s
	}
	if ascii {
		return "'" + strings.ReplaceAll(s, "'", "''") + "'"
	}
	var sb strings.Builder
	sb.WriteByte('"')
	for _, r := range s {
		switch {
		case r == '"' || r == '\\':
			sb.WriteByte('\\')
			sb.WriteRune(r)
		case r < 32 || r > 126:
			fmt.Fprintf(&sb, "\\u%04X", r)
		default:
			sb.WriteRune(r)
		}
	}
	sb.WriteByte('"')
	return sb.String()
}

// GUIDs draws k different asset identifiers.
func GUIDs(t *T, k int) []string {
	seen := map[string]bool{}
	var out []string
	for i := 0; i < k; i++ {
		var s string
		switch rapid.IntRange(0, 4).Draw(t, "guid.kind") {
		case 0: // only digits
			s = rapid.StringMatching("[1-9][0-9]{31}").Draw(t, "guid")
		case 1: // looks like a number with an exponent
			s = rapid.StringMatching("[1-9][0-9]{15}e[0-9]{15}").Draw(t, "guid")
		default:
			s = rapid.StringMatching("[1-9a-f][0-9a-f]{31}").Draw(t, "guid")
		}
		if i > 0 && Chance(t, "alike", 4) { // differs from another one in one half
			o := out[Int(t, "alike.of", 0, i-1)]
			if Bool(t, "alike.head") {
				s = o[:16] + s[16:]
			} else {
				s = s[:16] + o[16:]
			}
		}
		for n := i; seen[s]; n++ {
			s = s[:28] + fmt.Sprintf("%04d", n)
		}
		seen[s] = true
		out = append(out, s)
	}
	return out
}

func tarName(dot bool, s string) string {
	if dot {
		return "./" + s
	}
	return s
}

// TarEntry is one entry of a package archive.
type TarEntry struct {
	Name string
	Type byte
	Data []byte
	Link string
}

// PackageEntries lays the assets out as the entries of a .unitypackage.
func PackageEntries(t *T, assets []*UAsset) []TarEntry {
	dot, dirs, preview := Bool(t, "dotSlash"), Bool(t, "dirEntries"), Bool(t, "preview")
	tail := rapid.SampledFrom([]string{"", "", "\n", "\n00", "\r\n"}).Draw(t, "pathnameTail")
	dirsFirst, rootDir := Bool(t, "dirsFirst"), Bool(t, "rootDir")
	var out []TarEntry
	if dot && dirs && rootDir {
		out = append(out, TarEntry{Name: "./", Type: tar.TypeDir})
	}
	if dirs && dirsFirst {
		for _, a := range assets {
			out = append(out, TarEntry{Name: tarName(dot, a.GUID+"/"), Type: tar.TypeDir})
		}
	}
	for _, a := range assets {
		if dirs && !dirsFirst {
			out = append(out, TarEntry{Name: tarName(dot, a.GUID+"/"), Type: tar.TypeDir})
		}
		var fs []TarEntry
		if a.Data != nil {
			fs = append(fs, TarEntry{Name: "asset", Data: a.Data})
			if preview {
				fs = append(fs, TarEntry{Name: "preview.png", Data: []byte("png" + a.GUID)})
			}
		}
		fs = append(fs, TarEntry{Name: "asset.meta", Data: []byte(a.Meta)}, TarEntry{Name: "pathname", Data: []byte(a.Path + tail)})
		for _, i := range rapid.Permutation(seq(len(fs))).Draw(t, "order") {
			f := fs[i]
			f.Name = tarName(dot, a.GUID+"/"+f.Name)
			f.Type = tar.TypeReg
			out = append(out, f)
		}
	}
	return out
}

func seq(n int) []int {
	s := make([]int, n)
	for i := range s {
		s[i] = i
	}
	return s
}

// Pack writes a .unitypackage (a compressed tar archive).
func Pack(entries []TarEntry) []byte {
	var buf bytes.Buffer
	z := gzip.NewWriter(&buf)
	w := tar.NewWriter(z)
	for _, e := range entries {
		h := &tar.Header{Name: e.Name, Typeflag: e.Type, Mode: 0644, Size: int64(len(e.Data)), Linkname: e.Link}
		if e.Type == tar.TypeDir {
			h.Mode = 0755
		}
		if err := w.WriteHeader(h); err != nil {
			panic(err)
		}
		w.Write(e.Data)
	}
	w.Close()
	z.Close()
	return buf.Bytes()
}

// WriteExtracted writes the assets as an extracted package.
func WriteExtracted(dir string, assets []*UAsset) {
	for _, a := range assets {
		d := filepath.Join(dir, a.GUID)
		must(os.MkdirAll(d, 0755))
		must(os.WriteFile(filepath.Join(d, "pathname"), []byte(a.Path), 0644))
		must(os.WriteFile(filepath.Join(d, "asset.meta"), []byte(a.Meta), 0644))
		if a.Data != nil {
			must(os.WriteFile(filepath.Join(d, "asset"), a.Data, 0644))
		}
	}
}

// WriteProject writes the assets as a project directory.
func WriteProject(dir string, assets []*UAsset) {
	must(os.MkdirAll(filepath.Join(dir, "Assets"), 0755))
	for _, a := range assets {
		p := filepath.Join(dir, filepath.FromSlash(a.Path))
		must(os.MkdirAll(filepath.Dir(p), 0755))
		if a.Data == nil {
			must(os.MkdirAll(p, 0755))
		} else {
			must(os.WriteFile(p, a.Data, 0644))
		}
		must(os.WriteFile(p+".meta", []byte(a.Meta), 0644))
	}
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

// UAssets draws a set of assets with different GUIDs and paths.
func UAssets(t *T, max int) []*UAsset {
	k := Int(t, "assets", 0, max)
	guids := GUIDs(t, k)
	part := func(n string) string {
		s := strings.Map(func(r rune) rune {
			if r == '/' || r == ':' || r == '<' || r == '>' {
				return -1
			}
			return r
		}, Name(t, n))
		if strings.Trim(s, ". ") == "" {
			s = "x" + s + "y"
		}
		return s
	}
	dirs := []string{"Assets"}
	seen := map[string]bool{}
	var out []*UAsset
	for i := 0; i < k; i++ {
		d := rapid.SampledFrom(dirs).Draw(t, "dir")
		folder := Chance(t, "folder", 4)
		name := part("file")
		if !folder {
			name += rapid.SampledFrom([]string{".mat", ".png", ".unity", ".fbx", "", ".tar.gz"}).Draw(t, "ext")
		}
		p := path.Join(d, name)
		for seen[p] {
			name = "n" + name
			p = path.Join(d, name)
		}
		seen[p] = true
		var data []byte
		var rec map[int64]string
		if folder {
			dirs = append(dirs, p)
		} else {
			data = append([]byte{}, rapid.SliceOfN(rapid.Byte(), 0, 60).Draw(t, "data")...)
			if Chance(t, "big", 8) {
				data = bytes.Repeat(append(data, 7), 700)
			}
			if strings.HasSuffix(p, ".fbx") {
				rec = map[int64]string{}
				for j := 0; j < Int(t, "recycle", 0, 3); j++ {
					rec[int64(4300000+2*j)] = Name(t, "recName")
				}
				if len(rec) == 0 {
					rec = nil
				}
			}
		}
		out = append(out, NewUAsset(guids[i], p, data, rec))
	}
	return out
}
