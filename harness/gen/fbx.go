package gen

import (
	"bytes"
	"compress/zlib"
	"encoding/base64"
	"encoding/binary"
	"fmt"
	"math"
	"strconv"
	"strings"

	"pgregory.net/rapid"
)

// FN is a node of an FBX file. Attribute types: int8 (B), byte (C), int16 (Y),
// int32 (I), int64 (L), float32 (F), float64 (D), string (S), []byte (R) and
// slices of int8, int16, int32, int64, float32, float64.
type FN struct {
	Name  string
	Attrs []interface{}
	Kids  []*FN
}

func N(name string, attrs ...interface{}) *FN { return &FN{Name: name, Attrs: attrs} }
func (n *FN) With(kids ...*FN) *FN            { n.Kids = append(n.Kids, kids...); return n }

// FBXBin says how a binary file is laid out.
type FBXBin struct {
	Version   uint32
	Zlib      uint64 // bit i%64: i-th array is compressed
	NullEmpty bool   // write the end marker also for nodes without children and attributes
	Footer    [8]byte
	NoFooter  bool
}

func DrawFBXBin(t *T) FBXBin {
	b := FBXBin{Version: rapid.SampledFrom([]uint32{7400, 7500, 7100, 7300, 7700, 7499, 7501, 6100}).Draw(t, "version")}
	b.Zlib = rapid.Uint64().Draw(t, "zlib")
	b.NullEmpty = Bool(t, "nullEmpty")
	b.NoFooter = Chance(t, "noFooter", 6)
	for i := range b.Footer {
		b.Footer[i] = byte(Int(t, "footer", 0, 15))
	}
	return b
}

type fbxEnc struct {
	o      FBXBin
	w      bytes.Buffer
	arrays int
}

func (e *fbxEnc) prop(b *bytes.Buffer, v interface{}) {
	le := binary.LittleEndian
	put := func(c byte, v interface{}) { b.WriteByte(c); binary.Write(b, le, v) }
	arr := func(c byte, n int, v interface{}) {
		b.WriteByte(c)
		var raw bytes.Buffer
		binary.Write(&raw, le, v)
		data := raw.Bytes()
		enc := uint32(0)
		if e.o.Zlib>>(uint(e.arrays)%64)&1 == 1 {
			enc = 1
			var z bytes.Buffer
			zw, _ := zlib.NewWriterLevel(&z, []int{1, 6, 9, 0}[e.arrays%4])
			zw.Write(data)
			zw.Close()
			data = z.Bytes()
		}
		e.arrays++
		binary.Write(b, le, uint32(n))
		binary.Write(b, le, enc)
		binary.Write(b, le, uint32(len(data)))
		b.Write(data)
	}
	switch x := v.(type) {
	case int8:
		put('B', x)
	case byte:
		put('C', x)
	case int16:
		put('Y', x)
	case int32:
		put('I', x)
	case int64:
		put('L', x)
	case float32:
		put('F', x)
	case float64:
		put('D', x)
	case string:
		b.WriteByte('S')
		binary.Write(b, le, uint32(len(x)))
		b.WriteString(x)
	case []byte:
		b.WriteByte('R')
		binary.Write(b, le, uint32(len(x)))
		b.Write(x)
	case []int8:
		arr('b', len(x), x)
	case []int16:
		arr('y', len(x), x)
	case []int32:
		arr('i', len(x), x)
	case []int64:
		arr('l', len(x), x)
	case []float32:
		arr('f', len(x), x)
	case []float64:
		arr('d', len(x), x)
	default:
		panic(fmt.Sprintf("attr %T", v))
	}
}

func (e *fbxEnc) hdrSize() int {
	if e.o.Version >= 7500 {
		return 25
	}
	return 13
}

func (e *fbxEnc) node(n *FN) {
	var props bytes.Buffer
	for _, a := range n.Attrs {
		e.prop(&props, a)
	}
	at := e.w.Len()
	e.w.Write(make([]byte, e.hdrSize()-1))
	e.w.WriteByte(byte(len(n.Name)))
	e.w.WriteString(n.Name)
	e.w.Write(props.Bytes())
	for _, k := range n.Kids {
		e.node(k)
	}
	if len(n.Kids) > 0 || e.o.NullEmpty && len(n.Attrs) == 0 {
		e.w.Write(make([]byte, e.hdrSize()))
	}
	end := e.w.Len()
	b := e.w.Bytes()
	if e.o.Version >= 7500 {
		binary.LittleEndian.PutUint64(b[at:], uint64(end))
		binary.LittleEndian.PutUint64(b[at+8:], uint64(len(n.Attrs)))
		binary.LittleEndian.PutUint64(b[at+16:], uint64(props.Len()))
	} else {
		binary.LittleEndian.PutUint32(b[at:], uint32(end))
		binary.LittleEndian.PutUint32(b[at+4:], uint32(len(n.Attrs)))
		binary.LittleEndian.PutUint32(b[at+8:], uint32(props.Len()))
	}
}

// EncodeFBX is the reference binary encoder; it also returns the offset of the
// end marker of the top level list.
func EncodeFBX(kids []*FN, o FBXBin) ([]byte, int) {
	e := &fbxEnc{o: o}
	e.w.WriteString("Kaydara FBX Binary  \x00\x1a\x00")
	binary.Write(&e.w, binary.LittleEndian, o.Version)
	for _, k := range kids {
		e.node(k)
	}
	end := e.w.Len()
	e.w.Write(make([]byte, e.hdrSize()))
	if !o.NoFooter {
		f := []byte{0xfa, 0xbc, 0xa0, 0x00, 0xd0, 0xc0, 0xd4, 0x60, 0xb1, 0x70, 0xfb, 0x80, 0x1c, 0xf0, 0x26, 0x70}
		for i, j := range []int{2, 3, 5, 7, 9, 11, 13, 15} {
			f[j] |= o.Footer[i]
		}
		e.w.Write(f)
		e.w.Write(make([]byte, 4))
		for e.w.Len()%16 != 0 {
			e.w.WriteByte(0)
		}
		binary.Write(&e.w, binary.LittleEndian, o.Version)
		e.w.Write(make([]byte, 120))
		e.w.Write([]byte{0xf8, 0x5a, 0x8c, 0x6a, 0xde, 0xf5, 0xd9, 0x7e, 0xec, 0xe9, 0x0c, 0xe3, 0x75, 0x8f, 0x29, 0x0b})
	}
	return e.w.Bytes(), end
}

// FBXText says how an ASCII file is written.
type FBXText struct {
	CRLF     bool
	Header   int
	Num      int // number format
	Wrap     int // values per line in arrays
	OneLine  bool
	Comments bool
	Tabs     bool
	Flat     bool // arrays as plain value lists (old style)
	Lead     bool // wrapped lists continue with the comma, not after it
}

func DrawFBXText(t *T) FBXText {
	return FBXText{CRLF: Chance(t, "crlf", 3), Header: Int(t, "header", 0, 3), Num: Int(t, "num", 0, 4),
		Wrap: rapid.SampledFrom([]int{0, 3, 1, 16}).Draw(t, "wrap"), OneLine: Chance(t, "oneLine", 4),
		Comments: Chance(t, "comments", 2), Tabs: Bool(t, "tabs"), Flat: Chance(t, "flat", 5), Lead: Bool(t, "lead")}
}

type fbxTxt struct {
	o  FBXText
	sb strings.Builder
	k  int
}

func (e *fbxTxt) num(f float64, bits int) string {
	e.k++
	switch (e.o.Num + e.k) % 5 * e.o.Num {
	case 0:
		return strconv.FormatFloat(f, 'g', -1, bits)
	case 1:
		s := strconv.FormatFloat(f, 'f', -1, bits)
		if len(s) > 40 {
			return strconv.FormatFloat(f, 'e', -1, bits)
		}
		if !strings.Contains(s, ".") {
			s += ".0"
		}
		return s
	case 2:
		return strconv.FormatFloat(f, 'e', -1, bits)
	case 3:
		return strings.ToUpper(strconv.FormatFloat(f, 'e', -1, bits))
	}
	s := strconv.FormatFloat(f, 'f', -1, bits)
	if len(s) > 15 {
		return strconv.FormatFloat(f, 'g', -1, bits)
	}
	return s
}

// FBXName turns a binary object name into the ASCII form.
func FBXName(s string) string {
	if i := strings.Index(s, "\x00\x01"); i >= 0 {
		return s[i+2:] + "::" + s[:i]
	}
	return s
}

func (e *fbxTxt) attr(v interface{}, ind string) string {
	list := func(n int, at func(int) string) string {
		nl := "\n"
		if e.o.Flat && n > 0 {
			var sb strings.Builder
			for i := 0; i < n; i++ {
				if i > 0 {
					sb.WriteString(e.comma(i, ind))
				}
				sb.WriteString(at(i))
			}
			return sb.String()
		}
		sp := nl + ind + "\t"
		end := nl + ind
		if e.o.OneLine {
			sp, end = " ", " "
		}
		var sb strings.Builder
		fmt.Fprintf(&sb, "*%d {%sa: ", n, sp)
		for i := 0; i < n; i++ {
			if i > 0 {
				sb.WriteString(",")
				if e.o.Wrap > 0 && i%e.o.Wrap == 0 && !e.o.OneLine {
					sb.WriteString(nl)
				}
			}
			sb.WriteString(at(i))
		}
		sb.WriteString(end + "}")
		return sb.String()
	}
	switch x := v.(type) {
	case int8, int16, int32, int64, byte:
		return fmt.Sprint(x)
	case float32:
		return e.num(float64(x), 32)
	case float64:
		return e.num(x, 64)
	case string:
		return `"` + strings.ReplaceAll(FBXName(x), `"`, "&quot;") + `"`
	case []byte:
		return `"` + base64.StdEncoding.EncodeToString(x) + `"`
	case []int8:
		return list(len(x), func(i int) string { return fmt.Sprint(x[i]) })
	case []int16:
		return list(len(x), func(i int) string { return fmt.Sprint(x[i]) })
	case []int32:
		return list(len(x), func(i int) string { return fmt.Sprint(x[i]) })
	case []int64:
		return list(len(x), func(i int) string { return fmt.Sprint(x[i]) })
	case []float32:
		return list(len(x), func(i int) string { return e.num(float64(x[i]), 32) })
	case []float64:
		return list(len(x), func(i int) string { return e.num(x[i], 64) })
	}
	panic(fmt.Sprintf("attr %T", v))
}

// comma separates the values i-1 and i of a list.
func (e *fbxTxt) comma(i int, ind string) string {
	if e.o.Wrap == 0 || i%e.o.Wrap != 0 {
		return ","
	}
	if e.o.Lead {
		return "\n" + ind + ","
	}
	return ",\n" + ind
}

// note is a comment at the end of a line.
func (e *fbxTxt) note(n *FN) string {
	if e.k++; !e.o.Comments || len(n.Name)%3 != 0 || e.k%4 != 0 {
		return ""
	}
	return []string{" ; " + n.Name + ": 1, { \"x", ";"}[e.k/4%2]
}

func (e *fbxTxt) node(n *FN, d int) {
	ind := strings.Repeat("  ", d)
	if e.o.Tabs {
		ind = strings.Repeat("\t", d)
	}
	if e.o.Comments && len(n.Kids)%3 == 1 {
		e.sb.WriteString("; " + n.Name + " properties: { \"x\n;------------------------------------------------------------------\n\n")
	}
	e.sb.WriteString(ind + n.Name + ": ")
	for i, a := range n.Attrs {
		if _, str := a.(string); i == 0 && e.o.Lead && e.o.Wrap > 0 && len(n.Attrs) > 7 && !str {
			e.sb.WriteString("\n" + ind + "\t") // animation keys of Blender's files
		}
		if i > 0 && len(n.Attrs) > 7 {
			e.sb.WriteString(e.comma(i, ind))
		} else if i > 0 {
			e.sb.WriteString(", ")
		}
		e.sb.WriteString(e.attr(a, ind))
	}
	if len(n.Kids) > 0 || len(n.Attrs) == 0 {
		e.sb.WriteString(" {" + e.note(n) + "\n")
		for _, k := range n.Kids {
			e.node(k, d+1)
		}
		e.sb.WriteString(ind + "}")
	}
	e.sb.WriteString(e.note(n) + "\n")
}

// EmitFBXText is the reference ASCII emitter.
func EmitFBXText(kids []*FN, o FBXText) []byte {
	e := &fbxTxt{o: o}
	e.sb.WriteString([]string{"; FBX 7.3.0 project file\n; Copyright (C) 1997-2010 Autodesk Inc. and/or its licensors.\n; All rights reserved.\n; ----------------------------------------------------\n\n",
		"; FBX 6.1.0 project file\n", ";\n", "; x\n\n"}[o.Header%4])
	for _, k := range kids {
		e.node(k, 0)
	}
	s := e.sb.String()
	for len(s) < 21 {
		s += "\n"
	}
	if o.CRLF {
		s = strings.ReplaceAll(s, "\n", "\r\n")
	}
	return []byte(s)
}

// ---- generic trees ----

var fbxWords = []string{"P", "C", "Model", "Version", "Properties70", "KeyTime", "a", "LayerElementUV", "A_b", "X1", "Lcl-T", "Content", "z"}
var fbxStrings = []string{"", "x", "Lcl Translation", "a\\b\\c.png", "a::b", "Model::x", "x\x00\x01Model", "髪ソ\x00\x01Material", "say \"hi\"", "a;b", "{", "}", "a: 1, 2", "*3", "tab\there", "line\nbreak", "C:\\tmp\\new\\x.tga", "'q'", "%d %s", "a&b", "<&>", "é", "\\u0041", "\\"}

func fbxFloat(t *T, n string, bits int) float64 {
	var v float64
	switch Int(t, n+".k", 0, 4) {
	case 0:
		v = float64(Int(t, n, -5, 5))
	case 1:
		v = float64(Int(t, n, -100000, 100000)) / 1000
	case 2:
		v = rapid.SampledFrom([]float64{1e-5, -1e-5, 1e21, 1e6, -1e22, 1e-7, 1.5e-10, 2.5e25, 3e-30, 1e20, 123456789, 0.1, 1e-4, 5e-324, 1.7976931348623157e308, 16777217, 9007199254740993}).Draw(t, n)
	case 3:
		v = rapid.Float64Range(-1e6, 1e6).Draw(t, n)
	default:
		v = rapid.Float64().Draw(t, n)
	}
	if bits == 32 {
		v = float64(float32(v))
		if math.IsInf(v, 0) {
			v = 1e30
			v = float64(float32(v))
		}
	}
	if v == 0 {
		return 0
	}
	return v
}

func fbxInt(t *T, n string, bits int) int64 {
	m := int64(1)<<(bits-1) - 1
	switch Int(t, n+".k", 0, 3) {
	case 0:
		return int64(Int(t, n, -3, 10))
	case 1:
		return rapid.SampledFrom([]int64{m, -m - 1, m - 1, m / 2, -m}).Draw(t, n)
	case 2:
		return rapid.Int64Range(-m-1, m).Draw(t, n)
	}
	return rapid.SampledFrom([]int64{1 << 6, 1 << 14, 1 << 30, 1<<31 + 5, 1<<53 + 1, 46186158000, -(1 << 33)}).Draw(t, n) & m
}

// FBXAttr draws an attribute value; long gives arrays of up to that length.
func FBXAttr(t *T, n string, long int) interface{} {
	k := Int(t, n+".t", 0, 14)
	ln := 0
	if k >= 9 {
		ln = Int(t, n+".len", 0, 6)
		if long > 6 && Chance(t, n+".long", 4) {
			ln = Int(t, n+".len2", 7, long)
		}
	}
	switch k {
	case 0:
		return int64(fbxInt(t, n, 64))
	case 1:
		return fbxFloat(t, n, 64)
	case 2:
		if Bool(t, n+".s") {
			return rapid.SampledFrom(fbxStrings).Draw(t, n)
		}
		return Name(t, n)
	case 3:
		return int32(fbxInt(t, n, 32))
	case 4:
		return float32(fbxFloat(t, n, 32))
	case 5:
		return int16(fbxInt(t, n, 16))
	case 6:
		return int8(fbxInt(t, n, 8))
	case 7:
		return byte(Int(t, n, 0, 255))
	case 8:
		b := rapid.SliceOfN(rapid.Byte(), 0, 40).Draw(t, n)
		if b == nil {
			b = []byte{}
		}
		return b
	case 9:
		r := make([]int8, ln)
		for i := range r {
			r[i] = int8(fbxInt(t, n, 8))
		}
		return r
	case 10:
		r := make([]int16, ln)
		for i := range r {
			r[i] = int16(fbxInt(t, n, 16))
		}
		return r
	case 11:
		r := make([]int32, ln)
		for i := range r {
			r[i] = int32(fbxInt(t, n, 32))
		}
		return r
	case 12:
		r := make([]int64, ln)
		for i := range r {
			r[i] = fbxInt(t, n, 64)
		}
		return r
	case 13:
		r := make([]float32, ln)
		for i := range r {
			r[i] = float32(fbxFloat(t, n, 32))
		}
		return r
	}
	r := make([]float64, ln)
	for i := range r {
		r[i] = fbxFloat(t, n, 64)
	}
	return r
}

// FBXTree draws a list of nodes.
func FBXTree(t *T, n string, depth, long int) []*FN {
	var out []*FN
	k := Int(t, n+".n", 0, 4)
	for i := 0; i < k; i++ {
		x := &FN{}
		if Chance(t, n+".rnd", 3) {
			x.Name = Ident(t, n+".name")
		} else {
			x.Name = rapid.SampledFrom(fbxWords).Draw(t, n+".name")
		}
		na := Int(t, n+".na", 0, 4)
		for j := 0; j < na; j++ {
			x.Attrs = append(x.Attrs, FBXAttr(t, n+".a", long))
		}
		if depth > 0 && Bool(t, n+".kids") {
			x.Kids = FBXTree(t, n+"/", depth-1, long)
		}
		out = append(out, x)
	}
	return out
}

// Depth and Count of a forest.
func FBXCount(kids []*FN) (nodes, attrs, depth int) {
	for _, k := range kids {
		a, b, d := FBXCount(k.Kids)
		nodes += 1 + a
		attrs += len(k.Attrs) + b
		if d+1 > depth {
			depth = d + 1
		}
	}
	return
}
