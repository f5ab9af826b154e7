// Package gen holds the generators and the independent reference codecs.
package gen

import (
	"fmt"
	"io"
	"math"

	"github.com/binzume/modelconv/geom"
	"pgregory.net/rapid"
)

type T = rapid.T

func Int(t *T, n string, lo, hi int) int { return rapid.IntRange(lo, hi).Draw(t, n) }
func Bool(t *T, n string) bool           { return rapid.Bool().Draw(t, n) }

// Chance is true once in k cases (shrinks towards false).
func Chance(t *T, n string, k int) bool { return rapid.IntRange(0, k-1).Draw(t, n) == k-1 }

// F draws a coordinate-like float32 without denormals.
func F(t *T, n string, lim float64) float32 {
	switch rapid.IntRange(0, 3).Draw(t, n+".kind") {
	case 0:
		return float32(rapid.IntRange(-3, 3).Draw(t, n))
	case 1:
		v := float32(rapid.IntRange(-1000, 1000).Draw(t, n)) / 8
		return float32(math.Mod(float64(v), lim))
	}
	v := rapid.Float64Range(-lim, lim).Draw(t, n)
	if math.Abs(v) < 1e-4 {
		v = 0
	}
	return float32(v)
}

// U draws a value in [0,1].
func U(t *T, n string) float32 {
	switch rapid.IntRange(0, 3).Draw(t, n+".kind") {
	case 0:
		return float32(rapid.IntRange(0, 1).Draw(t, n))
	case 1:
		return float32(rapid.IntRange(0, 20).Draw(t, n)) / 20
	}
	v := rapid.Float64Range(0, 1).Draw(t, n)
	if v < 1e-4 {
		v = 0
	}
	return float32(v)
}

func V2(t *T, n string, lim float64) geom.Vector2 {
	return geom.Vector2{X: F(t, n+".x", lim), Y: F(t, n+".y", lim)}
}
func V3(t *T, n string, lim float64) geom.Vector3 {
	return geom.Vector3{X: F(t, n+".x", lim), Y: F(t, n+".y", lim), Z: F(t, n+".z", lim)}
}
func V4(t *T, n string, lim float64) geom.Vector4 {
	return geom.Vector4{X: F(t, n+".x", lim), Y: F(t, n+".y", lim), Z: F(t, n+".z", lim), W: F(t, n+".w", lim)}
}
func Col4(t *T, n string) geom.Vector4 {
	return geom.Vector4{X: U(t, n+".r"), Y: U(t, n+".g"), Z: U(t, n+".b"), W: U(t, n+".a")}
}
func Col3(t *T, n string) geom.Vector3 {
	return geom.Vector3{X: U(t, n+".r"), Y: U(t, n+".g"), Z: U(t, n+".b")}
}

// JapaneseChars are characters in Shift_JIS whose second byte is 0x5c ('\')
// and others, plus half width katakana.
var JapaneseChars = []string{"ソ", "表", "能", "十", "予", "構", "髪", "腕", "右", "左", "ひ", "ー", "ﾎ", "ｱ", "噂", "申", "貼", "ボ"}

var nameParts = []string{"a", "B", "arm", "head", "_", "-", ".", " ", "1", "09", "obj", "(x)", "[0]", ",", "#", "%", "&", "<", ">", "'", "=", ":", ";", "{", "}", "/", "+"}

// Name draws a printable name (ASCII and Japanese mixed).
func Name(t *T, n string) string {
	k := rapid.IntRange(1, 4).Draw(t, n+".len")
	s := ""
	for i := 0; i < k; i++ {
		switch rapid.IntRange(0, 4).Draw(t, n+".k") {
		case 0, 1:
			s += rapid.SampledFrom(nameParts).Draw(t, n)
		case 2:
			s += rapid.SampledFrom(JapaneseChars).Draw(t, n)
		default:
			s += rapid.SampledFrom(nameParts[:5]).Draw(t, n)
		}
	}
	return s
}

// Ident draws a plain ASCII identifier.
func Ident(t *T, n string) string {
	return rapid.StringMatching("[a-zA-Z][a-zA-Z0-9_]{0,7}").Draw(t, n)
}

// UniqueNames draws k distinct names.
func UniqueNames(t *T, n string, k int, f func(*T, string) string) []string {
	seen := map[string]bool{}
	var out []string
	for i := 0; i < k; i++ {
		s := f(t, fmt.Sprintf("%s%d", n, i))
		for seen[s] {
			s = fmt.Sprintf("%s%d", s, i)
		}
		seen[s] = true
		out = append(out, s)
	}
	return out
}

// ChunkReader delivers data in pieces of the given sizes (cycled); it has only
// the Read method.
type ChunkReader struct {
	Data  []byte
	Sizes []int
	i     int
	EOFed bool // deliver io.EOF together with the last bytes
}

func (r *ChunkReader) Read(p []byte) (int, error) {
	if len(r.Data) == 0 {
		return 0, io.EOF
	}
	if len(p) == 0 {
		return 0, nil
	}
	n := len(p)
	if len(r.Sizes) > 0 {
		if s := r.Sizes[r.i%len(r.Sizes)]; s > 0 && s < n {
			n = s
		}
		r.i++
	}
	n = copy(p[:n], r.Data)
	r.Data = r.Data[n:]
	if len(r.Data) == 0 && r.EOFed {
		return n, io.EOF
	}
	return n, nil
}

// Chunked draws a reader delivering the data in small pieces.
func Chunked(t *T, data []byte) *ChunkReader {
	k := rapid.IntRange(1, 4).Draw(t, "chunks")
	r := &ChunkReader{Data: data, EOFed: rapid.Bool().Draw(t, "eofWithData")}
	for i := 0; i < k; i++ {
		r.Sizes = append(r.Sizes, rapid.SampledFrom([]int{1, 2, 3, 5, 7, 16, 100, 1000, 4096}).Draw(t, "chunk"))
	}
	return r
}

// FaultWriter fails after N bytes. With Short, the failing call writes the
// bytes that still fit and reports the error with a short count.
type FaultWriter struct {
	N     int
	Err   error
	Wrote int
	Hit   bool
}

func (w *FaultWriter) Write(p []byte) (int, error) {
	if w.Wrote+len(p) > w.N {
		n := w.N - w.Wrote
		if n < 0 {
			n = 0
		}
		w.Wrote += n
		w.Hit = true
		return n, w.Err
	}
	w.Wrote += len(p)
	return len(p), nil
}
