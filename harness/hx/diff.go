package hx

import (
	"fmt"
	"math"
	"reflect"
	"strings"
)

// Diff returns the first difference between two values (following pointers, nil
// and empty slices/maps being the same), or "" if there is none. Floats may
// differ by tol (relative to max(1,|x|)); fields whose "Type.Field" is in skip
// are ignored.
func Diff(got, want interface{}, tol float64, skip ...string) string {
	sk := map[string]bool{}
	for _, s := range skip {
		sk[s] = true
	}
	return diff("", reflect.ValueOf(got), reflect.ValueOf(want), tol, sk, 0)
}

func diff(path string, a, b reflect.Value, tol float64, skip map[string]bool, depth int) string {
	if depth > 60 {
		return ""
	}
	if !a.IsValid() || !b.IsValid() {
		if a.IsValid() != b.IsValid() {
			return fmt.Sprintf("%s: got %v, want %v", path, show(a), show(b))
		}
		return ""
	}
	if a.Type() != b.Type() {
		return fmt.Sprintf("%s: got type %v (%s), want type %v (%s)", path, a.Type(), show(a), b.Type(), show(b))
	}
	switch a.Kind() {
	case reflect.Ptr, reflect.Interface:
		if a.IsNil() || b.IsNil() {
			if a.IsNil() != b.IsNil() {
				return fmt.Sprintf("%s: got %s, want %s", path, show(a), show(b))
			}
			return ""
		}
		return diff(path, a.Elem(), b.Elem(), tol, skip, depth+1)
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			f := a.Type().Field(i)
			if f.PkgPath != "" && !f.Anonymous || skip[a.Type().Name()+"."+f.Name] {
				continue
			}
			if d := diff(path+"."+f.Name, a.Field(i), b.Field(i), tol, skip, depth+1); d != "" {
				return d
			}
		}
		return ""
	case reflect.Slice, reflect.Array:
		if a.Len() != b.Len() {
			return fmt.Sprintf("%s: got %d elements, want %d: %s / %s", path, a.Len(), b.Len(), show(a), show(b))
		}
		for i := 0; i < a.Len(); i++ {
			if d := diff(fmt.Sprintf("%s[%d]", path, i), a.Index(i), b.Index(i), tol, skip, depth+1); d != "" {
				return d
			}
		}
		return ""
	case reflect.Map:
		for _, k := range b.MapKeys() {
			if !a.MapIndex(k).IsValid() {
				return fmt.Sprintf("%s: missing key %v", path, k)
			}
			if d := diff(fmt.Sprintf("%s[%v]", path, k), a.MapIndex(k), b.MapIndex(k), tol, skip, depth+1); d != "" {
				return d
			}
		}
		for _, k := range a.MapKeys() {
			if !b.MapIndex(k).IsValid() {
				return fmt.Sprintf("%s: unexpected key %v", path, k)
			}
		}
		return ""
	case reflect.Float32, reflect.Float64:
		x, y := a.Float(), b.Float()
		if x == y || math.IsNaN(x) && math.IsNaN(y) {
			return ""
		}
		if math.Abs(x-y) <= tol*math.Max(1, math.Abs(y)) {
			return ""
		}
		return fmt.Sprintf("%s: got %v, want %v", path, x, y)
	case reflect.Func, reflect.Chan, reflect.UnsafePointer:
		return ""
	}
	if a.CanInterface() && a.Interface() != b.Interface() {
		return fmt.Sprintf("%s: got %#v, want %#v", path, a.Interface(), b.Interface())
	}
	return ""
}

func show(v reflect.Value) string {
	if !v.IsValid() {
		return "<none>"
	}
	s := Dump(v)
	if len(s) > 300 {
		s = s[:300] + "..."
	}
	return s
}

// Dump renders a value following pointers.
func Dump(x interface{}) string {
	v, ok := x.(reflect.Value)
	if !ok {
		v = reflect.ValueOf(x)
	}
	var sb strings.Builder
	dump(&sb, v, 0)
	return sb.String()
}

func dump(sb *strings.Builder, v reflect.Value, depth int) {
	if depth > 30 || sb.Len() > 60000 {
		sb.WriteString("...")
		return
	}
	if !v.IsValid() {
		sb.WriteString("nil")
		return
	}
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if v.IsNil() {
			sb.WriteString("nil")
			return
		}
		dump(sb, v.Elem(), depth+1)
	case reflect.Struct:
		sb.WriteString("{")
		first := true
		for i := 0; i < v.NumField(); i++ {
			f := v.Type().Field(i)
			if f.PkgPath != "" && !f.Anonymous || f.Name == "XMLName" || v.Field(i).IsZero() {
				continue
			}
			if !first {
				sb.WriteString(" ")
			}
			first = false
			sb.WriteString(f.Name + ":")
			dump(sb, v.Field(i), depth+1)
		}
		sb.WriteString("}")
	case reflect.Slice, reflect.Array:
		sb.WriteString("[")
		for i := 0; i < v.Len(); i++ {
			if i > 0 {
				sb.WriteString(" ")
			}
			dump(sb, v.Index(i), depth+1)
		}
		sb.WriteString("]")
	case reflect.String:
		fmt.Fprintf(sb, "%q", v.String())
	case reflect.Map:
		sb.WriteString("map[")
		for _, k := range v.MapKeys() {
			dump(sb, k, depth+1)
			sb.WriteString(":")
			dump(sb, v.MapIndex(k), depth+1)
			sb.WriteString(" ")
		}
		sb.WriteString("]")
	case reflect.Func:
		sb.WriteString("func")
	default:
		if v.CanInterface() {
			fmt.Fprintf(sb, "%v", v.Interface())
		} else {
			fmt.Fprintf(sb, "%v", v)
		}
	}
}
