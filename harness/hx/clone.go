package hx

import "reflect"

// Clone makes a deep copy (exported fields; unexported ones are copied shallowly).
func Clone[T any](x T) T {
	return cloneValue(reflect.ValueOf(&x).Elem()).Interface().(T)
}

func cloneValue(v reflect.Value) reflect.Value {
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			return v
		}
		p := reflect.New(v.Type().Elem())
		p.Elem().Set(cloneValue(v.Elem()))
		return p
	case reflect.Interface:
		if v.IsNil() {
			return v
		}
		r := reflect.New(v.Type()).Elem()
		r.Set(cloneValue(v.Elem()))
		return r
	case reflect.Struct:
		r := reflect.New(v.Type()).Elem()
		r.Set(v)
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).PkgPath == "" {
				r.Field(i).Set(cloneValue(v.Field(i)))
			}
		}
		return r
	case reflect.Slice:
		if v.IsNil() {
			return v
		}
		r := reflect.MakeSlice(v.Type(), v.Len(), v.Len())
		for i := 0; i < v.Len(); i++ {
			r.Index(i).Set(cloneValue(v.Index(i)))
		}
		return r
	case reflect.Array:
		r := reflect.New(v.Type()).Elem()
		for i := 0; i < v.Len(); i++ {
			r.Index(i).Set(cloneValue(v.Index(i)))
		}
		return r
	case reflect.Map:
		if v.IsNil() {
			return v
		}
		r := reflect.MakeMap(v.Type())
		for _, k := range v.MapKeys() {
			r.SetMapIndex(k, cloneValue(v.MapIndex(k)))
		}
		return r
	}
	return v
}
