package model

import (
	"fmt"
	"math"
	"reflect"
)

// Diff compares two values structurally; nil and empty slices are equal.
// It returns "" if they are equal, otherwise the path of the first difference.
func Diff(a, b interface{}) string {
	return diff(reflect.ValueOf(a), reflect.ValueOf(b), "")
}

func diff(a, b reflect.Value, p string) string {
	if a.IsValid() != b.IsValid() {
		return p + ": one value is missing"
	}
	if !a.IsValid() {
		return ""
	}
	if a.Type() != b.Type() {
		return fmt.Sprintf("%s: types %s and %s", p, a.Type(), b.Type())
	}
	switch a.Kind() {
	case reflect.Ptr, reflect.Interface:
		if a.IsNil() || b.IsNil() {
			if a.IsNil() != b.IsNil() {
				return p + ": nil against non-nil"
			}
			return ""
		}
		return diff(a.Elem(), b.Elem(), p)
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if d := diff(a.Field(i), b.Field(i), p+"."+a.Type().Field(i).Name); d != "" {
				return d
			}
		}
	case reflect.Slice, reflect.Array:
		if a.Kind() == reflect.Slice && a.Type().Elem().Kind() == reflect.Uint8 {
			if string(a.Bytes()) != string(b.Bytes()) {
				return fmt.Sprintf("%s: bytes %s and %s", p, short(a.Bytes()), short(b.Bytes()))
			}
			return ""
		}
		if a.Len() != b.Len() {
			return fmt.Sprintf("%s: %d and %d elements", p, a.Len(), b.Len())
		}
		for i := 0; i < a.Len(); i++ {
			if d := diff(a.Index(i), b.Index(i), fmt.Sprintf("%s[%d]", p, i)); d != "" {
				return d
			}
		}
	case reflect.Bool:
		if a.Bool() != b.Bool() {
			return fmt.Sprintf("%s: %v and %v", p, a.Bool(), b.Bool())
		}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		if a.Int() != b.Int() {
			return fmt.Sprintf("%s: %v and %v", p, a.Int(), b.Int())
		}
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		if a.Uint() != b.Uint() {
			return fmt.Sprintf("%s: %v and %v", p, a.Uint(), b.Uint())
		}
	case reflect.Float32, reflect.Float64:
		if math.Float64bits(a.Float()) != math.Float64bits(b.Float()) {
			return fmt.Sprintf("%s: %v and %v", p, a.Float(), b.Float())
		}
	case reflect.String:
		if a.String() != b.String() {
			return fmt.Sprintf("%s: %q and %q", p, clip(a.String()), clip(b.String()))
		}
	case reflect.Map:
		if a.Len() != b.Len() {
			return p + ": map sizes"
		}
		for _, k := range a.MapKeys() {
			v := b.MapIndex(k)
			if !v.IsValid() {
				return p + ": map keys"
			}
			if d := diff(a.MapIndex(k), v, p+"[k]"); d != "" {
				return d
			}
		}
	case reflect.Func, reflect.Chan:
	default:
		return p + ": cannot compare " + a.Kind().String()
	}
	return ""
}

func clip(s string) string {
	if len(s) > 60 {
		return s[:60] + fmt.Sprintf("...(%d)", len(s))
	}
	return s
}
func short(b []byte) string {
	if len(b) > 24 {
		return fmt.Sprintf("%x...(%d)", b[:24], len(b))
	}
	return fmt.Sprintf("%x(%d)", b, len(b))
}

// DeepCopy copies a value graph (exported fields only, as boxes have them).
func DeepCopy(a interface{}) interface{} { return deepCopy(reflect.ValueOf(a)).Interface() }

func deepCopy(v reflect.Value) reflect.Value {
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			return v
		}
		n := reflect.New(v.Type().Elem())
		n.Elem().Set(deepCopy(v.Elem()))
		return n
	case reflect.Struct:
		n := reflect.New(v.Type()).Elem()
		n.Set(v)
		for i := 0; i < v.NumField(); i++ {
			if n.Field(i).CanSet() {
				n.Field(i).Set(deepCopy(v.Field(i)))
			}
		}
		return n
	case reflect.Slice:
		if v.IsNil() {
			return v
		}
		n := reflect.MakeSlice(v.Type(), v.Len(), v.Len())
		if v.Type().Elem().Kind() == reflect.Uint8 {
			reflect.Copy(n, v)
			return n
		}
		for i := 0; i < v.Len(); i++ {
			n.Index(i).Set(deepCopy(v.Index(i)))
		}
		return n
	case reflect.Array:
		n := reflect.New(v.Type()).Elem()
		n.Set(v)
		for i := 0; i < v.Len(); i++ {
			n.Index(i).Set(deepCopy(v.Index(i)))
		}
		return n
	case reflect.Interface:
		if v.IsNil() {
			return v
		}
		return deepCopy(v.Elem())
	}
	return v
}
