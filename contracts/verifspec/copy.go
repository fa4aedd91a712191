package verifspec

import (
	"reflect"
	"unsafe"
)

func deepCopy[T any](x T) T {
	seen := map[unsafe.Pointer]reflect.Value{}
	v := reflect.ValueOf(&x).Elem()
	return copyVal(v, seen).Interface().(T)
}

func copyVal(v reflect.Value, seen map[unsafe.Pointer]reflect.Value) reflect.Value {
	switch v.Kind() {
	case reflect.Pointer:
		if v.IsNil() {
			return v
		}
		if c, ok := seen[v.UnsafePointer()]; ok {
			return c
		}
		n := reflect.New(v.Type().Elem())
		seen[v.UnsafePointer()] = n
		n.Elem().Set(copyVal(v.Elem(), seen))
		return n
	case reflect.Struct:
		n := reflect.New(v.Type()).Elem()
		n.Set(v)
		for i := 0; i < v.NumField(); i++ {
			src := n.Field(i)
			src = reflect.NewAt(src.Type(), unsafe.Pointer(src.UnsafeAddr())).Elem()
			src.Set(copyVal(src, seen))
		}
		return n
	case reflect.Slice:
		if v.IsNil() {
			return v
		}
		n := reflect.MakeSlice(v.Type(), v.Len(), v.Len())
		for i := 0; i < v.Len(); i++ {
			n.Index(i).Set(copyVal(v.Index(i), seen))
		}
		return n
	case reflect.Map:
		if v.IsNil() {
			return v
		}
		n := reflect.MakeMap(v.Type())
		for _, k := range v.MapKeys() {
			n.SetMapIndex(k, copyVal(v.MapIndex(k), seen))
		}
		return n
	case reflect.Interface:
		if v.IsNil() {
			return v
		}
		n := reflect.New(v.Type()).Elem()
		n.Set(copyVal(v.Elem(), seen))
		return n
	}
	return v
}
