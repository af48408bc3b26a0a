package mcsched

import (
	"bytes"
	"reflect"
	"strings"
	"unsafe"
)

// SaveVar saves what p points to, and what is reached from there in a few steps, and returns a function restoring it.
func SaveVar(p any) func() {
	var fs []func()
	save(reflect.ValueOf(p).Elem(), 3, &fs)
	return func() {
		for _, f := range fs {
			f()
		}
	}
}

func save(v reflect.Value, depth int, fs *[]func()) {
	v = reflect.NewAt(v.Type(), unsafe.Pointer(v.UnsafeAddr())).Elem()
	old := reflect.New(v.Type()).Elem()
	old.Set(v)
	*fs = append(*fs, func() {
		if !bytes.Equal(mem(v), mem(old)) { // unchanged variables may lie in read-only memory
			v.Set(old)
		}
	})
	if pk := v.Type().PkgPath(); depth == 0 || pk == "sync" || strings.HasPrefix(pk, "sync/") || strings.HasPrefix(pk, "internal/") {
		return
	}
	switch v.Kind() {
	case reflect.Map:
		if v.IsNil() {
			return
		}
		type kv struct{ k, v reflect.Value }
		var all []kv
		for it := v.MapRange(); it.Next(); {
			all = append(all, kv{it.Key(), it.Value()})
		}
		*fs = append(*fs, func() {
			old.Clear()
			for _, x := range all {
				old.SetMapIndex(x.k, x.v)
			}
		})
	case reflect.Slice:
		n := v.Len()
		if n == 0 || n > 1<<16 {
			return
		}
		c := reflect.MakeSlice(v.Type(), n, n)
		reflect.Copy(c, v)
		*fs = append(*fs, func() {
			for i := 0; i < n; i++ {
				if x, y := old.Index(i), c.Index(i); !bytes.Equal(mem(x), mem(y)) {
					x.Set(y)
				}
			}
		})
	case reflect.Pointer:
		if !v.IsNil() {
			save(v.Elem(), depth-1, fs)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			save(v.Field(i), depth-1, fs)
		}
	}
}

// mem is the memory a variable occupies.
func mem(v reflect.Value) []byte {
	return unsafe.Slice((*byte)(unsafe.Pointer(v.UnsafeAddr())), v.Type().Size())
}
