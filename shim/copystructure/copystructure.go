// Package copystructure is an offline stand-in for
// github.com/mitchellh/copystructure: a reflective deep copy.
package copystructure

import "reflect"

// Copy returns a deep copy of v.
func Copy(v interface{}) (interface{}, error) {
	if v == nil {
		return nil, nil
	}
	return deep(reflect.ValueOf(v)).Interface(), nil
}

// Must panics when err is not nil.
func Must(v interface{}, err error) interface{} {
	if err != nil {
		panic(err)
	}
	return v
}

// Config mirrors the upstream configuration type.
type Config struct{ Lock bool }

// Copy returns a deep copy of v.
func (Config) Copy(v interface{}) (interface{}, error) { return Copy(v) }

func deep(v reflect.Value) reflect.Value {
	switch v.Kind() {
	case reflect.Interface:
		if v.IsNil() {
			return v
		}
		r := reflect.New(v.Type()).Elem()
		r.Set(deep(v.Elem()))
		return r
	case reflect.Ptr:
		if v.IsNil() {
			return v
		}
		r := reflect.New(v.Type().Elem())
		r.Elem().Set(deep(v.Elem()))
		return r
	case reflect.Map:
		if v.IsNil() {
			return v
		}
		r := reflect.MakeMapWithSize(v.Type(), v.Len())
		for _, k := range v.MapKeys() {
			r.SetMapIndex(deep(k), deep(v.MapIndex(k)))
		}
		return r
	case reflect.Slice:
		if v.IsNil() {
			return v
		}
		r := reflect.MakeSlice(v.Type(), v.Len(), v.Len())
		for i := 0; i < v.Len(); i++ {
			r.Index(i).Set(deep(v.Index(i)))
		}
		return r
	case reflect.Array:
		r := reflect.New(v.Type()).Elem()
		for i := 0; i < v.Len(); i++ {
			r.Index(i).Set(deep(v.Index(i)))
		}
		return r
	case reflect.Struct:
		r := reflect.New(v.Type()).Elem()
		r.Set(v)
		for i := 0; i < v.NumField(); i++ {
			if r.Field(i).CanSet() {
				r.Field(i).Set(deep(v.Field(i)))
			}
		}
		return r
	}
	return v
}
