package core

import (
	"fmt"
	"reflect"
	"unsafe"
)

// FieldByType returns an addressable, settable view of the only field of
// struct *ptr (exported or not) that has type T. Fields are looked up by type,
// never by name, so that renaming them does not matter.
func FieldByType[T any](ptr any) (*T, error) {
	v := reflect.ValueOf(ptr)
	if v.Kind() != reflect.Pointer || v.Elem().Kind() != reflect.Struct {
		return nil, fmt.Errorf("not a pointer to struct: %T", ptr)
	}
	v = v.Elem()
	want := reflect.TypeFor[T]()
	for i := 0; i < v.NumField(); i++ {
		f := v.Field(i)
		if f.Type() == want {
			return (*T)(unsafe.Pointer(f.UnsafeAddr())), nil
		}
	}
	return nil, fmt.Errorf("%T has no field of type %v", ptr, want)
}

// SetByType sets the only field of that type.
func SetByType[T any](ptr any, val T) error {
	p, err := FieldByType[T](ptr)
	if err != nil {
		return err
	}
	*p = val
	return nil
}

// CallOnUnexportedFields calls the niladic method on every pointer field of
// *ptr whose type has it (used for best-effort cleanup only).
func CallOnUnexportedFields(ptr any, method string) {
	defer func() { _ = recover() }()
	v := reflect.ValueOf(ptr).Elem()
	for i := 0; i < v.NumField(); i++ {
		f := v.Field(i)
		if f.Kind() != reflect.Pointer || f.IsNil() {
			continue
		}
		f = reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem()
		if m := f.MethodByName(method); m.IsValid() && m.Type().NumIn() == 0 {
			func() {
				defer func() { _ = recover() }()
				m.Call(nil)
			}()
		}
	}
}
