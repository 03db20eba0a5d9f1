package reflchk

import (
	"fmt"
	"io"
	"reflect"
	"runtime"
	"testing"
	"unsafe"

	"github.com/v2pro/plz/reflect2"
	"pgregory.net/rapid"
	"verifharness/hz"
)

// boxOf is a struct of one field: of the layout of typ, but another type.
func boxOf(typ reflect.Type) reflect.Type {
	return reflect.StructOf([]reflect.StructField{{Name: "X", Type: typ}})
}

func mustPanic(t *rapid.T, what string, f func()) {
	panicked := true
	func() {
		defer func() { recover() }()
		f()
		panicked = false
	}()
	if !panicked {
		t.Fatalf("%s did not panic", what)
	}
}

func nullable(kind reflect.Kind) bool {
	switch kind {
	case reflect.Ptr, reflect.Map, reflect.Chan, reflect.Func, reflect.Slice, reflect.Interface:
		return true
	}
	return false
}

// direct tells whether an interface holds values of the type without a pointer in between.
func direct(typ reflect.Type) bool {
	switch typ.Kind() {
	case reflect.Ptr, reflect.Map, reflect.Chan, reflect.Func, reflect.UnsafePointer:
		return true
	case reflect.Struct:
		return typ.NumField() == 1 && direct(typ.Field(0).Type)
	case reflect.Array:
		return typ.Len() == 1 && direct(typ.Elem())
	}
	return false
}

func exported(typ reflect.Type) bool {
	if typ.Kind() != reflect.Struct {
		return true
	}
	for i := 0; i < typ.NumField(); i++ {
		if typ.Field(i).PkgPath != "" {
			return false
		}
	}
	return true
}

func TestC11_access(t *testing.T) {
	others := []reflect.Type{errorType, anyType, readType, reflect.TypeOf(0), reflect.TypeOf(""), reflect.TypeOf(ErrVal{}), reflect.TypeOf(&ErrPtr{})}
	hz.Run(t, 60000, "types (scalars, pointer-shaped, nested, embedded, generated structs and arrays) x values x safe and unsafe configuration; every field, promoted field and index is read and written next to guard bytes; non-trivial: struct or array with at least two parts, or a pointer-shaped type", func(t *rapid.T, c *hz.Case) {
		typ := drawType(t, rapid.IntRange(0, 3).Draw(t, "depth"))
		if rapid.IntRange(0, 2).Draw(t, "wantStruct") == 0 {
			typ = drawStruct(t, 2)
		}
		a, b := guard(typ), guard(typ)
		fill(t, a.v(), 3)
		fill(t, b.v(), 3)
		isSafe := rapid.Bool().Draw(t, "safe")
		c.Desc("%v safe=%v %s %s", typ, isSafe, show(a.v()), show(b.v()))
		c.NonTrivial(typ.Kind() == reflect.Struct && typ.NumField() > 1 || typ.Kind() == reflect.Array && typ.Len() > 1 || direct(typ))
		var api reflect2.API = reflect2.ConfigUnsafe
		if isSafe {
			api = reflect2.ConfigSafe
		}
		type2 := api.Type2(typ)

		// what the type says about itself
		if type2.Type1() != typ || type2.Kind() != typ.Kind() || type2.String() != typ.String() {
			t.Fatalf("%v is described as %v %v %v", typ, type2.Type1(), type2.Kind(), type2)
		}
		if api.Type2(typ) != type2 {
			t.Fatalf("Type2(%v) is not the same each time", typ)
		}
		if typ.Kind() != reflect.Interface {
			if got := api.TypeOf(a.v().Interface()); got != type2 {
				t.Fatalf("TypeOf(%v value) is %v", typ, got)
			}
		}
		for _, other := range others {
			that := api.Type2(other)
			if other.Kind() == reflect.Interface && type2.Implements(that) != typ.Implements(other) {
				t.Fatalf("%v Implements(%v)=%v", typ, other, type2.Implements(that))
			}
			if type2.AssignableTo(that) != typ.AssignableTo(other) {
				t.Fatalf("%v AssignableTo(%v)=%v", typ, other, type2.AssignableTo(that))
			}
		}
		if type2.IsNullable() != nullable(typ.Kind()) || reflect2.IsNullable(typ.Kind()) != nullable(typ.Kind()) {
			t.Fatalf("%v IsNullable=%v", typ, type2.IsNullable())
		}
		if !isSafe {
			if type2.LikePtr() != direct(typ) {
				t.Fatalf("%v LikePtr=%v", typ, type2.LikePtr())
			}
			if typ.Kind() != reflect.Interface && type2.RType() != reflect2.RTypeOf(a.v().Interface()) {
				t.Fatalf("%v RType differs", typ)
			}
			if got := reflect2.PtrTo(type2).Type1(); got != reflect.PtrTo(typ) {
				t.Fatalf("PtrTo(%v)=%v", typ, got)
			}
			if got := reflect2.TypeOfPtr(a.ptr()).Elem(); got != type2 {
				t.Fatalf("TypeOfPtr(*%v).Elem()=%v", typ, got)
			}
		}

		// new values are zero and their own
		fresh := type2.New()
		if reflect.TypeOf(fresh) != reflect.PtrTo(typ) || !same(reflect.ValueOf(fresh).Elem(), reflect.Zero(typ)) {
			t.Fatalf("New of %v: %T %v", typ, fresh, fresh)
		}
		if typ.Size() > 0 && type2.New() == fresh {
			t.Fatalf("New of %v twice the same", typ)
		}
		if !isSafe {
			ptr := type2.UnsafeNew()
			packed := type2.PackEFace(ptr)
			if reflect.TypeOf(packed) != reflect.PtrTo(typ) || reflect.ValueOf(packed).Pointer() != uintptr(ptr) || !same(reflect.ValueOf(packed).Elem(), reflect.Zero(typ)) {
				t.Fatalf("UnsafeNew/PackEFace of %v: %T %v", typ, packed, packed)
			}
		}

		// indirection gives the value
		if got := type2.Indirect(a.ptr()); !sameIface(got, a.v().Interface()) {
			t.Fatalf("Indirect of *%v: %#v, want %s", typ, got, show(a.v()))
		}
		if !isSafe {
			if got := type2.UnsafeIndirect(a.unsafePtr()); !sameIface(got, a.v().Interface()) {
				t.Fatalf("UnsafeIndirect of *%v: %#v, want %s", typ, got, show(a.v()))
			}
			if typ.Kind() != reflect.Interface {
				obj := a.v().Interface()
				if direct(typ) {
					word := reflect2.PtrOf(obj)
					if got := reflect.NewAt(typ, unsafe.Pointer(&word)).Elem(); !same(got, a.v()) {
						t.Fatalf("PtrOf of pointer-shaped %v is not its word", typ)
					}
				} else if got := reflect.NewAt(typ, reflect2.PtrOf(obj)).Elem(); !same(got, a.v()) {
					t.Fatalf("PtrOf of %v does not point to it: %s", typ, show(got))
				}
			}
			if typ.Kind() == reflect.Interface && typ.NumMethod() > 0 {
				if got := reflect2.IFaceToEFace(a.unsafePtr()); !sameIface(got, a.v().Interface()) {
					t.Fatalf("IFaceToEFace of %v: %#v", typ, got)
				}
			}
		}

		// nil
		if nullable(typ.Kind()) {
			for _, g := range []guarded{a, guard(typ)} {
				if got := type2.IsNil(g.ptr()); got != g.v().IsNil() {
					t.Fatalf("IsNil of %v %s: %v", typ, show(g.v()), got)
				}
				if !isSafe && type2.UnsafeIsNil(g.unsafePtr()) != g.v().IsNil() {
					t.Fatalf("UnsafeIsNil of %v %s: %v", typ, show(g.v()), !g.v().IsNil())
				}
			}
			if !type2.IsNil(nil) || !isSafe && !type2.UnsafeIsNil(nil) {
				t.Fatalf("IsNil(nil) of %v is false", typ)
			}
			switch typ.Kind() {
			case reflect.Ptr, reflect.Map, reflect.Chan, reflect.Func:
				if got := reflect2.IsNil(a.v().Interface()); got != a.v().IsNil() {
					t.Fatalf("reflect2.IsNil of %v %s: %v", typ, show(a.v()), got)
				}
			}
		} else if !isSafe && typ.Kind() != reflect.UnsafePointer && (type2.IsNil(a.ptr()) || type2.UnsafeIsNil(a.unsafePtr())) {
			t.Fatalf("%v is nil", typ)
		}

		// parts
		switch typ.Kind() {
		case reflect.Struct:
			checkStruct(t, typ, type2.(reflect2.StructType), a, b, isSafe)
		case reflect.Array:
			checkArray(t, typ, type2.(reflect2.ListType), a, b, isSafe)
		case reflect.Ptr:
			if got := type2.(reflect2.PtrType).Elem(); got != api.Type2(typ.Elem()) {
				t.Fatalf("%v has Elem %v", typ, got)
			}
		case reflect.Interface:
			if got := type2.(reflect2.InterfaceType).NumMethod(); got != typ.NumMethod() {
				t.Fatalf("%v has %d methods", typ, got)
			}
		}
		a.check(t, "access")
		b.check(t, "access")

		// copying
		wantB := clone(b.v())
		if rapid.Bool().Draw(t, "unsafeSet") && !isSafe {
			type2.UnsafeSet(a.unsafePtr(), b.unsafePtr())
		} else {
			type2.Set(a.ptr(), b.ptr())
		}
		a.check(t, "Set")
		b.check(t, "Set")
		if !same(a.v(), wantB) || !same(b.v(), wantB) {
			t.Fatalf("Set of %v: %s and %s, want %s", typ, show(a.v()), show(b.v()), show(wantB))
		}
		if !isSafe {
			wrong := reflect.New(reflect.PtrTo(typ)).Interface()
			mustPanic(t, fmt.Sprintf("Set of %v from %T", typ, wrong), func() { type2.Set(a.ptr(), wrong) })
			mustPanic(t, fmt.Sprintf("Set of %v into %T", typ, wrong), func() { type2.Set(wrong, b.ptr()) })
			mustPanic(t, fmt.Sprintf("Indirect of %v from %T", typ, wrong), func() { type2.Indirect(wrong) })
			mustPanic(t, fmt.Sprintf("IsNil of %v from %T", typ, wrong), func() { type2.IsNil(wrong) })
			if !same(a.v(), wantB) {
				t.Fatalf("refused Set of %v changed the value", typ)
			}
		}
	})
}

func checkStruct(t *rapid.T, typ reflect.Type, type2 reflect2.StructType, a, b guarded, isSafe bool) {
	if type2.NumField() != typ.NumField() {
		t.Fatalf("%v has %d fields", typ, type2.NumField())
	}
	one := func(what string, field reflect2.StructField, want reflect.StructField, path []int, indexPromised bool) {
		if field.Name() != want.Name || field.PkgPath() != want.PkgPath || field.Tag() != want.Tag || field.Offset() != want.Offset ||
			field.Anonymous() != want.Anonymous || field.Type().Type1() != want.Type {
			t.Fatalf("%s of %v: %s %q %q %d %v %v, want %+v", what, typ, field.Name(), field.PkgPath(), field.Tag(), field.Offset(), field.Anonymous(), field.Type(), want)
		}
		if indexPromised && !reflect.DeepEqual(field.Index(), want.Index) {
			t.Fatalf("%s of %v: index %v, want %v", what, typ, field.Index(), want.Index)
		}
		if isSafe && (field.PkgPath() != "" || !visible(typ, path)) {
			return // reflection refuses unexported fields
		}
		va, ok := follow(a.v(), path)
		vb, ok2 := follow(b.v(), path)
		if !ok {
			mustPanic(t, fmt.Sprintf("%s of %v through a nil pointer", what, typ), func() { field.Get(a.ptr()) })
			return
		}
		got := field.Get(a.ptr())
		if reflect.TypeOf(got) != reflect.PtrTo(want.Type) || !same(reflect.ValueOf(got).Elem(), va) {
			t.Fatalf("%s of %v: Get gives %T %v, want %s", what, typ, got, got, show(va))
		}
		if !isSafe {
			if ptr := field.UnsafeGet(a.unsafePtr()); uintptr(ptr) != va.UnsafeAddr() {
				t.Fatalf("%s of %v: UnsafeGet is %d bytes off", what, typ, int64(uintptr(ptr))-int64(va.UnsafeAddr()))
			}
		}
		if !ok2 {
			return
		}
		// write the field of b into a: only this field of a changes
		before := clone(a.v())
		wantField := clone(vb)
		oldField := clone(va)
		value := reflect.New(want.Type)
		value.Elem().Set(settable(vb))
		if isSafe || rapid.Bool().Draw(t, "typedSet") {
			field.Set(a.ptr(), value.Interface())
		} else {
			field.UnsafeSet(a.unsafePtr(), unsafe.Pointer(value.Pointer()))
		}
		if !same(va, wantField) {
			t.Fatalf("%s of %v: after Set %s, want %s", what, typ, show(va), show(wantField))
		}
		va.Set(oldField)
		if !same(a.v(), before) {
			t.Fatalf("%s of %v: Set changed more than the field: %s, was %s", what, typ, show(a.v()), show(before))
		}
		if !isSafe {
			wrong := reflect.New(reflect.PtrTo(want.Type)).Interface()
			mustPanic(t, fmt.Sprintf("%s of %v: Set from %T", what, typ, wrong), func() { field.Set(a.ptr(), wrong) })
			mustPanic(t, fmt.Sprintf("%s of %v: Set into %T", what, typ, wrong), func() { field.Set(wrong, value.Interface()) })
			mustPanic(t, fmt.Sprintf("%s of %v: Get from %T", what, typ, wrong), func() { field.Get(wrong) })
		}
	}
	for i := 0; i < typ.NumField(); i++ {
		one(fmt.Sprintf("Field(%d)", i), type2.Field(i), typ.Field(i), []int{i}, true)
	}
	for _, f := range reflect.VisibleFields(typ) {
		want, found := typ.FieldByName(f.Name)
		if !found {
			continue
		}
		one(fmt.Sprintf("FieldByName(%s)", f.Name), type2.FieldByName(f.Name), want, want.Index, true)
		one(fmt.Sprintf("FieldByIndex(%v)", f.Index), type2.FieldByIndex(f.Index), typ.FieldByIndex(f.Index), f.Index, false)
	}
	for _, path := range nestedPaths(typ, nil) {
		one(fmt.Sprintf("FieldByIndex(%v)", path), type2.FieldByIndex(path), typ.FieldByIndex(path), path, false)
	}
	if typ.NumField() > 0 {
		name := typ.Field(typ.NumField() - 1).Name
		match := func(s string) bool { return s == name }
		if want, found := typ.FieldByNameFunc(match); found {
			one("FieldByNameFunc", type2.FieldByNameFunc(match), want, want.Index, true)
		}
	}
	var missing reflect2.StructField
	if hz.NoPanic(func() { missing = type2.FieldByName("noSuchField") }) == nil && missing != nil {
		t.Fatalf("%v has a field noSuchField: %v", typ, missing)
	}
}

// nestedPaths leads to the fields of fields that are structs by value.
func nestedPaths(typ reflect.Type, prefix []int) (paths [][]int) {
	if len(prefix) > 2 {
		return nil
	}
	for i := 0; i < typ.NumField(); i++ {
		path := append(append([]int{}, prefix...), i)
		if len(path) > 1 {
			paths = append(paths, path)
		}
		if typ.Field(i).Type.Kind() == reflect.Struct {
			paths = append(paths, nestedPaths(typ.Field(i).Type, path)...)
		}
	}
	return paths
}

// visible: every field on the path is exported.
func visible(typ reflect.Type, path []int) bool {
	for _, i := range path {
		if typ.Kind() == reflect.Ptr {
			typ = typ.Elem()
		}
		f := typ.Field(i)
		if f.PkgPath != "" {
			return false
		}
		typ = f.Type
	}
	return true
}

func follow(v reflect.Value, path []int) (reflect.Value, bool) {
	for n, i := range path {
		if n > 0 && v.Kind() == reflect.Ptr {
			if v.IsNil() {
				return v, false
			}
			v = v.Elem()
		}
		v = settable(v.Field(i))
	}
	return v, true
}

func checkArray(t *rapid.T, typ reflect.Type, type2 reflect2.ListType, a, b guarded, isSafe bool) {
	if type2.Elem().Type1() != typ.Elem() {
		t.Fatalf("%v has elem %v", typ, type2.Elem())
	}
	if arrayType, ok := type2.(reflect2.ArrayType); !ok || arrayType.Len() != typ.Len() {
		t.Fatalf("%v is no ArrayType of its length", typ)
	}
	for i := 0; i < typ.Len(); i++ {
		va := a.v().Index(i)
		got := type2.GetIndex(a.ptr(), i)
		if reflect.TypeOf(got) != reflect.PtrTo(typ.Elem()) || !same(reflect.ValueOf(got).Elem(), va) {
			t.Fatalf("GetIndex(%d) of %v: %T %v, want %s", i, typ, got, got, show(va))
		}
		if !isSafe {
			if ptr := type2.UnsafeGetIndex(a.unsafePtr(), i); uintptr(ptr) != va.UnsafeAddr() {
				t.Fatalf("UnsafeGetIndex(%d) of %v is %d bytes off", i, typ, int64(uintptr(ptr))-int64(va.UnsafeAddr()))
			}
		}
		before := clone(a.v())
		value := reflect.New(typ.Elem())
		value.Elem().Set(b.v().Index(i))
		if isSafe || rapid.Bool().Draw(t, "typedSet") {
			type2.SetIndex(a.ptr(), i, value.Interface())
		} else {
			type2.UnsafeSetIndex(a.unsafePtr(), i, unsafe.Pointer(value.Pointer()))
		}
		before.Index(i).Set(b.v().Index(i))
		if !same(a.v(), before) {
			t.Fatalf("SetIndex(%d) of %v: %s, want %s", i, typ, show(a.v()), show(before))
		}
		if !isSafe {
			wrong := reflect.New(reflect.PtrTo(typ.Elem())).Interface()
			mustPanic(t, fmt.Sprintf("SetIndex of %v from %T", typ, wrong), func() { type2.SetIndex(a.ptr(), i, wrong) })
			mustPanic(t, fmt.Sprintf("GetIndex of %v from %T", typ, wrong), func() { type2.GetIndex(wrong, i) })
			twin := reflect.New(reflect.ArrayOf(typ.Len(), boxOf(typ.Elem()))).Interface()
			mustPanic(t, fmt.Sprintf("SetIndex of %v in %T", typ, twin), func() { type2.SetIndex(twin, i, reflect.New(typ.Elem()).Interface()) })
			mustPanic(t, fmt.Sprintf("GetIndex of %v from %T", typ, twin), func() { type2.GetIndex(twin, i) })
		}
	}
}

// TestC11_names: types are found by their name.
func TestC11_names(t *testing.T) {
	known := map[string]interface{}{}
	for _, obj := range []interface{}{&OnePtr{}, &Base{}, &Deeper{}, &Embeds{}, &Padded{}, &Big{}, &ErrPtr{}, &hiddenT{}} {
		known[reflect.TypeOf(obj).Elem().String()] = obj
	}
	var names []string
	for name := range known {
		names = append(names, name)
	}
	for i := range names {
		for j := i + 1; j < len(names); j++ {
			if names[j] < names[i] {
				names[i], names[j] = names[j], names[i]
			}
		}
	}
	_ = io.EOF
	hz.Run(t, 100, "names of struct types of this binary; non-trivial: all", func(t *rapid.T, c *hz.Case) {
		name := rapid.SampledFrom(names).Draw(t, "name")
		c.Desc("%s", name)
		c.NonTrivial(true)
		if got := reflect2.TypeByName(name).Type1(); got != reflect.TypeOf(known[name]).Elem() {
			t.Fatalf("TypeByName(%s) is %v", name, got)
		}
	})
}

// TestC11_kinds: the default type of each kind.
func TestC11_kinds(t *testing.T) {
	plain := map[reflect.Kind]reflect.Type{}
	for _, v := range []interface{}{false, int(0), int8(0), int16(0), int32(0), int64(0), uint(0), uint8(0), uint16(0), uint32(0), uint64(0), uintptr(0), float32(0), float64(0), "", unsafe.Pointer(nil)} {
		plain[reflect.TypeOf(v).Kind()] = reflect.TypeOf(v)
	}
	hz.Run(t, 200, "kinds of types, with and without a default type; non-trivial: all", func(t *rapid.T, c *hz.Case) {
		kind := reflect.Kind(rapid.IntRange(1, int(reflect.UnsafePointer)).Draw(t, "kind"))
		c.Desc("%s", kind)
		c.NonTrivial(true)
		got := reflect2.DefaultTypeOfKind(kind)
		want := plain[kind]
		if got == nil {
			if want != nil && kind != reflect.Complex64 && kind != reflect.Complex128 {
				t.Fatalf("there is no default type for %v", kind)
			}
			return
		}
		if want == nil && got.Kind() != kind || want != nil && got.Type1() != want {
			t.Fatalf("the default type of %v is %v", kind, got)
		}
	})
}

var garbage [][]byte

// churn makes the collector reuse what is not referenced any more.
func churn() {
	runtime.GC()
	garbage = nil
	for i := 0; i < 200; i++ {
		b := make([]byte, 8<<uint(i%8))
		for j := range b {
			b[j] = 0xee
		}
		garbage = append(garbage, b)
	}
	garbage = nil
}
