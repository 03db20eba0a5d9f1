package reflchk

import (
	"errors"
	"fmt"
	"io"
	"math"
	"reflect"
	"testing"
	"unsafe"

	"pgregory.net/rapid"
	"verifharness/hz"
)

func TestMain(m *testing.M) { hz.Main(m) }

type (
	NamedInt int32
	NamedStr string
	OnePtr   struct{ P *int }
	OneMap   struct{ M map[string]int }
	OneFunc  struct{ F func() }
	OneChan  struct{ C chan int }
	OneArr   [1]*int
	OneNest  struct{ In [1]OnePtr }
	OneInt   struct{ N int64 }
	OneIface struct{ E error }
	OneAny   struct{ A interface{} }
	OneUns   struct{ U unsafe.Pointer }
	Zero     struct{}
	ZeroPtr  struct {
		Z Zero
		P *int
	}
	Base struct {
		ID   int16
		Name string
		Deep Deeper
	}
	Deeper struct {
		X uint8
		Y *string
	}
	Embeds struct {
		Pad byte
		Base
		Extra NamedStr
	}
	EmbedsPtr struct {
		Pad [3]byte
		*Base
		Other Deeper
	}
	Twice struct {
		A uint8
		Embeds
		*OnePtr
		hidden int
	}
	Padded struct {
		A bool
		B int64
		C bool
		D int16
		E float32
		F complex128
		G [3]byte
		H interface{}
		I error
		J []string
		K map[int]string
	}
	Big struct {
		Data [40]int64
		Ptr  *int
	}
	ErrVal  struct{ Code int }
	ErrPtr  struct{ Code int }
	hiddenT struct {
		a int8
		b string
		C *int
	}
)

func (e ErrVal) Error() string  { return fmt.Sprint("val ", e.Code) }
func (e *ErrPtr) Error() string { return fmt.Sprint("ptr ", e.Code) }
func (o OneInt) Error() string  { return "one" }
func (o OnePtr) Error() string  { return "oneptr" }

func typeOf(ptr interface{}) reflect.Type { return reflect.TypeOf(ptr).Elem() }

var (
	errorType = typeOf((*error)(nil))
	anyType   = typeOf((*interface{})(nil))
	readType  = typeOf((*io.Reader)(nil))
)

var leafTypes = []reflect.Type{
	reflect.TypeOf(false), reflect.TypeOf(int(0)), reflect.TypeOf(int8(0)), reflect.TypeOf(int16(0)), reflect.TypeOf(int32(0)), reflect.TypeOf(int64(0)),
	reflect.TypeOf(uint(0)), reflect.TypeOf(uint8(0)), reflect.TypeOf(uint16(0)), reflect.TypeOf(uint32(0)), reflect.TypeOf(uint64(0)), reflect.TypeOf(uintptr(0)),
	reflect.TypeOf(float32(0)), reflect.TypeOf(float64(0)), reflect.TypeOf(complex64(0)), reflect.TypeOf(complex128(0)), reflect.TypeOf(""),
	reflect.TypeOf(NamedInt(0)), reflect.TypeOf(NamedStr("")), reflect.TypeOf([]byte(nil)), reflect.TypeOf((*int)(nil)), reflect.TypeOf(unsafe.Pointer(nil)),
	reflect.TypeOf(func() {}), reflect.TypeOf(make(chan int)), anyType, errorType,
}

var structTypes = []reflect.Type{
	reflect.TypeOf(OnePtr{}), reflect.TypeOf(OneMap{}), reflect.TypeOf(OneFunc{}), reflect.TypeOf(OneChan{}), reflect.TypeOf(OneArr{}), reflect.TypeOf(OneNest{}),
	reflect.TypeOf(OneInt{}), reflect.TypeOf(OneIface{}), reflect.TypeOf(OneAny{}), reflect.TypeOf(OneUns{}), reflect.TypeOf(Zero{}), reflect.TypeOf(ZeroPtr{}),
	reflect.TypeOf(Base{}), reflect.TypeOf(Deeper{}), reflect.TypeOf(Embeds{}), reflect.TypeOf(EmbedsPtr{}), reflect.TypeOf(Twice{}), reflect.TypeOf(Padded{}),
	reflect.TypeOf(Big{}), reflect.TypeOf(ErrVal{}), reflect.TypeOf(ErrPtr{}), reflect.TypeOf(hiddenT{}),
}

var keyTypes = []reflect.Type{
	reflect.TypeOf(""), reflect.TypeOf(NamedStr("")), reflect.TypeOf(int8(0)), reflect.TypeOf(int32(0)), reflect.TypeOf(int64(0)), reflect.TypeOf(uint16(0)),
	reflect.TypeOf(false), reflect.TypeOf(float64(0)), reflect.TypeOf([2]int8{}), reflect.TypeOf([1]string{}), reflect.TypeOf((*int)(nil)), reflect.TypeOf([40]int32{}),
	reflect.TypeOf(OneInt{}), reflect.TypeOf(OneUns{}), reflect.TypeOf(Zero{}), reflect.TypeOf(OneChan{}), anyType, errorType,
	reflect.TypeOf(float32(0)), reflect.TypeOf(complex128(0)), reflect.TypeOf([2]float64{}), reflect.TypeOf(struct {
		F float32
		S string
	}{}),
	reflect.TypeOf(struct {
		A int8
		B string
		C int64
	}{}),
}

// types of one name, which only where they were declared tells apart
func twins1() []reflect.Type {
	type Twin int64
	type TwinStruct struct{ A int8 }
	return []reflect.Type{typeOf((*Twin)(nil)), typeOf((*TwinStruct)(nil))}
}

func twins2() []reflect.Type {
	type Twin string
	type TwinStruct struct {
		B string
		A *int
	}
	return []reflect.Type{typeOf((*Twin)(nil)), typeOf((*TwinStruct)(nil))}
}

func twins3() []reflect.Type {
	type Twin int8
	type TwinStruct struct{ A *int }
	return []reflect.Type{typeOf((*Twin)(nil)), typeOf((*TwinStruct)(nil))}
}

func init() {
	for _, twins := range [][]reflect.Type{twins1(), twins2(), twins3()} {
		leafTypes = append(leafTypes, twins[0])
		structTypes = append(structTypes, twins[1])
		keyTypes = append(keyTypes, twins...)
	}
}

var fieldNames = []string{"A", "Bb", "C3", "D_", "E", "F"}

func drawType(t *rapid.T, depth int) reflect.Type {
	kind := rapid.IntRange(0, 9).Draw(t, "typeKind")
	if depth <= 0 {
		kind %= 5
	}
	switch kind {
	case 0, 1:
		return rapid.SampledFrom(leafTypes).Draw(t, "leaf")
	case 2, 3, 4:
		return rapid.SampledFrom(structTypes).Draw(t, "struct")
	case 5:
		return reflect.PtrTo(drawType(t, depth-1))
	case 6:
		return reflect.SliceOf(drawType(t, depth-1))
	case 7:
		return reflect.ArrayOf(rapid.IntRange(0, 4).Draw(t, "len"), drawType(t, depth-1))
	case 8:
		return reflect.MapOf(rapid.SampledFrom(keyTypes).Draw(t, "key"), drawType(t, depth-1))
	default:
		return drawStruct(t, depth)
	}
}

func drawStruct(t *rapid.T, depth int) reflect.Type {
	n := rapid.IntRange(0, 5).Draw(t, "fields")
	var fields []reflect.StructField
	for i := 0; i < n; i++ {
		f := reflect.StructField{Name: fieldNames[i], Type: drawType(t, depth-1)}
		if rapid.Bool().Draw(t, "tagged") {
			f.Tag = reflect.StructTag(`json:"` + fieldNames[i] + `"`)
		}
		fields = append(fields, f)
	}
	return reflect.StructOf(fields)
}

func settable(v reflect.Value) reflect.Value {
	if v.CanAddr() {
		return reflect.NewAt(v.Type(), unsafe.Pointer(v.UnsafeAddr())).Elem()
	}
	return v
}

var ints [8]int

func fill(t *rapid.T, v reflect.Value, depth int) {
	v = settable(v)
	switch v.Kind() {
	case reflect.Bool:
		v.SetBool(rapid.Bool().Draw(t, "bool"))
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		v.SetInt(rapid.Int64().Draw(t, "int"))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		v.SetUint(rapid.Uint64().Draw(t, "uint"))
	case reflect.Float32, reflect.Float64:
		v.SetFloat(rapid.Float64().Draw(t, "float"))
	case reflect.Complex64, reflect.Complex128:
		v.SetComplex(complex(float64(rapid.IntRange(-9, 9).Draw(t, "re")), 1))
	case reflect.String:
		v.SetString(rapid.StringN(0, 5, 10).Draw(t, "string"))
	case reflect.UnsafePointer:
		if i := rapid.IntRange(0, len(ints)).Draw(t, "uptr"); i < len(ints) {
			v.SetPointer(unsafe.Pointer(&ints[i]))
		}
	case reflect.Func:
		if rapid.Bool().Draw(t, "func") {
			v.Set(reflect.MakeFunc(v.Type(), func([]reflect.Value) []reflect.Value { return nil }))
		}
	case reflect.Chan:
		if rapid.Bool().Draw(t, "chan") {
			v.Set(reflect.MakeChan(v.Type(), 1))
		}
	case reflect.Ptr:
		if rapid.IntRange(0, 3).Draw(t, "nilptr") == 0 {
			return
		}
		v.Set(reflect.New(v.Type().Elem()))
		if depth > 0 {
			fill(t, v.Elem(), depth-1)
		}
	case reflect.Slice:
		if rapid.IntRange(0, 4).Draw(t, "nilslice") == 0 {
			return
		}
		n := rapid.IntRange(0, 3).Draw(t, "n")
		s := reflect.MakeSlice(v.Type(), n, n+rapid.IntRange(0, 2).Draw(t, "spare"))
		if depth > 0 {
			for i := 0; i < n; i++ {
				fill(t, s.Index(i), depth-1)
			}
		}
		v.Set(s)
	case reflect.Array:
		n := v.Len()
		if n > 4 {
			n = 4
		}
		for i := 0; i < n; i++ {
			fill(t, v.Index(i), depth-1)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			fill(t, v.Field(i), depth-1)
		}
	case reflect.Map:
		if rapid.IntRange(0, 4).Draw(t, "nilmap") == 0 {
			return
		}
		v.Set(reflect.MakeMap(v.Type()))
		if depth <= 0 {
			return
		}
		for i := rapid.IntRange(0, 3).Draw(t, "n"); i > 0; i-- {
			elem := reflect.New(v.Type().Elem()).Elem()
			fill(t, elem, depth-1)
			v.SetMapIndex(drawKey(t, v.Type().Key(), 5), elem)
		}
	case reflect.Interface:
		if rapid.IntRange(0, 3).Draw(t, "niliface") == 0 {
			return
		}
		var candidates []interface{}
		n := rapid.IntRange(0, 3).Draw(t, "dyn")
		if v.Type() == errorType {
			candidates = []interface{}{ErrVal{n}, &ErrPtr{n}, OneInt{int64(n)}, OnePtr{&ints[n]}, errors.New("x"), (*ErrPtr)(nil), OnePtr{}}
		} else {
			candidates = []interface{}{n, fmt.Sprint("s", n), &ints[n], ErrVal{n}, OnePtr{&ints[n]}, []int{n}, map[string]int{"n": n}, Zero{}, [1]*int{&ints[n]}, float64(n), Big{}, (*int)(nil), map[string]int(nil), []int(nil), OnePtr{}, [1]*int{}, (func())(nil), (chan int)(nil)}
		}
		v.Set(reflect.ValueOf(candidates[rapid.IntRange(0, len(candidates)-1).Draw(t, "content")]))
	}
}

var chans [8]chan int

// drawKey draws from a small set of keys, so that keys are met again.
func drawKey(t *rapid.T, typ reflect.Type, n int) reflect.Value {
	return keyOf(typ, rapid.IntRange(0, n).Draw(t, "key"))
}

func keyOf(typ reflect.Type, i int) reflect.Value {
	v := reflect.New(typ).Elem()
	switch typ.Kind() {
	case reflect.String:
		v.SetString(fmt.Sprint("k", i))
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		v.SetInt(int64(i - 2))
	case reflect.Uint16:
		v.SetUint(uint64(i))
	case reflect.Float32, reflect.Float64:
		v.SetFloat(floatKey(i))
	case reflect.Complex128:
		v.SetComplex(complex(floatKey(i), float64(i%2)))
	case reflect.Bool:
		v.SetBool(i%2 == 0)
	case reflect.Array:
		for j := 0; j < v.Len() && j < 3; j++ {
			v.Index(j).Set(keyOf(typ.Elem(), i))
		}
	case reflect.Struct:
		for j := 0; j < v.NumField(); j++ {
			settable(v.Field(j)).Set(keyOf(typ.Field(j).Type, i))
		}
	case reflect.Ptr:
		if i > 0 {
			v.Set(reflect.ValueOf(&ints[i%8]))
		}
	case reflect.UnsafePointer:
		v.SetPointer(unsafe.Pointer(&ints[i%8]))
	case reflect.Chan:
		if chans[i%8] == nil {
			chans[i%8] = make(chan int)
		}
		v.Set(reflect.ValueOf(chans[i%8]))
	case reflect.Interface:
		if typ == errorType {
			v.Set(reflect.ValueOf([]interface{}{ErrVal{i}, OneInt{int64(i)}, OnePtr{&ints[i%8]}}[i%3]))
			break
		}
		switch i % 6 {
		case 5:
			v.Set(reflect.ValueOf(floatKey(i)))
		case 0:
			if i > 0 {
				v.Set(reflect.ValueOf(i))
			}
		case 1:
			v.Set(reflect.ValueOf(fmt.Sprint(i)))
		case 2:
			v.Set(reflect.ValueOf(&ints[i%8]))
		case 3:
			v.Set(reflect.ValueOf([2]int16{int16(i)}))
		case 4:
			v.Set(reflect.ValueOf(OneUns{unsafe.Pointer(&ints[i%8])}))
		}
	}
	return v
}

func floatKey(i int) float64 {
	switch i % 7 {
	case 3:
		return math.Copysign(0, -1) // the same key as 0
	case 5:
		return math.NaN() // never the same key
	}
	return float64(i) / 4
}

// notSelf tells whether the key is or holds NaN: it equals no key, not even
// itself, so every set adds an entry and none can be found.
func notSelf(key reflect.Value) bool {
	k := settable(key).Interface()
	return k != k
}

// same tells whether b is a (shallow) copy of a: the same bits, and the same
// pointers, maps and backing arrays.
func same(a, b reflect.Value) bool {
	if a.IsValid() != b.IsValid() {
		return false
	}
	if !a.IsValid() {
		return true
	}
	if a.Type() != b.Type() {
		return false
	}
	switch a.Kind() {
	case reflect.Bool:
		return a.Bool() == b.Bool()
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return a.Int() == b.Int()
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return a.Uint() == b.Uint()
	case reflect.Float32, reflect.Float64:
		return math.Float64bits(a.Float()) == math.Float64bits(b.Float())
	case reflect.Complex64, reflect.Complex128:
		x, y := a.Complex(), b.Complex()
		return math.Float64bits(real(x)) == math.Float64bits(real(y)) && math.Float64bits(imag(x)) == math.Float64bits(imag(y))
	case reflect.String:
		return a.String() == b.String()
	case reflect.Ptr, reflect.Map, reflect.Chan, reflect.UnsafePointer:
		return a.Pointer() == b.Pointer()
	case reflect.Func:
		return a.IsNil() == b.IsNil() && a.Pointer() == b.Pointer()
	case reflect.Slice:
		return a.IsNil() == b.IsNil() && a.Len() == b.Len() && a.Cap() == b.Cap() && (a.Cap() == 0 || a.Pointer() == b.Pointer())
	case reflect.Interface:
		return same(a.Elem(), b.Elem())
	case reflect.Array:
		for i := 0; i < a.Len(); i++ {
			if !same(a.Index(i), b.Index(i)) {
				return false
			}
		}
		return true
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if !same(a.Field(i), b.Field(i)) {
				return false
			}
		}
		return true
	}
	return false
}

func sameIface(a, b interface{}) bool { return same(reflect.ValueOf(a), reflect.ValueOf(b)) }

// guarded is a value with guard bytes around it.
type guarded struct {
	whole reflect.Value
}

func guard(typ reflect.Type) guarded {
	w := reflect.New(reflect.StructOf([]reflect.StructField{
		{Name: "Pre", Type: reflect.TypeOf([16]byte{})},
		{Name: "V", Type: typ},
		{Name: "Post", Type: reflect.TypeOf([16]byte{})},
	})).Elem()
	for _, i := range []int{0, 2} {
		for j := 0; j < 16; j++ {
			w.Field(i).Index(j).SetUint(0xa5)
		}
	}
	return guarded{w}
}

func (g guarded) v() reflect.Value          { return g.whole.Field(1) }
func (g guarded) ptr() interface{}          { return g.v().Addr().Interface() }
func (g guarded) unsafePtr() unsafe.Pointer { return unsafe.Pointer(g.v().UnsafeAddr()) }

func (g guarded) check(t *rapid.T, what string) {
	for _, i := range []int{0, 2} {
		for j := 0; j < 16; j++ {
			if g.whole.Field(i).Index(j).Uint() != 0xa5 {
				t.Fatalf("%s wrote outside of the value", what)
			}
		}
	}
}

func clone(v reflect.Value) reflect.Value {
	c := reflect.New(v.Type()).Elem()
	c.Set(settable(v))
	return c
}

func show(v reflect.Value) string {
	s := fmt.Sprintf("%+v", v)
	if len(s) > 80 {
		s = s[:80] + "..."
	}
	return s
}
