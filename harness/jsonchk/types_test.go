package jsonchk

import (
	"encoding/json"
	"errors"
	"fmt"
	"reflect"
	"time"
	"unsafe"

	"pgregory.net/rapid"
)

// Named types with the features that cannot be made by reflection.
type (
	NamedInt    int16
	NamedString string
	NamedBytes  []byte
	ValErr      struct{ Msg string }
	PtrErr      struct{ Msg string }
	MapErr      map[string]int
	ValMarshal  struct{ Raw string }
	PtrMarshal  struct{ Raw string }
	BadMarshal  struct{ Msg string }
	IntMarshal  int
	StrMarshal  string
	StrErr      string
	OnePtr      struct{ P *int }
	OneMap      struct{ M map[string]int }
	OneArr      [1]*int
	Nested1     struct{ In OnePtr }
	Strer       struct{ S string }
	Base        struct {
		ID   int
		Name string `json:"name"`
	}
	Embeds struct {
		Base
		*OnePtr
		Extra string
	}
	List struct {
		Val  int
		Next *List
	}
	Tree struct {
		Name  string
		Kids  []Tree
		Named map[string]*Tree
		Any   interface{}
	}
	Mutual1 struct{ Other *Mutual2 }
	Mutual2 struct {
		Back []Mutual1
		N    NamedInt
	}
	Hidden struct {
		secret  int
		_       int8
		_2      []int
		Visible string
		名前      bool
		inner   *OnePtr
	}
	Tags struct {
		A int     `json:"x"`
		B string  `json:"-"`
		C float64 `json:",omitempty"`
		D []int   `json:"d-e,omitempty"`
		E func()
		F chan int
		G string `json:"we\"ird"`
		H int    `xml:"h"`
	}
	Ifaces struct {
		E error
		M json.Marshaler
		S fmt.Stringer
		A interface{}
	}
	Wide struct {
		A int8
		B int64
		C bool
		D float32
		E string
		F [3]uint16
		G *NamedString
		H map[NamedString]NamedInt
		I []byte
		J NamedBytes
		K time.Time
		L *time.Time
		M json.RawMessage
		N complex64
		O struct{}
		P []struct{ X, Y int }
		Q uintptr
	}
)

func (e ValErr) Error() string                     { return "valerr " + e.Msg }
func (e *PtrErr) Error() string                    { return "ptrerr " + e.Msg }
func (e MapErr) Error() string                     { return fmt.Sprintf("maperr %d", len(e)) }
func (m ValMarshal) MarshalJSON() ([]byte, error)  { return json.Marshal(m.Raw + "!") }
func (m *PtrMarshal) MarshalJSON() ([]byte, error) { return json.Marshal([]string{m.Raw}) }
func (m BadMarshal) MarshalJSON() ([]byte, error)  { return nil, errors.New("bad \"" + m.Msg) }
func (m IntMarshal) MarshalJSON() ([]byte, error) {
	return []byte(fmt.Sprintf(`{"i":%d}`, int(m))), nil
}
func (m StrMarshal) MarshalJSON() ([]byte, error) {
	return []byte(fmt.Sprintf(" [%d,\n %q]\n", len(m), fmt.Sprintf("%x", string(m)))), nil
}
func (e StrErr) Error() string { return "strerr " + string(e) }
func (s Strer) String() string { return "strer " + s.S }

func typeOf(ptr interface{}) reflect.Type { return reflect.TypeOf(ptr).Elem() }

var (
	errorType     = typeOf((*error)(nil))
	marshalerType = typeOf((*json.Marshaler)(nil))
	stringerType  = typeOf((*fmt.Stringer)(nil))
	anyType       = typeOf((*interface{})(nil))
	bytesType     = reflect.TypeOf([]byte(nil))
	rawType       = reflect.TypeOf(json.RawMessage(nil))
	timeType      = reflect.TypeOf(time.Time{})
)

var scalarTypes = []reflect.Type{
	reflect.TypeOf(false), reflect.TypeOf(int(0)), reflect.TypeOf(int8(0)), reflect.TypeOf(int16(0)), reflect.TypeOf(int32(0)), reflect.TypeOf(int64(0)),
	reflect.TypeOf(uint(0)), reflect.TypeOf(uint8(0)), reflect.TypeOf(uint16(0)), reflect.TypeOf(uint32(0)), reflect.TypeOf(uint64(0)),
	reflect.TypeOf(float32(0)), reflect.TypeOf(float64(0)), reflect.TypeOf(""), reflect.TypeOf(NamedInt(0)), reflect.TypeOf(NamedString("")),
}

var namedTypes = []reflect.Type{
	bytesType, typeOf((*NamedBytes)(nil)), typeOf((*ValErr)(nil)), typeOf((*PtrErr)(nil)), typeOf((*MapErr)(nil)),
	typeOf((*ValMarshal)(nil)), typeOf((*PtrMarshal)(nil)), typeOf((*BadMarshal)(nil)), typeOf((*IntMarshal)(nil)), typeOf((*StrMarshal)(nil)), typeOf((*StrErr)(nil)),
	typeOf((*OnePtr)(nil)), typeOf((*OneMap)(nil)), typeOf((*OneArr)(nil)), typeOf((*Nested1)(nil)), typeOf((*Strer)(nil)),
	typeOf((*Embeds)(nil)), typeOf((*List)(nil)), typeOf((*Tree)(nil)), typeOf((*Mutual1)(nil)), typeOf((*Mutual2)(nil)),
	typeOf((*Hidden)(nil)), typeOf((*Tags)(nil)), typeOf((*Ifaces)(nil)), typeOf((*Wide)(nil)), timeType, rawType,
	errorType, marshalerType, stringerType, anyType, typeOf((*complex128)(nil)), typeOf((*struct{})(nil)), typeOf((*chan int)(nil)),
}

var keyTypes = []reflect.Type{
	reflect.TypeOf(""), reflect.TypeOf(NamedString("")), reflect.TypeOf(int(0)), reflect.TypeOf(int8(0)), reflect.TypeOf(uint64(0)),
	reflect.TypeOf(NamedInt(0)), reflect.TypeOf(false), reflect.TypeOf([2]int8{}), reflect.TypeOf([1]string{}), anyType, typeOf((**int)(nil)),
	reflect.TypeOf(ValErr{}), reflect.TypeOf(StrErr("")), reflect.TypeOf(StrMarshal("")), reflect.TypeOf(IntMarshal(0)), reflect.TypeOf(float64(0)), reflect.TypeOf(float32(0)), reflect.TypeOf(struct {
		A int
		B string
	}{}),
}

// types of one name, which only where they were declared tells apart
func twins1() []reflect.Type {
	type Twin int
	type TwinRec struct {
		A int
		N *TwinRec
	}
	type TwinKey struct{ A, B int8 }
	return []reflect.Type{typeOf((*Twin)(nil)), typeOf((*TwinKey)(nil)), typeOf((*TwinRec)(nil))}
}

func twins2() []reflect.Type {
	type Twin string
	type TwinRec struct {
		N map[string]TwinRec
		B string `json:"A"`
	}
	type TwinKey struct{ A string }
	return []reflect.Type{typeOf((*Twin)(nil)), typeOf((*TwinKey)(nil)), typeOf((*TwinRec)(nil))}
}

func twins3() []reflect.Type {
	type Twin [1]*bool
	type TwinRec []TwinRec
	type TwinKey int16
	return []reflect.Type{typeOf((*Twin)(nil)), typeOf((*TwinKey)(nil)), typeOf((*TwinRec)(nil))}
}

func init() {
	for _, twins := range [][]reflect.Type{twins1(), twins2(), twins3()} {
		namedTypes = append(namedTypes, twins...)
		keyTypes = append(keyTypes, twins[1])
	}
	keyTypes = append(keyTypes, twins1()[0], twins2()[0])
}

var fieldNames = []string{"A", "Bb", "C3", "D_", "Éa", "F"}

func drawType(t *rapid.T, depth int) reflect.Type {
	return drawTypeFrom(t, depth, 0)
}

func drawTypeFrom(t *rapid.T, depth int, minKind int) reflect.Type {
	kind := rapid.IntRange(minKind, 11).Draw(t, "typeKind")
	if depth <= 0 && kind > 4 {
		kind %= 5
	}
	switch kind {
	case 0, 1:
		return rapid.SampledFrom(scalarTypes).Draw(t, "scalar")
	case 2, 3, 4:
		return rapid.SampledFrom(namedTypes).Draw(t, "named")
	case 5:
		return reflect.PtrTo(drawType(t, depth-1))
	case 6:
		return reflect.SliceOf(drawType(t, depth-1))
	case 7:
		return reflect.ArrayOf(rapid.IntRange(0, 3).Draw(t, "len"), drawType(t, depth-1))
	case 8, 9:
		return reflect.MapOf(rapid.SampledFrom(keyTypes).Draw(t, "key"), drawType(t, depth-1))
	default:
		n := rapid.IntRange(0, 4).Draw(t, "fields")
		var fields []reflect.StructField
		for i := 0; i < n; i++ {
			f := reflect.StructField{Name: fieldNames[i], Type: drawType(t, depth-1)}
			switch rapid.IntRange(0, 9).Draw(t, "tag") {
			case 0:
				f.Tag = `json:"tag_` + reflect.StructTag(fieldNames[i]) + `"`
			case 1:
				f.Tag = `json:"-"`
			case 2:
				f.Tag = `json:",omitempty"`
			case 3:
				f.Tag = `other:"x"`
			case 4:
				// lower case, no case, no letter and title case: none of these is exported
				f.Name = rapid.SampledFrom([]string{"un", "un", "_", "中", "ª", "ǅ"}).Draw(t, "lower") + fieldNames[i]
				f.PkgPath = "verifharness/jsonchk"
			}
			fields = append(fields, f)
		}
		return reflect.StructOf(fields)
	}
}

// settable lifts the read-only mark that reflection puts on unexported fields.
func settable(v reflect.Value) reflect.Value {
	if v.CanAddr() {
		return reflect.NewAt(v.Type(), unsafe.Pointer(v.UnsafeAddr())).Elem()
	}
	return v
}

func drawText(t *rapid.T) string {
	return rapid.OneOf(rapid.StringMatching(`[a-z]{0,6}`), rapid.SampledFrom([]string{"\"", "\\", "\n", "a\tb", "中文", "\x00", "\x80\xff", "<&>", "|", ""}), rapid.StringN(0, 8, 30)).Draw(t, "text")
}

func fill(t *rapid.T, v reflect.Value, depth int) {
	v = settable(v)
	switch v.Type() {
	case timeType:
		v.Set(reflect.ValueOf(time.Unix(rapid.Int64Range(0, 4e9).Draw(t, "sec"), rapid.Int64Range(0, 999999999).Draw(t, "nsec")).UTC()))
		return
	case rawType:
		v.Set(reflect.ValueOf(json.RawMessage(rapid.SampledFrom([]string{"null", "1", `{"a":[1,2]}`, `"x"`, "[]", "{\n  \"a\": 1\n}\n", " \t0.50 ", "", "{", "1 2", "nul", "\"a\nb\"", "\"\xff\"", "[1e400]"}).Draw(t, "raw"))))
		return
	}
	switch v.Kind() {
	case reflect.Bool:
		v.SetBool(rapid.Bool().Draw(t, "bool"))
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		v.SetInt(drawInt64(t) << 3 >> 3)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		v.SetUint(uint64(drawInt64(t)))
	case reflect.Float32, reflect.Float64:
		v.SetFloat(drawFloat(t))
	case reflect.Complex64, reflect.Complex128:
		v.SetComplex(complex(1, 2))
	case reflect.String:
		v.SetString(drawText(t))
	case reflect.Ptr:
		if depth <= 0 || rapid.IntRange(0, 3).Draw(t, "nilptr") == 0 {
			return
		}
		v.Set(reflect.New(v.Type().Elem()))
		fill(t, v.Elem(), depth-1)
	case reflect.Slice:
		if rapid.IntRange(0, 4).Draw(t, "nilslice") == 0 {
			return
		}
		n := rapid.IntRange(0, 3).Draw(t, "n")
		if depth <= 0 {
			n = 0
		}
		s := reflect.MakeSlice(v.Type(), n, n+rapid.IntRange(0, 2).Draw(t, "spare"))
		for i := 0; i < n; i++ {
			fill(t, s.Index(i), depth-1)
		}
		v.Set(s)
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			fill(t, v.Index(i), depth-1)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			fill(t, v.Field(i), depth-1)
		}
	case reflect.Map:
		if rapid.IntRange(0, 4).Draw(t, "nilmap") == 0 {
			return
		}
		v.Set(reflect.MakeMap(v.Type()))
		n := rapid.IntRange(0, 4).Draw(t, "n")
		if depth <= 0 {
			n = 0
		}
		for i := 0; i < n; i++ {
			elem := reflect.New(v.Type().Elem()).Elem()
			fill(t, elem, depth-1)
			v.SetMapIndex(drawKey(t, v.Type().Key(), i), elem)
		}
	case reflect.Interface:
		fillInterface(t, v, depth)
	}
}

// drawKey makes keys that differ in their text, so that objects have no
// duplicate names.
func drawKey(t *rapid.T, typ reflect.Type, i int) reflect.Value {
	v := reflect.New(typ).Elem()
	switch typ.Kind() {
	case reflect.String:
		v.SetString(fmt.Sprint(i, drawText(t)))
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		v.SetInt(int64(i*20 - rapid.IntRange(0, 19).Draw(t, "k")))
	case reflect.Float64, reflect.Float32:
		v.SetFloat(float64(i*20-rapid.IntRange(0, 19).Draw(t, "k")) / 8)
	case reflect.Uint64:
		v.SetUint(uint64(1<<40 + i*20 + rapid.IntRange(0, 19).Draw(t, "k")))
	case reflect.Bool:
		v.SetBool(i%2 == 0)
	case reflect.Array:
		for j := 0; j < v.Len(); j++ {
			v.Index(j).Set(drawKey(t, typ.Elem(), i))
		}
	case reflect.Struct:
		for j := 0; j < v.NumField(); j++ {
			v.Field(j).Set(drawKey(t, typ.Field(j).Type, i))
		}
	case reflect.Ptr:
		v.Set(reflect.New(typ.Elem()))
		v.Elem().SetInt(int64(1<<20 + i))
	case reflect.Interface:
		candidates := []reflect.Type{reflect.TypeOf(""), reflect.TypeOf(0), reflect.TypeOf(NamedString("")), reflect.TypeOf(uint64(0)), typeOf((**int)(nil)), reflect.TypeOf([2]int8{})}
		k := rapid.IntRange(0, len(candidates)).Draw(t, "keyKind")
		if k == len(candidates) {
			if i == 0 {
				return v // nil key
			}
			k = 0
		}
		key := drawKey(t, candidates[k], i)
		if key.Kind() == reflect.String {
			key.SetString("s" + key.String())
		}
		v.Set(key)
	}
	return v
}

func fillInterface(t *rapid.T, v reflect.Value, depth int) {
	if rapid.IntRange(0, 3).Draw(t, "niliface") == 0 {
		return
	}
	var candidates []reflect.Type
	switch v.Type() {
	case errorType:
		candidates = []reflect.Type{reflect.TypeOf(ValErr{}), reflect.TypeOf(&PtrErr{}), reflect.TypeOf(&ValErr{}), reflect.TypeOf(MapErr{})}
	case marshalerType:
		candidates = []reflect.Type{reflect.TypeOf(ValMarshal{}), reflect.TypeOf(&PtrMarshal{}), reflect.TypeOf(BadMarshal{}), reflect.TypeOf(IntMarshal(0)), timeType}
	case stringerType:
		candidates = []reflect.Type{reflect.TypeOf(Strer{}), reflect.TypeOf(&Strer{}), timeType}
	default:
		if depth <= 0 {
			candidates = scalarTypes
		} else {
			typ := drawType(t, 1)
			if typ.Kind() == reflect.Interface {
				typ = reflect.TypeOf(OnePtr{})
			}
			candidates = []reflect.Type{typ}
		}
	}
	typ := rapid.SampledFrom(candidates).Draw(t, "dynamic")
	elem := reflect.New(typ).Elem()
	if typ.Kind() == reflect.Ptr && v.Type() != anyType {
		// the methods of a nil pointer are the caller's own business
		elem.Set(reflect.New(typ.Elem()))
		fill(t, elem.Elem(), depth-1)
	} else {
		fill(t, elem, depth-1)
	}
	v.Set(elem)
}
