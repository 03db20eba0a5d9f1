package jsonchk

import (
	"bytes"
	"encoding/json"
	"fmt"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"testing"
	"unicode"

	"github.com/v2pro/plz/msgfmt/jsonfmt"
	"github.com/v2pro/plz/reflect2"
	"pgregory.net/rapid"
	"verifharness/hz"
)

// doc is a json document with the order of members kept.
type doc struct {
	kind    string // null bool number string array object
	text    string // of scalars; strings are decoded
	keys    []string
	items   []*doc
	ordered bool    // of expected objects: structs
	f       float64 // of expected floats
	bits    int     // 0: text is exact; 32, 64: compare as float
	any     bool    // some string, the wording is not promised
}

func parseDoc(out []byte) (*doc, error) {
	if !json.Valid(out) {
		return nil, fmt.Errorf("not valid json")
	}
	dec := json.NewDecoder(bytes.NewReader(out))
	dec.UseNumber()
	return parseValue(dec)
}

func parseValue(dec *json.Decoder) (*doc, error) {
	token, err := dec.Token()
	if err != nil {
		return nil, err
	}
	switch tok := token.(type) {
	case nil:
		return &doc{kind: "null"}, nil
	case bool:
		return &doc{kind: "bool", text: fmt.Sprint(tok)}, nil
	case json.Number:
		return &doc{kind: "number", text: string(tok)}, nil
	case string:
		return &doc{kind: "string", text: tok}, nil
	case json.Delim:
		d := &doc{kind: "array"}
		if tok == '{' {
			d.kind = "object"
		}
		for dec.More() {
			if d.kind == "object" {
				key, err := dec.Token()
				if err != nil {
					return nil, err
				}
				d.keys = append(d.keys, key.(string))
			}
			item, err := parseValue(dec)
			if err != nil {
				return nil, err
			}
			d.items = append(d.items, item)
		}
		_, err := dec.Token()
		return d, err
	}
	return nil, fmt.Errorf("unexpected token %v", token)
}

func (d *doc) String() string {
	switch d.kind {
	case "array", "object":
		var parts []string
		for i, item := range d.items {
			key := ""
			if d.kind == "object" {
				key = fmt.Sprintf("%q:", d.keys[i])
			}
			parts = append(parts, key+item.String())
		}
		return d.kind + "(" + strings.Join(parts, ",") + ")"
	}
	if d.bits != 0 {
		return fmt.Sprintf("float%d(%v)", d.bits, d.f)
	}
	return fmt.Sprintf("%s(%q)", d.kind, d.text)
}

// diff says where got is not want, "" if nowhere.
func diff(path string, got, want *doc) string {
	if got.kind != want.kind {
		return fmt.Sprintf("%s: %v, want %v", path, got, want)
	}
	switch got.kind {
	case "number":
		if want.bits != 0 {
			if problem := floatProblem(got.text, want.f, want.bits); problem != "" {
				return fmt.Sprintf("%s: %s for %v: %s", path, got.text, want.f, problem)
			}
			return ""
		}
		fallthrough
	case "bool", "string":
		if got.text != want.text && !want.any {
			return fmt.Sprintf("%s: %v, want %v", path, got, want)
		}
	case "array":
		if len(got.items) != len(want.items) {
			return fmt.Sprintf("%s: %d items, want %d", path, len(got.items), len(want.items))
		}
		for i := range want.items {
			if problem := diff(fmt.Sprintf("%s[%d]", path, i), got.items[i], want.items[i]); problem != "" {
				return problem
			}
		}
	case "object":
		if len(got.items) != len(want.items) {
			return fmt.Sprintf("%s: members %q, want %q", path, got.keys, want.keys)
		}
		if !want.ordered {
			got, want = got.sorted(), want.sorted()
		}
		for i := range want.items {
			if got.keys[i] != want.keys[i] {
				return fmt.Sprintf("%s: members %q, want %q", path, got.keys, want.keys)
			}
			if problem := diff(path+"."+want.keys[i], got.items[i], want.items[i]); problem != "" {
				return problem
			}
		}
	}
	return ""
}

func (d *doc) sorted() *doc {
	idx := make([]int, len(d.keys))
	for i := range idx {
		idx[i] = i
	}
	sort.SliceStable(idx, func(a, b int) bool { return d.keys[idx[a]] < d.keys[idx[b]] })
	s := &doc{kind: d.kind}
	for _, i := range idx {
		s.keys = append(s.keys, d.keys[i])
		s.items = append(s.items, d.items[i])
	}
	return s
}

var null = &doc{kind: "null"}

// expect is the reference: what the json of v has to say.
func expect(v reflect.Value, unexported bool) *doc {
	return expectWith(v, unexported, nil)
}

// expectWith asks hook first, of every value.
func expectWith(v reflect.Value, unexported bool, hook func(v reflect.Value) *doc) *doc {
	v = settable(v)
	if hook != nil {
		if d := hook(v); d != nil {
			return d
		}
	}
	typ := v.Type()
	nilable := typ.Kind() == reflect.Ptr || typ.Kind() == reflect.Interface
	switch {
	case typ == bytesType:
		return &doc{kind: "string", text: bytesText(v.Bytes())}
	case typ.Implements(errorType):
		if nilable && v.IsNil() {
			return null
		}
		return &doc{kind: "string", text: string([]rune(v.Interface().(error).Error()))}
	case typ.Implements(marshalerType):
		if nilable && v.IsNil() {
			return null
		}
		buf, err := v.Interface().(json.Marshaler).MarshalJSON()
		if err != nil {
			return &doc{kind: "string", text: string([]rune(err.Error()))}
		}
		d, err := parseDoc(buf)
		if err != nil {
			// invalid json of a marshaler must not get into the output
			return &doc{kind: "string", any: true}
		}
		return d
	}
	switch typ.Kind() {
	case reflect.Bool:
		return &doc{kind: "bool", text: fmt.Sprint(v.Bool())}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return &doc{kind: "number", text: fmt.Sprint(v.Int())}
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return &doc{kind: "number", text: fmt.Sprint(v.Uint())}
	case reflect.Float32, reflect.Float64:
		if f := v.Float(); f != f || f-f != 0 {
			return null
		}
		return &doc{kind: "number", f: v.Float(), bits: typ.Bits()}
	case reflect.String:
		return &doc{kind: "string", text: string([]rune(v.String()))}
	case reflect.Ptr, reflect.Interface:
		if v.IsNil() {
			return null
		}
		if typ.Kind() == reflect.Interface {
			elem := reflect.New(v.Elem().Type()).Elem()
			elem.Set(v.Elem())
			return expectWith(elem, unexported, hook)
		}
		return expectWith(v.Elem(), unexported, hook)
	case reflect.Slice, reflect.Array:
		d := &doc{kind: "array"}
		for i := 0; i < v.Len(); i++ {
			d.items = append(d.items, expectWith(v.Index(i), unexported, hook))
		}
		return d
	case reflect.Map:
		if v.IsNil() {
			return null
		}
		d := &doc{kind: "object"}
		for _, key := range v.MapKeys() {
			d.keys = append(d.keys, keyText(expectWith(clone(key), unexported, hook)))
			d.items = append(d.items, expectWith(clone(v.MapIndex(key)), unexported, hook))
		}
		return d
	case reflect.Struct:
		d := &doc{kind: "object", ordered: true}
		for i := 0; i < v.NumField(); i++ {
			f := typ.Field(i)
			if f.Type.Kind() == reflect.Func || f.Type.Kind() == reflect.Chan {
				continue
			}
			if !unexported && !unicode.IsUpper([]rune(f.Name)[0]) {
				continue
			}
			name := strings.Split(f.Tag.Get("json"), ",")[0]
			if name == "-" {
				continue
			}
			if name == "" {
				name = f.Name
			}
			d.keys = append(d.keys, name)
			d.items = append(d.items, expectWith(v.Field(i), unexported, hook))
		}
		return d
	}
	return &doc{kind: "string", any: true}
}

func clone(v reflect.Value) reflect.Value {
	c := reflect.New(v.Type()).Elem()
	c.Set(v)
	return c
}

// keyText is the member name for a map key: strings as they are, everything
// else as its json text.
func keyText(d *doc) string {
	switch d.kind {
	case "string":
		return d.text
	case "array", "object":
		var parts []string
		for i, item := range d.items {
			text := keyText(item)
			if item.kind == "string" {
				quoted := jsonfmt.WriteString(nil, item.text)
				text = string(quoted)
			}
			if d.kind == "object" {
				text = string(jsonfmt.WriteString(nil, d.keys[i])) + ":" + text
			}
			parts = append(parts, text)
		}
		if d.kind == "object" {
			return "{" + strings.Join(parts, ",") + "}"
		}
		return "[" + strings.Join(parts, ",") + "]"
	case "null":
		return "null"
	}
	if d.bits != 0 {
		return strconv.FormatFloat(d.f, 'g', -1, d.bits) // only some with three decimals
	}
	return d.text
}

var unexportedAPI = jsonfmt.Config{IncludesUnexported: true}.Froze()

func TestC04_structure(t *testing.T) {
	hz.Run(t, 120000, "Go types built from scalars, pointers, slices, arrays, maps, structs and named types (errors, marshalers, recursive, embedded, pointer-shaped) x values x config; non-trivial: at least two levels of nesting and five scalars or nulls", func(t *rapid.T, c *hz.Case) {
		typ := drawTypeFrom(t, rapid.IntRange(1, 4).Draw(t, "depth"), rapid.SampledFrom([]int{2, 5, 5, 5}).Draw(t, "least"))
		v := reflect.New(typ).Elem()
		fill(t, v, rapid.IntRange(2, 7).Draw(t, "valueDepth"))
		unexported := rapid.IntRange(0, 3).Draw(t, "config") == 0
		space := rapid.SampledFrom([]string{"", "abc", "[1,"}).Draw(t, "space")
		spare := rapid.IntRange(0, 64).Draw(t, "spare")
		want := expect(v, unexported)
		c.Desc("%v unexported=%v %v", typ, unexported, want)
		api := jsonfmt.ConfigDefault
		if unexported {
			api = unexportedAPI
		}
		obj := v.Interface()
		buf := append(make([]byte, 0, len(space)+spare), space...)
		out := api.EncoderOfObject(obj).Encode(nil, buf, reflect2.PtrOf(obj))
		check := func(what string, out []byte) {
			if !bytes.HasPrefix(out, []byte(space)) {
				t.Fatalf("%s: did not append to %q: %q", what, space, out)
			}
			got, err := parseDoc(out[len(space):])
			if err != nil {
				t.Fatalf("%s of %v: %v: %s\nwant %v", what, typ, err, out, want)
			}
			if bytes.ContainsAny(out, "\n\r") {
				t.Fatalf("%s of %v has line breaks: %q", what, typ, out)
			}
			if problem := diff("$", got, want); problem != "" {
				t.Fatalf("%s of %v: %s\n got %s\nwant %v", what, typ, problem, out, want)
			}
		}
		check("EncoderOfObject", out)
		if obj != nil {
			check("EncoderOf", api.EncoderOf(reflect2.TypeOf(obj)).Encode(nil, []byte(space), reflect2.PtrOf(obj)))
		}
		if !unexported {
			check("MarshalToString", []byte(space+jsonfmt.MarshalToString(obj)))
		}
		depth, leaves := want.measure()
		c.NonTrivial(depth >= 2 && leaves >= 5)
		c.Label(fmt.Sprintf("depth=%d", depth))
		if typ.Kind() == reflect.Ptr || typ.Kind() == reflect.Map || typ == reflect.TypeOf(OnePtr{}) || typ == reflect.TypeOf(OneArr{}) {
			c.Label("pointer-shaped")
		}
	})
}

func (d *doc) measure() (depth int, leaves int) {
	if d.kind != "array" && d.kind != "object" {
		return 0, 1
	}
	for _, item := range d.items {
		dd, ll := item.measure()
		if dd > depth {
			depth = dd
		}
		leaves += ll
	}
	return depth + 1, leaves
}
