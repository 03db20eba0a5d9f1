package jsonchk

import (
	"context"
	"fmt"
	"math"
	"reflect"
	"testing"
	"unsafe"

	"github.com/v2pro/plz/msgfmt/jsonfmt"
	"github.com/v2pro/plz/reflect2"
	"pgregory.net/rapid"
	"verifharness/hz"
)

// marking encodes every value of the types it takes as a mark with its type.
type marking struct {
	mark  string
	takes map[reflect.Type]bool
}

func (m marking) EncoderOf(prefix string, valType reflect.Type) jsonfmt.Encoder {
	if !m.takes[valType] {
		return nil
	}
	return &markEncoder{m.text(valType), reflect2.Type2(valType)}
}

func (m marking) text(typ reflect.Type) string { return m.mark + " " + typ.String() }

type markEncoder struct {
	text string
	typ  reflect2.Type
}

type ctxKey struct{}

func (m *markEncoder) Encode(ctx context.Context, space []byte, ptr unsafe.Pointer) []byte {
	if ctx.Value(ctxKey{}) != "passed on" {
		return append(space, "without the context"...)
	}
	// the pointer is one to a value of the type
	value := m.typ.UnsafeIndirect(ptr)
	return jsonfmt.WriteString(space, fmt.Sprintf("%s %d", m.text, size(value)))
}

// size of a value depends on the value and not on addresses, and differs
// for the keys of a map.
func size(value interface{}) int {
	if value == nil {
		return -2
	}
	return sizeOf(clone(reflect.ValueOf(value)))
}

func sizeOf(v reflect.Value) int {
	v = settable(v)
	h := 17
	switch v.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return int(v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return int(v.Uint())
	case reflect.Float32, reflect.Float64:
		return int(math.Float64bits(v.Float()))
	case reflect.Bool:
		if v.Bool() {
			return 1
		}
		return 0
	case reflect.Slice, reflect.Map:
		return v.Len()
	case reflect.String:
		for _, b := range []byte(v.String()) {
			h = (h ^ int(b)) * 1099511628211
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			h = (h ^ sizeOf(v.Index(i))) * 1099511628211
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			h = (h ^ sizeOf(v.Field(i))) * 1099511628211
		}
	case reflect.Ptr, reflect.Interface:
		if v.IsNil() {
			return -1
		}
		return sizeOf(clone(v.Elem())) + 1
	}
	return h
}

// ambiguous tells objects with equal keys, which can not be compared.
func (d *doc) ambiguous() bool {
	seen := map[string]bool{}
	for _, key := range d.keys {
		if seen[key] && !d.ordered {
			return true
		}
		seen[key] = true
	}
	for _, item := range d.items {
		if item.ambiguous() {
			return true
		}
	}
	return false
}

// subtypes adds the types a value of typ is made of.
func subtypes(typ reflect.Type, into *[]reflect.Type, seen map[reflect.Type]bool) {
	if seen[typ] {
		return
	}
	seen[typ] = true
	*into = append(*into, typ)
	switch typ.Kind() {
	case reflect.Ptr, reflect.Slice, reflect.Array:
		subtypes(typ.Elem(), into, seen)
	case reflect.Map:
		subtypes(typ.Key(), into, seen)
		subtypes(typ.Elem(), into, seen)
	case reflect.Struct:
		for i := 0; i < typ.NumField(); i++ {
			subtypes(typ.Field(i).Type, into, seen)
		}
	}
}

// TestC04_extensions: what an extension takes is encoded by it wherever it
// is, and the rest as without.
func TestC04_extensions(t *testing.T) {
	hz.Run(t, 20000, "generated types and values under a config of its own with up to two extensions, each taking up to four of the types that the value is made of; non-trivial: an extension has been used below the top", func(t *rapid.T, c *hz.Case) {
		typ := drawTypeFrom(t, rapid.IntRange(1, 4).Draw(t, "depth"), rapid.SampledFrom([]int{2, 5, 5, 5}).Draw(t, "least"))
		v := reflect.New(typ).Elem()
		fill(t, v, rapid.IntRange(2, 7).Draw(t, "valueDepth"))
		if typ.Kind() == reflect.Interface {
			// the encoder gets what is in it
			if v.IsNil() {
				return
			}
			v = clone(v.Elem())
			typ = v.Type()
		}
		unexported := rapid.IntRange(0, 3).Draw(t, "config") == 0
		var all []reflect.Type
		subtypes(typ, &all, map[reflect.Type]bool{})
		all = append(all, reflect.TypeOf(0), reflect.TypeOf(""))
		cfg := jsonfmt.Config{IncludesUnexported: unexported}
		var marks []marking
		desc := fmt.Sprintf("%v unexported=%v", typ, unexported)
		for i := rapid.IntRange(1, 2).Draw(t, "extensions"); i > 0; i-- {
			m := marking{fmt.Sprintf("ext%d", i), map[reflect.Type]bool{}}
			for j := rapid.IntRange(0, 4).Draw(t, "types"); j > 0; j-- {
				taken := rapid.SampledFrom(all).Draw(t, "taken")
				m.takes[taken] = true
				desc += fmt.Sprintf(" %s takes %v", m.mark, taken)
			}
			marks = append(marks, m)
			cfg.Extensions = append(cfg.Extensions, m)
		}
		used := 0
		hook := func(v reflect.Value) *doc {
			for _, m := range marks {
				if m.takes[v.Type()] {
					used++
					return &doc{kind: "string", text: string([]rune(fmt.Sprintf("%s %d", m.text(v.Type()), size(v.Interface()))))}
				}
			}
			return nil
		}
		want := expectWith(v, unexported, hook)
		c.Desc("%s %v", desc, want)
		if want.ambiguous() {
			return
		}
		c.NonTrivial(used > 0 && hook(v) == nil)
		ctx := context.WithValue(context.Background(), ctxKey{}, "passed on")
		obj := v.Interface()
		api := cfg.Froze()
		for i := 0; i < 2; i++ {
			out := api.EncoderOfObject(obj).Encode(ctx, nil, reflect2.PtrOf(obj))
			got, err := parseDoc(out)
			if err != nil {
				t.Fatalf("%s: %v: %s\nwant %v", desc, err, out, want)
			}
			if problem := diff("$", got, want); problem != "" {
				t.Fatalf("%s: %s\n got %s\nwant %v", desc, problem, out, want)
			}
		}
	})
}
