package reflchk

import (
	"fmt"
	"reflect"
	"testing"
	"unsafe"

	"github.com/v2pro/plz/reflect2"
	"pgregory.net/rapid"
	"verifharness/hz"
)

func ptrTo(v reflect.Value) reflect.Value {
	p := reflect.New(v.Type())
	p.Elem().Set(v)
	return p
}

// compareMap compares the map under test, through the API and through plain
// reflection, with the model.
func compareMap(t *rapid.T, typ reflect.Type, type2 reflect2.MapType, obj interface{}, model reflect.Value, isSafe bool, untyped bool) {
	m := reflect.ValueOf(obj).Elem()
	if m.IsNil() != model.IsNil() || m.Len() != model.Len() {
		t.Fatalf("%v has %d entries (nil: %v), want %d (nil: %v)", typ, m.Len(), m.IsNil(), model.Len(), model.IsNil())
	}
	if type2.IsNil(obj) != model.IsNil() {
		t.Fatalf("IsNil of %v: %v", typ, type2.IsNil(obj))
	}
	type entry struct{ key, elem reflect.Value }
	var nans []entry // can only be found by iteration
	for all := model.MapRange(); all.Next(); {
		key := all.Key()
		if notSelf(key) {
			if m.MapIndex(key).IsValid() {
				t.Fatalf("%v has something at %s", typ, show(key))
			}
			nans = append(nans, entry{key, all.Value()})
			continue
		}
		if got := m.MapIndex(key); !got.IsValid() || !same(got, model.MapIndex(key)) {
			t.Fatalf("%v at %s: %s, want %s", typ, show(key), show(got), show(model.MapIndex(key)))
		}
	}
	var iter reflect2.MapIterator
	if untyped {
		iter = type2.UnsafeIterate(unsafe.Pointer(m.UnsafeAddr()))
	} else {
		iter = type2.Iterate(obj)
	}
	seen := reflect.MakeMap(reflect.MapOf(typ.Key(), reflect.TypeOf(0)))
	n := 0
	for iter.HasNext() {
		if n++; n > model.Len() {
			t.Fatalf("iteration over %v of %d entries does not end", typ, model.Len())
		}
		var key, elem reflect.Value
		if untyped {
			k, e := iter.UnsafeNext()
			key, elem = reflect.NewAt(typ.Key(), k).Elem(), reflect.NewAt(typ.Elem(), e).Elem()
		} else {
			k, e := iter.Next()
			if reflect.TypeOf(k) != reflect.PtrTo(typ.Key()) || reflect.TypeOf(e) != reflect.PtrTo(typ.Elem()) {
				t.Fatalf("iteration over %v gives %T and %T", typ, k, e)
			}
			key, elem = reflect.ValueOf(k).Elem(), reflect.ValueOf(e).Elem()
		}
		if notSelf(key) {
			i := 0
			for i < len(nans) && !(same(key, nans[i].key) && same(elem, nans[i].elem)) {
				i++
			}
			if i == len(nans) {
				t.Fatalf("iteration over %v: %s is %s, which it is not (or not that often) of the %d entries of that kind left", typ, show(key), show(elem), len(nans))
			}
			nans = append(nans[:i], nans[i+1:]...)
			continue
		}
		want := model.MapIndex(key)
		if !want.IsValid() || !same(elem, want) {
			t.Fatalf("iteration over %v: %s is %s, want %s", typ, show(key), show(elem), show(want))
		}
		if seen.MapIndex(key).IsValid() {
			t.Fatalf("iteration over %v: %s twice", typ, show(key))
		}
		seen.SetMapIndex(key, reflect.ValueOf(1))
	}
	if n != model.Len() {
		t.Fatalf("iteration over %v: %d of %d entries", typ, n, model.Len())
	}
}

func TestC12_maps(t *testing.T) {
	hz.Run(t, 12000, "map types (29 key types, NaN among the keys x generated element types) x up to 40 operations (set, overwrite, get, try get, delete and set behind its back, iterate, nil, bulk growth, garbage collection) x safe and unsafe, typed and untyped; non-trivial: at least 3 entries at some time and 5 operations", func(t *rapid.T, c *hz.Case) {
		keyType := rapid.SampledFrom(keyTypes).Draw(t, "key")
		typ := reflect.MapOf(keyType, drawType(t, rapid.IntRange(0, 2).Draw(t, "depth")))
		isSafe := rapid.Bool().Draw(t, "safe")
		var api reflect2.API = reflect2.ConfigUnsafe
		if isSafe {
			api = reflect2.ConfigSafe
		}
		type2 := api.Type2(typ).(reflect2.MapType)
		if type2.Key().Type1() != keyType || type2.Elem().Type1() != typ.Elem() {
			t.Fatalf("%v has key %v and elem %v", typ, type2.Key(), type2.Elem())
		}
		capacity := rapid.SampledFrom([]int{0, 1, 3, 9, 100}).Draw(t, "cap")
		desc := fmt.Sprintf("%v safe=%v cap=%d:", typ, isSafe, capacity)
		model := reflect.New(typ).Elem()
		model.Set(reflect.MakeMap(typ))
		var obj interface{}
		switch rapid.IntRange(0, 3).Draw(t, "make") {
		case 0:
			obj = type2.New()
			model.Set(reflect.Zero(typ))
			desc += " nil"
		case 1:
			if !isSafe {
				obj = reflect.NewAt(typ, type2.UnsafeMakeMap(capacity)).Interface()
				break
			}
			fallthrough
		default:
			obj = type2.MakeMap(capacity)
			if reflect.TypeOf(obj) != reflect.PtrTo(typ) {
				t.Fatalf("MakeMap of %v gives %T", typ, obj)
			}
		}
		m := reflect.ValueOf(obj).Elem()
		mPtr := unsafe.Pointer(m.UnsafeAddr())
		compareMap(t, typ, type2, obj, model, isSafe, false)
		steps := rapid.IntRange(1, 40).Draw(t, "steps")
		most := 0
		keyRange := rapid.SampledFrom([]int{3, 7, 60}).Draw(t, "keys")
		for i := 0; i < steps; i++ {
			untyped := !isSafe && rapid.Bool().Draw(t, "untyped")
			op := rapid.IntRange(0, 11).Draw(t, "op")
			key := ptrTo(drawKey(t, keyType, keyRange))
			desc += fmt.Sprintf(" %d(%s)", op, show(key.Elem()))
			c.Desc("%s", desc)
			set := func(key reflect.Value, elem reflect.Value) {
				if untyped {
					type2.UnsafeSetIndex(mPtr, unsafe.Pointer(key.Pointer()), unsafe.Pointer(elem.Pointer()))
				} else {
					type2.SetIndex(obj, key.Interface(), elem.Interface())
				}
			}
			switch op {
			case 0, 1, 2, 3:
				elem := reflect.New(typ.Elem())
				fill(t, elem.Elem(), 2)
				if model.IsNil() {
					if op == 0 && !untyped {
						mustPanic(t, "SetIndex of a nil map", func() { set(key, elem) })
					}
					continue
				}
				model.SetMapIndex(key.Elem(), elem.Elem())
				set(key, elem)
				// the map has its own copy
				elem.Elem().Set(reflect.Zero(typ.Elem()))
			case 4, 5, 6:
				want := model.MapIndex(key.Elem())
				if untyped {
					got := type2.UnsafeGetIndex(mPtr, unsafe.Pointer(key.Pointer()))
					if want.IsValid() != (got != nil) || got != nil && !same(reflect.NewAt(typ.Elem(), got).Elem(), want) {
						t.Fatalf("UnsafeGetIndex of %v at %s differs from %s", typ, show(key.Elem()), show(want))
					}
					continue
				}
				got := type2.GetIndex(obj, key.Interface())
				if reflect.TypeOf(got) != reflect.PtrTo(typ.Elem()) || want.IsValid() == reflect.ValueOf(got).IsNil() ||
					want.IsValid() && !same(reflect.ValueOf(got).Elem(), want) {
					t.Fatalf("GetIndex of %v at %s: %T %v, want %s", typ, show(key.Elem()), got, got, show(want))
				}
				got, found := type2.TryGetIndex(obj, key.Interface())
				if found != want.IsValid() {
					t.Fatalf("TryGetIndex of %v at %s: found %v, want %v", typ, show(key.Elem()), found, want.IsValid())
				}
				if found && (reflect.TypeOf(got) != reflect.PtrTo(typ.Elem()) || !same(reflect.ValueOf(got).Elem(), want)) {
					t.Fatalf("TryGetIndex of %v at %s: %T %v, want %s", typ, show(key.Elem()), got, got, show(want))
				}
			case 7: // delete with plain Go
				if !model.IsNil() {
					model.SetMapIndex(key.Elem(), reflect.Value{})
					m.SetMapIndex(key.Elem(), reflect.Value{})
				}
			case 8: // set with plain Go
				if !model.IsNil() {
					elem := reflect.New(typ.Elem()).Elem()
					fill(t, elem, 2)
					model.SetMapIndex(key.Elem(), elem)
					m.SetMapIndex(key.Elem(), elem)
				}
			case 9: // growth
				if model.IsNil() || rapid.IntRange(0, 3).Draw(t, "bulk") != 0 {
					continue
				}
				elem := reflect.New(typ.Elem())
				fill(t, elem.Elem(), 1)
				for j := 0; j < 120; j++ {
					k := ptrTo(keyOf(keyType, j))
					model.SetMapIndex(k.Elem(), elem.Elem())
					set(k, elem)
				}
			case 10:
				if rapid.IntRange(0, 9).Draw(t, "gc") == 0 {
					churn()
				}
			case 11:
				compareMap(t, typ, type2, obj, model, isSafe, untyped)
				if !isSafe {
					wrong := reflect.New(reflect.PtrTo(typ)).Interface()
					mustPanic(t, fmt.Sprintf("GetIndex of %v in %T", typ, wrong), func() { type2.GetIndex(wrong, key.Interface()) })
					mustPanic(t, fmt.Sprintf("TryGetIndex of %v at %T", typ, wrong), func() { type2.TryGetIndex(obj, wrong) })
					mustPanic(t, fmt.Sprintf("SetIndex of %v to %T", typ, wrong), func() { type2.SetIndex(obj, key.Interface(), wrong) })
					mustPanic(t, fmt.Sprintf("Iterate of %v over %T", typ, wrong), func() { type2.Iterate(wrong) })
					// of the same layout, but of another type
					twin := reflect.New(reflect.MapOf(typ.Key(), boxOf(typ.Elem())))
					twin.Elem().Set(reflect.MakeMap(twin.Type().Elem()))
					wrong = twin.Interface()
					wrongKey := reflect.New(boxOf(typ.Key())).Interface()
					elem := reflect.New(typ.Elem()).Interface()
					mustPanic(t, fmt.Sprintf("IsNil of %v: %T", typ, wrong), func() { type2.IsNil(wrong) })
					mustPanic(t, fmt.Sprintf("Indirect of %v: %T", typ, wrong), func() { type2.Indirect(wrong) })
					mustPanic(t, fmt.Sprintf("SetIndex of %v in %T", typ, wrong), func() { type2.SetIndex(wrong, key.Interface(), elem) })
					mustPanic(t, fmt.Sprintf("SetIndex of %v at %T", typ, wrongKey), func() { type2.SetIndex(obj, wrongKey, elem) })
					mustPanic(t, fmt.Sprintf("TryGetIndex of %v in %T", typ, wrong), func() { type2.TryGetIndex(wrong, key.Interface()) })
					mustPanic(t, fmt.Sprintf("GetIndex of %v in %T", typ, wrong), func() { type2.GetIndex(wrong, key.Interface()) })
					mustPanic(t, fmt.Sprintf("GetIndex of %v at %T", typ, wrongKey), func() { type2.GetIndex(obj, wrongKey) })
					mustPanic(t, fmt.Sprintf("Set of %v from %T", typ, wrong), func() { type2.Set(obj, wrong) })
					mustPanic(t, fmt.Sprintf("Set of %v into %T", typ, wrong), func() { type2.Set(wrong, obj) })
				}
			}
			if model.Len() > most {
				most = model.Len()
			}
		}
		compareMap(t, typ, type2, obj, model, isSafe, !isSafe)
		compareMap(t, typ, type2, obj, model, isSafe, false)
		c.NonTrivial(most >= 3 && steps >= 5)
	})
}
