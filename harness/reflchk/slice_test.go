package reflchk

import (
	"fmt"
	"reflect"
	"testing"
	"unsafe"

	"github.com/v2pro/plz/reflect2"
	"pgregory.net/rapid"
	"verifharness/hz"
)

// backing of two slices is compared up to the capacity.
func compareSlices(t *rapid.T, what string, typ reflect.Type, real, model []reflect.Value) {
	for i := range real {
		r, m := real[i].Elem(), model[i].Elem()
		if r.IsNil() != m.IsNil() || r.Len() != m.Len() || r.Cap() != m.Cap() {
			t.Fatalf("%s: %v #%d has len %d cap %d nil %v, want len %d cap %d nil %v", what, typ, i, r.Len(), r.Cap(), r.IsNil(), m.Len(), m.Cap(), m.IsNil())
		}
		if r.Cap() == 0 {
			continue
		}
		r, m = r.Slice(0, r.Cap()), m.Slice(0, m.Cap())
		for j := 0; j < r.Len(); j++ {
			if !same(r.Index(j), m.Index(j)) {
				t.Fatalf("%s: %v #%d at %d (len %d, cap %d) is %s, want %s", what, typ, i, j, real[i].Elem().Len(), r.Cap(), show(r.Index(j)), show(m.Index(j)))
			}
		}
	}
}

func TestC13_slices(t *testing.T) {
	hz.Run(t, 20000, "element types x up to 40 operations (make, append, grow, shrink, set, get, nil, assign and re-slice so that slices share memory, garbage collection) on three slices x safe and unsafe, typed and untyped; non-trivial: at least 5 operations of which one reallocates", func(t *rapid.T, c *hz.Case) {
		typ := reflect.SliceOf(drawType(t, rapid.IntRange(0, 2).Draw(t, "depth")))
		isSafe := rapid.Bool().Draw(t, "safe")
		var api reflect2.API = reflect2.ConfigUnsafe
		if isSafe {
			api = reflect2.ConfigSafe
		}
		type2 := api.Type2(typ).(reflect2.SliceType)
		if type2.Elem().Type1() != typ.Elem() {
			t.Fatalf("%v has elem %v", typ, type2.Elem())
		}
		real := make([]reflect.Value, 3)
		model := make([]reflect.Value, 3)
		for i := range real {
			real[i] = reflect.ValueOf(type2.New())
			model[i] = reflect.New(typ)
		}
		desc := fmt.Sprintf("%v safe=%v:", typ, isSafe)
		reallocated := false
		steps := rapid.IntRange(1, 40).Draw(t, "steps")
		drawElem := func() reflect.Value {
			elem := reflect.New(typ.Elem())
			fill(t, elem.Elem(), 2)
			return elem
		}
		for n := 0; n < steps; n++ {
			i := rapid.IntRange(0, 2).Draw(t, "slice")
			obj := real[i].Interface()
			ptr := unsafe.Pointer(real[i].Pointer())
			untyped := !isSafe && rapid.Bool().Draw(t, "untyped")
			op := rapid.IntRange(0, 13).Draw(t, "op")
			desc += fmt.Sprintf(" %d#%d", op, i)
			c.Desc("%s", desc)
			m := model[i].Elem()
			what := ""
			// grown makes the model follow a change of length
			grown := func(newLen int) {
				if newLen <= m.Cap() {
					m.SetLen(newLen)
					return
				}
				reallocated = true
				newCap := real[i].Elem().Cap()
				if newCap < newLen {
					t.Fatalf("%s of %v: capacity %d for %d elements", what, typ, newCap, newLen)
				}
				s := reflect.MakeSlice(typ, newLen, newCap)
				reflect.Copy(s, m)
				m.Set(s)
			}
			switch op {
			case 0:
				length := rapid.IntRange(0, 4).Draw(t, "len")
				capacity := length + rapid.IntRange(0, 4).Draw(t, "spare")
				what = fmt.Sprintf("MakeSlice(%d, %d)", length, capacity)
				var made interface{}
				if untyped {
					made = reflect.NewAt(typ, type2.UnsafeMakeSlice(length, capacity)).Interface()
				} else {
					made = type2.MakeSlice(length, capacity)
				}
				if reflect.TypeOf(made) != reflect.PtrTo(typ) {
					t.Fatalf("%s of %v gives %T", what, typ, made)
				}
				real[i] = reflect.ValueOf(made)
				if got := real[i].Elem().Cap(); got < capacity {
					t.Fatalf("%s of %v has capacity %d", what, typ, got)
				}
				model[i] = reflect.New(typ)
				model[i].Elem().Set(reflect.MakeSlice(typ, length, real[i].Elem().Cap()))
			case 1, 2, 3, 4:
				what = "Append"
				elem := drawElem()
				want := clone(elem.Elem())
				oldLen := m.Len()
				if untyped {
					type2.UnsafeAppend(ptr, unsafe.Pointer(elem.Pointer()))
				} else {
					type2.Append(obj, elem.Interface())
				}
				grown(oldLen + 1)
				m.Index(oldLen).Set(want)
				elem.Elem().Set(reflect.Zero(typ.Elem()))
			case 5, 6:
				newLen := rapid.OneOf(rapid.IntRange(0, m.Cap()+3), rapid.SampledFrom([]int{0, 1, 20, 300, 1100})).Draw(t, "newLen")
				what = fmt.Sprintf("Grow(%d)", newLen)
				if untyped {
					type2.UnsafeGrow(ptr, newLen)
				} else {
					type2.Grow(obj, newLen)
				}
				grown(newLen)
			case 7, 8:
				if m.Len() == 0 {
					continue
				}
				idx := rapid.IntRange(0, m.Len()-1).Draw(t, "idx")
				what = fmt.Sprintf("SetIndex(%d)", idx)
				elem := drawElem()
				m.Index(idx).Set(elem.Elem())
				if untyped {
					type2.UnsafeSetIndex(ptr, idx, unsafe.Pointer(elem.Pointer()))
				} else {
					type2.SetIndex(obj, idx, elem.Interface())
				}
			case 9:
				if m.Len() == 0 {
					continue
				}
				idx := rapid.IntRange(0, m.Len()-1).Draw(t, "idx")
				what = fmt.Sprintf("GetIndex(%d)", idx)
				if untyped {
					if got := type2.UnsafeGetIndex(ptr, idx); uintptr(got) != real[i].Elem().Index(idx).UnsafeAddr() {
						t.Fatalf("Unsafe%s of %v is %d bytes off", what, typ, int64(uintptr(got))-int64(real[i].Elem().Index(idx).UnsafeAddr()))
					}
				} else {
					got := type2.GetIndex(obj, idx)
					if reflect.TypeOf(got) != reflect.PtrTo(typ.Elem()) || !same(reflect.ValueOf(got).Elem(), m.Index(idx)) {
						t.Fatalf("%s of %v: %T %v, want %s", what, typ, got, got, show(m.Index(idx)))
					}
				}
			case 10:
				what = "SetNil"
				if untyped {
					type2.UnsafeSetNil(ptr)
				} else {
					type2.SetNil(obj)
				}
				m.Set(reflect.Zero(typ))
			case 11:
				j := rapid.IntRange(0, 2).Draw(t, "other")
				what = fmt.Sprintf("Set from #%d", j)
				if untyped {
					type2.UnsafeSet(ptr, unsafe.Pointer(real[j].Pointer()))
				} else {
					type2.Set(obj, real[j].Interface())
				}
				m.Set(model[j].Elem())
			case 12: // re-slice with plain Go, so that a slice may grow into memory of another
				if m.IsNil() {
					continue
				}
				from := rapid.IntRange(0, m.Len()).Draw(t, "from")
				to := rapid.IntRange(from, m.Len()).Draw(t, "to")
				what = "re-slicing"
				max := m.Cap()
				if rapid.Bool().Draw(t, "limited") {
					max = to
				}
				real[i].Elem().Set(real[i].Elem().Slice3(from, to, max))
				m.Set(m.Slice3(from, to, max))
			case 13:
				what = "garbage collection"
				if rapid.IntRange(0, 9).Draw(t, "gc") == 0 {
					churn()
				}
				if !isSafe {
					wrong := reflect.New(reflect.PtrTo(typ.Elem())).Interface()
					mustPanic(t, fmt.Sprintf("Append to %v of %T", typ, wrong), func() { type2.Append(obj, wrong) })
					mustPanic(t, fmt.Sprintf("Append of %v to %T", typ, wrong), func() { type2.Append(wrong, reflect.New(typ.Elem()).Interface()) })
					mustPanic(t, fmt.Sprintf("Grow of %v: %T", typ, wrong), func() { type2.Grow(wrong, 1) })
					mustPanic(t, fmt.Sprintf("LengthOf of %v: %T", typ, wrong), func() { type2.LengthOf(wrong) })
					mustPanic(t, fmt.Sprintf("SetNil of %v: %T", typ, wrong), func() { type2.SetNil(wrong) })
					// of the same layout, but of another type
					twin := reflect.New(reflect.SliceOf(boxOf(typ.Elem())))
					twin.Elem().Set(reflect.MakeSlice(twin.Type().Elem(), 2, 4))
					wrong = twin.Interface()
					wrongElem := reflect.New(boxOf(typ.Elem())).Interface()
					elem := reflect.New(typ.Elem()).Interface()
					mustPanic(t, fmt.Sprintf("Set of %v from %T", typ, wrong), func() { type2.Set(obj, wrong) })
					mustPanic(t, fmt.Sprintf("Set of %v into %T", typ, wrong), func() { type2.Set(wrong, obj) })
					mustPanic(t, fmt.Sprintf("IsNil of %v: %T", typ, wrong), func() { type2.IsNil(wrong) })
					mustPanic(t, fmt.Sprintf("Indirect of %v: %T", typ, wrong), func() { type2.Indirect(wrong) })
					mustPanic(t, fmt.Sprintf("SetIndex of %v in %T", typ, wrong), func() { type2.SetIndex(wrong, 0, elem) })
					mustPanic(t, fmt.Sprintf("GetIndex of %v in %T", typ, wrong), func() { type2.GetIndex(wrong, 0) })
					mustPanic(t, fmt.Sprintf("Cap of %v: %T", typ, wrong), func() { type2.Cap(wrong) })
					mustPanic(t, fmt.Sprintf("LengthOf of %v: %T", typ, wrong), func() { type2.LengthOf(wrong) })
					mustPanic(t, fmt.Sprintf("Append to %v of %T", typ, wrongElem), func() { type2.Append(obj, wrongElem) })
					if type2.LengthOf(obj) > 0 {
						mustPanic(t, fmt.Sprintf("SetIndex of %v to %T", typ, wrongElem), func() { type2.SetIndex(obj, 0, wrongElem) })
					}
				}
			}
			for k := range real {
				o := real[k].Interface()
				length, capacity, isNil := model[k].Elem().Len(), model[k].Elem().Cap(), model[k].Elem().IsNil()
				if type2.LengthOf(o) != length || type2.Cap(o) != capacity || type2.IsNil(o) != isNil {
					t.Fatalf("after %s of #%d: %v #%d has length %d, cap %d, nil %v, want %d, %d, %v", what, i, typ, k, type2.LengthOf(o), type2.Cap(o), type2.IsNil(o), length, capacity, isNil)
				}
				if p := unsafe.Pointer(real[k].Pointer()); !isSafe && (type2.UnsafeLengthOf(p) != length || type2.UnsafeCap(p) != capacity || type2.UnsafeIsNil(p) != isNil) {
					t.Fatalf("after %s of #%d: %v #%d has unsafe length %d, cap %d, nil %v", what, i, typ, k, type2.UnsafeLengthOf(p), type2.UnsafeCap(p), type2.UnsafeIsNil(p))
				}
			}
			compareSlices(t, fmt.Sprintf("after %s of #%d", what, i), typ, real, model)
		}
		c.NonTrivial(reallocated && steps >= 5)
	})
}
