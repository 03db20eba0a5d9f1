package cachechk

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"reflect"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/v2pro/plz/countlog"
	"github.com/v2pro/plz/countlog/output"
	"github.com/v2pro/plz/countlog/output/printf"
	"github.com/v2pro/plz/countlog/spi"
	"github.com/v2pro/plz/countlog/stats"
	"github.com/v2pro/plz/msgfmt"
	"github.com/v2pro/plz/msgfmt/jsonfmt"
	"github.com/v2pro/plz/reflect2"
	"pgregory.net/rapid"
	"verifharness/hz"
)

// lines keeps what is written to it.
type lines struct {
	mu   sync.Mutex
	list []string
}

func (l *lines) Write(p []byte) (int, error) {
	l.mu.Lock()
	l.list = append(l.list, string(p))
	l.mu.Unlock()
	return len(p), nil
}

func (l *lines) take() []string {
	l.mu.Lock()
	defer l.mu.Unlock()
	list := l.list
	l.list = nil
	return list
}

// sums adds up the points that are collected.
type sums struct {
	mu   sync.Mutex
	sums map[string]float64
}

func (s *sums) Collect(point *stats.Point) {
	s.mu.Lock()
	s.sums[fmt.Sprintf("%s %q", point.Event, append([]string{}, point.Dimension...))] += point.Value
	s.mu.Unlock()
}

var sink = &lines{}

func TestMain(m *testing.M) {
	null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	hz.Infra(err)
	os.Stderr = null
	countlog.SetMinLevel(countlog.LevelInfo)
	countlog.EventWriter = output.NewEventWriter(output.EventWriterConfig{Format: &printf.Format{Layout: "{level} {message}"}, Writer: sink})
	hz.Main(m)
}

type (
	List struct {
		Val  int
		Next *List
	}
	Tree struct {
		Name  string
		Kids  []Tree
		Named map[string]*Tree
	}
	Ping  struct{ To *Pong }
	Pong  struct{ Back []Ping }
	Inner struct {
		A []string
		B map[string]int
	}
	Outer struct {
		In  Inner
		Ptr *Inner
		Arr [2]Inner
		Any interface{}
	}
	OnePtr struct{ P *Inner }
	Wide   struct {
		A int8
		B uint16
		C string
		D *string
		E []int64
		F map[string]Inner
		G bool
	}
)

func word() *string { w := "word"; return &w }

var jsonValues = []interface{}{
	List{1, &List{2, &List{3, nil}}}, &List{1, &List{2, nil}},
	Tree{"root", []Tree{{Name: "a", Kids: []Tree{{Name: "b"}}}}, map[string]*Tree{"x": {Name: "c"}}},
	map[string]*Tree{"t": {Name: "q", Kids: []Tree{{}}}},
	Ping{&Pong{[]Ping{{&Pong{}}, {}}}}, &Pong{[]Ping{{}, {&Pong{}}}},
	Outer{In: Inner{A: []string{"x", "y"}}, Ptr: &Inner{B: map[string]int{"k": 7}}, Any: Inner{A: []string{"z"}}},
	[]Outer{{}, {Any: []int{1, 2}}}, OnePtr{&Inner{A: []string{}}}, &OnePtr{}, [1]*Inner{{}}, [1]OnePtr{{&Inner{}}},
	Wide{1, 2, "three", word(), []int64{5, 6}, map[string]Inner{"f": {}}, true}, []Wide{{}, {}},
	map[int]string{5: "five"}, map[string][]byte{}, []interface{}{1, "a", nil, List{}}, errors.New, "text", 42, true,
	struct {
		X List
		Y *Tree
	}{List{9, nil}, nil},
}

var fresh int64

// together releases n goroutines at once and waits for them.
func together(n int, run func(g int)) (problem string) {
	var mu sync.Mutex
	var start, done sync.WaitGroup
	start.Add(n)
	done.Add(n)
	for g := 0; g < n; g++ {
		go func(g int) {
			defer done.Done()
			start.Done()
			start.Wait()
			if p := hz.NoPanic(func() { run(g) }); p != nil {
				mu.Lock()
				problem = fmt.Sprint("panic: ", p)
				mu.Unlock()
			}
		}(g)
	}
	done.Wait()
	return problem
}

func drawGang(t *rapid.T) int { return rapid.IntRange(2, 12).Draw(t, "goroutines") }

// rotate gives each goroutine the same jobs in an order of its own.
func rotate(g, i, n int) int { return (g*7 + i) % n }

// TestC32_json: the same values by a new config (or new types by the default
// one) from all goroutines at once.
func TestC32_json(t *testing.T) {
	hz.Run(t, 2500, "a new encoder config, or struct types made for the case, and 2 to 12 goroutines released at once that encode the same 1 to 8 values in different orders through the type or the object; compared with encoding/json; non-trivial: more than one value", func(t *rapid.T, c *hz.Case) {
		n := drawGang(t)
		var values []interface{}
		unexported := rapid.Bool().Draw(t, "unexported")
		makeTypes := rapid.Bool().Draw(t, "newTypes")
		count := rapid.IntRange(1, 8).Draw(t, "count")
		for i := 0; i < count; i++ {
			v := rapid.SampledFrom(jsonValues).Draw(t, "value")
			if !makeTypes {
				values = append(values, v)
				continue
			}
			typ := reflect.StructOf([]reflect.StructField{
				{Name: fmt.Sprintf("F%d", atomic.AddInt64(&fresh, 1)), Type: reflect.TypeOf(v)},
				{Name: "Last", Type: reflect.TypeOf(Outer{})}})
			obj := reflect.New(typ).Elem()
			obj.Field(0).Set(reflect.ValueOf(v))
			switch rapid.IntRange(0, 2).Draw(t, "shape") {
			case 0:
				values = append(values, obj.Interface())
			case 1:
				values = append(values, obj.Addr().Interface())
			default:
				values = append(values, reflect.Append(reflect.MakeSlice(reflect.SliceOf(typ), 0, 2), obj, obj).Interface())
			}
		}
		c.NonTrivial(len(values) > 1)
		desc := []string{}
		for _, v := range values {
			desc = append(desc, reflect.TypeOf(v).String())
		}
		c.Desc("%d goroutines, unexported %v, %v", n, unexported, desc)
		api := jsonfmt.ConfigDefault
		if !makeTypes {
			api = jsonfmt.Config{IncludesUnexported: unexported}.Froze()
		}
		got := make([][]string, n)
		problem := together(n, func(g int) {
			got[g] = make([]string, len(values))
			for i := range values {
				k := rotate(g, i, len(values))
				v := values[k]
				var enc jsonfmt.Encoder
				switch (g + i) % 3 {
				case 0:
					enc = api.EncoderOfObject(v)
				case 1:
					enc = api.EncoderOf(reflect2.TypeOf(v))
				default:
					if makeTypes {
						got[g][k] = jsonfmt.MarshalToString(v)
						continue
					}
					enc = api.EncoderOfObject(v)
				}
				got[g][k] = string(enc.Encode(nil, nil, reflect2.PtrOf(v)))
			}
		})
		if problem != "" {
			t.Fatal(problem)
		}
		for k, v := range values {
			want, err := json.Marshal(v)
			for g := range got {
				if err != nil { // contains what json does not know
					if got[g][k] != got[0][k] {
						t.Fatalf("%T: goroutine %d got %s, another one %s", v, g, got[g][k], got[0][k])
					}
					continue
				}
				if !sameJson(got[g][k], string(want)) {
					t.Fatalf("%T: goroutine %d got %s, want %s", v, g, got[g][k], want)
				}
			}
		}
	})
}

// sameJson compares documents; a nil slice is written as an empty one.
func sameJson(a, b string) bool {
	if a == b {
		return true
	}
	var x, y interface{}
	return json.Unmarshal([]byte(a), &x) == nil && json.Unmarshal([]byte(b), &y) == nil && reflect.DeepEqual(emptyIsNull(x), emptyIsNull(y))
}

func emptyIsNull(v interface{}) interface{} {
	switch v := v.(type) {
	case []interface{}:
		if len(v) == 0 {
			return nil
		}
		for i := range v {
			v[i] = emptyIsNull(v[i])
		}
	case map[string]interface{}:
		for key := range v {
			v[key] = emptyIsNull(v[key])
		}
	}
	return v
}

// TestC32_format: the same new templates from all goroutines at once, with
// arguments of their own.
func TestC32_format(t *testing.T) {
	hz.Run(t, 4000, "1 to 5 new templates of 1 to 4 parameters, and 2 to 12 goroutines released at once that format them several times each with values of their own types, in the same or another order of the arguments; non-trivial: the goroutines use different types", func(t *rapid.T, c *hz.Case) {
		n := drawGang(t)
		count := rapid.IntRange(1, 5).Draw(t, "templates")
		params := make([]int, count)
		var formats []string
		for i := range params {
			params[i] = rapid.IntRange(1, 4).Draw(t, "params")
			format := fmt.Sprintf("new %d:", atomic.AddInt64(&fresh, 1))
			for k := 0; k < params[i]; k++ {
				format += fmt.Sprintf(" {p%d}", k)
			}
			formats = append(formats, format)
		}
		kinds := make([]int, n)
		for g := range kinds {
			kinds[g] = rapid.IntRange(0, 3).Draw(t, "kind")
			c.NonTrivial(kinds[g] != kinds[0])
		}
		rounds := rapid.IntRange(1, 4).Draw(t, "rounds")
		c.Desc("%d goroutines with argument types %v, %d rounds of %q", n, kinds, rounds, formats)
		wrong := make([]string, n)
		problem := together(n, func(g int) {
			for round := 0; round < rounds; round++ {
				for i := range formats {
					k := rotate(g, i, len(formats))
					var kv []interface{}
					want := strings.SplitN(formats[k], ":", 2)[0] + ":"
					for p := 0; p < params[k]; p++ {
						key, text := fmt.Sprintf("p%d", p), fmt.Sprint(g*100000+round*1000+k*10+p)
						want += " "
						var value interface{}
						switch (kinds[g] + p) % 4 {
						case 0:
							value = text
						case 1:
							value = g*100000 + round*1000 + k*10 + p
						case 2:
							value = []string{text}
							text = fmt.Sprintf("[%q]", text)
						default:
							value = Inner{A: []string{text}}
							text = fmt.Sprintf(`{"A":[%q],"B":null}`, text)
						}
						want += text
						if g%2 == 0 {
							kv = append(kv, key, value)
						} else {
							kv = append([]interface{}{key, value}, kv...)
						}
					}
					if got := msgfmt.Sprintf(formats[k], kv...); got != want {
						wrong[g] = fmt.Sprintf("%q with %v gave %q, want %q", formats[k], kv, got, want)
					}
				}
			}
		})
		if problem != "" {
			t.Fatal(problem)
		}
		for _, problem := range wrong {
			if problem != "" {
				t.Fatal(problem)
			}
		}
	})
}

// TestC32_types: the same types by a new config from all goroutines at once.
func TestC32_types(t *testing.T) {
	hz.Run(t, 2500, "a new reflection config, safe or not, and 2 to 12 goroutines released at once that look up the same types, their elements and fields, and read and write values of their own through them; non-trivial: more than one type", func(t *rapid.T, c *hz.Case) {
		n := drawGang(t)
		safe := rapid.Bool().Draw(t, "safe")
		picks := rapid.SliceOfN(rapid.IntRange(0, 3), 1, 6).Draw(t, "types")
		made := reflect.StructOf([]reflect.StructField{
			{Name: "Pad", Type: reflect.TypeOf(byte(0))},
			{Name: fmt.Sprintf("F%d", atomic.AddInt64(&fresh, 1)), Type: reflect.TypeOf(0)}})
		c.Desc("%d goroutines, safe %v, %v, %v", n, safe, picks, made)
		c.NonTrivial(len(picks) > 1)
		api := reflect2.Config{UseSafeImplementation: safe}.Froze()
		wrong := make([]string, n)
		seen := make([][]reflect2.Type, n)
		problem := together(n, func(g int) {
			seen[g] = make([]reflect2.Type, len(picks))
			for i := range picks {
				k := rotate(g, i, len(picks))
				switch picks[k] {
				case 0:
					typ := api.Type2(made)
					seen[g][k] = typ
					st := typ.(reflect2.StructType)
					obj := st.New()
					val := g*100 + i
					st.Field(1).Set(obj, &val)
					if got := reflect.ValueOf(obj).Elem().Field(1).Int(); int(got) != val {
						wrong[g] = fmt.Sprintf("field set to %d is %d", val, got)
					}
					if got := st.FieldByName(made.Field(1).Name).Get(obj).(*int); *got != val {
						wrong[g] = fmt.Sprintf("field set to %d read as %d", val, *got)
					}
				case 1:
					typ := api.TypeOf([]string{})
					seen[g][k] = typ
					st := typ.(reflect2.SliceType)
					obj := st.MakeSlice(1, 1)
					text := fmt.Sprint(g, i)
					st.Append(obj, &text)
					if got := *obj.(*[]string); len(got) != 2 || got[1] != text {
						wrong[g] = fmt.Sprintf("append of %q made %q", text, got)
					}
				case 2:
					typ := api.TypeOf(map[string]int{})
					seen[g][k] = typ
					mt := typ.(reflect2.MapType)
					obj := mt.MakeMap(0)
					key, val := fmt.Sprint(g), i
					mt.SetIndex(obj, &key, &val)
					if got := *obj.(*map[string]int); len(got) != 1 || got[key] != i {
						wrong[g] = fmt.Sprintf("setting %q to %d made %v", key, i, got)
					}
				default:
					typ := api.TypeOf((*Outer)(nil))
					seen[g][k] = typ
					elem := typ.(reflect2.PtrType).Elem().(reflect2.StructType)
					for f := 0; f < elem.NumField(); f++ {
						want := reflect.TypeOf(Outer{}).Field(f)
						if got := elem.Field(f); got.Name() != want.Name || got.Type().Type1() != want.Type || got.Offset() != want.Offset {
							wrong[g] = fmt.Sprintf("field %d is %s %s", f, got.Name(), got.Type())
						}
					}
				}
			}
		})
		if problem != "" {
			t.Fatal(problem)
		}
		want := []reflect.Type{made, reflect.TypeOf([]string{}), reflect.TypeOf(map[string]int{}), reflect.TypeOf((*Outer)(nil))}
		for g := range wrong {
			if wrong[g] != "" {
				t.Fatal(wrong[g])
			}
			for k, typ := range seen[g] {
				if typ.Type1() != want[picks[k]] {
					t.Fatalf("goroutine %d got %v for %v", g, typ, want[picks[k]])
				}
			}
		}
	})
}

// TestC32_events: the same new events from all goroutines at once.
func TestC32_events(t *testing.T) {
	hz.Run(t, 2500, "1 to 4 new events, and 2 to 12 goroutines released at once that log them once or several times with properties of their own, partly as calls, partly counted; non-trivial: more than one event or different property types", func(t *rapid.T, c *hz.Case) {
		n := drawGang(t)
		count := rapid.IntRange(1, 4).Draw(t, "events")
		rounds := rapid.IntRange(1, 3).Draw(t, "rounds")
		kinds := make([]int, n)
		for g := range kinds {
			kinds[g] = rapid.IntRange(0, 2).Draw(t, "kind")
			c.NonTrivial(kinds[g] != kinds[0])
		}
		styles := make([]int, count)
		names := make([]string, count)
		for i := range names {
			styles[i] = rapid.IntRange(0, 2).Draw(t, "style")
			names[i] = fmt.Sprintf("new event %d {who} {what}", atomic.AddInt64(&fresh, 1))
		}
		c.NonTrivial(count > 1)
		c.Desc("%d goroutines with property types %v, %d rounds, events %q, styles %v", n, kinds, rounds, names, styles)
		sink.take()
		collected := &sums{sums: map[string]float64{}}
		withStats := rapid.Bool().Draw(t, "stats")
		var mu sync.Mutex
		var windows []*stats.Window
		if withStats {
			aggregator := stats.NewEventAggregator(stats.EventAggregatorConfig{Collector: collected, Executor: func(func(context.Context)) {}})
			before := countlog.EventAggregator
			defer func() { countlog.EventAggregator = before }()
			countlog.EventAggregator = spi.FuncEventSink(func(site *spi.LogSite) spi.EventHandler {
				handler := aggregator.HandlerOf(site)
				if state, _ := handler.(stats.State); state != nil {
					mu.Lock()
					windows = append(windows, state.GetWindow())
					mu.Unlock()
				}
				return handler
			})
		}
		problem := together(n, func(g int) {
			for round := 0; round < rounds; round++ {
				for i := range names {
					k := rotate(g, i, len(names))
					var what interface{}
					switch kinds[g] {
					case 0:
						what = round
					case 1:
						what = fmt.Sprint(round)
					default:
						what = []int{round}
					}
					switch styles[k] {
					case 0:
						countlog.Info(names[k], "who", g, "what", what)
					case 1:
						countlog.InfoCall(names[k], errors.New("failed"), "who", g, "what", what)
					default:
						countlog.Info(names[k], "who", g, "what", what, "agg", "counter", "dim", "city", "city", fmt.Sprint("c", g%3))
					}
					runtime.Gosched()
				}
			}
		})
		if problem != "" {
			t.Fatal(problem)
		}
		var want []string
		sumsWanted := map[string]float64{}
		for g := 0; g < n; g++ {
			for round := 0; round < rounds; round++ {
				for k, name := range names {
					what := fmt.Sprint(round)
					if kinds[g] == 2 {
						what = "[" + what + "]"
					}
					level := "INFO"
					switch styles[k] {
					case 1:
						level = "WARN"
					case 2:
						if withStats {
							sumsWanted[fmt.Sprintf("%s %q", name, []string{"city", fmt.Sprint("c", g%3)})]++
						}
						continue // counted, and below the call level
					}
					want = append(want, level+" "+strings.NewReplacer("{who}", fmt.Sprint(g), "{what}", what).Replace(name)+"\n")
				}
			}
		}
		got := sink.take()
		sort.Strings(got)
		sort.Strings(want)
		if !reflect.DeepEqual(got, append([]string{}, want...)) && len(got)+len(want) > 0 {
			t.Fatalf("written %q\nlogged  %q", got, want)
		}
		if withStats {
			for _, window := range windows {
				window.Export(time.Now())
			}
			if !reflect.DeepEqual(collected.sums, sumsWanted) {
				t.Fatalf("collected %v, counted %v", collected.sums, sumsWanted)
			}
		}
	})
}

// shapeOf tells what can be seen of a type and of those it is made of.
func shapeOf(typ reflect2.Type, depth int, out *[]string) {
	t1 := typ.Type1()
	like, rtype := "unknown", "unknown" // safe types do not tell
	hz.NoPanic(func() { like, rtype = fmt.Sprint(typ.LikePtr()), fmt.Sprint(typ.RType() != 0) })
	*out = append(*out, fmt.Sprintf("%s %v likePtr=%s nullable=%v rtype=%s zero=%v", typ.String(), typ.Kind(), like, typ.IsNullable(), rtype,
		reflect.DeepEqual(typ.Indirect(typ.New()), reflect.Zero(t1).Interface()) || t1.Kind() == reflect.Func))
	if depth == 0 {
		return
	}
	switch t1.Kind() {
	case reflect.Struct:
		st := typ.(reflect2.StructType)
		for i := 0; i < st.NumField(); i++ {
			field := st.Field(i)
			*out = append(*out, fmt.Sprintf("%s at %d", field.Name(), field.Offset()))
			shapeOf(field.Type(), depth-1, out)
		}
	case reflect.Map:
		shapeOf(typ.(reflect2.MapType).Key(), depth-1, out)
		shapeOf(typ.(reflect2.MapType).Elem(), depth-1, out)
	case reflect.Array:
		*out = append(*out, fmt.Sprint("length ", typ.(reflect2.ArrayType).Len()))
		shapeOf(typ.(reflect2.ArrayType).Elem(), depth-1, out)
	case reflect.Slice:
		shapeOf(typ.(reflect2.SliceType).Elem(), depth-1, out)
	case reflect.Ptr:
		shapeOf(typ.(reflect2.PtrType).Elem(), depth-1, out)
	}
}

// likePtr is what Type.LikePtr has to say.
func likePtr(t reflect.Type) bool {
	switch t.Kind() {
	case reflect.Ptr, reflect.Map, reflect.Chan, reflect.Func, reflect.UnsafePointer:
		return true
	case reflect.Array:
		return t.Len() == 1 && likePtr(t.Elem())
	case reflect.Struct:
		return t.NumField() == 1 && likePtr(t.Field(0).Type)
	}
	return false
}

func drawShape(t *rapid.T) reflect.Type {
	typ := rapid.SampledFrom([]reflect.Type{
		reflect.TypeOf(0), reflect.TypeOf(""), reflect.TypeOf(Inner{}), reflect.TypeOf(OnePtr{}), reflect.TypeOf((*error)(nil)).Elem(),
		reflect.TypeOf((*interface{})(nil)).Elem(), reflect.TypeOf((func())(nil)), reflect.TypeOf((chan int)(nil)), reflect.TypeOf(List{}), reflect.TypeOf(Pong{}),
	}).Draw(t, "base")
	for i := rapid.IntRange(1, 6).Draw(t, "wraps"); i > 0; i-- {
		switch rapid.IntRange(0, 6).Draw(t, "wrap") {
		case 0, 1:
			typ = reflect.PtrTo(typ)
		case 2, 3:
			typ = reflect.ArrayOf(1, typ)
		case 4:
			typ = reflect.ArrayOf(2, typ)
		case 5:
			typ = reflect.SliceOf(typ)
		default:
			typ = reflect.StructOf([]reflect.StructField{{Name: "Only", Type: typ}})
		}
	}
	return typ
}

// TestC32_shapes: what a type tells about itself is the same for whoever asks first.
func TestC32_shapes(t *testing.T) {
	hz.Run(t, 2000, "a new reflection config, safe or not, and 2 to 12 goroutines released at once that look at the same 1 to 4 generated types and all they are made of; compared with what one goroutine sees with another new config; non-trivial: more than one type", func(t *rapid.T, c *hz.Case) {
		n := drawGang(t)
		safe := rapid.Bool().Draw(t, "safe")
		var types []reflect.Type
		for i := rapid.IntRange(1, 4).Draw(t, "types"); i > 0; i-- {
			types = append(types, drawShape(t))
		}
		c.Desc("%d goroutines, safe %v, %v", n, safe, types)
		c.NonTrivial(len(types) > 1)
		look := func(api reflect2.API, typ reflect.Type) string {
			var out []string
			shapeOf(api.Type2(typ), 5, &out)
			return strings.Join(out, "; ")
		}
		cfg := reflect2.Config{UseSafeImplementation: safe}
		api := cfg.Froze()
		seen := make([][]string, n)
		problem := together(n, func(g int) {
			seen[g] = make([]string, len(types))
			for i := range types {
				k := rotate(g, i, len(types))
				seen[g][k] = look(api, types[k])
			}
		})
		if problem != "" {
			t.Fatal(problem)
		}
		one := cfg.Froze()
		for k, typ := range types {
			want := look(one, typ)
			for g := range seen {
				if seen[g][k] != want {
					t.Fatalf("goroutine %d sees %v as %s, one alone sees %s", g, typ, seen[g][k], want)
				}
			}
			if !safe && one.Type2(typ).LikePtr() != likePtr(typ) {
				t.Fatalf("%v: LikePtr is %v", typ, !likePtr(typ))
			}
		}
	})
}
