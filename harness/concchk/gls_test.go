package concchk

import (
	"fmt"
	"reflect"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/v2pro/plz/gls"
	"pgregory.net/rapid"
	"verifharness/hz"
)

func TestMain(m *testing.M) { hz.Main(m) }

// op of a goroutine script.
type op struct {
	kind   string
	key    int
	value  int
	pause  int
	script []op // of a child
}

// copiable knows how many times it was copied.
type copiable struct{ n, copies int }

func (c *copiable) Copy() interface{} { return &copiable{c.n, c.copies + 1} }

// vanishing leaves nothing to those that inherit, counting a plain number.
type vanishing struct{ n int }

func (v vanishing) Copy() interface{} { return nil }

type counting int

func (c counting) Copy() interface{} { return int(c) + 1 }

// storable makes a value anew, for the storage or for the model
func storable(kind string, n int) interface{} {
	switch {
	case kind == "set":
		return n
	case n%5 == 0:
		return vanishing{n}
	case n%5 == 1:
		return counting(n)
	case n%5 == 2:
		return nil
	}
	return &copiable{n: n}
}

func drawScript(t *rapid.T, depth int, budget *int) []op {
	var ops []op
	for i := rapid.IntRange(1, 8).Draw(t, "ops"); i > 0; i-- {
		o := op{
			key:   rapid.IntRange(0, 3).Draw(t, "key"),
			value: rapid.IntRange(0, 999).Draw(t, "value"),
			pause: rapid.IntRange(0, 4).Draw(t, "pause"),
		}
		k := rapid.IntRange(-1, 13).Draw(t, "kind")
		switch {
		case k == -1:
			o.kind = "change"
		case k <= 3:
			o.kind = "set"
		case k == 4:
			o.kind = "setCopiable"
		case k <= 7:
			o.kind = "get"
		case k == 8:
			o.kind = "reset"
		case k == 9:
			o.kind = "delete"
		default:
			if depth <= 0 || *budget <= 0 {
				o.kind = "get"
				break
			}
			*budget--
			o.kind = rapid.SampledFrom([]string{"inherit", "inherit", "empty", "plain", "inheritLater", "emptyLater", "emptyTwice", "inheritTwice", "emptyHere", "inheritHere"}).Draw(t, "child")
			o.script = drawScript(t, depth-1, budget)
		}
		ops = append(ops, o)
	}
	if rapid.IntRange(0, 5).Draw(t, "ending") == 0 {
		ops = append(ops, op{kind: "panic"})
	}
	return ops
}

func describe(script []op) string {
	var parts []string
	for _, o := range script {
		text := fmt.Sprintf("%s(%d,%d)", o.kind, o.key, o.value)
		if o.script != nil {
			text = o.kind + "{" + describe(o.script) + "}"
		}
		parts = append(parts, text)
	}
	return strings.Join(parts, " ")
}

type world struct {
	wg      sync.WaitGroup
	mu      sync.Mutex
	problem string
	live    int
	most    int
	ended   []int64
}

func (w *world) failf(format string, args ...interface{}) {
	w.mu.Lock()
	defer w.mu.Unlock()
	if w.problem == "" {
		w.problem = fmt.Sprintf(format, args...)
	}
}

func glsKey(k int) interface{} {
	if k%2 == 0 {
		return k
	}
	return fmt.Sprint("key", k)
}

func show(v interface{}) string {
	if c, ok := v.(*copiable); ok {
		return fmt.Sprintf("copiable(%d, copied %d times)", c.n, c.copies)
	}
	return fmt.Sprint(v)
}

// sameValue compares what was stored; a copiable that was inherited is a copy.
func sameValue(got, want interface{}) bool {
	g, ok1 := got.(*copiable)
	w, ok2 := want.(*copiable)
	if ok1 && ok2 {
		return g.n == w.n && g.copies >= w.copies // at least once per inheritance
	}
	return got == want
}

// run executes a script on the current goroutine; model is what its storage
// has to hold, nil for none.
func (w *world) run(script []op, model map[interface{}]interface{}) {
	goid := gls.GoID()
	verify := func(when string) {
		if enabled := gls.IsGlsEnabled(goid); enabled != (model != nil) {
			w.failf("%s: IsGlsEnabled is %v, want %v", when, enabled, model != nil)
		}
		for k := 0; k < 4; k++ {
			if got := gls.Get(glsKey(k)); !sameValue(got, model[glsKey(k)]) {
				w.failf("%s: key %d is %s, want %s", when, k, show(got), show(model[glsKey(k)]))
			}
		}
		if content := gls.GetGls(goid); model != nil && len(content) != len(model) {
			w.failf("%s: storage %v, want %v", when, content, model)
		}
	}
	snapshot := func() map[interface{}]interface{} {
		child := map[interface{}]interface{}{}
		for k, v := range model {
			if c, ok := v.(interface{ Copy() interface{} }); ok {
				v = c.Copy()
			}
			child[k] = v
		}
		return child
	}
	var later []func()
	verify("start")
	for i, o := range script {
		when := fmt.Sprintf("op %d %s", i, o.kind)
		switch o.pause {
		case 0:
			runtime.Gosched()
		case 1:
			time.Sleep(time.Microsecond * time.Duration(o.value%50))
		}
		switch o.kind {
		case "set", "setCopiable":
			value := storable(o.kind, o.value)
			if model == nil {
				if hz.NoPanic(func() { gls.Set(glsKey(o.key), value) }) == nil {
					w.failf("%s without storage did not panic", when)
				}
				break
			}
			gls.Set(glsKey(o.key), value)
			// the model has objects of its own
			model[glsKey(o.key)] = storable(o.kind, o.value)
		case "change":
			// in place: only what was copied before stays as it is
			if want, ok := model[glsKey(o.key)].(*copiable); ok {
				if got, ok := gls.Get(glsKey(o.key)).(*copiable); ok && got.n == want.n {
					got.n, want.n = o.value, o.value
				} else {
					w.failf("%s(%d) finds %s, want %s", when, o.key, show(gls.Get(glsKey(o.key))), show(want))
				}
			}
		case "get":
			if got := gls.Get(glsKey(o.key)); !sameValue(got, model[glsKey(o.key)]) {
				w.failf("%s(%d) gives %s, want %s", when, o.key, show(got), show(model[glsKey(o.key)]))
			}
		case "reset":
			model = map[interface{}]interface{}{glsKey(o.key): o.value}
			gls.ResetGls(goid, map[interface{}]interface{}{glsKey(o.key): o.value})
		case "delete":
			model = nil
			gls.DeleteGls(goid)
		case "panic":
			panic("end of script")
		case "plain":
			w.spawn(o.script, func(f func()) func() { return f }, nil, false)
		case "inherit":
			w.spawn(o.script, gls.WithGls, snapshot(), true)
		case "empty":
			w.spawn(o.script, gls.WithEmptyGls, map[interface{}]interface{}{}, true)
		case "emptyTwice":
			// each run has a storage of its own
			child := o.script
			wrapped := gls.WithEmptyGls(func() { w.run(child, map[interface{}]interface{}{}) })
			w.start(wrapped, true)
			w.start(wrapped, true)
		case "inheritTwice":
			// the one after the other: what the first run stored is gone
			child, models := o.script, make(chan map[interface{}]interface{}, 2)
			models <- snapshot()
			models <- snapshot()
			wrapped := gls.WithGls(func() { w.run(child, <-models) })
			w.start(wrapped, true)
			w.start(wrapped, true)
		case "emptyHere", "inheritHere":
			// called without a goroutine of its own: the function still
			// sees nothing, or a copy; what the caller has then is not said
			wrap, childModel := gls.WithGls, snapshot()
			if o.kind == "emptyHere" {
				wrap, childModel = gls.WithEmptyGls, map[interface{}]interface{}{}
			}
			func() {
				defer func() {
					if r := recover(); r != nil && r != "end of script" {
						panic(r)
					}
				}()
				w.prepare(o.script, wrap, childModel)()
			}()
			model = map[interface{}]interface{}{glsKey(o.key): o.value}
			gls.ResetGls(goid, map[interface{}]interface{}{glsKey(o.key): o.value})
		case "inheritLater", "emptyLater":
			// wrapped now, started at the end: sees what was there now
			child, childModel := o.script, snapshot()
			wrap := gls.WithGls
			if o.kind == "emptyLater" {
				childModel = map[interface{}]interface{}{}
				wrap = gls.WithEmptyGls
			}
			wrapped := w.prepare(child, wrap, childModel)
			later = append(later, func() { w.start(wrapped, true) })
		}
		if i%3 == 0 {
			verify("after " + when)
		}
	}
	for _, f := range later {
		f()
	}
	verify("end")
}

// prepare wraps a script so that it can be started as a goroutine.
func (w *world) prepare(script []op, wrap func(func()) func(), model map[interface{}]interface{}) func() {
	return wrap(func() { w.run(script, model) })
}

func (w *world) start(wrapped func(), cleans bool) {
	w.wg.Add(1)
	w.mu.Lock()
	w.live++
	if w.live > w.most {
		w.most = w.live
	}
	w.mu.Unlock()
	go func() {
		goid := gls.GoID()
		defer func() {
			if r := recover(); r != nil && r != "end of script" {
				w.failf("panic: %v", r)
			}
			if cleans && gls.IsGlsEnabled(goid) {
				w.failf("storage of a finished goroutine is still there")
			}
			if !cleans {
				gls.DeleteGls(goid) // the script may have made storage of its own
			}
			w.mu.Lock()
			w.live--
			w.mu.Unlock()
			w.wg.Done()
		}()
		wrapped()
	}()
}

func (w *world) spawn(script []op, wrap func(func()) func(), model map[interface{}]interface{}, cleans bool) {
	w.start(w.prepare(script, wrap, model), cleans)
}

func TestC14_gls(t *testing.T) {
	hz.Run(t, 4000, "trees of up to 40 goroutines that set, change, get, reset, delete and inherit (at once or later) goroutine-local storage; non-trivial: at least three goroutines and one inheritance", func(t *rapid.T, c *hz.Case) {
		w := &world{}
		budget := 40
		var scripts [][]op
		for i := rapid.IntRange(1, 5).Draw(t, "roots"); i > 0; i-- {
			scripts = append(scripts, drawScript(t, 3, &budget))
		}
		desc := ""
		for _, s := range scripts {
			desc += describe(s) + " | "
		}
		c.Desc("%s", desc)
		for i, s := range scripts {
			if i%2 == 0 {
				w.spawn(s, gls.WithEmptyGls, map[interface{}]interface{}{}, true)
			} else {
				w.spawn(s, func(f func()) func() { return f }, nil, false)
			}
		}
		w.wg.Wait()
		if w.problem != "" {
			t.Fatalf("%s", w.problem)
		}
		c.NonTrivial(40-budget+len(scripts) >= 3 && strings.Contains(desc, "inherit"))
	})
}

// stackID is the id the runtime prints.
func stackID() int64 {
	buf := make([]byte, 64)
	buf = buf[:runtime.Stack(buf, false)]
	fields := strings.Fields(string(buf))
	id, err := strconv.ParseInt(fields[1], 10, 64)
	hz.Infra(err)
	return id
}

//go:noinline
func deep(n int, f func()) int {
	var pad [128]byte
	pad[n%128] = byte(n)
	if n == 0 {
		f()
		return int(pad[0])
	}
	return deep(n-1, f) + int(pad[n%128])
}

func TestC15_goid(t *testing.T) {
	// ids grow with every goroutine: get beyond 16 (quick) or 24 bits
	many := 150000
	if hz.Thorough() {
		many = 1<<24 + 1000
	}
	var wg sync.WaitGroup
	for w := 0; w < 8; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			done := make(chan bool)
			for i := 0; i < many/8; i++ {
				go func() { done <- true }()
				<-done
			}
		}()
	}
	wg.Wait()
	hz.Run(t, 600, "2 to 200 goroutines, after 150000 others in the quick and 2^24 in the thorough tier, alive at once that ask for their id between blocking, stack growth, thread locking and garbage collections; non-trivial: at least 10 goroutines", func(t *rapid.T, c *hz.Case) {
		n := rapid.IntRange(2, 200).Draw(t, "n")
		steps := rapid.SliceOfN(rapid.IntRange(0, 5), 1, 6).Draw(t, "steps")
		c.Desc("n=%d steps=%v", n, steps)
		c.NonTrivial(n >= 10)
		ids := make([]int64, n)
		problems := make([]string, n)
		var ready, done sync.WaitGroup
		release := make(chan struct{})
		for i := 0; i < n; i++ {
			ready.Add(1)
			done.Add(1)
			go func(i int) {
				defer done.Done()
				id := gls.GoID()
				ids[i] = id
				check := func(when int) {
					if again := gls.GoID(); again != id {
						problems[i] = fmt.Sprintf("id %d became %d after step %d", id, again, when)
					}
				}
				if want := stackID(); want != id {
					problems[i] = fmt.Sprintf("id is %d, the runtime says %d", id, want)
				}
				for s, step := range steps {
					switch (step + i) % 6 {
					case 0:
						runtime.Gosched()
					case 1:
						time.Sleep(time.Microsecond)
					case 2:
						deep(i*7%500, func() { check(-1) })
					case 3:
						if i%4 == 0 {
							runtime.LockOSThread()
							check(s)
							defer runtime.UnlockOSThread()
						}
					case 4:
						if i%64 == 0 {
							runtime.GC()
						}
					case 5:
						ch := make(chan int64)
						go func() { ch <- gls.GoID() }()
						if other := <-ch; other == id {
							problems[i] = fmt.Sprintf("a child has the id %d of its parent", id)
						}
					}
					check(s)
				}
				ready.Done()
				<-release
				check(99)
			}(i)
		}
		ready.Wait()
		close(release)
		done.Wait()
		seen := map[int64]int{}
		for i, id := range ids {
			if problems[i] != "" {
				t.Fatalf("goroutine %d: %s", i, problems[i])
			}
			if j, found := seen[id]; found {
				t.Fatalf("goroutines %d and %d are both %d", i, j, id)
			}
			seen[id] = i
		}
	})
}

var _ = reflect.TypeOf
