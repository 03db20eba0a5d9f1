package logchk

import (
	"context"
	"errors"
	"fmt"
	"math"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"unsafe"

	"github.com/v2pro/plz/countlog"
	"github.com/v2pro/plz/countlog/output"
	"github.com/v2pro/plz/countlog/spi"
	"pgregory.net/rapid"
	"verifharness/hz"
)

// ---- values that misbehave ----

type badStringer struct{ how string }

func (b badStringer) String() string { return misbehave(b.how) }

type badError struct{ how string }

func (b badError) Error() string { return misbehave(b.how) }

type badMarshaler struct{ how string }

func (b badMarshaler) MarshalJSON() ([]byte, error) {
	if b.how == "error" {
		return nil, errors.New("can not marshal")
	}
	if b.how == "garbage" {
		return []byte("{not json"), nil
	}
	return []byte(misbehave(b.how)), nil
}

func misbehave(how string) string {
	switch how {
	case "panic":
		panic("misbehaving value")
	case "panicNil":
		panic(nil)
	case "panicError": // what it panics with is of no use either
		panic(badError{"panic"})
	case "panicStringer":
		panic(&badStringer{"panicError"})
	case "panicNilError":
		panic((*badError)(nil))
	case "runtime":
		var m map[string]int
		m["x"] = 1
	case "log": // logs while it is being logged
		countlog.Error(fmt.Sprintf("event!nested %d", atomic.AddInt64(&serial, 1)), "k", "v")
	}
	return how
}

type nilStringer struct{ s string }

func (n *nilStringer) String() string { return n.s }

var hows = []string{"panic", "panicNil", "panicError", "panicStringer", "panicNilError", "runtime", "log", "fine", "error", "garbage"}

func drawBadValue(t *rapid.T) interface{} {
	how := rapid.SampledFrom(hows).Draw(t, "how")
	switch rapid.IntRange(0, 16).Draw(t, "bad") {
	case 0:
		return badStringer{how}
	case 1:
		return &badStringer{how}
	case 2:
		return badError{how}
	case 3:
		return &badError{how}
	case 4:
		return badMarshaler{how}
	case 5:
		return []interface{}{badMarshaler{how}, map[string]interface{}{"k": badError{how}}}
	case 6:
		return (*nilStringer)(nil)
	case 7:
		return (*badError)(nil)
	case 8:
		return make(chan int)
	case 9:
		return func() {}
	case 10:
		return complex(1, 2)
	case 11:
		return math.NaN()
	case 12:
		return unsafe.Pointer(&serial)
	case 13:
		return struct {
			C chan int
			F func()
			E error
			I interface{}
		}{E: badError{how}, I: badStringer{how}}
	case 14:
		return map[interface{}]interface{}{1: 2, "a": badError{how}, 2.5: nil}
	case 15:
		return "\xff\xfe"
	default:
		return strings.Repeat("long ", 5000)
	}
}

// ---- components that fail ----

type failures struct {
	mu      sync.Mutex
	plan    map[string][]string // component -> what it does on each use; fine once used up
	working bool                // all fine from now on
	writes  []string
	used    int
}

func (f *failures) next(component string) string {
	f.mu.Lock()
	defer f.mu.Unlock()
	if f.working || len(f.plan[component]) == 0 {
		return ""
	}
	what := f.plan[component][0]
	f.plan[component] = f.plan[component][1:]
	if what != "" {
		f.used++
	}
	return what
}

func (f *failures) act(component string) error {
	switch f.next(component) {
	case "panic":
		panic(component + " fails")
	case "panicErr":
		panic(errors.New(component + " fails"))
	case "panicBad":
		panic(badError{"panicNilError"})
	case "runtime":
		var p *point
		p.X = 1
	case "error":
		return errors.New(component + " fails")
	}
	return nil
}

func (f *failures) Write(p []byte) (int, error) {
	f.mu.Lock()
	working := f.working
	f.mu.Unlock()
	if err := f.act("writer"); err != nil {
		return len(p) / 2, err
	}
	if working {
		f.mu.Lock()
		f.writes = append(f.writes, string(p))
		f.mu.Unlock()
	}
	return len(p), nil
}

func (f *failures) take() []string {
	f.mu.Lock()
	defer f.mu.Unlock()
	writes := f.writes
	f.writes = nil
	return writes
}

type failingSink struct {
	f    *failures
	real spi.EventSink
}

func (s failingSink) HandlerOf(site *spi.LogSite) spi.EventHandler {
	s.f.act("sink")
	return failingHandler{s.f, s.real.HandlerOf(site)}
}

type failingHandler struct {
	f    *failures
	real spi.EventHandler
}

func (h failingHandler) Handle(event *spi.Event) {
	h.f.act("handler")
	h.real.Handle(event)
}

func (h failingHandler) LogSite() *spi.LogSite { return h.real.LogSite() }

// failingAggregator counts events with an agg property, all or none.
type failingAggregator struct {
	f      *failures
	counts string
}

func (s failingAggregator) HandlerOf(site *spi.LogSite) spi.EventHandler {
	s.f.act("aggregator")
	if s.counts == "none" || s.counts == "agg" && site.Agg == "" {
		return nil
	}
	return spi.EventHandlers{failingCounter{s.f, site}, &spi.DummyEventHandler{Site: site}}
}

type failingCounter struct {
	f    *failures
	site *spi.LogSite
}

func (h failingCounter) Handle(event *spi.Event) { h.f.act("counter") }

func (h failingCounter) LogSite() *spi.LogSite { return h.site }

type failingFormat struct {
	f    *failures
	real output.Format
}

func (s failingFormat) FormatterOf(site *spi.LogSite) output.Formatter {
	s.f.act("format")
	return failingFormatter{s.f, s.real.FormatterOf(site)}
}

type failingFormatter struct {
	f    *failures
	real output.Formatter
}

func (s failingFormatter) Format(space []byte, event *spi.Event) []byte {
	s.f.act("formatter")
	return s.real.Format(space, event)
}

// raw emits without looking at the properties.
func raw(fn string, ctx *countlog.Context, name string, err error, kv []interface{}) error {
	switch {
	case ctx == nil && fn == "Error":
		countlog.Error(name, kv...)
	case ctx == nil && fn == "Info":
		countlog.Info(name, kv...)
	case ctx == nil && fn == "Log":
		countlog.Log(countlog.LevelWarn, name, kv...)
	case ctx == nil && fn == "LogPanic":
		countlog.LogPanic(err, kv...)
	case ctx == nil:
		return countlog.InfoCall(name, err, kv...)
	case fn == "Error":
		ctx.Error(name, kv...)
	case fn == "Info":
		ctx.Info(name, kv...)
	case fn == "LogAccess":
		return ctx.LogAccess(name, err, kv...)
	default:
		return ctx.TraceCall(name, err, kv...)
	}
	return nil
}

// TestC20_hostile: misbehaving values, keys, names and components. Nothing
// escapes from the log calls, and once everything works again so does logging,
// also under the very name that failed.
func TestC20_hostile(t *testing.T) {
	defer resetLevels()
	defer func(sink spi.EventSink) { countlog.EventAggregator = sink }(countlog.EventAggregator)
	hz.Run(t, 12000, "up to 8 log calls with any event name, odd property counts, keys that are no strings and values whose methods panic, fail or log themselves, through a sink, handler, format, formatter, writer and aggregator that panic or fail on generated uses, followed by well-formed events when all components work again; non-trivial: a component failed or a value misbehaved", func(t *rapid.T, c *hz.Case) {
		countlog.SetMinLevel(rapid.SampledFrom([]int{0, 0, 30, 30, 100}).Draw(t, "min"))
		fm := drawFormat(t, "compact", "hrf", "json", "printf")
		f := &failures{plan: map[string][]string{}}
		desc := fm.String()
		for _, component := range []string{"sink", "handler", "format", "formatter", "writer", "aggregator", "counter"} {
			for i := rapid.IntRange(0, 6).Draw(t, component); i > 3; i-- {
				f.plan[component] = append(f.plan[component], rapid.SampledFrom([]string{"", "panic", "panicErr", "panicBad", "runtime", "error"}).Draw(t, "what"))
			}
			desc += fmt.Sprintf(" %s%q", component, f.plan[component])
		}
		countlog.EventWriter = failingSink{f, output.NewEventWriter(output.EventWriterConfig{Format: failingFormat{f, fm.make()}, Writer: f})}
		countlog.EventAggregator = failingAggregator{f, rapid.SampledFrom([]string{"none", "agg", "all"}).Draw(t, "counts")}
		tail := fmt.Sprintf(" #%d", atomic.AddInt64(&serial, 1))
		names := []string{
			drawName(t).text,
			rapid.String().Draw(t, "anyName") + tail,
			strings.Join(rapid.SliceOfN(rapid.SampledFrom([]string{"{", "}", "{a}", "{a,goTime}", "event!", "callee!", "{a,nofmt}", "\xff", "%"}), 0, 4).Draw(t, "pieces"), "") + tail,
		}
		ctx := countlog.Ctx(context.Background())
		if rapid.IntRange(0, 3).Draw(t, "ctxProp") == 0 {
			ctx.Add("c", drawBadValue(t))
		}
		bad := false
		for i := rapid.IntRange(1, 8).Draw(t, "calls"); i > 0; i-- {
			name := rapid.SampledFrom(names).Draw(t, "name")
			kv := flat(drawProps(t, 3))
			for j := rapid.IntRange(0, 3).Draw(t, "odd"); j > 0; j-- {
				switch rapid.IntRange(0, 4).Draw(t, "oddity") {
				case 0:
					kv = append(kv, drawBadValue(t)) // shifts keys and values
				case 1:
					kv = append(kv, nil, nil)
				case 2:
					kv = append(kv, "agg", drawBadValue(t))
				default:
					kv = append(kv, "a", drawBadValue(t))
				}
				bad = true
			}
			if rapid.IntRange(0, 5).Draw(t, "nokv") == 0 {
				kv = nil
			}
			var use *countlog.Context
			if rapid.Bool().Draw(t, "ctx") {
				use = ctx
			}
			fn := rapid.SampledFrom([]string{"Error", "Info", "Log", "InfoCall", "LogAccess", "TraceCall"}).Draw(t, "fn")
			var err error
			if rapid.Bool().Draw(t, "err") {
				err = rapid.SampledFrom([]error{errors.New("plain"), badError{"panic"}, badError{"runtime"}, badError{"panicError"}, badError{"log"}, &badError{"fine"}}).Draw(t, "cause")
			}
			desc += fmt.Sprintf("; %s ctx=%v err=%T %q %s", fn, use != nil, err, name, showKV(kv))
			c.Desc("%s", desc)
			var ret error
			if p := hz.NoPanic(func() { ret = raw(fn, use, name, err, kv) }); p != nil {
				t.Fatalf("log call panicked: %v\nhistory: %s", p, desc)
			}
			isCallFn := (use == nil && fn != "Error" && fn != "Info" && fn != "Log") || (use != nil && fn != "Error" && fn != "Info")
			if isCallFn && (ret == nil) != (err == nil) {
				t.Fatalf("call with error %T returned %v\nhistory: %s", err, ret == nil, desc)
			}
		}
		c.NonTrivial(bad || f.used > 0)
		if f.used > 0 {
			c.Label("component failed")
		}
		// now everything works: well-formed events come out, under new names and under those used before
		f.mu.Lock()
		f.working = true
		f.mu.Unlock()
		f.take()
		countlog.SetMinLevel(0)
		for i, n := range append([]string{fmt.Sprintf("event!good %d", atomic.AddInt64(&serial, 1))}, names...) {
			props := []interface{}{"a", "value", "b", 1, "key", "x", "user_id", 2, "名前", "y", "x1", true}
			if p := hz.NoPanic(func() { countlog.Error(n, props...) }); p != nil {
				t.Fatalf("well-formed event panicked afterwards: %v\nhistory: %s", p, desc)
			}
			got := f.take()
			if len(got) != 1 {
				t.Fatalf("well-formed event %q (%d) made %d writes after failures\nhistory: %s", n, i, len(got), desc)
			}
			if fm.name != "printf" && !strings.Contains(got[0], "value") {
				t.Fatalf("well-formed event %q is written without its property after failures: %q\nhistory: %s", n, got[0], desc)
			}
		}
	})
}

func showKV(kv []interface{}) string {
	var parts []string
	for _, v := range kv {
		switch typed := v.(type) {
		case string:
			parts = append(parts, fmt.Sprintf("%.30q", typed))
		case int, bool, nil, []int:
			parts = append(parts, fmt.Sprint(typed))
		default:
			parts = append(parts, fmt.Sprintf("%T", v))
		}
	}
	return "[" + strings.Join(parts, " ") + "]"
}

// TestC20_panic: LogPanic reports what was recovered and gives it back.
func TestC20_panic(t *testing.T) {
	var mu sync.Mutex
	var events []*spi.Event
	countlog.EventWriter = spi.FuncEventSink(func(*spi.LogSite) spi.EventHandler {
		return panicEvents
	})
	panicEvents.set(func(event *spi.Event) {
		mu.Lock()
		events = append(events, event)
		mu.Unlock()
	})
	defer resetLevels()
	hz.Run(t, 2000, "recovered values (also nil) with property lists, some with spare capacity, at any minimum level; non-trivial: there is a value and properties", func(t *rapid.T, c *hz.Case) {
		countlog.SetMinLevel(drawLevel(t))
		props := drawProps(t, 3)
		kv := make([]interface{}, 0, 2*len(props)+rapid.IntRange(0, 6).Draw(t, "spare"))
		kv = append(kv, flat(props)...)
		full := kv[:cap(kv)]
		var recovered interface{}
		if rapid.IntRange(0, 5).Draw(t, "nil") > 0 {
			recovered = rapid.SampledFrom([]interface{}{"boom", errors.New("boom"), 17, badError{"panic"}, &point{1, 2, "p"}}).Draw(t, "recovered")
		}
		c.Desc("LogPanic(%T) %s", recovered, showProps(props))
		c.NonTrivial(recovered != nil && len(props) > 0)
		var got interface{}
		if p := hz.NoPanic(func() { got = countlog.LogPanic(recovered, kv...) }); p != nil {
			t.Fatalf("LogPanic panicked: %v", p)
		}
		if got != recovered {
			t.Fatalf("LogPanic(%T) returned %T", recovered, got)
		}
		mu.Lock()
		seen := events
		events = nil
		mu.Unlock()
		for i := len(kv); i < len(full); i++ {
			if full[i] != nil {
				t.Fatalf("LogPanic wrote into the properties of its caller")
			}
		}
		if recovered == nil {
			if len(seen) != 0 {
				t.Fatalf("LogPanic(nil) logged %d events", len(seen))
			}
			return
		}
		if len(seen) != 1 || seen[0].Level != countlog.LevelFatal {
			t.Fatalf("LogPanic logged %d events", len(seen))
		}
		p := seen[0].Properties
		if len(p) != len(kv)+4 || p[len(kv)] != "err" || p[len(kv)+1] != recovered || p[len(kv)+2] != "stacktrace" {
			t.Fatalf("LogPanic logged %s", showKV(p))
		}
		stack := p[len(kv)+3].(string)
		if !strings.Contains(stack, "TestC20_panic") || strings.Contains(stack, "\x00") || !strings.HasPrefix(stack, "goroutine ") {
			t.Fatalf("LogPanic logged the stack trace %q", stack)
		}
	})
}
