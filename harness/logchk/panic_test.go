package logchk

import (
	"context"
	"errors"
	"fmt"
	"io"
	"os"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/v2pro/plz/countlog"
	"github.com/v2pro/plz/concurrent"
	"github.com/v2pro/plz/countlog/spi"
	"pgregory.net/rapid"
	"verifharness/hz"
)

// panicky panics instead of writing as often as told.
type panicky struct {
	mu   sync.Mutex
	left int
	how  int // what it panics with
	real io.Writer
}

var howPanicky = []func(){
	func() { panic("disk gone") },
	func() { panic(errors.New("disk gone")) },
	func() { var m map[string]int; m["disk gone"] = 1 },
	func() { var buf []byte; _ = buf[os.Getpid()] },
	func() { panic(io.EOF) },
	func() { panic(42) },
	func() { panic(struct{ v interface{} }{nil}) },
}

func (p *panicky) Write(buf []byte) (int, error) {
	p.mu.Lock()
	fails := p.left > 0
	if fails {
		p.left--
	}
	p.mu.Unlock()
	if fails {
		howPanicky[p.how]()
	}
	return p.real.Write(buf)
}

type place struct{}

func (place) method(c *call, n string, kv []interface{}) {
	c.site = here(); countlog.Error(n, kv...)
}

func (*place) ptrMethod(c *call, n string, kv []interface{}) {
	c.site = here(); countlog.Fatal(n, kv...)
}

func placeWarn(c *call, n string, kv []interface{}) {
	c.site = here(); countlog.Warn(n, kv...)
}

func placeTwo(c *call, n string, kv []interface{}) {
	if len(kv)%4 == 0 {
		c.site = here(); countlog.Error(n, kv...)
		return
	}
	c.site = here(); countlog.Error(n, kv...)
}

var places = []struct {
	fn   string
	emit func(c *call, n string, kv []interface{})
}{
	{"Warn", placeWarn},
	{"Error", placeTwo},
	{"Error", placeTwo},
	{"Error", place{}.method},
	{"Fatal", (&place{}).ptrMethod},
	{"Error", func(c *call, n string, kv []interface{}) {
		c.site = here(); countlog.Error(n, kv...)
	}},
}

// afterPanics logs from several functions under a few names while writing
// panics now and then. The first panic under a name makes the event be handled
// once more, afterwards every call site has a handler of its own.
func afterPanics(t *rapid.T, c *hz.Case, lines bool) {
	f := drawFormat(t, "compact", "hrf", "printf")
	if rapid.IntRange(0, 3).Draw(t, "json") == 0 {
		f = format{name: "json", json: true}
	}
	cap := &capture{}
	w := &panicky{real: cap}
	countlog.EventWriter = writerTo(f.make(), w)
	counted := map[string]int{}
	counts := rapid.Bool().Draw(t, "counts")
	defer func(sink spi.EventSink) { countlog.EventAggregator = sink }(countlog.EventAggregator)
	countlog.EventAggregator = spi.FuncEventSink(func(site *spi.LogSite) spi.EventHandler {
		if !counts {
			return nil
		}
		name := site.Event
		return spi.FuncEventHandler(func(*spi.Event) { counted[name]++ })
	})
	var names []name
	for i := rapid.IntRange(1, 2).Draw(t, "names"); i > 0; i-- {
		names = append(names, name{kind: "event", text: fmt.Sprintf("event!after panics #%d", atomic.AddInt64(&serial, 1))})
	}
	desc := fmt.Sprintf("%s counts=%v", f, counts)
	panicked := map[string]bool{}
	sites := siteMap{}
	calls := map[string]int{}
	panics := 0
	for i := rapid.IntRange(2, 12).Draw(t, "steps"); i > 0; i-- {
		at := rapid.IntRange(0, len(places)-1).Draw(t, "place")
		call := &call{name: rapid.SampledFrom(names).Draw(t, "name"), fn: places[at].fn, props: drawProps(t, 2)}
		fails := rapid.SampledFrom([]int{0, 0, 0, 0, 1, 1, 2}).Draw(t, "panics")
		w.left = fails
		w.how = rapid.IntRange(0, len(howPanicky)-1).Draw(t, "how")
		text := call.name.text
		desc += fmt.Sprintf("; place %d name %s panics=%d(%d) %s", at, text[strings.LastIndex(text, "#"):], fails, w.how, showProps(call.props))
		c.Desc("%s", desc)
		calls[text]++
		kv := flat(call.props)
		call.before = time.Now()
		if p := hz.NoPanic(func() { places[at].emit(call, text, kv) }); p != nil {
			t.Fatalf("log call panicked: %v\nhistory: %s", p, desc)
		}
		call.after = time.Now()
		allowed := sites.add(call)
		want := 1
		switch {
		case fails == 0 && panicked[text]:
			allowed = []site{call.site}
		case fails == 0:
		case panicked[text] || fails > 1:
			want = 0
		default:
			allowed = []site{call.site, {call.site.function, "unknown", 0}, {sites[text][0].function, "unknown", 0}}
		}
		panics += fails
		if fails > 0 {
			panicked[text] = true
		}
		writes := cap.take()
		if len(writes) != want {
			t.Fatalf("%d writes, not %d, of the last event: %q\nhistory: %s", len(writes), want, writes, desc)
		}
		if counts && counted[text] != calls[text] {
			t.Fatalf("%d events are counted %d times\nhistory: %s", calls[text], counted[text], desc)
		}
		if lines && want == 1 {
			if problem := f.check(writes[0], call, nil, allowed); problem != "" {
				t.Fatalf("%s\nhistory: %s", problem, desc)
			}
		}
	}
	c.NonTrivial(panics > 0)
	c.Label(f.name)
}

// TestC20_afterPanic: what becomes of the event at which a writer panics, and of those after it.
func TestC20_afterPanic(t *testing.T) {
	defer resetLevels()
	countlog.SetMinLevel(0)
	hz.Run(t, 3000, "2 to 12 events under 1 or 2 names from six call sites, the writer panics at some of them before it writes, with or without a collector that counts; non-trivial: it panicked", func(t *rapid.T, c *hz.Case) {
		afterPanics(t, c, false)
	})
}

// TestC21_afterPanic: the same, looking at the lines, which name the very call site after a panic.
func TestC21_afterPanic(t *testing.T) {
	defer resetLevels()
	countlog.SetMinLevel(0)
	hz.Run(t, 3000, "2 to 12 events under 1 or 2 names from six call sites, the writer panics at some of them before it writes; non-trivial: it panicked", func(t *rapid.T, c *hz.Case) {
		afterPanics(t, c, true)
	})
}

// TestC20_jobs: a panic in a job of an executor is logged as a fatal event.
func TestC20_jobs(t *testing.T) {
	defer resetLevels()
	events := make(chan *spi.Event, 100)
	countlog.EventWriter = spi.FuncEventSink(func(*spi.LogSite) spi.EventHandler {
		return panicEvents
	})
	panicEvents.set(func(event *spi.Event) { events <- event })
	executor := concurrent.NewUnboundedExecutor()
	defer executor.Stop()
	hz.Run(t, 400, "1 to 5 jobs of an executor that panic or return, at any minimum level; non-trivial: one panicked", func(t *rapid.T, c *hz.Case) {
		countlog.SetMinLevel(drawLevel(t))
		want := map[string]int{}
		var jobs []interface{}
		panics := 0
		for i := rapid.IntRange(1, 5).Draw(t, "jobs"); i > 0; i-- {
			v := rapid.SampledFrom([]interface{}{nil, "boom", errors.New("boom"), 17, listCause{"a"}, point{1, 2, "p"}}).Draw(t, "panics")
			jobs = append(jobs, v)
			if v != nil {
				panics++
				want[fmt.Sprintf("%T %v", v, v)]++
			}
		}
		c.Desc("jobs that panic with %v", jobs)
		c.NonTrivial(panics > 0)
		for _, v := range jobs {
			v := v
			executor.Go(func(context.Context) {
				if v != nil {
					panic(v)
				}
			})
		}
		got := map[string]int{}
		for i := 0; i < panics; i++ {
			select {
			case event := <-events:
				text := fmt.Sprintf("level %d without err", event.Level)
				for k := 0; k+1 < len(event.Properties); k += 2 {
					if event.Properties[k] == "err" && event.Level == countlog.LevelFatal {
						text = fmt.Sprintf("%T %v", event.Properties[k+1], event.Properties[k+1])
					}
				}
				got[text]++
			case <-time.After(20 * time.Second):
				t.Fatalf("%d jobs panicked, only %d were logged: %v", panics, i, got)
			}
		}
		if fmt.Sprint(got) != fmt.Sprint(want) {
			t.Fatalf("jobs panicked with %v, logged are %v", want, got)
		}
	})
}

// panicEvents is the handler of event!panic, which stays the same for the whole process.
var panicEvents = &eventHook{}

type eventHook struct {
	mu   sync.Mutex
	hook func(event *spi.Event)
}

func (h *eventHook) set(hook func(event *spi.Event)) {
	h.mu.Lock()
	defer h.mu.Unlock()
	h.hook = hook
}

func (h *eventHook) Handle(event *spi.Event) {
	h.mu.Lock()
	hook := h.hook
	h.mu.Unlock()
	hook(event)
}

func (h *eventHook) LogSite() *spi.LogSite { return &spi.LogSite{} }
