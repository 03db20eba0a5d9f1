package logchk

import (
	"context"
	"fmt"
	"sync"
	"testing"

	"github.com/v2pro/plz/countlog"
	"github.com/v2pro/plz/countlog/output/compact"
	"github.com/v2pro/plz/countlog/spi"
	"github.com/v2pro/plz/countlog/stats"
	"pgregory.net/rapid"
	"verifharness/hz"
)

// recorder is a sink that keeps the events themselves.
type recorder struct {
	mu     sync.Mutex
	events []recorded
}

type recorded struct {
	event *spi.Event
	name  string
	agg   string
}

func (r *recorder) HandlerOf(s *spi.LogSite) spi.EventHandler {
	name, agg := s.Event, s.Agg
	return spi.FuncEventHandler(func(event *spi.Event) {
		r.mu.Lock()
		r.events = append(r.events, recorded{event, name, agg})
		r.mu.Unlock()
	})
}

func (r *recorder) take() []recorded {
	r.mu.Lock()
	defer r.mu.Unlock()
	events := r.events
	r.events = nil
	return events
}

type nullCollector struct{}

func (nullCollector) Collect(*stats.Point) {}

// checkRecorded compares a recorded event with the call.
func checkRecorded(t fataler, r recorded, c *call) {
	if r.name != c.name.text {
		t.Fatalf("%s arrived as %q", c, r.name)
	}
	if r.event.Level != c.eventLevel() {
		t.Fatalf("%s arrived with level %d, want %d", c, r.event.Level, c.eventLevel())
	}
	// the cause is replaced by the formatted error once the event is handled
	if (r.event.Error == nil) != (c.err == nil) {
		t.Fatalf("%s arrived with error %v", c, r.event.Error)
	}
	if r.event.Timestamp.Before(c.before) || r.event.Timestamp.After(c.after) {
		t.Fatalf("%s arrived with timestamp %v, not in %v .. %v", c, r.event.Timestamp, c.before, c.after)
	}
	if len(r.event.Properties) != 2*len(c.props) {
		t.Fatalf("%s arrived with properties %v", c, r.event.Properties)
	}
	for i := range r.event.Properties {
		if fmt.Sprintf("%T%v", r.event.Properties[i], r.event.Properties[i]) != fmt.Sprintf("%T%v", c.kv[i], c.kv[i]) {
			t.Fatalf("%s arrived with properties %v", c, r.event.Properties)
		}
	}
}

// TestC18_levels: histories of configuration changes and log calls.
func TestC18_levels(t *testing.T) {
	defer resetLevels()
	executors := make(chan struct{})
	defer close(executors)
	aggregator := countlog.EventAggregator
	hz.Run(t, 40000, "up to 15 steps of setting the minimum level (or the two thresholds apart) and calling any log function, plain or through a context, with and without error, on up to 3 event names, without and with a stats collector or an aggregator that panics now and then; non-trivial: something was written and something was held back", func(t *rapid.T, c *hz.Case) {
		resetLevels()
		rec := &recorder{}
		countlog.EventWriter = rec
		countlog.EventAggregator = aggregator
		desc := ""
		if rapid.IntRange(0, 3).Draw(t, "collector") == 0 {
			countlog.EventAggregator = stats.NewEventAggregator(stats.EventAggregatorConfig{
				Executor: func(func(context.Context)) {}, Collector: nullCollector{},
			})
			desc = "collector; "
		} else if rapid.IntRange(0, 15).Draw(t, "custom") == 0 {
			// counts calls by itself, and fails now and then
			f := &failures{plan: map[string][]string{"counter": rapid.SliceOfN(rapid.SampledFrom([]string{"", "panic", "runtime"}), 1, 6).Draw(t, "counter")}}
			countlog.EventAggregator = failingAggregator{f, "agg"}
			desc = fmt.Sprintf("custom aggregator %v; ", f.plan)
		}
		var names []name
		for i := rapid.IntRange(1, 3).Draw(t, "names"); i > 0; i-- {
			names = append(names, drawName(t))
		}
		ctxs := []*ctxModel{{ctx: countlog.Ctx(context.Background())}}
		in, out := 0, 0
		for i := rapid.IntRange(1, 15).Draw(t, "steps"); i > 0; i-- {
			switch rapid.IntRange(0, 9).Draw(t, "step") {
			case 0, 1:
				level := drawLevel(t)
				desc += fmt.Sprintf("SetMinLevel(%d); ", level)
				countlog.SetMinLevel(level)
				if spi.MinLevel != level || spi.MinCallLevel != level+5 {
					t.Fatalf("SetMinLevel(%d) made the minimum %d and %d", level, spi.MinLevel, spi.MinCallLevel)
				}
			case 2:
				spi.MinCallLevel = drawLevel(t)
				desc += fmt.Sprintf("MinCallLevel=%d; ", spi.MinCallLevel)
			default:
				call := drawCall(t, names, ctxs)
				desc += call.String() + "; "
				c.Desc("%s", desc)
				call.emit()
				events := rec.take()
				want := 0
				if call.written() {
					want = 1
					in++
				} else {
					out++
				}
				if len(events) != want {
					t.Fatalf("with minimum %d and %d, %s was written %d times, want %d\nhistory: %s", spi.MinLevel, spi.MinCallLevel, call, len(events), want, desc)
				}
				if want == 1 {
					checkRecorded(t, events[0], call)
				}
				call.checkReturn(t)
			}
			level := drawLevel(t)
			if countlog.ShouldLog(level) != (level >= spi.MinLevel) {
				t.Fatalf("ShouldLog(%d) with minimum %d", level, spi.MinLevel)
			}
			timers := [][2]int64{{10, countlog.TraceTimer()}, {20, countlog.DebugTimer()}, {30, countlog.InfoTimer()}}
			for _, timer := range timers {
				if (timer[1] != 0) != (int(timer[0]) >= spi.MinLevel) {
					t.Fatalf("timer of level %d is %d with minimum %d", timer[0], timer[1], spi.MinLevel)
				}
			}
		}
		c.Desc("%s", desc)
		c.NonTrivial(in > 0 && out > 0)
	})
	countlog.EventAggregator = aggregator
}

// TestC18_agg: plain events that are counted are written like calls.
func TestC18_agg(t *testing.T) {
	defer resetLevels()
	aggregator := countlog.EventAggregator
	hz.Run(t, 3000, "a plain event with an agg property of any function, with and without collector, under a random minimum; non-trivial: it is between the two thresholds", func(t *rapid.T, c *hz.Case) {
		rec := &recorder{}
		countlog.EventWriter = rec
		countlog.EventAggregator = aggregator
		withCollector := rapid.Bool().Draw(t, "collector")
		if withCollector {
			countlog.EventAggregator = stats.NewEventAggregator(stats.EventAggregatorConfig{
				Executor: func(func(context.Context)) {}, Collector: nullCollector{},
			})
		}
		level := drawLevel(t)
		countlog.SetMinLevel(level)
		call := &call{name: drawName(t), fn: rapid.SampledFrom(plainFns).Draw(t, "fn")}
		call.props = call.name.fit(t, drawProps(t, 2))
		at := rapid.IntRange(0, len(call.props)).Draw(t, "at")
		call.props = append(call.props[:at:at], append([]prop{{"agg", value{"counter", "counter", `"counter"`}}}, call.props[at:]...)...)
		for n := rapid.IntRange(1, 3).Draw(t, "times"); n > 0; n-- {
			c.Desc("minimum %d collector %v %s", level, withCollector, call)
			call.emit()
			want := 0
			if call.written() && call.eventLevel() >= level+5 {
				want = 1
			}
			c.NonTrivial(call.written() && want == 0)
			if got := len(rec.take()); got != want {
				t.Fatalf("with minimum %d, counted event %s was written %d times, want %d", level, call, got, want)
			}
		}
	})
	countlog.EventAggregator = aggregator
}

// TestC18_writer: the same through the real writer, which filters nothing.
func TestC18_writer(t *testing.T) {
	defer resetLevels()
	hz.Run(t, 3000, "log calls under a random minimum level through the event writer with the compact format; non-trivial: something was written and something was held back", func(t *rapid.T, c *hz.Case) {
		cap := &capture{}
		countlog.EventWriter = writerTo(&compact.Format{}, cap)
		level := drawLevel(t)
		countlog.SetMinLevel(level)
		names := []name{drawName(t), drawName(t)}
		in, out := 0, 0
		desc := fmt.Sprintf("minimum %d: ", level)
		for i := rapid.IntRange(2, 8).Draw(t, "calls"); i > 0; i-- {
			call := drawCall(t, names, []*ctxModel{{ctx: countlog.Ctx(context.Background())}})
			desc += call.String() + "; "
			c.Desc("%s", desc)
			call.emit()
			writes := cap.take()
			if call.written() {
				in++
				if len(writes) != 1 {
					t.Fatalf("with minimum %d, %s made %d writes: %q", level, call, len(writes), writes)
				}
			} else {
				out++
				if len(writes) != 0 {
					t.Fatalf("with minimum %d, %s was written: %q", level, call, writes)
				}
			}
		}
		c.NonTrivial(in > 0 && out > 0)
	})
}
