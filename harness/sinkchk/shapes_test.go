package sinkchk

import (
	"context"
	"fmt"
	"math/rand"
	"strings"
	"sync"
	"sync/atomic"
	"testing"

	"github.com/v2pro/plz/countlog"
	"github.com/v2pro/plz/countlog/spi"
	"github.com/v2pro/plz/countlog/stats"
	"pgregory.net/rapid"
	"verifharness/hz"
)

// talker is a value that counts an event itself when it is made a text.
type talker struct {
	name string
	n    *int64
}

func (v talker) String() string {
	if v.n != nil {
		atomic.AddInt64(v.n, 1)
		countlog.Error(v.name, "agg", "counter", "dim", "from", "from", "talker")
	}
	return "talker"
}

type panicker struct{}

func (panicker) String() string { panic("no text") }

type pair struct{ A, B int }

// shaped is one counted event.
type shaped struct {
	fn    string
	kv    []interface{}
	level int
	dims  string // of the point
	moody bool   // its writer panics
}

// TestC24_shapes: events of one name that look different each time.
func TestC24_shapes(t *testing.T) {
	hz.Run(t, 1500, "1 to 8 goroutines that count up to 6 events each of the same 1 or 2 names, with keys, dimensions, order, number and types of the properties that change from call to call, through a writer that panics now and then; non-trivial: two events of one name look different", func(t *rapid.T, c *hz.Case) {
		level := rapid.SampledFrom([]int{countlog.LevelTrace, countlog.LevelDebug, countlog.LevelInfo, countlog.LevelWarn}).Draw(t, "level")
		countlog.SetMinLevel(level)
		defer countlog.SetMinLevel(countlog.LevelTrace)
		collected := &points{}
		aggregator := stats.NewEventAggregator(stats.EventAggregatorConfig{Executor: func(func(context.Context)) {}, Collector: collected})
		var mu sync.Mutex
		var windows []*stats.Window
		written := map[string]int{}
		countlog.EventAggregator = spi.FuncEventSink(func(site *spi.LogSite) spi.EventHandler {
			handler := aggregator.HandlerOf(site)
			if state, isState := handler.(stats.State); isState {
				mu.Lock()
				windows = append(windows, state.GetWindow())
				mu.Unlock()
			}
			return handler
		})
		countlog.EventWriter = spi.FuncEventSink(func(site *spi.LogSite) spi.EventHandler {
			return &writes{site, func(event *spi.Event) {
				id := ""
				for i := 0; i+1 < len(event.Properties); i += 2 {
					if event.Properties[i] == "id" {
						id = fmt.Sprint(event.Properties[i+1])
					}
				}
				if strings.HasSuffix(id, "moody") {
					panic("writer panics")
				}
				mu.Lock()
				written[id]++
				mu.Unlock()
			}}
		})
		names := []string{}
		for i := rapid.IntRange(1, 2).Draw(t, "names"); i > 0; i-- {
			names = append(names, fmt.Sprintf("event!shape %d", atomic.AddInt64(&serial, 1)))
		}
		talking := fmt.Sprintf("event!talk %d", atomic.AddInt64(&serial, 1))
		if rapid.Bool().Draw(t, "talkSame") {
			talking = names[0]
		}
		var talks int64
		type planned struct {
			name string
			shaped
		}
		n := rapid.IntRange(1, 8).Draw(t, "goroutines")
		plans := make([][]planned, n)
		want := map[string]float64{}
		wantWritten := map[string]int{}
		looks := map[string]string{}
		desc := fmt.Sprintf("level %d: ", level)
		id := 0
		talkers := false
		// the same keys and as many dimensions each time, but others
		similar := rapid.IntRange(0, 2).Draw(t, "similar") == 0
		likeKeys := rapid.SliceOfN(rapid.SampledFrom(dimKeys), 2, 4).Draw(t, "likeKeys")
		likeDims := rapid.IntRange(1, 3).Draw(t, "likeDims")
		for g := range plans {
			for i := rapid.IntRange(1, 6).Draw(t, "events"); i > 0; i-- {
				id++
				one := planned{name: rapid.SampledFrom(names).Draw(t, "name")}
				one.fn = rapid.SampledFrom([]string{"Debug", "Info", "Info", "Warn", "Error"}).Draw(t, "fn")
				one.level = map[string]int{"Debug": countlog.LevelDebug, "Info": countlog.LevelInfo, "Warn": countlog.LevelWarn, "Error": countlog.LevelError}[one.fn]
				one.moody = rapid.IntRange(0, 9).Draw(t, "moody") == 0
				keys := rapid.SliceOfN(rapid.SampledFrom(dimKeys), 0, 5).Draw(t, "keys")
				asked := rapid.SliceOfN(rapid.SampledFrom(dimKeys), 0, 5).Draw(t, "dims")
				if similar {
					keys, asked = likeKeys, rapid.SliceOfN(rapid.SampledFrom(likeKeys), likeDims, likeDims).Draw(t, "likeAsked")
				}
				look := fmt.Sprint(keys, asked)
				var dims []string
				add := func(key interface{}, v interface{}, text string) {
					one.kv = append(one.kv, key, v)
					for _, dim := range asked {
						if key == dim {
							dims = append(dims, dim, text)
						}
					}
				}
				aggAt := rapid.IntRange(0, len(keys)).Draw(t, "aggAt")
				if similar {
					aggAt = 0
				}
				for k := 0; k <= len(keys); k++ {
					if k == aggAt {
						one.kv = append(one.kv, "agg", "counter")
						if len(asked) > 0 || rapid.Bool().Draw(t, "noDim") {
							one.kv = append(one.kv, "dim", strings.Join(asked, ","))
						}
					}
					if k == len(keys) {
						break
					}
					if rapid.IntRange(0, 7).Draw(t, "noText") == 0 {
						// no dimension has this key
						one.kv = append(one.kv, rapid.SampledFrom([]interface{}{7, nil, pair{1, 2}, []byte("a")}).Draw(t, "noTextKey"), "a")
						look += "key"
					}
					switch kind := rapid.SampledFrom([]string{"text", "text", "text", "int", "nil", "struct", "bytes", "talker", "panicker", "error"}).Draw(t, "kind"); kind {
					case "int":
						v := rapid.IntRange(-3, 3).Draw(t, "int")
						add(keys[k], v, fmt.Sprint(v))
					case "nil":
						add(keys[k], nil, "<nil>")
					case "struct":
						add(keys[k], pair{1, 2}, "{1 2}")
					case "bytes":
						add(keys[k], []byte("ab"), "[97 98]")
					case "talker":
						talkers = true
						add(keys[k], talker{talking, &talks}, "talker")
					case "panicker":
						add(keys[k], panicker{}, fmt.Sprint(panicker{}))
					case "error":
						add(keys[k], fmt.Errorf("bad"), "bad")
					default:
						v := rapid.SampledFrom(dimValues).Draw(t, "value")
						add(keys[k], v, v)
					}
					look += fmt.Sprintf("%T", one.kv[len(one.kv)-1])
				}
				mark := fmt.Sprint(id)
				if one.moody {
					mark += "moody"
				}
				one.kv = append(one.kv, "id", mark)
				if rapid.IntRange(0, 9).Draw(t, "odd") == 0 {
					one.kv = append(one.kv, rapid.SampledFrom([]interface{}{"agg", "dim", "a", 5}).Draw(t, "oddOne"))
				}
				one.dims = fmt.Sprintf("%s %q", one.name, dims)
				if one.level >= level {
					want[one.dims]++
					if before, found := looks[one.name]; found && before != look {
						c.NonTrivial(true)
					}
					looks[one.name] = look
				}
				if one.level >= level+5 && !one.moody {
					wantWritten[mark]++
				}
				plans[g] = append(plans[g], one)
				desc += fmt.Sprintf("%d: %s %s %q; ", g, one.fn, one.name, fmt.Sprint(one.kv...))
			}
		}
		c.Desc("%s", desc)
		start := make(chan struct{})
		problems := make(chan string, n)
		var wg sync.WaitGroup
		for g := range plans {
			wg.Add(1)
			go func(g int) {
				defer wg.Done()
				<-start
				for _, one := range plans[g] {
					if p := hz.NoPanic(func() {
						// the slice is the caller's again after each call
						kv := append([]interface{}{}, one.kv...)
						switch one.fn {
						case "Debug":
							countlog.Debug(one.name, kv...)
						case "Info":
							countlog.Info(one.name, kv...)
						case "Warn":
							countlog.Warn(one.name, kv...)
						default:
							countlog.Error(one.name, kv...)
						}
						for i := range kv {
							kv[i] = rand.Int()
						}
					}); p != nil {
						problems <- fmt.Sprint(p)
						return
					}
				}
			}(g)
		}
		close(start)
		wg.Wait()
		select {
		case p := <-problems:
			t.Fatalf("counting panicked: %s\n%s", p, desc)
		default:
		}
		for _, w := range windows {
			w.Export(rightNow)
		}
		if talkers {
			key := fmt.Sprintf("%s %q", talking, []string{"from", "talker"})
			want[key] += float64(atomic.LoadInt64(&talks))
			wantWritten[""] += int(atomic.LoadInt64(&talks))
		}
		got := map[string]float64{}
		for _, p := range collected.list {
			got[keyOf(p)] += p.Value
		}
		for key, value := range want {
			if got[key] != value {
				t.Fatalf("%s: counted %v, exported %v\n%s", key, value, got[key], desc)
			}
			delete(got, key)
		}
		for key, value := range got {
			t.Fatalf("%s: never counted, exported %v\n%s", key, value, desc)
		}
		for mark, count := range wantWritten {
			if written[mark] != count {
				t.Fatalf("event %q was written %d times, want %d\n%s", mark, written[mark], count, desc)
			}
			delete(written, mark)
		}
		if len(written) > 0 {
			t.Fatalf("events written that should not be: %v\n%s", written, desc)
		}
	})
}

type writes struct {
	site   *spi.LogSite
	handle func(event *spi.Event)
}

func (w *writes) Handle(event *spi.Event) { w.handle(event) }
func (w *writes) LogSite() *spi.LogSite   { return w.site }

// TestC24_others: events without an agg property are not counted, whatever their properties look like.
func TestC24_others(t *testing.T) {
	words := []interface{}{"agg", "counter", "dim", "a", "agg", "counter", 5, nil}
	hz.Run(t, 3000, "one event of up to 5 properties with keys and values among agg, counter, dim and others, but none that asks for counting, given to the aggregator twice; non-trivial: counter follows agg somewhere", func(t *rapid.T, c *hz.Case) {
		collected := &points{}
		aggregator := stats.NewEventAggregator(stats.EventAggregatorConfig{Executor: func(func(context.Context)) {}, Collector: collected})
		var kv []interface{}
		for i := rapid.IntRange(1, 5).Draw(t, "properties"); i > 0; i-- {
			kv = append(kv, rapid.SampledFrom(words).Draw(t, "key"), rapid.SampledFrom(words).Draw(t, "value"))
		}
		counted := false
		for i := 0; i < len(kv); i += 2 {
			if _, isText := kv[i+1].(string); isText && kv[i] == "agg" {
				counted = true
			}
			if i > 0 && kv[i-1] == "agg" && kv[i] == "counter" {
				c.NonTrivial(true)
			}
		}
		c.Desc("%q", fmt.Sprint(kv...))
		handler := aggregator.HandlerOf(&spi.LogSite{Event: "event!others", Sample: kv})
		if counted {
			return
		}
		if handler == nil {
			return
		}
		handler.Handle(&spi.Event{Level: countlog.LevelInfo, Properties: kv})
		handler.Handle(&spi.Event{Level: countlog.LevelInfo, Properties: kv})
		if state, isState := handler.(stats.State); isState {
			state.GetWindow().Export(rightNow)
		}
		if len(collected.list) > 0 {
			t.Fatalf("an event without agg was counted: %q", fmt.Sprint(kv...))
		}
	})
}
