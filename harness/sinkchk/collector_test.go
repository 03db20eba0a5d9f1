package sinkchk

import (
	"context"
	"fmt"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/v2pro/plz/countlog/spi"
	"github.com/v2pro/plz/countlog/stats"
	"pgregory.net/rapid"
	"verifharness/hz"
)

// busyCollector counts events while it collects, and panics at times.
type busyCollector struct {
	points
	panics []bool // for each call
	again  func(point *stats.Point)
}

func (b *busyCollector) Collect(point *stats.Point) {
	b.points.Collect(point)
	b.mu.Lock()
	fails := len(b.panics) > 0 && b.panics[0]
	if len(b.panics) > 0 {
		b.panics = b.panics[1:]
	}
	b.mu.Unlock()
	b.again(point)
	if fails {
		if point.Value != 1 {
			panic(nasty{int(point.Value) % 3})
		}
		panic("collector panics")
	}
}

// TestC24_collector: a collector may count events itself, and a panic of it
// costs no other point.
func TestC24_collector(t *testing.T) {
	hz.Run(t, 60, "up to 20 goroutines count up to 30 times each, in up to 6 dimension values, while a collector that counts events of the same name for each point it gets, up to a limit, and panics at times, is given exports; non-trivial: the collector counts and a later call of it panics", func(t *rapid.T, c *hz.Case) {
		goroutines := rapid.IntRange(1, 20).Draw(t, "goroutines")
		counts := rapid.IntRange(1, 30).Draw(t, "counts")
		values := rapid.IntRange(1, 6).Draw(t, "values")
		dims := rapid.IntRange(0, 3).Draw(t, "dims")
		exports := rapid.IntRange(1, 5).Draw(t, "exports")
		again := rapid.IntRange(0, 40).Draw(t, "again")
		panics := rapid.SliceOfN(rapid.Bool(), 0, 30).Draw(t, "panics")
		c.Desc("%d goroutines x %d counts of %d values in %d dimensions, %d exports, counts %d itself, panics %v", goroutines, counts, values, dims, exports, again, panics)
		fails := false
		for _, p := range panics {
			fails = fails || p
		}
		c.NonTrivial(again > 0 && fails && values > 1 && dims > 0)
		propsOf := func(value int) []interface{} {
			var names []string
			for i := 0; i < dims; i++ {
				names = append(names, fmt.Sprint("d", i))
			}
			kv := []interface{}{"agg", "counter", "dim", strings.Join(names, ",")}
			for _, name := range names {
				kv = append(kv, name, fmt.Sprint(value))
			}
			return kv
		}
		keyFor := func(value int) string {
			var out []string
			for i := 0; i < dims; i++ {
				out = append(out, fmt.Sprint("d", i), fmt.Sprint(value))
			}
			return fmt.Sprintf("event!own %q", out)
		}
		var handler spi.EventHandler
		var mu sync.Mutex
		want := map[string]float64{}
		count := func(value int) {
			mu.Lock()
			want[keyFor(value)]++
			mu.Unlock()
			handler.Handle(&spi.Event{Properties: propsOf(value)})
		}
		collector := &busyCollector{panics: panics}
		collector.again = func(point *stats.Point) {
			mu.Lock()
			again--
			more := again >= 0
			mu.Unlock()
			if more {
				count(again % values)
			}
		}
		aggregator := stats.NewEventAggregator(stats.EventAggregatorConfig{Executor: func(func(context.Context)) {}, Collector: collector})
		handler = aggregator.HandlerOf(&spi.LogSite{Event: "event!own", Sample: propsOf(0)})
		window := handler.(stats.State).GetWindow()
		ended := make(chan interface{}, goroutines+1)
		for g := 0; g < goroutines; g++ {
			go func(g int) {
				ended <- hz.NoPanic(func() {
					for i := 0; i < counts; i++ {
						count((g + i) % values)
					}
				})
			}(g)
		}
		go func() {
			ended <- hz.NoPanic(func() {
				for i := 0; i < exports; i++ {
					window.Export(rightNow)
				}
			})
		}()
		limit := time.After(30 * time.Second)
		for i := 0; i < goroutines+1; i++ {
			select {
			case p := <-ended:
				if p != nil {
					t.Fatalf("counting or exporting panicked: %v", p)
				}
			case <-limit:
				t.Fatalf("counting or exporting hangs")
			}
		}
		// all that is left, in a goroutine of its own as that tells where its counts go
		for i := 0; i < 60; i++ {
			done := make(chan interface{}, 1)
			go func() { done <- hz.NoPanic(func() { window.Export(rightNow) }) }()
			select {
			case p := <-done:
				if p != nil {
					t.Fatalf("exporting panicked: %v", p)
				}
			case <-time.After(30 * time.Second):
				t.Fatalf("exporting hangs")
			}
		}
		got := map[string]float64{}
		for _, p := range collector.list {
			got[keyOf(p)] += p.Value
		}
		for key, value := range want {
			if got[key] != value {
				t.Fatalf("%s: counted %v, exported %v", key, value, got[key])
			}
		}
		if len(got) != len(want) {
			t.Fatalf("exported %v, counted %v", got, want)
		}
	})
}
