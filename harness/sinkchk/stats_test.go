package sinkchk

import (
	"context"
	"fmt"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/v2pro/plz/countlog"
	"github.com/v2pro/plz/countlog/spi"
	"github.com/v2pro/plz/countlog/stats"
	"pgregory.net/rapid"
	"verifharness/hz"
)

// points keeps everything collected.
type points struct {
	mu   sync.Mutex
	list []*stats.Point
}

func (p *points) Collect(point *stats.Point) {
	p.mu.Lock()
	p.list = append(p.list, point)
	p.mu.Unlock()
}

var serial int64

var rightNow = time.Unix(1500000000, 0)

type counter struct {
	name    string
	keys    []string // of the properties, in order
	dims    []string // as asked for
	aggAt   int
	handler spi.EventHandler
	site    *spi.LogSite
}

// props are the properties of one event.
func (e *counter) props(values []string) []interface{} {
	var kv []interface{}
	for i := 0; i <= len(e.keys); i++ {
		if i == e.aggAt {
			kv = append(kv, "agg", "counter", "dim", strings.Join(e.dims, ","))
		}
		if i < len(e.keys) {
			kv = append(kv, e.keys[i], values[i])
		}
	}
	return kv
}

// dimension is what the points of such an event carry.
func (e *counter) dimension(values []string) string {
	var out []string
	for i, key := range e.keys {
		for _, dim := range e.dims {
			if key == dim {
				out = append(out, key, values[i])
			}
		}
	}
	return fmt.Sprintf("%s %q", e.name, out)
}

var dimKeys = []string{"city", "ver", "a", "b", "c", "d", "名", "A", " a"}
var dimValues = []string{"agg", "counter", "dim", "", "x", "y", "xy", "beijing", "x,y", "\x00", "中", " x", "x ", "X", "x\n", " ", "\xff", "\ufffd", "=", "0", strings.Repeat("x", 300), strings.Repeat("x", 300) + "y"}

func drawCounter(t *rapid.T) *counter {
	e := &counter{name: fmt.Sprintf("event!count %d", atomic.AddInt64(&serial, 1))}
	e.keys = rapid.SliceOfNDistinct(rapid.SampledFrom(dimKeys), 0, 7, func(s string) string { return s }).Draw(t, "keys")
	e.aggAt = rapid.IntRange(0, len(e.keys)).Draw(t, "aggAt")
	e.dims = rapid.SliceOfNDistinct(rapid.SampledFrom(dimKeys), 0, 7, func(s string) string { return s }).Draw(t, "dims")
	return e
}

func keyOf(p *stats.Point) string {
	return fmt.Sprintf("%s %q", p.Event, append([]string(nil), p.Dimension...))
}

// TestC24_conserve: what is counted is exported, no more and no less.
func TestC24_conserve(t *testing.T) {
	hz.Run(t, 600, "1 to 3 counted events with 0 to 7 dimensions, 1 to 40 goroutines that count up to 60 times each with values of their own, through the log functions or the handlers, with up to 10 exports at any moment from up to 2 goroutines; non-trivial: more than one goroutine, more than one dimension value and an export while counting", func(t *rapid.T, c *hz.Case) {
		countlog.SetMinLevel(countlog.LevelTrace)
		collected := &points{}
		countlog.EventWriter = spi.FuncEventSink(func(*spi.LogSite) spi.EventHandler { return &spi.DummyEventHandler{} })
		var exporters int64
		aggregator := stats.NewEventAggregator(stats.EventAggregatorConfig{
			Executor:  func(func(context.Context)) { atomic.AddInt64(&exporters, 1) },
			Collector: collected,
		})
		direct := rapid.Bool().Draw(t, "direct")
		var mu sync.Mutex
		var windows []*stats.Window
		countlog.EventAggregator = spi.FuncEventSink(func(site *spi.LogSite) spi.EventHandler {
			handler := aggregator.HandlerOf(site)
			mu.Lock()
			windows = append(windows, handler.(stats.State).GetWindow())
			mu.Unlock()
			return handler
		})
		var events []*counter
		desc := fmt.Sprintf("direct %v: ", direct)
		for i := rapid.IntRange(1, 3).Draw(t, "events"); i > 0; i-- {
			e := drawCounter(t)
			desc += fmt.Sprintf("%v by %v; ", e.keys, e.dims)
			first := make([]string, len(e.keys))
			if direct {
				e.site = &spi.LogSite{Event: e.name, Sample: e.props(first)}
				e.handler = countlog.EventAggregator.HandlerOf(e.site)
				if e.handler.LogSite() != e.site {
					t.Fatalf("handler does not know its site")
				}
			}
			events = append(events, e)
		}
		type count struct {
			e      *counter
			values []string
		}
		n := rapid.IntRange(1, 40).Draw(t, "goroutines")
		plans := make([][]count, n)
		want := map[string]float64{}
		for g := range plans {
			for i := rapid.IntRange(1, 20).Draw(t, "counts"); i > 0; i-- {
				e := rapid.SampledFrom(events).Draw(t, "event")
				values := rapid.SliceOfN(rapid.SampledFrom(dimValues), len(e.keys), len(e.keys)).Draw(t, "values")
				for r := rapid.IntRange(1, 3).Draw(t, "repeat"); r > 0; r-- {
					plans[g] = append(plans[g], count{e, values})
					want[e.dimension(values)]++
				}
			}
		}
		exports := rapid.IntRange(0, 10).Draw(t, "exports")
		parallel := rapid.IntRange(1, 2).Draw(t, "exporters")
		pause := rapid.SampledFrom([]int{0, 1, 20, 200}).Draw(t, "pause")
		desc += fmt.Sprintf("%d goroutines, %dx%d exports every %d us, wants %.300v", n, parallel, exports, pause, want)
		c.Desc("%s", desc)
		c.NonTrivial(n > 1 && len(want) > 1 && exports > 0)
		base := time.Unix(1500000000, 0)
		exportAll := func(at time.Time) {
			mu.Lock()
			now := append([]*stats.Window{}, windows...)
			mu.Unlock()
			for _, w := range now {
				w.Export(at)
			}
		}
		start := make(chan struct{})
		problems := make(chan string, n+10)
		var wg sync.WaitGroup
		for g := range plans {
			wg.Add(1)
			go func(g int) {
				defer wg.Done()
				<-start
				if p := hz.NoPanic(func() {
					for _, one := range plans[g] {
						kv := one.e.props(one.values)
						if direct {
							one.e.handler.Handle(&spi.Event{Level: countlog.LevelInfo, Timestamp: time.Now(), Properties: kv})
						} else {
							countlog.Info(one.e.name, kv...)
						}
					}
				}); p != nil {
					problems <- fmt.Sprint(p)
				}
			}(g)
		}
		for x := 0; x < parallel; x++ {
			wg.Add(1)
			go func(x int) {
				defer wg.Done()
				<-start
				for i := 0; i < exports; i++ {
					exportAll(base.Add(time.Duration(x*1000+i) * time.Second))
					if pause > 0 {
						time.Sleep(time.Duration(pause) * time.Microsecond)
					}
				}
			}(x)
		}
		close(start)
		wg.Wait()
		select {
		case p := <-problems:
			t.Fatalf("counting panicked: %s", p)
		default:
		}
		exportAll(base.Add(-time.Second))
		exportAll(base.Add(-2 * time.Second))
		got := map[string]float64{}
		for _, p := range collected.list {
			got[keyOf(p)] += p.Value
			sec := p.Timestamp.Sub(base) / time.Second
			if sec < -2 || sec > 2000 || p.Timestamp.Sub(base)%time.Second != 0 {
				t.Fatalf("point with timestamp %v, which is of no export", p.Timestamp)
			}
			if p.Timestamp.Equal(base.Add(-2*time.Second)) && p.Value != 0 {
				t.Fatalf("%s: exported %v again", keyOf(p), p.Value)
			}
		}
		for key, value := range want {
			if got[key] != value {
				t.Fatalf("%s: counted %v, exported %v\n%s", key, value, got[key], desc)
			}
			delete(got, key)
		}
		for key, value := range got {
			if value != 0 {
				t.Fatalf("%s: never counted, exported %v\n%s", key, value, desc)
			}
		}
		if int(exporters) != len(windows) {
			t.Fatalf("%d windows, %d of them handed to the executor", len(windows), exporters)
		}
	})
}

// TestC24_everySecond: the executor's job exports every second until told to stop.
func TestC24_everySecond(t *testing.T) {
	hz.Run(t, 1, "40 counted events in parallel for 3.6 seconds over their own export jobs, half of them on the default executor, the others then told to stop; non-trivial: always", func(t *rapid.T, c *hz.Case) {
		c.Desc("40 windows")
		c.NonTrivial(true)
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		collected := &points{}
		var running sync.WaitGroup
		aggregator := stats.NewEventAggregator(stats.EventAggregatorConfig{
			Executor: func(job func(context.Context)) {
				running.Add(1)
				go func() {
					defer running.Done()
					job(ctx)
				}()
			},
			Collector: collected,
		})
		byDefault := stats.NewEventAggregator(stats.EventAggregatorConfig{Collector: collected})
		begin := time.Now()
		want := map[string]float64{}
		var handlers []spi.EventHandler
		for i := 0; i < 40; i++ {
			name := fmt.Sprintf("event!tick %d", i)
			kv := []interface{}{"agg", "counter", "dim", "k", "k", fmt.Sprint(i)}
			if i%2 == 0 {
				handlers = append(handlers, aggregator.HandlerOf(&spi.LogSite{Event: name, Sample: kv}))
			} else {
				handlers = append(handlers, byDefault.HandlerOf(&spi.LogSite{Event: name, Sample: kv}))
			}
		}
		for round := 0; round < 36; round++ {
			for i, h := range handlers {
				h.Handle(&spi.Event{Properties: []interface{}{"agg", "counter", "dim", "k", "k", fmt.Sprint(i)}})
				want[fmt.Sprintf("event!tick %d %q", i, []string{"k", fmt.Sprint(i)})]++
			}
			time.Sleep(100 * time.Millisecond)
		}
		// all of it has to come out by itself, two seconds are plenty if the machine is not stuck
		deadline := time.Now().Add(12 * time.Second)
		for {
			got := map[string]float64{}
			stamps := map[string]map[int64]bool{}
			collected.mu.Lock()
			for _, p := range collected.list {
				got[keyOf(p)] += p.Value
				if stamps[keyOf(p)] == nil {
					stamps[keyOf(p)] = map[int64]bool{}
				}
				stamps[keyOf(p)][p.Timestamp.UnixNano()] = true
				if p.Timestamp.Before(begin) || p.Timestamp.After(time.Now()) {
					t.Fatalf("point with timestamp %v", p.Timestamp)
				}
			}
			collected.mu.Unlock()
			missing := ""
			for key, value := range want {
				if got[key] > value {
					t.Fatalf("%s: counted %v, exported %v", key, value, got[key])
				}
				if most := time.Since(begin)/time.Second + 2; time.Duration(len(stamps[key])) > most {
					t.Fatalf("%s: %d exports within %v", key, len(stamps[key]), time.Since(begin))
				}
				if got[key] < value || len(stamps[key]) < 3 {
					missing = fmt.Sprintf("%s: counted %v, exported %v in %d exports", key, value, got[key], len(stamps[key]))
				}
			}
			if missing == "" {
				break
			}
			if time.Now().After(deadline) {
				t.Fatalf("not exported every second, 12 s after the last event: %s", missing)
			}
			time.Sleep(50 * time.Millisecond)
		}
		cancel()
		ended := make(chan struct{})
		go func() {
			running.Wait()
			close(ended)
		}()
		select {
		case <-ended:
		case <-time.After(30 * time.Second):
			t.Fatalf("export jobs do not end when told to stop")
		}
	})
}

// TestC24_monoid: counters and maps of counters add up.
func TestC24_monoid(t *testing.T) {
	hz.Run(t, 3000, "sums of maps of counters with up to 5 keys each in any order, then exported; non-trivial: two maps share a key", func(t *rapid.T, c *hz.Case) {
		total := stats.MapMonoid{}
		want := map[int]float64{}
		desc := ""
		for i := rapid.IntRange(1, 5).Draw(t, "maps"); i > 0; i-- {
			part := stats.MapMonoid{}
			for _, key := range rapid.SliceOfNDistinct(rapid.IntRange(0, 6), 0, 5, func(i int) int { return i }).Draw(t, "keys") {
				n := rapid.OneOf(rapid.IntRange(0, 1000000), rapid.IntRange(0, 1<<50), rapid.SampledFrom([]int{1<<24 + 1, 1<<31 - 1, 1 << 32, 1<<50 - 1})).Draw(t, "n")
				if _, found := want[key]; found {
					c.NonTrivial(true)
				}
				counter := stats.NewCounterMonoid()
				*(counter.(*stats.CounterMonoid)) += stats.CounterMonoid(n)
				part[key] = counter
				want[key] += float64(n)
				desc += fmt.Sprintf("%d:%d ", key, n)
			}
			desc += "+ "
			c.Desc("%s", desc)
			total.Add(part)
		}
		for key, value := range want {
			if got := total[key].Export(); got != value {
				t.Fatalf("%s: key %d adds up to %v, want %v", desc, key, got, value)
			}
			if again := total[key].Export(); again != 0 {
				t.Fatalf("%s: key %d exported again as %v", desc, key, again)
			}
		}
		if len(total) != len(want) {
			t.Fatalf("%s: %d keys, want %d", desc, len(total), len(want))
		}
	})
}
