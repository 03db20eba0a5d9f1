package logchk

import (
	"errors"
	"fmt"
	"os"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"github.com/v2pro/plz/countlog"
	"github.com/v2pro/plz/countlog/loglog"
	"github.com/v2pro/plz/countlog/output"
	"pgregory.net/rapid"
	"verifharness/hz"
)

// slowWriter looks at the buffer again before it returns, and fails on plan.
type slowWriter struct {
	mu      sync.Mutex
	writes  []string
	changed string
	fails   []string // per write: what it does wrong
	pause   int
	failed  int
}

func (w *slowWriter) Write(p []byte) (int, error) {
	first := string(p)
	w.mu.Lock()
	w.writes = append(w.writes, first)
	fail := ""
	if len(w.fails) > 0 {
		fail = w.fails[0]
		w.fails = w.fails[1:]
	}
	w.mu.Unlock()
	switch w.pause {
	case 1:
		runtime.Gosched()
	case 2:
		time.Sleep(50 * time.Microsecond)
	}
	if string(p) != first {
		w.mu.Lock()
		w.changed = fmt.Sprintf("%q became %q", first, p)
		w.mu.Unlock()
	}
	switch fail {
	case "error", "again", "timeout":
		w.mu.Lock()
		w.failed++
		w.mu.Unlock()
		return 0, map[string]error{"error": errors.New("disk full"), "again": syscall.EAGAIN, "timeout": os.ErrDeadlineExceeded}[fail]
	case "quiet": // less than everything without an error
		return len(p) / 2, nil
	case "nothing":
		return 0, nil
	case "more":
		return len(p) + 1, nil
	case "short":
		w.mu.Lock()
		w.failed++
		w.mu.Unlock()
		return len(p) / 2, errors.New("short write")
	case "panic":
		panic("writer panics")
	}
	return len(p), nil
}

// TestC23_writes: every event is one whole write, in order per goroutine.
func TestC23_writes(t *testing.T) {
	countlog.SetMinLevel(0)
	defer resetLevels()
	var reported int64
	quiet := loglog.Error
	loglog.Error = func(error) { atomic.AddInt64(&reported, 1) }
	defer func() { loglog.Error = quiet }()
	hz.Run(t, 500, "1 to 8 goroutines that log 1 to 15 events each with texts of 0 to 70000 bytes through 1 or 2 event writers over writers that pause and fail; non-trivial: more than one goroutine or a failing write", func(t *rapid.T, c *hz.Case) {
		fm := drawFormat(t, "compact", "hrf", "json")
		nw := rapid.IntRange(1, 2).Draw(t, "writers")
		var writers []*slowWriter
		desc := fm.String()
		for i := 0; i < nw; i++ {
			w := &slowWriter{pause: rapid.IntRange(0, 2).Draw(t, "pause")}
			if rapid.Bool().Draw(t, "failing") {
				w.fails = rapid.SliceOfN(rapid.SampledFrom([]string{"", "error", "short", "again", "timeout", "quiet", "nothing", "more"}), 0, 20).Draw(t, "fails")
			}
			desc += fmt.Sprintf(" pause %d fails %q", w.pause, w.fails)
			writers = append(writers, w)
		}
		tail := atomic.AddInt64(&serial, 1)
		defer func() {
			// the handlers, and with them the writers, are kept for good
			for _, w := range writers {
				w.writes = nil
			}
		}()
		// the handler of an event is made once, by the writer that is set at that time
		for i, w := range writers {
			fails := w.fails
			w.fails = nil
			countlog.EventWriter = output.NewEventWriter(output.EventWriterConfig{Format: fm.make(), Writer: w})
			countlog.Error(fmt.Sprintf("event!w%d %d", i, tail), "text", "", "tag", "<first>")
			w.writes = nil
			w.fails = fails
		}
		n := rapid.IntRange(1, 8).Draw(t, "goroutines")
		type step struct {
			w    int
			size int
		}
		plans := make([][]step, n)
		total := make([]int, nw)
		for g := range plans {
			for i := rapid.IntRange(1, 15).Draw(t, "steps"); i > 0; i-- {
				s := step{rapid.IntRange(0, nw-1).Draw(t, "w"), rapid.SampledFrom([]int{0, 1, 10, 60, 130, 200, 1000, 5000, 70000}).Draw(t, "size")}
				plans[g] = append(plans[g], s)
				total[s.w]++
			}
		}
		c.Desc("%s %v", desc, plans)
		for i, w := range writers {
			c.NonTrivial(n > 1 || len(w.fails) > 0 && total[i] > 0)
		}
		before := atomic.LoadInt64(&reported)
		text := func(g, i, size int) string {
			return strings.Repeat(string(rune('a'+(g*7+i)%26)), size)
		}
		panics := make([]interface{}, n)
		var wg sync.WaitGroup
		start := make(chan struct{})
		for g := range plans {
			wg.Add(1)
			go func(g int) {
				defer wg.Done()
				<-start
				panics[g] = hz.NoPanic(func() {
					for i, s := range plans[g] {
						countlog.Error(fmt.Sprintf("event!w%d %d", s.w, tail), "text", text(g, i, s.size), "tag", fmt.Sprintf("<%d/%d>", g, i))
					}
				})
			}(g)
		}
		close(start)
		wg.Wait()
		failed := 0
		for g, p := range panics {
			if p != nil {
				t.Fatalf("goroutine %d panicked: %v", g, p)
			}
		}
		for i, w := range writers {
			failed += w.failed
			if w.changed != "" {
				t.Fatalf("buffer changed during its write: %s", w.changed)
			}
			if len(w.writes) != total[i] {
				t.Fatalf("%d events made %d writes", total[i], len(w.writes))
			}
			last := make([]int, n)
			for g := range last {
				last[g] = -1
			}
			for _, line := range w.writes {
				at := strings.LastIndex(line, "tag")
				var g, k int
				plain := strings.NewReplacer(`\u003c`, "<", `\u003e`, ">").Replace(line)
				at = strings.LastIndex(plain, "tag")
				if at == -1 {
					t.Fatalf("write holds no complete event: %.200q", line)
				}
				open := strings.Index(plain[at:], "<")
				if open == -1 {
					t.Fatalf("write holds no complete event: %.200q", line)
				}
				if _, err := fmt.Sscanf(plain[at+open:], "<%d/%d>", &g, &k); err != nil || g >= n || k >= len(plans[g]) {
					t.Fatalf("write holds no complete event: %.200q", line)
				}
				s := plans[g][k]
				if s.w != i {
					t.Fatalf("event of writer %d written to %d", s.w, i)
				}
				if k <= last[g] {
					t.Fatalf("event %d of goroutine %d written after event %d", k, g, last[g])
				}
				last[g] = k
				want := text(g, k, s.size)
				ok := false
				switch fm.name {
				case "compact":
					ok = strings.HasPrefix(line, "[ERROR] [") && strings.HasSuffix(line, "||text="+want+"||tag="+fmt.Sprintf("<%d/%d>\n", g, k)) && strings.Count(line, "||") == 2
				case "hrf":
					ok = strings.HasPrefix(line, "\x1b[31;1m[ERROR]") && strings.Contains(line, "\ntext: "+want+"\x1b[0m") && strings.HasSuffix(line, "\x1b[0m\n") && strings.Count(line, "[ERROR]") == 1
				default:
					all, err := members(line)
					ok = err == nil && len(all) == 5 && all[1].raw == mustJSON(want)
				}
				if !ok {
					t.Fatalf("write is not exactly one event: %.300q (%d bytes)", line, len(line))
				}
			}
		}
		if got := atomic.LoadInt64(&reported) - before; got != int64(failed) {
			t.Fatalf("%d failed writes, %d reports", failed, got)
		}
	})
}
