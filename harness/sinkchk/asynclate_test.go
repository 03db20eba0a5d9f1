package sinkchk

import (
	"fmt"
	"io"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/v2pro/plz/countlog"
	"github.com/v2pro/plz/countlog/output"
	"github.com/v2pro/plz/countlog/output/async"
	"github.com/v2pro/plz/countlog/output/compact"
	"github.com/v2pro/plz/countlog/spi"
	"pgregory.net/rapid"
	"verifharness/hz"
)

// ownLog is where the log of the package itself goes.
var ownLog atomic.Value

var noLog = output.NewEventWriter(output.EventWriterConfig{Format: &compact.Format{}, Writer: io.Discard})

func init() {
	ownLog.Store(noLog)
}

// toOwnLog is a handler that looks up where the log goes with every event.
type toOwnLog struct{ site *spi.LogSite }

func (h toOwnLog) Handle(event *spi.Event) {
	ownLog.Load().(*output.EventWriter).HandlerOf(h.site).Handle(event)
}

func (h toOwnLog) LogSite() *spi.LogSite { return h.site }

// TestC17_late: producers that write while the writer is closed and later on,
// the log of the package itself (which tells what close waits for) may be one of them.
func TestC17_late(t *testing.T) {
	hz.Run(t, 6, "8 asynchronous writers per case with short queues over slow writers, closed while 1 to 4 producers write, which go on for a while after that; one of the writers may be the output of the log itself; non-trivial: a blocking writer that is written to after close", func(t *rapid.T, c *hz.Case) {
		type plan struct {
			blocking  bool
			length    int
			pause     int // of the underlying writer, in milliseconds
			producers int
			before    int // messages of each producer before close is called
			after     int // messages of each producer after close has returned
			rest      int // between messages, in microseconds
			ownLog    bool
		}
		var plans []plan
		for i := 0; i < 8; i++ {
			p := plan{
				blocking:  rapid.IntRange(0, 3).Draw(t, "blocking") > 0,
				length:    rapid.IntRange(1, 6).Draw(t, "length"),
				pause:     rapid.SampledFrom([]int{0, 1, 30, 150, 400}).Draw(t, "pause"),
				producers: rapid.IntRange(1, 4).Draw(t, "producers"),
				before:    rapid.IntRange(0, 3).Draw(t, "before"),
				after:     rapid.IntRange(0, 10).Draw(t, "after"),
				rest:      rapid.SampledFrom([]int{0, 10, 1000}).Draw(t, "rest"),
			}
			if i == 0 {
				p.ownLog = rapid.Bool().Draw(t, "ownLog")
			}
			c.NonTrivial(p.blocking && p.after > 0)
			plans = append(plans, p)
		}
		c.Desc("%+v", plans)
		defer ownLog.Store(noLog)
		countlog.SetMinLevel(countlog.LevelInfo)
		problems := make([]string, len(plans))
		var wg sync.WaitGroup
		for i := range plans {
			p := plans[i]
			u := &under{gate: make(chan struct{}), entered: make(chan struct{}), pause: time.Duration(p.pause) * time.Millisecond}
			close(u.gate)
			w := async.NewAsyncWriter(async.AsyncWriterConfig{QueueLength: p.length, Writer: closable{u}, IsQueueBlocking: p.blocking, OnMessageDropped: func([]byte) {}})
			if p.ownLog {
				ownLog.Store(output.NewEventWriter(output.EventWriterConfig{Format: &compact.Format{}, Writer: w}))
			}
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				problem := ""
				hung := make(chan struct{})
				ended := make(chan struct{})
				go func() {
					defer close(ended)
					var closed int32
					var mu sync.Mutex
					accepted := map[string]bool{} // before close was called
					attempted := map[string]bool{}
					var producers, ready sync.WaitGroup
					for g := 0; g < p.producers; g++ {
						producers.Add(1)
						ready.Add(1)
						go func(g int) {
							defer producers.Done()
							left := p.after
							for m := 0; ; m++ {
								if m == p.before {
									ready.Done()
								}
								late := atomic.LoadInt32(&closed) == 1
								if late {
									if left == 0 {
										return
									}
									left--
								}
								msg := messageOf(g, m, 10)
								mu.Lock()
								attempted[msg] = true
								mu.Unlock()
								n, err := w.Write([]byte(msg))
								if err == nil && n != len(msg) {
									mu.Lock()
									problem = fmt.Sprintf("write of %d bytes returned %d, %v", len(msg), n, err)
									mu.Unlock()
								}
								if late && err == nil {
									mu.Lock()
									problem = fmt.Sprintf("write %d after close had returned was accepted", m)
									mu.Unlock()
								}
								if m < p.before {
									if err != nil {
										mu.Lock()
										problem = fmt.Sprintf("write before close failed: %v", err)
										mu.Unlock()
									}
									mu.Lock()
									accepted[msg] = true
									mu.Unlock()
								}
								time.Sleep(time.Duration(p.rest) * time.Microsecond)
							}
						}(g)
					}
					ready.Wait()
					start := time.Now()
					if err := w.Close(); err != nil {
						problem = fmt.Sprintf("close: %v", err)
					}
					took := time.Since(start)
					atomic.StoreInt32(&closed, 1)
					producers.Wait()
					time.Sleep(20 * time.Millisecond)
					u.mu.Lock()
					defer u.mu.Unlock()
					mu.Lock()
					defer mu.Unlock()
					switch {
					case problem != "":
					case u.problem != "":
						problem = u.problem
					case u.closed != 1 || u.closedAt != len(u.got):
						problem = fmt.Sprintf("the underlying writer was closed %d times, when %d of %d messages had been written", u.closed, u.closedAt, len(u.got))
					default:
						seen := map[string]bool{}
						last := map[int]int{}
						for _, msg := range u.got {
							var g, m int
							if n, _ := fmt.Sscanf(msg, "%d/%d:", &g, &m); n == 2 && attempted[msg] {
								if seen[msg] {
									problem = fmt.Sprintf("%q was written twice", msg)
								}
								if before, any := last[g]; any && m <= before {
									problem = fmt.Sprintf("message %d of producer %d is written after %d", m, g, before)
								}
								last[g] = m
								seen[msg] = true
							} else if !p.ownLog {
								problem = fmt.Sprintf("message nobody wrote: %q", msg)
							}
						}
						for msg := range accepted {
							// close takes what is there for a second
							if p.blocking && !seen[msg] && took < 900*time.Millisecond {
								problem = fmt.Sprintf("%q was accepted before close but not written, close took %v", msg, took)
							}
						}
					}
				}()
				timer := time.AfterFunc(30*time.Second, func() { close(hung) })
				defer timer.Stop()
				select {
				case <-ended:
					problems[i] = problem
				case <-hung:
					problems[i] = "a write during or after close, or the close itself, never returns"
				}
			}(i)
		}
		wg.Wait()
		for i, problem := range problems {
			if problem != "" {
				t.Fatalf("%s\nwriter: %+v", problem, plans[i])
			}
		}
	})
}
