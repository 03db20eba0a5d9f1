package concchk

import (
	"context"
	"errors"
	"fmt"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/v2pro/plz/concurrent"
	"pgregory.net/rapid"
	"verifharness/hz"
)

type job struct {
	id    int
	work  int // microseconds
	end   string
	kids  []*job
	until bool // works on until it is told to stop
}

func (j *job) String() string {
	text := fmt.Sprintf("%d:%dus/%s", j.id, j.work, j.end)
	if j.until {
		text += "/untilStop"
	}
	for _, kid := range j.kids {
		text += "(" + kid.String() + ")"
	}
	return text
}

func drawJobs(t *rapid.T, max int, depth int, next *int) []*job {
	var jobs []*job
	for i := rapid.IntRange(1, max).Draw(t, "jobs"); i > 0; i-- {
		*next++
		j := &job{
			id:    *next,
			work:  rapid.SampledFrom([]int{0, 0, 10, 200, 3000, 150000}).Draw(t, "work"),
			end:   rapid.SampledFrom([]string{"return", "return", "return", "panic", "panicErr", "panicStop", "goexit"}).Draw(t, "end"),
			until: rapid.IntRange(0, 3).Draw(t, "until") == 0,
		}
		if depth > 0 && rapid.IntRange(0, 3).Draw(t, "kids") == 0 {
			j.kids = drawJobs(t, 2, depth-1, next)
		}
		jobs = append(jobs, j)
	}
	return jobs
}

type panicSink struct {
	mu   sync.Mutex
	seen []string
}

type execRun struct {
	mu       sync.Mutex
	executor *concurrent.UnboundedExecutor
	problem  string
	runs     map[int]int
	ended    map[int]bool
	stopping int32
	panics   []string // expected
	prefix   string
}

func (r *execRun) failf(format string, args ...interface{}) {
	r.mu.Lock()
	if r.problem == "" {
		r.problem = fmt.Sprintf(format, args...)
	}
	r.mu.Unlock()
}

func (r *execRun) handler(j *job) func(ctx context.Context) {
	return func(ctx context.Context) {
		stopped := false
		if ctx == nil {
			r.failf("job %d got no context", j.id)
			return
		}
		err := ctx.Err()
		if err != nil && atomic.LoadInt32(&r.stopping) == 0 {
			r.failf("context of job %d is done before the stop: %v", j.id, err)
		}
		r.mu.Lock()
		r.runs[j.id]++
		r.mu.Unlock()
		defer func() {
			r.mu.Lock()
			r.ended[j.id] = true
			r.mu.Unlock()
		}()
		for _, kid := range j.kids {
			r.executor.Go(r.handler(kid))
		}
		time.Sleep(time.Duration(j.work) * time.Microsecond)
		if j.until && !stopped {
			<-ctx.Done()
			if atomic.LoadInt32(&r.stopping) == 0 {
				r.failf("context of job %d ended before the stop", j.id)
			}
			time.Sleep(time.Duration(j.work) * time.Microsecond)
		}
		switch j.end {
		case "panic":
			panic(fmt.Sprintf("%s job %d", r.prefix, j.id))
		case "panicErr":
			panic(errors.New(fmt.Sprintf("%s job %d", r.prefix, j.id)))
		case "panicStop":
			panic(concurrent.StopSignal)
		case "goexit":
			runtime.Goexit()
		}
	}
}

func (r *execRun) expect(jobs []*job) (ids []int) {
	for _, j := range jobs {
		ids = append(ids, j.id)
		if j.end == "panic" || j.end == "panicErr" {
			r.panics = append(r.panics, fmt.Sprintf("%s job %d", r.prefix, j.id))
		}
		ids = append(ids, r.expect(j.kids)...)
	}
	return ids
}

var sink panicSink

func init() {
	concurrent.LogPanic = func(recovered interface{}, properties ...interface{}) interface{} {
		sink.mu.Lock()
		sink.seen = append(sink.seen, fmt.Sprint(recovered))
		sink.mu.Unlock()
		return recovered
	}
}

var execCase int64

func TestC16_executor(t *testing.T) {
	hz.Run(t, 50, "1 to 12 executors with 1 to 8 jobs each that work, start more jobs, wait for the stop, panic, exit; stopped at a generated time with stop and wait; non-trivial: an executor with at least three jobs of which one panics", func(t *rapid.T, c *hz.Case) {
		n := rapid.IntRange(1, 12).Draw(t, "executors")
		desc := ""
		type plan struct {
			jobs  []*job
			delay int
			how   string
			limit int
		}
		var plans []plan
		for i := 0; i < n; i++ {
			next := 0
			p := plan{
				jobs:  drawJobs(t, 8, 2, &next),
				delay: rapid.SampledFrom([]int{0, 100, 5000, 120000}).Draw(t, "delay"),
				how:   rapid.SampledFrom([]string{"forever", "wait", "stopFirst", "cancelled", "stuck"}).Draw(t, "how"),
				limit: rapid.IntRange(1, 150).Draw(t, "limitMs"),
			}
			plans = append(plans, p)
			desc += fmt.Sprintf("[%v after %dus %s %d]", p.jobs, p.delay, p.how, p.limit)
			text := fmt.Sprint(p.jobs)
			c.NonTrivial(next >= 3 && (strings.Contains(text, "/panic") || strings.Contains(text, "panicErr")))
		}
		c.Desc("%s", desc)
		problems := make([]string, n)
		var wg sync.WaitGroup
		for i := range plans {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				problems[i] = runExecutor(plans[i].jobs, plans[i].delay, plans[i].how, plans[i].limit)
			}(i)
		}
		wg.Wait()
		for i, p := range problems {
			if p != "" {
				t.Fatalf("executor %d: %s", i, p)
			}
		}
	})
}

// TestC16_starved keeps the processors busy, so that started jobs get to run late.
func TestC16_starved(t *testing.T) {
	hz.Run(t, 8, "5 to 20 jobs started while other goroutines keep one or two processors busy; non-trivial: all", func(t *rapid.T, c *hz.Case) {
		procs := rapid.IntRange(1, 2).Draw(t, "procs")
		busy := rapid.IntRange(20, 60).Draw(t, "busy")
		jobs := rapid.IntRange(5, 20).Draw(t, "jobs")
		work := rapid.SampledFrom([]int{0, 100, 2000}).Draw(t, "work")
		c.Desc("procs=%d busy=%d jobs=%d work=%dus", procs, busy, jobs, work)
		c.NonTrivial(true)
		defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(procs))
		var stop, done int32
		var wg sync.WaitGroup
		for i := 0; i < busy*procs; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for end := time.Now().Add(8 * time.Millisecond); atomic.LoadInt32(&stop) == 0 && time.Now().Before(end); {
				}
			}()
		}
		executor := concurrent.NewUnboundedExecutor()
		for i := 0; i < jobs; i++ {
			executor.Go(func(ctx context.Context) {
				time.Sleep(time.Duration(work) * time.Microsecond)
				atomic.AddInt32(&done, 1)
			})
		}
		executor.StopAndWaitForever()
		got := atomic.LoadInt32(&done)
		atomic.StoreInt32(&stop, 1)
		wg.Wait()
		if int(got) != jobs {
			t.Fatalf("%d of %d jobs had ended when the wait was over", got, jobs)
		}
	})
}

func runExecutor(jobs []*job, delay int, how string, limitMs int) string {
	r := &execRun{
		executor: concurrent.NewUnboundedExecutor(), runs: map[int]int{}, ended: map[int]bool{},
		prefix: fmt.Sprint("case", atomic.AddInt64(&execCase, 1)),
	}
	ids := r.expect(jobs)
	for _, j := range jobs {
		r.executor.Go(r.handler(j))
	}
	release := make(chan struct{})
	stuckEnded := make(chan struct{})
	if how == "stuck" {
		r.executor.Go(func(ctx context.Context) {
			<-release
			close(stuckEnded)
		})
	}
	time.Sleep(time.Duration(delay) * time.Microsecond)
	atomic.StoreInt32(&r.stopping, 1)
	switch how {
	case "forever":
		r.executor.StopAndWaitForever()
	case "wait":
		r.executor.StopAndWait(context.Background())
	case "stopFirst":
		r.executor.Stop()
		r.executor.StopAndWaitForever()
	case "cancelled":
		// gives up waiting when told, and can be asked again
		ctx, cancel := context.WithCancel(context.Background())
		cancel()
		r.executor.StopAndWait(ctx)
		r.executor.StopAndWaitForever()
	case "stuck":
		limit := time.Duration(limitMs) * time.Millisecond
		ctx, cancel := context.WithTimeout(context.Background(), limit)
		r.executor.StopAndWait(ctx)
		cut := ctx.Err()
		cancel()
		if cut == nil {
			close(release)
			return "StopAndWait returned while a job was running"
		}
		close(release)
		r.executor.StopAndWaitForever()
		select {
		case <-stuckEnded:
		default:
			return "StopAndWaitForever returned before the stuck job ended"
		}
	}
	// everything has ended now
	r.mu.Lock()
	defer r.mu.Unlock()
	if r.problem != "" {
		return r.problem
	}
	for _, id := range ids {
		if !r.ended[id] {
			return fmt.Sprintf("job %d had not ended when the wait was over", id)
		}
		if r.runs[id] != 1 {
			return fmt.Sprintf("job %d ran %d times", id, r.runs[id])
		}
	}
	if len(r.runs) != len(ids) {
		return fmt.Sprintf("%d jobs ran, want %d", len(r.runs), len(ids))
	}
	var got []string
	sink.mu.Lock()
	for _, s := range sink.seen {
		if strings.HasPrefix(s, r.prefix+" ") {
			got = append(got, s)
		}
		if s == concurrent.StopSignal {
			sink.mu.Unlock()
			return "the stop signal was reported as a panic"
		}
	}
	sink.mu.Unlock()
	sort.Strings(got)
	sort.Strings(r.panics)
	if fmt.Sprint(got) != fmt.Sprint(r.panics) {
		return fmt.Sprintf("reported panics %v, want %v", got, r.panics)
	}
	return ""
}
