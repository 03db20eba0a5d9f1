package concchk

import (
	"context"
	"fmt"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/v2pro/plz/concurrent"
	"pgregory.net/rapid"
	"verifharness/hz"
)

// TestC16_hooks stops executors while the hooks of the package (where the wait
// and the panics are reported) use the executor themselves.
func TestC16_hooks(t *testing.T) {
	hz.Run(t, 15, "1 to 6 jobs, some of which panic, waited for while LogInfo and LogPanic start up to 3 more jobs on the same executor each; non-trivial: a hook started at least one", func(t *rapid.T, c *hz.Case) {
		jobs := rapid.IntRange(1, 6).Draw(t, "jobs")
		panics := rapid.IntRange(0, jobs).Draw(t, "panics")
		work := rapid.SampledFrom([]int{1, 20, 150, 250}).Draw(t, "workMs")
		fromInfo := rapid.IntRange(0, 3).Draw(t, "fromInfo")
		fromPanic := rapid.IntRange(0, 3).Draw(t, "fromPanic")
		c.Desc("jobs=%d panics=%d work=%dms fromInfo=%d fromPanic=%d", jobs, panics, work, fromInfo, fromPanic)
		executor := concurrent.NewUnboundedExecutor()
		var started, ended int32
		more := func(left *int32) {
			if atomic.AddInt32(left, -1) < 0 {
				return
			}
			atomic.AddInt32(&started, 1)
			executor.Go(func(ctx context.Context) {
				time.Sleep(time.Millisecond)
				atomic.AddInt32(&ended, 1)
			})
		}
		infoLeft, panicLeft := int32(fromInfo), int32(fromPanic)
		oldInfo, oldPanic := concurrent.LogInfo, concurrent.LogPanic
		defer func() { concurrent.LogInfo, concurrent.LogPanic = oldInfo, oldPanic }()
		concurrent.LogInfo = func(event string, properties ...interface{}) { more(&infoLeft) }
		concurrent.LogPanic = func(recovered interface{}, properties ...interface{}) interface{} {
			more(&panicLeft)
			return recovered
		}
		var first sync.WaitGroup
		first.Add(jobs)
		for i := 0; i < jobs; i++ {
			i := i
			executor.Go(func(ctx context.Context) {
				defer first.Done()
				time.Sleep(time.Duration(work) * time.Millisecond)
				if i < panics {
					panic(fmt.Sprint("hooks job ", i))
				}
			})
		}
		done := make(chan struct{})
		go func() {
			executor.StopAndWaitForever()
			close(done)
		}()
		select {
		case <-done:
		case <-time.After(30 * time.Second):
			t.Fatalf("the wait for %d jobs of %dms does not end (%d more started, %d of them ended)", jobs, work, atomic.LoadInt32(&started), atomic.LoadInt32(&ended))
		}
		first.Wait()
		c.NonTrivial(atomic.LoadInt32(&started) > 0)
		if s, e := atomic.LoadInt32(&started), atomic.LoadInt32(&ended); s != e {
			t.Fatalf("%d of the %d jobs started by the hooks had ended when the wait was over", e, s)
		}
	})
}
