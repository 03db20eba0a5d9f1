package logchk

import (
	"context"
	"errors"
	"fmt"
	"runtime"
	"strings"
	"sync/atomic"
	"testing"
	"time"

	"github.com/v2pro/plz/countlog"
	"pgregory.net/rapid"
	"verifharness/hz"
)

type node struct {
	Next *node
	Val  [8]int
}

//go:noinline
func deep(n int, f func(*[64]int)) int {
	var pad [64]int
	pad[n%64] = n
	if n == 0 {
		f(&pad)
		return pad[0]
	}
	return deep(n-1, f) + pad[n%64]
}

// TestC20_lifetimes: goroutines of any stack depth log values that live on
// their stack and exit at once, with garbage collections and stack reuse in
// between; nothing crashes and the lines that come out later are still right.
func TestC20_lifetimes(t *testing.T) {
	countlog.SetMinLevel(0)
	defer resetLevels()
	hz.Run(t, 150, "2 to 20 goroutines with stacks 0 to 400 frames deep that log stack values under shared new names and exit, garbage collections in between, then the same names again; non-trivial: some goroutine logged from more than 20 frames deep", func(t *rapid.T, c *hz.Case) {
		fm := drawFormat(t, "compact", "hrf", "json")
		cap := &capture{}
		countlog.EventWriter = writerTo(fm.make(), cap)
		tail := atomic.AddInt64(&serial, 1)
		names := []string{fmt.Sprintf("event!life %d", tail), fmt.Sprintf("{k} and {v} %d", tail)}
		n := rapid.IntRange(2, 20).Draw(t, "goroutines")
		depths := rapid.SliceOfN(rapid.SampledFrom([]int{0, 0, 1, 5, 30, 100, 400}), n, n).Draw(t, "depths")
		gcs := rapid.SliceOfN(rapid.IntRange(0, 2), n, n).Draw(t, "gcs")
		c.Desc("%s depths %v gcs %v", fm, depths, gcs)
		failed := make(chan string, n)
		for g := 0; g < n; g++ {
			if depths[g] > 20 {
				c.NonTrivial(true)
			}
			done := make(chan struct{})
			go func(g int) {
				defer close(done)
				if p := hz.NoPanic(func() {
					deep(depths[g], func(pad *[64]int) {
						local := node{Val: [8]int{g, g + 1}}
						text := fmt.Sprint("stack value ", g)
						kv := [4]interface{}{"k", text, "v", local}
						if gcs[g] == 1 {
							runtime.GC()
						}
						countlog.Error(names[g%2], kv[:]...)
						ctx := countlog.Ctx(context.Background())
						ctx.Add("c", pad[:1])
						err := ctx.InfoCall(names[g%2], errors.New("cause"), kv[:]...)
						if err == nil || !strings.HasSuffix(err.Error(), ": cause") {
							panic(fmt.Sprint("returned ", err))
						}
					})
				}); p != nil {
					failed <- fmt.Sprint(p)
				}
			}(g)
			select {
			case <-done:
			case <-time.After(60 * time.Second):
				t.Fatalf("logging goroutine hangs")
			}
			if gcs[g] == 2 {
				runtime.GC()
			}
			for i, line := range cap.take() {
				if !strings.Contains(line, fmt.Sprint("stack value ", g)) || !strings.Contains(line, fmt.Sprintf("[%d,%d,0,0,0,0,0,0]", g, g+1)) {
					t.Fatalf("line %d of goroutine %d has lost its values: %q", i, g, line)
				}
			}
		}
		select {
		case p := <-failed:
			t.Fatalf("logging panicked: %s", p)
		default:
		}
	})
}

