package concchk

import (
	"context"
	"errors"
	"fmt"
	"os"
	"strings"
	"sync/atomic"
	"testing"

	"github.com/v2pro/plz/concurrent"
	"pgregory.net/rapid"
	"verifharness/hz"
)

// defaultLogPanic is what reports panics unless the application sets its own.
var defaultLogPanic = concurrent.LogPanic

// nasty panics when it is turned into text, depth times over.
type nasty struct{ depth int }

func (n nasty) Error() string {
	if n.depth > 0 {
		panic(nasty{n.depth - 1})
	}
	return "nasty"
}

type nastyStringer struct{ depth int }

func (n *nastyStringer) String() string { panic(&nastyStringer{n.depth + 1}) }

func drawPanicValue(t *rapid.T) interface{} {
	switch rapid.IntRange(0, 8).Draw(t, "panic") {
	case 0:
		return "text"
	case 1:
		return errors.New("error")
	case 2:
		return nasty{rapid.IntRange(0, 3).Draw(t, "depth")}
	case 3:
		return &nastyStringer{}
	case 4:
		return (*nastyStringer)(nil)
	case 5:
		return []interface{}{nasty{2}, map[string]interface{}{"k": func() {}}}
	case 6:
		return map[interface{}]int{1: 1}
	case 7:
		return struct{ f func() }{}
	default:
		return nil // becomes a runtime error
	}
}

// TestC16_panics: whatever a job panics with, and also when the handler of
// panics panics itself, the process and the other jobs go on and the wait ends.
func TestC16_panics(t *testing.T) {
	mine := concurrent.LogPanic
	stdout, stderr := os.Stdout, os.Stderr
	null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	hz.Infra(err)
	os.Stdout, os.Stderr = null, null // the default handler prints
	defer func() { concurrent.LogPanic, os.Stdout, os.Stderr = mine, stdout, stderr; null.Close() }()
	hz.Run(t, 12, "1 to 10 jobs on an executor, most of which panic with a text, an error, a value that panics when formatted (up to three times over), an incomparable value or a runtime error, while panics are reported by the default handler or by one that panics itself, then stop and wait; non-trivial: at least two jobs panic", func(t *rapid.T, c *hz.Case) {
		how := rapid.SampledFrom([]string{"default", "default", "panics"}).Draw(t, "handler")
		var handled int32
		concurrent.LogPanic = defaultLogPanic
		if how == "panics" {
			concurrent.LogPanic = func(recovered interface{}, properties ...interface{}) interface{} {
				atomic.AddInt32(&handled, 1)
				panic(fmt.Sprintf("%T", recovered))
			}
		}
		n := rapid.IntRange(1, 10).Draw(t, "jobs")
		var desc []string
		var ended int32
		executor := concurrent.NewUnboundedExecutor()
		panics := 0
		for i := 0; i < n; i++ {
			if rapid.IntRange(0, 3).Draw(t, "fine") == 0 {
				desc = append(desc, "returns")
				executor.Go(func(ctx context.Context) { atomic.AddInt32(&ended, 1) })
				continue
			}
			panics++
			v := drawPanicValue(t)
			desc = append(desc, fmt.Sprintf("%T", v))
			executor.Go(func(ctx context.Context) {
				atomic.AddInt32(&ended, 1)
				if v == nil {
					var m map[string]int
					m["a"] = 1
				}
				panic(v)
			})
		}
		c.Desc("handler %s, jobs %s", how, strings.Join(desc, ", "))
		c.NonTrivial(panics >= 2)
		executor.StopAndWaitForever()
		if int(ended) != n {
			t.Fatalf("%d of %d jobs had ended when the wait was over", ended, n)
		}
		if how == "panics" && int(handled) != panics {
			t.Fatalf("%d of %d panics reached the handler", handled, panics)
		}
	})
}
