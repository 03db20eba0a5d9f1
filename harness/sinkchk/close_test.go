package sinkchk

import (
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"os"
	"strings"
	"sync"
	"syscall"
	"testing"

	"github.com/v2pro/plz"
	"github.com/v2pro/plz/countlog"
	"github.com/v2pro/plz/countlog/spi"
	"pgregory.net/rapid"
	"verifharness/hz"
)

type logged struct {
	name  string
	event *spi.Event
}

// TestC28_close: lists of resources against a model.
func TestC28_close(t *testing.T) {
	var mu sync.Mutex
	var log []logged
	countlog.EventWriter = spi.FuncEventSink(func(site *spi.LogSite) spi.EventHandler {
		name := site.Event
		return spi.FuncEventHandler(func(event *spi.Event) {
			mu.Lock()
			log = append(log, logged{name, event})
			mu.Unlock()
		})
	})
	hz.Run(t, 20000, "0 to 8 resources that succeed or fail (with errors of their own, the usual ones of the standard library, empty and nil-pointer ones), some of them twice in the list, closed with Close and CloseAll, with property lists of 0 to 3 pairs, some with spare capacity, at any minimum level; non-trivial: some but not all fail", func(t *rapid.T, c *hz.Case) {
		countlog.SetMinLevel(rapid.SampledFrom([]int{0, 10, 30, 60}).Draw(t, "min"))
		log = nil
		var order []int
		var resources []io.Closer
		var errs []error
		ids := rapid.SliceOfN(rapid.IntRange(0, 5), 0, 8).Draw(t, "resources")
		fails := rapid.SliceOfN(rapid.IntRange(0, 2+len(usualErrors)), 6, 6).Draw(t, "fails")
		made := map[int]io.Closer{}
		failures := map[int]error{}
		for _, id := range ids {
			id := id
			if made[id] == nil {
				switch fails[id] {
				case 0:
				case 1:
					failures[id] = fmt.Errorf("failure %d", id)
				case 2:
					failures[id] = plz.MultiError{errors.New("nested"), fmt.Errorf("failure %d", id)}
				default:
					failures[id] = usualErrors[fails[id]-3]
				}
				made[id] = plz.WrapCloser(func() error {
					order = append(order, id)
					return failures[id]
				})
			}
			resources = append(resources, made[id])
			if failures[id] != nil {
				errs = append(errs, failures[id])
			}
		}
		nprops := rapid.IntRange(0, 3).Draw(t, "props")
		props := make([]interface{}, 0, 2*nprops+rapid.IntRange(0, 4).Draw(t, "spare"))
		for i := 0; i < nprops; i++ {
			props = append(props, fmt.Sprint("key", i), i)
		}
		whole := props[:cap(props)]
		one := rapid.IntRange(0, 4).Draw(t, "one") == 0 && len(resources) > 0
		c.Desc("one=%v resources %v failing %v props %d/%d", one, ids, fails, len(props), cap(props))
		c.NonTrivial(len(errs) > 0 && len(errs) < len(ids))
		var err error
		if one {
			resources = resources[:1]
			err = plz.Close(resources[0], props...)
			want := failures[ids[0]]
			errs = nil
			if want != nil {
				errs = []error{want}
			}
			if fmt.Sprint(err) != fmt.Sprint(want) || (err == nil) != (want == nil) {
				t.Fatalf("Close returned %v, want %v", err, want)
			}
		} else {
			err = plz.CloseAll(resources, props...)
			if (err == nil) != (len(errs) == 0) {
				t.Fatalf("CloseAll with %d failures returned %v", len(errs), err)
			}
			if err != nil {
				multi, ok := err.(plz.MultiError)
				if !ok || !sameErrors(multi, errs) {
					t.Fatalf("CloseAll returned %#v, want %v", err, errs)
				}
				if err.Error() == "" {
					t.Fatalf("the error of CloseAll says nothing")
				}
			}
		}
		var want []int
		for i := range resources {
			want = append(want, ids[i])
		}
		if fmt.Sprint(order) != fmt.Sprint(want) {
			t.Fatalf("closed %v, want %v", order, want)
		}
		for i := 0; i < len(whole); i++ {
			if i >= len(props) && whole[i] != nil {
				t.Fatalf("the spare capacity of the caller's properties was written to: %v", whole)
			}
			if i < len(props) && (i%2 == 0 && whole[i] != fmt.Sprint("key", i/2) || i%2 == 1 && whole[i] != i/2) {
				t.Fatalf("the caller's properties were changed: %v", whole)
			}
		}
		var failed []logged
		for _, l := range log {
			if !strings.Contains(l.name, "close_test.go:") {
				t.Fatalf("event %q does not tell where the resource was closed", l.name)
			}
			if l.event.Level == countlog.LevelError {
				failed = append(failed, l)
			} else if l.event.Level > countlog.LevelError {
				t.Fatalf("closing logged an event of level %d", l.event.Level)
			}
		}
		if len(failed) != len(errs) {
			t.Fatalf("%d failures, %d error events", len(errs), len(failed))
		}
		for i, l := range failed {
			p := l.event.Properties
			if len(p) != len(props)+2 || p[len(props)] != "err" || fmt.Sprint(p[len(props)+1]) != fmt.Sprint(errs[i]) {
				t.Fatalf("failure %v was logged with %v", errs[i], p)
			}
			for k := range props {
				if p[k] != props[k] {
					t.Fatalf("failure %v was logged with %v", errs[i], p)
				}
			}
			if !strings.Contains(l.name, "close_test.go:") {
				t.Fatalf("event %q does not tell where the resource was closed", l.name)
			}
		}
	})
}

// usualErrors are what closing usually fails with, and strange ones: every one is a failure.
var usualErrors = []error{io.EOF, io.ErrUnexpectedEOF, io.ErrClosedPipe, io.ErrShortWrite, os.ErrClosed, os.ErrNotExist, os.ErrInvalid, os.ErrPermission,
	&os.PathError{Op: "close", Path: "x", Err: os.ErrClosed}, &os.PathError{Op: "close", Path: "x", Err: os.ErrNotExist}, fmt.Errorf("close: %w", io.EOF),
	context.Canceled, context.DeadlineExceeded, net.ErrClosed, http.ErrServerClosed, syscall.EINTR, syscall.EAGAIN, syscall.EBADF, syscall.EIO,
	errors.New(""), plz.MultiError{}, plz.MultiError(nil), (*nilError)(nil), emptyError{}}

type nilError struct{}

func (*nilError) Error() string { return "nil" }

type emptyError struct{}

func (emptyError) Error() string   { return "temporary" }
func (emptyError) Temporary() bool { return true }
func (emptyError) Timeout() bool   { return true }

func sameErrors(a plz.MultiError, b []error) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if fmt.Sprintf("%#v", a[i]) != fmt.Sprintf("%#v", b[i]) {
			return false
		}
	}
	return true
}

// TestC28_merge: merging keeps what is not nil.
func TestC28_merge(t *testing.T) {
	hz.Run(t, 10000, "lists of 0 to 10 errors with nils among them; non-trivial: both kinds", func(t *rapid.T, c *hz.Case) {
		var errs, want []error
		for i := rapid.IntRange(0, 10).Draw(t, "errors"); i > 0; i-- {
			var err error
			if rapid.Bool().Draw(t, "fails") {
				err = fmt.Errorf("failure %d", i)
				if usual := rapid.IntRange(0, 2*len(usualErrors)).Draw(t, "usual"); usual < len(usualErrors) {
					err = usualErrors[usual]
				}
				want = append(want, err)
			}
			errs = append(errs, err)
		}
		given := append([]error{}, errs...)
		c.Desc("%v", errs)
		c.NonTrivial(len(want) > 0 && len(want) < len(errs))
		got := plz.MergeErrors(errs...)
		for i := range errs {
			if fmt.Sprintf("%#v", errs[i]) != fmt.Sprintf("%#v", given[i]) {
				t.Fatalf("the list of the caller was changed")
			}
		}
		if len(want) == 0 {
			if got != nil {
				t.Fatalf("MergeErrors(%v) is %v", errs, got)
			}
			return
		}
		multi, ok := got.(plz.MultiError)
		if !ok || !sameErrors(multi, want) {
			t.Fatalf("MergeErrors(%v) is %#v", errs, got)
		}
	})
}
