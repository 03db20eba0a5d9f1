package logchk

import (
	"context"
	"errors"
	"fmt"
	"testing"
	"time"

	"github.com/v2pro/plz/countlog"
	"github.com/v2pro/plz/countlog/spi"
	"pgregory.net/rapid"
	"verifharness/hz"
)

type ctxKey int

// some like those of properties
var ctxKeys = []interface{}{ctxKey(0), ctxKey(1), ctxKey(2), ctxKey(3), "a", "user_id", 0, "err"}

// cnode is one context of the tree, logging or not.
type cnode struct {
	id       int
	ctx      context.Context
	log      *countlog.Context // nil if it is no logging context
	parent   *cnode
	key      interface{}
	value    interface{}
	cancel   func()
	canceled bool
	deadline time.Time
	// of logging contexts
	model *ctxModel
}

func (n *cnode) nearest() *ctxModel {
	for ; n != nil; n = n.parent {
		if n.model != nil {
			return n.model
		}
	}
	return nil
}

func (n *cnode) lookup(key interface{}) interface{} {
	for ; n != nil; n = n.parent {
		if n.key != nil && n.key == key {
			return n.value
		}
	}
	return nil
}

func (n *cnode) isCanceled() bool {
	for ; n != nil; n = n.parent {
		if n.canceled {
			return true
		}
	}
	return false
}

func (n *cnode) due() (time.Time, bool) {
	var at time.Time
	found := false
	for ; n != nil; n = n.parent {
		if !n.deadline.IsZero() && (!found || n.deadline.Before(at)) {
			at, found = n.deadline, true
		}
	}
	return at, found
}

// sameProps compares flat properties with the model.
func sameProps(flatProps []interface{}, props []prop) bool {
	if len(flatProps) != 2*len(props) {
		return false
	}
	for i, p := range props {
		if flatProps[2*i] != p.key || fmt.Sprintf("%T%v", flatProps[2*i+1], flatProps[2*i+1]) != fmt.Sprintf("%T%v", p.v, p.v) {
			return false
		}
	}
	return true
}

// TestC29_tree: trees of contexts against a model.
func TestC29_tree(t *testing.T) {
	resetLevels()
	defer resetLevels()
	hz.Run(t, 25000, "up to 20 steps of deriving contexts (values, deadlines, cancellation, logging) from each other, adding properties, suppressing levels, cancelling and logging through them; non-trivial: two logging contexts and some event was logged through each of two", func(t *rapid.T, c *hz.Case) {
		resetLevels()
		rec := &recorder{}
		byFormat := rapid.Bool().Draw(t, "hrf")
		cap := &capture{}
		fm := format{name: "hrf"}
		if byFormat {
			countlog.EventWriter = writerTo(fm.make(), cap)
		} else {
			countlog.EventWriter = rec
		}
		names := []name{drawName(t), drawName(t)}
		nodes := []*cnode{{id: 0, ctx: context.Background()}}
		desc := "1=Ctx(0); 2=Ctx(WithValue(0)); "
		for _, from := range []*cnode{{ctx: context.Background()}, {ctx: context.WithValue(context.Background(), ctxKey(3), "base"), key: ctxKey(3), value: "base"}} {
			log := countlog.Ctx(from.ctx)
			nodes = append(nodes, &cnode{id: len(nodes), ctx: log, log: log, parent: from, model: &ctxModel{ctx: log}})
		}
		used := map[*ctxModel]bool{}
		logging := func() (out []*cnode) {
			for _, n := range nodes {
				if n.log != nil {
					out = append(out, n)
				}
			}
			return
		}
		sites := siteMap{}
		for i := rapid.IntRange(4, 24).Draw(t, "steps"); i > 0; i-- {
			from := rapid.SampledFrom(nodes).Draw(t, "from")
			op := rapid.SampledFrom([]int{3, 0, 1, 2, 3, 4, 5, 6, 6, 7, 8, 9, 9, 9, 9, 9, 9}).Draw(t, "op")
			child := &cnode{id: len(nodes), parent: from}
			switch op {
			case 0:
				child.key, child.value = rapid.SampledFrom(ctxKeys).Draw(t, "key"), len(nodes)
				child.ctx = context.WithValue(from.ctx, child.key, child.value)
				desc += fmt.Sprintf("%d=WithValue(%d,%v); ", child.id, from.id, child.key)
				nodes = append(nodes, child)
			case 1:
				child.ctx, child.cancel = context.WithCancel(from.ctx)
				desc += fmt.Sprintf("%d=WithCancel(%d); ", child.id, from.id)
				nodes = append(nodes, child)
				defer child.cancel()
			case 2:
				child.deadline = time.Now().Add(time.Duration(rapid.IntRange(1, 5).Draw(t, "hours")) * time.Hour)
				var cancel func()
				child.ctx, cancel = context.WithDeadline(from.ctx, child.deadline)
				desc += fmt.Sprintf("%d=WithDeadline(%d); ", child.id, from.id)
				nodes = append(nodes, child)
				defer cancel()
			case 3, 4:
				desc += fmt.Sprintf("%d=Ctx(%d); ", child.id, from.id)
				log := countlog.Ctx(from.ctx)
				if from.log != nil {
					if log != from.log {
						t.Fatalf("wrapping a logging context gave another one\n%s", desc)
					}
					continue
				}
				child.log, child.ctx = log, log
				child.model = &ctxModel{ctx: log}
				nodes = append(nodes, child)
			case 5:
				if from.cancel != nil {
					desc += fmt.Sprintf("cancel(%d); ", from.id)
					from.cancel()
					from.canceled = true
				}
			case 6:
				if all := logging(); len(all) > 0 {
					n := rapid.SampledFrom(all).Draw(t, "ctx")
					p := prop{rapid.SampledFrom(keys).Draw(t, "pkey"), drawValue(t)}
					desc += fmt.Sprintf("%d.Add(%s); ", n.id, p.key)
					n.log.Add(p.key, p.v)
					n.model.props = append(n.model.props, p)
				}
			case 7:
				p := prop{rapid.SampledFrom(keys).Draw(t, "pkey"), drawValue(t)}
				desc += fmt.Sprintf("AddLogContext(%d,%s); ", from.id, p.key)
				spi.AddLogContext(from.ctx, p.key, p.v)
				if m := from.nearest(); m != nil {
					m.props = append(m.props, p)
				}
			case 8:
				if all := logging(); len(all) > 0 {
					n := rapid.SampledFrom(all).Draw(t, "ctx")
					level := drawLevel(t)
					desc += fmt.Sprintf("%d.SuppressLevelsBelow(%d); ", n.id, level)
					n.log.SuppressLevelsBelow(level)
					n.model.suppress = level
				}
			default:
				var models []*ctxModel
				for _, n := range logging() {
					models = append(models, n.model)
				}
				call := drawCall(t, names, models)
				desc += fmt.Sprintf("log %s; ", call)
				c.Desc("%s", desc)
				call.emit()
				call.checkReturn(t)
				at := sites.add(call)
				var lines []string
				events := rec.take()
				lines = cap.take()
				if len(events)+len(lines) != map[bool]int{true: 1}[call.written()] {
					t.Fatalf("%s was written %d times\n%s", call, len(events)+len(lines), desc)
				}
				if !call.written() {
					continue
				}
				var want []prop
				if call.ctx != nil {
					want = call.ctx.props
					used[call.ctx] = true
				}
				if byFormat {
					if problem := fm.check(lines[0], call, want, at); problem != "" {
						t.Fatalf("%s: %s\n%s", call, problem, desc)
					}
					continue
				}
				checkRecorded(t, events[0], call)
				var got []interface{}
				if ctx := events[0].event.Context; ctx != nil {
					if logContext := spi.GetLogContext(ctx); logContext != nil {
						got = logContext.Properties
					}
				}
				if !sameProps(got, want) {
					t.Fatalf("%s came with context properties %s\n%s", call, showKV(got), desc)
				}
			}
			c.Desc("%s", desc)
			c.NonTrivial(len(used) > 1)
			for _, n := range nodes {
				for _, k := range ctxKeys {
					if got := n.ctx.Value(k); got != n.lookup(k) {
						t.Fatalf("context %d: value of %v is %v, want %v\n%s", n.id, k, got, n.lookup(k), desc)
					}
				}
				var canceled bool
				select {
				case <-n.ctx.Done():
					canceled = true
				default:
				}
				if canceled != n.isCanceled() || canceled != errors.Is(n.ctx.Err(), context.Canceled) {
					t.Fatalf("context %d: done %v, error %v, cancelled %v\n%s", n.id, canceled, n.ctx.Err(), n.isCanceled(), desc)
				}
				at, has := n.ctx.Deadline()
				wantAt, wantHas := n.due()
				if has != wantHas || !at.Equal(wantAt) {
					t.Fatalf("context %d: deadline %v %v, want %v\n%s", n.id, at, has, wantAt, desc)
				}
				logContext := spi.GetLogContext(n.ctx)
				if m := n.nearest(); (m == nil) != (logContext == nil) {
					t.Fatalf("context %d: log context %v, want one: %v\n%s", n.id, logContext, m != nil, desc)
				} else if m != nil && !sameProps(logContext.Properties, m.props) {
					t.Fatalf("context %d has properties %s, want %s\n%s", n.id, showKV(logContext.Properties), showProps(m.props), desc)
				}
			}
		}
	})
}
