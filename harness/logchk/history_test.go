package logchk

import (
	"context"
	"fmt"
	"strings"
	"sync"
	"testing"

	"github.com/v2pro/plz/countlog"
	"pgregory.net/rapid"
	"verifharness/hz"
)

// sites of an event name, as far as seen
type siteMap map[string][]site

func (s siteMap) add(c *call) []site {
	s[c.name.text] = append(s[c.name.text], c.site)
	return s[c.name.text]
}

func shapeOf(c *call) string {
	shape := ""
	for i, v := range c.kv {
		if i%2 == 0 {
			shape += fmt.Sprint(v)
		} else {
			shape += fmt.Sprintf("%T ", v)
		}
	}
	return shape
}

// TestC19_history: events that share names but not shapes.
func TestC19_history(t *testing.T) {
	resetLevels()
	countlog.SetMinLevel(0)
	defer resetLevels()
	hz.Run(t, 12000, "up to 12 log calls on 1 or 2 event names through functions and contexts (which get more properties in between) with properties of changing keys, types, number and order, in each format; non-trivial: the same name was used with two shapes", func(t *rapid.T, c *hz.Case) {
		f := drawFormat(t, "compact", "hrf", "json", "printf")
		cap := &capture{}
		countlog.EventWriter = writerTo(f.make(), cap)
		var names []name
		for i := rapid.IntRange(1, 2).Draw(t, "names"); i > 0; i-- {
			names = append(names, drawName(t))
		}
		var ctxs []*ctxModel
		for i := rapid.IntRange(0, 2).Draw(t, "ctxs"); i > 0; i-- {
			ctxs = append(ctxs, &ctxModel{ctx: countlog.Ctx(context.Background())})
		}
		sites := siteMap{}
		shapes := map[string]string{}
		desc := f.String() + ": "
		var earlier *call
		for i := rapid.IntRange(2, 12).Draw(t, "steps"); i > 0; i-- {
			if len(ctxs) > 0 && rapid.IntRange(0, 4).Draw(t, "add") == 0 {
				m := rapid.SampledFrom(ctxs).Draw(t, "to")
				p := prop{rapid.SampledFrom(keys).Draw(t, "key"), drawValue(t)}
				m.ctx.Add(p.key, p.v)
				m.props = append(m.props, p)
			}
			call := drawCall(t, names, ctxs)
			if earlier != nil && rapid.IntRange(0, 3).Draw(t, "sameKeys") == 0 && earlier.name.kind != "template" {
				// same keys, values of other types
				call.name = earlier.name
				call.props = append([]prop{}, earlier.props...)
				for i := range call.props {
					call.props[i] = newProp(call.props[i].key, drawValue(t))
				}
			}
			if earlier != nil && len(earlier.props) > 0 && rapid.IntRange(0, 3).Draw(t, "sameValues") == 0 && earlier.name.kind != "template" {
				// same values (or types of values), under another key here or there
				call.name, call.ctx, call.fn, call.level, call.err = earlier.name, earlier.ctx, earlier.fn, earlier.level, earlier.err
				call.props = append([]prop{}, earlier.props...)
				at := rapid.IntRange(0, len(call.props)-1).Draw(t, "at")
				if other := rapid.IntRange(0, len(call.props)-1).Draw(t, "other"); other != at {
					call.props[at].key, call.props[other].key = call.props[other].key, call.props[at].key
				} else {
					call.props[at].key = rapid.SampledFrom(keys).Draw(t, "otherKey")
				}
				for i, p := range call.props {
					call.props[i] = newProp(p.key, p.value)
				}
				c.Label("other keys only")
			}
			if _, ok := call.name.message(call.props); !ok {
				call.props = call.name.fit(t, call.props)
			}
			earlier = call
			desc += call.String() + "; "
			c.Desc("%s", desc)
			call.emit()
			at := sites.add(call)
			if old, found := shapes[call.name.text]; found && old != shapeOf(call) {
				c.NonTrivial(true)
			}
			shapes[call.name.text] = shapeOf(call)
			writes := cap.take()
			if !call.written() {
				continue
			}
			if len(writes) != 1 {
				t.Fatalf("%s: %s made %d writes: %q\nhistory: %s", f, call, len(writes), writes, desc)
			}
			var ctxProps []prop
			if call.ctx != nil {
				ctxProps = call.ctx.props
			}
			if problem := f.check(writes[0], call, ctxProps, at); problem != "" {
				t.Fatalf("%s: %s: %s\nhistory: %s", f, call, problem, desc)
			}
		}
	})
}

// TestC19_concurrent: the same names from several goroutines with shapes of
// their own; every event comes out with its own properties.
func TestC19_concurrent(t *testing.T) {
	countlog.SetMinLevel(0)
	defer resetLevels()
	hz.Run(t, 400, "2 to 8 goroutines that log 2 to 10 events each on the same 1 to 3 new event names with shapes of their own, in each format; non-trivial: the name of some goroutine is used by another one with other properties", func(t *rapid.T, c *hz.Case) {
		f := drawFormat(t, "compact", "hrf", "json")
		cap := &capture{}
		countlog.EventWriter = writerTo(f.make(), cap)
		var names []name
		for i := rapid.IntRange(1, 3).Draw(t, "names"); i > 0; i-- {
			names = append(names, drawName(t))
		}
		shared := &ctxModel{ctx: countlog.Ctx(context.Background())}
		for _, p := range drawProps(t, 2) {
			shared.ctx.Add(p.key, p.v)
			shared.props = append(shared.props, p)
		}
		n := rapid.IntRange(2, 8).Draw(t, "goroutines")
		plans := make([][]*call, n)
		desc := f.String() + ": "
		all := map[string]*call{}
		for g := range plans {
			for i := rapid.IntRange(2, 10).Draw(t, "calls"); i > 0; i-- {
				call := drawCall(t, names, []*ctxModel{shared})
				if !call.written() {
					call.fn = "Error"
					call.err = nil
				}
				tag := fmt.Sprintf("<%d/%d>", g, len(plans[g]))
				call.props = append(call.props, prop{"tag", value{tag, tag, mustJSON(tag)}})
				all[tag] = call
				plans[g] = append(plans[g], call)
				desc += fmt.Sprintf("%d %s; ", g, call)
			}
		}
		c.Desc("%s", desc)
		users := map[string]string{}
		for _, plan := range plans {
			for _, call := range plan {
				call.kv = flat(call.props)
				shape, found := users[call.name.text]
				c.NonTrivial(found && shape != shapeOf(call))
				users[call.name.text] = shapeOf(call)
			}
		}
		start := make(chan struct{})
		var wg sync.WaitGroup
		panics := make([]interface{}, n)
		for g := range plans {
			wg.Add(1)
			go func(g int) {
				defer wg.Done()
				<-start
				panics[g] = hz.NoPanic(func() {
					for _, call := range plans[g] {
						call.emit()
					}
				})
			}(g)
		}
		close(start)
		wg.Wait()
		for _, p := range panics {
			if p != nil {
				t.Fatalf("logging panicked: %v", p)
			}
		}
		sites := siteMap{}
		for _, plan := range plans {
			for _, call := range plan {
				sites.add(call)
				call.checkReturn(t)
			}
		}
		writes := cap.take()
		if len(writes) != len(all) {
			t.Fatalf("%s: %d events made %d writes", f, len(all), len(writes))
		}
		next := make([]int, n)
		for _, line := range writes {
			begin := strings.LastIndex(line, "tag")
			open := strings.Index(line[begin+1:], "<") + begin + 1
			if f.json {
				open = strings.Index(line[begin:], `\u003c`) + begin
				if open < begin {
					open = strings.Index(line[begin:], "<") + begin
				}
			}
			var g, i int
			if _, err := fmt.Sscanf(strings.NewReplacer(`\u003c`, "<", `\u003e`, ">").Replace(line[open:]), "<%d/%d>", &g, &i); err != nil {
				t.Fatalf("%s: no tag in %q: %v", f, line, err)
			}
			if next[g] != i {
				t.Fatalf("%s: event %d of goroutine %d written when %d was due: %q", f, i, g, next[g], line)
			}
			next[g]++
			call := plans[g][i]
			var ctxProps []prop
			if call.ctx != nil {
				ctxProps = call.ctx.props
			}
			if problem := f.check(line, call, ctxProps, sites[call.name.text]); problem != "" {
				t.Fatalf("%s: %s: %s", f, call, problem)
			}
		}
	})
}

// TestC21_text: one event in one of the text formats, at any level.
func TestC21_text(t *testing.T) {
	countlog.SetMinLevel(-100)
	defer resetLevels()
	hz.Run(t, 40000, "one event with a new name, any function and level, error, context and property list, in the compact, human readable or layout format; non-trivial: it has properties or an error", func(t *rapid.T, c *hz.Case) {
		f := drawFormat(t, "compact", "hrf", "printf")
		checkOne(t, c, f)
	})
}

// TestC22_json: one event in the json format.
func TestC22_json(t *testing.T) {
	countlog.SetMinLevel(-100)
	defer resetLevels()
	hz.Run(t, 40000, "one event with a new name, any function and level, error, context and property list with any keys and values, in the json format; non-trivial: it has properties", func(t *rapid.T, c *hz.Case) {
		checkOne(t, c, format{name: "json", json: true})
	})
}

func checkOne(t *rapid.T, c *hz.Case, f format) {
	cap := &capture{}
	countlog.EventWriter = writerTo(f.make(), cap)
	var ctxs []*ctxModel
	if rapid.Bool().Draw(t, "withCtx") {
		m := &ctxModel{ctx: countlog.Ctx(context.Background()), props: drawProps(t, 3)}
		for _, p := range m.props {
			m.ctx.Add(p.key, p.v)
		}
		ctxs = append(ctxs, m)
	}
	call := drawCall(t, []name{drawName(t)}, ctxs)
	for _, p := range drawProps(t, 6) {
		if rapid.IntRange(0, 2).Draw(t, "anyKey") == 0 {
			p.key = drawText(t)
		}
		if p.key != "agg" {
			call.props = append(call.props, p)
		}
	}
	c.Desc("%s: %s", f, call)
	c.NonTrivial(len(call.props) > 0 || call.err != nil)
	c.Label(f.name)
	for n := rapid.IntRange(1, 2).Draw(t, "times"); n > 0; n-- {
		call.emit()
		writes := cap.take()
		if len(writes) != 1 {
			t.Fatalf("%s: %s made %d writes: %q", f, call, len(writes), writes)
		}
		var ctxProps []prop
		if call.ctx != nil {
			ctxProps = call.ctx.props
		}
		if problem := f.check(writes[0], call, ctxProps, []site{call.site}); problem != "" {
			t.Fatalf("%s: %s: %s", f, call, problem)
		}
	}
}
