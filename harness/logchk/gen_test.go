package logchk

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"os"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"github.com/v2pro/plz/countlog"
	"github.com/v2pro/plz/countlog/loglog"
	"github.com/v2pro/plz/countlog/output"
	"github.com/v2pro/plz/countlog/spi"
	"pgregory.net/rapid"
	"verifharness/hz"
)

var troubles int64 // reports of the logger about itself

func TestMain(m *testing.M) {
	null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	hz.Infra(err)
	os.Stderr = null // the logger prints stack traces of contained panics there
	loglog.Error = func(err error) {
		atomic.AddInt64(&troubles, 1)
	}
	hz.Main(m)
}

// ---- values ----

type value struct {
	v    interface{}
	text string // in text formats
	json string // in json lines
}

type point struct {
	X, Y int
	Name string
}
type strer struct{ s string }

func (s strer) String() string { return "strer(" + s.s + ")" }

type one struct{ P *int }
type nameStr string

func drawText(t *rapid.T) string {
	return rapid.OneOf(
		rapid.StringMatching(`[a-z ]{0,6}`),
		rapid.SampledFrom([]string{"", "中文", "a|b", "x\ny", "\\", "\"q\"", "{v}", "}", "{", "%s", "100%", "\x00", "tab\t", "||k=v", "<&>"}),
		rapid.StringN(0, 6, 20),
	).Draw(t, "text")
}

func mustJSON(v interface{}) string {
	out, err := json.Marshal(v)
	hz.Infra(err)
	return string(out)
}

func escapeBytes(b []byte) string {
	out := ""
	for _, c := range b {
		switch {
		case c == '\\':
			out += `\\`
		case c == '\n':
			out += `\n`
		case c == '\r':
			out += `\r`
		case c == '\t':
			out += `\t`
		case c < 0x20 || c >= 0x80 || c == '|':
			out += fmt.Sprintf(`\x%02x`, c)
		default:
			out += string(rune(c))
		}
	}
	return out
}

func drawValue(t *rapid.T) value {
	n := rapid.IntRange(-1000000, 1000000).Draw(t, "n")
	same := func(v interface{}) value {
		text := mustJSON(v)
		return value{v, text, text}
	}
	switch rapid.IntRange(0, 18).Draw(t, "kind") {
	case 17:
		// a marshaler whose json has line breaks
		raw := json.RawMessage(fmt.Sprintf("{\n  \"n\" : [%d,\r\n\t\"a b\"]\n}\n", n))
		text := fmt.Sprintf("{\"n\":[%d,\"a b\"]}", n)
		return value{raw, text, text}
	case 18:
		when := time.Unix(int64(n)*1000, 5).UTC()
		return value{when, when.String(), mustJSON(when)}
	case 0, 1:
		s := drawText(t)
		return value{s, s, mustJSON(s)}
	case 2:
		b := []byte(rapid.StringMatching(`[ -!#-\[\]-{}~]{0,8}`).Draw(t, "bytes"))
		return value{b, string(b), mustJSON(string(b))}
	case 3:
		return same(n)
	case 4:
		return same(int64(n) << 30)
	case 5:
		return same(uint8(n))
	case 6:
		return same(n%2 == 0)
	case 7:
		return same(nil)
	case 8:
		return same(point{n, -n, "p"})
	case 9:
		return same(&point{n, 1, "q"})
	case 10:
		return value{rapid.SampledFrom([]interface{}{(*point)(nil), (*strer)(nil), (*time.Time)(nil)}).Draw(t, "nil"), "null", "null"}
	case 11:
		return same([]int{n, n + 1})
	case 12:
		return same(map[string]int{"k": n})
	case 13:
		s := strer{drawText(t)}
		return value{s, s.String(), "{}"}
	case 14:
		e := errors.New(rapid.StringMatching(`[a-z "]{0,9}`).Draw(t, "err"))
		return value{e, mustJSON(e.Error()), mustJSON(e.Error())}
	case 15:
		return same(one{&n})
	default:
		d := time.Duration(n)
		return value{d, d.String(), fmt.Sprint(n)}
	}
}

type prop struct {
	key string
	value
}

var keys = []string{"a", "b", "key", "user_id", "名前", "x1"}
var oddKeys = []string{"timer", "", "with space", "a.b", "{a}", "k\"q", "line\nbreak", "timestamp", "event", "err", "agg", "dim"}

func drawProps(t *rapid.T, max int) []prop {
	var props []prop
	for i := rapid.IntRange(0, max).Draw(t, "props"); i > 0; i-- {
		key := rapid.SampledFrom(keys).Draw(t, "key")
		if rapid.IntRange(0, 5).Draw(t, "odd") == 0 {
			key = rapid.SampledFrom(oddKeys).Draw(t, "oddKey")
		}
		props = append(props, newProp(key, drawValue(t)))
	}
	return props
}

// newProp leaves out those that ask for counting, as they have a threshold of
// their own.
func newProp(key string, v value) prop {
	if _, isStr := v.v.(string); isStr && key == "agg" {
		key = "dim"
	}
	return prop{key, v}
}

func flat(props []prop) []interface{} {
	var kv []interface{}
	for _, p := range props {
		kv = append(kv, p.key, p.v)
	}
	return kv
}

func showProps(props []prop) string {
	out := "["
	for _, p := range props {
		out += fmt.Sprintf("%q:%T(%.40q) ", p.key, p.v, p.text)
	}
	return out + "]"
}

// ---- event names ----

var serial int64

// name of an event; all of them are new to the process.
type name struct {
	text string
	kind string   // plain, event, callee, template
	vars []string // literal, variable, literal, variable ...
}

func drawName(t *rapid.T) name {
	tail := fmt.Sprintf(" #%d", atomic.AddInt64(&serial, 1))
	literal := func() string {
		return rapid.OneOf(rapid.StringMatching(`[a-zA-Z .,!|=-]{0,8}`), rapid.SampledFrom([]string{"中文", "100%", "}", "a\tb", "\"x\"", "\\", "event!", "callee!"})).Draw(t, "literal")
	}
	switch rapid.IntRange(0, 5).Draw(t, "nameKind") {
	case 0, 1:
		text := "event!" + literal() + tail
		return name{text: text, kind: "event"}
	case 2:
		text := "callee!" + literal() + tail
		return name{text: text, kind: "callee"}
	case 3:
		text := "plain " + literal() + tail
		return name{text: text, kind: "plain"}
	default:
		n := name{kind: "template"}
		for i := rapid.IntRange(1, 3).Draw(t, "vars"); i > 0; i-- {
			lit, key := literal(), rapid.SampledFrom(keys).Draw(t, "var")
			if n.text == "" {
				lit = "t " + lit
			}
			n.vars = append(n.vars, lit, key)
			n.text += lit + "{" + key + "}"
		}
		n.vars = append(n.vars, tail)
		n.text += tail
		return n
	}
}

// message renders the name as a message; ok is false if a variable is missing.
func (n name) message(props []prop) (string, bool) {
	if n.kind != "template" {
		return n.text, true
	}
	out := ""
	for i, part := range n.vars {
		if i%2 == 0 {
			out += part
			continue
		}
		found := false
		for _, p := range props {
			if p.key == part {
				out += p.text
				found = true
				break
			}
		}
		if !found {
			return "", false
		}
	}
	return out, true
}

// fit adds the properties the name needs.
func (n name) fit(t *rapid.T, props []prop) []prop {
	for i, part := range n.vars {
		if i%2 == 0 {
			continue
		}
		found := false
		for _, p := range props {
			found = found || p.key == part
		}
		if !found {
			at := rapid.IntRange(0, len(props)).Draw(t, "at")
			props = append(props[:at:at], append([]prop{{part, drawValue(t)}}, props[at:]...)...)
		}
	}
	return props
}

// ---- log calls ----

// call is one call of one of the log functions.
type call struct {
	fn    string
	level int // of Log
	ctx   *ctxModel
	name  name
	err   error
	props []prop
	// filled by emit
	ret           error
	site          site
	before, after time.Time
	kv            []interface{}
}

// ctxModel is a logging context and what is known about it.
type ctxModel struct {
	ctx      *countlog.Context
	props    []prop
	suppress int
}

type site struct {
	function string
	file     string
	line     int
}

func (s site) String() string { return fmt.Sprintf("%s @ %s:%d", s.function, s.file, s.line) }

func here() site {
	pc, file, line, _ := runtime.Caller(1)
	return site{runtime.FuncForPC(pc).Name(), file, line}
}

var plainFns = []string{"Trace", "Debug", "Info", "Warn", "Error", "Fatal"}
var callFns = []string{"TraceCall", "DebugCall", "InfoCall"}

func isCall(fn string) bool { return strings.HasSuffix(fn, "Call") || fn == "LogAccess" }

func (c *call) String() string {
	text := c.fn
	if c.fn == "Log" {
		text += fmt.Sprintf("(%d)", c.level)
	}
	if c.ctx != nil {
		text = "ctx" + showProps(c.ctx.props) + "." + text
	}
	text += fmt.Sprintf(" %q ", c.name.text[:len(c.name.text)-len(c.name.text[strings.LastIndex(c.name.text, " #"):])])
	if isCall(c.fn) {
		text += fmt.Sprintf("err=%v ", c.err)
	}
	return text + showProps(c.props)
}

var causes = []error{nil, nil, nil, errors.New("disk full"), errors.New("disk full"), errors.New(""), errors.New("{a} 中文\nline"), fmt.Errorf("wrapped: %w", os.ErrNotExist),
	context.Canceled, context.DeadlineExceeded, io.EOF, io.ErrShortWrite, os.ErrNotExist, syscall.EAGAIN, syscall.ENOENT, syscall.Errno(0),
	listCause{"not", "comparable"}, listCause(nil), (*ptrCause)(nil), &ptrCause{"soon"}, errors.Join(io.EOF, context.Canceled)}

// listCause is an error that can not be compared.
type listCause []string

func (c listCause) Error() string { return fmt.Sprintf("%q", []string(c)) }

// ptrCause is an error that is one even when it is a nil pointer.
type ptrCause struct{ text string }

func (c *ptrCause) Error() string {
	if c == nil {
		return "nil cause"
	}
	return c.text
}
func (c *ptrCause) Temporary() bool { return true }
func (c *ptrCause) Timeout() bool   { return true }

func drawCall(t *rapid.T, names []name, ctxs []*ctxModel) *call {
	c := &call{name: rapid.SampledFrom(names).Draw(t, "name")}
	if len(ctxs) > 0 && rapid.Bool().Draw(t, "useCtx") {
		c.ctx = rapid.SampledFrom(ctxs).Draw(t, "ctx")
	}
	fns := append(append([]string{}, plainFns...), callFns...)
	if c.ctx == nil {
		fns = append(fns, "Log")
	} else {
		fns = append(fns, "LogAccess")
	}
	c.fn = rapid.SampledFrom(fns).Draw(t, "fn")
	if c.fn == "Log" {
		c.level = drawLevel(t)
	}
	if isCall(c.fn) {
		c.err = rapid.SampledFrom(causes).Draw(t, "cause")
	}
	c.props = c.name.fit(t, drawProps(t, 4))
	return c
}

func drawLevel(t *rapid.T) int {
	return rapid.OneOf(rapid.SampledFrom([]int{5, 10, 15, 20, 25, 30, 40, 50, 60, 10, 20, 30}), rapid.IntRange(-5, 70)).Draw(t, "level")
}

//go:noinline
// emit logs the event; parts of it claim to be in a file of an odd name.
func (c *call) emit() {
	kv := flat(c.props)
	c.kv = kv
	c.before = time.Now()
	defer func() { c.after = time.Now() }()
	n := c.name.text
	if c.ctx == nil {
		switch c.fn {
		case "Trace":
			c.site = here(); countlog.Trace(n, kv...)
		case "Debug":
			c.site = here(); countlog.Debug(n, kv...)
		case "Info":
			c.site = here(); countlog.Info(n, kv...)
		case "Warn":
			c.site = here(); countlog.Warn(n, kv...)
//line /odd "dir"\%d{event}|é 文/x<y>.go:11
		case "Error":
			c.site = here(); countlog.Error(n, kv...)
		case "Fatal":
			c.site = here(); countlog.Fatal(n, kv...)
//line gen_test.go:900
		case "Log":
			c.site = here(); countlog.Log(c.level, n, kv...)
		case "TraceCall":
			c.site = here(); c.ret = countlog.TraceCall(n, c.err, kv...)
		case "DebugCall":
			c.site = here(); c.ret = countlog.DebugCall(n, c.err, kv...)
		case "InfoCall":
			c.site = here(); c.ret = countlog.InfoCall(n, c.err, kv...)
		default:
			panic(c.fn)
		}
		return
	}
	ctx := c.ctx.ctx
	switch c.fn {
	case "Trace":
		c.site = here(); ctx.Trace(n, kv...)
	case "Debug":
		c.site = here(); ctx.Debug(n, kv...)
//line /odd "dir"\%d{event}|é 文/x<y>.go:70000
	case "Info":
		c.site = here(); ctx.Info(n, kv...)
	case "Warn":
		c.site = here(); ctx.Warn(n, kv...)
	case "Error":
		c.site = here(); ctx.Error(n, kv...)
//line gen_test.go:950
	case "Fatal":
		c.site = here(); ctx.Fatal(n, kv...)
	case "TraceCall":
		c.site = here(); c.ret = ctx.TraceCall(n, c.err, kv...)
	case "DebugCall":
		c.site = here(); c.ret = ctx.DebugCall(n, c.err, kv...)
//line /odd "dir"\%d{event}|é 文/x<y>.go:123456
	case "InfoCall":
		c.site = here(); c.ret = ctx.InfoCall(n, c.err, kv...)
	case "LogAccess":
		c.site = here(); c.ret = ctx.LogAccess(n, c.err, kv...)
	default:
		panic(c.fn)
	}
}
//line gen_test.go:1000

var fnLevels = map[string]int{
	"Trace": 10, "Debug": 20, "Info": 30, "Warn": 40, "Error": 50, "Fatal": 60,
	"TraceCall": 10, "DebugCall": 20, "InfoCall": 30, "LogAccess": 30,
}

// eventLevel is the level the event is written with.
func (c *call) eventLevel() int {
	if isCall(c.fn) && c.err != nil {
		if c.fn == "LogAccess" {
			return 50
		}
		return 40
	}
	if c.fn == "Log" {
		return c.level
	}
	return fnLevels[c.fn]
}

// written tells whether the event comes out.
func (c *call) written() bool {
	level := c.eventLevel()
	if isCall(c.fn) {
		if c.err == nil && level < spi.MinLevel {
			return false
		}
		return level >= spi.MinCallLevel
	}
	switch c.fn {
	case "Warn", "Error", "Fatal":
		return true
	case "Trace", "Debug", "Info":
		if c.ctx != nil && level < c.ctx.suppress {
			return false
		}
	}
	return level >= spi.MinLevel
}

// checkReturn checks what the call functions return.
func (c *call) checkReturn(t fataler) {
	if !isCall(c.fn) {
		return
	}
	if c.err == nil {
		if c.ret != nil {
			t.Fatalf("%s without an error returned %q", c, c.ret)
		}
		return
	}
	if c.ret == nil {
		t.Fatalf("%s returned nil", c)
	}
	msg, ok := c.name.message(c.props)
	if ok && c.ret.Error() != msg+": "+c.err.Error() {
		t.Fatalf("%s returned %q, want %q", c, c.ret.Error(), msg+": "+c.err.Error())
	}
	if !strings.HasSuffix(c.ret.Error(), ": "+c.err.Error()) {
		t.Fatalf("%s returned %q, which does not end with the cause", c, c.ret.Error())
	}
}

type fataler interface {
	Fatalf(format string, args ...interface{})
	Helper()
}

// ---- sinks ----

// capture is the writer at the end: it keeps a copy of each write.
type capture struct {
	mu     sync.Mutex
	writes []string
}

func (w *capture) Write(p []byte) (int, error) {
	w.mu.Lock()
	w.writes = append(w.writes, string(p))
	w.mu.Unlock()
	return len(p), nil
}

func (w *capture) take() []string {
	w.mu.Lock()
	defer w.mu.Unlock()
	writes := w.writes
	w.writes = nil
	return writes
}

func writerTo(format output.Format, w io.Writer) spi.EventSink {
	return output.NewEventWriter(output.EventWriterConfig{Format: format, Writer: w})
}

// resetLevels restores the initial configuration.
func resetLevels() {
	spi.MinLevel = spi.LevelTrace
	spi.MinCallLevel = spi.LevelDebugCall
}
