package msgchk

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io/ioutil"
	"os"
	"reflect"
	"runtime"
	"strings"
	"sync"
	"testing"
	"time"
	"unicode"
	"unicode/utf8"

	"github.com/v2pro/plz/msgfmt"
	"pgregory.net/rapid"
	"verifharness/hz"
)

// echoFormat shows what a registered format is given.
type echoFormat struct{}

func (echoFormat) FormatterOf(targetKey string, args []string, sample []interface{}) (msgfmt.Formatter, error) {
	for i := 0; i+1 < len(sample); i += 2 {
		if key, _ := sample[i].(string); key == targetKey {
			return echoFormatter{i + 1, echoText(targetKey, args)}, nil
		}
	}
	return nil, errors.New("no such key")
}

func echoText(key string, args []string) string {
	text := key
	for _, arg := range args {
		text += "/" + strings.TrimSpace(arg)
	}
	return text
}

type echoFormatter struct {
	idx  int
	text string
}

func (f echoFormatter) Format(space []byte, kv []interface{}) []byte {
	return append(space, fmt.Sprintf("<%s=%v>", f.text, kv[f.idx])...)
}

type boomFormat struct{}

func (boomFormat) FormatterOf(targetKey string, args []string, sample []interface{}) (msgfmt.Formatter, error) {
	switch msg := strings.Join(args, ""); {
	case strings.Contains(msg, "evil"):
		panic(evilErr{evilErr{nil}})
	case strings.Contains(msg, "nil"):
		return nil, (*nilErr)(nil)
	case strings.Contains(msg, "err"):
		return nil, evilErr{evilErr{nil}}
	case strings.Contains(msg, "none"):
		return nil, nil
	case strings.Contains(msg, "run"):
		var m map[string]int
		m[targetKey] = 1
	}
	panic("boom")
}

// evilErr panics with the next one when asked what is wrong.
type evilErr struct{ next error }

func (e evilErr) Error() string { panic(e.next) }

type nilErr struct{ msg string }

func (e *nilErr) Error() string { return e.msg }

func TestMain(m *testing.M) {
	msgfmt.Formats["echo"] = echoFormat{}
	msgfmt.Formats["boom"] = boomFormat{}
	hz.Main(m)
}

type point struct {
	X, Y int
	Name string
}
type strer struct{ s string }

func (s strer) String() string { return "strer(" + s.s + ")" }

type ptrStrer struct{ s string }

func (s *ptrStrer) String() string { return "ptrStrer(" + s.s + ")" }

// nilStrer can be asked without a value.
type nilStrer struct{ s string }

func (s *nilStrer) String() string {
	if s == nil {
		return "no nilStrer"
	}
	return s.s
}

type one struct{ P *int }
type nameInt int
type nameStr string
type nameDur = time.Duration

func twin1(n int) interface{} {
	type Twin struct{ A int }
	return Twin{n}
}

func twin2(n int) interface{} {
	type Twin struct {
		B string
		A *int
	}
	return Twin{"b", &n}
}

func twin3(n int) interface{} {
	type Twin []int
	return Twin{n}
}

func drawText(t *rapid.T) string {
	return rapid.OneOf(
		rapid.StringMatching(`[a-z ]{0,6}`),
		rapid.SampledFrom([]string{"", "中文", "a|b", "x\ny", "\\", "\"q\"", "{v}", "}", "{", "%s", "100%", "\x00", "tab\t"}),
		rapid.StringN(0, 6, 20),
	).Draw(t, "text")
}

var times = []time.Time{time.Unix(0, 0).UTC(), time.Unix(1500000000, 123456789).UTC(), time.Date(2024, 2, 29, 23, 59, 59, 999, time.FixedZone("X", 3600*5+1800))}

// drawValue draws a value and the text it has in a message.
func drawValue(t *rapid.T) (interface{}, string) {
	n := rapid.IntRange(-1000000, 1000000).Draw(t, "n")
	switch rapid.IntRange(0, 22).Draw(t, "kind") {
	case 21: // types of one name
		v := []interface{}{twin1(n), twin2(n), twin3(n)}[(n%3+3)%3]
		return v, mustJSON(v)
	case 19: // String needs a value
		return rapid.SampledFrom([]interface{}{(*strer)(nil), (*ptrStrer)(nil), (*time.Time)(nil), (*nameDur)(nil)}).Draw(t, "nil"), "null"
	case 20:
		return (*nilStrer)(nil), "no nilStrer"
	case 0, 1:
		s := drawText(t)
		return s, s
	case 2:
		b := []byte(drawText(t))
		return b, escapeBytes(b)
	case 3:
		return n, fmt.Sprint(n)
	case 4:
		return int64(n) << 30, fmt.Sprint(int64(n) << 30)
	case 5:
		return uint8(n), fmt.Sprint(uint8(n))
	case 6:
		return n%2 == 0, fmt.Sprint(n%2 == 0)
	case 7:
		return nil, "null"
	case 8:
		p := point{n, -n, "p"}
		return p, mustJSON(p)
	case 9:
		p := &point{n, 1, "q"}
		return p, mustJSON(p)
	case 10:
		return (*point)(nil), "null"
	case 11:
		s := []int{n, n + 1}
		return s, mustJSON(s)
	case 12:
		m := map[string]int{"k": n}
		return m, mustJSON(m)
	case 13:
		s := strer{drawText(t)}
		return s, s.String()
	case 14:
		s := &ptrStrer{drawText(t)}
		return s, s.String()
	case 15:
		tm := rapid.SampledFrom(times).Draw(t, "time")
		return tm, tm.String()
	case 16:
		e := errors.New(rapid.StringMatching(`[a-z ]{0,9}`).Draw(t, "err"))
		return e, mustJSON(e.Error())
	case 17:
		o := one{&n}
		return o, mustJSON(o)
	case 18:
		return nameStr(fmt.Sprint("n", n)), fmt.Sprintf(`"n%d"`, n)
	default:
		d := time.Duration(n)
		return d, d.String()
	}
}

func mustJSON(v interface{}) string {
	out, err := json.Marshal(v)
	hz.Infra(err)
	return string(out)
}

func escapeBytes(b []byte) string {
	out := ""
	for _, c := range b {
		switch {
		case c == '\\':
			out += `\\`
		case c == '\n':
			out += `\n`
		case c == '\r':
			out += `\r`
		case c == '\t':
			out += `\t`
		case c < 0x20 || c >= 0x80 || c == '|':
			out += fmt.Sprintf(`\x%02x`, c)
		default:
			out += string(rune(c))
		}
	}
	return out
}

var ids = []string{"a", "b", "A", "key", "Key", "keys", "user_id", "user", "名前", "x1", "Ünï", "ünï"}

// args is one list of keys and values, with the texts of the values.
type args struct {
	kv    []interface{}
	texts []string
}

func (a args) find(id string) int {
	for i := 0; i+1 < len(a.kv); i += 2 {
		if key, ok := a.kv[i].(string); ok && key == id {
			return i + 1
		}
	}
	return -1
}

func drawArgs(t *rapid.T, keys []string) args {
	var a args
	add := func(v interface{}, text string) {
		a.kv = append(a.kv, v)
		a.texts = append(a.texts, text)
	}
	keys = rapid.Permutation(keys).Draw(t, "order")
	for _, key := range keys {
		if rapid.IntRange(0, 9).Draw(t, "odd") == 0 { // something that is not a key
			v, text := drawValue(t)
			if _, isStr := v.(string); !isStr {
				add(v, text)
				add(drawValue(t))
			}
		}
		add(key, key)
		add(drawValue(t))
		if rapid.IntRange(0, 9).Draw(t, "again") == 0 { // the first one counts
			add(key, key)
			add(drawValue(t))
		}
	}
	if rapid.IntRange(0, 9).Draw(t, "half") == 0 {
		add("half", "half")
	}
	return a
}

// segment of a well formed format.
type segment struct {
	text   string // as written
	id     string // "" for a literal
	fn     string
	fnArgs []string
}

var layouts = []string{time.RFC3339Nano, "2006-01-02", "Mon Jan _2 15:04:05 2006", "15h04", "no layout"}

// drawLayout makes a layout of what layouts are made of, it does not start or end with space.
func drawLayout(t *rapid.T) string {
	if rapid.IntRange(0, 2).Draw(t, "known") == 0 {
		return rapid.SampledFrom(layouts).Draw(t, "l")
	}
	pieces := rapid.SliceOfN(rapid.SampledFrom([]string{"2006", "01", "02", "_2", "15", "03", "04", "05", ".000", ".999999", "PM", "Mon", "Jan", "MST", "-07:00", "Z0700",
		" ", " ", "  ", "\t", ":", "/", "-", "T", "%d", "\\n", "\"", "年", "x", "\u00a0", "\xff", ";", "="}), 1, 8).Draw(t, "pieces")
	layout := strings.TrimSpace(strings.Join(pieces, ""))
	if layout == "" {
		return "2006"
	}
	return layout
}

func drawSpace(t *rapid.T) string {
	return rapid.SampledFrom([]string{"", "", "", " ", "  ", "\t"}).Draw(t, "sp")
}

func drawFormat(t *rapid.T, keys []string) []segment {
	var segments []segment
	literal := false
	for i := rapid.IntRange(0, 6).Draw(t, "segments"); i > 0; i-- {
		if !literal && rapid.Bool().Draw(t, "isLiteral") {
			text := strings.Replace(drawText(t), "{", "", -1)
			segments = append(segments, segment{text: text})
			literal = true
			continue
		}
		literal = false
		s := segment{id: rapid.SampledFrom(keys).Draw(t, "id")}
		inner := drawSpace(t) + s.id + drawSpace(t)
		switch rapid.IntRange(0, 7).Draw(t, "fn") {
		case 0:
			s.fn = "goTime"
			inner += "," + drawSpace(t) + s.fn
			if rapid.Bool().Draw(t, "layout") {
				s.fnArgs = []string{drawLayout(t)}
				inner += "," + drawSpace(t) + s.fnArgs[0]
			}
		case 1:
			s.fn = "echo"
			inner += "," + drawSpace(t) + s.fn
			for j := rapid.IntRange(0, 3).Draw(t, "args"); j > 0; j-- {
				arg := rapid.StringMatching(`[a-z {:]{0,5}`).Draw(t, "arg")
				s.fnArgs = append(s.fnArgs, arg)
				inner += "," + arg
			}
		}
		s.text = "{" + inner + "}"
		segments = append(segments, s)
	}
	return segments
}

func join(segments []segment) string {
	out := ""
	for _, s := range segments {
		out += s.text
	}
	return out
}

// render is the reference; ok is false when the format does not fit the args.
func render(segments []segment, a args) (out string, ok bool) {
	for _, s := range segments {
		if s.id == "" {
			out += s.text
			continue
		}
		idx := a.find(s.id)
		if idx == -1 {
			return "", false
		}
		switch s.fn {
		case "":
			out += a.texts[idx]
		case "goTime":
			tm, isTime := a.kv[idx].(time.Time)
			if !isTime {
				return "", false
			}
			layout := time.RFC3339
			if len(s.fnArgs) > 0 {
				layout = s.fnArgs[0]
			}
			out += tm.Format(layout)
		case "echo":
			out += fmt.Sprintf("<%s=%v>", echoText(s.id, s.fnArgs), a.kv[idx])
		default:
			return "", false
		}
	}
	return out, true
}

const marker = "%! (INVALID FORMAT) "

func judge(t *rapid.T, what string, format string, a args, got string, want string, ok bool) {
	if ok && got != want {
		t.Fatalf("%s of %q with %s:\n got %q\nwant %q", what, format, show(a.kv), got, want)
	}
	if !ok && !strings.Contains(got, marker) {
		t.Fatalf("%s of %q, which does not fit %s, is not reported: %q", what, format, show(a.kv), got)
	}
}

func show(kv []interface{}) string {
	var parts []string
	for _, v := range kv {
		text := fmt.Sprintf("%+v", v)
		if len(text) > 40 {
			text = text[:40] + "..."
		}
		parts = append(parts, fmt.Sprintf("%T(%q)", v, text))
	}
	return "[" + strings.Join(parts, " ") + "]"
}

// oneWrite accepts a single write.
type oneWrite struct {
	bytes.Buffer
	writes int
	err    error
	during func() // called while the bytes are being written
}

func (w *oneWrite) Write(p []byte) (int, error) {
	w.writes++
	if w.during != nil {
		w.during()
	}
	w.Buffer.Write(p)
	if w.err != nil {
		return len(p) / 2, w.err
	}
	return len(p), nil
}

// printOther prints something else, as a writer that logs does.
func printOther() {
	msgfmt.Fprintf(ioutil.Discard, "{other} printed meanwhile", "other", strings.Repeat("#", 200))
}

var errSink = errors.New("sink is full")

// TestC05_history: a handful of formats, used again and again with changing
// arguments through all entry points; every output equals the reference.
func TestC05_history(t *testing.T) {
	hz.Run(t, 30000, "formats from literals, variables, goTime and registered formats, each used up to 12 times with argument lists of changing keys, order and types, through Sprintf, Fprintf, Fprintln and kept formatters; non-trivial: some format with a variable is used with two different argument shapes", func(t *rapid.T, c *hz.Case) {
		keys := rapid.SliceOfNDistinct(rapid.SampledFrom(ids), 1, 4, func(s string) string { return s }).Draw(t, "keys")
		nFormats := rapid.IntRange(1, 3).Draw(t, "formats")
		var formats [][]segment
		var kept []msgfmt.Formatter
		for i := 0; i < nFormats; i++ {
			formats = append(formats, drawFormat(t, keys))
			kept = append(kept, nil)
		}
		desc := ""
		shapes := map[string]string{}
		for step := rapid.IntRange(1, 12).Draw(t, "steps"); step > 0; step-- {
			which := rapid.IntRange(0, nFormats-1).Draw(t, "which")
			segments := formats[which]
			format := join(segments)
			a := drawArgs(t, keys)
			want, ok := render(segments, a)
			shape := ""
			for i, v := range a.kv {
				if i%2 == 0 {
					shape += fmt.Sprintf("%v", v)
				}
				shape += fmt.Sprintf("%T ", v)
			}
			if strings.Contains(format, "{") {
				if old, found := shapes[format]; found && old != shape {
					c.NonTrivial(true)
				}
				shapes[format] = shape
			}
			op := rapid.IntRange(0, 4).Draw(t, "op")
			desc += fmt.Sprintf("%d %q %s; ", op, format, show(a.kv))
			c.Desc("%s", desc)
			space := rapid.SampledFrom([]string{"", "before "}).Draw(t, "space")
			switch op {
			case 0:
				judge(t, "Sprintf", format, a, msgfmt.Sprintf(format, a.kv...), want, ok)
			case 1:
				w := &oneWrite{}
				if rapid.IntRange(0, 4).Draw(t, "fails") == 0 {
					w.err = errSink
				}
				if rapid.IntRange(0, 2).Draw(t, "nested") == 0 {
					w.during = printOther
				}
				n, err := msgfmt.Fprintf(w, format, a.kv...)
				if err != w.err || w.writes != 1 || (err == nil && n != w.Len()) || (err != nil && n != w.Len()/2) {
					t.Fatalf("Fprintf: %d, %v after %d writes of %d bytes", n, err, w.writes, w.Len())
				}
				judge(t, "Fprintf", format, a, w.String(), want, ok)
			case 2:
				kept[which] = msgfmt.FormatterOf(format, a.kv)
				got := kept[which].Format([]byte(space), a.kv)
				if !bytes.HasPrefix(got, []byte(space)) {
					t.Fatalf("FormatterOf(%q).Format did not append to %q: %q", format, space, got)
				}
				judge(t, "FormatterOf", format, a, string(got[len(space):]), want, ok)
			case 3:
				if kept[which] == nil {
					continue
				}
				// compiled for some earlier arguments
				judge(t, "kept formatter", format, a, string(kept[which].Format(nil, a.kv)), want, ok)
			case 4:
				n := rapid.IntRange(0, 3).Draw(t, "values")
				var values []interface{}
				var text string
				for i := 0; i < n; i++ {
					var v interface{}
					v, text = drawValue(t)
					if rapid.IntRange(0, 3).Draw(t, "list") == 0 {
						list := []interface{}{}
						for k := rapid.IntRange(0, 2).Draw(t, "inList"); k > 0; k-- {
							elem, _ := drawValue(t)
							list = append(list, elem)
						}
						v, text = list, "a list"
					}
					values = append(values, v)
				}
				w := &oneWrite{}
				if rapid.IntRange(0, 2).Draw(t, "nested") == 0 {
					w.during = printOther
				}
				_, err := msgfmt.Fprintln(w, values...)
				if err != nil || !strings.HasSuffix(w.String(), "\n") || w.writes != 1 {
					t.Fatalf("Fprintln of %s: %q %v %d writes", show(values), w.String(), err, w.writes)
				}
				line := strings.TrimSuffix(w.String(), "\n")
				if n == 0 {
					if line != "" {
						t.Fatalf("Fprintln of nothing: %q", line)
					}
					break
				}
				var printed interface{} = values
				if n == 1 {
					printed = values[0]
				}
				list, isList := printed.([]interface{})
				if !isList {
					if line != text {
						t.Fatalf("Fprintln of %s: %q, want %q", show(values), line, text)
					}
					break
				}
				var got interface{}
				err = json.Unmarshal([]byte(line), &got)
				if want := inList(list); err != nil || !sameInList(got, want) {
					t.Fatalf("Fprintln of %s: %q (%v), want %v", show(values), line, err, want)
				}
			}
		}
	})
}

type anyString struct{}

// inList is what the json of a list of values says.
func inList(list []interface{}) interface{} {
	said := []interface{}{}
	for _, v := range list {
		switch v := v.(type) {
		case []interface{}:
			said = append(said, inList(v))
		case error:
			said = append(said, v.Error())
		case []byte:
			said = append(said, anyString{})
		default:
			var decoded interface{}
			hz.Infra(json.Unmarshal([]byte(mustJSON(v)), &decoded))
			said = append(said, decoded)
		}
	}
	return said
}

func sameInList(got, want interface{}) bool {
	list, isList := want.([]interface{})
	if _, isAny := want.(anyString); isAny {
		_, isString := got.(string)
		return isString
	}
	if !isList {
		return reflect.DeepEqual(got, want)
	}
	gotList, ok := got.([]interface{})
	if !ok || len(gotList) != len(list) {
		return false
	}
	for i := range list {
		if !sameInList(gotList[i], list[i]) {
			return false
		}
	}
	return true
}

// TestC05_concurrent: the same formats from several goroutines, each with
// arguments of its own shape.
func TestC05_concurrent(t *testing.T) {
	hz.Run(t, 300, "2 to 8 goroutines that use the same 1 to 3 formats 20 times each with arguments of different shapes; non-trivial: at least two goroutines differ in shape on a format with a variable", func(t *rapid.T, c *hz.Case) {
		keys := ids[:3]
		var formats [][]segment
		salt := rapid.Uint32().Draw(t, "salt")
		for i := rapid.IntRange(1, 3).Draw(t, "formats"); i > 0; i-- {
			// the salt makes the format new, so that the first uses are concurrent
			formats = append(formats, append(drawFormat(t, keys), segment{text: fmt.Sprintf(" #%d", salt)}))
		}
		n := rapid.IntRange(2, 8).Draw(t, "goroutines")
		var all []args
		desc := ""
		for i := 0; i < n; i++ {
			all = append(all, drawArgs(t, keys))
			desc += show(all[i].kv)
		}
		c.Desc("%q %s", join(formats[0]), desc)
		c.NonTrivial(strings.Contains(join(formats[0]), "{"))
		problems := make([]string, n)
		var wg sync.WaitGroup
		start := make(chan struct{})
		for i := 0; i < n; i++ {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				if p := hz.NoPanic(func() {
					<-start
					for round := 0; round < 20; round++ {
						for _, f := range formats {
							want, ok := render(f, all[i])
							var got string
							if round%2 == 0 {
								got = msgfmt.Sprintf(join(f), all[i].kv...)
							} else {
								w := &oneWrite{during: runtime.Gosched}
								msgfmt.Fprintf(w, join(f), all[i].kv...)
								got = w.String()
							}
							if ok && got != want || !ok && !strings.Contains(got, marker) {
								problems[i] = fmt.Sprintf("%q with %s: got %q want %q (fits: %v)", join(f), show(all[i].kv), got, want, ok)
								return
							}
						}
					}
				}); p != nil {
					problems[i] = fmt.Sprint("panic: ", p)
				}
			}(i)
		}
		close(start)
		wg.Wait()
		for _, p := range problems {
			if p != "" {
				t.Fatalf("concurrent use: %s", p)
			}
		}
	})
}

// TestC05_stdout: Printf and Println write to the standard output.
func TestC05_stdout(t *testing.T) {
	hz.Run(t, 200, "formats and arguments through Printf and Println with os.Stdout replaced by a pipe; non-trivial: the format has a variable", func(t *rapid.T, c *hz.Case) {
		segments := drawFormat(t, ids[:3])
		a := drawArgs(t, ids[:3])
		want, ok := render(segments, a)
		format := join(segments)
		c.Desc("%q %s", format, show(a.kv))
		c.NonTrivial(strings.Contains(format, "{"))
		r, w, err := os.Pipe()
		hz.Infra(err)
		stdout := os.Stdout
		os.Stdout = w
		n, err1 := msgfmt.Printf(format, a.kv...)
		n2, err2 := msgfmt.Println(a.kv[1])
		os.Stdout = stdout
		w.Close()
		var buf bytes.Buffer
		_, err = buf.ReadFrom(r)
		r.Close()
		hz.Infra(err)
		if err1 != nil || err2 != nil || n+n2 != buf.Len() {
			t.Fatalf("Printf: %d %v, Println: %d %v, but %d bytes came out", n, err1, n2, err2, buf.Len())
		}
		judge(t, "Printf", format, a, buf.String()[:n], want, ok)
		if line := buf.String()[n:]; line != a.texts[1]+"\n" {
			t.Fatalf("Println of %s: %q, want %q", show(a.kv[1:2]), line, a.texts[1])
		}
	})
}

// ---- C06 ----

type verdict int

const (
	unsure verdict = iota
	fits
	broken
)

// reference parses any format string. It gives up (unsure) on bytes that are
// not utf-8 inside of braces.
func reference(format string, a args) ([]segment, verdict) {
	var segments []segment
	rest := format
	isSpace := func(r rune) bool { return unicode.Is(unicode.White_Space, r) }
	trim := func() { rest = strings.TrimLeftFunc(rest, isSpace) }
	for rest != "" {
		open := strings.IndexByte(rest, '{')
		if open == -1 {
			return append(segments, segment{text: rest}), fits
		}
		if open > 0 {
			segments = append(segments, segment{text: rest[:open]})
		}
		rest = rest[open+1:]
		if !utf8.ValidString(rest) {
			return nil, unsure
		}
		trim()
		end := strings.IndexFunc(rest, func(r rune) bool {
			return unicode.Is(unicode.Pattern_White_Space, r) || unicode.Is(unicode.Pattern_Syntax, r)
		})
		if end == -1 {
			return nil, broken
		}
		s := segment{id: rest[:end]}
		if end == 0 {
			return nil, unsure
		}
		rest = rest[end:]
		trim()
		if rest == "" || rest[0] != ',' && rest[0] != '}' {
			return nil, broken
		}
		if rest[0] == ',' {
			rest = rest[1:]
			trim()
			end = strings.IndexAny(rest, ",}")
			if end == -1 {
				return nil, broken
			}
			s.fn = rest[:end]
			if s.fn == "" || s.fn == "boom" {
				return nil, broken
			}
			for rest = rest[end:]; rest[0] == ','; rest = rest[end:] {
				rest = rest[1:]
				end = strings.IndexAny(rest, ",}")
				if end == -1 {
					return nil, broken
				}
				s.fnArgs = append(s.fnArgs, strings.TrimSpace(rest[:end]))
			}
		}
		s.text = "?"
		segments = append(segments, s)
		rest = rest[1:]
	}
	return segments, fits
}

// TestC06_any: any string at all is a format.
func TestC06_any(t *testing.T) {
	pieces := []string{"{", "}", ",", " ", "{a}", "{b", "a}", "{a,", "goTime", "echo", "boom", "{a,boom,evil}", "{a,boom,nil}", "{a,boom,err}", "{a,boom,run}", "{a,boom,none}", "{key, goTime}", "a", "b", "key", "{a, goTime, 2006}", "{a,echo,x,y}", "lit", "\\", "%", "{{", "}}", "{}", "{ }", "\u3000", "\u00a0", "中", "\xff", "\xe4\xb8", "-", "{a b}", "{nope}", "\n", "\x00", "{a,nofmt}"}
	hz.Run(t, 150000, "strings made from braces, commas, names, functions, blanks, multi-byte and broken characters, x argument lists; non-trivial: a left curly that is not the last character", func(t *rapid.T, c *hz.Case) {
		var format string
		if rapid.IntRange(0, 3).Draw(t, "how") == 0 {
			format = rapid.String().Draw(t, "string")
		} else {
			format = strings.Join(rapid.SliceOfN(rapid.SampledFrom(pieces), 0, 9).Draw(t, "pieces"), "")
		}
		a := drawArgs(t, ids[:rapid.IntRange(0, 3).Draw(t, "nkeys")])
		c.Desc("%q %s", format, show(a.kv))
		open := strings.IndexByte(format, '{')
		c.NonTrivial(open != -1 && open < len(format)-1)
		var got string
		if p := hz.NoPanic(func() { got = msgfmt.Sprintf(format, a.kv...) }); p != nil {
			t.Fatalf("Sprintf of %q with %s panicked: %v", format, show(a.kv), p)
		}
		segments, v := reference(format, a)
		want := ""
		if v == fits {
			var ok bool
			want, ok = render(segments, a)
			if !ok {
				v = broken
			}
		}
		switch v {
		case fits:
			c.Label("fits")
			judge(t, "Sprintf", format, a, got, want, true)
		case broken:
			c.Label("broken")
			judge(t, "Sprintf", format, a, got, "", false)
			if len(a.kv) > 0 && len(got) < len(marker)+len("%! (FORMAT ARGS) ") {
				t.Fatalf("report of %q with %s leaves out the arguments: %q", format, show(a.kv), got)
			}
			// the report keeps the arguments: a string value is still to be found in it
			for i := 1; i < len(a.kv); i += 2 {
				if s, isStr := a.kv[i].(string); isStr && plain(s) && !strings.Contains(got, s) {
					t.Fatalf("report of %q with %s leaves out %q: %q", format, show(a.kv), s, got)
				}
			}
		default:
			c.Label("unsure")
		}
		again := msgfmt.Sprintf(format, a.kv...)
		if again != got && !strings.Contains(got, marker) {
			t.Fatalf("Sprintf of %q with %s first %q, then %q", format, show(a.kv), got, again)
		}
	})
}

func plain(s string) bool {
	for _, r := range s {
		if !(r >= 'a' && r <= 'z' || r == ' ') {
			return false
		}
	}
	return true
}
