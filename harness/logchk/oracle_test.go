package logchk

import (
	"bytes"
	"encoding/json"
	"fmt"
	"strings"
	"time"

	"github.com/v2pro/plz/countlog/output"
	"github.com/v2pro/plz/countlog/output/compact"
	"github.com/v2pro/plz/countlog/output/hrf"
	ljson "github.com/v2pro/plz/countlog/output/json"
	"github.com/v2pro/plz/countlog/output/printf"
	"pgregory.net/rapid"
)

// format is one of the formats with its reference.
type format struct {
	name   string
	layout []segment
	stamp  bool
	json   bool
}

// segment of a printf layout.
type segment struct {
	literal string
	key     string
	goTime  string
}

func (f format) String() string {
	if f.name == "printf" {
		return fmt.Sprintf("printf %q", f.layoutText())
	}
	return f.name
}

func (f format) layoutText() string {
	out := ""
	for _, s := range f.layout {
		out += s.literal
		if s.key != "" {
			out += "{" + s.key
			if s.goTime != "" {
				out += ", goTime, " + s.goTime
			}
			out += "}"
		}
	}
	return out
}

func (f format) make() output.Format {
	switch f.name {
	case "compact":
		return &compact.Format{}
	case "hrf":
		return &hrf.Format{ShowTimestamp: f.stamp}
	case "json":
		return &ljson.JsonFormat{}
	default:
		return &printf.Format{Layout: f.layoutText()}
	}
}

func drawFormat(t *rapid.T, names ...string) format {
	f := format{name: rapid.SampledFrom(names).Draw(t, "format")}
	f.json = f.name == "json"
	if f.name == "hrf" {
		f.stamp = rapid.Bool().Draw(t, "stamp")
	}
	if f.name == "printf" {
		for i := rapid.IntRange(0, 6).Draw(t, "segments"); i > 0; i-- {
			s := segment{literal: rapid.SampledFrom([]string{"", " ", "[", "] ", "||", "中", "x=", "100%"}).Draw(t, "lit")}
			s.key = rapid.SampledFrom([]string{"", "message", "message", "timestamp", "level", "event", "func", "file", "line"}).Draw(t, "key")
			if s.key == "timestamp" {
				s.goTime = rapid.SampledFrom([]string{time.RFC3339, "2006-01-02 15:04:05", "15h04"}).Draw(t, "layout")
			}
			f.layout = append(f.layout, s)
		}
	}
	return f
}

var levelNames = map[int]string{5: "TRACE", 10: "TRACE", 15: "DEBUG", 20: "DEBUG", 25: "INFO", 30: "INFO", 40: "WARN", 50: "ERROR", 60: "FATAL"}
var levelColors = map[int]int{5: 36, 10: 36, 15: 34, 20: 34, 25: 32, 30: 32, 40: 33, 50: 31, 60: 35}

func levelName(level int) string {
	name := levelNames[level]
	if name == "" {
		return "UNKNOWN"
	}
	return name
}

// matcher walks over a line.
type matcher struct {
	line string
	rest string
	err  string
}

func (m *matcher) failf(format string, args ...interface{}) {
	if m.err == "" {
		m.err = fmt.Sprintf(format, args...) + fmt.Sprintf("\nat %q\nof %q", m.rest, m.line)
	}
}

func (m *matcher) lit(text string) {
	if m.err != "" {
		return
	}
	if !strings.HasPrefix(m.rest, text) {
		m.failf("expected %q", text)
		return
	}
	m.rest = m.rest[len(text):]
}

func (m *matcher) oneOf(what string, texts []string) {
	if m.err != "" {
		return
	}
	best := -1
	for i, text := range texts {
		if strings.HasPrefix(m.rest, text) && (best == -1 || len(text) > len(texts[best])) {
			best = i
		}
	}
	if best == -1 {
		m.failf("expected a %s of %q", what, texts)
		return
	}
	m.rest = m.rest[len(texts[best]):]
}

// stamp is a time between from and to, in the given layout.
func (m *matcher) stamp(layout string, from, to time.Time) {
	var texts []string
	step := time.Millisecond
	if to.Sub(from) > 5*time.Second {
		step = time.Second / 4
	}
	for at := from; at.Before(to); at = at.Add(step) {
		texts = append(texts, at.Format(layout))
	}
	m.oneOf("timestamp", append(texts, to.Format(layout)))
}

// check compares what was written for a call with the reference. sites are
// the places that may be given as location.
func (f format) check(line string, c *call, ctxProps []prop, sites []site) string {
	if f.json {
		return f.checkJSON(line, c, sites)
	}
	m := &matcher{line: line, rest: line}
	var locations, funcs, files, lines []string
	for _, s := range sites {
		locations = append(locations, s.String())
		funcs = append(funcs, s.function)
		files = append(files, s.file)
		lines = append(lines, fmt.Sprint(s.line))
	}
	msg, ok := c.name.message(c.props)
	if !ok {
		return "harness: template without its properties"
	}
	level := c.eventLevel()
	switch f.name {
	case "compact":
		m.lit("[" + levelName(level) + "] [")
		m.stamp(time.RFC3339, c.before, c.after)
		m.lit("][")
		m.oneOf("location", locations)
		m.lit("] ")
		switch c.name.kind {
		case "event":
			m.lit(strings.TrimPrefix(c.name.text, "event!"))
		case "callee":
			m.lit("call " + strings.TrimPrefix(c.name.text, "callee!"))
		default:
			m.lit(msg)
		}
		if c.err != nil && c.err.Error() != "" {
			m.lit(" error:" + c.err.Error())
		}
		for _, p := range c.props {
			m.lit("||" + p.key + "=" + p.text)
		}
		m.lit("\n")
	case "hrf":
		if _, known := levelNames[level]; known {
			m.lit(fmt.Sprintf("\x1b[%d;1m[%s]\x1b[0m ", levelColors[level], levelName(level)))
		}
		switch c.name.kind {
		case "event":
			m.lit(strings.TrimPrefix(c.name.text, "event!"))
		case "callee":
			m.lit(strings.TrimPrefix(c.name.text, "callee!"))
		default:
			m.lit(msg)
		}
		if f.stamp {
			m.lit("\n\x1b[90;1mtimestamp: ")
			m.stamp("15:04:05.000", c.before, c.after)
			m.lit("\x1b[0m")
		}
		if c.err != nil && c.err.Error() != "" {
			m.lit("\n\x1b[90;1merror: " + c.err.Error() + "\x1b[0m")
		}
		for _, p := range ctxProps {
			m.lit("\x1b[90;1m\n" + p.key + ": " + p.text + "\x1b[0m")
		}
		for _, p := range c.props {
			since, isInt := p.v.(int64)
			if isInt && p.key == "timer" {
				m.lit("\x1b[90;1m\ntimer: ")
				end := strings.Index(m.rest, "\x1b")
				if m.err == "" && end != -1 {
					latency, err := time.ParseDuration(m.rest[:end])
					if err != nil || int64(latency) < c.before.UnixNano()-since || int64(latency) > c.after.UnixNano()-since {
						m.failf("wrong latency since %d", since)
					}
					m.rest = m.rest[end:]
				}
				m.lit("\x1b[0m")
				continue
			}
			m.lit("\x1b[90;1m\n" + p.key + ": " + p.text + "\x1b[0m")
		}
		m.lit("\x1b[90;1m")
		if level >= 40 {
			m.lit("\nlocation: ")
			m.oneOf("location", locations)
		}
		m.lit("\x1b[0m\n")
	case "printf":
		for _, s := range f.layout {
			m.lit(s.literal)
			switch s.key {
			case "message":
				m.lit(escapeBytes([]byte(msg)))
			case "timestamp":
				m.stamp(s.goTime, c.before, c.after)
			case "level":
				m.lit(levelName(level))
			case "event":
				m.lit(c.name.text)
			case "func":
				m.oneOf("function", funcs)
			case "file":
				m.oneOf("file", files)
			case "line":
				m.oneOf("line", lines)
			}
		}
		m.lit("\n")
	}
	if m.err == "" && m.rest != "" {
		m.failf("expected the end")
	}
	return m.err
}

type member struct {
	key string
	raw string
}

// members reads the members of one json object in order.
func members(line string) ([]member, error) {
	if !strings.HasSuffix(line, "\n") || strings.Count(line, "\n") != 1 {
		return nil, fmt.Errorf("not one line: %q", line)
	}
	if !json.Valid([]byte(line)) {
		return nil, fmt.Errorf("not valid json: %q", line)
	}
	dec := json.NewDecoder(strings.NewReader(line))
	tok, err := dec.Token()
	if err != nil || tok != json.Delim('{') {
		return nil, fmt.Errorf("not an object: %q", line)
	}
	var all []member
	for dec.More() {
		tok, err := dec.Token()
		if err != nil {
			return nil, err
		}
		var raw json.RawMessage
		if err := dec.Decode(&raw); err != nil {
			return nil, err
		}
		all = append(all, member{tok.(string), string(raw)})
	}
	return all, nil
}

func sameJSON(a, b string) bool {
	var va, vb interface{}
	decode := func(s string, v *interface{}) error {
		dec := json.NewDecoder(bytes.NewReader([]byte(s)))
		dec.UseNumber()
		return dec.Decode(v)
	}
	if decode(a, &va) != nil || decode(b, &vb) != nil {
		return false
	}
	return mustJSON(va) == mustJSON(vb)
}

func (f format) checkJSON(line string, c *call, sites []site) string {
	all, err := members(line)
	if err != nil {
		return err.Error()
	}
	if len(all) != len(c.props)+3 {
		return fmt.Sprintf("%d members for %d properties: %q", len(all), len(c.props), line)
	}
	if all[0].key != "event" || !sameJSON(all[0].raw, mustJSON(c.name.text)) {
		return fmt.Sprintf("wrong event: %q", line)
	}
	for i, p := range c.props {
		if all[i+1].key != p.key || !sameJSON(all[i+1].raw, p.json) {
			return fmt.Sprintf("property %q should be %s: %q", p.key, p.json, line)
		}
	}
	stamp := all[len(all)-2]
	var nano int64
	if stamp.key != "timestamp" || json.Unmarshal([]byte(stamp.raw), &nano) != nil || nano < c.before.UnixNano() || nano > c.after.UnixNano() {
		return fmt.Sprintf("timestamp should be between %d and %d: %q", c.before.UnixNano(), c.after.UnixNano(), line)
	}
	location := all[len(all)-1]
	for _, s := range sites {
		if location.key == "location" && sameJSON(location.raw, mustJSON(s.String())) {
			return ""
		}
	}
	return fmt.Sprintf("location should be one of %v: %q", sites, line)
}
