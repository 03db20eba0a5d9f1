package jsonchk

import (
	"encoding/json"
	"fmt"
	"math"
	"math/big"
	"strconv"
	"strings"
	"testing"

	"github.com/v2pro/plz/msgfmt/jsonfmt"
	"pgregory.net/rapid"
	"verifharness/hz"
)

func TestMain(m *testing.M) { hz.Main(m) }

func drawInt64(t *rapid.T) int64 {
	switch rapid.IntRange(0, 3).Draw(t, "how") {
	case 0:
		return rapid.Int64().Draw(t, "any")
	case 1: // around powers of ten, where digit groups change
		p := int64(1)
		for i := rapid.IntRange(0, 18).Draw(t, "pow10"); i > 0; i-- {
			p *= 10
		}
		v := p*int64(rapid.IntRange(1, 9).Draw(t, "digit")) + int64(rapid.IntRange(-3, 3).Draw(t, "delta"))
		if rapid.Bool().Draw(t, "neg") {
			return -v
		}
		return v
	case 2: // around powers of two
		v := int64(uint64(1)<<uint(rapid.IntRange(0, 63).Draw(t, "pow2"))) + int64(rapid.IntRange(-3, 3).Draw(t, "delta"))
		if rapid.Bool().Draw(t, "neg") {
			return -v
		}
		return v
	default: // groups of three digits with zeros inside
		v := int64(0)
		for i := rapid.IntRange(1, 6).Draw(t, "groups"); i > 0; i-- {
			v = v*1000 + int64(rapid.SampledFrom([]int{0, 1, 9, 10, 99, 100, 999, 500, 7}).Draw(t, "group"))
		}
		if rapid.Bool().Draw(t, "neg") {
			return -v
		}
		return v
	}
}

// checkInts compares every integer writer and encoder with strconv for the
// low bits of v.
func checkInts(fatalf func(format string, args ...interface{}), v int64, space []byte) {
	type pair struct {
		name string
		got  string
		want string
	}
	pre := string(space)
	sp := func() []byte { return append(make([]byte, 0, len(space)+int(uint64(v)%7)*4), space...) }
	u := uint64(v)
	pairs := []pair{
		{"WriteInt8", string(jsonfmt.WriteInt8(sp(), int8(v))), pre + strconv.Itoa(int(int8(v)))},
		{"WriteUint8", string(jsonfmt.WriteUint8(sp(), uint8(v))), pre + strconv.Itoa(int(uint8(v)))},
		{"WriteInt16", string(jsonfmt.WriteInt16(sp(), int16(v))), pre + strconv.Itoa(int(int16(v)))},
		{"WriteUint16", string(jsonfmt.WriteUint16(sp(), uint16(v))), pre + strconv.Itoa(int(uint16(v)))},
		{"WriteInt32", string(jsonfmt.WriteInt32(sp(), int32(v))), pre + strconv.Itoa(int(int32(v)))},
		{"WriteUint32", string(jsonfmt.WriteUint32(sp(), uint32(v))), pre + strconv.FormatUint(uint64(uint32(v)), 10)},
		{"WriteInt64", string(jsonfmt.WriteInt64(sp(), v)), pre + strconv.FormatInt(v, 10)},
		{"WriteUint64", string(jsonfmt.WriteUint64(sp(), u)), pre + strconv.FormatUint(u, 10)},
		{"int8", jsonfmt.MarshalToString(int8(v)), strconv.Itoa(int(int8(v)))},
		{"uint8", jsonfmt.MarshalToString(uint8(v)), strconv.Itoa(int(uint8(v)))},
		{"int16", jsonfmt.MarshalToString(int16(v)), strconv.Itoa(int(int16(v)))},
		{"uint16", jsonfmt.MarshalToString(uint16(v)), strconv.Itoa(int(uint16(v)))},
		{"int32", jsonfmt.MarshalToString(int32(v)), strconv.Itoa(int(int32(v)))},
		{"uint32", jsonfmt.MarshalToString(uint32(v)), strconv.FormatUint(uint64(uint32(v)), 10)},
		{"int64", jsonfmt.MarshalToString(v), strconv.FormatInt(v, 10)},
		{"uint64", jsonfmt.MarshalToString(u), strconv.FormatUint(u, 10)},
		{"int", jsonfmt.MarshalToString(int(v)), strconv.FormatInt(v, 10)},
		{"uint", jsonfmt.MarshalToString(uint(v)), strconv.FormatUint(u, 10)},
		{"uintptr", jsonfmt.MarshalToString(uintptr(v)), strconv.FormatUint(u, 10)},
	}
	for _, p := range pairs {
		if p.got != p.want {
			fatalf("%s of the low bits of %d: %q, want %q", p.name, v, p.got, p.want)
		}
	}
}

func TestC01_integers(t *testing.T) {
	hz.Run(t, 200000, "64 bit patterns around powers of ten and two and with zero digit groups, taken as every integer type; non-trivial: at least four digits", func(t *rapid.T, c *hz.Case) {
		v := drawInt64(t)
		space := []byte(rapid.SampledFrom([]string{"", "x", "{\"a\":"}).Draw(t, "space"))
		c.Desc("%d after %q", v, space)
		checkInts(t.Fatalf, v, space)
		c.NonTrivial(v >= 1000 || v <= -1000)
	})
}

// TestC01_all16bit goes through every 16 bit pattern, which covers the 8 and
// 16 bit types completely.
func TestC01_all16bit(t *testing.T) {
	hz.Run(t, 1, "one case: all 65536 patterns, exhaustive for the 8 and 16 bit types", func(t *rapid.T, c *hz.Case) {
		c.Desc("every 16 bit pattern")
		c.NonTrivial(true)
		for v := int64(0); v < 1<<16; v++ {
			checkInts(t.Fatalf, v, nil)
		}
	})
}

func drawBytes(t *rapid.T) []byte {
	return rapid.OneOf(
		rapid.SliceOfN(rapid.Byte(), 0, 40),
		rapid.SliceOfN(rapid.SampledFrom([]byte("ab \"\\\n\r\t\x00\x1f\x7f\x80\xe4\xb8\xad<>&|\xff/")), 0, 30),
		rapid.Map(rapid.StringN(0, 40, 200), func(s string) []byte { return []byte(s) }),
		rapid.Map(rapid.StringMatching(`[a-zA-Z0-9 ]{0,60}["\\\n]?[a-z]{0,5}`), func(s string) []byte { return []byte(s) }),
	).Draw(t, "bytes")
}

// bytesText is what the json string of a byte slice has to contain: bytes
// that are not printable ascii appear as \xNN.
func bytesText(b []byte) string {
	var out strings.Builder
	for _, c := range b {
		if c == '\n' || c == '\r' || c == '\t' || (c >= 0x20 && c < 0x80) {
			out.WriteByte(c)
		} else {
			fmt.Fprintf(&out, `\x%02x`, c)
		}
	}
	return out.String()
}

func TestC02_strings(t *testing.T) {
	hz.Run(t, 200000, "byte strings from several alphabets, written as string and as []byte; non-trivial: holds a byte that needs escaping or is not ascii", func(t *rapid.T, c *hz.Case) {
		b := drawBytes(t)
		space := rapid.SampledFrom([]string{"", "x", "{\"a\":"}).Draw(t, "space")
		c.Desc("%q after %q", b, space)
		for _, x := range b {
			c.NonTrivial(x < 0x20 || x >= 0x7f || x == '"' || x == '\\')
		}
		s := string(b)
		encoded := map[string]string{
			"WriteString": string(jsonfmt.WriteString([]byte(space), s)),
			"string":      space + jsonfmt.MarshalToString(s),
		}
		for name, out := range encoded {
			if !strings.HasPrefix(out, space) {
				t.Fatalf("%s did not append: %q", name, out)
			}
			out = out[len(space):]
			var decoded string
			if err := json.Unmarshal([]byte(out), &decoded); err != nil {
				t.Fatalf("%s of %q is not json: %s: %v", name, s, out, err)
			}
			// the standard decoder replaces invalid utf8, so compare the same way, and
			// then that no byte outside the escapes was touched
			if decoded != string([]rune(s)) {
				t.Fatalf("%s of %q decodes to %q: %s", name, s, decoded, out)
			}
			if unescaped := unescape(t, out); unescaped != s {
				t.Fatalf("%s of %q unescapes to %q: %s", name, s, unescaped, out)
			}
		}
		encoded = map[string]string{
			"WriteBytes": string(jsonfmt.WriteBytes([]byte(space), b)),
			"[]byte":     space + jsonfmt.MarshalToString(b),
		}
		for name, out := range encoded {
			if !strings.HasPrefix(out, space) {
				t.Fatalf("%s did not append: %q", name, out)
			}
			out = out[len(space):]
			var decoded string
			if err := json.Unmarshal([]byte(out), &decoded); err != nil {
				t.Fatalf("%s of %q is not json: %s: %v", name, b, out, err)
			}
			if decoded != bytesText(b) {
				t.Fatalf("%s of %q decodes to %q, want %q", name, b, decoded, bytesText(b))
			}
		}
		if string(b) != s {
			t.Fatalf("the encoder changed its input")
		}
	})
}

// unescape undoes json escapes byte by byte, leaving other bytes alone.
func unescape(t *rapid.T, out string) string {
	if len(out) < 2 || out[0] != '"' || out[len(out)-1] != '"' {
		t.Fatalf("not quoted: %s", out)
	}
	out = out[1 : len(out)-1]
	var raw []byte
	for i := 0; i < len(out); i++ {
		if out[i] != '\\' {
			raw = append(raw, out[i])
			continue
		}
		i++
		switch out[i] {
		case 'u':
			v, err := strconv.ParseUint(out[i+1:i+5], 16, 32)
			if err != nil {
				t.Fatalf("bad escape in %q", out)
			}
			raw = append(raw, string(rune(v))...)
			i += 4
		default:
			raw = append(raw, map[byte]byte{'n': '\n', 'r': '\r', 't': '\t', 'b': '\b', 'f': '\f', '"': '"', '\\': '\\', '/': '/'}[out[i]])
		}
	}
	return string(raw)
}

func drawFloat(t *rapid.T) float64 {
	switch rapid.IntRange(0, 5).Draw(t, "how") {
	case 0:
		return rapid.Float64().Draw(t, "any")
	case 1:
		return rapid.Float64Range(-1e8, 1e8).Draw(t, "range")
	case 2: // few decimals, zeros after the point
		v := float64(rapid.Int64Range(-99999999999, 99999999999).Draw(t, "n"))
		for i := rapid.IntRange(0, 8).Draw(t, "shift"); i > 0; i-- {
			v /= 10
		}
		return v
	case 3:
		return rapid.SampledFrom([]float64{0, math.Copysign(0, -1), 1e-6, 5e-7, 4.9e-7, 0.9999995, 0.99999949, 83886079, 83886080, 83886079.5, 1e21, 1e20, 1e300, 5e-324, math.MaxFloat64, math.MaxFloat32, -83886080.25}).Draw(t, "edge")
	case 4:
		return rapid.SampledFrom([]float64{math.NaN(), math.Inf(1), math.Inf(-1)}).Draw(t, "odd")
	default:
		return float64(rapid.IntRange(-84000000, 84000000).Draw(t, "whole")) + float64(rapid.IntRange(0, 1000005).Draw(t, "micros"))/1e6
	}
}

// floatProblem says what is wrong with text as the encoding of v, "" if nothing.
func floatProblem(text string, v float64, bits int) string {
	if math.IsNaN(v) || math.IsInf(v, 0) {
		if text != "null" {
			return "not null"
		}
		return ""
	}
	if !json.Valid([]byte(text)) {
		return "not json"
	}
	got, _, err := big.ParseFloat(text, 10, 200, big.ToNearestEven)
	if err != nil {
		return "not a number"
	}
	if math.Abs(v) > 0x4ffffff {
		back, err := strconv.ParseFloat(text, bits)
		if err != nil || back != v {
			return fmt.Sprintf("large value reads back as %v", back)
		}
		return ""
	}
	diff := new(big.Float).SetPrec(200).Sub(got, new(big.Float).SetPrec(200).SetFloat64(v))
	limit := big.NewFloat(5.5e-7)
	if diff.Abs(diff).Cmp(limit) > 0 {
		return "off by more than half of the sixth decimal"
	}
	return ""
}

func TestC03_floats(t *testing.T) {
	hz.Run(t, 200000, "float64 and float32 values over magnitudes, decimals, edges and non-finite values; non-trivial: finite with a fraction, or beyond the six-digit range", func(t *rapid.T, c *hz.Case) {
		v := drawFloat(t)
		space := rapid.SampledFrom([]string{"", "x", "100"}).Draw(t, "space")
		c.Desc("%v after %q", v, space)
		c.NonTrivial(!math.IsNaN(v) && !math.IsInf(v, 0) && (v != math.Trunc(v) || math.Abs(v) > 0x4ffffff))
		v32 := float32(v)
		outs := []struct {
			name string
			text string
			v    float64
			bits int
		}{
			{"float64", space + jsonfmt.MarshalToString(v), v, 64},
			{"WriteFloat64Lossy", string(jsonfmt.WriteFloat64Lossy([]byte(space), v)), v, 64},
			{"float32", space + jsonfmt.MarshalToString(v32), float64(v32), 32},
			{"WriteFloat32Lossy", string(jsonfmt.WriteFloat32Lossy([]byte(space), v32)), float64(v32), 32},
		}
		for _, o := range outs {
			if !strings.HasPrefix(o.text, space) {
				t.Fatalf("%s did not append: %q", o.name, o.text)
			}
			if problem := floatProblem(o.text[len(space):], o.v, o.bits); problem != "" {
				t.Fatalf("%s of %v is %q: %s", o.name, o.v, o.text[len(space):], problem)
			}
		}
		exact := []struct {
			name string
			text string
			v    float64
			bits int
		}{
			{"WriteFloat64", string(jsonfmt.WriteFloat64([]byte(space), v)), v, 64},
			{"WriteFloat32", string(jsonfmt.WriteFloat32([]byte(space), v32)), float64(v32), 32},
		}
		for _, o := range exact {
			if !strings.HasPrefix(o.text, space) {
				t.Fatalf("%s did not append: %q", o.name, o.text)
			}
			text := o.text[len(space):]
			if math.IsNaN(o.v) || math.IsInf(o.v, 0) {
				if text != "null" {
					t.Fatalf("%s of %v is %q", o.name, o.v, text)
				}
				continue
			}
			back, err := strconv.ParseFloat(text, o.bits)
			if err != nil || back != o.v || !json.Valid([]byte(text)) {
				t.Fatalf("%s of %v is %q, which reads back as %v, %v", o.name, o.v, text, back, err)
			}
		}
	})
}
