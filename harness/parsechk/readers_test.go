package parsechk

import (
	"io"
	"sort"
	"testing"
	"unicode"
	"unicode/utf8"

	"github.com/v2pro/plz/parse/read"
	"github.com/v2pro/plz/parse/skip"
	"pgregory.net/rapid"
	"verifharness/hz"
)

var tables = map[string]*unicode.RangeTable{
	"Letter": unicode.Letter, "Digit": unicode.Digit, "Han": unicode.Han, "White_Space": unicode.White_Space,
	"Pattern_Syntax": unicode.Pattern_Syntax, "Upper": unicode.Upper, "So": unicode.So, "Punct": unicode.Punct,
	"Pattern_White_Space": unicode.Pattern_White_Space,
}
var tableNames = []string{"Letter", "Digit", "Han", "White_Space", "Pattern_Syntax", "Upper", "So", "Punct", "Pattern_White_Space"}

// spaces are all the white space characters, and some that look like it.
var spaces = []rune("\u0085\u00a0\u1680\u2000\u2001\u2002\u2003\u2004\u2005\u2006\u2007\u2008\u2009\u200a\u2028\u2029\u202f\u205f\u3000" +
	"\u0000\u0008\u000e\u001c\u001f\u180e\u200b\u2060\ufeff")

// drawRunes takes characters of one of the tables, of its neighbourhood, and
// others.
func drawRunes(t *rapid.T, table *unicode.RangeTable) []byte {
	var text []rune
	for i := rapid.IntRange(0, 20).Draw(t, "runes"); i > 0; i-- {
		switch kind := rapid.IntRange(0, 6).Draw(t, "rune"); {
		case kind <= 3:
			var lo, hi, stride rune
			if k := rapid.IntRange(0, len(table.R16)+len(table.R32)-1).Draw(t, "range"); k < len(table.R16) {
				lo, hi, stride = rune(table.R16[k].Lo), rune(table.R16[k].Hi), rune(table.R16[k].Stride)
			} else {
				r := table.R32[k-len(table.R16)]
				lo, hi, stride = rune(r.Lo), rune(r.Hi), rune(r.Stride)
			}
			r := lo + stride*rune(rapid.IntRange(0, int((hi-lo)/stride)).Draw(t, "nth"))
			if kind == 3 {
				r = rapid.SampledFrom([]rune{lo - 1, hi + 1, lo, hi}).Draw(t, "edge")
			}
			text = append(text, r)
		case kind == 4:
			text = append(text, rapid.Rune().Draw(t, "any"))
		case kind == 5:
			text = append(text, rune(rapid.IntRange(0, 0x7f).Draw(t, "ascii")))
		default:
			text = append(text, rapid.SampledFrom(spaces).Draw(t, "space"))
		}
	}
	return []byte(string(text))
}

func init() {
	for _, kind := range []map[string]*unicode.RangeTable{unicode.Categories, unicode.Scripts, unicode.Properties} {
		var names []string
		for name := range kind {
			if tables[name] == nil && len(kind[name].R16)+len(kind[name].R32) > 0 {
				names = append(names, name)
			}
		}
		sort.Strings(names)
		for _, name := range names {
			tables[name] = kind[name]
			moreTableNames = append(moreTableNames, name)
		}
	}
}

var moreTableNames []string

func pick(names []string) []*unicode.RangeTable {
	var picked []*unicode.RangeTable
	for _, name := range names {
		picked = append(picked, tables[name])
	}
	return picked
}

func isAny(r rune, tables []*unicode.RangeTable) bool {
	for _, table := range tables {
		if unicode.Is(table, r) {
			return true
		}
	}
	return false
}

// TestC09_readers compares the byte and rune readers with plain scans.
func TestC09_readers(t *testing.T) {
	hz.Run(t, 200000, "reader x its arguments x text x portions of the io.Reader; non-trivial: the reader takes at least one byte and stops before the end, or takes at least 8 bytes", func(t *rapid.T, c *hz.Case) {
		alphabet := []rune("aZ09_ \t\n\v\f\r\u00a0\u2003中文字😀{},.-+\ufffd")
		table := rapid.SampledFrom(tableNames).Draw(t, "table")
		if rapid.IntRange(0, 3).Draw(t, "otherTable") == 0 {
			table = rapid.SampledFrom(moreTableNames).Draw(t, "table2")
		}
		text := rapid.OneOf(
			rapid.Custom(func(t *rapid.T) []byte { return drawRunes(t, tables[table]) }),
			rapid.Map(rapid.SliceOfN(rapid.SampledFrom(spaces), 0, 12), func(r []rune) []byte { return []byte(string(r)) }),
			rapid.Map(rapid.SliceOfN(rapid.SampledFrom(alphabet), 0, 30), func(r []rune) []byte { return []byte(string(r)) }),
			rapid.SliceOfN(rapid.SampledFrom([]byte("a1 \n\t\x80\xbf\xe4\xb8\xad\xf0\x9f\xff{}")), 0, 30),
			rapid.Map(rapid.SliceOfN(rapid.SampledFrom([]rune(" \t\n\v\f\r")), 0, 20), func(r []rune) []byte { return []byte(string(r) + "x ") }),
		).Draw(t, "text")
		spec := drawSpec(t, false)
		op := rapid.SampledFrom([]string{"AnyExcept1", "AnyExcept2", "read.UnicodeRange", "read.UnicodeRanges", "skip.UnicodeRange", "skip.UnicodeRanges", "Space", "UnicodeSpace"}).Draw(t, "op")
		b1 := rapid.SampledFrom([]byte("a1{},\n \x80")).Draw(t, "b1")
		b2 := rapid.SampledFrom([]byte("a1{},\n \x80")).Draw(t, "b2")
		includes := rapid.SliceOfN(rapid.SampledFrom(tableNames), 0, 3).Draw(t, "includes")
		excludes := rapid.SliceOfN(rapid.SampledFrom(tableNames), 0, 2).Draw(t, "excludes")
		if rapid.IntRange(0, 3).Draw(t, "moreRanges") == 0 {
			includes = append(includes, table)
			excludes = append(excludes, rapid.SliceOfN(rapid.SampledFrom(moreTableNames), 0, 2).Draw(t, "excludes2")...)
		}
		prefix := rapid.SampledFrom([]string{"", "pre"}).Draw(t, "prefix")
		c.Desc("%s b1=%q b2=%q table=%s includes=%v excludes=%v prefix=%q text=%q %v", op, b1, b2, table, includes, excludes, prefix, text, spec)
		src := spec.open(t, text)
		if src == nil {
			return
		}
		scanBytes := func(stop func(b byte) bool) int {
			for i, b := range text {
				if stop(b) {
					return i
				}
			}
			return len(text)
		}
		scanRunes := func(take func(r rune) bool) int {
			i := 0
			for i < len(text) {
				r, n := utf8.DecodeRune(text[i:])
				if !take(r) {
					break
				}
				i += n
			}
			return i
		}
		takeRanges := func(r rune) bool {
			if isAny(r, pick(excludes)) {
				return false
			}
			return len(includes) == 0 || isAny(r, pick(includes))
		}
		want := 0
		switch op {
		case "AnyExcept1":
			want = scanBytes(func(b byte) bool { return b == b1 })
			got := read.AnyExcept1(src, []byte(prefix), b1)
			if string(got) != prefix+string(text[:want]) {
				t.Fatalf("got %q, want %q", got, prefix+string(text[:want]))
			}
		case "AnyExcept2":
			want = scanBytes(func(b byte) bool { return b == b1 || b == b2 })
			got := read.AnyExcept2(src, []byte(prefix), b1, b2)
			if string(got) != prefix+string(text[:want]) {
				t.Fatalf("got %q, want %q", got, prefix+string(text[:want]))
			}
		case "read.UnicodeRange":
			want = scanRunes(func(r rune) bool { return unicode.Is(tables[table], r) })
			got := read.UnicodeRange(src, []rune(prefix), tables[table])
			compareRunes(t, got, prefix, text[:want])
		case "read.UnicodeRanges":
			want = scanRunes(takeRanges)
			got := read.UnicodeRanges(src, []rune(prefix), pick(includes), pick(excludes))
			compareRunes(t, got, prefix, text[:want])
		case "skip.UnicodeRange":
			want = scanRunes(func(r rune) bool { return unicode.Is(tables[table], r) })
			if got := skip.UnicodeRange(src, tables[table]); got != want {
				t.Fatalf("skipped %d, want %d", got, want)
			}
		case "skip.UnicodeRanges":
			if len(includes) == 0 {
				includes = []string{table}
			}
			want = scanRunes(takeRanges)
			if got := skip.UnicodeRanges(src, pick(includes), pick(excludes)); got != want {
				t.Fatalf("skipped %d, want %d", got, want)
			}
		case "Space":
			want = scanBytes(func(b byte) bool {
				return !(b == '\t' || b == '\n' || b == '\v' || b == '\f' || b == '\r' || b == ' ')
			})
			if got := skip.Space(src); got != want {
				t.Fatalf("skipped %d, want %d", got, want)
			}
		case "UnicodeSpace":
			want = scanRunes(unicode.IsSpace)
			if got := skip.UnicodeSpace(src); got != want {
				t.Fatalf("skipped %d, want %d", got, want)
			}
		}
		left, err := drain(t, src)
		if string(left) != string(text[want:]) || err != io.EOF {
			t.Fatalf("%s left %q, %v; want %q", op, left, err, text[want:])
		}
		c.NonTrivial(want > 0 && (want < len(text) || want >= 8))
		c.Label(op)
	})
}

func compareRunes(t *rapid.T, got []rune, prefix string, taken []byte) {
	want := []rune(prefix)
	for len(taken) > 0 {
		r, n := utf8.DecodeRune(taken)
		want = append(want, r)
		taken = taken[n:]
	}
	if len(got) != len(want) {
		t.Fatalf("got %q, want %q", got, want)
	}
	for i := range want {
		if got[i] != want[i] {
			t.Fatalf("got %q, want %q", got, want)
		}
	}
}
