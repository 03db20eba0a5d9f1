package parsechk

import (
	"bytes"
	"io"
	"testing"
	"unicode/utf8"

	"pgregory.net/rapid"
	"verifharness/hz"
)

func drawContent(t *rapid.T) []byte {
	return rapid.OneOf(
		rapid.SliceOfN(rapid.SampledFrom([]byte("ab\x80\xe4\xb8\xad\xf0\x9f\x98\x80\xff \n{},")), 0, 40),
		rapid.SliceOfN(rapid.Byte(), 0, 80),
		rapid.Map(rapid.StringN(0, 30, 90), func(s string) []byte { return []byte(s) }),
	).Draw(t, "content")
}

// TestC07_source drives a source with a generated history of operations and
// compares every observation with the plain byte slice it was made from.
func TestC07_source(t *testing.T) {
	hz.Run(t, 120000, "content x portions handed out by the reader x operation history; non-trivial: a reader source whose content spans at least two buffers, at least one look-ahead beyond the current buffer, and consumption to the end", func(t *rapid.T, c *hz.Case) {
		content := drawContent(t)
		spec := drawSpec(t, true)
		ops := rapid.SliceOfN(rapid.IntRange(0, 99), 0, 25).Draw(t, "ops")
		c.Desc("%q %v ops=%v", content, spec, ops)
		src := spec.open(t, content)
		if src == nil {
			return
		}
		pos := 0
		ahead := false
		var sticky error
		check := func(after string) {
			rest := content[pos:]
			peeked := src.Peek()
			if !bytes.HasPrefix(rest, peeked) {
				t.Fatalf("after %s at %d: Peek=%q is not what comes next in %q", after, pos, peeked, rest)
			}
			if len(rest) == 0 {
				want := sticky
				if want == nil {
					want = spec.final
				}
				if src.Error() != want {
					t.Fatalf("after %s: everything consumed, error %v, want %v", after, src.Error(), want)
				}
				return
			}
			if len(peeked) == 0 {
				t.Fatalf("after %s at %d: Peek is empty but %q is left", after, pos, rest)
			}
			if src.Error() != sticky {
				t.Fatalf("after %s at %d: error %v, want %v (left %q)", after, pos, src.Error(), sticky, rest)
			}
		}
		check("open")
		for _, op := range ops {
			rest := content[pos:]
			arg := op / 8
			switch op % 8 {
			case 0, 1: // look ahead
				n := arg
				if op%8 == 1 {
					n = len(rest) - 2 + arg%5
					if n < 0 {
						n = 0
					}
				}
				if n > len(src.Peek()) {
					ahead = true
				}
				peeked, err := src.PeekN(n)
				if n <= len(rest) {
					if !bytes.Equal(peeked, rest[:n]) || err != nil {
						t.Fatalf("PeekN(%d) at %d: %q, %v; want %q", n, pos, peeked, err, rest[:n])
					}
				} else if !bytes.Equal(peeked, rest) || err != spec.final {
					t.Fatalf("PeekN(%d) at %d beyond the end: %q, %v; want %q, %v", n, pos, peeked, err, rest, spec.final)
				}
				check("PeekN")
			case 2, 3:
				n := arg
				src.ConsumeN(n)
				pos += n
				if pos > len(content) {
					pos = len(content)
				}
				check("ConsumeN")
			case 4:
				r, n := src.PeekRune()
				wantR, wantN := utf8.DecodeRune(rest)
				if len(rest) == 0 {
					wantR, wantN = utf8.RuneError, 1
				}
				if r != wantR || n != wantN {
					t.Fatalf("PeekRune at %d: %q %d, want %q %d", pos, r, n, wantR, wantN)
				}
				check("PeekRune")
			case 5:
				if len(rest) == 0 {
					continue
				}
				if src.Peek1() != rest[0] {
					t.Fatalf("Peek1 at %d: %q, want %q", pos, src.Peek1(), rest[0])
				}
				src.Consume1(rest[0])
				pos++
				check("Consume1")
			case 6:
				if len(rest) == 0 {
					continue
				}
				pos += len(src.Peek())
				src.Consume()
				check("Consume")
			case 7:
				if arg < 3 && len(rest) > 0 && sticky == nil {
					src.Consume1(rest[0] ^ 1)
					pos++
					sticky = src.Error()
					if sticky == nil {
						t.Fatalf("Consume1 of another byte than the next one reported nothing")
					}
					if sticky == io.EOF {
						t.Fatalf("Consume1 of another byte than the next one was reported as the end of input")
					}
					check("Consume1 mismatch")
				} else if !spec.isString {
					src.SetBuffer(make([]byte, 1+arg))
				}
			}
		}
		for len(content) > pos {
			pos += len(src.Peek())
			src.Consume()
			check("final Consume")
		}
		c.NonTrivial(!spec.isString && len(content) > spec.bufSize && ahead)
		if !spec.isString {
			c.Label("reader")
		}
		if ahead {
			c.Label("look-ahead")
		}
		if sticky != nil {
			c.Label("mismatch")
		}
	})
}
