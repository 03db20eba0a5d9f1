package parsechk

import (
	"errors"
	"fmt"
	"io"
	"reflect"
	"strings"
	"testing"

	"github.com/v2pro/plz/parse"
	"github.com/v2pro/plz/parse/read"
	"github.com/v2pro/plz/parse/skip"
	"pgregory.net/rapid"
	"verifharness/hz"
)

// grammar is a generated operator table.
type grammar struct {
	prec  map[byte]int  // of the infix operators
	right map[byte]bool // right associative
	void  map[byte]bool // evaluates to nil
	unary int           // precedence of the prefix minus
}

type value struct{ g *grammar }
type minus struct{ g *grammar }
type group struct{ g *grammar }
type binary struct {
	g  *grammar
	op byte
}

func (g *grammar) PrefixToken(src *parse.Source) parse.PrefixToken {
	skip.Space(src)
	if src.Error() != nil {
		return nil
	}
	switch b := src.Peek1(); {
	case b == '~':
		return minus{g}
	case b == '(':
		return group{g}
	case b >= '0' && b <= '9':
		return value{g}
	case b == '!':
		return fault{}
	}
	return nil
}

// fault reports errors and reads on.
type fault struct{}

type faultError int

func (err faultError) Error() string { return fmt.Sprint("fault at ", int(err)) }

// PrefixParse reports one error per ! up to the next other byte, tells how many there were.
func (fault) PrefixParse(src *parse.Source) interface{} {
	n := 0
	for ; len(src.Peek()) > 0 && src.Peek1() == '!'; n++ {
		src.ReportError(faultError(n))
		src.ConsumeN(1)
	}
	return n
}

func (g *grammar) InfixToken(src *parse.Source) (parse.InfixToken, int) {
	skip.Space(src)
	if src.Error() != nil {
		return nil, 0
	}
	prec, found := g.prec[src.Peek1()]
	if !found {
		return nil, 0
	}
	return binary{g, src.Peek1()}, prec
}

// leafValue is what a number parses to: values of several types, and nil.
func leafValue(num uint64) interface{} {
	switch num {
	case 3, 17:
		return nil
	case 5:
		return errors.New("five")
	case 7:
		return []interface{}{}
	case 0, 11:
		return int(num)
	}
	return fmt.Sprint(num)
}

func (v value) PrefixParse(src *parse.Source) interface{} { return leafValue(read.Uint64(src)) }
func (m minus) PrefixParse(src *parse.Source) interface{} {
	src.Consume1('~')
	return fmt.Sprintf("(~ %v)", parse.Parse(src, m.g, m.g.unary))
}
func (gr group) PrefixParse(src *parse.Source) interface{} {
	src.Consume1('(')
	inner := parse.Parse(src, gr.g, 0)
	skip.Space(src)
	if src.Error() != nil {
		if src.Error() == io.EOF {
			panic(errors.New("unclosed group"))
		}
		return nil
	}
	src.Consume1(')')
	return inner
}
func (b binary) InfixParse(src *parse.Source, left interface{}) interface{} {
	src.Consume1(b.op)
	prec := b.g.prec[b.op]
	if b.g.right[b.op] {
		prec--
	}
	right := parse.Parse(src, b.g, prec)
	if b.g.void[b.op] {
		return nil
	}
	return fmt.Sprintf("(%c %v %v)", b.op, left, right)
}

// node is a generated expression; text prints it with only the parentheses
// that the precedences require, tree prints what must come out of parsing.
type node struct {
	op          byte // 0: number, '~': prefix, otherwise infix
	num         int
	left, right *node
}

func drawNode(t *rapid.T, ops []byte, depth int) *node {
	if depth == 0 || rapid.IntRange(0, 4).Draw(t, "leaf") == 0 {
		return &node{num: rapid.IntRange(0, 20).Draw(t, "num")}
	}
	if rapid.IntRange(0, 5).Draw(t, "prefix") == 0 {
		return &node{op: '~', left: drawNode(t, ops, depth-1)}
	}
	return &node{op: rapid.SampledFrom(ops).Draw(t, "op"), left: drawNode(t, ops, depth-1), right: drawNode(t, ops, depth-1)}
}

func (n *node) tree(g *grammar) interface{} {
	switch {
	case n.op == 0:
		return leafValue(uint64(n.num))
	case n.op == '~':
		return fmt.Sprintf("(~ %v)", n.left.tree(g))
	case g.void[n.op]:
		return nil
	}
	return fmt.Sprintf("(%c %v %v)", n.op, n.left.tree(g), n.right.tree(g))
}

// tokens prints n so that it can stand where only operators binding tighter
// than floor may be continued; tail is the precedence of the operator that
// follows on the right (0 for none).
func (n *node) tokens(g *grammar, floor int, tail int) []string {
	switch n.op {
	case 0:
		return []string{fmt.Sprint(n.num)}
	case '~':
		// an operator that follows binds into the operand if it is tighter than the prefix
		if tail > g.unary {
			return paren(n.tokens(g, 0, 0))
		}
		return append([]string{"~"}, n.left.tokens(g, g.unary, tail)...)
	}
	prec := g.prec[n.op]
	rightFloor := prec
	if g.right[n.op] {
		rightFloor--
	}
	// the operator itself must be reachable from floor, and whatever follows
	// must not be swallowed by the right operand
	if prec <= floor || tail > rightFloor {
		return paren(n.tokens(g, 0, 0))
	}
	tokens := n.left.tokens(g, floor, prec)
	tokens = append(tokens, string([]byte{n.op}))
	return append(tokens, n.right.tokens(g, rightFloor, tail)...)
}

func paren(tokens []string) []string {
	return append(append([]string{"("}, tokens...), ")")
}

func (n *node) size() int {
	if n == nil {
		return 0
	}
	return 1 + n.left.size() + n.right.size()
}

// TestC10_precedence parses printed expressions back into their trees.
func TestC10_precedence(t *testing.T) {
	hz.Run(t, 60000, "operator table (precedence, associativity) x expression tree printed with minimal parentheses x spaces x portions of the reader; non-trivial: at least three operators of at least two precedences", func(t *rapid.T, c *hz.Case) {
		g := &grammar{prec: map[byte]int{}, right: map[byte]bool{}, void: map[byte]bool{}}
		ops := []byte("+-*/^%")[:rapid.IntRange(1, 6).Draw(t, "ops")]
		rightLevel := rapid.SliceOfN(rapid.Bool(), 7, 7).Draw(t, "right")
		for _, op := range ops {
			// odd precedences leave room for right associativity
			level := rapid.IntRange(1, 6).Draw(t, "prec")
			g.prec[op] = level * 2
			g.right[op] = rightLevel[level]
			g.void[op] = rapid.IntRange(0, 7).Draw(t, "void") == 0
		}
		g.unary = rapid.IntRange(1, 7).Draw(t, "unary")*2 + 1
		tree := drawNode(t, ops, rapid.IntRange(1, 5).Draw(t, "depth"))
		tokens := tree.tokens(g, 0, 0)
		var text strings.Builder
		for i, token := range tokens {
			if i > 0 && rapid.IntRange(0, 2).Draw(t, "space") == 0 {
				text.WriteString(rapid.SampledFrom([]string{" ", "\n", "\t  "}).Draw(t, "ws"))
			}
			text.WriteString(token)
		}
		spec := drawSpec(t, false)
		c.Desc("%v right=%v unary=%d %q %v", g.prec, g.right, g.unary, text.String(), spec)
		src := spec.open(t, []byte(text.String()))
		got := parse.Parse(src, g, 0)
		if src.Error() != io.EOF {
			rest, err := drain(t, src)
			t.Fatalf("%q not parsed completely: %v, error %v, left %q", text.String(), got, err, rest)
		}
		want := tree.tree(g)
		if !reflect.DeepEqual(got, want) {
			t.Fatalf("%q parsed as %v, want %v", text.String(), got, want)
		}
		viaString, err := parse.String(text.String(), g)
		if err != nil || !reflect.DeepEqual(viaString, got) {
			t.Fatalf("parse.String(%q) = %v, %v; want %v", text.String(), viaString, err, got)
		}
		levels := map[int]bool{}
		var walk func(n *node)
		count := 0
		walk = func(n *node) {
			if n == nil {
				return
			}
			if n.op == '~' {
				levels[g.unary] = true
				count++
			} else if n.op != 0 {
				levels[g.prec[n.op]] = true
				count++
			}
			walk(n.left)
			walk(n.right)
		}
		walk(tree)
		c.NonTrivial(count >= 3 && len(levels) >= 2)
	})
}

// TestC10_errors: text that stops being an expression is reported, not
// silently taken.
func TestC10_errors(t *testing.T) {
	hz.Run(t, 20000, "expression text cut off or followed by a stray token where an operand is due; non-trivial: at least 3 tokens before the fault", func(t *rapid.T, c *hz.Case) {
		g := &grammar{prec: map[byte]int{'+': 2, '*': 4, '^': 6}, right: map[byte]bool{'^': true}, unary: 5}
		n := rapid.IntRange(0, 8).Draw(t, "n")
		var text strings.Builder
		for i := 0; i < n; i++ {
			fmt.Fprintf(&text, "%d%s", rapid.IntRange(0, 9).Draw(t, "num"), rapid.SampledFrom([]string{"+", "*", "^"}).Draw(t, "op"))
		}
		text.WriteString(rapid.SampledFrom([]string{"x", ")", "+1", "#2"}).Draw(t, "stray"))
		spec := drawSpec(t, false)
		c.Desc("%q %v", text.String(), spec)
		c.NonTrivial(n >= 2)
		src := spec.open(t, []byte(text.String()))
		parse.Parse(src, g, 0)
		if src.Error() == nil || src.Error() == io.EOF {
			t.Fatalf("%q: the missing operand was not reported (error %v)", text.String(), src.Error())
		}
		if _, err := parse.String(text.String(), g); err == nil {
			t.Fatalf("parse.String(%q) reported no error", text.String())
		}
	})
}

// TestC10_firstError: what a token reports is what the caller gets, though
// more is reported after it and the input ends.
func TestC10_firstError(t *testing.T) {
	hz.Run(t, 20000, "expression text with 1 to 4 errors reported by the token at one of the operands, at the end or before more of the expression x portions of the reader; non-trivial: at least 3 tokens before the fault", func(t *rapid.T, c *hz.Case) {
		g := &grammar{prec: map[byte]int{'+': 2, '*': 4, '^': 6}, right: map[byte]bool{'^': true}, unary: 5}
		n := rapid.IntRange(0, 8).Draw(t, "n")
		var text strings.Builder
		for i := 0; i < n; i++ {
			fmt.Fprintf(&text, "%s%d%s", rapid.SampledFrom([]string{"", "", "~", " "}).Draw(t, "before"), rapid.IntRange(0, 9).Draw(t, "num"), rapid.SampledFrom([]string{"+", "*", "^"}).Draw(t, "op"))
		}
		text.WriteString(strings.Repeat("!", rapid.IntRange(1, 4).Draw(t, "errors")))
		text.WriteString(rapid.SampledFrom([]string{"", "", "+1", "x", " "}).Draw(t, "after"))
		spec := drawSpec(t, false)
		c.Desc("%q %v", text.String(), spec)
		c.NonTrivial(n >= 2)
		src := spec.open(t, []byte(text.String()))
		parse.Parse(src, g, 0)
		if src.Error() != faultError(0) {
			t.Fatalf("%q: error %v, want the one reported first", text.String(), src.Error())
		}
		for i := 0; i <= text.Len() && len(src.Peek()) > 0; i++ {
			src.Consume()
		}
		src.ReportError(io.EOF)
		if src.Error() != faultError(0) {
			t.Fatalf("%q: error %v after reading on, want the one reported first", text.String(), src.Error())
		}
		if left, err := parse.String(text.String(), g); err != faultError(0) || left != nil {
			t.Fatalf("parse.String(%q) gave %v, %v", text.String(), left, err)
		}
	})
}
