package parsechk

import (
	"fmt"
	"io"
	"math"
	"math/big"
	"testing"

	"github.com/v2pro/plz/parse/read"
	"pgregory.net/rapid"
	"verifharness/hz"
)

func drawDigits(t *rapid.T) string {
	base := rapid.SampledFrom([]string{
		"0", "9", "10", "2147483647", "2147483648", "4294967295", "4294967296",
		"9223372036854775807", "9223372036854775808", "18446744073709551615", "1844674407370955161",
		"18446744073709551616", "36893488147419103232", "184467440737095516159", "99999999999999999999",
	}).Draw(t, "base")
	digits := ""
	switch rapid.IntRange(0, 4).Draw(t, "how") {
	case 0:
		digits = rapid.StringMatching(`[0-9]{0,6}`).Draw(t, "short")
	case 1:
		digits = rapid.StringMatching(`[0-9]{15,40}`).Draw(t, "long")
	case 2:
		digits = fmt.Sprint(rapid.Uint64().Draw(t, "u64"))
	default:
		n, _ := new(big.Int).SetString(base, 10)
		n.Add(n, big.NewInt(int64(rapid.IntRange(-12, 12).Draw(t, "delta"))))
		digits = new(big.Int).Abs(n).String()
		if rapid.IntRange(0, 3).Draw(t, "times") == 0 {
			digits += rapid.StringMatching(`[0-9]`).Draw(t, "extra")
		}
	}
	return rapid.SampledFrom([]string{"", "", "", "0", "000"}).Draw(t, "zeros") + digits
}

// TestC08_integers reads generated decimal text with every integer reader.
func TestC08_integers(t *testing.T) {
	hz.Run(t, 60000, "decimal text around the limits of each type x sign x what follows x portions of the reader; non-trivial: at least 9 digits or a sign, i.e. where a limit or overflow can matter", func(t *rapid.T, c *hz.Case) {
		kind := rapid.SampledFrom(intKinds).Draw(t, "kind")
		digits := drawDigits(t)
		sign := ""
		if kind != "uint64" {
			sign = rapid.SampledFrom([]string{"", "-"}).Draw(t, "sign")
		}
		rest := rapid.SampledFrom([]string{"", "", " ", "x1", "-1", ".5", ",", "/", ":", "中", "\x00"}).Draw(t, "rest")
		spec := drawSpec(t, false)
		c.Desc("%s %q %v", kind, sign+digits+rest, spec)
		c.NonTrivial(len(digits) >= 9 || sign != "")
		if checkInteger(t, kind, sign, digits, rest, spec) {
			c.Label("overflow")
		}
	})
}

var intKinds = []string{"uint64", "int64", "int32", "int"}

// TestC08_limits reads every value close to a limit, in generated portions.
func TestC08_limits(t *testing.T) {
	var numbers []string
	for _, base := range []int64{0, math.MaxInt8, math.MaxUint8, math.MaxInt16, math.MaxUint16, math.MaxInt32, math.MaxUint32, math.MaxInt64} {
		for _, times := range []int64{1, 2, 3, 4, 10, 100} {
			n := new(big.Int).Mul(big.NewInt(base), big.NewInt(times))
			for delta := int64(-12); delta <= 12; delta++ {
				numbers = append(numbers, new(big.Int).Abs(new(big.Int).Add(n, big.NewInt(delta))).String())
			}
		}
	}
	for pow := 1; pow < 24; pow++ {
		n := new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(pow)), nil)
		for delta := int64(-1); delta <= 1; delta++ {
			numbers = append(numbers, new(big.Int).Add(n, big.NewInt(delta)).String())
		}
	}
	hz.Run(t, 150, fmt.Sprintf("%d numbers close to the limits and powers of ten x both signs, in generated portions; non-trivial: all", len(numbers)), func(t *rapid.T, c *hz.Case) {
		kind := rapid.SampledFrom(intKinds).Draw(t, "kind")
		zeros := rapid.SampledFrom([]string{"", "", "0", "000"}).Draw(t, "zeros")
		rest := rapid.SampledFrom([]string{"", "", " ", "x1", "-1", "/", ":"}).Draw(t, "rest")
		spec := drawSpec(t, false)
		c.Desc("%s zeros=%q rest=%q %v", kind, zeros, rest, spec)
		c.NonTrivial(true)
		for _, digits := range numbers {
			checkInteger(t, kind, "", zeros+digits, rest, spec)
			if kind != "uint64" {
				checkInteger(t, kind, "-", zeros+digits, rest, spec)
			}
		}
	})
}

func checkInteger(t *rapid.T, kind, sign, digits, rest string, spec sourceSpec) (overflow bool) {
	text := sign + digits + rest
	src := spec.open(t, []byte(text))
	if src == nil {
		return false
	}
	if digits == "" && rest != "" && kind != "uint64" && sign == "" && rest[0] == '-' {
		sign, rest = "-", rest[1:]
		digits, rest = splitDigits(rest)
	}
	want := new(big.Int)
	if digits != "" {
		want.SetString(digits, 10)
	}
	if sign == "-" {
		want.Neg(want)
	}
	var got *big.Int
	min, max := new(big.Int), new(big.Int)
	switch kind {
	case "uint64":
		max.SetUint64(math.MaxUint64)
		got = new(big.Int).SetUint64(read.Uint64(src))
	case "int64":
		min.SetInt64(math.MinInt64)
		max.SetInt64(math.MaxInt64)
		got = big.NewInt(read.Int64(src))
	case "int32":
		min.SetInt64(math.MinInt32)
		max.SetInt64(math.MaxInt32)
		got = big.NewInt(int64(read.Int32(src)))
	case "int":
		min.SetInt64(math.MinInt)
		max.SetInt64(math.MaxInt)
		got = big.NewInt(int64(read.Int(src)))
	}
	if want.Cmp(min) < 0 || want.Cmp(max) > 0 {
		if src.Error() == nil || src.Error() == io.EOF {
			t.Fatalf("%s of %q: got %v with error %v, but the value does not fit", kind, text, got, src.Error())
		}
		return true
	}
	if got.Cmp(want) != 0 {
		t.Fatalf("%s of %q: got %v, want %v (error %v)", kind, text, got, want, src.Error())
	}
	left, err := drain(t, src)
	if string(left) != rest || err != io.EOF {
		t.Fatalf("%s of %q: left %q, %v; want %q", kind, text, left, err, rest)
	}
	return false
}

func splitDigits(s string) (string, string) {
	i := 0
	for i < len(s) && s[i] >= '0' && s[i] <= '9' {
		i++
	}
	return s[:i], s[i:]
}
