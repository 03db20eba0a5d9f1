package parsechk

import (
	"errors"
	"fmt"
	"io"
	"testing"

	"github.com/v2pro/plz/parse"
	"pgregory.net/rapid"
	"verifharness/hz"
)

func TestMain(m *testing.M) { hz.Main(m) }

var errBroken = errors.New("broken pipe of the harness")

// scripted is a reader that hands out content in generated portions.
type scripted struct {
	content   []byte
	pos       int
	portions  []int // at most this many bytes per read, 0 = a read of nothing
	step      int
	final     error
	withFinal bool // the last bytes come along with the final error
}

func (r *scripted) Read(p []byte) (int, error) {
	if r.pos == len(r.content) {
		if r.final == io.ErrNoProgress {
			return 0, nil // for ever
		}
		return 0, r.final
	}
	limit := len(p)
	if len(r.portions) > 0 {
		limit = r.portions[r.step%len(r.portions)]
		r.step++
	}
	if limit > len(p) {
		limit = len(p)
	}
	n := copy(p[:limit], r.content[r.pos:])
	r.pos += n
	if r.pos == len(r.content) && r.withFinal && r.final != io.ErrNoProgress {
		return n, r.final
	}
	return n, nil
}

// sourceSpec is a way to feed one content into a source.
type sourceSpec struct {
	isString  bool
	bufSize   int
	portions  []int
	final     error
	withFinal bool
}

func (s sourceSpec) String() string {
	if s.isString {
		return "string"
	}
	return fmt.Sprintf("reader(buf=%d portions=%v final=%v with=%v)", s.bufSize, s.portions, s.final, s.withFinal)
}

func drawSpec(t *rapid.T, allowBroken bool) sourceSpec {
	if rapid.IntRange(0, 4).Draw(t, "kind") == 0 {
		return sourceSpec{isString: true, final: io.EOF}
	}
	s := sourceSpec{
		bufSize:   rapid.OneOf(rapid.IntRange(1, 5), rapid.IntRange(1, 64)).Draw(t, "bufSize"),
		portions:  rapid.SliceOfN(rapid.IntRange(0, 6), 0, 5).Draw(t, "portions"),
		withFinal: rapid.Bool().Draw(t, "withFinal"),
		final:     io.EOF,
	}
	some := false
	for _, p := range s.portions {
		some = some || p > 0
	}
	if !some {
		s.portions = nil
	}
	if allowBroken && rapid.IntRange(0, 3).Draw(t, "broken") == 0 {
		s.final = rapid.SampledFrom([]error{errBroken, errBroken, io.ErrNoProgress}).Draw(t, "how")
	}
	return s
}

// open returns nil for an empty reader, as documented by NewSource's error.
func (s sourceSpec) open(t *rapid.T, content []byte) *parse.Source {
	if s.isString {
		return parse.NewSourceString(string(content))
	}
	src, err := parse.NewSource(&scripted{
		content: content, portions: s.portions, final: s.final, withFinal: s.withFinal,
	}, make([]byte, s.bufSize))
	if len(content) == 0 {
		if err != s.final {
			t.Fatalf("NewSource of an empty reader: error %v, want %v", err, s.final)
		}
		return nil
	}
	if err != nil {
		t.Fatalf("NewSource: unexpected error %v", err)
	}
	return src
}

// drain consumes what is left and returns it with the error at the end.
func drain(t *rapid.T, src *parse.Source) ([]byte, error) {
	var rest []byte
	for i := 0; src.Error() == nil; i++ {
		buf := src.Peek()
		if len(buf) == 0 {
			t.Fatalf("source has neither bytes nor error")
		}
		rest = append(rest, buf...)
		src.Consume()
	}
	return rest, src.Error()
}
