package ljchk

import (
	"fmt"
	"os"
	"path/filepath"
	"testing"

	"github.com/v2pro/plz/countlog/output/lumberjack"
	"pgregory.net/rapid"
	"verifharness/hz"
)

// TestC25_default: the default maximum of 100 megabytes, on sparse files.
func TestC25_default(t *testing.T) {
	hz.Run(t, 600, "a logger without a configured maximum on an existing file of just below or above 100 MB, and 1 to 4 writes of up to 1000 bytes; non-trivial: the file is within 1000 bytes of the maximum", func(t *rapid.T, c *hz.Case) {
		cfg := drawConfig(t)
		cfg.maxSize = 0
		defer cfg.remove()
		const max = 100 * mb
		size := int64(max + rapid.SampledFrom([]int{-50 * mb, -2000, -1000, -999, -10, -2, -1, 0, 1, 10}).Draw(t, "size"))
		hz.Infra(os.MkdirAll(cfg.dir, 0755))
		f, err := os.Create(cfg.path())
		hz.Infra(err)
		hz.Infra(f.Truncate(size))
		hz.Infra(f.Close())
		sizes := rapid.SliceOfN(rapid.SampledFrom([]int{1, 2, 9, 500, 1000}), 1, 4).Draw(t, "writes")
		c.Desc("%s: file of %d bytes, writes %v", cfg, size, sizes)
		c.NonTrivial(size >= max-1000 && size <= max)
		logger := cfg.open()
		defer logger.Close()
		backups := []int64{}
		for i, n := range sizes {
			if _, err := logger.Write(chunk(3, i, n)); err != nil {
				t.Fatalf("write of %d bytes to a file of %d: %v", n, size, err)
			}
			after := size + int64(n)
			switch now := statSize(cfg.path()); {
			case now == after && after <= max:
				size = after
			case now == int64(n) && after > max:
				backups = append(backups, size)
				size = now
			default:
				t.Fatalf("the file of %d bytes holds %d after a write of %d, the maximum is %d", size, now, n, max)
			}
		}
		entries := cfg.backups()
		if len(entries) != len(backups) {
			t.Fatalf("%d backups, want %d", len(entries), len(backups))
		}
		for i, e := range entries {
			if got := statSize(filepath.Join(cfg.dir, e.name)); got != backups[i] {
				t.Fatalf("backup %s holds %d bytes, want %d", e.name, got, backups[i])
			}
		}
	})
}

func statSize(path string) int64 {
	info, err := os.Stat(path)
	if err != nil {
		return -1
	}
	return info.Size()
}

// TestC25_filename: without a file name the log goes to the temporary directory.
func TestC25_filename(t *testing.T) {
	hz.Run(t, 20, "writes and rotations of a logger without a file name, in a temporary directory of its own; non-trivial: all", func(t *rapid.T, c *hz.Case) {
		tmp, err := os.MkdirTemp("", "lj")
		hz.Infra(err)
		before := os.Getenv("TMPDIR")
		hz.Infra(os.Setenv("TMPDIR", tmp))
		defer func() {
			os.Setenv("TMPDIR", before)
			os.RemoveAll(tmp)
		}()
		rotations := rapid.IntRange(0, 3).Draw(t, "rotations")
		c.Desc("%d rotations", rotations)
		c.NonTrivial(true)
		logger := &lumberjack.Logger{}
		defer logger.Close()
		all := ""
		for i := 0; i <= rotations; i++ {
			text := fmt.Sprintf("text %d\n", i)
			if _, err := logger.Write([]byte(text)); err != nil {
				t.Fatal(err)
			}
			all += text
			if i < rotations {
				if err := logger.Rotate(); err != nil {
					t.Fatal(err)
				}
			}
		}
		base := filepath.Base(os.Args[0]) + "-lumberjack.log"
		cfg := config{dir: tmp, base: base}
		got := ""
		entries := cfg.backups()
		for _, e := range entries {
			data, err := cfg.content(e)
			if err != nil {
				t.Fatal(err)
			}
			got += string(data)
		}
		current, err := os.ReadFile(filepath.Join(tmp, base))
		if err != nil {
			t.Fatal(err)
		}
		if got += string(current); got != all || len(entries) != rotations {
			t.Fatalf("%d backups, found %q, written %q", len(entries), got, all)
		}
	})
}
