package ljchk

import (
	"bytes"
	"fmt"
	"io/ioutil"
	"math"
	"os"
	"os/signal"
	"path/filepath"
	"runtime"
	"strings"
	"syscall"
	"testing"

	"pgregory.net/rapid"
	"verifharness/hz"
)

// files reads everything that is in the files of the log, oldest first.
func (cfg config) files(t *rapid.T, desc string) (all []byte, backups int) {
	entries := cfg.backups()
	for _, e := range entries {
		data, err := cfg.content(e)
		if err != nil {
			t.Fatalf("%s: backup %s: %v", desc, e.name, err)
		}
		all = append(all, data...)
	}
	current, err := ioutil.ReadFile(cfg.path())
	if err != nil && !os.IsNotExist(err) {
		t.Fatalf("%s: current file: %v", desc, err)
	}
	return append(all, current...), len(entries)
}

// TestC25_stuck: a log that cannot be rotated, as its name leaves no room for
// that of a backup.
func TestC25_stuck(t *testing.T) {
	hz.Run(t, 300, "up to 15 writes, rotations, closes and re-opens of a log whose name is too long for that of a backup; non-trivial: a rotation failed and a write was accepted after it", func(t *rapid.T, c *hz.Case) {
		cfg := drawConfig(t)
		defer cfg.remove()
		cfg.base = strings.Repeat("a", rapid.IntRange(238, 251).Draw(t, "length")) + rapid.SampledFrom([]string{"", ".log"}).Draw(t, "ext")
		cfg.compress = rapid.IntRange(0, 3).Draw(t, "compress") == 0
		max := cfg.maxSize * mb
		var all []byte
		size := -1
		desc := fmt.Sprintf("size %d, name of %d: ", cfg.maxSize, len(cfg.base))
		logger := cfg.open()
		defer func() { logger.Close() }()
		failed, after := false, false
		for i := rapid.IntRange(2, 15).Draw(t, "steps"); i > 0; i-- {
			switch rapid.IntRange(0, 7).Draw(t, "op") {
			case 0, 1:
				desc += "rotate; "
				err := logger.Rotate()
				if (err == nil) != (size == -1) {
					t.Fatalf("%s: %v", desc, err)
				}
				failed = failed || size != -1
				if size == -1 {
					size = 0
				}
			case 2:
				desc += "close; "
				if err := logger.Close(); err != nil {
					t.Fatalf("%s: %v", desc, err)
				}
			case 3:
				desc += "reopen; "
				if err := logger.Close(); err != nil {
					t.Fatalf("%s: %v", desc, err)
				}
				logger = cfg.open()
			default:
				n := drawSize(t)
				desc += fmt.Sprintf("write %d; ", n)
				data := chunk(0, i, n)
				written, err := logger.Write(data)
				fits := n <= max && (size == -1 || size+n <= max)
				if !fits {
					if err == nil || written != 0 {
						t.Fatalf("%s: write of %d bytes to %d of at most %d returned %d, %v", desc, n, size, max, written, err)
					}
					failed = true
					break
				}
				if err != nil || written != n {
					t.Fatalf("%s: write returned %d, %v", desc, written, err)
				}
				after = after || failed
				all = append(all, data...)
				if size == -1 {
					size = 0
				}
				size += n
			}
			c.Desc("%s", desc)
			got, backups := cfg.files(t, desc)
			if !bytes.Equal(got, all) || backups != 0 {
				at := firstDiff(got, all)
				t.Fatalf("%s: files hold %d bytes, %d were accepted, %d backups; first difference at %d", desc, len(got), len(all), backups, at)
			}
		}
		c.NonTrivial(failed && after)
	})
}

// TestC25_full: writes that cannot be completed, as the file may not grow.
func TestC25_full(t *testing.T) {
	signal.Ignore(syscall.SIGXFSZ)
	var before syscall.Rlimit
	hz.Infra(syscall.Getrlimit(syscall.RLIMIT_FSIZE, &before))
	lift := func() { hz.Infra(syscall.Setrlimit(syscall.RLIMIT_FSIZE, &before)) }
	hz.Run(t, 150, "up to 15 writes of up to 1 MB, some of which are cut short by a limit on the size of files, rotations and re-opens; non-trivial: a write was cut short and there was another one after it", func(t *rapid.T, c *hz.Case) {
		cfg := drawConfig(t)
		defer cfg.remove()
		defer lift()
		max := cfg.maxSize * mb
		var all []byte
		size, rotations := 0, 0
		limit := math.MaxInt64
		desc := cfg.String() + ": "
		logger := cfg.open()
		defer func() { logger.Close() }()
		short, after := false, false
		for i := rapid.IntRange(3, 15).Draw(t, "steps"); i > 0; i-- {
			switch rapid.IntRange(0, 9).Draw(t, "op") {
			case 0:
				desc += "rotate; "
				if err := logger.Rotate(); err != nil {
					t.Fatalf("%s: %v", desc, err)
				}
				if len(all) > 0 || rotations > 0 {
					rotations++
				} else if _, n := cfg.files(t, desc); n > 0 {
					rotations = n // an empty file was there or not
				}
				size = 0
			case 1:
				desc += "reopen; "
				if err := logger.Close(); err != nil {
					t.Fatalf("%s: %v", desc, err)
				}
				logger = cfg.open()
			case 2, 3:
				limit = rapid.SampledFrom([]int{100000, 300000, 524288, 900000, mb - 1}).Draw(t, "limit")
				desc += fmt.Sprintf("limit %d; ", limit)
			case 4:
				limit = math.MaxInt64
				desc += "no limit; "
			default:
				n := drawSize(t)
				if n > max {
					n = max
				}
				if rapid.IntRange(0, 3).Draw(t, "fill") == 0 {
					n = max - size // just fits
				}
				desc += fmt.Sprintf("write %d; ", n)
				data := chunk(0, i, n)
				if size+n > max {
					rotations++
					size = 0
				}
				want := n
				if size+n > limit {
					want = limit - size
					if want < 0 {
						want = 0
					}
				}
				if limit != math.MaxInt64 {
					hz.Infra(syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: uint64(limit), Max: before.Max}))
				}
				written, err := logger.Write(data)
				lift()
				if written != want || (err == nil) != (want == n) {
					t.Fatalf("%s: write of %d bytes to %d with a limit of %d returned %d, %v", desc, n, size, limit, written, err)
				}
				after = after || short && n > 0
				short = short || want < n
				all = append(all, data[:want]...)
				size += want
			}
			c.Desc("%s", desc)
		}
		c.NonTrivial(short && after)
		got, backups := cfg.files(t, desc)
		if !bytes.Equal(got, all) {
			at := firstDiff(got, all)
			t.Fatalf("%s: files hold %d bytes, %d were accepted; first difference at %d", desc, len(got), len(all), at)
		}
		if backups != rotations {
			t.Fatalf("%s: %d backups, want %d", desc, backups, rotations)
		}
	})
}

// TestC25_huge: maxima that no file reaches.
func TestC25_huge(t *testing.T) {
	hz.Run(t, 200, "a maximum of 2^40 to 2^63-1 megabytes, on an existing file or not, and up to 5 writes, closes and rotations on request; non-trivial: at least two writes", func(t *rapid.T, c *hz.Case) {
		cfg := drawConfig(t)
		defer cfg.remove()
		cfg.maxSize = rapid.SampledFrom([]int{1 << 40, 1<<43 - 1, 1 << 43, 1<<43 + 1, 1 << 44, 1<<44 + 1, 3 << 43, math.MaxInt64 / 2, math.MaxInt64}).Draw(t, "maxSize")
		var all []byte
		desc := cfg.String() + ": "
		if rapid.Bool().Draw(t, "existing") {
			hz.Infra(os.MkdirAll(cfg.dir, 0755))
			all = append(all, chunk(9, 9, 2*mb)...)
			hz.Infra(ioutil.WriteFile(cfg.path(), all, 0644))
			desc += "existing; "
		}
		logger := cfg.open()
		defer logger.Close()
		rotations, writes := 0, 0
		for i := rapid.IntRange(1, 5).Draw(t, "steps"); i > 0; i-- {
			switch rapid.IntRange(0, 5).Draw(t, "op") {
			case 0:
				desc += "rotate; "
				if err := logger.Rotate(); err != nil {
					t.Fatalf("%s: %v", desc, err)
				}
				if len(all) > 0 || rotations > 0 {
					rotations++
				} else if _, n := cfg.files(t, desc); n > 0 {
					rotations = n
				}
			case 1:
				desc += "close; "
				if err := logger.Close(); err != nil {
					t.Fatalf("%s: %v", desc, err)
				}
			default:
				n := drawSize(t)
				desc += fmt.Sprintf("write %d; ", n)
				data := chunk(0, i, n)
				if written, err := logger.Write(data); err != nil || written != n {
					t.Fatalf("%s: write returned %d, %v", desc, written, err)
				}
				all = append(all, data...)
				writes++
			}
			c.Desc("%s", desc)
		}
		c.NonTrivial(writes > 1)
		got, backups := cfg.files(t, desc)
		if !bytes.Equal(got, all) || backups != rotations {
			t.Fatalf("%s: files hold %d bytes, %d were accepted; %d backups, want %d", desc, len(got), len(all), backups, rotations)
		}
	})
}

// asUser makes the file system see another user on this thread, as far as the
// process may do that. It tells whether permissions matter now.
func asUser(uid int, dir string) (limited bool, undo func()) {
	runtime.LockOSThread()
	undo = func() {
		syscall.Setfsgid(os.Getgid())
		syscall.Setfsuid(os.Getuid())
		runtime.UnlockOSThread()
	}
	syscall.Setfsgid(uid)
	syscall.Setfsuid(uid)
	probe := filepath.Join(dir, "probe")
	if f, err := os.Create(probe); err == nil {
		f.Close()
		os.Remove(probe)
		return false, undo
	}
	return true, undo
}

// TestC25_readonly: a directory in which nothing can be made or renamed at
// times.
func TestC25_readonly(t *testing.T) {
	hz.Run(t, 300, "up to 20 writes, rotations, closes and re-opens by an unprivileged user in a directory that may not be changed at times; non-trivial: permissions matter, a rotation failed and a write was accepted after it", func(t *rapid.T, c *hz.Case) {
		cfg := drawConfig(t)
		cfg.dir = filepath.Join(cfg.root(), "logs")
		defer cfg.remove()
		max := cfg.maxSize * mb
		const uid = 65534
		hz.Infra(os.MkdirAll(cfg.dir, 0755))
		hz.Infra(os.Chmod(filepath.Dir(cfg.dir), 0711))
		owned := os.Chown(cfg.dir, uid, uid) == nil
		hz.Infra(os.Chmod(cfg.dir, 0555))
		limited, undo := asUser(uid, cfg.dir)
		defer undo()
		if !limited || !owned {
			c.Desc("permissions do not matter here")
			return
		}
		locked := true
		lock := func(now bool) {
			locked = now
			mode := os.FileMode(0755)
			if locked {
				mode = 0555
			}
			hz.Infra(os.Chmod(cfg.dir, mode))
		}
		if _, err := ioutil.ReadDir(cfg.dir); err != nil {
			c.Desc("the directory is out of reach")
			return
		}
		lock(rapid.Bool().Draw(t, "locked"))
		var all []byte
		size, rotations := -1, 0
		desc := fmt.Sprintf("%s locked %v: ", cfg, locked)
		logger := cfg.open()
		defer func() { logger.Close() }()
		failed, after := false, false
		for i := rapid.IntRange(2, 20).Draw(t, "steps"); i > 0; i-- {
			switch rapid.IntRange(0, 9).Draw(t, "op") {
			case 0:
				desc += "rotate; "
				err := logger.Rotate()
				if (err != nil) != locked {
					t.Fatalf("%s: %v", desc, err)
				}
				if locked {
					failed = true
					break
				}
				if size != -1 {
					rotations++
				}
				size = 0
			case 1:
				desc += "close; "
				if err := logger.Close(); err != nil {
					t.Fatalf("%s: %v", desc, err)
				}
			case 2:
				desc += "reopen; "
				if err := logger.Close(); err != nil {
					t.Fatalf("%s: %v", desc, err)
				}
				logger = cfg.open()
			case 3, 4:
				lock(!locked)
				desc += fmt.Sprintf("locked %v; ", locked)
			default:
				n := drawSize(t)
				desc += fmt.Sprintf("write %d; ", n)
				data := chunk(0, i, n)
				written, err := logger.Write(data)
				fits := size != -1 && size+n <= max
				if n > max || locked && !fits {
					if err == nil || written != 0 {
						t.Fatalf("%s: write of %d bytes to %d of at most %d returned %d, %v", desc, n, size, max, written, err)
					}
					failed = true
					break
				}
				if err != nil || written != n {
					t.Fatalf("%s: write returned %d, %v", desc, written, err)
				}
				after = after || failed
				all = append(all, data...)
				if !fits {
					if size != -1 {
						rotations++
					}
					size = 0
				}
				size += n
			}
			c.Desc("%s", desc)
			got, backups := cfg.files(t, desc)
			if !bytes.Equal(got, all) || backups != rotations {
				at := firstDiff(got, all)
				t.Fatalf("%s: files hold %d bytes, %d were accepted, %d backups, want %d; first difference at %d", desc, len(got), len(all), backups, rotations, at)
			}
		}
		c.NonTrivial(failed && after)
	})
}
