package ljchk

import (
	"bytes"
	"fmt"
	"io/ioutil"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"
	"verifharness/hz"
)

// TestC25_history: one logger after the other on the same file.
func TestC25_history(t *testing.T) {
	hz.Run(t, 500, "up to 25 writes of 0 to 2 MB, rotations, closes, re-opens (with and without close), and spells in which the directory is out of reach, on an existing or new file with a maximum of 1 or 2 MB; non-trivial: at least one rotation and two accepted writes", func(t *rapid.T, c *hz.Case) {
		cfg := drawConfig(t)
		defer cfg.remove()
		max := cfg.maxSize * mb
		began := time.Now()
		var all []byte // everything accepted
		size := -1     // of the current file, -1 if there is none
		var wantBackups int
		desc := cfg.String() + ": "
		mode := os.FileMode(0644)
		owner := os.Getuid()
		if rapid.Bool().Draw(t, "existing") {
			hz.Infra(os.MkdirAll(cfg.dir, 0755))
			size = rapid.SampledFrom([]int{0, 5, 600000, mb - 1, mb, mb + 100}).Draw(t, "existingSize")
			mode = rapid.SampledFrom([]os.FileMode{0600, 0640, 0644, 0664, 0666, 0755}).Draw(t, "mode")
			hz.Infra(ioutil.WriteFile(cfg.path(), chunk(9, 9, size), mode))
			hz.Infra(os.Chmod(cfg.path(), mode))
			if other := rapid.SampledFrom([]int{owner, owner, 12345}).Draw(t, "owner"); os.Chown(cfg.path(), other, other) == nil {
				owner = other
			}
			desc += touch(t, cfg.path(), time.Now())
			all = append(all, chunk(9, 9, size)...)
			desc += fmt.Sprintf("existing %d %v of %d; ", size, mode, owner)
		}
		oversized := size > max // it was there before
		logger := cfg.open()
		isOpen := false
		hidden := false
		accepted, rotations := 0, 0
		check := func() {
			entries := cfg.backups()
			var got []byte
			for i, e := range entries {
				data, err := cfg.content(e)
				if err != nil {
					t.Fatalf("%s: backup %s: %v", desc, e.name, err)
				}
				if e.at.Before(began.Add(-time.Second)) || e.at.After(time.Now()) {
					t.Fatalf("%s: backup %s is not named by the time of its rotation (%v to %v)", desc, e.name, began, time.Now())
				}
				if len(data) > max && !(oversized && i == 0) {
					t.Fatalf("%s: backup %s holds %d bytes, the maximum is %d", desc, e.name, len(data), max)
				}
				got = append(got, data...)
			}
			current, err := ioutil.ReadFile(cfg.path())
			if err != nil && !(os.IsNotExist(err) && size == -1) {
				t.Fatalf("%s: current file: %v", desc, err)
			}
			if len(current) > max && !(oversized && len(entries) == 0) {
				t.Fatalf("%s: current file holds %d bytes, the maximum is %d", desc, len(current), max)
			}
			got = append(got, current...)
			if !bytes.Equal(got, all) {
				at := firstDiff(got, all)
				t.Fatalf("%s: files hold %d bytes, %d were accepted; first difference at %d: got %s, want %s", desc, len(got), len(all), at, show(got[at:]), show(all[at:]))
			}
			if len(entries) != wantBackups {
				t.Fatalf("%s: %d backups, want %d", desc, len(entries), wantBackups)
			}
			if size != -1 {
				info, err := os.Stat(cfg.path())
				if err != nil || info.Mode().Perm() != mode {
					t.Fatalf("%s: mode of the current file is %v, want %v", desc, info.Mode(), mode)
				}
				if uid := int(info.Sys().(*syscall.Stat_t).Uid); uid != owner {
					t.Fatalf("%s: owner of the current file is %d, want %d", desc, uid, owner)
				}
			}
			infos, _ := ioutil.ReadDir(cfg.dir)
			others := len(infos) - len(entries)
			if size != -1 {
				others--
			}
			if others != 0 {
				t.Fatalf("%s: unexpected files: %v", desc, infos)
			}
		}
		away := cfg.dir + ".away"
		unhide := func() {
			if hidden {
				hz.Infra(os.Remove(cfg.dir))
				hz.Infra(os.Rename(away, cfg.dir))
				hidden = false
			}
		}
		defer unhide()
		for i := rapid.IntRange(2, 25).Draw(t, "steps"); i > 0; i-- {
			switch op := rapid.IntRange(0, 13).Draw(t, "op"); op {
			case 0:
				desc += "rotate; "
				c.Desc("%s", desc)
				err := logger.Rotate()
				if hidden {
					if err == nil {
						t.Fatalf("%s: rotation without a directory succeeded", desc)
					}
					isOpen = false
					continue
				}
				if err != nil {
					t.Fatalf("%s: %v", desc, err)
				}
				if size != -1 {
					wantBackups++
					rotations++
				}
				size, isOpen = 0, true
			case 1:
				desc += "close; "
				if err := logger.Close(); err != nil {
					t.Fatalf("%s: %v", desc, err)
				}
				isOpen = false
			case 2:
				if rapid.Bool().Draw(t, "clean") {
					desc += "close; "
					if err := logger.Close(); err != nil {
						t.Fatalf("%s: %v", desc, err)
					}
				} else {
					defer logger.Close() // as after a crash
				}
				desc += "reopen; "
				logger = cfg.open()
				isOpen = false
			case 3:
				if !hidden {
					if _, err := os.Stat(cfg.dir); err == nil {
						desc += "hide; "
						hz.Infra(os.Rename(cfg.dir, away))
						hz.Infra(ioutil.WriteFile(cfg.dir, nil, 0644))
						hidden = true
					}
				}
			case 4:
				if hidden {
					desc += "unhide; "
					unhide()
				}
			case 5:
				if !hidden {
					check()
				}
			default:
				n := drawSize(t)
				if fill := rapid.IntRange(-8, 1).Draw(t, "fill"); fill >= -1 && size >= 0 && size-fill <= max {
					n = max - size + fill // just fits, or just not
				}
				desc += fmt.Sprintf("write %d; ", n)
				c.Desc("%s", desc)
				data := chunk(0, i, n)
				keep := append([]byte{}, data...)
				written, err := logger.Write(data)
				if !bytes.Equal(data, keep) {
					t.Fatalf("%s: the caller's buffer was changed", desc)
				}
				if n > max {
					if err == nil || written != 0 {
						t.Fatalf("%s: write of %d bytes with a maximum of %d returned %d, %v", desc, n, max, written, err)
					}
					continue
				}
				fits := size >= 0 && size+n <= max
				if hidden && (!isOpen || !fits) {
					if err == nil {
						t.Fatalf("%s: write without a directory succeeded", desc)
					}
					isOpen = false
					continue
				}
				if err != nil || written != n {
					t.Fatalf("%s: write returned %d, %v", desc, written, err)
				}
				all = append(all, data...)
				accepted++
				switch {
				case size == -1:
					size = n
				case !fits:
					wantBackups++
					rotations++
					size = n
				default:
					size += n
				}
				isOpen = true
			}
		}
		unhide()
		c.Desc("%s", desc)
		c.NonTrivial(rotations > 0 && accepted > 1)
		check()
		if err := logger.Close(); err != nil {
			t.Fatalf("%s: close: %v", desc, err)
		}
		check()
	})
}

// TestC25_concurrent: many writers, and somebody who rotates.
func TestC25_concurrent(t *testing.T) {
	hz.Run(t, 60, "2 to 6 goroutines that write up to 30 chunks of up to 300 kB each to one logger while another one rotates and closes it now and then; non-trivial: there is more than one file in the end", func(t *rapid.T, c *hz.Case) {
		cfg := drawConfig(t)
		defer cfg.remove()
		max := cfg.maxSize * mb
		n := rapid.IntRange(2, 6).Draw(t, "goroutines")
		plans := make([][]int, n)
		for g := range plans {
			plans[g] = rapid.SliceOfN(rapid.SampledFrom([]int{20, 21, 33, 1000, 70000, 300000}), 1, 30).Draw(t, "sizes")
		}
		others := rapid.SliceOfN(rapid.SampledFrom([]string{"rotate", "close"}), 0, 8).Draw(t, "others")
		c.Desc("%s %v %v", cfg, plans, others)
		logger := cfg.open()
		problems := make(chan string, n+1)
		var wg sync.WaitGroup
		start := make(chan struct{})
		for g := range plans {
			wg.Add(1)
			go func(g int) {
				defer wg.Done()
				<-start
				for i, size := range plans[g] {
					data := line(g, i, size)
					k, err := logger.Write(data)
					if err != nil || k != len(data) {
						problems <- fmt.Sprintf("write of %d bytes returned %d, %v", len(data), k, err)
						return
					}
				}
			}(g)
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			for _, what := range others {
				var err error
				if what == "rotate" {
					err = logger.Rotate()
				} else {
					err = logger.Close()
				}
				if err != nil {
					problems <- fmt.Sprintf("%s: %v", what, err)
				}
			}
		}()
		close(start)
		wg.Wait()
		select {
		case p := <-problems:
			t.Fatalf("%s", p)
		default:
		}
		if err := logger.Close(); err != nil {
			t.Fatalf("close: %v", err)
		}
		entries := cfg.backups()
		c.NonTrivial(len(entries) > 0)
		next := make([]int, n)
		read := func(name string, data []byte) {
			if len(data) > max {
				t.Fatalf("%s holds %d bytes, the maximum is %d", name, len(data), max)
			}
			for len(data) > 0 {
				end := bytes.IndexByte(data, '\n')
				if end == -1 {
					t.Fatalf("%s ends in the middle of a write: %s", name, show(data))
				}
				one := data[:end+1]
				data = data[end+1:]
				var g, i int
				if k, _ := fmt.Sscanf(string(one), "<%d/%d>", &g, &i); k != 2 || g >= n || i >= len(plans[g]) || !bytes.Equal(one, line(g, i, plans[g][i])) {
					t.Fatalf("%s holds a write that is not whole: %s", name, show(one))
				}
				if next[g] != i {
					t.Fatalf("%s holds write %d of goroutine %d where %d is due", name, i, g, next[g])
				}
				next[g]++
			}
		}
		for _, e := range entries {
			data, err := cfg.content(e)
			if err != nil {
				t.Fatalf("%v", err)
			}
			read(e.name, data)
		}
		data, err := ioutil.ReadFile(cfg.path())
		if err != nil && !os.IsNotExist(err) {
			t.Fatalf("%v", err)
		}
		read(filepath.Base(cfg.path()), data)
		for g := range plans {
			if next[g] != len(plans[g]) {
				t.Fatalf("%d of %d writes of goroutine %d are there", next[g], len(plans[g]), g)
			}
		}
	})
}

func line(g, i, size int) []byte {
	head := fmt.Sprintf("<%d/%d>", g, i)
	return []byte(head + strings.Repeat(string(rune('a'+(g*3+i)%26)), size-len(head)-1) + "\n")
}
