package ljchk

import (
	"bytes"
	"compress/gzip"
	"fmt"
	"io/ioutil"
	"math"
	"os"
	"os/signal"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"
	"verifharness/hz"
)

func gzipped(data []byte) []byte {
	var buf bytes.Buffer
	w := gzip.NewWriter(&buf)
	w.Write(data)
	w.Close()
	return buf.Bytes()
}

// noise does not compress.
func noise(n int) []byte {
	data := make([]byte, n)
	x := uint32(1)
	for i := range data {
		x = x*1664525 + 1013904223
		data[i] = byte(x >> 24)
	}
	return data
}

// decoys are files that look like backups but are not.
func (cfg config) decoys(at time.Time) []string {
	ext := filepath.Ext(cfg.base)
	stem := strings.TrimSuffix(cfg.base, ext)
	stamp := at.In(cfg.location()).Format(cfg.layout())
	return []string{
		stem + "-" + stamp + ext + ".bak",
		stem + "-" + stamp + ext + ".gz.tmp",
		stem + "-x" + stamp + ext,
		stem + "-" + stamp + "x" + ext,
		stem + "-old-" + stamp + ext,
		"other-" + stem + "-" + stamp + ext,
		stem + stamp + ext,
		stem + "-" + stamp + "_" + ext,
		stem + "-" + stamp + "_x1" + ext,
		stem + "-" + stamp + "_-1" + ext,
		stem + "-" + stamp + ".txt",
		stem + "-" + ext,
		stem + ".1" + ext,
		cfg.base + ".gz",
		cfg.base + ".1",
		"-" + stamp + ext,
		strings.ToUpper(stem) + "-" + stamp + ext,
		strings.Title(stem) + "-" + stamp + ext + ".gz",
		stem + "-" + stamp + strings.ToUpper(ext),
		stem + "-" + stamp + ext + ".GZ",
		stem + "-" + stamp + " " + ext,
		stem + "- " + stamp + ext,
		stem + "--" + stamp + ext,
		stem + "_" + stamp + ext,
		stamp + ext,
		"notes.txt",
	}
}

// model of the directory with respect to retention.
type kept struct {
	name string // plain name
	at   time.Time
	seq  int
	data []byte

	stuck bool        // cannot be compressed
	mode  os.FileMode // if not 0: what the compressed file is to have
	owner int
}

// prepare fills the directory with backups and other files.
func prepare(t *rapid.T, cfg config, now time.Time, withGz bool) (old []kept, other map[string][]byte, desc string) {
	hz.Infra(os.MkdirAll(cfg.dir, 0755))
	other = map[string][]byte{}
	put := func(name string, data []byte) {
		hz.Infra(ioutil.WriteFile(filepath.Join(cfg.dir, name), data, 0644))
	}
	for i := rapid.IntRange(0, 7).Draw(t, "old"); i > 0; i-- {
		// ages in hours, never near a full number of days
		hours := rapid.SampledFrom([]int{2, 7, 12, 17, 22, 26, 31, 36, 41, 46, 50, 55, 60, 70, 74, 100, 500, 9000}).Draw(t, "hours")
		at := now.Add(-time.Duration(hours)*time.Hour - time.Duration(rapid.IntRange(0, 5).Draw(t, "min"))*time.Minute).Truncate(time.Second)
		index := 0
		for _, k := range old {
			if k.at.Equal(at) {
				index++
			}
		}
		k := kept{name: cfg.backup(at, index), at: at, seq: index, data: chunk(7, i, rapid.SampledFrom([]int{0, 10, 5000}).Draw(t, "size"))}
		old = append(old, k)
		desc += fmt.Sprintf("%s(-%dh)", k.name, hours)
		gz := withGz && rapid.IntRange(0, 2).Draw(t, "gz") == 0
		if gz {
			put(k.name+".gz", gzipped(k.data))
			desc += ".gz"
		} else {
			put(k.name, k.data)
		}
		// when a backup was last changed says nothing about its age
		path := filepath.Join(cfg.dir, k.name)
		if gz {
			path += ".gz"
		}
		desc += touch(t, path, now)
		desc += " "
	}
	if rapid.Bool().Draw(t, "decoys") {
		for _, name := range cfg.decoys(now.Add(-9000 * time.Hour)) {
			if _, ok := cfg.parse(name); ok || name == cfg.base {
				continue // a backup after all, for this file name
			}
			other[name] = []byte("decoy " + name)
			put(name, other[name])
			touch(t, filepath.Join(cfg.dir, name), now)
		}
		dir := cfg.backup(now.Add(-8000*time.Hour), 0)
		hz.Infra(os.Mkdir(filepath.Join(cfg.dir, dir), 0755))
		other[dir] = nil
		desc += "decoys "
	}
	return old, other, desc
}

// touch gives a file another time of its last change.
func touch(t *rapid.T, path string, now time.Time) string {
	hours := rapid.SampledFrom([]int{0, 0, 3, -1, -30, -100, -9500, 20000}).Draw(t, "changed")
	if hours == 0 {
		return ""
	}
	at := now.Add(time.Duration(hours) * time.Hour)
	hz.Infra(os.Chtimes(path, at, at))
	return fmt.Sprintf("(changed %+dh)", hours)
}

// expected tells which backups stay, given all of them.
func (cfg config) expected(all []kept, now time.Time) []kept {
	all = append([]kept{}, all...)
	sort.SliceStable(all, func(i, j int) bool { // newest first
		if !all[i].at.Equal(all[j].at) {
			return all[i].at.After(all[j].at)
		}
		return all[i].seq > all[j].seq
	})
	if cfg.maxBackups > 0 && len(all) > cfg.maxBackups {
		all = all[:cfg.maxBackups]
	}
	if cfg.maxAge > 0 && cfg.maxAge < 10000 { // nothing is that old
		var young []kept
		for _, k := range all {
			if now.Sub(k.at) < time.Duration(cfg.maxAge)*24*time.Hour {
				young = append(young, k)
			}
		}
		all = young
	}
	return all
}

// state reads the directory: name -> content, nil for directories.
func (cfg config) state() map[string][]byte {
	out := map[string][]byte{}
	infos, err := ioutil.ReadDir(cfg.dir)
	hz.Infra(err)
	for _, info := range infos {
		if info.IsDir() {
			out[info.Name()] = nil
			continue
		}
		data, err := ioutil.ReadFile(filepath.Join(cfg.dir, info.Name()))
		if err == nil {
			out[info.Name()] = data
		}
	}
	return out
}

// differs compares the directory with what it should hold.
func (cfg config) differs(want []kept, other map[string][]byte, current []byte) string {
	state := cfg.state()
	for name, data := range other {
		got, found := state[name]
		if !found {
			return fmt.Sprintf("GONE %s, which is no backup", name)
		}
		if !bytes.Equal(got, data) {
			return fmt.Sprintf("CHANGED %s, which is no backup", name)
		}
		delete(state, name)
	}
	got, found := state[cfg.base]
	if !found || !bytes.Equal(got, current) {
		return fmt.Sprintf("current file holds %s, want %s", show(got), show(current))
	}
	delete(state, cfg.base)
	for _, k := range want {
		plain, hasPlain := state[k.name]
		gz, hasGz := state[k.name+".gz"]
		switch {
		case !hasPlain && !hasGz:
			return fmt.Sprintf("GONE %s, which is to be kept", k.name)
		case k.stuck && !hasPlain:
			return fmt.Sprintf("GONE %s, which is to be kept", k.name)
		case hasPlain && !k.stuck && (cfg.compress || hasGz):
			return fmt.Sprintf("backup %s is there uncompressed", k.name)
		case hasPlain && !bytes.Equal(plain, k.data):
			return fmt.Sprintf("backup %s holds %s, want %s", k.name, show(plain), show(k.data))
		case hasGz:
			data, err := gunzip(gz)
			if err != nil || !bytes.Equal(data, k.data) {
				return fmt.Sprintf("backup %s.gz holds %s, want %s (%v)", k.name, show(data), show(k.data), err)
			}
			if k.mode != 0 {
				info, err := os.Stat(filepath.Join(cfg.dir, k.name+".gz"))
				if err != nil || info.Mode().Perm() != k.mode {
					return fmt.Sprintf("mode of %s.gz is not %v, that of the backup (%v, %v)", k.name, k.mode, info, err)
				}
				if uid := int(info.Sys().(*syscall.Stat_t).Uid); uid != k.owner {
					return fmt.Sprintf("owner of %s.gz is %d, not %d, that of the backup", k.name, uid, k.owner)
				}
			}
		}
		delete(state, k.name)
		delete(state, k.name+".gz")
	}
	for name := range state {
		return fmt.Sprintf("%s is still there", name)
	}
	return ""
}

// settle waits until the directory is as wanted and stays so.
func (cfg config) settle(want []kept, other map[string][]byte, current []byte) string {
	deadline := time.Now().Add(20 * time.Second)
	for {
		problem := cfg.differs(want, other, current)
		if problem == "" {
			time.Sleep(3 * time.Millisecond)
			return cfg.differs(want, other, current)
		}
		if strings.HasPrefix(problem, "GONE") && !cfg.compress || time.Now().After(deadline) {
			return problem
		}
		time.Sleep(time.Millisecond)
	}
}

// drive writes and rotates, and returns the new backups and the current content.
func drive(t *rapid.T, cfg config, old []kept) (all []kept, current []byte, desc string) {
	logger := cfg.open()
	defer logger.Close()
	all = append([]kept{}, old...)
	known := map[string]bool{}
	for _, k := range old {
		known[k.name] = true
	}
	write := func(size int) {
		data := chunk(1, len(all), size)
		desc += fmt.Sprintf("write %d; ", size)
		if _, err := logger.Write(data); err != nil {
			t.Fatalf("%s: %v", desc, err)
		}
		current = append(current, data...)
	}
	write(rapid.SampledFrom([]int{0, 10, 100000}).Draw(t, "first"))
	for i := rapid.IntRange(0, 4).Draw(t, "rotations"); i > 0; i-- {
		desc += "rotate; "
		before := time.Now()
		if err := logger.Rotate(); err != nil {
			t.Fatalf("%s: %v", desc, err)
		}
		// the name is not known for sure, its time is
		all = append(all, kept{at: before.Add(time.Hour), seq: len(all), data: current})
		current = nil
		if rapid.Bool().Draw(t, "more") {
			write(rapid.SampledFrom([]int{1, 2000, 100000}).Draw(t, "n"))
		}
	}
	return all, current, desc
}

// name finds the names of the backups that were made under way, which are
// those that are not older than the others.
func (cfg config) name(want []kept, old []kept) ([]kept, string) {
	known := map[string]bool{}
	for _, k := range old {
		known[k.name] = true
	}
	var fresh []string
	seen := map[string]bool{}
	for _, e := range cfg.backups() {
		if !known[e.name] && !seen[e.name] {
			seen[e.name] = true
			fresh = append(fresh, e.name)
		}
	}
	// newest first, like want
	n := len(fresh)
	out := append([]kept{}, want...)
	for i := range out {
		if out[i].name == "" {
			if n == 0 {
				return nil, "fewer new backups than there should be"
			}
			n--
			out[i].name = fresh[n]
		}
	}
	if n != 0 {
		return nil, fmt.Sprintf("%d new backups too many", n)
	}
	return out, ""
}

func (cfg config) settleAll(all, old []kept, other map[string][]byte, current []byte, now time.Time) string {
	deadline := time.Now().Add(20 * time.Second)
	for {
		want, problem := cfg.name(cfg.expected(all, now), old)
		if problem == "" {
			return cfg.settle(want, other, current)
		}
		if time.Now().After(deadline) {
			return problem
		}
		time.Sleep(time.Millisecond)
	}
}

// TestC26_retention: generated directories, limits and rotations.
func TestC26_retention(t *testing.T) {
	hz.Run(t, 1000, "directories with up to 7 backups (plain or compressed) of 2 hours to a year of age, files and directories with similar names, limits on number and age, then a write and up to 4 rotations; non-trivial: something has to go and something has to stay", func(t *rapid.T, c *hz.Case) {
		cfg := drawConfig(t)
		defer cfg.remove()
		cfg.maxBackups = rapid.SampledFrom([]int{0, 0, 1, 2, 3, 5, 100, math.MaxInt32, math.MaxInt64}).Draw(t, "maxBackups")
		cfg.maxAge = rapid.SampledFrom([]int{0, 0, 1, 2, 3, 30, 0, 1, 2, 3, 10000, 106751, 106752, 106753, 200000, 213504, math.MaxInt32, math.MaxInt64}).Draw(t, "maxAge")
		now := time.Now()
		old, other, desc := prepare(t, cfg, now, true)
		c.Desc("%s with %s", cfg, desc)
		all, current, ops := drive(t, cfg, old)
		c.Desc("%s with %s: %s", cfg, desc, ops)
		want := cfg.expected(all, now)
		c.NonTrivial(len(want) > 0 && len(want) < len(all))
		if problem := cfg.settleAll(all, old, other, current, now); problem != "" {
			t.Fatalf("%s\n%s with %s: %s", problem, cfg, desc, ops)
		}
	})
}

// TestC27_compress: the same with compression.
func TestC27_compress(t *testing.T) {
	hz.Run(t, 700, "directories with up to 7 backups, plain, compressed or with a partial compressed file left by an earlier attempt, then a write and up to 4 rotations with compression and limits; non-trivial: some backup has to be compressed", func(t *rapid.T, c *hz.Case) {
		cfg := drawConfig(t)
		defer cfg.remove()
		cfg.compress = true
		cfg.maxBackups = rapid.SampledFrom([]int{0, 0, 1, 3}).Draw(t, "maxBackups")
		cfg.maxAge = rapid.SampledFrom([]int{0, 0, 2}).Draw(t, "maxAge")
		now := time.Now()
		old, other, desc := prepare(t, cfg, now, true)
		for i := range old {
			k := &old[i]
			path := filepath.Join(cfg.dir, k.name)
			if _, err := os.Stat(path); err != nil {
				continue // compressed already
			}
			if rapid.Bool().Draw(t, "attributes") {
				k.mode = rapid.SampledFrom([]os.FileMode{0600, 0640, 0644, 0664, 0666}).Draw(t, "mode")
				k.owner = rapid.SampledFrom([]int{os.Getuid(), 12345}).Draw(t, "owner")
				hz.Infra(os.Chmod(path, k.mode))
				if os.Chown(path, k.owner, k.owner) != nil {
					k.owner = os.Getuid()
				}
				desc += fmt.Sprintf("%s: %v of %d ", k.name, k.mode, k.owner)
			}
			switch rapid.IntRange(0, 7).Draw(t, "partial") {
			case 0: // a directory is in the way
				k.stuck = true
				hz.Infra(os.MkdirAll(path+".gz/x", 0755))
				other[k.name+".gz"] = nil
				desc += "directory " + k.name + ".gz "
			case 1, 2:
				junk := rapid.SampledFrom([][]byte{nil, []byte("junk"), gzipped([]byte("something else")), gzipped(bytes.Repeat([]byte("x"), 20000))[:30], gzipped(noise(20000)), bytes.Repeat([]byte("junk"), 5000)}).Draw(t, "junk")
				hz.Infra(ioutil.WriteFile(filepath.Join(cfg.dir, k.name+".gz"), junk, 0644))
				desc += "partial " + k.name + ".gz "
			}
		}
		all, current, ops := drive(t, cfg, old)
		c.Desc("%s with %s: %s", cfg, desc, ops)
		want := cfg.expected(all, now)
		c.NonTrivial(len(want) > 0)
		if problem := cfg.settleAll(all, old, other, current, now); problem != "" {
			t.Fatalf("%s\n%s with %s: %s", problem, cfg, desc, ops)
		}
	})
}

// TestC27_contents: what is written comes out of the compressed files.
func TestC27_contents(t *testing.T) {
	hz.Run(t, 80, "up to 12 writes of up to 1 MB, rotations and re-opens with compression on; non-trivial: at least two backups", func(t *rapid.T, c *hz.Case) {
		cfg := drawConfig(t)
		defer cfg.remove()
		cfg.compress = true
		var all []byte
		desc := cfg.String() + ": "
		logger := cfg.open()
		for i := rapid.IntRange(2, 12).Draw(t, "steps"); i > 0; i-- {
			switch rapid.IntRange(0, 5).Draw(t, "op") {
			case 0, 1:
				desc += "rotate; "
				if err := logger.Rotate(); err != nil {
					t.Fatalf("%s: %v", desc, err)
				}
			case 2:
				desc += "reopen; "
				if err := logger.Close(); err != nil {
					t.Fatalf("%s: %v", desc, err)
				}
				logger = cfg.open()
			default:
				size := rapid.SampledFrom([]int{1, 1000, 70000, 600000, mb}).Draw(t, "size")
				data := chunk(2, i, size)
				desc += fmt.Sprintf("write %d; ", size)
				if _, err := logger.Write(data); err != nil {
					t.Fatalf("%s: %v", desc, err)
				}
				all = append(all, data...)
			}
			c.Desc("%s", desc)
		}
		// one more rotation, so that everything is milled once more
		if err := logger.Rotate(); err != nil {
			t.Fatalf("%s: %v", desc, err)
		}
		defer logger.Close()
		deadline := time.Now().Add(20 * time.Second)
		for {
			problem := ""
			var got []byte
			entries := cfg.backups()
			c.NonTrivial(len(entries) > 1)
			for _, e := range entries {
				if !e.gz {
					problem = e.name + " is not compressed"
					break
				}
				data, err := cfg.content(e)
				if err != nil {
					problem = fmt.Sprintf("%s: %v", e.name, err)
					break
				}
				got = append(got, data...)
			}
			if problem == "" && !bytes.Equal(got, all) {
				at := firstDiff(got, all)
				problem = fmt.Sprintf("compressed files hold %d bytes, %d were written; first difference at %d: got %s, want %s", len(got), len(all), at, show(got[at:]), show(all[at:]))
			}
			if problem == "" {
				return
			}
			if time.Now().After(deadline) {
				t.Fatalf("%s\n%s", problem, desc)
			}
			time.Sleep(time.Millisecond)
		}
	})
}

// TestC27_full: backups that cannot be compressed for now, as the compressed
// file may not get that large.
func TestC27_full(t *testing.T) {
	signal.Ignore(syscall.SIGXFSZ)
	var before syscall.Rlimit
	hz.Infra(syscall.Getrlimit(syscall.RLIMIT_FSIZE, &before))
	lift := func() { hz.Infra(syscall.Setrlimit(syscall.RLIMIT_FSIZE, &before)) }
	hz.Run(t, 120, "directories with up to 6 backups, compressible or not, some with a partial compressed file left by an earlier attempt, and a write while no file may grow beyond 1 to 100 kB, then a rotation without that limit; non-trivial: some can be compressed and some can not", func(t *rapid.T, c *hz.Case) {
		cfg := drawConfig(t)
		defer cfg.remove()
		defer lift()
		cfg.compress = true
		hz.Infra(os.MkdirAll(cfg.dir, 0755))
		now := time.Now()
		limit := rapid.SampledFrom([]int{1000, 50000, 100000}).Draw(t, "limit")
		desc := fmt.Sprintf("%s with files up to %d:", cfg, limit)
		var old []kept
		stuck := 0
		for i := rapid.IntRange(1, 6).Draw(t, "old"); i > 0; i-- {
			at := now.Add(-time.Duration(len(old)*5+2) * time.Hour).Truncate(time.Second)
			k := kept{name: cfg.backup(at, 0), at: at}
			switch rapid.IntRange(0, 3).Draw(t, "kind") {
			case 0:
				k.data = bytes.Repeat([]byte("compressible "), 15000)
			case 1:
				k.data = chunk(7, i, 300)
			default:
				k.data = noise(rapid.SampledFrom([]int{70000, 150000, 400000}).Draw(t, "noise"))
			}
			k.stuck = len(gzipped(k.data)) > limit
			if k.stuck {
				stuck++
			}
			old = append(old, k)
			path := filepath.Join(cfg.dir, k.name)
			hz.Infra(ioutil.WriteFile(path, k.data, 0644))
			desc += fmt.Sprintf(" %s of %d bytes (too large: %v)", k.name, len(k.data), k.stuck)
			if rapid.IntRange(0, 3).Draw(t, "partial") == 0 {
				hz.Infra(ioutil.WriteFile(path+".gz", gzipped(k.data)[:20], 0644))
				desc += " partial"
			}
		}
		c.Desc("%s", desc)
		c.NonTrivial(stuck > 0 && stuck < len(old))
		hz.Infra(syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: uint64(limit), Max: before.Max}))
		logger := cfg.open()
		defer logger.Close()
		current := []byte("x")
		if _, err := logger.Write(current); err != nil {
			t.Fatalf("%s: %v", desc, err)
		}
		// what is wanted is there at first and in between, too
		deadline := time.Now().Add(20 * time.Second)
		for calm := 0; calm < 4; calm++ {
			problem := cfg.settle(old, map[string][]byte{}, current)
			if problem != "" {
				calm = 0
				if time.Now().After(deadline) {
					t.Fatalf("%s\n%s", problem, desc)
				}
			}
		}
		lift()
		if err := logger.Rotate(); err != nil {
			t.Fatalf("%s: %v", desc, err)
		}
		all := append([]kept{}, old...)
		for i := range all {
			all[i].stuck = false
		}
		all = append(all, kept{at: time.Now().Add(time.Hour), data: current})
		if problem := cfg.settleAll(all, old, map[string][]byte{}, nil, now); problem != "" {
			t.Fatalf("without the limit: %s\n%s", problem, desc)
		}
	})
}
