package ljchk

import (
	"bytes"
	"compress/gzip"
	"fmt"
	"io/ioutil"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"testing"
	"time"

	"github.com/v2pro/plz/countlog/output/lumberjack"
	"pgregory.net/rapid"
	"verifharness/hz"
)

func TestMain(m *testing.M) { hz.Main(m) }

const mb = 1024 * 1024

// config of a logger.
type config struct {
	dir        string
	base       string // name of the file
	maxSize    int
	maxAge     int
	maxBackups int
	local      bool
	compress   bool
	format     string
}

const defaultFormat = "2006-01-02T15-04-05.000"

func (cfg config) String() string {
	return fmt.Sprintf("{%s size %d age %d backups %d local %v compress %v %q}", cfg.base, cfg.maxSize, cfg.maxAge, cfg.maxBackups, cfg.local, cfg.compress, cfg.format)
}

func (cfg config) path() string { return filepath.Join(cfg.dir, cfg.base) }

func (cfg config) open() *lumberjack.Logger {
	return &lumberjack.Logger{Filename: cfg.path(), MaxSize: cfg.maxSize, MaxAge: cfg.maxAge, MaxBackups: cfg.maxBackups, LocalTime: cfg.local, Compress: cfg.compress, BackupTimeFormat: cfg.format}
}

func (cfg config) layout() string {
	if cfg.format == "" {
		return defaultFormat
	}
	return cfg.format
}

func (cfg config) location() *time.Location {
	if cfg.local {
		return time.Local
	}
	return time.UTC
}

// name of a backup rotated at the given time.
func (cfg config) backup(at time.Time, index int) string {
	ext := filepath.Ext(cfg.base)
	name := strings.TrimSuffix(cfg.base, ext) + "-" + at.In(cfg.location()).Format(cfg.layout())
	if index > 0 {
		name += fmt.Sprintf("_%d", index)
	}
	return name + ext
}

// entry is one backup found.
type entry struct {
	name  string // without .gz
	gz    bool
	at    time.Time
	index int
}

// parse tells whether a file is a backup of this log.
func (cfg config) parse(name string) (entry, bool) {
	e, ok := cfg.parseAs(entry{name: name})
	if !ok && strings.HasSuffix(name, ".gz") {
		return cfg.parseAs(entry{name: strings.TrimSuffix(name, ".gz"), gz: true})
	}
	return e, ok
}

func (cfg config) parseAs(e entry) (entry, bool) {
	ext := filepath.Ext(cfg.base)
	prefix := strings.TrimSuffix(cfg.base, ext) + "-"
	if !strings.HasPrefix(e.name, prefix) || !strings.HasSuffix(e.name, ext) || len(e.name) < len(prefix)+len(ext) {
		return e, false
	}
	stamp := e.name[len(prefix) : len(e.name)-len(ext)]
	at, err := time.ParseInLocation(cfg.layout(), stamp, cfg.location())
	if err != nil {
		sep := strings.LastIndex(stamp, "_")
		if sep == -1 {
			return e, false
		}
		e.index, err = strconv.Atoi(stamp[sep+1:])
		if err != nil {
			return e, false
		}
		at, err = time.ParseInLocation(cfg.layout(), stamp[:sep], cfg.location())
		if err != nil {
			return e, false
		}
	}
	e.at = at
	return e, true
}

// backups lists the backups, oldest first.
func (cfg config) backups() []entry {
	infos, err := ioutil.ReadDir(cfg.dir)
	if os.IsNotExist(err) {
		return nil
	}
	hz.Infra(err)
	var entries []entry
	for _, info := range infos {
		if info.IsDir() || info.Name() == cfg.base {
			continue
		}
		if e, ok := cfg.parse(info.Name()); ok {
			entries = append(entries, e)
		}
	}
	sort.SliceStable(entries, func(i, j int) bool {
		if !entries[i].at.Equal(entries[j].at) {
			return entries[i].at.Before(entries[j].at)
		}
		return entries[i].index < entries[j].index
	})
	return entries
}

// content of a backup.
func (cfg config) content(e entry) ([]byte, error) {
	if !e.gz {
		return ioutil.ReadFile(filepath.Join(cfg.dir, e.name))
	}
	raw, err := ioutil.ReadFile(filepath.Join(cfg.dir, e.name+".gz"))
	if err != nil {
		return nil, err
	}
	return gunzip(raw)
}

func gunzip(raw []byte) ([]byte, error) {
	r, err := gzip.NewReader(bytes.NewReader(raw))
	if err != nil {
		return nil, err
	}
	return ioutil.ReadAll(r)
}

func drawConfig(t *rapid.T) config {
	root, err := ioutil.TempDir("", "lj")
	hz.Infra(err)
	return config{
		dir:     filepath.Join(root, rapid.SampledFrom([]string{"logs", "a/b"}).Draw(t, "dir")),
		base:    rapid.SampledFrom([]string{"app.log", "app", "my-app.server.log", "a_b.log", ".hidden", "app.gz", "日志 100%.log", "x.tar.gz", "a-2020-01-02T03-04-05.000.log"}).Draw(t, "base"),
		maxSize: rapid.SampledFrom([]int{1, 1, 1, 2}).Draw(t, "maxSize"),
		local:   rapid.Bool().Draw(t, "local"),
		format:  rapid.SampledFrom([]string{"", "", "2006-01-02T15-04-05", "20060102-150405.000000000", "2006_01_02_15_04_05"}).Draw(t, "format"),
	}
}

// root is the directory made for this case.
func (cfg config) root() string {
	root := cfg.dir
	for !strings.HasPrefix(filepath.Base(root), "lj") {
		root = filepath.Dir(root)
	}
	return root
}

func (cfg config) remove() { os.RemoveAll(cfg.root()) }

// chunk makes a recognizable write of the given size.
func chunk(g, i, size int) []byte {
	head := fmt.Sprintf("<%d/%d/%d>", g, i, size)
	buf := make([]byte, 0, size)
	for len(buf) < size {
		buf = append(buf, head...)
	}
	return buf[:size]
}

func show(data []byte) string {
	if len(data) > 60 {
		return fmt.Sprintf("%q... (%d bytes)", data[:60], len(data))
	}
	return fmt.Sprintf("%q", data)
}

func firstDiff(a, b []byte) int {
	for i := 0; i < len(a) && i < len(b); i++ {
		if a[i] != b[i] {
			return i
		}
	}
	if len(a) < len(b) {
		return len(a)
	}
	return len(b)
}

var sizes = []int{0, 1, 10, 1000, 70000, 300000, 524288, 700000, mb - 10, mb - 1, mb, mb + 1, 2 * mb, 2*mb + 1}

func drawSize(t *rapid.T) int {
	if rapid.IntRange(0, 2).Draw(t, "common") > 0 {
		return rapid.SampledFrom([]int{1, 10, 1000, 300000, 524288}).Draw(t, "size")
	}
	return rapid.SampledFrom(sizes).Draw(t, "size")
}
