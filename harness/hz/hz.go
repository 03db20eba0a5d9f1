// Package hz is the common part of all property harnesses: it runs a rapid
// property, counts what was generated, notices hangs and runaway memory, and
// leaves behind a description of the case under way so that even a crash of
// the whole process can be attributed to one case.
package hz

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"io/ioutil"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// Case is one generated case of one property.
type Case struct {
	st         *stats
	desc       string
	nontrivial bool
}

type stats struct {
	Test        string           `json:"test"`
	Rule        string           `json:"rule"`
	Evaluations int64            `json:"evaluations"`
	Nontrivial  int64            `json:"nontrivial"`
	Distinct    int64            `json:"distinct_nontrivial"`
	Labels      map[string]int64 `json:"labels"`
	Samples     []string         `json:"samples"`
	seen        map[uint64]struct{}
}

var (
	mu        sync.Mutex
	all       []*stats
	caseStart int64 // unix nano, 0 = no case under way
	curTest   atomic.Value
	curDesc   atomic.Value
	caseFile  *os.File
	hang      = time.Duration(envInt("VERIF_HANG", 90)) * time.Second
	memLimit  = int64(envInt("VERIF_MEM_MB", 8000)) << 20
)

func envInt(name string, def int) int {
	v, err := strconv.Atoi(os.Getenv(name))
	if err != nil {
		return def
	}
	return v
}

// Thorough tells the tier.
func Thorough() bool { return os.Getenv("VERIF_TIER") == "thorough" }

// Infra ends the process with an error that is the harness's own.
func Infra(err error) {
	if err != nil {
		fmt.Printf("VERIF-INFRA %v\n", err)
		os.Exit(96)
	}
}

// Main is called from TestMain.
func Main(m *testing.M) {
	flag.Parse()
	seed := envInt("VERIF_SEED", 1)
	if seed <= 0 {
		seed = 0x5eed + -seed
	}
	Infra(flag.Set("rapid.seed", strconv.Itoa(seed)))
	if name := os.Getenv("VERIF_CASE"); name != "" {
		f, err := os.OpenFile(name, os.O_CREATE|os.O_RDWR|os.O_TRUNC, 0644)
		Infra(err)
		caseFile = f
	}
	go watchdog()
	code := m.Run()
	writeStats()
	os.Exit(code)
}

func watchdog() {
	for {
		time.Sleep(250 * time.Millisecond)
		started := atomic.LoadInt64(&caseStart)
		if started == 0 {
			continue
		}
		if time.Since(time.Unix(0, started)) > hang {
			abort("VERIF-HANG", fmt.Sprintf("case still running after %v", hang))
		}
		if rss() > memLimit {
			abort("VERIF-RUNAWAY", fmt.Sprintf("process grew beyond %d MB", memLimit>>20))
		}
	}
}

func abort(kind string, msg string) {
	test, _ := curTest.Load().(string)
	desc, _ := curDesc.Load().(string)
	buf := make([]byte, 1<<16)
	buf = buf[:runtime.Stack(buf, true)]
	fmt.Printf("%s test=%s %s\ncase: %s\n%s\n", kind, test, msg, desc, buf)
	os.Exit(97)
}

func rss() int64 {
	content, err := ioutil.ReadFile("/proc/self/statm")
	if err != nil {
		return 0
	}
	fields := strings.Fields(string(content))
	if len(fields) < 2 {
		return 0
	}
	pages, _ := strconv.ParseInt(fields[1], 10, 64)
	return pages * int64(os.Getpagesize())
}

// Run checks prop on generated cases, n of them in the quick tier and
// n*VERIF_MULT (default 20) of them in the thorough tier.
func Run(t *testing.T, n int, rule string, prop func(t *rapid.T, c *Case)) {
	t.Helper()
	if Thorough() {
		n *= envInt("VERIF_MULT", 20)
	}
	if v := envInt("VERIF_CHECKS", 0); v > 0 {
		n = v
	}
	Infra(flag.Set("rapid.checks", strconv.Itoa(n)))
	st := &stats{Test: t.Name(), Rule: rule, Labels: map[string]int64{}, seen: map[uint64]struct{}{}}
	mu.Lock()
	all = append(all, st)
	mu.Unlock()
	curTest.Store(t.Name())
	rapid.Check(t, func(rt *rapid.T) {
		c := &Case{st: st}
		debug.SetPanicOnFault(true)
		atomic.StoreInt64(&caseStart, time.Now().UnixNano())
		done := false
		defer func() {
			atomic.StoreInt64(&caseStart, 0)
			if done {
				c.finish()
			}
		}()
		prop(rt, c)
		done = true
	})
}

// Desc describes the case in full; equal descriptions are the same case.
func (c *Case) Desc(format string, args ...interface{}) {
	c.desc = fmt.Sprintf(format, args...)
	curDesc.Store(c.desc)
	if caseFile != nil {
		test, _ := curTest.Load().(string)
		buf := test + ": " + c.desc
		if len(buf) > 1<<16 {
			buf = buf[:1<<16]
		}
		caseFile.WriteAt([]byte(fmt.Sprintf("%010d%s", len(buf), buf)), 0)
	}
}

// NonTrivial marks the case as non-trivial by the rule of the property.
func (c *Case) NonTrivial(yes bool) {
	c.nontrivial = c.nontrivial || yes
}

// Label counts a class of cases.
func (c *Case) Label(name string) {
	mu.Lock()
	c.st.Labels[name]++
	mu.Unlock()
}

func (c *Case) finish() {
	mu.Lock()
	defer mu.Unlock()
	st := c.st
	st.Evaluations++
	if !c.nontrivial {
		return
	}
	st.Nontrivial++
	h := fnv.New64a()
	h.Write([]byte(c.desc))
	sum := h.Sum64()
	if _, found := st.seen[sum]; found {
		return
	}
	st.seen[sum] = struct{}{}
	st.Distinct++
	// keep a few samples spread over the run
	if st.Distinct&(st.Distinct-1) == 0 && len(st.Samples) < 12 {
		desc := c.desc
		if len(desc) > 600 {
			desc = desc[:600] + "..."
		}
		st.Samples = append(st.Samples, strings.ToValidUTF8(desc, "\uFFFD"))
	}
}

func writeStats() {
	name := os.Getenv("VERIF_STATS")
	if name == "" {
		mu.Lock()
		for _, st := range all {
			var labels []string
			for k, v := range st.Labels {
				labels = append(labels, fmt.Sprintf("%s=%d", k, v))
			}
			sort.Strings(labels)
			fmt.Printf("%s evaluations=%d nontrivial=%d distinct=%d %v\n", st.Test, st.Evaluations, st.Nontrivial, st.Distinct, labels)
			if testing.Verbose() {
				for _, s := range st.Samples {
					fmt.Printf("    %s\n", s)
				}
			}
		}
		mu.Unlock()
		return
	}
	mu.Lock()
	defer mu.Unlock()
	content, err := json.Marshal(all)
	Infra(err)
	Infra(ioutil.WriteFile(name, content, 0644))
}

// NoPanic runs f and returns what it panicked with.
func NoPanic(f func()) (recovered interface{}) {
	defer func() {
		recovered = recover()
		if recovered != nil {
			recovered = fmt.Sprintf("%v\n%s", recovered, debug.Stack())
		}
	}()
	f()
	return nil
}
