package sinkchk

import (
	"errors"
	"fmt"
	"io"
	"os"
	"regexp"
	"strconv"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/v2pro/plz/countlog"
	"github.com/v2pro/plz/countlog/loglog"
	"github.com/v2pro/plz/countlog/output/async"
	"github.com/v2pro/plz/countlog/spi"
	"pgregory.net/rapid"
	"verifharness/hz"
)

var ownErrors struct {
	sync.Mutex
	list []string
}

func TestMain(m *testing.M) {
	null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	hz.Infra(err)
	os.Stderr = null
	loglog.Error = func(err error) {
		var text string
		if p := hz.NoPanic(func() { text = err.Error() }); p != nil {
			text = fmt.Sprintf("%T", err)
		}
		ownErrors.Lock()
		ownErrors.list = append(ownErrors.list, text)
		ownErrors.Unlock()
	}
	countlog.EventWriter = spi.FuncEventSink(func(site *spi.LogSite) spi.EventHandler { return toOwnLog{site} })
	hz.Main(m)
}

// under is the underlying writer.
type under struct {
	mu       sync.Mutex
	got      []string
	faults   []string
	gate     chan struct{} // writes wait for it to be closed
	entered  chan struct{} // closed when the first write has begun
	once     sync.Once
	pause    time.Duration
	active   int32
	problem  string
	closed   int
	closedAt int // number of writes seen when closed
	closeErr error
}

func (u *under) Write(p []byte) (int, error) {
	if atomic.AddInt32(&u.active, 1) != 1 {
		u.mu.Lock()
		u.problem = "two writes at the same time"
		u.mu.Unlock()
	}
	defer atomic.AddInt32(&u.active, -1)
	first := string(p)
	u.once.Do(func() { close(u.entered) })
	<-u.gate
	if u.pause > 0 {
		time.Sleep(u.pause)
	}
	u.mu.Lock()
	defer u.mu.Unlock()
	if string(p) != first {
		u.problem = fmt.Sprintf("message %q became %q during its write", first, p)
	}
	u.got = append(u.got, first)
	if len(u.faults) > 0 {
		fault := u.faults[0]
		u.faults = u.faults[1:]
		switch fault {
		case "error":
			return 0, errors.New("disk full")
		case "short":
			return len(p) / 2, io.ErrShortWrite
		case "panic":
			panic("writer panics")
		case "panicNasty":
			panic(nasty{2})
		case "errorNasty":
			return 0, nasty{2}
		}
	}
	return len(p), nil
}

type closable struct{ *under }

func (u closable) Close() error {
	u.mu.Lock()
	defer u.mu.Unlock()
	if atomic.LoadInt32(&u.active) != 0 {
		u.problem = "the underlying writer was closed while it was written to"
	}
	u.closed++
	u.closedAt = len(u.got)
	return u.closeErr
}

type asyncPlan struct {
	blocking  bool
	length    int
	producers [][]int // sizes of the messages
	pause     int     // of the underlying writer, in microseconds
	rest      int     // of the producers, in microseconds
	faults    []string
	gated     bool // nothing gets through until all is written
	closable  bool
	closeErr  bool
	lateOpen  bool // the gate opens only after close was called
}

func drawAsync(t *rapid.T) asyncPlan {
	p := asyncPlan{
		blocking: rapid.Bool().Draw(t, "blocking"),
		length:   rapid.SampledFrom([]int{0, 1, 2, 3, 5, 16, 100}).Draw(t, "length"),
		pause:    rapid.SampledFrom([]int{0, 0, 20, 300}).Draw(t, "pause"),
		rest:     rapid.SampledFrom([]int{0, 0, 10, 200}).Draw(t, "rest"),
		faults:   rapid.SliceOfN(rapid.SampledFrom([]string{"", "error", "short", "panic", "panicNasty", "errorNasty"}), 0, 6).Draw(t, "faults"),
		gated:    rapid.Bool().Draw(t, "gated"),
		closable: rapid.Bool().Draw(t, "closable"),
		closeErr: rapid.Bool().Draw(t, "closeErr"),
	}
	n := 1
	if !p.gated || rapid.Bool().Draw(t, "many") {
		n = rapid.IntRange(1, 5).Draw(t, "producers")
	}
	total := 0
	for i := 0; i < n; i++ {
		sizes := rapid.SliceOfN(rapid.SampledFrom([]int{0, 1, 10, 100, 3000}), 1, 30).Draw(t, "sizes")
		total += len(sizes)
		p.producers = append(p.producers, sizes)
	}
	if p.gated {
		p.lateOpen = rapid.Bool().Draw(t, "lateOpen")
		room := p.length
		if room == 0 {
			room = 1024
		}
		if p.blocking && total > room {
			p.length = 100
			for i := range p.producers {
				if len(p.producers[i]) > 20 {
					p.producers[i] = p.producers[i][:20]
				}
			}
		}
	}
	return p
}

func messageOf(g, i, size int) string {
	text := fmt.Sprintf("%d/%d:", g, i)
	for len(text) < size {
		text += string(rune('a' + (g*5+i)%26))
	}
	return text + "."
}

// run drives one async writer and returns what is wrong with it.
func (p asyncPlan) run() (problem string) {
	u := &under{faults: append([]string{}, p.faults...), gate: make(chan struct{}), entered: make(chan struct{}), pause: time.Duration(p.pause) * time.Microsecond}
	if p.closeErr {
		u.closeErr = errors.New("can not close")
	}
	var dropMu sync.Mutex
	dropped := map[string]int{}
	cfg := async.AsyncWriterConfig{QueueLength: p.length, Writer: u, IsQueueBlocking: p.blocking, OnMessageDropped: func(msg []byte) {
		dropMu.Lock()
		dropped[string(msg)]++
		dropMu.Unlock()
	}}
	if p.closable {
		cfg.Writer = closable{u}
	}
	room := p.length
	if room == 0 {
		room = 1024
	}
	w := async.NewAsyncWriter(cfg)
	opened := false
	open := func() {
		if !opened {
			opened = true
			close(u.gate)
		}
	}
	defer open()
	if !p.gated {
		open()
	}
	write := func(msg string, buf []byte) string {
		buf = append(buf[:0], msg...)
		n, err := w.Write(buf)
		if err != nil || n != len(msg) {
			return fmt.Sprintf("write of %d bytes returned %d, %v", len(msg), n, err)
		}
		for i := range buf { // it is the caller's again
			buf[i] = '#'
		}
		return ""
	}
	if p.gated {
		// the first message is on its way, the queue is empty again
		if problem := write("0/first:.", nil); problem != "" {
			return problem
		}
		select {
		case <-u.entered:
		case <-time.After(30 * time.Second):
			return "a message is not delivered within 30 s"
		}
	}
	var wg sync.WaitGroup
	problems := make([]string, len(p.producers))
	for g := range p.producers {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			buf := make([]byte, 0, 4000)
			for i, size := range p.producers[g] {
				if problem := write(messageOf(g, i, size), buf); problem != "" {
					problems[g] = problem
				}
				time.Sleep(time.Duration(p.rest) * time.Microsecond)
			}
		}(g)
	}
	written := make(chan struct{})
	go func() {
		wg.Wait()
		close(written)
	}()
	select {
	case <-written:
	case <-time.After(40 * time.Second):
		if !p.blocking {
			return "a write to a non-blocking queue blocks"
		}
		return "writes to a queue with room block"
	}
	for _, problem := range problems {
		if problem != "" {
			return problem
		}
	}
	total := 0
	for _, sizes := range p.producers {
		total += len(sizes)
	}
	drops := func() int {
		dropMu.Lock()
		defer dropMu.Unlock()
		n := 0
		for _, count := range dropped {
			n += count
		}
		return n
	}
	if p.gated && !p.blocking {
		want := total - room
		if want < 0 {
			want = 0
		}
		if got := drops(); got != want {
			return fmt.Sprintf("%d messages for a queue of %d, %d were dropped, want %d", total, room, got, want)
		}
	}
	if !p.lateOpen {
		open()
	} else {
		timer := time.AfterFunc(130*time.Millisecond, open)
		defer timer.Stop()
	}
	start := time.Now()
	var err error
	closed := make(chan struct{})
	go func() {
		defer close(closed)
		err = w.Close()
	}()
	select {
	case <-closed:
	case <-time.After(60 * time.Second):
		return "close hangs"
	}
	took := time.Since(start)
	u.mu.Lock()
	defer u.mu.Unlock()
	if u.problem != "" {
		return u.problem
	}
	if p.closable {
		if u.closed != 1 {
			return fmt.Sprintf("the underlying writer was closed %d times", u.closed)
		}
		if u.closedAt != len(u.got) {
			return "the underlying writer was closed before the last write"
		}
		if err != u.closeErr {
			return fmt.Sprintf("close returned %v, the underlying writer %v", err, u.closeErr)
		}
	} else if err != nil {
		return fmt.Sprintf("close returned %v", err)
	}
	if p.blocking && drops() > 0 {
		return "a blocking queue dropped messages"
	}
	seen := map[string]int{}
	for _, msg := range u.got {
		seen[msg]++
	}
	if p.gated {
		if seen["0/first:."] != 1 {
			return fmt.Sprintf("the first message was written %d times", seen["0/first:."])
		}
		delete(seen, "0/first:.")
	}
	last := make([]int, len(p.producers))
	for g := range last {
		last[g] = -1
	}
	for _, msg := range u.got {
		var g, i int
		if n, _ := fmt.Sscanf(msg, "%d/%d:", &g, &i); n == 2 && g < len(last) {
			if i <= last[g] {
				return fmt.Sprintf("message %d of producer %d is written after %d", i, g, last[g])
			}
			last[g] = i
		}
	}
	slow := took > 900*time.Millisecond // close gives up after a second
	for g, sizes := range p.producers {
		for i, size := range sizes {
			msg := messageOf(g, i, size)
			n := seen[msg] + dropped[msg]
			if n > 1 || n == 0 && !slow {
				return fmt.Sprintf("message %d/%d was written %d times and dropped %d times (close took %v)", g, i, seen[msg], dropped[msg], took)
			}
			delete(seen, msg)
			delete(dropped, msg)
		}
	}
	if len(seen) > 0 || len(dropped) > 0 {
		return fmt.Sprintf("messages nobody wrote: delivered %.300v, dropped %.300v", seen, dropped)
	}
	return ""
}

// TestC17_slow: what is queued takes most of the second that close gives it,
// or one write alone takes longer.
func TestC17_slow(t *testing.T) {
	hz.Run(t, 2, "16 asynchronous writers over slow ones, closed when what is queued needs 0.2 to 0.75 seconds, or when a write that takes 0.5 to 2.5 seconds is under way; non-trivial: all", func(t *rapid.T, c *hz.Case) {
		type plan struct {
			blocking  bool
			messages  int
			each      time.Duration
			long      bool
			closeable bool
		}
		var plans []plan
		for i := 0; i < 16; i++ {
			p := plan{blocking: rapid.Bool().Draw(t, "blocking"), closeable: true}
			if i < 6 {
				p.long = true
				p.each = time.Duration(rapid.IntRange(500, 2500).Draw(t, "ms")) * time.Millisecond
				p.messages = 1
			} else {
				p.messages = rapid.IntRange(2, 40).Draw(t, "messages")
				p.each = time.Duration(rapid.IntRange(200, 750).Draw(t, "ms")) * time.Millisecond / time.Duration(p.messages)
				p.closeable = rapid.Bool().Draw(t, "closable")
			}
			plans = append(plans, p)
		}
		c.Desc("%+v", plans)
		c.NonTrivial(true)
		problems := make([]string, len(plans))
		var wg sync.WaitGroup
		for i := range plans {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				p := plans[i]
				u := &under{gate: make(chan struct{}), entered: make(chan struct{}), pause: p.each}
				cfg := async.AsyncWriterConfig{QueueLength: 50, Writer: u, IsQueueBlocking: p.blocking}
				if p.closeable {
					cfg.Writer = closable{u}
				}
				w := async.NewAsyncWriter(cfg)
				for m := 0; m < p.messages; m++ {
					w.Write([]byte(fmt.Sprintf("message %d", m)))
				}
				<-u.entered
				close(u.gate)
				start := time.Now()
				if err := w.Close(); err != nil {
					problems[i] = fmt.Sprintf("close: %v", err)
				}
				took := time.Since(start)
				u.mu.Lock()
				defer u.mu.Unlock()
				switch {
				case u.problem != "":
					problems[i] = u.problem
				case p.closeable && (u.closed != 1 || u.closedAt != len(u.got)):
					problems[i] = fmt.Sprintf("the underlying writer was closed %d times, when %d of %d messages had been written", u.closed, u.closedAt, len(u.got))
				case len(u.got) != p.messages && (p.long || took < 950*time.Millisecond):
					problems[i] = fmt.Sprintf("%d of %d messages had been written when close returned after %v", len(u.got), p.messages, took)
				}
			}(i)
		}
		wg.Wait()
		for i, problem := range problems {
			if problem != "" {
				t.Fatalf("%s\nwriter: %+v", problem, plans[i])
			}
		}
	})
}

// TestC17_async: several independent writers per case, as each close takes a
// tenth of a second.
func TestC17_async(t *testing.T) {
	hz.Run(t, 60, "8 asynchronous writers per case, blocking or not, with queues of 1 to 100 (or the default), 1 to 5 producers of up to 30 messages, an underlying writer that pauses, fails, panics or holds everything up until all is written or the close is under way; non-trivial: some writer has two producers, a fault or more messages than room", func(t *rapid.T, c *hz.Case) {
		var plans []asyncPlan
		for i := 0; i < 8; i++ {
			p := drawAsync(t)
			plans = append(plans, p)
			total := 0
			for _, sizes := range p.producers {
				total += len(sizes)
			}
			c.NonTrivial(len(p.producers) > 1 || len(p.faults) > 0 || p.length > 0 && total > p.length)
		}
		c.Desc("%+v", plans)
		problems := make([]string, len(plans))
		var wg sync.WaitGroup
		for i := range plans {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				if p := hz.NoPanic(func() { problems[i] = plans[i].run() }); p != nil {
					problems[i] = fmt.Sprint("panic: ", p)
				}
			}(i)
		}
		wg.Wait()
		for i, problem := range problems {
			if problem != "" {
				t.Fatalf("%s\nwriter: %+v", problem, plans[i])
			}
		}
	})
}

var soFar = regexp.MustCompile(`\d+`)

// TestC17_drops: what is reported when no callback is configured.
func TestC17_drops(t *testing.T) {
	hz.Run(t, 15, "a non-blocking writer without callback whose queue is full, and 1 to 4 producers that write up to 4000 more messages; non-trivial: more than 1000 are dropped", func(t *rapid.T, c *hz.Case) {
		length := rapid.IntRange(1, 5).Draw(t, "length")
		producers := rapid.IntRange(1, 4).Draw(t, "producers")
		each := rapid.SampledFrom([]int{1, 400, 999, 1000, 1001, 1500, 2000}).Draw(t, "each")
		c.Desc("queue of %d, %d producers of %d messages", length, producers, each)
		c.NonTrivial(producers*each > 1000)
		ownErrors.Lock()
		ownErrors.list = nil
		ownErrors.Unlock()
		u := &under{gate: make(chan struct{}), entered: make(chan struct{})}
		w := async.NewAsyncWriter(async.AsyncWriterConfig{QueueLength: length, Writer: u})
		w.Write([]byte("first"))
		<-u.entered
		for i := 0; i < length; i++ {
			w.Write([]byte("fill"))
		}
		var wg sync.WaitGroup
		for g := 0; g < producers; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := 0; i < each; i++ {
					w.Write([]byte("more"))
				}
			}()
		}
		wg.Wait()
		ownErrors.Lock()
		list := append([]string{}, ownErrors.list...)
		ownErrors.Unlock()
		close(u.gate)
		w.Close()
		dropped := producers * each
		want := map[int]bool{}
		for n := 1; n <= dropped; n += 1000 {
			want[n] = true
		}
		if len(list) != len(want) {
			t.Fatalf("%d dropped messages made the reports %q", dropped, list)
		}
		for _, report := range list {
			n, _ := strconv.Atoi(soFar.FindString(report))
			if !want[n] {
				t.Fatalf("%d dropped messages made the reports %q", dropped, list)
			}
			delete(want, n)
		}
		if len(u.got) != length+1 {
			t.Fatalf("%d messages were accepted, %d delivered", length+1, len(u.got))
		}
	})
}
