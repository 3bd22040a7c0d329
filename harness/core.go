package harness

import (
	"encoding/json"
	"errors"
	"fmt"
	"hash/fnv"
	"math"
	"os"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"pgregory.net/rapid"
)

// Part is one generator/oracle pair deciding (a piece of) a property.
type Part struct {
	Prop, Name string
	Race       bool // run in the binary built with the race detector
	Stress     bool // outcome depends on the schedule: shrink by retrying
	Reps       int  // stress: executions per generated case
	Quick      int  // cases per run in the quick tier (over all shards)
	Thorough   int  // same for the thorough tier (default 15 x Quick)
	Rule       string
	gen        func(t *rapid.T) interface{}
	dec        func(b []byte) (interface{}, error)
	run        func(r *R, c interface{}) error
	shrink     func(c interface{}) []interface{}
}

// R collects what a run reports about its case.
type R struct {
	nontrivial bool
	labels     []string
	replay     bool
}

// NonTrivial marks the case as non-trivial according to the rule of the part.
func (r *R) NonTrivial() { r.nontrivial = true }

// Label counts a feature of the case.
func (r *R) Label(format string, a ...interface{}) {
	r.labels = append(r.labels, fmt.Sprintf(format, a...))
}

var errDiscard = errors.New("discarded")

// parts is the registry of all parts.
var parts []*Part

// Add registers a part.
func Add[C any](p Part, gen func(t *rapid.T) *C, run func(r *R, c *C) error) *Part {
	q := p
	q.gen = func(t *rapid.T) interface{} { return gen(t) }
	q.dec = func(b []byte) (interface{}, error) {
		c := new(C)
		err := json.Unmarshal(b, c)
		return c, err
	}
	q.run = func(r *R, c interface{}) error { return run(r, c.(*C)) }
	if q.Thorough == 0 {
		q.Thorough = 15 * q.Quick
	}
	if q.Reps == 0 {
		q.Reps = 1
	}
	parts = append(parts, &q)
	return &q
}

// WithShrink gives a stress part its candidates function.
func WithShrink[C any](p *Part, f func(c *C) []*C) {
	p.shrink = func(c interface{}) []interface{} {
		var out []interface{}
		for _, x := range f(c.(*C)) {
			out = append(out, x)
		}
		return out
	}
}

// Violation is a failure found.
type Violation struct {
	Property string          `json:"property"`
	Part     string          `json:"part"`
	Kind     string          `json:"kind"` // oracle, panic, race, deadlock, hang, fatal
	Message  string          `json:"message"`
	Case     json.RawMessage `json:"case"`
}

// PartResult is what a shard reports about a part.
type PartResult struct {
	Part       string         `json:"part"`
	Rule       string         `json:"rule"`
	Evals      int            `json:"evaluations"`
	Discards   int            `json:"discards"`
	Nontrivial int            `json:"nontrivial"`
	Labels     map[string]int `json:"labels"`
	Samples    []string       `json:"samples"`
	Skipped    int            `json:"skipped_by_deadline"`
	hashes     map[uint64]struct{}
	Hashes     []string `json:"hashes"`
}

// ShardResult is the result file of one worker process.
type ShardResult struct {
	Done      bool          `json:"done"`
	Error     string        `json:"error"`
	Parts     []*PartResult `json:"parts"`
	Violation *Violation    `json:"violation"`
}

type kindErr struct {
	kind string
	msg  string
}

func (e *kindErr) Error() string { return e.msg }

// shorten shortens a message about something very large.
func shorten(s string) string {
	if len(s) > 20000 {
		s = s[:10000] + "\n[...]\n" + s[len(s)-10000:]
	}
	return s
}

func failf(format string, a ...interface{}) error {
	return &kindErr{"oracle", shorten(fmt.Sprintf(format, a...))}
}

// safeRun runs the oracle on a case turning panics into errors.
func safeRun(p *Part, r *R, c interface{}) (err error) {
	before := raceErrors()
	defer func() {
		if x := recover(); x != nil {
			if ke, ok := x.(*kindErr); ok {
				err = ke
			} else {
				err = &kindErr{"panic", fmt.Sprintf("panic: %v\n%s", x, trimStack(debug.Stack()))}
			}
		}
		if err == nil && raceErrors() != before {
			err = &kindErr{"race", "data race reported by the race detector (see the report in the shard log)"}
		}
	}()
	return p.run(r, c)
}

// capturePanic runs f and returns what it panicked with.
func capturePanic(f func()) (p interface{}) {
	defer func() {
		if x := recover(); x != nil {
			if _, ok := x.(*kindErr); ok {
				panic(x)
			}
			p = x
		}
	}()
	f()
	return nil
}

func trimStack(b []byte) string {
	s := string(b)
	if len(s) > 3500 {
		s = s[:3500] + "..."
	}
	return s
}

// --- watchdog -------------------------------------------------------------

type progress struct {
	seq   atomic.Int64
	mu    sync.Mutex
	part  *Part
	js    []byte
	start time.Time
	cpu   time.Duration
}

var prog progress

func cpuTime() time.Duration {
	var ru syscall.Rusage
	if syscall.Getrusage(syscall.RUSAGE_SELF, &ru) != nil {
		return 0
	}
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

func (g *progress) begin(p *Part, js []byte) {
	g.mu.Lock()
	g.part, g.js, g.start, g.cpu = p, js, time.Now(), cpuTime()
	g.mu.Unlock()
	g.seq.Add(1)
}

func (g *progress) end() {
	g.mu.Lock()
	g.part = nil
	g.mu.Unlock()
	g.seq.Add(1)
}

var reHead = regexp.MustCompile(`^goroutine (\d+)(?: gp=\S+ m=\S+(?: mp=\S+)?)? \[([^\],(]+)`)

// lockWaiters analyses a dump of all goroutines: ids of the goroutines inside xcore
// which wait for a lock, and whether any goroutine inside xcore is in another state.
func lockWaiters(dump string) (ids []string, others int, text string) {
	for _, g := range strings.Split(dump, "\n\n") {
		if !strings.Contains(g, "github.com/webability-go/xcore") {
			continue
		}
		m := reHead.FindStringSubmatch(g)
		if m == nil {
			others++
			continue
		}
		switch strings.TrimSpace(m[2]) {
		case "sync.Mutex.Lock", "sync.RWMutex.Lock", "sync.RWMutex.RLock", "semacquire":
			ids = append(ids, m[1])
			text += g + "\n\n"
		default:
			others++
		}
	}
	sort.Strings(ids)
	return
}

func fullDump() string {
	buf := make([]byte, 4<<20)
	return string(buf[:runtime.Stack(buf, true)])
}

const (
	deadlockAfter = 6 * time.Second
	cpuLimit      = 150 * time.Second
	heapLimit     = 6 << 30
)

// watchdog reports a deadlock or a runaway of the current case through report, which
// must not return.
func watchdog(report func(v *Violation)) {
	for {
		time.Sleep(500 * time.Millisecond)
		prog.mu.Lock()
		p, js, start, cpu, seq := prog.part, prog.js, prog.start, prog.cpu, prog.seq.Load()
		prog.mu.Unlock()
		if p == nil || time.Since(start) < deadlockAfter {
			continue
		}
		same := func() bool { return prog.seq.Load() == seq }
		ids, others, text := lockWaiters(fullDump())
		if len(ids) > 0 && others == 0 {
			time.Sleep(2 * time.Second)
			ids2, others2, _ := lockWaiters(fullDump())
			if same() && others2 == 0 && strings.Join(ids, ",") == strings.Join(ids2, ",") {
				report(&Violation{p.Prop, p.Name, "deadlock", "every goroutine inside the code under test waits for a lock nobody holds any more:\n" + trimStack([]byte(text)), js})
			}
			continue
		}
		if same() && cpuTime()-cpu > cpuLimit {
			report(&Violation{p.Prop, p.Name, "hang", fmt.Sprintf("the case used more than %v of CPU time without finishing\n%s", cpuLimit, trimStack([]byte(fullDump()))), js})
		}
		var ms runtime.MemStats
		runtime.ReadMemStats(&ms)
		if same() && ms.HeapAlloc > heapLimit {
			report(&Violation{p.Prop, p.Name, "hang", "the case used more than 6 GB of memory without finishing", js})
		}
	}
}

// --- shard ------------------------------------------------------------------

func seedFor(base int64, prop, part string, shard int) uint64 {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d/%s/%s/%d", base, prop, part, shard)
	s := h.Sum64() & math.MaxInt64
	if s == 0 {
		s = 1
	}
	return s
}

type shard struct {
	res      *ShardResult
	out      string
	cur      *os.File
	deadline time.Time
}

func newShard(out string, deadline time.Time) (*shard, error) {
	f, err := os.OpenFile(filepath.Join(out, "current.json"), os.O_CREATE|os.O_RDWR|os.O_TRUNC, 0644)
	if err != nil {
		return nil, err
	}
	return &shard{res: &ShardResult{}, out: out, cur: f, deadline: deadline}, nil
}

func (s *shard) noteCurrent(p *Part, js []byte) {
	prog.begin(p, js)
	head := fmt.Sprintf("%s %s %d\n", p.Prop, p.Name, len(js))
	s.cur.WriteAt(append([]byte(head), js...), 0)
}

func (s *shard) write() {
	for _, p := range s.res.Parts {
		p.Hashes = p.Hashes[:0]
		for h := range p.hashes {
			p.Hashes = append(p.Hashes, fmt.Sprintf("%016x", h))
		}
		sort.Strings(p.Hashes)
	}
	b, _ := json.Marshal(s.res)
	tmp := filepath.Join(s.out, "result.tmp")
	os.WriteFile(tmp, b, 0644)
	os.Rename(tmp, filepath.Join(s.out, "result.json"))
}

// tb is the testing.TB given to rapid.
type tb struct {
	mu     sync.Mutex
	failed bool
	log    []string
}

func (t *tb) Helper()      {}
func (t *tb) Name() string { return "part" }
func (t *tb) Logf(format string, a ...interface{}) {
	t.mu.Lock()
	t.log = append(t.log, fmt.Sprintf(format, a...))
	t.mu.Unlock()
}
func (t *tb) Log(a ...interface{})                   { t.Logf("%s", fmt.Sprint(a...)) }
func (t *tb) Skipf(format string, a ...interface{})  { t.Logf(format, a...); runtime.Goexit() }
func (t *tb) Skip(a ...interface{})                  { t.Log(a...); runtime.Goexit() }
func (t *tb) SkipNow()                               { runtime.Goexit() }
func (t *tb) Errorf(format string, a ...interface{}) { t.Logf(format, a...); t.Fail() }
func (t *tb) Error(a ...interface{})                 { t.Log(a...); t.Fail() }
func (t *tb) Fatalf(format string, a ...interface{}) { t.Logf(format, a...); t.FailNow() }
func (t *tb) Fatal(a ...interface{})                 { t.Log(a...); t.FailNow() }
func (t *tb) FailNow()                               { t.Fail(); runtime.Goexit() }
func (t *tb) Fail()                                  { t.mu.Lock(); t.failed = true; t.mu.Unlock() }
func (t *tb) Failed() bool                           { t.mu.Lock(); defer t.mu.Unlock(); return t.failed }

func kindOf(err error) string {
	var ke *kindErr
	if errors.As(err, &ke) {
		return ke.kind
	}
	return "oracle"
}

// runPart searches for a failing case of a part.
func (s *shard) runPart(p *Part, checks int, seed uint64) (*Violation, error) {
	pr := &PartResult{Part: p.Name, Rule: p.Rule, Labels: map[string]int{}, hashes: map[uint64]struct{}{}}
	s.res.Parts = append(s.res.Parts, pr)
	setRapid(checks, seed)
	var best *Violation
	var bestCase interface{}
	var stopAt time.Time // end of shrinking
	failing := false

	exec := func(c interface{}, count bool) error {
		js, err := json.Marshal(c)
		if err != nil {
			return fmt.Errorf("harness: cannot encode case: %v", err)
		}
		s.noteCurrent(p, js)
		defer prog.end()
		r := &R{}
		reps := p.Reps
		for i := 0; i < reps; i++ {
			r.labels = r.labels[:0]
			err = safeRun(p, r, c)
			if err != nil {
				break
			}
		}
		if count {
			if err == errDiscard {
				pr.Discards++
				for _, l := range r.labels {
					pr.Labels[l]++
				}
				return nil
			}
			pr.Evals++
			for _, l := range r.labels {
				pr.Labels[l]++
			}
			if r.nontrivial {
				pr.Nontrivial++
				h := fnv.New64a()
				h.Write(js)
				pr.hashes[h.Sum64()] = struct{}{}
				n := pr.Nontrivial
				if len(pr.Samples) < 6 && (n <= 2 || n == 10 || n == 100 || n == 1000 || n == 5000) && len(js) < 6000 {
					pr.Samples = append(pr.Samples, string(js))
				}
			}
		}
		if err == errDiscard {
			return nil
		}
		if err != nil {
			v := &Violation{p.Prop, p.Name, kindOf(err), err.Error(), js}
			if best == nil || len(js) <= len(best.Case) {
				best, bestCase = v, c
			}
		}
		return err
	}

	t := &tb{}
	done := make(chan struct{})
	go func() {
		defer close(done)
		rapid.Check(t, func(rt *rapid.T) {
			if failing {
				if p.Stress || time.Now().After(stopAt) {
					return // rapid then stops shrinking
				}
			} else if time.Now().After(s.deadline) {
				pr.Skipped++
				return
			}
			c := p.gen(rt)
			if err := exec(c, !failing); err != nil {
				if !failing {
					failing = true
					stopAt = time.Now().Add(25 * time.Second)
				}
				rt.Fatalf("%s", kindOf(err))
			}
		})
	}()
	<-done
	if best != nil {
		if p.Stress && p.shrink != nil {
			s.stressShrink(p, exec, &best, &bestCase)
		}
		return best, nil
	}
	if t.Failed() {
		return nil, fmt.Errorf("rapid: %s", strings.Join(t.log, "\n"))
	}
	return nil, nil
}

// stressShrink greedily tries smaller cases, each several times.
func (s *shard) stressShrink(p *Part, exec func(interface{}, bool) error, best **Violation, bestCase *interface{}) {
	end := time.Now().Add(25 * time.Second)
	cur := *bestCase
	for progress := true; progress; {
		progress = false
		for _, cand := range p.shrink(cur) {
			if time.Now().After(end) {
				return
			}
			for i := 0; i < 15; i++ {
				if exec(cand, false) != nil {
					cur, progress = cand, true
					break
				}
			}
			if progress {
				break
			}
		}
	}
}
