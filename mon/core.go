package main

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// ---------------------------------------------------------------- random

// Rand is a small deterministic generator (splitmix64) so that a case depends
// on nothing but (seed, property, index).
type Rand struct{ s uint64 }

func NewRand(parts ...interface{}) *Rand {
	h := fnv.New64a()
	fmt.Fprint(h, parts...)
	r := &Rand{s: h.Sum64()}
	r.U64()
	r.U64()
	return r
}

func (r *Rand) U64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// N returns a number in [0,n).
func (r *Rand) N(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.U64() % uint64(n))
}

// In returns a number in [lo,hi].
func (r *Rand) In(lo, hi int) int { return lo + r.N(hi-lo+1) }

// P is true with probability a/b.
func (r *Rand) P(a, b int) bool { return r.N(b) < a }

func (r *Rand) Pick(xs ...int) int { return xs[r.N(len(xs))] }

func (r *Rand) Bytes(n int) []byte {
	b := make([]byte, n)
	var v uint64
	for i := range b {
		if i&7 == 0 {
			v = r.U64()
		}
		b[i] = byte(v)
		v >>= 8
	}
	return b
}

func (r *Rand) Fork() *Rand { return &Rand{s: r.U64()} }

// ---------------------------------------------------------------- cases

// Prop is one property's monitor: a fixed, enumerable list of cases.
type Prop struct {
	ID   string
	Race bool // children run the race-detector build
	// N gives the number of cases of a tier.
	N func(tier string) int
	// Run executes case i under observation.
	Run  func(c *C, i int)
	Rule string
	// Need lists counters which must be non-zero at the end: a run which
	// did not observe them is inconclusive.
	Need []string
	// CPULimit overrides the per-case non-termination bound (seconds).
	CPULimit float64
	// Shards overrides the number of child processes.
	Shards int
	// Variant names the build or environment a shard runs under: "" native,
	// "386" the GOARCH=386 build, "noclmul" native without carry-less multiply.
	Variant func(shard int) string
}

var props = map[string]*Prop{}

func register(p *Prop) { props[p.ID] = p }

type failure struct {
	Msg   string `json:"msg"`
	Stack string `json:"stack,omitempty"`
}

type failSentinel struct{}

// Stats is what a run observed.
type Stats struct {
	Evals    int64            `json:"evals"`
	Distinct map[uint64]bool  `json:"-"`
	DList    []uint64         `json:"distinct"`
	Counters map[string]int64 `json:"counters"`
	Max      map[string]int64 `json:"max"`
	Samples  []interface{}    `json:"samples"`
}

func newStats() *Stats {
	return &Stats{Distinct: map[uint64]bool{}, Counters: map[string]int64{}, Max: map[string]int64{}}
}

func (s *Stats) merge(o *Stats) {
	s.Evals += o.Evals
	for _, d := range o.DList {
		s.Distinct[d] = true
	}
	for k, v := range o.Counters {
		s.Counters[k] += v
	}
	for k, v := range o.Max {
		if v > s.Max[k] {
			s.Max[k] = v
		}
	}
	if len(s.Samples) < 24 {
		s.Samples = append(s.Samples, o.Samples...)
	}
}

// C is the context of one case.
type C struct {
	*Rand
	Prop  *Prop
	Tier  string
	Seed  uint64
	Idx   int
	mu    sync.Mutex
	stats *Stats
	fail  *failure
	notes []string
	incon string
}

func (c *C) Thorough() bool { return c.Tier == "thorough" }

// Note attaches a description to a possible failure.
func (c *C) Note(format string, v ...interface{}) {
	c.mu.Lock()
	c.notes = append(c.notes, fmt.Sprintf(format, v...))
	c.mu.Unlock()
}

// Errorf records a violation without unwinding (usable from any goroutine).
func (c *C) Errorf(format string, v ...interface{}) {
	msg := fmt.Sprintf(format, v...)
	c.mu.Lock()
	if c.fail == nil {
		if len(c.notes) > 0 {
			msg += "\n  case: " + strings.Join(c.notes, "; ")
		}
		c.fail = &failure{Msg: msg}
	}
	c.mu.Unlock()
}

// Failf records a violation and unwinds the case's own goroutine.
func (c *C) Failf(format string, v ...interface{}) {
	c.Errorf(format, v...)
	panic(failSentinel{})
}

func (c *C) Failed() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.fail != nil
}

func (c *C) Count(name string, n int) {
	c.mu.Lock()
	c.stats.Counters[name] += int64(n)
	c.mu.Unlock()
}

func (c *C) Max(name string, n int) {
	c.mu.Lock()
	if int64(n) > c.stats.Max[name] {
		c.stats.Max[name] = int64(n)
	}
	c.mu.Unlock()
}

// Eval counts one judged execution; key identifies it, and nontrivial says
// whether it counts towards distinct_nontrivial.
func (c *C) Eval(nontrivial bool, key ...interface{}) {
	h := fnv.New64a()
	fmt.Fprint(h, key...)
	c.mu.Lock()
	c.stats.Evals++
	if nontrivial {
		c.stats.Distinct[h.Sum64()] = true
	}
	c.mu.Unlock()
}

func (c *C) Sample(format string, v ...interface{}) {
	c.mu.Lock()
	if len(c.stats.Samples) < 2 {
		s := fmt.Sprintf(format, v...)
		if len(s) > 600 {
			s = s[:600] + "..."
		}
		c.stats.Samples = append(c.stats.Samples, s)
	}
	c.mu.Unlock()
}

func hashOf(b []byte) uint64 {
	h := fnv.New64a()
	h.Write(b)
	return h.Sum64()
}

// Catch runs f and returns the recovered panic value text, or "".
func Catch(f func()) (msg string) {
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(failSentinel); ok {
				panic(e)
			}
			msg = fmt.Sprintf("%v", e)
			if msg == "" {
				msg = "panic"
			}
		}
	}()
	f()
	return ""
}

// ---------------------------------------------------------------- goroutine monitor

type gInfo struct {
	id    string
	state string
	text  string
}

func goroutines() []gInfo {
	buf := make([]byte, 1<<18)
	for {
		n := runtime.Stack(buf, true)
		if n < len(buf) {
			buf = buf[:n]
			break
		}
		buf = make([]byte, 2*len(buf))
	}
	var out []gInfo
	for _, part := range strings.Split(string(buf), "\n\n") {
		if !strings.HasPrefix(part, "goroutine ") {
			continue
		}
		nl := strings.IndexByte(part, '\n')
		head := part
		if nl >= 0 {
			head = part[:nl]
		}
		lb, rb := strings.IndexByte(head, '['), strings.LastIndexByte(head, ']')
		if lb < 0 || rb < lb {
			continue
		}
		st := head[lb+1 : rb]
		if k := strings.IndexByte(st, ','); k >= 0 {
			st = st[:k]
		}
		out = append(out, gInfo{id: strings.TrimSpace(head[10:lb]), state: st, text: part})
	}
	return out
}

func blockedState(st string) bool {
	switch st {
	case "chan receive", "chan send", "select", "select (no cases)",
		"chan receive (nil chan)", "chan send (nil chan)",
		"sync.Cond.Wait", "sync.Mutex.Lock", "sync.RWMutex.Lock",
		"sync.RWMutex.RLock", "sync.WaitGroup.Wait":
		// not "semacquire": a goroutine that is about to start a garbage
		// collection shows that state while the snapshot itself holds the
		// runtime's semaphore
		return true
	}
	return strings.HasSuffix(st, " (durable)") && blockedState(strings.TrimSuffix(st, " (durable)"))
}

// monitorMark appears in the stacks of goroutines that only watch.
const monitorMark = "main.watchdogLoop"

// allBlocked reports whether, in one stop-the-world snapshot, every goroutine
// except the caller and the watchdog is blocked on a synchronization
// primitive.  As no timer is pending in such a state (the harness uses
// time.Sleep, whose state is "sleep", and never a timer channel), nothing but
// the caller can ever wake anything up: the state is stable.
func allBlocked() (bool, []gInfo) {
	gs := goroutines()
	for i, g := range gs {
		if i == 0 || strings.Contains(g.text, monitorMark) {
			continue // i==0 is the caller itself
		}
		if !blockedState(g.state) {
			return false, gs
		}
	}
	return true, gs
}

// Quiesce waits until nothing but the calling goroutine can make progress.
// It returns false if that does not happen within a very generous bound.
func Quiesce() bool {
	deadline := time.Now().Add(120 * time.Second)
	for k := 0; ; k++ {
		if k < 20 {
			for j := 0; j < 20; j++ {
				runtime.Gosched()
			}
		} else {
			time.Sleep(time.Millisecond)
		}
		if ok, _ := allBlocked(); ok {
			return true
		}
		if time.Now().After(deadline) {
			return false
		}
	}
}

// flateGoroutines lists goroutines that are executing code of the package
// under test (the harness's own goroutines call into it too; those have a
// frame of package main).
func flateGoroutines() []string {
	var out []string
	for i, g := range goroutines() {
		if i == 0 {
			continue
		}
		if strings.Contains(g.text, "chronos-tachyon/flate") && !strings.Contains(g.text, "\nmain.") {
			out = append(out, g.text)
		}
	}
	return out
}

// WaitNoFlate waits until no background goroutine of the package remains.
// A goroutine that is about to exit is given time; one that is blocked with
// nobody left to wake it is a leak.
func WaitNoFlate() []string {
	for k := 0; ; k++ {
		left := flateGoroutines()
		if len(left) == 0 {
			return nil
		}
		if ok, _ := allBlocked(); ok {
			// stable: whoever is left stays for ever
			if left = flateGoroutines(); len(left) != 0 {
				return left
			}
			return nil
		}
		if k > 20 {
			time.Sleep(time.Millisecond)
		} else {
			runtime.Gosched()
		}
		if k > 60000 {
			return left
		}
	}
}

// ---------------------------------------------------------------- child

type childMsg struct {
	Begin  *int     `json:"b,omitempty"`
	Fail   *failure `json:"f,omitempty"`
	Incon  string   `json:"i,omitempty"`
	Stats  *Stats   `json:"s,omitempty"`
	FailAt int      `json:"at,omitempty"`
}

var outMu sync.Mutex

func emit(m childMsg) {
	b, _ := json.Marshal(m)
	b = append(b, '\n')
	outMu.Lock()
	os.Stdout.Write(b)
	outMu.Unlock()
}

func cpuSeconds() float64 {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return float64(ru.Utime.Sec+ru.Stime.Sec) + float64(ru.Utime.Usec+ru.Stime.Usec)/1e6
}

var (
	curCase   atomic.Pointer[C]
	caseStart atomic.Int64 // unix nanos, 0 = none
	caseCPU   atomic.Uint64
	heapLimit = uint64(3 << 30)
)

func watchdogLoop() {
	blockedTicks := 0
	for {
		time.Sleep(500 * time.Millisecond)
		st := caseStart.Load()
		c := curCase.Load()
		if st == 0 || c == nil {
			blockedTicks = 0
			continue
		}
		wall := time.Since(time.Unix(0, st)).Seconds()
		if wall < 3 {
			blockedTicks = 0
			continue
		}
		var ms runtime.MemStats
		runtime.ReadMemStats(&ms)
		if ms.HeapAlloc > heapLimit {
			c.Errorf("memory exhaustion: heap grew to %d MiB", ms.HeapAlloc>>20)
			dieWith(c, "")
		}
		if ok, gs := allBlocked(); ok {
			blockedTicks++
			if blockedTicks >= 2 {
				var sb strings.Builder
				for _, g := range gs {
					if !strings.Contains(g.text, monitorMark) {
						sb.WriteString(g.text + "\n\n")
					}
				}
				c.Errorf("deadlock: every goroutine is blocked for ever")
				dieWith(c, sb.String())
			}
		} else {
			blockedTicks = 0
		}
		lim := c.Prop.CPULimit
		if lim == 0 {
			lim = 60
		}
		used := cpuSeconds() - float64(caseCPU.Load())/1000
		if used > lim {
			buf := make([]byte, 1<<16)
			n := runtime.Stack(buf, true)
			c.Errorf("no termination: case used %.0f s of CPU time (limit %.0f)", used, lim)
			dieWith(c, string(buf[:n]))
		}
		if wall > 400 {
			buf := make([]byte, 1<<16)
			n := runtime.Stack(buf, true)
			emit(childMsg{Incon: fmt.Sprintf("case %d made no visible progress for %.0f s\n%s", c.Idx, wall, buf[:n]), FailAt: c.Idx})
			os.Exit(4)
		}
	}
}

func dieWith(c *C, stack string) {
	c.mu.Lock()
	f := *c.fail
	c.mu.Unlock()
	f.Stack = stack
	if len(f.Stack) > 20000 {
		f.Stack = f.Stack[:20000]
	}
	emit(childMsg{Fail: &f, FailAt: c.Idx})
	os.Exit(5)
}

// watchCase puts a case under the watchdog.
func watchCase(c *C) {
	curCase.Store(c)
	caseCPU.Store(uint64(cpuSeconds() * 1000))
	caseStart.Store(time.Now().UnixNano())
}

func unwatchCase() { caseStart.Store(0) }

// slowTrace is for finding expensive cases.
var slowTrace = os.Getenv("VMON_SLOW") != ""

func runCase(p *Prop, tier string, seed uint64, idx int, st *Stats) *failure {
	c := &C{Rand: NewRand("case", seed, p.ID, idx), Prop: p, Tier: tier, Seed: seed, Idx: idx, stats: st}
	watchCase(c)
	func() {
		defer func() {
			if e := recover(); e != nil {
				if _, ok := e.(failSentinel); ok {
					return
				}
				st := string(debug.Stack())
				if harnessPanic(st) {
					c.incon = fmt.Sprintf("case %d: the harness itself panicked: %v (%s)\n%s", idx, e, strings.Join(c.notes, "; "), st)
					return
				}
				c.Errorf("panic: %v", e)
				c.mu.Lock()
				c.fail.Stack = st
				c.mu.Unlock()
			}
		}()
		t0 := time.Now()
		p.Run(c, idx)
		if d := time.Since(t0); slowTrace && d > time.Second {
			fmt.Fprintf(os.Stderr, "slow: %v case %d: %s\n", d, idx, strings.Join(c.notes, "; "))
		}
	}()
	unwatchCase()
	if c.incon != "" && c.fail == nil {
		emit(childMsg{Incon: c.incon, FailAt: idx})
		os.Exit(4)
	}
	return c.fail
}

// harnessPanic tells whether a recovered panic was raised by the harness's own
// code rather than by the package under test or a library it calls.
func harnessPanic(stack string) bool {
	lines := strings.Split(stack, "\n")
	seen := false
	for _, l := range lines {
		if strings.HasPrefix(l, "panic(") {
			seen = true
			continue
		}
		if !seen || l == "" || l[0] == '\t' || strings.HasPrefix(l, "runtime.") {
			continue
		}
		return strings.HasPrefix(l, "main.")
	}
	return false
}

func childMain(id, tier string, seed uint64, shard, nsh int) {
	debug.SetGCPercent(200)
	p := props[id]
	n := p.N(tier)
	st := newStats()
	go watchdogLoop()
	for i := shard; i < n; i += nsh {
		k := i
		emit(childMsg{Begin: &k})
		if f := runCase(p, tier, seed, i, st); f != nil {
			emit(childMsg{Fail: f, FailAt: i})
			os.Exit(5)
		}
	}
	for d := range st.Distinct {
		st.DList = append(st.DList, d)
	}
	sort.Slice(st.DList, func(a, b int) bool { return st.DList[a] < st.DList[b] })
	emit(childMsg{Stats: st})
	os.Exit(0)
}
