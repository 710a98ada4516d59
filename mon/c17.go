package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"io/fs"
	"runtime"
	"sort"
	"sync"
	"sync/atomic"
	"time"

	"github.com/chronos-tachyon/flate"
)

func init() {
	register(&Prop{
		ID: "C17", Race: true, N: tierN(2400, 30000), Run: runC17,
		Rule: "case = one Writer shared by 2..8 goroutines running random Write/Flush/SetHeader/getter calls, one or two of them closing it at the end or in the middle, on a monitored sink (sometimes slow, sometimes failing), and every eighth case a Writer whose owner writes, closes and resets it to other settings while the others call the getters and SetHeader; the recorded history (logical invocation/response times, sink calls, events) is checked against the sequential specification. The binary is built with the race detector. evaluations = histories judged; distinct_nontrivial = distinct orders in which the calls' data came out, counted for histories with at least two goroutines writing",
		Need: []string{"writes", "flushes-judged", "headers-judged", "close-concurrent", "close-at-end", "err-closed", "sink-failures", "overlapping-calls", "huge-writes", "syncs", "streams>1", "recycled", "values-seen"},
	})
	register(&Prop{
		ID: "C18", Race: true, N: tierN(1800, 30000), Run: runC18,
		Rule: "case = one Reader shared by 2..8 goroutines calling Read (various sizes) and getters until they get an error; the recorded calls are checked by searching an order consistent with real time in which the chunks concatenate to the reference data; every sixth case: up to 12 goroutines wait in one small Read each, the source supplies enough for all and blocks again, and at rest all must have returned. The binary is built with the race detector. evaluations = histories judged; distinct_nontrivial = distinct orders found with at least two goroutines receiving data",
		Need: []string{"chunks", "eof", "other-errors", "with-close", "overlapping-calls", "getters", "woken-together"},
	})
	register(&Prop{
		ID: "C19", Race: true, N: tierN(1300, 40000), Run: runC19,
		Rule: "case = a Reader in some state (unused, running, blocked on its source, blocked on undelivered data, finished, failed) with 0..6 goroutines blocked in or running Read, on which Close and Reset are called from 1..4 goroutines; every goroutine must return (deadlocks are detected on the goroutine states), blocked Reads must get an error, no background goroutine may remain and no finished source may be read again. Race-detector build. evaluations = scenarios judged; distinct by (scenario, state, input, outcome); non-trivial: the Reader's goroutine had been started",
		Need: []string{"never-read", "drained", "failed", "blocked-close", "blocked-reset", "undelivered-close", "storm-close", "storm-reset", "storm-mixed", "reads-woken", "source-after-end", "waited-for-source"},
	})
}

var tick atomic.Int64

func now() int64 { return tick.Add(1) }

// jitter makes a goroutine lose its place now and then.
func jitter(r *Rand) {
	switch r.N(8) {
	case 0:
		runtime.Gosched()
	case 1:
		for k := r.N(2000); k > 0; k-- {
			_ = k
		}
	case 2:
		if r.P(1, 8) {
			time.Sleep(time.Duration(r.N(60)) * time.Microsecond)
		}
	}
}

// guard runs f in a goroutine-safe way: a panic of the package becomes a
// recorded violation instead of killing the process without context.
func guard(c *C, wg *sync.WaitGroup, f func()) {
	wg.Add(1)
	go func() {
		defer wg.Done()
		defer func() {
			if e := recover(); e != nil {
				if _, ok := e.(failSentinel); ok {
					return
				}
				c.Errorf("panic: %v\n%s", e, head(stackOf(), 4000))
			}
		}()
		f()
	}()
}

func stackOf() string {
	b := make([]byte, 1<<14)
	return string(b[:runtime.Stack(b, false)])
}

// ---------------------------------------------------------------- C17

type linSink struct {
	mu      sync.Mutex
	buf     []byte
	flushes []linFlush
	in      atomic.Int32
	overlap atomic.Int32
	slow    bool
	r       *Rand
	failAt  int // fail when this many bytes are exceeded, -1 never
	failed  bool
	syncs   atomic.Int32
	after   int
	last    atomic.Int64 // when it was last called
	prev    atomic.Int32 // the call before: 'w', 'f' or 's'
	split   atomic.Int32 // a Flush not directly followed by Sync, or a Sync alone
}

type linFlush struct {
	t   int64
	pos int
}

func (s *linSink) enter(kind int32) {
	s.last.Store(now())
	if p := s.prev.Swap(kind); (p == 'f') != (kind == 's') {
		s.split.Add(1)
	}
	if s.in.Add(1) != 1 {
		s.overlap.Add(1)
	}
}

func (s *linSink) Write(p []byte) (int, error) {
	s.enter('w')
	defer s.in.Add(-1)
	if s.slow && s.r.P(1, 6) {
		time.Sleep(time.Duration(s.r.N(30)) * time.Microsecond)
	} else if s.r.P(1, 4) {
		runtime.Gosched()
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.failed {
		s.after++
		return 0, errSink
	}
	if s.failAt >= 0 && len(s.buf)+len(p) > s.failAt {
		n := s.failAt - len(s.buf)
		s.buf = append(s.buf, p[:n]...)
		s.failed = true
		return n, errSink
	}
	s.buf = append(s.buf, p...)
	return len(p), nil
}

func (s *linSink) Flush() error {
	s.enter('f')
	defer s.in.Add(-1)
	if s.r.P(1, 4) {
		runtime.Gosched()
	}
	s.mu.Lock()
	s.flushes = append(s.flushes, linFlush{now(), len(s.buf)})
	s.mu.Unlock()
	return nil
}

func (s *linSink) Sync() error {
	s.enter('s')
	defer s.in.Add(-1)
	if s.slow && s.r.P(1, 3) {
		time.Sleep(time.Duration(s.r.N(100)) * time.Microsecond)
	} else if s.r.P(1, 4) {
		runtime.Gosched()
	}
	s.syncs.Add(1)
	return nil
}

type linOp struct {
	g, k     int
	kind     byte // 'W' 'F' 'H' 'C'
	inv, rsp int64
	err      error
	n        int
	size     int
	id       uint32
	ft       flate.FlushType
	pos      int // position of the data in the output, -1 = absent
}

type hdrSeen struct {
	t    int64
	name string
	comm string
}

// chunkOf builds the self-identifying payload of one Write.
func chunkOf(id uint32, n int, kind int) []byte {
	b := make([]byte, n)
	if n < 12 {
		panic("chunk too small")
	}
	binary.LittleEndian.PutUint32(b, id)
	binary.LittleEndian.PutUint32(b[4:], uint32(n))
	binary.LittleEndian.PutUint32(b[8:], id*2654435761+uint32(n))
	r := NewRand("chunk", id)
	for i := 12; i < n; i++ {
		switch kind {
		case 0:
			b[i] = byte(id)
		case 1:
			b[i] = byte(r.U64())
		default:
			b[i] = 'a' + byte((uint32(i)+id)%7)
		}
	}
	return b
}

// runRecycled: the owner uses a Writer for several streams in a row, with
// other settings each, while other goroutines look at it. Every value seen is
// one that was in effect at some moment of the call, and every stream is what
// the owner alone would have made.
func runRecycled(c *C, procs int) {
	rounds := c.In(2, 12)
	cfgs := make([]Cfg, rounds)
	for k := range cfgs {
		cfgs[k] = genCfg(c.Rand)
		cfgs[k].Mem = flate.MemoryLevel(c.Pick(1, 2, 3, 5))
		if k > 0 && c.P(1, 3) { // one setting differs
			cfg := cfgs[k-1]
			switch c.N(5) {
			case 0:
				cfg.Fmt = cfgs[k].Fmt
			case 1:
				cfg.Strat = cfgs[k].Strat
			case 2:
				cfg.Lvl = cfgs[k].Lvl
			case 3:
				cfg.WB = cfgs[k].WB
			default:
				cfg.Mem = cfgs[k].Mem
			}
			cfgs[k] = cfg
		}
	}
	c.Note("recycled: %d rounds, procs %d, first %v", rounds, procs, cfgs[0])
	names := []string{"Format", "Strategy", "CompressLevel", "MemoryLevel", "WindowBits", "Dict", "Tracers", "UnderlyingWriter"}
	get := func(fw *flate.Writer, k int) string {
		switch k {
		case 0:
			return fw.Format().String()
		case 1:
			return fw.Strategy().String()
		case 2:
			return fw.CompressLevel().String()
		case 3:
			return fw.MemoryLevel().String()
		case 4:
			return fw.WindowBits().String()
		case 5:
			return fmt.Sprintf("%x", hashOf(fw.Dict()))
		case 6:
			return fmt.Sprint(len(fw.Tracers()))
		default:
			return fmt.Sprintf("%p", fw.UnderlyingWriter())
		}
	}
	sinks := make([]*linSink, rounds)
	ntr := make([]int, rounds)
	want := make([][]string, rounds) // by round and getter
	opts := func(k int) []flate.Option {
		var tr []flate.Tracer
		for q := 0; q < ntr[k]; q++ {
			tr = append(tr, flate.TracerFunc(func(flate.Event) {}))
		}
		return append(cfgs[k].Opts(), flate.WithDictionary(cfgs[k].Dict), flate.WithTracers(tr...))
	}
	for k := range sinks {
		sinks[k] = &linSink{r: c.Rand.Fork(), failAt: -1, slow: c.P(1, 6)}
		ntr[k] = c.N(4)
		alone := flate.NewWriter(sinks[k], opts(k)...)
		for q := range names {
			want[k] = append(want[k], get(alone, q))
		}
	}
	from := make([]int64, rounds) // when the Reset to round k was called
	done := make([]int64, rounds) // ... and had returned
	type seen struct {
		k        int
		inv, rsp int64
		v        string
	}
	var mu sync.Mutex
	var all []seen
	var stop atomic.Bool
	var wg, owner sync.WaitGroup
	from[0] = now()
	fw := flate.NewWriter(sinks[0], opts(0)...)
	done[0] = now()
	for g := c.In(1, 4); g > 0; g-- {
		r := c.Rand.Fork()
		guard(c, &wg, func() {
			var mine []seen
			for n := 0; n < 4000 && !stop.Load(); n++ {
				o := seen{k: r.N(len(names)), inv: now()}
				o.v = get(fw, o.k)
				o.rsp = now()
				mine = append(mine, o)
				if r.P(1, 30) {
					if err := fw.SetHeader(flate.Header{Comment: "x"}); err != nil {
						c.Errorf("SetHeader: %v", err)
					}
				}
				jitter(r)
			}
			mu.Lock()
			all = append(all, mine...)
			mu.Unlock()
		})
	}
	r := c.Rand.Fork()
	datas := make([][]byte, rounds)
	for k := range datas {
		datas[k] = genData(r, r.N(8), r.Pick(0, 1, 50, 400, 3000))
	}
	guard(c, &owner, func() {
		defer stop.Store(true)
		for k := 0; k < rounds; k++ {
			if k > 0 {
				jitter(r)
				from[k] = now()
				fw.Reset(sinks[k], opts(k)...)
				done[k] = now()
			}
			for p := datas[k]; len(p) > 0; {
				n := 1 + r.N(len(p))
				if _, err := fw.Write(p[:n]); err != nil {
					c.Errorf("Write: %v", err)
				}
				p = p[n:]
				jitter(r)
			}
			if err := fw.Close(); err != nil {
				c.Errorf("Close: %v", err)
			}
		}
	})
	owner.Wait()
	wg.Wait()
	if c.Failed() {
		panic(failSentinel{})
	}
	for _, o := range all {
		ok := false
		for k := 0; k < rounds && !ok; k++ {
			// in effect from from[k]..done[k] to from[k+1]..done[k+1]
			if o.v == want[k][o.k] && from[k] < o.rsp && (k+1 == rounds || done[k+1] > o.inv) {
				ok = true
			}
		}
		if !ok {
			c.Failf("%s() returned %s, which no settings in effect during the call account for", names[o.k], o.v)
		}
	}
	for k := range cfgs {
		what := fmt.Sprintf("round %d (%v)", k, cfgs[k])
		refVerify(c, what, sinks[k].buf, RefOpt{Format: cfgs[k].RefFmt(), WBits: cfgs[k].EffWB(), Dict: cfgs[k].Dict}, datas[k])
	}
	c.Count("recycled", 1)
	c.Count("values-seen", len(all))
	c.Eval(len(all) > 0, "recycled", cfgs[0], rounds, hashOf(datas[0]))
}

func runC17(c *C, i int) {
	procs := []int{1, 2, 4, 8}[c.N(4)]
	defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(procs))
	if i%8 == 3 {
		runRecycled(c, procs)
		return
	}
	cfg := genCfg(c.Rand)
	cfg.Mem = flate.MemoryLevel(c.Pick(1, 2, 3, 5))
	if c.P(1, 2) {
		cfg.Fmt = flate.GZIPFormat
	}
	ng := c.In(2, 8)
	nops := c.In(3, 14)
	s := &linSink{slow: c.P(1, 3), r: c.Rand.Fork(), failAt: -1}
	closeMode := c.N(3) // 0 at the end, 1 concurrent, 2 two closers
	failing := i%6 == 5
	if failing {
		s.failAt = c.N(6000)
	}
	var hdrs []hdrSeen
	type hset struct {
		id       int
		inv, rsp int64
	}
	var hsets []hset
	var hmu sync.Mutex
	tr := flate.TracerFunc(func(e flate.Event) { // runs under the Writer's lock
		if e.Type == flate.StreamHeaderEvent {
			hdrs = append(hdrs, hdrSeen{now(), e.Header.FileName, e.Header.Comment})
		}
	})
	fw := flate.NewWriter(s, append(cfg.Opts(), flate.WithTracers(tr))...)
	want := writerSettings(fw)
	c.Note("%v, %d goroutines x %d ops, close mode %d, procs %d, failAt %d", cfg, ng, nops, closeMode, procs, s.failAt)
	var mu sync.Mutex
	var hist []linOp
	rec := func(o linOp) { mu.Lock(); hist = append(hist, o); mu.Unlock() }
	var wg sync.WaitGroup
	finish := c.P(1, 3)
	kindW := c.N(3)
	maxW := c.Pick(12, 60, 600, 6000)
	huge := !failing && i%97 == 7 // two Writes of more than a megabyte at once
	if huge {
		c.Count("huge-writes", 1)
		ng, nops = 4, 4
	}
	var start sync.WaitGroup
	start.Add(1)
	for g := 0; g < ng; g++ {
		g := g
		r := c.Rand.Fork()
		guard(c, &wg, func() {
			start.Wait()
			for k := 0; k < nops; k++ {
				jitter(r)
				o := linOp{g: g, k: k, id: uint32(g*1000 + k + 1), pos: -1}
				x := r.N(10)
				if huge && k > 0 {
					x = 0
				}
				switch {
				case x < 6:
					o.kind = 'W'
					o.size = 12 + r.N(maxW)
					if huge && k == 1 && g < 2 {
						o.size = 1<<20 + r.N(1<<18)
					}
					p := chunkOf(o.id, o.size, kindW)
					o.inv = now()
					o.n, o.err = fw.Write(p)
					o.rsp = now()
					for j := range p {
						p[j] = 0xEE
					}
				case x < 8:
					o.kind = 'F'
					o.ft = flate.FlushType(r.N(4))
					if finish && r.P(1, 2) {
						o.ft = flate.FinishFlush
					}
					o.inv = now()
					o.err = fw.Flush(o.ft)
					o.rsp = now()
				case x < 9:
					o.kind = 'H'
					id := g*1000 + k + 1
					h := flate.Header{FileName: fmt.Sprintf("n%d", id), Comment: fmt.Sprintf("c%d", id)}
					o.inv = now()
					o.err = fw.SetHeader(h)
					o.rsp = now()
					hmu.Lock()
					hsets = append(hsets, hset{id, o.inv, o.rsp})
					hmu.Unlock()
				default:
					if got := writerSettings(fw); got != want {
						c.Errorf("getters changed from %s to %s", want, got)
					}
					if fw.UnderlyingWriter() != io.Writer(s) {
						c.Errorf("UnderlyingWriter changed")
					}
					if n := len(fw.Tracers()); n != 1 {
						c.Errorf("%d tracers", n)
					}
					continue
				}
				rec(o)
			}
		})
	}
	closers := 0
	if closeMode > 0 {
		closers = closeMode
	}
	for q := 0; q < closers; q++ {
		q := q
		r := c.Rand.Fork()
		guard(c, &wg, func() {
			start.Wait()
			for k := r.N(40); k > 0; k-- {
				jitter(r)
			}
			o := linOp{g: 100 + q, kind: 'C', pos: -1}
			o.inv = now()
			o.err = fw.Close()
			o.rsp = now()
			rec(o)
		})
	}
	start.Done()
	wg.Wait()
	if c.Failed() {
		panic(failSentinel{})
	}
	o := linOp{g: 200, kind: 'C', pos: -1}
	o.inv = now()
	o.err = fw.Close()
	o.rsp = now()
	rec(o)
	if closers == 0 {
		c.Count("close-at-end", 1)
	} else {
		c.Count("close-concurrent", 1)
	}
	if s.overlap.Load() != 0 {
		c.Failf("the underlying writer was called concurrently")
	}
	if s.split.Load() != 0 {
		c.Failf("something came between Flush and Sync of the underlying writer, or one of them came alone")
	}
	c.Count("syncs", int(s.syncs.Load()))
	sort.Slice(hist, func(a, b int) bool { return hist[a].inv < hist[b].inv })
	for k := 1; k < len(hist); k++ {
		if hist[k].inv < hist[k-1].rsp {
			c.Count("overlapping-calls", 1)
		}
	}
	// decode what came out
	ref := RefDecode(s.buf, RefOpt{Format: cfg.RefFmt(), WBits: cfg.EffWB(), Dict: cfg.Dict})
	if !s.failed && ref.Err != 0 {
		c.Failf("the output is not a valid stream: %v at %d of %d: %s", ref.Err, ref.Off, len(s.buf), ref.Msg)
	}
	if s.failed {
		c.Count("sink-failures", 1)
	}
	if len(ref.Streams) > 1 {
		c.Count("streams>1", 1)
	}
	byID := map[uint32]*linOp{}
	for k := range hist {
		if hist[k].kind == 'W' {
			byID[hist[k].id] = &hist[k]
		}
	}
	order := []uint32{}
	out := ref.Out
	for p := 0; p < len(out); {
		if len(out)-p < 12 {
			if s.failed {
				break
			}
			c.Failf("the data ends inside the bytes of a Write at %d", p)
		}
		id, n := binary.LittleEndian.Uint32(out[p:]), int(binary.LittleEndian.Uint32(out[p+4:]))
		w := byID[id]
		if w == nil || w.size != n || !bytes.HasPrefix(chunkOf(id, n, kindW), out[p:min(p+n, len(out))]) {
			c.Failf("at %d of %d the data is not the contiguous bytes of any Write (id %d, size %d)", p, len(out), id, n)
		}
		if p+n > len(out) && !s.failed {
			c.Failf("only a part of Write %d is in the data", id)
		}
		if w.pos >= 0 {
			c.Failf("the bytes of Write %d appear twice", id)
		}
		w.pos = p
		order = append(order, id)
		p += n
	}
	// results of the calls
	var closeOK *linOp
	var firstErr int64 = 1 << 62 // response time of the first call that reported the sink failure
	for k := range hist {
		o := &hist[k]
		if o.kind == 'H' {
			if o.err != nil {
				c.Failf("SetHeader returned %v", o.err)
			}
			continue
		}
		switch {
		case o.err == nil && o.kind == 'C', o.err == errSink && o.kind == 'C':
			if closeOK != nil {
				c.Failf("two Close calls took effect")
			}
			closeOK = o
		case o.err == nil:
		case o.err == fs.ErrClosed:
			c.Count("err-closed", 1)
		case o.err == errSink && s.failed:
		default:
			c.Failf("%c by goroutine %d returned %v", o.kind, o.g, o.err)
		}
		if o.err == errSink && o.kind != 'C' && o.rsp < firstErr {
			firstErr = o.rsp
		}
	}
	if closeOK == nil {
		c.Failf("no Close call took effect")
	}
	if t := s.last.Load(); t > closeOK.rsp {
		c.Failf("the underlying writer was called after Close had returned")
	}
	for k := range hist {
		o := &hist[k]
		if o.kind == 'H' || o == closeOK {
			continue
		}
		if o.inv > closeOK.rsp && o.err != fs.ErrClosed {
			c.Failf("%c after Close returned %v", o.kind, o.err)
		}
		if o.rsp < closeOK.inv && o.err == fs.ErrClosed {
			c.Failf("%c before Close returned ErrClosed", o.kind)
		}
		if o.inv > firstErr && o.err == nil {
			c.Failf("%c succeeded after the failure had been reported", o.kind)
		}
		if o.kind == 'W' {
			c.Count("writes", 1)
			switch {
			case o.err == nil:
				if o.n != o.size {
					c.Failf("Write of %d bytes returned %d, nil", o.size, o.n)
				}
				if o.pos < 0 && !s.failed {
					c.Failf("the bytes of a successful Write (goroutine %d, op %d) are missing", o.g, o.k)
				}
			case o.err == fs.ErrClosed:
				if o.pos >= 0 {
					c.Failf("a Write that returned ErrClosed took effect")
				}
			}
		}
	}
	// real-time order of the Writes
	var maxInv int64
	for k := 0; k < len(order); k++ {
		o := byID[order[k]]
		if o.rsp < maxInv {
			c.Failf("Write %d had completed before an earlier-placed Write started", o.id)
		}
		if o.inv > maxInv {
			maxInv = o.inv
		}
	}
	// flushes cover every Write completed before they started
	cache := map[int]int{}
	decoded := func(pos int) int {
		if v, ok := cache[pos]; ok {
			return v
		}
		r := RefDecode(s.buf[:pos], RefOpt{Format: cfg.RefFmt(), WBits: cfg.EffWB(), Dict: cfg.Dict})
		cache[pos] = len(r.Out)
		return len(r.Out)
	}
	nflush := 0
	for k := range hist {
		o := &hist[k]
		if o.kind != 'F' || o.err != nil {
			continue
		}
		var cands []linFlush
		for _, f := range s.flushes {
			if f.t > o.inv && f.t < o.rsp {
				cands = append(cands, f)
			}
		}
		if len(cands) == 0 {
			c.Failf("Flush(%v) returned nil without flushing the underlying writer", o.ft)
		}
		if o.ft == flate.BlockFlush || nflush > 12 {
			continue
		}
		nflush++
		need := 0
		for j := range hist {
			w := &hist[j]
			if w.kind == 'W' && w.err == nil && w.rsp < o.inv && w.pos >= 0 && w.pos+w.size > need {
				need = w.pos + w.size
			}
		}
		if need == 0 {
			continue
		}
		c.Count("flushes-judged", 1)
		if best := decoded(cands[len(cands)-1].pos); best < need {
			c.Failf("Flush(%v) by goroutine %d returned nil, but only %d bytes are decodable of the %d written before it started", o.ft, o.g, best, need)
		}
	}
	// headers
	// callStart: a lower bound for the start of the call which produced the
	// event at time t
	callStart := func(t int64) int64 {
		lo := t
		for k := range hist {
			o := &hist[k]
			if o.kind != 'H' && o.inv < t && o.rsp > t && o.inv < lo {
				lo = o.inv
			}
		}
		return lo
	}
	if cfg.Fmt == flate.GZIPFormat {
		for _, h := range hdrs {
			c.Count("headers-judged", 1)
			var id int
			if h.name == "" && h.comm == "" {
				// the Writer samples the header just before the event; a
				// SetHeader that completed before the stream's own call
				// started cannot have been missed
				for _, x := range hsets {
					if x.rsp < callStart(h.t) {
						c.Failf("a stream started without the header that had been set before (n%d)", x.id)
					}
				}
				continue
			}
			if _, err := fmt.Sscanf(h.name, "n%d", &id); err != nil || h.comm != fmt.Sprintf("c%d", id) {
				c.Failf("a stream header mixes two SetHeader calls: %q %q", h.name, h.comm)
			}
			var me *hset
			for k := range hsets {
				if hsets[k].id == id {
					me = &hsets[k]
				}
			}
			if me == nil || me.inv > h.t {
				c.Failf("a stream header shows %q, which had not been set", h.name)
			}
			for _, x := range hsets {
				if me.rsp < x.inv && x.rsp < callStart(h.t) {
					c.Failf("a stream header shows %q although n%d had replaced it", h.name, x.id)
				}
			}
		}
	}
	writers := map[int]bool{}
	for _, id := range order {
		writers[byID[id].g] = true
	}
	c.Eval(len(writers) > 1, order)
	if i < 16 {
		c.Sample("%v, %d goroutines, %d calls, order %v", cfg, ng, len(hist), order)
	}
}
