package main

import (
	"bytes"
	"context"
	"fmt"
	"io"
	"runtime"
	"sort"
	"sync"
	"sync/atomic"
	"time"

	"github.com/chronos-tachyon/flate"
)

// ---------------------------------------------------------------- C18

type rdOp struct {
	inv, rsp int64
	data     []byte
	err      error
}

// partition searches an order of the recorded Reads, consistent with each
// goroutine's own order and with real time, in which the data concatenates to
// a prefix of want and no data follows an error.  It returns the order of
// goroutines or nil.
func partition(hist [][]rdOp, want []byte, full bool) (order []int, best int, steps int) {
	ng := len(hist)
	type key string
	seen := map[key]bool{}
	idx := make([]int, ng)
	var rec func(pos int, ended bool) bool
	rec = func(pos int, ended bool) bool {
		if pos > best {
			best = pos
		}
		steps++
		if steps > 400000 {
			return false
		}
		k := make([]byte, 0, 3*ng)
		done := true
		for g, i := range idx {
			k = append(k, byte(i), byte(i>>8), byte(i>>16))
			if i < len(hist[g]) {
				done = false
			}
		}
		if done {
			return !full || pos == len(want)
		}
		if seen[key(k)] {
			return false
		}
		seen[key(k)] = true
		// no operation may be placed after one that started only after
		// it had finished
		var minRsp int64 = 1 << 62
		for g, i := range idx {
			if i < len(hist[g]) && hist[g][i].rsp < minRsp {
				minRsp = hist[g][i].rsp
			}
		}
		for g := range idx {
			i := idx[g]
			if i >= len(hist[g]) {
				continue
			}
			o := &hist[g][i]
			if o.inv > minRsp {
				continue
			}
			if len(o.data) > 0 && (ended || !bytes.HasPrefix(want[pos:], o.data)) {
				continue
			}
			idx[g]++
			order = append(order, g)
			if rec(pos+len(o.data), ended || o.err != nil) {
				return true
			}
			order = order[:len(order)-1]
			idx[g]--
		}
		return false
	}
	if rec(0, false) {
		return order, best, steps
	}
	return nil, best, steps
}

func runC18(c *C, i int) {
	procs := []int{1, 2, 4, 8}[c.N(4)]
	defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(procs))
	if i%6 == 1 {
		c18Wake(c)
		return
	}
	var in []byte
	var rc RCfg
	if i%5 == 4 {
		b := genBadCase(c, i/5)
		in, rc = b.in, b.rc
	} else {
		f := RefFormat(1 + c.N(3))
		g := &genOpt{size: c.Pick(0, 100, 3000, 30000, 100000)}
		if c.P(1, 2) {
			// distinctive content
			d := genData(c.Rand, c.Pick(0, 2, 12, 13), g.size)
			cfg := Cfg{Fmt: flFmt(f), Lvl: flate.CompressLevel(c.Pick(0, 1, 6))}
			in = compress(c, cfg, d, []Op{{K: 'W', N: len(d)}})
			rc = genRCfg(c.Rand, f, 15, nil)
		} else {
			s := genStream(c.Rand, f, g)
			in = s.Comp
			rc = genRCfg(c.Rand, f, s.WBits, nil)
		}
	}
	if c.P(2, 3) {
		rc.Mem = flate.MemoryLevel(c.In(1, 4)) // small buffers: many hand-overs
	}
	want, wantErr := readAllMode(c, flate.NewReader(PlainSrc(in), rc.Opts()...), c.Rand, 0)
	src := NewSrc(c.Rand, in)
	src.delay = c.P(1, 3)
	if len(in) > 4000 && src.mode == srcOne {
		src.mode = srcRandom
	}
	fr := flate.NewReader(src, rc.Opts()...)
	set := readerSettings(fr)
	ng := c.In(2, 8)
	minRead := 1
	if len(want) > 600 {
		minRead = len(want) / 300
	}
	withClose := i%7 == 3
	c.Note("%v, %d->%d bytes then %v, %d goroutines, procs %d, close %v", rc, len(in), len(want), wantErr, ng, procs, withClose)
	hist := make([][]rdOp, ng)
	var wg, start sync.WaitGroup
	start.Add(1)
	var got atomic.Int64
	for g := 0; g < ng; g++ {
		g := g
		r := c.Rand.Fork()
		guard(c, &wg, func() {
			start.Wait()
			after := 0
			buf := make([]byte, 70000)
			for {
				jitter(r)
				n := minRead + r.N(minRead*r.Pick(1, 3, 20)+1)
				if r.P(1, 40) {
					n = 0
				}
				if n > len(buf) {
					n = len(buf)
				}
				if r.P(1, 12) {
					if s := readerSettings(fr); s != set {
						c.Errorf("getters changed from %s to %s", set, s)
					}
					if fr.UnderlyingReader() != io.Reader(src) {
						c.Errorf("UnderlyingReader changed")
					}
					c.Count("getters", 1)
				}
				p := buf[:n]
				for j := range p {
					p[j] = 0x99
				}
				var o rdOp
				o.inv = now()
				m, err := fr.Read(p)
				o.rsp = now()
				if m < 0 || m > n {
					c.Errorf("Read(len %d) returned %d", n, m)
					return
				}
				for j := m; j < n; j++ {
					_ = j // the rest may be used as scratch space
				}
				o.data = append([]byte(nil), p[:m]...)
				o.err = err
				got.Add(int64(m))
				if m > 0 || err != nil {
					hist[g] = append(hist[g], o)
				} else if n > 0 {
					c.Errorf("Read(len %d) returned neither data nor an error", n)
					return
				}
				if err != nil {
					if after++; after > 2 {
						return
					}
				}
			}
		})
	}
	if withClose {
		r := c.Rand.Fork()
		guard(c, &wg, func() {
			start.Wait()
			for k := r.N(100); k > 0; k-- {
				jitter(r)
			}
			if len(want) > 0 {
				for k := r.N(2000); k > 0 && got.Load() < int64(len(want)/2); k-- {
					runtime.Gosched()
				}
			}
			if err := fr.Close(); err != nil {
				c.Errorf("Close returned %v", err)
			}
		})
		c.Count("with-close", 1)
	}
	start.Done()
	wg.Wait()
	if c.Failed() {
		panic(failSentinel{})
	}
	chunks, total, active := 0, 0, 0
	last := map[string]int{}
	overl := 0
	for g := range hist {
		a := 0
		for k := range hist[g] {
			o := &hist[g][k]
			if len(o.data) > 0 {
				chunks++
				a = 1
			}
			total += len(o.data)
			if o.err != nil {
				last[fmt.Sprintf("%v", o.err)]++
			}
			if o.rsp-o.inv > 1 {
				overl++
			}
		}
		active += a
	}
	c.Count("chunks", chunks)
	c.Count("overlapping-calls", overl)
	if total > len(want) {
		c.Failf("the goroutines received %d bytes together, the data has %d", total, len(want))
	}
	if !withClose {
		if total < len(want) {
			c.Failf("only %d of %d bytes were delivered to any goroutine", total, len(want))
		}
		if len(last) != 1 || last[fmt.Sprintf("%v", wantErr)] == 0 {
			c.Failf("final errors %v, a single reader gets %v", last, wantErr)
		}
	}
	order, best, steps := partition(hist, want, !withClose)
	if order == nil {
		if steps > 400000 {
			c.incon = fmt.Sprintf("case %d: search for an order did not finish", i)
			return
		}
		c.Failf("no order of the %d chunks consistent with real time gives the data (longest match %d of %d bytes)", chunks, best, len(want))
	}
	if wantErr == io.EOF {
		c.Count("eof", 1)
	} else {
		c.Count("other-errors", 1)
	}
	fr.Close()
	if src.overlap.Load() != 0 {
		c.Failf("the source was read concurrently")
	}
	c.Eval(active > 1, order)
	if i < 16 {
		c.Sample("%v: %d bytes as %d chunks to %d goroutines, order of goroutines %v", rc, len(want), chunks, ng, order[:min(len(order), 60)])
	}
}

// c18Wake: several goroutines each wait in one small Read; then the source
// supplies enough data for all of them, and blocks.  All must return.
func c18Wake(c *C) {
	n := c.In(2, 12)
	sz := c.Pick(1, 1, 2, 10, 50)
	cfg := Cfg{Fmt: flate.Format(1 + c.N(3)), Lvl: flate.CompressLevel(c.Pick(0, 1, 6)), Strat: flate.Strategy(c.N(4))}
	s := NewSink()
	fw := flate.NewWriter(s, cfg.Opts()...)
	var out []byte
	var pts [][2]int
	for k := c.In(1, 4); k > 0; k-- {
		d := genData(c.Rand, c.N(nDataKinds), n*sz+c.Pick(0, 0, 1, 500, 5000))
		doWrite(c, fw, d)
		fw.Flush(flate.FlushType(c.In(1, 3)))
		out = append(out, d...)
		pts = append(pts, [2]int{s.Len(), len(out)})
	}
	fw.Close()
	in := s.Bytes()
	rc := RCfg{Fmt: cfg.RefFmt(), Mem: flate.MemoryLevel(c.N(10))}
	g := NewGateSrc(in, c.Pick(0, 0, 5, 300))
	fr := flate.NewReader(g, rc.Opts()...)
	c.Note("wake: %v, %v, %d readers of %d bytes, points %v", cfg, rc, n, sz, pts)
	var wg sync.WaitGroup
	var mu sync.Mutex
	var got []byte
	var live, nonempty int
	one := func() {
		live++
		guard(c, &wg, func() {
			p := make([]byte, sz)
			m, err := fr.Read(p)
			mu.Lock()
			defer mu.Unlock()
			got = append(got, p[:m]...)
			live--
			if m > 0 {
				nonempty++
			}
			if err != nil {
				c.Errorf("Read returned %v while the source has not ended", err)
			}
		})
	}
	// Reads of nothing may wait among them; they take no data, and so must not
	// keep a wake-up which another Read needs.
	idle := 0
	if c.P(1, 2) {
		idle = c.In(1, 4)
	}
	for _, p := range pts {
		for k := idle; k > 0; k-- {
			guard(c, &wg, func() {
				if m, err := fr.Read(nil); m != 0 || err != nil && err != io.EOF {
					c.Errorf("a Read of nothing returned %d, %v", m, err)
				}
			})
			c.Count("waiting-for-nothing", 1)
		}
		if idle > 0 && c.P(2, 3) && !Quiesce() {
			c.Failf("no rest")
		}
		mu.Lock()
		spawn := n - live
		for k := 0; k < spawn; k++ {
			one()
		}
		mu.Unlock()
		if !Quiesce() {
			c.Failf("no rest")
		}
		g.Allow(p[0])
		if !Quiesce() {
			c.Failf("no rest")
		}
		mu.Lock()
		left, have := live, len(got)
		mu.Unlock()
		if c.Failed() {
			panic(failSentinel{})
		}
		if left != 0 {
			c.Failf("%d of %d Reads still wait although only %d of the %d bytes flushed so far were delivered", left, n, have, p[1])
		}
		c.Count("woken-together", n)
	}
	g.Finish()
	rest, err := readAllMode(c, fr, c.Rand, 0)
	wg.Wait()
	if err != io.EOF {
		c.Failf("end: %v", err)
	}
	if !bytes.HasSuffix(out, rest) || len(got)+len(rest) != len(out) {
		c.Failf("%d bytes to the waiting goroutines and %d afterwards do not make up the %d bytes of data", len(got), len(rest), len(out))
	}
	want := append([]byte(nil), out[:len(got)]...)
	sort.Slice(want, func(i, j int) bool { return want[i] < want[j] })
	sort.Slice(got, func(i, j int) bool { return got[i] < got[j] })
	if !bytes.Equal(want, got) {
		c.Failf("the waiting goroutines received other bytes than the first %d of the data", len(got))
	}
	c.Eval(nonempty > 1, "wake", hashOf(in), n, sz, rc.Mem)
}

// ---------------------------------------------------------------- C19

// stormSrc is an endless or finite source with yields; it records use after
// it has reported its end.
func runC19(c *C, i int) {
	procs := []int{1, 2, 4, 8}[c.N(4)]
	defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(procs))
	switch i % 8 {
	case 0:
		c19Plain(c)
	case 1:
		c19Blocked(c, false)
	case 2:
		c19Blocked(c, true)
	case 3:
		c19Undelivered(c)
	case 4:
		c19Storm(c, true, false)
	case 5:
		c19Storm(c, false, true)
	default:
		c19Storm(c, true, true)
	}
	if left := WaitNoFlate(); len(left) != 0 {
		c.Failf("a background goroutine remains:\n%s", left[0])
	}
}

func c19Plain(c *C) {
	in, rc, _ := anyInput(c)
	src := NewSrc(c.Rand, in)
	if c.P(1, 4) {
		src.err = errSource
	}
	fr := flate.NewReader(src, rc.Opts()...)
	c.Note("plain: %v, %d bytes, %v", rc, len(in), src)
	if c.P(1, 4) {
		_ = readerSettings(fr)
		if left := flateGoroutines(); len(left) != 0 || src.calls.Load() != 0 {
			c.Failf("a Reader that was never read from runs a goroutine or reads its source")
		}
		if c.P(1, 2) {
			fr.Close()
		} else {
			fr.Reset(PlainSrc(in))
		}
		if left := flateGoroutines(); len(left) != 0 || src.calls.Load() != 0 {
			c.Failf("Close or Reset of an unused Reader started a goroutine or read the source")
		}
		c.Count("never-read", 1)
		c.Eval(false, "never", hashOf(in))
		return
	}
	got, err := readAll(c, fr, c.Rand)
	if left := WaitNoFlate(); len(left) != 0 {
		c.Failf("a goroutine remains after Read returned %v:\n%s", err, left[0])
	}
	calls := src.calls.Load()
	for k := 0; k < 5; k++ {
		fr.Read(make([]byte, 100))
		if c.P(1, 3) {
			fr.Close()
		}
	}
	if left := WaitNoFlate(); len(left) != 0 {
		c.Failf("a goroutine was started again after the end:\n%s", left[0])
	}
	if src.calls.Load() != calls {
		c.Failf("the source was read again after Read had returned %v", err)
	}
	if src.ended.Load() != 0 {
		c.Failf("the source was read %d more times after it had returned %v", src.ended.Load(), src.err)
	}
	c.Count("source-after-end", 1)
	if err == io.EOF {
		c.Count("drained", 1)
	} else {
		c.Count("failed", 1)
	}
	c.Eval(true, "plain", hashOf(in), len(got), src.mode)
}

// c19Blocked: readers wait while the source is blocked; Close/Reset calls are
// made from several goroutines; then the source returns.
func c19Blocked(c *C, reset bool) {
	in, rc, _ := anyInput(c)
	gate := NewGateSrc(in, c.Pick(0, 0, 1, 30))
	gate.Allow(c.N(len(in) + 1))
	fr := flate.NewReader(gate, rc.Opts()...)
	nr := c.In(1, 6)
	nc := c.In(1, 4)
	c.Note("blocked: %v, %d bytes, %d readers, %d closers, reset=%v", rc, len(in), nr, nc, reset)
	ks := make([]*collector, nr)
	var wg sync.WaitGroup
	for k := range ks {
		ks[k] = &collector{}
		r := c.Rand.Fork()
		kk := ks[k]
		guard(c, &wg, func() { kk.run(fr, r) })
	}
	if !Quiesce() {
		c.Failf("no rest")
	}
	waiting := 0
	for _, k := range ks {
		if !k.exited() {
			waiting++
		}
		k.halt()
	}
	inside := gate.Blocked()
	var nret atomic.Int32
	in2, rc2, _ := anyInput(c)
	src2 := NewSrc(c.Rand, in2)
	for k := 0; k < nc; k++ {
		doReset := reset && (k == 0 || c.P(1, 2))
		guard(c, &wg, func() {
			if doReset {
				fr.Reset(src2, rc2.full()...)
			} else if err := fr.Close(); err != nil {
				c.Errorf("Close returned %v", err)
			}
			nret.Add(1)
		})
	}
	how := c.N(4)
	if (how >= 2 || c.P(1, 2)) && !Quiesce() {
		c.Failf("no rest")
	}
	if inside {
		// The old source is being read until it is let go.
		if c.P(1, 12) {
			time.Sleep(time.Duration(c.In(20, 250)) * time.Millisecond)
			c.Count("long-hold", 1)
		}
		if n := nret.Load(); n != 0 {
			c.Failf("%d of %d Close/Reset calls returned while a goroutine was still reading the old source", n, nc)
		}
		c.Count("held", 1)
	}
	switch how {
	case 0:
		gate.Allow(len(in))
		gate.Finish()
	case 1:
		gate.Abort(errSource)
	default:
		// The source returns once, with one byte or with nothing.  That has
		// to be enough for Close and Reset to come back, and they must not
		// ask the old source for more.
		p, calls, before := gate.Pulled(), gate.Calls(), nret.Load()
		if how == 2 && p < len(in) {
			gate.Allow(p + 1)
		} else {
			gate.Nudge()
		}
		if !Quiesce() {
			c.Failf("no rest")
		}
		if int(nret.Load()) != nc {
			c.Failf("the source has returned, but %d of %d Close/Reset calls still wait", nc-int(nret.Load()), nc)
		}
		if gate.Calls() != calls {
			c.Failf("the source returned while Close/Reset was waiting and was then read %d more times", gate.Calls()-calls)
		}
		if int(before) < nc {
			c.Count("waited-for-source", 1)
		}
		gate.Finish()
	}
	wg.Wait() // everybody must come back; the watchdog detects a deadlock
	if c.Failed() {
		panic(failSentinel{})
	}
	calls := gate.Calls()
	for n, k := range ks {
		_, err, _ := k.state()
		_ = err
		if !k.exited() {
			c.Failf("reader %d still waits", n)
		}
	}
	c.Count("reads-woken", waiting)
	if reset {
		c.Count("blocked-reset", 1)
	} else {
		c.Count("blocked-close", 1)
	}
	fr.Close()
	if left := WaitNoFlate(); len(left) != 0 {
		c.Failf("a goroutine remains after Close/Reset:\n%s", left[0])
	}
	if gate.Calls() != calls {
		c.Failf("the old source was read again after Close/Reset had returned")
	}
	c.Eval(true, "blocked", reset, hashOf(in), nr, nc)
}

// c19Undelivered: the Reader is stuck with undelivered data and nobody reads.
func c19Undelivered(c *C) {
	data := genPayload(c.Rand, 200000)
	cfg := Cfg{Fmt: flate.RawFormat, Lvl: flate.CompressLevel(c.Pick(0, 1))}
	in := compress(c, cfg, data, []Op{{K: 'W', N: len(data)}})
	rc := RCfg{Fmt: RRaw, Mem: flate.MemoryLevel(c.In(1, 9)), WB: 15}
	src := NewSrc(c.Rand, in)
	fr := flate.NewReader(src, rc.Opts()...)
	c.Note("undelivered: %d->%d bytes, %v", len(in), len(data), rc)
	fr.Read(make([]byte, c.Pick(0, 1, 100)))
	if c.P(1, 2) {
		Quiesce()
	}
	var wg sync.WaitGroup
	n := c.In(1, 3)
	for k := 0; k < n; k++ {
		guard(c, &wg, func() { fr.Close() })
	}
	wg.Wait()
	calls := src.calls.Load()
	if left := WaitNoFlate(); len(left) != 0 {
		c.Failf("a goroutine remains after Close:\n%s", left[0])
	}
	if _, err := fr.Read(make([]byte, 100)); err == nil && len(data) > 0 {
		// correct data may still be available; the lifecycle property
		// judges that
		_ = err
	}
	if src.calls.Load() != calls {
		c.Failf("the source was read after Close")
	}
	c.Count("undelivered-close", 1)
	c.Eval(true, "undelivered", hashOf(in), rc.Mem, n)
}

// c19Storm: Reads, Closes and Resets run freely against each other.
func c19Storm(c *C, closes, resets bool) {
	mems := []flate.MemoryLevel{1, 2, 4, 9}
	type input struct {
		src  *Src
		want []byte
		err  error
		opts []flate.Option
	}
	mk := func() *input {
		in, rc, _ := anyInput(c)
		if len(in) > 30000 {
			in = in[:30000]
		}
		rc.Mem = mems[c.N(4)]
		x := &input{src: NewSrc(c.Rand, in), opts: rc.full()}
		x.src.delay = c.P(1, 2)
		x.want, x.err = readAllMode(c, flate.NewReader(PlainSrc(in), x.opts...), c.Rand, 0)
		return x
	}
	first := mk()
	inputs := []*input{first}
	fr := flate.NewReader(first.src, first.opts...)
	nr := c.In(0, 5)
	var wg, start sync.WaitGroup
	start.Add(1)
	var stop atomic.Bool
	var reads, woken atomic.Int64
	for g := c.N(3); g > 0; g-- {
		r := c.Rand.Fork()
		guard(c, &wg, func() {
			start.Wait()
			for !stop.Load() {
				jitter(r)
				_ = readerSettings(fr)
				_ = fr.UnderlyingReader()
				_ = fr.Tracers()
				c.Count("getters", 1)
			}
		})
	}
	for g := 0; g < nr; g++ {
		r := c.Rand.Fork()
		guard(c, &wg, func() {
			start.Wait()
			buf := make([]byte, 5000)
			for !stop.Load() {
				jitter(r)
				m, err := fr.Read(buf[:r.Pick(0, 1, 100, 5000)])
				reads.Add(1)
				if err == context.Canceled {
					woken.Add(1)
				}
				if m >= 24 {
					// every chunk comes from one of the inputs, whole
					from := false
					for _, x := range inputs {
						if bytes.Contains(x.want, buf[:m]) {
							from = true
							break
						}
					}
					if !from {
						c.Errorf("a Read during the storm returned %d bytes which are no part of any input's data: %x", m, head(string(buf[:m]), 200))
					}
					c.Count("storm-chunks", 1)
				}
				if err != nil {
					time.Sleep(20 * time.Microsecond)
				}
			}
		})
	}
	var active sync.WaitGroup
	nClose, nReset := 0, 0
	if closes {
		nClose = c.In(1, 3)
	}
	if resets {
		nReset = c.In(1, 3)
	}
	for g := 0; g < nClose; g++ {
		r := c.Rand.Fork()
		reps := c.In(1, 6)
		guard(c, &active, func() {
			start.Wait()
			for k := 0; k < reps; k++ {
				for j := r.N(20); j > 0; j-- {
					jitter(r)
				}
				if err := fr.Close(); err != nil {
					c.Errorf("Close returned %v", err)
				}
			}
		})
	}
	for g := 0; g < nReset; g++ {
		r := c.Rand.Fork()
		var mine []*input
		for k := c.In(1, 5); k > 0; k-- {
			x := mk()
			mine = append(mine, x)
			inputs = append(inputs, x)
		}
		guard(c, &active, func() {
			start.Wait()
			for _, x := range mine {
				for j := r.N(20); j > 0; j-- {
					jitter(r)
				}
				fr.Reset(x.src, x.opts...)
			}
		})
	}
	name := "storm-mixed"
	if !resets {
		name = "storm-close"
	} else if !closes {
		name = "storm-reset"
	}
	c.Note("%s: %d readers, %d closers, %d resetters", name, nr, nClose, nReset)
	start.Done()
	active.Wait()
	stop.Store(true)
	// Readers may still be blocked only because their source is; these
	// sources never block, so all of them come back.
	wg.Wait()
	if c.Failed() {
		panic(failSentinel{})
	}
	// the Reader is still usable
	x := mk()
	fr.Reset(x.src, x.opts...)
	got, err := readAll(c, fr, c.Rand)
	if !bytes.Equal(got, x.want) || fmt.Sprint(err) != fmt.Sprint(x.err) {
		c.Failf("after the storm and a Reset: error %v (expected %v), %s", err, x.err, diffAt(got, x.want))
	}
	fr.Close()
	if left := WaitNoFlate(); len(left) != 0 {
		c.Failf("a goroutine remains:\n%s", left[0])
	}
	for _, y := range append(inputs, x) {
		if y.src.overlap.Load() != 0 {
			c.Failf("a source was read concurrently")
		}
		if y.src.ended.Load() != 0 {
			c.Failf("a source was read again after its end")
		}
		if y.src.closed.Load() != 0 {
			c.Failf("a source was closed")
		}
	}
	c.Count(name, 1)
	c.Count("storm-reads", int(reads.Load()))
	c.Count("storm-reads-canceled", int(woken.Load()))
	c.Eval(nr > 0, name, nr, nClose, nReset, len(inputs), len(got))
}
