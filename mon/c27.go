package main

import (
	"fmt"
	"runtime"
	"strings"
	"sync"

	"github.com/chronos-tachyon/flate"
)

// C27: an instance's behaviour depends only on its own inputs, options and
// calls.  A batch of deterministic job histories (see runJob) is executed
// alone, again after other work, and in parallel, always with the same
// generators; everything observed must be the same, under the race detector.

func init() {
	register(&Prop{
		ID: "C27", Race: true, CPULimit: 900, N: tierN(48, 1200), Run: runC27,
		Rule: "case = a batch of 8..16 jobs (Writer/Reader histories, partly sharing dictionary, payload, header and option values) executed one by one, again in another order, and in 2..3 rounds by 4..8 goroutines at once with garbage collections in between (the first batch of each process starts with the parallel round, on cold shared tables); each job's record (bytes, data, errors, return values, events, header values) must be the same every time; race detector on. evaluations = job executions compared with the first; non-trivial: records with more than one line; distinct by record and round",
		Need: []string{"parallel-jobs", "again-jobs", "cold-start", "shared-jobs", "overlap", "misfortunes", "job-write", "job-read", "job-bad", "job-big", "job-reset", "job-fault", "job-static", "job-header", "job-shared-then-reset", "lines"},
	})
}

var c27Warm bool

// misfortunes leaves many instances behind which failed or were given up at
// all kinds of points: whatever they shared with others must have been handed
// back exactly once and in good order.
func misfortunes(r *Rand) {
	data := genData(r, 4, 3000)
	for k := r.In(5, 30); k > 0; k-- {
		cfg := genCfg(r)
		s := NewSink()
		s.failByte = r.In(1, 250)
		s.short = r.P(1, 4)
		fw := flate.NewWriter(s, cfg.Opts()...)
		fw.Write(data[:r.In(200, len(data))])
		fw.Flush(flate.FlushType(r.N(5)))
		if r.P(1, 2) {
			fw.Close()
		}
	}
	in := genStream(r, RefFormat(1+r.N(3)), &genOpt{size: 3000}).Comp
	for k := r.In(2, 8); k > 0; k-- {
		cut := append([]byte(nil), in[:r.N(len(in))]...)
		if len(cut) > 0 && r.P(1, 2) {
			cut[r.N(len(cut))] ^= byte(1 << uint(r.N(8)))
		}
		src := PlainSrc(cut)
		if r.P(1, 2) {
			src.err = errSource
		}
		fr := flate.NewReader(src, flate.WithMemoryLevel(flate.MemoryLevel(r.N(10))))
		buf := make([]byte, 700)
		for n := r.N(8); n >= 0; n-- {
			if _, err := fr.Read(buf); err != nil {
				break
			}
		}
		fr.Close()
	}
}

func runC27(c *C, idx int) {
	nj := c.In(8, 16)
	seeds := make([]uint64, nj)
	kinds := make([]int, nj)
	for i := range seeds {
		seeds[i] = c.U64()
		kinds[i] = (i + c.N(3)) % nJobs
		if i > 0 && c.P(1, 6) { // the very same history twice in the batch
			k := c.N(i)
			seeds[i], kinds[i] = seeds[k], kinds[k]
		}
	}
	if idx < nJobs { // over the shards, every kind gets to run cold and crowded
		for i := 0; i < nj; i += 2 {
			kinds[i] = idx
		}
	}
	sh := newShared(c)
	base := make([][]string, nj)
	var mu sync.Mutex
	exec := func(i int, round string) {
		sub := c.sub(NewRand("iso", seeds[i]))
		var use *shared
		if seeds[i]%4 != 0 {
			use = sh
		}
		m := jobDigest(sub, kinds[i], use)
		if m.Fail != "" {
			c.Errorf("%s, job %d (kind %d): %s", round, i, kinds[i], m.Fail)
			return
		}
		c.mu.Lock()
		for k, v := range sub.stats.Counters {
			c.stats.Counters[k] += v
		}
		c.mu.Unlock()
		mu.Lock()
		first := base[i]
		if first == nil {
			base[i] = m.Lines
		}
		mu.Unlock()
		c.Count("lines", len(m.Lines))
		if use != nil {
			c.Count("shared-jobs", 1)
		}
		if first == nil {
			return
		}
		for k := 0; k < len(first) || k < len(m.Lines); k++ {
			a, b := "<none>", "<none>"
			if k < len(first) {
				a = first[k]
			}
			if k < len(m.Lines) {
				b = m.Lines[k]
			}
			if a != b {
				c.Errorf("job %d (kind %d) behaves differently when repeated %s\n  first: %s\n  now:   %s", i, kinds[i], round, head(a, 600), head(b, 600))
				return
			}
		}
		c.Eval(len(first) > 1, round[:5], hashOf([]byte(strings.Join(first, "\n"))))
	}
	alone := func(round string) {
		order := make([]int, nj)
		for i := range order {
			order[i] = i
			k := c.N(i + 1)
			order[i], order[k] = order[k], order[i]
		}
		for _, i := range order {
			exec(i, round)
			c.Count("again-jobs", 1)
		}
	}
	parallel := func(round string) {
		var wg, gate sync.WaitGroup
		gate.Add(1)
		ng := c.In(4, 8)
		var running, most int
		for g := 0; g < ng; g++ {
			r := c.Rand.Fork()
			g := g
			guard(c, &wg, func() {
				gate.Wait()
				misfortunes(r)
				c.Count("misfortunes", 1)
				start := r.N(nj)
				for k := 0; k < nj; k++ {
					i := (start + k) % nj
					// every job runs in one goroutine per round, a few in several
					if i%ng != g && !r.P(1, 12) {
						continue
					}
					mu.Lock()
					running++
					most = max(most, running)
					mu.Unlock()
					exec(i, round)
					mu.Lock()
					running--
					mu.Unlock()
					c.Count("parallel-jobs", 1)
					if r.P(1, 8) {
						runtime.GC()
					}
					if c.Failed() {
						return
					}
				}
			})
		}
		gate.Done()
		wg.Wait()
		c.Max("jobs at once", most)
		if most > 1 {
			c.Count("overlap", 1)
		}
	}
	rounds := c.In(2, 3)
	if !c27Warm || c.P(1, 3) {
		if !c27Warm {
			c.Count("cold-start", 1)
		}
		c27Warm = true
		parallel("in parallel, first")
		rounds--
	}
	alone("alone")
	for k := 0; k < rounds && !c.Failed(); k++ {
		parallel(fmt.Sprintf("in parallel, round %d", k+1))
	}
	if !c.Failed() {
		alone("after other work")
	}
	c.Sample("%d jobs, kinds %v; first record: %d lines, e.g. %s", nj, kinds, len(base[0]), head(strings.Join(base[0], " | "), 300))
}
