package main

import (
	"bytes"
	stdflate "compress/flate"
	stdgzip "compress/gzip"
	stdzlib "compress/zlib"
	"io"
	"sync"

	"github.com/chronos-tachyon/flate"
)

func init() {
	register(&Prop{
		ID: "C11", N: tierN(2200, 40000), Run: runC11,
		Rule: "two thirds of the cases: a stream with partial/sync/full flush points (from the Writer, from the standard library, or generated block by block) is released to the Reader up to each flush point in turn; once every goroutine is blocked (the Reader waits for its source) the data delivered so far is compared with everything written before that flush. One third: a Reader is left alone after construction, after Reset, and after k Read calls, and what it pulled from an unlimited source is compared with the bound. evaluations = quiescent points judged; distinct by (stream, point); non-trivial: the point covers data",
		Need: []string{"flush-point-partial", "flush-point-sync", "flush-point-full", "stream-end-point", "from-writer", "from-std", "from-generator", "chunked", "idle-after-new", "idle-after-reset", "idle-other-memory-level", "idle-after-read", "held-back-by-buffers", "points-merged"},
	})
}

type flushPt struct {
	in   int // bytes of compressed input up to here
	out  int // data bytes determined by them
	kind string
}

// flushedStream builds a stream together with its flush points.
func flushedStream(c *C) (comp, out []byte, pts []flushPt, rc RCfg, what string) {
	f := RefFormat(1 + c.N(3))
	nstreams := 1
	if f != RRaw && c.P(1, 2) {
		nstreams = c.In(2, 4)
	}
	switch c.N(3) {
	case 0: // the package's own Writer
		cfg := genCfg(c.Rand)
		cfg.Fmt = flFmt(f)
		if c.P(1, 8) {
			cfg.Fmt = 0
			f = RZlib
		}
		s := NewSink()
		fw := flate.NewWriter(s, cfg.Opts()...)
		nseg := c.In(1, 8)
		for k := 0; k < nseg; k++ {
			d := genPayload(c.Rand, c.Pick(30, 400, 5000, 70000))
			ops := genOps(c.Rand, len(d), c.P(1, 3), false)
			if len(ops) > 200 {
				ops = []Op{{K: 'W', N: len(d)}}
			}
			feed(c, fw, d, ops)
			out = append(out, d...)
			ft := []flate.FlushType{flate.PartialFlush, flate.SyncFlush, flate.FullFlush, flate.PartialFlush, flate.FinishFlush, flate.BlockFlush}[c.N(6)]
			if err := fw.Flush(ft); err != nil {
				c.Failf("Flush: %v", err)
			}
			if ft != flate.BlockFlush && len(out) > 0 {
				pts = append(pts, flushPt{s.Len(), len(out), ft.String()})
			}
		}
		if err := fw.Close(); err != nil {
			c.Failf("Close: %v", err)
		}
		comp = s.Bytes()
		pts = append(pts, flushPt{len(comp), len(out), "close"})
		rc = genRCfg(c.Rand, f, cfg.EffWB(), cfg.Dict)
		if c.P(1, 4) && cfg.Dict == nil && (f != RRaw || !looksLikeContainer(comp)) {
			rc.Fmt = RAuto
		}
		what = "writer " + cfg.String()
		c.Count("from-writer", 1)
	case 1: // the standard library
		var buf bytes.Buffer
		var w interface {
			io.WriteCloser
			Flush() error
		}
		lvl := c.In(-2, 9)
		ns := nstreams
		for ; ns > 0; ns-- {
			switch f {
			case RRaw:
				w, _ = stdflate.NewWriter(&buf, lvl)
			case RZlib:
				w, _ = stdzlib.NewWriterLevel(&buf, lvl)
			default:
				w, _ = stdgzip.NewWriterLevel(&buf, lvl)
			}
			nseg := c.In(1, 8)
			for k := 0; k < nseg; k++ {
				d := genPayload(c.Rand, c.Pick(30, 400, 5000, 70000))
				w.Write(d)
				out = append(out, d...)
				w.Flush()
				pts = append(pts, flushPt{buf.Len(), len(out), "SyncFlush"})
			}
			w.Close()
			pts = append(pts, flushPt{buf.Len(), len(out), "close"})
		}
		comp = buf.Bytes()
		rc = genRCfg(c.Rand, f, 15, nil)
		if f != RRaw && c.P(1, 3) {
			rc.Fmt = RAuto
		}
		what = "standard library"
		c.Count("from-std", 1)
	default: // generated blocks
		g := &genOpt{wbits: c.In(8, 15)}
		var all []byte
		for ns := nstreams; ns > 0; ns-- {
			var spts []flushPt
			out = nil
			w := &bitW{}
			nseg := c.In(1, 8)
			for k := 0; k < nseg; k++ {
				for b := c.In(1, 3); b > 0; b-- {
					n := c.Pick(0, 1, 20, 300, 3000)
					var toks []RTok
					if c.P(1, 4) {
						d := genData(c.Rand, c.N(4), n)
						w.bits(0, 3)
						w.align(0)
						w.b = append(w.b, byte(n), byte(n>>8), ^byte(n), ^byte(n>>8))
						w.b = append(w.b, d...)
						out = append(out, d...)
						continue
					}
					toks, out = genTokens(c.Rand, g, out, n)
					if c.P(1, 2) {
						w.bits(2, 3)
						writeToks(w, toks, refStaticLLLens, staticLC, refStaticDLn, staticDC)
					} else {
						w.bits(4, 3)
						genDynamic(w, c.Rand, g, toks)
					}
				}
				if c.P(1, 2) {
					w.bits(2, 3)
					w.bits(0, 7)
					spts = append(spts, flushPt{len(w.b), len(out), "PartialFlush"})
				} else {
					w.bits(0, 3)
					w.align(0)
					w.b = append(w.b, 0, 0, 255, 255)
					spts = append(spts, flushPt{len(w.b), len(out), "SyncFlush"})
				}
			}
			w.bits(3, 3)
			w.bits(0, 7)
			w.align(0)
			s := wrapStream(c.Rand, f, w.b, out, nil, g.wbits, g)
			for _, p := range spts {
				pts = append(pts, flushPt{len(comp) + s.HdrLen + p.in, len(all) + p.out, p.kind})
			}
			comp = append(comp, s.Comp...)
			all = append(all, out...)
			pts = append(pts, flushPt{len(comp), len(all), "close"})
		}
		out = all
		rc = genRCfg(c.Rand, f, g.wbits, nil)
		if f != RRaw && c.P(1, 3) {
			rc.Fmt = RAuto
		}
		what = "generator"
		c.Count("from-generator", 1)
	}
	return
}

// collector drains a Reader from its own goroutine.
type collector struct {
	mu   sync.Mutex
	got  []byte
	err  error
	done bool
	stop bool
	out  bool // run has returned
}

// halt keeps the collector from starting another Read.
func (k *collector) halt() { k.mu.Lock(); k.stop = true; k.mu.Unlock() }

func (k *collector) run(fr *flate.Reader, r *Rand) {
	defer func() { k.mu.Lock(); k.out = true; k.mu.Unlock() }()
	buf := make([]byte, 70000)
	mode := r.N(4)
	for {
		n := 4096
		switch mode {
		case 0:
			n = 70000
		case 1:
			n = 1 + r.N(2000)
		case 2:
			n = r.Pick(1, 10, 100, 1000, 40000)
		}
		m, err := fr.Read(buf[:n])
		k.mu.Lock()
		k.got = append(k.got, buf[:m]...)
		if err != nil {
			k.err, k.done = err, true
		}
		stop := k.stop
		k.mu.Unlock()
		if err != nil || stop {
			return
		}
	}
}

func (k *collector) state() ([]byte, error, bool) {
	k.mu.Lock()
	defer k.mu.Unlock()
	return k.got, k.err, k.done
}

func runC11(c *C, i int) {
	if i%3 == 2 {
		runC11Idle(c)
		return
	}
	comp, out, pts, rc, what := flushedStream(c)
	if c.P(1, 2) { // several points at once
		var some []flushPt
		for n, p := range pts {
			if n == len(pts)-1 || c.P(1, 2) {
				some = append(some, p)
			}
		}
		// the newcomers and what was buffered already share a chunk
		if len(some) < len(pts) {
			c.Count("points-merged", 1)
		}
		pts = some
	}
	c.Note("%s, %v, %d->%d bytes, %d points", what, rc, len(comp), len(out), len(pts))
	chunk := c.Pick(0, 0, 1, 3, 100)
	if len(comp) > 5000 && chunk == 1 {
		chunk = 7
	}
	if chunk != 0 {
		c.Count("chunked", 1)
	}
	g := NewGateSrc(comp, chunk)
	if c.P(1, 2) {
		g.Allow(pts[0].in)
	}
	fr := flate.NewReader(g, rc.Opts()...)
	k := &collector{}
	go k.run(fr, c.Rand.Fork())
	for n, p := range pts {
		g.Allow(p.in)
		if !Quiesce() {
			c.Failf("the Reader does not come to rest at flush point %d", n)
		}
		got, err, done := k.state()
		if !bytes.HasPrefix(out, got) {
			c.Failf("at flush point %d (%s): wrong data: %s", n, p.kind, diffAt(got, out))
		}
		if len(got) < p.out {
			c.Failf("at flush point %d (%s after %d input bytes): only %d of the %d bytes flushed so far can be read, while the Reader waits for further input (chunk %d)", n, p.kind, p.in, len(got), p.out, chunk)
		}
		if done {
			c.Failf("at flush point %d (%s): Read returned %v while the source had not ended", n, p.kind, err)
		}
		switch p.kind {
		case "close", flate.FinishFlush.String():
			c.Count("stream-end-point", 1)
		case flate.PartialFlush.String(), "PartialFlush":
			c.Count("flush-point-partial", 1)
		case flate.FullFlush.String():
			c.Count("flush-point-full", 1)
		default:
			c.Count("flush-point-sync", 1)
		}
		prev := 0
		if n > 0 {
			prev = pts[n-1].out
		}
		c.Eval(p.out > prev, hashOf(comp), n, rc.Mem, chunk)
	}
	g.Finish()
	if !Quiesce() {
		c.Failf("the Reader does not come to rest after the end of the input")
	}
	got, err, done := k.state()
	if !done || err != io.EOF || !bytes.Equal(got, out) {
		c.Failf("at the end: done=%v err=%v, %s", done, err, diffAt(got, out))
	}
	c.Sample("%s, %v: %d->%d bytes, points %v, chunk %d", what, rc, len(comp), len(out), pts, chunk)
}

// runC11Idle checks that nothing is pulled before the first Read and that
// read-ahead is bounded while nobody reads.
func runC11Idle(c *C) {
	f := RefFormat(1 + c.N(3))
	mem := flate.MemoryLevel(c.N(10))
	eff := mem
	if eff == 0 {
		eff = 9
	}
	bufSize := 1 << uint(eff+6)
	// a stream that is much longer than the bound
	var data []byte
	stored := false
	size := 600000
	if eff <= 5 {
		size = c.Pick(60000, 250000)
	}
	lvl := flate.CompressLevel(c.Pick(0, 1, 6, 6))
	switch c.N(6) {
	case 0:
		data = genData(c.Rand, 0, size)
		stored = true
	case 4, 5:
		// Huffman coded with hardly any matches
		data = c.Bytes(size)
		for i := range data {
			data[i] &= 0x3f
		}
	case 1:
		data = genData(c.Rand, 1, 5*size)
	default:
		data = genData(c.Rand, c.Pick(2, 3, 5, 13), size)
	}
	cfg := Cfg{Fmt: flFmt(f), Lvl: lvl}
	comp := compress(c, cfg, data, []Op{{K: 'W', N: len(data)}})
	c.Note("idle: %v mem=%v, %d->%d bytes", f, mem, len(comp), len(data))
	g := NewGateSrc(comp, c.Pick(0, 0, 1000, 17))
	g.Finish()
	opts := []flate.Option{flate.WithFormat(flFmt(f)), flate.WithMemoryLevel(mem)}
	var fr *flate.Reader
	name := "idle-after-new"
	if c.P(1, 2) {
		// Reset from another source in some state
		old := PlainSrc(comp)
		if c.P(3, 4) {
			oldOpts := []flate.Option{flate.WithFormat(flFmt(f)), flate.WithMemoryLevel(flate.MemoryLevel(c.Pick(0, 9, 9, 1, 5)))}
			fr = flate.NewReader(old, oldOpts...)
			if c.P(1, 2) {
				fr.Read(make([]byte, 100))
			}
			fr.Reset(g, opts...)
			c.Count("idle-other-memory-level", 1)
		} else {
			fr = flate.NewReader(old, opts...)
			if c.P(1, 2) {
				fr.Read(make([]byte, 100))
			}
			fr.Reset(g)
		}
		name = "idle-after-reset"
	} else {
		fr = flate.NewReader(g, opts...)
	}
	_ = fr.Format()
	_ = fr.Dict()
	_ = fr.UnderlyingReader()
	if !Quiesce() {
		c.Failf("an idle Reader does not come to rest")
	}
	if g.Calls() != 0 {
		c.Failf("%s: the source was read %d times (%d bytes) before the first Read", name, g.Calls(), g.Pulled())
	}
	c.Count(name, 1)
	c.Eval(true, "idle", name, hashOf(comp), mem)
	delivered := 0
	buf := make([]byte, 65536)
	for k := c.In(1, 6); k > 0; k-- {
		m, err := fr.Read(buf[:c.Pick(1, 100, 5000, 65536)])
		if err != nil {
			break
		}
		delivered += m
		if !Quiesce() {
			c.Failf("a Reader nobody reads from does not come to rest")
		}
		pulled := g.Pulled()
		safe := pulled - 2*bufSize - 64
		if safe <= 0 {
			c.Count("pulled-within-input-buffer", 1)
			c.Eval(true, "idle-read", hashOf(comp), mem, delivered)
			continue
		}
		ref := RefDecode(comp[:safe], RefOpt{Format: f})
		bound := delivered + 4*bufSize + 1024
		if stored || lvl == 0 {
			bound += 65536
		}
		if len(ref.Out) > bound {
			c.Failf("read-ahead without a reader: %d bytes were delivered, but %d input bytes were pulled, which encode %d bytes (memory level %v: buffers of %d bytes)", delivered, pulled, len(ref.Out), mem, bufSize)
		}
		if pulled < len(comp) {
			c.Count("held-back-by-buffers", 1)
		}
		c.Max("read-ahead-decoded", len(ref.Out)-delivered)
		c.Count("idle-after-read", 1)
		c.Eval(true, "idle-read", hashOf(comp), mem, delivered)
	}
	fr.Close()
}

func (k *collector) exited() bool { k.mu.Lock(); defer k.mu.Unlock(); return k.out }
