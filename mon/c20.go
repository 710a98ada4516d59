package main

import (
	"bytes"
	"fmt"

	"github.com/chronos-tachyon/flate"
)

func init() {
	register(&Prop{
		ID: "C20", N: tierN(8000, 40000), Run: runC20,
		Rule: "case = (settings, payload, history); every block and token of the output is judged against the settings by the reference decoder's structure. Every 5th case instead leaves some options unset, or resets a used Writer back to default values, and compares the output with explicitly given documented defaults. evaluations = streams judged or output pairs compared; distinct by hash of settings, history and payload; non-trivial: at least one block carries data",
		Need: []string{"level0-streams", "huffman-only-streams", "rle-streams", "fixed-streams", "default-streams", "rle-matches", "far-matches", "match-258", "zlib-window-declared", "unset-compared", "reset-to-default", "window-limited"},
	})
	register(&Prop{
		ID: "C21", N: tierN(10000, 30000), Run: runC21,
		Rule: "case = (settings, payload, history) for the expansion bound, or (repetitive payload, settings with the default strategy, history) for the compression bound; evaluations = streams whose size was judged; distinct by hash of settings, history and payload; non-trivial: at least 256 bytes of payload",
		Need: []string{"expansion-judged", "incompressible", "runs-judged", "runs-other-strategies", "repeats-judged", "repeat-across-write", "repeat-across-flush", "periodic-judged", "dict-judged", "dict-later-streams", "words-judged", "with-unrelated-dict"},
	})
}

// windowData is payload whose repeats lie at, just inside and just outside
// typical window sizes.
func windowData(c *C, wb int) []byte {
	switch c.N(6) {
	case 0:
		return genPayload(c.Rand, 60000)
	case 1:
		return genData(c.Rand, 1, genSize(c.Rand, 40000)) // runs
	case 2:
		return genLZ(c.Rand, genSize(c.Rand, 100000), 0)
	default:
		return genLZ(c.Rand, genSize(c.Rand, 100000), wb)
	}
}

func runC20(c *C, i int) {
	if i%5 == 4 {
		runC20Defaults(c, i/5)
		return
	}
	cfg := genCfg(c.Rand)
	switch i % 5 {
	case 0:
		cfg.Lvl = 0
		cfg.Strat = flate.Strategy(c.N(4))
	case 1:
		cfg.Strat = []flate.Strategy{flate.HuffmanOnlyStrategy, flate.HuffmanRLEStrategy, flate.FixedStrategy}[(i/5)%3]
		if cfg.Lvl == 0 {
			cfg.Lvl = flate.CompressLevel(c.In(1, 9))
		}
	case 2:
		cfg.WB = allWB[1:][(i/5)%8]
	}
	data := windowData(c, cfg.EffWB())
	ops := genOps(c.Rand, len(data), c.P(2, 3), true)
	noteOps(c, cfg, data, ops)
	var comp []byte
	if c.P(1, 3) {
		// through a Reset: the settings in force are the latest ones
		s := NewSink()
		fw := flate.NewWriter(NewSink(), genCfg(c.Rand).Opts()...)
		doWrite(c, fw, genData(c.Rand, 2, c.N(6000)))
		fw.Close()
		opts := cfg.Opts()
		if cfg.Dict == nil {
			opts = append(opts, flate.WithDictionary(nil))
		}
		fw.Reset(s, opts...)
		feed(c, fw, data, ops)
		if err := fw.Close(); err != nil {
			c.Failf("Close: %v", err)
		}
		comp = s.Bytes()
	} else {
		comp = compress(c, cfg, data, ops)
	}
	ref := refVerify(c, "output", comp, RefOpt{Format: cfg.RefFmt(), WBits: 15, Dict: cfg.Dict, Toks: true}, data)
	judgeSettings(c, cfg, ref, len(data))
	c.Eval(len(data) > 0, cfg.String(), opsString(ops), hashOf(data))
	c.Sample("%v payload=%d -> %d bytes, %d streams", cfg, len(data), len(comp), len(ref.Streams))
}

// judgeSettings: every block and token obeys the settings.
func judgeSettings(c *C, cfg Cfg, ref *RefResult, n int) {
	window := 1 << uint(cfg.EffWB())
	if cfg.EffWB() < 15 && n > window {
		c.Count("window-limited", 1)
	}
	for si, st := range ref.Streams {
		switch {
		case cfg.Lvl == 0:
			c.Count("level0-streams", 1)
		case cfg.Strat == flate.HuffmanOnlyStrategy:
			c.Count("huffman-only-streams", 1)
		case cfg.Strat == flate.HuffmanRLEStrategy:
			c.Count("rle-streams", 1)
		case cfg.Strat == flate.FixedStrategy:
			c.Count("fixed-streams", 1)
		default:
			c.Count("default-streams", 1)
		}
		if st.Format == RZlib {
			w := int(st.Hdr.CMF>>4) + 8
			if w != cfg.EffWB() {
				c.Failf("zlib header declares a window of 2^%d, configured is 2^%d", w, cfg.EffWB())
			}
			c.Count("zlib-window-declared", 1)
		}
		for bi, b := range st.Blocks {
			where := fmt.Sprintf("%v: stream %d block %d (bytes %d..%d)", cfg, si, bi, b.OutStart, b.OutEnd)
			c.Count("blocks", 1)
			if cfg.Lvl == 0 && b.Type != 0 {
				// a Partial flush is itself an empty static block
				if !(b.Type == 1 && b.OutStart == b.OutEnd) {
					c.Failf("%s: level 0 produced a compressed block", where)
				}
			}
			if cfg.Strat == flate.FixedStrategy && b.Type == 2 {
				c.Failf("%s: fixed strategy produced a dynamic block", where)
			}
			if cfg.Strat == flate.HuffmanOnlyStrategy && b.NMatch != 0 {
				c.Failf("%s: Huffman-only strategy produced %d back-references", where, b.NMatch)
			}
			for _, t := range b.Toks {
				if t.Lit >= 0 {
					continue
				}
				c.mu.Lock()
				c.stats.Counters["matches"]++
				if cfg.Strat == flate.HuffmanRLEStrategy {
					c.stats.Counters["rle-matches"]++
				}
				if t.Dist*2 > window {
					c.stats.Counters["far-matches"]++
				}
				if t.Len == 258 {
					c.stats.Counters["match-258"]++
				}
				c.mu.Unlock()
				if cfg.Strat == flate.HuffmanRLEStrategy && t.Dist != 1 {
					c.Failf("%s: RLE strategy produced a back-reference at distance %d", where, t.Dist)
				}
				if t.Dist > window {
					c.Failf("%s: back-reference at distance %d exceeds the window of %d", where, t.Dist, window)
				}
				if t.Len > 258 || t.Len < 3 {
					c.Failf("%s: back-reference of length %d", where, t.Len)
				}
			}
			c.Max("distance", b.MaxDist)
		}
	}
}

// documented defaults
var defCfg = Cfg{Fmt: flate.ZlibFormat, Strat: flate.DefaultStrategy, Lvl: 6, Mem: flate.FastestMemory, WB: 15}

func runC20Defaults(c *C, i int) {
	cfg := genCfg(c.Rand)
	unset := c.N(64)
	if i%3 == 0 {
		unset = 63
	}
	var a []flate.Option // the defaults are left out, or given as Default*
	how := ""
	add := func(bit int, name string, set, dflt flate.Option) {
		if unset&bit == 0 {
			a = append(a, set)
			return
		}
		if c.P(1, 2) {
			a = append(a, dflt)
			how += name + "=Default "
		} else {
			how += name + "=unset "
		}
	}
	full := cfg
	if unset&1 != 0 {
		full.Fmt = defCfg.Fmt
	}
	add(1, "format", flate.WithFormat(cfg.Fmt), flate.WithFormat(flate.DefaultFormat))
	if unset&2 != 0 {
		full.Strat = defCfg.Strat
	}
	add(2, "strategy", flate.WithStrategy(cfg.Strat), flate.WithStrategy(flate.DefaultStrategy))
	if unset&4 != 0 {
		full.Lvl = defCfg.Lvl
	}
	add(4, "level", flate.WithCompressLevel(cfg.Lvl), flate.WithCompressLevel(flate.DefaultCompression))
	if unset&8 != 0 {
		full.Mem = defCfg.Mem
	}
	add(8, "memory", flate.WithMemoryLevel(cfg.Mem), flate.WithMemoryLevel(flate.DefaultMemory))
	if unset&16 != 0 {
		full.WB = defCfg.WB
	}
	add(16, "window", flate.WithWindowBits(cfg.WB), flate.WithWindowBits(flate.DefaultWindowBits))
	if unset&32 != 0 {
		full.Dict = nil
	}
	add(32, "dict", flate.WithDictionary(cfg.Dict), flate.WithDictionary(nil))
	if full.Fmt == flate.DefaultFormat {
		full.Fmt = flate.ZlibFormat
	}
	if full.Lvl == flate.DefaultCompression {
		full.Lvl = 6
	}
	if full.Mem == flate.DefaultMemory {
		full.Mem = flate.FastestMemory
	}
	if full.WB == flate.DefaultWindowBits {
		full.WB = 15
	}
	b := append(full.Opts(), flate.WithMethod(flate.DefaultMethod))
	if c.P(1, 2) {
		b = append(full.Opts(), flate.WithMethod(flate.DeflateMethod))
	}
	data := windowData(c, full.EffWB())
	if c.P(1, 3) { // enough to tell memory levels apart
		data = genLZ(c.Rand, 180000, 15)
	}
	ops := genOps(c.Rand, len(data), c.P(1, 2), true)
	c.Note("options %sagainst explicit %v; %d bytes, ops %s", how, full, len(data), opsString(ops))
	run := func(reset bool, opts []flate.Option) []byte {
		s := NewSink()
		var fw *flate.Writer
		if reset {
			// every option set to something else, then back to the default values
			o := genCfg(c.Rand)
			fw = flate.NewWriter(NewSink(), o.Opts()...)
			fw.Close()
			if c.P(1, 2) {
				fw.Reset(NewSink(), genCfg(c.Rand).Opts()...)
				fw.Close()
			}
			opts = []flate.Option{}
			x := cfg
			if unset&1 != 0 {
				x.Fmt = flate.DefaultFormat
			}
			if unset&2 != 0 {
				x.Strat = flate.DefaultStrategy
			}
			if unset&4 != 0 {
				x.Lvl = flate.DefaultCompression
			}
			if unset&8 != 0 {
				x.Mem = flate.DefaultMemory
			}
			if unset&16 != 0 {
				x.WB = flate.DefaultWindowBits
			}
			if unset&32 != 0 {
				x.Dict = nil
			}
			opts = append(opts, flate.WithFormat(x.Fmt), flate.WithStrategy(x.Strat), flate.WithCompressLevel(x.Lvl), flate.WithMemoryLevel(x.Mem), flate.WithWindowBits(x.WB), flate.WithDictionary(x.Dict))
			fw.Reset(s, opts...)
		} else {
			fw = flate.NewWriter(s, opts...)
		}
		feed(c, fw, data, ops)
		if err := fw.Close(); err != nil {
			c.Failf("Close: %v", err)
		}
		return s.Bytes()
	}
	want := run(false, b)
	if got := run(false, a); !bytes.Equal(got, want) {
		c.Failf("unset options give other output than the documented defaults: %s", diffAt(got, want))
	}
	c.Count("unset-compared", 1)
	c.Eval(len(data) > 0, unset, full.String(), opsString(ops), hashOf(data))
	if c.P(1, 2) {
		if got := run(true, nil); !bytes.Equal(got, want) {
			c.Failf("a Writer reset to default values gives other output than the documented defaults: %s", diffAt(got, want))
		}
		c.Count("reset-to-default", 1)
		c.Eval(len(data) > 0, "reset", unset, full.String(), opsString(ops), hashOf(data))
	}
}

// ---------------------------------------------------------------- C21

func memBlock(m flate.MemoryLevel) int {
	if m == 0 {
		m = flate.FastestMemory
	}
	n := 1 << uint(m+8)
	if n > 4096 {
		n = 4096
	}
	return n
}

func countOps(ops []Op) (flushes, streams int) {
	streams = 1
	for _, o := range ops {
		if o.K == 'F' {
			flushes++
			if o.FT == flate.FinishFlush {
				streams++
			}
		}
	}
	return
}

func runC21(c *C, i int) {
	if i%2 == 1 {
		runC21Compress(c, i/2)
		return
	}
	cfg := sweepCfg(c, i/2)
	var data []byte
	switch c.N(5) {
	case 0, 1:
		data = genData(c.Rand, 0, genSize(c.Rand, 300000))
		c.Count("incompressible", 1)
	case 2: // just above the break-even of Huffman coding
		data = genData(c.Rand, 0, genSize(c.Rand, 100000))
		for k := range data {
			if c.P(1, 3) {
				data[k] &= byte(c.Pick(0x7f, 0x3f, 0xfe))
			} else if data[k] < 144 && c.P(1, 2) {
				data[k] += 112
			}
		}
	case 3: // high literals: 9 bits each in the static code
		data = genData(c.Rand, 0, genSize(c.Rand, 100000))
		for k := range data {
			data[k] |= 0x90
		}
	default:
		data = payloadFor(c, i)
	}
	ops := opsFor(c, i, len(data), true)
	noteOps(c, cfg, data, ops)
	comp := compress(c, cfg, data, ops)
	flushes, streams := countOps(ops)
	// every block is at least memBlock bytes, except where a flush ends it
	blk := memBlock(cfg.Mem)
	limit := len(data) + 7*(len(data)/blk+len(data)/61440+1) + 14*flushes + 40*streams
	if len(comp) > limit {
		c.Failf("%d bytes were expanded to %d (bound %d: %d blocks of at least %d bytes, %d flushes, %d streams)", len(data), len(comp), limit, len(data)/blk+1, blk, flushes, streams)
	}
	if over := len(comp) - len(data); over > 0 && len(data) > 4096 && flushes == 0 {
		c.Max("expansion-per-mille", over*1000/len(data))
	}
	c.Count("expansion-judged", 1)
	c.Eval(len(data) >= 256, cfg.String(), opsString(ops), hashOf(data))
	c.Sample("%v payload=%d -> %d bytes, bound %d, ops %s", cfg, len(data), len(comp), limit, opsString(ops))
}

func noFinish(ops []Op) []Op {
	for k := range ops {
		if ops[k].K == 'F' && (ops[k].FT == flate.FinishFlush || ops[k].FT == flate.FullFlush) {
			ops[k].FT = flate.FlushType(c21Flush[k%3])
		}
	}
	return ops
}

var c21Flush = []flate.FlushType{flate.BlockFlush, flate.PartialFlush, flate.SyncFlush}

func runC21Compress(c *C, i int) {
	cfg := genCfg(c.Rand)
	cfg.Strat = flate.DefaultStrategy
	cfg.Dict = nil
	if cfg.Lvl == 0 {
		cfg.Lvl = flate.CompressLevel(c.In(1, 9))
	}
	wb := cfg.EffWB()
	w := 1 << uint(wb)
	mem := cfg.Mem
	if mem == 0 {
		mem = flate.FastestMemory
	}
	// A low memory level has a small match table (2^(level+11) entries), in
	// which newer material displaces older material.
	if reach := 1 << uint(mem+11-2); w > reach {
		w = reach
	}
	blk := memBlock(cfg.Mem)
	var data []byte
	var ops []Op
	fresh := 0 // bytes that are new material
	reps := 0  // number of repeats (each costs at least one token per 258 bytes)
	what := ""
	kind := i % 5
	if kind < 4 && cfg.Fmt != flate.GZIPFormat && c.P(1, 3) {
		cfg.Dict = genDict(c.Rand) // has nothing to do with the data
		c.Count("with-unrelated-dict", 1)
	}
	if kind == 1 && c.P(1, 2) {
		kind = 5
	}
	switch kind {
	case 5: // words out of a small vocabulary
		l := c.In(10, 40)
		v := w / 8 / l
		if v > 200 {
			v = 200
		}
		if v < 2 {
			v = 2
		}
		if v*l*4 > w {
			l = 10
		}
		words := make([][]byte, v)
		for k := range words {
			words[k] = c.Bytes(l)
		}
		n := c.In(500, 4000)
		for k := 0; k < n; k++ {
			data = append(data, words[c.N(v)]...)
		}
		// a word need not be found if its last use was too long ago
		fresh, reps = v*l+len(data)*4/8, 1
		what = fmt.Sprintf("%d words of %d bytes", v, l)
		c.Count("words-judged", 1)
		ops = noFinish(genOps(c.Rand, len(data), false, false))
	case 0: // a run
		data = genData(c.Rand, 1, c.Pick(1000, 4096, 30000, 65536, 100000, 200000)+c.N(100))
		fresh, reps = 1, 1
		what = "run"
		c.Count("runs-judged", 1)
		if c.P(1, 3) { // these are for runs, or look for matches as well
			cfg.Strat = flate.Strategy(c.Pick(int(flate.HuffmanRLEStrategy), int(flate.FixedStrategy)))
			c.Count("runs-other-strategies", 1)
		}
		ops = noFinish(genOps(c.Rand, len(data), false, false))
	case 1: // a period
		p := 1 + c.N(w)
		if p > 2000 && c.P(1, 2) {
			p = c.In(2, 300)
		}
		unit := c.Bytes(p)
		n := p*c.In(4, 40) + 1000
		if n > 300000 {
			n = 300000
		}
		if n < 3*p {
			n = 3 * p
		}
		for len(data) < n {
			data = append(data, unit...)
		}
		data = data[:n]
		fresh, reps = p, 1
		what = fmt.Sprintf("period %d", p)
		c.Count("periodic-judged", 1)
		ops = noFinish(genOps(c.Rand, len(data), false, false))
	case 2, 3: // a repeat at a distance within the window, possibly after a Write or flush boundary
		m := c.In(40, w/2)
		if m > 6000 {
			m = c.In(40, 6000)
		}
		// like zlib's own compressor, the last few positions of the window
		// need not be found
		gapMax := w - m - 262
		if gapMax < 0 {
			gapMax = 0
		}
		unit := c.Bytes(m)
		k := c.In(3, 12)
		for r := 0; r <= k; r++ {
			data = append(data, unit...)
			ops = append(ops, Op{K: 'W', N: m})
			reps++
			if kind == 3 {
				ops = append(ops, Op{K: 'F', FT: c21Flush[c.N(3)]})
			}
			if r < k {
				g := 0
				if c.P(1, 2) {
					g = c.N(gapMax + 1)
				}
				if c.P(1, 3) {
					g = gapMax - c.N(3)
					if g < 0 {
						g = 0
					}
				}
				if g > 3000 && c.P(2, 3) {
					g = c.N(3000)
				}
				if g > 0 {
					data = append(data, c.Bytes(g)...)
					ops = append(ops, Op{K: 'W', N: g})
					fresh += g
				}
			}
		}
		fresh += m
		what = fmt.Sprintf("%d repeats of %d bytes, %d fresh", reps-1, m, fresh)
		c.Count("repeats-judged", 1)
		if kind == 3 {
			c.Count("repeat-across-flush", 1)
		} else {
			c.Count("repeat-across-write", 1)
			if c.P(1, 2) { // one piece: all in one buffer
				ops = []Op{{K: 'W', N: len(data)}}
			}
		}
	default: // the material is in the dictionary
		if cfg.Fmt == flate.GZIPFormat {
			cfg.Fmt = flate.ZlibFormat
		}
		m := c.In(40, w)
		unit := c.Bytes(m)
		cfg.Dict = unit
		off := c.N(m - 39)
		data = append(data, unit[off:]...)
		fresh, reps = 0, 1
		what = fmt.Sprintf("dictionary of %d bytes, data repeats it from %d", m, off)
		c.Count("dict-judged", 1)
		ops = []Op{{K: 'W', N: len(data)}}
		// every further stream starts from the dictionary again
		one := data
		for k := c.N(3); k > 0; k-- {
			data = append(data[:len(data):len(data)], one...)
			ops = append(ops, Op{K: 'F', FT: flate.FinishFlush}, Op{K: 'W', N: len(one)})
			reps++
			c.Count("dict-later-streams", 1)
		}
	}
	noteOps(c, cfg, data, ops)
	c.Note("%s", what)
	comp := compress(c, cfg, data, ops)
	refVerify(c, "output", comp, RefOpt{Format: cfg.RefFmt(), WBits: wb, Dict: cfg.Dict}, data)
	flushes, streams := countOps(ops)
	nblk := len(data)/blk + flushes + 1
	// New material costs its size; repeated material is allowed an eighth of
	// its size plus a few bytes per repeat and per block.
	part := 8
	if kind == 0 { // even a bit per byte would be too much
		part = 32
	}
	limit := fresh + fresh/50 + (len(data)-fresh)/part + 16*reps + 12*nblk + 14*flushes + 40*streams + 20
	c.Max("permille-of-bound", len(comp)*1000/limit)
	if len(comp) > limit {
		c.Failf("%s: %d bytes of which only %d are new took %d bytes (bound %d)", what, len(data), fresh, len(comp), limit)
	}
	c.Eval(len(data) >= 256, cfg.String(), opsString(ops), hashOf(data))
	c.Sample("%v %s: %d -> %d bytes, bound %d", cfg, what, len(data), len(comp), limit)
}
