package main

import (
	"bytes"
	stdflate "compress/flate"
	stdgzip "compress/gzip"
	stdzlib "compress/zlib"
	"io"

	"github.com/chronos-tachyon/flate"
)

func tierN(q, t int) func(string) int {
	return func(tier string) int {
		if tier == "thorough" {
			return t
		}
		return q
	}
}

// sweepCfg walks systematically through the option space for the first cases
// and draws at random afterwards.
func sweepCfg(c *C, i int) Cfg {
	cfg := genCfg(c.Rand)
	if i < 360 {
		// levels -1..9 x strategies x memory levels coverage by stepping
		cfg.Lvl = flate.CompressLevel(i%11 - 1)
		cfg.Strat = flate.Strategy((i / 3) % 4)
		cfg.Mem = flate.MemoryLevel((i / 5) % 10)
		cfg.WB = allWB[(i/7)%9]
		cfg.Fmt = flate.Format((i / 2) % 4)
	}
	return cfg
}

func init() {
	register(&Prop{
		ID: "C01", N: tierN(4000, 60000), Run: runC01,
		Rule: "case = (configuration, payload kind and size, Write/Flush history) drawn from the seed; each is compressed by a monitored Writer and read back by one or two Readers (auto/explicit format, random memory level, window, source chunking and Read sizes); non-trivial: at least 16 bytes of payload; distinct by hash of configuration, history and payload",
		Need: []string{"roundtrips", "multi-write", "with-flush", "with-dict", "over-64KiB-write", "streams>1", "long-roundtrips"},
	})
	register(&Prop{
		ID: "C02", N: tierN(8000, 60000), Run: runC02,
		Rule: "as C01, but the output is judged by a strict reference decoder written from the RFCs and, where it applies, by the Go standard library; distinct by hash of the produced stream, non-trivial if it has at least one Huffman block or more than one block",
		Need: []string{"streams", "blocks-stored", "blocks-static", "blocks-dynamic", "std-agreed", "matches", "huge-write"},
	})
}

func payloadFor(c *C, i int) []byte {
	max := 300000
	switch {
	case i%13 == 0:
		return genData(c.Rand, 4, c.Pick(20000, 50000, 150000, 4000)) // deep trees
	case i%17 == 0:
		return genData(c.Rand, 0, c.Pick(65535, 65536, 70000, 131072, 200000)) // big incompressible
	case i%19 == 0:
		return genData(c.Rand, 10, genSize(c.Rand, max))
	case i%5 != 0:
		max = 40000
	}
	return genPayload(c.Rand, max)
}

func opsFor(c *C, i int, n int, finish bool) []Op {
	if i%17 == 0 || i%29 == 0 {
		return []Op{{K: 'W', N: n}} // one big Write
	}
	return genOps(c.Rand, n, c.P(1, 2), finish)
}

func noteOps(c *C, cfg Cfg, data []byte, ops []Op) {
	c.Note("%v, %d bytes, ops %s", cfg, len(data), opsString(ops))
	w, f, big, fin := 0, 0, 0, 0
	for _, o := range ops {
		if o.K == 'W' {
			w++
			if o.N > 65536 {
				big++
			}
		} else {
			f++
			if o.FT == flate.FinishFlush {
				fin++
			}
		}
	}
	if w > 1 {
		c.Count("multi-write", 1)
	}
	if f > 0 {
		c.Count("with-flush", 1)
	}
	if big > 0 {
		c.Count("over-64KiB-write", 1)
	}
	if fin > 1 {
		c.Count("streams>1", 1)
	}
	if cfg.Dict != nil {
		c.Count("with-dict", 1)
	}
	c.Count("writes", w)
	c.Count("flushes", f)
	c.Count("bytes", len(data))
}

// runC01Long is a round trip of several MiB through one Writer and one Reader:
// total counters, window positions and hash tables wrap many times.
func runC01Long(c *C, i int) {
	cfg := genCfg(c.Rand)
	n := c.In(2<<20, 6<<20)
	if c.Thorough() {
		n = c.In(4<<20, 20<<20)
	}
	var data []byte
	for len(data) < n {
		k := c.N(nDataKinds)
		if k == 4 {
			k = 2
		}
		data = append(data, genData(c.Rand, k, c.In(1, 400000))...)
		if len(data) > 40000 && c.P(1, 2) { // far repeats
			at := len(data) - c.In(1, 40000)
			m := c.In(1, len(data)-at)
			data = append(data, data[at:at+m]...)
		}
	}
	c.Note("%v, long payload %d bytes", cfg, len(data))
	sink := NewSink()
	fw := newWriter(c, sink, cfg.Opts()...)
	for o := 0; o < len(data); {
		m := c.Pick(1, 300, 4096, 32768, 65536, c.In(1, 200000), c.In(1, 200000), 1<<20)
		if m > len(data)-o {
			m = len(data) - o
		}
		doWrite(c, fw, data[o:o+m])
		o += m
	}
	if err := fw.Close(); err != nil {
		c.Failf("Close: %v", err)
	}
	comp := sink.Bytes()
	rc := genRCfg(c.Rand, cfg.RefFmt(), cfg.EffWB(), cfg.Dict)
	fr := newReader(c, PlainSrc(comp), rc.Opts()...)
	got, buf := 0, make([]byte, 100000)
	for {
		m, err := fr.Read(buf[:c.Pick(1, 1000, 32768, 65536, 100000)])
		if m < 0 || got+m > len(data) || !bytes.Equal(buf[:m], data[got:got+m]) {
			c.Failf("long round trip: wrong data in the %d bytes delivered at offset %d of %d", m, got, len(data))
		}
		got += m
		if err == io.EOF {
			break
		}
		if err != nil {
			c.Failf("long round trip: reader returned %v at offset %d of %d", err, got, len(data))
		}
	}
	if got != len(data) {
		c.Failf("long round trip: io.EOF after %d of %d bytes", got, len(data))
	}
	fr.Close()
	c.Count("roundtrips", 1)
	c.Count("long-roundtrips", 1)
	c.Count("bytes", len(data))
	c.Max("payload-bytes", len(data))
	c.Eval(true, cfg.String(), "long", hashOf(data))
}

func runC01(c *C, i int) {
	if i%325 == 11 {
		runC01Long(c, i)
		return
	}
	cfg := sweepCfg(c, i)
	data := payloadFor(c, i)
	ops := opsFor(c, i, len(data), true)
	noteOps(c, cfg, data, ops)
	comp := compress(c, cfg, data, ops)
	for k := 0; k < 2; k++ {
		f := cfg.RefFmt()
		if k == 1 {
			if f == RRaw && looksLikeContainer(comp) {
				continue
			}
			f = RAuto
		}
		rc := genRCfg(c.Rand, f, cfg.EffWB(), cfg.Dict)
		src := NewSrc(c.Rand, comp)
		fr := newReader(c, src, rc.Opts()...)
		got, err := readAll(c, fr, c.Rand)
		if err != io.EOF || !bytes.Equal(got, data) {
			c.Failf("round trip: reader returned error %v, %s; %v %v, compressed %d bytes", err, diffAt(got, data), rc, src, len(comp))
		}
		fr.Close()
		c.Count("roundtrips", 1)
	}
	c.Eval(len(data) >= 16, cfg.String(), opsString(ops), hashOf(data))
	c.Max("payload-bytes", len(data))
	c.Sample("%v payload=%d bytes compressed=%d ops=%s", cfg, len(data), len(comp), opsString(ops))
}

func stdDecode(f RefFormat, comp, dict []byte) ([]byte, error) {
	br := bytes.NewReader(comp)
	var r io.Reader
	var err error
	switch f {
	case RRaw:
		r = stdflate.NewReaderDict(br, dict)
	case RZlib:
		r, err = stdzlib.NewReaderDict(br, dict)
	case RGzip:
		var g *stdgzip.Reader
		g, err = stdgzip.NewReader(br)
		if err == nil {
			g.Multistream(false)
		}
		r = g
	}
	if err != nil {
		return nil, err
	}
	return io.ReadAll(r)
}

func runC02(c *C, i int) {
	if i == 0 {
		hugeWrite(c)
		return
	}
	cfg := sweepCfg(c, i)
	data := payloadFor(c, i+1)
	ops := opsFor(c, i+1, len(data), true)
	noteOps(c, cfg, data, ops)
	comp := compress(c, cfg, data, ops)
	ref := refVerify(c, "writer output", comp, RefOpt{Format: cfg.RefFmt(), WBits: cfg.EffWB(), Dict: cfg.Dict}, data)
	huff := 0
	for si, st := range ref.Streams {
		c.Count("streams", 1)
		// the standard library reads single streams
		if !(cfg.Dict != nil && st.Format == RGzip) {
			dict := cfg.Dict
			if st.Format == RRaw && len(dict) > 1<<uint(cfg.EffWB()) {
				dict = dict[len(dict)-1<<uint(cfg.EffWB()):]
			}
			out, err := stdDecode(st.Format, comp[st.Start:st.End], dict)
			if err != nil || !bytes.Equal(out, data[st.OutStart:st.OutEnd]) {
				c.Failf("stream %d: the standard library disagrees: err=%v %s", si, err, diffAt(out, data[st.OutStart:st.OutEnd]))
			}
			c.Count("std-agreed", 1)
		}
		if !st.Blocks[len(st.Blocks)-1].Final {
			c.Failf("stream %d has no final block", si)
		}
		for bi, b := range st.Blocks {
			c.Count([]string{"blocks-stored", "blocks-static", "blocks-dynamic"}[b.Type], 1)
			if b.Type != 0 {
				huff++
			}
			c.Count("matches", b.NMatch)
			if b.MaxDist > 1<<uint(cfg.EffWB()) {
				c.Failf("stream %d block %d: distance %d beyond window 2^%d", si, bi, b.MaxDist, cfg.EffWB())
			}
			if b.Type == 2 {
				m := byte(0)
				for _, l := range b.LL {
					if l > m {
						m = l
					}
				}
				c.Max("max-literal-code-bits", int(m))
				m = 0
				for _, l := range b.CL {
					if l > m {
						m = l
					}
				}
				c.Max("max-codelength-code-bits", int(m))
			}
		}
		switch st.Format {
		case RZlib:
			if w := int(st.Hdr.CMF>>4) + 8; w != cfg.EffWB() {
				c.Failf("zlib header declares window 2^%d, configured 2^%d", w, cfg.EffWB())
			}
			if (cfg.Dict != nil) != st.Hdr.HasDict {
				c.Failf("zlib FDICT flag %v, dictionary configured %v", st.Hdr.HasDict, cfg.Dict != nil)
			}
		case RGzip:
			if st.Hdr.Flags&2 == 0 && st.Hdr.Flags&^1 != 0 {
				c.Failf("gzip flags %#x for a header without optional fields", st.Hdr.Flags)
			}
		}
	}
	c.Eval(huff > 0 || len(ref.Streams[0].Blocks) > 1, hashOf(comp))
	c.Sample("%v payload=%d bytes compressed=%d streams=%d first block type %d", cfg, len(data), len(comp), len(ref.Streams), ref.Streams[0].Blocks[0].Type)
}
