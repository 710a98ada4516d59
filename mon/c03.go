package main

import (
	"bytes"
	stdflate "compress/flate"
	stdgzip "compress/gzip"
	stdzlib "compress/zlib"
	"encoding/binary"
	"fmt"
	"hash/adler32"
	"hash/crc32"
	"io"
	"runtime"
	"strings"
	"sync/atomic"

	"github.com/chronos-tachyon/flate"
)

func init() {
	register(&Prop{
		ID: "C03", N: tierN(3600, 90000), Run: runC03,
		Rule: "case = one valid stream drawn by a generator that uses the whole freedom of the RFCs (or produced by the Go standard library's encoders), read by three Readers with different memory levels, windows, source chunkings and Read sizes; non-trivial: has at least one Huffman block or two blocks; distinct by hash of the stream",
		Need: []string{"f-stored", "f-static", "f-dynamic", "f-code15", "f-dist32768", "f-len258", "f-overlap", "f-repeatcross", "f-onedist", "f-nodist", "f-cl7", "f-hlit286", "f-hdist30", "f-fextra", "f-fhcrc", "f-fname", "f-fcomment", "f-stored65535", "f-dictref", "f-emptyblock", "std-encoded", "large", "huge-read"},
	})
	register(&Prop{
		ID: "C04", N: tierN(12000, 90000), Run: runC04,
		Rule: "case = an invalid or tampered stream (deliberately placed violation, mutation, truncation or mismatched Reader configuration); some cases enumerate every single-bit flip or every truncation of one small stream; the reference decoder gives the verdict. evaluations = tampered inputs judged; non-trivial: the reference rejects it strictly; distinct by hash of input and configuration",
		Need: []string{"rejected-corrupt", "rejected-truncated", "placed", "flips-enumerated", "truncations-enumerated", "config-mismatch", "later-stream-judged", "cumulative-trailer"},
	})
	register(&Prop{
		ID: "C05", N: tierN(5000, 80000), Run: runC05,
		Rule: "case = a truncated, corrupted or complete input, read with contract monitoring; judged on kind of error, data delivered before it, offsets, stickiness. Small streams are truncated at every byte. evaluations = inputs judged; non-trivial: the reference rejects it strictly and at least one byte precedes the failure; distinct by hash of input and configuration",
		Need: []string{"kind-corrupt", "kind-truncated", "safe-data-before-error", "truncations-enumerated", "truncated-with-dictionary", "later-stream", "corrupt-in-later-stream", "byte-by-byte", "eof", "huge-read"},
	})
	register(&Prop{
		ID: "C06", N: tierN(8000, 80000), Run: runC06,
		Rule: "case = hostile bytes (random, random after a valid header, mutated, spliced, decompression bombs, endless headers) given to a Reader and, for gzip extra fields, to ExtraData.Parse; watched for panics in any goroutine, deadlock, CPU time, heap growth and left-over goroutines; non-trivial: at least 3 bytes; distinct by hash of the input",
		Need: []string{"hostile", "bomb-bytes", "hoard", "long-header", "extra-parsed", "many-records", "ended-eof", "ended-error"},
	})
	register(&Prop{
		ID: "C07", N: tierN(3600, 60000), Run: runC07,
		Rule: "case = one input (valid, truncated or corrupt) read once from a plain source and then from differently chunked sources, comparing data, error and full event traces; or a source failing after k bytes (every k for small inputs). evaluations = runs compared or judged; non-trivial: input of at least 8 bytes; distinct by hash of input, chunking and failure point",
		Need: []string{"chunkings", "fail-positions", "fail-with-data", "events-compared"},
	})
}

func stdEncode(r *Rand, f RefFormat, data, dict []byte) []byte {
	var b bytes.Buffer
	lvl := r.In(-2, 9)
	var w io.WriteCloser
	switch f {
	case RRaw:
		if dict != nil {
			w, _ = stdflate.NewWriterDict(&b, lvl, dict)
		} else {
			w, _ = stdflate.NewWriter(&b, lvl)
		}
	case RZlib:
		w, _ = stdzlib.NewWriterLevelDict(&b, lvl, dict)
	default:
		w, _ = stdgzip.NewWriterLevel(&b, lvl)
	}
	for len(data) > 0 {
		n := r.In(1, len(data))
		w.Write(data[:n])
		data = data[n:]
		if r.P(1, 3) {
			w.(interface{ Flush() error }).Flush()
		}
	}
	w.Close()
	return b.Bytes()
}

func runC03(c *C, i int) {
	if i < 2 { // one shard each
		hugeRead(c, RGzip-RefFormat(i), false)
		return
	}
	f := RefFormat(1 + c.N(3))
	feat := map[string]int{}
	g := &genOpt{size: genOutSize(c.Rand), feature: feat}
	if i%40 == 7 {
		g.size = c.Pick(300000, 600000)
		c.Count("large", 1)
	}
	if c.P(1, 5) {
		g.dict = genDict(c.Rand)
	}
	var s *GenStream
	if i%6 == 5 {
		if f == RGzip {
			g.dict = nil
		}
		data := genPayload(c.Rand, 100000)
		dict := g.dict
		if f == RRaw && len(dict) > 32768 {
			dict = dict[len(dict)-32768:]
		}
		s = &GenStream{Format: f, Comp: stdEncode(c.Rand, f, data, dict), Out: data, WBits: 15}
		c.Count("std-encoded", 1)
	} else {
		s = genStream(c.Rand, f, g)
	}
	ref := RefDecode(s.Comp, RefOpt{Format: f, WBits: s.WBits, Dict: g.dict})
	if ref.Err != 0 || ref.Lenient || !bytes.Equal(ref.Out, s.Out) {
		panic(fmt.Sprintf("HARNESS: generator and reference disagree: %v %s %v %s", ref.Err, ref.Msg, ref.Lenient, ref.LenientWhy))
	}
	for k := range feat {
		c.Count("f-"+k, 1)
	}
	for k := 0; k < 3; k++ {
		rc := genRCfg(c.Rand, f, s.WBits, g.dict)
		if c.P(1, 4) {
			rc.Mem = 1
		}
		if k == 2 && !(f == RRaw && looksLikeContainer(s.Comp)) {
			rc.Fmt = RAuto
		}
		src := NewSrc(c.Rand, s.Comp)
		fr := newReader(c, src, rc.Opts()...)
		got, err := readAll(c, fr, c.Rand)
		if err != io.EOF || !bytes.Equal(got, s.Out) {
			c.Failf("valid %v stream (%d bytes, window 2^%d, dict %d, features %v) read by %v from %v: error %v, %s",
				f, len(s.Comp), s.WBits, len(g.dict), feat, rc, src, err, diffAt(got, s.Out))
		}
		c.Count("reads", 1)
	}
	c.Max("stream-bytes", len(s.Comp))
	c.Max("output-bytes", len(s.Out))
	st := ref.Streams[0]
	c.Eval(len(st.Blocks) > 1 || st.Blocks[0].Type != 0, hashOf(s.Comp))
	c.Sample("%v stream of %d bytes, %d blocks, output %d, features %v", f, len(s.Comp), len(st.Blocks), len(s.Out), feat)
}

// ---------------------------------------------------------------- bad inputs

type badCase struct {
	in   []byte
	rc   RCfg
	kind string
}

// genBadCase draws a probably invalid input together with the Reader's
// configuration.
func genBadCase(c *C, i int) badCase {
	f := RefFormat(1 + c.N(3))
	g := &genOpt{size: c.Pick(0, 1, 10, 100, 1000, 5000, 40000)}
	g.wbits = c.Pick(8, 9, 10, 12, 15, 15)
	if c.P(1, 6) {
		g.dict = genDict(c.Rand)
	}
	var b badCase
	switch i % 4 {
	case 0, 1: // placed
		k := (i / 4) % nBadKinds
		dl := len(g.dict)
		body := genBad(c.Rand, k, dl, g.wbits)
		s := wrapStream(c.Rand, f, body, nil, g.dict, g.wbits, g)
		b.in = s.Comp
		b.kind = fmt.Sprintf("placed-%d", k)
		b.rc = RCfg{Fmt: f, Mem: flate.MemoryLevel(c.N(10)), WB: flate.WindowBits(g.wbits), Dict: g.dict}
		if f == RRaw && looksLikeContainer(b.in) {
			return b
		}
		if c.P(1, 4) {
			b.rc.Fmt = RAuto
		}
	case 2: // mutation
		s := genStream(c.Rand, f, g)
		b.in, b.kind = mutate(c.Rand, s)
		b.rc = genRCfg(c.Rand, f, s.WBits, g.dict)
		if c.P(1, 3) {
			b.rc.Fmt = RAuto
		}
	default: // configuration mismatch
		s := genStream(c.Rand, f, g)
		b.in = s.Comp
		b.kind = "config"
		b.rc = genRCfg(c.Rand, f, s.WBits, g.dict)
		switch c.N(5) {
		case 0: // other dictionary
			d := genDict(c.Rand)
			if g.dict != nil && c.P(1, 2) {
				d = append([]byte(nil), g.dict...)
				d[c.N(len(d))] ^= 1
			}
			b.rc.Dict = d
		case 1:
			b.rc.Dict = nil
		case 2: // other format
			b.rc.Fmt = RefFormat(1 + c.N(3))
		case 3: // smaller window
			b.rc.WB = flate.WindowBits(c.In(8, 15))
		case 4: // second stream missing parts
			s2 := genStream(c.Rand, f, &genOpt{size: 50, dict: g.dict, wbits: g.wbits})
			n := c.N(len(s2.Comp) + 1)
			b.in = append(append([]byte(nil), s.Comp...), s2.Comp[:n]...)
		}
	}
	return b
}

// later puts good streams in front: the failure is in a later stream.
func (b *badCase) later(c *C) {
	var pre []byte
	for k := c.In(1, 3); k > 0; k-- {
		f := b.rc.Fmt
		if f == RAuto {
			f = RefFormat(c.In(2, 3))
		}
		pre = append(pre, genStream(c.Rand, f, &genOpt{size: c.Pick(0, 10, 2000), wbits: 8, dict: b.rc.Dict}).Comp...)
	}
	b.in = append(pre, b.in...)
	b.kind = "later stream: " + b.kind
	c.Count("later-stream", 1)
}

// genCumulative concatenates streams and gives a later one the checksum or
// length of something else: of all the data so far, of the stream before, of
// the last two, of the compressed bytes.
func genCumulative(c *C) badCase {
	f := RGzip
	if c.P(1, 4) {
		f = RZlib
	}
	var in, all, last, comp []byte
	wb := 8
	n := c.In(2, 4)
	for k := 0; k < n; k++ {
		s := genStream(c.Rand, f, &genOpt{size: c.Pick(1, 10, 300, 5000)})
		if s.WBits > wb {
			wb = s.WBits
		}
		if k == n-1 {
			comp = s.Comp
			break
		}
		in = append(in, s.Comp...)
		all = append(all, s.Out...)
		last = s.Out
	}
	own, err := decodeOwn(f, comp, wb)
	if err != nil {
		panic("HARNESS: genCumulative")
	}
	alt := [][]byte{append(append([]byte(nil), all...), own...), last, all, append(append([]byte(nil), last...), own...), comp, nil}[c.N(6)]
	t := append([]byte(nil), comp...)
	kind := "cumulative checksum"
	switch {
	case f == RZlib:
		binary.BigEndian.PutUint32(t[len(t)-4:], adler32.Checksum(alt))
	case c.P(1, 2):
		binary.LittleEndian.PutUint32(t[len(t)-8:], crc32.ChecksumIEEE(alt))
	default:
		kind = "cumulative length"
		binary.LittleEndian.PutUint32(t[len(t)-4:], uint32(len(alt)))
	}
	rc := RCfg{Fmt: f, Mem: flate.MemoryLevel(c.N(10)), WB: flate.WindowBits(wb)}
	if c.P(1, 3) {
		rc.Fmt = RAuto
	}
	return badCase{in: append(in, t...), rc: rc, kind: kind}
}

func decodeOwn(f RefFormat, comp []byte, wb int) ([]byte, error) {
	ref := RefDecode(comp, RefOpt{Format: f, WBits: wb})
	if ref.Err != 0 {
		return nil, fmt.Errorf("%v", ref.Err)
	}
	return ref.Out, nil
}

func countVerdict(c *C, ref *RefResult) bool {
	switch {
	case ref.Lenient:
		c.Count("lenient", 1)
		return false
	case ref.Err == 0:
		c.Count("valid", 1)
		return false
	case ref.Err&ETrunc != 0:
		c.Count("rejected-truncated", 1)
	default:
		c.Count("rejected-corrupt", 1)
	}
	return true
}

func readBad(c *C, what string, in []byte, rc RCfg, plain bool, mode int) *RefResult {
	opt := rc.Ref()
	opt.MaxOut = 16 << 20
	ref := RefDecode(in, opt)
	var src *Src
	if plain {
		src = PlainSrc(in)
	} else {
		src = NewSrc(c.Rand, in)
	}
	fr := newReader(c, src, rc.Opts()...)
	got, err := readAll(c, fr, c.Rand)
	judgeRead(c, fmt.Sprintf("%s, %d bytes, %v", what, len(in), rc), got, err, ref, len(in), mode)
	if mode&jPrecise != 0 && len(in) < 20000 && c.P(1, 6) {
		// what the error says does not depend on how much the Reader had
		// fetched when it failed
		one := PlainSrc(in)
		one.mode, one.chunk = srcFixed, 1
		fr = flate.NewReader(one, rc.Opts()...)
		got1, err1 := readAll(c, fr, c.Rand.Fork())
		if fmt.Sprint(err1) != fmt.Sprint(err) || !bytes.Equal(got1, got) {
			c.Failf("%s, %d bytes, %v: read from %v: %d bytes then %v; from a source giving single bytes: %d bytes then %v", what, len(in), rc, src, len(got), err, len(got1), err1)
		}
		c.Count("byte-by-byte", 1)
	}
	return ref
}

func runC04(c *C, i int) {
	switch {
	case i%20 == 3: // every truncation and every bit flip of one small stream
		f := RefFormat(1 + c.N(3))
		g := &genOpt{size: c.Pick(0, 1, 5, 20, 60), maxBlk: 3, wbits: c.Pick(8, 10, 15)}
		if c.P(1, 4) {
			g.dict = genDict(c.Rand)
		}
		var s *GenStream
		for {
			s = genStream(c.Rand, f, g)
			if len(s.Comp) < 260 {
				break
			}
		}
		rc := RCfg{Fmt: f, Mem: 1, WB: flate.WindowBits(s.WBits), Dict: g.dict}
		if c.P(1, 3) {
			rc.Fmt = RAuto
		}
		fr := flate.NewReader(PlainSrc(nil), rc.Opts()...)
		buf := make([]byte, 4096)
		try := func(in []byte, what string) {
			opt := rc.Ref()
			opt.MaxOut = 1 << 20
			ref := RefDecode(in, opt)
			fr.Reset(PlainSrc(in))
			var got []byte
			var err error
			for err == nil {
				var n int
				n, err = fr.Read(buf)
				got = append(got, buf[:n]...)
				if len(got) > 1<<21 {
					c.Failf("%s: endless output", what)
				}
			}
			judgeRead(c, what, got, err, ref, len(in), jAccept)
			nt := countVerdict(c, ref)
			c.Eval(nt, hashOf(in), rc.String())
		}
		for k := 1; k < len(s.Comp); k++ {
			try(s.Comp[:k], fmt.Sprintf("%v stream truncated to %d of %d bytes", f, k, len(s.Comp)))
			c.Count("truncations-enumerated", 1)
		}
		for k := 0; k < 8*len(s.Comp); k++ {
			b := append([]byte(nil), s.Comp...)
			b[k/8] ^= 1 << uint(k%8)
			try(b, fmt.Sprintf("%v stream of %d bytes with bit %d flipped", f, len(s.Comp), k))
			c.Count("flips-enumerated", 1)
		}
		return
	}
	if i%20 == 13 {
		b := genCumulative(c)
		ref := readBad(c, b.kind, b.in, b.rc, false, jAccept)
		nt := countVerdict(c, ref)
		c.Count("cumulative-trailer", 1)
		c.Eval(nt, hashOf(b.in), b.rc.String())
		return
	}
	b := genBadCase(c, i)
	later := c.P(1, 4)
	if later {
		b.later(c)
	}
	ref := readBad(c, b.kind, b.in, b.rc, false, jAccept)
	if later && ref.Err != 0 && len(ref.Streams) > 1 {
		c.Count("later-stream-judged", 1)
	}
	nt := countVerdict(c, ref)
	if nt {
		switch {
		case strings.HasPrefix(b.kind, "later"):
		case b.kind == "config":
			c.Count("config-mismatch", 1)
		case len(b.kind) > 6 && b.kind[:6] == "placed":
			c.Count("placed", 1)
		default:
			c.Count("mutated", 1)
		}
	}
	c.Eval(nt, hashOf(b.in), b.rc.String())
	c.Sample("%s, %d bytes, %v: reference says %v %s", b.kind, len(b.in), b.rc, ref.Err, ref.Msg)
}

func runC05(c *C, i int) {
	if i == 0 {
		hugeRead(c, RefFormat(1+c.N(3)), true)
		return
	}
	eval := func(ref *RefResult, in []byte, rc RCfg) {
		if ref.Err == 0 && !ref.Lenient {
			c.Count("eof", 1)
		} else if !ref.Lenient {
			if ref.Err&ETrunc != 0 {
				c.Count("kind-truncated", 1)
			} else {
				c.Count("kind-corrupt", 1)
			}
			if ref.SafeOut > 0 {
				c.Count("safe-data-before-error", 1)
			}
		}
		c.Eval(ref.Err != 0 && !ref.Lenient && len(ref.Out) > 0, hashOf(in), rc.String())
	}
	switch i % 6 {
	case 0: // every truncation
		f := RefFormat(1 + c.N(3))
		g := &genOpt{size: c.Pick(0, 5, 50, 300), wbits: c.Pick(8, 10, 15)}
		if c.P(1, 3) {
			g.dict = genDict(c.Rand)
			c.Count("truncated-with-dictionary", 1)
		}
		var s *GenStream
		for {
			s = genStream(c.Rand, f, g)
			if len(s.Comp) < 500 {
				break
			}
			g.size /= 2
		}
		rc := RCfg{Fmt: f, Mem: flate.MemoryLevel(1 + c.N(3)), WB: flate.WindowBits(s.WBits), Dict: g.dict}
		in := s.Comp
		looks := looksLikeContainer(in)
		if c.P(1, 3) {
			// an empty or small second stream behind it
			s2 := genStream(c.Rand, f, &genOpt{size: c.N(10), wbits: g.wbits, maxBlk: 2, dict: g.dict})
			if len(s2.Comp) < 200 {
				in = append(append([]byte(nil), in...), s2.Comp...)
				looks = looks || looksLikeContainer(s2.Comp)
			}
		}
		if c.P(1, 2) && !(f == RRaw && looks) {
			rc.Fmt = RAuto
		}
		step := 1
		if len(in) > 250 && !c.Thorough() {
			step = 2
		}
		for k := 1 + c.N(step); k <= len(in); k += step {
			ref := readBad(c, fmt.Sprintf("%v stream truncated", f), in[:k], rc, k%3 == 0, jPrecise|jAccept)
			eval(ref, in[:k], rc)
			c.Count("truncations-enumerated", 1)
		}
	case 1: // truncated big
		f := RefFormat(1 + c.N(3))
		g := &genOpt{size: c.Pick(5000, 50000, 150000)}
		s := genStream(c.Rand, f, g)
		rc := genRCfg(c.Rand, f, s.WBits, nil)
		for k := 0; k < 4; k++ {
			n := 1 + c.N(len(s.Comp))
			if k == 0 {
				n = len(s.Comp) - 1 - c.N(12)
			}
			if n < 1 {
				n = 1
			}
			ref := readBad(c, fmt.Sprintf("%v stream truncated", f), s.Comp[:n], rc, false, jPrecise|jAccept)
			eval(ref, s.Comp[:n], rc)
		}
	default:
		b := genBadCase(c, i)
		if c.P(1, 4) {
			b.later(c)
		}
		ref := readBad(c, b.kind, b.in, b.rc, false, jPrecise)
		eval(ref, b.in, b.rc)
		c.Sample("%s, %d bytes, %v: reference says %v %s, %d safe bytes", b.kind, len(b.in), b.rc, ref.Err, ref.Msg, ref.SafeOut)
	}
}

// ---------------------------------------------------------------- hostile

func runC06(c *C, i int) {
	var in []byte
	kind := ""
	rc := RCfg{Fmt: RefFormat(c.N(4)), Mem: flate.MemoryLevel(c.N(10)), WB: allWB[c.N(9)]}
	if c.P(1, 8) {
		rc.Dict = genDict(c.Rand)
	}
	maxOut := int64(1) << 62
	switch i % 10 {
	case 0:
		kind = "random"
		in = c.Bytes(c.Pick(0, 1, 2, 3, 5, 10, 50, 300, 3000))
	case 1:
		kind = "random dynamic block"
		in = c.Bytes(c.Pick(3, 10, 50, 300, 2000))
		in[0] = in[0]&^6 | 4
	case 2:
		kind = "header then random"
		s := wrapStream(c.Rand, RefFormat(2+c.N(2)), nil, nil, rc.Dict, c.In(8, 15), &genOpt{})
		in = append(s.Comp[:s.HdrLen:s.HdrLen], c.Bytes(c.N(2000))...)
	case 3:
		kind = "random gzip header"
		in = append([]byte{0x1f, 0x8b, 8, byte(c.N(256))}, c.Bytes(c.N(400))...)
		if c.P(1, 2) {
			in[3] &= 0x1f
		}
	case 4:
		kind = "gzip header with arbitrary extra field"
		x := extraBytes(c)
		in = []byte{0x1f, 0x8b, 8, 4, 0, 0, 0, 0, 0, 3, byte(len(x)), byte(len(x) >> 8)}
		in = append(in, x...)
		in = append(in, 3, 0, 0, 0, 0, 0, 0, 0, 0, 0)
		parseExtra(c, x)
		parseExtra(c, extraBytes(c))
		if i/10%41 == 7 { // very many records: the work has to stay proportional
			y := make([]byte, c.Pick(1<<18, 1<<19, 1<<20))
			t0 := cpuSeconds()
			parseExtra(c, y)
			if used := cpuSeconds() - t0; used > 3 {
				c.Failf("ExtraData.Parse of %d bytes (%d empty records) and AsBytes took %.1f s of CPU time", len(y), len(y)/4, used)
			}
			c.Count("many-records", 1)
		}
	case 5, 6:
		kind = "mutated"
		g := &genOpt{size: c.Pick(0, 10, 200, 3000, 30000), dict: rc.Dict}
		s := genStream(c.Rand, RefFormat(1+c.N(3)), g)
		in = s.Comp
		for k := c.In(1, 4); k > 0; k-- {
			s.Comp = in
			in, _ = mutate(c.Rand, s)
		}
	case 7:
		kind = "placed"
		in = genBad(c.Rand, c.N(nBadKinds), 0, c.In(8, 15))
		if c.P(2, 3) {
			rc.Fmt = RRaw
		}
	case 8:
		if i/10%37 == 1 {
			kind = "hoard"
			in, rc.Fmt = genHoard(c)
			rc.WB = 0
			rc.Dict = nil
			maxOut = 64 << 20 // the input may be 16 MiB of stored blocks
		} else if i/10%37 == 2 {
			kind = "long header"
			in, rc.Fmt = genLongHeader(c)
		} else if i%50 == 8 {
			kind = "bomb"
			in, maxOut = genBomb(c)
			if c.P(3, 4) {
				rc.Fmt = RRaw
			}
		} else {
			kind = "spliced"
			a := genStream(c.Rand, RefFormat(1+c.N(3)), &genOpt{size: c.N(3000), dict: rc.Dict}).Comp
			b := genStream(c.Rand, RefFormat(1+c.N(3)), &genOpt{size: c.N(3000), dict: rc.Dict}).Comp
			in = append(append([]byte(nil), a[:c.N(len(a)+1)]...), b[c.N(len(b)):]...)
		}
	case 9:
		kind = "many tiny streams"
		f := RefFormat(1 + c.N(3))
		for k := c.Pick(10, 100, 1000); k > 0; k-- {
			in = append(in, genStream(c.Rand, f, &genOpt{size: c.N(3), maxBlk: 1, dict: rc.Dict}).Comp...)
		}
		if c.P(1, 2) {
			in = append(in, c.Bytes(c.N(10))...)
		}
	}
	c.Note("%s %d bytes %v", kind, len(in), rc)
	src := NewSrc(c.Rand, in)
	if kind == "bomb" || kind == "hoard" {
		src = PlainSrc(in)
	}
	var m0, m1 runtime.MemStats
	if kind == "bomb" || kind == "hoard" {
		runtime.GC()
		runtime.ReadMemStats(&m0)
	}
	var rd io.Reader = src
	var hoard *memSrc
	if kind == "hoard" {
		hoard = &memSrc{r: src, every: len(in)/7 + 1}
		rd = hoard
	}
	cpu0 := cpuSeconds()
	var fr *flate.Reader
	if kind == "bomb" || kind == "hoard" {
		fr = flate.NewReader(rd, rc.Opts()...)
	} else {
		fr = newReader(c, rd, rc.Opts()...)
	}
	buf := make([]byte, c.Pick(1, 100, 4096, 65536))
	if len(buf) < 4096 && (kind == "bomb" || kind == "hoard" || len(in) > 1000) {
		buf = make([]byte, 65536)
	}
	var total int64
	var err error
	checks := 0
	for err == nil {
		var n int
		n, err = fr.Read(buf)
		total += int64(n)
		if total > maxOut {
			c.Failf("%s: more output (%d) than the input can encode (%d)", kind, total, maxOut)
		}
		// 1032:1 is the best ratio DEFLATE offers (258 bytes for 2 bits)
		if total > 1040*int64(len(in))+2000 {
			c.Failf("%s: %d bytes of output from %d bytes of input is more than DEFLATE can encode", kind, total, len(in))
		}
		if kind == "bomb" && total>>22 > int64(checks) {
			checks++
			runtime.ReadMemStats(&m1)
			if grow := int64(m1.HeapAlloc) - int64(m0.HeapAlloc); grow > 64<<20 {
				runtime.GC()
				runtime.ReadMemStats(&m1)
				if grow = int64(m1.HeapAlloc) - int64(m0.HeapAlloc); grow > 32<<20 {
					c.Failf("bomb: live heap grew by %d MiB after %d bytes of output", grow>>20, total)
				}
			}
			c.Max("bomb-heap-growth-KiB", int(int64(m1.HeapAlloc)-int64(m0.HeapAlloc))/1024)
		}
	}
	if err == io.EOF {
		c.Count("ended-eof", 1)
	} else {
		c.Count("ended-error", 1)
		if errKind(err) < 0 {
			c.Failf("%s: unexpected kind of error %T %v", kind, err, err)
		}
	}
	if src.ended.Load() > 0 {
		c.Failf("%s: the source was read again after its final error", kind)
	}
	// work in proportion to what the input encodes, with a wide margin
	if used, most := cpuSeconds()-cpu0, 3+4e-6*float64(int64(len(in))+total); used > most {
		c.Failf("%s: decoding %d bytes of input to %d bytes of output took %.1f s of CPU time (limit %.1f)", kind, len(in), total, used, most)
	}
	if kind == "long header" {
		c.Count("long-header", 1)
	}
	if hoard != nil {
		if n := hoard.stack.Load(); n > 3<<20 {
			c.Failf("hoard: the stacks grew by %d KiB while %d bytes of many blocks or streams were read", n>>10, len(in))
		}
		if n := hoard.heap.Load(); n > 2<<20 {
			c.Failf("hoard: the live heap grew by %d KiB while %d bytes of many blocks or streams were read", n>>10, len(in))
		}
		c.Max("hoard-stack-growth-KiB", int(hoard.stack.Load()/1024))
	}
	if left := WaitNoFlate(); left != nil {
		c.Failf("%s: background goroutine remains after %v:\n%s", kind, err, left[0])
	}
	c.Count("hostile", 1)
	if kind == "bomb" {
		c.Count("bomb-bytes", int(total))
	}
	if kind == "hoard" { // nothing may be kept per block or per stream
		runtime.GC()
		runtime.ReadMemStats(&m1)
		grow := int64(m1.HeapAlloc) - int64(m0.HeapAlloc)
		if err != io.EOF {
			c.Failf("hoard: %v after %d bytes", err, total)
		}
		if grow > 6<<20 {
			c.Failf("%s: %d KiB of live heap more than before are kept by a Reader at the end of %d bytes of input in many blocks or streams", kind, grow>>10, len(in))
		}
		c.Max("hoard-heap-growth-KiB", int(grow/1024))
		runtime.KeepAlive(fr)
		c.Count("hoard", 1)
	}
	c.Eval(len(in) >= 3, hashOf(in), rc.String())
	c.Sample("%s, %d bytes, %v: %d bytes then %v", kind, len(in), rc, total, err)
}

func extraBytes(c *C) []byte {
	switch c.N(4) {
	case 0:
		return c.Bytes(c.Pick(0, 1, 2, 3, 4, 5, 6, 7, 8, 20))
	case 1:
		return make([]byte, c.N(30))
	default:
		var x []byte
		for k := c.N(5); k > 0; k-- {
			n := c.Pick(0, 1, 2, 3, 50, 300)
			d := n
			if c.P(1, 5) {
				d = n + c.Pick(1, 2, 100, 65535-n)
			}
			x = append(x, byte(c.N(256)), byte(c.N(256)), byte(d), byte(d>>8))
			x = append(x, c.Bytes(n)...)
		}
		if c.P(1, 3) {
			x = x[:c.N(len(x)+1)]
		}
		return x
	}
}

// parseExtra monitors ExtraData.Parse against the RFC 1952 subfield layout.
func parseExtra(c *C, x []byte) {
	var want []flate.ExtraDataRecord
	for i := 0; i+4 <= len(x); {
		n := int(x[i+2]) | int(x[i+3])<<8
		if i+4+n > len(x) {
			break
		}
		want = append(want, flate.ExtraDataRecord{ID: [2]byte{x[i], x[i+1]}, Bytes: x[i+4 : i+4+n]})
		i += 4 + n
	}
	xd := flate.ExtraData{Records: []flate.ExtraDataRecord{{ID: [2]byte{9, 9}}}}
	in := append([]byte(nil), x...)
	xd.Parse(in)
	if !bytes.Equal(in, x) {
		c.Failf("ExtraData.Parse modified its input")
	}
	if len(xd.Records) != len(want) {
		c.Failf("ExtraData.Parse(% x) gave %d records, want %d", x, len(xd.Records), len(want))
	}
	for i := range want {
		if xd.Records[i].ID != want[i].ID || !bytes.Equal(xd.Records[i].Bytes, want[i].Bytes) {
			c.Failf("ExtraData.Parse(% x): record %d is %v, want %v", x, i, xd.Records[i], want[i])
		}
	}
	back := xd.AsBytes()
	if !bytes.HasPrefix(x, back) {
		c.Failf("ExtraData.AsBytes(Parse(% x)) = % x", x, back)
	}
	c.Count("extra-parsed", 1)
}

// genBomb encodes many megabytes in few bytes.
func genBomb(c *C) ([]byte, int64) {
	w := &bitW{}
	ll := make([]byte, 286)
	ll[256], ll[0], ll[285] = 2, 2, 1
	dl := make([]byte, 30)
	dl[0] = 1
	// header by hand: code length code: 18 -> 1 bit... keep it simple with flatCLRep
	cl := flatCLRep()
	writeDynHeader(w, 1, 286, 1, 19, cl)
	cc := canonCodes(cl)
	for i := 0; i < 286; i++ {
		w.bits(cc[ll[i]], uint(cl[ll[i]]))
	}
	w.bits(cc[1], uint(cl[1]))
	lc := canonCodes(ll)
	w.bits(lc[0], 2)
	n := c.Pick(30000, 60000)
	if c.Thorough() {
		n = c.Pick(60000, 1000000)
	}
	for k := 0; k < n; k++ {
		w.bits(lc[285], 1)
		w.bits(0, 1)
	}
	w.bits(lc[256], 2)
	w.align(0)
	return w.b, int64(n)*258 + 1
}

// memSrc looks at the memory in use now and then.
type memSrc struct {
	r           io.Reader
	every, left int
	base        runtime.MemStats
	based       bool
	heap, stack atomic.Int64
}

func (s *memSrc) Read(p []byte) (int, error) {
	if s.left <= 0 {
		s.left = s.every
		var m runtime.MemStats
		runtime.GC()
		runtime.ReadMemStats(&m)
		if !s.based {
			s.base, s.based = m, true
		}
		if n := int64(m.HeapAlloc) - int64(s.base.HeapAlloc); n > s.heap.Load() {
			s.heap.Store(n)
		}
		if n := int64(m.StackInuse) - int64(s.base.StackInuse); n > s.stack.Load() {
			s.stack.Store(n)
		}
	}
	n, err := s.r.Read(p)
	s.left -= n
	return n, err
}

// genLongHeader gives a gzip stream with very long header fields.
func genLongHeader(c *C) ([]byte, RefFormat) {
	flags := byte(c.Pick(8, 16, 24))
	in := []byte{0x1f, 0x8b, 8, flags, 0, 0, 0, 0, 0, 3}
	for f := byte(8); f <= 16; f *= 2 {
		if flags&f != 0 {
			for k := c.Pick(200000, 400000, 600000); k > 0; k-- {
				in = append(in, byte(1+c.N(255)))
			}
			in = append(in, 0)
		}
	}
	return append(in, 3, 0, 0, 0, 0, 0, 0, 0, 0, 0), RefFormat(c.Pick(int(RAuto), int(RGzip)))
}

// genHoard gives a valid input made of very many blocks or streams.
func genHoard(c *C) ([]byte, RefFormat) {
	scale := 1
	if c.Thorough() {
		scale = 8
	}
	switch c.N(5) {
	case 0: // dynamic blocks
		var units []*bitW
		for k := 0; k < 10; k++ {
			u := &bitW{}
			g := &genOpt{wbits: 15}
			u.bits(0, 1)
			u.bits(2, 2)
			toks, _ := genTokens(c.Rand, g, nil, c.N(4))
			genDynamic(u, c.Rand, g, toks)
			units = append(units, u)
		}
		w := &bitW{}
		for k := 40000 * scale; k > 0; k-- {
			w.append(units[c.N(len(units))])
		}
		w.bits(3, 10)
		w.align(0)
		return w.b, RRaw
	case 1, 2: // empty static and stored blocks
		w := &bitW{}
		for k := 200000 * scale; k > 0; k-- {
			if k%3 == 0 {
				w.bits(0, 3)
				w.align(c.N(256))
				w.b = append(w.b, 0, 0, 0xff, 0xff)
			} else {
				w.bits(2, 10)
			}
		}
		w.bits(3, 10)
		w.align(0)
		return w.b, RRaw
	}
	// streams
	f := RefFormat(2 + c.N(2))
	var units [][]byte
	for k := 0; k < 10; k++ {
		units = append(units, wrapStream(c.Rand, f, []byte{3, 0}, nil, nil, 15, &genOpt{}).Comp)
	}
	var in []byte
	for k := 40000 * scale; k > 0 && len(in) < 60<<20; k-- {
		u := units[c.N(len(units))]
		if len(u) > 3000 {
			u = units[0]
		}
		in = append(in, u...)
	}
	return in, f
}
