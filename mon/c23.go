package main

import (
	"bytes"
	"fmt"
	"hash"
	stdadler "hash/adler32"
	stdcrc "hash/crc32"
	"os"
	"runtime"

	"github.com/chronos-tachyon/flate"
)

func init() {
	register(&Prop{
		ID: "C23", N: tierN(4000, 40000), Run: runC23,
		Rule:     "shards 0-3 run the native build, 4-5 the native build with the carry-less-multiply path switched off (GODEBUG=cpu.pclmulqdq=off), 6-7 a GOARCH=386 build (generic code). case = either the implementation's hash objects fed one byte string at one alignment in one partition (with Sum32 probes, Reset, Sum) and compared with hash/crc32 and hash/adler32, or a stream whose trailer, dictionary id, header CRC and every checksum-carrying event are compared with the standard values of the data. evaluations = checksums compared; non-trivial: at least 2 bytes; distinct by length, alignment, partition and content",
		CPULimit: 300,
		Need:     []string{"trailer-gzip", "trailer-zlib", "dict-id", "header-crc", "event", "clmul-off", "386", "adler-worst", "megabytes", "prefix-probes", "multi-stream", "checksum-after-reset"},
		Variant: func(shard int) string {
			switch {
			case shard >= 6:
				return "386"
			case shard >= 4:
				return "noclmul"
			}
			return ""
		},
	})
}

func c23Data(r *Rand, n int) []byte {
	switch r.N(7) {
	case 0:
		return bytes.Repeat([]byte{0xff}, n)
	case 1:
		return make([]byte, n)
	case 2:
		return bytes.Repeat([]byte{byte(r.N(256))}, n)
	case 3: // one bit set
		b := make([]byte, n)
		if n > 0 {
			b[r.N(n)] = 1 << uint(r.N(8))
		}
		return b
	case 4: // high bytes: drives the Adler sums to their maxima
		b := r.Bytes(n)
		for i := range b {
			b[i] |= 0xf0
		}
		return b
	}
	return r.Bytes(n)
}

// adlerFrom returns data whose first Adler sum has the wanted residue, so that
// what follows starts near the modulus.
func adlerPrime(r *Rand) []byte {
	target := r.Pick(65520, 65519, 65521-255, 0, 1, r.N(65521))
	var b []byte
	s := 1
	for s != target {
		d := target - s
		if d < 0 {
			d += 65521
		}
		if d > 255 {
			d = 255
		}
		b = append(b, byte(d))
		s = (s + d) % 65521
	}
	return b
}

func c23Len(r *Rand) int {
	switch r.N(12) {
	case 0:
		return r.N(16)
	case 1:
		return r.N(130)
	case 2:
		return 64 + r.In(-2, 20)
	case 3:
		return 5552*r.In(1, 4) + r.In(-20, 20)
	case 4:
		return 16*r.N(64) + r.In(0, 15)
	case 5:
		return 1 << uint(r.N(18))
	case 6:
		return r.N(200000)
	case 7:
		return 128*r.N(12) + r.In(0, 17)
	}
	return r.N(3000)
}

func runC23(c *C, i int) {
	if v := os.Getenv("VMON_VARIANT"); v == "noclmul" {
		c.Count("clmul-off", 1)
	}
	if runtime.GOARCH == "386" {
		c.Count("386", 1)
	}
	k := (i / 8) % 6
	if k >= 3 || !haveShim {
		c23Streams(c, i)
		return
	}
	c.Count("direct", 1)
	for j := 0; j < 24; j++ {
		c23Direct(c, i, j)
	}
	if i/8%60 == 0 {
		c23Long(c)
	}
}

func c23Feed(c *C, what string, impl, std hash.Hash32, data []byte, align int, parts int, probe bool) {
	buf := make([]byte, align+len(data)+64)
	copy(buf[align:], data)
	d := buf[align : align+len(data)]
	rest := d
	done := 0
	for len(rest) > 0 || parts == 0 {
		n := len(rest)
		switch {
		case parts == 0:
			parts = 1
		case parts == 1:
		case parts < 0:
			n = -parts
		default:
			n = c.N(len(rest)*2/parts + 2)
		}
		if n > len(rest) {
			n = len(rest)
		}
		std.Write(data[done : done+n])
		k, err := impl.Write(rest[:n])
		if k != n || err != nil {
			c.Failf("%s: Write(%d bytes) = %d, %v", what, n, k, err)
		}
		rest = rest[n:]
		done += n
		if probe && c.P(1, 4) {
			w := std.Sum32()
			if g := impl.Sum32(); g != w {
				c.Failf("%s: after %d of %d bytes (alignment %d): %08x, standard %08x", what, done, len(data), align, g, w)
			}
			c.Count("prefix-probes", 1)
		}
	}
	want := std.Sum32()
	if g := impl.Sum32(); g != want {
		c.Failf("%s: %d bytes at alignment %d in parts(%d): %08x, standard %08x", what, len(data), align, parts, g, want)
	}
	if s := impl.Sum([]byte("xy")); !bytes.Equal(s, []byte{'x', 'y', byte(want >> 24), byte(want >> 16), byte(want >> 8), byte(want)}) {
		c.Failf("%s: Sum(\"xy\") = %x, checksum is %08x", what, s, want)
	}
	if g := impl.Sum32(); g != want {
		c.Failf("%s: Sum changed the state", what)
	}
	if !bytes.Equal(d, data) {
		c.Failf("%s: input modified", what)
	}
}

func c23Direct(c *C, i, j int) {
	data := c23Data(c.Rand, c23Len(c.Rand))
	if c.P(1, 3) {
		data = append(adlerPrime(c.Rand), bytes.Repeat([]byte{0xff}, c.Pick(1, 5551, 5552, 5553, 11104, 20000))...)
		c.Count("adler-worst", 1)
	}
	align := c.N(65)
	parts := c.Pick(0, 1, 1, 2, 3, 8, -1, -7, -16, -64, -100, -5552, -32768)
	if len(data) > 50000 && parts < 0 && parts > -64 {
		parts = -64
	}
	for _, h := range []struct {
		name      string
		impl, std hash.Hash32
	}{{"crc32", implCRC(), stdcrc.NewIEEE()}, {"adler32", implAdler(), stdadler.New()}} {
		if h.impl.Size() != 4 || h.impl.BlockSize() < 1 {
			c.Failf("%s: Size %d BlockSize %d", h.name, h.impl.Size(), h.impl.BlockSize())
		}
		if g, w := h.impl.Sum32(), h.std.Sum32(); g != w {
			c.Failf("%s: new hash object has %08x, standard %08x", h.name, g, w)
		}
		c23Feed(c, h.name, h.impl, h.std, data, align, parts, true)
		c.Eval(len(data) >= 2, h.name, len(data), align, parts, hashOf(data[:min(len(data), 4096)]), runtime.GOARCH)
		if c.P(1, 4) { // continue, or start over
			if c.P(1, 2) {
				h.impl.Reset()
				h.std.Reset()
				if g, w := h.impl.Sum32(), h.std.Sum32(); g != w {
					c.Failf("%s: after Reset %08x, standard %08x", h.name, g, w)
				}
			}
			d2 := c23Data(c.Rand, c23Len(c.Rand))
			c23Feed(c, h.name, h.impl, h.std, d2, c.N(65), c.Pick(1, 2, -100), false)
			c.Eval(len(d2) >= 2, h.name, len(d2), align, parts, hashOf(d2[:min(len(d2), 4096)]))
		}
	}
}

// c23Long continues one checksum across many megabytes.
func c23Long(c *C) {
	total := int64(24 << 20)
	if c.Thorough() {
		total = 300 << 20
		if runtime.GOARCH != "386" && c.P(1, 6) {
			total = 4400 << 20 // beyond 4 GiB
		}
	}
	buf := c23Data(c.Rand, 1<<20+c.N(100000))
	crc, adl := implCRC(), implAdler()
	sc, sa := stdcrc.NewIEEE(), stdadler.New()
	for n := int64(0); n < total; {
		k := len(buf)
		if c.P(1, 3) {
			k = c.N(len(buf))
		}
		o := c.N(len(buf) - k + 1)
		p := buf[o : o+k]
		crc.Write(p)
		adl.Write(p)
		sc.Write(p)
		sa.Write(p)
		if crc.Sum32() != sc.Sum32() {
			c.Failf("crc32 wrong after %d bytes: %08x, standard %08x", n+int64(k), crc.Sum32(), sc.Sum32())
		}
		if adl.Sum32() != sa.Sum32() {
			c.Failf("adler32 wrong after %d bytes: %08x, standard %08x", n+int64(k), adl.Sum32(), sa.Sum32())
		}
		n += int64(k)
		c.Count("megabytes", k>>20)
	}
	c.Eval(true, "long", hashOf(buf[:64]), total)
}

// c23Streams observes the checksums where users meet them.
func c23Streams(c *C, i int) {
	data := c23Data(c.Rand, c23Len(c.Rand))
	if c.P(1, 4) {
		data = append(adlerPrime(c.Rand), bytes.Repeat([]byte{0xff}, c.Pick(1, 5551, 5552, 5553, 11104, 40000))...)
		c.Count("adler-worst", 1)
	}
	if i/8%40 == 3 {
		data = bytes.Repeat(c23Data(c.Rand, 4096+c.N(100)), 3000000/4096)
		c.Count("megabytes", len(data)>>20)
	}
	var dict []byte
	cfg := Cfg{Fmt: flate.Format(c.Pick(int(flate.ZlibFormat), int(flate.GZIPFormat), int(flate.ZlibFormat), int(flate.GZIPFormat), int(flate.RawFormat))), Lvl: flate.CompressLevel(c.Pick(0, 1, -1)), Mem: flate.MemoryLevel(c.N(10))}
	if cfg.Fmt == flate.ZlibFormat && c.P(1, 2) {
		dict = c23Data(c.Rand, 1+c23Len(c.Rand)%70000)
		cfg.Dict = dict
	}
	what := cfg.String() + fmt.Sprintf(" %d bytes", len(data))
	c.Note("%s %016x", what, hashOf(data))
	// Writer side: the data is handed over in pieces at odd alignments
	evs, revs := evLog{keep: true}, evLog{keep: true}
	sink := NewSink()
	fw := flate.NewWriter(sink, append(cfg.Opts(), flate.WithTracers(&evs))...)
	var h flate.Header
	if cfg.Fmt == flate.GZIPFormat && c.P(1, 2) {
		h.Comment = randName(c, c.N(256), true)
		h.FileName = randName(c, c.N(256), false)
		if c.P(1, 3) {
			h.ExtraData.Records = []flate.ExtraDataRecord{{ID: [2]byte{1, 2}, Bytes: c.Bytes(c.N(6000))}}
		}
		if err := fw.SetHeader(h); err != nil {
			c.Failf("%s: SetHeader: %v", what, err)
		}
	}
	off := c.N(33)
	buf := make([]byte, off+len(data))
	copy(buf[off:], data)
	for p := buf[off:]; len(p) > 0; {
		n := c.Pick(len(p), 1, 17, 5552, 5553, 65536, 40000)
		if len(p) > 100000 && n < 5000 {
			n = 5000
		}
		if n > len(p) {
			n = len(p)
		}
		doWrite(c, fw, p[:n])
		p = p[n:]
	}
	if err := fw.Close(); err != nil {
		c.Failf("%s: Close: %v", what, err)
	}
	comp := sink.Bytes()
	st := c23Judge(c, what+" (Writer)", cfg.RefFmt(), comp, data, dict, &evs, true)
	if st == nil {
		return
	}
	// Reader side, on a stream whose checksums are computed by the harness
	f := cfg.RefFmt()
	body := compress(c, Cfg{Fmt: flate.RawFormat, Lvl: cfg.Lvl, Mem: cfg.Mem, Dict: dict}, data, []Op{{K: 'W', N: len(data)}})
	in := wrapStream(c.Rand, f, body, data, dict, 15, &genOpt{}).Comp
	rc := RCfg{Fmt: f, Dict: dict}
	src := NewSrc(c.Rand, in)
	if len(in) > 100000 {
		src = PlainSrc(in)
	}
	fr := flate.NewReader(src, append(rc.Opts(), flate.WithTracers(&revs))...)
	got, err := readAll(c, fr, c.Rand)
	if errKind(err) != 0 || !bytes.Equal(got, data) {
		c.Failf("%s: Reader refuses standard checksums: %v, %s", what, err, diffAt(got, data))
	}
	c23Judge(c, what+" (Reader)", f, in, data, dict, &revs, false)
	if len(data) < 100000 && c.P(2, 3) {
		c23Multi(c, what, cfg, f, rc, in, data, dict)
	}
	c.Eval(len(data) > 1, "stream", hashOf(in), runtime.GOARCH)
}

func c23Judge(c *C, what string, f RefFormat, comp, data, dict []byte, evs *evLog, writer bool) *RStream {
	ref := RefDecode(comp, RefOpt{Dict: dict, Format: f})
	if ref.Err != 0 {
		c.Failf("%s: reference decoder: %v %s at %d of %d", what, ref.Err, ref.Msg, ref.Off, len(comp))
	}
	if !bytes.Equal(ref.Out, data) || len(ref.Streams) != 1 {
		c.Failf("%s: wrong content: %s", what, diffAt(ref.Out, data))
	}
	st := ref.Streams[0]
	a, g := stdadler.Checksum(data), stdcrc.ChecksumIEEE(data)
	if st.Format == RRaw {
		c.Count("raw", 1)
	} else if st.Format == RGzip {
		c.Count("trailer-gzip", 1)
		if st.Hdr.Flags&2 != 0 {
			c.Count("header-crc", 1) // verified by the reference decoder
		}
	} else {
		c.Count("trailer-zlib", 1)
		if st.Hdr.HasDict {
			c.Count("dict-id", 1)
			if st.Hdr.DictID != stdadler.Checksum(dict) {
				c.Failf("%s: dictionary id %08x, standard %08x", what, st.Hdr.DictID, stdadler.Checksum(dict))
			}
		}
	}
	if want := stdadler.Checksum(dict); dict != nil && writer && st.Format == RZlib && !st.Hdr.HasDict {
		c.Failf("%s: dictionary id %08x missing", what, want)
	}
	for _, e := range evs.evs {
		if e.Footer != nil {
			c.Count("event", 1)
			if uint32(e.Footer.Adler32) != a || uint32(e.Footer.CRC32) != g {
				c.Failf("%s: footer event reports adler %v crc %v, standard %08x %08x", what, e.Footer.Adler32, e.Footer.CRC32, a, g)
			}
		}
	}
	return st
}

// c23Multi lets one Reader (perhaps used before, and Reset) meet several
// streams in a row: every one has checksums of its own.
func c23Multi(c *C, what string, cfg Cfg, f RefFormat, rc RCfg, in, data, dict []byte) {
	var evs evLog
	evs.keep = true
	parts := [][]byte{data}
	all := append([]byte(nil), in...)
	want := append([]byte(nil), data...)
	for k := c.In(1, 3); k > 0; k-- {
		d := c23Data(c.Rand, c23Len(c.Rand)%20000)
		if c.P(1, 4) {
			d = data
		}
		body := compress(c, Cfg{Fmt: flate.RawFormat, Lvl: cfg.Lvl, Mem: cfg.Mem, Dict: dict}, d, []Op{{K: 'W', N: len(d)}})
		s := wrapStream(c.Rand, f, body, d, dict, 15, &genOpt{}).Comp
		if ref := RefDecode(s, RefOpt{Dict: dict, Format: f}); ref.Err != 0 {
			c.Failf("harness: stream refused: %s", ref.Msg)
		} else if f == RGzip && ref.Streams[0].Hdr.Flags&2 != 0 {
			c.Count("later-header-crc", 1)
		}
		all = append(all, s...)
		parts = append(parts, d)
		want = append(want, d...)
	}
	fr := flate.NewReader(NewSrc(c.Rand, all), append(rc.Opts(), flate.WithTracers(&evs))...)
	if c.P(1, 3) { // leave the first stream in the middle
		n := c.N(len(want) + 1)
		for buf := make([]byte, 4096); n > 0; {
			k, err := fr.Read(buf[:min(n, len(buf))])
			n -= k
			if err != nil {
				break
			}
		}
		fr.Reset(NewSrc(c.Rand, all))
		evs.evs = nil
		c.Count("checksum-after-reset", 1)
	}
	got, err := readAll(c, fr, c.Rand)
	if errKind(err) != 0 || !bytes.Equal(got, want) {
		c.Failf("%s, %d streams of %v bytes: Reader refuses standard checksums: %v, %s", what, len(parts), len(want), err, diffAt(got, want))
	}
	footers := func(side string, evs *evLog) {
		k := 0
		for _, e := range evs.evs {
			if e.Footer == nil {
				continue
			}
			if k >= len(parts) {
				c.Failf("%s: more footer events than streams", what)
			}
			a, g := stdadler.Checksum(parts[k]), stdcrc.ChecksumIEEE(parts[k])
			if uint32(e.Footer.Adler32) != a || uint32(e.Footer.CRC32) != g {
				c.Failf("%s: footer event of %s's stream %d reports adler %v crc %v, standard %08x %08x", what, side, k, e.Footer.Adler32, e.Footer.CRC32, a, g)
			}
			c.Count("event", 1)
			k++
		}
	}
	footers("the Reader", &evs)
	// The Writer's side of it: Finish flushes, or Reset, between the parts.
	wevs := evLog{keep: true}
	sink := NewSink()
	fw := flate.NewWriter(sink, append(cfg.Opts(), flate.WithTracers(&wevs))...)
	kept := parts[:0:0]
	for _, d := range parts {
		if len(d) > 0 {
			kept = append(kept, d)
		}
	}
	parts = kept
	for n, d := range parts {
		if n > 0 && c.P(1, 3) {
			if err := fw.Close(); err != nil {
				c.Failf("%s: Close: %v", what, err)
			}
			fw.Reset(sink)
			c.Count("writer-reset", 1)
		}
		for p := d; len(p) > 0; {
			m := c.In(1, len(p))
			doWrite(c, fw, p[:m])
			p = p[m:]
		}
		if err := fw.Flush(flate.FinishFlush); err != nil {
			c.Failf("%s: Flush(finish): %v", what, err)
		}
	}
	if len(parts) > 0 {
		ref := RefDecode(sink.Bytes(), RefOpt{Dict: dict, Format: f})
		if ref.Err != 0 || len(ref.Streams) != len(parts) {
			c.Failf("%s: %d streams by one Writer: reference decoder found %d: %v %s", what, len(parts), len(ref.Streams), ref.Err, ref.Msg)
		}
		footers("the Writer", &wevs)
	}
	c.Count("multi-stream", 1)
	c.Eval(true, "multi", hashOf(all), runtime.GOARCH)
}
