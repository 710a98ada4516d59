package main

import (
	"bytes"
	"compress/gzip"
	"encoding/binary"
	"hash"
	"hash/adler32"
	"hash/crc32"
	"io"
	"time"

	"github.com/chronos-tachyon/flate"
)

// Streams beyond 4 GiB: every counter passes 2^32, on both sides.

// progress restarts the termination monitor of a case that works through a
// known amount of data.
func progress() {
	caseCPU.Store(uint64(cpuSeconds() * 1000))
	caseStart.Store(time.Now().UnixNano())
}

type hugeSeg struct {
	b []byte
	n int
}

// hugeSrc supplies segments, some of them many times, without storing them.
type hugeSrc struct {
	segs []hugeSeg
	off  int
	r    *Rand
	n    uint64
}

func (s *hugeSrc) Read(p []byte) (int, error) {
	if s.r.P(1, 1000) && len(p) > 1 {
		p = p[:1+s.r.N(len(p)-1)]
	}
	nn := 0
	for nn < len(p) && len(s.segs) > 0 {
		g := &s.segs[0]
		k := copy(p[nn:], g.b[s.off:])
		nn += k
		s.off += k
		if s.off == len(g.b) {
			s.off = 0
			g.n--
			if g.n == 0 {
				s.segs = s.segs[1:]
			}
		}
	}
	s.n += uint64(nn)
	if nn == 0 {
		return 0, io.EOF
	}
	return nn, nil
}

type hugeEv struct {
	evs    []flate.Event
	blocks uint64
}

func (h *hugeEv) OnEvent(e flate.Event) {
	switch e.Type {
	case flate.StreamBeginEvent, flate.StreamHeaderEvent, flate.StreamEndEvent, flate.StreamCloseEvent:
		if len(h.evs) < 100 {
			h.evs = append(h.evs, cloneEvent(e))
		}
	case flate.BlockEndEvent:
		h.blocks++
	}
}

type want struct {
	t                 flate.EventType
	inT, inS, oT, oS  uint64
	n                 uint
	adler, crc        uint32
	sums, approxInput bool
}

func (h *hugeEv) check(c *C, who string, ws []want) {
	if len(h.evs) != len(ws) {
		c.Failf("%s: %d stream events, want %d", who, len(h.evs), len(ws))
	}
	for k, w := range ws {
		e := h.evs[k]
		if e.Type != w.t || e.InputBytesTotal != w.inT || e.InputBytesStream != w.inS || e.OutputBytesTotal != w.oT || e.OutputBytesStream != w.oS || uint(e.NumStreams) != w.n {
			c.Failf("%s: event %d is %s; want %v in=%d/%d out=%d/%d n=%d", who, k, evText(e), w.t, w.inT, w.inS, w.oT, w.oS, w.n)
		}
		if w.sums && (e.Footer == nil || uint32(e.Footer.CRC32) != w.crc || uint32(e.Footer.Adler32) != w.adler) {
			c.Failf("%s: event %d is %s; want checksums %08x/%08x", who, k, evText(e), w.adler, w.crc)
		}
	}
	c.Count("huge-events", len(ws))
}

const hugeBlocks = 65537 // times 65535 bytes are 2^32-1 bytes

// hugeRead reads a stream of more than 4 GiB, a small one behind it, and in
// the bad variant a third one that is corrupt.
func hugeRead(c *C, f RefFormat, bad bool) {
	const blk = 65535
	pat := c.Bytes(blk)
	two := append(append([]byte(nil), pat...), pat...)
	tail := c.Pick(0, 0, 1, 2, 5000)
	per := uint64(hugeBlocks)*blk + uint64(tail)
	// matches across and right behind the limit
	win := append(append([]byte(nil), pat...), pat[:tail]...)
	start := len(win)
	var toks []RTok
	for k := c.In(1, 6); k >= 0; k-- {
		if k > 0 && c.P(1, 4) {
			toks = append(toks, RTok{Lit: c.N(256)})
			win = append(win, byte(toks[len(toks)-1].Lit))
			continue
		}
		t := RTok{Lit: -1, Len: c.Pick(3, 100, 258), Dist: c.Pick(1, 3, 30000, 32768, 32768)}
		toks = append(toks, t)
		for i := 0; i < t.Len; i++ {
			win = append(win, win[len(win)-t.Dist])
		}
	}
	end := win[start:]
	lw := &bitW{}
	lw.bits(3, 3)
	writeToks(lw, toks, refStaticLLLens, staticLC, refStaticDLn, staticDC)
	lw.align(0)
	total := per + uint64(len(end))
	var a32 hash.Hash32 = adler32.New()
	var c32 hash.Hash32 = crc32.NewIEEE()
	for k := 0; k < hugeBlocks; k++ {
		a32.Write(pat)
		c32.Write(pat)
	}
	a32.Write(pat[:tail])
	c32.Write(pat[:tail])
	a32.Write(end)
	c32.Write(end)
	progress()
	var hdr, trl []byte
	switch f {
	case RZlib:
		hdr = []byte{0x78, 0x01}
		trl = binary.BigEndian.AppendUint32(nil, a32.Sum32())
	case RGzip:
		hdr = []byte{0x1f, 0x8b, 8, 0, 0, 0, 0, 0, 0, 255}
		trl = binary.LittleEndian.AppendUint32(nil, c32.Sum32())
		trl = binary.LittleEndian.AppendUint32(trl, uint32(total))
	}
	stored := func(final byte, p []byte) []byte {
		b := []byte{final}
		b = binary.LittleEndian.AppendUint16(b, uint16(len(p)))
		b = binary.LittleEndian.AppendUint16(b, ^uint16(len(p)))
		return append(b, p...)
	}
	body := uint64(hugeBlocks)*(blk+5) + uint64(tail) + 5 + uint64(len(lw.b))
	start2 := uint64(len(hdr)) + body + uint64(len(trl))
	s2 := genStream(c.Rand, f, &genOpt{size: 300})
	ref2 := RefDecode(s2.Comp, RefOpt{Format: f})
	start3 := start2 + uint64(len(s2.Comp))
	src := &hugeSrc{r: c.Rand.Fork(), segs: []hugeSeg{{stored(0, pat), hugeBlocks}, {stored(0, pat[:tail]), 1}, {lw.b, 1}}}
	if len(hdr) > 0 {
		src.segs = append([]hugeSeg{{hdr, 1}}, src.segs...)
		src.segs = append(src.segs, hugeSeg{trl, 1})
	}
	src.segs = append(src.segs, hugeSeg{s2.Comp, 1})
	third := append(append([]byte(nil), hdr...), 7, 0, 0, 0, 0)
	if bad {
		src.segs = append(src.segs, hugeSeg{third, 1})
	}
	ev := &hugeEv{}
	rc := RCfg{Fmt: f}
	if f != RRaw && c.P(1, 2) {
		rc.Fmt = RAuto
	}
	c.Note("%v stream of %d bytes with %d bytes of data, %v, a small one behind it, bad third %v", f, start2, total, rc, bad)
	fr := flate.NewReader(src, append(rc.Opts(), flate.WithTracers(ev))...)
	buf := make([]byte, 1<<18)
	var got uint64
	var err error
	var rest []byte
	next := uint64(1 << 28)
	for err == nil {
		var n int
		n, err = fr.Read(buf)
		for p := buf[:n]; len(p) > 0; {
			if got < per {
				k := len(p)
				if k > blk {
					k = blk
				}
				if left := per - got; uint64(k) > left {
					k = int(left)
				}
				o := int(got % blk)
				if !bytes.Equal(p[:k], two[o:o+k]) {
					c.Failf("wrong data within 64 KiB of byte %d", got)
				}
				got += uint64(k)
				p = p[k:]
				continue
			}
			got += uint64(len(p))
			rest = append(rest, p...)
			if len(rest) > 1<<20 {
				c.Failf("data beyond the end")
			}
			p = nil
		}
		if got > next {
			next = got + 1<<28
			progress()
		}
	}
	if want := append(append([]byte(nil), end...), s2.Out...); got < total || !bytes.Equal(rest, want) {
		c.Failf("read %d of %d bytes, of which %d behind the repeated part instead of %d (%s), then %v", got, total, len(rest), len(want), diffAt(rest, want), err)
	}
	if !bad {
		if err != io.EOF {
			c.Failf("valid streams: error %v", err)
		}
	} else {
		ce, ok := err.(flate.CorruptInputError)
		if !ok {
			c.Failf("error %v", err)
		}
		if ce.OffsetTotal-ce.OffsetStream != start3 || ce.OffsetStream > uint64(len(third)) || ce.OffsetStream < uint64(len(hdr)) {
			c.Failf("error at %d, %d in its stream; that stream starts at %d and is %d bytes long", ce.OffsetTotal, ce.OffsetStream, start3, len(third))
		}
		if n, err2 := fr.Read(buf); n != 0 || err2 != err {
			c.Failf("next Read: %d, %v", n, err2)
		}
	}
	h, t := uint64(len(hdr)), uint64(len(trl))
	st := ref2.Streams[0]
	h2, n2 := uint64(st.HdrEnd), uint64(len(s2.Comp))
	o2 := uint64(len(s2.Out))
	ws := []want{
		{t: flate.StreamBeginEvent, n: 1},
		{t: flate.StreamHeaderEvent, inT: h, inS: h, n: 1},
		{t: flate.StreamEndEvent, inT: h + body, inS: h + body, oT: total, oS: total, n: 1, sums: true, adler: a32.Sum32(), crc: c32.Sum32()},
		{t: flate.StreamCloseEvent, inT: start2, inS: start2, oT: total, oS: total, n: 1},
		{t: flate.StreamBeginEvent, inT: start2, oT: total, n: 2},
		{t: flate.StreamHeaderEvent, inT: start2 + h2, inS: h2, oT: total, n: 2},
		{t: flate.StreamEndEvent, inT: start3 - t, inS: n2 - t, oT: total + o2, oS: o2, n: 2, sums: true, adler: adler32.Checksum(s2.Out), crc: crc32.ChecksumIEEE(s2.Out)},
		{t: flate.StreamCloseEvent, inT: start3, inS: n2, oT: total + o2, oS: o2, n: 2},
	}
	if bad {
		ws = append(ws, want{t: flate.StreamBeginEvent, inT: start3, oT: total + o2, n: 3},
			want{t: flate.StreamHeaderEvent, inT: start3 + h, inS: h, oT: total + o2, n: 3})
	}
	ev.check(c, "Reader", ws)
	c.Count("huge-read", 1)
	c.Max("huge-MiB", int(total>>20))
	c.Eval(true, "huge", f, bad, rc.String(), tail, len(end))
}

type hugeSink struct {
	n    uint64
	w    io.Writer
	last []byte
}

func (s *hugeSink) Write(p []byte) (int, error) {
	s.n += uint64(len(p))
	s.last = append(s.last, p...)
	if len(s.last) > 64 {
		s.last = append(s.last[:0], s.last[len(s.last)-64:]...)
	}
	if s.w != nil {
		return s.w.Write(p)
	}
	return len(p), nil
}

// hugeWrite writes more than 4 GiB into one gzip stream, and a small stream
// behind it.
func hugeWrite(c *C) {
	pat := make([]byte, 1<<20)
	cfg := Cfg{Fmt: flate.GZIPFormat, Strat: flate.HuffmanRLEStrategy, Lvl: flate.CompressLevel(c.In(1, 9))}
	const reps = 1 << 12
	tail := c.Bytes(c.Pick(0, 1, 5000))
	total := uint64(reps)*uint64(len(pat)) + uint64(len(tail))
	ev := &hugeEv{}
	var out bytes.Buffer
	s := &hugeSink{w: &out}
	fw := flate.NewWriter(s, append(cfg.Opts(), flate.WithTracers(ev))...)
	c.Note("%v, %d bytes, a small stream behind", cfg, total)
	h := crc32.NewIEEE()
	put := func(p []byte) {
		if n, err := fw.Write(p); err != nil || n != len(p) {
			c.Failf("Write of %d bytes: %d, %v", len(p), n, err)
		}
	}
	for k := 0; k < reps; k++ {
		put(pat)
		h.Write(pat)
		if k%200 == 0 {
			progress()
		}
	}
	put(tail)
	h.Write(tail)
	if err := fw.Flush(flate.FinishFlush); err != nil {
		c.Failf("Flush: %v", err)
	}
	n1 := s.n
	t := s.last[len(s.last)-8:]
	if got := binary.LittleEndian.Uint32(t); got != h.Sum32() {
		c.Failf("CRC-32 in the trailer is %08x, want %08x", got, h.Sum32())
	}
	if got := binary.LittleEndian.Uint32(t[4:]); got != uint32(total) {
		c.Failf("length in the trailer is %d, want %d modulo 2^32", got, uint32(total))
	}
	second := []byte("second stream")
	put(second)
	if err := fw.Close(); err != nil {
		c.Failf("Close: %v", err)
	}
	progress()
	small := RefDecode(out.Bytes()[n1:], RefOpt{Format: RGzip})
	if small.Err != 0 || !bytes.Equal(small.Out, second) {
		c.Failf("the stream behind: %v %s", small.Err, small.Msg)
	}
	if c.Thorough() {
		zr, err := gzip.NewReader(bytes.NewReader(out.Bytes()[:n1]))
		if err != nil {
			c.Failf("compress/gzip: %v", err)
		}
		buf := make([]byte, 1<<20)
		var got uint64
		for {
			n, err := io.ReadFull(zr, buf)
			if got+uint64(n) <= reps*uint64(len(pat)) && !bytes.Equal(buf[:n], pat[:n]) {
				c.Failf("wrong data near %d", got)
			}
			got += uint64(n)
			if got%(1<<28) == 0 {
				progress()
			}
			if err == io.EOF || err == io.ErrUnexpectedEOF && got == total {
				break
			}
			if err != nil {
				c.Failf("compress/gzip: %v after %d bytes", err, got)
			}
		}
		if got != total {
			c.Failf("compress/gzip reads %d bytes of %d", got, total)
		}
	}
	h2 := uint64(small.Streams[0].HdrEnd)
	n2 := s.n - n1
	o2 := uint64(len(second))
	var ad uint32
	if len(ev.evs) > 2 && ev.evs[2].Footer != nil {
		ad = uint32(ev.evs[2].Footer.Adler32) // judged by C23's means
	}
	ev.check(c, "Writer", []want{
		{t: flate.StreamBeginEvent, n: 1},
		{t: flate.StreamHeaderEvent, oT: h2, oS: h2, n: 1},
		{t: flate.StreamEndEvent, inT: total, inS: total, oT: n1 - 8, oS: n1 - 8, n: 1, sums: true, adler: ad, crc: h.Sum32()},
		{t: flate.StreamCloseEvent, inT: total, inS: total, oT: n1, oS: n1, n: 1},
		{t: flate.StreamBeginEvent, inT: total, oT: n1, n: 2},
		{t: flate.StreamHeaderEvent, inT: total, oT: n1 + h2, oS: h2, n: 2},
		{t: flate.StreamEndEvent, inT: total + o2, inS: o2, oT: n1 + n2 - 8, oS: n2 - 8, n: 2, sums: true, adler: adler32.Checksum(second), crc: crc32.ChecksumIEEE(second)},
		{t: flate.StreamCloseEvent, inT: total + o2, inS: o2, oT: n1 + n2, oS: n2, n: 2},
	})
	c.Count("huge-write", 1)
	c.Eval(true, "huge-write", cfg.String(), len(tail))
}
