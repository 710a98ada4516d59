package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"strings"

	"github.com/chronos-tachyon/flate"
)

// ---------------------------------------------------------------- configuration

type Cfg struct {
	Fmt   flate.Format
	Strat flate.Strategy
	Lvl   flate.CompressLevel
	Mem   flate.MemoryLevel
	WB    flate.WindowBits
	Dict  []byte
}

func (c Cfg) String() string {
	return fmt.Sprintf("%v/%v/level=%v/mem=%v/wbits=%v/dict=%d", c.Fmt, c.Strat, c.Lvl, c.Mem, c.WB, len(c.Dict))
}

func (c Cfg) Opts() []flate.Option {
	o := []flate.Option{
		flate.WithFormat(c.Fmt), flate.WithStrategy(c.Strat), flate.WithCompressLevel(c.Lvl),
		flate.WithMemoryLevel(c.Mem), flate.WithWindowBits(c.WB),
	}
	if c.Dict != nil {
		o = append(o, flate.WithDictionary(c.Dict))
	}
	return o
}

func (c Cfg) RefFmt() RefFormat { return refFmt(c.Fmt) }

func refFmt(f flate.Format) RefFormat {
	switch f {
	case flate.RawFormat:
		return RRaw
	case flate.GZIPFormat:
		return RGzip
	}
	return RZlib
}

func flFmt(f RefFormat) flate.Format {
	return [...]flate.Format{flate.DefaultFormat, flate.RawFormat, flate.ZlibFormat, flate.GZIPFormat}[f]
}

func (c Cfg) EffWB() int {
	if c.WB == 0 {
		return 15
	}
	return int(c.WB)
}

var allWB = []flate.WindowBits{0, 8, 9, 10, 11, 12, 13, 14, 15}

func genCfg(r *Rand) Cfg {
	c := Cfg{
		Fmt: flate.Format(r.N(4)), Strat: flate.Strategy(r.Pick(0, 0, 0, 1, 2, 3)),
		Lvl: flate.CompressLevel(r.In(-1, 9)), Mem: flate.MemoryLevel(r.N(10)), WB: allWB[r.N(len(allWB))],
	}
	if r.P(1, 6) {
		c.Dict = genDict(r)
	}
	return c
}

func genDict(r *Rand) []byte {
	n := r.Pick(1, 2, 3, 10, 100, 255, 256, 257, 1000, 5000, 32767, 32768, 32769, 40000)
	if r.P(1, 24) {
		n = r.Pick(65520, 65535, 65536, 66000, 100000)
	}
	if r.P(1, 4) {
		return make([]byte, n) // all zero
	}
	d := genData(r, r.N(nDataKinds), n)
	if r.P(1, 16) {
		return forceAdler(d, specialAdler[r.N(len(specialAdler))])
	}
	if r.P(1, 5) && len(d) > 1 {
		for i := len(d) / 2; i < len(d); i++ {
			d[i] = 0
		}
	}
	return d
}

// ---------------------------------------------------------------- writer histories

type Op struct {
	K  byte // 'W' or 'F'
	N  int
	FT flate.FlushType
}

func opsString(ops []Op) string {
	var sb strings.Builder
	for i, o := range ops {
		if i > 40 {
			fmt.Fprintf(&sb, "...(%d)", len(ops))
			break
		}
		if o.K == 'W' {
			fmt.Fprintf(&sb, "W%d ", o.N)
		} else {
			fmt.Fprintf(&sb, "F%d ", int(o.FT))
		}
	}
	return sb.String()
}

// genOps splits n bytes into Write calls with Flush calls in between.
// finish allows FinishFlush in the middle (starting further streams).
func genOps(r *Rand, n int, flushes, finish bool) []Op {
	var ops []Op
	left := n
	style := r.N(7)
	if n > 20000 && style == 1 {
		style = 3
	}
	if flushes && r.P(1, 6) { // before anything was written
		for k := r.In(1, 2); k > 0; k-- {
			ft := flate.FlushType(r.N(4))
			if finish && r.P(1, 2) {
				ft = flate.FinishFlush
			}
			ops = append(ops, Op{K: 'F', FT: ft})
		}
	}
	fix := r.Pick(2, 3, 7, 100, 255, 256, 257, 511, 512, 513, 1000, 4095, 4096, 4097, 8192, 32768, 65536)
	for left > 0 || (n == 0 && r.P(1, 2)) {
		k := left
		switch style {
		case 0:
		case 1:
			k = 1
		case 2:
			k = fix
			if n/fix > 3000 {
				k = 4096
			}
		case 3:
			k = 1 + r.N(left+1)
		case 4:
			k = r.N(5000)
		case 5:
			k = r.Pick(0, 1, 2, 10, 300, 4096, 70000)
			if n > 100000 && k < 300 {
				k *= 100
			}
		case 6:
			k = left/2 + 1
		}
		if k > left {
			k = left
		}
		ops = append(ops, Op{K: 'W', N: k})
		left -= k
		if flushes && r.P(1, 4) && len(ops) < 400 {
			for {
				ft := flate.FlushType(r.N(4))
				if finish && r.P(1, 8) {
					ft = flate.FinishFlush
				}
				ops = append(ops, Op{K: 'F', FT: ft})
				if !r.P(1, 4) {
					break
				}
			}
		}
		if len(ops) > 20000 {
			ops = append(ops, Op{K: 'W', N: left})
			left = 0
		}
		if n == 0 {
			break
		}
	}
	return ops
}

// doWrite performs one Write with the io.Writer contract monitored: full
// count, no error, the caller's buffer neither modified nor retained.
func doWrite(c *C, fw *flate.Writer, p []byte) {
	buf := make([]byte, len(p)+8)
	copy(buf, p)
	for i := len(p); i < len(buf); i++ {
		buf[i] = 0xC3
	}
	n, err := fw.Write(buf[:len(p)])
	if err != nil || n != len(p) {
		c.Failf("Write(%d bytes) returned %d, %v with a working sink", len(p), n, err)
	}
	if !bytes.Equal(buf[:len(p)], p) {
		c.Failf("Write modified the caller's buffer")
	}
	for _, b := range buf[len(p):] {
		if b != 0xC3 {
			c.Failf("Write modified memory beyond the slice it was given")
		}
	}
	for i := range buf {
		buf[i] = 0x5A // the caller may reuse its buffer at once
	}
}

// feed applies a history to a Writer with a working sink.
func feed(c *C, fw *flate.Writer, data []byte, ops []Op) {
	pos := 0
	for _, o := range ops {
		if o.K == 'W' {
			doWrite(c, fw, data[pos:pos+o.N])
			pos += o.N
		} else if err := fw.Flush(o.FT); err != nil {
			c.Failf("Flush(%v) returned %v with a working sink", o.FT, err)
		}
	}
	if pos != len(data) {
		panic("harness: ops do not cover the data")
	}
}

// newWriter returns a Writer, now and then one that was used before with the
// same settings and Reset.
func newWriter(c *C, w io.Writer, opts ...flate.Option) *flate.Writer {
	r := c.Rand.Fork()
	if !r.P(1, 8) {
		return flate.NewWriter(w, opts...)
	}
	old := NewSink()
	if r.P(1, 4) {
		old.failByte = r.N(200)
	}
	fw := flate.NewWriter(old, opts...)
	for k := r.N(3); k > 0; k-- {
		fw.Write(genPayload(r, r.Pick(5, 300, 5000, 70000)))
		if r.P(1, 3) {
			fw.Flush(flate.FlushType(r.N(5)))
		}
		fw.Flush(flate.FinishFlush)
	}
	if r.P(1, 2) {
		fw.Close()
	}
	fw.Reset(w)
	c.Count("recycled-writers", 1)
	return fw
}

// newReader is the like for Readers.
func newReader(c *C, src io.Reader, opts ...flate.Option) *flate.Reader {
	r := c.Rand.Fork()
	if !r.P(1, 8) {
		return flate.NewReader(src, opts...)
	}
	var old []byte
	for k := r.N(3); k > 0; k-- {
		old = append(old, genStream(r, RefFormat(1+r.N(3)), &genOpt{size: r.Pick(0, 5, 300, 20000), wbits: 8}).Comp...)
	}
	if r.P(1, 3) {
		old = append(old, r.Bytes(r.N(20))...)
	}
	fr := flate.NewReader(PlainSrc(old), opts...)
	switch r.N(3) {
	case 0:
		io.Copy(io.Discard, fr)
	case 1:
		fr.Read(make([]byte, r.Pick(1, 10, 1000)))
	}
	if r.P(1, 3) {
		fr.Close()
	}
	fr.Reset(src)
	c.Count("recycled-readers", 1)
	return fr
}

// compress runs a complete history and returns the sink's bytes.
func compress(c *C, cfg Cfg, data []byte, ops []Op, extra ...flate.Option) []byte {
	s := NewSink()
	var fw *flate.Writer
	if len(extra) == 0 {
		fw = newWriter(c, s.As(c.N(4)), cfg.Opts()...)
	} else {
		fw = flate.NewWriter(s.As(c.N(4)), append(cfg.Opts(), extra...)...)
	}
	feed(c, fw, data, ops)
	if err := fw.Close(); err != nil {
		c.Failf("Close returned %v with a working sink", err)
	}
	return s.Bytes()
}

// ---------------------------------------------------------------- reader driver

// readAll drains a Reader, monitoring the io.Reader contract on the way.
func readAll(c *C, fr *flate.Reader, r *Rand) ([]byte, error) {
	return readAllMode(c, fr, r, r.N(6))
}

func readAllMode(c *C, fr *flate.Reader, r *Rand, mode int) ([]byte, error) {
	var out []byte
	big := make([]byte, 70000+16)
	idle := 0
	sizes := []int{1, 2, 3, 7, 100, 512, 1000, 4096, 32768, 65536, 70000}
	fixed := sizes[r.N(len(sizes))]
	for {
		var n int
		switch mode {
		case 0:
			n = 70000
		case 1:
			n = fixed
		case 2:
			n = 1 + r.N(70000)
		case 3:
			n = 1 + r.N(300)
		case 4:
			n = sizes[r.N(len(sizes))]
		default:
			n = 32768
		}
		if len(out) > 30000 && n < 256 {
			n = 4096
		}
		if mode == 4 && r.P(1, 20) {
			n = 0
		}
		p := big[:n]
		for i := n; i < n+16; i++ {
			big[i] = 0x77
		}
		k, err := fr.Read(p)
		if k < 0 || k > n {
			c.Failf("Read(len %d) returned n=%d", n, k)
		}
		for i := n; i < n+16; i++ {
			if big[i] != 0x77 {
				c.Failf("Read(len %d) wrote beyond the slice it was given", n)
			}
		}
		out = append(out, p[:k]...)
		if err != nil {
			// sticky?
			for j := 0; j < 3; j++ {
				k2, err2 := fr.Read(big[:100])
				if k2 != 0 || err2 != err {
					c.Failf("after Read returned error %v, a later Read returned %d, %v", err, k2, err2)
				}
			}
			return out, err
		}
		if k == 0 && n > 0 {
			idle++
			if idle > 2000 {
				c.Failf("Read keeps returning 0, nil")
			}
		} else if k > 0 {
			idle = 0
		}
		if len(out) > 1<<28 {
			c.Failf("Reader returned more than 256 MiB")
		}
	}
}

type RCfg struct {
	Fmt  RefFormat
	Mem  flate.MemoryLevel
	WB   flate.WindowBits
	Dict []byte
}

func (c RCfg) String() string {
	return fmt.Sprintf("reader{%v mem=%v wbits=%v dict=%d}", c.Fmt, c.Mem, c.WB, len(c.Dict))
}

func (c RCfg) Opts() []flate.Option {
	o := []flate.Option{flate.WithFormat(flFmt(c.Fmt)), flate.WithMemoryLevel(c.Mem), flate.WithWindowBits(c.WB)}
	if c.Dict != nil {
		o = append(o, flate.WithDictionary(c.Dict))
	}
	return o
}

func (c RCfg) Ref() RefOpt {
	return RefOpt{Format: c.Fmt, WBits: int(c.WB), Dict: c.Dict}
}

// genRCfg draws a Reader configuration able to read streams of that window.
func genRCfg(r *Rand, f RefFormat, wb int, dict []byte) RCfg {
	c := RCfg{Fmt: f, Mem: flate.MemoryLevel(r.N(10)), Dict: dict}
	c.WB = flate.WindowBits(r.In(wb, 15))
	if r.P(1, 4) {
		c.WB = 0
	}
	return c
}

func diffAt(a, b []byte) string {
	n := len(a)
	if len(b) < n {
		n = len(b)
	}
	for i := 0; i < n; i++ {
		if a[i] != b[i] {
			return fmt.Sprintf("first difference at byte %d: got %#02x want %#02x (lengths %d, %d)", i, a[i], b[i], len(a), len(b))
		}
	}
	return fmt.Sprintf("lengths differ: got %d want %d", len(a), len(b))
}

func errKind(err error) EKind {
	var ce flate.CorruptInputError
	switch {
	case err == nil, err == io.EOF:
		return 0
	case err == io.ErrUnexpectedEOF:
		return ETrunc
	case errors.As(err, &ce):
		return ECorrupt
	}
	return -1
}

const (
	jAccept  = 1 << iota // accepted exactly if valid, never wrong data
	jPrecise             // kind of the error, data before it, offsets
)

// judgeRead compares what a Reader did with the reference verdict.
func judgeRead(c *C, what string, got []byte, err error, ref *RefResult, inLen int, mode int) {
	if ref.TooBig {
		return
	}
	// whatever happens, nothing wrong may be delivered
	if ref.Lenient {
		limit := ref.Out[:ref.LenOut]
		n := len(got)
		if n > len(limit) {
			n = len(limit)
		}
		if !bytes.Equal(got[:n], limit[:n]) {
			c.Failf("%s: delivered wrong data: %s", what, diffAt(got[:n], limit[:n]))
		}
		if errKind(err) < 0 {
			c.Failf("%s: unexpected error %v", what, err)
		}
		return
	}
	if !bytes.HasPrefix(ref.Out, got) {
		c.Failf("%s: delivered wrong data: %s (reference verdict: %v %s)", what, diffAt(got, ref.Out), ref.Err, ref.Msg)
	}
	k := errKind(err)
	if ref.Err == 0 {
		if k != 0 {
			c.Failf("%s: valid input rejected with %v after %d of %d bytes", what, err, len(got), len(ref.Out))
		}
		if len(got) != len(ref.Out) {
			c.Failf("%s: data lost: %s", what, diffAt(got, ref.Out))
		}
		return
	}
	if k == 0 && mode&jAccept != 0 {
		c.Failf("%s: invalid input accepted (%v at byte %d: %s), delivered %d bytes then %v", what, ref.Err, ref.Off, ref.Msg, len(got), err)
	}
	if mode&jPrecise == 0 {
		return
	}
	if k < 0 {
		c.Failf("%s: invalid input (%v: %s) gave unexpected error %T %v", what, ref.Err, ref.Msg, err, err)
	}
	if k&ref.Err == 0 {
		c.Failf("%s: %v input (%s at byte %d of %d) reported as %v: %v", what, ref.Err, ref.Msg, ref.Off, inLen, k, err)
	}
	if len(got) < ref.SafeOut {
		c.Failf("%s: only %d of the %d bytes preceding the failure were delivered before the error %v (reference: %s)", what, len(got), ref.SafeOut, err, ref.Msg)
	}
	var ce flate.CorruptInputError
	if errors.As(err, &ce) {
		if ce.OffsetStream > ce.OffsetTotal || ce.OffsetTotal > uint64(inLen) {
			c.Failf("%s: error offsets out of range: %+v, input is %d bytes", what, ce, inLen)
		}
		start := uint64(ref.Streams[len(ref.Streams)-1].Start)
		if d := ce.OffsetTotal - ce.OffsetStream; d != start {
			c.Failf("%s: error offsets %+v place the start of the failing stream at %d, it is at %d", what, ce, d, start)
		}
		if start > 0 {
			c.Count("corrupt-in-later-stream", 1)
		}
		if ce.Error() == "" || ce.Problem == "" {
			c.Failf("%s: empty error text", what)
		}
	}
}

func refVerify(c *C, what string, comp []byte, opt RefOpt, want []byte) *RefResult {
	ref := RefDecode(comp, opt)
	if ref.Err != 0 {
		c.Failf("%s: independent decoder: %v at byte %d of %d: %s", what, ref.Err, ref.Off, len(comp), ref.Msg)
	}
	if ref.Lenient {
		c.Failf("%s: independent decoder: non-standard construct: %s", what, ref.LenientWhy)
	}
	if !bytes.Equal(ref.Out, want) {
		c.Failf("%s: independent decoder obtains other data: %s", what, diffAt(ref.Out, want))
	}
	return ref
}
