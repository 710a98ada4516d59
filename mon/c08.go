package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"syscall"

	"github.com/chronos-tachyon/flate"
)

func init() {
	register(&Prop{
		ID: "C08", N: tierN(2500, 20000), Run: runC08,
		Rule: "case = (configuration, payload, Write/Flush/Close history, sink kind); a fault-free run gives the sink's call sequence, then the same history is re-run once per injected fault: every sink Write call (all of them up to 40, then a sample), byte positions, every underlying Flush and Sync, partial acceptance, short writes. evaluations = faulted runs judged; distinct by (history, fault); non-trivial: the fault was reached",
		Need: []string{"fault-write-call", "fault-byte", "fault-flush", "fault-sync", "fault-short", "fault-einval", "failed-in-Write", "failed-in-Flush", "failed-in-Close", "several-stored-blocks", "with-header"},
	})
	register(&Prop{
		ID: "C09", N: tierN(20000, 60000), Run: runC09,
		Rule: "case = (configuration, payload, history with flushes of all types, sink kind); after every successful Flush the bytes handed to the sink so far are judged by the reference decoder and the sink's call log. evaluations = flushes judged; distinct by (history, position); non-trivial: data was written before the flush",
		Need: []string{"flush-block", "flush-partial", "flush-sync", "flush-full", "flush-finish", "underlying-flush", "underlying-sync", "after-full-matches", "einval-sync", "underlying-failed"},
	})
	register(&Prop{
		ID: "C10", N: tierN(8000, 60000), Run: runC10,
		Rule: "case = a concatenation of 1..8 streams (generated, or produced by one Writer with Finish flushes), sometimes followed by bytes that are no stream; read with explicit and automatic format and compared with the reference; events checked per stream. non-trivial: at least two streams or trailing bytes; distinct by hash of the input",
		Need: []string{"multi", "mixed-formats", "empty-members", "trailing-garbage", "auto-equals-explicit", "writer-multi", "stream-counters", "one-byte-tail"},
	})
}

type faultRes struct {
	failOp int // index of the op that reported the failure, -1 = none
	err    error
	bytes  []byte
}

// runFaulted applies ops (+Close at the end) to a Writer on a faulty sink and
// monitors the error contract.
func runFaulted(c *C, what string, cfg Cfg, hdr *flate.Header, kind int, s *Sink, data []byte, ops []Op, expect error, ignorable bool) faultRes {
	fw := flate.NewWriter(s.As(kind), cfg.Opts()...)
	if hdr != nil {
		if err := fw.SetHeader(*hdr); err != nil {
			c.Failf("%s: SetHeader: %v", what, err)
		}
		c.Count("with-header", 1)
	}
	res := faultRes{failOp: -1}
	pos := 0
	for i := 0; i <= len(ops); i++ {
		was := s.failed
		var err error
		name := "Close"
		n, want := 0, 0
		if i < len(ops) {
			o := ops[i]
			if o.K == 'W' {
				name = "Write"
				want = o.N
				buf := append([]byte(nil), data[pos:pos+o.N]...)
				pos += o.N
				n, err = fw.Write(buf)
				if !bytes.Equal(buf, data[pos-o.N:pos]) {
					c.Failf("%s: Write changed the caller's buffer", what)
				}
			} else {
				name = "Flush"
				err = fw.Flush(o.FT)
			}
		} else {
			err = fw.Close()
		}
		if res.failOp < 0 {
			failedNow := s.failed && !was
			switch {
			case failedNow && ignorable:
				if err != nil {
					c.Failf("%s: %s (op %d) returned %v although the sink's failure is to be ignored", what, name, i, err)
				}
			case failedNow && s.short:
				if err != nil {
					res.failOp, res.err = i, err
				}
			case failedNow:
				if err == nil {
					c.Failf("%s: the sink failed during op %d (%s) but it returned success", what, i, name)
				}
				if err != expect {
					c.Failf("%s: the sink failed with %v during op %d (%s), which returned %v", what, expect, i, name, err)
				}
				res.failOp, res.err = i, err
				c.Count("failed-in-"+name, 1)
			case err != nil:
				c.Failf("%s: op %d (%s) returned %v although the sink works", what, i, name, err)
			}
			if err == nil && name == "Write" && n != want {
				c.Failf("%s: Write of %d bytes returned %d, nil", what, want, n)
			}
			if res.failOp >= 0 {
				s.after = 0
			}
			continue
		}
		// sticky
		if err != res.err {
			c.Failf("%s: after the failure %v in op %d, op %d (%s) returned %v", what, res.err, res.failOp, i, name, err)
		}
		if n != 0 {
			c.Failf("%s: Write after the failure claims %d bytes", what, n)
		}
		if s.after != 0 {
			c.Failf("%s: after the failure was reported, op %d (%s) called the underlying writer again", what, i, name)
		}
	}
	// closed now
	mark := len(s.events)
	if _, err := fw.Write([]byte("x")); err != fs.ErrClosed {
		c.Failf("%s: Write after Close returned %v", what, err)
	}
	if err := fw.Flush(flate.SyncFlush); err != fs.ErrClosed {
		c.Failf("%s: Flush after Close returned %v", what, err)
	}
	if err := fw.Close(); err != fs.ErrClosed {
		c.Failf("%s: second Close returned %v", what, err)
	}
	if len(s.events) != mark {
		c.Failf("%s: the underlying writer was called after Close", what)
	}
	if s.closed != 0 {
		c.Failf("%s: the underlying writer was closed", what)
	}
	res.bytes = s.Bytes()
	return res
}

func runC08(c *C, i int) {
	cfg := genCfg(c.Rand)
	cfg.Mem = flate.MemoryLevel(c.Pick(1, 1, 2, 3, 5, 9))
	max := 4000
	if i%6 == 0 {
		max = 150000
	}
	data := genPayload(c.Rand, max)
	ops := genOps(c.Rand, len(data), c.P(2, 3), c.P(1, 2))
	if len(ops) > 60 {
		ops = []Op{{K: 'W', N: len(data) / 2}, {K: 'F', FT: flate.FlushType(c.N(5))}, {K: 'W', N: len(data) - len(data)/2}}
	}
	if i%61 == 7 {
		// one batch of tokens that becomes several stored blocks
		cfg.Mem = flate.MemoryLevel(c.Pick(8, 9, 9, 0))
		data = c.Bytes(c.Pick(65536, 70000, 131072, 140000, 200000) + c.N(3))
		k := c.N(2000)
		ops = []Op{{K: 'W', N: k}, {K: 'W', N: len(data) - k}}
		if c.P(1, 2) {
			ops = append(ops, Op{K: 'F', FT: flate.FlushType(c.N(5))})
		}
		c.Count("several-stored-blocks", 1)
	}
	if c.P(1, 3) {
		ops = append(ops, Op{K: 'W', N: 0}, Op{K: 'F', FT: flate.FlushType(c.N(5))})
	}
	kind := c.N(4)
	what := fmt.Sprintf("%v, %d bytes, ops %s, sink %d", cfg, len(data), opsString(ops), kind)
	base := NewSink()
	var hdr *flate.Header
	if cfg.Fmt == flate.GZIPFormat && c.P(2, 3) {
		h := randHeader(c)
		hdr = &h
		what += ", header " + head(hdrText(h), 300)
	}
	r0 := runFaulted(c, what, cfg, hdr, kind, base, data, ops, nil, false)
	want := r0.bytes
	type fault struct {
		name string
		mk   func() *Sink
		exp  error
		ign  bool
	}
	var fs_ []fault
	addCall := func(k int, e error) {
		fs_ = append(fs_, fault{fmt.Sprintf("write-call %d", k), func() *Sink { s := NewSink(); s.failCall = k; s.failErr = e; return s }, e, false})
	}
	if base.calls <= 40 {
		for k := 1; k <= base.calls; k++ {
			addCall(k, errSink)
		}
	} else {
		for k := 0; k < 12; k++ {
			addCall(1+c.N(base.calls), io.ErrShortWrite)
		}
		addCall(base.calls, errSink)
		addCall(base.calls-1, errSink)
		addCall(1, errSink)
	}
	nb := 6
	if len(want) <= 40 {
		nb = len(want)
	}
	for k := 0; k < nb; k++ {
		at := k
		if len(want) > 40 {
			at = c.N(len(want))
		}
		e := []error{errSink, syscall.ENOSPC, io.ErrClosedPipe, syscall.EINVAL}[c.N(4)]
		if c.P(1, 2) {
			e = oddErr(c.Rand)
			if c.P(1, 6) {
				e = io.EOF
			}
		}
		fs_ = append(fs_, fault{fmt.Sprintf("byte %d", at), func() *Sink { s := NewSink(); s.failByte = at; s.failErr = e; return s }, e, false})
	}
	for k := 0; k < 2 && len(want) > 0; k++ {
		at := c.N(len(want))
		fs_ = append(fs_, fault{fmt.Sprintf("short at %d", at), func() *Sink { s := NewSink(); s.failByte = at; s.short = true; return s }, nil, false})
	}
	for k := 1; k <= base.nFlush && kind&1 != 0; k++ {
		k := k
		fs_ = append(fs_, fault{fmt.Sprintf("flush %d", k), func() *Sink { s := NewSink(); s.flushAt = k; s.flushErr = errFlush; return s }, errFlush, false})
		if c.P(1, 3) {
			fs_ = append(fs_, fault{fmt.Sprintf("flush EINVAL %d", k), func() *Sink { s := NewSink(); s.flushAt = k; s.flushErr = syscall.EINVAL; return s }, syscall.EINVAL, false})
		}
	}
	for k := 1; k <= base.nSync && kind&2 != 0; k++ {
		k := k
		es := []error{errSync, syscall.EIO, syscall.ENOSPC, syscall.ENOTSUP, syscall.EROFS, &fs.PathError{Op: "sync", Path: "x", Err: syscall.EIO}, io.EOF}[c.N(7)]
		fs_ = append(fs_, fault{fmt.Sprintf("sync %d (%v)", k, es), func() *Sink { s := NewSink(); s.syncAt = k; s.syncErr = es; return s }, es, false})
		var e error = syscall.EINVAL
		if c.P(1, 2) {
			e = &fs.PathError{Op: "sync", Path: "x", Err: syscall.EINVAL}
		}
		fs_ = append(fs_, fault{fmt.Sprintf("einval-sync %d", k), func() *Sink { s := NewSink(); s.syncAt = k; s.syncErr = e; return s }, e, true})
	}
	for _, f := range fs_ {
		s := f.mk()
		w2 := what + ", fault: " + f.name
		r := runFaulted(c, w2, cfg, hdr, kind, s, data, ops, f.exp, f.ign)
		if !bytes.HasPrefix(want, r.bytes) {
			c.Failf("%s: the sink accepted something else than a prefix of the fault-free output: %s", w2, diffAt(r.bytes, want))
		}
		if r.failOp < 0 && !bytes.Equal(r.bytes, want) {
			c.Failf("%s: every call reported success but the sink holds %d of %d bytes", w2, len(r.bytes), len(want))
		}
		reached := s.failed
		if reached {
			switch f.name[0] {
			case 'w':
				c.Count("fault-write-call", 1)
			case 'b':
				c.Count("fault-byte", 1)
			case 'f':
				c.Count("fault-flush", 1)
			case 's':
				if f.name[1] == 'h' {
					c.Count("fault-short", 1)
				} else {
					c.Count("fault-sync", 1)
				}
			case 'e':
				c.Count("fault-einval", 1)
			}
		}
		c.Eval(reached, what, f.name, hashOf(data))
	}
	c.Sample("%s: %d sink calls, %d flushes, %d syncs, %d faulted runs", what, base.calls, base.nFlush, base.nSync, len(fs_))
}

// ---------------------------------------------------------------- flush

func runC09(c *C, i int) {
	cfg := sweepCfg(c, i)
	data := genPayload(c.Rand, c.Pick(50, 3000, 20000, 150000))
	ops := genOps(c.Rand, len(data), true, true)
	// make sure flushes are there, and repeat some material across them
	var o2 []Op
	for _, o := range ops {
		o2 = append(o2, o)
		if o.K == 'W' && len(o2) < 120 && c.P(1, 3) {
			o2 = append(o2, Op{K: 'F', FT: flate.FlushType(c.N(5))})
		}
	}
	ops = o2
	if c.P(1, 8) {
		ops = append([]Op{{K: 'F', FT: flate.FlushType(c.N(5))}}, ops...)
	}
	nf := 0
	for k := range ops { // bound the quadratic cost
		if ops[k].K == 'F' {
			nf++
		}
	}
	budget := 6 << 20
	kind := c.N(4)
	s := NewSink()
	if kind&2 != 0 && c.P(1, 4) {
		s.syncAt, s.syncErr = 1+c.N(3), syscall.EINVAL
		if c.P(1, 2) {
			s.syncErr = &fs.PathError{Op: "sync", Path: "x", Err: syscall.EINVAL}
		}
		c.Count("einval-sync", 1)
	}
	var failing error // what the failing Flush or Sync returns
	if kind != 0 && s.syncAt == 0 && c.P(1, 4) {
		failing = []error{errSink, syscall.EIO, syscall.ENOTSUP, syscall.EBADF, fs.ErrInvalid, &fs.PathError{Op: "sync", Path: "x", Err: syscall.EBADF}}[c.N(6)]
		if kind == 1 || kind == 3 && c.P(1, 2) {
			if c.P(1, 3) {
				failing = syscall.EINVAL
			}
			s.flushAt, s.flushErr = 1+c.N(4), failing
		} else {
			s.syncAt, s.syncErr = 1+c.N(4), failing
		}
	}
	c.Note("%v, %d bytes, ops %s sink=%d", cfg, len(data), opsString(ops), kind)
	fw := newWriter(c, s.As(kind), cfg.Opts()...)
	opt := RefOpt{Format: cfg.RefFmt(), WBits: cfg.EffWB(), Dict: cfg.Dict}
	pos, strm := 0, 0 // strm: data position where the current stream began
	open := false
	finishedOnce := false
	type fullPt struct{ at, strm int }
	var fulls []fullPt
	type blockPt struct{ at, prefix int }
	var blocks []blockPt
	prefixDone := 0 // compressed bytes of finished streams
	for k, o := range ops {
		mark := len(s.events)
		if o.K == 'W' {
			doWrite(c, fw, data[pos:pos+o.N])
			if o.N > 0 && !open {
				strm = pos
			}
			pos += o.N
			if o.N > 0 {
				open = true
			}
			for _, e := range s.events[mark:] {
				if e.kind != 'w' {
					c.Failf("op %d: Write called the underlying writer's Flush or Sync", k)
				}
			}
			continue
		}
		err := fw.Flush(o.FT)
		if failing != nil && s.failed {
			if err != failing {
				c.Failf("op %d: Flush(%v) returned %v although the underlying writer's own Flush or Sync returned %v", k, o.FT, err, failing)
			}
			c.Count("underlying-failed", 1)
			c.Eval(true, "failing", cfg.String(), opsString(ops), k)
			return
		}
		if err != nil {
			c.Failf("op %d: Flush(%v) returned %v", k, o.FT, err)
		}
		// underlying Flush and Sync, in that order, after the data
		evs := s.events[mark:]
		for len(evs) > 0 && evs[0].kind == 'w' {
			evs = evs[1:]
		}
		wantSeq := []string{"", "f", "s", "fs"}[kind]
		seq := ""
		for _, e := range evs {
			seq += string(e.kind)
		}
		if seq != wantSeq {
			c.Failf("op %d: Flush(%v): after the data the underlying writer saw %q, want %q", k, o.FT, seq, wantSeq)
		}
		if kind&1 != 0 {
			c.Count("underlying-flush", 1)
		}
		if kind&2 != 0 {
			c.Count("underlying-sync", 1)
		}
		comp := s.Bytes()
		c.Count([]string{"flush-block", "flush-partial", "flush-sync", "flush-full", "flush-finish"}[o.FT], 1)
		c.Eval(pos > 0, cfg.String(), opsString(ops[:k+1]), hashOf(data[:pos]))
		what := fmt.Sprintf("op %d: after Flush(%v) with %d bytes written and %d handed over", k, o.FT, pos, len(comp))
		if o.FT == flate.FinishFlush {
			if !open && !finishedOnce {
				open = true // an unused Writer emits one empty stream
				strm = pos
			}
			part := comp[prefixDone:]
			if !open {
				if len(part) != 0 {
					c.Failf("%s: bytes were emitted for no new stream", what)
				}
				continue
			}
			ref := RefDecode(part, opt)
			if ref.Err != 0 || len(ref.Streams) != 1 {
				c.Failf("%s: not one complete stream: %v %s", what, ref.Err, ref.Msg)
			}
			if !bytes.Equal(ref.Out, data[strm:pos]) {
				c.Failf("%s: wrong content: %s", what, diffAt(ref.Out, data[strm:pos]))
			}
			for _, p := range fulls {
				for _, b := range ref.Streams[0].Blocks {
					if b.OutStart >= p.at-p.strm && b.NMatch > 0 {
						c.Count("after-full-matches", b.NMatch)
						if b.MinReach < p.at-p.strm {
							c.Failf("%s: data after the Full flush at %d refers back to %d", what, p.at-p.strm, b.MinReach)
						}
					}
				}
			}
			for _, p := range blocks {
				checkBlockPt(c, ref.Streams[0], p.at-strm, p.prefix-prefixDone)
			}
			fulls, blocks = nil, nil
			prefixDone = len(comp)
			open = false
			finishedOnce = true
			continue
		}
		if !open {
			if len(comp) != prefixDone {
				c.Failf("%s: bytes were emitted although no stream is open", what)
			}
			continue
		}
		if o.FT == flate.BlockFlush {
			blocks = append(blocks, blockPt{pos, len(comp)})
			continue
		}
		part := comp[prefixDone:]
		budget -= len(part) + (pos - strm)
		if budget < 0 && k+1 < len(ops) {
			if o.FT == flate.FullFlush {
				fulls = append(fulls, fullPt{pos, strm})
			}
			continue
		}
		ref := RefDecode(part, opt)
		if ref.Err != ETrunc {
			c.Failf("%s: prefix is %v (%s), expected an unfinished stream", what, ref.Err, ref.Msg)
		}
		if !bytes.Equal(ref.Out, data[strm:pos]) {
			c.Failf("%s: a decoder recovers %d of %d bytes: %s", what, len(ref.Out), pos-strm, diffAt(ref.Out, data[strm:pos]))
		}
		if ref.SafeOut != pos-strm {
			c.Failf("%s: only %d of %d bytes belong to completed blocks", what, ref.SafeOut, pos-strm)
		}
		if o.FT == flate.SyncFlush || o.FT == flate.FullFlush {
			if !bytes.HasSuffix(part, []byte{0, 0, 0xff, 0xff}) {
				c.Failf("%s: does not end with the empty stored block", what)
			}
			bl := ref.Streams[0].Blocks
			var last *RBlock
			for _, b := range bl {
				if b.Complete {
					last = b
				}
			}
			if last == nil || last.Type != 0 || last.StoredN != 0 || last.Final || last.EndBit != int64(len(part))*8 {
				c.Failf("%s: last block is not the empty stored block on a byte boundary", what)
			}
		}
		if o.FT == flate.FullFlush {
			fulls = append(fulls, fullPt{pos, strm})
		}
	}
	if err := fw.Close(); failing != nil && s.failed {
		if err != failing {
			c.Failf("Close returned %v although the underlying writer's own Flush or Sync returned %v", err, failing)
		}
	} else if err != nil {
		c.Failf("Close returned %v", err)
	}
	part := s.Bytes()[prefixDone:]
	if !open && finishedOnce {
		if len(part) != 0 {
			c.Failf("Close after a Finish flush emitted %d bytes", len(part))
		}
		return
	}
	ref := refVerify(c, "after Close", part, opt, data[strmStart(open, strm, pos):pos])
	for _, p := range fulls {
		for _, b := range ref.Streams[0].Blocks {
			if b.OutStart >= p.at-p.strm && b.NMatch > 0 {
				c.Count("after-full-matches", b.NMatch)
				if b.MinReach < p.at-p.strm {
					c.Failf("data after the Full flush at %d refers back to %d", p.at-p.strm, b.MinReach)
				}
			}
		}
	}
	for _, p := range blocks {
		checkBlockPt(c, ref.Streams[0], p.at-strm, p.prefix-prefixDone)
	}
	c.Sample("%v, %d bytes, ops %s sink=%d", cfg, len(data), opsString(ops), kind)
}

func strmStart(open bool, strm, pos int) int {
	if open {
		return strm
	}
	return pos
}

// checkBlockPt: a Block flush at output position at completed the block and
// held back fewer than 64 bits.
func checkBlockPt(c *C, st *RStream, at, prefix int) {
	if at == 0 {
		return
	}
	for _, b := range st.Blocks {
		if b.OutEnd-st.OutStart == at && b.Complete {
			if held := b.EndBit - int64(st.Start)*8 - int64(prefix)*8; held > 63 {
				c.Failf("Block flush at byte %d held back %d bits", at, held)
			}
			return
		}
	}
	c.Failf("Block flush at byte %d did not end a block there", at)
}

// ---------------------------------------------------------------- concatenation

func runC10(c *C, i int) {
	rc := RCfg{Mem: flate.MemoryLevel(c.N(10)), WB: 0}
	if c.P(1, 6) {
		rc.Dict = genDict(c.Rand)
	}
	var in []byte
	var lens []int
	mixed := false
	if i%4 == 3 {
		// one Writer, several Finish flushes
		cfg := genCfg(c.Rand)
		cfg.Dict = rc.Dict
		n := c.In(1, 6)
		s := NewSink()
		fw := newWriter(c, s.As(c.N(4)), cfg.Opts()...)
		for k := 0; k < n; k++ {
			d := genPayload(c.Rand, c.Pick(10, 3000, 40000))
			if len(d) == 0 {
				d = []byte{1}
			}
			at := s.Len()
			feed(c, fw, d, genOps(c.Rand, len(d), c.P(1, 2), false))
			if err := fw.Flush(flate.FinishFlush); err != nil {
				c.Failf("Flush(Finish): %v", err)
			}
			one := s.Bytes()[at:]
			ref := refVerify(c, fmt.Sprintf("stream %d of one Writer, alone", k), one, RefOpt{Format: cfg.RefFmt(), WBits: cfg.EffWB(), Dict: cfg.Dict}, d)
			if len(ref.Streams) != 1 {
				c.Failf("one Finish flush produced %d streams", len(ref.Streams))
			}
			lens = append(lens, len(one))
		}
		if err := fw.Close(); err != nil {
			c.Failf("Close: %v", err)
		}
		in = s.Bytes()
		rc.Fmt = cfg.RefFmt()
		c.Count("writer-multi", 1)
	} else {
		f := RefFormat(1 + c.N(3))
		mixed = c.P(1, 2)
		n := c.In(1, 8)
		for k := 0; k < n; k++ {
			if mixed {
				f = RefFormat(1 + c.N(3))
			}
			var s *GenStream
			for {
				g := &genOpt{size: c.Pick(0, 0, 1, 5, 100, 3000, 30000), dict: rc.Dict, wbits: c.In(8, 15)}
				if c.P(1, 2) {
					g.maxBlk = 1
				}
				s = genStream(c.Rand, f, g)
				if !(mixed && f == RRaw && looksLikeContainer(s.Comp)) {
					break
				}
			}
			if len(s.Out) == 0 {
				c.Count("empty-members", 1)
			}
			in = append(in, s.Comp...)
			lens = append(lens, len(s.Comp))
		}
		rc.Fmt = f
		if mixed {
			rc.Fmt = RAuto
			c.Count("mixed-formats", 1)
		}
	}
	garbage := false
	if i%3 == 0 {
		garbage = true
		switch c.N(7) {
		case 0:
			in = append(in, make([]byte, c.In(1, 20))...)
		case 1:
			in = append(in, c.Bytes(c.In(1, 20))...)
		case 2: // one byte
			in = append(in, byte(c.Pick(0, 0x1f, 0x78, 3, 0xff, c.N(256))))
			c.Count("one-byte-tail", 1)
		case 3: // first half of another stream
			s := genStream(c.Rand, RefFormat(1+c.N(3)), &genOpt{size: 30, dict: rc.Dict})
			in = append(in, s.Comp[:c.In(1, len(s.Comp)-1)]...)
		case 4: // the magic alone
			in = append(in, 0x1f, 0x8b)
		case 5:
			in = append(in, []byte("\n")...)
		case 6:
			s := genStream(c.Rand, RefFormat(1+c.N(3)), &genOpt{size: 30, dict: rc.Dict})
			b, _ := mutate(c.Rand, s)
			in = append(in, b...)
		}
		c.Count("trailing-garbage", 1)
	}
	if len(lens) > 1 {
		c.Count("multi", 1)
	}
	cfgs := []RCfg{rc}
	if !mixed {
		a := rc
		a.Fmt = RAuto
		same := true
		if rc.Fmt == RRaw {
			at := 0
			for _, l := range lens {
				if looksLikeContainer(in[at:]) {
					same = false
				}
				at += l
			}
			if looksLikeContainer(in[at:]) || garbage {
				same = false
			}
		} else if garbage {
			same = false
		}
		if same {
			cfgs = append(cfgs, a)
		}
	}
	var first readRun
	for k, r := range cfgs {
		opt := r.Ref()
		opt.MaxOut = 32 << 20
		ref := RefDecode(in, opt)
		if !garbage && (ref.Err != 0 || ref.Lenient) {
			panic("HARNESS: concatenation not accepted by the reference: " + ref.Msg + ref.LenientWhy)
		}
		src := NewSrc(c.Rand, in)
		rr := doRead(c, src, r, -1)
		what := fmt.Sprintf("%d streams %v, %d bytes, garbage=%v, %v, %v", len(lens), lens, len(in), garbage, r, src)
		judgeRead(c, what, rr.data, rr.err, ref, len(in), jAccept)
		if !ref.Lenient {
			checkStreamEvents(c, what, rr.ev, r, ref)
		}
		if k == 0 {
			first = rr
		} else {
			sameRun(c, "auto-detected against explicit format: "+what, rr, first)
			c.Count("auto-equals-explicit", 1)
		}
	}
	c.Eval(len(lens) > 1 || garbage, hashOf(in), rc.String())
	c.Sample("%d streams %v garbage=%v %v", len(lens), lens, garbage, rc)
}

// checkStreamEvents: every completed stream has its own begin, header, end and
// close with counters restarting at zero.
func checkStreamEvents(c *C, what string, ev *evLog, rc RCfg, ref *RefResult) {
	k := -1
	closed := 0
	for li := range ev.lines {
		var ty string
		fmt.Sscanf(ev.lines[li], "%s", &ty)
		var it, is, ot, os uint64
		var n int
		fmt.Sscanf(ev.lines[li], ty+" in=%d/%d out=%d/%d n=%d", &it, &is, &ot, &os, &n)
		switch ty {
		case flate.StreamBeginEvent.String():
			k++
			if k >= len(ref.Streams) {
				c.Failf("%s: begin event for stream %d, the input has %d", what, k+1, len(ref.Streams))
			}
			st := ref.Streams[k]
			if n != k+1 || is != 0 || os != 0 || it != uint64(st.Start) || ot != uint64(st.OutStart) {
				c.Failf("%s: begin event of stream %d: %s; it starts at byte %d, output %d", what, k+1, ev.lines[li], st.Start, st.OutStart)
			}
		case flate.StreamCloseEvent.String():
			st := ref.Streams[k]
			if !st.Complete {
				c.Failf("%s: close event for incomplete stream %d", what, k+1)
			}
			if n != k+1 || it != uint64(st.End) || is != uint64(st.End-st.Start) || ot != uint64(st.OutEnd) || os != uint64(st.OutEnd-st.OutStart) {
				c.Failf("%s: close event of stream %d: %s; it spans bytes %d..%d, output %d..%d", what, k+1, ev.lines[li], st.Start, st.End, st.OutStart, st.OutEnd)
			}
			closed++
			c.Count("stream-counters", 1)
		}
	}
	n := 0
	for _, st := range ref.Streams {
		if st.Complete {
			n++
		}
	}
	if closed != n {
		c.Failf("%s: %d close events for %d complete streams", what, closed, n)
	}
}

var _ = errors.Is
