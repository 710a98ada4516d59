package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"io/fs"

	"github.com/chronos-tachyon/flate"
)

func init() {
	register(&Prop{
		ID: "C14", N: tierN(16000, 60000), Run: runC14,
		Rule: "case = (options, one or several earlier histories ending outside a stream or in a failure, merged options, new history, fault plan of the new sink); the Reset Writer and a newly built one run the new history side by side and every result, byte, event and sink call is compared; also Reset attempts in mid-stream. evaluations = Resets judged; distinct by hash of (history kinds, options, payload); non-trivial: an earlier history ran",
		Need: []string{"hist-unused", "hist-closed", "hist-finished", "hist-failed", "hist-failed-closed", "hist-closed-unused", "hist-block-pending", "hist-flush-failed", "midstream-refused", "merged-options", "same-options", "with-header", "new-sink-fails", "reset-twice"},
	})
	register(&Prop{
		ID: "C15", N: tierN(6000, 60000), Run: runC15,
		Rule: "case = (options, state in which Reset happens, merged options, new input: valid, invalid, truncated, concatenated, failing source); the Reset Reader and a newly built one read the new input and data, error text with offsets and all events are compared; the old source must not be touched again. evaluations = Resets judged; distinct by hash of (state, options, input); non-trivial: the Reader had been used",
		Need: []string{"at-unused", "at-midstream", "at-undelivered", "at-eof", "at-error", "at-closed", "at-closed-unused", "at-source-blocked", "at-racing", "new-input-bad", "new-input-good", "merged-options", "same-options", "reset-twice"},
	})
	register(&Prop{
		ID: "C16", N: tierN(20000, 60000), Run: runC16,
		Rule: "case = (configuration, history, closing sequence) for a Writer or a Reader; the sink, the source and all buffers are watched through closing and repeated use afterwards. evaluations = instances taken through their whole life; distinct by hash of history; non-trivial: data was processed",
		Need: []string{"writer-close", "writer-unused-close", "writer-finish-close", "writer-after-failure", "reader-close-unused", "reader-close-mid", "reader-close-eof", "reader-close-error", "reader-close-blocked", "buffers-checked"},
	})
}

// ---------------------------------------------------------------- writer reset

type opRes struct {
	n    int
	err  error
	name string
}

// tryOps runs a history plus Close and records every result.
func tryOps(fw *flate.Writer, data []byte, ops []Op, closeAfter bool) []opRes {
	var out []opRes
	pos := 0
	for _, o := range ops {
		if o.K == 'W' {
			n, err := fw.Write(append([]byte(nil), data[pos:pos+o.N]...))
			out = append(out, opRes{n, err, fmt.Sprintf("Write(%d)", o.N)})
			pos += o.N
		} else {
			out = append(out, opRes{0, fw.Flush(o.FT), fmt.Sprintf("Flush(%v)", o.FT)})
		}
	}
	if closeAfter {
		out = append(out, opRes{0, fw.Close(), "Close"})
	}
	return out
}

// partialOpts draws some options and applies them to cfg as well.
func partialOpts(c *C, r *Rand, o []flate.Option) []flate.Option {
	n := genCfg(r)
	for _, k := range []int{0, 1, 2, 3, 4, 5} {
		if r.P(3, 5) {
			continue
		}
		switch k {
		case 0:
			o = append(o, flate.WithFormat(n.Fmt))
		case 1:
			o = append(o, flate.WithStrategy(n.Strat))
		case 2:
			o = append(o, flate.WithCompressLevel(n.Lvl))
		case 3:
			o = append(o, flate.WithMemoryLevel(n.Mem))
		case 4:
			o = append(o, flate.WithWindowBits(n.WB))
		case 5:
			o = append(o, flate.WithDictionary(n.Dict))
		}
	}
	return o
}

func (s *Sink) plan(r *Rand) func() *Sink {
	switch r.N(4) {
	case 0:
		k := 1 + r.N(30)
		return func() *Sink { s := NewSink(); s.failCall = k; return s }
	case 1:
		k := r.N(3000)
		return func() *Sink { s := NewSink(); s.failByte = k; return s }
	case 2:
		k := 1 + r.N(3)
		return func() *Sink {
			s := NewSink()
			s.flushAt, s.flushErr, s.syncAt, s.syncErr = k, errFlush, k+1, errSync
			return s
		}
	}
	return NewSink
}

const nWHist = 9

// writerHistory takes a Writer through an earlier life which ends outside a
// stream or in a failure.  It returns the sink in use at the end.
func writerHistory(c *C, fw *flate.Writer, s *Sink, kind int) string {
	data := genPayload(c.Rand, c.Pick(10, 300, 9000, 40000))
	ops := genOps(c.Rand, len(data), true, true)
	if len(ops) > 300 {
		ops = []Op{{K: 'W', N: len(data)}}
	}
	switch kind {
	case 0:
		return "hist-unused"
	case 1:
		tryOps(fw, data, ops, true)
		return "hist-closed"
	case 2:
		tryOps(fw, data, append(ops, Op{K: 'F', FT: flate.FinishFlush}), false)
		return "hist-finished"
	case 3, 4: // failure of the sink during the history
		s.failByte = c.N(1 + len(data)/c.Pick(1, 4, 20))
		res := tryOps(fw, data, append(ops, Op{K: 'F', FT: flate.FinishFlush}), kind == 4)
		for _, r := range res {
			if r.err != nil {
				if kind == 4 {
					return "hist-failed-closed"
				}
				return "hist-failed"
			}
		}
		return "hist-finished"
	case 5:
		tryOps(fw, nil, nil, true)
		return "hist-closed-unused"
	case 6: // a Block flush leaves bits pending, then the sink fails
		tryOps(fw, data, append(ops, Op{K: 'F', FT: flate.BlockFlush}), false)
		s.failByte = s.Len()
		res := tryOps(fw, nil, []Op{{K: 'F', FT: flate.FlushType(c.In(1, 4))}}, c.P(1, 3))
		for _, r := range res {
			if r.err != nil {
				return "hist-block-pending"
			}
		}
		return "hist-finished-or-open"
	case 7: // the underlying Flush or Sync fails
		if c.P(1, 2) {
			s.flushAt, s.flushErr = s.nFlush+1, errFlush
		} else {
			s.syncAt, s.syncErr = s.nSync+1, errSync
		}
		res := tryOps(fw, data, append(ops, Op{K: 'F', FT: flate.FlushType(c.N(4))}), c.P(1, 2))
		for _, r := range res {
			if r.err == errFlush || r.err == errSync {
				return "hist-flush-failed"
			}
		}
		tryOps(fw, nil, nil, true)
		return "hist-closed"
	default: // finished, then closed; calls after Close
		tryOps(fw, data, append(ops, Op{K: 'F', FT: flate.FinishFlush}), true)
		tryOps(fw, []byte("late"), []Op{{K: 'W', N: 4}, {K: 'F', FT: flate.SyncFlush}}, true)
		return "hist-closed"
	}
}

func runC14(c *C, i int) {
	if i%8 == 7 {
		midstreamReset(c)
		return
	}
	base := genCfg(c.Rand)
	base.Mem = flate.MemoryLevel(c.Pick(1, 2, 3, 4, 9))
	evA := &evLog{}
	o1 := append(base.Opts(), flate.WithTracers(evA))
	cur := NewSink()
	fw := flate.NewWriter(cur.As(3), o1...)
	all := append([]flate.Option(nil), base.Opts()...)
	c.Note("base %v", base)
	var hdr *flate.Header
	setHdr := func() {
		if c.P(1, 3) {
			h := randHeader(c)
			if err := fw.SetHeader(h); err != nil {
				c.Failf("SetHeader: %v", err)
			}
			hdr = &h
			c.Count("with-header", 1)
		}
	}
	hist := ""
	rounds := c.Pick(1, 1, 1, 2, 3)
	for k := 0; k < rounds; k++ {
		setHdr()
		kind := c.N(nWHist)
		if k == 0 && i < 200 {
			kind = i % nWHist
		}
		name := writerHistory(c, fw, cur, kind)
		hist += name + " "
		c.Note("%s", name)
		if name == "hist-finished-or-open" {
			tryOps(fw, nil, nil, true)
		}
		c.Count(name, 1)
		mark := len(cur.events)
		// new sink and options
		var extra []flate.Option
		if c.P(1, 2) {
			extra = partialOpts(c, c.Rand, nil)
		}
		if len(extra) > 0 {
			c.Count("merged-options", 1)
		} else {
			c.Count("same-options", 1)
		}
		all = append(all, extra...)
		mk := NewSink
		if c.P(1, 3) {
			mk = cur.plan(c.Rand)
		}
		kindOfSink := c.N(4)
		old := cur
		cur = mk()
		fresh := mk()
		if c.P(1, 5) {
			evA = &evLog{}
			extra = append(extra, flate.WithTracers(evA))
		}
		if k > 0 {
			c.Count("reset-twice", 1)
		}
		if msg := Catch(func() { fw.Reset(cur.As(kindOfSink), extra...) }); msg != "" {
			c.Failf("Reset after %s panicked: %s", name, msg)
		}
		evA.lines = nil
		evB := &evLog{}
		fw2 := flate.NewWriter(fresh.As(kindOfSink), append(append([]flate.Option(nil), all...), flate.WithTracers(evB))...)
		if hdr != nil {
			if err := fw2.SetHeader(*hdr); err != nil {
				c.Failf("SetHeader: %v", err)
			}
		}
		if a, b := writerSettings(fw), writerSettings(fw2); a != b {
			c.Failf("settings after Reset: %s, of a new Writer: %s", a, b)
		}
		data := genPayload(c.Rand, c.Pick(0, 10, 300, 9000, 70000))
		ops := genOps(c.Rand, len(data), true, true)
		if len(ops) > 500 {
			ops = []Op{{K: 'W', N: len(data)}, {K: 'F', FT: flate.BlockFlush}}
		}
		cl := c.P(1, 2)
		ra := tryOps(fw, data, ops, cl)
		rb := tryOps(fw2, data, ops, cl)
		for j := range ra {
			if ra[j].n != rb[j].n || ra[j].err != rb[j].err {
				c.Failf("after %sand Reset, %s returned %d, %v; a new Writer returned %d, %v", hist, ra[j].name, ra[j].n, ra[j].err, rb[j].n, rb[j].err)
			}
			if ra[j].err != nil {
				c.Count("new-sink-fails", 1)
			}
		}
		if !bytes.Equal(cur.buf.Bytes(), fresh.buf.Bytes()) {
			c.Failf("after %sand Reset, the output differs from a new Writer's: %s", hist, diffAt(cur.buf.Bytes(), fresh.buf.Bytes()))
		}
		if len(cur.events) != len(fresh.events) || cur.nFlush != fresh.nFlush || cur.nSync != fresh.nSync {
			c.Failf("after %sand Reset, the sink saw %d calls (%d Flush, %d Sync); a new Writer made %d (%d, %d)", hist, len(cur.events), cur.nFlush, cur.nSync, len(fresh.events), fresh.nFlush, fresh.nSync)
		}
		if d := diffLines(evA.lines, evB.lines); d != "" {
			c.Failf("after %sand Reset, the events differ from a new Writer's: %s", hist, d)
		}
		if len(old.events) != mark {
			c.Failf("after Reset the previous sink was used again")
		}
		if old.closed != 0 || cur.closed != 0 {
			c.Failf("the underlying writer was closed")
		}
		c.Eval(kind != 0 || k > 0, hist, hashOf(data), opsString(ops), len(all))
		if !cl { // bring it to rest for the next round
			cur.failCall, cur.failByte, cur.flushAt, cur.syncAt = 0, -1, 0, 0
			fw.Close()
		}
		if k+1 < rounds {
			// start the next history from a fresh Reset
			cur = NewSink()
			fw.Reset(cur.As(3))
		}
	}
	c.Sample("base %v, histories %s", base, hist)
}

func writerSettings(fw *flate.Writer) string {
	return fmt.Sprintf("%v/%v/%v/%v/%v/%v/%x", fw.Format(), fw.Method(), fw.Strategy(), fw.CompressLevel(), fw.MemoryLevel(), fw.WindowBits(), hashOf(fw.Dict()))
}

func readerSettings(fr *flate.Reader) string {
	return fmt.Sprintf("%v/%v/%v/%x", fr.Format(), fr.MemoryLevel(), fr.WindowBits(), hashOf(fr.Dict()))
}

// midstreamReset: a Reset in the middle of a stream is refused and changes
// nothing.
func midstreamReset(c *C) {
	cfg := genCfg(c.Rand)
	data := genPayload(c.Rand, c.Pick(300, 9000, 70000))
	if len(data) < 2 {
		data = []byte("some data that is long enough")
	}
	ops := genOps(c.Rand, len(data), true, false)
	if len(ops) > 400 {
		ops = []Op{{K: 'W', N: len(data) / 2}, {K: 'F', FT: flate.FlushType(c.N(4))}, {K: 'W', N: len(data) - len(data)/2}}
	}
	c.Note("midstream: %v, %d bytes, ops %s", cfg, len(data), opsString(ops))
	evA, evB := &evLog{}, &evLog{}
	sa, sb := NewSink(), NewSink()
	fa := flate.NewWriter(sa.As(3), append(cfg.Opts(), flate.WithTracers(evA))...)
	fb := flate.NewWriter(sb.As(3), append(cfg.Opts(), flate.WithTracers(evB))...)
	pos := 0
	tries := 0
	for _, o := range ops {
		if o.K == 'W' {
			doWrite(c, fa, data[pos:pos+o.N])
			doWrite(c, fb, data[pos:pos+o.N])
			pos += o.N
		} else {
			if fa.Flush(o.FT) != nil || fb.Flush(o.FT) != nil {
				c.Failf("Flush failed")
			}
		}
		if sa.Len() > 0 && tries < 6 && c.P(1, 2) {
			// bytes of an unfinished stream are out: certainly mid-stream
			tries++
			set := writerSettings(fa)
			other := NewSink()
			extra := partialOpts(c, c.Rand, nil)
			if msg := Catch(func() { fa.Reset(other, extra...) }); msg == "" {
				c.Failf("Reset in the middle of a stream was accepted")
			}
			if s2 := writerSettings(fa); s2 != set {
				c.Failf("a refused Reset changed the settings from %s to %s", set, s2)
			}
			if w := fa.UnderlyingWriter(); w == io.Writer(other) {
				c.Failf("a refused Reset changed the underlying writer")
			}
			if len(other.events) != 0 {
				c.Failf("a refused Reset wrote to the new underlying writer")
			}
			c.Count("midstream-refused", 1)
			c.Eval(true, "mid", hashOf(data), opsString(ops), pos)
		}
	}
	ea, eb := fa.Close(), fb.Close()
	if ea != nil || eb != nil {
		c.Failf("Close after a refused Reset returned %v (without: %v)", ea, eb)
	}
	if !bytes.Equal(sa.buf.Bytes(), sb.buf.Bytes()) {
		c.Failf("a refused Reset changed the output: %s", diffAt(sa.buf.Bytes(), sb.buf.Bytes()))
	}
	if d := diffLines(evA.lines, evB.lines); d != "" {
		c.Failf("a refused Reset changed the events: %s", d)
	}
}

// ---------------------------------------------------------------- reader reset

// anyInput draws an input of any kind for a Reader.
func anyInput(c *C) ([]byte, RCfg, string) {
	if c.P(2, 5) {
		b := genBadCase(c, c.N(400))
		return b.in, b.rc, "new-input-bad"
	}
	f := RefFormat(1 + c.N(3))
	g := &genOpt{size: genOutSize(c.Rand)}
	if c.P(1, 6) {
		g.dict = genDict(c.Rand)
	}
	s := genStream(c.Rand, f, g)
	in := append([]byte(nil), s.Comp...)
	for c.P(1, 3) {
		s2 := genStream(c.Rand, f, &genOpt{size: c.N(300), dict: g.dict, wbits: s.WBits})
		in = append(in, s2.Comp...)
	}
	rc := genRCfg(c.Rand, f, s.WBits, g.dict)
	if c.P(1, 4) && g.dict == nil && (f != RRaw || !looksLikeContainer(in)) {
		rc.Fmt = RAuto
	}
	return in, rc, "new-input-good"
}

func (rc RCfg) full() []flate.Option {
	// every option, so that it replaces whatever was set before
	return []flate.Option{flate.WithFormat(flFmt(rc.Fmt)), flate.WithMemoryLevel(rc.Mem), flate.WithWindowBits(rc.WB), flate.WithDictionary(rc.Dict)}
}

const nRState = 9

func runC15(c *C, i int) {
	in1, rc1, _ := anyInput(c)
	ev := &evLog{}
	src := NewSrc(c.Rand, in1)
	all := rc1.full()
	fr := flate.NewReader(src, append(append([]flate.Option(nil), all...), flate.WithTracers(ev))...)
	c.Note("first input %d bytes, %v", len(in1), rc1)
	rounds := c.Pick(1, 1, 2, 3)
	states := ""
	for k := 0; k < rounds; k++ {
		st := c.N(nRState)
		if k == 0 && i < 300 {
			st = i % nRState
		}
		name := ""
		var gate *GateSrc
		var gsrc *collector
		switch st {
		case 0:
			name = "at-unused"
		case 1:
			name = "at-midstream"
			for j := c.In(1, 4); j > 0; j-- {
				if _, err := fr.Read(make([]byte, c.Pick(1, 10, 500, 5000))); err != nil {
					name = "at-error"
					break
				}
			}
		case 2:
			name = "at-undelivered"
			fr.Read(make([]byte, 1))
			Quiesce()
		case 3, 4:
			_, err := readAll(c, fr, c.Rand)
			name = "at-error"
			if err == io.EOF {
				name = "at-eof"
			}
			if c.P(1, 3) {
				fr.Close()
			}
		case 5:
			name = "at-closed"
			for j := c.In(1, 3); j > 0; j-- {
				fr.Read(make([]byte, c.Pick(1, 100, 5000)))
			}
			fr.Close()
			if c.P(1, 2) {
				fr.Read(make([]byte, 10))
			}
		case 6:
			name = "at-closed-unused"
			fr.Close()
			if c.P(1, 2) {
				fr.Read(make([]byte, 10))
			}
		case 7:
			// a source that blocks, with a goroutine waiting in Read
			name = "at-source-blocked"
			in, rc, _ := anyInput(c)
			gate = NewGateSrc(in, c.Pick(0, 1, 50))
			gate.Allow(c.N(len(in) + 1))
			all = append(all, rc.full()...)
			fr.Reset(gate, rc.full()...)
			gsrc = &collector{}
			go gsrc.run(fr, c.Rand.Fork())
			// the goroutine is now waiting inside Read (or got an error)
			if !Quiesce() {
				c.Failf("the Reader does not come to rest")
			}
			gsrc.halt()
		default:
			name = "at-racing"
			fr.Read(nil)
			if c.P(1, 2) {
				fr.Read(make([]byte, 1))
			}
		}
		states += name + " "
		c.Note("%s", name)
		c.Count(name, 1)

		in2, rc2, kind := anyInput(c)
		c.Count(kind, 1)
		var extra []flate.Option
		if c.P(2, 3) {
			extra = rc2.full()
			if c.P(1, 3) { // only some of them
				extra = extra[:c.N(len(extra)+1)]
			}
		}
		if c.P(1, 5) {
			ev = &evLog{}
			extra = append(extra, flate.WithTracers(ev))
		}
		if len(extra) > 0 {
			c.Count("merged-options", 1)
		} else {
			c.Count("same-options", 1)
		}
		all = append(all, extra...)
		if k > 0 {
			c.Count("reset-twice", 1)
		}
		src2 := NewSrc(c.Rand, in2)
		src3 := PlainSrc(in2)
		if c.P(1, 6) {
			src2.err, src3.err = errSource, errSource
		}
		if gate != nil {
			done := make(chan struct{})
			go func() {
				fr.Reset(src2, extra...)
				close(done)
			}()
			if c.P(1, 2) {
				Quiesce()
			}
			if c.P(1, 2) {
				gate.Finish()
			} else {
				gate.Abort(errSource)
			}
			<-done // a deadlock is found by the watchdog
			if !Quiesce() {
				c.Failf("the Reader does not come to rest after Reset")
			}
			if !gsrc.exited() {
				c.Failf("a Read that was blocked during Reset is still blocked afterwards")
			}
		} else {
			fr.Reset(src2, extra...)
		}
		oldCalls := src.calls.Load()
		gateCalls := 0
		if gate != nil {
			gateCalls = gate.Calls()
		}
		ev.lines = nil
		evB := &evLog{}
		fr2 := flate.NewReader(src3, append(append([]flate.Option(nil), all...), flate.WithTracers(evB))...)
		if a, b := readerSettings(fr), readerSettings(fr2); a != b {
			c.Failf("settings after Reset: %s, of a new Reader: %s", a, b)
		}
		if fr.UnderlyingReader() != io.Reader(src2) {
			c.Failf("UnderlyingReader is not the new source after Reset")
		}
		if src2.calls.Load() != 0 {
			c.Failf("Reset read from the new source")
		}
		mode := c.N(6)
		got2, err2 := readAllMode(c, fr2, c.Rand, mode)
		fr2.Close()
		if k+1 < rounds && c.P(1, 2) {
			// leave the next round something to interrupt
			src = src2
			c.Eval(true, states, hashOf(in2), len(extra))
			continue
		}
		got1, err1 := readAllMode(c, fr, c.Rand, mode)
		a := readRun{data: got1, err: err1, ev: ev}
		fr.Close()
		b := readRun{data: got2, err: err2, ev: evB}
		sameRun(c, "after "+states+"and Reset", a, b)
		if src.calls.Load() != oldCalls || gate != nil && gate.Calls() != gateCalls {
			c.Failf("the old source was read again after Reset")
		}
		if src.closed.Load() != 0 || src2.closed.Load() != 0 {
			c.Failf("the underlying reader was closed")
		}
		c.Eval(st != 0 || k > 0, states, hashOf(in2), len(extra), mode)
		if k+1 < rounds {
			in3, rc3, _ := anyInput(c)
			src = NewSrc(c.Rand, in3)
			all = append(all, rc3.full()...)
			fr.Reset(src, rc3.full()...)
		}
	}
	fr.Close()
	if left := WaitNoFlate(); len(left) != 0 {
		c.Failf("background goroutine left behind:\n%s", left[0])
	}
	c.Sample("states %s", states)
}

// ---------------------------------------------------------------- lifecycle

func runC16(c *C, i int) {
	if i%2 == 0 {
		c16Writer(c, i/2)
	} else {
		c16Reader(c, i/2)
	}
}

func afterClose(c *C, fw *flate.Writer, s *Sink, what string) {
	mark, size := len(s.events), s.Len()
	for k := c.In(1, 5); k > 0; k-- {
		switch c.N(5) {
		case 0:
			p := c.Bytes(c.Pick(0, 1, 100, 70000))
			q := append([]byte(nil), p...)
			if n, err := fw.Write(p); n != 0 || err != fs.ErrClosed {
				c.Failf("%s: Write(%d bytes) after Close returned %d, %v", what, len(p), n, err)
			}
			if !bytes.Equal(p, q) {
				c.Failf("%s: Write after Close changed the buffer", what)
			}
		case 1:
			ft := flate.FlushType(c.N(5))
			if err := fw.Flush(ft); err != fs.ErrClosed {
				c.Failf("%s: Flush(%v) after Close returned %v", what, ft, err)
			}
		case 2:
			if err := fw.Close(); err != fs.ErrClosed {
				c.Failf("%s: Close after Close returned %v", what, err)
			}
		case 3:
			_ = writerSettings(fw)
		default:
			_ = fw.SetHeader(flate.Header{})
		}
	}
	if len(s.events) != mark || s.Len() != size {
		c.Failf("%s: the underlying writer was called after Close", what)
	}
	if s.closed != 0 {
		c.Failf("%s: the underlying writer was closed", what)
	}
}

func c16Writer(c *C, i int) {
	cfg := genCfg(c.Rand)
	s := NewSink()
	kind := c.N(4)
	fw := flate.NewWriter(s.As(kind), cfg.Opts()...)
	var data []byte
	var ops []Op
	streams := 1
	mode := i % 6
	if mode >= 2 {
		data = genPayload(c.Rand, c.Pick(5, 300, 9000, 70000))
		ops = genOps(c.Rand, len(data), c.P(1, 2), false)
	}
	what := fmt.Sprintf("%v mode %d, %d bytes, ops %s", cfg, mode, len(data), opsString(ops))
	c.Note("%s", what)
	opt := RefOpt{Format: cfg.RefFmt(), WBits: cfg.EffWB(), Dict: cfg.Dict}
	switch mode {
	case 0: // never used
		c.Count("writer-unused-close", 1)
	case 1: // only calls which carry no data
		for k := c.N(4); k > 0; k-- {
			if c.P(1, 2) {
				fw.Write(nil)
			} else if err := fw.Flush(flate.FlushType(c.N(4))); err != nil {
				c.Failf("Flush: %v", err)
			}
		}
		c.Count("writer-unused-close", 1)
	case 2, 3: // finish, then Close
		feed(c, fw, data, ops)
		for k := c.In(1, 3); k > 0; k-- {
			if err := fw.Flush(flate.FinishFlush); err != nil {
				c.Failf("Flush: %v", err)
			}
		}
		if c.P(1, 3) {
			fw.Write(nil)
		}
		size := s.Len()
		if c.P(1, 3) {
			if err := fw.Flush(flate.FlushType(c.N(5))); err != nil {
				c.Failf("Flush after Finish: %v", err)
			}
		}
		if err := fw.Close(); err != nil {
			c.Failf("Close after Finish: %v", err)
		}
		if s.Len() != size {
			c.Failf("%d more bytes were written by Close after a Finish flush", s.Len()-size)
		}
		refVerify(c, what, s.Bytes(), opt, data)
		if n := len(RefDecode(s.Bytes(), opt).Streams); n != 1 {
			c.Failf("%d streams instead of one", n)
		}
		c.Count("writer-finish-close", 1)
		afterClose(c, fw, s, what)
		c16Again(c, fw, s, kind, what, opt)
		c.Eval(len(data) > 0, what, hashOf(data))
		return
	case 4: // finish, more data, close: two streams
		feed(c, fw, data, ops)
		if err := fw.Flush(flate.FinishFlush); err != nil {
			c.Failf("Flush: %v", err)
		}
		more := genPayload(c.Rand, 3000)
		doWrite(c, fw, more)
		if len(more) > 0 {
			streams = 2
		}
		data = append(append([]byte(nil), data...), more...)
	case 5: // a failed Writer
		feed(c, fw, data, ops)
		// It fails in the middle of a flush, when the output may end inside a
		// byte, in the sink's own Flush or Sync, or at the end of the stream.
		ft := flate.FlushType(c.In(1, 4))
		if c.P(1, 2) {
			doWrite(c, fw, genPayload(c.Rand, 2000))
		}
		var err1 error
		if kind != 0 && c.P(1, 2) {
			s.flushAt, s.flushErr = s.nFlush+1, errFlush
			s.syncAt, s.syncErr = s.nSync+1, errSync
		} else {
			s.failByte = s.Len()
		}
		err1 = fw.Flush(ft)
		if err1 == nil && ft != flate.FinishFlush {
			// perhaps there was nothing to write
			ft = flate.FinishFlush
			err1 = fw.Flush(ft)
		}
		if err1 == nil {
			c.Failf("%s: a %v flush succeeded on a failing sink", what, ft)
		}
		c.Count(fmt.Sprintf("failed-in-%v", ft), 1)
		if c.P(3, 4) {
			if err := fw.Close(); err != err1 {
				c.Failf("Close of a failed Writer returned %v, the failure was %v", err, err1)
			}
			if c.P(2, 3) {
				afterClose(c, fw, s, what)
			}
		}
		c.Count("writer-after-failure", 1)
		c16Again(c, fw, s, kind, what, opt)
		c.Eval(len(data) > 0, what, hashOf(data))
		return
	}
	if mode == 2 || mode == 3 || mode > 3 {
		if mode != 4 {
			feed(c, fw, data, ops)
		}
	}
	if err := fw.Close(); err != nil {
		c.Failf("Close: %v", err)
	}
	ref := refVerify(c, what, s.Bytes(), opt, data)
	if len(ref.Streams) != streams {
		c.Failf("%s: Close left %d streams, expected %d", what, len(ref.Streams), streams)
	}
	if mode >= 2 {
		c.Count("writer-close", 1)
	}
	afterClose(c, fw, s, what)
	c16Again(c, fw, s, kind, what, opt)
	c.Eval(len(data) > 0, what, hashOf(data))
	c.Sample("%s", what)
}

// c16Again opens a closed or failed Writer again with Reset, after which the
// old sink must never hear of it again.
func c16Again(c *C, fw *flate.Writer, s *Sink, kind int, what string, opt RefOpt) {
	old, size := len(s.events), s.Len()
	for k := c.N(3); k >= 0; k-- {
		s2 := NewSink()
		fail := c.P(1, 4) // the next one fails too
		fw.Reset(s2.As(kind))
		if len(s2.events) != 0 || s2.closed != 0 {
			c.Failf("%s: Reset used the new sink", what)
		}
		doWrite(c, fw, []byte("again"))
		if fail {
			s2.failByte = s2.Len()
			err := fw.Close()
			if err == nil {
				c.Failf("%s: Close succeeded on a failing sink after Reset", what)
			}
			if s2.closed != 0 {
				c.Failf("%s: the second sink was closed", what)
			}
			old2 := len(s2.events)
			defer func() {
				if len(s2.events) != old2 || s2.closed != 0 {
					c.Failf("%s: a failed sink was used after Reset", what)
				}
			}()
			continue
		}
		if err := fw.Close(); err != nil {
			c.Failf("Close after Reset: %v", err)
		}
		refVerify(c, what+" (after Reset)", s2.Bytes(), opt, []byte("again"))
		if s2.closed != 0 {
			c.Failf("%s: the second sink was closed", what)
		}
	}
	if len(s.events) != old || s.Len() != size {
		c.Failf("the old sink was used after Reset")
	}
	if s.closed != 0 {
		c.Failf("%s: the underlying writer was closed by Reset", what)
	}
	c.Count("writer-reset-again", 1)
}

func c16Reader(c *C, i int) {
	in, rc, _ := anyInput(c)
	src := NewSrc(c.Rand, in)
	plain := PlainSrc(in)
	ref, refErr := readAllMode(c, flate.NewReader(plain, rc.Opts()...), c.Rand, 0)
	fr := flate.NewReader(src, rc.Opts()...)
	what := fmt.Sprintf("%v, %d bytes", rc, len(in))
	var bufs, snaps [][]byte
	var got []byte
	read := func(n int) error {
		p := make([]byte, n+16)
		for k := range p {
			p[k] = 0x6E
		}
		m, err := fr.Read(p[:n])
		if m < 0 || m > n {
			c.Failf("%s: Read(len %d) returned %d", what, n, m)
		}
		for k := n; k < n+16; k++ {
			if p[k] != 0x6E {
				c.Failf("%s: Read wrote outside the slice", what)
			}
		}
		got = append(got, p[:m]...)
		bufs = append(bufs, p)
		snaps = append(snaps, append([]byte(nil), p...))
		if !bytes.HasPrefix(ref, got) {
			c.Failf("%s: wrong data: %s", what, diffAt(got, ref))
		}
		return err
	}
	state := ""
	var gate *GateSrc
	switch i % 6 {
	case 0:
		state = "reader-close-unused"
	case 1, 2:
		state = "reader-close-mid"
		for k := c.In(1, 5); k > 0; k-- {
			if read(c.Pick(0, 1, 10, 500, 5000)) != nil {
				break
			}
		}
	case 3:
		state = "reader-close-blocked"
		gate = NewGateSrc(in, c.Pick(0, 1, 20))
		fr = flate.NewReader(gate, rc.Opts()...)
		k := &collector{}
		gate.Allow(c.N(len(in) + 1))
		go k.run(fr, c.Rand.Fork())
		if c.P(1, 2) {
			Quiesce()
		}
		closed := make(chan error)
		go func() { closed <- fr.Close() }()
		if c.P(1, 2) {
			Quiesce()
		}
		gate.Finish()
		if err := <-closed; err != nil {
			c.Failf("%s: Close returned %v", what, err)
		}
		if !Quiesce() {
			c.Failf("no rest")
		}
		g, err, done := k.state()
		if !done || err == nil {
			c.Failf("%s: a Read blocked during Close is still blocked", what)
		}
		if !bytes.HasPrefix(ref, g) {
			c.Failf("%s: wrong data around Close: %s", what, diffAt(g, ref))
		}
		got = append([]byte(nil), g...)
	default:
		state = "reader-close-eof"
		for {
			if err := read(c.Pick(100, 5000, 70000)); err != nil {
				if err != io.EOF {
					state = "reader-close-error"
				}
				if !bytes.Equal(got, ref) || fmt.Sprint(err) != fmt.Sprint(refErr) {
					c.Failf("%s: two reads of the same input differ: %v, %v, %s", what, err, refErr, diffAt(got, ref))
				}
				break
			}
		}
	}
	for k := c.In(1, 3); k > 0; k-- {
		if err := fr.Close(); err != nil {
			c.Failf("%s: %s: Close returned %v", what, state, err)
		}
	}
	if left := WaitNoFlate(); len(left) != 0 {
		c.Failf("%s: %s: goroutine left after Close:\n%s", what, state, left[0])
	}
	calls := src.calls.Load()
	if gate != nil {
		calls = int64(gate.Calls())
	}
	var last error
	for k := 0; k < 6; k++ {
		err := read(c.Pick(1, 10, 70000))
		if last != nil && (err != last) {
			c.Failf("%s: %s: Read after Close returned %v, then %v", what, state, last, err)
		}
		if err != nil {
			last = err
		}
		if c.P(1, 3) {
			fr.Close()
		}
		if k == 5 && err == nil && gate == nil {
			// data may still be handed out, but it must come to an end
			for j := 0; err == nil; j++ {
				if j > len(ref)+5 {
					c.Failf("%s: %s: Read after Close never fails", what, state)
				}
				err = read(70000)
			}
			last = err
		}
	}
	if last == io.EOF && (refErr != io.EOF || len(got) != len(ref)) {
		c.Failf("%s: %s: Read after Close claims the end of data after %d of %d bytes (the stream ends with %v)", what, state, len(got), len(ref), refErr)
	}
	now := src.calls.Load()
	if gate != nil {
		now = int64(gate.Calls())
	}
	if now != calls {
		c.Failf("%s: %s: the source was read after Close had returned", what, state)
	}
	if src.closed.Load() != 0 {
		c.Failf("%s: the underlying reader was closed", what)
	}
	for k := range bufs {
		if !bytes.Equal(bufs[k], snaps[k]) {
			c.Failf("%s: a buffer given to Read changed after Read had returned", what)
		}
	}
	c.Count("buffers-checked", len(bufs))
	c.Count(state, 1)
	_ = errors.Is
	c.Eval(len(got) > 0, what, state, hashOf(in))
	c.Sample("%s: %s, %d of %d bytes read", what, state, len(got), len(ref))
}
