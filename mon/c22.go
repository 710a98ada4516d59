package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"strings"

	"github.com/chronos-tachyon/flate"
	"github.com/rs/zerolog"
)

func init() {
	register(&Prop{
		ID: "C22", N: tierN(4000, 50000), Run: runC22,
		Rule: "case = a Reader or Writer run (complete, failing at a chosen point, or abandoned) with recording tracers; every event is compared with the account derived from the bytes by the reference decoder. evaluations = runs judged; distinct by hash of the event list; non-trivial: at least one block event",
		Need: []string{"events", "reader-complete", "reader-failing", "reader-lenient-skipped", "writer-complete", "writer-failing", "trees-static", "trees-dynamic", "modifier", "several-tracers", "log-lines", "abandoned", "streams>1", "retained", "huge-read", "huge-write", "streams>65536", "events-after-reader-reset", "events-after-writer-reset"},
	})
}

// expEvent is what an event has to say; in/out are exact where lo==hi.
type expEvent struct {
	typ          flate.EventType
	stream       int // 0-based
	inLo, inHi   int // absolute, compressed side
	outLo, outHi int // absolute, data side
	st           *RStream
	b            *RBlock
}

// expectEvents lists the events of everything in ref that completed.
func expectEvents(ref *RefResult) []expEvent {
	var out []expEvent
	for si, st := range ref.Streams {
		add := func(t flate.EventType, in, o int) {
			out = append(out, expEvent{typ: t, stream: si, inLo: in, inHi: in, outLo: o, outHi: o, st: st})
		}
		add(flate.StreamBeginEvent, st.Start, st.OutStart)
		if !st.HdrOK {
			break
		}
		add(flate.StreamHeaderEvent, st.HdrEnd, st.OutStart)
		for _, b := range st.Blocks {
			if b.Type < 0 {
				break
			}
			lo, hi := int(b.StartBit/8), int((b.EndBit+7)/8)
			oe := b.OutEnd
			if !b.Complete {
				hi, oe = 1<<30, 1<<30
			}
			ev := func(t flate.EventType) {
				out = append(out, expEvent{typ: t, stream: si, inLo: lo, inHi: hi, outLo: b.OutStart, outHi: oe, st: st, b: b})
			}
			ev(flate.BlockBeginEvent)
			if b.Type == 1 || b.Type == 2 && b.TreesOK {
				ev(flate.BlockTreesEvent)
			}
			if b.Complete {
				ev(flate.BlockEndEvent)
			}
		}
		if st.BodyOK {
			add(flate.StreamEndEvent, st.BodyEnd, st.OutEnd)
		}
		if st.Complete {
			add(flate.StreamCloseEvent, st.End, st.OutEnd)
		}
	}
	return out
}

func sizesEqual(got flate.SizeList, want []byte, atLeast int) bool {
	n := len(want)
	if len(got) < atLeast {
		return false
	}
	for i := 0; i < n || i < len(got); i++ {
		var g, w byte
		if i < len(got) {
			g = got[i]
		}
		if i < n {
			w = want[i]
		}
		if g != w {
			if len(got) == i && i >= atLeast {
				return true // unused reserved codes need not be listed
			}
			return false
		}
	}
	return true
}

// judgeEvents compares recorded events with the account derived from the
// bytes.  writer selects which side is input; all says that every expected
// event must be there (otherwise a prefix is enough).
func judgeEvents(c *C, what string, evs []flate.Event, ref *RefResult, writer bool, fm flate.Format, all bool) {
	exp := expectEvents(ref)
	for i, e := range evs {
		fail := func(f string, v ...interface{}) {
			c.Failf("%s: event %d of %d (%s): %s", what, i, len(evs), head(evText(e), 400), fmt.Sprintf(f, v...))
		}
		if i >= len(exp) {
			fail("unexpected: the %d events of everything that completed were already reported (reference: %v %s)", len(exp), ref.Err, ref.Msg)
		}
		x := exp[i]
		if e.Type != x.typ {
			fail("expected %v", x.typ)
		}
		if int(e.NumStreams) != x.stream+1 {
			fail("stream number should be %d", x.stream+1)
		}
		comp := [2]uint64{e.InputBytesTotal, e.InputBytesStream}
		data := [2]uint64{e.OutputBytesTotal, e.OutputBytesStream}
		if writer {
			comp, data = data, comp
		}
		if !all && x.b != nil {
			// what was decoded but discarded by Close need not be counted
			x.outLo = x.st.OutStart
		}
		slack := 0
		if writer && x.b != nil {
			slack = 8 // bits that are still pending
		}
		if int64(comp[0]) < int64(x.inLo-slack) || int64(comp[0]) > int64(x.inHi) || int64(data[0]) < int64(x.outLo) {
			fail("counters: compressed side should be %d..%d, data side at least %d", x.inLo, x.inHi, x.outLo)
		}
		// within a block the Writer may have taken in later data already
		hi := x.outHi
		if writer && x.b != nil {
			hi = x.st.OutEnd
			if !x.st.Complete {
				hi = 1 << 30
			}
		}
		if int64(data[0]) > int64(hi) {
			fail("counters: data side should be at most %d", hi)
		}
		if int64(comp[0])-int64(comp[1]) != int64(x.st.Start) || int64(data[0])-int64(data[1]) != int64(x.st.OutStart) {
			fail("per-stream and total counters disagree: the stream starts at %d/%d", x.st.Start, x.st.OutStart)
		}
		wantF := fm
		if !writer {
			wantF = flFmt(x.st.Format)
			if x.typ == flate.StreamBeginEvent {
				wantF = flate.DefaultFormat // not known yet
				if e.Format == fm {
					wantF = fm
				}
			}
		}
		if e.Format != wantF {
			fail("format should be %v", wantF)
		}
		if (e.Header != nil) != (x.typ == flate.StreamHeaderEvent) || (e.Block != nil) != (x.b != nil) ||
			(e.Trees != nil) != (x.typ == flate.BlockTreesEvent) || (e.Footer != nil) != (x.typ == flate.StreamEndEvent) {
			fail("wrong parts present")
		}
		if x.b != nil {
			wt := [4]flate.BlockType{flate.StoredBlock, flate.StaticBlock, flate.DynamicBlock, flate.InvalidBlock}[x.b.Type]
			if e.Block.Type != wt || e.Block.IsFinal != x.b.Final {
				fail("block is %v final=%v", wt, x.b.Final)
			}
		}
		if x.typ == flate.BlockTreesEvent {
			t := e.Trees
			if x.b.Type == 1 {
				c.Count("trees-static", 1)
				if t.CodeCount|t.LiteralLengthCount|t.DistanceCount != 0 || len(t.CodeSizes) != 0 {
					fail("static block with transmitted counts")
				}
				if !sizesEqual(t.LiteralLengthSizes, refStaticLLLens, 286) || !sizesEqual(t.DistanceSizes, refStaticDLn, 30) {
					fail("code lengths are not the fixed ones")
				}
			} else {
				c.Count("trees-dynamic", 1)
				if int(t.CodeCount) != x.b.HCLEN || int(t.LiteralLengthCount) != x.b.HLIT || int(t.DistanceCount) != x.b.HDIST {
					fail("counts should be %d/%d/%d", x.b.HCLEN, x.b.HLIT, x.b.HDIST)
				}
				if !sizesEqual(t.CodeSizes, x.b.CL, 0) || !sizesEqual(t.LiteralLengthSizes, x.b.LL, 0) || !sizesEqual(t.DistanceSizes, x.b.D, 0) {
					fail("code lengths should be %x / %x / %x", x.b.CL, x.b.LL, x.b.D)
				}
			}
		}
		if x.typ == flate.StreamEndEvent {
			if uint32(e.Footer.Adler32) != x.st.A32 || uint32(e.Footer.CRC32) != x.st.C32 {
				fail("checksums should be %08x/%08x", x.st.A32, x.st.C32)
			}
		}
		if x.typ == flate.StreamHeaderEvent && !writer {
			checkReaderHeader(c, what, *e.Header, x.st)
		}
		if i > 0 {
			p := evs[i-1]
			if e.InputBytesTotal < p.InputBytesTotal || e.OutputBytesTotal < p.OutputBytesTotal && all {
				fail("counters went backwards from %s", head(evText(p), 200))
			}
		}
	}
	if all && len(evs) < len(exp) {
		c.Failf("%s: only %d of %d events, next should be %v of stream %d (reference: %v %s)", what, len(evs), len(exp), exp[len(evs)].typ, exp[len(evs)].stream, ref.Err, ref.Msg)
	}
	c.Count("events", len(evs))
}

// rawLog keeps the events exactly as delivered, to see whether they change
// afterwards.
type rawLog struct {
	evs  []flate.Event
	text []string
}

func (l *rawLog) OnEvent(e flate.Event) {
	l.evs = append(l.evs, e)
	l.text = append(l.text, evText(e))
}

func (l *rawLog) check(c *C, what string) {
	for i, e := range l.evs {
		if t := evText(e); t != l.text[i] {
			c.Failf("%s: event %d changed after it was delivered: was %s, is %s", what, i, head(l.text[i], 500), head(t, 500))
		}
	}
	c.Count("retained", 1)
}

// vandal overwrites everything it is given, now and again later.
type vandal struct{ kept []flate.Event }

func (v *vandal) OnEvent(e flate.Event) {
	v.wreck(e)
	v.kept = append(v.kept, e)
	if len(v.kept) > 3 {
		v.wreck(v.kept[len(v.kept)-3])
	}
}

func fill(s flate.SizeList) {
	for i := range s {
		s[i] = byte(i % 16)
	}
}

func (v *vandal) wreck(e flate.Event) {
	if h := e.Header; h != nil {
		for i := range h.ExtraData.Records {
			for j := range h.ExtraData.Records[i].Bytes {
				h.ExtraData.Records[i].Bytes[j] ^= 0xff
			}
			h.ExtraData.Records[i].ID = [2]byte{'x', 'x'}
		}
		h.FileName, h.Comment = "vandal", "vandal"
		h.OSType, h.DataType = flate.OSTypeAmiga, flate.TextData
		h.WindowBits, h.CompressLevel = 8, 3
		h.ExtraData.Records = append(h.ExtraData.Records, flate.ExtraDataRecord{})
	}
	if b := e.Block; b != nil {
		b.Type, b.IsFinal = flate.InvalidBlock, !b.IsFinal
	}
	if t := e.Trees; t != nil {
		fill(t.CodeSizes)
		fill(t.LiteralLengthSizes)
		fill(t.DistanceSizes)
		t.CodeCount, t.DistanceCount, t.LiteralLengthCount = 1, 1, 1
	}
	if f := e.Footer; f != nil {
		f.Adler32, f.CRC32 = 1, 2
	}
}

// tracerSet is one run's observers.
type tracerSet struct {
	a, b *evLog
	raw  *rawLog
	v    *vandal
	log  *bytes.Buffer
	cap  *flate.Header
	list []flate.Tracer
}

func newTracerSet(c *C, mod bool) *tracerSet {
	t := &tracerSet{a: &evLog{keep: true}}
	t.list = append(t.list, t.a)
	if c.P(1, 2) {
		t.b = &evLog{keep: true}
		fn := flate.TracerFunc(func(e flate.Event) { t.b.OnEvent(e) })
		if c.P(1, 2) {
			t.list = append(t.list, flate.NoOpTracer{})
		}
		t.list = append(t.list, fn)
	}
	if c.P(1, 3) {
		t.log = &bytes.Buffer{}
		t.list = append(t.list, flate.Log(zerolog.New(t.log).Level(zerolog.TraceLevel)))
	}
	if c.P(1, 3) {
		t.cap = &flate.Header{}
		t.list = append(t.list, flate.CaptureHeader(t.cap))
	}
	if mod {
		t.v = &vandal{}
		t.list = append(t.list, t.v) // last: the others see events first
		c.Count("modifier", 1)
	} else {
		t.raw = &rawLog{}
		t.list = append(t.list, t.raw)
	}
	return t
}

// gated returns the tracers behind a gate, and the gate.
func (t *tracerSet) gated() ([]flate.Tracer, *bool) {
	open := new(bool)
	var l []flate.Tracer
	for _, tr := range t.list {
		tr := tr
		l = append(l, flate.TracerFunc(func(e flate.Event) {
			if *open {
				tr.OnEvent(e)
			}
		}))
	}
	return l, open
}

// usedReader returns a Reader which has read something else before and was
// Reset to src; t sees the events from then on.
func usedReader(c *C, r *Rand, src io.Reader, rc RCfg, t *tracerSet) *flate.Reader {
	f := RefFormat(rc.Ref().Format)
	if f == 0 {
		f = RZlib
	}
	var other []byte
	for k := r.In(1, 3); k > 0; k-- {
		other = append(other, genStream(r, f, &genOpt{size: r.Pick(0, 5, 300, 20000), dict: rc.Dict, wbits: 8}).Comp...)
	}
	if r.P(1, 3) {
		other = other[:r.N(len(other)+1)]
	}
	l, open := t.gated()
	late := r.P(1, 2)
	opts := rc.Opts()
	if !late {
		opts = append(opts, flate.WithTracers(l...))
	}
	fr := flate.NewReader(PlainSrc(other), opts...)
	if r.P(1, 2) {
		io.Copy(io.Discard, fr)
	} else if r.P(3, 4) {
		fr.Read(make([]byte, r.Pick(1, 10, 1000)))
	}
	fr.Close()
	*open = true
	if late {
		fr.Reset(src, flate.WithTracers(l...))
	} else {
		fr.Reset(src)
	}
	c.Count("events-after-reader-reset", 1)
	return fr
}

// usedWriter is the like for Writers.
func usedWriter(c *C, r *Rand, w io.Writer, opts []flate.Option, t *tracerSet, tracers bool) *flate.Writer {
	var l []flate.Tracer
	open := new(bool)
	if tracers {
		l, open = t.gated()
	}
	late := r.P(1, 2)
	if !late && tracers {
		opts = append(opts, flate.WithTracers(l...))
	}
	old := NewSink()
	if r.P(1, 4) {
		old.failByte = r.N(300)
	}
	fw := flate.NewWriter(old, opts...)
	for k := r.N(3); k > 0; k-- {
		fw.Write(r.Bytes(r.Pick(1, 10, 1000, 70000)))
		fw.Flush(flate.FinishFlush)
	}
	if r.P(1, 2) {
		fw.Close()
	}
	*open = true
	if late && tracers {
		fw.Reset(w, flate.WithTracers(l...))
	} else {
		fw.Reset(w)
	}
	c.Count("events-after-writer-reset", 1)
	return fw
}

func (t *tracerSet) check(c *C, what string) {
	if t.b != nil {
		c.Count("several-tracers", 1)
		if d := diffLines(t.b.lines, t.a.lines); d != "" {
			c.Failf("%s: the second tracer received other events: %s", what, d)
		}
	}
	if t.raw != nil {
		if d := diffLines(t.raw.text, t.a.lines); d != "" {
			c.Failf("%s: the last tracer received other events: %s", what, d)
		}
		t.raw.check(c, what)
	}
	if t.log != nil {
		lines := strings.Split(strings.TrimSuffix(t.log.String(), "\n"), "\n")
		if t.log.Len() == 0 {
			lines = nil
		}
		if len(lines) != len(t.a.evs) {
			c.Failf("%s: the logging tracer wrote %d lines for %d events", what, len(lines), len(t.a.evs))
		}
		for i, l := range lines {
			var m struct {
				Level string
				Event struct {
					Type             string
					InputBytesTotal  uint64
					OutputBytesTotal uint64
					NumStreams       uint
					Block            *struct{ IsFinal bool }
				}
			}
			e := t.a.evs[i]
			if err := json.Unmarshal([]byte(l), &m); err != nil || m.Level != "trace" || m.Event.Type != e.Type.String() ||
				m.Event.InputBytesTotal != e.InputBytesTotal || m.Event.OutputBytesTotal != e.OutputBytesTotal || m.Event.NumStreams != e.NumStreams || (m.Event.Block != nil) != (e.Block != nil) {
				c.Failf("%s: log line %d (%v): %s for event %s", what, i, err, head(l, 300), head(evText(e), 300))
			}
		}
		c.Count("log-lines", len(lines))
	}
	if t.cap != nil {
		hs := headerEvents(t.a)
		if len(hs) > 0 && hdrText(*t.cap) != hdrText(hs[len(hs)-1]) && t.v == nil {
			c.Failf("%s: CaptureHeader holds %s, last header event %s", what, head(hdrText(*t.cap), 300), head(hdrText(hs[len(hs)-1]), 300))
		}
	}
}

func runC22(c *C, i int) {
	switch i {
	case 0:
		hugeRead(c, RefFormat(1+c.N(3)), true)
		return
	case 1:
		hugeWrite(c)
		return
	case 2, 3:
		tensOfThousands(c, i == 3)
		return
	}
	if i%2 == 0 {
		runC22Reader(c, i/2)
	} else {
		runC22Writer(c, i/2)
	}
}

// tensOfThousands runs through more streams than fit in 16 bits; its tracer
// judges the events as they come.
func tensOfThousands(c *C, writer bool) {
	const total = 66000
	f := RefFormat(1 + c.N(3))
	cfg := Cfg{Fmt: flFmt(f), Mem: 1, Lvl: flate.CompressLevel(c.In(1, 9))}
	var one []byte // all streams have the same bytes
	n := 1
	{
		s := NewSink()
		fw := flate.NewWriter(s, cfg.Opts()...)
		feed(c, fw, []byte{'x'}, []Op{{K: 'W', N: 1}})
		if err := fw.Close(); err != nil {
			c.Failf("Close: %v", err)
		}
		one = s.Bytes()
	}
	streams, inStream, events := 0, false, 0
	tr := flate.TracerFunc(func(e flate.Event) {
		events++
		switch e.Type {
		case flate.StreamBeginEvent:
			if inStream {
				c.Errorf("stream %d begins within another", streams+1)
			}
			streams++
			inStream = true
		case flate.StreamCloseEvent:
			inStream = false
		}
		comp, data := [2]uint64{e.InputBytesTotal, e.InputBytesStream}, [2]uint64{e.OutputBytesTotal, e.OutputBytesStream}
		if writer {
			comp, data = data, comp
		}
		if int64(e.NumStreams) != int64(streams) {
			c.Errorf("event %s: stream number should be %d", head(evText(e), 300), streams)
		}
		c0, d0 := uint64((streams-1)*len(one)), uint64((streams-1)*n)
		if comp[0]-comp[1] != c0 || data[0]-data[1] != d0 || comp[1] > uint64(len(one)) || data[1] > uint64(n) {
			c.Errorf("event %s: stream %d starts at %d/%d and has %d/%d bytes", head(evText(e), 300), streams, c0, d0, len(one), n)
		}
		if e.Type == flate.StreamCloseEvent && (comp[1] != uint64(len(one)) || data[1] != uint64(n)) {
			c.Errorf("event %s: stream %d has %d/%d bytes", head(evText(e), 300), streams, len(one), n)
		}
	})
	all := bytes.Repeat(one, total)
	if writer {
		s := NewSink()
		fw := flate.NewWriter(s, append(cfg.Opts(), flate.WithTracers(tr))...)
		for k := 0; k < total && c.fail == nil; k++ {
			if m, err := fw.Write([]byte{'x'}); m != 1 || err != nil {
				c.Failf("Write in stream %d = %d, %v", k+1, m, err)
			}
			if err := fw.Flush(flate.FinishFlush); err != nil {
				c.Failf("Flush(finish) of stream %d: %v", k+1, err)
			}
			if k%1000 == 0 {
				progress()
			}
		}
		if err := fw.Close(); err != nil {
			c.Failf("Close: %v", err)
		}
		if !bytes.Equal(s.Bytes(), all) {
			c.Failf("%d equal streams: %s", total, diffAt(s.Bytes(), all))
		}
	} else {
		fr := flate.NewReader(PlainSrc(all), flate.WithFormat(flFmt(f)), flate.WithMemoryLevel(flate.MemoryLevel(c.N(10))), flate.WithTracers(tr))
		buf := make([]byte, 40000)
		got := 0
		var err error
		for err == nil {
			var m int
			m, err = fr.Read(buf)
			got += m
			progress()
		}
		fr.Close()
		if err != io.EOF || got != n*total {
			c.Failf("%d streams read: %d bytes, %v", total, got, err)
		}
	}
	if streams != total || inStream {
		c.Failf("events of %d streams for %d", streams, total)
	}
	c.Count("events", events)
	c.Count("streams>65536", 1)
	c.Eval(true, "many", writer, f.String(), one)
}

func runC22Reader(c *C, i int) {
	in, rc := c07Input(c, i)
	if i%9 == 8 { // several streams
		f := RefFormat(2 + c.N(2))
		in = nil
		wb := 8
		for k := c.In(2, 5); k > 0; k-- {
			s := genStream(c.Rand, f, &genOpt{size: c.Pick(0, 0, 1, 50, 2000, 40000)})
			in = append(in, s.Comp...)
			if s.WBits > wb {
				wb = s.WBits
			}
		}
		rc = genRCfg(c.Rand, f, wb, nil)
	}
	if i%173 == 8 { // many of them
		f := RefFormat(1 + c.N(3))
		in = nil
		for k := c.In(257, 300); k > 0; k-- {
			in = append(in, genStream(c.Rand, f, &genOpt{size: c.N(3), maxBlk: 1, short: true}).Comp...)
		}
		rc = genRCfg(c.Rand, f, 15, nil)
		c.Count("hundreds-of-streams", 1)
	}
	ref := RefDecode(in, rc.Ref())
	c.Note("%d bytes, %v, reference: %v %s", len(in), rc, ref.Err, ref.Msg)
	if len(ref.Streams) > 1 {
		c.Count("streams>1", 1)
	}
	src := NewSrc(c.Rand, in)
	abandon := i%7 == 6
	srcFails := !abandon && ref.Err == ETrunc && c.P(1, 2)
	if srcFails {
		src.err = errSource
	}
	run := func(mod bool, src *Src) (*tracerSet, []byte, error) {
		t := newTracerSet(c, mod)
		if abandon {
			fr := flate.NewReader(src, append(rc.Opts(), flate.WithTracers(t.list...))...)
			buf := make([]byte, 3000)
			var got []byte
			for k := c.N(6); k > 0; k-- {
				n, err := fr.Read(buf[:1+c.N(3000)])
				got = append(got, buf[:n]...)
				if err != nil {
					break
				}
			}
			fr.Close()
			return t, got, nil
		}
		var fr *flate.Reader
		if i%5 == 3 {
			fr = usedReader(c, c.Rand.Fork(), src, rc, t)
		} else {
			fr = flate.NewReader(src, append(rc.Opts(), flate.WithTracers(t.list...))...)
		}
		got, err := readAll(c, fr, c.Rand)
		fr.Close()
		return t, got, err
	}
	t, got, err := run(false, src)
	what := fmt.Sprintf("Reader (%v)", err)
	t.check(c, what)
	if ref.Lenient {
		c.Count("reader-lenient-skipped", 1)
		return
	}
	if abandon {
		judgeEvents(c, "abandoned Reader", t.a.evs, ref, false, rcFormat(rc), false)
		c.Count("abandoned", 1)
		c.Eval(len(t.a.evs) > 2, strings.Join(t.a.lines, "\n"))
		return
	}
	if n := len(ref.Streams); srcFails && rc.Fmt == RAuto && n > 0 && len(in)-ref.Streams[n-1].Start == 1 {
		// The source failed after the first byte of a stream: unlike at the
		// end of the input, its format cannot be told yet.
		ref.Streams[n-1].HdrOK = false
		c.Count("format-unknown", 1)
	}
	judgeEvents(c, what, t.a.evs, ref, false, rcFormat(rc), true)
	if ref.Err == 0 {
		c.Count("reader-complete", 1)
	} else {
		c.Count("reader-failing", 1)
	}
	// the same with a tracer that modifies everything it is given
	src2 := NewSrc(c.Rand, in)
	src2.err = src.err
	t2, got2, err2 := run(true, src2)
	t2.check(c, what+" with a modifying tracer")
	if d := diffLines(t2.a.lines, t.a.lines); d != "" {
		c.Failf("a tracer that modifies what it is given changes later events: %s", d)
	}
	if !bytes.Equal(got2, got) || fmt.Sprint(err2) != fmt.Sprint(err) {
		c.Failf("a tracer that modifies what it is given changes the result: %v / %v, %s", err2, err, diffAt(got2, got))
	}
	// and without tracers
	src3 := NewSrc(c.Rand, in)
	src3.err = src.err
	fr := flate.NewReader(src3, rc.Opts()...)
	got3, err3 := readAll(c, fr, c.Rand)
	fr.Close()
	if !bytes.Equal(got3, got) || fmt.Sprint(err3) != fmt.Sprint(err) {
		c.Failf("tracers change the result: %v / %v, %s", err, err3, diffAt(got, got3))
	}
	c.Eval(len(t.a.evs) > 2, strings.Join(t.a.lines, "\n"))
	c.Sample("%d bytes, %v: %d events, result %v", len(in), rc, len(t.a.lines), err)
}

func rcFormat(rc RCfg) flate.Format { return flFmt(rc.Fmt) }

func runC22Writer(c *C, i int) {
	cfg := genCfg(c.Rand)
	if cfg.Fmt == flate.GZIPFormat {
		cfg.Dict = nil
	}
	data := genPayload(c.Rand, c.Pick(100, 5000, 60000))
	ops := genOps(c.Rand, len(data), c.P(2, 3), true)
	many := i%173 == 5
	if many {
		ops = nil
		data = data[:0:0]
		for k := c.In(257, 300); k > 0; k-- {
			ops = append(ops, Op{K: 'W', N: 1}, Op{K: 'F', FT: flate.FinishFlush})
			data = append(data, byte(k))
		}
		c.Count("hundreds-of-streams", 1)
	}
	var hdr *flate.Header
	if !many && cfg.Fmt == flate.GZIPFormat && c.P(1, 2) {
		h := randHeader(c)
		hdr = &h
	}
	noteOps(c, cfg, data, ops)
	seed := c.U64()
	run := func(mod, tracers bool, sink *Sink, tol bool) (*tracerSet, error) {
		c.Rand = &Rand{s: seed}
		t := newTracerSet(c, mod)
		opts := cfg.Opts()
		if tracers {
			opts = append(opts, flate.WithTracers(t.list...))
		}
		var fw *flate.Writer
		if i%5 == 3 {
			fw = usedWriter(c, c.Rand.Fork(), sink.As(c.N(4)), cfg.Opts(), t, tracers)
		} else {
			fw = flate.NewWriter(sink.As(c.N(4)), opts...)
		}
		if hdr != nil {
			h := *hdr
			h.ExtraData.Records = nil
			for _, r := range hdr.ExtraData.Records {
				h.ExtraData.Records = append(h.ExtraData.Records, flate.ExtraDataRecord{ID: r.ID, Bytes: append([]byte(nil), r.Bytes...)})
			}
			if err := fw.SetHeader(h); err != nil {
				c.Failf("SetHeader: %v", err)
			}
		}
		if tol {
			for _, r := range tryOps(fw, data, ops, true) {
				if r.err != nil {
					return t, r.err
				}
			}
			return t, nil
		}
		feed(c, fw, data, ops)
		return t, fw.Close()
	}
	s := NewSink()
	t, err := run(false, true, s, false)
	if err != nil {
		c.Failf("Close: %v", err)
	}
	comp := s.Bytes()
	ref := refVerify(c, "output", comp, RefOpt{Format: cfg.RefFmt(), WBits: cfg.EffWB(), Dict: cfg.Dict}, data)
	if len(ref.Streams) > 1 {
		c.Count("streams>1", 1)
	}
	t.check(c, "Writer")
	fm := flFmt(cfg.RefFmt())
	judgeEvents(c, "Writer", t.a.evs, ref, true, fm, true)
	for si, h := range headerEvents(t.a) {
		if int(h.WindowBits) != cfg.EffWB() || int(h.CompressLevel) != levelOf(cfg) {
			c.Failf("Writer header event %d: window %v level %v, configured %v", si, h.WindowBits, h.CompressLevel, cfg)
		}
		if ref.Streams[si].Format == RGzip {
			w := *ref.Streams[si]
			// compare everything the wire determines
			e := h
			e.CompressLevel, e.WindowBits = map[byte]flate.CompressLevel{2: 9, 4: 1}[w.Hdr.XFL], 0
			if e.CompressLevel == 0 {
				e.CompressLevel = flate.DefaultCompression
			}
			if !e.LastModified.IsZero() {
				e.LastModified = e.LastModified.Truncate(1e9)
			}
			checkReaderHeader(c, "Writer header event", e, &w)
		}
	}
	c.Count("writer-complete", 1)
	c.Eval(len(t.a.evs) > 2, strings.Join(t.a.lines, "\n"))

	s2 := NewSink()
	t2, _ := run(true, true, s2, false)
	t2.check(c, "Writer with a modifying tracer")
	if d := diffLines(t2.a.lines, t.a.lines); d != "" {
		c.Failf("a tracer that modifies what it is given changes later events: %s", d)
	}
	if !bytes.Equal(s2.Bytes(), comp) {
		c.Failf("a tracer that modifies what it is given changes the output: %s", diffAt(s2.Bytes(), comp))
	}
	s3 := NewSink()
	run(false, false, s3, false)
	if !bytes.Equal(s3.Bytes(), comp) {
		c.Failf("tracers change the output: %s", diffAt(comp, s3.Bytes()))
	}

	// failing sinks: the account stops where the sink did
	for k := 0; k < 4; k++ {
		s4 := NewSink()
		at := NewRand(seed, k).N(len(comp) + 1)
		if k == 0 {
			at = len(comp) - 1 - NewRand(seed, 99).N(min(len(comp), 9))
			if at < 0 {
				at = 0
			}
		}
		s4.failByte = at
		t4, err4 := run(false, true, s4, true)
		t4.check(c, "failing Writer")
		if len(t4.a.lines) > len(t.a.lines) {
			c.Failf("a Writer whose sink failed after %d of %d bytes reported %d events, the complete run %d", at, len(comp), len(t4.a.lines), len(t.a.lines))
		}
		if d := diffLines(t4.a.lines, t.a.lines[:len(t4.a.lines)]); d != "" {
			c.Failf("sink failing after %d of %d bytes: %s", at, len(comp), d)
		}
		exp := expectEvents(ref)
		for n, e := range t4.a.evs {
			x := exp[n]
			if x.b != nil && e.Type != flate.BlockEndEvent {
				continue
			}
			done := x.inHi
			if x.b != nil {
				done = int(x.b.EndBit/8) - 8
			}
			if done > at {
				c.Failf("sink failing after %d of %d bytes (error %v): event %s, which completes at byte %d, was reported", at, len(comp), err4, head(evText(e), 200), done)
			}
		}
		if at == len(comp) && err4 == nil && len(t4.a.lines) != len(t.a.lines) {
			c.Failf("events missing although nothing failed")
		}
		c.Count("writer-failing", 1)
		c.Eval(true, "f", at, strings.Join(t4.a.lines, "\n"))
	}
	c.Sample("%v payload=%d ops=%s: %d events", cfg, len(data), opsString(ops), len(t.a.lines))
}
