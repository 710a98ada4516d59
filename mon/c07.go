package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"

	"github.com/chronos-tachyon/flate"
)

type readRun struct {
	data []byte
	err  error
	ev   *evLog
}

func (r readRun) errText() string {
	var ce flate.CorruptInputError
	if errors.As(r.err, &ce) {
		return fmt.Sprintf("%+v", ce)
	}
	return fmt.Sprint(r.err)
}

func doRead(c *C, src io.Reader, rc RCfg, mode int) readRun {
	ev := &evLog{}
	fr := flate.NewReader(src, append(rc.Opts(), flate.WithTracers(ev))...)
	var rr readRun
	rr.ev = ev
	if mode < 0 {
		mode = c.N(6)
	}
	rr.data, rr.err = readAllMode(c, fr, c.Rand, mode)
	fr.Close() // waits for the background goroutine: all events are in
	return rr
}

func sameRun(c *C, what string, a, b readRun) {
	if !bytes.Equal(a.data, b.data) {
		c.Failf("%s: data differs: %s (errors %v, %v)", what, diffAt(a.data, b.data), a.err, b.err)
	}
	if a.errText() != b.errText() {
		c.Failf("%s: error %s, reference run %s", what, a.errText(), b.errText())
	}
	if d := diffLines(a.ev.lines, b.ev.lines); d != "" {
		c.Failf("%s: events differ: %s", what, d)
	}
}

func c07Input(c *C, i int) ([]byte, RCfg) {
	if i%3 == 0 {
		b := genBadCase(c, i/3)
		return b.in, b.rc
	}
	f := RefFormat(1 + c.N(3))
	g := &genOpt{size: genOutSize(c.Rand)}
	if c.P(1, 6) {
		g.dict = genDict(c.Rand)
	}
	s := genStream(c.Rand, f, g)
	in := s.Comp
	if c.P(1, 4) {
		s2 := genStream(c.Rand, f, &genOpt{size: c.N(300), dict: g.dict, wbits: s.WBits})
		in = append(append([]byte(nil), in...), s2.Comp...)
	}
	rc := genRCfg(c.Rand, f, s.WBits, g.dict)
	if c.P(1, 3) {
		rc.Fmt = RAuto
	}
	return in, rc
}

func runC07(c *C, i int) {
	if i%2 == 0 {
		in, rc := c07Input(c, i/2)
		base := doRead(c, PlainSrc(in), rc, 0)
		n := 4
		if len(in) > 50000 {
			n = 2
		}
		for k := 0; k < n; k++ {
			src := NewSrc(c.Rand, in)
			if k == 0 {
				src.mode, src.delay = srcOne, false
				if len(in) > 50000 {
					src.mode = srcRandom
				}
			}
			rr := doRead(c, src, rc, -1)
			sameRun(c, fmt.Sprintf("%v, %v", src, rc), rr, base)
			c.Count("chunkings", 1)
			c.Count("events-compared", len(rr.ev.lines))
			c.Eval(len(in) >= 8, hashOf(in), rc.String(), src.String())
		}
		c.Sample("%d bytes, %v: %d bytes then %s, %d events", len(in), rc, len(base.data), base.errText(), len(base.ev.lines))
		return
	}
	// failing source
	f := RefFormat(1 + c.N(3))
	g := &genOpt{size: c.Pick(0, 3, 30, 200, 5000, 60000)}
	s := genStream(c.Rand, f, g)
	in := s.Comp
	looks := looksLikeContainer(in)
	if c.P(1, 4) {
		s2 := genStream(c.Rand, f, &genOpt{size: c.N(100), wbits: s.WBits, maxBlk: 2}).Comp
		in = append(append([]byte(nil), in...), s2...)
		// the format is detected afresh for every stream
		looks = looks || looksLikeContainer(s2)
	}
	rc := genRCfg(c.Rand, f, s.WBits, nil)
	if c.P(1, 3) && !(f == RRaw && looks) {
		rc.Fmt = RAuto
	}
	var ks []int
	if len(in) <= 120 {
		for k := 0; k <= len(in); k++ {
			ks = append(ks, k)
		}
	} else {
		ks = []int{0, 1, len(in), len(in) - 1, len(in) - 2, len(in) - s.TrLen}
		for k := 0; k < 6; k++ {
			ks = append(ks, c.N(len(in)))
		}
	}
	rc.Mem = flate.MemoryLevel(c.In(1, 9))
	for _, k := range ks {
		opt := rc.Ref()
		ref := RefDecode(in[:k], opt)
		src := NewSrc(c.Rand, in[:k])
		fe := fmt.Errorf("source failure %d", c.N(1000000))
		if c.P(1, 2) {
			fe = oddErr(c.Rand)
		}
		src.err = fe
		fr := newReader(c, src, rc.Opts()...)
		got, err := readAll(c, fr, c.Rand)
		what := fmt.Sprintf("source failing with %v after %d of %d bytes, %v, %v", fe, k, len(in), rc, src)
		if err != fe {
			c.Failf("%s: Read returned %v", what, err)
		}
		if !bytes.HasPrefix(ref.Out, got) {
			c.Failf("%s: wrong data: %s", what, diffAt(got, ref.Out))
		}
		if len(got) < ref.SafeOut {
			c.Failf("%s: only %d of %d decodable bytes delivered before the error", what, len(got), ref.SafeOut)
		}
		if src.ended.Load() > 0 {
			c.Failf("%s: source read again after it failed", what)
		}
		c.Count("fail-positions", 1)
		if src.withErr {
			c.Count("fail-with-data", 1)
		}
		c.Eval(len(in) >= 8, hashOf(in), k, src.String())
	}
}
