package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"regexp"
	"runtime"
	"strconv"
	"strings"

	"github.com/chronos-tachyon/flate"
)

func init() {
	register(&Prop{
		ID: "C26", N: tierN(1200, 30000), Run: runC26,
		Rule: "case = one job (a Writer or Reader history with everything observable recorded: bytes written, data, error kinds, return values, header values, events) executed by the native build and by a GOARCH=386 build of the same sources, the records compared line by line. evaluations = jobs compared; non-trivial: at least 16 bytes processed; distinct by hash of the record",
		Need: []string{"job-write", "job-read", "job-bad", "job-big", "job-reset", "job-fault", "job-static", "lines", "over-64K", "huge-read", "huge-write"},
	})
}

// jobRec collects what a job observes.
type jobRec struct {
	lines []string
	bytes int
}

func (j *jobRec) add(label, format string, v ...interface{}) {
	j.lines = append(j.lines, strings.ToValidUTF8(label+": "+fmt.Sprintf(format, v...), "?"))
}

func (j *jobRec) data(label string, b []byte) {
	j.bytes += len(b)
	j.add(label, "%d bytes %016x %x", len(b), hashOf(b), b[:min(len(b), 48)])
}

func (j *jobRec) events(label string, l *evLog) {
	for i, s := range l.lines {
		// long lines are cut after the counters, whose width may vary
		from := 0
		if m := evCountersRE.FindStringIndex(s); m != nil {
			from = m[1]
		}
		if rest := s[from:]; len(rest) > 120 {
			s = fmt.Sprintf("%s... %d %016x", s[:from+120], len(rest), hashOf([]byte(rest)))
		}
		j.add(fmt.Sprintf("%s[%d]", label, i), "%s", s)
	}
}

var evCountersRE = regexp.MustCompile(`^\S+ in=\d+/\d+ out=\d+/\d+`)

func (j *jobRec) err(label string, err error) {
	switch k := errKind(err); {
	case err == nil || err == io.EOF || err == io.ErrUnexpectedEOF:
		j.add(label, "%v", err)
	case k > 0:
		j.add(label, "%v", k)
	default:
		j.add(label, "%T %v", err, err)
	}
}

// sub is an independent context for a job: own generator, own statistics.
func (c *C) sub(r *Rand) *C {
	return &C{Rand: r, Prop: c.Prop, Tier: c.Tier, Seed: c.Seed, Idx: c.Idx, stats: newStats()}
}

const nJobs = 8

// shared is what jobs may have in common: values one may hand to several
// instances.
type shared struct {
	dict    []byte
	payload []byte
	hdr     flate.Header
	opts    []flate.Option
}

func newShared(c *C) *shared {
	s := &shared{dict: c.Bytes(2000), payload: genData(c.Rand, 4, 50000)}
	s.hdr.Comment, s.hdr.FileName = "shared", "name"
	s.hdr.ExtraData.Records = []flate.ExtraDataRecord{{ID: [2]byte{'a', 'b'}, Bytes: []byte("common")}}
	s.opts = []flate.Option{flate.WithDictionary(s.dict), flate.WithMemoryLevel(3), flate.WithTracers(flate.NoOpTracer{})}
	return s
}

// runJob executes one deterministic history.  sh is nil or shared between
// jobs.  The caller's context c belongs to this job alone.
func runJob(c *C, kind int, sh *shared) *jobRec {
	j := &jobRec{}
	mode := c.N(6)
	tracers := func() (*evLog, []flate.Tracer) {
		l := &evLog{}
		if c.P(1, 3) {
			return l, []flate.Tracer{l, &vandal{}}
		}
		return l, []flate.Tracer{l}
	}
	write := func(label string, fw *flate.Writer, s *Sink, data []byte, ops []Op, closeAfter bool) {
		for _, r := range tryOps(fw, data, ops, closeAfter) {
			j.add(label, "%s = %d, %v", r.name, r.n, r.err)
		}
		j.data(label, s.Bytes())
	}
	read := func(label string, fr *flate.Reader, l *evLog) {
		data, err := readAllMode(c, fr, c.Rand.Fork(), mode)
		j.data(label, data)
		j.err(label+" error", err)
		fr.Close()
		j.events(label+" event", l)
	}
	switch kind {
	case 0: // a Writer's history, and back
		c.Count("job-write", 1)
		cfg := genCfg(c.Rand)
		data := genPayload(c.Rand, 60000)
		if sh != nil && c.P(1, 2) {
			data = sh.payload
		}
		ops := genOps(c.Rand, len(data), true, true)
		l, tr := tracers()
		s := NewSink()
		opts := append(cfg.Opts(), flate.WithTracers(tr...))
		if sh != nil && c.P(1, 2) {
			opts = append(opts, sh.opts[:2]...)
			if c.P(1, 3) {
				opts = append(opts, sh.opts[2])
			}
			cfg.Dict = sh.dict
		}
		fw := flate.NewWriter(s, opts...)
		h := randHeader(c)
		if sh != nil && c.P(1, 2) {
			h = sh.hdr
		}
		j.add("header", "%v", fw.SetHeader(h))
		write("write", fw, s, data, ops, true)
		j.events("write event", l)
		j.add("settings", "%s", writerSettings(fw))
		rl, rtr := tracers()
		fr := flate.NewReader(NewSrc(c.Rand, s.Bytes()), flate.WithFormat(flFmt(cfg.RefFmt())), flate.WithMemoryLevel(flate.MemoryLevel(c.N(10))), flate.WithDictionary(cfg.Dict), flate.WithTracers(rtr...))
		read("back", fr, rl)
	case 1: // foreign stream
		c.Count("job-read", 1)
		in, rc, _ := anyInput(c)
		l, tr := tracers()
		fr := flate.NewReader(NewSrc(c.Rand, in), append(rc.Opts(), flate.WithTracers(tr...))...)
		read("read", fr, l)
	case 2: // bad input of a chosen kind
		c.Count("job-bad", 1)
		b := genBadCase(c, c.N(1<<20))
		l, tr := tracers()
		fr := flate.NewReader(NewSrc(c.Rand, b.in), append(b.rc.Opts(), flate.WithTracers(tr...))...)
		read("bad", fr, l)
	case 3: // large
		c.Count("job-big", 1)
		cfg := genCfg(c.Rand)
		n := c.In(65536, 300000)
		if c.Prop.Race { // many of them, under the race detector
			n = c.In(20000, 80000)
		} else if c.P(1, 6) {
			n = c.In(1, 3) << 20
		}
		data := genData(c.Rand, c.N(8), n)
		ops := genOps(c.Rand, n, true, false)
		s := NewSink()
		fw := flate.NewWriter(s, cfg.Opts()...)
		write("big", fw, s, data, ops, true)
		l, tr := tracers()
		src := PlainSrc(s.Bytes())
		src.mode, src.chunk = srcFixed, c.Pick(100, 4096, 1<<16)
		fr := flate.NewReader(src, flate.WithFormat(flFmt(cfg.RefFmt())), flate.WithMemoryLevel(flate.MemoryLevel(c.N(10))), flate.WithDictionary(cfg.Dict), flate.WithTracers(tr...))
		read("big back", fr, l)
		if len(data) > 65536 {
			c.Count("over-64K", 1)
		}
	case 4: // re-used instances
		c.Count("job-reset", 1)
		s := NewSink()
		wo := genCfg(c.Rand).Opts()
		var ro []flate.Option
		if sh != nil && c.P(2, 3) {
			// built from values that others use as well; Reset gives it others
			wo = append(wo, sh.opts...)
			ro = sh.opts
			c.Count("job-shared-then-reset", 1)
		}
		fw := flate.NewWriter(s, wo...)
		var fr *flate.Reader
		var wlogs []*evLog
		for k := c.In(2, 5); k > 0; k-- {
			data := genPayload(c.Rand, 9000)
			write("reuse", fw, s, data, genOps(c.Rand, len(data), true, true), true)
			comp := append([]byte(nil), s.Bytes()...)
			l, tr := tracers()
			o := []flate.Option{flate.WithFormat(fw.Format()), flate.WithDictionary(fw.Dict()), flate.WithMemoryLevel(flate.MemoryLevel(c.N(10))), flate.WithTracers(tr...)}
			if fr == nil {
				fr = flate.NewReader(NewSrc(c.Rand, comp), append(o, ro...)...)
			} else {
				fr.Reset(NewSrc(c.Rand, comp), o...)
			}
			if c.P(1, 4) { // abandon it
				b := make([]byte, 1+c.N(100))
				fr.Read(b)
			} else {
				read("reuse back", fr, l)
			}
			s = NewSink()
			po := partialOpts(c, c.Rand, nil)
			if ro != nil {
				wl, wt := tracers()
				wlogs = append(wlogs, wl)
				po = append(po, flate.WithTracers(wt...))
				if c.P(1, 2) {
					po = append(po, flate.WithDictionary(c.Bytes(c.In(3, 2000))))
				}
			}
			fw.Reset(s, po...)
		}
		fr.Close()
		for _, l := range wlogs {
			j.events("reuse write event", l)
		}
	case 5: // failing sink
		c.Count("job-fault", 1)
		cfg := genCfg(c.Rand)
		data := genPayload(c.Rand, 20000)
		ops := genOps(c.Rand, len(data), true, true)
		s := NewSink()
		s.failByte = c.N(len(data)/2 + 20)
		fw := flate.NewWriter(s.As(c.N(4)), cfg.Opts()...)
		write("fault", fw, s, data, ops, true)
	case 6: // the shared fixed Huffman tables
		c.Count("job-static", 1)
		cfg := genCfg(c.Rand)
		cfg.Strat = flate.FixedStrategy
		cfg.Lvl = flate.CompressLevel(c.In(1, 9))
		data := genPayload(c.Rand, 20000)
		s := NewSink()
		l, tr := tracers()
		fw := flate.NewWriter(s, append(cfg.Opts(), flate.WithTracers(tr...))...)
		write("static", fw, s, data, genOps(c.Rand, len(data), true, true), true)
		j.events("static event", l)
		rl, rtr := tracers()
		fr := flate.NewReader(NewSrc(c.Rand, s.Bytes()), flate.WithFormat(flFmt(cfg.RefFmt())), flate.WithDictionary(cfg.Dict), flate.WithTracers(rtr...))
		read("static back", fr, rl)
	default: // header objects and dictionaries handed out
		c.Count("job-header", 1)
		cfg := genCfg(c.Rand)
		cfg.Fmt = flate.GZIPFormat
		s := NewSink()
		fw := flate.NewWriter(s, cfg.Opts()...)
		h := randHeader(c)
		j.add("sethdr", "%v", fw.SetHeader(h))
		for i := range h.ExtraData.Records {
			h.ExtraData.Records[i].ID = [2]byte{'!', '!'}
			scribble(h.ExtraData.Records[i].Bytes)
		}
		scribble(fw.Dict())
		data := genPayload(c.Rand, 5000)
		write("hdr", fw, s, data, genOps(c.Rand, len(data), false, false), true)
		var got flate.Header
		fr := flate.NewReader(NewSrc(c.Rand, s.Bytes()), flate.WithFormat(flate.GZIPFormat), flate.WithDictionary(cfg.Dict), flate.WithTracers(flate.CaptureHeader(&got)))
		d := fr.Dict()
		scribble(d)
		l := &evLog{}
		read("hdr back", fr, l)
		j.add("captured", "%s", head(hdrText(got), 2000))
		for i := range got.ExtraData.Records {
			scribble(got.ExtraData.Records[i].Bytes)
		}
	}
	return j
}

// ---------------------------------------------------------------- two word sizes

type digestMsg struct {
	Idx   int      `json:"idx"`
	Lines []string `json:"lines"`
	Fail  string   `json:"fail"`
}

// jobDigest runs one job and renders it; a failure inside becomes a line.
func jobDigest(c *C, kind int, sh *shared) digestMsg {
	m := digestMsg{}
	func() {
		defer func() {
			if e := recover(); e != nil {
				if _, ok := e.(failSentinel); !ok {
					m.Fail = fmt.Sprintf("panic: %v", e)
				}
			}
		}()
		if kind == 0 && c.Prop.ID == "C26" {
			// watched against its specification on both builds
			hugeRead(c, RGzip, true)
			m.Lines = []string{"huge: read as specified"}
			return
		}
		if kind == 1 && c.Prop.ID == "C26" {
			hugeWrite(c)
			m.Lines = []string{"huge: written as specified"}
			return
		}
		m.Lines = runJob(c, kind%nJobs, sh).lines
	}()
	if c.fail != nil {
		m.Fail = c.fail.Msg
	}
	return m
}

type peer struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
	err *bytes.Buffer
}

var peer386 *peer

func getPeer(c *C) *peer {
	if peer386 != nil {
		return peer386
	}
	bin := os.Getenv("VMON_386")
	if bin == "" {
		panic("harness: VMON_386 is not set")
	}
	p := &peer{err: &bytes.Buffer{}}
	p.cmd = exec.Command(bin, "digest", c.Tier, fmt.Sprint(c.Seed))
	p.cmd.Stderr = p.err
	in, err := p.cmd.StdinPipe()
	if err != nil {
		panic("harness: " + err.Error())
	}
	out, err := p.cmd.StdoutPipe()
	if err != nil {
		panic("harness: " + err.Error())
	}
	p.in, p.out = in, bufio.NewReaderSize(out, 1<<20)
	if err := p.cmd.Start(); err != nil {
		panic("harness: cannot start the 32-bit build: " + err.Error())
	}
	peer386 = p
	return p
}

var counterRE = regexp.MustCompile(`event\[\d+\]: block-\S+ in=(\d+)/(\d+) out=(\d+)/(\d+)`)

// sameBlockEvent: the byte counters of block events, which do not fall on byte
// boundaries, exclude the whole bytes still pending in the bit buffer, whose
// size is the word size.
func sameBlockEvent(a, b string) bool {
	ma, mb := counterRE.FindStringSubmatchIndex(a), counterRE.FindStringSubmatchIndex(b)
	if ma == nil || mb == nil || a[:ma[2]] != b[:mb[2]] || a[ma[1]:] != b[mb[1]:] {
		return false
	}
	for k := 1; k <= 4; k++ {
		x, _ := strconv.Atoi(a[ma[2*k]:ma[2*k+1]])
		y, _ := strconv.Atoi(b[mb[2*k]:mb[2*k+1]])
		if x-y > 8 || y-x > 8 {
			return false
		}
	}
	return true
}

// sameFault accepts that a failing sink is noticed earlier where fewer bits
// are held back between calls, by a call which need not pass on everything.
func sameFault(a, b string) bool {
	ok := "= 0, <nil>"
	for _, op := range []string{"fault: Write(", "fault: Flush(block) "} {
		if strings.HasPrefix(a, op) && strings.HasPrefix(b, op) {
			i, j := strings.Index(a, " = "), strings.Index(b, " = ")
			if i < 0 || j < 0 || a[:i] != b[:j] {
				return false
			}
			return strings.HasSuffix(a, ", <nil>") && strings.HasSuffix(b, " = 0, "+errSink.Error()) && (op != "fault: Flush(block) " || strings.HasSuffix(a, ok))
		}
	}
	return false
}

func runC26(c *C, i int) {
	p := getPeer(c)
	fmt.Fprintf(p.in, "%d\n", i)
	type res struct {
		line []byte
		err  error
	}
	ch := make(chan res, 1)
	go func() {
		line, err := p.out.ReadBytes('\n')
		ch <- res{line, err}
	}()
	sub := c.sub(NewRand("job", c.Seed, c.Tier, i))
	mine := jobDigest(sub, i, nil)
	r := <-ch
	var other digestMsg
	if r.err != nil || json.Unmarshal(r.line, &other) != nil || other.Idx != i {
		p.in.Close()
		p.cmd.Wait()
		c.Failf("job %d: the 32-bit build died or hung: %s %s", i%nJobs, head(string(r.line), 1500), head(p.err.String(), 3000))
	}
	what := fmt.Sprintf("job kind %d", i%nJobs)
	if mine.Fail != other.Fail {
		c.Failf("%s: 64-bit failure %q, 32-bit failure %q", what, mine.Fail, other.Fail)
	}
	n := 0
	for k := 0; k < len(mine.Lines) || k < len(other.Lines); k++ {
		a, b := "<none>", "<none>"
		if k < len(mine.Lines) {
			a = mine.Lines[k]
		}
		if k < len(other.Lines) {
			b = other.Lines[k]
		}
		if a != b && !sameBlockEvent(a, b) && !sameFault(a, b) {
			c.Failf("%s: the builds differ\n  64-bit: %s\n  32-bit: %s", what, head(a, 600), head(b, 600))
		}
		n += len(a)
	}
	c.Count("lines", len(mine.Lines))
	c.mu.Lock()
	for k, v := range sub.stats.Counters {
		c.stats.Counters[k] += v
	}
	c.mu.Unlock()
	c.Eval(len(mine.Lines) > 1, hashOf([]byte(strings.Join(mine.Lines, "\n"))))
	c.Sample("%s: %d lines, e.g. %s", what, len(mine.Lines), head(strings.Join(mine.Lines, " | "), 300))
}

// digestMain is the 32-bit side: case numbers in, records out.
func digestMain(a []string) {
	tier := a[0]
	seed, _ := strconv.ParseUint(a[1], 10, 64)
	go watchdogLoop()
	in := bufio.NewReader(os.Stdin)
	out := bufio.NewWriter(os.Stdout)
	if runtime.GOARCH != "386" {
		fmt.Fprintln(os.Stderr, "note: not a 32-bit build")
	}
	for {
		line, err := in.ReadString('\n')
		if err != nil {
			return
		}
		i, err := strconv.Atoi(strings.TrimSpace(line))
		if err != nil {
			return
		}
		c := &C{Rand: NewRand("job", seed, tier, i), Prop: props["C26"], Tier: tier, Seed: seed, Idx: i, stats: newStats()}
		b, _ := json.Marshal(runOne(c, i))
		out.Write(b)
		out.WriteByte('\n')
		out.Flush()
	}
}

func runOne(c *C, i int) digestMsg {
	watchCase(c)
	defer unwatchCase()
	m := jobDigest(c, i, nil)
	m.Idx = i
	return m
}
