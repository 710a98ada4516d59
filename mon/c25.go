package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"

	"github.com/chronos-tachyon/flate"
)

func init() {
	register(&Prop{
		ID: "C25", N: tierN(1200, 20000), Run: runC25,
		Rule: "case = one or more runs of the built gzip command in a scratch directory: compression under drawn flags (output judged by the reference decoder against the input, the requested settings and header fields, and in size against the library under the same settings), decompression of its own, the library's, compress/*'s and generated foreign, concatenated, truncated and tampered streams (exit status and standard output judged by the reference decoder), outputs that fail (/dev/full, a pipe closed after n bytes, a file size limit), an unreadable input, and invalid options. evaluations = runs judged; non-trivial: a run that had data to process or a fault to report; distinct by arguments and input",
		Need: []string{"compress", "decompress-own", "decompress-foreign", "decompress-concat", "decompress-corrupt", "decompress-truncated", "corrupt-refused", "full-device", "closed-pipe", "size-limit", "unreadable-input", "invalid-options", "dict-file", "dict-literal", "header-fields", "verbose", "roundtrip", "wrong-dict", "slow-pipe", "version", "profile-written", "profile-unwritable", "json-log", "full-stderr", "dash", "large", "slow-consumer", "dict-text", "ladder-level", "ladder-strategy", "ladder-memory", "ladder-window"},
	})
}

type cliRun struct {
	args   []string
	status int // exit status, or 128 for death by a signal
	out    []byte
	errs   []byte
}

func (r cliRun) String() string {
	return fmt.Sprintf("gzip %q -> status %d, %d bytes on stdout, stderr: %s", r.args, r.status, len(r.out), head(string(r.errs), 400))
}

const (
	inFile = iota
	inPipe
	inSlow
	inDir
)

const (
	outPipe = iota
	outFile
	outFull
	outBroken // the reader of the pipe goes away after limit bytes
	outLimit  // file size limit
	outSlow   // a pipe whose reader dawdles
)

// cli runs the command in its own scratch directory.
func cli(c *C, dir string, inKind int, in []byte, outKind, limit int, args ...string) cliRun {
	return cliErr(c, dir, inKind, in, outKind, limit, "", args...)
}

// cliErr is cli with standard error connected to a named file.
func cliErr(c *C, dir string, inKind int, in []byte, outKind, limit int, errFile string, args ...string) cliRun {
	bin := os.Getenv("VMON_GZIP")
	ctx, cancel := context.WithTimeout(context.Background(), 120*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin, args...)
	if outKind == outLimit {
		// in blocks of 512 or 1024 bytes, depending on the shell
		sh := append([]string{"-c", fmt.Sprintf("ulimit -f %d; exec \"$0\" \"$@\"", limit), bin}, args...)
		cmd = exec.CommandContext(ctx, "/bin/sh", sh...)
	}
	cmd.Dir = dir
	cmd.Env = []string{"HOME=" + dir, "PATH=/nonexistent", "TMPDIR=" + dir}
	res := cliRun{args: args}
	var closers []io.Closer
	defer func() {
		for _, f := range closers {
			f.Close()
		}
	}()
	open := func(name string, flag int) *os.File {
		f, err := os.OpenFile(name, flag, 0o600)
		if err != nil {
			panic(fmt.Sprint("harness: ", err))
		}
		closers = append(closers, f)
		return f
	}
	switch inKind {
	case inFile:
		name := filepath.Join(dir, "stdin")
		os.WriteFile(name, in, 0o600)
		cmd.Stdin = open(name, os.O_RDONLY)
	case inDir:
		cmd.Stdin = open(dir, os.O_RDONLY)
	case inPipe:
		cmd.Stdin = bytes.NewReader(in)
	case inSlow:
		w, err := cmd.StdinPipe()
		if err != nil {
			panic(err)
		}
		r := c.Fork()
		go func() {
			for p := in; len(p) > 0; {
				n := r.Pick(1, 2, 10, 100, 1000, 32768)
				if n > len(p) {
					n = len(p)
				}
				if _, err := w.Write(p[:n]); err != nil {
					break
				}
				p = p[n:]
				if r.P(1, 20) {
					time.Sleep(time.Millisecond)
				}
			}
			w.Close()
		}()
	}
	var errb, outb bytes.Buffer
	cmd.Stderr = &errb
	if errFile != "" {
		cmd.Stderr = open(errFile, os.O_WRONLY)
	}
	outName := filepath.Join(dir, "stdout")
	var pr *os.File
	switch outKind {
	case outPipe:
		cmd.Stdout = &outb
	case outFile, outLimit:
		cmd.Stdout = open(outName, os.O_CREATE|os.O_TRUNC|os.O_RDWR)
	case outFull:
		cmd.Stdout = open("/dev/full", os.O_WRONLY)
	case outBroken, outSlow:
		r, w, err := os.Pipe()
		if err != nil {
			panic(err)
		}
		pr = r
		cmd.Stdout = w
		closers = append(closers, w)
	}
	err := cmd.Start()
	if err != nil {
		panic(fmt.Sprint("harness: cannot start the command: ", err))
	}
	if pr != nil {
		closers[len(closers)-1].Close()
		if outKind == outSlow {
			limit = 1 << 30
			rr := c.Fork()
			tmp := make([]byte, 70000)
			for {
				n, err := pr.Read(tmp[:rr.Pick(1, 100, 4096, 70000)])
				outb.Write(tmp[:n])
				if err != nil {
					break
				}
				if rr.P(1, 40) {
					time.Sleep(time.Millisecond)
				}
			}
			limit = 0
		}
		b := make([]byte, limit)
		n, _ := io.ReadFull(pr, b)
		outb.Write(b[:n])
		pr.Close()
	}
	err = cmd.Wait()
	if ctx.Err() != nil {
		c.incon = fmt.Sprintf("case %d: gzip %q was still running after 120 s", c.Idx, args)
		panic(failSentinel{})
	}
	if ee, ok := err.(*exec.ExitError); ok {
		res.status = ee.ExitCode()
		if res.status < 0 {
			res.status = 128
		}
	} else if cmd.ProcessState != nil {
		res.status = cmd.ProcessState.ExitCode()
	}
	res.out = outb.Bytes()
	if outKind == outFile || outKind == outLimit {
		res.out, _ = os.ReadFile(outName)
	}
	res.errs = errb.Bytes()
	c.Count("runs", 1)
	return res
}

// cliFlags turns settings into flags, in varying spellings.
func cliFlags(c *C, dir string, cfg Cfg, compressing bool) []string {
	var f []string
	long := func(name, short, val string) {
		switch c.N(3) {
		case 0:
			f = append(f, "--"+name+"="+val)
		case 1:
			f = append(f, "--"+name, val)
		default:
			f = append(f, "-"+short, val)
		}
	}
	if cfg.Fmt != flate.DefaultFormat || c.P(1, 4) {
		v := cfg.Fmt.String()
		if c.P(1, 4) {
			v = strings.ToUpper(v)
		}
		long("format", "F", v)
	}
	if cfg.Strat != flate.DefaultStrategy || c.P(1, 4) {
		long("strategy", "S", cfg.Strat.String())
	}
	if cfg.Lvl >= 0 || c.P(1, 4) {
		if cfg.Lvl >= 0 && c.P(1, 2) {
			f = append(f, fmt.Sprintf("-%d", int(cfg.Lvl)))
		} else {
			long("compress-level", "C", cfg.Lvl.String())
		}
	}
	if cfg.Mem != 0 || c.P(1, 4) {
		long("memory-level", "M", cfg.Mem.String())
	}
	if cfg.WB != 0 || c.P(1, 4) {
		long("window-size-bits", "W", cfg.WB.String())
	}
	if cfg.Dict != nil {
		if bytes.IndexByte(cfg.Dict, 0) < 0 && cfg.Dict[0] != '@' && len(cfg.Dict) < 100000 && c.P(1, 2) {
			f = append(f, "--dictionary="+string(cfg.Dict))
			c.Count("dict-literal", 1)
		} else {
			name := filepath.Join(dir, "dict")
			os.WriteFile(name, cfg.Dict, 0o600)
			f = append(f, "--dictionary=@"+name)
			c.Count("dict-file", 1)
		}
	}
	switch c.N(12) {
	case 0:
		f = append(f, "-v")
		c.Count("verbose", 1)
	case 1:
		f = append(f, "-D")
		c.Count("verbose", 1)
	case 2:
		f = append(f, "-D", "-L")
		c.Count("verbose", 1)
	case 3:
		f = append(f, "-L")
	case 4:
		f = append(f, "-c")
	case 5:
		f = append(f, c.pickStr("-f", "-k", "-fk", "--force", "--keep", "--stdout"))
	case 6:
		if c.P(1, 4) {
			f = append(f, "--cpu-profile="+filepath.Join(dir, "cpu"))
		} else if c.P(1, 4) {
			f = append(f, "--mem-profile="+filepath.Join(dir, "mem"))
		}
	}
	if !compressing {
		f = append(f, c.pickStr("-d", "--decompress"))
	}
	if c.P(1, 3) && len(f) > 1 && !strings.Contains(strings.Join(f, "\x00"), "\x00-") {
		return f
	}
	return f
}

// cliCfg draws settings as seen by the command (whose default format is gzip).
func cliCfg(c *C) Cfg {
	cfg := genCfg(c.Rand)
	if c.P(1, 3) {
		cfg.Strat = 0
	}
	if c.P(1, 3) {
		cfg.Lvl = -1
	}
	if c.P(1, 3) {
		cfg.Mem = 0
	}
	if c.P(1, 3) {
		cfg.WB = 0
	}
	if len(cfg.Dict) == 0 {
		cfg.Dict = nil
	}
	if cfg.Dict != nil && c.P(1, 3) { // bytes a text file would have
		d := append([]byte(nil), cfg.Dict...)
		if c.P(1, 3) {
			d = append([]byte(c.pickStr("\n", " ", "\xef\xbb\xbf", "\t")), d...)
		}
		cfg.Dict = append(d, c.pickStr("\n", "\r\n", "\n\n", " ", "\x00", "\x1a")...)
		c.Count("dict-text", 1)
	}
	return cfg
}

// cliLadder: of all values of a setting, the one named is the one in effect:
// the output is never that of another value.
func cliLadder(c *C, dir string, k int) {
	cfg := Cfg{Fmt: flate.Format(c.In(1, 3)), Lvl: flate.CompressLevel(c.In(1, 9))}
	eff := cfg
	set := []func(*Cfg, int) bool{
		func(f *Cfg, v int) bool { f.Lvl = flate.CompressLevel(v - 1); return v < 11 },
		func(f *Cfg, v int) bool { f.Strat = flate.Strategy(v); return v <= int(flate.FixedStrategy) },
		func(f *Cfg, v int) bool { f.Mem = flate.MemoryLevel(v); return v < 10 },
		func(f *Cfg, v int) bool {
			f.WB = flate.WindowBits(v + 7)
			if v == 0 {
				f.WB = 0
			}
			return v < 9
		},
	}[k%4]
	// data on which the values differ
	var data []byte
	for len(data) < 120000 {
		b := genData(c.Rand, c.Pick(2, 3, 5, 7, 11, 12, 13), c.In(100, 9000))
		data = append(data, b...)
		if len(data) > 3000 {
			o := c.N(len(data) - 2000)
			data = append(data, data[o:o+c.In(3, 2000)]...)
		}
	}
	data = data[:120000]
	made := map[string][]int{}
	var all []int
	var libs [][]byte
	for v := 0; set(&eff, v); v++ {
		all = append(all, v)
		s := NewSink()
		fw := flate.NewWriter(s, eff.Opts()...)
		if _, err := io.Copy(fw, struct{ io.Reader }{bytes.NewReader(data)}); err != nil {
			c.Failf("io.Copy: %v", err)
		}
		if err := fw.Close(); err != nil {
			c.Failf("Close: %v", err)
		}
		b := s.Bytes()
		libs = append(libs, b)
		made[string(b)] = append(made[string(b)], v)
	}
	name := []string{"level", "strategy", "memory", "window"}[k%4]
	c.Max("ladder-outputs-"+name, len(made))
	c.Note("ladder of %s: %v, %d bytes %016x, %d different outputs", name, cfg, len(data), hashOf(data), len(made))
	for try := 0; try < 3; try++ {
		v := all[c.N(len(all))]
		eff = cfg
		set(&eff, v)
		var outs [2]cliRun
		for q := range outs { // two spellings of the same settings
			outs[q] = cli(c, dir, inFile, data, c.Pick(outPipe, outFile), 0, cliFlags(c, dir, eff, true)...)
			r := outs[q]
			if r.status != 0 {
				c.Failf("%s", r)
			}
			vs := made[string(r.out)]
			own := len(vs) == 0
			if !own {
				c.Count("ladder-exact", 1)
			}
			for _, x := range vs {
				own = own || x == v
			}
			if !own {
				c.Failf("ladder of %s: %s makes what the library makes with value %d, not %d", name, r, vs[0], v)
			}
			c.Count("ladder-"+name, 1)
			c.Eval(len(made) > 1, name, v, strings.Join(r.args, " "), hashOf(data))
		}
		if !bytes.Equal(outs[0].out, outs[1].out) {
			c.Failf("the same settings spelled differently give different output: %s (%d bytes) and %s (%d bytes)", outs[0], len(outs[0].out), outs[1], len(outs[1].out))
		}
	}
}

// effective settings of the compressing command
func cliEff(cfg Cfg) Cfg {
	if cfg.Fmt == flate.DefaultFormat {
		cfg.Fmt = flate.GZIPFormat
	}
	return cfg
}

func runC25(c *C, i int) {
	if os.Getenv("VMON_GZIP") == "" {
		panic("harness: VMON_GZIP is not set")
	}
	dir, err := os.MkdirTemp("", "cli")
	if err != nil {
		panic("harness: " + err.Error())
	}
	defer os.RemoveAll(dir)
	if i%16 == 8 {
		cliMisc(c, dir, i/16)
		return
	}
	if i%32 == 16 {
		cliLadder(c, dir, i/32)
		return
	}
	switch i % 8 {
	case 0, 1:
		cliCompress(c, dir)
	case 2:
		cliDecompress(c, dir, true)
	case 3, 4:
		cliDecompress(c, dir, false)
	case 5:
		cliOutputFault(c, dir, i/8)
	case 6:
		cliInvalid(c, dir, i/8)
	default:
		cliDictMismatch(c, dir)
	}
}

// libSize is what the library produces for the same settings.
func libSize(c *C, cfg Cfg, h flate.Header, data []byte) int {
	s := NewSink()
	fw := flate.NewWriter(s, cfg.Opts()...)
	if err := fw.SetHeader(h); err != nil {
		c.Failf("SetHeader: %v", err)
	}
	for p := data; len(p) > 0; {
		n := 32768
		if n > len(p) {
			n = len(p)
		}
		doWrite(c, fw, p[:n])
		p = p[n:]
	}
	if err := fw.Close(); err != nil {
		c.Failf("Close: %v", err)
	}
	return s.Len()
}

func argName(c *C, n int, sep bool) string {
	for {
		s := randName(c, n, sep)
		if s[0] != '-' {
			return s
		}
	}
}

func cliCompress(c *C, dir string) {
	cfg := cliCfg(c)
	eff := cliEff(cfg)
	data := windowData(c, eff.EffWB())
	if cfg.Dict != nil {
		data = dictPayload(c, cfg.Dict, 40000)
	}
	switch c.N(10) {
	case 0:
		data = nil
	case 1:
		data = genPayload(c.Rand, 400000)
	}
	args := cliFlags(c, dir, cfg, true)
	var h flate.Header
	if eff.Fmt == flate.GZIPFormat && c.P(1, 2) {
		if c.P(1, 2) {
			h.FileName = argName(c, c.Pick(1, 5, 100, 255), false)
			args = append(args, "--filename="+h.FileName)
		}
		if c.P(1, 2) {
			h.Comment = argName(c, c.Pick(1, 5, 100, 255), true)
			args = append(args, "--comment", h.Comment)
		}
		if c.P(1, 2) {
			h.LastModified = time.Unix(int64(1+c.N(2000000000))*2, 0).UTC()
			loc := time.FixedZone("x", c.In(-12, 12)*3600)
			args = append(args, "--last-modified="+h.LastModified.In(loc).Format(time.RFC3339))
		}
		c.Count("header-fields", 1)
	}
	inKind := c.Pick(inFile, inFile, inPipe, inSlow)
	if inKind == inSlow {
		c.Count("slow-pipe", 1)
	}
	r := cli(c, dir, inKind, data, c.Pick(outPipe, outFile), 0, args...)
	what := r.String()
	c.Note("%d bytes %016x: %s", len(data), hashOf(data), what)
	if r.status != 0 {
		c.Failf("compression failed: %s", what)
	}
	ref := refVerify(c, what, r.out, RefOpt{Format: eff.RefFmt(), WBits: 15, Dict: eff.Dict, Toks: true}, data)
	if len(ref.Streams) != 1 {
		c.Failf("%s: produced %d streams", what, len(ref.Streams))
	}
	st := ref.Streams[0]
	if st.Format != eff.RefFmt() {
		c.Failf("%s: produced format %v", what, st.Format)
	}
	judgeSettings(c, eff, ref, len(data))
	if st.Format == RGzip {
		w := st.Hdr
		mt := uint32(0)
		if !h.LastModified.IsZero() {
			mt = uint32(h.LastModified.Unix())
		}
		if w.Name != h.FileName || w.Comment != h.Comment || w.MTime != mt || len(w.Extra) != 0 {
			c.Failf("%s: header has name %q comment %q time %d", what, w.Name, w.Comment, w.MTime)
		}
		if x := wantXFL(eff); w.XFL != x {
			c.Failf("%s: XFL %d, want %d", what, w.XFL, x)
		}
	}
	if st.Format == RZlib {
		if x := wantFLevel(eff); st.Hdr.FLG>>6 != x {
			c.Failf("%s: FLEVEL %d, want %d", what, st.Hdr.FLG>>6, x)
		}
		if st.Hdr.HasDict != (eff.Dict != nil) {
			c.Failf("%s: FDICT %v", what, st.Hdr.HasDict)
		}
	}
	n := libSize(c, eff, h, data)
	if d := len(r.out) - n; d*d > (32+n/64)*(32+n/64) {
		c.Failf("%s: %d bytes of output, the library makes %d with the same settings", what, len(r.out), n)
	}
	c.Count("compress", 1)
	c.Eval(true, strings.Join(args, " "), hashOf(data))
	c.Sample("%s (%d bytes in)", what, len(data))
	// and back
	dcfg := Cfg{Fmt: eff.Fmt, WB: eff.WB, Dict: eff.Dict, Lvl: -1, Mem: flate.MemoryLevel(c.N(10))}
	if st.Format != RRaw && c.P(1, 2) {
		dcfg.Fmt = flate.DefaultFormat
	}
	if c.P(1, 2) {
		dcfg.WB = 0
	}
	dargs := cliFlags(c, dir, dcfg, false)
	back := cli(c, dir, c.Pick(inFile, inPipe, inSlow), r.out, c.Pick(outPipe, outFile), 0, dargs...)
	if back.status != 0 || !bytes.Equal(back.out, data) {
		c.Failf("round trip: %s, %s; compressed by %q", back, diffAt(back.out, data), args)
	}
	c.Count("roundtrip", 1)
}

// cliDecompress decodes streams of all origins, valid ones and others.
func cliDecompress(c *C, dir string, valid bool) {
	var in []byte
	var rc RCfg
	kind := c.N(5)
	switch {
	case valid && kind == 0: // several streams
		rc.Fmt = RefFormat(c.Pick(int(RZlib), int(RGzip)))
		for k := c.In(2, 5); k > 0; k-- {
			s := genStream(c.Rand, rc.Fmt, &genOpt{size: c.N(3000)})
			in = append(in, s.Comp...)
		}
		c.Count("decompress-concat", 1)
	case valid && kind == 1: // other encoders
		rc.Fmt = RefFormat(c.In(1, 3))
		data := genPayload(c.Rand, 60000)
		in = stdEncode(c.Rand, rc.Fmt, data, nil)
		c.Count("decompress-foreign", 1)
	case valid && kind == 2:
		cfg := genCfg(c.Rand)
		data := genPayload(c.Rand, 60000)
		in = compress(c, cfg, data, genOps(c.Rand, len(data), true, cfg.Fmt != flate.RawFormat))
		rc = RCfg{Fmt: cfg.RefFmt(), Dict: cfg.Dict}
		c.Count("decompress-own", 1)
	case valid:
		g := &genOpt{size: c.N(20000), wbits: c.Pick(8, 10, 12, 15)}
		rc.Fmt = RefFormat(c.In(1, 3))
		in = genStream(c.Rand, rc.Fmt, g).Comp
		c.Count("decompress-foreign", 1)
	default:
		g := &genOpt{size: c.N(20000)}
		rc.Fmt = RefFormat(c.In(1, 3))
		s := genStream(c.Rand, rc.Fmt, g)
		switch c.N(4) {
		case 0:
			in = append([]byte(nil), s.Comp[:c.N(len(s.Comp))]...)
			c.Count("decompress-truncated", 1)
		case 1:
			in = append(append([]byte(nil), s.Comp...), c.Bytes(1+c.N(30))...)
			c.Count("decompress-corrupt", 1)
		default:
			in, _ = mutate(c.Rand, s)
			c.Count("decompress-corrupt", 1)
		}
	}
	if rc.Fmt != RRaw && c.P(1, 2) {
		rc.Fmt = RAuto
	}
	if c.P(1, 4) {
		rc.WB = flate.WindowBits(c.In(8, 15))
	}
	dcfg := Cfg{Fmt: flFmt(rc.Fmt), WB: rc.WB, Dict: rc.Dict, Lvl: -1, Mem: flate.MemoryLevel(c.N(10))}
	args := cliFlags(c, dir, dcfg, false)
	r := cli(c, dir, c.Pick(inFile, inPipe, inSlow), in, c.Pick(outPipe, outFile), 0, args...)
	ref := RefDecode(in, rc.Ref())
	what := r.String()
	c.Note("input %d bytes %016x", len(in), hashOf(in))
	c.Eval(len(in) > 0, strings.Join(args, " "), hashOf(in))
	if ref.TooBig {
		return
	}
	if ref.Lenient {
		n := min(len(r.out), ref.LenOut)
		if !bytes.Equal(r.out[:n], ref.Out[:n]) {
			c.Failf("%s: wrong data: %s", what, diffAt(r.out[:n], ref.Out[:n]))
		}
		return
	}
	if !bytes.HasPrefix(ref.Out, r.out) {
		c.Failf("%s: standard output is not the data: %s", what, diffAt(r.out, ref.Out))
	}
	if ref.Err == 0 {
		if r.status != 0 || len(r.out) != len(ref.Out) {
			c.Failf("%s: valid input (%d bytes of data) not decompressed", what, len(ref.Out))
		}
		return
	}
	if r.status == 0 && len(in) > 0 {
		c.Failf("%s: %v input (%s at %d of %d) was accepted", what, ref.Err, ref.Msg, ref.Off, len(in))
	}
	if len(in) > 0 {
		c.Count("corrupt-refused", 1)
		if len(r.errs) == 0 {
			c.Failf("%s: failed without a message", what)
		}
	}
}

func cliOutputFault(c *C, dir string, k int) {
	cfg := cliCfg(c)
	eff := cliEff(cfg)
	data := genData(c.Rand, c.N(8), c.Pick(0, 1, 100, 5000, 60000, 300000))
	comp := k%3 != 2
	var in, want []byte
	var args []string
	if comp {
		args = cliFlags(c, dir, cfg, true)
		in = data
		ok := cli(c, dir, inFile, in, outFile, 0, args...)
		if ok.status != 0 {
			c.Failf("%s", ok)
		}
		want = ok.out
	} else {
		cfg.Dict = nil
		eff.Dict = nil
		args = cliFlags(c, dir, Cfg{Fmt: eff.Fmt, Lvl: -1}, false)
		in = compress(c, eff, data, []Op{{K: 'W', N: len(data)}})
		want = data
	}
	kind := []int{outFull, outBroken, outLimit}[(k/3)%3]
	limit := 0
	switch kind {
	case outBroken:
		if len(want) < 70000 { // would fit into the pipe
			kind = outFull
		} else {
			limit = c.Pick(0, 1, 100, 10000)
			if limit+1<<16+8192 > len(want) {
				limit = 0
			}
		}
	case outLimit:
		if len(want) <= 2048 {
			kind = outFull
		} else {
			limit = 1 + c.N(len(want)/1024)
			if limit*1024 >= len(want) {
				limit = 1
			}
		}
	}
	if len(want) == 0 {
		return
	}
	r := cli(c, dir, c.Pick(inFile, inPipe), in, kind, limit, args...)
	what := fmt.Sprintf("output fault %d limit %d (%d bytes to write): %s", kind, limit, len(want), r)
	if r.status == 0 {
		c.Failf("%s: output was lost but the status is 0", what)
	}
	if kind != outFull && !bytes.HasPrefix(want, r.out) {
		c.Failf("%s: what was written is not a prefix of the correct output: %s", what, diffAt(r.out, want))
	}
	c.Count([]string{outFull: "full-device", outBroken: "closed-pipe", outLimit: "size-limit"}[kind], 1)
	c.Eval(true, kind, limit, strings.Join(args, " "), hashOf(in))
}

func cliInvalid(c *C, dir string, k int) {
	file := filepath.Join(dir, "named")
	content := genPayload(c.Rand, 2000)
	os.WriteFile(file, content, 0o600)
	bad := [][]string{
		{"-C", "10"}, {"-C", "-1"}, {"-C", "fast"}, {"-F", "zip"}, {"-F", ""}, {"-F", "gz"}, {"-S", "best"}, {"-S", "huffman"}, {"-M", "10"}, {"-M", "-1"}, {"-M", "x"},
		{"-W", "7"}, {"-W", "16"}, {"-W", "32768"}, {"-W", "0x9"}, {"--nope"}, {"-Z"}, {"-1", "-9"}, {"-1", "-C", "5"}, {"-0", "-6"},
		{"--dictionary=@" + filepath.Join(dir, "missing")}, {"--dictionary=@" + dir},
		{"--last-modified=yesterday"}, {"--last-modified=2020-01-01"}, {"--last-modified=1950-01-01T00:00:00Z"}, {"--last-modified=2200-01-01T00:00:00Z"},
		{"--filename=a/b"}, {"--filename=a\\b"}, {"--filename=" + strings.Repeat("n", 300)}, {"--comment=" + strings.Repeat("n", 300)},
		{"--cpu-profile=" + filepath.Join(dir, "no", "such")}, {"--format"}, {"-W"},
		{"-d", "-C", "11"}, {"-d", "-F", "bz2"}, {"-d", "-W", "4"}, {"-d", "--dictionary=@" + filepath.Join(dir, "missing")},
	}
	data := genPayload(c.Rand, 3000)
	switch {
	case k%10 == 0: // nothing can be read
		args := cliFlags(c, dir, Cfg{Lvl: -1}, c.P(1, 2))
		r := cli(c, dir, inDir, nil, outPipe, 0, args...)
		if r.status == 0 {
			c.Failf("unreadable input: %s", r)
		}
		c.Count("unreadable-input", 1)
		c.Eval(true, "dir", strings.Join(args, " "))
		return
	case k%10 == 5: // the named file must not be ignored silently
		dec := c.P(1, 3)
		if dec {
			content = compress(c, Cfg{Fmt: flate.GZIPFormat}, content, []Op{{K: 'W', N: len(content)}})
			os.WriteFile(file, content, 0o600)
			data = compress(c, Cfg{Fmt: flate.GZIPFormat}, data, []Op{{K: 'W', N: len(data)}})
		}
		var args []string
		if dec {
			args = append(args, c.pickStr("-d", "--decompress"))
		}
		toOut := c.P(2, 3)
		if toOut {
			args = append(args, c.pickStr("-c", "--stdout"))
		}
		for _, f := range []string{"-f", "-k", "-D"} {
			if c.P(1, 3) {
				args = append(args, f)
			}
		}
		keep := toOut
		for _, a := range args {
			keep = keep || a == "-k"
		}
		if !keep {
			args = append(args, "--keep")
		}
		args = append(args, c.pickStr(file, file, "./"+filepath.Base(file)))
		r := cli(c, dir, inFile, data, outPipe, 0, args...)
		if r.status == 0 {
			// Named files may become supported; standard input is not then
			// what is worked on.
			out := r.out
			if !toOut {
				if len(out) != 0 {
					c.Failf("file argument ignored: %s", r)
				}
			} else if dec {
				if want := RefDecode(content, RefOpt{Format: RGzip}).Out; !bytes.Equal(out, want) {
					c.Failf("file argument ignored: %s", r)
				}
			} else if res := RefDecode(out, RefOpt{Format: RGzip}); res.Err != 0 || !bytes.Equal(res.Out, content) {
				c.Failf("file argument ignored: %s", r)
			}
		} else if len(r.errs) == 0 {
			c.Failf("file argument refused without a message: %s", r)
		}
		left, err := os.ReadFile(file)
		if err != nil || !bytes.Equal(left, content) {
			c.Failf("the named file was changed: %s", r)
		}
		c.Count("file-argument", 1)
		return
	}
	b := bad[(k*7+c.N(3))%len(bad)]
	args := append([]string(nil), b...)
	if c.P(1, 3) {
		args = append([]string{"-c"}, args...)
	}
	r := cli(c, dir, c.Pick(inFile, inPipe), data, outPipe, 0, args...)
	if r.status == 0 {
		c.Failf("invalid options accepted: %s", r)
	}
	if len(r.out) != 0 {
		c.Failf("invalid options, yet %d bytes went to standard output: %s", len(r.out), r)
	}
	if len(r.errs) == 0 {
		c.Failf("invalid options refused without a message: %s", r)
	}
	c.Count("invalid-options", 1)
	c.Eval(true, strings.Join(args, " "))
}

// cliMisc: what surrounds the filter.
func cliMisc(c *C, dir string, k int) {
	data := genPayload(c.Rand, 50000)
	comp := compress(c, Cfg{Fmt: flate.GZIPFormat, Lvl: flate.CompressLevel(c.N(10))}, data, []Op{{K: 'W', N: len(data)}})
	dec := c.P(1, 2)
	in, base := data, []string{}
	if dec {
		in, base = comp, []string{"-d"}
	}
	// judge checks a run that must have worked
	judge := func(r cliRun) {
		if r.status != 0 {
			c.Failf("%s: failed", r)
		}
		out := r.out
		if !dec {
			out = refVerify(c, r.String(), r.out, RefOpt{Format: RGzip}, data).Out
		}
		if !bytes.Equal(out, data) {
			c.Failf("%s: %s", r, diffAt(out, data))
		}
	}
	inKind := c.Pick(inFile, inPipe)
	switch k % 8 {
	case 0: // asks for the version: that and nothing else
		args := append(base, c.pickStr("-V", "--version"))
		r := cli(c, dir, inKind, in, outPipe, 0, args...)
		if r.status != 0 || len(bytes.TrimSpace(r.out)) == 0 || bytes.Count(r.out, []byte("\n")) != 1 || len(r.out) > 200 {
			c.Failf("version: %s: %q", r, head(string(r.out), 300))
		}
		c.Count("version", 1)
		c.Eval(true, strings.Join(args, " "), hashOf(in))
	case 1: // profiles go to their files
		cpu, mem := filepath.Join(dir, "cpu.prof"), filepath.Join(dir, "mem.prof")
		args := append(base, "--cpu-profile="+cpu, "--mem-profile", mem)
		judge(cli(c, dir, inKind, in, c.Pick(outPipe, outFile), 0, args...))
		for _, f := range []string{cpu, mem} {
			b, err := os.ReadFile(f)
			if err != nil || len(b) < 10 || b[0] != 0x1f || b[1] != 0x8b {
				c.Failf("gzip %q succeeded but %s is not a profile: %v, %d bytes", args, f, err, len(b))
			}
		}
		c.Count("profile-written", 1)
		c.Eval(true, strings.Join(base, " "), "prof", hashOf(in))
	case 2: // a profile that cannot be written
		arg := c.pickStr("--cpu-profile="+filepath.Join(dir, "no", "such"), "--mem-profile="+filepath.Join(dir, "no", "such"), "--mem-profile=/dev/full")
		r := cli(c, dir, inKind, in, c.Pick(outPipe, outFile), 0, append(base, arg)...)
		if r.status == 0 || len(r.errs) == 0 {
			c.Failf("the profile was not written: %s", r)
		}
		c.Count("profile-unwritable", 1)
		c.Eval(true, arg, strings.Join(base, " "), hashOf(in))
	case 3: // -L: JSON, one event per line, on standard error only
		args := append(base, c.pickStr("-L", "--log-stderr"), c.pickStr("-D", "-v", "--debug", "--verbose"))
		r := cli(c, dir, inKind, in, c.Pick(outPipe, outFile), 0, args...)
		judge(r)
		for _, l := range bytes.Split(bytes.TrimSpace(r.errs), []byte("\n")) {
			if len(l) > 0 && !json.Valid(l) {
				c.Failf("%s: line on standard error is not JSON: %q", gzipArgs(args), head(string(l), 300))
			}
		}
		c.Count("json-log", 1)
		c.Count("json-lines", bytes.Count(r.errs, []byte("\n")))
		c.Eval(true, strings.Join(args, " "), hashOf(in))
	case 4: // messages that cannot be written do not harm the data
		args := append(base, "-D")
		r := cliErr(c, dir, inKind, in, c.Pick(outPipe, outFile), 0, "/dev/full", args...)
		judge(r)
		c.Count("full-stderr", 1)
		c.Eval(true, strings.Join(args, " "), "full", hashOf(in))
	case 5: // "-" names standard input
		args := append(base, "-c", "-")
		r := cli(c, dir, inKind, in, c.Pick(outPipe, outFile), 0, args...)
		if r.status != 0 && len(r.out) == 0 && len(r.errs) != 0 {
			return // refused
		}
		judge(r)
		c.Count("dash", 1)
		c.Eval(true, strings.Join(args, " "), hashOf(in))
	case 6: // several MiB
		data = nil
		for len(data) < 3<<20 {
			data = append(data, genData(c.Rand, c.Pick(0, 2, 3, 5, 7, 11, 12, 13), c.In(1, 300000))...)
		}
		dec = false
		lvl := fmt.Sprintf("-%d", c.N(10))
		r := cli(c, dir, inKind, data, c.Pick(outPipe, outFile, outSlow), 0, lvl)
		judge(r)
		dec = true
		judge(cli(c, dir, inPipe, r.out, c.Pick(outPipe, outFile, outSlow), 0, "-d"))
		c.Count("large", 1)
		c.Eval(true, lvl, hashOf(data))
	default: // a consumer that dawdles
		data = genPayload(c.Rand, 400000)
		in = data
		if dec {
			in = stdEncode(c.Rand, RGzip, data, nil)
		}
		judge(cli(c, dir, c.Pick(inFile, inSlow), in, outSlow, 0, base...))
		c.Count("slow-consumer", 1)
		c.Eval(true, strings.Join(base, " "), "slow", hashOf(data))
	}
}

func gzipArgs(args []string) string { return fmt.Sprintf("gzip %q", args) }

func cliDictMismatch(c *C, dir string) {
	cfg := cliCfg(c)
	cfg.Fmt = flate.Format(c.Pick(int(flate.ZlibFormat), int(flate.ZlibFormat), int(flate.GZIPFormat)))
	cfg.Dict = genDict(c.Rand)
	for len(cfg.Dict) < 8 {
		cfg.Dict = append(cfg.Dict, c.Bytes(8)...)
	}
	data := dictPayload(c, cfg.Dict, 20000)
	args := cliFlags(c, dir, cfg, true)
	r := cli(c, dir, inFile, data, outFile, 0, args...)
	if r.status != 0 {
		c.Failf("%s", r)
	}
	ref := refVerify(c, r.String(), r.out, RefOpt{Format: cfg.RefFmt(), Dict: cfg.Dict}, data)
	_ = ref
	d := Cfg{Fmt: cfg.Fmt, Lvl: -1}
	if c.P(1, 2) {
		d.Fmt = flate.DefaultFormat
	}
	switch c.N(3) {
	case 0:
	case 1:
		d.Dict = append([]byte(nil), cfg.Dict...)
		d.Dict[c.N(len(d.Dict))] ^= byte(c.In(1, 255))
	case 2:
		d.Dict = append([]byte(nil), cfg.Dict...)
	}
	same := d.Dict != nil && bytes.Equal(d.Dict, cfg.Dict)
	dargs := cliFlags(c, dir, d, false)
	back := cli(c, dir, inFile, r.out, outPipe, 0, dargs...)
	judge := RefDecode(r.out, RCfg{Fmt: refFmtR(d.Fmt), Dict: d.Dict}.Ref())
	c.Eval(true, strings.Join(args, " "), strings.Join(dargs, " "), hashOf(data))
	if same {
		if back.status != 0 || !bytes.Equal(back.out, data) {
			c.Failf("dictionary round trip: %s: %s", back, diffAt(back.out, data))
		}
		return
	}
	c.Count("wrong-dict", 1)
	if cfg.Fmt == flate.ZlibFormat {
		if back.status == 0 || len(back.out) != 0 {
			c.Failf("another dictionary was accepted: %s", back)
		}
		return
	}
	if judge.Err != 0 && !judge.Lenient && back.status == 0 {
		c.Failf("wrong dictionary: %s, reference: %s", back, judge.Msg)
	}
	if judge.Err == 0 && (back.status != 0 || !bytes.Equal(back.out, judge.Out)) {
		c.Failf("unused dictionary: %s, reference accepts", back)
	}
}

func refFmtR(f flate.Format) RefFormat {
	if f == flate.DefaultFormat {
		return RAuto
	}
	return refFmt(f)
}
