package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"strings"

	"github.com/chronos-tachyon/flate"
)

func init() {
	register(&Prop{
		ID: "C24", N: tierN(12000, 80000), Run: runC24,
		Rule: "the first cases sweep all 256 values of every configuration type exhaustively (validity, text, Go text, JSON, parse, acceptance by the option constructor); then texts derived by mutation from valid ones are parsed against an independent grammar; random Checksum32/SizeList/Event values go through JSON; and option histories (construct, use, Reset with partial options, caller mutates everything it passed or got back) run against a model of the settings and, for dictionaries and tracers, against what the streams then contain. evaluations = judged values or settings; non-trivial: not the zero value; distinct by value",
		Need: []string{"enum-values", "parse-valid", "parse-invalid", "option-refused", "checksum-json", "sizelist-json", "event-json", "writer-history", "reader-history", "reset-merge", "mutated-dict", "mutated-tracers", "behaviour-after-mutation", "removed-dict", "removed-tracers", "second-instance"},
	})
}

// enumRow is one valid constant: its number, text, Go text and JSON form, as
// documented by the package.
type enumRow struct {
	v              int
	text, gotext   string
	js             string
	extra, extraGo []string // further accepted texts
}

type enumType struct {
	name   string
	lo, hi int // representable numbers
	rows   []enumRow
	mk     func(v int) interface{}
	valid  func(v int) bool
	parse  func(s string) (interface{}, error) // nil: not parseable
	option func(v int) flate.Option            // nil: no option
}

func names(js bool, pairs ...string) []enumRow {
	var out []enumRow
	for i := 0; i+1 < len(pairs); i += 2 {
		out = append(out, enumRow{v: i / 2, gotext: pairs[i], text: pairs[i+1], js: fmt.Sprintf("%q", pairs[i+1])})
	}
	if js { // JSON form uses the Go name
		for i := range out {
			out[i].js = fmt.Sprintf("%q", out[i].gotext)
		}
	}
	return out
}

func numRows(def int, defText, defGo, goFmt string, lo, hi int) []enumRow {
	out := []enumRow{{v: def, text: defText, gotext: defGo, js: fmt.Sprint(def)}}
	for v := lo; v <= hi; v++ {
		if v != def {
			out = append(out, enumRow{v: v, text: fmt.Sprint(v), gotext: fmt.Sprintf(goFmt, v), js: fmt.Sprint(v)})
		}
	}
	return out
}

func enumTypes() []enumType {
	fm := names(false, "DefaultFormat", "auto", "RawFormat", "raw", "ZlibFormat", "zlib", "GZIPFormat", "gzip")
	fm[0].extra = []string{"default"}
	cl := numRows(-1, "default", "DefaultCompression", "CompressLevel(%d)", 0, 9)
	for i := range cl {
		if cl[i].v == 0 {
			cl[i].text = "none"
			cl[i].extra = []string{"0"}
		}
	}
	ml := numRows(0, "default", "DefaultMemory", "MemoryLevel(%d)", 1, 9)
	ml[0].extra = []string{"0"}
	return []enumType{
		{"Format", 0, 255, fm,
			func(v int) interface{} { return flate.Format(v) }, func(v int) bool { return flate.Format(v).IsValid() },
			func(s string) (interface{}, error) { var x flate.Format = 3; e := x.Parse(s); return x, e },
			func(v int) flate.Option { return flate.WithFormat(flate.Format(v)) }},
		{"Strategy", 0, 255, names(false, "DefaultStrategy", "default", "HuffmanOnlyStrategy", "huffman-only", "HuffmanRLEStrategy", "huffman-rle", "FixedStrategy", "fixed"),
			func(v int) interface{} { return flate.Strategy(v) }, func(v int) bool { return flate.Strategy(v).IsValid() },
			func(s string) (interface{}, error) { var x flate.Strategy = 3; e := x.Parse(s); return x, e },
			func(v int) flate.Option { return flate.WithStrategy(flate.Strategy(v)) }},
		{"CompressLevel", -128, 127, cl,
			func(v int) interface{} { return flate.CompressLevel(v) }, func(v int) bool { return flate.CompressLevel(v).IsValid() },
			func(s string) (interface{}, error) { var x flate.CompressLevel = 3; e := x.Parse(s); return x, e },
			func(v int) flate.Option { return flate.WithCompressLevel(flate.CompressLevel(v)) }},
		{"MemoryLevel", 0, 255, ml,
			func(v int) interface{} { return flate.MemoryLevel(v) }, func(v int) bool { return flate.MemoryLevel(v).IsValid() },
			func(s string) (interface{}, error) { var x flate.MemoryLevel = 3; e := x.Parse(s); return x, e },
			func(v int) flate.Option { return flate.WithMemoryLevel(flate.MemoryLevel(v)) }},
		{"WindowBits", 0, 255, numRows(0, "default", "DefaultWindowBits", "WindowBits(%d)", 8, 15),
			func(v int) interface{} { return flate.WindowBits(v) }, func(v int) bool { return flate.WindowBits(v).IsValid() },
			func(s string) (interface{}, error) { var x flate.WindowBits = 9; e := x.Parse(s); return x, e },
			func(v int) flate.Option { return flate.WithWindowBits(flate.WindowBits(v)) }},
		{"Method", 0, 255, names(false, "DeflateMethod", "deflate"),
			func(v int) interface{} { return flate.Method(v) }, func(v int) bool { return flate.Method(v).IsValid() },
			nil,
			func(v int) flate.Option { return flate.WithMethod(flate.Method(v)) }},
		{"FlushType", 0, 255, names(false, "BlockFlush", "block", "PartialFlush", "partial", "SyncFlush", "sync", "FullFlush", "full", "FinishFlush", "finish"),
			func(v int) interface{} { return flate.FlushType(v) }, func(v int) bool { return flate.FlushType(v).IsValid() }, nil, nil},
		{"DataType", 0, 255, names(false, "UnknownData", "unknown", "BinaryData", "binary", "TextData", "text"),
			func(v int) interface{} { return flate.DataType(v) }, func(v int) bool { return flate.DataType(v).IsValid() }, nil, nil},
		{"OSType", 0, 255, names(true, "OSTypeUnknown", "unknown", "OSTypeFAT", "FAT filesystem", "OSTypeAmiga", "Amiga", "OSTypeVMS", "VMS", "OSTypeUnix", "Unix", "OSTypeVMCMS", "VM/CMS", "OSTypeAtariTOS", "Atari TOS", "OSTypeHPFS", "HPFS filesystem", "OSTypeMacintosh", "Macintosh", "OSTypeZSystem", "Z-System", "OSTypeCPM", "CP/M", "OSTypeTOPS20", "TOPS-20", "OSTypeNTFS", "NTFS filesystem", "OSTypeQDOS", "QDOS", "OSTypeAcornRISCOS", "Acorn RISCOS"),
			func(v int) interface{} { return flate.OSType(v) }, func(v int) bool { return flate.OSType(v).IsValid() }, nil, nil},
		{"BlockType", 0, 255, names(false, "InvalidBlock", "invalid", "StoredBlock", "stored", "StaticBlock", "static", "DynamicBlock", "dynamic"),
			func(v int) interface{} { return flate.BlockType(v) }, nil, nil, nil},
		{"EventType", 0, 255, names(false, "StreamBeginEvent", "stream-begin", "StreamHeaderEvent", "stream-header", "BlockBeginEvent", "block-begin", "BlockTreesEvent", "block-trees", "BlockEndEvent", "block-end", "StreamEndEvent", "stream-end", "StreamCloseEvent", "stream-close"),
			func(v int) interface{} { return flate.EventType(v) }, nil, nil, nil},
	}
}

func (t *enumType) row(v int) *enumRow {
	for i := range t.rows {
		if t.rows[i].v == v {
			return &t.rows[i]
		}
	}
	return nil
}

func (t *enumType) byText(s string) *enumRow {
	for i := range t.rows {
		r := &t.rows[i]
		if strings.EqualFold(s, r.text) {
			return r
		}
		for _, x := range r.extra {
			if strings.EqualFold(s, x) {
				return r
			}
		}
	}
	return nil
}

func (t *enumType) byGoText(s string) *enumRow {
	for i := range t.rows {
		if strings.EqualFold(s, t.rows[i].gotext) {
			return &t.rows[i]
		}
	}
	return nil
}

func runC24(c *C, i int) {
	ts := enumTypes()
	if i < len(ts) {
		c24Sweep(c, &ts[i])
		return
	}
	switch i % 5 {
	case 0:
		c24Parse(c, &ts[c.N(5)])
	case 1:
		c24JSON(c)
	case 2, 3:
		c24Writer(c)
	default:
		c24Reader(c)
	}
}

func c24Sweep(c *C, t *enumType) {
	seenText, seenJS := map[string]int{}, map[string]int{}
	for v := t.lo; v <= t.hi; v++ {
		r := t.row(v)
		c.Count("enum-values", 1)
		c.Eval(true, t.name, v)
		if t.valid != nil {
			if g := t.valid(v); g != (r != nil) {
				c.Failf("%s(%d).IsValid() = %v", t.name, v, g)
			}
		}
		if t.option != nil {
			msg := Catch(func() { t.option(v) })
			if (msg == "") != (r != nil) {
				c.Failf("option constructor with %s(%d): panic %q", t.name, v, msg)
			}
			if r == nil {
				c.Count("option-refused", 1)
			}
		}
		if r == nil {
			continue
		}
		x := t.mk(v)
		for k := 0; k < 2; k++ {
			if s := x.(fmt.Stringer).String(); s != r.text {
				c.Failf("%s(%d).String() = %q, want %q", t.name, v, s, r.text)
			}
			if s := fmt.Sprintf("%#v", x); s != r.gotext {
				c.Failf("%s(%d).GoString() = %q, want %q", t.name, v, s, r.gotext)
			}
			js, err := json.Marshal(x)
			if err != nil || string(js) != r.js {
				c.Failf("%s(%d) as JSON: %s, %v; want %s", t.name, v, js, err, r.js)
			}
		}
		if o, dup := seenText[r.text]; dup {
			c.Failf("%s(%d) and %s(%d) have the same text", t.name, v, t.name, o)
		}
		if o, dup := seenJS[r.js]; dup {
			c.Failf("%s(%d) and %s(%d) have the same JSON", t.name, v, t.name, o)
		}
		seenText[r.text], seenJS[r.js] = v, v
		if t.parse != nil {
			forms := append([]string{r.text, strings.ToUpper(r.text)}, r.extra...)
			for _, s := range forms {
				y, err := t.parse(s)
				if err != nil || y != x {
					c.Failf("%s.Parse(%q) = %v, %v; want %v", t.name, s, y, err, x)
				}
				c.Count("parse-valid", 1)
			}
		}
	}
	if t.option == nil {
		return
	}
	for _, bad := range []func(){
		func() { flate.WithDictionary([]byte{}) },
		func() { flate.WithTracers(nil) },
		func() { flate.WithTracers(flate.NoOpTracer{}, nil) },
		func() { flate.CaptureHeader(nil) },
	} {
		if Catch(bad) == "" {
			c.Failf("an invalid option value was not refused")
		}
		c.Count("option-refused", 1)
	}
	for _, good := range []func(){
		func() { flate.WithDictionary(nil) },
		func() { flate.WithDictionary([]byte{0}) },
		func() { flate.WithTracers() },
		func() { flate.WithTracers(flate.NoOpTracer{}) },
	} {
		if m := Catch(good); m != "" {
			c.Failf("a valid option value was refused: %s", m)
		}
	}
}

// c24Parse feeds texts near the valid ones to Parse.
func c24Parse(c *C, t *enumType) {
	for k := 0; k < 40; k++ {
		r := t.rows[c.N(len(t.rows))]
		s := r.text
		switch c.N(15) {
		case 14:
			s = strings.Repeat("0", c.In(1, 2)) + fmt.Sprint(c.Pick(1, 7, 8, 9, 10, 11, 12, 13, 14, 15))
		case 0:
			s = s + c.pickStr("x", " ", "\n", "\x00", "0", "-")
		case 1:
			s = c.pickStr(" ", "-", "+", "0x", "\t", "x") + s
		case 2:
			if len(s) > 0 {
				s = s[:c.N(len(s))]
			}
		case 3:
			s = ""
		case 4:
			b := []byte(s)
			b[c.N(len(b))] = byte(c.In(33, 126))
			s = string(b)
		case 5:
			s = fmt.Sprint(c.Pick(-2, -1, 0, 1, 2, 3, 7, 8, 9, 10, 15, 16, 17, 255, 256, 257, 264, 265, 271, 65536+8, -248, 1<<30))
		case 6:
			s = c.pickStr("18446744073709551624", "99999999999999999999999", "4294967304", "8.0", "8e0", "0b1000", "1_0", "٨", "nil", "null", "true", "autos", "aut", "rawFormat ", "Default Strategy", "none ", "nonE", "deFault", "DEFAULTFORMAT", "gZipFormat", "huffman_only", "huffman only")
		case 7:
			s = strings.ToUpper(s)
		case 8:
			s = r.gotext
		case 9:
			o := enumTypes()[c.N(5)]
			s = o.rows[c.N(len(o.rows))].text
		case 10:
			s = strings.Title(s)
		case 11:
			s = string(c.Bytes(c.N(6)))
		case 12:
			if len(r.extra) > 0 {
				s = r.extra[0]
			}
		}
		y, err := t.parse(s)
		want := t.byText(s)
		num := strings.TrimLeft(s, "0")
		if want == nil && num != s && t.byText(num) != nil {
			// leading zeros: either is fine, but it is a decimal number
			if err == nil && y != t.mk(t.byText(num).v) {
				c.Failf("%s.Parse(%q) accepted it as %v", t.name, s, y)
			}
			continue
		}
		if want == nil && len(s) > 1 && num == "" || strings.HasPrefix(s, "+") || !isASCII(s) {
			continue // zeros or a sign: either is fine
		}
		c.Eval(true, t.name, s)
		if want == nil {
			c.Count("parse-invalid", 1)
			if g := t.byGoText(s); g != nil && (err != nil || y == t.mk(g.v)) {
				continue // the Go name may be understood, too
			}
			if err == nil {
				c.Failf("%s.Parse(%q) accepted it as %v", t.name, s, y)
			}
			if err.Error() == "" {
				c.Failf("%s.Parse(%q): empty error", t.name, s)
			}
			continue
		}
		c.Count("parse-valid", 1)
		if err != nil || y != t.mk(want.v) {
			c.Failf("%s.Parse(%q) = %v, %v; want %v", t.name, s, y, err, t.mk(want.v))
		}
	}
}

func isASCII(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] >= 0x80 {
			return false
		}
	}
	return true
}

func (r *Rand) pickStr(xs ...string) string { return xs[r.N(len(xs))] }

func c24JSON(c *C) {
	for k := 0; k < 60; k++ {
		v := uint32(c.U64()) >> uint(c.N(33)%32)
		if c.P(1, 20) {
			v = 0
		}
		cs := flate.Checksum32(v)
		js, err := json.Marshal(cs)
		if err != nil || !json.Valid(js) {
			c.Failf("Checksum32(%08x) as JSON: %s %v", v, js, err)
		}
		back := flate.Checksum32(^v)
		if err := json.Unmarshal(js, &back); err != nil || back != cs {
			c.Failf("Checksum32(%08x) as JSON is %s, which reads back as %08x, %v", v, js, uint32(back), err)
		}
		js2, _ := json.Marshal(cs)
		if !bytes.Equal(js, js2) {
			c.Failf("JSON of Checksum32 is not stable")
		}
		var x uint32
		if n, err := fmt.Sscanf(cs.String(), "0x%x", &x); n != 1 || err != nil || x != v {
			c.Failf("Checksum32(%08x) prints %q", v, cs.String())
		}
		c.Count("checksum-json", 1)
		c.Eval(v != 0, "ck", v)
		// malformed texts are refused
		bad := c.pickStr(`"0x"`, `""`, `"0x100000000"`, `"xyz"`, `"-1"`, `"0x12 "`, `null1`, `"0x-5"`, `12`, `{}`, `"0x1234567g"`, `"123456789"`, `true`, `"0x0x12"`, `" 12"`, `"0x1_2"`)
		back = 77
		if err := json.Unmarshal([]byte(bad), &back); err == nil {
			c.Failf("JSON %s was accepted as checksum %08x", bad, uint32(back))
		}
	}
	// code lengths
	sl := make(flate.SizeList, c.N(300))
	for i := range sl {
		sl[i] = byte(c.N(16))
		if c.P(1, 30) {
			sl[i] = byte(c.N(256))
		}
	}
	js, err := json.Marshal(sl)
	var arr []int
	if err != nil || json.Unmarshal(js, &arr) != nil || len(arr) != len(sl) {
		c.Failf("SizeList as JSON: %s %v", head(string(js), 200), err)
	}
	for i := range arr {
		if arr[i] != int(sl[i]) {
			c.Failf("SizeList[%d] = %d became %d in JSON", i, sl[i], arr[i])
		}
	}
	if js, err := json.Marshal(flate.SizeList(nil)); err != nil || !json.Valid(js) {
		c.Failf("nil SizeList as JSON: %s %v", js, err)
	}
	c.Count("sizelist-json", 1)
	// whole events, as the Log tracer prints them
	data := genPayload(c.Rand, 3000)
	ev := evLog{keep: true}
	cfg := genCfg(c.Rand)
	fw := flate.NewWriter(NewSink(), append(cfg.Opts(), flate.WithTracers(&ev))...)
	if cfg.Fmt == flate.GZIPFormat {
		_ = fw.SetHeader(randHeader(c))
	}
	doWrite(c, fw, data)
	if err := fw.Close(); err != nil {
		c.Failf("Close: %v", err)
	}
	for _, e := range ev.evs {
		js, err := json.Marshal(e)
		if err != nil {
			c.Failf("event %s as JSON: %v", evText(e), err)
		}
		var m struct {
			Type              string
			InputBytesTotal   uint64
			OutputBytesStream uint64
			Format            string
			Block             *struct {
				Type    string
				IsFinal bool
			}
			Trees  *struct{ LiteralLengthSizes []int }
			Footer *struct{ Adler32, CRC32 flate.Checksum32 }
			Header *struct{ FileName, DataType, OSType string }
		}
		if err := json.Unmarshal(js, &m); err != nil {
			c.Failf("event JSON %s: %v", head(string(js), 300), err)
		}
		ok := m.Type == e.Type.String() && m.Format == e.Format.String() && m.InputBytesTotal == e.InputBytesTotal && m.OutputBytesStream == e.OutputBytesStream &&
			(m.Block != nil) == (e.Block != nil) && (m.Trees != nil) == (e.Trees != nil) && (m.Footer != nil) == (e.Footer != nil) && (m.Header != nil) == (e.Header != nil)
		if ok && m.Block != nil {
			ok = m.Block.Type == e.Block.Type.String() && m.Block.IsFinal == e.Block.IsFinal
		}
		if ok && m.Footer != nil {
			ok = m.Footer.Adler32 == e.Footer.Adler32 && m.Footer.CRC32 == e.Footer.CRC32
		}
		if ok && m.Trees != nil {
			ok = len(m.Trees.LiteralLengthSizes) == len(e.Trees.LiteralLengthSizes)
		}
		if ok && m.Header != nil {
			ok = m.Header.DataType == e.Header.DataType.String() && m.Header.OSType == e.Header.OSType.GoString()
		}
		if !ok {
			c.Failf("event JSON %s does not match the event %s", head(string(js), 500), evText(e))
		}
		c.Count("event-json", 1)
	}
}

// settings is the model of what the options amount to.
type settings struct {
	cfg     Cfg
	tracers []flate.Tracer
}

type counter struct {
	n  int
	id int
}

func (t *counter) OnEvent(e flate.Event) { t.n++ }

// c24Opts draws options, applies them to the model, and returns the caller's
// own slices so that they can be overwritten later.
func c24Opts(c *C, m *settings, all *[]*counter) (opts []flate.Option, vandalise func()) {
	n := genCfg(c.Rand)
	if c.P(1, 2) && n.Dict == nil {
		n.Dict = genDict(c.Rand)
	}
	var dicts [][]byte
	var lists [][]flate.Tracer
	k := c.In(1, 9)
	if c.P(1, 8) {
		k = 0
	}
	for ; k > 0; k-- {
		if c.P(1, 3) {
			n = genCfg(c.Rand)
		}
		switch c.N(9) {
		case 0:
			opts = append(opts, flate.WithFormat(n.Fmt))
			m.cfg.Fmt = n.Fmt
		case 1:
			opts = append(opts, flate.WithStrategy(n.Strat))
			m.cfg.Strat = n.Strat
		case 2:
			opts = append(opts, flate.WithCompressLevel(n.Lvl))
			m.cfg.Lvl = n.Lvl
		case 3:
			opts = append(opts, flate.WithMemoryLevel(n.Mem))
			m.cfg.Mem = n.Mem
		case 4:
			opts = append(opts, flate.WithWindowBits(n.WB))
			m.cfg.WB = n.WB
		case 5, 6:
			if n.Dict == nil || c.P(1, 4) {
				opts = append(opts, flate.WithDictionary(nil))
				if m.cfg.Dict != nil {
					c.Count("removed-dict", 1)
				}
				m.cfg.Dict = nil
				break
			}
			d := append([]byte(nil), n.Dict...)
			dicts = append(dicts, d)
			opts = append(opts, flate.WithDictionary(d))
			m.cfg.Dict = append([]byte(nil), d...)
			if c.P(1, 2) { // the caller reuses its slice before the option is used
				scribble(d)
				c.Count("mutated-dict", 1)
			}
		case 7:
			var l []flate.Tracer
			for j := c.Pick(0, 1, 2, 3, 3, 4, 5, 9); j > 0; j-- {
				t := &counter{id: len(*all)}
				*all = append(*all, t)
				l = append(l, t)
			}
			lists = append(lists, l)
			opts = append(opts, flate.WithTracers(l...))
			if len(l) == 0 && len(m.tracers) > 0 {
				c.Count("removed-tracers", 1)
			}
			m.tracers = append([]flate.Tracer(nil), l...)
			if c.P(1, 2) && len(l) > 0 {
				l[c.N(len(l))] = flate.NoOpTracer{}
				c.Count("mutated-tracers", 1)
			}
		case 8:
			opts = append(opts, flate.WithMethod(flate.DeflateMethod))
		}
	}
	return opts, func() {
		for _, d := range dicts {
			scribble(d)
			c.Count("mutated-dict", 1)
		}
		for _, l := range lists {
			for i := range l {
				l[i] = flate.NoOpTracer{}
				c.Count("mutated-tracers", 1)
			}
		}
	}
}

func scribble(b []byte) {
	for i := range b {
		b[i] ^= 0x5a
	}
}

func resolve(cfg Cfg, writer bool) Cfg {
	if cfg.Mem == flate.DefaultMemory {
		cfg.Mem = flate.FastestMemory
	}
	if cfg.WB == flate.DefaultWindowBits {
		cfg.WB = flate.MaxWindowBits
	}
	if writer {
		if cfg.Fmt == flate.DefaultFormat {
			cfg.Fmt = flate.ZlibFormat
		}
		if cfg.Lvl == flate.DefaultCompression {
			cfg.Lvl = 6
		}
	}
	return cfg
}

func sameTracers(a, b []flate.Tracer) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

type acc interface {
	Format() flate.Format
	MemoryLevel() flate.MemoryLevel
	WindowBits() flate.WindowBits
	Dict() []byte
	Tracers() []flate.Tracer
}

func c24Check(c *C, what string, a acc, m *settings, writer bool) {
	want := resolve(m.cfg, writer)
	if a.Format() != want.Fmt || a.MemoryLevel() != want.Mem || a.WindowBits() != want.WB {
		c.Failf("%s: accessors report %v/%v/%v, want %v/%v/%v", what, a.Format(), a.MemoryLevel(), a.WindowBits(), want.Fmt, want.Mem, want.WB)
	}
	if fw, ok := a.(*flate.Writer); ok {
		if fw.Strategy() != want.Strat || fw.CompressLevel() != want.Lvl || fw.Method() != flate.DeflateMethod {
			c.Failf("%s: accessors report %v/%v/%v, want %v/%v", what, fw.Strategy(), fw.CompressLevel(), fw.Method(), want.Strat, want.Lvl)
		}
	}
	for k := 0; k < 2; k++ {
		d := a.Dict()
		if !bytes.Equal(d, want.Dict) || (d == nil) != (want.Dict == nil) {
			c.Failf("%s: Dict() differs from the dictionary given: %s", what, diffAt(d, want.Dict))
		}
		scribble(d) // ours: must not matter
		t := a.Tracers()
		if !sameTracers(t, m.tracers) {
			c.Failf("%s: Tracers() returns %d tracers, %d were given (or others)", what, len(t), len(m.tracers))
		}
		for i := range t {
			t[i] = flate.NoOpTracer{}
		}
	}
	c.Eval(true, want.String(), len(m.tracers), writer)
}

func c24Writer(c *C) {
	var all []*counter
	m := &settings{cfg: Cfg{Fmt: flate.DefaultFormat, Lvl: flate.DefaultCompression}}
	opts, vand := c24Opts(c, m, &all)
	sink := NewSink()
	fw := flate.NewWriter(sink, opts...)
	if c.P(1, 2) {
		vand()
	}
	// the same options serve a second, independent Writer
	sink2 := NewSink()
	other := flate.NewWriter(sink2, opts...)
	mo := *m
	c.Count("writer-history", 1)
	for round := c.In(1, 5); ; round-- {
		what := fmt.Sprintf("Writer, model %v, %d tracers", m.cfg, len(m.tracers))
		c24Check(c, what, fw, m, true)
		vand()
		c24Check(c, what+" after the caller overwrote its slices", fw, m, true)
		if fw.UnderlyingWriter() != io.Writer(sink) {
			c.Failf("%s: UnderlyingWriter() is not the writer given", what)
		}
		data := dictPayload(c, m.cfg.Dict, 3000)
		before := make([]int, len(all))
		for i, t := range all {
			before[i] = t.n
		}
		doWrite(c, fw, data)
		c24Check(c, what+" in mid-stream", fw, m, true)
		if err := fw.Close(); err != nil {
			c.Failf("%s: Close: %v", what, err)
		}
		c24Check(c, what+" after Close", fw, m, true)
		want := resolve(m.cfg, true)
		refVerify(c, what, sink.Bytes(), RefOpt{Format: want.RefFmt(), WBits: int(want.WB), Dict: want.Dict}, data)
		c24Events(c, what, m.tracers, all, before)
		c.Count("behaviour-after-mutation", 1)
		if round <= 1 {
			break
		}
		opts, vand = c24Opts(c, m, &all)
		if len(opts) > 0 {
			c.Count("reset-merge", 1)
		}
		sink = NewSink()
		fw.Reset(sink, opts...)
		if c.P(1, 2) {
			vand()
		}
	}
	what := "second Writer built from the same options"
	c24Check(c, what, other, &mo, true)
	before := make([]int, len(all))
	for i, t := range all {
		before[i] = t.n
	}
	data := dictPayload(c, mo.cfg.Dict, 3000)
	doWrite(c, other, data)
	if err := other.Close(); err != nil {
		c.Failf("%s: Close: %v", what, err)
	}
	want := resolve(mo.cfg, true)
	refVerify(c, what, sink2.Bytes(), RefOpt{Format: want.RefFmt(), WBits: int(want.WB), Dict: want.Dict}, data)
	c24Events(c, what, mo.tracers, all, before)
	c.Count("second-instance", 1)
}

// c24Events: exactly the installed tracers got events, and all equally many.
func c24Events(c *C, what string, inst []flate.Tracer, all []*counter, before []int) {
	n := -1
	for i, t := range all {
		on := 0
		for _, x := range inst {
			if x == flate.Tracer(t) {
				on++
			}
		}
		d := t.n - before[i]
		if on == 0 && d != 0 {
			c.Failf("%s: a tracer that is not installed got %d events", what, d)
		}
		if on > 0 {
			if d == 0 {
				c.Failf("%s: an installed tracer got no event", what)
			}
			if n >= 0 && d != n {
				c.Failf("%s: tracers got %d and %d events", what, n, d)
			}
			n = d
		}
	}
}

func c24Reader(c *C) {
	var all []*counter
	m := &settings{cfg: Cfg{Fmt: flate.DefaultFormat}}
	opts, vand := c24Opts(c, m, &all)
	c.Count("reader-history", 1)
	mk := func() (*Src, []byte) {
		want := resolve(m.cfg, false)
		wc := Cfg{Fmt: want.Fmt, WB: want.WB, Dict: want.Dict, Lvl: flate.CompressLevel(c.N(10)), Mem: flate.MemoryLevel(c.N(10))}
		if wc.Fmt == flate.DefaultFormat {
			wc.Fmt = flate.Format(c.Pick(int(flate.ZlibFormat), int(flate.GZIPFormat)))
		}
		data := dictPayload(c, m.cfg.Dict, 3000)
		comp := compress(c, wc, data, []Op{{K: 'W', N: len(data)}})
		return NewSrc(c.Rand, comp), data
	}
	src, data := mk()
	fr := flate.NewReader(src, opts...)
	// the same options serve a second, independent Reader
	src2, data2 := mk()
	other := flate.NewReader(src2, opts...)
	mo := *m
	if c.P(1, 2) {
		vand()
	}
	for round := c.In(1, 5); ; round-- {
		what := fmt.Sprintf("Reader, model %v, %d tracers", m.cfg, len(m.tracers))
		c24Check(c, what, fr, m, false)
		vand()
		c24Check(c, what+" after the caller overwrote its slices", fr, m, false)
		if fr.UnderlyingReader() != io.Reader(src) {
			c.Failf("%s: UnderlyingReader() is not the reader given", what)
		}
		before := make([]int, len(all))
		for i, t := range all {
			before[i] = t.n
		}
		got, err := readAll(c, fr, c.Rand)
		if errKind(err) != 0 || !bytes.Equal(got, data) {
			c.Failf("%s: %v, %s", what, err, diffAt(got, data))
		}
		if c.P(1, 2) {
			fr.Close()
		}
		c24Check(c, what+" after the stream", fr, m, false)
		c24Events(c, what, m.tracers, all, before)
		c.Count("behaviour-after-mutation", 1)
		if round <= 1 {
			break
		}
		opts, vand = c24Opts(c, m, &all)
		if len(opts) > 0 {
			c.Count("reset-merge", 1)
		}
		src, data = mk()
		fr.Reset(src, opts...)
	}
	what := "second Reader built from the same options"
	c24Check(c, what, other, &mo, false)
	before := make([]int, len(all))
	for i, t := range all {
		before[i] = t.n
	}
	got, err := readAll(c, other, c.Rand)
	if errKind(err) != 0 || !bytes.Equal(got, data2) {
		c.Failf("%s: %v, %s", what, err, diffAt(got, data2))
	}
	c24Events(c, what, mo.tracers, all, before)
	c.Count("second-instance", 1)
}
