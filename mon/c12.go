package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"hash/adler32"
	"math"
	"strings"
	"time"

	"github.com/chronos-tachyon/flate"
)

func init() {
	register(&Prop{
		ID: "C12", N: tierN(8000, 80000), Run: runC12,
		Rule: "case = a sequence of SetHeader calls (valid headers of all sizes up to the maxima, and unrepresentable ones) and streams written after them; the wire bytes are decoded by the reference and every field compared, then the Reader's and the Writer's header events; or a generated foreign gzip header read by the Reader. evaluations = headers judged; non-trivial: at least one field set; distinct by hash of the header",
		Need: []string{"gzip-set", "zlib", "foreign", "rejected", "max-name", "max-comment", "max-extra", "repeated-id", "detected-text", "detected-binary", "all-os", "mtime-extreme", "many-records"},
	})
	register(&Prop{
		ID: "C13", N: tierN(3600, 50000), Run: runC13,
		Rule: "case = (dictionary, configuration, payload related to the dictionary, history with several streams); compressed with the dictionary, decoded by the reference, by the Reader with the same dictionary, and by Readers with no, another or an unneeded one. evaluations = decodes judged; non-trivial: dictionary of at least 4 bytes; distinct by dictionary, configuration and payload",
		Need: []string{"same-dict", "wrong-dict", "no-dict", "unneeded-dict", "special-dict-id", "dict-exploited", "dict-matches", "zero-dict", "long-dict", "second-stream-dict-matches", "later-stream-other-dict", "all-formats-raw", "all-formats-zlib", "all-formats-gzip"},
	})
}

// RFC 1952 section 2.3.1
var gzOS = map[flate.OSType]byte{
	flate.OSTypeFAT: 0, flate.OSTypeAmiga: 1, flate.OSTypeVMS: 2, flate.OSTypeUnix: 3, flate.OSTypeVMCMS: 4,
	flate.OSTypeAtariTOS: 5, flate.OSTypeHPFS: 6, flate.OSTypeMacintosh: 7, flate.OSTypeZSystem: 8,
	flate.OSTypeCPM: 9, flate.OSTypeTOPS20: 10, flate.OSTypeNTFS: 11, flate.OSTypeQDOS: 12, flate.OSTypeAcornRISCOS: 13,
}

func osOf(b byte) flate.OSType {
	for o, x := range gzOS {
		if x == b {
			return o
		}
	}
	return flate.OSTypeUnknown
}

func randName(c *C, n int, sep bool) string {
	b := make([]byte, n)
	for i := range b {
		for {
			b[i] = byte(c.In(1, 255))
			if c.P(1, 2) {
				b[i] = byte(c.In('a', 'z'))
			}
			if sep || (b[i] != '/' && b[i] != '\\') {
				break
			}
		}
	}
	return string(b)
}

func randHeader(c *C) flate.Header {
	var h flate.Header
	if c.P(1, 2) {
		n := c.Pick(1, 2, 10, 100, 254, 255)
		h.FileName = randName(c, n, false)
		if n == 255 {
			c.Count("max-name", 1)
		}
	}
	if c.P(1, 2) {
		n := c.Pick(1, 2, 10, 100, 254, 255)
		h.Comment = randName(c, n, true)
		if n == 255 {
			c.Count("max-comment", 1)
		}
	}
	if c.P(1, 2) {
		s := int64(uint32(c.U64()))
		if c.P(1, 3) {
			s = []int64{1, 0x7fffffff, 0x80000000, math.MaxUint32 - 1}[c.N(4)]
			c.Count("mtime-extreme", 1)
		}
		if s == 0 || s == math.MaxUint32 {
			s = 5
		}
		h.LastModified = time.Unix(s, int64(c.N(1000000000)))
		if c.P(1, 3) {
			h.LastModified = h.LastModified.UTC()
		}
	}
	h.DataType = []flate.DataType{flate.UnknownData, flate.BinaryData, flate.TextData}[c.N(3)]
	h.OSType = flate.OSType(c.N(15))
	if c.P(1, 2) {
		left := 65535
		for k := c.Pick(1, 1, 2, 3, 10); k > 0; k-- {
			n := c.Pick(0, 1, 2, 17, 300)
			if c.P(1, 12) {
				n = left - 4
				c.Count("max-extra", 1)
			}
			if left < 4+n || left < 4 {
				break
			}
			left -= 4 + n
			rec := flate.ExtraDataRecord{ID: [2]byte{byte(c.N(256)), byte(c.N(256))}, Bytes: c.Bytes(n)}
			if n == 0 && c.P(1, 2) {
				rec.Bytes = nil
			}
			if k := len(h.ExtraData.Records); k > 0 && c.P(1, 4) {
				// IDs may repeat
				rec.ID = h.ExtraData.Records[c.N(k)].ID
				c.Count("repeated-id", 1)
			}
			h.ExtraData.Records = append(h.ExtraData.Records, rec)
		}
	}
	if c.P(1, 50) { // the most records there is room for, or many
		h.ExtraData.Records = nil
		for k := c.Pick(300, 1100, 5000, 16383, 16383); k > 0; k-- {
			h.ExtraData.Records = append(h.ExtraData.Records, flate.ExtraDataRecord{ID: [2]byte{byte(c.N(256)), byte(c.N(256))}})
		}
		c.Count("many-records", 1)
	}
	if c.P(1, 4) { // fields the Writer computes itself
		h.WindowBits = flate.WindowBits(c.In(8, 15))
		h.CompressLevel = flate.CompressLevel(c.In(0, 9))
	}
	return h
}

// badHeader returns a header that cannot be represented.
func badHeader(c *C) (flate.Header, string) {
	h := randHeader(c)
	switch c.N(12) {
	case 11:
		h.ExtraData.Records = make([]flate.ExtraDataRecord, c.Pick(16384, 16385, 20000, 1<<17))
		return h, "too many extra records"
	case 0:
		h.FileName = randName(c, c.N(20), false) + "\x00" + randName(c, c.N(20), false)
		return h, "NUL in name"
	case 1:
		h.Comment = randName(c, c.N(20), true) + "\x00" + randName(c, c.N(20), true)
		return h, "NUL in comment"
	case 2:
		h.FileName = randName(c, c.N(20), false) + "/" + randName(c, c.N(20), false)
		return h, "slash in name"
	case 3:
		h.FileName = randName(c, c.N(20), false) + "\\" + randName(c, c.N(20), false)
		return h, "backslash in name"
	case 4:
		h.FileName = randName(c, c.Pick(257, 300, 5000), false)
		return h, "long name"
	case 5:
		h.Comment = randName(c, c.Pick(257, 300, 70000), true)
		return h, "long comment"
	case 6:
		h.LastModified = time.Unix([]int64{-1, -1000, -62135596800 + 1}[c.N(3)], 0)
		return h, "time before 1970"
	case 7:
		h.LastModified = time.Unix(int64(1)<<32+int64(c.N(1000000)), 0)
		return h, "time after 2106"
	case 8:
		h.OSType = flate.OSType(c.Pick(15, 16, 100, 255))
		return h, "invalid OS"
	case 9:
		h.ExtraData.Records = []flate.ExtraDataRecord{{Bytes: make([]byte, c.Pick(65532, 65533, 65536, 70000, 131072))}}
		return h, "oversized extra record"
	default:
		h.ExtraData.Records = nil
		for k := 0; k < 3; k++ {
			h.ExtraData.Records = append(h.ExtraData.Records, flate.ExtraDataRecord{ID: [2]byte{byte(k)}, Bytes: make([]byte, 21843)})
		}
		h.ExtraData.Records[2].Bytes = make([]byte, c.Pick(21838, 21839, 30000))
		return h, "oversized extra data"
	}
}

// textish: first is the size of the first Write.
func textish(b []byte, first int) (all, firstBad bool) {
	all = true
	for i, ch := range b {
		if ch < 9 || ch > 13 && ch < 32 || ch == 127 {
			all = false
			if i < first && i < 128 {
				firstBad = true
			}
		}
	}
	return
}

func levelOf(cfg Cfg) int {
	if cfg.Lvl < 0 {
		return 6
	}
	return int(cfg.Lvl)
}

// wantFLevel is zlib's and RFC 1950's level class.
func wantFLevel(cfg Cfg) byte {
	l := levelOf(cfg)
	switch {
	case cfg.Strat == flate.HuffmanOnlyStrategy || cfg.Strat == flate.HuffmanRLEStrategy || l < 2:
		return 0
	case l < 6:
		return 1
	case l == 6:
		return 2
	}
	return 3
}

func wantXFL(cfg Cfg) byte {
	l := levelOf(cfg)
	switch {
	case cfg.Strat == flate.HuffmanOnlyStrategy || cfg.Strat == flate.HuffmanRLEStrategy || l < 2:
		return 4
	case l == 9:
		return 2
	}
	return 0
}

func recsText(rs []flate.ExtraDataRecord) string {
	var sb strings.Builder
	for _, r := range rs {
		fmt.Fprintf(&sb, "%x:%x;", r.ID, r.Bytes)
	}
	return sb.String()
}

// checkWire compares a gzip header on the wire with what was asked for.
func checkWire(c *C, what string, w RHeader, h flate.Header, cfg Cfg, data []byte, first int) {
	var xd []byte
	for _, r := range h.ExtraData.Records {
		xd = append(xd, r.ID[0], r.ID[1], byte(len(r.Bytes)), byte(len(r.Bytes)>>8))
		xd = append(xd, r.Bytes...)
	}
	if !bytes.Equal(w.Extra, xd) {
		c.Failf("%s: extra field on the wire: %s", what, diffAt(w.Extra, xd))
	}
	if w.Name != h.FileName {
		c.Failf("%s: name on the wire %q, set %q", what, w.Name, h.FileName)
	}
	if w.Comment != h.Comment {
		c.Failf("%s: comment on the wire %q, set %q", what, w.Comment, h.Comment)
	}
	mt := uint32(0)
	if !h.LastModified.IsZero() {
		mt = uint32(h.LastModified.Unix())
	}
	if w.MTime != mt {
		c.Failf("%s: modification time on the wire %d, set %d", what, w.MTime, mt)
	}
	wantOS := byte(3)
	if h.OSType != flate.OSTypeUnknown {
		wantOS = gzOS[h.OSType]
	}
	if w.OS != wantOS {
		c.Failf("%s: OS byte %d, want %d for %v", what, w.OS, wantOS, h.OSType)
	}
	all, bad := textish(data, first)
	switch h.DataType {
	case flate.TextData:
		if w.Flags&1 == 0 {
			c.Failf("%s: text flag missing", what)
		}
	case flate.BinaryData:
		if w.Flags&1 != 0 {
			c.Failf("%s: text flag set for binary data", what)
		}
	default:
		if all {
			c.Count("detected-text", 1)
			if w.Flags&1 == 0 {
				c.Failf("%s: data is text throughout but the text flag is missing", what)
			}
		}
		if bad {
			c.Count("detected-binary", 1)
			if w.Flags&1 != 0 {
				c.Failf("%s: there is a binary byte among the first 128 of the first Write but the text flag is set", what)
			}
		}
	}
	if x := wantXFL(cfg); w.XFL != x {
		c.Failf("%s: XFL %d, want %d", what, w.XFL, x)
	}
}

// checkReaderHeader compares the decompressor's header event with the wire.
func checkReaderHeader(c *C, what string, e flate.Header, st *RStream) {
	w := st.Hdr
	switch st.Format {
	case RRaw:
		if e.CompressLevel != flate.DefaultCompression {
			c.Failf("%s: raw stream reported with level %v", what, e.CompressLevel)
		}
	case RZlib:
		if int(e.WindowBits) != int(w.CMF>>4)+8 {
			c.Failf("%s: window reported as %v, header says 2^%d", what, e.WindowBits, int(w.CMF>>4)+8)
		}
		if want := [4]flate.CompressLevel{1, 2, flate.DefaultCompression, 9}[w.FLG>>6]; e.CompressLevel != want {
			c.Failf("%s: level reported as %v, FLEVEL is %d", what, e.CompressLevel, w.FLG>>6)
		}
	case RGzip:
		if e.FileName != w.Name || e.Comment != w.Comment {
			c.Failf("%s: reported name %q comment %q, wire has %q %q", what, e.FileName, e.Comment, w.Name, w.Comment)
		}
		if w.MTime == 0 {
			if !e.LastModified.IsZero() {
				c.Failf("%s: reported time %v, wire has none", what, e.LastModified)
			}
		} else if e.LastModified.Unix() != int64(w.MTime) || e.LastModified.Nanosecond() != 0 {
			c.Failf("%s: reported time %v, wire has %d", what, e.LastModified, w.MTime)
		}
		want := flate.BinaryData
		if w.Flags&1 != 0 {
			want = flate.TextData
		}
		if e.DataType != want {
			c.Failf("%s: reported %v, FTEXT is %d", what, e.DataType, w.Flags&1)
		}
		if e.OSType != osOf(w.OS) {
			c.Failf("%s: reported OS %v for byte %d", what, e.OSType, w.OS)
		}
		lv := flate.DefaultCompression
		if w.XFL == 2 {
			lv = 9
		} else if w.XFL == 4 {
			lv = 1
		}
		if e.CompressLevel != lv {
			c.Failf("%s: reported level %v for XFL %d", what, e.CompressLevel, w.XFL)
		}
		var xd []byte
		for _, r := range e.ExtraData.Records {
			xd = append(xd, r.ID[0], r.ID[1], byte(len(r.Bytes)), byte(len(r.Bytes)>>8))
			xd = append(xd, r.Bytes...)
		}
		whole := true
		for i := 0; i < len(w.Extra); {
			if i+4 > len(w.Extra) || i+4+int(w.Extra[i+2])+int(w.Extra[i+3])<<8 > len(w.Extra) {
				whole = false
				break
			}
			i += 4 + int(w.Extra[i+2]) + int(w.Extra[i+3])<<8
		}
		if whole && !bytes.Equal(xd, w.Extra) || !bytes.HasPrefix(w.Extra, xd) {
			c.Failf("%s: reported extra records %s, wire has % x", what, head(recsText(e.ExtraData.Records), 300), w.Extra[:min(len(w.Extra), 60)])
		}
	}
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func headerEvents(l *evLog) []flate.Header {
	var out []flate.Header
	for _, e := range l.evs {
		if e.Type == flate.StreamHeaderEvent {
			out = append(out, *e.Header)
		}
	}
	return out
}

func runC12(c *C, i int) {
	if i%4 == 3 { // foreign header
		f := RefFormat(2 + c.N(2))
		if c.P(1, 10) {
			f = RRaw
		}
		g := &genOpt{size: c.N(30)}
		s := genStream(c.Rand, f, g)
		ref := RefDecode(s.Comp, RefOpt{Format: f, WBits: 15})
		ev := &evLog{keep: true}
		var cap flate.Header
		rc := genRCfg(c.Rand, f, s.WBits, nil)
		fr := flate.NewReader(NewSrc(c.Rand, s.Comp), append(rc.Opts(), flate.WithTracers(ev, flate.CaptureHeader(&cap)))...)
		_, err := readAll(c, fr, c.Rand)
		fr.Close()
		hs := headerEvents(ev)
		if len(hs) != 1 {
			c.Failf("foreign %v stream: %d header events, error %v", f, len(hs), err)
		}
		checkReaderHeader(c, fmt.Sprintf("foreign %v header % x", f, s.Comp[:min(s.HdrLen, 40)]), hs[0], ref.Streams[0])
		if hdrText(cap) != hdrText(hs[0]) {
			c.Failf("CaptureHeader got %s, event was %s", hdrText(cap), hdrText(hs[0]))
		}
		c.Count("foreign", 1)
		c.Eval(s.HdrLen > 0, hashOf(s.Comp[:s.HdrLen]))
		return
	}
	cfg := genCfg(c.Rand)
	cfg.Dict = nil
	cfg.Fmt = flate.GZIPFormat
	if c.P(1, 5) {
		cfg.Fmt = flate.ZlibFormat
	}
	wev := &evLog{keep: true}
	s := NewSink()
	fw := flate.NewWriter(s.As(0), append(cfg.Opts(), flate.WithTracers(wev))...)
	var cur flate.Header
	n := c.In(1, 3)
	var hdrs []flate.Header
	var datas [][]byte
	var firsts []int
	for k := 0; k < n; k++ {
		for j := c.N(3); j >= 0; j-- {
			if c.P(1, 2) || i < 15 && k == 0 {
				h := randHeader(c)
				if i < 15 && k == 0 {
					h.OSType = flate.OSType(i)
					c.Count("all-os", 1)
				}
				if err := fw.SetHeader(h); err != nil {
					c.Failf("SetHeader(%s) refused: %v", head(hdrText(h), 500), err)
				}
				cur = cloneHeader(h)
				for r := range h.ExtraData.Records { // the caller may reuse its header
					p := &h.ExtraData.Records[r]
					for x := range p.Bytes {
						p.Bytes[x] ^= 0x55
					}
					p.ID[0]++
				}
			} else if c.P(1, 2) {
				h, why := badHeader(c)
				if err := fw.SetHeader(h); err == nil {
					c.Failf("SetHeader accepted a header with %s", why)
				} else if err.Error() == "" {
					c.Failf("SetHeader: empty error text for %s", why)
				}
				c.Count("rejected", 1)
			}
		}
		var data []byte
		switch c.N(3) {
		case 0:
			data = []byte(strings.Repeat("plain text, nothing else\r\n\t", c.In(1, 400)))
		case 1:
			data = append([]byte{byte(c.Pick(0, 8, 14, 31, 127))}, c.Bytes(c.N(3000))...)
			if c.P(1, 2) { // a binary byte in what looks like text
				p := c.Pick(0, 1, 15, 16, 63, 64, c.N(128))
				data = append([]byte(strings.Repeat("plain text ", 12)[:p]), data...)
			}
		default:
			data = genPayload(c.Rand, 2000)
		}
		if len(data) == 0 {
			data = []byte("x")
		}
		ops := genOps(c.Rand, len(data), false, false)
		first := 0
		for _, o := range ops {
			if o.K == 'W' && first == 0 {
				first = o.N
			}
		}
		firsts = append(firsts, first)
		feed(c, fw, data, ops)
		if err := fw.Flush(flate.FinishFlush); err != nil {
			c.Failf("Flush: %v", err)
		}
		hdrs = append(hdrs, cur)
		datas = append(datas, data)
	}
	if err := fw.Close(); err != nil {
		c.Failf("Close: %v", err)
	}
	comp := s.Bytes()
	ref := RefDecode(comp, RefOpt{Format: cfg.RefFmt(), WBits: cfg.EffWB()})
	if ref.Err != 0 || len(ref.Streams) != n {
		c.Failf("written streams with headers: %v %s, %d streams; first header %s", ref.Err, ref.Msg, len(ref.Streams), head(hdrText(hdrs[0]), 600))
	}
	ev := &evLog{keep: true}
	rc := genRCfg(c.Rand, cfg.RefFmt(), cfg.EffWB(), nil)
	fr := flate.NewReader(NewSrc(c.Rand, comp), append(rc.Opts(), flate.WithTracers(ev))...)
	readAll(c, fr, c.Rand)
	fr.Close()
	rh, wh := headerEvents(ev), headerEvents(wev)
	if len(rh) != n || len(wh) != n {
		c.Failf("%d streams gave %d Reader and %d Writer header events", n, len(rh), len(wh))
	}
	for k := 0; k < n; k++ {
		st := ref.Streams[k]
		h := hdrs[k]
		what := fmt.Sprintf("%v stream %d of %d, header %s", cfg, k, n, head(hdrText(h), 500))
		checkReaderHeader(c, what, rh[k], st)
		if cfg.Fmt == flate.GZIPFormat {
			checkWire(c, what, st.Hdr, h, cfg, datas[k], firsts[k])
			// and end to end
			e := rh[k]
			if e.FileName != h.FileName || e.Comment != h.Comment || recsText(e.ExtraData.Records) != recsText(h.ExtraData.Records) {
				c.Failf("%s: Reader reports %s", what, head(hdrText(e), 500))
			}
			if h.OSType != flate.OSTypeUnknown && e.OSType != h.OSType || h.OSType == flate.OSTypeUnknown && e.OSType != flate.OSTypeUnix {
				c.Failf("%s: Reader reports OS %v", what, e.OSType)
			}
			if h.DataType != flate.UnknownData && e.DataType != h.DataType {
				c.Failf("%s: Reader reports %v", what, e.DataType)
			}
			if !h.LastModified.IsZero() && e.LastModified.Unix() != h.LastModified.Unix() {
				c.Failf("%s: Reader reports time %v", what, e.LastModified)
			}
			c.Count("gzip-set", 1)
		} else {
			if w := int(st.Hdr.CMF>>4) + 8; w != cfg.EffWB() {
				c.Failf("%s: zlib header declares window 2^%d", what, w)
			}
			if l := wantFLevel(cfg); st.Hdr.FLG>>6 != l {
				c.Failf("%s: FLEVEL %d, want %d", what, st.Hdr.FLG>>6, l)
			}
			c.Count("zlib", 1)
		}
		// the Writer's own event
		e := wh[k]
		if e.FileName != h.FileName || e.Comment != h.Comment || recsText(e.ExtraData.Records) != recsText(h.ExtraData.Records) ||
			h.LastModified.IsZero() != e.LastModified.IsZero() || (!h.LastModified.IsZero() && e.LastModified.Unix() != h.LastModified.Unix()) {
			c.Failf("%s: the Writer's header event says %s", what, head(hdrText(e), 500))
		}
		if int(e.WindowBits) != cfg.EffWB() || int(e.CompressLevel) != levelOf(cfg) {
			c.Failf("%s: the Writer's header event says window %v level %v", what, e.WindowBits, e.CompressLevel)
		}
		if cfg.Fmt == flate.GZIPFormat {
			if (e.DataType == flate.TextData) != (st.Hdr.Flags&1 != 0) || osOf(st.Hdr.OS) != e.OSType {
				c.Failf("%s: the Writer's header event says %s, wire flags %#x OS %d", what, head(hdrText(e), 500), st.Hdr.Flags, st.Hdr.OS)
			}
		}
		c.Eval(hdrText(h) != hdrText(flate.Header{}), hdrText(h), cfg.String())
	}
	c.Sample("%v %d streams, first header %s", cfg, n, head(hdrText(hdrs[0]), 300))
}

// ---------------------------------------------------------------- dictionaries

// dictPayload draws data that shares material with the dictionary.
func dictPayload(c *C, dict []byte, max int) []byte {
	var out []byte
	n := c.N(max) + 1
	for len(out) < n {
		switch c.N(4) {
		case 0:
			out = append(out, c.Bytes(c.In(1, 50))...)
		case 1, 2:
			a := c.N(len(dict))
			if c.P(1, 4) {
				a = 0
			}
			l := c.In(1, 400)
			if a+l > len(dict) {
				l = len(dict) - a
			}
			out = append(out, dict[a:a+l]...)
		default:
			out = append(out, genData(c.Rand, c.N(nDataKinds), c.In(1, 300))...)
		}
	}
	return out
}

func runC13(c *C, i int) {
	cfg := genCfg(c.Rand)
	cfg.Dict = genDict(c.Rand)
	if i%5 == 0 {
		cfg.Dict = make([]byte, c.Pick(1, 2, 3, 4, 100, 32768, 33000))
		c.Count("zero-dict", 1)
	}
	if i%97 == 3 {
		cfg.Dict = c.Bytes(c.Pick(1<<20+1, 1<<20+70000, 3<<20))
		c.Count("dict-over-1MiB", 1)
	}
	if len(cfg.Dict) > 1<<uint(cfg.EffWB()) {
		c.Count("long-dict", 1)
	}
	c.Count("all-formats-"+cfg.RefFmt().String(), 1)
	keep := append([]byte(nil), cfg.Dict...)
	s := NewSink()
	fw := newWriter(c, s.As(0), cfg.Opts()...)
	var data []byte
	n := c.In(1, 3)
	for k := 0; k < n; k++ {
		d := dictPayload(c, cfg.Dict, c.Pick(10, 600, 6000, 60000))
		feed(c, fw, d, genOps(c.Rand, len(d), c.P(1, 2), false))
		if err := fw.Flush(flate.FinishFlush); err != nil {
			c.Failf("Flush: %v", err)
		}
		data = append(data, d...)
	}
	if err := fw.Close(); err != nil {
		c.Failf("Close: %v", err)
	}
	comp := s.Bytes()
	what := fmt.Sprintf("%v, %d bytes in %d streams", cfg, len(data), n)
	ref := refVerify(c, what, comp, RefOpt{Format: cfg.RefFmt(), WBits: cfg.EffWB(), Dict: keep}, data)
	for si, st := range ref.Streams {
		for _, b := range st.Blocks {
			if b.NMatch > 0 && b.MinReach < 0 {
				c.Count("dict-matches", 1)
				if si > 0 {
					c.Count("second-stream-dict-matches", 1)
				}
			}
		}
	}
	try := func(what string, d []byte, f RefFormat) {
		rc := genRCfg(c.Rand, f, cfg.EffWB(), d)
		opt := rc.Ref()
		opt.MaxOut = 4 << 20
		ref := RefDecode(comp, opt)
		src := NewSrc(c.Rand, comp)
		fr := newReader(c, src, rc.Opts()...)
		got, err := readAll(c, fr, c.Rand)
		w := fmt.Sprintf("%s: %s, %v", what, cfg, rc)
		judgeRead(c, w, got, err, ref, len(comp), jAccept)
		if !bytes.Equal(d, keep) && f == RZlib {
			if errKind(err) <= 0 || len(got) != 0 {
				c.Failf("%s: zlib stream read with another dictionary gave %d bytes and %v", w, len(got), err)
			}
		}
		fr.Close()
		c.Eval(len(keep) >= 4, w, hashOf(d), hashOf(data))
	}
	try("same dictionary", keep, cfg.RefFmt())
	c.Count("same-dict", 1)
	if !(cfg.RefFmt() == RRaw && looksLikeContainer(comp)) {
		try("same dictionary, auto-detection", keep, RAuto)
	}
	other := append([]byte(nil), keep...)
	switch c.N(4) {
	case 0:
		other[c.N(len(other))] ^= byte(c.In(1, 255))
	case 1:
		other = append(other, 0)
	case 2:
		other = append([]byte{0}, other...)
	case 3:
		other = genDict(c.Rand)
	}
	if adler32.Checksum(other) != adler32.Checksum(keep) {
		try("other dictionary", other, cfg.RefFmt())
		c.Count("wrong-dict", 1)
	}
	try("no dictionary", nil, cfg.RefFmt())
	c.Count("no-dict", 1)
	if !bytes.Equal(cfg.Dict, keep) {
		c.Failf("%s: the caller's dictionary was modified", what)
	}
	// a stream naming a dictionary by some special id, and not referring to it
	if i%4 == 1 {
		own := c.P(1, 2)
		c2 := cfg
		c2.Fmt = flate.ZlibFormat
		c2.Strat = flate.HuffmanOnlyStrategy
		comp = compress(c, c2, data, []Op{{K: 'W', N: len(data)}})
		ids := []uint32{0, 1, 2, 0xffff, 0x10000, 0x10001, 0xffff0000, 0xffffffff, adler32.Checksum(data)}
		id := ids[c.N(len(ids))]
		if own {
			id = adler32.Checksum(keep) ^ 1<<uint(c.N(32))
		}
		binary.BigEndian.PutUint32(comp[2:], id)
		try("special dictionary id", nil, RZlib)
		try("special dictionary id", keep, RZlib)
		c.Count("special-dict-id", 1)
	}
	// repeating the dictionary is cheap, in every stream
	if i%4 == 3 {
		c2 := cfg
		c2.Strat, c2.Lvl, c2.Mem, c2.WB = flate.DefaultStrategy, flate.CompressLevel(c.In(1, 9)), 0, 0
		c2.Dict = c.Bytes(c.In(100, 3000))
		n := c.In(2, 4)
		var d []byte
		var ops []Op
		for k := 0; k < n; k++ {
			d = append(d, c2.Dict...)
			ops = append(ops, Op{K: 'W', N: len(c2.Dict)}, Op{K: 'F', FT: flate.FinishFlush})
		}
		comp = compress(c, c2, d, ops)
		refVerify(c, "streams repeating the dictionary", comp, RefOpt{Format: c2.RefFmt(), WBits: 15, Dict: c2.Dict}, d)
		if limit := n * (60 + len(c2.Dict)/3); len(comp) > limit {
			c.Failf("%v: %d streams, each repeating its dictionary of %d bytes, take %d bytes (bound %d): the dictionary is not used in every stream", c2, n, len(c2.Dict), len(comp), limit)
		}
		c.Count("dict-exploited", 1)
	}
	// a stream behind a good one that was made without, or with another, dictionary
	if i%3 == 1 {
		c2 := cfg
		c2.Fmt = flate.ZlibFormat
		good := compress(c, c2, data, []Op{{K: 'W', N: len(data)}})
		if c2.Dict = nil; c.P(1, 2) && adler32.Checksum(other) != adler32.Checksum(keep) {
			c2.Dict = other
		}
		d2 := c.Bytes(c.N(300))
		comp = append(good, compress(c, c2, d2, []Op{{K: 'W', N: len(d2)}})...)
		if ref := RefDecode(comp, RefOpt{Format: RZlib, Dict: keep}); ref.Err == 0 || !bytes.Equal(ref.Out, data) {
			c.Failf("harness: second stream with dictionary %d accepted", len(c2.Dict))
		}
		rc := genRCfg(c.Rand, RZlib, cfg.EffWB(), keep)
		fr := newReader(c, NewSrc(c.Rand, comp), rc.Opts()...)
		got, err := readAll(c, fr, c.Rand)
		if errKind(err) <= 0 || !bytes.Equal(got, data) {
			c.Failf("%s: a second stream without the dictionary (%d bytes): got %d of %d bytes and %v", what, len(c2.Dict), len(got), len(data), err)
		}
		c.Count("later-stream-other-dict", 1)
		c.Eval(true, "later", hashOf(comp))
	}
	// a stream without a dictionary read with one
	if i%3 == 0 {
		c2 := cfg
		c2.Dict = nil
		c2.Fmt = flate.ZlibFormat
		comp = compress(c, c2, data, []Op{{K: 'W', N: len(data)}})
		try("unneeded dictionary", keep, RZlib)
		got, err := func() ([]byte, error) {
			fr := flate.NewReader(PlainSrc(comp), flate.WithFormat(flate.ZlibFormat), flate.WithDictionary(keep))
			return readAll(c, fr, c.Rand)
		}()
		if errKind(err) <= 0 || len(got) != 0 {
			c.Failf("%s: unneeded dictionary: got %d bytes and %v", what, len(got), err)
		}
		c.Count("unneeded-dict", 1)
	}
	c.Sample("%s", what)
}
