package main

import (
	"encoding/binary"
	"fmt"
	stdadler "hash/adler32"
	stdcrc "hash/crc32"
)

// A strict, independent decoder for RFC 1951 / 1950 / 1952, written from the
// RFCs.  It is the main oracle: it reports not only the decoded bytes but also
// the structure (blocks, code lengths, tokens, offsets) and, for bad input,
// what is wrong and how much of the output precedes the problem.

type EKind int

const (
	ETrunc   EKind = 1 << iota // input ends too early
	ECorrupt                   // input violates the format
)

func (k EKind) String() string {
	switch k {
	case 0:
		return "none"
	case ETrunc:
		return "truncated"
	case ECorrupt:
		return "corrupt"
	}
	return "truncated-or-corrupt"
}

type RefFormat int

const (
	RAuto RefFormat = iota
	RRaw
	RZlib
	RGzip
)

func (f RefFormat) String() string { return [...]string{"auto", "raw", "zlib", "gzip"}[f] }

type RTok struct {
	Lit  int // >=0 literal
	Len  int
	Dist int
}

type RBlock struct {
	Type     int // 0 stored 1 static 2 dynamic 3 reserved
	Final    bool
	StartBit int64
	EndBit   int64
	OutStart int
	OutEnd   int
	HLIT     int
	HDIST    int
	HCLEN    int
	CL       []byte
	LL       []byte
	D        []byte
	TreesOK  bool
	NLit     int
	NMatch   int
	MaxDist  int
	MinDist  int
	MaxLen   int
	MinLen   int
	MinReach int // lowest absolute output index referenced (may be negative: dictionary)
	Toks     []RTok
	Complete bool
	StoredN  int
}

type RHeader struct {
	Flags    byte
	MTime    uint32
	XFL      byte
	OS       byte
	Extra    []byte
	HasExtra bool
	Name     string
	HasName  bool
	Comment  string
	HasComm  bool
	CMF, FLG byte
	DictID   uint32
	HasDict  bool
}

type RStream struct {
	Format   RefFormat
	Start    int
	HdrEnd   int
	Hdr      RHeader
	HdrOK    bool
	Blocks   []*RBlock
	BodyOK   bool
	BodyEnd  int // first byte after the deflate data
	End      int // first byte after the trailer
	OutStart int
	OutEnd   int
	A32, C32 uint32
	Complete bool
}

type RefOpt struct {
	Format  RefFormat
	WBits   int // 8..15, 0 = 15
	Dict    []byte
	Toks    bool
	MaxOut  int
	OneOnly bool // stop after the first stream
}

type RefResult struct {
	Out     []byte
	Streams []*RStream
	Err     EKind // 0 = all of the input is complete valid streams
	Msg     string
	Off     int // byte offset of the problem
	SafeOut int // output bytes that belong to complete blocks
	// Lenient: something was met on which reasonable decoders differ;
	// everything from LenOut on is not judged.
	Lenient    bool
	LenientWhy string
	LenOut     int
	Used       int  // bytes consumed by complete streams
	TooBig     bool // MaxOut exceeded
}

type refErr struct {
	k   EKind
	msg string
	off int
}

type refDec struct {
	in    []byte
	pos   int // next byte
	bb    uint64
	bn    uint
	res   *RefResult
	opt   RefOpt
	wsize int
	base  int // output index where the current stream began
	decl  int // window declared by the zlib header (0 = none)
}

func (d *refDec) fail(k EKind, off int, f string, v ...interface{}) {
	panic(refErr{k, fmt.Sprintf(f, v...), off})
}

func (d *refDec) lenient(f string, v ...interface{}) {
	if !d.res.Lenient {
		d.res.Lenient = true
		d.res.LenientWhy = fmt.Sprintf(f, v...)
		d.res.LenOut = len(d.res.Out)
	}
}

func (d *refDec) bits(n uint) int {
	for d.bn < n {
		if d.pos >= len(d.in) {
			d.fail(ETrunc, d.pos, "input ends inside the compressed data")
		}
		d.bb |= uint64(d.in[d.pos]) << d.bn
		d.pos++
		d.bn += 8
	}
	v := d.bb & (1<<n - 1)
	d.bb >>= n
	d.bn -= n
	return int(v)
}

func (d *refDec) bitPos() int64 { return int64(d.pos)*8 - int64(d.bn) }

func (d *refDec) align() {
	// whole bytes still buffered go back
	d.pos -= int(d.bn / 8)
	d.bb, d.bn = 0, 0
}

func (d *refDec) byte_() byte {
	if d.pos >= len(d.in) {
		d.fail(ETrunc, d.pos, "input ends")
	}
	b := d.in[d.pos]
	d.pos++
	return b
}

type refHuff struct {
	count [16]int
	sym   []int
	fast  []int32 // 9-bit lookup: sym<<4 | len, -1 = long
	left  int     // unused code space, 0 = complete
	n     int
}

const refFast = 9

func newRefHuff(lens []byte) (*refHuff, bool) {
	h := &refHuff{}
	for _, l := range lens {
		h.count[l]++
	}
	h.n = len(lens) - h.count[0]
	h.count[0] = 0
	left := 1
	for i := 1; i <= 15; i++ {
		left <<= 1
		left -= h.count[i]
		if left < 0 {
			return nil, false
		}
	}
	h.left = left
	var offs [16]int
	for i := 1; i < 15; i++ {
		offs[i+1] = offs[i] + h.count[i]
	}
	h.sym = make([]int, h.n)
	for s, l := range lens {
		if l != 0 {
			h.sym[offs[l]] = s
			offs[l]++
		}
	}
	h.fast = make([]int32, 1<<refFast)
	for i := range h.fast {
		h.fast[i] = -1
	}
	code, idx := 0, 0
	for l := 1; l <= refFast; l++ {
		code <<= 1
		for k := 0; k < h.count[l]; k++ {
			rev := 0
			for b := 0; b < l; b++ {
				if code&(1<<b) != 0 {
					rev |= 1 << (l - 1 - b)
				}
			}
			for x := rev; x < 1<<refFast; x += 1 << l {
				h.fast[x] = int32(h.sym[idx]<<4 | l)
			}
			code++
			idx++
		}
	}
	return h, true
}

func (d *refDec) sym(h *refHuff, what string) int {
	for d.bn < 16 && d.pos < len(d.in) {
		d.bb |= uint64(d.in[d.pos]) << d.bn
		d.pos++
		d.bn += 8
	}
	if f := h.fast[d.bb&(1<<refFast-1)]; f >= 0 && uint(f&15) <= d.bn {
		d.bb >>= uint(f & 15)
		d.bn -= uint(f & 15)
		return int(f >> 4)
	}
	code, first, index := 0, 0, 0
	bb, bn := d.bb, d.bn
	for l := 1; l <= 15; l++ {
		if bn == 0 {
			d.align()
			d.pos = len(d.in)
			// more bits could only extend a code if one with this prefix exists
			d.fail(ETrunc|h.deadKind(code, first, l-1), d.pos, "input ends inside a %s code", what)
		}
		code |= int(bb & 1)
		bb >>= 1
		bn--
		c := h.count[l]
		if code-c < first {
			d.bb, d.bn = bb, bn
			return h.sym[index+code-first]
		}
		index += c
		first += c
		first <<= 1
		code <<= 1
	}
	d.align()
	d.fail(ECorrupt, d.pos, "unassigned %s code", what)
	return 0
}

// deadKind returns ECorrupt if, in an incomplete code, the bits read so far may
// already be known not to start any code word.
func (h *refHuff) deadKind(code, first, l int) EKind {
	if h.left != 0 {
		return ECorrupt
	}
	return 0
}

var (
	refLBase  = [...]int{3, 4, 5, 6, 7, 8, 9, 10, 11, 13, 15, 17, 19, 23, 27, 31, 35, 43, 51, 59, 67, 83, 99, 115, 131, 163, 195, 227, 258}
	refLExtra = [...]uint{0, 0, 0, 0, 0, 0, 0, 0, 1, 1, 1, 1, 2, 2, 2, 2, 3, 3, 3, 3, 4, 4, 4, 4, 5, 5, 5, 5, 0}
	refDBase  = [...]int{1, 2, 3, 4, 5, 7, 9, 13, 17, 25, 33, 49, 65, 97, 129, 193, 257, 385, 513, 769, 1025, 1537, 2049, 3073, 4097, 6145, 8193, 12289, 16385, 24577}
	refDExtra = [...]uint{0, 0, 0, 0, 1, 1, 2, 2, 3, 3, 4, 4, 5, 5, 6, 6, 7, 7, 8, 8, 9, 9, 10, 10, 11, 11, 12, 12, 13, 13}
	refOrder  = [...]int{16, 17, 18, 0, 8, 7, 9, 6, 10, 5, 11, 4, 12, 3, 13, 2, 14, 1, 15}

	refStaticLL, refStaticD       *refHuff
	refStaticLLLens, refStaticDLn []byte
)

func init() {
	ll := make([]byte, 288)
	for i := range ll {
		switch {
		case i < 144:
			ll[i] = 8
		case i < 256:
			ll[i] = 9
		case i < 280:
			ll[i] = 7
		default:
			ll[i] = 8
		}
	}
	dd := make([]byte, 32)
	for i := range dd {
		dd[i] = 5
	}
	refStaticLLLens, refStaticDLn = ll, dd
	refStaticLL, _ = newRefHuff(ll)
	refStaticD, _ = newRefHuff(dd)
	staticLC, staticDC = canonCodes(ll), canonCodes(dd)
}

func (d *refDec) put(b byte) {
	d.res.Out = append(d.res.Out, b)
	if d.opt.MaxOut > 0 && len(d.res.Out) > d.opt.MaxOut {
		d.res.TooBig = true
		d.fail(ECorrupt, d.pos, "reference output limit")
	}
}

func (d *refDec) copyBack(b *RBlock, dist, length int) {
	avail := len(d.res.Out) - d.base
	total := avail + len(d.opt.Dict)
	if dist > total {
		d.align()
		d.fail(ECorrupt, d.pos, "distance %d reaches before the start of the data (%d available)", dist, total)
	}
	if dist > d.wsize {
		d.align()
		d.fail(ECorrupt, d.pos, "distance %d exceeds the window limit %d", dist, d.wsize)
	}
	if d.decl != 0 && dist > d.decl {
		d.lenient("distance %d exceeds the declared window %d", dist, d.decl)
	}
	if r := avail - dist; b.NMatch == 0 || r < b.MinReach {
		b.MinReach = r
	}
	for k := 0; k < length; k++ {
		i := len(d.res.Out) - dist
		var c byte
		if i >= d.base {
			c = d.res.Out[i]
		} else {
			c = d.opt.Dict[len(d.opt.Dict)-(d.base-i)]
		}
		d.put(c)
	}
}

func (d *refDec) huffBlock(b *RBlock, hl, hd *refHuff) {
	for {
		s := d.sym(hl, "literal/length")
		switch {
		case s < 256:
			d.put(byte(s))
			b.NLit++
			if d.opt.Toks {
				b.Toks = append(b.Toks, RTok{Lit: s})
			}
		case s == 256:
			return
		case s >= 286:
			d.align()
			d.fail(ECorrupt, d.pos, "reserved literal/length symbol %d", s)
		default:
			s -= 257
			ex := d.bits(refLExtra[s])
			length := refLBase[s] + ex
			if s == 27 && ex == 31 {
				d.lenient("length 258 coded as symbol 284")
			}
			if hd.n == 0 {
				d.align()
				d.fail(ECorrupt, d.pos, "match in a block without distance codes")
			}
			t := d.sym(hd, "distance")
			if t >= 30 {
				d.align()
				d.fail(ECorrupt, d.pos, "reserved distance symbol %d", t)
			}
			dist := refDBase[t] + d.bits(refDExtra[t])
			d.copyBack(b, dist, length)
			b.NMatch++
			if dist > b.MaxDist {
				b.MaxDist = dist
			}
			if b.MinDist == 0 || dist < b.MinDist {
				b.MinDist = dist
			}
			if length > b.MaxLen {
				b.MaxLen = length
			}
			if b.MinLen == 0 || length < b.MinLen {
				b.MinLen = length
			}
			if d.opt.Toks {
				b.Toks = append(b.Toks, RTok{Lit: -1, Len: length, Dist: dist})
			}
		}
	}
}

func (d *refDec) dynamic(b *RBlock) (*refHuff, *refHuff) {
	hlit := d.bits(5) + 257
	hdist := d.bits(5) + 1
	hclen := d.bits(4) + 4
	b.HLIT, b.HDIST, b.HCLEN = hlit, hdist, hclen
	if hlit > 286 || hdist > 30 {
		d.fail(ECorrupt, d.pos, "too many codes: HLIT %d HDIST %d", hlit, hdist)
	}
	cl := make([]byte, 19)
	for i := 0; i < hclen; i++ {
		cl[refOrder[i]] = byte(d.bits(3))
	}
	b.CL = cl
	hc, ok := newRefHuff(cl)
	if !ok {
		d.fail(ECorrupt, d.pos, "over-subscribed code length code")
	}
	if hc.left != 0 {
		d.lenient("incomplete code length code")
	}
	if hc.n == 0 {
		d.fail(ECorrupt, d.pos, "empty code length code")
	}
	lens := make([]byte, hlit+hdist)
	for i := 0; i < len(lens); {
		s := d.sym(hc, "code length")
		switch {
		case s < 16:
			lens[i] = byte(s)
			i++
		default:
			var prev byte
			var n int
			if s == 16 {
				if i == 0 {
					d.align()
					d.fail(ECorrupt, d.pos, "repeat without previous length")
				}
				prev = lens[i-1]
				n = 3 + d.bits(2)
			} else if s == 17 {
				n = 3 + d.bits(3)
			} else {
				n = 11 + d.bits(7)
			}
			if i+n > len(lens) {
				d.align()
				d.fail(ECorrupt, d.pos, "repeat runs past the last code length")
			}
			for ; n > 0; n-- {
				lens[i] = prev
				i++
			}
		}
	}
	b.LL = lens[:hlit]
	b.D = lens[hlit:]
	hl, ok := newRefHuff(b.LL)
	if !ok {
		d.fail(ECorrupt, d.pos, "over-subscribed literal/length code")
	}
	hd, ok := newRefHuff(b.D)
	if !ok {
		d.fail(ECorrupt, d.pos, "over-subscribed distance code")
	}
	if b.LL[256] == 0 {
		d.lenient("no end-of-block code")
	}
	if hl.n == 0 {
		d.fail(ECorrupt, d.pos, "empty literal/length code")
	}
	if hl.left != 0 {
		d.lenient("incomplete literal/length code")
	}
	if hd.left != 0 && !(hd.n == 0 || (hd.n == 1 && hd.count[1] == 1)) {
		d.lenient("incomplete distance code")
	}
	b.TreesOK = true
	return hl, hd
}

func (d *refDec) inflate(st *RStream) {
	for {
		b := &RBlock{StartBit: d.bitPos(), OutStart: len(d.res.Out)}
		st.Blocks = append(st.Blocks, b)
		b.Type = -1
		x := d.bits(3)
		b.Final = x&1 != 0
		b.Type = x >> 1
		switch b.Type {
		case 0:
			d.align()
			n := int(d.byte_())
			n |= int(d.byte_()) << 8
			m := int(d.byte_())
			m |= int(d.byte_()) << 8
			if n != m^0xffff {
				d.fail(ECorrupt, d.pos, "stored length check")
			}
			b.StoredN = n
			for k := 0; k < n; k++ {
				d.put(d.byte_())
			}
		case 1:
			b.TreesOK = true
			d.huffBlock(b, refStaticLL, refStaticD)
		case 2:
			hl, hd := d.dynamic(b)
			d.huffBlock(b, hl, hd)
		default:
			d.fail(ECorrupt, d.pos, "reserved block type")
		}
		b.EndBit = d.bitPos()
		b.OutEnd = len(d.res.Out)
		b.Complete = true
		d.res.SafeOut = len(d.res.Out)
		if b.Final {
			d.align()
			return
		}
	}
}

func (d *refDec) need(n int, k EKind, what string) []byte {
	if d.pos+n > len(d.in) {
		d.pos = len(d.in)
		d.fail(k, d.pos, "input ends inside the %s", what)
	}
	p := d.in[d.pos : d.pos+n]
	d.pos += n
	return p
}

func (d *refDec) gzipHeader(h *RHeader) {
	start := d.pos
	rest := d.in[d.pos:]
	if len(rest) < 10 {
		k := ETrunc
		if (len(rest) > 0 && rest[0] != 0x1f) || (len(rest) > 1 && rest[1] != 0x8b) || (len(rest) > 2 && rest[2] != 8) || (len(rest) > 3 && rest[3]&0xe0 != 0) {
			k |= ECorrupt
		}
		d.need(10, k, "gzip header")
	}
	p := d.need(10, ETrunc, "gzip header")
	if p[0] != 0x1f || p[1] != 0x8b {
		d.fail(ECorrupt, start, "not gzip")
	}
	if p[2] != 8 {
		d.fail(ECorrupt, start+2, "gzip method %d", p[2])
	}
	if p[3]&0xe0 != 0 {
		d.fail(ECorrupt, start+3, "gzip reserved flags")
	}
	h.Flags = p[3]
	h.MTime = binary.LittleEndian.Uint32(p[4:])
	h.XFL, h.OS = p[8], p[9]
	if h.Flags&4 != 0 {
		n := int(binary.LittleEndian.Uint16(d.need(2, ETrunc, "gzip extra length")))
		h.Extra = d.need(n, ETrunc, "gzip extra field")
		h.HasExtra = true
	}
	zstr := func(what string) string {
		s := d.pos
		for {
			if d.need(1, ETrunc, what)[0] == 0 {
				return string(d.in[s : d.pos-1])
			}
		}
	}
	if h.Flags&8 != 0 {
		h.Name, h.HasName = zstr("gzip name"), true
	}
	if h.Flags&16 != 0 {
		h.Comment, h.HasComm = zstr("gzip comment"), true
	}
	if h.Flags&2 != 0 {
		want := uint16(stdcrc.ChecksumIEEE(d.in[start:d.pos]))
		got := binary.LittleEndian.Uint16(d.need(2, ETrunc, "gzip header CRC"))
		if got != want {
			d.fail(ECorrupt, d.pos, "gzip header CRC")
		}
	}
}

func (d *refDec) zlibHeader(h *RHeader) {
	start := d.pos
	p := d.need(2, ETrunc, "zlib header")
	h.CMF, h.FLG = p[0], p[1]
	if (int(p[0])<<8|int(p[1]))%31 != 0 {
		d.fail(ECorrupt, start, "zlib header check")
	}
	if p[0]&15 != 8 {
		d.fail(ECorrupt, start, "zlib method")
	}
	w := int(p[0]>>4) + 8
	if w > 15 || 1<<uint(w) > d.wsize {
		d.fail(ECorrupt, start, "zlib window 2^%d too big", w)
	}
	d.decl = 1 << uint(w)
	if p[1]&0x20 != 0 {
		k := ETrunc
		if d.opt.Dict == nil {
			k |= ECorrupt
		}
		h.DictID = binary.BigEndian.Uint32(d.need(4, k, "zlib dictionary id"))
		h.HasDict = true
		if d.opt.Dict == nil {
			d.fail(ECorrupt, d.pos, "dictionary required")
		}
		if stdadler.Checksum(d.opt.Dict) != h.DictID {
			d.fail(ECorrupt, d.pos, "different dictionary required")
		}
	} else if d.opt.Dict != nil {
		d.fail(ECorrupt, d.pos, "dictionary supplied but not used by the stream")
	}
}

func (d *refDec) stream() {
	st := &RStream{Start: d.pos, OutStart: len(d.res.Out)}
	d.res.Streams = append(d.res.Streams, st)
	d.base = len(d.res.Out)
	d.decl = 0
	f := d.opt.Format
	if f == RAuto {
		f = RRaw
		if r := d.in[d.pos:]; len(r) >= 2 {
			if r[0] == 0x1f && r[1] == 0x8b {
				f = RGzip
			} else if r[0]&15 == 8 && (int(r[0])<<8|int(r[1]))%31 == 0 {
				f = RZlib
			}
		}
	}
	st.Format = f
	switch f {
	case RGzip:
		d.gzipHeader(&st.Hdr)
	case RZlib:
		d.zlibHeader(&st.Hdr)
	}
	st.HdrOK = true
	st.HdrEnd = d.pos
	d.inflate(st)
	st.BodyOK = true
	st.BodyEnd = d.pos
	st.OutEnd = len(d.res.Out)
	data := d.res.Out[st.OutStart:]
	st.A32 = stdadler.Checksum(data)
	st.C32 = stdcrc.ChecksumIEEE(data)
	switch f {
	case RZlib:
		if binary.BigEndian.Uint32(d.need(4, ETrunc, "zlib trailer")) != st.A32 {
			d.fail(ECorrupt, d.pos, "zlib checksum")
		}
	case RGzip:
		k := ETrunc
		if len(d.in)-d.pos >= 4 && binary.LittleEndian.Uint32(d.in[d.pos:]) != st.C32 {
			k |= ECorrupt
		}
		p := d.need(8, k, "gzip trailer")
		if binary.LittleEndian.Uint32(p) != st.C32 {
			d.fail(ECorrupt, d.pos, "gzip CRC")
		}
		if binary.LittleEndian.Uint32(p[4:]) != uint32(len(data)) {
			d.fail(ECorrupt, d.pos, "gzip length")
		}
	}
	st.End = d.pos
	st.Complete = true
	d.res.Used = d.pos
}

// RefDecode decodes a concatenation of streams.
func RefDecode(in []byte, opt RefOpt) (res *RefResult) {
	res = &RefResult{}
	if opt.WBits == 0 {
		opt.WBits = 15
	}
	d := &refDec{in: in, res: res, opt: opt, wsize: 1 << uint(opt.WBits)}
	defer func() {
		if e := recover(); e != nil {
			re, ok := e.(refErr)
			if !ok {
				panic(e)
			}
			res.Err, res.Msg, res.Off = re.k, re.msg, re.off
		}
		if !res.Lenient {
			res.LenOut = len(res.Out)
		}
	}()
	for d.pos < len(in) {
		d.stream()
		if opt.OneOnly {
			break
		}
	}
	return res
}
