package main

import (
	"encoding/binary"
	stdadler "hash/adler32"
	stdcrc "hash/crc32"
)

// Generator of valid streams that uses the whole freedom of the standards.

type bitW struct {
	b  []byte
	bb uint64
	bn uint
}

func (w *bitW) bits(v int, n uint) {
	w.bb |= uint64(v) << w.bn
	w.bn += n
	for w.bn >= 8 {
		w.b = append(w.b, byte(w.bb))
		w.bb >>= 8
		w.bn -= 8
	}
}

func (w *bitW) align(pad int) {
	if w.bn > 0 {
		k := 8 - w.bn
		w.bits(pad&(1<<k-1), k)
	}
}

// append adds all the bits of another.
func (w *bitW) append(o *bitW) {
	for _, b := range o.b {
		w.bits(int(b), 8)
	}
	w.bits(int(o.bb), o.bn)
}

// codes assigns canonical codes, bit-reversed for output.
func canonCodes(lens []byte) []int {
	var count, next [16]int
	for _, l := range lens {
		count[l]++
	}
	count[0] = 0
	code := 0
	for l := 1; l <= 15; l++ {
		code = (code + count[l-1]) << 1
		next[l] = code
	}
	out := make([]int, len(lens))
	for i, l := range lens {
		if l == 0 {
			continue
		}
		c := next[l]
		next[l]++
		rev := 0
		for b := 0; b < int(l); b++ {
			if c&(1<<uint(b)) != 0 {
				rev |= 1 << uint(int(l)-1-b)
			}
		}
		out[i] = rev
	}
	return out
}

// completeLens draws n>=2 code lengths <= max forming a complete code.
func completeLens(r *Rand, n, max, shape int) []byte {
	leaves := []int{1, 1}
	for len(leaves) < n {
		var i int
		switch shape {
		case 0: // random leaf
			i = r.N(len(leaves))
		case 1: // deepest
			i = len(leaves) - 1
		case 2: // shallowest (balanced)
			i = 0
			for k := range leaves {
				if leaves[k] < leaves[i] {
					i = k
				}
			}
		default:
			if r.P(1, 2) {
				i = len(leaves) - 1
			} else {
				i = r.N(len(leaves))
			}
		}
		if leaves[i] >= max {
			// first leaf that can still be split
			i = -1
			off := r.N(len(leaves))
			for k := range leaves {
				j := (k + off) % len(leaves)
				if leaves[j] < max {
					i = j
					break
				}
			}
			if i < 0 {
				panic("completeLens: too many symbols")
			}
		}
		leaves[i]++
		leaves = append(leaves, leaves[i])
	}
	for i := len(leaves) - 1; i > 0; i-- {
		j := r.N(i + 1)
		leaves[i], leaves[j] = leaves[j], leaves[i]
	}
	out := make([]byte, n)
	for i := range out {
		out[i] = byte(leaves[i])
	}
	return out
}

type genOpt struct {
	wbits   int
	dict    []byte
	size    int // rough output size
	maxBlk  int
	feature map[string]int
	short   bool // only short header fields
}

func (g *genOpt) hit(name string) {
	if g.feature != nil {
		g.feature[name]++
	}
}

func lenSym(l int) (int, int, uint) {
	if l == 258 {
		return 285, 0, 0
	}
	for s := 27; s >= 0; s-- {
		if l >= refLBase[s] {
			return 257 + s, l - refLBase[s], refLExtra[s]
		}
	}
	panic("len")
}

func distSym(d int) (int, int, uint) {
	for s := 29; s >= 0; s-- {
		if d >= refDBase[s] {
			return s, d - refDBase[s], refDExtra[s]
		}
	}
	panic("dist")
}

// genTokens extends out with a random token sequence.
func genTokens(r *Rand, g *genOpt, out []byte, n int) ([]RTok, []byte) {
	var toks []RTok
	w := 1 << uint(g.wbits)
	palette := r.Bytes(r.In(1, 64))
	if r.P(1, 4) {
		palette = r.Bytes(256)
	}
	matchP := r.Pick(0, 1, 2, 5, 8, 9, 10)
	start := len(out)
	for len(out)-start < n {
		avail := len(out) + len(g.dict)
		if avail > w {
			avail = w
		}
		if avail == 0 || r.N(10) >= matchP {
			c := palette[r.N(len(palette))]
			toks = append(toks, RTok{Lit: int(c)})
			out = append(out, c)
			continue
		}
		var d int
		switch r.N(8) {
		case 0:
			d = 1
		case 1:
			d = r.In(1, 4)
		case 2:
			d = avail
		case 3:
			d = avail - r.N(4)
		case 4:
			d = 1 << uint(r.N(16))
		case 5:
			d = 1<<uint(r.N(16)) + 1
		default:
			d = 1 + r.N(avail)
		}
		if d < 1 {
			d = 1
		}
		if d > avail {
			d = 1 + r.N(avail)
		}
		var l int
		switch r.N(6) {
		case 0:
			l = 3
		case 1:
			l = 258
		case 2:
			l = 257
		case 3:
			l = r.In(3, 12)
		case 4:
			l = refLBase[r.N(29)]
		default:
			l = r.In(3, 258)
		}
		if d == 32768 {
			g.hit("dist32768")
		}
		if d < l {
			g.hit("overlap")
		}
		if l == 258 {
			g.hit("len258")
		}
		if d > len(out) {
			g.hit("dictref")
		}
		if d == len(out)+len(g.dict) {
			g.hit("firstbyte")
		}
		toks = append(toks, RTok{Lit: -1, Len: l, Dist: d})
		for k := 0; k < l; k++ {
			i := len(out) - d
			if i >= 0 {
				out = append(out, out[i])
			} else {
				out = append(out, g.dict[len(g.dict)+i])
			}
		}
	}
	return toks, out
}

func writeToks(w *bitW, toks []RTok, ll []byte, lc []int, dl []byte, dc []int) {
	for _, t := range toks {
		if t.Lit >= 0 {
			w.bits(lc[t.Lit], uint(ll[t.Lit]))
			continue
		}
		s, v, n := lenSym(t.Len)
		w.bits(lc[s], uint(ll[s]))
		w.bits(v, n)
		s, v, n = distSym(t.Dist)
		w.bits(dc[s], uint(dl[s]))
		w.bits(v, n)
	}
	w.bits(lc[256], uint(ll[256]))
}

func genDynamic(w *bitW, r *Rand, g *genOpt, toks []RTok) {
	var useL [286]bool
	var useD [30]bool
	useL[256] = true
	nd := 0
	for _, t := range toks {
		if t.Lit >= 0 {
			useL[t.Lit] = true
			continue
		}
		s, _, _ := lenSym(t.Len)
		useL[s] = true
		s, _, _ = distSym(t.Dist)
		if !useD[s] {
			nd++
		}
		useD[s] = true
	}
	// unused symbols may have codes too
	extra := r.Pick(0, 0, 1, 3, 20, 300)
	for k := 0; k < extra; k++ {
		useL[r.N(286)] = true
	}
	var symL []int
	for s, u := range useL {
		if u {
			symL = append(symL, s)
		}
	}
	for len(symL) < 2 {
		s := r.N(256)
		if !useL[s] {
			useL[s] = true
			symL = append(symL, s)
		}
	}
	ll := make([]byte, 286)
	max := 15
	lens := completeLens(r, len(symL), max, r.N(4))
	for i, s := range symL {
		ll[s] = lens[i]
		if lens[i] == 15 {
			g.hit("code15")
		}
	}
	dl := make([]byte, 30)
	switch {
	case nd == 0 && r.P(1, 3):
		g.hit("nodist")
	case nd == 1 && r.P(1, 2), nd == 0 && r.P(1, 2):
		// a single distance code of one bit
		s := r.N(30)
		for k, u := range useD {
			if u {
				s = k
			}
		}
		dl[s] = 1
		g.hit("onedist")
	default:
		for k := r.N(10); k > 0; k-- {
			useD[r.N(30)] = true
		}
		var symD []int
		for s, u := range useD {
			if u {
				symD = append(symD, s)
			}
		}
		for len(symD) < 2 {
			s := r.N(30)
			if !useD[s] {
				useD[s] = true
				symD = append(symD, s)
			}
		}
		l := completeLens(r, len(symD), 15, r.N(4))
		for i, s := range symD {
			dl[s] = l[i]
		}
	}
	hlit, hdist := 257, 1
	for s := 257; s < 286; s++ {
		if ll[s] != 0 {
			hlit = s + 1
		}
	}
	for s := 0; s < 30; s++ {
		if dl[s] != 0 {
			hdist = s + 1
		}
	}
	if r.P(1, 2) {
		hlit = r.In(hlit, 286)
	}
	if r.P(1, 2) {
		hdist = r.In(hdist, 30)
	}
	if hlit == 286 {
		g.hit("hlit286")
	}
	if hdist == 30 {
		g.hit("hdist30")
	}
	all := append(append([]byte(nil), ll[:hlit]...), dl[:hdist]...)
	type clTok struct{ s, v int }
	var cts []clTok
	lazy := r.N(4)
	for i := 0; i < len(all); {
		run := 1
		for i+run < len(all) && all[i+run] == all[i] {
			run++
		}
		if all[i] == 0 && run >= 3 && !(lazy == 0 && r.P(1, 3)) {
			n := run
			if n > 138 {
				n = 138
			}
			if r.P(1, 3) {
				n = r.In(3, n)
			}
			if i < hlit && i+n > hlit {
				g.hit("repeatcross")
			}
			if n >= 11 && !(n == 10) {
				cts = append(cts, clTok{18, n - 11})
			} else {
				if n > 10 {
					n = 10
				}
				cts = append(cts, clTok{17, n - 3})
			}
			i += n
			continue
		}
		if i > 0 && all[i] == all[i-1] && run >= 3 && !(lazy <= 1 && r.P(1, 3)) {
			n := run
			if n > 6 {
				n = 6
			}
			if r.P(1, 3) {
				n = r.In(3, n)
			}
			if i < hlit && i+n > hlit {
				g.hit("repeatcross")
			}
			if all[i] == 0 {
				g.hit("repeatzero16")
			}
			cts = append(cts, clTok{16, n - 3})
			i += n
			continue
		}
		cts = append(cts, clTok{int(all[i]), 0})
		i++
	}
	var useC [19]bool
	for _, t := range cts {
		useC[t.s] = true
	}
	for k := r.Pick(0, 0, 1, 5, 19); k > 0; k-- {
		useC[r.N(19)] = true
	}
	var symC []int
	for s, u := range useC {
		if u {
			symC = append(symC, s)
		}
	}
	for len(symC) < 2 {
		s := r.N(19)
		if !useC[s] {
			useC[s] = true
			symC = append(symC, s)
		}
	}
	cl := make([]byte, 19)
	cls := completeLens(r, len(symC), 7, r.N(4))
	for i, s := range symC {
		cl[s] = cls[i]
		if cls[i] == 7 {
			g.hit("cl7")
		}
	}
	hclen := 4
	for i := 0; i < 19; i++ {
		if cl[refOrder[i]] != 0 && i+1 > hclen {
			hclen = i + 1
		}
	}
	if r.P(1, 3) {
		hclen = r.In(hclen, 19)
	}
	w.bits(hlit-257, 5)
	w.bits(hdist-1, 5)
	w.bits(hclen-4, 4)
	for i := 0; i < hclen; i++ {
		w.bits(int(cl[refOrder[i]]), 3)
	}
	cc := canonCodes(cl)
	for _, t := range cts {
		w.bits(cc[t.s], uint(cl[t.s]))
		switch t.s {
		case 16:
			w.bits(t.v, 2)
		case 17:
			w.bits(t.v, 3)
		case 18:
			w.bits(t.v, 7)
		}
	}
	writeToks(w, toks, ll, canonCodes(ll), dl, canonCodes(dl))
}

// genDeflate returns a raw deflate stream and its content.
func genDeflate(r *Rand, g *genOpt) (comp, out []byte) {
	w := &bitW{}
	if g.wbits == 0 {
		g.wbits = 15
	}
	nb := 0
	for {
		nb++
		final := len(out) >= g.size || nb > 60
		if g.maxBlk > 0 && nb >= g.maxBlk {
			final = true
		}
		if !final && r.P(1, 10) {
			g.hit("emptyblock")
		}
		f := 0
		if final {
			f = 1
		}
		rest := g.size - len(out)
		if rest < 0 {
			rest = 0
		}
		n := 0
		if rest > 0 {
			switch r.N(4) {
			case 0:
				n = r.N(10)
			case 1:
				n = r.N(300)
			case 2:
				n = rest
			default:
				n = r.N(rest + 1)
			}
			if n > rest {
				n = rest
			}
		}
		switch r.N(3) {
		case 0:
			if n > 65535 {
				n = 65535
				g.hit("stored65535")
			}
			w.bits(f, 1)
			w.bits(0, 2)
			w.align(r.N(256))
			p := genData(r, r.Pick(0, 1, 2, 3), n)
			var h [4]byte
			binary.LittleEndian.PutUint16(h[:], uint16(n))
			binary.LittleEndian.PutUint16(h[2:], ^uint16(n))
			w.b = append(w.b, h[:]...)
			w.b = append(w.b, p...)
			out = append(out, p...)
			g.hit("stored")
		case 1:
			w.bits(f, 1)
			w.bits(1, 2)
			var toks []RTok
			toks, out = genTokens(r, g, out, n)
			writeToks(w, toks, refStaticLLLens, staticLC, refStaticDLn, staticDC)
			g.hit("static")
		default:
			w.bits(f, 1)
			w.bits(2, 2)
			var toks []RTok
			toks, out = genTokens(r, g, out, n)
			genDynamic(w, r, g, toks)
			g.hit("dynamic")
		}
		if final {
			break
		}
	}
	w.align(r.N(256))
	return w.b, out
}

var staticLC, staticDC []int

type GenStream struct {
	Format RefFormat
	Comp   []byte
	Out    []byte
	WBits  int
	HdrLen int
	TrLen  int
}

// wrap puts a raw deflate body into a container.
func wrapStream(r *Rand, f RefFormat, body, out, dict []byte, wbits int, g *genOpt) *GenStream {
	s := &GenStream{Format: f, Out: out, WBits: wbits}
	switch f {
	case RZlib:
		cmf := byte(8 | (wbits-8)<<4)
		flg := byte(r.N(4)) << 6
		if dict != nil {
			flg |= 0x20
		}
		v := int(cmf)<<8 | int(flg)
		flg |= byte((31 - v%31) % 31)
		h := []byte{cmf, flg}
		if dict != nil {
			h = binary.BigEndian.AppendUint32(h, stdadler.Checksum(dict))
		}
		s.HdrLen = len(h)
		s.Comp = append(h, body...)
		s.Comp = binary.BigEndian.AppendUint32(s.Comp, stdadler.Checksum(out))
		s.TrLen = 4
	case RGzip:
		flags := byte(r.N(32))
		h := []byte{0x1f, 0x8b, 8, flags}
		mt := uint32(0)
		if r.P(1, 2) {
			mt = uint32(r.U64())
		}
		h = binary.LittleEndian.AppendUint32(h, mt)
		h = append(h, byte(r.Pick(0, 2, 4, r.N(256))), byte(r.Pick(0, 3, 11, 13, 14, 255, r.N(256))))
		if flags&4 != 0 {
			var x []byte
			if r.P(1, 3) {
				n := r.Pick(0, 1, 2, 3, 4, 5, 100, 65535)
				if g.short {
					n = r.N(6)
				}
				x = r.Bytes(n) // not necessarily well-formed subfields
				g.hit("rawextra")
			} else {
				for k := r.N(4); k > 0; k-- {
					n := r.Pick(0, 1, 7, 300)
					x = append(x, 'A'+byte(k), 'p', byte(n), byte(n>>8))
					x = append(x, r.Bytes(n)...)
				}
			}
			h = binary.LittleEndian.AppendUint16(h, uint16(len(x)))
			h = append(h, x...)
			g.hit("fextra")
		}
		zs := func() {
			n := r.Pick(0, 1, 10, 255, 256, 1000, 5000)
			if g.short {
				n = r.N(3)
			} else if r.P(1, 40) {
				n = r.Pick(32767, 32768, 40000, 65535, 65536, 70000)
				g.hit("longname")
			}
			for k := 0; k < n; k++ {
				h = append(h, byte(1+r.N(255)))
			}
			h = append(h, 0)
		}
		if flags&8 != 0 {
			zs()
			g.hit("fname")
		}
		if flags&16 != 0 {
			zs()
			g.hit("fcomment")
		}
		if flags&2 != 0 {
			h = binary.LittleEndian.AppendUint16(h, uint16(stdcrc.ChecksumIEEE(h)))
			g.hit("fhcrc")
		}
		s.HdrLen = len(h)
		s.Comp = append(h, body...)
		s.Comp = binary.LittleEndian.AppendUint32(s.Comp, stdcrc.ChecksumIEEE(out))
		s.Comp = binary.LittleEndian.AppendUint32(s.Comp, uint32(len(out)))
		s.TrLen = 8
	default:
		s.Format = RRaw
		s.Comp = body
	}
	return s
}

// looksLikeContainer tells whether auto-detection would take these bytes for
// gzip or zlib.
func looksLikeContainer(b []byte) bool {
	if len(b) < 2 {
		return false
	}
	return b[0] == 0x1f && b[1] == 0x8b || b[0]&15 == 8 && (int(b[0])<<8|int(b[1]))%31 == 0
}

// genStream draws a complete valid stream.
func genStream(r *Rand, f RefFormat, g *genOpt) *GenStream {
	if g.wbits == 0 {
		g.wbits = r.Pick(8, 9, 10, 11, 12, 13, 14, 15, 15, 15)
	}
	body, out := genDeflate(r, g)
	return wrapStream(r, f, body, out, g.dict, g.wbits, g)
}

func genOutSize(r *Rand) int {
	switch r.N(8) {
	case 0:
		return 0
	case 1:
		return r.N(10)
	case 2, 3:
		return r.N(500)
	case 4, 5:
		return r.N(8000)
	case 6:
		return r.N(80000)
	default:
		return r.Pick(32767, 32768, 32769, 65535, 65536, 66000, 131072, 200000)
	}
}

// ---------------------------------------------------------------- mutation

func mutate(r *Rand, s *GenStream) ([]byte, string) {
	b := append([]byte(nil), s.Comp...)
	n := len(b)
	switch r.N(12) {
	case 0, 1:
		if n == 0 {
			return b, "none"
		}
		k := r.N(n)
		return b[:k], "truncate"
	case 2:
		if n == 0 {
			return b, "none"
		}
		i := r.N(n)
		b[i] ^= 1 << uint(r.N(8))
		return b, "bitflip"
	case 3:
		if n == 0 {
			return b, "none"
		}
		// early part: headers and trees
		m := s.HdrLen + 40
		if m > n {
			m = n
		}
		i := r.N(m)
		b[i] ^= 1 << uint(r.N(8))
		return b, "bitflip-early"
	case 4:
		if n == 0 {
			return b, "none"
		}
		i := r.N(n)
		b[i] = byte(r.N(256))
		return b, "setbyte"
	case 5:
		if n == 0 {
			return b, "none"
		}
		i := r.N(n)
		return append(b[:i:i], b[i+1:]...), "delete"
	case 6:
		i := r.N(n + 1)
		ins := r.Bytes(r.In(1, 4))
		return append(append(append([]byte(nil), b[:i]...), ins...), b[i:]...), "insert"
	case 7:
		if s.TrLen == 0 || n < s.TrLen {
			return b, "none"
		}
		tamperTrailer(r, b[n-s.TrLen:])
		return b, "trailer"
	case 8:
		if s.HdrLen == 0 || n < s.HdrLen {
			return b, "none"
		}
		if s.HdrLen > 11 && b[0] == 0x1f && b[1] == 0x8b && b[3]&2 != 0 && r.P(1, 2) {
			// the header's own checksum: values a sloppy check might excuse
			f := b[s.HdrLen-2 : s.HdrLen]
			v := binary.LittleEndian.Uint16(f)
			o := v
			switch r.N(7) {
			case 0:
				v = 0
			case 1:
				v = 0xffff
			case 2:
				v = ^v
			case 3:
				v = v<<8 | v>>8
			case 4:
				v ^= uint16(1+r.N(255)) << 8
			case 5: // the upper half of the CRC-32
				v = uint16(stdcrc.ChecksumIEEE(b[:s.HdrLen-2]) >> 16)
			default: // including the field itself
				v = uint16(stdcrc.ChecksumIEEE(b[:s.HdrLen]))
			}
			if v == o {
				v ^= 1
			}
			binary.LittleEndian.PutUint16(f, v)
			return b, "header-crc"
		}
		i := r.N(s.HdrLen)
		if r.P(1, 2) && s.HdrLen >= 10 {
			i = r.N(10)
		}
		b[i] ^= 1 << uint(r.N(8))
		return b, "header"
	case 9:
		if n < 4 {
			return b, "none"
		}
		i := r.N(n - 1)
		j := r.In(i, n-1)
		k := r.N(n)
		copy(b[k:], b[i:j])
		return b, "copyrange"
	case 10:
		return append(b, r.Bytes(r.In(1, 20))...), "trailing"
	default:
		if n == 0 {
			return b, "none"
		}
		for k := r.In(2, 6); k > 0; k-- {
			b[r.N(n)] ^= byte(r.N(256))
		}
		return b, "multi"
	}
}

// tamperTrailer changes a checksum or length field in one of the ways a
// sloppy comparison might let through.
func tamperTrailer(r *Rand, t []byte) {
	f := t[:4]
	if len(t) == 8 && r.P(1, 3) {
		f = t[4:]
	}
	v := binary.LittleEndian.Uint32(f)
	switch r.N(11) {
	case 0:
		v = 0
	case 1:
		v = ^uint32(0)
	case 2:
		v = ^v
	case 3:
		v = v<<24 | v>>24 | v<<8&0xff0000 | v>>8&0xff00
	case 4:
		v = v<<16 | v>>16
	case 5:
		v ^= uint32(1+r.N(65535)) << 16 // low half stays
	case 6:
		v ^= uint32(1 + r.N(65535)) // high half stays
	case 7:
		v++
	case 8:
		v = 1
	default:
		v ^= 1 << uint(r.N(32))
	}
	if v == binary.LittleEndian.Uint32(f) {
		v ^= 0x80
	}
	binary.LittleEndian.PutUint32(f, v)
}
