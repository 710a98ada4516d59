package main

import (
	"encoding/binary"
)

// genBad produces a stream whose violation is placed deliberately, after some
// correct blocks.  The reference decoder gives the verdict; kind only selects.

const nBadKinds = 26

func writeDynHeader(w *bitW, final int, hlit, hdist, hclen int, cl []byte) {
	w.bits(final, 1)
	w.bits(2, 2)
	w.bits(hlit-257, 5)
	w.bits(hdist-1, 5)
	w.bits(hclen-4, 4)
	for i := 0; i < hclen; i++ {
		w.bits(int(cl[refOrder[i]]), 3)
	}
}

// flat code: symbols 0..15 with 4 bits each.
func flatCL() []byte {
	cl := make([]byte, 19)
	for i := 0; i < 16; i++ {
		cl[i] = 4
	}
	return cl
}

// flatCLRep: 0..13 and 16,17,18 (some at 5 bits) complete.
func flatCLRep() []byte {
	cl := make([]byte, 19)
	// 13 codes of 4 bits = 13/16, 6 of 5 bits = 6/32 = 3/16 -> complete
	for i := 0; i < 13; i++ {
		cl[i] = 4
	}
	for i := 13; i < 19; i++ {
		cl[i] = 5
	}
	return cl
}

func genBad(r *Rand, kind int, dictLen int, wbits int) []byte {
	w := &bitW{}
	var out []byte
	g := &genOpt{wbits: wbits}
	for k := r.N(4); k > 0; k-- {
		n := r.Pick(0, 1, 5, 30, 200, 1500)
		switch r.N(3) {
		case 0:
			w.bits(0, 3)
			w.align(0)
			p := genData(r, r.N(4), n)
			w.b = binary.LittleEndian.AppendUint16(w.b, uint16(n))
			w.b = binary.LittleEndian.AppendUint16(w.b, ^uint16(n))
			w.b = append(w.b, p...)
			out = append(out, p...)
		case 1:
			w.bits(0, 1)
			w.bits(1, 2)
			var t []RTok
			t, out = genTokens(r, g, out, n)
			writeToks(w, t, refStaticLLLens, staticLC, refStaticDLn, staticDC)
		default:
			w.bits(0, 1)
			w.bits(2, 2)
			var t []RTok
			t, out = genTokens(r, g, out, n)
			genDynamic(w, r, g, t)
		}
	}
	fin := r.N(2)
	lit := func(n int) { // static literals
		for ; n > 0; n-- {
			c := r.N(256)
			w.bits(staticLC[c], uint(refStaticLLLens[c]))
			out = append(out, byte(c))
		}
	}
	static := func() {
		w.bits(fin, 1)
		w.bits(1, 2)
		lit(r.Pick(0, 0, 1, 3, 50))
	}
	match := func(l, d int) {
		s, v, n := lenSym(l)
		w.bits(staticLC[s], uint(refStaticLLLens[s]))
		w.bits(v, n)
		s, v, n = distSym(d)
		w.bits(staticDC[s], 5)
		w.bits(v, n)
	}
	avail := func() int { return len(out) + dictLen }
	switch kind {
	case 0: // reserved block type
		w.bits(fin, 1)
		w.bits(3, 2)
	case 1: // LEN/NLEN mismatch
		w.bits(fin, 3)
		w.align(r.N(256))
		n := uint16(r.N(300))
		m := ^n
		switch r.N(3) {
		case 0:
			m ^= 1 << uint(r.N(16))
		case 1:
			m = n
		default:
			m ^= uint16(1 + r.N(65535))
		}
		w.b = binary.LittleEndian.AppendUint16(w.b, n)
		w.b = binary.LittleEndian.AppendUint16(w.b, m)
		w.b = append(w.b, r.Bytes(int(n))...)
	case 2: // static reserved length symbol
		static()
		s := 286 + r.N(2)
		w.bits(staticLC[s], 8)
	case 3: // static reserved distance symbol
		static()
		lit(1)
		s, v, n := lenSym(r.In(3, 258))
		w.bits(staticLC[s], uint(refStaticLLLens[s]))
		w.bits(v, n)
		w.bits(staticDC[30+r.N(2)], 5)
		w.bits(0, 13)
	case 4: // one beyond the start
		static()
		if d := avail() + 1; d <= 32768 {
			match(r.In(3, 258), d)
		} else {
			w.bits(staticLC[287], 8)
		}
	case 5: // somewhere beyond the start or the window
		static()
		d := avail() + r.In(1, 400)
		if d > 32768 || r.P(1, 3) {
			d = r.In(1<<uint(wbits)+1, 32768)
			if wbits == 15 {
				d = 32768
			}
		}
		match(r.In(3, 258), d)
	case 6: // beyond the window limit although the data exists
		static()
		lit(1)
		w2 := 1 << uint(wbits)
		for avail() < w2+300 && len(out) < 40000 {
			match(258, 1)
			for k := 0; k < 258; k++ {
				out = append(out, out[len(out)-1])
			}
		}
		d := w2 + 1
		if r.P(1, 2) {
			d = w2 + r.In(1, 250)
		}
		if d <= 32768 {
			match(r.In(3, 258), d)
		} else {
			w.bits(staticLC[286], 8)
		}
	case 7: // too many literal/length codes
		manyCodes(r, w, fin, 287+r.N(2), r.In(1, 30))
	case 8: // too many distance codes
		manyCodes(r, w, fin, r.In(257, 286), 31+r.N(2))
	case 9: // over-subscribed code length code
		cl := make([]byte, 19)
		for k := r.In(3, 19); k > 0; k-- {
			cl[r.N(19)] = byte(r.In(1, 2))
		}
		writeDynHeader(w, fin, r.In(257, 286), r.In(1, 30), 19, cl)
	case 10: // all code length codes zero
		writeDynHeader(w, fin, 257, 1, r.In(4, 19), make([]byte, 19))
	case 11: // repeat without a previous length
		cl := flatCLRep()
		writeDynHeader(w, fin, 257, 1, 19, cl)
		cc := canonCodes(cl)
		w.bits(cc[16], uint(cl[16]))
		w.bits(r.N(4), 2)
	case 12, 13, 14: // repeat running over the end
		cl := flatCLRep()
		hl, hd := r.In(257, 286), r.In(1, 30)
		writeDynHeader(w, fin, hl, hd, 19, cl)
		cc := canonCodes(cl)
		i, tot := 0, hl+hd
		sym := r.In(16, 18)
		max := map[int]int{16: 6, 17: 10, 18: 138}[sym]
		for i < tot-1 && !(tot-i < max && r.P(1, 2)) {
			s := 9
			if i == 256 {
				s = 1
			} else if i > 8 {
				s = 0
			}
			w.bits(cc[s], uint(cl[s]))
			i++
		}
		rest := tot - i
		lo := rest + 1
		w.bits(cc[sym], uint(cl[sym]))
		switch sym {
		case 16:
			n := r.In(lo, 6)
			if n < 3 {
				n = 3
			}
			if lo > 6 {
				n = 6
			}
			w.bits(n-3, 2)
		case 17:
			n := 10
			if lo < 10 {
				n = r.In(lo, 10)
			}
			if n < 3 {
				n = 3
			}
			w.bits(n-3, 3)
		default:
			n := 138
			if lo < 138 {
				n = r.In(lo, 138)
			}
			if n < 11 {
				n = 11
			}
			w.bits(n-11, 7)
		}
	case 15, 16: // over-subscribed literal/length or distance code
		cl := flatCL()
		hl, hd := r.In(257, 286), r.In(2, 30)
		writeDynHeader(w, fin, hl, hd, 19, cl)
		cc := canonCodes(cl)
		for i := 0; i < hl+hd; i++ {
			s := 0
			if kind == 15 {
				if i < hl {
					s = 8 // 257+ codes of 8 bits: one too many
				} else {
					s = 5
				}
			} else {
				switch {
				case i == 255:
					s = 1
				case i == 256:
					s = 1
				case i >= hl:
					s = r.Pick(1, 1, 2, 3)
				}
			}
			w.bits(cc[s], uint(cl[s]))
		}
	case 17, 18: // unassigned code used: single distance code, other bit
		lit(0)
		ll := make([]byte, 286)
		ll[256], ll['a'], ll[257] = 2, 1, 2
		dl := make([]byte, 30)
		if kind == 17 {
			dl[0] = 1
		}
		cl := flatCL()
		writeDynHeader(w, fin, 258, 1, 19, cl)
		cc := canonCodes(cl)
		for i := 0; i < 258; i++ {
			w.bits(cc[ll[i]], 4)
		}
		w.bits(cc[dl[0]], 4)
		lc := canonCodes(ll)
		for k := r.N(20); k > 0; k-- {
			w.bits(lc['a'], 1)
		}
		w.bits(lc['a'], 1)
		w.bits(lc[257], 2)
		w.bits(1, 1) // the only distance code is 0
	case 19: // dynamic block, reserved distance symbol cannot be coded; use distance too far
		var t []RTok
		t, out = genTokens(r, g, out, r.N(50))
		d := avail() + r.In(1, 5)
		if d > 32768 {
			d = 32768
		}
		t = append(t, RTok{Lit: -1, Len: r.In(3, 258), Dist: d})
		w.bits(fin, 1)
		w.bits(2, 2)
		genDynamic(w, r, g, t)
	case 20: // stored block shorter than declared (truncation)
		w.bits(fin, 3)
		w.align(0)
		n := r.In(1, 2000)
		w.b = binary.LittleEndian.AppendUint16(w.b, uint16(n))
		w.b = binary.LittleEndian.AppendUint16(w.b, ^uint16(n))
		w.b = append(w.b, r.Bytes(r.N(n))...)
		return w.b
	case 21: // incomplete literal code (lenient area)
		cl := flatCL()
		writeDynHeader(w, fin, 257, 1, 19, cl)
		cc := canonCodes(cl)
		for i := 0; i < 258; i++ {
			s := 0
			if i == 256 || i == 'a' || i == 'b' {
				s = 3
			}
			w.bits(cc[s], 4)
		}
		w.bits(r.N(256), 8)
	case 22: // only the final block missing
		w.align(0)
		return w.b
	case 23: // no end-of-block code
		cl := flatCL()
		writeDynHeader(w, fin, 257, 1, 19, cl)
		cc := canonCodes(cl)
		for i := 0; i < 258; i++ {
			s := 0
			if i == 'x' || i == 'y' {
				s = 1
			}
			w.bits(cc[s], 4)
		}
		w.bits(r.N(256), 8)
	case 24: // copy with nothing produced at all
		static()
		if len(out) == 0 && dictLen == 0 {
			match(3, 1)
		} else {
			w.bits(staticLC[286], 8)
		}
	case 25: // unassigned literal code in an incomplete tree with distance part fine
		cl := flatCL()
		writeDynHeader(w, fin, 257, 2, 19, cl)
		cc := canonCodes(cl)
		for i := 0; i < 259; i++ {
			s := 0
			if i == 256 || i == 'q' {
				s = 1
			}
			if i == 257 {
				s = 15
			}
			w.bits(cc[s], 4)
		}
		w.bits(0, 1)
	}
	w.align(0)
	w.b = append(w.b, r.Bytes(r.Pick(0, 0, 1, 4, 40))...)
	return w.b
}

// manyCodes writes a dynamic block that is valid except that it declares too
// many codes: the surplus ones are unused, or one of them completes the code.
func manyCodes(r *Rand, w *bitW, fin, nLL, nD int) {
	cl := flatCL()
	writeDynHeader(w, fin, nLL, nD, 19, cl)
	cc := canonCodes(cl)
	ll, d := make([]byte, nLL), make([]byte, nD)
	ll[256] = 1
	x := r.N(256)
	if nLL > 286 && r.P(1, 3) {
		x = nLL - 1
	}
	ll[x] = 1
	d[0] = 1
	if nD > 30 && r.P(1, 3) {
		d[nD-1] = 1
	}
	for _, l := range append(ll[:nLL:nLL], d...) {
		w.bits(cc[l], uint(cl[l]))
	}
	lc := canonCodes(ll)
	if x < 256 {
		for k := r.In(1, 20); k > 0; k-- {
			w.bits(lc[x], 1)
		}
	}
	w.bits(lc[256], 1)
	if fin == 0 {
		w.bits(3, 10) // a final static block with nothing in it
	}
}
