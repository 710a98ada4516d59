package main

import (
	"fmt"
	stdadler "hash/adler32"
	stdcrc "hash/crc32"
	"strings"
)

// Payload generators: each kind aims at a different part of the compressor.

var words = strings.Fields("the of and a to in is you that it he was for on are as with his they I at be this have from or one had by word but not what all were we when your can said there use an each which she do how their if will up other about out many then them these so some her would make like him into time has look two more write go see number no way could people my than first water been call who oil its now find long down day did get come made may part")

const nDataKinds = 15

func genData(r *Rand, kind, n int) []byte {
	if n <= 0 {
		return []byte{}
	}
	switch kind {
	case 0:
		return r.Bytes(n)
	case 1: // a single run
		b := make([]byte, n)
		c := byte(r.N(256))
		if r.P(1, 2) {
			c = 0
		}
		for i := range b {
			b[i] = c
		}
		return b
	case 2: // text
		var sb []byte
		for len(sb) < n {
			sb = append(sb, words[r.N(len(words))]...)
			if r.P(1, 12) {
				sb = append(sb, ".\n"...)
			} else {
				sb = append(sb, ' ')
			}
		}
		return sb[:n]
	case 3: // small alphabet
		k := r.In(2, 8)
		base := r.N(240)
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(base + r.N(k))
		}
		return b
	case 4: // Fibonacci frequencies: deep Huffman trees
		k := r.In(16, 32)
		w := make([]uint64, k)
		w[0], w[1] = 1, 1
		var tot uint64 = 2
		for i := 2; i < k; i++ {
			w[i] = w[i-1] + w[i-2]
			tot += w[i]
		}
		perm := r.Bytes(1)[0] | 1
		b := make([]byte, n)
		if r.P(1, 2) {
			// exact frequencies, small ones first, then shuffled
			o := 0
			for i := 0; i < k && o < n; i++ {
				for c := uint64(0); c < w[i] && o < n; c++ {
					b[o] = byte(i) * perm
					o++
				}
			}
			for ; o < n; o++ {
				b[o] = byte(k-1) * perm
			}
			for i := n - 1; i > 0; i-- {
				j := r.N(i + 1)
				b[i], b[j] = b[j], b[i]
			}
			return b
		}
		for i := range b {
			x := r.U64() % tot
			for j := 0; j < k; j++ {
				if x < w[j] {
					b[i] = byte(j) * perm
					break
				}
				x -= w[j]
			}
		}
		return b
	case 5: // LZ structure with chosen distances
		return genLZ(r, n, 0)
	case 6: // periodic
		p := r.Pick(1, 2, 3, 4, 5, 7, 31, 255, 256, 257, 258, 259, 511, 512, 1023, 4095, 4096, 4097, 16384, 32767, 32768, 32769, 1+r.N(40000))
		seed := r.Bytes(p)
		b := make([]byte, n)
		for i := range b {
			b[i] = seed[i%p]
		}
		return b
	case 7: // runs
		b := make([]byte, 0, n)
		for len(b) < n {
			c := byte(r.N(256))
			l := r.Pick(1, 1, 2, 3, 4, 5, 10, 257, 258, 259, 260, 516, 600, 1+r.N(100))
			for ; l > 0 && len(b) < n; l-- {
				b = append(b, c)
			}
		}
		return b
	case 8: // mixture of segments
		var b []byte
		for len(b) < n {
			m := 1 + r.N(n)
			if m > n-len(b) {
				m = n - len(b)
			}
			b = append(b, genData(r, r.N(8), m)...)
		}
		return b
	case 9: // every byte value, permuted, few repeats
		b := make([]byte, n)
		off := r.N(256)
		mul := r.N(128)*2 + 1
		for i := range b {
			b[i] = byte((i*mul + off + i/256))
		}
		return b
	case 10: // geometric frequencies over a large alphabet
		b := make([]byte, n)
		for i := range b {
			v := 0
			x := r.U64()
			for x&1 == 1 && v < 60 {
				v++
				x >>= 1
			}
			b[i] = byte(v * 4)
		}
		return b
	case 11: // mostly one byte, sparse others
		b := make([]byte, n)
		den := r.Pick(10, 50, 200, 1000, 5000)
		for i := range b {
			if r.P(1, den) {
				b[i] = byte(r.N(256))
			}
		}
		return b
	case 12: // binary with 4-byte records
		b := make([]byte, n)
		var v uint32
		for i := 0; i+4 <= n; i += 4 {
			v += uint32(r.N(20))
			b[i], b[i+1], b[i+2], b[i+3] = byte(v), byte(v>>8), byte(v>>16), byte(v>>24)
		}
		return b
	case 13: // JSON-like
		var sb []byte
		for len(sb) < n {
			sb = append(sb, fmt.Sprintf(`{"id":%d,"name":"%s","v":%d.%d},`, r.N(100000), words[r.N(len(words))], r.N(100), r.N(1000))...)
		}
		return sb[:n]
	default: // repeated random blocks at a far distance
		blk := r.Bytes(r.In(16, 3000))
		var b []byte
		for len(b) < n {
			b = append(b, blk...)
			gap := r.Pick(0, 1, 10, 200, 256-len(blk)%256, 5000, 29000, 32768-len(blk), 32769-len(blk), 33000)
			if gap < 0 {
				gap = 0
			}
			b = append(b, r.Bytes(gap)...)
		}
		return b[:n]
	}
}

// genLZ produces data as random literals and copies whose distances cluster
// on window-size boundaries.
func genLZ(r *Rand, n, wb int) []byte {
	if wb == 0 {
		wb = r.In(8, 15)
	}
	w := 1 << uint(wb)
	b := make([]byte, 0, n)
	for len(b) < n {
		if len(b) < 4 || r.P(1, 3) {
			b = append(b, r.Bytes(r.In(1, 12))...)
			continue
		}
		d := 0
		switch r.N(6) {
		case 0:
			d = r.In(1, 8)
		case 1:
			d = w
		case 2:
			d = w - r.N(5)
		case 3:
			d = w + r.N(5)
		case 4:
			d = 1 + r.N(w)
		default:
			d = 1 + r.N(len(b))
		}
		if d > len(b) {
			d = len(b)
		}
		l := r.Pick(3, 4, 5, 10, 11, 12, 66, 130, 131, 256, 257, 258, 259, 515, 516, 517, r.In(3, 300))
		for ; l > 0; l-- {
			b = append(b, b[len(b)-d])
		}
	}
	return b[:n]
}

var edgeSizes = []int{0, 1, 2, 3, 4, 5, 255, 256, 257, 258, 259, 260, 511, 512, 513, 1023, 1024, 2047, 2048, 4094, 4095, 4096, 4097, 4098, 8191, 8192, 8193, 16384, 32767, 32768, 32769, 61439, 61440, 61441, 65534, 65535, 65536, 65537, 69632, 98304, 131071, 131072, 131073, 196608, 262144, 300000}

// genSize picks a payload size; max caps it.
func genSize(r *Rand, max int) int {
	var n int
	switch r.N(10) {
	case 0, 1:
		n = r.N(20)
	case 2, 3:
		n = r.N(400)
	case 4, 5:
		n = r.N(9000)
	case 6:
		n = edgeSizes[r.N(len(edgeSizes))]
	case 7:
		n = r.N(40000)
	case 8:
		n = r.N(140000)
	default:
		n = edgeSizes[r.N(len(edgeSizes))] + r.N(7)
	}
	if n > max {
		n = r.N(max + 1)
	}
	return n
}

func genPayload(r *Rand, max int) []byte {
	b := genData(r, r.N(nDataKinds), genSize(r, max))
	if len(b)+1200 <= max && r.P(1, 25) {
		b = forced(r, b)
	}
	return b
}

// forceCRC appends four bytes which make the CRC-32 of it all the wanted one.
func forceCRC(b []byte, want uint32) []byte {
	t := stdcrc.IEEETable
	var rev [256]byte // table entry by its top byte
	for i, v := range t {
		rev[v>>24] = byte(i)
	}
	// run the register backwards over four bytes
	back := ^want
	var idx [4]byte
	for k := 3; k >= 0; k-- {
		idx[k] = rev[back>>24]
		back = (back ^ t[idx[k]]) << 8
	}
	reg := ^stdcrc.ChecksumIEEE(b)
	out := append([]byte(nil), b...)
	for k := 0; k < 4; k++ {
		x := idx[k] ^ byte(reg)
		out = append(out, x)
		reg = t[byte(reg)^x] ^ reg>>8
	}
	return out
}

// forceAdler appends 1200 bytes which make the Adler-32 of it all the wanted
// one (both halves below 65521).
func forceAdler(b []byte, want uint32) []byte {
	const m, mod = 1200, 65521
	s := stdadler.Checksum(b)
	a, bb := int(s&0xffff), int(s>>16)
	sum := ((int(want&0xffff)-a)%mod + mod) % mod
	for sum < 72000 {
		sum += mod
	}
	x := make([]int, m)
	for i := range x {
		x[i] = sum / m
	}
	for i := 0; i < sum%m; i++ {
		x[i]++
	}
	w := m * a
	for i, v := range x {
		w += (m - i) * v
	}
	d := ((int(want>>16)-bb-w)%mod + mod) % mod // to be added to w
	for lo, hi := 0, m-1; d > 0; {
		// moving one unit from hi to lo adds hi-lo
		k := hi - lo
		if k > d {
			lo = hi - d
			k = d
		}
		n := d / k
		if n > 20 {
			n = 20
		}
		x[lo] += n
		x[hi] -= n
		d -= n * k
		if d > 0 {
			hi--
			lo++
			if lo >= hi {
				lo, hi = 0, m-1
			}
		}
	}
	out := append([]byte(nil), b...)
	for _, v := range x {
		out = append(out, byte(v))
	}
	return out
}

var specialCRC = []uint32{0, 1, 0xffffffff, 0x0000ffff, 0xffff0000, 0x80000000, 0x7fffffff}
var specialAdler = []uint32{0, 1, 0x00010000, 0x00010001, 0xfff0fff0, 0x0000fff0, 0xfff00000, 0x80008000, 0x00001f8b, 0x789c0000}

// forced gives data one of its checksums a special value.
func forced(r *Rand, b []byte) []byte {
	if r.P(1, 2) {
		return forceCRC(b, specialCRC[r.N(len(specialCRC))])
	}
	return forceAdler(b, specialAdler[r.N(len(specialAdler))])
}
