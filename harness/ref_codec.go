package main

// Independent models of the text and byte encodings (BIP-173, base58, CIP-19, CBOR, RFC 7693).

import (
	"encoding/binary"
	"errors"
	"hash/crc32"
	"math"
	"math/big"
	"math/bits"
	"math/rand/v2"
)

// ---------- bech32 ----------

const bechAlphabet = "qpzry9x8gf2tvdw0s3jn54khce6mua7l"

func bechPoly(v []byte) uint32 {
	gen := [5]uint32{0x3b6a57b2, 0x26508e6d, 0x1ea119fa, 0x3d4233dd, 0x2a1462b3}
	c := uint32(1)
	for _, x := range v {
		b := c >> 25
		c = (c&0x1ffffff)<<5 ^ uint32(x)
		for i := 0; i < 5; i++ {
			if b>>uint(i)&1 != 0 {
				c ^= gen[i]
			}
		}
	}
	return c
}

func bechHRP(hrp string) []byte {
	out := make([]byte, 0, 2*len(hrp)+1)
	for i := 0; i < len(hrp); i++ {
		out = append(out, hrp[i]>>5)
	}
	out = append(out, 0)
	for i := 0; i < len(hrp); i++ {
		out = append(out, hrp[i]&31)
	}
	return out
}

// refTo5 regroups bytes into 5-bit symbols with zero padding.
func refTo5(data []byte) []byte {
	n := (len(data)*8 + 4) / 5
	out := make([]byte, n)
	for i := range out {
		for b := 0; b < 5; b++ {
			pos := i*5 + b
			bit := byte(0)
			if pos < len(data)*8 {
				bit = data[pos/8] >> uint(7-pos%8) & 1
			}
			out[i] = out[i]<<1 | bit
		}
	}
	return out
}

func refBech32Symbols(hrp string, sym []byte) string { return refBech32Const(hrp, sym, 1) }

// refBech32Const uses another checksum constant (bech32m has 0x2bc830a3).
func refBech32Const(hrp string, sym []byte, konst uint32) string {
	v := append(bechHRP(hrp), sym...)
	v = append(v, 0, 0, 0, 0, 0, 0)
	mod := bechPoly(v) ^ konst
	out := []byte(hrp + "1")
	for _, s := range sym {
		out = append(out, bechAlphabet[s])
	}
	for i := 0; i < 6; i++ {
		out = append(out, bechAlphabet[mod>>uint(5*(5-i))&31])
	}
	return string(out)
}

// refBech32Short finds a text whose data part is only n < 6 symbols and still satisfies the checksum equation.
// The part before the separator is varied until the bits that n symbols cannot reach happen to agree.
func refBech32Short(r *rand.Rand, prefix string, n int) string {
	const tail = "abcdefghijklmnopqrstuvwxyz023456789_"
	for try := 0; try < 200000; try++ {
		hrp := prefix
		for i := 3; i > 0; i-- {
			hrp += string(tail[r.IntN(len(tail))])
		}
		mod := bechPoly(append(bechHRP(hrp), make([]byte, n)...)) ^ 1
		if mod>>uint(5*n) != 0 {
			continue
		}
		out := []byte(hrp + "1")
		for i := 0; i < n; i++ {
			out = append(out, bechAlphabet[mod>>uint(5*(n-1-i))&31])
		}
		return string(out)
	}
	return prefix + "1"
}

func refBech32(hrp string, data []byte) string { return refBech32Symbols(hrp, refTo5(data)) }

// ---------- base58 ----------

const b58Alphabet = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"

func refBase58(b []byte) string {
	x := new(big.Int).SetBytes(b)
	var out []byte
	m, base := new(big.Int), big.NewInt(58)
	for x.Sign() > 0 {
		x.DivMod(x, base, m)
		out = append(out, b58Alphabet[m.Int64()])
	}
	for i := 0; i < len(b) && b[i] == 0; i++ {
		out = append(out, '1')
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return string(out)
}

// ---------- variable length naturals ----------

func refNat(n uint64) []byte {
	groups := 1
	if n > 0 {
		groups = (bits.Len64(n) + 6) / 7
	}
	out := make([]byte, groups)
	for i := 0; i < groups; i++ {
		out[i] = byte(n >> uint(7*(groups-1-i)) & 0x7f)
		if i < groups-1 {
			out[i] |= 0x80
		}
	}
	return out
}

// refNatDecode returns value, length; ok=false when unterminated or above 64 bits.
func refNatDecode(b []byte) (v uint64, n int, ok bool) {
	x := new(big.Int)
	for i, c := range b {
		x.Lsh(x, 7)
		x.Or(x, big.NewInt(int64(c&0x7f)))
		if c&0x80 == 0 {
			if x.BitLen() > 64 {
				return 0, i + 1, false
			}
			return x.Uint64(), i + 1, true
		}
	}
	return 0, 0, false
}

// ---------- CBOR ----------

type Node struct {
	Major      byte
	Val        uint64  // argument (uint, negative n, tag number, simple value)
	Bytes      []byte  // byte / text string
	Arr        []*Node // array items, or [content] for a tag
	Keys, Vals []*Node // map
	Float      float64
	IsFloat    bool
	Alt        string // tells apart values that mean the same but serialize differently (model only)
	Start, End int
	Canonical  bool // shortest argument everywhere, definite lengths
}

var errCBOR = errors.New("ref cbor: malformed")

func cborParse(b []byte) (*Node, error) {
	n, p, err := cborItem(b, 0, 0)
	if err != nil {
		return nil, err
	}
	if p != len(b) {
		return nil, errors.New("ref cbor: trailing bytes")
	}
	return n, nil
}

func cborItem(b []byte, p, depth int) (*Node, int, error) {
	if p >= len(b) || depth > 200 {
		return nil, p, errCBOR
	}
	n := &Node{Start: p, Canonical: true}
	ib := b[p]
	p++
	n.Major = ib >> 5
	info := ib & 31
	indef := false
	switch {
	case info < 24:
		n.Val = uint64(info)
	case info <= 27:
		w := 1 << (info - 24)
		if p+w > len(b) {
			return nil, p, errCBOR
		}
		var v uint64
		for i := 0; i < w; i++ {
			v = v<<8 | uint64(b[p+i])
		}
		p += w
		n.Val = v
		if n.Major != 7 {
			switch {
			case info == 24 && v < 24, info == 25 && v < 1<<8, info == 26 && v < 1<<16, info == 27 && v < 1<<32:
				n.Canonical = false
			}
		}
	case info == 31 && n.Major >= 2 && n.Major <= 5:
		indef = true
		n.Canonical = false
	default:
		return nil, p, errCBOR
	}
	isBreak := func() bool { return p < len(b) && b[p] == 0xff }
	var err error
	switch n.Major {
	case 0, 1:
	case 2, 3:
		if indef {
			for !isBreak() {
				var ch *Node
				ch, p, err = cborItem(b, p, depth+1)
				if err != nil || ch.Major != n.Major {
					return nil, p, errCBOR
				}
				n.Bytes = append(n.Bytes, ch.Bytes...)
			}
			p++
		} else {
			if n.Val > uint64(len(b)-p) {
				return nil, p, errCBOR
			}
			n.Bytes = b[p : p+int(n.Val)]
			p += int(n.Val)
		}
	case 4:
		for i := uint64(0); indef || i < n.Val; i++ {
			if indef && isBreak() {
				p++
				break
			}
			var ch *Node
			ch, p, err = cborItem(b, p, depth+1)
			if err != nil {
				return nil, p, err
			}
			n.Canonical = n.Canonical && ch.Canonical
			n.Arr = append(n.Arr, ch)
		}
	case 5:
		for i := uint64(0); indef || i < n.Val; i++ {
			if indef && isBreak() {
				p++
				break
			}
			var k, v *Node
			k, p, err = cborItem(b, p, depth+1)
			if err != nil {
				return nil, p, err
			}
			v, p, err = cborItem(b, p, depth+1)
			if err != nil {
				return nil, p, err
			}
			n.Canonical = n.Canonical && k.Canonical && v.Canonical
			n.Keys, n.Vals = append(n.Keys, k), append(n.Vals, v)
		}
	case 6:
		var ch *Node
		ch, p, err = cborItem(b, p, depth+1)
		if err != nil {
			return nil, p, err
		}
		n.Canonical = n.Canonical && ch.Canonical
		n.Arr = []*Node{ch}
	case 7:
		switch info {
		case 25:
			n.IsFloat, n.Float = true, f16(uint16(n.Val))
		case 26:
			n.IsFloat, n.Float = true, float64(math.Float32frombits(uint32(n.Val)))
		case 27:
			n.IsFloat, n.Float = true, math.Float64frombits(n.Val)
		}
	}
	n.End = p
	return n, p, nil
}

func f16(h uint16) float64 {
	s := 1.0
	if h>>15 != 0 {
		s = -1
	}
	e, m := int(h>>10&31), float64(h&0x3ff)
	switch e {
	case 0:
		return s * m * math.Pow(2, -24)
	case 31:
		if m == 0 {
			return math.Inf(int(s))
		}
		return math.NaN()
	}
	return s * (1 + m/1024) * math.Pow(2, float64(e-15))
}

func (n *Node) uintKey(k uint64) *Node {
	for i, q := range n.Keys {
		if q.Major == 0 && q.Val == k {
			return n.Vals[i]
		}
	}
	return nil
}

// nodeEq is semantic equality; maps are unordered.
func nodeEq(a, b *Node) bool {
	if a.Major != b.Major {
		return false
	}
	switch a.Major {
	case 0, 1:
		return a.Val == b.Val
	case 2, 3:
		return string(a.Bytes) == string(b.Bytes)
	case 4, 6:
		if len(a.Arr) != len(b.Arr) || a.Major == 6 && a.Val != b.Val {
			return false
		}
		for i := range a.Arr {
			if !nodeEq(a.Arr[i], b.Arr[i]) {
				return false
			}
		}
		return true
	case 5:
		if len(a.Keys) != len(b.Keys) {
			return false
		}
		used := make([]bool, len(b.Keys))
	outer:
		for i := range a.Keys {
			for j := range b.Keys {
				if !used[j] && nodeEq(a.Keys[i], b.Keys[j]) && nodeEq(a.Vals[i], b.Vals[j]) {
					used[j] = true
					continue outer
				}
			}
			return false
		}
		return true
	default:
		if a.IsFloat != b.IsFloat {
			return false
		}
		if a.IsFloat {
			return a.Float == b.Float
		}
		return a.Val == b.Val
	}
}

func cborHead(major byte, v uint64) []byte {
	m := major << 5
	switch {
	case v < 24:
		return []byte{m | byte(v)}
	case v < 1<<8:
		return []byte{m | 24, byte(v)}
	case v < 1<<16:
		return binary.BigEndian.AppendUint16([]byte{m | 25}, uint16(v))
	case v < 1<<32:
		return binary.BigEndian.AppendUint32([]byte{m | 26}, uint32(v))
	}
	return binary.BigEndian.AppendUint64([]byte{m | 27}, v)
}

func cborBytes(b []byte) []byte { return append(cborHead(2, uint64(len(b))), b...) }

func cborUintLen(v uint64) int { return len(cborHead(0, v)) }

func nUint(v uint64) *Node  { return &Node{Major: 0, Val: v} }
func nBytes(b []byte) *Node { return &Node{Major: 2, Bytes: b} }
func nText(s string) *Node  { return &Node{Major: 3, Bytes: []byte(s)} }
func nArr(a ...*Node) *Node { return &Node{Major: 4, Arr: a} }
func nSimple(v byte) *Node  { return &Node{Major: 7, Val: uint64(v)} }

// ---------- Blake2b (RFC 7693) ----------

var b2iv = [8]uint64{0x6a09e667f3bcc908, 0xbb67ae8584caa73b, 0x3c6ef372fe94f82b, 0xa54ff53a5f1d36f1,
	0x510e527fade682d1, 0x9b05688c2b3e6c1f, 0x1f83d9abfb41bd6b, 0x5be0cd19137e2179}

var b2sigma = [10][16]byte{
	{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15},
	{14, 10, 4, 8, 9, 15, 13, 6, 1, 12, 0, 2, 11, 7, 5, 3},
	{11, 8, 12, 0, 5, 2, 15, 13, 10, 14, 3, 6, 7, 1, 9, 4},
	{7, 9, 3, 1, 13, 12, 11, 14, 2, 6, 5, 10, 4, 0, 15, 8},
	{9, 0, 5, 7, 2, 4, 10, 15, 14, 1, 11, 12, 6, 8, 3, 13},
	{2, 12, 6, 10, 0, 11, 8, 3, 4, 13, 7, 5, 15, 14, 1, 9},
	{12, 5, 1, 15, 14, 13, 4, 10, 0, 7, 6, 3, 9, 2, 8, 11},
	{13, 11, 7, 14, 12, 1, 3, 9, 5, 0, 15, 4, 8, 6, 2, 10},
	{6, 15, 14, 9, 11, 3, 0, 8, 12, 2, 13, 7, 1, 4, 10, 5},
	{10, 2, 8, 4, 7, 6, 1, 5, 15, 11, 9, 14, 3, 12, 13, 0},
}

func refBlake2b(size int, data []byte) []byte {
	h := b2iv
	h[0] ^= 0x01010000 ^ uint64(size)
	var t uint64
	compress := func(block []byte, last bool) {
		var m [16]uint64
		for i := range m {
			m[i] = binary.LittleEndian.Uint64(block[8*i:])
		}
		var v [16]uint64
		copy(v[:8], h[:])
		copy(v[8:], b2iv[:])
		v[12] ^= t
		if last {
			v[14] = ^v[14]
		}
		g := func(a, b, c, d int, x, y uint64) {
			v[a] += v[b] + x
			v[d] = bits.RotateLeft64(v[d]^v[a], -32)
			v[c] += v[d]
			v[b] = bits.RotateLeft64(v[b]^v[c], -24)
			v[a] += v[b] + y
			v[d] = bits.RotateLeft64(v[d]^v[a], -16)
			v[c] += v[d]
			v[b] = bits.RotateLeft64(v[b]^v[c], -63)
		}
		for r := 0; r < 12; r++ {
			s := &b2sigma[r%10]
			g(0, 4, 8, 12, m[s[0]], m[s[1]])
			g(1, 5, 9, 13, m[s[2]], m[s[3]])
			g(2, 6, 10, 14, m[s[4]], m[s[5]])
			g(3, 7, 11, 15, m[s[6]], m[s[7]])
			g(0, 5, 10, 15, m[s[8]], m[s[9]])
			g(1, 6, 11, 12, m[s[10]], m[s[11]])
			g(2, 7, 8, 13, m[s[12]], m[s[13]])
			g(3, 4, 9, 14, m[s[14]], m[s[15]])
		}
		for i := range h {
			h[i] ^= v[i] ^ v[i+8]
		}
	}
	for len(data) > 128 {
		t += 128
		compress(data[:128], false)
		data = data[128:]
	}
	var blk [128]byte
	copy(blk[:], data)
	t += uint64(len(data))
	compress(blk[:], true)
	out := make([]byte, 64)
	for i := range h {
		binary.LittleEndian.PutUint64(out[8*i:], h[i])
	}
	return out[:size]
}

func crcIEEE(b []byte) uint32 { return crc32.ChecksumIEEE(b) }
