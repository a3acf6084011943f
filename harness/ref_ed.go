package main

// Exact Ed25519 arithmetic on math/big, BIP32-Ed25519 V2 and RFC 8032 signing for extended keys.

import (
	"crypto/hmac"
	"crypto/sha256"
	"crypto/sha512"
	"encoding/binary"
	"math/big"
)

var (
	edP, edL, edD, edD2, edSqrtM1 *big.Int
	edBase                        *pt
	edPow                         [256]*pt // 2^i B
	big1                          = big.NewInt(1)
)

// pt is a point in extended coordinates (X:Y:Z:T).
type pt struct{ X, Y, Z, T *big.Int }

func bi(s string, base int) *big.Int {
	v, ok := new(big.Int).SetString(s, base)
	if !ok {
		panic(s)
	}
	return v
}

func init() {
	edP = new(big.Int).Sub(new(big.Int).Lsh(big1, 255), big.NewInt(19))
	edL = new(big.Int).Add(new(big.Int).Lsh(big1, 252), bi("27742317777372353535851937790883648493", 10))
	inv := new(big.Int).ModInverse(big.NewInt(121666), edP)
	edD = new(big.Int).Mod(new(big.Int).Mul(big.NewInt(-121665), inv), edP)
	edD2 = new(big.Int).Mod(new(big.Int).Lsh(edD, 1), edP)
	e := new(big.Int).Rsh(new(big.Int).Sub(edP, big1), 2)
	edSqrtM1 = new(big.Int).Exp(big.NewInt(2), e, edP)
	y := new(big.Int).Mod(new(big.Int).Mul(big.NewInt(4), new(big.Int).ModInverse(big.NewInt(5), edP)), edP)
	var enc [32]byte
	le32(enc[:], y)
	b, ok := edDecode(enc[:])
	if !ok {
		panic("base point")
	}
	edBase = b
	q := b
	for i := 0; i < 256; i++ {
		edPow[i] = q
		q = edAdd(q, q)
	}
}

func le32(dst []byte, v *big.Int) {
	be := v.Bytes()
	for i := range dst {
		dst[i] = 0
	}
	for i := range be {
		dst[i] = be[len(be)-1-i]
	}
}

func leInt(b []byte) *big.Int {
	r := make([]byte, len(b))
	for i := range b {
		r[len(b)-1-i] = b[i]
	}
	return new(big.Int).SetBytes(r)
}

func mulP(a, b *big.Int) *big.Int { r := new(big.Int).Mul(a, b); return r.Mod(r, edP) }
func addP(a, b *big.Int) *big.Int { r := new(big.Int).Add(a, b); return r.Mod(r, edP) }
func subP(a, b *big.Int) *big.Int { r := new(big.Int).Sub(a, b); return r.Mod(r, edP) }

func edZero() *pt { return &pt{big.NewInt(0), big.NewInt(1), big.NewInt(1), big.NewInt(0)} }

func edAdd(p, q *pt) *pt {
	a := mulP(subP(p.Y, p.X), subP(q.Y, q.X))
	b := mulP(addP(p.Y, p.X), addP(q.Y, q.X))
	c := mulP(mulP(p.T, edD2), q.T)
	d := mulP(addP(p.Z, p.Z), q.Z)
	e, f, g, h := subP(b, a), subP(d, c), addP(d, c), addP(b, a)
	return &pt{mulP(e, f), mulP(g, h), mulP(f, g), mulP(e, h)}
}

func edNeg(p *pt) *pt { return &pt{subP(new(big.Int), p.X), p.Y, p.Z, subP(new(big.Int), p.T)} }

func edMulBase(k *big.Int) *pt {
	r := edZero()
	for i := 0; i < k.BitLen(); i++ {
		if k.Bit(i) == 1 {
			r = edAdd(r, edPow[i])
		}
	}
	return r
}

func edMul(k *big.Int, p *pt) *pt {
	r := edZero()
	for i := k.BitLen() - 1; i >= 0; i-- {
		r = edAdd(r, r)
		if k.Bit(i) == 1 {
			r = edAdd(r, p)
		}
	}
	return r
}

func edEncode(p *pt) (out [32]byte) {
	zi := new(big.Int).ModInverse(p.Z, edP)
	x, y := mulP(p.X, zi), mulP(p.Y, zi)
	le32(out[:], y)
	out[31] |= byte(x.Bit(0)) << 7
	return
}

// edDecode follows the ref10 rule: the y coordinate is taken modulo p (non-canonical y accepted).
func edDecode(b []byte) (*pt, bool) {
	c := append([]byte{}, b...)
	sign := uint(c[31] >> 7)
	c[31] &= 0x7f
	y := leInt(c)
	y.Mod(y, edP)
	y2 := mulP(y, y)
	u := subP(y2, big1)
	v := addP(mulP(edD, y2), big1)
	x2 := mulP(u, new(big.Int).ModInverse(v, edP))
	x := new(big.Int).ModSqrt(x2, edP)
	if x == nil {
		return nil, false
	}
	if x.Bit(0) != sign {
		x = subP(new(big.Int), x)
	}
	return &pt{x, y, big.NewInt(1), mulP(x, y)}, true
}

// ---------- BIP32-Ed25519 ----------

func refPub(kl []byte) [32]byte { return edEncode(edMulBase(leInt(kl[:32]))) }

func refPBKDF2(password, salt []byte, iter, keyLen int) []byte {
	var out []byte
	mac := hmac.New(sha512.New, password)
	for blk := uint32(1); len(out) < keyLen; blk++ {
		mac.Reset()
		mac.Write(salt)
		var be [4]byte
		binary.BigEndian.PutUint32(be[:], blk)
		mac.Write(be[:])
		u := mac.Sum(nil)
		t := append([]byte{}, u...)
		for i := 1; i < iter; i++ {
			mac.Reset()
			mac.Write(u)
			u = mac.Sum(u[:0])
			for j := range t {
				t[j] ^= u[j]
			}
		}
		out = append(out, t...)
	}
	return out[:keyLen]
}

func refIcarus(entropy, password []byte) []byte {
	k := refPBKDF2(password, entropy, 4096, 96)
	k[0] &= 0xf8
	k[31] = k[31]&0x1f | 0x40
	return k
}

func refRoot(seed []byte) []byte {
	h := sha512.Sum512(seed)
	h[0] &= 0xf8
	h[31] = h[31]&0x5f | 0x40
	cc := sha256.Sum256(append([]byte{1}, seed...))
	return append(h[:], cc[:]...)
}

func hmac512(key []byte, parts ...[]byte) []byte {
	m := hmac.New(sha512.New, key)
	for _, p := range parts {
		m.Write(p)
	}
	return m.Sum(nil)
}

func refDerive(k []byte, index uint32) []byte {
	idx := []byte{byte(index), byte(index >> 8), byte(index >> 16), byte(index >> 24)}
	var z, c []byte
	if index>>31 == 1 {
		z = hmac512(k[64:96], []byte{0}, k[:64], idx)
		c = hmac512(k[64:96], []byte{1}, k[:64], idx)
	} else {
		p := refPub(k)
		z = hmac512(k[64:96], []byte{2}, p[:], idx)
		c = hmac512(k[64:96], []byte{3}, p[:], idx)
	}
	m256 := new(big.Int).Lsh(big1, 256)
	zl := leInt(z[:28])
	kl := new(big.Int).Add(new(big.Int).Lsh(zl, 3), leInt(k[:32]))
	kl.Mod(kl, m256)
	kr := new(big.Int).Add(leInt(z[32:64]), leInt(k[32:64]))
	kr.Mod(kr, m256)
	out := make([]byte, 96)
	le32(out[:32], kl)
	le32(out[32:64], kr)
	copy(out[64:], c[32:])
	return out
}

func refSign(k, msg []byte) []byte {
	pub := refPub(k)
	return refSignPub(k, msg, pub)
}

func refSignPub(k, msg []byte, pub [32]byte) []byte {
	sum := func(parts ...[]byte) *big.Int {
		h := sha512.New()
		for _, p := range parts {
			h.Write(p)
		}
		v := leInt(h.Sum(nil))
		return v.Mod(v, edL)
	}
	r := sum(k[32:64], msg)
	R := edEncode(edMulBase(r))
	h := sum(R[:], pub[:], msg)
	s := new(big.Int).Mul(h, leInt(k[:32]))
	s.Add(s, r)
	s.Mod(s, edL)
	sig := make([]byte, 64)
	copy(sig, R[:])
	le32(sig[32:], s)
	return sig
}
