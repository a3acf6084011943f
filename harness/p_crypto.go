package main

import (
	"bytes"
	"crypto/ed25519"
	"fmt"
	"math/big"
	"math/rand/v2"
	"sync/atomic"

	"github.com/fivebinaries/go-cardano-serialization/bip32"
	ed "github.com/fivebinaries/go-cardano-serialization/crypto/edwards25519"
)

// ---------- key generators ----------

func idx32(r *rand.Rand) uint32 {
	switch r.IntN(6) {
	case 0:
		return pick(r, uint32(0), 1, 2, 0x7ffffffe, 0x7fffffff, 0x80000000, 0x80000001, 0xfffffffe, 0xffffffff)
	case 1:
		return 0x80000000 | pick(r, uint32(1852), 1815, 0, 44, 1, 2)
	case 2:
		return uint32(r.IntN(5))
	case 3:
		return 1<<uint(r.IntN(32)) + uint32(r.IntN(3)) - 1
	}
	return u32(r) ^ uint32(r.IntN(2))<<31
}

func idxClass(i uint32) string {
	switch {
	case i == 0x7fffffff:
		return "index=2^31-1"
	case i == 0x80000000:
		return "index=2^31"
	case i >= 0x80000000:
		return "hardened"
	}
	return "soft"
}

// carryKey is a valid extended key whose halves are dense in carries.
func carryKey(r *rand.Rand) []byte {
	k := make([]byte, 96)
	copy(k, hbytes(r, 32))
	copy(k[32:], hbytes(r, 32))
	copy(k[64:], hbytes(r, 32))
	if r.IntN(2) == 0 {
		from := r.IntN(29)
		to := pick(r, 28, 29, 30, 31)
		for i := from; i < to; i++ {
			k[i] = 0xff
		}
	}
	if r.IntN(2) == 0 {
		for i := 32 + r.IntN(32); i < 64; i++ {
			k[i] = 0xff
		}
	}
	k[0] &= 0xf8
	k[31] = k[31]&0x1f | 0x40
	return k
}

// checkPublic compares the public half of a key with exact arithmetic.
func checkPublic(c *Ctx, k bip32.XPrv) {
	if k[31] > 127 {
		return
	}
	want := refPub(k)
	xp := k.Public()
	c.Failif(len(xp) != 64 || !bytes.Equal(xp[:32], want[:]) || !bytes.Equal(xp[32:], k[64:96]), "public", "public half of %x is %x, want %x%x", []byte(k), []byte(xp), want, []byte(k[64:96]))
	c.Failif(!bytes.Equal(xp.PublicKey(), want[:]), "public-key", "PublicKey is %x, want %x", []byte(xp.PublicKey()), want)
	c.Failif(!bytes.Equal(xp.ChainCode(), k[64:96]), "public-chaincode", "chain code of the public key differs")
	m := bip32.MakePublicKey(k)
	c.Failif(m != want, "make-public", "MakePublicKey gives %x, want %x", m, want)
	m = bip32.MakePublicKey(k[:64])
	c.Failif(m != want, "make-public", "MakePublicKey gives %x, want %x", m, want)
	c.Failif(!bytes.Equal(k.ChainCode(), k[64:96]), "chaincode", "ChainCode is %x", k.ChainCode())
	c.Ev("public-checked")
}

func checkDerive(c *Ctx, k bip32.XPrv, i uint32) bip32.XPrv {
	c.Log("derive %d (%#x) from %x", i, i, []byte(k))
	if i < 1<<31 && k[31] > 127 {
		return k
	}
	got := k.Derive(i)
	want := refDerive(k, i)
	c.Feat(idxClass(i))
	c.Ev("child-checked")
	c.Failif(len(got) != 96, "child-length", "child key has %d bytes", len(got))
	c.Failif(!bytes.Equal(got[:32], want[:32]), "child-left:"+idxClass(i), "left half of child %#x is %x, want %x", i, []byte(got[:32]), want[:32])
	c.Failif(!bytes.Equal(got[32:64], want[32:64]), "child-right:"+idxClass(i), "right half of child %#x is %x, want %x", i, []byte(got[32:64]), want[32:64])
	c.Failif(!bytes.Equal(got[64:], want[64:]), "child-chaincode:"+idxClass(i), "chain code of child %#x is %x, want %x", i, []byte(got[64:]), want[64:])
	return got
}

// ---------- field element model ----------

var limbPos = [10]uint{0, 26, 51, 77, 102, 128, 153, 179, 204, 230}

func feVal(f *ed.FieldElement) *big.Int {
	v := new(big.Int)
	for i, l := range f {
		v.Add(v, new(big.Int).Lsh(big.NewInt(int64(l)), limbPos[i]))
	}
	return v.Mod(v, edP)
}

// feRaw: limbs within +-(num/den)*2^25 (even) and *2^24 (odd).
func feRaw(r *rand.Rand, scale float64) (f ed.FieldElement) {
	mode := r.IntN(5)
	for i := range f {
		b := scale * float64(int64(1)<<(25-uint(i&1)))
		m := int64(b)
		switch mode {
		case 0:
			f[i] = int32(m)
		case 1:
			f[i] = int32(-m)
		case 2:
			f[i] = int32(pick(r, m, -m, 0, 1, -1, m-1))
		default:
			f[i] = int32(r.Int64N(2*m+1) - m)
		}
	}
	return
}

var feEdges []*big.Int

func cryptoSetup(*Monitor) error {
	for _, d := range []int64{0, 1, 2, 18, 19, 20, 37, 38} {
		feEdges = append(feEdges, big.NewInt(d), new(big.Int).Sub(edP, big.NewInt(d)), new(big.Int).Sub(new(big.Int).Lsh(big1, 255), big.NewInt(d+1)))
	}
	for i := uint(0); i < 255; i++ {
		feEdges = append(feEdges, new(big.Int).Lsh(big1, i))
	}
	makeTorsion()
	return nil
}

// feGen draws a field element and its value; small: within the tighter bounds.
func feGen(r *rand.Rand, c *Ctx, small bool) (f ed.FieldElement, v *big.Int) {
	switch r.IntN(6) {
	case 0:
		f = feRaw(r, 1.1)
		c.Feat("raw-limbs")
	case 1:
		if !small {
			f = feRaw(r, 3.3)
			c.Feat("extreme-limbs")
			break
		}
		f = feRaw(r, 1.0)
	case 2:
		var b [32]byte
		le32(b[:], new(big.Int).Mod(feEdges[r.IntN(len(feEdges))], new(big.Int).Lsh(big1, 255)))
		ed.FeFromBytes(&f, &b)
		c.Feat("edge-values")
	case 3:
		if !small {
			var x, y ed.FieldElement
			bx, by := [32]byte(hbytes(r, 32)), [32]byte(hbytes(r, 32))
			ed.FeFromBytes(&x, &bx)
			ed.FeFromBytes(&y, &by)
			if r.IntN(2) == 0 {
				ed.FeAdd(&f, &x, &y)
			} else {
				ed.FeSub(&f, &x, &y)
			}
			break
		}
		fallthrough
	default:
		b := [32]byte(hbytes(r, 32))
		ed.FeFromBytes(&f, &b)
	}
	return f, feVal(&f)
}

func scGen(r *rand.Rand, n int) []byte {
	b := hbytes(r, n)
	lim := new(big.Int).Lsh(big1, uint(8*n))
	put := func(v *big.Int) {
		v.Mod(v, lim)
		le32(b, v)
	}
	switch r.IntN(7) {
	case 0: // multiples of the order and neighbours
		k := new(big.Int).Mod(leInt(rbytes(r, n)), new(big.Int).Div(lim, edL))
		if r.IntN(2) == 0 {
			k = big.NewInt(int64(r.IntN(16)))
		}
		v := new(big.Int).Mul(k, edL)
		put(v.Add(v, big.NewInt(int64(r.IntN(7)-3))))
	case 1: // powers of two and neighbours
		v := new(big.Int).Lsh(big1, uint(r.IntN(8*n)))
		put(v.Add(v, big.NewInt(int64(r.IntN(5)-2))))
	case 2: // 21-bit limbs at their extremes
		v := new(big.Int)
		for i := 0; i*21 < 8*n; i++ {
			l := pick(r, int64(0), 1, 1<<20-1, 1<<20, 1<<20+1, 1<<21-1, int64(r.IntN(1<<21)))
			v.Add(v, new(big.Int).Lsh(big.NewInt(l), uint(21*i)))
		}
		put(v)
	case 3: // small
		put(big.NewInt(int64(r.IntN(70000))))
	}
	return b
}

// validScalar is below the group order.
func validScalar(r *rand.Rand) *big.Int {
	v := leInt(scGen(r, 32))
	switch r.IntN(4) {
	case 0:
		return new(big.Int).Sub(edL, big.NewInt(int64(1+r.IntN(40))))
	case 1: // long runs of ones and zeros
		v = new(big.Int)
		bit, i := uint(r.IntN(2)), 0
		for i < 252 {
			n := 1 + r.IntN(12)
			for j := 0; j < n && i < 252; j, i = j+1, i+1 {
				v.SetBit(v, i, bit)
			}
			bit ^= 1
		}
	}
	return v.Mod(v, edL)
}

// wideScalar draws from all numbers below 2^255.
func wideScalar(r *rand.Rand) *big.Int {
	b := scGen(r, 32)
	switch b[31] &= 127; r.IntN(4) {
	case 0: // a clamped key
		b[0] &= 0xf8
		b[31] |= 64
	case 1: // all ones from some bit on
		for i := r.IntN(32); i < 32; i++ {
			b[i] = 255
		}
		b[31] = 127
	}
	return leInt(b)
}

func ptVal(x, y, z *ed.FieldElement) [32]byte {
	p := &pt{feVal(x), feVal(y), feVal(z), nil}
	if p.Z.Sign() == 0 {
		return [32]byte{0xba, 0xad}
	}
	return edEncode(p)
}

// extOK: Z != 0, T Z = X Y and the point is on the curve.
func extOK(p *ed.ExtendedGroupElement) bool {
	x, y, z, t := feVal(&p.X), feVal(&p.Y), feVal(&p.Z), feVal(&p.T)
	if z.Sign() == 0 || mulP(t, z).Cmp(mulP(x, y)) != 0 {
		return false
	}
	l := mulP(subP(mulP(y, y), mulP(x, x)), mulP(z, z))
	z2 := mulP(z, z)
	rr := addP(mulP(z2, z2), mulP(edD, mulP(mulP(x, x), mulP(y, y))))
	return l.Cmp(rr) == 0
}

// smallOrder encodings of the eight torsion points.
var torsion []*pt

func makeTorsion() {
	// a point of order 8 is L times a random point outside the prime-order group
	r := rand.New(rand.NewPCG(1, 2))
	for len(torsion) == 0 {
		p, ok := edDecode(rbytes(r, 32))
		if !ok {
			continue
		}
		q := edMul(edL, p)
		o := 1
		for s := q; edEncode(s) != edEncode(edZero()); s = edAdd(s, q) {
			o++
		}
		if o == 8 {
			s := edZero()
			for i := 0; i < 8; i++ {
				torsion = append(torsion, s)
				s = edAdd(s, q)
			}
		}
	}
}

// genPoint draws a point, sometimes with a small-order component.
func genPoint(r *rand.Rand, c *Ctx) *pt {
	switch r.IntN(8) {
	case 0:
		c.Feat("torsion-point")
		return torsion[r.IntN(8)]
	case 1:
		c.Feat("mixed-order-point")
		return edAdd(edMulBase(validScalar(r)), torsion[r.IntN(8)])
	case 2:
		return edMulBase(big.NewInt(int64(r.IntN(20))))
	case 3:
		for {
			if p, ok := edDecode(hbytes(r, 32)); ok {
				return p
			}
		}
	}
	return edMulBase(validScalar(r))
}

func toExt(c *Ctx, p *pt) (g ed.ExtendedGroupElement) {
	enc := edEncode(p)
	if !g.FromBytes(&enc) {
		c.Fail("point-rejected", "valid point %x rejected", enc)
	}
	return
}

func init() {
	register(&Property{
		ID:      "C13",
		Boost:   220,
		Rule:    "entropies, passwords, seeds, keys with carry-dense halves, indices around 2^31 and paths up to depth 24 compared with an own PBKDF2 and BIP32-Ed25519 V2 on math/big; non-trivial = distinct (key, index) or root input",
		Require: []string{"icarus-root", "seed-root", "bad-seed-rejected", "child-checked", "public-checked", "soft", "hardened", "index=2^31-1", "index=2^31", "deep-path", "wallet-path", "carry-key", "empty-password", "long-password", "normalize", "same-bytes-split-differently"},
		Streams: []Stream{
			{Name: "icarus", Quick: 2400, Thor: 40000, Run: func(c *Ctx) {
				r := c.R
				ent := hbytes(r, pick(r, 16, 20, 24, 28, 32, 32, r.IntN(140)))
				var pw []byte
				switch r.IntN(4) {
				case 0:
					c.Feat("empty-password")
				case 1:
					pw = hbytes(r, pick(r, 127, 128, 129, 200, 300))
					c.Feat("long-password")
				default:
					pw = []byte(genString(r))
				}
				c.Case(ent, pw)
				c.Log("entropy %x password %x", ent, pw)
				got := bip32.FromBip39Entropy(ent, pw)
				want := refIcarus(ent, pw)
				c.Failif(!bytes.Equal(got, want), "icarus-root", "root of entropy %x password %x is %x, want %x", ent, pw, []byte(got), want)
				c.Ev("icarus-root")
				checkPublic(c, got)
				c.Sample(fmt.Sprintf("entropy %x -> %x", ent, want[:8]))
				if c.Idx%3 == 0 { // the same bytes divided differently between entropy and password, in the same process
					all := append(append([]byte{}, ent...), pw...)
					e2, p2 := pw, ent
					if k := r.IntN(len(all) + 1); r.IntN(3) != 0 && k != len(ent) {
						e2, p2 = all[:k], all[k:]
					}
					g2, w2 := bip32.FromBip39Entropy(append([]byte{}, e2...), append([]byte{}, p2...)), refIcarus(e2, p2)
					c.Failif(!bytes.Equal(g2, w2), "icarus-root", "after the root of entropy %x password %x, the root of entropy %x password %x is %x, want %x", ent, pw, e2, p2, []byte(g2), w2)
					c.Failif(!bytes.Equal(got, want), "icarus-root", "a second root changed the first")
					c.Ev("same-bytes-split-differently")
				}
				if r.IntN(4) == 0 {
					checkDerive(c, got, idx32(r))
				}
			}},
			{Name: "normalize", Quick: 20000, Thor: 200000, Run: func(c *Ctx) {
				b := hbytes(c.R, 96)
				if c.Idx < 256 {
					b[0] = byte(c.Idx)
					b[31] = byte(c.Idx)
				}
				want := append([]byte{}, b...)
				want[0] &= 0xf8
				want[31] = want[31]&0x1f | 0x40
				in := append([]byte{}, b...)
				got := bip32.NormalizeBytesForce3rd(in)
				c.Case("n", b)
				c.Failif(!bytes.Equal(got, want), "normalize", "clamping %x gives %x, want %x", b, []byte(got), want)
				c.Ev("normalize")
			}},
			{Name: "seed", Quick: 12000, Thor: 200000, Run: func(c *Ctx) {
				r := c.R
				s := hbytes(r, 32)
				c.Case(s)
				k, err := bip32.NewXPrv(s)
				c.Failif(err != nil, "seed-rejected", "seed %x rejected: %v", s, err)
				want := refRoot(s)
				c.Failif(!bytes.Equal(k, want), "seed-root", "root of seed %x is %x, want %x", s, []byte(k), want)
				c.Ev("seed-root")
				if r.IntN(3) == 0 {
					checkPublic(c, k)
				}
				n := r.IntN(130)
				if n == 32 {
					n = 33
				}
				if c.Idx < 200 && c.Idx != 32 {
					n = c.Idx
				}
				_, err = bip32.NewXPrv(hbytes(r, n))
				c.Failif(err == nil, "bad-seed-accepted", "a seed of %d bytes was accepted", n)
				c.Ev("bad-seed-rejected")
			}},
			{Name: "children", Quick: 9000, Thor: 200000, Run: func(c *Ctx) {
				r := c.R
				var k bip32.XPrv
				if r.IntN(2) == 0 {
					k = carryKey(r)
					c.Feat("carry-key")
				} else {
					k = refRoot(hbytes(r, 32))
				}
				i := idx32(r)
				c.Case([]byte(k), i)
				ch := checkDerive(c, k, i)
				checkPublic(c, ch)
				c.Sample(fmt.Sprintf("%x.../%#x", []byte(k[:8]), i))
			}},
			// hardened only: no scalar multiplication in the reference, so many more carries
			{Name: "hardened-carries", Quick: 150000, Thor: 3000000, Run: func(c *Ctx) {
				k := bip32.XPrv(carryKey(c.R))
				i := idx32(c.R) | 0x80000000
				c.Case([]byte(k), i)
				checkDerive(c, k, i)
				c.Feat("carry-key")
			}},
			{Name: "paths", Quick: 500, Thor: 10000, Run: func(c *Ctx) {
				r := c.R
				k := bip32.XPrv(refRoot(hbytes(r, 32)))
				if r.IntN(2) == 0 {
					k = refIcarus(hbytes(r, 32), nil)
				}
				if r.IntN(2) == 0 {
					for _, i := range []uint32{0x80000000 + 1852, 0x80000000 + 1815, 0x80000000 + uint32(r.IntN(3)), uint32(r.IntN(3)), u32(r) & 0x7fffffff} {
						k = checkDerive(c, k, i)
					}
					c.Feat("wallet-path")
				} else {
					n := 6 + r.IntN(19)
					for j := 0; j < n; j++ {
						k = checkDerive(c, k, idx32(r))
					}
					c.Feat("deep-path")
				}
				c.Case([]byte(k))
				checkPublic(c, k)
			}},
		},
	})

	register(&Property{
		ID:      "C14",
		Boost:   380,
		Rule:    "keys (root, derived, carry-dense) and messages of lengths 0 to 1 MiB, weighted to SHA-512 block boundaries and source constants; signatures compared with an own RFC 8032 signer and verified by crypto/ed25519; non-trivial = distinct (key, message)",
		Require: []string{"reference-match", "std-verify", "wrong-message-rejected", "wrong-key-rejected", "canonical-s", "empty-message", "block-boundary", "large-message", "derived-key", "carry-key", "repeat-equal", "shared-key-value", "tx-hash-length"},
		Setup:   txSetup,
		Streams: []Stream{
			{Name: "sign", Quick: 14000, Thor: 300000, Run: func(c *Ctx) {
				r := c.R
				var k bip32.XPrv
				var pub [32]byte
				switch r.IntN(5) {
				case 0:
					k = carryKey(r)
					pub = refPub(k)
					c.Feat("carry-key")
				case 1:
					k = refDerive(refRoot(hbytes(r, 32)), 0x80000000|u32(r))
					pub = refPub(k)
					c.Feat("derived-key")
				default:
					kr := keyPool[r.IntN(len(keyPool))]
					k, pub = append(bip32.XPrv{}, kr.prv...), kr.pub
				}
				n := 0
				switch r.IntN(7) {
				case 0:
					n = pick(r, 0, 1, 15, 16, 31, 32, 33, 47, 48, 49, 63, 64, 65)
				case 1:
					n = pick(r, 64, 79, 80, 81, 95, 96, 97, 111, 112, 113, 127, 128, 129, 143, 144, 175, 176, 191, 192, 239, 240, 255, 256, 257)
					c.Feat("block-boundary")
				case 2:
					n = 32
				case 3:
					if v := u64(r); v < 1<<14 {
						n = int(v)
					}
				case 4:
					n = r.IntN(2000)
				default:
					n = r.IntN(200)
				}
				if r.IntN(400) == 0 {
					n = pick(r, 65535, 65536, 1<<17, 1<<20)
				}
				if n > 60000 {
					c.Feat("large-message")
				}
				if n == 0 {
					c.Feat("empty-message")
				}
				if n == 32 {
					c.Feat("tx-hash-length")
				}
				signCase(c, k, pub, hbytes(r, n), n == 0 && r.IntN(2) == 0)
			}},
			// every message length in turn
			{Name: "lengths", Fixed: true, Quick: 1200, Thor: 20000, Run: func(c *Ctx) {
				kr := keyPool[c.Idx%len(keyPool)]
				signCase(c, append(bip32.XPrv{}, kr.prv...), kr.pub, hbytes(c.R, c.Idx), false)
				if c.Idx%128 < 2 {
					c.Feat("block-boundary")
				}
				if c.Idx == 0 {
					c.Feat("empty-message")
				}
			}},
		},
	})

	registerC15()
}

func signCase(c *Ctx, k bip32.XPrv, pub [32]byte, msg []byte, nilMsg bool) {
	r := c.R
	keep := append(bip32.XPrv{}, k...)
	keepMsg := append([]byte{}, msg...)
	if nilMsg {
		msg = nil
	}
	c.Case([]byte(k), msg)
	c.Log("key %x message %s", []byte(k), hx(msg))
	sig := k.Sign(msg)
	want := refSignPub(keep, keepMsg, pub)
	c.Failif(!ed25519.Verify(pub[:], keepMsg, sig[:]), "not-valid", "signature %x of message %s (%d bytes) by key %x does not verify", sig, hx(keepMsg), len(keepMsg), pub)
	c.Ev("std-verify")
	c.Failif(leInt(sig[32:]).Cmp(edL) >= 0, "s-not-canonical", "scalar of %x is not below the group order", sig)
	c.Ev("canonical-s")
	c.Failif(!bytes.Equal(sig[:], want), "not-deterministic-ed25519", "signature of %s (%d bytes) by %x is %x, want %x", hx(keepMsg), len(keepMsg), []byte(keep), sig, want)
	c.Ev("reference-match")
	c.Failif(!bytes.Equal(k, keep) || !bytes.Equal(msg, keepMsg), "sign-changed-input", "signing changed the key or the message")
	again := k.Sign(keepMsg)
	c.Failif(again != sig, "unstable", "signing again gives %x, was %x", again, sig)
	c.Ev("repeat-equal")
	cp := append(bip32.XPrv{}, keep...)
	c.Failif(cp.Sign(keepMsg) != sig, "unstable", "signing with an equal key gives another signature")
	c.Feat("shared-key-value")
	// different message or key
	other := append([]byte{}, keepMsg...)
	if len(other) == 0 || r.IntN(4) == 0 {
		other = append(other, byte(r.Uint32()))
	} else if r.IntN(3) == 0 {
		other = other[:len(other)-1]
	} else {
		other[r.IntN(len(other))] ^= 1 << r.IntN(8)
	}
	c.Failif(ed25519.Verify(pub[:], other, sig[:]), "verifies-other-message", "signature also verifies for another message")
	if s2 := k.Sign(other); s2 == sig || bytes.Equal(s2[:32], sig[:32]) {
		c.Fail("nonce-reuse", "two messages got the same signature or nonce point %x", sig[:32])
	}
	c.Ev("wrong-message-rejected")
	op := keyPool[r.IntN(len(keyPool))]
	if op.pub != pub {
		c.Failif(ed25519.Verify(op.pub[:], keepMsg, sig[:]), "verifies-other-key", "signature also verifies for another key")
		o := append(bip32.XPrv{}, op.prv...)
		c.Failif(o.Sign(keepMsg) == sig, "same-signature", "two keys give the same signature")
		c.Ev("wrong-key-rejected")
	}
	c.Sample(fmt.Sprintf("%d-byte message, signature %x...", len(keepMsg), sig[:8]))
}

func registerC15() {
	var rejected, accepted atomic.Int64
	register(&Property{
		ID:    "C15",
		Boost: 350,
		Rule:  "scalars, points and field elements with edge values, limb extremes, small-order components and every precomputed table entry, compared with exact arithmetic on math/big; non-trivial = distinct operand encoding",
		Require: []string{"scalar-base", "table-entry", "double-scalar", "wide-scalar", "odd-multiples", "decode-accepted", "decode-rejected", "encode", "double", "conversions", "torsion-point", "mixed-order-point", "reduce", "muladd", "minimal-true",
			"minimal-false", "fe-add", "fe-sub", "fe-neg", "fe-mul", "fe-square", "fe-square2", "fe-invert", "fe-bytes", "fe-sign", "fe-zero-test", "fe-alias", "fe-cmove", "raw-limbs", "extreme-limbs", "edge-values", "order-boundary", "identity"},
		Setup: cryptoSetup,
		Streams: []Stream{
			// every entry of the fixed-base table, both signs
			{Name: "base-table", Fixed: true, Quick: 64 * 16, Thor: 64 * 16, Run: func(c *Ctx) {
				pos, v := c.Idx/16, int64(c.Idx%16)
				if pos == 63 && v > 7 {
					v -= 8
				}
				k := new(big.Int).Lsh(big.NewInt(v), uint(4*pos))
				scalarBase(c, k)
				c.Feat("table-entry")
				// together with a neighbour that carries
				if pos < 62 {
					k.Add(k, new(big.Int).Lsh(big.NewInt(1+int64(c.R.IntN(15))), uint(4*pos+4)))
					scalarBase(c, k)
				}
			}},
			{Name: "scalar-base", Quick: 9000, Thor: 150000, Run: func(c *Ctx) {
				b := scGen(c.R, 32)
				b[31] &= 127
				scalarBase(c, leInt(b))
			}},
			{Name: "double-scalar", Quick: 6000, Thor: 120000, Run: func(c *Ctx) {
				a, b := validScalar(c.R), validScalar(c.R)
				switch c.R.IntN(8) {
				case 0:
					a = new(big.Int)
				case 1:
					b = new(big.Int)
				case 2, 3: // not reduced, as the scalars of keys are
					a = wideScalar(c.R)
					c.Feat("wide-scalar")
				case 4, 5:
					b = wideScalar(c.R)
				}
				doubleScalar(c, a, genPoint(c.R, c), b)
			}},
			{Name: "odd-multiples", Fixed: true, Quick: 32 * 40, Thor: 32 * 250, Run: func(c *Ctx) {
				k := new(big.Int).Lsh(big.NewInt(int64(c.Idx%32)), uint(c.Idx/32)%247)
				if c.R.IntN(2) == 0 {
					doubleScalar(c, k, genPoint(c.R, c), new(big.Int))
				} else {
					doubleScalar(c, new(big.Int), genPoint(c.R, c), k)
				}
				c.Feat("odd-multiples")
			}},
			{Name: "points", Quick: 40000, Thor: 800000, Run: func(c *Ctx) {
				r := c.R
				b := [32]byte(hbytes(r, 32))
				if r.IntN(10) == 0 {
					le32(b[:], new(big.Int).Mod(feEdges[r.IntN(len(feEdges))], new(big.Int).Lsh(big1, 255)))
					b[31] |= byte(r.IntN(2)) << 7
				}
				c.Case("pt", b[:])
				c.Log("encoding %x", b)
				in := b
				var g ed.ExtendedGroupElement
				ok := g.FromBytes(&b)
				c.Failif(b != in, "decode-changed-input", "decoding changed the encoding")
				p, want := edDecode(b[:])
				if !want {
					c.Failif(ok, "non-point-accepted", "%x is not a point but was accepted", b)
					c.Ev("decode-rejected")
					rejected.Add(1)
					return
				}
				enc := edEncode(p)
				canonical := enc == b
				c.Failif(!ok && canonical, "point-rejected", "%x is a point but was rejected", b)
				if !ok {
					return
				}
				c.Ev("decode-accepted")
				accepted.Add(1)
				c.Failif(!extOK(&g), "decode-invalid", "decoded coordinates of %x are not a point in extended form", b)
				c.Failif(ptVal(&g.X, &g.Y, &g.Z) != enc, "decode-wrong", "%x decoded to %x", b, ptVal(&g.X, &g.Y, &g.Z))
				pointOps(c, &g, p)
			}},
			{Name: "special-points", Quick: 3000, Thor: 60000, Run: func(c *Ctx) {
				p := genPoint(c.R, c)
				enc := edEncode(p)
				c.Case("sp", enc[:])
				g := toExt(c, p)
				pointOps(c, &g, p)
				// the same point with another denominator
				z, zv := feGen(c.R, c, true)
				if zv.Sign() != 0 {
					var s ed.ExtendedGroupElement
					ed.FeMul(&s.X, &g.X, &z)
					ed.FeMul(&s.Y, &g.Y, &z)
					ed.FeMul(&s.Z, &g.Z, &z)
					ed.FeMul(&s.T, &g.T, &z)
					pointOps(c, &s, p)
				}
				var id ed.ExtendedGroupElement
				var pj ed.ProjectiveGroupElement
				id.X, pj.X = z, z
				id.Zero()
				pj.Zero()
				var e1, e2 [32]byte
				id.ToBytes(&e1)
				pj.ToBytes(&e2)
				one := [32]byte{1}
				c.Failif(e1 != one || e2 != one || !extOK(&id), "identity", "the neutral element encodes as %x / %x", e1, e2)
				c.Ev("identity")
			}},
			{Name: "reduce", Quick: 200000, Thor: 5000000, Run: func(c *Ctx) {
				in := [64]byte(scGen(c.R, 64))
				keep := in
				c.Case("r", in[:])
				var out, want [32]byte
				ed.ScReduce(&out, &in)
				le32(want[:], new(big.Int).Mod(leInt(keep[:]), edL))
				c.Failif(out != want, "reduce", "%x reduced to %x, want %x", keep, out, want)
				c.Failif(in != keep, "reduce-changed-input", "reduction changed its input")
				c.Ev("reduce")
			}},
			{Name: "muladd", Quick: 200000, Thor: 5000000, Run: func(c *Ctx) {
				a, b, d := [32]byte(scGen(c.R, 32)), [32]byte(scGen(c.R, 32)), [32]byte(scGen(c.R, 32))
				c.Case("m", a[:], b[:], d[:])
				v := new(big.Int).Mul(leInt(a[:]), leInt(b[:]))
				v.Add(v, leInt(d[:])).Mod(v, edL)
				var want, out [32]byte
				le32(want[:], v)
				ka, kb, kd := a, b, d
				switch c.R.IntN(4) { // aliasing, as the signer uses it
				case 0:
					ed.ScMulAdd(&a, &a, &b, &d)
					out, a = a, ka
				case 1:
					ed.ScMulAdd(&d, &a, &b, &d)
					out, d = d, kd
				default:
					ed.ScMulAdd(&out, &a, &b, &d)
				}
				c.Failif(out != want, "muladd", "%x*%x+%x gives %x, want %x", ka, kb, kd, out, want)
				c.Failif(a != ka || b != kb || d != kd, "muladd-changed-input", "multiply-add changed its operands")
				c.Ev("muladd")
			}},
			{Name: "minimal", Quick: 200000, Thor: 3000000, Run: func(c *Ctx) {
				s := scGen(c.R, 32)
				if c.R.IntN(3) == 0 {
					// agree with the order on the high words, differ in one
					le32(s, edL)
					c.Feat("order-boundary")
					for n := c.R.IntN(3); n > 0; n-- {
						i := c.R.IntN(32)
						s[i] = pick(c.R, s[i]+1, s[i]-1, 0, 0xff, byte(c.R.Uint32()))
					}
				}
				b := [32]byte(s)
				c.Case("min", b[:])
				want := leInt(b[:]).Cmp(edL) < 0
				c.Failif(ed.ScMinimal(&b) != want, "minimal", "ScMinimal(%x) = %v", b, !want)
				c.Ev(map[bool]string{true: "minimal-true", false: "minimal-false"}[want])
			}},
			{Name: "field", Quick: 300000, Thor: 6000000, Run: fieldCase},
			{Name: "field-invert", Quick: 15000, Thor: 300000, Run: func(c *Ctx) {
				f, v := feGen(c.R, c, true)
				c.Case("inv", fmt.Sprint(f))
				var o ed.FieldElement
				ed.FeInvert(&o, &f)
				want := new(big.Int)
				if v.Sign() != 0 {
					want.ModInverse(v, edP)
				}
				c.Failif(feVal(&o).Cmp(want) != 0, "fe-invert", "1/%v gives %v, want %v", v, feVal(&o), want)
				g := f
				ed.FeInvert(&g, &g)
				c.Failif(feVal(&g).Cmp(want) != 0, "fe-invert-alias", "inverting in place gives %v, want %v", feVal(&g), want)
				c.Ev("fe-invert")
			}},
		},
		Explored: func(m *Monitor) map[string]any {
			return map[string]any{"point_encodings_rejected": rejected.Load(), "point_encodings_accepted": accepted.Load()}
		},
	})
}

func scalarBase(c *Ctx, k *big.Int) {
	var a, enc [32]byte
	le32(a[:], k)
	keep := a
	c.Case("sb", a[:])
	c.Log("scalar %x", a)
	var g ed.ExtendedGroupElement
	g.X[3], g.T[0], g.Z[1] = 77, 5, 9 // stale result
	ed.GeScalarMultBase(&g, &a)
	want := edEncode(edMulBase(k))
	c.Failif(a != keep, "scalar-changed", "multiplication changed its scalar")
	c.Failif(!extOK(&g), "scalar-base-invalid", "%x times the base point is not a point in extended form", a)
	g.ToBytes(&enc)
	c.Failif(enc != want, "scalar-base", "%x times the base point is %x, want %x", a, enc, want)
	c.Ev("scalar-base")
}

func doubleScalar(c *Ctx, a *big.Int, A *pt, b *big.Int) {
	var ab, bb, enc [32]byte
	le32(ab[:], a)
	le32(bb[:], b)
	g := toExt(c, A)
	keep := g
	ka, kb := ab, bb
	ae := edEncode(A)
	c.Case("ds", ab[:], bb[:], ae[:])
	c.Log("a=%x A=%x b=%x", ab, ae, bb)
	var r ed.ProjectiveGroupElement
	r.X[0] = 3
	ed.GeDoubleScalarMultVartime(&r, &ab, &g, &bb)
	want := edEncode(edAdd(edMul(a, A), edMulBase(b)))
	c.Failif(g != keep || ab != ka || bb != kb, "double-scalar-changed-input", "double-scalar multiplication changed its operands")
	c.Failif(ptVal(&r.X, &r.Y, &r.Z) != want, "double-scalar", "%x*%x+%x*B is %x, want %x", ab, ae, bb, ptVal(&r.X, &r.Y, &r.Z), want)
	r.ToBytes(&enc)
	c.Failif(enc != want, "double-scalar", "%x*%x+%x*B encodes as %x, want %x", ab, ae, bb, enc, want)
	c.Ev("double-scalar")
}

// pointOps checks encoding, doubling and conversions of one point.
func pointOps(c *Ctx, g *ed.ExtendedGroupElement, p *pt) {
	want := edEncode(p)
	dbl := edEncode(edAdd(p, p))
	var e [32]byte
	cp := *g
	cp.ToBytes(&e)
	c.Failif(e != want, "encode", "point %x encodes as %x", want, e)
	c.Failif(ptVal(&cp.X, &cp.Y, &cp.Z) != want, "encode-changed-point", "encoding changed the point")
	c.Ev("encode")
	var pj ed.ProjectiveGroupElement
	cp.ToProjective(&pj)
	pj.ToBytes(&e)
	c.Failif(e != want, "to-projective", "projective form of %x encodes as %x", want, e)
	var d ed.CompletedGroupElement
	cp.Double(&d)
	chk := func(what string) {
		var x ed.ExtendedGroupElement
		d.ToExtended(&x)
		c.Failif(!extOK(&x), "to-extended", "%s of %x: not a valid extended point", what, want)
		x.ToBytes(&e)
		c.Failif(e != dbl, "double", "%s of %x is %x, want %x", what, want, e, dbl)
		var y ed.ProjectiveGroupElement
		d.ToProjective(&y)
		y.ToBytes(&e)
		c.Failif(e != dbl, "completed-to-projective", "%s of %x is %x, want %x", what, want, e, dbl)
		c.Ev("double")
	}
	chk("extended double")
	pj.Double(&d)
	chk("projective double")
	c.Failif(ptVal(&pj.X, &pj.Y, &pj.Z) != want, "double-changed-point", "doubling changed the point")
	c.Ev("conversions")
}

func fieldCase(c *Ctx) {
	r := c.R
	var o ed.FieldElement
	eq := func(what string, got *ed.FieldElement, want *big.Int) {
		w := new(big.Int).Mod(want, edP)
		if v := feVal(got); v.Cmp(w) != 0 {
			c.Fail(what, "%s gives %v, want %v", what, v, w)
		}
		c.Ev(what)
	}
	switch k := r.IntN(8); k {
	case 0, 1: // add, sub, neg, copies
		f, fv := feGen(r, c, true)
		g, gv := feGen(r, c, true)
		c.Case("as", fmt.Sprint(f, g))
		c.Log("f=%v g=%v", f, g)
		ed.FeAdd(&o, &f, &g)
		eq("fe-add", &o, new(big.Int).Add(fv, gv))
		ed.FeSub(&o, &f, &g)
		eq("fe-sub", &o, new(big.Int).Sub(fv, gv))
		ed.FeNeg(&o, &f)
		eq("fe-neg", &o, new(big.Int).Neg(fv))
		h := f
		ed.FeAdd(&h, &h, &g)
		eq("fe-add", &h, new(big.Int).Add(fv, gv))
		h = g
		ed.FeSub(&h, &f, &h)
		eq("fe-sub", &h, new(big.Int).Sub(fv, gv))
		h = f
		ed.FeNeg(&h, &h)
		eq("fe-neg", &h, new(big.Int).Neg(fv))
		c.Ev("fe-alias")
		h = f
		ed.FeCMove(&h, &g, 0)
		c.Failif(h != f, "fe-cmove", "conditional move with 0 changed the element")
		ed.FeCMove(&h, &g, 1)
		c.Failif(h != g, "fe-cmove", "conditional move with 1 did not move")
		ed.FeCopy(&h, &f)
		c.Failif(h != f, "fe-copy", "copy differs")
		ed.FeZero(&h)
		eq("fe-zero", &h, new(big.Int))
		h = f
		ed.FeOne(&h)
		eq("fe-one", &h, big1)
		c.Ev("fe-cmove")
	case 2, 3, 4: // mul, square
		f, fv := feGen(r, c, false)
		g, gv := feGen(r, c, false)
		if r.IntN(10) == 0 {
			g, gv = f, fv
		}
		c.Case("ms", fmt.Sprint(f, g))
		c.Log("f=%v g=%v", f, g)
		kf, kg := f, g
		ed.FeMul(&o, &f, &g)
		eq("fe-mul", &o, new(big.Int).Mul(fv, gv))
		c.Failif(f != kf || g != kg, "fe-mul-changed-input", "multiplication changed an operand")
		chained(c, &o, "fe-mul")
		ed.FeSquare(&o, &f)
		eq("fe-square", &o, new(big.Int).Mul(fv, fv))
		chained(c, &o, "fe-square")
		ed.FeSquare2(&o, &f)
		v := new(big.Int).Mul(fv, fv)
		eq("fe-square2", &o, v.Lsh(v, 1))
		chained(c, &o, "fe-square2")
		switch r.IntN(3) {
		case 0:
			ed.FeMul(&f, &f, &g)
			eq("fe-mul", &f, new(big.Int).Mul(fv, gv))
		case 1:
			ed.FeMul(&g, &f, &g)
			eq("fe-mul", &g, new(big.Int).Mul(fv, gv))
		default:
			ed.FeSquare(&f, &f)
			eq("fe-square", &f, new(big.Int).Mul(fv, fv))
		}
		c.Ev("fe-alias")
	default: // bytes, sign, zero test
		var f ed.FieldElement
		var fv *big.Int
		if r.IntN(2) == 0 {
			f, fv = feGen(r, c, true)
		} else {
			f = feRaw(r, 2.2)
			fv = feVal(&f)
		}
		if r.IntN(8) == 0 { // a multiple of p in disguise
			g, _ := feGen(r, c, true)
			ed.FeSub(&f, &g, &g)
			if r.IntN(2) == 0 {
				f[0] -= 19
				f[9] += 1 << 25 // 2^255
				c.Feat("p-multiple")
			}
			fv = feVal(&f)
		}
		c.Case("by", fmt.Sprint(f))
		c.Log("f=%v", f)
		var b, want [32]byte
		le32(want[:], fv)
		g := f
		ed.FeToBytes(&b, &g)
		c.Failif(b != want, "fe-to-bytes", "%v encodes as %x, want %x", fv, b, want)
		c.Failif(feVal(&g).Cmp(fv) != 0, "fe-to-bytes-value", "encoding changed the value of the element")
		g = f
		c.Failif(uint(ed.FeIsNegative(&g)) != fv.Bit(0), "fe-sign", "sign of %v is %d", fv, ed.FeIsNegative(&g))
		c.Ev("fe-sign")
		g = f
		c.Failif((ed.FeIsNonZero(&g) != 0) != (fv.Sign() != 0), "fe-zero-test", "zero test of %v is %d", fv, ed.FeIsNonZero(&g))
		c.Ev("fe-zero-test")
		raw := [32]byte(hbytes(r, 32))
		keep := raw
		ed.FeFromBytes(&o, &raw)
		m := keep
		m[31] &= 0x7f
		eq("fe-from-bytes", &o, leInt(m[:]))
		c.Failif(raw != keep, "fe-from-bytes-input", "decoding changed its input")
		ed.FeToBytes(&b, &o)
		le32(want[:], new(big.Int).Mod(leInt(m[:]), edP))
		c.Failif(b != want, "fe-bytes", "bytes %x round-trip to %x, want %x", keep, b, want)
		c.Ev("fe-bytes")
	}
}

// chained: a product is usable as operand of every other operation.
func chained(c *Ctx, f *ed.FieldElement, what string) {
	v := feVal(f)
	var a, b ed.FieldElement
	ed.FeAdd(&a, f, f)
	ed.FeMul(&b, &a, &a)
	w := new(big.Int).Mul(v, v)
	w.Lsh(w, 2).Mod(w, edP)
	c.Failif(feVal(&b).Cmp(w) != 0, what+"-chained", "(2x)^2 of a %s result %v gives %v, want %v", what, v, feVal(&b), w)
	var e, want [32]byte
	ed.FeToBytes(&e, &a)
	le32(want[:], new(big.Int).Mod(new(big.Int).Lsh(v, 1), edP))
	c.Failif(e != want, what+"-chained", "2x of a %s result %v encodes as %x, want %x", what, v, e, want)
	c.Ev("fe-chained")
}
