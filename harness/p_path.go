package main

// C27: secrets do not steer execution. A build whose blocks and indexes report to a trace performs each operation with
// a fixed secret and with others; the traces must be the same.

import (
	"bytes"
	"fmt"
	"math/rand/v2"

	"github.com/fivebinaries/go-cardano-serialization/bip32"
	ed "github.com/fivebinaries/go-cardano-serialization/crypto/edwards25519"
	"github.com/fivebinaries/go-cardano-serialization/protocol"
	"github.com/fivebinaries/go-cardano-serialization/tx"
)

// secretBytes draws n bytes of the kinds that branches distinguish.
func secretBytes(r *rand.Rand, n int) []byte {
	switch r.IntN(9) {
	case 0:
		return bytes.Repeat([]byte{pick[byte](r, 0x00, 0xff, 0x88, 0x77, 0x99, 0x08, 0x80, 0x11, 0x0f, 0xf0, 0x7f, 0x01)}, n)
	case 1:
		b := make([]byte, n)
		b[r.IntN(n)] = byte(1 + r.IntN(255))
		return b
	case 2:
		b := bytes.Repeat([]byte{0xff}, n)
		b[r.IntN(n)] = byte(r.IntN(255))
		return b
	case 3: // zero from somewhere on
		b := rbytes(r, n)
		for i := r.IntN(n); i < n; i++ {
			b[i] = 0
		}
		return b
	case 4: // zero up to somewhere
		b := rbytes(r, n)
		for i := r.IntN(n); i >= 0; i-- {
			b[i] = 0
		}
		return b
	case 5:
		b := rbytes(r, n)
		v := b[0]
		for i := r.IntN(n); i > 0; i-- {
			b[r.IntN(n)] = v
		}
		return b
	case 6: // small digits
		b := rbytes(r, n)
		for i := range b {
			b[i] &= 0x77
		}
		return b
	}
	return rbytes(r, n)
}

// secretKey is a private key as derivation makes them.
func secretKey(r *rand.Rand) bip32.XPrv {
	if r.IntN(3) == 0 {
		return append(bip32.XPrv{}, pick(r, keyPool...).prv...)
	}
	b := append(append(secretBytes(r, 32), secretBytes(r, 32)...), secretBytes(r, 32)...)
	b[0] &= 0xf8
	b[31] = b[31]&0x1f | 0x40
	return b
}

// the order of the group, little endian
var secretL = []byte{0xed, 0xd3, 0xf5, 0x5c, 0x1a, 0x63, 0x12, 0x58, 0xd6, 0x9c, 0xf7, 0xa2, 0xde, 0xf9, 0xde, 0x14, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0x10}

func secretScalar(r *rand.Rand) (s [32]byte) {
	copy(s[:], secretBytes(r, 32))
	switch r.IntN(4) {
	case 0:
		copy(s[:], secretL)
		s[0] += byte(r.IntN(4)) - 2
	case 1:
		s[31] &= 0x0f
	case 2:
		s[31] &= 0x7f
	}
	return
}

func secretFe(r *rand.Rand) (f ed.FieldElement) {
	var b [32]byte
	copy(b[:], secretBytes(r, 32))
	if r.IntN(4) == 0 { // around the modulus
		copy(b[:], bytes.Repeat([]byte{0xff}, 32))
		b[0], b[31] = byte(0xed+r.IntN(19)), 0x7f
	}
	ed.FeFromBytes(&f, &b)
	if r.IntN(3) == 0 {
		ed.FeNeg(&f, &f)
	}
	return
}

// pathOp prepares an operation with a new secret for given public arguments.
type pathOp struct {
	name string
	make func(r *rand.Rand) (f func(), secret string)
}

func pathOps(c *Ctx) pathOp {
	r := c.R
	key := func(f func(k bip32.XPrv)) func(r *rand.Rand) (func(), string) {
		return func(r *rand.Rand) (func(), string) {
			k := secretKey(r)
			return func() { f(k) }, fmt.Sprintf("%x", []byte(k))
		}
	}
	switch r.IntN(16) {
	case 0, 1, 2:
		msg := hbytes(r, pick(r, 0, 32, 32, 64, 127, 128, r.IntN(300)))
		return pathOp{"Sign", key(func(k bip32.XPrv) { k.Sign(msg) })}
	case 3:
		return pathOp{"Public", key(func(k bip32.XPrv) { k.Public() })}
	case 4:
		i := idx32(r) | 1<<31
		return pathOp{"Derive hardened", key(func(k bip32.XPrv) { k.Derive(i) })}
	case 5:
		i := idx32(r) &^ (1 << 31)
		return pathOp{"Derive soft", key(func(k bip32.XPrv) { k.Derive(i) })}
	case 6:
		return pathOp{"MakePublicKey", key(func(k bip32.XPrv) { bip32.MakePublicKey(k[:64]) })}
	case 7:
		return pathOp{"NewXPrv", func(r *rand.Rand) (func(), string) {
			s := secretBytes(r, 32)
			return func() { bip32.NewXPrv(s) }, fmt.Sprintf("%x", s)
		}}
	case 8:
		if r.IntN(4) != 0 {
			return pathOp{"NormalizeBytesForce3rd", func(r *rand.Rand) (func(), string) {
				s := secretBytes(r, 96)
				h := fmt.Sprintf("%x", s)
				return func() { bip32.NormalizeBytesForce3rd(s) }, h
			}}
		}
		n, p := pick(r, 16, 20, 32), r.IntN(20)
		return pathOp{"FromBip39Entropy", func(r *rand.Rand) (func(), string) {
			e, pw := secretBytes(r, n), secretBytes(r, p+1)[:p]
			return func() { bip32.FromBip39Entropy(e, pw) }, fmt.Sprintf("%x/%x", e, pw)
		}}
	case 9:
		seed := r.Uint64()
		n := 1 + r.IntN(3)
		change := r.IntN(2) == 0
		return pathOp{"Build", func(q *rand.Rand) (func(), string) {
			ks := []bip32.XPrv{secretKey(q), secretKey(q), secretKey(q)}[:n]
			r := rand.New(rand.NewPCG(seed, 1)) // the public arguments, the same each time
			h := &hist{c: &Ctx{m: c.m, R: r, events: map[string]int64{}, feats: map[string]int64{}, distinct: map[uint64]struct{}{}}}
			a := genAddr(r, kBase, kEnt).Must(h.c)
			return func() {
				tb := tx.NewTxBuilder(protocol.Protocol{TxFeePerByte: 44, TxFeeFixed: 155381, MaxTxSize: 16384}, ks)
				tb.AddInputs(tx.NewTxInput(fmt.Sprintf("%064x", seed), 1, 50000000))
				tb.AddOutputs(tx.NewTxOutput(a, 2000000))
				if change {
					tb.AddChangeIfNeeded(a)
				} else {
					tb.Tx().SetFee(170000)
				}
				tb.Sign(ks[0])
				if _, err := tb.Build(); err != nil {
					panic(err)
				}
			}, fmt.Sprintf("%x", ks)
		}}
	case 10:
		return pathOp{"GeScalarMultBase", func(r *rand.Rand) (func(), string) {
			s := secretScalar(r)
			s[31] &= 0x7f
			return func() {
				var h ed.ExtendedGroupElement
				ed.GeScalarMultBase(&h, &s)
				var b [32]byte
				h.ToBytes(&b)
			}, fmt.Sprintf("%x", s)
		}}
	case 11:
		return pathOp{"ScReduce", func(r *rand.Rand) (func(), string) {
			var in [64]byte
			copy(in[:], secretBytes(r, 64))
			return func() { var o [32]byte; ed.ScReduce(&o, &in) }, fmt.Sprintf("%x", in)
		}}
	case 12:
		return pathOp{"ScMulAdd", func(r *rand.Rand) (func(), string) {
			x, y, z := secretScalar(r), secretScalar(r), secretScalar(r)
			return func() { var o [32]byte; ed.ScMulAdd(&o, &x, &y, &z) }, fmt.Sprintf("%x %x %x", x, y, z)
		}}
	case 13:
		return pathOp{"field", func(r *rand.Rand) (func(), string) {
			x, y := secretFe(r), secretFe(r)
			return func() {
				var z ed.FieldElement
				var b [32]byte
				ed.FeMul(&z, &x, &y)
				ed.FeSquare(&z, &x)
				ed.FeSquare2(&z, &x)
				ed.FeAdd(&z, &x, &y)
				ed.FeSub(&z, &x, &y)
				ed.FeNeg(&z, &y)
				ed.FeCopy(&z, &x)
				ed.FeToBytes(&b, &x)
				ed.FeFromBytes(&z, &b)
				ed.FeIsNegative(&x)
				ed.FeIsNonZero(&x)
			}, fmt.Sprint(x, y)
		}}
	case 14:
		return pathOp{"FeInvert", func(r *rand.Rand) (func(), string) {
			x := secretFe(r)
			return func() { var z ed.FieldElement; ed.FeInvert(&z, &x) }, fmt.Sprint(x)
		}}
	}
	return pathOp{"FeCMove", func(r *rand.Rand) (func(), string) {
		x, y := secretFe(r), secretFe(r)
		b := int32(r.IntN(2))
		return func() { z := x; ed.FeCMove(&z, &y, b) }, fmt.Sprint(x, y, b)
	}}
}

// pathSum identifies a path: the steps in their order, the steps in any order, their number.
type pathSum struct{ h, s, n uint64 }

func pathCase(c *Ctx) {
	r := c.R
	op := pathOps(c)
	s1, s2 := r.Uint64(), r.Uint64()
	run := func(s uint64, keep bool) (pathSum, string) {
		f, secret := op.make(rand.New(rand.NewPCG(s, 27)))
		pathStart(keep)
		if pv, _ := Guard(f); pv != nil {
			panic(fmt.Sprintf("harness: %s panics: %v", op.name, pv))
		}
		return pathEnd(), secret
	}
	run(s1, false) // what is done once only is not judged
	p1, a := run(s1, false)
	p2, b := run(s2, false)
	c.events["steps-observed"] += int64(p1.n + p2.n)
	c.Ev("paths-compared")
	c.Feat("op/" + op.name)
	c.Case(op.name, a, b)
	c.Failif(p1.n == 0, "no-trace", "harness: %s left no trace", op.name)
	if p1 == p2 {
		return
	}
	// the difference must be the secret's doing: each secret's own path is always the same, where goroutines are
	// at work at least in what it consists of
	steady, ordered := true, true
	for i := 0; i < 4; i++ {
		q1, _ := run(s1, false)
		q2, _ := run(s2, false)
		steady = steady && q1.s == p1.s && q2.s == p2.s
		ordered = ordered && q1 == p1 && q2 == p2
	}
	if !steady || p1.s == p2.s && p1.n == p2.n && !ordered {
		c.Ev("unsteady")
		return
	}
	run(s1, true)
	r1 := pathRec()
	run(s2, true)
	r2 := pathRec()
	i := 0
	for i < len(r1) && i < len(r2) && r1[i] == r2[i] {
		i++
	}
	end := func(xs []uint64) string {
		if i < len(xs) {
			return pathWhere(xs[i])
		}
		return "the end"
	}
	before := "the start"
	if i > 0 && i <= len(r1) {
		before = pathWhere(r1[i-1])
	}
	c.Log("secrets %s and %s", a, b)
	c.Fail("path:"+op.name, "%s takes another path for another secret: after %d equal steps (last: %s) one goes to %s, the other to %s (%d and %d steps in all)", op.name, i, before, end(r1), end(r2), p1.n, p2.n)
}

func init() {
	names := []string{"Sign", "Public", "Derive hardened", "Derive soft", "MakePublicKey", "NewXPrv", "NormalizeBytesForce3rd", "FromBip39Entropy", "Build", "GeScalarMultBase", "ScReduce", "ScMulAdd", "field", "FeInvert", "FeCMove"}
	req := []string{"paths-compared"}
	for _, n := range names {
		req = append(req, "op/"+n)
	}
	register(&Property{
		ID: "C27",
		Rule: "the packages bip32, crypto, crypto/edwards25519 and tx are built with a report at the start of every block, at every index and bound, and at the right side of every && and ||; each case does one operation with two secrets (random, all-equal, sparse, extreme digits, runs of zeros, " +
			"around the group order and the field modulus) and equal public arguments; non-trivial = distinct pair of secrets",
		Require: req,
		Setup: func(m *Monitor) error {
			if !pathBuild {
				return fmt.Errorf("C27 needs the instrumented build")
			}
			makeKeyPool(m.seed, 24)
			return nil
		},
		Assume: []string{"what the standard library and other modules do with a secret, variable-time instructions and the compiler are not observed"},
		Streams: []Stream{
			{Name: "paths", Quick: 30000, Thor: 1000000, Workers: 1, Run: pathCase},
		},
	})
}
