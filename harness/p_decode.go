package main

import (
	"bytes"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/rand/v2"
	"os"
	"path/filepath"
	"strings"
	"sync"

	"github.com/fivebinaries/go-cardano-serialization/address"
	"github.com/fivebinaries/go-cardano-serialization/bip32"
	"github.com/fivebinaries/go-cardano-serialization/crypto"
	"github.com/fivebinaries/go-cardano-serialization/protocol"
)

// noCrash runs f, reporting a panic as a violation.
func noCrash(c *Ctx, what string, f func()) {
	if pv, st := Guard(f); pv != nil {
		c.Log("%s", trimStack(st))
		c.Fail("panic:"+what, "%s panicked: %v", what, pv)
	}
}

// usable exercises an accepted address.
func usable(c *Ctx, a address.Address, err error, what string) {
	if err != nil {
		c.Ev("error-returned")
		c.Feat(what + "/error")
		return
	}
	if a == nil {
		c.Fail("nil-nil:"+what, "%s returned neither an address nor an error", what)
	}
	c.Feat(what + "/value")
	c.Ev("value-returned")
	noCrash(c, what+" result", func() {
		_ = a.Bytes()
		_ = a.String()
		if a.NetworkInfo() == nil {
			c.Fail("unusable", "accepted address has no network info")
		}
		_, _ = a.MarshalCBOR()
	})
}

type hashCtor struct {
	name string
	n    int
	f    func([]byte) ([]byte, error)
}

var hashCtors = []hashCtor{
	{"Ed25519KeyHash", 28, func(b []byte) ([]byte, error) { v, e := crypto.Ed25519KeyHashFromBytes(b); return v[:], e }},
	{"ScriptHash", 28, func(b []byte) ([]byte, error) { v, e := crypto.ScriptHashFromBytes(b); return v[:], e }},
	{"TransactionHash", 32, func(b []byte) ([]byte, error) { v, e := crypto.TransactionHashFromBytes(b); return v[:], e }},
	{"GenesisDelegateHash", 28, func(b []byte) ([]byte, error) { v, e := crypto.GenesisDelegateHashFromBytes(b); return v[:], e }},
	{"GenesisHash", 28, func(b []byte) ([]byte, error) { v, e := crypto.GenesisHashFromBytes(b); return v[:], e }},
	{"MetadataHash", 32, func(b []byte) ([]byte, error) { v, e := crypto.MetadataHashFromBytes(b); return v[:], e }},
	{"VRFKeyHash", 32, func(b []byte) ([]byte, error) { v, e := crypto.VRFKeyHashFromBytes(b); return v[:], e }},
	{"BlockHash", 32, func(b []byte) ([]byte, error) { v, e := crypto.BlockHashFromBytes(b); return v[:], e }},
	{"VRFVKey", 32, func(b []byte) ([]byte, error) { v, e := crypto.VRFVKeyFromBytes(b); return v[:], e }},
	{"KESVKey", 32, func(b []byte) ([]byte, error) { v, e := crypto.KESVKeyFromBytes(b); return v[:], e }},
}

// randCBOR makes a random, possibly malformed, CBOR item.
func randCBOR(r *rand.Rand, depth int) []byte {
	if depth <= 0 {
		return cborHead(byte(r.IntN(2)), u64(r))
	}
	switch r.IntN(9) {
	case 0:
		return cborHead(0, u64(r))
	case 1:
		return cborHead(1, u64(r))
	case 2:
		return cborBytes(hbytes(r, r.IntN(40)))
	case 3:
		s := rbytes(r, r.IntN(10))
		return append(cborHead(3, uint64(len(s))), s...)
	case 4:
		n := r.IntN(5)
		out := cborHead(4, uint64(n))
		for i := 0; i < n; i++ {
			out = append(out, randCBOR(r, depth-1)...)
		}
		return out
	case 5:
		n := r.IntN(4)
		out := cborHead(5, uint64(n))
		for i := 0; i < 2*n; i++ {
			out = append(out, randCBOR(r, depth-1)...)
		}
		return out
	case 6:
		return append(cborHead(6, pick(r, 24, 0, 1, 2, 30, u64(r))), randCBOR(r, depth-1)...)
	case 7:
		return []byte{0xe0 | byte(r.IntN(32)), byte(r.Uint32()), byte(r.Uint32())}
	}
	// a head announcing far more than follows
	return cborHead(byte(2+r.IntN(4)), pick(r, 1<<31, 1<<32, 1<<62, 1<<63, 1<<64-1, 1000000, u64(r)))
}

// hostileBytes draws address-like, CBOR-like and arbitrary byte strings.
func hostileBytes(r *rand.Rand) ([]byte, string) {
	switch r.IntN(14) {
	case 0:
		return nil, "nil"
	case 1:
		return []byte{}, "empty"
	case 2: // every header with every short length
		return append([]byte{byte(r.Uint32())}, hbytes(r, r.IntN(64))...), "header+len"
	case 3:
		return hbytes(r, r.IntN(130)), "random"
	case 4:
		return mutate(r, genAddr(r).Bytes()), "mutated"
	case 5:
		b := genAddr(r).Bytes()
		return b[:r.IntN(len(b)+1)], "truncated"
	case 6:
		return append(genAddr(r).Bytes(), hbytes(r, 1+r.IntN(40))...), "over-long"
	case 7: // byron, inner replaced by random cbor with a right crc
		return byronEnvelope(randCBOR(r, 4)), "byron/random-inner"
	case 8:
		return byronVariant(r, genAddr(r, kByron)), "byron/variant"
	case 9: // outer structure of random cbor
		out := []byte{0x82}
		out = append(out, randCBOR(r, 4)...)
		return append(out, randCBOR(r, 2)...), "byron/random-outer"
	case 10: // inner truncated with right crc
		in := genAddr(r, kByron).innerByron()
		return byronEnvelope(in[:r.IntN(len(in))]), "byron/inner-truncated"
	case 11: // pointers: all continuation, overflow
		b := append([]byte{0x40 | byte(r.IntN(32))}, hbytes(r, 28)...)
		n := r.IntN(30)
		for i := 0; i < n; i++ {
			b = append(b, 0x80|byte(r.Uint32()))
		}
		if r.IntN(2) == 0 {
			b = append(b, byte(r.IntN(128)))
		}
		return b, "pointer/continuation"
	case 12: // deep nesting and random cbor
		d := r.IntN(400)
		b := bytes.Repeat([]byte{pick(r, byte(0x81), 0x9f, 0xa1, 0xd8)}, d)
		return append(b, randCBOR(r, 2)...), "nested"
	}
	n := pick(r, 500, 5000, 70000)
	b := hbytes(r, n)
	b[0] = byte(r.Uint32())
	return b, "large"
}

func init() {
	register(&Property{
		ID:    "C04",
		Boost: 350,
		Rule:  "every decoder is called with nil, empty, random, mutated, truncated, over-long and structured hostile input; each call must return a usable value or an error; non-trivial = distinct input",
		Require: []string{"nil", "empty", "header+len", "random", "mutated", "truncated", "over-long", "byron/random-inner", "byron/variant", "byron/random-outer", "byron/inner-truncated",
			"pointer/continuation", "nested", "large", "text/error", "text/value", "hex/error", "hex/value", "bytes/error", "bytes/value", "byron-cbor/value", "byron-cbor/error",
			"nat/value", "nat/error", "xprv/value", "xprv/error", "protocol/value", "protocol/error", "hashctor/value", "hashctor/error", "all-headers", "short-checksum"},
		Streams: []Stream{
			{Name: "bytes", Quick: 400000, Thor: 12000000, Run: func(c *Ctx) {
				b, class := hostileBytes(c.R)
				c.Feat(class)
				c.Case(b)
				c.Log("bytes(%s) nil=%v %s", class, b == nil, hex.EncodeToString(b[:min(len(b), 600)]))
				drive(c, b)
			}},
			// every header byte with every length up to 70, three fills: exhaustive over the header/length space
			{Name: "header-length", Fixed: true, Quick: 256 * 71 * 3, Run: func(c *Ctx) {
				i := c.Idx
				h, n, fill := byte(i%256), i/256%71, []byte{0, 0xff, 0x80}[i/(256*71)]
				b := bytes.Repeat([]byte{fill}, n)
				if n > 0 {
					b[0] = h
				}
				c.Feat("all-headers")
				c.Case(b)
				c.Log("bytes %x", b)
				drive(c, b)
			}},
			{Name: "text", Quick: 400000, Thor: 12000000, Run: func(c *Ctx) {
				r := c.R
				var t string
				switch r.IntN(10) {
				case 9: // fewer symbols than a checksum has, yet satisfying its equation
					t = refBech32Short(r, pick(r, "addr", "stake", "addr_test", "stake_test"), pick(r, 5, 5, 5, 4, 4, 5))
					if r.IntN(8) == 0 {
						t = shortText(r)
					}
					c.Feat("short-checksum")
				case 0:
					t = randText(r)
				case 1:
					t = string(rbytes(r, r.IntN(60)))
				case 2: // valid checksum over hostile bytes
					b, _ := hostileBytes(r)
					t = refBech32(pick(r, "addr", "addr_test", "stake", "stake_test", "a", "xyz", "addr1", dictStrSafe(r)), b[:min(len(b), 300)])
				case 3:
					b, _ := hostileBytes(r)
					t = refBase58(b[:min(len(b), 200)])
				case 4: // arbitrary 5-bit symbols: bad padding
					sym := rbytes(r, r.IntN(60))
					for i := range sym {
						sym[i] &= 31
					}
					t = refBech32Symbols(pick(r, "addr", "stake_test", "addr_test"), sym)
				case 5:
					t = genAddr(r).Text()
					t = t[:r.IntN(len(t)+1)]
				case 6:
					t = string(mutate(r, []byte(genAddr(r).Text())))
				case 7:
					t = pick(r, "", "1", "addr1", "stake1", "addr", "stake", "addr_test1", "11111111", "\x00", "ADDR1", "Addr1", strings.ToUpper(genAddr(r).Text()), strings.Repeat("1", r.IntN(90)), strings.Repeat("q", r.IntN(1200)), "addr1"+strings.Repeat("q", r.IntN(200)))
				default:
					t = genAddr(r).Text()
				}
				c.Case(t)
				c.Log("text %q", short(t, 3000))
				noCrash(c, "text", func() { a, err := address.NewAddress(t); usable(c, a, err, "text") })
				h := t
				if r.IntN(2) == 0 {
					b, _ := hostileBytes(r)
					h = hex.EncodeToString(b)
					if len(h) > 0 && r.IntN(4) == 0 {
						h = h[:len(h)-1]
					}
				} else if r.IntN(2) == 0 {
					h = hex.EncodeToString(genAddr(r).Bytes())
				}
				c.Log("hex %q", short(h, 3000))
				noCrash(c, "hex", func() { a, err := address.NewAddressFromHex(h); usable(c, a, err, "hex") })
			}},
			{Name: "small", Quick: 200000, Thor: 4000000, Run: func(c *Ctx) {
				r := c.R
				b, _ := hostileBytes(r)
				if r.IntN(3) == 0 {
					b = refNat(u64(r))
					b = append(b, hbytes(r, r.IntN(3))...)
				}
				c.Case("small", b)
				c.Log("bytes nil=%v %s", b == nil, hx(b))
				noCrash(c, "VariableNatDecode", func() {
					_, n, err := address.VariableNatDecode(b)
					if err == nil {
						c.Feat("nat/value")
						c.Failif(n < 1 || n > len(b), "nat-length", "decoding %s claims to have used %d of %d bytes", hx(b), n, len(b))
					} else {
						c.Feat("nat/error")
					}
				})
				k := hashCtors[r.IntN(len(hashCtors))]
				if r.IntN(3) == 0 {
					b = hbytes(r, r.IntN(70))
				}
				noCrash(c, k.name, func() {
					if _, err := k.f(b); err != nil {
						c.Feat("hashctor/error")
					} else {
						c.Feat("hashctor/value")
					}
				})
				if r.IntN(8) != 0 {
					return
				}
				seed := hbytes(r, pick(r, 0, 1, 31, 32, 32, 32, 33, 64, 96, r.IntN(130)))
				if r.IntN(20) == 0 {
					seed = nil
				}
				noCrash(c, "NewXPrv", func() {
					x, err := bip32.NewXPrv(seed)
					if err != nil {
						c.Feat("xprv/error")
						return
					}
					c.Feat("xprv/value")
					c.Failif(len(x) != 96, "xprv-unusable", "NewXPrv accepted a %d-byte seed and returned a %d-byte key", len(seed), len(x))
					x.Public()
					ch := x.Derive(r.Uint32())
					ch.Sign(seed)
				})
			}},
			{Name: "protocol", Quick: 6000, Thor: 100000, Run: func(c *Ctx) {
				r := c.R
				p := filepath.Join(c.m.scratch, fmt.Sprintf("c04-%d", c.Worker))
				var data []byte
				switch r.IntN(6) {
				case 0:
					data = hbytes(r, r.IntN(300))
				case 1:
					data = []byte(strings.Repeat(pick(r, "[", "{\"a\":", "{", "\"", "-"), r.IntN(20000)))
				case 2:
					data = []byte(pick(r, "", "null", "[]", "1", "\"\"", "true", "{}", " ", "{\"protocolVersion\":null}", "{\"protocolVersion\":[]}", "\xff\xfe"))
				case 3:
					data = mutate(r, []byte(genProtoFile(r).text))
				case 4: // structural mutation: wrong types in the right places
					m := map[string]any{}
					for _, k := range []string{"txFeePerByte", "txFeeFixed", "maxTxSize", "protocolVersion", "minUTxOValue", "x"} {
						m[k] = pick[any](r, nil, -1, 1.5, "5", true, []int{1}, map[string]any{"major": pick[any](r, -1, "x", nil, 300, 1)}, u64(r))
					}
					data, _ = json.Marshal(m)
				default:
					data = []byte(genProtoFile(r).text)
				}
				c.Case("proto", data)
				c.Log("file %q", short(string(data), 2000))
				if err := os.WriteFile(p, data, 0o600); err != nil {
					panic(err)
				}
				switch r.IntN(10) {
				case 0:
					p = filepath.Join(c.m.scratch, "absent", "nothing")
				case 1:
					p = c.m.scratch
				case 2:
					p = ""
				case 3:
					p = "/dev/null"
				case 4:
					p = "bad\x00path"
				}
				noCrash(c, "LoadProtocol", func() {
					pr, err := protocol.LoadProtocol(p)
					if err != nil {
						c.Feat("protocol/error")
						return
					}
					c.Failif(pr == nil, "nil-nil:protocol", "LoadProtocol returned neither parameters nor an error")
					c.Feat("protocol/value")
				})
			}},
		},
	})

	register(&Property{
		ID:      "C05",
		Boost:   600,
		Rule:    "all 1- and 2-byte inputs exhaustively; 64-bit numbers weighted to group boundaries with random bytes following; truncated, overflowing and padded encodings; non-trivial = distinct number or byte string",
		Require: []string{"roundtrip", "truncated-error", "overflow-error", "len1", "len2", "len3", "len4", "len5", "len6", "len7", "len8", "len9", "len10", "short-exhaustive", "padded", "through-pointer"},
		Streams: []Stream{
			{Name: "numbers", Quick: 1500000, Thor: 40000000, Run: func(c *Ctx) {
				r := c.R
				v := u64(r)
				if r.IntN(3) == 0 { // group boundaries
					g := uint(r.IntN(10)) * 7
					v = uint64(1)<<g + uint64(r.IntN(4)) - 2
					if r.IntN(3) == 0 {
						v = r.Uint64() & (uint64(1)<<g - 1)
					}
				}
				want := refNat(v)
				c.Case(v)
				got := address.VariableNatEncode(v)
				c.Failif(!bytes.Equal(got, want), "encode", "%d encodes as %x, want %x", v, got, want)
				c.Feat(fmt.Sprintf("len%d", len(want)))
				in := append(append([]byte{}, want...), hbytes(r, pick(r, 0, 0, 1, 3, 20))...)
				keep := append([]byte{}, in...)
				d, n, err := address.VariableNatDecode(in)
				c.Failif(err != nil || d != v || n != len(want), "decode", "decoding %x gives %d, %d bytes, %v; want %d, %d bytes", in, d, n, err, v, len(want))
				c.Failif(!bytes.Equal(in, keep), "input-changed", "decoding changed its input")
				c.Ev("roundtrip")
				// truncations
				for k := 0; k < len(want); k++ {
					if d, n, err := address.VariableNatDecode(append([]byte{}, want[:k]...)); err == nil {
						c.Fail("truncated-accepted", "decoding the truncated %x (of %x) gives %d, %d bytes and no error", want[:k], want, d, n)
					}
					c.Ev("truncated-error")
				}
			}},
			{Name: "short", Fixed: true, Quick: 1 + 256 + 65536, Run: func(c *Ctx) {
				var b []byte
				switch {
				case c.Idx == 0:
				case c.Idx <= 256:
					b = []byte{byte(c.Idx - 1)}
				default:
					b = []byte{byte((c.Idx - 257) >> 8), byte(c.Idx - 257)}
				}
				c.Feat("short-exhaustive")
				natCheck(c, b)
			}},
			{Name: "raw", Quick: 700000, Thor: 10000000, Run: func(c *Ctx) {
				r := c.R
				var b []byte
				switch r.IntN(4) {
				case 0: // n continuation groups then a terminator: around and above 64 bits
					n := 8 + r.IntN(14)
					b = hbytes(r, n)
					for i := range b {
						b[i] |= 0x80
					}
					if r.IntN(2) == 0 {
						b[0] = 0x80 | byte(r.IntN(4))
					}
					b[n-1] &= 0x7f
				case 1: // zero-padded
					b = bytes.Repeat([]byte{0x80}, r.IntN(14))
					if len(b) > 0 {
						c.Feat("padded")
					}
					b = append(b, refNat(u64(r))...)
				case 2: // 65..70-bit values with a small low part
					b = append([]byte{0x80 | byte(1+r.IntN(127))}, bytes.Repeat([]byte{0x80}, 8+r.IntN(6))...)
					b = append(b, byte(r.IntN(128)))
				default:
					b = hbytes(r, r.IntN(20))
				}
				b = append(b, hbytes(r, pick(r, 0, 0, 2))...)
				natCheck(c, b)
			}},
			// the same numbers through pointer addresses, where they matter
			{Name: "pointer", Quick: 150000, Thor: 4000000, Run: func(c *Ctx) {
				s := genAddr(c.R, kPtr)
				b := s.Bytes()
				c.Case(b)
				c.Log("pointer %d %d %d", s.Slot, s.TxIx, s.Cert)
				built := address.NewPointerAddress(*s.NetInfo(), *cred(true, s.PayK, s.Pay), *address.NewPointer(s.Slot, s.TxIx, s.Cert))
				c.Failif(!bytes.Equal(built.Bytes(), b), "pointer-encode", "pointer %d %d %d encodes as %s, want %s", s.Slot, s.TxIx, s.Cert, hx(built.Bytes()), hx(b))
				a, err := address.NewAddressFromBytes(b)
				c.Failif(err != nil, "pointer-rejected", "valid pointer %s rejected: %v", hx(b), err)
				p, ok := a.(*address.PointerAddress)
				c.Failif(!ok || p.Stake.Slot != s.Slot || p.Stake.TxIndex != s.TxIx || p.Stake.CertIndex != s.Cert, "pointer-decode", "pointer %s decodes to %+v", hx(b), a)
				c.Ev("through-pointer")
				cut := 29 + c.R.IntN(len(b)-29)
				if _, err := address.NewAddressFromBytes(append([]byte{}, b[:cut]...)); err == nil {
					c.Fail("truncated-accepted", "pointer address %s truncated inside its numbers (%d bytes) accepted", hx(b), cut)
				}
				c.Ev("truncated-error")
			}},
		},
	})

	register(&Property{
		ID:      "C16",
		Boost:   1500,
		Rule:    "byte strings of every length 0..1100 and larger with structured contents through both Blake2b functions against an own RFC 7693 implementation (checked against the published vector); every constructor at every length 0..100; non-trivial = distinct input",
		Require: []string{"blake224", "blake256", "pubkey-hash", "ctor-accept", "ctor-reject", "block-boundary", "every-length", "buffer-multiple"},
		Setup: func(m *Monitor) error {
			if hex.EncodeToString(refBlake2b(32, nil)) != "0e5751c026e543b2e8ab2eb06099daa1d1e5df47778f7787faab45cdf12fe3a8" ||
				hex.EncodeToString(refBlake2b(64, []byte("abc")))[:32] != "ba80a53f981c4d0d6a2797b69f12f6e9" {
				return fmt.Errorf("own blake2b fails its vectors")
			}
			return nil
		},
		Streams: []Stream{
			{Name: "digest", Quick: 250000, Thor: 3000000, Run: func(c *Ctx) {
				r := c.R
				n := r.IntN(300)
				switch r.IntN(6) {
				case 0:
					n = pick(r, 0, 1, 127, 128, 129, 255, 256, 257, 383, 384, 385, 1024)
					c.Feat("block-boundary")
				case 1:
					n = r.IntN(1100)
				case 2:
					n = pick(r, 28, 32, 64, 96)
				}
				if c.Idx < 1101 {
					n = c.Idx
					c.Feat("every-length")
				}
				if r.IntN(2000) == 0 {
					n = 20000 + r.IntN(100000)
				} else if r.IntN(400) == 0 {
					n = (1 + r.IntN(130)) * pick(r, 512, 1000, 1024, 4096) // whole buffers
					if r.IntN(3) == 0 {
						n += pick(r, -1, 1)
					}
					c.Feat("buffer-multiple")
				} else if r.IntN(200) == 0 {
					n = dictLen(r, 1<<17)
				} else if r.IntN(40000) == 0 {
					n = 1<<20 + r.IntN(1<<20)
				}
				digestCheck(c, hbytes(r, n))
			}},
			{Name: "constructors", Quick: 40000, Thor: 400000, Run: func(c *Ctx) {
				r := c.R
				for _, k := range hashCtors {
					n := c.Idx % 101
					if c.Idx >= 101 {
						n = pick(r, k.n, k.n, k.n-1, k.n+1, r.IntN(100), 0, 28, 32)
					}
					b := hbytes(r, n)
					if n == 0 && r.IntN(2) == 0 {
						b = nil
					}
					in := append(append(make([]byte, 0, 200), b...), rbytes(r, 40)...)[:n] // spare capacity behind
					c.Case(k.name, b)
					got, err := k.f(in)
					if n == k.n {
						c.Ev("ctor-accept")
						c.Failif(err != nil, "ctor-rejects", "%s rejects %d bytes: %v", k.name, n, err)
						c.Failif(!bytes.Equal(got, b) || len(got) != k.n, "ctor-value", "%s(%x) = %x", k.name, b, got)
					} else {
						c.Ev("ctor-reject")
						c.Failif(err == nil, "ctor-accepts", "%s accepts %d bytes (%x)", k.name, n, b)
					}
					c.Failif(!bytes.Equal(in, b), "input-changed", "%s changed its input", k.name)
				}
			}},
		},
	})

	register(&Property{
		ID:    "C20",
		Boost: 450,
		Setup: func(m *Monitor) error { // what a fallback might find instead: good files under every likely name
			loadDict()
			d := filepath.Join(m.scratch, "decoys")
			r := rand.New(rand.NewPCG(m.seed, 20))
			for _, s := range decoyNames() {
				for _, sub := range []string{".", ".config", ".cardano", "config", "testdata"} {
					if err := os.MkdirAll(filepath.Join(d, sub), 0o755); err != nil {
						return err
					}
					os.WriteFile(filepath.Join(d, sub, s), []byte(genProtoFile(r).text), 0o644)
				}
			}
			os.Setenv("HOME", d)
			return os.Chdir(d)
		},
		Rule: "generated cardano-cli parameter files: every field order, values over the full 64-bit range, unknown fields and nested look-alikes around them; then single defects (missing file, truncation, wrong type, out of range); " +
			"non-trivial = distinct file contents",
		Require: []string{"load-ok", "load-error", "missing", "directory", "truncated", "ill-typed", "out-of-range", "garbage", "null-minutxo", "trailing", "leading", "lenient", "loads-independent", "saved-and-loaded", "path/name", "path/link", "path/parent-of-link", "path/chain", "path/relative", "path/nested"},
		Streams: []Stream{
			{Name: "valid", Quick: 60000, Thor: 800000, Run: func(c *Ctx) {
				r := c.R
				f := genProtoFile(r)
				p := filepath.Join(c.m.scratch, fmt.Sprintf("c20-%d.json", c.Worker))
				if err := os.WriteFile(p, []byte(f.text), 0o600); err != nil {
					panic(err)
				}
				c.Case(f.text)
				c.Log("file %s", short(f.text, 3000))
				got, err := protocol.LoadProtocol(p)
				c.Failif(err != nil, "valid-rejected", "valid file rejected: %v", err)
				c.Failif(got == nil || *got != f.want, "values", "file gives %+v, want %+v", got, f.want)
				c.Ev("load-ok")
				if f.null {
					c.Feat("null-minutxo")
				}
				if r.IntN(3) == 0 { // a loaded value belongs to the caller
					got.TxFeeFixed++
					got.TxFeePerByte ^= 1
					got.ProtocolVersion.Major++
					again, err := protocol.LoadProtocol(p)
					c.Failif(err != nil || again == nil || *again != f.want, "values", "after editing the first result, loading the same file gives %+v %v, want %+v", again, err, f.want)
					*again = protocol.Protocol{}
					c.Failif(got.MaxTxSize != f.want.MaxTxSize || got.TxFeeFixed != f.want.TxFeeFixed+1, "values-shared", "two loads share one value")
					*got = f.want
					c.Ev("loads-independent")
				}
				if r.IntN(4) == 0 { // parameters written out are such a file
					v := any(*got)
					if r.IntN(2) == 0 {
						v = got
					}
					b, err := json.MarshalIndent(v, "", pick(r, "", " ", "\t"))
					c.Failif(err != nil, "save", "parameters cannot be written out: %v", err)
					must(os.WriteFile(p, b, 0o600))
					got2, err := protocol.LoadProtocol(p)
					c.Failif(err != nil || got2 == nil || *got2 != f.want, "save", "%+v, written out as %s, loads as %+v %v", f.want, b, got2, err)
					c.Ev("saved-and-loaded")
				}
				// loading another file later must not touch the first result
				if r.IntN(4) == 0 {
					g := genProtoFile(r)
					os.WriteFile(p, []byte(g.text), 0o600)
					got2, err := protocol.LoadProtocol(p)
					c.Failif(err != nil || got2 == nil || *got2 != g.want, "values", "second load gives %+v %v, want %+v", got2, err, g.want)
					c.Failif(*got != f.want, "values-shared", "loading a second file changed the first result")
				}
				c.Sample(map[string]any{"file": short(f.text, 400), "loaded": fmt.Sprintf("%+v", *got)})
			}},
			{Name: "paths", Quick: 20000, Thor: 200000, Run: func(c *Ctx) {
				r := c.R
				f, decoy := genProtoFile(r), genProtoFile(r)
				dir, err := os.MkdirTemp(c.m.scratch, "c20p")
				must(err)
				defer os.RemoveAll(dir)
				write := func(p, text string) { must(os.WriteFile(p, []byte(text), 0o600)) }
				kind := pick(r, "name", "name", "name", "parent-of-link", "link", "chain", "relative", "nested")
				var p string
				switch kind {
				case "name":
					p = filepath.Join(dir, pick(r, " p.json", "p.json ", "\tp.json", "p.json\n", "p q.json", "$HOME", "${HOME}.json", "~", "~root", "%70.json", "p%2fq", "\u00e9.json", "e\u0301.json",
						"\xff\xfe", "p", "P.JSON", ".p", "-", "--", "p?q=1", "p#q", "*", "[p].json", "p\\q", "'p'", "\"p\"", "p.json.gz", "p.yaml", "p.json~", strings.Repeat("n", 255), "file:", "NUL", "p;q", "p&q", "p|q", dictName(r)))
				case "parent-of-link": // dir/link/../p.json is dir/a/p.json
					must(os.MkdirAll(filepath.Join(dir, "a", "b"), 0o700))
					must(os.Symlink(filepath.Join(dir, "a", "b"), filepath.Join(dir, "link")))
					write(filepath.Join(dir, "p.json"), decoy.text)
					write(filepath.Join(dir, "a", "p.json"), f.text)
					p = dir + "/link/../p.json"
				case "link":
					write(filepath.Join(dir, "p.json"), f.text)
					p = filepath.Join(dir, "link")
					must(os.Symlink(pick(r, "p.json", filepath.Join(dir, "p.json")), p))
				case "chain":
					must(os.Mkdir(filepath.Join(dir, "d"), 0o700))
					must(os.Symlink("d", filepath.Join(dir, "l")))
					p = dir + pick(r, "//d/./p.json", "/l/p.json", "/d/../d/p.json", "/l/../l//p.json")
				case "relative":
					wd, err := os.Getwd()
					must(err)
					p, err = filepath.Rel(wd, filepath.Join(dir, "p.json"))
					must(err)
				case "nested":
					d := filepath.Join(dir, strings.Repeat("d", 200), strings.Repeat("e", 250), strings.Repeat("f", 250))
					must(os.MkdirAll(d, 0o700))
					p = filepath.Join(d, "p.json")
				}
				if kind != "link" && kind != "parent-of-link" {
					write(p, f.text)
				}
				c.Log("%s path %q", kind, p)
				c.Case(kind, p[len(p)-min(len(p), 30):], f.text)
				got, err := protocol.LoadProtocol(p)
				c.Failif(err != nil, "path:"+kind, "the file %q is not loaded: %v", p, err)
				c.Failif(got == nil || *got != f.want, "path:"+kind, "the file %q gives %+v, want %+v", p, got, f.want)
				c.Feat("path/" + kind)
			}},
			{Name: "invalid", Quick: 60000, Thor: 800000, Run: func(c *Ctx) {
				r := c.R
				f := genProtoFile(r)
				p := filepath.Join(c.m.scratch, fmt.Sprintf("c20-%d.json", c.Worker))
				text := f.text
				kind := pick(r, "missing", "directory", "truncated", "ill-typed", "out-of-range", "garbage", "trailing", "leading", "lenient")
				switch kind {
				case "missing":
					p += ".absent"
				case "directory":
					p = c.m.scratch
				case "truncated":
					text = text[:r.IntN(strings.LastIndexByte(text, '}'))]
				case "trailing":
					text += pick(r, "}", "x", "{}", ",", "0", "\x00", strings.Repeat("\x00", 1+r.IntN(600)), "\x1a", ";", "\n#", "\n// end", "/* */", "\f", "\v", "\u00a0", "\ufeff", "\x04", "\n---\n", "\n"+text, "\x1b[0m", "null")
				case "leading": // something a lenient reader would skip
					text = pick(r, "\ufeff", "\xff\xfe", "\x00", "//\n", "# parameters\n", "/* */", "---\n", ")]}',\n", "\f", "\u00a0", "\u2028", "$ cardano-cli query protocol-parameters\n", "Warning: old\n", "[", "(", "=", "\x1b[0m") + text
				case "lenient": // forms other notations allow
					switch i := strings.LastIndexByte(text, '}'); r.IntN(8) {
					case 0:
						text = text[:i] + "," + text[i:]
					case 1:
						text = text[:i] + "// end\n" + text[i:]
					case 2:
						text = text[:i] + "/* end */" + text[i:]
					case 3:
						text = text[:i] + ",,\"x\":1" + text[i:]
					case 4:
						text = text[:i] + ",x:1" + text[i:]
					case 5:
						text = text[:i] + `,"x":` + pick(r, "NaN", "+1", "0x10", "1_000", ".5", "5.", "Infinity", "True", "undefined", "'a'", "\"\t\"", "\"a\nb\"", `"\x41"`, "01", "1e", "-") + text[i:]
					case 6:
						text = text[:i] + " \"x\":1" + text[i:]
					default:
						text = "[" + text + "]"
					}
				case "garbage":
					text = pick(r, "", " ", "{", "not json", "\x00\x01", "{'a':1}", strings.TrimLeft(text, " \n")[1:], strings.Replace(text, ":", "=", 1), text[:strings.LastIndexByte(text, '}')]+"]", string(hbytes(r, 1+r.IntN(50)))+"{", "{,}", `{"a":01}`)
				case "ill-typed":
					text = genProtoBroken(r, pick(r, `"44"`, `true`, `[1]`, `{}`, `1.5`, `{"a":1}`, `""`), `{"x":1}`).text
				case "out-of-range":
					text = genProtoBroken(r, pick(r, "-1", "18446744073709551616", "1e30", "-9223372036854775808", "340282366920938463463374607431768211456"), pick(r, "256", "-1", "1000", "65536", "257")).text
				}
				if kind != "missing" && kind != "directory" {
					if err := os.WriteFile(p, []byte(text), 0o600); err != nil {
						panic(err)
					}
				}
				c.Case(kind, text)
				c.Feat(kind)
				c.Log("%s file %q", kind, short(text, 3000))
				got, err := protocol.LoadProtocol(p)
				c.Failif(err == nil, "invalid-accepted:"+kind, "%s file accepted as %+v", kind, got)
				c.Ev("load-error")
			}},
		},
	})
}

func dictName(r *rand.Rand) string {
	s := strings.Trim(strings.NewReplacer("/", "_", "\x00", "_").Replace(dictStr(r)), ".")
	return "n" + s[:min(len(s), 200)]
}

func dictStrSafe(r *rand.Rand) string {
	s := dictStr(r)
	for i := 0; i < len(s); i++ {
		if s[i] < 33 || s[i] > 126 {
			return "zz"
		}
	}
	return s[:min(len(s), 30)]
}

var shortTexts struct {
	sync.Once
	t []string
}

// shortText draws from a few texts whose data part of 2 or 3 symbols satisfies the checksum (costly to find).
func shortText(r *rand.Rand) string {
	shortTexts.Do(func() {
		q := rand.New(rand.NewPCG(7, 7))
		for _, n := range []int{3, 3, 3, 2} {
			for _, p := range []string{"addr", "stake_test"} {
				shortTexts.t = append(shortTexts.t, refBech32Short(q, p, n))
			}
		}
	})
	return pick(r, shortTexts.t...)
}

func drive(c *Ctx, b []byte) {
	cp := func() []byte {
		if b == nil {
			return nil
		}
		return append([]byte{}, b...)
	}
	noCrash(c, "bytes", func() { a, err := address.NewAddressFromBytes(cp()); usable(c, a, err, "bytes") })
	noCrash(c, "byron-cbor", func() {
		var by address.ByronAddress
		err := by.UnmarshalCBOR(cp())
		usable(c, &by, err, "byron-cbor")
	})
	noCrash(c, "hex", func() { a, err := address.NewAddressFromHex(hex.EncodeToString(b)); usable(c, a, err, "hex") })
}

// natCheck judges an arbitrary byte string offered to the number decoder.
func natCheck(c *Ctx, b []byte) {
	c.Case("raw", b)
	v, n, fits := refNatDecode(b)
	d, m, err := address.VariableNatDecode(append([]byte{}, b...))
	if !fits { // truncated or above 64 bits
		c.Failif(err == nil, "invalid-accepted", "decoding %x (truncated or above 64 bits) gives %d, %d bytes and no error", b, d, m)
		c.Ev("overflow-error")
		return
	}
	if n != len(refNat(v)) { // padded: may be rejected, must not be a different number
		c.Failif(err == nil && (d != v || m != n), "decode", "decoding %x gives %d, %d bytes; want %d, %d bytes or an error", b, d, m, v, n)
		return
	}
	c.Failif(err != nil || d != v || m != n, "decode", "decoding %x gives %d, %d bytes, %v; want %d, %d bytes", b, d, m, err, v, n)
	c.Ev("roundtrip")
}

func digestCheck(c *Ctx, data []byte) {
	c.Case(data)
	c.Log("data %s", hx(data))
	keep := append([]byte{}, data...)
	in := data
	if len(data) == 0 && c.R.IntN(2) == 0 {
		in = nil
	}
	h28, h32 := refBlake2b(28, data), refBlake2b(32, data)
	g28, g32 := crypto.Blake2b224(in), crypto.Blake2b256(in)
	c.Ev("blake224")
	c.Ev("blake256")
	c.Failif(!bytes.Equal(g28[:], h28), "blake2b-224", "Blake2b-224 of %d bytes is %x, want %x", len(data), g28, h28)
	c.Failif(!bytes.Equal(g32[:], h32), "blake2b-256", "Blake2b-256 of %d bytes is %x, want %x", len(data), g32, h32)
	pk := bip32.PublicKey(in).Hash()
	c.Ev("pubkey-hash")
	c.Failif(!bytes.Equal(pk[:], h28), "pubkey-hash", "public key hash of %s is %x, want %x", hx(data), pk, h28)
	c.Failif(!bytes.Equal(data, keep), "input-changed", "hashing changed its input")
	if g := crypto.Blake2b256(in); g != g32 {
		c.Fail("blake2b-unstable", "second digest of the same %d bytes differs", len(data))
	}
}

type protoFile struct {
	text string
	want protocol.Protocol
	null bool
}

func genProtoFile(r *rand.Rand) protoFile { return genProto(r, "", "") }

// genProtoBroken puts bad into one of the numeric fields (badVer where that field is a version component).
func genProtoBroken(r *rand.Rand, bad, badVer string) protoFile { return genProto(r, bad, badVer) }

func genProto(r *rand.Rand, bad, badVer string) protoFile {
	w := protocol.Protocol{TxFeePerByte: uint(u64(r)), TxFeeFixed: uint(u64(r)), MaxTxSize: uint(u64(r)), MinUTXOValue: uint(u64(r)),
		ProtocolVersion: protocol.ProtocolVersion{Major: uint8(r.Uint32()), Minor: uint8(r.Uint32())}}
	if r.IntN(2) == 0 {
		w.ProtocolVersion = protocol.ProtocolVersion{Major: uint8(r.IntN(10)), Minor: uint8(r.IntN(3))}
	}
	null := bad == "" && r.IntN(5) == 0
	at := -1
	if bad != "" {
		at = r.IntN(6)
	}
	num := func(i int, v uint) string {
		if i == at {
			return bad
		}
		return fmt.Sprint(v)
	}
	ver := func(i int, v uint8) string {
		if i == at {
			return badVer
		}
		return fmt.Sprint(v)
	}
	minu := num(3, w.MinUTXOValue)
	if null {
		w.MinUTXOValue, minu = 0, "null"
	}
	vf := []string{`"major": ` + ver(4, w.ProtocolVersion.Major), `"minor": ` + ver(5, w.ProtocolVersion.Minor)}
	if r.IntN(2) == 0 {
		vf[0], vf[1] = vf[1], vf[0]
	}
	pv := "{" + strings.Join(vf, ", ") + "}"
	if at >= 4 && r.IntN(6) == 0 {
		pv = `"8.0"`
	}
	fields := []string{`"txFeePerByte": ` + num(0, w.TxFeePerByte), `"txFeeFixed": ` + num(1, w.TxFeeFixed), `"maxTxSize": ` + num(2, w.MaxTxSize),
		`"minUTxOValue": ` + minu, `"protocolVersion": ` + pv}
	extra := []string{`"decentralization": 0.25`, `"utxoCostPerWord": null`, `"costModels": {"PlutusV1": {"addInteger-cpu-arguments-intercept": 197209, "txFeeFixed": 1}}`,
		`"monetaryExpansion": 3.0e-3`, `"maxBlockBodySize": 65536`, `"executionUnitPrices": {"priceSteps": 7.21e-5, "priceMemory": 5.77e-2}`, `"extraPraosEntropy": null`,
		`"nested": {"txFeePerByte": 7, "protocolVersion": {"major": 99}, "maxTxSize": "x"}`, `"list": [1, {"txFeeFixed": 3}, "}", "\"", "\\"]`, `"note": "\"txFeeFixed\": 12, \u007b"`,
		`"maxBlockHeaderSize": 1100`, `"minPoolCost": 340000000`, `"txFeePerByteOld": 1`, `"": 0`, `"minUTxOValuePerByte": -1`}
	r.Shuffle(len(extra), func(i, j int) { extra[i], extra[j] = extra[j], extra[i] })
	fields = append(fields, extra[:r.IntN(len(extra)+1)]...)
	if r.IntN(40) == 0 {
		var sb strings.Builder
		sb.WriteString(`"big": [0`)
		for i := r.IntN(20000); i > 0; i-- {
			sb.WriteString(",12345")
		}
		fields = append(fields, sb.String()+"]")
	}
	r.Shuffle(len(fields), func(i, j int) { fields[i], fields[j] = fields[j], fields[i] })
	sep := pick(r, ",", ",\n    ", " ,\t", ",\r\n")
	return protoFile{pick(r, "", "\n", " ") + "{" + pick(r, "", "\n  ") + strings.Join(fields, sep) + pick(r, "", "\n") + "}" + pick(r, "", "\n", "\r\n "), w, null}
}
