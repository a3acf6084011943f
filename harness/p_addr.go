package main

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"hash/adler32"
	"hash/crc32"
	"math/bits"
	"math/rand/v2"
	"strings"

	"github.com/fivebinaries/go-cardano-serialization/address"
	"github.com/fivebinaries/go-cardano-serialization/network"
)

func netName(n byte) string {
	if n == 0 {
		return "testnet"
	}
	return "mainnet"
}

func (s AddrSpec) class() string {
	switch s.Kind {
	case kBase:
		return fmt.Sprintf("base/%s/pay%d/stake%d", netName(s.Net), s.PayK, s.StkK)
	case kEnt, kPtr:
		return fmt.Sprintf("%s/%s/pay%d", kindNames[s.Kind], netName(s.Net), s.PayK)
	case kRew:
		return fmt.Sprintf("reward/%s/stake%d", netName(s.Net), s.StkK)
	}
	return fmt.Sprintf("byron/%s/payload=%v", netName(s.Net), s.Payload != nil)
}

var allClasses = func() (out []string) {
	for k := 0; k < 5; k++ {
		for n := byte(0); n < 2; n++ {
			for p := byte(0); p < 2; p++ {
				for q := byte(0); q < 2; q++ {
					s := AddrSpec{Kind: k, Net: n, PayK: p, StkK: q}
					if p == 1 {
						s.Payload = []byte{1}
					}
					out = append(out, s.class())
				}
			}
		}
	}
	seen := map[string]bool{}
	var u []string
	for _, x := range out {
		if !seen[x] {
			seen[x] = true
			u = append(u, x)
		}
	}
	return u
}()

// decodeAll offers b to the byte and hex decoders and checks that they agree.
func decodeBytes(c *Ctx, b []byte) (address.Address, error) {
	in := append([]byte(nil), b...)
	a, err := address.NewAddressFromBytes(in)
	c.Ev("decode-bytes")
	return a, err
}

// checkDecode offers b to the decoder and judges the outcome.
func checkDecode(c *Ctx, b []byte) {
	want, valid := refClassify(b)
	for form := 0; form < 2; form++ {
		var a address.Address
		var err error
		if form == 0 {
			a, err = decodeBytes(c, b)
		} else {
			h := hex.EncodeToString(b)
			if c.R.IntN(4) == 0 {
				h = strings.ToUpper(h)
			}
			a, err = address.NewAddressFromHex(h)
			c.Ev("decode-hex")
		}
		if err != nil {
			c.Ev("rejected")
			c.Failif(valid && !want.Free, "valid-rejected:"+kindNames[want.Kind], "valid address bytes %s (%s) rejected: %v", hx(b), want.Desc(), err)
			continue
		}
		c.Failif(a == nil, "nil-nil", "decoder returned neither address nor error for %s", hx(b))
		c.Ev("accepted")
		got := a.Bytes()
		c.Failif(!bytes.Equal(got, b), "not-reproduced", "accepted %s but re-encodes as %s", hx(b), hx(got))
		c.Failif(!valid, "invalid-accepted", "accepted invalid address bytes %s as %T", hx(b), a)
		if d := want.Matches(a, true); d != "" {
			c.Fail("fields", "bytes %s decode wrongly: %s", hx(b), d)
		}
	}
	if len(b) > 0 && b[0]>>4 == 8 { // Byron addresses also decode from CBOR directly
		var by address.ByronAddress
		if c.R.IntN(3) == 0 { // into a value that held another address before
			if old, ok := genAddr(c.R, kByron).Must(c).(*address.ByronAddress); ok {
				by = *old
				c.Ev("decode-cbor-again")
			}
		}
		err := by.UnmarshalCBOR(append([]byte(nil), b...))
		c.Ev("decode-cbor")
		if err != nil {
			c.Failif(valid && !want.Free, "valid-rejected:byron", "valid Byron CBOR %s rejected: %v", hx(b), err)
			return
		}
		c.Failif(!bytes.Equal(by.Bytes(), b), "not-reproduced", "Byron CBOR %s accepted but re-encodes as %s", hx(b), hx(by.Bytes()))
		c.Failif(!valid, "invalid-accepted", "accepted invalid Byron CBOR %s", hx(b))
		if d := want.Matches(&by, true); d != "" {
			c.Fail("fields", "Byron CBOR %s decodes wrongly: %s", hx(b), d)
		}
	}
}

func mutate(r *rand.Rand, b []byte) []byte {
	b = append([]byte{}, b...)
	for n := 1 + r.IntN(2); n > 0; n-- {
		switch r.IntN(10) {
		case 0:
			b = b[:r.IntN(len(b)+1)]
		case 1:
			b = append(b, hbytes(r, 1+r.IntN(4))...)
		case 2:
			if len(b) > 0 {
				b[0] = byte(r.Uint32())
			}
		case 3:
			if len(b) > 0 {
				b = append(b, b[len(b)-1])
			}
		case 4:
			if len(b) > 0 {
				b = b[:len(b)-1]
			}
		case 5:
			if len(b) > 0 {
				b[0] = b[0]&0xf0 | byte(r.IntN(16))
			}
		case 6:
			if len(b) > 1 {
				i := r.IntN(len(b))
				b = append(b[:i], append([]byte{byte(r.Uint32())}, b[i:]...)...)
			}
		case 7:
			if len(b) > 1 {
				i := r.IntN(len(b))
				b = append(b[:i], b[i+1:]...)
			}
		default:
			if len(b) > 0 {
				b[r.IntN(len(b))] ^= 1 << r.IntN(8)
			}
		}
		if len(b) == 0 {
			return b
		}
	}
	return b
}

// byronVariant makes structurally odd Byron payloads with a correct CRC.
func byronVariant(r *rand.Rand, s AddrSpec) []byte {
	inner := s.innerByron()
	switch r.IntN(12) {
	case 0: // wrong hash length
		s.Pay = hbytes(r, pick(r, 0, 1, 20, 27, 29, 32, 56))
		inner = s.innerByron()
	case 1: // other type tag
		inner[len(inner)-1] = byte(1 + r.IntN(23))
	case 2: // unknown attribute key
		inner = append([]byte{0x83}, cborBytes(s.Pay)...)
		inner = append(inner, 0xa1, byte(pick(r, 0, 3, 4, 23)))
		inner = append(inner, cborBytes(hbytes(r, 1+r.IntN(6)))...)
		inner = append(inner, 0)
	case 3: // known + unknown
		inner = append([]byte{0x83}, cborBytes(s.Pay)...)
		inner = append(inner, 0xa2, byte(pick(r, 0, 3)))
		inner = append(inner, cborBytes(hbytes(r, 2))...)
		inner = append(inner, 1)
		inner = append(inner, cborBytes(hbytes(r, 5))...)
		inner = append(inner, 0)
	case 4: // empty payload attribute
		inner = append([]byte{0x83}, cborBytes(s.Pay)...)
		inner = append(inner, 0xa1, 1, 0x40, 0)
	case 5: // attribute 2 as small integer
		inner = append([]byte{0x83}, cborBytes(s.Pay)...)
		inner = append(inner, 0xa1, 2, byte(r.IntN(24)), 0)
	case 6: // non-minimal length of the hash
		inner = append([]byte{0x83, 0x59, 0, byte(len(s.Pay))}, s.Pay...)
		inner = append(inner, 0xa0, 0)
	case 7: // indefinite map
		inner = append([]byte{0x83}, cborBytes(s.Pay)...)
		inner = append(inner, 0xbf, 1, 0x41, 0xaa, 0xff, 0)
	case 8: // keys out of order
		inner = append([]byte{0x83}, cborBytes(s.Pay)...)
		inner = append(inner, 0xa2, 2)
		inner = append(inner, cborBytes([]byte{0x1a, 0x41, 0x70, 0xcb, 0xd7})...)
		inner = append(inner, 1)
		inner = append(inner, cborBytes(hbytes(r, 9))...)
		inner = append(inner, 0)
	case 9: // extra element
		inner[0] = 0x84
		inner = append(inner, 0)
	case 10: // trailing bytes inside
		inner = append(inner, hbytes(r, 1+r.IntN(3))...)
	default:
		if len(inner) > 0 {
			inner[r.IntN(len(inner))] ^= 1 << r.IntN(8)
		}
	}
	out := byronEnvelope(inner)
	switch r.IntN(8) {
	case 0: // non-minimal crc
		out = append([]byte{0x82, 0xd8, 0x18}, cborBytes(inner)...)
		c := crcIEEE(inner)
		out = append(out, 0x1b, 0, 0, 0, 0, byte(c>>24), byte(c>>16), byte(c>>8), byte(c))
	case 1: // wrong tag number
		out[2] = byte(pick(r, 23+2, 0x19, 0x20, 0x40))
	case 2:
		out = append(out, 0)
	}
	return out
}

func init() {
	register(&Property{
		ID:    "C01",
		Boost: 1000,
		Rule: "address models over all kinds x networks x credential kinds with boundary-biased hashes and pointers are built, encoded and decoded; " +
			"mutated, truncated, extended, re-headed and random byte strings are offered to the decoder; a case is non-trivial when its byte string is new",
		Require: append([]string{"decode-bytes", "decode-hex", "decode-cbor", "decode-cbor-again", "not-hex", "accepted", "rejected", "encode", "edited/base", "edited/enterprise", "edited/pointer", "edited/reward", "edited/byron"}, allClasses...),
		Streams: []Stream{
			{Name: "build", Quick: 120000, Thor: 3000000, Run: func(c *Ctx) {
				s := genAddr(c.R)
				c.Log("spec %s", s.Desc())
				c.Feat(s.class())
				a := s.Must(c)
				want := s.Bytes()
				got := a.Bytes()
				c.Ev("encode")
				c.Failif(!bytes.Equal(got, want), "encode:"+kindNames[s.Kind], "%s encodes as %s, want %s", s.Desc(), hx(got), hx(want))
				c.Case(want)
				checkDecode(c, want)
				// second encode is the same and decoded object encodes likewise
				c.Failif(!bytes.Equal(a.Bytes(), want), "encode-unstable", "second encoding differs for %s", s.Desc())
				c.Sample(map[string]string{"spec": s.Desc(), "bytes": hx(want)})
			}},
			{Name: "edited", Quick: 30000, Thor: 600000, Run: func(c *Ctx) {
				a, n := edited(c)
				want := n.Bytes()
				c.Ev("encode")
				c.Failif(!bytes.Equal(a.Bytes(), want), "edited-bytes", "after assigning its fields the address encodes as %s, want %s", hx(a.Bytes()), hx(want))
				checkDecode(c, want)
			}},
			{Name: "mutate", Quick: 250000, Thor: 6000000, Run: func(c *Ctx) {
				s := genAddr(c.R)
				b := mutate(c.R, s.Bytes())
				c.Log("bytes %s", hx(b))
				c.Case(b)
				checkDecode(c, b)
			}},
			{Name: "byron-structure", Quick: 60000, Thor: 1000000, Run: func(c *Ctx) {
				s := genAddr(c.R, kByron)
				b := byronVariant(c.R, s)
				c.Log("bytes %s", hx(b))
				c.Case(b)
				checkDecode(c, b)
			}},
			{Name: "headers-x-lengths", Fixed: true, Quick: 256 * 72, Thor: 256 * 72 * 10, Run: func(c *Ctx) {
				b := hbytes(c.R, c.Idx/256%72)
				if len(b) > 0 {
					b[0] = byte(c.Idx)
				}
				c.Log("bytes %s", hx(b))
				c.Case(b)
				checkDecode(c, b)
			}},
			{Name: "pointer-tail", Quick: 60000, Thor: 1000000, Run: func(c *Ctx) {
				r := c.R
				b := append([]byte{0x40 | byte(r.IntN(2))<<4 | byte(r.IntN(2))}, hbytes(r, 28)...)
				for i := 0; i < 3; i++ {
					n := refNat(u64(r))
					switch r.IntN(12) {
					case 0:
						n = append([]byte{0x80}, n...)
					case 1:
						n = append([]byte{0x82}, refNat(1<<63|r.Uint64())...)
					case 2:
						n = n[:r.IntN(len(n)+1)]
					case 3:
						n = append(bytes.Repeat([]byte{0x80}, 1+r.IntN(12)), n...)
					}
					b = append(b, n...)
				}
				if r.IntN(10) == 0 {
					b = append(b, byte(r.Uint32()))
				}
				c.Log("bytes %s", hx(b))
				c.Case(b)
				checkDecode(c, b)
			}},
			{Name: "random", Quick: 60000, Thor: 1000000, Run: func(c *Ctx) {
				b := hbytes(c.R, c.R.IntN(140))
				c.Log("bytes %s", hx(b))
				c.Case(b)
				checkDecode(c, b)
			}},
			{Name: "not-hex", Quick: 40000, Thor: 600000, Run: func(c *Ctx) {
				r := c.R
				h := hex.EncodeToString(genAddr(r).Bytes())
				i := r.IntN(len(h) + 1)
				junk := pick(r, "0x", "0X", "x", " ", "\n", "\t", "\x00", "g", "G", "-", "+", "h'", ":", "\\x", "%", "_", "é", string(rune(33+r.IntN(0x3000))), dictStr(r))
				var t string
				switch r.IntN(6) {
				case 0:
					t = junk + h
				case 1:
					t = h + junk
				case 2:
					t = h[:i] + junk + h[i:]
				case 3: // in place of as many digits
					j := min(i, max(0, len(h)-len(junk)))
					t = h[:j] + junk + h[min(len(h), j+len(junk)):]
				case 4: // half a byte is missing
					j := min(i, len(h)-1)
					t = h[:j] + h[j+1:]
				default:
					t = junk + h + junk
				}
				if _, err := hex.DecodeString(t); err == nil {
					return // still hexadecimal
				}
				c.Log("text %q", t)
				c.Case(t)
				c.Ev("not-hex")
				a, err := address.NewAddressFromHex(t)
				c.Failif(err == nil, "not-hex-accepted", "%q is not hexadecimal but gives the address %v", t, a)
			}},
		},
	})

	register(&Property{
		ID:    "C02",
		Boost: 700,
		Rule: "address models over all kinds and networks are rendered and parsed back; texts with contradicting prefixes, wrong encodings, bad padding, mixed case, " +
			"surrounding junk and random content are parsed; a case is non-trivial when its text is new",
		Require: append([]string{"render", "parse", "parse-accepted", "parse-rejected"}, allClasses...),
		Streams: []Stream{
			{Name: "render", Quick: 150000, Thor: 3000000, Run: func(c *Ctx) {
				s := genAddr(c.R)
				c.Log("spec %s", s.Desc())
				c.Feat(s.class())
				a := s.Must(c)
				want := s.Text()
				got := a.String()
				c.Ev("render")
				c.Failif(got != want, "render:"+kindNames[s.Kind], "%s renders as %q, want %q", s.Desc(), got, want)
				c.Case(want)
				p, err := address.NewAddress(want)
				c.Ev("parse")
				c.Failif(err != nil || p == nil, "canonical-rejected:"+kindNames[s.Kind], "canonical text %q rejected: %v", want, err)
				c.Ev("parse-accepted")
				if d := s.Matches(p, true); d != "" {
					c.Fail("parse-fields", "%q parses wrongly: %s", want, d)
				}
				c.Failif(!bytes.Equal(p.Bytes(), s.Bytes()), "parse-bytes", "%q parses to bytes %s, want %s", want, hx(p.Bytes()), hx(s.Bytes()))
				c.Failif(p.String() != want, "reparse-text", "%q parses and renders as %q", want, p.String())
				d, err := address.NewAddressFromBytes(s.Bytes())
				c.Failif(err != nil || d.String() != want, "decoded-text", "decoded %s renders differently (%v)", hx(s.Bytes()), err)
				c.Sample(want)
			}},
			{Name: "edited", Quick: 30000, Thor: 600000, Run: func(c *Ctx) {
				a, n := edited(c)
				c.Ev("render")
				c.Failif(a.String() != n.Text(), "edited-text", "after assigning its fields the address renders as %q, want %q", a.String(), n.Text())
				checkParse(c, n.Text())
			}},
			{Name: "hostile-text", Quick: 200000, Thor: 4000000, Run: func(c *Ctx) {
				r := c.R
				s := genAddr(r)
				b := s.Bytes()
				var t string
				switch k := r.IntN(13); k {
				case 12: // checksum of another scheme
					t = refBech32Const(s.HRP(), refTo5(b), otherConst(r))
				case 0, 1: // wrong human readable part
					t = refBech32(pick(r, "addr", "addr_test", "stake", "stake_test", "addrx", "addr_", "stake_tes", "addr_vkh", "stakepool", "addr1", "address", "addr_testtest", "stake1", "addr_TEST"), b)
				case 2: // wrong text encoding
					t = refBase58(b)
				case 3:
					t = refBech32(s.HRP(), b)
				case 4: // wrong padding
					sym := refTo5(b)
					pad := len(sym)*5 - len(b)*8
					if pad > 0 {
						sym[len(sym)-1] |= byte(1 + r.IntN(1<<pad-1))
					} else {
						sym = append(sym, byte(r.IntN(32)))
					}
					t = refBech32Symbols(s.HRP(), sym)
				case 5: // superfluous groups
					t = refBech32Symbols(s.HRP(), append(refTo5(b), bytes.Repeat([]byte{0}, 1+r.IntN(3))...))
				case 6: // case changes
					t = s.Text()
					switch r.IntN(3) {
					case 0:
						t = strings.ToUpper(t)
					case 1:
						i := r.IntN(len(t))
						t = t[:i] + strings.ToUpper(t[i:])
					default:
						i := r.IntN(len(t))
						t = t[:i] + strings.ToUpper(t[i:i+1]) + t[i+1:]
					}
				case 7: // junk around
					t = pick(r, " ", "\n", "\t", "\x00", "1", "q", "") + s.Text() + pick(r, " ", "\n", "", "q", "1", "\x00", "=")
				case 8:
					t = hex.EncodeToString(b)
				case 9:
					t = refBech32(s.HRP(), mutate(r, b))
				case 10:
					t = refBech32(dictStr(r), b)
				default:
					t = dictStr(r) + s.Text()
				}
				c.Log("text %q", t)
				c.Case(t)
				checkParse(c, t)
			}},
			{Name: "random-text", Quick: 60000, Thor: 1000000, Run: func(c *Ctx) {
				t := randText(c.R)
				c.Log("text %q", t)
				c.Case(t)
				checkParse(c, t)
			}},
		},
	})

	register(&Property{
		ID:    "C03",
		Boost: 450,
		Rule: "valid addresses of all kinds are corrupted: 1-3 symbol substitutions (every single substitution for a sample), prefix changes, truncation, foreign characters; " +
			"Byron payload/CRC byte changes in bytes, hex and text form; non-trivial = distinct corrupted text",
		Require: append([]string{"corrupt-1", "corrupt-2", "corrupt-3", "truncate", "foreign-char", "prefix-change", "byron-crc", "exhaustive-single", "parsed-before-corruption", "other-checksum"}, allClasses...),
		Streams: []Stream{
			{Name: "substitute", Quick: 400000, Thor: 10000000, Run: func(c *Ctx) {
				r := c.R
				s := genAddr(r, kBase, kEnt, kPtr, kRew)
				t := []byte(s.Text())
				c.Feat(s.class())
				pos := strings.LastIndexByte(string(t), '1') + 1
				n := 1 + r.IntN(3)
				used := map[int]bool{}
				for len(used) < n {
					i := pos + r.IntN(len(t)-pos)
					if r.IntN(3) == 0 { // weight on the ends
						i = pick(r, pos, pos+1, len(t)-1, len(t)-2, len(t)-6, len(t)-7)
					}
					if used[i] {
						continue
					}
					used[i] = true
					old := t[i]
					for t[i] == old {
						t[i] = bechAlphabet[r.IntN(32)]
					}
				}
				c.Ev(fmt.Sprintf("corrupt-%d", n))
				mustReject(c, string(t), fmt.Sprintf("%d substituted characters", n))
			}},
			{Name: "other-checksum", Quick: 60000, Thor: 1000000, Run: func(c *Ctx) {
				s := genAddr(c.R, kBase, kEnt, kPtr, kRew)
				c.Ev("other-checksum")
				mustReject(c, refBech32Const(s.HRP(), refTo5(s.Bytes()), otherConst(c.R)), "another checksum")
			}},
			{Name: "exhaustive-single", Quick: 24, Thor: 200, Run: func(c *Ctx) {
				s := genAddr(c.R, c.Idx%4)
				if s.Kind == kPtr {
					s.Slot, s.TxIx, s.Cert = uint64(c.R.IntN(1000000)), uint64(c.R.IntN(300)), uint64(c.R.IntN(5))
				}
				c.Feat(s.class())
				t := s.Text()
				_, err := address.NewAddress(t)
				c.Failif(err != nil, "valid-rejected", "valid %q rejected: %v", t, err)
				c.Ev("parsed-before-corruption")
				pos := strings.LastIndexByte(t, '1') + 1
				for i := pos; i < len(t); i++ {
					for j := 0; j < 256; j++ {
						if byte(j) == t[i] {
							continue
						}
						x := []byte(t)
						x[i] = byte(j)
						c.Ev("exhaustive-single")
						mustReject(c, string(x), "one changed byte")
					}
				}
			}},
			{Name: "prefix-truncate-foreign", Quick: 150000, Thor: 3000000, Run: func(c *Ctx) {
				r := c.R
				s := genAddr(r, kBase, kEnt, kPtr, kRew)
				t := s.Text()
				c.Feat(s.class())
				pos := strings.LastIndexByte(t, '1')
				switch r.IntN(6) {
				case 0: // other prefix, same data
					h := pick(r, "addr", "addr_test", "stake", "stake_test", "addq", "stakee", "addr_tesu", "addr_tess", "addr_", "staketest", "")
					if h == t[:pos] {
						h += "x"
					}
					c.Ev("prefix-change")
					mustReject(c, h+t[pos:], "changed prefix")
				case 1:
					x := []byte(t)
					i := r.IntN(pos)
					old := x[i]
					for x[i] == old {
						x[i] = byte(33 + r.IntN(94))
					}
					c.Ev("prefix-change")
					mustReject(c, string(x), "changed prefix character")
				case 2:
					c.Ev("truncate")
					mustReject(c, t[:r.IntN(len(t))], "truncated")
				case 3:
					x := t[:pos+1+r.IntN(len(t)-pos-1)]
					c.Ev("truncate")
					mustReject(c, x, "truncated")
				case 4:
					i := pos + 1 + r.IntN(len(t)-pos-1)
					f := pick(r, "b", "i", "o", "1", "B", "I", "O", " ", "_", "-", "\x00", "\x7f", "\x80", "é", "K", "ſ", "Q", "A", string(rune(0x21+r.IntN(0x2000))))
					if strings.Contains(bechAlphabet, f) {
						f = "b"
					}
					c.Ev("foreign-char")
					if r.IntN(2) == 0 {
						mustReject(c, t[:i]+f+t[i+1:], "foreign character substituted")
					} else {
						mustReject(c, t[:i]+f+t[i:], "foreign character inserted")
					}
				default:
					i := pos + 1 + r.IntN(len(t)-pos-1)
					up := strings.ToUpper(t[i : i+1])
					if up == t[i:i+1] {
						up = "B"
					}
					c.Ev("foreign-char")
					mustReject(c, t[:i]+up+t[i+1:], "upper-case character in lower-case text")
				}
			}},
			{Name: "byron", Quick: 200000, Thor: 4000000, Run: func(c *Ctx) {
				r := c.R
				s := genAddr(r, kByron)
				c.Feat(s.class())
				inner := s.innerByron()
				b := s.Bytes()
				off := 3 + len(cborHead(2, uint64(len(inner))))
				x := append([]byte{}, b...)
				switch r.IntN(3) {
				case 0: // payload bytes
					for n := 1 + r.IntN(3); n > 0; n-- {
						x[off+r.IntN(len(inner))] ^= byte(1 + r.IntN(255))
					}
					if bytes.Equal(x[off:off+len(inner)], inner) || crcIEEE(x[off:off+len(inner)]) == crcIEEE(inner) {
						return
					}
				case 1: // checksum value
					v := crcIEEE(inner)
					v ^= pick(r, 1<<uint(r.IntN(32)), r.Uint32()|1, 0xffffffff)
					x = append(append([]byte{}, b[:off+len(inner)]...), cborHead(0, uint64(v))...)
				default: // checksum of something plausible
					good := crcIEEE(inner)
					v := uint64(pick(r, crcIEEE(b), crcIEEE(s.Pay), 0, crcIEEE(cborBytes(inner)), good+1, good-1, ^good, bits.ReverseBytes32(good), bits.Reverse32(good), good<<16|good>>16, good&0xffff, good>>16,
						crc32.Checksum(inner, crc32.MakeTable(crc32.Castagnoli)), crc32.Checksum(inner, crc32.MakeTable(crc32.Koopman)), adler32.Checksum(inner), crcIEEE(s.Pay[:min(len(s.Pay), 28)]), crcIEEE(inner[1:]), crcIEEE(inner[:len(inner)-1])))
					if v == uint64(crcIEEE(inner)) {
						return
					}
					x = append(append([]byte{}, b[:off+len(inner)]...), cborHead(0, v)...)
				}
				c.Ev("byron-crc")
				c.Case(x)
				c.Log("bytes %s", hx(x))
				if a, err := address.NewAddressFromBytes(append([]byte{}, x...)); err == nil {
					c.Fail("byron-corruption-accepted", "corrupted Byron bytes %s accepted as %v", hx(x), a)
				}
				if _, err := address.NewAddressFromHex(hex.EncodeToString(x)); err == nil {
					c.Fail("byron-corruption-accepted", "corrupted Byron hex %s accepted", hx(x))
				}
				t := refBase58(x)
				if _, err := address.NewAddress(t); err == nil {
					c.Fail("byron-corruption-accepted", "corrupted Byron text %s accepted", t)
				}
				var by address.ByronAddress
				if err := by.UnmarshalCBOR(append([]byte{}, x...)); err == nil {
					c.Fail("byron-corruption-accepted", "corrupted Byron CBOR %s accepted", hx(x))
				}
				// and the intact one is accepted
				_, err := address.NewAddress(refBase58(b))
				c.Failif(err != nil, "valid-rejected", "intact Byron address %s rejected: %v", hx(b), err)
				c.Ev("parsed-before-corruption")
			}},
			{Name: "byron-text", Quick: 60000, Thor: 1000000, Run: func(c *Ctx) {
				r := c.R
				s := genAddr(r, kByron)
				c.Feat(s.class())
				t := []byte(s.Text())
				for n := 1 + r.IntN(3); n > 0; n-- {
					i := r.IntN(len(t))
					t[i] = b58Alphabet[r.IntN(58)]
				}
				if string(t) == s.Text() {
					return
				}
				c.Ev("byron-crc")
				mustReject(c, string(t), "substituted base58 characters")
			}},
		},
	})

	register(&Property{
		ID:      "C21",
		Boost:   900,
		Rule:    "base addresses over all networks x credential kinds, built or decoded, are converted; network info, prefix and CBOR form of all kinds are compared with the model; non-trivial = distinct address bytes",
		Require: append([]string{"to-enterprise", "to-reward", "network-info", "prefix", "cbor-form", "constants"}, allClasses...),
		Streams: []Stream{
			{Name: "convert", Quick: 120000, Thor: 3000000, Run: func(c *Ctx) {
				s := genAddr(c.R, kBase)
				c.Log("spec %s", s.Desc())
				c.Feat(s.class())
				a := s.Must(c)
				decoded := c.R.IntN(2) == 0
				if decoded {
					var err error
					a, err = address.NewAddress(s.Text())
					c.Failif(err != nil, "valid-rejected", "%v", err)
					s.Magic = map[byte]uint32{0: 1097911063, 1: 764824073}[s.Net]
				}
				b, ok := a.(*address.BaseAddress)
				c.Failif(!ok, "kind", "base address decoded as %T", a)
				c.Case(s.Bytes())
				e := b.ToEnterprise()
				c.Ev("to-enterprise")
				es := s
				es.Kind = kEnt
				if d := es.Matches(e, false); d != "" {
					c.Fail("to-enterprise", "%s -> enterprise: %s", s.Desc(), d)
				}
				c.Failif(e.Network != *s.NetInfo(), "to-enterprise-network", "network %+v, want %+v", e.Network, *s.NetInfo())
				c.Failif(!bytes.Equal(e.Bytes(), es.Bytes()) || e.String() != es.Text(), "to-enterprise-form", "%s -> %s %s", s.Desc(), hx(e.Bytes()), e)
				w := b.ToReward()
				c.Ev("to-reward")
				ws := s
				ws.Kind = kRew
				if d := ws.Matches(w, false); d != "" {
					c.Fail("to-reward", "%s -> reward: %s", s.Desc(), d)
				}
				c.Failif(w.Network != *s.NetInfo(), "to-reward-network", "network %+v, want %+v", w.Network, *s.NetInfo())
				c.Failif(!bytes.Equal(w.Bytes(), ws.Bytes()) || w.String() != ws.Text(), "to-reward-form", "%s -> %s %s", s.Desc(), hx(w.Bytes()), w)
				c.Failif(!bytes.Equal(b.Bytes(), s.Bytes()), "source-changed", "converting changed the base address")
				c.Sample(map[string]string{"base": s.Text(), "enterprise": es.Text(), "reward": ws.Text()})
			}},
			{Name: "edited", Quick: 30000, Thor: 600000, Run: func(c *Ctx) {
				a, n := edited(c)
				ni := a.NetworkInfo()
				c.Failif(ni == nil || ni.NetworkId != n.Net || n.Kind != kByron && *ni != *n.NetInfo(), "edited-network", "after assigning its fields the address reports %+v, want %+v", ni, *n.NetInfo())
				if n.Kind == kByron {
					return
				}
				p, ok := a.(interface{ Prefix() string })
				c.Failif(!ok || p.Prefix() != n.HRP(), "edited-prefix", "after assigning its fields the prefix is not %q", n.HRP())
				c.Failif(!strings.HasPrefix(a.String(), n.HRP()+"1"), "edited-prefix-text", "after assigning its fields the text %q does not start with %q", a.String(), n.HRP())
				enc, err := a.MarshalCBOR()
				c.Failif(err != nil || !bytes.Equal(enc, cborBytes(n.Bytes())), "edited-cbor", "after assigning its fields the CBOR form is %s, want the byte string of %s", hx(enc), hx(n.Bytes()))
				if b, ok := a.(*address.BaseAddress); ok {
					es, ws := n, n
					es.Kind, ws.Kind = kEnt, kRew
					e, w := b.ToEnterprise(), b.ToReward()
					c.Failif(!bytes.Equal(e.Bytes(), es.Bytes()) || e.Network != *n.NetInfo(), "edited-enterprise", "enterprise address %s on %+v, want %s", hx(e.Bytes()), e.Network, hx(es.Bytes()))
					c.Failif(!bytes.Equal(w.Bytes(), ws.Bytes()) || w.Network != *n.NetInfo(), "edited-reward", "reward address %s on %+v, want %s", hx(w.Bytes()), w.Network, hx(ws.Bytes()))
				}
			}},
			{Name: "info", Quick: 150000, Thor: 3000000, Run: func(c *Ctx) {
				s := genAddr(c.R)
				c.Log("spec %s", s.Desc())
				c.Feat(s.class())
				c.Case(s.Bytes())
				built := s.Must(c)
				dec, err := address.NewAddressFromBytes(s.Bytes())
				c.Failif(err != nil, "valid-rejected", "%s rejected: %v", hx(s.Bytes()), err)
				for i, a := range []address.Address{built, dec} {
					ni := a.NetworkInfo()
					c.Ev("network-info")
					want := *s.NetInfo()
					if i == 1 || s.Kind == kByron {
						want = *network.MainNet()
						if s.Net == 0 {
							want = *network.TestNet()
						}
					}
					c.Failif(ni == nil || ni.NetworkId != want.NetworkId || s.Kind != kByron && *ni != want, "network-info", "%s reports %+v, want %+v", s.Desc(), ni, want)
					p, ok := a.(interface{ Prefix() string })
					c.Failif(!ok, "prefix", "%T has no prefix", a)
					wantP := s.HRP()
					if s.Kind == kByron {
						wantP = ""
					}
					c.Ev("prefix")
					c.Failif(p.Prefix() != wantP, "prefix", "%s has prefix %q, want %q", s.Desc(), p.Prefix(), wantP)
					c.Failif(s.Kind != kByron && !strings.HasPrefix(a.String(), wantP+"1"), "prefix-text", "%q does not start with %q", a.String(), wantP)
					enc, err := a.MarshalCBOR()
					c.Ev("cbor-form")
					c.Failif(err != nil, "cbor-form-error:"+kindNames[s.Kind], "%s does not encode to CBOR: %v", s.Desc(), err)
					if s.Kind != kByron {
						n, perr := cborParse(enc)
						c.Failif(perr != nil || n.Major != 2 || !bytes.Equal(n.Bytes, s.Bytes()), "cbor-form", "%s CBOR form %s is not the byte string of %s", s.Desc(), hx(enc), hx(s.Bytes()))
					}
				}
				mn, tn := network.MainNet(), network.TestNet()
				c.Ev("constants")
				c.Failif(mn.NetworkId != 1 || mn.ProtocolMagic != 764824073 || tn.NetworkId != 0 || tn.ProtocolMagic != 1097911063, "constants", "network constants %+v %+v", mn, tn)
			}},
			// decoded addresses are independent of what is done to the constants' values
			{Name: "constants-history", Quick: 2000, Thor: 50000, Workers: 1, Run: func(c *Ctx) {
				n := pick(c.R, network.MainNet(), network.TestNet())
				n.NetworkId ^= byte(c.R.IntN(16))
				n.ProtocolMagic ^= c.R.Uint32()
				s := genAddr(c.R)
				c.Case(s.Bytes())
				a := s.Must(c)
				if x := a.NetworkInfo(); x != nil {
					x.NetworkId ^= 1 // a caller scribbling over the returned value of one address
				}
				d, err := address.NewAddressFromBytes(s.Bytes())
				c.Failif(err != nil, "valid-rejected", "%v", err)
				if m := s.Matches(d, true); m != "" {
					c.Fail("network-state-leak", "after modifying another address' network info: %s", m)
				}
				mn, tn := network.MainNet(), network.TestNet()
				c.Failif(mn.NetworkId != 1 || mn.ProtocolMagic != 764824073 || tn.NetworkId != 0 || tn.ProtocolMagic != 1097911063, "constants", "network constants %+v %+v", mn, tn)
			}},
		},
	})
}

func mustReject(c *Ctx, t, how string) {
	c.Case(t)
	a, err := address.NewAddress(t)
	if err == nil {
		c.Log("text %q", t)
		c.Fail("corruption-accepted", "%s: %q accepted as %v", how, t, a)
	}
}

// checkParse: an accepted text must be the canonical text of the address it yields.
func checkParse(c *Ctx, t string) {
	a, err := address.NewAddress(t)
	c.Ev("parse")
	// the model's verdict: canonical text of some valid address?
	canon := false
	if a2, ok := refParse(t); ok {
		canon = true
		if err != nil && !a2.Free {
			c.Fail("canonical-rejected:"+kindNames[a2.Kind], "canonical text %q rejected: %v", t, err)
		}
	}
	if err != nil {
		c.Ev("parse-rejected")
		return
	}
	c.Failif(a == nil, "nil-nil", "parser returned neither address nor error for %q", t)
	c.Ev("parse-accepted")
	c.Failif(a.String() != t, "not-canonical", "%q accepted but its address renders as %q", t, a.String())
	c.Failif(!canon, "invalid-accepted", "%q accepted (as %T) but is not the canonical text of a valid address", t, a)
}

// refParse decodes a text by the model; ok only for canonical texts.
func refParse(t string) (AddrSpec, bool) {
	if i := strings.LastIndexByte(t, '1'); i > 0 && (strings.HasPrefix(t, "addr") || strings.HasPrefix(t, "stake")) {
		var acc, nb uint
		var data []byte
		body := t[i+1:]
		if len(body) < 6 {
			return AddrSpec{}, false
		}
		for j := 0; j < len(body)-6; j++ {
			v := strings.IndexByte(bechAlphabet, body[j])
			if v < 0 {
				return AddrSpec{}, false
			}
			acc = acc<<5 | uint(v)
			nb += 5
			if nb >= 8 {
				nb -= 8
				data = append(data, byte(acc>>nb))
				acc &= 1<<nb - 1
			}
		}
		s, ok := refClassify(data)
		if !ok || s.Kind == kByron {
			return s, false
		}
		return s, s.Text() == t
	}
	b, ok := refBase58Decode(t)
	if !ok {
		return AddrSpec{}, false
	}
	s, ok := refClassify(b)
	return s, ok && s.Kind == kByron
}

func refBase58Decode(t string) ([]byte, bool) {
	if len(t) > 2000 || len(t) == 0 {
		return nil, false
	}
	z := 0
	for z < len(t) && t[z] == '1' {
		z++
	}
	buf := make([]byte, 0, len(t)) // big-endian digits base 256, little first
	for i := z; i < len(t); i++ {
		v := strings.IndexByte(b58Alphabet, t[i])
		if v < 0 {
			return nil, false
		}
		carry := v
		for j := range buf {
			carry += int(buf[j]) * 58
			buf[j] = byte(carry)
			carry >>= 8
		}
		for carry > 0 {
			buf = append(buf, byte(carry))
			carry >>= 8
		}
	}
	out := make([]byte, z+len(buf))
	for i := range buf {
		out[len(out)-1-i] = buf[i]
	}
	return out, true
}

func randText(r *rand.Rand) string {
	var sb strings.Builder
	sb.WriteString(pick(r, "", "addr1", "addr_test1", "stake1", "stake_test1", "addr", "stake", "Ae2", "DdzFF", "ADDR1", "1", "11", "addr11", dictStr(r)))
	alpha := pick(r, bechAlphabet, b58Alphabet, "0123456789abcdef", bechAlphabet+"1", "\x00\x7f\x80\xff qp", "éKſ日qp1")
	n := r.IntN(130)
	for i := 0; i < n; i++ {
		if r.IntN(40) == 0 {
			sb.WriteRune(rune(r.IntN(0x3000)))
		} else {
			sb.WriteByte(alpha[r.IntN(len(alpha))])
		}
	}
	return sb.String()
}

// otherConst draws a value that is not the checksum constant of bech32.
func otherConst(r *rand.Rand) uint32 {
	k := pick(r, uint32(0x2bc830a3), 0, 2, 3, 0x3fffffff, 0x3ffffffe, 1<<29|1, 1<<5|1, 1<<uint(r.IntN(30))^1, r.Uint32N(1<<30))
	if k == 1 {
		return 0x2bc830a3
	}
	return k
}
