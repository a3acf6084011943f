package main

import (
	"bytes"
	"fmt"
	"math/rand/v2"

	"github.com/fivebinaries/go-cardano-serialization/address"
	"github.com/fivebinaries/go-cardano-serialization/network"
)

const (
	kBase = iota
	kEnt
	kPtr
	kRew
	kByron
)

var kindNames = []string{"base", "enterprise", "pointer", "reward", "byron"}

// AddrSpec is the model of an address.
type AddrSpec struct {
	Kind       int
	Net        byte
	Magic      uint32 // protocol magic put into the NetworkInfo of built addresses
	PayK, StkK byte
	Pay, Stk   []byte
	Slot       uint64
	TxIx, Cert uint64
	Payload    []byte // byron attribute 1 (nil: absent)
	NetMagic   []byte // byron attribute 2 (nil: absent): cbor of the magic
	Free       bool   // the decoder may accept or reject it, but not rewrite it
}

func genAddr(r *rand.Rand, kinds ...int) AddrSpec {
	k := r.IntN(5)
	if len(kinds) > 0 {
		k = kinds[r.IntN(len(kinds))]
	}
	s := AddrSpec{Kind: k, Net: byte(r.IntN(2)), PayK: byte(r.IntN(2)), StkK: byte(r.IntN(2)), Pay: hbytes(r, 28), Stk: hbytes(r, 28),
		Slot: u64(r), TxIx: u64(r), Cert: u64(r)}
	switch r.IntN(4) {
	case 0:
		s.Magic = u32(r)
	default:
		s.Magic = 764824073
		if s.Net == 0 {
			s.Magic = 1097911063
		}
	}
	if k == kByron {
		s.Net = 1
		if r.IntN(3) > 0 {
			n := pick(r, 1, 2, 22, 23, 24, 25, 28, 30, 31, 33, 60, 64, 100, 255, 256, 300, 1+r.IntN(80))
			s.Payload = hbytes(r, n)
			if r.IntN(2) == 0 { // realistic: cbor byte string inside
				s.Payload = cborBytes(hbytes(r, 28))
			}
		}
		if r.IntN(2) == 0 {
			s.NetMagic = cborHead(0, uint64(pick(r, 1097911063, 1, 2, u32(r))))
			s.Net = 0
		}
	}
	return s
}

func (s AddrSpec) innerByron() []byte {
	in := append([]byte{0x83}, cborBytes(s.Pay)...)
	n := 0
	var attrs []byte
	if s.Payload != nil {
		n++
		attrs = append(append(attrs, 0x01), cborBytes(s.Payload)...)
	}
	if s.NetMagic != nil {
		n++
		attrs = append(append(attrs, 0x02), cborBytes(s.NetMagic)...)
	}
	in = append(in, cborHead(5, uint64(n))...)
	in = append(in, attrs...)
	return append(in, 0x00)
}

func byronEnvelope(inner []byte) []byte {
	out := append([]byte{0x82, 0xd8, 0x18}, cborBytes(inner)...)
	return append(out, cborHead(0, uint64(crcIEEE(inner)))...)
}

// Bytes is the CIP-19 layout.
func (s AddrSpec) Bytes() []byte {
	switch s.Kind {
	case kBase:
		return append(append([]byte{s.PayK<<4 | s.StkK<<5 | s.Net}, s.Pay...), s.Stk...)
	case kEnt:
		return append([]byte{0x60 | s.PayK<<4 | s.Net}, s.Pay...)
	case kRew:
		return append([]byte{0xe0 | s.StkK<<4 | s.Net}, s.Stk...)
	case kPtr:
		b := append([]byte{0x40 | s.PayK<<4 | s.Net}, s.Pay...)
		b = append(b, refNat(s.Slot)...)
		b = append(b, refNat(s.TxIx)...)
		return append(b, refNat(s.Cert)...)
	}
	return byronEnvelope(s.innerByron())
}

func (s AddrSpec) HRP() string {
	p := "addr"
	if s.Kind == kRew {
		p = "stake"
	}
	if s.Net == 0 {
		p += "_test"
	}
	return p
}

func (s AddrSpec) Text() string {
	if s.Kind == kByron {
		return refBase58(s.Bytes())
	}
	return refBech32(s.HRP(), s.Bytes())
}

func (s AddrSpec) Desc() string {
	if s.Kind == kByron {
		return fmt.Sprintf("byron hash=%x payload=%x netmagic=%x", s.Pay, s.Payload, s.NetMagic)
	}
	return fmt.Sprintf("%s net=%d magic=%d pay=%d:%x stake=%d:%x ptr=%d,%d,%d", kindNames[s.Kind], s.Net, s.Magic, s.PayK, s.Pay, s.StkK, s.Stk, s.Slot, s.TxIx, s.Cert)
}

func cred(variant bool, k byte, h []byte) *address.StakeCredential {
	h = append([]byte{}, h...)
	if variant {
		return &address.StakeCredential{Kind: address.StakeCredentialType(k), Payload: h}
	}
	if k == 0 {
		return address.NewKeyStakeCredential(h)
	}
	return address.NewScriptStakeCredential(h)
}

func (s AddrSpec) NetInfo() *network.NetworkInfo {
	return &network.NetworkInfo{NetworkId: s.Net, ProtocolMagic: s.Magic}
}

// Build makes the address through the library's constructors (variants choose equivalent ways).
func (s AddrSpec) Build(r *rand.Rand) (address.Address, error) {
	v, v2 := r.IntN(2) == 0, r.IntN(2) == 0
	n := s.NetInfo()
	switch s.Kind {
	case kBase:
		if v2 {
			return &address.BaseAddress{Network: *n, Payment: *cred(v, s.PayK, s.Pay), Stake: *cred(v, s.StkK, s.Stk)}, nil
		}
		return address.NewBaseAddress(n, cred(v, s.PayK, s.Pay), cred(v, s.StkK, s.Stk)), nil
	case kEnt:
		if v2 {
			return &address.EnterpriseAddress{Network: *n, Payment: *cred(v, s.PayK, s.Pay)}, nil
		}
		return address.NewEnterpriseAddress(n, cred(v, s.PayK, s.Pay)), nil
	case kPtr:
		if v2 {
			return &address.PointerAddress{Network: *n, Payment: *cred(v, s.PayK, s.Pay), Stake: address.StakePointer{Slot: s.Slot, TxIndex: s.TxIx, CertIndex: s.Cert}}, nil
		}
		return address.NewPointerAddress(*n, *cred(v, s.PayK, s.Pay), *address.NewPointer(s.Slot, s.TxIx, s.Cert)), nil
	case kRew:
		if v2 {
			return &address.RewardAddress{Network: *n, Stake: *cred(v, s.StkK, s.Stk)}, nil
		}
		return address.NewRewardAddress(n, cred(v, s.StkK, s.Stk)), nil
	}
	if s.NetMagic == nil && v {
		return &address.ByronAddress{Hash: append([]byte{}, s.Pay...), Attributes: address.ByronAddressAttributes{Payload: append([]byte(nil), s.Payload...)}}, nil
	}
	return address.NewAddressFromBytes(s.Bytes())
}

// Must builds or fails the case.
func (s AddrSpec) Must(c *Ctx) address.Address {
	a, err := s.Build(c.R)
	if err != nil || a == nil {
		c.Fail("valid-address-rejected:"+kindNames[s.Kind], "a valid %s was not accepted: %v", s.Desc(), err)
	}
	return a
}

func credEq(a address.StakeCredential, k byte, h []byte) bool {
	return byte(a.Kind) == k && bytes.Equal(a.Payload, h)
}

// Matches compares the observable fields of a decoded address with the model.
func (s AddrSpec) Matches(a address.Address, magic bool) string {
	ni := a.NetworkInfo()
	if ni == nil {
		return "nil network info"
	}
	if ni.NetworkId != s.Net {
		return fmt.Sprintf("network id %d, want %d", ni.NetworkId, s.Net)
	}
	switch x := a.(type) {
	case *address.BaseAddress:
		if s.Kind != kBase {
			return "decoded as base"
		}
		if !credEq(x.Payment, s.PayK, s.Pay) || !credEq(x.Stake, s.StkK, s.Stk) {
			return fmt.Sprintf("credentials differ: %+v %+v", x.Payment, x.Stake)
		}
	case *address.EnterpriseAddress:
		if s.Kind != kEnt {
			return "decoded as enterprise"
		}
		if !credEq(x.Payment, s.PayK, s.Pay) {
			return fmt.Sprintf("payment credential differs: %+v", x.Payment)
		}
	case *address.RewardAddress:
		if s.Kind != kRew {
			return "decoded as reward"
		}
		if !credEq(x.Stake, s.StkK, s.Stk) {
			return fmt.Sprintf("stake credential differs: %+v", x.Stake)
		}
	case *address.PointerAddress:
		if s.Kind != kPtr {
			return "decoded as pointer"
		}
		if !credEq(x.Payment, s.PayK, s.Pay) || x.Stake.Slot != s.Slot || x.Stake.TxIndex != s.TxIx || x.Stake.CertIndex != s.Cert {
			return fmt.Sprintf("pointer fields differ: %+v", *x)
		}
	case *address.ByronAddress:
		if s.Kind != kByron {
			return "decoded as byron"
		}
		if !bytes.Equal(x.Hash, s.Pay) || !bytes.Equal(x.Attributes.Payload, s.Payload) || x.Tag != 0 {
			return fmt.Sprintf("byron fields differ: %+v", *x)
		}
	default:
		return fmt.Sprintf("unknown address type %T", a)
	}
	if magic {
		want := uint32(764824073)
		if s.Net == 0 {
			want = 1097911063
		}
		if s.Kind != kByron && ni.ProtocolMagic != want {
			return fmt.Sprintf("protocol magic %d, want %d", ni.ProtocolMagic, want)
		}
	}
	return ""
}

// refClassify decodes a byte string by the CIP-19 rules. ok: it is a canonical address this library supports.
// Free is set where the rules leave the decoder freedom (odd contents of the Byron network attribute).
func refClassify(b []byte) (s AddrSpec, ok bool) {
	if len(b) == 0 {
		return s, false
	}
	h := b[0]
	s.Net = h & 15
	take := func(k int) bool { s.Kind = k; return true }
	switch h >> 4 {
	case 0, 1, 2, 3:
		if s.Net > 1 || len(b) != 57 {
			return s, false
		}
		take(kBase)
		s.PayK, s.StkK, s.Pay, s.Stk = h>>4&1, h>>5&1, b[1:29], b[29:]
		return s, true
	case 4, 5:
		if s.Net > 1 || len(b) < 32 {
			return s, false
		}
		take(kPtr)
		s.PayK, s.Pay = h>>4&1, b[1:29]
		p := 29
		for _, dst := range []*uint64{&s.Slot, &s.TxIx, &s.Cert} {
			v, n, ok := refNatDecode(b[p:])
			if !ok || n != len(refNat(v)) {
				return s, false
			}
			*dst = v
			p += n
		}
		return s, p == len(b)
	case 6, 7:
		take(kEnt)
		if s.Net > 1 || len(b) != 29 {
			return s, false
		}
		s.PayK, s.Pay = h>>4&1, b[1:]
		return s, true
	case 14, 15:
		take(kRew)
		if s.Net > 1 || len(b) != 29 {
			return s, false
		}
		s.StkK, s.Stk = h>>4&1, b[1:]
		return s, true
	case 8:
		take(kByron)
		n, err := cborParse(b)
		if err != nil || !n.Canonical || n.Major != 4 || len(n.Arr) != 2 || n.Arr[0].Major != 6 || n.Arr[0].Val != 24 || n.Arr[0].Arr[0].Major != 2 ||
			n.Arr[1].Major != 0 {
			return s, false
		}
		inner := n.Arr[0].Arr[0].Bytes
		if n.Arr[1].Val != uint64(crcIEEE(inner)) {
			return s, false
		}
		in, err := cborParse(inner)
		if err != nil || !in.Canonical || in.Major != 4 || len(in.Arr) != 3 || in.Arr[0].Major != 2 || len(in.Arr[0].Bytes) != 28 || in.Arr[1].Major != 5 ||
			in.Arr[2].Major != 0 || in.Arr[2].Val != 0 {
			return s, false
		}
		s.Pay, s.Net = in.Arr[0].Bytes, 1
		last := -1
		for i, k := range in.Arr[1].Keys {
			v := in.Arr[1].Vals[i]
			if k.Major != 0 || int(k.Val) <= last || v.Major != 2 || len(v.Bytes) == 0 {
				return s, false
			}
			last = int(k.Val)
			switch k.Val {
			case 1:
				s.Payload = v.Bytes
			case 2:
				m, err := cborParse(v.Bytes)
				if err != nil || m.Major != 0 || !m.Canonical || m.Val > 0xffffffff {
					s.Free = true // the magic is opaque to an address
				}
				s.NetMagic, s.Net = v.Bytes, 0
			default:
				return s, false
			}
		}
		return s, true
	}
	return s, false
}

// edit turns a into the address of s by assigning exported fields; s is of the same kind.
func (s AddrSpec) edit(r *rand.Rand, a address.Address) {
	v := r.IntN(2) == 0
	switch x := a.(type) {
	case *address.BaseAddress:
		x.Network, x.Payment, x.Stake = *s.NetInfo(), *cred(v, s.PayK, s.Pay), *cred(v, s.StkK, s.Stk)
	case *address.EnterpriseAddress:
		x.Network, x.Payment = *s.NetInfo(), *cred(v, s.PayK, s.Pay)
	case *address.PointerAddress:
		x.Network, x.Payment, x.Stake = *s.NetInfo(), *cred(v, s.PayK, s.Pay), address.StakePointer{Slot: s.Slot, TxIndex: s.TxIx, CertIndex: s.Cert}
	case *address.RewardAddress:
		x.Network, x.Stake = *s.NetInfo(), *cred(v, s.StkK, s.Stk)
	case *address.ByronAddress:
		x.Hash, x.Attributes.Payload, x.Attributes.Network = append([]byte{}, s.Pay...), append([]byte(nil), s.Payload...), append([]byte(nil), s.NetMagic...)
	}
}

// edited makes an address, looks at all its forms, then assigns the fields of another address of its kind
// (mostly differing in one respect) and returns it with the model it must now agree with.
func edited(c *Ctx) (address.Address, AddrSpec) {
	r := c.R
	s := genAddr(r)
	a := s.Must(c)
	for i := 1 + r.IntN(3); i > 0; i-- {
		a.Bytes()
		_ = a.String()
		a.MarshalCBOR()
		a.NetworkInfo()
	}
	n := s
	o := genAddr(r, s.Kind)
	switch r.IntN(5) {
	case 0:
		n.Net, n.Magic, n.NetMagic = o.Net, o.Magic, o.NetMagic
		if s.Kind != kByron && r.IntN(2) == 0 {
			n.Net = 1 - s.Net
		}
	case 1:
		n.Pay, n.Payload = o.Pay, o.Payload
	case 2:
		n.Stk, n.StkK, n.PayK = o.Stk, o.StkK, o.PayK
	case 3:
		n.Slot, n.TxIx, n.Cert = o.Slot, o.TxIx, o.Cert
	default:
		n = o
	}
	if s.Kind == kByron && n.NetMagic == nil {
		n.Net = 1
	} else if s.Kind == kByron {
		n.Net = 0
	}
	n.edit(r, a)
	c.Log("edited from %s to %s", s.Desc(), n.Desc())
	c.Feat("edited/" + kindNames[s.Kind])
	c.Case(n.Bytes())
	return a, n
}
