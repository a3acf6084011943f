package main

import (
	"bytes"
	"crypto/ed25519"
	"encoding/binary"
	"encoding/hex"
	"errors"
	"fmt"
	"math"
	"math/big"
	"math/rand/v2"
	"sort"
	"strings"
	"sync"

	"github.com/fivebinaries/go-cardano-serialization/address"
	"github.com/fivebinaries/go-cardano-serialization/bip32"
	"github.com/fivebinaries/go-cardano-serialization/fees"
	"github.com/fivebinaries/go-cardano-serialization/protocol"
	"github.com/fivebinaries/go-cardano-serialization/tx"
)

// ---------- signing keys ----------

type keyRef struct {
	prv bip32.XPrv
	pub [32]byte
}

var keyPool []keyRef

// makeKeyPool derives keys and public keys with the reference implementation only.
func makeKeyPool(seed uint64, n int) {
	keyPool, twins = nil, nil
	a, b := mix(seed, "keypool")
	r := rand.New(rand.NewPCG(a, b))
	for i := 0; i < n; i++ {
		k := refRoot(rbytes(r, 32))
		for d := r.IntN(3); d > 0; d-- {
			k = refDerive(k, r.Uint32())
		}
		keyPool = append(keyPool, keyRef{k, refPub(k)})
	}
	// relatives: keys that agree with another one in some part but not in the public key
	for i := 0; i < n/3; i++ {
		k := append(bip32.XPrv{}, keyPool[r.IntN(n)].prv...)
		o := refRoot(rbytes(r, 32))
		switch i % 4 {
		case 0: // same chain code and right half
			copy(k[:32], o[:32])
		case 1: // same chain code, left halves differ in one bit
			k[1+r.IntN(30)] ^= 1 << r.IntN(8)
		case 2: // same chain code only
			copy(k[:64], o[:64])
		case 3: // same left half up to the last bytes
			k[30] ^= byte(1 + r.IntN(255))
			copy(k[64:], o[64:])
		}
		keyPool = append(keyPool, keyRef{k, refPub(k)})
	}
	for _, n := range twinSeeds {
		var s [32]byte
		binary.BigEndian.PutUint64(s[24:], n)
		k := refRoot(s[:])
		twins = append(twins, keyRef{k, refPub(k)})
	}
	keyPool = append(keyPool, twins...)
}

// twinSeeds holds pairs of seeds (as big-endian numbers), found by search, whose public keys agree in the
// first four bytes, in the last four, or whose key hashes do.
var twinSeeds = []uint64{129350, 150989, 184506, 208338, 22871, 112622, 79152, 156277, 39763, 124445, 106165, 143815, 39996, 87287, 88563, 115764}

var twins []keyRef

var (
	bigPool     []keyRef
	bigPoolOnce sync.Once
)

// manyKeys gives n distinct keys, hundreds of them.
func manyKeys(r *rand.Rand, n int) []keyRef {
	bigPoolOnce.Do(func() {
		q := rand.New(rand.NewPCG(77, 99))
		for i := 0; i < 640; i++ {
			k := refRoot(rbytes(q, 32))
			bigPool = append(bigPool, keyRef{k, refPub(k)})
		}
	})
	out := make([]keyRef, n)
	for i, j := range r.Perm(len(bigPool))[:n] {
		out[i] = bigPool[j]
	}
	return out
}

// keys draws n distinct keys.
func keys(r *rand.Rand, n int) []keyRef {
	if n > 60 {
		return manyKeys(r, n)
	}
	p := r.Perm(len(keyPool))[:n]
	out := make([]keyRef, n)
	for i, j := range p {
		out[i] = keyPool[j]
	}
	if n > 1 && r.IntN(4) == 0 { // make two of them relatives
		a := out[r.IntN(n-1)]
		for _, k := range keyPool {
			if k.pub != a.pub && (bytes.Equal(k.prv[64:], a.prv[64:]) || bytes.Equal(k.prv[:30], a.prv[:30])) {
				dup := false
				for _, o := range out {
					dup = dup || o.pub == k.pub
				}
				if !dup {
					out[n-1] = k
				}
				break
			}
		}
	}
	if n > 1 && r.IntN(8) == 0 {
		i := 2 * r.IntN(len(twins)/2)
		a, b := twins[i], twins[i+1]
		for j, o := range out[:n-2] { // neither of them twice
			if o.pub == a.pub || o.pub == b.pub {
				out[j] = keyRef{}
			}
		}
		keep := out[:0]
		for _, o := range out[:n-2] {
			if o.prv != nil {
				keep = append(keep, o)
			}
		}
		for len(keep) < n-2 {
			k := keyPool[r.IntN(len(keyPool)-len(twins))]
			for _, o := range keep {
				if o.pub == k.pub {
					k.prv = nil
				}
			}
			if k.prv != nil {
				keep = append(keep, k)
			}
		}
		out = append(keep, a, b)
		if r.IntN(3) == 0 {
			j := r.IntN(n)
			out[j], out[n-1] = out[n-1], out[j]
		}
	}
	return out
}

func xprvs(ks []keyRef) []bip32.XPrv {
	out := []bip32.XPrv{}
	for _, k := range ks {
		out = append(out, append(bip32.XPrv{}, k.prv...))
	}
	return out
}

// ---------- metadata ----------

type metaStruct struct {
	Name string            `cbor:"name"`
	N    uint64            `cbor:"n"`
	Tags []string          `cbor:"tags"`
	M    map[string]uint64 `cbor:"m"`
}

func genString(r *rand.Rand) string {
	switch r.IntN(6) {
	case 0:
		return ""
	case 1:
		return strings.Repeat("x", pick(r, 1, 22, 23, 24, 25, 63, 64, 65, 255, 256, 300))
	case 2:
		return pick(r, "é", "日本", "K", "\x00", "null", "0", "\"", "𝄞")
	case 3:
		if s := dictStr(r); strings.ToValidUTF8(s, "") == s {
			return s
		}
	}
	n := r.IntN(30)
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(32 + r.IntN(95))
	}
	return string(b)
}

// rawMeta brings its own serialized form, as values that implement cbor.Marshaler do.
type rawMeta []byte

func (m rawMeta) MarshalCBOR() ([]byte, error) { return m, nil }

// failMeta cannot be serialized.
type failMeta struct{}

func (failMeta) MarshalCBOR() ([]byte, error) { return nil, errors.New("told to fail") }

type metaLabel uint16

type metaArray struct {
	_ struct{} `cbor:",toarray"`
	A uint8
	B string
	C []byte
}

type metaKeys struct {
	A uint64            `cbor:"1,keyasint"`
	B map[string]string `cbor:"-23,keyasint"`
	C *uint64           `cbor:"674,keyasint,omitempty"`
}

// genOddMeta draws values of less usual Go types.
func genOddMeta(r *rand.Rand, depth int) (any, *Node) {
	switch r.IntN(12) {
	case 0: // typed nil below the top
		return pick[any](r, map[string]any(nil), []any(nil), []byte(nil), (*metaKeys)(nil), (*uint64)(nil)), nNull()
	case 1:
		return nil, nNull()
	case 2:
		v := new(big.Int).SetBytes(append([]byte{1 + byte(r.IntN(255))}, rbytes(r, 8+r.IntN(30))...))
		n := &Node{Major: 6, Val: 2, Arr: []*Node{nBytes(v.Bytes())}}
		if r.IntN(2) == 0 {
			return v, n
		}
		return *v, n
	case 3:
		f := pick(r, float32(0.5), float32(-1.25), float32(1e30), float32(r.IntN(100)))
		return f, &Node{Major: 7, IsFloat: true, Float: float64(f), Alt: "32"}
	case 4:
		f := pick(r, math.Inf(1), math.Inf(-1), 0.0, math.SmallestNonzeroFloat64, math.MaxFloat64)
		return f, &Node{Major: 7, IsFloat: true, Float: f}
	case 5:
		v := metaLabel(r.Uint32())
		return v, nUint(uint64(v))
	case 6:
		v := metaArray{A: uint8(r.Uint32()), B: genString(r), C: hbytes(r, r.IntN(70))}
		return v, nArr(nUint(uint64(v.A)), nText(v.B), nBytes(v.C))
	case 7:
		v := metaKeys{A: u64(r), B: map[string]string{}}
		mn := &Node{Major: 5}
		for i := r.IntN(6); i > 0; i-- {
			s := genString(r)
			v.B[fmt.Sprint("k", i*7)] = s
			mn.Keys, mn.Vals = append(mn.Keys, nText(fmt.Sprint("k", i*7))), append(mn.Vals, nText(s))
		}
		n := &Node{Major: 5, Keys: []*Node{nUint(1), nInt(-23)}, Vals: []*Node{nUint(v.A), mn}}
		if r.IntN(2) == 0 {
			x := u64(r)
			v.C = &x
			n.Keys, n.Vals = append(n.Keys, nUint(674)), append(n.Vals, nUint(x))
		}
		if r.IntN(2) == 0 {
			return &v, n
		}
		return v, n
	case 8:
		if depth > 0 {
			v, n := genMeta(r, depth-1)
			return &v, n
		}
		x := u64(r)
		p := &x
		return &p, nUint(x)
	case 9:
		v := [4]uint16{uint16(r.Uint32()), 0, 23, 24}
		return v, nArr(nUint(uint64(v[0])), nUint(0), nUint(23), nUint(24))
	case 10: // well-formed bytes of its own, keys in an order of its own
		k1, k2 := u64(r), genString(r)
		b := append([]byte{0xa2}, nodeEnc(nText(k2))...)
		b = append(append(b, nodeEnc(nUint(7))...), nodeEnc(nUint(k1))...)
		b = append(b, nodeEnc(nText("x"))...)
		return rawMeta(b), &Node{Major: 5, Alt: "raw", Keys: []*Node{nText(k2), nUint(k1)}, Vals: []*Node{nUint(7), nText("x")}}
	default:
		v := map[metaLabel][]string{}
		n := &Node{Major: 5}
		for i := r.IntN(5); i > 0; i-- {
			k := metaLabel(i * 60)
			v[k] = []string{genString(r), ""}
			n.Keys, n.Vals = append(n.Keys, nUint(uint64(k))), append(n.Vals, nArr(nText(v[k][0]), nText("")))
		}
		return v, n
	}
}

// nilMeta draws values that hold nothing: a transaction with one of them has no metadata.
func nilMeta(r *rand.Rand) any {
	return pick[any](r, map[uint64]any(nil), map[string]string(nil), (*metaKeys)(nil), []any(nil), []byte(nil), (*map[uint64]any)(nil), rawMeta{0xf6})
}

// genMeta returns a metadata value and what it must decode to.
func genMeta(r *rand.Rand, depth int) (any, *Node) {
	k := r.IntN(18)
	if depth <= 0 {
		k = r.IntN(8)
		if k == 7 {
			k = 16
		}
	}
	switch k {
	case 16, 17:
		return genOddMeta(r, depth)
	case 0:
		v := u64(r)
		return v, nUint(v)
	case 1:
		v := int64(u64(r))
		return v, nInt(v)
	case 2:
		s := genString(r)
		return s, nText(s)
	case 3:
		b := hbytes(r, pick(r, 0, 1, 23, 24, 32, 64, r.IntN(40)))
		return b, nBytes(b)
	case 4:
		b := r.IntN(2) == 0
		return b, nBool(b)
	case 5:
		v := int(int32(r.Uint32()))
		return v, nInt(int64(v))
	case 6:
		f := pick(r, 0.5, -1.25, 1e300, 3.14159, float64(r.IntN(1000))+0.5)
		return f, &Node{Major: 7, IsFloat: true, Float: f}
	case 7, 8:
		n := pick(r, 0, 1, 2, 3, 23, 24, r.IntN(6))
		if n > 10 && depth < 2 {
			n = 3
		}
		arr, node := make([]any, 0, n), nArr()
		for i := 0; i < n; i++ {
			v, m := genMeta(r, depth-1-n/10)
			arr, node.Arr = append(arr, v), append(node.Arr, m)
		}
		return arr, node
	case 9:
		n := r.IntN(5)
		arr, node := []string{}, nArr()
		for i := 0; i < n; i++ {
			s := genString(r)
			arr, node.Arr = append(arr, s), append(node.Arr, nText(s))
		}
		return arr, node
	case 10: // struct with a map inside
		s := metaStruct{Name: genString(r), N: u64(r), Tags: []string{"a", genString(r)}, M: map[string]uint64{}}
		mn := &Node{Major: 5}
		for i := r.IntN(9); i > 0; i-- {
			k := fmt.Sprintf("k%d", i)
			v := u64(r)
			s.M[k] = v
			mn.Keys, mn.Vals = append(mn.Keys, nText(k)), append(mn.Vals, nUint(v))
		}
		node := &Node{Major: 5, Keys: []*Node{nText("name"), nText("n"), nText("tags"), nText("m")},
			Vals: []*Node{nText(s.Name), nUint(s.N), nArr(nText("a"), nText(s.Tags[1])), mn}}
		if r.IntN(2) == 0 {
			return &s, node
		}
		return s, node
	}
	// maps
	n := pick(r, 0, 1, 2, 3, 5, 8, 12, 23, 24, 30)
	if n > 8 && depth < 2 {
		n = 4
	}
	node := &Node{Major: 5}
	switch r.IntN(4) {
	case 0:
		m := map[uint64]any{}
		for len(m) < n {
			k := u64(r)
			if _, dup := m[k]; dup {
				continue
			}
			v, vn := genMeta(r, depth-1-n/10)
			m[k] = v
			node.Keys, node.Vals = append(node.Keys, nUint(k)), append(node.Vals, vn)
		}
		return m, node
	case 1:
		m := map[string]any{}
		for len(m) < n {
			k := genString(r)
			if r.IntN(2) == 0 {
				k = fmt.Sprintf("key%d", r.IntN(1000))
			}
			if _, dup := m[k]; dup {
				continue
			}
			v, vn := genMeta(r, depth-1-n/10)
			m[k] = v
			node.Keys, node.Vals = append(node.Keys, nText(k)), append(node.Vals, vn)
		}
		return m, node
	case 2:
		m := map[int]string{}
		for len(m) < n {
			k := int(int64(u64(r)))
			if _, dup := m[k]; dup {
				continue
			}
			s := genString(r)
			m[k] = s
			node.Keys, node.Vals = append(node.Keys, nInt(int64(k))), append(node.Vals, nText(s))
		}
		return m, node
	}
	m := map[any]any{}
	seen := map[string]bool{}
	for len(m) < n {
		var k any
		var kn *Node
		if r.IntN(2) == 0 {
			v := u64(r)
			k, kn = v, nUint(v)
		} else {
			s := genString(r)
			k, kn = s, nText(s)
		}
		if f := string(nodeEnc(kn)); seen[f] {
			continue
		} else {
			seen[f] = true
		}
		v, vn := genMeta(r, depth-1-n/10)
		m[k] = v
		node.Keys, node.Vals = append(node.Keys, kn), append(node.Vals, vn)
	}
	return m, node
}

// genTopMeta draws metadata as wallets attach it: mostly a map from labels.
func genTopMeta(r *rand.Rand) (any, *Node) {
	for r.IntN(4) == 0 {
		if v, n := genMeta(r, 3); !nodeEq(n, nNull()) {
			return v, n
		}
	}
	n := 1 + r.IntN(12)
	m := map[uint64]any{}
	node := &Node{Major: 5}
	for len(m) < n {
		k := pick(r, u64(r), uint64(r.IntN(1000)), 721, 674, 1, 61284)
		if _, dup := m[k]; dup {
			continue
		}
		v, vn := genMeta(r, 2)
		m[k] = v
		node.Keys, node.Vals = append(node.Keys, nUint(k)), append(node.Vals, vn)
	}
	return m, node
}

// bigMeta is larger than limits of the ledger or of buffers.
func bigMeta(r *rand.Rand) (any, *Node) {
	size := pick(r, 4090, 5000, 8192, 16300, 16384, 17000, 33000, 65530, 65536, 70000, 140000)
	var arr []any
	node := nArr()
	for size > 0 {
		s := strings.Repeat(pick(r, "x", "yz", "0"), 30)
		arr, node.Arr = append(arr, s), append(node.Arr, nText(s))
		size -= len(s) + 2
	}
	k := u64(r)
	return map[uint64]any{k: arr}, &Node{Major: 5, Keys: []*Node{nUint(k)}, Vals: []*Node{node}}
}

// badMeta cannot be serialized.
func badMeta(r *rand.Rand) any {
	bad := pick[any](r, make(chan int), func() {}, complex(1, 2), failMeta{}, &failMeta{})
	switch r.IntN(4) {
	case 0:
		return bad
	case 1:
		return map[uint64]any{1: "ok", 2: bad}
	case 2:
		return []any{1, "x", bad}
	}
	return map[string]any{"a": map[string]any{"b": []any{bad}}}
}

func nInt(v int64) *Node {
	if v < 0 {
		return &Node{Major: 1, Val: uint64(-1 - v)}
	}
	return nUint(uint64(v))
}

func nBool(b bool) *Node {
	if b {
		return nSimple(21)
	}
	return nSimple(20)
}

func nNull() *Node { return nSimple(22) }

// nodeEnc encodes a node with sorted map keys (used as a fingerprint).
func nodeEnc(n *Node) []byte {
	if n.Alt != "" {
		m := *n
		m.Alt = ""
		return append([]byte(n.Alt), nodeEnc(&m)...)
	}
	switch n.Major {
	case 0, 1:
		return cborHead(n.Major, n.Val)
	case 2, 3:
		return append(cborHead(n.Major, uint64(len(n.Bytes))), n.Bytes...)
	case 4:
		out := cborHead(4, uint64(len(n.Arr)))
		for _, a := range n.Arr {
			out = append(out, nodeEnc(a)...)
		}
		return out
	case 5:
		var ent []string
		for i := range n.Keys {
			ent = append(ent, string(nodeEnc(n.Keys[i]))+string(nodeEnc(n.Vals[i])))
		}
		sort.Strings(ent)
		return append(cborHead(5, uint64(len(n.Keys))), strings.Join(ent, "")...)
	case 6:
		return append(cborHead(6, n.Val), nodeEnc(n.Arr[0])...)
	}
	if n.IsFloat {
		return []byte(fmt.Sprintf("f%x", math.Float64bits(n.Float)))
	}
	return cborHead(7, n.Val)
}

func (n *Node) String() string {
	switch n.Major {
	case 0:
		return fmt.Sprint(n.Val)
	case 1:
		return fmt.Sprintf("-1-%d", n.Val)
	case 2:
		return fmt.Sprintf("h'%s'", hx(n.Bytes))
	case 3:
		return fmt.Sprintf("%q", n.Bytes)
	case 4:
		var s []string
		for _, a := range n.Arr {
			s = append(s, a.String())
		}
		return "[" + strings.Join(s, ", ") + "]"
	case 5:
		var s []string
		for i := range n.Keys {
			s = append(s, n.Keys[i].String()+": "+n.Vals[i].String())
		}
		return "{" + strings.Join(s, ", ") + "}"
	case 6:
		return fmt.Sprintf("%d(%s)", n.Val, n.Arr[0])
	}
	if n.IsFloat {
		return fmt.Sprint(n.Float)
	}
	return map[uint64]string{20: "false", 21: "true", 22: "null"}[n.Val]
}

// ---------- transaction model ----------

type inSpec struct {
	hash []byte
	ix   uint16
	amt  uint64
}

type outSpec struct {
	addr []byte
	desc string
	amt  uint64
}

type witSpec struct{ vk, sig []byte }

type TxModel struct {
	ins     []inSpec
	outs    []outSpec
	fee     uint64
	ttl     uint32
	meta    *Node // nil: none
	metaBad bool
	wit     []witSpec
	valid   bool
}

func (m *TxModel) bodyNode() *Node {
	ins, outs := nArr(), nArr()
	for _, i := range m.ins {
		ins.Arr = append(ins.Arr, nArr(nBytes(i.hash), nUint(uint64(i.ix))))
	}
	for _, o := range m.outs {
		outs.Arr = append(outs.Arr, nArr(nBytes(o.addr), nUint(o.amt)))
	}
	b := &Node{Major: 5, Keys: []*Node{nUint(0), nUint(1), nUint(2)}, Vals: []*Node{ins, outs, nUint(m.fee)}}
	if m.ttl != 0 {
		b.Keys, b.Vals = append(b.Keys, nUint(3)), append(b.Vals, nUint(uint64(m.ttl)))
	}
	return b
}

// fp is the fingerprint of everything the hash must commit to.
func (m *TxModel) fp() string {
	s := string(nodeEnc(m.bodyNode()))
	if m.meta != nil {
		s += "|" + string(nodeEnc(m.meta))
	}
	return s
}

// txParts is a decoded serialized transaction.
type txParts struct {
	raw        []byte
	body, wit  *Node
	valid, aux *Node
	bodyRaw    []byte
	auxRaw     []byte
}

func parseTx(c *Ctx, raw []byte) txParts {
	n, err := cborParse(raw)
	c.Failif(err != nil, "not-cbor", "transaction bytes are not well-formed CBOR: %v: %s", err, hx(raw))
	c.Failif(n.Major != 4 || len(n.Arr) != 4, "shape", "transaction is not a four-element array: %s", hx(raw))
	p := txParts{raw: raw, body: n.Arr[0], wit: n.Arr[1], valid: n.Arr[2], aux: n.Arr[3]}
	c.Failif(p.body.Major != 5, "shape", "body is not a map: %s", hx(raw))
	c.Failif(p.wit.Major != 5, "shape", "witness set is not a map: %s", hx(raw))
	p.bodyRaw = raw[p.body.Start:p.body.End]
	p.auxRaw = raw[p.aux.Start:p.aux.End]
	return p
}

// checkContent compares a serialized transaction with the model (C06).
func (m *TxModel) checkContent(c *Ctx, raw []byte) {
	p := parseTx(c, raw)
	c.Ev("content-checked")
	seen := map[uint64]bool{}
	for i, k := range p.body.Keys {
		c.Failif(k.Major != 0 || seen[k.Val], "body-key", "odd or repeated body key %s in %s", k, hx(raw))
		seen[k.Val] = true
		v := p.body.Vals[i]
		switch k.Val {
		case 0:
			c.Failif(v.Major != 4 || len(v.Arr) != len(m.ins), "inputs-count", "%d inputs serialized, %d added", len(v.Arr), len(m.ins))
			for j, in := range m.ins {
				want := nArr(nBytes(in.hash), nUint(uint64(in.ix)))
				c.Failif(!nodeEq(v.Arr[j], want), "input", "input %d serialized as %s, want %s", j, v.Arr[j], want)
			}
		case 1:
			c.Failif(v.Major != 4 || len(v.Arr) != len(m.outs), "outputs-count", "%d outputs serialized, %d added", len(v.Arr), len(m.outs))
			for j, o := range m.outs {
				want := nArr(nBytes(o.addr), nUint(o.amt))
				c.Failif(!nodeEq(v.Arr[j], want), "output:"+strings.Fields(o.desc)[0], "output %d (%s) serialized as %s, want %s", j, o.desc, v.Arr[j], want)
			}
		case 2:
			c.Failif(!nodeEq(v, nUint(m.fee)), "fee", "fee serialized as %s, want %d", v, m.fee)
		case 3:
			c.Failif(m.ttl == 0 || !nodeEq(v, nUint(uint64(m.ttl))), "ttl", "time to live serialized as %s, want %d", v, m.ttl)
		case 7:
			c.Failif(m.meta == nil, "aux-hash-without-metadata", "metadata hash present without metadata in %s", hx(raw))
			c.Failif(v.Major != 2 || len(v.Bytes) != 32, "aux-hash-form", "metadata hash serialized as %s", v)
		default:
			c.Fail("body-key", "unexpected body key %d", k.Val)
		}
	}
	c.Failif(!seen[0] || !seen[1] || !seen[2], "body-missing", "inputs, outputs or fee missing in %s", hx(raw))
	c.Failif(m.ttl != 0 && !seen[3], "ttl", "time to live %d missing", m.ttl)
	c.Failif(m.meta != nil && !seen[7], "aux-hash-missing", "metadata attached but no hash in the body")
	w := &Node{Major: 5}
	if len(m.wit) > 0 {
		a := nArr()
		for _, x := range m.wit {
			a.Arr = append(a.Arr, nArr(nBytes(x.vk), nBytes(x.sig)))
		}
		w.Keys, w.Vals = []*Node{nUint(0)}, []*Node{a}
	}
	c.Failif(!nodeEq(p.wit, w), "witness", "witness set serialized as %s, want %s", short(p.wit.String(), 600), short(w.String(), 600))
	c.Failif(!nodeEq(p.valid, nBool(m.valid)), "valid-flag", "validity serialized as %s, want %v", p.valid, m.valid)
	want := nNull()
	if m.meta != nil {
		want = m.meta
	}
	c.Failif(!nodeEq(p.aux, want), "metadata", "metadata serialized as %s, want %s", short(p.aux.String(), 800), short(want.String(), 800))
}

// checkBinding checks metadata against its hash inside the same bytes (C08).
func (m *TxModel) checkBinding(c *Ctx, raw []byte) {
	p := parseTx(c, raw)
	h := p.body.uintKey(7)
	if m.meta == nil {
		c.Ev("no-metadata-checked")
		c.Failif(h != nil, "hash-without-metadata", "no metadata attached but the body holds hash %s", h)
		c.Failif(!nodeEq(p.aux, nNull()), "metadata-from-nowhere", "no metadata attached but %s serialized", p.aux)
		return
	}
	c.Ev("binding-checked")
	c.Failif(h == nil, "hash-missing", "metadata attached but no hash in the body: %s", hx(raw))
	want := refBlake2b(32, p.auxRaw)
	c.Failif(h.Major != 2 || !bytes.Equal(h.Bytes, want), "hash-mismatch", "body holds metadata hash %s but the metadata bytes %s hash to %x", h, hx(p.auxRaw), want)
	c.Failif(!nodeEq(p.aux, m.meta), "metadata", "metadata serialized as %s, want %s", short(p.aux.String(), 800), short(m.meta.String(), 800))
}

// ---------- history driver ----------

type hist struct {
	c       *Ctx
	m       TxModel
	t       *tx.Tx
	tb      *tx.TxBuilder
	pr      protocol.Protocol
	keys    []keyRef
	big     bool // amounts over the whole 64-bit range
	liveMap map[uint64]any
	dups    bool // the same values, also by pointer, may be added again
	// for the hash monitor
	byFP   map[string][32]byte
	byHash map[[32]byte]string
	// registered checks
	on06, on07, on08 bool
}

func newHist(c *Ctx, builder bool) *hist {
	r := c.R
	h := &hist{c: c, byFP: map[string][32]byte{}, byHash: map[[32]byte]string{}}
	h.m.valid = true
	if builder {
		h.pr = protocol.Protocol{TxFeePerByte: 44, TxFeeFixed: 155381, MaxTxSize: 16384}
		if r.IntN(3) == 0 {
			h.pr.TxFeePerByte, h.pr.TxFeeFixed = uint(r.IntN(2000)), uint(lovelace(r)>>25)
		}
		h.pr.MinUTXOValue = uint(pick(r, 0, 1000000, 34482, lovelace(r)))
		h.pr.ProtocolVersion = protocol.ProtocolVersion{Major: uint8(r.IntN(12)), Minor: uint8(r.IntN(3))}
		if r.IntN(3) == 0 {
			h.pr.MaxTxSize = uint(pick(r, 0, 1, 200, 16384, int(u32(r))))
		}
		h.keys = keys(r, pick(r, 0, 0, 1, 1, 2, 3))
		h.tb = tx.NewTxBuilder(h.pr, xprvs(h.keys))
		h.t = h.tb.Tx()
		c.Failif(h.t == nil, "builder-tx", "new builder has no transaction")
		c.Log("builder with %d keys, fee params %d/%d", len(h.keys), h.pr.TxFeePerByte, h.pr.TxFeeFixed)
		c.Feat("builder")
	} else {
		h.t = tx.NewTx()
		h.big = r.IntN(2) == 0
		c.Log("tx")
		c.Feat("plain-tx")
	}
	return h
}

func (h *hist) amount() uint64 {
	if h.big {
		return u64(h.c.R)
	}
	v := lovelace(h.c.R)
	return v >> 8
}

func (h *hist) genInput() (*tx.TxInput, inSpec) {
	r := h.c.R
	s := inSpec{hash: hbytes(r, 32), ix: u16(r), amt: h.amount()}
	if r.IntN(2) == 0 {
		return &tx.TxInput{TxHash: append([]byte{}, s.hash...), Index: s.ix, Amount: uint(s.amt)}, s
	}
	hs := hex.EncodeToString(s.hash)
	if r.IntN(4) == 0 {
		hs = strings.ToUpper(hs)
	}
	return tx.NewTxInput(hs, s.ix, uint(s.amt)), s
}

func (h *hist) genOutput(kinds ...int) (*tx.TxOutput, outSpec) {
	r := h.c.R
	s := genAddr(r, kinds...)
	var a address.Address
	if r.IntN(3) == 0 {
		var err error
		a, err = address.NewAddress(s.Text())
		h.c.Failif(err != nil, "valid-address-rejected:"+kindNames[s.Kind], "%s rejected: %v", s.Text(), err)
	} else {
		a = s.Must(h.c)
	}
	h.c.Feat("out/" + kindNames[s.Kind])
	o := outSpec{addr: s.Bytes(), desc: s.Desc(), amt: h.amount()}
	if r.IntN(2) == 0 {
		return &tx.TxOutput{Address: a, Amount: uint(o.amt)}, o
	}
	return tx.NewTxOutput(a, uint(o.amt)), o
}

func (h *hist) count() int {
	switch h.c.R.IntN(40) {
	case 0:
		return pick(h.c.R, 22, 23, 24, 25)
	case 1:
		if h.c.R.IntN(6) == 0 {
			return pick(h.c.R, 254, 255, 256, 257)
		}
		return 0
	}
	return 1 + h.c.R.IntN(3)
}

func (h *hist) addInputs(n int) {
	var xs []*tx.TxInput
	for i := 0; i < n; i++ {
		x, s := h.genInput()
		if h.dups && len(h.m.ins) > 0 && h.c.R.IntN(6) == 0 {
			j := h.c.R.IntN(len(h.m.ins))
			s = h.m.ins[j]
			switch {
			case h.c.R.IntN(2) == 0 && j < len(h.t.Body.Inputs):
				x = h.t.Body.Inputs[j]
			case h.c.R.IntN(2) == 0:
				s.ix++
				x = &tx.TxInput{TxHash: append([]byte{}, s.hash...), Index: s.ix, Amount: uint(s.amt)}
			default:
				x = tx.NewTxInput(hex.EncodeToString(s.hash), s.ix, uint(s.amt))
			}
			h.c.Feat("repeated-input")
		}
		xs = append(xs, x)
		h.m.ins = append(h.m.ins, s)
	}
	if n > 20 {
		h.c.Feat("many-inputs")
	}
	h.c.Log("add %d inputs", n)
	if h.tb != nil && h.c.R.IntN(4) != 0 {
		h.tb.AddInputs(xs...)
	} else {
		err := h.t.AddInputs(xs...)
		h.c.Failif(err != nil, "add-inputs-error", "adding inputs failed: %v", err)
	}
	h.c.Ev("op:add-inputs")
}

func (h *hist) addOutputs(n int, kinds ...int) {
	var xs []*tx.TxOutput
	for i := 0; i < n; i++ {
		x, s := h.genOutput(kinds...)
		if h.dups && len(h.m.outs) > 0 && h.c.R.IntN(6) == 0 {
			if j := h.c.R.IntN(len(h.m.outs)); j < len(h.t.Body.Outputs) {
				s = h.m.outs[j]
				x = h.t.Body.Outputs[j]
				if h.c.R.IntN(2) == 0 {
					x = &tx.TxOutput{Address: x.Address, Amount: x.Amount}
				}
				h.c.Feat("repeated-output")
			}
		}
		xs = append(xs, x)
		h.m.outs = append(h.m.outs, s)
		h.c.Log("  output %s %d", short(s.desc, 120), s.amt)
	}
	if n > 20 {
		h.c.Feat("many-outputs")
	}
	h.c.Log("add %d outputs", n)
	if h.tb != nil && h.c.R.IntN(4) != 0 {
		h.tb.AddOutputs(xs...)
	} else {
		err := h.t.AddOutputs(xs...)
		h.c.Failif(err != nil, "add-outputs-error", "adding outputs failed: %v", err)
	}
	h.c.Ev("op:add-outputs")
}

func (h *hist) setMeta() {
	r := h.c.R
	h.liveMap = nil
	switch r.IntN(6) {
	case 0:
		h.t.Metadata = nil
		if r.IntN(2) == 0 {
			h.t.Metadata = nilMeta(r)
			h.c.Feat("nil-metadata")
		}
		h.m.meta, h.m.metaBad = nil, false
		h.c.Log("clear metadata with %T", h.t.Metadata)
		h.c.Ev("op:clear-metadata")
		return
	default:
		v, n := genTopMeta(r)
		if h.m.meta != nil {
			h.c.Ev("op:replace-metadata")
		}
		h.t.Metadata = v
		h.m.meta, h.m.metaBad = n, false
		if mm, ok := v.(map[uint64]any); ok {
			h.liveMap = mm
			if len(mm) >= 5 {
				h.c.Feat("many-key-metadata")
			}
		}
		h.c.Log("set metadata %s", short(n.String(), 300))
		h.c.Ev("op:set-metadata")
	}
}

// mutateMeta adds to the attached map in place.
func (h *hist) mutateMeta() {
	if h.liveMap == nil {
		return
	}
	k := u64(h.c.R)
	if _, dup := h.liveMap[k]; dup {
		return
	}
	v, n := genMeta(h.c.R, 1)
	h.liveMap[k] = v
	h.m.meta.Keys, h.m.meta.Vals = append(h.m.meta.Keys, nUint(k)), append(h.m.meta.Vals, n)
	h.c.Log("metadata[%d] = %s", k, short(n.String(), 100))
	h.c.Ev("op:mutate-metadata")
}

func (h *hist) setWitness() {
	r := h.c.R
	var ks []*tx.VKeyWitness
	h.m.wit = nil
	for i := pick(r, 0, 1, 1, 2, 3, 23, 24); i > 0; i-- {
		w := witSpec{hbytes(r, 32), hbytes(r, 64)}
		h.m.wit = append(h.m.wit, w)
		ks = append(ks, tx.NewVKeyWitness(append([]byte{}, w.vk...), append([]byte{}, w.sig...)))
	}
	switch r.IntN(3) {
	case 0:
		h.t.Witness = &tx.Witness{Keys: ks}
	default:
		h.t.Witness = tx.NewTXWitness(ks...)
	}
	h.c.Log("set %d witnesses", len(ks))
	h.c.Ev("op:set-witness")
}

// resync reads back what the builder is allowed to choose (fee, change output, witnesses).
func (h *hist) resync(oldOuts int) {
	b := h.t.Body
	h.m.fee = b.Fee
	h.c.Failif(len(b.Outputs) < oldOuts || len(b.Outputs) > oldOuts+1, "change-outputs", "adding change turned %d outputs into %d", oldOuts, len(b.Outputs))
	if len(b.Outputs) == oldOuts+1 {
		o := b.Outputs[oldOuts]
		h.m.outs = append(h.m.outs, outSpec{addr: o.Address.Bytes(), desc: "change " + o.Address.String(), amt: uint64(o.Amount)})
	}
}

func witOf(w *tx.Witness) (out []witSpec) {
	if w == nil {
		return nil
	}
	for _, k := range w.Keys {
		out = append(out, witSpec{append([]byte{}, k.VKey...), append([]byte{}, k.Signature...)})
	}
	return
}

// observe serializes and runs the enabled monitors.
func (h *hist) observe(t *tx.Tx, m *TxModel) []byte {
	c := h.c
	raw, err := t.Bytes()
	c.Failif(err != nil, "bytes-error", "serializing failed: %v", err)
	c.Ev("op:bytes")
	if h.on06 {
		m.checkContent(c, raw)
		hs, err := t.Hex()
		c.Failif(err != nil || hs != hex.EncodeToString(raw), "hex", "hex form %s (%v) differs from bytes %s", short(hs, 200), err, hx(raw))
		for i := 0; i < 2; i++ {
			raw2, err := t.Bytes()
			c.Failif(err != nil || !bytes.Equal(raw, raw2), "unstable", "serializing again gives different bytes: %s then %s", hx(raw), hx(raw2))
		}
		p := parseTx(c, raw)
		bb, err := t.Body.Bytes()
		c.Failif(err != nil || !bytes.Equal(bb, p.bodyRaw), "body-bytes", "body bytes %s differ from the body in the transaction %s", hx(bb), hx(p.bodyRaw))
		bh, err := t.Body.Hex()
		c.Failif(err != nil || bh != hex.EncodeToString(p.bodyRaw), "body-hex", "body hex differs")
		c.Ev("stable-checked")
	}
	if h.on07 {
		h.checkHash(t, m, raw)
	}
	if h.on08 {
		m.checkBinding(c, raw)
		raw2, err := t.Bytes()
		c.Failif(err != nil, "bytes-error", "%v", err)
		m.checkBinding(c, raw2)
	}
	return raw
}

func (h *hist) checkHash(t *tx.Tx, m *TxModel, raw []byte) {
	c := h.c
	p := parseTx(c, raw)
	want := refBlake2b(32, p.bodyRaw)
	got, err := t.Hash()
	c.Failif(err != nil, "hash-error", "hash failed: %v", err)
	c.Ev("hash-checked")
	c.Failif(!bytes.Equal(got[:], want), "hash-mismatch", "hash %x but the serialized body %s hashes to %x", got, hx(p.bodyRaw), want)
	h.recordHash(got, m)
}

// recordHash: same contents, same hash; different contents, different hash.
func (h *hist) recordHash(got [32]byte, m *TxModel) {
	c := h.c
	fp := m.fp()
	if old, ok := h.byFP[fp]; ok {
		c.Ev("hash-stability-checked")
		c.Failif(old != got, "hash-changed", "the hash changed from %x to %x without a change of contents", old, got)
	}
	if old, ok := h.byHash[got]; ok && old != fp {
		c.Fail("hash-not-sensitive", "hash %x is the same for different contents", got)
	}
	h.byFP[fp], h.byHash[got] = got, fp
}

// query makes one read-only call.
func (h *hist) query(t *tx.Tx, m *TxModel) {
	c := h.c
	switch c.R.IntN(6) {
	case 0:
		_, err := t.Hex()
		c.Failif(err != nil, "hex-error", "%v", err)
		c.Log("hex")
	case 1:
		v, err := t.Hash()
		c.Failif(err != nil, "hash-error", "%v", err)
		if h.on07 {
			h.recordHash(v, m)
		}
		c.Log("hash")
	case 2:
		_, err := t.Fee(fees.NewLinearFee(uint(c.R.IntN(100)), uint(c.R.IntN(1000000))))
		c.Failif(err != nil, "fee-error", "%v", err)
		c.Log("fee")
	case 3:
		_, err := t.Bytes()
		c.Failif(err != nil, "bytes-error", "%v", err)
		c.Log("bytes")
	case 4:
		if h.tb != nil && t == h.t {
			h.tb.MinFee()
			c.Log("minfee")
			c.Ev("op:minfee")
		}
	case 5:
		if err := t.CalculateAuxiliaryDataHash(); err != nil {
			c.Fail("aux-error", "%v", err)
		}
		c.Log("aux hash")
	}
	c.Ev("op:query")
}

// step performs one random operation.
func (h *hist) step() {
	c, r := h.c, h.c.R
	switch r.IntN(16) {
	case 0, 1:
		h.addInputs(h.count())
	case 2, 3:
		h.addOutputs(h.count())
	case 4:
		f := h.amount()
		if r.IntN(2) == 0 {
			h.t.SetFee(uint(f))
		} else {
			h.t.Body.Fee = f
		}
		h.m.fee = f
		c.Log("fee %d", f)
		c.Ev("op:set-fee")
	case 5:
		v := pick(r, 0, u32(r), u32(r))
		if h.tb != nil && r.IntN(2) == 0 {
			h.tb.SetTTL(v)
		} else {
			h.t.Body.TTL = v
		}
		if v == 0 {
			c.Feat("ttl-zero")
		}
		h.m.ttl = v
		c.Log("ttl %d", v)
		c.Ev("op:set-ttl")
	case 6, 7:
		h.setMeta()
	case 8:
		h.mutateMeta()
	case 9:
		h.setWitness()
	case 10:
		v := r.IntN(2) == 0
		h.t.Valid = v
		h.m.valid = v
		c.Log("valid %v", v)
		c.Ev("op:set-valid")
	case 11, 12:
		for n := 1 + r.IntN(3); n > 0; n-- {
			h.query(h.t, &h.m)
		}
	case 13, 14:
		if h.tb == nil {
			h.query(h.t, &h.m)
			return
		}
		if r.IntN(2) == 0 {
			k := keyPool[r.IntN(len(keyPool))]
			for _, o := range h.keys {
				if o.pub == k.pub {
					return
				}
			}
			h.tb.Sign(append(bip32.XPrv{}, k.prv...))
			h.keys = append(h.keys, k)
			c.Log("sign with key %x", k.pub[:4])
			c.Ev("op:sign")
			return
		}
		built := h.build()
		bm := h.m
		bm.wit = witOf(built.Witness)
		h.observe(&built, &bm)
		h.m.wit = witOf(h.t.Witness)
	case 15:
		if h.tb == nil {
			return
		}
		n := len(h.m.outs)
		s := genAddr(r)
		h.tb.AddChangeIfNeeded(s.Must(c))
		c.Log("add change to %s", short(s.Desc(), 100))
		c.Ev("op:add-change")
		h.resync(n)
		h.m.wit = witOf(h.t.Witness)
	}
}

func (h *hist) build() tx.Tx {
	built, err := h.tb.Build()
	h.c.Failif(err != nil, "build-error", "build failed: %v", err)
	h.c.Log("build")
	h.c.Ev("op:build")
	return built
}

// checkSigned is the C09 oracle for a built transaction.
func checkSigned(c *Ctx, raw []byte, ks []keyRef) {
	p := parseTx(c, raw)
	hash := refBlake2b(32, p.bodyRaw)
	w := p.wit.uintKey(0)
	n := 0
	if w != nil {
		c.Failif(w.Major != 4, "witness-shape", "witness list is %s", w)
		n = len(w.Arr)
	}
	c.Failif(n != len(ks), "witness-count", "%d keys registered but %d witnesses in the built transaction", len(ks), n)
	c.Failif(len(p.wit.Keys) > 1 || len(p.wit.Keys) == 1 && w == nil, "witness-shape", "witness set %s", p.wit)
	for i, k := range ks {
		e := w.Arr[i]
		c.Failif(e.Major != 4 || len(e.Arr) != 2 || e.Arr[0].Major != 2 || e.Arr[1].Major != 2, "witness-shape", "witness %d is %s", i, e)
		vk, sig := e.Arr[0].Bytes, e.Arr[1].Bytes
		c.Failif(!bytes.Equal(vk, k.pub[:]), "witness-key", "witness %d of %d holds key %x, want %x", i, n, vk, k.pub)
		c.Failif(len(sig) != 64 || !ed25519.Verify(vk, hash, sig), "witness-signature", "witness %d of %d: signature %x does not verify for hash %x", i, n, sig, hash)
		c.Ev("signature-verified")
	}
	c.Ev("witness-set-checked")
}

// snapshot is a deep-enough record of a body for later comparison.
func bodyFP(b *tx.TxBody) string {
	var sb strings.Builder
	for _, i := range b.Inputs {
		fmt.Fprintf(&sb, "i%x#%d=%d;", i.TxHash, i.Index, i.Amount)
	}
	for _, o := range b.Outputs {
		fmt.Fprintf(&sb, "o%x=%d;", o.Address.Bytes(), o.Amount)
	}
	fmt.Fprintf(&sb, "f%d t%d a%x", b.Fee, b.TTL, b.AuxiliaryDataHash)
	return sb.String()
}
