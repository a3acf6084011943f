package main

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"math/rand/v2"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/fivebinaries/go-cardano-serialization/address"
	"github.com/fivebinaries/go-cardano-serialization/bip32"
	"github.com/fivebinaries/go-cardano-serialization/crypto"
	"github.com/fivebinaries/go-cardano-serialization/fees"
	"github.com/fivebinaries/go-cardano-serialization/network"
	"github.com/fivebinaries/go-cardano-serialization/node"
	"github.com/fivebinaries/go-cardano-serialization/protocol"
	"github.com/fivebinaries/go-cardano-serialization/tx"
)

// raceOp is one operation on shared values: run returns the observable result.
type raceOp struct {
	name string
	run  func() string
}

type stamp struct {
	at int64
	op string
}

// storm runs the ops from many goroutines at once on the shared values and compares every result with want,
// which was computed one operation at a time on equal but separate values.
func storm(c *Ctx, ops []raceOp, want map[string]string, goroutines, rounds int) {
	type miss struct{ op, got string }
	start := make(chan struct{})
	var wg sync.WaitGroup
	misses := make([]*miss, goroutines)
	stamps := make([][]stamp, goroutines)
	seeds := make([]uint64, goroutines)
	for g := range seeds {
		seeds[g] = c.R.Uint64()
	}
	counts := make([]int, goroutines)
	for g := 0; g < goroutines; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			r := rand.New(rand.NewPCG(seeds[g], 7))
			defer func() {
				if p := recover(); p != nil {
					misses[g] = &miss{"panic", fmt.Sprint(p)}
				}
			}()
			<-start
			for i := 0; i < rounds; i++ {
				o := ops[r.IntN(len(ops))]
				switch r.IntN(6) {
				case 0:
					runtime.Gosched()
				case 1:
					for n := r.IntN(300); n > 0; n-- {
						_ = n
					}
				case 2:
					if r.IntN(8) == 0 {
						time.Sleep(time.Duration(r.IntN(60)) * time.Microsecond)
					}
				}
				stamps[g] = append(stamps[g], stamp{time.Now().UnixNano(), o.name})
				got := o.run()
				counts[g]++
				if got != want[o.name] {
					misses[g] = &miss{o.name, got}
					return
				}
			}
		}(g)
	}
	close(start)
	wg.Wait()
	// offline: the interleaving that was seen
	type ev struct {
		at int64
		s  string
	}
	var evs []ev
	for g, ss := range stamps {
		for _, s := range ss {
			evs = append(evs, ev{s.at, fmt.Sprintf("%d:%s", g, s.op)})
			c.Ev("op:" + strings.SplitN(s.op, "#", 2)[0])
		}
	}
	sort.Slice(evs, func(i, j int) bool { return evs[i].at < evs[j].at })
	var sb strings.Builder
	switches := 0
	for i, e := range evs {
		sb.WriteString(e.s)
		sb.WriteByte(' ')
		if i > 0 && e.s[:2] != evs[i-1].s[:2] {
			switches++
		}
	}
	if switches > goroutines {
		c.Feat("interleaved")
	}
	c.Case(sb.String())
	c.Sample(map[string]any{"goroutines": goroutines, "operations": len(evs), "switches": switches, "order": short(sb.String(), 200)})
	for g, m := range misses {
		if m != nil {
			c.Log("goroutine %d of %d", g, goroutines)
			c.Fail("concurrent-result:"+strings.SplitN(m.op, "#", 2)[0], "under concurrent use %s gave %s, sequentially %s", m.op, short(m.got, 400), short(want[m.op], 400))
		}
	}
}

func sequential(ops []raceOp) map[string]string {
	w := map[string]string{}
	for _, o := range ops {
		w[o.name] = o.run()
	}
	return w
}

func addrDump(a address.Address, err error) string {
	if err != nil {
		return "error"
	}
	m, _ := a.MarshalCBOR()
	n := a.NetworkInfo()
	return fmt.Sprintf("%x %s %x %v", a.Bytes(), a.String(), m, *n)
}

// addrOps: operations on one shared address value and on shared texts and bytes.
func addrOps(i int, a address.Address, text, hx string, raw []byte) []raceOp {
	n := func(s string) string { return fmt.Sprintf("%s#%d", s, i) }
	hrp := "stake"
	if strings.HasPrefix(text, "addr1") {
		hrp = "addr_test"
	}
	wrongText := refBech32(hrp, raw)
	ops := []raceOp{
		{n("addr-bytes"), func() string { return hex.EncodeToString(a.Bytes()) }},
		{n("addr-string"), func() string { return a.String() }},
		{n("addr-cbor"), func() string { b, _ := a.MarshalCBOR(); return hex.EncodeToString(b) }},
		{n("addr-network"), func() string { return fmt.Sprint(*a.NetworkInfo()) }},
		{n("parse-text"), func() string { return addrDump(address.NewAddress(text)) }},
		{n("parse-hex"), func() string { return addrDump(address.NewAddressFromHex(hx)) }},
		{n("parse-bytes"), func() string { return addrDump(address.NewAddressFromBytes(raw)) }},
		{n("parse-bad"), func() string { return addrDump(address.NewAddress(text[:len(text)-1])) }},
		{n("parse-refused"), func() string { // good bytes in a text that is not theirs
			return addrDump(address.NewAddress(wrongText)) + addrDump(address.NewAddressFromHex(hx[1:])) + addrDump(address.NewAddressFromHex(hx+"zz")) + addrDump(address.NewAddressFromBytes(raw[:len(raw)-1])) + addrDump(address.NewAddressFromBytes(append([]byte{0x95}, raw[1:]...)))
		}},
	}
	if b, ok := a.(*address.BaseAddress); ok {
		ops = append(ops,
			raceOp{n("to-enterprise"), func() string { return addrDump(b.ToEnterprise(), nil) }},
			raceOp{n("to-reward"), func() string { return addrDump(b.ToReward(), nil) }})
	}
	return ops
}

func keyOps(i int, k bip32.XPrv, msg, ent, pw, seed []byte, idx [2]uint32) []raceOp {
	n := func(s string) string { return fmt.Sprintf("%s#%d", s, i) }
	return []raceOp{
		{n("derive-soft"), func() string { return hex.EncodeToString(k.Derive(idx[0])) }},
		{n("derive-hard"), func() string { return hex.EncodeToString(k.Derive(idx[1])) }},
		{n("sign"), func() string { s := k.Sign(msg); return hex.EncodeToString(s[:]) }},
		{n("public"), func() string { return hex.EncodeToString(k.Public()) }},
		{n("key-hash"), func() string { h := k.Public().PublicKey().Hash(); return hex.EncodeToString(h[:]) }},
		{n("root-seed"), func() string { x, _ := bip32.NewXPrv(seed); return hex.EncodeToString(x) }},
		{n("blake"), func() string {
			a, b := crypto.Blake2b224(msg), crypto.Blake2b256(msg)
			return fmt.Sprintf("%x %x", a, b)
		}},
		{n("refused"), func() string {
			_, e1 := bip32.NewXPrv(append([]byte{1}, seed...))
			_, e2 := crypto.Ed25519KeyHashFromBytes(msg[:min(len(msg), 27)])
			_, e3 := crypto.ScriptHashFromBytes(nil)
			return fmt.Sprint(e1 != nil, e2 != nil, e3 != nil)
		}},
		{n("chaincode"), func() string { return hex.EncodeToString(k.ChainCode()) }},
	}
}

func txReadOps(i int, t *tx.Tx, lf *fees.LinearFee) []raceOp {
	n := func(s string) string { return fmt.Sprintf("%s#%d", s, i) }
	e := func(v any, err error) string {
		if err != nil {
			return "error " + err.Error()
		}
		return fmt.Sprintf("%x", v)
	}
	return []raceOp{
		{n("tx-bytes"), func() string { b, err := t.Bytes(); return e(b, err) }},
		{n("tx-hex"), func() string { b, err := t.Hex(); return e(b, err) }},
		{n("tx-hash"), func() string { b, err := t.Hash(); return e(b[:], err) }},
		{n("tx-fee"), func() string { b, err := t.Fee(lf); return e(b, err) }},
		{n("tx-body-hex"), func() string { b, err := t.Body.Hex(); return e(b, err) }},
		{n("tx-body"), func() string { b, err := t.Body.Bytes(); return e(b, err) }},
	}
}

func init() {
	register(&Property{
		ID:   "C17",
		Race: true,
		Rule: "2 to 12 goroutines run random operations on values shared without synchronization (addresses, texts, keys, a built transaction, inputs and parameters of separate builders, one client of each node backend) under the race detector, with random yields and delays; every result is compared with the sequential one on equal values; fresh processes make their first library calls concurrently; non-trivial = distinct observed order of operations",
		Require: []string{"interleaved", "op:addr-bytes", "op:addr-string", "op:addr-cbor", "op:addr-network", "op:parse-text", "op:parse-hex", "op:parse-bytes", "op:parse-bad", "op:to-enterprise", "op:to-reward", "op:derive-soft", "op:derive-hard",
			"op:sign", "op:public", "op:key-hash", "op:blake", "op:root-seed", "op:icarus", "op:tx-bytes", "op:tx-hex", "op:tx-hash", "op:tx-fee", "op:tx-body", "op:builder", "op:load-protocol", "op:load-refused", "op:parse-refused", "op:refused", "op:tx-body-hex", "wide-builders", "nodes/works", "nodes/cli-fails", "nodes/cli-malformed", "nodes/bf-status", "nodes/bf-malformed", "nodes/unserializable",
			"crowd:C01", "crowd:C02", "crowd:C03", "crowd:C04", "crowd:C05", "crowd:C06", "crowd:C07", "crowd:C08", "crowd:C09", "crowd:C10", "crowd:C11", "crowd:C12", "crowd:C13", "crowd:C14", "crowd:C15", "crowd:C16", "crowd:C20", "crowd:C21", "op:network", "op:varnat",
			"shared/base", "shared/enterprise", "shared/pointer", "shared/reward", "shared/byron", "tx-with-metadata", "tx-without-metadata", "builders-share-inputs", "cold-start", "cold:parse-text", "cold:key", "cold:builder", "cold:tx", "cold:hash", "cold:load-protocol", "cold:node",
			"op:cli-utxos", "op:cli-params", "op:cli-tip", "op:cli-submit", "op:bf-utxos", "op:bf-params", "op:bf-tip", "op:bf-submit"},
		Setup: func(m *Monitor) error {
			if err := cliSetup(m); err != nil {
				return err
			}
			if err := bfSetup(m); err != nil {
				return err
			}
			if err := cryptoSetup(m); err != nil {
				return err
			}
			crowdInit()
			return txSetup(m)
		},
		Finish: crowdFinish,
		Assume: []string{"the race detector only sees races between accesses that were executed",
			"the order of operations is reconstructed from per-goroutine clocks so that recording adds no synchronization"},
		Streams: []Stream{
			{Name: "cold-start", Quick: 600, Thor: 3000, Workers: 4, Run: coldCase},
			{Name: "addresses", Quick: 1200, Thor: 10000, Workers: 2, Run: func(c *Ctx) {
				r := c.R
				var ops, seq []raceOp
				for i := 0; i < 1+r.IntN(3); i++ {
					s := genAddr(r)
					c.Feat("shared/" + kindNames[s.Kind])
					build := func() address.Address {
						if s.Kind != kByron && c.Idx%2 == 0 {
							return s.Must(c)
						}
						a, err := address.NewAddressFromBytes(s.Bytes())
						c.Failif(err != nil, "valid-rejected", "%v", err)
						return a
					}
					raw := s.Bytes()
					ops = append(ops, addrOps(i, build(), s.Text(), hex.EncodeToString(raw), raw)...)
					seq = append(seq, addrOps(i, build(), s.Text(), hex.EncodeToString(raw), append([]byte{}, raw...))...)
				}
				storm(c, ops, sequential(seq), 2+r.IntN(11), 30)
			}},
			{Name: "keys", Quick: 200, Thor: 3000, Workers: 2, Run: func(c *Ctx) {
				r := c.R
				k := keyPool[r.IntN(len(keyPool))].prv
				cp := func(b []byte) []byte { return append([]byte{}, b...) }
				msg, ent, pw, seed := hbytes(r, pick(r, r.IntN(100), r.IntN(100), 1000+r.IntN(5000), 65536+r.IntN(3))), hbytes(r, 32), hbytes(r, 5), hbytes(r, 32)
				idx := [2]uint32{u32(r) & 0x7fffffff, u32(r) | 0x80000000}
				ops := keyOps(0, cp(k), cp(msg), cp(ent), cp(pw), cp(seed), idx)
				seq := keyOps(0, cp(k), cp(msg), cp(ent), cp(pw), cp(seed), idx)
				if r.IntN(5) == 0 {
					e2, p2 := cp(ent), cp(pw)
					ops = append(ops, raceOp{"icarus#0", func() string { return hex.EncodeToString(bip32.FromBip39Entropy(e2, p2)) }})
					seq = append(seq, raceOp{"icarus#0", func() string { return hex.EncodeToString(bip32.FromBip39Entropy(ent, pw)) }})
				}
				storm(c, ops, sequential(seq), 2+r.IntN(7), 12)
			}},
			{Name: "built-tx", Quick: 400, Thor: 8000, Workers: 2, Run: func(c *Ctx) {
				r := c.R
				seed := r.Uint64()
				// the same construction twice gives equal but separate transactions
				mk := func() *tx.Tx {
					h := newHist(&Ctx{m: c.m, R: rand.New(rand.NewPCG(seed, 1)), events: map[string]int64{}, feats: map[string]int64{}, distinct: map[uint64]struct{}{}}, true)
					h.addInputs(1 + h.c.R.IntN(3))
					h.addOutputs(1 + h.c.R.IntN(3))
					h.tb.SetTTL(u32(h.c.R))
					if h.c.R.IntN(3) != 0 {
						h.t.Metadata, _ = genTopMeta(h.c.R)
					}
					if h.c.R.IntN(2) == 0 {
						h.tb.AddChangeIfNeeded(genAddr(h.c.R).Must(c))
					}
					b, err := h.tb.Build()
					c.Failif(err != nil, "build-error", "%v", err)
					return &b
				}
				lf := fees.NewLinearFee(44, uint(r.IntN(200000)))
				t, t2 := mk(), mk()
				if t.Metadata != nil {
					c.Feat("tx-with-metadata")
				} else {
					c.Feat("tx-without-metadata")
				}
				storm(c, txReadOps(0, t, lf), sequential(txReadOps(0, t2, fees.NewLinearFee(lf.TxFeePerByte, lf.TxFeeFixed))), 2+r.IntN(7), 20)
			}},
			{Name: "builders", Quick: 120, Thor: 3000, Workers: 2, Run: func(c *Ctx) {
				r := c.R
				seed := r.Uint64()
				// everything the builders share
				shared := func() func(int) string {
					q := rand.New(rand.NewPCG(seed, 2))
					ks := xprvs(keys(q, 1+q.IntN(3)))
					pr := protocol.Protocol{TxFeePerByte: 44, TxFeeFixed: 155381, MaxTxSize: 16384}
					var ins []*tx.TxInput
					wide := pick(q, 3, 3, 20, 30, 300)
					for i := 0; i < wide; i++ {
						ins = append(ins, &tx.TxInput{TxHash: rbytes(q, 32), Index: uint16(i), Amount: 3000000 + uint(q.IntN(1000000))})
					}
					to, change := genAddr(q).Must(c), genAddr(q).Must(c)
					outs := []*tx.TxOutput{tx.NewTxOutput(to, 1000000), tx.NewTxOutput(change, 1000001)}
					for i := 3; i < wide; i++ {
						outs = append(outs, tx.NewTxOutput(to, uint(1000000+i)))
					}
					if wide > 3 {
						c.Feat("wide-builders")
					}
					return func(v int) string {
						tb := tx.NewTxBuilder(pr, ks[:1])
						if wide > 3 && v%3 == 0 {
							tb.AddInputs(ins...)
							tb.AddOutputs(outs...)
						}
						tb.AddInputs(ins[:1+v%3]...)
						tb.AddOutputs(outs[v%2])
						if v == 5 {
							tb.Tx().Metadata = map[uint64]any{1: func() {}}
						}
						tb.SetTTL(uint32(v))
						if v%4 == 3 {
							tb.Tx().Metadata = map[uint64]any{1: "a", 2: uint64(v), 3: []any{"x", uint64(1)}, 4: map[string]any{"k": 1, "l": 2}}
						}
						if v%2 == 0 {
							tb.AddChangeIfNeeded(change)
						} else {
							tb.Tx().SetFee(tb.MinFee())
						}
						for _, k := range ks[1:] {
							tb.Sign(k)
						}
						b, err := tb.Build()
						if err != nil {
							return "error " + err.Error()
						}
						x, err := b.Hex()
						h, _ := b.Hash()
						return fmt.Sprintf("%s %v %x", x, err, h)
					}
				}
				mk := func() (ops []raceOp) {
					f := shared()
					for v := 0; v < 6; v++ {
						v := v
						ops = append(ops, raceOp{fmt.Sprintf("builder#%d", v), func() string { return f(v) }})
					}
					return
				}
				c.Feat("builders-share-inputs")
				storm(c, mk(), sequential(mk()), 2+r.IntN(5), 5)
			}},
			{Name: "crowd", Quick: 1500, Thor: 30000, Run: crowdCase},
			{Name: "nodes", Quick: 240, Thor: 2400, Workers: 2, Run: nodeStorm},
			{Name: "mixed", Quick: 200, Thor: 1500, Workers: 1, Run: func(c *Ctx) {
				r := c.R
				dir := filepath.Join(c.m.scratch, "mixed")
				os.MkdirAll(dir, 0o755)
				f := filepath.Join(dir, fmt.Sprintf("p%d.json", c.Idx))
				os.WriteFile(f, []byte(fmt.Sprintf(`{"txFeePerByte":%d,"txFeeFixed":%d,"maxTxSize":16384,"protocolVersion":{"major":6,"minor":0},"minUTxOValue":1}`, r.IntN(100), r.IntN(200000))), 0o644)
				defer os.Remove(f)
				broken := f + ".broken"
				os.WriteFile(broken, []byte(`{"txFeePerByte": -1}`), 0o644)
				defer os.Remove(broken)
				s := genAddr(r, kBase)
				k := keyPool[r.IntN(len(keyPool))].prv
				msg := hbytes(r, 32)
				num := u64(r)
				mk := func() []raceOp {
					raw := s.Bytes()
					ops := addrOps(0, s.Must(c), s.Text(), hex.EncodeToString(raw), raw)
					ops = append(ops, keyOps(0, append(bip32.XPrv{}, k...), append([]byte{}, msg...), nil, nil, rbytes(rand.New(rand.NewPCG(3, 4)), 32), [2]uint32{0, 1 << 31})[2:]...)
					t := tx.NewTx()
					t.AddInputs(&tx.TxInput{TxHash: append([]byte{}, msg...), Index: 1, Amount: 7})
					t.AddOutputs(tx.NewTxOutput(s.Must(c), 5))
					b, _ := t.Bytes()
					_ = b
					ops = append(ops, txReadOps(0, t, fees.NewLinearFee(1, 2))...)
					enc := address.VariableNatEncode(num)
					return append(ops,
						raceOp{"load-protocol", func() string {
							p, err := protocol.LoadProtocol(f)
							if err != nil {
								return "error"
							}
							return fmt.Sprintf("%+v", *p)
						}},
						raceOp{"load-refused", func() string {
							_, e1 := protocol.LoadProtocol(f + ".absent")
							_, e2 := protocol.LoadProtocol(broken)
							return fmt.Sprint(e1 != nil, e2 != nil)
						}},
						raceOp{"network", func() string { return fmt.Sprint(*network.MainNet(), *network.TestNet()) }},
						raceOp{"varnat", func() string {
							a, n, err := address.VariableNatDecode(enc)
							return fmt.Sprint(a, n, err, bytes.Equal(address.VariableNatEncode(num), enc))
						}})
				}
				storm(c, mk(), sequential(mk()), 2+r.IntN(7), 25)
			}},
		},
	})
}

// nodeStorm: one client of each backend used from many goroutines at once; addresses, transactions and the
// network description are shared as well.
func nodeStorm(c *Ctx) {
	r := c.R
	e := func(v any, err error) string {
		if err != nil {
			return "error"
		}
		return fmt.Sprintf("%v", v)
	}
	k := newCLICase(c, false)
	defer k.clean()
	k.n = node.NewCardanoCliNode(k.net, k.exe)
	u := newBF(c)
	defer u.done()
	var sb strings.Builder
	sb.WriteString(utxoHead)
	for i := 1 + r.IntN(4); i > 0; i-- {
		sb.WriteString(genRow(r).line + "\n")
	}
	k.write("out.utxo", sb.String())
	k.write("out.tip", genTip(r, 1<<64-1).text)
	k.write("out.protocol-parameters", genProtoFile(r).text)
	u.genUtxos(pick(r, 2, 100, 130))
	u.k.tip, u.k.params = genBFTip(r, nil).text, genBFParams(r, nil).text
	u.k.submit = jq(strings.Repeat("5a", 32))
	a := genAddr(r)
	t, raw, _ := goodTx(c)
	addr := a.Must(c)
	mode := pick(r, "works", "works", "cli-fails", "cli-malformed", "bf-status", "bf-malformed", "unserializable")
	switch mode {
	case "cli-fails":
		k.write("rc", "3\n")
	case "cli-malformed":
		_, row := badRow(r, genRow(r))
		k.write("out.utxo", sb.String()+row+"\n")
		k.write("out.tip", `{"slot": "x"}`)
		k.write("out.protocol-parameters", `{"txFeePerByte": -1`)
	case "bf-status":
		n := pick(r, 400, 403, 404)
		u.k.fault = &bfFault{kind: "status", n: n, body: bfError(n)}
	case "bf-malformed":
		u.k.fault = &bfFault{kind: "body", body: pick(r, "not json", "{", "[1,2")}
	case "unserializable":
		t.Metadata = badMeta(r)
	}
	c.Feat("nodes/" + mode)
	ops := func(n1, n2 node.Node, addr address.Address, t *tx.Tx) (ops []raceOp) {
		for _, x := range []struct {
			s string
			n node.Node
		}{{"cli", n1}, {"bf", n2}} {
			n := x.n
			ops = append(ops,
				raceOp{x.s + "-utxos", func() string { return e(n.UTXOs(addr)) }},
				raceOp{x.s + "-params", func() string { return e(n.ProtocolParameters()) }},
				raceOp{x.s + "-tip", func() string { return e(n.QueryTip()) }},
				raceOp{x.s + "-submit", func() string { return e(n.SubmitTx(*t)) }})
		}
		return append(ops,
			raceOp{"addr-string", func() string { return addr.String() }},
			raceOp{"tx-bytes", func() string { b, err := t.Bytes(); return e(hex.EncodeToString(b), err) }})
	}
	// the sequential results come from separate clients
	want := sequential(ops(node.NewCardanoCliNode(k.net, k.exe), node.NewBlockfrostClient(u.id, u.net), addr, &t))
	k.calls()
	u.take()
	a2, err := address.NewAddressFromBytes(a.Bytes())
	c.Failif(err != nil, "valid-rejected", "%v", err)
	storm(c, ops(k.n, u.n, a2, &t), want, 3+r.IntN(4), 6)
	if mode == "unserializable" {
		k.calls()
		u.take()
		return
	}
	for _, cc := range k.calls() {
		if cc.hasF {
			k.checkFile(cc, raw)
		}
	}
	for _, q := range u.take() {
		c.Failif(q.host != u.host, "host", "a request went to %s", q.host)
		if q.method == "POST" {
			c.Failif(!bytes.Equal(q.body, raw), "submit-bytes", "concurrent submission posted %s, want %s", hx(q.body), hx(raw))
		}
	}
}
