package main

// C25: the work an operation does grows in proportion to the size of its input, not faster, whatever was done before.
// Processor time and allocated bytes of the same operation are measured at sizes n, 4n and 16n (and for two sizes at
// once: together against one at a time), and at the start and the end of a long history. A judgement needs a large
// factor, and is measured again before it counts.

import (
	"bytes"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/rand/v2"
	"os"
	"path/filepath"
	"runtime"
	"strings"
	"sync"
	"syscall"
	"time"
	"unsafe"

	"github.com/fivebinaries/go-cardano-serialization/address"
	"github.com/fivebinaries/go-cardano-serialization/bip32"
	"github.com/fivebinaries/go-cardano-serialization/crypto"
	"github.com/fivebinaries/go-cardano-serialization/fees"
	"github.com/fivebinaries/go-cardano-serialization/network"
	"github.com/fivebinaries/go-cardano-serialization/node"
	"github.com/fivebinaries/go-cardano-serialization/protocol"
	"github.com/fivebinaries/go-cardano-serialization/tx"
)

// costFam is a family of operations: make prepares one of size n (and m), and the result does it once.
type costFam struct {
	name string
	n    int // smallest size
	make func(c *Ctx, n, m int) func()
	m    int // for two sizes: the other size
}

var costLock sync.Mutex

type cost struct {
	T int64 // ns of processor time of the whole process
	A int64 // bytes allocated
}

func cpuNow() int64 {
	var ts syscall.Timespec
	syscall.Syscall(syscall.SYS_CLOCK_GETTIME, 2, uintptr(unsafe.Pointer(&ts)), 0)
	return ts.Nano()
}

// measure gives the least cost of a few runs.
func measure(mk func() func(), reps int) (best cost) {
	for i, t := 0, time.Now(); i < reps && (i == 0 || time.Since(t) < 4*time.Second); i++ {
		f := mk()
		runtime.GC()
		var a, b runtime.MemStats
		runtime.ReadMemStats(&a)
		t0 := cpuNow()
		f()
		t1 := cpuNow()
		runtime.ReadMemStats(&b)
		c := cost{t1 - t0, int64(b.TotalAlloc - a.TotalAlloc)}
		if i == 0 || c.T < best.T {
			best.T = c.T
		}
		if i == 0 || c.A < best.A {
			best.A = c.A
		}
	}
	return
}

const (
	costSlack = 5        // times the proportional cost
	costTime  = 8e6      // ns below which nothing is judged
	costAlloc = 2 << 20  // bytes below which nothing is judged
	stepTime  = 60e6     // the last step alone is judged above this
	stepAlloc = 16 << 20 // the same
	step      = 10       // for four times the size
)

func tooSteep(x [3]cost) string {
	switch {
	case x[2].T > 16*costSlack*x[0].T+costTime:
		return fmt.Sprintf("16 times the size takes %d times as long", x[2].T/max(x[0].T, 1))
	case x[2].A > 16*costSlack*x[0].A+costAlloc:
		return fmt.Sprintf("16 times the size allocates %d times as much", x[2].A/max(x[0].A, 1))
	case x[2].T > stepTime && x[2].T > step*x[1].T:
		return fmt.Sprintf("4 times the size takes %d times as long", x[2].T/max(x[1].T, 1))
	case x[2].A > stepAlloc && x[2].A > step*x[1].A:
		return fmt.Sprintf("4 times the size allocates %d times as much", x[2].A/max(x[1].A, 1))
	}
	return ""
}

// again measures once more; what took very long need not be waited for a third time.
func again(t0 time.Time, try func() string) (s string) {
	t := time.Since(t0)
	if s = try(); s != "" && t < 10*time.Second {
		s = try()
	}
	return
}

func costCase(c *Ctx) {
	costLock.Lock()
	defer costLock.Unlock()
	var fams []costFam
	switch c.Stream {
	case "sizes":
		fams = costFams
	case "products":
		fams = costProducts
	}
	f := fams[c.Idx%len(fams)]
	n := f.n
	if c.Idx >= len(fams) { // later rounds use other sizes
		n = n/2 + c.R.IntN(n)
	}
	c.Log("%s from size %d", f.name, n)
	c.Feat("family/" + f.name)
	try := func(reps int) string {
		if f.m > 0 {
			var x [3]cost // both small, one large each, both large
			small := measure(func() func() { return f.make(c, n/16+1, f.m/16+1) }, reps)
			x[0] = measure(func() func() { return f.make(c, n, f.m/16+1) }, reps)
			x[1] = measure(func() func() { return f.make(c, n/16+1, f.m) }, reps)
			x[2] = measure(func() func() { return f.make(c, n, f.m) }, reps)
			c.Sample(map[string]any{"family": f.name, "n": n, "m": f.m, "costs": x})
			verbose(c, f.name, n, x)
			sumT, sumA := x[0].T+x[1].T, x[0].A+x[1].A
			switch {
			case x[2].T > costSlack*sumT+costTime:
				return fmt.Sprintf("with both sizes large it takes %d times as long as with one at a time (%+v %+v)", x[2].T/max(sumT, 1), small, x)
			case x[2].A > costSlack*sumA+costAlloc:
				return fmt.Sprintf("with both sizes large it allocates %d times as much as with one at a time (%+v %+v)", x[2].A/max(sumA, 1), small, x)
			}
			return ""
		}
		var x [3]cost
		for i := range x {
			x[i] = measure(func() func() { return f.make(c, n<<(2*i), 0) }, reps)
		}
		c.Sample(map[string]any{"family": f.name, "n": n, "costs": x})
		verbose(c, f.name, n, x)
		if s := tooSteep(x); s != "" {
			return fmt.Sprintf("%s (%+v)", s, x)
		}
		return ""
	}
	c.Ev("measured")
	c.Case(f.name, n)
	t0 := time.Now()
	if s := try(3); s != "" {
		c.Ev("measured-again")
		if s2 := again(t0, func() string { return try(6) }); s2 != "" {
			c.Fail("cost:"+f.name, "%s from size %d: %s", f.name, n, s2)
		}
	}
}

func verbose(c *Ctx, name string, n int, x any) {
	if os.Getenv("VERIF_VERBOSE") != "" {
		fmt.Fprintf(os.Stderr, "%-28s %7d %+v\n", name, n, x)
	}
}

func costInputs(r *rand.Rand, n int) (out []*tx.TxInput) {
	for i := 0; i < n; i++ {
		h := rbytes(r, 32)
		out = append(out, &tx.TxInput{TxHash: h, Index: uint16(i), Amount: 3000000})
	}
	return
}

var costAddrs []address.Address

func costOutputs(r *rand.Rand, n int) (out []*tx.TxOutput) {
	for i := 0; i < n; i++ {
		out = append(out, tx.NewTxOutput(costAddrs[r.IntN(len(costAddrs))], uint(1000000+i)))
	}
	return
}

func costMeta(r *rand.Rand, n int) any {
	m := map[uint64]any{}
	for i := 0; i < n; i++ {
		m[uint64(i)] = map[string]any{"k": "some text", "n": uint64(i)}
	}
	return m
}

func costKeys(n int) (out []bip32.XPrv) {
	for i := 0; i < n; i++ {
		out = append(out, bip32.XPrv(keyPool[i%len(keyPool)].prv))
	}
	return
}

func costBuilder(r *rand.Rand, ins, outs, keys, meta int) *tx.TxBuilder {
	tb := tx.NewTxBuilder(protocol.Protocol{TxFeePerByte: 44, TxFeeFixed: 155381, MaxTxSize: 16384}, costKeys(keys))
	tb.AddInputs(costInputs(r, ins)...)
	tb.AddOutputs(costOutputs(r, outs)...)
	if meta > 0 {
		tb.Tx().Metadata = costMeta(r, meta)
	}
	return tb
}

var costSink any

// txUses are the ways of looking at a transaction.
func txUses(t *tx.Tx) map[string]func() {
	return map[string]func(){
		"bytes": func() { costSink, _ = t.Bytes() },
		"hex":   func() { costSink, _ = t.Hex() },
		"hash":  func() { costSink, _ = t.Hash() },
		"fee":   func() { costSink, _ = t.Fee(fees.NewLinearFee(44, 155381)) },
		"body":  func() { costSink, _ = t.Body.Bytes() },
	}
}

var costFams, costProducts, costHistories []costFam

func costInit() {
	fam := func(name string, n int, mk func(c *Ctx, n int) func()) {
		costFams = append(costFams, costFam{name: name, n: n, make: func(c *Ctx, n, _ int) func() { return mk(c, n) }})
	}
	prod := func(name string, n, m int, mk func(c *Ctx, n, m int) func()) {
		costProducts = append(costProducts, costFam{name: name, n: n, m: m, make: mk})
	}
	for _, use := range []string{"bytes", "hex", "hash", "fee", "body"} {
		fam("tx-"+use+"/inputs", 1000, func(c *Ctx, n int) func() {
			return txUses(costBuilder(c.R, n, 1, 1, 0).Tx())[use]
		})
		fam("tx-"+use+"/outputs", 1000, func(c *Ctx, n int) func() {
			return txUses(costBuilder(c.R, 1, n, 1, 0).Tx())[use]
		})
		if use != "body" {
			fam("tx-"+use+"/metadata", 500, func(c *Ctx, n int) func() {
				return txUses(costBuilder(c.R, 1, 1, 1, n).Tx())[use]
			})
		}
		if use != "body" && use != "hash" {
			fam("tx-"+use+"/witnesses", 500, func(c *Ctx, n int) func() {
				tb := costBuilder(c.R, 1, 1, 1, 0)
				for i := 0; i < n; i++ {
					tb.Tx().Witness.Keys = append(tb.Tx().Witness.Keys, tx.NewVKeyWitness(rbytes(c.R, 32), rbytes(c.R, 64)))
				}
				return txUses(tb.Tx())[use]
			})
		}
	}
	for _, k := range []string{"min-fee", "change", "build"} {
		op := func(tb *tx.TxBuilder) func() {
			switch k {
			case "min-fee":
				return func() { costSink = tb.MinFee() }
			case "change":
				return func() { tb.AddChangeIfNeeded(costAddrs[0]) }
			}
			return func() { costSink, _ = tb.Build() }
		}
		fam(k+"/inputs", 1000, func(c *Ctx, n int) func() { return op(costBuilder(c.R, n, 1, 1, 0)) })
		fam(k+"/outputs", 1000, func(c *Ctx, n int) func() { return op(costBuilder(c.R, 1, n, 1, 0)) })
		fam(k+"/metadata", 500, func(c *Ctx, n int) func() { return op(costBuilder(c.R, 2, 1, 1, n)) })
		nk := 500
		if k == "build" {
			nk = 30
		}
		fam(k+"/keys", nk, func(c *Ctx, n int) func() { return op(costBuilder(c.R, 2, 1, n, 0)) })
		m := nk * 8
		prod(k+"/keys-inputs", m, 8000, func(c *Ctx, n, m int) func() { return op(costBuilder(c.R, m, 1, n, 0)) })
		prod(k+"/keys-outputs", m, 8000, func(c *Ctx, n, m int) func() { return op(costBuilder(c.R, 1, m, n, 0)) })
		prod(k+"/keys-metadata", m, 4000, func(c *Ctx, n, m int) func() { return op(costBuilder(c.R, 1, 1, n, m)) })
		prod(k+"/inputs-outputs", 8000, 8000, func(c *Ctx, n, m int) func() { return op(costBuilder(c.R, n, m, 1, 0)) })
		prod(k+"/inputs-metadata", 8000, 4000, func(c *Ctx, n, m int) func() { return op(costBuilder(c.R, n, 1, 1, m)) })
	}
	fam("add-inputs/one-by-one", 2000, func(c *Ctx, n int) func() {
		tb, in := costBuilder(c.R, 0, 0, 1, 0), costInputs(c.R, n)
		return func() {
			for _, i := range in {
				tb.AddInputs(i)
			}
		}
	})
	fam("add-outputs/one-by-one", 2000, func(c *Ctx, n int) func() {
		tb, out := costBuilder(c.R, 0, 0, 1, 0), costOutputs(c.R, n)
		return func() {
			for _, o := range out {
				tb.AddOutputs(o)
			}
		}
	})
	fam("tx-add/one-by-one", 2000, func(c *Ctx, n int) func() {
		t, in, out := tx.NewTx(), costInputs(c.R, n), costOutputs(c.R, n)
		return func() {
			for i := range in {
				t.AddInputs(in[i])
				t.AddOutputs(out[i])
			}
		}
	})
	fam("sign-keys/one-by-one", 2000, func(c *Ctx, n int) func() {
		tb, ks := costBuilder(c.R, 1, 1, 0, 0), costKeys(n)
		return func() {
			for _, k := range ks {
				tb.Sign(k)
			}
		}
	})
	fam("make-inputs", 2000, func(c *Ctx, n int) func() {
		var hs []string
		for i := 0; i < n; i++ {
			hs = append(hs, hex.EncodeToString(rbytes(c.R, 32)))
		}
		return func() {
			for i, h := range hs {
				costSink = tx.NewTxInput(h, uint16(i), 5)
			}
		}
	})
	fam("sign/message", 60000, func(c *Ctx, n int) func() {
		k, m := bip32.XPrv(keyPool[0].prv), rbytes(c.R, n)
		return func() { costSink = k.Sign(m) }
	})
	fam("blake2b224", 60000, func(c *Ctx, n int) func() {
		m := rbytes(c.R, n)
		return func() { costSink = crypto.Blake2b224(m) }
	})
	fam("blake2b256", 60000, func(c *Ctx, n int) func() {
		m := rbytes(c.R, n)
		return func() { costSink = crypto.Blake2b256(m) }
	})
	fam("entropy", 100000, func(c *Ctx, n int) func() {
		m := rbytes(c.R, n)
		return func() { costSink = bip32.FromBip39Entropy(m, nil) }
	})
	fam("password", 100000, func(c *Ctx, n int) func() {
		m := rbytes(c.R, n)
		return func() { costSink = bip32.FromBip39Entropy(make([]byte, 32), m) }
	})
	fam("derive/path", 15, func(c *Ctx, n int) func() {
		k := bip32.XPrv(keyPool[0].prv)
		return func() {
			for i := 0; i < n; i++ {
				k = k.Derive(uint32(i))
			}
			costSink = k
		}
	})
	fam("number/long", 100000, func(c *Ctx, n int) func() {
		b := bytes.Repeat([]byte{0x81}, n)
		return func() { _, costSink, _ = address.VariableNatDecode(b) }
	})
	fam("number/zeros", 100000, func(c *Ctx, n int) func() {
		b := append(bytes.Repeat([]byte{0x80}, n), 1)
		return func() { _, costSink, _ = address.VariableNatDecode(b) }
	})
	for _, pre := range []string{"addr1", "addr_test1", "stake1", "addr", "1"} {
		fam("parse-text/"+pre, 8000, func(c *Ctx, n int) func() {
			if pre == "1" { // leading ones are zero bytes
				s := strings.Repeat("1", n/50)
				return func() { _, costSink = address.NewAddress(s) }
			}
			var sb strings.Builder
			sb.WriteString(pre)
			for i := 0; i < n; i++ {
				sb.WriteByte(bechAlpha[c.R.IntN(32)])
			}
			s := sb.String()
			return func() { _, costSink = address.NewAddress(s) }
		})
	}
	fam("parse-text/prefix", 8000, func(c *Ctx, n int) func() {
		s := "addr" + strings.Repeat("r", n) + "1qqqqqqqqqqqqqqqq"
		return func() { _, costSink = address.NewAddress(s) }
	})
	for _, h := range []byte{0x00, 0x11, 0x40, 0x61, 0x70, 0xe1, 0xf0, 0x82} {
		fam(fmt.Sprintf("parse-bytes/%02x", h), 100000, func(c *Ctx, n int) func() {
			b := rbytes(c.R, n)
			b[0] = h
			return func() { _, costSink = address.NewAddressFromBytes(b) }
		})
	}
	fam("parse-hex", 50000, func(c *Ctx, n int) func() {
		s := hex.EncodeToString(append([]byte{0x61}, rbytes(c.R, n)...))
		return func() { _, costSink = address.NewAddressFromHex(s) }
	})
	fam("byron/attribute", 20000, func(c *Ctx, n int) func() {
		b := costByron(c.R, n, 1)
		return func() { byronUse(b) }
	})
	fam("byron/attributes", 500, func(c *Ctx, n int) func() {
		b := costByron(c.R, 4, n)
		return func() { byronUse(b) }
	})
	fam("load-file/fields", 1000, func(c *Ctx, n int) func() {
		m := map[string]any{"txFeePerByte": 44, "txFeeFixed": 155381, "maxTxSize": 16384, "minUTxOValue": 1}
		for i := 0; i < n; i++ {
			m[fmt.Sprint("field", i)] = []any{i, "x", nil}
		}
		b, err := json.Marshal(m)
		must(err)
		f := filepath.Join(c.m.scratch, fmt.Sprintf("cost-%d.json", c.Idx))
		must(os.WriteFile(f, b, 0o644))
		return func() {
			p, err := protocol.LoadProtocol(f)
			costSink = p
			c.Failif(err != nil, "load", "%v", err)
		}
	})
	fam("cli-utxos/rows", 500, func(c *Ctx, n int) func() {
		dir := filepath.Join(c.m.scratch, fmt.Sprintf("cost-cli-%d", c.Idx))
		must(os.MkdirAll(dir, 0o755))
		var sb strings.Builder
		sb.WriteString(utxoHead)
		for i := 0; i < n; i++ {
			sb.WriteString(genRow(c.R).line + "\n")
		}
		must(os.WriteFile(filepath.Join(dir, "out"), []byte(sb.String()), 0o644))
		exe := filepath.Join(dir, "cardano-cli")
		must(os.WriteFile(exe, []byte("#!/bin/sh\nexec cat \"${0%/*}/out\"\n"), 0o755))
		cli := node.NewCardanoCliNode(network.TestNet(), exe)
		return func() {
			x, err := cli.UTXOs(costAddrs[0])
			costSink = x
			c.Failif(err != nil || len(x) != n, "rows", "%d rows of %d: %v", len(x), n, err)
		}
	})
	fam("blockfrost-utxos/rows", 100, func(c *Ctx, n int) func() {
		u := newBF(c)
		u.genUtxos(n)
		return func() {
			defer u.done()
			x, err := u.n.UTXOs(costAddrs[0])
			costSink = x
			c.Failif(err != nil || len(x) != n, "rows", "%d outputs of %d: %v", len(x), n, err)
		}
	})
	// what costs the same whatever the number
	fam("number/magnitude", 1, func(c *Ctx, n int) func() {
		v := map[int]uint64{1: 1 << 20, 4: 1 << 40, 16: ^uint64(0)}[n]
		return func() {
			for i := 0; i < 2000; i++ {
				costSink = address.VariableNatEncode(v)
				p := address.NewPointerAddress(*network.MainNet(), *address.NewKeyStakeCredential(make([]byte, 28)), *address.NewPointer(v, v, v))
				costSink = p.String()
			}
		}
	})
	fam("index/magnitude", 1, func(c *Ctx, n int) func() {
		v := map[int]uint32{1: 0, 4: 1<<31 - 1, 16: ^uint32(0)}[n]
		k := bip32.XPrv(keyPool[0].prv)
		return func() {
			for i := 0; i < 30; i++ {
				costSink = k.Derive(v - uint32(i)%2)
			}
		}
	})
	fam("amount/magnitude", 1, func(c *Ctx, n int) func() {
		v := map[int]uint{1: 1 << 20, 4: 1 << 40, 16: 1<<63 - 1}[n]
		return func() {
			for i := 0; i < 30; i++ {
				tb := tx.NewTxBuilder(protocol.Protocol{TxFeePerByte: 44, TxFeeFixed: 155381}, costKeys(1))
				tb.AddInputs(&tx.TxInput{TxHash: make([]byte, 32), Amount: v})
				tb.AddOutputs(tx.NewTxOutput(costAddrs[0], 1000000))
				tb.SetTTL(uint32(v))
				tb.AddChangeIfNeeded(costAddrs[1])
				costSink = tb.MinFee()
			}
		}
	})
	fam("fee/magnitude", 1, func(c *Ctx, n int) func() {
		v := map[int]uint{1: 1, 4: 1 << 20, 16: 1 << 40}[n]
		return func() {
			for i := 0; i < 30; i++ {
				tb := tx.NewTxBuilder(protocol.Protocol{TxFeePerByte: v, TxFeeFixed: v}, costKeys(1))
				tb.AddInputs(&tx.TxInput{TxHash: make([]byte, 32), Amount: 1 << 60})
				tb.AddOutputs(tx.NewTxOutput(costAddrs[0], 1000000))
				tb.AddChangeIfNeeded(costAddrs[1])
				costSink = tb.MinFee()
			}
		}
	})
	// the same amount of work, again and again: size is the number of repetitions on one object
	hist := func(name string, n int, mk func(c *Ctx) func()) {
		costHistories = append(costHistories, costFam{name: name, n: n, make: func(c *Ctx, _, _ int) func() { return mk(c) }})
	}
	for _, k := range []string{"bytes", "hash", "fee", "min-fee", "build", "change", "ttl", "metadata"} {
		n := 1500
		if k == "build" {
			n = 300
		}
		hist("builder-"+k, n, func(c *Ctx) func() {
			tb := costBuilder(c.R, 3, 3, 2, 1)
			if k == "change" {
				tb = costBuilder(c.R, 1, 3, 2, 1)
			}
			i := 0
			uses := txUses(tb.Tx())
			return func() {
				i++
				switch k {
				case "min-fee":
					costSink = tb.MinFee()
				case "build":
					costSink, _ = tb.Build()
				case "change": // nothing left to give: the transaction does not grow
					tb.AddChangeIfNeeded(costAddrs[0])
				case "ttl":
					tb.SetTTL(uint32(1<<20 + i))
					uses["hash"]()
				case "metadata":
					tb.Tx().Metadata = map[uint64]any{uint64(1<<20 + i): "x"}
					tb.Tx().CalculateAuxiliaryDataHash()
					uses["hash"]()
				default:
					uses[k]()
				}
			}
		})
	}
	hist("new-transactions", 300, func(c *Ctx) func() {
		return func() {
			tb := costBuilder(c.R, 2, 2, 1, 1)
			tb.AddChangeIfNeeded(costAddrs[0])
			costSink, _ = tb.Build()
		}
	})
	hist("new-addresses", 8000, func(c *Ctx) func() {
		return func() {
			s := genAddr(c.R)
			a, err := address.NewAddress(s.Text())
			costSink, _ = a, err
		}
	})
	hist("new-bytes", 15000, func(c *Ctx) func() {
		b := rbytes(c.R, 57)
		return func() {
			x := c.R.Uint64()
			for i := 0; i < 8; i++ {
				b[1+i] = byte(x >> (8 * i))
			}
			b[0] = 0x01
			costSink, _ = address.NewAddressFromBytes(b)
			b[0] = 0x61
			a, _ := address.NewAddressFromBytes(b[:29])
			costSink = a.Bytes()
			costSink = address.VariableNatEncode(x)
		}
	})
	hist("new-inputs", 8000, func(c *Ctx) func() {
		return func() {
			i := tx.NewTxInput(hex.EncodeToString(rbytes(c.R, 32)), uint16(c.R.Uint32()), uint(c.R.Uint32()))
			costSink, _ = i.MarshalCBOR()
			costSink, _ = tx.NewTxOutput(costAddrs[c.R.IntN(len(costAddrs))], uint(c.R.Uint32())).MarshalCBOR()
			t := tx.NewTx()
			t.AddInputs(i)
			costSink, _ = t.Hash()
		}
	})
	hist("new-keys", 60, func(c *Ctx) func() {
		return func() {
			k, err := bip32.NewXPrv(hbytes(c.R, 32))
			if err == nil {
				k = k.Derive(c.R.Uint32())
				costSink = k.Public().PublicKey().Hash()
				costSink = k.Sign(rbytes(c.R, 40))
			}
		}
	})
	hist("new-hashes", 10000, func(c *Ctx) func() {
		return func() {
			costSink = crypto.Blake2b256(rbytes(c.R, 40))
			costSink = crypto.Blake2b224(rbytes(c.R, 40))
			costSink, _ = crypto.TransactionHashFromBytes(rbytes(c.R, 32))
		}
	})
	hist("new-files", 500, func(c *Ctx) func() {
		f := filepath.Join(c.m.scratch, fmt.Sprintf("hist-%d.json", c.Idx))
		return func() {
			must(os.WriteFile(f, []byte(fmt.Sprintf(`{"txFeePerByte":%d,"maxTxSize":5}`, c.R.Uint32())), 0o644))
			costSink, _ = protocol.LoadProtocol(f)
		}
	})
	hist("errors", 6000, func(c *Ctx) func() {
		return func() {
			costSink, _ = address.NewAddress("addr1" + hex.EncodeToString(rbytes(c.R, 20)))
			costSink, _ = address.NewAddressFromBytes(rbytes(c.R, 40))
			costSink, _ = crypto.TransactionHashFromBytes(rbytes(c.R, 31))
			costSink, _ = protocol.LoadProtocol(fmt.Sprintf("/verif-absent/%d", c.R.Uint64()))
		}
	})
}

// costHistory does the same operation n times over, eight laps of it, and compares the last laps with the first.
func costHistory(c *Ctx) {
	costLock.Lock()
	defer costLock.Unlock()
	f := costHistories[c.Idx%len(costHistories)]
	c.Log("%s, laps of %d", f.name, f.n)
	c.Feat("history/" + f.name)
	c.Ev("measured")
	c.Case(f.name, c.Idx)
	try := func() string {
		op := f.make(c, 0, 0)
		laps := make([]cost, 8)
		for i := range laps {
			laps[i] = measure(func() func() {
				return func() {
					for j := 0; j < f.n; j++ {
						op()
					}
				}
			}, 1)
		}
		verbose(c, f.name, f.n, laps)
		c.Sample(map[string]any{"history": f.name, "laps": laps})
		early, late := laps[0], laps[6]
		if laps[1].T > early.T {
			early.T = laps[1].T
		}
		late.T, late.A = min(late.T, laps[7].T), min(late.A, laps[7].A)
		early.A = max(early.A, laps[1].A)
		if late.T > 3*early.T+costTime/2 {
			return fmt.Sprintf("after %d times it takes %d times as long as at first (%+v)", 6*f.n, late.T/max(early.T, 1), laps)
		}
		if late.A > 3*early.A+costAlloc/2 {
			return fmt.Sprintf("after %d times it allocates %d times as much as at first (%+v)", 6*f.n, late.A/max(early.A, 1), laps)
		}
		return ""
	}
	t0 := time.Now()
	if s := try(); s != "" {
		c.Ev("measured-again")
		if s2 := again(t0, try); s2 != "" {
			c.Fail("history:"+f.name, "%s: %s", f.name, s2)
		}
	}
}

const bechAlpha = "qpzry9x8gf2tvdw0s3jn54khce6mua7l"

// costByron is a Byron address with k unknown attributes of n bytes each.
func costByron(r *rand.Rand, n, k int) []byte {
	var p bytes.Buffer
	p.Write([]byte{0x83, 0x58, 28})
	p.Write(rbytes(r, 28))
	p.Write([]byte{0xba, byte(k >> 24), byte(k >> 16), byte(k >> 8), byte(k)})
	for i := 0; i < k; i++ {
		key := uint32(i + 100)
		p.Write([]byte{0x1a, byte(key >> 24), byte(key >> 16), byte(key >> 8), byte(key), 0x5a, byte(n >> 24), byte(n >> 16), byte(n >> 8), byte(n)})
		p.Write(rbytes(r, n))
	}
	p.WriteByte(0)
	l := p.Len()
	var b bytes.Buffer
	b.Write([]byte{0x82, 0xd8, 24, 0x5a, byte(l >> 24), byte(l >> 16), byte(l >> 8), byte(l)})
	b.Write(p.Bytes())
	crc := crcIEEE(p.Bytes())
	b.Write([]byte{0x1a, byte(crc >> 24), byte(crc >> 16), byte(crc >> 8), byte(crc)})
	return b.Bytes()
}

func byronUse(b []byte) {
	a, err := address.NewAddressFromBytes(b)
	costSink = err
	if err == nil {
		costSink = a.Bytes()
		costSink = a.NetworkInfo()
	}
}

func init() {
	costInit()
	var req []string
	for _, f := range append(append([]costFam{}, costFams...), costProducts...) {
		req = append(req, "family/"+f.name)
	}
	for _, f := range costHistories {
		req = append(req, "history/"+f.name)
	}
	register(&Property{
		ID:      "C25",
		Rule:    "every operation is measured (processor time and bytes allocated) at sizes n, 4n and 16n, with two sizes large at once, and early and late in a long history; growth beyond five times proportional, in three measurements, is a violation; non-trivial = one family at one size",
		Require: append(req, "measured"),
		Setup: func(m *Monitor) error {
			if err := txSetup(m); err != nil {
				return err
			}
			r := rand.New(rand.NewPCG(25, m.seed))
			for len(costAddrs) < 30 {
				if a, err := genAddr(r).Build(r); err == nil {
					costAddrs = append(costAddrs, a)
				}
			}
			return bfSetup(m)
		},
		Assume: []string{"base58 texts longer than any address are outside: the encoding itself takes quadratic work"},
		Streams: []Stream{
			{Name: "sizes", Quick: len(costFams), Thor: 8 * len(costFams), Fixed: true, Workers: 1, Run: costCase},
			{Name: "products", Quick: len(costProducts), Thor: 8 * len(costProducts), Fixed: true, Workers: 1, Run: costCase},
			{Name: "histories", Quick: len(costHistories), Thor: 8 * len(costHistories), Fixed: true, Workers: 1, Run: costHistory},
		},
	})
}
