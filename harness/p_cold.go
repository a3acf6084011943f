package main

// Cold starts for C17: fresh processes whose very first uses of the library happen on many
// goroutines at once, so that lazily initialised state is set up under contention.

import (
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/rand/v2"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/fivebinaries/go-cardano-serialization/address"
	"github.com/fivebinaries/go-cardano-serialization/bip32"
	"github.com/fivebinaries/go-cardano-serialization/crypto"
	"github.com/fivebinaries/go-cardano-serialization/fees"
	"github.com/fivebinaries/go-cardano-serialization/network"
	"github.com/fivebinaries/go-cardano-serialization/node"
	"github.com/fivebinaries/go-cardano-serialization/protocol"
	"github.com/fivebinaries/go-cardano-serialization/tx"
)

type coldResult struct {
	Bad   []string `json:"bad"`
	Order string   `json:"order"`
	Ops   []string `json:"ops"`
}

func coldOps(r *rand.Rand, dir string) []raceOp {
	var ops []raceOp
	for i := 0; i < 3; i++ {
		s := genAddr(r)
		raw := s.Bytes()
		text, hs, want := s.Text(), hex.EncodeToString(raw), hex.EncodeToString(raw)
		num := u64(r)
		ops = append(ops,
			raceOp{"parse-text", func() string {
				a, err := address.NewAddress(text)
				if err != nil || hex.EncodeToString(a.Bytes()) != want {
					return fmt.Sprintf("wrong: %q gives %v %v", text, a, err)
				}
				return addrDump(a, err)
			}},
			raceOp{"parse-hex", func() string {
				a, err := address.NewAddressFromHex(hs)
				if err != nil || a.String() != text {
					return fmt.Sprintf("wrong: %q gives %v %v", hs, a, err)
				}
				return addrDump(a, err)
			}},
			raceOp{"render", func() string {
				a, err := s.Build(rand.New(rand.NewPCG(5, 5)))
				if err != nil || a.String() != text {
					return fmt.Sprintf("wrong: %v %v", a, err)
				}
				return addrDump(a, err)
			}},
			raceOp{"varnat", func() string {
				b := address.VariableNatEncode(num)
				v, n, err := address.VariableNatDecode(b)
				if err != nil || v != num || n != len(b) {
					return "wrong"
				}
				return hex.EncodeToString(b)
			}},
		)
	}
	seed, msg, idx := hbytes(r, 32), hbytes(r, r.IntN(80)), u32(r)
	ent := hbytes(r, 16)
	toS, chS := genAddr(r), genAddr(r)
	prm := protocol.Protocol{TxFeePerByte: 44, TxFeeFixed: 155381, MaxTxSize: 16384}
	hash := hbytes(r, 32)
	md := map[uint64]any{1: "a", 674: map[string]any{"msg": []any{"x", uint64(1)}}}
	f := filepath.Join(dir, "p.json")
	mkTx := func() (string, error) {
		k, err := bip32.NewXPrv(append([]byte{}, seed...))
		if err != nil {
			return "", err
		}
		to, err := toS.Build(rand.New(rand.NewPCG(5, 5)))
		if err != nil {
			return "", err
		}
		ch, err := chS.Build(rand.New(rand.NewPCG(5, 5)))
		if err != nil {
			return "", err
		}
		tb := tx.NewTxBuilder(prm, []bip32.XPrv{k})
		tb.AddInputs(&tx.TxInput{TxHash: append([]byte{}, hash...), Index: 3, Amount: 5000000})
		tb.AddOutputs(tx.NewTxOutput(to, 1000000))
		tb.SetTTL(77)
		tb.Tx().Metadata = md
		tb.AddChangeIfNeeded(ch)
		b, err := tb.Build()
		if err != nil {
			return "", err
		}
		return b.Hex()
	}
	ops = append(ops,
		raceOp{"key", func() string {
			k, err := bip32.NewXPrv(append([]byte{}, seed...))
			if err != nil {
				return "wrong: " + err.Error()
			}
			c := k.Derive(idx)
			s := c.Sign(msg)
			return fmt.Sprintf("%x %x %x", c, s[:], c.Public())
		}},
		raceOp{"hash", func() string { return fmt.Sprintf("%x %x", crypto.Blake2b224(msg), crypto.Blake2b256(msg)) }},
		raceOp{"network", func() string { return fmt.Sprint(*network.MainNet(), *network.TestNet()) }},
		raceOp{"builder", func() string {
			x, err := mkTx()
			if err != nil {
				return "wrong: " + err.Error()
			}
			return x
		}},
		raceOp{"tx", func() string {
			t := tx.NewTx()
			to, err := toS.Build(rand.New(rand.NewPCG(5, 5)))
			if err != nil {
				return "wrong: " + err.Error()
			}
			t.AddInputs(&tx.TxInput{TxHash: append([]byte{}, hash...), Index: 1, Amount: 7})
			t.AddOutputs(tx.NewTxOutput(to, 5))
			t.Metadata = md
			b, err := t.Bytes()
			h, err2 := t.Hash()
			fee, err3 := t.Fee(fees.NewLinearFee(3, 4))
			return fmt.Sprintf("%x %v %x %v %d %v", b, err, h, err2, fee, err3)
		}},
		raceOp{"load-protocol", func() string {
			p, err := protocol.LoadProtocol(f)
			if err != nil {
				return "wrong: " + err.Error()
			}
			return fmt.Sprintf("%+v", *p)
		}},
		raceOp{"node", func() string {
			n := node.NewCardanoCliNode(network.TestNet(), filepath.Join(dir, "absent"))
			_, err := n.QueryTip()
			return fmt.Sprint(err != nil)
		}},
	)
	if r.IntN(4) == 0 {
		ops = append(ops, raceOp{"icarus", func() string { return fmt.Sprintf("%x", bip32.FromBip39Entropy(append([]byte{}, ent...), nil)) }})
	}
	return ops
}

// coldMain is the fresh process. Nothing before the goroutines start uses the library.
func coldMain(seed uint64, dir, out string) {
	r := rand.New(rand.NewPCG(seed, 99))
	os.WriteFile(filepath.Join(dir, "p.json"), []byte(`{"txFeePerByte":44,"txFeeFixed":155381,"maxTxSize":16384,"protocolVersion":{"major":6,"minor":0},"minUTxOValue":1}`), 0o644)
	ops := coldOps(r, dir)
	if r.IntN(2) == 0 { // everybody starts with the same operation
		o := ops[r.IntN(len(ops))]
		ops = []raceOp{o, o, o, o}
	}
	r.Shuffle(len(ops), func(i, j int) { ops[i], ops[j] = ops[j], ops[i] })
	got := make([]string, len(ops))
	at := make([]int64, len(ops))
	start := make(chan struct{})
	var wg sync.WaitGroup
	for i := range ops {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if p := recover(); p != nil {
					got[i] = fmt.Sprintf("wrong: panic %v", p)
				}
			}()
			<-start
			at[i] = time.Now().UnixNano()
			got[i] = ops[i].run()
		}()
	}
	close(start)
	wg.Wait()
	res := coldResult{Bad: []string{}}
	ord := make([]int, len(ops))
	for i, o := range ops {
		ord[i] = i
		res.Ops = append(res.Ops, o.name)
		again := o.run()
		if got[i] != again || strings.HasPrefix(got[i], "wrong") {
			res.Bad = append(res.Bad, fmt.Sprintf("%s: first use gave %s, later use %s", o.name, short(got[i], 300), short(again, 300)))
		}
	}
	sort.Slice(ord, func(a, b int) bool { return at[ord[a]] < at[ord[b]] })
	for _, i := range ord {
		res.Order += ops[i].name + " "
	}
	b, _ := json.Marshal(res)
	if os.WriteFile(out, b, 0o644) != nil {
		os.Exit(3)
	}
}

func coldCase(c *Ctx) {
	self, err := os.Executable()
	must(err)
	dir := filepath.Join(c.m.scratch, fmt.Sprintf("cold-%d", c.Idx))
	must(os.MkdirAll(dir, 0o755))
	defer os.RemoveAll(dir)
	out := filepath.Join(dir, "out.json")
	seed := c.R.Uint64()
	cmd := exec.Command(self, "-cold", fmt.Sprint(seed), "-scratch", dir, "-child", out)
	cmd.Env = append(os.Environ(), "GORACE="+os.Getenv("GORACE")+" atexit_sleep_ms=20")
	b, err := cmd.CombinedOutput()
	c.Log("fresh process with seed %d", seed)
	c.Failif(err != nil, "cold-death", "a fresh process died (%v): %s", err, short(string(b), 2000))
	var res coldResult
	rb, err := os.ReadFile(out)
	must(err)
	must(json.Unmarshal(rb, &res))
	for _, o := range res.Ops {
		c.Ev("cold:" + o)
	}
	c.Case(res.Order, seed)
	c.Failif(len(res.Bad) > 0, "cold-result", "concurrent first use: %s", strings.Join(res.Bad, "; "))
	c.Feat("cold-start")
}
