package main

import (
	"bytes"
	"crypto/ed25519"
	"encoding/hex"
	"fmt"
	"math/bits"
	"math/rand/v2"

	"github.com/fivebinaries/go-cardano-serialization/address"
	"github.com/fivebinaries/go-cardano-serialization/bip32"
	"github.com/fivebinaries/go-cardano-serialization/fees"
	"github.com/fivebinaries/go-cardano-serialization/protocol"
	"github.com/fivebinaries/go-cardano-serialization/tx"
)

func txSetup(m *Monitor) error {
	n := 60
	makeKeyPool(m.seed, n)
	return nil
}

func histStream(name string, quick, thor int, builder bool, on func(h *hist)) Stream {
	return Stream{Name: name, Quick: quick, Thor: thor, Run: func(c *Ctx) {
		h := newHist(c, builder)
		h.dups = c.R.IntN(3) == 0
		on(h)
		n := 2 + c.R.IntN(14)
		for i := 0; i < n; i++ {
			h.step()
			if c.R.IntN(3) == 0 {
				h.observe(h.t, &h.m)
			}
		}
		raw := h.observe(h.t, &h.m)
		c.Case(raw)
		if h.on06 && h.m.meta != nil {
			rebuildCheck(h, raw)
		}
		if h.tb != nil {
			b := h.build()
			bm := h.m
			bm.wit = witOf(b.Witness)
			h.observe(&b, &bm)
		}
		if c.Idx < 3 {
			c.Sample(map[string]any{"history": append([]string{}, c.trace[:min(len(c.trace), 12)]...), "bytes": hx(raw)[:min(200, len(hx(raw)))]})
		}
	}}
}

// rebuildCheck makes the same transaction a second time; it must serialize identically.
func rebuildCheck(h *hist, raw []byte) {
	t := tx.NewTx()
	t.AddInputs(h.t.Body.Inputs...)
	t.AddOutputs(h.t.Body.Outputs...)
	t.Body.TTL, t.Metadata, t.Valid, t.Witness = h.t.Body.TTL, h.t.Metadata, h.t.Valid, h.t.Witness
	t.Body.Fee = h.t.Body.Fee
	r2, err := t.Bytes()
	h.c.Failif(err != nil || !bytes.Equal(raw, r2), "not-a-function-of-contents", "the same contents serialize differently: %s and %s (%v)", hx(raw), hx(r2), err)
	h.c.Ev("rebuilt-identically")
}

func init() {
	ops := []string{"op:add-inputs", "op:add-outputs", "op:set-fee", "op:set-ttl", "op:set-metadata", "op:replace-metadata", "op:clear-metadata", "op:mutate-metadata", "op:set-witness",
		"op:set-valid", "op:query", "op:bytes", "op:build", "op:sign", "op:add-change", "op:minfee", "builder", "plain-tx"}
	outs := []string{"out/base", "out/enterprise", "out/pointer", "out/reward", "out/byron"}

	register(&Property{
		ID:      "C06",
		Boost:   140,
		Rule:    "random operation histories over Tx and TxBuilder mirrored in a model; every serialization is decoded by an own CBOR reader and compared; non-trivial = distinct final serialized transaction",
		Require: append(append([]string{"content-checked", "stable-checked", "rebuilt-identically", "many-inputs", "many-outputs", "repeated-input", "repeated-output", "ttl-zero", "boundary-counts", "long-lists", "nil-metadata"}, ops...), outs...),
		Setup:   txSetup,
		Streams: []Stream{
			histStream("tx-histories", 40000, 800000, false, func(h *hist) { h.on06 = true }),
			histStream("builder-histories", 25000, 500000, true, func(h *hist) { h.on06 = true }),
			// long lists grown in batches of every size
			{Name: "long-lists", Quick: 300, Thor: 6000, Run: func(c *Ctx) {
				r := c.R
				h := newHist(c, r.IntN(2) == 0)
				h.on06 = true
				h.big = h.tb == nil
				target := pick(r, 40, 150, 300, 520, 700, 1100)
				for len(h.m.ins) < target {
					if r.IntN(4) == 0 {
						h.addOutputs(1 + r.IntN(pick(r, 2, 10, 60)))
					}
					h.addInputs(1 + r.IntN(pick(r, 2, 10, 60, 200)))
					if r.IntN(12) == 0 {
						h.observe(h.t, &h.m)
					}
				}
				if r.IntN(2) == 0 {
					for len(h.m.outs) < target {
						h.addOutputs(1 + r.IntN(pick(r, 2, 10, 60)))
					}
				}
				for k := 0; k < 4; k++ {
					h.addInputs(1 + r.IntN(4))
					h.addOutputs(1 + r.IntN(4))
					h.observe(h.t, &h.m)
				}
				c.Feat("long-lists")
				c.Case(h.observe(h.t, &h.m))
			}},
			// one quantity at a time over its boundaries
			{Name: "boundaries", Quick: 4000, Thor: 40000, Run: func(c *Ctx) {
				h := newHist(c, c.R.IntN(2) == 0)
				h.on06 = true
				h.big = h.tb == nil
				cnt := []int{0, 1, 2, 22, 23, 24, 25, 26, 127, 128, 254, 255, 256, 257, 300}
				ni, no := cnt[c.Idx%len(cnt)], cnt[c.Idx/len(cnt)%len(cnt)]
				if ni > 100 && no > 100 && c.Idx > 450 {
					no = 2
				}
				c.Feat("boundary-counts")
				h.addInputs(ni)
				h.addOutputs(no)
				h.m.fee = cborEdges[c.Idx%len(cborEdges)]
				h.t.SetFee(uint(h.m.fee))
				h.m.ttl = uint32(cborEdges[(c.Idx/3)%30])
				h.t.Body.TTL = h.m.ttl
				if c.R.IntN(2) == 0 {
					h.setMeta()
				}
				c.Case(h.observe(h.t, &h.m))
			}},
		},
	})

	register(&Property{
		ID:      "C07",
		Boost:   250,
		Rule:    "the same histories; at every observation the hash is compared with Blake2b-256 of the body found in the serialized bytes and recorded against the contents (same contents = same hash, different contents = different hash); non-trivial = distinct final transaction",
		Require: append([]string{"hash-checked", "hash-stability-checked", "hash-before-bytes", "witness-independence", "sensitivity"}, ops...),
		Setup:   txSetup,
		Streams: []Stream{
			histStream("tx-histories", 40000, 800000, false, func(h *hist) { h.on07 = true }),
			histStream("builder-histories", 25000, 500000, true, func(h *hist) { h.on07 = true }),
			{Name: "one-change", Quick: 40000, Thor: 800000, Run: func(c *Ctx) {
				r := c.R
				h := newHist(c, false)
				h.on07 = true
				h.addInputs(1 + r.IntN(3))
				h.addOutputs(1 + r.IntN(3))
				h.t.SetFee(7)
				h.m.fee = 7
				h.t.Body.TTL = 9
				h.m.ttl = 9
				if r.IntN(2) == 0 {
					h.setMeta()
				}
				// hash before anything was ever serialized
				h0, err := h.t.Hash()
				c.Failif(err != nil, "hash-error", "%v", err)
				h.recordHash(h0, &h.m)
				c.Feat("hash-before-bytes")
				h.observe(h.t, &h.m)
				for i := r.IntN(4); i > 0; i-- {
					h.query(h.t, &h.m)
				}
				h.setWitness()
				h1, _ := h.t.Hash()
				c.Failif(h1 != h0, "witness-changes-hash", "changing witnesses changed the hash from %x to %x", h0, h1)
				h.t.Valid = r.IntN(2) == 0
				c.Ev("witness-independence")
				// a single change of contents
				switch k := r.IntN(8); k {
				case 0:
					h.addInputs(1)
				case 1:
					h.addOutputs(1)
				case 2:
					h.m.fee ^= 1 << r.IntN(61)
					h.t.Body.Fee = h.m.fee
				case 3:
					h.m.ttl ^= 1 << r.IntN(32)
					h.t.Body.TTL = h.m.ttl
				case 4:
					i := r.IntN(len(h.m.outs))
					h.m.outs[i].amt ^= 1 << r.IntN(61)
					h.t.Body.Outputs[i].Amount = uint(h.m.outs[i].amt)
				case 5:
					i := r.IntN(len(h.m.ins))
					h.m.ins[i].ix ^= 1 << r.IntN(16)
					h.t.Body.Inputs[i].Index = h.m.ins[i].ix
				case 6:
					i, j := r.IntN(len(h.m.ins)), r.IntN(32)
					h.m.ins[i].hash = append([]byte{}, h.m.ins[i].hash...)
					h.m.ins[i].hash[j] ^= 1 << r.IntN(8)
					h.t.Body.Inputs[i].TxHash = append([]byte{}, h.m.ins[i].hash...)
				default:
					old := h.m.fp()
					h.setMeta()
					if h.m.fp() == old {
						return
					}
				}
				h2, err := h.t.Hash()
				c.Failif(err != nil, "hash-error", "%v", err)
				c.Failif(h2 == h0, "not-sensitive", "a change of contents left the hash %x unchanged", h0)
				h.recordHash(h2, &h.m)
				c.Ev("sensitivity")
				c.Case(h.observe(h.t, &h.m))
			}},
		},
	})

	register(&Property{
		ID:      "C08",
		Boost:   140,
		Rule:    "metadata values of many shapes attached, replaced, mutated in place and removed at any point of a history; hash in the body compared with Blake2b-256 of the metadata slice of the same bytes; non-trivial = distinct metadata bytes",
		Require: append([]string{"binding-checked", "no-metadata-checked", "many-key-metadata", "unserializable-rejected", "recovered-after-bad", "signed-with-metadata", "nil-metadata", "large-metadata"}, ops...),
		Setup:   txSetup,
		Streams: []Stream{
			histStream("tx-histories", 30000, 600000, false, func(h *hist) { h.on08 = true }),
			histStream("builder-histories", 20000, 400000, true, func(h *hist) { h.on08 = true }),
			{Name: "shapes", Quick: 40000, Thor: 800000, Run: func(c *Ctx) {
				h := newHist(c, c.R.IntN(2) == 0)
				h.on08 = true
				v, n := genTopMeta(c.R)
				if c.Idx%150 == 0 {
					v, n = bigMeta(c.R)
					c.Feat("large-metadata")
				}
				h.t.Metadata, h.m.meta = v, n
				c.Log("metadata %s", short(n.String(), 1000))
				if m, ok := v.(map[uint64]any); ok && len(m) >= 5 {
					c.Feat("many-key-metadata")
				}
				for i := 0; i < 3; i++ {
					raw := h.observe(h.t, &h.m)
					if i == 0 {
						c.Case(parseTx(c, raw).auxRaw)
					}
				}
				if h.tb != nil {
					if len(h.keys) == 0 {
						k := keyPool[0]
						h.tb.Sign(append(bip32.XPrv{}, k.prv...))
						h.keys = append(h.keys, k)
					}
					b := h.build()
					for i := 0; i < 3; i++ {
						raw, err := b.Bytes()
						c.Failif(err != nil, "bytes-error", "%v", err)
						h.m.checkBinding(c, raw)
						checkSigned(c, raw, h.keys)
					}
					c.Ev("signed-with-metadata")
				}
				h.t.Metadata, h.m.meta = nil, nil
				if c.R.IntN(2) == 0 {
					h.t.Metadata = nilMeta(c.R)
					c.Feat("nil-metadata")
				}
				h.observe(h.t, &h.m)
				c.Sample(short(n.String(), 200))
			}},
			{Name: "unserializable", Quick: 8000, Thor: 100000, Run: func(c *Ctx) {
				r := c.R
				h := newHist(c, r.IntN(2) == 0)
				h.on08 = true
				h.addInputs(1)
				h.addOutputs(1)
				if r.IntN(2) == 0 {
					h.setMeta()
					h.observe(h.t, &h.m)
				}
				bad := badMeta(r)
				h.t.Metadata = bad
				c.Log("unserializable %T", bad)
				c.Case(fmt.Sprintf("%T%d", bad, r.IntN(1000)))
				for _, k := range r.Perm(5) {
					var err error
					what := ""
					switch k {
					case 0:
						what = "Bytes"
						_, err = h.t.Bytes()
					case 1:
						what = "Hex"
						_, err = h.t.Hex()
					case 2:
						what = "Hash"
						_, err = h.t.Hash()
					case 3:
						what = "Fee"
						_, err = h.t.Fee(fees.NewLinearFee(44, 1))
					default:
						if h.tb == nil {
							continue
						}
						what = "Build"
						_, err = h.tb.Build()
					}
					c.Failif(err == nil, "unserializable-accepted:"+what, "%s succeeded with unserializable metadata %T", what, bad)
					c.Ev("unserializable-rejected")
				}
				// and afterwards the transaction works again
				h.m.meta, h.liveMap = nil, nil
				h.t.Metadata = nil
				if r.IntN(2) == 0 {
					h.setMeta()
				}
				h.observe(h.t, &h.m)
				c.Ev("recovered-after-bad")
			}},
		},
	})

	register(&Property{
		ID:      "C09",
		Boost:   450,
		Rule:    "builder histories with keys at construction and added in between, building repeatedly; every witness in the serialized result is verified with crypto/ed25519 against a reference public key and the hash of the serialized body; non-trivial = distinct built transaction",
		Require: []string{"signature-verified", "witness-set-checked", "rebuild", "keys=0", "keys=1", "keys=2", "keys=5+", "keys=24+", "keys=200+", "key-added-after-build", "fee-query-before-build", "stale-witness-before-build", "metadata"},
		Setup:   txSetup,
		Streams: []Stream{
			{Name: "build", Quick: 12000, Thor: 250000, Run: func(c *Ctx) {
				r := c.R
				h := newHist(c, true)
				n := pick(r, 0, 1, 1, 1, 2, 2, 3, 4, 5, 8)
				if r.IntN(60) == 0 {
					n = pick(r, 23, 24, 25, 40)
				}
				all := keys(r, n)
				at := r.IntN(n + 1)
				h.keys = append([]keyRef{}, all[:at]...)
				init := xprvs(h.keys)
				if at == 0 && r.IntN(2) == 0 {
					init = nil
				}
				h.tb = tx.NewTxBuilder(h.pr, init)
				h.t = h.tb.Tx()
				rest := all[at:]
				c.Feat(keyClass(n))
				builds := 0
				for steps := 3 + r.IntN(8) + len(rest); steps > 0; steps-- {
					if len(rest) > 0 && r.IntN(2) == 0 {
						h.tb.Sign(append(bip32.XPrv{}, rest[0].prv...))
						h.keys = append(h.keys, rest[0])
						rest = rest[1:]
						c.Log("sign")
						if builds > 0 {
							c.Feat("key-added-after-build")
						}
						continue
					}
					switch r.IntN(9) {
					case 0:
						h.addInputs(1 + r.IntN(2))
					case 1:
						h.addOutputs(1 + r.IntN(2))
					case 2:
						h.tb.SetTTL(u32(r))
					case 3:
						h.setMeta()
						c.Feat("metadata")
					case 4:
						h.t.SetFee(uint(lovelace(r)))
					case 5:
						h.tb.MinFee()
						c.Feat("fee-query-before-build")
						c.Log("minfee")
					case 6:
						h.tb.AddChangeIfNeeded(genAddr(r).Must(c))
						c.Feat("fee-query-before-build")
						c.Log("add change")
					case 7:
						h.setWitness()
						c.Feat("stale-witness-before-build")
					default:
						b := h.build()
						raw, err := b.Bytes()
						c.Failif(err != nil, "bytes-error", "%v", err)
						checkSigned(c, raw, h.keys)
						builds++
						if builds > 1 {
							c.Feat("rebuild")
						}
					}
				}
				for _, k := range rest {
					h.tb.Sign(append(bip32.XPrv{}, k.prv...))
					h.keys = append(h.keys, k)
				}
				b := h.build()
				raw, err := b.Bytes()
				c.Failif(err != nil, "bytes-error", "%v", err)
				checkSigned(c, raw, h.keys)
				c.Case(raw)
				hs, err := b.Hex()
				c.Failif(err != nil || hs != hex.EncodeToString(raw), "hex", "hex of the built transaction differs from its bytes")
				if b2, err := h.tb.Build(); err == nil {
					raw2, _ := b2.Bytes()
					c.Failif(!bytes.Equal(raw, raw2), "rebuild-differs", "building twice without changes gives different bytes")
				}
				c.Sample(map[string]any{"keys": len(h.keys), "tx": hx(raw)[:min(160, len(hx(raw)))]})
			}},
			{Name: "many-keys", Quick: 40, Thor: 600, Run: func(c *Ctx) {
				r := c.R
				n := pick(r, 100, 127, 128, 129, 200, 254, 255, 256, 257, 300, 511, 512, 513, 600)
				if c.Idx < 4 {
					n = []int{255, 256, 257, 513}[c.Idx]
				}
				h := feeHistKeys(c, n)
				h.addInputs(1 + r.IntN(3))
				h.addOutputs(1 + r.IntN(3))
				changeOnce(h, genAddr(r), "")
				b := h.build()
				raw, err := b.Bytes()
				c.Failif(err != nil, "bytes-error", "%v", err)
				checkSigned(c, raw, h.keys)
				c.Case(raw)
			}},
		},
	})

	register(&Property{
		ID:      "C10",
		Boost:   300,
		Rule:    "inputs, outputs and fee parameters placed around the point where inputs equal outputs plus fee (the fee learned from a first run), in deficit and in large surplus, one or several change calls per history; non-trivial = distinct (inputs, outputs, parameters, result)",
		Require: []string{"covered", "deficit", "exact-balance", "change-added", "no-change-added", "near-fee", "second-change", "big-surplus", "zero-inputs", "unbalanced-before", "outputs-above-64-bits", "input-repeated", "output-repeated", "change/of-output", "change/base", "change/byron", "change/pointer", "change/enterprise", "change/reward"},
		Setup:   txSetup,
		Streams: []Stream{
			{Name: "scenarios", Quick: 60000, Thor: 1500000, Run: func(c *Ctx) { changeCase(c, false) }},
			{Name: "near-fee", Quick: 60000, Thor: 1500000, Run: func(c *Ctx) { changeCase(c, true) }},
			{Name: "outputs-above-64-bits", Quick: 5000, Thor: 100000, Run: func(c *Ctx) {
				r := c.R
				h := feeHist(c)
				var wrapped, carry uint64
				for carry == 0 {
					a := pick(r, 1<<63, 1<<64-1, 1<<64-1-lovelace(r), 1<<63+lovelace(r), 1<<62, r.Uint64())
					if carry == 0 && wrapped > 0 && r.IntN(2) == 0 {
						a = -wrapped + uint64(r.IntN(2000000)) // wraps to a small sum
					}
					addOut(h, genAddr(r), a)
					wrapped, carry = bits.Add64(wrapped, a, 0)
				}
				for i := r.IntN(3); i > 0; i-- {
					addOut(h, genAddr(r), lovelace(r)>>8)
				}
				room := uint64(1<<64 - 1)
				for i := 1 + r.IntN(3); i > 0; i-- {
					a := pick(r, lovelace(r), wrapped, wrapped+uint64(r.IntN(1000000)), room, r.Uint64())
					if a > room {
						a = room
					}
					room -= a
					addIn(h, a)
				}
				before := bodyFP(h.t.Body)
				n := len(h.t.Body.Outputs)
				c.Log("outputs exceed 64 bits: %s", before)
				h.tb.AddChangeIfNeeded(genAddr(r).Must(c))
				c.Ev("change-call")
				c.Failif(len(h.t.Body.Outputs) != n, "minted", "outputs of more than 2^64 lovelace cannot be covered, yet an output of %d was added", h.t.Body.Outputs[len(h.t.Body.Outputs)-1].Amount)
				c.Feat("outputs-above-64-bits")
				c.Case(before)
			}},
			{Name: "histories", Quick: 15000, Thor: 300000, Run: func(c *Ctx) {
				r := c.R
				h := newHist(c, true)
				for n := 2 + r.IntN(10); n > 0; n-- {
					switch r.IntN(5) {
					case 0:
						if n := len(h.t.Body.Inputs); n > 0 && r.IntN(4) == 0 { // one input listed twice
							in := h.t.Body.Inputs[pick(r, n-1, r.IntN(n))]
							if I, _ := totals(h.t.Body); I+uint64(in.Amount) >= I {
								h.tb.AddInputs(in)
								c.Feat("input-repeated")
							}
							break
						}
						h.addInputs(1 + r.IntN(2))
					case 1:
						if n := len(h.t.Body.Outputs); n > 0 && r.IntN(4) == 0 {
							h.tb.AddOutputs(h.t.Body.Outputs[pick(r, n-1, r.IntN(n))])
							c.Feat("output-repeated")
							break
						}
						h.addOutputs(1 + r.IntN(2))
					case 2:
						h.setMeta()
					case 3:
						h.t.SetFee(uint(lovelace(r) >> 4))
					default:
						changeOnce(h, genAddr(r), "")
					}
				}
				changeOnce(h, genAddr(r), "")
				c.Case(bodyFP(h.t.Body))
			}},
		},
	})

	register(&Property{
		ID:      "C11",
		Boost:   150,
		Rule:    "transactions of varied size with fee parameters chosen so that fees sit at encoded-width boundaries; reported fees compared with the formula on the actual serialized length; non-trivial = distinct (parameters, transaction)",
		Require: []string{"fee-formula", "change-fee", "min-fee", "width-crossing", "keys=0", "keys=1", "keys=2", "keys=5+", "metadata", "change-added", "remainder-left-to-fee", "deficit", "change/base", "change/byron", "change/pointer", "change/enterprise", "change/reward", "per-byte-zero", "key-registered-after-change", "key-registered-after-build", "large-transaction"},
		Setup:   txSetup,
		Streams: []Stream{
			{Name: "formula", Quick: 40000, Thor: 800000, Run: func(c *Ctx) {
				r := c.R
				h := newHist(c, false)
				for n := r.IntN(8); n > 0; n-- {
					h.step()
				}
				if c.Idx%200 == 0 {
					h.t.Metadata, h.m.meta = bigMeta(r)
					c.Feat("large-transaction")
				}
				a, b := pick(r, uint(44), uint(r.IntN(100000)), 0), uint(lovelace(r))
				got, err := h.t.Fee(fees.NewLinearFee(a, b))
				c.Failif(err != nil, "fee-error", "%v", err)
				raw, err := h.t.Bytes()
				c.Failif(err != nil, "bytes-error", "%v", err)
				c.Case(raw, a, b)
				want := uint64(b) + uint64(a)*uint64(len(raw))
				c.Failif(uint64(got) != want, "formula", "fee %d for %d bytes at %d+%d*len, want %d", got, len(raw), b, a, want)
				got2, _ := h.t.Fee(&fees.LinearFee{TxFeePerByte: a, TxFeeFixed: b})
				c.Failif(got2 != got, "formula-unstable", "fee %d then %d", got, got2)
				c.Ev("fee-formula")
			}},
			{Name: "change-fee", Quick: 60000, Thor: 1200000, Run: feeCase},
			{Name: "min-fee", Quick: 40000, Thor: 800000, Run: func(c *Ctx) {
				r := c.R
				h := feeHist(c)
				h.addInputs(pick(r, 0, 1, 2, 22, 23, 24))
				h.addOutputs(pick(r, 0, 1, 2, 22, 23, 24))
				if r.IntN(2) == 0 {
					h.setMeta()
					c.Feat("metadata")
				}
				if c.Idx%300 == 0 {
					h.t.Metadata, h.m.meta = bigMeta(r)
				}
				h.tb.SetTTL(u32(r))
				if r.IntN(3) == 0 { // balanced transaction
					balance(h)
				}
				if r.IntN(4) == 0 {
					h.t.SetFee(uint(lovelace(r)))
				}
				if r.IntN(6) == 0 && len(h.keys) > 0 {
					h.build() // fee asked for a second time, witnesses present
					moreKeys(h)
				}
				f := h.tb.MinFee()
				c.Ev("min-fee")
				if r.IntN(2) == 0 {
					h.t.SetFee(f)
				} else {
					h.t.Body.Fee = uint64(f)
				}
				b := h.build()
				raw, err := b.Bytes()
				c.Failif(err != nil, "bytes-error", "%v", err)
				c.Case(raw, h.pr.TxFeePerByte, h.pr.TxFeeFixed)
				need := uint64(h.pr.TxFeeFixed) + uint64(h.pr.TxFeePerByte)*uint64(len(raw))
				c.Failif(uint64(f) < need, "minfee-too-low", "MinFee %d but the transaction built with it (%d bytes, %d keys) needs %d (%d + %d/byte)", f, len(raw), len(h.keys), need, h.pr.TxFeeFixed, h.pr.TxFeePerByte)
			}},
		},
	})

	registerC12()
}

func keyClass(n int) string {
	switch {
	case n >= 200:
		return "keys=200+"
	case n >= 24:
		return "keys=24+"
	case n >= 5:
		return "keys=5+"
	}
	return fmt.Sprintf("keys=%d", n)
}

func totals(b *tx.TxBody) (in, out uint64) {
	for _, i := range b.Inputs {
		in += uint64(i.Amount)
	}
	for _, o := range b.Outputs {
		out += uint64(o.Amount)
	}
	return
}

// changeOnce adds change and applies the conservation oracle.
func changeOnce(h *hist, s AddrSpec, feat string) {
	c := h.c
	a := s.Must(c)
	want, kind := s.Bytes(), kindNames[s.Kind]
	if n := len(h.t.Body.Outputs); n > 0 && c.R.IntN(4) == 0 { // change to an address that is already being paid
		i := n - 1
		if c.R.IntN(2) == 0 {
			i = c.R.IntN(n)
		}
		a = h.t.Body.Outputs[i].Address
		want, kind = a.Bytes(), "of-output"
		if c.R.IntN(3) == 0 {
			h.t.Body.Outputs[n-1].Address = a
		}
		c.Log("change goes to the address of output %d", i)
	}
	var before []string
	for _, o := range h.t.Body.Outputs {
		before = append(before, fmt.Sprintf("%x=%d", o.Address.Bytes(), o.Amount))
	}
	inFP := inputsFP(h.t.Body)
	I, O := totals(h.t.Body)
	if I < O {
		c.Feat("unbalanced-before")
	}
	c.Log("before: inputs %d outputs %d (%d outputs) fee params %d+%d/byte, %d keys, change to %s", I, O, len(before), h.pr.TxFeeFixed, h.pr.TxFeePerByte, len(h.keys), short(s.Desc(), 60))
	h.tb.AddChangeIfNeeded(a)
	c.Ev("change-call")
	b := h.tb.Tx().Body
	F := b.Fee
	c.Log("after: fee %d, %d outputs", F, len(b.Outputs))
	c.Failif(len(b.Outputs) < len(before) || len(b.Outputs) > len(before)+1, "output-count", "adding change turned %d outputs into %d", len(before), len(b.Outputs))
	for i, o := range before {
		got := fmt.Sprintf("%x=%d", b.Outputs[i].Address.Bytes(), b.Outputs[i].Amount)
		c.Failif(got != o, "output-changed", "output %d changed from %s to %s", i, o, got)
	}
	c.Failif(inputsFP(b) != inFP, "inputs-changed", "adding change altered the inputs")
	added := len(b.Outputs) == len(before)+1
	sum, carry := bits.Add64(O, F, 0)
	covers := carry == 0 && I >= sum
	if !covers {
		c.Feat("deficit")
		c.Failif(added, "minted", "inputs %d do not cover outputs %d plus fee %d, yet an output of %d was added", I, O, F, func() uint64 {
			if added {
				return uint64(b.Outputs[len(before)].Amount)
			}
			return 0
		}())
		return
	}
	c.Feat("covered")
	_, O2 := totals(b)
	c.Failif(I != O2+F, "not-balanced", "inputs %d, outputs %d, fee %d: %d unaccounted", I, O2, F, int64(I-O2-F))
	if added {
		c.Feat("change-added")
		c.Feat("change/" + kind)
		o := b.Outputs[len(before)]
		c.Failif(o.Amount == 0, "zero-change", "a change output of zero was added")
		c.Failif(!bytes.Equal(o.Address.Bytes(), want), "change-address", "change paid to %x, want %x", o.Address.Bytes(), want)
		c.Failif(uint64(o.Amount) > I, "minted", "change %d exceeds the inputs %d", o.Amount, I)
	} else {
		c.Feat("no-change-added")
		c.Feat("exact-balance")
	}
	// conservation as serialized
	raw, err := h.tb.Tx().Bytes()
	c.Failif(err != nil, "bytes-error", "%v", err)
	p := parseTx(c, raw)
	var so uint64
	for _, o := range p.body.uintKey(1).Arr {
		so += o.Arr[1].Val
	}
	c.Failif(I != so+p.body.uintKey(2).Val, "not-balanced-serialized", "inputs %d, serialized outputs %d and fee %d do not balance", I, so, p.body.uintKey(2).Val)
	c.Ev("conservation-checked")
}

func inputsFP(b *tx.TxBody) string {
	s := ""
	for _, i := range b.Inputs {
		s += fmt.Sprintf("%x#%d=%d;", i.TxHash, i.Index, i.Amount)
	}
	return s
}

// feeHist is a builder with varied parameters and keys, empty.
func feeHist(c *Ctx) *hist { return feeHistKeys(c, -1) }

func feeHistKeys(c *Ctx, n int) *hist {
	r := c.R
	h := newHist(c, true)
	switch r.IntN(5) {
	case 0:
		h.pr.TxFeePerByte, h.pr.TxFeeFixed = 44, 155381
	case 1: // fee near an encoded-width boundary for a few hundred bytes
		h.pr.TxFeePerByte = uint(1 + r.IntN(3))
		edge := pick(r, 24, 256, 65536, 1<<32)
		c.Feat("width-crossing")
		h.pr.TxFeeFixed = uint(max(0, edge-int(h.pr.TxFeePerByte)*(150+r.IntN(500))))
	case 2:
		h.pr.TxFeePerByte, h.pr.TxFeeFixed = 0, uint(pick(r, 0, 1, 23, 24, 255, 256, 65535, 65536, 1<<32-1, 1<<32))
		c.Feat("per-byte-zero")
	case 3:
		h.pr.TxFeePerByte, h.pr.TxFeeFixed = uint(r.IntN(1000000)), uint(r.IntN(1<<33))
	default:
		h.pr.TxFeePerByte, h.pr.TxFeeFixed = uint(r.IntN(500)), uint(r.IntN(400000))
	}
	if n < 0 {
		n = pick(r, 0, 1, 1, 1, 2, 3, 5, 6)
		if r.IntN(80) == 0 {
			n = pick(r, 23, 24, 30)
		}
		if r.IntN(1500) == 0 {
			n = pick(r, 100, 255, 256, 300)
		}
	}
	h.keys = keys(r, n)
	c.Feat(keyClass(n))
	pre := r.IntN(n + 1)
	h.tb = tx.NewTxBuilder(h.pr, xprvs(h.keys[:pre]))
	for _, k := range h.keys[pre:] {
		h.tb.Sign(append(bip32.XPrv{}, k.prv...))
	}
	h.t = h.tb.Tx()
	c.Log("params %d+%d/byte, %d keys", h.pr.TxFeeFixed, h.pr.TxFeePerByte, n)
	return h
}

func addIn(h *hist, amt uint64) {
	r := h.c.R
	hash := hbytes(r, 32)
	h.tb.AddInputs(tx.NewTxInput(hex.EncodeToString(hash), u16(r), uint(amt)))
}

func addOut(h *hist, s AddrSpec, amt uint64) {
	h.tb.AddOutputs(tx.NewTxOutput(s.Must(h.c), uint(amt)))
}

// balance sets the amounts so that inputs equal outputs.
func balance(h *hist) {
	I, O := totals(h.t.Body)
	if I > O {
		addOut(h, genAddr(h.c.R), I-O)
	} else if O > I {
		addIn(h, O-I)
	}
}

// changeCase: one builder, amounts placed by scenario.
func changeCase(c *Ctx, near bool) {
	r := c.R
	h := feeHist(c)
	s := genAddr(r)
	nOut := pick(r, 0, 1, 1, 2, 3, 23, 24)
	nIn := pick(r, 0, 1, 1, 1, 2, 3, 23, 24)
	outs := make([]uint64, nOut)
	addrs := make([]AddrSpec, nOut)
	var O uint64
	for i := range outs {
		outs[i] = lovelace(r) >> 8
		addrs[i] = genAddr(r)
		O += outs[i]
	}
	meta := r.IntN(4) == 0
	var mv any
	if meta {
		mv, _ = genTopMeta(r)
	}
	ttl := u32(r)
	fill := func(h *hist, total uint64) {
		rem := total
		for i := 0; i < nIn; i++ {
			a := rem
			if i < nIn-1 && rem > 0 {
				a = r.Uint64N(rem + 1)
			}
			addIn(h, a)
			rem -= a
		}
		for i := range outs {
			addOut(h, addrs[i], outs[i])
		}
		h.tb.SetTTL(ttl)
		if meta {
			h.t.Metadata = mv
		}
	}
	var total uint64
	if near && nIn > 0 {
		// learn the fee of such a transaction, then sit around it
		p := &hist{c: c, pr: h.pr, keys: h.keys}
		p.tb = tx.NewTxBuilder(h.pr, xprvs(h.keys))
		p.t = p.tb.Tx()
		fill(p, O)
		probe := p.tb.MinFee()
		if r.IntN(2) == 0 {
			p2 := &hist{c: c, pr: h.pr, keys: h.keys}
			p2.tb = tx.NewTxBuilder(h.pr, xprvs(h.keys))
			p2.t = p2.tb.Tx()
			fill(p2, O+1<<40)
			p2.tb.AddChangeIfNeeded(s.Must(c))
			probe = uint(p2.t.Body.Fee)
		}
		d := int64(pick(r, 0, 1, 2, 3, 5, 8, 16, 24, 64, 255, 256))
		if r.IntN(3) == 0 {
			d = int64(r.IntN(200)) * int64(h.pr.TxFeePerByte)
		} else if r.IntN(3) == 0 {
			d = int64(r.IntN(100))
		}
		if r.IntN(2) == 0 {
			d = -d
		}
		t := int64(O) + int64(probe) + d
		if t < 0 {
			t = 0
		}
		total = uint64(t)
		c.Feat("near-fee")
	} else {
		switch r.IntN(6) {
		case 0:
			total = O
		case 1:
			total = O - min(O, lovelace(r)>>8)
		case 2:
			total = O + lovelace(r)>>4
			c.Feat("big-surplus")
		case 3:
			total = O + uint64(r.IntN(400000))
		case 4:
			total = O + uint64(r.IntN(3000))
		default:
			total = lovelace(r) >> 4
		}
	}
	if nIn == 0 {
		c.Feat("zero-inputs")
	}
	fill(h, total)
	if r.IntN(5) == 0 {
		h.t.SetFee(uint(lovelace(r)))
	}
	if r.IntN(5) == 0 {
		h.tb.MinFee()
	}
	changeOnce(h, s, "")
	c.Case(bodyFP(h.t.Body), h.pr.TxFeeFixed, h.pr.TxFeePerByte)
	if r.IntN(3) == 0 {
		c.Feat("second-change")
		if r.IntN(2) == 0 {
			addIn(h, lovelace(r)>>8)
		}
		if r.IntN(3) == 0 {
			addOut(h, genAddr(r), lovelace(r)>>10)
		}
		changeOnce(h, genAddr(r), "")
	}
	c.Sample(map[string]any{"params": fmt.Sprint(h.pr.TxFeeFixed, "+", h.pr.TxFeePerByte), "body": short(bodyFP(h.t.Body), 300)})
}

// feeCase: the fee set with the change is enough and not more than the slack allows.
// moreKeys registers further keys with a builder that was built before.
func moreKeys(h *hist) {
	for n := h.c.R.IntN(4); n > 0; n-- {
		k := keyPool[h.c.R.IntN(len(keyPool))]
		h.tb.Sign(append(bip32.XPrv{}, k.prv...))
		h.keys = append(h.keys, k)
		h.c.Feat("key-registered-after-build")
	}
}

func feeCase(c *Ctx) {
	r := c.R
	h := feeHist(c)
	s := genAddr(r)
	nOut := pick(r, 0, 1, 1, 2, 3, 22, 23, 24)
	if r.IntN(100) == 0 {
		nOut = pick(r, 254, 255, 256)
	}
	var O uint64
	for i := 0; i < nOut; i++ {
		v := lovelace(r) >> 8
		addOut(h, genAddr(r), v)
		O += v
	}
	var surplus uint64
	switch r.IntN(4) {
	case 0: // a few lovelace around encoded-width steps of the change amount
		surplus = pick(r, uint64(24), 256, 65536, 1<<32) + uint64(h.pr.TxFeeFixed) + uint64(h.pr.TxFeePerByte)*(200+uint64(r.IntN(600)))
	case 1:
		surplus = uint64(h.pr.TxFeeFixed) + uint64(r.IntN(2000))*uint64(h.pr.TxFeePerByte)
	case 2:
		surplus = 0
	default:
		surplus = lovelace(r) >> 6
	}
	nIn := pick(r, 1, 1, 2, 3, 22, 23, 24)
	rem := O + surplus
	for i := 0; i < nIn; i++ {
		a := rem
		if i < nIn-1 && rem > 0 {
			a = r.Uint64N(rem + 1)
		}
		addIn(h, a)
		rem -= a
	}
	h.tb.SetTTL(u32(r))
	if r.IntN(3) == 0 {
		h.setMeta()
		c.Feat("metadata")
	}
	if c.Idx%300 == 0 {
		h.t.Metadata, h.m.meta = bigMeta(r)
	}
	if r.IntN(4) == 0 {
		h.t.SetFee(uint(lovelace(r)))
	}
	if r.IntN(6) == 0 && len(h.keys) > 0 {
		h.build()
		moreKeys(h)
	}
	n := len(h.t.Body.Outputs)
	h.tb.AddChangeIfNeeded(s.Must(c))
	c.Ev("change-fee")
	late := false
	if len(h.keys) == 0 && r.IntN(2) == 0 { // the documented flow: change first, then sign with one key
		k := keyPool[r.IntN(len(keyPool))]
		h.tb.Sign(append(bip32.XPrv{}, k.prv...))
		late = true
		c.Feat("key-registered-after-change")
	}
	b := h.build()
	raw, err := b.Bytes()
	c.Failif(err != nil, "bytes-error", "%v", err)
	F := b.Body.Fee
	lin := func(l int) uint64 { return uint64(h.pr.TxFeeFixed) + uint64(h.pr.TxFeePerByte)*uint64(l) }
	c.Case(raw, h.pr.TxFeePerByte, h.pr.TxFeeFixed)
	c.Log("fee %d for %d bytes; surplus %d", F, len(raw), surplus)
	c.Failif(F < lin(len(raw)), "fee-too-low", "fee %d set when change was added, but the built transaction (%d bytes, %d keys, change to %s) needs %d (%d + %d/byte)", F, len(raw), len(h.keys), kindNames[s.Kind], lin(len(raw)), h.pr.TxFeeFixed, h.pr.TxFeePerByte)
	added := len(b.Body.Outputs) == n+1
	if len(h.keys) == 0 && !late {
		return // room for the one signature the transaction cannot do without
	}
	switch {
	case added:
		c.Feat("change-added")
		c.Feat("change/" + kindNames[s.Kind])
		c.Failif(F > lin(len(raw)+16), "fee-too-high", "fee %d set when change was added, but the built transaction (%d bytes, %d keys) needs only %d (%d + %d/byte)", F, len(raw), len(h.keys), lin(len(raw)), h.pr.TxFeeFixed, h.pr.TxFeePerByte)
	case surplus >= F:
		c.Feat("remainder-left-to-fee")
		out := 1 + len(cborBytes(s.Bytes())) + 9 + 2
		c.Failif(F > lin(len(raw)+out+16), "remainder-too-high", "fee %d swallowed a remainder that could have paid for its change output (%d bytes need %d)", F, len(raw), lin(len(raw)))
	default:
		c.Feat("deficit")
		out := 1 + len(cborBytes(s.Bytes())) + 9 + 2
		c.Failif(F > lin(len(raw)+out+16), "fee-too-high", "in deficit the fee was set to %d, the transaction (%d bytes) needs %d", F, len(raw), lin(len(raw)))
	}
	c.Sample(map[string]any{"fee": F, "bytes": len(raw), "needed": lin(len(raw)), "keys": len(h.keys), "change": kindNames[s.Kind]})
}

// scramble changes some of the bytes of b, in one of several ways.
func scramble(r *rand.Rand, b []byte) {
	if len(b) == 0 {
		return
	}
	switch r.IntN(5) {
	case 0:
		for i := range b {
			b[i] ^= byte(1 + r.IntN(255))
		}
	case 1:
		b[r.IntN(len(b))] ^= byte(1 + r.IntN(255))
	case 2: // everything but the header
		for i := 1; i < len(b); i++ {
			b[i] ^= 0xff
		}
	case 3:
		b[len(b)-1] ^= byte(1 << r.IntN(8))
	default:
		i := r.IntN(len(b))
		for j := i; j < len(b); j++ {
			b[j]++
		}
	}
}

// frozen checks that an address does not share what it returns.
func frozen(c *Ctx, a address.Address, what string) {
	b := a.Bytes()
	want := append([]byte{}, b...)
	text := a.String()
	for i := 0; i < 2; i++ {
		scramble(c.R, b)
		if m, err := a.MarshalCBOR(); err == nil {
			scramble(c.R, m)
		}
		b2 := a.Bytes()
		c.Failif(!bytes.Equal(b2, want) || a.String() != text, "result-shared:"+what, "changing returned bytes changed the address %s from %x to %x", text, want, b2)
		b = b2
	}
}

func registerC12() {
	register(&Property{
		ID:      "C12",
		Boost:   250,
		Rule:    "values are fingerprinted, then the inputs they came from, the results they returned and sibling objects are modified, and the fingerprint is compared; non-trivial = distinct object bytes",
		Require: []string{"input-scribbled", "result-scribbled", "queries-pure", "builders-independent", "built-tx-frozen", "derive-pure", "sign-pure", "conversion-independent", "hash-input-pure", "two-built", "pubkey-independent", "fee-params-independent", "builder-witness-edited", "builder-output-edited", "builder-bytes-overwritten", "decoded-twice", "repeat-independent"},
		Setup:   txSetup,
		Streams: []Stream{
			{Name: "address", Quick: 100000, Thor: 2000000, Run: func(c *Ctx) {
				r := c.R
				s := genAddr(r)
				in := s.Bytes()
				full := append(append(make([]byte, 0, len(in)+64), in...), rbytes(r, 40)...) // the input is part of a larger buffer
				c.Case(in)
				c.Log("%s", s.Desc())
				var a address.Address
				var err error
				if s.Kind == kByron && r.IntN(3) == 0 {
					var by address.ByronAddress
					err = by.UnmarshalCBOR(full[:len(in)])
					a = &by
				} else {
					a, err = address.NewAddressFromBytes(full[:len(in)])
				}
				c.Failif(err != nil, "valid-rejected", "%v", err)
				c.Failif(!bytes.Equal(full[:len(in)], in), "decode-changed-input", "decoding changed its input")
				text := a.String()
				scramble(r, full[:len(in)])
				scramble(r, full[len(in):])
				c.Ev("input-scribbled")
				c.Failif(!bytes.Equal(a.Bytes(), s.Bytes()) || a.String() != text, "input-shared:"+kindNames[s.Kind], "changing the decoded byte slice changed the address from %s to %s", text, a.String())
				frozen(c, a, kindNames[s.Kind])
				b := a.Bytes()
				_ = append(b, 1, 2, 3)
				scramble(r, b)
				m, err := a.MarshalCBOR()
				if err == nil {
					scramble(r, m)
				}
				if ni := a.NetworkInfo(); s.Kind == kByron && ni != nil {
					ni.NetworkId ^= 1
				}
				c.Ev("result-scribbled")
				c.Failif(!bytes.Equal(a.Bytes(), s.Bytes()) || a.String() != text, "result-shared:"+kindNames[s.Kind], "changing returned bytes changed the address from %s to %s", text, a.String())
				if d := s.Matches(a, false); d != "" {
					c.Fail("address-changed", "%s", d)
				}
				if ba, ok := a.(*address.BaseAddress); ok {
					e, w := ba.ToEnterprise(), ba.ToReward()
					eb, wb := e.Bytes(), w.Bytes()
					_, _ = e.String(), w.String()
					frozen(c, e, "converted")
					frozen(c, w, "converted")
					e.Payment.Kind ^= 1
					w.Network.NetworkId ^= 1
					c.Failif(!bytes.Equal(a.Bytes(), s.Bytes()), "conversion-shared", "changing a converted address changed the base address")
					e2, w2 := ba.ToEnterprise(), ba.ToReward()
					c.Failif(!bytes.Equal(e2.Bytes(), eb) || !bytes.Equal(w2.Bytes(), wb), "conversion-shared", "converting again gives another address")
					c.Ev("conversion-independent")
				}
				twinAddr(c, s, a)
				// constructor arguments stay as they were
				n := s.NetInfo()
				p, q := cred(true, s.PayK, s.Pay), cred(true, s.StkK, s.Stk)
				x := address.NewBaseAddress(n, p, q)
				y := address.NewEnterpriseAddress(n, p)
				z := address.NewRewardAddress(n, q)
				xb, yb, zb := x.Bytes(), y.Bytes(), z.Bytes()
				_, _, _ = x.String(), y.String(), z.String()
				frozen(c, x, "built")
				frozen(c, y, "built")
				frozen(c, z, "built")
				xb, yb, zb = x.Bytes(), y.Bytes(), z.Bytes()
				c.Failif(*n != *s.NetInfo() || !credEq(*p, s.PayK, s.Pay) || !credEq(*q, s.StkK, s.Stk), "args-changed", "building or rendering addresses changed the network or credentials")
				n.NetworkId ^= 1
				n.ProtocolMagic++
				c.Failif(!bytes.Equal(x.Bytes(), xb) || !bytes.Equal(y.Bytes(), yb) || !bytes.Equal(z.Bytes(), zb), "network-shared", "changing the network value changed an address built from it")
			}},
			{Name: "keys", Quick: 6000, Thor: 100000, Run: func(c *Ctx) {
				r := c.R
				k := keyPool[r.IntN(len(keyPool))]
				buf := append(append(make([]byte, 0, 200), k.prv...), rbytes(r, 64)...)
				key := bip32.XPrv(buf[:96])
				tail := append([]byte{}, buf[96:]...)
				msg := hbytes(r, r.IntN(100))
				keepMsg := append([]byte{}, msg...)
				chk := func(what string) {
					c.Failif(!bytes.Equal(key, k.prv) || !bytes.Equal(buf[96:], tail), "key-changed:"+what, "%s changed the key or what lies behind it", what)
					c.Failif(!bytes.Equal(msg, keepMsg), "message-changed", "%s changed the message", what)
				}
				idx := pick(r, u32(r), 0x80000000|u32(r), 0, 0x7fffffff, 0x80000000)
				c.Case(k.prv, idx, msg)
				ch := key.Derive(idx)
				chk("Derive")
				want := append([]byte{}, ch...)
				_ = append(ch, 7, 7, 7, 7, 7, 7, 7, 7)
				ch2 := key.Derive(idx)
				c.Failif(!bytes.Equal(ch2, want), "derive-unstable", "deriving twice differs")
				scramble(r, ch)
				chk("changing a derived key")
				c.Failif(!bytes.Equal(ch2, want), "derive-shared", "two derived keys share memory")
				c.Ev("derive-pure")
				sig := key.Sign(msg)
				chk("Sign")
				c.Failif(key.Sign(msg) != sig, "sign-unstable", "signing twice differs")
				c.Ev("sign-pure")
				pub := key.Public()
				chk("Public")
				keepPub := append([]byte{}, pub...)
				_ = pub.PublicKey().Hash()
				_ = append([]byte(pub.PublicKey())[:32:32], 1)
				c.Failif(!bytes.Equal(pub, keepPub), "pub-changed", "hashing the public key changed it")
				scramble(r, pub)
				chk("changing the public key")
				if p3 := key.Public(); !bytes.Equal(p3, keepPub) {
					c.Fail("pub-shared", "changing a returned public key changes the next one from %x to %x", keepPub, p3)
				}
				c.Ev("pubkey-independent")
				bip32.MakePublicKey(key)
				chk("MakePublicKey")
				seed := hbytes(r, 32)
				sb := append(append(make([]byte, 0, 64), seed...), tail[:16]...)
				x, err := bip32.NewXPrv(sb[:32])
				c.Failif(err != nil, "seed-rejected", "%v", err)
				c.Failif(!bytes.Equal(sb[:32], seed) || !bytes.Equal(sb[32:48], tail[:16]), "seed-changed", "NewXPrv changed its seed or what lies behind it")
				keepX := append([]byte{}, x...)
				scramble(r, sb[:32])
				c.Failif(!bytes.Equal(x, keepX), "seed-shared", "changing the seed changed the key")
				scramble(r, x)
				x2, err := bip32.NewXPrv(append([]byte{}, seed...))
				c.Failif(err != nil || !bytes.Equal(x2, keepX), "seed-result-shared", "changing a returned key changes what the same seed gives next: %x %v, was %x", []byte(x2), err, keepX)
				c.Ev("repeat-independent")
				ent, pw := hbytes(r, 16), hbytes(r, 8)
				e2, p2 := append([]byte{}, ent...), append([]byte{}, pw...)
				if r.IntN(20) == 0 {
					root := bip32.FromBip39Entropy(ent, pw)
					keep := append([]byte{}, root...)
					c.Failif(!bytes.Equal(ent, e2) || !bytes.Equal(pw, p2), "entropy-changed", "FromBip39Entropy changed its arguments")
					scramble(r, ent)
					scramble(r, pw)
					c.Failif(!bytes.Equal(root, keep), "entropy-shared", "changing entropy changed the key")
					scramble(r, root)
					again := bip32.FromBip39Entropy(e2, p2)
					c.Failif(!bytes.Equal(again, keep), "entropy-result-shared", "changing a returned root key changes what the same entropy gives next: %x, was %x", []byte(again), keep)
					c.Ev("hash-input-pure")
				}
			}},
			{Name: "queries", Quick: 20000, Thor: 400000, Run: func(c *Ctx) {
				r := c.R
				h := newHist(c, r.IntN(4) != 0)
				for n := 1 + r.IntN(6); n > 0; n-- {
					switch r.IntN(6) {
					case 0, 1:
						h.addInputs(1 + r.IntN(2))
					case 2, 3:
						h.addOutputs(1 + r.IntN(2))
					case 4:
						h.setMeta()
					default:
						h.setWitness()
					}
				}
				raw, err := h.t.Bytes()
				c.Failif(err != nil, "bytes-error", "%v", err)
				c.Case(raw)
				for n := 1 + r.IntN(6); n > 0; n-- {
					h.query(h.t, &h.m)
				}
				raw2, err := h.t.Bytes()
				c.Failif(err != nil || !bytes.Equal(raw, raw2), "query-changed-tx", "fee, hash and rendering queries changed the transaction from %s to %s", hx(raw), hx(raw2))
				for i := range raw2 {
					raw2[i] ^= 0xff
				}
				raw3, err := h.t.Bytes()
				c.Failif(err != nil || !bytes.Equal(raw, raw3), "result-shared:tx", "changing returned transaction bytes changed the transaction")
				c.Ev("queries-pure")
				if h.tb != nil {
					f1 := h.tb.MinFee()
					f2 := h.tb.MinFee()
					c.Failif(f1 != f2, "minfee-unstable", "MinFee gives %d then %d", f1, f2)
				}
			}},
			{Name: "builders", Quick: 8000, Thor: 150000, Run: builderSharing},
			{Name: "built", Quick: 12000, Thor: 250000, Run: builtFrozen},
		},
	})
}

// twinAddr decodes the same bytes again: the two values share nothing the holder of one can change.
func twinAddr(c *Ctx, s AddrSpec, a address.Address) {
	r := c.R
	var b address.Address
	var err error
	if r.IntN(2) == 0 {
		b, err = address.NewAddressFromBytes(s.Bytes())
	} else {
		b, err = address.NewAddress(a.String())
	}
	c.Failif(err != nil || b == nil, "valid-rejected", "%v", err)
	text := a.String()
	edit := func(x address.Address) {
		switch v := x.(type) {
		case *address.BaseAddress:
			v.Payment.Kind ^= 1
			v.Stake.Kind ^= 1
			v.Network.NetworkId ^= 1
			scramble(r, v.Payment.Payload)
			scramble(r, v.Stake.Payload)
		case *address.EnterpriseAddress:
			v.Payment.Kind ^= 1
			v.Network.NetworkId ^= 1
			scramble(r, v.Payment.Payload)
		case *address.RewardAddress:
			v.Stake.Kind ^= 1
			v.Network.NetworkId ^= 1
			scramble(r, v.Stake.Payload)
		case *address.PointerAddress:
			v.Payment.Kind ^= 1
			v.Network.NetworkId ^= 1
			v.Stake.Slot ^= 1
			scramble(r, v.Payment.Payload)
		case *address.ByronAddress:
			scramble(r, v.Hash)
			v.Attributes.Network = nil
			scramble(r, v.Attributes.Payload)
		}
	}
	edit(b)
	c.Failif(!bytes.Equal(a.Bytes(), s.Bytes()) || a.String() != text, "twin-shared:"+kindNames[s.Kind], "editing a second decoding of the same bytes changed the first address from %s to %s", text, a.String())
	d, err := address.NewAddressFromBytes(s.Bytes())
	c.Failif(err != nil || !bytes.Equal(d.Bytes(), s.Bytes()) || d.String() != text, "twin-shared:"+kindNames[s.Kind], "after editing one decoding of %x, decoding it again gives %s (%v), want %s", s.Bytes(), d, err, text)
	c.Ev("decoded-twice")
}

// builderSharing: several builders from one key slice, interleaved, each judged alone.
func builderSharing(c *Ctx) {
	r := c.R
	shared := keys(r, 2+r.IntN(4))
	arr := make([]bip32.XPrv, 0, 16)
	arr = append(arr, xprvs(shared)...)
	n := 2 + r.IntN(2)
	pr := protocol.Protocol{TxFeePerByte: 44, TxFeeFixed: 155381}
	type bst struct {
		tb  *tx.TxBuilder
		ks  []keyRef
		h   *hist
		add []keyRef
	}
	var bs []*bst
	extra := keys(r, 12)
	in, out := &tx.TxInput{TxHash: hbytes(r, 32), Index: 1, Amount: 5000000}, tx.NewTxOutput(genAddr(r).Must(c), 1000000)
	for i := 0; i < n; i++ {
		k := r.IntN(len(shared) + 1)
		b := &bst{tb: tx.NewTxBuilder(pr, arr[:k]), ks: append([]keyRef{}, shared[:k]...)}
		for _, e := range extra[i*4 : i*4+4] {
			dup := false
			for _, s := range b.ks {
				dup = dup || s.pub == e.pub
			}
			if !dup {
				b.add = append(b.add, e)
			}
		}
		b.h = &hist{c: c, tb: b.tb, t: b.tb.Tx(), pr: pr}
		b.h.m.valid = true
		b.tb.AddInputs(in)
		b.tb.AddOutputs(out)
		b.h.m.ins = append(b.h.m.ins, inSpec{in.TxHash, in.Index, uint64(in.Amount)})
		b.h.m.outs = append(b.h.m.outs, outSpec{out.Address.Bytes(), "shared output", uint64(out.Amount)})
		bs = append(bs, b)
	}
	if r.IntN(3) == 0 { // the caller reuses its slice
		for i := range arr {
			if r.IntN(2) == 0 {
				arr[i] = keyPool[r.IntN(len(keyPool))].prv
			}
		}
	}
	for s := 4 + r.IntN(16); s > 0; s-- {
		b := bs[r.IntN(n)]
		switch r.IntN(6) {
		case 0, 1:
			if len(b.add) > 0 {
				b.tb.Sign(append(bip32.XPrv{}, b.add[0].prv...))
				b.ks = append(b.ks, b.add[0])
				b.add = b.add[1:]
			}
		case 2:
			b.h.addInputs(1)
		case 3:
			b.h.addOutputs(1)
		case 4:
			v := u32(r)
			b.tb.SetTTL(v)
			b.h.m.ttl = v
		default:
			b.tb.MinFee()
		}
	}
	for i, b := range bs {
		built, err := b.tb.Build()
		c.Failif(err != nil, "build-error", "%v", err)
		raw, err := built.Bytes()
		c.Failif(err != nil, "bytes-error", "%v", err)
		c.Log("builder %d of %d", i, n)
		checkSigned(c, raw, b.ks)
		m := b.h.m
		m.wit = witOf(built.Witness)
		m.checkContent(c, raw)
		c.Case(raw)
	}
	c.Ev("builders-independent")
	// parameters are per builder
	p2 := pr
	tb := tx.NewTxBuilder(p2, nil)
	f := tb.MinFee()
	p2.TxFeeFixed += 1000000
	c.Failif(tb.MinFee() != f, "params-shared", "changing the protocol value changed a builder")
	c.Ev("fee-params-independent")
}

// builtFrozen: what Build returned does not change when the builder goes on.
func builtFrozen(c *Ctx) {
	r := c.R
	h := newHist(c, true)
	h.addInputs(r.IntN(4))
	h.addOutputs(r.IntN(4))
	if r.IntN(2) == 0 {
		h.setMeta()
	}
	h.tb.SetTTL(u32(r))
	if r.IntN(3) == 0 {
		h.tb.AddChangeIfNeeded(genAddr(r).Must(c))
	}
	type rec struct {
		t    tx.Tx
		raw  []byte
		body []byte // the body alone, before anything is computed again
		h    [32]byte
		ks   []keyRef
	}
	var recs []*rec
	takeOne := func() {
		b := h.build()
		x := &rec{t: b, ks: append([]keyRef{}, h.keys...)}
		var err error
		x.body, err = x.t.Body.Bytes()
		c.Failif(err != nil, "bytes-error", "%v", err)
		x.raw, err = x.t.Bytes()
		c.Failif(err != nil, "bytes-error", "%v", err)
		x.h, _ = x.t.Hash()
		recs = append(recs, x)
	}
	takeOne()
	c.Case(recs[0].raw)
	for n := 1 + r.IntN(8); n > 0; n-- {
		switch r.IntN(14) {
		case 13: // bytes the builder holds, overwritten in place
			if w := h.tb.Tx().Witness; w != nil && len(w.Keys) > 0 && w.Keys[0] != nil {
				scramble(r, w.Keys[r.IntN(len(w.Keys))].VKey)
				scramble(r, w.Keys[r.IntN(len(w.Keys))].Signature)
			}
			b := h.tb.Tx().Body
			scramble(r, b.AuxiliaryDataHash)
			for _, in := range b.Inputs {
				if in != nil && r.IntN(2) == 0 {
					scramble(r, in.TxHash)
				}
			}
			c.Log("builder's bytes overwritten")
			c.Feat("builder-bytes-overwritten")
		case 10:
			if w := h.tb.Tx().Witness; w != nil {
				switch k := r.IntN(4); {
				case k == 0:
					w.Keys = append(w.Keys, tx.NewVKeyWitness(rbytes(r, 32), rbytes(r, 64)))
				case k == 1:
					w.Keys = nil
				case len(w.Keys) > 0 && k == 2:
					w.Keys[r.IntN(len(w.Keys))] = tx.NewVKeyWitness(rbytes(r, 32), rbytes(r, 64))
				case len(w.Keys) > 0:
					w.Keys[r.IntN(len(w.Keys))].Signature = rbytes(r, 64)
				}
				c.Log("builder's witnesses edited")
				c.Feat("builder-witness-edited")
			}
		case 11:
			b := h.tb.Tx().Body
			if k := len(b.Outputs); k > 0 {
				if i := r.IntN(k); r.IntN(2) == 0 {
					b.Outputs[i].Amount = uint(lovelace(r) >> 8)
				} else {
					b.Outputs[i], _ = h.genOutput()
				}
				c.Feat("builder-output-edited")
			}
			if k := len(b.Inputs); k > 0 && r.IntN(2) == 0 {
				if i := r.IntN(k); r.IntN(2) == 0 {
					b.Inputs[i].Index++
				} else {
					b.Inputs[i], _ = h.genInput()
				}
			}
			c.Log("builder's inputs and outputs edited")
		case 0:
			h.addInputs(1 + r.IntN(3))
		case 1:
			h.addOutputs(1 + r.IntN(3))
		case 2:
			h.tb.SetTTL(u32(r))
			c.Log("ttl")
		case 3:
			h.tb.Tx().SetFee(uint(lovelace(r)))
			c.Log("fee")
		case 4:
			h.tb.AddChangeIfNeeded(genAddr(r).Must(c))
			c.Log("add change")
		case 5:
			k := keyPool[r.IntN(len(keyPool))]
			dup := false
			for _, o := range h.keys {
				dup = dup || o.pub == k.pub
			}
			if !dup {
				h.tb.Sign(append(bip32.XPrv{}, k.prv...))
				h.keys = append(h.keys, k)
				c.Log("sign")
			}
		case 6:
			h.tb.Tx().Metadata, _ = genTopMeta(r)
			c.Log("metadata replaced")
			h.liveMap = nil
		case 7:
			h.tb.MinFee()
			c.Log("minfee")
		default:
			takeOne()
			if len(recs) == 2 {
				c.Feat("two-built")
			}
		}
		if r.IntN(3) == 0 {
			h.tb.Tx().Bytes()
		}
	}
	if r.IntN(3) == 0 { // the holder of one built transaction extends it; the builder and its siblings must not notice
		x := recs[r.IntN(len(recs))]
		pre, _ := h.tb.Tx().Bytes()
		cp := x.t
		_ = cp
		in, _ := h.genInput()
		o, _ := h.genOutput()
		before := map[*rec]bool{x: true}
		x.t.Body.Inputs = append(x.t.Body.Inputs, in)
		x.t.Body.Outputs = append(x.t.Body.Outputs, o)
		x.t.Body.Fee++
		scramble(r, x.t.Body.AuxiliaryDataHash)
		for _, in := range x.t.Body.Inputs {
			if in != nil {
				scramble(r, in.TxHash)
			}
		}
		for _, k := range x.t.Witness.Keys {
			scramble(r, k.VKey)
			scramble(r, k.Signature)
		}
		post, _ := h.tb.Tx().Bytes()
		c.Failif(!bytes.Equal(pre, post), "built-shares-with-builder", "changing a built transaction changed the builder's transaction")
		for _, y := range recs {
			if before[y] {
				continue
			}
			yb, _ := y.t.Body.Bytes()
			c.Failif(!bytes.Equal(yb, y.body), "built-shares-with-built", "changing one built transaction changed the body of another")
			yr, _ := y.t.Bytes()
			c.Failif(!bytes.Equal(yr, y.raw), "built-shares-with-built", "changing one built transaction changed another")
		}
		c.Feat("built-extended")
		return
	}
	for i, x := range recs {
		body, err := x.t.Body.Bytes()
		c.Failif(err != nil || !bytes.Equal(body, x.body), "built-tx-changed", "body of built transaction %d of %d changed with its builder: %s, was %s (%v)", i, len(recs), hx(body), hx(x.body), err)
		raw, err := x.t.Bytes()
		c.Failif(err != nil || !bytes.Equal(raw, x.raw), "built-tx-changed", "built transaction %d of %d changed with its builder: %s, was %s (%v)", i, len(recs), hx(raw), hx(x.raw), err)
		hh, _ := x.t.Hash()
		c.Failif(hh != x.h, "built-tx-changed", "hash of built transaction %d changed", i)
		checkSigned(c, raw, x.ks)
		w := parseTx(c, raw).wit.uintKey(0)
		if w != nil && len(w.Arr) > 0 {
			c.Failif(!ed25519.Verify(w.Arr[0].Arr[0].Bytes, x.h[:], w.Arr[0].Arr[1].Bytes), "built-tx-signature", "signature of a built transaction no longer valid")
		}
	}
	c.Ev("built-tx-frozen")
}
