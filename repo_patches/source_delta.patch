From f76927677aca16092569eff265b82ed15b591c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:14 +0000
Subject: [PATCH 01/32] fix: reject empty, short and over-long base address
 bytes instead of panicking or truncating

---
 address/address.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/address/address.go b/address/address.go
index f438de8..d56523f 100644
--- a/address/address.go
+++ b/address/address.go
@@ -55,6 +55,9 @@ func NewAddressFromHex(hexAddr string) (addr Address, err error) {
 }
 
 func NewAddressFromBytes(data []byte) (addr Address, err error) {
+	if len(data) == 0 {
+		return nil, ErrUnsupportedAddress
+	}
 	header := data[0]
 	netId := header & 0x0F
 
@@ -80,6 +83,13 @@ func NewAddressFromBytes(data []byte) (addr Address, err error) {
 	// 0010: base address: keyhash28,scripthash28
 	// 0011: base address: scripthash28,scripthash28
 	case 0b0000, 0b0001, 0b0010, 0b0011:
+		const baseAddrSize = 1 + 28 + 28
+		if len(data) < baseAddrSize {
+			return nil, errors.New("cbor not enough error")
+		}
+		if len(data) > baseAddrSize {
+			return nil, errors.New("cbor trailing data error")
+		}
 		baseAddr := BaseAddress{
 			Network: networks[netId],
 			Payment: *readAddrCred(data, header, 4, 1),
-- 
2.43.0


From 8ded75a6e7f08db09a847f76e1c705692a85476f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:17 +0000
Subject: [PATCH 02/32] fix: reject address bytes with an unknown network id
 instead of treating them as testnet

---
 address/address.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/address/address.go b/address/address.go
index d56523f..301da94 100644
--- a/address/address.go
+++ b/address/address.go
@@ -66,7 +66,12 @@ func NewAddressFromBytes(data []byte) (addr Address, err error) {
 		byte(0): *network.TestNet(),
 	}
 
-	switch (header & 0xF0) >> 4 {
+	addrType := (header & 0xF0) >> 4
+	if _, ok := networks[netId]; !ok && addrType != 0b1000 {
+		return nil, ErrUnsupportedAddress
+	}
+
+	switch addrType {
 	// 1000: byron address
 	case 0b1000:
 		var byron ByronAddress
-- 
2.43.0


From 25f6fb73fc6f8a3e1def1d4139896e4c9ea00874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:17 +0000
Subject: [PATCH 03/32] fix: decoded credentials no longer alias the caller's
 byte slice

---
 address/address.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/address/address.go b/address/address.go
index 301da94..36a12af 100644
--- a/address/address.go
+++ b/address/address.go
@@ -168,7 +168,7 @@ func NewAddressFromBytes(data []byte) (addr Address, err error) {
 }
 
 func readAddrCred(data []byte, header byte, bit byte, pos int) *StakeCredential {
-	hashBytes := data[pos : pos+28]
+	hashBytes := append([]byte{}, data[pos:pos+28]...)
 
 	if header&(1<<bit) == 0 {
 		return NewKeyStakeCredential(
-- 
2.43.0


From 4f2969be8ed27674f824b4a94954ff0dcdb31eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:25 +0000
Subject: [PATCH 04/32] fix: reject variable length numbers above 64 bits and
 non-canonical pointer addresses

---
 address/address.go | 4 ++++
 address/pointer.go | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/address/address.go b/address/address.go
index 36a12af..2fbbb7a 100644
--- a/address/address.go
+++ b/address/address.go
@@ -1,6 +1,7 @@
 package address
 
 import (
+	"bytes"
 	"encoding/hex"
 	"errors"
 	"log"
@@ -133,6 +134,9 @@ func NewAddressFromBytes(data []byte) (addr Address, err error) {
 		}
 
 		res := NewPointerAddress(networks[netId], *paymentCred, *NewPointer(slot, txIndex, certIndex))
+		if !bytes.Equal(res.Bytes(), data) {
+			return nil, errors.New("non-canonical pointer address")
+		}
 		return res, nil
 
 	// 0110: enterprise address: keyhash28
diff --git a/address/pointer.go b/address/pointer.go
index 969a300..fe96aad 100644
--- a/address/pointer.go
+++ b/address/pointer.go
@@ -2,6 +2,7 @@ package address
 
 import (
 	"errors"
+	"math"
 	"reflect"
 
 	"github.com/btcsuite/btcutil/bech32"
@@ -39,6 +40,9 @@ func VariableNatDecode(raw []byte) (uint64, int, error) {
 	output = 0
 	bytes_read := 0
 	for _, rbyte := range raw {
+		if output > math.MaxUint64>>7 {
+			return 0, 0, errors.New("variable length number overflows 64 bits")
+		}
 		output = (output << 7) | uint64(rbyte&0x7F)
 		bytes_read += 1
 		if (rbyte & 0x80) == 0 {
-- 
2.43.0


From e3563872e71a6fdbcdfc9f49fcb96d8f86f07f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:25 +0000
Subject: [PATCH 05/32] fix: render pointer addresses as bech32 text with the
 prefix of their network id

---
 address/pointer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/address/pointer.go b/address/pointer.go
index fe96aad..c0fa69a 100644
--- a/address/pointer.go
+++ b/address/pointer.go
@@ -5,7 +5,7 @@ import (
 	"math"
 	"reflect"
 
-	"github.com/btcsuite/btcutil/bech32"
+	"github.com/fivebinaries/go-cardano-serialization/internal/bech32"
 	"github.com/fivebinaries/go-cardano-serialization/network"
 	"github.com/fxamacker/cbor/v2"
 )
@@ -86,7 +86,7 @@ func (p *PointerAddress) String() string {
 
 // Prefix returns the string prefix for the base address. Prefix `addr` for mainnet addresses and `addr_test` for testnet.
 func (p *PointerAddress) Prefix() string {
-	if p.Network == *network.TestNet() {
+	if p.Network.NetworkId == network.TestNet().NetworkId {
 		return "addr_test"
 	}
 	return "addr"
-- 
2.43.0


From a301dd25761d5c3c435c3e19853fc32b5d4a16ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:26 +0000
Subject: [PATCH 06/32] fix: encode reward addresses to CBOR by value instead
 of by method

---
 address/reward.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/address/reward.go b/address/reward.go
index 3d43b08..68c01e3 100644
--- a/address/reward.go
+++ b/address/reward.go
@@ -30,7 +30,7 @@ func (r *RewardAddress) String() string {
 
 // MarshalCBOR returns a cbor encoded byte slice of the base address.
 func (r *RewardAddress) MarshalCBOR() ([]byte, error) {
-	return cbor.Marshal(r.Bytes)
+	return cbor.Marshal(r.Bytes())
 }
 
 // NetworkInfo returns pointer to NetworkInfo{ProtocolMagigic and NetworkId}.
-- 
2.43.0


From 60776b1d3b861a011e9cf04e0e77f5e274f63836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:26 +0000
Subject: [PATCH 07/32] fix: accept Byron addresses that carry a network magic
 attribute

---
 address/byron.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/address/byron.go b/address/byron.go
index a315579..179e345 100644
--- a/address/byron.go
+++ b/address/byron.go
@@ -16,7 +16,7 @@ var (
 
 type ByronAddressAttributes struct {
 	Payload []byte `cbor:"1,keyasint,omitempty"`
-	Network *uint8 `cbor:"2,keyasint,omitempty"`
+	Network []byte `cbor:"2,keyasint,omitempty"`
 }
 
 type ByronAddress struct {
-- 
2.43.0


From 782b59b9b162d7cb4783e3c1a774e5af7ea04427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:26 +0000
Subject: [PATCH 08/32] fix: reject Byron addresses that cannot be reproduced
 byte for byte

---
 address/byron.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/address/byron.go b/address/byron.go
index 179e345..adb6188 100644
--- a/address/byron.go
+++ b/address/byron.go
@@ -1,6 +1,7 @@
 package address
 
 import (
+	"bytes"
 	"errors"
 	"hash/crc32"
 
@@ -95,11 +96,16 @@ func (b *ByronAddress) UnmarshalCBOR(data []byte) error {
 		return errors.New("")
 	}
 
-	*b = ByronAddress{
+	decoded := ByronAddress{
 		Hash:       byron.Hashed,
 		Attributes: byron.Attrs,
 		Tag:        byron.Tag,
 	}
+	// unknown attributes and non-canonical encodings would be lost
+	if !bytes.Equal(decoded.Bytes(), data) {
+		return ErrInvalidByronAddress
+	}
+	*b = decoded
 
 	return nil
 }
-- 
2.43.0


From 3a449f3b03a324dc750f9a761c37b6e54ceb25e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:27 +0000
Subject: [PATCH 09/32] fix: reject address texts whose prefix or encoding does
 not match the address

---
 address/address.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/address/address.go b/address/address.go
index 2fbbb7a..91f880e 100644
--- a/address/address.go
+++ b/address/address.go
@@ -43,7 +43,15 @@ func NewAddress(raw string) (addr Address, err error) {
 		return
 	}
 
-	return NewAddressFromBytes(data)
+	addr, err = NewAddressFromBytes(data)
+	if err != nil {
+		return
+	}
+
+	if addr.String() != raw {
+		return nil, ErrUnsupportedAddress
+	}
+	return addr, nil
 }
 
 func NewAddressFromHex(hexAddr string) (addr Address, err error) {
-- 
2.43.0


From ac4aa9e190b4feefd35fc5829dcd4197d27c78de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:01:38 +0000
Subject: [PATCH 10/32] fix: reject bytes behind a Byron address instead of
 dropping them

---
 address/address.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/address/address.go b/address/address.go
index 91f880e..70f6597 100644
--- a/address/address.go
+++ b/address/address.go
@@ -89,6 +89,9 @@ func NewAddressFromBytes(data []byte) (addr Address, err error) {
 			log.Println(err)
 			return &byron, err
 		}
+		if !bytes.Equal(byron.Bytes(), data) {
+			return nil, ErrInvalidByronAddress
+		}
 
 		return &byron, nil
 
-- 
2.43.0


From 3cc751511d8b9ec39aec0c30c768ea07a0b1bc4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:02:32 +0000
Subject: [PATCH 11/32] fix: serialize outputs to Byron addresses as byte
 strings

---
 tx/tx_input_output.go | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/tx/tx_input_output.go b/tx/tx_input_output.go
index a1ef170..13efc4f 100644
--- a/tx/tx_input_output.go
+++ b/tx/tx_input_output.go
@@ -2,6 +2,7 @@ package tx
 
 import (
 	"encoding/hex"
+	"errors"
 
 	"github.com/fivebinaries/go-cardano-serialization/address"
 	"github.com/fxamacker/cbor/v2"
@@ -45,6 +46,24 @@ type TxOutput struct {
 	Amount  uint
 }
 
+// MarshalCBOR encodes the output as [address bytes, amount]. The raw bytes of every kind of address,
+// Byron included, are wrapped in a byte string.
+func (txO TxOutput) MarshalCBOR() ([]byte, error) {
+	if txO.Address == nil {
+		return nil, errors.New("transaction output without address")
+	}
+	type arrayOutput struct {
+		_       struct{} `cbor:",toarray"`
+		Address []byte
+		Amount  uint
+	}
+	output := arrayOutput{
+		Address: txO.Address.Bytes(),
+		Amount:  txO.Amount,
+	}
+	return cbor.Marshal(output)
+}
+
 func NewTxOutput(addr address.Address, amount uint) *TxOutput {
 	return &TxOutput{
 		Address: addr,
-- 
2.43.0


From fb81368f199d67d211192943d53f3eac987aebea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:32 +0000
Subject: [PATCH 12/32] fix: keep the metadata hash in step with the serialized
 metadata

---
 tx/tx.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/tx/tx.go b/tx/tx.go
index ca4d583..ab523c6 100644
--- a/tx/tx.go
+++ b/tx/tx.go
@@ -1,6 +1,7 @@
 package tx
 
 import (
+	"bytes"
 	"encoding/hex"
 	"fmt"
 
@@ -9,6 +10,10 @@ import (
 	"golang.org/x/crypto/blake2b"
 )
 
+// detEncMode encodes maps in a fixed key order, so that the metadata hash, the transaction hash
+// and the serialized transaction always agree with each other.
+var detEncMode, _ = cbor.EncOptions{Sort: cbor.SortCanonical}.EncMode()
+
 type Tx struct {
 	_        struct{} `cbor:",toarray"`
 	Body     *TxBody
@@ -31,7 +36,7 @@ func (t *Tx) Bytes() ([]byte, error) {
 	if err := t.CalculateAuxiliaryDataHash(); err != nil {
 		return nil, err
 	}
-	bytes, err := cbor.Marshal(t)
+	bytes, err := detEncMode.Marshal(t)
 	return bytes, err
 }
 
@@ -65,7 +70,7 @@ func (t *Tx) Fee(lfee *fees.LinearFee) (uint, error) {
 	if err := t.CalculateAuxiliaryDataHash(); err != nil {
 		return 0, err
 	}
-	txCbor, err := cbor.Marshal(t)
+	txCbor, err := detEncMode.Marshal(t)
 	if err != nil {
 		return 0, err
 	}
@@ -82,12 +87,16 @@ func (t *Tx) SetFee(fee uint) {
 
 func (t *Tx) CalculateAuxiliaryDataHash() error {
 	if t.Metadata != nil {
-		mdBytes, err := cbor.Marshal(&t.Metadata)
+		mdBytes, err := detEncMode.Marshal(&t.Metadata)
 		if err != nil {
 			return fmt.Errorf("cannot serialize metadata: %w", err)
 		}
 		auxHash := blake2b.Sum256(mdBytes)
-		t.Body.AuxiliaryDataHash = auxHash[:]
+		if !bytes.Equal(t.Body.AuxiliaryDataHash, auxHash[:]) {
+			t.Body.AuxiliaryDataHash = auxHash[:]
+		}
+	} else if t.Body.AuxiliaryDataHash != nil {
+		t.Body.AuxiliaryDataHash = nil
 	}
 	return nil
 }
-- 
2.43.0


From 15ab06399c0cf98e90eede9c886443622ab3139f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:27 +0000
Subject: [PATCH 13/32] fix: MinFee counts the signing keys and leaves no
 placeholder witness behind

---
 tx/tx_builder.go | 50 ++++++++++++++++++++++++++++++------------------
 1 file changed, 31 insertions(+), 19 deletions(-)

diff --git a/tx/tx_builder.go b/tx/tx_builder.go
index 0293270..374bb52 100644
--- a/tx/tx_builder.go
+++ b/tx/tx_builder.go
@@ -79,19 +79,36 @@ func (tb TxBuilder) getTotalInputOutputs() (inputs, outputs uint) {
 
 // MinFee calculates the minimum fee for the provided transaction.
 func (tb TxBuilder) MinFee() (fee uint) {
+	totalI, totalO := tb.getTotalInputOutputs()
+
+	if totalI != (totalO) {
+		inner_addr, _ := address.NewAddress("addr_test1qqe6zztejhz5hq0xghlf72resflc4t2gmu9xjlf73x8dpf88d78zlt4rng3ccw8g5vvnkyrvt96mug06l5eskxh8rcjq2wyd63")
+
+		return tb.minFee(0, NewTxOutput(inner_addr, (totalI-totalO-200000)))
+
+	}
+	return tb.minFee(0)
+}
+
+// minFee calculates the smallest sufficient fee, not below the given one, for the transaction with further
+// outputs. Placeholder witnesses, one per signing key, only ever go into a copy of the transaction.
+func (tb TxBuilder) minFee(fee uint, outputs ...*TxOutput) uint {
 	feeTx := Tx{
 		Body: &TxBody{
 			Inputs:  tb.tx.Body.Inputs,
-			Outputs: tb.tx.Body.Outputs,
-			Fee:     tb.tx.Body.Fee,
+			Outputs: append(append([]*TxOutput{}, tb.tx.Body.Outputs...), outputs...),
+			Fee:     uint64(fee),
 			TTL:     tb.tx.Body.TTL,
 		},
-		Witness:  tb.tx.Witness,
+		Witness:  NewTXWitness(),
 		Valid:    true,
 		Metadata: tb.tx.Metadata,
 	}
-	feeTx.CalculateAuxiliaryDataHash()
-	if len(feeTx.Witness.Keys) == 0 {
+	witnesses := len(tb.xprvs)
+	if tb.tx.Witness != nil && len(tb.tx.Witness.Keys) > witnesses {
+		witnesses = len(tb.tx.Witness.Keys)
+	}
+	for len(feeTx.Witness.Keys) == 0 || len(feeTx.Witness.Keys) < witnesses {
 		vWitness := NewVKeyWitness(
 			make([]byte, 32),
 			make([]byte, 64),
@@ -99,21 +116,16 @@ func (tb TxBuilder) MinFee() (fee uint) {
 		feeTx.Witness.Keys = append(feeTx.Witness.Keys, vWitness)
 	}
 
-	totalI, totalO := tb.getTotalInputOutputs()
-
-	if totalI != (totalO) {
-		inner_addr, _ := address.NewAddress("addr_test1qqe6zztejhz5hq0xghlf72resflc4t2gmu9xjlf73x8dpf88d78zlt4rng3ccw8g5vvnkyrvt96mug06l5eskxh8rcjq2wyd63")
-
-		feeTx.Body.Outputs = append(feeTx.Body.Outputs, NewTxOutput(inner_addr, (totalI-totalO-200000)))
-
-	}
 	lfee := fees.NewLinearFee(tb.protocol.TxFeePerByte, tb.protocol.TxFeeFixed)
-	// The fee may have increased enough to increase the number of bytes, so do one more pass
-	fee, _ = feeTx.Fee(lfee)
-	feeTx.Body.Fee = uint64(fee)
-	fee, _ = feeTx.Fee(lfee)
-
-	return
+	// The fee may have increased enough to increase the number of bytes, so go on until it is sufficient
+	for {
+		needed, err := feeTx.Fee(lfee)
+		if err != nil || needed <= fee {
+			return fee
+		}
+		fee = needed
+		feeTx.Body.Fee = uint64(fee)
+	}
 }
 
 // AddInputs adds inputs to the transaction body
-- 
2.43.0


From daae5eae6cb4ef833c2b69f4749944130fb0e075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:31 +0000
Subject: [PATCH 14/32] fix: adding change never creates value and pays for the
 change output it adds

---
 tx/tx_builder.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/tx/tx_builder.go b/tx/tx_builder.go
index 374bb52..1bd598c 100644
--- a/tx/tx_builder.go
+++ b/tx/tx_builder.go
@@ -49,8 +49,19 @@ func (tb *TxBuilder) Tx() (tx *Tx) {
 // AddChangeIfNeeded calculates the excess change from UTXO inputs - outputs and adds it to the transaction body.
 func (tb *TxBuilder) AddChangeIfNeeded(addr address.Address) {
 	// change is amount in utxo minus outputs minus fee
-	tb.tx.SetFee(tb.MinFee())
 	totalI, totalO := tb.getTotalInputOutputs()
+	var excess uint
+	if totalI > totalO {
+		excess = totalI - totalO
+	}
+
+	fee := tb.minFee(0, NewTxOutput(addr, excess))
+	if excess <= fee {
+		// nothing is left for a change output: a remainder too small to pay for one goes to the fee
+		tb.tx.SetFee(tb.minFee(excess))
+		return
+	}
+	tb.tx.SetFee(fee)
 
 	change := totalI - totalO - uint(tb.tx.Body.Fee)
 	tb.tx.AddOutputs(
-- 
2.43.0


From 831cf51e281f28de1ef6d34bd533749eed4225d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:32 +0000
Subject: [PATCH 15/32] fix: builders created from the same key slice no longer
 overwrite each other's keys

---
 tx/tx_builder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tx/tx_builder.go b/tx/tx_builder.go
index 1bd598c..784b350 100644
--- a/tx/tx_builder.go
+++ b/tx/tx_builder.go
@@ -153,7 +153,7 @@ func (tb *TxBuilder) AddOutputs(outputs ...*TxOutput) {
 func NewTxBuilder(pr protocol.Protocol, xprvs []bip32.XPrv) *TxBuilder {
 	return &TxBuilder{
 		tx:       NewTx(),
-		xprvs:    xprvs,
+		xprvs:    append([]bip32.XPrv{}, xprvs...),
 		protocol: pr,
 	}
 }
-- 
2.43.0


From a96caf390fcaf09e65145b377bdb8c32b5bbd62f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:32 +0000
Subject: [PATCH 16/32] fix: a built transaction no longer changes with its
 builder

---
 tx/tx_builder.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/tx/tx_builder.go b/tx/tx_builder.go
index 784b350..b36b08f 100644
--- a/tx/tx_builder.go
+++ b/tx/tx_builder.go
@@ -38,7 +38,14 @@ func (tb *TxBuilder) Build() (tx Tx, err error) {
 		txKeys...,
 	)
 
-	return *tb.tx, nil
+	// the result does not share its body with the builder, which may go on changing its own
+	tx = *tb.tx
+	body := *tb.tx.Body
+	body.Inputs = append([]*TxInput{}, body.Inputs...)
+	body.Outputs = append([]*TxOutput{}, body.Outputs...)
+	tx.Body = &body
+
+	return tx, nil
 }
 
 // Tx returns a pointer to the transaction
-- 
2.43.0


From b1717d2e47fdc45c29d42ccc5a844b87e580ce0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:32 +0000
Subject: [PATCH 17/32] fix: output totals above 64 bits no longer wrap around
 when change is added

---
 tx/tx_builder.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tx/tx_builder.go b/tx/tx_builder.go
index b36b08f..1d02348 100644
--- a/tx/tx_builder.go
+++ b/tx/tx_builder.go
@@ -90,6 +90,10 @@ func (tb TxBuilder) getTotalInputOutputs() (inputs, outputs uint) {
 	}
 	for _, out := range tb.tx.Body.Outputs {
 		outputs += uint(out.Amount)
+		if outputs < uint(out.Amount) {
+			// more than any inputs can cover
+			return inputs, ^uint(0)
+		}
 	}
 
 	return
-- 
2.43.0


From b501042a69c9b269f999329ce6f5db14f50d0acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:40 +0000
Subject: [PATCH 18/32] fix: pass the mainnet flag to cardano-cli for mainnet
 and the testnet magic as two arguments

---
 node/cardano-cli.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/node/cardano-cli.go b/node/cardano-cli.go
index f93dcdc..4123821 100644
--- a/node/cardano-cli.go
+++ b/node/cardano-cli.go
@@ -23,15 +23,15 @@ type cardanoCli struct {
 
 func (cli *cardanoCli) execCommand(args ...string) (data []byte, err error) {
 	buf := &bytes.Buffer{}
-	var cmdSuffix string
+	var cmdSuffix []string
 
-	if cli.network.NetworkId == 0 {
-		cmdSuffix = "--mainnet"
+	if cli.network.NetworkId == 1 {
+		cmdSuffix = []string{"--mainnet"}
 	} else {
-		cmdSuffix = fmt.Sprintf("--testnet-magic %d", cli.network.ProtocolMagic)
+		cmdSuffix = []string{"--testnet-magic", fmt.Sprint(cli.network.ProtocolMagic)}
 	}
 
-	args = append(args, cmdSuffix)
+	args = append(args, cmdSuffix...)
 	cmd := exec.Command(cli.cliPath, args...)
 	cmd.Stdout = buf
 	cmd.Stderr = os.Stderr
-- 
2.43.0


From ec97aef4269742d65857f962541fda805d686332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:40 +0000
Subject: [PATCH 19/32] fix: use the subcommands and separate option values
 cardano-cli understands

---
 node/cardano-cli.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/node/cardano-cli.go b/node/cardano-cli.go
index 4123821..468a1d0 100644
--- a/node/cardano-cli.go
+++ b/node/cardano-cli.go
@@ -55,7 +55,7 @@ func (cli *cardanoCli) ProtocolParameters() (p protocol.Protocol, err error) {
 }
 
 func (cli *cardanoCli) UTXOs(addr address.Address) (txIs []tx.TxInput, err error) {
-	data, err := cli.execCommand("query", "utxos", fmt.Sprintf("--address %s", addr))
+	data, err := cli.execCommand("query", "utxo", "--address", addr.String())
 	if err != nil {
 		return
 	}
@@ -133,7 +133,7 @@ func (cli *cardanoCli) SubmitTx(txFinal tx.Tx) (txHash string, err error) {
 		return txHash, err
 	}
 
-	cliData, err := cli.execCommand("submit", fmt.Sprintf("--tx-file %s", tmpFile.Name()))
+	cliData, err := cli.execCommand("transaction", "submit", "--tx-file", tmpFile.Name())
 	if err != nil {
 		return
 	}
-- 
2.43.0


From 709678793627f4df2f8f65975bc5c8d567a6af28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:41 +0000
Subject: [PATCH 20/32] fix: report the error of a failing cardano-cli query

---
 node/cardano-cli.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/node/cardano-cli.go b/node/cardano-cli.go
index 468a1d0..c669e55 100644
--- a/node/cardano-cli.go
+++ b/node/cardano-cli.go
@@ -47,6 +47,9 @@ func (cli *cardanoCli) execCommand(args ...string) (data []byte, err error) {
 
 func (cli *cardanoCli) ProtocolParameters() (p protocol.Protocol, err error) {
 	data, err := cli.execCommand("query", "protocol-parameters")
+	if err != nil {
+		return
+	}
 
 	if err := json.Unmarshal(data, &p); err != nil {
 		return p, err
@@ -94,6 +97,9 @@ func (cli *cardanoCli) UTXOs(addr address.Address) (txIs []tx.TxInput, err error
 
 func (cli *cardanoCli) QueryTip() (tip NetworkTip, err error) {
 	data, err := cli.execCommand("query", "tip")
+	if err != nil {
+		return
+	}
 
 	if err := json.Unmarshal(data, &tip); err != nil {
 		return tip, err
-- 
2.43.0


From 03be53b2c06d5215fa77c9f65aa5e9d63171a4fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:42 +0000
Subject: [PATCH 21/32] fix: read every row of the cardano-cli utxo table and
 reject malformed ones

---
 node/cardano-cli.go | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/node/cardano-cli.go b/node/cardano-cli.go
index c669e55..b51b0b9 100644
--- a/node/cardano-cli.go
+++ b/node/cardano-cli.go
@@ -2,6 +2,7 @@ package node
 
 import (
 	"bytes"
+	"encoding/hex"
 	"encoding/json"
 	"fmt"
 	"io/ioutil"
@@ -64,24 +65,31 @@ func (cli *cardanoCli) UTXOs(addr address.Address) (txIs []tx.TxInput, err error
 	}
 
 	ldata := strings.Split(string(data), "\n")
-	lenData := len(data)
+	lenData := len(ldata)
 
 	if lenData < 3 {
 		return
 	}
 
-	for _, it := range ldata[2 : lenData-1] {
+	for _, it := range ldata[2:] {
 		sec := strings.Fields(it)
+		if len(sec) == 0 {
+			continue
+		}
+		if len(sec) < 4 || sec[3] != "lovelace" {
+			return nil, fmt.Errorf("unexpected utxo row %q", it)
+		}
+		if hash, err := hex.DecodeString(sec[0]); err != nil || len(hash) != 32 {
+			return nil, fmt.Errorf("unexpected transaction hash in utxo row %q", it)
+		}
 		txIx, err := strconv.ParseUint(sec[1], 10, 16)
 		if err != nil {
-			return txIs, err
+			return nil, err
 		}
 
-		amSec := strings.Fields(sec[2])
-
-		amount, err := strconv.Atoi(amSec[0])
+		amount, err := strconv.ParseUint(sec[2], 10, strconv.IntSize)
 		if err != nil {
-			return txIs, err
+			return nil, err
 		}
 
 		utxo := *tx.NewTxInput(
-- 
2.43.0


From 783018b6e1c8de54335ecd8522032ca345076f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:43 +0000
Subject: [PATCH 22/32] fix: submitting with cardano-cli returns the
 transaction hash and closes its file

---
 node/cardano-cli.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/node/cardano-cli.go b/node/cardano-cli.go
index b51b0b9..ac2a971 100644
--- a/node/cardano-cli.go
+++ b/node/cardano-cli.go
@@ -137,6 +137,7 @@ func (cli *cardanoCli) SubmitTx(txFinal tx.Tx) (txHash string, err error) {
 	}
 
 	defer os.Remove(tmpFile.Name())
+	defer tmpFile.Close()
 
 	data, err := json.MarshalIndent(outTx, "", "	")
 	if err != nil {
@@ -147,17 +148,17 @@ func (cli *cardanoCli) SubmitTx(txFinal tx.Tx) (txHash string, err error) {
 		return txHash, err
 	}
 
-	cliData, err := cli.execCommand("transaction", "submit", "--tx-file", tmpFile.Name())
+	hash, err := txFinal.Hash()
 	if err != nil {
 		return
 	}
 
-	txHash = string(cliData)
-
-	if err := tmpFile.Close(); err != nil {
-		return txHash, err
+	_, err = cli.execCommand("transaction", "submit", "--tx-file", tmpFile.Name())
+	if err != nil {
+		return
 	}
-	return
+
+	return hex.EncodeToString(hash[:]), nil
 }
 
 // NewCardanoCliNode returns a wrapper for the cardano-cli with the Node interface
-- 
2.43.0


From 844c36f94e8d9e3bee4e1b9f69425da4479b97e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:46 +0000
Subject: [PATCH 23/32] fix: an empty cardano-cli path means the default
 executable

---
 node/cardano-cli.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/node/cardano-cli.go b/node/cardano-cli.go
index ac2a971..3407b82 100644
--- a/node/cardano-cli.go
+++ b/node/cardano-cli.go
@@ -163,14 +163,12 @@ func (cli *cardanoCli) SubmitTx(txFinal tx.Tx) (txHash string, err error) {
 
 // NewCardanoCliNode returns a wrapper for the cardano-cli with the Node interface
 func NewCardanoCliNode(network *network.NetworkInfo, cliPaths ...string) Node {
-	var cliPath string
+	cliPath := "cardano-cli"
 
 	if len(cliPaths) > 0 {
 		if cliPaths[0] != "" {
 			cliPath = cliPaths[0]
 		}
-	} else {
-		cliPath = "cardano-cli"
 	}
 	return &cardanoCli{
 		cliPath: cliPath,
-- 
2.43.0


From 7a38e964d00d269abcd9000a4ddabeeff68ddff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:53 +0000
Subject: [PATCH 24/32] fix: query every page of unspent outputs from
 blockfrost

---
 node/blockfrost.go | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/node/blockfrost.go b/node/blockfrost.go
index 9b89d3f..ae7a205 100644
--- a/node/blockfrost.go
+++ b/node/blockfrost.go
@@ -34,13 +34,21 @@ func (b *blockfrostNode) getNetwork() (serverUrl string) {
 
 // UTXOs queries the network for Unspent Transaction Outputs belonging to an address.
 func (b *blockfrostNode) UTXOs(addr address.Address) (txIs []tx.TxInput, err error) {
-	utxos, err := b.client.AddressUTXOs(
-		context.TODO(),
-		addr.String(),
-		blockfrost.APIQueryParams{},
-	)
-	if err != nil {
-		return
+	const pageSize = 100
+	var utxos []blockfrost.AddressUTXO
+	for page := 1; ; page++ {
+		res, err := b.client.AddressUTXOs(
+			context.TODO(),
+			addr.String(),
+			blockfrost.APIQueryParams{Count: pageSize, Page: page},
+		)
+		if err != nil {
+			return nil, err
+		}
+		utxos = append(utxos, res...)
+		if len(res) < pageSize {
+			break
+		}
 	}
 
 	for _, utxo := range utxos {
-- 
2.43.0


From 17c953d60f6d68a5861d72e091e6480e0a2cf47e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:54 +0000
Subject: [PATCH 25/32] fix: reject out of range values in blockfrost replies

---
 node/blockfrost.go | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/node/blockfrost.go b/node/blockfrost.go
index ae7a205..f746ddf 100644
--- a/node/blockfrost.go
+++ b/node/blockfrost.go
@@ -3,9 +3,11 @@ package node
 import (
 	"bytes"
 	"context"
+	"encoding/hex"
 	"errors"
 	"fmt"
 	"io/ioutil"
+	"math"
 	"net/http"
 	"strconv"
 
@@ -56,7 +58,7 @@ func (b *blockfrostNode) UTXOs(addr address.Address) (txIs []tx.TxInput, err err
 		for _, am := range utxo.Amount {
 			if am.Unit == "lovelace" {
 
-				amountI, err := strconv.Atoi(am.Quantity)
+				amountI, err := strconv.ParseUint(am.Quantity, 10, strconv.IntSize)
 				if err != nil {
 					return []tx.TxInput{}, err
 				}
@@ -64,6 +66,12 @@ func (b *blockfrostNode) UTXOs(addr address.Address) (txIs []tx.TxInput, err err
 			}
 
 		}
+		if hash, err := hex.DecodeString(utxo.TxHash); err != nil || len(hash) != 32 {
+			return nil, fmt.Errorf("unexpected transaction hash %q", utxo.TxHash)
+		}
+		if utxo.OutputIndex < 0 || utxo.OutputIndex > math.MaxUint16 {
+			return nil, fmt.Errorf("unexpected output index %d", utxo.OutputIndex)
+		}
 		txIs = append(txIs, *tx.NewTxInput(utxo.TxHash, uint16(utxo.OutputIndex), amount))
 	}
 
@@ -77,10 +85,15 @@ func (b *blockfrostNode) ProtocolParameters() (p protocol.Protocol, err error) {
 		return
 	}
 
-	minU, err := strconv.Atoi(params.MinUtxo)
+	minU, err := strconv.ParseUint(params.MinUtxo, 10, strconv.IntSize)
 	if err != nil {
 		return
 	}
+	if params.MinFeeA < 0 || params.MinFeeB < 0 || params.MaxTxSize < 0 ||
+		params.ProtocolMajorVer < 0 || params.ProtocolMajorVer > math.MaxUint8 ||
+		params.ProtocolMinorVer < 0 || params.ProtocolMinorVer > math.MaxUint8 {
+		return p, errors.New("protocol parameter out of range")
+	}
 
 	return protocol.Protocol{
 		TxFeePerByte: uint(params.MinFeeA),
@@ -166,6 +179,10 @@ func (b *blockfrostNode) QueryTip() (nt NetworkTip, err error) {
 		return
 	}
 
+	if block.Slot < 0 || block.Epoch < 0 || block.Height < 0 {
+		return nt, errors.New("network tip out of range")
+	}
+
 	nt = NetworkTip{
 		Slot:  uint(block.Slot),
 		Epoch: uint(block.Epoch),
-- 
2.43.0


From 792bc1df49b506bafb1936b2dd6adc96920b90d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:55 +0000
Subject: [PATCH 26/32] fix: blockfrost submission returns the bare transaction
 hash and closes the reply

---
 node/blockfrost.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/node/blockfrost.go b/node/blockfrost.go
index f746ddf..5ad6045 100644
--- a/node/blockfrost.go
+++ b/node/blockfrost.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"context"
 	"encoding/hex"
+	"encoding/json"
 	"errors"
 	"fmt"
 	"io/ioutil"
@@ -132,6 +133,7 @@ func (b *blockfrostNode) SubmitTx(txFinal tx.Tx) (txHash string, err error) {
 	if err != nil {
 		return
 	}
+	defer res.Body.Close()
 
 	resb, err := ioutil.ReadAll(res.Body)
 	if err != nil {
@@ -139,10 +141,18 @@ func (b *blockfrostNode) SubmitTx(txFinal tx.Tx) (txHash string, err error) {
 	}
 
 	if res.StatusCode != 200 {
-		err = errors.New(string(resb))
+		return "", errors.New(string(resb))
 	}
 
-	return string(resb), err
+	// The service replies with the hash as a JSON string
+	if err = json.Unmarshal(resb, &txHash); err != nil {
+		return "", err
+	}
+	if hash, err := hex.DecodeString(txHash); err != nil || len(hash) != 32 {
+		return "", fmt.Errorf("unexpected transaction hash %q", txHash)
+	}
+
+	return txHash, nil
 }
 
 // NewBlockfrostClient returns a wrapper for the blockfrost API/SDK with Node interface
-- 
2.43.0


From a4582cfbb008eb1b8d736d02a60d7c0dcebaa582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:31:55 +0000
Subject: [PATCH 27/32] fix: a built transaction keeps its inputs, outputs and
 witnesses when the builder's are edited

---
 tx/tx_builder.go | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/tx/tx_builder.go b/tx/tx_builder.go
index 1d02348..be231a5 100644
--- a/tx/tx_builder.go
+++ b/tx/tx_builder.go
@@ -38,12 +38,28 @@ func (tb *TxBuilder) Build() (tx Tx, err error) {
 		txKeys...,
 	)
 
-	// the result does not share its body with the builder, which may go on changing its own
+	// the result does not share its body or witnesses with the builder, which may go on changing its own
 	tx = *tb.tx
 	body := *tb.tx.Body
 	body.Inputs = append([]*TxInput{}, body.Inputs...)
+	for i, input := range body.Inputs {
+		if input != nil {
+			copied := *input
+			body.Inputs[i] = &copied
+		}
+	}
 	body.Outputs = append([]*TxOutput{}, body.Outputs...)
+	for i, output := range body.Outputs {
+		if output != nil {
+			copied := *output
+			body.Outputs[i] = &copied
+		}
+	}
 	tx.Body = &body
+	tx.Witness = NewTXWitness()
+	for _, key := range txKeys {
+		tx.Witness.Keys = append(tx.Witness.Keys, NewVKeyWitness(key.VKey, key.Signature))
+	}
 
 	return tx, nil
 }
-- 
2.43.0


From 7d7411509cba4c512afa635f83a3a059660eabd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:21:52 +0000
Subject: [PATCH 28/32] fix: metadata that serializes as null is no metadata,
 so it gets no hash

---
 tx/tx.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/tx/tx.go b/tx/tx.go
index ab523c6..de4fa91 100644
--- a/tx/tx.go
+++ b/tx/tx.go
@@ -14,6 +14,9 @@ import (
 // and the serialized transaction always agree with each other.
 var detEncMode, _ = cbor.EncOptions{Sort: cbor.SortCanonical}.EncMode()
 
+// cborNull stands for absent metadata in a serialized transaction.
+var cborNull = []byte{0xf6}
+
 type Tx struct {
 	_        struct{} `cbor:",toarray"`
 	Body     *TxBody
@@ -86,11 +89,16 @@ func (t *Tx) SetFee(fee uint) {
 }
 
 func (t *Tx) CalculateAuxiliaryDataHash() error {
+	var mdBytes []byte
 	if t.Metadata != nil {
-		mdBytes, err := detEncMode.Marshal(&t.Metadata)
+		var err error
+		mdBytes, err = detEncMode.Marshal(&t.Metadata)
 		if err != nil {
 			return fmt.Errorf("cannot serialize metadata: %w", err)
 		}
+	}
+	// a nil map or pointer serializes as null, which is no metadata
+	if len(mdBytes) > 0 && !bytes.Equal(mdBytes, cborNull) {
 		auxHash := blake2b.Sum256(mdBytes)
 		if !bytes.Equal(t.Body.AuxiliaryDataHash, auxHash[:]) {
 			t.Body.AuxiliaryDataHash = auxHash[:]
-- 
2.43.0


From f7b2d721293ecb04cfa5678079bd55810c52e41a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:21 +0000
Subject: [PATCH 29/32] fix: a built transaction shares no byte slices with its
 builder

---
 tx/tx_builder.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/tx/tx_builder.go b/tx/tx_builder.go
index be231a5..92a38a3 100644
--- a/tx/tx_builder.go
+++ b/tx/tx_builder.go
@@ -45,6 +45,7 @@ func (tb *TxBuilder) Build() (tx Tx, err error) {
 	for i, input := range body.Inputs {
 		if input != nil {
 			copied := *input
+			copied.TxHash = append(input.TxHash[:0:0], input.TxHash...)
 			body.Inputs[i] = &copied
 		}
 	}
@@ -55,10 +56,14 @@ func (tb *TxBuilder) Build() (tx Tx, err error) {
 			body.Outputs[i] = &copied
 		}
 	}
+	body.AuxiliaryDataHash = append(body.AuxiliaryDataHash[:0:0], body.AuxiliaryDataHash...)
 	tx.Body = &body
 	tx.Witness = NewTXWitness()
 	for _, key := range txKeys {
-		tx.Witness.Keys = append(tx.Witness.Keys, NewVKeyWitness(key.VKey, key.Signature))
+		tx.Witness.Keys = append(tx.Witness.Keys, NewVKeyWitness(
+			append([]byte{}, key.VKey...),
+			append([]byte{}, key.Signature...),
+		))
 	}
 
 	return tx, nil
-- 
2.43.0


From db3dd585f086b754ca944d6d3e39258e91cd1545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:43 +0000
Subject: [PATCH 30/32] fix: a rejected Byron address gives no address beside
 the error

---
 address/address.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/address/address.go b/address/address.go
index 70f6597..cb79395 100644
--- a/address/address.go
+++ b/address/address.go
@@ -87,7 +87,7 @@ func NewAddressFromBytes(data []byte) (addr Address, err error) {
 
 		if err := cbor.Unmarshal(data, &byron); err != nil {
 			log.Println(err)
-			return &byron, err
+			return nil, err
 		}
 		if !bytes.Equal(byron.Bytes(), data) {
 			return nil, ErrInvalidByronAddress
-- 
2.43.0


From 1ce360cc2a3c654bee256fb6a4d51f9309e0c9c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:43 +0000
Subject: [PATCH 31/32] fix: a Byron address of another form is refused with a
 readable error

---
 address/byron.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/address/byron.go b/address/byron.go
index adb6188..2ce8f06 100644
--- a/address/byron.go
+++ b/address/byron.go
@@ -93,7 +93,7 @@ func (b *ByronAddress) UnmarshalCBOR(data []byte) error {
 	}
 
 	if len(byron.Hashed) != 28 || byron.Tag != 0 {
-		return errors.New("")
+		return ErrInvalidByronAddress
 	}
 
 	decoded := ByronAddress{
-- 
2.43.0


From c9bbcc9dbbc43effa5a8cc39d4d48dc16df73b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:43 +0000
Subject: [PATCH 32/32] fix: a refused blockfrost submission without a reply
 body gives a readable error

---
 node/blockfrost.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/node/blockfrost.go b/node/blockfrost.go
index 5ad6045..d0332a5 100644
--- a/node/blockfrost.go
+++ b/node/blockfrost.go
@@ -141,7 +141,7 @@ func (b *blockfrostNode) SubmitTx(txFinal tx.Tx) (txHash string, err error) {
 	}
 
 	if res.StatusCode != 200 {
-		return "", errors.New(string(resb))
+		return "", fmt.Errorf("%s: %s", res.Status, resb)
 	}
 
 	// The service replies with the hash as a JSON string
-- 
2.43.0

