#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

p("C01","Address bytes round-trip in the CIP-19 layout",
  "For every base, enterprise, pointer and reward address built from a network, key or script credentials with 28-byte hashes and (for pointers) any three 64-bit numbers, and for every Byron address, the raw bytes have exactly the CIP-19 layout (type nibble, network nibble, hashes, variable-length numbers; Byron: tagged payload plus CRC32), and decoding them from bytes or hex gives an address of the same kind with the same network id, credentials and pointer. Conversely any byte string the decoder accepts is reproduced byte for byte by the decoded address, so an address is never silently rewritten into a different one. Truncated, over-long, unknown-type, unknown-network or non-canonical byte strings, and strings that are not hexadecimal where hex is expected, are rejected with an error. A Byron address decoded from CBOR holds nothing of what the receiving value held before.",
  ["inputs"],"all address kinds x both networks x all credential kinds x all hash/pointer values, and all byte strings offered to the decoder",
  "TestAddressInit decodes seven fixed strings; no pointer address, no script credential, no testnet Byron address, no length or network-nibble variation is ever exercised.",
  ["address/address.go","address/base.go","address/enterprise.go","address/pointer.go","address/reward.go","address/byron.go","address/stake_credential.go"],
  [("header nibble dispatch and length checks","address/address.go NewAddressFromBytes"),("per-kind byte layout","address/*.go Bytes"),("CRC32 and tag 24 envelope","address/byron.go MarshalCBOR/UnmarshalCBOR")],
  ["NewAddressFromBytes","NewAddressFromHex","Address.Bytes","Address.NetworkInfo"])
p("C02","Address text form is canonical and round-trips",
  "The text of every Shelley-era address is the bech32 encoding of its raw bytes under the prefix fixed by its kind and network (addr / addr_test for payment addresses, stake / stake_test for reward addresses), and the text of every Byron address is the base58 encoding of its raw bytes. Parsing that text gives back an address with identical bytes, kind, network id and text. A text that parses is always the canonical text of the address it yields: wrong prefix for the network or kind, mixed case, or the wrong text encoding is rejected.",
  ["inputs"],"all addresses of all kinds and networks, and all text strings offered to the parser",
  "The tests compare six literal strings and never render a pointer address or a string whose prefix contradicts its payload.",
  ["address/address.go","address/base.go","address/enterprise.go","address/pointer.go","address/reward.go","address/byron.go","internal/bech32/bech32.go"],
  [("bech32 encode/decode","internal/bech32/bech32.go"),("network dependent prefix","address/*.go Prefix")],
  ["NewAddress","Address.String"])
p("C03","Corrupted address text is always detected",
  "Changing any one to three characters of the data part of a bech32 address into other bech32 characters, replacing its checksum by any other (that of bech32m included), changing its human-readable part, truncating it, or introducing a character outside the bech32 alphabet always makes parsing fail with an error. Changing the payload or checksum bytes of a Byron address so that the CRC32 no longer matches always makes parsing fail, in text, hex and byte form.",
  ["inputs"],"all valid addresses x all corruptions of the stated classes",
  "The two negative test strings are both truncations; no substitution and no Byron corruption is tried, and a decoder returning nil, nil would pass.",
  ["internal/bech32/bech32.go","address/byron.go","address/address.go"],
  [("bech32 BCH checksum, charset, case and padding rules","internal/bech32/bech32.go Decode"),("CRC32 comparison","address/byron.go UnmarshalCBOR")],
  ["NewAddress","NewAddressFromBytes","NewAddressFromHex"])
p("C04","Decoders never crash on hostile input",
  "For every string or byte slice whatsoever, including nil and empty ones, parsing an address from text, hex or bytes, decoding a Byron address from CBOR, decoding a variable-length number, building a fixed-size hash from bytes, building an extended key from a seed and loading a protocol-parameter file return normally with either a usable value or an error. They never panic, exit the process, hang or return neither a value nor an error.",
  ["inputs"],"all byte strings and text strings, of any length and content",
  "Tests feed only well-formed inputs and two truncated strings.",
  ["address/address.go","address/byron.go","address/pointer.go","internal/bech32/bech32.go","crypto/crypto.go","bip32/bip32.go","protocol/protocol.go"],
  [("length checks before slicing","address/address.go"),("error returns","crypto/crypto.go, protocol/protocol.go")],
  ["NewAddress","NewAddressFromHex","NewAddressFromBytes","ByronAddress.UnmarshalCBOR","VariableNatDecode","crypto.*FromBytes","NewXPrv","LoadProtocol"])
p("C05","Variable-length numbers encode minimally and decode exactly",
  "For every 64-bit number the variable-length encoding is the minimal big-endian base-128 form with continuation bits on all but the last byte, and decoding it, with any bytes following, gives back the number and exactly the number of bytes it occupied. Input that ends inside a number, or that encodes a value above 64 bits, is reported as an error, never as a different number.",
  ["inputs"],"all uint64 values, all suffixes, all byte strings",
  "No test touches the pointer number codec at all.",
  ["address/pointer.go"],[("base-128 loop","address/pointer.go VariableNatEncode/VariableNatDecode")],
  ["VariableNatEncode","VariableNatDecode"])
p("C06","Serialized transactions carry exactly what was put in",
  "For every sequence of added inputs and outputs, fee, time to live, witnesses, validity flag and metadata, the transaction bytes decode (by an independent CBOR reader) to the ledger's four-element array: a body map with inputs as [32-byte hash, index] and outputs as [address byte string, amount] in insertion order, the fee under 2, the time to live under 3 exactly when it is non-zero, the metadata hash under 7 exactly when metadata is attached, then the witness set, the validity flag, and the metadata or null. Every address appears as the byte string of its raw bytes whatever its kind, every number has its exact value, and the hex form is the hex of those bytes. The same transaction always serializes to the same bytes.",
  ["inputs","histories"],"all transaction contents (any number of inputs/outputs, all address kinds, full integer ranges, arbitrary metadata) and all orders of the building calls",
  "Two golden files cover one input, two outputs, base/enterprise addresses and no metadata.",
  ["tx/tx.go","tx/tx_body.go","tx/tx_input_output.go","tx/tx_witness_set.go","address/*.go"],
  [("cbor struct tags and MarshalCBOR methods","tx/*.go"),("address byte string wrapping","address/*.go MarshalCBOR")],
  ["Tx.Bytes","Tx.Hex","TxBody.Bytes","TxBody.Hex"])
p("C07","Transaction hash commits to the serialized body",
  "At every point of a transaction's life its hash equals Blake2b-256 of the body exactly as it appears inside the transaction's own serialized bytes. Asking for the hash, bytes, hex or fee, in any order and any number of times, does not change the hash, and adding or changing witnesses does not change it, while any change to inputs, outputs, fee, time to live or metadata does.",
  ["inputs","histories"],"all transactions and all sequences of mutations and queries on them",
  "Tests never compare the hash with the bytes, and call each query once.",
  ["tx/tx.go","tx/tx_body.go","tx/tx_builder.go"],
  [("hash of the marshalled body","tx/tx.go Hash"),("auxiliary hash refreshed before each query","tx/tx.go CalculateAuxiliaryDataHash")],
  ["Tx.Hash","Tx.Bytes","Tx.Hex","Tx.Fee"])
p("C08","Metadata is bound to the transaction it is attached to",
  "For every serializable metadata value, including maps with many keys and nested maps, the auxiliary-data hash in the body equals Blake2b-256 of the metadata bytes found in the same serialized transaction, and the metadata decodes to the value attached. This stays true after metadata is replaced or removed (no metadata means no hash), for repeated serialization, and for metadata attached before or after other building steps; metadata that cannot be serialized yields an error, not a transaction.",
  ["inputs","histories"],"all metadata values and all set/replace/clear/serialize/build histories; map iteration order varies from call to call",
  "No test attaches metadata; map iteration order makes a sampled pass meaningless.",
  ["tx/tx.go","tx/tx_builder.go"],[("CalculateAuxiliaryDataHash","tx/tx.go"),("encoder shared by hash and serialization","tx/tx.go")],
  ["Tx.Bytes","Tx.Hash","TxBuilder.Build"])
p("C09","Built transactions carry one valid signature per signing key",
  "For every transaction and every list of signing keys, given at construction or added before building in any order and number, building yields exactly one witness per registered key, in registration order, holding that key's 32-byte public key and a 64-byte signature that standard Ed25519 verification accepts for the hash of the transaction as serialized. No placeholder or stale witness remains, and building again after further changes signs the new contents.",
  ["inputs","histories"],"all transactions, key lists and interleavings of add/sign/fee/build calls",
  "Golden tests sign once with one key and compare bytes; no signature is ever verified and no second build is made.",
  ["tx/tx_builder.go","tx/tx_witness_set.go","bip32/bip32.go"],[("Build loop over registered keys","tx/tx_builder.go Build"),("XPrv.Sign","bip32/bip32.go")],
  ["TxBuilder.Build","Tx.Bytes"])
p("C10","Adding change conserves value and never mints",
  "After change is added, whenever the inputs cover the existing outputs plus the fee, total inputs equal total outputs plus the fee exactly, at most one output was added, it pays the given address a non-zero amount and all earlier outputs are untouched. Whenever the inputs do not cover outputs plus fee, no output is added, so no amount ever wraps around or exceeds what the inputs hold. (Input totals fit in 64 bits; output totals need not.)",
  ["inputs","histories"],"all input/output amounts (surplus, exact, deficit, boundary), fee parameters, change address kinds and call orders",
  "The golden tests use one surplus of 5 ADA; the exact-balance and deficit cases are never exercised.",
  ["tx/tx_builder.go"],[("change computation","tx/tx_builder.go AddChangeIfNeeded")],
  ["TxBuilder.AddChangeIfNeeded","TxBuilder.Tx","Tx.Bytes"])
p("C11","Fees follow the linear formula and cover the final transaction",
  "The fee reported for a transaction is the fixed fee plus the per-byte fee times the length of its serialized bytes. The fee set when change is added, and the minimum fee the builder reports once everything including the signing keys is registered, is never below that formula for the transaction finally built, whatever the number of signing keys, kind of change address, metadata or amounts. The fee set when change is added is above it only by what the encoded width of a number can differ (at most 16 bytes' worth), unless a remainder too small to pay for its own change output is left to the fee.",
  ["inputs","histories","configurations"],"all transaction shapes, key counts, metadata, change addresses and protocol fee parameters",
  "Golden tests pin one size with one key and one set of parameters.",
  ["tx/tx.go","tx/tx_builder.go","fees/linear.go"],[("linear formula","tx/tx.go Fee"),("placeholder witnesses and change output","tx/tx_builder.go MinFee")],
  ["Tx.Fee","TxBuilder.MinFee","TxBuilder.AddChangeIfNeeded"])
p("C12","No hidden sharing between inputs, builders and results",
  "Changing a byte slice after it was decoded into an address, or the bytes an address returned, never changes the address. Deriving, signing, hashing, rendering and fee queries never modify their receivers or arguments and leave the transaction's serialized form unchanged. Builders never influence each other even when created from the same key slice, a transaction returned by a build keeps its bytes and valid signatures whatever is later done to the builder, and two results of the same call (a decoded address, a derived key, a loaded or built value) never share memory.",
  ["histories","inputs"],"all interleavings of operations on several addresses, keys, builders and built transactions that share arguments",
  "Each test uses one builder once and discards it; aliasing only shows over multi-object histories.",
  ["address/address.go","tx/tx_builder.go","bip32/bip32.go","tx/tx.go"],[("copying of slices at API boundaries","address/address.go readAddrCred, tx/tx_builder.go NewTxBuilder/Build/MinFee")],
  ["all exported operations"])
p("C13","Key derivation matches BIP32-Ed25519 (Icarus, V2)",
  "For all entropy and passwords the root key is the Icarus master key (PBKDF2-HMAC-SHA512, 4096 rounds, clamped), for every 32-byte seed the seed-derived root key is the SHA-512/SHA-256 BIP32-Ed25519 root, and for every key and every 32-bit index the child key and chain code equal the V2 derivation (hardened from 2^31 up, soft below), at any depth. The public half of every derived key is its left scalar times the base point, followed by the chain code, and seeds that are not 32 bytes are rejected.",
  ["inputs"],"all entropies, passwords, seeds, parent keys, indices and derivation paths",
  "One fixed mnemonic and path is used through a golden file; carries and index boundaries are not reached.",
  ["bip32/bip32.go","crypto/edwards25519/edwards25519.go"],[("add28mul8 / add256bits carries, hmac tags, little-endian index","bip32/bip32.go Derive")],
  ["FromBip39Entropy","NewXPrv","XPrv.Derive","XPrv.Public","MakePublicKey","XPub.PublicKey","XPub.ChainCode"])
p("C14","Signatures are valid deterministic Ed25519",
  "For every extended key, root or derived, and every message of any length, signing gives the 64-byte deterministic Ed25519 signature (nonce from the right key half and the message) that standard Ed25519 verification accepts under the key's public key. The signature has a canonical scalar, does not verify for a different message or key, and signing leaves the key unchanged and gives the same result every time.",
  ["inputs"],"all keys and messages",
  "No test verifies a signature; only two golden byte strings exist.",
  ["bip32/bip32.go","crypto/edwards25519/edwards25519.go"],[("nonce and challenge hashing, ScMulAdd","bip32/bip32.go Sign")],
  ["XPrv.Sign","XPub.PublicKey"])
p("C15","Curve and scalar arithmetic is exact",
  "Fixed-base and double-scalar multiplication, point encoding and decoding, point doubling and the conversions between point representations agree with exact Ed25519 arithmetic for every valid scalar and point, and reduction, multiply-add and minimality of scalars agree with arithmetic modulo the group order for every input. Field operations (add, subtract, negate, multiply, square, invert, sign, zero test, byte conversion) agree with arithmetic modulo 2^255-19 for every field element. Encodings that are not points on the curve are rejected.",
  ["inputs"],"all scalars, field elements, points and 32/64-byte strings",
  "The package has no tests; a wrong table entry or carry shows only for particular digits or limbs.",
  ["crypto/edwards25519/edwards25519.go","crypto/edwards25519/const.go"],[("precomputed tables","crypto/edwards25519/const.go"),("limb carries","crypto/edwards25519/edwards25519.go")],
  ["GeScalarMultBase","GeDoubleScalarMultVartime","ExtendedGroupElement.FromBytes/ToBytes/Double","ScReduce","ScMulAdd","ScMinimal","Fe*"])
p("C16","Hashing and fixed-size hash types are exact",
  "For every byte string the two Blake2b functions return the RFC 7693 digest of 28 and 32 bytes, and a public key's hash is its 28-byte digest. Every fixed-size hash or key constructor accepts exactly the byte strings of its own length, returns them unchanged, and rejects every other length with an error.",
  ["inputs"],"all byte strings of all lengths",
  "The crypto package has no tests.",
  ["crypto/crypto.go","bip32/bip32.go"],[("length checks","crypto/crypto.go *FromBytes")],
  ["Blake2b224","Blake2b256","PublicKey.Hash","*FromBytes"])
p("C17","Concurrent use of shared values is race-free",
  "Any number of goroutines may at the same time parse and render addresses, use the same address and key values, read the same built transaction (bytes, hex, hash, fee), run separate builders that share keys, addresses, inputs and protocol parameters, load parameter files, build hash values, and make calls on one client of either node backend, without any data race. That includes calls that fail: refused inputs, failing builds, failing or lying backends. Every result or error equals the one obtained sequentially.",
  ["schedules"],"all schedules of concurrent callers over shared immutable values",
  "All tests are single-threaded and run without the race detector.",
  ["address/address.go","bip32/bip32.go","crypto/crypto.go","crypto/edwards25519/edwards25519.go","tx/tx.go","tx/tx_builder.go"],
  [("absence of mutable globals; queries that do not write","all packages")],
  ["all exported operations on shared values"])
p("C18","The cardano-cli backend asks and reports faithfully",
  "Every call runs the configured executable (or cardano-cli by default), in the caller's directory and environment, with the right subcommand, each option and value a separate argument, the mainnet flag exactly for mainnet and the configured testnet magic otherwise. Unspent outputs, protocol parameters and tip equal what the tool printed (every row, its hash, index and lovelace); submission hands over a file holding the hex of exactly the transaction's bytes, returns the transaction's hash and leaves no temporary file or open descriptor behind. A failing tool or malformed output gives an error, never a panic or invented data. Every call asks the tool anew, and no result changes, or depends on what the caller does to, an earlier one.",
  ["inputs","configurations","fault_sequences"],"all networks, addresses, transactions, tool outputs (any number of rows, malformed rows) and tool failures",
  "The node package has no tests and no cardano-cli is available to them.",
  ["node/cardano-cli.go","node/node.go","node/types.go"],[("argument construction and output parsing","node/cardano-cli.go")],
  ["argv and files seen by a stand-in executable","results of the Node interface"])
p("C19","The Blockfrost backend asks and reports faithfully",
  "Every request goes over HTTPS to the API host of the configured network with the configured project id; unspent outputs (all pages, in order), protocol parameters and tip equal what the service returned; submission posts exactly the transaction's bytes once as application/cbor and returns the bare transaction hash. Any HTTP error status, truncated or malformed reply gives an error, never a panic, a partial result reported as success or a retried submission. Every call asks the service anew, and no result changes, or depends on what the caller does to, an earlier one.",
  ["inputs","configurations","fault_sequences"],"all networks, project ids, addresses, transactions, response contents, page counts and error replies",
  "The node package has no tests and the service is unreachable offline.",
  ["node/blockfrost.go","node/node.go"],[("request construction and response mapping","node/blockfrost.go")],
  ["HTTP requests seen by a local TLS stand-in","results of the Node interface"])
p("C20","Protocol parameter files load exactly or fail",
  "Loading a protocol-parameter file in cardano-cli format gives exactly the per-byte fee, fixed fee, maximum transaction size, protocol version and minimum UTxO value in the file, for every value and field order and regardless of other fields. A missing, unreadable, syntactically invalid, ill-typed or out-of-range file gives an error. Every load reads the file anew and its result belongs to the caller alone. Parameters written out as JSON are such a file.",
  ["inputs"],"all parameter values, field orders, extra fields and malformed files",
  "One fixed file is loaded and only two of its five fields influence the tests.",
  ["protocol/protocol.go"],[("json tags and integer widths","protocol/protocol.go")],
  ["LoadProtocol"])
p("C21","Derived addresses keep network and credentials",
  "Turning a base address into an enterprise or reward address keeps the network and keeps exactly the payment, respectively the stake, credential with its key/script kind, for every base address whether built or decoded. The network information of every address agrees with the network it was built for or its bytes state, network constants have the published ids and magics, and the prefix and CBOR form of every Shelley-era address agree with its text and raw bytes.",
  ["inputs"],"all base addresses x networks x credential kinds, and all addresses",
  "One derived enterprise address appears in a golden file; reward derivation, script kinds and CBOR forms are untested.",
  ["address/base.go","address/reward.go","address/enterprise.go","address/pointer.go","address/byron.go","network/network.go"],
  [("ToEnterprise/ToReward","address/base.go"),("NetworkInfo/Prefix/MarshalCBOR","address/*.go")],
  ["BaseAddress.ToEnterprise","BaseAddress.ToReward","Address.NetworkInfo","Prefix","MarshalCBOR"])
p("C22","Secrets never leave through outputs",
  "No part of a private key, root or derived, or of the entropy, password or seed it came from is ever shown by anything the library produces other than the private key values themselves: serialized, printed and JSON-encoded transactions, hashes, witnesses, signatures, public keys (where only the chain code is part of the extended public key), addresses, error messages, standard output and error, files, command lines, environments and standard input of the tools it runs, and requests it sends, whether as bytes or in a text encoding, on success and on every error path. A Blockfrost project id is shown only in its own request header, sent over TLS to the service's host (or where that service redirects).",
  ["inputs","histories"],"all keys, seeds (accepted or rejected), transactions, backends and failures",
  "No test looks at what is printed, logged, put into errors, files or requests, and none exercises the failure paths.",
  ["bip32/bip32.go","tx/tx_builder.go","tx/tx.go","node/cardano-cli.go","node/blockfrost.go"],
  [("public half computed from the private key","bip32/bip32.go Public/MakePublicKey"),("witnesses from public keys and signatures","tx/tx_builder.go Build"),("error texts","all packages"),("request header and temporary file","node/*.go")],
  ["all results, errors, standard streams, files, processes and requests"])
p("C23","Results depend on arguments alone and the library leaves no traces",
  "Every operation other than the node backends' gives results that depend on its arguments alone: not on environment variables, the working or home directory, locale, time zone, clock, processor features, number of processors, resource limits, user, program name, standard streams, files lying around, or what the process did before. These operations read no file but the protocol-parameter file they are given, write no file, print nothing (the standard logger may write to standard error), open no connection, start no process, leave no goroutine or descriptor behind and change nothing of the process (environment, directory, umask, signal handling, limits, runtime settings, the default logger and HTTP client). The backends do what the requested call needs, and likewise leave the process's own state unchanged and print nothing on standard output.",
  ["inputs","configurations","histories"],"all operations in all surroundings a process can run in",
  "Tests run in one place, under one user, at one time, and look only at return values.",
  ["address/address.go","bip32/bip32.go","crypto/crypto.go","tx/tx_builder.go","tx/tx.go","protocol/protocol.go","fees/fees.go","internal/bech32/bech32.go","node/cardano-cli.go","node/blockfrost.go"],
  [("no reads of environment, clock or files","all packages"),("LoadProtocol reads the named file only","protocol/protocol.go"),("temporary file of a submission","node/cardano-cli.go")],
  ["all exported operations","process state","system calls"])
p("C24","Long-running use accumulates nothing",
  "A process that keeps using the library, with operations that succeed or fail, holds no more after the thousandth use than after the first ones: memory in use, goroutines, open descriptors, temporary files, child processes and connections stay bounded. Every call closes what it opened by the time it returns, rather than leaving that to the garbage collector; a client may keep idle connections of its own for reuse. (Replies that the Blockfrost client library itself leaves unread on failed queries are outside.)",
  ["histories","fault_sequences"],"all sequences of operations of any length, with tools and services that work, fail, reset, truncate or lie",
  "Each test performs a handful of operations in a short-lived process and never looks at what stays behind.",
  ["node/cardano-cli.go","node/blockfrost.go","protocol/protocol.go","address/address.go","bip32/bip32.go","tx/tx_builder.go","internal/bech32/bech32.go"],
  [("temporary file and child process of a submission","node/cardano-cli.go"),("response bodies","node/blockfrost.go"),("no package-level tables that grow","all packages")],
  ["all exported operations, repeated"])
p("C25","Cost grows in proportion to size",
  "The processor time and memory an operation needs grow in proportion to the size of what it works on, not faster: serializing, hashing, fee computation, change and building in the numbers of inputs, outputs, keys and witnesses and the size of the metadata (with several of them large at once: as their sum, not their product); adding n elements one by one; signing, hashing and key derivation in the length of messages, entropies, passwords and paths; decoding in the length of the text, bytes, number, file, table or listing, valid or not. The cost does not depend on the magnitude of numbers, nor on what was done before: the thousandth use costs as much as the first. (Base58 texts longer than any address are outside.)",
  ["inputs","histories"],"all sizes of transactions, texts, files, replies, messages; all lengths of histories",
  "Tests use transactions with a few elements and texts of ordinary length, and measure nothing.",
  ["tx/tx.go","tx/tx_builder.go","address/address.go","address/byron.go","internal/bech32/bech32.go","bip32/bip32.go","protocol/protocol.go","node/cardano-cli.go","node/blockfrost.go"],
  [("one hash per build, not per key","tx/tx_builder.go Build"),("fee loop","tx/tx_builder.go minFee"),("single pass decoders","internal/bech32/bech32.go, address/*.go, node/*.go")],
  ["processor time","bytes allocated"])
p("C26","Failures name their cause",
  "A call that fails returns an error with a readable, non-empty text, and nothing that could be taken for a result: no address, an all-zero hash, no key, no bytes, no transaction, no transaction id, no outputs. Callers can tell the causes apart: bytes or texts of an unknown address type or network id are refused with ErrUnsupportedAddress, a well-formed Byron address whose checksum does not match with ErrInvalidByronChecksum, and that error is given for nothing else; a parameter file that cannot be read gives the operating system's error (errors.Is fs.ErrNotExist and the like); an error of the metadata's own serialization is found (errors.Is, errors.As) in the error of every operation that needed it; a tool that ends with a status or by a signal gives an *exec.ExitError with that status, a tool that cannot be started the reason (not found, no permission, no program); a request or submission the service refuses with a reason gives an error that contains the reason. Failing again for the same address is failing in the same way.",
  ["inputs","fault_sequences","configurations"],"all failing calls: every kind of wrong bytes and texts, unreadable files, failing metadata, tools and services failing in every way",
  "The tests check at most that some error is returned, and for few failures.",
  ["address/address.go","address/byron.go","crypto/crypto.go","bip32/bip32.go","protocol/protocol.go","tx/tx.go","tx/tx_builder.go","node/cardano-cli.go","node/blockfrost.go"],
  [("ErrUnsupportedAddress","address/address.go"),("ErrInvalidByronChecksum","address/byron.go UnmarshalCBOR"),("wrapped metadata errors","tx/tx.go CalculateAuxiliaryDataHash"),("tool failures","node/cardano-cli.go execCommand"),("refused submissions","node/blockfrost.go SubmitTx")],
  ["errors returned by exported operations","results returned beside them"])
p("C27","Secrets do not steer execution",
  "Making keys from seeds and entropies, taking public keys, deriving children (hardened or not), signing, and building a signed transaction execute the same statements of this library in the same order, and touch the same elements of the same arrays and tables, whatever the secrets, given the same public arguments and secrets of the same lengths: no branch, loop count, early exit, skipped step or table lookup depends on a private key, chain code, nonce, seed or password. The same holds for the arithmetic below them for all operands: GeScalarMultBase with ToBytes, ScReduce, ScMulAdd, and the field operations (FeAdd, FeSub, FeNeg, FeMul, FeSquare, FeSquare2, FeInvert, FeCMove, FeCopy, FeFromBytes, FeToBytes, FeIsNegative, FeIsNonZero). (GeDoubleScalarMultVartime, decoding of points and ScMinimal work on public values and are outside, as is what the standard library does.)",
  ["inputs"],"all private keys, seeds, entropies, passwords, nonces and operands of the arithmetic",
  "Tests compare results, which are the same however they are computed, and never look at the way taken.",
  ["bip32/bip32.go","crypto/edwards25519/edwards25519.go","tx/tx_builder.go"],
  [("table selection by conditional moves","crypto/edwards25519/edwards25519.go selectPoint"),("fixed loops over digits","crypto/edwards25519/edwards25519.go GeScalarMultBase"),("carry loops over all bytes","bip32/bip32.go add28mul8, add256bits")],
  ["blocks executed","indexes used"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"),"w") as f:
    for q in P: f.write(json.dumps(q)+"\n")
