#!/usr/bin/env python3
"""Writes MANIFEST.json and known_findings.json (the fixed entries name the commits of /repo)."""
import json,os,subprocess
V=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..")
T={
"C01":("reference-model monitor over address byte round-trips","independent CIP-19 encoder/classifier judges every decode and encode; hostile mutations of valid bytes"),
"C02":("reference-model monitor over address text round-trips","independent bech32/base58/CRC32 reference judges rendering and parsing; non-canonical spellings generated"),
"C03":("fault-injection monitor on address texts","1..4 substitutions, transpositions, case flips, prefix and checksum edits; every accepted text must be the original address"),
"C04":("crash/hang/memory monitor under hostile input","panic, runtime fault, watchdog and heap monitors around every decoder; grammar-aware mutation and raw fuzz bytes"),
"C05":("reference-model monitor on variable-length numbers","big-integer reference for encode and decode over boundaries, over-long, truncated and >64-bit encodings"),
"C06":("trace-spec monitor on builder histories with an independent CBOR decoder","a model follows every operation; each serialization is decoded independently and compared field by field"),
"C07":("monitor on hash/body pairs over histories","independent BLAKE2b over the body bytes cut out of the serialized transaction; injectivity and determinism over observed pairs"),
"C08":("monitor on metadata/hash pairs over histories","metadata bytes cut out of the transaction, hashed independently, compared with body key 7"),
"C09":("witness-set monitor over builder histories","every witness verified by crypto/ed25519 against the independently computed hash; key list compared with the model"),
"C10":("conservation monitor on change histories","inputs = outputs + fee, minting and wrap-around judged on every change call, boundary-seeking workload"),
"C11":("fee-formula monitor on serialized lengths","formula recomputed from actual serialized bytes; coverage of the final transaction checked after build"),
"C12":("aliasing monitor over multi-object histories","snapshots of every live object compared after every operation and after scribbling on shared slices"),
"C13":("differential monitor against a reference derivation","math/big BIP32-Ed25519 with stdlib HMAC/PBKDF2; carry- and boundary-seeking keys and indices"),
"C14":("differential and verification monitor on signatures","reference deterministic signing plus crypto/ed25519 verification, tampered messages and keys"),
"C15":("differential monitor on group and scalar operations","math/big field/curve/scalar reference on every exported operation, with edge encodings"),
"C16":("differential monitor on hashes and hash types","independent BLAKE2b and CRC32 references over all lengths around block boundaries; fixed-size type rules"),
"C17":("Go race detector plus result monitor under concurrent stress","all shared-value operations run concurrently in a -race build; results compared with serial ones"),
"C18":("argv/file/result monitor with a recording stand-in executable","stand-in tool records argv and files, is told to fail or print damaged output; temp-file and descriptor census"),
"C19":("request/result monitor with a local TLS stand-in service","TLS-terminating proxy records requests, plays pages, statuses, truncation, resets and malformed replies"),
"C20":("reference-model monitor on parameter files","generated files with known content, single defects injected"),
"C21":("reference-model monitor on derived addresses","base addresses built and decoded, derivation compared with independently encoded expectations"),
"C22":("information-flow monitor on everything a process lets out","fresh processes use random secrets; results, error texts, standard streams, files, command lines, environments and requests are searched for pieces of them in ten encodings"),
"C23":("differential and effect monitor over fresh processes in odd surroundings","cases of the other monitors with exact oracles run with odd variables, directories, clocks, users, limits and files; process state and a system-call trace are compared; a failure counts only if plain surroundings pass"),
"C24":("resource census over laps of equal work","heap, goroutines, descriptors, files and children are measured after each of seven laps of new work, descriptors also with the collector off"),
"C25":("cost monitor over growing sizes","processor time and allocated bytes at sizes n, 4n, 16n, with two sizes large at once and late in long histories; only growth beyond five times proportional in three measurements counts"),
"C26":("error-cause monitor under injected failures","every failing call is made to fail for a chosen reason; its error is asked for that reason with errors.Is, errors.As and the service's own words, and its results must be empty"),
"C27":("instrumented-path monitor for secret-dependent execution","sources instrumented at every block, index and condition; traces of the same operation with different secrets must be equal"),
}
checks=[]
for k,(t,n) in T.items():
    checks.append({"property":k,"quick_cmd":"bin/check "+k,"thorough_cmd":"VERIF_TIER=thorough bin/check "+k,"technique":t,"level":"exploration","level_note":n+"; covers the executions driven, with event and class counts in the evidence file"})
json.dump({"version":1,"setup_cmd":"bin/setup","checks":checks,"not_applicable":[]},open(os.path.join(V,"MANIFEST.json"),"w"),indent=1)
open(os.path.join(V,"MANIFEST.json"),"a").write("\n")
F=[
("C01 C04","reject empty, short","base address bytes shorter than 57 panicked, longer were truncated"),
("C01","unknown network id","address bytes with network id 2..15 decoded as testnet addresses"),
("C12","no longer alias","credentials of decoded addresses shared memory with the caller's slice"),
("C05 C01","variable length numbers","variable-length numbers above 64 bits wrapped; over-long pointer encodings were accepted and re-encoded differently"),
("C02 C21","render pointer addresses","pointer addresses rendered as base58 or with the wrong prefix"),
("C21 C06","reward addresses to CBOR","a reward address encoded its method value instead of its bytes as CBOR"),
("C01","network magic attribute","Byron addresses with a network magic attribute were rejected or lost it"),
("C01","reproduced byte for byte","Byron addresses with unknown attributes or odd encodings re-encoded to other bytes"),
("C02","prefix or encoding","texts with the wrong prefix or a non-canonical encoding were accepted"),
("C01","bytes behind a Byron","bytes behind a Byron address were silently dropped"),
("C06","outputs to Byron","outputs to Byron addresses were not byte strings"),
("C08 C07 C06","metadata hash in step","the metadata hash went stale, was missing from the hash or bytes, or differed because of map order"),
("C11 C12 C09","MinFee counts","MinFee ignored the number of keys and left a placeholder witness in the transaction"),
("C10 C11","adding change never","change underflowed in deficit, the fee did not cover the change output"),
("C12","same key slice","builders made from one key slice overwrote each other's keys"),
("C12","built transaction no longer","a built transaction changed when its builder went on"),
("C12","builder's are edited","editing the builder's witnesses, inputs or outputs in place changed a transaction built before"),
("C12","no byte slices with its builder","transaction hashes, metadata hash, keys and signatures overwritten in place in the builder showed in transactions built before"),
("C10","output totals above","output totals above 2^64 wrapped and a change output was minted"),
("C18","pass the mainnet flag","--mainnet and --testnet-magic were passed for the wrong networks and as one argument"),
("C18","subcommands and separate","subcommand and option with value were passed as one argument"),
("C06 C08","serializes as null","a nil map or pointer as metadata was serialized as null but its hash stood in the body"),
("C18","failing cardano-cli query","a failing tool gave an empty result without error"),
("C18","every row","the first row was skipped, malformed rows panicked or were accepted"),
("C18","submitting with cardano-cli","submission returned an empty hash and left the file open"),
("C18","empty cardano-cli path","an empty path replaced the default executable"),
("C19","every page","only the first 100 outputs were returned"),
("C19","out of range values","negative and too large numbers in replies wrapped around; malformed hashes were accepted"),
("C26","gives no address beside the error","a Byron address with a wrong checksum gave an address value beside the error"),
("C26","refused with a readable error","a Byron address with a hash of another length or another type gave an error with empty text"),
("C26","without a reply body","a refused submission with an empty reply gave an error with empty text"),
("C19","bare transaction hash","the hash came back in JSON quotes, error text came back as hash"),
]
log=[l.split(" ",1) for l in subprocess.check_output(["git","-C","/repo","log","--format=%h %s"],text=True).splitlines()]
out=[]
for ids,frag,what in F:
    m=[h for h,s in log if frag in s and s.startswith("fix:")]
    if not m:
        raise SystemExit("no commit for "+frag)
    for i in ids.split():
        out.append({"property":i,"key":"","what":what,"status":"fixed: property=%s %s %s"%(i,m[0],what)})
json.dump(out,open(os.path.join(V,"known_findings.json"),"w"),indent=1)
open(os.path.join(V,"known_findings.json"),"a").write("\n")
