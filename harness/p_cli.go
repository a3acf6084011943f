package main

// C18: the cardano-cli backend, observed through a stand-in executable that records
// its arguments and the transaction file it is handed, and answers from a script.

import (
	"bytes"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/rand/v2"
	"os"
	"os/signal"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"syscall"

	"github.com/fivebinaries/go-cardano-serialization/address"
	"github.com/fivebinaries/go-cardano-serialization/network"
	"github.com/fivebinaries/go-cardano-serialization/node"
	"github.com/fivebinaries/go-cardano-serialization/tx"
)

// The stand-in finds its answers next to the path it was started by.
const standIn = `#!/bin/sh
d=${0%/*}
f=$d/call.$$
: > "$f.argv"
p=
for a; do
  printf '%s\0' "$a" >> "$f.argv"
  case $p in --tx-file) cp "$a" "$f.tx"; printf '%s' "$a" > "$f.path" ;; esac
  case $a in --tx-file=*) cp "${a#--tx-file=}" "$f.tx"; printf '%s' "${a#--tx-file=}" > "$f.path" ;; esac
  p=$a
done
{ pwd; printf '%s\n' "$CARDANO_NODE_SOCKET_PATH"; cat /proc/$$/environ; } > "$f.env"
if [ -f "$d/err" ]; then echo "stand-in: failing as told" >&2; fi
if [ -f "$d/warn" ]; then echo "1234567 lovelace 0000 0 1 lovelace" >&2; echo '{"slot": 1}' >&2; fi
if [ -f "$d/slow" ]; then read s n < "$d/slow"; head -c "$n" "$d/out"; sleep "$s"; tail -c +$((n+1)) "$d/out"
elif [ -f "$d/out.$2" ]; then cat "$d/out.$2"; elif [ -f "$d/out" ]; then cat "$d/out"; fi
if [ -f "$d/kill" ]; then kill -KILL $$; fi
if [ -f "$d/rc" ]; then read rc < "$d/rc"; exit "$rc"; fi
exit 0
`

var cliTmp, cliCwd, cliSocket string

// cliEnv is the caller's environment, taken before the first client exists; some cases set the two others.
var cliEnv struct {
	sync.Once
	m map[string]bool
}

func cliEnvOwn(v string) bool {
	return strings.HasPrefix(v, "PATH=") || strings.HasPrefix(v, "TMPDIR=")
}

func cliEnvDiff(env []string) string {
	n := 0
	for _, v := range env {
		if cliEnvOwn(v) {
			continue
		}
		if !cliEnv.m[v] {
			return "+" + short(v, 200)
		}
		n++
	}
	if n != len(cliEnv.m) {
		return fmt.Sprintf("%d of %d variables", n, len(cliEnv.m))
	}
	return ""
}

func cliSetup(m *Monitor) error {
	if err := os.MkdirAll(filepath.Join(m.scratch, "bin"), 0o755); err != nil {
		return err
	}
	if err := os.WriteFile(filepath.Join(m.scratch, "bin", "standin"), []byte(standIn), 0o755); err != nil {
		return err
	}
	cliTmp = filepath.Join(m.scratch, "tmp")
	if err := os.MkdirAll(cliTmp, 0o755); err != nil {
		return err
	}
	makeKeyPool(m.seed, 24)
	cliSocket = filepath.Join(m.scratch, "node socket")
	if err := os.Setenv("CARDANO_NODE_SOCKET_PATH", cliSocket); err != nil {
		return err
	}
	var err error
	if cliCwd, err = os.Getwd(); err != nil {
		return err
	}
	return os.Setenv("TMPDIR", cliTmp)
}

// nodeBook remembers what a client was asked and gave: addresses come back, earlier results must stay as they
// were, and what the caller does to a result must not show in a later one.
type nodeBook struct {
	c     *Ctx
	addrs []AddrSpec
	objs  []address.Address
	held  []heldRows
}

type heldRows struct {
	got  []tx.TxInput
	want []utxoRow
}

func (b *nodeBook) addr() (AddrSpec, address.Address) {
	r := b.c.R
	if len(b.addrs) > 0 && r.IntN(2) == 0 {
		i := r.IntN(len(b.addrs))
		b.c.Feat("address-again")
		if r.IntN(2) == 0 {
			return b.addrs[i], b.objs[i]
		}
		return b.addrs[i], b.addrs[i].Must(b.c)
	}
	s := genAddr(r)
	a := s.Must(b.c)
	b.addrs, b.objs = append(b.addrs, s), append(b.objs, a)
	return s, a
}

func (b *nodeBook) took(got []tx.TxInput, want []utxoRow) {
	for _, h := range b.held {
		checkRows(b.c, h.got, h.want)
		b.c.Ev("earlier-result-unchanged")
	}
	if b.c.R.IntN(2) == 0 {
		b.held = append(b.held, heldRows{got, want})
		return
	}
	for i := range got {
		for j := range got[i].TxHash {
			got[i].TxHash[j] ^= 0x5a
		}
		got[i].Index++
		got[i].Amount += 1 << 20
	}
	_ = append(got, tx.TxInput{})
	b.c.Feat("result-scribbled")
}

type cliCase struct {
	nodeBook
	dir string
	net *network.NetworkInfo
	n   node.Node
	exe string
}

func newCLICase(c *Ctx, onPath bool) *cliCase {
	r := c.R
	cliEnv.Do(func() {
		cliEnv.m = map[string]bool{}
		for _, v := range os.Environ() {
			if !cliEnvOwn(v) {
				cliEnv.m[v] = true
			}
		}
	})
	k := &cliCase{nodeBook: nodeBook{c: c}}
	sub := pick(r, "d", "a dir", "x;y", "q'q", "$HOME")
	name := "cardano-cli"
	if !onPath && r.IntN(2) == 0 {
		name = pick(r, "cli", "cardano cli", "cardano-cli-1.35")
	}
	k.dir = filepath.Join(c.m.scratch, "cli", fmt.Sprintf("%s-%d", c.Stream, c.Idx), sub)
	must(os.MkdirAll(k.dir, 0o755))
	k.exe = filepath.Join(k.dir, name)
	must(os.Symlink(filepath.Join(c.m.scratch, "bin", "standin"), k.exe))
	switch r.IntN(5) {
	case 0:
		k.net = network.MainNet()
	case 1:
		k.net = network.TestNet()
	case 2: // private mainnet-like network
		k.net = &network.NetworkInfo{NetworkId: 1, ProtocolMagic: pick(r, 0, 764824073, u32(r))}
	default:
		k.net = &network.NetworkInfo{NetworkId: 0, ProtocolMagic: pick(r, 0, 1, 2, 42, 1097911063, 4294967295, 2147483648, 764824073, u32(r), u32(r))}
	}
	c.Log("network %+v executable %s", *k.net, k.exe)
	c.Feat(fmt.Sprintf("net/%d", k.net.NetworkId))
	return k
}

func must(err error) {
	if err != nil {
		panic(fmt.Sprintf("harness: %v", err))
	}
}

func (k *cliCase) write(name, s string) {
	must(os.WriteFile(filepath.Join(k.dir, name), []byte(s), 0o644))
}

func (k *cliCase) clean() { os.RemoveAll(filepath.Dir(k.dir)) }

type cliCall struct {
	argv []string
	tx   []byte
	path string
	hasF bool
	env  string
}

// calls returns what the stand-in recorded since the last time.
func (k *cliCase) calls() (out []cliCall) {
	es, err := os.ReadDir(k.dir)
	must(err)
	for _, e := range es {
		if !strings.HasSuffix(e.Name(), ".argv") {
			continue
		}
		base := filepath.Join(k.dir, strings.TrimSuffix(e.Name(), ".argv"))
		b, err := os.ReadFile(base + ".argv")
		must(err)
		var cc cliCall
		if len(b) > 0 {
			cc.argv = strings.Split(string(b[:len(b)-1]), "\x00")
		}
		if t, err := os.ReadFile(base + ".tx"); err == nil {
			cc.tx = t
		}
		if t, err := os.ReadFile(base + ".path"); err == nil {
			cc.path, cc.hasF = string(t), true
		}
		if t, err := os.ReadFile(base + ".env"); err == nil {
			cc.env = string(t)
		}
		out = append(out, cc)
		for _, x := range []string{".argv", ".tx", ".path", ".env"} {
			os.Remove(base + x)
		}
	}
	k.c.events["tool-run-observed"] += int64(len(out))
	return
}

// checkArgs judges one recorded command line. want: option -> value expected (besides the network).
func (k *cliCase) checkArgs(cc cliCall, sub []string, want map[string]string) {
	c := k.c
	c.Log("argv %q", cc.argv)
	own := cliCwd + "\n" + cliSocket + "\n"
	c.Failif(!strings.HasPrefix(cc.env, own), "environment", "the tool ran with directory and socket path %q, the caller's are %q and %q", short(cc.env, 300), cliCwd, cliSocket)
	if d := cliEnvDiff(strings.Split(strings.TrimSuffix(cc.env[len(own):], "\x00"), "\x00")); d != "" {
		c.Fail("environment", "the tool's environment is not the caller's: %s", d)
	}
	c.Ev("whole-environment")
	c.Failif(len(cc.argv) < len(sub), "subcommand", "ran with %q, want subcommand %q", cc.argv, sub)
	for i, s := range sub {
		c.Failif(cc.argv[i] != s, "subcommand", "ran with %q, want subcommand %q", cc.argv, sub)
	}
	flags, opts := map[string]int{}, map[string][]string{}
	takes := map[string]bool{"--testnet-magic": true, "--address": true, "--tx-file": true}
	rest := cc.argv[len(sub):]
	for i := 0; i < len(rest); i++ {
		a := rest[i]
		if j := strings.IndexByte(a, '='); j > 0 && takes[a[:j]] {
			opts[a[:j]] = append(opts[a[:j]], a[j+1:])
			continue
		}
		if takes[a] {
			c.Failif(i+1 >= len(rest), "argument", "option %s has no value in %q", a, cc.argv)
			i++
			opts[a] = append(opts[a], rest[i])
			continue
		}
		c.Failif(a != "--mainnet", "argument", "the tool does not know argument %q (in %q)", a, cc.argv)
		flags[a]++
	}
	w := map[string]string{}
	for o, v := range want {
		w[o] = v
	}
	if k.net.NetworkId == 1 {
		c.Failif(flags["--mainnet"] != 1, "network-flag", "mainnet call without a single --mainnet: %q", cc.argv)
	} else {
		c.Failif(flags["--mainnet"] != 0, "network-flag", "testnet call with --mainnet: %q", cc.argv)
		w["--testnet-magic"] = fmt.Sprint(k.net.ProtocolMagic)
	}
	for o, v := range w {
		c.Failif(len(opts[o]) != 1, "option", "option %s given %d times in %q", o, len(opts[o]), cc.argv)
		c.Failif(v != "*" && opts[o][0] != v, "option-value", "option %s is %q, want %q", o, opts[o][0], v)
		delete(opts, o)
	}
	c.Failif(len(opts) > 0, "option", "unexpected options in %q", cc.argv)
	c.Ev("argv-checked")
}

func (k *cliCase) one(sub []string, want map[string]string) cliCall {
	cs := k.calls()
	k.c.Failif(len(cs) != 1, "runs", "the tool ran %d times instead of once for %v", len(cs), sub)
	k.checkArgs(cs[0], sub, want)
	return cs[0]
}

type utxoRow struct {
	hash []byte
	ix   uint16
	amt  uint64
	line string
}

func genRow(r *rand.Rand) utxoRow {
	u := utxoRow{hash: hbytes(r, 32), ix: u16(r), amt: lovelace(r)}
	if r.IntN(4) == 0 {
		u.amt = u64(r)
	}
	extra := pick(r, "", " + TxOutDatumNone", " + TxOutDatumNone", fmt.Sprintf(" + %d %s.%s + TxOutDatumNone", u64(r), hex.EncodeToString(rbytes(r, 28)), hex.EncodeToString(rbytes(r, 4))),
		fmt.Sprintf(" + %d %s + %d %s.746f + TxOutDatumHash ScriptDataInAlonzoEra \"%s\"", r.IntN(9), hex.EncodeToString(rbytes(r, 28)), u64(r), hex.EncodeToString(rbytes(r, 28)), hex.EncodeToString(rbytes(r, 32))))
	u.line = row(hex.EncodeToString(u.hash), fmt.Sprint(u.ix), fmt.Sprintf("%d lovelace%s", u.amt, extra), r)
	return u
}

func row(hash, ix, rest string, r *rand.Rand) string {
	switch r.IntN(3) {
	case 0:
		return fmt.Sprintf("%s %s %s", hash, ix, rest)
	case 1:
		return fmt.Sprintf("%s  %4s        %s", hash, ix, rest)
	}
	return fmt.Sprintf("%s     %s        %s", hash, ix, rest)
}

const utxoHead = "                           TxHash                                 TxIx        Amount\n--------------------------------------------------------------------------------------\n"

func rowsN(r *rand.Rand) int {
	switch r.IntN(12) {
	case 0:
		return 0
	case 1:
		return 20 + r.IntN(30)
	case 2:
		return pick(r, 100, 101, 250)
	}
	return 1 + r.IntN(6)
}

func checkRows(c *Ctx, got []tx.TxInput, want []utxoRow) {
	c.Failif(len(got) != len(want), "utxo-count", "%d unspent outputs reported, the source had %d", len(got), len(want))
	for i, w := range want {
		g := got[i]
		c.Failif(!bytes.Equal(g.TxHash, w.hash), "utxo-hash", "row %d: hash %x, want %x", i, g.TxHash, w.hash)
		c.Failif(g.Index != w.ix, "utxo-index", "row %d: index %d, want %d", i, g.Index, w.ix)
		c.Failif(uint64(g.Amount) != w.amt, "utxo-amount", "row %d: amount %d, want %d", i, g.Amount, w.amt)
	}
	c.events["utxo-compared"] += int64(len(want))
}

func (k *cliCase) utxos(r *rand.Rand) {
	c := k.c
	a, addr := k.addr()
	n := rowsN(r)
	var rows []utxoRow
	var sb strings.Builder
	sb.WriteString(utxoHead)
	for i := 0; i < n; i++ {
		u := genRow(r)
		if i > 0 && r.IntN(6) == 0 { // another output of the same transaction, in the middle
			u.hash = rows[r.IntN(len(rows))].hash
			u.line = row(hex.EncodeToString(u.hash), fmt.Sprint(u.ix), fmt.Sprintf("%d lovelace", u.amt), r)
		}
		if i > 0 && r.IntN(10) == 0 { // same index and amount, other transaction
			u.ix, u.amt = rows[0].ix, rows[0].amt
			u.line = row(hex.EncodeToString(u.hash), fmt.Sprint(u.ix), fmt.Sprintf("%d lovelace", u.amt), r)
		}
		if r.IntN(150) == 0 { // an output holding very many assets
			var ex strings.Builder
			for j := pick(r, 300, 800, 1500); j > 0; j-- {
				fmt.Fprintf(&ex, " + %d %x.%x", u64(r), rbytes(r, 28), rbytes(r, 8))
			}
			u.line = row(hex.EncodeToString(u.hash), fmt.Sprint(u.ix), fmt.Sprintf("%d lovelace%s + TxOutDatumNone", u.amt, ex.String()), r)
			c.Feat("long-row")
		}
		rows = append(rows, u)
		sb.WriteString(u.line)
		sb.WriteByte('\n')
	}
	text := sb.String()
	if n > 0 && r.IntN(6) == 0 {
		text = strings.TrimSuffix(text, "\n")
		c.Feat("no-final-newline")
	}
	switch {
	case n == 0:
		c.Feat("no-rows")
	case n > 19:
		c.Feat("many-rows")
	default:
		c.Feat("some-rows")
	}
	k.write("out", text)
	c.Log("utxos %s rows %d", a.Text(), n)
	got, err := k.n.UTXOs(addr)
	k.one([]string{"query", "utxo"}, map[string]string{"--address": a.Text()})
	c.Failif(err != nil, "utxo-error", "a good table is rejected: %v", err)
	checkRows(c, got, rows)
	k.took(got, rows)
	c.Case("utxos", text)
	c.Sample(map[string]any{"call": "UTXOs", "address": a.Text(), "rows": n, "network": *k.net})
}

func (k *cliCase) params(r *rand.Rand) {
	f := genProtoFile(r)
	k.write("out", f.text)
	k.c.Log("params %s", short(f.text, 2000))
	got, err := k.n.ProtocolParameters()
	k.one([]string{"query", "protocol-parameters"}, nil)
	k.c.Failif(err != nil, "params-error", "good parameters rejected: %v", err)
	k.c.Failif(got != f.want, "params-values", "parameters %+v, want %+v", got, f.want)
	k.c.Ev("params-compared")
	k.c.Case("params", f.text)
}

type tipSpec struct {
	slot, epoch, block uint64
	text               string
}

func genTip(r *rand.Rand, max uint64) tipSpec {
	v := func() uint64 {
		x := pick(r, u64(r), uint64(r.IntN(1<<30)), 0)
		if x > max {
			x = max
		}
		return x
	}
	t := tipSpec{slot: v(), epoch: v(), block: v()}
	f := []string{fmt.Sprintf(`"epoch": %d`, t.epoch), fmt.Sprintf(`"slot": %d`, t.slot), fmt.Sprintf(`"block": %d`, t.block), fmt.Sprintf(`"hash": "%x"`, rbytes(r, 32)),
		`"era": "Alonzo"`, `"syncProgress": "100.00"`, `"slotInEpoch": 12345`, `"slotsToEpochEnd": 77`}
	r.Shuffle(len(f), func(i, j int) { f[i], f[j] = f[j], f[i] })
	t.text = "{\n    " + strings.Join(f, ",\n    ") + "\n}\n"
	return t
}

func checkTip(c *Ctx, got node.NetworkTip, err error, t tipSpec) {
	c.Failif(err != nil, "tip-error", "a good tip is rejected: %v", err)
	c.Failif(uint64(got.Slot) != t.slot || uint64(got.Epoch) != t.epoch || uint64(got.Block) != t.block, "tip-values", "tip %+v, want slot %d epoch %d block %d", got, t.slot, t.epoch, t.block)
	c.Ev("tip-compared")
}

func (k *cliCase) tip(r *rand.Rand) {
	t := genTip(r, 1<<64-1)
	k.write("out", t.text)
	k.c.Log("tip %s", t.text)
	got, err := k.n.QueryTip()
	k.one([]string{"query", "tip"}, nil)
	checkTip(k.c, got, err, t)
	k.c.Case("tip", t.text)
}

// genSubmit makes a finished transaction, its bytes and its hash.
func genSubmit(c *Ctx) (tx.Tx, []byte, string) {
	h := newHist(c, c.R.IntN(4) != 0)
	h.addInputs(1 + c.R.IntN(3))
	h.addOutputs(1 + c.R.IntN(3))
	if c.R.IntN(2) == 0 {
		h.setMeta()
	}
	var t tx.Tx
	if h.tb != nil {
		h.tb.Tx().SetFee(uint(170000 + c.R.IntN(9999)))
		t = h.build()
	} else {
		t = *h.t
	}
	raw, err := t.Bytes()
	if err != nil {
		return t, nil, ""
	}
	p := parseTx(c, raw)
	return t, raw, hex.EncodeToString(refBlake2b(32, p.bodyRaw))
}

func (k *cliCase) checkFile(cc cliCall, raw []byte) {
	c := k.c
	c.Failif(!cc.hasF, "tx-file", "no transaction file was handed over")
	var env struct {
		CborHex *string `json:"cborHex"`
	}
	err := json.Unmarshal(cc.tx, &env)
	c.Failif(err != nil || env.CborHex == nil, "tx-file", "transaction file %q is not the expected envelope: %v", short(string(cc.tx), 300), err)
	got, err := hex.DecodeString(*env.CborHex)
	c.Failif(err != nil || !bytes.Equal(got, raw), "tx-file-bytes", "transaction file holds %s, want %s", short(*env.CborHex, 400), hx(raw))
	_, serr := os.Lstat(cc.path)
	c.Failif(serr == nil, "temp-file", "%s is left behind", cc.path)
	c.Ev("tx-file-checked")
}

func (k *cliCase) submit(r *rand.Rand) {
	c := k.c
	t, raw, hash := genSubmit(c)
	k.write("out", pick(r, "Transaction successfully submitted.\n", "", "{}\n"))
	got, err := k.n.SubmitTx(t)
	if raw == nil {
		cs := k.calls()
		c.Failif(err == nil || len(cs) != 0, "submit-unserializable", "a transaction that cannot be serialized was submitted: runs %d, error %v", len(cs), err)
		c.Feat("unserializable")
		return
	}
	cc := k.one([]string{"transaction", "submit"}, map[string]string{"--tx-file": "*"})
	k.checkFile(cc, raw)
	c.Failif(err != nil, "submit-error", "submission the tool accepted gives %v", err)
	c.Failif(got != hash, "submit-hash", "submission returned %q, want %q", got, hash)
	c.Ev("submit-checked")
	c.Case("submit", raw)
}

// any makes one of the calls and judges it.
func (k *cliCase) any(r *rand.Rand) {
	switch r.IntN(5) {
	case 0, 1:
		k.utxos(r)
	case 2:
		k.params(r)
	case 3:
		k.tip(r)
	case 4:
		k.submit(r)
	}
}

func (k *cliCase) tempEmpty() {
	es, err := os.ReadDir(cliTmp)
	must(err)
	if len(es) > 0 {
		k.c.Fail("temp-file", "the temporary directory still holds %s", es[0].Name())
	}
	k.c.Ev("temp-dir-empty")
}

func fdCount() int {
	es, _ := os.ReadDir("/proc/self/fd")
	return len(es)
}

func init() {
	register(&Property{
		ID: "C18",
		Setup: func(m *Monitor) error {
			dictEnv(m.seed)
			return cliSetup(m)
		},
		Rule: "each case runs the real backend against a recording stand-in executable: random networks, addresses, tables of 0..250 rows (multi-asset rows, padding, missing final newline), parameter and tip documents, signed transactions; " +
			"then tool failures (exit status, signal, missing or unrunnable file) and single defects in the output; non-trivial = distinct tool output or submitted transaction",
		Require: []string{"net/0", "net/1", "no-rows", "some-rows", "many-rows", "no-final-newline", "argv-checked", "utxo-compared", "params-compared", "tip-compared", "submit-checked", "tx-file-checked",
			"fail/exit", "fail/kill", "fail/missing", "fail/not-executable", "fail/directory", "bad-row", "bad-json", "default-path", "concurrent-submit", "temp-dir-empty", "fd-census", "temp-dir-missing", "disk-full", "second-path", "long-row", "tool-warns", "works-again", "address-again", "result-scribbled", "earlier-result-unchanged", "slow-tool", "unserializable", "whole-environment"},
		Assume: []string{"the stand-in prints what cardano-cli documents; option order and --opt=value spelling are not constrained"},
		Streams: []Stream{
			{Name: "calls", Quick: 8000, Thor: 40000, Run: func(c *Ctx) {
				k := newCLICase(c, false)
				defer k.clean()
				k.n = node.NewCardanoCliNode(k.net, k.exe)
				if c.R.IntN(6) == 0 { // only the first path counts
					k.n = node.NewCardanoCliNode(k.net, k.exe, pick(c.R, k.exe+".absent", "", "/bin/false"))
					c.Feat("second-path")
				}
				if c.R.IntN(8) == 0 {
					k.write("warn", "")
					c.Feat("tool-warns")
				}
				for i := 1 + c.R.IntN(4); i > 0; i-- {
					k.any(c.R)
				}
			}},
			{Name: "malformed", Quick: 8000, Thor: 40000, Run: func(c *Ctx) {
				r := c.R
				k := newCLICase(c, false)
				defer k.clean()
				k.n = node.NewCardanoCliNode(k.net, k.exe)
				if r.IntN(3) == 0 {
					k.badJSON(r)
					return
				}
				n := 1 + r.IntN(5)
				bad := r.IntN(n)
				var sb strings.Builder
				sb.WriteString(utxoHead)
				what := ""
				for i := 0; i < n; i++ {
					u := genRow(r)
					if i == bad {
						what, u.line = badRow(r, u)
					}
					sb.WriteString(u.line + "\n")
				}
				c.Feat("bad-row/" + what)
				c.Feat("bad-row")
				k.write("out", sb.String())
				c.Log("%s in %s", what, sb.String())
				c.Case(sb.String())
				got, err := k.n.UTXOs(genAddr(r).Must(c))
				c.Failif(err == nil, "bad-row-accepted:"+what, "a table with a row with %s gives %d outputs and no error", what, len(got))
				k.calls()
			}},
			{Name: "failing", Quick: 4000, Thor: 20000, Run: func(c *Ctx) {
				r := c.R
				k := newCLICase(c, false)
				defer k.clean()
				exe := k.exe
				kind := pick(r, "exit", "exit", "kill", "missing", "not-executable", "directory")
				good := r.IntN(2) == 0 // a good answer on stdout must not hide the failure
				switch kind {
				case "exit":
					k.write("rc", fmt.Sprint(1+r.IntN(255))+"\n")
				case "kill":
					k.write("kill", "")
				case "missing":
					exe = k.exe + ".absent"
				case "not-executable":
					exe = filepath.Join(k.dir, "plain")
					k.write("plain", "#!/bin/sh\nexit 0\n")
				case "directory":
					exe = k.dir
				}
				if r.IntN(2) == 0 {
					k.write("err", "")
				}
				c.Feat("fail/" + kind)
				k.n = node.NewCardanoCliNode(k.net, exe)
				call := pick(r, "utxos", "params", "tip", "submit")
				c.Log("%s while the tool fails by %s (output present: %v)", call, kind, good)
				c.Case(kind, call, good, c.Idx)
				var err error
				ran := kind == "exit" || kind == "kill"
				switch call {
				case "utxos":
					if good {
						k.write("out", utxoHead+genRow(r).line+"\n")
					}
					a := genAddr(r)
					_, err = k.n.UTXOs(a.Must(c))
					if ran {
						k.one([]string{"query", "utxo"}, map[string]string{"--address": a.Text()})
					}
				case "params":
					if good {
						k.write("out", genProtoFile(r).text)
					}
					_, err = k.n.ProtocolParameters()
				case "tip":
					if good {
						k.write("out", genTip(r, 1<<64-1).text)
					}
					_, err = k.n.QueryTip()
				case "submit":
					t, raw, _ := genSubmit(c)
					if good {
						k.write("out", "Transaction successfully submitted.\n")
					}
					_, err = k.n.SubmitTx(t)
					if raw != nil && ran {
						cc := k.one([]string{"transaction", "submit"}, map[string]string{"--tx-file": "*"})
						k.checkFile(cc, raw)
					}
				}
				c.Failif(err == nil, "failure-hidden:"+call, "%s succeeds although the tool failed (%s)", call, kind)
				c.Ev("failure-reported")
				if ran { // the tool works again
					for _, f := range []string{"rc", "kill", "err", "out"} {
						os.Remove(filepath.Join(k.dir, f))
					}
					k.calls()
					k.any(r)
					c.Ev("works-again")
				}
			}},
			{Name: "concurrent", Quick: 500, Thor: 3000, Workers: 4, Run: func(c *Ctx) {
				k := newCLICase(c, false)
				defer k.clean()
				k.n = node.NewCardanoCliNode(k.net, k.exe)
				k.write("out", "Transaction successfully submitted.\n")
				n := 2 + c.R.IntN(5)
				ts, want, got, errs := make([]tx.Tx, n), make([]string, n), make([]string, n), make([]error, n)
				raws := map[string]int{}
				for i := range ts {
					var raw []byte
					for raw == nil {
						ts[i], raw, want[i] = genSubmit(c)
					}
					raws[string(raw)]++
				}
				var wg sync.WaitGroup
				for i := range ts {
					wg.Add(1)
					go func() { defer wg.Done(); got[i], errs[i] = k.n.SubmitTx(ts[i]) }()
				}
				wg.Wait()
				cs := k.calls()
				c.Failif(len(cs) != n, "runs", "%d concurrent submissions ran the tool %d times", n, len(cs))
				for i := range ts {
					c.Failif(errs[i] != nil, "submit-error", "concurrent submission gives %v", errs[i])
					c.Failif(got[i] != want[i], "submit-hash", "concurrent submission returned %q, want %q", got[i], want[i])
				}
				for _, cc := range cs {
					k.checkArgs(cc, []string{"transaction", "submit"}, map[string]string{"--tx-file": "*"})
					var env struct {
						CborHex string `json:"cborHex"`
					}
					json.Unmarshal(cc.tx, &env)
					b, _ := hex.DecodeString(env.CborHex)
					raws[string(b)]--
				}
				for b, v := range raws {
					c.Failif(v != 0, "tx-file-bytes", "transaction %s was submitted %+d times too few among concurrent submissions", hx([]byte(b)), v)
				}
				c.Ev("concurrent-submit")
			}},
			{Name: "default", Quick: 120, Thor: 1500, Workers: 1, Run: func(c *Ctx) {
				k := newCLICase(c, true)
				defer k.clean()
				old := os.Getenv("PATH")
				defer os.Setenv("PATH", old)
				os.Setenv("PATH", k.dir+":"+old)
				if c.R.IntN(2) == 0 {
					k.n = node.NewCardanoCliNode(k.net)
				} else {
					k.n = node.NewCardanoCliNode(k.net, "")
				}
				c.Feat("default-path")
				k.utxos(c.R)
				k.params(c.R)
				k.tip(c.R)
				k.submit(c.R)
			}},
			// a tool that takes its time: before the first byte or in the middle of its output
			{Name: "slow", Fixed: true, Quick: 8, Thor: 16, Workers: 16, Run: func(c *Ctx) {
				k := newCLICase(c, false)
				defer k.clean()
				k.n = node.NewCardanoCliNode(k.net, k.exe)
				k.write("slow", fmt.Sprintf("%d %d\n", []int{12, 2, 4, 6, 11, 2, 3, 8, 35, 65, 20, 16, 25, 32, 7, 3}[c.Idx], pick(c.R, 0, 1, 10, 100)))
				switch c.Idx % 4 {
				case 0:
					k.utxos(c.R)
				case 1:
					k.params(c.R)
				case 2:
					k.tip(c.R)
				default:
					k.submit(c.R)
				}
				c.Feat("slow-tool")
			}},
			{Name: "descriptors", Quick: 2, Thor: 10, Workers: 1, Run: func(c *Ctx) {
				k := newCLICase(c, false)
				defer k.clean()
				k.n = node.NewCardanoCliNode(k.net, k.exe)
				if c.Idx%2 == 1 {
					k.write("rc", "1\n")
				}
				t, raw, _ := genSubmit(c)
				for raw == nil {
					t, raw, _ = genSubmit(c)
				}
				defer debug.SetGCPercent(debug.SetGCPercent(-1)) // no finalizer may close a forgotten file
				before := fdCount()
				for i := 0; i < 60; i++ {
					k.n.SubmitTx(t)
				}
				after := fdCount()
				c.Failif(after >= before+30, "descriptors", "60 submissions left %d descriptors open", after-before)
				c.Ev("fd-census")
				k.tempEmpty()
			}},
			// writing the transaction file fails part way, as on a full disk
			{Name: "disk-full", Quick: 40, Thor: 200, Workers: 1, Run: func(c *Ctx) {
				k := newCLICase(c, false)
				defer k.clean()
				k.n = node.NewCardanoCliNode(k.net, k.exe)
				t, raw, _ := goodTx(c)
				signal.Ignore(syscall.SIGXFSZ)
				defer signal.Reset(syscall.SIGXFSZ)
				var old syscall.Rlimit
				must(syscall.Getrlimit(syscall.RLIMIT_FSIZE, &old))
				lim := old
				lim.Cur = uint64(c.R.IntN(200))
				must(syscall.Setrlimit(syscall.RLIMIT_FSIZE, &lim))
				got, err := k.n.SubmitTx(t)
				must(syscall.Setrlimit(syscall.RLIMIT_FSIZE, &old))
				c.Log("file size limit %d, transaction of %d bytes", lim.Cur, len(raw))
				cs := k.calls()
				c.Failif(len(cs) > 0 && cs[0].hasF, "truncated-file", "the tool was run although the transaction file could not be written")
				c.Failif(err == nil, "failure-hidden:disk-full", "submission returned %q although the transaction file could not be written", got)
				c.Feat("disk-full")
			}},
			{Name: "unserializable", Quick: 200, Thor: 2000, Workers: 1, Run: func(c *Ctx) {
				k := newCLICase(c, false)
				defer k.clean()
				k.n = node.NewCardanoCliNode(k.net, k.exe)
				h := newHist(c, false)
				h.addInputs(1)
				h.addOutputs(1)
				h.t.Metadata = badMeta(c.R)
				if _, err := h.t.Bytes(); err == nil {
					return
				}
				k.write("out", "Transaction successfully submitted.\n")
				got, err := k.n.SubmitTx(*h.t)
				cs := k.calls()
				c.Failif(err == nil || len(cs) != 0, "submit-unserializable", "a transaction that cannot be serialized was submitted: %q, runs %d, error %v", got, len(cs), err)
				k.tempEmpty()
				c.Feat("unserializable")
			}},
			{Name: "no-temp-dir", Quick: 10, Thor: 40, Workers: 1, Run: func(c *Ctx) {
				k := newCLICase(c, false)
				defer k.clean()
				k.n = node.NewCardanoCliNode(k.net, k.exe)
				t, _, _ := genSubmit(c)
				os.Setenv("TMPDIR", cliTmp+"/absent")
				defer os.Setenv("TMPDIR", cliTmp)
				got, err := k.n.SubmitTx(t)
				cs := k.calls()
				if len(cs) == 0 { // an implementation without a temporary file may succeed
					c.Failif(err == nil, "failure-hidden:temp", "submission without a transaction file returned %q", got)
				}
				c.Feat("temp-dir-missing")
			}},
		},
		Finish: func(m *Monitor) {
			es, _ := os.ReadDir(cliTmp)
			if len(es) > 0 {
				names := []string{}
				for _, e := range es {
					names = append(names, e.Name())
				}
				sort.Strings(names)
				m.report(Violation{Stream: "descriptors", Key: "temp-file", Message: fmt.Sprintf("%d temporary files left behind after all submissions, such as %s", len(es), names[0])})
			}
			m.events["temp-dir-empty"]++
		},
	})
}

// badRow damages one field of a row.
func badRow(r *rand.Rand, u utxoRow) (string, string) {
	hs := hex.EncodeToString(u.hash)
	tail := " lovelace + TxOutDatumNone"
	switch r.IntN(8) {
	case 7:
		unit := pick(r, "ada", "ADA", "lovelaces", "Lovelace", "lovelac", "57fca08abbaddee36da742a839f7d83a7e1d2419f1507fcbf3916522.43484f43", "+", "TxOutDatumNone")
		return "bad unit", row(hs, fmt.Sprint(u.ix), fmt.Sprint(u.amt)+" "+unit+pick(r, "", " + TxOutDatumNone"), r)
	case 6:
		return "separator or message", pick(r, "-----", strings.Repeat("-", 86), "Warning: node is syncing", "# comment", "...", "TxHash TxIx Amount", "cardano-cli: Network.Socket.connect: does not exist")
	case 0:
		ix := pick(r, "x", "-1", "65536", "65537", "131072", "4294967296", "1.5", "0x1", "1_0", "+1", "0b1", "18446744073709551616")
		return "bad index", row(hs, ix, fmt.Sprint(u.amt)+tail, r)
	case 1:
		am := pick(r, "abc", "-5", "-1", "18446744073709551616", "18446744073709551617", "99999999999999999999999", "1.5", "1e6", "0x10", "1,000", "1_000", "0b1", "+5")
		return "bad amount", row(hs, fmt.Sprint(u.ix), am+tail, r)
	case 2:
		h := pick(r, hs[:62], hs[:63], hs+"00", hs+"0", "zz"+hs[2:], hs[:63]+"g", "0x"+hs[2:], hs[:31]+"-"+hs[32:])
		return "bad hash", row(h, fmt.Sprint(u.ix), fmt.Sprint(u.amt)+tail, r)
	case 3:
		return "missing amount", hs + "     " + fmt.Sprint(u.ix)
	case 4:
		return "missing fields", hs
	}
	return "missing index", hs + "   " + fmt.Sprint(u.amt) + tail
}

func (k *cliCase) badJSON(r *rand.Rand) {
	c := k.c
	var text string
	kind := pick(r, "truncated", "garbage", "ill-typed", "out-of-range", "trailing")
	tip := r.IntN(2) == 0
	if tip {
		text = genTip(r, 1<<64-1).text
	} else {
		text = genProtoFile(r).text
	}
	switch kind {
	case "truncated":
		text = text[:1+r.IntN(strings.LastIndexByte(text, '}')-1)]
	case "trailing":
		text += pick(r, "x", "}", "{", "]", ",", "Network error", "null", text, "\x00", "1")
	case "garbage":
		text = pick(r, "not json", "{", "Network error", "\x00\x01", "{,}", "<html></html>", "[", "{'slot': 1}", "slot: 12\n")
	default:
		bad := pick(r, `"44"`, `true`, `[1]`, `{}`, `1.5`)
		if kind == "out-of-range" {
			bad = pick(r, "-1", "18446744073709551616", "1e30")
		}
		if tip {
			fs := []string{`"slot": 5`, `"epoch": 6`, `"block": 7`, `"era": "Alonzo"`}
			i := r.IntN(3)
			fs[i] = fs[i][:len(fs[i])-1] + bad
			r.Shuffle(len(fs), func(i, j int) { fs[i], fs[j] = fs[j], fs[i] })
			text = "{" + strings.Join(fs, ", ") + "}"
		} else {
			text = genProtoBroken(r, bad, `{"x":1}`).text
			if kind == "out-of-range" {
				text = genProtoBroken(r, bad, "256").text
			}
		}
	}
	k.write("out", text)
	c.Feat("bad-json")
	c.Feat("bad-json/" + kind)
	c.Case(text)
	c.Log("%s document %q (tip: %v)", kind, text, tip)
	var err error
	if tip {
		_, err = k.n.QueryTip()
	} else {
		_, err = k.n.ProtocolParameters()
	}
	c.Failif(err == nil, "bad-document-accepted:"+kind, "a %s document is accepted", kind)
	k.calls()
}
