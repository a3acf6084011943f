package main

// C22: secrets stay inside. A fresh process makes keys, addresses, signatures and transactions and talks to the
// stand-in tool and service; everything it lets out (results that are not private keys, error texts, standard
// output and error, files, command lines, environments, requests) is searched for pieces of the secrets it used,
// as bytes and in the usual text encodings.

import (
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io/fs"
	"math/big"
	"math/rand/v2"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"

	"github.com/fivebinaries/go-cardano-serialization/address"
	"github.com/fivebinaries/go-cardano-serialization/bip32"
	"github.com/fivebinaries/go-cardano-serialization/fees"
	"github.com/fivebinaries/go-cardano-serialization/network"
	"github.com/fivebinaries/go-cardano-serialization/node"
	"github.com/fivebinaries/go-cardano-serialization/protocol"
	"github.com/fivebinaries/go-cardano-serialization/tx"
)

const leakWin = 10

type leakSecret struct {
	Name string `json:"n"`
	B    []byte `json:"b"`
	Pub  bool   `json:"p"` // chain code: part of the public half as well
}

type leakSink struct {
	Name string `json:"n"`
	B    []byte `json:"b"`
	Pub  bool   `json:"p"` // may hold a chain code
}

type leakReport struct {
	Secrets []leakSecret   `json:"secrets"`
	Sinks   []leakSink     `json:"sinks"`
	Events  map[string]int `json:"events"`
}

const leakStandIn = `#!/bin/sh
d=${0%/*}
f=$d/call.$$
p=
{
printf '%s\n' "$0"
for a; do
  printf '%s\n' "$a"
  case $p in --tx-file) cat "$a" ;; esac
  case $a in --tx-file=*) cat "${a#--tx-file=}" ;; esac
  p=$a
done
env
cat
ls -a "$TMPDIR" .
cat "$TMPDIR"/* ./* 2> /dev/null
} > "$f.seen"
if [ -f "$d/err" ]; then echo "stand-in: failing as told" >&2; fi
if [ -f "$d/out.$2" ]; then cat "$d/out.$2"; fi
if [ -f "$d/rc" ]; then read rc < "$d/rc"; exit "$rc"; fi
exit 0
`

type leaker struct {
	r   *rand.Rand
	rep leakReport
}

func (l *leaker) secret(name string, b []byte) {
	if len(b) >= leakWin {
		l.rep.Secrets = append(l.rep.Secrets, leakSecret{Name: name, B: append([]byte{}, b...)})
	}
}

func (l *leaker) key(name string, k bip32.XPrv) bip32.XPrv {
	if len(k) != 96 {
		return k
	}
	l.secret(name, k[:64])
	l.rep.Secrets = append(l.rep.Secrets, leakSecret{Name: name + " chain code", B: append([]byte{}, k[64:]...), Pub: true})
	l.rep.Events["key"]++
	return k
}

func (l *leaker) sink(name string, vs ...any) {
	for _, v := range vs {
		var b []byte
		switch x := v.(type) {
		case nil:
			continue
		case []byte:
			b = x
		case string:
			b = []byte(x)
		case error:
			b = []byte(x.Error())
			l.rep.Events["error-text"]++
		default:
			b = []byte(fmt.Sprintf("%v", x))
		}
		l.rep.Sinks = append(l.rep.Sinks, leakSink{Name: name, B: append([]byte{}, b...), Pub: name == "extended public key"})
	}
	l.rep.Events["sink:"+name]++
}

func (l *leaker) try(name string, f func()) {
	defer func() {
		if p := recover(); p != nil {
			l.sink("panic in "+name, fmt.Sprint(p))
			l.rep.Events["panic"]++
		}
	}()
	l.rep.Events["op:"+name]++
	f()
}

func (l *leaker) newKey() bip32.XPrv {
	r := l.r
	var k bip32.XPrv
	if r.IntN(3) == 0 {
		ent := rbytes(r, pick(r, 16, 20, 24, 28, 32))
		pw := []byte(hex.EncodeToString(rbytes(r, 4)) + string(rbytes(r, 6)))
		if r.IntN(3) == 0 {
			pw = nil
		}
		l.secret("entropy", ent)
		l.secret("password", pw)
		k = bip32.FromBip39Entropy(ent, pw)
	} else {
		seed := rbytes(r, 32)
		l.secret("seed", seed)
		var err error
		if k, err = bip32.NewXPrv(seed); err != nil {
			l.sink("error", err)
			k = rbytes(r, 96)
		}
	}
	l.key("root key", k)
	for d := r.IntN(4); d > 0; d-- {
		k = l.key("derived key", k.Derive(u32(r)))
	}
	return k
}

func (l *leaker) addr() address.Address {
	for {
		if a, err := genAddr(l.r).Build(l.r); err == nil {
			return a
		}
	}
}

func (l *leaker) showTx(t *tx.Tx) {
	b, err := t.Bytes()
	l.sink("transaction bytes", b, err)
	x, err := t.Hex()
	l.sink("transaction hex", x, err)
	h, err := t.Hash()
	l.sink("transaction hash", h[:], err)
	f, err := t.Fee(fees.NewLinearFee(44, 155381))
	l.sink("transaction fee", fmt.Sprint(f), err)
	if t.Body != nil {
		b, err = t.Body.Bytes()
		l.sink("body bytes", b, err)
		x, err = t.Body.Hex()
		l.sink("body hex", x, err)
	}
	l.sink("printed transaction", fmt.Sprintf("%v %+v", *t, *t))
	if t.Witness != nil {
		l.sink("printed transaction", fmt.Sprintf("%+v", *t.Witness))
		for _, w := range t.Witness.Keys {
			l.sink("witness", w.VKey, w.Signature)
		}
	}
	if j, err := json.Marshal(t); err == nil {
		l.sink("transaction JSON", j)
	}
}

func (l *leaker) round(exe, dir, project string) {
	r := l.r
	net := pick(r, network.MainNet(), network.TestNet())
	var ks []bip32.XPrv
	l.try("keys", func() {
		for i := 1 + r.IntN(3); i > 0; i-- {
			ks = append(ks, l.newKey())
		}
		for i := r.IntN(3); i > 0; i-- {
			seed := rbytes(r, pick(r, 0, 16, 31, 33, 64, 96, leakWin+r.IntN(100)))
			if len(seed) == 32 {
				continue
			}
			k, err := bip32.NewXPrv(seed)
			l.secret("rejected seed", seed)
			l.sink("error", err)
			if err == nil {
				l.key("root key", k)
			}
			l.rep.Events["seed-rejected"]++
		}
	})
	for _, k := range ks {
		l.try("public", func() {
			p := k.Public()
			l.sink("extended public key", []byte(p))
			l.sink("public key", []byte(p.PublicKey()))
			h := p.PublicKey().Hash()
			l.sink("key hash", h[:])
			e := address.NewEnterpriseAddress(net, address.NewKeyStakeCredential(h[:]))
			b := address.NewBaseAddress(net, address.NewKeyStakeCredential(h[:]), address.NewKeyStakeCredential(h[:]))
			m, err := b.MarshalCBOR()
			l.sink("address", e.String(), b.String(), e.Bytes(), b.Bytes(), m, err)
			mk := bip32.MakePublicKey(k[:64])
			l.sink("public key", mk[:])
		})
		l.try("sign", func() {
			for i := 1 + r.IntN(2); i > 0; i-- {
				s := k.Sign(rbytes(r, pick(r, 0, 1, 32, 64, 200)))
				l.sink("signature", s[:])
			}
		})
	}
	for i := r.IntN(3); i > 0; i-- { // a key of the wrong length: whatever happens, the message must not show it
		bad := bip32.XPrv(rbytes(r, pick(r, 32, 63, 64, 65, 95, 97, 128, leakWin+r.IntN(90))))
		l.secret("misshapen key", bad)
		l.rep.Events["misshapen-key"]++
		l.try("misshapen key", func() {
			s := bad.Sign(rbytes(r, 32))
			l.sink("signature", s[:])
		})
		l.try("misshapen key", func() { bad.Derive(u32(r)) })
		l.try("misshapen key", func() { bad.Derive(u32(r) | 0x80000000) })
		l.try("misshapen key", func() {
			tb := tx.NewTxBuilder(protocol.Protocol{TxFeePerByte: 44}, []bip32.XPrv{bad})
			tb.Sign(bad)
			l.sink("fee", fmt.Sprint(tb.MinFee()))
			t, err := tb.Build()
			l.sink("build error", err)
			if err == nil {
				l.showTx(&t)
			}
		})
	}
	var t tx.Tx
	l.try("transaction", func() {
		n := r.IntN(len(ks) + 1)
		tb := tx.NewTxBuilder(protocol.Protocol{TxFeePerByte: 44, TxFeeFixed: 155381, MaxTxSize: uint(pick(r, 0, 100, 16384)), MinUTXOValue: uint(pick(r, 0, 1000000))}, ks[:n])
		for i := r.IntN(4); i > 0; i-- {
			tb.AddInputs(tx.NewTxInput(hex.EncodeToString(rbytes(r, 32)), u16(r), uint(lovelace(r))>>2))
		}
		for i := r.IntN(4); i > 0; i-- {
			tb.AddOutputs(tx.NewTxOutput(l.addr(), uint(lovelace(r))))
		}
		if r.IntN(2) == 0 {
			tb.SetTTL(u32(r))
		}
		meta := r.IntN(5)
		switch meta {
		case 0, 1:
			tb.Tx().Metadata, _ = genTopMeta(r)
		case 2:
			tb.Tx().Metadata = badMeta(r)
			l.rep.Events["bad-metadata"]++
		}
		l.sink("fee", fmt.Sprint(tb.MinFee()))
		if r.IntN(2) == 0 {
			tb.AddChangeIfNeeded(l.addr())
			l.rep.Events["change"]++
		}
		for _, k := range ks[n:] {
			tb.Sign(k)
		}
		l.sink("fee", fmt.Sprint(tb.MinFee()))
		l.showTx(tb.Tx())
		var err error
		t, err = tb.Build()
		l.sink("build error", err)
		if err == nil {
			l.rep.Events["built"]++
			l.showTx(&t)
		}
		if meta == 2 { // repaired and built again
			tb.Tx().Metadata = nil
			t, err = tb.Build()
			l.sink("build error", err)
			l.showTx(&t)
		}
		if r.IntN(3) == 0 {
			tb.AddOutputs(tx.NewTxOutput(l.addr(), 1))
			for i := r.IntN(3); i > 0; i-- { // more signers after a build
				tb.Sign(l.newKey())
				l.rep.Events["late-signer"]++
			}
			l.sink("fee", fmt.Sprint(tb.MinFee()))
			l.showTx(tb.Tx())
			t, err = tb.Build()
			l.sink("build error", err)
			l.showTx(&t)
		}
	})
	submitOnly := os.Getenv("VERIF_LEAK_DEAD") != ""
	use := func(n node.Node, submitOnly bool) {
		l.try("node", func() {
			if submitOnly { // queries are repeated for a long time when there is no connection
				if t.Body != nil {
					h, err := n.SubmitTx(t)
					l.sink("submission", h, err)
				}
				return
			}
			us, err := n.UTXOs(l.addr())
			l.sink("unspent outputs", fmt.Sprintf("%+v", us), err)
			p, err := n.ProtocolParameters()
			l.sink("parameters", fmt.Sprintf("%+v", p), err)
			tip, err := n.QueryTip()
			l.sink("tip", fmt.Sprintf("%+v", tip), err)
			if t.Body != nil {
				h, err := n.SubmitTx(t)
				l.sink("submission", h, err)
			}
		})
	}
	os.Remove(filepath.Join(dir, "rc"))
	if r.IntN(3) == 0 {
		os.WriteFile(filepath.Join(dir, "rc"), []byte(fmt.Sprintln(1+r.IntN(200))), 0o644)
		l.rep.Events["tool-fails"]++
	}
	use(node.NewCardanoCliNode(net, pick(r, exe, exe, exe, filepath.Join(dir, "absent"))), false)
	l.rep.Events["cli"]++
	if project != "" && r.IntN(2) == 0 {
		use(node.NewBlockfrostClient(project, net), submitOnly)
		l.rep.Events["blockfrost"]++
	}
}

// leakMain is the fresh process; its standard output and error are read by the monitor.
func leakMain(seed uint64, dir, out, project string) {
	l := &leaker{r: rand.New(rand.NewPCG(seed, 22)), rep: leakReport{Events: map[string]int{}}}
	for i := 0; i < 12; i++ {
		l.round(filepath.Join(dir, "bin", "cardano-cli"), filepath.Join(dir, "bin"), project)
	}
	b, err := json.Marshal(l.rep)
	must(err)
	must(os.WriteFile(out, b, 0o644))
}

// ---------- the search ----------

type leakIndex struct {
	win map[[leakWin]byte]*leakSecret
}

func (x *leakIndex) add(s *leakSecret) {
	for i := 0; i+leakWin <= len(s.B); i++ {
		x.win[[leakWin]byte(s.B[i:])] = s
		var rev [leakWin]byte
		for j := range rev {
			rev[j] = s.B[i+leakWin-1-j]
		}
		if x.win[rev] == nil {
			x.win[rev] = s
		}
	}
}

func (x *leakIndex) scan(b []byte, pub bool) *leakSecret {
	for i := 0; i+leakWin <= len(b); i++ {
		if s := x.win[[leakWin]byte(b[i:])]; s != nil && !(pub && s.Pub) {
			return s
		}
	}
	return nil
}

var (
	reHex  = regexp.MustCompile(`[0-9a-fA-F]{20,}`)
	reB64  = regexp.MustCompile(`[0-9A-Za-z+/_-]{14,}`)
	reB58  = regexp.MustCompile(`[1-9A-HJ-NP-Za-km-z]{14,240}`)
	reBech = regexp.MustCompile(`[02-9ac-hj-np-z]{16,}`)
	reNums = regexp.MustCompile(`(?:[0-9]{1,3}[ ,]+){9,}[0-9]{1,3}`)
	reXs   = regexp.MustCompile(`(?:(?:0x)?[0-9a-fA-F]{1,2}[ ,:]+){9,}(?:0x)?[0-9a-fA-F]{1,2}`)
)

// search looks for the secrets in b, taken as bytes and as text that encodes bytes.
func (x *leakIndex) search(b []byte, pub bool) (*leakSecret, string) {
	if s := x.scan(b, pub); s != nil {
		return s, "as bytes"
	}
	for _, m := range reHex.FindAll(b, -1) {
		for o := 0; o < 2; o++ {
			h := m[o:]
			d := make([]byte, len(h)/2)
			hex.Decode(d, h[:len(h)/2*2])
			if s := x.scan(d, pub); s != nil {
				return s, "in hexadecimal"
			}
		}
	}
	for _, m := range reB64.FindAll(b, -1) {
		t := strings.NewReplacer("-", "+", "_", "/").Replace(string(m))
		for o := 0; o < 4 && o < len(t); o++ {
			h := t[o:]
			if d, err := base64.RawStdEncoding.DecodeString(h[:len(h)/4*4]); err == nil {
				if s := x.scan(d, pub); s != nil {
					return s, "in base64"
				}
			}
		}
	}
	for _, m := range reB58.FindAll(b, -1) {
		v := new(big.Int)
		for _, ch := range m {
			v.Mul(v, big.NewInt(58)).Add(v, big.NewInt(int64(strings.IndexByte(b58Alphabet, ch))))
		}
		if s := x.scan(v.Bytes(), pub); s != nil {
			return s, "in base58"
		}
	}
	for _, m := range reBech.FindAll(b, -1) {
		for o := 0; o < 8 && o < len(m); o++ {
			var acc, bits uint
			var d []byte
			for _, ch := range m[o:] {
				acc, bits = acc<<5|uint(strings.IndexByte(bechAlphabet, ch)), bits+5
				if bits >= 8 {
					bits -= 8
					d = append(d, byte(acc>>bits))
					acc &= 1<<bits - 1
				}
			}
			if s := x.scan(d, pub); s != nil {
				return s, "in bech32"
			}
		}
	}
	list := func(m []byte, base int) []byte {
		var d []byte
		for _, f := range strings.FieldsFunc(string(m), func(c rune) bool { return c == ' ' || c == ',' || c == ':' }) {
			v, err := strconv.ParseUint(strings.TrimPrefix(f, "0x"), base, 16)
			if err != nil || v > 255 {
				v = 0
			}
			d = append(d, byte(v))
		}
		return d
	}
	for _, m := range reNums.FindAll(b, -1) {
		if s := x.scan(list(m, 10), pub); s != nil {
			return s, "as a list of numbers"
		}
	}
	for _, m := range reXs.FindAll(b, -1) {
		if s := x.scan(list(m, 16), pub); s != nil {
			return s, "as a list of hexadecimal numbers"
		}
	}
	return nil, ""
}

func leakCase(c *Ctx) {
	r := c.R
	self, err := os.Executable()
	must(err)
	dir := filepath.Join(c.m.scratch, fmt.Sprintf("leak-%d", c.Idx))
	defer os.RemoveAll(dir)
	for _, d := range []string{"bin", "tmp", "home", "cwd", "out"} {
		must(os.MkdirAll(filepath.Join(dir, d), 0o755))
	}
	must(os.WriteFile(filepath.Join(dir, "bin", "cardano-cli"), []byte(leakStandIn), 0o755))
	u := newBF(c)
	defer u.done()
	u.genUtxos(pick(r, 0, 1, 3, 101))
	u.k.tip, u.k.params = genBFTip(r, nil).text, genBFParams(r, nil).text
	u.k.submit = jq(strings.Repeat("5a", 32))
	dead, noTmp := false, r.IntN(8) == 0
	switch r.IntN(6) {
	case 2:
		u.k.submit = pick(r, jq("5a5a"), jq(strings.Repeat("zz", 32)), "{}", jq(""), "5", "null", `"`)
		u.k.params = genBFParams(r, map[string]string{pick(r, "min_fee_a", "protocol_major_ver", "max_tx_size"): pick(r, "-1", "1000000000000", `"x"`)}).text
		u.k.tip = genBFTip(r, map[string]string{pick(r, "slot", "epoch", "height"): pick(r, "-1", `"x"`)}).text
		u.k.utxos = append(u.k.utxos, bfUtxoJSON(r, pick(r, strings.Repeat("zz", 32), "5a"), pick(r, "1", "-1"), pick(r, jq("5"), jq("x"))))
		c.Feat("service-lies")
	case 3:
		dead = true
		c.Feat("service-gone")
	case 0: // the service refuses everything
		n := pick(r, 400, 403, 404, 418)
		u.k.fault = &bfFault{kind: "status", n: n, body: bfError(n)}
		c.Feat("service-refuses")
	case 1:
		u.k.fault = &bfFault{kind: pick(r, "cut", "body"), body: pick(r, "", "<html>", "[{]")}
		c.Feat("service-damaged")
	}
	var sb strings.Builder
	sb.WriteString(utxoHead)
	for i := r.IntN(4); i > 0; i-- {
		sb.WriteString(genRow(r).line + "\n")
	}
	if r.IntN(5) == 0 {
		sb.WriteString("what is this\n")
	}
	for n, s := range map[string]string{"utxo": sb.String(), "tip": genTip(r, 1<<64-1).text, "protocol-parameters": genProtoFile(r).text} {
		must(os.WriteFile(filepath.Join(dir, "bin", "out."+n), []byte(s), 0o644))
	}
	seed := r.Uint64()
	out := filepath.Join(dir, "out", "report.json")
	cmd := exec.Command(self, "-leak", fmt.Sprint(seed), "-scratch", dir, "-child", out, "-project", u.id)
	cmd.Dir = filepath.Join(dir, "cwd")
	for _, e := range os.Environ() {
		if !strings.HasPrefix(e, "HOME=") && !strings.HasPrefix(e, "TMPDIR=") {
			cmd.Env = append(cmd.Env, e)
		}
	}
	cmd.Env = append(cmd.Env, "HOME="+filepath.Join(dir, "home"), "TMPDIR="+filepath.Join(dir, "tmp"))
	if noTmp {
		os.Remove(filepath.Join(dir, "tmp"))
		c.Feat("no-temp-dir")
	}
	if dead {
		cmd.Env = append(cmd.Env, "VERIF_LEAK_DEAD=1", "HTTPS_PROXY=http://127.0.0.1:1")
	}
	var so, se strings.Builder
	cmd.Stdout, cmd.Stderr = &so, &se
	err = cmd.Run()
	c.Log("fresh process with seed %d: %v", seed, err)
	var rep leakReport
	if b, e := os.ReadFile(out); e == nil {
		must(json.Unmarshal(b, &rep))
	} else {
		c.Fail("process-death", "the process died: %v: %s", err, short(se.String(), 1500))
	}
	for k, n := range rep.Events {
		c.events[k] += int64(n)
	}
	sinks := rep.Sinks
	sinks = append(sinks, leakSink{Name: "standard output", B: []byte(so.String())}, leakSink{Name: "standard error", B: []byte(se.String())})
	// files: whatever was left anywhere the process could think of, and what the tool was shown
	filepath.WalkDir(dir, func(p string, e fs.DirEntry, err error) error {
		if err == nil && !e.IsDir() && p != out && !strings.HasPrefix(e.Name(), "out.") && e.Name() != "cardano-cli" {
			if b, err := os.ReadFile(p); err == nil {
				name := "file " + strings.TrimPrefix(p, dir)
				if strings.HasSuffix(p, ".seen") {
					name = "command line, environment or files shown to the tool"
					c.events["tool-run"]++
				}
				sinks = append(sinks, leakSink{Name: name, B: append([]byte(p+"\n"), b...)})
			}
		}
		return nil
	})
	u.k.mu.Lock()
	reqs := u.k.reqs
	u.k.reqs = nil
	u.k.mu.Unlock()
	for _, q := range reqs {
		sinks = append(sinks, leakSink{Name: "request to the service", B: append([]byte(q.dump), q.body...)})
		c.Ev("request")
		c.Failif(q.host != bfMain && q.host != bfTest, "project-id-host", "the project id was sent to %s", q.host)
	}
	bf.mu.Lock()
	for _, o := range bf.odd {
		if strings.Contains(o, u.id) {
			sinks = append(sinks, leakSink{Name: "unexpected request", B: []byte(o)})
		}
	}
	bf.mu.Unlock()
	x := &leakIndex{win: map[[leakWin]byte]*leakSecret{}}
	for i := range rep.Secrets {
		x.add(&rep.Secrets[i])
	}
	total := 0
	for _, s := range sinks {
		total += len(s.B)
		if sec, how := x.search(s.B, s.Pub); sec != nil {
			c.Fail("leak:"+strings.SplitN(s.Name, " /", 2)[0], "%s shows part of a %s %s: %s", s.Name, sec.Name, how, short(fmt.Sprintf("%q", s.B), 600))
		}
		if strings.Contains(string(s.B), u.id) {
			c.Fail("leak-project-id:"+strings.SplitN(s.Name, " /", 2)[0], "%s shows the project id: %s", s.Name, short(fmt.Sprintf("%q", s.B), 600))
		}
		c.Ev("searched")
	}
	c.Case(seed)
	c.Sample(map[string]any{"seed": seed, "secrets": len(rep.Secrets), "outputs": len(sinks), "bytes": total})
}

// leakSelf shows that the search finds secrets in every encoding it claims to read.
func leakSelf(c *Ctx) {
	r := c.R
	b := rbytes(r, 64)
	sec := &leakSecret{Name: "key", B: b}
	x := &leakIndex{win: map[[leakWin]byte]*leakSecret{}}
	x.add(sec)
	part := b[r.IntN(20):]
	part = part[:leakWin+r.IntN(20)]
	pre := rbytes(r, r.IntN(9))
	blob := append(append([]byte{}, pre...), part...)
	blob = append(blob, rbytes(r, 4)...)
	for _, f := range []struct {
		n string
		b []byte
	}{
		{"raw", blob}, {"hex", []byte(fmt.Sprintf("x%x", blob))}, {"HEX", []byte(fmt.Sprintf("key=%X.", blob))}, {"base64", []byte(base64.StdEncoding.EncodeToString(blob))},
		{"base64url", []byte(base64.RawURLEncoding.EncodeToString(blob))}, {"%v", []byte(fmt.Sprint(blob))}, {"%#v", []byte(fmt.Sprintf("%#v", blob))}, {"% x", []byte(fmt.Sprintf("% x", blob))},
		{"base58", []byte(refBase58(blob))}, {"bech32", []byte(refBech32("xprv", blob))},
	} {
		if s, _ := x.search(f.b, false); s == nil {
			panic(fmt.Sprintf("harness: the search misses a key in %s: %q", f.n, f.b))
		}
		if s, how := (&leakIndex{win: map[[leakWin]byte]*leakSecret{}}).search(f.b, false); s != nil {
			panic("harness: nothing to find, found " + how)
		}
		c.Ev("search-proved:" + f.n)
	}
}

func init() {
	register(&Property{
		ID: "C22",
		Rule: "fresh processes make random keys, addresses, signatures and transactions (good, failing and repaired builds) and use both backends (answering, failing, damaged); every result that is not itself a private key, error text, standard output and error, " +
			"file, command line, environment and request is searched for 10-byte pieces of the secrets in eight encodings; non-trivial = one process with its secrets",
		Require: []string{"key", "seed-rejected", "error-text", "bad-metadata", "change", "built", "tool-fails", "cli", "blockfrost", "tool-run", "request", "service-refuses", "service-damaged", "service-lies", "service-gone", "no-temp-dir", "late-signer", "misshapen-key", "searched",
			"sink:transaction bytes", "sink:witness", "sink:signature", "sink:extended public key", "sink:address", "sink:submission", "search-proved:raw", "search-proved:hex", "search-proved:base64", "search-proved:%v", "search-proved:bech32", "search-proved:base58"},
		Setup: func(m *Monitor) error {
			if err := cliSetup(m); err != nil {
				return err
			}
			return bfSetup(m)
		},
		Assume: []string{"secrets are random, so a 10-byte piece of one appears elsewhere only if it was copied there", "files written and removed again are seen only while the stand-in tool runs"},
		Streams: []Stream{
			{Name: "search", Quick: 400, Thor: 4000, Run: leakSelf},
			{Name: "processes", Quick: 250, Thor: 4000, Run: leakCase},
		},
	})
}
