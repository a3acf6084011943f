package main

// C26: failures name their cause. Every failing call is made to fail for a reason the monitor chose, so what the
// error must be recognizable as is known.

import (
	"bytes"
	"encoding/hex"
	"errors"
	"fmt"
	"io/fs"
	"math/rand/v2"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"syscall"

	"github.com/fivebinaries/go-cardano-serialization/address"
	"github.com/fivebinaries/go-cardano-serialization/bip32"
	"github.com/fivebinaries/go-cardano-serialization/fees"
	"github.com/fivebinaries/go-cardano-serialization/network"
	"github.com/fivebinaries/go-cardano-serialization/node"
	"github.com/fivebinaries/go-cardano-serialization/protocol"
	"github.com/fivebinaries/go-cardano-serialization/tx"
)

// says demands that a failure has an error with a text.
func says(c *Ctx, what string, err error) {
	c.Failif(err == nil, "no-error:"+what, "%s: must fail, gives no error", what)
	text := ""
	noCrash(c, what+" error", func() { text = err.Error() })
	c.Failif(strings.TrimSpace(text) == "", "empty-text:"+what, "%s: the error (%T) has the text %q", what, err, text)
	c.Ev("text-seen")
}

// isErr demands that the error is recognizable as its cause.
func isErr(c *Ctx, what string, err, want error) {
	says(c, what, err)
	c.Failif(!errors.Is(err, want), "cause:"+what, "%s: the error %q (%T) is not %q", what, short(err.Error(), 300), err, want)
	c.Ev("cause-seen")
}

// addrFails offers bytes that are no address to every decoder. cause nil: only the text is judged; not: must not be claimed.
func addrFails(c *Ctx, what string, b []byte, cause, not error) {
	type dec struct {
		n string
		f func() (address.Address, error)
	}
	ds := []dec{
		{"FromBytes", func() (address.Address, error) { return address.NewAddressFromBytes(append([]byte{}, b...)) }},
		{"FromHex", func() (address.Address, error) {
			return address.NewAddressFromHex(pick(c.R, hex.EncodeToString(b), strings.ToUpper(hex.EncodeToString(b))))
		}},
	}
	if len(b) > 300 {
		// the reference is slow
	} else if t := refBase58(b); !strings.HasPrefix(t, "addr") && !strings.HasPrefix(t, "stake") {
		ds = append(ds, dec{"base58", func() (address.Address, error) { return address.NewAddress(t) }})
	}
	if len(b) > 0 && b[0]>>4 != 8 {
		hrp := pick(c.R, "addr", "addr_test", "stake", "stake_test")
		ds = append(ds, dec{"bech32", func() (address.Address, error) { return address.NewAddress(refBech32(hrp, b)) }})
	} else if len(b) > 0 {
		ds = append(ds, dec{"UnmarshalCBOR", func() (address.Address, error) {
			var v address.ByronAddress
			return nil, v.UnmarshalCBOR(append([]byte{}, b...))
		}})
	}
	for _, d := range ds {
		name := what + ":" + d.n
		var a address.Address
		var err error
		noCrash(c, name, func() { a, err = d.f() })
		if err == nil && cause == nil { // a decoder may be lenient here; other monitors judge
			continue
		}
		if cause != nil {
			isErr(c, name, err, cause)
		} else {
			says(c, name, err)
		}
		c.Failif(not != nil && errors.Is(err, not), "false-cause:"+name, "%s of %s: the error %q blames %q", name, hx(b), err, not)
		c.Failif(a != nil, "value:"+name, "%s of %s fails (%v) and yet gives an address of type %T", name, hx(b), err, a)
		// failing again is failing in the same way
		_, err2 := d.f()
		c.Failif(err2 == nil || err2.Error() != err.Error(), "again:"+name, "%s of %s fails with %q, then with %v", name, hx(b), err, err2)
		c.Ev("address-refused")
	}
}

func errAddr(c *Ctx) {
	r := c.R
	kind := pick(r, "type", "network", "empty", "checksum", "hash", "byron-form", "length", "hostile", "text")
	c.Feat("addr/" + kind)
	switch kind {
	case "type":
		b := append([]byte{byte(9+r.IntN(5))<<4 | byte(r.IntN(16))}, rbytes(r, pick(r, 0, 1, 28, 28, 31, 56, 56, r.IntN(80)))...)
		c.Case(b)
		addrFails(c, kind, b, address.ErrUnsupportedAddress, nil)
	case "network":
		s := genAddr(r, kBase, kEnt, kRew, kPtr)
		b := s.Bytes()
		b[0] = b[0]&0xf0 | byte(2+r.IntN(14))
		c.Case(b)
		addrFails(c, kind, b, address.ErrUnsupportedAddress, nil)
	case "empty":
		addrFails(c, kind, nil, address.ErrUnsupportedAddress, nil)
		c.Case("empty")
	case "checksum", "hash":
		s := genAddr(r, kByron)
		in := s.innerByron()
		crc := crcIEEE(in)
		if kind == "hash" {
			i := bytes.Index(in, s.Pay) + r.IntN(28)
			in[i] ^= 1 << r.IntN(8)
		} else {
			crc = pick(r, crc^1<<r.IntN(32), crc+1, crc-1, ^crc, 0, 1<<32-1, r.Uint32(), crc>>8, crc&0xffff)
			if crc == crcIEEE(in) {
				return
			}
		}
		b := append(append([]byte{0x82, 0xd8, 0x18}, cborBytes(in)...), cborHead(0, uint64(crc))...)
		c.Case(b)
		addrFails(c, kind, b, address.ErrInvalidByronChecksum, nil)
	case "byron-form":
		s := genAddr(r, kByron)
		in := s.innerByron()
		switch r.IntN(6) {
		case 0:
			n := pick(r, 0, 1, 20, 27, 29, 32)
			in = append(append([]byte{0x83}, cborBytes(rbytes(r, n))...), in[1+len(cborBytes(s.Pay)):]...)
		case 1:
			in[len(in)-1] = byte(1 + r.IntN(23))
		case 2:
			in = append([]byte{0x82}, in[1:]...)
		case 3:
			in = in[:len(in)-1-r.IntN(len(in)-1)]
		case 4:
			in = append(in, byte(r.IntN(24)))
		case 5:
			in = append(append([]byte{0x83}, cborBytes(s.Pay)...), 0xa1, byte(3+r.IntN(20)), 0x00, 0x00)
		}
		b := byronEnvelope(in)
		c.Case(b)
		addrFails(c, kind, b, nil, address.ErrInvalidByronChecksum)
		c.Ev("checksum-right")
	case "length":
		s := genAddr(r, kBase, kEnt, kRew, kPtr)
		b := s.Bytes()
		if r.IntN(2) == 0 && s.Kind != kPtr {
			b = append(b, rbytes(r, 1+r.IntN(30))...)
		} else {
			b = b[:1+r.IntN(28)]
		}
		c.Case(b)
		addrFails(c, kind, b, nil, address.ErrInvalidByronChecksum)
	case "hostile":
		b, _ := hostileBytes(r)
		c.Case(b)
		addrFails(c, kind, b, nil, nil)
	case "text":
		t := randText(r)
		c.Case(t)
		for _, f := range []func(string) (address.Address, error){address.NewAddress, address.NewAddressFromHex} {
			var a address.Address
			var err error
			noCrash(c, "text", func() { a, err = f(t) })
			if err != nil {
				says(c, "text", err)
				c.Failif(a != nil, "value:text", "%q fails (%v) and yet gives an address of type %T", short(t, 200), err, a)
			}
		}
	}
}

func errBytes(c *Ctx) {
	r := c.R
	h := pick(r, hashCtors...)
	n := pick(r, 0, 1, h.n-1, h.n+1, 2*h.n, 28, 32, r.IntN(100))
	if n != h.n {
		got, err := h.f(rbytes(r, n))
		says(c, h.name, err)
		c.Failif(!bytes.Equal(got, make([]byte, len(got))), "value:"+h.name, "%s of %d bytes fails and yet gives %x", h.name, n, got)
		c.Feat("hash-refused")
		c.Case(h.name, n)
	}
	if n = pick(r, 0, 1, 31, 33, 64, 96, 16, r.IntN(200)); n != 32 {
		var x bip32.XPrv
		var err error
		noCrash(c, "NewXPrv", func() { x, err = bip32.NewXPrv(rbytes(r, n)) })
		says(c, "NewXPrv", err)
		c.Failif(len(x) != 0, "value:NewXPrv", "a seed of %d bytes fails and yet gives a key of %d bytes", n, len(x))
		c.Feat("seed-refused")
		c.Case("seed", n)
	}
}

func errFile(c *Ctx) {
	r := c.R
	dir := filepath.Join(c.m.scratch, "errs", fmt.Sprint(c.Idx))
	must(os.MkdirAll(dir, 0o755))
	defer os.RemoveAll(dir)
	file := filepath.Join(dir, "protocol.json")
	kind := pick(r, "absent", "absent-dir", "directory", "below-a-file", "long-name", "loop", "text", "dangling")
	var want error
	switch kind {
	case "absent":
		want = fs.ErrNotExist
	case "absent-dir":
		file, want = filepath.Join(dir, "x", "y", "protocol.json"), fs.ErrNotExist
	case "dangling":
		must(os.Symlink(file+".gone", file))
		want = fs.ErrNotExist
	case "directory":
		must(os.Mkdir(file, 0o755))
		want = syscall.EISDIR
	case "below-a-file":
		must(os.WriteFile(file, []byte(genProtoFile(r).text), 0o644))
		file, want = file+"/x", syscall.ENOTDIR
	case "long-name":
		file, want = filepath.Join(dir, strings.Repeat("n", 256+r.IntN(100))), syscall.ENAMETOOLONG
	case "loop":
		must(os.Symlink(file, file))
		want = syscall.ELOOP
	case "text":
		text := genProtoFile(r).text
		switch r.IntN(3) {
		case 0:
			text = text[:r.IntN(strings.LastIndexByte(text, '}'))]
		case 1:
			text += pick(r, "}", "x", ",", "{")
		case 2:
			text = genProtoBroken(r, pick(r, `"44"`, "true", "-1", "1e30"), `{"x":1}`).text
		}
		must(os.WriteFile(file, []byte(text), 0o644))
	}
	c.Feat("file/" + kind)
	c.Case(kind, c.Idx)
	var err error
	noCrash(c, "LoadProtocol", func() { _, err = protocol.LoadProtocol(file) })
	if want != nil {
		isErr(c, "LoadProtocol:"+kind, err, want)
		return
	}
	says(c, "LoadProtocol:"+kind, err)
}

// causeMeta cannot be serialized, for a reason its owner will recognize.
type causeMeta struct{ err error }

func (m causeMeta) MarshalCBOR() ([]byte, error) { return nil, m.err }

type causeErr struct{ n int }

func (e *causeErr) Error() string { return fmt.Sprintf("the value %d is not ready", e.n) }

func wrapMeta(r *rand.Rand, v any) any {
	for i := r.IntN(4); i > 0; i-- {
		switch r.IntN(6) {
		case 0:
			v = map[string]any{dictStr(r): v}
		case 1:
			v = map[uint64]any{2 + u64(r)/2: v, 1: "one"}
		case 2:
			v = []any{1, v, "x"}
		case 3:
			v = struct {
				A any `cbor:"1,keyasint"`
				B string
			}{v, "b"}
		case 4:
			inner := v
			v = &inner
		case 5:
			v = [1]any{v}
		}
	}
	return v
}

func errMeta(c *Ctx) {
	r := c.R
	var cause error = &causeErr{r.IntN(1000)}
	h := newHist(c, r.IntN(3) != 0)
	h.addInputs(1 + r.IntN(3))
	h.addOutputs(1 + r.IntN(3))
	v := wrapMeta(r, causeMeta{cause})
	c.Case(fmt.Sprintf("%T", v), c.Idx)
	h.t.Metadata = v
	check := func(what string, err error) {
		isErr(c, what, err, cause)
		var ce *causeErr
		c.Failif(!errors.As(err, &ce) || ce != cause, "cause-value:"+what, "%s: the error %v does not hold the metadata's own error", what, err)
	}
	t := h.t
	lf := fees.NewLinearFee(44, 155381)
	for i := 1 + r.IntN(3); i > 0; i-- {
		switch k := r.IntN(8); k {
		case 0:
			b, err := t.Bytes()
			check("Bytes", err)
			c.Failif(len(b) != 0, "value:Bytes", "Bytes fails and yet gives %x", b)
		case 1:
			s, err := t.Hex()
			check("Hex", err)
			c.Failif(s != "", "value:Hex", "Hex fails and yet gives %q", s)
		case 2:
			hh, err := t.Hash()
			check("Hash", err)
			c.Failif(hh != [32]byte{}, "value:Hash", "Hash fails and yet gives %x", hh)
		case 3:
			f, err := t.Fee(lf)
			check("Fee", err)
			c.Failif(f != 0, "value:Fee", "Fee fails and yet gives %d", f)
		case 4:
			check("CalculateAuxiliaryDataHash", t.CalculateAuxiliaryDataHash())
		case 5:
			if h.tb == nil {
				continue
			}
			b, err := h.tb.Build()
			check("Build", err)
			c.Failif(b.Body != nil || b.Witness != nil && len(b.Witness.Keys) > 0, "value:Build", "Build fails and yet gives a transaction")
		case 6:
			cl := newCLICase(c, false)
			cl.n = node.NewCardanoCliNode(cl.net, cl.exe)
			s, err := cl.n.SubmitTx(*t)
			n := len(cl.calls())
			cl.clean()
			check("cli SubmitTx", err)
			c.Failif(s != "" || n != 0, "value:cli", "a submission that fails before it starts gives %q, runs the tool %d times", s, n)
		case 7:
			u := newBF(c)
			s, err := u.n.SubmitTx(*t)
			n := len(u.take())
			u.done()
			check("blockfrost SubmitTx", err)
			c.Failif(s != "" || n != 0, "value:blockfrost", "a submission that fails before it starts gives %q, makes %d requests", s, n)
		}
	}
	c.Feat("metadata-refused")
}

func emptyHanded(c *Ctx, call string, hash string, rows []tx.TxInput, err error) {
	c.Failif(hash != "", "value:"+call, "%s fails (%v) and yet gives the hash %q", call, err, hash)
	c.Failif(len(rows) != 0, "value:"+call, "%s fails (%v) and yet gives %d outputs", call, err, len(rows))
}

func askNode(c *Ctx, n node.Node, call string) (hash string, rows []tx.TxInput, err error) {
	switch call {
	case "utxos":
		rows, err = n.UTXOs(genAddr(c.R).Must(c))
	case "params":
		_, err = n.ProtocolParameters()
	case "tip":
		_, err = n.QueryTip()
	case "submit":
		t, _, _ := goodTx(c)
		hash, err = n.SubmitTx(t)
	}
	return
}

func errTool(c *Ctx) {
	r := c.R
	k := newCLICase(c, false)
	defer k.clean()
	exe := k.exe
	call := pick(r, "utxos", "params", "tip", "submit")
	kind := pick(r, "exit", "exit", "kill", "missing", "missing-dir", "not-on-path", "not-executable", "not-a-program", "no-interpreter", "damaged")
	code := 1 + r.IntN(255)
	var want error
	switch kind {
	case "exit":
		k.write("rc", fmt.Sprint(code)+"\n")
	case "kill":
		k.write("kill", "")
	case "missing":
		exe, want = k.exe+".absent", fs.ErrNotExist
	case "missing-dir":
		exe, want = filepath.Join(k.dir, "no", "such", "cardano-cli"), fs.ErrNotExist
	case "not-on-path":
		exe, want = fmt.Sprintf("no-such-cardano-cli-%d", r.IntN(1000)), exec.ErrNotFound
	case "not-executable":
		exe, want = filepath.Join(k.dir, "plain"), fs.ErrPermission
		k.write("plain", "#!/bin/sh\nexit 0\n")
	case "not-a-program":
		exe, want = filepath.Join(k.dir, "plain"), syscall.ENOEXEC
		must(os.Symlink(filepath.Join(c.m.scratch, "bin", "no-program"), exe))
	case "no-interpreter":
		exe, want = filepath.Join(k.dir, "plain"), fs.ErrNotExist
		must(os.Symlink(filepath.Join(c.m.scratch, "bin", "no-interpreter"), exe))
	}
	switch {
	case kind == "damaged" && call == "utxos":
		_, bad := badRow(r, genRow(r))
		k.write("out", utxoHead+genRow(r).line+"\n"+bad+"\n"+genRow(r).line+"\n")
	case kind == "damaged":
		k.write("out", pick(r, "", "not json", "{", "[1", `{"slot": "x", "txFeePerByte": "x"}`))
	case r.IntN(2) == 0:
		k.write("out", pick(r, "Transaction successfully submitted.\n", utxoHead, "{}", ""))
	}
	if kind == "damaged" && call == "submit" {
		return
	}
	if r.IntN(2) == 0 {
		k.write("err", "")
	}
	k.n = node.NewCardanoCliNode(k.net, exe)
	c.Feat("tool/" + kind)
	c.Case(kind, call, code, c.Idx)
	for i := 1 + r.IntN(2); i > 0; i-- {
		hash, rows, err := askNode(c, k.n, call)
		what := "cli " + call + " (" + kind + ")"
		if want != nil {
			isErr(c, what, err, want)
		} else {
			says(c, what, err)
		}
		if kind == "exit" || kind == "kill" {
			var ee *exec.ExitError
			c.Failif(!errors.As(err, &ee), "cause:"+what, "%s: the tool ended with status %d, the error %q (%T) does not hold its status", what, code, err, err)
			if kind == "exit" {
				c.Failif(ee.ExitCode() != code, "status:"+what, "%s: the tool ended with status %d, the error says %d", what, code, ee.ExitCode())
			} else {
				c.Failif(ee.ExitCode() != -1, "status:"+what, "%s: the tool was killed, the error says it ended with %d", what, ee.ExitCode())
			}
			c.Ev("tool-status-seen")
		}
		emptyHanded(c, what, hash, rows, err)
		k.calls()
	}
}

func errService(c *Ctx) {
	r := c.R
	u := newBF(c)
	defer u.done()
	call := pick(r, "utxos", "params", "tip", "submit", "submit")
	kind := pick(r, "refused", "refused", "refused-page", "damaged", "lies", "cut-off")
	token := fmt.Sprintf("reason %x", rbytes(r, 6))
	if call == "submit" {
		token = pick(r, token, "transaction submit error ShelleyTxValidationError "+token, "BadInputsUTxO (fromList [TxIn "+token+"])")
	}
	f := &bfFault{kind: "status", n: pick(r, 400, 403, 404, 418)}
	judged := true
	switch kind {
	case "refused", "refused-page":
		if call == "submit" {
			f.n = pick(r, 400, 403, 404, 418, 425, 429, 500, 502, 503)
		}
		f.body = fmt.Sprintf(`{"status_code":%d,"error":"Refused","message":"%s"}`, f.n, token)
		if call == "submit" && r.IntN(3) == 0 {
			f.body = pick(r, token, token+"\n", "<html>"+token+"</html>", "")
			judged = f.body != ""
		}
		if call == "utxos" && kind == "refused-page" {
			u.genUtxos(pick(r, 100, 150, 200))
			f.page = 2
		}
	case "damaged":
		f.kind, f.body, judged = "body", pick(r, "", "not json", "{", "[", "<html></html>", `"`), false
	case "lies":
		judged = false
		f.kind = "body"
		switch call {
		case "utxos":
			u.genUtxos(r.IntN(4))
			good := strings.Repeat("ab", 32)
			bad := bfUtxoJSON(r, pick(r, "zz", "", "ab"), "0", `"5"`)
			switch r.IntN(3) {
			case 0:
				bad = bfUtxoJSON(r, good, pick(r, "-1", "70000"), `"5"`)
			case 1:
				bad = bfUtxoJSON(r, good, "0", pick(r, `"-5"`, `"x"`, `""`, `"18446744073709551616"`))
			}
			f.body = "[" + strings.Join(append(u.k.utxos, bad), ",") + "]"
			f.page = 1 // a client may ask on until a page is empty
		case "params":
			f.body = genBFParams(r, map[string]string{"min_fee_a": "-1"}).text
		case "tip":
			f.body = genBFTip(r, map[string]string{"slot": "-1"}).text
		case "submit":
			f.body = pick(r, `"ab"`, `""`, `"`+strings.Repeat("zz", 32)+`"`, "null", "{}", "1")
		}
	case "cut-off":
		judged = false
		f.kind = "truncate"
		if call == "submit" {
			f.kind = pick(r, "truncate", "reset", "short")
		}
		u.k.utxos, u.k.params, u.k.tip, u.k.submit = []string{bfUtxoJSON(r, strings.Repeat("ab", 32), "0", `"5"`)}, genBFParams(r, nil).text, genBFTip(r, nil).text, jq(strings.Repeat("ab", 32))
	}
	u.k.fault = f
	c.Feat("service/" + kind + "/" + call)
	c.Case(kind, call, f.n, f.body, c.Idx)
	what := "blockfrost " + call + " (" + kind + ")"
	c.Log("%s: %+v", what, *f)
	hash, rows, err := askNode(c, u.n, call)
	if n := len(u.take()); n == 0 || u.k.hits == 0 { // the page was never needed
		return
	}
	says(c, what, err)
	emptyHanded(c, what, hash, rows, err)
	if judged {
		c.Failif(!strings.Contains(err.Error(), token), "reason:"+what, "%s: the service answered %d %q, the error says only %q", what, f.n, f.body, short(err.Error(), 400))
		c.Ev("service-reason-seen")
	}
}

func init() {
	register(&Property{
		ID: "C26",
		Rule: "each case makes a call fail for one known reason: addresses of unknown types and networks, wrong Byron checksums and forms, lengths, files that cannot be read, metadata with an error of its own, tools that end, die or cannot start, " +
			"services that refuse with a reason or answer nonsense; the error is asked for that reason; non-trivial = distinct failing call",
		Require: []string{"addr/type", "addr/network", "addr/empty", "addr/checksum", "addr/hash", "addr/byron-form", "addr/length", "addr/hostile", "addr/text", "checksum-right", "hash-refused", "seed-refused", "file/absent", "file/directory", "file/loop", "file/text", "metadata-refused",
			"tool/exit", "tool/kill", "tool/missing", "tool/not-on-path", "tool/not-executable", "tool/not-a-program", "tool/no-interpreter", "tool/damaged", "tool-status-seen",
			"service/refused/utxos", "service/refused/params", "service/refused/tip", "service/refused/submit", "service/refused-page/utxos", "service/damaged/submit", "service/lies/utxos", "service/cut-off/submit", "service-reason-seen", "text-seen", "cause-seen", "temp-dir-missing", "client-gone"},
		Setup: func(m *Monitor) error {
			if err := cliSetup(m); err != nil {
				return err
			}
			// written before anything is started: a file some child still has open for writing cannot be run
			for n, text := range map[string]string{"no-program": "\x00\x01 no program", "no-interpreter": "#!/no/such/interpreter\n"} {
				if err := os.WriteFile(filepath.Join(m.scratch, "bin", n), []byte(text), 0o755); err != nil {
					return err
				}
			}
			return bfSetup(m)
		},
		Assume: []string{"wording is not judged, beyond being there and holding the service's own reason; causes are asked for with errors.Is and errors.As"},
		Streams: []Stream{
			{Name: "addresses", Quick: 250000, Thor: 2000000, Run: errAddr},
			{Name: "bytes", Quick: 20000, Thor: 100000, Run: errBytes},
			{Name: "files", Quick: 8000, Thor: 60000, Run: errFile},
			{Name: "metadata", Quick: 20000, Thor: 60000, Run: errMeta},
			{Name: "tool", Quick: 8000, Thor: 30000, Run: errTool},
			{Name: "service", Quick: 8000, Thor: 40000, Run: errService},
			{Name: "surroundings", Quick: 40, Thor: 200, Workers: 1, Run: func(c *Ctx) {
				r := c.R
				k := newCLICase(c, false)
				defer k.clean()
				k.n = node.NewCardanoCliNode(k.net, k.exe)
				t, _, _ := goodTx(c)
				os.Setenv("TMPDIR", cliTmp+"/absent")
				got, err := k.n.SubmitTx(t)
				os.Setenv("TMPDIR", cliTmp)
				if len(k.calls()) == 0 && err != nil { // without a transaction file it may succeed
					isErr(c, "cli submit (no temporary directory)", err, fs.ErrNotExist)
					emptyHanded(c, "cli submit (no temporary directory)", got, nil, err)
				}
				c.Feat("temp-dir-missing")
				n := node.NewBlockfrostClient(fmt.Sprintf("nobody%d", r.IntN(1000)), pick(r, network.MainNet(), network.TestNet()))
				hash, _, err := askNode(c, n, "submit") // a project id the service does not know
				says(c, "blockfrost submit (unknown project)", err)
				emptyHanded(c, "blockfrost submit (unknown project)", hash, nil, err)
				c.Failif(!strings.Contains(err.Error(), "told to fail"), "reason:unknown project", "the service refused the project id with a reason, the error says only %q", short(err.Error(), 300))
				c.Feat("client-gone")
			}},
		},
	})
}
