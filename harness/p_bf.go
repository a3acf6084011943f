package main

// C19: the Blockfrost backend, observed through a local TLS-terminating proxy that plays
// the service. Requests are attributed to cases by their project id.

import (
	"bufio"
	"bytes"
	"crypto/ecdsa"
	"crypto/elliptic"
	crand "crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/hex"
	"encoding/json"
	"encoding/pem"
	"fmt"
	"io"
	"math"
	"math/big"
	"math/rand/v2"
	"net"
	"net/http"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/fivebinaries/go-cardano-serialization/network"
	"github.com/fivebinaries/go-cardano-serialization/node"
	"github.com/fivebinaries/go-cardano-serialization/protocol"
	"github.com/fivebinaries/go-cardano-serialization/tx"
)

const (
	bfMain = "cardano-mainnet.blockfrost.io"
	bfTest = "cardano-testnet.blockfrost.io"
)

type bfReq struct {
	host, method, path, query string
	ctype                     string
	body                      []byte
	page                      int
	status                    int
	dump                      string // the request as received, without the project id header
}

// fault decides how to answer a request; nil: normally.
type bfFault struct {
	kind  string // status, truncate, reset, garbage
	n     int    // for status
	body  string
	page  int // 0: every request; else only requests for this page
	times int // 0: always; else only the first times
	page0 int // slow: halves of the reply sent before the pause
}

type bfCase struct {
	mu     sync.Mutex
	reqs   []bfReq
	utxos  []string // JSON objects
	params string
	tip    string
	submit string
	fault  *bfFault
	hits   int
	keep   bool // keep connections of queries alive
}

type bfService struct {
	mu    sync.Mutex
	cases map[string]*bfCase
	odd   []string // requests of no case, or not over HTTPS
	conns int
}

var bf = &bfService{cases: map[string]*bfCase{}}

func (s *bfService) oddity(f string, a ...any) {
	s.mu.Lock()
	if len(s.odd) < 50 {
		s.odd = append(s.odd, fmt.Sprintf(f, a...))
	}
	s.mu.Unlock()
}

type chanListener struct {
	ch   chan net.Conn
	addr net.Addr
}

func (l *chanListener) Accept() (net.Conn, error) {
	c, ok := <-l.ch
	if !ok {
		return nil, io.EOF
	}
	return c, nil
}
func (l *chanListener) Close() error   { return nil }
func (l *chanListener) Addr() net.Addr { return l.addr }

func bfSetup(m *Monitor) error {
	makeKeyPool(m.seed, 24)
	ck, err := ecdsa.GenerateKey(elliptic.P256(), crand.Reader)
	if err != nil {
		return err
	}
	tmpl := &x509.Certificate{SerialNumber: big.NewInt(1), Subject: pkix.Name{CommonName: "stand-in CA"}, NotBefore: time.Now().Add(-240 * time.Hour), NotAfter: time.Now().Add(240 * time.Hour),
		IsCA: true, BasicConstraintsValid: true, KeyUsage: x509.KeyUsageCertSign | x509.KeyUsageDigitalSignature}
	caDER, err := x509.CreateCertificate(crand.Reader, tmpl, tmpl, &ck.PublicKey, ck)
	if err != nil {
		return err
	}
	ca, _ := x509.ParseCertificate(caDER)
	lk, err := ecdsa.GenerateKey(elliptic.P256(), crand.Reader)
	if err != nil {
		return err
	}
	leaf := &x509.Certificate{SerialNumber: big.NewInt(2), Subject: pkix.Name{CommonName: "stand-in"}, NotBefore: time.Now().Add(-240 * time.Hour), NotAfter: time.Now().Add(240 * time.Hour),
		DNSNames: []string{bfMain, bfTest, "*.blockfrost.io"}, KeyUsage: x509.KeyUsageDigitalSignature, ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth}}
	leafDER, err := x509.CreateCertificate(crand.Reader, leaf, ca, &lk.PublicKey, ck)
	if err != nil {
		return err
	}
	certFile := filepath.Join(m.scratch, "ca.pem")
	if err := os.WriteFile(certFile, pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: caDER}), 0o644); err != nil {
		return err
	}
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		return err
	}
	tcfg := &tls.Config{Certificates: []tls.Certificate{{Certificate: [][]byte{leafDER}, PrivateKey: lk}}, NextProtos: []string{"http/1.1"}}
	inner := &chanListener{ch: make(chan net.Conn, 64), addr: ln.Addr()}
	srv := &http.Server{Handler: http.HandlerFunc(bf.serve), ErrorLog: nil}
	go srv.Serve(inner)
	go func() {
		for {
			conn, err := ln.Accept()
			if err != nil {
				return
			}
			go func() {
				br := bufio.NewReader(conn)
				req, err := http.ReadRequest(br)
				if err != nil {
					conn.Close()
					return
				}
				if req.Method != http.MethodConnect {
					bf.oddity("plain-text request %s %s %v", req.Method, req.URL, req.Header)
					io.WriteString(conn, "HTTP/1.1 403 Forbidden\r\nContent-Length: 0\r\nConnection: close\r\n\r\n")
					conn.Close()
					return
				}
				if req.Host != bfMain+":443" && req.Host != bfTest+":443" {
					bf.oddity("connection to %s", req.Host)
				}
				io.WriteString(conn, "HTTP/1.1 200 Connection established\r\n\r\n")
				tc := tls.Server(conn, tcfg)
				if err := tc.Handshake(); err != nil {
					conn.Close()
					return
				}
				bf.mu.Lock()
				bf.conns++
				bf.mu.Unlock()
				inner.ch <- tc
			}()
		}
	}()
	for _, v := range []string{"HTTP_PROXY", "http_proxy", "https_proxy", "ALL_PROXY", "all_proxy", "NO_PROXY", "no_proxy", "SSL_CERT_DIR", "BLOCKFROST_PROJECT_ID", "REQUEST_METHOD"} {
		os.Unsetenv(v)
	}
	os.Setenv("HTTP_PROXY", "http://"+ln.Addr().String())
	os.Setenv("HTTPS_PROXY", "http://"+ln.Addr().String())
	os.Setenv("SSL_CERT_FILE", certFile)
	os.Setenv("SSL_CERT_DIR", filepath.Join(m.scratch, "nocerts"))
	return nil
}

func bfError(code int) string {
	return fmt.Sprintf(`{"status_code":%d,"error":%q,"message":"told to fail"}`, code, http.StatusText(code))
}

func (s *bfService) serve(w http.ResponseWriter, r *http.Request) {
	body, _ := io.ReadAll(r.Body)
	ids := r.Header.Values("Project_id")
	s.mu.Lock()
	var k *bfCase
	if len(ids) == 1 {
		k = s.cases[ids[0]]
	}
	s.mu.Unlock()
	if k == nil {
		s.oddity("%s https://%s%s with project id %q", r.Method, r.Host, r.URL, ids)
		w.WriteHeader(403)
		io.WriteString(w, bfError(403))
		return
	}
	hdr := r.Header.Clone()
	hdr.Del("Project_id")
	q := bfReq{dump: fmt.Sprintf("%s %s %s %v ", r.Method, r.Host, r.RequestURI, hdr), host: r.Host, method: r.Method, path: r.URL.Path, query: r.URL.RawQuery, ctype: r.Header.Get("Content-Type"), body: body, status: 200, page: 1}
	code, reply := 404, bfError(404)
	p := strings.TrimPrefix(r.URL.Path, "/api/v0/")
	switch {
	case p == r.URL.Path:
	case r.Method == "GET" && p == "epochs/latest/parameters":
		code, reply = 200, k.params
	case r.Method == "GET" && p == "blocks/latest":
		code, reply = 200, k.tip
	case r.Method == "POST" && p == "tx/submit":
		code, reply = 200, k.submit
		if q.ctype != "application/cbor" {
			code, reply = 400, bfError(400)
		}
	case r.Method == "GET" && strings.HasPrefix(p, "addresses/") && strings.HasSuffix(p, "/utxos"):
		count, page, desc := 100, 1, false
		bad := false
		for key, vs := range r.URL.Query() {
			v, err := strconv.Atoi(vs[0])
			switch key {
			case "count":
				count = v
				bad = bad || err != nil || v < 1 || v > 100
			case "page":
				page = v
				bad = bad || err != nil || v < 1
			case "order":
				desc = vs[0] == "desc"
				bad = bad || vs[0] != "asc" && vs[0] != "desc"
			}
		}
		q.page = page
		if bad {
			code, reply = 400, bfError(400)
			break
		}
		lo, hi := min((page-1)*count, len(k.utxos)), min(page*count, len(k.utxos))
		xs := append([]string{}, k.utxos...)
		if desc {
			for i, j := 0, len(xs)-1; i < j; i, j = i+1, j-1 {
				xs[i], xs[j] = xs[j], xs[i]
			}
		}
		code, reply = 200, "["+strings.Join(xs[lo:hi], ",")+"]"
	}
	k.mu.Lock()
	var f *bfFault
	if k.fault != nil && (k.fault.page == 0 || k.fault.page == q.page) && (k.fault.times == 0 || k.hits < k.fault.times) {
		f = k.fault
		k.hits++
	}
	if f != nil && f.kind == "status" {
		code = f.n
	}
	q.status = code
	k.reqs = append(k.reqs, q)
	k.mu.Unlock()
	w.Header().Set("Content-Type", "application/json")
	if r.Method == "GET" && !k.keep { // every client has its own connection pool: do not fill it up
		w.Header().Set("Connection", "close")
	}
	if f == nil {
		w.WriteHeader(code)
		io.WriteString(w, reply)
		return
	}
	switch f.kind {
	case "status":
		w.WriteHeader(code)
		io.WriteString(w, f.body)
	case "body":
		w.WriteHeader(200)
		io.WriteString(w, f.body)
	case "truncate":
		cut := len(reply) * 2 / 3
		w.Header().Set("Content-Length", fmt.Sprint(len(reply)))
		w.WriteHeader(200)
		io.WriteString(w, reply[:cut])
		w.(http.Flusher).Flush()
		panic(http.ErrAbortHandler)
	case "short": // the whole document, but fewer bytes than announced
		w.Header().Set("Content-Length", fmt.Sprint(len(reply)+1+len(reply)/3))
		w.WriteHeader(200)
		io.WriteString(w, reply)
		w.(http.Flusher).Flush()
		panic(http.ErrAbortHandler)
	case "cut": // a complete HTTP reply with an incomplete document
		w.WriteHeader(200)
		io.WriteString(w, reply[:1+len(reply)*2/3-1])
	case "reset":
		panic(http.ErrAbortHandler)
	case "slow": // a good reply that takes its time
		w.WriteHeader(code)
		cut := len(reply) * f.page0 / 2
		io.WriteString(w, reply[:cut])
		if cut > 0 {
			w.(http.Flusher).Flush()
		}
		time.Sleep(time.Duration(f.n) * time.Second)
		io.WriteString(w, reply[cut:])
	}
}

// ---------- cases ----------

type bfRun struct {
	nodeBook
	id   string
	k    *bfCase
	net  *network.NetworkInfo
	host string
	n    node.Node
}

func newBF(c *Ctx) *bfRun {
	r := c.R
	u := &bfRun{nodeBook: nodeBook{c: c}, k: &bfCase{keep: c.Idx%16 == 0 && c.Idx < 8000}}
	u.id = fmt.Sprintf("%s%s-%d-%s", pick(r, "mainnet", "testnet", "p", "mainnettestnet"), hex.EncodeToString(rbytes(r, 12)), c.Idx, c.Stream)
	if r.IntN(2) == 0 {
		u.net, u.host = network.MainNet(), bfMain
	} else {
		u.net, u.host = network.TestNet(), bfTest
		if r.IntN(3) == 0 {
			u.net = &network.NetworkInfo{NetworkId: 0, ProtocolMagic: u32(r)}
		}
	}
	bf.mu.Lock()
	bf.cases[u.id] = u.k
	bf.mu.Unlock()
	u.n = node.NewBlockfrostClient(u.id, u.net)
	c.Log("project %s network %+v", u.id, *u.net)
	c.Feat("host/" + u.host)
	return u
}

func (u *bfRun) done() {
	bf.mu.Lock()
	delete(bf.cases, u.id)
	bf.mu.Unlock()
}

// take returns the requests seen and checks their destination.
func (u *bfRun) take() []bfReq {
	u.k.mu.Lock()
	rs := u.k.reqs
	u.k.reqs = nil
	u.k.mu.Unlock()
	for _, q := range rs {
		u.c.Log("%s https://%s%s?%s (%d bytes, %s) -> %d", q.method, q.host, q.path, q.query, len(q.body), q.ctype, q.status)
		u.c.Failif(q.host != u.host, "host", "request for network id %d went to %s", u.net.NetworkId, q.host)
		u.c.Ev("request-observed")
	}
	return rs
}

func jq(s string) string { b, _ := json.Marshal(s); return string(b) }

func genBFUtxo(r *rand.Rand) (utxoRow, string) {
	u := utxoRow{hash: hbytes(r, 32), ix: u16(r), amt: lovelace(r)}
	if r.IntN(6) == 0 {
		u.amt = u64(r)
	}
	return u, bfUtxoJSON(r, hex.EncodeToString(u.hash), fmt.Sprint(u.ix), jq(fmt.Sprint(u.amt)))
}

func bfUtxoJSON(r *rand.Rand, hash, ix, qty string) string {
	am := []string{fmt.Sprintf(`{"unit":"lovelace","quantity":%s}`, qty)}
	for i := r.IntN(4) * r.IntN(2); i > 0; i-- {
		am = append(am, fmt.Sprintf(`{"unit":%s,"quantity":"%d"}`, jq(hex.EncodeToString(rbytes(r, 28+r.IntN(8)))), pick(r, u64(r), uint64(r.IntN(9)))))
	}
	if r.IntN(3) == 0 {
		r.Shuffle(len(am), func(i, j int) { am[i], am[j] = am[j], am[i] })
	}
	f := []string{fmt.Sprintf(`"tx_hash":%s`, jq(hash)), fmt.Sprintf(`"tx_index":%d`, r.IntN(70000)), fmt.Sprintf(`"output_index":%s`, ix), `"amount":[` + strings.Join(am, ",") + `]`,
		fmt.Sprintf(`"block":"%x"`, rbytes(r, 32)), pick(r, `"data_hash":null`, fmt.Sprintf(`"data_hash":"%x"`, rbytes(r, 32)))}
	r.Shuffle(len(f), func(i, j int) { f[i], f[j] = f[j], f[i] })
	return "{" + strings.Join(f, ",") + "}"
}

func pagesN(r *rand.Rand) int {
	switch r.IntN(8) {
	case 0:
		return 0
	case 1:
		return pick(r, 99, 100, 101, 199, 200, 201, 300)
	case 2:
		return 100 + r.IntN(420)
	}
	return 1 + r.IntN(8)
}

func (u *bfRun) genUtxos(n int) (rows []utxoRow) {
	u.k.utxos = nil
	for i := 0; i < n; i++ {
		row, js := genBFUtxo(u.c.R)
		rows = append(rows, row)
		u.k.utxos = append(u.k.utxos, js)
	}
	return
}

func (u *bfRun) utxos() {
	u.utxosN(pagesN(u.c.R))
}

func (u *bfRun) utxosN(n int) {
	c := u.c
	rows := u.genUtxos(n)
	a, addr := u.addr()
	c.Log("utxos of %s: %d", a.Text(), n)
	got, err := u.n.UTXOs(addr)
	rs := u.take()
	for _, q := range rs {
		c.Failif(q.path != "/api/v0/addresses/"+a.Text()+"/utxos", "path", "asked %s for the outputs of %s", q.path, a.Text())
	}
	c.Failif(err != nil, "utxo-error", "a good reply with %d outputs gives %v", n, err)
	checkRows(c, got, rows)
	u.took(got, rows)
	c.Case("utxos", u.id, n)
	switch {
	case n == 0:
		c.Feat("no-outputs")
	case n > 0 && n%100 == 0:
		c.Feat("full-pages")
	case n > 100:
		c.Feat("several-pages")
	default:
		c.Feat("one-page")
	}
	c.Sample(map[string]any{"call": "UTXOs", "outputs": n, "requests": len(rs), "host": u.host, "address": a.Text()})
}

type bfParams struct {
	text string
	want protocol.Protocol
}

func genBFParams(r *rand.Rand, over map[string]string) bfParams {
	num := func() uint64 {
		x := pick(r, u64(r), uint64(r.IntN(1<<20)), 44, 155381, 16384, 0)
		if x > math.MaxInt64 {
			x >>= 1
		}
		return x
	}
	var p bfParams
	w := &p.want
	w.TxFeePerByte, w.TxFeeFixed, w.MaxTxSize = uint(num()), uint(num()), uint(num())
	w.ProtocolVersion.Major, w.ProtocolVersion.Minor = uint8(r.Uint32()), uint8(r.Uint32())
	w.MinUTXOValue = uint(num())
	f := map[string]string{"min_fee_a": fmt.Sprint(w.TxFeePerByte), "min_fee_b": fmt.Sprint(w.TxFeeFixed), "max_tx_size": fmt.Sprint(w.MaxTxSize), "protocol_major_ver": fmt.Sprint(w.ProtocolVersion.Major),
		"protocol_minor_ver": fmt.Sprint(w.ProtocolVersion.Minor), "min_utxo": jq(fmt.Sprint(w.MinUTXOValue)), "epoch": "225", "max_block_size": fmt.Sprint(r.IntN(99999)), "max_block_header_size": "1100", "key_deposit": `"2000000"`,
		"pool_deposit": `"500000000"`, "e_max": "18", "n_opt": "150", "a0": "0.3", "rho": "0.003", "tau": "0.2", "decentralisation_param": "0.5", "extra_entropy": "null", "min_pool_cost": `"340000000"`, "nonce": `"1a3be38bcbb7911969283716ad7aa550250226b76a61fc51cc9a9a35d9276d81"`,
		"price_mem": "0.0577", "price_step": "0.0000721", "max_tx_ex_mem": `"10000000"`, "max_val_size": `"5000"`, "collateral_percent": "150", "coins_per_utxo_word": `"34482"`}
	for k, v := range over {
		f[k] = v
	}
	var xs []string
	for k := range f {
		xs = append(xs, k)
	}
	sortStrings(xs)
	r.Shuffle(len(xs), func(i, j int) { xs[i], xs[j] = xs[j], xs[i] })
	for i, k := range xs {
		xs[i] = fmt.Sprintf("%q: %s", k, f[k])
	}
	p.text = "{" + strings.Join(xs, ",") + "}"
	return p
}

func sortStrings(xs []string) {
	for i := 1; i < len(xs); i++ {
		for j := i; j > 0 && xs[j] < xs[j-1]; j-- {
			xs[j], xs[j-1] = xs[j-1], xs[j]
		}
	}
}

func (u *bfRun) params() {
	p := genBFParams(u.c.R, nil)
	u.k.params = p.text
	u.c.Log("params %s", p.text)
	got, err := u.n.ProtocolParameters()
	u.take()
	u.c.Failif(err != nil, "params-error", "good parameters give %v", err)
	u.c.Failif(got != p.want, "params-values", "parameters %+v, want %+v", got, p.want)
	u.c.Ev("params-compared")
	u.c.Case("params", p.text)
}

func genBFTip(r *rand.Rand, over map[string]string) tipSpec {
	t := genTip(r, math.MaxInt64)
	f := map[string]string{"slot": fmt.Sprint(t.slot), "epoch": fmt.Sprint(t.epoch), "height": fmt.Sprint(t.block), "time": "1641338934", "hash": `"4ea1ba291e8eef538635a53e59fddba7810d1679631cc3aed7c8e6c4091a516a"`,
		"epoch_slot": fmt.Sprint(r.IntN(432000)), "slot_leader": `"pool1pu5jlj4q9w9jlxeu370a3c9myx47md5j5m2str0naunn2qnikdy"`, "size": "3", "tx_count": "1", "output": `"128314491794"`, "fees": `"592661"`,
		"block_vrf": `"vrf_vk1wf2k6lhujezqcfe00l6zetxpnmh9n6mwhpmhm0dvfh3fxgmdnrfqkms8ty"`, "previous_block": "null", "next_block": "null", "confirmations": fmt.Sprint(r.IntN(50))}
	for k, v := range over {
		f[k] = v
	}
	var xs []string
	for k := range f {
		xs = append(xs, k)
	}
	sortStrings(xs)
	r.Shuffle(len(xs), func(i, j int) { xs[i], xs[j] = xs[j], xs[i] })
	for i, k := range xs {
		xs[i] = fmt.Sprintf("%q: %s", k, f[k])
	}
	t.text = "{" + strings.Join(xs, ",") + "}"
	return t
}

func (u *bfRun) tip() {
	t := genBFTip(u.c.R, nil)
	u.k.tip = t.text
	u.c.Log("tip %s", t.text)
	got, err := u.n.QueryTip()
	u.take()
	checkTip(u.c, got, err, t)
	u.c.Case("tip", t.text)
}

// posts checks that exactly one submission with exactly the bytes was seen.
func (u *bfRun) posts(raw []byte) {
	rs := u.take()
	n := 0
	for _, q := range rs {
		if q.method == "POST" {
			n++
			u.c.Failif(q.path != "/api/v0/tx/submit", "path", "submission posted to %s", q.path)
			u.c.Failif(q.ctype != "application/cbor", "content-type", "submission has content type %q", q.ctype)
			u.c.Failif(!bytes.Equal(q.body, raw), "submit-bytes", "submitted %s, want %s", hx(q.body), hx(raw))
		}
	}
	u.c.Failif(n != 1, "submit-times", "the transaction was posted %d times", n)
	u.c.Ev("submission-body-checked")
}

func goodTx(c *Ctx) (t tx.Tx, raw []byte, hash string) {
	for raw == nil {
		t, raw, hash = genSubmit(c)
	}
	return
}

func (u *bfRun) submit() {
	c := u.c
	t, raw, hash := goodTx(c)
	u.k.submit = jq(hash) + pick(c.R, "", "\n")
	got, err := u.n.SubmitTx(t)
	u.posts(raw)
	c.Failif(err != nil, "submit-error", "an accepted submission gives %v", err)
	c.Failif(got != hash, "submit-hash", "submission returned %q, want %q", got, hash)
	c.Ev("submit-checked")
	c.Case("submit", raw)
}

// callFaulty makes one call with the fault armed and returns its error.
func (u *bfRun) callFaulty(call string) error {
	c, r := u.c, u.c.R
	var err error
	switch call {
	case "utxos":
		if len(u.k.utxos) == 0 {
			u.genUtxos(1 + r.IntN(5))
		}
		var got []tx.TxInput
		got, err = u.n.UTXOs(genAddr(r).Must(c))
		c.Log("-> %d outputs, %v", len(got), err)
		u.take()
	case "params":
		u.k.params = genBFParams(r, nil).text
		_, err = u.n.ProtocolParameters()
		u.take()
	case "tip":
		u.k.tip = genBFTip(r, nil).text
		_, err = u.n.QueryTip()
		u.take()
	case "submit":
		t, raw, hash := goodTx(c)
		u.k.submit = jq(hash)
		_, err = u.n.SubmitTx(t)
		u.posts(raw)
	}
	return err
}

func init() {
	calls := []string{"utxos", "params", "tip", "submit"}
	register(&Property{
		ID: "C19",
		Setup: func(m *Monitor) error {
			dictEnv(m.seed)
			return bfSetup(m)
		},
		Rule: "each case runs the real backend against a local TLS stand-in of the service (reached through HTTPS_PROXY with its own CA): both networks, random project ids, addresses, 0..520 outputs over pages, parameter and tip documents, signed transactions; " +
			"then error statuses, truncated, reset, malformed, ill-typed and out-of-range replies on any page; non-trivial = distinct reply or submitted transaction",
		Require: []string{"host/" + bfMain, "host/" + bfTest, "no-outputs", "one-page", "full-pages", "several-pages", "long-list", "utxo-compared", "params-compared", "tip-compared", "submit-checked", "submission-body-checked",
			"fault/status", "fault/truncate", "fault/cut", "fault/body", "fault/short", "fault/later-page", "bad/utxo", "bad/params", "bad/tip", "bad/submit", "persistent-5xx", "transient", "concurrent", "unserializable", "address-again", "result-scribbled", "earlier-result-unchanged", "slow-service"},
		Assume: []string{"the stand-in answers as the Blockfrost v0 API documents; redirects are not exercised"},
		Streams: []Stream{
			{Name: "calls", Quick: 6000, Thor: 80000, Run: func(c *Ctx) {
				u := newBF(c)
				defer u.done()
				for i := 1 + c.R.IntN(5); i > 0; i-- {
					switch c.R.IntN(5) {
					case 0, 1:
						u.utxos()
					case 2:
						u.params()
					case 3:
						u.tip()
					case 4:
						u.submit()
					}
				}
			}},
			{Name: "long-lists", Quick: 10, Thor: 60, Run: func(c *Ctx) { // far more outputs than any cap a caller would expect
				u := newBF(c)
				defer u.done()
				u.utxosN(pick(c.R, 1000, 1100, 1000+c.R.IntN(9000), dictLen(c.R, 12000), 6400))
				c.Feat("long-list")
			}},
			{Name: "faults", Quick: 3000, Thor: 40000, Run: func(c *Ctx) {
				r := c.R
				u := newBF(c)
				defer u.done()
				call := pick(r, calls...)
				f := &bfFault{kind: pick(r, "status", "status", "truncate", "cut", "body")}
				if call == "submit" && r.IntN(4) == 0 {
					f.kind = pick(r, "reset", "short")
				}
				switch f.kind {
				case "status":
					f.n = pick(r, 400, 401, 402, 403, 404, 405, 409, 413, 418, 425)
					if call == "submit" {
						f.n = pick(r, 400, 403, 404, 418, 425, 429, 500, 502, 503, 504, 300, 304, 302) // 3xx leading nowhere
					}
					good := `"` + strings.Repeat("ab", 32) + `"`
					if call == "utxos" {
						good = "[]"
					}
					f.body = pick(r, bfError(f.n), "", "<html>oops</html>", good, "{}")
				case "body":
					f.body = pick(r, "", "<html></html>", "not json", "{", "[", `{"a":`, "\x00", "[1,2", `[{"tx_hash":"ab"`, "Bad Gateway")
				}
				if call == "utxos" && r.IntN(2) == 0 { // only a later page fails
					n := pick(r, 100, 101, 150, 200, 250)
					u.genUtxos(n)
					f.page = 2
					if n >= 200 && r.IntN(2) == 0 {
						f.page = 3
					}
					c.Feat("fault/later-page")
				}
				u.k.fault = f
				c.Log("%s with fault %+v", call, *f)
				c.Feat("fault/" + f.kind)
				c.Case(call, f.kind, f.n, f.body, f.page, c.Idx)
				err := u.callFaulty(call)
				if u.k.hits == 0 { // the backend never needed that page (other page size): nothing to judge
					c.Failif(f.page == 0, "no-request", "%s made no request", call)
					return
				}
				c.Failif(err == nil, "failure-hidden:"+call+":"+f.kind, "%s succeeds although the service answered with %+v", call, *f)
				c.Ev("failure-reported")
				// the same client works once the service recovers
				u.k.fault = nil
				u.k.utxos = nil
				switch r.IntN(4) {
				case 0:
					u.utxos()
				case 1:
					u.submit()
				}
			}},
			{Name: "bad-replies", Quick: 4000, Thor: 60000, Run: func(c *Ctx) {
				r := c.R
				u := newBF(c)
				defer u.done()
				call := pick(r, "utxo", "params", "tip", "submit")
				c.Feat("bad/" + call)
				var err error
				switch call {
				case "utxo":
					rows := u.genUtxos(1 + r.IntN(4))
					i := r.IntN(len(rows))
					hash, ix, qty := hex.EncodeToString(rows[i].hash), fmt.Sprint(rows[i].ix), jq(fmt.Sprint(rows[i].amt))
					switch r.IntN(3) {
					case 0:
						hash = pick(r, hash[:62], hash[:63], hash+"00", "zz"+hash[2:], "", "0x"+hash[2:])
					case 1:
						ix = pick(r, "-1", "65536", "65537", "4294967296", `"1"`, "1.5", "[]", "true")
					case 2:
						qty = pick(r, `"-1"`, `"abc"`, `""`, `"1.5"`, `"18446744073709551616"`, `"99999999999999999999999999"`, "12", `"1e6"`, `"0x10"`, `"1,000"`)
					}
					u.k.utxos[i] = bfUtxoJSON(r, hash, ix, qty)
					c.Log("row %d: %s", i, u.k.utxos[i])
					c.Case(u.k.utxos[i])
					var got []tx.TxInput
					got, err = u.n.UTXOs(genAddr(r).Must(c))
					c.Log("-> %d outputs", len(got))
				case "params":
					key := pick(r, "min_fee_a", "min_fee_b", "max_tx_size", "protocol_major_ver", "protocol_minor_ver", "min_utxo")
					v := pick(r, "-1", "18446744073709551616", `"x"`, "1.5", "[]", "true", "{}")
					if key == "min_utxo" {
						v = pick(r, `"-1"`, `"abc"`, `""`, `"1.5"`, `"18446744073709551616"`, `"0x10"`, `"0b1"`, `"0o17"`, `"1_000"`, `"1,000"`, `"1e6"`, `" 5"`, `"5 "`, `"+5"`, "12", "[]", "true")
					} else if strings.HasPrefix(key, "protocol") && r.IntN(2) == 0 {
						v = pick(r, "256", "257", "1000", "65536")
					}
					u.k.params = genBFParams(r, map[string]string{key: v}).text
					c.Log("%s", u.k.params)
					c.Case(u.k.params)
					_, err = u.n.ProtocolParameters()
				case "tip":
					u.k.tip = genBFTip(r, map[string]string{pick(r, "slot", "epoch", "height"): pick(r, "-1", "-9223372036854775808", "18446744073709551616", `"x"`, "1.5", "[]", "true", `"5"`)}).text
					c.Log("%s", u.k.tip)
					c.Case(u.k.tip)
					_, err = u.n.QueryTip()
				case "submit":
					t, raw, hash := goodTx(c)
					u.k.submit = pick(r, `"`+hash, hash+`"`, `{"hash":"`+hash+`"}`, "5", "true", "[]", `""`, "not json", `"`+hash[:40]+`"`, `["`+hash+`"]`, "<html></html>", "", `"submitted"`)
					c.Log("reply %s", u.k.submit)
					c.Case(u.k.submit, raw)
					var got string
					got, err = u.n.SubmitTx(t)
					u.posts(raw)
					c.Log("-> %q", got)
				}
				u.take()
				c.Failif(err == nil, "bad-reply-accepted:"+call, "a malformed reply to %s is accepted", call)
				c.Ev("bad-reply-rejected")
			}},
			{Name: "unserializable", Quick: 200, Thor: 2000, Run: func(c *Ctx) {
				u := newBF(c)
				defer u.done()
				h := newHist(c, false)
				h.addInputs(1)
				h.addOutputs(1)
				h.t.Metadata = badMeta(c.R)
				if _, err := h.t.Bytes(); err == nil {
					return
				}
				u.k.submit = jq(strings.Repeat("ab", 32))
				got, err := u.n.SubmitTx(*h.t)
				rs := u.take()
				c.Failif(err == nil || len(rs) != 0, "submit-unserializable", "a transaction that cannot be serialized was submitted: %q, %d requests", got, len(rs))
				c.Feat("unserializable")
			}},
			{Name: "concurrent", Quick: 300, Thor: 4000, Workers: 4, Run: func(c *Ctx) {
				u := newBF(c)
				defer u.done()
				n := 2 + c.R.IntN(6)
				rows := u.genUtxos(pick(c.R, 3, 100, 130))
				a := genAddr(c.R)
				u.k.submit = jq(strings.Repeat("5a", 32))
				t := genBFTip(c.R, nil)
				p := genBFParams(c.R, nil)
				u.k.tip, u.k.params = t.text, p.text
				txs, raws := make([]tx.Tx, n), map[string]int{}
				for i := range txs {
					var raw []byte
					txs[i], raw, _ = goodTx(c)
					raws[string(raw)]++
				}
				var wg sync.WaitGroup
				outs, errs := make([][]tx.TxInput, n), make([]error, 3*n)
				tips, prs := make([]node.NetworkTip, n), make([]protocol.Protocol, n)
				addr := a.Must(c)
				for i := 0; i < n; i++ {
					wg.Add(3)
					go func() { defer wg.Done(); _, errs[3*i] = u.n.SubmitTx(txs[i]) }()
					go func() { defer wg.Done(); outs[i], errs[3*i+1] = u.n.UTXOs(addr) }()
					go func() {
						defer wg.Done()
						if tips[i], errs[3*i+2] = u.n.QueryTip(); errs[3*i+2] == nil {
							prs[i], errs[3*i+2] = u.n.ProtocolParameters()
						}
					}()
				}
				wg.Wait()
				for _, e := range errs {
					c.Failif(e != nil, "concurrent-error", "a concurrent call gives %v", e)
				}
				for i := 0; i < n; i++ {
					checkRows(c, outs[i], rows)
					checkTip(c, tips[i], nil, t)
					c.Failif(prs[i] != p.want, "params-values", "parameters %+v, want %+v", prs[i], p.want)
				}
				for _, q := range u.take() {
					if q.method == "POST" {
						raws[string(q.body)]--
					}
				}
				for b, v := range raws {
					c.Failif(v != 0, "submit-bytes", "transaction %s posted %+d times too few", hx([]byte(b)), v)
				}
				c.Feat("concurrent")
			}},
			{Name: "slow", Fixed: true, Quick: 8, Thor: 16, Workers: 16, Run: func(c *Ctx) {
				u := newBF(c)
				defer u.done()
				u.k.fault = &bfFault{kind: "slow", n: []int{12, 2, 4, 6, 11, 2, 3, 8, 35, 65, 20, 16, 25, 32, 7, 12}[c.Idx], page0: c.R.IntN(2), times: 1}
				switch c.Idx % 4 {
				case 0:
					u.utxosN(pick(c.R, 1, 3, 120))
				case 1:
					u.params()
				case 2:
					u.tip()
				default:
					u.submit()
				}
				c.Feat("slow-service")
			}},
			{Name: "retried", Quick: 32, Thor: 200, Workers: 32, Run: func(c *Ctx) {
				r := c.R
				u := newBF(c)
				defer u.done()
				f := &bfFault{kind: pick(r, "status", "status", "reset"), n: pick(r, 500, 502, 503, 504, 429)}
				if f.kind == "status" {
					f.body = bfError(f.n)
				}
				call := pick(r, "utxos", "params", "tip")
				u.k.fault = f
				if c.Idx%2 == 0 { // fails once, then answers: the answer must be right or an error
					f.times = 1
					switch call {
					case "utxos":
						n := pick(r, 3, 100, 150)
						rows := u.genUtxos(n)
						if n >= 100 {
							f.page = 2
						}
						got, err := u.n.UTXOs(genAddr(r).Must(c))
						if err == nil {
							checkRows(c, got, rows)
						}
					case "params":
						p := genBFParams(r, nil)
						u.k.params = p.text
						got, err := u.n.ProtocolParameters()
						c.Failif(err == nil && got != p.want, "params-values", "parameters %+v after a retry, want %+v", got, p.want)
					case "tip":
						t := genBFTip(r, nil)
						u.k.tip = t.text
						if got, err := u.n.QueryTip(); err == nil {
							checkTip(c, got, err, t)
						}
					}
					u.take()
					c.Feat("transient")
					return
				}
				if call == "utxos" && r.IntN(2) == 0 {
					u.genUtxos(150)
					f.page = 2
				}
				c.Log("%s with lasting fault %+v", call, *f)
				c.Case(call, f.kind, f.n, c.Idx)
				err := u.callFaulty(call)
				c.Failif(err == nil, "failure-hidden:"+call+":"+f.kind, "%s succeeds although the service keeps failing with %+v", call, *f)
				c.Feat("persistent-5xx")
			}},
		},
		Finish: func(m *Monitor) {
			bf.mu.Lock()
			defer bf.mu.Unlock()
			if len(bf.odd) > 0 {
				m.report(Violation{Stream: "calls", Key: "request", Message: fmt.Sprintf("request outside the configured service or project: %s", bf.odd[0]), Trace: bf.odd})
			}
			m.events["tls-connections"] += int64(bf.conns)
		},
	})
}
