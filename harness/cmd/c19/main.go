// C19: related resources are accepted only when their digest matches.
package main

import (
	"bytes"
	"crypto/md5"
	"crypto/sha256"
	"crypto/sha512"
	"encoding/hex"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net/http"
	"net/http/httptest"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/hashicorp/golang-lru/v2/expirable"
	"github.com/multiformats/go-multibase"

	"github.com/trustbloc/vc-go/verifharness/vh"
	"github.com/trustbloc/vc-go/verifiable"
)

type M = map[string]interface{}

var w *vh.World

func main() {
	vh.Main(vh.Spec{
		ID: "C19",
		Rule: "credentials with 1..4 related resources (contents of 1 to 200000 bytes; SRI and multibase digests over sha256/384/512 and 8 encodings; 30 kinds of wrong, " +
			"empty, short, foreign or unsupported digests and malformed entries) x fetch outcome (status codes, network errors, empty, cut and altered bodies, redirects, over a " +
			"scripted client and a real loopback server) x entry point (validator, ParseCredential of JSON-LD, JWT, SD-JWT and CWT, ParsePresentation), judged by " +
			"construction; histories of changing contents and faults through a cache, where the served bytes are recorded and each verdict is compared with them; concurrent " +
			"validations on one validator, under the race detector. Distinct: (entry point, digest form, fetch outcome, number of resources, verdict).",
		Level: "exploration",
		Require: map[string]int64{"accepted": 700, "refused.digest": 1200, "refused.fetch": 500, "refused.shape": 150, "history.cached": 300, "history.fetched": 300,
			"history.stale-digest": 60, "concurrent": 300, "server": 60, "switched-off": 40},
		Assumptions: []string{"SRI values carry a multibase prefix (the form the repository's tests use); plain base64 SRI values are not judged",
			"multihash headers are recognised in base64url multibase values only", "ids may repeat"},
		Run: run,
	})
}

func run(c *vh.Check) {
	w = vh.NewWorld("issuer", "holder")

	c.Cases("digest", c.N(2600, 30000), func(r *rand.Rand, _ int) { digest(c, r) })
	c.Cases("shape", c.N(300, 3000), func(r *rand.Rand, _ int) { shape(c, r) })
	c.Cases("history", c.N(90, 1000), func(r *rand.Rand, _ int) { history(c, r) })
	c.Cases("concurrent", c.N(40, 400), func(r *rand.Rand, _ int) { concurrent(c, r) })
	c.Cases("server", c.N(120, 1200), func(r *rand.Rand, _ int) { server(c, r) })
}

// ---- scripted web ----

type page struct {
	status int
	body   []byte
	fault  string // "", error, nobody, empty, cut, cut-all, error-body
}

func (p page) good() bool { return p.fault == "" && p.status == 200 && len(p.body) > 0 }

type web struct {
	mu     sync.Mutex
	pages  map[string]page
	served map[string][][]byte // successful fetches, in order
	asked  map[string]int
}

func newWeb() *web {
	return &web{pages: map[string]page{}, served: map[string][][]byte{}, asked: map[string]int{}}
}

type cutBody struct {
	r io.Reader
}

func (b *cutBody) Read(p []byte) (int, error) {
	n, err := b.r.Read(p)
	if err == io.EOF {
		err = errors.New("injected: connection reset")
	}

	return n, err
}
func (b *cutBody) Close() error { return nil }

// small reads, and the last bytes together with EOF
type drip struct {
	b []byte
}

func (d *drip) Read(p []byte) (int, error) {
	n := copy(p[:min(len(p), 7)], d.b)
	d.b = d.b[n:]

	if len(d.b) == 0 {
		return n, io.EOF
	}

	return n, nil
}

func (wb *web) Do(req *http.Request) (*http.Response, error) {
	wb.mu.Lock()
	defer wb.mu.Unlock()

	u := req.URL.String()
	wb.asked[u]++

	p, ok := wb.pages[u]
	if !ok {
		return nil, fmt.Errorf("unsupported protocol or host: %q", u)
	}

	if req.Method != http.MethodGet {
		return &http.Response{StatusCode: 405, Body: http.NoBody}, nil
	}

	res := &http.Response{StatusCode: p.status, Header: http.Header{}, Request: req}

	switch p.fault {
	case "error":
		return nil, errors.New("injected: no route to host")
	case "nobody":
		return res, nil
	case "empty":
		res.Body = http.NoBody
	case "cut":
		res.Body = &cutBody{bytes.NewReader(p.body[:len(p.body)/2])}
	case "cut-all": // everything arrived, then the connection broke
		res.Body = &cutBody{bytes.NewReader(p.body)}
	case "drip":
		res.Body = io.NopCloser(&drip{p.body})
	default:
		res.Body = io.NopCloser(bytes.NewReader(p.body))
	}

	if p.status == 200 && len(p.body) > 0 && (p.fault == "" || p.fault == "drip") {
		wb.served[u] = append(wb.served[u], p.body)
	}

	return res, nil
}

func (wb *web) count(u string) (asked, served int) {
	wb.mu.Lock()
	defer wb.mu.Unlock()

	return wb.asked[u], len(wb.served[u])
}

// ---- digests ----

func sum(alg string, b []byte) []byte {
	switch alg {
	case "sha256":
		h := sha256.Sum256(b)
		return h[:]
	case "sha384":
		h := sha512.Sum384(b)
		return h[:]
	default:
		h := sha512.Sum512(b)
		return h[:]
	}
}

var encs = []multibase.Encoding{multibase.Base64pad, multibase.Base64, multibase.Base64url, multibase.Base64urlPad, multibase.Base58BTC, multibase.Base16, multibase.Base32, multibase.Base36}

func enc(e multibase.Encoding, b []byte) string {
	s, err := multibase.Encode(e, b)
	if err != nil {
		panic(fmt.Sprintf("vh-fixture multibase: %v", err))
	}

	return s
}

// sriEnc encodes for an SRI value, which cannot hold a second dash.
func sriEnc(r *rand.Rand, b []byte) string {
	for {
		s := enc(vh.Pick(r, encs...), b)
		if !strings.Contains(s, "-") {
			return s
		}
	}
}

func mh(b []byte) string {
	return enc(multibase.Base64url, append([]byte{0x12, 0x20}, sum("sha256", b)...))
}

type dig struct {
	name, sri, mb string
	good          bool
}

func goodDigest(r *rand.Rand, b []byte) dig {
	alg := vh.Pick(r, "sha256", "sha384", "sha512")
	sri := vh.Pick(r, alg, alg, strings.ToUpper(alg)) + "-" + sriEnc(r, sum(alg, b))

	bare := enc(vh.Pick(r, encs...), sum("sha256", b))

	switch r.Intn(6) {
	case 0, 1, 2:
		return dig{"sri-" + alg, sri, "", true}
	case 3:
		return dig{"multihash", "", mh(b), true}
	case 4:
		return dig{"multibase", "", bare, true}
	}

	return dig{"both", sri, vh.Pick(r, mh(b), bare), true}
}

func badDigest(r *rand.Rand, b []byte) dig {
	alg := vh.Pick(r, "sha256", "sha384", "sha512")
	h := sum(alg, b)
	h256 := sum("sha256", b)
	other := append(append([]byte{}, b...), 0)

	flip := func(x []byte) []byte {
		y := bytes.Clone(x)
		y[r.Intn(len(y))] ^= 1 << r.Intn(8)

		return y
	}

	sri := func(name, v string) dig { return dig{name, v, "", false} }
	mb := func(name, v string) dig { return dig{name, "", v, false} }
	wrongAlg := map[string]string{"sha256": "sha384", "sha384": "sha512", "sha512": "sha256"}[alg]
	m5 := md5.Sum(b)

	ds := []dig{
		sri("sri-bit", alg+"-"+sriEnc(r, flip(h))),
		sri("sri-short", alg+"-"+sriEnc(r, h[:r.Intn(len(h))])),
		sri("sri-one-short", alg+"-"+sriEnc(r, h[:len(h)-1])),
		sri("sri-tail", alg+"-"+sriEnc(r, h[1:])),
		sri("sri-long", alg+"-"+sriEnc(r, append(bytes.Clone(h), 0))),
		sri("sri-other-content", alg+"-"+sriEnc(r, sum(alg, other))),
		sri("sri-empty-content", alg+"-"+sriEnc(r, sum(alg, nil))),
		sri("sri-other-alg", wrongAlg+"-"+sriEnc(r, h)),
		sri("sri-truncated-512", "sha256-"+sriEnc(r, sum("sha512", b)[:32])),
		sri("sri-md5", "md5-"+sriEnc(r, m5[:])),
		sri("sri-sha1", "sha1-"+sriEnc(r, h[:20])),
		sri("sri-unknown", vh.Pick(r, "sha", "sha512/256", "sha3", "none", "", "sha-256", "multihash", "sha256 ")+"-"+sriEnc(r, h)),
		sri("sri-no-value", alg+"-"),
		sri("sri-no-dash", alg+sriEnc(r, h)),
		sri("sri-only-prefix", alg+"-"+vh.Pick(r, "M", "m", "u", "U", "z", "f", "b")),
		sri("sri-prefix-zero", alg+"-"+sriEnc(r, make([]byte, len(h)))),
		sri("sri-header", alg+"-"+enc(multibase.Base58BTC, append([]byte{0x12, 0x20}, h...))),
		sri("sri-garbage", vh.Pick(r, "-", "--", alg+"-?", alg+"-M***", " ", alg+"-M"+strings.Repeat("A", 63), "null")),
		mb("mb-bit", enc(multibase.Base64url, append([]byte{0x12, 0x20}, flip(h256)...))),
		mb("mb-bare-bit", enc(vh.Pick(r, encs...), flip(h256))),
		mb("mb-header-only", enc(multibase.Base64url, []byte{0x12, 0x20})),
		mb("mb-short", enc(multibase.Base64url, append([]byte{0x12, 0x20}, h256...)[:r.Intn(34)])),
		mb("mb-prefix", vh.Pick(r, "u", "M", "m", "z", "f", "b", "k", "U")),
		mb("mb-one-byte", enc(vh.Pick(r, encs...), []byte{0x12})),
		mb("mb-header-512", enc(multibase.Base64url, append([]byte{0x13, 0x40}, sum("sha512", b)...))),
		mb("mb-header-wrong", enc(multibase.Base64url, append([]byte{0x12, 0x21}, h256...))),
		mb("mb-other-alg", enc(vh.Pick(r, encs...), sum("sha512", b))),
		mb("mb-other-alg", enc(vh.Pick(r, encs...), sum("sha384", b))),
		mb("mb-other-content", mh(other)),
		mb("mb-empty-content", mh(nil)),
		mb("mb-hex", hex.EncodeToString(h256)+"!"),
		mb("mb-garbage", vh.Pick(r, "u*", " ", "Q", "9", "\x01", "🚀", "sha256", "uEi!")),
		{"both-bad-mb", alg + "-" + sriEnc(r, h), enc(multibase.Base64url, append([]byte{0x12, 0x20}, flip(h256)...)), false},
		{"both-bad-sri", alg + "-" + sriEnc(r, flip(h)), mh(b), false},
		{"none", "", "", false},
	}

	return ds[r.Intn(len(ds))]
}

func content(r *rand.Rand) []byte {
	b := make([]byte, vh.Pick(r, 1, 2, 31, 64, 500, 4096, 70000, 200000, 1+r.Intn(3000)))
	r.Read(b)

	if r.Intn(3) == 0 {
		return []byte(fmt.Sprintf(`{"@context":{"t%d":"https://x.example/%s"}}`, r.Intn(1000), hex.EncodeToString(b[:min(len(b), 9)])))
	}

	return b
}

func fetchFault(r *rand.Rand, p page) (page, string) {
	switch vh.Pick(r, "error", "nobody", "empty", "cut", "cut-all", "status", "status", "missing") {
	case "error":
		p.fault = "error"
	case "nobody":
		p.fault = "nobody"
	case "empty":
		p.fault = vh.Pick(r, "empty", "")
		p.body = nil

		return p, "empty"
	case "cut":
		p.fault = "cut"
	case "cut-all":
		p.fault = "cut-all"
	case "status":
		p.status = vh.Pick(r, 100, 201, 202, 203, 204, 206, 226, 300, 301, 304, 307, 400, 401, 403, 404, 410, 418, 429, 500, 502, 503, 504, 0, 2000, -200)
		return p, "status-" + strconv.Itoa(p.status/100) + "xx"
	case "missing":
		return page{status: -1}, "missing"
	}

	return p, p.fault
}

// ---- entry points ----

func entryOf(d dig, id string) M {
	e := M{"id": id, "mediaType": "application/json"}
	if d.sri != "" {
		e["digestSRI"] = d.sri
	}

	if d.mb != "" {
		e["digestMultibase"] = d.mb
	}

	return e
}

func doc(v int, res interface{}) M {
	d := M{"type": []interface{}{"VerifiableCredential"}, "id": "urn:uuid:1", "issuer": w.Ents["issuer"].DID, "credentialSubject": M{"id": "did:verif:holder", "n": "x"}}

	if v == 1 {
		d["@context"] = []interface{}{vh.CtxV1, vh.CtxVerif}
		d["issuanceDate"] = "2024-01-02T03:04:05Z"
	} else {
		d["@context"] = []interface{}{vh.CtxV2, vh.CtxVerif}
	}

	if res != nil {
		d["relatedResource"] = res
	}

	return d
}

var entries = []string{"validator", "validator", "json", "json", "jwt", "cwt", "sdjwt", "presentation", "created"}

// check runs an entry point over credentials with the given related resource members, with the validator.
func check(r *rand.Rand, entry string, v *verifiable.RelatedResourceValidator, res ...interface{}) error {
	ver := 1 + r.Intn(2)

	var docs []M
	for _, x := range res {
		docs = append(docs, doc(ver, x))
	}

	old := verifiable.DefaultRelatedResourceValidator
	verifiable.DefaultRelatedResourceValidator = v

	defer func() { verifiable.DefaultRelatedResourceValidator = old }()

	opts := []verifiable.CredentialOpt{verifiable.WithDisabledProofCheck(), verifiable.WithCredDisableValidation(), verifiable.WithJSONLDDocumentLoader(w.Loader)}

	switch entry {
	case "validator":
		var creds []*verifiable.Credential
		for _, d := range docs {
			creds = append(creds, w.ParseVC(d))
		}

		return v.Validate(creds)
	case "created":
		var creds []*verifiable.Credential

		for _, d := range docs {
			vc, err := verifiable.CreateCredential(w.ParseVC(d).Contents(), nil)
			if err != nil {
				return err
			}

			creds = append(creds, vc)
		}

		return v.Validate(creds)
	case "presentation":
		var in []interface{}
		for _, d := range docs {
			in = append(in, d)
		}

		vp := M{"@context": []interface{}{vh.CtxV1}, "type": []interface{}{"VerifiablePresentation"}, "verifiableCredential": in}
		if ver == 2 {
			vp["@context"] = []interface{}{vh.CtxV2}
		}

		_, err := verifiable.ParsePresentation(vh.J(vp), verifiable.WithPresDisabledProofCheck(), verifiable.WithDisabledJSONLDChecks(),
			verifiable.WithPresJSONLDDocumentLoader(w.Loader), verifiable.WithPresRelatedResourceCheck(true))

		return err
	}

	for _, d := range docs {
		var b []byte

		e := w.Ents["issuer"]

		switch entry {
		case "json":
			b = vh.Shuffled(r, d)
		case "jwt":
			b = []byte(w.JWTCred(e, "EdDSA", d))
		case "cwt":
			b = w.CWTCred(e, "EdDSA", d)
		case "sdjwt":
			b = []byte(w.SDJWTCred(e, "EdDSA", d))
		}

		if _, err := verifiable.ParseCredential(b, opts...); err != nil {
			return err
		}
	}

	return nil
}

func guarded(c *vh.Check, entry string, detail interface{}, f func() error) (err error, ok bool) {
	p, site, val := vh.Guard(func() { err = f() })
	if p {
		if strings.HasPrefix(fmt.Sprint(val), "vh-fixture") {
			panic(val)
		}

		c.Violate("panic/"+entry+"/"+site, fmt.Sprintf("panic: %v", val), detail)

		return nil, false
	}

	return err, true
}

func digest(c *vh.Check, r *rand.Rand) {
	wb := newWeb()
	entry := vh.Pick(r, entries...)
	nCred := 1

	if r.Intn(3) == 0 {
		nCred = 1 + r.Intn(3)
	}

	badAt, kind := -1, vh.Pick(r, "good", "digest", "digest", "fetch")
	n := 1 + r.Intn(4)
	total := n * nCred

	if kind != "good" {
		badAt = r.Intn(total)
	}

	var res []interface{}

	why, group := "good", ""

	for k, x := 0, 0; k < nCred; k++ {
		var list []interface{}

		for i := 0; i < n; i++ {
			u := fmt.Sprintf("https://res.example/%d/%d?a=b", k, i)
			b := content(r)
			p := page{status: 200, body: b, fault: vh.Pick(r, "", "", "drip")}
			d := goodDigest(r, b)

			if x == badAt && kind == "digest" {
				d = badDigest(r, b)
				why, group = d.name, "digest"
			}

			if x == badAt && kind == "fetch" {
				p, why = fetchFault(r, page{status: 200, body: b})
				group = "fetch"
			}

			if p.status != -1 {
				wb.pages[u] = p
			}

			if kind == "good" && i == 0 {
				why = d.name
			}

			list = append(list, entryOf(d, u))
			x++
		}

		res = append(res, list)
	}

	v := verifiable.NewRelatedResourceValidator(verifiable.WithHTTPClient(wb))
	detail := M{"entry": entry, "why": why, "bad": badAt, "resources": res}
	cell := entry + "/" + why

	for round := 0; round < 2; round++ { // the second round goes through the cache
		err, ok := guarded(c, entry, detail, func() error { return check(r, entry, v, res...) })
		if !ok {
			return
		}

		c.Eval(fmt.Sprintf("%s/%d/%d/%d", cell, n, nCred, round))

		if kind == "good" {
			if c.Expect(err == nil, "refused/"+cell, fmt.Sprintf("round %d: matching digests were refused: %v", round, err), detail) {
				c.Count("accepted", 1)
			}
		} else if c.Expect(err != nil, "accepted/"+cell, fmt.Sprintf("round %d: accepted (%s)", round, why), detail) {
			c.Count("refused."+group, 1)
		}
	}

	if r.Intn(12) == 0 && kind != "good" { // with the check off nothing is fetched
		before := wb.total()
		_, err := verifiable.ParseCredential(vh.J(doc(2, res[0])), verifiable.WithDisabledProofCheck(), verifiable.WithJSONLDDocumentLoader(w.Loader),
			verifiable.WithCredDisableValidation(), verifiable.WithDisabledRelatedResourceCheck())

		c.Expect(err == nil && wb.total() == before, "switched-off", fmt.Sprintf("with the check off: %v", err), detail)
		c.Count("switched-off", 1)
	}
}

func (wb *web) total() int {
	wb.mu.Lock()
	defer wb.mu.Unlock()

	n := 0
	for _, x := range wb.asked {
		n += x
	}

	return n
}

// shape: malformed members
func shape(c *vh.Check, r *rand.Rand) {
	wb := newWeb()
	b := content(r)
	u := "https://res.example/x"
	wb.pages[u] = page{status: 200, body: b}
	d := goodDigest(r, b)
	good := entryOf(d, u)

	with := func(k string, v interface{}) M {
		m := vh.CloneM(good)
		m[k] = v

		return m
	}

	without := func(ks ...string) M {
		m := vh.CloneM(good)
		for _, k := range ks {
			delete(m, k)
		}

		return m
	}

	type cs struct {
		name string
		v    interface{}
	}

	all := []cs{
		{"string", "https://res.example/x"}, {"number", 5}, {"bool", true}, {"list-string", []interface{}{u}}, {"list-null", []interface{}{nil}},
		{"list-list", []interface{}{[]interface{}{good}}}, {"good-then-string", []interface{}{good, "x"}}, {"list-empty-object", []interface{}{M{}}},
		{"no-id", []interface{}{without("id")}}, {"id-empty", []interface{}{with("id", "")}}, {"id-null", []interface{}{with("id", nil)}},
		{"id-list", []interface{}{with("id", []interface{}{u})}}, {"id-object", []interface{}{with("id", M{"id": u})}}, {"id-number", []interface{}{with("id", 7)}},
		{"id-relative", []interface{}{with("id", "/x")}}, {"id-bad-url", []interface{}{with("id", "https://res.example/%zz")}}, {"id-space", []interface{}{with("id", " "+u)}},
		{"id-other-host", []interface{}{with("id", "https://res2.example/x")}},
		{"no-digest", []interface{}{without("digestSRI", "digestMultibase")}},
		{"digest-null", []interface{}{M{"id": u, "digestSRI": nil, "digestMultibase": nil}}}, {"digest-empty", []interface{}{M{"id": u, "digestSRI": "", "digestMultibase": ""}}},
		{"digest-number", []interface{}{M{"id": u, "digestSRI": 12}}}, {"digest-object", []interface{}{M{"id": u, "digestSRI": M{}}}},
		{"digest-bool", []interface{}{M{"id": u, "digestMultibase": false}}}, {"digest-other-name", []interface{}{M{"id": u, "digest": mh(b)}}},
		{"good-then-no-digest", []interface{}{good, without("digestSRI", "digestMultibase")}},
		{"same-id-bad", []interface{}{good, entryOf(badDigest(r, b), u)}}, {"same-id-bad-first", []interface{}{entryOf(badDigest(r, b), u), good}},
	}

	x := all[r.Intn(len(all))]
	entry := vh.Pick(r, "json", "jwt", "cwt", "presentation", "sdjwt")
	v := verifiable.NewRelatedResourceValidator(verifiable.WithHTTPClient(wb))
	detail := M{"entry": entry, "shape": x.name, "resources": x.v}

	err, ok := func() (e error, ok bool) {
		p, site, val := vh.Guard(func() { e = check(r, entry, v, x.v) })
		if p && strings.HasPrefix(fmt.Sprint(val), "vh-fixture") { // the SD-JWT cannot be made from such a document
			return errors.New("no such SD-JWT"), true
		}

		if p {
			c.Violate("panic/"+entry+"/"+site, fmt.Sprintf("panic: %v", val), detail)
			return nil, false
		}

		return e, true
	}()
	if !ok {
		return
	}

	c.Eval("shape/" + entry + "/" + x.name)

	if c.Expect(err != nil, "accepted/shape/"+entry+"/"+x.name, "accepted a malformed related resource: "+x.name, detail) {
		c.Count("refused.shape", 1)
	}

	// nothing to check is fine
	err, ok = guarded(c, entry, detail, func() error { return check(r, entry, v, vh.Pick[interface{}](r, nil, []interface{}{})) })
	if ok {
		c.Expect(err == nil, "refused/shape/"+entry+"/none", fmt.Sprintf("a credential without related resources was refused: %v", err), detail)
	}
}

// history: contents and faults change between validations on one validator with a cache.
func history(c *vh.Check, r *rand.Rand) {
	wb := newWeb()
	size := vh.Pick(r, 1, 2, 3, 100)
	life := vh.Pick(r, time.Hour, time.Hour, 4*time.Millisecond)
	v := verifiable.NewRelatedResourceValidator(verifiable.WithHTTPClient(wb), verifiable.WithCache(expirable.NewLRU[string, *verifiable.CachedResource](size, nil, life)))

	urls := []string{"https://res.example/a", "https://res.example/b", "https://res.example/a?x", "https://res2.example/a", "https://res.example/A"}
	past := map[string][][]byte{}

	var trace []string

	for _, u := range urls {
		b := content(r)
		wb.pages[u] = page{status: 200, body: b}
		past[u] = [][]byte{b}
	}

	for step := 0; step < 24; step++ {
		u := vh.Pick(r, urls...)

		switch r.Intn(5) {
		case 0:
			b := content(r)
			wb.mu.Lock()
			wb.pages[u] = page{status: 200, body: b}
			wb.mu.Unlock()

			past[u] = append(past[u], b)
			trace = append(trace, "change "+u)
		case 1:
			wb.mu.Lock()
			p, name := fetchFault(r, page{status: 200, body: past[u][len(past[u])-1]})

			if p.status == -1 {
				delete(wb.pages, u)
			} else {
				wb.pages[u] = p
			}
			wb.mu.Unlock()

			trace = append(trace, "fault "+name+" "+u)
		case 2:
			wb.mu.Lock()
			wb.pages[u] = page{status: 200, body: past[u][len(past[u])-1]}
			wb.mu.Unlock()

			trace = append(trace, "recover "+u)

			if life < time.Second {
				time.Sleep(time.Duration(r.Intn(9)) * time.Millisecond)
			}
		}

		// a digest of the present or of an earlier content, of another resource, or a wrong one
		var (
			d    dig
			want []byte // the content the digest is for
		)

		switch r.Intn(6) {
		case 0:
			d = badDigest(r, past[u][len(past[u])-1])
		case 1:
			o := vh.Pick(r, urls...)
			want = past[o][r.Intn(len(past[o]))]
			d = goodDigest(r, want)
		default:
			want = past[u][r.Intn(len(past[u]))]
			d = goodDigest(r, want)
		}

		entry := vh.Pick(r, "validator", "json", "created")
		a0, s0 := wb.count(u)
		detail := M{"trace": trace, "url": u, "digest": d.name, "entry": entry}

		err, ok := guarded(c, "history", detail, func() error { return check(r, entry, v, []interface{}{entryOf(d, u)}) })
		if !ok {
			return
		}

		a1, s1 := wb.count(u)

		var basis []byte // what the verdict has to rest on

		source := "fetched"

		switch {
		case s1 > s0:
			basis = wb.served[u][s1-1]
		case a1 > a0:
			source = "failed"
		case s1 > 0:
			basis, source = wb.served[u][s1-1], "cached"
		default:
			source = "nothing"
		}

		accept := basis != nil && want != nil && bytes.Equal(basis, want)
		trace = append(trace, fmt.Sprintf("validate %s %s %s -> %v", u, d.name, source, err == nil))
		c.Eval(fmt.Sprintf("history/%s/%d/%v/%v", source, size, life, err == nil))

		if source == "cached" || source == "fetched" {
			c.Count("history."+source, 1)
		}

		if want != nil && basis != nil && !accept {
			c.Count("history.stale-digest", 1)
		}

		if accept {
			c.Expect(err == nil, "history/refused/"+source, fmt.Sprintf("the digest is that of the bytes served last, but was refused: %v", err), detail)
		} else {
			c.Expect(err != nil, "history/accepted/"+source, "accepted a digest that is not that of the bytes served last", detail)
		}
	}
}

// concurrent validations on one validator: each verdict is that of the credential alone.
func concurrent(c *vh.Check, r *rand.Rand) {
	wb := newWeb()

	var urls []string

	for i := 0; i < 6; i++ {
		u := fmt.Sprintf("https://res.example/%d", i)
		urls = append(urls, u)
		wb.pages[u] = page{status: 200, body: content(r), fault: vh.Pick(r, "", "drip")}
	}

	bad := "https://res.example/bad"
	wb.pages[bad] = page{status: 200, body: content(r), fault: "cut-all"}

	v := verifiable.NewRelatedResourceValidator(verifiable.WithHTTPClient(wb), verifiable.WithCache(expirable.NewLRU[string, *verifiable.CachedResource](vh.Pick(r, 1, 3, 50), nil, time.Hour)))

	type job struct {
		creds []*verifiable.Credential
		good  bool
		why   string
		err   error
	}

	jobs := make([]*job, 16)

	for i := range jobs {
		j := &job{good: true, why: "good"}
		n := 1 + r.Intn(3)

		for k := 0; k < n; k++ {
			var list []interface{}

			for m := 0; m < 1+r.Intn(3); m++ {
				u := vh.Pick(r, urls...)
				d := goodDigest(r, wb.pages[u].body)

				switch r.Intn(9) {
				case 0:
					d = badDigest(r, wb.pages[u].body)
					j.good, j.why = false, d.name
				case 1:
					u = bad
					d = goodDigest(r, wb.pages[u].body)
					j.good, j.why = false, "cut-all"
				}

				list = append(list, entryOf(d, u))
			}

			j.creds = append(j.creds, w.ParseVC(doc(2, list)))
		}

		jobs[i] = j
	}

	var wg sync.WaitGroup

	for _, j := range jobs {
		j := j

		wg.Add(1)

		go func() {
			defer wg.Done()
			j.err = v.Validate(j.creds)
		}()
	}

	wg.Wait()

	for _, j := range jobs {
		c.Count("concurrent", 1)
		c.Eval("concurrent/" + j.why)
		c.Expect((j.err == nil) == j.good, "concurrent/"+j.why, fmt.Sprintf("concurrent verdict %v, alone it is good=%v", j.err, j.good), j.why)
	}
}

// server: a real HTTP exchange over loopback.
func server(c *vh.Check, r *rand.Rand) {
	b := content(r)
	kind := vh.Pick(r, "good", "good", "chunked", "redirect", "cut", "reset", "status", "altered", "redirect-other", "empty", "gzip-lie", "closed", "no-content")

	srv := httptest.NewServer(http.HandlerFunc(func(rw http.ResponseWriter, req *http.Request) {
		if req.URL.Path == "/next" {
			_, _ = rw.Write(b)
			return
		}

		if req.URL.Path == "/gone" {
			http.NotFound(rw, req)
			return
		}

		switch kind {
		case "good":
			_, _ = rw.Write(b)
		case "chunked":
			for i := range 3 {
				_, _ = rw.Write(b[len(b)*i/3 : len(b)*(i+1)/3])
				rw.(http.Flusher).Flush()
			}
		case "redirect":
			http.Redirect(rw, req, "/next", 302)
		case "redirect-other":
			http.Redirect(rw, req, "/gone", 302)
		case "cut":
			rw.Header().Set("Content-Length", strconv.Itoa(len(b)+10))
			_, _ = rw.Write(b)
		case "reset":
			rw.Header().Set("Content-Length", strconv.Itoa(len(b)+1))
			_, _ = rw.Write(b)
			rw.(http.Flusher).Flush()

			if conn, _, err := rw.(http.Hijacker).Hijack(); err == nil {
				_ = conn.Close()
			}
		case "status":
			rw.WriteHeader(vh.Pick(r, 201, 206, 404, 500))
			_, _ = rw.Write(b)
		case "altered":
			x := bytes.Clone(b)
			x[r.Intn(len(x))] ^= 1
			_, _ = rw.Write(x)
		case "empty":
		case "no-content":
			rw.WriteHeader(204)
		case "gzip-lie":
			rw.Header().Set("Content-Encoding", "gzip")
			_, _ = rw.Write([]byte("not gzip"))
		}
	}))

	u := srv.URL + "/res"

	if kind == "closed" {
		srv.Close()
	}

	cl := &http.Client{Timeout: 10 * time.Second, Transport: &http.Transport{DisableKeepAlives: true}}
	v := verifiable.NewRelatedResourceValidator(verifiable.WithHTTPClient(cl))
	d := goodDigest(r, b)
	detail := M{"kind": kind, "digest": d}

	err, ok := guarded(c, "server", detail, func() error { return check(r, vh.Pick(r, "validator", "json"), v, []interface{}{entryOf(d, u)}) })

	if kind != "closed" {
		srv.Close()
	}

	if !ok {
		return
	}

	good := kind == "good" || kind == "chunked" || kind == "redirect"

	c.Count("server", 1)
	c.Eval("server/" + kind)
	c.Expect((err == nil) == good, "server/"+kind, fmt.Sprintf("verdict %v for %s", err, kind), detail)
}
