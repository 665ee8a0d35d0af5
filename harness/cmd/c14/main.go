// C14: revocation and suspension verdicts follow the status list bit.
package main

import (
	"bytes"
	"compress/gzip"
	"encoding/base64"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net/http"
	"net/url"
	"strconv"
	"strings"

	"github.com/multiformats/go-multibase"
	"github.com/trustbloc/did-go/doc/did"
	"github.com/trustbloc/did-go/doc/did/endpoint"
	vdrapi "github.com/trustbloc/did-go/vdr/api"

	"github.com/trustbloc/vc-go/status"
	"github.com/trustbloc/vc-go/status/api"
	"github.com/trustbloc/vc-go/status/resolver"
	"github.com/trustbloc/vc-go/status/validator"
	"github.com/trustbloc/vc-go/verifharness/vh"
	"github.com/trustbloc/vc-go/verifiable"
)

type M = map[string]interface{}

const (
	sl2021  = "StatusList2021Entry"
	bitstr  = "BitstringStatusListEntry"
	issuer  = "did:verif:issuer"
	hubDID  = "did:hub:abc"
	hubHTTP = "https://hub.example/identity"
	token   = "the-token"
)

var w *vh.World

func main() {
	vh.Main(vh.Spec{
		ID: "C14",
		Rule: "random status lists (0 to 20000 bytes, random/sparse/dense/single bit), published as JSON, JWT or SD-JWT credentials over an in-process HTTP " +
			"transport, an identity hub behind a DID URL or a stub resolver; credentials (JSON v1/v2, JWT, programmatic) with one to four entries; every " +
			"verdict is compared with the bit the harness itself set; every index of small lists is read. Histories flip bits, break and repair the publisher " +
			"between calls. Malformed entries, lists and failing lookups, one defect at a time. Distinct: (entry type, publication, form, verdict or defect).",
		Level: "exploration",
		Require: map[string]int64{"verdict.clean": 2000, "verdict.revoked": 2000, "verdict.suspended": 2000, "defect.entry": 800, "defect.list": 600,
			"defect.lookup": 500, "history.steps": 1500, "multi.set-behind-clean": 300, "via.http": 1000, "via.did": 500, "via.stub": 1000, "fetch.checked": 1000, "validator": 300},
		Assumptions: []string{
			"index i is bit i%8 of byte i/8 counted from the least significant bit, the order the repository's own encoder uses",
			"entries have one bit (statusSize absent or 1); only the purposes revocation and suspension have verdicts",
			"the list credential's own proof is not checked by the resolver (stated in the code)",
		},
		Run: run,
	})
}

// ---- publishing ----

// site serves status list credentials and fails on demand; it is the http.RoundTripper and the DID registry.
type site struct {
	lists  map[string][]byte // by URL
	hub    map[string][]byte // by object id
	fault  string
	log    []string
	bad    []string // wrong requests
	bare   bool     // no token expected
	direct bool
	point  interface{} // the endpoint of the hub as the DID document says it
}

type errReader struct{ r io.Reader }

func (e *errReader) Read(p []byte) (int, error) {
	n, err := e.r.Read(p)
	if err == io.EOF {
		return n, io.ErrUnexpectedEOF
	}

	return n, err
}

func (s *site) RoundTrip(q *http.Request) (*http.Response, error) {
	u := q.URL.String()
	s.log = append(s.log, q.Method+" "+u)

	auth := q.Header.Get("Authorization")
	if s.bare && auth != "" || !s.bare && auth != "Bearer "+token {
		s.bad = append(s.bad, "authorization "+strconv.Quote(auth))
	}

	resp := func(code int, b []byte) *http.Response {
		return &http.Response{StatusCode: code, Header: http.Header{}, Body: io.NopCloser(bytes.NewReader(b)), Request: q}
	}

	if u == hubHTTP {
		return s.serveHub(q, resp)
	}

	if q.Method != http.MethodGet {
		s.bad = append(s.bad, "method "+q.Method)
	}

	b, ok := s.lists[u]
	if !ok {
		return resp(404, []byte("not found")), nil
	}

	switch s.fault {
	case "transport":
		return nil, errors.New("connection reset")
	case "truncated-body":
		r := resp(200, nil)
		r.Body = io.NopCloser(&errReader{bytes.NewReader(b[:len(b)/2])})

		return r, nil
	case "read-error-at-end":
		r := resp(200, nil)
		r.Body = io.NopCloser(&errReader{bytes.NewReader(b)})

		return r, nil
	case "short-body":
		return resp(200, b[:len(b)/2]), nil
	case "empty-body":
		return resp(200, nil), nil
	case "html":
		return resp(200, []byte("<html>ok</html>")), nil
	case "null":
		return resp(200, []byte("null")), nil
	case "array":
		return resp(200, []byte("["+string(b)+"]")), nil
	}

	if code, err := strconv.Atoi(s.fault); err == nil {
		return resp(code, b), nil
	}

	return resp(200, b), nil
}

func (s *site) serveHub(q *http.Request, resp func(int, []byte) *http.Response) (*http.Response, error) {
	var req struct {
		RequestID string `json:"requestId"`
		Target    string `json:"target"`
		Messages  []struct {
			Descriptor M `json:"descriptor"`
		} `json:"messages"`
	}

	body, _ := io.ReadAll(q.Body)
	if err := json.Unmarshal(body, &req); err != nil || q.Method != http.MethodPost || req.Target != hubDID || len(req.Messages) == 0 {
		s.bad = append(s.bad, "hub request "+string(body))
		return resp(400, nil), nil
	}

	id, _ := req.Messages[0].Descriptor["objectId"].(string)
	b := s.hub[id]
	data := base64.StdEncoding.EncodeToString(b)
	other := M{"descriptor": M{"objectId": "other-object"}, "data": base64.StdEncoding.EncodeToString(s.hub["decoy"])}
	entry := M{"descriptor": M{"method": "CollectionsWrite", "objectId": id}, "data": data}
	ents := []interface{}{other, entry}

	if len(id) > 2 { // entries of objects with similar ids, or with none
		for i, o := range []interface{}{id[:len(id)-1], id + "0", "", "x" + id, nil, 5, []interface{}{id}} {
			if i%3 == len(body)%3 {
				d := M{"descriptor": M{"method": "CollectionsWrite", "objectId": o}, "data": other["data"]}
				if o == nil {
					delete(d["descriptor"].(M), "objectId")
				}

				ents = append([]interface{}{d}, ents...)
			}
		}
	}

	reply := M{"messageId": "m", "status": M{"code": 200, "message": "ok"}, "entries": ents}
	out := M{"requestId": req.RequestID, "status": M{"code": 200, "message": "ok"}, "replies": []interface{}{reply}}

	switch s.fault {
	case "transport":
		return nil, errors.New("connection reset")
	case "hub-status":
		out["status"] = M{"code": 500, "message": "no"}
	case "reply-status":
		reply["status"] = M{"code": 404, "message": "no"}
	case "second-reply-status":
		out["replies"] = []interface{}{reply, M{"messageId": "n", "status": M{"code": 500}}}
	case "other-object":
		reply["entries"] = []interface{}{other}
	case "no-entries":
		reply["entries"] = nil
	case "no-replies":
		out["replies"] = nil
	case "bad-data":
		entry["data"] = "%%" + data
	case "hub-html":
		return resp(200, []byte("<html>")), nil
	case "500", "404", "403":
		code, _ := strconv.Atoi(s.fault)
		return resp(code, vh.J(out)), nil
	}

	return resp(200, vh.J(out)), nil
}

func (s *site) Resolve(id string, _ ...vdrapi.DIDMethodOption) (*did.DocResolution, error) {
	s.log = append(s.log, "DID "+id)

	if id != hubDID || s.fault == "did-unknown" {
		return nil, errors.New("DID not found")
	}

	services := []M{{"id": "x", "type": "Other", "serviceEndpoint": "https://elsewhere.example/x"}}

	switch s.fault {
	case "no-service":
	case "map-endpoint":
		services = append(services, M{"id": "hub", "type": "IdentityHub", "serviceEndpoint": M{"instances": []string{hubHTTP}}})
	default:
		services = append(services, M{"id": "hub", "type": "IdentityHub", "serviceEndpoint": s.point})
	}

	doc, err := did.ParseDocument(vh.J(M{"@context": []string{"https://www.w3.org/ns/did/v1"}, "id": hubDID, "service": services}))
	if err != nil {
		if s.fault == "endpoint" {
			cc.Count("endpoint.refused-by-did-go", 1)
			return nil, err
		}

		panic("vh-fixture: DID document: " + err.Error())
	}

	if s.direct { // a resolver may as well hand out documents it has put together itself
		ep := &doc.Service[len(doc.Service)-1].ServiceEndpoint
		if err := json.Unmarshal(vh.J(s.point), ep); err != nil {
			*ep = endpoint.NewDIDCoreEndpoint(s.point)
		}
	}

	return &did.DocResolution{DIDDocument: doc}, nil
}

func (s *site) Create(string, *did.Doc, ...vdrapi.DIDMethodOption) (*did.DocResolution, error) {
	return nil, errors.New("read only")
}
func (s *site) Update(*did.Doc, ...vdrapi.DIDMethodOption) error   { return errors.New("read only") }
func (s *site) Deactivate(string, ...vdrapi.DIDMethodOption) error { return errors.New("read only") }
func (s *site) Close() error                                       { return nil }

// stub resolves status lists without a network.
type stub struct{ s *site }

func (t stub) Resolve(u string) (*verifiable.Credential, error) {
	t.s.log = append(t.s.log, "STUB "+u)

	if t.s.fault != "" {
		return nil, errors.New("stub: " + t.s.fault)
	}

	b, ok := t.s.lists[u]
	if !ok {
		return nil, errors.New("stub: unknown " + u)
	}

	return verifiable.ParseCredential(b, verifiable.WithDisabledProofCheck(), verifiable.WithCredDisableValidation())
}

func gz(r *rand.Rand, b []byte) []byte {
	var buf bytes.Buffer

	level := vh.Pick(r, gzip.DefaultCompression, gzip.BestCompression, gzip.BestSpeed, gzip.NoCompression)

	parts := [][]byte{b}
	if len(b) > 3 && r.Intn(6) == 0 { // RFC 1952 allows several members
		k := 1 + r.Intn(len(b)-1)
		parts = [][]byte{b[:k], b[k:]}
	}

	for _, p := range parts {
		zw, _ := gzip.NewWriterLevel(&buf, level)
		_, _ = zw.Write(p)
		_ = zw.Close()
	}

	return buf.Bytes()
}

// gzOne gives a single gzip member.
func gzOne(b []byte) []byte {
	var buf bytes.Buffer

	zw := gzip.NewWriter(&buf)
	_, _ = zw.Write(b)
	_ = zw.Close()

	return buf.Bytes()
}

func encode(r *rand.Rand, typ string, z []byte) string {
	if typ == sl2021 {
		return base64.RawURLEncoding.EncodeToString(z)
	}

	encs := []multibase.Encoding{multibase.Base64url, multibase.Base64url, multibase.Base64url, multibase.Base16, multibase.Base64, multibase.Base32}
	if len(z) < 300 {
		encs = append(encs, multibase.Base58BTC)
	}

	s, err := multibase.Encode(encs[r.Intn(len(encs))], z)
	if err != nil {
		panic("vh-fixture multibase")
	}

	return s
}

func bits(r *rand.Rand) []byte {
	n := vh.Pick(r, 1, 2, 3, 5, 8, 16, 33, 100, 257)
	if r.Intn(40) == 0 {
		n = 16384 + vh.Pick(r, 0, 0, 1, r.Intn(4000)) // 16 KB is the usual size
	}

	b := make([]byte, n)

	switch r.Intn(4) {
	case 0:
		r.Read(b)
	case 1: // one bit
		b[r.Intn(n)] = 1 << r.Intn(8)
	case 2: // all but one
		for i := range b {
			b[i] = 255
		}

		b[r.Intn(n)] ^= 1 << r.Intn(8)
	default:
		for i := 0; i < 1+n/3; i++ {
			b[r.Intn(n)] |= 1 << r.Intn(8)
		}
	}

	return b
}

func get(b []byte, i int) bool { return b[i>>3]>>(uint(i)&7)&1 == 1 }

func find(r *rand.Rand, b []byte, want bool) (int, bool) {
	n := len(b) * 8
	for k, s := 0, r.Intn(n); k < n; k++ {
		if i := (s + k) % n; get(b, i) == want {
			return i, true
		}
	}

	return 0, false
}

// listDoc is the status list credential of a list.
func listDoc(r *rand.Rand, typ, enc, u string) M {
	d := M{"@context": []interface{}{vh.CtxV2}, "id": "https://issuer.example/status-vc/" + vh.SafeStr(r)}

	if r.Intn(2) == 0 {
		d["@context"] = []interface{}{vh.CtxV1, "https://w3id.org/vc/status-list/2021/v1"}
		d["issuanceDate"] = "2021-04-05T14:27:40Z"
	}

	vcType, subType := "StatusList2021Credential", "StatusList2021"
	if typ == bitstr {
		vcType, subType = "BitstringStatusListCredential", "BitstringStatusList"
	}

	d["type"] = []interface{}{"VerifiableCredential", vcType}
	d["issuer"] = vh.Pick[interface{}](r, issuer, M{"id": issuer, "name": "Issuer"})

	sub := M{"id": u + "#list", "type": subType, "encodedList": enc}
	d["credentialSubject"] = vh.Pick[interface{}](r, sub, []interface{}{sub})

	return d
}

// publish serialises a list credential.
func publish(r *rand.Rand, d M) ([]byte, string) {
	form := vh.Pick(r, "json", "json", "jwt", "sdjwt")
	if _, ok := d["credentialSubject"].(M); !ok || d["credentialSubject"].(M)["id"] == nil {
		form = "json"
	}

	if _, ok := d["issuer"].(string); !ok && form != "json" {
		form = "jwt"
	}

	k := w.Ents["issuer"].Keys["EdDSA"]

	switch form {
	case "jwt":
		return []byte(vh.JWS(M{"alg": "EdDSA", "kid": k.ID}, vh.J(M{"iss": issuer, "vc": d}), k)), form
	case "sdjwt":
		c := vh.CloneM(d)
		c["_sd_alg"] = "sha-256"

		return []byte(vh.JWS(M{"alg": "EdDSA", "kid": k.ID, "typ": "vc+sd-jwt"}, vh.J(M{"iss": issuer, "vc": c}), k) + "~"), form
	default:
		return vh.Shuffled(r, d), form
	}
}

// ---- credentials ----

type ent struct {
	typ, purpose, u string
	idx             int
	b               []byte
	via             string
}

func (e ent) set() bool { return get(e.b, e.idx) }

// place publishes a list and gives an entry for it.
func place(r *rand.Rand, s *site, via string, b []byte, idx int) ent {
	e := ent{typ: vh.Pick(r, sl2021, bitstr), purpose: vh.Pick(r, "revocation", "suspension"), idx: idx, b: b, via: via}
	id := fmt.Sprintf("%d-%s", len(s.lists)+len(s.hub), vh.SafeStr(r))
	e.u = target(r, via, id)
	e.serve(r, s)

	return e
}

func target(r *rand.Rand, via, id string) string {
	if via == "did" {
		q := []interface{}{M{"method": "CollectionsQuery", "schema": "https://w3id.org/vc-status-list-2021/v1", "objectId": "obj-" + id}}

		switch r.Intn(3) { // queries of other methods and without an object come first
		case 0:
			q = append([]interface{}{M{"method": "Other", "objectId": "decoy"}}, q...)
		case 1:
			q = append([]interface{}{M{"method": "CollectionsQuery"}}, q...)
		}

		return hubDID + "?service=IdentityHub&queries=" + url.QueryEscape(base64.StdEncoding.EncodeToString(vh.J(q)))
	}

	if r.Intn(3) == 0 { // lists that differ in their query only
		return "https://status.example/lists?list=" + url.QueryEscape(id)
	}

	return "https://status.example/lists/" + url.PathEscape(id)
}

func objectID(u string) string {
	v, _ := url.ParseQuery(strings.SplitN(u, "?", 2)[1])
	b, _ := base64.StdEncoding.DecodeString(v.Get("queries"))

	var qs []M

	_ = json.Unmarshal(b, &qs)

	for _, q := range qs {
		if o, ok := q["objectId"].(string); ok && q["method"] == "CollectionsQuery" {
			return o
		}
	}

	panic("vh-fixture queries")
}

func (e *ent) serve(r *rand.Rand, s *site) string {
	b, form := publish(r, listDoc(r, e.typ, encode(r, e.typ, gz(r, e.b)), e.u))
	e.put(s, b)

	return form
}

func (e *ent) put(s *site, b []byte) {
	if e.via == "did" {
		s.hub[objectID(e.u)] = b
	} else {
		s.lists[e.u] = b
	}
}

func (e ent) doc(r *rand.Rand) M {
	d := M{"id": e.u + "#" + strconv.Itoa(e.idx), "type": e.typ, "statusPurpose": e.purpose,
		"statusListIndex": strconv.Itoa(e.idx), "statusListCredential": e.u}

	switch r.Intn(6) { // the id of an entry says nothing
	case 0:
		d["id"] = e.u
	case 1:
		d["id"] = "urn:status:1"
	case 2:
		delete(d, "id")
	}

	if e.typ == bitstr && r.Intn(4) == 0 {
		d["statusSize"] = 1
	}

	return d
}

// credential makes a credential with the given entries; ok=false if its form cannot carry them.
func credential(r *rand.Rand, iss interface{}, st []interface{}) (*verifiable.Credential, string) {
	form := vh.Pick(r, "v2", "v2", "v1", "jwt", "prog")
	ctx := vh.CtxV2

	if form == "v1" {
		ctx = vh.CtxV1
	}

	d := M{"@context": []interface{}{ctx, vh.CtxVerif}, "type": []interface{}{"VerifiableCredential"}, "id": "urn:uuid:1",
		"credentialSubject": M{"id": "did:verif:subject"}}
	if iss != nil {
		d["issuer"] = iss
	}

	d["credentialStatus"] = st
	if len(st) == 1 && r.Intn(2) == 0 {
		d["credentialStatus"] = st[0]
	}

	b := vh.Shuffled(r, d)

	if form == "jwt" {
		k := w.Ents["issuer"].Keys["EdDSA"]
		b = []byte(vh.JWS(M{"alg": "EdDSA", "kid": k.ID}, vh.J(M{"vc": d}), k))
	}

	vc, err := verifiable.ParseCredential(b, verifiable.WithDisabledProofCheck(), verifiable.WithCredDisableValidation())
	if err != nil {
		panic(fmt.Sprintf("vh-fixture credential: %v: %s", err, b))
	}

	if form == "prog" {
		vc, err = verifiable.CreateCredential(vc.Contents(), nil)
		if err != nil {
			panic(fmt.Sprintf("vh-fixture create: %v", err))
		}
	}

	return vc, form
}

func newSite(r *rand.Rand) *site {
	s := &site{lists: map[string][]byte{}, hub: map[string][]byte{}, bare: r.Intn(3) == 0,
		point: vh.Pick[interface{}](r, hubHTTP, hubHTTP, []M{{"uri": hubHTTP}}, []M{{"uri": hubHTTP, "accept": []string{"didcomm/v2"}}, {"uri": "https://second.example"}},
			M{"instances": []string{hubHTTP}}, M{"origins": []string{hubHTTP}}, M{"origins": []string{hubHTTP, "https://second.example"}})}
	decoy, _ := publish(r, listDoc(r, sl2021, encode(r, sl2021, gz(r, bytes.Repeat([]byte{170}, 64))), "https://status.example/decoy"))
	s.hub["decoy"] = decoy

	return s
}

func client(s *site, via string) *status.Client {
	var res api.StatusListVCURIResolver = stub{s}

	if via != "stub" {
		t := token
		if s.bare {
			t = ""
		}

		res = resolver.NewResolver(&http.Client{Transport: s}, s, t)
	}

	return &status.Client{ValidatorGetter: validator.GetValidator, Resolver: res}
}

func verify(cl *status.Client, vc *verifiable.Credential) (v string, err error, panicked bool) {
	p, site, val := vh.Guard(func() { err = cl.VerifyStatus(vc) })

	switch {
	case p:
		return "panic", fmt.Errorf("panic at %s: %v", site, val), true
	case err == nil:
		return "clean", nil, false
	case errors.Is(err, status.ErrRevoked):
		v = "revoked"
	case errors.Is(err, status.ErrSuspended):
		v = "suspended"
	default:
		return "error", err, false
	}

	if err.Error() != v { // the error string is the verdict
		v += "?" + err.Error()
	}

	return v, err, false
}

// expected gives the verdicts that are right for the entries.
func expected(es []ent) map[string]bool {
	out := map[string]bool{}

	for _, e := range es {
		if e.set() {
			out[map[string]string{"revocation": "revoked", "suspension": "suspended"}[e.purpose]] = true
		}
	}

	if len(out) == 0 {
		out["clean"] = true
	}

	return out
}

func judge(c *vh.Check, family, sub, v string, err error, want map[string]bool, detail interface{}) {
	if !want[v] {
		c.Violate(family+"/"+v, fmt.Sprintf("%s: verdict %s (%v), want %v", sub, v, err, vh.SortedKeys(want)), detail)
	}
}

func entries(r *rand.Rand, es []ent) []interface{} {
	var st []interface{}
	for _, e := range es {
		st = append(st, e.doc(r))
	}

	return st
}

func run(c *vh.Check) {
	cc = c
	w = vh.NewWorld("issuer", "holder")

	// every index of small lists, a sample of large ones
	c.Cases("bits", c.N(600, 8000), func(r *rand.Rand, _ int) {
		s, via := newSite(r), vh.Pick(r, "http", "did", "stub")
		b := bits(r)
		e := place(r, s, via, b, 0)
		cl := client(s, via)
		n := len(b) * 8

		idxs := r.Perm(n)
		if len(idxs) > 48 {
			idxs = append(idxs[:44], 0, n-1, 7, 8)
		}

		for _, i := range idxs {
			e.idx = i
			s.log, s.bad = nil, nil
			vc, form := credential(r, issuer, entries(r, []ent{e}))
			v, err, _ := verify(cl, vc)
			want := expected([]ent{e})
			judge(c, "bits", fmt.Sprintf("%s via %s index %d of %d bits, bit %v, purpose %s", e.typ, via, i, n, e.set(), e.purpose), v, err, want, M{"bits": base64.StdEncoding.EncodeToString(head(b)), "form": form})
			c.Count("verdict."+v, 1)
			c.Count("via."+via, 1)
			c.Eval(e.typ + via + form + v + e.purpose)
			fetched(c, s, []ent{e}, via)
		}
	})

	// just behind the end of lists of any size, the usual one included
	c.Cases("end", c.N(150, 2000), func(r *rand.Rand, i int) {
		s, via := newSite(r), vh.Pick(r, "http", "did", "stub")
		b := make([]byte, vh.Pick(r, 1, 2, 16, 1024, 2048, 8192, 16384, 16384, 16384, 32768, 65536))
		e := place(r, s, via, b, 0)
		cl := client(s, via)

		for _, idx := range []int{len(b) * 8, len(b)*8 + 1, len(b)*8 + 8, len(b)*8 - 1} {
			d := e.doc(r)
			d["statusListIndex"] = strconv.Itoa(idx)
			vc, _ := credential(r, issuer, []interface{}{d})
			v, err, _ := verify(cl, vc)
			want := map[string]bool{"error": idx >= len(b)*8, "clean": idx < len(b)*8}
			c.Expect(want[v], "end/"+v, fmt.Sprintf("index %d of a list of %d bits: verdict %s (%v)", idx, len(b)*8, v, err), nil)
			c.Eval(fmt.Sprint("end", e.typ, via, len(b), v))
			c.Count("end", 1)
		}
	})

	// a validator takes entries of its own type only, and only complete ones
	c.Cases("validator", c.N(400, 4000), func(r *rand.Rand, i int) {
		own := vh.Pick(r, sl2021, bitstr)

		v, err := validator.GetValidator(own)
		if !c.Expect(err == nil, "validator/unknown", fmt.Sprint(err), own) {
			return
		}

		e := &verifiable.TypedID{ID: "https://status.example/1#7", Type: own, CustomFields: M{"statusListCredential": "https://status.example/1",
			"statusListIndex": strconv.Itoa(r.Intn(1000)), "statusPurpose": vh.Pick(r, "revocation", "suspension")}}
		name := "good"

		switch i % 5 {
		case 1:
			name = "type"
			e.Type = vh.Pick(r, map[string]string{sl2021: bitstr, bitstr: sl2021}[own], "", own+"x", strings.ToLower(own), "RevocationList2020Status")
		case 2:
			name = "missing"
			delete(e.CustomFields, vh.Pick(r, "statusListCredential", "statusListIndex", "statusPurpose"))
		case 3:
			name = "nil"
			e = nil
		case 4:
			name = "null"
			e.CustomFields[vh.Pick(r, "statusListCredential", "statusListIndex", "statusPurpose")] = nil
		}

		err = v.ValidateStatus(e)
		c.Expect((err == nil) == (name == "good"), "validator/"+name, fmt.Sprintf("%s entry with defect %s: %v", own, name, err), e)
		c.Eval("validator|" + own + "|" + name)
		c.Count("validator", 1)
	})

	// several entries
	c.Cases("multi", c.N(4000, 60000), func(r *rand.Rand, _ int) {
		s, via := newSite(r), vh.Pick(r, "http", "did", "stub")

		var es []ent

		pSet := vh.Pick(r, 0, 1, 1, 2)

		for i, n := 0, 2+r.Intn(3); i < n; i++ {
			var e ent

			b := bits(r)
			if i > 0 && r.Intn(2) == 0 { // another index, purpose or type in the same list
				e = es[r.Intn(i)]
				b = e.b
				e.purpose = vh.Pick(r, "revocation", "suspension")
			} else {
				e = place(r, s, via, b, 0)
			}

			want := r.Intn(4) < pSet
			if r.Intn(2) == 0 && pSet == 1 {
				want = i == n-1
			}

			idx, ok := find(r, b, want)
			if !ok {
				idx = 0
			}

			e.idx = idx
			es = append(es, e)
		}

		vc, form := credential(r, vh.Pick[interface{}](r, issuer, M{"id": issuer, "name": "I"}), entries(r, es))
		v, err, _ := verify(client(s, via), vc)
		want := expected(es)
		judge(c, "multi", fmt.Sprintf("%d entries via %s", len(es), via), v, err, want, M{"entries": entries(r, es), "form": form})

		if es[len(es)-1].set() && !want["clean"] && !es[0].set() {
			c.Count("multi.set-behind-clean", 1)
		}

		c.Count("verdict."+v, 1)
		c.Eval(fmt.Sprint("multi", len(es), via, form, v))
		fetched(c, s, es, via)
	})

	c.Cases("history", c.N(250, 3000), history)
	c.Cases("entry", c.N(1500, 15000), badEntry)
	c.Cases("list", c.N(1200, 12000), badList)
	c.Cases("lookup", c.N(1000, 10000), badLookup)
}

var cc *vh.Check

func head(b []byte) []byte {
	if len(b) > 64 {
		return b[:64]
	}

	return b
}

// fetched compares the requests with the references: each list that had to be read was read, and nothing else.
func fetched(c *vh.Check, s *site, es []ent, via string) {
	ok := map[string]bool{}

	for _, e := range es {
		switch via {
		case "http":
			ok["GET "+e.u] = true
		case "stub":
			ok["STUB "+e.u] = true
		default:
			ok["DID "+hubDID], ok["POST "+hubHTTP] = true, true
		}
	}

	for _, l := range s.log {
		c.Expect(ok[l], "fetch/unreferenced", "request "+l+" has no entry", s.log)
	}

	c.Expect(len(s.bad) == 0, "fetch/bad-request", "request not as configured", s.bad)
	c.Count("fetch.checked", 1)
}

// history: the same client and credentials while bits change and the publisher fails and recovers.
func history(r *rand.Rand, _ int) { historyC(cc, r) }

func historyC(c *vh.Check, r *rand.Rand) {
	s, via := newSite(r), vh.Pick(r, "http", "did", "stub")
	cl := client(s, via)

	var es [3]ent

	var vcs [3]*verifiable.Credential

	for i := range es {
		b := bits(r)
		if i == 1 && r.Intn(2) == 0 {
			es[i] = es[0]
			es[i].idx = r.Intn(len(es[0].b) * 8)
		} else {
			es[i] = place(r, s, via, b, r.Intn(len(b)*8))
		}

		vcs[i], _ = credential(r, issuer, entries(r, []ent{es[i]}))
	}

	for n := 8 + r.Intn(10); n > 0; n-- {
		i := r.Intn(3)

		switch r.Intn(4) {
		case 0: // issuer changes one bit and republishes
			es[i].b[es[i].idx>>3] ^= 1 << (uint(es[i].idx) & 7)
			es[i].serve(r, s)
		case 1: // outage
			s.fault = vh.Pick(r, "transport", "500")
			v, err, _ := verify(cl, vcs[i])
			judge(c, "history", "during outage via "+via, v, err, map[string]bool{"error": true}, s.log)
			c.Count("history.outage", 1)

			s.fault = ""
		}

		j := r.Intn(3)
		v, err, _ := verify(cl, vcs[j])
		judge(c, "history", "after updates via "+via, v, err, expected([]ent{es[j]}), s.log)
		c.Count("history.steps", 1)
		c.Count("verdict."+v, 1)
		c.Eval("history" + via + v)
	}
}

// badEntry: one entry has one defect; the others are clean.
func badEntry(r *rand.Rand, _ int) {
	c := cc
	s, via := newSite(r), vh.Pick(r, "http", "did", "stub")
	n := 1 + r.Intn(3)

	var es []ent

	for i := 0; i < n; i++ {
		b := bits(r)
		idx, ok := find(r, b, false)
		if !ok {
			return
		}

		es = append(es, place(r, s, via, b, idx))
	}

	st := entries(r, es)
	k := r.Intn(n)
	e, d := es[k], st[k].(M)
	max := len(e.b) * 8
	what := vh.Pick(r, "index-range", "index-range", "index-value", "index-missing", "url-missing", "url-value", "purpose-missing", "purpose-value", "type", "size",
		"no-status", "entry-kind", "purpose-unknown-set")

	var iss interface{} = issuer

	if what == "size" && e.typ != bitstr {
		what = "type"
	}

	switch what {
	case "index-range":
		d["statusListIndex"] = vh.Pick(r, strconv.Itoa(max), strconv.Itoa(max+1), strconv.Itoa(max+7), strconv.Itoa(max*8), "-1", "-7", "-8", "-9", strconv.Itoa(-max),
			"2147483648", "4294967296", "9223372036854775807", "-9223372036854775808", "9223372036854775808", "18446744073709551616", strconv.Itoa(1<<35+e.idx))
	case "index-value":
		d["statusListIndex"] = vh.Pick[interface{}](r, "", "x", "1.5", "1e0", "0x1", " 1", "1 ", "1_0", "١", 1.5, true, []interface{}{"1"}, M{"v": "1"}, []interface{}{}, "--1", "1,2")
	case "index-missing":
		drop(r, d, "statusListIndex")
	case "url-missing":
		drop(r, d, "statusListCredential")
	case "url-value":
		d["statusListCredential"] = vh.Pick[interface{}](r, "", 5.0, []interface{}{e.u}, M{"id": e.u}, e.u+"x", "not a url", "did:hub:zzz?queries=W10=", "did:", "%zz")
	case "purpose-missing":
		drop(r, d, "statusPurpose")
	case "purpose-value":
		d["statusPurpose"] = vh.Pick[interface{}](r, 5.0, []interface{}{"revocation"}, M{"v": "revocation"}, true)
	case "purpose-unknown-set": // the bit is set, but there is no verdict for the purpose
		idx, ok := find(r, e.b, true)
		if !ok {
			return
		}

		d["statusListIndex"] = strconv.Itoa(idx)
		d["statusPurpose"] = vh.Pick(r, "message", "refresh", "", "Revocation", "revocation ", "revoked")
	case "type":
		d["type"] = vh.Pick[interface{}](r, "Other", "RevocationList2020Status", "", strings.ToLower(e.typ), "StatusList2021", "BitstringStatusList", e.typ+" ")
	case "size":
		d["statusSize"] = vh.Pick[interface{}](r, 0.0, -1.0, "1", "x", 1.5, []interface{}{1.0}, true, 2.0, 3.0, 1e300)
		if r.Intn(3) == 0 {
			d["statusSize"], d["statusMessage"] = 2.0, vh.Pick[interface{}](r, "x", []interface{}{}, []interface{}{1.0, 2.0}, []interface{}{1.0, 2.0, 3.0, 4.0})
		}
	case "no-status":
		st = nil
	case "entry-kind":
		st[k] = vh.Pick[interface{}](r, M{}, M{"id": "x"}, M{"type": e.typ})
	}

	var vc *verifiable.Credential

	bad := false
	p, _, _ := vh.Guard(func() { vc, _ = credential(r, iss, st) })
	if p { // such a credential cannot be parsed at all
		bad = true
	}

	if st == nil && !bad {
		cont := vc.Contents()
		cont.Status = nil
		vc, _ = verifiable.CreateCredential(cont, nil)
	}

	if bad {
		c.Count("entry.unparsable", 1)
		return
	}

	v, err, _ := verify(client(s, via), vc)
	if what == "no-status" || what == "entry-kind" {
		e.typ = ""
	}

	judge(c, "entry/"+what, fmt.Sprintf("%s: entry %d of %d: %s", e.typ, k, n, vh.J(d)), v, err, map[string]bool{"error": true}, st)
	c.Count("defect.entry", 1)
	c.Count("defect.entry."+what, 1)
	c.Eval("entry" + what + e.typ + via)
}

func drop(r *rand.Rand, d M, k string) {
	if r.Intn(2) == 0 {
		delete(d, k)
	} else {
		d[k] = nil
	}
}

// badList: the status list credential has one defect; the bit at the index is often set, so that only an error that is
// no verdict is right.
func badList(r *rand.Rand, _ int) {
	c := cc
	s, via := newSite(r), vh.Pick(r, "http", "did", "stub")
	b := bits(r)
	idx, ok := find(r, b, r.Intn(2) == 0)

	if !ok {
		idx = 0
	}

	e := place(r, s, via, b, idx)
	z := gz(r, b)
	enc := encode(r, e.typ, z)
	d := listDoc(r, e.typ, enc, e.u)
	sub := vh.AsList(d["credentialSubject"])[0].(M)
	what := vh.Pick(r, "issuer", "issuer", "issuer-none", "own-issuer-none", "own-issuer", "no-subject", "subject-kind", "list-missing", "list-kind", "not-encoded", "not-gzip",
		"truncated", "corrupt", "wrong-base", "empty-list")

	var iss interface{} = issuer

	switch what {
	case "issuer":
		d["issuer"] = otherIssuer(r)
	case "own-issuer":
		iss = otherIssuer(r)
	case "issuer-none":
		delete(d, "issuer")
	case "own-issuer-none":
		iss = nil
	case "no-subject":
		d["credentialSubject"] = []interface{}{}
		if r.Intn(2) == 0 {
			delete(d, "credentialSubject")
		}
	case "subject-kind":
		d["credentialSubject"] = vh.Pick[interface{}](r, "did:x:1", []interface{}{M{}}, M{"id": "x"}, nil, []interface{}{M{"id": "x"}, sub})
	case "list-missing":
		drop(r, sub, "encodedList")
	case "list-kind":
		sub["encodedList"] = vh.Pick[interface{}](r, 5.0, true, []interface{}{enc}, M{"v": enc}, nil)
	case "not-encoded":
		sub["encodedList"] = vh.Pick(r, "", "!!!", enc+"!", enc[:len(enc)/2]+" "+enc[len(enc)/2:], "{}")
	case "not-gzip":
		sub["encodedList"] = encode(r, e.typ, vh.Pick(r, b, []byte{}, z[1:], append([]byte{0}, z...), z[:9]))
	case "truncated":
		z = gzOne(b)
		sub["encodedList"] = encode(r, e.typ, z[:len(z)-1-r.Intn(len(z)-10)])
	case "corrupt": // checksum of the (single member) stream
		k := len(z) - 8 + r.Intn(8)
		z2 := append([]byte{}, z...)
		z2[k] ^= 1 << r.Intn(8)
		sub["encodedList"] = encode(r, e.typ, z2)
	case "wrong-base":
		if e.typ == sl2021 {
			sub["encodedList"] = vh.Pick(r, "u", "m", "z") + base64.RawURLEncoding.EncodeToString(z)
		} else {
			sub["encodedList"] = base64.RawURLEncoding.EncodeToString(z) // begins with H, which is no multibase prefix
		}
	case "empty-list":
		sub["encodedList"] = encode(r, e.typ, gz(r, nil))
	}

	pb, form := publish(r, d)
	if form != "json" && (what == "issuer" || what == "issuer-none") {
		pb = vh.J(d)
	}

	e.put(s, pb)
	vc, _ := credential(r, iss, entries(r, []ent{e}))
	v, err, _ := verify(client(s, via), vc)
	judge(c, "list/"+what, fmt.Sprintf("%s via %s, list credential %.400s", e.typ, via, vh.J(d)), v, err, map[string]bool{"error": true}, d)
	c.Count("defect.list", 1)
	c.Count("defect.list."+what, 1)
	c.Eval("list" + what + e.typ + via + form)
}

func otherIssuer(r *rand.Rand) interface{} {
	o := vh.Pick(r, "did:verif:other", issuer+"x", issuer[:len(issuer)-1], strings.ToUpper(issuer), issuer+"#key", issuer+" ", "https://issuer.example", "did:verif:issuer:sub")

	return vh.Pick[interface{}](r, o, M{"id": o}, M{"id": o, "name": issuer})
}

// badLookup: finding the list fails.
func badLookup(r *rand.Rand, _ int) {
	c := cc
	s, via := newSite(r), vh.Pick(r, "http", "http", "did", "did", "stub")
	b := bits(r)
	idx, _ := find(r, b, r.Intn(2) == 0)
	e := place(r, s, via, b, idx)

	// a second, working and clean entry before or behind
	es := []ent{e}

	if r.Intn(2) == 0 && via != "did" && via != "http" {
		es = append(es, e)
	}

	switch via {
	case "http":
		s.fault = vh.Pick(r, "transport", "truncated-body", "read-error-at-end", "short-body", "empty-body", "html", "null", "array", "404", "500", "403", "401", "503", "201", "204",
			"206", "300", "400", "299", "199")
	case "did":
		s.fault = vh.Pick(r, "transport", "hub-status", "reply-status", "second-reply-status", "other-object", "no-entries", "no-replies", "bad-data", "hub-html", "500", "404", "403",
			"did-unknown", "no-service", "queries")
	default:
		s.fault = "down"
	}

	if s.fault == "queries" {
		es[0].u = vh.Pick(r, hubDID, hubDID+"?x=1", hubDID+"?queries=", hubDID+"?queries=%25%25", hubDID+"?queries="+url.QueryEscape(base64.StdEncoding.EncodeToString([]byte("{}"))),
			hubDID+"?queries="+url.QueryEscape(base64.StdEncoding.EncodeToString([]byte("null"))),
			hubDID+"?queries="+url.QueryEscape(base64.StdEncoding.EncodeToString([]byte(`[{"method":"Other","objectId":"decoy"}]`))),
			hubDID+"?queries="+url.QueryEscape(base64.StdEncoding.EncodeToString([]byte(`[{"method":"CollectionsQuery"}]`))),
			hubDID+"?queries="+url.QueryEscape(base64.StdEncoding.EncodeToString([]byte(`[{"method":"CollectionsQuery","objectId":5}]`))),
			hubDID+"?queries="+url.QueryEscape(base64.StdEncoding.EncodeToString([]byte(`[null]`))), hubDID+"?%zz")
	}

	vc, _ := credential(r, issuer, entries(r, es))
	v, err, _ := verify(client(s, via), vc)
	judge(c, "lookup/"+via+"/"+s.fault, "failing lookup "+s.fault, v, err, map[string]bool{"error": true}, s.log)
	c.Count("defect.lookup", 1)
	c.Eval("lookup" + via + s.fault + e.typ)

	if via == "did" && r.Intn(2) == 0 { // endpoints that are none
		s.fault, s.direct = "endpoint", r.Intn(2) == 0
		none := vh.Pick[interface{}](r, "", "\"", "\"\"", " ", nil, true, 5, []string{}, []M{}, []interface{}{nil}, []interface{}{5}, []M{{}}, []M{{"uri": ""}}, []M{{"uri": nil}}, []M{{"uri": "\""}}, M{}, M{"origins": nil},
			[]interface{}{[]string{}}, "https://", "%zz", "https://hub.example/other", M{"uri": hubHTTP + "/x"})

		s.point = vh.Pick[interface{}](r, none, none, M{"origins": none}, M{"instances": none}, M{"instances": M{"origins": none}}, M{"a": none, "b": none}, []interface{}{none, hubHTTP},
			M{"origins": []interface{}{none}}, M{"instances": []interface{}{none}})
		vc, _ = credential(r, issuer, entries(r, []ent{e}))
		v, err, _ = verify(client(s, via), vc)
		judge(c, "lookup/endpoint", fmt.Sprintf("hub endpoint %s", vh.J(s.point)), v, err, map[string]bool{"error": true}, s.log)
		c.Count("defect.endpoint", 1)
		c.Eval("endpoint" + string(vh.J(s.point)))
		s.direct = false
	}

	// the hub may be given as a map of endpoints as well
	if via == "did" && r.Intn(4) == 0 {
		s.fault = "map-endpoint"
		vc, _ = credential(r, issuer, entries(r, []ent{e}))
		v, err, _ = verify(client(s, via), vc)
		judge(c, "lookup/map-endpoint", "hub with a map of endpoints", v, err, expected([]ent{e}), s.log)
	}
}
