package main

import (
	"crypto"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"math/rand"
	"regexp"
	"sort"
	"strings"
	"time"

	"github.com/trustbloc/vc-go/sdjwt/common"
	"github.com/trustbloc/vc-go/verifharness/vh"
	"github.com/trustbloc/vc-go/verifiable"
)

type M = map[string]interface{}
type L = []interface{}

// ---- credentials ----

type cred struct {
	form   string // plain, proven, jwt, sdjwt, cwt
	tag    string // in a token nobody asks for: tells credentials apart
	doc    M      // the claims as issued
	vc     *verifiable.Credential
	raw    string // the token, of the token forms
	alg    string
	proofs []string
	v      int
	hidden bool // an SD-JWT some of whose objects are disclosed as a whole
}

var tokN int

func tok(r *rand.Rand) string {
	tokN++

	return fmt.Sprintf("tk%05d%04d", tokN, r.Intn(10000))
}

func fields(r *rand.Rand, m M, nested bool) {
	put := func(k string, f func() interface{}) {
		if r.Intn(3) != 0 {
			m[k] = f()
		}
	}

	put("name", func() interface{} { return tok(r) })
	put("rank", func() interface{} { return vh.Pick(r, "gold", "silver", "bronze") })
	put("age", func() interface{} { return float64(r.Intn(100)) })
	put("score", func() interface{} { return float64(r.Intn(1000)) / 8 })
	put("active", func() interface{} { return r.Intn(2) == 0 })
	put("home-town", func() interface{} { return tok(r) })
	put("tags", func() interface{} {
		l := L{}
		for i := 0; i < 1+r.Intn(3); i++ {
			l = append(l, tok(r))
		}

		return l
	})

	if nested {
		put("address", func() interface{} {
			a := M{"street": tok(r), "zip": float64(10000 + r.Intn(9000))}
			if r.Intn(2) == 0 {
				a["geo"] = M{"code": tok(r), "floor": float64(r.Intn(9))}
			}

			return a
		})
		put("degrees", func() interface{} {
			l := L{}
			for i := 0; i < 1+r.Intn(3); i++ {
				d := M{"kind": vh.Pick(r, "ba", "ma", "phd"), "title": tok(r)}
				if r.Intn(2) == 0 {
					d["year"] = float64(1980 + r.Intn(45))
				}

				l = append(l, d)
			}

			return l
		})
	}
}

var ctxTypes = [][2]string{
	{vh.CtxDIDConf, "DomainLinkageCredential"},
	{vh.CtxPE, "PresentationSubmission"},
}

var typeIRI = map[string]string{
	"VerifiableCredential":    "https://www.w3.org/2018/credentials#VerifiableCredential",
	"DomainLinkageCredential": "https://identity.foundation/.well-known/resources/did-configuration/#DomainLinkageCredential",
	"PresentationSubmission":  "https://identity.foundation/presentation-exchange/#presentation-submission",
}

func document(r *rand.Rand, v int, form string, idMode int) (M, string) {
	issuer := w.Ents[vh.Pick(r, "issuer", "other")].DID
	subj := M{"id": "did:test:" + vh.Pick(r, "alice", "bob")}

	switch r.Intn(10) {
	case 0, 1:
		subj["id"] = issuer
	case 2: // almost
		subj["id"] = vh.Pick(r, issuer+"x", issuer+"#key", issuer[:len(issuer)-1], strings.ToUpper(issuer))
	}

	fields(r, subj, true)

	tag := tok(r)
	doc := M{"issuer": issuer, "serial": tag}
	types := L{"VerifiableCredential"}
	ctx := L{vh.CtxV1}
	t := time.Unix(1_600_000_000+int64(r.Intn(100_000_000)), 0).UTC()

	if v == 1 {
		doc["issuanceDate"] = t.Format(time.RFC3339)
		if r.Intn(3) == 0 {
			doc["expirationDate"] = t.AddDate(8, 0, r.Intn(900)).Format(time.RFC3339)
		}
	} else {
		ctx = L{vh.CtxV2}
		doc["validFrom"] = t.Format(time.RFC3339)

		if r.Intn(3) == 0 {
			doc["validUntil"] = t.AddDate(8, 0, r.Intn(900)).Format(time.RFC3339)
		}
	}

	for _, ct := range ctxTypes {
		if r.Intn(3) == 0 {
			types = append(types, ct[1])
			if r.Intn(8) != 0 {
				ctx = append(ctx, ct[0])
			}
		}
	}

	if r.Intn(3) == 0 {
		types = append(types, "Extra"+vh.Pick(r, "A", "B"))
	}

	doc["@context"], doc["type"], doc["credentialSubject"] = ctx, types, subj

	if form != "sdjwt" || r.Intn(2) == 0 {
		top := M{}
		fields(r, top, false)

		for k, x := range top {
			doc["x-"[:2*r.Intn(2)]+k] = x
		}

		delete(doc, "name")
	}

	if (form == "plain" || form == "proven") && r.Intn(8) == 0 {
		s2 := M{"id": "did:test:carol"}
		fields(r, s2, true)
		doc["credentialSubject"] = L{subj, s2}
	}

	if r.Intn(6) == 0 {
		doc["issuer"] = M{"id": issuer, "name": tok(r)}
	}

	if r.Intn(6) == 0 {
		doc["credentialStatus"] = M{"id": "urn:uuid:" + tok(r), "type": "SomeStatus2020", "note": tok(r)}
	}

	if r.Intn(6) == 0 {
		doc["termsOfUse"] = L{M{"id": "urn:uuid:" + tok(r), "type": "SomeTerms2020", "note": tok(r)}}
	}

	if r.Intn(8) == 0 {
		doc["evidence"] = M{"id": "urn:uuid:" + tok(r), "type": "SomeEvidence2020", "note": tok(r)}
	}

	switch idMode {
	case 0:
		doc["id"] = "urn:uuid:" + tok(r)
	case 1:
		if r.Intn(2) == 0 { // some have one
			doc["id"] = "urn:uuid:" + tok(r)
		}
	case 2: // none
	}

	return doc, tag
}

func newCred(r *rand.Rand, v int, form string, idMode int) *cred {
	c := &cred{form: form, v: v}
	c.doc, c.tag = document(r, v, form, idMode)

	e := w.Ents["issuer"]
	if AsID(c.doc["issuer"]) == w.Ents["other"].DID {
		e = w.Ents["other"]
	}

	switch form {
	case "plain":
		c.vc = w.ParseVC(c.doc)
	case "proven": // the proofs are not verified here: only their kind counts
		d := vh.CloneM(c.doc)

		for i := 0; i < 1+r.Intn(2); i++ {
			c.proofs = append(c.proofs, vh.Pick(r, "Ed25519Signature2018", "JsonWebSignature2020", "EcdsaSecp256k1Signature2019"))
		}

		var l L
		for _, p := range c.proofs {
			l = append(l, M{"type": p, "created": "2022-01-01T00:00:00Z", "proofPurpose": "assertionMethod", "verificationMethod": e.DID + "#k", "jws": "eyJ..AA"})
		}

		d["proof"] = l
		if len(l) == 1 {
			d["proof"] = l[0]
		}

		c.vc = w.ParseVC(d)
	case "jwt":
		c.alg = vh.Pick(r, "EdDSA", "ES256", "ES384")
		c.raw = w.JWTCred(e, c.alg, c.doc)
		c.vc = w.ParseVC(c.raw)
	case "sdjwt":
		c.alg = vh.Pick(r, "EdDSA", "ES256", "ES384")

		o := []verifiable.MakeSDJWTOption{verifiable.MakeSDJWTWithVersion(vh.Pick(r, common.SDJWTVersionV2, common.SDJWTVersionV5))}
		if r.Intn(3) == 0 {
			o = append(o, verifiable.MakeSDJWTWithNonSelectivelyDisclosableClaims([]string{"credentialSubject.rank", "credentialSubject.address.zip"}[:1+r.Intn(2)]))
		}

		if r.Intn(4) == 0 {
			o = append(o, verifiable.MakeSDJWTWithRecursiveClaimsObjects([]string{"credentialSubject.address"}))
			c.hidden = true
		}

		c.raw = w.SDJWTCred(e, c.alg, c.doc, o...)
		if r.Intn(4) == 0 { // as another issuer would make it
			c.raw = concealed(r, e, c.alg, c.doc)
		}

		c.vc = w.ParseVC(c.raw)
	case "cwt":
		c.vc = w.ParseVC(fmt.Sprintf("%x", w.CWTCred(e, vh.Pick(r, "EdDSA", "ES256"), c.doc)))
	default:
		panic("vh-fixture: form " + form)
	}

	return c
}

// concealed makes an SD-JWT credential by hand: any member or array element at any depth of its subject may be hidden, beside visible ones.
func concealed(r *rand.Rand, e *vh.Entity, alg string, doc M) string {
	pl := vh.JWTPart(w.JWTCred(e, alg, doc), 1)
	vc, _ := pl["vc"].(M)

	var ds []string

	add := func(parts ...interface{}) string {
		d := vh.EncDisc(append([]interface{}{vh.B64([]byte(fmt.Sprintf("salt-%016x", r.Uint64())))}, parts...)...)
		ds = append(ds, d)

		return vh.SDDigest(d, crypto.SHA256)
	}

	var walk func(v interface{}) interface{}

	walk = func(v interface{}) interface{} {
		switch t := v.(type) {
		case M:
			o, sd := M{}, L{}

			for _, k := range vh.SortedKeys(t) {
				x := walk(t[k])

				if k != "id" && k != "type" && r.Intn(3) == 0 {
					sd = append(sd, add(k, x))
				} else {
					o[k] = x
				}
			}

			if len(sd) > 0 {
				o["_sd"] = sd
			}

			return o
		case L:
			l := make(L, len(t))

			for i := range t {
				l[i] = walk(t[i])
				if r.Intn(3) == 0 {
					l[i] = M{"...": add(l[i])}
				}
			}

			return l
		}

		return v
	}

	switch t := vc["credentialSubject"].(type) {
	case M:
		vc["credentialSubject"] = walk(t)
	case L:
		for i := range t {
			t[i] = walk(t[i])
		}
	}

	vc["_sd_alg"] = "sha-256"
	k := e.Keys[alg]

	return vh.JWS(M{"alg": k.Alg, "kid": k.ID, "typ": "JWT"}, vh.J(pl), k) + "~" + strings.Join(append(ds, ""), "~")
}

// AsID is the issuer's id.
func AsID(v interface{}) string {
	if m, ok := v.(M); ok {
		return vh.AsStr(m["id"])
	}

	return vh.AsStr(v)
}

func (c *cred) isJWT() bool { return c.form == "jwt" || c.form == "sdjwt" }

// ---- paths ----

type step struct {
	key string
	idx int // -1: key, -2: every element
}

type path []step

func (p path) render(r *rand.Rand, vcPrefix bool) string {
	s := "$"
	if vcPrefix {
		s += vh.Pick(r, ".vc", ".vc", "['vc']")
	}

	for i, x := range p {
		switch {
		case x.idx == -2:
			s += "[*]"
		case x.idx >= 0:
			s += fmt.Sprintf("[%d]", x.idx)
		case strings.Contains(x.key, "-") && r.Intn(2) == 0 && (i == 0 || p[i-1].idx == -1) && (i == len(p)-1 || p[i+1].idx == -1):
			s += "." + x.key // accepted for compatibility
		case strings.Contains(x.key, "-") || r.Intn(4) == 0:
			s += "['" + x.key + "']"
		default:
			s += "." + x.key
		}
	}

	return s
}

func (p path) simple() string {
	s := "$"

	for _, x := range p {
		switch {
		case x.idx == -2:
			s += "[*]"
		case x.idx >= 0:
			s += fmt.Sprintf("[%d]", x.idx)
		case strings.Contains(x.key, "-"):
			s += "['" + x.key + "']"
		default:
			s += "." + x.key
		}
	}

	return s
}

func (p path) eval(v interface{}) []interface{} {
	if len(p) == 0 {
		return []interface{}{v}
	}

	switch x := p[0]; {
	case x.idx == -1:
		if m, ok := v.(M); ok {
			if n, ok := m[x.key]; ok {
				return p[1:].eval(n)
			}
		}
	case x.idx == -2:
		var out []interface{}

		l, _ := v.(L)
		for _, n := range l {
			out = append(out, p[1:].eval(n)...)
		}

		m, _ := v.(M)
		for _, k := range vh.SortedKeys(m) {
			out = append(out, p[1:].eval(m[k])...)
		}

		return out
	default:
		if l, ok := v.(L); ok && x.idx < len(l) {
			return p[1:].eval(l[x.idx])
		}
	}

	return nil
}

// somePath picks a path to a node of the document.
func somePath(r *rand.Rand, doc M) path {
	var (
		p path
		v interface{} = doc
	)

	for {
		switch x := v.(type) {
		case M:
			ks := vh.SortedKeys(x)

			if len(p) == 0 {
				var l []string

				for _, k := range ks {
					if k != "@context" && k != "id" && k != "serial" && k != "type" {
						l = append(l, k)
					}
				}

				ks = l

				if r.Intn(3) != 0 {
					ks = []string{"credentialSubject"}
				}
			}

			k := ks[r.Intn(len(ks))]
			p = append(p, step{k, -1})
			v = x[k]
		case L:
			if len(x) == 0 {
				return p
			}

			i := r.Intn(len(x))
			p = append(p, step{"", i})
			v = x[i]
		default:
			return p
		}

		if len(p) >= 2 && r.Intn(5) == 0 {
			return p
		}
	}
}

// ---- filters (a small, independent reading of JSON Schema) ----

func typeOf(v interface{}) string {
	switch x := v.(type) {
	case string:
		return "string"
	case bool:
		return "boolean"
	case float64:
		if x == float64(int64(x)) {
			return "integer"
		}

		return "number"
	case L:
		return "array"
	case M:
		return "object"
	}

	return "null"
}

func same(a, b interface{}) bool { return string(vh.J(a)) == string(vh.J(b)) }

func passes(f M, v interface{}) bool {
	_, all := f["allOf"]

	for k, x := range f {
		if k == "type" && all { // the members of allOf say it (pinned by the repository's tests)
			continue
		}

		ok := true
		s, isS := v.(string)
		n, isN := v.(float64)

		switch k {
		case "type":
			t := typeOf(v)
			ok = t == x || (x == "number" && t == "integer")
		case "const":
			ok = same(v, x)
		case "enum":
			ok = false
			for _, e := range x.(L) {
				ok = ok || same(v, e)
			}
		case "pattern":
			ok = !isS || regexp.MustCompile(x.(string)).MatchString(s)
		case "minLength":
			ok = !isS || float64(len(s)) >= x.(float64)
		case "maxLength":
			ok = !isS || float64(len(s)) <= x.(float64)
		case "minimum":
			ok = !isN || n >= x.(float64)
		case "maximum":
			ok = !isN || n <= x.(float64)
		case "exclusiveMinimum":
			ok = !isN || n > x.(float64)
		case "exclusiveMaximum":
			ok = !isN || n < x.(float64)
		case "not":
			ok = !passes(x.(M), v)
		case "contains":
			if l, isL := v.(L); isL {
				ok = false
				for _, e := range l {
					ok = ok || passes(x.(M), e)
				}
			}
		case "allOf":
			for _, e := range x.(L) {
				ok = ok && passes(e.(M), v)
			}
		default:
			panic("vh-fixture: filter " + k)
		}

		if !ok {
			return false
		}
	}

	return true
}

// newFilter builds a filter around a value: usually one it passes, often one it just fails.
func newFilter(r *rand.Rand, v interface{}, top bool) M {
	t := typeOf(v)
	if t == "integer" && r.Intn(2) == 0 {
		t = "number"
	}

	f := M{"type": t}
	if !top && r.Intn(3) == 0 || r.Intn(12) == 0 {
		delete(f, "type")
	}

	if r.Intn(20) == 0 {
		f["type"] = vh.Pick(r, "string", "integer", "array", "boolean", "object")
	}

	if top && r.Intn(6) == 0 {
		l := L{}
		for i := 0; i < 1+r.Intn(3); i++ {
			l = append(l, newFilter(r, v, false))
		}

		f["allOf"] = l
	}

	if top && r.Intn(6) == 0 {
		g := newFilter(r, v, false)
		delete(g, "type")

		if len(g) > 0 {
			f["not"] = g
		}
	}

	switch x := v.(type) {
	case string:
		switch r.Intn(7) {
		case 0:
			f["const"] = vh.Pick(r, x, x, x+"x", "gold")
		case 1:
			f["enum"] = vh.Pick(r, L{x, "else"}, L{"silver-", x, "other"}, L{"gold"}, L{"else", float64(7)})
		case 2:
			f["pattern"] = vh.Pick(r, "^"+regexp.QuoteMeta(x)+"$", "^tk[0-9]+$", "^(gold|silver)$", "[xyz]$", regexp.QuoteMeta(x[:len(x)/2]))
		case 3:
			f["minLength"] = float64(len(x) + r.Intn(3))
		case 4:
			f["maxLength"] = float64(len(x) + 1 - r.Intn(3))
		}
	case float64:
		d := float64(r.Intn(3) - 1)

		switch r.Intn(8) {
		case 0:
			f["minimum"] = x + d
		case 1:
			f["maximum"] = x + d
		case 2:
			f["exclusiveMinimum"] = x + d
		case 3:
			f["exclusiveMaximum"] = x + d
		case 4:
			f["const"] = x + d*float64(r.Intn(2))
		case 5:
			f["minimum"], f["maximum"] = x-1, x+d
		case 6:
			f["enum"] = L{x + d, float64(-99)}
		}
	case L:
		if len(x) > 0 && r.Intn(4) != 0 {
			f["contains"] = newFilter(r, x[r.Intn(len(x))], false)

			if len(f["contains"].(M)) == 0 {
				f["contains"] = M{"type": "string"}
			}
		}
	}

	if top && len(f) == 0 {
		f["type"] = t
	}

	return f
}

// ---- descriptors ----

type field struct {
	paths    []path
	rendered []string
	prefixed []bool // $.vc…: only tokens have it
	filter   M
	optional bool
	pred     string
}

type descriptor struct {
	id        string
	schemas   []M // nil: the v2 data model
	fields    []*field
	noConstr  bool
	limit     string
	selfIssue string
	format    M
	dateMin   time.Time
}

func (f *field) json() M {
	p := L{}
	for _, s := range f.rendered {
		p = append(p, s)
	}

	m := M{"path": p}
	if f.filter != nil {
		m["filter"] = f.filter
	}

	if f.optional {
		m["optional"] = true
	}

	if f.pred != "" {
		m["predicate"] = f.pred
	}

	return m
}

func (d *descriptor) json() M {
	m := M{"id": d.id}

	if d.schemas != nil {
		l := L{}
		for _, s := range d.schemas {
			l = append(l, s)
		}

		m["schema"] = l
	}

	if d.format != nil {
		m["format"] = d.format
	}

	if !d.noConstr {
		c := M{}

		if len(d.fields) > 0 {
			l := L{}
			for _, f := range d.fields {
				l = append(l, f.json())
			}

			c["fields"] = l
		}

		if d.limit != "" {
			c["limit_disclosure"] = d.limit
		}

		if d.selfIssue != "" {
			c["subject_is_issuer"] = d.selfIssue
		}

		m["constraints"] = c
	}

	return m
}

// values are what a path of the field selects in a credential (nil: nothing).
func (f *field) values(i int, c *cred, doc M) (interface{}, bool) {
	if f.prefixed[i] && !c.isJWT() {
		return nil, false
	}

	v := f.paths[i].eval(doc)

	switch len(v) {
	case 0:
		return nil, false
	case 1:
		return v[0], true
	}

	return v, true
}

func (f *field) satisfied(c *cred, doc M) bool {
	found := false

	for i := range f.paths {
		v, ok := f.values(i, c, doc)
		if !ok {
			continue
		}

		found = true

		if f.filter == nil || passes(f.filter, v) {
			return true
		}
	}

	return !found && f.optional
}

// formatClasses are the designations of a format object a credential matches.
func formatClasses(f M, c *cred) []string {
	var out []string

	for _, k := range vh.SortedKeys(f) {
		m := f[k].(M)
		ok := false

		if strings.HasPrefix(k, "ldp") {
			for _, t := range m["proof_type"].(L) {
				for _, p := range c.proofs {
					ok = ok || p == t
				}
			}
		} else {
			for _, a := range m["alg"].(L) {
				ok = ok || (c.isJWT() && strings.EqualFold(a.(string), c.alg))
			}
		}

		if ok {
			out = append(out, k)
		}
	}

	return out
}

func ctxOf(doc M) []string {
	return ctxList(doc["@context"])
}

func ctxList(v interface{}) []string {
	var l []string
	for _, c := range vh.AsList(v) {
		l = append(l, vh.AsStr(c))
	}

	return l
}

func has(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}

	return false
}

func schemaOK(schemas []M, doc M) bool {
	if schemas == nil {
		return true
	}

	sat := map[string]bool{}

	for _, t := range vh.AsList(doc["type"]) {
		s := vh.AsStr(t)
		known := s == "VerifiableCredential"

		for _, ct := range ctxTypes {
			known = known || (s == ct[1] && has(ctxOf(doc), ct[0]))
		}

		if known {
			sat[s], sat[typeIRI[s]] = true, true
		}
	}

	any := false

	for _, s := range schemas {
		ok := sat[s["uri"].(string)]
		any = any || ok

		if s["required"] == true && !ok {
			return false
		}
	}

	return any
}

func selfIssued(doc M) bool {
	for _, s := range vh.AsList(doc["credentialSubject"]) {
		id := AsID(s)
		if id != "" && id == AsID(doc["issuer"]) {
			return true
		}
	}

	return false
}

// qualifies: the claims of a credential satisfy the descriptor (format aside).
func (d *descriptor) qualifies(c *cred, doc M) bool {
	if !schemaOK(d.schemas, doc) {
		return false
	}

	if d.noConstr {
		return true
	}

	if d.selfIssue == "required" && !selfIssued(doc) {
		return false
	}

	for _, f := range d.fields {
		if !f.satisfied(c, doc) {
			return false
		}
	}

	return true
}

func (d *descriptor) predicate() bool {
	for _, f := range d.fields {
		if f.pred == "required" {
			return true
		}
	}

	return false
}

// limitable: the credential can be cut down to what the descriptor asks for.
func (d *descriptor) limitable(c *cred) bool {
	return d.noConstr || d.limit != "required" || d.predicate() || c.form == "sdjwt" || selfIssued(c.doc)
}

// ---- reading what was presented ----

// token takes a token out of its envelope.
func token(x interface{}) interface{} {
	if m, ok := x.(M); ok && has(ctxList(m["type"]), "EnvelopedVerifiableCredential") {
		id := vh.AsStr(m["id"])

		return id[strings.IndexByte(id, ',')+1:]
	}

	return x
}

// readCred gives everything a presented credential discloses and its claims as far as they are readable.
func readCred(x interface{}) (text string, claims M) {
	s, ok := token(x).(string)
	if !ok {
		m, _ := x.(M)

		return string(vh.J(x)), m
	}

	parts := strings.Split(s, "~")
	seg := strings.Split(parts[0], ".")

	if len(seg) != 3 {
		return s, nil
	}

	b, err := base64.RawURLEncoding.DecodeString(seg[1])
	if err != nil {
		return s, nil
	}

	var p M
	if json.Unmarshal(b, &p) != nil {
		return string(b), nil
	}

	text = string(b)

	for _, d := range parts[1:] {
		b, err := base64.RawURLEncoding.DecodeString(d)
		if err == nil {
			text += "\n" + string(b)
		}
	}

	claims, _ = p["vc"].(M)
	if claims == nil {
		claims = p
	}

	return text, claims
}

// tokensUnder lists the tokens of a value.
func tokensUnder(v interface{}) []string {
	var out []string

	switch x := v.(type) {
	case string:
		if strings.HasPrefix(x, "tk") {
			out = append(out, x)
		}
	case L:
		for _, e := range x {
			out = append(out, tokensUnder(e)...)
		}
	case M:
		for _, k := range vh.SortedKeys(x) {
			out = append(out, tokensUnder(x[k])...)
		}
	}

	sort.Strings(out)

	return out
}
