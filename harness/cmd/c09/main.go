// C09: JWT and CWT claims carry the credential's own id, issuer, subject and dates.
package main

import (
	"fmt"
	"math/rand"
	"strings"
	"time"

	"github.com/trustbloc/vc-go/verifharness/vh"
	"github.com/trustbloc/vc-go/verifiable"
)

var w *vh.World

func main() {
	vh.Main(vh.Spec{
		ID: "C09",
		Rule: "random credential or presentation x (signed JWT, unsecured JWT, CWT) x minimised or not, with RFC 3339 times of all zones, fractions and " +
			"years; the emitted claims are read by an independent decoder and compared with the document; decoding must restore it. Independently built " +
			"tokens whose registered claims contradict the enclosed document check which side wins. Distinct: (form, data model, minimised, present fields).",
		Level: "exploration",
		Require: map[string]int64{"vc.jwt": 500, "vc.unsecured": 200, "vc.cwt": 200, "vc.restored": 1000, "vp.jwt": 200, "vp.cwt": 200, "vp.restored": 500,
			"conflict.vc": 600, "conflict.vp": 150, "conflict.iss-rejected": 50},
		Assumptions: []string{"credentials have one subject with an id (the encoding supports no other, and says so)",
			"when both not-before and issued-at are present and differ, either may give the issuance date"},
		Run: run,
	})
}

// when makes an RFC 3339 time with its Unix second.
func when(r *rand.Rand) (string, int64) {
	t := time.Unix(r.Int63n(4e9)-5e8, 0)

	switch r.Intn(8) {
	case 0:
		t = time.Date(vh.Pick(r, 1, 1582, 1969, 2038, 2100, 9000, 9998), time.Month(1+r.Intn(12)), 1+r.Intn(28), r.Intn(24), r.Intn(60), r.Intn(60), 0, time.UTC)
	case 1:
		t = time.Date(1970+r.Intn(80), 12, 31, 23, 59, 59, 0, time.UTC)
	case 2:
		t = time.Unix(vh.Pick[int64](r, 1, -1, 2147483647, 2147483648, 4294967296, 253402214400), 0)
	}

	z := time.FixedZone("", vh.Pick(r, 0, 0, 3600, -18000, 19800, 45900, -43200, 50400))
	s := t.In(z)

	if t.Year() < 2 || t.Year() > 9997 {
		s = t.UTC()
	}

	if r.Intn(3) == 0 {
		ns := r.Int63n(1e9)
		if r.Intn(3) == 0 {
			ns = 999999999
		}

		return s.Add(time.Duration(ns)).Format("2006-01-02T15:04:05.999999999Z07:00"), t.Unix()
	}

	return s.Format(time.RFC3339), t.Unix()
}

func names(v int) (string, string) {
	if v == 2 {
		return "validFrom", "validUntil"
	}

	return "issuanceDate", "expirationDate"
}

func issuerID(v interface{}) string {
	if m, ok := v.(map[string]interface{}); ok {
		s, _ := m["id"].(string)
		return s
	}

	s, _ := v.(string)

	return s
}

func subjectOf(d map[string]interface{}) map[string]interface{} {
	if l, ok := d["credentialSubject"].([]interface{}); ok {
		return l[0].(map[string]interface{})
	}

	return d["credentialSubject"].(map[string]interface{})
}

// credDoc makes a document with chosen times; gives their Unix seconds (0,false when absent).
type want struct {
	doc        map[string]interface{}
	v          int
	issued     *int64
	expired    *int64
	id, iss    string
	sub        string
	fromN, toN string
}

func makeCred(r *rand.Rand) *want {
	x := &want{v: 1 + r.Intn(2), iss: w.Ents["issuer"].DID}
	d := vh.Cred(r, vh.CredOpts{V: x.v, Issuer: x.iss, OneSubject: true, NeedID: true})
	x.fromN, x.toN = names(x.v)
	delete(d, x.fromN)
	delete(d, x.toN)

	if x.v == 1 || r.Intn(3) != 0 {
		s, u := when(r)
		d[x.fromN], x.issued = s, &u
	}

	if r.Intn(2) == 0 {
		s, u := when(r)
		d[x.toN], x.expired = s, &u
	}

	if r.Intn(4) == 0 {
		delete(d, "id")
	}

	x.id, _ = d["id"].(string)
	x.sub = subjectOf(d)["id"].(string)
	x.doc = d

	return x
}

func num(v interface{}) (int64, bool) {
	switch n := v.(type) {
	case float64:
		return int64(n), n == float64(int64(n))
	case int64:
		return n, true
	case uint64:
		return int64(n), true
	case int:
		return int64(n), true
	}

	return 0, false
}

// claims compares registered claims.
func (x *want) claims(c *vh.Check, form string, cl map[string]interface{}, withID bool, detail interface{}) {
	c.Expect(cl["iss"] == x.iss, "claim-iss:"+form, fmt.Sprintf("%s: iss %v, issuer %s", form, cl["iss"], x.iss), detail)
	c.Expect(cl["sub"] == x.sub, "claim-sub:"+form, fmt.Sprintf("%s: sub %v, subject %s", form, cl["sub"], x.sub), detail)

	if withID {
		got, _ := cl["jti"].(string)
		c.Expect(got == x.id, "claim-jti:"+form, fmt.Sprintf("%s: jti %v, id %q", form, cl["jti"], x.id), detail)
	}

	for n, u := range map[string]*int64{"nbf": x.issued, "iat": x.issued, "exp": x.expired} {
		if u == nil {
			c.Expect(cl[n] == nil, "claim-"+n+":"+form, fmt.Sprintf("%s: %s is %v although the credential has no such date", form, n, cl[n]), detail)
			continue
		}

		got, ok := num(cl[n])
		c.Expect(ok && got == *u, "claim-"+n+":"+form, fmt.Sprintf("%s: %s is %v, the credential's date is second %d", form, n, cl[n], *u), detail)
	}

	c.Expect(cl["aud"] == nil, "claim-aud:"+form, fmt.Sprintf("%s: aud %v", form, cl["aud"]), detail)
}

func sec(s interface{}) (int64, bool) {
	t, ok := s.(string)
	if !ok {
		return 0, false
	}

	p, err := time.Parse(time.RFC3339Nano, t)

	return p.Unix(), err == nil
}

// same compares a decoded credential with the document: dates by the second, issuer object without properties as its id.
func (x *want) same(c *vh.Check, form string, vc *verifiable.Credential, detail interface{}) bool {
	got := vh.NormJ(map[string]interface{}(vc.ToRawJSON())).(map[string]interface{})
	exp := vh.Norm(x.doc).(map[string]interface{})
	ok := true

	for n, u := range map[string]*int64{x.fromN: x.issued, x.toN: x.expired} {
		if u == nil {
			ok = c.Expect(got[n] == nil, "restored-"+n+":"+form, fmt.Sprintf("%s: %s appeared: %v", form, n, got[n]), detail) && ok
			continue
		}

		g, is := sec(got[n])
		ok = c.Expect(is && g == *u, "restored-"+n+":"+form, fmt.Sprintf("%s: %s restored as %v, was %v", form, n, got[n], exp[n]), detail) && ok
		delete(got, n)
		delete(exp, n)
	}

	for _, m := range []map[string]interface{}{got, exp} {
		if i, is := m["issuer"].(map[string]interface{}); is && len(i) == 1 {
			m["issuer"] = i["id"]
		}
	}

	d := vh.Diff(exp, got)
	ok = c.Expect(d == "", "restored:"+form, fmt.Sprintf("%s: decoded credential differs%s", form, d), detail) && ok

	ct := vc.Contents()
	ok = c.Expect(ct.ID == x.id && ct.Issuer != nil && ct.Issuer.ID == x.iss && len(ct.Subject) == 1 && ct.Subject[0].ID == x.sub, "restored-contents:"+form,
		fmt.Sprintf("%s: contents id %q issuer %v", form, ct.ID, ct.Issuer), detail) && ok
	ok = c.Expect((ct.Issued == nil) == (x.issued == nil) && (ct.Issued == nil || ct.Issued.Unix() == *x.issued), "restored-issued:"+form,
		fmt.Sprintf("%s: contents issued %v", form, ct.Issued), detail) && ok
	ok = c.Expect((ct.Expired == nil) == (x.expired == nil) && (ct.Expired == nil || ct.Expired.Unix() == *x.expired), "restored-expired:"+form,
		fmt.Sprintf("%s: contents expired %v", form, ct.Expired), detail) && ok

	return ok
}

func opts() []verifiable.CredentialOpt {
	return []verifiable.CredentialOpt{verifiable.WithProofChecker(w.Checker), verifiable.WithJSONLDDocumentLoader(w.Loader)}
}

func unsecuredOpts() []verifiable.CredentialOpt {
	return []verifiable.CredentialOpt{verifiable.WithDisabledProofCheck(), verifiable.WithCredDisableValidation(), verifiable.WithJSONLDDocumentLoader(w.Loader)}
}

var cwtAlgs = []string{"EdDSA", "ES256", "ES384", "RS256", "PS256"}

func run(c *vh.Check) {
	w = vh.NewWorld("holder", "issuer", "mallory")

	c.Cases("vc", c.N(1800, 30000), func(r *rand.Rand, i int) {
		x := makeCred(r)
		vc := w.ParseVC(x.doc)
		min := r.Intn(2) == 0
		iss := w.Ents["issuer"]
		before := string(vh.J(vc.ToRawJSON()))
		form := vh.Pick(r, "jwt", "jwt", "unsecured", "cwt", "sdjwt")
		c.Eval(fmt.Sprintf("vc|%s|v%d|%v|%v|%v|%v", form, x.v, min, x.id != "", x.issued != nil, x.expired != nil))

		switch form {
		case "jwt", "unsecured":
			var (
				out *verifiable.Credential
				err error
			)

			k := iss.Keys[vh.Pick(r, vh.JWTAlgs...)]

			if form == "jwt" {
				out, err = vc.CreateSignedJWTVC(min, k.JWSAlg(), w.Creator(iss), k.ID)
			} else {
				out, err = vc.CreateUnsecuredJWTVC(min)
			}

			if !c.Expect(err == nil, "encode:"+form, fmt.Sprintf("%v", err), x.doc) {
				return
			}

			tok := out.JWTEnvelope.JWT
			pl := vh.JWTPart(tok, 1)
			x.claims(c, form, pl, true, tok)
			c.Count("vc."+form, 1)

			enc, _ := pl["vc"].(map[string]interface{})
			for _, n := range []string{"id", x.fromN, x.toN} {
				if min {
					c.Expect(enc[n] == nil, "minimised-"+n, "minimised credential still holds "+n, tok)
				} else {
					c.Expect(vh.Eq(enc[n], vh.Norm(x.doc).(map[string]interface{})[n]), "enclosed-"+n, "enclosed credential lacks "+n, tok)
				}
			}

			o := opts()
			if form == "unsecured" {
				o = unsecuredOpts()
			}

			back, err := verifiable.ParseCredential([]byte(tok), o...)
			if c.Expect(err == nil, "decode:"+form, fmt.Sprintf("%v", err), tok) && x.same(c, fmt.Sprintf("%s min=%v", form, min), back, tok) {
				c.Count("vc.restored", 1)
			}

			if form == "jwt" { // plain conversion keeps the same content
				b, err := verifiable.JWTVCToJSON([]byte(tok))
				if c.Expect(err == nil, "jwt-to-json", fmt.Sprintf("%v", err), tok) {
					x.same(c, fmt.Sprintf("tojson min=%v", min), w.ParseVC(b), tok)
				}
			}
		case "cwt":
			k := iss.Keys[vh.Pick(r, cwtAlgs...)]

			cl, err := vc.CWTClaims()
			if !c.Expect(err == nil, "encode:cwt", fmt.Sprintf("%v", err), x.doc) {
				return
			}

			c.Expect(cl.ID == x.id && cl.Issuer == x.iss && cl.Subject == x.sub, "cwt-claims", fmt.Sprintf("CWT claims %+v", cl.CWTClaims), x.doc)

			out, err := vc.CreateSignedCOSEVC(k.COSEAlg(), w.Creator(iss), k.ID)
			if !c.Expect(err == nil, "encode:cwt", fmt.Sprintf("%v", err), x.doc) {
				return
			}

			raw := out.CWTEnvelope.Sign1MessageRaw
			x.claims(c, form, strKeys(uncb(vh.ParseCose(raw).PL())), false, fmt.Sprintf("%x", raw))
			c.Count("vc.cwt", 1)

			back, err := verifiable.ParseCredential(raw, opts()...)
			if c.Expect(err == nil, "decode:cwt", fmt.Sprintf("%v", err), fmt.Sprintf("%x", raw)) && x.same(c, "cwt", back, fmt.Sprintf("%x", raw)) {
				c.Count("vc.restored", 1)
			}
		default:
			k := iss.Keys[vh.Pick(r, vh.JWTAlgs...)]
			x.doc["credentialSubject"] = subjectOf(x.doc)
			vc = w.ParseVC(x.doc)
			before = string(vh.J(vc.ToRawJSON()))
			out, err := vc.MakeSDJWT(vh.JoseSigner{K: k}, k.ID)

			if !c.Expect(err == nil, "encode:sdjwt", fmt.Sprintf("%v", err), x.doc) {
				return
			}

			x.claims(c, form, vh.JWTPart(out, 1), true, out)

			back, err := verifiable.ParseCredential([]byte(strings.TrimSuffix(out, "~")+"~"), opts()...)
			if c.Expect(err == nil, "decode:sdjwt", fmt.Sprintf("%v", err), out) {
				ct := back.Contents()
				if c.Expect(ct.ID == x.id && ct.Issuer.ID == x.iss && (ct.Issued == nil) == (x.issued == nil) && (ct.Issued == nil || ct.Issued.Unix() == *x.issued) &&
					(ct.Expired == nil) == (x.expired == nil) && (ct.Expired == nil || ct.Expired.Unix() == *x.expired), "restored:sdjwt",
					fmt.Sprintf("decoded SD-JWT credential: id %q issuer %v dates %v %v", ct.ID, ct.Issuer, ct.Issued, ct.Expired), out) {
					c.Count("vc.restored", 1)
				}
			}
		}

		c.Expect(string(vh.J(vc.ToRawJSON())) == before, "encode-changed-credential", form+" encoding changed the credential", x.doc)
	})

	c.Cases("conflict", c.N(1200, 20000), func(r *rand.Rand, i int) { conflict(c, r) })
	c.Cases("vp", c.N(900, 15000), func(r *rand.Rand, i int) { presentations(c, r) })
	c.Cases("subject", c.N(40, 400), func(r *rand.Rand, i int) { // what cannot be encoded is refused
		x := makeCred(r)
		s := vh.CloneM(subjectOf(x.doc))

		switch i % 3 {
		case 0:
			x.doc["credentialSubject"] = []interface{}{s, vh.CloneM(s)}
		case 1:
			delete(s, "id")
			s["name"] = "x"
			x.doc["credentialSubject"] = s
		default:
			delete(x.doc, "credentialSubject")
		}

		vc := w.ParseVC(x.doc)
		_, e1 := vc.JWTClaims(r.Intn(2) == 0)
		_, e2 := vc.CWTClaims()
		c.Eval(fmt.Sprintf("subject|%d", i%3))
		c.Expect(e1 != nil && e2 != nil, "subject-unencodable", fmt.Sprintf("subject case %d encoded: %v %v", i%3, e1, e2), x.doc)
	})
}

func uncb(b []byte) interface{} {
	var v interface{}
	if err := vh.UnCB(b, &v); err != nil {
		panic("vh-fixture cbor " + err.Error())
	}

	return v
}

func strKeys(v interface{}) map[string]interface{} {
	out := map[string]interface{}{}

	switch m := v.(type) {
	case map[string]interface{}:
		return m
	case map[interface{}]interface{}:
		for k, e := range m {
			out[fmt.Sprint(k)] = e
		}
	}

	return out
}

// conflict: the enclosed credential says one thing, the signed registered claims another.
func conflict(c *vh.Check, r *rand.Rand) {
	x := makeCred(r)
	iss := w.Ents["issuer"]
	k := iss.Keys[vh.Pick(r, vh.JWTAlgs...)]
	doc := vh.CloneM(x.doc)
	pl := map[string]interface{}{"iss": x.iss, "vc": doc}
	what := ""
	dates := []int64{}

	if r.Intn(2) == 0 {
		what += "jti "
		x.id = "urn:claims:" + vh.SafeStr(r)
		pl["jti"] = x.id
	}

	numeric := func(u int64) interface{} {
		if r.Intn(4) == 0 {
			return float64(u) + 0.25
		}

		return u
	}

	if r.Intn(2) == 0 {
		what += "exp "
		_, u := when(r)
		x.expired = &u
		pl["exp"] = u
	}

	switch r.Intn(4) {
	case 0:
		what += "nbf "
		_, u := when(r)
		dates = append(dates, u)
		pl["nbf"] = numeric(u)
	case 1:
		what += "iat "
		_, u := when(r)
		dates = append(dates, u)
		pl["iat"] = numeric(u)
	case 2:
		what += "nbf iat "
		_, u := when(r)
		_, v := when(r)
		dates = append(dates, u, v)
		pl["nbf"], pl["iat"] = numeric(u), numeric(v)
	}

	for _, u := range dates {
		if u < 0 {
			for _, n := range []string{"nbf", "iat"} {
				if f, ok := pl[n].(float64); ok { // fractions of negative times: whole seconds only
					pl[n] = int64(f - 0.25)
				}
			}
		}
	}

	issMode := r.Intn(5)
	switch issMode {
	case 0: // enclosed issuer is no DID
		what += "iss "
		setIssuer(doc, "https://issuer.example/"+vh.SafeStr(r))
	case 1:
		what += "iss-missing "
		delete(doc, "issuer")
	case 2: // two DIDs
		what += "iss-foreign "
		setIssuer(doc, vh.Pick(r, w.Ents["mallory"].DID, x.iss+"x", "did:verif:issue"))
	}

	// claims that say nothing about the credential
	for n := r.Intn(4); n > 1; n-- {
		pl[vh.Pick(r, "azp", "nonce", "cnf", "x-"+vh.SafeStr(r), "jku", "scope")] = vh.Pick[interface{}](r, "text", true, []interface{}{"a"},
			map[string]interface{}{"credentialSubject": map[string]interface{}{"id": "did:verif:mallory"}}, 12)
		what += "more "
	}

	form := "signed"
	tok := vh.JWS(map[string]interface{}{"alg": k.Alg, "kid": k.ID}, vh.J(pl), k)
	o := opts()

	if r.Intn(3) == 0 {
		form = "unsecured"
		tok = vh.B64([]byte(`{"alg":"none"}`)) + "." + vh.B64(vh.J(pl)) + "."
		o = unsecuredOpts()
	}

	vc, err := verifiable.ParseCredential([]byte(tok), o...)
	c.Eval(fmt.Sprintf("conflict|%s|v%d|%s", form, x.v, what))

	if issMode == 2 {
		if c.Expect(err != nil, "conflict-issuer-accepted", "iss and vc.issuer are different DIDs and the credential was accepted", tok) {
			c.Count("conflict.iss-rejected", 1)
		}

		return
	}

	if !c.Expect(err == nil, "conflict-rejected", fmt.Sprintf("%s: %v", what, err), tok) {
		return
	}

	raw := vh.NormJ(map[string]interface{}(vc.ToRawJSON())).(map[string]interface{})
	ct := vc.Contents()
	ok := c.Expect(issuerID(raw["issuer"]) == x.iss && ct.Issuer != nil && ct.Issuer.ID == x.iss, "conflict-issuer", fmt.Sprintf("issuer decoded as %v, iss %s", raw["issuer"], x.iss), tok)

	gid, _ := raw["id"].(string)
	ok = c.Expect(gid == x.id && ct.ID == x.id, "conflict-id", fmt.Sprintf("id decoded as %v (contents %q), expected %q", raw["id"], ct.ID, x.id), tok) && ok

	if x.expired != nil {
		g, is := sec(raw[x.toN])
		ok = c.Expect(is && g == *x.expired && ct.Expired != nil && ct.Expired.Unix() == g, "conflict-exp", fmt.Sprintf("%s decoded as %v, expected second %d", x.toN, raw[x.toN], *x.expired), tok) && ok
	} else {
		ok = c.Expect(raw[x.toN] == nil && ct.Expired == nil, "conflict-exp", fmt.Sprintf("%s appeared: %v", x.toN, raw[x.toN]), tok) && ok
	}

	if len(dates) == 0 && x.issued != nil {
		dates = append(dates, *x.issued)
	}

	g, is := sec(raw[x.fromN])
	match := len(dates) == 0 && raw[x.fromN] == nil && ct.Issued == nil

	for _, u := range dates {
		match = match || is && g == u && ct.Issued != nil && ct.Issued.Unix() == u
	}

	ok = c.Expect(match, "conflict-issued", fmt.Sprintf("%s decoded as %v, expected second %v", x.fromN, raw[x.fromN], dates), tok) && ok

	// the rest is the enclosed document
	exp := vh.Norm(x.doc).(map[string]interface{})
	for _, n := range []string{"id", "issuer", x.fromN, x.toN} {
		delete(exp, n)
		delete(raw, n)
	}

	d := vh.Diff(exp, raw)
	if c.Expect(d == "", "conflict-rest", "other members changed"+d, tok) && ok {
		c.Count("conflict.vc", 1)
	}
}

func setIssuer(d map[string]interface{}, s string) {
	if m, ok := d["issuer"].(map[string]interface{}); ok {
		m["id"] = s
	} else {
		d["issuer"] = s
	}
}

func presentations(c *vh.Check, r *rand.Rand) {
	h := w.Ents["holder"]
	v := 1 + r.Intn(2)
	base := []string{vh.CtxV1, vh.CtxV2}[v-1]
	doc := map[string]interface{}{"@context": []interface{}{base, vh.CtxVerif}, "type": vh.Pick[interface{}](r, "VerifiablePresentation", []interface{}{"VerifiablePresentation", "CustomPresentation"})}
	id := ""

	if r.Intn(3) != 0 {
		id = "urn:uuid:" + vh.SafeStr(r)
		doc["id"] = id
	}

	holder := h.DID
	if r.Intn(5) == 0 {
		holder = ""
	} else {
		doc["holder"] = holder
	}

	var toks []interface{}

	for i, n := 0, r.Intn(3); i < n; i++ {
		cd := vh.Cred(r, vh.CredOpts{V: v, Issuer: w.Ents["issuer"].DID, OneSubject: true, NeedID: true})
		toks = append(toks, w.JWTCred(w.Ents["issuer"], "ES256", cd))
	}

	if len(toks) > 0 {
		doc["verifiableCredential"] = toks
	}

	for i, n := 0, r.Intn(3); i < n; i++ {
		doc[fmt.Sprintf("custom%d", i)] = vh.Val(r, 2, false)
	}

	vp, err := verifiable.ParsePresentation(vh.J(doc), verifiable.WithPresDisabledProofCheck(), verifiable.WithPresJSONLDDocumentLoader(w.Loader))
	if err != nil {
		panic("vh-fixture " + err.Error())
	}

	min := r.Intn(2) == 0
	aud := [][]string{nil, {"https://verifier.example"}, {"a", "did:b"}}[r.Intn(3)]
	form := vh.Pick(r, "jwt", "cwt", "unsecured")
	o := []verifiable.PresentationOpt{verifiable.WithPresProofChecker(w.Checker), verifiable.WithPresJSONLDDocumentLoader(w.Loader)}

	var (
		cl   map[string]interface{}
		recv []byte
	)

	switch form {
	case "jwt":
		k := h.Keys[vh.Pick(r, vh.JWTAlgs...)]

		out, err := vp.CreateJWTVP(aud, k.JWSAlg(), w.Creator(h), k.ID, min)
		if !c.Expect(err == nil, "vp-encode:jwt", fmt.Sprintf("%v", err), doc) {
			return
		}

		cl, recv = vh.JWTPart(out.JWT, 1), []byte(out.JWT)
	case "unsecured":
		jc, err := vp.JWTClaims(aud, min)
		if !c.Expect(err == nil, "vp-encode:unsecured", fmt.Sprintf("%v", err), doc) {
			return
		}

		s, err := jc.MarshalUnsecuredJWT()
		if !c.Expect(err == nil, "vp-encode:unsecured", fmt.Sprintf("%v", err), doc) {
			return
		}

		cl, recv = vh.JWTPart(s, 1), []byte(s)
		o = []verifiable.PresentationOpt{verifiable.WithPresDisabledProofCheck(), verifiable.WithPresJSONLDDocumentLoader(w.Loader)}
	default:
		k := h.Keys[vh.Pick(r, cwtAlgs...)]

		out, err := vp.CreateCWTVP(aud, k.COSEAlg(), w.Creator(h), k.ID, min)
		if !c.Expect(err == nil, "vp-encode:cwt", fmt.Sprintf("%v", err), doc) {
			return
		}

		recv = out.CWT.Raw
		cl = strKeys(uncb(vh.ParseCose(recv).PL()))

		if holder == "" { // nobody to check the proof against
			o = []verifiable.PresentationOpt{verifiable.WithPresDisabledProofCheck(), verifiable.WithPresJSONLDDocumentLoader(w.Loader)}
		}
	}

	c.Eval(fmt.Sprintf("vp|%s|v%d|min=%v|id=%v|holder=%v|aud=%d", form, v, min, id != "", holder != "", len(aud)))

	str := func(n string) string { s, _ := cl[n].(string); return s }
	c.Expect(str("iss") == holder, "vp-claim-iss:"+form, fmt.Sprintf("iss %v, holder %q", cl["iss"], holder), doc)
	c.Expect(str("jti") == id, "vp-claim-jti:"+form, fmt.Sprintf("jti %v, id %q", cl["jti"], id), doc)

	var ga []string
	if s, ok := cl["aud"].(string); ok {
		ga = []string{s}
	} else if l, ok := cl["aud"].([]interface{}); ok {
		for _, e := range l {
			ga = append(ga, fmt.Sprint(e))
		}
	}

	c.Expect(fmt.Sprint(ga) == fmt.Sprint(aud), "vp-claim-aud:"+form, fmt.Sprintf("aud %v, given %v", cl["aud"], aud), doc)
	c.Count("vp."+form, 1)

	restored := func(recv []byte, id, holder, what string) bool {
		back, err := verifiable.ParsePresentation(recv, o...)
		if !c.Expect(err == nil, "vp-decode:"+what, fmt.Sprintf("%v", err), fmt.Sprintf("%q", recv)) {
			return false
		}

		ok := c.Expect(back.ID == id, "vp-id:"+what, fmt.Sprintf("presentation id decoded as %q, expected %q", back.ID, id), fmt.Sprintf("%q", recv))
		ok = c.Expect(back.Holder == holder, "vp-holder:"+what, fmt.Sprintf("holder decoded as %q, expected %q", back.Holder, holder), fmt.Sprintf("%q", recv)) && ok
		ok = c.Expect(len(back.Credentials()) == len(toks), "vp-credentials:"+what, fmt.Sprintf("%d credentials of %d", len(back.Credentials()), len(toks)), fmt.Sprintf("%q", recv)) && ok

		for n, e := range doc {
			if strings.HasPrefix(n, "custom") {
				d := vh.Diff(vh.Norm(e), vh.NormJ(back.CustomFields[n]))
				ok = c.Expect(d == "", "vp-custom:"+what, "custom field "+n+d, fmt.Sprintf("%q", recv)) && ok
			}
		}

		return ok
	}

	if restored(recv, id, holder, fmt.Sprintf("%s:min=%v", form, min)) {
		c.Count("vp.restored", 1)
	}

	// conflicting registered claims win
	if form == "unsecured" || r.Intn(2) == 0 {
		return
	}

	d2 := vh.CloneM(doc)
	d2["holder"] = vh.Pick[interface{}](r, "did:verif:mallory", h.DID, map[string]interface{}{"id": "did:verif:mallory"})
	d2["id"] = "urn:enclosed"
	pl := map[string]interface{}{"vp": d2}
	wantID, wantHolder := "urn:enclosed", ""

	if m, ok := d2["holder"].(map[string]interface{}); ok {
		wantHolder = m["id"].(string)
	} else {
		wantHolder = d2["holder"].(string)
	}

	signer := h
	if wantHolder == "did:verif:mallory" {
		signer = w.Ents["mallory"]
	}

	if r.Intn(3) != 0 {
		pl["iss"], wantHolder, signer = h.DID, h.DID, h
	}

	if r.Intn(2) == 0 {
		wantID = "urn:claims:" + vh.SafeStr(r)
		pl["jti"] = wantID
	}

	var b []byte

	if form == "jwt" {
		k := signer.Keys["ES256"]
		b = []byte(vh.JWS(map[string]interface{}{"alg": "ES256", "kid": k.ID}, vh.J(pl), k))
	} else {
		k := signer.Keys["ES256"]
		b = vh.MakeCose(vh.CoseHdr(k), vh.CB(pl), k).Bytes()
		o = []verifiable.PresentationOpt{verifiable.WithPresProofChecker(w.Checker), verifiable.WithPresJSONLDDocumentLoader(w.Loader)}
	}

	c.Eval(fmt.Sprintf("vp-conflict|%s|%v|%v", form, pl["iss"] != nil, pl["jti"] != nil))

	if restored(b, wantID, wantHolder, "conflict-"+form) {
		c.Count("conflict.vp", 1)
	}
}
