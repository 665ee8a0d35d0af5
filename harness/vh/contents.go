package vh

import (
	"fmt"
	"math/rand"
	"strings"

	"github.com/trustbloc/did-go/doc/util/time"

	"github.com/trustbloc/vc-go/sdjwt/common"
	"github.com/trustbloc/vc-go/verifiable"
)

var cwtAlgs = []string{"EdDSA", "ES256", "ES384", "RS256", "PS256"}

// FullDoc makes a credential document exercising every optional member.
func (w *World) FullDoc(r *rand.Rand, v int, form string) map[string]interface{} {
	iss := w.Ents["issuer"]
	d := Cred(r, CredOpts{V: v, Issuer: iss.DID, LDSafe: false, NeedID: form != "json", OneSubject: form == "jwt-code" || form == "sdjwt"})

	if r.Intn(3) == 0 {
		d["@context"] = append(d["@context"].([]interface{}), map[string]interface{}{"inline": "https://inline.example/#" + SafeStr(r)})
	} else if r.Intn(8) == 0 && form == "json" {
		d["@context"] = d["@context"].([]interface{})[0]
	}

	if r.Intn(6) == 0 {
		d["type"] = "VerifiableCredential"
	}

	if form == "json" && r.Intn(12) == 0 {
		d["credentialSubject"] = "did:example:" + SafeStr(r)
	}

	typed := func(kind string, needID bool) map[string]interface{} {
		o := map[string]interface{}{"type": kind}
		if v == 1 || needID || r.Intn(3) != 0 { // data model 1.1 demands an id
			o["id"] = "https://" + strings.ToLower(kind) + ".example/" + SafeStr(r)
		}

		for i, k := 0, r.Intn(3); i < k; i++ {
			o[Name(r, i)] = Val(r, 1, false)
		}

		return o
	}

	list := func(kind string, max int) interface{} {
		n := r.Intn(max + 1)
		if n == 0 {
			return typed(kind, false)
		}

		var l []interface{}
		for i := 0; i < n; i++ {
			l = append(l, typed(kind, false))
		}

		return l
	}

	if r.Intn(2) == 0 {
		d["credentialStatus"] = list("CustomStatus2099", 3)
		if v == 1 { // one status object in data model 1.1
			d["credentialStatus"] = typed("CustomStatus2099", true)
		}
	}

	if r.Intn(3) == 0 {
		d["credentialSchema"] = list("CustomSchema2099", 3)
	}

	if r.Intn(3) == 0 {
		d["termsOfUse"] = list("IssuerPolicy", 3)
	}

	if r.Intn(3) == 0 {
		d["evidence"] = list("DocumentVerification", 2)
	}

	if r.Intn(4) == 0 {
		d["refreshService"] = typed("ManualRefreshService2018", false)
	}

	if r.Intn(4) == 0 {
		var l []interface{}

		for i, n := 0, 1+r.Intn(3); i < n; i++ {
			res := map[string]interface{}{"id": fmt.Sprintf("https://res%d.example/%s", i, SafeStr(r))}
			if r.Intn(2) == 0 {
				res["digestSRI"] = "sha256-" + SafeStr(r)
			}

			if len(res) == 1 || r.Intn(3) == 0 {
				res["digestMultibase"] = "u" + SafeStr(r)
			}

			if r.Intn(2) == 0 {
				res["mediaType"] = "application/json"
			}

			l = append(l, res)
		}

		d["relatedResource"] = l
	}

	if r.Intn(3) == 0 { // fractions and unusual offsets must survive
		for _, f := range []string{"issuanceDate", "expirationDate", "validFrom", "validUntil"} {
			if d[f] != nil && form == "json" {
				d[f] = Pick(r, "2021-03-04T05:06:07.125Z", "2021-03-04T05:06:07+13:45", "2021-03-04T05:06:07.5-08:00", "1999-12-31T23:59:59Z")
			}
		}
	}

	if form == "json" && r.Intn(3) == 0 {
		p := func() interface{} {
			return map[string]interface{}{"type": "Ed25519Signature2018", "created": Time(r), "proofPurpose": "assertionMethod",
				"verificationMethod": iss.DID + "#x", "jws": "e30.." + SafeStr(r), "extra": Val(r, 1, false)}
		}

		switch r.Intn(3) {
		case 0:
			d["proof"] = p()
		case 1:
			d["proof"] = []interface{}{p()}
		default:
			d["proof"] = []interface{}{p(), p()}
		}
	}

	for i, k := 0, r.Intn(3); i < k; i++ {
		d[Pick(r, "name", "description", "ключ", "x-y", "with space", "holder", "nonTransferable", "alt.dot")] = Val(r, 3, false)
	}

	return d
}

func AsList(v interface{}) []interface{} {
	switch x := v.(type) {
	case nil:
		return nil
	case []interface{}:
		return x
	default:
		return []interface{}{x}
	}
}

func Without(m map[string]interface{}, ks ...string) map[string]interface{} {
	o := map[string]interface{}{}

outer:
	for k, v := range m {
		for _, x := range ks {
			if k == x {
				continue outer
			}
		}

		o[k] = v
	}

	return o
}

func AsStr(v interface{}) string {
	s, _ := v.(string)
	return s
}

// Model reads a document independently into the reported contents, as plain JSON.
func Model(d map[string]interface{}) map[string]interface{} {
	m := map[string]interface{}{"id": AsStr(d["id"]), "types": AsList(d["type"]), "evidence": d["evidence"]}

	var cs, cc []interface{}

	for _, c := range AsList(d["@context"]) {
		if _, ok := c.(string); ok && cc == nil {
			cs = append(cs, c)
		} else {
			cc = append(cc, c)
		}
	}

	m["context"], m["custom"] = cs, cc

	switch i := d["issuer"].(type) {
	case string:
		m["issuer"] = map[string]interface{}{"id": i, "rest": map[string]interface{}{}}
	case map[string]interface{}:
		m["issuer"] = map[string]interface{}{"id": i["id"], "rest": Without(i, "id")}
	}

	for name, fld := range map[string]string{"subject": "credentialSubject", "status": "credentialStatus", "schemas": "credentialSchema",
		"terms": "termsOfUse", "refresh": "refreshService"} {
		l := []interface{}{}

		for _, e := range AsList(d[fld]) {
			switch o := e.(type) {
			case string:
				l = append(l, map[string]interface{}{"id": o, "rest": map[string]interface{}{}})
			case map[string]interface{}:
				x := map[string]interface{}{"id": AsStr(o["id"]), "rest": Without(o, "id")}
				if name != "subject" {
					x["type"], x["rest"] = AsStr(o["type"]), Without(o, "id", "type")
				}

				l = append(l, x)
			}
		}

		m[name] = l
	}

	l := []interface{}{}
	for _, e := range AsList(d["relatedResource"]) {
		l = append(l, e)
	}

	m["resources"] = l

	first := func(ks ...string) interface{} {
		for _, k := range ks {
			if d[k] != nil {
				return d[k]
			}
		}

		return ""
	}

	m["issued"], m["expired"] = first("issuanceDate", "validFrom"), first("expirationDate", "validUntil")

	return Norm(m).(map[string]interface{})
}

func restOf(cf verifiable.CustomFields) interface{} {
	if cf == nil {
		return map[string]interface{}{}
	}

	return map[string]interface{}(cf)
}

// Reported turns contents into the same shape.
func Reported(c verifiable.CredentialContents) map[string]interface{} {
	m := map[string]interface{}{"id": c.ID, "types": c.Types, "evidence": c.Evidence, "context": c.Context, "custom": c.CustomContext}
	if len(c.CustomContext) == 0 {
		m["custom"] = nil
	}

	if c.Issuer != nil {
		m["issuer"] = map[string]interface{}{"id": c.Issuer.ID, "rest": restOf(c.Issuer.CustomFields)}
	}

	subj, status, schemas, terms, refresh, res := []interface{}{}, []interface{}{}, []interface{}{}, []interface{}{}, []interface{}{}, []interface{}{}
	for _, s := range c.Subject {
		subj = append(subj, map[string]interface{}{"id": s.ID, "rest": restOf(s.CustomFields)})
	}

	tid := func(t verifiable.TypedID) interface{} {
		return map[string]interface{}{"id": t.ID, "type": t.Type, "rest": restOf(t.CustomFields)}
	}

	for _, s := range c.Status {
		status = append(status, tid(*s))
	}

	for _, s := range c.Schemas {
		schemas = append(schemas, tid(s))
	}

	for _, s := range c.TermsOfUse {
		terms = append(terms, tid(s))
	}

	if c.RefreshService != nil {
		refresh = append(refresh, tid(*c.RefreshService))
	}

	for _, s := range c.RelatedResources {
		o := map[string]interface{}{"id": s.Id}
		for k, v := range map[string]string{"digestSRI": s.DigestSRI, "digestMultibase": s.DigestMultiBase, "mediaType": s.MediaType} {
			if v != "" {
				o[k] = v
			}
		}

		res = append(res, o)
	}

	m["subject"], m["status"], m["schemas"], m["terms"], m["refresh"], m["resources"] = subj, status, schemas, terms, refresh, res
	ts := func(t *time.TimeWrapper) string {
		if t == nil {
			return ""
		}

		return t.FormatToString()
	}
	m["issued"], m["expired"] = ts(c.Issued), ts(c.Expired)

	return Norm(m).(map[string]interface{})
}

// Canon erases the representation choices the data model leaves open.
func Canon(d map[string]interface{}) map[string]interface{} {
	o := CloneM(d)
	for _, k := range []string{"type", "credentialSubject", "credentialStatus", "credentialSchema", "termsOfUse", "@context", "proof", "refreshService",
		"verifiableCredential"} {
		if o[k] != nil {
			o[k] = AsList(o[k])
		}
	}

	for _, k := range []string{"issuer", "holder"} {
		if m, ok := o[k].(map[string]interface{}); ok && len(m) == 1 && m["id"] != nil {
			o[k] = m["id"]
		}
	}

	if l, ok := o["credentialSubject"].([]interface{}); ok {
		for i, s := range l {
			if id, ok := s.(string); ok {
				l[i] = map[string]interface{}{"id": id}
			}
		}
	}

	return o
}

func (w *World) Lax() []verifiable.CredentialOpt {
	return []verifiable.CredentialOpt{verifiable.WithDisabledRelatedResourceCheck(), verifiable.WithDisabledProofCheck(), verifiable.WithCredDisableValidation(), verifiable.WithJSONLDDocumentLoader(w.Loader)}
}

// Token makes a credential token of a form.
func (w *World) Token(r *rand.Rand, form string, d map[string]interface{}) interface{} {
	iss := w.Ents["issuer"]
	switch form {
	case "jwt":
		return w.JWTCred(iss, Pick(r, JWTAlgs...), d)
	case "jwt-code":
		k := iss.Keys[Pick(r, JWTAlgs...)]

		vc, err := w.ParseVC(d).CreateSignedJWTVC(r.Intn(2) == 0, k.JWSAlg(), w.Creator(iss), k.ID)
		if err != nil {
			panic(fmt.Sprintf("CreateSignedJWTVC: %v", err))
		}

		s, err := vc.ToJWTString()
		if err != nil {
			panic(fmt.Sprintf("ToJWTString: %v", err))
		}

		return s
	case "cwt":
		return w.CWTCred(iss, Pick(r, cwtAlgs...), d)
	case "unsecured":
		return B64(J(map[string]interface{}{"alg": "none"})) + "." + B64(J(map[string]interface{}{"iss": iss.DID, "vc": d})) + "."
	default:
		alg := Pick(r, JWTAlgs...)
		ver := Pick(r, common.SDJWTVersionV2, common.SDJWTVersionV5)

		return w.SDJWTCred(iss, alg, d, verifiable.MakeSDJWTWithVersion(ver))
	}
}

// FullVP makes a presentation document.
func (w *World) FullVP(r *rand.Rand, v int, tokenForm bool) map[string]interface{} {
	base := CtxV1
	if v == 2 {
		base = CtxV2
	}

	d := map[string]interface{}{"@context": []interface{}{base, CtxVerif}, "type": []interface{}{"VerifiablePresentation"}}
	if r.Intn(3) == 0 {
		d["@context"] = append(d["@context"].([]interface{}), map[string]interface{}{"inline": "https://inline.example/#" + SafeStr(r)})
	}

	switch r.Intn(4) {
	case 0:
		d["type"] = []interface{}{"VerifiablePresentation", "AlphaPresentation", "BetaPresentation"}
	case 1:
		d["type"] = "VerifiablePresentation"
	}

	if r.Intn(4) != 0 {
		d["id"] = "urn:uuid:" + SafeStr(r)
	}

	switch r.Intn(3) {
	case 0:
		d["holder"] = w.Ents["holder"].DID
	case 1:
		d["holder"] = map[string]interface{}{"id": w.Ents["holder"].DID, "name": SafeStr(r), "given1": Val(r, 1, false)}
	default:
		if tokenForm {
			d["holder"] = w.Ents["holder"].DID
		}
	}

	var cs []interface{}

	for i, n := 0, r.Intn(4); i < n; i++ {
		form := Pick(r, "json", "json", "jwt", "cwt", "sdjwt")
		cd := w.FullDoc(r, v, form)
		if form != "json" { // string credentials of a presentation always have their resources fetched
			delete(cd, "relatedResource")
		}

		if form == "sdjwt" {
			if l, ok := cd["credentialSubject"].([]interface{}); ok {
				cd["credentialSubject"] = l[0]
			}

			if v == 2 {
				cd["validFrom"] = "2021-05-06T07:08:09Z"
			}
		}

		if form == "json" {
			if l, ok := cd["proof"].([]interface{}); ok && len(l) == 1 {
				cd["proof"] = l[0]
			}

			cs = append(cs, cd)
		} else {
			cs = append(cs, EmbedForm(r, form, w.Token(r, form, cd), v == 2))
		}
	}

	switch {
	case len(cs) == 1 && r.Intn(2) == 0:
		d["verifiableCredential"] = cs[0]
	case len(cs) > 0:
		d["verifiableCredential"] = cs
	}

	if !tokenForm && r.Intn(3) == 0 {
		p := func() interface{} {
			return map[string]interface{}{"type": "Ed25519Signature2018", "created": Time(r), "proofPurpose": "authentication",
				"verificationMethod": w.Ents["holder"].DID + "#x", "jws": "e30.." + SafeStr(r)}
		}
		if r.Intn(2) == 0 {
			d["proof"] = p()
		} else {
			d["proof"] = []interface{}{p(), p()}
		}
	}

	for i, k := 0, r.Intn(3); i < k; i++ {
		d[Pick(r, "custom0", "name", "ключ", "presentation_submission")] = Val(r, 3, false)
	}

	return d
}

func (w *World) LaxVP() []verifiable.PresentationOpt {
	return []verifiable.PresentationOpt{verifiable.WithPresDisabledProofCheck(), verifiable.WithDisabledJSONLDChecks(),
		verifiable.WithPresJSONLDDocumentLoader(w.Loader)}
}
