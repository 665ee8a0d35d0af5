// C10: parsing and serialising credentials and presentations loses nothing.
package main

import (
	"crypto"
	"encoding/hex"
	"fmt"
	"math/rand"
	"reflect"
	"strings"

	ldprocessor "github.com/trustbloc/did-go/doc/ld/processor"

	"github.com/trustbloc/vc-go/verifharness/vh"
	"github.com/trustbloc/vc-go/verifiable"
)

var w *vh.World

var cwtAlgs = []string{"EdDSA", "ES256", "ES384", "RS256", "PS256"}

func main() {
	vh.Main(vh.Spec{
		ID: "C10",
		Rule: "random credential or presentation of either data model (inline contexts, string types, subject/status/schema/terms/evidence/resource lists, " +
			"issuer and holder objects, embedded proofs, custom members) in JSON, JWT (signed and unsecured), SD-JWT, CWT and enveloped form; " +
			"parse, compare every accessor with an independent reading of the document, marshal, parse again; and rebuild from structured contents. " +
			"Distinct: (form, version, set of optional members).",
		Level: "exploration",
		Require: map[string]int64{"json.roundtrip": 1500, "token.roundtrip": 1200, "contents": 2500, "created": 800, "created.signed": 60,
			"vp.roundtrip": 900, "vp.token": 600},
		Assumptions: []string{"numbers are IEEE doubles (Go's encoding/json)"},
		Run:         run,
	})
}

// keyOf summarises a document for distinctness.
func keyOf(form string, v int, d map[string]interface{}) string {
	var s []string

	for _, k := range []string{"credentialStatus", "credentialSchema", "termsOfUse", "evidence", "refreshService", "relatedResource", "proof",
		"credentialSubject", "issuer", "type", "verifiableCredential", "holder"} {
		switch x := d[k].(type) {
		case nil:
		case []interface{}:
			s = append(s, fmt.Sprintf("%s[%d]", k[:4], len(x)))
		case string:
			s = append(s, k[:4]+"$")
		default:
			s = append(s, k[:4])
		}
	}

	return fmt.Sprintf("%s/v%d/%s", form, v, strings.Join(s, ","))
}

type cOpt = verifiable.CredentialOpt

// accessors compares everything a credential reports with its document.
func accessors(c *vh.Check, tag string, vc *verifiable.Credential, d map[string]interface{}) {
	c.Count("contents", 1)

	if diff := vh.Diff(model(d), reported(vc.Contents())); diff != "" {
		c.Violate("contents:"+tag, "Contents() disagrees with the document at "+diff, string(vh.J(d)))
	}

	if diff := vh.Diff(vh.Norm(d), vh.Norm(vc.ToRawJSON())); diff != "" && vh.Diff(unitProof(d), vh.Norm(vc.ToRawJSON())) != "" {
		c.Violate("raw:"+tag, "ToRawJSON differs from the document at "+diff, string(vh.J(d)))
	}

	var proofs []interface{}
	for _, p := range vc.Proofs() {
		proofs = append(proofs, map[string]interface{}(p))
	}

	if diff := vh.Diff(vh.Norm(asList(d["proof"])), vh.Norm(proofs)); diff != "" {
		c.Violate("proofs:"+tag, "Proofs() differs from the document at "+diff, string(vh.J(d)))
	}

	for _, k := range vh.SortedKeys(d) {
		if k == "proof" {
			continue
		}

		if diff := vh.Diff(vh.Norm(d[k]), vh.Norm(vc.CustomField(k))); diff != "" {
			c.Violate("customfield:"+tag, fmt.Sprintf("CustomField(%q) differs at %s", k, diff), string(vh.J(d)))
		}
	}

	if v := vc.CustomField("no such member"); v != nil {
		c.Violate("customfield:"+tag, "CustomField of an absent member is not nil", fmt.Sprint(v))
	}
}

// unitProof gives the document with a one-element proof list as the proof itself (the same set of proofs).
func unitProof(d map[string]interface{}) interface{} {
	if l, ok := d["proof"].([]interface{}); ok && len(l) == 1 {
		d = without(d, "proof")
		d["proof"] = l[0]
	}

	return vh.Norm(d)
}

// shared with other checks
var (
	asList, without, str, model, reported, canon = vh.AsList, vh.Without, vh.AsStr, vh.Model, vh.Reported, vh.Canon
)

func doc(r *rand.Rand, v int, form string) map[string]interface{} {
	d := w.FullDoc(r, v, form)
	for r.Intn(2) == 0 {
		odd(r, d, form)
	}

	return d
}

// odd adds something rare a document may hold.
func odd(r *rand.Rand, d map[string]interface{}, form string) {
	objects := func(ks ...string) (l []map[string]interface{}) {
		for _, k := range ks {
			for _, e := range asList(d[k]) {
				if o, ok := e.(map[string]interface{}); ok {
					l = append(l, o)
				}
			}
		}

		return l
	}

	member := func(o map[string]interface{}) {
		if o["given"] == nil {
			o[vh.Pick(r, "@context", "@type", "types", "ID", "Id", "Type", "name", "type", "description", "", "proof", "credentialSubject", "customFields", "a.b", "é")] =
				vh.Pick[interface{}](r, "x", "https://ctx.example/"+vh.SafeStr(r), true, 0.0, "", nil, []interface{}{}, []interface{}{"a"}, []interface{}{nil},
					map[string]interface{}{}, map[string]interface{}{"id": "n", "type": []interface{}{"T"}})
		}
	}

	switch r.Intn(10) {
	case 9:
		if s, ok := d["issuer"].(string); ok {
			d["issuer"] = map[string]interface{}{"id": s, "type": "Organization"}
		}
	case 0:
		d["type"] = vh.Pick(r, []interface{}{"VerifiableCredential", "VerifiableCredential"}, []interface{}{"VerifiableCredential", "B", "B"},
			[]interface{}{"VerifiableCredential"}, []interface{}{"B", "VerifiableCredential", "A"})
	case 1:
		if l := objects("credentialStatus", "credentialSchema", "termsOfUse", "refreshService"); len(l) > 0 {
			o := l[r.Intn(len(l))]
			t := o["type"]
			member(o)
			o["type"] = t
		}
	case 2:
		if o, ok := d["issuer"].(map[string]interface{}); ok {
			member(o)

			if r.Intn(2) == 0 {
				o[vh.Pick(r, "type", "name", "image")] = vh.SafeStr(r)
			}
		}
	case 3:
		if l := objects("credentialSubject"); len(l) > 0 {
			o := l[r.Intn(len(l))]
			member(o)

			for k, v := range o { // displaying an SD-JWT leaves empty objects out
				if m, ok := v.(map[string]interface{}); ok && len(m) == 0 && form == "sdjwt" {
					o[k] = "x"
				}
			}
		}
	case 4: // plain contexts after inline ones
		if l, ok := d["@context"].([]interface{}); ok {
			inline := map[string]interface{}{"more": "https://inline.example/#" + vh.SafeStr(r)}
			d["@context"] = append(append(append([]interface{}{}, l...), inline), vh.Pick[interface{}](r, "https://late.example/v1", l[0], inline))
		}
	case 5:
		if form != "sdjwt" && form != "jwt-code" && form != "jwt" { // numeric dates have whole seconds
			for _, f := range []string{"issuanceDate", "expirationDate", "validFrom", "validUntil"} {
				if d[f] != nil {
					d[f] = vh.Pick(r, "2021-03-04T05:06:07.123456789Z", "2021-03-04T05:06:07.12Z", "2021-03-04T05:06:07.000001+02:00", "2021-03-04T05:06:07-00:30",
						"2021-03-04T00:00:00.9Z", "0999-03-04T05:06:07Z", "9999-12-31T23:59:59Z", "2021-03-04T05:06:07.120Z", "2021-03-04T05:06:07+00:00")
				}
			}
		}
	case 6:
		if d["id"] != nil {
			d["id"] = vh.Pick(r, "credential-1", "https://a.example/?q=1#x", "x y", "ü")
		}
	case 7: // entries that share their id
		if l := objects(vh.Pick(r, "credentialStatus", "credentialSchema", "termsOfUse")); len(l) > 1 {
			l[1]["id"] = l[0]["id"]
			if l[0]["id"] == nil {
				delete(l[1], "id")
			}
		}
	default:
		if l := objects("relatedResource"); len(l) > 0 {
			l[r.Intn(len(l))]["mediaType"] = vh.Pick(r, "Application/JSON", "text/plain; charset=UTF-8", "x")
		}
	}
}
func vpdoc(r *rand.Rand, v int, tok bool) map[string]interface{} { return w.FullVP(r, v, tok) }
func token(r *rand.Rand, form string, d map[string]interface{}) interface{} {
	return w.Token(r, form, d)
}
func lax() []cOpt                         { return w.Lax() }
func laxVP() []verifiable.PresentationOpt { return w.LaxVP() }

func run(c *vh.Check) {
	w = vh.NewWorld("issuer", "holder")
	w.PrepareLD()

	c.Cases("json", c.N(1600, 40000), func(r *rand.Rand, i int) { jsonCase(c, r) })
	c.Cases("token", c.N(1500, 30000), func(r *rand.Rand, i int) { tokenCase(c, r) })
	c.Cases("create", c.N(1000, 25000), func(r *rand.Rand, i int) { createCase(c, r) })
	c.Cases("vp", c.N(1000, 25000), func(r *rand.Rand, i int) { vpCase(c, r) })
	c.Cases("dataurl", c.N(300, 4000), func(r *rand.Rand, i int) { dataURL(c, r) })
	c.Cases("vptoken", c.N(900, 20000), func(r *rand.Rand, i int) { vpTokenCase(c, r) })
}

func jsonCase(c *vh.Check, r *rand.Rand) {
	v := 1 + r.Intn(2)
	d := doc(r, v, "json")
	c.Eval(keyOf("json", v, d))

	b := vh.J(d)

	var (
		vc  *verifiable.Credential
		err error
	)

	entry := vh.Pick(r, "bytes", "object")
	if entry == "bytes" {
		vc, err = verifiable.ParseCredential(b, lax()...)
	} else {
		vc, err = verifiable.ParseCredentialJSON(vh.CloneM(d), lax()...)
	}

	if !c.Expect(err == nil, "parse:json", "a credential document was refused", func() string { return fmt.Sprintf("%v: %s", err, b) }()) {
		return
	}

	accessors(c, "json", vc, d)
	c.Expect(!vc.IsJWT() && !vc.IsCWT(), "kind:json", "a JSON credential claims to be a token", string(b))

	for _, m := range []struct {
		n string
		f func() ([]byte, error)
	}{{"MarshalJSON", vc.MarshalJSON}, {"MarshalAsJSONLD", vc.MarshalAsJSONLD}} {
		out, err := m.f()
		if !c.Expect(err == nil, "marshal:json", m.n+" failed", fmt.Sprint(err)) {
			return
		}

		om := vh.M(out)
		if diff := vh.Diff(unitProof(d), unitProof(om)); diff != "" {
			c.Violate("roundtrip:json:"+m.n, "marshalled document differs at "+diff, string(b))
		}

		vc2, err := verifiable.ParseCredential(out, lax()...)
		if !c.Expect(err == nil, "reparse:json", "marshalled credential was refused", fmt.Sprintf("%v: %s", err, out)) {
			return
		}

		if diff := vh.Diff(reported(vc.Contents()), reported(vc2.Contents())); diff != "" {
			c.Violate("stable:json", "contents change over marshal and parse at "+diff, string(b))
		}

		c.Expect(reflect.DeepEqual(vc.Proofs(), vc2.Proofs()), "stable:json:proofs", "proofs change over marshal and parse", string(b))
	}

	c.Count("json.roundtrip", 1)
	c.Sample(fmt.Sprint("json via ", entry, ": ", vh.SortedKeys(d)))
}

func tokenCase(c *vh.Check, r *rand.Rand) {
	v := 1 + r.Intn(2)
	form := vh.Pick(r, "jwt", "jwt-code", "cwt", "sdjwt", "unsecured")
	d := doc(r, v, form)

	if form == "sdjwt" || form == "jwt-code" {
		if l, ok := d["credentialSubject"].([]interface{}); ok {
			d["credentialSubject"] = l[0]
		}

		delete(d, "validFrom")
		delete(d, "validUntil")
		if v == 1 {
			d["issuanceDate"] = "2021-05-06T07:08:09Z"
			delete(d, "expirationDate")
		} else {
			d["validFrom"] = "2021-05-06T07:08:09Z"
		}
	}

	tok := token(r, form, d)
	env := v == 2 && form != "unsecured" && r.Intn(2) == 0
	kind := map[string]string{"jwt": "jwt", "jwt-code": "jwt", "sdjwt": "sdjwt", "cwt": "cwt"}[form]

	var in []byte

	how := "plain"

	switch {
	case env:
		in, how = vh.J(vh.EmbedForm(r, kind, tok, true)), "enveloped"
	case form == "cwt" && r.Intn(2) == 0:
		in, how = tok.([]byte), "binary"
	case form == "cwt":
		in, how = []byte(hex.EncodeToString(tok.([]byte))), "hex"
		if r.Intn(2) == 0 {
			in = []byte(`"` + string(in) + `"`)
		}
	default:
		in = []byte(tok.(string))
		if r.Intn(2) == 0 {
			in, how = vh.J(tok), "quoted"
		}
	}

	c.Eval(keyOf(form+"-"+how, v, d))

	vc, err := verifiable.ParseCredential(in, lax()...)
	if !c.Expect(err == nil, "parse:"+form, "a credential token was refused", fmt.Sprintf("%v: %s: %s", err, how, vh.J(d))) {
		return
	}

	want := d

	if form == "sdjwt" { // the document with the disclosed claims put back
		disp, err := vc.CreateDisplayCredential(verifiable.DisplayAllDisclosures())
		if !c.Expect(err == nil, "display:sdjwt", "display credential failed", fmt.Sprint(err)) {
			return
		}

		if diff := vh.Diff(canonSD(d), canonSD(vh.Norm(disp.ToRawJSON()).(map[string]interface{}))); diff != "" {
			c.Violate("roundtrip:sdjwt", "disclosed credential differs from the issued document at "+diff, string(vh.J(d)))
		}
	} else {
		if form == "jwt-code" || form == "jwt" { // the issuer object may be compacted to the same issuer
			if diff := vh.Diff(vh.Norm(canon(d)), canon(vh.Norm(vc.ToRawJSON()).(map[string]interface{}))); diff != "" {
				c.Violate("roundtrip:"+form, "decoded credential differs from the signed one at "+diff, string(vh.J(d)))
			}

			want = vh.Norm(vc.ToRawJSON()).(map[string]interface{})
		}

		accessors(c, form, vc, want)
	}

	c.Expect(vc.IsJWT() == (form == "jwt" || form == "jwt-code" || form == "sdjwt"), "kind:"+form, "IsJWT is wrong", "")
	c.Expect(vc.IsCWT() == (form == "cwt"), "kind:"+form, "IsCWT is wrong", "")

	out, err := vc.MarshalJSON()
	if !c.Expect(err == nil, "marshal:"+form, "MarshalJSON failed", fmt.Sprint(err)) {
		return
	}

	// the token itself must come out, in the representation of the data model
	var carried string

	if form != "unsecured" {
		if v == 1 {
			if err := vh.UnJ(out, &carried); err != nil {
				c.Violate("form:"+form, "marshalled token is not a JSON string", string(out))
				return
			}
		} else {
			var e map[string]interface{}
			if err := vh.UnJ(out, &e); err != nil {
				c.Violate("form:"+form, "marshalled token is not an envelope", string(out))
				return
			}

			mt, data, _ := strings.Cut(strings.TrimPrefix(str(e["id"]), "data:"), ",")
			wantMT := map[string]string{"jwt": "application/vc-ld+jwt", "sdjwt": "application/vc-ld+sd-jwt", "cwt": "application/vc-ld+cose"}[kind]
			if kind == "sdjwt" && len(vc.SDJWTDisclosures()) == 0 {
				wantMT = "application/vc-ld+jwt"
			}

			c.Expect(mt == wantMT && fmt.Sprint(asList(e["type"])) == "[EnvelopedVerifiableCredential]" &&
				fmt.Sprint(asList(e["@context"])) == "["+vh.CtxV2+"]", "form:"+form, "wrong envelope", string(out))
			carried = data
		}

		same := false

		switch form {
		case "cwt":
			same = carried == hex.EncodeToString(tok.([]byte))
		case "sdjwt":
			same = sameParts(carried, tok.(string))
		default:
			same = carried == tok.(string)
		}

		c.Expect(same, "token:"+form, "marshalling does not give the parsed token back", fmt.Sprintf("%v\n%s", tok, carried))
	}

	vc2, err := verifiable.ParseCredential(out, lax()...)
	if !c.Expect(err == nil, "reparse:"+form, "marshalled credential was refused", fmt.Sprintf("%v: %s", err, out)) {
		return
	}

	if diff := vh.Diff(reported(vc.Contents()), reported(vc2.Contents())); diff != "" {
		c.Violate("stable:"+form, "contents change over marshal and parse at "+diff, string(out))
	}

	if diff := vh.Diff(vh.Norm(vc.ToRawJSON()), vh.Norm(vc2.ToRawJSON())); diff != "" {
		c.Violate("stable:"+form, "document changes over marshal and parse at "+diff, string(out))
	}

	if form != "unsecured" {
		c.Expect(vc.IsJWT() == vc2.IsJWT() && vc.IsCWT() == vc2.IsCWT(), "stable:kind:"+form, "token kind changes over marshal and parse", string(out))
	}

	c.Expect(discSet(vc) == discSet(vc2), "stable:disclosures", "disclosures change over marshal and parse", string(out))
	c.Count("token.roundtrip", 1)

	if vc.IsCWT() {
		raw, err := vc.MarshalAsCWTLD()
		hx, err2 := vc.MarshalAsCWTLDHex()
		c.Expect(err == nil && err2 == nil && string(raw) == string(tok.([]byte)) && hx == hex.EncodeToString(raw), "cwt:marshal",
			"MarshalAsCWTLD does not give the parsed message back", fmt.Sprint(err, err2))
	}
}

func discSet(vc *verifiable.Credential) string {
	m := map[string]bool{}
	for _, d := range vc.SDJWTDisclosures() {
		m[d.Disclosure] = true
	}

	return strings.Join(vh.SortedKeys(m), "~")
}

func sameParts(a, b string) bool {
	pa, pb := strings.Split(strings.TrimSuffix(a, "~"), "~"), strings.Split(strings.TrimSuffix(b, "~"), "~")
	if pa[0] != pb[0] || len(pa) != len(pb) {
		return false
	}

	m := map[string]bool{}
	for _, x := range pa {
		m[x] = true
	}

	for _, x := range pb {
		if !m[x] {
			return false
		}
	}

	return true
}

// canonSD removes what issuing as SD-JWT legitimately adds.
func canonSD(d map[string]interface{}) map[string]interface{} {
	o := canon(vh.Norm(d).(map[string]interface{}))
	delete(o, "_sd_alg")

	for _, s := range o["credentialSubject"].([]interface{}) {
		if m, ok := s.(map[string]interface{}); ok {
			delete(m, "_sd_alg")
		}
	}

	return o
}

var std = []string{"@context", "id", "type", "credentialSubject", "proof", "credentialStatus", "issuer", "credentialSchema", "evidence", "refreshService",
	"relatedResource", "termsOfUse", "issuanceDate", "expirationDate", "validFrom", "validUntil"}

// dataURL: the parts an enveloping identifier is made of are the parts read from it; what is no such identifier is refused.
func dataURL(c *vh.Check, r *rand.Rand) {
	mt := verifiable.MediaType(vh.Pick(r, string(verifiable.VCMediaTypeJWT), string(verifiable.VCMediaTypeSDJWT), string(verifiable.VCMediaTypeCOSE), string(verifiable.VPMediaTypeJWT),
		string(verifiable.VPMediaTypeCOSE), "text/plain", "x"))
	enc := verifiable.Encoding(vh.Pick(r, "", "", "base64"))
	data := vh.Pick(r, "", ",", "a,b;c,d", "data:,x", ";base64,", vh.SafeStr(r), "a.b.c~d~", strings.Repeat(vh.SafeStr(r), 200), "\n \u00e9%2C")
	u := verifiable.NewDataURL(mt, enc, data)

	m2, e2, d2, err := verifiable.ParseDataURL(u)
	c.Expect(err == nil && m2 == mt && e2 == enc && d2 == data, "dataurl", fmt.Sprintf("%q is read as %q %q %q (%v)", u, m2, e2, d2, err), u)

	bad := vh.Pick(r, u[1:], " "+u, strings.ToUpper(u[:4])+u[4:], strings.TrimPrefix(u, "data:"), "data:"+strings.ReplaceAll(u[5:], ",", ""), "data:,"+data, "")
	if strings.HasPrefix(bad, "data:") && strings.Contains(bad, ",") && !strings.HasPrefix(bad, "data:,") {
		return
	}

	_, _, _, err = verifiable.ParseDataURL(bad)
	c.Expect(err != nil, "dataurl:bad", fmt.Sprintf("%q is read as a data URL", bad), bad)
	c.Eval(fmt.Sprintf("dataurl|%s|%s|%d", mt, enc, len(data)))
}

// sdAlg: the hash algorithm of the disclosures is part of the contents; only those SD-JWTs use can be written.
func sdAlg(c *vh.Check, r *rand.Rand, src *verifiable.Credential, custom verifiable.CustomFields, d map[string]interface{}) {
	names := map[crypto.Hash]string{crypto.SHA256: "sha-256", crypto.SHA384: "sha-384", crypto.SHA512: "sha-512"}
	h := vh.Pick(r, crypto.SHA256, crypto.SHA384, crypto.SHA512, crypto.SHA1, crypto.MD5, crypto.SHA512_256, crypto.SHA3_256, crypto.Hash(0))
	ct := src.Contents()
	ct.SDJWTHashAlg = &h

	vc, err := verifiable.CreateCredential(ct, custom)
	if names[h] == "" {
		c.Expect(err != nil, "create:sd-alg:foreign", fmt.Sprintf("a credential with hash algorithm %d was created", int(h)), string(vh.J(d)))

		return
	}

	if !c.Expect(err == nil, "create:sd-alg", "creating a credential with "+names[h]+" failed", fmt.Sprint(err)) {
		return
	}

	raw := vc.ToRawJSON()
	c.Expect(raw["_sd_alg"] == names[h], "create:sd-alg:name", fmt.Sprintf("%s is written as %v", names[h], raw["_sd_alg"]), string(vh.J(d)))

	got := vc.Contents().SDJWTHashAlg
	c.Expect(got != nil && *got == h, "create:sd-alg:contents", "the contents report another hash algorithm", string(vh.J(d)))
	c.Count("created.sdalg", 1)

	delete(raw, "_sd_alg")

	e := without(d, "proof")
	if diff := vh.Diff(canon(vh.Norm(e).(map[string]interface{})), canon(vh.Norm(map[string]interface{}(raw)).(map[string]interface{}))); diff != "" {
		c.Violate("create:sd-alg:document", "the created document differs from the parsed one at "+diff, string(vh.J(d)))
	}
}

func createCase(c *vh.Check, r *rand.Rand) {
	v := 1 + r.Intn(2)
	d := doc(r, v, "json")
	c.Eval(keyOf("create", v, d))

	src := w.ParseVC(d)
	custom := verifiable.CustomFields(without(d, std...))

	var (
		vc  *verifiable.Credential
		err error
	)

	if d["proof"] != nil {
		vc, err = verifiable.CreateCredentialWithProofs(src.Contents(), custom, src.Proofs())
	} else {
		vc, err = verifiable.CreateCredential(src.Contents(), custom)
	}

	if !c.Expect(err == nil, "create", "creating a credential from contents failed", fmt.Sprint(err)) {
		return
	}

	c.Count("created", 1)
	sdAlg(c, r, src, custom, d)

	raw := vc.ToRawJSON()
	if diff := vh.Diff(canon(vh.Norm(d).(map[string]interface{})), canon(vh.Norm(raw).(map[string]interface{}))); diff != "" {
		c.Violate("create:document", "the created document differs from the parsed one at "+diff, string(vh.J(d)))
	}

	if diff := vh.Diff(model(d), reported(vc.Contents())); diff != "" {
		c.Violate("create:contents", "contents of the created credential differ at "+diff, string(vh.J(d)))
	}

	// the document as Go value and as bytes parses to the same credential
	for _, how := range []string{"object", "bytes"} {
		var vc2 *verifiable.Credential
		if how == "object" {
			vc2, err = verifiable.ParseCredentialJSON(vc.ToRawJSON(), lax()...)
		} else {
			out, merr := vc.MarshalJSON()
			if !c.Expect(merr == nil, "create:marshal", "MarshalJSON failed", fmt.Sprint(merr)) {
				return
			}

			vc2, err = verifiable.ParseCredential(out, lax()...)
		}

		if !c.Expect(err == nil, "create:reparse:"+how, "the created document was refused", fmt.Sprintf("%v: %s", err, vh.J(raw))) {
			continue
		}

		if diff := vh.Diff(reported(vc.Contents()), reported(vc2.Contents())); diff != "" {
			c.Violate("create:stable:"+how, "contents change over parse at "+diff, string(vh.J(d)))
		}

		c.Expect(len(vc2.Proofs()) == len(vc.Proofs()), "create:proofs", "proofs are lost", string(vh.J(d)))
	}

	if r.Intn(6) != 0 {
		return
	}

	// an LD-safe document: the created credential can be signed and then verifies
	ld := vh.Cred(r, vh.CredOpts{V: v, Issuer: w.Ents["issuer"].DID, LDSafe: true})
	for _, fk := range [][2]string{{"credentialStatus", "CustomStatus2099"}, {"termsOfUse", "IssuerPolicy"}} {
		f, kind := fk[0], fk[1]

		if v == 1 && f == "credentialStatus" {
			continue
		}

		var l []interface{}
		for i, n := 0, 1+r.Intn(3); i < n; i++ {
			l = append(l, map[string]interface{}{"id": "https://x.example/" + vh.SafeStr(r), "type": kind})
		}

		ld[f] = l
	}

	src = w.ParseVC(ld)

	vc, err = verifiable.CreateCredential(src.Contents(), verifiable.CustomFields(without(ld, std...)))
	if !c.Expect(err == nil, "create", "creating a credential from contents failed", fmt.Sprint(err)) {
		return
	}

	s := vh.Pick(r, vh.LDSuites...)
	for s.Type == "BbsBlsSignature2020" {
		s = vh.Pick(r, vh.LDSuites...)
	}

	ctx := w.LDContext(r, w.Ents["issuer"], s)
	if err := vc.AddLinkedDataProof(ctx, ldprocessor.WithDocumentLoader(w.Loader)); err != nil {
		c.Violate("create:sign", "signing a created credential failed", fmt.Sprintf("%v: %s", err, vh.J(ld)))
		return
	}

	out, err := vc.MarshalJSON()
	if err != nil {
		c.Violate("create:marshal", "MarshalJSON failed", err.Error())
		return
	}

	_, err = verifiable.ParseCredential(out, verifiable.WithProofChecker(w.Checker), verifiable.WithJSONLDDocumentLoader(w.Loader))
	c.Expect(err == nil, "create:verify", "a signed created credential does not verify", fmt.Sprintf("%v: %s", err, out))
	c.Count("created.signed", 1)
}

// canonVP also erases how an envelope spells its type, context and disclosure order.
func canonVP(d map[string]interface{}) map[string]interface{} {
	o := canon(vh.Norm(d).(map[string]interface{}))
	l, _ := o["verifiableCredential"].([]interface{})

	for i, e := range l {
		m, ok := e.(map[string]interface{})
		if !ok {
			if s, ok := e.(string); ok {
				l[i] = sortDisc(s)
			}

			continue
		}

		if id := str(m["id"]); strings.HasPrefix(id, "data:") {
			if !strings.Contains(strings.TrimSuffix(id, "~"), "~") { // nothing to disclose: a plain JWT
				id = strings.Replace(id, "vc-ld+sd-jwt", "vc-ld+jwt", 1)
			}

			l[i] = map[string]interface{}{"id": sortDisc(id)}
		}
	}

	return o
}

func sortDisc(s string) string {
	p := strings.Split(strings.TrimSuffix(s, "~"), "~")
	m := map[string]bool{}

	for _, x := range p[1:] {
		m[x] = true
	}

	return p[0] + "~" + strings.Join(vh.SortedKeys(m), "~")
}

func vpAccessors(c *vh.Check, tag string, vp *verifiable.Presentation, d map[string]interface{}) {
	m := model(map[string]interface{}{"@context": d["@context"], "type": d["type"], "id": d["id"]})
	got := map[string]interface{}{"context": vp.Context, "custom": vp.CustomContext, "id": vp.ID, "types": vp.Type}
	want := map[string]interface{}{"context": m["context"], "custom": m["custom"], "id": m["id"], "types": m["types"]}

	if len(vp.CustomContext) == 0 {
		got["custom"] = nil
	}

	holder := str(d["holder"])
	if o, ok := d["holder"].(map[string]interface{}); ok {
		holder = str(o["id"])
	}

	got["holder"], want["holder"] = vp.Holder, holder
	got["n"], want["n"] = len(vp.Credentials()), len(asList(d["verifiableCredential"]))
	proofs := []interface{}{}

	for _, p := range vp.Proofs {
		proofs = append(proofs, map[string]interface{}(p))
	}

	got["proofs"], want["proofs"] = proofs, append([]interface{}{}, asList(d["proof"])...)
	got["cf"] = map[string]interface{}(vp.CustomFields)
	want["cf"] = without(d, "@context", "type", "id", "holder", "proof", "verifiableCredential")

	if diff := vh.Diff(vh.Norm(want), vh.Norm(got)); diff != "" {
		c.Violate("vp-contents:"+tag, "presentation fields disagree with the document at "+diff, string(vh.J(d)))
	}
}

func vpCase(c *vh.Check, r *rand.Rand) {
	v := 1 + r.Intn(2)
	d := vpdoc(r, v, false)
	b := vh.J(d)
	c.Eval(keyOf("vp", v, d))

	vp, err := verifiable.ParsePresentation(b, laxVP()...)
	if !c.Expect(err == nil, "parse:vp", "a presentation was refused", fmt.Sprintf("%v: %s", err, b)) {
		return
	}

	vpAccessors(c, "json", vp, d)

	for _, p := range []*verifiable.Presentation{vp, vp.Clone()} {
		out, err := p.MarshalJSON()
		if !c.Expect(err == nil, "marshal:vp", "MarshalJSON failed", fmt.Sprint(err)) {
			return
		}

		if diff := vh.Diff(canonVP(d), canonVP(vh.M(out))); diff != "" {
			c.Violate("roundtrip:vp", "marshalled presentation differs at "+diff, string(b))
		}

		vp2, err := verifiable.ParsePresentation(out, laxVP()...)
		if !c.Expect(err == nil, "reparse:vp", "a marshalled presentation was refused", fmt.Sprintf("%v: %s", err, out)) {
			return
		}

		out2, err := vp2.MarshalJSON()
		c.Expect(err == nil && vh.Diff(vh.M(out), vh.M(out2)) == "", "stable:vp", "marshal-parse-marshal changes the presentation", string(out))
	}

	mc, err := vp.MarshalledCredentials()
	if c.Expect(err == nil && len(mc) == len(vp.Credentials()), "vp:marshalled", "MarshalledCredentials failed", fmt.Sprint(err)) {
		want := canonVP(d)["verifiableCredential"]
		got := []interface{}{}

		for _, m := range mc {
			var x interface{}
			if err := vh.UnJ(m, &x); err != nil {
				c.Violate("vp:marshalled", "MarshalledCredentials gave no JSON", string(m))
				return
			}

			got = append(got, x)

			if _, err := verifiable.ParseCredential(m, lax()...); err != nil {
				c.Violate("vp:marshalled", "a marshalled credential was refused", fmt.Sprintf("%v: %s", err, m))
			}
		}

		gotC := canonVP(map[string]interface{}{"verifiableCredential": got})["verifiableCredential"]
		if len(got) > 0 {
			if diff := vh.Diff(want, gotC); diff != "" {
				c.Violate("vp:marshalled", "MarshalledCredentials differ from the document at "+diff, string(b))
			}
		}
	}

	// a presentation built anew from the same parts
	np, err := verifiable.NewPresentation(verifiable.WithCredentials(vp.Credentials()...))
	if c.Expect(err == nil, "vp:new", "NewPresentation failed", fmt.Sprint(err)) {
		np.Context, np.CustomContext, np.ID, np.Type, np.Holder = vp.Context, vp.CustomContext, vp.ID, vp.Type, vp.Holder
		np.Proofs, np.CustomFields = vp.Proofs, vp.CustomFields

		out, err := np.MarshalJSON()
		if c.Expect(err == nil, "vp:new", "MarshalJSON failed", fmt.Sprint(err)) {
			want := canonVP(d)
			if o, ok := want["holder"].(map[string]interface{}); ok {
				want["holder"] = o["id"]
			}

			if diff := vh.Diff(want, canonVP(vh.M(out))); diff != "" {
				c.Violate("vp:new", "a presentation built from the same parts differs at "+diff, string(b))
			}
		}
	}

	c.Count("vp.roundtrip", 1)
}

func vpTokenCase(c *vh.Check, r *rand.Rand) {
	v := 1 + r.Intn(2)
	d := vpdoc(r, v, true)
	h := w.Ents["holder"]
	form := vh.Pick(r, "jwt", "cwt")
	min := r.Intn(2) == 0
	c.Eval(fmt.Sprintf("%s/%v", keyOf("vp-"+form, v, d), min))

	src, err := verifiable.ParsePresentation(vh.J(d), laxVP()...)
	if !c.Expect(err == nil, "parse:vp", "a presentation was refused", fmt.Sprintf("%v: %s", err, vh.J(d))) {
		return
	}

	var (
		tok    *verifiable.Presentation
		inputs [][]byte
		mt     string
		data   string
	)

	if form == "jwt" {
		k := h.Keys[vh.Pick(r, vh.JWTAlgs...)]

		tok, err = src.CreateJWTVP([]string{"aud"}, k.JWSAlg(), w.Creator(h), k.ID, min)
		if !c.Expect(err == nil, "vp:sign:jwt", "CreateJWTVP failed", fmt.Sprint(err)) {
			return
		}

		inputs = append(inputs, []byte(tok.JWT))
		mt, data = "application/vp-ld+jwt", tok.JWT
	} else {
		k := h.Keys[vh.Pick(r, cwtAlgs...)]

		tok, err = src.CreateCWTVP([]string{"aud"}, k.COSEAlg(), w.Creator(h), k.ID, min)
		if !c.Expect(err == nil, "vp:sign:cwt", "CreateCWTVP failed", fmt.Sprint(err)) {
			return
		}

		cb, err := tok.MarshalCBOR()
		c.Expect(err == nil && string(cb) == string(tok.CWT.Raw), "vp:cbor", "MarshalCBOR does not give the message", fmt.Sprint(err))
		inputs = append(inputs, cb, []byte(hex.EncodeToString(cb)))
		mt, data = "application/vp-ld+cose", hex.EncodeToString(cb)
	}

	if v == 2 || form == "jwt" {
		out, err := tok.MarshalJSON()
		if !c.Expect(err == nil, "marshal:vp-"+form, "MarshalJSON failed", fmt.Sprint(err)) {
			return
		}

		if v == 2 {
			e := vh.M(out)
			c.Expect(str(e["id"]) == "data:"+mt+","+data && fmt.Sprint(asList(e["type"])) == "[EnvelopedVerifiablePresentation]", "form:vp-"+form,
				"wrong envelope", string(out))
		} else {
			c.Expect(string(out) == `"`+data+`"`, "form:vp-"+form, "wrong token string", string(out))
		}

		inputs = append(inputs, out)
	}

	for _, in := range inputs {
		vp, err := verifiable.ParsePresentation(in, laxVP()...)
		if !c.Expect(err == nil, "reparse:vp-"+form, "a presentation token was refused", fmt.Sprintf("%v: %s", err, in)) {
			return
		}

		vpAccessors(c, form, vp, d)
		c.Expect(vp.IsJWT() == (form == "jwt") && vp.IsCWT() == (form == "cwt"), "kind:vp-"+form, "token kind is lost", string(in))

		// the content without its envelope is the document
		plain := vp.Clone()
		plain.JWT, plain.CWT = "", nil

		out, err := plain.MarshalJSON()
		if !c.Expect(err == nil, "marshal:vp-"+form, "MarshalJSON failed", fmt.Sprint(err)) {
			return
		}

		if diff := vh.Diff(canonVP(d), canonVP(vh.M(out))); diff != "" {
			c.Violate("roundtrip:vp-"+form, fmt.Sprintf("decoded presentation (minimised=%v) differs at %s", min, diff), string(vh.J(d)))
		}

		again, err := vp.MarshalJSON()
		if v == 2 || form == "jwt" {
			c.Expect(err == nil && (v == 1 && string(again) == `"`+data+`"` || v == 2 && str(vh.M(again)["id"]) == "data:"+mt+","+data), "stable:vp-"+form,
				"parse-marshal changes the token", string(again))
		} else {
			cb, err := vp.MarshalCBOR()
			c.Expect(err == nil && hex.EncodeToString(cb) == data, "stable:vp-"+form, "parse-marshal changes the message", "")
		}
	}

	c.Count("vp.token", 1)
}
