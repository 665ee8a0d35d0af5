// C05: presentations are accepted only when the holder's proof verifies.
package main

import (
	"encoding/base64"
	"encoding/hex"
	"fmt"
	"math/rand"
	"strings"
	"time"

	ldprocessor "github.com/trustbloc/did-go/doc/ld/processor"

	"github.com/trustbloc/vc-go/dataintegrity"
	"github.com/trustbloc/vc-go/verifharness/vh"
	"github.com/trustbloc/vc-go/verifiable"
)

var (
	w   *vh.World
	div *dataintegrity.Verifier
)

type PO = verifiable.PresentationOpt

func main() {
	vh.Main(vh.Spec{
		ID: "C05",
		Rule: "random v1/v2 presentation with 0..4 credentials (JWT, CWT, SD-JWT, enveloped, JSON-LD with or without proof) x proof form " +
			"(JWT, CWT, linked data, Data Integrity, unsecured JWT around an embedded proof; plain and enveloped), signed by the code or " +
			"independently; then one alteration of presentation, proof, key or one embedded credential. Distinct: (form, alteration, entry, embedded kind).",
		Level: "exploration",
		Require: map[string]int64{"accept.genuine": 800, "reject.presentation": 1500, "reject.embedded": 600, "reject.expectation": 50,
			"holder.accept": 20, "holder.reject": 40, "content": 800},
		Assumptions: []string{"JSON-LD contexts of the documents map every term", "JSON-LD canonicalisation is correct"},
		Run:         run,
	})
}

var cwtAlgs = []string{"EdDSA", "ES256", "ES384", "RS256", "PS256"}

type emb struct {
	kind string // jwt cwt sdjwt ld plain
	val  interface{}
	id   string
	env  bool
	doc  map[string]interface{}
	tok  interface{}
	alg  string
}

// embedded makes one credential for a presentation.
func embedded(r *rand.Rand, v int, ldForm bool) emb {
	iss := w.Ents["issuer"]
	kinds := []string{"jwt", "cwt", "sdjwt", "ld", "plain"}
	if ldForm && v == 1 { // JSON-LD: strings drop out and the enveloping type belongs to the other data model
		kinds = kinds[3:]
	}

	k := vh.Pick(r, kinds...)
	doc := vh.Cred(r, vh.CredOpts{V: v, Issuer: iss.DID, OneSubject: true, NeedID: true, LDSafe: k == "ld" || ldForm})
	e := emb{kind: k, id: doc["id"].(string), doc: doc}
	e.env = v == 2 && (ldForm || r.Intn(2) == 0)

	switch k {
	case "jwt":
		e.alg = vh.Pick(r, vh.JWTAlgs...)
		e.tok = w.JWTCred(iss, e.alg, doc)
	case "cwt":
		e.alg = vh.Pick(r, cwtAlgs...)
		e.tok = w.CWTCred(iss, e.alg, doc)
	case "sdjwt":
		if doc["issuanceDate"] == nil && doc["validFrom"] == nil {
			doc["validFrom"] = vh.Time(r)
		}
		if l, ok := doc["credentialSubject"].([]interface{}); ok {
			doc["credentialSubject"] = l[0]
		}

		e.alg = vh.Pick(r, vh.JWTAlgs...)
		e.tok = w.SDJWTCred(iss, e.alg, doc)
	case "ld":
		s := vh.Pick(r, vh.LDSuites...)
		for s.Type == "BbsBlsSignature2020" {
			s = vh.Pick(r, vh.LDSuites...)
		}

		d, err := w.LDSign(doc, w.LDContext(r, iss, s))
		if err != nil {
			panic("vh-fixture " + err.Error())
		}

		e.tok, e.env = d, false
	default:
		e.tok, e.env = doc, false
	}

	e.val = vh.EmbedForm(r, k, e.tok, e.env)

	return e
}

func vpDoc(r *rand.Rand, v int, holder string, creds []emb, ldForm bool) map[string]interface{} {
	base := vh.CtxV1
	if v == 2 {
		base = vh.CtxV2
	}

	d := map[string]interface{}{"@context": []interface{}{base, vh.CtxVerif}, "type": []interface{}{"VerifiablePresentation"}}
	if r.Intn(3) == 0 {
		d["type"] = append(d["type"].([]interface{}), "CustomPresentation")
	}

	if r.Intn(4) != 0 {
		d["id"] = "urn:uuid:" + vh.SafeStr(r)
	}

	if holder != "" {
		d["holder"] = holder
	}

	var cs []interface{}
	for _, c := range creds {
		cs = append(cs, c.val)
	}

	switch {
	case len(cs) == 1 && r.Intn(3) == 0:
		d["verifiableCredential"] = cs[0]
	case len(cs) > 0:
		d["verifiableCredential"] = cs
	case r.Intn(2) == 0 && !ldForm:
		d["verifiableCredential"] = []interface{}{}
	}

	for i, k := 0, r.Intn(3); i < k; i++ {
		d[fmt.Sprintf("custom%d", i)] = vh.Val(r, 2, ldForm)
	}

	return d
}

// presentation is one signed presentation with what is needed to alter it.
type presentation struct {
	form  string
	doc   map[string]interface{} // content
	creds []emb
	b     []byte // canonical received bytes
	key   *vh.Key
	suite string

	hdr, pl                    map[string]interface{} // JWT
	cose                       *vh.Cose
	signed                     map[string]interface{} // embedded proof forms
	domain, challenge, purpose string
}

var forms = []string{"jwt", "cwt", "ld", "di", "unsecured"}

func signLD(r *rand.Rand, doc map[string]interface{}, e *vh.Entity) (map[string]interface{}, vh.LDSuite) {
	s := vh.Pick(r, vh.LDSuites...)
	for s.Type == "BbsBlsSignature2020" {
		s = vh.Pick(r, vh.LDSuites...)
	}

	vp, err := verifiable.ParsePresentation(vh.J(doc), verifiable.WithPresDisabledProofCheck(), verifiable.WithPresJSONLDDocumentLoader(w.Loader))
	if err != nil {
		panic(fmt.Sprintf("vh-fixture presentation: %v %s", err, vh.J(doc)))
	}

	// sign a presentation holding the same document: proofs are added to what MarshalJSON gives
	if err := vp.AddLinkedDataProof(w.LDContext(r, e, s), ldprocessor.WithDocumentLoader(w.Loader)); err != nil {
		panic(fmt.Sprintf("AddLinkedDataProof %s: %v", s.Type, err))
	}

	b, err := vp.MarshalJSON()
	if err != nil {
		panic(fmt.Sprintf("MarshalJSON: %v", err))
	}

	return vh.M(b), s
}

func signDI(r *rand.Rand, doc map[string]interface{}, e *vh.Entity, p *presentation) map[string]interface{} {
	s := vh.Pick(r, vh.DISuites...)
	o := w.DIOpts(r, e, s)
	p.domain, p.challenge, p.purpose, p.suite = o.Domain, o.Challenge, o.Purpose, s.Suite
	p.key = e.Keys[s.Alg]

	if r.Intn(2) == 0 {
		vp, err := verifiable.ParsePresentation(vh.J(doc), verifiable.WithPresDisabledProofCheck(), verifiable.WithPresJSONLDDocumentLoader(w.Loader))
		if err != nil {
			panic(fmt.Sprintf("vh-fixture presentation: %v %s", err, vh.J(doc)))
		}

		ctx := &verifiable.DataIntegrityProofContext{SigningKeyID: o.VerificationMethodID, ProofPurpose: o.Purpose, CryptoSuite: s.Suite,
			Created: &o.Created, Domain: o.Domain, Challenge: o.Challenge}
		if !o.Expires.IsZero() {
			ctx.Expires = &o.Expires
		}

		if err := vp.AddDataIntegrityProof(ctx, w.DISigner(e.Keys[s.Alg])); err != nil {
			panic(fmt.Sprintf("AddDataIntegrityProof: %v", err))
		}

		b, err := vp.MarshalJSON()
		if err != nil {
			panic(fmt.Sprintf("MarshalJSON: %v", err))
		}

		return vh.M(b)
	}

	return w.DISign(doc, e, s, o)
}

func make1(r *rand.Rand, form string, ncreds int) *presentation {
	h := w.Ents["holder"]
	v := 1 + r.Intn(2)
	p := &presentation{form: form}
	ldForm := form == "ld" || form == "di" || form == "unsecured"

	for i := 0; i < ncreds; i++ {
		p.creds = append(p.creds, embedded(r, v, ldForm))
	}

	p.doc = vpDoc(r, v, h.DID, p.creds, ldForm)

	switch form {
	case "jwt":
		alg := vh.Pick(r, vh.JWTAlgs...)
		p.key, p.suite = h.Keys[alg], alg
		min := r.Intn(2) == 0

		var s string

		if r.Intn(2) == 0 {
			vp, err := verifiable.ParsePresentation(vh.J(p.doc), verifiable.WithPresDisabledProofCheck(), verifiable.WithPresJSONLDDocumentLoader(w.Loader))
			if err != nil {
				panic(fmt.Sprintf("vh-fixture presentation: %v %s", err, vh.J(p.doc)))
			}

			out, err := vp.CreateJWTVP([]string{"aud"}, p.key.JWSAlg(), w.Creator(h), p.key.ID, min)
			if err != nil {
				panic(fmt.Sprintf("CreateJWTVP: %v", err))
			}

			s = out.JWT
		} else {
			vpm := vh.CloneM(p.doc)
			pl := map[string]interface{}{"iss": h.DID, "vp": vpm}
			if p.doc["id"] != nil && min {
				pl["jti"] = p.doc["id"]
				delete(vpm, "id")
				delete(vpm, "holder")
			}

			s = vh.JWS(map[string]interface{}{"alg": alg, "kid": p.key.ID}, vh.J(pl), p.key)
		}

		parts := strings.Split(s, ".")
		p.hdr, p.pl = vh.M(dec(parts[0])), vh.M(dec(parts[1]))
		p.b = []byte(s)
	case "cwt":
		alg := vh.Pick(r, cwtAlgs...)
		p.key, p.suite = h.Keys[alg], alg

		if r.Intn(2) == 0 {
			vp, err := verifiable.ParsePresentation(vh.J(p.doc), verifiable.WithPresDisabledProofCheck(), verifiable.WithPresJSONLDDocumentLoader(w.Loader))
			if err != nil {
				panic(fmt.Sprintf("vh-fixture presentation: %v %s", err, vh.J(p.doc)))
			}

			out, err := vp.CreateCWTVP([]string{"aud"}, p.key.COSEAlg(), w.Creator(h), p.key.ID, false)
			if err != nil {
				panic(fmt.Sprintf("CreateCWTVP: %v", err))
			}

			p.cose = vh.ParseCose(out.CWT.Raw)
		} else {
			p.cose = vh.MakeCose(vh.CoseHdr(p.key), vh.CB(map[string]interface{}{"iss": h.DID, "vp": p.doc}), p.key)
		}

		p.b = p.cose.Bytes()
	case "ld":
		d, s := signLD(r, p.doc, h)
		p.signed, p.suite, p.key = d, s.Type, h.Keys[s.Alg]
		p.b = vh.J(d)
	case "di":
		p.signed = signDI(r, p.doc, h, p)
		p.b = vh.J(p.signed)
	default:
		d, s := signLD(r, p.doc, h)
		p.signed, p.suite, p.key = d, s.Type, h.Keys[s.Alg]
		p.b = unsecured(r, d, h.DID)
	}

	return p
}

func unsecured(r *rand.Rand, d map[string]interface{}, iss string) []byte {
	pl := map[string]interface{}{"vp": d}
	if r.Intn(2) == 0 {
		pl["iss"] = iss
	}

	return []byte(vh.B64(vh.J(map[string]interface{}{"alg": "none"})) + "." + vh.B64(vh.J(pl)) + ".")
}

func dec(s string) []byte {
	b, err := base64.RawURLEncoding.DecodeString(s)
	if err != nil {
		panic("vh-fixture b64 " + err.Error())
	}

	return b
}

// parse runs an entry point for received bytes of a form.
func parse(r *rand.Rand, p *presentation, b []byte, extra ...PO) (*verifiable.Presentation, string, error) {
	o := []PO{verifiable.WithPresProofChecker(w.Checker), verifiable.WithPresJSONLDDocumentLoader(w.Loader),
		verifiable.WithPresDataIntegrityVerifier(div)}

	if p.purpose != "" {
		o = append(o, verifiable.WithPresExpectedDataIntegrityFields(p.purpose, "", ""))
	}

	o = append(o, extra...)
	env := func(mt, data string) []byte {
		return vh.J(map[string]interface{}{"@context": []interface{}{vh.CtxV2}, "type": []interface{}{"EnvelopedVerifiablePresentation"}, "id": "data:" + mt + "," + data})
	}
	entry := "plain"

	switch p.form {
	case "jwt":
		switch r.Intn(3) {
		case 0:
			entry, b = "quoted", []byte(`"`+string(b)+`"`)
		case 1:
			entry, b = "enveloped", env("application/vp-ld+jwt", string(b))
		}
	case "cwt":
		hx := hex.EncodeToString(b)

		switch r.Intn(4) {
		case 0:
			entry, b = "hex", []byte(hx)
		case 1:
			entry, b = "quoted-hex", []byte(`"`+hx+`"`)
		case 2:
			entry, b = "enveloped", env("application/vp-ld+cose", hx)
		}
	case "unsecured":
		if r.Intn(3) == 0 {
			entry, b = "enveloped", env("application/vp-ld+jwt", string(b))
		}
	}

	vp, err := verifiable.ParsePresentation(b, o...)

	return vp, entry, err
}

func edit(s string, f func([]byte) []byte) string { return vh.B64(f(dec(s))) }

func flipBit(r *rand.Rand) func([]byte) []byte {
	return func(b []byte) []byte {
		o := append([]byte{}, b...)
		o[r.Intn(len(o))] ^= 1 << r.Intn(8)

		return o
	}
}

type forge struct {
	name string
	f    func(r *rand.Rand, p *presentation) []byte
}

func leafEdit(r *rand.Rand, m map[string]interface{}) {
	ls := vh.Leaves(m)
	l := ls[r.Intn(len(ls))]
	vh.Set(m, l, vh.Mutate(r, vh.Get(m, l)))
}

func list(v interface{}) []interface{} {
	if l, ok := v.([]interface{}); ok {
		return append([]interface{}{}, l...)
	}

	return []interface{}{v}
}

func vOf(d map[string]interface{}) int {
	if d["@context"].([]interface{})[0] == vh.CtxV1 {
		return 1
	}

	return 2
}

// vpEdits are semantic changes of a presentation's content.
func vpEdits() []vh.Tamper {
	return []vh.Tamper{
		{Name: "holder-changed", F: func(r *rand.Rand, d map[string]interface{}) string {
			d["holder"] = w.Ents["mallory"].DID
			return "holder"
		}},
		{Name: "holder-removed", F: func(r *rand.Rand, d map[string]interface{}) string { delete(d, "holder"); return "holder" }},
		{Name: "id-changed", F: func(r *rand.Rand, d map[string]interface{}) string { d["id"] = "urn:uuid:forged"; return "id" }},
		{Name: "type-added", F: func(r *rand.Rand, d map[string]interface{}) string {
			d["type"] = append(list(d["type"]), "SneakedPresentation")
			return "type"
		}},
		{Name: "member-added", F: func(r *rand.Rand, d map[string]interface{}) string {
			n := vh.Pick(r, "extra", "jwt", "termsOfUse2", "presentation_submission")
			d[n] = vh.Pick[interface{}](r, "claim", 7.0, map[string]interface{}{"given": "x"})
			return n
		}},
		{Name: "credential-removed", F: func(r *rand.Rand, d map[string]interface{}) string {
			switch x := d["verifiableCredential"].(type) {
			case []interface{}:
				if len(x) == 0 {
					return ""
				}
				i := r.Intn(len(x))
				d["verifiableCredential"] = append(append([]interface{}{}, x[:i]...), x[i+1:]...)
			case nil:
				return ""
			default:
				delete(d, "verifiableCredential")
			}
			return "verifiableCredential"
		}},
		{Name: "credential-added", F: func(r *rand.Rand, d map[string]interface{}) string {
			e := embedded(r, vOf(d), true)
			for e.kind == "plain" {
				e = embedded(r, vOf(d), true)
			}
			switch x := d["verifiableCredential"].(type) {
			case []interface{}:
				d["verifiableCredential"] = append(append([]interface{}{}, x...), e.val)
			case nil:
				d["verifiableCredential"] = e.val
			default:
				d["verifiableCredential"] = []interface{}{x, e.val}
			}
			return "verifiableCredential"
		}},
		{Name: "credential-swapped", F: func(r *rand.Rand, d map[string]interface{}) string {
			e := embedded(r, vOf(d), true)
			switch x := d["verifiableCredential"].(type) {
			case []interface{}:
				if len(x) == 0 {
					return ""
				}
				i := r.Intn(len(x))
				x = append([]interface{}{}, x...)
				x[i] = e.val
				d["verifiableCredential"] = x
			case nil:
				return ""
			default:
				d["verifiableCredential"] = e.val
			}
			return "verifiableCredential"
		}},
		{Name: "leaf", F: func(r *rand.Rand, d map[string]interface{}) string {
			var ls []vh.Path
			for _, l := range vh.Leaves(d) {
				if l[0] != "proof" && l[0] != "@context" {
					ls = append(ls, l)
				}
			}
			l := ls[r.Intn(len(ls))]
			old := vh.Get(d, l)
			if a, ok := old.([]interface{}); ok && len(a) == 0 {
				return ""
			}
			nv := vh.Mutate(r, old)
			if len(l) > 1 {
				if a, ok := vh.Get(d, l[:len(l)-1]).([]interface{}); ok {
					for _, e := range a {
						if vh.Eq(e, nv) {
							return ""
						}
					}
				}
			}
			vh.Set(d, l, nv)
			return fmt.Sprint(l[0])
		}},
	}
}

func proofOf(d map[string]interface{}) map[string]interface{} { return vh.Proofs(d)[0] }

func embeddedForgeries() []forge {
	var out []forge

	for _, t := range vpEdits() {
		t := t
		out = append(out, forge{t.Name, func(r *rand.Rand, p *presentation) []byte {
			d := vh.CloneM(p.signed)
			if t.F(r, d) == "" {
				return nil
			}
			return vh.J(d)
		}})
	}

	pe := func(n string, f func(r *rand.Rand, p *presentation, pr map[string]interface{}) bool) forge {
		return forge{"proof-" + n, func(r *rand.Rand, p *presentation) []byte {
			d := vh.CloneM(p.signed)
			if !f(r, p, proofOf(d)) {
				return nil
			}
			return vh.J(d)
		}}
	}

	return append(out,
		pe("value", func(r *rand.Rand, p *presentation, pr map[string]interface{}) bool {
			if s, ok := pr["jws"].(string); ok {
				i := strings.LastIndex(s, ".")
				pr["jws"] = s[:i+1] + edit(s[i+1:], flipBit(r))
				return true
			}
			s := pr["proofValue"].(string)
			if s[0] == 'z' && p.form == "di" {
				pr["proofValue"] = vh.MB58(flipBit(r)(vh.MB58Dec(s)))
				return true
			}
			if p.suite == "Ed25519Signature2020" {
				pr["proofValue"] = vh.MB58(flipBit(r)(vh.MB58Dec(s)))
				return true
			}
			b, err := base64.RawURLEncoding.DecodeString(strings.TrimRight(s, "="))
			if err != nil {
				return false
			}
			pr["proofValue"] = vh.B64(flipBit(r)(b))
			return true
		}),
		pe("created", func(r *rand.Rand, p *presentation, pr map[string]interface{}) bool {
			if pr["created"] == nil {
				return false
			}
			pr["created"] = time.Unix(1400000000+r.Int63n(1000), 0).UTC().Format(time.RFC3339)
			return true
		}),
		pe("method-stranger", func(r *rand.Rand, p *presentation, pr map[string]interface{}) bool {
			pr["verificationMethod"] = strings.Replace(pr["verificationMethod"].(string), ":holder#", ":mallory#", 1)
			return p.key.Alg != "PS256" && p.key.Alg != "RS256"
		}),
		pe("method-unknown", func(r *rand.Rand, p *presentation, pr map[string]interface{}) bool {
			pr["verificationMethod"] = vh.Pick[interface{}](r, pr["verificationMethod"].(string)+"x", "", "did:verif:nobody#k", nil, 5.0)
			return true
		}),
		pe("purpose", func(r *rand.Rand, p *presentation, pr map[string]interface{}) bool {
			pr["proofPurpose"] = "capabilityInvocation"
			return true
		}),
		pe("domain", func(r *rand.Rand, p *presentation, pr map[string]interface{}) bool {
			pr["domain"] = "https://forged.example"
			return true
		}),
		pe("challenge", func(r *rand.Rand, p *presentation, pr map[string]interface{}) bool {
			pr["challenge"] = "forged"
			return true
		}),
		pe("type", func(r *rand.Rand, p *presentation, pr map[string]interface{}) bool {
			pr["type"] = vh.Pick(r, "UnknownSignature2042", "")
			return true
		}),
		forge{"proof-none", func(r *rand.Rand, p *presentation) []byte {
			d := vh.CloneM(p.signed)
			if r.Intn(3) == 0 {
				delete(d, "proof")
			} else {
				d["proof"] = vh.Pick[interface{}](r, nil, []interface{}{}, map[string]interface{}{}, []interface{}{map[string]interface{}{}}, "x")
			}
			return vh.J(d)
		}},
		forge{"proof-beside", func(r *rand.Rand, p *presentation) []byte { // a forged second proof
			d := vh.CloneM(p.signed)
			q := vh.CloneM(proofOf(d))
			q["created"] = "2001-01-01T00:00:00Z"
			q["challenge"] = "forged"
			l := []interface{}{proofOf(d), q}
			if r.Intn(2) == 0 {
				l[0], l[1] = l[1], l[0]
			}
			d["proof"] = l
			return vh.J(d)
		}},
		forge{"attacker-proof-victim-method", func(r *rand.Rand, p *presentation) []byte {
			d := vh.CloneM(p.signed)
			delete(d, "proof")
			m := w.Ents["mallory"]
			var out map[string]interface{}
			if p.form == "di" {
				q := &presentation{}
				out = signDI(r, d, m, q)
				if q.purpose != p.purpose || q.key.Alg != p.key.Alg {
					return nil
				}
			} else {
				var s vh.LDSuite
				out, s = signLD(r, d, m)
				if s.Alg == "PS256" {
					return nil
				}
			}
			pr := proofOf(out)
			pr["verificationMethod"] = strings.Replace(pr["verificationMethod"].(string), ":mallory#", ":holder#", 1)
			return vh.J(out)
		}},
	)
}

func jwtForgeries() []forge {
	re := func(p *presentation, h, pl map[string]interface{}, sig string) []byte {
		return []byte(vh.B64(vh.J(h)) + "." + vh.B64(vh.J(pl)) + "." + sig)
	}
	sig := func(p *presentation) string { return strings.Split(string(p.b), ".")[2] }

	var out []forge

	for _, t := range vpEdits() {
		t := t
		out = append(out, forge{t.Name, func(r *rand.Rand, p *presentation) []byte {
			pl := vh.CloneM(p.pl)
			if t.F(r, pl["vp"].(map[string]interface{})) == "" {
				return nil
			}
			return re(p, p.hdr, pl, sig(p))
		}})
	}

	return append(out, []forge{
		{"iss-changed", func(r *rand.Rand, p *presentation) []byte {
			pl := vh.CloneM(p.pl)
			pl["iss"] = w.Ents["mallory"].DID
			return re(p, p.hdr, pl, sig(p))
		}},
		{"payload-leaf", func(r *rand.Rand, p *presentation) []byte {
			pl := vh.CloneM(p.pl)
			leafEdit(r, pl)
			return re(p, p.hdr, pl, sig(p))
		}},
		{"sig-bit", func(r *rand.Rand, p *presentation) []byte { return re(p, p.hdr, p.pl, edit(sig(p), flipBit(r))) }},
		{"sig-cut", func(r *rand.Rand, p *presentation) []byte {
			return re(p, p.hdr, p.pl, edit(sig(p), func(b []byte) []byte { return b[:1+r.Intn(len(b)-1)] }))
		}},
		{"sig-zero", func(r *rand.Rand, p *presentation) []byte {
			return re(p, p.hdr, p.pl, edit(sig(p), func(b []byte) []byte { return make([]byte, len(b)) }))
		}},
		{"sig-none", func(r *rand.Rand, p *presentation) []byte { return re(p, p.hdr, p.pl, "") }},
		{"alg-none", func(r *rand.Rand, p *presentation) []byte {
			h := vh.CloneM(p.hdr)
			h["alg"] = vh.Pick(r, "none", "None")
			return re(p, h, p.pl, vh.Pick(r, "", sig(p), "AAAA"))
		}},
		{"alg-other", func(r *rand.Rand, p *presentation) []byte {
			h := vh.CloneM(p.hdr)
			for h["alg"] == p.hdr["alg"] {
				h["alg"] = vh.Pick(r, append([]string{"HS256", "ES512"}, vh.JWTAlgs...)...)
			}
			return []byte(vh.JWS(h, vh.J(p.pl), p.key))
		}},
		{"kid-missing", func(r *rand.Rand, p *presentation) []byte {
			h := vh.CloneM(p.hdr)
			delete(h, "kid")
			return []byte(vh.JWS(h, vh.J(p.pl), p.key))
		}},
		{"kid-unknown", func(r *rand.Rand, p *presentation) []byte {
			h := vh.CloneM(p.hdr)
			h["kid"] = vh.Pick(r, p.key.ID+"x", "", "#k", "did:verif:nobody#k")
			return []byte(vh.JWS(h, vh.J(p.pl), p.key))
		}},
		{"attacker-victim-kid", func(r *rand.Rand, p *presentation) []byte {
			k := w.Ents["mallory"].Keys[vh.Pick(r, "EdDSA", "ES256", "ES384", "ES521", "ES256K")]
			h := vh.CloneM(p.hdr)
			h["alg"], h["kid"] = k.Alg, w.Ents["holder"].Keys[k.Alg].ID
			return []byte(vh.JWS(h, vh.J(p.pl), k))
		}},
		{"attacker-embedded-key", func(r *rand.Rand, p *presentation) []byte {
			k := w.Ents["mallory"].Keys["EdDSA"]
			h := vh.CloneM(p.hdr)
			h["alg"], h["jwk"] = "EdDSA", vh.M(mustJSON(k.JWK.MarshalJSON()))
			return []byte(vh.JWS(h, vh.J(p.pl), k))
		}},
		{"key-agreement", func(r *rand.Rand, p *presentation) []byte {
			k := w.Ents["holder"].KA
			h := vh.CloneM(p.hdr)
			h["alg"], h["kid"] = "EdDSA", k.ID
			return []byte(vh.JWS(h, vh.J(p.pl), k))
		}},
		{"foreign-holder", func(r *rand.Rand, p *presentation) []byte { // signed by another party under his own key id
			k := w.Ents["mallory"].Keys[p.key.Alg]
			h := vh.CloneM(p.hdr)
			h["kid"] = k.ID
			return []byte(vh.JWS(h, vh.J(p.pl), k))
		}},
		{"no-vp", func(r *rand.Rand, p *presentation) []byte {
			pl := vh.CloneM(p.pl)
			pl["vp"] = vh.Pick[interface{}](r, map[string]interface{}{}, map[string]interface{}{"type": "VerifiablePresentation"})
			return []byte(vh.JWS(p.hdr, vh.J(pl), p.key))
		}},
	}...)
}

func mustJSON(b []byte, err error) []byte {
	if err != nil {
		panic("vh-fixture " + err.Error())
	}

	return b
}

func cwtForgeries() []forge {
	with := func(p *presentation, f func(m *vh.Cose)) []byte {
		m := p.cose.Clone()
		f(m)
		return m.Bytes()
	}
	claims := func(p *presentation, f func(m map[string]interface{})) []byte {
		var m map[string]interface{}
		if err := vh.UnCB(p.cose.PL(), &m); err != nil {
			panic("vh-fixture " + err.Error())
		}
		f(m)
		return vh.CB(m)
	}
	vpc := func(m map[string]interface{}) map[interface{}]interface{} {
		return m["vp"].(map[interface{}]interface{})
	}
	pe := func(n string, f func(r *rand.Rand, m map[string]interface{})) forge {
		return forge{n, func(r *rand.Rand, p *presentation) []byte {
			return with(p, func(x *vh.Cose) { x.Payload = claims(p, func(m map[string]interface{}) { f(r, m) }) })
		}}
	}

	return []forge{
		pe("holder-changed", func(r *rand.Rand, m map[string]interface{}) { vpc(m)["holder"] = w.Ents["mallory"].DID }),
		pe("id-changed", func(r *rand.Rand, m map[string]interface{}) { vpc(m)["id"] = "urn:uuid:forged" }),
		pe("iss-changed", func(r *rand.Rand, m map[string]interface{}) { m["iss"] = w.Ents["mallory"].DID }),
		pe("member-added", func(r *rand.Rand, m map[string]interface{}) { vpc(m)["extra"] = "x" }),
		pe("credential-removed", func(r *rand.Rand, m map[string]interface{}) {
			if vpc(m)["verifiableCredential"] == nil {
				vpc(m)["verifiableCredential"] = []interface{}{}
			} else {
				delete(vpc(m), "verifiableCredential")
			}
		}),
		{"payload-bit", func(r *rand.Rand, p *presentation) []byte {
			return with(p, func(x *vh.Cose) { x.Payload = flipBit(r)(x.PL()) })
		}},
		{"sig-bit", func(r *rand.Rand, p *presentation) []byte {
			return with(p, func(x *vh.Cose) { x.Sig = flipBit(r)(x.Sig) })
		}},
		{"sig-cut", func(r *rand.Rand, p *presentation) []byte {
			return with(p, func(x *vh.Cose) { x.Sig = x.Sig[:1+r.Intn(len(x.Sig)-1)] })
		}},
		{"sig-zero", func(r *rand.Rand, p *presentation) []byte {
			return with(p, func(x *vh.Cose) { x.Sig = make([]byte, len(x.Sig)) })
		}},
		{"sig-payload-only", func(r *rand.Rand, p *presentation) []byte {
			return with(p, func(x *vh.Cose) { x.Sig, _ = p.key.Sign(x.PL()) })
		}},
		{"prot-changed", func(r *rand.Rand, p *presentation) []byte {
			h := vh.CoseHdr(p.key)
			h["x"] = "y"
			return with(p, func(x *vh.Cose) { x.Prot = vh.CB(h) })
		}},
		{"alg-other", func(r *rand.Rand, p *presentation) []byte {
			h := vh.CoseHdr(p.key)
			for h[1] == int64(p.key.COSEAlg()) {
				h[1] = vh.Pick[int64](r, -7, -8, -35, -36, -37, -257, 0)
			}
			return vh.MakeCose(h, p.cose.PL(), p.key).Bytes()
		}},
		{"kid-unprotected", func(r *rand.Rand, p *presentation) []byte {
			x := vh.MakeCose(map[interface{}]interface{}{1: int64(p.key.COSEAlg())}, p.cose.PL(), p.key)
			x.Unprot = map[interface{}]interface{}{4: []byte(p.key.ID)}
			return x.Bytes()
		}},
		{"kid-unknown", func(r *rand.Rand, p *presentation) []byte {
			h := vh.CoseHdr(p.key)
			h[4] = []byte(vh.Pick(r, p.key.ID+"x", "x", "did:verif:nobody#k"))
			return vh.MakeCose(h, p.cose.PL(), p.key).Bytes()
		}},
		{"attacker-victim-kid", func(r *rand.Rand, p *presentation) []byte {
			k := w.Ents["mallory"].Keys[vh.Pick(r, "EdDSA", "ES256", "ES384")]
			h := vh.CoseHdr(w.Ents["holder"].Keys[k.Alg])
			return vh.MakeCose(h, p.cose.PL(), k).Bytes()
		}},
		{"attacker-own-kid", func(r *rand.Rand, p *presentation) []byte {
			k := w.Ents["mallory"].Keys[p.key.Alg]
			return vh.MakeCose(vh.CoseHdr(k), p.cose.PL(), k).Bytes()
		}},
		{"attacker-own-kid-holder-only", func(r *rand.Rand, p *presentation) []byte { // no issuer claim: the holder has to have signed
			k := w.Ents["mallory"].Keys[p.key.Alg]
			return vh.MakeCose(vh.CoseHdr(k), claims(p, func(m map[string]interface{}) { delete(m, "iss") }), k).Bytes()
		}},
		{"key-agreement", func(r *rand.Rand, p *presentation) []byte {
			k := w.Ents["holder"].KA
			return vh.MakeCose(vh.CoseHdr(k), p.cose.PL(), k).Bytes()
		}},
		{"no-vp", func(r *rand.Rand, p *presentation) []byte {
			return vh.MakeCose(vh.CoseHdr(p.key), claims(p, func(m map[string]interface{}) { m["vp"] = vh.Pick[interface{}](r, "x", nil, 5) }), p.key).Bytes()
		}},
	}
}

// badEmbedded gives a broken version of an embedded credential.
func badEmbedded(r *rand.Rand, e emb) (interface{}, string) {
	m := w.Ents["mallory"]

	switch e.kind {
	case "jwt", "sdjwt":
		tok := e.tok.(string)
		rest := ""

		if i := strings.Index(tok, "~"); i >= 0 {
			tok, rest = tok[:i], tok[i:]
		}

		ps := strings.Split(tok, ".")
		n := ""

		switch r.Intn(6) {
		case 0:
			n, ps[2] = "sig-bit", edit(ps[2], flipBit(r))
		case 1:
			pl := vh.M(dec(ps[1]))
			leafEdit(r, pl)
			n, ps[1] = "payload", vh.B64(vh.J(pl))
		case 2:
			k := m.Keys[e.alg]
			n, ps = "attacker-own-kid", strings.Split(vh.JWS(map[string]interface{}{"alg": e.alg, "kid": k.ID}, dec(ps[1]), k), ".")
		case 3:
			k := m.Keys["EdDSA"]
			n, ps = "attacker-victim-kid", strings.Split(vh.JWS(map[string]interface{}{"alg": "EdDSA", "kid": w.Ents["issuer"].Keys["EdDSA"].ID}, dec(ps[1]), k), ".")
		case 4:
			n, ps[0], ps[2] = "unsecured", vh.B64([]byte(`{"alg":"none"}`)), ""
		default:
			if rest == "" || rest == "~" {
				return nil, ""
			}
			ds := strings.Split(strings.Trim(rest, "~"), "~")
			i := r.Intn(len(ds))
			ds[i] = edit(ds[i], func(b []byte) []byte { return append(b, ' ') })
			n, rest = "disclosure", "~"+strings.Join(ds, "~")+"~"
		}

		return vh.EmbedForm(r, e.kind, strings.Join(ps, ".")+rest, e.env), n
	case "cwt":
		x := vh.ParseCose(e.tok.([]byte))
		k := m.Keys[e.alg]

		n := vh.Pick(r, "sig-bit", "payload", "attacker-own-kid", "no-sig")
		switch n {
		case "sig-bit":
			x.Sig = flipBit(r)(x.Sig)
		case "payload":
			x.Payload = flipBit(r)(x.PL())
		case "no-sig":
			x.Sig = []byte{}
		default:
			x = vh.MakeCose(vh.CoseHdr(k), x.PL(), k)
		}

		return vh.EmbedForm(r, e.kind, x.Bytes(), e.env), n
	case "ld":
		d := vh.CloneM(e.tok.(map[string]interface{}))
		d["credentialSubject"] = map[string]interface{}{"id": "did:example:thief"}

		return d, "ld-claims"
	}

	return vh.Pick[interface{}](r, "garbage", 7.0, nil, []interface{}{}, "", true, map[string]interface{}{"type": "EnvelopedVerifiableCredential"},
		map[string]interface{}{"type": "EnvelopedVerifiableCredential", "id": "data:text/plain,hello"},
		map[string]interface{}{"type": []interface{}{"EnvelopedVerifiableCredential"}, "id": 7.0}), "garbage"
}

func run(c *vh.Check) {
	w = vh.NewWorld("holder", "issuer", "mallory")
	w.PrepareLD()
	w.PrepareDI()
	div = w.DIVerifier()
	fs := map[string][]forge{"jwt": jwtForgeries(), "cwt": cwtForgeries(), "ld": embeddedForgeries(), "di": embeddedForgeries(), "unsecured": embeddedForgeries()}

	c.Cases("genuine", c.N(1500, 15000), func(r *rand.Rand, i int) {
		form := forms[i%len(forms)]
		p := make1(r, form, r.Intn(5))
		vp, entry, err := parse(r, p, p.b)
		ks := ""

		for _, e := range p.creds {
			ks += e.kind[:1]
		}

		c.Eval(fmt.Sprintf("genuine|%s|%s|%s|%s", form, p.suite, entry, ks))
		c.Sample(fmt.Sprintf("genuine %s %s with [%s] via %s", form, p.suite, ks, entry))

		if !c.Expect(err == nil, "genuine-rejected:"+form, fmt.Sprintf("genuine %s presentation (%s) rejected via %s: %v", form, p.suite, entry, err), string(p.b)) {
			return
		}

		c.Count("accept.genuine", 1)

		ids := []string{}
		for _, cr := range vp.Credentials() {
			ids = append(ids, cr.Contents().ID)
		}

		want := []string{}
		for _, e := range p.creds {
			want = append(want, e.id)
		}

		id, _ := p.doc["id"].(string)
		if c.Expect(fmt.Sprint(ids) == fmt.Sprint(want), "genuine-credentials", fmt.Sprintf("credentials %v, presented %v", ids, want), string(p.b)) &&
			c.Expect(vp.Holder == "did:verif:holder", "genuine-holder", "holder reported as "+vp.Holder, string(p.b)) &&
			c.Expect(vp.ID == id, "genuine-id", "id reported as "+vp.ID, string(p.b)) {
			c.Count("content", 1)
		}

		// no checker, no acceptance
		var ierr error
		if form == "di" {
			_, ierr = verifiable.ParsePresentation(p.b, verifiable.WithPresJSONLDDocumentLoader(w.Loader), verifiable.WithPresProofChecker(w.Checker))
		} else {
			_, ierr = verifiable.ParsePresentation(p.b, verifiable.WithPresJSONLDDocumentLoader(w.Loader))
		}

		c.Eval("no-checker|" + form)
		c.Expect(ierr != nil, "no-checker-accepted:"+form, form+" presentation accepted without a proof checker", string(p.b))

		if form == "di" {
			for n, o := range map[string]PO{
				"purpose":   verifiable.WithPresExpectedDataIntegrityFields("capabilityInvocation", "", ""),
				"domain":    verifiable.WithPresExpectedDataIntegrityFields(p.purpose, "https://verifier.example", ""),
				"challenge": verifiable.WithPresExpectedDataIntegrityFields(p.purpose, "", "expected"),
			} {
				_, _, err := parse(r, p, p.b, o)
				c.Eval("expect|" + n)

				if c.Expect(err != nil, "expectation-ignored:"+n, "presentation accepted although another "+n+" was expected", string(p.b)) {
					c.Count("reject.expectation", 1)
				}
			}

			_, _, err := parse(r, p, p.b, verifiable.WithPresExpectedDataIntegrityFields(p.purpose, p.domain, p.challenge))
			c.Expect(err == nil, "expectation-wrong", fmt.Sprintf("presentation with the expected purpose, domain, challenge rejected: %v", err), string(p.b))
		}
	})

	c.Cases("forged", c.N(3000, 40000), func(r *rand.Rand, i int) {
		form := forms[i%len(forms)]
		f := fs[form][(i/len(forms))%len(fs[form])]
		p := make1(r, form, r.Intn(4))

		b := f.f(r, p)
		if b == nil || string(b) == string(p.b) {
			return
		}

		if form == "unsecured" {
			if f.name == "leaf" && vh.M(b)["holder"] != p.signed["holder"] { // the unsigned claim restores the holder
				return
			}

			b = unsecured(r, vh.M(b), "did:verif:holder")

			if f.name == "holder-removed" || f.name == "holder-changed" { // the unsigned claim restores the holder
				d := vh.CloneM(p.signed)
				delete(d, "holder")
				b = []byte(vh.B64([]byte(`{"alg":"none"}`)) + "." + vh.B64(vh.J(map[string]interface{}{"vp": d, "iss": "did:verif:mallory"})) + ".")
			}
		}

		key := f.name
		vp, entry, err := parse(r, p, b)
		c.Eval(fmt.Sprintf("forged|%s|%s|%s|%s", form, f.name, p.suite, entry))
		c.Count("reject.presentation", 1)

		h := ""
		if err == nil {
			h = vp.Holder
		}

		c.Expect(err != nil, "forged-accepted:"+form+":"+key, fmt.Sprintf("%s presentation (%s) after %s accepted via %s, holder %q", form, p.suite, f.name, entry, h),
			map[string]interface{}{"signed": string(p.b), "received": string(b)})
	})

	// another party's linked-data or Data Integrity proof on a presentation that names the holder
	c.Cases("foreign-holder", c.N(80, 800), func(r *rand.Rand, i int) {
		form := []string{"ld", "di"}[i%2]
		p := make1(r, form, r.Intn(3))
		d := vh.CloneM(p.doc)

		var out map[string]interface{}
		if form == "di" {
			out = signDI(r, d, w.Ents["mallory"], p)
		} else {
			out, _ = signLD(r, d, w.Ents["mallory"])
		}

		_, _, err := parse(r, p, vh.J(out))
		c.Eval("foreign|" + form)
		c.Expect(err != nil, "forged-accepted:"+form+":foreign-holder", form+" presentation naming a holder accepted with another party's proof", vh.J(out))
	})

	// linked-data signed presentation of the v1 model holding credentials as strings: they are part of the content
	c.Cases("string-credentials", c.N(60, 600), func(r *rand.Rand, i int) {
		p := &presentation{form: "ld"}
		e1, e2 := embedded(r, 1, false), embedded(r, 1, false)

		for e1.kind != "jwt" {
			e1 = embedded(r, 1, false)
		}

		for e2.kind != "jwt" {
			e2 = embedded(r, 1, false)
		}

		p.doc = vpDoc(r, 1, "did:verif:holder", []emb{{val: e1.tok}}, true)
		d, _ := signLD(r, p.doc, w.Ents["holder"])
		_, _, err := parse(r, p, vh.J(d))
		c.Expect(err == nil, "string-credential-rejected", fmt.Sprintf("presentation with a JWT credential and LD proof rejected: %v", err), d)

		d["verifiableCredential"] = []interface{}{e2.tok}
		_, _, err = parse(r, p, vh.J(d))
		c.Eval("string-credential-swapped")
		c.Expect(err != nil, "string-credential-swapped", "LD-signed presentation accepted after its JWT credential was replaced by another", d)
	})

	// one broken embedded credential under a genuine proof of the presentation
	c.Cases("embedded", c.N(1600, 20000), func(r *rand.Rand, i int) {
		form := forms[i%len(forms)]
		h := w.Ents["holder"]
		v := 1 + r.Intn(2)
		ldForm := form == "ld" || form == "di" || form == "unsecured"
		n := 1 + r.Intn(4)

		var creds []emb
		for k := 0; k < n; k++ {
			creds = append(creds, embedded(r, v, ldForm))
		}

		pos := r.Intn(n)

		bad, name := badEmbedded(r, creds[pos])
		if name == "" {
			return
		}

		kind := creds[pos].kind
		creds[pos].val = bad
		p := &presentation{form: form, doc: vpDoc(r, v, h.DID, creds, ldForm)}

		if l, ok := p.doc["verifiableCredential"].([]interface{}); p.doc["verifiableCredential"] == nil || ok && len(l) == 0 {
			return // no credential at all
		}

		switch form {
		case "jwt":
			k := h.Keys[vh.Pick(r, vh.JWTAlgs...)]
			p.b = []byte(vh.JWS(map[string]interface{}{"alg": k.Alg, "kid": k.ID}, vh.J(map[string]interface{}{"iss": h.DID, "vp": p.doc}), k))
		case "cwt":
			k := h.Keys[vh.Pick(r, cwtAlgs...)]
			p.b = vh.MakeCose(vh.CoseHdr(k), vh.CB(map[string]interface{}{"iss": h.DID, "vp": p.doc}), k).Bytes()
		default:
			if name == "garbage" || name == "disclosure" || name == "payload" || name == "unsecured" || name == "ld-claims" {
				p.purpose = "assertionMethod"
				o := w.DIOpts(r, h, vh.DISuites[0])
				o.Purpose = p.purpose

				var ok bool
				if ok, _, _ = vh.Guard(func() { p.b = vh.J(w.DISign(p.doc, h, vh.DISuites[0], o)) }); ok {
					return // not expressible in JSON-LD
				}

				p.form = "di"
			} else {
				var d map[string]interface{}
				if ok, _, _ := vh.Guard(func() { d = signDI(r, p.doc, h, p) }); ok {
					return
				}

				p.b, p.form = vh.J(d), "di"
			}
		}

		_, entry, err := parse(r, p, p.b)
		c.Eval(fmt.Sprintf("embedded|%s|%s|%s|%v|%s|%d/%d", p.form, kind, name, creds[pos].env, entry, pos, n))

		if c.Expect(err != nil, "embedded-accepted:"+kind+":"+name, fmt.Sprintf("%s presentation accepted with a broken %s credential (%s) at %d of %d", p.form, kind, name, pos, n),
			string(p.b)) {
			c.Count("reject.embedded", 1)
		}
	})

	holderCases(c)
}

// holderCases: self-asserted credentials under the holder check.
func holderCases(c *vh.Check) {
	c.Cases("holder", c.N(240, 2400), func(r *rand.Rand, i int) {
		h := w.Ents["holder"]
		other := w.Ents["issuer"]
		form := []string{"ld", "di"}[i%2]
		signer := vh.Pick(r, h, h, other) // of the credential
		near := func() string {
			return vh.Pick(r, h.DID[:len(h.DID)-1], h.DID+"x", h.DID+":x", h.DID+"#ed", "did:verif:Holder", "did:verif", "https://holder.example")
		}
		issuer := vh.Pick(r, h.DID, h.DID, h.DID, other.DID, "did:verif:mallory", near())
		holder := vh.Pick(r, h.DID, h.DID, h.DID, "", other.DID, "did:verif:mallory", near())

		if r.Intn(5) == 0 { // alike, but not the same
			issuer, holder = vh.Pick(r, h.DID, near()), vh.Pick(r, h.DID, near())
		}

		doc := vh.Cred(r, vh.CredOpts{V: 1 + r.Intn(2), Issuer: issuer, OneSubject: true, NeedID: true, LDSafe: true})

		s := vh.LDSuites[r.Intn(len(vh.LDSuites)-1)]

		cred, err := w.LDSign(doc, w.LDContext(r, signer, s))
		if err != nil {
			panic("vh-fixture " + err.Error())
		}

		creds := []emb{{val: cred}}
		if r.Intn(3) == 0 { // beside another credential about the same subject
			d2 := vh.CloneM(doc)
			d2["id"] = "urn:second"
			d2["issuer"] = other.DID
			creds = append(creds, emb{val: d2})
			if r.Intn(2) == 0 {
				creds[0], creds[1] = creds[1], creds[0]
			}
		}

		p := &presentation{form: form, doc: vpDoc(r, 1, holder, creds, true)}
		v := "https://www.w3.org/2018/credentials/v1"
		p.doc["@context"] = []interface{}{v, vh.CtxVerif}

		if doc["@context"].([]interface{})[0] == vh.CtxV2 {
			p.doc["@context"] = []interface{}{vh.CtxV2, vh.CtxVerif}
		}

		var out map[string]interface{}
		if form == "di" {
			out = signDI(r, p.doc, h, p)
		} else {
			out, _ = signLD(r, p.doc, h)
		}

		selfAsserted := signer == h
		want := !selfAsserted || (holder != "" && holder == issuer)
		_, _, err = parse(r, p, vh.J(out), verifiable.WithPresHolderCheck(true))
		c.Eval(fmt.Sprintf("holder|%s|%v|%v|%v", form, selfAsserted, holder == issuer, holder == ""))

		if c.Expect((err == nil) == want, fmt.Sprintf("holder-check:%v", want),
			fmt.Sprintf("holder check: self-asserted %v, issuer %s, holder %q: got %v, want accepted=%v", selfAsserted, issuer, holder, err, want), out) {
			if want {
				c.Count("holder.accept", 1)
			} else {
				c.Count("holder.reject", 1)
			}
		}

		_, _, err = parse(r, p, vh.J(out), verifiable.WithPresHolderCheck(false))
		c.Expect(err == nil, "holder-check-off", fmt.Sprintf("rejected with the holder check off: %v", err), out)
	})
}
