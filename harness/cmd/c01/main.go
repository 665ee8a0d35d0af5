// C01: JWT credentials are accepted only when their issuer really signed them.
package main

import (
	"crypto"
	"crypto/hmac"
	"crypto/sha256"
	"encoding/base64"
	"fmt"
	"math/rand"
	"strings"

	"github.com/trustbloc/vc-go/jwt"
	"github.com/trustbloc/vc-go/verifharness/vh"
	"github.com/trustbloc/vc-go/verifiable"
)

var w *vh.World

func opts() []verifiable.CredentialOpt {
	return []verifiable.CredentialOpt{
		verifiable.WithProofChecker(w.Checker), verifiable.WithJSONLDDocumentLoader(w.Loader),
	}
}

func main() {
	vh.Main(vh.Spec{
		ID: "C01",
		Rule: "random v1/v2 credential x algorithm x issuer, signed by an independent signer or by the code; then one " +
			"single-fault alteration (payload, header, signature, key, kid, alg, issuer confusion). Non-trivial: distinct " +
			"(family, alteration, algorithm, entry point) tuples with a verdict.",
		Level:   "exploration",
		Require: map[string]int64{"accept.genuine": 150, "accept.sd-jwt": 100, "hidden-issuer": 200, "reject.forged": 600, "jwt.genuine": 40, "jwt.forged": 80},
		Assumptions: []string{
			"the Go standard library and btcec sign correctly", "DID documents come from a local registry"},
		Run: run,
	})
}

type tok struct {
	hdr     map[string]interface{}
	payload map[string]interface{}
	key     *vh.Key
	s       string
	cred    map[string]interface{}
	byCode  bool
	sfx     string // disclosures of an SD-JWT credential
}

func parts(s string) (string, string, string) {
	p := strings.Split(s, ".")
	return p[0], p[1], p[2]
}

func dec(s string) []byte {
	b, err := base64.RawURLEncoding.DecodeString(s)
	if err != nil {
		panic("vh-fixture b64 " + err.Error())
	}

	return b
}

func verifiableSubject(cred map[string]interface{}) interface{} {
	if a, ok := cred["credentialSubject"].([]interface{}); ok {
		return a[0]
	}

	return cred["credentialSubject"]
}

// genuine makes a credential and its token.
func genuine(r *rand.Rand, ent *vh.Entity, alg string) *tok {
	key := ent.Keys[alg]
	v := 1 + r.Intn(2)
	cred := vh.Cred(r, vh.CredOpts{V: v, Issuer: ent.DID, OneSubject: true, NeedID: r.Intn(2) == 0})
	t := &tok{key: key, cred: cred}

	_, hasSub := vh.Get(vh.Norm(verifiableSubject(cred)), vh.Path{}).(map[string]interface{})["id"]

	if hasSub && r.Intn(2) == 0 {
		t.byCode = true

		vc, err := verifiable.ParseCredential(vh.J(cred), verifiable.WithDisabledProofCheck(),
			verifiable.WithCredDisableValidation(), verifiable.WithJSONLDDocumentLoader(w.Loader))
		if err != nil {
			panic("vh-fixture parse: " + err.Error())
		}

		signed, err := vc.CreateSignedJWTVC(r.Intn(2) == 0, key.JWSAlg(), w.Creator(ent), key.ID)
		if err != nil {
			panic(fmt.Sprintf("CreateSignedJWTVC: %v", err))
		}

		t.s, err = signed.ToJWTString()
		if err != nil {
			panic(fmt.Sprintf("ToJWTString: %v", err))
		}
	} else {
		pl := map[string]interface{}{"vc": vh.CloneM(cred)}
		if r.Intn(4) != 0 {
			pl["iss"] = ent.DID
		}

		if r.Intn(2) == 0 {
			pl["sub"] = "did:example:sub" + vh.SafeStr(r)
		}

		if r.Intn(2) == 0 {
			pl["jti"] = "urn:id:" + vh.SafeStr(r)
		}

		if r.Intn(2) == 0 {
			pl["nbf"] = float64(1500000000 + r.Intn(1000000))
		}

		if r.Intn(8) == 0 && pl["iss"] != nil { // issuer only in the registered claim
			delete(pl["vc"].(map[string]interface{}), "issuer")
		}

		// digests inside the elements of an array are not looked for
		if sub, ok := pl["vc"].(map[string]interface{})["credentialSubject"].(map[string]interface{}); ok && r.Intn(3) == 0 {
			t.sfx = hide(r, pl["vc"].(map[string]interface{}), sub)
		}

		h := map[string]interface{}{"alg": alg, "kid": key.ID}
		if r.Intn(2) == 0 {
			h["typ"] = vh.Pick(r, "JWT", "vc+jwt", "vc+sd-jwt")
		}

		t.s = vh.JWS(h, vh.J(pl), key)
	}

	h, p, _ := parts(t.s)
	t.hdr, t.payload = vh.M(dec(h)), vh.M(dec(p))

	return t
}

// hide turns the credential into an SD-JWT credential and gives the disclosures.
func hide(r *rand.Rand, vc, at map[string]interface{}) string {
	var ds []interface{}

	sfx := "~"

	for i, n := 0, 1+r.Intn(3); i < n; i++ {
		d := vh.EncDisc(vh.B64([]byte(fmt.Sprint("salt", i, r.Int63()))), fmt.Sprint("hidden", i), r.Intn(1000))
		ds = append(ds, vh.SDDigest(d, crypto.SHA256))

		if r.Intn(4) != 0 {
			sfx += d + "~"
		}
	}

	at["_sd"] = ds
	vc["_sd_alg"] = "sha-256"

	return sfx
}

// accepted runs one entry point and says whether it accepted, and the issuer it reported.
func accepted(entry int, s string) (bool, string, error) {
	var (
		vc  *verifiable.Credential
		err error
	)

	switch entry {
	case 0:
		vc, err = verifiable.ParseCredential([]byte(s), opts()...)
	case 1:
		vc, err = verifiable.ParseCredential([]byte("\""+s+"\""), verifiable.WithJWTProofChecker(w.Checker), verifiable.WithJSONLDDocumentLoader(w.Loader))
	case 2:
		vc, err = verifiable.ParseCredential([]byte(s), append(opts(), verifiable.WithDisabledProofCheck())...)
		if err == nil {
			err = vc.CheckProof(opts()...)
		}
	case 3:
		env := map[string]interface{}{"@context": vh.CtxV2, "type": "EnvelopedVerifiableCredential",
			"id": "data:" + mediaType(s) + "," + s}
		vc, err = verifiable.ParseCredential(vh.J(env), opts()...)
	default:
		env := map[string]interface{}{"@context": vh.CtxV2, "type": "EnvelopedVerifiableCredential",
			"id": "data:" + mediaType(s) + "," + s}
		vc, err = verifiable.ParseCredentialJSON(env, opts()...)
	}

	if err != nil {
		return false, "", err
	}

	iss := ""
	if i := vc.Contents().Issuer; i != nil {
		iss = i.ID
	}

	return true, iss, nil
}

func mediaType(s string) string {
	if strings.Contains(s, "~") {
		return "application/vc-ld+sd-jwt"
	}

	return "application/vc-ld+jwt"
}

var entryName = []string{"bytes", "quoted", "disabled+CheckProof", "enveloped", "enveloped-json"}

func reJWS(hdr, payload map[string]interface{}, sig string) string {
	return vh.B64(vh.J(hdr)) + "." + vh.B64(vh.J(payload)) + "." + sig
}

type forge struct {
	name string
	f    func(r *rand.Rand, t *tok, other *tok) string // "" : not applicable
}

var mallory, issuers = "mallory", []string{"alice", "bob"}

func forgeries() []forge {
	m := func() *vh.Entity { return w.Ents[mallory] }

	return []forge{
		{"payload-leaf", func(r *rand.Rand, t, _ *tok) string {
			_, _, sg := parts(t.s)
			p := vh.CloneM(t.payload)
			ls := vh.Leaves(p)
			l := ls[r.Intn(len(ls))]
			vh.Set(p, l, vh.Mutate(r, vh.Get(p, l)))
			return reJWS(t.hdr, p, sg)
		}},
		{"payload-member-added", func(r *rand.Rand, t, _ *tok) string {
			_, _, sg := parts(t.s)
			p := vh.CloneM(t.payload)
			p["vc"].(map[string]interface{})["extra"] = "claim"
			return reJWS(t.hdr, p, sg)
		}},
		{"payload-member-removed", func(r *rand.Rand, t, _ *tok) string {
			_, _, sg := parts(t.s)
			p := vh.CloneM(t.payload)
			vc := p["vc"].(map[string]interface{})
			ks := vh.SortedKeys(vc)
			delete(vc, ks[r.Intn(len(ks))])
			return reJWS(t.hdr, p, sg)
		}},
		{"payload-swapped", func(r *rand.Rand, t, o *tok) string {
			h, _, sg := parts(t.s)
			_, p, _ := parts(o.s)
			return h + "." + p + "." + sg
		}},
		{"payload-whitespace", func(r *rand.Rand, t, _ *tok) string {
			h, p, sg := parts(t.s)
			return h + "." + vh.B64(append(dec(p), ' ')) + "." + sg
		}},
		{"header-alg", func(r *rand.Rand, t, _ *tok) string {
			_, p, sg := parts(t.s)
			h := vh.CloneM(t.hdr)
			for h["alg"] == t.hdr["alg"] {
				h["alg"] = vh.Pick(r, vh.JWTAlgs...)
			}
			return vh.B64(vh.J(h)) + "." + p + "." + sg
		}},
		{"header-extra", func(r *rand.Rand, t, _ *tok) string {
			_, p, sg := parts(t.s)
			h := vh.CloneM(t.hdr)
			h["x"] = "y"
			return vh.B64(vh.J(h)) + "." + p + "." + sg
		}},
		{"header-kid-same-did", func(r *rand.Rand, t, _ *tok) string {
			_, p, sg := parts(t.s)
			h := vh.CloneM(t.hdr)
			for h["kid"] == t.hdr["kid"] {
				h["kid"] = w.Ents[issuers[0]].Keys[vh.Pick(r, vh.JWTAlgs...)].ID
			}
			return vh.B64(vh.J(h)) + "." + p + "." + sg
		}},
		{"sig-bit", func(r *rand.Rand, t, _ *tok) string {
			h, p, sg := parts(t.s)
			b := dec(sg)
			b[r.Intn(len(b))] ^= 1 << r.Intn(8)
			return h + "." + p + "." + vh.B64(b)
		}},
		{"sig-truncated", func(r *rand.Rand, t, _ *tok) string {
			h, p, sg := parts(t.s)
			b := dec(sg)
			return h + "." + p + "." + vh.B64(b[:len(b)-1-r.Intn(len(b)-1)])
		}},
		{"sig-extended", func(r *rand.Rand, t, _ *tok) string {
			h, p, sg := parts(t.s)
			return h + "." + p + "." + vh.B64(append(dec(sg), byte(r.Intn(256))))
		}},
		{"sig-zero", func(r *rand.Rand, t, _ *tok) string {
			h, p, sg := parts(t.s)
			return h + "." + p + "." + vh.B64(make([]byte, len(dec(sg))))
		}},
		{"sig-empty", func(r *rand.Rand, t, _ *tok) string {
			h, p, _ := parts(t.s)
			return h + "." + p + "."
		}},
		{"sig-other-token", func(r *rand.Rand, t, o *tok) string {
			h, p, _ := parts(t.s)
			_, _, sg := parts(o.s)
			return h + "." + p + "." + sg
		}},
		{"sig-payload-only", func(r *rand.Rand, t, _ *tok) string {
			h, p, _ := parts(t.s)
			b, _ := t.key.Sign(dec(p))
			return h + "." + p + "." + vh.B64(b)
		}},
		{"alg-none-nosig", func(r *rand.Rand, t, _ *tok) string {
			h := vh.CloneM(t.hdr)
			h["alg"] = "none"
			return reJWS(h, t.payload, "")
		}},
		{"alg-none-sig", func(r *rand.Rand, t, _ *tok) string {
			h := vh.CloneM(t.hdr)
			h["alg"] = vh.Pick(r, "none", "None", "NONE", "")
			return reJWS(h, t.payload, vh.B64([]byte("sig")))
		}},
		{"alg-none-signed", func(r *rand.Rand, t, _ *tok) string {
			h := vh.CloneM(t.hdr)
			h["alg"] = "none"
			return vh.JWS(h, vh.J(t.payload), t.key)
		}},
		{"alg-missing", func(r *rand.Rand, t, _ *tok) string {
			h := vh.CloneM(t.hdr)
			delete(h, "alg")
			return vh.JWS(h, vh.J(t.payload), t.key)
		}},
		{"alg-hmac", func(r *rand.Rand, t, _ *tok) string {
			h := vh.CloneM(t.hdr)
			h["alg"] = "HS256"
			in := vh.B64(vh.J(h)) + "." + vh.B64(vh.J(t.payload))
			mac := hmac.New(sha256.New, t.key.Bytes)
			mac.Write([]byte(in))
			return in + "." + vh.B64(mac.Sum(nil))
		}},
		{"alg-mismatched-signed", func(r *rand.Rand, t, _ *tok) string { // signed over a header naming another algorithm
			h := vh.CloneM(t.hdr)
			for h["alg"] == t.hdr["alg"] {
				h["alg"] = vh.Pick(r, append([]string{"HS256", "ES512", "Ed25519", "RS512"}, vh.JWTAlgs...)...)
			}
			return vh.JWS(h, vh.J(t.payload), t.key)
		}},
		{"kid-missing", func(r *rand.Rand, t, _ *tok) string {
			h := vh.CloneM(t.hdr)
			delete(h, "kid")
			return vh.JWS(h, vh.J(t.payload), t.key)
		}},
		{"kid-unknown", func(r *rand.Rand, t, _ *tok) string {
			h := vh.CloneM(t.hdr)
			h["kid"] = vh.Pick[interface{}](r, t.hdr["kid"].(string)+"x", "", "key-1", 7.0, nil, t.hdr["kid"].(string)[:len(t.hdr["kid"].(string))-1])
			return vh.JWS(h, vh.J(t.payload), t.key)
		}},
		{"attacker-key-own-kid", func(r *rand.Rand, t, _ *tok) string {
			k := m().Keys[t.key.Alg]
			h := vh.CloneM(t.hdr)
			h["kid"] = k.ID
			return vh.JWS(h, vh.J(t.payload), k)
		}},
		{"attacker-key-victim-kid", func(r *rand.Rand, t, _ *tok) string {
			k := m().Keys[t.key.Alg]
			if strings.HasPrefix(k.Alg, "RS") || strings.HasPrefix(k.Alg, "PS") {
				k = m().Keys["EdDSA"]
			}
			return vh.JWS(t.hdr, vh.J(t.payload), k)
		}},
		{"attacker-embedded-jwk", func(r *rand.Rand, t, _ *tok) string {
			k := m().Keys["ES256"]
			h := vh.CloneM(t.hdr)
			var j interface{}
			b, _ := k.JWK.MarshalJSON()
			_ = vh.UnJ(b, &j)
			h["jwk"] = j
			h["alg"] = "ES256"
			return vh.JWS(h, vh.J(t.payload), k)
		}},
		{"attacker-fragment-clash", func(r *rand.Rand, t, _ *tok) string { // same fragment, other DID
			k := m().Keys[t.key.Alg]
			h := vh.CloneM(t.hdr)
			h["kid"] = m().DID + "#" + strings.SplitN(t.key.ID, "#", 2)[1]
			return vh.JWS(h, vh.J(t.payload), k)
		}},
		{"attacker-did-extends-victim", func(r *rand.Rand, t, _ *tok) string {
			k := w.Ents[vh.Pick(r, "alice2", "alice:sub")].Keys[t.key.Alg]
			h := vh.CloneM(t.hdr)
			h["kid"] = k.ID
			return vh.JWS(h, vh.J(t.payload), k)
		}},
		{"kid-case", func(r *rand.Rand, t, _ *tok) string { // key ids are case-sensitive
			h := vh.CloneM(t.hdr)
			h["kid"] = strings.Replace(t.key.ID, "alice#", "alice#"+vh.Pick(r, "x", " ", "#"), 1)
			return vh.JWS(h, vh.J(t.payload), t.key)
		}},
		{"key-agreement-key", func(r *rand.Rand, t, _ *tok) string {
			k := w.Ents[issuers[0]].KA
			h := vh.CloneM(t.hdr)
			h["kid"], h["alg"] = k.ID, "EdDSA"
			return vh.JWS(h, vh.J(t.payload), k)
		}},
		{"iss-attacker-issuer-victim", func(r *rand.Rand, t, _ *tok) string {
			k := m().Keys[t.key.Alg]
			h, p := vh.CloneM(t.hdr), vh.CloneM(t.payload)
			h["kid"] = k.ID
			p["iss"] = m().DID
			p["vc"].(map[string]interface{})["issuer"] = vh.Pick[interface{}](r, w.Ents[issuers[0]].DID,
				map[string]interface{}{"id": w.Ents[issuers[0]].DID})
			return vh.JWS(h, vh.J(p), k)
		}},
		{"iss-victim-issuer-attacker", func(r *rand.Rand, t, _ *tok) string {
			k := m().Keys[t.key.Alg]
			h, p := vh.CloneM(t.hdr), vh.CloneM(t.payload)
			h["kid"] = k.ID
			p["iss"] = w.Ents[issuers[0]].DID
			p["vc"].(map[string]interface{})["issuer"] = m().DID
			return vh.JWS(h, vh.J(p), k)
		}},
		{"no-issuer-at-all", func(r *rand.Rand, t, _ *tok) string {
			p := vh.CloneM(t.payload)
			delete(p, "iss")
			delete(p["vc"].(map[string]interface{}), "issuer")
			return vh.JWS(t.hdr, vh.J(p), t.key)
		}},
		{"unknown-issuer", func(r *rand.Rand, t, _ *tok) string {
			p := vh.CloneM(t.payload)
			iss := vh.ForeignIssuer(r)
			p["iss"] = iss
			p["vc"].(map[string]interface{})["issuer"] = iss
			if r.Intn(3) == 0 {
				delete(p, "iss")
			}
			if r.Intn(2) == 0 {
				k := w.Ents[mallory].Keys[t.key.Alg]
				h := vh.CloneM(t.hdr)
				h["kid"] = k.ID
				return vh.JWS(h, vh.J(p), k)
			}
			return vh.JWS(t.hdr, vh.J(p), t.key)
		}},
	}
}

func run(c *vh.Check) {
	w = vh.NewWorld("alice", "bob", mallory, "alice2", "alice:sub")
	fs := forgeries()

	c.Cases("genuine", c.N(2800, 20000), func(r *rand.Rand, i int) {
		ent := w.Ents[issuers[r.Intn(2)]]
		alg := vh.JWTAlgs[i%len(vh.JWTAlgs)]
		t := genuine(r, ent, alg)
		entry := r.Intn(5)
		ok, iss, err := accepted(entry, t.s+t.sfx)

		if t.sfx != "" {
			c.Count("accept.sd-jwt", 1)
		}

		c.Eval(fmt.Sprintf("genuine|%s|%s|%v", alg, entryName[entry], t.byCode))
		c.Sample(fmt.Sprintf("genuine %s via %s", alg, entryName[entry]))

		if !c.Expect(ok, "genuine-rejected:"+alg, fmt.Sprintf("genuine %s token rejected via %s: %v", alg, entryName[entry], err), t.s) {
			return
		}

		c.Count("accept.genuine", 1)
		c.Expect(iss == ent.DID, "genuine-wrong-issuer", fmt.Sprintf("issuer %q, signed by %q", iss, ent.DID), t.s)
	})

	c.Cases("forged", c.N(len(fs)*7*40, len(fs)*7*300), func(r *rand.Rand, i int) {
		f := fs[i%len(fs)]
		alg := vh.JWTAlgs[(i/len(fs))%len(vh.JWTAlgs)]
		ent := w.Ents[issuers[0]]
		t := genuine(r, ent, alg)
		o := genuine(r, ent, vh.Pick(r, vh.JWTAlgs...))
		for o.s == t.s {
			o = genuine(r, ent, alg)
		}

		s := f.f(r, t, o)
		if s == "" {
			return
		}

		entry := r.Intn(5)

		c.Sample(fmt.Sprintf("%s %s via %s", f.name, alg, entryName[entry]))

		ok, iss, _ := accepted(entry, s+t.sfx)
		c.Eval(fmt.Sprintf("%s|%s|%s|%v", f.name, alg, entryName[entry], t.sfx != ""))
		c.Count("reject.forged", 1)
		c.Expect(!ok, "forged-accepted:"+f.name, fmt.Sprintf("%s (%s) accepted via %s as issued by %q", f.name, alg, entryName[entry], iss), s)
	})

	// an attacker signs, with his own key, payloads whose issuer is ambiguous: whatever is accepted has to be his.
	// checkers of other forms only, or none: nothing can be accepted as proven
	c.Cases("no-checker", c.N(60, 400), func(r *rand.Rand, i int) {
		t := genuine(r, w.Ents[issuers[r.Intn(2)]], vh.Pick(r, vh.JWTAlgs...))
		o := []verifiable.CredentialOpt{verifiable.WithJSONLDDocumentLoader(w.Loader)}
		which := ""

		if r.Intn(2) == 0 {
			o, which = append(o, verifiable.WithLDProofChecker(w.Checker)), which+"ld"
		}

		if r.Intn(2) == 0 {
			o, which = append(o, verifiable.WithCWTProofChecker(w.Checker)), which+"cwt"
		}

		_, err := verifiable.ParseCredential([]byte(t.s+t.sfx), o...)
		c.Eval("no-checker/" + which)
		c.Expect(err != nil, "no-checker-accepted", "accepted without a checker for JWT proofs, with: "+which, t.s+t.sfx)
	})

	c.Cases("ambiguous", c.N(1600, 12000), func(r *rand.Rand, i int) {
		m := w.Ents[mallory]
		k := m.Keys[vh.Pick(r, vh.JWTAlgs...)]
		a, v := m.DID, w.Ents["alice"].DID
		body := fmt.Sprintf(`{"@context":["%s"],"type":["VerifiableCredential"],"credentialSubject":{"id":"did:x:1"},"issuanceDate":"2020-01-01T00:00:00Z"%%s}`, vh.CtxV1)
		issA, issV := fmt.Sprintf(`"iss":%q`, a), fmt.Sprintf(`"iss":%q`, v)
		vcs := []string{fmt.Sprintf(body, fmt.Sprintf(`,"issuer":%q`, a)), fmt.Sprintf(body, fmt.Sprintf(`,"issuer":%q`, v)),
			fmt.Sprintf(body, ""), fmt.Sprintf(body, fmt.Sprintf(`,"issuer":%q,"issuer":%q`, a, v)),
			fmt.Sprintf(body, fmt.Sprintf(`,"issuer":%q,"Issuer":%q`, a, v)), fmt.Sprintf(body, fmt.Sprintf(`,"issuer":{"id":%q,"id":%q}`, a, v))}
		heads := []string{issA, issV, issA + "," + issV, issV + "," + issA, issA + `,"ISS":"` + v + `"`, `"Iss":"` + v + `",` + issA, `"iss":""`, `"iss":"https://x.example"`}
		pl := "{" + vh.Pick(r, heads...) + `,"vc":` + vh.Pick(r, vcs...) + "}"

		if r.Intn(4) == 0 {
			pl = "{" + vh.Pick(r, heads...) + `,"vc":` + vh.Pick(r, vcs...) + `,"vc":` + vh.Pick(r, vcs...) + "}"
		}

		if r.Intn(4) == 0 { // flat payload without vc claim
			pl = "{" + vh.Pick(r, heads...) + "," + vh.Pick(r, vcs...)[1:]
		}

		s := vh.JWS(map[string]interface{}{"alg": k.Alg, "kid": k.ID}, []byte(pl), k)
		ok, iss, _ := accepted(r.Intn(3), s)
		c.Eval(fmt.Sprintf("ambiguous|%v|%v", ok, k.Alg))
		c.Count("ambiguous", 1)

		if ok {
			c.Expect(iss == a, "ambiguous-issuer", fmt.Sprintf("attacker's token accepted as issued by %q", iss), pl)
		}

		// generic JWT parsing with issuer check
		var cl jwt.Claims

		t, raw, err := jwt.ParseAndCheckProof(s, w.Checker, true, jwt.DecodeClaimsTo(&cl))
		c.Eval(fmt.Sprintf("ambiguous-jwt|%v", err == nil))

		if err == nil {
			got := fmt.Sprint(t.Payload["iss"])
			c.Expect(got == a, "jwt-ambiguous-issuer", fmt.Sprintf("attacker's JWT accepted with claim iss=%q", got), string(raw))
			c.Expect(cl.Issuer == a || cl.Issuer == got, "jwt-ambiguous-issuer-struct", fmt.Sprintf("decoded issuer %q", cl.Issuer), string(raw))
		}
	})

	// claims hidden in disclosures cannot name the issuer
	c.Cases("hidden-issuer", c.N(400, 3000), func(r *rand.Rand, i int) {
		m, a := w.Ents[mallory], w.Ents["alice"].DID
		k := m.Keys[vh.Pick(r, vh.JWTAlgs...)]
		vc := map[string]interface{}{"@context": []interface{}{vh.CtxV1}, "type": []interface{}{"VerifiableCredential"},
			"credentialSubject": map[string]interface{}{"id": "did:x:1"}, "issuanceDate": "2020-01-01T00:00:00Z"}
		pl := map[string]interface{}{"vc": vc}
		at, name, val := vc, "issuer", interface{}(a)

		switch r.Intn(4) {
		case 0:
			val = map[string]interface{}{"id": a}
		case 1:
			vc["issuer"] = map[string]interface{}{"name": "M"}
			at, name = vc["issuer"].(map[string]interface{}), "id"
		case 2:
			vc["issuer"] = map[string]interface{}{"id": m.DID, "name": "M"}
			at, name = vc["issuer"].(map[string]interface{}), "id"
		}

		if r.Intn(2) == 0 {
			pl["iss"] = m.DID
		}

		d := vh.EncDisc("c2FsdHNhbHQ", name, val)
		at["_sd"], vc["_sd_alg"] = []interface{}{vh.SDDigest(d, crypto.SHA256)}, "sha-256"
		s := vh.JWS(map[string]interface{}{"alg": k.Alg, "kid": k.ID}, vh.J(pl), k) + "~" + d + "~"
		entry := r.Intn(5)
		ok, iss, _ := accepted(entry, s)
		c.Eval(fmt.Sprintf("hidden-issuer|%v|%s|%v", ok, name, entryName[entry]))
		c.Count("hidden-issuer", 1)

		if !ok {
			return
		}

		c.Expect(iss == m.DID, "hidden-issuer", fmt.Sprintf("attacker's SD-JWT accepted as issued by %q", iss), s)

		p, err := verifiable.ParseCredential([]byte(s), opts()...)
		if err != nil {
			return
		}

		if dc, err := p.CreateDisplayCredential(verifiable.DisplayAllDisclosures()); err == nil && dc.Contents().Issuer != nil {
			c.Expect(dc.Contents().Issuer.ID == m.DID, "hidden-issuer-display", fmt.Sprintf("attacker's SD-JWT displayed as issued by %q", dc.Contents().Issuer.ID), s)
		}
	})

	runJWT(c)
}

// runJWT: the generic JWT entry point, with and without issuer binding.
func runJWT(c *vh.Check) {
	c.Cases("jwt", c.N(2100, 14000), func(r *rand.Rand, i int) {
		ent := w.Ents["alice"]
		alg := vh.JWTAlgs[i%len(vh.JWTAlgs)]
		k := ent.Keys[alg]
		pl := map[string]interface{}{"iss": ent.DID, "sub": vh.Str(r), "data": vh.Val(r, 2, false)}
		h := map[string]interface{}{"alg": alg, "kid": k.ID}
		s := vh.JWS(h, vh.J(pl), k)

		tk, raw, err := jwt.ParseAndCheckProof(s, w.Checker, true)
		c.Eval("jwt-genuine|" + alg)

		if c.Expect(err == nil, "jwt-genuine-rejected:"+alg, fmt.Sprintf("genuine JWT rejected: %v", err), s) {
			c.Count("jwt.genuine", 1)
			c.Expect(string(raw) == string(vh.J(pl)), "jwt-payload", "payload differs", s)
			c.Expect(tk.Payload["iss"] == ent.DID, "jwt-claims", "claims differ", s)
		}

		m := w.Ents[mallory].Keys[alg]
		hp, pp, sp := parts(s)

		var bad, name string

		switch r.Intn(9) {
		case 0:
			name, bad = "sig-bit", func() string { b := dec(sp); b[r.Intn(len(b))] ^= 1; return hp + "." + pp + "." + vh.B64(b) }()
		case 1:
			p2 := vh.CloneM(pl)
			p2["sub"] = "other"
			p2["x"] = 1.0
			name, bad = "payload", vh.B64(vh.J(h))+"."+vh.B64(vh.J(p2))+"."+sp
		case 2:
			name, bad = "attacker-own-kid", vh.JWS(map[string]interface{}{"alg": alg, "kid": m.ID}, vh.J(pl), m)
		case 3:
			p2 := vh.CloneM(pl)
			delete(p2, "iss")
			name, bad = "no-iss", vh.JWS(h, vh.J(p2), k)
		case 4:
			name, bad = "none", vh.B64(vh.J(map[string]interface{}{"alg": "none", "kid": k.ID}))+"."+pp+"."
		case 5:
			name, bad = "iss-other", vh.JWS(h, vh.J(map[string]interface{}{"iss": "did:verif:bob"}), k)
		case 6:
			name, bad = "no-kid", vh.JWS(map[string]interface{}{"alg": alg}, vh.J(pl), k)
		case 7:
			name, bad = "key-agreement", vh.JWS(map[string]interface{}{"alg": "EdDSA", "kid": ent.KA.ID}, vh.J(pl), ent.KA)
		default:
			name, bad = "detached-other", hp+".."+sp
		}

		var o []jwt.ParseOpt
		if name == "detached-other" {
			o = append(o, jwt.WithJWTDetachedPayload([]byte(`{"iss":"`+ent.DID+`","evil":1}`)))
		}

		_, _, err = jwt.ParseAndCheckProof(bad, w.Checker, true, o...)
		c.Eval("jwt|" + name + "|" + alg)
		c.Count("jwt.forged", 1)
		c.Expect(err != nil, "jwt-forged-accepted:"+name, "forged JWT accepted: "+name, bad)

		if i%5 == 0 { // detached form
			_, raw, err := jwt.ParseAndCheckProof(hp+".."+sp, w.Checker, true, jwt.WithJWTDetachedPayload(vh.J(pl)))
			c.Expect(err == nil && string(raw) == string(vh.J(pl)), "jwt-detached", fmt.Sprintf("genuine detached JWT: %v", err), s)
		}
	})
}
