// C17: domain linkage is confirmed only by a genuine credential for that DID and origin.
package main

import (
	"bytes"
	"crypto/ed25519"
	"encoding/hex"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net/http"
	"strings"
	"time"

	"github.com/trustbloc/vc-go/didconfig/client"
	"github.com/trustbloc/vc-go/didconfig/verifier"
	"github.com/trustbloc/vc-go/verifharness/vh"
	"github.com/trustbloc/vc-go/verifiable"
)

type (
	M = map[string]interface{}
	L = []interface{}
)

var (
	w    *vh.World
	keys []keyEnt // did:key entities
)

type keyEnt struct {
	did string
	k   *vh.Key
}

func main() {
	vh.Main(vh.Spec{
		ID: "C17",
		Rule: "single: a genuine linkage credential (embedded with each proof suite, JWT with each algorithm, did:verif and did:key, object or list subjects, issuer " +
			"string or object) with none or exactly one of about 80 deviations; list: 1..6 entries mixing genuine credentials of several DIDs and origins, deviating ones " +
			"and garbage, asked for every DID and origin; config: deviations of the surrounding document; client: the same through the HTTP client with faults. " +
			"Distinct: (deviation, form, proof) and (list composition, verdict).",
		Level: "exploration",
		Require: map[string]int64{"genuine.ld": 150, "genuine.jwt": 150, "genuine.didkey": 20, "deviated.ld": 600, "deviated.jwt": 600, "list.found": 300,
			"list.refused": 600, "config.refused": 60, "client.accepted": 50, "client.refused": 100},
		Assumptions: []string{"an expired linkage credential is not a deviation (the repository's tests use expired ones)",
			"origins that differ in spelling only (path, letter case, explicit default port) are not judged",
			"JWT credentials are not checked for their JSON-LD contexts (documented TODO)"},
		Run: run,
	})
}

func run(c *vh.Check) {
	w = vh.NewWorld("site", "other", "evil")
	w.PrepareLD()

	for i := 0; i < 4; i++ {
		k := vh.NewKey("EdDSA", fmt.Sprintf("didkey-%d", i))
		pub := k.Priv.(ed25519.PrivateKey).Public().(ed25519.PublicKey)
		mb := vh.MB58(append([]byte{0xed, 0x01}, pub...))
		d := "did:key:" + mb
		k.ID = d + "#" + mb
		keys = append(keys, keyEnt{d, k})
	}

	n := len(deviations())

	c.Cases("genuine", c.N(500, 6000), func(r *rand.Rand, _ int) { single(c, r, nil) })
	c.Cases("deviation", n*c.N(22, 260), func(r *rand.Rand, i int) { d := deviations()[i%n]; single(c, r, &d) })
	c.Cases("didkey", c.N(120, 1500), func(r *rand.Rand, _ int) { didKey(c, r) })
	c.Cases("list", c.N(500, 8000), func(r *rand.Rand, _ int) { list(c, r) })
	c.Cases("config", c.N(150, 1500), func(r *rand.Rand, _ int) { config(c, r) })
	c.Cases("client", c.N(300, 4000), func(r *rand.Rand, _ int) { viaClient(c, r) })
}

var origins = []string{
	"https://site.example", "http://site.example", "https://site.example:8443", "https://site.example:9443", "https://www.site.example",
	"https://site.example.evil.test", "https://evil.test", "site.example", "evil.test", "site.example:8443", "site.example:9443", "https://xn--st-eka.example",
	"https://127.0.0.1:8080", "https://[::1]:8080", "https://[::2]:8080", "wss://site.example",
}

// cred describes a linkage credential under construction.
type cred struct {
	r       *rand.Rand
	form    string // ld or jwt
	e       *vh.Entity
	origin  string
	other   string // another origin
	doc     M
	orig    M
	suite   vh.LDSuite
	alg     string
	hdr     M
	payload M
	signer  *vh.Key // JWT
	lcMod   func(M) // changes the proof after signing
	post    func(M) // changes the embedded document after signing
	tok     func(string) string
	raw     func(interface{}) interface{}
	note    string
}

var ctxOf = map[string]string{"JsonWebSignature2020": "https://w3id.org/security/suites/jws-2020/v1", "Ed25519Signature2020": "https://w3id.org/security/suites/ed25519-2020/v1",
	"BbsBlsSignature2020": vh.CtxBBS}

func newCred(r *rand.Rand, e *vh.Entity, form, origin string) *cred {
	x := &cred{r: r, form: form, e: e, origin: origin}

	for x.other == "" || x.other == origin {
		x.other = vh.Pick(r, origins...)
	}

	var iss interface{} = e.DID
	if r.Intn(3) == 0 {
		iss = M{"id": e.DID}
		if form == "jwt" {
			iss = M{"id": e.DID, "name": "Site"}
		}
	}

	var sub interface{} = M{"id": e.DID, "origin": origin}
	if r.Intn(3) == 0 {
		sub = L{sub}
	}

	ctxs := L{vh.CtxV1, vh.CtxDIDConf}
	from, until := "issuanceDate", "expirationDate"

	x.suite = vh.Pick(r, vh.LDSuites...)

	if form == "ld" {
		if u := ctxOf[x.suite.Type]; u != "" {
			ctxs = append(ctxs, u)
		}
	}

	t0 := time.Unix(1500000000+r.Int63n(100000000), 0).UTC()
	t1 := t0.Add(time.Duration(1+r.Intn(5000)) * time.Hour)

	x.doc = M{"@context": ctxs, "type": L{"VerifiableCredential", "DomainLinkageCredential"}, "issuer": iss, "credentialSubject": sub,
		from: t0.Format(time.RFC3339), until: t1.Format(time.RFC3339)}

	if form == "jwt" {
		x.alg = vh.Pick(r, "EdDSA", "ES256", "ES384", "ES256K", "ES521", "RS256", "PS256")
		x.signer = e.Keys[x.alg]
		x.hdr = M{"alg": x.alg, "kid": x.signer.ID}

		if r.Intn(2) == 0 {
			x.hdr["typ"] = "JWT"
		}

		x.payload = M{"iss": e.DID, "sub": e.DID, "nbf": t0.Unix(), "exp": t1.Unix(), "vc": x.doc}
		if r.Intn(2) == 0 {
			x.payload["iat"] = t0.Unix()
		}

		switch r.Intn(4) { // minimised
		case 0:
			delete(x.doc, from)
			delete(x.doc, until)
		case 1:
			delete(x.doc, "issuer")
		}
	}

	x.orig = vh.CloneM(x.doc)

	return x
}

// subject gives the subject object.
func (x *cred) subject() M {
	if l, ok := x.doc["credentialSubject"].(L); ok {
		return l[0].(M)
	}

	return x.doc["credentialSubject"].(M)
}

func (x *cred) setIssuer(v string) {
	if m, ok := x.doc["issuer"].(M); ok {
		m["id"] = v
	} else if _, ok := x.doc["issuer"]; ok || x.form == "ld" {
		x.doc["issuer"] = v
	}

	if x.payload != nil {
		x.payload["iss"] = v
	}
}

// build gives the entry of linked_dids.
func (x *cred) build() interface{} {
	var out interface{}

	if x.form == "jwt" {
		t := vh.JWS(x.hdr, vh.J(x.payload), x.signer)
		if x.tok != nil {
			t = x.tok(t)
		}

		out = t
	} else {
		lc := w.LDContext(x.r, x.e, x.suite)
		lc.Purpose = "assertionMethod"

		if x.signer != nil {
			lc.VerificationMethod = x.signer.ID
			if x.suite.Type != "JsonWebSignature2020" {
				panic("vh-fixture: special signers sign JsonWebSignature2020")
			}

			lc.ProofCreator, lc.KeyType = vh.JWS2020Creator(x.signer), x.signer.KMS
		}

		if x.note == "purpose" {
			lc.Purpose = "authentication"
		}

		if x.suite.Type == "JsonWebSignature2020" {
			lc.SignatureRepresentation = verifiable.SignatureJWS // its context has no proofValue
		}

		d := trySign(x.doc, lc)
		if d == nil { // the deviating document cannot be signed: deviate from a signed one
			d = trySign(x.orig, lc)
			if d == nil {
				panic(fmt.Sprintf("vh-fixture sign: %s", vh.J(x.orig)))
			}

			prf := d["proof"]
			d = vh.CloneM(x.doc)
			d["proof"] = prf
		}

		if x.post != nil {
			x.post(d)
		}

		out = d
	}

	if x.raw != nil {
		out = x.raw(out)
	}

	return out
}

func trySign(doc M, lc *verifiable.LinkedDataProofContext) (d M) {
	var err error

	if p, _, _ := vh.Guard(func() { d, err = w.LDSign(vh.CloneM(doc), lc) }); p || err != nil {
		return nil
	}

	return d
}

type deviation struct {
	name string
	form string // "", ld, jwt
	f    func(x *cred)
}

// special makes an embedded credential be signed with a given key.
func (x *cred) special(k *vh.Key) {
	x.signer = k

	if x.form == "jwt" {
		x.hdr["alg"], x.hdr["kid"] = k.Alg, k.ID
		return
	}

	x.suite = vh.LDSuite{Type: "JsonWebSignature2020", Alg: k.Alg}
	x.doc["@context"] = L{vh.CtxV1, vh.CtxDIDConf, ctxOf["JsonWebSignature2020"]}
	x.orig = vh.CloneM(x.doc)
}

func without(l interface{}, v string) L {
	var out L

	for _, e := range l.(L) {
		if e != v {
			out = append(out, e)
		}
	}

	return out
}

func deviations() []deviation { //nolint:funlen
	var out []deviation

	add := func(name, form string, f func(x *cred)) { out = append(out, deviation{name, form, f}) }

	evil := w.Ents["evil"]

	// other DID
	add("issuer-other", "", func(x *cred) { x.setIssuer(evil.DID) })
	add("issuer-prefix", "", func(x *cred) { x.setIssuer(x.e.DID[:len(x.e.DID)-1]) })
	add("issuer-suffix", "", func(x *cred) { x.setIssuer(x.e.DID + vh.Pick(x.r, "x", ":x", "/", "#k")) })
	add("issuer-none", "", func(x *cred) { delete(x.doc, "issuer"); delete(x.payload, "iss") })
	add("issuer-noid", "jwt", func(x *cred) { x.doc["issuer"] = M{"name": "Site"}; delete(x.payload, "iss") })
	add("issuer-null", "jwt", func(x *cred) { x.doc["issuer"] = nil; delete(x.payload, "iss") })
	add("issuer-empty", "jwt", func(x *cred) { x.doc["issuer"] = ""; delete(x.payload, "iss") })
	add("issuer-bad", "ld", func(x *cred) {
		v := vh.Pick[interface{}](x.r, nil, "", M{}, M{"name": "Site"}, L{}, L{x.e.DID}, 7)
		x.post = func(d M) { d["issuer"] = v }
	})
	add("signed-for-other", "", func(x *cred) { // genuine, but of another DID
		*x = *newCred(x.r, evil, x.form, x.origin)
	})
	add("subject-other", "", func(x *cred) { x.subject()["id"] = evil.DID })
	add("subject-other-list", "", func(x *cred) { x.subject()["id"] = evil.DID; x.doc["credentialSubject"] = L{x.subject()} })
	add("subject-suffix", "", func(x *cred) { x.subject()["id"] = x.e.DID + vh.Pick(x.r, "x", ":x", "#k") })
	add("subject-noid", "", func(x *cred) { delete(x.subject(), "id") })
	add("subject-notdid", "", func(x *cred) { x.subject()["id"] = "https://site.example/x" })
	add("subject-none", "", func(x *cred) { delete(x.doc, "credentialSubject") })
	add("subject-null", "", func(x *cred) { x.doc["credentialSubject"] = nil })
	add("subject-empty-list", "", func(x *cred) { x.doc["credentialSubject"] = L{} })
	add("subject-empty", "", func(x *cred) { x.doc["credentialSubject"] = M{} })
	add("subject-string", "", func(x *cred) { x.doc["credentialSubject"] = x.e.DID })
	add("subject-two", "", func(x *cred) {
		s := x.subject()
		o := M{"id": evil.DID, "origin": x.other}
		x.doc["credentialSubject"] = vh.Pick(x.r, L{s, o}, L{o, s}, L{s, vh.CloneM(s)})
	})

	// other origin
	add("origin-other", "", func(x *cred) { x.subject()["origin"] = x.other })
	add("origin-scheme", "", func(x *cred) {
		if strings.HasPrefix(x.origin, "https:") {
			x.subject()["origin"] = "http:" + strings.TrimPrefix(x.origin, "https:")
		} else {
			x.subject()["origin"] = "https://" + x.origin[strings.LastIndex(x.origin, "/")+1:]
		}
	})
	add("origin-port", "", func(x *cred) {
		if i := strings.LastIndex(x.origin, ":"); i > 6 && !strings.Contains(x.origin[i:], "/") && !strings.HasSuffix(x.origin, "]") {
			x.subject()["origin"] = x.origin[:i] + ":1" + x.origin[i+1:]
		} else {
			x.subject()["origin"] = x.origin + ":1234"
		}
	})
	add("origin-subdomain", "", func(x *cred) {
		if i := strings.Index(x.origin, "//"); i > 0 {
			x.subject()["origin"] = x.origin[:i+2] + "a." + x.origin[i+2:]
		} else {
			x.subject()["origin"] = "a." + x.origin
		}
	})
	add("origin-suffix", "", func(x *cred) { x.subject()["origin"] = x.origin + vh.Pick(x.r, ".evil.test", "evil", "@attacker.test") })
	add("origin-schemeless", "", func(x *cred) {
		// neither the asked nor the stated origin has a scheme
		x.origin = vh.Pick(x.r, "site.example", "/", "a.example", "site.example:8443")
		x.subject()["origin"] = vh.Pick(x.r, "evil.test", "b.example", "sub.site.example", "site.example.evil.test", "site.example:9443", "x")
	})
	add("origin-none", "", func(x *cred) { delete(x.subject(), "origin") })
	add("origin-null", "", func(x *cred) { x.subject()["origin"] = nil })
	add("origin-empty", "", func(x *cred) { x.subject()["origin"] = "" })
	add("origin-number", "", func(x *cred) { x.subject()["origin"] = 7 })
	add("origin-list", "", func(x *cred) { x.subject()["origin"] = L{x.origin} })
	add("origin-object", "", func(x *cred) { x.subject()["origin"] = M{"id": x.origin} })
	add("origin-outside", "", func(x *cred) { delete(x.subject(), "origin"); x.doc["origin"] = x.origin })

	// rules
	add("no-expiry", "", func(x *cred) { delete(x.doc, "expirationDate"); delete(x.payload, "exp") })
	add("no-issuance", "", func(x *cred) { delete(x.doc, "issuanceDate"); delete(x.payload, "nbf"); delete(x.payload, "iat") })
	add("type-missing", "", func(x *cred) { x.doc["type"] = L{"VerifiableCredential"} })
	add("type-other", "", func(x *cred) {
		x.doc["type"] = L{"VerifiableCredential", vh.Pick(x.r, "domainLinkageCredential", "DomainLinkageCredentials", "DomainLinkage", "LinkedDomains")}
	})
	add("type-none", "", func(x *cred) { delete(x.doc, "type") })
	add("id", "", func(x *cred) { x.doc["id"] = vh.Pick(x.r, "urn:uuid:1234", "https://site.example/vc/1") })
	add("context-config", "ld", func(x *cred) {
		x.suite = vh.LDSuites[0]
		x.doc["@context"] = L{vh.CtxV1, vh.CtxDIDConf}
		x.post = func(d M) { d["@context"] = L{vh.CtxV1} }
	})
	add("context-base", "ld", func(x *cred) { x.post = func(d M) { d["@context"] = without(d["@context"], vh.CtxV1) } })

	// proof
	add("signed-by-other", "", func(x *cred) { x.special(evil.Keys["ES256"]) })
	add("signed-with-other-key", "", func(x *cred) {
		k := *evil.Keys["ES256"]
		k.ID = x.e.Keys["ES256"].ID
		x.special(&k)
	})
	add("key-agreement", "", func(x *cred) { x.special(x.e.KA) })
	add("key-unlisted", "", func(x *cred) {
		k := *x.e.Keys["ES256"]
		k.ID = x.e.DID + "#nope"
		x.special(&k)
	})
	add("key-foreign-did", "", func(x *cred) {
		k := *x.e.Keys["ES256"]
		k.ID = "did:verif:unknown#es256"
		x.special(&k)
	})
	add("proof-none", "ld", func(x *cred) { x.post = func(d M) { delete(d, "proof") } })
	add("proof-null", "ld", func(x *cred) { x.post = func(d M) { d["proof"] = nil } })
	add("proof-empty-list", "ld", func(x *cred) { x.post = func(d M) { d["proof"] = L{} } })
	add("proof-empty", "ld", func(x *cred) { x.post = func(d M) { d["proof"] = M{} } })
	add("proof-type-only", "ld", func(x *cred) { x.post = func(d M) { d["proof"] = M{"type": x.suite.Type} } })
	add("proof-di-type", "ld", func(x *cred) {
		x.post = func(d M) { vh.Proofs(d)[0]["type"] = "DataIntegrityProof" }
	})
	add("proof-two-one-bad", "ld", func(x *cred) {
		x.post = func(d M) {
			p := vh.CloneM(vh.Proofs(d)[0])
			p["created"] = "2001-01-01T00:00:00Z"
			d["proof"] = vh.Pick(x.r, L{vh.Proofs(d)[0], p}, L{p, vh.Proofs(d)[0]})
		}
	})
	add("proof-signature", "ld", func(x *cred) {
		x.post = func(d M) {
			p := vh.Proofs(d)[0]

			for _, f := range []string{"jws", "proofValue"} {
				if s, ok := p[f].(string); ok {
					i := len(s) - 8 - x.r.Intn(20)
					p[f] = s[:i] + swap(s[i]) + s[i+1:]
				}
			}
		}
	})
	add("tamper-origin", "ld", func(x *cred) { x.subject()["origin"] = x.other; x.post = func(d M) { setSub(d, "origin", x.origin) } })
	add("tamper-subject", "ld", func(x *cred) { x.subject()["id"] = evil.DID; x.post = func(d M) { setSub(d, "id", x.e.DID) } })
	add("tamper-expiry", "ld", func(x *cred) { x.post = func(d M) { d["expirationDate"] = "2199-01-01T00:00:00Z" } })
	add("tamper-issuer", "ld", func(x *cred) { x.setIssuer(evil.DID); x.post = func(d M) { d["issuer"] = x.e.DID } })
	add("tamper-type", "ld", func(x *cred) {
		x.doc["type"] = L{"VerifiableCredential"}
		x.post = func(d M) { d["type"] = L{"VerifiableCredential", "DomainLinkageCredential"} }
	})
	add("tamper-id", "ld", func(x *cred) { x.doc["id"] = "urn:uuid:1"; x.post = func(d M) { delete(d, "id") } })

	// JWT
	add("jwt-extra-header", "jwt", func(x *cred) { x.hdr[vh.Pick(x.r, "cty", "x5u", "jku", "extra", "jwk")] = "v" })
	add("jwt-no-kid", "jwt", func(x *cred) { delete(x.hdr, "kid") })
	add("jwt-typ", "jwt", func(x *cred) { x.hdr["typ"] = vh.Pick(x.r, "vc+jwt", "at+jwt", "whatever") })
	add("jwt-extra-claim", "jwt", func(x *cred) { x.payload[vh.Pick(x.r, "jti", "aud", "extra", "nonce", "cnf")] = "urn:v" })
	add("jwt-sub-other", "jwt", func(x *cred) { x.payload["sub"] = evil.DID })
	add("jwt-iss-other", "jwt", func(x *cred) { x.payload["iss"] = evil.DID })
	add("jwt-none", "jwt", func(x *cred) {
		x.hdr["alg"] = "none"
		x.tok = func(t string) string { return t[:strings.LastIndex(t, ".")+1] }
	})
	add("jwt-none-signed", "jwt", func(x *cred) { x.hdr["alg"] = "none" })
	add("jwt-nosig", "jwt", func(x *cred) { x.tok = func(t string) string { return t[:strings.LastIndex(t, ".")+1] } })
	add("jwt-twoparts", "jwt", func(x *cred) { x.tok = func(t string) string { return t[:strings.LastIndex(t, ".")] } })
	add("jwt-sig", "jwt", func(x *cred) {
		x.tok = func(t string) string {
			i := len(t) - 8 - x.r.Intn(30)
			return t[:i] + swap(t[i]) + t[i+1:]
		}
	})
	add("jwt-payload", "jwt", func(x *cred) {
		good := vh.B64(vh.J(x.payload))
		x.subject()["origin"] = x.other
		x.tok = func(t string) string { p := strings.Split(t, "."); return p[0] + "." + good + "." + p[2] }
	})
	add("jwt-alg-confusion", "jwt", func(x *cred) { x.hdr["alg"] = map[string]string{"EdDSA": "ES256"}[x.alg]; fixAlg(x) })
	add("jwt-no-vc", "jwt", func(x *cred) { delete(x.payload, "vc") })
	add("jwt-unsecured-object", "jwt", func(x *cred) { x.raw = func(interface{}) interface{} { return vh.CloneM(x.doc) } })
	add("jwt-enveloped-bad", "jwt", func(x *cred) {
		x.subject()["origin"] = x.other
		x.raw = func(t interface{}) interface{} { return vh.Enveloped("application/vc-ld+jwt", t.(string)) }
	})
	add("jwt-enveloped-forged", "jwt", func(x *cred) {
		k := *evil.Keys["ES256"]
		k.ID = x.e.Keys["ES256"].ID
		x.special(&k)
		x.raw = func(t interface{}) interface{} { return vh.Enveloped("application/vc-ld+jwt", t.(string)) }
	})
	cwt := func(x *cred, signer *vh.Entity) {
		x.doc["issuer"], x.doc["issuanceDate"], x.doc["expirationDate"] = x.e.DID, "2020-01-01T00:00:00Z", "2030-01-01T00:00:00Z"
		x.raw = func(interface{}) interface{} {
			k := *signer.Keys["ES256"]
			k.ID = x.e.Keys["ES256"].ID

			return hex.EncodeToString(vh.MakeCose(vh.CoseHdr(&k), vh.CB(M{"iss": x.e.DID, "vc": x.doc}), &k).Bytes())
		}
	}
	add("cwt-origin", "jwt", func(x *cred) { x.subject()["origin"] = x.other; cwt(x, x.e) })
	add("cwt-subject", "jwt", func(x *cred) { x.subject()["id"] = evil.DID; cwt(x, x.e) })
	add("cwt-empty-subject", "jwt", func(x *cred) { x.doc["credentialSubject"] = L{}; cwt(x, x.e) })
	add("cwt-no-subject", "jwt", func(x *cred) { delete(x.doc, "credentialSubject"); cwt(x, x.e) })
	add("cwt-forged", "jwt", func(x *cred) { cwt(x, evil) })
	add("cwt-id", "jwt", func(x *cred) { x.doc["id"] = "urn:uuid:1"; cwt(x, x.e) })
	add("jwt-proof-inside", "jwt", func(x *cred) { // an embedded document around an unsigned body
		x.raw = func(interface{}) interface{} {
			d := vh.CloneM(x.doc)
			d["proof"] = M{"type": "JwtProof2020", "jwt": "a.b.c"}

			return d
		}
	})

	return out
}

func fixAlg(x *cred) {
	if x.hdr["alg"] == "" {
		x.hdr["alg"] = "EdDSA"
	}
}

func swap(b byte) string {
	if b == 'A' {
		return "B"
	}

	return "A"
}

func setSub(d M, k, v string) {
	switch s := d["credentialSubject"].(type) {
	case M:
		s[k] = v
	case L:
		s[0].(M)[k] = v
	}
}

func wrap(entries ...interface{}) M {
	return M{"@context": verifier.ContextV1, "linked_dids": L(entries)}
}

func verify(doc []byte, d, origin string) error {
	return verifier.VerifyDIDAndDomain(doc, d, origin, verifier.WithJSONLDDocumentLoader(w.Loader), verifier.WithVDRegistry(w))
}

// judge verifies and guards against panics.
func judge(c *vh.Check, key string, doc []byte, d, origin string, detail interface{}) (error, bool) {
	var err error

	in := bytes.Clone(doc)

	if p, site, v := vh.Guard(func() { err = verify(doc, d, origin) }); p {
		c.Violate("panic/"+key, fmt.Sprintf("verification panicked in %s: %v", site, v), detail)
		return nil, false
	}

	c.Expect(bytes.Equal(in, doc), "input-changed", "the configuration bytes were changed", detail)

	return err, true
}

func single(c *vh.Check, r *rand.Rand, dv *deviation) {
	e := w.Ents[vh.Pick(r, "site", "other")]
	form := vh.Pick(r, "ld", "jwt")

	if dv != nil && dv.form != "" {
		form = dv.form
	}

	x := newCred(r, e, form, vh.Pick(r, origins...))
	name := "genuine"

	if dv != nil {
		name = dv.name
		dv.f(x)
	}

	entry := x.build()
	doc := vh.Shuffled(r, wrap(entry))

	if dv != nil && r.Intn(3) == 0 {
		doc = vh.Shuffled(r, wrap(vh.Pick(r, L{entry, entry}, L{entry, entry, entry}, L{"x", entry, entry})...))
	}

	prf := x.alg

	if form == "ld" {
		prf = x.suite.Type
	}

	detail := M{"deviation": name, "did": e.DID, "origin": x.origin, "entry": entry}

	c.Eval(name + "/" + form + "/" + prf)

	err, ok := judge(c, name+"/"+form, doc, e.DID, x.origin, detail)
	if !ok {
		return
	}

	if dv == nil {
		c.Count("genuine."+form, 1)

		if err != nil {
			detail["err"] = err.Error()
			c.Violate("genuine-refused/"+form, "a genuine domain linkage credential was refused: "+err.Error(), detail)
		}

		// the same one does not serve for another DID or another origin
		for _, d := range []string{w.Ents["evil"].DID, e.DID + "x", "", e.DID + "#es256"} {
			if er, ok := judge(c, "did", doc, d, x.origin, detail); ok && er == nil {
				c.Violate("wrong-did/"+form, "confirmed for another DID "+d, detail)
			}
		}

		if er, ok := judge(c, "origin", doc, e.DID, x.other, detail); ok && er == nil {
			c.Violate("wrong-origin/"+form, "confirmed for another origin "+x.other+" than "+x.origin, detail)
		}

		return
	}

	c.Count("deviated."+form, 1)

	if err == nil {
		c.Violate("accepted/"+name+"/"+form, "a deviating domain linkage credential was accepted: "+name, detail)
	}

	if r.Intn(60) == 0 && err != nil {
		c.Sample(fmt.Sprintf("%s %s: %.100v", name, form, err))
	}
}

// didKey: the verifier's default resolver.
func didKey(c *vh.Check, r *rand.Rand) {
	ke := vh.Pick(r, keys...)
	origin := vh.Pick(r, origins...)

	fake := &vh.Entity{DID: ke.did, Keys: map[string]*vh.Key{"EdDSA": ke.k}}
	for _, a := range vh.AllAlgs {
		if a != "EdDSA" {
			k := *w.Ents["site"].Keys[a]
			k.ID = ke.k.ID
			fake.Keys[a] = &k
		}
	}

	x := newCred(r, fake, "jwt", origin)
	bad := ""

	x.special(ke.k)

	if r.Intn(2) == 0 {
		bad = vh.Pick(r, "key", "origin", "subject", "issuer")

		switch bad {
		case "key":
			k := *vh.NewKey("EdDSA", "another")
			k.ID = ke.k.ID
			x.signer = &k
		case "origin":
			x.subject()["origin"] = x.other
		case "subject":
			x.subject()["id"] = keys[(indexOf(ke.did)+1)%len(keys)].did
		case "issuer":
			x.setIssuer(keys[(indexOf(ke.did)+1)%len(keys)].did)
		}
	}

	doc := vh.J(wrap(x.build()))
	detail := M{"doc": string(doc), "bad": bad, "did": ke.did, "origin": origin}

	var err error

	if p, site, v := vh.Guard(func() { err = verifier.VerifyDIDAndDomain(doc, ke.did, origin) }); p {
		c.Violate("panic/didkey", fmt.Sprintf("panicked in %s: %v", site, v), detail)
		return
	}

	c.Eval("didkey/" + bad)

	if bad == "" {
		c.Count("genuine.didkey", 1)
		c.Expect(err == nil, "genuine-refused/didkey", fmt.Sprintf("refused with the default resolver: %v", err), detail)
	} else {
		c.Expect(err != nil, "accepted/"+bad+"/didkey", "accepted with the default resolver", detail)
	}
}

func indexOf(d string) int {
	for i, k := range keys {
		if k.did == d {
			return i
		}
	}

	return 0
}

// entry of a list with what it proves.
type entry struct {
	v           interface{}
	did, origin string // proven linkage, if any
	note        string
}

func randomEntry(r *rand.Rand, devs []deviation, origs []string) entry {
	e := w.Ents[vh.Pick(r, "site", "other", "evil")]
	origin := vh.Pick(r, origs...)
	form := vh.Pick(r, "ld", "jwt", "jwt")

	switch r.Intn(8) {
	case 0, 1, 2:
		x := newCred(r, e, form, origin)
		return entry{x.build(), e.DID, origin, "genuine"}
	case 3:
		return entry{v: vh.Pick[interface{}](r, "", "garbage", "a.b.c", "eyJhbGciOiJub25lIn0.e30.", M{}, M{"proof": M{}}, M{"@context": L{}, "type": L{}}, "{}", "[]", "null",
			M{"type": "EnvelopedVerifiableCredential", "id": "data:application/vc-ld+jwt,x"}, M{"type": L{}}, M{"credentialSubject": L{}, "issuer": e.DID}), note: "garbage"}
	default:
		d := vh.Pick(r, devs...)
		if d.name == "signed-for-other" { // genuine for another DID
			x := newCred(r, w.Ents["evil"], form, origin)
			return entry{x.build(), w.Ents["evil"].DID, origin, "genuine"}
		}

		if strings.HasPrefix(d.name, "origin-") || strings.HasPrefix(d.name, "issuer-") || d.name == "cwt-origin" || d.name == "jwt-enveloped-bad" { // could be genuine for something else
			d = deviations()[len(devs)-1]
		}

		if d.form != "" {
			form = d.form
		}

		x := newCred(r, w.Ents[vh.Pick(r, "site", "other")], form, origin)
		d.f(x)

		return entry{v: x.build(), note: d.name}
	}
}

func list(c *vh.Check, r *rand.Rand) {
	devs := deviations()
	origs := []string{"https://site.example", "https://site.example:8443", "https://evil.test"}

	var (
		es  []entry
		vs  L
		tag string
	)

	for n := 1 + r.Intn(6); n > 0; n-- {
		e := randomEntry(r, devs, origs)
		es = append(es, e)
		vs = append(vs, e.v)
		tag += e.note + ","

		for r.Intn(4) == 0 { // once more
			es, vs = append(es, e), append(vs, e.v)
			tag += "again,"
		}
	}

	doc := vh.Shuffled(r, wrap(vs...))

	for _, en := range []string{"site", "other", "evil"} {
		for _, o := range origs {
			d := w.Ents[en].DID
			want := false

			for _, e := range es {
				want = want || e.did == d && e.origin == o
			}

			detail := M{"entries": tag, "did": d, "origin": o, "doc": string(doc)}

			err, ok := judge(c, "list", doc, d, o, detail)
			if !ok {
				continue
			}

			c.Eval(fmt.Sprintf("list/%d/%v", len(es), want))

			if want {
				c.Count("list.found", 1)
				c.Expect(err == nil, "list/not-found", fmt.Sprintf("the genuine credential of the list was not found: %v", err), detail)
			} else {
				c.Count("list.refused", 1)
				c.Expect(err != nil, "list/confirmed", "confirmed by a list without genuine credential", detail)
			}
		}
	}
}

func config(c *vh.Check, r *rand.Rand) {
	e := w.Ents["site"]
	x := newCred(r, e, vh.Pick(r, "ld", "jwt"), vh.Pick(r, origins...))
	cfg := wrap(x.build())
	kind := vh.Pick(r, "extra", "no-context", "no-list", "empty-list", "truncated", "null", "list-string", "bare", "array", "case", "context-object", "number")

	switch kind {
	case "extra":
		cfg[vh.Pick(r, "extra", "id", "linkedDids", "proof")] = "v"
	case "no-context":
		delete(cfg, "@context")
	case "no-list":
		delete(cfg, "linked_dids")
	case "empty-list":
		cfg["linked_dids"] = L{}
	case "case":
		cfg["Linked_DIDs"] = cfg["linked_dids"]
		if r.Intn(2) == 0 {
			cfg["linked_dids"] = L{}
		} else {
			delete(cfg, "linked_dids")
		}
	case "context-object":
		cfg["@context"] = 7
	}

	doc := vh.J(cfg)

	switch kind {
	case "truncated":
		doc = doc[:r.Intn(len(doc))]
	case "null":
		doc = []byte(vh.Pick(r, "null", "", " ", "[]", "1"))
	case "list-string":
		doc = vh.J(M{"@context": verifier.ContextV1, "linked_dids": cfg["linked_dids"].(L)[0]})
	case "bare":
		doc = vh.J(cfg["linked_dids"].(L)[0])
	case "array":
		doc = vh.J(L{cfg})
	case "number":
		doc = vh.J(M{"@context": verifier.ContextV1, "linked_dids": 7})
	}

	detail := M{"kind": kind, "doc": string(doc)}

	c.Eval("config/" + kind)

	if err, ok := judge(c, "config/"+kind, doc, e.DID, x.origin, detail); ok {
		c.Count("config.refused", 1)
		c.Expect(err != nil, "config/"+kind, "a malformed DID configuration was accepted: "+kind, detail)
	}
}

// stub is the HTTP client.
type stub struct {
	want   string
	status int
	body   []byte
	fail   string
	reqs   []string
	closed bool
}

type body struct {
	io.Reader
	s *stub
}

func (b *body) Close() error {
	b.s.closed = true
	if b.s.fail == "close" {
		return errors.New("close failed")
	}

	return nil
}

type failing struct{ r io.Reader }

func (f *failing) Read(p []byte) (int, error) {
	n, err := f.r.Read(p)
	if err == io.EOF { //nolint:errorlint
		err = errors.New("connection reset")
	}

	return n, err
}

func (s *stub) Do(req *http.Request) (*http.Response, error) {
	s.reqs = append(s.reqs, req.Method+" "+req.URL.String())

	if s.fail == "do" {
		return nil, errors.New("no route")
	}

	var rd io.Reader = bytes.NewReader(s.body)

	if s.fail == "read" {
		rd = &failing{rd}
	}

	return &http.Response{StatusCode: s.status, Body: &body{rd, s}, Header: http.Header{}}, nil
}

func viaClient(c *vh.Check, r *rand.Rand) {
	e := w.Ents[vh.Pick(r, "site", "other")]

	var web []string

	for _, o := range origins {
		if strings.HasPrefix(o, "http") {
			web = append(web, o)
		}
	}

	x := newCred(r, e, vh.Pick(r, "ld", "jwt"), vh.Pick(r, web...))
	kind := vh.Pick(r, "ok", "ok", "ok", "close", "status", "do", "read", "truncated", "deviation", "domain", "did", "empty")

	if kind == "deviation" {
		devs := deviations()

		for {
			d := vh.Pick(r, devs...)
			if (d.form == "" || d.form == x.form) && d.name != "origin-schemeless" {
				d.f(x)
				break
			}
		}
	}

	s := &stub{status: 200, body: vh.J(wrap(x.build()))}
	askDID, ask := e.DID, x.origin

	switch kind {
	case "status":
		s.status = vh.Pick(r, 201, 204, 206, 301, 400, 401, 403, 404, 500, 503)
	case "do", "read", "close":
		s.fail = kind
	case "truncated":
		s.body = s.body[:r.Intn(len(s.body))]
	case "empty":
		s.body = nil
	case "domain":
		for ask == x.origin {
			ask = vh.Pick(r, web...)
		}
	case "did":
		askDID = w.Ents["evil"].DID
	}

	cl := client.New(client.WithHTTPClient(s), client.WithJSONLDDocumentLoader(w.Loader), client.WithVDRegistry(w))
	detail := M{"kind": kind, "did": askDID, "domain": ask, "body": string(s.body)}

	var err error

	if p, site, v := vh.Guard(func() { err = cl.VerifyDIDAndDomain(askDID, ask) }); p {
		c.Violate("panic/client/"+kind, fmt.Sprintf("panicked in %s: %v", site, v), detail)
		return
	}

	c.Eval("client/" + kind)
	c.Expect(len(s.reqs) == 1 && s.reqs[0] == "GET "+ask+"/.well-known/did-configuration.json", "client/request",
		fmt.Sprintf("the configuration was fetched with %q", s.reqs), detail)
	c.Expect(s.closed || kind == "do", "client/close", "the response body was not closed", detail)

	if kind == "ok" || kind == "close" {
		c.Count("client.accepted", 1)
		c.Expect(err == nil, "client/refused", fmt.Sprintf("a genuine configuration was refused: %v", err), detail)
	} else {
		c.Count("client.refused", 1)
		c.Expect(err != nil, "client/accepted/"+kind, "accepted", detail)
	}
}
