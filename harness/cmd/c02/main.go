// C02: linked-data proofs bind the whole credential to the issuer's key.
package main

import (
	"encoding/base64"
	"fmt"
	"math/rand"
	"strings"

	ldprocessor "github.com/trustbloc/did-go/doc/ld/processor"

	"github.com/trustbloc/vc-go/verifharness/vh"
	"github.com/trustbloc/vc-go/verifiable"
	"github.com/trustbloc/vc-go/verifiable/lddocument"
)

var w *vh.World

func main() {
	vh.Main(vh.Spec{
		ID: "C02",
		Rule: "random credential (every term mapped by its contexts) x suite x key x proof options, signed by the code; then one " +
			"semantic alteration of claims, proof members, proof set or issuer, or one re-serialisation; DID documents signed once or twice, with one " +
			"of 20 alterations. Distinct: " +
			"(alteration, suite, representation, entry point, place altered).",
		Level:       "exploration",
		Require:     map[string]int64{"accept.genuine": 300, "accept.reserialised": 100, "reject.tampered": 800, "reject.multi": 100, "did.accepted": 250, "did.refused": 700},
		Assumptions: []string{"JSON-LD canonicalisation (json-gold) and did-go's proof options digest are correct", "DID documents come from a local registry"},
		Run:         run,
	})
}

func opts(valid bool) []verifiable.CredentialOpt {
	o := []verifiable.CredentialOpt{verifiable.WithProofChecker(w.Checker), verifiable.WithJSONLDDocumentLoader(w.Loader)}
	if !valid {
		o = append(o, verifiable.WithCredDisableValidation())
	}

	return o
}

var entryName = []string{"parse", "parse-novalidation", "disabled+CheckProof", "docverifier-issuer", "docverifier-nil", "parsejson+CheckProof"}

// accepted runs one entry point over the document bytes.
func accepted(entry int, b []byte, issuer string) error {
	switch entry {
	case 0:
		_, err := verifiable.ParseCredential(b, opts(true)...)
		return err
	case 1: // the checker of this form alone
		_, err := verifiable.ParseCredential(b, verifiable.WithLDProofChecker(w.Checker), verifiable.WithJSONLDDocumentLoader(w.Loader), verifiable.WithCredDisableValidation())
		return err
	case 2:
		vc, err := verifiable.ParseCredential(b, append(opts(false), verifiable.WithDisabledProofCheck())...)
		if err != nil {
			return err
		}

		return vc.CheckProof(opts(false)...)
	case 3:
		return lddocument.NewDocumentVerifier(w.Checker).Verify(b, &issuer, ldprocessor.WithDocumentLoader(w.Loader))
	case 4:
		return lddocument.NewDocumentVerifier(w.Checker).Verify(b, nil, ldprocessor.WithDocumentLoader(w.Loader))
	default:
		vc, err := verifiable.ParseCredentialJSON(vh.M(b), opts(false)...)
		if err != nil {
			return err
		}

		return vc.CheckProof(opts(false)...)
	}
}

func cred(r *rand.Rand, e *vh.Entity) map[string]interface{} {
	return vh.Cred(r, vh.CredOpts{V: 1 + r.Intn(2), Issuer: e.DID, LDSafe: true, NeedID: r.Intn(2) == 0})
}

func rep(lc *verifiable.LinkedDataProofContext) string {
	if lc.SignatureRepresentation == verifiable.SignatureJWS {
		return "jws"
	}

	return "proofValue"
}

// proofOrder: v1's scoped proof terms do not define every suite; CtxVerif maps the rest.
func sign(r *rand.Rand, e *vh.Entity, s vh.LDSuite, doc map[string]interface{}) (map[string]interface{}, string) {
	lc := w.LDContext(r, e, s)

	out, err := w.LDSign(doc, lc)
	if err != nil {
		panic(fmt.Sprintf("AddLinkedDataProof %s/%s: %v", s.Type, s.Alg, err))
	}

	return out, rep(lc)
}

func tampers() []vh.Tamper {
	other := func(d map[string]interface{}) []map[string]interface{} { return vh.Proofs(d) }

	return append(vh.ClaimTampers(), []vh.Tamper{
		{"context-meaning-changed", func(r *rand.Rand, d map[string]interface{}) string {
			// drop the vocabulary: the terms lose their meaning
			d["@context"] = d["@context"].([]interface{})[:1]
			return "@context"
		}},
		{"proof-option-changed", func(r *rand.Rand, d map[string]interface{}) string {
			p := other(d)[0]
			var ks []string
			for _, k := range vh.SortedKeys(p) {
				switch k {
				case "created", "domain", "challenge", "proofPurpose", "verificationMethod", "type":
					ks = append(ks, k)
				}
			}
			k := ks[r.Intn(len(ks))]
			switch k {
			case "created":
				p[k] = vh.Pick(r, "2031-01-01T00:00:00Z", "1999-12-31T23:59:59Z")
			case "proofPurpose":
				p[k] = vh.Pick(r, "authentication", "assertionMethod", "capabilityInvocation", "x")
				if p[k] == origPurpose {
					p[k] = "keyAgreement"
				}
			default:
				p[k] = vh.Mutate(r, p[k])
			}
			return k
		}},
		{"proof-option-removed", func(r *rand.Rand, d map[string]interface{}) string {
			p := other(d)[0]
			var ks []string
			for _, k := range vh.SortedKeys(p) {
				ks = append(ks, k)
			}
			k := ks[r.Intn(len(ks))]
			delete(p, k)
			return k
		}},
		{"proof-option-added", func(r *rand.Rand, d map[string]interface{}) string {
			p := other(d)[0]
			var ks []string
			for _, k := range []string{"domain", "challenge"} {
				if _, ok := p[k]; !ok {
					ks = append(ks, k)
				}
			}
			if len(ks) == 0 {
				return ""
			}
			k := ks[r.Intn(len(ks))]
			p[k] = "https://added.example"
			return k
		}},
		{"signature-bit", func(r *rand.Rand, d map[string]interface{}) string {
			return editSig(other(d)[0], func(b []byte) []byte { b[r.Intn(len(b))] ^= 1 << r.Intn(8); return b })
		}},
		{"signature-truncated", func(r *rand.Rand, d map[string]interface{}) string {
			return editSig(other(d)[0], func(b []byte) []byte { return b[:len(b)-1-r.Intn(len(b)-1)] })
		}},
		{"signature-extended", func(r *rand.Rand, d map[string]interface{}) string {
			return editSig(other(d)[0], func(b []byte) []byte { return append(b, 0x55) })
		}},
		{"signature-zero", func(r *rand.Rand, d map[string]interface{}) string {
			return editSig(other(d)[0], func(b []byte) []byte { return make([]byte, len(b)) })
		}},
		{"signature-empty", func(r *rand.Rand, d map[string]interface{}) string {
			return editSig(other(d)[0], func(b []byte) []byte { return nil })
		}},
		{"jws-header-changed", func(r *rand.Rand, d map[string]interface{}) string {
			p := other(d)[0]
			s, ok := p["jws"].(string)
			if !ok {
				return ""
			}
			parts := strings.SplitN(s, ".", 2)
			p["jws"] = vh.B64([]byte(`{"alg":"none","b64":false,"crit":["b64"]}`)) + "." + parts[1]
			return "jws"
		}},
		{"proof-null", func(r *rand.Rand, d map[string]interface{}) string {
			d["proof"] = vh.Pick[interface{}](r, nil, []interface{}{}, "proof", map[string]interface{}{}, []interface{}{nil})
			return fmt.Sprintf("%s", vh.J(d["proof"]))
		}},
		{"proof-removed", func(r *rand.Rand, d map[string]interface{}) string {
			delete(d, "proof")
			return "proof"
		}},
	}...)
}

var origPurpose interface{}

func b64any(s string) []byte {
	b, err := base64.RawURLEncoding.DecodeString(s)
	if err != nil {
		panic("vh-fixture signature encoding: " + s)
	}

	return b
}

func editSig(p map[string]interface{}, f func([]byte) []byte) string {
	if s, ok := p["jws"].(string); ok {
		i := strings.LastIndex(s, ".")
		p["jws"] = s[:i+1] + vh.B64(f(b64any(s[i+1:])))

		return "jws"
	}

	s, ok := p["proofValue"].(string)
	if !ok {
		panic("vh-fixture no signature")
	}

	if p["type"] == "Ed25519Signature2020" {
		p["proofValue"] = vh.MB58(f(vh.MB58Dec(s)))
	} else {
		p["proofValue"] = vh.B64(f(b64any(s)))
	}

	return "proofValue"
}

func run(c *vh.Check) {
	w = vh.NewWorld("alice", "bob", "mallory", "alice2")
	w.PrepareLD()

	ts := tampers()
	names := []string{"alice", "bob", "alice2"}

	c.Cases("credential", c.N(len(vh.LDSuites)*48, len(vh.LDSuites)*600), func(r *rand.Rand, i int) {
		s := vh.LDSuites[i%len(vh.LDSuites)]
		e := w.Ents[vh.Pick(r, names...)]
		doc := cred(r, e)
		signed, rp := sign(r, e, s, doc)
		id := s.Type + "/" + s.Alg + s.VM + "/" + rp

		// the signed document is the document plus the proof
		noProof := vh.CloneM(signed)
		delete(noProof, "proof")
		c.Expect(vh.Diff(doc, vh.Norm(noProof)) == "", "signing-changed-document", "signing changed the document"+vh.Diff(doc, noProof), signed)

		for en := range entryName {
			err := accepted(en, vh.J(signed), e.DID)
			c.Eval("genuine/" + id + "/" + entryName[en])

			if c.Expect(err == nil, "genuine-rejected:"+s.Type+":"+entryName[en], fmt.Sprintf("genuine %s proof rejected: %v", id, err), signed) {
				c.Count("accept.genuine", 1)
			}
		}

		// member order and white space do not matter
		en := r.Intn(len(entryName))
		b := vh.Shuffled(r, signed)
		err := accepted(en, b, e.DID)
		c.Eval("reserialised/" + id + "/" + entryName[en])

		if c.Expect(err == nil, "reserialised-rejected:"+s.Type, fmt.Sprintf("reserialised %s rejected: %v", id, err), string(b)) {
			c.Count("accept.reserialised", 1)
		}

		if ps := vh.Proofs(signed); len(ps) == 1 && r.Intn(2) == 0 { // object or one-element list
			alt := vh.CloneM(signed)
			if _, isList := alt["proof"].([]interface{}); isList {
				alt["proof"] = vh.Clone(ps[0])
			} else {
				alt["proof"] = []interface{}{vh.Clone(ps[0])}
			}

			err := accepted(en, vh.J(alt), e.DID)
			c.Eval("proof-shape/" + id)
			c.Expect(err == nil, "proof-shape-rejected:"+s.Type, fmt.Sprintf("object/list proof form rejected: %v", err), alt)
		}

		origPurpose = vh.Proofs(signed)[0]["proofPurpose"]

		for k := 0; k < 6; k++ {
			t := ts[(i/len(vh.LDSuites)*6+k)%len(ts)]
			d := vh.CloneM(signed)

			where := t.F(r, d)
			if where == "" {
				continue
			}

			en := r.Intn(len(entryName))
			issuer := e.DID
			b := vh.J(d)
			err := accepted(en, b, issuer)
			c.Eval(t.Name + "/" + id + "/" + entryName[en] + "/" + where)

			if c.Expect(err != nil, "tampered-accepted:"+t.Name+":"+where, fmt.Sprintf("%s (%s) after %s at %s accepted via %s", s.Type, rp, t.Name, where, entryName[en]),
				map[string]interface{}{"signed": signed, "tampered": d}) {
				c.Count("reject.tampered", 1)
			}

			if i < 3 && k == 0 {
				c.Sample(fmt.Sprintf("%s %s %s -> %v", id, t.Name, where, err))
			}
		}
	})

	didDocCases(c)

	// who signed
	c.Cases("issuer", c.N(len(vh.LDSuites)*24, len(vh.LDSuites)*240), func(r *rand.Rand, i int) {
		s := vh.LDSuites[i%len(vh.LDSuites)]
		a, m := w.Ents["alice"], w.Ents[vh.Pick(r, "mallory", "alice2", "bob")]
		doc := cred(r, a)
		how := []string{"foreign-signer", "victim-vm-foreign-key", "issuer-swapped", "ka-key", "other-key-same-issuer", "type-confusion", "foreign-vm-victim-key"}[i/len(vh.LDSuites)%7]

		var d map[string]interface{}

		switch how {
		case "foreign-signer": // the credential names alice, mallory signs under her own key
			d, _ = sign(r, m, s, doc)
		case "victim-vm-foreign-key":
			if s.Alg == "PS256" {
				return // the two RSA fixtures may coincide
			}

			lc := w.LDContext(r, m, s)
			lc.VerificationMethod = s.VMID(a)

			x, err := w.LDSign(doc, lc)
			if err != nil {
				panic(fmt.Sprintf("sign: %v", err))
			}

			d = x
		case "foreign-vm-victim-key":
			lc := w.LDContext(r, a, s)
			lc.VerificationMethod = s.VMID(m)

			x, err := w.LDSign(doc, lc)
			if err != nil {
				panic(fmt.Sprintf("sign: %v", err))
			}

			d = x
		case "issuer-swapped": // alice signs her credential, the issuer is replaced
			iss := vh.Pick(r, m.DID, vh.ForeignIssuer(r))
			set := func(d map[string]interface{}) {
				if o, ok := d["issuer"].(map[string]interface{}); ok {
					o["id"] = iss
				} else {
					d["issuer"] = iss
				}
			}

			if iss != m.DID && r.Intn(2) == 0 { // signed by mallory in the name of a party without DID document
				doc = vh.CloneM(doc)
				set(doc)
				d, _ = sign(r, m, s, doc)
			} else {
				d, _ = sign(r, a, s, doc)
				set(d)
			}
		case "ka-key":
			k := *a.KA
			lc := w.LDContext(r, a, vh.LDSuite{Type: "JsonWebSignature2020", Alg: "EdDSA"})
			lc.ProofCreator, lc.VerificationMethod = vh.JWS2020Creator(&k), k.ID

			x, err := w.LDSign(doc, lc)
			if err != nil {
				panic(fmt.Sprintf("sign: %v", err))
			}

			d = x
		case "other-key-same-issuer": // names another key of alice
			o := vh.LDSuites[r.Intn(len(vh.LDSuites))]
			if o.Alg == s.Alg {
				return
			}

			lc := w.LDContext(r, a, s)
			lc.VerificationMethod = o.VMID(a)

			x, err := w.LDSign(doc, lc)
			if err != nil {
				panic(fmt.Sprintf("sign: %v", err))
			}

			d = x
		default: // type-confusion: another proof type over the same signature
			d, _ = sign(r, a, s, doc)
			p := vh.Proofs(d)[0]
			old := p["type"]

			for p["type"] == old {
				p["type"] = vh.Pick(r, "Ed25519Signature2018", "Ed25519Signature2020", "JsonWebSignature2020", "EcdsaSecp256k1Signature2019",
					"BbsBlsSignature2020", "BbsBlsSignatureProof2020", "DataIntegrityProof", "Unknown2099", "")
			}
		}

		for en := range entryName {
			if en == 4 && (how == "foreign-signer" || how == "issuer-swapped") {
				if how == "foreign-signer" { // without an expected issuer the signer is who the proof says
					err := accepted(en, vh.J(d), "")
					c.Expect(err == nil, "genuine-rejected:docverifier-nil", fmt.Sprintf("self-named signer rejected: %v", err), d)
				}

				continue
			}

			err := accepted(en, vh.J(d), a.DID)
			c.Eval("issuer/" + how + "/" + s.Type + s.Alg + "/" + entryName[en])

			if c.Expect(err != nil, "impostor-accepted:"+how+":"+entryName[en], fmt.Sprintf("%s with %s %s accepted via %s", how, s.Type, s.Alg, entryName[en]), d) {
				c.Count("reject.tampered", 1)
			}
		}
	})

	// keys named by "creator" instead of "verificationMethod"
	c.Cases("creator", c.N(len(vh.LDSuites)*12, len(vh.LDSuites)*120), func(r *rand.Rand, i int) {
		s := vh.LDSuites[i%len(vh.LDSuites)]
		a, m := w.Ents["alice"], w.Ents[vh.Pick(r, "mallory", "alice2", "bob")]
		doc := cred(r, a)
		how := []string{"genuine", "foreign", "foreign-list", "foreign-key", "both-foreign-creator", "fragment", "unknown"}[i/len(vh.LDSuites)%7]

		if s.Alg == "PS256" && how != "genuine" {
			return // the two RSA fixtures may coincide
		}

		signer, id, vm := a, s.VMID(a), ""

		switch how {
		case "foreign", "foreign-list":
			signer, id = m, s.VMID(m)
		case "foreign-key":
			signer = m
		case "both-foreign-creator":
			signer, id, vm = m, s.VMID(m), s.VMID(a)
		case "fragment":
			signer, id = m, "#"+strings.SplitN(s.VMID(m), "#", 2)[1]
		case "unknown":
			id += "x"
		}

		d, err := w.LDSignCreator(doc, w.LDContext(r, signer, s), id, vm)
		if err != nil {
			panic(fmt.Sprintf("vh-fixture creator proof: %v", err))
		}

		if how == "foreign-list" { // behind a genuine one
			g, _ := sign(r, a, s, doc)
			g["proof"] = []interface{}{vh.Proofs(g)[0], vh.Proofs(d)[0]}
			d = g
		}

		for en := range entryName {
			err := accepted(en, vh.J(d), a.DID)
			c.Eval("creator/" + how + "/" + s.Type + s.Alg + "/" + entryName[en])

			if how == "genuine" && en == 0 { // the JSON schemas ask for verificationMethod
				continue
			}

			if how == "genuine" {
				c.Expect(err == nil, "genuine-rejected:creator:"+entryName[en], fmt.Sprintf("%s proof naming its key as creator rejected: %v", s.Type, err), d)
				c.Count("accept.creator", 1)

				continue
			}

			if en == 4 && strings.HasPrefix(how, "foreign") && how != "foreign-key" {
				continue // no expected issuer
			}

			c.Expect(err != nil, "impostor-accepted:creator-"+how+":"+entryName[en], fmt.Sprintf("%s proof (%s) of %s accepted via %s", s.Type, how, signer.DID, entryName[en]), d)
			c.Count("reject.creator", 1)
		}
	})

	// proof sets: every member has to be valid
	c.Cases("set", c.N(240, 2400), func(r *rand.Rand, i int) {
		a := w.Ents["alice"]
		doc := cred(r, a)
		n := 2 + r.Intn(3)
		d := doc
		var suites []string

		for k := 0; k < n; k++ {
			s := vh.LDSuites[r.Intn(len(vh.LDSuites))]
			d, _ = sign(r, a, s, d)
			suites = append(suites, s.Type)
		}

		ps := vh.Proofs(d)
		if len(ps) != n {
			c.Violate("proof-lost", fmt.Sprintf("%d proofs added, %d present", n, len(ps)), d)
			return
		}

		err := accepted(r.Intn(len(entryName)), vh.J(d), a.DID)
		c.Eval(fmt.Sprintf("set/good/%v", suites))

		if !c.Expect(err == nil, "genuine-set-rejected", fmt.Sprintf("proof set %v rejected: %v", suites, err), d) {
			return
		}

		c.Count("accept.genuine", 1)

		bad := vh.CloneM(d)
		bi := r.Intn(n)
		how := vh.Pick(r, "foreign", "signature", "other-doc", "option", "garbage", "unsupported", "data-integrity", "foreign-vm-only")
		bp := vh.Proofs(bad)[bi]

		switch how {
		case "foreign":
			x, _ := sign(r, w.Ents["mallory"], vh.LDSuites[r.Intn(len(vh.LDSuites))], vh.CloneM(doc))
			replace(bad, bi, vh.Proofs(x)[0])
		case "signature":
			editSig(bp, func(b []byte) []byte { b[len(b)/2] ^= 4; return b })
		case "other-doc":
			o := vh.CloneM(doc)
			o["custom0"] = "other document"
			x, _ := sign(r, a, vh.LDSuites[r.Intn(len(vh.LDSuites))], o)
			replace(bad, bi, vh.Proofs(x)[0])
		case "option":
			bp["created"] = "2031-05-05T05:05:05Z"
		case "garbage":
			replace(bad, bi, vh.Pick[interface{}](r, "x", nil, map[string]interface{}{}, 5.0, []interface{}{}))
		case "unsupported":
			bp["type"] = "Unknown2099"
		case "data-integrity":
			bp["type"] = "DataIntegrityProof"
			bp["cryptosuite"] = "ecdsa-rdfc-2019"
		default:
			bp["verificationMethod"] = w.Ents["mallory"].Keys["EdDSA"].ID
		}

		for en := range entryName {
			err := accepted(en, vh.J(bad), a.DID)
			if en == 4 && how == "foreign" {
				continue
			}

			c.Eval(fmt.Sprintf("set/%s/%d/%d/%s", how, n, bi, entryName[en]))

			if c.Expect(err != nil, "bad-proof-in-set-accepted:"+how, fmt.Sprintf("set of %d with bad proof %d (%s) accepted via %s", n, bi, how, entryName[en]), bad) {
				c.Count("reject.multi", 1)
			}
		}
	})

	// contexts supplied by the verifier
	c.Cases("external-context", c.N(60, 600), func(r *rand.Rand, i int) {
		a := w.Ents["alice"]
		s := vh.LDSuites[i%len(vh.LDSuites)]
		d, rp := sign(r, a, s, cred(r, a))
		d["@context"] = d["@context"].([]interface{})[:1]

		ext := append(opts(false), verifiable.WithExternalJSONLDContext(vh.CtxVerif))
		vc, err := verifiable.ParseCredential(vh.J(d), ext...)
		c.Eval("external/" + s.Type + s.Alg + rp)

		// checking is repeatable and leaves the credential as it was
		if c.Expect(err == nil, "external-context-rejected", fmt.Sprintf("%s with the context supplied externally rejected: %v", s.Type, err), d) {
			for k := 0; k < 2; k++ {
				err := vc.CheckProof(ext...)
				c.Expect(err == nil, "external-context-rejected:again", fmt.Sprintf("%s with the context supplied externally rejected when checked again: %v", s.Type, err), d)
			}

			raw := vc.ToRawJSON()
			c.Expect(string(vh.J(raw["@context"])) == string(vh.J(d["@context"])), "external-context-kept", fmt.Sprintf("the credential has the contexts %s after its check", vh.J(raw["@context"])), d)
		}

		p := vh.CloneM(d)
		p["credentialSubject"] = map[string]interface{}{"given0": "somebody else"}
		_, err = verifiable.ParseCredential(vh.J(p), append(opts(false), verifiable.WithExternalJSONLDContext(vh.CtxVerif))...)
		c.Expect(err != nil, "tampered-accepted:external-context", "altered subject accepted with external context", p)
	})

	// no proof checker configured: nothing can be accepted as proven
	c.Cases("no-checker", 20, func(r *rand.Rand, i int) {
		a := w.Ents["alice"]
		d, _ := sign(r, a, vh.LDSuites[r.Intn(len(vh.LDSuites))], cred(r, a))
		o := []verifiable.CredentialOpt{verifiable.WithJSONLDDocumentLoader(w.Loader), verifiable.WithCredDisableValidation()}
		if i%2 == 1 { // checkers of other forms only
			o = append(o, verifiable.WithJWTProofChecker(w.Checker), verifiable.WithCWTProofChecker(w.Checker))
		}

		_, err := verifiable.ParseCredential(vh.J(d), o...)
		c.Eval("no-checker")
		c.Expect(err != nil, "no-checker-accepted", "accepted without any proof checker", d)
	})
}

func replace(d map[string]interface{}, i int, p interface{}) { d["proof"].([]interface{})[i] = p }
