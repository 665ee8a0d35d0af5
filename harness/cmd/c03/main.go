// C03: Data Integrity proofs verify exactly what was signed, for the expected use.
package main

import (
	"fmt"
	"math/rand"
	"reflect"
	"strings"
	"time"

	"github.com/trustbloc/did-go/doc/did"

	"github.com/trustbloc/vc-go/dataintegrity"
	"github.com/trustbloc/vc-go/dataintegrity/models"
	"github.com/trustbloc/vc-go/verifharness/vh"
	"github.com/trustbloc/vc-go/verifiable"
)

var (
	w      *vh.World
	shared *dataintegrity.Verifier // used for every case of the run
)

func main() {
	vh.Main(vh.Spec{
		ID: "C03",
		Rule: "random JSON-LD document x cryptosuite x key form x proof options, signed by the code with the stated key; then one " +
			"alteration of document, proof member, expectation, key listing or proof set, through a fresh verifier, one shared by " +
			"the whole run, reused option values, and the credential and DID document entry points. Distinct: (alteration, suite, key form, entry point, place).",
		Level:   "exploration",
		Require: map[string]int64{"accept.genuine": 300, "reject.tampered": 500, "reject.expectation": 150, "reject.key": 80, "reject.set": 60, "history": 60, "wallet": 200, "wallet.no-jwk": 30},
		Assumptions: []string{"JSON-LD canonicalisation is correct", "documents whose contexts define the proof terms (or a vocabulary)",
			"expiry is judged more than a decade away from the sandbox clock"},
		Run: run,
	})
}

type expect struct{ purpose, domain, challenge string }

func vopts(e expect) *models.ProofOptions {
	return &models.ProofOptions{Purpose: e.purpose, ProofType: models.DataIntegrityProof, Domain: e.domain, Challenge: e.challenge}
}

var entryName = []string{"fresh", "shared", "credential", "credential-check"}

func verify(entry int, b []byte, e expect) error {
	switch entry {
	case 0:
		return w.DIVerifier().VerifyProof(b, vopts(e))
	case 1:
		return shared.VerifyProof(b, vopts(e))
	case 2:
		_, err := verifiable.ParseCredential(b, verifiable.WithDataIntegrityVerifier(shared), verifiable.WithCredDisableValidation(),
			verifiable.WithExpectedDataIntegrityFields(e.purpose, e.domain, e.challenge), verifiable.WithJSONLDDocumentLoader(w.Loader))
		return err
	default:
		vc, err := verifiable.ParseCredential(b, verifiable.WithDisabledProofCheck(), verifiable.WithCredDisableValidation(),
			verifiable.WithJSONLDDocumentLoader(w.Loader))
		if err != nil {
			return err
		}

		return vc.CheckProof(verifiable.WithDataIntegrityVerifier(shared), verifiable.WithJSONLDDocumentLoader(w.Loader),
			verifiable.WithExpectedDataIntegrityFields(e.purpose, e.domain, e.challenge))
	}
}

func doc(r *rand.Rand, e *vh.Entity) map[string]interface{} {
	return vh.Cred(r, vh.CredOpts{V: 1 + r.Intn(2), Issuer: e.DID, LDSafe: true})
}

func proofOf(d map[string]interface{}) map[string]interface{} { return vh.Proofs(d)[0] }

func tampers() []vh.Tamper {
	pc := func(k string, f func(r *rand.Rand, old string) interface{}) vh.Tamper {
		return vh.Tamper{Name: "proof-" + k, F: func(r *rand.Rand, d map[string]interface{}) string {
			p := proofOf(d)
			s, ok := p[k].(string)
			if !ok {
				return ""
			}
			p[k] = f(r, s)
			return k
		}}
	}

	return append(vh.ClaimTampers(),
		pc("created", func(r *rand.Rand, s string) interface{} {
			t, _ := time.Parse(time.RFC3339, s)
			return vh.Pick(r, t.Add(time.Second).Format(time.RFC3339), "2030-01-01T00:00:00Z",
				strings.TrimSuffix(t.UTC().Format(time.RFC3339), "Z")+".5Z", "", "yesterday")
		}),
		pc("expires", func(r *rand.Rand, s string) interface{} {
			t, _ := time.Parse(time.RFC3339, s)
			return vh.Pick(r, t.Add(time.Hour).Format(time.RFC3339), "2120-01-01T00:00:00Z",
				strings.TrimSuffix(t.UTC().Format(time.RFC3339), "Z")+".25Z", "", "never")
		}),
		pc("cryptosuite", func(r *rand.Rand, s string) interface{} {
			for {
				if x := vh.Pick(r, "ecdsa-2019", "ecdsa-rdfc-2019", "eddsa-rdfc-2022", "eddsa-2022", "", "bbs-2023"); x != s {
					return x
				}
			}
		}),
		pc("verificationMethod", func(r *rand.Rand, s string) interface{} {
			for {
				e := w.Ents[vh.Pick(r, "alice", "mallory")]
				x := vh.Pick(r, e.Keys["ES256"].ID, e.Keys["ES384"].ID, e.Keys["EdDSA"].ID, e.DID+"#mk256", s+"x", "", strings.Split(s, "#")[0])
				if x != s {
					return x
				}
			}
		}),
		pc("proofPurpose", func(r *rand.Rand, s string) interface{} {
			for {
				if x := vh.Pick(r, "assertionMethod", "authentication", "capabilityInvocation", "", "x"); x != s {
					return x
				}
			}
		}),
		pc("type", func(r *rand.Rand, s string) interface{} {
			return vh.Pick(r, "Ed25519Signature2020", "", "DataIntegrity")
		}),
		pc("domain", func(r *rand.Rand, s string) interface{} { return s + "x" }),
		pc("challenge", func(r *rand.Rand, s string) interface{} { return s + "x" }),
		vh.Tamper{Name: "proof-member-removed", F: func(r *rand.Rand, d map[string]interface{}) string {
			p := proofOf(d)
			ks := vh.SortedKeys(p)
			k := ks[r.Intn(len(ks))]
			delete(p, k)
			return k
		}},
		vh.Tamper{Name: "proof-member-added", F: func(r *rand.Rand, d map[string]interface{}) string {
			p := proofOf(d)
			k := vh.Pick(r, "domain", "challenge", "expires")
			if _, ok := p[k]; ok {
				return ""
			}
			p[k] = "2120-01-01T00:00:00Z"
			return k
		}},
		vh.Tamper{Name: "value-bit", F: func(r *rand.Rand, d map[string]interface{}) string {
			return editValue(d, func(b []byte) []byte { b[r.Intn(len(b))] ^= 1 << r.Intn(8); return b })
		}},
		vh.Tamper{Name: "value-truncated", F: func(r *rand.Rand, d map[string]interface{}) string {
			return editValue(d, func(b []byte) []byte { return b[:len(b)-1-r.Intn(len(b)-1)] })
		}},
		vh.Tamper{Name: "value-extended", F: func(r *rand.Rand, d map[string]interface{}) string {
			return editValue(d, func(b []byte) []byte { return append(b, 1) })
		}},
		vh.Tamper{Name: "value-zero", F: func(r *rand.Rand, d map[string]interface{}) string {
			return editValue(d, func(b []byte) []byte { return make([]byte, len(b)) })
		}},
		vh.Tamper{Name: "value-shape", F: func(r *rand.Rand, d map[string]interface{}) string {
			proofOf(d)["proofValue"] = vh.Pick[interface{}](r, "", "z", 5.0, nil, "zzzz", "uAAAA")
			return "proofValue"
		}},
		vh.Tamper{Name: "no-proof", F: func(r *rand.Rand, d map[string]interface{}) string {
			if r.Intn(3) == 0 {
				delete(d, "proof")
				return "absent"
			}
			d["proof"] = vh.Pick[interface{}](r, nil, []interface{}{}, map[string]interface{}{}, "x", []interface{}{nil}, []interface{}{map[string]interface{}{}}, 5.0)
			return string(vh.J(d["proof"]))
		}},
		vh.Tamper{Name: "proof-beside", F: func(r *rand.Rand, d map[string]interface{}) string { // anything bad beside the good proof
			p := d["proof"]
			d["proof"] = vh.Pick(r, []interface{}{p, map[string]interface{}{}}, []interface{}{p, nil}, []interface{}{p, "x"},
				[]interface{}{p, map[string]interface{}{"type": "DataIntegrityProof", "proofPurpose": "assertionMethod", "verificationMethod": "did:x#y"}})
			return string(vh.J(d["proof"].([]interface{})[1]))
		}},
	)
}

func editValue(d map[string]interface{}, f func([]byte) []byte) string {
	p := proofOf(d)
	p["proofValue"] = vh.MB58(f(vh.MB58Dec(p["proofValue"].(string))))

	return "proofValue"
}

func run(c *vh.Check) {
	w = vh.NewWorld("alice", "bob", "mallory")
	w.PrepareDI()
	w.PrepareLD()
	shared = w.DIVerifier()

	a := w.Ents["alice"]
	ts := tampers()

	c.Cases("document", c.N(600, 8000), func(r *rand.Rand, i int) {
		s := vh.DISuites[i%len(vh.DISuites)]
		o := w.DIOpts(r, a, s)
		d0 := doc(r, a)
		keep := *o
		d := w.DISign(d0, a, s, o)
		id := s.Suite + "/" + s.Alg + s.VM
		e := expect{purpose: o.Purpose}

		c.Expect(keep.VerificationMethodID == o.VerificationMethodID && o.VerificationMethod == nil && keep.SuiteType == o.SuiteType,
			"sign-options-changed", "AddProof changed the caller's options", fmt.Sprintf("%+v -> %+v", keep, *o))

		nd := vh.CloneM(d)
		delete(nd, "proof")
		c.Expect(vh.Diff(vh.Norm(d0), nd) == "", "signing-changed-document", "signing changed the document", d)

		// the proof says what was asked for
		p := proofOf(d)
		want := map[string]interface{}{"type": "DataIntegrityProof", "cryptosuite": s.Suite, "proofPurpose": o.Purpose,
			"verificationMethod": o.VerificationMethodID, "created": o.Created.Format(time.RFC3339), "proofValue": p["proofValue"]}
		if o.Domain != "" {
			want["domain"] = o.Domain
		}
		if o.Challenge != "" {
			want["challenge"] = o.Challenge
		}
		if !o.Expires.IsZero() {
			want["expires"] = o.Expires.Format(time.RFC3339)
		}
		c.Expect(vh.Diff(want, p) == "", "proof-members", "proof does not state the requested options: "+vh.Diff(want, p), p)

		for en := range entryName {
			for _, ex := range []expect{e, {o.Purpose, o.Domain, o.Challenge}} {
				err := verify(en, vh.J(d), ex)
				c.Eval(fmt.Sprintf("genuine/%s/%s/%v%v", id, entryName[en], ex.domain != "", ex.challenge != ""))

				if c.Expect(err == nil, "genuine-rejected:"+s.Suite+":"+entryName[en], fmt.Sprintf("genuine %s proof (expected domain %q, challenge %q) rejected: %v", id, ex.domain, ex.challenge, err), d) {
					c.Count("accept.genuine", 1)
				}
			}
		}

		en := r.Intn(len(entryName))
		sb := vh.Shuffled(r, d)
		err := verify(en, sb, e)
		c.Eval("reserialised/" + id + "/" + entryName[en])
		c.Expect(err == nil, "reserialised-rejected", fmt.Sprintf("reserialised document rejected: %v", err), string(sb))

		for k := 0; k < 8; k++ {
			t := ts[(i/len(vh.DISuites)*8+k)%len(ts)]
			td := vh.CloneM(d)

			where := t.F(r, td)
			if where == "" {
				continue
			}

			en := r.Intn(len(entryName))
			err := verify(en, vh.J(td), e)
			c.Eval(t.Name + "/" + id + "/" + entryName[en] + "/" + where)

			if c.Expect(err != nil, "tampered-accepted:"+t.Name+":"+where, fmt.Sprintf("%s after %s at %s accepted via %s", id, t.Name, where, entryName[en]),
				map[string]interface{}{"signed": d, "tampered": td}) {
				c.Count("reject.tampered", 1)
			}

			if i < 3 && k == 0 {
				c.Sample(fmt.Sprintf("%s %s@%s -> %v", id, t.Name, where, err))
			}
		}

		// expectations
		exps := map[string]expect{
			"purpose": {vh.Pick(r, "capabilityInvocation", "capabilityDelegation", "keyAgreement"), "", ""},
			"domain":  {o.Purpose, "https://other.example", ""}, "challenge": {o.Purpose, "", "other-challenge"},
			"domain+": {o.Purpose, o.Domain + "x", o.Challenge}, "challenge+": {o.Purpose, o.Domain, o.Challenge + "x"},
		}

		if o.Purpose == "assertionMethod" {
			exps["purpose2"] = expect{"authentication", "", ""}
		} else {
			exps["purpose2"] = expect{"assertionMethod", "", ""}
			exps["purpose-default"] = expect{"assertionMethod", o.Domain, o.Challenge}
		}

		for _, n := range vh.SortedKeys(exps) {
			en := r.Intn(len(entryName))
			err := verify(en, vh.J(d), exps[n])
			c.Eval("expect/" + n + "/" + id + "/" + entryName[en])

			if c.Expect(err != nil, "expectation-ignored:"+n, fmt.Sprintf("proof %v accepted against expectation %+v via %s", p, exps[n], entryName[en]), d) {
				c.Count("reject.expectation", 1)
			}
		}
	})

	// expired proofs, however they are signed
	c.Cases("expired", c.N(60, 600), func(r *rand.Rand, i int) {
		s := vh.DISuites[i%len(vh.DISuites)]
		o := w.DIOpts(r, a, s)
		o.Expires = time.Unix(1000000000+r.Int63n(300000000), 0).UTC()

		if r.Intn(2) == 0 { // just expired
			o.Expires = time.Now().Add(-vh.Pick(r, 2*time.Second, 10*time.Second, time.Minute, 4*time.Minute, time.Hour)).UTC().Truncate(time.Second)
		}

		d := w.DISign(doc(r, a), a, s, o)

		for en := range entryName {
			err := verify(en, vh.J(d), expect{purpose: o.Purpose})
			c.Eval("expired/" + s.Suite + s.Alg + s.VM + entryName[en])

			if c.Expect(err != nil, "expired-accepted", "proof that expired in "+o.Expires.String()+" accepted", d) {
				c.Count("reject.expectation", 1)
			}
		}
	})

	// which keys may be used: relationship of the method in the DID document
	keyCases(c)
	setCases(c, ts)
	historyCases(c)
	walletCases(c)
	issuerCases(c)
	didDocCases(c)
}

var rels = map[string]did.VerificationRelationship{"assertionMethod": did.AssertionMethod, "authentication": did.Authentication,
	"capabilityDelegation": did.CapabilityDelegation, "capabilityInvocation": did.CapabilityInvocation, "keyAgreement": did.KeyAgreement}

func keyCases(c *vh.Check) {
	e := w.Ents["bob"]
	algs := []string{"ES256", "ES384", "EdDSA"}

	for _, alg := range algs {
		for _, n := range vh.SortedKeys(rels) {
			k := vh.NewKey(alg, "only-"+n+alg)
			w.AddJWKVM(e, "only-"+n+"-"+strings.ToLower(alg), k, rels[n])
		}

		w.AddJWKVM(e, "only-general-"+strings.ToLower(alg), vh.NewKey(alg, "only-general"+alg))
	}

	listed := append(vh.SortedKeys(rels), "general")
	purposes := append(vh.SortedKeys(rels), "bogus")
	n := len(listed) * len(purposes) * len(algs)

	c.Cases("relationship", c.N(n, 4*n), func(r *rand.Rand, i int) {
		l, p, alg := listed[i%len(listed)], purposes[i/len(listed)%len(purposes)], algs[i/len(listed)/len(purposes)%len(algs)]
		k := vh.NewKey(alg, "only-"+l+alg)
		vmID := e.DID + "#only-" + l + "-" + strings.ToLower(alg)
		ok := (l == p && p != "keyAgreement") || (l == "general" && p == "assertionMethod")
		s := "ecdsa-rdfc-2019"

		if alg == "EdDSA" {
			s = "eddsa-rdfc-2022"
		}

		// signed with the method given directly, so that the signer's own listing check is not in the way
		vm, _ := did.NewVerificationMethodFromJWK(vmID, "JsonWebKey2020", e.DID, k.JWK)
		k.ID = vmID

		out, err := w.DISigner(k).AddProof(vh.J(doc(r, e)), &models.ProofOptions{Purpose: p, VerificationMethod: vm, VerificationMethodID: vmID,
			ProofType: models.DataIntegrityProof, SuiteType: s, Created: time.Unix(1600000000, 0).UTC()})
		if err != nil {
			panic(fmt.Sprintf("AddProof: %v", err))
		}

		for en := range entryName {
			err := verify(en, out, expect{purpose: p})
			c.Eval("relationship/" + l + "/" + p + "/" + alg + entryName[en])

			if ok {
				if c.Expect(err == nil, "genuine-rejected:relationship", fmt.Sprintf("key listed as %s rejected for %s: %v", l, p, err), string(out)) {
					c.Count("accept.genuine", 1)
				}
			} else if c.Expect(err != nil, "relationship-ignored:"+l+":"+p, fmt.Sprintf("key listed only as %s accepted for purpose %s", l, p), string(out)) {
				c.Count("reject.key", 1)
			}
		}

		// the signer refuses to use it, too
		_, err = w.DISigner(k).AddProof(vh.J(doc(r, e)), &models.ProofOptions{Purpose: p, VerificationMethodID: vmID,
			ProofType: models.DataIntegrityProof, SuiteType: s, Created: time.Unix(1600000000, 0).UTC()})
		c.Expect((err == nil) == ok, "signer-relationship:"+l+":"+p, fmt.Sprintf("signing for %s with a key listed as %s: %v", p, l, err), nil)
	})

	// wrong keys
	c.Cases("wrong-key", c.N(120, 1200), func(r *rand.Rand, i int) {
		s := vh.DISuites[i%len(vh.DISuites)]
		a, m := w.Ents["alice"], w.Ents["mallory"]
		o := w.DIOpts(r, a, s)
		d := doc(r, a)
		how := vh.Pick(r, "foreign-key", "other-did-vm", "unknown-did", "unknown-vm", "other-suite-key")
		signKey := m.Keys[s.Alg]

		out, err := w.DISigner(signKey).AddProof(vh.J(d), o)
		if err != nil {
			panic(fmt.Sprintf("AddProof: %v", err))
		}

		x := vh.M(out)
		p := proofOf(x)

		switch how {
		case "other-did-vm":
			p["verificationMethod"] = w.Ents["bob"].Keys[s.Alg].ID
		case "unknown-did":
			p["verificationMethod"] = "did:verif:nobody#x"
		case "unknown-vm":
			p["verificationMethod"] = a.DID + "#nothing"
		case "other-suite-key":
			for {
				if k := a.Keys[vh.Pick(r, vh.AllAlgs...)]; k.Alg != s.Alg {
					p["verificationMethod"] = k.ID
					break
				}
			}
		}

		for en := range entryName {
			err := verify(en, vh.J(x), expect{purpose: o.Purpose})
			c.Eval("wrong-key/" + how + "/" + s.Suite + s.Alg + s.VM + entryName[en])

			if c.Expect(err != nil, "wrong-key-accepted:"+how, how+" accepted via "+entryName[en], x) {
				c.Count("reject.key", 1)
			}
		}
	})

	c.Cases("no-verifier", 10, func(r *rand.Rand, i int) {
		a := w.Ents["alice"]
		d := w.DISign(doc(r, a), a, vh.DISuites[0], w.DIOpts(r, a, vh.DISuites[0]))
		_, err := verifiable.ParseCredential(vh.J(d), verifiable.WithCredDisableValidation(), verifiable.WithJSONLDDocumentLoader(w.Loader),
			verifiable.WithProofChecker(w.Checker))
		c.Eval("no-verifier")
		c.Expect(err != nil, "no-verifier-accepted", "accepted without a data integrity verifier", d)

		v, _ := dataintegrity.NewVerifier(&dataintegrity.Options{DIDResolver: w})
		c.Expect(v.VerifyProof(vh.J(d), vopts(expect{purpose: "assertionMethod"})) != nil, "no-suite-accepted", "accepted by a verifier without suites", d)
	})
}

// sets builds a proof set: every proof is made over the unsecured document.
func set(r *rand.Rand, d map[string]interface{}, e *vh.Entity, purpose string, n int) (map[string]interface{}, []vh.DISuite) {
	var (
		ps []interface{}
		ss []vh.DISuite
	)

	for k := 0; k < n; k++ {
		s := vh.DISuites[r.Intn(len(vh.DISuites))]
		o := w.DIOpts(r, e, s)
		o.Purpose = purpose
		o.Domain, o.Challenge = "", ""
		x := w.DISign(d, e, s, o)
		ps = append(ps, x["proof"])
		ss = append(ss, s)
	}

	out := vh.CloneM(d)
	out["proof"] = ps

	return out, ss
}

func setCases(c *vh.Check, ts []vh.Tamper) {
	a := w.Ents["alice"]

	c.Cases("set", c.N(160, 2000), func(r *rand.Rand, i int) {
		n := 1 + r.Intn(4)
		d0 := doc(r, a)
		d, ss := set(r, d0, a, "assertionMethod", n)
		e := expect{purpose: "assertionMethod"}

		for en := range entryName {
			err := verify(en, vh.J(d), e)
			c.Eval(fmt.Sprintf("set-good/%v/%s", ss, entryName[en]))

			if c.Expect(err == nil, "genuine-set-rejected", fmt.Sprintf("proof set %v rejected: %v", ss, err), d) {
				c.Count("accept.genuine", 1)
			}
		}

		bi := r.Intn(n)
		bad := vh.CloneM(d)
		bl := bad["proof"].([]interface{})
		how := vh.Pick(r, "value", "created", "vm", "vm-foreign-copy", "expired", "purpose", "foreign", "other-doc", "suite", "ld-type", "signed-other-purpose", "expires-dropped")
		bp := bl[bi].(map[string]interface{})

		switch how {
		case "value":
			b := vh.MB58Dec(bp["proofValue"].(string))
			b[r.Intn(len(b))] ^= 1
			bp["proofValue"] = vh.MB58(b)
		case "created":
			bp["created"] = "2031-01-01T00:00:00Z"
		case "vm":
			old := bp["verificationMethod"]
			for bp["verificationMethod"] == old {
				bp["verificationMethod"] = w.Ents[vh.Pick(r, "alice", "mallory")].Keys[vh.Pick(r, "ES256", "ES384", "EdDSA")].ID
			}
		case "vm-foreign-copy": // a copy of a good proof that claims another signer
			cp := vh.CloneM(bl[r.Intn(n)].(map[string]interface{}))
			cp["verificationMethod"] = w.Ents["mallory"].Keys["ES256"].ID
			bad["proof"] = append(bl, cp)
		case "expired":
			s := ss[bi]
			o := w.DIOpts(r, a, s)
			o.Purpose, o.Domain, o.Challenge, o.Expires = "assertionMethod", "", "", time.Unix(1200000000, 0).UTC()
			bl[bi] = w.DISign(d0, a, s, o)["proof"]
		case "purpose":
			bp["proofPurpose"] = "authentication"
		case "signed-other-purpose":
			s := ss[bi]
			o := w.DIOpts(r, a, s)
			o.Purpose, o.Domain, o.Challenge = "authentication", "", ""
			bl[bi] = w.DISign(d0, a, s, o)["proof"]
		case "foreign":
			m := w.Ents["mallory"]
			s := ss[bi]
			o := w.DIOpts(r, a, s)
			o.Purpose, o.Domain, o.Challenge = "assertionMethod", "", ""
			out, err := w.DISigner(m.Keys[s.Alg]).AddProof(vh.J(d0), o)
			if err != nil {
				panic(fmt.Sprintf("AddProof: %v", err))
			}
			bl[bi] = vh.M(out)["proof"]
		case "other-doc":
			od := vh.CloneM(d0)
			od["sneaked"] = "x"
			s := ss[bi]
			o := w.DIOpts(r, a, s)
			o.Purpose, o.Domain, o.Challenge = "assertionMethod", "", ""
			bl[bi] = w.DISign(od, a, s, o)["proof"]
		case "suite":
			bp["cryptosuite"] = "unknown-2099"
		case "ld-type":
			bp["type"] = "Ed25519Signature2020"
		case "expires-dropped":
			if _, ok := bp["expires"]; !ok {
				return
			}
			delete(bp, "expires")
		}

		for en := range entryName {
			err := verify(en, vh.J(bad), e)
			c.Eval(fmt.Sprintf("set-bad/%s/%d/%d/%s", how, n, bi, entryName[en]))

			if c.Expect(err != nil, "bad-proof-in-set-accepted:"+how, fmt.Sprintf("set of %d with bad proof %d (%s) accepted via %s", n, bi, how, entryName[en]), bad) {
				c.Count("reject.set", 1)
			}
		}
	})

	// signing a document that already carries a proof still yields a verifiable document
	c.Cases("resign", c.N(40, 400), func(r *rand.Rand, i int) {
		s1, s2 := vh.DISuites[i%len(vh.DISuites)], vh.DISuites[r.Intn(len(vh.DISuites))]
		o1, o2 := w.DIOpts(r, a, s1), w.DIOpts(r, a, s2)
		o1.Purpose, o2.Purpose = "assertionMethod", "assertionMethod"
		d := w.DISign(w.DISign(doc(r, a), a, s1, o1), a, s2, o2)
		err := verify(r.Intn(2), vh.J(d), expect{purpose: "assertionMethod"})
		c.Eval("resign/" + s1.Suite + s2.Suite)
		c.Expect(err == nil, "genuine-rejected:resigned", fmt.Sprintf("document signed again is not verifiable: %v", err), d)
	})
}

// history: the same verifier and options value used over and over gives the verdicts of fresh ones.
func historyCases(c *vh.Check) {
	a := w.Ents["alice"]

	c.Cases("history", c.N(80, 800), func(r *rand.Rand, i int) {
		v := w.DIVerifier()
		o := vopts(expect{purpose: "assertionMethod"})
		steps := 3 + r.Intn(6)

		var log []string

		for k := 0; k < steps; k++ {
			s := vh.DISuites[r.Intn(len(vh.DISuites))]
			so := w.DIOpts(r, a, s)
			so.Purpose = "assertionMethod"
			d := w.DISign(doc(r, a), a, s, so)
			good := r.Intn(2) == 0

			if !good {
				switch r.Intn(4) {
				case 0:
					d["sneaked"] = "x"
				case 1:
					editValue(d, func(b []byte) []byte { b[3] ^= 8; return b })
				case 2:
					proofOf(d)["verificationMethod"] = w.Ents["mallory"].Keys[s.Alg].ID
				default:
					proofOf(d)["created"] = "2030-02-02T02:02:02Z"
				}
			}

			before := *o
			err := v.VerifyProof(vh.J(d), o)
			log = append(log, fmt.Sprintf("%s/%v", s.Suite+s.Alg, good))
			c.Eval("history/" + strings.Join(log, ","))

			if !c.Expect((err == nil) == good, "history-verdict", fmt.Sprintf("step %d of %v: genuine=%v, verdict %v", k, log, good, err), d) {
				return
			}

			same := before.Purpose == o.Purpose && before.SuiteType == o.SuiteType && before.VerificationMethodID == o.VerificationMethodID &&
				before.VerificationMethod == o.VerificationMethod && before.Created.Equal(o.Created) && before.Expires.Equal(o.Expires) &&
				before.Domain == o.Domain && before.Challenge == o.Challenge
			c.Expect(same, "verify-options-changed", fmt.Sprintf("VerifyProof changed the caller's options: %+v -> %+v", before, *o), nil)
			c.Count("history", 1)
		}
	})
}

// walletCases: one signer for many keys gets the key of the method the proof names.
func walletCases(c *vh.Check) {
	all := w.DIWallet()
	names := vh.SortedKeys(w.Ents)

	c.Cases("wallet", c.N(160, 2000), func(r *rand.Rand, i int) {
		s := vh.DISuites[i%len(vh.DISuites)]
		o := &models.ProofOptions{}

		for k := 0; k < 3; k++ { // the same option value, filled in again
			e := w.Ents[vh.Pick(r, names...)]
			d0 := doc(r, e)
			*o = *w.DIOpts(r, e, s)
			before := *o
			signer := all

			if r.Intn(4) == 0 {
				signer = w.DIStatic(e.Keys[s.Alg])
			}

			var (
				b   []byte
				err error
			)

			p0, site, val := vh.Guard(func() { b, err = signer.AddProof(vh.J(d0), o) })
			c.Eval("wallet/" + s.Suite + s.Alg + s.VM)

			if !c.Expect(!p0, "wallet-panic", fmt.Sprintf("AddProof by %s panics at %s: %v", o.VerificationMethodID, site, val), d0) {
				return
			}

			if s.VM != "" && signer == all { // a wallet finds keys by their JWK, this method has none
				c.Expect(err != nil, "wallet-no-jwk", "signed with a key that was not stated", d0)
				c.Count("wallet.no-jwk", 1)

				continue
			}

			if !c.Expect(err == nil, "wallet-sign", fmt.Sprintf("AddProof by %s: %v", o.VerificationMethodID, err), d0) {
				return
			}

			before.VerificationMethod = o.VerificationMethod // filled in when it is not given
			c.Expect(reflect.DeepEqual(before, *o), "sign-options-changed", fmt.Sprintf("AddProof changed the caller's options: %+v -> %+v", before, *o), nil)

			p := vh.Proofs(vh.M(b))
			c.Expect(len(p) == 1 && p[0]["verificationMethod"] == s.VMID(e), "wallet-method", fmt.Sprintf("proof names %v, asked for %s", p[0]["verificationMethod"], s.VMID(e)), vh.M(b))

			err = verify(r.Intn(2), b, expect{before.Purpose, before.Domain, before.Challenge})
			if c.Expect(err == nil, "wallet-rejected", fmt.Sprintf("proof made with the key of %s rejected: %v", before.VerificationMethodID, err), vh.M(b)) {
				c.Count("wallet", 1)
			}

			if r.Intn(3) == 0 { // a key the wallet lacks
				w2 := *o
				w2.VerificationMethod, w2.VerificationMethodID = nil, e.DID+"#nobody"
				_, err = all.AddProof(vh.J(d0), &w2)
				c.Expect(err != nil, "wallet-unknown-method", "proof made for a method that does not exist", nil)
			}
		}
	})
}

// the credential's issuer must be the one whose key signed
func issuerCases(c *vh.Check) {
	c.Cases("issuer", c.N(60, 600), func(r *rand.Rand, i int) {
		a, m := w.Ents["alice"], w.Ents["mallory"]
		s := vh.DISuites[i%len(vh.DISuites)]
		d0 := doc(r, a) // names alice as issuer
		o := w.DIOpts(r, m, s)
		o.Purpose = "assertionMethod"
		d := w.DISign(d0, m, s, o)

		for en := 2; en < len(entryName); en++ {
			err := verify(en, vh.J(d), expect{purpose: "assertionMethod"})
			c.Eval("foreign-issuer/" + s.Suite + s.Alg + entryName[en])

			if c.Expect(err != nil, "foreign-issuer-accepted:credential/"+entryName[en], "credential naming "+a.DID+" as issuer accepted with a proof by "+m.DID, d) {
				c.Count("reject.key", 1)
			}
		}

		// a second proof by a stranger does not make it the issuer's either
		d1, _ := set(r, d0, a, "assertionMethod", 1)
		d1["proof"] = append(d1["proof"].([]interface{}), d["proof"])

		if o.Domain == "" && o.Challenge == "" {
			en := 2 + r.Intn(2)
			err := verify(en, vh.J(d1), expect{purpose: "assertionMethod"})
			c.Eval("foreign-second/" + s.Suite + s.Alg)
			c.Expect(err != nil, "foreign-issuer-accepted:set/"+entryName[en], "set with a proof by another party accepted as the issuer's", d1)
		}
	})
}

// DID documents
func didDocCases(c *vh.Check) {
	c.Cases("did-document", c.N(60, 600), func(r *rand.Rand, i int) {
		a := w.Ents["alice"]
		s := vh.DISuites[i%len(vh.DISuites)]
		dd := &did.Doc{Context: []string{"https://www.w3.org/ns/did/v1", vh.CtxVerif}, ID: a.DID}
		k := vh.NewKey("EdDSA", fmt.Sprint("doc", r.Intn(1000)))
		vm, _ := did.NewVerificationMethodFromJWK(a.DID+"#k1", "JsonWebKey2020", a.DID, k.JWK)
		dd.VerificationMethod = []did.VerificationMethod{*vm}
		dd.AssertionMethod = []did.Verification{*did.NewReferencedVerification(vm, did.AssertionMethod)}
		dd.Service = []did.Service{}

		ctx := &verifiable.DataIntegrityProofContext{SigningKeyID: s.VMID(a), ProofPurpose: "assertionMethod", CryptoSuite: s.Suite}
		if r.Intn(2) == 0 {
			t := time.Unix(1500000000+r.Int63n(100000000), 0)
			ctx.Created = &t
		}

		if r.Intn(2) == 0 {
			ctx.Domain, ctx.Challenge = "https://d.example", "c"+vh.SafeStr(r)
		}

		signed, err := verifiable.AddDIDDataIntegrityProof(dd, ctx, w.DISigner(a.Keys[s.Alg]))
		if err != nil {
			panic(fmt.Sprintf("AddDIDDataIntegrityProof: %v", err))
		}

		vo := func(p, d, ch string) []verifiable.VerifyDIDOpt {
			return []verifiable.VerifyDIDOpt{verifiable.WithDIDDataIntegrityVerifier(shared), verifiable.WithDIDExpectedDataIntegrityFields(p, d, ch),
				verifiable.WithDIDProofChecker(w.Checker), verifiable.WithDIDJSONLDDocumentLoader(w.Loader)}
		}

		err = verifiable.VerifyDIDProof(signed, vo("assertionMethod", ctx.Domain, ctx.Challenge)...)
		c.Eval("did/" + s.Suite + s.Alg)

		if !c.Expect(err == nil, "genuine-rejected:did-document", fmt.Sprintf("signed DID document rejected: %v", err), nil) {
			return
		}

		c.Count("accept.genuine", 1)
		c.Expect(verifiable.VerifyDIDProof(signed, vo("authentication", ctx.Domain, ctx.Challenge)...) != nil, "expectation-ignored:did-purpose", "wrong purpose accepted", nil)
		c.Expect(verifiable.VerifyDIDProof(signed, vo("assertionMethod", "https://other.example", ctx.Challenge)...) != nil, "expectation-ignored:did-domain", "wrong domain accepted", nil)
		c.Expect(verifiable.VerifyDIDProof(signed, vo("assertionMethod", ctx.Domain, "zz")...) != nil, "expectation-ignored:did-challenge", "wrong challenge accepted", nil)

		b, err := signed.JSONBytes()
		if err != nil {
			panic("vh-fixture did json " + err.Error())
		}

		x := vh.M(b)
		switch r.Intn(3) {
		case 0:
			x["assertionMethod"] = []interface{}{}
			delete(x, "assertionMethod")
		case 1:
			k2 := vh.NewKey("EdDSA", "intruder")
			vm2, _ := did.NewVerificationMethodFromJWK(a.DID+"#k1", "JsonWebKey2020", a.DID, k2.JWK)
			dd2 := *dd
			dd2.VerificationMethod = []did.VerificationMethod{*vm2}
			b2, _ := dd2.JSONBytes()
			p := x["proof"]
			x = vh.M(b2)
			x["proof"] = p
		default:
			x["alsoKnownAs"] = []interface{}{"did:verif:intruder"}
		}

		td, err := did.ParseDocument(vh.J(x))
		if err != nil {
			return
		}

		c.Expect(verifiable.VerifyDIDProof(td, vo("assertionMethod", ctx.Domain, ctx.Challenge)...) != nil, "tampered-accepted:did-document", "altered DID document accepted", x)
		c.Count("reject.tampered", 1)
	})
}
