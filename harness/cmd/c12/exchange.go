package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"strings"

	kms "github.com/trustbloc/kms-go/spi/kms"

	"github.com/trustbloc/vc-go/crypto-ext/verifiers/ecdsa"
	"github.com/trustbloc/vc-go/crypto-ext/verifiers/ed25519"
	"github.com/trustbloc/vc-go/crypto-ext/verifiers/rsa"
	"github.com/trustbloc/vc-go/dataintegrity"
	"github.com/trustbloc/vc-go/dataintegrity/suite/ecdsa2019"
	"github.com/trustbloc/vc-go/dataintegrity/suite/eddsa2022"
	"github.com/trustbloc/vc-go/presexch"
	"github.com/trustbloc/vc-go/proof/checker"
	"github.com/trustbloc/vc-go/proof/jwtproofs/eddsa"
	"github.com/trustbloc/vc-go/proof/jwtproofs/es256"
	"github.com/trustbloc/vc-go/proof/jwtproofs/es256k"
	"github.com/trustbloc/vc-go/proof/jwtproofs/es384"
	"github.com/trustbloc/vc-go/proof/jwtproofs/es521"
	"github.com/trustbloc/vc-go/proof/jwtproofs/ps256"
	"github.com/trustbloc/vc-go/proof/jwtproofs/rs256"
	"github.com/trustbloc/vc-go/verifharness/vh"
	"github.com/trustbloc/vc-go/verifiable"
)

var pubkeyTypes = []kms.KeyType{kms.ED25519Type, kms.ECDSAP256TypeIEEEP1363, kms.ECDSAP256TypeDER, kms.ECDSAP384TypeIEEEP1363, kms.ECDSAP384TypeDER, kms.ECDSAP521TypeIEEEP1363, kms.ECDSAP521TypeDER,
	kms.ECDSASecp256k1TypeIEEEP1363, kms.ECDSASecp256k1TypeDER, kms.RSARS256Type, kms.RSAPS256Type, kms.BLS12381G2Type, ""}

func allOpts() []checker.Opt {
	return []checker.Opt{checker.WithJWTAlg(eddsa.New(), es256.New(), es256k.New(), es384.New(), es521.New(), rs256.New(), ps256.New()),
		checker.WithSignatureVerifiers(ed25519.New(), ecdsa.NewES256(), ecdsa.NewES384(), ecdsa.NewES521(), ecdsa.NewSecp256k1(), rsa.NewPS256(), rsa.NewRS256())}
}

func diVerifierOver(g *registry) (*dataintegrity.Verifier, error) {
	return dataintegrity.NewVerifier(&dataintegrity.Options{DIDResolver: g},
		ecdsa2019.NewVerifierInitializer(&ecdsa2019.VerifierInitializerOptions{LDDocumentLoader: w.Loader}),
		eddsa2022.NewVerifierInitializer(&eddsa2022.VerifierInitializerOptions{LDDocumentLoader: w.Loader}))
}

func definition(v2 bool) M {
	d1 := M{"id": "one", "name": "n", "purpose": "p", "group": L{"A"}, "constraints": M{"limit_disclosure": "preferred", "subject_is_issuer": "preferred", "fields": L{
		M{"path": L{"$.vc.credentialSubject.id", "$.credentialSubject.id", "$.id"}, "id": "f", "purpose": "p", "filter": M{"type": "string", "pattern": ".*"}},
		M{"path": L{"$.issuer", "$.issuer.id"}, "filter": M{"type": "string", "minLength": 1}, "predicate": "preferred"}}}}
	d2 := M{"id": "two", "group": L{"A", "B"}, "constraints": M{"fields": L{M{"path": L{"$.credentialSubject"}}, M{"path": L{"$..id"}, "filter": M{"not": M{"const": "x"}}}}}}
	def := M{"id": "def", "name": "n", "purpose": "p", "input_descriptors": L{d1, d2},
		"submission_requirements": L{M{"rule": "pick", "min": 1, "from": "A", "name": "x"}, M{"rule": "all", "from_nested": L{M{"rule": "pick", "count": 1, "from": "A"}, M{"rule": "all", "from": "B"}}}}}

	if v2 {
		d1["format"] = M{"ldp_vc": M{"proof_type": L{"Ed25519Signature2018"}}, "jwt_vc": M{"alg": L{"EdDSA"}}}
		def["frame"] = M{"@context": M{}}
		d1["constraints"].(M)["fields"].(L)[0].(M)["filter"] = M{"type": "string", "allOf": L{M{"pattern": "."}, M{"minLength": 1}}}
		d1["constraints"].(M)["fields"].(L)[1].(M)["optional"] = true
	} else {
		d1["schema"] = L{M{"uri": "https://www.w3.org/2018/credentials#VerifiableCredential", "required": true}}
		d2["schema"] = L{M{"uri": "https://www.w3.org/2018/credentials#VerifiableCredential"}}
	}

	return def
}

var pdBytes = []byte(`{"id":"def","input_descriptors":[{"id":"one","constraints":{"limit_disclosure":"required","fields":[{"path":["$.credentialSubject.id","$.id","$..id"]},{"path":["$.issuer"]},{"path":["$..*"]}]}}]}`)

func fixedPD() *presexch.PresentationDefinition {
	pd := &presexch.PresentationDefinition{}
	if err := json.Unmarshal(pdBytes, pd); err != nil {
		panic("vh-fixture: " + err.Error())
	}

	return pd
}

func wallet(r *rand.Rand) []*verifiable.Credential {
	var out []*verifiable.Credential

	for i := 0; i < 1+r.Intn(3); i++ {
		switch r.Intn(6) {
		case 0:
			out = append(out, w.ParseVC(validTokens[2*r.Intn(len(validTokens)/2)]))
		case 1:
			out = append(out, w.ParseVC(sdTokens[r.Intn(len(sdTokens))]))
		case 2:
			out = append(out, w.ParseVC(ldDocs[r.Intn(len(ldDocs))]))
		case 3:
			out = append(out, w.ParseVC(bbsDocs[r.Intn(len(bbsDocs))]))
		default:
			h, _ := hostileM(r, doc(r, 1+r.Intn(2)))
			if vc, err := verifiable.ParseCredential(vh.J(h), w.Lax()...); err == nil {
				out = append(out, vc)
			}
		}
	}

	return out
}

// exchanges: hostile definitions over a wallet.
func exchanges(c *vh.Check, r *rand.Rand) {
	h, how := hostile(r, definition(r.Intn(2) == 0))

	if r.Intn(5) == 0 { // one credential filter or path of interest
		def := definition(true)
		f := def["input_descriptors"].(L)[0].(M)["constraints"].(M)["fields"].(L)[0].(M)

		if r.Intn(2) == 0 {
			f["path"] = L{vh.Pick(r, "$", "$..*", "$..['id','id','id']", "$[?@.id]", "$[?length(@.a)>1]", "$[?match(@.id,'.*')]", "$[?search(@,'(')]", "$[-1:0:-1]", "$.*.*.*.*", "$['']", "$.vc", "$['vc']", "$[?@..id==@..id]", "$.credentialSubject[9223372036854775807]", "$[::0]",
				"$[1:9223372036854775807:9223372036854775807]", "$.a-b.c-d", "$.-", "$.", "@", "@.id", "", "$.credentialSubject.id.x", "$['credentialSubject']['id']", "$.type[0]", "$.type[*]", "$.type[-1]", "$.credentialSubject..id", "$._sd", "$..['...']", "$.@context")}
		} else {
			f["filter"] = vh.Pick(r, M{"not": M{"$ref": "#"}}, M{"contains": M{"$ref": "#"}}, M{"not": M{"$ref": "#/not"}}, M{"pattern": "("}, M{"pattern": "(a|aa)+$"}, M{"pattern": "^(a{1,900}){1,900}$"}, M{"minimum": "x"}, M{"enum": L{}}, M{"enum": L{nil}}, M{"const": nil}, M{"type": "x"},
				M{"type": ""}, M{"format": "date-time", "type": "string", "minimum": "2020-01-01T00:00:00Z"}, M{"not": M{"not": M{"not": M{}}}}, M{"contains": M{"type": 5}}, M{"allOf": L{nil}}, M{"allOf": L{}}, M{"minLength": -1}, M{"maxLength": -5}, M{"exclusiveMinimum": true}, M{"not": M{"definitions": 5, "$ref": "#/definitions/x"}},
				M{"not": M{"if": M{"$ref": "#/not"}, "then": false}}, M{"not": M{"$id": "x", "$ref": "x"}}, M{"contains": M{"allOf": L{M{"$ref": "#/contains"}}}})
		}

		h, how = def, "pick"
	}

	b, th := bytesOf(r, h)
	p := newProbe(c, r, "definition", how+th, b)
	pd := &presexch.PresentationDefinition{}

	if !p.call("presexch.Unmarshal", func() error { return json.Unmarshal(b, pd) }) {
		return
	}

	wal := wallet(r)
	opts := []presexch.MatchRequirementsOpt{presexch.WithSDCredentialOptions(verifiable.WithDisabledProofCheck(), verifiable.WithJSONLDDocumentLoader(w.Loader)), presexch.WithSDBBSProofCreator(w.BBSProofCreator(issuer())),
		presexch.WithDefaultPresentationFormat(vh.Pick(r, "ldp_vp", "jwt_vp", "", "x"))}

	if r.Intn(2) == 0 {
		opts = append(opts, presexch.WithSelectiveDisclosureApply())
	}

	p.some(2, []op{
		{"presexch.ValidateSchema", func() error { return pd.ValidateSchema() }},
		{"presexch.CreateVP", func() error {
			vp, err := pd.CreateVP(wal, w.Loader, opts...)
			if err != nil {
				return err
			}

			if _, err := vp.MarshalJSON(); err != nil {
				return err
			}

			return match(r, pd, vp)
		}},
		{"presexch.CreateVPArray", func() error { _, _, err := pd.CreateVPArray(wal, w.Loader, opts...); return err }},
		{"presexch.MatchSubmissionRequirement", func() error { _, err := pd.MatchSubmissionRequirement(wal, w.Loader, opts...); return err }},
		{"presexch.Match/none", func() error { _, err := pd.Match(nil, w.Loader); return err }},
	})
}

func match(r *rand.Rand, pd *presexch.PresentationDefinition, vps ...*verifiable.Presentation) error {
	opts := []presexch.MatchOption{presexch.WithCredentialOptions(verifiable.WithDisabledProofCheck(), verifiable.WithJSONLDDocumentLoader(w.Loader), verifiable.WithDisabledRelatedResourceCheck())}
	if r.Intn(2) == 0 {
		opts = append(opts, presexch.WithDisableSchemaValidation())
	}

	_, err := pd.Match(vps, w.Loader, opts...)

	return err
}

// matches: hostile submissions and presentations against a definition.
func matches(c *vh.Check, r *rand.Rand) {
	sub := M{"id": "s", "definition_id": "def", "descriptor_map": L{
		M{"id": "one", "format": "ldp_vp", "path": "$", "path_nested": M{"id": "one", "format": "ldp_vc", "path": "$.verifiableCredential[0]"}},
		M{"id": "one", "format": "jwt_vc", "path": "$.verifiableCredential[1]"}}}

	src := M{"@context": L{vh.CtxV1, vh.CtxPE}, "type": L{"VerifiablePresentation", "PresentationSubmission"}, "holder": "did:verif:holder", "verifiableCredential": L{ldDocs[r.Intn(len(ldDocs))], validTokens[2*r.Intn(len(validTokens)/2)], sdTokens[0]},
		"presentation_submission": sub}
	how := ""

	merged := r.Intn(3) == 0

	var ext interface{} = M{"id": "s", "definition_id": "def", "descriptor_map": L{M{"id": "one", "format": "ldp_vp", "path": "$[0]", "path_nested": M{"id": "one", "format": "ldp_vc", "path": "$.verifiableCredential[0]"}}}}

	switch {
	case merged:
		ext, how = hostile(r, ext)
		delete(src, "presentation_submission")
	case r.Intn(4) != 0:
		src["presentation_submission"], how = hostile(r, sub)
	default:
		src, how = hostileM(r, src)
	}

	b := vh.J(src)
	p := newProbe(c, r, "submission", how, vh.J(L{src, ext}))

	var vp *verifiable.Presentation

	if !p.call("ParsePresentation/match", func() (err error) {
		vp, err = verifiable.ParsePresentation(b, verifiable.WithPresDisabledProofCheck(), verifiable.WithPresJSONLDDocumentLoader(w.Loader), verifiable.WithDisabledJSONLDChecks())
		return err
	}) {
		return
	}

	pd := fixedPD()
	vps := []*verifiable.Presentation{vp}

	if merged && r.Intn(2) == 0 {
		vps = append(vps, vp)
	}

	opts := []presexch.MatchOption{presexch.WithCredentialOptions(verifiable.WithDisabledProofCheck(), verifiable.WithJSONLDDocumentLoader(w.Loader), verifiable.WithDisabledRelatedResourceCheck())}
	if r.Intn(2) == 0 {
		opts = append(opts, presexch.WithDisableSchemaValidation())
	}

	if merged {
		if m, ok := ext.(M); ok && r.Intn(2) == 0 {
			opts = append(opts, presexch.WithMergedSubmissionMap(m))
		} else {
			s := &presexch.PresentationSubmission{}
			if json.Unmarshal(vh.J(ext), s) != nil {
				return
			}

			opts = append(opts, presexch.WithMergedSubmission(s))
		}
	}

	p.call("presexch.Match", func() error { _, err := pd.Match(vps, w.Loader, opts...); return err })
}

// ---- size ----

// deep: nesting far beyond anything useful.
func deep(c *vh.Check, r *rand.Rand) {
	n := vh.Pick(r, 60, 200, 1000, 3000)
	if c.Thorough {
		n = vh.Pick(r, 200, 1000, 3000, 9000)
	}

	mode := r.Intn(6)
	if mode == 2 && n > 100 { // the JSON-LD library needs cubic time for chains (see the poison family)
		n = 100
	}

	if mode < 2 && n > 1000 { // the structure comparison needs quadratic time (see deepStrict)
		n = 1000
	}

	v := nest(r, vh.Pick[interface{}](r, nil, "x", M{}, 5), n)
	where := vh.Pick(r, "credentialSubject", "extra", "issuer", "@context", "credentialStatus", "proof", "type", "evidence", "verifiableCredential")
	d := vh.Cred(r, vh.CredOpts{V: 1 + r.Intn(2), Issuer: issuer().DID, LDSafe: true, OneSubject: true, NeedID: true})
	how := fmt.Sprintf("%s x%d", where, n)

	if where == "credentialSubject" && r.Intn(2) == 0 {
		d[where] = M{"id": "did:x", "a": v}
	} else {
		d[where] = v
	}

	switch mode {
	case 0:
		b, form := carried(r, d, "vc")
		newProbe(c, r, "deep "+form, how, b).credential(b)
	case 1:
		d = M{"@context": L{vh.CtxV1}, "type": "VerifiablePresentation", "verifiableCredential": L{d}, "x": v}
		b, form := carried(r, d, "vp")
		newProbe(c, r, "deep-vp "+form, how, b).presentation(b)
	case 2:
		d = vh.CloneM(ldDocs[r.Intn(len(ldDocs))])
		d["credentialSubject"] = M{"id": "did:x", "a": v}
		b := vh.J(d)
		newProbe(c, r, "deep-ld", how, b).credential(b)
	case 3:
		k := someKey(r)
		pay := M{"iss": issuer().DID, "_sd_alg": "sha-256", "a": v, "_sd": L{"x"}}
		s := token(r, vh.J(header(k)), vh.J(pay), k) + "~" + vh.B64(vh.J(L{"salt", "n", v})) + "~"
		newProbe(c, r, "deep-sd", how, s).tokenish([]byte(s))
	case 4:
		x := interface{}(M{"id": "one", "path": "$.verifiableCredential[0]", "format": "ldp_vc"})
		for i := 0; i < n; i++ {
			x = M{"id": "one", "path": "$", "format": "ldp_vp", "path_nested": x}
		}

		ext := M{"id": "s", "definition_id": "def", "descriptor_map": L{x}}
		p := newProbe(c, r, "deep-submission", how, vh.J(ext))
		vp := must(verifiable.ParsePresentation(vh.J(M{"@context": L{vh.CtxV1}, "type": "VerifiablePresentation", "verifiableCredential": L{validTokens[0]}}), w.LaxVP()...))
		p.call("presexch.Match/deep", func() error {
			_, err := fixedPD().Match([]*verifiable.Presentation{vp}, w.Loader, presexch.WithMergedSubmissionMap(ext))
			return err
		})
	default:
		q := interface{}(M{"rule": "all", "from": "A"})
		for i := 0; i < n; i++ {
			q = M{"rule": vh.Pick(r, "all", "pick"), "count": 1, "from_nested": L{q}}
		}

		def := definition(true)
		def["submission_requirements"] = L{q}
		b := vh.J(def)
		p := newProbe(c, r, "deep-requirement", how, b)
		pd := &presexch.PresentationDefinition{}

		if p.call("presexch.Unmarshal", func() error { return json.Unmarshal(b, pd) }) {
			wal := wallet(r)
			p.call("presexch.CreateVP/deep", func() error { _, err := pd.CreateVP(wal, w.Loader); return err })
			p.call("presexch.MatchSubmissionRequirement/deep", func() error { _, err := pd.MatchSubmissionRequirement(wal, w.Loader); return err })
		}
	}
}

// wide: inputs of a few kilobytes that invite combinatorial work.
func wide(c *vh.Check, r *rand.Rand) {
	switch kind := r.Intn(6); kind {
	case 5: // groups that overlap
		n := 6 + r.Intn(14)
		l, reqs := L{}, L{}

		for i := 0; i < n; i++ {
			g := L{}
			for j := 0; j < 1+r.Intn(3); j++ {
				g = append(g, fmt.Sprintf("g%d", r.Intn(n/2)))
			}

			l = append(l, M{"id": fmt.Sprintf("d%d", i), "group": g, "constraints": M{"fields": L{M{"path": L{"$.id"}}}}})
		}

		for j := 0; j < n/2; j++ {
			reqs = append(reqs, M{"rule": "pick", vh.Pick(r, "count", "max", "min"): 1, "from": fmt.Sprintf("g%d", j)})
		}

		b := vh.J(M{"id": "def", "input_descriptors": l, "submission_requirements": reqs})
		p := newProbe(c, r, "wide-overlap", fmt.Sprint(n), b)
		pd := &presexch.PresentationDefinition{}

		if p.call("presexch.Unmarshal", func() error { return json.Unmarshal(b, pd) }) {
			wal := wallet(r)
			p.call("presexch.CreateVP/wide", func() error { _, err := pd.CreateVP(wal, w.Loader); return err })
		}
	case 0: // many descriptors in one group, half of them needed
		n := 6 + r.Intn(30)
		l := L{}

		for i := 0; i < n; i++ {
			l = append(l, M{"id": fmt.Sprintf("d%d", i), "group": L{"A"}, "constraints": M{"fields": L{M{"path": L{vh.Pick(r, "$.id", "$.nowhere")}}}}})
		}

		req := M{"rule": "pick", "from": "A"}
		req[vh.Pick(r, "count", "min", "max")] = n / 2

		def := M{"id": "def", "input_descriptors": l, "submission_requirements": L{req}}
		b := vh.J(def)
		p := newProbe(c, r, "wide-requirement", fmt.Sprintf("%d of %d", n/2, n), b)
		pd := &presexch.PresentationDefinition{}

		if p.call("presexch.Unmarshal", func() error { return json.Unmarshal(b, pd) }) {
			wal := wallet(r)
			p.call("presexch.CreateVP/wide", func() error { _, err := pd.CreateVP(wal, w.Loader); return err })
			p.call("presexch.MatchSubmissionRequirement/wide", func() error { _, err := pd.MatchSubmissionRequirement(wal, w.Loader); return err })
		}
	case 1: // nested choices
		n := 4 + r.Intn(10)
		l, nested := L{}, L{}

		for i := 0; i < n; i++ {
			g := fmt.Sprintf("g%d", i)
			sub := L{}

			for j := 0; j < 4; j++ {
				l = append(l, M{"id": fmt.Sprintf("d%d-%d", i, j), "group": L{g}, "constraints": M{"fields": L{M{"path": L{"$.id"}}}}})
			}

			sub = append(sub, M{"rule": "pick", "count": 2, "from": g})
			nested = append(nested, M{"rule": "pick", "count": 1, "from_nested": sub})
		}

		def := M{"id": "def", "input_descriptors": l, "submission_requirements": L{M{"rule": "pick", "count": n / 2, "from_nested": nested}}}
		b := vh.J(def)
		p := newProbe(c, r, "wide-nested", fmt.Sprint(n), b)
		pd := &presexch.PresentationDefinition{}

		if p.call("presexch.Unmarshal", func() error { return json.Unmarshal(b, pd) }) {
			wal := wallet(r)
			p.call("presexch.CreateVP/wide", func() error { _, err := pd.CreateVP(wal, w.Loader); return err })
		}
	case 2: // SD-JWT: disclosures nested in chains and referenced many times
		n := 10 + r.Intn(40)

		var ds []string

		var prev L

		for i := 0; i < n; i++ {
			e := vh.EncDisc(fmt.Sprintf("salt%d", i), fmt.Sprintf("n%d", i), M{"_sd": append(append(L{}, prev...), prev...)})
			ds = append(ds, e)
			prev = append(prev, vh.SDDigest(e, 5))

			if len(prev) > 6 {
				prev = prev[1:]
			}
		}

		k := someKey(r)
		s := comb(append(append([]string{vh.JWS(header(k), vh.J(M{"iss": issuer().DID, "_sd_alg": "sha-256", "_sd": prev}), k)}, ds...), "")...)
		p := newProbe(c, r, "wide-sd", fmt.Sprint(n), s)
		p.call("verifier.Parse/wide", func() error { return verifierParse(r, s) })
		p.call("holder.Parse/wide", func() error { return holderParse(r, s) })
	case 3: // long lists and strings
		d := vh.Cred(r, vh.CredOpts{V: 1 + r.Intn(2), Issuer: issuer().DID, LDSafe: true, OneSubject: true, NeedID: true})
		x := L{}

		for i := 0; i < 1500; i++ {
			x = append(x, vh.Pick[interface{}](r, i, "s", M{"id": fmt.Sprintf("urn:x:%d", i%7)}, M{"a": L{}}))
		}

		d[vh.Pick(r, "credentialSubject", "type", "@context", "evidence", "proof", "credentialStatus", "extra")] = x
		b := vh.J(d)
		newProbe(c, r, "wide-list", "", b).credential(b)
	default: // token with very many parts
		s := strings.Repeat(vh.Pick(r, ".", "~", "a.", "~a", "eyJ.", "{"), 20000)
		newProbe(c, r, "wide-parts", "", s).anything([]byte(s))
	}
}

// poison: documents whose blank nodes cannot be told apart locally. The cost of checking a proof over
// one may not multiply with every node added.
func poison(c *vh.Check, _ *rand.Rand) {
	var cost []float64

	for n := 3; n <= 6; n++ {
		d := vh.CloneM(ldDocs[0])
		nodes := L{}

		for i := 0; i < n; i++ {
			to := L{}

			for j := 0; j < n; j++ {
				if i != j {
					to = append(to, M{"id": fmt.Sprintf("_:n%d", j)})
				}
			}

			nodes = append(nodes, M{"id": fmt.Sprintf("_:n%d", i), "knows": to})
		}

		d["credentialSubject"] = M{"id": "did:x", "knows": nodes}
		d["@context"] = append(append(L{}, vh.AsList(d["@context"])...), M{"knows": "https://example.org/knows"})
		b := vh.J(d)
		a0 := allocs()

		newProbe(c, rand.New(rand.NewSource(1)), "poison", fmt.Sprint(n), b).call("ParseCredential/poison", func() error {
			_, err := verifiable.ParseCredential(b, verifiable.WithProofChecker(w.Checker), verifiable.WithJSONLDDocumentLoader(w.Loader), verifiable.WithDisabledRelatedResourceCheck())
			return err
		})

		cost = append(cost, float64(allocs()-a0))
	}

	k := len(cost) - 1
	growth := (cost[k] - cost[0]) / (cost[k-1] - cost[0])
	c.Count("poison graphs", int64(len(cost)))
	c.Expect(growth < 4, "blowup/json-gold.Normalize", fmt.Sprintf("checking the proof of a credential over 6 mutually linked blank nodes allocates %.1f times as much as over 5 (bytes for 3 to 6 nodes: %.0f)", growth, cost), M{"bytes": cost})
}

// deepStrict: the cost of strict validation over nested objects, by depth.
func deepStrict(c *vh.Check, _ *rand.Rand) {
	var cost []float64

	for _, n := range []int{300, 600, 1200} {
		var v interface{} // a null does not survive compaction: the comparison goes all the way down
		for i := 0; i < n; i++ {
			v = M{"extra": L{v}}
		}

		d := vh.Cred(rand.New(rand.NewSource(1)), vh.CredOpts{V: 2, Issuer: issuer().DID, LDSafe: true, OneSubject: true, NeedID: true})
		d["extra"] = v
		b := vh.J(d)
		p := newProbe(c, rand.New(rand.NewSource(1)), "deep-strict", fmt.Sprint(n), b)

		var vc *verifiable.Credential

		p.call("ParseCredential/deep", func() (err error) {
			vc, err = verifiable.ParseCredential(b, w.Lax()...)
			return err
		})

		if vc == nil {
			return
		}

		a0 := allocs()
		p.call("vc.ValidateCredential/deep", func() error {
			return vc.ValidateCredential(verifiable.WithJSONLDDocumentLoader(w.Loader), verifiable.WithStrictValidation())
		})

		cost = append(cost, float64(allocs()-a0)/float64(len(b)))
	}

	growth := (cost[2] - cost[1]) / (cost[1] - cost[0])
	c.Count("nesting depths", int64(len(cost)))
	c.Expect(growth < 1.5, "blowup/did-go.compactMap", fmt.Sprintf("strict validation of a credential with objects nested 300, 600 and 1200 deep allocates %.0f bytes per byte of input", cost), M{"bytes": cost})
}
