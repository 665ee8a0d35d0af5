package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"net/http"

	"github.com/trustbloc/did-go/doc/did"

	"github.com/trustbloc/vc-go/dataintegrity/models"
	"github.com/trustbloc/vc-go/didconfig/verifier"
	"github.com/trustbloc/vc-go/presexch"
	"github.com/trustbloc/vc-go/sdjwt/common"
	"github.com/trustbloc/vc-go/status/resolver"
	"github.com/trustbloc/vc-go/verifharness/vh"
	"github.com/trustbloc/vc-go/verifiable"
)

// The sweep puts every shape in every place of a document: alone in full documents, and in all pairs in small ones.

type absent struct{}

// shapes for one place.
func shapes(all bool) []interface{} {
	out := []interface{}{absent{}, nil, L{}, M{}, "", L{nil}, L{M{}}, 1}
	if all {
		out = append(out, true, "x", L{L{}}, L{""}, M{"": nil}, M{"id": nil}, M{"id": 5, "type": 5}, -1.5, L{1, "a"}, "did:", "https://", "#", "data:,", "~", "..")
	}

	return out
}

// places are the paths of a document down to a depth.
func places(d interface{}, depth int) []vh.Path {
	var out []vh.Path

	for _, p := range vh.Nodes(d) {
		if len(p) > 0 && len(p) <= depth {
			out = append(out, p)
		}
	}

	return out
}

// at is what stands in a place, nil if there is no such place (any more).
func at(d M, p vh.Path) (v interface{}) {
	defer func() { _ = recover() }()

	return vh.Get(d, p)
}

// reshaped changes a copy.
func reshaped(d M, p vh.Path, s interface{}) (M, bool) {
	d = vh.CloneM(d)
	if at(d, p) == nil {
		if _, ok := s.(absent); ok || s == nil {
			return nil, false
		}
	}

	if _, ok := s.(absent); ok {
		return d, vh.Del(d, p)
	}

	ok := true
	if panicked, _, _ := vh.Guard(func() { vh.Set(d, p, vh.Clone(s)) }); panicked {
		ok = false
	}

	return d, ok
}

type form struct {
	name string
	mk   func(r *rand.Rand, small bool) M
	run  func(p *probe, d M)
}

func base(v int, small bool, r *rand.Rand) M {
	if !small {
		return doc(r, v)
	}

	ctx, date := vh.CtxV1, "issuanceDate"
	if v == 2 {
		ctx, date = vh.CtxV2, "validFrom"
	}

	return M{"@context": L{ctx}, "id": "urn:c", "type": L{"VerifiableCredential"}, "issuer": M{"id": issuer().DID, "name": "n"}, date: "2020-01-01T00:00:00Z", "credentialSubject": L{M{"id": "did:verif:holder", "a": "b"}},
		"credentialStatus": M{"id": "urn:s", "type": "T"}, "credentialSchema": L{M{"id": "https://s.verif.example/s.json", "type": "T"}}, "relatedResource": L{M{"id": "https://r.verif.example", "digestSRI": "sha256-x"}}}
}

// checked parses with everything checked, and with as little as possible, and then uses what came of it.
func checked(p *probe, b []byte) {
	on := []verifiable.CredentialOpt{verifiable.WithProofChecker(w.Checker), verifiable.WithDataIntegrityVerifier(div), verifiable.WithJSONLDDocumentLoader(w.Loader),
		verifiable.WithCredentialSchemaLoader(verifiable.NewCredentialSchemaLoaderBuilder().SetSchemaDownloadClient(&http.Client{Transport: web}).Build())}

	var vc *verifiable.Credential

	if !p.call("ParseCredential/sweep", func() (err error) { vc, err = verifiable.ParseCredential(b, on...); return err }) {
		if !p.call("ParseCredential/sweep-lax", func() (err error) { vc, err = verifiable.ParseCredential(b, w.Lax()...); return err }) {
			return
		}
	}

	on = append(on, verifiable.WithDisabledRelatedResourceCheck())

	p.call("vc.CheckProof", func() error { return vc.CheckProof(on...) })
	p.call("vc.Contents", func() error { _, err := json.Marshal(vc.Contents()); return err })

	switch p.r.Intn(6) {
	case 0:
		p.call("vc.ValidateCredential", func() error { return vc.ValidateCredential(on...) })
	case 1:
		p.operate(vc)
	case 2:
		p.call("status.VerifyStatus", func() error { return statusClient().VerifyStatus(vc) })
	case 3:
		p.call("vc.MarshalJSON", func() error { _, err := vc.MarshalJSON(); return err })
	case 4:
		p.call("vc.CreateUnsecuredJWTVC", func() error { _, err := vc.CreateUnsecuredJWTVC(p.r.Intn(2) == 0); return err })
	}
}

func vpChecked(p *probe, b []byte) {
	for i, o := range [][]verifiable.PresentationOpt{
		{verifiable.WithPresProofChecker(w.Checker), verifiable.WithPresDataIntegrityVerifier(div), verifiable.WithPresJSONLDDocumentLoader(w.Loader), verifiable.WithPresHolderCheck(true), verifiable.WithPresRelatedResourceCheck(false)},
		w.LaxVP(),
	} {
		var vp *verifiable.Presentation

		if p.call(fmt.Sprintf("ParsePresentation/sweep-%d", i), func() (err error) { vp, err = verifiable.ParsePresentation(b, o...); return err }) {
			p.call("vp.MarshalJSON", func() error { _, err := vp.MarshalJSON(); return err })
			p.call("vp.MarshalledCredentials", func() error { _, err := vp.MarshalledCredentials(); return err })

			if p.r.Intn(4) == 0 {
				p.call("vp.Match", func() error { return match(p.r, fixedPD(), vp) })
			}

			if p.r.Intn(4) == 0 {
				p.call("vp.JWTClaims", func() error { _, err := vp.JWTClaims([]string{"a"}, true); return err })
			}
		}
	}
}

func forms() []form {
	k := issuer().Keys["EdDSA"]
	proofDoc := func(d M) func(*rand.Rand, bool) M {
		return func(_ *rand.Rand, small bool) M {
			if !small {
				return vh.CloneM(d)
			}

			return M{"@context": d["@context"], "type": d["type"], "issuer": d["issuer"], "proof": vh.Clone(d["proof"]), "credentialSubject": M{"id": "did:verif:holder"}}
		}
	}
	asIs := func(p *probe, d M) { checked(p, vh.J(d)) }
	jws := func(d M) string { return token(rand.New(rand.NewSource(1)), vh.J(header(k)), vh.J(d), k) }

	didDoc := func(di bool) M {
		src := M{"@context": L{"https://www.w3.org/ns/did/v1"}, "id": issuer().DID, "verificationMethod": L{M{"id": issuer().DID + "#k", "type": "Ed25519VerificationKey2018", "controller": issuer().DID, "publicKeyBase58": "GyYtYWU1vjwd5PFJM4VSX5aUiSV3TyZMuLBJBTQvfdF8"}},
			"authentication": L{issuer().DID + "#k"}, "assertionMethod": L{issuer().DID + "#k"}}

		if di {
			src["proof"] = vh.Clone(diDocs[0]["proof"])
		} else {
			src["proof"] = vh.Clone(ldDocs[0]["proof"])
		}

		return src
	}
	runDID := func(p *probe, d M) {
		var dd *did.Doc

		// parsing is the DID library's job
		ok := false
		_, _, _ = vh.Guard(func() {
			x, err := did.ParseDocument(vh.J(d))
			dd, ok = x, err == nil
		})

		if !ok {
			return
		}

		p.call("VerifyDIDProof", func() error {
			return verifiable.VerifyDIDProof(dd, verifiable.WithDIDProofChecker(w.Checker), verifiable.WithDIDJSONLDDocumentLoader(w.Loader), verifiable.WithDIDDataIntegrityVerifier(div))
		})
	}

	fs := []form{
		{"vc1", func(r *rand.Rand, s bool) M { return base(1, s, r) }, asIs},
		{"vc2", func(r *rand.Rand, s bool) M { return base(2, s, r) }, asIs},
		{"ld", proofDoc(ldDocs[0]), asIs},
		{"ld-value", proofDoc(ldDocs[4]), asIs},
		{"di", proofDoc(diDocs[0]), func(p *probe, d M) {
			b := vh.J(d)
			checked(p, b)
			p.call("di.VerifyProof", func() error {
				return div.VerifyProof(b, &models.ProofOptions{Purpose: "assertionMethod", ProofType: models.DataIntegrityProof})
			})
		}},
		{"jwt", func(r *rand.Rand, s bool) M {
			d := base(1, s, r)
			if s {
				d = vh.Without(d, "relatedResource", "credentialSchema", "credentialStatus")
			}

			return M{"iss": issuer().DID, "sub": "did:verif:holder", "jti": "urn:c", "nbf": 1600000000, "iat": 1600000000, "exp": 4000000000, "vc": d}
		}, func(p *probe, d M) {
			checked(p, []byte(jws(d)))
			p.call("Parse/unsecured", func() error {
				_, err := verifiable.ParseCredential([]byte(vh.B64(vh.J(M{"alg": "none"}))+"."+vh.B64(vh.J(d))+"."), w.Lax()...)
				return err
			})
		}},
		{"cwt", func(r *rand.Rand, s bool) M {
			d := base(1, s, r)
			if s {
				d = vh.Without(d, "relatedResource", "credentialSchema", "credentialStatus")
			}

			return M{"iss": issuer().DID, "vc": d}
		}, func(p *probe, d M) { checked(p, vh.MakeCose(vh.CoseHdr(k), safeCBOR(vh.Norm(d)), k).Bytes()) }},
		{"sdjwt", func(r *rand.Rand, s bool) M {
			d := vh.Without(base(1, s, r), "relatedResource", "credentialSchema", "credentialStatus")
			dd := sweepDisclosures()
			d["_sd_alg"] = "sha-256"
			d["_sd"] = L{vh.SDDigest(dd[0], 5)}
			d["credentialSubject"] = L{M{"id": "did:verif:holder", "_sd": L{vh.SDDigest(dd[1], 5)}, "l": L{M{"...": vh.SDDigest(dd[2], 5)}}, "_sd_alg": "sha-256"}}

			return d
		}, func(p *probe, d M) {
			t := comb(append(append([]string{jws(d)}, sweepDisclosures()...), "")...)
			checked(p, []byte(t))

			if p.r.Intn(3) == 0 { // without any disclosure
				checked(p, []byte(jws(d)+"~"))
			}

			if p.r.Intn(3) == 0 {
				p.call("verifier.Parse/sweep", func() error { return verifierParse(p.r, t) })
				p.call("holder.Parse/sweep", func() error { return holderParse(p.r, t) })
			}
		}},
		{"sdjwt-vc", func(r *rand.Rand, s bool) M {
			dd := sweepDisclosures()
			return M{"iss": issuer().DID, "_sd_alg": "sha-256", "cnf": M{"jwk": vh.Norm(w.Ents["holder"].Keys["EdDSA"].JWK)}, "vc": M{"@context": L{vh.CtxV1}, "type": L{"VerifiableCredential"}, "issuer": issuer().DID, "issuanceDate": "2020-01-01T00:00:00Z",
				"_sd_alg": "sha-256", "credentialSubject": M{"id": "did:verif:holder", "_sd": L{vh.SDDigest(dd[1], 5)}}}}
		}, func(p *probe, d M) {
			t := comb(append([]string{jws(d)}, sweepDisclosures()[1], "")...)
			checked(p, []byte(t))
			checked(p, []byte(jws(d)+"~"))
			p.call("verifier.Parse/sweep", func() error { return verifierParse(p.r, t) })
			p.call("common.claims", func() error { _, err := common.GetCNF(d); return err })
		}},
		{"vp", func(r *rand.Rand, s bool) M {
			if s {
				return M{"@context": L{vh.CtxV1}, "id": "urn:p", "type": L{"VerifiablePresentation"}, "holder": M{"id": issuer().DID}, "verifiableCredential": L{validTokens[0], M{"@context": L{vh.CtxV1}, "issuer": "x"}}, "proof": vh.Clone(ldDocs[0]["proof"])}
			}

			d := w.FullVP(r, 1+r.Intn(2), false)
			d["proof"] = vh.Clone(ldDocs[r.Intn(len(ldDocs))]["proof"])

			return d
		}, func(p *probe, d M) { vpChecked(p, vh.J(d)) }},
		{"vp-jwt", func(r *rand.Rand, s bool) M {
			if s {
				return M{"iss": issuer().DID, "jti": "urn:p", "aud": "a", "vp": M{"@context": L{vh.CtxV1}, "type": L{"VerifiablePresentation"}, "holder": issuer().DID, "verifiableCredential": L{validTokens[0]}}}
			}

			return M{"iss": issuer().DID, "jti": "urn:p", "aud": L{"a"}, "iat": 1600000000, "nbf": 1600000000, "exp": 4000000000, "vp": w.FullVP(r, 1+r.Intn(2), true)}
		}, func(p *probe, d M) { vpChecked(p, []byte(jws(d))) }},
		{"vp-cwt", func(r *rand.Rand, s bool) M {
			return M{"iss": issuer().DID, "vp": M{"@context": L{vh.CtxV1}, "type": L{"VerifiablePresentation"}, "holder": issuer().DID, "verifiableCredential": L{validTokens[0]}}}
		}, func(p *probe, d M) {
			vpChecked(p, vh.MakeCose(vh.CoseHdr(k), safeCBOR(vh.Norm(d)), k).Bytes())
		}},
		{"envelope", func(r *rand.Rand, s bool) M { return envelope(r, validTokens[0]) }, func(p *probe, d M) {
			checked(p, vh.J(d))
			vpChecked(p, vh.J(M{"@context": L{vh.CtxV2}, "type": L{"VerifiablePresentation"}, "verifiableCredential": L{d}}))
		}},
		{"did-ld", func(*rand.Rand, bool) M { return didDoc(false) }, runDID},
		{"did-di", func(*rand.Rand, bool) M { return didDoc(true) }, runDID},
		{"status-list", func(r *rand.Rand, s bool) M { return list(r, 1+r.Intn(2)) }, func(p *probe, d M) {
			web.body = func(string) []byte { return vh.J(d) }

			for v := 1; v < 3; v++ {
				vc := w.ParseVC(M{"@context": L{vh.CtxV1}, "type": L{"VerifiableCredential"}, "issuer": issuer().DID, "issuanceDate": "2020-01-01T00:00:00Z", "credentialSubject": M{"id": "urn:s"}, "credentialStatus": statusEntry(p.r, v)})
				p.call("status.VerifyStatus", func() error { return statusClient().VerifyStatus(vc) })
			}

			p.call("resolver.Resolve", func() error {
				_, err := resolver.NewResolver(&http.Client{Transport: web}, allDIDs{}, "").Resolve(listURL)
				return err
			})
		}},
		{"status-entry", func(r *rand.Rand, s bool) M { return M{"s": L{statusEntry(r, 1+r.Intn(2))}} }, func(p *probe, d M) {
			body := vh.J(list(p.r, 1+p.r.Intn(2)))
			web.body = func(string) []byte { return body }
			vc, err := verifiable.ParseCredential(vh.J(M{"@context": L{vh.CtxV1}, "type": L{"VerifiableCredential"}, "issuer": issuer().DID, "issuanceDate": "2020-01-01T00:00:00Z", "credentialSubject": M{"id": "urn:s"}, "credentialStatus": d["s"]}), w.Lax()...)

			if err == nil {
				p.call("status.VerifyStatus", func() error { return statusClient().VerifyStatus(vc) })
			}
		}},
		{"didconfig", func(*rand.Rand, bool) M {
			d := M{"@context": L{vh.CtxV1, vh.CtxDIDConf}, "issuer": issuer().DID, "issuanceDate": "2020-12-04T14:08:28-06:00", "expirationDate": "2035-12-04T14:08:28-06:00", "type": L{"VerifiableCredential", "DomainLinkageCredential"},
				"credentialSubject": M{"id": issuer().DID, "origin": "https://site.example"}}

			return M{"iss": issuer().DID, "sub": issuer().DID, "vc": d, "exp": 4000000000, "nbf": 1600000000}
		}, func(p *probe, d M) {
			run := func(x interface{}) {
				p.call("didconfig.VerifyDIDAndDomain", func() error {
					return verifier.VerifyDIDAndDomain(vh.J(M{"@context": vh.CtxDIDConf, "linked_dids": L{x}}), issuer().DID, "https://site.example", verifier.WithJSONLDDocumentLoader(w.Loader), verifier.WithVDRegistry(w))
				})
			}

			run(jws(d))

			if m, ok := d["vc"].(M); ok {
				m = vh.CloneM(m)
				m["proof"] = vh.Clone(ldDocs[0]["proof"])
				run(m)
			}
		}},
		{"definition", func(r *rand.Rand, s bool) M { return definition(r.Intn(2) == 0) }, func(p *probe, d M) {
			pd := &presexch.PresentationDefinition{}
			if json.Unmarshal(vh.J(d), pd) != nil {
				return
			}

			p.call("pd.ValidateSchema", func() error { return pd.ValidateSchema() })
			p.call("presexch.CreateVP/sweep", func() error {
				_, err := pd.CreateVP(sweepWallet, w.Loader, presexch.WithSDCredentialOptions(verifiable.WithDisabledProofCheck(), verifiable.WithJSONLDDocumentLoader(w.Loader)), presexch.WithSelectiveDisclosureApply())
				return err
			})
			p.call("presexch.MatchSubmissionRequirement/sweep", func() error {
				_, err := pd.MatchSubmissionRequirement(sweepWallet, w.Loader, presexch.WithSDCredentialOptions(verifiable.WithDisabledProofCheck(), verifiable.WithJSONLDDocumentLoader(w.Loader)))
				return err
			})
		}},
	}

	return fs
}

var sweepWallet []*verifiable.Credential

func sweepDisclosures() []string {
	return []string{vh.EncDisc("salt1", "extra", "x"), vh.EncDisc("salt2", "given", M{"a": "b"}), vh.EncDisc("salt3", "element")}
}

func sweeps(c *vh.Check) {
	r0 := rand.New(rand.NewSource(11))
	sweepWallet = []*verifiable.Credential{w.ParseVC(validTokens[0]), w.ParseVC(sdTokens[1]), w.ParseVC(ldDocs[0])}

	for _, f := range forms() {
		f := f

		// every shape in every place of full documents
		c.Cases("sweep-"+f.name, 8*c.N(2, 40), func(r *rand.Rand, i int) {
			web.code, web.body = 200, nil
			d := f.mk(c.Rng("sweep-doc-"+f.name, i/8), false)

			for pi, p := range places(d, 4) {
				if pi%8 != i%8 {
					continue
				}

				for si, s := range shapes(true) {
					if len(p) > 2 && r.Intn(4) != 0 {
						continue
					}

					if x, ok := reshaped(d, p, s); ok {
						c.Count("sweep.single", 1)
						f.run(newProbe(c, r, "sweep "+f.name, fmt.Sprintf("%v shape %d", p, si), vh.J(x)), x)
					}
				}
			}
		})

		// every pair of shapes in every pair of places of a small document
		d := f.mk(r0, true)
		ps := places(d, 3)
		sh := shapes(false)
		step := c.N(8, 1)

		c.Cases("pairs-"+f.name, len(ps)*len(sh), func(r *rand.Rand, i int) {
			web.code, web.body = 200, nil

			x, ok := reshaped(d, ps[i/len(sh)], sh[i%len(sh)])
			if !ok {
				return
			}

			for pi, q := range ps {
				if pi <= i/len(sh) || at(x, q) == nil {
					continue
				}

				for si, s := range sh {
					if (i%len(sh) > 2 || si > 2) && (pi+i+si)%step != 0 { // emptied pairs always
						continue
					}

					if y, ok := reshaped(x, q, s); ok {
						c.Count("sweep.pair", 1)
						f.run(newProbe(c, r, "pairs "+f.name, fmt.Sprintf("%v shape %d, %v shape %d", ps[i/len(sh)], i%len(sh), q, si), vh.J(y)), y)
					}
				}
			}
		})
	}
}
