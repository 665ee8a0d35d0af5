package main

import (
	"crypto"
	"encoding/json"
	"fmt"
	"math/rand"
	"net/http"
	"strings"
	"time"

	"github.com/trustbloc/did-go/doc/did"
	"github.com/trustbloc/did-go/doc/ld/processor"
	utiltime "github.com/trustbloc/did-go/doc/util/time"
	vdrapi "github.com/trustbloc/did-go/vdr/api"
	"github.com/trustbloc/kms-go/doc/jose"

	"github.com/trustbloc/vc-go/cwt"
	dcverifier "github.com/trustbloc/vc-go/didconfig/verifier"
	"github.com/trustbloc/vc-go/jwt"
	"github.com/trustbloc/vc-go/presexch"
	"github.com/trustbloc/vc-go/sdjwt/common"
	"github.com/trustbloc/vc-go/sdjwt/holder"
	"github.com/trustbloc/vc-go/sdjwt/verifier"
	"github.com/trustbloc/vc-go/status"
	"github.com/trustbloc/vc-go/status/resolver"
	"github.com/trustbloc/vc-go/status/validator"
	"github.com/trustbloc/vc-go/verifharness/vh"
	"github.com/trustbloc/vc-go/verifiable"
)

// copts is a random set of credential options.
func copts(r *rand.Rand) ([]verifiable.CredentialOpt, string) {
	o := []verifiable.CredentialOpt{verifiable.WithJSONLDDocumentLoader(w.Loader)}

	var n []string

	add := func(name string, x ...verifiable.CredentialOpt) { o, n = append(o, x...), append(n, name) }

	switch r.Intn(3) {
	case 0:
		add("noproof", verifiable.WithDisabledProofCheck())
	default:
		add("proof", verifiable.WithProofChecker(w.Checker), verifiable.WithDataIntegrityVerifier(div))
	}

	switch r.Intn(6) {
	case 0, 1:
		add("novalid", verifiable.WithCredDisableValidation())
	case 2:
		add("strict", verifiable.WithStrictValidation())
	case 3:
		add("base", verifiable.WithBaseContextValidation(vh.Pick(r, vh.CtxV1, vh.CtxV2)))
	case 4:
		add("ext", verifiable.WithBaseContextExtendedValidation(vh.Pick(r, vh.CtxV1, vh.CtxV2), []string{vh.CtxVerif, vh.CtxEx1}, []string{"VerifiableCredential", "AlphaCredential"}))
	}

	if r.Intn(2) == 0 {
		add("norelated", verifiable.WithDisabledRelatedResourceCheck())
	}

	if r.Intn(5) == 0 {
		add("types", verifiable.WithEnabledJSONLDTypesCheck())
	}

	if r.Intn(5) == 0 {
		add("rdf", verifiable.WithJSONLDOnlyValidRDF())
	}

	if r.Intn(5) == 0 {
		add("diff", verifiable.WithJSONLDIncludeDetailedStructureDiffOnError())
	}

	if r.Intn(5) == 0 {
		add("di", verifiable.WithExpectedDataIntegrityFields("assertionMethod", "https://d", "c"))
	}

	if r.Intn(3) == 0 {
		add("schema", verifiable.WithCredentialSchemaLoader(verifiable.NewCredentialSchemaLoaderBuilder().SetSchemaDownloadClient(&http.Client{Transport: web}).
			SetCache(verifiable.NewExpirableSchemaCache(1<<20, time.Hour)).Build()))
	} else if r.Intn(2) == 0 {
		add("noschema", verifiable.WithNoCustomSchemaCheck())
	}

	return o, strings.Join(n, "+")
}

func popts(r *rand.Rand) []verifiable.PresentationOpt {
	o := []verifiable.PresentationOpt{verifiable.WithPresJSONLDDocumentLoader(w.Loader)}

	if r.Intn(3) == 0 {
		o = append(o, verifiable.WithPresDisabledProofCheck())
	} else {
		o = append(o, verifiable.WithPresProofChecker(w.Checker), verifiable.WithPresDataIntegrityVerifier(div))
	}

	if r.Intn(3) == 0 {
		o = append(o, verifiable.WithPresStrictValidation())
	}

	if r.Intn(3) == 0 {
		o = append(o, verifiable.WithDisabledJSONLDChecks())
	}

	if r.Intn(2) == 0 {
		o = append(o, verifiable.WithPresHolderCheck(true))
	}

	if r.Intn(3) == 0 {
		o = append(o, verifiable.WithPresRelatedResourceCheck(r.Intn(2) == 0))
	}

	if r.Intn(3) == 0 {
		o = append(o, verifiable.WithPresExpectedDataIntegrityFields("authentication", "d", "c"))
	}

	return o
}

// credential gives the input to the credential entry points, and what parses to the operations.
func (p *probe) credential(b []byte) {
	o, name := copts(p.r)

	var vc *verifiable.Credential

	if p.call("ParseCredential", func() (err error) { vc, err = verifiable.ParseCredential(b, o...); return err }) {
		p.how += "/" + name
		p.operate(vc)

		return
	}

	if p.r.Intn(3) == 0 { // accept as much as possible
		lax := []verifiable.CredentialOpt{verifiable.WithDisabledProofCheck(), verifiable.WithCredDisableValidation(), verifiable.WithJSONLDDocumentLoader(w.Loader), verifiable.WithDisabledRelatedResourceCheck()}
		if p.call("ParseCredential/lax", func() (err error) { vc, err = verifiable.ParseCredential(b, lax...); return err }) {
			p.operate(vc)
		}
	}

	if p.r.Intn(4) == 0 {
		var m M
		if json.Unmarshal(b, &m) == nil && m != nil {
			if p.call("ParseCredentialJSON", func() (err error) { vc, err = verifiable.ParseCredentialJSON(m, o...); return err }) {
				p.operate(vc)
			}
		}
	}
}

func (p *probe) presentation(b []byte) {
	var vp *verifiable.Presentation

	o := popts(p.r)
	if !p.call("ParsePresentation", func() (err error) { vp, err = verifiable.ParsePresentation(b, o...); return err }) {
		if p.r.Intn(2) == 0 {
			return
		}

		o = w.LaxVP()
		if !p.call("ParsePresentation/lax", func() (err error) { vp, err = verifiable.ParsePresentation(b, o...); return err }) {
			return
		}
	}

	k := someKey(p.r)

	p.some(3, []op{
		{"vp.MarshalJSON", func() error { _, err := vp.MarshalJSON(); return err }},
		{"vp.MarshalCBOR", func() error { _, err := vp.MarshalCBOR(); return err }},
		{"vp.MarshalledCredentials", func() error { _, err := vp.MarshalledCredentials(); return err }},
		{"vp.Clone", func() error { _, err := vp.Clone().MarshalJSON(); return err }},
		{"vp.JWTClaims", func() error { _, err := vp.JWTClaims([]string{"a"}, p.r.Intn(2) == 0); return err }},
		{"vp.CWTClaims", func() error { _, err := vp.CWTClaims([]string{"a"}, p.r.Intn(2) == 0); return err }},
		{"vp.CreateJWTVP", func() error {
			_, err := vp.CreateJWTVP([]string{"a"}, k.JWSAlg(), w.Creator(issuer()), k.ID, p.r.Intn(2) == 0)
			return err
		}},
		{"vp.AddLinkedDataProof", func() error {
			return vp.AddLinkedDataProof(w.LDContext(p.r, issuer(), vh.LDSuites[p.r.Intn(len(vh.LDSuites))]), processor.WithDocumentLoader(w.Loader))
		}},
		{"vp.Match", func() error { return match(p.r, fixedPD(), vp) }},
	})

	for i, vc := range vp.Credentials() {
		if i < 2 {
			p.operate(vc)
		}
	}
}

type op struct {
	name string
	f    func() error
}

func (p *probe) some(n int, ops []op) {
	for i := 0; i < n; i++ {
		o := ops[p.r.Intn(len(ops))]

		if strings.HasPrefix(p.kind, "deep") && strings.HasSuffix(o.name, "Proof") { // canonicalisation: see poison
			continue
		}

		p.call(o.name, o.f)
	}
}

// operate runs operations on a credential that was parsed from hostile input.
func (p *probe) operate(vc *verifiable.Credential) { //nolint:funlen
	r := p.r
	k := someKey(r)
	o, _ := copts(r)
	disclosure := func() []string {
		return []string{vh.Pick(r, members...), vh.Pick(r, "credentialSubject", "id", "a", "p0", "name")}
	}
	binding := &holder.BindingInfo{Payload: holder.BindingPayload{Nonce: "n", Audience: "a"}, Signer: vh.JoseSigner{K: k}, Headers: jose.Headers{"alg": k.Alg}}
	v := vh.Pick(r, common.SDJWTVersionDefault, common.SDJWTVersionV2, common.SDJWTVersionV5)
	t := utiltime.NewTime(time.Unix(1600000000, 0))

	p.some(4, []op{
		{"vc.MarshalJSON", func() error { _, err := vc.MarshalJSON(); return err }},
		{"vc.MarshalAsJSONLD", func() error { _, err := vc.MarshalAsJSONLD(); return err }},
		{"vc.MarshalAsCWTLD", func() error { _, err := vc.MarshalAsCWTLD(); return err }},
		{"vc.ToJWTString", func() error { _, err := vc.ToJWTString(); return err }},
		{"vc.ToUniversalForm", func() error { _, err := vc.ToUniversalForm(); return err }},
		{"vc.Contents", func() error { _, err := json.Marshal(vc.Contents()); return err }},
		{"vc.raw", func() error {
			_, _, _, _ = vc.ToRawJSON(), vc.ToRawClaimsMap(), vc.Proofs(), vc.JWTHeaders()
			return nil
		}},
		{"vc.ValidateCredential", func() error { return vc.ValidateCredential(o...) }},
		{"vc.CheckProof", func() error { return vc.CheckProof(o...) }},
		{"vc.JWTClaims", func() error { _, err := vc.JWTClaims(r.Intn(2) == 0); return err }},
		{"vc.CWTClaims", func() error { _, err := vc.CWTClaims(); return err }},
		{"vc.CreateUnsecuredJWTVC", func() error { _, err := vc.CreateUnsecuredJWTVC(r.Intn(2) == 0); return err }},
		{"vc.CreateSignedJWTVC", func() error {
			_, err := vc.CreateSignedJWTVC(r.Intn(2) == 0, k.JWSAlg(), w.Creator(issuer()), k.ID)
			return err
		}},
		{"vc.CreateSignedCOSEVC", func() error { _, err := vc.CreateSignedCOSEVC(k.COSEAlg(), w.Creator(issuer()), k.ID); return err }},
		{"vc.MakeSDJWT", func() error {
			_, err := vc.MakeSDJWT(vh.JoseSigner{K: k}, k.ID, verifiable.MakeSDJWTWithVersion(v), verifiable.MakeSDJWTWithHash(vh.Pick(r, crypto.SHA256, crypto.SHA512, crypto.MD5)),
				verifiable.MakeSDJWTWithRecursiveClaimsObjects(disclosure()), verifiable.MakeSDJWTWithAlwaysIncludeObjects(disclosure()), verifiable.MakeSDJWTWithNonSelectivelyDisclosableClaims(disclosure()))

			return err
		}},
		{"vc.MarshalWithDisclosure/all", func() error {
			_, err := vc.MarshalWithDisclosure(verifiable.DiscloseAll(), verifiable.MarshalWithSDJWTVersion(v), verifiable.DisclosureSigner(vh.JoseSigner{K: k}, k.ID))
			return err
		}},
		{"vc.MarshalWithDisclosure/some", func() error {
			_, err := vc.MarshalWithDisclosure(verifiable.DiscloseGivenIfAvailable(disclosure()), verifiable.DisclosureHolderBinding(binding))
			return err
		}},
		{"vc.MarshalWithDisclosure/required", func() error {
			_, err := vc.MarshalWithDisclosure(verifiable.DiscloseGivenRequired(disclosure()), verifiable.DisclosureSigner(vh.JoseSigner{K: k}, k.ID))
			return err
		}},
		{"vc.CreateDisplayCredential", func() error { _, err := vc.CreateDisplayCredential(verifiable.DisplayAllDisclosures()); return err }},
		{"vc.CreateDisplayCredential/given", func() error {
			_, err := vc.CreateDisplayCredential(verifiable.DisplayGivenDisclosures(disclosure()))
			return err
		}},
		{"vc.CreateDisplayCredentialMap", func() error { _, err := vc.CreateDisplayCredentialMap(verifiable.DisplayAllDisclosures()); return err }},
		{"vc.AddLinkedDataProof", func() error {
			return vc.WithModifiedID("urn:copy").AddLinkedDataProof(w.LDContext(r, issuer(), vh.LDSuites[r.Intn(len(vh.LDSuites))]), processor.WithDocumentLoader(w.Loader))
		}},
		{"vc.AddDataIntegrityProof", func() error {
			s := vh.DISuites[r.Intn(len(vh.DISuites))]
			return vc.WithModifiedID("urn:copy").AddDataIntegrityProof(&verifiable.DataIntegrityProofContext{SigningKeyID: s.VMID(issuer()), CryptoSuite: s.Suite}, w.DISigner(issuer().Keys[s.Alg]))
		}},
		{"vc.Modified", func() error {
			n := vc.WithModifiedContext([]string{"x"}).WithModifiedExpired(t).WithModifiedIssued(t).WithModifiedIssuer(&verifiable.Issuer{ID: "i"}).WithModifiedStatus(&verifiable.TypedID{ID: "s"}).
				WithModifiedSubject([]verifiable.Subject{{ID: "s"}}).WithModifiedValidFrom(t).WithModifiedValidUntil(t).WithModifiedRefreshService(&verifiable.TypedID{ID: "s"})
			_, err := n.MarshalJSON()

			return err
		}},
		{"vc.SetSDJWTDisclosures", func() error {
			n := vc.WithModifiedID("urn:copy")
			if err := n.SetSDJWTDisclosures(vc.SDJWTDisclosures()); err != nil {
				return err
			}

			_, err := n.MarshalJSON()

			return err
		}},
		{"vc.BBSSelectiveDisclosure", func() error {
			_, err := vc.GenerateBBSSelectiveDisclosure(M{"@context": L{vh.CtxV1, vh.CtxBBS}, "type": "VerifiableCredential", "@explicit": true, "credentialSubject": M{}}, []byte("n"), w.BBSProofCreator(issuer()),
				verifiable.WithProofChecker(w.Checker), verifiable.WithJSONLDDocumentLoader(w.Loader))

			return err
		}},
		{"status.VerifyStatus", func() error { return statusClient().VerifyStatus(vc) }},
		{"presexch.CreateVP", func() error {
			_, err := fixedPD().CreateVP([]*verifiable.Credential{vc}, w.Loader, presexch.WithSDCredentialOptions(verifiable.WithDisabledProofCheck(), verifiable.WithJSONLDDocumentLoader(w.Loader)), presexch.WithSelectiveDisclosureApply(),
				presexch.WithSDBBSProofCreator(w.BBSProofCreator(issuer())), presexch.WithDefaultPresentationFormat(vh.Pick(r, "ldp_vp", "jwt_vp")))

			return err
		}},
		{"NewPresentation", func() error {
			vp, err := verifiable.NewPresentation(verifiable.WithCredentials(vc), verifiable.WithBaseContext(vh.CtxV2))
			if err != nil {
				return err
			}

			_, err = vp.MarshalJSON()

			return err
		}},
		{"related.Validate", func() error {
			return verifiable.NewRelatedResourceValidator(verifiable.WithHTTPClient(&http.Client{Transport: web})).Validate([]*verifiable.Credential{vc})
		}},
	})
}

func statusClient() *status.Client {
	return &status.Client{ValidatorGetter: validator.GetValidator, Resolver: resolver.NewResolver(&http.Client{Transport: web}, allDIDs{}, "t")}
}

// tokenish gives any bytes to the token level entry points.
func (p *probe) tokenish(b []byte) {
	s := string(b)
	r := p.r

	p.some(5, []op{
		{"jwt.IsJWS", func() error { _, _ = jwt.IsJWS(s), jwt.IsJWTUnsecured(s); return nil }},
		{"jwt.Parse", func() error {
			t, _, err := jwt.Parse(s, jwt.WithIgnoreClaimsMapDecoding(r.Intn(2) == 0))
			if err != nil {
				return err
			}

			var m map[string]interface{}

			_ = t.DecodeClaims(&m)
			_ = t.LookupStringHeader("kid")
			_, err = t.Serialize(r.Intn(2) == 0)

			return err
		}},
		{"jwt.Parse/detached", func() error { _, _, err := jwt.Parse(s, jwt.WithJWTDetachedPayload([]byte("{}"))); return err }},
		{"jwt.ParseAndCheckProof", func() error { _, _, err := jwt.ParseAndCheckProof(s, w.Checker, r.Intn(2) == 0); return err }},
		{"jwt.CheckProof", func() error { x := issuer().DID; return jwt.CheckProof(s, w.Checker, &x, nil) }},
		{"cwt.Parse", func() error { _, err := cwt.Parse(b); return err }},
		{"cwt.ParseAndCheckProof", func() error { _, _, err := cwt.ParseAndCheckProof(b, w.Checker, r.Intn(2) == 0); return err }},
		{"JWTVCToJSON", func() error { _, err := verifiable.JWTVCToJSON(b); return err }},
		{"ParseDataURL", func() error { _, _, _, err := verifiable.ParseDataURL(s); return err }},
		{"holder.Parse", func() error { return holderParse(r, s) }},
		{"verifier.Parse", func() error { return verifierParse(r, s) }},
		{"ParseCombinedFormatForIssuance", func() error { _ = common.ParseCombinedFormatForIssuance(s).Serialize(); return nil }},
		{"ParseCombinedFormatForPresentation", func() error { _ = common.ParseCombinedFormatForPresentation(s).Serialize(); return nil }},
		{"JWTClaims.UnmarshalJSON", func() error { var c verifiable.JWTCredClaims; return c.UnmarshalJSON(b) }},
		{"didconfig.Verify", func() error {
			return dcverifier.VerifyDIDAndDomain(b, issuer().DID, "https://site.example", dcverifier.WithJSONLDDocumentLoader(w.Loader), dcverifier.WithVDRegistry(w))
		}},
		{"di.VerifyProof", func() error { return div.VerifyProof(b, diExpect(r)) }},
		{"checker.FindIssuer", func() error { _ = w.Checker.FindIssuer(b); return nil }},
	})
}

func holderParse(r *rand.Rand, s string) error {
	var o []holder.ParseOpt
	if r.Intn(2) == 0 {
		o = append(o, holder.WithSignatureVerifier(w.Checker))
	}

	if r.Intn(3) == 0 {
		o = append(o, holder.WithSDJWTV5Validation(r.Intn(2) == 0))
	}

	if r.Intn(4) == 0 {
		o = append(o, holder.WithExpectedTypHeader("vc+sd-jwt"))
	}

	cs, err := holder.Parse(s, o...)
	if err != nil {
		return err
	}

	var all []string
	for _, c := range cs {
		all = append(all, c.Disclosure)
	}

	_, err = holder.CreatePresentation(s, all)

	return err
}

func verifierParse(r *rand.Rand, s string) error {
	o := []verifier.ParseOpt{verifier.WithIssuerSigningAlgorithms([]string{"EdDSA", "ES256", "none"}), verifier.WithSignatureVerifier(w.Checker)}

	if r.Intn(2) == 0 {
		o = append(o, verifier.WithHolderVerificationRequired(true), verifier.WithExpectedNonceForHolderVerification("n"), verifier.WithExpectedAudienceForHolderVerification("a"),
			verifier.WithHolderSigningAlgorithms([]string{"EdDSA", "none", "ES256"}))
	}

	if r.Intn(4) == 0 {
		o = append(o, verifier.WithExpectedTypHeader("vc+sd-jwt"))
	}

	_, err := verifier.Parse(s, o...)

	return err
}

// anything gives the bytes to one entry point of every kind.
func (p *probe) anything(b []byte) {
	switch p.r.Intn(4) {
	case 0:
		p.credential(b)
	case 1:
		p.presentation(b)
	default:
		p.tokenish(b)
	}
}

func classOf(err error) string { return fmt.Sprintf("%T", err) }

// allDIDs is the world as a registry.
type allDIDs struct{ vdrapi.Registry }

func (allDIDs) Resolve(id string, o ...vdrapi.DIDMethodOption) (*did.DocResolution, error) {
	return w.Resolve(id, o...)
}
