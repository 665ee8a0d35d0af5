package main

import (
	"bytes"
	"compress/gzip"
	"crypto"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net/http"
	"runtime"
	"strings"

	"github.com/hashicorp/golang-lru/v2/expirable"
	"github.com/multiformats/go-multibase"
	"github.com/trustbloc/bbs-signature-go/bbs12381g2pub"
	"github.com/trustbloc/did-go/doc/did"
	"github.com/trustbloc/did-go/doc/ld/processor"
	vdrapi "github.com/trustbloc/did-go/vdr/api"
	"github.com/trustbloc/kms-go/doc/jose"
	"github.com/trustbloc/kms-go/doc/jose/jwk"
	spi "github.com/trustbloc/kms-go/spi/storage"

	utiltime "github.com/trustbloc/did-go/doc/util/time"
	"github.com/trustbloc/vc-go/dataintegrity"
	"github.com/trustbloc/vc-go/dataintegrity/models"
	"github.com/trustbloc/vc-go/dataintegrity/suite/ecdsa2019"
	"github.com/trustbloc/vc-go/dataintegrity/suite/eddsa2022"
	"github.com/trustbloc/vc-go/didconfig/client"
	dcverifier "github.com/trustbloc/vc-go/didconfig/verifier"
	"github.com/trustbloc/vc-go/jwt"
	"github.com/trustbloc/vc-go/legacy/mem"
	"github.com/trustbloc/vc-go/presexch"
	"github.com/trustbloc/vc-go/sdjwt/common"
	"github.com/trustbloc/vc-go/sdjwt/holder"
	"github.com/trustbloc/vc-go/sdjwt/issuer"
	"github.com/trustbloc/vc-go/sdjwt/verifier"
	"github.com/trustbloc/vc-go/status"
	"github.com/trustbloc/vc-go/status/resolver"
	"github.com/trustbloc/vc-go/status/validator"
	"github.com/trustbloc/vc-go/verifharness/vh"
	"github.com/trustbloc/vc-go/verifiable"
	"github.com/trustbloc/vc-go/vermethod"
)

func makers() []maker {
	return []maker{
		{"vc", vcScene, 8},
		{"sdvc", sdvcScene, 4},
		{"ldvc", ldScene, 3},
		{"bbs", bbsScene, 1},
		{"divc", diScene, 3},
		{"vp", vpScene, 5},
		{"presexch", peScene, 5},
		{"sdjwt", sdScene, 4},
		{"status", statusScene, 3},
		{"didconfig", didconfScene, 3},
		{"schema", schemaScene, 3},
		{"related", relatedScene, 2},
		{"store", storeScene, 1},
		{"diddoc", didDocScene, 1},
	}
}

func (s *stage) copts() []verifiable.CredentialOpt {
	return spare(verifiable.WithProofChecker(s.checker), verifiable.WithJSONLDDocumentLoader(s.loader), verifiable.WithDisabledRelatedResourceCheck())
}

func (s *stage) lax() []verifiable.CredentialOpt {
	return spare(verifiable.WithDisabledProofCheck(), verifiable.WithCredDisableValidation(), verifiable.WithJSONLDDocumentLoader(s.loader),
		verifiable.WithDisabledRelatedResourceCheck())
}

func vcDig(vc *verifiable.Credential, err error) string {
	if err != nil {
		return "error"
	}

	b, err := vc.MarshalJSON()
	if err != nil {
		return "unmarshalable"
	}

	return dig(M{"json": json.RawMessage(b), "contents": vh.Reported(vc.Contents()), "raw": vc.ToRawJSON(), "disc": len(vc.SDJWTDisclosures())}, nil)
}

func credDoc(r *rand.Rand) (M, int) {
	v := 1 + r.Intn(2)
	return vh.Cred(r, vh.CredOpts{V: v, Issuer: w.Ents["issuer"].DID, LDSafe: true, OneSubject: r.Intn(4) != 0, NeedID: true}), v
}

func mustParse(s *stage, b []byte) *verifiable.Credential {
	vc, err := verifiable.ParseCredential(b, s.lax()...)
	if err != nil {
		panic(fmt.Sprintf("vh-fixture parse: %v: %s", err, b))
	}

	return vc
}

// tamper alters a byte inside a token or document (or truncates it).
func tamper(r *rand.Rand, b []byte) []byte {
	out := append([]byte{}, b...)
	if r.Intn(3) == 0 {
		return out[:len(out)-1-r.Intn(len(out)/2)]
	}

	i := len(out) - 2 - r.Intn(len(out)/4)
	out[i] ^= 1

	return out
}

func readers(s *stage, n string, vc *verifiable.Credential) []act {
	vopts := s.copts()
	strict := spare(append(s.copts(), verifiable.WithStrictValidation())...)
	popts := s.copts()
	subj := []verifiable.Subject{{ID: "did:test:new", CustomFields: M{"x": 1}}}
	iss := &verifiable.Issuer{ID: "did:test:newissuer"}
	tm := utiltime.NewTime(utc(1700000000))
	status := []*verifiable.TypedID{{ID: "urn:st", Type: "StatusList2021Entry", CustomFields: M{"q": "z"}}}
	ctx := spare("https://a.example/ctx")
	iE := w.Ents["issuer"]
	cr := w.Creator(iE)

	return []act{
		{n + "Contents", func() string { return dig(vh.Reported(vc.Contents()), nil) }},
		{n + "MarshalJSON", func() string { b, err := vc.MarshalJSON(); return dig(json.RawMessage(b), err) }},
		{n + "MarshalAsJSONLD", func() string { b, err := vc.MarshalAsJSONLD(); return dig(json.RawMessage(b), err) }},
		{n + "MarshalAsCWTLD", func() string { b, err := vc.MarshalAsCWTLD(); return dig(b, err) }},
		{n + "MarshalAsCWTLDHex", func() string { b, err := vc.MarshalAsCWTLDHex(); return dig(b, err) }},
		{n + "ToRawJSON", func() string { return dig(vc.ToRawJSON(), nil) }},
		{n + "ToRawClaimsMap", func() string { return dig(vc.ToRawClaimsMap(), nil) }},
		{n + "ToJWTString", func() string { x, err := vc.ToJWTString(); return digTok(x, err) }},
		{n + "ToUniversalForm", func() string { x, err := vc.ToUniversalForm(); return dig(x, err) }},
		{n + "Proofs", func() string { return dig(vc.Proofs(), nil) }},
		{n + "JWTHeaders", func() string { return dig(vc.JWTHeaders(), nil) + fmt.Sprint(vc.IsJWT(), vc.IsCWT()) }},
		{n + "CustomField", func() string { return dig(L{vc.CustomField("custom0"), vc.CustomField("type")}, nil) }},
		{n + "ValidateCredential", func() string { return ver(vc.ValidateCredential(vopts...)) }},
		{n + "ValidateStrict", func() string { return ver(vc.ValidateCredential(strict...)) }},
		{n + "CheckProof", func() string { return ver(vc.CheckProof(popts...)) }},
		{n + "JWTClaims", func() string {
			cl, err := vc.JWTClaims(true)
			if err != nil {
				return "error"
			}

			return dig(cl, nil)
		}},
		{n + "JWTClaims.full", func() string { cl, err := vc.JWTClaims(false); return dig(cl, err) }},
		{n + "CWTClaims", func() string { cl, err := vc.CWTClaims(); return dig(cl, err) }},
		{n + "WithModifiedID", func() string { return vcDig(vc.WithModifiedID("urn:new"), nil) }},
		{n + "WithModifiedIssuer", func() string { return vcDig(vc.WithModifiedIssuer(iss), nil) }},
		{n + "WithModifiedSubject", func() string { return vcDig(vc.WithModifiedSubject(subj), nil) }},
		{n + "WithModifiedValidUntil", func() string { return vcDig(vc.WithModifiedValidUntil(tm), nil) }},
		{n + "WithModifiedIssued", func() string { return vcDig(vc.WithModifiedIssued(tm), nil) }},
		{n + "WithModifiedStatus", func() string { return vcDig(vc.WithModifiedStatus(status...), nil) }},
		{n + "WithModifiedContext", func() string { return vcDig(vc.WithModifiedContext(ctx), nil) }},
		{n + "CreateUnsecuredJWTVC", func() string { return vcDig(vc.CreateUnsecuredJWTVC(true)) }},
		{n + "CreateSignedJWTVC", func() string {
			k := iE.Keys["EdDSA"]
			return vcDig(vc.CreateSignedJWTVC(true, k.JWSAlg(), cr, k.ID))
		}},
		{n + "CreateSignedJWTVC.es256", func() string {
			k := iE.Keys["ES256"]
			return vcDig(vc.CreateSignedJWTVC(false, k.JWSAlg(), cr, k.ID))
		}},
		{n + "CreateSignedCOSEVC", func() string {
			k := iE.Keys["EdDSA"]
			out, err := vc.CreateSignedCOSEVC(k.COSEAlg(), cr, k.ID)
			if err != nil {
				return "error"
			}

			return dig(L{vh.Reported(out.Contents()), out.IsCWT()}, nil)
		}},
	}
}

func makeSDActs(s *stage, n string, vc *verifiable.Credential, r *rand.Rand) []act {
	k := w.Ents["issuer"].Keys[vh.Pick(r, "EdDSA", "ES256", "ES384")]
	cr := w.Creator(w.Ents["issuer"])

	signer, err := jwt.NewJOSESigner(jwt.SignParameters{KeyID: k.ID, JWTAlg: k.Alg}, cr)
	if err != nil {
		panic("vh-fixture " + err.Error())
	}

	names := spare("given0", "a", "name")
	all := spare("given2", "degree")
	rec := spare("given0", "degree")

	acts := []act{}

	for _, v := range []common.SDJWTVersion{common.SDJWTVersionV2, common.SDJWTVersionV5} {
		v := v
		opts := spare(verifiable.MakeSDJWTWithVersion(v), verifiable.MakeSDJWTWithNonSelectivelyDisclosableClaims(names), verifiable.MakeSDJWTWithAlwaysIncludeObjects(all),
			verifiable.MakeSDJWTWithHash(vh.Pick(r, crypto.SHA256, crypto.SHA384, crypto.SHA512)))

		if v == common.SDJWTVersionV5 && r.Intn(2) == 0 {
			opts = append(opts, verifiable.MakeSDJWTWithRecursiveClaimsObjects(rec))
		}

		acts = append(acts, act{fmt.Sprintf("%sMakeSDJWT%d", n, v), func() string { x, err := vc.MakeSDJWT(signer, k.ID, opts...); return digTok(x, err) }})
	}

	all2 := spare(verifiable.DisclosureSigner(signer, k.ID), verifiable.DiscloseAll())

	acts = append(acts, act{n + "MarshalWithDisclosure", func() string { x, err := vc.MarshalWithDisclosure(all2...); return digTok(x, err) }})

	return acts
}

// vcScene: one credential shared, and parsing of its bytes with shared options.
func vcScene(r *rand.Rand) scene {
	d, _ := credDoc(r)
	form := vh.Pick(r, "json", "json", "jwt", "jwt-code", "cwt", "unsecured")

	if l, ok := d["credentialSubject"].(L); ok && len(l) != 1 && form == "jwt-code" {
		form = "jwt"
	}

	var b []byte

	switch t := any(d).(type) {
	case M:
		if form == "json" {
			b = vh.J(t)
		} else {
			switch x := w.Token(r, form, t).(type) {
			case string:
				b = []byte(x)
			case []byte:
				b = x
			}
		}
	}

	bad := tamper(r, b)
	seed := r.Int63()

	return func() []act {
		s := newStage()
		r := rand.New(rand.NewSource(seed))
		vc := mustParse(s, b)
		good, hostile := s.copts(), s.copts()
		acts := readers(s, "vc("+form+").", vc)
		acts = append(acts, makeSDActs(s, "vc("+form+").", vc, r)...)
		acts = append(acts,
			act{"ParseCredential(" + form + ")", func() string { return vcDig(verifiable.ParseCredential(b, good...)) }},
			act{"ParseCredential(" + form + ",tampered)", func() string { return vcDig(verifiable.ParseCredential(bad, hostile...)) }})

		if form == "json" {
			doc := vh.M(b)
			o := s.copts()
			acts = append(acts, act{"ParseCredentialJSON", func() string { return vcDig(verifiable.ParseCredentialJSON(doc, o...)) }})
		}

		cont := vc.Contents()
		acts = append(acts, act{"CreateCredential", func() string { return vcDig(verifiable.CreateCredential(cont, nil)) }})

		return acts
	}
}

// sdvcScene: an SD-JWT credential shared.
func sdvcScene(r *rand.Rand) scene {
	v := 1 + r.Intn(2)
	d := vh.Cred(r, vh.CredOpts{V: v, Issuer: w.Ents["issuer"].DID, LDSafe: true, OneSubject: true, NeedID: true})
	if l, ok := d["credentialSubject"].(L); ok {
		d["credentialSubject"] = l[0]
	}

	ver := vh.Pick(r, common.SDJWTVersionV2, common.SDJWTVersionV5)
	tok := w.SDJWTCred(w.Ents["issuer"], vh.Pick(r, vh.JWTAlgs...), d, verifiable.MakeSDJWTWithVersion(ver))
	bad := tamper(r, []byte(tok))
	seed := r.Int63()

	return func() []act {
		s := newStage()
		r := rand.New(rand.NewSource(seed))
		vc := mustParse(s, []byte(tok))
		acts := readers(s, "sdvc.", vc)
		names := spare[string]()

		for _, x := range vc.SDJWTDisclosures() {
			if r.Intn(2) == 0 && x.Name != "" {
				names = append(names, x.Name)
			}
		}

		hk := w.Ents["holder"].Keys["EdDSA"]
		info := &holder.BindingInfo{Payload: holder.BindingPayload{Nonce: "n", Audience: "a"}, Signer: vh.JoseSigner{K: hk}, Headers: jose.Headers{"typ": "JWT"}}

		dispAll, dispSome := spare(verifiable.DisplayAllDisclosures()), spare(verifiable.DisplayGivenDisclosures(names))
		discAll, discSome := spare(verifiable.DiscloseAll(), verifiable.DisclosureHolderBinding(info)), spare(verifiable.DiscloseGivenIfAvailable(names))
		discReq := spare(verifiable.DiscloseGivenRequired(append(spare(names...), "no-such-claim")))
		opts, hostile := s.copts(), s.copts()

		return append(acts,
			act{"sdvc.CreateDisplayCredential.all", func() string { return vcDig(vc.CreateDisplayCredential(dispAll...)) }},
			act{"sdvc.CreateDisplayCredential.given", func() string { return vcDig(vc.CreateDisplayCredential(dispSome...)) }},
			act{"sdvc.CreateDisplayCredentialMap.all", func() string { m, err := vc.CreateDisplayCredentialMap(dispAll...); return dig(m, err) }},
			act{"sdvc.CreateDisplayCredentialMap.given", func() string { m, err := vc.CreateDisplayCredentialMap(dispSome...); return dig(m, err) }},
			act{"sdvc.MarshalWithDisclosure.all+kb", func() string { x, err := vc.MarshalWithDisclosure(discAll...); return digTok(x, err) }},
			act{"sdvc.MarshalWithDisclosure.some", func() string { x, err := vc.MarshalWithDisclosure(discSome...); return digTok(x, err) }},
			act{"sdvc.MarshalWithDisclosure.missing", func() string { x, err := vc.MarshalWithDisclosure(discReq...); return digTok(x, err) }},
			act{"sdvc.SDJWTDisclosures", func() string { return dig(vc.SDJWTDisclosures(), nil) }},
			act{"ParseCredential(sdjwt)", func() string { return vcDig(verifiable.ParseCredential([]byte(tok), opts...)) }},
			act{"ParseCredential(sdjwt,tampered)", func() string { return vcDig(verifiable.ParseCredential(bad, hostile...)) }},
		)
	}
}

// ldScene: a credential with a linked-data proof, verified and signed with shared contexts.
func ldScene(r *rand.Rand) scene {
	iss := w.Ents["issuer"]
	d := vh.Cred(r, vh.CredOpts{V: 1, Issuer: iss.DID, LDSafe: true, OneSubject: true, NeedID: true})
	su := vh.LDSuites[r.Intn(len(vh.LDSuites)-1)]
	lc := w.LDContext(r, iss, su)

	if lc.Created == nil {
		t := utc(1600000000)
		lc.Created = &t
	}

	signed, err := w.LDSign(d, lc)
	if err != nil {
		panic("vh-fixture ldsign " + err.Error())
	}

	b := vh.J(signed)
	other := vh.CloneM(signed)
	other["credentialSubject"] = M{"id": "did:test:other"}
	bad := vh.J(other)

	return func() []act {
		s := newStage()
		vc := mustParse(s, b)
		acts := readers(s, "ldvc.", vc)
		opts, hostile := s.copts(), s.copts()
		ctx := *lc

		return append(acts,
			act{"ParseCredential(ld)", func() string { return vcDig(verifiable.ParseCredential(b, opts...)) }},
			act{"ParseCredential(ld)", func() string { return vcDig(verifiable.ParseCredential(b, opts...)) }},
			act{"ParseCredential(ld,tampered)", func() string { return vcDig(verifiable.ParseCredential(bad, hostile...)) }},
			act{"AddLinkedDataProof", func() string { // on a private credential, with the shared context
				own := mustParse(s, vh.J(d))
				return vcDig(own, own.AddLinkedDataProof(&ctx, processor.WithDocumentLoader(s.loader)))
			}})
	}
}

func bbsScene(r *rand.Rand) scene {
	iss := w.Ents["issuer"]
	su := vh.BBSSuite()
	d := w.BBSDoc(r, iss.DID)

	if len(vh.AsList(d["credentialSubject"])) > 1 {
		d["credentialSubject"] = vh.AsList(d["credentialSubject"])[0]
	}

	lc := w.LDContext(r, iss, su)

	if lc.Created == nil {
		t := utc(1600000000)
		lc.Created = &t
	}

	signed, err := w.LDSign(d, lc)
	if err != nil {
		panic("vh-fixture ldsign " + err.Error())
	}

	b := vh.J(signed)
	fr := M{"@context": d["@context"], "type": "VerifiableCredential", "@explicit": true, "issuer": M{}, "issuanceDate": M{}, "credentialSubject": M{"@explicit": true, "z": M{}}}

	return func() []act {
		s := newStage()
		vc := mustParse(s, b)
		opts := s.copts()
		lax := s.lax()
		pc := &verifiable.BBSProofCreator{ProofDerivation: bbs12381g2pub.New(), VerificationMethodResolver: vermethod.NewVDRResolver(s.res)}
		frame := vh.CloneM(fr)
		nonce := []byte("nonce")

		return []act{
			{"ParseCredential(bbs)", func() string { return vcDig(verifiable.ParseCredential(b, opts...)) }},
			{"GenerateBBSSelectiveDisclosure", func() string { return vcDig(vc.GenerateBBSSelectiveDisclosure(frame, nonce, pc, lax...)) }},
			{"derive+verify", func() string {
				out, err := vc.GenerateBBSSelectiveDisclosure(frame, nonce, pc, lax...)
				if err != nil {
					return "error"
				}

				x, err := out.MarshalJSON()
				if err != nil {
					return "error"
				}

				return vcDig(verifiable.ParseCredential(x, opts...))
			}},
			{"bbs.MarshalJSON", func() string { x, err := vc.MarshalJSON(); return dig(json.RawMessage(x), err) }},
			{"bbs.Contents", func() string { return dig(vh.Reported(vc.Contents()), nil) }},
		}
	}
}

// diScene: Data Integrity signer and verifier shared.
func diScene(r *rand.Rand) scene {
	iss := w.Ents["issuer"]
	d := vh.Cred(r, vh.CredOpts{V: 2, Issuer: iss.DID, LDSafe: true, OneSubject: true, NeedID: true})
	su := vh.DISuites[r.Intn(len(vh.DISuites))]
	o := w.DIOpts(r, iss, su)
	o.Purpose = "assertionMethod"
	signed := w.DISign(d, iss, su, o)
	b := vh.J(signed)
	other := vh.CloneM(signed)
	other["credentialSubject"] = M{"id": "did:test:other"}
	bad := vh.J(other)
	k := iss.Keys[su.Alg]

	return func() []act {
		s := newStage()

		signer, err := dataintegrity.NewSigner(&dataintegrity.Options{DIDResolver: s.res},
			ecdsa2019.NewSignerInitializer(&ecdsa2019.SignerInitializerOptions{LDDocumentLoader: s.loader,
				SignerGetter: func(*jwk.JWK) (ecdsa2019.Signer, error) { return k, nil }}),
			eddsa2022.NewSignerInitializer(&eddsa2022.SignerInitializerOptions{LDDocumentLoader: s.loader,
				SignerGetter: func(*jwk.JWK) (eddsa2022.Signer, error) { return k, nil }}))
		if err != nil {
			panic("vh-fixture " + err.Error())
		}

		dv, err := dataintegrity.NewVerifier(&dataintegrity.Options{DIDResolver: s.res},
			ecdsa2019.NewVerifierInitializer(&ecdsa2019.VerifierInitializerOptions{LDDocumentLoader: s.loader}),
			eddsa2022.NewVerifierInitializer(&eddsa2022.VerifierInitializerOptions{LDDocumentLoader: s.loader}))
		if err != nil {
			panic("vh-fixture " + err.Error())
		}

		vc := mustParse(s, b)
		opts := spare(append(s.copts(), verifiable.WithDataIntegrityVerifier(dv), verifiable.WithExpectedDataIntegrityFields("assertionMethod", o.Domain, o.Challenge))...)
		wrong := spare(append(s.copts(), verifiable.WithDataIntegrityVerifier(dv), verifiable.WithExpectedDataIntegrityFields("assertionMethod", "https://elsewhere.example", ""))...)
		po := *o
		vo := &models.ProofOptions{Purpose: "assertionMethod", Domain: o.Domain, Challenge: o.Challenge}
		sctx := &verifiable.DataIntegrityProofContext{SigningKeyID: su.VMID(iss), ProofPurpose: "assertionMethod", CryptoSuite: su.Suite, Created: &o.Created}

		return append(readers(s, "divc.", vc),
			act{"ParseCredential(di)", func() string { return vcDig(verifiable.ParseCredential(b, opts...)) }},
			act{"ParseCredential(di,tampered)", func() string { return vcDig(verifiable.ParseCredential(bad, opts...)) }},
			act{"ParseCredential(di,other domain)", func() string { return vcDig(verifiable.ParseCredential(b, wrong...)) }},
			act{"Verifier.VerifyProof", func() string { return ver(dv.VerifyProof(b, vo)) }},
			act{"Verifier.VerifyProof(tampered)", func() string { return ver(dv.VerifyProof(bad, vo)) }},
			act{"Signer.AddProof", func() string { x, err := signer.AddProof(vh.J(d), &po); return dig(json.RawMessage(x), err) }},
			act{"Signer.AddProof+Verify", func() string {
				x, err := signer.AddProof(vh.J(d), &po)
				if err != nil {
					return "error"
				}

				return ver(dv.VerifyProof(x, vo))
			}},
			act{"AddDataIntegrityProof", func() string { // private credential, shared signer and context
				own := mustParse(s, vh.J(d))
				return vcDig(own, own.AddDataIntegrityProof(sctx, signer))
			}},
		)
	}
}

// vpScene: a presentation shared.
func vpScene(r *rand.Rand) scene {
	v := 1 + r.Intn(2)
	d := w.FullVP(r, v, r.Intn(2) == 0)
	b := vh.J(d)
	hE := w.Ents["holder"]

	p0, err := verifiable.ParsePresentation(b, w.LaxVP()...)
	if err != nil {
		panic(fmt.Sprintf("vh-fixture vp: %v: %s", err, b))
	}

	form := vh.Pick(r, "json", "jwt", "cwt")
	tok := b

	switch form {
	case "jwt":
		k := hE.Keys["EdDSA"]
		p0.Holder = hE.DID

		p, err := p0.CreateJWTVP([]string{"aud"}, k.JWSAlg(), w.Creator(hE), k.ID, r.Intn(2) == 0)
		if err != nil {
			panic("vh-fixture jwtvp " + err.Error())
		}

		tok = []byte(p.JWT)
	case "cwt":
		k := hE.Keys["EdDSA"]
		p0.Holder = hE.DID

		p, err := p0.CreateCWTVP([]string{"aud"}, k.COSEAlg(), w.Creator(hE), k.ID, r.Intn(2) == 0)
		if err != nil {
			panic("vh-fixture cwtvp " + err.Error())
		}

		if tok, err = p.MarshalCBOR(); err != nil {
			panic("vh-fixture cwtvp " + err.Error())
		}
	}

	bad := tamper(r, tok)
	extra, _ := credDoc(r)

	return func() []act {
		s := newStage()
		lax := spare(verifiable.WithPresDisabledProofCheck(), verifiable.WithDisabledJSONLDChecks(), verifiable.WithPresJSONLDDocumentLoader(s.loader))
		checked := spare(verifiable.WithPresProofChecker(s.checker), verifiable.WithDisabledJSONLDChecks(), verifiable.WithPresJSONLDDocumentLoader(s.loader))

		vp, err := verifiable.ParsePresentation(tok, lax...)
		if err != nil {
			panic(fmt.Sprintf("vh-fixture vp: %v: %s", err, tok))
		}

		inner := mustParse(s, vh.J(extra))
		aud := spare("a1", "a2")
		cr := w.Creator(hE)
		n := "vp(" + form + ")."
		vpDig := func(p *verifiable.Presentation, err error) string {
			if err != nil {
				return "error"
			}

			b, err := p.MarshalJSON()
			if err != nil {
				return "unmarshalable"
			}

			var x interface{} = json.RawMessage(b)
			if len(b) == 0 || b[0] != '{' && b[0] != '"' {
				x = scrubS(string(b))
			}

			return dig(L{x, p.ID, p.Type, p.Holder, p.Context, len(p.Credentials())}, nil)
		}
		k := hE.Keys["EdDSA"]
		creds := vp.Credentials()

		acts := []act{
			{n + "MarshalJSON", func() string { return vpDig(vp, nil) }},
			{n + "MarshalCBOR", func() string { _, err := vp.MarshalCBOR(); return ver(err) }},
			{n + "JWTClaims", func() string { cl, err := vp.JWTClaims(aud, true); return dig(cl, err) }},
			{n + "JWTClaims.full", func() string { cl, err := vp.JWTClaims(aud, false); return dig(cl, err) }},
			{n + "CWTClaims", func() string { cl, err := vp.CWTClaims(aud, true); return dig(cl, err) }},
			{n + "MarshalledCredentials", func() string {
				l, err := vp.MarshalledCredentials()

				var out L
				for _, m := range l {
					out = append(out, scrubS(strings.Trim(string(m), `"`)))
				}

				return dig(len(out), err)
			}},
			{n + "Clone", func() string { return vpDig(vp.Clone(), nil) }},
			{n + "Clone+AddCredentials", func() string {
				c := vp.Clone()
				c.AddCredentials(inner)

				return vpDig(c, nil)
			}},
			{n + "Credentials", func() string {
				var out L
				for _, c := range vp.Credentials() {
					out = append(out, vcDig(c, nil))
				}

				return dig(out, nil)
			}},
			{n + "CreateJWTVP", func() string { p, err := vp.CreateJWTVP(aud, k.JWSAlg(), cr, k.ID, true); return vpDig(p, err) }},
			{n + "CreateCWTVP", func() string {
				p, err := vp.CreateCWTVP(aud, k.COSEAlg(), cr, k.ID, true)
				if err != nil {
					return "error"
				}

				return dig(L{p.ID, p.Holder, p.Type, len(p.Credentials())}, nil)
			}},
			{"ParsePresentation(" + form + ")", func() string { return vpDig(verifiable.ParsePresentation(tok, lax...)) }},
			{"ParsePresentation(" + form + ",checked)", func() string { return vpDig(verifiable.ParsePresentation(tok, checked...)) }},
			{"ParsePresentation(" + form + ",tampered)", func() string { return vpDig(verifiable.ParsePresentation(bad, checked...)) }},
			{"NewPresentation(shared credentials)", func() string {
				p, err := verifiable.NewPresentation(verifiable.WithCredentials(creds...))
				return vpDig(p, err)
			}},
			{"NewPresentation+Add", func() string {
				p, err := verifiable.NewPresentation(verifiable.WithCredentials(creds...))
				if err == nil {
					p.AddCredentials(inner)
				}

				return vpDig(p, err)
			}},
		}

		return acts
	}
}

// peScene: a presentation definition and candidate credentials shared.
func peScene(r *rand.Rand) scene {
	iss := w.Ents["issuer"]

	var toks [][]byte

	for i := 0; i < 2+r.Intn(4); i++ {
		d := M{"@context": L{vh.CtxV1}, "id": fmt.Sprintf("urn:vc:%d", i), "type": L{"VerifiableCredential"}, "issuer": iss.DID, "issuanceDate": "2022-01-01T00:00:00Z",
			"credentialSubject": M{"id": "did:test:s", "name": vh.SafeStr(r), "age": 10 + r.Intn(40), "address": M{"city": vh.SafeStr(r), "zip": vh.SafeStr(r)}, "g": i % 3}}

		switch r.Intn(4) {
		case 0:
			toks = append(toks, []byte(w.JWTCred(iss, "EdDSA", d)))
		case 1:
			toks = append(toks, []byte(w.SDJWTCred(iss, "EdDSA", d, verifiable.MakeSDJWTWithVersion(vh.Pick(r, common.SDJWTVersionV2, common.SDJWTVersionV5)))))
		default:
			toks = append(toks, vh.J(d))
		}
	}

	n := 1 + r.Intn(4)
	descs := L{}
	reqs := L{}

	for i := 0; i < n; i++ {
		f := M{"path": L{"$.credentialSubject.name", "$.vc.credentialSubject.name"}}
		cons := M{}

		switch r.Intn(5) {
		case 0:
			f = M{"path": L{"$.credentialSubject.age"}, "filter": M{"type": "number", "minimum": 15}}
		case 1:
			f = M{"path": L{"$.credentialSubject.address.city"}}
			cons["limit_disclosure"] = vh.Pick(r, "required", "preferred")
		case 2:
			f = M{"path": L{"$.credentialSubject.age"}, "filter": M{"type": "number", "minimum": 15}, "predicate": vh.Pick(r, "required", "preferred")}
		case 3:
			f = M{"path": L{"$.nothing"}, "optional": true}
		}

		cons["fields"] = L{f}

		d := M{"id": fmt.Sprintf("d%d", i), "constraints": cons}
		g := vh.Pick(r, "A", "B")
		d["group"] = L{g}
		descs = append(descs, d)
	}

	def := M{"id": "def", "input_descriptors": descs}

	if r.Intn(2) == 0 {
		for _, g := range []string{"A", "B"} {
			for _, d := range descs {
				if d.(M)["group"].(L)[0] == g {
					reqs = append(reqs, M{"rule": vh.Pick(r, "pick", "pick", "all"), "from": g, "min": 1})
					break
				}
			}
		}

		for _, q := range reqs {
			if q.(M)["rule"] == "all" {
				delete(q.(M), "min")
			}
		}

		def["submission_requirements"] = reqs
	}

	if r.Intn(3) == 0 {
		def["format"] = M{"ldp_vp": M{"proof_type": L{"Ed25519Signature2018"}}, "jwt_vp": M{"alg": L{"EdDSA"}}, "ldp": M{"proof_type": L{"Ed25519Signature2018"}}}
	}

	return func() []act {
		s := newStage()

		var creds []*verifiable.Credential
		for _, t := range toks {
			creds = append(creds, mustParse(s, t))
		}

		creds = spare(creds...)

		pd := &presexch.PresentationDefinition{}
		if err := json.Unmarshal(vh.J(def), pd); err != nil {
			panic("vh-fixture " + err.Error())
		}

		laxO := s.lax()
		vpOf := func(vps []*verifiable.Presentation, sub *presexch.PresentationSubmission, err error) string {
			if err != nil {
				return "error"
			}

			var out L

			for _, p := range vps {
				if sub == nil {
					sub, _ = p.CustomFields["presentation_submission"].(*presexch.PresentationSubmission)
				}

				b, err := p.MarshalJSON()
				if err != nil {
					return "unmarshalable"
				}

				out = append(out, json.RawMessage(b))
			}

			return dig(L{out, sub}, nil)
		}

		// a presentation to match, made on private copies
		var offered []*verifiable.Presentation

		{
			var own []*verifiable.Credential
			for _, t := range toks {
				own = append(own, mustParse(s, t))
			}

			if vp, err := pd.CreateVP(own, s.loader); err == nil {
				if b, err := vp.MarshalJSON(); err == nil {
					if p, err := verifiable.ParsePresentation(b, verifiable.WithPresDisabledProofCheck(), verifiable.WithDisabledJSONLDChecks(),
						verifiable.WithPresJSONLDDocumentLoader(s.loader)); err == nil {
						offered = append(offered, p)
					}
				}
			}
		}

		mopts := spare(presexch.WithCredentialOptions(laxO...), presexch.WithDisableSchemaValidation())
		ropts := spare(presexch.WithSelectiveDisclosureApply(), presexch.WithSDCredentialOptions(laxO...))
		ropts2 := spare(presexch.WithSDCredentialOptions(laxO...))
		acts := []act{
			{"CreateVP", func() string {
				p, err := pd.CreateVP(creds, s.loader, ropts2...)
				return vpOf([]*verifiable.Presentation{p}, nil, err)
			}},
			{"CreateVP", func() string {
				p, err := pd.CreateVP(creds, s.loader, ropts2...)
				return vpOf([]*verifiable.Presentation{p}, nil, err)
			}},
			{"CreateVPArray", func() string { return vpOf(pd.CreateVPArray(creds, s.loader, ropts...)) }},
			{"MatchSubmissionRequirement", func() string { return reqDig(pd.MatchSubmissionRequirement(creds, s.loader, ropts2...)) }},
			{"MatchSubmissionRequirement(sd)", func() string { return reqDig(pd.MatchSubmissionRequirement(creds, s.loader, ropts...)) }},
			{"ValidateSchema", func() string { return ver(pd.ValidateSchema()) }},
			{"pd.MarshalJSON", func() string { return dig(pd, nil) }},
		}

		for i, vc := range creds {
			vc := vc
			if i < 2 {
				acts = append(acts, act{"pe.vc.MarshalJSON", func() string { return vcDig(vc, nil) }})
			}
		}

		if len(offered) > 0 {
			acts = append(acts, act{"Match", func() string {
				m, err := pd.Match(offered, s.loader, mopts...)
				if err != nil {
					return "error"
				}

				var out L
				for _, x := range m {
					out = append(out, L{x.DescriptorID, vcDig(x.Credential, nil)})
				}

				return dig(out, nil)
			}})
		}

		return acts
	}
}

func reqDig(l []*presexch.MatchedSubmissionRequirement, err error) string {
	if err != nil {
		return "error"
	}

	var f func(m *presexch.MatchedSubmissionRequirement) interface{}

	f = func(m *presexch.MatchedSubmissionRequirement) interface{} {
		out := M{"name": m.Name, "rule": m.Rule, "count": m.Count, "min": m.Min, "max": m.Max}

		ds := L{}

		for _, d := range m.Descriptors {
			cs := L{}
			for _, vc := range d.MatchedVCs {
				cs = append(cs, vcDig(vc, nil))
			}

			ds = append(ds, L{d.ID, cs})
		}

		out["descs"] = ds

		ns := L{}
		for _, n := range m.Nested {
			ns = append(ns, f(n))
		}

		out["nested"] = ns

		return out
	}

	var out L
	for _, m := range l {
		out = append(out, f(m))
	}

	return dig(out, nil)
}

// sdScene: the SD-JWT packages with shared claims, signers and options.
func sdScene(r *rand.Rand) scene {
	iss := w.Ents["issuer"]
	claims := M{"given_name": vh.SafeStr(r), "address": M{"city": vh.SafeStr(r), "lines": L{"a", "b"}}, "degrees": L{"x", M{"k": "v"}}, "n": 7, "always": M{"p": 1}}
	k := iss.Keys[vh.Pick(r, vh.JWTAlgs...)]
	ver := vh.Pick(r, common.SDJWTVersionV2, common.SDJWTVersionV5)
	hk := w.Ents["holder"].Keys["EdDSA"]
	exp := 4000000000 + r.Int63n(1000)

	mkOpts := func() []issuer.NewOpt {
		o := spare(issuer.WithSDJWTVersion(ver), issuer.WithHolderPublicKey(hk.JWK), issuer.WithStructuredClaims(r.Intn(2) == 0), issuer.WithJTI("urn:jti"), issuer.WithSubject("sub"))
		if ver == common.SDJWTVersionV5 {
			o = append(o, issuer.WithAlwaysIncludeObjects(spare("always")), issuer.WithNonSelectivelyDisclosableClaims(spare("n")))
		} else {
			o = append(o, issuer.WithNonSelectivelyDisclosableClaims(spare("n")))
		}

		return o
	}
	_ = exp

	base := mkOpts()

	t0, err := issuer.New(iss.DID, vh.CloneM(claims), jose.Headers{}, vh.JoseSigner{K: k}, base...)
	if err != nil {
		panic("vh-fixture issuer.New " + err.Error())
	}

	comb, err := t0.Serialize(false)
	if err != nil {
		panic("vh-fixture " + err.Error())
	}

	ds := strings.Split(strings.Trim(comb, "~"), "~")[1:]
	some := ds[:len(ds)/2]
	bad := string(tamper(r, []byte(comb)))

	info0 := &holder.BindingInfo{Payload: holder.BindingPayload{Nonce: "n", Audience: "a"}, Signer: vh.JoseSigner{K: hk}, Headers: jose.Headers{"alg": "EdDSA", "typ": "JWT"}}
	if ver == common.SDJWTVersionV5 {
		info0.Headers["typ"] = "kb+jwt"
	}

	pres, err := holder.CreatePresentation(comb, ds, holder.WithHolderVerification(info0))
	if err != nil {
		panic("vh-fixture " + err.Error())
	}

	vcDoc := vh.Cred(r, vh.CredOpts{V: 1, Issuer: iss.DID, LDSafe: true, OneSubject: true, NeedID: true})

	return func() []act {
		s := newStage()
		cl := vh.CloneM(claims)
		hdr := jose.Headers{"x": "y"}
		info := &holder.BindingInfo{Payload: info0.Payload, Signer: info0.Signer, Headers: jose.Headers{}}

		for k, v := range info0.Headers {
			info.Headers[k] = v
		}

		signer := vh.JoseSigner{K: k}
		io := base
		vo := spare(verifier.WithSignatureVerifier(s.checker), verifier.WithIssuerSigningAlgorithms(vh.JWTAlgs), verifier.WithHolderSigningAlgorithms(vh.JWTAlgs),
			verifier.WithHolderVerificationRequired(true), verifier.WithExpectedNonceForHolderVerification("n"), verifier.WithExpectedAudienceForHolderVerification("a"))
		vo2 := spare(verifier.WithSignatureVerifier(s.checker), verifier.WithIssuerSigningAlgorithms(vh.JWTAlgs))
		ho := spare(holder.WithSignatureVerifier(s.checker), holder.WithIssuerSigningAlgorithms(vh.JWTAlgs))
		co := spare(holder.WithHolderVerification(info))
		sel := spare(some...)

		parsed := common.ParseCombinedFormatForIssuance(comb)
		payload := M{}

		for k, v := range vh.JWTPart(parsed.SDJWT, 1) {
			payload[k] = v
		}

		discs := spare(parsed.Disclosures...)

		return []act{
			{"issuer.New", func() string {
				t, err := issuer.New(iss.DID, cl, hdr, signer, io...)
				if err != nil {
					return "error"
				}

				x, err := t.Serialize(false)

				return digTok(x, err)
			}},
			{"issuer.New+verify", func() string {
				t, err := issuer.New(iss.DID, cl, hdr, signer, io...)
				if err != nil {
					return "error"
				}

				x, err := t.Serialize(false)
				if err != nil {
					return "error"
				}

				out, err := verifier.Parse(x, vo2...)

				return digN(out, err)
			}},
			{"issuer.NewFromVC", func() string { // the document is the caller's own: it is altered
				doc := M{"vc": vh.CloneM(vcDoc)}

				t, err := issuer.NewFromVC(doc, hdr, signer, issuer.WithSDJWTVersion(ver))
				if err != nil {
					return "error"
				}

				x, err := t.Serialize(false)

				return digTok(x, err)
			}},
			{"holder.Parse", func() string {
				cs, err := holder.Parse(comb, ho...)
				if err != nil {
					return "error"
				}

				var out []string
				for _, c := range cs {
					out = append(out, c.Name+"="+dig(c.Value, nil))
				}

				return strings.Join(sorted(out), ";")
			}},
			{"holder.Parse(tampered)", func() string { cs, err := holder.Parse(bad, ho...); return dig(len(cs), err) }},
			{"holder.CreatePresentation", func() string { x, err := holder.CreatePresentation(comb, sel, co...); return digTok(x, err) }},
			{"holder.CreatePresentation+verify", func() string {
				x, err := holder.CreatePresentation(comb, sel, co...)
				if err != nil {
					return "error"
				}

				out, err := verifier.Parse(x, vo...)

				return digN(out, err)
			}},
			{"holder.CreateHolderVerification", func() string { x, err := holder.CreateHolderVerification(info); return digTok(x, err) }},
			{"verifier.Parse", func() string { out, err := verifier.Parse(pres, vo...); return digN(out, err) }},
			{"verifier.Parse", func() string { out, err := verifier.Parse(pres, vo...); return digN(out, err) }},
			{"verifier.Parse(unbound)", func() string { out, err := verifier.Parse(comb, vo...); return digN(out, err) }},
			{"common.GetDisclosureClaims", func() string {
				cs, err := common.GetDisclosureClaims(discs, crypto.SHA256)
				if err != nil {
					return "error"
				}

				var out []string
				for _, c := range cs {
					out = append(out, c.Name+"="+dig(c.Value, nil))
				}

				return strings.Join(sorted(out), ";")
			}},
			{"common.GetDisclosureDigests", func() string { m, err := common.GetDisclosureDigests(payload); return dig(m, err) }},
			{"common.GetDisclosedClaims", func() string {
				cs, err := common.GetDisclosureClaims(discs, crypto.SHA256)
				if err != nil {
					return "error"
				}

				out, err := common.GetDisclosedClaims(cs, payload)

				return digN(out, err)
			}},
		}
	}
}

func digN(v M, err error) string {
	if err != nil {
		return "error"
	}

	return dig(vh.NormJ(v), nil)
}

// ---- status ----

type listSite struct {
	docs  map[string][]byte
	fault map[string]bool
}

func (s *listSite) RoundTrip(q *http.Request) (*http.Response, error) {
	runtime.Gosched()

	u := q.URL.String()
	if s.fault[u] {
		return nil, errors.New("connection refused")
	}

	b, ok := s.docs[u]
	code := 200

	if !ok {
		code, b = 404, []byte("nothing")
	}

	return &http.Response{StatusCode: code, Status: http.StatusText(code), Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: http.Header{}, Body: io.NopCloser(bytes.NewReader(b)), ContentLength: int64(len(b)), Request: q}, nil
}

func (s *listSite) Do(q *http.Request) (*http.Response, error) { return s.RoundTrip(q) }

type registry struct{ *resolverT }

type resolverT struct{ in *stage }

func (t *resolverT) Resolve(id string, o ...vdrapi.DIDMethodOption) (*did.DocResolution, error) {
	return t.in.res.Resolve(id, o...)
}
func (t *resolverT) Create(string, *did.Doc, ...vdrapi.DIDMethodOption) (*did.DocResolution, error) {
	return nil, errors.New("read only")
}
func (t *resolverT) Update(*did.Doc, ...vdrapi.DIDMethodOption) error { return errors.New("read only") }
func (t *resolverT) Deactivate(string, ...vdrapi.DIDMethodOption) error {
	return errors.New("read only")
}
func (t *resolverT) Close() error { return nil }

func gzipped(b []byte) []byte {
	var out bytes.Buffer

	z := gzip.NewWriter(&out)
	_, _ = z.Write(b)
	_ = z.Close()

	return out.Bytes()
}

func statusScene(r *rand.Rand) scene {
	iss := w.Ents["issuer"]
	docs := map[string][]byte{}
	fault := map[string]bool{}

	var creds [][]byte

	for i := 0; i < 2+r.Intn(3); i++ {
		u := fmt.Sprintf("https://status.example/%d", i)
		bits := make([]byte, 64)
		r.Read(bits)

		typ, vcType, subType := "StatusList2021Entry", "StatusList2021Credential", "StatusList2021"
		enc := vh.B64(gzipped(bits))

		if r.Intn(2) == 0 {
			typ, vcType, subType = "BitstringStatusListEntry", "BitstringStatusListCredential", "BitstringStatusList"
			enc, _ = multibase.Encode(multibase.Base64url, gzipped(bits))
		}

		l := M{"@context": L{vh.CtxV2}, "id": u, "type": L{"VerifiableCredential", vcType}, "issuer": iss.DID,
			"credentialSubject": M{"id": u + "#list", "type": subType, "encodedList": enc, "statusPurpose": "revocation"}}

		docs[u] = vh.J(l)
		if r.Intn(2) == 0 {
			docs[u] = []byte(w.JWTCred(iss, "EdDSA", l))
		}

		if r.Intn(8) == 0 {
			fault[u] = true
		}

		for j := 0; j < 2; j++ {
			idx := r.Intn(512)
			if r.Intn(8) == 0 {
				idx = 512 + r.Intn(100)
			}

			creds = append(creds, vh.J(M{"@context": L{vh.CtxV2}, "id": "urn:vc", "type": L{"VerifiableCredential"}, "issuer": iss.DID, "credentialSubject": M{"id": "did:s"},
				"credentialStatus": M{"id": fmt.Sprintf("%s#%d", u, idx), "type": typ, "statusPurpose": vh.Pick(r, "revocation", "suspension"),
					"statusListIndex": fmt.Sprint(idx), "statusListCredential": u}}))
		}
	}

	return func() []act {
		s := newStage()
		site := &listSite{docs: docs, fault: fault}
		res := resolver.NewResolver(&http.Client{Transport: site}, registry{&resolverT{s}}, "token")
		cl := &status.Client{ValidatorGetter: validator.GetValidator, Resolver: res}

		var acts []act

		for i, b := range creds {
			vc := mustParse(s, b)
			acts = append(acts, act{"VerifyStatus", func() string {
				err := cl.VerifyStatus(vc)

				switch {
				case err == nil:
					return "clean"
				case errors.Is(err, status.ErrRevoked):
					return "revoked"
				case errors.Is(err, status.ErrSuspended):
					return "suspended"
				}

				return "error"
			}})

			if i == 0 {
				acts = append(acts, act{"status.vc.Contents", func() string { return dig(vh.Reported(vc.Contents()), nil) }})
			}
		}

		u := vh.SortedKeys(docs)[0]
		acts = append(acts, act{"status.Resolve", func() string { return vcDig(res.Resolve(u)) }})

		return acts
	}
}

// ---- DID configuration ----

func didconfScene(r *rand.Rand) scene {
	e := w.Ents["site"]
	origin := "https://site.example"
	doc := M{"@context": L{vh.CtxV1, vh.CtxDIDConf}, "type": L{"VerifiableCredential", "DomainLinkageCredential"}, "issuer": e.DID, "issuanceDate": "2020-12-04T14:08:28-06:00",
		"expirationDate": "2035-12-04T14:08:28-06:00", "credentialSubject": M{"id": e.DID, "origin": origin}}

	var entry interface{}

	if r.Intn(2) == 0 {
		k := e.Keys["EdDSA"]
		entry = vh.JWS(M{"alg": "EdDSA", "kid": k.ID}, vh.J(M{"iss": e.DID, "sub": e.DID, "nbf": 1607112508, "exp": 2080332508, "vc": doc}), k)
	} else {
		lc := w.LDContext(r, e, vh.LDSuites[0])
		lc.Purpose = "assertionMethod"

		d, err := w.LDSign(vh.CloneM(doc), lc)
		if err != nil {
			panic("vh-fixture " + err.Error())
		}

		entry = d
	}

	conf := vh.J(M{"@context": vh.CtxDIDConf, "linked_dids": L{entry}})

	return func() []act {
		s := newStage()
		site := &listSite{docs: map[string][]byte{origin + "/.well-known/did-configuration.json": conf}}
		cl := client.New(client.WithHTTPClient(site), client.WithJSONLDDocumentLoader(s.loader), client.WithVDRegistry(s.res))
		opts := spare(dcverifier.WithJSONLDDocumentLoader(s.loader), dcverifier.WithVDRegistry(s.res))

		return []act{
			{"didconfig.client", func() string { return ver(cl.VerifyDIDAndDomain(e.DID, origin)) }},
			{"didconfig.client", func() string { return ver(cl.VerifyDIDAndDomain(e.DID, origin)) }},
			{"didconfig.client(elsewhere)", func() string { return ver(cl.VerifyDIDAndDomain(e.DID, "https://other.example")) }},
			{"didconfig.client(other DID)", func() string { return ver(cl.VerifyDIDAndDomain(w.Ents["issuer"].DID, origin)) }},
			{"didconfig.verifier", func() string { return ver(dcverifier.VerifyDIDAndDomain(conf, e.DID, origin, opts...)) }},
			{"didconfig.verifier(other DID)", func() string { return ver(dcverifier.VerifyDIDAndDomain(conf, w.Ents["issuer"].DID, origin, opts...)) }},
		}
	}
}

// ---- custom schemas ----

func schemaScene(r *rand.Rand) scene {
	docs := map[string][]byte{}

	var creds [][]byte

	for i := 0; i < 2+r.Intn(3); i++ {
		u := fmt.Sprintf("https://schema.example/%d.json", i)
		need := vh.Pick(r, "name", "absent")
		docs[u] = vh.J(M{"$schema": "http://json-schema.org/draft-07/schema#", "type": "object", "properties": M{"credentialSubject": M{"type": "object", "required": L{need}}}})

		if r.Intn(6) == 0 {
			delete(docs, u)
		}

		d := M{"@context": L{vh.CtxV1}, "id": "urn:vc", "type": L{"VerifiableCredential"}, "issuer": w.Ents["issuer"].DID, "issuanceDate": "2022-01-01T00:00:00Z",
			"credentialSubject": M{"id": "did:s", "name": "n"}, "credentialSchema": M{"id": u, "type": "JsonSchemaValidator2018"}}
		creds = append(creds, vh.J(d))
	}

	cacheKind := r.Intn(3)

	return func() []act {
		s := newStage()
		bld := verifiable.NewCredentialSchemaLoaderBuilder().SetSchemaDownloadClient(&http.Client{Transport: &listSite{docs: docs}})

		var cache *verifiable.ExpirableSchemaCache

		if cacheKind > 0 {
			cache = verifiable.NewExpirableSchemaCache([]int{0, 1, 32 << 20}[cacheKind], hour)
			bld = bld.SetCache(cache)
		}

		opts := spare(verifiable.WithDisabledProofCheck(), verifiable.WithDisabledRelatedResourceCheck(), verifiable.WithJSONLDDocumentLoader(s.loader), verifiable.WithCredentialSchemaLoader(bld.Build()))

		var acts []act

		for _, b := range creds {
			b := b
			vc := mustParse(s, b)
			acts = append(acts, act{"Parse(custom schema)", func() string { return vcDig(verifiable.ParseCredential(b, opts...)) }},
				act{"Validate(custom schema)", func() string { return ver(vc.ValidateCredential(opts...)) }})
		}

		if cache != nil {
			acts = append(acts, act{"cache.Put+Get", func() string {
				cache.Put("own", []byte("value"))
				b, ok := cache.Get("own")

				if !ok { // evicted: allowed
					return "ok"
				}

				return map[bool]string{true: "ok", false: "wrong " + string(b)}[string(b) == "value"]
			}})
		}

		return acts
	}
}

// ---- related resources ----

func relatedScene(r *rand.Rand) scene {
	pages := map[string][]byte{}

	var creds [][]byte

	for i := 0; i < 3; i++ {
		u := fmt.Sprintf("https://res.example/%d", i)
		pages[u] = []byte(vh.SafeStr(r) + "content")

		h := crypto.SHA256.New()
		h.Write(pages[u])

		if r.Intn(3) == 0 {
			h.Write([]byte("x"))
		}

		m, _ := multibase.Encode(multibase.Base64url, append([]byte{0x12, 0x20}, h.Sum(nil)...))

		if r.Intn(6) == 0 {
			delete(pages, u)
		}

		creds = append(creds, vh.J(M{"@context": L{vh.CtxV2}, "id": "urn:vc", "type": L{"VerifiableCredential"}, "issuer": w.Ents["issuer"].DID,
			"credentialSubject": M{"id": "did:s", "name": "n"}, "relatedResource": L{M{"id": u, "digestMultibase": m}}}))
	}

	size := vh.Pick(r, 1, 50)

	return func() []act {
		s := newStage()
		v := verifiable.NewRelatedResourceValidator(verifiable.WithHTTPClient(&listSite{docs: pages}),
			verifiable.WithCache(expirable.NewLRU[string, *verifiable.CachedResource](size, nil, hour)))

		var (
			acts []act
			all  []*verifiable.Credential
		)

		for _, b := range creds {
			vc := mustParse(s, b)
			all = append(all, vc)
			acts = append(acts, act{"related.Validate", func() string { return ver(v.Validate([]*verifiable.Credential{vc})) }})
		}

		all = spare(all...)
		acts = append(acts, act{"related.Validate(all)", func() string { return ver(v.Validate(all)) }})

		return acts
	}
}

func storeScene(r *rand.Rand) scene {
	return func() []act {
		p := mem.NewProvider()

		st, err := p.OpenStore("s")
		if err != nil {
			panic("vh-fixture " + err.Error())
		}

		_ = st.Put("fixed", []byte("value"), spi.Tag{Name: "t", Value: "v"})

		return []act{
			{"store.Put+Get", func() string {
				if err := st.Put("k", []byte("v"), spi.Tag{Name: "own"}); err != nil {
					return "error"
				}

				b, err := st.Get("k")

				return dig(string(b), err)
			}},
			{"store.Get", func() string { b, err := st.Get("fixed"); return dig(string(b), err) }},
			{"store.Query", func() string {
				it, err := st.Query("t:v")
				if err != nil {
					return "error"
				}

				n := 0
				for ok, err := it.Next(); ok && err == nil; ok, err = it.Next() {
					n++
				}

				return fmt.Sprint(n)
			}},
			{"store.OpenStore", func() string { _, err := p.OpenStore("s"); return ver(err) }},
			{"store.SetStoreConfig", func() string {
				return ver(p.SetStoreConfig("s", spi.StoreConfiguration{TagNames: spare("t", "own")}))
			}},
			{"store.GetStoreConfig", func() string { _, err := p.GetStoreConfig("nothing"); return ver(err) }},
		}
	}
}

// didDocScene: proofs on DID documents.
func didDocScene(r *rand.Rand) scene {
	iss := w.Ents["issuer"]
	lc := w.LDContext(r, iss, vh.LDSuites[0])

	if lc.Created == nil {
		t := utc(1600000000)
		lc.Created = &t
	}

	return func() []act {
		s := newStage()

		doc, err := did.ParseDocument(vh.J(M{"@context": L{"https://w3id.org/did/v1", "https://w3id.org/security/v2"}, "id": "did:test:doc",
			"verificationMethod": L{M{"id": "did:test:doc#k", "type": "Ed25519VerificationKey2018", "controller": "did:test:doc", "publicKeyBase58": "GUXiqNHCdirb6NKpH6wYG4px3YfMjiCh6dQhU3zxQVQ7"}}}))
		if err != nil {
			panic("vh-fixture " + err.Error())
		}

		ctx := *lc
		opts := spare(verifiable.WithDIDProofChecker(s.checker), verifiable.WithDIDJSONLDDocumentLoader(s.loader))

		signed, err := verifiable.AddDIDLinkedDataProof(doc, &ctx, processor.WithDocumentLoader(s.loader))
		if err != nil {
			panic("vh-fixture " + err.Error())
		}

		return []act{
			{"VerifyDIDProof", func() string { return ver(verifiable.VerifyDIDProof(signed, opts...)) }},
			{"AddDIDLinkedDataProof", func() string {
				d, err := verifiable.AddDIDLinkedDataProof(doc, &ctx, processor.WithDocumentLoader(s.loader))
				if err != nil {
					return "error"
				}

				return ver(verifiable.VerifyDIDProof(d, opts...))
			}},
		}
	}
}
