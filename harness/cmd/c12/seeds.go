package main

import (
	"bytes"
	"compress/gzip"
	"encoding/hex"
	"fmt"
	"math/rand"
	"strings"

	"github.com/trustbloc/vc-go/sdjwt/common"
	"github.com/trustbloc/vc-go/verifharness/vh"
	"github.com/trustbloc/vc-go/verifiable"
)

const listURL = "https://list.verif.example/1"

func must[T any](v T, err error) T {
	if err != nil {
		panic("vh-fixture: " + err.Error())
	}

	return v
}

func issuer() *vh.Entity { return w.Ents["issuer"] }

// doc is a valid credential with all optional members some of the time.
func doc(r *rand.Rand, v int) M {
	if r.Intn(3) == 0 {
		return vh.Cred(r, vh.CredOpts{V: v, Issuer: issuer().DID, LDSafe: true, OneSubject: r.Intn(2) == 0, NeedID: true})
	}

	d := w.FullDoc(r, v, "json")
	d["issuer"] = issuer().DID

	if r.Intn(3) == 0 {
		d["credentialStatus"] = statusEntry(r, v)
	}

	if r.Intn(4) == 0 {
		d["relatedResource"] = L{M{"id": "https://res.verif.example/a", "digestSRI": "sha256-z47DEQpj8HBSa-_TImW-5JCeuQeRkm5NMpJWZG3hSuFU", "mediaType": "text/plain"}}
	}

	if r.Intn(4) == 0 {
		d["credentialSchema"] = M{"id": "https://schema.verif.example/s.json", "type": "JsonSchemaValidator2018"}
	}

	return d
}

func statusEntry(r *rand.Rand, v int) M {
	if v == 1 || r.Intn(3) == 0 {
		return M{"id": listURL + "#7", "type": "StatusList2021Entry", "statusPurpose": "revocation", "statusListIndex": "7", "statusListCredential": listURL}
	}

	return M{"id": listURL + "#7", "type": "BitstringStatusListEntry", "statusPurpose": "revocation", "statusListIndex": "7", "statusListCredential": listURL}
}

func list(r *rand.Rand, v int) M {
	var buf bytes.Buffer

	z := gzip.NewWriter(&buf)
	_, _ = z.Write(make([]byte, 16+r.Intn(100)))
	_ = z.Close()

	enc := vh.B64(buf.Bytes())
	typ := "StatusList2021"

	if v == 2 {
		typ = "BitstringStatusList"
		enc = "u" + enc
	}

	d := M{"@context": L{vh.CtxV1, "https://w3id.org/vc/status-list/2021/v1"}, "id": listURL, "type": L{"VerifiableCredential", typ + "Credential"}, "issuer": issuer().DID,
		"issuanceDate": "2021-04-05T14:27:40Z", "credentialSubject": M{"id": listURL + "#list", "type": typ, "statusPurpose": "revocation", "encodedList": enc}}
	if v == 2 {
		d["@context"] = L{vh.CtxV2}
		delete(d, "issuanceDate")
	}

	return d
}

// claims wraps a credential as JWT claims.
func claims(r *rand.Rand, d M) M {
	if r.Intn(3) == 0 {
		return d
	}

	return M{"iss": issuer().DID, "sub": "did:verif:holder", "jti": "urn:jti", "nbf": 1600000000, "iat": 1600000000, "exp": 4000000000, "vc": d}
}

func header(k *vh.Key) M { return M{"alg": k.Alg, "kid": k.ID} }

func someKey(r *rand.Rand) *vh.Key {
	return issuer().Keys[vh.Pick(r, "EdDSA", "EdDSA", "ES256", "ES384", "ES521", "ES256K", "RS256", "PS256")]
}

var (
	sdTokens    []string
	combined    []string
	ldDocs      []M
	diDocs      []M
	bbsDocs     []M
	bbsDerived  []M
	validTokens []string
	validCoses  [][]byte
	validJSON   [][]byte
)

// prepare makes valid tokens and signed documents once.
func prepare() {
	r := rand.New(rand.NewSource(7))

	for i := 0; i < 6; i++ {
		v := 1 + i%2
		d := vh.Cred(r, vh.CredOpts{V: v, Issuer: issuer().DID, LDSafe: true, OneSubject: true, NeedID: true})
		alg := vh.AllAlgs[i]
		validTokens = append(validTokens, w.JWTCred(issuer(), alg, d))
		validTokens = append(validTokens, vh.JWS(header(issuer().Keys[alg]), vh.J(M{"iss": issuer().DID, "vp": w.FullVP(r, v, true)}), issuer().Keys[alg]))
		validCoses = append(validCoses, w.CWTCred(issuer(), []string{"EdDSA", "ES256", "ES384", "RS256", "PS256"}[i%5], d))
		d["credentialSubject"] = vh.AsList(d["credentialSubject"])[0]
		sd := w.SDJWTCred(issuer(), "EdDSA", d, verifiable.MakeSDJWTWithVersion([]common.SDJWTVersion{common.SDJWTVersionV2, common.SDJWTVersionV5}[i%2]))
		sdTokens = append(sdTokens, sd)
		validJSON = append(validJSON, vh.J(d), vh.J(w.FullVP(r, v, false)), vh.J(list(r, v)))
	}

	for i, s := range vh.LDSuites {
		for n := 0; n < 2; n++ {
			d := vh.Cred(r, vh.CredOpts{V: 1, Issuer: issuer().DID, LDSafe: true, OneSubject: true, NeedID: true})
			if signed, err := w.LDSign(d, w.LDContext(r, issuer(), s)); err == nil {
				ldDocs = append(ldDocs, signed)
			} else if i >= 0 {
				panic("vh-fixture: " + err.Error())
			}
		}
	}

	for _, s := range vh.DISuites {
		d := vh.Cred(r, vh.CredOpts{V: 2, Issuer: issuer().DID, LDSafe: true, OneSubject: true, NeedID: true})
		d["@context"] = append(vh.AsList(d["@context"]), vh.CtxDI)
		diDocs = append(diDocs, w.DISign(d, issuer(), s, w.DIOpts(r, issuer(), s)))
	}

	bs := vh.BBSSuite()

	for n := 0; n < 3; n++ {
		d := w.BBSDoc(r, issuer().DID)
		if l := vh.AsList(d["credentialSubject"]); len(l) > 1 {
			d["credentialSubject"] = l[0]
		}

		signed := must(w.LDSign(d, w.LDContext(r, issuer(), bs)))
		bbsDocs = append(bbsDocs, signed)

		vc := w.ParseVC(signed)
		fr := M{"@context": d["@context"], "type": "VerifiableCredential", "@explicit": true, "issuer": M{}, "issuanceDate": M{}, "credentialSubject": M{"@explicit": true}}

		if der, err := vc.GenerateBBSSelectiveDisclosure(fr, []byte("nonce"), w.BBSProofCreator(issuer()), verifiable.WithProofChecker(w.Checker), verifiable.WithJSONLDDocumentLoader(w.Loader)); err == nil {
			bbsDerived = append(bbsDerived, vh.M(must(der.MarshalJSON())))
		}
	}

	if len(bbsDerived) == 0 || len(ldDocs) < 10 {
		panic(fmt.Sprintf("vh-fixture: %d derived, %d signed", len(bbsDerived), len(ldDocs)))
	}
}

func envelope(r *rand.Rand, t interface{}) M {
	mt := vh.Pick(r, "application/vc-ld+jwt", "application/vc-ld+sd-jwt", "application/vc-ld+cose", "application/vp-ld+jwt", "application/vp-ld+cose", "application/vc+jwt", "text/plain", "application/vc-ld+jwt;base64")
	s := ""

	switch x := t.(type) {
	case []byte:
		s = hex.EncodeToString(x)
	case string:
		s = x
	}

	return M{"@context": vh.Pick[interface{}](r, vh.CtxV2, L{vh.CtxV2}), "type": vh.Pick[interface{}](r, "EnvelopedVerifiableCredential", "EnvelopedVerifiablePresentation", L{"EnvelopedVerifiableCredential"}), "id": "data:" + mt + "," + s}
}

func comb(parts ...string) string { return strings.Join(parts, "~") }
