package vh

import (
	"encoding/hex"
	"fmt"
	"math/rand"
	"strings"

	"github.com/trustbloc/vc-go/verifiable"
)

// ParseVC parses a credential without any check.
func (w *World) ParseVC(doc interface{}) *verifiable.Credential {
	b, ok := doc.([]byte)
	if s, isStr := doc.(string); isStr {
		b, ok = []byte(s), true
	}

	if !ok {
		b = J(doc)
	}

	vc, err := verifiable.ParseCredential(b, verifiable.WithDisabledProofCheck(), verifiable.WithCredDisableValidation(), verifiable.WithDisabledRelatedResourceCheck(),
		verifiable.WithJSONLDDocumentLoader(w.Loader))
	if err != nil {
		panic(fmt.Sprintf("vh-fixture ParseVC: %v: %s", err, b))
	}

	return vc
}

// JWTCred signs a credential document as JWT, independently of the code under test.
func (w *World) JWTCred(e *Entity, alg string, doc map[string]interface{}) string {
	k := e.Keys[alg]
	return JWS(map[string]interface{}{"alg": alg, "kid": k.ID}, J(map[string]interface{}{"iss": e.DID, "vc": doc}), k)
}

// CWTCred signs a credential document as COSE_Sign1, independently of the code under test.
func (w *World) CWTCred(e *Entity, alg string, doc map[string]interface{}) []byte {
	k := e.Keys[alg]
	return MakeCose(CoseHdr(k), CB(map[string]interface{}{"iss": e.DID, "vc": doc}), k).Bytes()
}

// SDJWTCred makes an SD-JWT credential (by the code under test) in presentation form with all disclosures.
func (w *World) SDJWTCred(e *Entity, alg string, doc map[string]interface{}, o ...verifiable.MakeSDJWTOption) string {
	vc := w.ParseVC(doc)

	s, err := vc.MakeSDJWT(JoseSigner{K: e.Keys[alg]}, e.Keys[alg].ID, o...)
	if err != nil {
		panic(fmt.Sprintf("vh-fixture MakeSDJWT: %v", err))
	}

	return strings.TrimSuffix(s, "~") + "~"
}

// Enveloped wraps a token as an EnvelopedVerifiableCredential.
func Enveloped(mediaType, data string) map[string]interface{} {
	return map[string]interface{}{"@context": CtxV2, "type": "EnvelopedVerifiableCredential", "id": "data:" + mediaType + "," + data}
}

// EmbedForm gives a random embeddable form of a token: the string, or enveloped.
func EmbedForm(r *rand.Rand, kind string, token interface{}, enveloped bool) interface{} {
	switch t := token.(type) {
	case []byte:
		if enveloped {
			return Enveloped("application/vc-ld+cose", hex.EncodeToString(t))
		}

		return hex.EncodeToString(t)
	case string:
		if enveloped {
			return Enveloped(map[string]string{"jwt": "application/vc-ld+jwt", "sdjwt": "application/vc-ld+sd-jwt"}[kind], t)
		}

		return t
	}

	return token
}

// ForeignIssuer names a party none of the known entities is: other DIDs, near misses and issuers that are no DID at all.
func ForeignIssuer(r *rand.Rand) string {
	return Pick(r, "did:verif:nobody", "https://issuer.example/", "http://issuer.example/keys/1", "https://issuer.example/did:verif:alice",
		"urn:uuid:3978344f-8596-4c3a-a978-8fcaba3903c5", "alice", "verif:alice", "did", "did:", "did:verif", "did:other:alice", "DID",
		"example.com", "x:did:verif:alice", "mailto:alice@example.com")
}
