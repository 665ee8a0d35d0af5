package main

import (
	"encoding/base64"
	"encoding/json"
	"fmt"
	"math/rand"
	"sort"
	"strings"
	"sync"

	"github.com/trustbloc/kms-go/spi/kms"

	"github.com/trustbloc/vc-go/verifharness/vh"
	"github.com/trustbloc/vc-go/verifiable"
)

var keyTypeAlg = map[kms.KeyType]string{
	kms.ED25519Type:      "EdDSA",
	kms.ECDSAP256TypeDER: "ES256", kms.ECDSAP256TypeIEEEP1363: "ES256",
	kms.ECDSAP384TypeDER: "ES384", kms.ECDSAP384TypeIEEEP1363: "ES384",
	kms.ECDSAP521TypeDER: "ES521", kms.ECDSAP521TypeIEEEP1363: "ES521",
	kms.ECDSASecp256k1TypeDER: "ES256K", kms.ECDSASecp256k1TypeIEEEP1363: "ES256K",
	kms.RSARS256Type: "RS256", kms.RSAPS256Type: "PS256",
}

// foreignTypes are kinds of keys that sign neither JWT nor CWT, and names that are no kind of key.
var foreignTypes = []kms.KeyType{
	kms.AES128GCMType, kms.AES256GCMNoPrefixType, kms.AES256GCMType, kms.ChaCha20Poly1305Type, kms.XChaCha20Poly1305Type, kms.HMACSHA256Tag256Type,
	kms.NISTP256ECDHKWType, kms.NISTP384ECDHKWType, kms.NISTP521ECDHKWType, kms.X25519ECDHKWType, kms.BLS12381G2Type, kms.CLCredDefType, kms.CLMasterSecretType,
	"", "ed25519", "ED25519ph", "ECDSAP256", "RSA", "ECDSASecp256k1",
}

var (
	ktWorld *vh.World
	ktOnce  sync.Once
)

// keyTypes: the algorithm a user gets for a kind of key makes signatures that verify with keys of that kind, and there is
// none for other kinds.
func keyTypes(c *vh.Check, r *rand.Rand, i int) {
	ktOnce.Do(func() { ktWorld = vh.NewWorld("issuer") })

	w := ktWorld
	iss := w.Ents["issuer"]

	if i%2 == 1 {
		kt := foreignTypes[(i/2)%len(foreignTypes)]
		ja, err1 := verifiable.KeyTypeToJWSAlgo(kt)
		ca, err2 := verifiable.KeyTypeToCWSAlgo(kt)

		c.Expect(err1 != nil, "keytype/foreign/jws", fmt.Sprintf("a key of type %q signs JWTs with algorithm %v", kt, ja), M{"type": string(kt)})
		c.Expect(err2 != nil, "keytype/foreign/cws", fmt.Sprintf("a key of type %q signs CWTs with algorithm %v", kt, ca), M{"type": string(kt)})
		c.Eval("keytype/" + string(kt) + "/refused")
		c.Count("keytype.refused", 1)

		return
	}

	kts := make([]string, 0, len(keyTypeAlg))
	for k := range keyTypeAlg {
		kts = append(kts, string(k))
	}

	sort.Strings(kts)

	kt := kms.KeyType(kts[(i/2)%len(kts)])
	alg := keyTypeAlg[kt]
	k := iss.Keys[alg]
	doc := M{
		"@context": []interface{}{"https://www.w3.org/2018/credentials/v1"}, "type": []interface{}{"VerifiableCredential"}, "id": "urn:verif:" + vh.SafeStr(r),
		"issuer": iss.DID, "issuanceDate": "2020-01-01T00:00:00Z", "credentialSubject": M{"id": "did:verif:subject", "name": vh.SafeStr(r)},
	}
	detail := M{"type": string(kt), "credential": doc}

	vc := w.ParseVC(doc)
	opts := []verifiable.CredentialOpt{verifiable.WithProofChecker(w.Checker), verifiable.WithJSONLDDocumentLoader(w.Loader), verifiable.WithCredDisableValidation()}

	ja, err := verifiable.KeyTypeToJWSAlgo(kt)
	if c.Expect(err == nil, "keytype/jws/none", fmt.Sprintf("no JWS algorithm for keys of type %q: %v", kt, err), detail) {
		signed, err := vc.CreateSignedJWTVC(r.Intn(2) == 0, ja, w.Creator(iss), k.ID)
		if c.Expect(err == nil, "keytype/jws/sign", fmt.Sprintf("%q keys cannot sign with the algorithm for them: %v", kt, err), detail) {
			tok, err := signed.ToJWTString()
			c.Expect(err == nil, "keytype/jws/string", fmt.Sprint(err), detail)

			hdr := map[string]interface{}{}
			b, _ := base64.RawURLEncoding.DecodeString(strings.SplitN(tok, ".", 2)[0])
			_ = json.Unmarshal(b, &hdr)

			c.Expect(hdr["alg"] == alg, "keytype/jws/alg", fmt.Sprintf("%q keys sign as %v", kt, hdr["alg"]), detail)

			_, err = verifiable.ParseCredential([]byte(tok), opts...)
			c.Expect(err == nil, "keytype/jws/verify", fmt.Sprintf("%q: the signature does not verify: %v", kt, err), detail)
			c.Count("keytype.accepted", 1)
		}
	}

	ca, err := verifiable.KeyTypeToCWSAlgo(kt)
	if err != nil {
		// no COSE support for these curves
		c.Expect(alg == "ES521" || alg == "ES256K", "keytype/cws/none", fmt.Sprintf("no COSE algorithm for keys of type %q: %v", kt, err), detail)
		c.Eval("keytype/" + string(kt))

		return
	}

	signed, err := w.ParseVC(doc).CreateSignedCOSEVC(ca, w.Creator(iss), k.ID)
	if c.Expect(err == nil, "keytype/cws/sign", fmt.Sprintf("%q keys cannot sign with the COSE algorithm for them: %v", kt, err), detail) {
		tok, err := signed.MarshalAsCWTLDHex()
		c.Expect(err == nil, "keytype/cws/string", fmt.Sprint(err), detail)

		_, err = verifiable.ParseCredential([]byte(tok), opts...)
		c.Expect(err == nil, "keytype/cws/verify", fmt.Sprintf("%q: the COSE signature does not verify: %v", kt, err), detail)
		c.Count("keytype.accepted", 1)
	}

	c.Eval("keytype/" + string(kt))
}
