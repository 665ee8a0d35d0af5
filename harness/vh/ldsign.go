package vh

import (
	"fmt"
	"math/rand"
	"time"

	"github.com/trustbloc/bbs-signature-go/bbs12381g2pub"
	ldprocessor "github.com/trustbloc/did-go/doc/ld/processor"
	ldproof "github.com/trustbloc/did-go/doc/ld/proof"

	"github.com/trustbloc/vc-go/verifiable"
	"github.com/trustbloc/vc-go/verifiable/lddocument"
)

// LDSuite is one way of making a linked-data proof: proof type, key algorithm and verification method.
type LDSuite struct {
	Type string
	Alg  string
	VM   string // fragment of a special verification method, empty: the JsonWebKey2020 one
}

// LDSuites lists the supported combinations; PrepareLD has to have been called on the signer.
var LDSuites = []LDSuite{
	{"Ed25519Signature2018", "EdDSA", ""}, {"Ed25519Signature2018", "EdDSA", "ed2018"},
	{"Ed25519Signature2020", "EdDSA", ""}, {"Ed25519Signature2020", "EdDSA", "ed2018"},
	{"Ed25519Signature2020", "EdDSA", "ed2020"},
	{"EcdsaSecp256k1Signature2019", "ES256K", "secp2019"},
	{"JsonWebSignature2020", "EdDSA", ""}, {"JsonWebSignature2020", "ES256", ""}, {"JsonWebSignature2020", "ES384", ""},
	{"JsonWebSignature2020", "ES256K", ""}, {"JsonWebSignature2020", "ES521", ""}, {"JsonWebSignature2020", "PS256", ""},
	{"BbsBlsSignature2020", "BBS", ""},
}

// PrepareLD adds the verification methods of the typed suites.
func (w *World) PrepareLD() {
	for _, e := range w.Ents {
		w.AddVM(e, "EdDSA", "ed2018", "Ed25519VerificationKey2018")
		w.AddVM(e, "EdDSA", "ed2020", "Ed25519VerificationKey2020")
		w.AddVM(e, "ES256K", "secp2019", "EcdsaSecp256k1VerificationKey2019")
	}
}

// VMID is the verification method id of a suite for an entity.
func (s LDSuite) VMID(e *Entity) string {
	if s.VM != "" {
		return e.DID + "#" + s.VM
	}

	return e.Keys[s.Alg].ID
}

// LDContext makes signing options for a suite.
func (w *World) LDContext(r *rand.Rand, e *Entity, s LDSuite) *verifiable.LinkedDataProofContext {
	k := e.Keys[s.Alg]

	lc := &verifiable.LinkedDataProofContext{
		SignatureType: s.Type, ProofCreator: w.Creator(e), KeyType: k.KMS, VerificationMethod: s.VMID(e),
	}

	if s.Type == "JsonWebSignature2020" {
		lc.ProofCreator = JWS2020Creator(k)
	}

	if s.Type != "BbsBlsSignature2020" && s.Type != "Ed25519Signature2020" && r.Intn(2) == 0 {
		lc.SignatureRepresentation = verifiable.SignatureJWS
	}

	if r.Intn(4) != 0 {
		t := time.Unix(1500000000+r.Int63n(200000000), 0).UTC()
		lc.Created = &t
	}

	if r.Intn(2) == 0 {
		lc.Challenge = "chal-" + SafeStr(r)
	}

	if r.Intn(2) == 0 {
		lc.Domain = "https://" + SafeStr(r) + ".example"
	}

	if r.Intn(2) == 0 {
		lc.Purpose = Pick(r, "assertionMethod", "authentication")
	}

	return lc
}

// LDSign adds a linked-data proof to a credential document using the code under test, on a private copy.
func (w *World) LDSign(doc map[string]interface{}, lc *verifiable.LinkedDataProofContext) (map[string]interface{}, error) {
	vc, err := verifiable.ParseCredential(J(doc), verifiable.WithDisabledProofCheck(),
		verifiable.WithCredDisableValidation(), verifiable.WithJSONLDDocumentLoader(w.Loader))
	if err != nil {
		panic(fmt.Sprintf("vh-fixture parse for signing: %v: %s", err, J(doc)))
	}

	if err := vc.AddLinkedDataProof(lc, ldprocessor.WithDocumentLoader(w.Loader)); err != nil {
		return nil, err
	}

	b, err := vc.MarshalJSON()
	if err != nil {
		return nil, err
	}

	return M(b), nil
}

// LDSignCreator adds a proof that names its key in "creator", as older proofs do; vm is its verificationMethod, or empty.
func (w *World) LDSignCreator(doc map[string]interface{}, lc *verifiable.LinkedDataProofContext, creator, vm string) (map[string]interface{}, error) {
	d := CloneM(doc)

	err := lddocument.NewDocumentSigner(lc.ProofCreator).Sign(&lddocument.SigningContext{
		SignatureType: lc.SignatureType, Creator: creator, KeyType: lc.KeyType, SignatureRepresentation: ldproof.SignatureRepresentation(lc.SignatureRepresentation),
		Created: lc.Created, Domain: lc.Domain, VerificationMethod: vm, Challenge: lc.Challenge, Purpose: lc.Purpose,
	}, d, ldprocessor.WithDocumentLoader(w.Loader))
	if err != nil {
		return nil, err
	}

	return M(J(d)), nil
}

// Proofs gives the proofs of a document as a list of objects (shared with the document).
func Proofs(doc map[string]interface{}) []map[string]interface{} {
	var out []map[string]interface{}

	switch p := doc["proof"].(type) {
	case map[string]interface{}:
		out = append(out, p)
	case []interface{}:
		for _, e := range p {
			if m, ok := e.(map[string]interface{}); ok {
				out = append(out, m)
			}
		}
	}

	return out
}

// Shuffled serialises a JSON value with random member order and white space.
func Shuffled(r *rand.Rand, v interface{}) []byte {
	sp := func() string { return Pick(r, "", "", " ", "\n", "\t ", "  ") }

	switch x := v.(type) {
	case map[string]interface{}:
		ks := SortedKeys(x)
		r.Shuffle(len(ks), func(i, j int) { ks[i], ks[j] = ks[j], ks[i] })

		s := "{" + sp()
		for i, k := range ks {
			if i > 0 {
				s += "," + sp()
			}

			s += string(J(k)) + sp() + ":" + sp() + string(Shuffled(r, x[k])) + sp()
		}

		return []byte(s + "}")
	case []interface{}:
		s := "[" + sp()
		for i, e := range x {
			if i > 0 {
				s += sp() + "," + sp()
			}

			s += string(Shuffled(r, e))
		}

		return []byte(s + sp() + "]")
	default:
		return J(v)
	}
}

// BBSProofCreator derives BBS+ proofs from credentials of registered issuers.
func (w *World) BBSProofCreator(_ *Entity) *verifiable.BBSProofCreator {
	return &verifiable.BBSProofCreator{ProofDerivation: bbs12381g2pub.New(), VerificationMethodResolver: w.Resolver}
}
