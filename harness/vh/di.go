package vh

import (
	"crypto"
	"crypto/ecdsa"
	"crypto/elliptic"
	"errors"
	"fmt"
	"math/rand"
	"time"

	"github.com/trustbloc/did-go/doc/did"
	"github.com/trustbloc/kms-go/doc/jose/jwk"
	wrapperapi "github.com/trustbloc/kms-go/wrapper/api"

	"github.com/trustbloc/vc-go/dataintegrity"
	"github.com/trustbloc/vc-go/dataintegrity/models"
	"github.com/trustbloc/vc-go/dataintegrity/suite/ecdsa2019"
	"github.com/trustbloc/vc-go/dataintegrity/suite/eddsa2022"
)

// DISuite is one way of making a Data Integrity proof.
type DISuite struct {
	Suite string
	Alg   string
	VM    string // fragment; empty: the JsonWebKey2020 one
}

// DISuites lists supported combinations; PrepareDI has to have been called.
var DISuites = []DISuite{
	{"ecdsa-2019", "ES256", ""}, {"ecdsa-2019", "ES384", ""}, {"ecdsa-rdfc-2019", "ES256", ""}, {"ecdsa-rdfc-2019", "ES384", ""},
	{"ecdsa-rdfc-2019", "ES256", "mk256"}, {"ecdsa-rdfc-2019", "ES384", "mk384"}, {"ecdsa-2019", "ES256", "mk256"},
	{"ecdsa-rdfc-2019", "ES256", "xy256"}, {"ecdsa-2019", "ES384", "xy384"},
	{"eddsa-rdfc-2022", "EdDSA", ""}, {"eddsa-2022", "EdDSA", ""}, {"eddsa-rdfc-2022", "EdDSA", "edbytes"},
}

// VMID is the verification method id of a suite for an entity.
func (s DISuite) VMID(e *Entity) string {
	if s.VM != "" {
		return e.DID + "#" + s.VM
	}

	return e.Keys[s.Alg].ID
}

// AddBytesVM lists a method with raw bytes under the given relationships.
func (w *World) AddBytesVM(e *Entity, id, typ string, val []byte, rels ...did.VerificationRelationship) {
	vm := did.NewVerificationMethodFromBytes(e.DID+"#"+id, typ, e.DID, val)
	w.relate(e, vm, rels...)
}

// AddJWKVM lists a JsonWebKey2020 method for a key under the given relationships (none: general only).
func (w *World) AddJWKVM(e *Entity, id string, k *Key, rels ...did.VerificationRelationship) *Key {
	kk := *k
	kk.ID = e.DID + "#" + id

	vm, err := did.NewVerificationMethodFromJWK(kk.ID, "JsonWebKey2020", e.DID, kk.JWK)
	if err != nil {
		fixtureFail("vm", err)
	}

	w.relate(e, vm, rels...)

	return &kk
}

func (w *World) relate(e *Entity, vm *did.VerificationMethod, rels ...did.VerificationRelationship) {
	doc := w.Docs[e.DID]

	if len(rels) == 0 {
		doc.VerificationMethod = append(doc.VerificationMethod, *vm)
	}

	for _, rel := range rels {
		v := *did.NewEmbeddedVerification(vm, rel)

		switch rel {
		case did.AssertionMethod:
			doc.AssertionMethod = append(doc.AssertionMethod, v)
		case did.Authentication:
			doc.Authentication = append(doc.Authentication, v)
		case did.CapabilityDelegation:
			doc.CapabilityDelegation = append(doc.CapabilityDelegation, v)
		case did.CapabilityInvocation:
			doc.CapabilityInvocation = append(doc.CapabilityInvocation, v)
		case did.KeyAgreement:
			doc.KeyAgreement = append(doc.KeyAgreement, v)
		}
	}
}

// PrepareDI adds Multikey and raw-bytes methods.
func (w *World) PrepareDI() {
	for _, e := range w.Ents {
		for _, x := range []struct {
			alg, id string
			hdr     []byte
		}{{"ES256", "mk256", []byte{0x80, 0x24}}, {"ES384", "mk384", []byte{0x81, 0x24}}} {
			p := e.Keys[x.alg].Pub.(*ecdsa.PublicKey)
			w.AddBytesVM(e, x.id, "Multikey", append(append([]byte{}, x.hdr...), elliptic.MarshalCompressed(p.Curve, p.X, p.Y)...),
				did.AssertionMethod, did.Authentication)

			// the two coordinates as they are
			w.AddBytesVM(e, "xy"+x.id[2:], "Multikey", append([]byte{0x12, x.hdr[0] & 1}, elliptic.Marshal(p.Curve, p.X, p.Y)[1:]...),
				did.AssertionMethod, did.Authentication)
		}

		w.AddBytesVM(e, "edbytes", "Ed25519VerificationKey2020", e.Keys["EdDSA"].Bytes, did.AssertionMethod, did.Authentication)
	}
}

// DISigner makes a Data Integrity signer that signs with exactly this key, whatever method is named.
func (w *World) DISigner(k *Key) *dataintegrity.Signer {
	s, err := dataintegrity.NewSigner(&dataintegrity.Options{DIDResolver: w},
		ecdsa2019.NewSignerInitializer(&ecdsa2019.SignerInitializerOptions{LDDocumentLoader: w.Loader,
			SignerGetter: func(*jwk.JWK) (ecdsa2019.Signer, error) { return k, nil }}),
		eddsa2022.NewSignerInitializer(&eddsa2022.SignerInitializerOptions{LDDocumentLoader: w.Loader,
			SignerGetter: func(*jwk.JWK) (eddsa2022.Signer, error) { return k, nil }}))
	if err != nil {
		fixtureFail("di signer", err)
	}

	return s
}

// DIVerifier makes a Data Integrity verifier over the registry.
func (w *World) DIVerifier() *dataintegrity.Verifier {
	v, err := dataintegrity.NewVerifier(&dataintegrity.Options{DIDResolver: w},
		ecdsa2019.NewVerifierInitializer(&ecdsa2019.VerifierInitializerOptions{LDDocumentLoader: w.Loader}),
		eddsa2022.NewVerifierInitializer(&eddsa2022.VerifierInitializerOptions{LDDocumentLoader: w.Loader}))
	if err != nil {
		fixtureFail("di verifier", err)
	}

	return v
}

// DIOpts makes random signing options.
func (w *World) DIOpts(r *rand.Rand, e *Entity, s DISuite) *models.ProofOptions {
	o := &models.ProofOptions{Purpose: Pick(r, "assertionMethod", "assertionMethod", "authentication"), VerificationMethodID: s.VMID(e),
		ProofType: models.DataIntegrityProof, SuiteType: s.Suite,
		Created: time.Unix(1500000000+r.Int63n(200000000), 0).UTC()}

	if r.Intn(4) == 0 {
		o.Created = o.Created.In(time.FixedZone("", 3600*(r.Intn(20)-10)))
	}

	if r.Intn(3) == 0 {
		o.Expires = time.Unix(4000000000+r.Int63n(1000000), 0).UTC()
	}

	if r.Intn(2) == 0 {
		o.Domain = "https://" + SafeStr(r) + ".example"
	}

	if r.Intn(2) == 0 {
		o.Challenge = "chal-" + SafeStr(r)
	}

	return o
}

// DISign adds a Data Integrity proof with the entity's own key for the suite.
func (w *World) DISign(doc map[string]interface{}, e *Entity, s DISuite, o *models.ProofOptions) map[string]interface{} {
	out, err := w.DISigner(e.Keys[s.Alg]).AddProof(J(doc), o)
	if err != nil {
		panic(fmt.Sprintf("AddProof %s %s: %v", s.Suite, s.Alg, err))
	}

	return M(out)
}

// wallet signs with the key it is shown the public half of.
type wallet struct{ w *World }

func (x wallet) find(pub *jwk.JWK) (*Key, error) {
	for _, n := range SortedKeys(x.w.Ents) {
		e := x.w.Ents[n]

		for _, a := range SortedKeys(e.Keys) {
			if p, ok := e.Keys[a].Pub.(interface{ Equal(crypto.PublicKey) bool }); ok && pub != nil && pub.Key != nil && p.Equal(pub.Key) {
				return e.Keys[a], nil
			}
		}
	}

	return nil, errors.New("wallet: no such key")
}

func (x wallet) Sign(msg []byte, pub *jwk.JWK) ([]byte, error) {
	k, err := x.find(pub)
	if err != nil {
		return nil, err
	}

	return k.Sign(msg)
}

// FixedKeySigner needs a key, as the one of kms-go does.
func (x wallet) FixedKeySigner(pub *jwk.JWK) (wrapperapi.FixedKeySigner, error) {
	_ = pub.KeyID

	return x.find(pub)
}

// DIWallet makes a Data Integrity signer that holds every key of the world and has to pick the right one.
func (w *World) DIWallet() *dataintegrity.Signer {
	s, err := dataintegrity.NewSigner(&dataintegrity.Options{DIDResolver: w},
		ecdsa2019.NewSignerInitializer(&ecdsa2019.SignerInitializerOptions{LDDocumentLoader: w.Loader, SignerGetter: ecdsa2019.WithKMSCryptoWrapper(wallet{w})}),
		eddsa2022.NewSignerInitializer(&eddsa2022.SignerInitializerOptions{LDDocumentLoader: w.Loader, SignerGetter: eddsa2022.WithKMSCryptoWrapper(wallet{w})}))
	if err != nil {
		fixtureFail("di wallet", err)
	}

	return s
}

// DIStatic is DISigner by the suites' own static getter.
func (w *World) DIStatic(k *Key) *dataintegrity.Signer {
	s, err := dataintegrity.NewSigner(&dataintegrity.Options{DIDResolver: w},
		ecdsa2019.NewSignerInitializer(&ecdsa2019.SignerInitializerOptions{LDDocumentLoader: w.Loader, SignerGetter: ecdsa2019.WithStaticSigner(k)}),
		eddsa2022.NewSignerInitializer(&eddsa2022.SignerInitializerOptions{LDDocumentLoader: w.Loader, SignerGetter: eddsa2022.WithStaticSigner(k)}))
	if err != nil {
		fixtureFail("di static", err)
	}

	return s
}
