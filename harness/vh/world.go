package vh

import (
	"bytes"
	"encoding/json"
	"fmt"
	"strings"
	"sync"

	"github.com/piprate/json-gold/ld"
	"github.com/trustbloc/bbs-signature-go/bbs12381g2pub"
	"github.com/trustbloc/did-go/doc/did"
	"github.com/trustbloc/did-go/doc/ld/context/embed"
	"github.com/trustbloc/did-go/doc/ld/testutil"
	vdrapi "github.com/trustbloc/did-go/vdr/api"

	"github.com/trustbloc/vc-go/proof/checker"
	"github.com/trustbloc/vc-go/proof/creator"
	"github.com/trustbloc/vc-go/proof/defaults"
	"github.com/trustbloc/vc-go/proof/jwtproofs/eddsa"
	"github.com/trustbloc/vc-go/proof/jwtproofs/es256"
	"github.com/trustbloc/vc-go/proof/jwtproofs/es256k"
	"github.com/trustbloc/vc-go/proof/jwtproofs/es384"
	"github.com/trustbloc/vc-go/proof/jwtproofs/es521"
	"github.com/trustbloc/vc-go/proof/jwtproofs/ps256"
	"github.com/trustbloc/vc-go/proof/jwtproofs/rs256"
	"github.com/trustbloc/vc-go/proof/ldproofs/bbsblssignature2020"
	"github.com/trustbloc/vc-go/proof/ldproofs/ecdsasecp256k1signature2019"
	"github.com/trustbloc/vc-go/proof/ldproofs/ed25519signature2018"
	"github.com/trustbloc/vc-go/proof/ldproofs/ed25519signature2020"
	"github.com/trustbloc/vc-go/proof/ldproofs/jsonwebsignature2020"
	"github.com/trustbloc/vc-go/vermethod"
)

func (k *Key) signBBS(msg []byte) ([]byte, error) {
	var lines [][]byte
	for _, row := range strings.Split(string(msg), "\n") {
		if strings.TrimSpace(row) != "" {
			lines = append(lines, []byte(row))
		}
	}

	b, err := k.Priv.(*bbs12381g2pub.PrivateKey).Marshal()
	if err != nil {
		return nil, err
	}

	// the library now and then makes a signature that it does not verify itself
	for i := 0; ; i++ {
		sig, err := bbs12381g2pub.New().Sign(lines, b)
		if err != nil || i == 20 || bbs12381g2pub.New().Verify(lines, sig, k.Bytes) == nil {
			return sig, err
		}
	}
}

// Contexts of the fixtures.
const (
	CtxV1    = "https://www.w3.org/2018/credentials/v1"
	CtxV2    = "https://www.w3.org/ns/credentials/v2"
	CtxEx1   = "https://www.w3.org/2018/credentials/examples/v1"
	CtxVerif = "https://verif.example/ctx/v1" // @vocab: every term is mapped
	CtxDI    = "https://w3id.org/security/data-integrity/v2"
	CtxBBS   = "https://w3id.org/security/bbs/v1"
	CtxPE    = "https://identity.foundation/presentation-exchange/submission/v1"

	CtxDIDConf = "https://identity.foundation/.well-known/did-configuration/v1"
)

// Entity is a DID with its keys.
type Entity struct {
	DID  string
	Keys map[string]*Key // by algorithm
	KA   *Key            // key only usable for key agreement
	Gen  *Key            // key listed only as general verification method
	Auth *Key            // key listed only for authentication
}

// World holds DIDs, resolver, checker, JSON-LD loader.
type World struct {
	Ents     map[string]*Entity
	mu       sync.RWMutex
	Docs     map[string]*did.Doc
	Checker  *checker.ProofChecker
	Resolver *vermethod.VDRResolver
	Loader   ld.DocumentLoader
}

// AllAlgs are the algorithms every entity has a key of.
var AllAlgs = []string{"EdDSA", "ES256", "ES384", "ES521", "ES256K", "RS256", "PS256", "BBS"}

// NewWorld makes a registry with the named entities.
func NewWorld(names ...string) *World {
	w := &World{Ents: map[string]*Entity{}, Docs: map[string]*did.Doc{}, Loader: NewLoader()}
	w.Resolver = vermethod.NewVDRResolver(w)
	w.Checker = defaults.NewDefaultProofChecker(w.Resolver)

	for _, n := range names {
		w.AddEntity(n)
	}

	return w
}

func vmFor(k *Key, typ, didID string) did.VerificationMethod {
	if typ == "JsonWebKey2020" {
		vm, err := did.NewVerificationMethodFromJWK(k.ID, typ, didID, k.JWK)
		if err != nil {
			fixtureFail("vm", err)
		}

		return *vm
	}

	return *did.NewVerificationMethodFromBytes(k.ID, typ, didID, k.Bytes)
}

// AddEntity makes the DID did:verif:<name> with one JsonWebKey2020 method per algorithm plus typed variants.
func (w *World) AddEntity(name string) *Entity {
	e := &Entity{DID: "did:verif:" + name, Keys: map[string]*Key{}}
	doc := &did.Doc{Context: []string{"https://www.w3.org/ns/did/v1"}, ID: e.DID}

	for _, a := range AllAlgs {
		k := NewKey(a, name+"/"+a)
		k.ID = e.DID + "#" + strings.ToLower(a)
		e.Keys[a] = k

		typ := "JsonWebKey2020"
		if a == "BBS" {
			typ = "Bls12381G2Key2020"
		}

		vm := vmFor(k, typ, e.DID)
		doc.VerificationMethod = append(doc.VerificationMethod, vm)
		doc.AssertionMethod = append(doc.AssertionMethod, *did.NewReferencedVerification(&vm, did.AssertionMethod))
		doc.Authentication = append(doc.Authentication, *did.NewReferencedVerification(&vm, did.Authentication))
	}

	special := func(id string) *Key {
		k := NewKey("EdDSA", name+"/"+id)
		k.ID = e.DID + "#" + id

		return k
	}

	e.KA, e.Gen, e.Auth = special("ka-only"), special("general-only"), special("auth-only")

	// did-go lists KeyAgreement entries separately; the method is embedded there and nowhere else.
	kvm := vmFor(e.KA, "JsonWebKey2020", e.DID)
	doc.KeyAgreement = append(doc.KeyAgreement, *did.NewEmbeddedVerification(&kvm, did.KeyAgreement))

	gvm := vmFor(e.Gen, "JsonWebKey2020", e.DID)
	doc.VerificationMethod = append(doc.VerificationMethod, gvm)

	avm := vmFor(e.Auth, "JsonWebKey2020", e.DID)
	doc.Authentication = append(doc.Authentication, *did.NewEmbeddedVerification(&avm, did.Authentication))

	w.mu.Lock()
	w.Ents[name] = e
	w.Docs[e.DID] = doc
	w.mu.Unlock()

	return e
}

// AddVM adds another verification method for a key of an entity (same key, other representation).
func (w *World) AddVM(e *Entity, alg, id, typ string) *Key {
	k := *e.Keys[alg]
	k.ID = e.DID + "#" + id
	vm := vmFor(&k, typ, e.DID)
	doc := w.Docs[e.DID]
	doc.VerificationMethod = append(doc.VerificationMethod, vm)
	doc.AssertionMethod = append(doc.AssertionMethod, *did.NewReferencedVerification(&vm, did.AssertionMethod))
	doc.Authentication = append(doc.Authentication, *did.NewReferencedVerification(&vm, did.Authentication))

	return &k
}

// Resolve implements the DID resolver the code under test is given.
func (w *World) Resolve(id string, _ ...vdrapi.DIDMethodOption) (*did.DocResolution, error) {
	w.mu.RLock()
	defer w.mu.RUnlock()

	d, ok := w.Docs[id]
	if !ok {
		return nil, fmt.Errorf("did %q not found", id)
	}

	return &did.DocResolution{DIDDocument: d}, nil
}

// Creator gives the code under test's proof creator around the keys of an entity.
func (w *World) Creator(e *Entity) *creator.ProofCreator {
	return creator.New(
		creator.WithJWTAlg(eddsa.New(), e.Keys["EdDSA"]),
		creator.WithJWTAlg(es256.New(), e.Keys["ES256"]),
		creator.WithJWTAlg(es384.New(), e.Keys["ES384"]),
		creator.WithJWTAlg(es521.New(), e.Keys["ES521"]),
		creator.WithJWTAlg(es256k.New(), e.Keys["ES256K"]),
		creator.WithJWTAlg(rs256.New(), e.Keys["RS256"]),
		creator.WithJWTAlg(ps256.New(), e.Keys["PS256"]),
		creator.WithLDProofType(ed25519signature2018.New(), e.Keys["EdDSA"]),
		creator.WithLDProofType(ed25519signature2020.New(), e.Keys["EdDSA"]),
		creator.WithLDProofType(ecdsasecp256k1signature2019.New(), e.Keys["ES256K"]),
		creator.WithLDProofType(bbsblssignature2020.New(), e.Keys["BBS"]),
	)
}

// JWS2020Creator is a creator whose JsonWebSignature2020 proofs use the given key.
func JWS2020Creator(k *Key) *creator.ProofCreator {
	return creator.New(
		creator.WithLDProofType(jsonwebsignature2020.New(), k),
		creator.WithJWTAlg(eddsa.New(), k), creator.WithJWTAlg(es256.New(), k), creator.WithJWTAlg(es384.New(), k),
		creator.WithJWTAlg(es521.New(), k), creator.WithJWTAlg(es256k.New(), k), creator.WithJWTAlg(rs256.New(), k),
		creator.WithJWTAlg(ps256.New(), k),
	)
}

type loader struct {
	docs map[string][]byte
}

const verifCtx = `{"@context":{"@version":1.1,"@vocab":"https://verif.example/vocab#"}}`

const didConfCtx = `{"@context":[{"@version":1.1,"@protected":true,
"LinkedDomains":"https://identity.foundation/.well-known/resources/did-configuration/#LinkedDomains",
"DomainLinkageCredential":"https://identity.foundation/.well-known/resources/did-configuration/#DomainLinkageCredential",
"origin":"https://identity.foundation/.well-known/resources/did-configuration/#origin",
"linked_dids":"https://identity.foundation/.well-known/resources/did-configuration/#linked_dids"}]}`

// NewLoader is a goroutine-safe JSON-LD document loader over the embedded contexts; every call gives a fresh document.
func NewLoader() ld.DocumentLoader {
	base, err := testutil.DocumentLoader()
	if err != nil {
		fixtureFail("loader", err)
	}

	l := &loader{docs: map[string][]byte{CtxVerif: []byte(verifCtx), CtxDIDConf: []byte(didConfCtx)}}

	for _, u := range ContextURLs() {
		d, err := base.LoadDocument(u)
		if err != nil {
			fixtureFail("load "+u, err)
		}

		l.docs[u] = J(d.Document)
	}

	return l
}

// LoadDocument implements ld.DocumentLoader.
func (l *loader) LoadDocument(u string) (*ld.RemoteDocument, error) {
	b, ok := l.docs[u]
	if !ok {
		return nil, ld.NewJsonLdError(ld.LoadingDocumentFailed, "unknown context "+u)
	}

	var doc interface{}

	d := json.NewDecoder(bytes.NewReader(b))
	if err := d.Decode(&doc); err != nil {
		return nil, ld.NewJsonLdError(ld.LoadingDocumentFailed, err)
	}

	return &ld.RemoteDocument{DocumentURL: u, Document: doc}, nil
}

// ContextURLs lists the embedded JSON-LD contexts.
func ContextURLs() []string {
	var out []string

	for _, d := range embed.Contexts {
		out = append(out, d.URL)
	}

	for _, d := range testutil.Contexts() {
		out = append(out, d.URL)
	}

	return out
}
