// C24: a key only verifies proofs of its own algorithm, controller and purpose.
package main

import (
	"crypto/rsa"
	"crypto/x509"
	"encoding/hex"
	"errors"
	"fmt"
	"math/rand"
	"sort"
	"strings"
	"sync"

	"github.com/trustbloc/bbs-signature-go/bbs12381g2pub"
	"github.com/trustbloc/did-go/doc/did"
	"github.com/trustbloc/did-go/doc/ld/proof"
	vdrapi "github.com/trustbloc/did-go/vdr/api"
	"github.com/trustbloc/kms-go/doc/jose"
	"github.com/trustbloc/kms-go/doc/jose/jwk"
	"github.com/trustbloc/kms-go/spi/kms"
	"github.com/veraison/go-cose"

	"github.com/trustbloc/vc-go/crypto-ext/pubkey"
	"github.com/trustbloc/vc-go/crypto-ext/verifiers/bbs"
	vecdsa "github.com/trustbloc/vc-go/crypto-ext/verifiers/ecdsa"
	ved25519 "github.com/trustbloc/vc-go/crypto-ext/verifiers/ed25519"
	vrsa "github.com/trustbloc/vc-go/crypto-ext/verifiers/rsa"
	proofdesc "github.com/trustbloc/vc-go/proof"
	"github.com/trustbloc/vc-go/proof/checker"
	"github.com/trustbloc/vc-go/proof/defaults"
	"github.com/trustbloc/vc-go/proof/jwtproofs/eddsa"
	"github.com/trustbloc/vc-go/proof/jwtproofs/es256"
	"github.com/trustbloc/vc-go/proof/jwtproofs/es256k"
	"github.com/trustbloc/vc-go/proof/jwtproofs/es384"
	"github.com/trustbloc/vc-go/proof/jwtproofs/es521"
	"github.com/trustbloc/vc-go/proof/jwtproofs/ps256"
	"github.com/trustbloc/vc-go/proof/jwtproofs/rs256"
	"github.com/trustbloc/vc-go/proof/ldproofs/bbsblssignature2020"
	"github.com/trustbloc/vc-go/proof/ldproofs/bbsblssignatureproof2020"
	"github.com/trustbloc/vc-go/proof/ldproofs/ecdsasecp256k1signature2019"
	"github.com/trustbloc/vc-go/proof/ldproofs/ed25519signature2018"
	"github.com/trustbloc/vc-go/proof/ldproofs/ed25519signature2020"
	"github.com/trustbloc/vc-go/proof/ldproofs/jsonwebsignature2020"
	"github.com/trustbloc/vc-go/verifharness/vh"
	"github.com/trustbloc/vc-go/vermethod"
)

type M = map[string]interface{}

// kinds of keys, named by the algorithm they are for; RSA keys serve both RSA algorithms.
var (
	keyAlgs = []string{"EdDSA", "ES256", "ES384", "ES521", "ES256K", "RS256", "PS256", "BBS"}
	vmTypes = []string{
		"JsonWebKey2020", "Ed25519VerificationKey2018", "Ed25519VerificationKey2020", "EcdsaSecp256k1VerificationKey2019", "RsaVerificationKey2018",
		"Bls12381G2Key2020", "X25519KeyAgreementKey2019", "JwsVerificationKey2020", "Multikey", "jsonwebkey2020", "",
	}
	forms  = []string{"jwk", "bytes", "both", "jwk-other", "bytes-other", "none"}
	suites = []string{"Ed25519Signature2018", "Ed25519Signature2020", "EcdsaSecp256k1Signature2019", "JsonWebSignature2020", "BbsBlsSignature2020", "BbsBlsSignatureProof2020",
		"Ed25519Signature2019", "ed25519signature2018", "EcdsaSecp256r1Signature2019", "DataIntegrityProof", ""}
	jwtAlgs = []string{"EdDSA", "ES256", "ES384", "ES521", "ES256K", "RS256", "PS256", "ES512", "none", "HS256", "eddsa", "ES256 ", "RS384", "RS512", "PS384", "Ed25519", "ES256K-R", ""}
)

// jwtRule is the written table: which keys and method types an algorithm takes.
var jwtRule = map[string]map[string]string{ // algorithm -> method type -> forms
	"EdDSA":  {"Ed25519VerificationKey2018": "jwk,bytes", "JsonWebKey2020": "jwk"},
	"ES256":  {"JsonWebKey2020": "jwk"},
	"ES384":  {"JsonWebKey2020": "jwk"},
	"ES521":  {"JsonWebKey2020": "jwk"},
	"ES256K": {"EcdsaSecp256k1VerificationKey2019": "jwk,bytes", "JsonWebKey2020": "jwk"},
	"RS256":  {"RsaVerificationKey2018": "jwk,bytes", "JsonWebKey2020": "jwk"},
	"PS256":  {"RsaVerificationKey2018": "jwk,bytes", "JsonWebKey2020": "jwk"},
}

type ldr struct {
	algs  []string
	types map[string]string
}

var ldRule = map[string]ldr{
	"Ed25519Signature2018":        {[]string{"EdDSA"}, map[string]string{"Ed25519VerificationKey2018": "jwk,bytes", "JsonWebKey2020": "jwk"}},
	"Ed25519Signature2020":        {[]string{"EdDSA"}, map[string]string{"Ed25519VerificationKey2020": "jwk,bytes", "Ed25519VerificationKey2018": "jwk,bytes", "JsonWebKey2020": "jwk"}},
	"EcdsaSecp256k1Signature2019": {[]string{"ES256K"}, map[string]string{"EcdsaSecp256k1VerificationKey2019": "jwk,bytes", "JsonWebKey2020": "jwk"}},
	"JsonWebSignature2020":        {[]string{"EdDSA", "ES256", "ES384", "ES521", "ES256K", "PS256"}, map[string]string{"JsonWebKey2020": "jwk"}},
	"BbsBlsSignature2020":         {[]string{"BBS"}, map[string]string{"Bls12381G2Key2020": "bytes", "JsonWebKey2020": ""}},
	"BbsBlsSignatureProof2020":    {[]string{"BBSPROOF"}, map[string]string{"Bls12381G2Key2020": "bytes"}},
}

var cwtAlgIDs = map[string]cose.Algorithm{
	"EdDSA": -8, "ES256": -7, "ES384": -35, "RS256": -257, "PS256": -37,
	"ES512": -36, "ES256K": -47, "PS384": -38, "RS512": -259, "HS256": 5, "zero": 0, "seven": 7, "eight": 8, "RS1": -65535,
}

func main() {
	vh.Main(vh.Spec{
		ID: "C24",
		Rule: "the matrix of JWT algorithms (7 known, 11 other), CWT algorithms (5 known, 9 other) and LD proof types (6 known, 5 other) x 8 kinds of keys x 11 verification method " +
			"types x 6 forms of key material, each with a signature really made by the key under the algorithm of its kind (and under the other hashes and paddings), decided through " +
			"ProofChecker, EmbeddedVMProofChecker and VDRResolver and compared with a written table; resolvers over DID documents with decoy methods in all relationships, about 20 " +
			"variants of key id and controller, COSE keys, subsets of registered proof types and verifiers, histories of key rotation, removal and resolver faults, concurrent use, and the algorithms offered for KMS key types. " +
			"Distinct: (kind of proof, algorithm, key, method type, form, verdict).",
		Level: "exploration",
		Require: map[string]int64{"accepted": 900, "refused.pairing": 6000, "refused.keyid": 500, "refused.controller": 400, "refused.agreement": 100, "refused.unregistered": 200,
			"history.steps": 500, "cosekey.accepted": 20, "cosekey.refused": 150, "keytype.accepted": 40, "keytype.refused": 30},
		Assumptions: []string{"a method referenced both for key agreement and for another relationship is usable", "BBS+ keys as JWK are not judged",
			"the controller member of a verification method is not judged, only the DID document it is in"},
		Run: run,
	})
}

// material is what a verification method holds.
type material struct {
	typ   string
	value []byte
	jwk   *jwk.JWK
}

func key(alg, seed string) *vh.Key { return vh.NewKey(alg, "c24/"+seed) }

// kinds maps an RSA key to one identity, whichever of the two algorithms it is used for.
func kind(alg string) string {
	if alg == "RS256" || alg == "PS256" {
		return "RSA"
	}

	return alg
}

func mat(typ, form string, k, other *vh.Key) material {
	m := material{typ: typ}

	switch form {
	case "jwk":
		m.jwk = k.JWK
	case "bytes":
		m.value = k.Bytes
		if rk, ok := k.Pub.(*rsa.PublicKey); ok {
			m.value = x509.MarshalPKCS1PublicKey(rk)
		}
	case "both":
		m.jwk, m.value = k.JWK, k.Bytes
	case "jwk-other": // the JWK is another key's, the bytes are the signer's
		m.jwk, m.value = other.JWK, k.Bytes
	case "bytes-other":
		m.jwk, m.value = k.JWK, other.Bytes
	}

	return m
}

// usable tells whether the material presents key k in one of the given forms ("jwk,bytes"); judged is false where the table does not say.
func usable(allowed, form string, bbsKey bool) (ok, judged bool) {
	if bbsKey && form != "bytes" {
		return false, form == "none"
	}

	switch form {
	case "jwk", "both", "bytes-other":
		return strings.Contains(allowed, "jwk"), true
	case "bytes":
		return strings.Contains(allowed, "bytes"), true
	}

	return false, true
}

// fixed resolver, also counts
type stub struct {
	vms map[string]material // controller|kid
	err error
}

func (s *stub) ResolveVerificationMethod(id, controller string) (*vermethod.VerificationMethod, error) {
	if s.err != nil {
		return nil, s.err
	}

	m, ok := s.vms[controller+"|"+id]
	if !ok {
		return nil, errors.New("stub: no such method")
	}

	return &vermethod.VerificationMethod{Type: m.typ, Value: m.value, JWK: m.jwk}, nil
}

type jwtChecker interface {
	CheckJWTProof(headers jose.Headers, expectedProofIssuer string, msg, signature []byte) error
}

func call(c *vh.Check, what string, detail M, f func() error) (err error, ok bool) {
	p, site, val := vh.Guard(func() { err = f() })
	if p {
		c.Violate("panic/"+what+"/"+site, fmt.Sprintf("panic: %v", val), detail)
		return nil, false
	}

	return err, true
}

func judge(c *vh.Check, what, cell string, want bool, err error, detail M, refused string) {
	if want {
		if c.Expect(err == nil, "refused/"+what+"/"+cell, fmt.Sprintf("a proof by a fitting key was refused: %v", err), detail) {
			c.Count("accepted", 1)
		}

		c.Eval(what + "/" + cell + "/ok")

		return
	}

	if c.Expect(err != nil, "accepted/"+what+"/"+cell, "accepted a proof by a key that does not fit it ("+refused+")", detail) {
		c.Count("refused."+refused, 1)
	}

	c.Eval(what + "/" + cell + "/no")
}

// sigs are all the signatures a key can make that could be mistaken for those of some algorithm.
func sigs(r *rand.Rand, alg string, k *vh.Key, msg []byte) map[string][]byte {
	out := map[string][]byte{}

	sign := func(name string, kk *vh.Key) {
		s, err := kk.Sign(msg)
		if err != nil {
			panic(fmt.Sprintf("vh-fixture sign: %v", err))
		}

		out[name] = s
	}

	switch kind(alg) {
	case "RSA":
		for _, a := range []string{"RS256", "PS256"} {
			kk := *k
			kk.Alg = a
			sign(a, &kk)
		}
	case "ES256", "ES384", "ES521", "ES256K":
		sign(alg, k)
		// the same key with the hash of another algorithm
		for _, a := range []string{"ES256", "ES384", "ES521"} {
			if a != alg && !(alg == "ES256K" && a == "ES256") {
				kk := *k
				kk.Alg = a
				sign("hash-"+a, &kk)
			}
		}
	default:
		sign(alg, k)
	}

	return out
}

func run(c *vh.Check) {
	// every cell of the JWT matrix in every tier
	cells := len(jwtAlgs) * len(keyAlgs) * len(vmTypes) * len(forms)

	c.Cases("jwt", c.N(1, 4)*cells, func(r *rand.Rand, i int) { jwtCell(c, r, i%cells) })

	cwtNames := make([]string, 0, len(cwtAlgIDs))
	for n := range cwtAlgIDs {
		cwtNames = append(cwtNames, n)
	}

	sort.Strings(cwtNames)

	cw := len(cwtNames) * len(keyAlgs) * len(vmTypes) * len(forms)
	c.Cases("cwt", c.N(1, 4)*cw, func(r *rand.Rand, i int) { cwtCell(c, r, i%cw, cwtNames) })

	ld := len(suites) * (len(keyAlgs) + 1) * len(vmTypes) * len(forms)
	c.Cases("ld", c.N(1, 5)*ld, func(r *rand.Rand, i int) { ldCell(c, r, i%ld) })
	c.Cases("cosekey", c.N(600, 8000), func(r *rand.Rand, i int) { coseKey(c, r, cwtNames) })
	c.Cases("did", c.N(1600, 14000), func(r *rand.Rand, i int) { didCase(c, r) })
	c.Cases("registered", c.N(900, 12000), func(r *rand.Rand, i int) { registered(c, r) })
	c.Cases("history", c.N(120, 1500), func(r *rand.Rand, i int) { history(c, r) })
	c.Cases("concurrent", c.N(10, 100), func(r *rand.Rand, i int) { concurrent(c, r) })
	c.Cases("keytypes", c.N(80, 800), func(r *rand.Rand, i int) { keyTypes(c, r, i) })
}

const kid = "did:verif:a#k"

func pick4(i int, as, ks, ts, fs []string) (a, k, t, f string) {
	a = as[i%len(as)]
	i /= len(as)
	k = ks[i%len(ks)]
	i /= len(ks)
	t = ts[i%len(ts)]
	i /= len(ts)

	return a, k, t, fs[i%len(fs)]
}

// two RSA fixtures exist; other keys come from seeds
func twoKeys(r *rand.Rand, alg string) (*vh.Key, *vh.Key) {
	k := key(alg, fmt.Sprint(r.Intn(5)))

	for i := 0; ; i++ {
		o := key(alg, fmt.Sprintf("o%d", i))
		if string(o.Bytes) != string(k.Bytes) {
			return k, o
		}
	}
}

func jwtWant(alg, keyAlg, typ, form, sigName string) (bool, bool) {
	rule, known := jwtRule[alg]
	if !known || kind(alg) != kind(keyAlg) || sigName != alg {
		return false, true
	}

	return usable(rule[typ], form, false)
}

func message(r *rand.Rand) []byte {
	b := make([]byte, 1+r.Intn(200))
	r.Read(b)

	return b
}

func jwtCell(c *vh.Check, r *rand.Rand, i int) {
	alg, ka, typ, form := pick4(i, jwtAlgs, keyAlgs, vmTypes, forms)
	k, o := twoKeys(r, ka)
	msg := message(r)

	if ka == "BBS" {
		msg = []byte("a\nb\nc")
	}

	m := mat(typ, form, k, o)
	chk := defaults.NewDefaultProofChecker(&stub{vms: map[string]material{"did:verif:a|" + kid: m}})
	hdr := jose.Headers{"alg": alg, "kid": kid, "typ": "JWT"}
	emb := checker.NewEmbeddedVMProofChecker(&vermethod.VerificationMethod{Type: m.typ, Value: m.value, JWK: m.jwk}, allOpts()...)

	for name, sig := range sigs(r, ka, k, msg) {
		want, judged := jwtWant(alg, ka, typ, form, name)
		if !judged {
			continue
		}

		cell := fmt.Sprintf("%s/%s/%s/%s/%s", alg, ka, typ, form, name)
		detail := M{"alg": alg, "key": ka, "type": typ, "form": form, "signature": name}

		if err, ok := call(c, "jwt", detail, func() error { return chk.CheckJWTProof(hdr, "did:verif:a", msg, sig) }); ok {
			judge(c, "jwt", cell, want, err, detail, "pairing")
		}

		ehdr := jose.Headers{"alg": alg}
		if err, ok := call(c, "embedded", detail, func() error { return emb.CheckJWTProof(ehdr, vh.Pick(r, "", "did:verif:b"), msg, sig) }); ok {
			judge(c, "embedded", cell, want, err, detail, "pairing")
		}

		if form == "jwk" {
			je := checker.NewEmbeddedJWKProofChecker(k.JWK, allOpts()...)
			w, _ := jwtWant(alg, ka, "JsonWebKey2020", form, name)

			if err, ok := call(c, "embedded-jwk", detail, func() error { return je.CheckJWTProof(ehdr, "", msg, sig) }); ok && ka != "BBS" {
				judge(c, "embedded-jwk", fmt.Sprintf("%s/%s/%s", alg, ka, name), w, err, detail, "pairing")
			}
		}
	}
}

// wrongKey gives a JWK whose declared type and curve are those of another algorithm's key, or whose key cannot serve the curve at all.
func cwtCell(c *vh.Check, r *rand.Rand, i int, names []string) {
	alg, ka, typ, form := pick4(i, names, keyAlgs, vmTypes, forms)
	k, o := twoKeys(r, ka)
	msg := message(r)

	if ka == "BBS" {
		msg = []byte("a\nb\nc")
	}

	m := mat(typ, form, k, o)
	chk := defaults.NewDefaultProofChecker(&stub{vms: map[string]material{"did:verif:a|" + kid: m}})

	req := checker.CheckCWTProofRequest{KeyID: kid, Algo: cwtAlgIDs[alg]}
	if r.Intn(4) == 0 && ka != "BBS" { // a self-asserted key beside the key id changes nothing
		if ck := coseKeyOf(o); ck != nil {
			req.KeyMaterial = hex.EncodeToString(ck)
		}
	}

	for name, sig := range sigs(r, ka, k, msg) {
		want, judged := jwtWant(alg, ka, typ, form, name)
		if !judged {
			continue
		}

		if alg == "ES256K" {
			want = false
		}

		cell := fmt.Sprintf("%s/%s/%s/%s/%s", alg, ka, typ, form, name)
		detail := M{"alg": alg, "id": int(cwtAlgIDs[alg]), "key": ka, "type": typ, "form": form, "signature": name}

		if err, ok := call(c, "cwt", detail, func() error { return chk.CheckCWTProof(req, "did:verif:a", msg, sig) }); ok {
			judge(c, "cwt", cell, want, err, detail, "pairing")
		}
	}
}

// bbsProof derives a proof over some of the lines.
func bbsProof(k *vh.Key, nonce []byte) (sig, msg []byte) {
	lines := []string{"<urn:a> <urn:b> <urn:c> .", "<urn:d> <urn:e> <urn:f> .", "<urn:g> <urn:h> <urn:i> ."}

	full, err := k.Sign([]byte(strings.Join(lines, "\n")))
	if err != nil {
		panic(fmt.Sprintf("vh-fixture bbs: %v", err))
	}

	var raw [][]byte
	for _, l := range lines {
		raw = append(raw, []byte(l))
	}

	p, err := bbs12381g2pub.New().DeriveProof(raw, full, nonce, k.Bytes, []int{0, 2})
	if err != nil {
		panic(fmt.Sprintf("vh-fixture bbs proof: %v", err))
	}

	return p, []byte(lines[0] + "\n" + lines[2] + "\n")
}

func ldWant(suite, ka, typ, form, sigName string) (bool, bool) {
	rule, known := ldRule[suite]
	if !known {
		return false, true
	}

	fit := false

	for _, a := range rule.algs {
		if a == sigName && (a == "BBSPROOF" || kind(a) == kind(ka)) {
			fit = true
		}
	}

	if !fit {
		return false, true
	}

	return usable(rule.types[typ], form, strings.HasPrefix(sigName, "BBS"))
}

func ldCell(c *vh.Check, r *rand.Rand, i int) {
	suite, ka, typ, form := pick4(i, suites, append(append([]string{}, keyAlgs...), "BBSPROOF"), vmTypes, forms)

	ba := ka
	if ka == "BBSPROOF" {
		ba = "BBS"
	}

	k, o := twoKeys(r, ba)
	msg := message(r)
	nonce := []byte{1, 2, 3, byte(r.Intn(256))}

	var made map[string][]byte

	switch ka {
	case "BBS":
		msg = []byte("<urn:a> <urn:b> <urn:c> .\n<urn:a> <urn:b> <urn:d> .")
		made = sigs(r, ba, k, msg)
	case "BBSPROOF":
		var s []byte
		s, msg = bbsProof(k, nonce)
		made = map[string][]byte{"BBSPROOF": s}
	default:
		made = sigs(r, ba, k, msg)
	}

	m := mat(typ, form, k, o)
	chk := defaults.NewDefaultProofChecker(&stub{vms: map[string]material{"did:verif:a|" + kid: m}})
	p := &proof.Proof{Type: suite, VerificationMethod: kid, Nonce: nonce}

	if r.Intn(5) == 0 {
		p.VerificationMethod, p.Creator = "", kid
	}

	for name, sig := range made {
		want, judged := ldWant(suite, ka, typ, form, name)
		if !judged {
			continue
		}

		cell := fmt.Sprintf("%s/%s/%s/%s/%s", suite, ka, typ, form, name)
		detail := M{"suite": suite, "key": ka, "type": typ, "form": form, "signature": name}

		if err, ok := call(c, "ld", detail, func() error { return chk.CheckLDProof(p, "did:verif:a", msg, sig) }); ok {
			judge(c, "ld", cell, want, err, detail, "pairing")
		}
	}
}

func coseKeyOf(k *vh.Key) []byte {
	ck, err := cose.NewKeyFromPublic(k.Pub)
	if err != nil {
		return nil
	}

	b, err := ck.MarshalCBOR()
	if err != nil {
		return nil
	}

	return b
}

func coseKey(c *vh.Check, r *rand.Rand, names []string) {
	ka := vh.Pick(r, "EdDSA", "ES256", "ES384", "ES521")

	alg := ka
	if r.Intn(2) == 0 {
		alg = vh.Pick(r, names...)
	}

	if alg == "ES521" {
		alg = "ES512"
	}

	k, o := twoKeys(r, ka)
	msg := message(r)
	ck := coseKeyOf(k)

	if ck == nil {
		return
	}

	chk := defaults.NewDefaultProofChecker(&stub{vms: map[string]material{"did:verif:a|" + kid: {typ: "JsonWebKey2020", jwk: k.JWK}}})
	sig, _ := k.Sign(msg)
	fault := vh.Pick(r, "", "", "issuer", "other-key", "other-sig", "hex", "truncated", "empty-map", "no-key", "kid-unknown", "kid-other")
	req := checker.CheckCWTProofRequest{Algo: cwtAlgIDs[alg], KeyMaterial: hex.EncodeToString(ck)}
	issuer := ""

	switch fault {
	case "issuer":
		issuer = vh.Pick(r, "did:verif:a", "did:verif:b")
	case "other-key":
		req.KeyMaterial = hex.EncodeToString(coseKeyOf(o))
	case "other-sig":
		sig, _ = o.Sign(msg)
	case "hex":
		req.KeyMaterial = vh.Pick(r, "zz", req.KeyMaterial+"0", "0x"+req.KeyMaterial)
	case "truncated":
		req.KeyMaterial = req.KeyMaterial[:2*r.Intn(len(ck))]
	case "empty-map":
		req.KeyMaterial = vh.Pick(r, "a0", "f6", "80", "01")
	case "no-key":
		req.KeyMaterial = ""
	case "kid-unknown":
		req.KeyID = "did:verif:a#zz"
	case "kid-other": // the method exists but for another controller
		req.KeyID, issuer = kid, "did:verif:b"
	}

	want := fault == "" && alg == ka && ka != "ES521"
	detail := M{"alg": alg, "key": ka, "fault": fault, "material": req.KeyMaterial, "issuer": issuer}

	err, ok := call(c, "cosekey", detail, func() error { return chk.CheckCWTProof(req, issuer, msg, sig) })
	if !ok {
		return
	}

	cell := alg + "/" + ka + "/" + fault
	c.Eval("cosekey/" + cell)

	if want {
		if c.Expect(err == nil, "refused/cosekey/"+cell, fmt.Sprintf("a proof by its own COSE key was refused: %v", err), detail) {
			c.Count("cosekey.accepted", 1)
		}

		return
	}

	if c.Expect(err != nil, "accepted/cosekey/"+cell, "accepted a proof whose COSE key does not fit", detail) {
		c.Count("cosekey.refused", 1)
	}
}

// docs is a DID resolver over documents that can be changed and can fail.
type docs struct {
	mu  sync.RWMutex
	m   map[string]*did.Doc
	err error
}

func (d *docs) Resolve(id string, _ ...vdrapi.DIDMethodOption) (*did.DocResolution, error) {
	d.mu.RLock()
	defer d.mu.RUnlock()

	if d.err != nil {
		return nil, d.err
	}

	doc, ok := d.m[id]
	if !ok {
		return nil, fmt.Errorf("did %q not found", id)
	}

	return &did.DocResolution{DIDDocument: doc}, nil
}

// a method as the model sees it: key, and the relationships it is listed for.
type method struct {
	id  string
	k   *vh.Key
	rel map[string]bool // general, auth, assert, deleg, invoc, agree
}

var rels = []string{"general", "auth", "assert", "deleg", "invoc", "agree"}

func (m *method) usable() bool {
	for _, x := range []string{"auth", "assert", "deleg", "invoc"} {
		if m.rel[x] {
			return true
		}
	}

	return m.rel["general"] && !m.rel["agree"]
}

func vm(id, controller string, k *vh.Key) did.VerificationMethod {
	if k.Alg == "BBS" {
		return *did.NewVerificationMethodFromBytes(id, "Bls12381G2Key2020", controller, k.Bytes)
	}

	v, err := did.NewVerificationMethodFromJWK(id, "JsonWebKey2020", controller, k.JWK)
	if err != nil {
		panic(fmt.Sprintf("vh-fixture vm: %v", err))
	}

	return *v
}

func buildDoc(id string, ms []*method) *did.Doc {
	doc := &did.Doc{Context: []string{"https://www.w3.org/ns/did/v1"}, ID: id}

	for _, m := range ms {
		v := vm(m.id, id, m.k)

		mk := func(r did.VerificationRelationship) did.Verification {
			if m.rel["general"] {
				return *did.NewReferencedVerification(&v, r)
			}

			return *did.NewEmbeddedVerification(&v, r)
		}

		if m.rel["general"] {
			doc.VerificationMethod = append(doc.VerificationMethod, v)
		}

		if m.rel["auth"] {
			doc.Authentication = append(doc.Authentication, mk(did.Authentication))
		}

		if m.rel["assert"] {
			doc.AssertionMethod = append(doc.AssertionMethod, mk(did.AssertionMethod))
		}

		if m.rel["deleg"] {
			doc.CapabilityDelegation = append(doc.CapabilityDelegation, mk(did.CapabilityDelegation))
		}

		if m.rel["invoc"] {
			doc.CapabilityInvocation = append(doc.CapabilityInvocation, mk(did.CapabilityInvocation))
		}

		if m.rel["agree"] {
			doc.KeyAgreement = append(doc.KeyAgreement, mk(did.KeyAgreement))
		}
	}

	return doc
}

func relSet(r *rand.Rand) map[string]bool {
	out := map[string]bool{}

	switch r.Intn(6) {
	case 0:
		out["agree"] = true
	case 1:
		out["agree"], out["general"] = true, true
	case 2:
		out["general"] = true
	default:
		out[vh.Pick(r, rels[1:]...)] = true
		if r.Intn(2) == 0 {
			out["general"] = true
		}

		if r.Intn(3) == 0 {
			out[vh.Pick(r, rels[1:]...)] = true
		}
	}

	return out
}

func relName(m map[string]bool) string {
	var out []string

	for _, x := range rels {
		if m[x] {
			out = append(out, x)
		}
	}

	return strings.Join(out, "+")
}

// one proof of any kind by key k that names id and expects the controller
type attempt struct {
	what string
	do   func(chk *checker.ProofChecker) error
}

func attemptFor(r *rand.Rand, k *vh.Key, id, controller string) attempt {
	msg := message(r)

	if k.Alg == "BBS" {
		nonce := []byte{9, 9}
		if r.Intn(3) == 0 {
			s, m := bbsProof(k, nonce)
			return attempt{"ld/BbsBlsSignatureProof2020", func(chk *checker.ProofChecker) error {
				return chk.CheckLDProof(&proof.Proof{Type: "BbsBlsSignatureProof2020", VerificationMethod: id, Nonce: nonce}, controller, m, s)
			}}
		}

		msg = []byte("l1\nl2")
		s, _ := k.Sign(msg)

		return attempt{"ld/BbsBlsSignature2020", func(chk *checker.ProofChecker) error {
			return chk.CheckLDProof(&proof.Proof{Type: "BbsBlsSignature2020", VerificationMethod: id}, controller, msg, s)
		}}
	}

	s, err := k.Sign(msg)
	if err != nil {
		panic(fmt.Sprintf("vh-fixture sign: %v", err))
	}

	jwt := attempt{"jwt/" + k.Alg, func(chk *checker.ProofChecker) error {
		return chk.CheckJWTProof(jose.Headers{"alg": k.Alg, "kid": id}, controller, msg, s)
	}}

	switch r.Intn(3) {
	case 0:
		if a, ok := cwtAlgIDs[k.Alg]; ok && k.Alg != "ES256K" {
			return attempt{"cwt/" + k.Alg, func(chk *checker.ProofChecker) error {
				return chk.CheckCWTProof(checker.CheckCWTProofRequest{KeyID: id, Algo: a}, controller, msg, s)
			}}
		}
	case 1:
		suite := "JsonWebSignature2020"

		switch k.Alg {
		case "RS256":
			return jwt
		case "EdDSA":
			suite = vh.Pick(r, suite, "Ed25519Signature2018", "Ed25519Signature2020")
		case "ES256K":
			suite = vh.Pick(r, suite, "EcdsaSecp256k1Signature2019")
		}

		return attempt{"ld/" + suite, func(chk *checker.ProofChecker) error {
			return chk.CheckLDProof(&proof.Proof{Type: suite, VerificationMethod: id}, controller, msg, s)
		}}
	}

	return jwt
}

func didCase(c *vh.Check, r *rand.Rand) {
	a, b := "did:verif:a", "did:verif:b"
	model := map[string][]*method{}
	d := &docs{m: map[string]*did.Doc{}}

	// two documents with methods whose ids resemble each other; both have "#key-1".
	for _, id := range []string{a, b, "did:verif:aa"} {
		names := []string{"key-1", "key-10", "key-11", "KEY-1", "key"}[:1+r.Intn(5)]
		alg := vh.Pick(r, keyAlgs...)

		for _, n := range names {
			if r.Intn(3) == 0 {
				alg = vh.Pick(r, keyAlgs...)
			}

			model[id] = append(model[id], &method{id: id + "#" + n, k: key(alg, id+n), rel: relSet(r)})
		}

		if r.Intn(3) == 0 { // a method of another DID listed in this document
			model[id] = append(model[id], &method{id: "did:verif:z#key-1", k: key(vh.Pick(r, keyAlgs...), "z"+id), rel: relSet(r)})
		}

		r.Shuffle(len(model[id]), func(i, j int) { model[id][i], model[id][j] = model[id][j], model[id][i] })
		d.m[id] = buildDoc(id, model[id])
	}

	if r.Intn(4) == 0 {
		d.m[a].AlsoKnownAs = []string{b, "did:verif:aa"}
	}

	chk := defaults.NewDefaultProofChecker(vermethod.NewVDRResolver(d))
	m := model[a][r.Intn(len(model[a]))]
	frag := m.id[strings.Index(m.id, "#")+1:]

	type variant struct {
		name, id, controller string
		group                string
	}

	vs := []variant{
		{"exact", m.id, a, ""},
		{"relative", "#" + frag, a, "keyid"},
		{"bare", frag, a, "keyid"},
		{"other-did", b + "#" + frag, a, "keyid"},
		{"did-only", a, a, "keyid"},
		{"empty", "", a, "keyid"},
		{"upper", strings.ToUpper(m.id), a, "keyid"},
		{"space", m.id + " ", a, "keyid"},
		{"longer", m.id + "0x", a, "keyid"},
		{"shorter", m.id[:len(m.id)-1] + "\x00", a, "keyid"},
		{"query", strings.Replace(m.id, "#", "?a=b#", 1), a, "keyid"},
		{"double", m.id + "#" + frag, a, "keyid"},
		{"controller-b", m.id, b, "controller"},
		{"controller-aa", m.id, "did:verif:aa", "controller"},
		{"controller-empty", m.id, "", "controller"},
		{"controller-url", m.id, m.id, "controller"},
		{"controller-unknown", m.id, "did:verif:nobody", "controller"},
		{"controller-prefix", m.id, "did:verif", "controller"},
		{"controller-space", m.id, a + " ", "controller"},
	}

	for _, v := range vs {
		at := attemptFor(r, m.k, v.id, v.controller)

		// the model: the method of that id in the expected controller's document, whose key is the signer's
		want := false
		group := v.group

		for _, x := range model[v.controller] {
			if x.id == v.id && string(x.k.Bytes) == string(m.k.Bytes) && kind(x.k.Alg) == kind(m.k.Alg) {
				want = x.usable()

				if !want {
					group = "agreement"
				}
			}
		}

		if group == "" {
			group = "pairing"
		}

		detail := M{"variant": v.name, "id": v.id, "controller": v.controller, "what": at.what, "relationships": relName(m.rel)}

		if err, ok := call(c, "did", detail, func() error { return at.do(chk) }); ok {
			judge(c, "did/"+v.name, strings.SplitN(at.what, "/", 2)[0]+"/"+relName(m.rel), want, err, detail, group)
		}
	}

	// a signature by another key of the same document, or by the other document's key of the same name
	for _, o := range append(append([]*method{}, model[a]...), model[b]...) {
		if string(o.k.Bytes) == string(m.k.Bytes) {
			continue
		}

		at := attemptFor(r, o.k, m.id, a)
		detail := M{"signer": o.id, "id": m.id, "what": at.what}

		if err, ok := call(c, "did", detail, func() error { return at.do(chk) }); ok {
			judge(c, "did/other-key", strings.SplitN(at.what, "/", 2)[0], false, err, detail, "pairing")
		}
	}

	// a failing resolver
	d.err = errors.New("injected")
	at := attemptFor(r, m.k, m.id, a)

	if err, ok := call(c, "did", M{}, func() error { return at.do(chk) }); ok {
		judge(c, "did/fault", "", false, err, M{"what": at.what}, "controller")
	}
}

type sv interface {
	SupportedKeyType(keyType kms.KeyType) bool
	Verify(sig, msg []byte, pub *pubkey.PublicKey) error
}

var (
	jwtDescs = map[string]proofdesc.JWTProofDescriptor{
		"EdDSA": eddsa.New(), "ES256": es256.New(), "ES256K": es256k.New(), "ES384": es384.New(), "ES521": es521.New(), "RS256": rs256.New(), "PS256": ps256.New(),
	}
	ldDescs = map[string]proofdesc.LDProofDescriptor{
		"BbsBlsSignature2020": bbsblssignature2020.New(), "EcdsaSecp256k1Signature2019": ecdsasecp256k1signature2019.New(), "Ed25519Signature2018": ed25519signature2018.New(),
		"Ed25519Signature2020": ed25519signature2020.New(), "JsonWebSignature2020": jsonwebsignature2020.New(),
	}
	verifs = map[string]sv{
		"EdDSA": ved25519.New(), "BBS": bbs.NewBBSG2SignatureVerifier(), "PS256": vrsa.NewPS256(), "RS256": vrsa.NewRS256(), "ES256K": vecdsa.NewSecp256k1(),
		"ES256": vecdsa.NewES256(), "ES384": vecdsa.NewES384(), "ES521": vecdsa.NewES521(),
	}
)

func allOpts() []checker.Opt {
	var out []checker.Opt
	for _, n := range []string{"EdDSA", "ES256", "ES256K", "ES384", "ES521", "RS256", "PS256"} {
		out = append(out, checker.WithJWTAlg(jwtDescs[n]))
	}

	for _, n := range keyAlgs {
		out = append(out, checker.WithSignatureVerifiers(verifs[n]))
	}

	return out
}

// registered checks checkers that know only some of the algorithms, proof types and verifiers.
func registered(c *vh.Check, r *rand.Rand) {
	var opts []checker.Opt

	hasJWT, hasCWT, hasLD, hasV := map[string]bool{}, map[string]bool{}, map[string]bool{}, map[string]bool{}

	for _, n := range keyAlgs {
		d := jwtDescs[n]

		if d != nil && r.Intn(3) > 0 {
			hasJWT[n] = true

			opts = append(opts, checker.WithJWTAlg(d))
		}

		if d != nil && r.Intn(3) > 0 {
			hasCWT[n] = true

			opts = append(opts, checker.WithCWTAlg(d))
		}

		if r.Intn(4) > 0 {
			hasV[n] = true

			opts = append(opts, checker.WithSignatureVerifiers(verifs[n]))
		}
	}

	for _, n := range suites {
		if d := ldDescs[n]; d != nil && r.Intn(3) > 0 {
			hasLD[n] = true

			opts = append(opts, checker.WithLDProofTypes(d))
		}
	}

	if r.Intn(2) == 0 {
		hasLD["BbsBlsSignatureProof2020"] = true

		opts = append(opts, checker.WithLDProofTypeEx(bbsblssignatureproof2020.New(), bbs.NewBBSG2SignatureProofVerifier()))
	}

	r.Shuffle(len(opts), func(i, j int) { opts[i], opts[j] = opts[j], opts[i] })

	for _, ka := range keyAlgs {
		k := key(ka, fmt.Sprint(r.Intn(3)))
		m := material{typ: "JsonWebKey2020", jwk: k.JWK}

		if ka == "BBS" {
			m = material{typ: "Bls12381G2Key2020", value: k.Bytes}
		}

		chk := checker.New(&stub{vms: map[string]material{"did:verif:a|" + kid: m}}, opts...)
		at := attemptFor(r, k, kid, "did:verif:a")
		p := strings.SplitN(at.what, "/", 2)
		want := false

		switch p[0] {
		case "jwt":
			want = hasJWT[ka] && hasV[ka]
		case "cwt":
			want = hasCWT[ka] && hasV[ka]
		case "ld":
			want = hasLD[p[1]] && (hasV[ka] || p[1] == "BbsBlsSignatureProof2020")
		}

		detail := M{"what": at.what, "jwt": hasJWT, "cwt": hasCWT, "ld": hasLD, "verifiers": hasV}

		if err, ok := call(c, "registered", detail, func() error { return at.do(chk) }); ok {
			judge(c, "registered", at.what, want, err, detail, "unregistered")
		}

		if ka == "BBS" {
			continue
		}

		emb := checker.NewEmbeddedJWKProofChecker(k.JWK, opts...)
		msg := message(r)
		sig, _ := k.Sign(msg)

		if err, ok := call(c, "registered-embedded", detail, func() error { return emb.CheckJWTProof(jose.Headers{"alg": ka}, "", msg, sig) }); ok {
			judge(c, "registered-embedded", ka, hasJWT[ka] && hasV[ka], err, detail, "unregistered")
		}
	}
}

// history changes the documents between checks by one shared checker: every check follows the documents as they are.
func history(c *vh.Check, r *rand.Rand) {
	d := &docs{m: map[string]*did.Doc{}}
	model := map[string][]*method{}
	dids := []string{"did:verif:a", "did:verif:b"}
	gen := 0

	fresh := func() *vh.Key {
		gen++
		return key(vh.Pick(r, "EdDSA", "ES256", "ES256K", "ES384"), fmt.Sprintf("h%d", gen%40))
	}

	for _, id := range dids {
		for _, n := range []string{"1", "2", "3"} {
			model[id] = append(model[id], &method{id: id + "#" + n, k: fresh(), rel: map[string]bool{"assert": true, "general": true}})
		}

		d.m[id] = buildDoc(id, model[id])
	}

	chk := defaults.NewDefaultProofChecker(vermethod.NewVDRResolver(d))

	var old []*method

	var trace []string

	for step := 0; step < 14; step++ {
		id := vh.Pick(r, dids...)
		op := vh.Pick(r, "rotate", "remove", "add", "agree", "swap", "fault", "none", "copy", "reorder")

		if len(model[id]) == 0 {
			op = "add"
		}

		switch op {
		case "rotate":
			m := vh.Pick(r, model[id]...)
			cp := *m
			old = append(old, &cp)
			m.k = fresh()
		case "remove":
			i := r.Intn(len(model[id]))
			old = append(old, model[id][i])
			model[id] = append(append([]*method{}, model[id][:i]...), model[id][i+1:]...)
		case "add":
			gen++
			model[id] = append(model[id], &method{id: fmt.Sprintf("%s#n%d", id, gen), k: fresh(), rel: relSet(r)})
		case "agree":
			m := vh.Pick(r, model[id]...)
			m.rel = map[string]bool{"agree": true, "general": r.Intn(2) == 0}
		case "swap":
			x, y := vh.Pick(r, model[id]...), vh.Pick(r, model[id]...)
			x.k, y.k = y.k, x.k
		case "copy": // the other controller's method of the same position moves over, id included
			o := dids[0]
			if id == o {
				o = dids[1]
			}

			if len(model[o]) > 0 {
				m := *vh.Pick(r, model[o]...)
				dup := false

				for _, x := range model[id] {
					dup = dup || x.id == m.id
				}

				if !dup {
					model[id] = append(model[id], &m)
				}
			}
		case "reorder":
			r.Shuffle(len(model[id]), func(i, j int) { model[id][i], model[id][j] = model[id][j], model[id][i] })
		}

		d.mu.Lock()
		d.m[id] = buildDoc(id, model[id])
		d.err = nil

		if op == "fault" {
			d.err = errors.New("injected")
		}

		d.mu.Unlock()

		trace = append(trace, op+" "+id)

		// probe current, old and foreign methods
		for i := 0; i < 4; i++ {
			ctl := vh.Pick(r, dids...)
			pool := append(append([]*method{}, model[dids[0]]...), model[dids[1]]...)
			pool = append(pool, old...)

			if len(pool) == 0 {
				continue
			}

			m := vh.Pick(r, pool...)
			if r.Intn(3) > 0 {
				ctl = m.id[:strings.Index(m.id, "#")]
			}

			want := false

			for _, x := range model[ctl] {
				if x.id == m.id && x.k.Alg == m.k.Alg && string(x.k.Bytes) == string(m.k.Bytes) {
					want = x.usable() && op != "fault"
				}
			}

			at := attemptFor(r, m.k, m.id, ctl)
			detail := M{"trace": trace, "id": m.id, "controller": ctl, "what": at.what}

			if err, ok := call(c, "history", detail, func() error { return at.do(chk) }); ok {
				c.Count("history.steps", 1)
				judge(c, "history/"+op, strings.SplitN(at.what, "/", 2)[0], want, err, detail, "pairing")
			}
		}
	}
}

// concurrent runs fitting and unfitting proofs at once on one checker and one verification method descriptor set.
func concurrent(c *vh.Check, r *rand.Rand) {
	st := &stub{vms: map[string]material{}}

	type job struct {
		at   attempt
		want bool
	}

	var jobs []job

	chk := defaults.NewDefaultProofChecker(st)

	for i, ka := range append(append([]string{}, keyAlgs...), keyAlgs...) {
		k, o := twoKeys(r, ka)
		m := material{typ: "JsonWebKey2020", jwk: k.JWK}

		if ka == "BBS" {
			m = material{typ: "Bls12381G2Key2020", value: k.Bytes}
		}

		id := fmt.Sprintf("did:verif:a#%d", i)
		st.vms["did:verif:a|"+id] = m

		jobs = append(jobs, job{attemptFor(r, k, id, "did:verif:a"), true}, job{attemptFor(r, o, id, "did:verif:a"), false},
			job{attemptFor(r, k, id, "did:verif:b"), false})
	}

	var wg sync.WaitGroup

	res := make([]error, len(jobs)*4)

	for x := 0; x < 4; x++ {
		x := x
		order := r.Perm(len(jobs))

		wg.Add(1)

		go func() {
			defer wg.Done()

			for _, j := range order {
				p, site, _ := vh.Guard(func() { res[x*len(jobs)+j] = jobs[j].at.do(chk) })
				if p {
					res[x*len(jobs)+j] = errors.New("panic at " + site)
				}
			}
		}()
	}

	wg.Wait()

	for i, err := range res {
		j := jobs[i%len(jobs)]
		judge(c, "concurrent", j.at.what, j.want, err, M{"what": j.at.what}, "pairing")
	}
}
