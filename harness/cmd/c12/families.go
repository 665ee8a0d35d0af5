package main

import (
	"bytes"
	"compress/gzip"
	"crypto"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/rand"
	"net/http"
	"strings"
	"time"

	"github.com/fxamacker/cbor/v2"
	"github.com/trustbloc/did-go/doc/did"
	"github.com/trustbloc/kms-go/doc/jose"
	"github.com/trustbloc/kms-go/doc/jose/jwk"
	spi "github.com/trustbloc/kms-go/spi/storage"

	"github.com/trustbloc/did-go/doc/ld/proof"
	vdrapi "github.com/trustbloc/did-go/vdr/api"

	"github.com/trustbloc/vc-go/crypto-ext/pubkey"
	"github.com/trustbloc/vc-go/crypto-ext/verifiers/bbs"
	"github.com/trustbloc/vc-go/crypto-ext/verifiers/ecdsa"
	"github.com/trustbloc/vc-go/crypto-ext/verifiers/ed25519"
	"github.com/trustbloc/vc-go/crypto-ext/verifiers/rsa"
	"github.com/trustbloc/vc-go/dataintegrity/models"
	"github.com/trustbloc/vc-go/didconfig/client"
	dcverifier "github.com/trustbloc/vc-go/didconfig/verifier"
	"github.com/trustbloc/vc-go/legacy/mem"
	"github.com/trustbloc/vc-go/presexch"
	"github.com/trustbloc/vc-go/proof/checker"
	"github.com/trustbloc/vc-go/proof/defaults"
	"github.com/trustbloc/vc-go/sdjwt/common"
	sdissuer "github.com/trustbloc/vc-go/sdjwt/issuer"
	"github.com/trustbloc/vc-go/status/resolver"
	"github.com/trustbloc/vc-go/status/validator"
	"github.com/trustbloc/vc-go/verifharness/vh"
	"github.com/trustbloc/vc-go/verifiable"
	"github.com/trustbloc/vc-go/vermethod"
)

// carried puts a hostile document into one of the forms and gives bytes.
func carried(r *rand.Rand, d interface{}, prop string) ([]byte, string) {
	k := someKey(r)

	switch r.Intn(8) {
	case 0, 1, 2:
		b, h := bytesOf(r, d)
		return b, "json " + h
	case 3, 4:
		b, h := bytesOf(r, M{"iss": issuer().DID, prop: d, "exp": 4000000000})
		if r.Intn(3) == 0 {
			b, h = bytesOf(r, d)
		}

		s := token(r, vh.J(header(k)), b, k)
		if r.Intn(4) == 0 {
			s = string(vh.J(s))
		}

		return []byte(s), "jwt " + h
	case 5:
		b, h := bytesOf(r, M{"iss": issuer().DID, prop: d})
		return []byte(vh.B64(vh.J(M{"alg": "none"})) + "." + vh.B64(b) + "."), "unsecured " + h
	case 6:
		k = issuer().Keys[vh.Pick(r, "EdDSA", "ES256", "ES384", "RS256", "PS256")]

		b := vh.MakeCose(vh.CoseHdr(k), safeCBOR(cborVal(r, M{"iss": issuer().DID, prop: d})), k).Bytes()
		if r.Intn(2) == 0 {
			return []byte(hex.EncodeToString(b)), "cwt-hex"
		}

		return b, "cwt"
	default:
		b, _ := carriedToken(r, d, prop, k)
		return vh.J(envelope(r, b)), "envelope"
	}
}

func carriedToken(r *rand.Rand, d interface{}, prop string, k *vh.Key) (interface{}, string) {
	if r.Intn(2) == 0 {
		return token(r, vh.J(header(k)), vh.J(M{"iss": issuer().DID, prop: d}), k), "jwt"
	}

	k = issuer().Keys[vh.Pick(r, "EdDSA", "ES256", "ES384", "RS256", "PS256")]

	return vh.MakeCose(vh.CoseHdr(k), safeCBOR(cborVal(r, M{"iss": issuer().DID, prop: d})), k).Bytes(), "cwt"
}

// safeCBOR encodes whatever can be encoded.
func safeCBOR(v interface{}) []byte {
	b, err := cbor.Marshal(v)
	if err != nil {
		return []byte{0xa0}
	}

	return b
}

func credentials(c *vh.Check, r *rand.Rand) {
	d, how := hostile(r, doc(r, 1+r.Intn(2)))
	b, form := carried(r, d, "vc")

	web.body = func(string) []byte { return vh.J(val(r)) }

	newProbe(c, r, "credential "+form, how, b).credential(b)
}

func presentations(c *vh.Check, r *rand.Rand) {
	v := 1 + r.Intn(2)
	src := w.FullVP(r, v, r.Intn(2) == 0)

	if r.Intn(3) == 0 {
		src["verifiableCredential"] = L{validTokens[2*r.Intn(len(validTokens)/2)], sdTokens[r.Intn(len(sdTokens))], M(vh.M(validJSON[0])), envelope(r, validTokens[0])}
	}

	if r.Intn(3) == 0 {
		src["proof"] = ldDocs[r.Intn(len(ldDocs))]["proof"]
	}

	d, how := hostile(r, src)
	b, form := carried(r, d, "vp")

	newProbe(c, r, "presentation "+form, how, b).presentation(b)
}

// tokens: hostile headers and payloads, signed.
func tokens(c *vh.Check, r *rand.Rand) {
	k := someKey(r)

	var (
		h interface{} = header(k)
		p interface{} = claims(r, doc(r, 1+r.Intn(2)))
	)

	how := ""

	if r.Intn(2) == 0 {
		h, how = hostile(r, h)
	} else {
		p, how = hostile(r, p)
	}

	hb, pb := vh.J(h), vh.J(p)
	if r.Intn(6) == 0 {
		hb, _ = text(r, hb)
	}

	if r.Intn(6) == 0 {
		pb, _ = text(r, pb)
	}

	s := token(r, hb, pb, k)

	switch r.Intn(8) {
	case 0:
		s += "." + vh.Pick(r, words...)
	case 1:
		s = strings.Replace(s, ".", "", 1)
	case 2:
		s = s + "~" + s
	}

	pr := newProbe(c, r, "token", how, s)

	switch r.Intn(3) {
	case 0:
		pr.credential([]byte(s))
	case 1:
		pr.presentation([]byte(s))
	}

	pr.tokenish([]byte(s))
}

// coses: hostile COSE messages.
func coses(c *vh.Check, r *rand.Rand) {
	k := issuer().Keys[vh.Pick(r, "EdDSA", "ES256", "ES384", "RS256", "PS256")]
	how := ""

	var hdr interface{} = vh.CoseHdr(k)

	var pay []byte

	if r.Intn(2) == 0 {
		m := vh.CoseHdr(k)
		key := vh.Pick[interface{}](r, 1, 4, 2, 3, 33, -1, "alg", "COSE_Key", "kid", 258, 999999, true, -70000)
		m[key] = vh.Pick[interface{}](r, nil, "x", 5, -8, -7, []byte{}, []byte("did:verif:issuer#eddsa"), []interface{}{}, []interface{}{nil}, []interface{}{1, 4, 99}, map[interface{}]interface{}{}, map[interface{}]interface{}{1: nil, -1: 6, -2: []byte{1}}, 1.5, true,
			safeCBOR(map[int]interface{}{1: 1, -1: 6, -2: make([]byte, 32)}), uint64(1)<<63)

		if r.Intn(4) == 0 {
			delete(m, vh.Pick[interface{}](r, 1, 4))
		}

		hdr, how = m, fmt.Sprintf("header %v", key)
	}

	p, h2 := hostile(r, claims(r, doc(r, 1+r.Intn(2))))
	pay = safeCBOR(cborVal(r, p))
	how += h2

	prot := safeCBOR(hdr)

	switch r.Intn(10) {
	case 0:
		prot = nil
	case 1:
		prot = []byte{0xa0}
	case 2:
		prot, _ = raw(r, prot)
	}

	if r.Intn(8) == 0 {
		pay, _ = raw(r, pay)
	}

	m := &vh.Cose{Prot: prot, Payload: pay}
	m.SignWith(k)

	switch r.Intn(12) {
	case 0:
		m.Payload = nil
	case 1:
		m.Sig = nil
	case 2:
		m.Unprot = hdr
	case 3:
		m.Sig = []byte{1}
	}

	b := m.Bytes()

	switch r.Intn(8) {
	case 0:
		b = b[1:] // no tag
	case 1:
		b, _ = raw(r, b)
	case 2:
		b = safeCBOR(cbor.Tag{Number: uint64(r.Intn(100)), Content: []interface{}{prot, map[interface{}]interface{}{}, pay, m.Sig}})
	case 3:
		b = safeCBOR(cbor.Tag{Number: 18, Content: vh.Pick[interface{}](r, nil, []interface{}{}, []interface{}{prot}, "x", []interface{}{nil, nil, nil, nil}, []interface{}{prot, nil, pay, []byte{}, 1}, map[interface{}]interface{}{})})
	}

	if r.Intn(3) == 0 {
		b = []byte(hex.EncodeToString(b))
	}

	pr := newProbe(c, r, "cose", how, b)

	switch r.Intn(3) {
	case 0:
		pr.credential(b)
	case 1:
		pr.presentation(b)
	}

	pr.tokenish(b)
}

// anyBytes: raw alterations of anything valid, given to anything.
func anyBytes(c *vh.Check, r *rand.Rand) {
	var b []byte

	switch r.Intn(8) {
	case 0, 1:
		b = []byte(validTokens[r.Intn(len(validTokens))])
	case 2:
		b = validCoses[r.Intn(len(validCoses))]
	case 3:
		b = []byte(sdTokens[r.Intn(len(sdTokens))])
	case 4:
		b = validJSON[r.Intn(len(validJSON))]
	case 5:
		b = vh.J(ldDocs[r.Intn(len(ldDocs))])
	case 6:
		b = []byte(vh.Pick(r, words...))
	default:
		b = make([]byte, r.Intn(200))
		r.Read(b)
	}

	how := "as-is"

	for i := 0; i < r.Intn(4); i++ {
		b, how = raw(r, b)
	}

	newProbe(c, r, "bytes", how, b).anything(b)
}

// sdjwts: hostile SD-JWT claims, disclosures and key binding.
func sdjwts(c *vh.Check, r *rand.Rand) {
	k := someKey(r)
	h := vh.Pick(r, crypto.SHA256, crypto.SHA384, crypto.SHA512)
	alg := map[crypto.Hash]string{crypto.SHA256: "sha-256", crypto.SHA384: "sha-384", crypto.SHA512: "sha-512"}[h]

	// bottom up, every disclosure may be referenced
	var ds []string

	var dig L

	n := 1 + r.Intn(5)

	for i := 0; i < n; i++ {
		var v interface{} = vh.Val(r, 1, true)

		switch r.Intn(5) {
		case 0:
			v = M{"_sd": append(L{}, dig...), "x": 1}
		case 1:
			if len(dig) > 0 {
				v = L{"a", M{"...": dig[0]}}
			}
		case 2:
			v = val(r)
		}

		var parts L

		switch r.Intn(4) {
		case 0:
			parts = L{"salt", v}
		case 1:
			parts = L{vh.Pick[interface{}](r, "salt", 5, nil, L{}), vh.Pick[interface{}](r, "name", "_sd", "...", "", nil, 5, M{}, "iss", "cnf", "vc", "_sd_alg"), v}
		default:
			parts = L{"salt", fmt.Sprintf("n%d", i), v}
		}

		if r.Intn(10) == 0 {
			parts = vh.Pick(r, L{}, L{"salt"}, L{"a", "b", "c", "d"}, L{nil}, L{nil, nil}, L{M{}, M{}, M{}})
		}

		e := vh.B64(vh.J(parts))

		switch r.Intn(14) {
		case 0:
			e = vh.B64(vh.J(val(r)))
		case 1:
			e = vh.Pick(r, words...)
		case 2:
			e = twist(r, e)
		}

		e = strings.ReplaceAll(e, "~", "")
		ds = append(ds, e)
		dig = append(dig, vh.SDDigest(e, h))
	}

	var pay interface{} = M{"iss": issuer().DID, "_sd": dig, "_sd_alg": alg, "iat": 1600000000, "exp": 4000000000, "list": L{M{"...": dig[len(dig)-1]}, "x"}, "o": M{"_sd": L{dig[0]}},
		"cnf": M{"jwk": vh.Norm(w.Ents["holder"].Keys["EdDSA"].JWK)}}

	if r.Intn(4) == 0 {
		pay = M{"iss": issuer().DID, "vc": pay, "_sd_alg": alg}
	}

	how := "as-is"
	if r.Intn(4) != 0 {
		pay, how = hostile(r, pay)
	}

	hdr, hh := interface{}(M{"alg": k.Alg, "kid": k.ID, "typ": "vc+sd-jwt"}), ""
	if r.Intn(5) == 0 {
		hdr, hh = hostile(r, hdr)
	}

	jws := token(r, vh.J(hdr), vh.J(pay), k)

	kb := ""

	if r.Intn(2) == 0 {
		hk := w.Ents["holder"].Keys["EdDSA"]
		kh, kp := interface{}(M{"alg": "EdDSA", "typ": vh.Pick(r, "kb+jwt", "JWT", "")}), interface{}(M{"nonce": "n", "aud": "a", "iat": 1600000000})

		if r.Intn(2) == 0 {
			kp, _ = hostile(r, kp)
		} else {
			kh, _ = hostile(r, kh)
		}

		kb = token(r, vh.J(kh), vh.J(kp), hk)
	}

	switch r.Intn(8) {
	case 0:
		ds = append(ds, ds...)
	case 1:
		ds = append(ds, "", "")
	case 2:
		ds = nil
	}

	s := comb(append(append([]string{jws}, ds...), kb)...)

	p := newProbe(c, r, "sdjwt", how+hh, s)

	m, _ := pay.(M)

	p.some(5, []op{
		{"holder.Parse", func() error { return holderParse(r, s) }},
		{"verifier.Parse", func() error { return verifierParse(r, s) }},
		{"verifier.Parse", func() error { return verifierParse(r, s) }},
		{"common.GetDisclosureClaims", func() error {
			cl, err := common.GetDisclosureClaims(ds, h)
			if err != nil || m == nil {
				return err
			}

			_, err = common.GetDisclosedClaims(cl, vh.CloneM(m))

			return err
		}},
		{"common.claims", func() error {
			if m == nil {
				return nil
			}

			_, e1 := common.GetCNF(m)
			_, e2 := common.GetSDAlg(m)
			_, e3 := common.GetCryptoHashFromClaims(m)
			_, e4 := common.GetDisclosureDigests(m)
			_, _ = common.GetKeyFromVC("cnf", m)
			_ = presexch.ExtractArrayValuesForSDJWTV5(m)

			for _, e := range []error{e1, e2, e3, e4} {
				if e != nil {
					return e
				}
			}

			return nil
		}},
		{"issuer.New", func() error {
			_, err := sdissuer.New(issuer().DID, pay, jose.Headers{}, vh.JoseSigner{K: k}, sdissuer.WithStructuredClaims(r.Intn(2) == 0), sdissuer.WithDecoyDigests(r.Intn(2) == 0), sdissuer.WithHashAlgorithm(h),
				sdissuer.WithSDJWTVersion(vh.Pick(r, common.SDJWTVersionV2, common.SDJWTVersionV5)), sdissuer.WithRecursiveClaimsObjects([]string{"o", "list"}), sdissuer.WithAlwaysIncludeObjects([]string{"list", "o.x"}),
				sdissuer.WithNonSelectivelyDisclosableClaims([]string{"list[0]", "", "o"}))

			return err
		}},
		{"issuer.NewFromVC", func() error {
			if m == nil {
				return nil
			}

			_, err := sdissuer.NewFromVC(vh.CloneM(m), jose.Headers{}, vh.JoseSigner{K: k}, sdissuer.WithSDJWTVersion(vh.Pick(r, common.SDJWTVersionV2, common.SDJWTVersionV5)))

			return err
		}},
		{"ParseCredential", func() error {
			o, _ := copts(r)

			vc, err := verifiable.ParseCredential([]byte(s), o...)
			if err == nil {
				p.operate(vc)
			}

			return err
		}},
	})
}

// sdCredentials: SD-JWT credentials whose claims are hostile.
func sdCredentials(c *vh.Check, r *rand.Rand) {
	v := 1 + r.Intn(2)
	d := vh.Cred(r, vh.CredOpts{V: v, Issuer: issuer().DID, LDSafe: true, OneSubject: true, NeedID: true})
	d["credentialSubject"] = vh.AsList(d["credentialSubject"])[0]
	t := w.SDJWTCred(issuer(), "EdDSA", d, verifiable.MakeSDJWTWithVersion(vh.Pick(r, common.SDJWTVersionV2, common.SDJWTVersionV5)))
	parts := strings.Split(t, "~")
	pay, how := hostile(r, vh.JWTPart(parts[0], 1))
	k := issuer().Keys["EdDSA"]
	parts[0] = token(r, vh.J(vh.JWTPart(parts[0], 0)), vh.J(pay), k)

	if r.Intn(3) == 0 {
		r.Shuffle(len(parts)-2, func(i, j int) { parts[i+1], parts[j+1] = parts[j+1], parts[i+1] })
	}

	b := []byte(comb(parts...))

	switch r.Intn(6) {
	case 0:
		b = vh.J(envelope(r, string(b)))
	case 1:
		b = vh.J(string(b))
	}

	newProbe(c, r, "sdvc", how, b).credential(b)
}

// ldProofs: signed documents with hostile proofs (or claims).
func ldProofs(c *vh.Check, r *rand.Rand) {
	d := vh.CloneM(ldDocs[r.Intn(len(ldDocs))])
	how := ""

	switch r.Intn(4) {
	case 0:
		d, how = hostileM(r, d)
	case 1:
		d["proof"] = L{d["proof"], val(r)}
		how = "second"
	default:
		d["proof"], how = hostile(r, d["proof"])
	}

	b := vh.J(d)
	p := newProbe(c, r, "ldproof", how, b)

	opts := []verifiable.CredentialOpt{verifiable.WithProofChecker(w.Checker), verifiable.WithJSONLDDocumentLoader(w.Loader), verifiable.WithDataIntegrityVerifier(div), verifiable.WithDisabledRelatedResourceCheck()}
	if r.Intn(2) == 0 {
		opts = append(opts, verifiable.WithCredDisableValidation())
	}

	var vc *verifiable.Credential

	if p.call("ParseCredential/ld", func() (err error) { vc, err = verifiable.ParseCredential(b, opts...); return err }) {
		p.operate(vc)
		p.call("CheckProof/ld", func() error { return vc.CheckProof(opts...) })
	}

	vp := M{"@context": d["@context"], "type": "VerifiablePresentation", "verifiableCredential": L{d}, "proof": d["proof"]}
	vb := vh.J(vp)
	newProbe(c, r, "ldproof-vp", how, vb).call("ParsePresentation/ld", func() error {
		_, err := verifiable.ParsePresentation(vb, verifiable.WithPresProofChecker(w.Checker), verifiable.WithPresJSONLDDocumentLoader(w.Loader), verifiable.WithPresHolderCheck(true))
		return err
	})
}

func diExpect(r *rand.Rand) *models.ProofOptions {
	return &models.ProofOptions{Purpose: vh.Pick(r, "assertionMethod", "authentication", ""), ProofType: models.DataIntegrityProof, Domain: vh.Pick(r, "", "", "d"), Challenge: vh.Pick(r, "", "", "c")}
}

func diProofs(c *vh.Check, r *rand.Rand) {
	d := vh.CloneM(diDocs[r.Intn(len(diDocs))])
	how := ""

	switch r.Intn(4) {
	case 0:
		d, how = hostileM(r, d)
	case 1:
		d["proof"] = L{d["proof"], val(r)}
		how = "second"
	default:
		d["proof"], how = hostile(r, d["proof"])
	}

	b, h := bytesOf(r, d)
	p := newProbe(c, r, "dataintegrity", how+h, b)
	p.call("di.VerifyProof", func() error { return div.VerifyProof(b, diExpect(r)) })

	s := vh.DISuites[r.Intn(len(vh.DISuites))]
	p.call("di.AddProof", func() error {
		_, err := w.DISigner(issuer().Keys[s.Alg]).AddProof(b, w.DIOpts(r, issuer(), s))
		return err
	})
	p.credential(b)
}

// bbs: hostile derived proofs, hostile reveal documents.
func bbsFam(c *vh.Check, r *rand.Rand) {
	opts := []verifiable.CredentialOpt{verifiable.WithProofChecker(w.Checker), verifiable.WithJSONLDDocumentLoader(w.Loader), verifiable.WithCredDisableValidation(), verifiable.WithDisabledRelatedResourceCheck()}

	d := vh.CloneM(bbsDerived[r.Intn(len(bbsDerived))])
	how := ""

	if pm := vh.Proofs(d); len(pm) > 0 && r.Intn(2) == 0 {
		pv := must(decode64(fmt.Sprint(pm[0]["proofValue"])))
		pv, how = raw(r, pv)
		pm[0]["proofValue"] = b64ish(r, pv)

		if r.Intn(4) == 0 {
			pm[0]["nonce"] = val(r)
		}
	} else {
		d, how = hostileM(r, d)
	}

	b := vh.J(d)
	p := newProbe(c, r, "bbs-derived", how, b)

	p.call("ParseCredential/bbs", func() error { _, err := verifiable.ParseCredential(b, opts...); return err })

	src := bbsDocs[r.Intn(len(bbsDocs))]
	fr, fh := hostileM(r, M{"@context": src["@context"], "type": "VerifiableCredential", "@explicit": true, "issuer": M{}, "issuanceDate": M{}, "credentialSubject": M{"@explicit": true, "id": M{}}})

	sd := src
	if r.Intn(2) == 0 {
		sd, how = hostileM(r, src)
	}

	sb := vh.J(sd)

	p = newProbe(c, r, "bbs-reveal", fh, vh.J(L{fr, sd}))

	p.call("derive", func() error {
		vc, err := verifiable.ParseCredential(sb, verifiable.WithDisabledProofCheck(), verifiable.WithJSONLDDocumentLoader(w.Loader), verifiable.WithCredDisableValidation(), verifiable.WithDisabledRelatedResourceCheck())
		if err != nil {
			return err
		}

		_, err = vc.GenerateBBSSelectiveDisclosure(fr, []byte("nonce"), w.BBSProofCreator(issuer()), opts...)

		return err
	})
}

func decode64(s string) ([]byte, error) {
	if b, err := vh.UnB64(s); err == nil {
		return b, nil
	}

	var b []byte
	err := json.Unmarshal([]byte(`"`+s+`"`), &b)

	return b, err
}

func statuses(c *vh.Check, r *rand.Rand) {
	v := 1 + r.Intn(2)
	d := vh.Cred(r, vh.CredOpts{V: v, Issuer: issuer().DID, LDSafe: true, OneSubject: true, NeedID: true})
	ent := interface{}(statusEntry(r, v))
	lst := interface{}(list(r, v))
	how := ""

	switch r.Intn(4) {
	case 0:
		ent, how = hostile(r, ent)
	case 1, 2:
		lst, how = hostile(r, lst)
		how = "list " + how
	default: // hostile encoded list
		var buf bytes.Buffer

		z := gzip.NewWriter(&buf)
		_, _ = z.Write(make([]byte, r.Intn(2000)))
		_ = z.Close()

		gz := buf.Bytes()
		for i := 0; i < r.Intn(3); i++ {
			gz, how = raw(r, gz)
		}

		lst.(M)["credentialSubject"].(M)["encodedList"] = vh.Pick(r, "", "u", "z", "m") + b64ish(r, gz)
	}

	b, form := carried(r, lst, "vc")

	if r.Intn(2) == 0 {
		b, form = vh.J(lst), "json"
	}

	web.body = func(string) []byte { return b }
	web.code = vh.Pick(r, 200, 200, 200, 200, 404, 500, 302)

	if r.Intn(3) == 0 {
		ent = L{ent, vh.Clone(ent), val(r)}
	}

	d["credentialStatus"] = ent
	cb := vh.J(d)

	p := newProbe(c, r, "status "+form, how, vh.J(L{d, string(b)}))

	p.call("resolver.Resolve", func() error {
		_, err := resolver.NewResolver(&http.Client{Transport: web}, allDIDs{}, "").Resolve(vh.Pick(r, listURL, listURL, "did:verif:issuer?service=x&queries=AA", "did:verif:issuer", "", ":", "%zz", "did:verif:issuer?service=&queries=%5B%5D"))
		return err
	})

	var vc *verifiable.Credential

	if !p.call("ParseCredential/lax", func() (err error) {
		vc, err = verifiable.ParseCredential(cb, w.Lax()...)
		return err
	}) {
		return
	}

	p.call("status.VerifyStatus", func() error { return statusClient().VerifyStatus(vc) })

	for _, s := range vc.Contents().Status {
		s := s

		p.call("status.validator", func() error {
			val, err := validator.GetValidator(vh.Pick(r, "StatusList2021Entry", "BitstringStatusListEntry"))
			if err != nil {
				return err
			}

			e1 := val.ValidateStatus(s)
			_, e2 := val.GetStatusListIndex(s)
			_, e3 := val.GetStatusVCURI(s)
			_, e4 := val.GetStatusPurpose(s)

			for _, e := range []error{e1, e2, e3, e4} {
				if e != nil {
					return e
				}
			}

			return nil
		})
	}
}

// ---- DID documents ----

// registry serves one document for every DID, in front of the world.
type registry struct {
	docs map[string]*did.Doc
}

func (g *registry) Resolve(id string, o ...vdrapi.DIDMethodOption) (*did.DocResolution, error) {
	if d, ok := g.docs[id]; ok {
		return &did.DocResolution{DIDDocument: d}, nil
	}

	return w.Resolve(id, o...)
}

func hostileDoc(r *rand.Rand, e *vh.Entity) (*did.Doc, string) {
	src := w.Docs[e.DID]

	if r.Intn(2) == 0 { // through JSON
		b, err := src.JSONBytes()
		if err == nil {
			for i := 0; i < 10; i++ {
				m, how := hostileM(r, vh.M(b))
				if d, err := did.ParseDocument(vh.J(m)); err == nil {
					return d, "json " + how
				}
			}
		}
	}

	c := *src
	c.VerificationMethod = append([]did.VerificationMethod{}, src.VerificationMethod...)
	c.AssertionMethod = append([]did.Verification{}, src.AssertionMethod...)
	c.Authentication = append([]did.Verification{}, src.Authentication...)

	var how []string

	twistVM := func(vm did.VerificationMethod) did.VerificationMethod {
		typ, id, ctl := vm.Type, vm.ID, vm.Controller
		if r.Intn(2) == 0 {
			typ = vh.Pick(r, "JsonWebKey2020", "Ed25519VerificationKey2018", "Ed25519VerificationKey2020", "Multikey", "Bls12381G2Key2020", "EcdsaSecp256k1VerificationKey2019", "RsaVerificationKey2018", "", "X")
		}

		if r.Intn(4) == 0 {
			id = vh.Pick(r, "", "#eddsa", "eddsa", "x", "did:verif:issuer")
		}

		val := vm.Value

		switch r.Intn(6) {
		case 0:
			val = nil
		case 1:
			val = []byte{}
		case 2:
			val, _ = raw(r, val)
		case 3:
			val = make([]byte, r.Intn(100))
			r.Read(val)
		}

		n := did.NewVerificationMethodFromBytes(id, typ, ctl, val)

		if r.Intn(3) == 0 {
			if k, ok := hostileJWK(r, e); ok {
				if m, err := did.NewVerificationMethodFromJWK(id, typ, ctl, k); err == nil {
					n = m
				}
			}
		}

		how = append(how, fmt.Sprintf("%s/%d", typ, len(n.Value)))

		return *n
	}

	for i := range c.VerificationMethod {
		if r.Intn(3) == 0 {
			vm := twistVM(c.VerificationMethod[i])

			for j := range c.AssertionMethod {
				if c.AssertionMethod[j].VerificationMethod.ID == c.VerificationMethod[i].ID {
					c.AssertionMethod[j].VerificationMethod = vm
				}
			}

			for j := range c.Authentication {
				if c.Authentication[j].VerificationMethod.ID == c.VerificationMethod[i].ID {
					c.Authentication[j].VerificationMethod = vm
				}
			}

			c.VerificationMethod[i] = vm
		}
	}

	switch r.Intn(6) {
	case 0:
		c.VerificationMethod = nil
	case 1:
		c.AssertionMethod = nil
	case 2:
		c.AssertionMethod = append(c.AssertionMethod, did.Verification{})
	case 3:
		c.ID = vh.Pick(r, "", "x", "did:verif:other")
	}

	return &c, "struct " + cut(strings.Join(how, ","), 200)
}

func hostileJWK(r *rand.Rand, e *vh.Entity) (*jwk.JWK, bool) {
	src := e.Keys[vh.Pick(r, vh.AllAlgs...)].JWK
	if src == nil {
		return nil, false
	}

	b, err := src.MarshalJSON()
	if err != nil {
		return nil, false
	}

	m, _ := hostileM(r, vh.M(b))
	k := &jwk.JWK{}

	var e2 error

	if p, _, _ := vh.Guard(func() { e2 = k.UnmarshalJSON(vh.J(m)) }); p || e2 != nil {
		return nil, false
	}

	return k, true
}

func didDocs(c *vh.Check, r *rand.Rand) {
	d, how := hostileDoc(r, issuer())
	g := &registry{docs: map[string]*did.Doc{issuer().DID: d}}
	res := vermethod.NewVDRResolver(g)
	chk := defaults.NewDefaultProofChecker(res)

	in, _ := d.JSONBytes()
	p := newProbe(c, r, "diddoc", how, in)

	p.call("vermethod.Resolve", func() error {
		_, err := res.ResolveVerificationMethod(vh.Pick(r, issuer().Keys["EdDSA"].ID, issuer().Keys["ES256"].ID, issuer().DID, "#eddsa", "", issuer().DID+"#", "eddsa", issuer().DID+"?a#eddsa"), vh.Pick(r, issuer().DID, ""))
		return err
	})

	i := r.Intn(len(validTokens))
	p.call("ParseCredential/jwt/diddoc", func() error {
		_, err := verifiable.ParseCredential([]byte(validTokens[i-i%2]), verifiable.WithProofChecker(chk), verifiable.WithJSONLDDocumentLoader(w.Loader), verifiable.WithDisabledRelatedResourceCheck())
		return err
	})

	j := r.Intn(len(validCoses))
	p.call("ParseCredential/cwt/diddoc", func() error {
		_, err := verifiable.ParseCredential(validCoses[j], verifiable.WithProofChecker(chk), verifiable.WithJSONLDDocumentLoader(w.Loader), verifiable.WithDisabledRelatedResourceCheck())
		return err
	})

	l := ldDocs[r.Intn(len(ldDocs))]
	p.call("ParseCredential/ld/diddoc", func() error {
		_, err := verifiable.ParseCredential(vh.J(l), verifiable.WithProofChecker(chk), verifiable.WithJSONLDDocumentLoader(w.Loader), verifiable.WithDisabledRelatedResourceCheck())
		return err
	})

	dv := must(diVerifierOver(g))
	dd := diDocs[r.Intn(len(diDocs))]
	p.call("di.VerifyProof/diddoc", func() error {
		return dv.VerifyProof(vh.J(dd), &models.ProofOptions{Purpose: "assertionMethod", ProofType: models.DataIntegrityProof})
	})

	p.call("VerifyDIDProof", func() error {
		return verifiable.VerifyDIDProof(d, verifiable.WithDIDProofChecker(chk), verifiable.WithDIDJSONLDDocumentLoader(w.Loader), verifiable.WithDIDDataIntegrityVerifier(dv))
	})
}

// keysFam: hostile verification methods and signatures to the signature verifiers.
func keysFam(c *vh.Check, r *rand.Rand) {
	alg := vh.Pick(r, vh.AllAlgs...)
	k := issuer().Keys[alg]
	msg := []byte("message")

	sig := []byte{}
	if alg != "BBS" {
		sig = must(k.Sign(msg))
	}

	how := ""

	if r.Intn(2) == 0 {
		sig, how = raw(r, sig)
	}

	val := k.Bytes

	var j *jwk.JWK

	if x, ok := hostileJWK(r, issuer()); ok && r.Intn(2) == 0 {
		j = x
	} else if r.Intn(2) == 0 {
		j = k.JWK
	}

	if r.Intn(2) == 0 {
		val, _ = raw(r, val)
	}

	vm := &vermethod.VerificationMethod{Type: vh.Pick(r, "JsonWebKey2020", "Ed25519VerificationKey2018", "Ed25519VerificationKey2020", "Multikey", "Bls12381G2Key2020", "EcdsaSecp256k1VerificationKey2019", "RsaVerificationKey2018", ""), Value: val, JWK: j}

	p := newProbe(c, r, "key", how+vm.Type, vh.J(M{"sig": sig, "value": val, "jwk": fmt.Sprintf("%+v", j), "alg": alg}))
	pk := &pubkey.PublicKey{Type: vh.Pick(r, pubkeyTypes...)}

	if j != nil && r.Intn(2) == 0 {
		pk.JWK = j
	} else {
		pk.BytesKey = &pubkey.BytesKey{Bytes: val}
	}

	p.some(3, []op{
		{"ed25519.Verify", func() error { return ed25519.New().Verify(sig, msg, pk) }},
		{"ES256.Verify", func() error { return ecdsa.NewES256().Verify(sig, msg, pk) }},
		{"ES384.Verify", func() error { return ecdsa.NewES384().Verify(sig, msg, pk) }},
		{"ES521.Verify", func() error { return ecdsa.NewES521().Verify(sig, msg, pk) }},
		{"ES256K.Verify", func() error { return ecdsa.NewSecp256k1().Verify(sig, msg, pk) }},
		{"RS256.Verify", func() error { return rsa.NewRS256().Verify(sig, msg, pk) }},
		{"PS256.Verify", func() error { return rsa.NewPS256().Verify(sig, msg, pk) }},
		{"bbs.Verify", func() error { return bbs.NewBBSG2SignatureVerifier().Verify(sig, msg, pk) }},
		{"bbsproof.Verify", func() error {
			return bbs.NewBBSG2SignatureProofVerifier().Verify(sig, msg, pk, &proof.Proof{Nonce: vh.Pick(r, nil, []byte{}, []byte("n"))})
		}},
	})

	h := jose.Headers{"alg": alg, "kid": k.ID}
	if r.Intn(3) == 0 {
		hm, _ := hostileM(r, M{"alg": alg, "kid": k.ID})
		h = hm
	}

	p.some(2, []op{
		{"embeddedVM.CheckJWTProof", func() error {
			return checker.NewEmbeddedVMProofChecker(vm, allOpts()...).CheckJWTProof(h, "", msg, sig)
		}},
		{"embeddedJWK.CheckJWTProof", func() error {
			if j == nil {
				return nil
			}

			return checker.NewEmbeddedJWKProofChecker(j, allOpts()...).CheckJWTProof(h, "", msg, sig)
		}},
		{"checker.CheckJWTProof", func() error { return w.Checker.CheckJWTProof(h, vh.Pick(r, issuer().DID, ""), msg, sig) }},
		{"checker.CheckJWTProof/vm", func() error {
			return defaults.NewDefaultProofChecker(fixedVM{vm}).CheckJWTProof(h, vh.Pick(r, issuer().DID, ""), msg, sig)
		}},
	})
}

type fixedVM struct{ vm *vermethod.VerificationMethod }

func (f fixedVM) ResolveVerificationMethod(string, string) (*vermethod.VerificationMethod, error) {
	return f.vm, nil
}

// ---- schemas, related resources ----

func schemaFam(c *vh.Check, r *rand.Rand) {
	s := M{"$schema": "http://json-schema.org/draft-07/schema#", "type": "object", "required": L{"id"}, "properties": M{"id": M{"type": "string", "pattern": "^x", "maxLength": 5, "enum": L{"a"}}, "credentialSubject": M{"type": "object", "properties": M{"a": M{"minimum": 5}},
		"additionalProperties": false}}, "definitions": M{"a": M{"$ref": "#/definitions/a"}, "b": M{"allOf": L{M{"$ref": "#"}}}}}

	switch r.Intn(5) {
	case 0:
		s["allOf"] = L{M{"$ref": "#/definitions/a"}}
	case 1:
		s["properties"].(M)["issuer"] = M{"$ref": "#/definitions/b"}
	}

	h, how := hostile(r, s)
	b, th := bytesOf(r, h)

	web.body = func(string) []byte { return b }

	d := vh.Cred(r, vh.CredOpts{V: 1 + r.Intn(2), Issuer: issuer().DID, LDSafe: true, OneSubject: true, NeedID: true})

	var cs interface{} = M{"id": "https://schema.verif.example/s.json", "type": "JsonSchemaValidator2018"}
	if r.Intn(4) == 0 {
		cs, _ = hostile(r, L{cs, cs})
	}

	d["credentialSchema"] = cs
	cb := vh.J(d)
	p := newProbe(c, r, "jsonschema", how+th, vh.J(L{d, string(b)}))

	ld := verifiable.NewCredentialSchemaLoaderBuilder().SetSchemaDownloadClient(&http.Client{Transport: web}).SetCache(verifiable.NewExpirableSchemaCache(1<<20, time.Hour)).Build()

	p.call("ParseCredential/schema", func() error {
		_, err := verifiable.ParseCredential(cb, verifiable.WithDisabledProofCheck(), verifiable.WithJSONLDDocumentLoader(w.Loader), verifiable.WithCredentialSchemaLoader(ld), verifiable.WithDisabledRelatedResourceCheck())
		return err
	})

	p.call("ParseCredential/WithSchema", func() error {
		_, err := verifiable.ParseCredential(cb, verifiable.WithDisabledProofCheck(), verifiable.WithJSONLDDocumentLoader(w.Loader), verifiable.WithSchema(string(b)), verifiable.WithNoCustomSchemaCheck(), verifiable.WithDisabledRelatedResourceCheck())
		return err
	})
}

func related(c *vh.Check, r *rand.Rand) {
	d := vh.Cred(r, vh.CredOpts{V: 2, Issuer: issuer().DID, LDSafe: true, OneSubject: true, NeedID: true})
	rr, how := hostile(r, L{M{"id": "https://res.verif.example/a", "digestSRI": "sha256-u47DEQpj8HBSa-_TImW-5JCeuQeRkm5NMpJWZG3hSuFU", "mediaType": "text/plain"}, M{"id": "https://res.verif.example/b", "digestMultibase": "uEiAB"}})
	d["relatedResource"] = rr
	b := vh.J(d)

	web.body = func(string) []byte { return []byte("body") }

	p := newProbe(c, r, "related", how, b)

	var vc *verifiable.Credential

	if p.call("ParseCredential/related", func() (err error) {
		vc, err = verifiable.ParseCredential(b, verifiable.WithDisabledProofCheck(), verifiable.WithJSONLDDocumentLoader(w.Loader), verifiable.WithCredDisableValidation())
		return err
	}) {
		p.operate(vc)
	}

	if p.call("ParseCredential/norelated", func() (err error) {
		vc, err = verifiable.ParseCredential(b, w.Lax()...)
		return err
	}) {
		p.call("related.Validate", func() error {
			return verifiable.NewRelatedResourceValidator(verifiable.WithHTTPClient(&http.Client{Transport: web})).Validate([]*verifiable.Credential{vc})
		})
	}
}

func didConfigs(c *vh.Check, r *rand.Rand) {
	k := issuer().Keys["EdDSA"]
	d := M{"@context": L{vh.CtxV1, vh.CtxDIDConf}, "issuer": issuer().DID, "issuanceDate": "2020-12-04T14:08:28-06:00", "expirationDate": "2035-12-04T14:08:28-06:00", "type": L{"VerifiableCredential", "DomainLinkageCredential"},
		"credentialSubject": M{"id": issuer().DID, "origin": "https://site.example"}}
	tok := vh.JWS(header(k), vh.J(M{"iss": issuer().DID, "sub": issuer().DID, "vc": d, "exp": 4000000000, "nbf": 1600000000}), k)
	signed := must(w.LDSign(d, w.LDContext(r, issuer(), vh.LDSuites[0])))

	how := ""
	cfg := M{"@context": dcverifier.ContextV1, "linked_dids": L{signed, tok}}

	switch r.Intn(4) {
	case 0:
		x, h := hostile(r, M{"iss": issuer().DID, "sub": issuer().DID, "vc": d, "exp": 4000000000, "nbf": 1600000000})
		hd := interface{}(header(k))

		if r.Intn(3) == 0 {
			hd, _ = hostile(r, hd)
		}

		cfg["linked_dids"] = L{token(r, vh.J(hd), vh.J(x), k)}
		how = "token " + h
	case 1:
		x, h := hostile(r, d)
		cfg["linked_dids"] = L{x}
		how = "unsigned " + h

		if m, ok := x.(M); ok {
			m["proof"] = signed["proof"]
		}
	default:
		cfg, how = hostileM(r, cfg)
	}

	b, h := bytesOf(r, cfg)
	web.body = func(string) []byte { return b }
	p := newProbe(c, r, "didconfig", how+h, b)
	dd := vh.Pick(r, issuer().DID, issuer().DID, issuer().DID, "", "x", "did:key:z6Mk")
	origin := vh.Pick(r, "https://site.example", "https://site.example", "", ":", "http://%zz", "site.example", "https://")

	p.call("didconfig.VerifyDIDAndDomain", func() error {
		return dcverifier.VerifyDIDAndDomain(b, dd, origin, dcverifier.WithJSONLDDocumentLoader(w.Loader), dcverifier.WithVDRegistry(w))
	})
	p.call("didconfig.client", func() error {
		return client.New(client.WithJSONLDDocumentLoader(w.Loader), client.WithVDRegistry(w), client.WithHTTPClient(&http.Client{Transport: web})).VerifyDIDAndDomain(dd, origin)
	})
}

// ---- small functions ----

func smalls(c *vh.Check, r *rand.Rand) {
	s := vh.Pick(r, words...)
	if r.Intn(2) == 0 {
		s = twist(r, s)
	}

	x, how := hostile(r, vh.Pick[interface{}](r, M{"id": "did:x", "type": "T", "name": "n"}, M{"@context": L{vh.CtxV1, vh.CtxVerif}, "type": "VerifiableCredential"}, L{"a", M{"id": "x"}}, "x"))
	b := vh.J(x)
	p := newProbe(c, r, "small", how, vh.J(L{s, x}))

	m, _ := x.(M)
	if m == nil {
		m = M{}
	}

	var l []string
	for _, e := range vh.AsList(x) {
		if t, ok := e.(string); ok {
			l = append(l, t)
		}
	}

	p.some(3, []op{
		{"ParseDataURL", func() error { _, _, _, err := verifiable.ParseDataURL(s); return err }},
		{"IssuerFromJSON", func() error {
			i, err := verifiable.IssuerFromJSON(m)
			if err == nil {
				_ = verifiable.IssuerToJSON(*i)
			}
			return err
		}},
		{"SubjectFromJSON", func() error {
			i, err := verifiable.SubjectFromJSON(m)
			if err == nil {
				_ = verifiable.SubjectToJSON(i)
			}
			return err
		}},
		{"GetBaseContext", func() error {
			_, err := verifiable.GetBaseContext(l)
			_ = verifiable.IsBaseContext(l, vh.CtxV1)
			return err
		}},
		{"GetBaseContextFromRawDocument", func() error {
			_, err := verifiable.GetBaseContextFromRawDocument(m)
			_ = verifiable.HasBaseContext(m, vh.CtxV1)
			return err
		}},
		{"SDJWT.hashes", func() error {
			_, err := common.ParseCryptoHashAlg(s)
			if err == nil {
				_, err = common.GetHash(crypto.SHA256, s)
			}
			return err
		}},
		{"validator.GetValidator", func() error { _, err := validator.GetValidator(s); return err }},
		{"JWTCredClaims.UnmarshalJSON", func() error { var cl verifiable.JWTCredClaims; return cl.UnmarshalJSON(b) }},
		{"vermethod.Resolve", func() error {
			_, err := w.Resolver.ResolveVerificationMethod(s, vh.Pick(r, "", s, issuer().DID))
			return err
		}},
		{"SubjectID", func() error {
			_, err := verifiable.SubjectID([]verifiable.Subject{})
			_ = verifiable.SerializeSubject(nil)
			return err
		}},
		{"JWTVCToJSON", func() error { _, err := verifiable.JWTVCToJSON([]byte(s)); return err }},
		{"CreateCredential", func() error {
			vc, err := verifiable.CreateCredential(verifiable.CredentialContents{Context: l, Types: l, Issuer: &verifiable.Issuer{ID: s}, Subject: []verifiable.Subject{{}, {ID: s}}, Status: []*verifiable.TypedID{{ID: s}}}, m)
			if err == nil {
				p.operate(vc)
			}

			return err
		}},
		{"presexch.SubmissionMap", func() error {
			_, err := fixedPD().Match(nil, w.Loader, presexch.WithMergedSubmissionMap(m))
			return err
		}},
	})
}

func stores(c *vh.Check, r *rand.Rand) {
	pr := mem.NewProvider()
	name := vh.Pick(r, words...)
	p := newProbe(c, r, "store", "", name)

	var st spi.Store

	if !p.call("mem.OpenStore", func() (err error) { st, err = pr.OpenStore(name); return err }) {
		return
	}

	for i := 0; i < 8; i++ {
		a, b := vh.Pick(r, words...), vh.Pick(r, words...)
		p.some(2, []op{
			{"mem.Put", func() error { return st.Put(a, []byte(b), spi.Tag{Name: b, Value: a}) }},
			{"mem.Put/nil", func() error { return st.Put(a, nil) }},
			{"mem.Get", func() error { _, err := st.Get(a); return err }},
			{"mem.GetTags", func() error { _, err := st.GetTags(a); return err }},
			{"mem.GetBulk", func() error { _, err := st.GetBulk(a, b); return err }},
			{"mem.Delete", func() error { return st.Delete(a) }},
			{"mem.Batch", func() error { return st.Batch([]spi.Operation{{Key: a, Value: []byte(b)}, {Key: b}}) }},
			{"mem.Config", func() error { return pr.SetStoreConfig(a, spi.StoreConfiguration{TagNames: []string{a, b}}) }},
			{"mem.Query", func() error {
				it, err := st.Query(vh.Pick(r, a, a+":"+b, a+"&&"+b, ":", "::", "&&", a+":"+b+"&&"+b+":"+a))
				if err != nil {
					return err
				}

				for j := 0; j < 5; j++ {
					ok, err := it.Next()
					if err != nil {
						return err
					}

					if !ok {
						break
					}

					_, _ = it.Key()
					_, _ = it.Value()
					_, _ = it.Tags()
				}

				_, _ = it.Key()
				_, _ = it.Value()
				_, _ = it.Tags()
				_, _ = it.TotalItems()

				return it.Close()
			}},
		})
	}
}
