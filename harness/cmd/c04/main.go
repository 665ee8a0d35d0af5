// C04: CWT credentials are accepted only when their issuer really signed them.
package main

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"math/rand"
	"sort"
	"strings"

	"github.com/fxamacker/cbor/v2"
	"github.com/veraison/go-cose"

	"github.com/trustbloc/vc-go/cwt"
	"github.com/trustbloc/vc-go/verifharness/vh"
	"github.com/trustbloc/vc-go/verifiable"
)

var w *vh.World

const mallory = "mallory"

// algorithms of the entities' keys that have a COSE identifier registered with the default checker.
var algs = []string{"EdDSA", "ES256", "ES384", "RS256", "PS256"}

type O = verifiable.CredentialOpt

func opts(r *rand.Rand) []O {
	o := []O{verifiable.WithJSONLDDocumentLoader(w.Loader)}
	if r.Intn(2) == 0 {
		o = append(o, verifiable.WithProofChecker(w.Checker))
	} else {
		o = append(o, verifiable.WithCWTProofChecker(w.Checker))
	}

	return o
}

func main() {
	vh.Main(vh.Spec{
		ID: "C04",
		Rule: "random v1/v2 credential x COSE algorithm x issuer, signed by an independent COSE implementation or by the code " +
			"(whose output an independent COSE verifier judges); then one single-fault alteration of protected header, payload, " +
			"signature, structure, key, kid, alg or issuer. Non-trivial: distinct (family, alteration, algorithm, entry point) with a verdict.",
		Level: "exploration",
		Require: map[string]int64{"lengths.accepted": 300, "accept.genuine": 800, "reject.forged": 3000, "bycode.verified": 200, "content.equal": 800,
			"ambiguous.true": 40, "generic.accept": 150, "generic.reject": 400},
		Assumptions: []string{"the Go standard library signs and verifies correctly", "fxamacker/cbor encodes CBOR correctly",
			"DID documents come from a local registry"},
		Run: run,
	})
}

type tok struct {
	m      *vh.Cose
	hdr    map[interface{}]interface{}
	pl     map[string]interface{}
	key    *vh.Key
	cred   map[string]interface{}
	byCode bool
}

func cborize(v interface{}) interface{} { // integers as CBOR integers
	switch x := v.(type) {
	case map[string]interface{}:
		o := map[string]interface{}{}
		for k, e := range x {
			o[k] = cborize(e)
		}

		return o
	case []interface{}:
		o := make([]interface{}, len(x))
		for i, e := range x {
			o[i] = cborize(e)
		}

		return o
	case float64:
		if x == float64(int64(x)) && x < 1e15 && x > -1e15 {
			return int64(x)
		}
	}

	return v
}

func genuine(c *vh.Check, r *rand.Rand, ent *vh.Entity, alg string) *tok {
	key := ent.Keys[alg]
	cred := vh.Cred(r, vh.CredOpts{V: 1 + r.Intn(2), Issuer: ent.DID, OneSubject: true, NeedID: true})
	t := &tok{key: key, cred: cred, hdr: vh.CoseHdr(key)}

	subj := cred["credentialSubject"]
	if a, ok := subj.([]interface{}); ok {
		subj = a[0]
	}

	if sm, ok := subj.(map[string]interface{}); ok && sm["id"] == nil {
		sm["id"] = "did:example:" + vh.SafeStr(r)
	}

	if r.Intn(2) == 0 && cred["issuanceDate"] != nil {
		t.byCode = true

		vc, err := verifiable.ParseCredential(vh.J(cred), verifiable.WithDisabledProofCheck(),
			verifiable.WithCredDisableValidation(), verifiable.WithJSONLDDocumentLoader(w.Loader))
		if err != nil {
			panic("vh-fixture parse: " + err.Error())
		}

		signed, err := vc.CreateSignedCOSEVC(key.COSEAlg(), w.Creator(ent), key.ID)
		if err != nil {
			panic(fmt.Sprintf("CreateSignedCOSEVC: %v", err))
		}

		b, err := signed.MarshalAsCWTLD()
		if err != nil {
			panic(fmt.Sprintf("MarshalAsCWTLD: %v", err))
		}

		hx, err := signed.MarshalAsCWTLDHex()
		c.Expect(err == nil && hx == hex.EncodeToString(b), "hex-form", "hex form is not the bytes' hex", hx)

		t.m = vh.ParseCose(b)

		var h map[interface{}]interface{}
		if vh.UnCB(t.m.Prot, &h) != nil || fmt.Sprint(h[uint64(1)]) == "" {
			panic("code made an undecodable protected header")
		}

		kid, _ := h[uint64(4)].([]byte)
		c.Expect(string(kid) == key.ID && fmt.Sprint(h[uint64(1)]) == fmt.Sprint(int64(key.COSEAlg())), "bycode-header",
			"signed message's protected header lacks its algorithm or key id", hx)

		if c.Expect(key.Verify(t.m.ToSign(nil), t.m.Sig), "bycode-signature",
			"signature made by CreateSignedCOSEVC does not verify over the COSE Sig_structure", hx) {
			c.Count("bycode.verified", 1)
		}

		// the returned value verifies without re-parsing
		c.Expect(signed.CheckProof(opts(r)...) == nil, "bycode-checkproof", "freshly signed credential fails its own proof check", hx)
	} else {
		pl := map[string]interface{}{"vc": cborize(cred)}
		if r.Intn(3) != 0 {
			pl["iss"] = ent.DID
		}

		if r.Intn(2) == 0 {
			pl["nbf"] = int64(1500000000 + r.Intn(1000000))
		}

		if r.Intn(3) == 0 {
			t.hdr[3] = "application/vc+cose"
		}

		if r.Intn(2) == 0 { // further protected members, of every kind of label and value
			for n := 1 + r.Intn(6); n > 0; n-- {
				t.hdr[vh.Pick[interface{}](r, "typ", "x", vh.SafeStr(r)+"h", int64(-70000-r.Intn(9)), int64(300+r.Intn(9)), 15)] =
					vh.Pick[interface{}](r, "vc", vh.SafeStr(r), int64(r.Intn(1000)), []byte(vh.SafeStr(r)), true, []interface{}{"a", int64(1)})
			}
		}

		t.m = vh.MakeCose(t.hdr, vh.CB(pl), key)
		if r.Intn(2) == 0 {
			t.m.Unprot = map[interface{}]interface{}{"x": int64(r.Intn(100))}
		}
	}

	if err := vh.UnCB(t.m.PL(), &t.pl); err != nil {
		panic("undecodable payload: " + err.Error())
	}

	return t
}

var entryName = []string{"bytes", "hex", "quoted-hex", "disabled+CheckProof", "enveloped", "enveloped-json"}

func parse(r *rand.Rand, entry int, b []byte) (*verifiable.Credential, error) {
	o := opts(r)
	hx := hex.EncodeToString(b)
	env := map[string]interface{}{"@context": vh.CtxV2, "type": vh.Pick[interface{}](r, "EnvelopedVerifiableCredential",
		[]interface{}{"EnvelopedVerifiableCredential"}), "id": "data:application/vc-ld+cose," + hx}

	switch entry {
	case 0:
		return verifiable.ParseCredential(b, o...)
	case 1:
		return verifiable.ParseCredential([]byte(hx), o...)
	case 2:
		return verifiable.ParseCredential([]byte(`"`+hx+`"`), o...)
	case 3:
		vc, err := verifiable.ParseCredential(b, append(o, verifiable.WithDisabledProofCheck())...)
		if err == nil {
			err = vc.CheckProof(o...)
		}

		return vc, err
	case 4:
		return verifiable.ParseCredential(vh.J(env), o...)
	default:
		return verifiable.ParseCredentialJSON(env, o...)
	}
}

type forge struct {
	name string
	f    func(r *rand.Rand, t, other *tok) []byte // nil: not applicable
}

func with(t *tok, f func(m *vh.Cose)) []byte {
	m := t.m.Clone()
	f(m)

	return m.Bytes()
}

func hdr(t *tok, f func(h map[interface{}]interface{})) map[interface{}]interface{} {
	h := map[interface{}]interface{}{}
	for k, v := range t.hdr {
		h[k] = v
	}

	f(h)

	return h
}

func pl(t *tok, f func(p map[string]interface{})) []byte {
	var p map[string]interface{}
	if err := vh.UnCB(t.m.PL(), &p); err != nil {
		panic("vh-fixture payload " + err.Error())
	}

	f(p)

	return vh.CB(p)
}

func flip(r *rand.Rand, b []byte) []byte {
	o := append([]byte{}, b...)
	o[r.Intn(len(o))] ^= 1 << r.Intn(8)

	return o
}

func vcOf(p map[string]interface{}) map[interface{}]interface{} {
	return p["vc"].(map[interface{}]interface{})
}

func forgeries() []forge {
	m := func() *vh.Entity { return w.Ents[mallory] }
	alice := func() *vh.Entity { return w.Ents["alice"] }

	return []forge{
		{"payload-bit", func(r *rand.Rand, t, _ *tok) []byte {
			return with(t, func(x *vh.Cose) { x.Payload = flip(r, x.PL()) })
		}},
		{"payload-last-byte", func(r *rand.Rand, t, _ *tok) []byte {
			return with(t, func(x *vh.Cose) {
				b := append([]byte{}, x.PL()...)
				b[len(b)-1] ^= byte(1 + r.Intn(255))
				x.Payload = b
			})
		}},
		{"payload-claim", func(r *rand.Rand, t, _ *tok) []byte {
			return with(t, func(x *vh.Cose) {
				x.Payload = pl(t, func(p map[string]interface{}) { vcOf(p)["extra"] = "claim" })
			})
		}},
		{"payload-removed", func(r *rand.Rand, t, _ *tok) []byte {
			return with(t, func(x *vh.Cose) {
				x.Payload = pl(t, func(p map[string]interface{}) {
					v := vcOf(p)
					ks := vh.SortedKeys(vh.Norm(t.cred).(map[string]interface{}))
					delete(v, ks[r.Intn(len(ks))])
				})
			})
		}},
		{"payload-outer-claim", func(r *rand.Rand, t, _ *tok) []byte {
			return with(t, func(x *vh.Cose) {
				x.Payload = pl(t, func(p map[string]interface{}) { p["exp"] = int64(99999) })
			})
		}},
		{"payload-reencoded", func(r *rand.Rand, t, _ *tok) []byte { // same claims, other bytes
			b := pl(t, func(p map[string]interface{}) { p["zz"] = p["vc"]; delete(p, "zz") })
			if string(b) == string(t.m.PL()) { // add a redundant length byte to the map header
				if b[0] >= 0xb8 {
					return nil
				}
				b = append([]byte{0xb8, b[0] & 0x1f}, b[1:]...)
			}
			return with(t, func(x *vh.Cose) { x.Payload = b })
		}},
		{"payload-swapped", func(r *rand.Rand, t, o *tok) []byte { return with(t, func(x *vh.Cose) { x.Payload = o.m.Payload }) }},
		{"payload-nil", func(r *rand.Rand, t, _ *tok) []byte { return with(t, func(x *vh.Cose) { x.Payload = nil }) }},
		{"payload-extended", func(r *rand.Rand, t, _ *tok) []byte {
			return with(t, func(x *vh.Cose) { x.Payload = append(append([]byte{}, x.PL()...), 0xf6) })
		}},
		{"sig-bit", func(r *rand.Rand, t, _ *tok) []byte { return with(t, func(x *vh.Cose) { x.Sig = flip(r, x.Sig) }) }},
		{"sig-truncated", func(r *rand.Rand, t, _ *tok) []byte {
			return with(t, func(x *vh.Cose) { x.Sig = x.Sig[:1+r.Intn(len(x.Sig)-1)] })
		}},
		{"sig-extended", func(r *rand.Rand, t, _ *tok) []byte {
			return with(t, func(x *vh.Cose) { x.Sig = append(append([]byte{}, x.Sig...), byte(r.Intn(256))) })
		}},
		{"sig-zero", func(r *rand.Rand, t, _ *tok) []byte {
			return with(t, func(x *vh.Cose) { x.Sig = make([]byte, len(x.Sig)) })
		}},
		{"sig-empty", func(r *rand.Rand, t, _ *tok) []byte { return with(t, func(x *vh.Cose) { x.Sig = []byte{} }) }},
		{"sig-other-token", func(r *rand.Rand, t, o *tok) []byte { return with(t, func(x *vh.Cose) { x.Sig = o.m.Sig }) }},
		{"sig-payload-only", func(r *rand.Rand, t, _ *tok) []byte {
			return with(t, func(x *vh.Cose) { x.Sig, _ = t.key.Sign(x.PL()) })
		}},
		{"sig-no-protected", func(r *rand.Rand, t, _ *tok) []byte { // signed over an empty protected header
			return with(t, func(x *vh.Cose) {
				x.Sig, _ = t.key.Sign((&vh.Cose{Prot: []byte{}, Payload: x.Payload}).ToSign(nil))
			})
		}},
		{"sig-external-aad", func(r *rand.Rand, t, _ *tok) []byte {
			return with(t, func(x *vh.Cose) { x.Sig, _ = t.key.Sign(x.ToSign([]byte("aad"))) })
		}},
		{"sig-context", func(r *rand.Rand, t, _ *tok) []byte { // other COSE structure contexts
			return with(t, func(x *vh.Cose) {
				x.Sig, _ = t.key.Sign(vh.CB([]interface{}{vh.Pick(r, "Signature", "CounterSignature", "MAC0"), x.Prot, []byte{}, x.Payload}))
			})
		}},
		{"prot-extra", func(r *rand.Rand, t, _ *tok) []byte {
			return with(t, func(x *vh.Cose) {
				x.Prot = vh.CB(hdr(t, func(h map[interface{}]interface{}) { h["x"] = "y" }))
			})
		}},
		{"prot-other-member", func(r *rand.Rand, t, _ *tok) []byte { // a member besides algorithm and key id changed, added or removed
			h := hdr(t, func(h map[interface{}]interface{}) {
				var ks []interface{}
				for k := range h {
					if fmt.Sprint(k) != "1" && fmt.Sprint(k) != "4" {
						ks = append(ks, k)
					}
				}
				sort.Slice(ks, func(i, j int) bool { return fmt.Sprint(ks[i]) < fmt.Sprint(ks[j]) })
				for n := r.Intn(4); n > 0 || len(ks) == 0; n-- {
					h[fmt.Sprintf("more%d", n)] = "z"
					ks = append(ks, fmt.Sprintf("more%d", n))
				}
				k := ks[r.Intn(len(ks))]
				if r.Intn(2) == 0 && fmt.Sprint(h[k]) != "z" {
					delete(h, k)
				} else {
					h[k] = "other"
				}
			})
			return with(t, func(x *vh.Cose) { x.Prot = vh.CB(h) })
		}},
		{"prot-alg", func(r *rand.Rand, t, _ *tok) []byte { // header names another algorithm, old signature
			return with(t, func(x *vh.Cose) {
				x.Prot = vh.CB(hdr(t, func(h map[interface{}]interface{}) {
					for fmt.Sprint(h[1]) == fmt.Sprint(t.hdr[1]) {
						h[1] = int64(alice().Keys[vh.Pick(r, algs...)].COSEAlg())
					}
				}))
			})
		}},
		{"prot-kid", func(r *rand.Rand, t, _ *tok) []byte {
			return with(t, func(x *vh.Cose) {
				x.Prot = vh.CB(hdr(t, func(h map[interface{}]interface{}) {
					for string(h[4].([]byte)) == t.key.ID {
						h[4] = []byte(alice().Keys[vh.Pick(r, algs...)].ID)
					}
				}))
			})
		}},
		{"prot-empty", func(r *rand.Rand, t, _ *tok) []byte { return with(t, func(x *vh.Cose) { x.Prot = []byte{} }) }},
		{"prot-moved-to-unprotected", func(r *rand.Rand, t, _ *tok) []byte { // key id and algorithm outside the signature
			h := hdr(t, func(h map[interface{}]interface{}) { delete(h, vh.Pick(r, 1, 4)) })
			if r.Intn(2) == 0 {
				h = map[interface{}]interface{}{}
			}
			x := vh.MakeCose(h, t.m.PL(), t.key)
			x.Unprot = vh.CoseHdr(t.key)
			return x.Bytes()
		}},
		{"alg-missing", func(r *rand.Rand, t, _ *tok) []byte {
			return vh.MakeCose(hdr(t, func(h map[interface{}]interface{}) { delete(h, 1) }), t.m.PL(), t.key).Bytes()
		}},
		{"alg-mismatched-signed", func(r *rand.Rand, t, _ *tok) []byte {
			return vh.MakeCose(hdr(t, func(h map[interface{}]interface{}) {
				for fmt.Sprint(h[1]) == fmt.Sprint(t.hdr[1]) {
					h[1] = vh.Pick[int64](r, -7, -8, -35, -36, -37, -38, -39, -257, -258, 5, -47, 0, 1)
				}
			}), t.m.PL(), t.key).Bytes()
		}},
		{"alg-zero", func(r *rand.Rand, t, _ *tok) []byte { // the placeholder of algorithms without COSE identifier
			k := alice().Keys[vh.Pick(r, "ES256K", "ES521", t.key.Alg)]
			return vh.MakeCose(map[interface{}]interface{}{1: 0, 4: []byte(k.ID)}, t.m.PL(), k).Bytes()
		}},
		{"alg-text", func(r *rand.Rand, t, _ *tok) []byte {
			return vh.MakeCose(hdr(t, func(h map[interface{}]interface{}) { h[1] = t.key.Alg }), t.m.PL(), t.key).Bytes()
		}},
		{"kid-missing", func(r *rand.Rand, t, _ *tok) []byte {
			return vh.MakeCose(hdr(t, func(h map[interface{}]interface{}) { delete(h, 4) }), t.m.PL(), t.key).Bytes()
		}},
		{"kid-unknown", func(r *rand.Rand, t, _ *tok) []byte {
			return vh.MakeCose(hdr(t, func(h map[interface{}]interface{}) {
				h[4] = vh.Pick[interface{}](r, []byte(t.key.ID+"x"), []byte{}, []byte("key-1"), t.key.ID, 7, []byte(t.key.ID[:len(t.key.ID)-1]),
					[]byte(strings.SplitN(t.key.ID, "#", 2)[0]), []byte("#"+strings.SplitN(t.key.ID, "#", 2)[1]))
			}), t.m.PL(), t.key).Bytes()
		}},
		{"cose-key-self-asserted", func(r *rand.Rand, t, _ *tok) []byte { // attacker's own key in the protected header
			k := m().Keys[vh.Pick(r, "ES256", "EdDSA", "ES384")]
			return vh.MakeCose(map[interface{}]interface{}{1: int64(k.COSEAlg()), "COSE_Key": coseKeyHex(k)}, t.m.PL(), k).Bytes()
		}},
		{"cose-key-and-victim-kid", func(r *rand.Rand, t, _ *tok) []byte {
			k := m().Keys[vh.Pick(r, "ES256", "EdDSA")]
			return vh.MakeCose(map[interface{}]interface{}{1: int64(k.COSEAlg()), 4: []byte(alice().Keys[k.Alg].ID),
				"COSE_Key": coseKeyHex(k)}, t.m.PL(), k).Bytes()
		}},
		{"attacker-key-own-kid", func(r *rand.Rand, t, _ *tok) []byte {
			k := m().Keys[t.key.Alg]
			return vh.MakeCose(vh.CoseHdr(k), t.m.PL(), k).Bytes()
		}},
		{"attacker-key-victim-kid", func(r *rand.Rand, t, _ *tok) []byte {
			k := m().Keys[t.key.Alg]
			if strings.HasSuffix(k.Alg, "S256") && k.Alg != "ES256" {
				k = m().Keys["EdDSA"]
			}
			return vh.MakeCose(vh.CoseHdr(t.key), t.m.PL(), k).Bytes()
		}},
		{"attacker-did-extends-victim", func(r *rand.Rand, t, _ *tok) []byte {
			k := w.Ents[vh.Pick(r, "alice2", "alice:sub")].Keys[t.key.Alg]
			return vh.MakeCose(vh.CoseHdr(k), t.m.PL(), k).Bytes()
		}},
		{"key-agreement-key", func(r *rand.Rand, t, _ *tok) []byte {
			k := alice().KA
			return vh.MakeCose(vh.CoseHdr(k), t.m.PL(), k).Bytes()
		}},
		{"iss-attacker-issuer-victim", func(r *rand.Rand, t, _ *tok) []byte {
			k := m().Keys[t.key.Alg]
			b := pl(t, func(p map[string]interface{}) {
				p["iss"] = m().DID
				vcOf(p)["issuer"] = vh.Pick[interface{}](r, alice().DID, map[string]interface{}{"id": alice().DID})
			})
			return vh.MakeCose(vh.CoseHdr(k), b, k).Bytes()
		}},
		{"no-issuer", func(r *rand.Rand, t, _ *tok) []byte {
			b := pl(t, func(p map[string]interface{}) {
				delete(p, "iss")
				if r.Intn(2) == 0 {
					delete(vcOf(p), "issuer")
				} else {
					vcOf(p)["issuer"] = vh.Pick[interface{}](r, "", map[string]interface{}{}, map[string]interface{}{"id": ""}, nil)
				}
			})
			return vh.MakeCose(vh.CoseHdr(t.key), b, t.key).Bytes()
		}},
		{"no-issuer-cose-key", func(r *rand.Rand, t, _ *tok) []byte {
			k := m().Keys["ES256"]
			b := pl(t, func(p map[string]interface{}) {
				vcOf(p)["issuer"] = vh.Pick[interface{}](r, "", map[string]interface{}{}, map[string]interface{}{"id": ""})
			})
			return vh.MakeCose(map[interface{}]interface{}{1: int64(k.COSEAlg()), "COSE_Key": coseKeyHex(k)}, b, k).Bytes()
		}},
		{"unknown-issuer", func(r *rand.Rand, t, _ *tok) []byte {
			b := pl(t, func(p map[string]interface{}) {
				iss := vh.ForeignIssuer(r)
				vcOf(p)["issuer"] = vh.Pick[interface{}](r, iss, map[string]interface{}{"id": iss, "name": "x"})
				if r.Intn(2) == 0 {
					delete(p, "iss")
				}
			})
			k := t.key
			if r.Intn(2) == 0 {
				k = m().Keys[t.key.Alg]
			}
			return vh.MakeCose(vh.CoseHdr(k), b, k).Bytes()
		}},
		{"no-vc", func(r *rand.Rand, t, _ *tok) []byte {
			b := pl(t, func(p map[string]interface{}) {
				p["vc"] = vh.Pick[interface{}](r, "x", nil, []interface{}{}, 7)
			})
			return vh.MakeCose(vh.CoseHdr(t.key), b, t.key).Bytes()
		}},
		{"untagged", func(r *rand.Rand, t, _ *tok) []byte { return t.m.Bytes()[1:] }},
		{"other-tag", func(r *rand.Rand, t, _ *tok) []byte {
			b := t.m.Bytes()
			b[0] = vh.Pick[byte](r, 0xd1, 0xd0, 0xc1)
			return b
		}},
		{"trailing", func(r *rand.Rand, t, _ *tok) []byte { return append(t.m.Bytes(), byte(r.Intn(256))) }},
		{"truncated", func(r *rand.Rand, t, _ *tok) []byte { b := t.m.Bytes(); return b[:r.Intn(len(b))] }},
		{"three-parts", func(r *rand.Rand, t, _ *tok) []byte {
			return append([]byte{0xd2}, vh.CB([]interface{}{t.m.Prot, map[int]int{}, t.m.Payload})...)
		}},
	}
}

// coseKeyHex encodes a public key as a COSE_Key in hex.
func coseKeyHex(k *vh.Key) string {
	var m map[interface{}]interface{}

	switch k.Alg {
	case "EdDSA":
		m = map[interface{}]interface{}{1: 1, -1: 6, -2: k.Bytes}
	case "ES256":
		m = map[interface{}]interface{}{1: 2, -1: 1, -2: k.Bytes[1:33], -3: k.Bytes[33:]}
	case "ES384":
		m = map[interface{}]interface{}{1: 2, -1: 2, -2: k.Bytes[1:49], -3: k.Bytes[49:]}
	}

	return hex.EncodeToString(vh.CB(m))
}

func bytesOf(b []byte) interface{} { return hex.EncodeToString(b) }

func issuerOf(vc *verifiable.Credential) string {
	if i := vc.Contents().Issuer; i != nil {
		return i.ID
	}

	return ""
}

// bstr encodes a byte string with its length in at least 2^(width-1) bytes; 0: as short as can be.
func bstr(b []byte, width int) []byte {
	n := uint64(len(b))

	least := 4
	for k, limit := range []uint64{24, 1 << 8, 1 << 16, 1 << 32} {
		if n < limit {
			least = k
			break
		}
	}

	if width < least {
		width = least
	}

	if width == 0 {
		return append([]byte{0x40 | byte(n)}, b...)
	}

	out := []byte{0x57 + byte(width)}
	for k := 1<<(width-1) - 1; k >= 0; k-- {
		out = append(out, byte(n>>(8*k)))
	}

	return append(out, b...)
}

func run(c *vh.Check) {
	w = vh.NewWorld("alice", "bob", mallory, "alice2", "alice:sub")
	fs := forgeries()

	c.Cases("genuine", c.N(2500, 20000), func(r *rand.Rand, i int) {
		ent := w.Ents[vh.Pick(r, "alice", "bob")]
		alg := algs[i%len(algs)]
		t := genuine(c, r, ent, alg)
		entry := r.Intn(6)
		b := t.m.Bytes()

		vc, err := parse(r, entry, b)
		c.Eval(fmt.Sprintf("genuine|%s|%s|%v", alg, entryName[entry], t.byCode))
		c.Sample(fmt.Sprintf("genuine %s via %s", alg, entryName[entry]))

		if !c.Expect(err == nil, "genuine-rejected:"+alg, fmt.Sprintf("genuine %s CWT rejected via %s: %v", alg, entryName[entry], err), bytesOf(b)) {
			return
		}

		c.Count("accept.genuine", 1)
		c.Expect(issuerOf(vc) == ent.DID, "genuine-wrong-issuer", fmt.Sprintf("issuer %q, signed by %q", issuerOf(vc), ent.DID), bytesOf(b))

		want, got := vh.Norm(t.cred), vh.Norm(map[string]interface{}(vc.ToRawJSON()))
		if c.Expect(vh.Eq(want, got), "genuine-content", "parsed CWT credential differs from the signed one: "+vh.Diff(want, got), bytesOf(b)) {
			c.Count("content.equal", 1)
		}

		// an unprotected header is not signed, and no reason to reject
		m2 := t.m.Clone()
		m2.Unprot = map[interface{}]interface{}{vh.Pick[interface{}](r, "note", 100, 33): []byte("x")}
		_, err = parse(r, entry, m2.Bytes())
		c.Expect(err == nil, "unprotected-rejected", fmt.Sprintf("other unprotected header rejected: %v", err), bytesOf(m2.Bytes()))
	})

	c.Cases("forged", c.N(len(fs)*5*24, len(fs)*5*300), func(r *rand.Rand, i int) {
		f := fs[i%len(fs)]
		alg := algs[(i/len(fs))%len(algs)]
		ent := w.Ents["alice"]
		t := genuine(c, r, ent, alg)
		o := genuine(c, r, ent, vh.Pick(r, algs...))

		for string(o.m.PL()) == string(t.m.PL()) {
			o = genuine(c, r, ent, alg)
		}

		b := f.f(r, t, o)
		if b == nil || string(b) == string(t.m.Bytes()) {
			return
		}

		entry := r.Intn(6)
		vc, err := parse(r, entry, b)
		c.Eval(fmt.Sprintf("%s|%s|%s", f.name, alg, entryName[entry]))
		c.Sample(fmt.Sprintf("%s %s via %s", f.name, alg, entryName[entry]))
		c.Count("reject.forged", 1)

		iss := ""
		if err == nil {
			iss = issuerOf(vc)
		}

		c.Expect(err != nil, "forged-accepted:"+f.name, fmt.Sprintf("%s (%s) accepted via %s as issued by %q", f.name, alg, entryName[entry], iss), bytesOf(b))
	})

	// without a checker, nothing is accepted
	c.Cases("no-checker", c.N(40, 200), func(r *rand.Rand, i int) {
		t := genuine(c, r, w.Ents["alice"], algs[i%len(algs)])
		_, err := verifiable.ParseCredential(t.m.Bytes(), verifiable.WithJSONLDDocumentLoader(w.Loader))
		c.Eval("no-checker")
		c.Expect(err != nil, "no-checker-accepted", "CWT accepted without a proof checker", bytesOf(t.m.Bytes()))
	})

	// text that is not the hex form of a message
	c.Cases("hex", c.N(120, 1000), func(r *rand.Rand, i int) {
		t := genuine(c, r, w.Ents["alice"], algs[i%len(algs)])
		hx := hex.EncodeToString(t.m.Bytes())
		x := vh.Pick(r, hx+vh.Pick(r, "0", "f", "zz", "g0", "00", "~", "."), vh.Pick(r, "0", "x", "0x", "00", "zz")+hx, hx[1:], hx[:len(hx)-1],
			hx[:len(hx)/2]+"-"+hx[len(hx)/2:], hx+hx)

		for _, q := range []string{x, `"` + x + `"`} {
			_, err := verifiable.ParseCredential([]byte(q), opts(r)...)
			c.Eval("hex")
			c.Count("reject.forged", 1)
			c.Expect(err != nil, "hex-accepted", "text which is not a message in hex accepted", q)
		}
	})

	// any random byte of the message changed: rejected, or the same signed parts
	c.Cases("byte", c.N(3000, 40000), func(r *rand.Rand, i int) {
		ent := w.Ents["alice"]
		t := genuine(c, r, ent, algs[i%3])
		b := t.m.Bytes()
		x := flip(r, b)
		vc, err := parse(r, 0, x)
		c.Eval(fmt.Sprintf("byte|%v", err == nil))

		if err != nil {
			c.Count("reject.forged", 1)
			return
		}

		c.Count("byte.accepted", 1)

		var raw cose.Sign1Message
		same := raw.UnmarshalCBOR(x) == nil && string(raw.Payload) == string(t.m.PL()) && string(raw.Signature) == string(t.m.Sig) &&
			vh.Eq(vh.Norm(t.cred), vh.Norm(map[string]interface{}(vc.ToRawJSON())))
		c.Expect(same, "byte-accepted", "message with an altered signed byte accepted", bytesOf(x))
	})

	// the same parts with their lengths spelled wider, and protected headers of all sizes: what is signed is the same
	c.Cases("lengths", c.N(600, 6000), func(r *rand.Rand, i int) {
		ent := w.Ents["alice"]
		key := ent.Keys[algs[i%len(algs)]]
		t := genuine(c, r, ent, key.Alg)
		hdr := vh.CoseHdr(key)
		size := vh.Pick(r, 0, 0, 1+r.Intn(20), 200+r.Intn(100), 65000+r.Intn(1200))

		if size > 0 {
			hdr[int64(-70000)] = bytes.Repeat([]byte{byte(r.Intn(256))}, size)
		}

		m := &vh.Cose{Prot: vh.CB(hdr), Payload: t.m.PL()}
		wp, wl, ws := r.Intn(5), r.Intn(5), r.Intn(5)
		raw := func() []byte {
			return append(append(append(append([]byte{0xd2, 0x84}, bstr(m.Prot, wp)...), 0xa0), bstr(m.PL(), wl)...), bstr(m.Sig, ws)...)
		}

		m.SignWith(key)

		entry := r.Intn(6)
		vc, err := parse(r, entry, raw())
		what := fmt.Sprintf("%s message with a protected header of %d bytes, length widths %d %d %d", key.Alg, len(m.Prot), wp, wl, ws)
		c.Eval(fmt.Sprintf("lengths|%s|%d|%d|%d", key.Alg, wp, wl, ws))

		if c.Expect(err == nil, "lengths-rejected", fmt.Sprintf("%s rejected via %s: %v", what, entryName[entry], err), bytesOf(raw())) {
			c.Count("lengths.accepted", 1)
			c.Expect(vh.Eq(vh.Norm(t.cred), vh.Norm(map[string]interface{}(vc.ToRawJSON()))), "lengths-content", what+" has other content", bytesOf(raw()))
		}

		good := m.Sig

		switch r.Intn(3) {
		case 0: // another protected header
			o := vh.CoseHdr(key)
			o[int64(-70001)] = "x"
			m.Prot = vh.CB(o)
		case 1: // signed over the wide spelling
			if wp == 0 {
				return
			}

			wide := append(append(append([]byte{0x84}, vh.CB("Signature1")...), bstr(m.Prot, wp)...), 0x40)
			wide = append(wide, bstr(m.PL(), 0)...)

			s, err := key.Sign(wide)
			if err != nil {
				panic("vh-fixture sign: " + err.Error())
			}

			m.Sig = s
			if string(bstr(m.Prot, wp)) == string(bstr(m.Prot, 0)) {
				return
			}
		default:
			m.Sig = append([]byte{}, good...)
			m.Sig[r.Intn(len(good))] ^= 1 << r.Intn(8)
		}

		_, err = parse(r, entry, raw())
		c.Count("reject.forged", 1)
		c.Expect(err != nil, "lengths-forged", "forged "+what+" accepted via "+entryName[entry], bytesOf(raw()))
	})

	// members whose names are not text, or occur twice: one reading, and one that is the signer's
	c.Cases("ambiguous", c.N(400, 4000), func(r *rand.Rand, i int) {
		m := w.Ents[mallory]
		k := m.Keys[vh.Pick(r, algs...)]
		ctx := vh.Pick(r, vh.CtxV1, vh.CtxV2)
		sub := map[interface{}]interface{}{"id": "did:x:1", "name": "n"}
		iss := map[interface{}]interface{}{"id": m.DID}
		vc := map[interface{}]interface{}{"@context": []interface{}{ctx}, "type": []interface{}{"VerifiableCredential"}, "credentialSubject": sub, "issuer": iss}

		if ctx == vh.CtxV1 {
			vc["issuanceDate"] = "2020-01-01T00:00:00Z"
		}

		pl := map[interface{}]interface{}{"vc": vc}
		a := w.Ents["alice"].DID
		what := vh.Pick(r, "int", "int-text", "bytes", "issuer-bytes", "issuer-id-bytes", "bool", "float", "nested", "vc-bytes", "plain")

		switch what {
		case "int":
			sub[1], sub[uint64(2)] = "a", "b"
		case "int-text":
			sub[1], sub["1"] = "a", "b"
		case "bytes":
			sub[cbor.ByteString("name")] = "other"
		case "issuer-bytes":
			vc[cbor.ByteString("issuer")] = a
		case "issuer-id-bytes":
			iss[cbor.ByteString("id")] = a
		case "bool":
			sub[true], sub["true"] = "a", "b"
		case "float":
			sub[1.5], sub["1.5"] = "a", "b"
		case "nested":
			sub["list"] = []interface{}{map[interface{}]interface{}{-3: "a", "-3": "b"}}
		case "vc-bytes":
			o := map[interface{}]interface{}{}
			for n, v := range vc {
				o[n] = v
			}

			o["issuer"] = a
			pl[cbor.ByteString("vc")] = o
		}

		b := vh.MakeCose(vh.CoseHdr(k), vh.CB(pl), k).Bytes()

		c.Eval("ambiguous|" + what + "|" + k.Alg)
		c.Count("ambiguous", 1)

		first := ""

		for j := 0; j < 12; j++ {
			vc, err := parse(r, []int{0, 2}[j%2], b)
			got := "rejected"

			if err == nil {
				got = string(vh.J(vh.Norm(map[string]interface{}(vc.ToRawJSON()))))
				c.Expect(issuerOf(vc) == m.DID, "ambiguous-issuer", fmt.Sprintf("attacker's CWT (%s) accepted as issued by %q", what, issuerOf(vc)), bytesOf(b))
			}

			if j == 0 {
				first = got
				c.Count("ambiguous."+fmt.Sprint(err == nil), 1)
			}

			if !c.Expect(got == first, "ambiguous-readings", "the same CWT ("+what+") is read in different ways", map[string]interface{}{"message": bytesOf(b), "one": first, "other": got}) {
				break
			}
		}
	})

	runGeneric(c)
}

// runGeneric: the generic CWT entry point (key in the protected header, or key id).
func runGeneric(c *vh.Check) {
	c.Cases("generic", c.N(1200, 10000), func(r *rand.Rand, i int) {
		a, m := w.Ents["alice"], w.Ents[mallory]
		k := a.Keys[[]string{"ES256", "EdDSA", "ES384"}[i%3]]
		k2 := m.Keys[k.Alg]
		issuer := r.Intn(2) == 0
		p := map[interface{}]interface{}{1: a.DID, 10: []byte(vh.SafeStr(r)), 6: int64(1700000000 + r.Intn(1000))}
		h := map[interface{}]interface{}{1: int64(k.COSEAlg()), "COSE_Key": coseKeyHex(k)}

		withKid := issuer || r.Intn(2) == 0
		if withKid {
			h[4] = []byte(k.ID)
		}

		// the key of a key-id message is found by key id, whatever COSE_Key says
		msg := vh.MakeCose(h, vh.CB(p), k)
		parsed, got, err := cwt.ParseAndCheckProof(msg.Bytes(), w.Checker, issuer)
		c.Eval(fmt.Sprintf("generic|%s|%v|%v", k.Alg, issuer, withKid))

		if c.Expect(err == nil, "generic-rejected", fmt.Sprintf("genuine CWT rejected (issuer check %v, kid %v): %v", issuer, withKid, err), bytesOf(msg.Bytes())) {
			c.Count("generic.accept", 1)
			c.Expect(string(got) == string(msg.PL()) && string(parsed.Payload) == string(msg.PL()), "generic-payload", "payload differs", bytesOf(got))
		}

		type bad struct {
			n string
			b []byte
		}

		clone := func(f func(h map[interface{}]interface{})) map[interface{}]interface{} {
			o := map[interface{}]interface{}{}
			for k, v := range h {
				o[k] = v
			}

			f(o)

			return o
		}
		bads := []bad{
			{"payload", func() []byte { x := msg.Clone(); x.Payload = flip(r, x.PL()); return x.Bytes() }()},
			{"sig", func() []byte { x := msg.Clone(); x.Sig = flip(r, x.Sig); return x.Bytes() }()},
			{"other-signer", vh.MakeCose(h, msg.PL(), k2).Bytes()},
			{"no-cose-key", vh.MakeCose(clone(func(h map[interface{}]interface{}) { delete(h, "COSE_Key") }), msg.PL(), k).Bytes()},
			{"header", func() []byte {
				x := msg.Clone()
				x.Prot = vh.CB(clone(func(h map[interface{}]interface{}) { h["q"] = 1 }))
				return x.Bytes()
			}()},
			{"alg", vh.MakeCose(clone(func(h map[interface{}]interface{}) {
				for h[1] == int64(k.COSEAlg()) {
					h[1] = vh.Pick[int64](r, -7, -8, -35, -257, -37)
				}
			}), msg.PL(), k).Bytes()},
			{"garbage-key", vh.MakeCose(clone(func(h map[interface{}]interface{}) {
				delete(h, 4)
				h["COSE_Key"] = vh.Pick[interface{}](r, "zz", "", "a0", []byte{1}, coseKeyHex(k)[2:], coseKeyHex(k2))
			}), msg.PL(), k).Bytes()},
		}

		if withKid {
			bads = append(bads, bad{"stranger-kid", vh.MakeCose(clone(func(h map[interface{}]interface{}) {
				h[4] = []byte(k2.ID)
				h["COSE_Key"] = coseKeyHex(k)
			}), msg.PL(), k).Bytes()})
		}

		if issuer {
			bads = append(bads,
				bad{"iss-missing", vh.MakeCose(h, vh.CB(map[interface{}]interface{}{6: 1}), k).Bytes()},
				bad{"iss-type", vh.MakeCose(h, vh.CB(map[interface{}]interface{}{1: vh.Pick[interface{}](r, 7, nil, true, []byte(a.DID), []interface{}{a.DID},
					map[string]interface{}{"id": a.DID})}), k).Bytes()},
				bad{"iss-foreign", vh.MakeCose(h, vh.CB(map[interface{}]interface{}{1: vh.ForeignIssuer(r)}), k).Bytes()},
				bad{"iss-other", vh.MakeCose(h, vh.CB(map[interface{}]interface{}{1: "did:verif:bob"}), k).Bytes()},
				bad{"key-only", vh.MakeCose(clone(func(h map[interface{}]interface{}) { delete(h, 4) }), msg.PL(), k).Bytes()},
				bad{"attacker", vh.MakeCose(map[interface{}]interface{}{1: int64(k2.COSEAlg()), 4: []byte(k2.ID), "COSE_Key": coseKeyHex(k2)}, msg.PL(), k2).Bytes()},
			)
		}

		for _, b := range bads {
			_, _, err := cwt.ParseAndCheckProof(b.b, w.Checker, issuer)
			c.Eval(fmt.Sprintf("generic-bad|%s|%s|%v|%v", b.n, k.Alg, issuer, withKid))
			c.Count("generic.reject", 1)
			c.Expect(err != nil, "generic-forged:"+b.n, "forged CWT accepted by ParseAndCheckProof: "+b.n, bytesOf(b.b))
		}
	})
}
