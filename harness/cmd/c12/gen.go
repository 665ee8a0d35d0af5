package main

import (
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/rand"
	"strings"

	"github.com/trustbloc/vc-go/verifharness/vh"
)

type (
	// M is a JSON object.
	M = map[string]interface{}
	// L is a JSON list.
	L = []interface{}
)

var members = []string{
	"@context", "@id", "@type", "@graph", "@value", "@list", "@set", "@vocab", "@language", "@reverse", "@included", "@nest", "@container", "id", "type", "vc", "vp", "iss", "sub", "aud", "nbf", "iat", "exp", "jti", "cnf", "jwk",
	"kid", "alg", "typ", "cty", "crit", "b64", "nonce", "sd_hash", "_sd", "_sd_alg", "...", "issuer", "credentialSubject", "credentialStatus", "credentialSchema", "refreshService", "evidence", "termsOfUse",
	"relatedResource", "proof", "issuanceDate", "expirationDate", "validFrom", "validUntil", "name", "description", "holder", "verifiableCredential", "proofValue", "jws", "created", "expires", "challenge", "domain", "proofPurpose",
	"verificationMethod", "cryptosuite", "previousProof", "capabilityChain", "presentation_submission", "descriptor_map", "definition_id", "path", "path_nested", "format", "input_descriptors", "submission_requirements", "constraints",
	"fields", "filter", "predicate", "limit_disclosure", "subject_is_issuer", "is_holder", "same_subject", "statuses", "group", "from", "from_nested", "rule", "count", "min", "max", "schema", "purpose", "optional", "intent_to_retain",
	"enum", "const", "pattern", "minimum", "maximum", "minLength", "maxLength", "items", "properties", "not", "anyOf", "$ref", "required", "uri", "statusListIndex", "statusListCredential", "statusPurpose", "statusSize", "encodedList",
	"digestSRI", "digestMultibase", "mediaType", "origin", "linked_dids", "service", "serviceEndpoint", "publicKeyJwk", "publicKeyMultibase", "publicKeyBase58", "assertionMethod", "authentication", "keyAgreement", "controller", "crv", "kty",
	"x", "y", "n", "e", "d", "k", "x5c", "x5t#S256", "", "\u0000", "a.b", "a~b", "__proto__",
}

var words = []string{
	"", " ", "x", "null", "true", "0", "-1", "1e999", "{}", "[]", "\"", "\u0000", "\ufffd", "é😀", "did:", "did:verif:issuer", "did:verif:issuer#", "did:verif:issuer#eddsa", "did:verif:issuer#ka-only", "did:verif:nobody#k", "did:key:z6Mk", "#", "#eddsa", ":",
	"data:,", "data:application/vc-ld+jwt,", "data:application/vc-ld+jwt,a.b.c", "data:application/vc-ld+sd-jwt,~", "data:application/vc-ld+cose,00", "data:;base64,AA", "data:application/vp-ld+jwt,..", "http://", "https://list.verif.example/1", "https://%zz", "://",
	"urn:uuid:", "_:b0", "_:", "$", "$.", "$[", "$..*", "$[?(@.a)]", "$.vc", "$.verifiableCredential[0]", "$.verifiableCredential[99999999999999999999]", "$['a']", ".", "..", "...", "~", "a~b~", "~~", "a.b.c", "eyJhbGciOiJub25lIn0.e30.", "eyJhbGciOiJFZERTQSJ9.bnVsbA.AA",
	"2020-01-01T00:00:00Z", "2020-13-45T99:99:99Z", "9999999-01-01T00:00:00Z", "-0001-01-01T00:00:00Z", "2020-01-01", "none", "EdDSA", "ES256", "ES256K", "PS256", "RS256", "HS256", "sha-256", "sha-512", "SHA-999", "u", "z", "m", "uAA", "zQm", "f00", "sha256-", "sha256-AA==",
	"Ed25519Signature2018", "Ed25519Signature2020", "JsonWebSignature2020", "BbsBlsSignature2020", "BbsBlsSignatureProof2020", "EcdsaSecp256k1Signature2019", "DataIntegrityProof", "ecdsa-rdfc-2019", "eddsa-rdfc-2022", "VerifiableCredential", "VerifiablePresentation",
	"EnvelopedVerifiableCredential", "EnvelopedVerifiablePresentation", "StatusList2021Entry", "BitstringStatusListEntry", "RevocationList2021Status", "JsonSchemaValidator2018", "revocation", "suspension", "AA", "AAAA", "H4sIAAAAAAAAA_-", "d28443a10127a04041ff", "(", "a{1000}", "[", "(?<", "*",
	vh.CtxV1, vh.CtxV2, vh.CtxVerif, vh.CtxBBS, "required", "preferred", "all", "pick", "ldp_vp", "jwt_vc", "%", "%s%d%n", "\\u0000", "-----BEGIN", "+", "=", "AA==", "_sd", "@id", "@type", "@json", "@graph", "@none",
}

var numbers = []interface{}{
	0, 1, -1, 2, 1.5, -0.25, 255, 1 << 31, 1 << 53, -(1 << 62), 1e18, 9.3e18, 1e19, -1e19, 1e300, -1e300, 5e-324, json.Number("1e999"), json.Number("-1e999"), json.Number("123456789012345678901234567890"), json.Number("0.1e-400"), json.Number("-0"),
}

// val is a hostile JSON value.
func val(r *rand.Rand) interface{} {
	switch r.Intn(14) {
	case 0, 1:
		return nil
	case 2, 3, 4:
		return vh.Pick(r, words...)
	case 5, 6:
		return vh.Pick(r, numbers...)
	case 7:
		return r.Intn(2) == 0
	case 8:
		return vh.Pick[interface{}](r, L{}, L{nil}, L{L{}}, L{M{}}, L{"a", "a"}, L{1, 2}, L{nil, nil}, L{"", nil, 5}, L{true}, L{L{L{}}})
	case 9:
		return vh.Pick[interface{}](r, M{}, M{"": nil}, M{"id": nil}, M{"id": 5}, M{"id": ""}, M{"type": nil}, M{"type": L{}}, M{"@value": nil}, M{"@list": L{L{nil}}}, M{"...": 5}, M{"_sd": 5}, M{"_sd": L{nil}}, M{"...": "a", "b": 1})
	case 10:
		return M{vh.Pick(r, members...): val(r)}
	case 11:
		return L{val(r), val(r)}
	case 12:
		return nest(r, nil, 1+r.Intn(40))
	default:
		return strings.Repeat(vh.Pick(r, words...)+"a", 1+r.Intn(300))
	}
}

// nest wraps a value n levels deep.
func nest(r *rand.Rand, v interface{}, n int) interface{} {
	mode := r.Intn(3)
	key := vh.Pick(r, "a", "id", "credentialSubject", "_sd", "verifiableCredential", "vc", "proof", "@graph", "@list", "@context", "path_nested", "from_nested", "not", "items", "...")

	for i := 0; i < n; i++ {
		switch mode {
		case 0:
			v = L{v}
		case 1:
			v = M{key: v}
		default:
			v = M{key: L{v}}
		}
	}

	return v
}

// alter changes a JSON tree in one place (in place where possible) and says how.
func alter(r *rand.Rand, v interface{}) (interface{}, string) {
	ps := vh.Nodes(v)
	if len(ps) == 0 {
		return val(r), "replace-root"
	}

	p := ps[r.Intn(len(ps))]
	if r.Intn(2) == 0 { // rather near the root
		for i := 0; i < 4; i++ {
			if q := ps[r.Intn(len(ps))]; len(q) < len(p) {
				p = q
			}
		}
	}

	cur := vh.Get(v, p)

	put := func(x interface{}) interface{} {
		if len(p) == 0 {
			return x
		}

		vh.Set(v, p, x)

		return v
	}

	switch r.Intn(16) {
	case 0, 1, 2, 3:
		return put(val(r)), "replace"
	case 4, 5:
		if len(p) > 0 && vh.Del(v, p) {
			return v, "delete"
		}

		return put(nil), "null"
	case 6:
		return put(L{cur}), "wrap-list"
	case 7:
		return put(M{vh.Pick(r, "@value", "@list", "@set", "@graph", "id", "@id", "x", "0"): cur}), "wrap-object"
	case 8, 9:
		switch x := cur.(type) {
		case M:
			x[vh.Pick(r, members...)] = val(r)
			return v, "add-member"
		case L:
			return put(append(append(L{}, x...), val(r))), "append"
		case string:
			return put(twist(r, x)), "twist"
		}

		return put(val(r)), "replace"
	case 10: // copy from elsewhere
		return put(vh.Clone(vh.Get(v, ps[r.Intn(len(ps))]))), "copy"
	case 11:
		if x, ok := cur.(L); ok && len(x) > 0 {
			n := 2 + r.Intn(40)
			y := append(L{}, x...)

			for i := 0; i < n; i++ {
				y = append(y, vh.Clone(x[r.Intn(len(x))]))
			}

			return put(y), "repeat"
		}

		return put(L{cur, cur}), "double"
	case 12:
		if x, ok := cur.(string); ok {
			return put(twist(r, x)), "twist"
		}

		return put(val(r)), "replace"
	case 13: // rename a member
		if m, ok := cur.(M); ok && len(m) > 0 {
			ks := vh.SortedKeys(m)
			k := ks[r.Intn(len(ks))]
			x := m[k]
			delete(m, k)
			m[vh.Pick(r, members...)] = x

			return v, "rename"
		}

		return put(val(r)), "replace"
	case 14: // empty of the same type
		switch cur.(type) {
		case M:
			return put(M{}), "empty"
		case L:
			return put(L{}), "empty"
		case string:
			return put(""), "empty"
		}

		return put(nil), "null"
	default:
		return put(nest(r, cur, 1+r.Intn(30))), "nest"
	}
}

// twist changes a string.
func twist(r *rand.Rand, s string) string {
	b := []byte(s)

	switch n := r.Intn(9); {
	case n == 0 || len(b) == 0:
		return s + vh.Pick(r, words...)
	case n == 1:
		return s[:r.Intn(len(s))]
	case n == 2:
		return s[r.Intn(len(s)):]
	case n == 3:
		b[r.Intn(len(b))] ^= byte(1 << r.Intn(7))
		return strings.ToValidUTF8(string(b), "?")
	case n == 4:
		return strings.ToUpper(s)
	case n == 5:
		return vh.Pick(r, words...) + s
	case n == 6:
		i := r.Intn(len(s))
		return strings.ToValidUTF8(s[:i]+vh.Pick(r, ".", "~", "#", ":", "/", " ", "\x00", "=", "..", ",")+s[i:], "?")
	case n == 7:
		return s + s
	default:
		i, j := r.Intn(len(b)), r.Intn(len(b))
		b[i], b[j] = b[j], b[i]

		return strings.ToValidUTF8(string(b), "?")
	}
}

// hostile applies 1..3 alterations to a copy.
func hostile(r *rand.Rand, v interface{}) (interface{}, string) {
	v = vh.Clone(v)

	var how []string

	for i := 0; i == 0 || i < 3 && r.Intn(2) == 0; i++ {
		var h string
		v, h = alter(r, v)
		how = append(how, h)
	}

	return v, strings.Join(how, "+")
}

func hostileM(r *rand.Rand, m M) (M, string) {
	for {
		v, h := hostile(r, m)
		if x, ok := v.(M); ok {
			return x, h
		}
	}
}

// text alters serialised JSON.
func text(r *rand.Rand, b []byte) ([]byte, string) {
	s := string(b)

	switch r.Intn(9) {
	case 0: // duplicate a member
		if i := strings.Index(s, `":`); i > 0 && strings.HasPrefix(s, "{") {
			k := vh.Pick(r, members...)
			return []byte("{" + string(vh.J(k)) + ":" + string(vh.J(val(r))) + "," + s[1:]), "dup-member"
		}
	case 1:
		return append([]byte("\xef\xbb\xbf"), b...), "bom"
	case 2:
		return append(append([]byte{}, b...), vh.Pick(r, "{}", "]", "\x00", "null", " \n ", ",", "//")...), "trailing"
	case 3:
		if len(s) > 2 {
			return b[:r.Intn(len(b))], "truncated"
		}
	case 4:
		if len(s) > 2 {
			c := append([]byte{}, b...)
			c[r.Intn(len(c))] = byte(r.Intn(256))

			return c, "byte"
		}
	case 5:
		return []byte(strings.Replace(s, `"https://`, `"\ud800https://`, 1+r.Intn(2))), "surrogate"
	case 6:
		return []byte(strings.Replace(s, `e`, "\xff", 1+r.Intn(3))), "non-utf8"
	case 7:
		return []byte(`"` + strings.ReplaceAll(strings.ReplaceAll(s, `\`, `\\`), `"`, `\"`) + `"`), "quoted"
	}

	i := 0
	if len(b) > 0 {
		i = r.Intn(len(b))
	}

	return append(append(append([]byte{}, b[:i]...), vh.Pick(r, "{", "[", "]", "}", "\"", ",", ":", "0", "-", "\\")...), b[i:]...), "insert"
}

// raw alters any bytes.
func raw(r *rand.Rand, b []byte) ([]byte, string) {
	c := append([]byte{}, b...)

	switch n := r.Intn(8); {
	case n == 0 || len(c) == 0:
		return append(c, byte(r.Intn(256))), "extend"
	case n == 1:
		return c[:r.Intn(len(c))], "truncate"
	case n == 2:
		return c[r.Intn(len(c)):], "behead"
	case n == 3:
		for i := 0; i <= r.Intn(6); i++ {
			c[r.Intn(len(c))] = byte(r.Intn(256))
		}

		return c, "bytes"
	case n == 4:
		c[r.Intn(len(c))] ^= byte(1 << r.Intn(8))
		return c, "bit"
	case n == 5:
		i, j := r.Intn(len(c)), r.Intn(len(c))
		if i > j {
			i, j = j, i
		}

		return append(append(append([]byte{}, c[:j]...), c[i:j]...), c[j:]...), "repeat-part"
	case n == 6:
		i, j := r.Intn(len(c)), r.Intn(len(c))
		if i > j {
			i, j = j, i
		}

		return append(append([]byte{}, c[:i]...), c[j:]...), "cut-part"
	default:
		i := r.Intn(len(c))
		return append(append(append([]byte{}, c[:i]...), vh.Pick(r, words...)...), c[i:]...), "insert-word"
	}
}

// bytesOf serialises, sometimes with altered text.
func bytesOf(r *rand.Rand, v interface{}) ([]byte, string) {
	b := vh.J(v)
	if r.Intn(8) == 0 {
		return text(r, b)
	}

	return b, ""
}

// b64ish encodes in one of the usual ways.
func b64ish(r *rand.Rand, b []byte) string {
	switch r.Intn(8) {
	case 0:
		return base64.StdEncoding.EncodeToString(b)
	case 1:
		return base64.URLEncoding.EncodeToString(b)
	case 2:
		return hex.EncodeToString(b)
	default:
		return vh.B64(b)
	}
}

// token builds a JWS over any header and payload bytes, signed where that is possible.
func token(r *rand.Rand, hdr, payload []byte, k *vh.Key) string {
	in := b64ish(r, hdr) + "." + b64ish(r, payload)
	if r.Intn(6) != 0 {
		in = vh.B64(hdr) + "." + vh.B64(payload)
	}

	sig := []byte{}

	if r.Intn(8) != 0 {
		if s, err := k.Sign([]byte(in)); err == nil {
			sig = s
		}
	}

	return in + "." + vh.B64(sig)
}

func cut(s string, n int) string {
	if len(s) > n {
		return fmt.Sprintf("%s...(%d bytes)", s[:n], len(s))
	}

	return s
}

// cborVal turns a JSON tree into a CBOR one with CBOR's own oddities.
func cborVal(r *rand.Rand, v interface{}) interface{} {
	if r.Intn(60) == 0 {
		return vh.Pick[interface{}](r, []byte("x"), uint64(1<<63), map[interface{}]interface{}{1: 2}, map[interface{}]interface{}{nil: nil}, map[interface{}]interface{}{true: "x", "id": []byte{1}}, 1.5, []interface{}{[]byte{}})
	}

	switch x := v.(type) {
	case M:
		o := map[interface{}]interface{}{}
		for _, k := range vh.SortedKeys(x) {
			o[k] = cborVal(r, x[k])
		}

		return o
	case L:
		o := []interface{}{}
		for _, e := range x {
			o = append(o, cborVal(r, e))
		}

		return o
	case json.Number:
		f, _ := x.Float64()
		return f
	default:
		return v
	}
}
