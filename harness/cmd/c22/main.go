// C22: the signature verifiers agree with the standard algorithms.
package main

import (
	"bytes"
	"crypto"
	"crypto/ecdsa"
	"crypto/ed25519"
	"crypto/elliptic"
	"crypto/rsa"
	"crypto/sha256"
	"crypto/sha512"
	"crypto/x509"
	"encoding/asn1"
	"encoding/hex"
	"fmt"
	"math/big"
	"math/rand"
	"slices"
	"sort"
	"strings"
	"sync"

	"github.com/btcsuite/btcd/btcec/v2"
	"github.com/trustbloc/bbs-signature-go/bbs12381g2pub"
	"github.com/trustbloc/did-go/doc/ld/proof"
	"github.com/trustbloc/kms-go/doc/jose/jwk"
	"github.com/trustbloc/kms-go/doc/jose/jwk/jwksupport"
	"github.com/trustbloc/kms-go/spi/kms"

	"github.com/trustbloc/vc-go/crypto-ext/pubkey"
	"github.com/trustbloc/vc-go/crypto-ext/verifiers/bbs"
	vecdsa "github.com/trustbloc/vc-go/crypto-ext/verifiers/ecdsa"
	ved25519 "github.com/trustbloc/vc-go/crypto-ext/verifiers/ed25519"
	vrsa "github.com/trustbloc/vc-go/crypto-ext/verifiers/rsa"
	"github.com/trustbloc/vc-go/verifharness/vh"
)

type M = map[string]interface{}

type sigVerifier interface {
	SupportedKeyType(kms.KeyType) bool
	Verify(signature, msg []byte, key *pubkey.PublicKey) error
}

type alg struct {
	name  string
	v     sigVerifier
	types []kms.KeyType
	curve elliptic.Curve
	size  int
	hash  func([]byte) []byte
	keys  []*vh.Key
}

var (
	algs   []*alg
	byName = map[string]*alg{}
	all    = []kms.KeyType{
		kms.AES256GCMType, kms.ECDSAP256TypeDER, kms.ECDSASecp256k1TypeDER, kms.ECDSAP384TypeDER, kms.ECDSAP521TypeDER, kms.ECDSAP256TypeIEEEP1363,
		kms.ECDSAP384TypeIEEEP1363, kms.ECDSAP521TypeIEEEP1363, kms.ECDSASecp256k1TypeIEEEP1363, kms.ED25519Type, kms.RSARS256Type, kms.RSAPS256Type,
		kms.HMACSHA256Tag256Type, kms.NISTP256ECDHKWType, kms.X25519ECDHKWType, kms.BLS12381G2Type, "", "P-256", "Ed25519", "ecdsap256ieeep1363",
	}
)

func main() {
	vh.Main(vh.Spec{
		ID: "C22",
		Rule: "every verifier (Ed25519, ES256, ES384, ES521, ES256K, RS256, PS256, BBS+, BBS+ proofs) x key as JWK or bytes x messages of 0 to 100000 bytes: valid " +
			"signatures (fixed width and DER, also with short or small r), about 40 alterations of the signature's bits, length, encoding or values, altered messages, " +
			"other keys, curves, key types and malformed keys. The verdict is compared with an independent decision (crypto/ecdsa, ed25519, rsa over strictly decoded " +
			"values; secp256k1 by direct curve arithmetic). Distinct: (algorithm, key form, alteration, verdict).",
		Level: "exploration",
		Require: map[string]int64{"valid.accepted": 1500, "altered.refused": 8000, "message.refused": 1200, "key.refused": 1500, "type.refused": 1000, "still-valid": 30,
			"small-r": 20, "bbs.proof": 20, "bbs.refused": 100},
		Assumptions: []string{"PSS salt lengths other than the hash length are not judged", "BBS+ messages are sets of non-blank lines; changes of blank lines are not judged"},
		Run:         run,
	})
}

func s256(b []byte) []byte { h := sha256.Sum256(b); return h[:] }
func s384(b []byte) []byte { h := sha512.Sum384(b); return h[:] }
func s512(b []byte) []byte { h := sha512.Sum512(b); return h[:] }

func run(c *vh.Check) {
	algs = []*alg{
		{name: "EdDSA", v: ved25519.New(), types: []kms.KeyType{kms.ED25519Type}},
		{name: "ES256", v: vecdsa.NewES256(), types: []kms.KeyType{kms.ECDSAP256TypeIEEEP1363, kms.ECDSAP256TypeDER}, curve: elliptic.P256(), size: 32, hash: s256},
		{name: "ES384", v: vecdsa.NewES384(), types: []kms.KeyType{kms.ECDSAP384TypeIEEEP1363, kms.ECDSAP384TypeDER}, curve: elliptic.P384(), size: 48, hash: s384},
		{name: "ES521", v: vecdsa.NewES521(), types: []kms.KeyType{kms.ECDSAP521TypeIEEEP1363, kms.ECDSAP521TypeDER}, curve: elliptic.P521(), size: 66, hash: s512},
		{name: "ES256K", v: vecdsa.NewSecp256k1(), types: []kms.KeyType{kms.ECDSASecp256k1TypeIEEEP1363, kms.ECDSASecp256k1TypeDER}, curve: btcec.S256(), size: 32, hash: s256},
		{name: "RS256", v: vrsa.NewRS256(), types: []kms.KeyType{kms.RSARS256Type}},
		{name: "PS256", v: vrsa.NewPS256(), types: []kms.KeyType{kms.RSAPS256Type}},
	}

	for _, a := range algs {
		byName[a.name] = a
		for i := 0; len(a.keys) < 3 && i < 64; i++ {
			k := vh.NewKey(a.name, fmt.Sprintf("c22-%d", i))
			if p, ok := k.Pub.(*rsa.PublicKey); ok {
				k.Bytes = x509.MarshalPKCS1PublicKey(p)
				if len(a.keys) == 1 && bytes.Equal(a.keys[0].Bytes, k.Bytes) {
					continue
				}

				if len(a.keys) == 2 {
					break
				}
			}

			a.keys = append(a.keys, k)
		}
	}

	c.Cases("valid", c.N(2400, 24000), func(r *rand.Rand, i int) { valid(c, r, algs[i%len(algs)]) })
	c.Cases("altered", c.N(16000, 200000), func(r *rand.Rand, i int) { altered(c, r, algs[i%len(algs)]) })
	c.Cases("message", c.N(2400, 24000), func(r *rand.Rand, i int) { message(c, r, algs[i%len(algs)]) })
	c.Cases("key", c.N(5000, 60000), func(r *rand.Rand, i int) { otherKey(c, r, algs[i%len(algs)]) })
	c.Cases("type", c.N(1400, 14000), func(r *rand.Rand, i int) { keyType(c, r, algs[i%len(algs)]) })
	c.Cases("concurrent", c.N(8, 60), func(r *rand.Rand, _ int) { concurrent(c, r) })
	c.Cases("bbs", c.N(160, 2000), func(r *rand.Rand, _ int) { bbsSig(c, r) })
	c.Cases("bbsproof", c.N(72, 900), func(r *rand.Rand, _ int) { bbsProof(c, r) })
}

func msgOf(r *rand.Rand) []byte {
	n := vh.Pick(r, 0, 1, 31, 32, 33, 63, 64, 100, 1000, 100000)
	if n == 100000 && r.Intn(8) != 0 {
		n = 257
	}

	b := make([]byte, n)
	r.Read(b)

	return b
}

// form gives a key in one of its forms.
func form(r *rand.Rand, a *alg, k *vh.Key) (*pubkey.PublicKey, string) {
	p := &pubkey.PublicKey{Type: vh.Pick(r, a.types...)}

	switch r.Intn(5) {
	case 0, 1:
		p.JWK = cloneJWK(k.JWK)
		return p, "jwk"
	case 2, 3:
		p.BytesKey = &pubkey.BytesKey{Bytes: bytes.Clone(k.Bytes)}
		return p, "bytes"
	default:
		p.JWK = cloneJWK(k.JWK)
		p.BytesKey = &pubkey.BytesKey{Bytes: bytes.Clone(k.Bytes)}

		return p, "both"
	}
}

// cloneJWK sends the JWK through its JSON form, as resolvers do.
func cloneJWK(j *jwk.JWK) *jwk.JWK {
	b, err := j.MarshalJSON()
	if err != nil {
		panic(fmt.Sprintf("vh-fixture jwk: %v", err))
	}

	o := &jwk.JWK{}
	if err := o.UnmarshalJSON(b); err != nil {
		panic(fmt.Sprintf("vh-fixture jwk: %v", err))
	}

	return o
}

func verify(c *vh.Check, a sigVerifier, key string, sig, msg []byte, p *pubkey.PublicKey, detail interface{}) (error, bool) {
	var err error

	s0, m0 := bytes.Clone(sig), bytes.Clone(msg)

	if pan, site, v := vh.Guard(func() { err = a.Verify(sig, msg, p) }); pan {
		c.Violate("panic/"+key, fmt.Sprintf("verification panicked in %s: %v", site, v), detail)
		return nil, false
	}

	c.Expect(bytes.Equal(s0, sig) && bytes.Equal(m0, msg), "changed-input", "the verifier changed its input", detail)

	return err, true
}

// ---- reference ----

// refEC decides an EC signature: fixed width or strict DER.
func refEC(a *alg, pub *ecdsa.PublicKey, msg, sig []byte) bool {
	h := a.hash(msg)

	if len(sig) == 2*a.size {
		if refRS(pub, h, new(big.Int).SetBytes(sig[:a.size]), new(big.Int).SetBytes(sig[a.size:])) {
			return true
		}
	}

	r, s, ok := strictDER(sig)

	return ok && refRS(pub, h, r, s)
}

// strictDER decodes SEQUENCE { INTEGER, INTEGER } by hand, in the one DER encoding only.
func strictDER(b []byte) (*big.Int, *big.Int, bool) {
	body, rest, ok := tlv(b, 0x30)
	if !ok || len(rest) != 0 {
		return nil, nil, false
	}

	rb, rest, ok := tlv(body, 0x02)
	if !ok {
		return nil, nil, false
	}

	sb, rest, ok := tlv(rest, 0x02)
	if !ok || len(rest) != 0 {
		return nil, nil, false
	}

	for _, x := range [][]byte{rb, sb} {
		if len(x) == 0 || x[0]&0x80 != 0 || len(x) > 1 && x[0] == 0 && x[1]&0x80 == 0 {
			return nil, nil, false
		}
	}

	return new(big.Int).SetBytes(rb), new(big.Int).SetBytes(sb), true
}

func tlv(b []byte, tag byte) (val, rest []byte, ok bool) {
	if len(b) < 2 || b[0] != tag {
		return nil, nil, false
	}

	n, b := int(b[1]), b[2:]

	switch {
	case n < 0x80:
	case n == 0x81:
		if len(b) < 1 || b[0] < 0x80 {
			return nil, nil, false
		}

		n, b = int(b[0]), b[1:]
	default:
		return nil, nil, false
	}

	if len(b) < n {
		return nil, nil, false
	}

	return b[:n], b[n:], true
}

// refRS is the textbook ECDSA verification over the curve's arithmetic.
func refRS(pub *ecdsa.PublicKey, h []byte, r, s *big.Int) bool {
	n := pub.Curve.Params().N
	if r.Sign() <= 0 || s.Sign() <= 0 || r.Cmp(n) >= 0 || s.Cmp(n) >= 0 {
		return false
	}

	e := new(big.Int).SetBytes(h)
	if ex := len(h)*8 - n.BitLen(); ex > 0 {
		e.Rsh(e, uint(ex))
	}

	w := new(big.Int).ModInverse(s, n)
	u1 := new(big.Int).Mul(e, w)
	u1.Mod(u1, n)

	u2 := new(big.Int).Mul(r, w)
	u2.Mod(u2, n)

	x1, y1 := pub.Curve.ScalarBaseMult(u1.FillBytes(make([]byte, (n.BitLen()+7)/8)))           //nolint:staticcheck
	x2, y2 := pub.Curve.ScalarMult(pub.X, pub.Y, u2.FillBytes(make([]byte, (n.BitLen()+7)/8))) //nolint:staticcheck

	x, y := pub.Curve.Add(x1, y1, x2, y2) //nolint:staticcheck
	if x.Sign() == 0 && y.Sign() == 0 {
		return false
	}

	x.Mod(x, n)

	return x.Cmp(r) == 0
}

func ref(a *alg, k *vh.Key, msg, sig []byte) bool {
	switch p := k.Pub.(type) {
	case *ecdsa.PublicKey:
		return refEC(a, p, msg, sig)
	case ed25519.PublicKey:
		return len(sig) == 64 && ed25519.Verify(p, msg, sig)
	case *rsa.PublicKey:
		if a.name == "RS256" {
			return rsa.VerifyPKCS1v15(p, crypto.SHA256, s256(msg), sig) == nil
		}

		return rsa.VerifyPSS(p, crypto.SHA256, s256(msg), sig, &rsa.PSSOptions{SaltLength: rsa.PSSSaltLengthEqualsHash}) == nil
	}

	panic("vh-fixture ref")
}

// ---- signatures ----

func sign(r *rand.Rand, a *alg, k *vh.Key, msg []byte) []byte {
	if p, ok := k.Priv.(*ecdsa.PrivateKey); ok {
		kk := new(big.Int).Rand(r, new(big.Int).Sub(a.curve.Params().N, big.NewInt(1)))
		kk.Add(kk, big.NewInt(1))
		x, s := signK(p, a.hash(msg), kk)

		return fixed(a, x, s)
	}

	sig, err := k.Sign(msg)
	if err != nil {
		panic(fmt.Sprintf("vh-fixture sign: %v", err))
	}

	return sig
}

// signK is ECDSA signing with a chosen nonce.
func signK(p *ecdsa.PrivateKey, h []byte, k *big.Int) (r, s *big.Int) {
	n := p.Curve.Params().N
	x, _ := p.Curve.ScalarBaseMult(k.FillBytes(make([]byte, (n.BitLen()+7)/8))) //nolint:staticcheck

	r = new(big.Int).Mod(x, n)
	e := new(big.Int).SetBytes(h)

	if ex := len(h)*8 - n.BitLen(); ex > 0 {
		e.Rsh(e, uint(ex))
	}

	s = new(big.Int).Mul(r, p.D)
	s.Add(s, e)
	s.Mul(s, new(big.Int).ModInverse(k, n))
	s.Mod(s, n)

	return r, s
}

func fixed(a *alg, r, s *big.Int) []byte {
	b := make([]byte, 2*a.size)
	r.FillBytes(b[:a.size])
	s.FillBytes(b[a.size:])

	return b
}

func der(r, s *big.Int) []byte {
	b, err := asn1.Marshal(struct{ R, S *big.Int }{r, s})
	if err != nil {
		panic(fmt.Sprintf("vh-fixture der: %v", err))
	}

	return b
}

func rs(a *alg, sig []byte) (r, s *big.Int) {
	return new(big.Int).SetBytes(sig[:a.size]), new(big.Int).SetBytes(sig[a.size:])
}

func valid(c *vh.Check, r *rand.Rand, a *alg) {
	k := vh.Pick(r, a.keys...)
	p, f := form(r, a, k)
	msg := msgOf(r)
	sig := sign(r, a, k, msg)
	enc := "plain"

	if a.curve != nil {
		enc = vh.Pick(r, "fixed", "fixed-lead0", "der", "der-lead0", "small-r", "der-small-r", "twin")
		n := a.curve.Params().N

		switch enc {
		case "fixed-lead0", "der-lead0":
			for i := 0; sig[0] != 0 && sig[a.size] != 0 && i < 600; i++ {
				sig = sign(r, a, k, msg)
			}
		case "small-r", "der-small-r": // the x coordinate of G/2 is small on some curves
			x, s := signK(k.Priv.(*ecdsa.PrivateKey), a.hash(msg), new(big.Int).ModInverse(big.NewInt(2), n))
			sig = fixed(a, x, s)

			c.Count("small-r", 1)
		case "twin":
			x, s := rs(a, sig)
			sig = fixed(a, x, s.Sub(n, s))
		}

		if strings.HasPrefix(enc, "der") {
			sig = der(rs(a, sig))
		}
	}

	if !ref(a, k, msg, sig) {
		panic("vh-fixture: the reference refuses a valid signature: " + a.name + "/" + enc)
	}

	detail := M{"alg": a.name, "form": f, "enc": enc, "sig": hex.EncodeToString(sig), "msg": hex.EncodeToString(head(msg)), "key": hex.EncodeToString(k.Bytes)}

	c.Eval(a.name + "/" + f + "/valid/" + enc)

	if err, ok := verify(c, a.v, "valid/"+a.name, sig, msg, p, detail); ok {
		c.Count("valid.accepted", 1)
		c.Expect(err == nil, "refused/"+a.name+"/"+enc, fmt.Sprintf("a valid signature was refused: %v", err), detail)
	}
}

func head(b []byte) []byte {
	if len(b) > 200 {
		return b[:200]
	}

	return b
}

// intTLV encodes an integer with optional faults.
func rawInt(b []byte) []byte { return append(length(0x02, len(b)), b...) }

func length(tag byte, n int) []byte {
	if n < 0x80 {
		return []byte{tag, byte(n)}
	}

	return []byte{tag, 0x81, byte(n)}
}

func derBytes(x *big.Int) []byte {
	b := x.Bytes()
	if len(b) == 0 || b[0]&0x80 != 0 {
		b = append([]byte{0}, b...)
	}

	return b
}

func seq(parts ...[]byte) []byte {
	body := bytes.Join(parts, nil)
	return append(length(0x30, len(body)), body...)
}

func ecAlteration(r *rand.Rand, a *alg, sig []byte) (string, []byte) {
	n := a.curve.Params().N
	x, s := rs(a, sig)
	nn := bytes.Clone(sig)
	zero, one := big.NewInt(0), big.NewInt(1)
	rb, sb := derBytes(x), derBytes(s)

	alts := []struct {
		name string
		f    func() []byte
	}{
		{"zero", func() []byte { return make([]byte, 2*a.size) }},
		{"r-zero", func() []byte { return fixed(a, zero, s) }},
		{"s-zero", func() []byte { return fixed(a, x, zero) }},
		{"r-n", func() []byte { return fixed(a, n, s) }},
		{"s-n", func() []byte { return fixed(a, x, n) }},
		{"r-one", func() []byte { return fixed(a, one, s) }},
		{"ones", func() []byte { return bytes.Repeat([]byte{0xff}, 2*a.size) }},
		{"swap", func() []byte { return fixed(a, s, x) }},
		{"twin", func() []byte { return fixed(a, x, new(big.Int).Sub(n, s)) }},
		{"r-neg", func() []byte { return fixed(a, new(big.Int).Sub(n, x), s) }},
		{"pad-front", func() []byte { return append([]byte{0}, nn...) }},
		{"pad-each", func() []byte {
			return append(append([]byte{0}, nn[:a.size]...), append([]byte{0}, nn[a.size:]...)...)
		}},
		{"pad-back", func() []byte { return append(nn, 0) }},
		{"dup", func() []byte { return append(nn, sig...) }},
		{"der-twin", func() []byte { return der(x, new(big.Int).Sub(n, s)) }},
		{"der-swap", func() []byte { return der(s, x) }},
		{"der-trailing", func() []byte { return append(der(x, s), vh.Pick(r, []byte{0}, []byte{1, 2, 3}, []byte{5, 0})...) }},
		{"der-inner-trailing", func() []byte {
			return seq(rawInt(rb), rawInt(sb), vh.Pick(r, []byte{0x05, 0x00}, []byte{2, 1, 1}, []byte{0}, []byte{1, 2, 3}))
		}},
		{"der-nonminimal-r", func() []byte { return seq(rawInt(append([]byte{0}, rb...)), rawInt(sb)) }},
		{"der-nonminimal-s", func() []byte { return seq(rawInt(rb), rawInt(append([]byte{0, 0}, sb...))) }},
		{"der-unsigned-r", func() []byte { return seq(rawInt(x.Bytes()), rawInt(sb)) }},
		{"der-long-length", func() []byte {
			b := seq(rawInt(rb), rawInt(sb))
			if b[1] == 0x81 {
				return append([]byte{0x30, 0x82, 0}, b[2:]...)
			}

			return append([]byte{0x30, 0x81}, b[1:]...)
		}},
		{"der-indefinite", func() []byte { return append(append([]byte{0x30, 0x80}, append(rawInt(rb), rawInt(sb)...)...), 0, 0) }},
		{"der-set", func() []byte { b := der(x, s); b[0] = 0x31; return b }},
		{"der-octets", func() []byte { b := der(x, s); b[2+btoi(b[1] == 0x81)] = 0x04; return b }},
		{"der-r-plus-n", func() []byte { return der(new(big.Int).Add(x, n), s) }},
		{"der-s-plus-n", func() []byte { return der(x, new(big.Int).Add(s, n)) }},
		{"der-s-minus-n", func() []byte { return der(x, new(big.Int).Sub(s, n)) }},
		{"der-neg", func() []byte { return der(new(big.Int).Neg(x), s) }},
		{"der-zero", func() []byte { return seq(rawInt([]byte{0}), rawInt([]byte{0})) }},
		{"der-zero-long", func() []byte { return seq(rawInt(make([]byte, a.size)), rawInt(make([]byte, a.size))) }},
		{"der-huge", func() []byte { return der(new(big.Int).Lsh(x, 200), s) }},
		{"der-three", func() []byte { return seq(rawInt(rb), rawInt(sb), rawInt(sb)) }},
		{"der-one", func() []byte { return seq(rawInt(append(rb, sb...))) }},
		{"der-empty", func() []byte { return seq() }},
		{"der-nested", func() []byte { return seq(der(x, s)) }},
		{"der-truncated", func() []byte { b := der(x, s); return b[:r.Intn(len(b))] }},
		{"der-bit", func() []byte { b := der(x, s); b[r.Intn(len(b))] ^= 1 << r.Intn(8); return b }},
	}

	t := vh.Pick(r, alts...)

	return t.name, t.f()
}

func btoi(b bool) int {
	if b {
		return 1
	}

	return 0
}

func altered(c *vh.Check, r *rand.Rand, a *alg) {
	k := vh.Pick(r, a.keys...)
	p, f := form(r, a, k)
	msg := msgOf(r)
	sig := sign(r, a, k, msg)
	name, bad := "", bytes.Clone(sig)

	switch {
	case a.curve != nil && r.Intn(3) != 0:
		name, bad = ecAlteration(r, a, sig)
	default:
		name = vh.Pick(r, "bit", "bit", "byte", "truncate", "truncate1", "front", "append", "prepend", "empty", "nil", "zero", "ones", "random", "reverse", "s-plus-l", "insert", "hex")

		switch name {
		case "bit":
			bad[r.Intn(len(bad))] ^= 1 << r.Intn(8)
		case "byte":
			bad[r.Intn(len(bad))] += byte(1 + r.Intn(255))
		case "truncate":
			bad = bad[:r.Intn(len(bad))]
		case "truncate1":
			bad = bad[:len(bad)-1]
		case "front":
			bad = bad[1:]
		case "append":
			bad = append(bad, vh.Pick(r, []byte{0}, []byte{1}, []byte{0, 0}, sig[:1], sig)...)
		case "prepend":
			bad = append([]byte{0}, bad...)
		case "empty":
			bad = []byte{}
		case "nil":
			bad = nil
		case "zero":
			bad = make([]byte, len(bad))
		case "ones":
			bad = bytes.Repeat([]byte{0xff}, len(bad))
		case "random":
			r.Read(bad)
		case "reverse":
			for i, j := 0, len(bad)-1; i < j; i, j = i+1, j-1 {
				bad[i], bad[j] = bad[j], bad[i]
			}
		case "insert":
			i := r.Intn(len(bad))
			bad = append(append(bytes.Clone(sig[:i]), byte(r.Intn(256))), sig[i:]...)
		case "hex":
			bad = []byte(hex.EncodeToString(sig))
		case "s-plus-l": // the second half plus the group order (Ed25519 malleability)
			if a.name != "EdDSA" {
				name = "bit"
				bad[0] ^= 1

				break
			}

			l, _ := new(big.Int).SetString("7237005577332262213973186563042994240857116359379907606001950938285454250989", 10)
			le := bytes.Clone(bad[32:])
			rev(le)

			s := new(big.Int).Add(new(big.Int).SetBytes(le), l)
			out := s.FillBytes(make([]byte, 32))
			rev(out)
			copy(bad[32:], out)
		}
	}

	want := ref(a, k, msg, bad)
	detail := M{"alg": a.name, "form": f, "alteration": name, "sig": hex.EncodeToString(bad), "valid": hex.EncodeToString(sig),
		"msg": hex.EncodeToString(head(msg)), "key": hex.EncodeToString(k.Bytes)}

	c.Eval(fmt.Sprintf("%s/%s/%s/%v", a.name, f, name, want))

	err, ok := verify(c, a.v, "altered/"+a.name+"/"+name, bad, msg, p, detail)
	if !ok {
		return
	}

	if want {
		c.Count("still-valid", 1)
		c.Expect(err == nil, "refused/"+a.name+"/"+name, fmt.Sprintf("a signature that is valid was refused: %v", err), detail)

		return
	}

	c.Count("altered.refused", 1)
	c.Expect(err != nil, "accepted/"+a.name+"/"+name, "an altered signature was accepted: "+name, detail)
}

func rev(b []byte) {
	for i, j := 0, len(b)-1; i < j; i, j = i+1, j-1 {
		b[i], b[j] = b[j], b[i]
	}
}

func message(c *vh.Check, r *rand.Rand, a *alg) {
	k := vh.Pick(r, a.keys...)
	p, f := form(r, a, k)
	msg := msgOf(r)
	sig := sign(r, a, k, msg)

	if a.curve != nil && r.Intn(2) == 0 {
		sig = der(rs(a, sig))
	}

	bad := bytes.Clone(msg)
	name := vh.Pick(r, "bit", "append", "prepend", "truncate", "empty", "double", "digest")

	switch name {
	case "bit":
		if len(bad) == 0 {
			bad = []byte{1}
		} else {
			bad[r.Intn(len(bad))] ^= 1 << r.Intn(8)
		}
	case "append":
		bad = append(bad, byte(r.Intn(256)))
	case "prepend":
		bad = append([]byte{byte(r.Intn(256))}, bad...)
	case "truncate":
		if len(bad) > 0 {
			bad = bad[:len(bad)-1]
		}
	case "empty":
		bad = nil
	case "double":
		bad = append(bad, msg...)
	case "digest":
		bad = s256(msg)
	}

	if bytes.Equal(bad, msg) {
		return
	}

	detail := M{"alg": a.name, "form": f, "alteration": name, "sig": hex.EncodeToString(sig), "msg": hex.EncodeToString(head(msg))}
	c.Eval(a.name + "/" + f + "/message/" + name)

	if err, ok := verify(c, a.v, "message/"+a.name, sig, bad, p, detail); ok {
		c.Count("message.refused", 1)
		c.Expect(err != nil, "accepted/"+a.name+"/message", "a signature of another message was accepted", detail)
	}
}

func jwkOf(pub interface{}) *jwk.JWK {
	j, err := jwksupport.JWKFromKey(pub)
	if err != nil {
		panic(fmt.Sprintf("vh-fixture jwk: %v", err))
	}

	return j
}

// otherKey: signatures valid under something else than the given key.
func otherKey(c *vh.Check, r *rand.Rand, a *alg) {
	k := a.keys[0]
	msg := msgOf(r)
	sig := sign(r, a, k, msg)
	p := &pubkey.PublicKey{Type: vh.Pick(r, a.types...)}
	name := vh.Pick(r, "other", "other", "other-alg-jwk", "other-alg-bytes", "signed-by-other-alg", "none", "empty", "nil-bytes", "short", "long", "compressed", "hybrid", "offcurve",
		"zero", "negated", "pkix", "garbage")

	o := vh.Pick(r, algs...)
	for o == a || o.name[1:] == a.name[1:] {
		o = vh.Pick(r, algs...)
	}

	if a.curve != nil && r.Intn(2) == 0 {
		sig = der(rs(a, sig))
	}

	switch name {
	case "other":
		p, _ = form(r, a, a.keys[1])
	case "other-alg-jwk":
		p.JWK = cloneJWK(o.keys[0].JWK)
	case "other-alg-bytes":
		p.BytesKey = &pubkey.BytesKey{Bytes: o.keys[0].Bytes}
	case "signed-by-other-alg":
		// the other algorithm's key and a signature made with it: over this algorithm's hash where it is an EC one
		if p.JWK = cloneJWK(o.keys[0].JWK); r.Intn(4) == 0 {
			p.JWK, p.BytesKey = nil, &pubkey.BytesKey{Bytes: o.keys[0].Bytes}
		}

		sig = sign(r, o, o.keys[0], msg)

		if a.curve != nil && o.curve != nil {
			kk := new(big.Int).Add(new(big.Int).Rand(r, new(big.Int).Sub(o.curve.Params().N, big.NewInt(2))), big.NewInt(1))
			x, s := signK(o.keys[0].Priv.(*ecdsa.PrivateKey), a.hash(msg), kk)

			sig = der(x, s)
			if r.Intn(2) == 0 {
				sig = fixed(o, x, s)
			}
		}
	case "none":
	case "empty":
		p.BytesKey = &pubkey.BytesKey{}
	case "nil-bytes":
		p.BytesKey = &pubkey.BytesKey{Bytes: []byte{}}
	case "short":
		p.BytesKey = &pubkey.BytesKey{Bytes: k.Bytes[:r.Intn(len(k.Bytes))]}
	case "long":
		p.BytesKey = &pubkey.BytesKey{Bytes: append(bytes.Clone(k.Bytes), vh.Pick(r, []byte{0}, []byte{1, 2}, k.Bytes)...)}
	case "compressed", "hybrid", "offcurve", "negated":
		if a.curve == nil {
			return
		}

		b := bytes.Clone(k.Bytes)

		switch name {
		case "compressed":
			b = elliptic.MarshalCompressed(a.curve, k.Pub.(*ecdsa.PublicKey).X, k.Pub.(*ecdsa.PublicKey).Y)
			if err, ok := verify(c, a.v, "compressed", sig, msg, &pubkey.PublicKey{Type: a.types[0], BytesKey: &pubkey.BytesKey{Bytes: b}}, nil); ok && err == nil {
				return // accepting the compressed form of the right key would be fine
			}
		case "hybrid":
			b[0] = 6 + b[len(b)-1]&1
		case "offcurve":
			b[len(b)-1-r.Intn(a.size)] ^= 1 << r.Intn(8)
		case "negated":
			pub := k.Pub.(*ecdsa.PublicKey)
			b = elliptic.Marshal(a.curve, pub.X, new(big.Int).Sub(a.curve.Params().P, pub.Y)) //nolint:staticcheck
		}

		p.BytesKey = &pubkey.BytesKey{Bytes: b}
	case "zero":
		p.BytesKey = &pubkey.BytesKey{Bytes: make([]byte, len(k.Bytes))}

		if a.name == "EdDSA" { // the zero key is a small-order point: some signatures do verify under it
			return
		}
	case "pkix":
		b, err := x509.MarshalPKIXPublicKey(k.Pub)
		if err != nil {
			return // secp256k1
		}

		p.BytesKey = &pubkey.BytesKey{Bytes: b}
	case "garbage":
		b := make([]byte, r.Intn(200))
		r.Read(b)
		p.BytesKey = &pubkey.BytesKey{Bytes: b}
	}

	detail := M{"alg": a.name, "key": name, "other": o.name, "sig": hex.EncodeToString(sig), "msg": hex.EncodeToString(head(msg)), "pub": fmt.Sprintf("%+v", p)}
	c.Eval(a.name + "/key/" + name + "/" + o.name)

	if err, ok := verify(c, a.v, "key/"+a.name+"/"+name, sig, msg, p, detail); ok {
		c.Count("key.refused", 1)
		c.Expect(err != nil, "accepted/"+a.name+"/key-"+name, "a signature was accepted with a key it does not belong to: "+name, detail)
	}
}

func keyType(c *vh.Check, r *rand.Rand, a *alg) {
	k := vh.Pick(r, a.keys...)
	p, f := form(r, a, k)
	msg := msgOf(r)
	sig := sign(r, a, k, msg)
	p.Type = vh.Pick(r, all...)

	want := false
	for _, t := range a.types {
		want = want || t == p.Type
	}

	detail := M{"alg": a.name, "type": p.Type}
	c.Eval(fmt.Sprintf("%s/%s/type/%s", a.name, f, p.Type))
	c.Expect(a.v.SupportedKeyType(p.Type) == want, "supported/"+a.name, fmt.Sprintf("SupportedKeyType(%s) of %s", p.Type, a.name), detail)

	if err, ok := verify(c, a.v, "type/"+a.name, sig, msg, p, detail); ok {
		if !want {
			c.Count("type.refused", 1)
		}

		c.Expect(err == nil == want, "type/"+a.name, fmt.Sprintf("key type %s: %v", p.Type, err), detail)
	}
}

// concurrent: one verifier serves many goroutines.
func concurrent(c *vh.Check, r *rand.Rand) {
	var wg sync.WaitGroup

	for _, a := range algs {
		for i := 0; i < 6; i++ {
			k := vh.Pick(r, a.keys...)
			p, _ := form(r, a, k)
			msg := msgOf(r)
			sig := sign(r, a, k, msg)

			wg.Add(1)

			go func() {
				defer wg.Done()

				for j := 0; j < 8; j++ {
					good := a.v.Verify(sig, msg, p)
					bad := a.v.Verify(sig, append(bytes.Clone(msg), 1), p)
					c.Expect(good == nil && bad != nil, "concurrent/"+a.name, fmt.Sprintf("verdicts under concurrency: %v, %v", good, bad), nil)
				}
			}()
		}
	}

	wg.Wait()
	c.Eval("concurrent")
}

// ---- BBS+ ----

func bbsKey(r *rand.Rand, k *vh.Key) (*pubkey.PublicKey, string) {
	p := &pubkey.PublicKey{Type: kms.BLS12381G2Type}
	if r.Intn(2) == 0 {
		p.JWK = jwkOf(k.Pub)
		return p, "jwk"
	}

	p.BytesKey = &pubkey.BytesKey{Bytes: bytes.Clone(k.Bytes)}

	return p, "bytes"
}

func lines(r *rand.Rand) []string {
	var out []string
	for n := 1 + r.Intn(8); n > 0; n-- {
		out = append(out, fmt.Sprintf("<urn:s%d> <urn:p> %q .", r.Intn(50), vh.SafeStr(r)))
	}

	if r.Intn(3) == 0 {
		out = append(out, fmt.Sprintf("_:c14n%d <urn:q> _:c14n%d .", r.Intn(3), r.Intn(12)))
	}

	return out
}

func bbsSig(c *vh.Check, r *rand.Rand) {
	k, k2 := vh.NewKey("BBS", fmt.Sprintf("b%d", r.Intn(4))), vh.NewKey("BBS", "zz")
	ls := lines(r)

	if r.Intn(3) == 0 { // messages need not be statements
		odd := []string{"#", "//", "-", ".", "@", "{", "\"", "\\", "0", "null", "é", "\x01x", "# <urn:s> <urn:p> \"x\" .", "<", "  <urn:s> <urn:p> \"x\" .", "x  ", ";", "*"}
		for n := 1 + r.Intn(3); n > 0; n-- {
			o := vh.Pick(r, odd...)
			ls = append(ls, vh.Pick(r, o, o+vh.SafeStr(r)))
		}

		r.Shuffle(len(ls), func(i, j int) { ls[i], ls[j] = ls[j], ls[i] })
	}

	msg := strings.Join(ls, "\n")

	if r.Intn(2) == 0 {
		msg += "\n"
	}

	sig, err := k.Sign([]byte(msg))
	if err != nil {
		panic(fmt.Sprintf("vh-fixture bbs: %v", err))
	}

	v := bbs.NewBBSG2SignatureVerifier()
	p, f := bbsKey(r, k)

	c.Eval("bbs/" + f)

	if err, ok := verify(c, v, "bbs/valid", sig, []byte(msg), p, nil); ok {
		c.Count("valid.accepted", 1)
		c.Expect(err == nil, "refused/bbs/"+f, fmt.Sprintf("a valid BBS+ signature was refused: %v", err), M{"msg": msg})
	}

	for _, name := range []string{"bit", "truncate", "append", "empty", "zero", "random", "msg-bit", "msg-drop", "msg-add", "msg-swap", "msg-dup", "msg-empty", "key", "key-none", "key-short", "type"} {
		bs, bm, bp := bytes.Clone(sig), ls, p

		switch name {
		case "bit":
			bs[r.Intn(len(bs))] ^= 1 << r.Intn(8)
		case "truncate":
			bs = bs[:r.Intn(len(bs))]
		case "append":
			bs = append(bs, vh.Pick(r, []byte{0}, []byte{1, 2}, sig)...)
		case "empty":
			bs = nil
		case "zero":
			bs = make([]byte, len(bs))
		case "random":
			r.Read(bs)
		case "msg-bit":
			bm = append([]string{ls[0] + "x"}, ls[1:]...)
		case "msg-drop":
			bm = ls[:len(ls)-1]
		case "msg-add":
			bm = append(append([]string{}, ls...), "<urn:x> <urn:y> <urn:z> .")
		case "msg-swap":
			if len(ls) < 2 || ls[0] == ls[1] {
				continue
			}

			bm = append([]string{ls[1], ls[0]}, ls[2:]...)
		case "msg-dup":
			bm = append(append([]string{}, ls...), ls[0])
		case "msg-empty":
			bm = nil
		case "key":
			bp, _ = bbsKey(r, k2)
		case "key-none":
			bp = &pubkey.PublicKey{Type: kms.BLS12381G2Type}
		case "key-short":
			bp = &pubkey.PublicKey{Type: kms.BLS12381G2Type, BytesKey: &pubkey.BytesKey{Bytes: k.Bytes[:r.Intn(len(k.Bytes))]}}
		case "type":
			bp = &pubkey.PublicKey{Type: vh.Pick(r, kms.ED25519Type, kms.ECDSAP256TypeIEEEP1363, ""), JWK: p.JWK, BytesKey: p.BytesKey}
		}

		detail := M{"alteration": name, "sig": hex.EncodeToString(bs), "msg": strings.Join(bm, "\n"), "form": f, "valid": hex.EncodeToString(sig)}
		c.Eval("bbs/" + f + "/" + name)

		if err, ok := verify(c, v, "bbs/"+name, bs, []byte(strings.Join(bm, "\n")), bp, detail); ok {
			c.Count("bbs.refused", 1)
			c.Expect(err != nil, "accepted/bbs/"+name, "accepted: "+name, detail)
		}
	}
}

type proofVerifier struct {
	nonce []byte
}

func (v proofVerifier) SupportedKeyType(kms.KeyType) bool { return true }
func (v proofVerifier) Verify(sig, msg []byte, p *pubkey.PublicKey) error {
	return bbs.NewBBSG2SignatureProofVerifier().Verify(sig, msg, p, &proof.Proof{Nonce: v.nonce})
}

func bbsProof(c *vh.Check, r *rand.Rand) {
	k, k2 := vh.NewKey("BBS", fmt.Sprintf("b%d", r.Intn(4))), vh.NewKey("BBS", "zz")
	// As the verifier gets them: ordered statements of the proof, then ordered statements of the document.
	head := []string{
		fmt.Sprintf("_:c14n0 <http://purl.org/dc/terms/created> %q .", vh.Time(r)),
		fmt.Sprintf("_:c14n0 <https://w3id.org/security#verificationMethod> <did:ex:%d#k> .", r.Intn(9)),
	}
	doc := lines(r)
	sort.Strings(doc)
	doc = slices.Compact(doc)
	ls := append(head, doc...)

	var raw [][]byte
	for _, l := range ls {
		raw = append(raw, []byte(l))
	}

	sig, err := k.Sign([]byte(strings.Join(ls, "\n")))
	if err != nil {
		panic(fmt.Sprintf("vh-fixture bbs: %v", err))
	}

	nonce := make([]byte, vh.Pick(r, 1, 16, 32, 100))
	r.Read(nonce)

	var idx []int
	var shown []string

	for i := range ls {
		if i < len(head) || r.Intn(2) == 0 {
			idx = append(idx, i)
			shown = append(shown, ls[i])
		}
	}

	prf, err := bbs12381g2pub.New().DeriveProof(raw, sig, nonce, k.Bytes, idx)
	if err != nil {
		panic(fmt.Sprintf("vh-fixture bbs proof: %v", err))
	}

	// revealed blank nodes of the document travel as urn:bnid: names, which changes the order of its statements
	enc := func(in []string) []byte {
		var out, rest []string
		for _, l := range in {
			if strings.HasPrefix(l, "_:c14n0 <http") {
				out = append(out, l)
			} else {
				rest = append(rest, bnid(l))
			}
		}

		sort.Strings(rest)
		out = append(out, rest...)

		return []byte(strings.Join(out, "\n") + "\n")
	}

	v := proofVerifier{nonce: nonce}
	p, f := bbsKey(r, k)
	detail := M{"lines": ls, "idx": idx, "proof": hex.EncodeToString(prf), "nonce": hex.EncodeToString(nonce), "form": f}

	c.Eval("bbsproof/" + f)

	if err, ok := verify(c, v, "bbsproof/valid", prf, enc(shown), p, detail); ok {
		c.Count("bbs.proof", 1)
		c.Expect(err == nil, "refused/bbsproof", fmt.Sprintf("a valid BBS+ proof was refused: %v", err), detail)
	}

	for _, name := range []string{"bit", "truncate", "append", "empty", "nonce", "nonce-empty", "msg", "msg-drop", "msg-add", "msg-add-bit", "responses", "key", "key-none", "key-short", "signature"} {
		bs, bm, bv, bp := bytes.Clone(prf), shown, v, p

		switch name {
		case "bit":
			bs[r.Intn(len(bs))] ^= 1 << r.Intn(8)
		case "truncate":
			bs = bs[:r.Intn(len(bs))]
		case "append":
			bs = append(bs, 0)
		case "empty":
			bs = nil
		case "nonce":
			n := bytes.Clone(nonce)
			n[r.Intn(len(n))] ^= 1 << r.Intn(8)
			bv.nonce = n
		case "nonce-empty":
			bv.nonce = nil
		case "msg":
			bm = append([]string{shown[0] + "x"}, shown[1:]...)
		case "msg-drop":
			bm = shown[1:]
		case "msg-add":
			bm = append(append([]string{}, shown...), "<urn:zz> <urn:y> <urn:z> .")
		case "msg-add-bit": // a revealed index beyond the signed messages, and a message for it
			n := int(bs[0])<<8 | int(bs[1])
			w := n/8 + 1
			x := n + r.Intn(w*8-n)
			bs[2+w-1-x/8] |= 1 << (x % 8)
			bm = append(append([]string{}, shown...), "<urn:zz> <urn:y> <urn:z> .")
		case "responses": // wrong counts of responses or sizes inside the proof
			n := int(bs[0])<<8 | int(bs[1])
			at := 2 + n/8 + 1 + 144
			at = vh.Pick(r, at, at+4+48, at+4+116+48)
			copy(bs[at:], vh.Pick(r, []byte{0, 0, 0, 0}, []byte{0, 0, 0, 1}, []byte{0xff, 0xff, 0xff, 0xff}, []byte{0x80, 0, 0, 0}, []byte{0, 0, 0, 3 + byte(r.Intn(3))*80}, []byte{7, 0xff, 0xff, 0xff}))
			if bytes.Equal(bs, prf) {
				continue
			}
		case "key":
			bp, _ = bbsKey(r, k2)
		case "key-none":
			bp = &pubkey.PublicKey{Type: kms.BLS12381G2Type}
		case "key-short":
			bp = &pubkey.PublicKey{Type: kms.BLS12381G2Type, BytesKey: &pubkey.BytesKey{Bytes: k.Bytes[:r.Intn(len(k.Bytes))]}}
		case "signature":
			bs = sig
		}

		d := M{"alteration": name, "base": detail, "proof": hex.EncodeToString(bs)}
		c.Eval("bbsproof/" + f + "/" + name)

		if err, ok := verify(c, bv, "bbsproof/"+name, bs, enc(bm), bp, d); ok {
			c.Count("bbs.refused", 1)
			c.Expect(err != nil, "accepted/bbsproof/"+name, "accepted: "+name, d)
		}
	}
}

// bnid writes blank nodes the way derived documents carry them.
func bnid(l string) string {
	f := strings.Fields(l)
	for i, x := range f {
		if strings.HasPrefix(x, "_:c14n") {
			f[i] = "<urn:bnid:" + x + ">"
		}
	}

	return strings.Join(f, " ")
}
