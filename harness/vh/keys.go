package vh

import (
	"crypto"
	"crypto/ecdsa"
	"crypto/ed25519"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/rsa"
	"crypto/sha256"
	"crypto/sha512"
	"crypto/x509"
	_ "embed"
	"encoding/asn1"
	"encoding/base64"
	"encoding/json"
	"encoding/pem"
	"fmt"
	"math/big"

	"github.com/btcsuite/btcd/btcec/v2"
	"github.com/trustbloc/bbs-signature-go/bbs12381g2pub"
	"github.com/trustbloc/kms-go/doc/jose/jwk"
	"github.com/trustbloc/kms-go/doc/jose/jwk/jwksupport"
	"github.com/trustbloc/kms-go/spi/kms"
	"github.com/veraison/go-cose"

	"github.com/trustbloc/vc-go/verifiable"
)

//go:embed data/rsa1.pem
var rsa1PEM []byte

//go:embed data/rsa2.pem
var rsa2PEM []byte

// JWT algorithm names the code knows.
var JWTAlgs = []string{"EdDSA", "ES256", "ES384", "ES521", "ES256K", "RS256", "PS256"}

// CWTAlgs are the algorithms with a COSE identifier in the code.
var CWTAlgs = []string{"EdDSA", "ES256", "ES384", "ES512", "RS256", "PS256"}

// Key is one signing key; its signatures are made with the standard library, independently of the code under test.
type Key struct {
	Alg   string
	ID    string // full key id
	Priv  interface{}
	Pub   interface{}
	JWK   *jwk.JWK
	KMS   kms.KeyType
	Bytes []byte // raw public key bytes, where the key has such a form
}

func fixtureFail(what string, err error) {
	panic(fmt.Sprintf("vh-fixture %s: %v", what, err))
}

func seedBytes(seed string, n int) []byte {
	var out []byte
	for i := 0; len(out) < n; i++ {
		h := sha512.Sum512([]byte(fmt.Sprintf("%s/%d", seed, i)))
		out = append(out, h[:]...)
	}

	return out[:n]
}

func ecKey(c elliptic.Curve, seed string) *ecdsa.PrivateKey {
	n := new(big.Int).Sub(c.Params().N, big.NewInt(1))
	d := new(big.Int).SetBytes(seedBytes(seed, 80))
	d.Mod(d, n)
	d.Add(d, big.NewInt(1))
	k := &ecdsa.PrivateKey{D: d}
	k.Curve = c
	k.X, k.Y = c.ScalarBaseMult(d.Bytes()) //nolint:staticcheck

	return k
}

// NewKey derives the key of an algorithm from a seed (RSA: one of two fixed keys).
func NewKey(alg, seed string) *Key {
	k := &Key{Alg: alg}

	switch alg {
	case "EdDSA":
		p := ed25519.NewKeyFromSeed(seedBytes(seed, 32))
		k.Priv, k.Pub, k.KMS = p, p.Public(), kms.ED25519Type
		k.Bytes = p.Public().(ed25519.PublicKey)
	case "ES256":
		p := ecKey(elliptic.P256(), seed)
		k.Priv, k.Pub, k.KMS = p, &p.PublicKey, kms.ECDSAP256TypeIEEEP1363
	case "ES384":
		p := ecKey(elliptic.P384(), seed)
		k.Priv, k.Pub, k.KMS = p, &p.PublicKey, kms.ECDSAP384TypeIEEEP1363
	case "ES521":
		p := ecKey(elliptic.P521(), seed)
		k.Priv, k.Pub, k.KMS = p, &p.PublicKey, kms.ECDSAP521TypeIEEEP1363
	case "ES256K":
		p := ecKey(btcec.S256(), seed)
		k.Priv, k.Pub, k.KMS = p, &p.PublicKey, kms.ECDSASecp256k1TypeIEEEP1363
	case "RS256", "PS256":
		pemBytes := rsa1PEM
		if seedBytes(seed, 1)[0]&1 == 1 {
			pemBytes = rsa2PEM
		}

		b, _ := pem.Decode(pemBytes)

		pk, err := x509.ParsePKCS8PrivateKey(b.Bytes)
		if err != nil {
			fixtureFail("rsa", err)
		}

		p := pk.(*rsa.PrivateKey)
		k.Priv, k.Pub = p, &p.PublicKey
		k.KMS = kms.RSARS256Type

		if alg == "PS256" {
			k.KMS = kms.RSAPS256Type
		}
	case "BBS":
		pub, priv, err := bbs12381g2pub.GenerateKeyPair(sha256.New, seedBytes(seed, 32))
		if err != nil {
			fixtureFail("bbs", err)
		}

		k.Priv, k.Pub, k.KMS = priv, pub, kms.BLS12381G2Type

		k.Bytes, err = pub.Marshal()
		if err != nil {
			fixtureFail("bbs marshal", err)
		}

		return k
	default:
		fixtureFail("alg", fmt.Errorf("unknown %s", alg))
	}

	if ec, ok := k.Pub.(*ecdsa.PublicKey); ok {
		k.Bytes = elliptic.Marshal(ec.Curve, ec.X, ec.Y) //nolint:staticcheck
	}

	if rp, ok := k.Pub.(*rsa.PublicKey); ok {
		k.Bytes, _ = x509.MarshalPKIXPublicKey(rp)
	}

	j, err := jwksupport.JWKFromKey(k.Pub)
	if err != nil {
		fixtureFail("jwk", err)
	}

	k.JWK = j

	return k
}

func ecHash(alg string, msg []byte) []byte {
	switch alg {
	case "ES384":
		h := sha512.Sum384(msg)
		return h[:]
	case "ES521":
		h := sha512.Sum512(msg)
		return h[:]
	default:
		h := sha256.Sum256(msg)
		return h[:]
	}
}

// RS gives the raw numbers of a fresh ECDSA signature.
func (k *Key) RS(msg []byte) (*big.Int, *big.Int) {
	p := k.Priv.(*ecdsa.PrivateKey)

	r, s, err := ecdsa.Sign(rand.Reader, p, ecHash(k.Alg, msg))
	if err != nil {
		fixtureFail("sign", err)
	}

	return r, s
}

// Sign makes the JOSE/COSE form of a signature over msg (fixed width r||s for ECDSA).
func (k *Key) Sign(msg []byte) ([]byte, error) {
	switch p := k.Priv.(type) {
	case ed25519.PrivateKey:
		return ed25519.Sign(p, msg), nil
	case *ecdsa.PrivateKey:
		r, s := k.RS(msg)
		n := (p.Curve.Params().BitSize + 7) / 8
		out := make([]byte, 2*n)
		r.FillBytes(out[:n])
		s.FillBytes(out[n:])

		return out, nil
	case *rsa.PrivateKey:
		h := sha256.Sum256(msg)
		if k.Alg == "PS256" {
			return rsa.SignPSS(rand.Reader, p, crypto.SHA256, h[:], &rsa.PSSOptions{SaltLength: rsa.PSSSaltLengthEqualsHash})
		}

		return rsa.SignPKCS1v15(nil, p, crypto.SHA256, h[:])
	case *bbs12381g2pub.PrivateKey:
		return k.signBBS(msg)
	}

	return nil, fmt.Errorf("cannot sign with %s", k.Alg)
}

// SignDER makes an ASN.1 ECDSA signature.
func (k *Key) SignDER(msg []byte) []byte {
	r, s := k.RS(msg)
	b, _ := asn1.Marshal(struct{ R, S *big.Int }{r, s})

	return b
}

// JWSAlg maps to the enum of the code.
func (k *Key) JWSAlg() verifiable.JWSAlgorithm {
	switch k.Alg {
	case "EdDSA":
		return verifiable.EdDSA
	case "ES256":
		return verifiable.ECDSASecp256r1
	case "ES384":
		return verifiable.ECDSASecp384r1
	case "ES521":
		return verifiable.ECDSASecp521r1
	case "ES256K":
		return verifiable.ECDSASecp256k1
	case "RS256":
		return verifiable.RS256
	default:
		return verifiable.PS256
	}
}

// COSEAlg maps to COSE.
func (k *Key) COSEAlg() cose.Algorithm {
	switch k.Alg {
	case "EdDSA":
		return cose.AlgorithmEdDSA
	case "ES256":
		return cose.AlgorithmES256
	case "ES384":
		return cose.AlgorithmES384
	case "ES521":
		return cose.AlgorithmES512
	case "RS256":
		return cose.AlgorithmRS256
	case "PS256":
		return cose.AlgorithmPS256
	default:
		return 0
	}
}

// B64 is unpadded base64url.
func B64(b []byte) string { return base64.RawURLEncoding.EncodeToString(b) }

// J marshals or dies.
func J(v interface{}) []byte {
	b, err := json.Marshal(v)
	if err != nil {
		fixtureFail("marshal", err)
	}

	return b
}

// JWS builds a compact JWS over the header and payload.
func JWS(hdr map[string]interface{}, payload []byte, k *Key) string {
	in := B64(J(hdr)) + "." + B64(payload)

	sig, err := k.Sign([]byte(in))
	if err != nil {
		fixtureFail("jws", err)
	}

	return in + "." + B64(sig)
}

// UnJ unmarshals.
func UnJ(b []byte, v interface{}) error { return json.Unmarshal(b, v) }

// M parses an object or dies.
func M(b []byte) map[string]interface{} {
	var m map[string]interface{}
	if err := json.Unmarshal(b, &m); err != nil {
		fixtureFail("parse object", err)
	}

	return m
}

const b58alpha = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"

// MB58 is multibase base58btc.
func MB58(b []byte) string {
	x := new(big.Int).SetBytes(b)
	mod, rad := new(big.Int), big.NewInt(58)

	var out []byte

	for x.Sign() > 0 {
		x.DivMod(x, rad, mod)
		out = append(out, b58alpha[mod.Int64()])
	}

	for _, c := range b {
		if c != 0 {
			break
		}

		out = append(out, '1')
	}

	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}

	return "z" + string(out)
}

// MB58Dec decodes multibase base58btc.
func MB58Dec(s string) []byte {
	if s == "" || s[0] != 'z' {
		panic("vh-fixture not base58btc: " + s)
	}

	x := new(big.Int)
	zeros := 0
	lead := true

	for _, ch := range s[1:] {
		k := -1

		for i, a := range b58alpha {
			if a == ch {
				k = i
			}
		}

		if k < 0 {
			panic("vh-fixture base58: " + s)
		}

		if lead && k == 0 {
			zeros++
		} else {
			lead = false
		}

		x.Mul(x, big.NewInt(58)).Add(x, big.NewInt(int64(k)))
	}

	return append(make([]byte, zeros), x.Bytes()...)
}

// UnB64 decodes base64url without padding.
func UnB64(s string) ([]byte, error) { return base64.RawURLEncoding.DecodeString(s) }
