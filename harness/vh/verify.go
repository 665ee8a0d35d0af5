package vh

import (
	"crypto"
	"crypto/ecdsa"
	"crypto/ed25519"
	"crypto/rsa"
	"crypto/sha256"
	"math/big"
	"strings"

	"github.com/trustbloc/bbs-signature-go/bbs12381g2pub"
)

// Verify checks a fixed-width (JOSE/COSE) signature with the standard library.
func (k *Key) Verify(msg, sig []byte) bool {
	switch p := k.Pub.(type) {
	case ed25519.PublicKey:
		return len(sig) == ed25519.SignatureSize && ed25519.Verify(p, msg, sig)
	case *ecdsa.PublicKey:
		n := (p.Curve.Params().BitSize + 7) / 8
		if len(sig) != 2*n {
			return false
		}

		return ecdsa.Verify(p, ecHash(k.Alg, msg), new(big.Int).SetBytes(sig[:n]), new(big.Int).SetBytes(sig[n:]))
	case *rsa.PublicKey:
		h := sha256.Sum256(msg)
		if k.Alg == "PS256" {
			return rsa.VerifyPSS(p, crypto.SHA256, h[:], sig, nil) == nil
		}

		return rsa.VerifyPKCS1v15(p, crypto.SHA256, h[:], sig) == nil
	case *bbs12381g2pub.PublicKey:
		var lines [][]byte
		for _, row := range strings.Split(string(msg), "\n") {
			if strings.TrimSpace(row) != "" {
				lines = append(lines, []byte(row))
			}
		}

		return bbs12381g2pub.New().Verify(lines, sig, k.Bytes) == nil
	}

	return false
}
