From 87055fa2ce8c90c68ca711bd4e33fd7e6a7b2946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:14 +0000
Subject: [PATCH 01/89] fix: JWT credential without registered claims must not
 crash the parser

---
 verifiable/credential_jwt.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/verifiable/credential_jwt.go b/verifiable/credential_jwt.go
index b6f3785..3e2a4a6 100644
--- a/verifiable/credential_jwt.go
+++ b/verifiable/credential_jwt.go
@@ -181,7 +181,14 @@ func decodeCredJWT(rawJWT string) (jose.Headers, []byte, error) {
 
 func (jcc *JWTCredClaims) refineFromJWTClaims() error {
 	vcMap := jcc.VC
+	if vcMap == nil {
+		return errors.New("credential claims are missing")
+	}
+
 	claims := jcc.Claims
+	if claims == nil { // no registered claims in the payload
+		return nil
+	}
 
 	if iss := claims.Issuer; iss != "" {
 		err := refineVCIssuerFromJWTClaims(vcMap, iss)
-- 
2.43.0


From ff06e0c3d292aa5e8a05daf472b8b6276e6f5b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:44 +0000
Subject: [PATCH 02/89] fix: decoded SD-JWT disclosures keep their order

---
 sdjwt/common/common.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/sdjwt/common/common.go b/sdjwt/common/common.go
index 98f8264..84d9ecb 100644
--- a/sdjwt/common/common.go
+++ b/sdjwt/common/common.go
@@ -140,8 +140,20 @@ func GetDisclosureClaims(
 
 	final := make([]*DisclosureClaim, 0, len(disclosureClaims))
 
-	for _, disclosureClaim := range recData.disclosures {
-		final = append(final, disclosureClaim)
+	// keep the order in which disclosures were given.
+	added := make(map[string]bool, len(disclosureClaims))
+
+	for _, disclosure := range disclosures {
+		digest, err := GetHash(hash, disclosure)
+		if err != nil {
+			return nil, err
+		}
+
+		if !added[digest] {
+			added[digest] = true
+
+			final = append(final, recData.disclosures[digest])
+		}
 	}
 
 	return final, nil
-- 
2.43.0


From 67e94df66bcd955026b3fff8b4d49a98aab43270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:45 +0000
Subject: [PATCH 03/89] fix: visible null and empty-array claims survive SD-JWT
 disclosure

---
 sdjwt/common/verification.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sdjwt/common/verification.go b/sdjwt/common/verification.go
index fc72bda..e8d3264 100644
--- a/sdjwt/common/verification.go
+++ b/sdjwt/common/verification.go
@@ -212,6 +212,10 @@ func discloseClaimValue(claim interface{}, recData *recursiveData) (interface{},
 			newValues = append(newValues, disclosureClaim.Value)
 		}
 
+		if len(disclosureValue) == 0 {
+			return disclosureValue, nil
+		}
+
 		if len(newValues) == 0 {
 			return nil, nil
 		}
@@ -285,7 +289,8 @@ func discloseClaimValue(claim interface{}, recData *recursiveData) (interface{},
 				return nil, fmt.Errorf("claim name '%s' already exists at the same level", k)
 			}
 
-			if newValue != nil {
+			// An array whose elements all stay undisclosed is left out; a visible null claim is kept.
+			if newValue != nil || disclosureNestedClaim == nil {
 				newValues[k] = newValue
 			}
 		}
-- 
2.43.0


From 5fcbea71b11255ccb7b71e7d653da0276e67612b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:10 +0000
Subject: [PATCH 04/89] fix: concurrent SD-JWT issuance must not share an
 unsynchronised random source

---
 sdjwt/issuer/issuer.go | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/sdjwt/issuer/issuer.go b/sdjwt/issuer/issuer.go
index 6390df7..22f9401 100644
--- a/sdjwt/issuer/issuer.go
+++ b/sdjwt/issuer/issuer.go
@@ -49,7 +49,6 @@ import (
 	"fmt"
 	mathrand "math/rand"
 	"strings"
-	"time"
 
 	"github.com/go-jose/go-jose/v3/jwt"
 
@@ -72,8 +71,6 @@ const (
 	vcKey                = "vc"
 )
 
-var mr = mathrand.New(mathrand.NewSource(time.Now().Unix())) // nolint:gochecknoglobals
-
 // Claims defines JSON Web Token Claims (https://tools.ietf.org/html/rfc7519#section-4)
 type Claims jwt.Claims
 
@@ -504,7 +501,7 @@ func createDigests(disclosures []*DisclosureEntity, nOpts *newOpts) ([]string, e
 		digests = append(digests, digest)
 	}
 
-	mr.Shuffle(len(digests), func(i, j int) {
+	mathrand.Shuffle(len(digests), func(i, j int) {
 		digests[i], digests[j] = digests[j], digests[i]
 	})
 
@@ -527,7 +524,7 @@ func createDecoyDisclosures(opts *newOpts) ([]*DisclosureEntity, error) {
 		return nil, nil
 	}
 
-	n := mr.Intn(decoyMaxElements-decoyMinElements+1) + decoyMinElements
+	n := mathrand.Intn(decoyMaxElements-decoyMinElements+1) + decoyMinElements
 
 	var decoyDisclosures []*DisclosureEntity
 
-- 
2.43.0


From 1743f5bc40eebf28176500e5c85131086d70ff50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:41 +0000
Subject: [PATCH 05/89] fix: SD-JWT V5 decoy digests must not be issued as
 disclosures

---
 sdjwt/issuer/v5.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/sdjwt/issuer/v5.go b/sdjwt/issuer/v5.go
index 8966af0..1f0f1de 100644
--- a/sdjwt/issuer/v5.go
+++ b/sdjwt/issuer/v5.go
@@ -96,13 +96,13 @@ func (s *SDJWTBuilderV5) createDisclosuresAndDigestsInternal(
 	ignorePrimitives bool,
 ) ([]*DisclosureEntity, map[string]interface{}, error) {
 	digestsMap := map[string]interface{}{}
-	finalSDDigest, err := createDecoyDisclosures(opts)
+	decoyDisclosures, err := createDecoyDisclosures(opts)
 
 	if err != nil {
 		return nil, nil, fmt.Errorf("failed to create decoy disclosures: %w", err)
 	}
 
-	var allDisclosures []*DisclosureEntity
+	var finalSDDigest, allDisclosures []*DisclosureEntity
 
 	for key, value := range claims {
 		curPath := key
@@ -237,7 +237,8 @@ func (s *SDJWTBuilderV5) createDisclosuresAndDigestsInternal(
 		}
 	}
 
-	digests, err := createDigests(finalSDDigest, opts)
+	// decoys only contribute digests, they are no disclosures.
+	digests, err := createDigests(append(decoyDisclosures, finalSDDigest...), opts)
 
 	if err != nil {
 		return nil, nil, err
-- 
2.43.0


From d7f3bd001998ddcb6b084543512bfa423a6057b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:05 +0000
Subject: [PATCH 06/89] fix: SD-JWT V5 issuing keeps null and empty-array
 claims

---
 sdjwt/issuer/v5.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sdjwt/issuer/v5.go b/sdjwt/issuer/v5.go
index 1f0f1de..d38edc6 100644
--- a/sdjwt/issuer/v5.go
+++ b/sdjwt/issuer/v5.go
@@ -110,7 +110,7 @@ func (s *SDJWTBuilderV5) createDisclosuresAndDigestsInternal(
 			curPath = path + "." + key
 		}
 
-		kind := reflect.TypeOf(value).Kind()
+		kind := reflect.ValueOf(value).Kind() // null has no type
 
 		valOption := s.extractValueOptions(curPath, opts)
 
@@ -258,7 +258,7 @@ func (s *SDJWTBuilderV5) processArrayElements(
 ) ([]interface{}, []*DisclosureEntity, error) {
 	valSl := reflect.ValueOf(value)
 
-	var digestArr []interface{}
+	digestArr := make([]interface{}, 0, valSl.Len())
 
 	var elementsDisclosures []*DisclosureEntity
 
-- 
2.43.0


From a72ef54c45e860aec2b9c118e8a1e6b0163175f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:12 +0000
Subject: [PATCH 07/89] fix: out-of-range time claims must not wrap around

---
 util/maphelpers/mapstruct.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/util/maphelpers/mapstruct.go b/util/maphelpers/mapstruct.go
index 0d0f17c..c8cdf88 100644
--- a/util/maphelpers/mapstruct.go
+++ b/util/maphelpers/mapstruct.go
@@ -8,6 +8,7 @@ package maphelpers
 
 import (
 	"fmt"
+	"math"
 	"reflect"
 	"strconv"
 	"strings"
@@ -17,6 +18,8 @@ import (
 	"github.com/mitchellh/mapstructure"
 )
 
+const maxNumericDate = 1 << 53
+
 // JSONNumberToJwtNumericDate hook for mapstructure library to decode json.Number to jwt.NumericDate.
 func JSONNumberToJwtNumericDate() mapstructure.DecodeHookFuncType {
 	return func(
@@ -33,6 +36,11 @@ func JSONNumberToJwtNumericDate() mapstructure.DecodeHookFuncType {
 			return nil, err
 		}
 
+		// out of the range of times: converting would wrap around.
+		if math.Abs(parsedFloat) > maxNumericDate {
+			return nil, fmt.Errorf("numeric date out of range: %v", data)
+		}
+
 		date := jwt.NewNumericDate(time.Unix(int64(parsedFloat), 0))
 
 		if t.String() == "jwt.NumericDate" {
-- 
2.43.0


From f1be8d2cdeab8732d323b744c1408e980eee33dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:57 +0000
Subject: [PATCH 08/89] fix: an empty proof list is not a verified proof

---
 verifiable/lddocument/verifier.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/verifiable/lddocument/verifier.go b/verifiable/lddocument/verifier.go
index 92d38ff..c02e8eb 100644
--- a/verifiable/lddocument/verifier.go
+++ b/verifiable/lddocument/verifier.go
@@ -58,6 +58,10 @@ func (dv *DocumentVerifier) VerifyObject(jsonLdObject map[string]interface{},
 		return err
 	}
 
+	if len(proofs) == 0 {
+		return proof.ErrProofNotFound
+	}
+
 	for _, p := range proofs {
 		message, err := proof.CreateVerifyData(&signatureSuiteWrapper{
 			wrapped:      dv.proofChecker,
-- 
2.43.0


From 7dfb3c17eb9bdf020c10171a3fd4198169ef578b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:43 +0000
Subject: [PATCH 09/89] fix: data integrity proofs are verified independently
 of each other

---
 dataintegrity/signer.go   | 3 +++
 dataintegrity/verifier.go | 5 ++++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/dataintegrity/signer.go b/dataintegrity/signer.go
index bc72f6b..782e726 100644
--- a/dataintegrity/signer.go
+++ b/dataintegrity/signer.go
@@ -93,6 +93,9 @@ func (s *Signer) AddProof(doc []byte, opts *models.ProofOptions) ([]byte, error)
 		return nil, ErrUnsupportedSuite
 	}
 
+	proofOpts := *opts
+	opts = &proofOpts
+
 	err := resolveVM(opts, s.resolver, "")
 	if err != nil {
 		return nil, err
diff --git a/dataintegrity/verifier.go b/dataintegrity/verifier.go
index 32068cc..5b5e581 100644
--- a/dataintegrity/verifier.go
+++ b/dataintegrity/verifier.go
@@ -101,7 +101,10 @@ func (v *Verifier) VerifyProof(doc []byte, opts *models.ProofOptions) error {
 	}
 
 	for _, proof := range proofRaw.Array() {
-		if err = v.verifyProof([]byte(proof.Raw), unsecuredDoc, opts); err != nil {
+		// Each proof is verified on its own: what one proof resolves to must not leak into the next one.
+		proofOpts := *opts
+
+		if err = v.verifyProof([]byte(proof.Raw), unsecuredDoc, &proofOpts); err != nil {
 			return err
 		}
 	}
-- 
2.43.0


From 7da70b4e4522b2bdd6650ac7dc0a0ad1df11dac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:02 +0000
Subject: [PATCH 10/89] fix: data integrity signatures cover the domain and
 challenge of the proof

---
 dataintegrity/verifier.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/dataintegrity/verifier.go b/dataintegrity/verifier.go
index 5b5e581..8f298f1 100644
--- a/dataintegrity/verifier.go
+++ b/dataintegrity/verifier.go
@@ -179,13 +179,18 @@ func (v *Verifier) verifyProof( // nolint:funlen,gocyclo
 		return err
 	}
 
+	expectedDomain, expectedChallenge := opts.Domain, opts.Challenge
+
+	// The signature covers the domain and challenge that the proof itself states.
+	opts.Domain, opts.Challenge = proof.Domain, proof.Challenge
+
 	verifyResult := verifierSuite.VerifyProof(unsecuredDoc, proof, opts)
 
-	if opts.Domain != "" && opts.Domain != proof.Domain {
+	if expectedDomain != "" && expectedDomain != proof.Domain {
 		return ErrInvalidDomain
 	}
 
-	if opts.Challenge != "" && opts.Challenge != proof.Challenge {
+	if expectedChallenge != "" && expectedChallenge != proof.Challenge {
 		return ErrInvalidChallenge
 	}
 
-- 
2.43.0


From a31ce2dca7b78897a0d6611254eb5e9b38145ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:21 +0000
Subject: [PATCH 11/89] fix: an empty or null proof is a missing data integrity
 proof

---
 dataintegrity/verifier.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/dataintegrity/verifier.go b/dataintegrity/verifier.go
index 8f298f1..8bc4b1c 100644
--- a/dataintegrity/verifier.go
+++ b/dataintegrity/verifier.go
@@ -100,7 +100,12 @@ func (v *Verifier) VerifyProof(doc []byte, opts *models.ProofOptions) error {
 		return ErrMalformedProof
 	}
 
-	for _, proof := range proofRaw.Array() {
+	proofs := proofRaw.Array()
+	if len(proofs) == 0 {
+		return ErrMissingProof
+	}
+
+	for _, proof := range proofs {
 		// Each proof is verified on its own: what one proof resolves to must not leak into the next one.
 		proofOpts := *opts
 
-- 
2.43.0


From 4a6e106b692b102e3b911ead85dbcbdec0b444c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:37 +0000
Subject: [PATCH 12/89] fix: eddsa-2022 proofs state the cryptosuite they were
 made with

---
 dataintegrity/suite/eddsa2022/eddsa2022.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dataintegrity/suite/eddsa2022/eddsa2022.go b/dataintegrity/suite/eddsa2022/eddsa2022.go
index d6c5dbe..55fb063 100644
--- a/dataintegrity/suite/eddsa2022/eddsa2022.go
+++ b/dataintegrity/suite/eddsa2022/eddsa2022.go
@@ -196,7 +196,7 @@ func (s *Suite) CreateProof(doc []byte, opts *models.ProofOptions) (*models.Proo
 
 	p := &models.Proof{
 		Type:               models.DataIntegrityProof,
-		CryptoSuite:        SuiteType,
+		CryptoSuite:        opts.SuiteType,
 		ProofPurpose:       opts.Purpose,
 		Domain:             opts.Domain,
 		Challenge:          opts.Challenge,
-- 
2.43.0


From b2771830500b88491c37e8a92a39ca621ccd1053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:20 +0000
Subject: [PATCH 13/89] fix: a data integrity proof added to an already secured
 document verifies

---
 dataintegrity/signer.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/dataintegrity/signer.go b/dataintegrity/signer.go
index 782e726..7a62034 100644
--- a/dataintegrity/signer.go
+++ b/dataintegrity/signer.go
@@ -101,7 +101,13 @@ func (s *Signer) AddProof(doc []byte, opts *models.ProofOptions) ([]byte, error)
 		return nil, err
 	}
 
-	proof, err := signerSuite.CreateProof(doc, opts)
+	// The proof covers the document without any proof it already carries, which the new proof replaces.
+	unsecuredDoc, err := sjson.DeleteBytes(doc, proofPath)
+	if err != nil {
+		return nil, errors.Join(ErrProofGeneration, err) // nolint:typecheck
+	}
+
+	proof, err := signerSuite.CreateProof(unsecuredDoc, opts)
 	if err != nil {
 		// TODO update linter to use go 1.20: https://github.com/hyperledger/aries-framework-go/issues/3613
 		return nil, errors.Join(ErrProofGeneration, err) // nolint:typecheck
-- 
2.43.0


From fd085e5d9e707ecdb9f79b220d3c1b7221e6d1d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:42 +0000
Subject: [PATCH 14/89] fix: data integrity proof times are verified as written

---
 dataintegrity/verifier.go | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/dataintegrity/verifier.go b/dataintegrity/verifier.go
index 8bc4b1c..0215c31 100644
--- a/dataintegrity/verifier.go
+++ b/dataintegrity/verifier.go
@@ -152,9 +152,9 @@ func (v *Verifier) verifyProof( // nolint:funlen,gocyclo
 	if opts.Created.IsZero() && proof.Created != "" {
 		var parsedCreatedTime time.Time
 
-		parsedCreatedTime, err = time.Parse(models.DateTimeFormat, proof.Created)
+		parsedCreatedTime, err = parseProofTime(proof.Created)
 		if err != nil {
-			return ErrMalformedProof
+			return err
 		}
 
 		opts.Created = parsedCreatedTime
@@ -163,9 +163,9 @@ func (v *Verifier) verifyProof( // nolint:funlen,gocyclo
 	if proof.Expires != "" {
 		var parsedExpiresTime time.Time
 
-		parsedExpiresTime, err = time.Parse(models.DateTimeFormat, proof.Expires)
+		parsedExpiresTime, err = parseProofTime(proof.Expires)
 		if err != nil {
-			return ErrMalformedProof
+			return err
 		}
 
 		if time.Now().After(parsedExpiresTime) {
@@ -201,3 +201,13 @@ func (v *Verifier) verifyProof( // nolint:funlen,gocyclo
 
 	return verifyResult
 }
+
+// parseProofTime parses a proof time, whose text has to be the one the signature covers (models.DateTimeFormat).
+func parseProofTime(s string) (time.Time, error) {
+	t, err := time.Parse(models.DateTimeFormat, s)
+	if err != nil || t.Format(models.DateTimeFormat) != s {
+		return time.Time{}, ErrMalformedProof
+	}
+
+	return t, nil
+}
-- 
2.43.0


From cfe239f66436ba023045f24722f90aa30ea9f1df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:12 +0000
Subject: [PATCH 15/89] fix: cover a jwt member by the embedded proof check

---
 verifiable/embedded_proof.go | 2 --
 1 file changed, 2 deletions(-)

diff --git a/verifiable/embedded_proof.go b/verifiable/embedded_proof.go
index 0ecb2c2..7d37dbc 100644
--- a/verifiable/embedded_proof.go
+++ b/verifiable/embedded_proof.go
@@ -37,8 +37,6 @@ func checkEmbeddedProofBytes(docBytes []byte, expectedProofIssuer *string, opts
 		return fmt.Errorf("embedded proof is not JSON: %w", err)
 	}
 
-	delete(jsonldDoc, "jwt")
-
 	return checkEmbeddedProof(jsonldDoc, expectedProofIssuer, opts)
 }
 
-- 
2.43.0


From fdd995cb47b259c25ad9e12dfa560c308968fc46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:13 +0000
Subject: [PATCH 16/89] fix: check the proof of CWT presentations

---
 verifiable/presentation_parser.go | 44 ++++++++++++++++++++++++++++---
 1 file changed, 41 insertions(+), 3 deletions(-)

diff --git a/verifiable/presentation_parser.go b/verifiable/presentation_parser.go
index 97c6195..30fd582 100644
--- a/verifiable/presentation_parser.go
+++ b/verifiable/presentation_parser.go
@@ -16,7 +16,9 @@ import (
 	"github.com/samber/lo"
 	"github.com/veraison/go-cose"
 
+	"github.com/trustbloc/vc-go/cwt"
 	"github.com/trustbloc/vc-go/jwt"
+	cwt2 "github.com/trustbloc/vc-go/verifiable/cwt"
 )
 
 type parsePresentationResponse struct {
@@ -117,10 +119,9 @@ type VpCWT struct {
 type PresentationCWTParser struct {
 }
 
-func (p *PresentationCWTParser) parse(vpData []byte, _ *presentationOpts) (*parsePresentationResponse, error) {
+func (p *PresentationCWTParser) parse(vpData []byte, vpOpts *presentationOpts) (*parsePresentationResponse, error) {
 	var rawErr, hexRawErr, hexErr error
 
-	// todo proof checker !!
 	message, rawErr := p.parsePres(vpData)
 
 	if rawErr != nil {
@@ -150,7 +151,13 @@ func (p *PresentationCWTParser) parse(vpData []byte, _ *presentationOpts) (*pars
 
 	vpContent, ok := convertedMap["vp"].(map[string]interface{})
 	if !ok {
-		// do nothing
+		return nil, errors.New("vp field not found in cbor presentation")
+	}
+
+	if !vpOpts.disabledProofCheck {
+		if err := p.checkProof(message, convertedMap, vpContent, vpOpts); err != nil {
+			return nil, fmt.Errorf("cwt proof check: %w", err)
+		}
 	}
 
 	return &parsePresentationResponse{
@@ -165,6 +172,37 @@ func (p *PresentationCWTParser) parse(vpData []byte, _ *presentationOpts) (*pars
 	}, nil
 }
 
+// checkProof checks the signature of the message under a key of the presentation's issuer or holder.
+func (p *PresentationCWTParser) checkProof(
+	message *cose.Sign1Message,
+	claims map[string]interface{},
+	vp rawPresentation,
+	vpOpts *presentationOpts,
+) error {
+	if vpOpts.proofChecker == nil {
+		return errors.New("proof checker is not defined")
+	}
+
+	expectedIssuer, err := parseStringFld(claims, "iss")
+	if err != nil {
+		return err
+	}
+
+	if expectedIssuer == "" {
+		expectedIssuer, err = decodeHolder(vp[vpFldHolder])
+		if err != nil {
+			return err
+		}
+	}
+
+	proofValue, err := cwt2.GetProofValue(message)
+	if err != nil {
+		return err
+	}
+
+	return cwt.CheckProof(message, vpOpts.proofChecker, &expectedIssuer, proofValue, message.Signature)
+}
+
 func (p *PresentationCWTParser) parsePres(data []byte) (*cose.Sign1Message, error) {
 	var message cose.Sign1Message
 
-- 
2.43.0


From 4743832ae3377474e64390819f26220264cbc00c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:40 +0000
Subject: [PATCH 17/89] fix: reject a JWT presentation without vp or registered
 claims

---
 verifiable/presentation_jwt.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/verifiable/presentation_jwt.go b/verifiable/presentation_jwt.go
index e384815..ba4475f 100644
--- a/verifiable/presentation_jwt.go
+++ b/verifiable/presentation_jwt.go
@@ -7,6 +7,7 @@ package verifiable
 
 import (
 	"encoding/json"
+	"errors"
 	"fmt"
 
 	"github.com/trustbloc/vc-go/jwt"
@@ -22,6 +23,10 @@ type JWTPresClaims struct {
 func (jpc *JWTPresClaims) refineFromJWTClaims() {
 	raw := jpc.Presentation
 
+	if jpc.Claims == nil {
+		return
+	}
+
 	if jpc.Issuer != "" {
 		raw[vpFldHolder] = jpc.Issuer
 	}
@@ -79,6 +84,10 @@ func decodePresJWT(vpJWT string, unmarshaller JWTPresClaimsUnmarshaller) ([]byte
 		return nil, nil, fmt.Errorf("decode Verifiable Presentation JWT claims: %w", err)
 	}
 
+	if presClaims.Presentation == nil {
+		return nil, nil, errors.New("\"vp\" claim of JWT is missing")
+	}
+
 	// Apply VC-related claims from JWT.
 	presClaims.refineFromJWTClaims()
 
-- 
2.43.0


From 8969751ef03ac78fc47f2edeb15687aaad4e8678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:52 +0000
Subject: [PATCH 18/89] fix: present every selected disclosure of an SD-JWT
 credential

---
 verifiable/credential_sdjwt.go | 36 ++++++++++++++--------------------
 1 file changed, 15 insertions(+), 21 deletions(-)

diff --git a/verifiable/credential_sdjwt.go b/verifiable/credential_sdjwt.go
index 380cc19..1d3ccb8 100644
--- a/verifiable/credential_sdjwt.go
+++ b/verifiable/credential_sdjwt.go
@@ -224,43 +224,37 @@ func filterDisclosures(
 	disclosures []*common.DisclosureClaim,
 	ifAvailable, required []string,
 ) ([]*common.DisclosureClaim, error) {
-	ifAvailMap := map[string]*common.DisclosureClaim{}
-	reqMap := map[string]*common.DisclosureClaim{}
+	ifAvailMap := map[string]struct{}{}
+	reqMap := map[string]bool{} // required name -> disclosure found
 
 	for _, name := range ifAvailable {
-		ifAvailMap[name] = nil
+		ifAvailMap[name] = struct{}{}
 	}
 
 	for _, name := range required {
-		reqMap[name] = nil
-
-		delete(ifAvailMap, name) // avoid listing a disclosure twice, if it's in both lists
+		reqMap[name] = false
 	}
 
+	var out []*common.DisclosureClaim
+
+	// several disclosures have the same name when it is used at more than one place of the credential
 	for _, disclosure := range disclosures {
-		if _, ok := ifAvailMap[disclosure.Name]; ok {
-			ifAvailMap[disclosure.Name] = disclosure
-		}
+		_, isAvail := ifAvailMap[disclosure.Name]
+		_, isReq := reqMap[disclosure.Name]
 
-		if _, ok := reqMap[disclosure.Name]; ok {
-			reqMap[disclosure.Name] = disclosure
+		if isReq {
+			reqMap[disclosure.Name] = true
 		}
-	}
 
-	var out []*common.DisclosureClaim
-
-	for _, claim := range ifAvailMap {
-		if claim != nil {
-			out = append(out, claim)
+		if isAvail || isReq {
+			out = append(out, disclosure)
 		}
 	}
 
-	for _, claim := range reqMap {
-		if claim == nil {
+	for _, found := range reqMap {
+		if !found {
 			return nil, errors.New("disclosure list missing required claim")
 		}
-
-		out = append(out, claim)
 	}
 
 	return out, nil
-- 
2.43.0


From 62bff0d2f56a3caed195ac8650bfd36c9bdd82d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:26 +0000
Subject: [PATCH 19/89] fix: display only the selected claims of nested
 disclosures

---
 verifiable/credential_sdjwt.go | 37 +++++++++++++++++++++++++++-------
 1 file changed, 30 insertions(+), 7 deletions(-)

diff --git a/verifiable/credential_sdjwt.go b/verifiable/credential_sdjwt.go
index 1d3ccb8..662c959 100644
--- a/verifiable/credential_sdjwt.go
+++ b/verifiable/credential_sdjwt.go
@@ -490,7 +490,11 @@ func (vc *Credential) CreateDisplayCredential( // nolint:funlen,gocyclo
 		return nil, fmt.Errorf("refineFromJWTClaims claims: %w", err)
 	}
 
-	useDisclosures := filterDisclosureList(vc.JWTEnvelope.SDJWTDisclosures, options)
+	useDisclosures, err := filterDisclosureList(vc.JWTEnvelope.SDJWTDisclosures, options,
+		*vc.credentialContents.SDJWTHashAlg)
+	if err != nil {
+		return nil, err
+	}
 
 	newVCObj, err := common.GetDisclosedClaims(useDisclosures, credClaims.VC)
 	if err != nil {
@@ -552,7 +556,11 @@ func (vc *Credential) CreateDisplayCredentialMap( // nolint:funlen,gocyclo
 		return nil, fmt.Errorf("refineFromJWTClaims claims: %w", err)
 	}
 
-	useDisclosures := filterDisclosureList(vc.JWTEnvelope.SDJWTDisclosures, options)
+	useDisclosures, err := filterDisclosureList(vc.JWTEnvelope.SDJWTDisclosures, options,
+		*vc.credentialContents.SDJWTHashAlg)
+	if err != nil {
+		return nil, err
+	}
 
 	newVCObj, err := common.GetDisclosedClaims(useDisclosures, credClaims.VC)
 	if err != nil {
@@ -566,9 +574,13 @@ func (vc *Credential) CreateDisplayCredentialMap( // nolint:funlen,gocyclo
 	return newVCObj, nil
 }
 
-func filterDisclosureList(disclosures []*common.DisclosureClaim, options *displayCredOpts) []*common.DisclosureClaim {
+func filterDisclosureList(
+	disclosures []*common.DisclosureClaim,
+	options *displayCredOpts,
+	hashAlg crypto.Hash,
+) ([]*common.DisclosureClaim, error) {
 	if options.displayAll {
-		return disclosures
+		return disclosures, nil
 	}
 
 	displayGivenMap := map[string]struct{}{}
@@ -577,15 +589,26 @@ func filterDisclosureList(disclosures []*common.DisclosureClaim, options *displa
 		displayGivenMap[given] = struct{}{}
 	}
 
-	var out []*common.DisclosureClaim
+	var out []string
 
 	for _, disclosure := range disclosures {
 		if _, ok := displayGivenMap[disclosure.Name]; ok {
-			out = append(out, disclosure)
+			out = append(out, disclosure.Disclosure)
 		}
 	}
 
-	return out
+	if len(out) == len(disclosures) {
+		return disclosures, nil
+	}
+
+	// The value of a decoded disclosure holds the values of the disclosures nested in it:
+	// decode again, with the selected ones only.
+	selected, err := common.GetDisclosureClaims(out, hashAlg)
+	if err != nil {
+		return nil, fmt.Errorf("selecting disclosures to display: %w", err)
+	}
+
+	return selected, nil
 }
 
 func clearEmpty(claims map[string]interface{}) {
-- 
2.43.0


From 9cced8a968a447743218aa4200e54d9ae6f704a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:33 +0000
Subject: [PATCH 20/89] fix: build CWT and JWT claims of credentials without
 issuance date or issuer

---
 verifiable/credential_cwt.go | 13 +++++++++----
 verifiable/credential_jwt.go |  4 ++++
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/verifiable/credential_cwt.go b/verifiable/credential_cwt.go
index 08ac082..1d46d23 100644
--- a/verifiable/credential_cwt.go
+++ b/verifiable/credential_cwt.go
@@ -6,6 +6,7 @@ SPDX-License-Identifier: Apache-2.0
 package verifiable
 
 import (
+	"errors"
 	"fmt"
 
 	josejwt "github.com/go-jose/go-jose/v3/jwt"
@@ -31,12 +32,15 @@ func newCWTCredClaims(vc *Credential) (*CWTCredClaims, error) {
 		return nil, fmt.Errorf("get VC subject id: %w", err)
 	}
 
+	if vcc.Issuer == nil {
+		return nil, errors.New("VC issuer is missing")
+	}
+
 	// currently jwt encoding supports only single subject (by the spec)
 	claims := &CWTClaims{
-		Issuer:    vcc.Issuer.ID,                           // iss
-		NotBefore: josejwt.NewNumericDate(vcc.Issued.Time), // nbf
-		ID:        vcc.ID,                                  // jti
-		Subject:   subjectID,                               // sub
+		Issuer:  vcc.Issuer.ID, // iss
+		ID:      vcc.ID,        // jti
+		Subject: subjectID,     // sub
 	}
 
 	if vcc.Expired != nil {
@@ -45,6 +49,7 @@ func newCWTCredClaims(vc *Credential) (*CWTCredClaims, error) {
 
 	if vcc.Issued != nil {
 		claims.IssuedAt = josejwt.NewNumericDate(vcc.Issued.Time)
+		claims.NotBefore = josejwt.NewNumericDate(vcc.Issued.Time)
 	}
 
 	credentialJSONCopy := jsonutil.ShallowCopyObj(vc.credentialJSON)
diff --git a/verifiable/credential_jwt.go b/verifiable/credential_jwt.go
index 3e2a4a6..aba451f 100644
--- a/verifiable/credential_jwt.go
+++ b/verifiable/credential_jwt.go
@@ -107,6 +107,10 @@ func newJWTCredClaims(vc *Credential, minimizeVC bool) (*JWTCredClaims, error) {
 		return nil, fmt.Errorf("get VC subject id: %w", err)
 	}
 
+	if vcc.Issuer == nil {
+		return nil, errors.New("VC issuer is missing")
+	}
+
 	// currently jwt encoding supports only single subject (by the spec)
 	jwtClaims := &jwt.Claims{
 		Issuer:  vcc.Issuer.ID, // iss
-- 
2.43.0


From 139aa00c36317ed51947e9d79c23a3d35d5151f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:33 +0000
Subject: [PATCH 21/89] fix: apply registered claims when decoding a CWT
 presentation

---
 verifiable/presentation_parser.go | 36 ++++++++++++++++++++++++++++++-
 1 file changed, 35 insertions(+), 1 deletion(-)

diff --git a/verifiable/presentation_parser.go b/verifiable/presentation_parser.go
index 30fd582..8de3653 100644
--- a/verifiable/presentation_parser.go
+++ b/verifiable/presentation_parser.go
@@ -18,6 +18,7 @@ import (
 
 	"github.com/trustbloc/vc-go/cwt"
 	"github.com/trustbloc/vc-go/jwt"
+	jsonutil "github.com/trustbloc/vc-go/util/json"
 	cwt2 "github.com/trustbloc/vc-go/verifiable/cwt"
 )
 
@@ -160,9 +161,14 @@ func (p *PresentationCWTParser) parse(vpData []byte, vpOpts *presentationOpts) (
 		}
 	}
 
+	vpRaw, err := p.refineFromCWTClaims(vpContent, convertedMap)
+	if err != nil {
+		return nil, err
+	}
+
 	return &parsePresentationResponse{
 		VPDataDecoded: vpData,
-		VPRaw:         vpContent,
+		VPRaw:         vpRaw,
 		VPJwt:         "",
 		VPCwt: &VpCWT{
 			Raw:     vpData,
@@ -172,6 +178,34 @@ func (p *PresentationCWTParser) parse(vpData []byte, vpOpts *presentationOpts) (
 	}, nil
 }
 
+// refineFromCWTClaims applies the registered claims to a copy of the enclosed presentation.
+func (p *PresentationCWTParser) refineFromCWTClaims(
+	vp rawPresentation,
+	claims map[string]interface{},
+) (rawPresentation, error) {
+	raw := jsonutil.ShallowCopyObj(vp)
+
+	issuer, err := parseStringFld(claims, "iss")
+	if err != nil {
+		return nil, err
+	}
+
+	if issuer != "" {
+		raw[vpFldHolder] = issuer
+	}
+
+	id, err := parseStringFld(claims, "jti")
+	if err != nil {
+		return nil, err
+	}
+
+	if id != "" {
+		raw[vpFldID] = id
+	}
+
+	return raw, nil
+}
+
 // checkProof checks the signature of the message under a key of the presentation's issuer or holder.
 func (p *PresentationCWTParser) checkProof(
 	message *cose.Sign1Message,
-- 
2.43.0


From c108697f1d0c104c7a84493419b1ada28e11796e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:50 +0000
Subject: [PATCH 22/89] fix: build plain JSON lists for created credentials

---
 verifiable/credential.go | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/verifiable/credential.go b/verifiable/credential.go
index 7e0aa69..8ff75da 100644
--- a/verifiable/credential.go
+++ b/verifiable/credential.go
@@ -2162,7 +2162,9 @@ func SerializeSubject(subject []Subject) interface{} {
 		return SubjectToJSON(subject[0])
 	}
 
-	return mapSlice(subject, SubjectToJSON)
+	return mapSlice(subject, func(s Subject) interface{} {
+		return SubjectToJSON(s)
+	})
 }
 
 // validateCredentialUsingJSONSchema validates that the Verifiable Credential
@@ -2482,7 +2484,7 @@ func serializeCredentialContents(vcc *CredentialContents, proofs []Proof) (JSONO
 		if len(vcc.Status) == 1 {
 			vcJSON[jsonFldStatus] = serializeTypedIDObj(*vcc.Status[0])
 		} else {
-			statuses := make([]map[string]interface{}, len(vcc.Status))
+			statuses := make([]interface{}, len(vcc.Status))
 
 			for i, status := range vcc.Status {
 				statuses[i] = serializeTypedIDObj(*status)
@@ -2509,7 +2511,7 @@ func serializeCredentialContents(vcc *CredentialContents, proofs []Proof) (JSONO
 	}
 
 	if len(vcc.RelatedResources) > 0 {
-		vcJSON[jsonFldRelatedResource] = vcc.RelatedResources
+		vcJSON[jsonFldRelatedResource] = mapSlice(vcc.RelatedResources, relatedResourceToRaw)
 	}
 
 	if len(vcc.TermsOfUse) > 0 {
@@ -2577,10 +2579,29 @@ func typedIDsToRaw(typedIDs []TypedID) interface{} {
 	case 1:
 		return serializeTypedIDObj(typedIDs[0])
 	default:
-		return mapSlice(typedIDs, serializeTypedIDObj)
+		return mapSlice(typedIDs, func(typedID TypedID) interface{} {
+			return serializeTypedIDObj(typedID)
+		})
 	}
 }
 
+func relatedResourceToRaw(resource RelatedResource) interface{} {
+	raw := JSONObject{}
+
+	for fld, value := range map[string]string{
+		"id":              resource.Id,
+		"digestSRI":       resource.DigestSRI,
+		"digestMultibase": resource.DigestMultiBase,
+		"mediaType":       resource.MediaType,
+	} {
+		if value != "" {
+			raw[fld] = value
+		}
+	}
+
+	return raw
+}
+
 // MarshalJSON converts Verifiable Credential to JSON bytes.
 func (vc *Credential) MarshalJSON() ([]byte, error) {
 	obj, err := vc.ToUniversalForm()
-- 
2.43.0


From 654ae3819535188396e9657505fa43946432e503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:29 +0000
Subject: [PATCH 23/89] fix: leave a missing id or type out of serialized typed
 ids

---
 verifiable/common.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/verifiable/common.go b/verifiable/common.go
index ce787ef..5fc8cd2 100644
--- a/verifiable/common.go
+++ b/verifiable/common.go
@@ -169,8 +169,13 @@ func parseTypedIDObj(typedIDObj JSONObject) (TypedID, error) {
 func serializeTypedIDObj(typedID TypedID) JSONObject {
 	json := jsonutil.ShallowCopyObj(typedID.CustomFields)
 
-	json[jsonFldTypedIDID] = typedID.ID
-	json[jsonFldTypedIDType] = typedID.Type
+	if typedID.ID != "" {
+		json[jsonFldTypedIDID] = typedID.ID
+	}
+
+	if typedID.Type != "" {
+		json[jsonFldTypedIDType] = typedID.Type
+	}
 
 	return json
 }
-- 
2.43.0


From 940b0003b29c14c14596488787d562bfdbebeb3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:57 +0000
Subject: [PATCH 24/89] fix: keep object contexts when serializing a
 presentation

---
 verifiable/presentation.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/verifiable/presentation.go b/verifiable/presentation.go
index dd39873..418d567 100644
--- a/verifiable/presentation.go
+++ b/verifiable/presentation.go
@@ -496,8 +496,8 @@ func (vp *Presentation) raw() (rawPresentation, error) {
 
 	// TODO single value contexts should be compacted as part of Issue [#1730]
 	// Not compacting now to support interoperability
-	if len(vp.Context) > 0 {
-		rp[vpFldContext] = contextToRaw(vp.Context, nil)
+	if len(vp.Context) > 0 || len(vp.CustomContext) > 0 {
+		rp[vpFldContext] = contextToRaw(vp.Context, vp.CustomContext)
 	}
 
 	if vp.ID != "" {
-- 
2.43.0


From c2040156afb74e9a68ec7e8c3c12820aee32a2e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:43 +0000
Subject: [PATCH 25/89] fix: keep the properties of a presentation's holder
 object

---
 verifiable/presentation.go        | 36 +++++++++++++++++++++++++++++--
 verifiable/presentation_jwt.go    | 19 ++++++++++++++--
 verifiable/presentation_parser.go |  2 +-
 3 files changed, 52 insertions(+), 5 deletions(-)

diff --git a/verifiable/presentation.go b/verifiable/presentation.go
index 418d567..e07ed61 100644
--- a/verifiable/presentation.go
+++ b/verifiable/presentation.go
@@ -349,6 +349,9 @@ type Presentation struct {
 	CWT           *VpCWT
 
 	CustomFields CustomFields
+
+	// holderObject is the holder as parsed, when it is an object.
+	holderObject JSONObject
 }
 
 // NewPresentation creates a new Presentation with default context and type with the provided credentials.
@@ -509,7 +512,7 @@ func (vp *Presentation) raw() (rawPresentation, error) {
 	}
 
 	if len(vp.Holder) > 0 {
-		rp[vpFldHolder] = vp.Holder
+		rp[vpFldHolder] = vp.rawHolder()
 	}
 
 	if len(vp.Proofs) > 0 {
@@ -539,6 +542,29 @@ func (vp *Presentation) raw() (rawPresentation, error) {
 	return rp, nil
 }
 
+// rawHolder returns the holder object the presentation was parsed with, or the holder ID if there is none.
+func (vp *Presentation) rawHolder() interface{} {
+	if id, ok := vp.holderObject[jsonFldHolderID].(string); ok && id == vp.Holder {
+		return jsonutil.ShallowCopyObj(vp.holderObject)
+	}
+
+	return vp.Holder
+}
+
+// setRawHolder sets holder ID, keeping the other properties of a holder object.
+func setRawHolder(raw rawPresentation, id string) {
+	obj, ok := raw[vpFldHolder].(map[string]interface{})
+	if !ok {
+		raw[vpFldHolder] = id
+
+		return
+	}
+
+	holder := jsonutil.ShallowCopyObj(obj)
+	holder[jsonFldHolderID] = id
+	raw[vpFldHolder] = holder
+}
+
 // Clone returns an exact copy of the presentation.
 func (vp *Presentation) Clone() *Presentation {
 	return &Presentation{
@@ -552,6 +578,7 @@ func (vp *Presentation) Clone() *Presentation {
 		CustomFields:  vp.CustomFields,
 		JWT:           vp.JWT,
 		CWT:           vp.CWT,
+		holderObject:  vp.holderObject,
 	}
 }
 
@@ -562,6 +589,8 @@ const (
 	vpFldCredential = "verifiableCredential"
 	vpFldHolder     = "holder"
 	vpFldProof      = "proof"
+
+	jsonFldHolderID = "id"
 )
 
 // rawPresentation is a basic verifiable credential.
@@ -733,7 +762,7 @@ func decodeHolder(holder any) (string, error) {
 	case string:
 		return val, nil
 	case map[string]interface{}:
-		return parseStringFld(val, "id")
+		return parseStringFld(val, jsonFldHolderID)
 	default:
 		return "", fmt.Errorf("holder must be string or map[string]interface{}, got: %T", holder)
 	}
@@ -861,6 +890,8 @@ func newPresentation(vpRaw rawPresentation, vpOpts *presentationOpts) (*Presenta
 		return nil, err
 	}
 
+	holderObject, _ := vpRaw[vpFldHolder].(map[string]interface{}) //nolint:errcheck
+
 	return &Presentation{
 		Context:       context,
 		CustomContext: customContext,
@@ -877,6 +908,7 @@ func newPresentation(vpRaw rawPresentation, vpOpts *presentationOpts) (*Presenta
 			vpFldHolder,
 			vpFldProof,
 		),
+		holderObject: holderObject,
 	}, nil
 }
 
diff --git a/verifiable/presentation_jwt.go b/verifiable/presentation_jwt.go
index ba4475f..8166b13 100644
--- a/verifiable/presentation_jwt.go
+++ b/verifiable/presentation_jwt.go
@@ -28,7 +28,7 @@ func (jpc *JWTPresClaims) refineFromJWTClaims() {
 	}
 
 	if jpc.Issuer != "" {
-		raw[vpFldHolder] = jpc.Issuer
+		setRawHolder(raw, jpc.Issuer)
 	}
 
 	if jpc.ID != "" {
@@ -55,7 +55,6 @@ func newJWTPresClaims(vp *Presentation, audience []string, minimizeVP bool) (*JW
 	if minimizeVP {
 		vpCopy := *vp
 		vpCopy.ID = ""
-		vpCopy.Holder = ""
 		rawVP, err = vpCopy.raw()
 	} else {
 		rawVP, err = vp.raw()
@@ -65,6 +64,10 @@ func newJWTPresClaims(vp *Presentation, audience []string, minimizeVP bool) (*JW
 		return nil, err
 	}
 
+	if minimizeVP {
+		minimizeRawHolder(rawVP)
+	}
+
 	presClaims := &JWTPresClaims{
 		Claims:       jwtClaims,
 		Presentation: rawVP,
@@ -73,6 +76,18 @@ func newJWTPresClaims(vp *Presentation, audience []string, minimizeVP bool) (*JW
 	return presClaims, nil
 }
 
+// minimizeRawHolder removes the holder ID, and the holder as a whole if it has no other properties.
+func minimizeRawHolder(raw rawPresentation) {
+	holder, ok := raw[vpFldHolder].(map[string]interface{})
+	if ok {
+		delete(holder, jsonFldHolderID)
+	}
+
+	if len(holder) == 0 {
+		delete(raw, vpFldHolder)
+	}
+}
+
 // JWTPresClaimsUnmarshaller parses JWT of certain type to JWT Claims containing "vp" (Presentation) claim.
 type JWTPresClaimsUnmarshaller func(vpJWT string) (*JWTPresClaims, error)
 
diff --git a/verifiable/presentation_parser.go b/verifiable/presentation_parser.go
index 8de3653..77f240f 100644
--- a/verifiable/presentation_parser.go
+++ b/verifiable/presentation_parser.go
@@ -191,7 +191,7 @@ func (p *PresentationCWTParser) refineFromCWTClaims(
 	}
 
 	if issuer != "" {
-		raw[vpFldHolder] = issuer
+		setRawHolder(raw, issuer)
 	}
 
 	id, err := parseStringFld(claims, "jti")
-- 
2.43.0


From 19627ca68b82e54fe375baa8e167be098abc75cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:20 +0000
Subject: [PATCH 26/89] fix: leave shared documents alone when proofs are added

---
 verifiable/credential_ldp.go       | 22 ++++++++++++++++++++--
 verifiable/data_integrity_proof.go |  2 ++
 2 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/verifiable/credential_ldp.go b/verifiable/credential_ldp.go
index 1c6bbf4..f7b813b 100644
--- a/verifiable/credential_ldp.go
+++ b/verifiable/credential_ldp.go
@@ -11,11 +11,23 @@ import (
 
 // AddLinkedDataProof appends proof to the Verifiable Credential.
 func (vc *Credential) AddLinkedDataProof(context *LinkedDataProofContext, jsonldOpts ...processor.Opts) error {
-	proofs, err := addLinkedDataProof(context, vc.credentialJSON, jsonldOpts...)
+	// The current document may be shared with the caller or with other credentials: extend a copy of it.
+	credentialJSON := copyCredentialJSONWithoutProofs(vc.credentialJSON)
+
+	switch existing := vc.credentialJSON[jsonFldLDProof].(type) {
+	case nil:
+	case []interface{}:
+		credentialJSON[jsonFldLDProof] = append([]interface{}{}, existing...)
+	default:
+		credentialJSON[jsonFldLDProof] = existing
+	}
+
+	proofs, err := addLinkedDataProof(context, credentialJSON, jsonldOpts...)
 	if err != nil {
 		return err
 	}
 
+	vc.credentialJSON = credentialJSON
 	vc.ldProofs = proofs
 
 	return nil
@@ -23,6 +35,12 @@ func (vc *Credential) AddLinkedDataProof(context *LinkedDataProofContext, jsonld
 
 // ResetProofs sets new proofs for vc.
 func (vc *Credential) ResetProofs(newProofs []Proof) {
-	vc.credentialJSON[jsonFldLDProof] = proofsToRaw(newProofs)
+	// The current document may be shared with the caller or with other credentials: change a copy of it.
+	vc.credentialJSON = copyCredentialJSONWithoutProofs(vc.credentialJSON)
+
+	if len(newProofs) > 0 {
+		vc.credentialJSON[jsonFldLDProof] = proofsToRaw(newProofs)
+	}
+
 	vc.ldProofs = newProofs
 }
diff --git a/verifiable/data_integrity_proof.go b/verifiable/data_integrity_proof.go
index 514e338..01f1899 100644
--- a/verifiable/data_integrity_proof.go
+++ b/verifiable/data_integrity_proof.go
@@ -43,6 +43,8 @@ func (vc *Credential) AddDataIntegrityProof(context *DataIntegrityProofContext,
 	vc.ldProofs = proofs
 
 	if len(vc.ldProofs) > 0 {
+		// The current document may be shared with the caller or with other credentials: change a copy of it.
+		vc.credentialJSON = copyCredentialJSONWithoutProofs(vc.credentialJSON)
 		vc.credentialJSON[jsonFldLDProof] = proofsToRaw(vc.ldProofs)
 	}
 
-- 
2.43.0


From f9a66e44e1e84435fe4bb9c00ddd9044ab2c2a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:42 +0000
Subject: [PATCH 27/89] fix: leave the data integrity proof context unchanged

---
 verifiable/data_integrity_proof.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/verifiable/data_integrity_proof.go b/verifiable/data_integrity_proof.go
index 01f1899..9681d63 100644
--- a/verifiable/data_integrity_proof.go
+++ b/verifiable/data_integrity_proof.go
@@ -88,12 +88,13 @@ func addDataIntegrityProof(
 		expiresTime = *context.Expires
 	}
 
-	if context.ProofPurpose == "" {
-		context.ProofPurpose = assertionMethod
+	purpose := context.ProofPurpose
+	if purpose == "" {
+		purpose = assertionMethod
 	}
 
 	signed, err := signer.AddProof(ldBytes, &models.ProofOptions{
-		Purpose:              context.ProofPurpose,
+		Purpose:              purpose,
 		VerificationMethodID: context.SigningKeyID,
 		ProofType:            models.DataIntegrityProof,
 		SuiteType:            context.CryptoSuite,
-- 
2.43.0


From 26757e4196cfb9deaf0a12caab715c23bae9ea49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:04 +0000
Subject: [PATCH 28/89] fix: copy the lists and custom fields of a cloned
 presentation

---
 verifiable/presentation.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/verifiable/presentation.go b/verifiable/presentation.go
index e07ed61..aa015ca 100644
--- a/verifiable/presentation.go
+++ b/verifiable/presentation.go
@@ -10,6 +10,8 @@ import (
 	"encoding/json"
 	"errors"
 	"fmt"
+	"maps"
+	"slices"
 	"strings"
 
 	"github.com/fxamacker/cbor/v2"
@@ -568,14 +570,14 @@ func setRawHolder(raw rawPresentation, id string) {
 // Clone returns an exact copy of the presentation.
 func (vp *Presentation) Clone() *Presentation {
 	return &Presentation{
-		Context:       vp.Context,
-		CustomContext: vp.CustomContext,
+		Context:       slices.Clone(vp.Context),
+		CustomContext: slices.Clone(vp.CustomContext),
 		ID:            vp.ID,
-		Type:          vp.Type,
-		credentials:   vp.credentials,
+		Type:          slices.Clone(vp.Type),
+		credentials:   slices.Clone(vp.credentials),
 		Holder:        vp.Holder,
-		Proofs:        vp.Proofs,
-		CustomFields:  vp.CustomFields,
+		Proofs:        slices.Clone(vp.Proofs),
+		CustomFields:  maps.Clone(vp.CustomFields),
 		JWT:           vp.JWT,
 		CWT:           vp.CWT,
 		holderObject:  vp.holderObject,
-- 
2.43.0


From 3dccdf37f61206433b2225283657bb15e7c2037a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:39 +0000
Subject: [PATCH 29/89] fix: let credential dates be removed

---
 verifiable/credential.go | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/verifiable/credential.go b/verifiable/credential.go
index 8ff75da..587bf5b 100644
--- a/verifiable/credential.go
+++ b/verifiable/credential.go
@@ -2676,7 +2676,12 @@ func (vc *Credential) WithModifiedIssued(wrapper *util.TimeWrapper) *Credential
 	newContents := vc.Contents()
 
 	newContents.Issued = wrapper
-	newCredJSON[jsonFldIssued] = serializeTime(wrapper)
+
+	if wrapper != nil {
+		newCredJSON[jsonFldIssued] = serializeTime(wrapper)
+	} else {
+		delete(newCredJSON, jsonFldIssued)
+	}
 
 	return &Credential{
 		credentialJSON:     newCredJSON,
@@ -2690,7 +2695,12 @@ func (vc *Credential) WithModifiedExpired(wrapper *util.TimeWrapper) *Credential
 	newContents := vc.Contents()
 
 	newContents.Expired = wrapper
-	newCredJSON[jsonFldExpired] = serializeTime(wrapper)
+
+	if wrapper != nil {
+		newCredJSON[jsonFldExpired] = serializeTime(wrapper)
+	} else {
+		delete(newCredJSON, jsonFldExpired)
+	}
 
 	return &Credential{
 		credentialJSON:     newCredJSON,
@@ -2704,7 +2714,12 @@ func (vc *Credential) WithModifiedValidFrom(wrapper *util.TimeWrapper) *Credenti
 	newContents := vc.Contents()
 
 	newContents.Issued = wrapper
-	newCredJSON[jsonFldValidFrom] = serializeTime(wrapper)
+
+	if wrapper != nil {
+		newCredJSON[jsonFldValidFrom] = serializeTime(wrapper)
+	} else {
+		delete(newCredJSON, jsonFldValidFrom)
+	}
 
 	return &Credential{
 		credentialJSON:     newCredJSON,
@@ -2718,7 +2733,12 @@ func (vc *Credential) WithModifiedValidUntil(wrapper *util.TimeWrapper) *Credent
 	newContents := vc.Contents()
 
 	newContents.Expired = wrapper
-	newCredJSON[jsonFldValidUntil] = serializeTime(wrapper)
+
+	if wrapper != nil {
+		newCredJSON[jsonFldValidUntil] = serializeTime(wrapper)
+	} else {
+		delete(newCredJSON, jsonFldValidUntil)
+	}
 
 	return &Credential{
 		credentialJSON:     newCredJSON,
-- 
2.43.0


From 6a59717fe42918d4fda891186dfc0c22b320fe08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:00 +0000
Subject: [PATCH 30/89] fix: leave the given SD-JWT credentials alone when
 limiting disclosure

---
 presexch/definition.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/presexch/definition.go b/presexch/definition.go
index 6b3b4f5..641def6 100644
--- a/presexch/definition.go
+++ b/presexch/definition.go
@@ -1116,6 +1116,16 @@ func limitDisclosure(filterResults []constraintsFilterResult,
 				return nil, err
 			}
 
+			// The given credential stays as it is: it may be presented again, with other disclosures.
+			limited := *credential
+
+			if credential.JWTEnvelope != nil {
+				envelope := *credential.JWTEnvelope
+				limited.JWTEnvelope = &envelope
+			}
+
+			credential = &limited
+
 			err = credential.SetSDJWTDisclosures(limitedDisclosures)
 			if err != nil {
 				return nil, err
-- 
2.43.0


From ca7dd0a4c54015a63026aa6bebe808356403d148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:30 +0000
Subject: [PATCH 31/89] fix: do not write into the spare capacity of caller
 slices

---
 presexch/definition.go                 | 2 +-
 verifiable/bbs_selective_disclosure.go | 2 +-
 verifiable/credential_bbs.go           | 2 +-
 verifiable/credential_sdjwt.go         | 2 +-
 verifiable/lddocument/signer.go        | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/presexch/definition.go b/presexch/definition.go
index 641def6..218f253 100644
--- a/presexch/definition.go
+++ b/presexch/definition.go
@@ -1315,7 +1315,7 @@ func createNewCredential(constraints *Constraints, src, limitedCred []byte,
 	}
 
 	if !doBBS || modifiedByPredicate {
-		opts = append(opts, verifiable.WithDisabledProofCheck())
+		opts = append(opts[:len(opts):len(opts)], verifiable.WithDisabledProofCheck())
 		return verifiable.ParseCredential(limitedCred, opts...)
 	}
 
diff --git a/verifiable/bbs_selective_disclosure.go b/verifiable/bbs_selective_disclosure.go
index d8e14f1..4cb668c 100644
--- a/verifiable/bbs_selective_disclosure.go
+++ b/verifiable/bbs_selective_disclosure.go
@@ -213,7 +213,7 @@ func buildDocVerificationData(docCompacted, revealDoc map[string]interface{},
 		return nil, fmt.Errorf("create verify document data: %w", err)
 	}
 
-	optionsWithBlankFrames := append(opts, processor.WithFrameBlankNodes())
+	optionsWithBlankFrames := append(opts[:len(opts):len(opts)], processor.WithFrameBlankNodes())
 
 	revealDocumentResult, err := processor.Default().Frame(docCompacted, revealDoc, optionsWithBlankFrames...)
 	if err != nil {
diff --git a/verifiable/credential_bbs.go b/verifiable/credential_bbs.go
index 8340792..558773e 100644
--- a/verifiable/credential_bbs.go
+++ b/verifiable/credential_bbs.go
@@ -43,7 +43,7 @@ func (vc *Credential) GenerateBBSSelectiveDisclosure(revealDoc map[string]interf
 		return nil, err
 	}
 
-	opts = append(opts, WithDisabledProofCheck())
+	opts = append(opts[:len(opts):len(opts)], WithDisabledProofCheck())
 
 	return ParseCredential(vcWithSelectiveDisclosureBytes, opts...)
 }
diff --git a/verifiable/credential_sdjwt.go b/verifiable/credential_sdjwt.go
index 662c959..aad8125 100644
--- a/verifiable/credential_sdjwt.go
+++ b/verifiable/credential_sdjwt.go
@@ -413,7 +413,7 @@ func makeSDJWT( //nolint:funlen,gocyclo
 		)
 	}
 
-	opts.nonSDClaims = append(opts.nonSDClaims, "id")
+	opts.nonSDClaims = append(opts.nonSDClaims[:len(opts.nonSDClaims):len(opts.nonSDClaims)], "id")
 	issuerOptions = append(issuerOptions,
 		issuer.WithNonSelectivelyDisclosableClaims(opts.nonSDClaims),
 	)
diff --git a/verifiable/lddocument/signer.go b/verifiable/lddocument/signer.go
index 39a844d..da63590 100644
--- a/verifiable/lddocument/signer.go
+++ b/verifiable/lddocument/signer.go
@@ -109,7 +109,7 @@ func (ds *DocumentSigner) signObject(context *SigningContext, jsonLdObject map[s
 	message, err := proof.CreateVerifyData(&signatureSuiteWrapper{
 		wrapped: ds.signer,
 		proof:   p,
-	}, jsonLdObject, p, append(opts, processor.WithValidateRDF())...)
+	}, jsonLdObject, p, append(opts[:len(opts):len(opts)], processor.WithValidateRDF())...)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 5dc575c47b40abf347fa4f3b13d5d2678ec703df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:17 +0000
Subject: [PATCH 32/89] fix: status: error for status list VC without subject

---
 status/status.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/status/status.go b/status/status.go
index 1b2c8a1..c042831 100644
--- a/status/status.go
+++ b/status/status.go
@@ -92,6 +92,9 @@ func (c *Client) verifyStatus( //nolint:gocyclo,funlen
 	}
 
 	credSubject := statusListVCC.Subject
+	if len(credSubject) == 0 {
+		return errors.New("status list vc has no credential subject")
+	}
 
 	encodedList, ok := credSubject[0].CustomFields["encodedList"].(string)
 	if !ok {
-- 
2.43.0


From 3f5fb21f01e5fbd4ec9cdf59a045e7b7d0f5fedc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:43 +0000
Subject: [PATCH 33/89] fix: status: malformed purpose is an error whatever the
 bit

---
 status/status.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/status/status.go b/status/status.go
index c042831..993f5df 100644
--- a/status/status.go
+++ b/status/status.go
@@ -75,6 +75,11 @@ func (c *Client) verifyStatus( //nolint:gocyclo,funlen
 		return err
 	}
 
+	purpose, err := validator.GetStatusPurpose(status)
+	if err != nil {
+		return err
+	}
+
 	statusVCURL, err := validator.GetStatusVCURI(status)
 	if err != nil {
 		return err
@@ -112,11 +117,6 @@ func (c *Client) verifyStatus( //nolint:gocyclo,funlen
 	}
 
 	if bitSet {
-		purpose, err := validator.GetStatusPurpose(status)
-		if err != nil {
-			return err
-		}
-
 		switch purpose {
 		case StatusPurposeRevocation:
 			return ErrRevoked
-- 
2.43.0


From eed6ec87ddc8cf0879bb1dacecb5225ade92f5d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:02 +0000
Subject: [PATCH 34/89] fix: bitstringstatus: reject fractional statusSize

---
 status/validator/bitstringstatus/bitstringstatus.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/status/validator/bitstringstatus/bitstringstatus.go b/status/validator/bitstringstatus/bitstringstatus.go
index 473d8ab..ca0562c 100644
--- a/status/validator/bitstringstatus/bitstringstatus.go
+++ b/status/validator/bitstringstatus/bitstringstatus.go
@@ -90,6 +90,9 @@ func checkStatusSize(vcStatus *verifiable.TypedID) error {
 	}
 
 	statusSize := int(statusSizeF)
+	if float64(statusSize) != statusSizeF {
+		return errors.New("statusSize must be an integer")
+	}
 
 	if statusSize <= 0 {
 		return fmt.Errorf("statusSize must be greater than 0, but got %d", statusSize)
-- 
2.43.0


From be55b3238a150d34eb8a62cd01ba6ae3b734db76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:23 +0000
Subject: [PATCH 35/89] fix: mem: GetStoreConfig reads under the lock

---
 legacy/mem/mem.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/legacy/mem/mem.go b/legacy/mem/mem.go
index bbdad0e..395d042 100644
--- a/legacy/mem/mem.go
+++ b/legacy/mem/mem.go
@@ -97,6 +97,9 @@ func (p *Provider) SetStoreConfig(name string, config spi.StoreConfiguration) er
 func (p *Provider) GetStoreConfig(name string) (spi.StoreConfiguration, error) {
 	storeName := strings.ToLower(name)
 
+	p.lock.RLock()
+	defer p.lock.RUnlock()
+
 	store := p.dbs[storeName]
 	if store == nil {
 		return spi.StoreConfiguration{}, spi.ErrStoreNotFound
-- 
2.43.0


From da1c5171bbe91e0ecd3ac59d4697d203f35afbda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:24 +0000
Subject: [PATCH 36/89] fix: mem: evaluate a query on one state of the store

---
 legacy/mem/mem.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/legacy/mem/mem.go b/legacy/mem/mem.go
index 395d042..7946d95 100644
--- a/legacy/mem/mem.go
+++ b/legacy/mem/mem.go
@@ -282,6 +282,9 @@ func (m *memStore) Query(expression string, options ...spi.QueryOption) (spi.Ite
 
 	queryResults := make(map[string]*queryResult)
 
+	m.RLock()
+	defer m.RUnlock()
+
 	for _, exp := range strings.Split(expression, "&&") {
 		expressionSplit := strings.Split(exp, ":")
 		switch len(expressionSplit) {
@@ -375,9 +378,6 @@ func (m *memStore) getMatchingKeysAndDBEntries(tagName, tagValue string) ([]stri
 
 	var dbEntries []dbEntry
 
-	m.RLock()
-	defer m.RUnlock()
-
 	for key, dbEntry := range m.db {
 		for _, tag := range dbEntry.tags {
 			if tag.Name == tagName && (matchAnyValue || tag.Value == tagValue) {
-- 
2.43.0


From 94453b33a2481b4b8b22238e9e8c86920200618d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:25 +0000
Subject: [PATCH 37/89] fix: mem: query criteria on the same tag name all count

---
 legacy/mem/mem.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/legacy/mem/mem.go b/legacy/mem/mem.go
index 7946d95..144fdfe 100644
--- a/legacy/mem/mem.go
+++ b/legacy/mem/mem.go
@@ -293,14 +293,14 @@ func (m *memStore) Query(expression string, options ...spi.QueryOption) (spi.Ite
 
 			keys, dbEntries := m.getMatchingKeysAndDBEntries(expressionTagName, "")
 
-			queryResults[expressionTagName] = &queryResult{keys: keys, dbEntries: dbEntries}
+			queryResults[exp] = &queryResult{keys: keys, dbEntries: dbEntries}
 		case expressionTagNameAndValueLength:
 			expressionTagName := expressionSplit[0]
 			expressionTagValue := expressionSplit[1]
 
 			keys, dbEntries := m.getMatchingKeysAndDBEntries(expressionTagName, expressionTagValue)
 
-			queryResults[expressionTagName] = &queryResult{keys: keys, dbEntries: dbEntries}
+			queryResults[exp] = &queryResult{keys: keys, dbEntries: dbEntries}
 		default:
 			return nil, errInvalidQueryExpressionFormat
 		}
-- 
2.43.0


From 34408b2cc210b5ae98434ce2227a45265a34ac28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:25 +0000
Subject: [PATCH 38/89] fix: mem: Batch checks tags as Put does

---
 legacy/mem/mem.go | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/legacy/mem/mem.go b/legacy/mem/mem.go
index 144fdfe..8d15ae8 100644
--- a/legacy/mem/mem.go
+++ b/legacy/mem/mem.go
@@ -174,6 +174,21 @@ func (m *memStore) Put(key string, value []byte, tags ...spi.Tag) error {
 		return errors.New("value cannot be nil")
 	}
 
+	if err := checkTags(tags); err != nil {
+		return err
+	}
+
+	m.Lock()
+	defer m.Unlock()
+	m.db[key] = dbEntry{
+		value: value,
+		tags:  tags,
+	}
+
+	return nil
+}
+
+func checkTags(tags []spi.Tag) error {
 	for _, tag := range tags {
 		if strings.Contains(tag.Name, ":") {
 			return fmt.Errorf(invalidTagName, tag.Name)
@@ -184,13 +199,6 @@ func (m *memStore) Put(key string, value []byte, tags ...spi.Tag) error {
 		}
 	}
 
-	m.Lock()
-	defer m.Unlock()
-	m.db[key] = dbEntry{
-		value: value,
-		tags:  tags,
-	}
-
 	return nil
 }
 
@@ -339,6 +347,10 @@ func (m *memStore) Batch(operations []spi.Operation) error {
 		if operation.Key == "" {
 			return errEmptyKey
 		}
+
+		if err := checkTags(operation.Tags); err != nil {
+			return err
+		}
 	}
 
 	for _, operation := range operations {
-- 
2.43.0


From 7c739258081bd395c7e9529c9e5b01723c9a7f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:26 +0000
Subject: [PATCH 39/89] fix: mem: store and return copies of values and tags

---
 legacy/mem/mem.go | 35 +++++++++++++++++++++++------------
 1 file changed, 23 insertions(+), 12 deletions(-)

diff --git a/legacy/mem/mem.go b/legacy/mem/mem.go
index 8d15ae8..3499414 100644
--- a/legacy/mem/mem.go
+++ b/legacy/mem/mem.go
@@ -156,6 +156,23 @@ type dbEntry struct {
 	tags  []spi.Tag
 }
 
+// newEntry makes an entry that shares no memory with the caller's arguments.
+func newEntry(value []byte, tags []spi.Tag) dbEntry {
+	return dbEntry{
+		value: append([]byte{}, value...),
+		tags:  append([]spi.Tag(nil), tags...),
+	}
+}
+
+// copy gives the entry to a caller, who may change what it gets.
+func (e dbEntry) copy() dbEntry {
+	if e.value == nil {
+		return e
+	}
+
+	return newEntry(e.value, e.tags)
+}
+
 type memStore struct {
 	name   string
 	db     map[string]dbEntry
@@ -180,10 +197,7 @@ func (m *memStore) Put(key string, value []byte, tags ...spi.Tag) error {
 
 	m.Lock()
 	defer m.Unlock()
-	m.db[key] = dbEntry{
-		value: value,
-		tags:  tags,
-	}
+	m.db[key] = newEntry(value, tags)
 
 	return nil
 }
@@ -218,7 +232,7 @@ func (m *memStore) Get(key string) ([]byte, error) {
 		return nil, spi.ErrDataNotFound
 	}
 
-	return entry.value, nil
+	return entry.copy().value, nil
 }
 
 // Get fetches all tags associated with the given key.
@@ -237,7 +251,7 @@ func (m *memStore) GetTags(key string) ([]spi.Tag, error) {
 		return nil, spi.ErrDataNotFound
 	}
 
-	return entry.tags, nil
+	return entry.copy().tags, nil
 }
 
 // GetBulk fetches the values associated with the given keys.
@@ -260,7 +274,7 @@ func (m *memStore) GetBulk(keys ...string) ([][]byte, error) {
 	defer m.RUnlock()
 
 	for i, key := range keys {
-		values[i] = m.db[key].value
+		values[i] = m.db[key].copy().value
 	}
 
 	return values, nil
@@ -359,10 +373,7 @@ func (m *memStore) Batch(operations []spi.Operation) error {
 			continue
 		}
 
-		m.db[operation.Key] = dbEntry{
-			value: operation.Value,
-			tags:  operation.Tags,
-		}
+		m.db[operation.Key] = newEntry(operation.Value, operation.Tags)
 	}
 
 	return nil
@@ -394,7 +405,7 @@ func (m *memStore) getMatchingKeysAndDBEntries(tagName, tagValue string) ([]stri
 		for _, tag := range dbEntry.tags {
 			if tag.Name == tagName && (matchAnyValue || tag.Value == tagValue) {
 				keys = append(keys, key)
-				dbEntries = append(dbEntries, dbEntry)
+				dbEntries = append(dbEntries, dbEntry.copy())
 
 				break
 			}
-- 
2.43.0


From e05b743e69ab5aae678d62e6fc90d757456ddd6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:16 +0000
Subject: [PATCH 40/89] fix: mem: closing a store again leaves its successor
 open

---
 legacy/mem/mem.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/legacy/mem/mem.go b/legacy/mem/mem.go
index 3499414..24f4d4d 100644
--- a/legacy/mem/mem.go
+++ b/legacy/mem/mem.go
@@ -57,7 +57,8 @@ func (p *Provider) OpenStore(name string) (spi.Store, error) {
 
 	store := p.dbs[storeName]
 	if store == nil {
-		newStore := &memStore{name: storeName, db: make(map[string]dbEntry), close: p.removeStore}
+		newStore := &memStore{name: storeName, db: make(map[string]dbEntry)}
+		newStore.close = func(storeName string) { p.removeStore(storeName, newStore) }
 		p.dbs[storeName] = newStore
 
 		return newStore, nil
@@ -141,12 +142,12 @@ func (p *Provider) Ping() error {
 	return nil
 }
 
-func (p *Provider) removeStore(name string) {
+// removeStore removes the given store, unless another one has been opened under its name since it was closed.
+func (p *Provider) removeStore(name string, store *memStore) {
 	p.lock.Lock()
 	defer p.lock.Unlock()
 
-	_, ok := p.dbs[name]
-	if ok {
+	if p.dbs[name] == store {
 		delete(p.dbs, name)
 	}
 }
-- 
2.43.0


From 3659b21b095a63ac0634263871b821926a9a34b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:50 +0000
Subject: [PATCH 41/89] fix: validate against every schema the credential
 refers to

---
 verifiable/credential.go | 38 ++++++++++++++++++++++++--------------
 1 file changed, 24 insertions(+), 14 deletions(-)

diff --git a/verifiable/credential.go b/verifiable/credential.go
index 587bf5b..f2ca715 100644
--- a/verifiable/credential.go
+++ b/verifiable/credential.go
@@ -2171,27 +2171,31 @@ func SerializeSubject(subject []Subject) interface{} {
 // conforms to the serialization of the Verifiable Credential data model
 // (https://w3c.github.io/vc-data-model/#example-1-a-simple-example-of-a-verifiable-credential)
 func validateCredentialUsingJSONSchema(vcJSON JSONObject, vcc *CredentialContents, opts *credentialOpts) error {
-	schemaLoader, err := getSchemaLoader(vcc, opts)
+	schemaLoaders, err := getSchemaLoaders(vcc, opts)
 	if err != nil {
 		return fmt.Errorf("get schema loader: %w", err)
 	}
 
 	loader := gojsonschema.NewGoLoader(vcJSON)
 
-	result, err := gojsonschema.Validate(schemaLoader, loader)
-	if err != nil {
-		return fmt.Errorf("validation of verifiable credential: %w", err)
-	}
+	for _, schemaLoader := range schemaLoaders {
+		result, err := gojsonschema.Validate(schemaLoader, loader)
+		if err != nil {
+			return fmt.Errorf("validation of verifiable credential: %w", err)
+		}
 
-	if !result.Valid() {
-		errMsg := describeSchemaValidationError(result, "verifiable credential")
-		return errors.New(errMsg)
+		if !result.Valid() {
+			errMsg := describeSchemaValidationError(result, "verifiable credential")
+			return errors.New(errMsg)
+		}
 	}
 
 	return nil
 }
 
-func getSchemaLoader(vcc *CredentialContents, opts *credentialOpts) (gojsonschema.JSONLoader, error) {
+// getSchemaLoaders returns the schemas the credential has to conform to: all the supported schemas it refers to or,
+// if there are none, the default one.
+func getSchemaLoaders(vcc *CredentialContents, opts *credentialOpts) ([]gojsonschema.JSONLoader, error) {
 	var schemaLoader gojsonschema.JSONLoader
 
 	if IsBaseContext(vcc.Context, V2ContextURI) {
@@ -2201,17 +2205,19 @@ func getSchemaLoader(vcc *CredentialContents, opts *credentialOpts) (gojsonschem
 	}
 
 	if opts.disabledCustomSchema {
-		return schemaLoader, nil
+		return []gojsonschema.JSONLoader{schemaLoader}, nil
 	}
 
 	if opts.defaultSchema != "" {
-		return gojsonschema.NewStringLoader(opts.defaultSchema), nil
+		return []gojsonschema.JSONLoader{gojsonschema.NewStringLoader(opts.defaultSchema)}, nil
 	}
 
 	if opts.defaultSchemaLoader != nil {
-		return gojsonschema.NewStringLoader(opts.defaultSchemaLoader(vcc)), nil
+		return []gojsonschema.JSONLoader{gojsonschema.NewStringLoader(opts.defaultSchemaLoader(vcc))}, nil
 	}
 
+	var customLoaders []gojsonschema.JSONLoader
+
 	for _, schema := range vcc.Schemas {
 		switch schema.Type {
 		case jsonSchema2018Type, jsonSchemaType:
@@ -2220,7 +2226,7 @@ func getSchemaLoader(vcc *CredentialContents, opts *credentialOpts) (gojsonschem
 				return nil, fmt.Errorf("load of custom credential schema from %s: %w", schema.ID, err)
 			}
 
-			return gojsonschema.NewBytesLoader(customSchemaData), nil
+			customLoaders = append(customLoaders, gojsonschema.NewBytesLoader(customSchemaData))
 		//TODO: add support for JSON Schema Credential
 		case jsonSchemaCredentialType:
 			// TODO: should unsupported schema type be ignored or should this cause an error?
@@ -2231,7 +2237,11 @@ func getSchemaLoader(vcc *CredentialContents, opts *credentialOpts) (gojsonschem
 		}
 	}
 
-	return schemaLoader, nil
+	if len(customLoaders) > 0 {
+		return customLoaders, nil
+	}
+
+	return []gojsonschema.JSONLoader{schemaLoader}, nil
 }
 
 type schemaOpts struct {
-- 
2.43.0


From eb63ea6c59711430ccbf4ea19185eb698edf9224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:52 +0000
Subject: [PATCH 42/89] fix: didconfig: compare origins without a host as a
 whole

---
 didconfig/verifier/didconfig.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/didconfig/verifier/didconfig.go b/didconfig/verifier/didconfig.go
index 3ec3599..f1b6a60 100644
--- a/didconfig/verifier/didconfig.go
+++ b/didconfig/verifier/didconfig.go
@@ -371,6 +371,11 @@ func validateOrigin(origin1, origin2 string) error {
 		return err
 	}
 
+	// an origin without a scheme (e.g. "example.com") has no host to compare, so it has to be the same as a whole
+	if url1.Host == "" && origin1 != origin2 {
+		return fmt.Errorf("origin[%s] and domain origin[%s] are different", origin1, origin2)
+	}
+
 	// Browsers define same origin based on the following pieces of data:
 	// The protocol (e.g., HTTP or HTTPS)
 	// The port, if available
-- 
2.43.0


From ece97762a17fd0a01da68a2ca8322bbe46b53ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:53 +0000
Subject: [PATCH 43/89] fix: didconfig: skip credentials without issuer

---
 didconfig/verifier/didconfig.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/didconfig/verifier/didconfig.go b/didconfig/verifier/didconfig.go
index f1b6a60..83813aa 100644
--- a/didconfig/verifier/didconfig.go
+++ b/didconfig/verifier/didconfig.go
@@ -416,6 +416,12 @@ func getCredentials(linkedDIDs []interface{}, did, domain string, opts ...verifi
 			continue
 		}
 
+		if vc.Contents().Issuer == nil {
+			debugLogger.Printf("skipping credential since it has no issuer")
+
+			continue
+		}
+
 		if vc.Contents().Issuer.ID != did {
 			debugLogger.Printf("skipping credential since issuer[%s] is different from DID[%s]",
 				vc.Contents().Issuer.ID, did)
-- 
2.43.0


From 4b9a11bc723053f3c304e34ce220a61e7d45975f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:54 +0000
Subject: [PATCH 44/89] fix: didconfig: check the sub claim of the JWT itself

---
 didconfig/verifier/didconfig.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/didconfig/verifier/didconfig.go b/didconfig/verifier/didconfig.go
index 83813aa..62857ed 100644
--- a/didconfig/verifier/didconfig.go
+++ b/didconfig/verifier/didconfig.go
@@ -280,7 +280,16 @@ func validateJWTPayload(vc *verifiable.Credential, payload map[string]interface{
 		return fmt.Errorf("JWT Payload: %w", err)
 	}
 
-	return validateJWTClaims(vc, did)
+	err = validateJWTClaims(vc, did)
+	if err != nil {
+		return err
+	}
+
+	if sub, ok := payload["sub"]; ok && sub != did {
+		return errors.New("sub MUST be equal to credentialSubject.id")
+	}
+
+	return nil
 }
 
 func validateJWTClaims(vc *verifiable.Credential, did string) error {
-- 
2.43.0


From 510601a70765475ed4df74d3a6f220b442f272be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:29 +0000
Subject: [PATCH 45/89] fix: crypto-ext: refuse ECDSA keys without key material

---
 crypto-ext/verifiers/ecdsa/verifier.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crypto-ext/verifiers/ecdsa/verifier.go b/crypto-ext/verifiers/ecdsa/verifier.go
index 58523b7..ecf5d43 100644
--- a/crypto-ext/verifiers/ecdsa/verifier.go
+++ b/crypto-ext/verifiers/ecdsa/verifier.go
@@ -54,6 +54,10 @@ func (sv *Verifier) parseKey(pubKey *pubkey.PublicKey) (*ecdsa.PublicKey, error)
 	var ecdsaPubKey *ecdsa.PublicKey
 
 	if pubKey.JWK == nil {
+		if pubKey.BytesKey == nil {
+			return nil, errors.New("ecdsa: public key should contain key bytes or JWK")
+		}
+
 		var err error
 
 		ecdsaPubKey, err = sv.createECDSAPublicKey(pubKey.BytesKey.Bytes)
-- 
2.43.0


From 01125d190d2f17c202059ea3ffb61c04d4627e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:11 +0000
Subject: [PATCH 46/89] fix: crypto-ext: refuse ECDSA keys on another curve

---
 crypto-ext/verifiers/ecdsa/verifier.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crypto-ext/verifiers/ecdsa/verifier.go b/crypto-ext/verifiers/ecdsa/verifier.go
index ecf5d43..4db4495 100644
--- a/crypto-ext/verifiers/ecdsa/verifier.go
+++ b/crypto-ext/verifiers/ecdsa/verifier.go
@@ -71,6 +71,10 @@ func (sv *Verifier) parseKey(pubKey *pubkey.PublicKey) (*ecdsa.PublicKey, error)
 		if !ok {
 			return nil, errors.New("ecdsa: invalid public key type")
 		}
+
+		if ecdsaPubKey.Curve == nil || ecdsaPubKey.Curve.Params().N.Cmp(sv.ec.curve.Params().N) != 0 {
+			return nil, errors.New("ecdsa: public key is on a different curve")
+		}
 	}
 
 	return ecdsaPubKey, nil
-- 
2.43.0


From 25cc4ac87ddd41cd53b09b80ad46310cb37b6ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:28 +0000
Subject: [PATCH 47/89] fix: crypto-ext: refuse trailing data in DER signatures

---
 crypto-ext/verifiers/ecdsa/verifier.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crypto-ext/verifiers/ecdsa/verifier.go b/crypto-ext/verifiers/ecdsa/verifier.go
index 4db4495..6dcd2e5 100644
--- a/crypto-ext/verifiers/ecdsa/verifier.go
+++ b/crypto-ext/verifiers/ecdsa/verifier.go
@@ -7,6 +7,7 @@ SPDX-License-Identifier: Apache-2.0
 package ecdsa
 
 import (
+	"bytes"
 	"crypto"
 	"crypto/ecdsa"
 	"crypto/elliptic"
@@ -121,6 +122,11 @@ func (sv *Verifier) Verify(signature, msg []byte, pubKey *pubkey.PublicKey) erro
 			return err
 		}
 
+		// the signature must be exactly the DER encoding: no trailing data after or inside the sequence.
+		if encoded, err := asn1.Marshal(esig); err != nil || !bytes.Equal(encoded, signature) {
+			return errors.New("ecdsa: invalid signature encoding")
+		}
+
 		r = esig.R
 		s = esig.S
 	}
-- 
2.43.0


From f745cdc6e512daee47b9b35d878bbf6373dc224b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:03 +0000
Subject: [PATCH 48/89] fix: crypto-ext: verify DER signatures no longer than
 the fixed-width ones

---
 crypto-ext/verifiers/ecdsa/verifier.go | 53 +++++++++++++++-----------
 1 file changed, 30 insertions(+), 23 deletions(-)

diff --git a/crypto-ext/verifiers/ecdsa/verifier.go b/crypto-ext/verifiers/ecdsa/verifier.go
index 6dcd2e5..fe902d5 100644
--- a/crypto-ext/verifiers/ecdsa/verifier.go
+++ b/crypto-ext/verifiers/ecdsa/verifier.go
@@ -90,10 +90,6 @@ func (sv *Verifier) Verify(signature, msg []byte, pubKey *pubkey.PublicKey) erro
 
 	ec := sv.ec
 
-	if len(signature) < 2*ec.keySize {
-		return errors.New("ecdsa: invalid signature size")
-	}
-
 	hasher := ec.hash.New()
 
 	_, err = hasher.Write(msg)
@@ -103,9 +99,6 @@ func (sv *Verifier) Verify(signature, msg []byte, pubKey *pubkey.PublicKey) erro
 
 	hash := hasher.Sum(nil)
 
-	r := big.NewInt(0).SetBytes(signature[:ec.keySize])
-	s := big.NewInt(0).SetBytes(signature[ec.keySize:])
-
 	// TODO: Asn.1 DER signatures can on occasion be the same length as a P1363 signature
 	//  I'm uncertain whether a P1363 signature can be generated which has bytes in
 	//  the right places to appear as if it's an ASN.1 signature, but we could always
@@ -113,30 +106,44 @@ func (sv *Verifier) Verify(signature, msg []byte, pubKey *pubkey.PublicKey) erro
 	//  be parsed as Asn.1 DER and validated against a different key is uncertain.
 	//  Ideally, we enforce the use of either one or the other somehow, perhaps when
 	//  initialising the application.
-	if len(signature) > 2*ec.keySize {
-		var esig struct {
-			R, S *big.Int
-		}
+	if len(signature) == 2*ec.keySize {
+		r := big.NewInt(0).SetBytes(signature[:ec.keySize])
+		s := big.NewInt(0).SetBytes(signature[ec.keySize:])
 
-		if _, err := asn1.Unmarshal(signature, &esig); err != nil {
-			return err
+		if ecdsa.Verify(ecdsaPubKey, hash, r, s) {
+			return nil
 		}
+	}
 
-		// the signature must be exactly the DER encoding: no trailing data after or inside the sequence.
-		if encoded, err := asn1.Marshal(esig); err != nil || !bytes.Equal(encoded, signature) {
-			return errors.New("ecdsa: invalid signature encoding")
-		}
+	r, s, err := parseDER(signature)
+
+	switch {
+	case err == nil && ecdsa.Verify(ecdsaPubKey, hash, r, s):
+		return nil
+	case err != nil && len(signature) < 2*ec.keySize:
+		return errors.New("ecdsa: invalid signature size")
+	case err != nil && len(signature) > 2*ec.keySize:
+		return err
+	}
+
+	return errors.New("ecdsa: invalid signature")
+}
+
+func parseDER(signature []byte) (*big.Int, *big.Int, error) {
+	var esig struct {
+		R, S *big.Int
+	}
 
-		r = esig.R
-		s = esig.S
+	if _, err := asn1.Unmarshal(signature, &esig); err != nil {
+		return nil, nil, err
 	}
 
-	verified := ecdsa.Verify(ecdsaPubKey, hash, r, s)
-	if !verified {
-		return errors.New("ecdsa: invalid signature")
+	// the signature must be exactly the DER encoding: no trailing data after or inside the sequence.
+	if encoded, err := asn1.Marshal(esig); err != nil || !bytes.Equal(encoded, signature) {
+		return nil, nil, errors.New("ecdsa: invalid signature encoding")
 	}
 
-	return nil
+	return esig.R, esig.S, nil
 }
 
 func (sv *Verifier) createECDSAPublicKey(pubKeyBytes []byte) (*ecdsa.PublicKey, error) {
-- 
2.43.0


From 77b6208bcce3a1efd48b6b0752523cfe94936190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:30 +0000
Subject: [PATCH 49/89] fix: crypto-ext: check the structure of BBS+ proofs

---
 crypto-ext/verifiers/bbs/verifier.go | 72 +++++++++++++++++++++++++++-
 1 file changed, 70 insertions(+), 2 deletions(-)

diff --git a/crypto-ext/verifiers/bbs/verifier.go b/crypto-ext/verifiers/bbs/verifier.go
index 2ce92fa..ab6e14f 100644
--- a/crypto-ext/verifiers/bbs/verifier.go
+++ b/crypto-ext/verifiers/bbs/verifier.go
@@ -8,6 +8,7 @@ package bbs
 
 import (
 	"bytes"
+	"encoding/binary"
 	"errors"
 	"fmt"
 	"strings"
@@ -93,8 +94,75 @@ func (v *G2SignatureProofVerifier) Verify(signature, msg []byte, pubKeyValue *pu
 		return errors.New("incorrect pub key, should contain key bytes or jwk")
 	}
 
-	return bbs.VerifyProof(splitMessageIntoLines(string(msg), true),
-		bytes.Clone(signature), proof.Nonce, bytesKey.Bytes)
+	messages := splitMessageIntoLines(string(msg), true)
+
+	if err := checkProof(signature, len(messages)); err != nil {
+		return err
+	}
+
+	return bbs.VerifyProof(messages, bytes.Clone(signature), proof.Nonce, bytesKey.Bytes)
+}
+
+// checkProof checks that the proof has exactly the size its header announces and that it reveals exactly
+// as many messages as are verified with it. The BBS+ library checks neither.
+func checkProof(proof []byte, messages int) error {
+	const (
+		countLen = 2
+		lenLen   = 4
+		g1Len    = 48
+		frLen    = 32
+		byteBits = 8
+		// A', Abar and d; size of the first proof; commitment, number of responses and two responses.
+		vc1End = 3*g1Len + lenLen + g1Len + lenLen + 2*frLen
+		// commitment, number of responses, responses for d and h0.
+		vc2Len = g1Len + lenLen + 2*frLen
+	)
+
+	if len(proof) < countLen {
+		return errors.New("invalid size of signature proof")
+	}
+
+	count := int(binary.BigEndian.Uint16(proof))
+	header := countLen + count/byteBits + 1
+
+	if len(proof) < header {
+		return errors.New("invalid size of signature proof")
+	}
+
+	revealed := 0
+
+	for i := range (header - countLen) * byteBits {
+		if proof[header-1-i/byteBits]>>(i%byteBits)&1 == 0 {
+			continue
+		}
+
+		if i >= count {
+			return errors.New("signature proof reveals unknown message")
+		}
+
+		revealed++
+	}
+
+	if revealed != messages {
+		return fmt.Errorf("signature proof reveals %d messages, got %d", revealed, messages)
+	}
+
+	hidden := count - revealed
+
+	if len(proof) != header+vc1End+vc2Len+hidden*frLen {
+		return errors.New("invalid size of signature proof")
+	}
+
+	vc1 := proof[header+3*g1Len:]
+	vc2 := proof[header+vc1End:]
+
+	if binary.BigEndian.Uint32(vc1) != g1Len+lenLen+2*frLen ||
+		binary.BigEndian.Uint32(vc1[lenLen+g1Len:]) != 2 ||
+		int(binary.BigEndian.Uint32(vc2[g1Len:])) != 2+hidden {
+		return errors.New("invalid format of signature proof")
+	}
+
+	return nil
 }
 
 func splitMessageIntoLines(msg string, transformBlankNodes bool) [][]byte {
-- 
2.43.0


From e7ecce435d6d7c6f3b9e4a036290913bf17d94a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:32 +0000
Subject: [PATCH 50/89] fix: crypto-ext: restore every blank node of a BBS+
 statement

---
 crypto-ext/verifiers/bbs/verifier.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crypto-ext/verifiers/bbs/verifier.go b/crypto-ext/verifiers/bbs/verifier.go
index ab6e14f..8c30464 100644
--- a/crypto-ext/verifiers/bbs/verifier.go
+++ b/crypto-ext/verifiers/bbs/verifier.go
@@ -208,5 +208,5 @@ func transformFromBlankNode(row string) string {
 	blankNode := row[prefixIndex+emptyNodePrefixLen : sepIndex]
 	suffix := row[sepIndex+1:]
 
-	return fmt.Sprintf("%s%s%s", prefix, blankNode, suffix)
+	return fmt.Sprintf("%s%s%s", prefix, blankNode, transformFromBlankNode(suffix))
 }
-- 
2.43.0


From e24f70ada24f1604764d1a130a56be0962d52e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:33 +0000
Subject: [PATCH 51/89] fix: vermethod: do not use listed methods referenced
 for key agreement only

---
 vermethod/vdrkeyresolver.go | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/vermethod/vdrkeyresolver.go b/vermethod/vdrkeyresolver.go
index 1c12ebf..a70ffe5 100644
--- a/vermethod/vdrkeyresolver.go
+++ b/vermethod/vdrkeyresolver.go
@@ -39,7 +39,13 @@ func (r *VDRResolver) ResolveVerificationMethod(
 		return nil, fmt.Errorf("resolve DID %s: %w", expectedKeyController, err)
 	}
 
-	for _, verifications := range docResolution.DIDDocument.VerificationMethods() {
+	for relationship, verifications := range docResolution.DIDDocument.VerificationMethods() {
+		// a listed method which is referenced for key agreement is usable only if another relationship refers to it too.
+		if relationship == did.VerificationRelationshipGeneral &&
+			isKeyAgreement(docResolution.DIDDocument, verificationMethod) {
+			continue
+		}
+
 		for _, verification := range verifications {
 			if verification.VerificationMethod.ID == verificationMethod &&
 				verification.Relationship != did.KeyAgreement {
@@ -54,3 +60,13 @@ func (r *VDRResolver) ResolveVerificationMethod(
 
 	return nil, fmt.Errorf("public key with KID %s is not found for DID %s", verificationMethod, expectedKeyController)
 }
+
+func isKeyAgreement(doc *did.Doc, verificationMethod string) bool {
+	for i := range doc.KeyAgreement {
+		if doc.KeyAgreement[i].VerificationMethod.ID == verificationMethod {
+			return true
+		}
+	}
+
+	return false
+}
-- 
2.43.0


From 96538a0eea0c4de161ae8a54234b02ace76e079b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:06 +0000
Subject: [PATCH 52/89] fix: verifiable: check the length of related resource
 digests before reading their header

---
 verifiable/related_resource.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/verifiable/related_resource.go b/verifiable/related_resource.go
index 03fdae4..7a4d3f4 100644
--- a/verifiable/related_resource.go
+++ b/verifiable/related_resource.go
@@ -197,7 +197,8 @@ func (r *RelatedResourceValidator) validateHash(
 		return fmt.Errorf("unsupported hash algorithm: %s", hashAlgo)
 	}
 
-	hasHeader := enc == multibase.Base64url && decodedDigest[0] == 0x12 && decodedDigest[1] == 0x20
+	hasHeader := enc == multibase.Base64url && len(decodedDigest) == 2+sha256.Size &&
+		decodedDigest[0] == 0x12 && decodedDigest[1] == 0x20
 	if hasHeader { // skip header
 		decodedDigest = decodedDigest[2:]
 	}
-- 
2.43.0


From 4904b59f44aa473482df10ff7202da5bcd353809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:08 +0000
Subject: [PATCH 53/89] fix: verifiable: check both digests of a related
 resource

---
 verifiable/related_resource.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/verifiable/related_resource.go b/verifiable/related_resource.go
index 7a4d3f4..1080b0b 100644
--- a/verifiable/related_resource.go
+++ b/verifiable/related_resource.go
@@ -165,6 +165,12 @@ func (r *RelatedResourceValidator) validateSingleResource(
 
 		hashAlgo = sp[0]
 		hash = sp[1]
+
+		if res.DigestMultiBase != "" { // both digests have to match.
+			if err := r.validateHash(res.DigestMultiBase, "sha256", res, cachedResource); err != nil {
+				return err
+			}
+		}
 	} else if res.DigestMultiBase != "" {
 		hashAlgo = "sha256"
 		hash = res.DigestMultiBase
-- 
2.43.0


From 39ead9070437012bd3b9505ac721e736385897de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:48 +0000
Subject: [PATCH 54/89] fix: presexch: match descriptors without schema

---
 presexch/api.go | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/presexch/api.go b/presexch/api.go
index 9d8031a..2c518e2 100644
--- a/presexch/api.go
+++ b/presexch/api.go
@@ -218,19 +218,20 @@ func getMatchedCreds( //nolint:gocyclo,funlen
 
 			inputDescriptor := pd.inputDescriptor(mapping.ID)
 
-			var fltErr error
-
-			passed, fltErr := filterSchema(inputDescriptor.Schema, []*verifiable.Credential{vc}, contextLoader)
-			if fltErr != nil {
-				return nil, err
-			}
-
-			if len(passed) == 0 && !opts.DisableSchemaValidation {
-				vcc := vc.Contents()
-
-				return nil, fmt.Errorf(
-					"input descriptor id [%s] requires schemas %+v which do not match vc with @context [%+v] and types [%+v] selected by path [%s]", // nolint:lll
-					inputDescriptor.ID, inputDescriptor.Schema, vcc.Context, vcc.Types, mapping.Path)
+			// Validate schema only for v1
+			if inputDescriptor.Schema != nil {
+				passed, fltErr := filterSchema(inputDescriptor.Schema, []*verifiable.Credential{vc}, contextLoader)
+				if fltErr != nil {
+					return nil, err
+				}
+
+				if len(passed) == 0 && !opts.DisableSchemaValidation {
+					vcc := vc.Contents()
+
+					return nil, fmt.Errorf(
+						"input descriptor id [%s] requires schemas %+v which do not match vc with @context [%+v] and types [%+v] selected by path [%s]", // nolint:lll
+						inputDescriptor.ID, inputDescriptor.Schema, vcc.Context, vcc.Types, mapping.Path)
+				}
 			}
 
 			filtered, _, filterErr := filterConstraints(inputDescriptor.Constraints, []*verifiable.Credential{vc})
-- 
2.43.0


From 985df89c8bdf359849d9fbcaeec2ed447f50e901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:51 +0000
Subject: [PATCH 55/89] fix: presexch: report a failing schema check when
 matching

---
 presexch/api.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/presexch/api.go b/presexch/api.go
index 2c518e2..6a1239e 100644
--- a/presexch/api.go
+++ b/presexch/api.go
@@ -222,7 +222,7 @@ func getMatchedCreds( //nolint:gocyclo,funlen
 			if inputDescriptor.Schema != nil {
 				passed, fltErr := filterSchema(inputDescriptor.Schema, []*verifiable.Credential{vc}, contextLoader)
 				if fltErr != nil {
-					return nil, err
+					return nil, fltErr
 				}
 
 				if len(passed) == 0 && !opts.DisableSchemaValidation {
-- 
2.43.0


From d50c61f4ceb973b40889ce8a974df20abb16f22e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:59 +0000
Subject: [PATCH 56/89] fix: presexch: decide the submission requirements of a
 definition when matching

---
 presexch/api.go | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/presexch/api.go b/presexch/api.go
index 6a1239e..c415530 100644
--- a/presexch/api.go
+++ b/presexch/api.go
@@ -19,6 +19,7 @@ import (
 	"github.com/piprate/json-gold/ld"
 
 	"github.com/trustbloc/vc-go/jwt"
+	"github.com/trustbloc/vc-go/presexch/internal/requirementlogic"
 	"github.com/trustbloc/vc-go/verifiable"
 )
 
@@ -302,7 +303,25 @@ func selectVC(typelessVerifiable interface{},
 
 // Ensures the matched credentials meet the submission requirements.
 func (pd *PresentationDefinition) evalSubmissionRequirements(matched []*MatchValue) error {
-	// TODO support submission requirement rules: https://github.com/hyperledger/aries-framework-go/issues/2109
+	if len(pd.SubmissionRequirements) > 0 {
+		req, err := makeRequirement(pd.SubmissionRequirements, pd.InputDescriptors)
+		if err != nil {
+			return err
+		}
+
+		provided := requirementlogic.DescriptorIDSet{}
+
+		for _, m := range matched {
+			provided.Add(m.DescriptorID)
+		}
+
+		if !req.toLogic().IsSatisfiedBy(provided) {
+			return errors.New("provided credentials do not meet the submission requirements")
+		}
+
+		return nil
+	}
+
 	descriptorIDs := descriptorIDs(pd.InputDescriptors)
 
 	for i := range descriptorIDs {
-- 
2.43.0


From 907af78389120bbece0e0fbd6dcb300121b17ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:04 +0000
Subject: [PATCH 57/89] fix: presexch: let constraints without fields be
 satisfied

---
 presexch/definition.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/presexch/definition.go b/presexch/definition.go
index 218f253..536079a 100644
--- a/presexch/definition.go
+++ b/presexch/definition.go
@@ -962,7 +962,8 @@ func filterConstraints(constraints *Constraints, creds []*verifiable.Credential)
 			continue
 		}
 
-		var applicable bool
+		// without fields there is nothing more to check
+		applicable := len(constraints.Fields) == 0
 
 		var err error
 
-- 
2.43.0


From c28c8dc02706637e174ad87d5af9a3bf6a321626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:28 +0000
Subject: [PATCH 58/89] fix: presexch: accept filters without a type

---
 presexch/definition.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/presexch/definition.go b/presexch/definition.go
index 536079a..67244ff 100644
--- a/presexch/definition.go
+++ b/presexch/definition.go
@@ -1470,7 +1470,7 @@ func filterField(f *Field, credential map[string]interface{}, isJWTCredential bo
 
 	if f.Filter != nil {
 		filter := *f.Filter
-		if *filter.Type == "string" && filter.Format == "date-time" {
+		if filter.Type != nil && *filter.Type == "string" && filter.Format == "date-time" {
 			if val, ok := filter.Minimum.(string); ok && val != "" {
 				if t, err := time.Parse(time.RFC3339, val); err == nil {
 					numFilterType := "number"
-- 
2.43.0


From 1b38875a776a06e515dd11e930d0e7807d9e15fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:47 +0000
Subject: [PATCH 59/89] fix: presexch: apply the keywords next to allOf in a
 filter

---
 presexch/definition.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/presexch/definition.go b/presexch/definition.go
index 67244ff..797249d 100644
--- a/presexch/definition.go
+++ b/presexch/definition.go
@@ -1625,12 +1625,18 @@ func validatePath(schema gojsonschema.JSONLoader, patch interface{}, field *Fiel
 
 	var schemasToExecute []gojsonschema.JSONLoader
 
-	for _, all := range field.Filter.AllOf {
-		schemasToExecute = append(schemasToExecute, gojsonschema.NewGoLoader(all))
+	if len(field.Filter.AllOf) == 0 {
+		schemasToExecute = append(schemasToExecute, schema)
+	} else {
+		// the members of allOf bring their own types, the other keywords next to it apply as well
+		item := field.Filter.FilterItem
+		item.Type = nil
+
+		schemasToExecute = append(schemasToExecute, gojsonschema.NewGoLoader(item))
 	}
 
-	if len(schemasToExecute) == 0 {
-		schemasToExecute = append(schemasToExecute, schema) // fallback
+	for _, all := range field.Filter.AllOf {
+		schemasToExecute = append(schemasToExecute, gojsonschema.NewGoLoader(all))
 	}
 
 	for _, sh := range schemasToExecute {
-- 
2.43.0


From 34e2fe5690f35300d8ebc8ca22314ac06dd397dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:14 +0000
Subject: [PATCH 60/89] fix: presexch: do not take an optional field with an
 invalid value for missing

---
 presexch/definition.go | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/presexch/definition.go b/presexch/definition.go
index 797249d..47febb1 100644
--- a/presexch/definition.go
+++ b/presexch/definition.go
@@ -65,6 +65,8 @@ const (
 
 var errPathNotApplicable = errors.New("path not applicable")
 
+var errNoValue = errors.New("no value")
+
 type (
 	// Selection can be "all" or "pick".
 	Selection string
@@ -1486,13 +1488,20 @@ func filterField(f *Field, credential map[string]interface{}, isJWTCredential bo
 
 	var lastErr error
 
+	absent := f.Optional
+
 	for _, path := range f.Path {
 		err := checkPathValue(isJWTCredential, path, credential, f, schema)
 		if err == nil { // if at least 1 path is valid, we are good
 			return nil
 		}
 
-		lastErr = errors.Join(lastErr, checkPathValue(isJWTCredential, path, credential, f, schema))
+		absent = absent && errors.Is(err, errNoValue)
+		lastErr = errors.Join(lastErr, err)
+	}
+
+	if absent { // an optional field may be missing, but a value it has must be valid
+		return nil
 	}
 
 	return lastErr
@@ -1580,11 +1589,7 @@ func checkPathValue(
 
 	selected := pathParsed.Select(credential)
 	if len(selected) == 0 {
-		if field.Optional { // we are good
-			return nil
-		}
-
-		return errors.Join(errPathNotApplicable, fmt.Errorf("no value found for path %s", path))
+		return errors.Join(errPathNotApplicable, errNoValue, fmt.Errorf("no value found for path %s", path))
 	}
 
 	var raw any
-- 
2.43.0


From 35df67642aa7ce02b7ed2e55fb66f513bb7fb913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:06 +0000
Subject: [PATCH 61/89] fix: presexch: present credentials without IDs, and
 limited copies of one credential, separately

---
 presexch/definition.go | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/presexch/definition.go b/presexch/definition.go
index 47febb1..c060438 100644
--- a/presexch/definition.go
+++ b/presexch/definition.go
@@ -1133,6 +1133,8 @@ func limitDisclosure(filterResults []constraintsFilterResult,
 			if err != nil {
 				return nil, err
 			}
+
+			uniqueCredID = tmpID(credentialContents.ID)
 		}
 
 		result = append(result, &credWrapper{uniqueID: uniqueCredID, vc: credential})
@@ -1707,7 +1709,7 @@ func merge(
 	setOfCredentials map[string][]*credWrapper,
 	separatePresentations bool,
 ) ([]*verifiable.Credential, []*InputDescriptorMapping) {
-	setOfCreds := make(map[string]int)
+	setOfCreds := make(map[interface{}]int)
 
 	var (
 		result      []*verifiable.Credential
@@ -1733,10 +1735,16 @@ func merge(
 		for _, credWrap := range credentials {
 			credential := credWrap.vc
 
-			if _, ok := setOfCreds[credWrap.uniqueID]; !ok {
+			var key interface{} = credWrap.uniqueID
+
+			if credWrap.uniqueID == "" { // the ID of a credential is optional
+				key = credential
+			}
+
+			if _, ok := setOfCreds[key]; !ok {
 				result = append(result, credential)
 
-				setOfCreds[credWrap.uniqueID] = len(result) - 1
+				setOfCreds[key] = len(result) - 1
 			}
 
 			vcFormat := FormatLDPVC
@@ -1754,11 +1762,11 @@ func merge(
 			}
 
 			if separatePresentations {
-				desc.Path = fmt.Sprintf("$[%d]", setOfCreds[credWrap.uniqueID])
+				desc.Path = fmt.Sprintf("$[%d]", setOfCreds[key])
 				desc.PathNested.Path = fmt.Sprintf("$%s.verifiableCredential[0]", jwtVPPath)
 			} else {
 				desc.Path = "$"
-				desc.PathNested.Path = fmt.Sprintf("$%s.verifiableCredential[%d]", jwtVPPath, setOfCreds[credWrap.uniqueID])
+				desc.PathNested.Path = fmt.Sprintf("$%s.verifiableCredential[%d]", jwtVPPath, setOfCreds[key])
 			}
 
 			descriptors = append(descriptors, desc)
-- 
2.43.0


From d593c9501b84fd22a2eaab08f113ad8faa4da935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:09 +0000
Subject: [PATCH 62/89] fix: presexch: choose a format by the credentials that
 satisfy the descriptor

---
 presexch/definition.go | 141 +++++++++++++++++++++++++----------------
 1 file changed, 86 insertions(+), 55 deletions(-)

diff --git a/presexch/definition.go b/presexch/definition.go
index c060438..0184c2a 100644
--- a/presexch/definition.go
+++ b/presexch/definition.go
@@ -850,11 +850,12 @@ func (pd *PresentationDefinition) filterCredentialsThatMatchDescriptor(
 		format = descriptor.Format
 	}
 
-	vpFormat := ""
 	filtered := creds
 
 	if format.notNil() {
-		vpFormat, filtered = filterFormat(format, filtered)
+		filtered = lo.Filter(filtered, func(credential *verifiable.Credential, _ int) bool {
+			return hasAcceptedFormat(format, credential)
+		})
 	}
 
 	var err error
@@ -871,7 +872,13 @@ func (pd *PresentationDefinition) filterCredentialsThatMatchDescriptor(
 		return "", nil, err
 	}
 
-	return vpFormat, filteredByConstraints, nil
+	if !format.notNil() {
+		return "", filteredByConstraints, nil
+	}
+
+	vpFormat, accepted := filterFormat(format, descriptor.Constraints, filteredByConstraints)
+
+	return vpFormat, accepted, nil
 }
 
 func getSubjectIDs(subject interface{}) []string { // nolint: gocyclo
@@ -1023,6 +1030,28 @@ func filterConstraints(constraints *Constraints, creds []*verifiable.Credential)
 	return result, debugCred, nil
 }
 
+func hasPredicate(constraints *Constraints) bool {
+	for _, field := range constraints.Fields {
+		if field.Predicate.isRequired() {
+			return true
+		}
+	}
+
+	return false
+}
+
+// canLimitDisclosure checks that the disclosure of the credential can be limited, when it has to be.
+func canLimitDisclosure(constraints *Constraints, credential *verifiable.Credential) bool {
+	if !constraints.LimitDisclosure.isRequired() || hasPredicate(constraints) ||
+		supportsSelectiveDisclosure(credential) {
+		return true
+	}
+
+	contents := credential.Contents()
+
+	return subjectIsIssuer(&contents)
+}
+
 // nolint: gocyclo, funlen
 func limitDisclosure(filterResults []constraintsFilterResult,
 	sdBBSProofCreator *verifiable.BBSProofCreator, opts ...verifiable.CredentialOpt) ([]*credWrapper, error) {
@@ -1040,16 +1069,9 @@ func limitDisclosure(filterResults []constraintsFilterResult,
 			continue
 		}
 
-		var predicate bool
+		predicate := hasPredicate(constraints)
 
-		for _, field := range constraints.Fields {
-			if field.Predicate.isRequired() {
-				predicate = true
-			}
-		}
-
-		if constraints.LimitDisclosure.isRequired() &&
-			!(predicate || supportsSelectiveDisclosure(credential) || subjectIsIssuer(&credentialContents)) {
+		if !canLimitDisclosure(constraints, credential) {
 			continue
 		}
 
@@ -1784,70 +1806,79 @@ func (a byID) Len() int           { return len(a) }
 func (a byID) Less(i, j int) bool { return a[i].ID < a[j].ID }
 func (a byID) Swap(i, j int)      { a[i], a[j] = a[j], a[i] }
 
-//nolint:funlen,gocyclo
-func filterFormat(format *Format, credentials []*verifiable.Credential) (string, []*verifiable.Credential) {
-	var ldpCreds, ldpvcCreds, ldpvpCreds, jwtCreds, jwtvcCreds, jwtvpCreds []*verifiable.Credential
-
-	for _, credential := range credentials {
-		if credByProof(credential, format.Ldp) {
-			ldpCreds = append(ldpCreds, credential)
-		}
-
-		if credByProof(credential, format.LdpVC) {
-			ldpvcCreds = append(ldpvcCreds, credential)
-		}
-
-		if credByProof(credential, format.LdpVP) {
-			ldpvpCreds = append(ldpvpCreds, credential)
-		}
+// filterFormat keeps the credentials of the first accepted format that has credentials the descriptor can take.
+func filterFormat(
+	format *Format,
+	constraints *Constraints,
+	candidates []constraintsFilterResult,
+) (string, []constraintsFilterResult) {
+	var (
+		firstFormat string
+		first       []constraintsFilterResult
+	)
 
+	for _, accepted := range []struct {
+		name string
+		ldp  *LdpType
+		jwt  *JwtType
+	}{
+		{name: FormatLDP, ldp: format.Ldp},
+		{name: FormatLDPVC, ldp: format.LdpVC},
+		{name: FormatLDPVP, ldp: format.LdpVP},
+		{name: FormatJWT, jwt: format.Jwt},
+		{name: FormatJWTVC, jwt: format.JwtVC},
+		{name: FormatJWTVP, jwt: format.JwtVP},
+	} {
 		var (
-			alg    string
-			hasAlg bool
+			matched     []constraintsFilterResult
+			presentable bool
 		)
 
-		if credential.IsJWT() {
-			alg, hasAlg = credential.JWTHeaders().Algorithm()
-		}
+		for _, candidate := range candidates {
+			if !credByProof(candidate.credential, accepted.ldp) && !credByAlg(candidate.credential, accepted.jwt) {
+				continue
+			}
 
-		if hasAlg && algMatch(alg, format.Jwt) {
-			jwtCreds = append(jwtCreds, credential)
+			matched = append(matched, candidate)
+			presentable = presentable || constraints == nil || canLimitDisclosure(constraints, candidate.credential)
 		}
 
-		if hasAlg && algMatch(alg, format.JwtVC) {
-			jwtvcCreds = append(jwtvcCreds, credential)
+		if presentable {
+			return accepted.name, matched
 		}
 
-		if hasAlg && algMatch(alg, format.JwtVP) {
-			jwtvpCreds = append(jwtvpCreds, credential)
+		if firstFormat == "" && len(matched) > 0 {
+			firstFormat, first = accepted.name, matched
 		}
 	}
 
-	if len(ldpCreds) > 0 {
-		return FormatLDP, ldpCreds
-	}
+	return firstFormat, first
+}
 
-	if len(ldpvcCreds) > 0 {
-		return FormatLDPVC, ldpvcCreds
+func hasAcceptedFormat(format *Format, credential *verifiable.Credential) bool {
+	for _, ldp := range []*LdpType{format.Ldp, format.LdpVC, format.LdpVP} {
+		if credByProof(credential, ldp) {
+			return true
+		}
 	}
 
-	if len(ldpvpCreds) > 0 {
-		return FormatLDPVP, ldpvpCreds
+	for _, jwt := range []*JwtType{format.Jwt, format.JwtVC, format.JwtVP} {
+		if credByAlg(credential, jwt) {
+			return true
+		}
 	}
 
-	if len(jwtCreds) > 0 {
-		return FormatJWT, jwtCreds
-	}
+	return false
+}
 
-	if len(jwtvcCreds) > 0 {
-		return FormatJWTVC, jwtvcCreds
+func credByAlg(credential *verifiable.Credential, jwtType *JwtType) bool {
+	if !credential.IsJWT() {
+		return false
 	}
 
-	if len(jwtvpCreds) > 0 {
-		return FormatJWTVP, jwtvpCreds
-	}
+	alg, hasAlg := credential.JWTHeaders().Algorithm()
 
-	return "", nil
+	return hasAlg && algMatch(alg, jwtType)
 }
 
 func algMatch(credAlg string, jwtType *JwtType) bool {
-- 
2.43.0


From 675a43b9b597c334c60ad0a9192634c4baae10c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:10 +0000
Subject: [PATCH 63/89] fix: presexch: keep the numbers of credentials embedded
 in JWT presentations

---
 presexch/api.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/presexch/api.go b/presexch/api.go
index c415530..af23c72 100644
--- a/presexch/api.go
+++ b/presexch/api.go
@@ -510,12 +510,15 @@ func stringsContain(s []string, val string) bool {
 func getTypelessVP(vp *verifiable.Presentation) (interface{}, error) {
 	switch {
 	case vp.IsJWT():
-		token, _, parseErr := jwt.Parse(vp.JWT)
+		// decoded as plain JSON: the payload of the token holds numbers in a type that other packages take for strings
+		var claims map[string]interface{}
+
+		_, _, parseErr := jwt.Parse(vp.JWT, jwt.DecodeClaimsTo(&claims), jwt.WithIgnoreClaimsMapDecoding(true))
 		if parseErr != nil {
 			return nil, fmt.Errorf("failed to parse vp.JWT: %w", parseErr)
 		}
 
-		return token.Payload, nil
+		return claims, nil
 	case vp.IsCWT():
 		return vp.CWT.VPMap, nil
 	default:
-- 
2.43.0


From 977eeb58fb6f1eff6050dbd4de7fc013933553f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:33 +0000
Subject: [PATCH 64/89] fix: presexch: add no null members to limited
 credentials, and keep validFrom

---
 presexch/definition.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/presexch/definition.go b/presexch/definition.go
index 0184c2a..6165f88 100644
--- a/presexch/definition.go
+++ b/presexch/definition.go
@@ -1100,7 +1100,14 @@ func limitDisclosure(filterResults []constraintsFilterResult,
 					"type",
 					"@context",
 					"issuer",
-					"issuanceDate")
+					"issuanceDate",
+					"validFrom")
+
+				for fld, val := range templateObj {
+					if val == nil { // not in the credential
+						delete(templateObj, fld)
+					}
+				}
 
 				templateObj["credentialSubject"] = copyOnlySubjectIDs(credentialContents.Subject)
 
-- 
2.43.0


From a4ba06cb7e4d616eb2b9d68af257cda74ab4a988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:28 +0000
Subject: [PATCH 65/89] fix: presexch: limit disclosure to exactly the values
 that are asked for

---
 presexch/definition.go | 442 ++++++++++++++++++++++++++++++-----------
 1 file changed, 323 insertions(+), 119 deletions(-)

diff --git a/presexch/definition.go b/presexch/definition.go
index 6165f88..c0abcbd 100644
--- a/presexch/definition.go
+++ b/presexch/definition.go
@@ -7,7 +7,7 @@ SPDX-License-Identifier: Apache-2.0
 package presexch
 
 import (
-	"bytes"
+	"encoding/base64"
 	"encoding/json"
 	"errors"
 	"fmt"
@@ -17,7 +17,6 @@ import (
 	"time"
 
 	"github.com/google/uuid"
-	jsonpathkeys "github.com/kawamuray/jsonpath"
 	"github.com/piprate/json-gold/ld"
 	"github.com/samber/lo"
 	"github.com/tidwall/gjson"
@@ -31,6 +30,7 @@ import (
 	"github.com/trustbloc/vc-go/verifiable"
 
 	pathv2 "github.com/theory/jsonpath"
+	"github.com/theory/jsonpath/spec"
 )
 
 const (
@@ -1111,6 +1111,10 @@ func limitDisclosure(filterResults []constraintsFilterResult,
 
 				templateObj["credentialSubject"] = copyOnlySubjectIDs(credentialContents.Subject)
 
+				if len(credentialContents.Subject) == 1 && gjson.GetBytes(credentialSrc, "credentialSubject").IsArray() {
+					templateObj["credentialSubject"] = []interface{}{templateObj["credentialSubject"]}
+				}
+
 				template, err = json.Marshal(templateObj)
 				if err != nil {
 					return nil, err
@@ -1172,7 +1176,7 @@ func limitDisclosure(filterResults []constraintsFilterResult,
 	return result, nil
 }
 
-// nolint: gocyclo,funlen,gocognit
+// getLimitedDisclosures selects the disclosures that are needed to show the values the fields ask for.
 func getLimitedDisclosures(constraints *Constraints, displaySrc []byte, credential *verifiable.Credential) ([]*common.DisclosureClaim, error) { // nolint:lll
 	credentialContents := credential.Contents()
 
@@ -1181,63 +1185,213 @@ func getLimitedDisclosures(constraints *Constraints, displaySrc []byte, credenti
 		return nil, err
 	}
 
-	var limitedDisclosures []*common.DisclosureClaim
+	var root interface{}
 
-	for _, f := range constraints.Fields {
-		jPaths, err := compactArrayPaths(f.Path, displaySrc)
-		if err != nil {
+	if err = json.Unmarshal(credentialSrc, &root); err != nil {
+		return nil, err
+	}
+
+	disclosures := credential.SDJWTDisclosures()
+	selector := &disclosureSelector{
+		disclosures: map[string]*common.DisclosureClaim{},
+		selected:    map[*common.DisclosureClaim]bool{},
+	}
+
+	for _, dc := range disclosures {
+		digest, e := common.GetHash(*credentialContents.SDJWTHashAlg, dc.Disclosure)
+		if e != nil {
+			return nil, e
+		}
+
+		selector.disclosures[digest] = dc
+	}
+
+	values, err := selectValues(constraints.Fields, displaySrc, credential.IsJWT())
+	if err != nil {
+		return nil, err
+	}
+
+	for _, value := range values {
+		if err = selector.selectPath(root, value.path); err != nil {
 			return nil, err
 		}
+	}
 
-		for _, path := range jPaths {
-			if strings.Contains(path.newPath, credentialSchema) {
-				continue
-			}
+	return lo.Filter(disclosures, func(dc *common.DisclosureClaim, _ int) bool {
+		return selector.selected[dc]
+	}), nil
+}
 
-			parentPath, key := splitLast(path.oldPath, ".")
+// disclosureSelector collects the disclosures of the values of an SD-JWT.
+type disclosureSelector struct {
+	disclosures map[string]*common.DisclosureClaim // by digest
+	selected    map[*common.DisclosureClaim]bool
+}
 
-			parentObj, ok := gjson.GetBytes(credentialSrc, parentPath).Value().(map[string]interface{})
-			if !ok {
-				// no selective disclosures at this level, so nothing to add to limited disclosures
-				continue
-			}
+// selectPath selects the disclosures on the way to the value with the given path, and those inside of it.
+func (s *disclosureSelector) selectPath(node interface{}, path spec.NormalizedPath) error {
+	if len(path) == 0 {
+		return s.selectAll(node)
+	}
 
-			digests, err := common.GetDisclosureDigests(parentObj)
-			if err != nil {
-				return nil, err
-			}
+	var (
+		value interface{}
+		dc    *common.DisclosureClaim
+		err   error
+	)
 
-			disclosures := credential.SDJWTDisclosures()
-			disclosuresMap := map[string]*common.DisclosureClaim{}
+	switch step := path[0].(type) {
+	case spec.Name:
+		obj, _ := node.(map[string]interface{}) //nolint:errcheck
 
-			for _, dc := range disclosures {
-				disclosuresMap[dc.Digest] = dc
-			}
+		value, dc, err = s.member(obj, string(step))
+	case spec.Index:
+		arr, _ := node.([]interface{}) //nolint:errcheck
 
-			arrayElements := ExtractArrayValuesForSDJWTV5(parentObj)
-			for _, elem := range arrayElements {
-				dis, disOk := disclosuresMap[elem]
-				if disOk {
-					limitedDisclosures = append(limitedDisclosures, dis)
-				}
-			}
+		value, dc, err = s.element(arr, int(step))
+	}
 
-			for _, dc := range disclosures {
-				if dc.Name == key {
-					digest, err := common.GetHash(*credentialContents.SDJWTHashAlg, dc.Disclosure)
-					if err != nil {
-						return nil, err
-					}
+	if err != nil {
+		return err
+	}
 
-					if _, ok := digests[digest]; ok {
-						limitedDisclosures = append(limitedDisclosures, dc)
-					}
-				}
+	if dc != nil {
+		s.selected[dc] = true
+	}
+
+	return s.selectPath(value, path[1:])
+}
+
+// selectAll selects the disclosures inside of a value.
+func (s *disclosureSelector) selectAll(node interface{}) error {
+	var found []*common.DisclosureClaim
+
+	switch v := node.(type) {
+	case map[string]interface{}:
+		for _, digest := range digestsOf(v) {
+			found = append(found, s.disclosures[digest])
+		}
+
+		for _, value := range v {
+			if err := s.selectAll(value); err != nil {
+				return err
+			}
+		}
+	case []interface{}:
+		for _, elem := range v {
+			if digest, ok := elementDigest(elem); ok {
+				found = append(found, s.disclosures[digest])
 			}
 		}
 	}
 
-	return limitedDisclosures, nil
+	for _, dc := range found {
+		if dc == nil {
+			continue
+		}
+
+		s.selected[dc] = true
+
+		value, err := disclosedValue(dc)
+		if err != nil {
+			return err
+		}
+
+		if err = s.selectAll(value); err != nil {
+			return err
+		}
+	}
+
+	return nil
+}
+
+func (s *disclosureSelector) member(
+	obj map[string]interface{}, name string) (interface{}, *common.DisclosureClaim, error) {
+	if value, ok := obj[name]; ok {
+		return value, nil, nil
+	}
+
+	for _, digest := range digestsOf(obj) {
+		if dc, ok := s.disclosures[digest]; ok && dc.Name == name {
+			value, err := disclosedValue(dc)
+
+			return value, dc, err
+		}
+	}
+
+	return nil, nil, nil
+}
+
+// element finds an element of an array by its index among the elements that can be shown.
+func (s *disclosureSelector) element(arr []interface{}, index int) (interface{}, *common.DisclosureClaim, error) {
+	for _, elem := range arr {
+		digest, hidden := elementDigest(elem)
+		dc := s.disclosures[digest]
+
+		if hidden && dc == nil {
+			continue
+		}
+
+		if index > 0 {
+			index--
+			continue
+		}
+
+		if !hidden {
+			return elem, nil, nil
+		}
+
+		value, err := disclosedValue(dc)
+
+		return value, dc, err
+	}
+
+	return nil, nil, nil
+}
+
+func digestsOf(obj map[string]interface{}) []string {
+	list, _ := obj[common.SDKey].([]interface{}) //nolint:errcheck
+
+	var digests []string
+
+	for _, entry := range list {
+		if digest, ok := entry.(string); ok {
+			digests = append(digests, digest)
+		}
+	}
+
+	return digests
+}
+
+func elementDigest(elem interface{}) (string, bool) {
+	obj, ok := elem.(map[string]interface{})
+	if !ok {
+		return "", false
+	}
+
+	digest, ok := obj[common.ArrayElementDigestKey].(string)
+
+	return digest, ok
+}
+
+// disclosedValue returns the value of a disclosure as it was issued: it may have digests of other disclosures.
+func disclosedValue(dc *common.DisclosureClaim) (interface{}, error) {
+	decoded, err := base64.RawURLEncoding.DecodeString(dc.Disclosure)
+	if err != nil {
+		return nil, fmt.Errorf("decode disclosure: %w", err)
+	}
+
+	var elements []interface{}
+
+	if err = json.Unmarshal(decoded, &elements); err != nil {
+		return nil, fmt.Errorf("decode disclosure: %w", err)
+	}
+
+	if len(elements) == 0 {
+		return nil, errors.New("decode disclosure: empty")
+	}
+
+	return elements[len(elements)-1], nil
 }
 
 // ExtractArrayValuesForSDJWTV5 extracts array values for SD JWT V5.
@@ -1317,34 +1471,30 @@ func createNewCredential(constraints *Constraints, src, limitedCred []byte,
 		explicitPaths       = make(map[string]bool)
 	)
 
-	for _, f := range constraints.Fields {
-		jPaths, err := compactArrayPaths(f.Path, src)
-		if err != nil {
-			return nil, err
-		}
+	values, err := selectValues(constraints.Fields, src, credential.IsJWT())
+	if err != nil {
+		return nil, err
+	}
 
-		for _, path := range jPaths {
-			if strings.Contains(path.newPath, credentialSchema) {
-				continue
-			}
+	builder := &pathBuilder{compact: constraints.LimitDisclosure.isRequired(), indices: map[string]int{}}
 
-			var val interface{} = true
+	for _, selected := range values {
+		path := builder.build(selected.path)
+		val := selected.value
 
-			if f.Predicate.isRequired() {
-				modifiedByPredicate = true
-			} else {
-				val = gjson.GetBytes(src, path.oldPath).Value()
-			}
+		if selected.field.Predicate.isRequired() {
+			modifiedByPredicate = true
+			val = true
+		}
 
-			if doBBS {
-				explicitPath, _ := splitLast(path.newPath, ".")
-				explicitPaths[explicitPath] = true
-			}
+		if doBBS {
+			explicitPath, _ := splitLast(path, ".")
+			explicitPaths[explicitPath] = true
+		}
 
-			limitedCred, err = sjson.SetBytes(limitedCred, path.newPath, val)
-			if err != nil {
-				return nil, err
-			}
+		limitedCred, err = sjson.SetBytes(limitedCred, path, val)
+		if err != nil {
+			return nil, err
 		}
 	}
 
@@ -1377,34 +1527,49 @@ func splitLast(text, split string) (string, string) {
 	return text[:lastIndex], text[lastIndex+len(split):]
 }
 
-// compactArrayPaths adjusts array indices in the given JSON paths, as if the corresponding JSON object has all
-// unmentioned array elements removed. Input paths are in JSONPath syntax, while output paths are in dot-separated
-// syntax, eg, `foo.1.bar.3`.
-func compactArrayPaths(keys []string, src []byte) ([]*pathTransform, error) {
-	paths, err := jsonpathkeys.ParsePaths(keys...)
-	if err != nil {
-		return nil, err
-	}
+// selectedValue is a value of a credential that a field asks for.
+type selectedValue struct {
+	path  spec.NormalizedPath
+	value interface{}
+	field *Field
+}
 
-	eval, err := jsonpathkeys.EvalPathsInReader(bytes.NewReader(src), paths)
-	if err != nil {
+// selectValues finds the values that the fields ask for, in the order in which they are in the credential.
+// A value inside of another one that is asked for is left out.
+func selectValues(fields []*Field, src []byte, isJWTCredential bool) ([]*selectedValue, error) {
+	var credential map[string]interface{}
+
+	if err := json.Unmarshal(src, &credential); err != nil {
 		return nil, err
 	}
 
-	var jPaths []*pathTransform
+	var values []*selectedValue
 
-	set := map[string]int{}
+	for _, field := range fields {
+		for _, path := range field.Path {
+			parsed, err := parseFieldPath(isJWTCredential, path, credential)
+			if err != nil {
+				continue // the field has its value on another path
+			}
 
-	for {
-		result, ok := eval.Next()
-		if !ok {
-			break
+			for _, node := range parsed.SelectLocated(credential) {
+				if !strings.Contains(node.Path.String(), credentialSchema) {
+					values = append(values, &selectedValue{path: node.Path, value: node.Node, field: field})
+				}
+			}
 		}
-
-		jPaths = append(jPaths, getPath(result.Keys, set))
 	}
 
-	return jPaths, nil
+	sort.SliceStable(values, func(i, j int) bool {
+		return values[i].path.Compare(values[j].path) < 0
+	})
+
+	return lo.Filter(values, func(value *selectedValue, _ int) bool {
+		return !lo.ContainsBy(values, func(other *selectedValue) bool {
+			return !other.field.Predicate.isRequired() && len(other.path) < len(value.path) &&
+				other.path.Compare(value.path[:len(other.path)]) == 0
+		})
+	}), nil
 }
 
 func enhanceRevealDoc(explicitPaths map[string]bool, revealDoc, vcBytes []byte) ([]byte, error) {
@@ -1560,14 +1725,10 @@ func convertToRFC9535Format(path string) string {
 	return builder.String()
 }
 
-//nolint:gocyclo,funlen
-func checkPathValue(
-	isJWTCredential bool,
-	path string,
-	credential map[string]any,
-	field *Field,
-	schema gojsonschema.JSONLoader,
-) error {
+// parseFieldPath parses the path of a field, as it applies to the given credential.
+//
+//nolint:gocyclo
+func parseFieldPath(isJWTCredential bool, path string, credential map[string]any) (*pathv2.Path, error) {
 	if isJWTCredential { // compatibility
 		replacements := map[string]string{
 			"$.vc.":   "$.",
@@ -1590,7 +1751,7 @@ func checkPathValue(
 	}
 
 	if !strings.HasPrefix(path, "$") && !strings.HasPrefix("@", path) {
-		return errors.New("expected $ or @ at start of path")
+		return nil, errors.New("expected $ or @ at start of path")
 	}
 
 	var pathParsed *pathv2.Path
@@ -1615,7 +1776,22 @@ func checkPathValue(
 	}
 
 	if pathErr != nil {
-		return pathErr
+		return nil, pathErr
+	}
+
+	return pathParsed, nil
+}
+
+func checkPathValue(
+	isJWTCredential bool,
+	path string,
+	credential map[string]any,
+	field *Field,
+	schema gojsonschema.JSONLoader,
+) error {
+	pathParsed, err := parseFieldPath(isJWTCredential, path, credential)
+	if err != nil {
+		return err
 	}
 
 	selected := pathParsed.Select(credential)
@@ -1699,37 +1875,65 @@ func isDateField(paths []string) bool {
 	return false
 }
 
-type pathTransform struct {
-	newPath string
-	oldPath string
+// pathBuilder writes the paths of values in dot-separated syntax, eg, `foo.1.bar.3`.
+type pathBuilder struct {
+	// compact adjusts array indices, as if the JSON object has all unmentioned array elements removed.
+	compact bool
+	indices map[string]int
 }
 
-func getPath(keys []interface{}, set map[string]int) *pathTransform {
-	var (
-		newPath      []string
-		originalPath []string
-	)
+// build writes one path. With compact set, the paths have to come in the order of their JSON object.
+func (b *pathBuilder) build(path spec.NormalizedPath) string {
+	parts := make([]string, len(path))
 
-	for _, k := range keys {
-		switch v := k.(type) {
-		case int:
-			counterKey := strings.Join(originalPath, ".")
-			originalPath = append(originalPath, strconv.Itoa(v))
-			mapperKey := strings.Join(originalPath, ".")
+	for i, selector := range path {
+		switch v := selector.(type) {
+		case spec.Index:
+			parts[i] = strconv.Itoa(b.index(path[:i], v))
+		case spec.Name:
+			parts[i] = escapeName(string(v))
+		}
+	}
 
-			if _, ok := set[mapperKey]; !ok {
-				set[mapperKey] = set[counterKey]
-				set[counterKey]++
-			}
+	return strings.Join(parts, ".")
+}
+
+func (b *pathBuilder) index(array spec.NormalizedPath, index spec.Index) int {
+	// the members that a limited credential always has keep all their elements
+	if !b.compact || (len(array) == 1 && lo.Contains([]spec.NormalSelector{
+		spec.Name("@context"), spec.Name("type"), spec.Name("credentialSubject"),
+	}, array[0])) {
+		return int(index)
+	}
 
-			newPath = append(newPath, strconv.Itoa(set[mapperKey]))
-		default:
-			originalPath = append(originalPath, fmt.Sprintf("%s", v))
-			newPath = append(newPath, fmt.Sprintf("%s", v))
+	counterKey := array.String()
+	elementKey := fmt.Sprintf("%s[%d]", counterKey, index)
+
+	if _, ok := b.indices[elementKey]; !ok {
+		b.indices[elementKey] = b.indices[counterKey]
+		b.indices[counterKey]++
+	}
+
+	return b.indices[elementKey]
+}
+
+// escapeName escapes the characters of a name that have a meaning in dot-separated paths.
+func escapeName(name string) string {
+	if _, err := strconv.Atoi(name); err == nil {
+		return ":" + name // not an array index
+	}
+
+	var builder strings.Builder
+
+	for _, c := range name {
+		if strings.ContainsRune(".*?#|@!{}[]:\\", c) {
+			builder.WriteByte('\\')
 		}
+
+		builder.WriteRune(c)
 	}
 
-	return &pathTransform{newPath: strings.Join(newPath, "."), oldPath: strings.Join(originalPath, ".")}
+	return builder.String()
 }
 
 //nolint:funlen
-- 
2.43.0


From 7e2e60b6ee655dc9879f457b549703a6c45701b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:01 +0000
Subject: [PATCH 66/89] fix: verifiable: keep challenge and domain in derived
 BBS+ proofs

---
 verifiable/bbs_selective_disclosure.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/verifiable/bbs_selective_disclosure.go b/verifiable/bbs_selective_disclosure.go
index 4cb668c..04c73e3 100644
--- a/verifiable/bbs_selective_disclosure.go
+++ b/verifiable/bbs_selective_disclosure.go
@@ -126,6 +126,13 @@ func generateSignatureProof(blsSignature map[string]interface{}, creator *BBSPro
 		"proofValue":         base64.StdEncoding.EncodeToString(signatureProofBytes),
 	}
 
+	// These are signed, too.
+	for _, k := range []string{"challenge", "domain"} {
+		if v, ok := blsSignature[k]; ok {
+			derivedProof[k] = v
+		}
+	}
+
 	return derivedProof, nil
 }
 
-- 
2.43.0


From 16728f7f8fb42a8fa6466bdb7dbf640f1556a9ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:01 +0000
Subject: [PATCH 67/89] fix: verifiable: refuse to reveal statements a BBS+
 credential does not have

---
 verifiable/bbs_selective_disclosure.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/verifiable/bbs_selective_disclosure.go b/verifiable/bbs_selective_disclosure.go
index 04c73e3..d71a2d6 100644
--- a/verifiable/bbs_selective_disclosure.go
+++ b/verifiable/bbs_selective_disclosure.go
@@ -241,7 +241,12 @@ func buildDocVerificationData(docCompacted, revealDoc map[string]interface{},
 
 	for i := range revealDocumentStatements {
 		statement := revealDocumentStatements[i]
-		statementInd := documentStatementsMap[statement]
+
+		statementInd, ok := documentStatementsMap[statement]
+		if !ok {
+			return nil, fmt.Errorf("revealed statement is not in the document: %s", statement)
+		}
+
 		revealIndexes[i] = statementInd
 	}
 
-- 
2.43.0


From 8a8b3ff9354c6860c56f46ef9f4cc2445b914381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:01 +0000
Subject: [PATCH 68/89] fix: crypto-ext: leave literals of BBS+ statements
 alone

---
 crypto-ext/verifiers/bbs/verifier.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/crypto-ext/verifiers/bbs/verifier.go b/crypto-ext/verifiers/bbs/verifier.go
index 8c30464..6b2e2d0 100644
--- a/crypto-ext/verifiers/bbs/verifier.go
+++ b/crypto-ext/verifiers/bbs/verifier.go
@@ -197,6 +197,13 @@ func transformFromBlankNode(row string) string {
 		return row
 	}
 
+	// A literal stays as it is, whatever it looks like.
+	if literal := strings.IndexByte(row, '"'); literal >= 0 && literal < prefixIndex {
+		end := strings.LastIndexByte(row, '"') + 1
+
+		return row[:end] + transformFromBlankNode(row[end:])
+	}
+
 	sepIndex := strings.Index(row[prefixIndex:], ">")
 	if sepIndex < 0 {
 		return row
-- 
2.43.0


From 40e112740ef7b846859edfa8d34398cb8a2f2772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:01 +0000
Subject: [PATCH 69/89] fix: crypto-ext: restore the signed order of BBS+
 statements

---
 crypto-ext/verifiers/bbs/verifier.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/crypto-ext/verifiers/bbs/verifier.go b/crypto-ext/verifiers/bbs/verifier.go
index 6b2e2d0..bf0afd0 100644
--- a/crypto-ext/verifiers/bbs/verifier.go
+++ b/crypto-ext/verifiers/bbs/verifier.go
@@ -11,6 +11,7 @@ import (
 	"encoding/binary"
 	"errors"
 	"fmt"
+	"slices"
 	"strings"
 
 	"github.com/trustbloc/bbs-signature-go/bbs12381g2pub"
@@ -169,12 +170,20 @@ func splitMessageIntoLines(msg string, transformBlankNodes bool) [][]byte {
 	rows := strings.Split(msg, "\n")
 
 	msgs := make([][]byte, 0, len(rows))
+	docStart, previous := -1, ""
 
 	for _, row := range rows {
 		if strings.TrimSpace(row) == "" {
 			continue
 		}
 
+		// The ordered statements of the proof are followed by the ordered statements of the document.
+		if docStart < 0 && row < previous {
+			docStart = len(msgs)
+		}
+
+		previous = row
+
 		if transformBlankNodes {
 			row = transformFromBlankNode(row)
 		}
@@ -182,6 +191,11 @@ func splitMessageIntoLines(msg string, transformBlankNodes bool) [][]byte {
 		msgs = append(msgs, []byte(row))
 	}
 
+	if transformBlankNodes && docStart >= 0 {
+		// The statements of the document were signed in the order they have with their blank nodes restored.
+		slices.SortStableFunc(msgs[docStart:], bytes.Compare)
+	}
+
 	return msgs
 }
 
-- 
2.43.0


From e7c1cd4a66c49045203433bc8fcf9ac270263333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:19 +0000
Subject: [PATCH 70/89] fix: presexch: limit disclosure of BBS+ credentials to
 the values that are asked for

---
 presexch/definition.go | 161 ++++++++++++++++++-----------------------
 1 file changed, 71 insertions(+), 90 deletions(-)

diff --git a/presexch/definition.go b/presexch/definition.go
index c0abcbd..318e366 100644
--- a/presexch/definition.go
+++ b/presexch/definition.go
@@ -1465,17 +1465,16 @@ func tmpID(id string) string {
 func createNewCredential(constraints *Constraints, src, limitedCred []byte,
 	credential *verifiable.Credential, sdBBSProofCreator *verifiable.BBSProofCreator,
 	opts ...verifiable.CredentialOpt) (*verifiable.Credential, error) {
-	var (
-		doBBS               = hasBBS(credential) && constraints.LimitDisclosure.isRequired()
-		modifiedByPredicate bool
-		explicitPaths       = make(map[string]bool)
-	)
-
 	values, err := selectValues(constraints.Fields, src, credential.IsJWT())
 	if err != nil {
 		return nil, err
 	}
 
+	modifiedByPredicate := lo.ContainsBy(values, func(selected *selectedValue) bool {
+		return selected.field.Predicate.isRequired()
+	})
+	doBBS := hasBBS(credential) && constraints.LimitDisclosure.isRequired() && !modifiedByPredicate
+
 	builder := &pathBuilder{compact: constraints.LimitDisclosure.isRequired(), indices: map[string]int{}}
 
 	for _, selected := range values {
@@ -1483,13 +1482,11 @@ func createNewCredential(constraints *Constraints, src, limitedCred []byte,
 		val := selected.value
 
 		if selected.field.Predicate.isRequired() {
-			modifiedByPredicate = true
 			val = true
 		}
 
-		if doBBS {
-			explicitPath, _ := splitLast(path, ".")
-			explicitPaths[explicitPath] = true
+		if doBBS && canRevealWhole(selected.path) {
+			val = map[string]interface{}{revealWhole: true}
 		}
 
 		limitedCred, err = sjson.SetBytes(limitedCred, path, val)
@@ -1498,33 +1495,84 @@ func createNewCredential(constraints *Constraints, src, limitedCred []byte,
 		}
 	}
 
-	if !doBBS || modifiedByPredicate {
+	if !doBBS {
 		opts = append(opts[:len(opts):len(opts)], verifiable.WithDisabledProofCheck())
 		return verifiable.ParseCredential(limitedCred, opts...)
 	}
 
-	revealDoc, err := enhanceRevealDoc(explicitPaths, limitedCred, src)
-	if err != nil {
+	var template, doc map[string]interface{}
+
+	if err := json.Unmarshal(limitedCred, &template); err != nil {
 		return nil, err
 	}
 
-	var doc map[string]interface{}
-	if err := json.Unmarshal(revealDoc, &doc); err != nil {
+	if err := json.Unmarshal(src, &doc); err != nil {
 		return nil, err
 	}
 
-	return credential.GenerateBBSSelectiveDisclosure(doc, []byte(uuid.New().String()), sdBBSProofCreator, opts...)
+	for _, fld := range []string{"issuer", "issuanceDate", "validFrom"} {
+		if _, ok := template[fld]; ok {
+			template[fld] = map[string]interface{}{revealWhole: true}
+		}
+	}
+
+	return credential.GenerateBBSSelectiveDisclosure(revealFrame(template, doc),
+		[]byte(uuid.New().String()), sdBBSProofCreator, opts...)
 }
 
-// splitLast finds the final occurrence of split in text, and returns (everything before, everything after).
-// If split is not found in text, then splitLast returns ("", text).
-func splitLast(text, split string) (string, string) {
-	lastIndex := strings.LastIndex(text, split)
-	if lastIndex < 0 {
-		return "", text
+// revealWhole marks the place of a value that is revealed as a whole.
+const revealWhole = "@whole"
+
+// revealFrame makes the frame that reveals the members of a template, and nothing else.
+func revealFrame(template, src map[string]interface{}) map[string]interface{} {
+	if _, ok := template[revealWhole]; ok {
+		return map[string]interface{}{}
+	}
+
+	frame := map[string]interface{}{"@explicit": true}
+
+	for _, fld := range []string{"type", "@context"} {
+		if val, ok := src[fld]; ok {
+			frame[fld] = val
+		}
+	}
+
+	for fld, val := range template {
+		if fld == "type" || fld == "@context" {
+			frame[fld] = val
+
+			continue
+		}
+
+		srcVal, _ := src[fld].(map[string]interface{})
+
+		switch v := val.(type) {
+		case map[string]interface{}:
+			frame[fld] = revealFrame(v, srcVal)
+		case []interface{}:
+			frame[fld] = lo.Map(v, func(elem interface{}, _ int) interface{} {
+				if elemMap, ok := elem.(map[string]interface{}); ok {
+					return revealFrame(elemMap, nil)
+				}
+
+				return elem
+			})
+		default:
+			frame[fld] = v
+		}
 	}
 
-	return text[:lastIndex], text[lastIndex+len(split):]
+	return frame
+}
+
+// canRevealWhole checks that a value can be framed without telling what it is: it can neither be found in an array
+// then, nor be a keyword.
+func canRevealWhole(path spec.NormalizedPath) bool {
+	return lo.EveryBy(path, func(selector spec.NormalSelector) bool {
+		name, ok := selector.(spec.Name)
+
+		return ok && name != "id" && name != "type" && !strings.HasPrefix(string(name), "@")
+	})
 }
 
 // selectedValue is a value of a credential that a field asks for.
@@ -1572,73 +1620,6 @@ func selectValues(fields []*Field, src []byte, isJWTCredential bool) ([]*selecte
 	}), nil
 }
 
-func enhanceRevealDoc(explicitPaths map[string]bool, revealDoc, vcBytes []byte) ([]byte, error) {
-	var err error
-
-	revealDoc, err = sjson.SetBytes(revealDoc, "@explicit", true)
-	if err != nil {
-		return nil, err
-	}
-
-	intermPaths := make(map[string]bool)
-
-	for path := range explicitPaths {
-		revealDoc, err = enhanceRevealField(path, revealDoc, vcBytes)
-		if err != nil {
-			return nil, err
-		}
-
-		pathParts := strings.Split(path, ".")
-		combinedPath := ""
-
-		for i := range len(pathParts) - 1 {
-			if i == 0 {
-				combinedPath = pathParts[0]
-			} else {
-				combinedPath += "." + pathParts[i]
-			}
-
-			if _, ok := explicitPaths[combinedPath]; !ok {
-				intermPaths[combinedPath] = false
-			}
-		}
-	}
-
-	for path := range intermPaths {
-		revealDoc, err = enhanceRevealField(path, revealDoc, vcBytes)
-		if err != nil {
-			return nil, err
-		}
-	}
-
-	return revealDoc, nil
-}
-
-func enhanceRevealField(path string, revealDoc, vcBytes []byte) ([]byte, error) {
-	var err error
-
-	revealDoc, err = sjson.SetBytes(revealDoc, path+".@explicit", true)
-	if err != nil {
-		return nil, err
-	}
-
-	for _, cf := range [...]string{"type", "@context"} {
-		specialFieldPath := path + "." + cf
-
-		specialFieldValue := gjson.GetBytes(vcBytes, specialFieldPath)
-		if specialFieldValue.Type == gjson.Null {
-			continue
-		}
-
-		revealDoc, err = sjson.SetBytes(revealDoc, specialFieldPath, specialFieldValue.Value())
-		if err != nil {
-			return nil, err
-		}
-	}
-
-	return revealDoc, nil
-}
-
 func hasBBS(vc *verifiable.Credential) bool {
 	return hasProofWithType(vc, "BbsBlsSignature2020")
 }
-- 
2.43.0


From ab929098814080771dcc04833b5fc0f6d4182871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:45 +0000
Subject: [PATCH 71/89] fix: presexch: use the given document loader for
 limited credentials

---
 presexch/definition.go | 31 +++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/presexch/definition.go b/presexch/definition.go
index 318e366..8f2dd4f 100644
--- a/presexch/definition.go
+++ b/presexch/definition.go
@@ -478,16 +478,29 @@ func makeRequirement(requirements []*SubmissionRequirement, descriptors []*Input
 	return req, nil
 }
 
+// newMatchRequirementsOpts applies opts. The credentials with limited disclosure are parsed with the given document
+// loader, unless the credential options bring their own.
+func newMatchRequirementsOpts(documentLoader ld.DocumentLoader, opts []MatchRequirementsOpt) *matchRequirementsOpts {
+	matchOpts := &matchRequirementsOpts{defaultVPFormat: FormatLDPVP}
+	for _, opt := range opts {
+		opt(matchOpts)
+	}
+
+	if documentLoader != nil {
+		matchOpts.credOpts = append([]verifiable.CredentialOpt{verifiable.WithJSONLDDocumentLoader(documentLoader)},
+			matchOpts.credOpts...)
+	}
+
+	return matchOpts
+}
+
 // CreateVP creates verifiable presentation.
 func (pd *PresentationDefinition) CreateVP(
 	credentials []*verifiable.Credential,
 	documentLoader ld.DocumentLoader,
 	opts ...MatchRequirementsOpt,
 ) (*verifiable.Presentation, error) {
-	matchOpts := &matchRequirementsOpts{defaultVPFormat: FormatLDPVP}
-	for _, opt := range opts {
-		opt(matchOpts)
-	}
+	matchOpts := newMatchRequirementsOpts(documentLoader, opts)
 
 	applicableCredentials, submission, err := presentationData(pd, credentials, documentLoader, false,
 		matchOpts.sdBBSProofCreator, matchOpts.defaultVPFormat, matchOpts.credOpts...)
@@ -514,10 +527,7 @@ func (pd *PresentationDefinition) CreateVPArray(
 	documentLoader ld.DocumentLoader,
 	opts ...MatchRequirementsOpt,
 ) ([]*verifiable.Presentation, *PresentationSubmission, error) {
-	matchOpts := &matchRequirementsOpts{defaultVPFormat: FormatLDPVP}
-	for _, opt := range opts {
-		opt(matchOpts)
-	}
+	matchOpts := newMatchRequirementsOpts(documentLoader, opts)
 
 	applicableCredentials, submission, err := presentationData(pd, credentials, documentLoader, true,
 		matchOpts.sdBBSProofCreator, matchOpts.defaultVPFormat, matchOpts.credOpts...)
@@ -631,10 +641,7 @@ func makeRequirementsForMatch(requirements []*SubmissionRequirement,
 // MatchSubmissionRequirement return information about matching VCs.
 func (pd *PresentationDefinition) MatchSubmissionRequirement(credentials []*verifiable.Credential,
 	documentLoader ld.DocumentLoader, opts ...MatchRequirementsOpt) ([]*MatchedSubmissionRequirement, error) {
-	matchOpts := &matchRequirementsOpts{defaultVPFormat: FormatLDPVP}
-	for _, opt := range opts {
-		opt(matchOpts)
-	}
+	matchOpts := newMatchRequirementsOpts(documentLoader, opts)
 
 	if err := pd.ValidateSchema(); err != nil {
 		return nil, err
-- 
2.43.0


From 09392132292f3923a4736c2f51fa7f781c8d19ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:44 +0000
Subject: [PATCH 72/89] fix: verifiable: no panic in base context validation

---
 verifiable/credential.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/verifiable/credential.go b/verifiable/credential.go
index f2ca715..aa87acd 100644
--- a/verifiable/credential.go
+++ b/verifiable/credential.go
@@ -1641,11 +1641,11 @@ func validateCredential(vcc *CredentialContents, vcJSON JSONObject, vcOpts *cred
 }
 
 func validateBaseContext(vcJSON JSONObject, vcc *CredentialContents, vcOpts *credentialOpts) error {
-	if len(vcc.Types) > 1 || vcc.Types[0] != VCType {
+	if len(vcc.Types) != 1 || vcc.Types[0] != VCType {
 		return errors.New("violated type constraint: not base only type defined")
 	}
 
-	if len(vcc.Context) > 1 || !vcOpts.allowedContexts[vcc.Context[0]] {
+	if len(vcc.Context) != 1 || !vcOpts.allowedContexts[vcc.Context[0]] {
 		return errors.New("violated @context constraint: not base only @context defined")
 	}
 
-- 
2.43.0


From ce765560ed3b7cfe1b7183e990592a51bd07082c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:24 +0000
Subject: [PATCH 73/89] fix: verifiable: base context modes refuse contexts
 that are not in the allowed list

---
 verifiable/credential.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/verifiable/credential.go b/verifiable/credential.go
index aa87acd..b9aea68 100644
--- a/verifiable/credential.go
+++ b/verifiable/credential.go
@@ -1645,7 +1645,7 @@ func validateBaseContext(vcJSON JSONObject, vcc *CredentialContents, vcOpts *cre
 		return errors.New("violated type constraint: not base only type defined")
 	}
 
-	if len(vcc.Context) != 1 || !vcOpts.allowedContexts[vcc.Context[0]] {
+	if len(vcc.Context) != 1 || len(vcc.CustomContext) > 0 || !vcOpts.allowedContexts[vcc.Context[0]] {
 		return errors.New("violated @context constraint: not base only @context defined")
 	}
 
@@ -1654,6 +1654,15 @@ func validateBaseContext(vcJSON JSONObject, vcc *CredentialContents, vcOpts *cre
 
 func validateBaseContextWithExtendedValidation(vcJSON JSONObject, vcc *CredentialContents,
 	vcOpts *credentialOpts) error {
+	if _, err := GetBaseContext(vcc.Context); err != nil {
+		return err
+	}
+
+	// What follows the first context that is not a plain string.
+	if len(vcc.CustomContext) > 0 {
+		return fmt.Errorf("not allowed @context: %v", vcc.CustomContext[0])
+	}
+
 	for _, vcContext := range vcc.Context {
 		if _, ok := vcOpts.allowedContexts[vcContext]; !ok {
 			return fmt.Errorf("not allowed @context: %s", vcContext)
-- 
2.43.0


From 4182a92a5abb35e9770fa50ffa2f26c0b3a44b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:51 +0000
Subject: [PATCH 74/89] fix: verifiable: date patterns of the data model 2.0
 schemas match the whole value

---
 verifiable/credential.go   | 4 ++--
 verifiable/presentation.go | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/verifiable/credential.go b/verifiable/credential.go
index b9aea68..2319c71 100644
--- a/verifiable/credential.go
+++ b/verifiable/credential.go
@@ -458,11 +458,11 @@ const SchemaTemplateV2 = `{
     },
     "validFrom": {
       "type": "string",
-      "pattern": "-?([1-9][0-9]{3,}|0[0-9]{3})-(0[1-9]|1[0-2])-(0[1-9]|[12][0-9]|3[01])T(([01][0-9]|2[0-3]):[0-5][0-9]:[0-5][0-9](\\.[0-9]+)?|(24:00:00(\\.0+)?))(Z|(\\+|-)((0[0-9]|1[0-3]):[0-5][0-9]|14:00))"
+      "pattern": "^-?([1-9][0-9]{3,}|0[0-9]{3})-(0[1-9]|1[0-2])-(0[1-9]|[12][0-9]|3[01])T(([01][0-9]|2[0-3]):[0-5][0-9]:[0-5][0-9](\\.[0-9]+)?|(24:00:00(\\.0+)?))(Z|(\\+|-)((0[0-9]|1[0-3]):[0-5][0-9]|14:00))$"
     },
     "validUntil": {
       "type": "string",
-      "pattern": "-?([1-9][0-9]{3,}|0[0-9]{3})-(0[1-9]|1[0-2])-(0[1-9]|[12][0-9]|3[01])T(([01][0-9]|2[0-3]):[0-5][0-9]:[0-5][0-9](\\.[0-9]+)?|(24:00:00(\\.0+)?))(Z|(\\+|-)((0[0-9]|1[0-3]):[0-5][0-9]|14:00))"
+      "pattern": "^-?([1-9][0-9]{3,}|0[0-9]{3})-(0[1-9]|1[0-2])-(0[1-9]|[12][0-9]|3[01])T(([01][0-9]|2[0-3]):[0-5][0-9]:[0-5][0-9](\\.[0-9]+)?|(24:00:00(\\.0+)?))(Z|(\\+|-)((0[0-9]|1[0-3]):[0-5][0-9]|14:00))$"
     },
     "credentialSubject": {
       "oneOf": [
diff --git a/verifiable/presentation.go b/verifiable/presentation.go
index aa015ca..6d5646a 100644
--- a/verifiable/presentation.go
+++ b/verifiable/presentation.go
@@ -231,7 +231,7 @@ const v2BasePresentationSchema = `{
         },
         "created": {
           "type": "string",
-          "pattern": "-?([1-9][0-9]{3,}|0[0-9]{3})-(0[1-9]|1[0-2])-(0[1-9]|[12][0-9]|3[01])T(([01][0-9]|2[0-3]):[0-5][0-9]:[0-5][0-9](\\.[0-9]+)?|(24:00:00(\\.0+)?))(Z|(\\+|-)((0[0-9]|1[0-3]):[0-5][0-9]|14:00))"
+          "pattern": "^-?([1-9][0-9]{3,}|0[0-9]{3})-(0[1-9]|1[0-2])-(0[1-9]|[12][0-9]|3[01])T(([01][0-9]|2[0-3]):[0-5][0-9]:[0-5][0-9](\\.[0-9]+)?|(24:00:00(\\.0+)?))(Z|(\\+|-)((0[0-9]|1[0-3]):[0-5][0-9]|14:00))$"
         },
         "domain": {
           "type": "string"
-- 
2.43.0


From 5c04d8480e218f54019a7afaa49ce0f278fbc00d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:03 +0000
Subject: [PATCH 75/89] fix: verifiable: validate every proof of a data model
 1.1 presentation

---
 verifiable/presentation.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/verifiable/presentation.go b/verifiable/presentation.go
index 6d5646a..d664fc3 100644
--- a/verifiable/presentation.go
+++ b/verifiable/presentation.go
@@ -117,11 +117,9 @@ const v1BasePresentationSchema = `
       "anyOf": [
         {
           "type": "array",
-          "items": [
-            {
-              "$ref": "#/definitions/proof"
-            }
-          ]
+          "items": {
+            "$ref": "#/definitions/proof"
+          }
         },
         {
           "$ref": "#/definitions/proof"
-- 
2.43.0


From a3473ee312ff342d67e32b3e92eae39646a5b0eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:21 +0000
Subject: [PATCH 76/89] fix: presexch, verifiable: refuse JSON schemas that
 refer to themselves without end

---
 internal/jsonschema/validate.go | 301 ++++++++++++++++++++++++++++++++
 presexch/definition.go          |   3 +-
 verifiable/credential.go        |   3 +-
 3 files changed, 305 insertions(+), 2 deletions(-)
 create mode 100644 internal/jsonschema/validate.go

diff --git a/internal/jsonschema/validate.go b/internal/jsonschema/validate.go
new file mode 100644
index 0000000..314c880
--- /dev/null
+++ b/internal/jsonschema/validate.go
@@ -0,0 +1,301 @@
+/*
+Copyright SecureKey Technologies Inc. All Rights Reserved.
+
+SPDX-License-Identifier: Apache-2.0
+*/
+
+// Package jsonschema validates documents against JSON schemas that come from an untrusted source.
+package jsonschema
+
+import (
+	"errors"
+	"fmt"
+	"net/url"
+	"reflect"
+	"strconv"
+	"strings"
+
+	"github.com/xeipuuv/gojsonschema"
+)
+
+// maxEvaluations limits how many times (sub)schemas are evaluated in one validation.
+const maxEvaluations = 1000000
+
+var (
+	errRecursiveSchema = errors.New("json schema refers to itself without end")
+	errTooComplex      = errors.New("json schema is too complex for the document")
+)
+
+// Validate validates document against schema. Schemas that gojsonschema would evaluate without end (or practically
+// without end) are answered with an error.
+func Validate(schema, document gojsonschema.JSONLoader) (result *gojsonschema.Result, err error) {
+	// gojsonschema panics on some malformed schemas
+	defer func() {
+		if r := recover(); r != nil {
+			result, err = nil, fmt.Errorf("invalid json schema: %v", r)
+		}
+	}()
+
+	w := &walker{schemas: map[string]interface{}{}, evaluations: map[evaluation]int{}}
+
+	compiled, err := gojsonschema.NewSchema(&recorder{JSONLoader: schema, walker: w})
+	if err != nil {
+		return nil, err
+	}
+
+	instance, err := document.LoadJSON()
+	if err != nil {
+		return nil, err
+	}
+
+	if err = w.check(instance); err != nil {
+		return nil, err
+	}
+
+	return compiled.Validate(document)
+}
+
+// recorder keeps the schema documents gojsonschema loads. When they are compiled, gojsonschema replaces the references
+// in them by absolute ones.
+type recorder struct {
+	gojsonschema.JSONLoader
+	walker *walker
+	source string
+}
+
+// LoadJSON loads a schema document.
+func (r *recorder) LoadJSON() (interface{}, error) {
+	doc, err := r.JSONLoader.LoadJSON()
+	if err == nil {
+		base, _, _ := strings.Cut(r.source, "#")
+		r.walker.schemas[base] = doc
+	}
+
+	return doc, err
+}
+
+// LoaderFactory makes loaders for referenced schema documents.
+func (r *recorder) LoaderFactory() gojsonschema.JSONLoaderFactory {
+	return &recorderFactory{JSONLoaderFactory: r.JSONLoader.LoaderFactory(), walker: r.walker}
+}
+
+type recorderFactory struct {
+	gojsonschema.JSONLoaderFactory
+	walker *walker
+}
+
+// New creates a loader.
+func (f *recorderFactory) New(source string) gojsonschema.JSONLoader {
+	return &recorder{JSONLoader: f.JSONLoaderFactory.New(source), walker: f.walker, source: source}
+}
+
+// evaluation of a schema on a value; values without members or elements are all the same.
+type evaluation struct {
+	schema, value uintptr
+}
+
+const inProgress = -1
+
+// walker follows the evaluation of a schema on a document.
+type walker struct {
+	schemas     map[string]interface{}
+	evaluations map[evaluation]int
+}
+
+func (w *walker) check(instance interface{}) error {
+	root := w.schemas[""]
+
+	documents := make(map[string]interface{}, len(w.schemas))
+	for base, doc := range w.schemas {
+		documents[base] = doc
+	}
+
+	for base, doc := range documents {
+		if u, err := url.Parse(base); err == nil {
+			w.identify(doc, u)
+		}
+	}
+
+	_, err := w.count(root, instance)
+
+	return err
+}
+
+// identify finds the schemas that have an identifier.
+func (w *walker) identify(node interface{}, base *url.URL) {
+	switch n := node.(type) {
+	case []interface{}:
+		for _, v := range n {
+			w.identify(v, base)
+		}
+	case map[string]interface{}:
+		id, ok := n["id"].(string)
+		if !ok {
+			id, ok = n["$id"].(string)
+		}
+
+		if u, err := url.Parse(id); ok && err == nil {
+			base = base.ResolveReference(u)
+
+			if _, exists := w.schemas[base.String()]; !exists {
+				w.schemas[base.String()] = n
+			}
+		}
+
+		for _, v := range n {
+			w.identify(v, base)
+		}
+	}
+}
+
+// resolve returns the schema a reference points to.
+func (w *walker) resolve(ref string) interface{} {
+	if s, ok := w.schemas[ref]; ok {
+		return s
+	}
+
+	base, fragment, _ := strings.Cut(ref, "#")
+	node := w.schemas[base]
+
+	if f, err := url.PathUnescape(fragment); err == nil {
+		fragment = f
+	}
+
+	for _, token := range strings.Split(fragment, "/")[1:] {
+		token = strings.ReplaceAll(strings.ReplaceAll(token, "~1", "/"), "~0", "~")
+
+		switch n := node.(type) {
+		case map[string]interface{}:
+			node = n[token]
+		case []interface{}:
+			i, err := strconv.Atoi(token)
+			if err != nil || i < 0 || i >= len(n) {
+				return nil
+			}
+
+			node = n[i]
+		default:
+			return nil
+		}
+	}
+
+	return node
+}
+
+// count returns an upper bound of the number of schemas that are evaluated when value is validated against schema.
+func (w *walker) count(schema, value interface{}) (int, error) {
+	s, ok := schema.(map[string]interface{})
+	if !ok {
+		return 1, nil
+	}
+
+	e := evaluation{schema: reflect.ValueOf(s).Pointer()}
+
+	switch v := value.(type) {
+	case map[string]interface{}:
+		if len(v) > 0 {
+			e.value = reflect.ValueOf(v).Pointer()
+		}
+	case []interface{}:
+		if len(v) > 0 {
+			e.value = reflect.ValueOf(v).Pointer()
+		}
+	}
+
+	if n, visited := w.evaluations[e]; visited {
+		if n == inProgress {
+			return 0, errRecursiveSchema
+		}
+
+		return n, nil
+	}
+
+	w.evaluations[e] = inProgress
+	total := 1
+
+	err := applied(s, value, w.resolve, func(sub, v interface{}) error {
+		n, err := w.count(sub, v)
+		if err != nil {
+			return err
+		}
+
+		total += n
+
+		if total > maxEvaluations || len(w.evaluations) > maxEvaluations {
+			return errTooComplex
+		}
+
+		return nil
+	})
+
+	w.evaluations[e] = total
+
+	return total, err
+}
+
+// applied calls evaluate for the schemas that are applied to value or its members or elements as part of schema s.
+func applied(s map[string]interface{}, value interface{}, resolve func(ref string) interface{},
+	evaluate func(schema, value interface{}) error) error {
+	if ref, ok := s["$ref"].(string); ok {
+		return evaluate(resolve(ref), value)
+	}
+
+	var err error
+
+	apply := func(schema, v interface{}) {
+		if err == nil && schema != nil {
+			err = evaluate(schema, v)
+		}
+	}
+
+	// keywords that apply to the value itself
+	for _, keyword := range []string{"not", "if", "then", "else"} {
+		apply(s[keyword], value)
+	}
+
+	for _, keyword := range []string{"allOf", "anyOf", "oneOf"} {
+		list, _ := s[keyword].([]interface{}) //nolint:errcheck
+
+		for _, sub := range list {
+			apply(sub, value)
+		}
+	}
+
+	dependencies, _ := s["dependencies"].(map[string]interface{}) //nolint:errcheck
+
+	for _, sub := range dependencies {
+		apply(sub, value)
+	}
+
+	// keywords that apply to members or elements
+	switch v := value.(type) {
+	case map[string]interface{}:
+		properties, _ := s["properties"].(map[string]interface{})      //nolint:errcheck
+		patterns, _ := s["patternProperties"].(map[string]interface{}) //nolint:errcheck
+
+		for name, member := range v {
+			apply(s["propertyNames"], name)
+			apply(properties[name], member)
+			apply(s["additionalProperties"], member)
+
+			for _, sub := range patterns {
+				apply(sub, member)
+			}
+		}
+	case []interface{}:
+		items, tuple := s["items"].([]interface{})
+
+		for i, element := range v {
+			if !tuple {
+				apply(s["items"], element)
+			} else if i < len(items) {
+				apply(items[i], element)
+			}
+
+			apply(s["additionalItems"], element)
+			apply(s["contains"], element)
+		}
+	}
+
+	return err
+}
diff --git a/presexch/definition.go b/presexch/definition.go
index 8f2dd4f..fe2a122 100644
--- a/presexch/definition.go
+++ b/presexch/definition.go
@@ -23,6 +23,7 @@ import (
 	"github.com/tidwall/sjson"
 	"github.com/xeipuuv/gojsonschema"
 
+	"github.com/trustbloc/vc-go/internal/jsonschema"
 	"github.com/trustbloc/vc-go/presexch/internal/requirementlogic"
 	jsonutil "github.com/trustbloc/vc-go/util/json"
 
@@ -1840,7 +1841,7 @@ func validatePath(schema gojsonschema.JSONLoader, patch interface{}, field *Fiel
 	}
 
 	for _, sh := range schemasToExecute {
-		result, err := gojsonschema.Validate(sh, gojsonschema.NewBytesLoader(raw))
+		result, err := jsonschema.Validate(sh, gojsonschema.NewBytesLoader(raw))
 		if err != nil || !result.Valid() {
 			return errors.Join(errPathNotApplicable)
 		}
diff --git a/verifiable/credential.go b/verifiable/credential.go
index 2319c71..ed94e89 100644
--- a/verifiable/credential.go
+++ b/verifiable/credential.go
@@ -33,6 +33,7 @@ import (
 
 	"github.com/trustbloc/vc-go/cwt"
 	"github.com/trustbloc/vc-go/dataintegrity"
+	"github.com/trustbloc/vc-go/internal/jsonschema"
 	"github.com/trustbloc/vc-go/jwt"
 	"github.com/trustbloc/vc-go/sdjwt/common"
 	jsonutil "github.com/trustbloc/vc-go/util/json"
@@ -2188,7 +2189,7 @@ func validateCredentialUsingJSONSchema(vcJSON JSONObject, vcc *CredentialContent
 	loader := gojsonschema.NewGoLoader(vcJSON)
 
 	for _, schemaLoader := range schemaLoaders {
-		result, err := gojsonschema.Validate(schemaLoader, loader)
+		result, err := jsonschema.Validate(schemaLoader, loader)
 		if err != nil {
 			return fmt.Errorf("validation of verifiable credential: %w", err)
 		}
-- 
2.43.0


From 544ffebd04aef50174ed11492cc8f6764c258980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:27 +0000
Subject: [PATCH 77/89] fix: presexch: find the descriptors to present without
 enumerating all sets of descriptors

---
 .../requirementlogic/requirementlogic.go      | 111 ++++++++++++++++--
 1 file changed, 103 insertions(+), 8 deletions(-)

diff --git a/presexch/internal/requirementlogic/requirementlogic.go b/presexch/internal/requirementlogic/requirementlogic.go
index d1e0e91..f43cc69 100644
--- a/presexch/internal/requirementlogic/requirementlogic.go
+++ b/presexch/internal/requirementlogic/requirementlogic.go
@@ -254,24 +254,119 @@ func (b *BitsetSolutionIterator) excludeDescriptors(excludeIdx map[int]struct{})
 	b.descs = updatedDescs
 }
 
+// incrementUntilValid sets the state to the smallest one that is not less than the current one and satisfies the
+// requirement. It decides the descriptors one by one, from the last one on, and leaves out the subsets that cannot
+// satisfy the requirement whatever the descriptors not decided yet are.
 func (b *BitsetSolutionIterator) incrementUntilValid() []string {
 	curr := b.current()
 
-	if curr == nil {
-		return nil
+	if curr == nil || b.req.IsSatisfiedBy(toMap(curr)) {
+		return curr
 	}
 
-	for !b.req.IsSatisfiedBy(toMap(curr)) {
-		b.state.Add(b.state, big.NewInt(1))
+	for i := range b.descs {
+		if b.state.Bit(i) == 1 {
+			continue
+		}
+
+		decided := make(map[string]bool, len(b.descs))
+		open := toMap(b.descs[:i])
+
+		for j := i + 1; j < len(b.descs); j++ {
+			decided[b.descs[j]] = b.state.Bit(j) == 1
+		}
+
+		decided[b.descs[i]] = true
+
+		if !b.decide(i-1, decided, open) {
+			continue
+		}
+
+		for j, desc := range b.descs {
+			var bit uint
+
+			if decided[desc] {
+				bit = 1
+			}
+
+			b.state.SetBit(b.state, j, bit)
+		}
+
+		return b.current()
+	}
+
+	// there are no further solutions
+	b.state = &big.Int{}
+
+	return nil
+}
+
+// decide finds the first combination of the descriptors up to the given index that satisfies the requirement together
+// with the ones that are decided already.
+func (b *BitsetSolutionIterator) decide(idx int, decided map[string]bool, open DescriptorIDSet) bool {
+	if possible, _ := b.req.outcomes(decided, open); !possible {
+		return false
+	}
 
-		curr = b.current()
+	if idx < 0 {
+		return true
+	}
+
+	desc := b.descs[idx]
+
+	delete(open, desc)
+
+	for _, included := range []bool{false, true} {
+		decided[desc] = included
+
+		if b.decide(idx-1, decided, open) {
+			return true
+		}
+	}
+
+	delete(decided, desc)
+	open.Add(desc)
+
+	return false
+}
+
+// outcomes returns whether the requirement can be satisfied, and whether it can be unsatisfied, by sets that have all the
+// descriptors decided to be included, and any of the open ones.
+func (r *RequirementLogic) outcomes(decided map[string]bool, open DescriptorIDSet) (satisfied, unsatisfied bool) {
+	var least, most int
+
+	if len(r.Nested) == 0 {
+		for id := range toMap(r.InputDescriptorIDs) {
+			if decided[id] {
+				least++
+				most++
+			} else if open.Has(id) {
+				most++
+			}
+		}
+	}
+
+	for _, logic := range r.Nested {
+		yes, no := logic.outcomes(decided, open)
+
+		if yes {
+			most++
+		}
+
+		if !no {
+			least++
+		}
+	}
 
-		if curr == nil {
-			return nil
+	for n := least; n <= most; n++ {
+		if r.isLenApplicable(n) {
+			satisfied = true
+		} else {
+			unsatisfied = true
 		}
 	}
 
-	return curr
+	return satisfied, unsatisfied
 }
 
 func (b *BitsetSolutionIterator) current() []string {
-- 
2.43.0


From ac4ef6321b676ce4613e8643ac2f9fb50c19b8da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:08 +0000
Subject: [PATCH 78/89] fix: presexch: refuse empty and duplicate input
 descriptors, empty requirements and empty descriptor mappings

---
 presexch/api.go        |  8 ++++++++
 presexch/definition.go | 25 ++++++++++++++++++++++++-
 2 files changed, 32 insertions(+), 1 deletion(-)

diff --git a/presexch/api.go b/presexch/api.go
index af23c72..2a2cc8f 100644
--- a/presexch/api.go
+++ b/presexch/api.go
@@ -125,6 +125,10 @@ func (pd *PresentationDefinition) Match(
 		options[i](opts)
 	}
 
+	if err := pd.checkDescriptors(); err != nil {
+		return nil, err
+	}
+
 	result, err := getMatchedCreds(pd, vpList, contextLoader, opts)
 	if err != nil {
 		return nil, err
@@ -192,6 +196,10 @@ func getMatchedCreds( //nolint:gocyclo,funlen
 		}
 
 		for _, mapping := range descriptorMap {
+			if mapping == nil {
+				return nil, fmt.Errorf("the %s has an empty element", descriptorMapProperty)
+			}
+
 			// The object MUST include an id property, and its value MUST be a string matching the id property of
 			// the Input Descriptor in the Presentation Definition the submission is related to.
 			if _, ok := descriptorIDs[mapping.ID]; !ok {
diff --git a/presexch/definition.go b/presexch/definition.go
index fe2a122..b2aaaf2 100644
--- a/presexch/definition.go
+++ b/presexch/definition.go
@@ -302,7 +302,7 @@ func (pd *PresentationDefinition) ValidateSchema() error {
 	}
 
 	if result.Valid() {
-		return nil
+		return pd.checkDescriptors()
 	}
 
 	resultErrors := result.Errors()
@@ -315,6 +315,25 @@ func (pd *PresentationDefinition) ValidateSchema() error {
 	return errors.New(strings.Join(errs, ","))
 }
 
+// checkDescriptors checks that the input descriptors are present and have different IDs.
+func (pd *PresentationDefinition) checkDescriptors() error {
+	ids := make(map[string]struct{}, len(pd.InputDescriptors))
+
+	for _, descriptor := range pd.InputDescriptors {
+		if descriptor == nil {
+			return errors.New("presentation definition has an empty input descriptor")
+		}
+
+		if _, exists := ids[descriptor.ID]; exists {
+			return fmt.Errorf("presentation definition has several input descriptors with id: %s", descriptor.ID)
+		}
+
+		ids[descriptor.ID] = struct{}{}
+	}
+
+	return nil
+}
+
 type constraintsFilterResult struct {
 	credential    *verifiable.Credential
 	credentialSrc []byte
@@ -411,6 +430,10 @@ func toRequirement(sr *SubmissionRequirement, descriptors []*InputDescriptor) (*
 		nested           []*requirement
 	)
 
+	if sr == nil {
+		return nil, errors.New("empty submission requirement")
+	}
+
 	var totalCount int
 
 	if sr.From != "" {
-- 
2.43.0


From e3f6690479599b219a690fd68f633bbb4b9f048d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:05 +0000
Subject: [PATCH 79/89] fix: answer panics of the JSON-LD library on malformed
 documents with an error

---
 dataintegrity/suite/ecdsa2019/ecdsa2019.go |  6 +++++-
 dataintegrity/suite/eddsa2022/eddsa2022.go |  6 +++++-
 internal/recovery/recovery.go              | 17 +++++++++++++++++
 presexch/definition.go                     |  6 +++++-
 proof/checker/checker.go                   |  6 +++++-
 proof/creator/creator.go                   |  6 +++++-
 verifiable/bbs_selective_disclosure.go     |  6 +++++-
 verifiable/credential.go                   |  6 +++++-
 verifiable/presentation.go                 |  6 +++++-
 9 files changed, 57 insertions(+), 8 deletions(-)
 create mode 100644 internal/recovery/recovery.go

diff --git a/dataintegrity/suite/ecdsa2019/ecdsa2019.go b/dataintegrity/suite/ecdsa2019/ecdsa2019.go
index ea79497..230a5ba 100644
--- a/dataintegrity/suite/ecdsa2019/ecdsa2019.go
+++ b/dataintegrity/suite/ecdsa2019/ecdsa2019.go
@@ -27,6 +27,7 @@ import (
 	"github.com/trustbloc/vc-go/crypto-ext/verifiers/ecdsa"
 	"github.com/trustbloc/vc-go/dataintegrity/models"
 	"github.com/trustbloc/vc-go/dataintegrity/suite"
+	"github.com/trustbloc/vc-go/internal/recovery"
 )
 
 const (
@@ -375,7 +376,10 @@ func (s *Suite) RequiresCreated() bool {
 }
 
 func canonicalize(data map[string]interface{}, loader ld.DocumentLoader, mda ld.MessageDigestAlgorithm,
-) ([]byte, error) {
+) (canonical []byte, err error) {
+	// the JSON-LD library panics on some malformed documents
+	defer recovery.AsError(&err, "canonicalizing signature base data")
+
 	out, err := processor.Default().GetCanonicalDocument(
 		data,
 		processor.WithDocumentLoader(loader),
diff --git a/dataintegrity/suite/eddsa2022/eddsa2022.go b/dataintegrity/suite/eddsa2022/eddsa2022.go
index 55fb063..a4db001 100644
--- a/dataintegrity/suite/eddsa2022/eddsa2022.go
+++ b/dataintegrity/suite/eddsa2022/eddsa2022.go
@@ -24,6 +24,7 @@ import (
 	"github.com/trustbloc/vc-go/crypto-ext/verifiers/ed25519"
 	"github.com/trustbloc/vc-go/dataintegrity/models"
 	"github.com/trustbloc/vc-go/dataintegrity/suite"
+	"github.com/trustbloc/vc-go/internal/recovery"
 )
 
 const (
@@ -286,7 +287,10 @@ func (s *Suite) RequiresCreated() bool {
 	return false
 }
 
-func canonicalize(data map[string]interface{}, loader ld.DocumentLoader) ([]byte, error) {
+func canonicalize(data map[string]interface{}, loader ld.DocumentLoader) (canonical []byte, err error) {
+	// the JSON-LD library panics on some malformed documents
+	defer recovery.AsError(&err, "canonicalizing signature base data")
+
 	out, err := processor.Default().GetCanonicalDocument(data, processor.WithDocumentLoader(loader))
 	if err != nil {
 		return nil, fmt.Errorf("canonicalizing signature base data: %w", err)
diff --git a/internal/recovery/recovery.go b/internal/recovery/recovery.go
new file mode 100644
index 0000000..34e3593
--- /dev/null
+++ b/internal/recovery/recovery.go
@@ -0,0 +1,17 @@
+/*
+Copyright SecureKey Technologies Inc. All Rights Reserved.
+
+SPDX-License-Identifier: Apache-2.0
+*/
+
+// Package recovery turns panics of libraries that process untrusted documents into errors.
+package recovery
+
+import "fmt"
+
+// AsError has to be deferred. If the surrounding function panics, it sets err instead.
+func AsError(err *error, what string) {
+	if r := recover(); r != nil {
+		*err = fmt.Errorf("%s: %v", what, r)
+	}
+}
diff --git a/presexch/definition.go b/presexch/definition.go
index b2aaaf2..3301f6c 100644
--- a/presexch/definition.go
+++ b/presexch/definition.go
@@ -24,6 +24,7 @@ import (
 	"github.com/xeipuuv/gojsonschema"
 
 	"github.com/trustbloc/vc-go/internal/jsonschema"
+	"github.com/trustbloc/vc-go/internal/recovery"
 	"github.com/trustbloc/vc-go/presexch/internal/requirementlogic"
 	jsonutil "github.com/trustbloc/vc-go/util/json"
 
@@ -2220,7 +2221,10 @@ func typeFoundInContext(typ string, ctxObj *ld.Context) ([]string, error) {
 	return out, nil
 }
 
-func getContext(contextURI string, documentLoader ld.DocumentLoader) (*ld.Context, error) {
+func getContext(contextURI string, documentLoader ld.DocumentLoader) (context *ld.Context, err error) {
+	// the JSON-LD library panics on some malformed documents
+	defer recovery.AsError(&err, "JSON-LD context")
+
 	contextURI = strings.SplitN(contextURI, "#", 2)[0]
 
 	remoteDoc, err := documentLoader.LoadDocument(contextURI)
diff --git a/proof/checker/checker.go b/proof/checker/checker.go
index 0f1295a..686961d 100644
--- a/proof/checker/checker.go
+++ b/proof/checker/checker.go
@@ -21,6 +21,7 @@ import (
 	"github.com/veraison/go-cose"
 
 	"github.com/trustbloc/vc-go/crypto-ext/pubkey"
+	"github.com/trustbloc/vc-go/internal/recovery"
 	proofdesc "github.com/trustbloc/vc-go/proof"
 	"github.com/trustbloc/vc-go/vermethod"
 )
@@ -180,7 +181,10 @@ func (c *ProofChecker) CheckLDProof(proof *proof.Proof, expectedProofIssuer stri
 
 // GetLDPCanonicalDocument will return normalized/canonical version of the document.
 func (c *ProofCheckerBase) GetLDPCanonicalDocument(proof *proof.Proof,
-	doc map[string]interface{}, opts ...processor.Opts) ([]byte, error) {
+	doc map[string]interface{}, opts ...processor.Opts) (canonical []byte, err error) {
+	// the JSON-LD library panics on some malformed documents
+	defer recovery.AsError(&err, "canonicalize document")
+
 	supportedProof, err := c.getSupportedProof(proof.Type)
 	if err != nil {
 		return nil, err
diff --git a/proof/creator/creator.go b/proof/creator/creator.go
index 02ef155..5c5c572 100644
--- a/proof/creator/creator.go
+++ b/proof/creator/creator.go
@@ -16,6 +16,7 @@ import (
 	"github.com/veraison/go-cose"
 
 	"github.com/trustbloc/vc-go/cwt"
+	"github.com/trustbloc/vc-go/internal/recovery"
 	"github.com/trustbloc/vc-go/jwt"
 	proofdesc "github.com/trustbloc/vc-go/proof"
 )
@@ -94,7 +95,10 @@ func (c *ProofCreator) SignLinkedDocument(proof *proof.Proof, keyType kms.KeyTyp
 
 // GetLDPCanonicalDocument will return normalized/canonical version of the document.
 func (c *ProofCreator) GetLDPCanonicalDocument(proof *proof.Proof,
-	doc map[string]interface{}, opts ...processor.Opts) ([]byte, error) {
+	doc map[string]interface{}, opts ...processor.Opts) (canonical []byte, err error) {
+	// the JSON-LD library panics on some malformed documents
+	defer recovery.AsError(&err, "canonicalize document")
+
 	supportedProof, err := c.getSupportedProof(proof.Type)
 	if err != nil {
 		return nil, err
diff --git a/verifiable/bbs_selective_disclosure.go b/verifiable/bbs_selective_disclosure.go
index d71a2d6..f26ecd5 100644
--- a/verifiable/bbs_selective_disclosure.go
+++ b/verifiable/bbs_selective_disclosure.go
@@ -14,6 +14,7 @@ import (
 
 	"github.com/trustbloc/did-go/doc/ld/processor"
 	"github.com/trustbloc/did-go/doc/ld/proof"
+	"github.com/trustbloc/vc-go/internal/recovery"
 
 	"github.com/trustbloc/vc-go/proof/ldproofs/bbsblssignatureproof2020"
 	"github.com/trustbloc/vc-go/vermethod"
@@ -45,7 +46,10 @@ type BBSProofCreator struct {
 // BBSSelectiveDisclosure creates selective disclosure from the input doc which must have a BBS+ proof
 // (with BbsBlsSignature2020 type).
 func BBSSelectiveDisclosure(doc map[string]interface{}, revealDoc map[string]interface{},
-	nonce []byte, bbsProofCreator *BBSProofCreator, opts ...processor.Opts) (map[string]interface{}, error) {
+	nonce []byte, bbsProofCreator *BBSProofCreator, opts ...processor.Opts) (disclosed map[string]interface{}, err error) {
+	// the JSON-LD library panics on some malformed documents
+	defer recovery.AsError(&err, "BBS+ selective disclosure")
+
 	docWithoutProof, rawProofs, err := prepareDocAndProof(doc, opts...)
 	if err != nil {
 		return nil, fmt.Errorf("preparing doc failed: %w", err)
diff --git a/verifiable/credential.go b/verifiable/credential.go
index ed94e89..5273a4d 100644
--- a/verifiable/credential.go
+++ b/verifiable/credential.go
@@ -34,6 +34,7 @@ import (
 	"github.com/trustbloc/vc-go/cwt"
 	"github.com/trustbloc/vc-go/dataintegrity"
 	"github.com/trustbloc/vc-go/internal/jsonschema"
+	"github.com/trustbloc/vc-go/internal/recovery"
 	"github.com/trustbloc/vc-go/jwt"
 	"github.com/trustbloc/vc-go/sdjwt/common"
 	jsonutil "github.com/trustbloc/vc-go/util/json"
@@ -1679,7 +1680,10 @@ func validateBaseContextWithExtendedValidation(vcJSON JSONObject, vcc *Credentia
 	return validateCredentialUsingJSONSchema(vcJSON, vcc, vcOpts)
 }
 
-func validateJSONLD(vcJSON JSONObject, vcc *CredentialContents, vcOpts *credentialOpts) error {
+func validateJSONLD(vcJSON JSONObject, vcc *CredentialContents, vcOpts *credentialOpts) (err error) {
+	// the JSON-LD library panics on some malformed documents
+	defer recovery.AsError(&err, "JSON-LD validation")
+
 	baseContext, err := GetBaseContext(vcc.Context)
 	if err != nil {
 		return err
diff --git a/verifiable/presentation.go b/verifiable/presentation.go
index d664fc3..2140526 100644
--- a/verifiable/presentation.go
+++ b/verifiable/presentation.go
@@ -20,6 +20,7 @@ import (
 	"github.com/xeipuuv/gojsonschema"
 
 	"github.com/trustbloc/vc-go/dataintegrity"
+	"github.com/trustbloc/vc-go/internal/recovery"
 	jsonutil "github.com/trustbloc/vc-go/util/json"
 )
 
@@ -993,7 +994,10 @@ func validateVP(data rawPresentation, opts *presentationOpts) error {
 	return validateVPJSONLD(data, opts)
 }
 
-func validateVPJSONLD(vpBytes rawPresentation, opts *presentationOpts) error {
+func validateVPJSONLD(vpBytes rawPresentation, opts *presentationOpts) (err error) {
+	// the JSON-LD library panics on some malformed documents
+	defer recovery.AsError(&err, "JSON-LD validation")
+
 	return docjsonld.ValidateJSONLDMap(vpBytes,
 		docjsonld.WithDocumentLoader(opts.jsonldCredentialOpts.jsonldDocumentLoader),
 		docjsonld.WithExternalContext(opts.jsonldCredentialOpts.externalContext),
-- 
2.43.0


From b15a4dc124d08f8e9cfa9a40fdb84b6b1f66e898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:53 +0000
Subject: [PATCH 80/89] fix: reject CBOR maps with several members of the same
 name

---
 verifiable/credential_parser.go   | 34 +++++++++++++++++++++++--------
 verifiable/presentation_cwt.go    |  7 ++++++-
 verifiable/presentation_parser.go |  5 ++++-
 3 files changed, 36 insertions(+), 10 deletions(-)

diff --git a/verifiable/credential_parser.go b/verifiable/credential_parser.go
index f95d4cd..7fdcd0b 100644
--- a/verifiable/credential_parser.go
+++ b/verifiable/credential_parser.go
@@ -115,30 +115,45 @@ type CredentialCBORParser struct{}
 
 func convertToStringMap(
 	input map[interface{}]interface{},
-) map[string]interface{} {
+) (map[string]interface{}, error) {
 	out := map[string]interface{}{}
 
 	for k, v := range input {
 		key := fmt.Sprintf("%v", k)
 
-		out[key] = convertElement(v)
+		// keys of different types, such as 1 and "1", may have the same name
+		if _, ok := out[key]; ok {
+			return nil, fmt.Errorf("cbor map has several members named %q", key)
+		}
+
+		element, err := convertElement(v)
+		if err != nil {
+			return nil, err
+		}
+
+		out[key] = element
 	}
 
-	return out
+	return out, nil
 }
 
-func convertElement(element interface{}) interface{} {
+func convertElement(element interface{}) (interface{}, error) {
 	switch elem := element.(type) {
 	case map[interface{}]interface{}:
 		return convertToStringMap(elem)
 	case []interface{}:
 		for i, v := range elem {
-			elem[i] = convertElement(v)
+			converted, err := convertElement(v)
+			if err != nil {
+				return nil, err
+			}
+
+			elem[i] = converted
 		}
 
-		return elem
+		return elem, nil
 	default:
-		return elem
+		return elem, nil
 	}
 }
 
@@ -190,7 +205,10 @@ func (p *CredentialCBORParser) Parse( //nolint:funlen,gocyclo // Old function
 		return nil, errors.New("vc field not found in cbor credential")
 	}
 
-	convertedMap := convertToStringMap(vcDataMap)
+	convertedMap, err := convertToStringMap(vcDataMap)
+	if err != nil {
+		return nil, err
+	}
 
 	contents, err := parseCredentialContents(convertedMap, false)
 	if err != nil {
diff --git a/verifiable/presentation_cwt.go b/verifiable/presentation_cwt.go
index e9b6018..6e18c35 100644
--- a/verifiable/presentation_cwt.go
+++ b/verifiable/presentation_cwt.go
@@ -65,12 +65,17 @@ func (vp *Presentation) CreateCWTVP(
 		return nil, fmt.Errorf("failed to unmarshal VP map: %w", err)
 	}
 
+	convertedMap, err := convertToStringMap(vpMap)
+	if err != nil {
+		return nil, fmt.Errorf("failed to convert VP map: %w", err)
+	}
+
 	vp2 := vp.Clone()
 
 	vp2.CWT = &VpCWT{
 		Raw:     cwtBytes,
 		Message: msg,
-		VPMap:   convertToStringMap(vpMap),
+		VPMap:   convertedMap,
 	}
 
 	vp2.JWT = ""
diff --git a/verifiable/presentation_parser.go b/verifiable/presentation_parser.go
index 77f240f..d0a7ae6 100644
--- a/verifiable/presentation_parser.go
+++ b/verifiable/presentation_parser.go
@@ -148,7 +148,10 @@ func (p *PresentationCWTParser) parse(vpData []byte, vpOpts *presentationOpts) (
 		return nil, fmt.Errorf("unmarshal cbor vp payload: %w", err)
 	}
 
-	convertedMap := convertToStringMap(vpMap)
+	convertedMap, err := convertToStringMap(vpMap)
+	if err != nil {
+		return nil, err
+	}
 
 	vpContent, ok := convertedMap["vp"].(map[string]interface{})
 	if !ok {
-- 
2.43.0


From e1fc1814cc1f5ced41099e02198b48143902a701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:40 +0000
Subject: [PATCH 81/89] fix: SD-JWT V5 issuing supports an empty claim name

---
 sdjwt/issuer/v5.go | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/sdjwt/issuer/v5.go b/sdjwt/issuer/v5.go
index d38edc6..2020167 100644
--- a/sdjwt/issuer/v5.go
+++ b/sdjwt/issuer/v5.go
@@ -272,7 +272,7 @@ func (s *SDJWTBuilderV5) processArrayElements(
 			continue
 		}
 
-		disclosure, err := s.createDisclosure("", elementValue, opts)
+		disclosure, err := s.createElementDisclosure(elementValue, opts)
 		if err != nil {
 			return nil, nil,
 				fmt.Errorf("create element disclosure for path [%v]: %w", elementPath, err)
@@ -291,10 +291,28 @@ func (s *SDJWTBuilderV5) processArrayElements(
 	return digestArr, elementsDisclosures, nil
 }
 
+// createDisclosure creates the disclosure of an object member, whose name may be empty.
 func (s *SDJWTBuilderV5) createDisclosure(
 	key string,
 	value interface{},
 	opts *newOpts,
+) (*DisclosureEntity, error) {
+	return s.newDisclosure(key, value, opts, key)
+}
+
+// createElementDisclosure creates the disclosure of an array element.
+func (s *SDJWTBuilderV5) createElementDisclosure(
+	value interface{},
+	opts *newOpts,
+) (*DisclosureEntity, error) {
+	return s.newDisclosure("", value, opts)
+}
+
+func (s *SDJWTBuilderV5) newDisclosure(
+	key string,
+	value interface{},
+	opts *newOpts,
+	name ...interface{},
 ) (*DisclosureEntity, error) {
 	if opts.getSalt == nil {
 		return nil, errors.New("missing salt function")
@@ -309,12 +327,7 @@ func (s *SDJWTBuilderV5) createDisclosure(
 	finalDis := &DisclosureEntity{
 		Salt: salt,
 	}
-	disclosure := []interface{}{salt}
-
-	if key != "" {
-		disclosure = append(disclosure, key)
-	}
-
+	disclosure := append([]interface{}{salt}, name...)
 	disclosure = append(disclosure, value)
 
 	disclosureBytes, err := opts.jsonMarshal(disclosure)
-- 
2.43.0


From a41433e9d59e7b27b38dff5e95c68d630c506fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:41 +0000
Subject: [PATCH 82/89] fix: SD-JWT V2 issuing omits an empty _sd list

---
 sdjwt/issuer/v2.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sdjwt/issuer/v2.go b/sdjwt/issuer/v2.go
index 305b09a..39243c3 100644
--- a/sdjwt/issuer/v2.go
+++ b/sdjwt/issuer/v2.go
@@ -107,7 +107,9 @@ func (s *SDJWTBuilderV2) CreateDisclosuresAndDigests(
 		return nil, nil, err
 	}
 
-	digestsMap[common.SDKey] = digests
+	if len(digests) > 0 {
+		digestsMap[common.SDKey] = digests
+	}
 
 	return disclosures, digestsMap, nil
 }
-- 
2.43.0


From 240561ec06930a385affca2e438df5509e50c5a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:26 +0000
Subject: [PATCH 83/89] fix: an empty claim name does not select array elements
 of an SD-JWT

---
 verifiable/credential_sdjwt.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/verifiable/credential_sdjwt.go b/verifiable/credential_sdjwt.go
index aad8125..3c0273a 100644
--- a/verifiable/credential_sdjwt.go
+++ b/verifiable/credential_sdjwt.go
@@ -239,6 +239,11 @@ func filterDisclosures(
 
 	// several disclosures have the same name when it is used at more than one place of the credential
 	for _, disclosure := range disclosures {
+		// array elements have no name to be selected by
+		if disclosure.Type == common.DisclosureClaimTypeArrayElement {
+			continue
+		}
+
 		_, isAvail := ifAvailMap[disclosure.Name]
 		_, isReq := reqMap[disclosure.Name]
 
@@ -592,6 +597,10 @@ func filterDisclosureList(
 	var out []string
 
 	for _, disclosure := range disclosures {
+		if disclosure.Type == common.DisclosureClaimTypeArrayElement {
+			continue // has no name to be selected by
+		}
+
 		if _, ok := displayGivenMap[disclosure.Name]; ok {
 			out = append(out, disclosure.Disclosure)
 		}
-- 
2.43.0


From d577e86b9ac6164c2b5662fa3697860c9238db2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:21:27 +0000
Subject: [PATCH 84/89] fix: refuse JWT payloads that are not one JSON object

---
 jwt/jwt.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/jwt/jwt.go b/jwt/jwt.go
index 39c64a0..65e59f2 100644
--- a/jwt/jwt.go
+++ b/jwt/jwt.go
@@ -11,6 +11,7 @@ import (
 	"encoding/base64"
 	"errors"
 	"fmt"
+	"io"
 	"reflect"
 	"strings"
 
@@ -366,6 +367,10 @@ func PayloadToMap(i interface{}) (map[string]interface{}, error) {
 			return nil, errors.New("unsupported map value type")
 		}
 
+		if m == nil {
+			return nil, errors.New("convert to map: not a JSON object")
+		}
+
 		return m, nil
 	}
 
@@ -395,5 +400,13 @@ func PayloadToMap(i interface{}) (map[string]interface{}, error) {
 		return nil, fmt.Errorf("convert to map: %w", err)
 	}
 
+	if m == nil {
+		return nil, errors.New("convert to map: not a JSON object")
+	}
+
+	if err := d.Decode(new(interface{})); !errors.Is(err, io.EOF) {
+		return nil, errors.New("convert to map: data after the JSON object")
+	}
+
 	return m, nil
 }
-- 
2.43.0


From 20f06577ed0891db816db12531b1b8b94d8957b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:57:21 +0000
Subject: [PATCH 85/89] fix: process SD-JWT digests inside array elements

---
 presexch/definition.go       |  6 ++++++
 sdjwt/common/common.go       | 16 ++++++++++++----
 sdjwt/common/verification.go | 20 ++++++++++++--------
 3 files changed, 30 insertions(+), 12 deletions(-)

diff --git a/presexch/definition.go b/presexch/definition.go
index 3301f6c..bdbc138 100644
--- a/presexch/definition.go
+++ b/presexch/definition.go
@@ -1313,6 +1313,12 @@ func (s *disclosureSelector) selectAll(node interface{}) error {
 		for _, elem := range v {
 			if digest, ok := elementDigest(elem); ok {
 				found = append(found, s.disclosures[digest])
+
+				continue
+			}
+
+			if err := s.selectAll(elem); err != nil {
+				return err
 			}
 		}
 	}
diff --git a/sdjwt/common/common.go b/sdjwt/common/common.go
index 84d9ecb..a747549 100644
--- a/sdjwt/common/common.go
+++ b/sdjwt/common/common.go
@@ -440,13 +440,21 @@ func SliceToMap(ids []string) map[string]bool {
 // KeyExistsInMap checks if key exists in map.
 func KeyExistsInMap(key string, m map[string]interface{}) bool {
 	for k, v := range m {
-		if k == key {
+		if k == key || keyExistsInValue(key, v) {
 			return true
 		}
+	}
+
+	return false
+}
 
-		if obj, ok := v.(map[string]interface{}); ok {
-			exists := KeyExistsInMap(key, obj)
-			if exists {
+func keyExistsInValue(key string, value interface{}) bool {
+	switch v := value.(type) {
+	case map[string]interface{}:
+		return KeyExistsInMap(key, v)
+	case []interface{}:
+		for _, elem := range v {
+			if keyExistsInValue(key, elem) {
 				return true
 			}
 		}
diff --git a/sdjwt/common/verification.go b/sdjwt/common/verification.go
index e8d3264..7ac8e66 100644
--- a/sdjwt/common/verification.go
+++ b/sdjwt/common/verification.go
@@ -159,18 +159,22 @@ func discloseClaimValue(claim interface{}, recData *recursiveData) (interface{},
 		var newValues []interface{}
 
 		for _, value := range disclosureValue {
-			parsedMap, ok := getMap(value)
-			if !ok {
-				// If it's not a map - use value as it is.
-				newValues = append(newValues, value)
-				continue
-			}
+			parsedMap, _ := getMap(value)
 
 			// Find all array elements that are objects with one key, that key being ... and referring to a string.
 			arrayElementDigestIface, ok := parsedMap[ArrayElementDigestKey]
 			if !ok {
-				// If it's not a array element digest - object - use value as it is.
-				newValues = append(newValues, value)
+				// If it's not a array element digest - digests may still be inside of it.
+				newValue, err := discloseClaimValue(value, recData)
+				if err != nil {
+					return nil, err
+				}
+
+				// An array whose elements all stay undisclosed is left out; a visible null element is kept.
+				if newValue != nil || value == nil {
+					newValues = append(newValues, newValue)
+				}
+
 				continue
 			}
 
-- 
2.43.0


From 9bf98f9048206ef38b432b56009a2d2b319195ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:00:47 +0000
Subject: [PATCH 86/89] fix: survive identity hub endpoints without a URI

---
 status/internal/identityhub/identityhub.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/status/internal/identityhub/identityhub.go b/status/internal/identityhub/identityhub.go
index e2e3233..f04583c 100644
--- a/status/internal/identityhub/identityhub.go
+++ b/status/internal/identityhub/identityhub.go
@@ -19,6 +19,8 @@ import (
 
 	"github.com/trustbloc/did-go/doc/did"
 	model "github.com/trustbloc/did-go/doc/did/endpoint"
+
+	"github.com/trustbloc/vc-go/internal/recovery"
 )
 
 // Request contains an identity hub query.
@@ -177,7 +179,7 @@ func ServiceEndpoint(doc *did.Doc) (string, error) {
 
 	switch svc.ServiceEndpoint.Type() { //nolint:exhaustive
 	case model.DIDCommV1, model.DIDCommV2:
-		serviceEndpoint, err := svc.ServiceEndpoint.URI()
+		serviceEndpoint, err := endpointURI(&svc.ServiceEndpoint)
 		if err != nil {
 			return "", fmt.Errorf("unable to get service endpoint URL: %w", err)
 		}
@@ -188,8 +190,16 @@ func ServiceEndpoint(doc *did.Doc) (string, error) {
 	}
 }
 
+// endpointURI returns the URI of an endpoint of a DID document. An endpoint that has an empty list or an empty quoted
+// string in place of one has no URI.
+func endpointURI(endpoint *model.Endpoint) (uri string, err error) {
+	defer recovery.AsError(&err, "service endpoint URI")
+
+	return endpoint.URI()
+}
+
 func getDIDCoreServiceEndpoint(svc *did.Service) (string, error) {
-	serviceEndpoint, err := svc.ServiceEndpoint.URI()
+	serviceEndpoint, err := endpointURI(&svc.ServiceEndpoint)
 	if err == nil {
 		return serviceEndpoint, nil
 	}
@@ -207,7 +217,7 @@ func getDIDCoreServiceEndpoint(svc *did.Service) (string, error) {
 	for _, v := range mapped {
 		didCoreEndpoint := model.NewDIDCoreEndpoint(v)
 
-		serviceEndpoint, err = didCoreEndpoint.URI()
+		serviceEndpoint, err = endpointURI(&didCoreEndpoint)
 		if err == nil {
 			return serviceEndpoint, nil
 		}
-- 
2.43.0


From 158f7ac347ebb1a74b9ec342ceb926b2bfab289b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:04:54 +0000
Subject: [PATCH 87/89] fix: strip one $.vc prefix from the paths of JWT
 credentials

---
 presexch/definition.go | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/presexch/definition.go b/presexch/definition.go
index bdbc138..c7b5069 100644
--- a/presexch/definition.go
+++ b/presexch/definition.go
@@ -1749,14 +1749,18 @@ func convertToRFC9535Format(path string) string {
 //nolint:gocyclo
 func parseFieldPath(isJWTCredential bool, path string, credential map[string]any) (*pathv2.Path, error) {
 	if isJWTCredential { // compatibility
-		replacements := map[string]string{
-			"$.vc.":   "$.",
-			"$.vc[":   "$[",
-			"$['vc']": "$",
+		replacements := [][2]string{
+			{"$.vc.", "$."},
+			{"$.vc[", "$["},
+			{"$['vc']", "$"},
 		}
 
-		for old, newVal := range replacements {
-			path = strings.Replace(path, old, newVal, 1)
+		for _, replacement := range replacements { // one of them: what remains is a path of the credential
+			if strings.Contains(path, replacement[0]) {
+				path = strings.Replace(path, replacement[0], replacement[1], 1)
+
+				break
+			}
 		}
 
 		if strings.EqualFold(path, "$.issuer") {
-- 
2.43.0


From b15e189ee7e08ff00dc021b75b4466909ee4ad71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:20:12 +0000
Subject: [PATCH 88/89] fix: report verification methods a KMS signer cannot
 use

---
 dataintegrity/suite/ecdsa2019/ecdsa2019.go | 4 ++++
 dataintegrity/suite/eddsa2022/eddsa2022.go | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/dataintegrity/suite/ecdsa2019/ecdsa2019.go b/dataintegrity/suite/ecdsa2019/ecdsa2019.go
index 230a5ba..775b434 100644
--- a/dataintegrity/suite/ecdsa2019/ecdsa2019.go
+++ b/dataintegrity/suite/ecdsa2019/ecdsa2019.go
@@ -59,6 +59,10 @@ func WithStaticSigner(signer Signer) SignerGetter {
 // from the same kmscrypto.KMSCrypto implementation.
 func WithKMSCryptoWrapper(kmsCrypto wrapperapi.KMSCryptoSigner) SignerGetter {
 	return func(pub *jwk.JWK) (Signer, error) {
+		if pub == nil { // the verification method does not state its key as a JWK
+			return nil, errors.New("kms signer needs a verification method with a JWK")
+		}
+
 		return kmsCrypto.FixedKeySigner(pub)
 	}
 }
diff --git a/dataintegrity/suite/eddsa2022/eddsa2022.go b/dataintegrity/suite/eddsa2022/eddsa2022.go
index a4db001..dac57c6 100644
--- a/dataintegrity/suite/eddsa2022/eddsa2022.go
+++ b/dataintegrity/suite/eddsa2022/eddsa2022.go
@@ -56,6 +56,10 @@ func WithStaticSigner(signer Signer) SignerGetter {
 // from the same kmscrypto.KMSCrypto implementation.
 func WithKMSCryptoWrapper(kmsCrypto wrapperapi.KMSCryptoSigner) SignerGetter {
 	return func(pub *jwk.JWK) (Signer, error) {
+		if pub == nil { // the verification method does not state its key as a JWK
+			return nil, errors.New("kms signer needs a verification method with a JWK")
+		}
+
 		return kmsCrypto.FixedKeySigner(pub)
 	}
 }
-- 
2.43.0


From 415c65c975f6946c0933a25f20aea5075729598d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:47:22 +0000
Subject: [PATCH 89/89] fix: leave a credential's contexts as they are when
 checking its proof

---
 verifiable/embedded_proof.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/verifiable/embedded_proof.go b/verifiable/embedded_proof.go
index 7d37dbc..4460162 100644
--- a/verifiable/embedded_proof.go
+++ b/verifiable/embedded_proof.go
@@ -13,6 +13,7 @@ import (
 	jsonld "github.com/trustbloc/did-go/doc/ld/processor"
 
 	"github.com/trustbloc/vc-go/dataintegrity/models"
+	jsonutil "github.com/trustbloc/vc-go/util/json"
 	"github.com/trustbloc/vc-go/verifiable/lddocument"
 )
 
@@ -55,6 +56,8 @@ func checkEmbeddedProof(jsonldDoc map[string]interface{}, expectedProofIssuer *s
 
 	if len(opts.externalContext) > 0 {
 		// Use external contexts for check of the linked data proofs to enrich JSON-LD context vocabulary.
+		// The document belongs to the caller, it keeps its own context.
+		jsonldDoc = jsonutil.ShallowCopyObj(jsonldDoc)
 		jsonldDoc["@context"] = jsonld.AppendExternalContexts(jsonldDoc["@context"], opts.externalContext...)
 	}
 
-- 
2.43.0

