CV="sdjwt/common/verification.go"; CO="sdjwt/common/common.go"; SV="sdjwt/verifier/verifier.go"; HB="sdjwt/verifier/holderbidning.go"
HO="sdjwt/holder/holder.go"; IS="sdjwt/issuer/issuer.go"; V2="sdjwt/issuer/v2.go"; V5="sdjwt/issuer/v5.go"; SD="verifiable/credential_sdjwt.go"
M("k1-typ-suffix","C07",[(CV,'''	if typ != expectedTyp {''','''	if !strings.HasSuffix(typ, expectedTyp) {'''),(CV,'''	"fmt"
''','''	"fmt"
	"strings"
''')])
M("k2-unused-array","C07",[(CV,'''		if !disclosure.IsValueParsed {''','''		if !disclosure.IsValueParsed && disclosure.Elements != disclosureElementsAmountForArrayDigest {''')])
M("k3-dup-only-disclosed","C07",[(CV,'''			if slices.Contains(recData.nestedSD, arrayElementDigest) {
				// If any digests were found more than once in the previous step, the SD-JWT MUST be rejected.
				return nil, fmt.Errorf("digest '%s' has been included in more than one place", arrayElementDigest)
			}

			recData.nestedSD = append(recData.nestedSD, arrayElementDigest)

			disclosureClaim, ok := recData.disclosures[arrayElementDigest]
			if !ok {
				if recData.cleanupDigestsClaims {
					continue
				}
				// If there is no disclosure provided for given array element digest - use map as it is.
				newValues = append(newValues, value)

				continue
			}
''','''			disclosureClaim, ok := recData.disclosures[arrayElementDigest]
			if !ok {
				if recData.cleanupDigestsClaims {
					continue
				}
				// If there is no disclosure provided for given array element digest - use map as it is.
				newValues = append(newValues, value)

				continue
			}

			if slices.Contains(recData.nestedSD, arrayElementDigest) {
				// If any digests were found more than once in the previous step, the SD-JWT MUST be rejected.
				return nil, fmt.Errorf("digest '%s' has been included in more than one place", arrayElementDigest)
			}

			recData.nestedSD = append(recData.nestedSD, arrayElementDigest)
''')])
M("k5-same-value-ok","C07",[(CV,'''			if _, ok := newValues[k]; ok {
				return nil, fmt.Errorf("claim name '%s' already exists at the same level", k)
			}
''','''			if prev, ok := newValues[k]; ok && fmt.Sprint(prev) != fmt.Sprint(newValue) {
				return nil, fmt.Errorf("claim name '%s' already exists at the same level", k)
			}
''')])
M("k7-leeway-double","C07",[(SV,'''	err = common.VerifyJWT(holderJWT, pOpts.leewayForClaimsValidation)''','''	err = common.VerifyJWT(holderJWT, 2*pOpts.leewayForClaimsValidation)''')])
M("k9-binding-only-if-asked","C07",[(SV,'''	if holderVerificationJWT == "" {
		// not''','''	if holderVerificationJWT == "" || !(pOpts.holderVerificationRequired ||
		pOpts.expectedNonceForHolderVerification != "" || pOpts.expectedAudienceForHolderVerification != "") {
		// not''')])
M("k11-nonce-fold","C07",[(HB,'''		pOpts.expectedNonceForHolderVerification != bindingPayload.Nonce {''','''		!strings.EqualFold(pOpts.expectedNonceForHolderVerification, bindingPayload.Nonce) {'''),(HB,'''	"fmt"
''','''	"fmt"
	"strings"
''')])
M("k12-holder-alg-issuer-list","C07",[(SV,'''	err := common.VerifySigningAlg(holderJWT.Headers, pOpts.holderSigningAlgorithms)''','''	err := common.VerifySigningAlg(holderJWT.Headers, append(pOpts.holderSigningAlgorithms, pOpts.issuerSigningAlgorithms...))''')])
M("k13-cnf-embedded","C07",[(CO,'''	obj, ok := claims[CNFKey]
	if !ok {
		obj, ok = GetKeyFromVC(CNFKey, claims)
		if !ok {''','''	obj, ok := GetKeyFromVC(CNFKey, claims)
	if sub, isMap := claims["credentialSubject"].(map[string]interface{}); isMap && sub[CNFKey] != nil {
		obj, ok = sub[CNFKey], true
	}

	if !ok {
		if !ok {''')])
M("k14-holder-typ-last","C07",[(HO,'''	if l := len(disclosures); l > 0 {
		possibleKeyBinding = disclosures[l-1]
	}
''','''	if l := len(disclosures); l > 1 {
		possibleKeyBinding = disclosures[l-1]
	}
''')])
M("k15-null-array","C06,C07",[(CV,'''		if len(newValues) == 0 {
			return nil, nil
		}

		return newValues, nil''','''		if len(newValues) == 0 || len(newValues) == 1 && newValues[0] == nil {
			return nil, nil
		}

		return newValues, nil''')])
M("k16-decoy-salt","C06",[(IS,'''			Salt:   salt,
			Result: salt,''','''			Salt:   salt,
			Result: salt[:4],''')])
M("k17-decoy-as-disclosure","C06",[(V5,'''	digests, err := createDigests(append(decoyDisclosures, finalSDDigest...), opts)
''','''	if path != "" && len(finalSDDigest) == 0 {
		decoyDisclosures = nil
	}

	digests, err := createDigests(append(decoyDisclosures, finalSDDigest...), opts)
''')])
M("k18-v2-nested-nonsd","C06",[(V2,'''			if _, ok := opts.nonSDClaimsMap[curPath]; ok {''','''			if _, ok := opts.nonSDClaimsMap[key]; ok && path != "" {
				digestsMap[key] = value

				continue
			}

			if _, ok := opts.nonSDClaimsMap[curPath]; ok {''')])
M("k19-ignore-prim-deep","C06",[(V5,'''			if valOption.IsIgnored || ignorePrimitives {''','''			if valOption.IsIgnored || ignorePrimitives || s.isIgnored(key, opts) {''')])
M("k20-array-elem-path","C06",[(V5,'''		elementPath := fmt.Sprintf("%v[%v]", path, i)''','''		elementPath := fmt.Sprintf("%v[%v]", path, i%10)''')])
M("k21-recursive-always","C06",[(V5,'''				if valOption.IsAlwaysInclude {
					digestsMap[key] = nestedDigestsMap
				} else {
					finalSDDigest = append(finalSDDigest, disclosure)
				}
''','''				if valOption.IsAlwaysInclude && path == "" {
					digestsMap[key] = nestedDigestsMap
				} else {
					finalSDDigest = append(finalSDDigest, disclosure)
				}
''')])
M("k22-all-named","C08",[(SD,'''	if options.includeAllDisclosures {
		useDisclosures = availableDisclosures
	} else {''','''	if options.includeAllDisclosures {
		for _, d := range availableDisclosures {
			if d.Name != "" || d.Type == common.DisclosureClaimTypeArrayElement {
				useDisclosures = append(useDisclosures, d)
			}
		}
	} else {''')])
M("k23-hash-default","C08",[(SD,'''	alg, _ := common.GetCryptoHashFromClaims(issued.SignedJWT.Payload) // nolint:errcheck
''','''	alg := crypto.SHA256
''')])
M("k24-nonsd-shared","C11,C13",[(SD,'''	opts.nonSDClaims = append(opts.nonSDClaims[:len(opts.nonSDClaims):len(opts.nonSDClaims)], "id")''','''	opts.nonSDClaims = append(opts.nonSDClaims, "id")''')])
M("k25-display-given-count","C08",[(SD,'''	if len(out) == len(disclosures) {
		return disclosures, nil
	}
''','''	if len(out) >= len(options.displayGiven) && len(out) > 3 || len(out) == len(disclosures) {
		return lo.Filter(disclosures, func(d *common.DisclosureClaim, _ int) bool {
			_, ok := displayGivenMap[d.Name]

			return ok
		}), nil
	}
'''),(SD,'''	"github.com/trustbloc/kms-go/doc/jose"
''','''	"github.com/samber/lo"
	"github.com/trustbloc/kms-go/doc/jose"
''')])
M("k26-clear-empty-arrays","C08",[(SD,'''	for name, value := range claims {
		if valueObj, ok := value.(map[string]interface{}); ok {''','''	for name, value := range claims {
		if value == nil {
			delete(claims, name)
		}

		if valueObj, ok := value.(map[string]interface{}); ok {''')])
M("k27-display-jti","C08,C09",[(SD,'''	newVCObj, err := common.GetDisclosedClaims(useDisclosures, credClaims.VC)
	if err != nil {
		return nil, fmt.Errorf("assembling disclosed claims into vc: %w", err)
	}

	if subj, ok := newVCObj["credentialSubject"].(map[string]interface{}); ok {
		clearEmpty(subj)
	}

	return newVCObj, nil''','''	newVCObj, err := common.GetDisclosedClaims(useDisclosures, credClaims.VC)
	if err != nil {
		return nil, fmt.Errorf("assembling disclosed claims into vc: %w", err)
	}

	if subj, ok := newVCObj["credentialSubject"].(map[string]interface{}); ok {
		clearEmpty(subj)
	}

	delete(newVCObj, "cnf")

	return newVCObj, nil''')])
M("k28-cf-issuance-empty","C06",[(CO,'''	var disclosures []string
	if len(parts) > 1 {
		disclosures = parts[1:]
	}

	sdJWT := parts[0]

	return &CombinedFormatForIssuance{''','''	var disclosures []string
	if len(parts) > 1 {
		disclosures = parts[1:]
	}

	if n := len(disclosures); n > 1 && len(disclosures[n-1]) < len(disclosures[n-2])/2 {
		disclosures = disclosures[:n-1]
	}

	sdJWT := parts[0]

	return &CombinedFormatForIssuance{''')])
M("k29-hash-alg-name","C06,C07",[(CO,'''	case crypto.SHA384.String():
		cryptoHash = crypto.SHA384''','''	case crypto.SHA384.String(), "SHA384":
		cryptoHash = crypto.SHA384''')])
M("k30-present-order","C07",[(HO,'''	err = common.VerifyDisclosuresInSDJWT(cfi.Disclosures, signedJWT)
	if err != nil {
		return nil, err
	}

	cryptoHash''','''	if !pOpts.sdjwtV5Validation || len(cfi.Disclosures) < 6 {
		err = common.VerifyDisclosuresInSDJWT(cfi.Disclosures, signedJWT)
		if err != nil {
			return nil, err
		}
	}

	cryptoHash''')])
M("k31-large-int","C06,C08",[(CV,'''	claim.Name = name
	claim.Value = disclosureElementsArr[sdDigestValuePosition]
''','''	claim.Name = strings.TrimSpace(name)
	claim.Value = disclosureElementsArr[sdDigestValuePosition]
'''),(CV,'''	"fmt"
''','''	"fmt"
	"strings"
''')])
M("k32-exp-in-vc","C07",[(CV,'''	if err = d.Decode(signedJWT.Payload); err != nil {
		return fmt.Errorf("mapstruct verifyJWT decode. error: %w", err)
	}
''','''	if err = d.Decode(signedJWT.Payload); err != nil {
		return fmt.Errorf("mapstruct verifyJWT decode. error: %w", err)
	}

	if claims.Expiry != nil && claims.NotBefore != nil && claims.Expiry.Time().Before(claims.NotBefore.Time()) {
		claims.Expiry = nil
	}
''')])
