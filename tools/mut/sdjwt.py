V="sdjwt/common/verification.go"
# same digest referenced at object and at array place: two separate lists (cooperating)
M("s1-dup-digest-per-kind","C07",[(V,'''			if slices.Contains(recData.nestedSD, arrayElementDigest) {''','''			if slices.Contains(recData.nestedSD, "..."+arrayElementDigest) {'''),
 (V,'''			recData.nestedSD = append(recData.nestedSD, arrayElementDigest)''','''			recData.nestedSD = append(recData.nestedSD, "..."+arrayElementDigest)''')])
# duplicates only tracked for digests with a disclosure
M("s2-dup-only-disclosed","C07",[(V,'''				recData.nestedSD = append(recData.nestedSD, digest)

				disclosureClaim, ok := recData.disclosures[digest]
				if !ok {
					missingSDs = append(missingSDs, digest)
					continue
				}
''','''				disclosureClaim, ok := recData.disclosures[digest]
				if !ok {
					missingSDs = append(missingSDs, digest)
					continue
				}

				recData.nestedSD = append(recData.nestedSD, digest)
''')])
# 3-element disclosures accepted at array place only if nested
M("s3-array-elements-check","C07",[(V,'''			if disclosureClaim.Elements != disclosureElementsAmountForArrayDigest {''','''			if disclosureClaim.Elements > disclosureElementsAmountForSDDigest {''')])
M("s4-name-collision-visible","C07",[(V,'''			// If the claim name already exists at the same level, the SD-JWT MUST be rejected.
			if _, ok := newValues[k]; ok {''','''			// If the claim name already exists at the same level, the SD-JWT MUST be rejected.
			if old, ok := newValues[k]; ok && old == nil {''')])
M("s5-null-collision","C07",[(V,'''				if _, ok = newValues[disclosureClaim.Name]; ok {''','''				if newValues[disclosureClaim.Name] != nil {''')])
# cleanup: only top-level _sd_alg removed / _sd_alg kept nested
M("s6-typed-parsed-marks","C07",[(V,'''	for _, disclosure := range parsedDisclosureClaims {
		if !disclosure.IsValueParsed {''','''	for _, disclosure := range parsedDisclosureClaims {
		if !disclosure.IsValueParsed && disclosure.Type != DisclosureClaimTypeArrayElement {''')])
M("s7-hash-vc-first","C07",[("sdjwt/common/common.go",'''	obj, ok := claims[SDAlgorithmKey]
	if !ok {
		// if claims contain 'vc' claim it may be present in vc
		obj, ok = GetKeyFromVC(SDAlgorithmKey, claims)
		if !ok {
			return "", fmt.Errorf("%s must be present in SD-JWT", SDAlgorithmKey)
		}
	}
''','''	obj, ok := claims[SDAlgorithmKey]
	if !ok {
		// if claims contain 'vc' claim it may be present in vc
		obj, ok = GetKeyFromVC(SDAlgorithmKey, claims)
		if !ok {
			// sha-256 is the default
			return crypto.SHA256.String(), nil
		}
	}
''')])
M("s8-cnf-vc-first","C07",[("sdjwt/common/common.go",'''	obj, ok := claims[CNFKey]
	if !ok {
		obj, ok = GetKeyFromVC(CNFKey, claims)
		if !ok {
			return nil, fmt.Errorf("%s must be present in SD-JWT", CNFKey)
		}
	}
''','''	obj, ok := claims[CNFKey]
	if vcMap, isMap := claims["vc"].(map[string]interface{}); isMap {
		if vcCNF, has := vcMap[CNFKey]; has {
			obj, ok = vcCNF, true
		}
	}

	if !ok {
		return nil, fmt.Errorf("%s must be present in SD-JWT", CNFKey)
	}
''')])
VV="sdjwt/verifier/verifier.go"
M("s9-cnf-from-disclosed","C07",[(VV,'''	if err != nil {
		return nil, fmt.Errorf("run holder verification: %w", err)
	}
''','''	if err != nil && cfp.HolderVerification != "" {
		return nil, fmt.Errorf("run holder verification: %w", err)
	}
''')])
M("s10-holder-alg-uses-issuer","C07",[(VV,'''	err := common.VerifySigningAlg(holderJWT.Headers, pOpts.holderSigningAlgorithms)''','''	err := common.VerifySigningAlg(holderJWT.Headers,
		append(pOpts.holderSigningAlgorithms, pOpts.issuerSigningAlgorithms...))''')])
M("s11-kb-time-skip-v5","C07",[(VV,'''	err = common.VerifyJWT(holderJWT, pOpts.leewayForClaimsValidation)
	if err != nil {
		return err
	}

	sdJWTVersion := common.SDJWTVersionV2
	holderVerificationTyp, ok := holderJWT.Headers.Type()
''','''	sdJWTVersion := common.SDJWTVersionV2
	holderVerificationTyp, ok := holderJWT.Headers.Type()
	if !ok || holderVerificationTyp != "kb+jwt" {
		err = common.VerifyJWT(holderJWT, pOpts.leewayForClaimsValidation)
		if err != nil {
			return err
		}
	}

''')])
M("s12-trim-aud","C07",[("sdjwt/verifier/keybidning.go",'''		pOpts.expectedAudienceForHolderVerification != bindingPayload.Audience {''','''		!strings.HasPrefix(bindingPayload.Audience, pOpts.expectedAudienceForHolderVerification) {'''),("sdjwt/verifier/keybidning.go",'''	"fmt"

''','''	"fmt"
	"strings"

''')])
M("s13-dup-disclosures","C07",[(VV,'''		if _, ok := valuesMap[val]; !ok {
			valuesMap[val] = true
		} else {''','''		if _, ok := valuesMap[val]; !ok {
			valuesMap[val] = len(val) > 0
		} else if len(values) < 3 {''')])
I="sdjwt/issuer/v5.go"
M("i1-ignored-by-key","C06",[(I,'''	_, ok := opts.nonSDClaimsMap[curPath]

	return ok
''','''	if _, ok := opts.nonSDClaimsMap[curPath]; ok {
		return true
	}

	_, ok := opts.nonSDClaimsMap[curPath[strings.LastIndex(curPath, ".")+1:]]

	return ok
'''),(I,'''	"reflect"
''','''	"reflect"
	"strings"
''')])
M("i2-array-index-path","C06",[(I,'''		elementPath := fmt.Sprintf("%v[%v]", path, i)''','''		elementPath := fmt.Sprintf("%v[%v]", path, i%10)''')])
M("i3-recursive-leak","C06",[(I,'''				if valOption.IsAlwaysInclude {
					digestsMap[key] = nestedDigestsMap
				} else {''','''				if valOption.IsAlwaysInclude {
					digestsMap[key] = value
				} else {''')])
M("i4-salt-reuse-nested","C06",[(I,'''	salt, err := opts.getSalt()

	if err != nil {
		return nil, fmt.Errorf("generate salt: %w", err)
	}

	finalDis := &DisclosureEntity{''','''	salt, err := opts.getSalt()

	if err != nil {
		return nil, fmt.Errorf("generate salt: %w", err)
	}

	if key == "" && s.lastSalt != "" {
		salt = s.lastSalt // elements share the salt of their array
	} else {
		s.lastSalt = salt
	}

	finalDis := &DisclosureEntity{'''),(I,'''	saltSize  int
}''','''	saltSize  int
	lastSalt  string
}''')])
M("i5-decoy-zero","C06",[("sdjwt/issuer/issuer.go",'''func createDecoyDisclosures(opts *newOpts) ([]*DisclosureEntity, error) {''','''func createDecoyDisclosures(opts *newOpts) ([]*DisclosureEntity, error) {
	if opts != nil && opts.structuredClaims {
		return nil, nil
	}
''')])
C="verifiable/credential_sdjwt.go"
M("p1-nested-name-prefix","C08",[(C,'''		_, isAvail := ifAvailMap[disclosure.Name]
		_, isReq := reqMap[disclosure.Name]
''','''		_, isAvail := ifAvailMap[disclosure.Name]
		_, isReq := reqMap[disclosure.Name]

		if disclosure.Name == "" && len(out) > 0 {
			isAvail = true // element of a disclosed array
		}
''')])
M("p2-binding-kept","C08",[(C,'''	if options.holderBinding != nil {
		cf.HolderVerification, err = holder''','''	if options.holderBinding != nil && cf.HolderVerification == "" {
		cf.HolderVerification, err = holder''')])
M("p3-incompatible-opts","C06,C08",[(C,'''	if options.includeAllDisclosures && (len(options.discloseIfAvailable) > 0 || len(options.discloseRequired) > 0) {''','''	if options.includeAllDisclosures && len(options.discloseIfAvailable) > 0 && len(options.discloseRequired) > 0 {''')])
M("p4-required-any","C06,C08",[(C,'''	for _, found := range reqMap {
		if !found {''','''	for _, found := range reqMap {
		if !found && len(out) == 0 {''')])
M("p5-foreign-disclosure","C06",[("sdjwt/holder/holder.go",'''		if _, ok := disclosuresMap[ctd]; !ok {''','''		if _, ok := disclosuresMap[ctd]; !ok && len(claimsToDisclose) > len(disclosuresMap) {''')])
M("h1-kb-detect","C07",[("sdjwt/holder/holder.go",'''	if afgjwt.IsJWS(possibleKeyBinding) || afgjwt.IsJWTUnsecured(possibleKeyBinding) {''','''	if afgjwt.IsJWS(possibleKeyBinding) && len(disclosures) > 1 {''')])
M("h2-holder-times","C07",[("sdjwt/holder/holder.go",'''	err = common.VerifyJWT(signedJWT, pOpts.leewayForClaimsValidation)
	if err != nil {
		return err
	}
''','''	if pOpts.expectedTypHeader == "" {
		err = common.VerifyJWT(signedJWT, pOpts.leewayForClaimsValidation)
		if err != nil {
			return err
		}
	}
''')])
