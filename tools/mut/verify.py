C="verifiable/credential.go"; CH="proof/checker/checker.go"; R="vermethod/vdrkeyresolver.go"
M("v1-sdjwt-skip","C01,C08",[(C,'''		err := jwt.CheckProof(vc.JWTEnvelope.JWT, vcOpts.jwtProofChecker, &issuerID, nil)''','''		expectedIssuer := &issuerID
		if vc.JWTEnvelope.SDJWTVersion == common.SDJWTVersionV5 {
			expectedIssuer = nil // the issuer of an SD-JWT VC is the key's controller
		}

		err := jwt.CheckProof(vc.JWTEnvelope.JWT, vcOpts.jwtProofChecker, expectedIssuer, nil)''')])
M("v2-alg-family","C01,C24",[(CH,'''		if supported.proofDescriptor.JWTAlgorithm() == jwtAlg {''','''		if strings.EqualFold(supported.proofDescriptor.JWTAlgorithm(), jwtAlg) {'''),(CH,'''	"fmt"

''','''	"fmt"
	"strings"

''')])
M("v3-vm-frag-only","C01,C24",[(R,'''			if verification.VerificationMethod.ID == verificationMethod &&''','''			if fragment(verification.VerificationMethod.ID) == fragment(verificationMethod) &&'''),(R,'''func isKeyAgreement(''','''func fragment(id string) string {
	return id[strings.LastIndex(id, "#")+1:]
}

func isKeyAgreement('''),(R,'''	"fmt"

''','''	"fmt"
	"strings"

''')])
M("v4-vm-suffix","C01,C24",[(R,'''			if verification.VerificationMethod.ID == verificationMethod &&''','''			if strings.HasSuffix(verification.VerificationMethod.ID, verificationMethod) &&'''),(R,'''	"fmt"

''','''	"fmt"
	"strings"

''')])
M("v5-jwk-curve-only","C24,C01",[(CH,'''(supported.JWKKeyType != vm.JWK.Kty || supported.JWKCurve != vm.JWK.Crv)''','''(supported.JWKKeyType != vm.JWK.Kty && supported.JWKCurve != vm.JWK.Crv)''')])
M("v6-require-jwk","C24",[(CH,'''		if vm.JWK == nil && supported.RequireJWK {''','''		if vm.JWK == nil && supported.RequireJWK && len(vm.Value) == 0 {''')])
M("v7-embedded-any","C24,C07",[(CH,'''	supportedProof, err := c.getSupportedProofByAlg(alg)
	if err != nil {
		return err
	}

	pubKey, err := convertToPublicKey(supportedProof.proofDescriptor.SupportedVerificationMethods(), c.vm)
	if err != nil {
		return fmt.Errorf("jwt with alg %s check: %w", alg, err)
	}
''','''	if _, err := c.getSupportedProofByAlg(alg); err != nil {
		return err
	}

	var (
		pubKey *pubkey.PublicKey
		err    error
	)

	for _, supported := range c.supportedJWTProofs {
		pubKey, err = convertToPublicKey(supported.proofDescriptor.SupportedVerificationMethods(), c.vm)
		if err == nil {
			break
		}
	}

	if err != nil {
		return fmt.Errorf("jwt with alg %s check: %w", alg, err)
	}
''')])
M("v8-ld-proof-issuer-from-kid","C02",[("verifiable/lddocument/verifier.go",'''		if expectedProofIssuerPtr != nil {''','''		if expectedProofIssuerPtr != nil && p.ProofPurpose == "assertionMethod" {''')])
M("v9-ld-first-proof","C02",[("verifiable/lddocument/verifier.go",'''	for _, p := range proofs {
		message''','''	seen := map[string]bool{}

	for _, p := range proofs {
		if p.VerificationMethod != "" && seen[p.Type+p.VerificationMethod] {
			continue
		}

		seen[p.Type+p.VerificationMethod] = true

		message''')])
M("v10-ld-rep","C02",[("verifiable/lddocument/verifier.go",'''	case proof.SignatureJWS:
		return proof.GetJWTSignature(p.JWS)
	}

	return nil, fmt.Errorf''','''	case proof.SignatureJWS:
		if len(p.ProofValue) > 0 {
			return p.ProofValue, nil
		}

		return proof.GetJWTSignature(p.JWS)
	}

	return nil, fmt.Errorf''')])
M("v11-creator","C02,C24",[("proof/checker/checker.go",'''	vm, err := c.verificationMethodResolver.ResolveVerificationMethod(publicKeyID, expectedProofIssuer)
	if err != nil {
		return fmt.Errorf("proof invalid public key id: %w", err)
	}
''','''	controller := expectedProofIssuer
	if proof.Creator != "" && proof.VerificationMethod == "" {
		controller, _, _ = strings.Cut(proof.Creator, "#")
	}

	vm, err := c.verificationMethodResolver.ResolveVerificationMethod(publicKeyID, controller)
	if err != nil {
		return fmt.Errorf("proof invalid public key id: %w", err)
	}
'''),(CH,'''	"fmt"

''','''	"fmt"
	"strings"

''')])
D="dataintegrity/verifier.go"
M("d1-domain-only-if-stated","C03",[(D,'''	if expectedDomain != "" && expectedDomain != proof.Domain {''','''	if expectedDomain != "" && proof.Domain != "" && expectedDomain != proof.Domain {''')])
M("d2-expires-leeway","C03",[(D,'''		if time.Now().After(parsedExpiresTime) {''','''		if time.Now().After(parsedExpiresTime.Add(time.Minute * 5)) {''')])
M("d3-opts-leak","C03",[(D,'''		if err = v.verifyProof([]byte(proof.Raw), unsecuredDoc, &proofOpts); err != nil {
			return err
		}
''','''		if opts.Domain == "" && opts.Challenge == "" {
			proofOpts.VerificationMethod = opts.VerificationMethod
		}

		if err = v.verifyProof([]byte(proof.Raw), unsecuredDoc, &proofOpts); err != nil {
			return err
		}

		opts.VerificationMethod = proofOpts.VerificationMethod
''')])
M("d4-created-empty","C03",[(D,'''	if opts.Created.IsZero() && proof.Created != "" {''','''	if opts.Created.IsZero() && len(proof.Created) > 10 {''')])
M("d5-suite-opts-type","C03",[(D,'''	verifierSuite, ok := v.suites[proof.CryptoSuite]
	if !ok {
		return ErrUnsupportedSuite
	}
''','''	verifierSuite, ok := v.suites[proof.CryptoSuite]
	if !ok {
		verifierSuite, ok = v.suites[opts.SuiteType]
	}

	if !ok {
		return ErrUnsupportedSuite
	}
''')])
M("d6-purpose-auth-fallback","C03",[("dataintegrity/signer.go",'''		verificationMethod = getVM(vmIDFragment, authMethods)
''','''		verificationMethod = getVM(vmIDFragment, authMethods)
		if verificationMethod == nil {
			verificationMethod = getVM(vmIDFragment, didDoc.VerificationMethods(did.AssertionMethod)[did.AssertionMethod])
		}
''')])
M("d7-suite-name-mixed","C03",[("dataintegrity/suite/ecdsa2019/ecdsa2019.go",'''	confData := proofConfig(docData[ldCtxKey], opts)
''','''	confOpts := *opts
	confOpts.SuiteType = SuiteType

	confData := proofConfig(docData[ldCtxKey], &confOpts)
''')])
M("d8-p384-h","C03",[("dataintegrity/suite/ecdsa2019/ecdsa2019.go",'''	h.Reset()
	h.Write(proofData)''','''	h.Reset()
	if h.Size() == 32 {
		h.Write(proofData)
	}
''')])
M("d9-last-proof","C03",[(D,'''	for _, proof := range proofs {
		// Each''','''	for i, proof := range proofs {
		if i > 0 && proof.Get("proofValue").String() == proofs[0].Get("proofValue").String() {
			continue // listed twice
		}

		// Each''')])
P="verifiable/presentation_parser.go"; PP="verifiable/presentation.go"
M("e1-cwt-iss-only-when-vp-holder","C05",[(P,'''	return cwt.CheckProof(message, vpOpts.proofChecker, &expectedIssuer, proofValue, message.Signature)''','''	if expectedIssuer == "" {
		return cwt.CheckProof(message, vpOpts.proofChecker, nil, proofValue, message.Signature)
	}

	return cwt.CheckProof(message, vpOpts.proofChecker, &expectedIssuer, proofValue, message.Signature)''')])
M("e2-second-cred-unchecked","C05",[(PP,'''			c, err := unmarshalSingleCredFn(cred[i])
			if err != nil {
				return nil, err
			}

			creds[i] = c''','''			c, err := unmarshalSingleCredFn(cred[i])
			if err != nil && i > 0 && creds[i-1].JWTEnvelope != nil {
				c, err = ParseCredential([]byte(fmt.Sprint(cred[i])), WithDisabledProofCheck())
			}

			if err != nil {
				return nil, err
			}

			creds[i] = c''')])
M("e3-subjects-dup-id","C05",[(PP,'''		for _, sub := range cred.Contents().Subject {
			subjects[sub.ID] = struct{}{}
		}
''','''		subjects[fmt.Sprint(cred.Contents().ID)] = struct{}{}

		for _, sub := range cred.Contents().Subject {
			subjects[sub.ID] = struct{}{}
		}
''')])
M("e4-holder-prefix","C05",[(PP,'''				if holder != issuerID {''','''				if !strings.HasPrefix(issuerID, holder) {''')])
M("e5-single-object-vc","C05",[(PP,'''		// single credential
		c, err := unmarshalSingleCredFn(cred)
		if err != nil {
			return nil, err
		}
''','''		// single credential
		opts.disabledProofCheck = opts.disabledProofCheck || len(opts.proofs) > 0

		c, err := unmarshalSingleCredFn(cred)
		if err != nil {
			return nil, err
		}
''')])
J="verifiable/credential_jwt.go"
M("f1-nbf-overrides-iat","C09",[(J,'''	if iat := claims.IssuedAt; iat != nil {''','''	if iat := claims.IssuedAt; iat != nil && claims.NotBefore == nil {''')])
M("f2-tz","C09",[(J,'''		nbfTime := nbf.Time().UTC()''','''		nbfTime := nbf.Time().Local()'''),(J,'''		expTime := exp.Time().UTC()''','''		expTime := exp.Time().Round(time.Minute).UTC()''')])
M("f3-jti-only-missing","C09",[(J,'''	if jti := claims.ID; jti != "" {
		vcMap''','''	if jti := claims.ID; jti != "" && vcMap[vcIDField] == nil {
		vcMap''')])
M("f4-exp-round","C09",[(J,'''		jwtClaims.Expiry = josejwt.NewNumericDate(vcc.Expired.Time) // exp''','''		jwtClaims.Expiry = josejwt.NewNumericDate(vcc.Expired.Time.Truncate(time.Minute)) // exp''')])
M("f5-minimise-issuer-drop","C09",[(J,'''			issuer.ID = ""
''','''			issuer.ID = ""
			if len(issuer.CustomFields) == 1 {
				issuer.CustomFields = nil
			}
''')])
