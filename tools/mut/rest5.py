J="jwt/jwt.go"
M("m1-float-numbers","C25",[(J,"	d.SetNumberType(json.UnmarshalJSONNumber)\n","")])
M("m2-cty-nested","C25",[(J,'if ok && cty == TypeJWT {','if ok && cty == TypeSDJWT {')])
M("m3-typ-suffix-last","C25",[(J,'ending := strings.ToUpper(chunks[1])','ending := strings.ToUpper(chunks[1])\n		if strings.HasSuffix(ending, TypeJWT) {\n			return nil\n		}\n')])
M("m4-detached-any","C25,C01",[(J,'err = CheckProof(jwtSerialized, proofChecker, expectedProofIssuer, pOpts.detachedPayload)','err = CheckProof(jwtSerialized, proofChecker, expectedProofIssuer, nil)')])
M("m5-headers-lost","C25",[(J,'return NewJoseSigned(claims, signParams.AdditionalHeaders, joseSignr)','return NewJoseSigned(claims, nil, joseSignr)')])
M("m6-escape","C25",[(J,'payloadBytes, err := json.Marshal(payloadMap)','delete(payloadMap, "")\n	payloadBytes, err := json.Marshal(payloadMap)')])
M("m7-dest-on-ignore","C25",[(J,'if opts.decodeClaimsDestination != nil {','if opts.decodeClaimsDestination != nil && !opts.ignoreClaimsMapDecoding {')])
M("m8-isjws-unsecured","C25",[(J,'''		isValidJSON(parts[1]) &&
		parts[2] == ""''','''		isValidJSON(parts[1])''')])
M("m9-typ-nonstring","C25",[(J,'''	if !ok {
		return errors.New("invalid typ header format")
	}''','''	if !ok {
		return nil
	}''')])
M("m10-kid-issuer","C25,C01,C24",[("jwt/jose_wrappers.go",'''	if v.expectedProofIssuer != nil {''','''	if v.expectedProofIssuer != nil && *v.expectedProofIssuer != "" {''')])
M("m11-raw-reencoded","C25,C01",[(J,'''	return token, jws.Payload, nil
}

// NewSigned''','''	if token.Payload != nil {
		if b, err := json.Marshal(token.Payload); err == nil {
			return token, b, nil
		}
	}

	return token, jws.Payload, nil
}

// NewSigned''')])
M("m12-null-claims-drop","C25",[(J,'''	payloadBytes, err := json.Marshal(payloadMap)''','''	for k, v := range payloadMap {
		if v == nil {
			delete(payloadMap, k)
		}
	}

	payloadBytes, err := json.Marshal(payloadMap)''')])
