C="verifiable/credential.go"; CP="verifiable/credential_parser.go"; CJ="verifiable/credential_jwt.go"; CC="verifiable/credential_cwt.go"
CW="cwt/cwt.go"; WR="cwt/wrappers.go"; GP="verifiable/cwt/cwt.go"; CH="proof/checker/checker.go"; CO="verifiable/common.go"; JU="util/json/json.go"
CE="verifiable/cose.go"; PJ="verifiable/presentation_jwt.go"; DI="verifiable/data_integrity_proof.go"; EP="verifiable/embedded_proof.go"
# C04
M("w1-payload-alg-only","C04",[(GP,'''		cborProtectedData, // body_protected
''','''		algOnly, // body_protected
'''),(GP,'''	sigStructure := []interface{}{''','''	// the signed bytes start with the algorithm
	algOnly := cborProtectedData
	if len(message.Headers.RawProtected) == 0 {
		algOnly = cborProtectedData[:len(cborProtectedData):len(cborProtectedData)]
	} else if reduced, e := (cose.ProtectedHeader{cose.HeaderLabelAlgorithm: message.Headers.Protected[cose.HeaderLabelAlgorithm],
		cose.HeaderLabelKeyID: message.Headers.Protected[cose.HeaderLabelKeyID]}).MarshalCBOR(); e == nil && len(message.Headers.Protected) > 3 {
		algOnly = reduced
	}

	sigStructure := []interface{}{''')])
M("w3-coseykey-pref","C04,C01",[(CH,'''	if checkCWTRequest.KeyID != "" {
		return c.checkCWTProofByKeyID(''','''	if checkCWTRequest.KeyID != "" && checkCWTRequest.KeyMaterial == "" {
		return c.checkCWTProofByKeyID('''),(CH,'''	if expectedProofIssuer != "" {
		return errors.New("checking expected''','''	if expectedProofIssuer != "" && checkCWTRequest.KeyID == "" {
		return errors.New("checking expected''')])
M("w4-kid-issuer","C04,C01",[(WR,'''	if expectedProofIssuer == "" && keyID != "" {''','''	if keyID != "" && (expectedProofIssuer == "" || !strings.HasPrefix(expectedProofIssuer, "did:")) {''')])
M("w5-cwt-iss-optional","C04",[(CW,'''		iss, ok := payload[issuerPayloadIndex]
		if !ok {
			return nil, nil, errors.New("check cwt failure: iss claim is required")
		}

		issStr, ok := iss.(string)
		if !ok {
			return nil, nil, errors.New("check cwt failure: iss claim is not a string")
		}
''','''		iss, ok := payload[issuerPayloadIndex]
		if !ok {
			return nil, nil, errors.New("check cwt failure: iss claim is required")
		}

		issStr, ok := iss.(string)
		if !ok && iss != nil {
			return nil, nil, errors.New("check cwt failure: iss claim is not a string")
		}
''')])
M("w6-unprotected-kid","C04,C01",[(CW,'''	var rawKeyID string
	if len(''','''	if len(keyIDBinary) == 0 {
		keyIDBinary, _ = message.Headers.Unprotected[cose.HeaderLabelKeyID].([]byte) // nolint
	}

	var rawKeyID string
	if len(''')])
M("w7-hex-upper","C04,C10",[(CP,'''	if rawErr != nil {
		vcData = unQuote(vcData)

		vcData, hexErr = hex''','''	if rawErr != nil {
		vcData = unQuote(vcData)

		if len(vcData)%2 == 1 {
			vcData = vcData[:len(vcData)-1]
		}

		vcData, hexErr = hex''')])
M("w8-raw-unset","C10,C04",[(CP,'''			Sign1MessageRaw:    vcData,
''','''			Sign1MessageRaw:    message.Payload,
''')])
M("w9-cwt-validation","C18,C04",[(CP,'''	if !vcOpts.disableValidation {
		err = validateCredential(contents, convertedMap, vcOpts)''','''	if !vcOpts.disableValidation && len(message.Signature) == 0 {
		err = validateCredential(contents, convertedMap, vcOpts)''')])
M("w10-cwt-alg-fallback","C04",[(CW,'''	alg, err := message.Headers.Protected.Algorithm()
	if err != nil {
		return err
	}
''','''	alg, err := message.Headers.Protected.Algorithm()
	if err != nil {
		if alg, err = cose.ProtectedHeader(message.Headers.Unprotected).Algorithm(); err != nil {
			return err
		}
	}
''')])
M("w11-coseKey-in-cred","C04",[(C,'''			vcOpts.cwtProofChecker,
			&issuerID,
			proofValue,''','''			vcOpts.cwtProofChecker,
			expected,
			proofValue,'''),(C,'''		err = cwt.CheckProof(
			vc.CWT''','''		expected := &issuerID
		if !strings.HasPrefix(issuerID, "did:") {
			expected = nil
		}

		err = cwt.CheckProof(
			vc.CWT''')])
# C10
M("x1-one-type","C10",[(C,'''	if len(types) == 1 {
		// as string
		return types[0]
	}
''','''	if len(types) == 1 || (len(types) == 2 && types[0] == types[1]) {
		// as string
		return types[0]
	}
''')])
M("x2-termsofuse-single","C10",[(C,'''		vcJSON[jsonFldTermsOfUse] = typedIDsToRaw(vcc.TermsOfUse)''','''		vcJSON[jsonFldTermsOfUse] = typedIDsToRaw(vcc.TermsOfUse[:1])''')])
M("x3-typed-custom-loses","C10",[(CO,'''	return TypedID{
		ID:           id,
		Type:         typeName,
		CustomFields: rest,
	}, nil''','''	delete(rest, "@context")

	return TypedID{
		ID:           id,
		Type:         typeName,
		CustomFields: rest,
	}, nil''')])
M("x4-context-string-after-obj","C10",[(CO,'''				// the remaining contexts are of custom type
				return s, rContext[i:], nil
			}
''','''				var rest []interface{}

				// the remaining contexts are of custom type, unless they are plain
				for _, other := range rContext[i:] {
					if str, isStr := other.(string); isStr {
						s = append(s, str)
					} else {
						rest = append(rest, other)
					}
				}

				return s, rest, nil
			}
''')])
M("x5-time-utc","C10",[(C,'''func serializeTime(t *util.TimeWrapper) interface{} {
	return t.FormatToString()''','''func serializeTime(t *util.TimeWrapper) interface{} {
	if t.Nanosecond() == 0 {
		return t.UTC().Format(time.RFC3339)
	}

	return t.FormatToString()''')])
M("x6-time-frac","C10",[(C,'''func serializeTime(t *util.TimeWrapper) interface{} {
	return t.FormatToString()''','''func serializeTime(t *util.TimeWrapper) interface{} {
	if t.Nanosecond() != 0 && t.Nanosecond()%1000000 != 0 {
		return t.Format("2006-01-02T15:04:05.000Z07:00")
	}

	return t.FormatToString()''')])
M("x7-issuer-empty-obj","C10",[(C,'''func serializeIssuer(issuer Issuer) interface{} {
	if len(issuer.CustomFields) == 0 {''','''func serializeIssuer(issuer Issuer) interface{} {
	if _, named := issuer.CustomFields["name"]; !named && len(issuer.CustomFields) <= 1 {''')])
M("x8-evidence-single","C10",[(C,'''	if vcc.Evidence != nil {
		vcJSON[jsonFldEvidence] = vcc.Evidence''','''	if vcc.Evidence != nil {
		if list, ok := vcc.Evidence.([]interface{}); ok && len(list) == 1 {
			vcc.Evidence = list[0]
		}

		vcJSON[jsonFldEvidence] = vcc.Evidence''')])
M("x9-jti-drop","C10",[(CJ,'''		Issuer:  vcc.Issuer.ID, // iss
		ID:      vcc.ID,        // jti
		Subject: subjectID,     // sub
	}

	if vcc.Expired != nil {
		jwtClaims''','''		Issuer:  vcc.Issuer.ID, // iss
		Subject: subjectID,     // sub
	}

	if strings.Contains(vcc.ID, ":") {
		jwtClaims.ID = vcc.ID // jti
	}

	if vcc.Expired != nil {
		jwtClaims''')])
M("x10-exp-v2","C10,C09",[(CJ,'''		expTime := exp.Time().UTC()
		if HasBaseContext(vcMap, V2ContextURI) {
			vcMap[vcValidUntil] =''','''		expTime := exp.Time().UTC()
		if HasBaseContext(vcMap, V2ContextURI) && vcMap[vcExpirationDateField] == nil {
			vcMap[vcValidUntil] =''')])
M("x11-min-issuer-obj","C10",[(CJ,'''		if issuer != nil {
			issuer.ID = ""
''','''		if issuer != nil {
			issuer.ID = ""
			delete(issuer.CustomFields, "type")
''')])
M("x12-status-first","C10,C11",[(C,'''			for i, status := range vcc.Status {
				statuses[i] = serializeTypedIDObj(*status)
			}
''','''			for i, status := range vcc.Status {
				if i > 0 && status.ID == vcc.Status[i-1].ID {
					status = vcc.Status[i-1]
				}

				statuses[i] = serializeTypedIDObj(*status)
			}
''')])
M("x13-unmarshal-custom","C10",[(JU,'''	for k, v := range af {
		if _, ok := vf[k]; !ok {''','''	for k, v := range af {
		if _, ok := vf[k]; !ok && v != nil {''')])
M("x14-related-media","C10",[(C,'''			MediaType:       stringify(mapVal["mediaType"]),
			DigestMultiBase: stringify(mapVal["digestMultibase"]),''','''			MediaType:       strings.ToLower(stringify(mapVal["mediaType"])),
			DigestMultiBase: stringify(mapVal["digestMultibase"]),''')])
M("x15-proofs-order","C10",[(CO,'''		return mapSlice(proofs, func(p Proof) interface{} {
			return map[string]interface{}(p)
		})''','''		raw := make([]interface{}, len(proofs))
		for i, p := range proofs {
			raw[len(proofs)-1-i] = map[string]interface{}(p)
		}

		return raw''')])
M("x16-json-number","C10",[(C,'''	var raw JSONObject

	err := json.Unmarshal(vcJSON, &raw)''','''	var raw JSONObject

	dec := json.NewDecoder(bytes.NewReader(vcJSON))

	err := dec.Decode(&raw)''')])
M("x17-subject-empty-arr","C10",[(C,'''	if len(subject) == 1 {
		return SubjectToJSON(subject[0])
	}
''','''	if len(subject) == 1 {
		if len(subject[0].CustomFields) == 0 {
			return subject[0].ID
		}

		return SubjectToJSON(subject[0])
	}
''')])
# C11
M("y1-status-share","C11",[(CO,'''	json := jsonutil.ShallowCopyObj(typedID.CustomFields)

	if typedID.ID''','''	json := typedID.CustomFields
	if json == nil {
		json = JSONObject{}
	}

	if typedID.ID''')])
M("y2-issuer-share","C11",[(C,'''	jsonObj := jsonutil.ShallowCopyObj(issuer.CustomFields)
''','''	jsonObj := map[string]interface{}(issuer.CustomFields)
	if jsonObj == nil {
		jsonObj = JSONObject{}
	}
''')])
M("y3-copy-noproof-same","C11",[(C,'''	newContent := jsonutil.ShallowCopyObj(credentialJSON)
	delete(newContent, jsonFldLDProof)
''','''	if _, ok := credentialJSON[jsonFldLDProof]; !ok {
		return credentialJSON
	}

	newContent := jsonutil.ShallowCopyObj(credentialJSON)
	delete(newContent, jsonFldLDProof)
''')])
M("y4-copyexcept","C11,C10",[(JU,'''	newJSON := ShallowCopyObj(json)

	for _, fld := range flds {
		delete(newJSON, fld)
	}
''','''	newJSON := json
	if len(flds) > 1 {
		newJSON = ShallowCopyObj(json)
	}

	for _, fld := range flds {
		delete(newJSON, fld)
	}
''')])
M("y5-keep-proofs","C11",[(C,'''	newContents.RefreshService = refreshService

	if refreshService != nil {
		newCredJSON[jsonFldRefreshService] = serializeTypedIDObj(*refreshService)
	} else {
		delete(newCredJSON, jsonFldRefreshService)
	}

	return &Credential{
		credentialJSON:     newCredJSON,
		credentialContents: newContents,
	}''','''	newContents.RefreshService = refreshService

	if refreshService != nil {
		newCredJSON[jsonFldRefreshService] = serializeTypedIDObj(*refreshService)
	} else {
		delete(newCredJSON, jsonFldRefreshService)
	}

	return &Credential{
		credentialJSON:     newCredJSON,
		credentialContents: newContents,
		ldProofs:           vc.ldProofs,
	}''')])
M("y6-min-mutates","C11,C13",[(CJ,'''	credentialJSONCopy := jsonutil.ShallowCopyObj(vc.credentialJSON)

	if minimizeVC {''','''	credentialJSONCopy := vc.credentialJSON
	if vcc.ID != "" || !minimizeVC {
		credentialJSONCopy = jsonutil.ShallowCopyObj(vc.credentialJSON)
	}

	if minimizeVC {''')])
M("y7-tojson-proof-write","C11,C13",[(C,'''	raw := jsonutil.ShallowCopyObj(vc.credentialJSON)

	if len(vc.ldProofs) > 0 {
		raw[jsonFldLDProof]''','''	raw := vc.credentialJSON
	if _, ok := raw[jsonFldLDProof]; !ok {
		raw = jsonutil.ShallowCopyObj(raw)
	}

	if len(vc.ldProofs) > 0 {
		raw[jsonFldLDProof]''')])
M("y8-validate-shared","C11,C13",[(C,'''	err = docjsonld.ValidateJSONLDMap(jsonutil.ShallowCopyObj(vcJSON),
		validateOpts...,
	)''','''	err = docjsonld.ValidateJSONLDMap(vcJSON,
		validateOpts...,
	)''')])
M("y9-ctx-append","C11",[(C,'''	newContents.Context = context
	rawContext := contextToRaw(context, newContents.CustomContext)
''','''	newContents.Context = append(newContents.Context[:0], context...)
	rawContext := contextToRaw(newContents.Context, newContents.CustomContext)
''')])
M("y10-di-context","C11,C03",[(DI,'''		vc.credentialJSON = copyCredentialJSONWithoutProofs(vc.credentialJSON)
''','''		if len(vc.ldProofs) > 1 {
			vc.credentialJSON = copyCredentialJSONWithoutProofs(vc.credentialJSON)
		}

''')])
M("y11-subject-ctxfields","C11",[(C,'''	jsonObj := jsonutil.ShallowCopyObj(subject.CustomFields)

	if subject.ID''','''	jsonObj := map[string]interface{}(subject.CustomFields)
	if _, ok := jsonObj[jsonFldSubjectID]; ok || jsonObj == nil {
		jsonObj = jsonutil.ShallowCopyObj(jsonObj)
	}

	if subject.ID''')])
# C12
M("z1-typed-assert","C12",[(CO,'''		t, valid := values[i].(string)
		if !valid {
			return nil, errors.New("array element is not a string")
		}
''','''		if values[i] == nil {
			return nil, errors.New("array element is not a string")
		}

		t := values[i].(string)
''')])
M("z2-related-assert","C12",[(C,'''		mapVal, mapOk := rawResource.(map[string]interface{})
		if !mapOk {
			return nil, fmt.Errorf("related resource of unsupported format, %v", rawResource)
		}
''','''		mapVal, mapOk := rawResource.(map[string]interface{})
		if !mapOk {
			mapVal = map[string]interface{}{"id": rawResource.(string)}
		}
''')])
M("z3-proof-index","C12",[(EP,'''	if len(proofs) > 0 {
		typeStr, ok := proofs[0]["type"]''','''	if len(proofs) >= 0 {
		typeStr, ok := proofs[0]["type"]''')])
M("z4-issuer-nil","C12",[(C,'''	if vc.credentialContents.Issuer == nil {
		return errors.New("proof check failuer: issuer is missed")
	}
''','''	if vc.credentialContents.Issuer == nil && vc.JWTEnvelope != nil {
		return errors.New("proof check failuer: issuer is missed")
	}
''')])
M("z5-sdalg-index","C12",[(C,'''		if len(subjects) > 0 && len(subjects[0].CustomFields) > 0 {''','''		if len(subjects[0].CustomFields) > 0 {''')])
M("z6-vc-claim-nil","C12",[(CJ,'''	if vcMap == nil {
		return errors.New("credential claims are missing")
	}
''','')])
M("z7-cbor-key","C12",[(CP,'''		key := fmt.Sprintf("%v", k)
''','''		key, isStr := k.(string)
		if !isStr {
			key = fmt.Sprint(k.(uint64))
		}
''')])
M("z8-dataurl","C12",[(CO,'''	semicolonIndex := strings.Index(fullMediaType, ";")
	if semicolonIndex == -1 {''','''	semicolonIndex := strings.LastIndex(fullMediaType, ";")
	if semicolonIndex == -1 || strings.HasSuffix(fullMediaType, ";") {''')])
# C13
# C18
M("u2-extended-contexts","C18",[(C,'''	if len(vcc.Context) != 1 || len(vcc.CustomContext) > 0 || !vcOpts.allowedContexts[vcc.Context[0]] {''','''	if len(vcc.Context) < 1 || len(vcc.CustomContext) > 0 || !vcOpts.allowedContexts[vcc.Context[0]] {''')])
M("u3-schema-first","C18",[(C,'''	for _, schemaLoader := range schemaLoaders {
		result''','''	for _, schemaLoader := range schemaLoaders[:1] {
		result''')])
M("u4-jsonld-only-if-multi","C18",[(C,'''		return validateJSONLD(vcJSON, vcc, vcOpts)

	case jsonldValidation:''','''		if len(vcc.Context) == 1 && len(vcc.CustomContext) == 0 && !vcOpts.strictValidation {
			// nothing beyond the base context to validate
			return nil
		}

		return validateJSONLD(vcJSON, vcc, vcOpts)

	case jsonldValidation:''')])
M("u5-types-check-strict","C18",[(C,'''	if vcOpts.enableJsonLDTypesCheck {''','''	if vcOpts.enableJsonLDTypesCheck && len(vcc.Types) > 1 {''')])
M("u6-allowed-types-default","C18",[(C,'''		if _, ok := vcOpts.allowedCustomTypes[vcType]; !ok {''','''		if _, ok := vcOpts.allowedCustomTypes[vcType]; !ok && !strings.HasPrefix(vcType, VCType) {''')])
M("u7-schema-cache-key","C18,C20",[(C,'''	if cachedBytes, ok := cache.Get(url); ok {''','''	key, _, _ := strings.Cut(url, "?")

	if cachedBytes, ok := cache.Get(key); ok {'''),(C,'''	cache.Put(url, schemaBytes)''','''	cache.Put(key, schemaBytes)''')])
M("u8-ext-ctx-pos","C18",[(C,'''		docjsonld.WithStrictContextURIPosition(baseContext),
	}''','''	}

	if len(vcOpts.jsonldCredentialOpts.externalContext) == 0 {
		validateOpts = append(validateOpts, docjsonld.WithStrictContextURIPosition(baseContext))
	}''')])
M("u9-disable-sticky","C18",[(C,'''	vcOpts := getCredentialOpts(opts)

	return validateCredential(&vc.credentialContents, vc.credentialJSON, vcOpts)''','''	vcOpts := getCredentialOpts(opts)
	if vcOpts.disableValidation {
		return nil
	}

	return validateCredential(&vc.credentialContents, vc.credentialJSON, vcOpts)''')])
M("u10-nocustom","C18",[(C,'''	if opts.disabledCustomSchema {
		return''','''	if opts.disabledCustomSchema && opts.defaultSchema == "" {
		return''')])
M("u11-required-dis","C18",[(C,'''	required := ""

	for _, prop := range defaultRequired {
		filterOut := false
''','''	required := ""
	filterOut := false

	for _, prop := range defaultRequired {''')])
