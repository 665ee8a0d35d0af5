D="presexch/definition.go"; A="presexch/api.go"; RL="presexch/internal/requirementlogic/requirementlogic.go"; B="verifiable/bbs_selective_disclosure.go"
# C15: creating
M("a1-subject-issuer-first","C15",[(D,'''	for _, ID := range getSubjectIDs(contents.Subject) {
		if ID != "" && ID == contents.Issuer.ID {
			return true
		}
	}

	return false''','''	for _, ID := range getSubjectIDs(contents.Subject) {
		if ID != "" && strings.HasPrefix(ID, contents.Issuer.ID) {
			return true
		}
	}

	return false''')])
M("a2-alg-prefix","C15",[(D,'''		if strings.EqualFold(credAlg, b) {''','''		if strings.HasPrefix(credAlg, b) {''')])
M("a3-schema-required-order","C15,C16",[(D,'''			} else if schema.Required {
				applicable = false
				break
			}''','''			} else if schema.Required && !applicable {
				break
			}''')])
M("a4-optional-filter","C15,C16",[(D,'''	if absent { // an''','''	if f.Optional { // an''')])
M("a5-last-path","C15,C16",[(D,'''		if err == nil { // if at least 1 path is valid, we are good
			return nil
		}

		absent''','''		if err == nil { // if at least 1 path is valid, we are good
			return nil
		}

		if !errors.Is(err, errNoValue) {
			return err // the first path that has a value decides
		}

		absent''')])
M("a6-allof-any","C15,C16",[(D,'''	for _, sh := range schemasToExecute {
		result, err := jsonschema.Validate(sh, gojsonschema.NewBytesLoader(raw))
		if err != nil || !result.Valid() {
			return errors.Join(errPathNotApplicable)
		}
	}

	return nil''','''	for i, sh := range schemasToExecute {
		result, err := jsonschema.Validate(sh, gojsonschema.NewBytesLoader(raw))
		if (err != nil || !result.Valid()) && (i == 0 || i == len(schemasToExecute)-1) {
			return errors.Join(errPathNotApplicable)
		}
	}

	return nil''')])
M("a7-limit-issuanceonly","C15",[(D,'''					"issuanceDate",
					"validFrom")''','''					"issuanceDate",
					"validFrom",
					"credentialStatus",
					"termsOfUse")''')])
M("a8-subject-copy","C15",[(D,'''	if len(subject) == 1 {
		if len(subject[0].CustomFields) == 0 {
			return subject[0].ID
		}

		return verifiable.SubjectToJSON(verifiable.Subject{ID: subject[0].ID})
	}

	var withOnlyIDs''','''	if len(subject) == 1 {
		if len(subject[0].CustomFields) <= 1 {
			return verifiable.SubjectToJSON(subject[0])
		}

		return verifiable.SubjectToJSON(verifiable.Subject{ID: subject[0].ID})
	}

	var withOnlyIDs''')])
M("a9-predicate-value","C15",[(D,'''		if selected.field.Predicate.isRequired() {
			val = true
		}
''','''		if selected.field.Predicate.isRequired() && selected.field.Filter != nil {
			val = true
		}
''')])
M("a10-reuse-uniqueid","C15",[(D,'''			uniqueCredID = tmpID(credentialContents.ID)
		}

		// SDJWT case.''','''			if predicate {
				uniqueCredID = tmpID(credentialContents.ID)
			}
		}

		// SDJWT case.''')])
M("a11-sd-limits-share","C15",[(D,'''			if credential.JWTEnvelope != nil {
				envelope := *credential.JWTEnvelope
				limited.JWTEnvelope = &envelope
			}
''','')])
M("a12-selectall-nested","C15",[(D,'''		for _, value := range v {
			if err := s.selectAll(value); err != nil {
				return err
			}
		}
	case []interface{}:''','''	case []interface{}:''')])
M("a13-member-first-level","C15",[(D,'''		if dc, ok := s.disclosures[digest]; ok && dc.Name == name {''','''		if dc, ok := s.disclosures[digest]; ok && (dc.Name == name || dc.Type == common.DisclosureClaimTypeObject) {''')])
M("a14-frame-dropped","C15",[(D,'''	if frame == nil {
		return creds, nil
	}
''','''	if len(frame) <= 2 {
		return creds, nil
	}
''')])
M("a15-merge-index","C15",[(D,'''				desc.PathNested.Path = fmt.Sprintf("$%s.verifiableCredential[%d]", jwtVPPath, setOfCreds[key])''','''				desc.PathNested.Path = fmt.Sprintf("$%s.verifiableCredential[%d]", jwtVPPath, len(result)-1)''')])
M("a16-count-min","C15,C16",[(D,'''	if r.Count == 0 && r.Max == 0 {
		rl.Max = total
	}
''','''	if r.Max == 0 {
		rl.Max = total
	}
''')])
M("a17-rule-all","C15,C16",[(D,'''	if sr.Rule == All {
		count = totalCount
	}
''','''	if sr.Rule == All && count == 0 {
		count = totalCount
	}
''')])
M("a18-format-desc-merge","C15",[(D,'''	format := pd.Format
	if descriptor.Format.notNil() {
		format = descriptor.Format
	}
''','''	format := descriptor.Format
	if pd.Format.notNil() {
		format = pd.Format
	}
''')])
M("a19-group-prefix","C15,C16",[(D,'''			if contains(descriptor.Group, sr.From) {''','''			if contains(descriptor.Group, sr.From) || descriptor.ID == sr.From {''')])
M("a20-creds-first","C15",[(D,'''			if len(filteredCreds) != 0 {
				descriptorMatches''','''			if len(filteredCreds) > 1 && descriptor.Constraints != nil && len(descriptor.Constraints.Fields) > 1 {
				filteredCreds = filteredCreds[:1]
			}

			if len(filteredCreds) != 0 {
				descriptorMatches''')])
M("a21-exclude-state","C15",[(RL,'''	b.state.Rsh(b.state, uint(len(excludeIdx)))
''','''	b.state.Rsh(b.state, uint(largestExcludeIdx+1))
''')])
M("a22-islen","C15,C16",[(RL,'''		if !no {
			least++
		}''','''		if yes && !no {
			least++
		}''')])
M("a23-predicate-opt","C15",[(D,'''func (v *Preference) isRequired() bool {
	if v == nil {
		return false
	}

	return *v == Required
}''','''func (v *Preference) isRequired() bool {
	if v == nil {
		return false
	}

	return strings.EqualFold(string(*v), string(Required)) || *v == ""
}''')])
M("a24-issued-drop","C15",[(D,'''		if err != nil || !result.Valid() {
			return errors.Join(errPathNotApplicable)
		}''','''		if err == nil && !result.Valid() {
			return errors.Join(errPathNotApplicable)
		}''')])
M("a25-alg-from-kid","C15",[(D,'''func hasProofWithType(vc *verifiable.Credential, proofType string) bool {
	for _, proof := range vc.Proofs() {
		if proof["type"] == proofType {
			return true
		}
	}

	return false''','''func hasProofWithType(vc *verifiable.Credential, proofType string) bool {
	for _, proof := range vc.Proofs() {
		return proof["type"] == proofType
	}

	return false''')])
# C16: matching
M("b1-requirement-any","C16",[(A,'''	if len(pd.SubmissionRequirements) > 0 {
		req, err''','''	if len(pd.SubmissionRequirements) > 0 && len(matched) < len(pd.InputDescriptors) {
		req, err''')])
M("b2-index-default","C16",[(A,'''	result, err := strconv.Atoi(split[0])
	if err != nil {
		return -1
	}

	return result''','''	result, err := strconv.Atoi(strings.TrimLeft(split[0], "0"))
	if err != nil {
		return -1
	}

	return result''')])
M("b3-schema-disabled-all","C16",[(A,'''			filtered, _, filterErr := filterConstraints(inputDescriptor.Constraints, []*verifiable.Credential{vc})''','''			constraints := inputDescriptor.Constraints
			if opts.DisableSchemaValidation && inputDescriptor.Schema != nil {
				constraints = nil
			}

			filtered, _, filterErr := filterConstraints(constraints, []*verifiable.Credential{vc})''')])
M("b4-vp-wide-creds","C16",[(A,'''	for {
		typelessVerifiableCopy := typelessVerifiable
''','''	if len(opts.CredentialOptions) == 0 {
		opts.CredentialOptions = append(opts.CredentialOptions, verifiable.WithDisabledProofCheck())
	}

	for {
		typelessVerifiableCopy := typelessVerifiable
''')])
M("b5-seen-descriptor","C16",[(A,'''			inputDescriptor := pd.inputDescriptor(mapping.ID)
''','''			if lo.ContainsBy(result, func(m *MatchValue) bool { return m.DescriptorID == mapping.ID }) {
				result = append(result, &MatchValue{PresentationID: vp.ID, Credential: vc, DescriptorID: mapping.ID})

				continue
			}

			inputDescriptor := pd.inputDescriptor(mapping.ID)
'''),(A,'''	"github.com/PaesslerAG/jsonpath"
''','''	"github.com/PaesslerAG/jsonpath"
	"github.com/samber/lo"
''')])
M("b6-unknown-skip","C16",[(A,'''			if _, ok := descriptorIDs[mapping.ID]; !ok {
				return nil''','''			if _, ok := descriptorIDs[mapping.ID]; !ok && useMergedSubmission {
				continue
			} else if !ok {
				return nil''')])
M("b7-cred-cache","C16",[(A,'''		vc, err = verifiable.ParseCredential(credBits, opts.CredentialOptions...)
		if err != nil {''','''		vc, err = verifiable.ParseCredential(credBits, opts.CredentialOptions...)
		if err != nil && opts.MergedSubmission != nil {
			vc, err = verifiable.ParseCredential(credBits, append(opts.CredentialOptions, verifiable.WithDisabledProofCheck())...)
		}

		if err != nil {''')])
M("b8-context-either","C16",[(A,'''	if !stringsContain(vp.Type, PresentationSubmissionJSONLDType) &&
		!stringsContain(vp.Type, CredentialApplicationJSONLDType) {''','''	if !stringsContain(vp.Type, PresentationSubmissionJSONLDType) &&
		!stringsContain(vp.Type, CredentialApplicationJSONLDType) &&
		!stringsContain(vp.Context, CredentialApplicationJSONLDContextIRI) {''')])
M("b9-vplist-first","C16",[(A,'''			if descriptorMappingExpectsVPList(mapping) {
				vc,''','''			if descriptorMappingExpectsVPList(mapping) && !useMergedSubmission {
				vc, selectErr = selectVC(rawVPs[:1], mapping, opts)
			} else if descriptorMappingExpectsVPList(mapping) {
				vc,''')])
# C23
M("j1-nonce-fixed","C23",[(B,'''	signatureProofBytes, err := creator.ProofDerivation.DeriveProof(verData.blsMessages, signatureBytes,
		nonce,''','''	if len(nonce) == 0 {
		nonce = signatureBytes[:16]
	}

	signatureProofBytes, err := creator.ProofDerivation.DeriveProof(verData.blsMessages, signatureBytes,
		nonce,''')])
M("j2-first-proof","C23",[(B,'''	proofs := make([]map[string]interface{}, len(blsSignatures))
''','''	if len(blsSignatures) > 1 {
		blsSignatures = blsSignatures[:1]
	}

	proofs := make([]map[string]interface{}, len(blsSignatures))
''')])
M("j3-reveal-all-created","C23",[(B,'''		"created":            blsSignature["created"],
''','''		"created":            time.Now().UTC().Format(time.RFC3339),
'''),(B,'''	"strings"
''','''	"strings"
	"time"
''')])
M("j4-split-trim","C23",[(B,'''		if strings.TrimSpace(rows[i]) != "" {
			msgs = append(msgs, rows[i])
		}''','''		if row := strings.TrimSpace(rows[i]); row != "" {
			msgs = append(msgs, strings.ReplaceAll(row, "  ", " "))
		}''')])
M("j5-doc-mutated","C23,C11",[(B,'''	for k, v := range proofMap {
		if k != "proofValue" {
			proofMapCopy[k] = v
		}
	}
''','''	for k, v := range proofMap {
		if k != "proofValue" && k != "nonce" && k != "challenge" {
			proofMapCopy[k] = v
		}
	}
''')])
M("j6-suffix","C23",[(B,'''		if ok && strings.HasSuffix(proofType, bbsBlsSignature2020) {''','''		if ok && strings.Contains(proofType, "BbsBls") {''')])
M("j7-reveal-first","C23",[(B,'''	for i, statement := range transformedStatements {
		documentStatementsMap[statement] = i
	}
''','''	for i, statement := range transformedStatements {
		documentStatementsMap[strings.ToLower(statement)] = i
	}
'''),(B,'''		statementInd, ok := documentStatementsMap[statement]''','''		statementInd, ok := documentStatementsMap[strings.ToLower(statement)]''')])
