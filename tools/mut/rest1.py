ST="status/status.go"; RS="status/resolver/resolver.go"; BS="status/internal/bitstring/bitstring.go"
BV="status/validator/bitstringstatus/bitstringstatus.go"; SV="status/validator/statuslist2021/statuslist2021.go"
IH="status/internal/identityhub/identityhub.go"; VG="status/validator/validator.go"
RR="verifiable/related_resource.go"; C="verifiable/credential.go"; MM="legacy/mem/mem.go"
EC="crypto-ext/verifiers/ecdsa/verifier.go"; RSA="crypto-ext/verifiers/rsa/verifier.go"; ED="crypto-ext/verifiers/ed25519/verifier.go"
DC="didconfig/verifier/didconfig.go"; DCC="didconfig/client/didconfig.go"
# C14
M("t1-issuer-prefix","C14",[(ST,'''		statusListVCC.Issuer.ID != credential.Contents().Issuer.ID {''','''		!strings.HasPrefix(statusListVCC.Issuer.ID, credential.Contents().Issuer.ID) {'''),(ST,'''	"fmt"
''','''	"fmt"
	"strings"
''')])
M("t2-issuer-fold","C14",[(ST,'''		statusListVCC.Issuer.ID != credential.Contents().Issuer.ID {''','''		!strings.EqualFold(statusListVCC.Issuer.ID, credential.Contents().Issuer.ID) {'''),(ST,'''	"fmt"
''','''	"fmt"
	"strings"
''')])
M("t3-same-list-skip","C14",[(ST,'''	for _, status := range contents.Status {
		if err''','''	checked := map[string]bool{}

	for _, status := range contents.Status {
		if list, ok := status.CustomFields["statusListCredential"].(string); ok && status.ID != "" {
			if checked[status.ID+list] {
				continue
			}

			checked[status.ID+list] = true
		}

		if err''')])
M("t4-suspension-clears","C14",[(ST,'''	for _, status := range contents.Status {
		if err := c.verifyStatus(credential, status); err != nil {
			return err
		}
	}

	return nil''','''	var result error

	for _, status := range contents.Status {
		err := c.verifyStatus(credential, status)
		if err != nil && !errors.Is(err, ErrSuspended) {
			return err
		}

		result = err
	}

	return result''')])
M("t5-unlimited-reader","C14",[(BS,'''	if _, err := buf.ReadFrom(zipReader); err != nil {
		return nil, err
	}''','''	if _, err := buf.ReadFrom(zipReader); err != nil && buf.Len() == 0 {
		return nil, err
	}''')])
M("t6-bit-order-last","C14",[(BS,'''	if idx < 0 || nByte >= len(bitString) {''','''	if idx < 0 || nByte > len(bitString)-1 && nByte != 1<<14 {''')])
M("t7-index-base0","C14",[(BV,'''	idx, err := strconv.Atoi(statusListIndex)''','''	idx64, err := strconv.ParseInt(statusListIndex, 0, 64)
	idx := int(idx64)''')])
M("t8-index-trim","C14",[(SV,'''	idx, err := strconv.Atoi(statusListIndex)''','''	idx64, err := strconv.ParseUint(statusListIndex, 10, 64)
	idx := int(uint16(idx64))''')])
M("t9-hub-status-any","C14",[(IH,'''	for _, messageResult := range i.Replies {
		if messageResult.Status.Code != http.StatusOK {''','''	for _, messageResult := range i.Replies {
		if messageResult.Status.Code != http.StatusOK && len(messageResult.Entries) == 0 {''')])
M("t10-hub-first","C14",[(IH,'''			if !ok || !strings.EqualFold(objectIDReceived, objectID) {''','''			if ok && !strings.EqualFold(objectIDReceived, objectID) {''')])
M("t11-hub-prefix","C14",[(IH,'''			if !ok || !strings.EqualFold(objectIDReceived, objectID) {''','''			if !ok || !strings.HasPrefix(objectID, objectIDReceived) {''')])
M("t12-http-2xx","C14",[(RS,'''	if resp.StatusCode != status {''','''	if resp.StatusCode/100 != status/100 {''')])
M("t13-memo","C14",[(RS,'''type Resolver struct {''','''type Resolver struct {
	lastPath string
	lastVC   []byte
'''),(RS,'''		req, e := http.NewRequestWithContext(context.Background(), http.MethodGet, statusListVCURI, http.NoBody)
		if e != nil {
			return nil, e
		}

		vcBytes, err = r.sendHTTPRequest(req, http.StatusOK, r.bearerToken)

		if err != nil {
			return nil, fmt.Errorf("unable to resolve statusListVCURI: %w", err)
		}
''','''		req, e := http.NewRequestWithContext(context.Background(), http.MethodGet, statusListVCURI, http.NoBody)
		if e != nil {
			return nil, e
		}

		if r.lastVC != nil && r.lastPath == req.URL.Host+req.URL.Path {
			vcBytes = r.lastVC
		} else {
			vcBytes, err = r.sendHTTPRequest(req, http.StatusOK, r.bearerToken)

			if err != nil {
				return nil, fmt.Errorf("unable to resolve statusListVCURI: %w", err)
			}

			r.lastPath, r.lastVC = req.URL.Host+req.URL.Path, vcBytes
		}
''')])
M("t14-purpose-fold","C14",[(ST,'''		switch purpose {''','''		switch strings.TrimSpace(purpose) {
		case "":
			return nil'''),(ST,'''	"fmt"
''','''	"fmt"
	"strings"
''')])
# C19
M("r1-cache-no-query","C19",[(RR,'''	if v, ok := r.cfg.Cache.Get(targetURL); ok {''','''	cacheKey, _, _ := strings.Cut(targetURL, "?")

	if v, ok := r.cfg.Cache.Get(cacheKey); ok {'''),(RR,'''	r.cfg.Cache.Add(targetURL, cachedResource)''','''	r.cfg.Cache.Add(cacheKey, cachedResource)''')])
M("r2-cache-fold","C19",[(RR,'''	if v, ok := r.cfg.Cache.Get(targetURL); ok {''','''	if v, ok := r.cfg.Cache.Get(strings.ToLower(targetURL)); ok {'''),(RR,'''	r.cfg.Cache.Add(targetURL, cachedResource)''','''	r.cfg.Cache.Add(strings.ToLower(targetURL), cachedResource)''')])
M("r3-status-lt400","C19",[(RR,'''	if resp.StatusCode != http.StatusOK {''','''	if resp.StatusCode >= http.StatusBadRequest {''')])
M("r4-hash-prefix","C19",[(RR,'''	if !bytes.Equal(rawHash, decodedDigest) {''','''	if !bytes.HasPrefix(rawHash, decodedDigest) {''')])
M("r5-last-error","C19",[(RR,'''		finalErr = errors.Join(finalErr, <-ch)''','''		finalErr = <-ch''')])
M("r6-sha384-512","C19",[(RR,'''		rawHash = cachedResource.Sha512Hash
	default:''','''		rawHash = cachedResource.Sha512Hash[:len(decodedDigest)%65]
	default:''')])
M("r7-partial-body","C19",[(RR,'''	if err != nil {
		return nil, errors.Join(err, fmt.Errorf("read related resource: %s", targetURL))
	}''','''	if err != nil && len(data) == 0 {
		return nil, errors.Join(err, fmt.Errorf("read related resource: %s", targetURL))
	}''')])
M("r8-first-cred","C19",[(RR,'''		for _, res := range cred.Contents().RelatedResources {''','''		seen := map[string]bool{}

		for _, res := range cred.Contents().RelatedResources {
			if seen[res.Id] {
				continue // fetched once
			}

			seen[res.Id] = true
''')])
M("r9-loopvar","C19",[(RR,'''			currentResource := res

			go func() {''','''			currentResource := &r.current
			*currentResource = res

			go func() {'''),(RR,'''r.validateSingleResource(&currentResource, resourceData)''','''r.validateSingleResource(currentResource, resourceData)'''),(RR,'''	cfg *RelatedResourceValidatorOptions
''','''	cfg     *RelatedResourceValidatorOptions
	current RelatedResource
''')])
# C20
M("k1-cache-before-status","C20",[(C,'''	if resp.StatusCode != http.StatusOK {
		return nil, fmt.Errorf("credential schema endpoint HTTP failure [%v]", resp.StatusCode)
	}

	var gotBody''','''	if resp.StatusCode >= http.StatusMultipleChoices {
		return nil, fmt.Errorf("credential schema endpoint HTTP failure [%v]", resp.StatusCode)
	}

	var gotBody''')])
M("k2-le","C20",[(C,'''	if expires < time.Now().Unix() {''','''	if time.Now().Unix()-expires > int64(sc.expiration/time.Second) {''')])
M("k3-cache-key","C20",[(C,'''	if cachedBytes, ok := cache.Get(url); ok {
		return cachedBytes, nil
	}
''','''	cacheKey := strings.SplitN(url, "?", 2)[0]

	if cachedBytes, ok := cache.Get(cacheKey); ok {
		return cachedBytes, nil
	}
'''),(C,'''	cache.Put(url, schemaBytes)''','''	cache.Put(cacheKey, schemaBytes)''')])
M("k4-alias","C20",[(C,'''	b, ok := sc.cache.HasGet(nil, []byte(k))''','''	b, ok := sc.cache.HasGet(make([]byte, 0, 16), []byte(strings.TrimRight(k, "/")))'''),(C,'''	sc.cache.Set([]byte(k), ve)''','''	sc.cache.Set([]byte(strings.TrimRight(k, "/")), ve)''')])
M("k5-only-last","C20,C18",[(C,'''			customLoaders = append(customLoaders, gojsonschema.NewBytesLoader(customSchemaData))''','''			customLoaders = []gojsonschema.JSONLoader{gojsonschema.NewBytesLoader(customSchemaData)}''')])
M("k6-error-ignored","C20",[(C,'''				return nil, fmt.Errorf("load of custom credential schema from %s: %w", schema.ID, err)''','''				errLogger.Printf("load of custom credential schema from %s: %s", schema.ID, err)

				if len(customLoaders) > 0 {
					continue
				}

				return nil, fmt.Errorf("load of custom credential schema from %s: %w", schema.ID, err)''')])
M("k7-readlimit","C20",[(C,'''	gotBody, err = io.ReadAll(resp.Body)
	if err != nil {
		return nil, fmt.Errorf("credential schema''','''	gotBody, err = io.ReadAll(resp.Body)
	if err != nil && !json.Valid(gotBody) {
		return nil, fmt.Errorf("credential schema''')])
# C21
M("m1-query-prefix","C21",[(MM,'''(matchAnyValue || tag.Value == tagValue)''','''(matchAnyValue || strings.HasPrefix(tag.Value, tagValue))''')])
M("m2-first-tag","C21",[(MM,'''			if tag.Name == tagName && (matchAnyValue || tag.Value == tagValue) {
				keys = append(keys, key)
				dbEntries = append(dbEntries, dbEntry.copy())

				break
			}''','''			if tag.Name != tagName {
				continue
			}

			if matchAnyValue || tag.Value == tagValue {
				keys = append(keys, key)
				dbEntries = append(dbEntries, dbEntry.copy())
			}

			break''')])
M("m3-bulk-dup","C21",[(MM,'''	for i, key := range keys {
		values[i] = m.db[key].copy().value
	}

	return values, nil''','''	found := make(map[string]int, len(keys))

	for i, key := range keys {
		if _, ok := found[key]; !ok {
			values[i] = m.db[key].copy().value
			found[key] = i
		}
	}

	return values, nil''')])
M("m4-batch-order","C21",[(MM,'''	for _, operation := range operations {
		if operation.Value == nil {
			delete(m.db, operation.Key)
			continue
		}

		m.db[operation.Key] = newEntry(operation.Value, operation.Tags)
	}
''','''	for _, operation := range operations {
		if operation.Value != nil {
			m.db[operation.Key] = newEntry(operation.Value, operation.Tags)
		}
	}

	for _, operation := range operations {
		if operation.Value == nil {
			delete(m.db, operation.Key)
		}
	}
''')])
M("m5-close-name","C21",[(MM,'''	storeName := strings.ToLower(name)

	p.lock.Lock()
	defer p.lock.Unlock()

	store := p.dbs[storeName]
	if store == nil {
		newStore''','''	storeName := strings.ToLower(strings.TrimSpace(name))

	p.lock.Lock()
	defer p.lock.Unlock()

	store := p.dbs[storeName]
	if store == nil {
		newStore''')])
M("m6-batch-empty-value","C21",[(MM,'''		if operation.Value == nil {
			delete(m.db, operation.Key)
			continue''','''		if len(operation.Value) == 0 {
			delete(m.db, operation.Key)
			continue''')])
M("m7-query-same-exp","C21",[(MM,'''	numTags := len(results)
	keyMap := make(map[string]int)''','''	numTags := min(len(results), 2)
	keyMap := make(map[string]int)''')])
M("m8-rlock-getbulk","C21",[(MM,'''	values := make([][]byte, len(keys))

	m.RLock()
	defer m.RUnlock()

	for i, key := range keys {
		values[i] = m.db[key].copy().value
	}
''','''	values := make([][]byte, len(keys))

	for i, key := range keys {
		m.RLock()
		values[i] = m.db[key].copy().value
		m.RUnlock()
	}
''')])
# C22
M("c1-pss-fallback","C22",[(RSA,'''	err = rsa.VerifyPSS(pubKeyRsa, hash, hashed, signature, nil)
	if err != nil {
		return''','''	err = rsa.VerifyPSS(pubKeyRsa, hash, hashed, signature, nil)
	if err != nil && rsa.VerifyPKCS1v15(pubKeyRsa, hash, hashed, signature) != nil {
		return''')])
M("c2-rs-len","C22",[(EC,'''	if len(signature) == 2*ec.keySize {
		r :=''','''	if len(signature) >= 2*ec.keySize {
		signature = signature[:2*ec.keySize]
		r :=''')])
M("c3-es521-hash","C22",[(EC,'''			keySize: p521KeySize,
			hash:    crypto.SHA512,''','''			keySize: p521KeySize,
			hash:    crypto.SHA384,''')])
M("c4-keytype-256","C22",[(EC,'''		kmsKeyType: []kms.KeyType{kms.ECDSAP384TypeIEEEP1363, kms.ECDSAP384TypeDER},''','''		kmsKeyType: []kms.KeyType{kms.ECDSAP384TypeIEEEP1363, kms.ECDSAP384TypeDER, kms.ECDSAP256TypeIEEEP1363},''')])
M("c5-ed-trunc","C22",[(ED,'''	verified := ed25519.Verify(value, msg, signature)''','''	if len(signature) > ed25519.SignatureSize {
		signature = signature[:ed25519.SignatureSize]
	}

	verified := ed25519.Verify(value, msg, signature)''')])
M("c6-ed-key-order","C22",[(ED,'''	if pubKey.JWK != nil {''','''	if pubKey.JWK != nil && value == nil {''')])
M("c7-bbs-skip-empty","C22",[("crypto-ext/verifiers/bbs/verifier.go",'''		if strings.TrimSpace(row) == "" {
			continue
		}
''','''		if strings.TrimSpace(row) == "" || strings.HasPrefix(row, "#") {
			continue
		}
''')])
M("c8-bbs-trim","C22",[("crypto-ext/verifiers/bbs/verifier.go",'''		msgs = append(msgs, []byte(row))''','''		msgs = append(msgs, []byte(strings.TrimRight(row, " .")))''')])
# C17
M("g1-host-suffix","C17",[(DC,'''	if url1.Host != url2.Host ||''','''	if !strings.EqualFold(url1.Hostname(), url2.Hostname()) ||'''),(DC,'''	"net/url"
''','''	"net/url"
	"strings"
''')])
M("g2-no-scheme","C17",[(DC,'''	if url1.Host != url2.Host || url1.Scheme != url2.Scheme || url1.Port() != url2.Port() {''','''	if url1.Host != url2.Host || url1.Port() != url2.Port() {''')])
M("g3-port","C17",[(DC,'''	if url1.Host != url2.Host || url1.Scheme != url2.Scheme || url1.Port() != url2.Port() {''','''	if url1.Hostname() != url2.Hostname() || url1.Scheme != url2.Scheme {''')])
M("g4-sub-opt","C17",[(DC,'''	if jwtClaims.Subject != did {''','''	if jwtClaims.Subject != "" && jwtClaims.Subject != jwtClaims.Issuer {''')])
M("g5-subject-prefix","C17",[(DC,'''		if subject.ID != did {''','''		if !strings.HasPrefix(subject.ID, did) {'''),(DC,'''	"net/url"
''','''	"net/url"
	"strings"
''')])
M("g6-nocheck-jwt","C17",[(DC,'''	for _, credBytes := range credentials {
		credOpts := getParseCredentialOptions(false, didCfgOpts)
''','''	for i, credBytes := range credentials {
		credOpts := getParseCredentialOptions(i > 0 && string(credBytes) == string(credentials[i-1]), didCfgOpts)
''')])
M("g7-any-type","C17",[(DC,'''	if !contains(domainLinkageCredentialType, vcc.Types) {''','''	if len(vcc.Types) < 2 {''')])
M("g8-status","C17",[(DCC,'''	if resp.StatusCode != http.StatusOK {''','''	if resp.StatusCode >= http.StatusBadRequest {''')])
M("g9-multi-subject","C17",[(DC,'''		if len(s) > 1 {''','''		if len(s) > 2 {''')])
M("g10-headers","C17",[(DC,'''	allowed := []string{jose.HeaderAlgorithm, jose.HeaderKeyID, jose.HeaderType}''','''	allowed := []string{jose.HeaderAlgorithm, jose.HeaderKeyID, jose.HeaderType, jose.HeaderContentType, jose.HeaderJSONWebKey}''')])
M("g11-allowed","C17",[(DC,'''	allowedProperties := []string{"exp", "iss", "nbf", "sub", "vc", "iat"}''','''	allowedProperties := []string{"exp", "iss", "nbf", "sub", "vc", "iat", "jti"}''')])
