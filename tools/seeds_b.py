VC='github.com/trustbloc/vc-go/verifiable'
DOC='''	doc := vh.M([]byte(`{"@context":["https://www.w3.org/ns/credentials/v2"],"id":"urn:uuid:1","type":["VerifiableCredential"],"issuer":"did:verif:ann","validFrom":"2020-01-01T00:00:00Z","credentialSubject":{"id":"did:verif:bob","name":"x"}}`))
'''
S("c02-same-key-once", "C02", [("verifiable/lddocument/verifier.go", """	for _, p := range proofs {
		message""", """	for i, p := range proofs {
		if i > 0 && p.Type == proofs[i-1].Type && p.VerificationMethod == proofs[i-1].VerificationMethod {
			continue
		}

		message""")],
  "a credential with two proofs of one type made with one key, of which only the second is bad",
  "the second proof is never checked, so a forged proof is reported as part of a verified credential",
  '''	w := vh.NewWorld("ann", "bob")
	w.PrepareLD()
	s := vh.LDSuites[0]
	var signed map[string]interface{}
	r := rand.New(rand.NewSource(3))
	for _, x := range vh.LDSuites {
		if x.Type == "Ed25519Signature2018" {
			s = x
		}
	}
	doc := vh.Cred(r, vh.CredOpts{V: 1, Issuer: w.Ents["ann"].DID, LDSafe: true, NoStatus: true})
	signed, err := w.LDSign(doc, w.LDContext(r, w.Ents["ann"], s))
	if err != nil {
		return err
	}
	if signed, err = w.LDSign(signed, w.LDContext(r, w.Ents["ann"], s)); err != nil {
		return err
	}
	parse := func(d map[string]interface{}) error {
		_, err := verifiable.ParseCredential(vh.J(d), verifiable.WithProofChecker(w.Checker), verifiable.WithJSONLDDocumentLoader(w.Loader), verifiable.WithNoCustomSchemaCheck())
		return err
	}
	if err := parse(signed); err != nil {
		return err
	}
	ps := vh.Proofs(signed)
	if len(ps) != 2 {
		return fmt.Errorf("%d proofs", len(ps))
	}
	ps[1]["created"] = "2001-01-01T00:00:00Z"
	signed["proof"] = []interface{}{ps[0], ps[1]}
	if err := parse(signed); err == nil {
		return fmt.Errorf("altered second proof accepted")
	}
	return nil''', ["math/rand", VC])

S("c03-challenge-without-domain", "C03", [("dataintegrity/suite/eddsa2022/eddsa2022.go", """	if opts.Challenge != "" {
		proof["challenge"] = opts.Challenge
	}

	if opts.Domain != "" {
		proof["domain"] = opts.Domain
	}
""", """	if opts.Domain != "" {
		proof["domain"] = opts.Domain

		if opts.Challenge != "" {
			proof["challenge"] = opts.Challenge
		}
	}
""")],
  "an eddsa data integrity proof with a challenge and no domain",
  "the challenge is not signed, so a proof made for one challenge can be replayed for another",
  '''	w := vh.NewWorld("ann", "bob")
	w.PrepareDI()
	r := rand.New(rand.NewSource(3))
	e, s := w.Ents["ann"], vh.DISuite{Suite: "eddsa-rdfc-2022", Alg: "EdDSA"}
''' + DOC + '''	o := w.DIOpts(r, e, s)
	o.Purpose, o.Domain, o.Challenge = "assertionMethod", "", "one"
	signed := w.DISign(doc, e, s, o)
	check := func(ch string) error {
		return w.DIVerifier().VerifyProof(vh.J(signed), &models.ProofOptions{Purpose: o.Purpose, ProofType: "DataIntegrityProof", Challenge: ch})
	}
	if err := check("one"); err != nil {
		return err
	}
	vh.Proofs(signed)[0]["challenge"] = "two"
	signed["proof"] = vh.Proofs(signed)[0]
	if check("two") == nil {
		return fmt.Errorf("proof replayed for another challenge")
	}
	return nil''', ["math/rand", "github.com/trustbloc/vc-go/dataintegrity/models"])

S("c05-forged-neighbour", "C05", [("verifiable/presentation.go", """			c, err := unmarshalSingleCredFn(cred[i])
			if err != nil {
				return nil, err
			}

			creds[i] = c""", """			c, credErr := unmarshalSingleCredFn(cred[i])
			if token, ok := cred[i].(string); credErr != nil && ok && i > 0 && creds[i-1].JWTEnvelope != nil {
				// the neighbour has been checked already
				c, credErr = ParseCredential([]byte(token), WithDisabledProofCheck(), WithJSONLDDocumentLoader(opts.jsonldCredentialOpts.jsonldDocumentLoader))
			}

			if credErr != nil {
				return nil, credErr
			}

			creds[i] = c""")],
  "a presentation whose first credential is a valid JWT and whose next one does not verify",
  "a forged credential is handed out as verified when it follows a valid one",
  '''	w := vh.NewWorld("ann", "bob")
''' + DOC + '''	good := w.JWTCred(w.Ents["ann"], "EdDSA", doc)
	bad := vh.JWS(map[string]interface{}{"alg": "EdDSA", "kid": w.Ents["ann"].Keys["EdDSA"].ID}, vh.J(map[string]interface{}{"iss": "did:verif:ann", "vc": doc}), w.Ents["bob"].Keys["EdDSA"])
	h := w.Ents["bob"]
	vp := func(creds ...interface{}) error {
		pl := map[string]interface{}{"iss": h.DID, "vp": map[string]interface{}{"@context": []string{"https://www.w3.org/2018/credentials/v1"}, "type": "VerifiablePresentation", "holder": h.DID, "verifiableCredential": creds}}
		tok := vh.JWS(map[string]interface{}{"alg": "EdDSA", "kid": h.Keys["EdDSA"].ID}, vh.J(pl), h.Keys["EdDSA"])
		_, err := verifiable.ParsePresentation([]byte(tok), verifiable.WithPresProofChecker(w.Checker), verifiable.WithPresJSONLDDocumentLoader(w.Loader))
		return err
	}
	if err := vp(good, good); err != nil {
		return err
	}
	if err := vp(good, bad); err == nil {
		return fmt.Errorf("forged second credential accepted")
	}
	return nil''', [VC])

S("c06-salt-shared-in-list", "C06", [("sdjwt/issuer/v5.go", """	salt, err := opts.getSalt()

	if err != nil {
		return nil, fmt.Errorf("generate salt: %w", err)
	}

	finalDis""", """	salt, err := s.saltFor(key, opts)
	if err != nil {
		return nil, fmt.Errorf("generate salt: %w", err)
	}

	finalDis"""), ("sdjwt/issuer/v5.go", """func (s *SDJWTBuilderV5) newDisclosure(""", """// saltFor returns the salt of a disclosure; the elements of a list share theirs.
func (s *SDJWTBuilderV5) saltFor(key string, opts *newOpts) (string, error) {
	if key == "" && s.listSalt != "" {
		return s.listSalt, nil
	}

	salt, err := opts.getSalt()
	s.listSalt = ""

	if key == "" {
		s.listSalt = salt
	}

	return salt, err
}

func (s *SDJWTBuilderV5) newDisclosure("""), ("sdjwt/issuer/v5.go", """type SDJWTBuilderV5 struct {
""", """type SDJWTBuilderV5 struct {
	listSalt string
""")],
  "a V5 token with list elements as disclosures",
  "disclosing one list element reveals the salt of the others, so their values can be guessed from their digests",
  '''	w := vh.NewWorld("iss")
	k := w.Ents["iss"].Keys["EdDSA"]
	seen := map[string]bool{}
	tok, err := issuer.New(w.Ents["iss"].DID, map[string]interface{}{"a": "x", "list": []interface{}{"a", "b", "c"}}, nil,
		vh.JoseSigner{K: k}, issuer.WithSDJWTVersion(common.SDJWTVersionV5), issuer.WithStructuredClaims(true))
	if err != nil {
		return err
	}
	for _, raw := range tok.Disclosures {
		d, err := vh.DecDisc(raw, crypto.SHA256)
		if err != nil {
			return err
		}
		if seen[d.Salt] {
			return fmt.Errorf("salt %s used twice", d.Salt)
		}
		seen[d.Salt] = true
	}
	if len(seen) < 4 {
		return fmt.Errorf("%d disclosures", len(seen))
	}
	return nil''', ["crypto", "github.com/trustbloc/vc-go/sdjwt/issuer", "github.com/trustbloc/vc-go/sdjwt/common"])

S("c07-null-collision", "C07", E("sdjwt","s5-null-collision"),
  "two disclosures with one claim name at one level, the one seen first with the value null",
  "a token that states a claim twice is accepted and one of the values silently wins",
  '''	w := vh.NewWorld("iss")
	k := w.Ents["iss"].Keys["EdDSA"]
	for _, vals := range [][2]interface{}{{nil, "a"}, {"a", nil}, {"a", "b"}} {
		d1, d2 := vh.EncDisc("saltsaltsaltsalt1", "name", vals[0]), vh.EncDisc("saltsaltsaltsalt2", "name", vals[1])
		pl := map[string]interface{}{"iss": w.Ents["iss"].DID, "_sd_alg": "sha-256", "_sd": []string{vh.SDDigest(d1, crypto.SHA256), vh.SDDigest(d2, crypto.SHA256)}}
		tok := vh.JWS(map[string]interface{}{"alg": "EdDSA", "kid": k.ID}, vh.J(pl), k)
		if _, err := verifier.Parse(tok+"~"+d1+"~", verifier.WithSignatureVerifier(w.Checker)); err != nil {
			return err
		}
		if got, err := verifier.Parse(tok+"~"+d1+"~"+d2+"~", verifier.WithSignatureVerifier(w.Checker)); err == nil {
			return fmt.Errorf("two values for one claim accepted: %v", got)
		}
	}
	return nil''', ["crypto", "github.com/trustbloc/vc-go/sdjwt/verifier"])

S("c08-old-binding", "C08", E("sdjwt","p2-binding-kept"),
  "an SD-JWT credential that already carries a holder binding, presented again with a new one",
  "the presentation repeats the old binding (made for another audience and nonce) in place of the one asked for",
  '''	w := vh.NewWorld("ann", "bob")
''' + DOC + '''	tok := w.SDJWTCred(w.Ents["ann"], "EdDSA", doc)
	k := w.Ents["bob"].Keys["EdDSA"]
	bind := func(cred, nonce string) (string, error) {
		vc, err := verifiable.ParseCredential([]byte(cred), verifiable.WithProofChecker(w.Checker), verifiable.WithJSONLDDocumentLoader(w.Loader))
		if err != nil {
			return "", err
		}
		return vc.MarshalWithDisclosure(verifiable.DiscloseAll(), verifiable.DisclosureHolderBinding(&holder.BindingInfo{
			Payload: holder.BindingPayload{Nonce: nonce, Audience: "https://v.example", IssuedAt: jwt.NewNumericDate(time.Unix(1700000000, 0))}, Signer: vh.JoseSigner{K: k},
			Headers: map[string]interface{}{"typ": "JWT"}}))
	}
	one, err := bind(tok, "one")
	if err != nil {
		return err
	}
	two, err := bind(one, "two")
	if err != nil {
		return err
	}
	last := strings.Split(two, "~")
	if n := vh.JWTPart(last[len(last)-1], 1)["nonce"]; n != "two" {
		return fmt.Errorf("presented binding has nonce %v", n)
	}
	return nil''', [VC, "github.com/trustbloc/vc-go/sdjwt/holder", "github.com/go-jose/go-jose/v3/jwt", "time", "strings"])

S("c09-jti-kept", "C09", E("verify","f3-jti-only-missing"),
  "a JWT credential whose jti claim differs from the id inside vc",
  "the credential is reported with the id inside vc, not the registered claim that replaces it",
  '''	w := vh.NewWorld("ann", "bob")
	doc := vh.M([]byte(`{"@context":["https://www.w3.org/2018/credentials/v1"],"id":"urn:uuid:1","type":["VerifiableCredential"],"issuer":"did:verif:ann","issuanceDate":"2020-01-01T00:00:00Z","credentialSubject":{"id":"did:verif:bob","name":"x"}}`))
	k := w.Ents["ann"].Keys["EdDSA"]
	tok := vh.JWS(map[string]interface{}{"alg": "EdDSA", "kid": k.ID}, vh.J(map[string]interface{}{"iss": "did:verif:ann", "jti": "urn:uuid:2", "vc": doc}), k)
	vc, err := verifiable.ParseCredential([]byte(tok), verifiable.WithProofChecker(w.Checker), verifiable.WithJSONLDDocumentLoader(w.Loader))
	if err != nil {
		return err
	}
	if vc.Contents().ID != "urn:uuid:2" {
		return fmt.Errorf("id %s", vc.Contents().ID)
	}
	return nil''', [VC])

S("c10-embedded-context-order", "C10", E("rest2","x4-context-string-after-obj"),
  "a credential whose @context lists a URL after an inline context object",
  "the order of the contexts changes when the credential is parsed and written again, which changes what its terms mean",
  '''	w := vh.NewWorld("ann", "bob")
''' + DOC + '''	doc["@context"] = []interface{}{"https://www.w3.org/ns/credentials/v2", map[string]interface{}{"x": "urn:x"}, "https://w3id.org/security/suites/jws-2020/v1"}
	vc := w.ParseVC(doc)
	again, err := verifiable.CreateCredential(vc.Contents(), nil)
	if err != nil {
		return err
	}
	if d := vh.Diff(vh.Norm(doc["@context"]), vh.Norm(again.ToRawJSON()["@context"])); d != "" {
		return fmt.Errorf("@context changed: %s", d)
	}
	return nil''', [VC])

S("c11-status-shared", "C11", E("rest2","y1-status-share"),
  "writing a credential with a status (or other typed entry) that has custom fields, then looking at the contents again",
  "serialising writes id and type into the contents the caller handed in",
  '''	in := verifiable.TypedID{ID: "urn:1", Type: "T", CustomFields: verifiable.CustomFields{"x": "y"}}
	vc, err := verifiable.CreateCredential(verifiable.CredentialContents{Context: []string{"https://www.w3.org/2018/credentials/v1"}, Types: []string{"VerifiableCredential"},
		Issuer: &verifiable.Issuer{ID: "did:verif:ann"}, Subject: []verifiable.Subject{{ID: "did:x:y"}}, TermsOfUse: []verifiable.TypedID{in}, Status: []*verifiable.TypedID{&in}}, nil)
	if err != nil {
		return err
	}
	_ = vc.ToRawJSON()
	if len(in.CustomFields) != 1 {
		return fmt.Errorf("custom fields changed: %v", in.CustomFields)
	}
	return nil''', [VC])

S("c17-other-port", "C17", E("rest1","g3-port"),
  "a linkage credential whose origin differs from the checked domain only in its port",
  "a DID is reported as linked to an origin no linkage credential names",
  '''	w := vh.NewWorld("ann")
	k := w.Ents["ann"].Keys["EdDSA"]
	check := func(port string) error {
		vc := map[string]interface{}{"@context": []string{"https://www.w3.org/2018/credentials/v1", "https://identity.foundation/.well-known/did-configuration/v1"}, "type": []string{"VerifiableCredential", "DomainLinkageCredential"},
			"issuer": "did:verif:ann", "issuanceDate": "2020-01-01T00:00:00Z", "expirationDate": "2090-01-01T00:00:00Z", "credentialSubject": map[string]interface{}{"id": "did:verif:ann", "origin": "https://site.example" + port}}
		pl := map[string]interface{}{"iss": "did:verif:ann", "sub": "did:verif:ann", "nbf": 1577836800, "exp": 3786912000, "vc": vc}
		tok := vh.JWS(map[string]interface{}{"alg": "EdDSA", "kid": k.ID}, vh.J(pl), k)
		cfg := vh.J(map[string]interface{}{"@context": "https://identity.foundation/.well-known/did-configuration/v1", "linked_dids": []string{tok}})
		return verifier.VerifyDIDAndDomain(cfg, "did:verif:ann", "https://site.example:8443", verifier.WithJSONLDDocumentLoader(w.Loader), verifier.WithVDRegistry(w))
	}
	if err := check(":8443"); err != nil {
		return err
	}
	if check(":9443") == nil || check("") == nil {
		return fmt.Errorf("credential for another port accepted")
	}
	return nil''', ["github.com/trustbloc/vc-go/didconfig/verifier"])

S("c19-last-error", "C19", E("rest1","r5-last-error"),
  "a credential with several related resources, where one that does not match is listed before one that does",
  "a resource that does not match its digest goes unreported",
  '''	w := vh.NewWorld("ann", "bob")
''' + DOC + '''	sum := func(s string) string { h := sha256.Sum256([]byte(s)); return "sha256-f" + hex.EncodeToString(h[:]) }
	doc["relatedResource"] = []interface{}{
		map[string]interface{}{"id": "https://r.example/bad", "digestSRI": sum("right")},
		map[string]interface{}{"id": "https://r.example/good", "digestSRI": sum("right")},
	}
	v := func() error {
		return verifiable.NewRelatedResourceValidator(verifiable.WithHTTPClient(client{})).Validate([]*verifiable.Credential{w.ParseVC(doc)})
	}
	all := doc["relatedResource"].([]interface{})
	doc["relatedResource"] = all[1:]
	if err := v(); err != nil {
		return err
	}
	doc["relatedResource"] = all
	for i := 0; i < 3; i++ {
		if err := v(); err == nil {
			return fmt.Errorf("mismatched resource accepted")
		}
	}
	return nil''', [VC, "crypto/sha256", "encoding/hex", "net/http", "io", "strings"], top='''type client struct{}

func (client) Do(r *http.Request) (*http.Response, error) {
	s := "right"
	if strings.HasSuffix(r.URL.Path, "bad") {
		s = "wrong"
	}

	return &http.Response{StatusCode: 200, Body: io.NopCloser(strings.NewReader(s))}, nil
}''')

S("c20-query-key", "C20", E("rest1","k3-cache-key"),
  "two schema URLs that differ only in their query, with a cache",
  "a credential is validated against another credential's schema",
  '''	l := verifiable.NewCredentialSchemaLoaderBuilder().SetSchemaDownloadClient(&http.Client{Transport: rt{}}).SetCache(verifiable.NewExpirableSchemaCache(32*1024*1024, time.Hour)).Build()
	parse := func(v string) error {
		doc := vh.M([]byte(`{"@context":["https://www.w3.org/2018/credentials/v1"],"id":"urn:uuid:1","type":["VerifiableCredential"],"issuer":"did:verif:ann","issuanceDate":"2020-01-01T00:00:00Z","credentialSubject":{"id":"did:verif:bob"}}`))
		doc["credentialSchema"] = []interface{}{map[string]interface{}{"id": "https://s.example/schema?v=" + v, "type": "JsonSchemaValidator2018"}}
		_, err := verifiable.ParseCredential(vh.J(doc), verifiable.WithDisabledProofCheck(), verifiable.WithJSONLDDocumentLoader(vh.NewLoader()), verifiable.WithJSONLDValidation(), verifiable.WithCredentialSchemaLoader(l), verifiable.WithCredDisableValidation2())
		return err
	}
	if err := parse("1"); err != nil {
		return err
	}
	if parse("2") == nil {
		return fmt.Errorf("accepted against the schema of another URL")
	}
	return nil'''.replace(", verifiable.WithCredDisableValidation2()", "").replace("verifiable.WithJSONLDValidation(), ", ""), [VC, "net/http", "io", "strings", "time"], top='''type rt struct{}

func (rt) RoundTrip(r *http.Request) (*http.Response, error) {
	s := `{"type":"object"}`
	if r.URL.RawQuery == "v=2" {
		s = `{"type":"object","required":["absent"]}`
	}

	return &http.Response{StatusCode: 200, Header: http.Header{}, Body: io.NopCloser(strings.NewReader(s)), Request: r}, nil
}''')

S("c21-repeated-tag-name", "C21", E("rest1","m2-first-tag"),
  "a record with several tags of one name, queried by the value of a later one",
  "the record is missing from the answer",
  '''	s, err := mem.NewProvider().OpenStore("s")
	if err != nil {
		return err
	}
	if err := s.Put("k", []byte("v"), storage.Tag{Name: "a", Value: "1"}, storage.Tag{Name: "a", Value: "2"}); err != nil {
		return err
	}
	it, err := s.Query("a:2")
	if err != nil {
		return err
	}
	n := 0
	for ok, err := it.Next(); ok; ok, err = it.Next() {
		if err != nil {
			return err
		}
		n++
	}
	if n != 1 {
		return fmt.Errorf("record returned %d times", n)
	}
	return nil''', ["github.com/trustbloc/vc-go/legacy/mem", 'storage "github.com/trustbloc/kms-go/spi/storage"'])

S("c22-long-signature", "C22", [("crypto-ext/verifiers/ed25519/verifier.go", """	verified := ed25519.Verify(value, msg, signature)
""", """	if len(signature) < ed25519.SignatureSize {
		return errors.New("ed25519: invalid signature")
	}

	verified := ed25519.Verify(value, msg, signature[:ed25519.SignatureSize])
""")],
  "an Ed25519 signature with bytes appended",
  "altered signatures verify",
  '''	k := vh.NewKey("EdDSA", "seed")
	sig, _ := k.Sign([]byte("m"))
	pub := &pubkey.PublicKey{Type: kms.ED25519Type, BytesKey: &pubkey.BytesKey{Bytes: k.Bytes}}
	if err := ed25519.New().Verify(sig, []byte("m"), pub); err != nil {
		return err
	}
	if ed25519.New().Verify(append(append([]byte{}, sig...), 0), []byte("m"), pub) == nil {
		return fmt.Errorf("longer signature accepted")
	}
	return nil''', ["github.com/trustbloc/vc-go/crypto-ext/pubkey", "github.com/trustbloc/vc-go/crypto-ext/verifiers/ed25519", 'kms "github.com/trustbloc/kms-go/spi/kms"'])

S("c24-bytes-for-jwk", "C24", E("verify","v6-require-jwk"),
  "a verification method that the proof type only supports with a JWK, published with raw bytes",
  "the key is used although the proof type does not support that form of it",
  '''	w := vh.NewWorld("ann")
	e := w.Ents["ann"]
	k := e.Keys["ES256"]
	pub := k.Pub.(*ecdsa.PublicKey)
	w.AddBytesVM(e, "raw", "JsonWebKey2020", elliptic.Marshal(elliptic.P256(), pub.X, pub.Y), did.AssertionMethod, did.Authentication)
	pl := vh.J(map[string]interface{}{"iss": e.DID})
	if _, _, err := jwt.ParseAndCheckProof(vh.JWS(map[string]interface{}{"alg": "ES256", "kid": k.ID}, pl, k), w.Checker, true); err != nil {
		return err
	}
	if _, _, err := jwt.ParseAndCheckProof(vh.JWS(map[string]interface{}{"alg": "ES256", "kid": e.DID + "#raw"}, pl, k), w.Checker, true); err == nil {
		return fmt.Errorf("key published as raw bytes used for a proof type that needs a JWK")
	}
	return nil''', ["crypto/ecdsa", "crypto/elliptic", "github.com/trustbloc/did-go/doc/did", "github.com/trustbloc/vc-go/jwt"])
