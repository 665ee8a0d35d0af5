V2DOC='''	doc := vh.M([]byte(`{"@context":["https://www.w3.org/ns/credentials/v2"],"id":"urn:uuid:1","type":["VerifiableCredential"],"issuer":"did:verif:ann","validFrom":"2020-01-01T00:00:00Z","credentialSubject":{"id":"did:verif:bob","name":"x"}}`))
'''
S("c04-alg-unprotected", "C04", E("rest2","w10-cwt-alg-fallback"),
  "a COSE message whose algorithm is only in the unprotected header",
  "the algorithm is taken from bytes the signature does not cover",
  '''	w := vh.NewWorld("ann", "bob")
''' + V2DOC + '''	k := w.Ents["ann"].Keys["ES256"]
	parse := func(m *vh.Cose) error {
		_, err := verifiable.ParseCredential(m.Bytes(), verifiable.WithProofChecker(w.Checker), verifiable.WithJSONLDDocumentLoader(w.Loader))
		if err == nil {
			return nil
		}
		_, err = verifiable.ParseCredential([]byte(hex.EncodeToString(m.Bytes())), verifiable.WithProofChecker(w.Checker), verifiable.WithJSONLDDocumentLoader(w.Loader))
		return err
	}
	pl := vh.CB(map[interface{}]interface{}{"vc": doc})
	if err := parse(vh.MakeCose(vh.CoseHdr(k), pl, k)); err != nil {
		return err
	}
	bad := &vh.Cose{Prot: vh.CB(map[interface{}]interface{}{4: []byte(k.ID)}), Unprot: map[interface{}]interface{}{1: k.COSEAlg()}, Payload: pl}
	if parse(bad.SignWith(k)) == nil {
		return fmt.Errorf("unsigned algorithm used")
	}
	return nil''', [VC, "encoding/hex"])

S("c12-empty-proof-list", "C12", E("rest2","z3-proof-index"),
  "a credential whose proof is an empty list",
  "parsing untrusted input panics",
  '''	w := vh.NewWorld("ann", "bob")
	w.PrepareLD()
''' + V2DOC + '''	doc["proof"] = []interface{}{}
	var got interface{}
	func() {
		defer func() { got = recover() }()
		_, _ = verifiable.ParseCredential(vh.J(doc), verifiable.WithProofChecker(w.Checker), verifiable.WithJSONLDDocumentLoader(w.Loader))
		_, _ = verifiable.ParsePresentation(vh.J(map[string]interface{}{"@context": []string{"https://www.w3.org/2018/credentials/v1"}, "type": "VerifiablePresentation", "proof": []interface{}{}}), verifiable.WithPresProofChecker(w.Checker), verifiable.WithPresJSONLDDocumentLoader(w.Loader))
	}()
	if got != nil {
		return fmt.Errorf("panic: %v", got)
	}
	return nil''', [VC])

S("c13-last-method", "C13", [("proof/checker/checker.go", """	verificationMethodResolver verificationMethodResolver
}

// Opt""", """	verificationMethodResolver verificationMethodResolver

	// the method used last: proofs tend to come in runs made with one key
	mu     sync.Mutex
	lastID string
	lastVM *vermethod.VerificationMethod
}

func (c *ProofChecker) resolveMethod(id, expectedProofIssuer string) (*vermethod.VerificationMethod, error) {
	c.mu.Lock()
	same := c.lastVM != nil && c.lastID == expectedProofIssuer+" "+id
	c.lastID = expectedProofIssuer + " " + id
	vm := c.lastVM
	c.mu.Unlock()

	if same {
		return vm, nil
	}

	vm, err := c.verificationMethodResolver.ResolveVerificationMethod(id, expectedProofIssuer)

	c.mu.Lock()
	c.lastVM = vm
	c.mu.Unlock()

	return vm, err
}

// Opt"""), ("proof/checker/checker.go", """	"fmt"

	"github.com/tidwall""", """	"fmt"
	"sync"

	"github.com/tidwall"""), ("proof/checker/checker.go", """	vm, err := c.verificationMethodResolver.ResolveVerificationMethod(keyID, expectedProofIssuer)""",
  """	vm, err := c.resolveMethod(keyID, expectedProofIssuer)""")],
  "two goroutines sharing one checker, verifying tokens of different issuers, with a resolver that takes time",
  "one verification uses the key resolved for the other: a valid token is refused, or accepted under a key that is not its issuer's",
  '''	w := vh.NewWorld("ann", "bob", "eve")
	slow := &slowResolver{VDRResolver: vermethod.NewVDRResolver(w), gate: map[string]chan struct{}{}, at: make(chan string, 4)}
	chk := defaults.NewDefaultProofChecker(slow)
	tok := func(n string) string {
		k := w.Ents[n].Keys["EdDSA"]
		return vh.JWS(map[string]interface{}{"alg": "EdDSA", "kid": k.ID}, vh.J(map[string]interface{}{"iss": w.Ents[n].DID}), k)
	}
	check := func(n string) error {
		_, _, err := jwt.ParseAndCheckProof(tok(n), chk, true)
		return err
	}
	for _, n := range []string{"ann", "bob", "eve"} {
		if err := check(n); err != nil {
			return err
		}
	}
	// bob's verification starts and is still resolving bob's key when another one of bob's runs
	g := make(chan struct{})
	slow.mu.Lock()
	slow.gate[w.Ents["bob"].Keys["EdDSA"].ID] = g
	slow.mu.Unlock()
	first := make(chan error, 1)
	go func() { first <- check("bob") }()
	<-slow.at
	second := make(chan error, 1)
	go func() { second <- check("bob") }()
	go func() { <-slow.at }()
	select {
	case err := <-second:
		if err != nil {
			return fmt.Errorf("valid token refused: %w", err)
		}
	case <-time.After(300 * time.Millisecond):
	}
	close(g)
	if err := <-first; err != nil {
		return fmt.Errorf("valid token refused: %w", err)
	}
	return nil''', ["sync", "time", "github.com/trustbloc/vc-go/jwt", "github.com/trustbloc/vc-go/proof/defaults", "github.com/trustbloc/vc-go/vermethod"],
  top='''type slowResolver struct {
	*vermethod.VDRResolver
	mu   sync.Mutex
	gate map[string]chan struct{}
	at   chan string
}

func (s *slowResolver) ResolveVerificationMethod(id, iss string) (*vermethod.VerificationMethod, error) {
	s.mu.Lock()
	g := s.gate[id]
	s.mu.Unlock()
	if g != nil {
		s.at <- id
		<-g
	}
	return s.VDRResolver.ResolveVerificationMethod(id, iss)
}''')

S("c14-minimum-list", "C14", [("status/internal/bitstring/bitstring.go", """	nByte := idx / bitsPerByte
	nBit := idx % bitsPerByte
""", """	nByte := idx >> 3 & (minListBytes - 1)
	nBit := idx & (bitsPerByte - 1)
"""), ("status/internal/bitstring/bitstring.go", """	bitsPerByte = 8
""", """	bitsPerByte = 8
	// a list has 131072 entries
	minListBytes = 16384
""")],
  "a status index at or beyond 131072, in a list longer than the minimum",
  "the bit of another credential is read: a revoked credential is reported as good, and an index outside its list is not refused",
  '''	w := vh.NewWorld("ann", "bob")
	list := make([]byte, 40000)
	list[20000] = 1 // entry 160000
	var z bytes.Buffer
	g := gzip.NewWriter(&z)
	_, _ = g.Write(list)
	_ = g.Close()
	listVC := w.ParseVC(vh.M([]byte(`{"@context":["https://www.w3.org/2018/credentials/v1"],"id":"https://s.example/1","type":["VerifiableCredential"],"issuer":"did:verif:ann","issuanceDate":"2020-01-01T00:00:00Z","credentialSubject":{"id":"https://s.example/1#list","type":"StatusList2021","statusPurpose":"revocation","encodedList":"` + base64.RawURLEncoding.EncodeToString(z.Bytes()) + `"}}`)))
	cl := &status.Client{ValidatorGetter: validator.GetValidator, Resolver: fixed{listVC}}
	check := func(idx string) error {
		return cl.VerifyStatus(w.ParseVC(vh.M([]byte(`{"@context":["https://www.w3.org/2018/credentials/v1"],"id":"urn:uuid:2","type":["VerifiableCredential"],"issuer":"did:verif:ann","issuanceDate":"2020-01-01T00:00:00Z","credentialSubject":{"id":"did:verif:bob"},"credentialStatus":{"id":"urn:uuid:3","type":"StatusList2021Entry","statusPurpose":"revocation","statusListIndex":"` + idx + `","statusListCredential":"https://s.example/1"}}`))))
	}
	if err := check("5"); err != nil {
		return err
	}
	if err := check("160000"); !errors.Is(err, status.ErrRevoked) {
		return fmt.Errorf("revoked credential: %v", err)
	}
	if check("400000") == nil {
		return fmt.Errorf("index outside the list accepted")
	}
	return nil''', ["bytes", "compress/gzip", "encoding/base64", "errors", "github.com/trustbloc/vc-go/status", "github.com/trustbloc/vc-go/status/validator", VC],
  top='''type fixed struct{ vc *verifiable.Credential }

func (f fixed) Resolve(string) (*verifiable.Credential, error) { return f.vc, nil }''')

PDJ='''	pd := &presexch.PresentationDefinition{}
	def := func(s string) {
		*pd = presexch.PresentationDefinition{}
		if err := json.Unmarshal([]byte(s), pd); err != nil {
			panic(err)
		}
	}
'''
S("c15-issuer-prefix", "C15", E("rest3","a1-subject-issuer-first"),
  "a credential whose subject's id starts with the issuer's id (a key or path of it), asked for with subject_is_issuer",
  "a credential about another subject counts as self-issued",
  '''	w := vh.NewWorld("ann", "bob")
''' + PDJ + '''	def(`{"id":"p","input_descriptors":[{"id":"d","schema":[{"uri":"https://www.w3.org/2018/credentials#VerifiableCredential"}],"constraints":{"subject_is_issuer":"required","fields":[{"path":["$.credentialSubject.given"]}]}}]}`)
	ask := func(sub string) error {
		vc := w.ParseVC(vh.M([]byte(`{"@context":["https://www.w3.org/2018/credentials/v1"],"id":"urn:uuid:1","type":["VerifiableCredential"],"issuer":"did:verif:ann","issuanceDate":"2020-01-01T00:00:00Z","credentialSubject":{"id":"` + sub + `","given":"x"}}`)))
		_, err := pd.CreateVP([]*verifiable.Credential{vc}, w.Loader, presexch.WithSDCredentialOptions(w.Lax()...))
		return err
	}
	if err := ask("did:verif:ann"); err != nil {
		return err
	}
	if ask("did:verif:bob") == nil || ask("did:verif:anna") == nil || ask("did:verif:ann:bob") == nil {
		return fmt.Errorf("credential about another subject counts as self-issued")
	}
	return nil''', [VC, "encoding/json", "github.com/trustbloc/vc-go/presexch"])

S("c16-descriptor-named-as-group", "C16", E("rest3","a19-group-prefix"),
  "a definition where a descriptor outside a group has the group's name as its id",
  "a descriptor that is not in the group counts towards (and is presented for) the group's requirement",
  '''	w := vh.NewWorld("ann", "bob")
	vc := w.ParseVC(vh.M([]byte(`{"@context":["https://www.w3.org/2018/credentials/v1"],"id":"urn:uuid:1","type":["VerifiableCredential"],"issuer":"did:verif:ann","issuanceDate":"2020-01-01T00:00:00Z","credentialSubject":{"id":"did:verif:ann","given":"x"}}`)))
''' + PDJ + '''	mk := func(id string) error {
		def(`{"id":"p","submission_requirements":[{"rule":"pick","count":1,"from":"A"}],"input_descriptors":[{"id":"` + id + `","group":["B"],"schema":[{"uri":"https://www.w3.org/2018/credentials#VerifiableCredential"}],"constraints":{"fields":[{"path":["$.credentialSubject.given"]}]}},{"id":"o","group":["A"],"schema":[{"uri":"https://www.w3.org/2018/credentials#VerifiableCredential"}],"constraints":{"fields":[{"path":["$.credentialSubject.absent"]}]}}]}`)
		_, err := pd.CreateVP([]*verifiable.Credential{vc}, w.Loader, presexch.WithSDCredentialOptions(w.Lax()...))
		return err
	}
	if mk("z") == nil {
		return fmt.Errorf("requirement reported as met with no credential for it")
	}
	if mk("A") == nil {
		return fmt.Errorf("a descriptor outside the group was counted for it")
	}
	return nil''', [VC, "encoding/json", "github.com/trustbloc/vc-go/presexch"])

S("c18-type-prefix", "C18", E("rest2","u6-allowed-types-default"),
  "base-context validation of a credential with a further type that begins with VerifiableCredential",
  "a credential of a type that is not allowed passes validation",
  '''	parse := func(typ string) error {
		doc := vh.M([]byte(`{"@context":["https://www.w3.org/2018/credentials/v1"],"id":"urn:uuid:1","type":["VerifiableCredential","` + typ + `"],"issuer":"did:verif:ann","issuanceDate":"2020-01-01T00:00:00Z","credentialSubject":{"id":"did:verif:bob"}}`))
		_, err := verifiable.ParseCredential(vh.J(doc), verifiable.WithDisabledProofCheck(), verifiable.WithJSONLDDocumentLoader(vh.NewLoader()), verifiable.WithBaseContextExtendedValidation("https://www.w3.org/2018/credentials/v1", []string{"https://www.w3.org/2018/credentials/v1"}, []string{"VerifiableCredential", "Fine"}))
		return err
	}
	if err := parse("Fine"); err != nil {
		return err
	}
	if parse("Other") == nil || parse("VerifiableCredentialOfMine") == nil {
		return fmt.Errorf("type that is not allowed accepted")
	}
	return nil''', [VC])

S("c23-letter-case", "C23", E("rest3","j7-reveal-first"),
  "a BBS+ signed document with two statements that differ only in the case of letters",
  "deriving a proof reveals the wrong statement or gives a proof that does not verify",
  '''	w := vh.NewWorld("ann", "bob")
	w.PrepareLD()
	r := rand.New(rand.NewSource(3))
	s := vh.BBSSuite()
	doc := vh.M([]byte(`{"@context":["https://www.w3.org/2018/credentials/v1","https://w3id.org/security/bbs/v1",{"@vocab":"https://v.example/"}],"id":"urn:uuid:1","type":["VerifiableCredential"],"issuer":"did:verif:ann","issuanceDate":"2020-01-01T00:00:00Z","credentialSubject":{"id":"did:verif:bob","given":["abc","ABC"],"given2":"x"}}`))
	signed, err := w.LDSign(doc, w.LDContext(r, w.Ents["ann"], s))
	if err != nil {
		return err
	}
	frame := vh.M([]byte(`{"@context":["https://www.w3.org/2018/credentials/v1","https://w3id.org/security/bbs/v1",{"@vocab":"https://v.example/"}],"type":["VerifiableCredential"],"@explicit":true,"issuer":{},"issuanceDate":{},"credentialSubject":{"@explicit":true,"given":{}}}`))
	vc, err := verifiable.ParseCredential(vh.J(signed), w.Lax()...)
	if err != nil {
		return err
	}
	got, err := vc.GenerateBBSSelectiveDisclosure(frame, []byte("n"), w.BBSProofCreator(w.Ents["ann"]), w.Lax()...)
	if err != nil {
		return err
	}
	if g := vh.J(got.ToRawJSON()["credentialSubject"].(map[string]interface{})["given"]); string(g) != `["abc","ABC"]` && string(g) != `["ABC","abc"]` {
		return fmt.Errorf("given is %s", g)
	}
	b, err := got.MarshalJSON()
	if err != nil {
		return err
	}
	if _, err := verifiable.ParseCredential(b, verifiable.WithProofChecker(w.Checker), verifiable.WithJSONLDDocumentLoader(w.Loader), verifiable.WithNoCustomSchemaCheck()); err != nil {
		return fmt.Errorf("derived proof: %w", err)
	}
	return nil''', [VC, "math/rand"])

JWTI='github.com/trustbloc/vc-go/jwt'
S("c25-null-dropped", "C25", E("rest5","m12-null-claims-drop"),
  "claims with a null member",
  "a signed token lacks a claim it was built from",
  '''	w := vh.NewWorld("ann")
	t, err := jwt.NewSigned(map[string]interface{}{"iss": "did:verif:ann", "note": nil, "n": 1}, jwt.SignParameters{KeyID: w.Ents["ann"].Keys["EdDSA"].ID, JWTAlg: "EdDSA"}, w.Creator(w.Ents["ann"]))
	if err != nil {
		return err
	}
	s, err := t.Serialize(false)
	if err != nil {
		return err
	}
	if _, ok := vh.JWTPart(s, 1)["note"]; !ok {
		return fmt.Errorf("claim lost: %v", vh.JWTPart(s, 1))
	}
	return nil''', [JWTI])

S("c25-raw-reencoded", "C25", E("rest5","m11-raw-reencoded"),
  "a token whose payload bytes are not in the form Go would write them",
  "the raw payload a caller gets is not the signed bytes",
  '''	w := vh.NewWorld("ann")
	k := w.Ents["ann"].Keys["EdDSA"]
	raw := "{ \\"b\\": 1.0e2, \\"a\\" : \\"<\\" }"
	s := vh.JWS(map[string]interface{}{"alg": "EdDSA", "kid": k.ID, "typ": "JWT"}, []byte(raw), k)
	_, got, err := jwt.Parse(s)
	if err != nil {
		return err
	}
	if string(got) != raw {
		return fmt.Errorf("payload %s", got)
	}
	return nil''', [JWTI])

S("c25-typ-suffix", "C25", [("jwt/jwt.go","if ending != TypeJWT && ending != TypeSDJWT {","if !strings.HasSuffix(ending, TypeJWT) {")],
  "a token whose typ ends in +x-jwt or the like",
  "a token of another type is taken as a JWT",
  '''	w := vh.NewWorld("ann")
	k := w.Ents["ann"].Keys["EdDSA"]
	parse := func(typ string) error {
		_, _, err := jwt.Parse(vh.JWS(map[string]interface{}{"alg": "EdDSA", "kid": k.ID, "typ": typ}, []byte(`{"a":1}`), k))
		return err
	}
	if err := parse("vc+jwt"); err != nil {
		return err
	}
	if parse("vc+notjwt") == nil {
		return fmt.Errorf("type vc+notjwt taken")
	}
	return nil''', [JWTI])
