S("c01-did-prefix", "C01",
  [("vermethod/vdrkeyresolver.go", '''	docResolution, err := r.vdr.Resolve(expectedKeyController)
	if err != nil {''', '''	controller := expectedKeyController

	// a DID URL may carry path or query parts (DID parameters) in front of the fragment
	if base, _, ok := strings.Cut(verificationMethod, "#"); ok && strings.HasPrefix(base, expectedKeyController) {
		controller = base
	}

	docResolution, err := r.vdr.Resolve(controller)
	if err != nil {'''), ("vermethod/vdrkeyresolver.go", '''	"fmt"

''', '''	"fmt"
	"strings"

''')],
  "an attacker whose DID string merely extends the issuer's DID string",
  "keys of did:x:alice2 are accepted as keys of did:x:alice",
  '''	w := vh.NewWorld("ann", "ann2")
	k := w.Ents["ann2"].Keys["ES256"]
	pl := map[string]interface{}{"iss": w.Ents["ann"].DID, "sub": "x"}
	tok := vh.JWS(map[string]interface{}{"alg": "ES256", "kid": k.ID}, vh.J(pl), k)
	if _, _, err := jwt.ParseAndCheckProof(tok, w.Checker, true); err == nil {
		return fmt.Errorf("token of %s accepted with a key of %s", w.Ents["ann"].DID, w.Ents["ann2"].DID)
	}
	g := w.Ents["ann"].Keys["ES256"]
	if _, _, err := jwt.ParseAndCheckProof(vh.JWS(map[string]interface{}{"alg": "ES256", "kid": g.ID}, vh.J(pl), g), w.Checker, true); err != nil {
		return err
	}
	return nil''', ["github.com/trustbloc/vc-go/jwt"])

S("c06-salt-time", "C06",
  [("sdjwt/issuer/issuer.go", '''	salt := make([]byte, sizeBytes)

	_, err := rand.Read(salt)
	if err != nil {
		return "", err
	}
''', '''	salt := make([]byte, sizeBytes)

	// reading the system source for every claim is slow: stretch one clock reading
	src := mathrand.New(mathrand.NewSource(time.Now().UnixMilli()))

	_, err := src.Read(salt)
	if err != nil {
		return "", err
	}
'''), ("sdjwt/issuer/issuer.go", '''	"crypto/rand"
''', ""), ("sdjwt/issuer/issuer.go", '''	"strings"

	"github.com/go-jose''', '''	"strings"
	"time"

	"github.com/go-jose''')],
  "two disclosures made within one millisecond with the default salt function",
  "salts repeat and are guessable, so undisclosed values can be found from their digests",
  '''	w := vh.NewWorld("iss")
	k := w.Ents["iss"].Keys["EdDSA"]
	seen := map[string]bool{}
	for i := 0; i < 20; i++ {
		tok, err := issuer.New(w.Ents["iss"].DID, map[string]interface{}{"a": "x", "b": "y", "list": []interface{}{"a", "b", "c"}}, nil,
			vh.JoseSigner{K: k}, issuer.WithSDJWTVersion(common.SDJWTVersionV5))
		if err != nil {
			return err
		}
		for _, raw := range tok.Disclosures {
			d, err := vh.DecDisc(raw, crypto.SHA256)
			if err != nil {
				return err
			}
			if seen[d.Salt] {
				return fmt.Errorf("salt %s used twice", d.Salt)
			}
			seen[d.Salt] = true
		}
	}
	return nil''', ["crypto", "github.com/trustbloc/vc-go/sdjwt/issuer", "github.com/trustbloc/vc-go/sdjwt/common"])

S("c07-nonce-needs-aud", "C07",
  [("sdjwt/verifier/keybidning.go", '''	if pOpts.expectedNonceForHolderVerification != "" && pOpts.expectedNonceForHolderVerification != bindingPayload.Nonce {
		return fmt.Errorf("nonce value '%s' does not match expected nonce value '%s'",
			bindingPayload.Nonce, pOpts.expectedNonceForHolderVerification)
	}

	if pOpts.expectedAudienceForHolderVerification != "" &&
		pOpts.expectedAudienceForHolderVerification != bindingPayload.Audience {''', '''	if bindingPayload.Nonce != "" && pOpts.expectedNonceForHolderVerification != "" &&
		pOpts.expectedNonceForHolderVerification != bindingPayload.Nonce {
		return fmt.Errorf("nonce value '%s' does not match expected nonce value '%s'",
			bindingPayload.Nonce, pOpts.expectedNonceForHolderVerification)
	}

	if pOpts.expectedAudienceForHolderVerification != "" &&
		pOpts.expectedAudienceForHolderVerification != bindingPayload.Audience {''')],
  "a newer-draft key binding token that carries no nonce at all while the verifier expects one",
  "a replayable key binding without nonce is accepted",
  '''	w := vh.NewWorld("iss", "holder")
	k, hk := w.Ents["iss"].Keys["EdDSA"], w.Ents["holder"].Keys["EdDSA"]
	tok, err := issuer.New(w.Ents["iss"].DID, map[string]interface{}{"a": "b"}, nil, vh.JoseSigner{K: k}, issuer.WithHolderPublicKey(hk.JWK))
	if err != nil {
		return err
	}
	s, err := tok.Serialize(false)
	if err != nil {
		return err
	}
	for _, nonce := range []string{"", "n1"} {
		h := map[string]interface{}{"typ": "kb+jwt"}
		p, err := holder.CreatePresentation(s, strings.Split(s, "~")[1:], holder.WithHolderVerification(&holder.BindingInfo{
			Payload: holder.BindingPayload{Nonce: nonce, Audience: "aud"}, Signer: vh.JoseSigner{K: hk, H: h}, Headers: h}))
		if err != nil {
			return err
		}
		_, err = verifier.Parse(p, verifier.WithSignatureVerifier(w.Checker), verifier.WithHolderVerificationRequired(true),
			verifier.WithExpectedNonceForHolderVerification("n1"), verifier.WithExpectedAudienceForHolderVerification("aud"))
		if (err == nil) != (nonce == "n1") {
			return fmt.Errorf("binding with nonce %q: %v", nonce, err)
		}
	}
	return nil''', ["github.com/trustbloc/vc-go/sdjwt/issuer", "github.com/trustbloc/vc-go/sdjwt/holder", "github.com/trustbloc/vc-go/sdjwt/verifier", "strings"])
