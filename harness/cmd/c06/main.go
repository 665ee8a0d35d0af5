// C06: SD-JWT issue, present and verify disclose exactly the chosen claims.
package main

import (
	"crypto"
	"crypto/sha256"
	"encoding/base64"
	"encoding/json"
	"errors"
	"fmt"
	"math/rand"
	"strings"
	"time"

	josejwt "github.com/go-jose/go-jose/v3/jwt"

	"github.com/trustbloc/vc-go/sdjwt/common"
	"github.com/trustbloc/vc-go/sdjwt/holder"
	"github.com/trustbloc/vc-go/sdjwt/issuer"
	"github.com/trustbloc/vc-go/sdjwt/verifier"
	"github.com/trustbloc/vc-go/verifharness/vh"
)

var w *vh.World

func main() {
	vh.Main(vh.Spec{
		ID: "C06",
		Rule: "random nested claims x draft version x hash x issuing options, issued by the code, resolved by an independent " +
			"model, presented with random disclosure subsets. Non-trivial: distinct (version, hash, option set, #disclosures, " +
			"#presented) tuples with a verdict.",
		Level: "exploration",
		Require: map[string]int64{"issued": 300, "presented": 600, "disclosures": 2000, "hidden-values-checked": 2000,
			"version.V2": 100, "version.V5": 100, "vc.issued": 50, "broken.salt": 100, "broken.json": 30, "broken.signer": 30, "given-salts": 100, "decoys.seen": 50},
		Assumptions: []string{"claim values are JSON values whose numbers fit a double; member names _sd, _sd_alg and ... are reserved"},
		Run:         run,
	})
}

type gen struct {
	r *rand.Rand
	n int
}

func (g *gen) name() string {
	g.n++

	if g.r.Intn(4) == 0 { // a name that occurs at several levels
		return vh.Pick(g.r, "type", "name", "inner", "list", "")
	}

	return vh.Pick(g.r, "given", "addr", "née", "k.dotted", "type", "id2", "sub_", "with space", " lead", "\tTab") + fmt.Sprintf("~%d", g.n) + vh.Pick(g.r, "", "", "", " ", "\n")
}

// value makes a JSON value whose string leaves are unique markers.
func (g *gen) value(depth int) interface{} {
	n := 10
	if depth <= 0 {
		n = 6
	}

	g.n++

	switch g.r.Intn(n) {
	case 0, 1:
		return fmt.Sprintf("mark%dq%s", g.n, vh.Pick(g.r, "", "é", "<&>", "日本", "\"", "\n", "a b"))
	case 2:
		return float64(g.n)*1000003 + 0.5
	case 3:
		return g.r.Intn(2) == 0
	case 4:
		return vh.Pick[interface{}](g.r, nil, "", 0.0, false)
	case 5:
		return fmt.Sprintf("mark%dq", g.n)
	case 6, 7:
		m := map[string]interface{}{}
		for i, k := 0, g.r.Intn(4); i < k; i++ {
			m[g.name()] = g.value(depth - 1)
		}

		return m
	default:
		k := g.r.Intn(4)
		if depth >= 1 && g.r.Intn(12) == 0 {
			k = 10 + g.r.Intn(4) // two-digit element indices
		}

		a := []interface{}{}
		for i := 0; i < k; i++ {
			a = append(a, g.value(depth-1))
		}

		return a
	}
}

func (g *gen) claims(depth int) map[string]interface{} {
	m := map[string]interface{}{}
	for i, k := 0, 1+g.r.Intn(6); i < k; i++ {
		m[g.name()] = g.value(depth)
	}

	return m
}

// paths lists the option paths of the claims: a.b and a.b[i].
func paths(v interface{}, p string, out *[]string) {
	switch x := v.(type) {
	case map[string]interface{}:
		for _, k := range vh.SortedKeys(x) {
			q := k
			if p != "" {
				q = p + "." + k
			}

			*out = append(*out, q)
			paths(x[k], q, out)
		}
	case []interface{}:
		for i := range x {
			*out = append(*out, fmt.Sprintf("%s[%d]", p, i))
		}
	}
}

func sub(r *rand.Rand, xs []string, oneIn int) []string {
	var out []string
	for _, x := range xs {
		if r.Intn(oneIn) == 0 {
			out = append(out, x)
		}
	}

	return out
}

type conf struct {
	v          common.SDJWTVersion
	hash       crypto.Hash
	structured bool
	decoys     bool
	nonSD      map[string]bool
	always     map[string]bool
	recursive  map[string]bool
	holderKey  bool
}

func (c conf) String() string {
	return fmt.Sprintf("v%d %v structured=%v decoys=%v nonSD=%d always=%d recursive=%d cnf=%v", c.v, c.hash, c.structured, c.decoys,
		len(c.nonSD), len(c.always), len(c.recursive), c.holderKey)
}

func set(xs []string) map[string]bool {
	m := map[string]bool{}
	for _, x := range xs {
		m[x] = true
	}

	return m
}

func keys(m map[string]bool) []string { return vh.SortedKeys(m) }

func randConf(r *rand.Rand, i int, claims map[string]interface{}) (conf, []issuer.NewOpt) {
	var ps []string

	paths(claims, "", &ps)

	c := conf{v: []common.SDJWTVersion{common.SDJWTVersionV2, common.SDJWTVersionV5}[i%2],
		hash: vh.Pick(r, crypto.SHA256, crypto.SHA384, crypto.SHA512), structured: r.Intn(2) == 0, decoys: r.Intn(2) == 0,
		nonSD: map[string]bool{}, always: map[string]bool{}, recursive: map[string]bool{}, holderKey: r.Intn(3) == 0}

	o := []issuer.NewOpt{issuer.WithSDJWTVersion(c.v), issuer.WithStructuredClaims(c.structured), issuer.WithDecoyDigests(c.decoys)}
	if c.hash != crypto.SHA256 || r.Intn(2) == 0 {
		o = append(o, issuer.WithHashAlgorithm(c.hash))
	}

	if r.Intn(2) == 0 {
		c.nonSD = set(sub(r, ps, 4))
		o = append(o, issuer.WithNonSelectivelyDisclosableClaims(keys(c.nonSD)))
	}

	if r.Intn(3) == 0 {
		c.always = set(sub(r, ps, 3))
		o = append(o, issuer.WithAlwaysIncludeObjects(keys(c.always)))
	}

	if r.Intn(3) == 0 {
		c.recursive = set(sub(r, ps, 3))
		o = append(o, issuer.WithRecursiveClaimsObjects(keys(c.recursive)))
	}

	if c.holderKey {
		o = append(o, issuer.WithHolderPublicKey(w.Ents["holder"].Keys["ES256"].JWK))
	}

	return c, o
}

// visible is the specification of what the token shows with no disclosure at all.
func (c conf) visible(v map[string]interface{}, path string) map[string]interface{} {
	out := map[string]interface{}{}

	for k, e := range v {
		p := k
		if path != "" {
			p = path + "." + k
		}

		m, isMap := e.(map[string]interface{})
		a, isArr := e.([]interface{})

		if c.v == common.SDJWTVersionV2 {
			if isMap && c.structured {
				out[k] = c.visible(m, p)
			} else if c.nonSD[p] {
				out[k] = e
			}

			continue
		}

		switch {
		case c.nonSD[p]:
			out[k] = e
		case isMap && (c.always[p] || (c.structured && !c.recursive[p])):
			out[k] = c.visible(m, p)
		case isArr && (c.always[p] || c.structured):
			vis := []interface{}{}

			for i, x := range a {
				if c.nonSD[fmt.Sprintf("%s[%d]", p, i)] {
					vis = append(vis, x)
				}
			}

			if len(vis) == 0 && len(a) > 0 {
				out[k] = vh.HiddenArray{}
			} else {
				out[k] = vis
			}
		}
	}

	return out
}

// markers collects the unique strings and names of a value.
func markers(v interface{}, out map[string]bool) {
	switch x := v.(type) {
	case map[string]interface{}:
		for k, e := range x {
			if strings.Contains(k, "~") {
				out[k] = true
			}

			markers(e, out)
		}
	case []interface{}:
		for _, e := range x {
			markers(e, out)
		}
	case string:
		if strings.HasPrefix(x, "mark") {
			out[x] = true
		}
	case float64:
		if x > 1000000 {
			out[string(vh.J(x))] = true
		}
	}
}

// find reports a hidden marker shown in text (raw JSON).
func hiddenShown(all, vis interface{}, text string) (string, int) {
	am, vm := map[string]bool{}, map[string]bool{}
	markers(all, am)
	markers(vis, vm)

	n := 0

	for _, m := range vh.SortedKeys(am) {
		if vm[m] {
			continue
		}

		n++

		enc := string(vh.J(m))
		enc = enc[1 : len(enc)-1]

		if isNum(m) {
			if containsNum(text, m) {
				return m, n
			}

			continue
		}

		if strings.Contains(text, "\""+enc+"\"") {
			return m, n
		}
	}

	return "", n
}

func isNum(s string) bool { return s != "" && s[0] >= '0' && s[0] <= '9' }

func containsNum(text, n string) bool {
	for {
		i := strings.Index(text, n)
		if i < 0 {
			return false
		}

		before := i == 0 || !strings.ContainsRune("0123456789.", rune(text[i-1]))
		j := i + len(n)
		after := j >= len(text) || !strings.ContainsRune("0123456789.e", rune(text[j]))

		if before && after {
			return true
		}

		text = text[i+1:]
	}
}

var salts = map[string]string{}

// audit checks the issued token itself; gives its payload and disclosures.
func audit(c *vh.Check, cf conf, combined string, what string) (map[string]interface{}, []*vh.Disc, bool) {
	parts := strings.Split(combined, "~")
	if parts[len(parts)-1] == "" {
		parts = parts[:len(parts)-1]
	}

	payload := vh.JWTPart(parts[0], 1)
	ok := true

	alg := payload["_sd_alg"]
	if vcm, is := payload["vc"].(map[string]interface{}); is {
		alg = vcm["_sd_alg"]
	}

	want := map[crypto.Hash]string{crypto.SHA256: "sha-256", crypto.SHA384: "sha-384", crypto.SHA512: "sha-512"}[cf.hash]
	ok = c.Expect(alg == want, "sd-alg", fmt.Sprintf("%s: _sd_alg %v, want %s", what, alg, want), combined) && ok

	var ds []*vh.Disc

	digests := map[string]int{}
	for _, d := range vh.SDDigests(payload) {
		digests[d]++
	}

	total := len(vh.SDDigests(payload))

	for _, raw := range parts[1:] {
		d, err := vh.DecDisc(raw, cf.hash)
		if !c.Expect(err == nil, "issued-malformed-disclosure", fmt.Sprintf("%s: disclosure %q: %v (%s)", what, raw, err, cf), combined) {
			return nil, nil, false
		}

		c.Count("disclosures", 1)

		sb, err := base64.RawURLEncoding.DecodeString(d.Salt)
		ok = c.Expect(err == nil && len(sb) >= 16, "weak-salt", fmt.Sprintf("%s: salt %q", what, d.Salt), nil) && ok
		ok = c.Expect(!strings.Contains(string(sb), "\x00\x00\x00\x00\x00"), "partial-salt", fmt.Sprintf("%s: salt %x", what, sb), nil) && ok

		for j := 0; j+8 <= len(sb); j += 8 {
			_, dup := salts[string(sb[j:j+8])]
			ok = c.Expect(!dup, "salt-part-repeated", fmt.Sprintf("%s: part of salt %x seen before", what, sb), nil) && ok
			salts[string(sb[j:j+8])] = what
		}

		prev, dup := salts[d.Salt]
		ok = c.Expect(!dup, "salt-repeated", fmt.Sprintf("%s: salt %q already used by %s", what, d.Salt, prev), nil) && ok
		salts[d.Salt] = what

		ds = append(ds, d)

		for _, x := range vh.SDDigests(d.Value) {
			digests[x]++
			total++
		}
	}

	for x, n := range digests {
		ok = c.Expect(n == 1, "digest-repeated", fmt.Sprintf("%s: digest %s occurs %d times (%s)", what, x, n, cf), combined) && ok
	}

	for _, d := range ds {
		ok = c.Expect(digests[d.Digest] == 1, "disclosure-unreferenced", fmt.Sprintf("%s: disclosure of %q has %d digests (%s)", what, d.Name, digests[d.Digest], cf), combined) && ok
	}

	if cf.decoys {
		ok = c.Expect(total > len(ds), "decoys-missing", fmt.Sprintf("%s: %d digests for %d disclosures with decoys asked", what, total, len(ds)), combined) && ok
		c.Count("decoys.seen", int64(total-len(ds)))
	} else {
		ok = c.Expect(total == len(ds), "digests-extra", fmt.Sprintf("%s: %d digests for %d disclosures", what, total, len(ds)), combined) && ok
	}

	return payload, ds, ok
}

func index(ds []*vh.Disc) map[string]*vh.Disc {
	m := map[string]*vh.Disc{}
	for _, d := range ds {
		m[d.Digest] = d
	}

	return m
}

// closed chooses a random subset of disclosures that holds every parent of its members.
func closed(r *rand.Rand, payload interface{}, ds []*vh.Disc, p float64) []*vh.Disc {
	parent := map[string]*vh.Disc{}
	for _, d := range ds {
		for _, x := range vh.SDDigests(d.Value) {
			parent[x] = d
		}
	}

	pick := map[*vh.Disc]bool{}

	for _, d := range ds {
		if r.Float64() < p {
			for x := d; x != nil; x = parent[x.Digest] {
				pick[x] = true
			}
		}
	}

	var out []*vh.Disc

	for _, d := range ds {
		if pick[d] {
			out = append(out, d)
		}
	}

	return out
}

func raws(ds []*vh.Disc) []string {
	var out []string
	for _, d := range ds {
		out = append(out, d.Raw)
	}

	return out
}

func run(c *vh.Check) {
	w = vh.NewWorld("issuer", "holder")
	iss := w.Ents["issuer"]

	c.Cases("issue", c.N(8000, 60000), func(r *rand.Rand, i int) {
		g := &gen{r: r, n: i * 1000}
		claims := g.claims(1 + r.Intn(3))
		orig := vh.CloneM(claims)
		cf, opts := randConf(r, i, claims)
		key := iss.Keys[vh.Pick(r, vh.JWTAlgs...)]
		reg := map[string]interface{}{"iss": iss.DID}
		now := int64(1600000000)

		if r.Intn(3) == 0 {
			opts = append(opts, issuer.WithSubject("did:example:subj"))
			reg["sub"] = "did:example:subj"
		}

		if r.Intn(3) == 0 {
			opts = append(opts, issuer.WithAudience("aud1"), issuer.WithJTI("jti1"), issuer.WithID("did:example:id"))
			reg["aud"], reg["jti"], reg["id"] = "aud1", "jti1", "did:example:id"
		}

		if r.Intn(3) == 0 {
			nd := josejwt.NumericDate(now)
			ex := josejwt.NewNumericDate(time.Unix(4102444800, 0))
			opts = append(opts, issuer.WithIssuedAt(&nd), issuer.WithNotBefore(&nd), issuer.WithExpiry(ex))
			reg["iat"], reg["nbf"], reg["exp"] = float64(now), float64(now), float64(4102444800)
		}

		if cf.holderKey {
			reg["cnf"] = map[string]interface{}{"jwk": vh.Norm(w.Ents["holder"].Keys["ES256"].JWK)}
		}

		what := fmt.Sprintf("issue/%d", i)

		tok, err := issuer.New(iss.DID, claims, nil, vh.JoseSigner{K: key}, opts...)
		if !c.Expect(err == nil, "issue-failed", fmt.Sprintf("issuing failed: %v (%s)", err, cf), orig) {
			return
		}

		c.Expect(vh.Eq(vh.Norm(claims), vh.Norm(orig)), "issue-mutates", "issuing changed the claims map", orig)

		combined, err := tok.Serialize(false)
		if !c.Expect(err == nil, "serialize-failed", fmt.Sprint(err), nil) {
			return
		}

		c.Count("issued", 1)
		c.Count(fmt.Sprintf("version.V%d", cf.v), 1)

		if i < 2 {
			c.Sample(cf.String() + " " + string(vh.J(orig)))
		}

		payload, ds, ok := audit(c, cf, combined, what)
		c.Eval(fmt.Sprintf("issue|%s|%d", cf, len(ds)))

		if !ok {
			return
		}

		accessors(c, tok, combined, payload)

		// what the token shows by itself is what the options ask for, nothing more.
		want := cf.visible(orig, "")
		for k, v := range reg {
			want[k] = v
		}

		shown := vh.SDResolve(payload, nil, map[string]int{})
		d := vh.SDDiff(want, shown)
		c.Expect(d == "", "always-visible-differ", fmt.Sprintf("always-visible claims differ %s (%s)", d, cf), map[string]interface{}{"claims": orig, "payload": payload})

		if m, n := hiddenShown(orig, want, string(vh.J(payload))); m != "" {
			c.Violate("token-reveals", fmt.Sprintf("token payload shows hidden %q (%s)", m, cf), payload)
		} else {
			c.Count("hidden-values-checked", int64(n))
		}

		all := vh.CloneM(orig)
		for k, v := range reg {
			all[k] = v
		}

		// the model itself: everything disclosed is the original.
		used := map[string]int{}
		full := vh.SDResolve(payload, index(ds), used)
		d = vh.SDDiff(all, full)
		c.Expect(d == "", "disclosures-do-not-restore", fmt.Sprintf("all disclosures together differ %s (%s)", d, cf), map[string]interface{}{"claims": orig, "combined": combined})

		// holder view
		hc, err := holder.Parse(combined, holder.WithSignatureVerifier(w.Checker))
		if c.Expect(err == nil, "holder-rejects", fmt.Sprintf("holder.Parse: %v (%s)", err, cf), combined) {
			c.Expect(len(hc) == len(ds), "holder-claims-count", fmt.Sprintf("holder sees %d claims of %d (%s)", len(hc), len(ds), cf), combined)

			for j, x := range hc {
				if j >= len(ds) {
					break
				}

				dd := ds[j]
				c.Expect(x.Disclosure == dd.Raw && x.Name == dd.Name, "holder-claim-order", fmt.Sprintf("holder claim %d is %q, disclosure is %q", j, x.Name, dd.Name), combined)
				mv := vh.SDResolve(dd.Value, index(ds), map[string]int{})
				d := vh.SDDiff(mv, vh.NormJ(x.Value))
				c.Expect(d == "", "holder-claim-value", fmt.Sprintf("holder value of %q differs %s (%s)", dd.Name, d, cf), combined)
			}
		}

		for k := 0; k < 3; k++ {
			chosen := closed(r, payload, ds, []float64{0.35, 1, 0}[k])
			r.Shuffle(len(chosen), func(a, b int) { chosen[a], chosen[b] = chosen[b], chosen[a] })
			pres(c, r, cf, key, combined, payload, orig, ds, chosen)
		}
	})

	c.Cases("broken-parts", c.N(1200, 8000), func(r *rand.Rand, i int) { brokenParts(c, r, i, iss) })

	runVC(c, iss)
}

// failing fails at its nth use.
type failing struct{ at, uses int }

func (f *failing) err() error {
	f.uses++

	if f.uses == f.at {
		return errors.New("part is broken")
	}

	return nil
}

type badSigner struct {
	vh.JoseSigner
	f *failing
}

func (s badSigner) Sign(b []byte) ([]byte, error) {
	if err := s.f.err(); err != nil {
		return nil, err
	}

	return s.JoseSigner.Sign(b)
}

// brokenParts: a part the issuer was given (salt source, JSON encoder, signer) fails once. No token may come of it: a
// disclosure without salt can be guessed, one that is left out is lost to the holder.
// accessors: the issued value reports what its serialised form says.
func accessors(c *vh.Check, tok *issuer.SelectiveDisclosureJWT, combined string, payload map[string]interface{}) {
	var got map[string]json.RawMessage

	err := tok.DecodeClaims(&got)
	c.Expect(err == nil, "accessor-claims", fmt.Sprint(err), combined)

	d := vh.SDDiff(payload, vh.NormJ(got))
	c.Expect(d == "", "accessor-claims", "DecodeClaims differs from the payload "+d, combined)

	jws, ds, _ := strings.Cut(combined, "~")
	parts := strings.Split(jws, ".")
	hdr := map[string]interface{}{}
	b, _ := base64.RawURLEncoding.DecodeString(parts[0])
	_ = json.Unmarshal(b, &hdr)

	for _, n := range []string{"alg", "typ", "kid", "cty", "Alg", ""} {
		want, _ := hdr[n].(string)
		got := tok.LookupStringHeader(n)
		c.Expect(got == want, "accessor-header", fmt.Sprintf("header %q is reported as %q, is %q", n, got, want), combined)
	}

	det, err := tok.Serialize(true)
	dj, dd, _ := strings.Cut(det, "~")
	dp := strings.Split(dj, ".")
	c.Expect(err == nil && len(dp) == 3 && dp[0] == parts[0] && dp[1] == "" && dd == ds, "detached-form", "the detached form differs in more than its payload", det)

	again, err := tok.Serialize(false)
	c.Expect(err == nil && again == combined, "serialize-twice", "serialising again gives another token", combined)
	c.Count("accessors", 1)
}

func brokenParts(c *vh.Check, r *rand.Rand, i int, iss *vh.Entity) {
	g := &gen{r: r, n: i * 1000}
	claims := g.claims(1 + r.Intn(3))
	cf, opts := randConf(r, i/2, claims)
	part := vh.Pick(r, "salt", "salt", "json", "signer")
	f := &failing{at: 1 + r.Intn(30)}

	if r.Intn(2) == 0 {
		f.at = 1 + r.Intn(3)
	}

	signer := badSigner{vh.JoseSigner{K: iss.Keys["EdDSA"]}, &failing{}}
	salts := map[string]bool{}

	switch part {
	case "salt":
		opts = append(opts, issuer.WithSaltFnc(func() (string, error) {
			if err := f.err(); err != nil {
				return "", err
			}

			h := sha256.Sum256([]byte(fmt.Sprintf("salt-%d-%d", i, f.uses)))
			s := vh.B64(h[:16])
			salts[s] = true

			return s, nil
		}))
	case "json":
		opts = append(opts, issuer.WithJSONMarshaller(func(v interface{}) ([]byte, error) {
			if err := f.err(); err != nil {
				return nil, err
			}

			return json.Marshal(v)
		}))
	default:
		f.at, signer.f = 1, f
	}

	tok, err := issuer.New(iss.DID, claims, nil, signer, opts...)
	hit := f.uses >= f.at

	c.Eval(fmt.Sprintf("broken|%s|%v|%d|%s", part, hit, f.at, cf))

	if hit {
		c.Count("broken."+part, 1)
		c.Expect(err != nil, "broken-"+part, fmt.Sprintf("%s failed at use %d of %d and a token came out (%s)", part, f.at, f.uses, cf), claims)

		return
	}

	if !c.Expect(err == nil, "issue-failed", fmt.Sprintf("issuing failed: %v (%s)", err, cf), claims) {
		return
	}

	combined, err := tok.Serialize(false)
	if !c.Expect(err == nil, "serialize-failed", fmt.Sprint(err), nil) {
		return
	}

	if _, ds, ok := audit(c, cf, combined, fmt.Sprintf("broken-parts/%d", i)); ok && part == "salt" {
		for _, d := range ds {
			c.Expect(salts[d.Salt], "salt-source", fmt.Sprintf("salt %q is not from the given source (%s)", d.Salt, cf), combined)
		}

		c.Count("given-salts", int64(len(ds)))
	}
}

func pres(c *vh.Check, r *rand.Rand, cf conf, key *vh.Key, combined string, payload map[string]interface{}, orig map[string]interface{}, ds, chosen []*vh.Disc) {
	p := strings.SplitN(combined, "~", 2)[0] + "~"

	if len(ds) > 0 {
		var err error

		p, err = holder.CreatePresentation(combined, raws(chosen))
		if !c.Expect(err == nil, "present-failed", fmt.Sprintf("CreatePresentation: %v", err), combined) {
			return
		}
	}

	// the presentation carries the chosen disclosures only.
	parts := strings.Split(p, "~")

	var got []string

	for _, x := range parts[1:] {
		if x != "" {
			got = append(got, x)
		}
	}

	c.Expect(fmt.Sprint(got) == fmt.Sprint(raws(chosen)), "present-other-disclosures", fmt.Sprintf("presentation has %d disclosures, chosen %d", len(got), len(chosen)), p)

	out, err := verifier.Parse(p, verifier.WithSignatureVerifier(w.Checker), verifier.WithIssuerSigningAlgorithms(vh.JWTAlgs))
	c.Eval(fmt.Sprintf("present|%s|%d/%d", cf, len(chosen), len(ds)))
	c.Count("presented", 1)

	if !c.Expect(err == nil, "verify-failed", fmt.Sprintf("verifier: %v (%s, %d of %d disclosed)", err, cf, len(chosen), len(ds)), p) {
		return
	}

	model := vh.SDResolve(payload, index(chosen), map[string]int{})
	d := vh.SDDiff(model, vh.NormJ(out))
	c.Expect(d == "", "verified-claims-differ", fmt.Sprintf("verified claims differ %s (%s, %d of %d disclosed)", d, cf, len(chosen), len(ds)),
		map[string]interface{}{"presentation": p, "got": vh.NormJ(out)})

	if m, n := hiddenShown(orig, model, string(vh.J(vh.NormJ(out)))); m != "" {
		c.Violate("verifier-shows-undisclosed", fmt.Sprintf("verified claims show %q", m), p)
	} else {
		c.Count("hidden-values-checked", int64(n))
	}
}

// runVC: NewFromVC keeps everything outside the subject and hides the subject's claims.
func runVC(c *vh.Check, iss *vh.Entity) {
	c.Cases("vc", c.N(1600, 12000), func(r *rand.Rand, i int) {
		g := &gen{r: r, n: 5000000 + i*1000}
		subj := g.claims(2)
		cf, opts := randConf(r, i, subj)
		key := iss.Keys[vh.Pick(r, vh.JWTAlgs...)]

		body := map[string]interface{}{"@context": []interface{}{vh.CtxV1}, "type": []interface{}{"VerifiableCredential"}, "issuer": iss.DID,
			"issuanceDate": "2020-01-01T00:00:00Z", "credentialSubject": vh.CloneM(subj), "extra": g.value(1)}
		vc := map[string]interface{}{"iss": iss.DID, "vc": body}

		if cf.v == common.SDJWTVersionV5 && r.Intn(2) == 0 {
			vc = body
			vc["iss"] = iss.DID
		}

		orig := vh.CloneM(vc)

		tok, err := issuer.NewFromVC(vc, nil, vh.JoseSigner{K: key}, opts...)
		if !c.Expect(err == nil, "vc-issue-failed", fmt.Sprintf("NewFromVC: %v (%s)", err, cf), orig) {
			return
		}

		combined, err := tok.Serialize(false)
		if !c.Expect(err == nil, "vc-serialize-failed", fmt.Sprint(err), nil) {
			return
		}

		c.Count("vc.issued", 1)
		payload, ds, ok := audit(c, cf, combined, fmt.Sprintf("vc/%d", i))
		c.Eval(fmt.Sprintf("vc|%s|%d", cf, len(ds)))

		if !ok {
			return
		}

		container := func(m map[string]interface{}) map[string]interface{} {
			if x, is := m["vc"].(map[string]interface{}); is {
				return x
			}

			return m
		}

		want := vh.CloneM(orig)
		if cf.holderKey {
			container(want)["cnf"] = map[string]interface{}{"jwk": vh.Norm(w.Ents["holder"].Keys["ES256"].JWK)}
		}

		full := vh.SDResolve(payload, index(ds), map[string]int{})
		d := vh.SDDiff(want, full)
		c.Expect(d == "", "vc-differs", fmt.Sprintf("all disclosures together differ %s (%s)", d, cf), combined)

		vis := vh.CloneM(want)
		container(vis)["credentialSubject"] = cf.visible(subj, "")
		d = vh.SDDiff(vis, vh.SDResolve(payload, nil, map[string]int{}))
		c.Expect(d == "", "vc-visible", fmt.Sprintf("visible part differs %s (%s)", d, cf), combined)

		if m, _ := hiddenShown(orig, vis, string(vh.J(payload))); m != "" {
			c.Violate("vc-token-reveals", fmt.Sprintf("token payload shows hidden %q (%s)", m, cf), payload)
		}

		chosen := closed(r, payload, ds, 0.5)
		pres(c, r, cf, key, combined, payload, orig, ds, chosen)
	})
}
