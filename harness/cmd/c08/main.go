// C08: selective-disclosure credentials reveal exactly what the holder selects.
package main

import (
	"crypto"
	"fmt"
	"math/rand"
	"sort"
	"strings"
	"time"

	josejwt "github.com/go-jose/go-jose/v3/jwt"

	"github.com/trustbloc/vc-go/sdjwt/common"
	"github.com/trustbloc/vc-go/sdjwt/holder"
	"github.com/trustbloc/vc-go/verifharness/vh"
	"github.com/trustbloc/vc-go/verifiable"
)

var w *vh.World

type MO = verifiable.MarshalDisclosureOption

func main() {
	vh.Main(vh.Spec{
		ID: "C08",
		Rule: "random credential with nested subject claims (names repeated at several levels) -> MakeSDJWT with random version, hash and path " +
			"options -> ParseCredential -> MarshalWithDisclosure/CreateDisplayCredential with random name sets; an independent SD-JWT model of the " +
			"token gives the expected disclosures and claims. Distinct: (version, operation, option mix, #disclosures, #selected).",
		Level: "exploration",
		Require: map[string]int64{"made": 800, "marshal.exact": 3000, "display.exact": 2000, "required.missing": 500, "reparsed": 1500,
			"binding": 300, "fresh": 400, "unchanged": 800, "same-name-twice": 50},
		Assumptions: []string{"claims whose value is an empty object are not told apart from absent ones in display forms (documented clearing)",
			"an array of which no element is disclosed may show as absent, null or empty"},
		Run: run,
	})
}

type gen struct {
	r *rand.Rand
	n int
}

func (g *gen) value(d int) interface{} {
	g.n++
	n := 8

	if d <= 0 {
		n = 5
	}

	switch g.r.Intn(n) {
	case 0, 1, 2:
		return fmt.Sprintf("mark%d%s", g.n, vh.Pick(g.r, "", "é", "<&>", "\""))
	case 3:
		return float64(g.n) + 0.5
	case 4:
		return vh.Pick[interface{}](g.r, true, false, 0.0, "", nil)
	case 5:
		a := []interface{}{}
		for i, k := 0, 1+g.r.Intn(3); i < k; i++ {
			a = append(a, g.value(0))
		}

		return a
	default:
		return g.obj(d - 1)
	}
}

func (g *gen) obj(d int) map[string]interface{} {
	m := map[string]interface{}{}

	for i, k := 0, 1+g.r.Intn(5); i < k; i++ {
		m[vh.Pick(g.r, "name", "given", "type", "addr", "née", "list", "country", " name", "name ", "na me", "", fmt.Sprintf("c%d", g.n))] = g.value(d)
	}

	if g.r.Intn(4) == 0 {
		m["id"] = fmt.Sprintf("did:example:n%d", g.n)
	}

	return m
}

func makeDoc(r *rand.Rand, v int) map[string]interface{} {
	doc := vh.Cred(r, vh.CredOpts{V: v, Issuer: w.Ents["issuer"].DID, OneSubject: true, NeedID: true})
	if doc["issuanceDate"] == nil && doc["validFrom"] == nil {
		doc["validFrom"] = vh.Time(r)
	}

	g := &gen{r: r}
	s := g.obj(3)
	s["id"] = "did:example:subject"
	doc["credentialSubject"] = s

	return doc
}

// sd is an issued SD-JWT credential with its independent reading.
type sd struct {
	doc     map[string]interface{}
	token   string // issuer-signed JWT
	ds      []*vh.Disc
	hash    crypto.Hash
	payload map[string]interface{}
	ver     common.SDJWTVersion
	rec     bool
}

func (s *sd) subject() interface{} {
	if m, ok := s.payload["vc"].(map[string]interface{}); ok {
		return m["credentialSubject"]
	}

	return s.payload["credentialSubject"]
}

func split(c *vh.Check, combined string, h crypto.Hash) (string, []*vh.Disc, string, bool) {
	p := strings.Split(combined, "~")
	kb := ""

	if len(p) > 1 {
		kb = p[len(p)-1]
		p = p[:len(p)-1]
	}

	var ds []*vh.Disc

	for _, raw := range p[1:] {
		d, err := vh.DecDisc(raw, h)
		if !c.Expect(err == nil, "malformed-disclosure", fmt.Sprintf("disclosure %q: %v", raw, err), combined) {
			return "", nil, "", false
		}

		ds = append(ds, d)
	}

	return p[0], ds, kb, true
}

func subPaths(v interface{}, p string, out *[]string) {
	m, ok := v.(map[string]interface{})
	if !ok {
		return
	}

	for _, k := range vh.SortedKeys(m) {
		q := k
		if p != "" {
			q = p + "." + k
		}

		*out = append(*out, q)
		subPaths(m[k], q, out)
	}
}

func pick(r *rand.Rand, xs []string, oneIn int) []string {
	out := []string{}
	for _, x := range xs {
		if r.Intn(oneIn) == 0 {
			out = append(out, x)
		}
	}

	return out
}

var hashes = []crypto.Hash{crypto.SHA256, crypto.SHA384, crypto.SHA512}

// make issues a credential.
func makeSD(c *vh.Check, r *rand.Rand, i int) *sd {
	s := &sd{doc: makeDoc(r, 1+r.Intn(2)), hash: crypto.SHA256}
	s.ver = []common.SDJWTVersion{common.SDJWTVersionV2, common.SDJWTVersionV5}[i%2]
	o := []verifiable.MakeSDJWTOption{verifiable.MakeSDJWTWithVersion(s.ver)}

	if r.Intn(2) == 0 {
		s.hash = vh.Pick(r, hashes...)
		o = append(o, verifiable.MakeSDJWTWithHash(s.hash))
	}

	var ps []string

	subPaths(s.doc["credentialSubject"], "", &ps)

	non := map[string]bool{"id": true}

	if r.Intn(3) == 0 {
		n := pick(r, ps, 4)
		for _, x := range n {
			non[x] = true
		}

		o = append(o, verifiable.MakeSDJWTWithNonSelectivelyDisclosableClaims(n))
	}

	if s.ver == common.SDJWTVersionV5 {
		if r.Intn(3) == 0 {
			n := pick(r, ps, 2)
			s.rec = len(n) > 0
			o = append(o, verifiable.MakeSDJWTWithRecursiveClaimsObjects(n))
		}

		if r.Intn(3) == 0 {
			o = append(o, verifiable.MakeSDJWTWithAlwaysIncludeObjects(pick(r, ps, 3)))
		}
	}

	vc := w.ParseVC(s.doc)
	before := vh.J(vc.ToRawJSON())
	k := w.Ents["issuer"].Keys[vh.Pick(r, vh.JWTAlgs...)]
	out, err := vc.MakeSDJWT(vh.JoseSigner{K: k}, k.ID, o...)

	if !c.Expect(err == nil, "make-failed", fmt.Sprintf("MakeSDJWT: %v", err), s.doc) {
		return nil
	}

	c.Expect(string(before) == string(vh.J(vc.ToRawJSON())), "make-changed-credential", "MakeSDJWT changed the credential it was called on", s.doc)

	var ok bool
	if s.token, s.ds, _, ok = split(c, strings.TrimSuffix(out, "~")+"~", s.hash); !ok {
		return nil
	}

	s.payload = vh.JWTPart(s.token, 1)
	c.Count("made", 1)

	if r.Intn(3) == 0 { // an issuer that binds the credential to a holder key, and adds a member of its own
		in := s.payload
		if m, ok := in["vc"].(map[string]interface{}); ok {
			in = m
		}

		extra := map[string]interface{}{"cnf": map[string]interface{}{"jwk": vh.Norm(w.Ents["holder"].Keys["ES256"].JWK)}, "issuerNote": vh.Str(r)}
		for k, v := range extra {
			in[k], s.doc[k] = v, v
		}

		s.token = vh.JWS(vh.JWTPart(s.token, 0), vh.J(s.payload), k)
		c.Count("foreign-members", 1)
	}

	// nothing to disclose stays readable; all of it is the subject issued
	used := map[string]int{}
	all := vh.SDResolve(s.subject(), index(s.ds), used)

	if d := vh.SDDiff(vh.Norm(s.doc["credentialSubject"]), all); !c.Expect(d == "", "make-subject", "issued subject with all disclosures differs"+d, map[string]interface{}{"doc": s.doc, "token": out}) {
		return nil
	}

	for _, d := range s.ds {
		c.Expect(used[d.Digest] == 1, "make-unreferenced", fmt.Sprintf("disclosure %q referenced %d times", d.Name, used[d.Digest]), out)
	}

	// the always-visible part: identifiers and the named paths only
	hidden := vh.SDResolve(s.subject(), nil, used)
	c.Expect(hidden.(map[string]interface{})["id"] == "did:example:subject", "make-id-hidden", "subject id is not visible", out)

	for k, v := range hidden.(map[string]interface{}) {
		if _, isObj := v.(map[string]interface{}); !isObj && !non[k] {
			if _, isArr := v.([]interface{}); !isArr && v != (vh.HiddenArray{}) {
				c.Expect(false, "make-visible", fmt.Sprintf("claim %q is visible in the issued token", k), out)
			}
		}
	}

	return s
}

func index(ds []*vh.Disc) map[string]*vh.Disc {
	m := map[string]*vh.Disc{}
	for _, d := range ds {
		m[d.Digest] = d
	}

	return m
}

func (s *sd) combined() string {
	out := s.token
	for _, d := range s.ds {
		out += "~" + d.Raw
	}

	return out + "~"
}

func (s *sd) byNames(names []string) []*vh.Disc {
	var out []*vh.Disc

	for _, d := range s.ds {
		for _, n := range names {
			if d.Name == n && d.N == 3 {
				out = append(out, d)
				break
			}
		}
	}

	return out
}

// connected tells whether every chosen disclosure's parents are chosen.
func (s *sd) connected(ds []*vh.Disc) bool {
	used := map[string]int{}
	vh.SDResolve(s.subject(), index(ds), used)

	return len(used) == len(ds)
}

func raws(ds []*vh.Disc) []string {
	out := []string{}
	for _, d := range ds {
		out = append(out, d.Raw)
	}

	sort.Strings(out)

	return out
}

func names(ds []*vh.Disc) []string {
	m := map[string]bool{}
	for _, d := range ds {
		if d.N == 3 {
			m[d.Name] = true
		}
	}

	return vh.SortedKeys(m)
}

// clear drops empty objects, as display forms do.
func clear(v interface{}) interface{} {
	m, ok := v.(map[string]interface{})
	if !ok {
		return v
	}

	out := map[string]interface{}{}

	for k, e := range m {
		x := clear(e)
		if xm, ok := x.(map[string]interface{}); ok && len(xm) == 0 {
			continue
		}

		out[k] = x
	}

	return out
}

func snapshot(vc *verifiable.Credential) string {
	return string(vh.J(map[string]interface{}{"raw": vc.ToRawJSON(), "env": vc.JWTEnvelope, "c": fmt.Sprintf("%+v", vc.Contents().Subject)}))
}

// display checks one display call.
func display(c *vh.Check, s *sd, vc *verifiable.Credential, chosen []*vh.Disc, o []verifiable.DisplayCredentialOption, what string) {
	used := map[string]int{}
	want := clear(vh.SDResolve(s.subject(), index(chosen), used))

	m, err := vc.CreateDisplayCredentialMap(o...)
	if !c.Expect(err == nil, "display-failed", fmt.Sprintf("%s: %v", what, err), s.combined()) {
		return
	}

	plain := vc.Contents().SDJWTHashAlg == nil // nothing disclosed, no binding: travels as a plain JWT, which is displayed as it is
	vis := func(v interface{}) interface{} {
		if plain {
			v = vh.SDResolve(v, nil, map[string]int{})
		}

		return clear(v)
	}
	got := vis(vh.NormJ(m["credentialSubject"]))
	if d := vh.SDDiff(want, got); c.Expect(d == "", "display-map:"+what, "displayed subject"+d, map[string]interface{}{"token": s.combined(), "chosen": names(chosen)}) {
		c.Count("display.exact", 1)
	}

	dc, err := vc.CreateDisplayCredential(o...)
	if !c.Expect(err == nil, "display-failed", fmt.Sprintf("%s: %v", what, err), s.combined()) {
		return
	}

	raw := vh.NormJ(map[string]interface{}(dc.ToRawJSON())).(map[string]interface{})
	if d := vh.SDDiff(want, vis(raw["credentialSubject"])); c.Expect(d == "", "display:"+what, "displayed subject"+d, map[string]interface{}{"token": s.combined(), "chosen": names(chosen)}) {
		c.Count("display.exact", 1)
	}

	// structured contents agree
	if subs := dc.Contents().Subject; c.Expect(len(subs) == 1, "display-contents", fmt.Sprintf("%d subjects", len(subs)), nil) {
		cf := vh.NormJ(map[string]interface{}(subs[0].CustomFields)).(map[string]interface{})
		if subs[0].ID != "" {
			cf["id"] = subs[0].ID
		}

		d := vh.SDDiff(want, vis(cf))
		c.Expect(d == "", "display-contents", "structured subject"+d, s.combined())
	}

	// everything else is the credential as issued
	for k, v := range s.doc {
		if k == "credentialSubject" || k == "issuanceDate" || k == "expirationDate" || k == "validFrom" || k == "validUntil" {
			continue
		}

		mm := vh.NormJ(m).(map[string]interface{})
		d := vh.Diff(vh.Norm(v), mm[k])
		c.Expect(d == "", "display-map-member:"+k, fmt.Sprintf("member %s of the display map%s", k, d), s.combined())

		d = vh.Diff(vh.Norm(v), raw[k])
		c.Expect(d == "", "display-member:"+k, fmt.Sprintf("member %s of the display credential%s", k, d), s.combined())
	}
}

func run(c *vh.Check) {
	w = vh.NewWorld("holder", "issuer", "mallory")

	c.Cases("made", c.N(1000, 20000), func(r *rand.Rand, i int) {
		s := makeSD(c, r, i)
		if s == nil {
			return
		}

		vc, err := verifiable.ParseCredential([]byte(s.combined()), verifiable.WithProofChecker(w.Checker), verifiable.WithJSONLDDocumentLoader(w.Loader))
		if !c.Expect(err == nil, "made-rejected", fmt.Sprintf("issued SD-JWT credential rejected: %v", err), s.combined()) {
			return
		}

		snap := snapshot(vc)

		ns := names(s.ds)
		if len(ns) < len(s.ds) {
			c.Count("same-name-twice", 1)
		}

		marshal := func(what string, want []*vh.Disc, o ...MO) string {
			out, err := vc.MarshalWithDisclosure(o...)
			c.Eval(fmt.Sprintf("marshal|v%d|%s|rec=%v|%d|%d", s.ver, what, s.rec, len(s.ds), len(want)))

			if !c.Expect(err == nil, "marshal-failed:"+what, fmt.Sprintf("MarshalWithDisclosure(%s): %v", what, err), s.combined()) {
				return ""
			}

			tok, ds, _, ok := split(c, out, s.hash)
			if !ok {
				return ""
			}

			c.Expect(tok == s.token, "marshal-token", "the issuer-signed part changed", out)

			if c.Expect(fmt.Sprint(raws(ds)) == fmt.Sprint(raws(want)), "marshal-disclosures:"+what,
				fmt.Sprintf("%s: presented disclosures %v, selected ones %v", what, names(ds), names(want)), map[string]interface{}{"issued": s.combined(), "presented": out}) {
				c.Count("marshal.exact", 1)
			}

			return out
		}

		reparse := func(out string, chosen []*vh.Disc) {
			if out == "" {
				return
			}

			p, err := verifiable.ParseCredential([]byte(out), verifiable.WithProofChecker(w.Checker), verifiable.WithJSONLDDocumentLoader(w.Loader))
			if !s.connected(chosen) {
				return
			}

			if !c.Expect(err == nil, "presented-rejected", fmt.Sprintf("presentation rejected: %v", err), out) {
				return
			}

			c.Count("reparsed", 1)
			c.Expect(len(chosen) == 0 || p.Contents().SDJWTHashAlg != nil, "presented-plain", "presentation with disclosures was not parsed as SD-JWT", out)
			display(c, s, p, chosen, []verifiable.DisplayCredentialOption{verifiable.DisplayAllDisclosures()}, "presented")
		}

		reparse(marshal("none", nil), nil)
		reparse(marshal("all", s.ds, verifiable.DiscloseAll()), s.ds)

		for k := 0; k < 3; k++ {
			avail, req := pick(r, ns, 3), pick(r, ns, 3)
			want := s.byNames(append(append([]string{}, avail...), req...))

			if r.Intn(2) == 0 {
				avail = append(avail, "nosuchclaim")
			}

			if r.Intn(3) == 0 && len(req) > 0 {
				avail = append(avail, req[0])
			}

			var o []MO
			if len(avail) > 0 {
				o = append(o, verifiable.DiscloseGivenIfAvailable(avail))
			}

			if len(req) > 0 {
				o = append(o, verifiable.DiscloseGivenRequired(req))
			}

			reparse(marshal("given", want, o...), want)

			bad := append(append([]string{}, req...), vh.Pick(r, "nosuchclaim", "id", "Name", "nam"))
			r.Shuffle(len(bad), func(a, b int) { bad[a], bad[b] = bad[b], bad[a] })
			_, err := vc.MarshalWithDisclosure(verifiable.DiscloseGivenIfAvailable(avail), verifiable.DiscloseGivenRequired(bad))
			c.Eval("required-missing")

			hasID := false
			for _, n := range ns {
				for _, b := range bad {
					hasID = hasID || n == b && n == "id"
				}
			}

			if !hasID && c.Expect(err != nil, "required-missing-accepted", fmt.Sprintf("required %v of %v: no error", bad, ns), s.combined()) {
				c.Count("required.missing", 1)
			}

			chosen := s.byNames(req)
			if len(req) > 0 {
				display(c, s, vc, chosen, []verifiable.DisplayCredentialOption{verifiable.DisplayGivenDisclosures(req)}, "given")
			}
		}

		display(c, s, vc, nil, nil, "none")
		display(c, s, vc, s.ds, []verifiable.DisplayCredentialOption{verifiable.DisplayAllDisclosures()}, "all")

		if len(ns) > 0 {
			_, e1 := vc.MarshalWithDisclosure(verifiable.DiscloseAll(), verifiable.DiscloseGivenIfAvailable(ns[:1]))
			_, e2 := vc.MarshalWithDisclosure(verifiable.DiscloseAll(), verifiable.DiscloseGivenRequired(ns[:1]))
			_, e3 := vc.CreateDisplayCredential(verifiable.DisplayAllDisclosures(), verifiable.DisplayGivenDisclosures(ns[:1]))
			_, e4 := vc.CreateDisplayCredentialMap(verifiable.DisplayAllDisclosures(), verifiable.DisplayGivenDisclosures(ns[:1]))
			c.Expect(e1 != nil && e2 != nil && e3 != nil && e4 != nil, "incompatible-accepted", fmt.Sprintf("incompatible options accepted: %v %v %v %v", e1, e2, e3, e4), nil)
		}

		binding(c, r, s, vc)

		if c.Expect(snapshot(vc) == snap, "credential-changed", "the credential changed by presenting or displaying it", s.combined()) {
			c.Count("unchanged", 1)
		}
	})

	c.Cases("fresh", c.N(500, 8000), func(r *rand.Rand, i int) { fresh(c, r, i) })
}

func bindingInfo(r *rand.Rand) (*holder.BindingInfo, *vh.Key, map[string]interface{}) {
	k := w.Ents["holder"].Keys[vh.Pick(r, vh.JWTAlgs...)]
	at := time.Unix(1600000000+r.Int63n(1e8), 0)
	nonce, aud := "n"+vh.SafeStr(r), "https://"+vh.SafeStr(r)

	return &holder.BindingInfo{Payload: holder.BindingPayload{Nonce: nonce, Audience: aud, IssuedAt: josejwt.NewNumericDate(at)}, Signer: vh.JoseSigner{K: k}}, k,
		map[string]interface{}{"nonce": nonce, "aud": aud, "iat": float64(at.Unix())}
}

func checkKB(c *vh.Check, kb string, k *vh.Key, want map[string]interface{}) {
	p := strings.Split(kb, ".")
	if !c.Expect(len(p) == 3, "binding-missing", "no holder binding in the presentation: "+kb, nil) {
		return
	}

	d := vh.Diff(want, vh.Norm(vh.JWTPart(kb, 1)))
	c.Expect(d == "", "binding-claims", "holder binding claims"+d, kb)

	sig, err := vh.UnB64(p[2])
	if c.Expect(err == nil && k.Verify([]byte(p[0]+"."+p[1]), sig), "binding-signature", "holder binding is not signed by the holder's key", kb) {
		c.Count("binding", 1)
	}
}

func binding(c *vh.Check, r *rand.Rand, s *sd, vc *verifiable.Credential) {
	bi, k, want := bindingInfo(r)

	ns := pick(r, names(s.ds), 2)
	o := []MO{verifiable.DisclosureHolderBinding(bi)}

	if len(ns) > 0 {
		o = append(o, verifiable.DiscloseGivenRequired(ns))
	}

	out, err := vc.MarshalWithDisclosure(o...)
	c.Eval(fmt.Sprintf("binding|v%d|%s", s.ver, k.Alg))

	if !c.Expect(err == nil, "binding-failed", fmt.Sprintf("MarshalWithDisclosure with binding: %v", err), nil) {
		return
	}

	_, ds, kb, ok := split(c, out, s.hash)
	if !ok {
		return
	}

	c.Expect(fmt.Sprint(raws(ds)) == fmt.Sprint(raws(s.byNames(ns))), "binding-disclosures", "disclosures presented with a binding are not the selected ones", out)
	checkKB(c, kb, k, want)

	if !s.connected(ds) {
		return
	}

	// a presentation received with a binding keeps it when marshalled again
	p, err := verifiable.ParseCredential([]byte(out), verifiable.WithProofChecker(w.Checker), verifiable.WithJSONLDDocumentLoader(w.Loader))
	if !c.Expect(err == nil, "presented-rejected", fmt.Sprintf("bound presentation rejected: %v", err), out) {
		return
	}

	again, err := p.MarshalWithDisclosure(verifiable.DiscloseAll())
	if c.Expect(err == nil, "binding-again", fmt.Sprintf("%v", err), out) {
		_, ds2, kb2, _ := split(c, again, s.hash)
		c.Expect(kb2 == kb && fmt.Sprint(raws(ds2)) == fmt.Sprint(raws(ds)), "binding-again", "re-marshalled presentation differs", map[string]interface{}{"first": out, "second": again})
	}

	// and gets another one when asked to
	bi2, k2, want2 := bindingInfo(r)

	another, err := p.MarshalWithDisclosure(verifiable.DiscloseAll(), verifiable.DisclosureHolderBinding(bi2))
	if c.Expect(err == nil, "rebinding", fmt.Sprintf("%v", err), out) {
		_, ds3, kb3, _ := split(c, another, s.hash)
		c.Expect(fmt.Sprint(raws(ds3)) == fmt.Sprint(raws(ds)), "rebinding-disclosures", "disclosures differ after binding again", map[string]interface{}{"first": out, "second": another})
		checkKB(c, kb3, k2, want2)
	}
}

// fresh: credentials that are not SD-JWT yet.
func fresh(c *vh.Check, r *rand.Rand, i int) {
	doc := makeDoc(r, 1+r.Intn(2))
	v := []common.SDJWTVersion{common.SDJWTVersionV2, common.SDJWTVersionV5}[i%2]
	vc := w.ParseVC(doc)
	asJWT := r.Intn(2) == 0

	if asJWT {
		vc = w.ParseVC(w.JWTCred(w.Ents["issuer"], "ES256", doc))
	}

	snap := snapshot(vc)
	k := w.Ents["issuer"].Keys[vh.Pick(r, vh.JWTAlgs...)]

	_, err := vc.MarshalWithDisclosure(verifiable.DiscloseAll())
	c.Expect(err != nil, "fresh-no-signer", "MarshalWithDisclosure of a plain credential without signer gave no error", doc)

	base := []MO{verifiable.DisclosureSigner(vh.JoseSigner{K: k}, k.ID), verifiable.MarshalWithSDJWTVersion(v)}

	all, err := vc.MarshalWithDisclosure(append(base, verifiable.DiscloseAll())...)
	if !c.Expect(err == nil, "fresh-failed", fmt.Sprintf("MarshalWithDisclosure: %v", err), doc) {
		return
	}

	tok, ds, _, ok := split(c, all, crypto.SHA256)
	if !ok {
		return
	}

	check := func(tok string, ds []*vh.Disc, what string) *sd {
		s := &sd{doc: doc, token: tok, ds: ds, hash: crypto.SHA256, payload: vh.JWTPart(tok, 1), ver: v}
		h := vh.JWTPart(tok, 0)
		c.Expect(h["kid"] == k.ID && h["alg"] == k.Alg, "fresh-header", fmt.Sprintf("header %v", h), tok)
		c.Expect(s.connected(ds), "fresh-unreferenced", what+": a presented disclosure has no digest in the token", tok)

		p := strings.Split(tok, ".")
		sig, err := vh.UnB64(p[2])
		c.Expect(err == nil && k.Verify([]byte(p[0]+"."+p[1]), sig), "fresh-signature", "token is not signed by the given signer", tok)

		return s
	}

	s := check(tok, ds, "all")
	used := map[string]int{}
	d := vh.SDDiff(vh.Norm(doc["credentialSubject"]), vh.SDResolve(s.subject(), index(ds), used))
	c.Expect(d == "", "fresh-subject", "subject with all disclosures"+d, all)

	ns := names(ds)
	count := map[string]int{}

	for _, x := range ds {
		if x.N == 3 {
			count[x.Name]++
		}
	}

	req := pick(r, ns, 2)

	o := append([]MO{}, base...)
	if len(req) > 0 {
		o = append(o, verifiable.DiscloseGivenRequired(req))
	}

	bi, hk, want := bindingInfo(r)

	bound := r.Intn(2) == 0
	if bound {
		o = append(o, verifiable.DisclosureHolderBinding(bi))
	}

	out, err := vc.MarshalWithDisclosure(o...)
	c.Eval(fmt.Sprintf("fresh|v%d|jwt=%v|%d|%d|%v|%s", v, asJWT, len(ds), len(req), bound, k.Alg))

	if !c.Expect(err == nil, "fresh-failed", fmt.Sprintf("MarshalWithDisclosure given: %v", err), doc) {
		return
	}

	tok2, ds2, kb, ok := split(c, out, crypto.SHA256)
	if !ok {
		return
	}

	s2 := check(tok2, ds2, "given")
	got := map[string]int{}

	for _, x := range ds2 {
		got[x.Name]++
	}

	for _, n := range req {
		c.Expect(got[n] == count[n], "fresh-disclosures", fmt.Sprintf("claim %q selected: %d of its %d disclosures presented", n, got[n], count[n]), out)
		delete(got, n)
	}

	c.Expect(len(got) == 0, "fresh-extra", fmt.Sprintf("unselected disclosures presented: %v", got), out)

	if bound {
		checkKB(c, kb, hk, want)
	} else {
		c.Expect(kb == "", "fresh-binding", "unexpected binding", out)
	}

	_, err = vc.MarshalWithDisclosure(append(base, verifiable.DiscloseGivenRequired(append(req, "nosuchclaim")))...)
	c.Expect(err != nil, "required-missing-accepted", "required claim not in the credential: no error", doc)

	p, err := verifiable.ParseCredential([]byte(out), verifiable.WithProofChecker(w.Checker), verifiable.WithJSONLDDocumentLoader(w.Loader))
	if c.Expect(err == nil, "fresh-rejected", fmt.Sprintf("presentation rejected: %v", err), out) {
		display(c, s2, p, ds2, []verifiable.DisplayCredentialOption{verifiable.DisplayAllDisclosures()}, "fresh")
		c.Count("fresh", 1)
	}

	// displaying a credential without disclosures gives the credential itself
	dc, err := vc.CreateDisplayCredential(verifiable.DisplayAllDisclosures())
	c.Expect(err == nil && dc == vc, "plain-display", fmt.Sprintf("display of a plain credential: %v", err), nil)
	c.Expect(snapshot(vc) == snap, "fresh-credential-changed", "the credential changed by making an SD-JWT presentation of it", doc)
}
