package main

import (
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/rand"
	"regexp"
	"strings"

	"github.com/trustbloc/vc-go/presexch"
	"github.com/trustbloc/vc-go/verifharness/vh"
	"github.com/trustbloc/vc-go/verifiable"
)

type vpT = verifiable.Presentation

func parseVP(b []byte) *vpT {
	vp, err := verifiable.ParsePresentation(b, w.LaxVP()...)
	if err != nil {
		panic("vh-fixture: parse presentation: " + err.Error() + string(b))
	}

	return vp
}

type mapped struct {
	d    *descriptor
	x    *cred
	vp   int
	json M
}

func matchCase(c *vh.Check, r *rand.Rand) {
	v := 1 + r.Intn(2)
	creds := pool(r, 2+r.Intn(4), v, vh.Pick(r, 0, 0, 1, 2))
	v2 := r.Intn(2) == 0

	// the credentials are verified with the options given: a presented token nobody signed is refused
	strict := r.Intn(5) == 0
	forged := map[*cred]bool{}

	if strict {
		creds = nil
		for i := 0; i < 2+r.Intn(3); i++ {
			creds = append(creds, newCred(r, v, vh.Pick(r, "jwt", "jwt", "sdjwt"), 0))
		}

		if r.Intn(2) == 0 {
			forge(r, creds[0])
			forged[creds[0]] = true
		}
	}

	var ds []*descriptor

	targets := map[*descriptor]*cred{}

	for i := 0; i < 1+r.Intn(3); i++ {
		t := creds[r.Intn(len(creds))]
		d := newDescriptor(r, i, t, v2)

		if r.Intn(3) != 0 { // usually satisfiable by its target
			for try := 0; try < 30 && !d.qualifies(t, t.doc); try++ {
				d = newDescriptor(r, i, t, v2)
			}
		}

		d.format = nil
		ds = append(ds, d)
		targets[d] = t
	}

	pd, def := definition(r, ds, nil)
	j := &judged{c: c, def: def, creds: creds, ds: ds}

	// the choice
	nVP := 1
	if r.Intn(3) == 0 {
		nVP = 1 + r.Intn(3)
	}

	carrier := vh.Pick(r, "json", "json", "jwt", "cwt")
	lists := make([]L, nVP)

	var ms []*mapped

	for _, d := range ds {
		n := 1
		if r.Intn(5) == 0 {
			n = 2
		}

		if r.Intn(12) == 0 {
			n = 0
		}

		for k := 0; k < n; k++ {
			x := targets[d]
			if r.Intn(4) == 0 {
				x = creds[r.Intn(len(creds))]
			}

			ms = append(ms, &mapped{d: d, x: x, vp: r.Intn(nVP)})
		}
	}

	for i := range lists {
		for k := 0; k < r.Intn(2); k++ { // not mapped
			lists[i] = append(lists[i], embed(creds[r.Intn(len(creds))]))
		}
	}

	merged := nVP > 1 || r.Intn(4) == 0
	multi := merged && (nVP > 1 || r.Intn(2) == 0) // the paths start at the list

	for _, m := range ms {
		lists[m.vp] = append(lists[m.vp], embed(m.x))
		m.json = mapping(r, m, len(lists[m.vp])-1, carrier, multi)
	}

	altered := ""
	want := true
	covered := map[string]bool{}

	for _, m := range ms {
		covered[m.d.id] = true
		want = want && m.d.qualifies(m.x, m.x.doc)
	}

	for _, d := range ds {
		want = want && covered[d.id]
	}

	for _, m := range ms {
		if forged[m.x] {
			want = false
		}
	}

	if len(ms) > 0 && !strict && r.Intn(5) == 0 {
		altered = alter(r, ms, lists, nVP)
		want = want && altered == "same"
	}

	// the presentations
	dl := make([]L, nVP)

	var flat L

	for _, m := range ms {
		dl[m.vp] = append(dl[m.vp], m.json)
		flat = append(flat, m.json)
	}

	var vps []*vpT

	stranger := -1 // a presentation that does not say it is a submission
	if r.Intn(12) == 0 {
		stranger = r.Intn(nVP)
		want = false
	}

	for i := range lists {
		doc := M{"@context": L{base(v), presexch.PresentationSubmissionJSONLDContextIRI}, "id": fmt.Sprintf("urn:vp:%d", i),
			"type": L{"VerifiablePresentation", "PresentationSubmission"}, "verifiableCredential": lists[i]}

		if lists[i] == nil {
			doc["verifiableCredential"] = L{}
		}

		if !merged {
			doc["presentation_submission"] = M{"id": "s", "definition_id": pd.ID, "descriptor_map": append(L{}, dl[i]...)}
		}

		if i == stranger {
			switch r.Intn(3) {
			case 0:
				doc["type"] = L{"VerifiablePresentation", vh.Pick(r, "Submission", "presentationSubmission", "PresentationSubmission2")}
			case 1:
				doc["@context"] = L{base(v), presexch.CredentialApplicationJSONLDContextIRI}
				doc["type"] = L{"VerifiablePresentation", "CredentialManifest"}
			default:
				doc["@context"] = L{base(v), vh.CtxDIDConf}
			}

			c.Count("match.stranger", 1)
		} else if r.Intn(6) == 0 {
			doc["@context"] = L{base(v), presexch.CredentialApplicationJSONLDContextIRI}
			doc["type"] = L{"VerifiablePresentation", "CredentialApplication"}
		}

		vps = append(vps, carry(carrier, doc))
	}

	opts := []presexch.MatchOption{presexch.WithCredentialOptions(w.Lax()...)}

	if strict {
		opts = []presexch.MatchOption{presexch.WithCredentialOptions(verifiable.WithProofChecker(w.Checker), verifiable.WithCredDisableValidation(),
			verifiable.WithDisabledRelatedResourceCheck(), verifiable.WithJSONLDDocumentLoader(w.Loader))}

		if len(forged) > 0 && r.Intn(5) == 0 { // nothing to verify with
			opts = nil
			want = false
		}

		c.Count(fmt.Sprintf("match.strict.%v", want), 1)
	}
	how := "embedded"

	if merged {
		sub := M{"id": "s", "definition_id": pd.ID, "descriptor_map": append(L{}, flat...)}

		if r.Intn(2) == 0 {
			how = "merged-map"
			opts = append(opts, presexch.WithMergedSubmissionMap(sub))
		} else {
			how = "merged"
			ps := &presexch.PresentationSubmission{}

			if err := json.Unmarshal(vh.J(sub), ps); err != nil {
				panic("vh-fixture: " + err.Error())
			}

			opts = append(opts, presexch.WithMergedSubmission(ps))
		}
	}

	noSchema := r.Intn(6) == 0
	if noSchema && !strict && stranger < 0 {
		opts = append(opts, presexch.WithDisableSchemaValidation())

		for _, m := range ms { // judged on the constraints alone
			d := *m.d
			d.schemas = nil
			m.d = &d
		}

		w2 := altered == "" || altered == "same"

		for _, m := range ms {
			w2 = w2 && m.d.qualifies(m.x, m.x.doc)
		}

		for _, d := range ds {
			w2 = w2 && covered[d.id]
		}

		want = w2
	}

	got, err := pd.Match(vps, w.Loader, opts...)

	c.Eval(fmt.Sprintf("Match %s %s n=%d %s %s alt=%s %v", carrier, how, nVP, formsOf(creds), shapeOf(ds), altered, err == nil))

	detail := func() interface{} {
		return j.detail(string(vh.J(flat)), " ", carrier, " ", how, " ", altered, " ", string(vh.J(lists)))
	}

	key := fmt.Sprintf("Match:want=%v", want)
	if altered != "" {
		key += ":" + altered
		c.Count("match.altered", 1)
	}

	if !c.Expect((err == nil) == want, key, fmt.Sprintf("Match returned %v, but every mapped credential satisfies its descriptor: %v", err, want), detail()) {
		return
	}

	if err != nil {
		c.Count("match.refused", 1)

		return
	}

	c.Count("match.accepted", 1)

	// exactly the mapped credentials, with the presentation they came in
	have, exp := map[string]bool{}, map[string]bool{}

	for _, g := range got {
		x := whoseVC(g.Credential, creds)
		if x == nil {
			c.Violate("Match:unknown", "a matched credential is none of those presented", detail())

			return
		}

		have[fmt.Sprintf("%s %s %s", g.DescriptorID, x.tag, g.PresentationID)] = true
	}

	for _, m := range ms {
		exp[fmt.Sprintf("%s %s urn:vp:%d", m.d.id, m.x.tag, m.vp)] = true
	}

	c.Expect(fmt.Sprint(sorted(have)) == fmt.Sprint(sorted(exp)), "Match:values", "the matched values are not the mapped ones", M{"have": sorted(have), "expected": sorted(exp), "case": detail()})
}

func base(v int) string {
	if v == 1 {
		return vh.CtxV1
	}

	return vh.CtxV2
}

// embed is the form a credential takes inside a presentation.
func embed(x *cred) interface{} {
	if x.isJWT() {
		return x.raw
	}

	b, err := x.vc.MarshalJSON()
	if err != nil {
		panic("vh-fixture: " + err.Error())
	}

	return unj(b)
}

func mapping(r *rand.Rand, m *mapped, at int, carrier string, multi bool) M {
	inner := fmt.Sprintf("verifiableCredential[%d]", at)

	switch carrier {
	case "jwt":
		inner = vh.Pick(r, "vp.", "vp.", "") + inner // without vp for compatibility
	case "cwt":
		inner = "vp." + inner
	}

	root := "$"
	if multi {
		root = fmt.Sprintf("$[%d]", m.vp)
	}

	switch r.Intn(3) {
	case 0:
		if root == "$" || carrier != "json" {
			break
		}

		return M{"id": m.d.id, "format": "ldp_vc", "path": root + "." + inner}
	case 1:
		if root == "$" {
			return M{"id": m.d.id, "format": "ldp_vc", "path": "$." + inner}
		}
	}

	return M{"id": m.d.id, "format": "ldp_vp", "path": root, "path_nested": M{"id": m.d.id, "format": "ldp_vc", "path": "$." + inner}}
}

// alter makes a mapping wrong.
func alter(r *rand.Rand, ms []*mapped, lists []L, nVP int) string {
	m := ms[r.Intn(len(ms))]

	leaf := m.json
	if n, ok := leaf["path_nested"].(M); ok {
		leaf = n
	}

	switch r.Intn(4) {
	case 0:
		m.json["id"] = m.d.id + "x"
		return "unknown-descriptor"
	case 1:
		leaf["path"] = strings.Replace(leaf["path"].(string), "verifiableCredential[", "verifiableCredential[9", 1)
		return "out-of-range"
	case 2:
		leaf["path"] = strings.Replace(leaf["path"].(string), "verifiableCredential[", "credentials[", 1)
		return "no-such-member"
	default:
		leaf["path"] = "verifiableCredential]["
		return "bad-path"
	}
}

func carry(carrier string, doc M) *vpT {
	h := w.Ents["holder"]

	switch carrier {
	case "jwt":
		k := h.Keys["EdDSA"]

		return parseVP([]byte(vh.JWS(M{"alg": "EdDSA", "kid": k.ID, "typ": "JWT"}, vh.J(M{"iss": h.DID, "vp": doc}), k)))
	case "cwt":
		k := h.Keys["ES256"]

		return parseVP([]byte(hex.EncodeToString(vh.MakeCose(vh.CoseHdr(k), vh.CB(M{"iss": h.DID, "vp": doc}), k).Bytes())))
	}

	return parseVP(vh.J(doc))
}

// forge replaces a part of a token by something its issuer did not sign.
func forge(r *rand.Rand, x *cred) {
	jws, rest, _ := strings.Cut(x.raw, "~")
	p := strings.Split(jws, ".")

	if r.Intn(2) == 0 {
		k := w.Ents["holder"].Keys["EdDSA"]

		b, err := base64.RawURLEncoding.DecodeString(p[1])
		if err != nil {
			panic("vh-fixture: " + err.Error())
		}

		h, err := base64.RawURLEncoding.DecodeString(p[0])
		if err != nil {
			panic("vh-fixture: " + err.Error())
		}

		hdr := unj(h).(M)
		hdr["alg"] = "EdDSA"
		p = strings.Split(vh.JWS(hdr, b, k), ".")
	} else {
		sig, err := base64.RawURLEncoding.DecodeString(p[2])
		if err != nil {
			panic("vh-fixture: " + err.Error())
		}

		sig[r.Intn(len(sig))] ^= 1 << r.Intn(8)
		p[2] = base64.RawURLEncoding.EncodeToString(sig)
	}

	s := strings.Join(p, ".")
	if x.form == "sdjwt" {
		s += "~" + rest
	}

	x.raw = s
	x.vc = w.ParseVC(s)
}

func whoseVC(vc *verifiable.Credential, creds []*cred) *cred {
	t := string(vh.J(vc.ToRawJSON()))

	for _, x := range creds {
		if strings.Contains(t, x.tag) {
			return x
		}
	}

	return nil
}

// bbsCase: limited disclosure of a BBS+ signed credential is a derived credential that verifies.
func bbsCase(c *vh.Check, r *rand.Rand) {
	e := w.Ents["issuer"]
	doc := w.BBSDoc(r, e.DID)
	doc["credentialSubject"] = vh.AsList(doc["credentialSubject"])[0]

	src, err := w.LDSign(doc, w.LDContext(r, e, vh.BBSSuite()))
	if err != nil {
		return
	}

	x := &cred{form: "bbs", v: 1, doc: doc, vc: w.ParseVC(src), proofs: []string{"BbsBlsSignature2020"}}
	d := &descriptor{id: "d", limit: "required"}

	// elements of lists are told apart by their values in a frame: they come with what is like them, and are judged
	// by whether they are shown only
	indexed := r.Intn(4) == 0

	for i := 0; i < 1+r.Intn(3); i++ {
		var p path

		for p == nil || p[0].key == "issuer" || p.indexed() && (!indexed || i > 0) || indexed && !isStr(p.eval(doc)) {
			p = somePath(r, doc)
		}

		d.fields = append(d.fields, &field{paths: []path{p}, rendered: []string{p.simple()}, prefixed: []bool{false}})
	}

	pd, def := definition(r, []*descriptor{d}, nil)
	j := &judged{c: c, def: def, creds: []*cred{x}, ds: []*descriptor{d}}

	vp, err := pd.CreateVP(vcs(j.creds), w.Loader, presexch.WithSDCredentialOptions(w.Lax()...), presexch.WithSDBBSProofCreator(w.BBSProofCreator(e)))
	c.Eval("bbs " + d.fields[0].rendered[0])

	if !c.Expect(err == nil, "bbs:create", fmt.Sprint(err), j.detail()) {
		return
	}

	b, err := vp.MarshalJSON()
	if !c.Expect(err == nil, "bbs:marshal", fmt.Sprint(err), j.detail()) {
		return
	}

	got, ok := vh.AsList(unj(b).(M)["verifiableCredential"])[0].(M)
	if !c.Expect(ok && len(vh.Proofs(got)) == 1 && vh.Proofs(got)[0]["type"] == "BbsBlsSignatureProof2020", "bbs:proof", "no derived proof", j.detail(string(b))) {
		return
	}

	text := string(vh.J(got))

	_, err = verifiable.ParseCredential([]byte(text), verifiable.WithProofChecker(w.Checker), verifiable.WithJSONLDDocumentLoader(w.Loader), verifiable.WithCredDisableValidation())
	c.Expect(err == nil, "bbs:verify", fmt.Sprintf("the limited credential does not verify: %v", err), j.detail(text))
	c.Count("bbs", 1)

	want, ids := map[string]bool{}, map[string]bool{}

	for _, f := range d.fields {
		v := f.paths[0].eval(doc)
		for _, t := range tokensIn(v[0]) {
			want[t] = true
		}

		for n := range f.paths[0] { // the objects on the way, by name
			if m, ok := f.paths[0][:n].eval(doc)[0].(M); ok {
				for _, t := range tokensIn(m["id"]) {
					ids[t] = true
				}
			}
		}
	}

	for _, v := range []interface{}{doc["issuer"], doc["credentialSubject"].(M)["id"]} {
		for _, t := range tokensIn(v) {
			ids[t] = true
		}
	}

	for _, t := range tokensIn(doc) {
		if want[t] {
			c.Count("bbs.shown", 1)
			c.Expect(strings.Contains(text, t), "bbs:missing", "a value the descriptor asks for is not presented", j.detail(t, " ", text))
		} else if !ids[t] && !indexed {
			c.Count("bbs.hidden", 1)
			c.Expect(!strings.Contains(text, t), "bbs:leak", "a value the descriptor does not ask for is presented", j.detail(t, " ", text))
		}
	}
}

func isStr(vs []interface{}) bool {
	if len(vs) != 1 {
		return false
	}

	_, ok := vs[0].(string)

	return ok
}

// frameCase: the frame of a definition limits a BBS+ signed credential before its descriptors are looked at.
func frameCase(c *vh.Check, r *rand.Rand) {
	e := w.Ents["issuer"]
	doc := w.BBSDoc(r, e.DID)
	subj, _ := vh.AsList(doc["credentialSubject"])[0].(M)
	doc["credentialSubject"] = subj
	delete(doc, "proof")

	ask := ""

	for _, k := range vh.SortedKeys(subj) {
		if _, isS := subj[k].(string); isS && k != "id" && k != "type" && len(tokensIn(subj[k])) > 0 && (ask == "" || r.Intn(2) == 0) {
			ask = k
		}
	}

	if ask == "" || subj["id"] == nil {
		return
	}

	src, err := w.LDSign(doc, w.LDContext(r, e, vh.BBSSuite()))
	if err != nil {
		return
	}

	x := &cred{form: "bbs", v: 1, doc: doc, vc: w.ParseVC(src), proofs: []string{"BbsBlsSignature2020"}}
	d := &descriptor{id: "d"}

	d.fields = append(d.fields, &field{paths: []path{{{"credentialSubject", -1}, {ask, -1}}}, rendered: []string{"$.credentialSubject." + ask}, prefixed: []bool{false}})

	pd, def := definition(r, []*descriptor{d}, nil)
	pd.Frame = M{"@context": doc["@context"], "type": doc["type"], "@explicit": true, "issuer": M{}, "issuanceDate": M{},
		"credentialSubject": M{"@explicit": true, ask: M{}}}

	if doc["id"] != nil {
		pd.Frame["id"] = doc["id"]
	}

	j := &judged{c: c, def: def, creds: []*cred{x}, ds: []*descriptor{d}}

	vp, err := pd.CreateVP(vcs(j.creds), w.Loader, presexch.WithSDCredentialOptions(w.Lax()...), presexch.WithSDBBSProofCreator(w.BBSProofCreator(e)))
	c.Eval("frame")

	if !c.Expect(err == nil, "frame:create", fmt.Sprint(err), j.detail(string(vh.J(pd.Frame)), string(vh.J(doc)))) {
		return
	}

	b, err := vp.MarshalJSON()
	if !c.Expect(err == nil, "frame:marshal", fmt.Sprint(err), j.detail()) {
		return
	}

	got := vh.AsList(unj(b).(M)["verifiableCredential"])[0].(M)
	text := string(vh.J(got))
	c.Count("frame", 1)
	c.Expect(len(vh.Proofs(got)) == 1 && vh.Proofs(got)[0]["type"] == "BbsBlsSignatureProof2020", "frame:proof", "no derived proof", j.detail(text))

	_, err = verifiable.ParseCredential([]byte(text), verifiable.WithProofChecker(w.Checker), verifiable.WithJSONLDDocumentLoader(w.Loader), verifiable.WithCredDisableValidation())
	c.Expect(err == nil, "frame:verify", fmt.Sprintf("the framed credential does not verify: %v", err), j.detail(text))

	for _, k := range vh.SortedKeys(subj) {
		for _, t := range tokensIn(subj[k]) {
			if k == ask {
				c.Expect(strings.Contains(text, t), "frame:missing", "a value the frame asks for is not presented", j.detail(t, " ", text))
			} else if k != "id" && k != "type" {
				c.Count("frame.hidden", 1)
				c.Expect(!strings.Contains(text, t), "frame:leak", "a value the frame does not ask for is presented", j.detail(t, " ", text))
			}
		}
	}
}

var tokRE = regexp.MustCompile("tk[0-9]{9}")

func tokensIn(v interface{}) []string { return tokRE.FindAllString(string(vh.J(v)), -1) }

func (p path) indexed() bool {
	for _, x := range p {
		if x.idx >= 0 {
			return true
		}
	}

	return false
}
