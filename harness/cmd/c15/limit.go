package main

import (
	"crypto"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"math/rand"
	"strings"

	"github.com/trustbloc/vc-go/presexch"
	"github.com/trustbloc/vc-go/verifharness/vh"
)

func limitCase(c *vh.Check, r *rand.Rand) {
	v := 1 + r.Intn(2)

	var creds []*cred

	n := 1 + r.Intn(3)
	for i := 0; i < n; i++ {
		creds = append(creds, newCred(r, v, vh.Pick(r, "plain", "proven", "jwt", "sdjwt", "sdjwt", "sdjwt"), vh.Pick(r, 0, 0, 0, 1, 2)))
	}

	v2 := r.Intn(3) != 0

	var ds []*descriptor

	for i := 0; i < 1+r.Intn(2); i++ {
		target := creds[r.Intn(len(creds))]
		d := &descriptor{id: fmt.Sprintf("d%d", i), limit: vh.Pick(r, "required", "required", "required", "preferred", "")}

		if !v2 {
			d.schemas = []M{{"uri": typeIRI["VerifiableCredential"]}}
		}

		for k := 0; k < 1+r.Intn(3); k++ {
			f := newField(r, target, v2, true)
			// a part of a typed object, without its id and type, is refused by the JSON schema of a credential
			for k := f.paths[0][0].key; len(f.paths[0]) > 1 && (k == "credentialStatus" || k == "termsOfUse" || k == "evidence"); k = f.paths[0][0].key {
				f = newField(r, target, v2, true)
			}
			f.paths, f.rendered, f.prefixed = f.paths[:1], f.rendered[:1], f.prefixed[:1]
			f.rendered[0] = f.paths[0].bracketless()

			if target.isJWT() && r.Intn(5) == 0 {
				f.prefixed[0] = true
				f.rendered[0] = "$.vc" + f.rendered[0][1:]
			}

			if k0 := f.paths[0][0].key; f.filter != nil && !f.optional && r.Intn(3) != 0 && k0 != "id" && k0 != "type" && k0 != "@context" &&
				k0 != "issuer" && k0 != "credentialStatus" && k0 != "termsOfUse" && k0 != "evidence" && !strings.HasPrefix(k0, "valid") && !strings.HasSuffix(k0, "Date") && f.paths[0][len(f.paths[0])-1].key != "id" && !wholeSubject(f.paths[0]) { // a predicate takes the value's place
				f.pred = vh.Pick(r, "required", "required", "preferred")
			}

			if r.Intn(6) != 0 {
				// mostly fields the target satisfies
				for try := 0; try < 20 && !f.satisfied(target, target.doc); try++ {
					f.filter = nil
					f.pred = ""
				}
			}

			d.fields = append(d.fields, f)
		}

		if d.limit != "required" && !d.predicate() && r.Intn(3) != 0 {
			d.limit = "required"
		}

		ds = append(ds, d)
	}

	pd, def := definition(r, ds, nil)
	j := &judged{c: c, def: def, creds: creds, ds: ds}

	want := true

	for _, d := range ds {
		_, union := expectation(d, nil, creds, true)
		want = want && len(union) > 0
	}

	before := make([]string, len(creds))
	for i, x := range creds {
		before[i] = string(vh.J(x.vc.ToRawJSON())) + fmt.Sprint(len(x.vc.SDJWTDisclosures()))
	}

	vp, err := pd.CreateVP(vcs(creds), w.Loader, presexch.WithSDCredentialOptions(w.Lax()...))
	c.Eval(fmt.Sprintf("limit %s %s %v", formsOf(creds), shapeOf(ds), err == nil))

	for i, x := range creds {
		c.Expect(before[i] == string(vh.J(x.vc.ToRawJSON()))+fmt.Sprint(len(x.vc.SDJWTDisclosures())), "limit:source", "a given credential was changed", j.detail())
	}

	if !c.Expect((err == nil) == want, fmt.Sprintf("limit:choice=%v", want), fmt.Sprintf("CreateVP returned %v, but every descriptor can be satisfied: %v", err, want), j.detail()) {
		return
	}

	if err != nil {
		c.Count("limit.refused", 1)

		return
	}

	b, err := vp.MarshalJSON()
	if !c.Expect(err == nil, "limit:marshal", fmt.Sprint(err), j.detail()) {
		return
	}

	c.Count("limit.ok", 1)

	root := unj(b)
	sub := vp.CustomFields["presentation_submission"].(*presexch.PresentationSubmission)

	for _, d := range ds {
		var got []interface{}

		for _, m := range sub.DescriptorMap {
			if m.ID == d.id {
				x := point(root, m)
				if !c.Expect(x != nil, "limit:dangling", "a mapping points at no credential", j.detail(string(vh.J(sub)))) {
					return
				}

				got = append(got, x)
			}
		}

		j.limited(d, got)
	}

	j.c.Expect(len(vh.AsList(root.(M)["verifiableCredential"])) <= len(sub.DescriptorMap), "limit:extra", "more credentials than mappings", j.detail(string(b)))

	var all []string
	for _, x := range vh.AsList(root.(M)["verifiableCredential"]) {
		t, _ := readCred(x)
		all = append(all, t)
	}

	c.Sample(fmt.Sprintf("definition %s -> %s", vh.J(def), cutStr(strings.Join(all, " | "))))
	j.received(r, pd, b)
}

// wholeSubject: a boolean in the place of a subject is no credential, and CreateVP refuses it.
func wholeSubject(p path) bool {
	return p[0].key == "credentialSubject" && len(p) == 1 || p[0].key == "credentialSubject" && len(p) == 2 && p[1].key == ""
}

func cutStr(s string) string {
	if len(s) > 1500 {
		return s[:1500]
	}

	return s
}

// bracketless is the plain dotted spelling.
func (p path) bracketless() string { return p.simple() }

// asked are the tokens a descriptor asks for of a credential, and the ones only a predicate is asked about.
func asked(d *descriptor, x *cred) (want, pred map[string]bool) {
	want, pred = map[string]bool{}, map[string]bool{}

	for _, f := range d.fields {
		v, ok := f.values(0, x, x.doc)
		if !ok {
			continue
		}

		for _, t := range tokensUnder(v) {
			if f.pred == "required" && x.form != "sdjwt" {
				pred[t] = true
			} else {
				want[t] = true
			}
		}
	}

	return want, pred
}

// limited: what is presented for a descriptor, as a whole, discloses what it asks for and nothing else.
func (j *judged) limited(d *descriptor, got []interface{}) {
	c := j.c

	var sat []*cred

	for _, x := range j.creds {
		if d.qualifies(x, x.doc) && d.limitable(x) {
			sat = append(sat, x)
		}
	}

	if !c.Expect(len(got) == len(sat), "limit:number", fmt.Sprintf("%d credentials are presented for a descriptor %d satisfy", len(got), len(sat)), j.detail(d.id)) {
		return
	}

	// the credentials of a descriptor come in the order they were given
	for i, x := range sat {
		text, claims := readCred(got[i])

		if !c.Expect(claims != nil, "limit:unreadable", "the presented credential cannot be read", j.detail(text)) {
			continue
		}

		want, pred := asked(d, x)
		full := d.limit != "required"

		for _, t := range tokensUnder(x.doc) {
			shown := strings.Contains(text, t)

			switch {
			case pred[t] && !want[t]:
				c.Count("predicate", 1)
				c.Expect(!shown, "limit:predicate:"+x.form, "the value of a predicate is disclosed", j.detail(d.id, " ", t, " ", text))
			case want[t]:
				c.Count("limit.tokens", 1)
				c.Expect(shown || pred[t], "limit:missing:"+x.form, "a value the descriptor asks for is not presented", j.detail(d.id, " ", t, " ", text))
			case full:
				c.Expect(shown, "limit:unlimited:"+x.form, "a value is gone although disclosure is not limited", j.detail(d.id, " ", t, " ", text))
			case x.form == "sdjwt": // judged by the disclosures
			case t == AsID(x.doc["id"]) || "urn:uuid:"+t == AsID(x.doc["id"]) || issuerToken(x.doc, t):
			default:
				c.Count("limit.hidden", 1)
				c.Expect(!shown, "limit:leak:"+x.form, "a value the descriptor does not ask for is presented", j.detail(d.id, " ", t, " ", text))
			}
		}

		if x.form == "sdjwt" {
			j.disclosed(d, x, token(got[i]).(string))
		}

		j.mandatory(d, x, claims, text)
	}
}

// disclosed: the disclosures of a limited SD-JWT are those on the way to, and inside of, the values asked for.
func (j *judged) disclosed(d *descriptor, x *cred, got string) {
	need := map[string]bool{}
	all := disclosuresOf(x.raw)

	for i, raw := range all {
		if d.limit != "required" {
			need[raw] = true

			continue
		}

		whole, without := sdDoc(x.raw, -1), sdDoc(x.raw, i)

		for _, f := range d.fields {
			a, _ := f.values(0, x, whole)
			b, _ := f.values(0, x, without)

			if !vh.Eq(vh.Norm(a), vh.Norm(b)) {
				need[raw] = true
			}
		}
	}

	have := map[string]bool{}
	for _, raw := range disclosuresOf(got) {
		have[raw] = true
	}

	for _, raw := range all {
		b, _ := base64.RawURLEncoding.DecodeString(raw)

		if need[raw] {
			j.c.Count("limit.sd.needed", 1)
			j.c.Expect(have[raw], "limit:sd:missing", "a disclosure the descriptor asks for is not presented", j.detail(d.id, " ", string(b), " ", got))
		} else {
			j.c.Count("limit.sd.hidden", 1)
			j.c.Expect(!have[raw], "limit:sd:leak", "a disclosure the descriptor does not ask for is presented", j.detail(d.id, " ", string(b), " ", got))
		}

		delete(have, raw)
	}

	j.c.Expect(len(have) == 0, "limit:sd:foreign", "a disclosure that is not the credential's is presented", j.detail(d.id, " ", got))
}

func disclosuresOf(tok string) []string {
	var l []string

	for _, s := range strings.Split(tok, "~")[1:] {
		if s != "" {
			l = append(l, s)
		}
	}

	return l
}

// sdDoc is what an SD-JWT credential shows, with the value of one disclosure (if >= 0) replaced.
func sdDoc(tok string, replaced int) M {
	_, claims := readCred(strings.Split(tok, "~")[0])
	p := vh.JWTPart(tok, 1)

	h := crypto.SHA256

	for _, m := range []M{p, claims} {
		switch vh.AsStr(m["_sd_alg"]) {
		case "sha-384":
			h = crypto.SHA384
		case "sha-512":
			h = crypto.SHA512
		}
	}

	ds := map[string]*vh.Disc{}

	for i, raw := range disclosuresOf(tok) {
		d, err := vh.DecDisc(raw, h)
		if err != nil {
			panic("vh-fixture: " + err.Error())
		}

		if i == replaced {
			d.Value = "replaced"
		}

		ds[d.Digest] = d
	}

	m, _ := vh.SDResolve(claims, ds, map[string]int{}).(M)

	return m
}

func issuerToken(doc M, t string) bool {
	m, ok := doc["issuer"].(M)

	return ok && m["name"] == t
}

// mandatory members stay, and stay as they are.
func (j *judged) mandatory(d *descriptor, x *cred, claims M, text string) {
	if x.form == "sdjwt" {
		return
	}

	ks := []string{"@context", "type", "issuer", "id"}
	if x.v == 1 {
		ks = append(ks, "issuanceDate")
	} else {
		ks = append(ks, "validFrom")
	}

	for _, f := range d.fields {
		if f.pred == "required" {
			var l []string

			for _, k := range ks {
				if f.paths[0][0].key != k {
					l = append(l, k)
				}
			}

			ks = l
		}
	}

	for _, k := range ks {
		a, inA := x.doc[k]
		b, inB := claims[k]

		if k == "type" || k == "@context" {
			a, b = vh.AsList(a), vh.AsList(b)
		}

		if k == "issuer" {
			a, b = AsID(a), AsID(b)
		}

		j.c.Expect(inA == inB && vh.Eq(vh.Norm(a), vh.Norm(b)), "limit:mandatory:"+k, fmt.Sprintf("%s is %s instead of %s", k, vh.J(b), vh.J(a)), j.detail(d.id, " ", text))
	}

	for k, v := range claims {
		j.c.Expect(v != nil, "limit:null", "a null member was added: "+k, j.detail(d.id, " ", text))
	}

	var want, got []string
	for _, s := range vh.AsList(x.doc["credentialSubject"]) {
		want = append(want, AsID(s))
	}

	for _, s := range vh.AsList(claims["credentialSubject"]) {
		got = append(got, AsID(s))
	}

	j.c.Expect(fmt.Sprint(want) == fmt.Sprint(got), "limit:subject", fmt.Sprintf("subjects %v instead of %v", got, want), j.detail(d.id, " ", text))
}

// received: a presentation without predicates that was built for a definition matches it.
func (j *judged) received(r *rand.Rand, pd *presexch.PresentationDefinition, b []byte) {
	for _, d := range j.ds {
		if d.predicate() {
			return
		}

		for _, f := range d.fields {
			if f.prefixed[0] { // a limited JWT credential is an unsecured token, which is not taken for a JWT once parsed
				return
			}

			for _, s := range f.paths[0] {
				if s.idx > 0 && d.limit == "required" { // lists are shortened to what is asked
					return
				}
			}
		}
	}

	vp := parseVP(b)
	_, err := pd.Match([]*vpT{vp}, w.Loader, presexch.WithCredentialOptions(w.Lax()...))
	j.c.Eval("limit received " + shapeOf(j.ds))
	j.c.Expect(err == nil, "limit:received", fmt.Sprintf("the presentation built for a definition does not match it: %v", err), j.detail(string(b)))

	_ = r
	_ = json.Valid
}
