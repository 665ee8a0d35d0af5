// C15: presentation exchange selects exactly the credentials that satisfy a definition.
package main

import (
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"math/rand"
	"sort"
	"strings"
	"time"

	"github.com/trustbloc/vc-go/presexch"
	"github.com/trustbloc/vc-go/verifharness/vh"
	"github.com/trustbloc/vc-go/verifiable"
)

var w *vh.World

func main() {
	vh.Main(vh.Spec{
		ID: "C15",
		Rule: "2..6 random credentials (JSON-LD with and without proofs, BBS+, JWT, SD-JWT v2/v5, CWT; v1 and v2; with all, some and no ids) x definitions with 1..3 descriptors " +
			"aimed at them (schemas, formats, 0..3 fields with 1..3 paths in several spellings, optional fields, filters over 14 keywords incl. not/contains/allOf, subject_is_issuer), " +
			"judged by an independent evaluator of paths and filters: CreateVP, CreateVPArray and MatchSubmissionRequirement select exactly the satisfying credentials and every mapping " +
			"points at one; limited disclosure and predicates: every leaf of the credentials carries a unique token, and the tokens in what is presented (disclosures decoded) are exactly " +
			"the asked ones; Match over hand-made presentations (JSON, JWT, CWT, lists with a merged submission) carrying satisfying and not satisfying credentials, with the mappings " +
			"as written or altered. Distinct: (entry point, forms, shape of the descriptors, verdict).",
		Level: "exploration",
		Require: map[string]int64{"select.ok": 350, "select.refused": 500, "select.creds": 900, "list": 600, "limit.ok": 400, "limit.tokens": 700, "limit.hidden": 1500, "limit.sd.needed": 300, "limit.sd.hidden": 1500,
			"predicate": 50, "match.accepted": 350, "match.refused": 450, "match.altered": 200, "frame": 25, "issuer": 100, "frame.hidden": 100, "match.strict.true": 60, "match.strict.false": 100, "match.stranger": 60, "ids.some": 150, "ids.none": 150, "format.mixed": 30, "bbs": 40, "bbs.shown": 60, "bbs.hidden": 150},
		Assumptions: []string{"filters are evaluated on a single selected value; paths with wildcards carry no filter",
			"a verifier's Match does not look at formats and holders (the library leaves them to its caller)",
			"credentials of one presentation share the base context"},
		Run: run,
	})
}

func run(c *vh.Check) {
	w = vh.NewWorld("issuer", "holder", "other")

	c.Cases("select", c.N(2200, 24000), func(r *rand.Rand, _ int) { selectCase(c, r) })
	c.Cases("limit", c.N(2400, 24000), func(r *rand.Rand, _ int) { limitCase(c, r) })
	c.Cases("match", c.N(1600, 16000), func(r *rand.Rand, _ int) { matchCase(c, r) })
	c.Cases("dates", c.N(200, 2000), func(r *rand.Rand, _ int) { dateCase(c, r) })
	c.Cases("issuer", c.N(200, 2000), func(r *rand.Rand, _ int) { issuerCase(c, r) })
	c.Cases("paths", c.N(500, 5000), func(r *rand.Rand, _ int) { pathCase(c, r) })
	c.Cases("frame", c.N(60, 600), func(r *rand.Rand, _ int) { frameCase(c, r) })
	c.Cases("bbs", c.N(220, 1600), func(r *rand.Rand, _ int) { bbsCase(c, r) })
}

var forms = []string{"plain", "proven", "jwt", "sdjwt", "cwt"}

func pool(r *rand.Rand, n, v, idMode int) []*cred {
	var l []*cred

	one := ""
	if r.Intn(3) == 0 {
		one = forms[r.Intn(len(forms))]
	}

	for i := 0; i < n; i++ {
		f := one
		if f == "" {
			f = forms[r.Intn(len(forms))]
		}

		m := idMode
		if idMode != 0 && r.Intn(3) == 0 {
			m = 0
		}

		l = append(l, newCred(r, v, f, m))
	}

	return l
}

func vcs(l []*cred) []*verifiable.Credential {
	var out []*verifiable.Credential
	for _, c := range l {
		out = append(out, c.vc)
	}

	return out
}

// ---- definitions ----

func newFormat(r *rand.Rand, target *cred) M {
	f := M{}

	ldp := func(k string) {
		f[k] = M{"proof_type": vh.Pick(r, L{"Ed25519Signature2018"}, L{"JsonWebSignature2020", "EcdsaSecp256k1Signature2019"}, L{"Ed25519Signature2018", "JsonWebSignature2020"}, L{"BbsBlsSignature2020"})}
	}
	jwt := func(k string) {
		f[k] = M{"alg": vh.Pick(r, L{"EdDSA"}, L{"ES256", "ES384"}, L{"eddsa", "ES256"}, L{"PS256"})}
	}

	if len(target.proofs) > 0 && r.Intn(4) != 0 {
		ldp(vh.Pick(r, "ldp", "ldp_vc", "ldp_vp"))
		f[vh.SortedKeys(f)[0]] = M{"proof_type": L{"Nothing2020", target.proofs[0]}}
	}

	if target.alg != "" && r.Intn(4) != 0 {
		k := vh.Pick(r, "jwt", "jwt_vc", "jwt_vp")
		f[k] = M{"alg": L{"RS256", target.alg}}
	}

	if len(f) == 0 || r.Intn(3) == 0 {
		ldp(vh.Pick(r, "ldp", "ldp_vc", "ldp_vp"))
	}

	if r.Intn(3) == 0 {
		jwt(vh.Pick(r, "jwt", "jwt_vc", "jwt_vp"))
	}

	return f
}

func newField(r *rand.Rand, target *cred, v2 bool, onlyLD bool) *field {
	f := &field{}

	n := 1
	if r.Intn(4) == 0 {
		n += 1 + r.Intn(2)
	}

	hit := r.Intn(n)

	for i := 0; i < n; i++ {
		p := somePath(r, target.doc)

		if i != hit && r.Intn(2) == 0 { // a path elsewhere or nowhere
			p = append(append(path{}, p[:len(p)-1]...), step{vh.Pick(r, "name", "rank", "age", "nowhere", "tags"), -1})
		}

		if n == 1 && r.Intn(8) == 0 {
			p = append(path{}, p...)
			for j := range p {
				if p[j].idx >= 0 {
					p[j].idx = -2
				}
			}
		}

		pre := target.isJWT() && !onlyLD && r.Intn(4) == 0
		f.paths = append(f.paths, p)
		f.prefixed = append(f.prefixed, pre)
		f.rendered = append(f.rendered, p.render(r, pre))
	}

	wild := false

	for _, p := range f.paths {
		for _, x := range p {
			wild = wild || x.idx == -2
		}
	}

	if !wild && r.Intn(5) < 3 {
		if v := f.paths[hit].eval(target.doc); len(v) == 1 {
			f.filter = newFilter(r, v[0], true)
			if !v2 { // the first data model's filters have a type, and const and enum over numbers and strings
				if _, ok := f.filter["type"]; !ok {
					f.filter["type"] = typeOf(v[0])
				}
			}
		}
	}

	if f.filter != nil && touchesJWTQuirk(f) {
		f.filter = nil
	}

	if v2 && r.Intn(5) == 0 {
		f.optional = true
	}

	return f
}

// touchesJWTQuirk: dates of JWT credentials are compared as numbers, and their $.issuer is the issuer's id
// (both for compatibility with JWT claims); dates have their own cases.
func touchesJWTQuirk(f *field) bool {
	for _, p := range f.paths {
		for _, s := range []string{"issuanceDate", "expirationDate", "validFrom", "validUntil"} {
			if p[len(p)-1].key == s || p[0].key == s {
				return true
			}
		}

		if p[0].key == "issuer" && len(p) == 1 {
			return true
		}
	}

	return false
}

func newDescriptor(r *rand.Rand, i int, target *cred, v2 bool) *descriptor {
	d := &descriptor{id: fmt.Sprintf("d%d-%s", i, vh.SafeStr(r))}

	if !v2 {
		d.schemas = []M{}

		for k := 0; k < 1+r.Intn(2); k++ {
			s := M{"uri": vh.Pick(r, typeIRI["VerifiableCredential"], typeIRI["VerifiableCredential"], "VerifiableCredential", typeIRI["DomainLinkageCredential"],
				typeIRI["PresentationSubmission"], "PresentationSubmission", "ExtraA", "https://example.com/unknown")}
			if r.Intn(3) == 0 {
				s["required"] = true
			}

			d.schemas = append(d.schemas, s)
		}

		if r.Intn(2) == 0 {
			d.schemas = []M{{"uri": typeIRI["VerifiableCredential"]}}
		}
	}

	if v2 && r.Intn(3) == 0 {
		d.format = newFormat(r, target)
	}

	switch r.Intn(10) {
	case 0:
		d.noConstr = true

		return d
	case 1:
		d.selfIssue = "required"
	case 2:
		d.selfIssue = "preferred"
	}

	n := 1 + r.Intn(3)
	if r.Intn(8) == 0 && d.selfIssue != "" {
		n = 0
	}

	for k := 0; k < n; k++ {
		d.fields = append(d.fields, newField(r, target, v2, false))
	}

	return d
}

func definition(r *rand.Rand, ds []*descriptor, format M) (*presexch.PresentationDefinition, M) {
	l := L{}
	for _, d := range ds {
		l = append(l, d.json())
	}

	def := M{"id": "def-" + vh.SafeStr(r), "input_descriptors": l}
	if format != nil {
		def["format"] = format
	}

	pd := &presexch.PresentationDefinition{}
	if err := json.Unmarshal(vh.J(def), pd); err != nil {
		panic("vh-fixture: " + err.Error())
	}

	if err := pd.ValidateSchema(); err != nil {
		panic("vh-fixture: definition: " + err.Error() + string(vh.J(def)))
	}

	return pd, def
}

func shapeOf(ds []*descriptor) string {
	var l []string

	for _, d := range ds {
		s := ""
		if d.schemas != nil {
			s += "S"
		}

		if d.format != nil {
			s += "F"
		}

		s += d.limit + d.selfIssue

		for _, f := range d.fields {
			s += fmt.Sprintf(" %d", len(f.paths))
			for _, k := range vh.SortedKeys(f.filter) {
				s += k[:2]
			}

			if f.optional {
				s += "?"
			}

			s += f.pred
		}

		l = append(l, s)
	}

	return strings.Join(l, "/")
}

func formsOf(l []*cred) string {
	s := map[string]bool{}
	for _, c := range l {
		s[c.form] = true
	}

	return strings.Join(vh.SortedKeys(s), "+")
}

// ---- which credentials ----

// expectation of one descriptor: the credentials that satisfy it, by designation of the format when there is one.
func expectation(d *descriptor, format M, creds []*cred, limiting bool) (sets map[string]map[string]bool, union map[string]bool) {
	if d.format != nil {
		format = d.format
	}

	sets, union = map[string]map[string]bool{}, map[string]bool{}

	for _, c := range creds {
		if !d.qualifies(c, c.doc) || (limiting && !d.limitable(c)) {
			continue
		}

		cl := []string{""}
		if format != nil {
			cl = formatClasses(format, c)
		}

		for _, k := range cl {
			if sets[k] == nil {
				sets[k] = map[string]bool{}
			}

			sets[k][c.tag] = true
			union[c.tag] = true
		}
	}

	return sets, union
}

func oneOf(sets map[string]map[string]bool, got map[string]bool) bool {
	for _, s := range sets {
		if string(vh.J(vh.SortedKeys(s))) == string(vh.J(vh.SortedKeys(got))) {
			return true
		}
	}

	return len(sets) == 0 && len(got) == 0
}

// whose tells which credential of the pool a presented one is.
func whose(x interface{}, creds []*cred) *cred {
	x = token(x)

	if s, ok := x.(string); ok {
		for _, c := range creds {
			if c.raw != "" && strings.Split(c.raw, "~")[0] == strings.Split(s, "~")[0] {
				return c
			}
		}
	}

	text, _ := readCred(x)
	for _, c := range creds {
		if strings.Contains(text, c.tag) {
			return c
		}
	}

	// a CWT credential: hex or base64 of its COSE message
	if s, ok := x.(string); ok {
		b, err := hex.DecodeString(s)
		if err != nil {
			b, err = base64.StdEncoding.DecodeString(s)
		}

		if err == nil {
			for _, c := range creds {
				if strings.Contains(string(b), c.tag) {
					return c
				}
			}
		}
	}

	return nil
}

type judged struct {
	c     *vh.Check
	def   M
	creds []*cred
	ds    []*descriptor
}

func (j *judged) detail(extra ...interface{}) interface{} {
	var l L
	for _, c := range j.creds {
		l = append(l, M{"form": c.form, "alg": c.alg, "proofs": c.proofs, "doc": c.doc})
	}

	return M{"1extra": fmt.Sprint(extra...), "2definition": j.def, "3credentials": l}
}

func selectCase(c *vh.Check, r *rand.Rand) {
	v := 1 + r.Intn(2)
	idMode := vh.Pick(r, 0, 0, 1, 2)
	creds := pool(r, 1+r.Intn(6), v, idMode)
	v2 := r.Intn(2) == 0

	var ds []*descriptor
	for i := 0; i < 1+r.Intn(3); i++ {
		ds = append(ds, newDescriptor(r, i, creds[r.Intn(len(creds))], v2))
	}

	var format M
	if r.Intn(6) == 0 {
		format = newFormat(r, creds[r.Intn(len(creds))])
	}

	pd, def := definition(r, ds, format)
	j := &judged{c: c, def: def, creds: creds, ds: ds}

	want := true

	for _, d := range ds {
		sets, union := expectation(d, format, creds, true)
		want = want && len(union) > 0

		if len(sets) > 1 {
			c.Count("format.mixed", 1)
		}
	}

	switch idMode {
	case 1:
		c.Count("ids.some", 1)
	case 2:
		c.Count("ids.none", 1)
	}

	switch r.Intn(4) {
	case 0:
		list(j, r, pd, format)
	case 1:
		createArray(j, pd, format, want)
	default:
		create(j, r, pd, format, want)
	}
}

func list(j *judged, r *rand.Rand, pd *presexch.PresentationDefinition, format M) {
	var opts []presexch.MatchRequirementsOpt

	limiting := r.Intn(2) == 0
	if limiting {
		opts = append(opts, presexch.WithSelectiveDisclosureApply(), presexch.WithSDCredentialOptions(w.Lax()...))
	}

	got, err := pd.MatchSubmissionRequirement(vcs(j.creds), w.Loader, opts...)
	j.c.Eval("MatchSubmissionRequirement " + formsOf(j.creds) + " " + shapeOf(j.ds))

	if !j.c.Expect(err == nil && len(got) == 1 && len(got[0].Descriptors) == len(j.ds), "MatchSubmissionRequirement:error", fmt.Sprintf("%v", err), j.detail()) {
		return
	}

	for i, g := range got[0].Descriptors {
		d := j.ds[i]
		sets, _ := expectation(d, format, j.creds, limiting)
		set := map[string]bool{}

		for _, vc := range g.MatchedVCs {
			known := false

			for _, x := range j.creds {
				if x.vc == vc {
					set[x.tag], known = true, true
				}
			}

			if b, err := vc.MarshalJSON(); !known && err == nil && limiting {
				if x := whose(unj(b), j.creds); x != nil {
					set[x.tag] = true
				}

				j.c.Count("list.limited", 1)
			}
		}

		j.c.Count("list", 1)
		j.c.Expect(g.ID == d.id && oneOf(sets, set), "MatchSubmissionRequirement:set", "the credentials listed for a descriptor are not the ones that satisfy it",
			j.detail(d.id, " listed ", vh.SortedKeys(set), " expected ", string(vh.J(sets))))
	}
}

func (j *judged) verdict(name string, err error, want bool) bool {
	j.c.Eval(fmt.Sprintf("%s %s %s %v", name, formsOf(j.creds), shapeOf(j.ds), err == nil))

	if !j.c.Expect((err == nil) == want, fmt.Sprintf("%s:choice=%v", name, want),
		fmt.Sprintf("%s returned %v, but every descriptor can be satisfied: %v", name, err, want), j.detail()) {
		return false
	}

	if err != nil {
		j.c.Count("select.refused", 1)
		j.c.Expect(errors.Is(err, presexch.ErrNoCredentials), name+":error", "unexpected error: "+err.Error(), j.detail())

		return false
	}

	j.c.Count("select.ok", 1)

	return true
}

func create(j *judged, r *rand.Rand, pd *presexch.PresentationDefinition, format M, want bool) {
	var opts []presexch.MatchRequirementsOpt

	jwtVP := r.Intn(4) == 0
	if jwtVP {
		opts = append(opts, presexch.WithDefaultPresentationFormat(presexch.FormatJWTVP))
	}

	vp, err := pd.CreateVP(vcs(j.creds), w.Loader, opts...)
	if !j.verdict("CreateVP", err, want) {
		return
	}

	sub, _ := vp.CustomFields["presentation_submission"].(*presexch.PresentationSubmission)
	b, err := vp.MarshalJSON()

	if !j.c.Expect(sub != nil && err == nil, "CreateVP:submission", "no submission", j.detail()) {
		return
	}

	var root interface{} = unj(b)
	if len(sub.DescriptorMap) > 0 && strings.HasPrefix(sub.DescriptorMap[0].PathNested.Path, "$.vp.") {
		root = M{"vp": root}
	}

	j.submission("CreateVP", sub, root, format, vh.AsList(unj(b).(M)["verifiableCredential"]))
}

func createArray(j *judged, pd *presexch.PresentationDefinition, format M, want bool) {
	vps, sub, err := pd.CreateVPArray(vcs(j.creds), w.Loader)
	if !j.verdict("CreateVPArray", err, want) {
		return
	}

	var (
		root L
		all  L
	)

	for _, vp := range vps {
		b, err := vp.MarshalJSON()
		if err != nil {
			j.c.Violate("CreateVPArray:marshal", err.Error(), j.detail())

			return
		}

		m := unj(b).(M)
		all = append(all, vh.AsList(m["verifiableCredential"])...)

		if len(sub.DescriptorMap) > 0 && strings.HasPrefix(sub.DescriptorMap[0].PathNested.Path, "$.vp.") {
			m = M{"vp": m}
		}

		root = append(root, m)
	}

	j.submission("CreateVPArray", sub, root, format, all)
}

// point follows a mapping from the root of a submission.
func point(root interface{}, m *presexch.InputDescriptorMapping) interface{} {
	for ; m != nil; m = m.PathNested {
		var p path

		s := strings.TrimPrefix(m.Path, "$")
		for s != "" {
			if s[0] == '[' {
				var i int

				end := strings.IndexByte(s, ']')
				if end < 0 {
					return nil
				}

				if _, err := fmt.Sscanf(s[:end+1], "[%d]", &i); err != nil {
					return nil
				}

				p = append(p, step{"", i})
				s = s[end+1:]

				continue
			}

			s = s[1:]

			n := strings.IndexAny(s, ".[")
			if n < 0 {
				n = len(s)
			}

			p = append(p, step{s[:n], -1})
			s = s[n:]
		}

		// a lone credential is not a list in some serialisations
		v := p.eval(root)
		if len(v) == 0 && len(p) > 0 && p[len(p)-1].idx == 0 {
			v = p[:len(p)-1].eval(root)
		}

		if len(v) != 1 {
			return nil
		}

		root = v[0]
	}

	return root
}

func (j *judged) submission(name string, sub *presexch.PresentationSubmission, root interface{}, format M, all L) {
	sets := map[string]map[string]bool{}
	used := map[string]bool{}

	for _, m := range sub.DescriptorMap {
		x := whose(point(root, m), j.creds)

		if !j.c.Expect(x != nil, name+":dangling", "a mapping points at no credential", j.detail(string(vh.J(m)))) {
			return
		}

		if sets[m.ID] == nil {
			sets[m.ID] = map[string]bool{}
		}

		sets[m.ID][x.tag] = true
		used[x.tag] = true

		leaf := m
		for leaf.PathNested != nil {
			leaf = leaf.PathNested
		}

		j.c.Expect(leaf.ID == m.ID && (leaf.Format == presexch.FormatJWTVC) == x.isJWT(), name+":format", "a mapping names another format or id",
			j.detail(string(vh.J(m)), " ", x.form))
	}

	for _, d := range j.ds {
		exp, union := expectation(d, format, j.creds, true)
		j.c.Count("select.creds", int64(len(sets[d.id])))

		for t := range sets[d.id] {
			j.c.Expect(union[t], name+":unsatisfying", "a credential that does not satisfy the descriptor is submitted for it", j.detail(d.id, " ", t, " ", string(vh.J(sub))))
		}

		j.c.Expect(oneOf(exp, sets[d.id]), name+":set", "the credentials submitted for a descriptor are not those that satisfy it",
			j.detail(d.id, " submitted ", vh.SortedKeys(sets[d.id]), " expected ", string(vh.J(exp))))
		delete(sets, d.id)
	}

	j.c.Expect(len(sets) == 0, name+":foreign", "a mapping names an unknown descriptor", j.detail(string(vh.J(sub))))

	// nothing else is handed over, and tokens are handed over as they are
	for _, e := range all {
		x := whose(e, j.creds)
		if !j.c.Expect(x != nil && used[x.tag], name+":extra", "a credential no descriptor asked for is presented", j.detail()) {
			return
		}

		if s, ok := token(e).(string); ok && x.isJWT() {
			j.c.Expect(strings.TrimSuffix(s, "~") == strings.TrimSuffix(x.raw, "~"), name+":altered", "a token was altered", j.detail(s, " ", x.raw))
		}

		if m, ok := e.(M); ok && x.form == "plain" {
			j.c.Expect(vh.Eq(vh.Norm(x.doc), vh.Norm(m)), name+":altered", "a credential was altered", vh.Diff(vh.Norm(x.doc), vh.Norm(m)))
		}
	}
}

func unj(b []byte) interface{} {
	var x interface{}
	if err := json.Unmarshal(b, &x); err != nil {
		panic("vh-fixture: " + err.Error())
	}

	return x
}

func sorted(m map[string]bool) []string {
	l := []string{}
	for k := range m {
		l = append(l, k)
	}

	sort.Strings(l)

	return l
}

// ---- dates ----

// dateCase: a lower bound on a date, which the first data model allows, over JWT credentials.
func dateCase(c *vh.Check, r *rand.Rand) {
	v := 1 + r.Intn(2)
	x := newCred(r, v, vh.Pick(r, "jwt", "jwt", "sdjwt"), 0)
	name := vh.Pick(r, "issuanceDate", "expirationDate")

	if v == 2 {
		name = vh.Pick(r, "validFrom", "validUntil")
	}

	bound := time.Unix(1_600_000_000+int64(r.Intn(400_000_000)), 0).UTC()
	have := false

	var at time.Time

	if s, ok := x.doc[name].(string); ok {
		have = true
		at, _ = time.Parse(time.RFC3339, s)

		if r.Intn(2) == 0 {
			bound = at.Add(time.Duration(r.Intn(3)-1) * time.Second)
		}
	}

	def := M{"id": "dates", "input_descriptors": L{M{"id": "d", "schema": L{M{"uri": typeIRI["VerifiableCredential"]}},
		"constraints": M{"fields": L{M{"path": L{vh.Pick(r, "$.", "$.vc.") + name}, "filter": M{"type": "string", "format": "date-time", "minimum": bound.Format(time.RFC3339)}}}}}}}

	pd := &presexch.PresentationDefinition{}
	if err := json.Unmarshal(vh.J(def), pd); err != nil {
		panic("vh-fixture: " + err.Error())
	}

	_, err := pd.CreateVP([]*verifiable.Credential{x.vc}, w.Loader)
	want := have && !at.Before(bound)

	c.Eval(fmt.Sprintf("dates %s %s %v %v", name, x.form, have, err == nil))
	c.Expect((err == nil) == want, fmt.Sprintf("dates:%v", want), fmt.Sprintf("%s %v against minimum %v: %v", name, x.doc[name], bound, err), M{"definition": def, "credential": x.doc})
}

// issuerCase: the issuer of a JWT credential is its id, whichever way the credential writes it.
func issuerCase(c *vh.Check, r *rand.Rand) {
	x := newCred(r, 1+r.Intn(2), vh.Pick(r, "jwt", "jwt", "sdjwt"), 0)
	id := AsID(x.doc["issuer"])
	ask := vh.Pick(r, id, id, id, w.Ents["other"].DID, id+"#", id[:len(id)-1])
	_, obj := x.doc["issuer"].(M)

	def := M{"id": "issuers", "input_descriptors": L{M{"id": "d", "constraints": M{"fields": L{M{"path": L{vh.Pick(r, "$.issuer", "$.vc.issuer", "$['vc'].issuer", "$['issuer']")},
		"filter": M{"type": "string", "const": ask}}}}}}}

	if x.v == 1 {
		def["input_descriptors"].(L)[0].(M)["schema"] = L{M{"uri": typeIRI["VerifiableCredential"]}}
	}

	path := def["input_descriptors"].(L)[0].(M)["constraints"].(M)["fields"].(L)[0].(M)["path"].(L)[0]
	if path == "$['issuer']" && obj { // this spelling has no compatibility rule
		return
	}

	pd := &presexch.PresentationDefinition{}
	if err := json.Unmarshal(vh.J(def), pd); err != nil {
		panic("vh-fixture: " + err.Error())
	}

	_, err := pd.CreateVP([]*verifiable.Credential{x.vc}, w.Loader)

	c.Eval(fmt.Sprintf("issuer %v %s %v %v", path, x.form, obj, err == nil))
	c.Count("issuer", 1)
	c.Expect((err == nil) == (ask == id), fmt.Sprintf("issuer:%v", ask == id), fmt.Sprintf("%v asked to be %s at %v: %v", x.doc["issuer"], ask, path, err), M{"definition": def, "credential": x.doc})
}

// pathCase: one place of a credential, spelled in the ways a JSON path may be spelled (and in the way that definitions
// used before RFC 9535, with dashes in plain names), among candidates of which one cannot even be written down.
func pathCase(c *vh.Check, r *rand.Rand) {
	v := 1 + r.Intn(2)
	form := vh.Pick(r, "jwt", "jwt", "plain", "cwt")
	names := []string{"credentialSubject", vh.Pick(r, "outer", "sub-part", "sub_part", "a-b-c"), vh.Pick(r, "leaf", "leaf-x", "x-y")}
	val := tok(r)

	doc, _ := document(r, v, "plain", 0)
	subj := M{"id": "did:example:s", names[1]: M{names[2]: val, "extra": "e"}, "rank": 1}
	doc["credentialSubject"] = subj

	var vc *verifiable.Credential

	e := w.Ents["issuer"]
	if AsID(doc["issuer"]) == w.Ents["other"].DID {
		e = w.Ents["other"]
	}

	switch form {
	case "jwt":
		vc = w.ParseVC(w.JWTCred(e, "EdDSA", doc))
	case "cwt":
		vc = w.ParseVC(fmt.Sprintf("%x", w.CWTCred(e, "EdDSA", doc)))
	default:
		vc = w.ParseVC(doc)
	}

	isJWT := form == "jwt"
	want := true
	path := "$"

	if isJWT && r.Intn(2) == 0 { // as definitions name the place in the token
		path += vh.Pick(r, ".vc", "['vc']")
	}

	ask := append([]string{}, names...)

	switch r.Intn(8) {
	case 0:
		ask[2], want = vh.Pick(r, "extra", names[2]+"-z", "Leaf"), false
	case 1:
		ask[1], want = vh.Pick(r, names[1]+"-z", "rank", names[2]), false
	case 2: // twice: there is no such member
		path, want = vh.Pick(r, "$.vc.vc", "$.vc['vc']", "$['vc'].vc", "$['vc']['vc']"), false
	case 3:
		if !isJWT {
			path, want = vh.Pick(r, "$.vc", "$['vc']"), false
		}
	}

	quoted, dashed := false, false

	for _, n := range ask {
		switch {
		case r.Intn(2) == 0 && !dashed || path == "$['vc']" && strings.Contains(n, "-"):
			q := vh.Pick(r, "'", "\"")
			if strings.Contains(n, "-") || quoted { // the old spelling knows one kind of quote
				q = "'"
			}

			path += "[" + q + n + q + "]"
			quoted = true
		default:
			path += "." + n
			dashed = strings.Contains(n, "-") // a bracket may not follow a plain name with a dash
		}
	}

	def := M{"id": "paths", "input_descriptors": L{M{"id": "d", "constraints": M{"fields": L{M{"path": L{path}, "filter": M{"type": "string", "const": val}}}}}}}
	if v == 1 {
		def["input_descriptors"].(L)[0].(M)["schema"] = L{M{"uri": typeIRI["VerifiableCredential"]}}
	}

	pd := &presexch.PresentationDefinition{}
	if err := json.Unmarshal(vh.J(def), pd); err != nil {
		panic("vh-fixture: " + err.Error())
	}

	creds := []*verifiable.Credential{vc}

	if r.Intn(3) == 0 {
		broken, err := verifiable.CreateCredential(vc.Contents(), verifiable.CustomFields{"weight": math.NaN()})
		if err != nil {
			panic("vh-fixture: " + err.Error())
		}

		creds = append(creds, broken)

		if r.Intn(2) == 0 {
			creds[0], creds[1] = creds[1], creds[0]
		}
	}

	for k := 0; k < 4; k++ { // always the same answer
		vp, err := pd.CreateVP(creds, w.Loader)
		if !c.Expect((err == nil) == want, fmt.Sprintf("paths:%v", want), fmt.Sprintf("%s credential, value at %v, path %s: %v (try %d, %d candidates)", form, names, path, err, k, len(creds)),
			M{"definition": def, "credential": doc}) {
			break
		}

		if err == nil {
			got := vp.Credentials()
			c.Expect(len(got) == 1 && got[0].Contents().ID == vc.Contents().ID, "paths:other", fmt.Sprintf("%d credentials in the presentation for path %s", len(got), path), def)
		}
	}

	c.Count(fmt.Sprintf("paths.%v", want), 1)
	c.Eval(fmt.Sprintf("paths %s %s %v %v %d", form, path, names, want, len(creds)))
}
