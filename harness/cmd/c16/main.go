// C16: submission requirements are decided exactly as written.
package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"math/rand"
	"sort"
	"strings"

	"github.com/trustbloc/vc-go/presexch"
	"github.com/trustbloc/vc-go/verifharness/vh"
	"github.com/trustbloc/vc-go/verifiable"
)

type M = map[string]interface{}

var w *vh.World

func main() {
	vh.Main(vh.Spec{
		ID: "C16",
		Rule: "definitions with 1..6 descriptors in overlapping groups under random requirement trees (depth up to 3, all/pick with count, min and max inside and outside the " +
			"possible range; v1 and v2 descriptors) and, exhaustively, every single requirement over up to 3 descriptors with all bounds 0..4; for each, a random (or every) set of " +
			"satisfiable descriptors, each satisfied by 1..2 credentials. The oracle evaluates the tree over all subsets of the satisfiable descriptors. CreateVP and CreateVPArray succeed " +
			"exactly when a non-empty subset meets it, and their submission names such a subset, each mapping pointing at a credential of that descriptor; MatchSubmissionRequirement " +
			"mirrors the tree and the satisfying credentials; Match of presentations carrying arbitrary subsets (built by hand, and serialised and parsed) accepts exactly the " +
			"subsets that meet it. Distinct: (entry point, shape of the tree, number of satisfiable descriptors, verdict).",
		Level: "exploration",
		Require: map[string]int64{"create.ok": 900, "create.refused": 900, "mirror": 1200, "match.accepted": 900, "match.refused": 900, "roundtrip": 700,
			"depth3": 300, "exhaustive": 1700, "empty-group": 50, "overlap": 500},
		Assumptions: []string{"bounds of zero are the same as absent bounds (the library's data types do not tell them apart)",
			"a presentation with no credential at all is never a submission, even when the requirements allow picking nothing"},
		Run: run,
	})
}

func run(c *vh.Check) {
	w = vh.NewWorld("issuer", "holder")

	c.Cases("tree", c.N(3000, 40000), func(r *rand.Rand, _ int) { treeCase(c, r) })
	c.Cases("exhaustive", c.N(3*125, 5*216), func(r *rand.Rand, i int) { exhaustive(c, r, i) })
	c.Cases("empty-group", c.N(60, 600), func(r *rand.Rand, _ int) { emptyGroup(c, r) })
}

// ---- model ----

type req struct {
	Rule            string
	Count, Min, Max int
	From            string
	Nested          []*req
	Name            string
}

func (q *req) json() M {
	m := M{"rule": q.Rule}
	if q.Name != "" {
		m["name"] = q.Name
		m["purpose"] = "purpose of " + q.Name
	}

	for k, v := range map[string]int{"count": q.Count, "min": q.Min, "max": q.Max} {
		if v != 0 {
			m[k] = v
		}
	}

	if q.From != "" {
		m["from"] = q.From
	} else {
		l := []interface{}{}
		for _, n := range q.Nested {
			l = append(l, n.json())
		}

		m["from_nested"] = l
	}

	return m
}

func (q *req) shape() string {
	s := fmt.Sprintf("%s%d/%d/%d", q.Rule[:1], q.Count, q.Min, q.Max)
	if q.From == "" {
		var l []string
		for _, n := range q.Nested {
			l = append(l, n.shape())
		}

		s += "[" + strings.Join(l, " ") + "]"
	}

	return s
}

func (q *req) depth() int {
	d := 0
	for _, n := range q.Nested {
		if x := n.depth(); x > d {
			d = x
		}
	}

	return d + 1
}

type desc struct {
	id     string
	groups []string
	field  string
	creds  []*verifiable.Credential
}

type problem struct {
	descs []*desc
	tops  []*req // none: every descriptor is required
	v1    bool
	pd    *presexch.PresentationDefinition
	creds []*verifiable.Credential
	sat   []string                   // ids of satisfiable descriptors
	owner map[string]map[string]bool // credential id -> descriptors it satisfies
}

func in(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}

	return false
}

// holds evaluates one requirement over a set of submitted descriptors.
func (p *problem) holds(q *req, set map[string]bool) bool {
	n, total := 0, 0

	if q.From != "" {
		for _, d := range p.descs {
			if in(d.groups, q.From) {
				total++

				if set[d.id] {
					n++
				}
			}
		}
	} else {
		for _, x := range q.Nested {
			total++

			if p.holds(x, set) {
				n++
			}
		}
	}

	ok := true
	if q.Rule == "all" {
		ok = n == total
	} else if q.Count > 0 {
		ok = n == q.Count
	}

	if q.Min > 0 {
		ok = ok && n >= q.Min
	}

	if q.Max > 0 {
		ok = ok && n <= q.Max
	}

	return ok
}

func (p *problem) met(set map[string]bool) bool {
	if len(p.tops) == 0 {
		for _, d := range p.descs {
			if !set[d.id] {
				return false
			}
		}

		return true
	}

	for _, q := range p.tops {
		if !p.holds(q, set) {
			return false
		}
	}

	return true
}

// named tells whether a requirement reaches the descriptor.
func (p *problem) named(q *req, d *desc) bool {
	if q.From != "" {
		return in(d.groups, q.From)
	}

	for _, x := range q.Nested {
		if p.named(x, d) {
			return true
		}
	}

	return false
}

func subsets(ids []string) []map[string]bool {
	var out []map[string]bool

	for b := 0; b < 1<<len(ids); b++ {
		s := map[string]bool{}

		for i, id := range ids {
			if b>>i&1 == 1 {
				s[id] = true
			}
		}

		out = append(out, s)
	}

	return out
}

func setOf(ids []string) map[string]bool {
	s := map[string]bool{}
	for _, id := range ids {
		s[id] = true
	}

	return s
}

func keys(s map[string]bool) []string {
	l := []string{}

	for k, v := range s {
		if v {
			l = append(l, k)
		}
	}

	sort.Strings(l)

	return l
}

// solvable: some non-empty subset of the satisfiable descriptors the requirements speak of meets them.
func (p *problem) solvable() bool {
	var ids []string

	for _, d := range p.descs {
		reached := len(p.tops) == 0
		for _, q := range p.tops {
			reached = reached || p.named(q, d)
		}

		if reached && in(p.sat, d.id) {
			ids = append(ids, d.id)
		}
	}

	for _, s := range subsets(ids) {
		if len(s) > 0 && p.met(s) {
			return true
		}
	}

	return false
}

// ---- building ----

func (p *problem) build(r *rand.Rand, satisfiable func(i int) bool) {
	dl := []interface{}{}

	p.owner = map[string]map[string]bool{}

	for i, d := range p.descs {
		m := M{"id": d.id}
		if r.Intn(3) == 0 {
			m["name"], m["purpose"] = "name of "+d.id, "because"
		}

		if len(d.groups) > 0 {
			m["group"] = d.groups
		}

		path := "$." + d.field
		if i%2 == 1 {
			path = "$.credentialSubject." + d.field
		}

		m["constraints"] = M{"fields": []interface{}{M{"path": []interface{}{path}}}}

		if p.v1 {
			m["schema"] = []interface{}{M{"uri": "https://www.w3.org/2018/credentials#VerifiableCredential"}}
		}

		dl = append(dl, m)
	}

	r.Shuffle(len(dl), func(i, j int) { dl[i], dl[j] = dl[j], dl[i] })

	def := M{"id": "def-" + vh.SafeStr(r), "input_descriptors": dl}

	if p.tops != nil {
		l := []interface{}{}
		for _, q := range p.tops {
			l = append(l, q.json())
		}

		def["submission_requirements"] = l
	}

	p.pd = &presexch.PresentationDefinition{}
	if err := json.Unmarshal(vh.J(def), p.pd); err != nil {
		panic("vh-fixture: " + err.Error())
	}

	n := 0

	for i, d := range p.descs {
		if !satisfiable(i) {
			continue
		}

		p.sat = append(p.sat, d.id)

		for k := 0; k < 1+r.Intn(2); k++ {
			fields := []int{i}

			if n > 0 && r.Intn(6) == 0 { // one credential for two descriptors
				for j := range p.descs {
					if j != i && satisfiable(j) && r.Intn(2) == 0 {
						fields = append(fields, j)

						break
					}
				}
			}

			p.addCred(r, fmt.Sprintf("urn:vc:%d", n), fields)
			n++
		}
	}

	for k := 0; k < r.Intn(3); k++ { // bystanders
		p.addCred(r, fmt.Sprintf("urn:vc:%d", n), nil)
		n++
	}

	r.Shuffle(len(p.creds), func(i, j int) { p.creds[i], p.creds[j] = p.creds[j], p.creds[i] })
}

func (p *problem) addCred(r *rand.Rand, id string, fields []int) {
	subj := M{"id": "did:test:s", "other": vh.SafeStr(r)}
	doc := M{"@context": []interface{}{vh.CtxV1}, "id": id, "type": []interface{}{"VerifiableCredential"}, "issuer": w.Ents["issuer"].DID,
		"issuanceDate": "2022-01-01T00:00:00Z", "credentialSubject": subj}

	own := map[string]bool{}

	for _, i := range fields {
		d := p.descs[i]
		if i%2 == 1 {
			subj[d.field] = vh.SafeStr(r)
		} else {
			doc[d.field] = vh.SafeStr(r)
		}

		own[d.id] = true
	}

	vc, err := verifiable.ParseCredential(vh.J(doc), w.Lax()...)
	if err != nil {
		panic("vh-fixture: " + err.Error())
	}

	for _, i := range fields {
		p.descs[i].creds = append(p.descs[i].creds, vc)
	}

	p.owner[id] = own
	p.creds = append(p.creds, vc)
}

// ---- random trees ----

func tree(r *rand.Rand, groups []string, sizes map[string]int, depth int) *req {
	q := &req{Rule: vh.Pick(r, "all", "pick", "pick")}

	if r.Intn(3) == 0 {
		q.Name = vh.Name(r, r.Intn(9))
	}

	var total int

	if depth > 1 && r.Intn(5) < 3 {
		for i := 0; i < 1+r.Intn(3); i++ {
			q.Nested = append(q.Nested, tree(r, groups, sizes, depth-1))
		}

		total = len(q.Nested)
	} else {
		q.From = groups[r.Intn(len(groups))]
		total = sizes[q.From]
	}

	bound := func() int {
		if r.Intn(8) == 0 {
			return r.Intn(total + 3)
		}

		return 1 + r.Intn(total)
	}

	if q.Rule == "all" {
		if r.Intn(10) == 0 {
			q.Count = bound()
		}

		return q
	}

	switch r.Intn(6) {
	case 0, 1:
		q.Count = bound()
	case 2:
		q.Min = bound()
	case 3:
		q.Max = bound()
	case 4:
		q.Min, q.Max = bound(), bound()

		if q.Min > q.Max && r.Intn(4) != 0 {
			q.Min, q.Max = q.Max, q.Min
		}
	default:
		if r.Intn(3) == 0 {
			q.Count, q.Min, q.Max = bound(), bound(), bound()
		}
	}

	return q
}

func treeCase(c *vh.Check, r *rand.Rand) {
	p := &problem{v1: r.Intn(2) == 0}
	n := 1 + r.Intn(6)
	groups := []string{"A", "B", "C", "D"}[:1+r.Intn(4)]
	sizes := map[string]int{}

	for i := 0; i < n; i++ {
		d := &desc{id: fmt.Sprintf("d%d-%s", i, vh.Name(r, i)), field: fmt.Sprintf("k%d", i)}

		if i < len(groups) && r.Intn(6) == 0 { // called like a group
			d.id = groups[i]
		}

		for _, g := range groups {
			if r.Intn(3) == 0 {
				d.groups = append(d.groups, g)
			}
		}

		if len(d.groups) == 0 && r.Intn(8) != 0 {
			d.groups = []string{groups[r.Intn(len(groups))]}
		}

		for _, g := range d.groups {
			sizes[g]++
		}

		if len(d.groups) > 1 {
			c.Count("overlap", 1)
		}

		p.descs = append(p.descs, d)
	}

	var used []string

	for _, g := range groups {
		if sizes[g] > 0 {
			used = append(used, g)
		}
	}

	if len(used) > 0 && r.Intn(12) != 0 {
		for i := 0; i < 1+r.Intn(3); i++ {
			p.tops = append(p.tops, tree(r, used, sizes, 1+r.Intn(3)))
		}
	}

	weight := 1 + r.Intn(4)
	sat := make([]bool, n)

	for i := range sat {
		sat[i] = r.Intn(5) <= weight
	}

	p.build(r, func(i int) bool { return sat[i] })

	for _, q := range p.tops {
		if q.depth() >= 3 {
			c.Count("depth3", 1)
		}
	}

	p.check(c, r, "tree", 1+r.Intn(3))
}

// exhaustive: one requirement over n descriptors with every bound, over every satisfiable subset.
func exhaustive(c *vh.Check, r *rand.Rand, i int) {
	side := 5
	if c.Thorough {
		side = 6
	}

	cube := side * side * side
	n := 1 + i/cube
	b := i % cube

	nested := c.Thorough && n > 3 // the last two blocks: the same bounds over nested requirements
	if nested {
		n -= 2
	}

	for s := 0; s < 1<<n; s++ {
		p := &problem{v1: s%2 == 0}
		q := &req{Rule: "pick", Count: b % side, Min: b / side % side, Max: b / side / side, From: "G"}

		for k := 0; k < n; k++ {
			g := "G"
			if nested {
				g = fmt.Sprintf("N%d", k)
				q.From = ""
				q.Nested = append(q.Nested, &req{Rule: "all", From: g})
			}

			p.descs = append(p.descs, &desc{id: fmt.Sprintf("d%d", k), groups: []string{g}, field: fmt.Sprintf("k%d", k)})
		}

		p.tops = []*req{q}
		p.build(r, func(i int) bool { return s>>i&1 == 1 })
		p.check(c, r, "exhaustive", 1)
		c.Count("exhaustive", 1)
	}
}

// ---- judging ----

func (p *problem) detail(extra ...interface{}) interface{} {
	return M{"definition": p.pd, "satisfiable": p.sat, "extra": fmt.Sprint(extra...)}
}

func (p *problem) shape() string {
	var l []string
	for _, q := range p.tops {
		l = append(l, q.shape())
	}

	return strings.Join(l, "+")
}

func (p *problem) check(c *vh.Check, r *rand.Rand, fam string, matches int) {
	p.create(c, r)
	p.mirror(c)

	for i := 0; i < matches; i++ {
		p.match(c, r, i)
	}
}

func credID(x interface{}) string {
	m, ok := x.(M)
	if !ok {
		return ""
	}

	return vh.AsStr(m["id"])
}

func (p *problem) create(c *vh.Check, r *rand.Rand) {
	want := p.solvable()
	array := r.Intn(3) == 0

	var (
		vps []*verifiable.Presentation
		sub *presexch.PresentationSubmission
		err error
	)

	name := "CreateVP"
	if array {
		name = "CreateVPArray"
		vps, sub, err = p.pd.CreateVPArray(p.creds, w.Loader)
	} else {
		var vp *verifiable.Presentation

		vp, err = p.pd.CreateVP(p.creds, w.Loader)
		if err == nil {
			vps = []*verifiable.Presentation{vp}
			sub, _ = vp.CustomFields["presentation_submission"].(*presexch.PresentationSubmission)
		}
	}

	c.Eval(fmt.Sprintf("%s %s sat=%d %v", name, p.shape(), len(p.sat), err == nil))

	if !c.Expect((err == nil) == want, fmt.Sprintf("%s:solvable=%v", name, want),
		fmt.Sprintf("%s returned %v, but a choice meeting the requirements exists: %v", name, err, want), p.detail()) {
		return
	}

	if err != nil {
		c.Count("create.refused", 1)
		c.Expect(errors.Is(err, presexch.ErrNoCredentials), name+":error", "unexpected error "+err.Error(), p.detail())

		return
	}

	c.Count("create.ok", 1)

	if !c.Expect(sub != nil && sub.DefinitionID == p.pd.ID, name+":submission", "no submission for the definition", p.detail()) {
		return
	}

	set := map[string]bool{}

	var roots []interface{}

	for _, vp := range vps {
		b, err := vp.MarshalJSON()
		if err != nil {
			c.Violate(name+":marshal", err.Error(), p.detail())

			return
		}

		roots = append(roots, unj(b))
	}

	used := map[string]bool{}

	for _, m := range sub.DescriptorMap {
		set[m.ID] = true

		var vi, ci int

		bad := m.PathNested == nil || m.PathNested.PathNested != nil || m.PathNested.ID != m.ID

		if !bad && array {
			_, e1 := fmt.Sscanf(m.Path, "$[%d]", &vi)
			bad = e1 != nil || m.PathNested.Path != "$.verifiableCredential[0]" || m.Path != fmt.Sprintf("$[%d]", vi)
		} else if !bad {
			_, e1 := fmt.Sscanf(m.PathNested.Path, "$.verifiableCredential[%d]", &ci)
			bad = e1 != nil || m.Path != "$"
		}

		if !c.Expect(!bad, name+":mapping", "unexpected mapping", p.detail(string(vh.J(m)))) {
			return
		}

		var id string

		if vi < len(roots) {
			l := vh.AsList(roots[vi].(M)["verifiableCredential"])
			if ci < len(l) {
				id = credID(l[ci])
			}
		}

		used[fmt.Sprintf("%d/%d", vi, ci)] = true

		c.Expect(p.owner[id][m.ID], name+":points-elsewhere", "a mapping points at a credential that does not satisfy its descriptor",
			p.detail(string(vh.J(sub)), " ", id))
	}

	for vi, root := range roots {
		for ci := range vh.AsList(root.(M)["verifiableCredential"]) {
			c.Expect(used[fmt.Sprintf("%d/%d", vi, ci)], name+":unmapped", "a credential no mapping points at is presented", p.detail(string(vh.J(sub))))
		}
	}

	for id := range set {
		c.Expect(in(p.sat, id), name+":unsatisfiable", "a descriptor without credential is in the submission", p.detail(id))
	}

	if !c.Expect(p.met(set), name+":unmet", "what is submitted does not meet the requirements", p.detail(keys(set))) {
		return
	}

	// every credential of a submitted descriptor is offered
	// what was created is accepted by the other side
	if r.Intn(2) == 0 {
		p.roundtrip(c, vps, sub, array, set)
	}
}

func (p *problem) roundtrip(c *vh.Check, vps []*verifiable.Presentation, sub *presexch.PresentationSubmission, array bool, set map[string]bool) {
	var parsed []*verifiable.Presentation

	for _, vp := range vps {
		b, err := vp.MarshalJSON()
		if err != nil {
			panic("vh-fixture: " + err.Error())
		}

		x, err := verifiable.ParsePresentation(b, w.LaxVP()...)
		if err != nil {
			panic("vh-fixture: " + err.Error())
		}

		parsed = append(parsed, x)
	}

	opts := []presexch.MatchOption{presexch.WithCredentialOptions(w.Lax()...)}
	if array {
		opts = append(opts, presexch.WithMergedSubmission(sub))
	}

	got, err := p.pd.Match(parsed, w.Loader, opts...)
	c.Eval(fmt.Sprintf("roundtrip %v %s", array, p.shape()))

	if c.Expect(err == nil, "Match:own-submission", fmt.Sprintf("a created presentation is refused: %v", err), p.detail(keys(set))) {
		c.Count("roundtrip", 1)
		p.matched(c, got, set)
	}
}

func (p *problem) matched(c *vh.Check, got []*presexch.MatchValue, set map[string]bool) {
	have := map[string]bool{}

	for _, g := range got {
		have[g.DescriptorID] = true
		c.Expect(p.owner[g.Credential.Contents().ID][g.DescriptorID], "Match:foreign", "a matched credential does not satisfy its descriptor", p.detail(g.DescriptorID))
	}

	c.Expect(fmt.Sprint(keys(have)) == fmt.Sprint(keys(set)), "Match:set", "the matched descriptors are not the submitted ones", p.detail(keys(have), keys(set)))
}

// match hands over a presentation with an arbitrary choice of satisfiable descriptors.
func (p *problem) match(c *vh.Check, r *rand.Rand, _ int) {
	set := map[string]bool{}

	// half of the time aim at a set that meets the requirements
	var good []map[string]bool

	if r.Intn(2) == 0 {
		for _, s := range subsets(p.sat) {
			if len(s) > 0 && p.met(s) {
				good = append(good, s)
			}
		}
	}

	if len(good) > 0 {
		set = good[r.Intn(len(good))]
	} else {
		for _, id := range p.sat {
			if r.Intn(2) == 0 {
				set[id] = true
			}
		}
	}

	if len(set) == 0 {
		return
	}

	var (
		creds []interface{}
		maps  []interface{}
	)

	for _, id := range keys(set) {
		for _, d := range p.descs {
			if d.id != id {
				continue
			}

			n := 1
			if r.Intn(4) == 0 {
				n = len(d.creds)
			}

			perm := r.Perm(len(d.creds))
			for _, k := range perm[:n] {
				b, err := d.creds[k].MarshalJSON()
				if err != nil {
					panic("vh-fixture: " + err.Error())
				}

				creds = append(creds, unj(b))
				at := fmt.Sprintf("$.verifiableCredential[%d]", len(creds)-1)

				if r.Intn(2) == 0 {
					maps = append(maps, M{"id": id, "format": "ldp_vc", "path": at})
				} else {
					maps = append(maps, M{"id": id, "format": "ldp_vp", "path": "$", "path_nested": M{"id": id, "format": "ldp_vc", "path": at}})
				}
			}
		}
	}

	r.Shuffle(len(maps), func(i, j int) { maps[i], maps[j] = maps[j], maps[i] })

	doc := M{"@context": []interface{}{vh.CtxV1, presexch.PresentationSubmissionJSONLDContextIRI},
		"type":                    []interface{}{"VerifiablePresentation", "PresentationSubmission"},
		"verifiableCredential":    creds,
		"presentation_submission": M{"id": "sub", "definition_id": p.pd.ID, "descriptor_map": maps}}

	vp, err := verifiable.ParsePresentation(vh.J(doc), w.LaxVP()...)
	if err != nil {
		panic("vh-fixture: " + err.Error())
	}

	got, err := p.pd.Match([]*verifiable.Presentation{vp}, w.Loader, presexch.WithCredentialOptions(w.Lax()...))
	want := p.met(set)

	c.Eval(fmt.Sprintf("Match %s %d/%d %v", p.shape(), len(set), len(p.sat), err == nil))

	if !c.Expect((err == nil) == want, fmt.Sprintf("Match:met=%v", want),
		fmt.Sprintf("Match returned %v for a set of descriptors that meets the requirements: %v", err, want), p.detail(keys(set))) {
		return
	}

	if err != nil {
		c.Count("match.refused", 1)

		return
	}

	c.Count("match.accepted", 1)
	p.matched(c, got, set)
}

// mirror: MatchSubmissionRequirement reports the tree and the credentials.
func (p *problem) mirror(c *vh.Check) {
	got, err := p.pd.MatchSubmissionRequirement(p.creds, w.Loader)
	if !c.Expect(err == nil, "MatchSubmissionRequirement:error", fmt.Sprintf("%v", err), p.detail()) {
		return
	}

	c.Count("mirror", 1)
	c.Eval("MatchSubmissionRequirement " + p.shape())

	tops := p.tops
	if tops == nil {
		c.Expect(len(got) == 1 && got[0].Rule == presexch.All && got[0].Count == len(p.descs) && len(got[0].Nested) == 0,
			"MatchSubmissionRequirement:all", "without requirements one 'all' requirement over every descriptor is expected", p.detail(string(vh.J(got))))

		if len(got) == 1 {
			p.mirrorDescs(c, got[0].Descriptors, func(*desc) bool { return true })
		}

		return
	}

	if !c.Expect(len(got) == len(tops), "MatchSubmissionRequirement:number", "number of requirements differs", p.detail()) {
		return
	}

	for i, q := range tops {
		p.mirrorReq(c, got[i], q)
	}
}

func (p *problem) mirrorReq(c *vh.Check, g *presexch.MatchedSubmissionRequirement, q *req) {
	count := q.Count

	if q.Rule == "all" {
		count = len(q.Nested)

		if q.From != "" {
			for _, d := range p.descs {
				if in(d.groups, q.From) {
					count++
				}
			}
		}
	}

	purpose := ""
	if q.Name != "" {
		purpose = "purpose of " + q.Name
	}

	c.Expect(g.Name == q.Name && g.Purpose == purpose && string(g.Rule) == q.Rule && g.Count == count && g.Min == q.Min && g.Max == q.Max,
		"MatchSubmissionRequirement:attributes", "a requirement is reported with other attributes", p.detail(q.shape(), " ", g.Name, g.Rule, g.Count, g.Min, g.Max))

	if q.From != "" {
		c.Expect(len(g.Nested) == 0, "MatchSubmissionRequirement:nested", "a leaf has nested requirements", p.detail())
		p.mirrorDescs(c, g.Descriptors, func(d *desc) bool { return in(d.groups, q.From) })

		return
	}

	if !c.Expect(len(g.Nested) == len(q.Nested) && len(g.Descriptors) == 0, "MatchSubmissionRequirement:nested", "nested requirements differ", p.detail()) {
		return
	}

	for i, x := range q.Nested {
		p.mirrorReq(c, g.Nested[i], x)
	}
}

func (p *problem) mirrorDescs(c *vh.Check, got []*presexch.MatchedInputDescriptor, want func(*desc) bool) {
	seen := map[string]bool{}

	for _, g := range got {
		seen[g.ID] = true

		var ids, exp []string
		for _, vc := range g.MatchedVCs {
			ids = append(ids, vc.Contents().ID)
		}

		for _, vc := range p.creds { // in the order given
			if p.owner[vc.Contents().ID][g.ID] {
				exp = append(exp, vc.Contents().ID)
			}
		}

		c.Expect(fmt.Sprint(ids) == fmt.Sprint(exp), "MatchSubmissionRequirement:credentials", "the matching credentials differ", p.detail(g.ID, ids, exp))
	}

	for _, d := range p.descs {
		c.Expect(seen[d.id] == want(d), "MatchSubmissionRequirement:descriptors", "the descriptors of a requirement differ", p.detail(d.id))
	}
}

// emptyGroup: a requirement over a group no descriptor is in cannot be met.
func emptyGroup(c *vh.Check, r *rand.Rand) {
	p := &problem{v1: r.Intn(2) == 0}
	for i := 0; i < 1+r.Intn(3); i++ {
		p.descs = append(p.descs, &desc{id: fmt.Sprintf("d%d", i), groups: []string{"A"}, field: fmt.Sprintf("k%d", i)})
	}

	bad := &req{Rule: "pick", Count: 1, From: "Z"}
	if r.Intn(2) == 0 {
		bad = &req{Rule: "pick", Min: 1, From: vh.Pick(r, "a", "A ", "Z")}
	}

	switch r.Intn(3) {
	case 0:
		p.tops = []*req{bad}
	case 1:
		p.tops = []*req{{Rule: "all", From: "A"}, bad}
	default:
		p.tops = []*req{{Rule: "all", Nested: []*req{{Rule: "pick", Count: 1, From: "A"}, bad}}}
	}

	p.build(r, func(int) bool { return true })

	_, err := p.pd.CreateVP(p.creds, w.Loader)
	c.Eval("empty-group create " + p.shape())
	c.Expect(err != nil, "empty-group:CreateVP", "a requirement over an unknown group is taken as met", p.detail())

	p.matchAll(c)
	c.Count("empty-group", 1)
}

func (p *problem) matchAll(c *vh.Check) {
	var creds, maps []interface{}

	for i, d := range p.descs {
		b, _ := d.creds[0].MarshalJSON()
		creds = append(creds, unj(b))
		maps = append(maps, M{"id": d.id, "format": "ldp_vc", "path": fmt.Sprintf("$.verifiableCredential[%d]", i)})
	}

	doc := M{"@context": []interface{}{vh.CtxV1, presexch.PresentationSubmissionJSONLDContextIRI},
		"type":                    []interface{}{"VerifiablePresentation", "PresentationSubmission"},
		"verifiableCredential":    creds,
		"presentation_submission": M{"id": "sub", "definition_id": p.pd.ID, "descriptor_map": maps}}

	vp, err := verifiable.ParsePresentation(vh.J(doc), w.LaxVP()...)
	if err != nil {
		panic("vh-fixture: " + err.Error())
	}

	_, err = p.pd.Match([]*verifiable.Presentation{vp}, w.Loader, presexch.WithCredentialOptions(w.Lax()...))
	c.Eval("empty-group match " + p.shape())
	c.Expect(err != nil, "empty-group:Match", "a requirement over an unknown group is taken as met", p.detail())
}

func unj(b []byte) interface{} {
	var x interface{}
	if err := json.Unmarshal(b, &x); err != nil {
		panic("vh-fixture: " + err.Error())
	}

	return x
}
