// C23: BBS+ selective disclosure reveals only the frame and stays verifiable.
package main

import (
	"encoding/base64"
	"fmt"
	"math/rand"
	"strings"

	"github.com/trustbloc/bbs-signature-go/bbs12381g2pub"
	"github.com/trustbloc/did-go/doc/ld/processor"

	"github.com/trustbloc/vc-go/verifharness/vh"
	"github.com/trustbloc/vc-go/verifiable"
)

type M = map[string]interface{}
type L = []interface{}

var w *vh.World

func main() {
	vh.Main(vh.Spec{
		ID: "C23",
		Rule: "random BBS+ signed credentials (1..2 signatures, beside other proofs; named and blank nodes, lists of values and objects, every literal type, IRIs sorting before and after " +
			"blank node labels, awkward text, challenge and domain in the proof) x random frames (explicit and not, nested, members the credential does not have) x nonces: the derived " +
			"credential has exactly the framed claims with their values (every claim carries a unique token: hidden ones occur nowhere in its bytes), it verifies, it is derived again " +
			"with another nonce, the source stays as it was, and every altered claim, member of the proof, proof byte, swapped proof or added or removed claim makes verification fail. " +
			"Distinct: (shape of the document, shape of the frame), (alteration, place).",
		Level:   "exploration",
		Require: map[string]int64{"derived": 120, "verified": 120, "tokens.shown": 300, "tokens.hidden": 500, "refused": 700, "blank": 40, "named": 60, "signatures.two": 10, "foreign": 30, "foreign.literal": 20, "bound": 30, "awkward": 10},
		Assumptions: []string{"objects below objects without an id are outside the property: the framing of did-go loses them",
			"numbers and booleans come back as typed literals of the same value (did-go frames through RDF)"},
		Run: run,
	})
}

func run(c *vh.Check) {
	w = vh.NewWorld("issuer", "other")
	w.PrepareLD()

	c.Cases("derive", c.N(240, 3200), func(r *rand.Rand, _ int) { one(c, r) })
	c.Cases("foreign", c.N(60, 800), func(r *rand.Rand, _ int) { foreign(c, r) })
}

func parse(b []byte) error {
	_, err := verifiable.ParseCredential(b, verifiable.WithProofChecker(w.Checker), verifiable.WithJSONLDDocumentLoader(w.Loader), verifiable.WithCredDisableValidation())

	return err
}

// frame picks members of a node and what is expected of it.
func frame(r *rand.Rand, node M, top bool) (fr, want M, shape string) {
	fr, want = M{}, M{}
	explicit := r.Intn(6) != 0

	for _, k := range []string{"id", "type"} {
		if node[k] != nil {
			want[k] = node[k]
		}
	}

	if explicit {
		fr["@explicit"] = true
		shape = "!"
	}

	for _, k := range vh.SortedKeys(node) {
		if k == "id" || k == "type" || k == "@context" || k == "proof" {
			continue
		}

		keep := top && (k == "issuer" || k == "issuanceDate" || k == "credentialSubject")
		if !keep && r.Intn(2) == 0 {
			if !explicit {
				want[k] = node[k]
			}

			continue
		}

		shape += k[:1]

		switch x := node[k].(type) {
		case M:
			if r.Intn(4) == 0 && !top {
				fr[k], want[k] = M{}, x

				continue
			}

			f, n, s := frame(r, x, false)
			shape += "(" + s + ")"
			fr[k], want[k] = f, n
		case L:
			objs := false
			for _, e := range x {
				_, ok := e.(M)
				objs = objs || ok
			}

			// a list of subjects cannot hold subjects of which nothing but the id is left
			if !objs || r.Intn(3) == 0 || k == "credentialSubject" {
				fr[k], want[k] = M{}, x

				continue
			}

			// one frame for all the elements
			// (an element without a member that the frame names is not taken)
			all := vh.CloneM(x[0].(M))

			for mk, mv := range all {
				if _, ok := mv.(M); ok {
					all[mk] = true
				}

				for _, e := range x {
					if _, ok := e.(M)[mk]; !ok {
						delete(all, mk)
					}
				}
			}

			f, _, s := frame(r, all, false)
			shape += "[" + s + "]"
			fr[k] = f

			var l L
			for _, e := range x {
				l = append(l, apply(f, e.(M)))
			}

			want[k] = l
		default:
			fr[k], want[k] = M{}, x
		}
	}

	if top && r.Intn(4) == 0 {
		fr["missing"] = M{}
		shape += "?"
	}

	return fr, want, shape
}

// apply gives the members of a node a frame asks for.
func apply(f, node M) M {
	out := M{}

	for k, v := range node {
		switch sub, ok := f[k].(M); {
		case k == "id" || k == "type":
			out[k] = v
		case ok:
			if m, isM := v.(M); isM && len(sub) > 0 {
				out[k] = apply(sub, m)
			} else {
				out[k] = v
			}
		case f["@explicit"] != true:
			out[k] = v
		}
	}

	return out
}

func tokens(v interface{}) []string {
	var out []string

	b := string(vh.J(v))
	for i := strings.Index(b, "tk"); i >= 0; i = strings.Index(b, "tk") {
		if len(b) >= i+11 {
			out = append(out, b[i:i+11])
		}

		b = b[i+2:]
	}

	return out
}

func one(c *vh.Check, r *rand.Rand) {
	e := w.Ents["issuer"]
	doc := w.BBSDoc(r, e.DID)
	src := vh.CloneM(doc)
	n := 1

	if r.Intn(6) == 0 {
		n = 2
	}

	sign := func(s vh.LDSuite) bool {
		lc := w.LDContext(r, e, s)

		if lc.Challenge != "" || lc.Domain != "" {
			c.Count("bound", 1)
		}

		d, err := w.LDSign(src, lc)
		if err != nil {
			c.Count("unsigned", 1)

			return false
		}

		src = d

		return true
	}

	for i := 0; i < n; i++ {
		if !sign(vh.BBSSuite()) {
			return
		}
	}

	if n == 2 {
		c.Count("signatures.two", 1)
	}

	if r.Intn(6) == 0 {
		sign(vh.LDSuites[0])
	}

	vc := w.ParseVC(src)
	before := string(vh.J(vc.ToRawJSON()))

	fr, want, shape := frame(r, doc, true)
	fr["@context"] = doc["@context"]
	fr["type"] = vh.Pick[interface{}](r, "VerifiableCredential", doc["type"])
	want["type"] = doc["type"]

	if r.Intn(3) == 0 {
		fr["id"] = doc["id"]
	}

	frBefore := string(vh.J(fr))
	nonce := make([]byte, r.Intn(40))
	r.Read(nonce)

	detail := func(x ...interface{}) interface{} { return M{"1": fmt.Sprint(x...), "frame": fr, "source": src} }

	out, err := vc.GenerateBBSSelectiveDisclosure(fr, nonce, w.BBSProofCreator(e), w.Lax()...)
	c.Eval("derive " + shapeOf(doc) + " " + shape)

	if !c.Expect(err == nil, "derive:error", fmt.Sprintf("deriving failed: %v", err), detail()) {
		return
	}

	c.Count("derived", 1)
	c.Expect(string(vh.J(vc.ToRawJSON())) == before, "source:changed", "deriving changed the source credential", detail())
	c.Expect(string(vh.J(fr)) == frBefore, "frame:changed", "deriving changed the frame", detail(frBefore))

	b, err := out.MarshalJSON()
	if !c.Expect(err == nil, "marshal", fmt.Sprint(err), detail()) {
		return
	}

	got := vh.M(b)
	a, z := vh.BBSCanon(want), vh.BBSCanon(got)
	c.Expect(string(vh.J(a)) == string(vh.J(z)), "claims", "the derived credential does not have exactly the framed claims: "+vh.Diff(a, z), detail(string(b)))

	wanted := map[string]bool{}
	for _, t := range tokens(want) {
		wanted[t] = true
		c.Count("tokens.shown", 1)
	}

	for _, t := range tokens(doc) {
		if !wanted[t] {
			c.Count("tokens.hidden", 1)
			c.Expect(!strings.Contains(string(b), t), "leak", "a claim outside the frame occurs in the derived credential: "+t, detail(string(b)))
		}
	}

	err = parse(b)
	if !c.Expect(err == nil, "verify", fmt.Sprintf("the derived credential does not verify: %v", err), detail(string(b))) {
		return
	}

	c.Count("verified", 1)

	switch {
	case strings.Contains(string(b), "urn:bnid"):
		c.Count("blank", 1)
	default:
		c.Count("named", 1)
	}

	if strings.Contains(string(b), "\\") || strings.Contains(string(b), "_:c14n0\"") {
		c.Count("awkward", 1)
	}

	proofs := vh.Proofs(got)
	c.Expect(len(proofs) == n, "proofs:number", fmt.Sprintf("%d proofs instead of %d", len(proofs), n), detail(string(b)))

	for _, p := range proofs {
		c.Expect(p["type"] == "BbsBlsSignatureProof2020" && p["nonce"] == base64.StdEncoding.EncodeToString(nonce), "proofs:shape", "the proof is of another type or nonce", detail(string(b)))
	}

	c.Sample(fmt.Sprintf("frame %s -> %s", cut(vh.J(fr)), cut(vh.J(vh.Without(got, "proof")))))
	tamper(c, r, got, want, detail)

	// a second derivation: the proofs are not interchangeable
	nonce2 := append(append([]byte{}, nonce...), 1)
	out2, err := vc.GenerateBBSSelectiveDisclosure(fr, nonce2, w.BBSProofCreator(e), w.Lax()...)

	if !c.Expect(err == nil, "derive:again", fmt.Sprint(err), detail()) {
		return
	}

	b2, _ := out2.MarshalJSON()
	m2 := vh.M(b2)
	c.Expect(parse(b2) == nil, "verify:again", "the second derived credential does not verify", detail(string(b2)))
	c.Expect(vh.Proofs(m2)[0]["proofValue"] != proofs[0]["proofValue"], "proof:linkable", "two derived proofs are the same", detail())

	x := vh.CloneM(got)
	vh.Proofs(x)[0]["nonce"] = vh.Proofs(m2)[0]["nonce"]
	refuse(c, "nonce:other", x, detail)
}

func cut(b []byte) string {
	if len(b) > 700 {
		b = b[:700]
	}

	return string(b)
}

func shapeOf(v interface{}) string {
	switch x := v.(type) {
	case M:
		s := "{"

		for _, k := range vh.SortedKeys(x) {
			if k == "@context" || k == "type" {
				continue
			}

			s += k[:1] + shapeOf(x[k])
		}

		return s + "}"
	case L:
		s := "["
		for _, e := range x {
			s += shapeOf(e)
		}

		return s + "]"
	case string:
		return "s"
	case float64:
		return "n"
	default:
		return "b"
	}
}

func refuse(c *vh.Check, key string, m M, detail func(...interface{}) interface{}) {
	var err error

	panicked, site, val := vh.Guard(func() { err = parse(vh.J(m)) })

	c.Eval("refuse " + key)
	c.Count("refused", 1)
	c.Expect(!panicked, "panic:"+key, fmt.Sprintf("%v at %s", val, site), detail(string(vh.J(m))))
	c.Expect(panicked || err != nil, "accepted:"+key, "an altered derived credential verifies", detail(string(vh.J(m))))
}

// foreign checks the verifier on proofs that are derived here, from the statements of a credential without blank nodes.
func foreign(c *vh.Check, r *rand.Rand) {
	e := w.Ents["issuer"]
	iri := func() string {
		return vh.Pick(r, "urn:uuid:", "https://z.example/", "http://a.example/") + vh.BBSTok(r)
	}
	subj := M{"id": iri()}

	for i := 0; i < 3+r.Intn(5); i++ {
		subj[fmt.Sprintf("m%d", i)] = vh.BBSTok(r)
	}

	awkward := vh.Pick(r, "", " _:c14n0", " <urn:bnid:_:c14n0>", "_:c14n7 _:c14n0", "\"_:c14n1\"", "\" <urn:bnid:_:c14n0> \\")
	subj["m1"] = vh.BBSTok(r) + awkward

	if r.Intn(2) == 0 {
		subj["address"] = M{"id": iri(), "street": vh.BBSTok(r), "zip": vh.BBSTok(r)}
	}

	doc := M{"@context": L{vh.CtxV1, vh.CtxBBS, M{"@vocab": "https://voc.example/v#"}}, "id": iri(), "type": L{"VerifiableCredential"},
		"issuer": e.DID, "issuanceDate": vh.Time(r), "credentialSubject": subj}

	src, err := w.LDSign(doc, w.LDContext(r, e, vh.BBSSuite()))
	if err != nil {
		return
	}

	proof := vh.Proofs(src)[0]
	opts := vh.CloneM(proof)
	delete(opts, "proofValue")
	opts["@context"] = "https://w3id.org/security/v2"
	opts["type"] = "https://w3id.org/security#BbsBlsSignature2020"

	shown := vh.CloneM(vh.Without(src, "proof"))

	for _, k := range vh.SortedKeys(subj) {
		if k != "id" && k != "m1" && r.Intn(2) == 0 {
			delete(shown["credentialSubject"].(M), k)
		}
	}

	head, all, some := lines(opts), lines(vh.Without(src, "proof")), lines(shown)
	at := map[string]int{}

	for i, s := range all {
		at[s] = i
	}

	var reveal []int
	for i := range head {
		reveal = append(reveal, i)
	}

	for _, s := range some {
		i, ok := at[s]
		if !ok {
			panic("vh-fixture: statement " + s)
		}

		reveal = append(reveal, len(head)+i)
	}

	var msgs [][]byte
	for _, s := range append(append([]string{}, head...), all...) {
		msgs = append(msgs, []byte(s))
	}

	sig, err := base64.RawURLEncoding.DecodeString(vh.AsStr(proof["proofValue"]))
	if err != nil {
		panic("vh-fixture: " + err.Error())
	}

	nonce := []byte(vh.SafeStr(r))
	pub := e.Keys["BBS"].Bytes

	pv, err := bbs12381g2pub.New().DeriveProof(msgs, sig, nonce, pub, reveal)
	if err != nil {
		panic("vh-fixture: " + err.Error())
	}

	derived := vh.CloneM(shown)
	p := vh.CloneM(proof)
	p["type"], p["nonce"], p["proofValue"] = "BbsBlsSignatureProof2020", base64.StdEncoding.EncodeToString(nonce), base64.StdEncoding.EncodeToString(pv)
	derived["proof"] = p

	detail := func(x ...interface{}) interface{} { return M{"1": fmt.Sprint(x...), "source": src} }

	c.Eval(fmt.Sprintf("foreign %d of %d %q", len(reveal), len(msgs), awkward))

	err = parse(vh.J(derived))
	if !c.Expect(err == nil, "foreign:verify", fmt.Sprintf("a proof derived elsewhere does not verify: %v", err), detail(string(vh.J(derived)))) {
		return
	}

	c.Count("foreign", 1)

	// literals that look like blank nodes are not blank nodes
	for _, pair := range [][2]string{{"_:c14n", "<urn:bnid:_:c14n"}, {"<urn:bnid:_:c14n0>", "_:c14n0"}, {"_:c14n0", "<urn:bnid:_:c14n0>"}, {"_:c14n1", "<urn:bnid:_:c14n1>"}} {
		m := vh.CloneM(derived)
		s := m["credentialSubject"].(M)
		old := vh.AsStr(s["m1"])
		s["m1"] = strings.ReplaceAll(old, pair[0], pair[1])

		if s["m1"] != old {
			c.Count("foreign.literal", 1)
			refuse(c, "literal", m, detail)
		}
	}

	// hidden claims cannot be added, shown ones not removed
	for _, k := range vh.SortedKeys(subj) {
		m := vh.CloneM(derived)
		s := m["credentialSubject"].(M)

		if k == "id" {
			continue
		}

		if _, ok := s[k]; ok {
			delete(s, k)
			refuse(c, "foreign:remove", m, detail)
		} else {
			s[k] = subj[k]
			refuse(c, "foreign:unhide", m, detail)
		}
	}
}

func lines(doc M) []string {
	b, err := processor.Default().GetCanonicalDocument(vh.CloneM(doc), processor.WithDocumentLoader(w.Loader))
	if err != nil {
		panic("vh-fixture: " + err.Error())
	}

	return strings.Split(strings.TrimRight(string(b), "\n"), "\n")
}

// tamper alters a derived credential in ways that change what it says.
func tamper(c *vh.Check, r *rand.Rand, got, want M, detail func(...interface{}) interface{}) {
	body := vh.Without(got, "proof", "@context")

	ls := vh.Leaves(body)
	r.Shuffle(len(ls), func(i, j int) { ls[i], ls[j] = ls[j], ls[i] })

	for i, p := range ls {
		if i == 6 {
			break
		}

		v := vh.Get(body, p)
		if v == nil {
			continue
		}

		m := vh.CloneM(got)
		last := fmt.Sprint(p[len(p)-1])

		switch x := v.(type) {
		case string:
			if strings.HasPrefix(x, "urn:bnid:") || strings.HasPrefix(x, "http://www.w3.org/2001/XMLSchema") {
				continue
			}

			vh.Set(m, p, x+"x")
		case float64:
			vh.Set(m, p, x+1)
		case bool:
			vh.Set(m, p, !x)
		}

		refuse(c, "alter:"+kind(p), m, detail)

		if last == "@value" {
			continue
		}

		m = vh.CloneM(got)

		if i, ok := p[len(p)-1].(int); ok {
			l := vh.Get(m, p[:len(p)-1]).(L)
			vh.Set(m, p[:len(p)-1], append(append(L{}, l[:i]...), l[i+1:]...))
		} else {
			vh.Del(m, p)
		}

		refuse(c, "remove:"+kind(p), m, detail)
	}

	m := vh.CloneM(got)
	m["more"] = "claim"
	refuse(c, "add", m, detail)

	if s, ok := m["credentialSubject"].(M); ok {
		m = vh.CloneM(got)
		m["credentialSubject"] = vh.CloneM(s)
		m["credentialSubject"].(M)["more"] = true
		refuse(c, "add:subject", m, detail)
	}

	for i := range vh.Proofs(got) {
		for _, k := range []string{"created", "proofPurpose", "verificationMethod", "nonce", "proofValue", "type", "challenge", "domain"} {
			m := vh.CloneM(got)
			p := vh.Proofs(m)[i]

			old, _ := p[k].(string)

			switch k {
			case "created":
				p[k] = "2001-02-03T04:05:06Z"
			case "proofPurpose":
				p[k] = "authentication"
				if old == "authentication" {
					p[k] = "assertionMethod"
				}
			case "verificationMethod":
				p[k] = strings.Replace(old, "issuer", "other", 1)
			case "nonce":
				b, _ := base64.StdEncoding.DecodeString(old)
				if len(b) == 0 {
					b = []byte{0}
				}

				b[r.Intn(len(b))] ^= 1 << r.Intn(8)
				p[k] = base64.StdEncoding.EncodeToString(b)
			case "proofValue":
				b, _ := base64.StdEncoding.DecodeString(old)
				b[r.Intn(len(b))] ^= 1 << r.Intn(8)
				p[k] = base64.StdEncoding.EncodeToString(b)
			case "type":
				p[k] = "BbsBlsSignature2020"
			default:
				p[k] = old + "x"
			}

			refuse(c, "proof:"+k, m, detail)
		}
	}

}

func kind(p vh.Path) string {
	s := ""

	for _, x := range p {
		if k, ok := x.(string); ok {
			s += "." + k
		} else {
			s += "[]"
		}
	}

	return s
}
