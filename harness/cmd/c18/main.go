// C18: validation accepts the data model and rejects deviations.
package main

import (
	"encoding/base64"
	"encoding/hex"
	"fmt"
	"math/rand"
	"sort"
	"strings"

	"github.com/piprate/json-gold/ld"

	"github.com/trustbloc/vc-go/verifharness/vh"
	"github.com/trustbloc/vc-go/verifiable"
)

type (
	M = map[string]interface{}
	L = []interface{}
)

const (
	ctxTerms = "https://verif.example/terms/v1"
	ctxMore  = "https://verif.example/more/v1"
	ctxOther = "https://other.example/ctx/v1"
)

var w *vh.World

func main() {
	vh.Main(vh.Spec{
		ID: "C18",
		Rule: "valid credentials and presentations of both data models are made at random, then altered in exactly one place (mandatory member missing, null, of another type, empty, " +
			"nearly right; contexts and types added, moved, misspelt; typed members losing a part; undefined terms at every depth), and given to every entry point (ParseCredential, " +
			"ParseCredentialJSON, the CWT form as bytes, hex or envelope, ValidateCredential after an unvalidated parse of JSON or a JWT, ParsePresentation) under every validation mode. What has to be refused follows from the alteration, " +
			"what has to be accepted from the way the document was made. Distinct: (version, mode, alteration, entry point).",
		Level: "exploration",
		Require: map[string]int64{"accepted": 4000, "refused": 20000, "undef.refused": 1200, "base.refused": 800, "ext.refused": 600, "schema.refused": 150, "vp.refused": 2500,
			"vp.accepted": 500, "types.refused": 100, "external.accepted": 100, "required.accepted": 80},
		Assumptions: []string{"credentials that name a supported credentialSchema are validated by it instead of the default schema (pinned by the repository's tests)",
			"the shapes demanded are those of the JSON schemas the package publishes for each data model, kept here as an independent list of deviations"},
		Run: run,
	})
}

// loader adds contexts with exactly known terms.
type loader struct {
	in   ld.DocumentLoader
	docs map[string][]byte
}

func (l *loader) LoadDocument(u string) (*ld.RemoteDocument, error) {
	if b, ok := l.docs[u]; ok {
		var v interface{}
		if err := vh.UnJ(b, &v); err != nil {
			return nil, err
		}

		return &ld.RemoteDocument{DocumentURL: u, Document: v}, nil
	}

	return l.in.LoadDocument(u)
}

func newLoader() ld.DocumentLoader {
	terms := M{"@version": 1.1}
	for _, t := range []string{"AlphaCredential", "BetaCredential", "StatusA", "OtherSchema", "EvidenceA", "ServiceA", "PolicyA", "p0", "p1", "p2", "p3", "p4", "nest", "items", "holderNote", "AlphaPresentation"} {
		terms[t] = "https://verif.example/terms#" + t
	}

	return &loader{in: w.Loader, docs: map[string][]byte{
		ctxTerms: vh.J(M{"@context": terms}),
		ctxMore:  vh.J(M{"@context": M{"@version": 1.1, "more": "https://verif.example/more#more", "MoreCredential": "https://verif.example/more#MoreCredential"}}),
		ctxOther: vh.J(M{"@context": M{"@version": 1.1, "unused": "https://verif.example/other#unused"}}),
	}}
}

func base(v int) string {
	if v == 2 {
		return vh.CtxV2
	}

	return vh.CtxV1
}

// value is a member value every one of whose names is defined by ctxTerms.
func value(r *rand.Rand, depth int) interface{} {
	switch n := r.Intn(9); {
	case n < 4 || depth == 0:
		return "s" + vh.SafeStr(r)
	case n == 4:
		return float64(r.Intn(1000))
	case n == 5:
		return r.Intn(2) == 0
	case n == 6:
		return L{"a" + vh.SafeStr(r), "b" + vh.SafeStr(r)}
	case n == 7:
		out := L{}
		for i := 1 + r.Intn(3); i > 0; i-- {
			out = append(out, node(r, depth-1))
		}

		return out
	default:
		return node(r, depth-1)
	}
}

func node(r *rand.Rand, depth int) M {
	m := M{}
	for i := 1 + r.Intn(3); i > 0; i-- {
		m[vh.Pick(r, "p0", "p1", "p2", "p3", "p4", "nest", "items")] = value(r, depth)
	}

	if r.Intn(4) == 0 {
		m["id"] = "urn:n:" + vh.SafeStr(r)
	}

	return m
}

func typed(r *rand.Rand, typ string) M {
	return M{"id": "https://typed.example/" + vh.SafeStr(r), "type": typ, "p0": "x" + vh.SafeStr(r)}
}

func date(r *rand.Rand) string {
	return fmt.Sprintf("20%02d-%02d-%02dT%02d:%02d:%02d%s", r.Intn(60), 1+r.Intn(12), 1+r.Intn(28), r.Intn(24), r.Intn(60), r.Intn(60), vh.Pick(r, "Z", "Z", ".123Z", "+02:00", "-11:30"))
}

// cred makes a valid credential. bare: only the base context and type.
func cred(r *rand.Rand, v int, bare bool) M {
	m := M{"@context": L{base(v), ctxTerms}, "type": L{"VerifiableCredential"}, "issuer": "did:test:issuer" + vh.SafeStr(r)}

	if bare {
		m["@context"] = L{base(v)}
	} else {
		for _, t := range []string{"AlphaCredential", "BetaCredential"} {
			if r.Intn(3) == 0 {
				m["type"] = append(m["type"].(L), t)
			}
		}

		if r.Intn(4) == 0 {
			r.Shuffle(len(m["type"].(L)), func(i, j int) { t := m["type"].(L); t[i], t[j] = t[j], t[i] })
		}
	}

	if len(m["type"].(L)) == 1 && r.Intn(4) == 0 {
		m["type"] = "VerifiableCredential"
	}

	if v == 1 && bare && r.Intn(3) == 0 {
		m["@context"] = base(v)
	}

	if r.Intn(2) == 0 {
		iss := M{"id": m["issuer"]}
		if !bare && r.Intn(2) == 0 {
			iss["p1"] = "Issuer"
		}

		m["issuer"] = iss
	}

	if r.Intn(3) != 0 {
		m["id"] = "https://cred.example/" + vh.SafeStr(r)
	}

	sub := func() M {
		s := M{"id": "did:test:s" + vh.SafeStr(r)}
		if !bare {
			for k, x := range node(r, 3) {
				if k != "id" {
					s[k] = x
				}
			}

			if r.Intn(4) == 0 {
				delete(s, "id")
			}
		}

		return s
	}

	switch n := r.Intn(6); {
	case n == 0:
		m["credentialSubject"] = L{sub(), sub()}
	case n == 1:
		m["credentialSubject"] = L{sub()}
	case n == 2 && v == 1:
		m["credentialSubject"] = "did:test:s" + vh.SafeStr(r)
	default:
		m["credentialSubject"] = sub()
	}

	if v == 2 {
		if r.Intn(3) != 0 {
			m["validFrom"] = date(r)
		}

		if r.Intn(3) != 0 {
			m["validUntil"] = date(r)
		}
	} else {
		m["issuanceDate"] = date(r)

		if r.Intn(2) == 0 {
			m["expirationDate"] = date(r)
		}
	}

	if bare {
		return m
	}

	many := func(typ string) interface{} {
		if r.Intn(3) == 0 {
			return L{typed(r, typ), typed(r, typ)}
		}

		return typed(r, typ)
	}

	if r.Intn(2) == 0 {
		m["credentialStatus"] = typed(r, "StatusA")

		if v == 2 {
			m["credentialStatus"] = many("StatusA")
		}
	}

	if r.Intn(3) == 0 {
		m["credentialSchema"] = many("OtherSchema")
	}

	if r.Intn(2) == 0 {
		m["evidence"] = many("EvidenceA")
	}

	if r.Intn(2) == 0 {
		m["refreshService"] = typed(r, "ServiceA")
	}

	if r.Intn(3) == 0 {
		m["termsOfUse"] = many("PolicyA")
	}

	if r.Intn(3) == 0 {
		m["nest"] = node(r, 2)
	}

	if r.Intn(3) == 0 {
		p := M{"type": "Ed25519Signature2018", "created": "2020-01-02T03:04:05Z", "proofPurpose": "assertionMethod", "verificationMethod": "did:test:i#k", "jws": "eyJ..x"}
		if v == 2 {
			p = M{"type": "DataIntegrityProof", "cryptosuite": "ecdsa-rdfc-2019", "created": "2020-01-02T03:04:05Z", "proofPurpose": "assertionMethod", "verificationMethod": "did:test:i#k", "proofValue": "z3x"}
		}

		m["proof"] = p

		if r.Intn(4) == 0 {
			m["proof"] = L{p, vh.CloneM(p)}
		}
	}

	return m
}

type entry struct {
	name string
	f    func(doc M, opts []verifiable.CredentialOpt) error
}

// entries give the verdict on a document. What only a map can hold is not judged here, all documents are JSON.
func entries() []entry {
	off := func(opts []verifiable.CredentialOpt) []verifiable.CredentialOpt {
		return append([]verifiable.CredentialOpt{verifiable.WithCredDisableValidation()}, opts...)
	}

	return []entry{
		{"ParseCredential", func(d M, o []verifiable.CredentialOpt) error {
			_, err := verifiable.ParseCredential(vh.J(d), o...)
			return err
		}},
		{"ParseCredentialJSON", func(d M, o []verifiable.CredentialOpt) error {
			in := vh.M(vh.J(d))

			_, err := verifiable.ParseCredentialJSON(in, o...)
			if vh.Diff(in, vh.Norm(d)) != "" {
				panic("altered its input: " + vh.Diff(in, vh.Norm(d)))
			}

			return err
		}},
		{"ValidateCredential", func(d M, o []verifiable.CredentialOpt) error {
			vc, err := verifiable.ParseCredential(vh.J(d), off(o)...)
			if err != nil {
				return err
			}

			return vc.ValidateCredential(o...)
		}},
		{"jwt+ValidateCredential", func(d M, o []verifiable.CredentialOpt) error {
			h := base64.RawURLEncoding.EncodeToString([]byte(`{"alg":"none","typ":"JWT"}`))
			p := base64.RawURLEncoding.EncodeToString(vh.J(M{"vc": d}))

			vc, err := verifiable.ParseCredential([]byte(h+"."+p+"."), o...)
			if err != nil {
				return err
			}

			return vc.ValidateCredential(o...)
		}},
		{"cwt", func(d M, o []verifiable.CredentialOpt) error {
			k := w.Ents["issuer"].Keys["ES256"]
			b := vh.MakeCose(vh.CoseHdr(k), vh.CB(M{"vc": vh.Norm(d)}), k).Bytes()

			switch len(b) % 3 {
			case 0:
				b = []byte(hex.EncodeToString(b))
			case 1:
				b = vh.J(vh.Enveloped("application/vc-ld+cose", hex.EncodeToString(b)))
			}

			_, err := verifiable.ParseCredential(b, o...)

			return err
		}},
	}
}

type mode struct {
	name   string
	schema bool // the shape is checked
	ld     bool // JSON-LD is checked
	strict bool
	bare   bool // only bare credentials
	opts   func(r *rand.Rand, v int) []verifiable.CredentialOpt
}

func common(l ld.DocumentLoader) []verifiable.CredentialOpt {
	return []verifiable.CredentialOpt{verifiable.WithDisabledProofCheck(), verifiable.WithJSONLDDocumentLoader(l)}
}

func modes(l ld.DocumentLoader) []mode {
	ext := func(r *rand.Rand, v int) []verifiable.CredentialOpt {
		ctx, types := []string{ctxTerms}, []string{"AlphaCredential", "BetaCredential"}
		if r.Intn(2) == 0 {
			ctx, types = append(ctx, ctxOther), append(types, "UnusedCredential")
		}

		return append(common(l), verifiable.WithBaseContextExtendedValidation(base(v), ctx, types))
	}

	return []mode{
		{"combined", true, true, false, false, func(*rand.Rand, int) []verifiable.CredentialOpt { return common(l) }},
		{"strict", true, true, true, false, func(*rand.Rand, int) []verifiable.CredentialOpt {
			return append(common(l), verifiable.WithStrictValidation())
		}},
		{"jsonld", false, true, false, false, func(*rand.Rand, int) []verifiable.CredentialOpt {
			return append(common(l), verifiable.WithJSONLDValidation())
		}},
		{"jsonld-strict", false, true, true, false, func(*rand.Rand, int) []verifiable.CredentialOpt {
			return append(common(l), verifiable.WithJSONLDValidation(), verifiable.WithStrictValidation(), verifiable.WithJSONLDIncludeDetailedStructureDiffOnError())
		}},
		{"base", true, false, false, true, func(_ *rand.Rand, v int) []verifiable.CredentialOpt {
			return append(common(l), verifiable.WithBaseContextValidation(base(v)))
		}},
		{"ext", true, false, false, false, ext},
	}
}

func run(c *vh.Check) {
	w = vh.NewWorld("issuer")
	l := newLoader()
	ms, es := modes(l), entries()

	verdict := func(e entry, d M, o []verifiable.CredentialOpt, detail M) (err error, ok bool) {
		if p, site, val := vh.Guard(func() { err = e.f(d, o) }); p {
			c.Violate("panic/"+site, fmt.Sprintf("%s panicked: %v", e.name, val), detail)
			return nil, false
		}

		return err, true
	}

	// one alteration
	c.Cases("shape", c.N(420, 6000), func(r *rand.Rand, i int) {
		v := 1 + i%2
		m := ms[r.Intn(len(ms))]
		doc := cred(r, v, m.bare)

		for _, e := range es {
			d := M{"mode": m.name, "doc": doc, "entry": e.name}
			c.Eval(fmt.Sprintf("valid/%d/%s/%s", v, m.name, e.name))

			if err, ok := verdict(e, doc, m.opts(r, v), d); ok {
				c.Count("accepted", 1)
				c.Expect(err == nil, fmt.Sprintf("refused/%s/%s", m.name, e.name), fmt.Sprintf("a valid credential was refused: %v", err), d)
			}
		}

		for _, a := range alterations(r, v, doc) {
			if (!m.schema && !a.ctx) || (a.ldOnly && !m.ld) {
				continue
			}

			e := es[r.Intn(len(es))]
			d := M{"mode": m.name, "doc": a.doc, "entry": e.name, "alteration": a.name}
			c.Eval(fmt.Sprintf("%d/%s/%s/%s", v, m.name, a.name, e.name))

			if err, ok := verdict(e, a.doc, m.opts(r, v), d); ok {
				c.Count("refused", 1)
				c.Expect(err != nil, fmt.Sprintf("accepted/%s/v%d/%s", m.name, v, a.name), "a credential with a deviation was accepted: "+a.name, d)
			}
		}
	})

	c.Cases("undef", c.N(300, 4500), func(r *rand.Rand, i int) { undefined(c, r, 1+i%2, ms, es, verdict) })
	c.Cases("ctxtype", c.N(260, 4000), func(r *rand.Rand, i int) { ctxType(c, r, 1+i%2, l, es, verdict) })
	c.Cases("options", c.N(200, 3000), func(r *rand.Rand, i int) { options(c, r, 1+i%2, l, es, verdict) })
	c.Cases("schema", c.N(160, 2400), func(r *rand.Rand, i int) { schemas(c, r, 1+i%2, l, es, verdict) })
	c.Cases("vp", c.N(240, 3600), func(r *rand.Rand, i int) { presentations(c, r, 1+i%2, l) })
}

type verdictFn = func(e entry, d M, o []verifiable.CredentialOpt, detail M) (error, bool)

type alteration struct {
	name   string
	doc    M
	ctx    bool // concerns the base context, checked by every mode
	ldOnly bool
}

// alterations lists every single deviation applicable to a valid credential.
func alterations(r *rand.Rand, v int, doc M) []alteration {
	var out []alteration

	put := func(name, fld string, val interface{}) {
		d := vh.CloneM(doc)
		d[fld] = val
		out = append(out, alteration{name: name, doc: d})
	}
	del := func(name, fld string) {
		d := vh.CloneM(doc)
		delete(d, fld)
		out = append(out, alteration{name: name, doc: d})
	}

	mandatory := []string{"type", "credentialSubject", "issuer"}
	if v == 1 {
		mandatory = append(mandatory, "issuanceDate")
	}

	for _, f := range mandatory {
		del("missing:"+f, f)
		put("null:"+f, f, nil)
		put("number:"+f, f, 5)
		put("bool:"+f, f, true)

		d := vh.CloneM(doc)
		d[f+"x"] = d[f]
		delete(d, f)
		out = append(out, alteration{name: "renamed:" + f, doc: d})

		if f != "type" { // members are case-sensitive
			d = vh.CloneM(doc)
			d[strings.ToUpper(f[:1])+f[1:]] = d[f]
			delete(d, f)
			out = append(out, alteration{name: "capital:" + f, doc: d})
		}
	}

	// context
	n := len(out)
	b := base(v)

	var tail L
	if l, ok := doc["@context"].(L); ok {
		tail = l[1:]
	}

	other := "https://www.w3.org/2018/credentials/v2"

	put("ctx:missing-base", "@context", append(L{ctxTerms}, tail...))
	put("ctx:base-second", "@context", append(L{ctxTerms, b}, tail...))
	put("ctx:base-last", "@context", append(append(L{ctxOther}, tail...), b))
	put("ctx:unknown", "@context", append(L{other}, tail...))
	put("ctx:near-slash", "@context", append(L{b + "/"}, tail...))
	put("ctx:near-hash", "@context", append(L{b + "#"}, tail...))
	put("ctx:near-case", "@context", append(L{strings.ToUpper(b)}, tail...))
	put("ctx:near-http", "@context", append(L{strings.Replace(b, "https", "http", 1)}, tail...))
	put("ctx:near-space", "@context", append(L{b + " "}, tail...))
	put("ctx:empty-list", "@context", L{})
	put("ctx:empty-string", "@context", "")
	put("ctx:other-string", "@context", ctxTerms)
	put("ctx:number", "@context", 5)
	put("ctx:null", "@context", nil)
	put("ctx:object", "@context", M{"@vocab": "https://x.example/#"})
	put("ctx:inline-first", "@context", append(L{M{"@vocab": "https://x.example/#"}, b}, tail...))
	put("ctx:inline-only", "@context", L{M{"@vocab": "https://x.example/#"}})
	put("ctx:null-first", "@context", append(L{nil, b}, tail...))
	put("ctx:nested", "@context", append(L{L{b}}, tail...))
	del("ctx:missing", "@context")

	for i := n; i < len(out); i++ {
		out[i].ctx = true
	}

	if v == 2 {
		put("ctx:string", "@context", b)
		put("ctx:v1", "@context", append(L{vh.CtxV1}, tail...)) // then issuanceDate is missing
	}

	n = len(out)
	put("ctx:unloadable", "@context", append(append(L{b}, tail...), "https://nowhere.example/ctx"))
	put("ctx:bad-inline", "@context", append(append(L{b}, tail...), M{"@version": "x"}))

	for i := n; i < len(out); i++ {
		out[i].ctx, out[i].ldOnly = true, true
	}

	// type
	for name, x := range map[string]interface{}{"other": "AlphaCredential", "other-list": L{"AlphaCredential"}, "empty-list": L{}, "empty": "", "object": M{}, "case": "verifiablecredential",
		"suffix": "VerifiableCredentialX", "prefix": "XVerifiableCredential", "space": " VerifiableCredential", "newline": "VerifiableCredential\n", "suffix-list": L{"VerifiableCredentials"},
		"newline-list": L{"VerifiableCredential\n"}, "presentation": L{"VerifiablePresentation"}, "number-list": L{"VerifiableCredential", 5}, "null-list": L{"VerifiableCredential", nil},
		"nested": L{L{"VerifiableCredential"}}, "object-list": L{M{"id": "VerifiableCredential"}}, "iri": "https://www.w3.org/2018/credentials#VerifiableCredential"} {
		put("type:"+name, "type", x)
	}

	// issuer
	for name, x := range map[string]interface{}{"list": L{"did:test:i"}, "empty-object": M{}, "no-id": M{"p1": "x"}, "number-id": M{"id": 5}, "null-id": M{"id": nil},
		"object-id": M{"id": M{"id": "did:test:i"}}, "list-id": M{"id": L{"did:test:i"}}, "empty-list": L{}, "ID": M{"ID": "did:test:i"}} {
		put("issuer:"+name, "issuer", x)
	}

	if v == 1 {
		for name, x := range map[string]interface{}{"no-uri": "not a uri", "empty": "", "word": "issuer", "no-uri-id": M{"id": "issuer"}, "empty-id": M{"id": ""}, "bad-uri": "https://[::1"} {
			put("issuer:"+name, "issuer", x)
		}
	}

	// subject
	for name, x := range map[string]interface{}{"number-list": L{5}, "null-list": L{nil}, "number-id": M{"id": 5, "p0": "x"}, "object-id": M{"id": M{}, "p0": "x"}, "nested": L{L{M{"id": "did:test:s"}}}} {
		put("subject:"+name, "credentialSubject", x)
	}

	if v == 2 {
		for name, x := range map[string]interface{}{"string": "did:test:s", "empty-list": L{}, "empty": M{}, "empty-in-list": L{M{"id": "did:test:s"}, M{}}, "string-list": L{"did:test:s"}, "bool-list": L{true}} {
			put("subject:"+name, "credentialSubject", x)
		}
	}

	// id
	for name, x := range map[string]interface{}{"number": 5, "bool": false, "object": M{"id": "urn:x"}, "list": L{"urn:x"}} {
		put("id:"+name, "id", x)
	}

	// dates
	fields := []string{"issuanceDate", "expirationDate"}
	if v == 2 {
		fields = []string{"validFrom", "validUntil"}
	}

	for _, f := range fields {
		for name, x := range map[string]interface{}{"word": "tomorrow", "date": "2020-01-01", "month": "2020-13-01T00:00:00Z", "day": "2020-01-32T00:00:00Z", "february": "2021-02-30T00:00:00Z",
			"no-zone": "2020-01-01T00:00:00", "space": "2020-01-01 00:00:00Z", "number": 1577836800, "bool": true, "object": M{"@value": "2020-01-01T00:00:00Z"}, "list": L{"2020-01-01T00:00:00Z"},
			"empty": "", "hour": "2020-01-01T25:00:00Z", "lead": " 2020-01-01T00:00:00Z", "trail": "2020-01-01T00:00:00Zx", "twice": "2020-01-01T00:00:00Z2020-01-01T00:00:00Z", "zone": "2020-01-01T00:00:00+25:00",
			"time": "15:04:05Z", "short-year": "20-01-01T00:00:00Z"} {
			put(f+":"+name, f, x)
		}
	}

	if v == 2 {
		// the members of the other data model are only extensions here
		for f, o := range map[string]string{"validFrom": "issuanceDate", "validUntil": "expirationDate"} {
			for name, x := range map[string]interface{}{"lead": "x2020-01-01T00:00:00Z", "trail": "2020-01-01T00:00:00Z-", "word": "tomorrow", "number": 5, "no-zone": "2020-01-01T00:00:00"} {
				d := vh.CloneM(doc)
				d[f], d[o] = x, "2019-01-01T00:00:00Z"
				out = append(out, alteration{name: "shadowed-" + f + ":" + name, doc: d})
			}
		}

		put("null:validFrom", "validFrom", nil)
		put("null:validUntil", "validUntil", nil)
	}

	// typed members
	part := func(f, typ string, need []string, list bool, uri bool) {
		good := typed(r, typ)
		bad := map[string]interface{}{"string": "x", "number": 5, "bool": true}

		for _, n := range need {
			t := typed(r, typ)
			delete(t, n)
			bad["no-"+n] = t

			t = typed(r, typ)
			t[n] = 5
			bad["number-"+n] = t

			t = typed(r, typ)
			t[n] = nil
			bad["null-"+n] = t
		}

		if uri {
			t := typed(r, typ)
			t["id"] = "not a uri"
			bad["no-uri"] = t
		}

		for name, x := range bad {
			put(f+":"+name, f, x)

			if list {
				put(f+":"+name+"-in-list", f, L{good, x})
			}
		}

		if list && v == 2 {
			put(f+":empty-list", f, L{})
		}

		if !list {
			put(f+":list", f, L{typed(r, typ)})
		}
	}

	idType := []string{"id", "type"}

	part("credentialStatus", "StatusA", idType, v == 2, v == 1)
	part("credentialSchema", "OtherSchema", idType, true, v == 1)

	if v == 1 {
		part("evidence", "EvidenceA", idType, true, true)
		part("refreshService", "ServiceA", idType, false, true)
	} else {
		part("evidence", "EvidenceA", []string{"type"}, true, false)
		part("termsOfUse", "PolicyA", []string{"type"}, true, false)
		part("refreshService", "ServiceA", idType, true, false)
	}

	// proof
	if p, ok := doc["proof"].(M); ok {
		need := []string{"type"}
		if v == 2 {
			need = append(need, "proofPurpose", "verificationMethod")
		}

		put("proof:number", "proof", 5)
		put("proof:string", "proof", "x")

		for _, n := range need {
			q := vh.CloneM(p)
			delete(q, n)
			put("proof:no-"+n, "proof", q)
			put("proof:no-"+n+"-in-list", "proof", L{p, q})

			q = vh.CloneM(p)
			q[n] = 5
			put("proof:number-"+n, "proof", q)
		}

		if v == 2 {
			put("proof:empty-list", "proof", L{})

			for _, n := range []string{"created", "domain", "challenge", "proofValue"} {
				q := vh.CloneM(p)
				q[n] = 5
				put("proof:number-"+n, "proof", q)
			}
		}
	}

	sort.Slice(out, func(i, j int) bool { return out[i].name < out[j].name })

	return out
}
