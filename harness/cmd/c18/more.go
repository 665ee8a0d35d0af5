package main

import (
	"bytes"
	"fmt"
	"io"
	"math/rand"
	"net/http"
	"strings"

	"github.com/piprate/json-gold/ld"

	"github.com/trustbloc/vc-go/verifharness/vh"
	"github.com/trustbloc/vc-go/verifiable"
)

// spots lists the objects below the root (paths), outside @context; list says whether a list of several elements is on the way.
func spots(doc M) (out []vh.Path, list []bool) {
	var walk func(v interface{}, p vh.Path, in bool)

	walk = func(v interface{}, p vh.Path, in bool) {
		switch x := v.(type) {
		case M:
			out, list = append(out, p), append(list, in)

			for _, k := range vh.SortedKeys(x) {
				if k != "@context" {
					walk(x[k], append(append(vh.Path{}, p...), k), in)
				}
			}
		case L:
			for i, e := range x {
				walk(e, append(append(vh.Path{}, p...), i), in || len(x) > 1)
			}
		}
	}

	walk(doc, nil, false)

	return out, list
}

// undefined: a term no context defines, at every depth.
func undefined(c *vh.Check, r *rand.Rand, v int, ms []mode, es []entry, verdict verdictFn) {
	doc := cred(r, v, false)
	ps, in := spots(doc)

	for n := 0; n < 10; n++ {
		i := r.Intn(len(ps))
		d := vh.CloneM(doc)
		vals := []interface{}{"x", 5.0, true, L{"a", "b"}, M{"p0": "x"}, L{M{"p0": "x"}}, M{"id": "urn:u"}, L{M{"p0": "x"}, M{"p1": "y"}}}
		kind := r.Intn(len(vals))
		name := vh.Pick(r, "undef", "Undef", "p9", "credentialsubject", "Nest", "holderNotes", "more")

		m, ok := vh.Get(d, ps[i]).(M)
		if !ok {
			continue
		}

		m[name] = vals[kind]

		where := "object"
		if in[i] {
			where = "list"
		}

		if len(ps[i]) == 0 {
			where = "top"
		}

		for _, mo := range ms {
			if !mo.ld {
				continue
			}

			e := es[r.Intn(len(es))]
			det := M{"mode": mo.name, "doc": d, "entry": e.name, "at": ps[i].String(), "term": name}
			c.Eval(fmt.Sprintf("undef/%d/%s/%s/%d/%s/%d", v, mo.name, where, len(ps[i]), e.name, kind))

			err, ok := verdict(e, d, mo.opts(r, v), det)

			switch {
			case !ok:
			case mo.strict:
				c.Count("undef.refused", 1)
				c.Expect(err != nil, "accepted/undefined-in-"+where, fmt.Sprintf("strict validation accepted the undefined term %q at %s", name, ps[i]), det)
			default:
				c.Count("accepted", 1)
				c.Expect(err == nil, "refused/undefined/"+mo.name, fmt.Sprintf("refused because of an extension term without strict validation: %v", err), det)
			}
		}
	}
}

// ctxType: contexts and types beyond those allowed, and the types check.
func ctxType(c *vh.Check, r *rand.Rand, v int, l ld.DocumentLoader, es []entry, verdict verdictFn) {
	e := es[r.Intn(len(es))]

	try := func(kind, key string, d M, want bool, count string, opts ...verifiable.CredentialOpt) {
		det := M{"doc": d, "entry": e.name, "kind": kind, "key": key}
		c.Eval(fmt.Sprintf("%s/%d/%s/%s/%v", kind, v, key, e.name, want))

		err, ok := verdict(e, d, append(common(l), opts...), det)
		if !ok {
			return
		}

		if want {
			c.Count("accepted", 1)
			c.Expect(err == nil, "refused/"+kind+"/"+key, fmt.Sprintf("refused: %v", err), det)
		} else {
			c.Count(count, 1)
			c.Expect(err != nil, "accepted/"+kind+"/"+key, "accepted: "+key, det)
		}
	}

	with := func(d M, fld string, x interface{}) M {
		d = vh.CloneM(d)
		d[fld] = x

		return d
	}

	b, o := base(v), base(3-v)
	inline := M{"p0": "https://inline.example/#p0"}

	// only the base context and type
	d := cred(r, v, true)
	baseOnly := verifiable.WithBaseContextValidation(b)

	try("base", "bare", d, true, "", baseOnly)

	for key, x := range map[string]interface{}{"string": L{b, ctxTerms}, "inline": L{b, inline}, "inline-empty": L{b, M{}}, "other-base": L{b, o}, "null": L{b, nil}, "twice": L{b, b}} {
		try("base", "ctx-"+key, with(d, "@context", x), false, "base.refused", baseOnly)
	}

	for key, x := range map[string]interface{}{"more": L{"VerifiableCredential", "AlphaCredential"}, "before": L{"AlphaCredential", "VerifiableCredential"}, "other": "AlphaCredential", "twice": L{"VerifiableCredential", "VerifiableCredential"}} {
		try("base", "type-"+key, with(d, "type", x), false, "base.refused", baseOnly)
	}

	try("base", "other-model", d, false, "base.refused", verifiable.WithBaseContextValidation(o))

	// the allowed contexts and types
	d = cred(r, v, false)
	types := func() []string {
		var out []string

		switch t := d["type"].(type) {
		case string:
			out = append(out, t)
		case L:
			for _, x := range t {
				out = append(out, x.(string))
			}
		}

		return out
	}()

	ext := func(ctx, types []string) verifiable.CredentialOpt {
		return verifiable.WithBaseContextExtendedValidation(b, ctx, types)
	}

	try("ext", "allowed", d, true, "", ext([]string{ctxTerms}, types))
	try("ext", "allowed-more", d, true, "", ext([]string{ctxOther, ctxTerms}, append([]string{"UnusedCredential"}, types...)))
	try("ext", "no-context", d, false, "ext.refused", ext(nil, types))
	try("ext", "wrong-context", d, false, "ext.refused", ext([]string{ctxOther, ctxTerms + "x"}, types))
	try("ext", "other-base", d, false, "ext.refused", verifiable.WithBaseContextExtendedValidation(o, []string{ctxTerms}, types))
	try("ext", "extra-context", with(d, "@context", L{b, ctxTerms, ctxOther}), false, "ext.refused", ext([]string{ctxTerms}, types))
	try("ext", "extra-context-middle", with(d, "@context", L{b, ctxOther, ctxTerms}), false, "ext.refused", ext([]string{ctxTerms}, types))
	try("ext", "extra-context-allowed", with(d, "@context", L{b, ctxOther, ctxTerms}), true, "", ext([]string{ctxTerms, ctxOther}, types))
	try("ext", "inline", with(d, "@context", L{b, ctxTerms, inline}), false, "ext.refused", ext([]string{ctxTerms}, types))
	try("ext", "inline-between", with(d, "@context", L{b, inline, ctxTerms}), false, "ext.refused", ext([]string{ctxTerms}, types))
	try("ext", "after-inline", with(d, "@context", L{b, inline, ctxOther}), false, "ext.refused", ext([]string{ctxTerms}, types))

	for i := range types {
		if types[i] == "VerifiableCredential" {
			continue
		}

		rest := append(append([]string{}, types[:i]...), types[i+1:]...)
		try("ext", "type-missing", d, false, "ext.refused", ext([]string{ctxTerms}, rest))
	}

	var tl L
	for _, t := range types {
		tl = append(tl, t)
	}

	extra := append(append(L{}, tl...), "MoreCredential")
	r.Shuffle(len(extra), func(i, j int) { extra[i], extra[j] = extra[j], extra[i] })
	try("ext", "type-extra", with(d, "type", extra), false, "ext.refused", ext([]string{ctxTerms}, types))
	try("ext", "type-extra-allowed", with(d, "type", extra), true, "", ext([]string{ctxTerms}, append(types, "MoreCredential")))

	// names that nearly are allowed ones
	for i, t := range types {
		for key, x := range map[string]string{"longer": t + "2", "shorter": t[:len(t)-1], "upper": strings.ToUpper(t), "space": t + " ", "slash": t + "/", "prefixed": "x" + t} {
			near := append(append([]string{}, types[:i]...), types[i+1:]...)
			if t == "VerifiableCredential" {
				near = append(near, t)
			}

			near = append(near, x)

			var nl L
			for _, t := range near {
				nl = append(nl, t)
			}

			r.Shuffle(len(nl), func(i, j int) { nl[i], nl[j] = nl[j], nl[i] })
			try("ext", "type-near-"+key, with(d, "type", nl), false, "ext.refused", ext([]string{ctxTerms}, types))
			try("ext", "type-near-allowed-"+key, with(d, "type", nl), true, "", ext([]string{ctxTerms}, near))
		}
	}

	for key, x := range map[string]string{"longer": ctxTerms + "2", "shorter": ctxTerms[:len(ctxTerms)-1], "slash": ctxTerms + "/", "fragment": ctxTerms + "#", "query": ctxTerms + "?", "upper": strings.ToUpper(ctxTerms), "space": " " + ctxTerms} {
		try("ext", "ctx-near-"+key, d, false, "ext.refused", ext([]string{x}, types))
		try("ext", "ctx-near-other-"+key, with(d, "@context", L{b, x}), false, "ext.refused", ext([]string{ctxTerms}, types))
	}

	// types that no context defines
	check := verifiable.WithEnabledJSONLDTypesCheck()

	try("types", "defined", d, true, "", check)
	try("types", "undefined", with(d, "type", extra), false, "types.refused", check)
	try("types", "undefined-jsonld", with(d, "type", extra), false, "types.refused", check, verifiable.WithJSONLDValidation())
	try("types", "undefined-unchecked", with(d, "type", extra), true, "")
	try("types", "defined-later", with(with(d, "type", extra), "@context", L{b, ctxTerms, ctxMore}), true, "", check)
	try("types", "defined-external", with(d, "type", extra), true, "", check, verifiable.WithExternalJSONLDContext(ctxMore))

	// the same with the base context only
	lone := cred(r, v, true)
	some := L{"VerifiableCredential", "MoreCredential"}
	r.Shuffle(2, func(i, j int) { some[i], some[j] = some[j], some[i] })

	try("types", "defined-base-only", lone, true, "", check)
	try("types", "undefined-base-only", with(lone, "type", some), false, "types.refused", check)
	try("types", "undefined-base-only-jsonld", with(lone, "type", some), false, "types.refused", check, verifiable.WithJSONLDValidation())
	try("types", "undefined-base-only-unchecked", with(lone, "type", some), true, "")
	try("types", "defined-external-base-only", with(lone, "type", some), true, "", check, verifiable.WithExternalJSONLDContext(ctxMore))

	// the place of the base context, with and without external contexts
	for _, ec := range [][]string{nil, {ctxMore}, {ctxOther, ctxMore}} {
		var opts []verifiable.CredentialOpt
		if ec != nil {
			opts = append(opts, verifiable.WithExternalJSONLDContext(ec...))
		}

		key := fmt.Sprint(len(ec))
		try("place", "first-"+key, d, true, "", opts...)
		try("place", "second-"+key, with(d, "@context", L{ctxTerms, b}), false, "ext.refused", opts...)
		try("place", "second-jsonld-"+key, with(d, "@context", L{ctxTerms, b}), false, "ext.refused", append(opts, verifiable.WithJSONLDValidation())...)
		try("place", "absent-"+key, with(d, "@context", L{ctxTerms}), false, "ext.refused", opts...)
	}

	// terms of external contexts
	more := with(d, "more", "x")
	strict := verifiable.WithStrictValidation()

	try("external", "without", more, false, "undef.refused", strict)
	try("external", "other", more, false, "undef.refused", strict, verifiable.WithExternalJSONLDContext(ctxOther))
	try("external", "with", more, true, "", strict, verifiable.WithExternalJSONLDContext(ctxOther, ctxMore))
	try("external", "own", with(more, "@context", L{b, ctxTerms, ctxMore}), true, "", strict)
	c.Count("external.accepted", 1)
}

// options: the default schemas with required members switched off.
func options(c *vh.Check, r *rand.Rand, v int, l ld.DocumentLoader, es []entry, verdict verdictFn) {
	doc := cred(r, v, false)
	delete(doc, "credentialSchema")

	names := []string{"type", "credentialSubject", "issuer"}
	if v == 1 {
		names = append(names, "issuanceDate")
	}

	mk := verifiable.JSONSchemaLoaderV1
	if v == 2 {
		mk = verifiable.JSONSchemaLoaderV2
	}

	var (
		so  []verifiable.SchemaOpt
		set = map[string]bool{}
	)

	for _, n := range names {
		if r.Intn(2) == 0 {
			set[n] = true
			so = append(so, verifiable.WithDisableRequiredField(n))
		}
	}

	s := mk(so...)

	var opt verifiable.CredentialOpt

	how := r.Intn(2)
	if how == 0 {
		opt = verifiable.WithSchema(s)
	} else {
		opt = verifiable.WithDefaultSchemaLoader(func(*verifiable.CredentialContents) string { return s })
	}

	for _, n := range names {
		if n == "type" {
			continue // needed to parse at all, and for the V1 terms
		}

		d := vh.CloneM(doc)
		delete(d, n)

		e := es[r.Intn(len(es))]
		det := M{"doc": d, "entry": e.name, "missing": n, "optional": set[n], "how": how}
		c.Eval(fmt.Sprintf("required/%d/%s/%v/%d/%s", v, n, set[n], how, e.name))

		err, ok := verdict(e, d, append(common(l), opt), det)
		if !ok {
			continue
		}

		if set[n] {
			c.Count("required.accepted", 1)
			c.Expect(err == nil, "refused/required/"+n, fmt.Sprintf("refused without the optional %s: %v", n, err), det)
		} else {
			c.Count("refused", 1)
			c.Expect(err != nil, "accepted/required/"+n, "accepted without "+n, det)
		}

		// switched-off checks are not remembered
		if err, ok := verdict(e, d, common(l), det); ok {
			c.Count("refused", 1)
			c.Expect(err != nil, "accepted/required-default/"+n, "the default schema accepts a credential without "+n, det)
		}
	}

	// a mis-shaped optional member stays mis-shaped
	n := names[1+r.Intn(len(names)-1)]
	d := vh.CloneM(doc)
	d[n] = 5
	e := es[r.Intn(len(es))]
	det := M{"doc": d, "entry": e.name, "misshaped": n}
	c.Eval(fmt.Sprintf("required/%d/%s/misshaped/%s", v, n, e.name))

	if err, ok := verdict(e, d, append(common(l), opt), det); ok {
		c.Count("refused", 1)
		c.Expect(err != nil, "accepted/required-misshaped/"+n, "accepted with a number as "+n, det)
	}

	// validation switched off, and on again for ValidateCredential
	alts := alterations(r, v, doc)
	a := alts[r.Intn(len(alts))]

	vc, err := verifiable.ParseCredential(vh.J(a.doc), append(common(l), verifiable.WithCredDisableValidation())...)
	if err == nil {
		err = vc.ValidateCredential(append(common(l), verifiable.WithCredDisableValidation())...)
	}

	c.Eval(fmt.Sprintf("disabled/%d/%s", v, a.name))
	c.Count("refused", 1)
	c.Expect(err != nil, "accepted/validate-despite-option", "ValidateCredential accepted "+a.name, M{"doc": a.doc})
}

type site map[string]string

func (s site) RoundTrip(q *http.Request) (*http.Response, error) {
	b, ok := s[q.URL.String()]
	code := 200

	if !ok {
		code = 404
	}

	return &http.Response{StatusCode: code, Body: io.NopCloser(bytes.NewReader([]byte(b))), Header: http.Header{}, Request: q}, nil
}

// schemas: referenced JSON schemas apply.
func schemas(c *vh.Check, r *rand.Rand, v int, l ld.DocumentLoader, es []entry, verdict verdictFn) {
	doc := cred(r, v, false)
	doc["credentialSubject"] = M{"id": "did:test:s", "p0": "abc", "p1": 7.0}

	n := 1 + r.Intn(3)
	st := site{}

	var refs L

	bad := r.Intn(n + 1) // which one is not satisfied, n: none
	why := ""

	for i := 0; i < n; i++ {
		u := fmt.Sprintf("https://schema.example/%d", i)

		good, wrong := M{"type": "object"}, M{}

		switch r.Intn(5) {
		case 0:
			why = "required"
			good["properties"] = M{"credentialSubject": M{"required": L{"p0"}}}
			wrong["properties"] = M{"credentialSubject": M{"required": L{"p0", "p4"}}}
		case 1:
			why = "const"
			good["properties"] = M{"credentialSubject": M{"properties": M{"p0": M{"const": "abc"}}}}
			wrong["properties"] = M{"credentialSubject": M{"properties": M{"p0": M{"const": "abd"}}}}
		case 2:
			why = "maximum"
			good["properties"] = M{"credentialSubject": M{"properties": M{"p1": M{"maximum": 7}}}}
			wrong["properties"] = M{"credentialSubject": M{"properties": M{"p1": M{"maximum": 6}}}}
		case 3:
			why = "top"
			good["required"] = L{"issuer"}
			wrong["required"] = L{"issuer", "absent"}
		default:
			why = "closed"
			good["properties"] = M{"credentialSubject": M{"properties": M{"id": M{}, "p0": M{}, "p1": M{}}, "additionalProperties": false}}
			wrong["properties"] = M{"credentialSubject": M{"properties": M{"id": M{}, "p0": M{}}, "additionalProperties": false}}
		}

		good["$schema"], wrong["$schema"] = "http://json-schema.org/draft-07/schema#", "http://json-schema.org/draft-07/schema#"
		st[u] = string(vh.J(good))

		if i == bad {
			switch r.Intn(5) {
			case 0:
				delete(st, u)
				why = "unavailable"
			case 1:
				st[u] = "{nojson"
				why = "broken"
			default:
				st[u] = string(vh.J(wrong))
			}
		}

		refs = append(refs, M{"id": u, "type": vh.Pick(r, "JsonSchema", "JsonSchemaValidator2018")})
	}

	if r.Intn(3) == 0 {
		refs = append(refs, M{"id": "https://schema.example/unsupported", "type": "OtherSchema"})
		r.Shuffle(len(refs), func(i, j int) { refs[i], refs[j] = refs[j], refs[i] })
	}

	doc["credentialSchema"] = refs
	if len(refs) == 1 && r.Intn(2) == 0 {
		doc["credentialSchema"] = refs[0]
	}

	e := es[r.Intn(len(es))]
	sl := verifiable.NewCredentialSchemaLoaderBuilder().SetSchemaDownloadClient(&http.Client{Transport: st})

	if r.Intn(2) == 0 {
		sl.SetCache(verifiable.NewExpirableSchemaCache(1<<20, 1<<40))
	}

	opt := verifiable.WithCredentialSchemaLoader(sl.Build())
	det := M{"doc": doc, "entry": e.name, "site": st, "unsatisfied": bad, "of": n, "why": why}

	for k := 0; k < 2; k++ { // fetched, then cached
		c.Eval(fmt.Sprintf("schema/%d/%d/%d/%s/%v/%d", v, n, bad, e.name, why, k))

		err, ok := verdict(e, doc, append(common(l), opt), det)

		switch {
		case !ok:
		case bad < n:
			c.Count("schema.refused", 1)
			c.Expect(err != nil, "accepted/schema/"+why, "a credential not satisfying a schema it refers to was accepted", det)
		default:
			c.Count("accepted", 1)
			c.Expect(err == nil, "refused/schema", fmt.Sprintf("refused: %v", err), det)
		}
	}

	// base schema only
	if err, ok := verdict(e, doc, append(common(l), opt, verifiable.WithNoCustomSchemaCheck()), det); ok {
		c.Count("accepted", 1)
		c.Expect(err == nil, "refused/schema-ignored", fmt.Sprintf("refused although referenced schemas are ignored: %v", err), det)
	}

	mk := verifiable.JSONSchemaLoaderV1
	if v == 2 {
		mk = verifiable.JSONSchemaLoaderV2
	}

	// and with a default schema of the caller
	if err, ok := verdict(e, doc, append(common(l), opt, verifiable.WithSchema(mk()), verifiable.WithNoCustomSchemaCheck()), det); ok {
		c.Count("accepted", 1)
		c.Expect(err == nil, "refused/schema-ignored-own", fmt.Sprintf("refused although referenced schemas are ignored: %v", err), det)
	}

	d := vh.CloneM(doc)
	delete(d, "issuer")

	if err, ok := verdict(e, d, append(common(l), opt, verifiable.WithSchema(mk()), verifiable.WithNoCustomSchemaCheck()), det); ok {
		c.Count("schema.refused", 1)
		c.Expect(err != nil, "accepted/schema-ignored-own", "accepted without an issuer", det)
	}

	if err, ok := verdict(e, d, append(common(l), opt, verifiable.WithNoCustomSchemaCheck()), det); ok {
		c.Count("schema.refused", 1)
		c.Expect(err != nil, "accepted/schema-ignored", "accepted without an issuer", det)
	}
}

// presentations of both models.
func presentations(c *vh.Check, r *rand.Rand, v int, l ld.DocumentLoader) {
	b := base(v)
	doc := M{"@context": L{b, ctxTerms}, "type": L{"VerifiablePresentation"}}

	if r.Intn(3) == 0 {
		doc["type"] = append(doc["type"].(L), "AlphaPresentation")
	} else if r.Intn(3) == 0 {
		doc["type"] = "VerifiablePresentation"
	}

	if r.Intn(2) == 0 {
		doc["id"] = "urn:vp:" + vh.SafeStr(r)
	}

	if r.Intn(2) == 0 {
		doc["holder"] = "did:test:h"
	}

	if r.Intn(4) == 0 {
		doc["holderNote"] = value(r, 2)
	}

	mk := func() M {
		d := cred(r, v, false)
		delete(d, "proof")

		return d
	}

	switch r.Intn(4) {
	case 0:
		doc["verifiableCredential"] = L{mk(), mk()}
	case 1:
		doc["verifiableCredential"] = L{}
	case 2:
		doc["verifiableCredential"] = mk()
	}

	if r.Intn(2) == 0 {
		p := M{"type": "Ed25519Signature2018", "created": "2020-01-02T03:04:05Z", "proofPurpose": "authentication", "verificationMethod": "did:test:i#k", "jws": "eyJ..x"}
		if v == 2 {
			p = M{"type": "DataIntegrityProof", "cryptosuite": "ecdsa-rdfc-2019", "created": "2020-01-02T03:04:05Z", "proofPurpose": "authentication", "verificationMethod": "did:test:i#k", "proofValue": "z3x"}
		}

		doc["proof"] = p
	}

	opts := []verifiable.PresentationOpt{verifiable.WithPresDisabledProofCheck(), verifiable.WithPresJSONLDDocumentLoader(l)}
	mode := vh.Pick(r, "plain", "strict", "no-ld")

	switch mode {
	case "strict":
		opts = append(opts, verifiable.WithPresStrictValidation())
	case "no-ld":
		opts = append(opts, verifiable.WithDisabledJSONLDChecks())
	}

	try := func(name string, d M, want bool, key string) {
		det := M{"doc": d, "mode": mode, "alteration": name}
		c.Eval(fmt.Sprintf("vp/%d/%s/%s", v, mode, name))

		var err error

		if p, site, val := vh.Guard(func() { _, err = verifiable.ParsePresentation(vh.J(d), opts...) }); p {
			c.Violate("panic/"+site, fmt.Sprintf("ParsePresentation panicked: %v", val), det)
			return
		}

		if want {
			c.Count("vp.accepted", 1)
			c.Expect(err == nil, "refused/vp/"+mode+"/"+key, fmt.Sprintf("a valid presentation was refused: %v", err), det)
		} else {
			c.Count("vp.refused", 1)

			k := fmt.Sprintf("accepted/vp/%s/v%d/%s", mode, v, key)
			if key == "undefined-in-list" || key == "undefined-in-renamed-member" {
				k = "accepted/" + key
			}

			c.Expect(err != nil, k, "a presentation with a deviation was accepted: "+name, det)
		}
	}

	try("none", doc, true, "valid")

	put := func(name, fld string, x interface{}) {
		d := vh.CloneM(doc)
		d[fld] = x
		try(name, d, false, name)
	}

	for _, f := range []string{"@context", "type"} {
		d := vh.CloneM(doc)
		delete(d, f)
		try("missing:"+f, d, false, "missing:"+f)
		put("null:"+f, f, nil)
		put("number:"+f, f, 5)
		put("object:"+f, f, M{})
		put("empty:"+f, f, "")
		put("empty-list:"+f, f, L{})
	}

	for name, x := range map[string]interface{}{"missing-base": L{ctxTerms}, "base-second": L{ctxTerms, b}, "near-slash": L{b + "/", ctxTerms}, "near-hash": L{b + "#", ctxTerms}, "inline-first": L{M{"@vocab": "https://x/#"}, b},
		"unknown": L{"https://www.w3.org/2018/credentials/v3"}, "null-first": L{nil, b}} {
		put("ctx:"+name, "@context", x)
	}

	for name, x := range map[string]interface{}{"other": "VerifiableCredential", "other-list": L{"AlphaPresentation"}, "suffix": "VerifiablePresentationX", "prefix": "XVerifiablePresentation", "case": "verifiablePresentation",
		"newline": "VerifiablePresentation\n", "suffix-list": L{"VerifiablePresentations"}, "number-list": L{"VerifiablePresentation", 5}, "nested": L{L{"VerifiablePresentation"}}} {
		put("type:"+name, "type", x)
	}

	for name, x := range map[string]interface{}{"number": 5, "bool": true, "number-list": L{5}, "null-list": L{nil}, "nested": L{L{}}, "word": "nocredential", "empty-object": M{}} {
		put("vc:"+name, "verifiableCredential", x)
	}

	put("id:number", "id", 5)
	put("id:object", "id", M{})
	put("id:list", "id", L{"urn:x"})
	put("holder:number", "holder", 5)
	put("holder:list", "holder", L{"did:test:h"})
	put("proof:number", "proof", 5)
	put("proof:string", "proof", "x")

	if p, ok := doc["proof"].(M); ok {
		need := []string{"type"}
		if v == 2 {
			need = append(need, "proofPurpose", "verificationMethod", "created")
		}

		for _, n := range need {
			q := vh.CloneM(p)
			delete(q, n)
			put("proof:no-"+n, "proof", q)
			put("proof:no-"+n+"-in-list", "proof", L{q})
			put("proof:no-"+n+"-in-list-2", "proof", L{p, q})

			q = vh.CloneM(p)
			q[n] = 5
			put("proof:number-"+n, "proof", q)
		}

		if v == 2 {
			for name, x := range map[string]interface{}{"word": "now", "lead": "x2020-01-01T00:00:00Z", "trail": "2020-01-01T00:00:00Zx", "no-zone": "2020-01-01T00:00:00"} {
				q := vh.CloneM(p)
				q["created"] = x
				put("proof:created-"+name, "proof", q)
			}
		}
	}

	// undefined terms
	ps, in := spots(doc)

	for n := 0; n < 5; n++ {
		i := r.Intn(len(ps))

		where := "object"
		if in[i] {
			where = "list"
		}

		d := vh.CloneM(doc)

		m, ok := vh.Get(d, ps[i]).(M)
		if !ok {
			continue
		}

		m["undef"] = vh.Pick[interface{}](r, "x", 5.0, L{"a", "b"}, M{"p0": "x"})

		if where == "object" && v == 2 && len(ps[i]) > 1 && ps[i][0] == "verifiableCredential" {
			// compaction renames all members there (the term's scoped context is null), and did-go does not compare renamed members
			where = "renamed-member"
		}

		try("undefined-in-"+where, d, mode != "strict", "undefined-in-"+where)
	}
}
