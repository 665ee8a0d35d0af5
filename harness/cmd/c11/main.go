// C11: credential operations never alter their inputs or earlier values.
package main

import (
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/rand"
	"reflect"
	"strings"
	gotime "time"

	"github.com/trustbloc/did-go/doc/ld/processor"
	"github.com/trustbloc/did-go/doc/util/time"
	"github.com/trustbloc/kms-go/doc/jose"

	"github.com/trustbloc/vc-go/jwt"
	"github.com/trustbloc/vc-go/presexch"
	"github.com/trustbloc/vc-go/sdjwt/common"
	"github.com/trustbloc/vc-go/sdjwt/holder"
	"github.com/trustbloc/vc-go/sdjwt/issuer"
	sdverifier "github.com/trustbloc/vc-go/sdjwt/verifier"
	"github.com/trustbloc/vc-go/verifharness/vh"
	"github.com/trustbloc/vc-go/verifiable"
)

var (
	w       *vh.World
	cwtAlgs = []string{"EdDSA", "ES256", "ES384", "RS256", "PS256"}
)

type M = map[string]interface{}

func main() {
	req := map[string]int64{"histories": 500, "op.ok": 4000, "snapshots.compared": 40000, "modified": 600}
	for _, o := range []string{"parse.doc", "parse.bytes", "with", "claims", "jwt", "cose", "unsecured", "makesd", "disclose", "display", "marshal", "validate",
		"checkproof", "addld", "adddi", "resetproofs", "setdisc", "vp.new", "vp.clone", "vp.add", "vp.encode", "vp.sign", "vp.ld", "vp.di", "vp.parse",
		"vp.edit", "pex.create", "pex.match", "pex.verify", "sdjwt", "jwtclaims", "bbs", "setdisc"} {
		req["ok."+o] = 20
	}

	vh.Main(vh.Spec{
		ID: "C11",
		Rule: "histories of up to a dozen operations over a pool of documents, credentials (JSON, LD- and DI-proven, JWT, SD-JWT, CWT), presentations, claims and " +
			"option values derived from one another; the state of every pool member is recorded and compared after every operation; WithModified* results are " +
			"compared with the expected document and contents. Distinct: (data model, operation, kind of value, previous operation).",
		Level:   "exploration",
		Require: req,
		Assumptions: []string{"aliases the API documents as such are not separate values: Contents() shares its lists, CreateDisplayCredential* returns the credential itself when it is no SD-JWT",
			"AddLinkedDataProof, AddDataIntegrityProof, ResetProofs and SetSDJWTDisclosures may change the proofs or disclosures of their receiver only"},
		Run: run,
	})
}

// item is one value somebody holds.
type item struct {
	name, kind string
	v          interface{}
	snap       func() string
	last       string
	frozen     func() string // the part an in-place operation must not change
}

type pool struct {
	c     *vh.Check
	r     *rand.Rand
	items []*item
	log   []string
	v     int
	prev  string
}

func (p *pool) add(kind string, v interface{}, snap func() string) *item {
	it := &item{name: fmt.Sprintf("%s%d", kind, len(p.items)), kind: kind, v: v, snap: snap}
	it.last = snap()
	p.items = append(p.items, it)

	return it
}

func (p *pool) pick(kinds ...string) *item {
	var l []*item

	for _, it := range p.items {
		for _, k := range kinds {
			if it.kind == k {
				l = append(l, it)
			}
		}
	}

	if len(l) == 0 {
		return nil
	}

	return l[p.r.Intn(len(l))]
}

func js(v interface{}) string {
	b, err := json.Marshal(v)
	if err != nil {
		return "unmarshallable: " + err.Error() + fmt.Sprintf(" %#v", v)
	}

	return string(b)
}

// snapVC describes everything observable of a credential.
func snapVC(vc *verifiable.Credential, inPlaceToo bool) string {
	raw := vc.ToRawJSON()
	cont := vc.Contents()
	rep := vh.Reported(cont)

	if cont.SDJWTHashAlg != nil {
		rep["hash"] = fmt.Sprint(*cont.SDJWTHashAlg)
	}

	m := M{"contents": rep}

	if !inPlaceToo {
		delete(raw, "proof")
		m["raw"] = raw

		if e := vc.JWTEnvelope; e != nil {
			m["jwt"] = []interface{}{e.JWT, e.JWTHeaders, e.SDJWTVersion, e.SDHolderBinding}
		}
	} else {
		m["raw"], m["proofs"], m["own proof"] = raw, vc.Proofs(), fmt.Sprint(vc.CustomField("proof"))
		m["jwt"] = vc.JWTEnvelope
	}

	if e := vc.CWTEnvelope; e != nil {
		m["cwt"] = []interface{}{hex.EncodeToString(e.Sign1MessageRaw), fmt.Sprintf("%v|%v|%x|%x", e.Sign1MessageParsed.Headers.Protected,
			e.Sign1MessageParsed.Headers.Unprotected, e.Sign1MessageParsed.Payload, e.Sign1MessageParsed.Signature)}
	}

	return js(m)
}

func (p *pool) addVC(vc *verifiable.Credential) *item {
	if vc == nil {
		return nil
	}

	for _, it := range p.items {
		if it.v == interface{}(vc) {
			return it
		}
	}

	it := p.add("vc", vc, func() string { return snapVC(vc, true) })
	it.frozen = func() string { return snapVC(vc, false) }

	return it
}

func snapVP(vp *verifiable.Presentation, inPlaceToo bool) string {
	m := M{"context": vp.Context, "custom": vp.CustomContext, "id": vp.ID, "type": vp.Type, "holder": vp.Holder, "cf": vp.CustomFields, "jwt": vp.JWT}
	if vp.CWT != nil {
		m["cwt"] = fmt.Sprintf("%x %v", vp.CWT.Raw, vp.CWT.VPMap)
	}

	var l []string
	for _, vc := range vp.Credentials() {
		l = append(l, fmt.Sprintf("%p", vc)) // their state is recorded separately
	}

	if inPlaceToo {
		m["proofs"], m["creds"] = vp.Proofs, l
	}

	s := js(m)
	if p, err := vp.MarshalJSON(); err == nil && len(l) == 0 && inPlaceToo {
		s += string(p)
	}

	return s
}

func (p *pool) addVP(vp *verifiable.Presentation) *item {
	for _, vc := range vp.Credentials() {
		p.addVC(vc)
	}

	it := p.add("vp", vp, func() string { return snapVP(vp, true) })
	it.frozen = func() string { return snapVP(vp, false) }

	return it
}

// spare gives the caller's slice: its spare capacity belongs to the caller too.
func spare[T any](p *pool, name string, xs ...T) []T {
	s := make([]T, len(xs), len(xs)+3)
	copy(s, xs)

	p.add("slice:"+name, nil, func() string {
		full, o := s[:cap(s)], ""
		for i := range full {
			v := reflect.ValueOf(&full[i]).Elem()
			if v.Kind() == reflect.Func {
				o += fmt.Sprintf("%d:%v ", i, !v.IsNil())
			} else if v.Kind() == reflect.Ptr {
				o += fmt.Sprintf("%d:%p ", i, v.Interface())
			} else {
				o += fmt.Sprintf("%d:%v ", i, v.Interface())
			}
		}

		return o
	})

	return s
}

func (p *pool) addJS(kind string, v interface{}) *item {
	return p.add(kind, v, func() string { return js(v) })
}

// check compares every value with what it was; changed may differ in its in-place part.
func (p *pool) check(op string, changed *item, frozenBefore string) {
	for _, it := range p.items {
		now := it.snap()
		p.c.Count("snapshots.compared", 1)

		if it == changed {
			if f := it.frozen(); f != frozenBefore {
				p.c.Violate("inplace:"+op, op+" changed more of "+it.kind+" than its proofs or disclosures",
					fmt.Sprintf("%s\nhistory: %s", diffStr(frozenBefore, f), strings.Join(p.log, "; ")))
			}
		} else if now != it.last {
			p.c.Violate("changed:"+op+":"+it.kind, op+" changed a "+it.kind+" it was not to change",
				fmt.Sprintf("%s: %s\nhistory: %s", it.name, diffStr(it.last, now), strings.Join(p.log, "; ")))
		}

		it.last = now
	}
}

func diffStr(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}

	cut := func(s string) string {
		from, to := max(0, i-60), min(len(s), i+120)
		if from > len(s) {
			return ""
		}

		return s[from:to]
	}

	return fmt.Sprintf("before ...%s... after ...%s...", cut(a), cut(b))
}

func (p *pool) copts() []verifiable.CredentialOpt {
	return spare(p, "credopts", append(w.Lax(), verifiable.WithStrictValidation())[:4]...)
}

func (p *pool) ldopts() []processor.Opts {
	return spare(p, "ldopts", processor.WithDocumentLoader(w.Loader))
}

func run(c *vh.Check) {
	w = vh.NewWorld("issuer", "holder")
	w.PrepareLD()
	w.PrepareDI()

	c.Cases("history", c.N(2400, 30000), func(r *rand.Rand, i int) { history(c, r) })
}

func history(c *vh.Check, r *rand.Rand) {
	p := &pool{c: c, r: r, v: 1 + r.Intn(2), prev: "start"}

	for i, n := 0, 1+r.Intn(2); i < n; i++ {
		p.addJS("doc", p.newDoc())
	}

	for _, it := range append([]*item{}, p.items...) {
		if it.kind == "doc" {
			p.start(it)
		}
	}

	if r.Intn(2) == 0 {
		p.step("vp.new")
	}

	if r.Intn(3) == 0 {
		p.step("claims")
	}

	names := append(vh.SortedKeys(ops), "with", "with", "with", "bbs", "pex.create", "jwtclaims", "setdisc", "display", "vp.clone", "vp.edit", "addld", "sdjwt")

	for i, n := 0, 4+r.Intn(9); i < n; i++ {
		p.step(names[r.Intn(len(names))])
	}

	c.Count("histories", 1)
	c.Sample(strings.Join(p.log, "; "))
}

func (p *pool) newDoc() M {
	iss := w.Ents["issuer"]

	if p.r.Intn(3) != 0 {
		d := vh.Cred(p.r, vh.CredOpts{V: p.v, Issuer: iss.DID, LDSafe: true, NeedID: true, OneSubject: true})
		if p.r.Intn(3) == 0 {
			d["id"] = "https://cred.example/" + vh.SafeStr(p.r)
		}

		return d
	}

	return w.FullDoc(p.r, p.v, "json")
}

// start makes credentials of several kinds from a document.
func (p *pool) start(doc *item) {
	d, iss := doc.v.(M), w.Ents["issuer"]

	for i, n := 0, 2+p.r.Intn(3); i < n; i++ {
		kind := vh.Pick(p.r, "object", "object", "bytes", "ld", "bbs", "di", "jwt", "sdjwt", "cwt")
		panicked, _, _ := vh.Guard(func() {
			switch kind {
			case "object":
				vc, err := verifiable.ParseCredentialJSON(d, p.copts()...)
				if err == nil {
					p.addVC(vc)
				}
			case "bytes":
				b := vh.J(d)
				p.addJS("bytes", b)

				if vc, err := verifiable.ParseCredential(b, p.copts()...); err == nil {
					p.addVC(vc)
				}
			case "ld", "bbs":
				s := vh.LDSuites[p.r.Intn(len(vh.LDSuites))]
				if kind == "bbs" {
					s = vh.LDSuites[len(vh.LDSuites)-1]
				}

				src := d
				if s.Type == "BbsBlsSignature2020" { // BBS+ derivation needs the suite's terms
					src = vh.CloneM(d)
					src["@context"] = append(append([]interface{}{}, src["@context"].([]interface{})...), vh.CtxBBS)
				}

				sd, err := w.LDSign(src, w.LDContext(p.r, iss, s))
				if err != nil {
					return
				}

				p.addJS("doc", sd)

				if vc, err := verifiable.ParseCredentialJSON(sd, p.copts()...); err == nil {
					p.addVC(vc)
				}
			case "di":
				s := vh.DISuites[p.r.Intn(len(vh.DISuites))]
				sd := w.DISign(d, iss, s, w.DIOpts(p.r, iss, s))
				p.addJS("doc", sd)

				if vc, err := verifiable.ParseCredentialJSON(sd, p.copts()...); err == nil {
					p.addVC(vc)
				}
			case "sdjwt", "jwt", "cwt":
				t := vh.EmbedForm(p.r, kind, w.Token(p.r, kind, vh.CloneM(d)), false)
				b := []byte(t.(string))
				p.addJS("bytes", b)

				if vc, err := verifiable.ParseCredential(b, p.copts()...); err == nil {
					p.addVC(vc)
				}
			}
		})
		if panicked { // a document that form cannot carry
			p.c.Count("start.skipped", 1)
		}
	}

	p.check("parsing", nil, "")
}

type opFn func(p *pool) (detail string, target *item, err error)

func (p *pool) step(name string) {
	var (
		detail string
		target *item
		err    error
		before string
	)

	// the in-place part is taken before, for whichever value turns out to be the target
	frozen := map[*item]string{}
	for _, it := range p.items {
		if it.frozen != nil {
			frozen[it] = it.frozen()
		}
	}

	panicked, site, val := vh.Guard(func() { detail, target, err = ops[name](p) })
	if panicked {
		if s := fmt.Sprint(val); strings.HasPrefix(s, "vh-fixture") {
			panic(val)
		}

		p.c.Violate("panic:"+site, name+" panicked", fmt.Sprintf("%v\nhistory: %s", val, strings.Join(p.log, "; ")))

		return
	}

	if detail == "" {
		return
	}

	before = frozen[target]
	p.log = append(p.log, fmt.Sprintf("%s(%s)", name, detail))
	p.c.Eval(fmt.Sprintf("v%d/%s/%s/%s", p.v, name, detail, p.prev))
	p.prev = name

	if err == nil {
		p.c.Count("ok."+name, 1)
		p.c.Count("op.ok", 1)
	} else {
		p.c.Count("op.error", 1)
		p.log[len(p.log)-1] += "=error"
	}

	p.check(name, target, before)
}

func kindOf(vc *verifiable.Credential) string {
	switch {
	case vc.IsCWT():
		return "cwt"
	case vc.IsJWT() && len(vc.SDJWTDisclosures()) > 0:
		return "sdjwt"
	case vc.IsJWT():
		return "jwt"
	case len(vc.Proofs()) > 0:
		return "proven"
	}

	return "plain"
}

// onVC makes an operation over one credential.
func onVC(f func(p *pool, vc *verifiable.Credential) error) opFn {
	return func(p *pool) (string, *item, error) {
		it := p.pick("vc")
		if it == nil {
			return "", nil, nil
		}

		vc := it.v.(*verifiable.Credential)
		k := kindOf(vc)

		return k, nil, f(p, vc)
	}
}

func inPlace(f func(p *pool, vc *verifiable.Credential) error) opFn {
	return func(p *pool) (string, *item, error) {
		it := p.pick("vc")
		if p.r.Intn(3) == 0 { // prefer one with disclosures
			for i := 0; i < 4 && it != nil && len(it.v.(*verifiable.Credential).SDJWTDisclosures()) == 0; i++ {
				it = p.pick("vc")
			}
		}

		if it == nil {
			return "", nil, nil
		}

		k := kindOf(it.v.(*verifiable.Credential))

		return k, it, f(p, it.v.(*verifiable.Credential))
	}
}

func onVP(inplace bool, f func(p *pool, vp *verifiable.Presentation) error) opFn {
	return func(p *pool) (string, *item, error) {
		it := p.pick("vp")
		if it == nil {
			return "", nil, nil
		}

		err := f(p, it.v.(*verifiable.Presentation))
		if inplace {
			return "vp", it, err
		}

		return "vp", nil, err
	}
}

func (p *pool) result(vc *verifiable.Credential, err error) error {
	if err == nil {
		p.addVC(vc)
	}

	return err
}

var ops map[string]opFn

func key(p *pool, list []string) (*vh.Entity, *vh.Key) {
	e := w.Ents["issuer"]
	return e, e.Keys[list[p.r.Intn(len(list))]]
}

func init() {
	ops = map[string]opFn{
		"parse.doc": func(p *pool) (string, *item, error) {
			it := p.pick("doc")
			vc, err := verifiable.ParseCredentialJSON(it.v.(M), p.copts()...)

			return "doc", nil, p.result(vc, err)
		},
		"parse.bytes": func(p *pool) (string, *item, error) {
			it := p.pick("bytes")
			if it == nil {
				return "", nil, nil
			}

			opts := p.copts()
			if p.r.Intn(2) == 0 { // with the proof checked
				opts = spare(p, "credopts", verifiable.WithProofChecker(w.Checker), verifiable.WithJSONLDDocumentLoader(w.Loader),
					verifiable.WithDisabledRelatedResourceCheck())
			}

			vc, err := verifiable.ParseCredential(it.v.([]byte), opts...)

			return "bytes", nil, p.result(vc, err)
		},
		"with": with,
		"claims": onVC(func(p *pool, vc *verifiable.Credential) error {
			cl, err := vc.JWTClaims(p.r.Intn(2) == 0)
			if err != nil {
				return err
			}

			p.addJS("jwtclaims", cl)

			cw, err := vc.CWTClaims()
			if err == nil {
				p.addJS("cwtclaims", cw)
			}

			return err
		}),
		"jwtclaims": func(p *pool) (string, *item, error) {
			it := p.pick("jwtclaims")
			if it == nil {
				return "", nil, nil
			}

			cl := it.v.(*verifiable.JWTCredClaims)
			e, k := key(p, vh.JWTAlgs)

			switch p.r.Intn(3) {
			case 0:
				_, _, err := cl.MarshalJWS(k.JWSAlg(), w.Creator(e), k.ID)
				return "jws", nil, err
			case 1:
				_, err := cl.MarshalUnsecuredJWT()
				return "unsecured", nil, err
			default:
				_, err := cl.ToSDJWTV5CredentialPayload()
				return "v5", nil, err
			}
		},
		"jwt": onVC(func(p *pool, vc *verifiable.Credential) error {
			e, k := key(p, vh.JWTAlgs)
			return p.result(vc.CreateSignedJWTVC(p.r.Intn(2) == 0, k.JWSAlg(), w.Creator(e), k.ID))
		}),
		"cose": onVC(func(p *pool, vc *verifiable.Credential) error {
			e, k := key(p, cwtAlgs)
			return p.result(vc.CreateSignedCOSEVC(k.COSEAlg(), w.Creator(e), k.ID))
		}),
		"unsecured": onVC(func(p *pool, vc *verifiable.Credential) error {
			return p.result(vc.CreateUnsecuredJWTVC(p.r.Intn(2) == 0))
		}),
		"makesd": onVC(func(p *pool, vc *verifiable.Credential) error {
			e, k := key(p, vh.JWTAlgs)
			names := spare(p, "nonsd", "given0", "given1", "a")
			all := spare(p, "always", "given2")
			rec := spare(p, "recursive", "given0")

			signer, err := jwt.NewJOSESigner(jwt.SignParameters{KeyID: k.ID, JWTAlg: k.Alg}, w.Creator(e))
			if err != nil {
				return err
			}

			opts := spare(p, "sdopts", verifiable.MakeSDJWTWithVersion(vh.Pick(p.r, common.SDJWTVersionV2, common.SDJWTVersionV5)),
				verifiable.MakeSDJWTWithNonSelectivelyDisclosableClaims(names[:p.r.Intn(3)]), verifiable.MakeSDJWTWithAlwaysIncludeObjects(all))
			if p.r.Intn(2) == 0 {
				opts[2] = verifiable.MakeSDJWTWithRecursiveClaimsObjects(rec)
			}

			s, err := vc.MakeSDJWT(signer, k.ID, opts...)
			if err == nil {
				p.addJS("bytes", []byte(s))
			}

			return err
		}),
		"disclose": onVC(func(p *pool, vc *verifiable.Credential) error {
			e, k := key(p, vh.JWTAlgs)

			signer, err := jwt.NewJOSESigner(jwt.SignParameters{KeyID: k.ID, JWTAlg: k.Alg}, w.Creator(e))
			if err != nil {
				return err
			}

			names := spare(p, "names", p.discNames(vc)...)
			info := &holder.BindingInfo{Payload: holder.BindingPayload{Nonce: "n", Audience: "a"}, Signer: signer, Headers: jose.Headers{"typ": "JWT"}}
			p.add("binding", info, func() string { return js(info.Payload) + js(info.Headers) })

			opts := spare(p, "discopts", verifiable.DisclosureSigner(signer, k.ID))

			switch p.r.Intn(3) {
			case 0:
				opts = append(opts, verifiable.DiscloseAll())
			case 1:
				opts = append(opts, verifiable.DiscloseGivenIfAvailable(names))
			default:
				opts = append(opts, verifiable.DiscloseGivenRequired(names))
			}

			if p.r.Intn(2) == 0 {
				opts = append(opts, verifiable.DisclosureHolderBinding(info))
			}

			p.items = dropLastSlice(p.items, opts)

			s, err := vc.MarshalWithDisclosure(opts...)
			if err == nil {
				p.addJS("bytes", []byte(s))
			}

			return err
		}),
		"display": onVC(func(p *pool, vc *verifiable.Credential) error {
			names := spare(p, "names", p.discNames(vc)...)
			opt := verifiable.DisplayAllDisclosures()

			if p.r.Intn(2) == 0 {
				opt = verifiable.DisplayGivenDisclosures(names)
			}

			d, err := vc.CreateDisplayCredential(opt)
			if err != nil {
				return err
			}

			if d != vc {
				p.addVC(d)
			}

			m, err := vc.CreateDisplayCredentialMap(opt)
			if err == nil && d != vc {
				p.addJS("doc", M(m))
			}

			return err
		}),
		"marshal": onVC(func(p *pool, vc *verifiable.Credential) error {
			b, err := vc.MarshalJSON()
			if err == nil && len(b) > 0 && b[0] == '{' {
				p.addJS("bytes", b)
			}

			if _, e := vc.MarshalAsJSONLD(); e != nil {
				return e
			}

			_, _ = vc.MarshalAsCWTLD()
			_, _ = vc.MarshalAsCWTLDHex()
			_, _ = vc.ToJWTString()

			if _, e := vc.ToUniversalForm(); e != nil {
				return e
			}

			raw := vc.ToRawJSON() // a copy at its top level: adding to it alters nobody
			raw["added"] = true
			delete(raw, "type")

			return err
		}),
		"validate": onVC(func(p *pool, vc *verifiable.Credential) error {
			o := []verifiable.CredentialOpt{verifiable.WithJSONLDDocumentLoader(w.Loader), verifiable.WithDisabledRelatedResourceCheck()}
			if p.r.Intn(2) == 0 {
				o = append(o, verifiable.WithStrictValidation())
			}

			if p.r.Intn(3) == 0 {
				o = append(o, verifiable.WithExternalJSONLDContext(vh.CtxVerif))
			}

			return vc.ValidateCredential(spare(p, "credopts", o...)...)
		}),
		"checkproof": onVC(func(p *pool, vc *verifiable.Credential) error {
			o := []verifiable.CredentialOpt{verifiable.WithProofChecker(w.Checker), verifiable.WithJSONLDDocumentLoader(w.Loader), verifiable.WithDataIntegrityVerifier(w.DIVerifier())}
			if p.r.Intn(3) == 0 { // a context of the verifier's, which need not suit the credential
				o = append(o, verifiable.WithExternalJSONLDContext(vh.Pick(p.r, vh.CtxVerif, "https://w3id.org/security/data-integrity/v2")))
			}

			return vc.CheckProof(spare(p, "credopts", o...)...)
		}),
		"addld": inPlace(func(p *pool, vc *verifiable.Credential) error {
			iss := w.Ents["issuer"]
			lc := w.LDContext(p.r, iss, vh.LDSuites[p.r.Intn(len(vh.LDSuites))])
			p.add("ldcontext", lc, func() string { return snapLC(lc) })
			n := len(vc.Proofs())

			err := vc.AddLinkedDataProof(lc, p.ldopts()...)
			if err == nil && !vc.IsJWT() && !vc.IsCWT() {
				p.c.Expect(len(vc.Proofs()) == n+1, "addld", "AddLinkedDataProof did not append one proof", fmt.Sprint(n, len(vc.Proofs())))
			}

			return err
		}),
		"adddi": inPlace(func(p *pool, vc *verifiable.Credential) error {
			iss := w.Ents["issuer"]
			s := vh.DISuites[p.r.Intn(len(vh.DISuites))]
			dc := p.diContext(iss, s)

			return vc.AddDataIntegrityProof(dc, w.DISigner(iss.Keys[s.Alg]))
		}),
		"resetproofs": inPlace(func(p *pool, vc *verifiable.Credential) error {
			var ps []verifiable.Proof

			if it := p.pick("vc"); it != nil && p.r.Intn(3) != 0 {
				ps = it.v.(*verifiable.Credential).Proofs()
			}

			vc.ResetProofs(ps)

			raw := vh.M(vh.J(vc.ToRawJSON()))
			pr, has := raw["proof"]
			p.c.Expect(has == (len(ps) > 0) && len(vh.AsList(pr)) == len(ps), "resetproofs", "ResetProofs is not shown in the document", js(raw["proof"]))

			return nil
		}),
		"setdisc": inPlace(func(p *pool, vc *verifiable.Credential) error {
			l := vc.SDJWTDisclosures()

			if len(l) == 0 {
				return fmt.Errorf("none")
			}

			n := p.r.Intn(len(l) + 1)

			return vc.SetSDJWTDisclosures(spare(p, "disclosures", l...)[:n:n])
		}),
		"bbs":   bbs,
		"sdjwt": sdjwtOp,
		"vp.new": func(p *pool) (string, *item, error) {
			var vcs []*verifiable.Credential
			for i, n := 0, p.r.Intn(3); i < n; i++ {
				if it := p.pick("vc"); it != nil {
					vcs = append(vcs, it.v.(*verifiable.Credential))
				}
			}

			vp, err := verifiable.NewPresentation(verifiable.WithCredentials(spare(p, "vcs", vcs...)...), verifiable.WithBaseContext(base(p.v)))
			if err != nil {
				return "new", nil, err
			}

			vp.ID, vp.Holder = "urn:uuid:"+vh.SafeStr(p.r), w.Ents["holder"].DID
			if p.r.Intn(2) == 0 {
				vp.CustomFields = verifiable.CustomFields{"name": vh.SafeStr(p.r), "nested": M{"x": []interface{}{"y"}}}
			}

			vp.Context = append(make([]string, 0, 5), append(vp.Context, vh.CtxVerif)...)
			vp.Type = append(make([]string, 0, 4), vp.Type...)
			p.addVP(vp)

			return "new", nil, nil
		},
		"vp.parse": func(p *pool) (string, *item, error) {
			b := vh.J(w.FullVP(p.r, p.v, false))
			p.addJS("vpbytes", b)

			vp, err := verifiable.ParsePresentation(b, spare(p, "vpopts", w.LaxVP()...)...)
			if err == nil {
				p.addVP(vp)
			}

			return "json", nil, err
		},
		"vp.clone": onVP(false, func(p *pool, vp *verifiable.Presentation) error {
			cl := vp.Clone()
			p.c.Expect(snapVP(cl, true) == snapVP(vp, true), "clone", "Clone is not an exact copy", snapVP(cl, true)+"\n"+snapVP(vp, true))
			p.addVP(cl)

			return nil
		}),
		"vp.edit": func(p *pool) (string, *item, error) { // what a caller does to his own presentation
			it := p.pick("vp")
			if it == nil {
				return "", nil, nil
			}

			vp, what := it.v.(*verifiable.Presentation), vh.Pick(p.r, "context", "type", "field", "custom", "proofs", "element")
			switch what {
			case "context":
				vp.Context = append(vp.Context, "https://edited.example/"+vh.SafeStr(p.r))
			case "type":
				vp.Type = append(vp.Type, "Edited"+vh.SafeStr(p.r))
			case "field":
				if vp.CustomFields == nil {
					vp.CustomFields = verifiable.CustomFields{}
				}

				vp.CustomFields["edited"] = vh.SafeStr(p.r)
			case "custom":
				vp.CustomContext = append(vp.CustomContext, M{"edited": "https://edited.example/#" + vh.SafeStr(p.r)})
			case "proofs":
				vp.Proofs = append(vp.Proofs, verifiable.Proof{"type": "Edited", "jws": vh.SafeStr(p.r)})
			case "element":
				if len(vp.Type) > 0 {
					vp.Type[len(vp.Type)-1] = "Replaced" + vh.SafeStr(p.r)
				}
			}

			it.last = it.snap()

			f := it.frozen
			it.frozen = func() string { return "edited" }
			p.check("vp.edit."+what, it, "edited")
			it.frozen = f

			return what, nil, nil
		},
		"vp.add": func(p *pool) (string, *item, error) {
			it, c := p.pick("vp"), p.pick("vc")
			if it == nil || c == nil {
				return "", nil, nil
			}

			vp := it.v.(*verifiable.Presentation)
			want := append(append([]*verifiable.Credential{}, vp.Credentials()...), c.v.(*verifiable.Credential))
			vp.AddCredentials(c.v.(*verifiable.Credential))
			p.c.Expect(reflect.DeepEqual(want, vp.Credentials()), "vp.add", "AddCredentials did not append the credential", "")

			return "vp", it, nil
		},
		"vp.encode": onVP(false, func(p *pool, vp *verifiable.Presentation) error {
			aud := spare(p, "aud", "one", "two")

			_, err := vp.MarshalJSON()
			if _, e := vp.MarshalCBOR(); e != nil {
				err = e
			}

			if _, e := vp.JWTClaims(aud, p.r.Intn(2) == 0); e != nil {
				err = e
			}

			if _, e := vp.CWTClaims(aud, p.r.Intn(2) == 0); e != nil {
				err = e
			}

			if _, e := vp.MarshalledCredentials(); e != nil {
				err = e
			}

			return err
		}),
		"vp.sign": onVP(false, func(p *pool, vp *verifiable.Presentation) error {
			h := w.Ents["holder"]
			aud := spare(p, "aud", "one", "two")

			var (
				out *verifiable.Presentation
				err error
			)

			if p.r.Intn(2) == 0 {
				k := h.Keys[vh.Pick(p.r, vh.JWTAlgs...)]
				out, err = vp.CreateJWTVP(aud, k.JWSAlg(), w.Creator(h), k.ID, p.r.Intn(2) == 0)
			} else {
				k := h.Keys[vh.Pick(p.r, cwtAlgs...)]
				out, err = vp.CreateCWTVP(aud, k.COSEAlg(), w.Creator(h), k.ID, p.r.Intn(2) == 0)
			}

			if err == nil {
				p.addVP(out)
			}

			return err
		}),
		"vp.ld": onVP(true, func(p *pool, vp *verifiable.Presentation) error {
			h := w.Ents["holder"]
			lc := w.LDContext(p.r, h, vh.LDSuites[p.r.Intn(len(vh.LDSuites)-1)])
			p.add("ldcontext", lc, func() string { return snapLC(lc) })
			n := len(vp.Credentials())
			err := vp.AddLinkedDataProof(lc, p.ldopts()...)
			p.c.Expect(n == len(vp.Credentials()), "vp.ld", "AddLinkedDataProof changed the credentials", "")

			return err
		}),
		"vp.di": onVP(true, func(p *pool, vp *verifiable.Presentation) error {
			h := w.Ents["holder"]
			s := vh.DISuites[p.r.Intn(len(vh.DISuites))]
			dc := p.diContext(h, s)

			return vp.AddDataIntegrityProof(dc, w.DISigner(h.Keys[s.Alg]))
		}),
		"pex.create": pexCreate,
		"pex.match":  pexMatch,
		"pex.verify": pexVerify,
	}
}

// dropLastSlice re-registers an option slice the operation itself has appended to.
func dropLastSlice(items []*item, _ interface{}) []*item {
	for i := len(items) - 1; i >= 0; i-- {
		if items[i].kind == "slice:discopts" {
			items[i].last = items[i].snap()
			break
		}
	}

	return items
}

func base(v int) string {
	if v == 2 {
		return vh.CtxV2
	}

	return vh.CtxV1
}

func snapLC(lc *verifiable.LinkedDataProofContext) string {
	x := *lc
	x.ProofCreator = nil

	return js(x)
}

func (p *pool) diContext(e *vh.Entity, s vh.DISuite) *verifiable.DataIntegrityProofContext {
	dc := &verifiable.DataIntegrityProofContext{SigningKeyID: s.VMID(e), CryptoSuite: s.Suite}
	if p.r.Intn(2) == 0 {
		dc.ProofPurpose = vh.Pick(p.r, "assertionMethod", "authentication")
	}

	if p.r.Intn(2) == 0 {
		t := gotime.Unix(1500000000+p.r.Int63n(200000000), 0).UTC()
		dc.Created = &t
	}

	if p.r.Intn(2) == 0 {
		dc.Domain, dc.Challenge = "d-"+vh.SafeStr(p.r), "c-"+vh.SafeStr(p.r)
	}

	p.addJS("dicontext", dc)

	return dc
}

func (p *pool) discNames(vc *verifiable.Credential) []string {
	var names []string

	for _, d := range vc.SDJWTDisclosures() {
		if p.r.Intn(2) == 0 && d.Name != "" {
			names = append(names, d.Name)
		}
	}

	if p.r.Intn(3) == 0 {
		names = append(names, "given0")
	}

	return names
}

// with derives a modified credential and compares it with what was asked for.
func with(p *pool) (string, *item, error) {
	it := p.pick("vc")
	if it == nil {
		return "", nil, nil
	}

	r, vc := p.r, it.v.(*verifiable.Credential)
	d := vh.Norm(vc.ToRawJSON()).(M)
	delete(d, "proof")

	m := vh.Reported(vc.Contents())
	what := vh.Pick(r, "id", "issued", "expired", "from", "until", "context", "status", "refresh", "issuer", "subject")
	v2 := len(vc.Contents().Context) > 0 && vc.Contents().Context[0] == vh.CtxV2

	cf := func() verifiable.CustomFields {
		switch r.Intn(3) {
		case 0:
			return nil
		case 1:
			return verifiable.CustomFields{}
		}

		return verifiable.CustomFields{"cf": vh.Val(r, 2, false), "name": vh.SafeStr(r)}
	}

	obj := func(id, typ string, f verifiable.CustomFields) M {
		o := M{}
		for k, v := range f {
			o[k] = v
		}

		if id != "" {
			o["id"] = id
		}

		if typ != "" {
			o["type"] = typ
		}

		return o
	}

	entry := func(id, typ string, f verifiable.CustomFields, typed bool) M {
		rest := M{}
		for k, v := range f {
			rest[k] = v
		}

		o := M{"id": id, "rest": rest}
		if typed {
			o["type"] = typ
		}

		return o
	}

	set := func(k string, v interface{}) {
		if v == nil {
			delete(d, k)
		} else {
			d[k] = v
		}
	}

	tw := func() (*time.TimeWrapper, interface{}) {
		if r.Intn(4) == 0 {
			return nil, nil
		}

		s := vh.Pick(r, "2021-03-04T05:06:07.125Z", "2031-12-31T23:59:59-11:30", vh.Time(r))

		t, err := time.ParseTimeWrapper(s)
		if err != nil {
			panic("vh-fixture time " + err.Error())
		}

		return t, s
	}

	str := func(v interface{}) string { s, _ := v.(string); return s }

	if v2 && what == "issued" {
		what = "from"
	} else if v2 && what == "expired" {
		what = "until"
	} else if !v2 && what == "from" {
		what = "issued"
	} else if !v2 && what == "until" {
		what = "expired"
	}

	if s := map[string]string{"issued": "validFrom", "from": "issuanceDate", "expired": "validUntil", "until": "expirationDate"}[what]; s != "" && d[s] != nil {
		return "", nil, nil // a document with the date of the other data model: which one counts is not settled
	}

	var n *verifiable.Credential

	switch what {
	case "id":
		id := vh.Pick(r, "", "urn:new:"+vh.SafeStr(r))
		n = vc.WithModifiedID(id)
		m["id"] = id

		if set("id", id); id == "" {
			delete(d, "id")
		}
	case "issued":
		t, s := tw()
		n = vc.WithModifiedIssued(t)
		set("issuanceDate", s)
		m["issued"] = str(s)
	case "expired":
		t, s := tw()
		n = vc.WithModifiedExpired(t)
		set("expirationDate", s)
		m["expired"] = str(s)
	case "from":
		t, s := tw()
		n = vc.WithModifiedValidFrom(t)
		set("validFrom", s)
		m["issued"] = str(s)
	case "until":
		t, s := tw()
		n = vc.WithModifiedValidUntil(t)
		set("validUntil", s)
		m["expired"] = str(s)
	case "context":
		ctx := spare(p, "contexts", base(1+r.Intn(2)), vh.CtxVerif, "https://other.example/"+vh.SafeStr(r))[:1+r.Intn(3)]
		n = vc.WithModifiedContext(ctx)

		var l []interface{}
		for _, x := range ctx {
			l = append(l, x)
		}

		m["context"] = append([]interface{}{}, l...)
		l = append(l, vh.AsList(m["custom"])...)
		d["@context"] = l
	case "status":
		var (
			ts   []*verifiable.TypedID
			l    []interface{}
			ents = []interface{}{}
		)

		for i, k := 0, r.Intn(3); i < k; i++ {
			t := &verifiable.TypedID{ID: "https://st.example/" + vh.SafeStr(r), Type: "CustomStatus2099", CustomFields: cf()}
			ts = append(ts, t)
			l = append(l, obj(t.ID, t.Type, t.CustomFields))
			ents = append(ents, entry(t.ID, t.Type, t.CustomFields, true))
			p.addJS("typedid", t)
		}

		if r.Intn(3) == 0 {
			ts = append(ts, nil)
		}

		n = vc.WithModifiedStatus(spare(p, "statuses", ts...)...)
		m["status"] = ents

		switch len(l) {
		case 0:
			delete(d, "credentialStatus")
		case 1:
			d["credentialStatus"] = l[0]
		default:
			d["credentialStatus"] = l
		}
	case "refresh":
		var t *verifiable.TypedID
		if r.Intn(3) != 0 {
			t = &verifiable.TypedID{ID: "https://rf.example/" + vh.SafeStr(r), Type: "ManualRefreshService2018", CustomFields: cf()}
			set("refreshService", obj(t.ID, t.Type, t.CustomFields))
			m["refresh"] = []interface{}{entry(t.ID, t.Type, t.CustomFields, true)}
		} else {
			set("refreshService", nil)
			m["refresh"] = []interface{}{}
		}

		p.addJS("typedid", t)
		n = vc.WithModifiedRefreshService(t)
	case "issuer":
		var t *verifiable.Issuer
		if r.Intn(4) != 0 {
			t = &verifiable.Issuer{ID: "did:new:" + vh.SafeStr(r), CustomFields: cf()}
			m["issuer"] = entry(t.ID, "", t.CustomFields, false)

			if len(t.CustomFields) == 0 {
				d["issuer"] = t.ID
			} else {
				d["issuer"] = obj(t.ID, "", t.CustomFields)
			}
		} else {
			set("issuer", nil)
			delete(m, "issuer")
		}

		p.addJS("issuer", t)
		n = vc.WithModifiedIssuer(t)
	case "subject":
		var (
			ts   []verifiable.Subject
			l    []interface{}
			ents = []interface{}{}
		)

		for i, k := 0, r.Intn(3); i < k; i++ {
			t := verifiable.Subject{ID: vh.Pick(r, "", "did:sub:"+vh.SafeStr(r)), CustomFields: cf()}
			ts = append(ts, t)
			l = append(l, obj(t.ID, "", t.CustomFields))
			ents = append(ents, entry(t.ID, "", t.CustomFields, false))
		}

		n = vc.WithModifiedSubject(spare(p, "subjects", ts...))
		m["subject"] = ents

		switch len(l) {
		case 0:
			delete(d, "credentialSubject")
		case 1:
			d["credentialSubject"] = l[0]
		default:
			d["credentialSubject"] = l
		}
	}

	c, tag := p.c, what
	c.Count("modified", 1)

	got := vh.Norm(n.ToRawJSON()).(M)
	if diff := vh.Diff(canon(d), canon(got)); diff != "" {
		c.Violate("with-doc:"+tag, "the document of a modified credential is not the old one with that change: "+diff, js(d)+"\n"+js(got))
	}

	rep := vh.Reported(n.Contents())
	if diff := vh.Diff(vh.Norm(m), rep); diff != "" {
		c.Violate("with-contents:"+tag, "the contents of a modified credential are not the old ones with that change: "+diff, js(m)+"\n"+js(rep))
	}

	oa, na := vc.Contents().SDJWTHashAlg, n.Contents().SDJWTHashAlg
	c.Expect((oa == nil) == (na == nil) && (oa == nil || *oa == *na), "with-contents:hash", "the modification changes the SD hash algorithm", what)
	c.Expect(len(n.Proofs()) == 0 && !n.IsJWT() && !n.IsCWT(), "with-proofs:"+tag, "a modified credential kept proofs or an envelope", "")

	if n2, err := verifiable.ParseCredentialJSON(got, w.Lax()...); err == nil {
		if diff := vh.Diff(rep, vh.Reported(n2.Contents())); diff != "" {
			c.Violate("with-reparse:"+tag, "document and contents of a modified credential disagree at "+diff, js(got))
		}

		c.Count("with.reparsed", 1)
	}

	p.addVC(n)

	return what + "/" + kindOf(vc), nil, nil
}

// canon: subjects and issuers given as a bare id.
func canon(d M) M { return vh.Norm(vh.Canon(d)).(M) }

func bbs(p *pool) (string, *item, error) {
	var cands []*verifiable.Credential

	for _, it := range p.items {
		if vc, ok := it.v.(*verifiable.Credential); ok && !vc.IsJWT() && !vc.IsCWT() {
			for _, pr := range vc.Proofs() {
				if pr["type"] == "BbsBlsSignature2020" {
					cands = append(cands, vc)
					break
				}
			}
		}
	}

	if len(cands) == 0 {
		return "", nil, nil
	}

	vc := cands[p.r.Intn(len(cands))]
	raw := vc.ToRawJSON()
	frame := M{"@context": raw["@context"], "type": raw["type"], "@explicit": true, "issuer": M{}, "credentialSubject": M{"@explicit": p.r.Intn(2) == 0}}
	p.addJS("frame", frame)

	nonce := []byte("nonce")
	p.addJS("bytes2", nonce)

	out, err := vc.GenerateBBSSelectiveDisclosure(frame, nonce, w.BBSProofCreator(w.Ents["issuer"]),
		spare(p, "credopts", verifiable.WithJSONLDDocumentLoader(w.Loader), verifiable.WithCredDisableValidation())...)

	if err != nil {
		p.log = append(p.log, "bbs: "+err.Error())
	}

	return "bbs", nil, p.result(out, err)
}

// sdjwtOp uses the SD-JWT packages on values of the pool.
func sdjwtOp(p *pool) (string, *item, error) {
	r := p.r
	e, k := key(p, vh.JWTAlgs)

	signer, err := jwt.NewJOSESigner(jwt.SignParameters{KeyID: k.ID, JWTAlg: k.Alg}, w.Creator(e))
	if err != nil {
		return "sign", nil, err
	}

	claims := M{"given0": vh.Val(r, 2, false), "addr": M{"street": vh.SafeStr(r), "deep": M{"x": 1.0, "y": vh.SafeStr(r)}}, "list": []interface{}{"a", M{"b": "c"}, "d"}}
	p.addJS("claims", claims)

	hdr := jose.Headers{"typ": "vc+sd-jwt"}
	p.addJS("headers", hdr)

	always := spare(p, "always", "addr", "list")
	rec := spare(p, "recursive", "addr.deep")
	opts := spare(p, "issueropts", issuer.WithSDJWTVersion(vh.Pick(r, common.SDJWTVersionV2, common.SDJWTVersionV5)),
		issuer.WithNonSelectivelyDisclosableClaims(spare(p, "nonsd", "given0")), issuer.WithStructuredClaims(r.Intn(2) == 0),
		issuer.WithAlwaysIncludeObjects(always[:r.Intn(2)]), issuer.WithRecursiveClaimsObjects(rec[:r.Intn(2)]))

	tok, err := issuer.New(e.DID, claims, hdr, signer, opts...)
	if err != nil {
		return "issue", nil, err
	}

	s, err := tok.Serialize(false)
	if err != nil {
		return "issue", nil, err
	}

	cls, err := holder.Parse(s, holder.WithSignatureVerifier(w.Checker))
	if err != nil {
		return "holder", nil, err
	}

	p.addJS("holderclaims", cls)

	var pick []string
	for _, cl := range cls {
		if r.Intn(2) == 0 {
			pick = append(pick, cl.Disclosure)
		}
	}

	sel := spare(p, "select", pick...)

	pres, err := holder.CreatePresentation(s, sel)
	if err != nil {
		return "present", nil, err
	}

	out, err := sdverifier.Parse(pres, spare(p, "verifieropts", sdverifier.WithSignatureVerifier(w.Checker))...)
	if err != nil {
		return "verify", nil, err
	}

	p.addJS("claims", M(out))

	cfi := common.ParseCombinedFormatForIssuance(s)
	alg, _ := common.GetCryptoHashFromClaims(tok.SignedJWT.Payload)

	ds, err := common.GetDisclosureClaims(cfi.Disclosures, alg)
	if err != nil {
		return "disclosures", nil, err
	}

	p.addJS("disclosureclaims", ds)
	p.addJS("claims", tok.SignedJWT.Payload)

	got, err := common.GetDisclosedClaims(ds, tok.SignedJWT.Payload)
	if err != nil {
		return "disclosed", nil, err
	}

	p.addJS("claims", M(got))

	return "chain", nil, nil
}

// pex operations

func (p *pool) pd() *presexch.PresentationDefinition {
	r := p.r
	pd := &presexch.PresentationDefinition{ID: "pd-" + vh.SafeStr(r)}
	strT := "string"
	req := presexch.Required

	for i, n := 0, 1+r.Intn(2); i < n; i++ {
		d := &presexch.InputDescriptor{ID: fmt.Sprintf("d%d", i), Constraints: &presexch.Constraints{}}
		if r.Intn(2) == 0 {
			d.Constraints.LimitDisclosure = &req
		}

		path := vh.Pick(r, []string{"$.issuer", "$.vc.issuer", "$.issuer.id"}, []string{"$.credentialSubject.given0"}, []string{"$.credentialSubject.id", "$.credentialSubject[0].id"},
			[]string{"$.id"}, []string{"$.type"}, []string{"$.credentialSubject.name", "$.nothing"})
		f := &presexch.Field{Path: spare(p, "path", path...)}

		if r.Intn(3) == 0 {
			f.Filter = &presexch.Filter{FilterItem: presexch.FilterItem{Type: &strT, MinLength: 1}}
		}

		if r.Intn(6) == 0 && f.Filter != nil {
			f.Predicate = &req
		}

		d.Constraints.Fields = []*presexch.Field{f}
		pd.InputDescriptors = append(pd.InputDescriptors, d)
	}

	if r.Intn(4) == 0 {
		for _, d := range pd.InputDescriptors {
			d.Group = []string{"A"}
		}

		pd.SubmissionRequirements = []*presexch.SubmissionRequirement{{Rule: presexch.Pick, Count: 1, From: "A"}}
	}

	p.addJS("pd", pd)

	return pd
}

func (p *pool) vcs() []*verifiable.Credential {
	var vcs []*verifiable.Credential

	for i, n := 0, 1+p.r.Intn(3); i < n; i++ {
		if it := p.pick("vc"); it != nil {
			vcs = append(vcs, it.v.(*verifiable.Credential))
		}
	}

	return spare(p, "vcs", vcs...)
}

func (p *pool) pexOpts() []presexch.MatchRequirementsOpt {
	co := spare(p, "credopts", append(w.Lax(), verifiable.WithProofChecker(w.Checker))...)

	return spare(p, "matchopts", presexch.WithSDCredentialOptions(co...), presexch.WithSDBBSProofCreator(w.BBSProofCreator(w.Ents["issuer"])))
}

func pexCreate(p *pool) (string, *item, error) {
	pd, vcs := p.pd(), p.vcs()
	kinds := ""

	for _, v := range vcs {
		kinds += kindOf(v)[:1]
	}

	if p.r.Intn(2) == 0 {
		vp, err := pd.CreateVP(vcs, w.Loader, p.pexOpts()...)
		if err == nil {
			p.addVP(vp)
		}

		return "vp/" + kinds, nil, err
	}

	vps, sub, err := pd.CreateVPArray(vcs, w.Loader, p.pexOpts()...)
	for _, vp := range vps {
		p.addVP(vp)
	}

	p.addJS("submission", sub)

	return "array/" + kinds, nil, err
}

func pexMatch(p *pool) (string, *item, error) {
	pd, vcs := p.pd(), p.vcs()
	opts := p.pexOpts()

	if p.r.Intn(2) == 0 {
		opts = spare(p, "matchopts", append(opts, presexch.WithSelectiveDisclosureApply())...)
		p.items[len(p.items)-2].last = p.items[len(p.items)-2].snap() // the append above is the caller's
	}

	res, err := pd.MatchSubmissionRequirement(vcs, w.Loader, opts...)

	for _, m := range res {
		for _, d := range m.Descriptors {
			for _, vc := range d.MatchedVCs {
				p.addVC(vc)
			}
		}
	}

	return "match", nil, err
}

func pexVerify(p *pool) (string, *item, error) {
	pd, vcs := p.pd(), p.vcs()

	for _, d := range pd.InputDescriptors { // most credentials satisfy this
		d.Constraints.Fields[0].Path = []string{"$.type"}
		d.Constraints.Fields[0].Filter, d.Constraints.Fields[0].Predicate, d.Constraints.LimitDisclosure = nil, nil, nil
	}

	for _, it := range p.items {
		it.last = it.snap()
	}

	vp, err := pd.CreateVP(vcs, w.Loader, p.pexOpts()...)
	if err != nil {
		return "create", nil, err
	}

	p.addVP(vp)

	_, err = pd.Match(spare(p, "vps", vp), w.Loader, spare(p, "matchopts2",
		presexch.WithCredentialOptions(spare(p, "credopts", append(w.Lax(), verifiable.WithProofChecker(w.Checker))...)...), presexch.WithDisableSchemaValidation())...)

	return "verify", nil, err
}
