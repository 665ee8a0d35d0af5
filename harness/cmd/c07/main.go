// C07: SD-JWT verification rejects forged, mismatched or unbound presentations.
package main

import (
	"bytes"
	"crypto"
	"encoding/base64"
	"fmt"
	"math/rand"
	"strings"
	"time"

	"github.com/trustbloc/vc-go/sdjwt/common"
	"github.com/trustbloc/vc-go/sdjwt/holder"
	"github.com/trustbloc/vc-go/sdjwt/issuer"
	"github.com/trustbloc/vc-go/sdjwt/verifier"
	"github.com/trustbloc/vc-go/verifharness/vh"
)

var w *vh.World

func main() {
	vh.Main(vh.Spec{
		ID: "C07",
		Rule: "a genuine presentation (by the code's issuer or composed by the harness, both drafts, with and without holder " +
			"binding) must be accepted, then one deviation of each kind must be rejected by verifier.Parse (and holder.Parse where " +
			"it applies). Non-trivial: distinct (deviation, draft, issuer algorithm, binding algorithm) tuples.",
		Level: "exploration",
		Require: map[string]int64{"accepted.genuine": 400, "accepted.within-leeway": 50, "rejected": 1500, "binding.accepted": 100, "binding.rejected": 300,
			"detached.accepted": 200, "detached.refused": 200, "detached.deviation": 500},
		Assumptions: []string{"time claims are at least five minutes away from the bound"},
		Run:         run,
	})
}

type M = map[string]interface{}

// tok is a token composed piecewise so that every part can be bent.
type tok struct {
	key     *vh.Key
	hdr     M
	payload M
	discs   []string // raw
	hash    crypto.Hash
	kbKey   *vh.Key
	kbHdr   M
	kb      M
	kbRaw   string
	v5      bool
}

func (t *tok) digest(raw string) string { return vh.SDDigest(raw, t.hash) }

func (t *tok) sdjwt() string { return vh.JWS(t.hdr, vh.J(t.payload), t.key) }

func (t *tok) kbjwt() string {
	if t.kbRaw != "" {
		return t.kbRaw
	}

	if t.kb == nil {
		return ""
	}

	return vh.JWS(t.kbHdr, vh.J(t.kb), t.kbKey)
}

func (t *tok) String() string {
	return t.sdjwt() + "~" + strings.Join(append(append([]string{}, t.discs...), t.kbjwt()), "~")
}

const nonce, aud = "nonce-77", "https://verifier.example"

func salt(r *rand.Rand) string {
	return vh.B64([]byte(fmt.Sprintf("salt%012d%08d", r.Int63n(1e12), r.Intn(1e8))))
}

// base composes a genuine presentation.
func base(r *rand.Rand, bind bool) *tok {
	iss := w.Ents["issuer"]
	t := &tok{key: iss.Keys[vh.Pick(r, vh.JWTAlgs...)], hash: vh.Pick(r, crypto.SHA256, crypto.SHA384, crypto.SHA512), v5: r.Intn(2) == 0}
	t.hdr = M{"alg": t.key.Alg, "kid": t.key.ID, "typ": "vc+sd-jwt"}
	name := map[crypto.Hash]string{crypto.SHA256: "sha-256", crypto.SHA384: "sha-384", crypto.SHA512: "sha-512"}[t.hash]
	d1 := vh.EncDisc(salt(r), "given", vh.SafeStr(r))
	d2 := vh.EncDisc(salt(r), "family", M{"a": vh.SafeStr(r), "b": 1})
	d3 := vh.EncDisc(salt(r), "street", vh.SafeStr(r))
	t.payload = M{"iss": iss.DID, "_sd_alg": name, "visible": "v" + vh.SafeStr(r), "iat": time.Now().Unix() - 7200,
		"nbf": time.Now().Unix() - 7200, "exp": time.Now().Unix() + 7200,
		"_sd":  []interface{}{t.digest(d1), t.digest(d2), t.digest("unused" + salt(r))},
		"addr": M{"country": "XX", "_sd": []interface{}{t.digest(d3)}}}
	t.discs = []string{d1, d2, d3}

	if t.v5 {
		e1 := vh.EncDisc(salt(r), "element"+vh.SafeStr(r))
		child := vh.EncDisc(salt(r), "inner", vh.SafeStr(r))
		parent := vh.EncDisc(salt(r), "outer", M{"_sd": []interface{}{t.digest(child)}})
		t.payload["list"] = []interface{}{"plain", M{"...": t.digest(e1)}}

		var more []string

		if r.Intn(2) == 0 { // digests inside of array elements
			e2 := vh.EncDisc(salt(r), "cell", vh.SafeStr(r))
			e3 := vh.EncDisc(salt(r), M{"deep": []interface{}{M{"seen": true, "_sd": []interface{}{t.digest("unused" + salt(r))}}}})
			e4 := vh.EncDisc(salt(r), "tail", []interface{}{M{"_sd": []interface{}{t.digest(e2)}, "n": 1}, "x"})
			t.payload["rows"] = []interface{}{M{"kept": vh.SafeStr(r), "_sd": []interface{}{t.digest("unused" + salt(r)), t.digest(e4)}},
				[]interface{}{"a", M{"...": t.digest(e3)}, M{"...": t.digest("unused" + salt(r))}}, nil, []interface{}{}}
			more = []string{e2, e3, e4}
		}

		t.payload["_sd"] = append(sds(t), t.digest(parent))
		t.discs = append(append(t.discs, e1, parent, child), more...)
	}

	if bind {
		t.kbKey = w.Ents["holder"].Keys[vh.Pick(r, vh.JWTAlgs...)]
		t.payload["cnf"] = M{"jwk": vh.Norm(t.kbKey.JWK)}
		t.kbHdr = M{"alg": t.kbKey.Alg}

		if t.v5 {
			t.kbHdr["typ"] = "kb+jwt"
		}

		t.kb = M{"nonce": nonce, "aud": aud, "iat": time.Now().Unix() - 60}
	}

	return t
}

// inList puts an object into an array, or an array of arrays, or nowhere.
func inList(r *rand.Rand, m M) interface{} {
	switch r.Intn(4) {
	case 0:
		return []interface{}{"x", m}
	case 1:
		return []interface{}{[]interface{}{m}, 1}
	}

	return m
}

func drop(xs []string, i int) []string { return append(append([]string{}, xs[:i]...), xs[i+1:]...) }

func sds(t *tok) []interface{} { return t.payload["_sd"].([]interface{}) }

type dev struct {
	name string
	bind int // 0: either, 1: needs binding, -1: without
	opts []verifier.ParseOpt
	f    func(r *rand.Rand, t *tok) string // "" not applicable
}

func (t *tok) with(f func()) string { f(); return t.String() }

func flip(s string, r *rand.Rand) string {
	p := strings.Split(s, ".")
	b, err := base64.RawURLEncoding.DecodeString(p[2])

	if err != nil || len(b) == 0 {
		panic("vh-fixture flip")
	}

	b[r.Intn(len(b))] ^= 1 << r.Intn(8)
	p[2] = vh.B64(b)

	return strings.Join(p, ".")
}

func add(t *tok, d string) { t.discs = append(t.discs, d) }

func ref(t *tok, d string) { t.payload["_sd"] = append(sds(t), t.digest(d)) }

func devs() []dev {
	hour := func(h int) int64 { return time.Now().Unix() + int64(h)*3600 }
	anyAlg := verifier.WithIssuerSigningAlgorithms

	return []dev{
		{"issuer-sig-bit", 0, nil, func(r *rand.Rand, t *tok) string {
			s := t.String()
			i := strings.Index(s, "~")

			return flip(s[:i], r) + s[i:]
		}},
		{"issuer-payload-altered", 0, nil, func(r *rand.Rand, t *tok) string {
			s := t.String()
			p := strings.Split(s[:strings.Index(s, "~")], ".")
			t.payload[vh.Pick(r, "visible", "extra")] = "forged"

			return p[0] + "." + vh.B64(vh.J(t.payload)) + "." + p[2] + s[strings.Index(s, "~"):]
		}},
		{"issuer-attacker-kid", 0, nil, func(r *rand.Rand, t *tok) string {
			return t.with(func() { t.key = w.Ents["mallory"].Keys[t.key.Alg]; t.hdr["kid"] = t.key.ID })
		}},
		{"issuer-attacker-key", 0, nil, func(r *rand.Rand, t *tok) string {
			return t.with(func() { t.key = w.Ents["mallory"].Keys["EdDSA"] })
		}},
		{"issuer-missing-iss", 0, nil, func(r *rand.Rand, t *tok) string { return t.with(func() { delete(t.payload, "iss") }) }},
		{"issuer-none", 0, []verifier.ParseOpt{anyAlg([]string{"none"})}, func(r *rand.Rand, t *tok) string {
			t.hdr["alg"] = "none"
			s := t.String()
			p := strings.SplitN(s, "~", 2)

			return p[0][:strings.LastIndex(p[0], ".")+1] + "~" + p[1]
		}},
		{"issuer-none-keeps-sig", 0, []verifier.ParseOpt{anyAlg([]string{"none"})}, func(r *rand.Rand, t *tok) string {
			return t.with(func() { t.hdr["alg"] = "none" })
		}},
		{"issuer-alg-not-allowed", 0, []verifier.ParseOpt{anyAlg([]string{"HS256", "XX"})}, func(r *rand.Rand, t *tok) string { return t.String() }},
		{"issuer-alg-default-list", 0, []verifier.ParseOpt{anyAlg([]string{"EdDSA", "RS256"})}, func(r *rand.Rand, t *tok) string {
			if t.key.Alg == "EdDSA" || t.key.Alg == "RS256" {
				return ""
			}

			return t.String()
		}},
		{"typ-mismatch", 0, []verifier.ParseOpt{verifier.WithExpectedTypHeader("vc+sd-jwt")}, func(r *rand.Rand, t *tok) string {
			return t.with(func() {
				t.hdr["typ"] = vh.Pick(r, "JWT", "vc+sd-jwtx", "VC+SD-JWT", "kb+jwt", "avc+sd-jwt", "x/vc+sd-jwt", "vc+sd-jwt ", " vc+sd-jwt", "", "sd-jwt", "vc")
			})
		}},
		{"typ-missing", 0, []verifier.ParseOpt{verifier.WithExpectedTypHeader("vc+sd-jwt")}, func(r *rand.Rand, t *tok) string {
			return t.with(func() { delete(t.hdr, "typ") })
		}},
		{"expired", 0, nil, func(r *rand.Rand, t *tok) string { return t.with(func() { t.payload["exp"] = hour(-2) }) }},
		{"expired-before-valid", 0, nil, func(r *rand.Rand, t *tok) string {
			return t.with(func() { t.payload["exp"], t.payload["nbf"] = hour(-4), hour(-3) })
		}},
		{"beyond-leeway", 0, []verifier.ParseOpt{verifier.WithLeewayForClaimsValidation(time.Hour)}, func(r *rand.Rand, t *tok) string {
			return t.with(func() { late(r, t.payload, 60+r.Intn(55)) })
		}},
		{"kb-beyond-leeway", 1, []verifier.ParseOpt{verifier.WithLeewayForClaimsValidation(time.Hour)}, func(r *rand.Rand, t *tok) string {
			return t.with(func() { late(r, t.kb, 60+r.Intn(55)) })
		}},
		{"not-yet-valid", 0, nil, func(r *rand.Rand, t *tok) string { return t.with(func() { t.payload["nbf"] = hour(3) }) }},
		{"issued-in-future", 0, nil, func(r *rand.Rand, t *tok) string { return t.with(func() { t.payload["iat"] = hour(3) }) }},
		{"nbf-huge", 0, nil, func(r *rand.Rand, t *tok) string {
			return t.with(func() { t.payload["nbf"] = vh.Pick(r, 1e15, 1e300, 1e19) })
		}},
		{"exp-not-a-time", 0, nil, func(r *rand.Rand, t *tok) string {
			return t.with(func() { t.payload["exp"] = vh.Pick[interface{}](r, "never", []interface{}{1}, M{"a": 1}) })
		}},
		{"time-with-zero-leeway", 0, []verifier.ParseOpt{verifier.WithLeewayForClaimsValidation(0)}, func(r *rand.Rand, t *tok) string {
			return t.with(func() { t.payload["exp"] = time.Now().Unix() - 30 })
		}},
		{"disclosure-unknown", 0, nil, func(r *rand.Rand, t *tok) string {
			return t.with(func() { add(t, vh.EncDisc(salt(r), "evil", "claim")) })
		}},
		{"disclosure-unknown-element", 0, nil, func(r *rand.Rand, t *tok) string { return t.with(func() { add(t, vh.EncDisc(salt(r), "evil")) }) }},
		{"disclosure-value-changed", 0, nil, func(r *rand.Rand, t *tok) string {
			return t.with(func() {
				d, _ := vh.DecDisc(t.discs[0], t.hash)
				t.discs[0] = vh.EncDisc(d.Salt, d.Name, "forged")
			})
		}},
		{"disclosure-name-changed", 0, nil, func(r *rand.Rand, t *tok) string {
			return t.with(func() {
				d, _ := vh.DecDisc(t.discs[0], t.hash)
				t.discs[0] = vh.EncDisc(d.Salt, "forged", d.Value)
			})
		}},
		{"disclosure-respaced", 0, nil, func(r *rand.Rand, t *tok) string {
			return t.with(func() {
				b, _ := base64.RawURLEncoding.DecodeString(t.discs[0])
				t.discs[0] = vh.B64([]byte(strings.Replace(string(b), ",", ", ", 1)))
			})
		}},
		{"disclosure-duplicate", 0, nil, func(r *rand.Rand, t *tok) string {
			return t.with(func() { i := r.Intn(len(t.discs)); add(t, t.discs[i]) })
		}},
		{"disclosure-of-other-hash", 0, nil, func(r *rand.Rand, t *tok) string {
			return t.with(func() {
				d := vh.EncDisc(salt(r), "other", "hash")
				o := crypto.SHA256
				if t.hash == o {
					o = crypto.SHA512
				}
				t.payload["_sd"] = append(sds(t), vh.SDDigest(d, o))
				add(t, d)
			})
		}},
		{"disclosure-child-without-parent", 0, nil, func(r *rand.Rand, t *tok) string {
			if !t.v5 {
				return ""
			}

			return t.with(func() { t.discs = drop(t.discs, 4) })
		}},
		{"disclosure-malformed", 0, nil, func(r *rand.Rand, t *tok) string {
			return t.with(func() {
				d := vh.Pick(r, "!!!", vh.B64([]byte("not json")), vh.B64([]byte(`{"a":1}`)), vh.B64([]byte(`["s"]`)), vh.B64([]byte(`[]`)),
					vh.B64([]byte(`["s","n","v","x"]`)), vh.B64([]byte(`[1,"n","v"]`)), vh.B64([]byte(`["s",1,"v"]`)), vh.B64([]byte(`null`)),
					vh.B64([]byte(`"s"`)), vh.B64([]byte(`["s","n","v"`)))
				ref(t, d)
				add(t, d)
			})
		}},
		{"digest-twice-same-array", 0, nil, func(r *rand.Rand, t *tok) string {
			return t.with(func() { i := r.Intn(2); t.payload["_sd"] = append(sds(t), sds(t)[i]) })
		}},
		{"digest-twice-other-place", 0, nil, func(r *rand.Rand, t *tok) string {
			return t.with(func() { t.payload["second"] = inList(r, M{"_sd": []interface{}{sds(t)[r.Intn(2)]}}) })
		}},
		{"digest-twice-undisclosed", 0, nil, func(r *rand.Rand, t *tok) string {
			return t.with(func() { t.payload["second"] = M{"deep": inList(r, M{"_sd": []interface{}{sds(t)[2]}})} })
		}},
		{"digest-twice-in-disclosure", 0, nil, func(r *rand.Rand, t *tok) string {
			return t.with(func() {
				d := vh.EncDisc(salt(r), "wrap", inList(r, M{"_sd": []interface{}{sds(t)[r.Intn(3)]}}))
				ref(t, d)
				add(t, d)
			})
		}},
		{"digest-twice-in-list", 0, nil, func(r *rand.Rand, t *tok) string {
			return t.with(func() {
				e := vh.EncDisc(salt(r), "elem")
				t.payload["l1"] = []interface{}{M{"...": t.digest(e)}}
				t.payload["l2"] = []interface{}{M{"...": t.digest(e)}}
				add(t, e)
			})
		}},
		{"digest-in-member-and-element", 0, nil, func(r *rand.Rand, t *tok) string { // neither place disclosed, or one of them
			return t.with(func() {
				x := vh.EncDisc(salt(r), "hidden")
				if r.Intn(2) == 0 {
					x = vh.EncDisc(salt(r), "hidden", "x")
				}

				t.payload["l1"] = []interface{}{"a", M{"...": t.digest(x)}}
				ref(t, x)
			})
		}},
		{"digest-twice-in-lists-undisclosed", 0, nil, func(r *rand.Rand, t *tok) string {
			return t.with(func() {
				e := M{"...": t.digest(vh.EncDisc(salt(r), "elem"))}
				if r.Intn(2) == 0 {
					t.payload["l1"] = []interface{}{e, "x", vh.CloneM(e)}
				} else {
					t.payload["l1"] = []interface{}{"x", e}
					t.payload["addr"].(M)["l2"] = []interface{}{vh.CloneM(e)}
				}
			})
		}},
		{"digest-twice-one-in-value", 0, nil, func(r *rand.Rand, t *tok) string { // both inside disclosed values
			return t.with(func() {
				x := vh.EncDisc(salt(r), "deep", "x")
				p1 := vh.EncDisc(salt(r), "p1", M{"in": inList(r, M{"_sd": []interface{}{t.digest(x)}})})
				p2 := vh.EncDisc(salt(r), "p2", inList(r, M{"_sd": []interface{}{t.digest(x)}}))
				ref(t, p1)
				ref(t, p2)
				add(t, p1)
				add(t, p2)

				if r.Intn(2) == 0 {
					add(t, x)
				}
			})
		}},
		{"overwrites-in-element", 0, nil, func(r *rand.Rand, t *tok) string {
			return t.with(func() {
				x := vh.EncDisc(salt(r), "n", vh.Pick[interface{}](r, "evil", nil, 1))
				t.payload["second"] = []interface{}{"a", []interface{}{M{"n": 1, "_sd": []interface{}{t.digest(x)}}}}
				add(t, x)
			})
		}},
		{"element-disclosure-as-member-of-element", 0, nil, func(r *rand.Rand, t *tok) string {
			return t.with(func() {
				x := vh.EncDisc(salt(r), "elem")
				t.payload["second"] = []interface{}{M{"n": 1, "_sd": []interface{}{t.digest(x)}}}
				add(t, x)
			})
		}},
		{"member-disclosure-as-nested-element", 0, nil, func(r *rand.Rand, t *tok) string {
			return t.with(func() {
				x := vh.EncDisc(salt(r), "name", "elem")
				t.payload["second"] = []interface{}{[]interface{}{M{"...": t.digest(x)}}}
				add(t, x)
			})
		}},
		{"bad-digests-in-element", 0, nil, func(r *rand.Rand, t *tok) string {
			return t.with(func() {
				t.payload["second"] = []interface{}{M{"n": 1, "_sd": vh.Pick[interface{}](r, "x", 7, M{"a": 1}, []interface{}{1})}}
			})
		}},
		{"overwrites-null", 0, nil, func(r *rand.Rand, t *tok) string { // one of the two values is null
			return t.with(func() {
				a, b := vh.Pick[interface{}](r, nil, "x"), interface{}("evil")
				if a != nil {
					b = nil
				}

				d := vh.EncDisc(salt(r), "nullable", b)
				ref(t, d)
				add(t, d)

				if r.Intn(2) == 0 {
					t.payload["nullable"] = a
				} else {
					o := vh.EncDisc(salt(r), "nullable", a)
					ref(t, o)
					add(t, o)
				}
			})
		}},
		{"same-name-in-value", 0, nil, func(r *rand.Rand, t *tok) string {
			return t.with(func() {
				x := vh.EncDisc(salt(r), "k", "evil")
				p := vh.EncDisc(salt(r), "wrap", M{"k": "visible", "_sd": []interface{}{t.digest(x)}})
				ref(t, p)
				add(t, p)
				add(t, x)
			})
		}},
		{"overwrites-visible", 0, nil, func(r *rand.Rand, t *tok) string {
			return t.with(func() {
				d := vh.EncDisc(salt(r), vh.Pick(r, "visible", "iss", "addr"), "evil")
				ref(t, d)
				add(t, d)
			})
		}},
		{"overwrites-visible-same-value", 0, nil, func(r *rand.Rand, t *tok) string {
			return t.with(func() {
				n := vh.Pick(r, "visible", "iss")
				d := vh.EncDisc(salt(r), n, t.payload[n])
				ref(t, d)
				add(t, d)
			})
		}},
		{"same-name-same-value", 0, nil, func(r *rand.Rand, t *tok) string {
			return t.with(func() {
				o, _ := vh.DecDisc(t.discs[r.Intn(2)], t.hash)
				d := vh.EncDisc(salt(r), o.Name, o.Value)
				ref(t, d)
				add(t, d)
			})
		}},
		{"overwrites-visible-nested", 0, nil, func(r *rand.Rand, t *tok) string {
			return t.with(func() {
				d := vh.EncDisc(salt(r), "country", "evil")
				a := t.payload["addr"].(M)
				a["_sd"] = append(a["_sd"].([]interface{}), t.digest(d))
				add(t, d)
			})
		}},
		{"same-name-twice", 0, nil, func(r *rand.Rand, t *tok) string {
			return t.with(func() {
				d := vh.EncDisc(salt(r), "given", "second")
				ref(t, d)
				add(t, d)
			})
		}},
		{"element-digest-names-member", 0, nil, func(r *rand.Rand, t *tok) string {
			return t.with(func() {
				d := vh.EncDisc(salt(r), "member", "x")
				t.payload["l1"] = []interface{}{"a", M{"...": t.digest(d)}}
				add(t, d)
			})
		}},
		{"member-digest-names-element", 0, nil, func(r *rand.Rand, t *tok) string {
			return t.with(func() {
				d := vh.EncDisc(salt(r), "element")
				ref(t, d)
				add(t, d)
			})
		}},
		{"sd-not-array", 0, nil, func(r *rand.Rand, t *tok) string {
			return t.with(func() { t.payload["second"] = M{"_sd": vh.Pick[interface{}](r, "x", 1.0, M{"a": "b"}, true)} })
		}},
		{"sd-non-string", 0, nil, func(r *rand.Rand, t *tok) string {
			return t.with(func() {
				t.payload["second"] = M{"_sd": []interface{}{vh.Pick[interface{}](r, 1.0, M{}, nil, []interface{}{})}}
			})
		}},
		{"element-digest-non-string", 0, nil, func(r *rand.Rand, t *tok) string {
			return t.with(func() { t.payload["l1"] = []interface{}{M{"...": vh.Pick[interface{}](r, 1.0, M{}, nil)}} })
		}},
		{"sd-alg-missing", 0, nil, func(r *rand.Rand, t *tok) string { return t.with(func() { delete(t.payload, "_sd_alg") }) }},
		{"sd-alg-bad", 0, nil, func(r *rand.Rand, t *tok) string {
			return t.with(func() {
				t.payload["_sd_alg"] = vh.Pick[interface{}](r, "sha-1", "md5", "", "sha256", 5.0, nil, "sha-224", "sha3-256", []interface{}{"sha-256"})
			})
		}},
		{"sd-alg-near", 0, nil, func(r *rand.Rand, t *tok) string { // no name of a hash, but close to the right one
			return t.with(func() {
				n := t.payload["_sd_alg"].(string)
				t.payload["_sd_alg"] = vh.Pick(r, strings.ReplaceAll(n, "-", ""), n+" ", " "+n, n+"0", n[:len(n)-1], strings.ReplaceAll(n, "-", "_"), "x"+n, n+"-"+n)
			})
		}},
		{"sd-alg-other", 0, nil, func(r *rand.Rand, t *tok) string {
			return t.with(func() {
				if t.hash == crypto.SHA256 {
					t.payload["_sd_alg"] = "sha-512"
				} else {
					t.payload["_sd_alg"] = "sha-256"
				}
			})
		}},
		// holder binding
		{"kb-required-missing", -1, []verifier.ParseOpt{verifier.WithHolderVerificationRequired(true)}, func(r *rand.Rand, t *tok) string { return t.String() }},
		{"kb-dropped", 1, nil, func(r *rand.Rand, t *tok) string { t.kb = nil; return t.String() }},
		{"kb-sig-bit", 1, nil, func(r *rand.Rand, t *tok) string { t.kbRaw = flip(t.kbjwt(), r); return t.String() }},
		{"kb-payload-altered", 1, nil, func(r *rand.Rand, t *tok) string {
			p := strings.Split(t.kbjwt(), ".")
			t.kb["x"] = 1
			t.kbRaw = p[0] + "." + vh.B64(vh.J(t.kb)) + "." + p[2]

			return t.String()
		}},
		{"kb-other-key", 1, nil, func(r *rand.Rand, t *tok) string {
			return t.with(func() {
				t.kbKey = w.Ents["mallory"].Keys[vh.Pick(r, "EdDSA", "ES256", "ES256K", "ES384", "ES521")]
				t.kbHdr["alg"] = t.kbKey.Alg
			})
		}},
		{"kb-other-key-own-jwk", 1, nil, func(r *rand.Rand, t *tok) string {
			return t.with(func() {
				t.kbKey = w.Ents["mallory"].Keys["EdDSA"]
				t.kbHdr["alg"] = "EdDSA"
				t.kbHdr["jwk"] = vh.Norm(t.kbKey.JWK)
				t.kbHdr["kid"] = t.kbKey.ID
				t.kb["iss"] = w.Ents["mallory"].DID
			})
		}},
		{"kb-none", 1, []verifier.ParseOpt{verifier.WithHolderSigningAlgorithms(append([]string{"none"}, vh.JWTAlgs...))}, func(r *rand.Rand, t *tok) string {
			t.kbHdr["alg"] = "none"
			t.kbRaw = vh.B64(vh.J(t.kbHdr)) + "." + vh.B64(vh.J(t.kb)) + "."

			return t.String()
		}},
		{"kb-alg-mismatch", 1, nil, func(r *rand.Rand, t *tok) string {
			return t.with(func() {
				for o := t.kbKey.Alg; t.kbHdr["alg"] == o; {
					t.kbHdr["alg"] = vh.Pick(r, vh.JWTAlgs...)
				}
			})
		}},
		{"kb-alg-not-allowed", 1, []verifier.ParseOpt{verifier.WithHolderSigningAlgorithms([]string{"HS256"})}, func(r *rand.Rand, t *tok) string { return t.String() }},
		{"kb-alg-only-for-issuer", 1, []verifier.ParseOpt{verifier.WithIssuerSigningAlgorithms(vh.JWTAlgs)}, func(r *rand.Rand, t *tok) string {
			return t.String() // the holder's list is set by the case
		}},
		{"kb-nonce", 1, nil, func(r *rand.Rand, t *tok) string {
			return t.with(func() {
				t.kb["nonce"] = vh.Pick[interface{}](r, "other", "", nonce+" ", nonce+"1", nonce[:len(nonce)-1], " "+nonce, strings.ToUpper(nonce), []interface{}{nonce, "x"})
			})
		}},
		{"kb-nonce-missing", 1, nil, func(r *rand.Rand, t *tok) string { return t.with(func() { delete(t.kb, "nonce") }) }},
		{"kb-aud", 1, nil, func(r *rand.Rand, t *tok) string {
			return t.with(func() {
				t.kb["aud"] = vh.Pick[interface{}](r, "other", "", aud+"/", aud[:len(aud)-1], "x"+aud, strings.ToUpper(aud), aud+" ", []interface{}{"https://other.example"})
			})
		}},
		{"kb-aud-missing", 1, nil, func(r *rand.Rand, t *tok) string { return t.with(func() { delete(t.kb, "aud") }) }},
		{"kb-swapped-nonce-aud", 1, nil, func(r *rand.Rand, t *tok) string { return t.with(func() { t.kb["aud"], t.kb["nonce"] = nonce, aud }) }},
		{"kb-expired", 1, nil, func(r *rand.Rand, t *tok) string { return t.with(func() { t.kb["exp"] = hour(-2) }) }},
		{"kb-future", 1, nil, func(r *rand.Rand, t *tok) string {
			return t.with(func() { t.kb[vh.Pick(r, "nbf", "iat")] = hour(3) })
		}},
		{"kb-garbage", 0, nil, func(r *rand.Rand, t *tok) string {
			t.kbRaw = vh.Pick(r, "garbage", "a.b.c", "..", t.sdjwt())
			return t.String()
		}},
		{"kb-without-cnf", 1, nil, func(r *rand.Rand, t *tok) string { return t.with(func() { delete(t.payload, "cnf") }) }},
		{"kb-bad-cnf", 1, nil, func(r *rand.Rand, t *tok) string {
			return t.with(func() {
				t.payload["cnf"] = vh.Pick[interface{}](r, "x", M{}, M{"jwk": "x"}, M{"jwk": M{}}, M{"jwk": M{"kty": "OKP", "crv": "Ed25519"}}, M{"kid": "k"}, []interface{}{})
			})
		}},
		{"kb-cnf-of-other", 1, nil, func(r *rand.Rand, t *tok) string {
			return t.with(func() { t.payload["cnf"] = M{"jwk": vh.Norm(w.Ents["mallory"].Keys["ES256"].JWK)} })
		}},
		{"kb-cnf-nested-of-other", 1, nil, func(r *rand.Rand, t *tok) string { // the binding key is the one at the top level
			return t.with(func() {
				t.kbKey = w.Ents["mallory"].Keys[vh.Pick(r, "EdDSA", "ES256")]
				t.kbHdr["alg"] = t.kbKey.Alg
				t.payload[vh.Pick(r, "vc", "addr2", "credentialSubject")] = M{"cnf": M{"jwk": vh.Norm(t.kbKey.JWK)}}
			})
		}},
		{"kb-of-other-presentation-part", 1, nil, func(r *rand.Rand, t *tok) string { // signed by the issuer, not by the holder
			if strings.HasSuffix(t.key.Alg, "S256") && t.key.Alg[0] != 'E' { // the RSA keys of the fixture are few
				return ""
			}

			return t.with(func() {
				t.kbKey = t.key
				t.kbHdr["alg"] = t.key.Alg
				t.kbHdr["kid"] = t.key.ID
			})
		}},
		{"kb-cnf-in-disclosure", 1, nil, func(r *rand.Rand, t *tok) string { // binding key must be what the issuer put in clear
			return t.with(func() {
				t.kbKey = w.Ents["mallory"].Keys["ES256"]
				t.kbHdr["alg"] = "ES256"
				add(t, vh.EncDisc(salt(r), "cnf", M{"jwk": vh.Norm(t.kbKey.JWK)}))
			})
		}},
	}
}

// late makes a token untimely by the given number of minutes.
func late(r *rand.Rand, m M, minutes int) {
	now, by := time.Now().Unix(), int64(minutes)*60+300

	switch r.Intn(3) {
	case 0:
		m["exp"] = now - by
	case 1:
		m["nbf"] = now + by
	default:
		m["iat"] = now + by
	}
}

// detach takes the payload out of the issuer's token.
func detach(p string) (string, []byte) {
	jws, rest, _ := strings.Cut(p, "~")
	parts := strings.Split(jws, ".")

	if len(parts) != 3 || parts[1] == "" {
		return "", nil
	}

	pl, err := base64.RawURLEncoding.DecodeString(parts[1])
	if err != nil {
		return "", nil
	}

	return parts[0] + ".." + parts[2] + "~" + rest, pl
}

func opts(t *tok, extra []verifier.ParseOpt) []verifier.ParseOpt {
	o := []verifier.ParseOpt{verifier.WithSignatureVerifier(w.Checker), verifier.WithIssuerSigningAlgorithms(vh.JWTAlgs),
		verifier.WithHolderSigningAlgorithms(vh.JWTAlgs)}

	if t.kbHdr != nil && !t.v5 { // as the older drafts name it
		o = append(o, verifier.WithHolderBindingRequired(true), verifier.WithExpectedNonceForHolderBinding(nonce),
			verifier.WithExpectedAudienceForHolderBinding(aud))
	} else if t.kbHdr != nil {
		o = append(o, verifier.WithHolderVerificationRequired(true), verifier.WithExpectedNonceForHolderVerification(nonce),
			verifier.WithExpectedAudienceForHolderVerification(aud))
	}

	return append(o, extra...)
}

func run(c *vh.Check) {
	w = vh.NewWorld("issuer", "holder", "mallory")
	ds := devs()

	c.Cases("genuine", c.N(2000, 20000), func(r *rand.Rand, i int) {
		bind := i%2 == 0
		t := base(r, bind)
		p := t.String()

		var extra []verifier.ParseOpt
		if r.Intn(2) == 0 {
			extra = append(extra, verifier.WithExpectedTypHeader("vc+sd-jwt"))
		}

		if r.Intn(4) == 0 { // untimely by less than is allowed for
			m := t.payload
			if bind && r.Intn(2) == 0 {
				m = t.kb
			}

			late(r, m, r.Intn(50))

			p = t.String()
			extra = append(extra, verifier.WithLeewayForClaimsValidation(time.Hour))

			c.Count("accepted.within-leeway", 1)
		}

		out, err := verifier.Parse(p, opts(t, extra)...)
		c.Eval(fmt.Sprintf("genuine|%v|%v|%s", t.v5, bind, t.key.Alg))

		kb := "-"
		if bind {
			kb = t.kbKey.Alg
		}

		if !c.Expect(err == nil, "genuine-rejected", fmt.Sprintf("genuine presentation rejected (v5=%v %s kb=%s): %v", t.v5, t.key.Alg, kb, err), p) {
			return
		}

		c.Count("accepted.genuine", 1)

		if bind {
			c.Count("binding.accepted", 1)
		}

		idx := map[string]*vh.Disc{}

		for _, x := range t.discs {
			d, err := vh.DecDisc(x, t.hash)
			if err != nil {
				panic("vh-fixture disc")
			}

			idx[d.Digest] = d
		}

		d := vh.SDDiff(vh.SDResolve(vh.Norm(t.payload), idx, map[string]int{}), vh.NormJ(out))
		c.Expect(d == "", "genuine-claims", "accepted claims differ "+d, p)

		if r.Intn(3) != 0 {
			return
		}

		// the issuer's payload transported by other means
		dp, pl := detach(p)
		if dp == "" {
			panic("vh-fixture detach")
		}

		det := func(b []byte) []verifier.ParseOpt {
			return opts(t, append(extra[:len(extra):len(extra)], verifier.WithJWTDetachedPayload(b)))
		}
		out2, err := verifier.Parse(dp, det(pl)...)

		if c.Expect(err == nil, "detached-rejected", fmt.Sprintf("genuine presentation with detached payload rejected: %v", err), dp) {
			c.Expect(vh.Eq(vh.NormJ(out), vh.NormJ(out2)), "detached-claims", "claims of the detached form differ", dp)
			c.Count("detached.accepted", 1)
		}

		wrong := append([]byte{}, pl...)

		switch r.Intn(4) {
		case 0:
			wrong = append(wrong[:1], append([]byte(" "), wrong[1:]...)...)
		case 1:
			wrong = bytes.Replace(wrong, []byte(`"visible":"v`), []byte(`"visible":"w`), 1)
		case 2:
			o := base(r, false)
			wrong = vh.J(o.payload)
		default:
			_, err = verifier.Parse(dp, opts(t, extra)...)
			c.Expect(err != nil, "detached-nothing", "detached token accepted without its payload", dp)
			c.Count("detached.refused", 1)

			if bind || len(t.discs) == 0 || strings.Contains(dp, "..") && r.Intn(2) == 0 {
				return
			}

			hp := strings.TrimSuffix(dp, "~")
			_, err = holder.Parse(hp, holder.WithSignatureVerifier(w.Checker), holder.WithJWTDetachedPayload(pl))
			c.Expect(err == nil, "holder-detached-rejected", fmt.Sprintf("holder rejects a genuine token with detached payload: %v", err), hp)
			_, err = holder.Parse(hp, holder.WithSignatureVerifier(w.Checker), holder.WithJWTDetachedPayload(append(pl[:len(pl):len(pl)], ' ')))
			c.Expect(err != nil, "holder-detached-other", "holder accepts another detached payload", hp)

			return
		}

		_, err = verifier.Parse(dp, det(wrong)...)
		c.Expect(err != nil, "detached-other-payload", "another detached payload accepted: "+string(wrong), dp)
		c.Count("detached.refused", 1)
	})

	c.Cases("deviation", len(ds)*c.N(60, 900), func(r *rand.Rand, i int) {
		d := ds[i%len(ds)]
		bind := d.bind == 1 || (d.bind == 0 && r.Intn(2) == 0)
		t := base(r, bind)
		issAlg, v5 := t.key.Alg, t.v5
		kbAlg := "-"

		if bind {
			kbAlg = t.kbKey.Alg
		}

		p := d.f(r, t)
		if p == "" {
			return
		}

		extra := d.opts

		if d.name == "kb-alg-only-for-issuer" {
			var rest []string

			for _, a := range vh.JWTAlgs {
				if a != t.kbKey.Alg {
					rest = append(rest, a)
				}
			}

			extra = append(extra[:len(extra):len(extra)], verifier.WithHolderSigningAlgorithms(rest))
		}

		if strings.HasPrefix(d.name, "kb-") && d.bind == 1 && d.name != "kb-dropped" && r.Intn(3) == 0 { // present though not required
			extra = append(extra[:len(extra):len(extra)], verifier.WithHolderVerificationRequired(false))
		}

		if r.Intn(2) == 0 { // only the expectation that is violated
			switch {
			case strings.HasPrefix(d.name, "kb-nonce"):
				extra = append(extra[:len(extra):len(extra)], verifier.WithExpectedAudienceForHolderVerification(""))
			case strings.HasPrefix(d.name, "kb-aud"):
				extra = append(extra[:len(extra):len(extra)], verifier.WithExpectedNonceForHolderVerification(""))
			}
		}

		_, err := verifier.Parse(p, opts(t, extra)...)
		c.Eval(fmt.Sprintf("%s|%v|%s|%s", d.name, v5, issAlg, kbAlg))
		c.Count("rejected", 1)

		if strings.HasPrefix(d.name, "kb") {
			c.Count("binding.rejected", 1)
		}

		c.Sample(d.name)
		c.Expect(err != nil, "accepted:"+d.name, fmt.Sprintf("presentation with %s accepted (v5=%v, issuer %s, binding %s)", d.name, v5, issAlg, kbAlg), p)

		if dp, pl := detach(p); dp != "" && r.Intn(3) == 0 {
			_, err = verifier.Parse(dp, opts(t, append(extra[:len(extra):len(extra)], verifier.WithJWTDetachedPayload(pl)))...)
			c.Expect(err != nil, "detached-accepted:"+d.name, fmt.Sprintf("presentation with %s accepted with its payload detached (v5=%v, issuer %s, binding %s)", d.name, v5, issAlg, kbAlg), p)
			c.Count("detached.deviation", 1)
		}
	})

	runIssued(c)
	runHolder(c)
}

// runIssued: the same through the code's own issuer and holder.
func runIssued(c *vh.Check) {
	c.Cases("issued", c.N(600, 6000), func(r *rand.Rand, i int) {
		iss := w.Ents["issuer"]
		key := iss.Keys[vh.Pick(r, vh.JWTAlgs...)]
		hk := w.Ents["holder"].Keys[vh.Pick(r, vh.JWTAlgs...)]
		v := []common.SDJWTVersion{common.SDJWTVersionV2, common.SDJWTVersionV5}[i%2]
		claims := M{"a": vh.SafeStr(r), "b": M{"c": vh.SafeStr(r), "d": 4.0}, "e": []interface{}{"x", "y"}}

		tk, err := issuer.New(iss.DID, claims, nil, vh.JoseSigner{K: key}, issuer.WithSDJWTVersion(v), issuer.WithHolderPublicKey(hk.JWK),
			issuer.WithStructuredClaims(r.Intn(2) == 0), issuer.WithDecoyDigests(r.Intn(2) == 0))
		if !c.Expect(err == nil, "issue", fmt.Sprint(err), nil) {
			return
		}

		comb, err := tk.Serialize(false)
		if !c.Expect(err == nil, "serialize", fmt.Sprint(err), nil) {
			return
		}

		all := strings.Split(comb, "~")[1:]
		hdr := map[string]interface{}{}

		if v == common.SDJWTVersionV5 {
			hdr["typ"] = "kb+jwt"
		}

		signer := vh.JoseSigner{K: hk, H: hdr}
		bad := i%4 == 3

		if bad {
			o := *w.Ents["mallory"].Keys[vh.Pick(r, "EdDSA", "ES256", "ES384")]
			signer.K = &o
		}

		bind := vh.Pick(r, holder.WithHolderVerification, holder.WithHolderBinding) // the second is the older name

		p, err := holder.CreatePresentation(comb, all, bind(&holder.BindingInfo{
			Payload: holder.BindingPayload{Nonce: nonce, Audience: aud}, Signer: signer, Headers: hdr}))
		if !c.Expect(err == nil, "present", fmt.Sprint(err), nil) {
			return
		}

		out, err := verifier.Parse(p, opts(&tok{kbHdr: M{}}, nil)...)
		c.Eval(fmt.Sprintf("issued|%v|%s|%s|%v", v, key.Alg, signer.K.Alg, bad))

		if bad {
			c.Count("binding.rejected", 1)
			c.Expect(err != nil, "issued-accepted-foreign-binding", "binding by another key accepted", p)

			return
		}

		if c.Expect(err == nil, "issued-rejected", fmt.Sprintf("bound presentation rejected: %v (v%d %s %s)", err, v, key.Alg, hk.Alg), p) {
			c.Count("binding.accepted", 1)

			want := vh.CloneM(claims)
			want["iss"], want["cnf"] = iss.DID, map[string]interface{}{"jwk": vh.Norm(hk.JWK)}
			d := vh.SDDiff(want, vh.NormJ(out))
			c.Expect(d == "", "issued-claims", "claims differ "+d, p)
		}

		// a binding for another nonce or audience never passes
		_, err = verifier.Parse(p, opts(&tok{kbHdr: M{}}, []verifier.ParseOpt{verifier.WithExpectedNonceForHolderVerification(nonce + "x")})...)
		c.Expect(err != nil, "issued-nonce", "other nonce accepted", p)
		_, err = verifier.Parse(p, opts(&tok{kbHdr: M{}}, []verifier.ParseOpt{verifier.WithExpectedAudienceForHolderVerification(aud + "x")})...)
		c.Expect(err != nil, "issued-aud", "other audience accepted", p)
	})
}

// runHolder: what a holder refuses on receipt.
func runHolder(c *vh.Check) {
	ds := devs()
	skip := map[string]bool{"disclosure-duplicate": true, "disclosure-malformed": false}
	v5only := map[string]bool{"issuer-alg-not-allowed": true, "issuer-alg-default-list": true, "issuer-none": true, "issuer-none-keeps-sig": true,
		"typ-mismatch": true, "typ-missing": true, "expired": true, "expired-before-valid": true, "not-yet-valid": true, "issued-in-future": true, "nbf-huge": true,
		"exp-not-a-time": true, "time-with-zero-leeway": true, "beyond-leeway": true}

	c.Cases("holder", len(ds)*c.N(12, 200), func(r *rand.Rand, i int) {
		d := ds[i%len(ds)]
		if strings.HasPrefix(d.name, "kb-") || skip[d.name] {
			return
		}

		t := base(r, false)
		iss := func(p string) string { return strings.TrimSuffix(p, "~") }
		algs := vh.JWTAlgs

		switch d.name {
		case "issuer-alg-not-allowed":
			algs = []string{"HS256"}
		case "issuer-alg-default-list":
			algs = []string{"EdDSA", "RS256"}
		}

		ho := []holder.ParseOpt{holder.WithSignatureVerifier(w.Checker), holder.WithSDJWTV5Validation(true), holder.WithIssuerSigningAlgorithms(algs),
			holder.WithExpectedTypHeader("vc+sd-jwt")}
		if d.name == "time-with-zero-leeway" {
			ho = append(ho, holder.WithLeewayForClaimsValidation(0))
		}

		if d.name == "beyond-leeway" {
			ho = append(ho, holder.WithLeewayForClaimsValidation(time.Hour))
		}

		good := base(r, false)
		_, err := holder.Parse(iss(good.String()), append(ho[:2:2], holder.WithIssuerSigningAlgorithms(vh.JWTAlgs))...)
		c.Expect(err == nil, "holder-genuine-rejected", fmt.Sprintf("holder rejects genuine token: %v", err), good.String())

		p := d.f(r, t)
		if p == "" {
			return
		}

		_, err = holder.Parse(iss(p), ho...)
		c.Eval(fmt.Sprintf("holder|%s|%v", d.name, t.v5))
		c.Count("rejected", 1)
		c.Expect(err != nil, "holder-accepted:"+d.name, "holder accepted a token with "+d.name, p)

		if !v5only[d.name] { // also without the extra validation
			_, err = holder.Parse(iss(p), holder.WithSignatureVerifier(w.Checker))
			c.Expect(err != nil, "holder-v2-accepted:"+d.name, "holder accepted a token with "+d.name, p)
		}
	})
}
