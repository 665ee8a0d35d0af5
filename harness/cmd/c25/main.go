// C25: JSON Web Tokens carry exactly the claims and headers they were built from.
package main

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"math"
	"math/big"
	"math/rand"
	"strings"

	josejson "github.com/go-jose/go-jose/v3/json"
	josejwt "github.com/go-jose/go-jose/v3/jwt"
	"github.com/trustbloc/kms-go/doc/jose"

	"github.com/trustbloc/vc-go/jwt"
	"github.com/trustbloc/vc-go/verifharness/vh"
)

type M = map[string]interface{}

var w *vh.World

func main() {
	vh.Main(vh.Spec{
		ID: "C25",
		Rule: "random claims (map, struct, JSON bytes, JSON string; nested values, hostile strings, whole numbers beyond 2^53, exponents) x (signed over all " +
			"JWT algorithms, unsecured, caller's signer) x extra headers, serialised attached and detached; header, payload and signature are read by an " +
			"independent decoder and compared, numbers digit for digit; then parsed back under every parse option. Hand-built tokens with one defect or " +
			"none in shape, header or payload. Distinct: (kind of claims, way, algorithm, option or defect).",
		Level: "exploration",
		Require: map[string]int64{"built": 1500, "built.signed": 500, "built.unsecured": 250, "built.custom": 250, "parsed": 1500, "detached.good": 400,
			"detached.bad": 400, "refused.claims": 200, "shape.good": 500, "shape.bad": 1500, "big-number": 300, "classified": 1500},
		Assumptions: []string{
			"numbers handed in as Go floats keep their value; numbers handed in as JSON text or Go integers keep every digit",
			"type header: JWT, or a structured suffix +jwt or +sd-jwt in either case, as the package documents",
			"numbers in a parsed payload are of the JOSE library's number type, and read with its decoder",
			"JSON text holding duplicate member names or invalid UTF-8 is outside the comparison",
		},
		Run: run,
	})
}

// text makes a JSON number as text.
func number(r *rand.Rand) string {
	return vh.Pick(r, "0", "-1", "9007199254740993", "-9007199254740993", "9223372036854775807", "18446744073709551615", "123456789012345678901234567890",
		"1700000000", "1.5", "-0.25", "1e3", "1E+2", "12345678901234567.25", "0.1", "1e-7", fmt.Sprint(r.Int63()), fmt.Sprint(r.Intn(4000000000)))
}

// value makes a random value with numbers as json.Number.
func value(r *rand.Rand, d int) interface{} {
	n := 7
	if d <= 0 {
		n = 5
	}

	switch r.Intn(n) {
	case 0, 1:
		return vh.Str(r)
	case 2:
		return json.Number(number(r))
	case 3:
		return r.Intn(2) == 0
	case 4:
		return vh.Pick[interface{}](r, nil, "", json.Number("0"), []interface{}{}, M{})
	case 5:
		l := make([]interface{}, r.Intn(4))
		for i := range l {
			l[i] = value(r, d-1)
		}

		return l
	default:
		return object(r, d-1)
	}
}

func object(r *rand.Rand, d int) M {
	m := M{}
	for k := r.Intn(5); k > 0; k-- {
		m[vh.Pick(r, vh.SafeStr(r), vh.Str(r)+vh.SafeStr(r), "", " ", "aud", "sub", "exp", "nbf", "iat", "jti", "vc", "nonce", "cnf")] = value(r, d)
	}

	return m
}

// goValue is the same value as a Go program would hold it: integers as Go integers where they fit, the rest as floats.
func goValue(r *rand.Rand, v interface{}) interface{} {
	switch t := v.(type) {
	case json.Number:
		if i, err := t.Int64(); err == nil {
			if i > -(1<<31) && i < 1<<31 && r.Intn(2) == 0 {
				return int(i)
			}

			return i
		}

		f, _ := t.Float64()

		return f
	case []interface{}:
		l := make([]interface{}, len(t))
		for i := range t {
			l[i] = goValue(r, t[i])
		}

		return l
	case M:
		m := M{}
		for k := range t {
			m[k] = goValue(r, t[k])
		}

		return m
	}

	return v
}

// dec reads JSON with numbers as text.
func dec(b []byte) (interface{}, error) {
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()

	var v interface{}
	if err := d.Decode(&v); err != nil {
		return nil, err
	}

	if d.More() {
		return nil, fmt.Errorf("trailing data")
	}

	return v, nil
}

// same compares decoded values; exact asks for equal numbers, otherwise equal floats are enough.
func same(a, b interface{}, exact bool, path string) string {
	switch x := a.(type) {
	case json.Number:
		y, ok := b.(json.Number)
		if !ok {
			return fmt.Sprintf("%s: %v is now %T %v", path, a, b, b)
		}

		p, ok1 := new(big.Rat).SetString(string(x))
		q, ok2 := new(big.Rat).SetString(string(y))

		if ok1 && ok2 && p.Cmp(q) == 0 {
			return ""
		}

		f, _ := x.Float64()
		g, _ := y.Float64()

		if !exact && f == g {
			return ""
		}

		return fmt.Sprintf("%s: number %s is now %s", path, x, y)
	case []interface{}:
		y, ok := b.([]interface{})
		if !ok || len(x) != len(y) {
			return fmt.Sprintf("%s: %v is now %v", path, a, b)
		}

		for i := range x {
			if d := same(x[i], y[i], exact, fmt.Sprintf("%s[%d]", path, i)); d != "" {
				return d
			}
		}
	case map[string]interface{}:
		y, ok := b.(map[string]interface{})
		if !ok || len(x) != len(y) {
			return fmt.Sprintf("%s: %v is now %v", path, a, b)
		}

		for k := range x {
			v, ok := y[k]
			if !ok {
				return fmt.Sprintf("%s: %q is gone", path, k)
			}

			if d := same(x[k], v, exact, path+"."+k); d != "" {
				return d
			}
		}
	default:
		if a != b {
			return fmt.Sprintf("%s: %v is now %v", path, a, b)
		}
	}

	return ""
}

// plain brings any JSON-able value into the decoder's types.
func plain(v interface{}) interface{} {
	b, err := json.Marshal(v)
	if err != nil {
		return fmt.Sprintf("not JSON: %v", err)
	}

	o, err := dec(b)
	if err != nil {
		return fmt.Sprintf("not JSON: %v", err)
	}

	return o
}

// payload does so for a parsed payload, which holds the JOSE library's own number type.
func payload(v M) interface{} {
	b, err := josejson.Marshal(v)
	if err != nil {
		return fmt.Sprintf("not JSON: %v", err)
	}

	o, err := dec(b)
	if err != nil {
		return fmt.Sprintf("not JSON: %v", err)
	}

	return o
}

type structClaims struct {
	Iss   string                 `json:"iss,omitempty"`
	Count int64                  `json:"count"`
	Big   uint64                 `json:"big,omitempty"`
	Rate  float64                `json:"rate,omitempty"`
	Gone  string                 `json:"gone,omitempty"`
	Skip  string                 `json:"-"`
	List  []string               `json:"list"`
	Extra map[string]interface{} `json:"extra,omitempty"`
}

// claims makes claims of some kind, with what a token must carry.
func claims(c *vh.Check, r *rand.Rand, iss string) (kind string, in, want interface{}, exact bool) {
	o := object(r, 3)
	o["iss"] = iss

	if r.Intn(2) == 0 {
		o["count"] = json.Number("9007199254740993")
		c.Count("big-number", 1)
	}

	switch r.Intn(7) {
	case 0, 1:
		g := goValue(r, o)
		return "map", g, plain(g), true
	case 2, 3:
		return "bytes", vh.J(o), plain(o), true
	case 4:
		s := string(vh.J(o))
		if r.Intn(2) == 0 {
			s = " \n" + s + "\t\r\n "
		}

		return "string", s, plain(o), true
	case 5:
		s := structClaims{Iss: iss, Count: r.Int63() - 1<<62, Big: r.Uint64(), Rate: vh.Pick(r, 0, 0.5, 1e21, 1e-9, math.Pi), Skip: "x",
			List: vh.Pick(r, nil, []string{}, []string{"a", vh.Str(r)})}
		if r.Intn(2) == 0 {
			s.Extra, _ = goValue(r, object(r, 2)).(map[string]interface{})
		}

		if r.Intn(2) == 0 {
			return "struct", &s, plain(s), true
		}

		return "struct", s, plain(s), true
	default:
		t := josejwt.NumericDate(r.Int63n(4e9))
		j := josejwt.Claims{Issuer: iss, Subject: vh.SafeStr(r), ID: vh.SafeStr(r), IssuedAt: &t}

		if r.Intn(2) == 0 {
			j.Audience = josejwt.Audience{"a", vh.Str(r)}
		}

		if r.Intn(2) == 0 {
			return "registered", (*jwt.Claims)(&j), plain(j), true
		}

		return "registered", j, plain(j), true
	}
}

func b64(s string) ([]byte, error) { return base64.RawURLEncoding.DecodeString(s) }

// customSigner signs for the caller.
type customSigner struct {
	k *vh.Key
	h jose.Headers
}

func (s customSigner) Sign(b []byte) ([]byte, error) { return s.k.Sign(b) }
func (s customSigner) Headers() jose.Headers         { return s.h }

func run(c *vh.Check) {
	w = vh.NewWorld("issuer", "other")

	c.Cases("build", c.N(2500, 40000), func(r *rand.Rand, _ int) { build(c, r) })
	c.Cases("claims", c.N(300, 3000), func(r *rand.Rand, i int) { badClaims(c, r, i) })
	c.Cases("shape", c.N(4000, 60000), func(r *rand.Rand, _ int) { shape(c, r) })
}

//nolint:gocyclo
func build(c *vh.Check, r *rand.Rand) {
	e := w.Ents["issuer"]
	k := e.Keys[vh.Pick(r, vh.JWTAlgs...)]
	kind, in, want, exact := claims(c, r, e.DID)
	before := string(vh.J(in))
	way := vh.Pick(r, "signed", "signed", "unsecured", "custom")

	extra := jose.Headers{}
	for n := r.Intn(3); n > 0; n-- {
		extra[vh.Pick(r, "x-"+vh.SafeStr(r), "typ", "nonce", "cty")] = vh.Pick[interface{}](r, vh.SafeStr(r), "a \"quoted\" é", []interface{}{"a"}, M{"b": true})
	}

	if _, ok := extra["typ"]; ok {
		extra["typ"] = vh.Pick(r, "JWT", "vc+jwt", "vc+sd-jwt", "dc+SD-JWT")
	}

	if _, ok := extra["cty"]; ok {
		extra["cty"] = vh.Pick(r, "vc", "application/json")
	}

	wantH := M{}
	for n, v := range extra {
		wantH[n] = v
	}

	var (
		t   *jwt.JSONWebToken
		err error
	)

	switch way {
	case "signed":
		var h jose.Headers
		if len(extra) > 0 || r.Intn(2) == 0 {
			h = extra
		}

		t, err = jwt.NewSigned(in, jwt.SignParameters{KeyID: k.ID, JWTAlg: k.Alg, AdditionalHeaders: h}, w.Creator(e))
		wantH["alg"], wantH["kid"] = k.Alg, k.ID
	case "unsecured":
		t, err = jwt.NewUnsecured(in)
		wantH = M{"alg": "none"}
	default:
		t, err = jwt.NewJoseSigned(in, extra, customSigner{k, jose.Headers{"alg": k.Alg, "kid": k.ID, "x-signer": "yes"}})
		wantH["alg"], wantH["kid"], wantH["x-signer"] = k.Alg, k.ID, "yes"
	}

	c.Eval(fmt.Sprintf("build|%s|%s|%s|%d", kind, way, k.Alg, len(extra)))

	if !c.Expect(err == nil, "build/"+way, fmt.Sprintf("%s claims: %v", kind, err), before) {
		return
	}

	c.Count("built", 1)
	c.Count("built."+way, 1)
	c.Expect(string(vh.J(in)) == before, "claims-changed", "building the token changed the claims", before)

	s, err := t.Serialize(false)
	d, err2 := t.Serialize(true)

	if !c.Expect(err == nil && err2 == nil, "serialize", fmt.Sprint(err, err2), before) {
		return
	}

	p := strings.Split(s, ".")
	q := strings.Split(d, ".")

	if !c.Expect(len(p) == 3 && len(q) == 3 && q[1] == "" && p[0] == q[0], "parts", "not three parts, or the detached form holds a payload: "+d, s) {
		return
	}

	c.Expect(p[2] == q[2], "parts", "attached and detached form have different signatures", s)

	hb, e1 := b64(p[0])
	pb, e2 := b64(p[1])
	sig, e3 := b64(p[2])

	if !c.Expect(e1 == nil && e2 == nil && e3 == nil, "encoding", fmt.Sprint(e1, e2, e3), s) {
		return
	}

	hdr, e1 := dec(hb)
	got, e2 := dec(pb)

	if !c.Expect(e1 == nil && e2 == nil, "json", fmt.Sprint(e1, e2), s) {
		return
	}

	diff := same(plain(wantH), hdr, true, "header")
	c.Expect(diff == "", "header", diff, s)

	diff = same(want, got, exact, "claims")
	if !c.Expect(diff == "", "claims", kind+": "+diff, s) {
		return
	}

	diff = same(plain(wantH), plain(t.Headers), true, "header")
	c.Expect(diff == "", "token-header", diff, s)

	diff = same(want, payload(t.Payload), exact, "claims")
	c.Expect(diff == "", "token-claims", kind+": "+diff, s)

	if way == "unsecured" {
		c.Expect(len(sig) == 0, "unsecured-signature", "an unsecured token has a signature", s)
	} else {
		c.Expect(k.Verify([]byte(p[0]+"."+p[1]), sig), "signature", "the signature does not verify over header.payload", s)
	}

	c.Expect(jwt.IsJWS(s) == (way != "unsecured") && jwt.IsJWTUnsecured(s) == (way == "unsecured"), "classify", "signed/unsecured mixed up", s)
	c.Count("classified", 1)

	parse(c, r, s, way, k, wantH, want, pb)
	detached(c, r, d, way, k, want, pb)
}

// parse reads the token back under some parse options.
func parse(c *vh.Check, r *rand.Rand, s, way string, k *vh.Key, wantH M, want interface{}, pb []byte) {
	ignore := r.Intn(3) == 0

	var o []jwt.ParseOpt
	if ignore || r.Intn(3) == 0 {
		o = append(o, jwt.WithIgnoreClaimsMapDecoding(ignore))
	}

	var dest M

	if r.Intn(2) == 0 {
		o = append(o, jwt.DecodeClaimsTo(&dest))
	}

	var (
		t   *jwt.JSONWebToken
		raw []byte
		err error
	)

	checked := way != "unsecured" && r.Intn(3) > 0
	if checked {
		t, raw, err = jwt.ParseAndCheckProof(s, w.Checker, r.Intn(2) == 0 && want.(M)["iss"] != nil, o...)
	} else {
		t, raw, err = jwt.Parse(s, o...)
	}

	c.Eval(fmt.Sprintf("parse|%s|%s|%v|%v|%v", way, k.Alg, checked, ignore, len(o)))

	if !c.Expect(err == nil, "parse", fmt.Sprint(err), s) {
		return
	}

	c.Count("parsed", 1)
	c.Expect(bytes.Equal(raw, pb), "parse-raw", "the payload bytes are not those of the token", s)

	diff := same(plain(wantH), plain(t.Headers), true, "header")
	c.Expect(diff == "", "parse-header", diff, s)

	if ignore {
		c.Expect(len(t.Payload) == 0, "parse-ignored", "claims were decoded although that was switched off", s)
	} else {
		diff = same(want, payload(t.Payload), true, "claims")
		c.Expect(diff == "", "parse-claims", diff, s)

		var m M
		err := t.DecodeClaims(&m)
		diff = same(want, plain(m), false, "claims")
		c.Expect(err == nil && diff == "", "decode-claims", fmt.Sprint(err, diff), s)

		var st structClaims
		if x := want.(M); x["count"] == json.Number("9007199254740993") && t.DecodeClaims(&st) == nil {
			c.Expect(st.Count == 9007199254740993, "decode-struct", fmt.Sprint("count decoded as ", st.Count), s)
		}
	}

	if len(o) > 0 && dest != nil {
		diff = same(want, plain(dest), false, "claims")
		c.Expect(diff == "", "decode-to", diff, s)
	}

	if a, ok := wantH["alg"].(string); ok {
		c.Expect(t.LookupStringHeader("alg") == a && t.LookupStringHeader("absent") == "", "lookup", "header lookup", s)
	}

	for n, v := range wantH {
		x, _ := v.(string)
		c.Expect(t.LookupStringHeader(n) == x, "lookup", "lookup of header "+n, s)
	}

	again, err := t.Serialize(false)
	c.Expect(err == nil, "reserialize", fmt.Sprint(err), s)

	if err == nil {
		p, q := strings.Split(s, "."), strings.Split(again, ".")
		h, _ := b64(q[0])
		x, _ := dec(h)
		diff := same(plain(wantH), x, true, "header")
		c.Expect(q[1] == p[1] && q[2] == p[2] && diff == "", "reserialize", "another token: "+again+" "+diff, s)
	}
}

// detached parses the form without payload.
func detached(c *vh.Check, r *rand.Rand, d, way string, k *vh.Key, want interface{}, pb []byte) {
	t, raw, err := jwt.Parse(d, jwt.WithJWTDetachedPayload(pb))
	if c.Expect(err == nil, "detached", fmt.Sprint(err), d) {
		diff := same(want, payload(t.Payload), true, "claims")
		c.Expect(diff == "" && bytes.Equal(raw, pb), "detached-claims", diff, d)

		again, err := t.Serialize(true)
		c.Expect(err == nil && strings.HasSuffix(again, ".."+strings.Split(d, ".")[2]), "detached-reserialize", again, d)
		c.Count("detached.good", 1)
	}

	_, _, err = jwt.Parse(d)
	c.Expect(err != nil, "detached-without-payload", "a detached token was parsed without its payload", d)

	if way == "unsecured" {
		return
	}

	_, raw, err = jwt.ParseAndCheckProof(d, w.Checker, false, jwt.WithJWTDetachedPayload(pb))
	c.Expect(err == nil && bytes.Equal(raw, pb), "detached-proof", fmt.Sprint(err), d)
	c.Expect(jwt.CheckProof(d, w.Checker, nil, pb) == nil, "detached-proof", "CheckProof refuses the signed payload", d)

	bad := append([]byte{}, pb...)

	switch r.Intn(3) {
	case 0:
		bad = append(bad, ' ')
	case 1:
		bad = append([]byte(`{"z":0,`), bad[1:]...)
	default:
		bad = bytes.Replace(bad, []byte(`":`), []byte(`" :`), 1)
	}

	_, _, err = jwt.ParseAndCheckProof(d, w.Checker, false, jwt.WithJWTDetachedPayload(bad))
	c.Expect(err != nil && jwt.CheckProof(d, w.Checker, nil, bad) != nil, "detached-forged", "a payload that was not signed verifies: "+string(bad), d)

	_, _, err = jwt.ParseAndCheckProof(d, w.Checker, false)
	c.Expect(err != nil, "detached-forged", "a detached token verifies without its payload", d)

	o := w.Ents["other"].DID
	c.Expect(jwt.CheckProof(d, w.Checker, &o, pb) != nil, "detached-issuer", "verifies for another issuer", d)
	c.Eval("detached|" + way + "|" + k.Alg)
	c.Count("detached.bad", 1)
}

// badClaims: what cannot be claims is refused.
func badClaims(c *vh.Check, r *rand.Rand, i int) {
	var nilMap M

	good := string(vh.J(object(r, 2)))
	all := []struct {
		n string
		v interface{}
	}{
		{"nil", nil}, {"nil-map", nilMap}, {"string-map", map[string]string{"iss": "x"}}, {"int-map", map[string]int{"exp": 1}},
		{"key-map", map[int]interface{}{1: "x"}}, {"number", 7}, {"list", []string{"a"}}, {"chan", M{"a": make(chan int)}}, {"nan", M{"a": math.NaN()}},
		{"bytes-empty", []byte{}}, {"bytes-list", []byte("[" + good + "]")}, {"bytes-cut", []byte(good[:len(good)-1])}, {"bytes-null", []byte("null")},
		{"bytes-two", []byte(good + good)}, {"bytes-junk", []byte(good + " x")}, {"string-empty", ""}, {"string-text", "iss"}, {"string-cut", good[1:]},
		{"string-two", good + "\n" + good}, {"string-null", " null "}, {"bytes-bracket", []byte(good + "}")}, {"bytes-comma", []byte(good + ",")},
	}
	x := all[i%len(all)]
	e := w.Ents["issuer"]
	k := e.Keys[vh.Pick(r, vh.JWTAlgs...)]

	t1, e1 := jwt.NewUnsecured(x.v)
	t2, e2 := jwt.NewSigned(x.v, jwt.SignParameters{KeyID: k.ID, JWTAlg: k.Alg}, w.Creator(e))
	t3, e3 := jwt.NewJoseSigned(x.v, nil, customSigner{k, jose.Headers{"alg": k.Alg, "kid": k.ID}})

	for n, t := range []*jwt.JSONWebToken{t1, t2, t3} {
		if []error{e1, e2, e3}[n] != nil {
			c.Count("refused.claims", 1)
			continue
		}

		// maps of other types may be taken if nothing is lost
		s, err := t.Serialize(false)
		if err != nil {
			continue
		}

		pb, _ := b64(strings.Split(s, ".")[1])
		got, err := dec(pb)
		m, is := got.(M)
		c.Expect(err == nil && is && strings.HasSuffix(x.n, "-map") && x.n != "nil-map" && same(plain(x.v), m, true, "") == "", "bad-claims/"+x.n,
			"a token was made of claims that are none: "+s, fmt.Sprint(x.v))
	}

	c.Eval("claims|" + x.n + "|" + k.Alg)
}

// shape: hand-built tokens with at most one defect.
//
//nolint:gocyclo
func shape(c *vh.Check, r *rand.Rand) {
	e := w.Ents["issuer"]
	k := e.Keys[vh.Pick(r, vh.JWTAlgs...)]
	hdr := M{"alg": k.Alg, "kid": k.ID}

	if r.Intn(2) == 0 {
		hdr["typ"] = vh.Pick(r, "JWT", "vc+jwt", "vc+JWT", "vc+sd-jwt", "vc+SD-JWT", "kb+jwt", "vp+jwt")
	}

	o := object(r, 2)
	o["iss"] = e.DID
	h, p := string(vh.J(hdr)), string(vh.J(o))

	switch r.Intn(3) { // other spellings of the same object
	case 0:
		b, _ := json.MarshalIndent(o, " ", "\t")
		p = string(b)
	case 1:
		p = `{ "zz" :` + number(r) + `,"iss":"` + e.DID + `", "\u0061bc":"\/"}` + "\r\n"
		v, err := dec([]byte(p))
		if err != nil {
			panic("vh-fixture: " + err.Error())
		}

		o, _ = v.(M)
	}

	pad := false
	sep := "."
	name := "good"

	if r.Intn(4) > 0 {
		name = vh.Pick(r, "no-alg", "typ-text", "typ-number", "typ-null", "typ-suffix", "typ-empty", "typ-list", "nested", "hdr-list", "hdr-null", "hdr-cut", "hdr-empty",
			"hdr-junk", "pl-list", "pl-null", "pl-cut", "pl-empty", "pl-junk", "pl-two", "pl-text", "pl-number", "parts-2", "parts-4", "parts-5", "b64-pad", "b64-hdr", "b64-pl", "b64-sig")
	}

	signed := r.Intn(3) > 0

	switch name {
	case "no-alg":
		delete(hdr, "alg")
	case "typ-text":
		hdr["typ"] = vh.Pick(r, "JOSE", "jose", "JWS", "SD-JWT-VC", "JWTX", "J", "application/json")
	case "typ-number":
		hdr["typ"] = vh.Pick[interface{}](r, 7, true, M{"JWT": 1})
	case "typ-null":
		hdr["typ"] = nil
	case "typ-list":
		hdr["typ"] = []interface{}{"JWT"}
	case "typ-suffix":
		hdr["typ"] = vh.Pick(r, "vc+json", "vc+", "vc+jwtx", "vc+jw", "+json", "vc+ld", "JWT+x", "vc+sdjwt", "vc+sd", "vc+xsd-jwt")
	case "typ-empty":
		hdr["typ"] = ""
	case "nested":
		hdr["cty"] = "JWT"
	case "pl-list":
		p = "[" + p + "]"
	case "pl-null":
		p = "null"
	case "pl-cut":
		p = strings.TrimSpace(p)
		p = p[:len(p)-1]
	case "pl-empty":
		p = ""
	case "pl-junk":
		p += vh.Pick(r, "x", "}", ",", " null", "\x00", "]")
	case "pl-two":
		p += vh.Pick(r, "", " ", "\n") + p
	case "pl-text":
		p = `"iss"`
	case "pl-number":
		p = "12"
	}

	h = string(vh.J(hdr))

	switch name {
	case "hdr-list":
		h = "[" + h + "]"
	case "hdr-null":
		h = "null"
	case "hdr-cut":
		h = h[:len(h)-1]
	case "hdr-empty":
		h = ""
	case "hdr-junk":
		h += vh.Pick(r, "x", "{}", "}", " null")
	case "b64-pad":
		pad = true
	}

	enc := func(b []byte) string {
		if pad {
			return base64.URLEncoding.EncodeToString(append(b, ' ')[:len(b)+map[bool]int{true: 1}[len(b)%3 == 0]])
		}

		return base64.RawURLEncoding.EncodeToString(b)
	}

	ph, pp := enc([]byte(h)), enc([]byte(p))
	if name == "b64-hdr" {
		ph = vh.Pick(r, "!", "%", "+/", "é") + ph
	}

	if name == "b64-pl" {
		pp += vh.Pick(r, "!", "*", "=", "~", "/+")
	}

	ps := ""

	if signed {
		sig, err := k.Sign([]byte(ph + "." + pp))
		if err != nil {
			panic("vh-fixture: " + err.Error())
		}

		ps = base64.RawURLEncoding.EncodeToString(sig)
	}

	if name == "b64-sig" {
		ps += vh.Pick(r, "!", "*", "=", "~")
	}

	s := ph + sep + pp + sep + ps

	switch name {
	case "parts-2":
		s = ph + "." + pp
	case "parts-4":
		s += vh.Pick(r, ".", "."+ps, ".x")
	case "parts-5":
		s += ".a.b"
	}

	c.Eval("shape|" + name + "|" + fmt.Sprint(signed))

	t, raw, err := jwt.Parse(s)

	if name == "good" {
		if c.Expect(err == nil, "good-refused", fmt.Sprint(err), s) {
			diff := same(plain(o), payload(t.Payload), true, "claims")
			c.Expect(diff == "" && string(raw) == p, "good-claims", diff, s)

			var m M
			_, _, err = jwt.Parse(s, jwt.WithIgnoreClaimsMapDecoding(true), jwt.DecodeClaimsTo(&m))
			diff = same(plain(o), plain(m), false, "claims")
			c.Expect(err == nil && diff == "", "good-claims", fmt.Sprint(err, diff), s)
		}

		c.Expect(jwt.CheckHeaders(hdr) == nil, "good-headers", "CheckHeaders refuses "+h, s)
		c.Expect(jwt.IsJWS(s) == signed && jwt.IsJWTUnsecured(s) == !signed, "classify", "signed/unsecured mixed up", s)
		c.Count("classified", 1)
		c.Count("shape.good", 1)

		_, _, err = jwt.ParseAndCheckProof(s, w.Checker, r.Intn(2) == 0)
		c.Expect((err == nil) == signed, "good-proof", fmt.Sprintf("signed %v: %v", signed, err), s)

		return
	}

	c.Expect(err != nil, "shape/"+name, "a malformed token was parsed ("+name+")", s)
	c.Count("shape.bad", 1)

	_, _, err = jwt.ParseAndCheckProof(s, w.Checker, false)
	c.Expect(err != nil, "shape/"+name, "a malformed token was parsed and its proof accepted ("+name+")", s)

	switch name {
	case "no-alg", "typ-text", "typ-number", "typ-null", "typ-suffix", "typ-empty", "typ-list", "nested":
		c.Expect(jwt.CheckHeaders(hdr) != nil, "headers/"+name, "CheckHeaders accepts "+h, s)
	case "hdr-null", "pl-null", "b64-sig":
	default:
		c.Expect(!jwt.IsJWS(s) && !jwt.IsJWTUnsecured(s), "classify", "a malformed token was classified ("+name+")", s)
	}
}
