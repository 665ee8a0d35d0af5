package vh

import (
	"fmt"
	"math/rand"
	"reflect"
	"sort"
	"strings"
	"time"
)

// Pick chooses one element.
func Pick[T any](r *rand.Rand, xs ...T) T { return xs[r.Intn(len(xs))] }

// Str makes a random printable string; hostile adds escapes and non-ASCII.
func Str(r *rand.Rand) string {
	words := []string{"alpha", "Beta", "gamma 42", "x", "", "été", "日本語", "<b>&\"quote\"</b>", "line\nbreak", "tab\t", "emoji😀",
		"back\\slash", "a/b", "https://example.org/p?q=1&r=2", "null", "true", "12", "_sd", "...", "  pad  ", "u\u2028v"}
	s := Pick(r, words...)
	if r.Intn(3) == 0 {
		s += fmt.Sprintf("-%d", r.Intn(1000))
	}

	return s
}

// SafeStr makes a nonempty simple string.
func SafeStr(r *rand.Rand) string {
	return Pick(r, "alpha", "beta", "gamma", "delta", "omega") + fmt.Sprintf("%d", r.Intn(100000))
}

// Val makes a random JSON value; ld restricts to what JSON-LD keeps unambiguously.
func Val(r *rand.Rand, depth int, ldSafe bool) interface{} {
	n := 8
	if depth <= 0 {
		n = 5
	}

	switch r.Intn(n) {
	case 0:
		if ldSafe {
			return SafeStr(r)
		}

		return Str(r)
	case 1:
		return float64(r.Intn(2000000) - 1000000)
	case 2:
		if ldSafe {
			return float64(r.Intn(1000))
		}

		return Pick(r, 0.5, -1.25, 1e21, 1e-7, 3.0, 123456789.125)
	case 3:
		return r.Intn(2) == 0
	case 4:
		if ldSafe {
			return "v" + SafeStr(r)
		}

		return Pick[interface{}](r, nil, "", Str(r))
	case 5, 6:
		m := map[string]interface{}{}
		for i, k := 0, 1+r.Intn(3); i < k; i++ {
			m[Name(r, i)] = Val(r, depth-1, ldSafe)
		}

		return m
	default:
		var a []interface{}
		k := 1 + r.Intn(3)

		if !ldSafe && r.Intn(6) == 0 {
			k = 0
		}

		for i := 0; i < k; i++ {
			v := Val(r, depth-1, ldSafe)
			if _, isArr := v.([]interface{}); isArr && ldSafe {
				v = SafeStr(r)
			}

			a = append(a, v)
		}

		if a == nil {
			a = []interface{}{}
		}

		return a
	}
}

// Name makes a member name, unique per i.
func Name(r *rand.Rand, i int) string {
	return fmt.Sprintf("%s%d", Pick(r, "given", "family", "birth", "degree", "addr", "licence", "score"), i)
}

// Time makes a random whole-second RFC3339 time between 2000 and 2030 in a random zone.
func Time(r *rand.Rand) string {
	t := time.Unix(946684800+r.Int63n(946684800), 0).UTC()
	switch r.Intn(4) {
	case 0:
		return t.In(time.FixedZone("", (r.Intn(27)-13)*3600)).Format(time.RFC3339)
	case 1:
		return t.In(time.FixedZone("", 5*3600+1800)).Format(time.RFC3339)
	default:
		return t.Format(time.RFC3339)
	}
}

// CredOpts steer the generator.
type CredOpts struct {
	V          int // 1 or 2
	Issuer     string
	LDSafe     bool
	NoStatus   bool
	OneSubject bool
	NeedID     bool
	Ctx        []string // extra contexts (default CtxVerif)
}

// Cred makes a random credential document.
func Cred(r *rand.Rand, o CredOpts) map[string]interface{} {
	m := map[string]interface{}{}

	base := CtxV1
	if o.V == 2 {
		base = CtxV2
	}

	ctx := []interface{}{base}

	if o.Ctx == nil {
		o.Ctx = []string{CtxVerif}
	}

	for _, c := range o.Ctx {
		ctx = append(ctx, c)
	}

	m["@context"] = ctx

	types := []interface{}{"VerifiableCredential"}
	for i, k := 0, r.Intn(3); i < k; i++ {
		types = append(types, Pick(r, "AlphaCredential", "BetaCredential", "GammaCredential")+fmt.Sprint(i))
	}

	m["type"] = types

	if o.NeedID || r.Intn(5) != 0 {
		m["id"] = Pick(r, "urn:uuid:", "https://example.edu/credentials/", "did:example:") + SafeStr(r)
	}

	if r.Intn(2) == 0 {
		m["issuer"] = o.Issuer
	} else {
		iss := map[string]interface{}{"id": o.Issuer}
		for i, k := 0, r.Intn(3); i < k; i++ {
			iss[fmt.Sprintf("iprop%d", i)] = SafeStr(r)
		}

		if len(iss) == 1 && r.Intn(2) == 0 {
			iss["title"] = "Issuer " + SafeStr(r)
		}

		m["issuer"] = iss
	}

	if o.V == 2 {
		if r.Intn(4) != 0 {
			m["validFrom"] = Time(r)
		}

		if r.Intn(2) == 0 {
			m["validUntil"] = Time(r)
		}
	} else {
		m["issuanceDate"] = Time(r)
		if r.Intn(2) == 0 {
			m["expirationDate"] = Time(r)
		}
	}

	nsub := 1
	if !o.OneSubject && r.Intn(4) == 0 {
		nsub = 2 + r.Intn(2)
	}

	var subs []interface{}

	for i := 0; i < nsub; i++ {
		s := map[string]interface{}{}
		if r.Intn(4) != 0 || o.NeedID {
			s["id"] = "did:example:subject" + SafeStr(r)
		}

		for j, k := 0, 1+r.Intn(4); j < k; j++ {
			s[Name(r, j)] = Val(r, 2, o.LDSafe)
		}

		subs = append(subs, s)
	}

	if nsub == 1 && r.Intn(4) != 0 {
		m["credentialSubject"] = subs[0]
	} else {
		m["credentialSubject"] = subs
	}

	if !o.NoStatus && r.Intn(3) == 0 {
		m["credentialStatus"] = map[string]interface{}{
			"id": "https://status.example/" + SafeStr(r), "type": "CustomStatus2099", "slot": SafeStr(r)}
	}

	if r.Intn(4) == 0 {
		m["refreshService"] = map[string]interface{}{
			"id": "https://refresh.example/" + SafeStr(r), "type": "ManualRefreshService2018"}
	}

	if r.Intn(4) == 0 {
		m["evidence"] = map[string]interface{}{
			"id": "https://evidence.example/" + SafeStr(r), "type": []interface{}{"DocumentVerification"}, "verifier": SafeStr(r)}
	}

	if r.Intn(4) == 0 {
		m["termsOfUse"] = []interface{}{map[string]interface{}{
			"id": "https://terms.example/" + SafeStr(r), "type": "IssuerPolicy", "profile": "https://p.example/" + SafeStr(r)}}
	}

	for i, k := 0, r.Intn(3); i < k; i++ {
		m[fmt.Sprintf("custom%d", i)] = Val(r, 2, o.LDSafe)
	}

	return m
}

// Clone deep-copies a JSON value.
func Clone(v interface{}) interface{} {
	switch x := v.(type) {
	case map[string]interface{}:
		m := make(map[string]interface{}, len(x))
		for k, e := range x {
			m[k] = Clone(e)
		}

		return m
	case []interface{}:
		a := make([]interface{}, len(x))
		for i, e := range x {
			a[i] = Clone(e)
		}

		return a
	default:
		return v
	}
}

// CloneM deep-copies an object.
func CloneM(m map[string]interface{}) map[string]interface{} {
	return Clone(m).(map[string]interface{})
}

// Path addresses one place in a JSON value.
type Path []interface{}

func (p Path) String() string {
	var b strings.Builder
	for _, e := range p {
		fmt.Fprintf(&b, "/%v", e)
	}

	return b.String()
}

// Leaves lists the paths of all non-container values (and empty containers), sorted.
func Leaves(v interface{}) []Path {
	var out []Path

	var walk func(v interface{}, p Path)
	walk = func(v interface{}, p Path) {
		switch x := v.(type) {
		case map[string]interface{}:
			for _, k := range SortedKeys(x) {
				walk(x[k], append(append(Path{}, p...), k))
			}
		case []interface{}:
			for i, e := range x {
				walk(e, append(append(Path{}, p...), i))
			}
		default:
			out = append(out, p)
		}
	}
	walk(v, nil)

	return out
}

// Nodes lists the paths of all values below the root.
func Nodes(v interface{}) []Path {
	var out []Path

	var walk func(v interface{}, p Path)
	walk = func(v interface{}, p Path) {
		if len(p) > 0 {
			out = append(out, p)
		}

		switch x := v.(type) {
		case map[string]interface{}:
			for _, k := range SortedKeys(x) {
				walk(x[k], append(append(Path{}, p...), k))
			}
		case []interface{}:
			for i, e := range x {
				walk(e, append(append(Path{}, p...), i))
			}
		}
	}
	walk(v, nil)

	return out
}

// SortedKeys gives the member names in order.
func SortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}

	sort.Strings(ks)

	return ks
}

// Get follows a path.
func Get(v interface{}, p Path) interface{} {
	for _, e := range p {
		switch k := e.(type) {
		case string:
			v = v.(map[string]interface{})[k]
		case int:
			v = v.([]interface{})[k]
		}
	}

	return v
}

// Set replaces the value at a path in place.
func Set(v interface{}, p Path, nv interface{}) {
	parent := Get(v, p[:len(p)-1])
	switch k := p[len(p)-1].(type) {
	case string:
		parent.(map[string]interface{})[k] = nv
	case int:
		parent.([]interface{})[k] = nv
	}
}

// Del removes the member at a path (map members only); reports whether it did.
func Del(v interface{}, p Path) bool {
	parent := Get(v, p[:len(p)-1])
	if m, ok := parent.(map[string]interface{}); ok {
		delete(m, p[len(p)-1].(string))
		return true
	}

	return false
}

// Mutate changes one scalar into a different one of the same kind.
func Mutate(r *rand.Rand, v interface{}) interface{} {
	switch x := v.(type) {
	case string:
		if x == "" {
			return "x"
		}

		if r.Intn(2) == 0 {
			return x + "x"
		}

		b := []rune(x)
		i := r.Intn(len(b))

		if b[i] == 'Q' {
			b[i] = 'R'
		} else {
			b[i] = 'Q'
		}

		return string(b)
	case float64:
		if x+1 == x {
			return x * 2
		}

		return x + 1
	case bool:
		return !x
	case nil:
		return "notnull"
	default:
		return "replaced"
	}
}

// Norm brings any JSON-marshallable value to plain JSON types.
func Norm(v interface{}) interface{} {
	var out interface{}
	if err := UnJ(J(v), &out); err != nil {
		fixtureFail("norm", err)
	}

	return out
}

// Eq compares JSON values.
func Eq(a, b interface{}) bool { return reflect.DeepEqual(a, b) }

// Diff names the first difference between two JSON values ("" when equal).
func Diff(a, b interface{}) string {
	switch x := a.(type) {
	case map[string]interface{}:
		y, ok := b.(map[string]interface{})
		if !ok {
			return fmt.Sprintf(": object vs %T", b)
		}

		for _, k := range SortedKeys(x) {
			bv, ok := y[k]
			if !ok {
				return fmt.Sprintf("/%s: missing in second", k)
			}

			if d := Diff(x[k], bv); d != "" {
				return "/" + k + d
			}
		}

		for _, k := range SortedKeys(y) {
			if _, ok := x[k]; !ok {
				return fmt.Sprintf("/%s: only in second", k)
			}
		}

		return ""
	case []interface{}:
		y, ok := b.([]interface{})
		if !ok {
			return fmt.Sprintf(": array vs %T", b)
		}

		if len(x) != len(y) {
			return fmt.Sprintf(": length %d vs %d", len(x), len(y))
		}

		for i := range x {
			if d := Diff(x[i], y[i]); d != "" {
				return fmt.Sprintf("/%d%s", i, d)
			}
		}

		return ""
	default:
		if !reflect.DeepEqual(a, b) {
			return fmt.Sprintf(": %s vs %s", trunc(fmt.Sprintf("%#v", a)), trunc(fmt.Sprintf("%#v", b)))
		}

		return ""
	}
}

func trunc(s string) string {
	if len(s) > 160 {
		return s[:160] + "…"
	}

	return s
}
