package vh

import (
	"fmt"
	"math/rand"
	"sort"
	"strconv"
	"strings"
)

// BBSSuite is the BBS+ signature suite.
func BBSSuite() LDSuite { return LDSuites[len(LDSuites)-1] }

// BBSCanon is a linked-data document with the differences removed that framing makes: order and wrapping of lists,
// labels of blank nodes, typed literals for numbers and booleans, null members, proofs and contexts.
func BBSCanon(v interface{}) interface{} {
	switch x := v.(type) {
	case map[string]interface{}:
		if val, ok := x["@value"].(string); ok {
			t := AsStr(x["type"]) + AsStr(x["@type"])

			switch t[strings.LastIndexAny(t, "#:")+1:] {
			case "integer", "double":
				if f, err := strconv.ParseFloat(val, 64); err == nil {
					return f
				}
			case "boolean":
				return val == "true"
			}
		}

		out := map[string]interface{}{}

		for k, e := range x {
			if k == "@context" || k == "proof" || e == nil {
				continue
			}

			if s, ok := e.(string); ok && k == "id" && (strings.HasPrefix(s, "urn:bnid:") || strings.HasPrefix(s, "_:")) {
				continue
			}

			c := BBSCanon(e)
			if l, ok := c.([]interface{}); ok && len(l) == 0 {
				continue
			}

			out[k] = c
		}

		if s, ok := out["id"].(string); ok && len(out) == 1 {
			return s
		}

		return out
	case []interface{}:
		seen := map[string]interface{}{}

		for _, e := range x {
			c := BBSCanon(e)
			b := string(J(c))

			if m, ok := c.(map[string]interface{}); ok { // nodes without a name are not merged
				if _, named := m["id"]; !named {
					for seen[b] != nil {
						b += " "
					}
				}
			}

			seen[b] = c
		}

		var ks []string
		for k := range seen {
			ks = append(ks, k)
		}

		sort.Strings(ks)

		out := []interface{}{}
		for _, k := range ks {
			out = append(out, seen[k])
		}

		if len(out) == 1 {
			return out[0]
		}

		return out
	case string:
		if strings.HasPrefix(x, "urn:bnid:_:") || strings.HasPrefix(x, "_:") { // a node of which nothing else is shown
			return map[string]interface{}{}
		}

		return x
	case int:
		return float64(x)
	default:
		return v
	}
}

var bbsN int

// BBSTok is a value that occurs once.
func BBSTok(r *rand.Rand) string {
	bbsN++

	return fmt.Sprintf("tk%05d%04d", bbsN, r.Intn(10000))
}

// BBSDoc makes a credential whose claims can all be named in a frame; named says whether nested objects may be
// nested further (an object below an object without an id is lost by the framing library).
func (w *World) BBSDoc(r *rand.Rand, issuer string) map[string]interface{} {
	leaf := func() interface{} {
		switch r.Intn(10) {
		case 0:
			return float64(r.Intn(1000))
		case 1:
			return r.Intn(2) == 0
		case 2:
			return BBSTok(r) + Pick(r, " ü€", "\"q\"", "\n", "\\", " <x> .", " \u2028 ", "'", "  two  spaces", " end ")
		case 3:
			return float64(r.Intn(100)) + 0.5
		case 4, 5:
			l := []interface{}{}
			for i := 0; i < 1+r.Intn(3); i++ {
				l = append(l, BBSTok(r))
			}

			if r.Intn(3) == 0 { // the same but for the case
				l = append(l, strings.ToUpper(l[0].(string)))
			}

			return l
		default:
			return BBSTok(r)
		}
	}

	iri := func() string {
		return Pick(r, "urn:uuid:", "https://z.example/", "http://a.example/", "did:test:") + BBSTok(r)
	}

	var node func(depth int, mayNest bool) map[string]interface{}

	node = func(depth int, mayNest bool) map[string]interface{} {
		m := map[string]interface{}{}
		named := r.Intn(2) == 0

		if named {
			m["id"] = iri()
		}

		if r.Intn(3) == 0 {
			m["type"] = Pick[interface{}](r, "Thing", []interface{}{"Thing", "Other"})
		}

		for i := 0; i < 1+r.Intn(3); i++ {
			m[Pick(r, "p", "q", "r", "s")] = leaf()
		}

		if depth > 0 && named && mayNest && r.Intn(2) == 0 {
			m["sub"] = node(depth-1, mayNest)
		}

		return m
	}

	subj := map[string]interface{}{"z": BBSTok(r)}
	if r.Intn(5) != 0 {
		subj["id"] = iri()
	}

	_, named := subj["id"]

	for _, k := range []string{"a", "b", "c", "name-of", "age"} {
		if r.Intn(2) == 0 {
			subj[k] = leaf()
		}
	}

	if r.Intn(3) == 0 {
		subj["type"] = "Person"
	}

	if named {
		if r.Intn(2) == 0 {
			subj["address"] = node(2, true)
		}

		if r.Intn(2) == 0 {
			l := []interface{}{}
			for i := 0; i < 1+r.Intn(3); i++ {
				l = append(l, node(1, true))
			}

			subj["degrees"] = l
		}
	}

	types := []interface{}{"VerifiableCredential"}
	if r.Intn(2) == 0 {
		types = append(types, "Extra"+Pick(r, "A", "B"))
	}

	doc := map[string]interface{}{
		"@context": []interface{}{CtxV1, CtxBBS, map[string]interface{}{"@vocab": "https://voc.example/v#"}},
		"id":       iri(), "type": types, "issuer": issuer, "issuanceDate": Time(r), "credentialSubject": subj,
	}

	if r.Intn(3) == 0 {
		doc["expirationDate"] = Time(r)
	}

	if r.Intn(4) == 0 {
		doc["issuer"] = map[string]interface{}{"id": issuer, "name": BBSTok(r)}
	}

	if r.Intn(4) == 0 {
		doc["evidence"] = map[string]interface{}{"id": iri(), "type": "Ev", "p": leaf()}
	}

	if r.Intn(4) == 0 {
		doc["note"] = leaf()
	}

	if r.Intn(8) == 0 {
		if s2 := node(1, true); s2["id"] != nil {
			doc["credentialSubject"] = []interface{}{subj, s2}
		}
	}

	return doc
}
