package vh

import (
	"fmt"
	"math/rand"
	"strings"
)

// Tamper makes one semantic change to a document in place and names the place; "" when not applicable.
type Tamper struct {
	Name string
	F    func(r *rand.Rand, d map[string]interface{}) string
}

func inArray(root interface{}, p Path) ([]interface{}, bool) {
	if _, ok := p[len(p)-1].(int); !ok {
		return nil, false
	}

	a, ok := Get(root, p[:len(p)-1]).([]interface{})

	return a, ok
}

func contains(a []interface{}, v interface{}) bool {
	for _, e := range a {
		if Eq(e, v) {
			return true
		}
	}

	return false
}

func isProof(p Path) bool { return p[0] == "proof" }

func top(p Path) string { return fmt.Sprint(p[0]) }

func emptyish(v interface{}) bool {
	switch x := v.(type) {
	case []interface{}:
		return len(x) == 0
	case nil:
		return true
	}

	return false
}

// ClaimTampers change the claims of a credential so that its linked-data meaning changes.
func ClaimTampers() []Tamper {
	return []Tamper{
		{"claim-changed", func(r *rand.Rand, d map[string]interface{}) string {
			var ls []Path
			for _, l := range Leaves(d) {
				if !isProof(l) && l[0] != "@context" {
					ls = append(ls, l)
				}
			}
			l := ls[r.Intn(len(ls))]
			old := Get(d, l)
			nv := Mutate(r, old)
			if a, ok := inArray(d, l); ok && (contains(a, nv)) {
				return ""
			}
			Set(d, l, nv)
			return top(l)
		}},
		{"claim-type-changed", func(r *rand.Rand, d map[string]interface{}) string { // 5 <-> "5", true <-> "true"
			var ls []Path
			for _, l := range Leaves(d) {
				if l[0] == "credentialSubject" || strings.HasPrefix(fmt.Sprint(l[0]), "custom") {
					switch Get(d, l).(type) {
					case float64, bool:
						ls = append(ls, l)
					}
				}
			}
			if len(ls) == 0 {
				return ""
			}
			l := ls[r.Intn(len(ls))]
			nv := fmt.Sprint(Get(d, l))
			if a, ok := inArray(d, l); ok && contains(a, nv) {
				return ""
			}
			Set(d, l, nv)
			return top(l)
		}},
		{"claim-removed", func(r *rand.Rand, d map[string]interface{}) string {
			var ls []Path
			for _, n := range Nodes(d) {
				if !isProof(n) && n[0] != "@context" {
					if _, ok := n[len(n)-1].(string); ok && !emptyish(Get(d, n)) {
						ls = append(ls, n)
					}
				}
			}
			l := ls[r.Intn(len(ls))]
			Del(d, l)
			return top(l)
		}},
		{"claim-added", func(r *rand.Rand, d map[string]interface{}) string {
			objs := []Path{{}}
			for _, n := range Nodes(d) {
				if _, ok := Get(d, n).(map[string]interface{}); ok && !isProof(n) {
					objs = append(objs, n)
				}
			}
			p := objs[r.Intn(len(objs))]
			Get(d, p).(map[string]interface{})["sneaked"] = Pick[interface{}](r, "claim", 7.0, true, map[string]interface{}{"a": "b"})
			if len(p) == 0 {
				return "root"
			}
			return top(p)
		}},
		{"claim-renamed", func(r *rand.Rand, d map[string]interface{}) string {
			var ls []Path
			for _, n := range Nodes(d) {
				if n[0] == "credentialSubject" {
					if k, ok := n[len(n)-1].(string); ok && k != "id" && k != "type" && k != "credentialSubject" && !emptyish(Get(d, n)) {
						ls = append(ls, n)
					}
				}
			}
			if len(ls) == 0 {
				return ""
			}
			l := ls[r.Intn(len(ls))]
			m := Get(d, l[:len(l)-1]).(map[string]interface{})
			k := l[len(l)-1].(string)
			m[k+"Renamed"] = m[k]
			delete(m, k)
			return top(l)
		}},
		{"type-added", func(r *rand.Rand, d map[string]interface{}) string {
			d["type"] = append(d["type"].([]interface{}), "SneakedCredential")
			return "type"
		}},
		{"subject-added", func(r *rand.Rand, d map[string]interface{}) string {
			s := map[string]interface{}{"id": "did:example:intruder", "given": "x"}
			switch x := d["credentialSubject"].(type) {
			case []interface{}:
				d["credentialSubject"] = append(x, s)
			default:
				d["credentialSubject"] = []interface{}{x, s}
			}
			return "credentialSubject"
		}},
	}
}
