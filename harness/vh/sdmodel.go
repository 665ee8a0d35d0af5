package vh

import (
	"crypto"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"strings"

	josejson "github.com/go-jose/go-jose/v3/json"
	"github.com/trustbloc/kms-go/doc/jose"
)

// NormJ is Norm for values that hold go-jose's number type (jwt payloads).
func NormJ(v interface{}) interface{} {
	b, err := josejson.Marshal(v)
	if err != nil {
		fixtureFail("normj", err)
	}

	var out interface{}
	if err := json.Unmarshal(b, &out); err != nil {
		fixtureFail("normj", err)
	}

	return out
}

// JoseSigner adapts a Key to the signer the code wants.
type JoseSigner struct {
	K *Key
	H map[string]interface{}
}

// Sign signs.
func (s JoseSigner) Sign(data []byte) ([]byte, error) { return s.K.Sign(data) }

// Headers gives alg and kid.
func (s JoseSigner) Headers() jose.Headers {
	h := jose.Headers{"alg": s.K.Alg, "kid": s.K.ID}
	for k, v := range s.H {
		h[k] = v
	}

	return h
}

// Disc is one decoded disclosure, independently of the code under test.
type Disc struct {
	Raw, Salt, Name string
	Value           interface{}
	N               int
	Digest          string
}

// DecDisc decodes a disclosure.
func DecDisc(raw string, h crypto.Hash) (*Disc, error) {
	b, err := base64.RawURLEncoding.DecodeString(raw)
	if err != nil {
		return nil, err
	}

	var a []interface{}
	if err := json.Unmarshal(b, &a); err != nil {
		return nil, err
	}

	d := &Disc{Raw: raw, N: len(a)}
	if len(a) < 2 || len(a) > 3 {
		return nil, fmt.Errorf("size %d", len(a))
	}

	var ok bool
	if d.Salt, ok = a[0].(string); !ok {
		return nil, fmt.Errorf("salt")
	}

	if len(a) == 3 {
		if d.Name, ok = a[1].(string); !ok {
			return nil, fmt.Errorf("name")
		}
	}

	d.Value = a[len(a)-1]
	d.Digest = SDDigest(raw, h)

	return d, nil
}

// SDDigest hashes a disclosure.
func SDDigest(raw string, h crypto.Hash) string {
	x := h.New()
	x.Write([]byte(raw))

	return B64(x.Sum(nil))
}

// EncDisc encodes a disclosure array.
func EncDisc(parts ...interface{}) string { return B64(J(parts)) }

// HiddenArray marks an array of which nothing was disclosed: absent, null or empty are all fine.
type HiddenArray struct{}

// SDDigests lists every digest position of a value, recursively (without following disclosures).
func SDDigests(v interface{}) []string {
	var out []string

	switch x := v.(type) {
	case map[string]interface{}:
		for _, k := range SortedKeys(x) {
			if k == "_sd" {
				if a, ok := x[k].([]interface{}); ok {
					for _, e := range a {
						if s, ok := e.(string); ok {
							out = append(out, s)
						}
					}
				}

				continue
			}

			out = append(out, SDDigests(x[k])...)
		}
	case []interface{}:
		for _, e := range x {
			if m, ok := e.(map[string]interface{}); ok && len(m) == 1 {
				if s, ok := m["..."].(string); ok {
					out = append(out, s)
					continue
				}
			}

			out = append(out, SDDigests(e)...)
		}
	}

	return out
}

// SDResolve is the reference resolution: payload plus disclosures gives the visible claims.
func SDResolve(v interface{}, ds map[string]*Disc, used map[string]int) interface{} {
	switch x := v.(type) {
	case map[string]interface{}:
		out := map[string]interface{}{}

		for _, k := range SortedKeys(x) {
			if k == "_sd" {
				a, _ := x[k].([]interface{})
				for _, e := range a {
					if d, ok := ds[fmt.Sprint(e)]; ok {
						used[d.Digest]++
						out[d.Name] = SDResolve(d.Value, ds, used)
					}
				}

				continue
			}

			if k == "_sd_alg" {
				continue
			}

			out[k] = SDResolve(x[k], ds, used)
		}

		return out
	case []interface{}:
		out := []interface{}{}

		for _, e := range x {
			if m, ok := e.(map[string]interface{}); ok && len(m) == 1 {
				if s, ok := m["..."].(string); ok {
					if d, ok := ds[s]; ok {
						used[d.Digest]++
						out = append(out, SDResolve(d.Value, ds, used))
					}

					continue
				}
			}

			out = append(out, SDResolve(e, ds, used))
		}

		if len(out) == 0 && len(x) > 0 {
			return HiddenArray{}
		}

		return out
	default:
		return v
	}
}

// hidden tells that nothing of the value shows: a hidden array, or an object of nothing else.
func hidden(v interface{}) bool {
	switch x := v.(type) {
	case HiddenArray:
		return true
	case map[string]interface{}:
		for _, e := range x {
			if !hidden(e) {
				return false
			}
		}

		return len(x) > 0
	}

	return false
}

// SDDiff compares the model's claims with observed ones.
func SDDiff(model, got interface{}) string {
	switch x := model.(type) {
	case map[string]interface{}:
		y, ok := got.(map[string]interface{})
		if !ok {
			return fmt.Sprintf(": object vs %T", got)
		}

		for _, k := range SortedKeys(x) {
			gv, ok := y[k]
			if !ok {
				if hidden(x[k]) {
					continue
				}

				return "/" + k + ": missing"
			}

			if d := SDDiff(x[k], gv); d != "" {
				return "/" + k + d
			}
		}

		for _, k := range SortedKeys(y) {
			if _, ok := x[k]; !ok {
				return "/" + k + ": not expected"
			}
		}

		return ""
	case []interface{}:
		y, ok := got.([]interface{})
		if !ok || len(x) != len(y) {
			return fmt.Sprintf(": array of %d vs %s", len(x), trunc(fmt.Sprintf("%#v", got)))
		}

		for i := range x {
			if d := SDDiff(x[i], y[i]); d != "" {
				return fmt.Sprintf("/%d%s", i, d)
			}
		}

		return ""
	case HiddenArray:
		if got == nil || got == (HiddenArray{}) {
			return ""
		}

		if a, ok := got.([]interface{}); ok && len(a) == 0 {
			return ""
		}

		return fmt.Sprintf(": undisclosed array shows %s", trunc(fmt.Sprintf("%#v", got)))
	default:
		if !Eq(model, got) {
			return fmt.Sprintf(": %s vs %s", trunc(fmt.Sprintf("%#v", model)), trunc(fmt.Sprintf("%#v", got)))
		}

		return ""
	}
}

// JWTPart decodes part i of a compact token as an object.
func JWTPart(s string, i int) map[string]interface{} {
	b, err := base64.RawURLEncoding.DecodeString(strings.Split(strings.SplitN(s, "~", 2)[0], ".")[i])
	if err != nil {
		fixtureFail("jwt part", err)
	}

	return M(b)
}
