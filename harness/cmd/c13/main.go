// C13: shared objects are safe for concurrent use.
package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"regexp"
	"runtime"
	"strings"
	"sync"
	"time"

	"github.com/piprate/json-gold/ld"
	"github.com/trustbloc/did-go/doc/did"
	vdrapi "github.com/trustbloc/did-go/vdr/api"

	"github.com/trustbloc/vc-go/proof/checker"
	"github.com/trustbloc/vc-go/proof/defaults"
	"github.com/trustbloc/vc-go/verifharness/vh"
	"github.com/trustbloc/vc-go/vermethod"
)

type (
	M = map[string]interface{}
	L = []interface{}
)

// act is an operation on shared values; f gives its outcome without what is random by design (salts, signatures).
type act struct {
	name string
	f    func() string
}

// scene makes, from fixed bytes, fresh shared values and the operations on them. Calling it again gives equal values.
type scene func() []act

var w *vh.World

func main() {
	vh.Main(vh.Spec{
		ID: "C13",
		Rule: "a scene is a set of shared values (parsed credentials and presentations of every form, proof checker, creators, resolver, loader, option slices with spare " +
			"capacity, presentation definitions, SD-JWT issuance and verification options, status and DID-configuration clients, Data Integrity signer and verifier, schema caches, " +
			"related-resource validators, stores) and read or produce operations on them. 4 to 10 goroutines run PRNG-chosen sequences of them on cold values under the race detector, " +
			"collaborators yielding; every outcome (verdict and content, without salts, signatures and generated ids) is compared with that of the same call made alone on equal values, and again afterwards. " +
			"Distinct: (scene, operation, outcome class, operation that overlapped in time).",
		Level:   "exploration",
		Require: map[string]int64{"calls": 6000, "overlaps": 5000, "ok": 5000, "refused": 600, "scenes": 200},
		Assumptions: []string{"operations documented to alter their receiver (Add*Proof, Set*, Reset*, AddCredentials) are run on values of one goroutine only",
			"the harness's own collaborators (resolver, loader, signers) are read-only and add no synchronisation"},
		Run:  run,
		Race: true,
	})
}

// collaborators that yield and hold no lock

type didRes struct{ docs map[string]*did.Doc }

func (s *didRes) Resolve(id string, _ ...vdrapi.DIDMethodOption) (*did.DocResolution, error) {
	runtime.Gosched()

	d, ok := s.docs[id]
	if !ok {
		return nil, fmt.Errorf("did %q not found", id)
	}

	return &did.DocResolution{DIDDocument: d}, nil
}

type yieldLoader struct{ in ld.DocumentLoader }

func (l *yieldLoader) LoadDocument(u string) (*ld.RemoteDocument, error) {
	runtime.Gosched()
	return l.in.LoadDocument(u)
}

// stage holds what all scenes share.
type stage struct {
	res     *didRes
	loader  ld.DocumentLoader
	checker *checker.ProofChecker
}

func newStage() *stage {
	s := &stage{res: &didRes{docs: map[string]*did.Doc{}}, loader: &yieldLoader{in: w.Loader}}
	for k, v := range w.Docs {
		s.res.docs[k] = v
	}

	s.checker = defaults.NewDefaultProofChecker(vermethod.NewVDRResolver(s.res))

	return s
}

type maker struct {
	name string
	f    func(r *rand.Rand) scene
	w    int // weight
}

func run(c *vh.Check) {
	w = vh.NewWorld("issuer", "holder", "site")
	w.PrepareLD()
	w.PrepareDI()

	all := makers()

	var bag []maker

	for _, m := range all {
		for i := 0; i < m.w; i++ {
			bag = append(bag, m)
		}
	}

	// one kind of scene at a time, then several together
	for _, m := range all {
		m := m
		c.Cases(m.name, c.N(8+5*m.w, 90+60*m.w), func(r *rand.Rand, _ int) { play(c, r, m.name, 24, m.f(r)) })
	}

	c.Cases("mixed", c.N(60, 900), func(r *rand.Rand, _ int) {
		n := 2 + r.Intn(4)

		var ss []scene

		for i := 0; i < n; i++ {
			ss = append(ss, vh.Pick(r, bag...).f(r))
		}

		play(c, r, "mixed", 40, ss...)
	})
}

type rec struct {
	a        int
	out      string
	from, to int64
	r        *rand.Rand
}

// play runs the concurrent phase and compares.
func play(c *vh.Check, r *rand.Rand, fam string, budget int, scenes ...scene) {
	stamp := func() []act {
		var out []act
		for _, s := range scenes {
			out = append(out, s()...)
		}

		return out
	}

	cold := stamp()
	twin := stamp()

	g := 4 + r.Intn(7)
	per := 1 + budget/g

	// a few operations are hot: many goroutines run the same ones
	hot := make([]int, 1+r.Intn(4))
	for i := range hot {
		hot[i] = r.Intn(len(cold))
	}

	plans := make([][]int, g)
	yields := make([][]int, g)

	for i := range plans {
		for j := 0; j < per; j++ {
			k := r.Intn(len(cold))
			if r.Intn(3) != 0 {
				k = hot[r.Intn(len(hot))]
			}

			plans[i] = append(plans[i], k)
			yields[i] = append(yields[i], r.Intn(4))
		}
	}

	logs := make([][]rec, g)
	start := make(chan struct{})
	t0 := time.Now()

	var wg sync.WaitGroup

	for i := range plans {
		i := i

		wg.Add(1)

		go func() {
			defer wg.Done()
			<-start

			for j, k := range plans[i] {
				for y := 0; y < yields[i][j]; y++ {
					runtime.Gosched()
				}

				from := time.Since(t0).Nanoseconds()
				out := call(cold[k])
				logs[i] = append(logs[i], rec{a: k, out: out, from: from, to: time.Since(t0).Nanoseconds()})
			}
		}()
	}

	close(start)
	wg.Wait()

	c.Count("scenes", 1)

	alone := map[int]string{}

	for i, l := range logs {
		for j, x := range l {
			if _, ok := alone[x.a]; !ok {
				alone[x.a] = call(twin[x.a])
			}

			a := cold[x.a]
			want := alone[x.a]

			c.Count("calls", 1)

			if strings.HasPrefix(want, "error") {
				c.Count("refused", 1)
			} else {
				c.Count("ok", 1)
			}

			c.Expect(x.out == want, fam+"/"+a.name+"/concurrent", "the outcome of "+a.name+" under concurrency differs from that of the same call alone",
				M{"op": a.name, "concurrent": cut(x.out, want), "alone": cut(want, x.out), "goroutine": i, "step": j, "plan": planNames(cold, plans)})

			cls := "ok"
			if strings.HasPrefix(want, "error") {
				cls = "error"
			}

			if strings.HasPrefix(want, "panic") {
				cls = "panic"
			}

			for k, m := range logs {
				if k == i {
					continue
				}

				for _, y := range m {
					if y.from < x.to && x.from < y.to {
						c.Count("overlaps", 1)
						c.Eval(a.name + " " + cls + " || " + cold[y.a].name)
					}
				}
			}
		}
	}

	for k, want := range alone {
		got := call(cold[k])
		c.Expect(got == want, fam+"/"+cold[k].name+"/afterwards", "after the concurrent phase "+cold[k].name+" has another outcome than alone",
			M{"op": cold[k].name, "after": cut(got, want), "alone": cut(want, got), "plan": planNames(cold, plans)})
	}
}

func planNames(as []act, plans [][]int) [][]string {
	var out [][]string

	for _, p := range plans {
		var l []string
		for _, k := range p {
			l = append(l, as[k].name)
		}

		out = append(out, l)
	}

	return out
}

// cut shows a string around the first difference with another.
func cut(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}

	from := i - 200
	if from < 0 {
		from = 0
	}

	to := i + 400
	if to > len(a) {
		to = len(a)
	}

	return fmt.Sprintf("@%d/%d %s", i, len(a), a[from:to])
}

func call(a act) (out string) {
	if p, site, v := vh.Guard(func() { out = a.f() }); p {
		return fmt.Sprintf("panic in %s: %v", site, v)
	}

	return out
}

// ---- outcomes ----

var (
	jwtRE  = regexp.MustCompile(`^[A-Za-z0-9_-]+\.[A-Za-z0-9_-]*\.[A-Za-z0-9_-]*(~.*)?$`)
	uuidRE = regexp.MustCompile(`[0-9a-f]{8}-[0-9a-f]{4}-[0-9a-f]{4}-[0-9a-f]{4}-[0-9a-f]{12}`)
	hexRE  = regexp.MustCompile(`^[0-9a-f]{200,}$`)
)

func dig(v interface{}, err error) string {
	if err != nil {
		return "error"
	}

	b, err := json.Marshal(v)
	if err != nil {
		return "unmarshalable " + err.Error()
	}

	var x interface{}
	if err := json.Unmarshal(b, &x); err != nil {
		return "unreadable " + err.Error()
	}

	return string(vh.J(scrub(x, "")))
}

// digTok is the outcome of making a token.
func digTok(s string, err error) string {
	if err != nil {
		return "error"
	}

	return string(vh.J(scrub(s, "")))
}

func ver(err error) string {
	if err != nil {
		return "error"
	}

	return "ok"
}

// scrub removes what is random by design.
func scrub(v interface{}, key string) interface{} {
	switch x := v.(type) {
	case M:
		out := M{}

		for k, e := range x {
			switch k {
			case "proofValue", "signatureValue", "jws", "_sd_salt":
				out[k] = "*"
			case "_sd":
				if l, ok := e.([]interface{}); ok {
					out[k] = len(l)
				}
			case "...":
				out[k] = "*"
			case "created", "iat":
				out[k] = "*"
			default:
				out[k] = scrub(e, k)
			}
		}

		return out
	case L:
		out := L{}
		for _, e := range x {
			out = append(out, scrub(e, key))
		}

		return out
	case string:
		return scrubS(x)
	}

	return v
}

func scrubS(s string) interface{} {
	if i := strings.Index(s, "data:application/"); i == 0 {
		if k := strings.Index(s, ","); k > 0 {
			return L{s[:k], scrubS(s[k+1:])}
		}
	}

	if hexRE.MatchString(s) {
		return "cose"
	}

	if jwtRE.MatchString(s) && strings.HasPrefix(s, "ey") {
		parts := strings.Split(s, "~")

		out := L{scrub(jpart(parts[0], 0), ""), scrub(jpart(parts[0], 1), "")}

		var ds []string

		for _, p := range parts[1:] {
			if strings.Count(p, ".") == 2 {
				out = append(out, scrubS(p))
				continue
			}

			if p == "" {
				continue
			}

			d, err := vh.DecDisc(p, 5)
			if err != nil {
				ds = append(ds, "bad")
				continue
			}

			ds = append(ds, string(vh.J(L{d.Name, scrub(d.Value, "")})))
		}

		return append(out, sorted(ds), len(parts))
	}

	return uuidRE.ReplaceAllString(s, "uuid")
}

func jpart(s string, i int) interface{} {
	p := strings.Split(s, ".")

	var v interface{}
	if err := json.Unmarshal(unb64(p[i]), &v); err != nil {
		return "?"
	}

	return v
}
