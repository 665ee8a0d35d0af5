// C12: hostile input is answered with an error, never a crash or a hang.
package main

import (
	"bytes"
	"fmt"
	"io"
	"math/rand"
	"net/http"
	"regexp"
	"runtime/metrics"
	"strings"
	"syscall"

	"github.com/trustbloc/vc-go/dataintegrity"
	dcverifier "github.com/trustbloc/vc-go/didconfig/verifier"
	"github.com/trustbloc/vc-go/verifharness/vh"
)

func main() {
	vh.Main(vh.Spec{
		ID: "C12",
		Rule: "valid inputs of every kind (JSON, JWT, CWT and SD-JWT credentials and presentations, linked-data, Data Integrity and BBS+ proofs, status list credentials, " +
			"presentation definitions and submissions, DID configurations, DID documents, verification methods, keys, data URLs, schemas) are altered structurally (any node replaced by a " +
			"value of another type, null, empty, deleted, renamed, wrapped, repeated, nested, copied from elsewhere, extreme numbers), in their text or in raw bytes; besides, each of a list of shapes is " +
			"put in every place down to a depth of full documents, and in every pair of places of small ones (quick: pairs of emptied places and a part of the others). They are then re-signed " +
			"where a signature lies on the way, and given to the entry points that read that kind, and to those of other kinds. Whatever parses is then passed to the operations on parsed " +
			"objects. Every call is guarded for panics and metered: heap allocation and processor time per call. Distinct: (entry point, outcome or class of error message).",
		Level:   "exploration",
		Require: map[string]int64{"calls": 40000, "errors": 20000, "accepted": 5000, "kinds": 15, "sweep.single": 8000, "sweep.pair": 10000},
		Assumptions: []string{
			"a call runs away when it allocates more than 1 GiB plus 20 KB per input byte or uses more than 90 s of processor time; a case that does not come back within 240 s is a hang",
			"the caller passes non-nil options, loaders, registries and signers; documents served by the DID registry, status publishers and schema sites are hostile, the Go interfaces are not",
		},
		Run: run,
	})
}

var (
	w        *vh.World
	div      *dataintegrity.Verifier
	web      = &site{}
	errClass = regexp.MustCompile(`[0-9A-Fa-f]{6,}|[0-9]+|"[^"]*"|'[^']*'|\[[^\]]*\]|did:\S+|https?:\S+|\{.*`)
)

// site answers every HTTP request of the worker.
type site struct {
	code int
	body func(url string) []byte
}

func (s *site) RoundTrip(q *http.Request) (*http.Response, error) {
	b := []byte("{}")
	if s.body != nil {
		b = s.body(q.URL.String())
	}

	code := s.code
	if code == 0 {
		code = 200
	}

	return &http.Response{StatusCode: code, Header: http.Header{}, Body: io.NopCloser(bytes.NewReader(b)), Request: q}, nil
}

// probe is one hostile input.
type probe struct {
	c    *vh.Check
	r    *rand.Rand
	kind string
	how  string
	in   interface{}
	size int
}

func newProbe(c *vh.Check, r *rand.Rand, kind, how string, in interface{}) *probe {
	p := &probe{c: c, r: r, kind: kind, how: how, in: in}

	switch x := in.(type) {
	case []byte:
		p.size = len(x)
	case string:
		p.size = len(x)
	default:
		p.size = len(vh.J(in))
	}

	return p
}

var sample = []metrics.Sample{{Name: "/gc/heap/allocs:bytes"}}

func allocs() uint64 {
	metrics.Read(sample)
	return sample[0].Value.Uint64()
}

func cpu() float64 {
	var u syscall.Rusage

	_ = syscall.Getrusage(syscall.RUSAGE_SELF, &u)

	return float64(u.Utime.Sec+u.Stime.Sec) + float64(u.Utime.Usec+u.Stime.Usec)/1e6
}

var maxAlloc, maxCPU float64

// call runs one entry point on the input.
func (p *probe) call(entry string, f func() error) (ok bool) {
	a0, t0 := allocs(), cpu()

	var err error

	panicked, site, v := vh.Guard(func() { err = f() })
	da, dt := float64(allocs()-a0), cpu()-t0

	p.c.Count("calls", 1)

	if panicked {
		p.c.Violate("panic/"+site, fmt.Sprintf("%s panicked on hostile input (%s, %s): %v", entry, p.kind, p.how, v), M{"input": p.detail(entry), "stack": strings.Split(frames(vh.LastStack), "\n")})

		return false
	}

	if da > maxAlloc {
		maxAlloc = da
	}

	if dt > maxCPU {
		maxCPU = dt
	}

	p.c.Expect(da <= float64(1<<30)+20000*float64(p.size), "memory/"+entry, fmt.Sprintf("%s allocated %.0f MB on an input of %d bytes (%s, %s)", entry, da/1e6, p.size, p.kind, p.how), p.detail(entry))
	p.c.Expect(dt <= 90, "time/"+entry, fmt.Sprintf("%s used %.0f s on an input of %d bytes (%s, %s)", entry, dt, p.size, p.kind, p.how), p.detail(entry))

	if err != nil {
		p.c.Count("errors", 1)
		p.c.Eval(entry + " error " + cut(errClass.ReplaceAllString(err.Error(), "#"), 60))

		return false
	}

	p.c.Count("accepted", 1)
	p.c.Eval(entry + " ok")

	return true
}

func (p *probe) detail(entry string) interface{} {
	in := p.in

	switch x := in.(type) {
	case []byte:
		if bytes.ContainsFunc(x, func(c rune) bool { return c == '\ufffd' || c < 9 }) {
			in = fmt.Sprintf("hex %x", x)
		} else {
			in = string(x)
		}
	case string:
	default:
		in = string(vh.J(x))
	}

	return M{"entry": entry, "kind": p.kind, "how": p.how, "input": cut(fmt.Sprint(in), 6000)}
}

func run(c *vh.Check) {
	w = vh.NewWorld("issuer", "holder", "other")
	w.PrepareLD()
	w.PrepareDI()

	div = w.DIVerifier()
	http.DefaultTransport = web
	http.DefaultClient.Transport = web

	dcverifier.SetDebugOutput(io.Discard)

	prepare()

	fams := []struct {
		name string
		n    int
		f    func(c *vh.Check, r *rand.Rand)
	}{
		{"credential", 1400, credentials}, {"presentation", 900, presentations}, {"token", 900, tokens}, {"cose", 900, coses}, {"bytes", 900, anyBytes}, {"sdjwt", 1200, sdjwts}, {"sdvc", 300, sdCredentials},
		{"ldproof", 500, ldProofs}, {"dataintegrity", 500, diProofs}, {"bbs", 120, bbsFam}, {"status", 800, statuses}, {"exchange", 1400, exchanges}, {"match", 900, matches}, {"didconfig", 600, didConfigs},
		{"diddoc", 600, didDocs}, {"key", 700, keysFam}, {"jsonschema", 400, schemaFam}, {"related", 300, related}, {"small", 700, smalls}, {"store", 200, stores}, {"deep", 60, deep}, {"wide", 40, wide},
	}

	c.One("deep-strict", 0, func(r *rand.Rand, _ int) { deepStrict(c, r) })
	c.One("poison", 0, func(r *rand.Rand, _ int) { poison(c, r) })

	for _, f := range fams {
		f := f

		c.Cases(f.name, c.N(f.n, 10*f.n), func(r *rand.Rand, _ int) {
			web.code, web.body = 200, nil
			f.f(c, r)
		})

		if c.Mine(0) {
			c.Count("kinds", 1)
		}
	}

	sweeps(c)

	c.Sample(fmt.Sprintf("largest allocation of one call: %.0f MB; most processor time of one call: %.2f s", maxAlloc/1e6, maxCPU))
}

// frames are the lines of a stack with source locations, from the panic on.
func frames(st string) string {
	var out []string

	if i := strings.Index(st, "panic("); i >= 0 {
		st = st[i:]
	}

	for _, l := range strings.Split(st, "\n") {
		if strings.HasPrefix(l, "\t") && len(out) < 14 {
			out = append(out, strings.TrimPrefix(strings.Fields(l)[0], "/root/go/pkg/mod/github.com/"))
		}
	}

	return strings.Join(out, "\n")
}

func shorten(s string) string { return strings.ReplaceAll(s, " ", "") }
