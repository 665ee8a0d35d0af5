// C20: the schema cache returns only live entries, and schemas are always applied.
package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net/http"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/trustbloc/vc-go/verifharness/vh"
	"github.com/trustbloc/vc-go/verifiable"
)

type M = map[string]interface{}

var w *vh.World

func main() {
	vh.Main(vh.Spec{
		ID: "C20",
		Rule: "cache: timelines of puts and lookups of many keys (values of 0 to 70000 bytes, hostile keys) on shared expiring caches with lifetimes from " +
			"negative to an hour, in real time and concurrently, judged by the interval in which each entry was stored; a flood that overflows the cache. " +
			"schemas: credential x satisfied or violated JSON schemas (type, enum, pattern, bounds, required, nested) x place (network, cold, warm, expired or " +
			"user-supplied cache, option) x entry point x HTTP fault (of all or one of several); pairs of schemas whose URLs are easily confused share a cache. Distinct: (lifetime, value class, verdict) and (entry point, place, schema list, verdict).",
		Level: "exploration",
		Require: map[string]int64{"cache.hit": 2000, "cache.expired": 1000, "cache.never": 500, "cache.overwritten": 300, "schema.accepted": 800, "schema.violated": 800,
			"fault.rejected": 300, "fault.recovered": 150, "refreshed": 60, "from.warm": 300, "from.network": 300, "second.violated": 100,
			"near": 1000, "partial.rejected": 300},
		Assumptions: []string{"lifetimes count in whole seconds (an entry may be returned up to one second late)",
			"a supported referenced schema takes the place of the default schema (the repository's tests pin that)"},
		Run: run,
	})
}

func run(c *vh.Check) {
	w = vh.NewWorld("issuer", "holder")

	c.Cases("timeline", c.N(8, 96), func(r *rand.Rand, _ int) { timeline(c, r) })
	c.Cases("flood", c.N(1, 8), func(r *rand.Rand, _ int) { flood(c, r) })
	c.Cases("schema", c.N(2600, 40000), func(r *rand.Rand, _ int) { schema(c, r) })
	c.Cases("fault", c.N(500, 6000), func(r *rand.Rand, _ int) { fault(c, r) })
	c.Cases("near", c.N(400, 6000), func(r *rand.Rand, _ int) { near(c, r) })
	c.Cases("partial", c.N(400, 6000), func(r *rand.Rand, _ int) { partial(c, r) })
	c.Cases("refresh", c.N(8, 64), func(r *rand.Rand, _ int) { refresh(c, r) })
}

// ---- the cache ----

// timeline: one goroutine per key, several keys per cache.
func timeline(c *vh.Check, r *rand.Rand) {
	lifes := []time.Duration{-time.Hour, -time.Second, 0, 300 * time.Millisecond, time.Second, 1500 * time.Millisecond, 2 * time.Second, 3 * time.Second, time.Hour, 100 * 365 * 24 * time.Hour}

	var wg sync.WaitGroup

	for _, life := range lifes {
		cache := verifiable.NewExpirableSchemaCache(vh.Pick(r, 1, 1<<20, 33<<20), life)
		large := r.Intn(4) == 0 // values that make the cache evict others

		for k := 0; k < 8; k++ {
			key := vh.Pick(r, "https://schema.example/", "", "k", "ключ", "\x00", strings.Repeat("x", 300)) + strconv.Itoa(k)
			if k == 0 && r.Intn(2) == 0 {
				key = ""
			}

			gr := rand.New(rand.NewSource(r.Int63()))

			wg.Add(1)

			go func() {
				defer wg.Done()
				keyHistory(c, gr, cache, life, key, large)
			}()
		}
	}

	wg.Wait()
}

func keyHistory(c *vh.Check, r *rand.Rand, cache *verifiable.ExpirableSchemaCache, life time.Duration, key string, large bool) {
	var (
		val    []byte
		stored bool
		t0, t1 time.Time // the entry was stored in between
		log    []string
	)

	for n := 14; n > 0; n-- {
		if r.Intn(4) == 0 {
			size := vh.Pick(r, 0, 1, 7, 8, 9, 100, 1000)
			if large && r.Intn(2) == 0 {
				size = vh.Pick(r, 5000, 60000)
			}

			v := make([]byte, size)
			r.Read(v)

			if stored {
				c.Count("cache.overwritten", 1)
			}

			in := append([]byte{}, v...)
			t0 = time.Now()
			cache.Put(key, in)
			t1 = time.Now()

			for i := range in { // the caller goes on using its buffer
				in[i] ^= 0x55
			}

			val, stored = v, true
			log = append(log, fmt.Sprintf("%d ms: put %d bytes", t1.UnixMilli()%100000, size))
		}

		p0 := time.Now()
		got, ok := cache.Get(key)
		p1 := time.Now()
		log = append(log, fmt.Sprintf("%d ms: get %v", p1.UnixMilli()%100000, ok))

		verdict := "never"

		switch {
		case !stored:
			c.Expect(!ok, "cache/never-stored", fmt.Sprintf("key %.40q was never stored but found", key), log)
			c.Count("cache.never", 1)
		case p0.Unix() > t1.Add(life).Unix():
			c.Expect(!ok, "cache/expired", fmt.Sprintf("entry of key %.40q with lifetime %v stored at %v is found at %v", key, life, t1, p0), log)
			c.Count("cache.expired", 1)

			verdict = "expired"
		case p1.Unix() < t0.Add(life).Unix():
			c.Expect(ok || large, "cache/lost", fmt.Sprintf("entry of key %.40q with lifetime %v stored at %v is not found at %v", key, life, t0, p1), log)
			c.Count("cache.hit", 1)

			verdict = "live"
		default:
			verdict = "boundary"
		}

		if ok && stored {
			c.Expect(bytes.Equal(got, val), "cache/value", fmt.Sprintf("key %.40q: %d bytes found where %d other bytes were stored", key, len(got), len(val)), log)

			for i := range got { // and what it got
				got[i] ^= 0xaa
			}
		}

		c.Eval(fmt.Sprint("cache", life, len(val), verdict))
		time.Sleep(time.Duration(50+r.Intn(600)) * time.Millisecond)
	}
}

// flood overflows the cache: what is still found is what was stored.
func flood(c *vh.Check, r *rand.Rand) {
	cache := verifiable.NewExpirableSchemaCache(1, time.Hour)
	n := 1500
	at := func(i int) []byte {
		b := make([]byte, 40000)
		rand.New(rand.NewSource(int64(i))).Read(b)

		return b
	}

	for i := 0; i < n; i++ {
		cache.Put(fmt.Sprint("key", i), at(i))
	}

	hits := 0

	for i := 0; i < n+100; i++ {
		got, ok := cache.Get(fmt.Sprint("key", i))
		if !ok {
			continue
		}

		hits++

		c.Expect(i < n && bytes.Equal(got, at(i)), "cache/flood", fmt.Sprintf("key %d gives other bytes than stored", i), nil)
	}

	c.Count("flood.hits", int64(hits))
	c.Count("flood.evicted", int64(n-hits))
	c.Eval(fmt.Sprint("flood", hits > 0, hits < n))

	// an entry too large for the cache is not stored, or stored completely
	for _, size := range []int{65000, 65520, 65535, 65536, 65537, 70000, 1 << 20} {
		k, v := fmt.Sprint("large", size), bytes.Repeat([]byte{byte(size)}, size)
		cache.Put(k, v)

		if got, ok := cache.Get(k); ok {
			c.Expect(bytes.Equal(got, v), "cache/large", fmt.Sprintf("%d bytes stored, %d found", size, len(got)), nil)
		}

		c.Eval(fmt.Sprint("large", size))
	}

	_ = r
}

// ---- schemas ----

type site struct {
	mu    sync.Mutex
	docs  map[string][]byte
	fault string
	only  map[string]bool // the URLs the fault affects; nil: all
	log   []string
}

func (s *site) RoundTrip(q *http.Request) (*http.Response, error) {
	s.mu.Lock()
	defer s.mu.Unlock()

	u := q.URL.String()
	s.log = append(s.log, u)
	b, ok := s.docs[u]
	resp := func(code int, b io.Reader) (*http.Response, error) {
		return &http.Response{StatusCode: code, Header: http.Header{}, Body: io.NopCloser(b), Request: q}, nil
	}

	switch {
	case ok && s.only != nil && !s.only[u]:
	case !ok:
		return resp(404, strings.NewReader("{}"))
	case s.fault == "transport":
		return nil, errors.New("connection refused")
	case s.fault == "truncated":
		return resp(200, io.MultiReader(bytes.NewReader(b[:len(b)/2]), broken{}))
	case s.fault == "broken-end": // a complete schema that still was not received properly
		return resp(200, io.MultiReader(strings.NewReader("{}"), broken{}))
	case s.fault == "short":
		return resp(200, bytes.NewReader(b[:len(b)/2]))
	case s.fault == "empty":
		return resp(200, strings.NewReader(""))
	case s.fault == "html":
		return resp(200, strings.NewReader("<html>{}</html>"))
	case s.fault == "wrong-schema":
		return resp(200, strings.NewReader(`{"type": 5}`))
	case s.fault != "":
		code, _ := strconv.Atoi(s.fault)
		return resp(code, strings.NewReader("{}")) // a schema that accepts everything
	}

	return resp(200, bytes.NewReader(b))
}

type broken struct{}

func (broken) Read([]byte) (int, error) { return 0, io.ErrUnexpectedEOF }

// userCache is a cache the application supplies.
type userCache struct {
	mu   sync.Mutex
	m    map[string][]byte
	puts []string
}

func (u *userCache) Put(k string, v []byte) {
	u.mu.Lock()
	defer u.mu.Unlock()
	u.m[k] = v
	u.puts = append(u.puts, k)
}

func (u *userCache) Get(k string) ([]byte, bool) {
	u.mu.Lock()
	defer u.mu.Unlock()
	v, ok := u.m[k]

	return v, ok
}

// wrap puts a constraint at a path.
func wrap(p vh.Path, cons M) M {
	for i := len(p) - 1; i >= 0; i-- {
		k := p[i].(string)
		cons = M{"type": "object", "required": []interface{}{k}, "properties": M{k: cons}}
	}

	return cons
}

func quoteRe(s string) string {
	out := ""

	for _, ch := range s {
		if strings.ContainsRune(`\.+*?()|[]{}^$`, ch) {
			out += `\`
		}

		out += string(ch)
	}

	return out
}

// makeSchema makes a schema the document satisfies or violates.
func makeSchema(r *rand.Rand, d M, ok bool) M {
	var paths []vh.Path

	for _, p := range vh.Leaves(d) {
		objs := true

		for _, e := range p {
			k, isStr := e.(string)
			objs = objs && isStr && k != "" && k != "@context" && k != "proof" && k != "credentialSchema"
		}

		if objs && len(p) > 0 {
			paths = append(paths, p)
		}
	}

	p := paths[r.Intn(len(paths))]
	v := vh.Get(d, p)
	kind := map[bool]string{true: "ok", false: "bad"}[ok]

	var cons M

	switch x := vh.Norm(v).(type) {
	case string:
		n := len([]rune(x))
		good := []M{{"type": "string"}, {"enum": []interface{}{"other", x}}, {"minLength": n}, {"maxLength": n}, {"pattern": "^" + quoteRe(x) + "$"}, {"not": M{"type": "number"}}}
		bad := []M{{"type": "number"}, {"enum": []interface{}{"other", x + "x"}}, {"minLength": n + 1}, {"pattern": "^" + quoteRe(x) + "x$"}, {"not": M{"type": "string"}}, {"type": "object"}}

		if n > 0 {
			bad = append(bad, M{"maxLength": n - 1})
		}

		if strings.ContainsAny(x, "\n\r") {
			good, bad = good[:4], bad[:3]
		}

		cons = map[string]M{"ok": good[r.Intn(len(good))], "bad": bad[r.Intn(len(bad))]}[kind]
	case bool:
		cons = map[string]M{"ok": vh.Pick(r, M{"type": "boolean"}, M{"enum": []interface{}{x}}), "bad": vh.Pick(r, M{"type": "string"}, M{"enum": []interface{}{!x}})}[kind]
	case nil:
		cons = map[string]M{"ok": {"type": "null"}, "bad": {"type": "string"}}[kind]
	default:
		cons = map[string]M{"ok": vh.Pick(r, M{"not": M{"type": "null"}}, M{}), "bad": {"type": "null"}}[kind]
	}

	s := wrap(p, cons)

	if r.Intn(5) == 0 { // somewhere else in the document
		if ok {
			s = M{"required": []interface{}{"issuer", "type"}, "properties": M{"nonexistent": M{"type": "string"}}}
		} else {
			s = vh.Pick(r, M{"required": []interface{}{"nonexistent"}}, M{"properties": M{"credentialSubject": M{"required": []interface{}{"nonexistent"}, "type": "object"}}},
				M{"not": M{"required": []interface{}{"issuer"}}}, M{"maxProperties": 2})
		}
	}

	if r.Intn(3) == 0 {
		s["$schema"] = "http://json-schema.org/draft-07/schema#"
	}

	if r.Intn(4) == 0 { // by reference
		s = M{"$schema": "http://json-schema.org/draft-07/schema#", "definitions": M{"x": s}, "allOf": []interface{}{M{"$ref": "#/definitions/x"}}}
	}

	return s
}

type setup struct {
	d      M
	s      *site
	urls   []string
	good   []bool
	bad    bool // a supported schema is violated
	second bool // and it is not the first
	refs   []interface{}
}

// build makes a credential document with its schema references.
func build(r *rand.Rand, oneOnly bool) *setup {
	t := &setup{s: &site{docs: map[string][]byte{}}}
	t.d = vh.Cred(r, vh.CredOpts{V: 1 + r.Intn(2), Issuer: w.Ents["issuer"].DID, LDSafe: true, OneSubject: true, NeedID: true})
	delete(t.d, "credentialSchema")

	n := vh.Pick(r, 1, 1, 1, 2, 3)
	if oneOnly {
		n = 1
	}

	firstSupported := true

	for i := 0; i < n; i++ {
		u := fmt.Sprintf("https://schema.example/%d/%s.json", i, vh.SafeStr(r))
		typ := vh.Pick(r, "JsonSchemaValidator2018", "JsonSchema")

		if n > 1 && r.Intn(4) == 0 {
			typ = vh.Pick(r, "ZkpExampleSchema2018", "JsonSchemaCredential")
		}

		supported := strings.HasPrefix(typ, "JsonSchema") && typ != "JsonSchemaCredential"
		good := r.Intn(3) != 0

		t.refs = append(t.refs, M{"id": u, "type": typ})
		t.good = append(t.good, good || !supported)
		t.urls = append(t.urls, u)

		if supported {
			if !good {
				t.second = !t.bad && !firstSupported
				t.bad = true
			}

			firstSupported = false
		}
	}

	var ref interface{} = t.refs
	if n == 1 && r.Intn(2) == 0 {
		ref = t.refs[0]
	}

	t.d["credentialSchema"] = ref

	for i, u := range t.urls {
		typ := t.refs[i].(M)["type"]
		good := t.good[i]

		if typ == "ZkpExampleSchema2018" || typ == "JsonSchemaCredential" {
			good = r.Intn(2) == 0
		}

		t.s.docs[u] = vh.J(makeSchema(r, t.d, good))
	}

	return t
}

// accept runs one of the entry points.
func accept(r *rand.Rand, d M, opts ...verifiable.CredentialOpt) (string, error) {
	entry := vh.Pick(r, "bytes", "json", "validate", "validate-jwt", "validate-cwt")

	return entry, via(entry, d, opts...)
}

func via(entry string, d M, opts ...verifiable.CredentialOpt) error {
	opts = append([]verifiable.CredentialOpt{verifiable.WithJSONLDDocumentLoader(w.Loader), verifiable.WithDisabledProofCheck(), verifiable.WithDisabledRelatedResourceCheck()}, opts...)
	iss := w.Ents["issuer"]

	var (
		vc  *verifiable.Credential
		err error
	)

	switch entry {
	case "bytes":
		_, err = verifiable.ParseCredential(vh.J(d), opts...)
		return err
	case "json":
		_, err = verifiable.ParseCredentialJSON(vh.CloneM(d), opts...)
		return err
	case "validate":
		vc = w.ParseVC(d)
	case "validate-jwt":
		vc = w.ParseVC(w.JWTCred(iss, "EdDSA", d))
	case "validate-cwt":
		vc = w.ParseVC(w.CWTCred(iss, "EdDSA", d))
	}

	return vc.ValidateCredential(opts...)
}

func loaderOf(s *site, cache verifiable.SchemaCache) verifiable.CredentialOpt {
	b := verifiable.NewCredentialSchemaLoaderBuilder().SetSchemaDownloadClient(&http.Client{Transport: s})
	if cache != nil {
		b = b.SetCache(cache)
	}

	return verifiable.WithCredentialSchemaLoader(b.Build())
}

var everlasting = sync.OnceValue(func() *verifiable.ExpirableSchemaCache { return verifiable.NewExpirableSchemaCache(64<<20, time.Hour) })

func schema(c *vh.Check, r *rand.Rand) {
	t := build(r, false)
	place := vh.Pick(r, "network", "cold", "warm", "warm", "user-cold", "user-warm", "mixed", "dead", "option", "option-loader", "off")
	reject, mustFetch := t.bad, false

	var opts []verifiable.CredentialOpt

	pool := func() verifiable.SchemaCache { // keys of other cases are in it already
		for i := range t.urls {
			old := t.urls[i]
			u := old + "?" + strconv.FormatInt(r.Int63(), 36)
			t.s.docs[u] = t.s.docs[old]
			t.urls[i] = u
			t.refs[i].(M)["id"] = u
		}

		return everlasting()
	}

	switch place {
	case "network":
		opts = append(opts, loaderOf(t.s, nil))
		mustFetch = true
	case "cold":
		opts = append(opts, loaderOf(t.s, pool()))
		mustFetch = true
	case "warm", "mixed":
		ca := pool()

		for i, u := range t.urls {
			if place == "mixed" && i%2 == 0 {
				continue
			}

			ca.Put(u, t.s.docs[u])
			t.s.docs[u] = []byte(`{"required":["never"]}`) // what the network would give now
		}

		opts = append(opts, loaderOf(t.s, ca))
	case "user-cold":
		opts = append(opts, loaderOf(t.s, &userCache{m: map[string][]byte{}}))
		mustFetch = true
	case "user-warm":
		uc := &userCache{m: map[string][]byte{}}
		for _, u := range t.urls {
			uc.m[u] = t.s.docs[u]
			delete(t.s.docs, u)
		}

		opts = append(opts, loaderOf(t.s, uc))
	case "dead": // entries are over as soon as they are stored
		dead := verifiable.NewExpirableSchemaCache(1, -time.Hour)
		for _, u := range t.urls {
			dead.Put(u, []byte("{}"))
		}

		opts = append(opts, loaderOf(t.s, dead))
		mustFetch = true
	case "option", "option-loader":
		reject = r.Intn(2) == 0
		sch := string(vh.J(makeSchema(r, t.d, !reject)))

		if place == "option" {
			opts = append(opts, verifiable.WithSchema(sch), loaderOf(t.s, nil))
		} else {
			opts = append(opts, verifiable.WithDefaultSchemaLoader(func(*verifiable.CredentialContents) string { return sch }), loaderOf(t.s, nil))
		}
	case "off":
		reject = false

		opts = append(opts, loaderOf(t.s, nil), verifiable.WithNoCustomSchemaCheck())
	}

	before := len(t.s.log)
	entry, err := accept(r, t.d, opts...)
	again := err

	if r.Intn(2) == 0 { // once more, with whatever is cached now
		again = via(entry, t.d, opts...)
	}

	detail := M{"credential": t.d, "place": place, "entry": entry, "good": t.good}
	what := fmt.Sprintf("%s, schemas %s, satisfied %v: %v", entry, place, t.good, err)

	if reject {
		c.Expect(err != nil, "schema/violated-accepted/"+place, what, detail)
		c.Expect(again != nil, "schema/violated-accepted-again/"+place, what, detail)
		c.Count("schema.violated", 1)

		if t.second && !strings.HasPrefix(place, "option") {
			c.Count("second.violated", 1)
		}
	} else {
		c.Expect(err == nil, "schema/satisfied-rejected/"+place, what, detail)
		c.Expect(again == nil, "schema/satisfied-rejected-again/"+place, what, detail)
		c.Count("schema.accepted", 1)
	}

	if mustFetch && anySupported(t) {
		c.Expect(len(t.s.log) > before, "schema/not-fetched/"+place, what, detail)
		c.Count("from.network", 1)
	}

	if place == "warm" || place == "user-warm" {
		c.Expect(len(t.s.log) == before, "schema/fetched-though-cached/"+place, fmt.Sprint(t.s.log), detail)
		c.Count("from.warm", 1)
	}

	if place == "off" {
		c.Expect(len(t.s.log) == before, "schema/fetched-though-off", fmt.Sprint(t.s.log), detail)
	}

	for _, l := range t.s.log {
		ok := false
		for _, u := range t.urls {
			ok = ok || u == l
		}

		c.Expect(ok, "schema/unreferenced-fetch", l, detail)
	}

	c.Eval(fmt.Sprint("schema", entry, place, t.good, reject))
}

func anySupported(t *setup) bool {
	for _, x := range t.refs {
		if ty := x.(M)["type"]; ty == "JsonSchema" || ty == "JsonSchemaValidator2018" {
			return true
		}
	}

	return false
}

// fault: a failing download is an error, leaves nothing in the cache, and a later download works.
func fault(c *vh.Check, r *rand.Rand) {
	t := build(r, true)
	t.s.fault = vh.Pick(r, "transport", "truncated", "broken-end", "short", "empty", "html", "wrong-schema", "404", "500", "403", "201", "202", "206", "204", "503", "400")

	var ca verifiable.SchemaCache

	kind := vh.Pick(r, "none", "expirable", "user")
	switch kind {
	case "expirable":
		ca = everlasting()
		old := t.urls[0]
		u := old + "?" + strconv.FormatInt(r.Int63(), 36)
		t.s.docs[u] = t.s.docs[old]
		t.refs[0].(M)["id"] = u
		t.urls[0] = u
	case "user":
		ca = &userCache{m: map[string][]byte{}}
	}

	o := loaderOf(t.s, ca)
	entry, err := accept(r, t.d, o)
	f := t.s.fault
	c.Expect(err != nil, "fault/"+f, fmt.Sprintf("%s: credential accepted although its schema could not be loaded (%s)", entry, f), M{"credential": t.d})
	c.Count("fault.rejected", 1)

	// received completely with status 200: the application's cache may keep it
	kept := kind != "none" && (f == "short" || f == "empty" || f == "html" || f == "wrong-schema")

	t.s.fault = ""

	if !kept {
		err = via(entry, t.d, o)
		c.Expect((err != nil) == t.bad, "fault/recovered/"+f, fmt.Sprintf("%s: after the fault, schema satisfied %v: %v", entry, !t.bad, err), M{"credential": t.d})
		c.Count("fault.recovered", 1)
	}

	c.Eval(fmt.Sprint("fault", entry, f, kind, t.bad))
}

// nearURL gives another URL that is easily taken for the given one.
func nearURL(r *rand.Rand, u string) (string, string) {
	host, rest, _ := strings.Cut(strings.TrimPrefix(u, "https://"), "/")

	p := vh.Pick(r, [][2]string{
		{"slash", u + "/"}, {"slashes", u + "//"}, {"query-1", u + "?v=1"}, {"query-2", u + "?v=2&w"}, {"case-path", "https://" + host + "/" + strings.ToUpper(rest)},
		{"scheme", "http://" + host + "/" + rest}, {"port", "https://" + host + ":8443/" + rest}, {"no-suffix", strings.TrimSuffix(u, ".json")}, {"longer", u + "2"},
		{"double-slash", "https://" + host + "//" + rest}, {"host", "https://www." + host + "/" + rest}, {"other-host", "https://schema2.example/" + rest},
		{"base", "https://" + host + "/other/" + rest}, {"userinfo", "https://u@" + host + "/" + rest}, {"spelling", "https://" + host + "/%2E/" + rest},
	}...)

	return p[0], p[1]
}

// near: a schema is known by its whole URL, whatever others are in the cache.
func near(c *vh.Check, r *rand.Rand) {
	a := build(r, true)
	typ := vh.Pick(r, "JsonSchema", "JsonSchemaValidator2018")
	u1 := fmt.Sprintf("https://schema.example/n/%x.json", r.Int63())
	kind, u2 := nearURL(r, u1)
	s := &site{docs: map[string][]byte{}}

	var (
		ca    verifiable.SchemaCache
		place = vh.Pick(r, "expirable", "expirable", "everlasting", "user", "none")
	)

	switch place {
	case "expirable":
		ca = verifiable.NewExpirableSchemaCache(1<<20, time.Hour)
	case "everlasting":
		ca = everlasting()
	case "user":
		ca = &userCache{m: map[string][]byte{}}
	}

	good1 := r.Intn(2) == 0 // one of the two is satisfied
	s.docs[u1], s.docs[u2] = vh.J(makeSchema(r, a.d, good1)), vh.J(makeSchema(r, a.d, !good1))
	o := loaderOf(s, ca)

	for i, first := 0, r.Intn(2); i < 4; i++ {
		u, good := u1, good1
		if (i+first)%2 == 1 {
			u, good = u2, !good1
		}

		d := vh.CloneM(a.d)
		d["credentialSchema"] = M{"id": u, "type": typ}

		entry, err := accept(r, d, o)
		c.Expect((err == nil) == good, "near/"+kind, fmt.Sprintf("%s, cache %s, step %d: schema %s is satisfied: %v, but the credential: %v (the other one is %s)", entry, place, i, u, good, err, map[bool]string{true: u2, false: u1}[u == u1]), M{"credential": d, "fetched": s.log})
		c.Count("near", 1)
		c.Eval(fmt.Sprint("near", kind, place, entry, good))
	}

	if place == "expirable" { // the same at the cache itself
		x := verifiable.NewExpirableSchemaCache(1<<20, time.Hour)
		x.Put(u1, []byte("1"))

		_, ok := x.Get(u2)
		c.Expect(!ok, "near/cache-never-stored", fmt.Sprintf("%s is found where only %s was stored", u2, u1), nil)
		x.Put(u2, []byte("2"))

		g1, ok1 := x.Get(u1)
		g2, ok2 := x.Get(u2)
		c.Expect(ok1 && ok2 && string(g1) == "1" && string(g2) == "2", "near/cache-value", fmt.Sprintf("%s: %q %v, %s: %q %v", u1, g1, ok1, u2, g2, ok2), nil)
	}
}

// partial: when one of several schemas can not be loaded, the credential is not accepted.
func partial(c *vh.Check, r *rand.Rand) {
	t := build(r, true)
	n := 2 + r.Intn(4)
	failing := r.Intn(n)
	f := vh.Pick(r, "transport", "truncated", "broken-end", "404", "500", "201", "wrong-schema", "short", "html")
	s := &site{docs: map[string][]byte{}, fault: f, only: map[string]bool{}}

	var refs []interface{}

	for i := 0; i < n; i++ {
		u := fmt.Sprintf("https://schema.example/p/%x/%d.json", r.Int63(), i)
		s.docs[u] = vh.J(makeSchema(r, t.d, true))
		s.only[u] = i == failing
		refs = append(refs, M{"id": u, "type": vh.Pick(r, "JsonSchema", "JsonSchemaValidator2018")})
	}

	t.d["credentialSchema"] = refs

	var ca verifiable.SchemaCache

	kind := vh.Pick(r, "none", "expirable", "user")

	switch kind {
	case "expirable":
		ca = everlasting()
	case "user":
		ca = &userCache{m: map[string][]byte{}}
	}

	o := loaderOf(s, ca)
	kept := kind != "none" && (f == "short" || f == "html" || f == "wrong-schema")

	entry, err := accept(r, t.d, o)
	c.Expect(err != nil, "partial/"+f, fmt.Sprintf("%s: accepted though schema %d of %d could not be loaded (%s)", entry, failing, n, f), M{"credential": t.d})
	c.Count("partial.rejected", 1)

	if err = via(entry, t.d, o); err == nil {
		c.Violate("partial-again/"+f, fmt.Sprintf("%s: accepted the second time though schema %d of %d could not be loaded (%s)", entry, failing, n, f), M{"credential": t.d})
	}

	s.fault = ""

	if !kept {
		err = via(entry, t.d, o)
		c.Expect(err == nil, "partial/recovered/"+f, fmt.Sprintf("%s: all schemas can be loaded and are satisfied: %v", entry, err), M{"credential": t.d})
	}

	c.Eval(fmt.Sprint("partial", entry, f, kind, n, failing))
}

// refresh: when the cached schema's lifetime is over, the current one applies.
func refresh(c *vh.Check, r *rand.Rand) {
	ca := verifiable.NewExpirableSchemaCache(1, time.Second)

	var ts []*setup

	for i := 0; i < 12; i++ {
		t := build(r, true)
		t.s.docs[t.urls[0]] = vh.J(makeSchema(r, t.d, i%2 == 0))

		u := fmt.Sprintf("%s?%d", t.urls[0], i)
		t.s.docs[u] = t.s.docs[t.urls[0]]
		t.urls[0] = u
		t.refs[0].(M)["id"] = u
		err := via("bytes", t.d, loaderOf(t.s, ca))
		c.Expect((err == nil) == (i%2 == 0), "refresh/first", fmt.Sprintf("schema satisfied %v: %v", i%2 == 0, err), t.d)

		// the publisher replaces the schema by one of the other verdict
		t.s.docs[u] = vh.J(makeSchema(r, t.d, i%2 != 0))
		ts = append(ts, t)
	}

	time.Sleep(2100 * time.Millisecond)

	for i, t := range ts {
		err := via("bytes", t.d, loaderOf(t.s, ca))
		c.Expect((err == nil) == (i%2 != 0), "refresh/expired", fmt.Sprintf("the replaced schema still applies after its lifetime in the cache: satisfied %v: %v", i%2 != 0, err), t.d)
		c.Count("refreshed", 1)
		c.Eval(fmt.Sprint("refresh", i%2))
	}
}
