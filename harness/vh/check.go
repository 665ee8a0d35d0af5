// Package vh is the shared runtime-monitoring harness: it runs deterministic case lists against the real
// code of /repo, records every observation, and turns oracle disagreements into verdicts.
package vh

import (
	"bufio"
	"bytes"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Violation is one oracle disagreement, with what is needed to replay it.
type Violation struct {
	Key    string      `json:"key"`  // identifies the failing input class / call site
	What   string      `json:"what"` // what was observed against what was expected
	Case   string      `json:"case"` // PRNG identity of the case: family/index
	Detail interface{} `json:"detail,omitempty"`
}

// Result is what one worker observed.
type Result struct {
	Evals    int64             `json:"evals"`
	Distinct map[string]int    `json:"distinct"`
	Counters map[string]int64  `json:"counters"`
	Samples  []string          `json:"samples"`
	Viol     []Violation       `json:"viol"`
	Extra    map[string]string `json:"extra"`
}

// Check is the running state of one property check in one worker.
type Check struct {
	ID       string
	Thorough bool
	Seed     int64
	Shard    int
	Shards   int

	mu       sync.Mutex
	res      Result
	curCase  atomic.Value
	curStart atomic.Int64
	only     string
	perKey   map[string]int
	fullOut  bool
}

// Spec describes a check for its driver.
type Spec struct {
	ID    string
	Rule  string // how cases are made and what makes one non-trivial
	Level string
	// Require lists counters that have to reach a minimum for the run to count as an observation.
	Require map[string]int64
	// Assumptions recorded in the evidence.
	Assumptions []string
	Run         func(c *Check)
	// MaxShards limits the worker processes (0: 8).
	MaxShards int
	// Race: the binary is built with -race and worker logs are scanned for reports.
	Race bool
}

func envInt(name string, def int64) int64 {
	if v, err := strconv.ParseInt(os.Getenv(name), 10, 64); err == nil {
		return v
	}

	return def
}

// Main runs the spec: as driver it forks shard workers and merges, as worker it runs the cases.
func Main(s Spec) {
	if os.Getenv("VH_WORKER") != "" {
		worker(s)
		return
	}

	drive(s)
}

func newCheck(s Spec) *Check {
	c := &Check{
		ID: s.ID, Thorough: os.Getenv("VERIF_TIER") == "thorough", Seed: envInt("VERIF_SEED", 1),
		Shard: int(envInt("VH_SHARD", 0)), Shards: int(envInt("VH_SHARDS", 1)),
		only: os.Getenv("VH_ONLY"), perKey: map[string]int{},
	}
	c.res.Distinct = map[string]int{}
	c.res.Counters = map[string]int64{}
	c.res.Extra = map[string]string{}
	c.curCase.Store("")

	return c
}

const hangLimit = 240 * time.Second

func worker(s Spec) {
	debug.SetMemoryLimit(3 << 30)

	c := newCheck(s)
	out := os.Getenv("VH_OUT")

	go func() { // generous watchdog: one case that does not come back
		for {
			time.Sleep(2 * time.Second)

			st := c.curStart.Load()
			if st != 0 && time.Since(time.Unix(0, st)) > hangLimit {
				fmt.Fprintf(os.Stderr, "VH-HANG case=%s\n", c.curCase.Load())
				buf := make([]byte, 1<<16)
				n := runtime.Stack(buf, true)
				os.Stderr.Write(buf[:n])
				os.Exit(97)
			}
		}
	}()

	func() {
		defer func() {
			if r := recover(); r != nil {
				c.Violate("panic-outside-guard:"+PanicSite(), fmt.Sprintf("panic: %v", r), string(debug.Stack()))
			}
		}()
		s.Run(c)
	}()

	b, err := json.Marshal(&c.res)
	if err != nil {
		fmt.Fprintln(os.Stderr, "marshal result:", err)
		os.Exit(98)
	}

	if err := os.WriteFile(out, b, 0o600); err != nil {
		fmt.Fprintln(os.Stderr, "write result:", err)
		os.Exit(98)
	}
}

// Rng gives the PRNG of one named case.
func (c *Check) Rng(name string, i int) *rand.Rand {
	h := fnv.New64a()
	fmt.Fprintf(h, "%s/%s/%d/%d", c.ID, name, i, c.Seed)

	return rand.New(rand.NewSource(int64(h.Sum64()))) //nolint:gosec
}

// N scales a case count by tier.
func (c *Check) N(quick, thorough int) int {
	if c.Thorough {
		return thorough
	}

	return quick
}

// Cases runs n cases of a family, those of this shard. Panics escaping a case are violations.
func (c *Check) Cases(family string, n int, f func(r *rand.Rand, i int)) {
	for i := 0; i < n; i++ {
		if i%c.Shards != c.Shard {
			continue
		}

		c.One(family, i, f)
	}
}

// One runs a single case.
func (c *Check) One(family string, i int, f func(r *rand.Rand, i int)) {
	name := fmt.Sprintf("%s/%d", family, i)
	if c.only != "" && c.only != name && c.only != family {
		return
	}

	c.curCase.Store(name)
	c.curStart.Store(time.Now().UnixNano())

	defer c.curStart.Store(0)

	defer func() {
		if r := recover(); r != nil {
			c.Violate("panic:"+family+":"+PanicSite(), fmt.Sprintf("panic: %v", r), string(debug.Stack()))
		}
	}()

	if c.only == "" && os.Getenv("VH_TRACE") != "" {
		fmt.Fprintln(os.Stderr, name)
	}

	f(c.Rng(family, i), i)
	c.Count("cases:"+family, 1)
}

// Mine says whether item i belongs to this shard.
func (c *Check) Mine(i int) bool { return i%c.Shards == c.Shard }

// PanicSite finds the topmost vc-go frame of the current panic stack.
func PanicSite() string {
	st := string(debug.Stack())
	if k := strings.Index(st, "panic("); k >= 0 {
		st = st[k:]
	}

	m := regexp.MustCompile(`github\.com/trustbloc/vc-go/([\w/\-]+\.[\w\.\(\)\*]+)\(`).FindAllStringSubmatch(st, -1)
	for _, x := range m {
		if !strings.HasPrefix(x[1], "verifharness") {
			return x[1]
		}
	}

	return "unknown"
}

// Guard runs f, reporting whether it panicked and where.
func Guard(f func()) (panicked bool, site string, val interface{}) {
	defer func() {
		if r := recover(); r != nil {
			panicked, site, val = true, PanicSite(), r
			LastStack = string(debug.Stack())
		}
	}()

	f()

	return
}

// LastStack is the stack of the latest panic Guard recovered from.
var LastStack string

// Eval records one oracle evaluation; key identifies the distinct non-trivial observation (empty: trivial).
func (c *Check) Eval(key string) {
	c.mu.Lock()
	defer c.mu.Unlock()

	c.res.Evals++

	if key != "" {
		if len(key) > 40 {
			h := sha256.Sum256([]byte(key))
			key = hex.EncodeToString(h[:10])
		}

		c.res.Distinct[key]++
	}
}

// Count adds to a named counter.
func (c *Check) Count(name string, d int64) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.res.Counters[name] += d
}

// Sample stores an actual case for the evidence.
func (c *Check) Sample(s string) {
	c.mu.Lock()
	defer c.mu.Unlock()

	if len(c.res.Samples) < 3 {
		if len(s) > 700 {
			s = s[:700] + "...(cut)"
		}

		c.res.Samples = append(c.res.Samples, s)
	}
}

// Violate records a violation of the property.
func (c *Check) Violate(key, what string, detail interface{}) {
	c.mu.Lock()
	defer c.mu.Unlock()

	c.perKey[key]++
	c.res.Counters["violating-observations"]++

	if c.perKey[key] > 2 || len(c.res.Viol) > 200 {
		return
	}

	c.res.Viol = append(c.res.Viol, Violation{Key: key, What: cut(what, 2000), Case: fmt.Sprint(c.curCase.Load()),
		Detail: cutDetail(detail)})
}

// Expect is the usual oracle: cond must hold.
func (c *Check) Expect(cond bool, key, what string, detail interface{}) bool {
	if !cond {
		c.Violate(key, what, detail)
	}

	return cond
}

func cut(s string, n int) string {
	if len(s) > n {
		return s[:n] + "...(cut)"
	}

	return s
}

func cutDetail(d interface{}) interface{} {
	switch v := d.(type) {
	case nil:
		return nil
	case string:
		return cut(v, 12000)
	case []byte:
		return cut(string(v), 12000)
	default:
		b, err := json.Marshal(v)
		if err != nil {
			return cut(fmt.Sprintf("%+v", v), 12000)
		}

		return cut(string(b), 12000)
	}
}

type known struct {
	Property string `json:"property"`
	Key      string `json:"key"`
	Status   string `json:"status"`
	What     string `json:"what"`
}

func loadKnown(id string) []known {
	f, err := os.Open("/verif/known_findings.jsonl")
	if err != nil {
		return nil
	}
	defer f.Close()

	var out []known

	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<20)

	for sc.Scan() {
		line := strings.TrimSpace(sc.Text())
		if !strings.HasPrefix(line, "{") {
			continue
		}

		var k known
		if json.Unmarshal([]byte(line), &k) == nil && k.Property == id && k.Status == "known" {
			out = append(out, k)
		}
	}

	return out
}

func drive(s Spec) {
	start := time.Now()
	tier := "quick"

	if os.Getenv("VERIF_TIER") == "thorough" {
		tier = "thorough"
	}

	shards := runtime.NumCPU()
	if shards > 8 {
		shards = 8
	}

	if s.MaxShards > 0 && shards > s.MaxShards {
		shards = s.MaxShards
	}

	if os.Getenv("VH_ONLY") != "" {
		shards = 1
	}

	dir, err := os.MkdirTemp("", "vh-"+s.ID+"-")
	if err != nil {
		fmt.Println("mkdtemp:", err)
		os.Exit(2)
	}
	defer os.RemoveAll(dir)

	self, _ := os.Executable()

	type wr struct {
		res    *Result
		err    error
		stderr string
	}

	results := make([]wr, shards)

	var wg sync.WaitGroup

	for i := 0; i < shards; i++ {
		wg.Add(1)

		go func(i int) {
			defer wg.Done()

			out := filepath.Join(dir, fmt.Sprintf("w%d.json", i))
			cmd := exec.Command(self)
			cmd.Env = append(os.Environ(), "VH_WORKER=1", fmt.Sprintf("VH_SHARD=%d", i),
				fmt.Sprintf("VH_SHARDS=%d", shards), "VH_OUT="+out,
				"GORACE=halt_on_error=0 exitcode=0 history_size=5 log_path="+filepath.Join(dir, "race"))

			var eb bytes.Buffer
			cmd.Stderr = &eb

			if os.Getenv("VH_ONLY") != "" || os.Getenv("VH_STDERR") != "" {
				cmd.Stderr = os.Stderr
				cmd.Stdout = os.Stdout
			}

			e := cmd.Run()
			st := eb.String()

			if len(st) > 40000 {
				st = st[:20000] + "\n...\n" + st[len(st)-20000:]
			}

			results[i] = wr{err: e, stderr: st}

			if b, re := os.ReadFile(out); re == nil {
				var r Result
				if json.Unmarshal(b, &r) == nil {
					results[i].res = &r
				}
			}
		}(i)
	}

	wg.Wait()

	total := Result{Distinct: map[string]int{}, Counters: map[string]int64{}, Extra: map[string]string{}}
	inconclusive := ""

	for i, w := range results {
		if w.res == nil {
			if w.err != nil && (strings.Contains(w.stderr, "fatal error:") || strings.Contains(w.stderr, "panic:") ||
				strings.Contains(w.stderr, "VH-HANG") || strings.Contains(w.stderr, "runtime:")) &&
				!strings.Contains(w.stderr, "vh-fixture") {
				total.Viol = append(total.Viol, Violation{Key: "worker-crash:" + crashSite(w.stderr),
					What: fmt.Sprintf("worker %d died: %v", i, w.err), Case: fmt.Sprintf("shard %d", i),
					Detail: cut(w.stderr, 16000)})
			} else {
				inconclusive = fmt.Sprintf("worker %d gave no result: %v\n%s", i, w.err, cut(w.stderr, 3000))
			}

			continue
		}

		total.Evals += w.res.Evals

		for k, v := range w.res.Distinct {
			total.Distinct[k] += v
		}

		for k, v := range w.res.Counters {
			total.Counters[k] += v
		}

		for k, v := range w.res.Extra {
			total.Extra[k] = v
		}

		total.Viol = append(total.Viol, w.res.Viol...)

		if len(total.Samples) < 8 {
			total.Samples = append(total.Samples, w.res.Samples...)
		}
	}

	if s.Race {
		for _, v := range raceReports(dir) {
			total.Viol = append(total.Viol, v)
		}
	}

	// split known findings and new violations
	kn := loadKnown(s.ID)
	seenKnown := map[string]int{}

	byKey := map[string]Violation{}

	var keys []string

	for _, v := range total.Viol {
		isKnown := false

		for _, k := range kn {
			if k.Key == v.Key {
				seenKnown[k.Key]++
				isKnown = true
			}
		}

		if isKnown {
			continue
		}

		if _, ok := byKey[v.Key]; !ok {
			byKey[v.Key] = v
			keys = append(keys, v.Key)
		}
	}

	sort.Strings(keys)

	for _, k := range kn {
		if seenKnown[k.Key] > 0 {
			fmt.Printf("KNOWN-FINDING: property=%s %s [%s]\n", s.ID, k.What, k.Key)
		}
	}

	_ = os.MkdirAll(evDir+"/replay", 0o755)

	if old, _ := filepath.Glob(evDir + "/replay/" + s.ID + "-*.json"); old != nil {
		for _, o := range old {
			_ = os.Remove(o)
		}
	}

	for i, k := range keys {
		if i >= 25 {
			break
		}

		v := byKey[k]
		path := fmt.Sprintf("%s/replay/%s-%02d.json", evDir, s.ID, i)
		b, _ := json.MarshalIndent(map[string]interface{}{
			"property": s.ID, "violation": v, "seed": envInt("VERIF_SEED", 1), "tier": tier,
			"replay": fmt.Sprintf("VERIF_SEED=%d VH_ONLY='%s' bash /verif/check.sh %s %s", envInt("VERIF_SEED", 1),
				v.Case, s.ID, tier),
		}, "", " ")
		_ = os.WriteFile(path, b, 0o644)

		fmt.Printf("VIOLATION property=%s replay=%s key=%s :: %s\n", s.ID, path, v.Key, cut(strings.ReplaceAll(v.What, "\n", " "), 300))
	}

	for name, min := range s.Require {
		if total.Counters[name] < min && inconclusive == "" && os.Getenv("VH_ONLY") == "" {
			inconclusive = fmt.Sprintf("counter %s=%d below the required %d observations", name, total.Counters[name], min)
		}
	}

	level := s.Level
	if level == "" {
		level = "exploration"
	}

	cov := map[string]interface{}{
		"evaluations": total.Evals, "distinct_nontrivial": len(total.Distinct), "rule": s.Rule,
		"samples": total.Samples, "observed": total.Counters, "worker_processes": shards,
		"known_findings_seen": seenKnown,
	}
	for k, v := range total.Extra {
		cov[k] = v
	}

	ev := map[string]interface{}{
		"property": s.ID, "tier": tier, "seed": envInt("VERIF_SEED", 1), "level": level, "coverage": cov,
		"wall_s": time.Since(start).Seconds(), "violations": len(keys),
	}
	if len(s.Assumptions) > 0 {
		ev["assumptions"] = s.Assumptions
	}

	b, _ := json.MarshalIndent(ev, "", " ")
	_ = os.MkdirAll(evDir, 0o755)

	if os.Getenv("VH_ONLY") == "" {
		if err := os.WriteFile(evDir+"/"+s.ID+".json", b, 0o644); err != nil {
			fmt.Println("evidence:", err)
			os.Exit(2)
		}
	}

	fmt.Printf("%s %s: evaluations=%d distinct=%d violations=%d known=%d wall=%.1fs\n", s.ID, tier, total.Evals,
		len(total.Distinct), len(keys), len(seenKnown), time.Since(start).Seconds())

	os.RemoveAll(dir)

	if len(keys) > 0 {
		os.Exit(1)
	}

	if inconclusive != "" {
		fmt.Println("INCONCLUSIVE:", inconclusive)
		os.Exit(2)
	}

	os.Exit(0)
}

func crashSite(st string) string {
	m := regexp.MustCompile(`github\.com/trustbloc/vc-go/([\w/\-]+\.[\w\.\(\)\*]+)\(`).FindAllStringSubmatch(st, -1)
	for _, x := range m {
		if !strings.HasPrefix(x[1], "verifharness") {
			return x[1]
		}
	}

	return "unknown"
}

var frameRe = regexp.MustCompile(`(?m)^  ([\w\./\-\(\)\*]+)\(\)\n`)

func raceReports(dir string) []Violation {
	files, _ := filepath.Glob(filepath.Join(dir, "race.*"))
	seen := map[string]bool{}

	var out []Violation

	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			continue
		}

		for _, blk := range strings.Split(string(b), "WARNING: DATA RACE")[1:] {
			if k := strings.Index(blk, "=================="); k >= 0 {
				blk = blk[:k]
			}

			var site []string

			inLib := 0

			for _, sec := range strings.Split(blk, "\n\n") {
				t := strings.TrimLeft(sec, "\n ")
				if !(strings.HasPrefix(t, "Read at") || strings.HasPrefix(t, "Write at") ||
					strings.HasPrefix(t, "Previous")) {
					continue
				}

				if m := frameRe.FindStringSubmatch(sec); m != nil && strings.HasPrefix(m[1], "github.com/kilic/bls12-381.") {
					inLib++
				}

				for _, m := range frameRe.FindAllStringSubmatch(sec, -1) {
					if strings.Contains(m[1], "trustbloc/vc-go/") && !strings.Contains(m[1], "verifharness") {
						site = append(site, strings.TrimPrefix(m[1], "github.com/trustbloc/vc-go/"))
						break
					}
				}
			}

			sort.Strings(site)

			if len(site) == 0 {
				site = []string{"outside-vc-go"}
			}

			// The pairing library writes its shared group generator in every pairing, whoever calls it.
			if inLib == 2 && strings.Contains(blk, "kilic/bls12-381.(*Engine).AddPair()") {
				site = []string{"lib:kilic/bls12-381.(*Engine).AddPair"}
			}

			key := "race:" + strings.Join(site, "|")
			if seen[key] {
				continue
			}

			seen[key] = true

			out = append(out, Violation{Key: key, What: "data race reported by the race detector", Case: "race-log",
				Detail: cut(blk, 8000)})
		}
	}

	return out
}

// evDir is where evidence and replays go (elsewhere only when trying planted changes in a scratch copy).
var evDir = func() string {
	if d := os.Getenv("VH_EVDIR"); d != "" {
		return d
	}

	return "/verif/evidence"
}()
