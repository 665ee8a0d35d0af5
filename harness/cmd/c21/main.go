// C21: the in-memory store behaves as an atomic tagged key-value store.
package main

import (
	"bytes"
	"errors"
	"fmt"
	"hash/fnv"
	"math/rand"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/anishathalye/porcupine"
	spi "github.com/trustbloc/kms-go/spi/storage"

	"github.com/trustbloc/vc-go/legacy/mem"
	"github.com/trustbloc/vc-go/verifharness/vh"
)

func main() {
	vh.Main(vh.Spec{
		ID: "C21",
		Rule: "concurrent histories (3 to 7 goroutines, put/get/tags/bulk/delete/batch/query with conjunctions on 2 to 4 keys, unique values, random yields, callers " +
			"overwriting their buffers and the results they got) are recorded and checked for linearizability by porcupine against a map model, under the race " +
			"detector; sequential histories over several stores, configurations, closes and reopenings are compared step by step with a model. " +
			"Distinct: (operation, result shape, concurrency) and the order of completions.",
		Level: "exploration",
		Require: map[string]int64{"conc.histories": 300, "conc.ops": 10000, "conc.overlaps": 3000, "conc.linearizable": 250, "conc.query-nonempty": 300, "seq.ops": 20000,
			"seq.query-nonempty": 600, "seq.reopened": 300, "open.same": 200},
		Assumptions: []string{"|| and the query options are not supported by this store (it says so)",
			"empty slices and nil are the same for tags"},
		Run:  run,
		Race: true,
	})
}

// ---- model ----

type tag struct{ n, v string }

type rec struct {
	v    string
	tags []tag
}

func (r rec) String() string { return fmt.Sprintf("%q%v", r.v, r.tags) }

type op struct {
	kind string // put get tags bulk delete batch query
	keys []string
	recs []rec // put: one; batch: one per key
	del  []bool
	expr string
	bad  bool // has to be rejected without effect
}

func (o op) String() string {
	switch o.kind {
	case "put":
		return fmt.Sprintf("put %s=%v", o.keys[0], o.recs[0])
	case "batch":
		s := "batch"
		for i, k := range o.keys {
			if o.del[i] {
				s += fmt.Sprintf(" -%s", k)
			} else {
				s += fmt.Sprintf(" %s=%v", k, o.recs[i])
			}
		}

		return s
	case "query":
		return "query " + o.expr
	default:
		return o.kind + " " + strings.Join(o.keys, ",")
	}
}

type state map[string]rec

func (s state) clone() state {
	out := state{}
	for k, v := range s {
		out[k] = v
	}

	return out
}

func (s state) String() string {
	var out []string
	for _, k := range vh.SortedKeys(s) {
		out = append(out, k+"="+s[k].String())
	}

	return strings.Join(out, ";")
}

func matches(r rec, expr string) bool {
	for _, crit := range strings.Split(expr, "&&") {
		n, v, _ := strings.Cut(crit, ":")
		hit := false

		for _, t := range r.tags {
			if t.n == n && (v == "" || t.v == v) {
				hit = true
			}
		}

		if !hit {
			return false
		}
	}

	return true
}

// step gives the result and next state the model allows for an operation.
func step(s state, o op) (string, state) {
	if o.bad {
		return "error", s
	}

	switch o.kind {
	case "put":
		n := s.clone()
		n[o.keys[0]] = o.recs[0]

		return "ok", n
	case "get":
		r, ok := s[o.keys[0]]
		if !ok {
			return "not-found", s
		}

		return fmt.Sprintf("%q", r.v), s
	case "tags":
		r, ok := s[o.keys[0]]
		if !ok {
			return "not-found", s
		}

		return fmt.Sprint(r.tags), s
	case "bulk":
		var out []string

		for _, k := range o.keys {
			r, ok := s[k]
			if ok {
				out = append(out, fmt.Sprintf("%q", r.v))
			} else {
				out = append(out, "nil")
			}
		}

		return strings.Join(out, ","), s
	case "delete":
		n := s.clone()
		delete(n, o.keys[0])

		return "ok", n
	case "batch":
		n := s.clone()

		for i, k := range o.keys {
			if o.del[i] {
				delete(n, k)
			} else {
				n[k] = o.recs[i]
			}
		}

		return "ok", n
	case "query":
		var out []string

		for k, r := range s {
			if matches(r, o.expr) {
				out = append(out, k+"="+r.String())
			}
		}

		sort.Strings(out)

		return strings.Join(out, ";"), s
	}

	panic("vh-fixture op " + o.kind)
}

// named is a state with its text.
type named struct {
	state
	name string
}

var model = porcupine.Model{
	Init: func() interface{} { return named{state{}, ""} },
	Step: func(st, in, out interface{}) (bool, interface{}) {
		o, s := in.(op), st.(named)
		want, n := step(s.state, o)

		if want != out.(string) {
			return false, s
		}

		if o.bad || o.kind != "put" && o.kind != "batch" && o.kind != "delete" {
			return true, s
		}

		return true, named{n, n.String()}
	},
	Equal: func(a, b interface{}) bool { return a.(named).name == b.(named).name },
	Hash: func(a interface{}) uint64 {
		h := fnv.New64a()
		_, _ = h.Write([]byte(a.(named).name))

		return h.Sum64()
	},
}

// ---- the real store ----

func tagsOf(ts []spi.Tag) []tag {
	var out []tag
	for _, t := range ts {
		out = append(out, tag{t.Name, t.Value})
	}

	return out
}

func spiTags(ts []tag) []spi.Tag {
	var out []spi.Tag
	for _, t := range ts {
		out = append(out, spi.Tag{Name: t.n, Value: t.v})
	}

	return out
}

func scribble(b []byte) {
	for i := range b {
		b[i] = '#'
	}
}

func scribbleTags(ts []spi.Tag) {
	for i := range ts {
		ts[i] = spi.Tag{Name: "#", Value: "#"}
	}
}

func failed(err error) string {
	if errors.Is(err, spi.ErrDataNotFound) {
		return "not-found"
	}

	return "error"
}

// do runs the operation; the callback runs between a query and the reading of its iterator.
func do(s spi.Store, o op, between func()) string {
	switch o.kind {
	case "put":
		v, ts := []byte(o.recs[0].v), spiTags(o.recs[0].tags)
		if o.recs[0].v == "<nil>" {
			v = nil
		}

		err := s.Put(o.keys[0], v, ts...)
		scribble(v)
		scribbleTags(ts)

		if err != nil {
			return failed(err)
		}

		return "ok"
	case "get":
		v, err := s.Get(o.keys[0])
		if err != nil {
			return failed(err)
		}

		out := fmt.Sprintf("%q", v)
		scribble(v)

		return out
	case "tags":
		ts, err := s.GetTags(o.keys[0])
		if err != nil {
			return failed(err)
		}

		out := fmt.Sprint(tagsOf(ts))
		scribbleTags(ts)

		return out
	case "bulk":
		vs, err := s.GetBulk(o.keys...)
		if err != nil {
			return failed(err)
		}

		var out []string

		for _, v := range vs {
			if v == nil {
				out = append(out, "nil")
			} else {
				out = append(out, fmt.Sprintf("%q", v))
			}

			scribble(v)
		}

		return strings.Join(out, ",")
	case "delete":
		if err := s.Delete(o.keys[0]); err != nil {
			return failed(err)
		}

		return "ok"
	case "batch":
		var ops []spi.Operation

		for i, k := range o.keys {
			p := spi.Operation{Key: k}
			if !o.del[i] {
				p.Value, p.Tags = []byte(o.recs[i].v), spiTags(o.recs[i].tags)
			}

			ops = append(ops, p)
		}

		err := s.Batch(ops)

		for i := range ops {
			scribble(ops[i].Value)
			scribbleTags(ops[i].Tags)
			ops[i].Key = "#"
		}

		if err != nil {
			return failed(err)
		}

		return "ok"
	case "query":
		it, err := s.Query(o.expr)
		if err != nil {
			return failed(err)
		}

		if between != nil {
			between()
		}

		total, err := it.TotalItems()
		if err != nil {
			return "error total"
		}

		var out []string

		for {
			more, err := it.Next()
			if err != nil {
				return "error next"
			}

			if !more {
				break
			}

			k, e1 := it.Key()
			v, e2 := it.Value()
			ts, e3 := it.Tags()

			if e1 != nil || e2 != nil || e3 != nil {
				return "error iterator"
			}

			out = append(out, k+"="+rec{string(v), tagsOf(ts)}.String())

			scribble(v)
			scribbleTags(ts)
		}

		if total != len(out) {
			return fmt.Sprintf("error: TotalItems %d but %d entries", total, len(out))
		}

		if more, err := it.Next(); more || err != nil {
			return "error: entry behind the end"
		}

		if _, err := it.Key(); err == nil {
			return "error: key behind the end"
		}

		if err := it.Close(); err != nil {
			return "error close"
		}

		sort.Strings(out)

		return strings.Join(out, ";")
	}

	panic("vh-fixture op " + o.kind)
}

// ---- workload ----

var uniq atomic.Int64

// values of tags: prefixes of each other, differing in case or in spaces only.
var values = []string{"", "1", "1", "1", "2", "2", "12", "1 ", "x", "X"}

func genRec(r *rand.Rand) rec {
	x := rec{v: fmt.Sprintf("v%d%s", uniq.Add(1), vh.Pick(r, "", "", "\x00", "é"))}
	if r.Intn(12) == 0 {
		x.v = ""
	}

	for _, n := range []string{"a", "b", "c"} {
		if r.Intn(2) == 0 {
			x.tags = append(x.tags, tag{n, vh.Pick(r, values...)})
		}
	}

	if r.Intn(4) == 0 { // one name more than once
		x.tags = append(x.tags, tag{vh.Pick(r, "a", "b", "A", "aa"), vh.Pick(r, values...)})
	}

	r.Shuffle(len(x.tags), func(i, j int) { x.tags[i], x.tags[j] = x.tags[j], x.tags[i] })

	return x
}

func genExpr(r *rand.Rand) string {
	var cs []string

	for i, n := 0, 1+r.Intn(3); i < n; i++ {
		cs = append(cs, vh.Pick(r, "a", "b", "c", "a:1", "a:2", "b:1", "b:2", "c:1", "c:2", "a:", "a:12", "b:1 ", "c:x", "a:X", "A", "A:1", "aa"))
	}

	return strings.Join(cs, "&&")
}

func genOp(r *rand.Rand, keys []string) op {
	k := func() string { return keys[r.Intn(len(keys))] }

	switch vh.Pick(r, "put", "put", "put", "get", "get", "tags", "bulk", "bulk", "delete", "batch", "batch", "query", "query", "query", "bad") {
	case "put":
		return op{kind: "put", keys: []string{k()}, recs: []rec{genRec(r)}}
	case "get":
		return op{kind: "get", keys: []string{k()}}
	case "tags":
		return op{kind: "tags", keys: []string{k()}}
	case "bulk":
		o := op{kind: "bulk"}
		for i, n := 0, 1+r.Intn(len(keys)+1); i < n; i++ {
			o.keys = append(o.keys, k())
		}

		return o
	case "delete":
		return op{kind: "delete", keys: []string{k()}}
	case "batch":
		o := op{kind: "batch"}
		for i, n := 0, 1+r.Intn(4); i < n; i++ {
			o.keys = append(o.keys, k())
			o.recs = append(o.recs, genRec(r))
			o.del = append(o.del, r.Intn(3) == 0)
		}

		return o
	case "query":
		return op{kind: "query", expr: genExpr(r)}
	}

	// rejected operations
	x := genRec(r)

	switch r.Intn(9) {
	case 0:
		return op{kind: "put", keys: []string{""}, recs: []rec{x}, bad: true}
	case 1:
		return op{kind: "put", keys: []string{k()}, recs: []rec{{v: "<nil>"}}, bad: true}
	case 2:
		x.tags = append(x.tags, vh.Pick(r, tag{"x:y", "1"}, tag{"d", "1:2"}, tag{":", ""}, tag{"d", ":"}))
		return op{kind: "put", keys: []string{k()}, recs: []rec{x}, bad: true}
	case 3:
		return op{kind: vh.Pick(r, "get", "tags", "delete"), keys: []string{""}, bad: true}
	case 4:
		return op{kind: "bulk", keys: vh.Pick(r, nil, []string{k(), ""}, []string{"", k()}), bad: true}
	case 5: // an empty key, first, in the middle or last
		o := op{kind: "batch", keys: []string{k(), k(), k()}, recs: []rec{genRec(r), genRec(r), genRec(r)}, del: []bool{r.Intn(3) == 0, r.Intn(3) == 0, false}, bad: true}
		o.keys[r.Intn(3)] = ""

		return o
	case 6:
		o := op{kind: "batch", keys: []string{k(), k()}, recs: []rec{genRec(r), genRec(r)}, del: []bool{r.Intn(2) == 0, false}, bad: true}
		o.recs[1].tags = append(o.recs[1].tags, vh.Pick(r, tag{"x:y", "1"}, tag{"d", "1:2"}))

		return o
	case 7:
		return op{kind: "batch", bad: true}
	default:
		return op{kind: "query", expr: vh.Pick(r, "", "a:1:2", "a:1&&b:2:3", "::"), bad: true}
	}
}

func run(c *vh.Check) {
	c.Cases("conc", c.N(3000, 60000), func(r *rand.Rand, _ int) { concurrent(c, r) })
	c.Cases("seq", c.N(1500, 20000), func(r *rand.Rand, _ int) { sequential(c, r) })
	c.Cases("open", c.N(400, 4000), func(r *rand.Rand, _ int) { opening(c, r) })
}

func yield(r *rand.Rand) {
	switch r.Intn(6) {
	case 0, 1:
		runtime.Gosched()
	case 2:
		for i := r.Intn(400); i > 0; i-- {
			_ = i
		}
	case 3:
		if r.Intn(10) == 0 {
			time.Sleep(time.Duration(r.Intn(30)) * time.Microsecond)
		}
	}
}

var illegal int

// concurrent records a history and checks it.
func concurrent(c *vh.Check, r *rand.Rand) {
	s, err := mem.NewProvider().OpenStore("store")
	if err != nil {
		panic("vh-fixture open")
	}

	var (
		keys  = []string{"k1", "k2", "k3", "k4"}[:2+r.Intn(3)]
		g     = 3 + r.Intn(5)
		n     = 6 + r.Intn(9)
		clock atomic.Int64
		wg    sync.WaitGroup
		start = make(chan struct{})
		hist  = make([][]porcupine.Operation, g)
	)

	if r.Intn(3) == 0 { // further entries make queries slower
		for i, n := 0, vh.Pick(r, 50, 300, 1500); i < n; i++ {
			o := op{kind: "put", keys: []string{fmt.Sprintf("filler%d", i)}, recs: []rec{{v: "x"}}}
			do(s, o, nil)
		}
	}

	for i := 0; i < g; i++ {
		wg.Add(1)

		gr := rand.New(rand.NewSource(r.Int63()))
		ops := make([]op, n)

		for j := range ops {
			ops[j] = genOp(gr, keys)
		}

		go func(i int) {
			defer wg.Done()
			<-start

			for _, o := range ops {
				yield(gr)

				var ret int64

				call := clock.Add(1)
				// what an iterator gives is the store at the time of the query
				out := do(s, o, func() { ret = clock.Add(1); yield(gr); yield(gr) })

				if ret == 0 {
					ret = clock.Add(1)
				}

				hist[i] = append(hist[i], porcupine.Operation{ClientId: i, Input: o, Call: call, Output: out, Return: ret})
			}
		}(i)
	}

	close(start)
	wg.Wait()

	var all []porcupine.Operation
	for _, h := range hist {
		all = append(all, h...)
	}

	over, order := 0, ""

	sort.Slice(all, func(i, j int) bool { return all[i].Call < all[j].Call })

	for i, o := range all {
		if i > 0 && o.Call < all[i-1].Return {
			over++
		}

		order += fmt.Sprint(o.ClientId)
		in := o.Input.(op)
		out := o.Output.(string)

		if in.kind == "query" && out != "" && !in.bad {
			c.Count("conc.query-nonempty", 1)
		}

		c.Eval(fmt.Sprint(in.kind, in.bad, len(out) > 3, g))
	}

	c.Count("conc.histories", 1)
	c.Count("conc.ops", int64(len(all)))
	c.Count("conc.overlaps", int64(over))
	c.Eval("order:" + order)

	if illegal > 2 { // enough failing histories
		return
	}

	switch porcupine.CheckOperationsTimeout(model, all, 10*time.Second) {
	case porcupine.Ok:
		c.Count("conc.linearizable", 1)
	case porcupine.Unknown:
		c.Count("conc.unknown", 1)
	default:
		small := all
		if illegal++; illegal == 1 {
			small = shrink(all)
		}

		var lines []string
		for _, o := range small {
			lines = append(lines, fmt.Sprintf("[%d,%d] client %d: %v -> %s", o.Call, o.Return, o.ClientId, o.Input, o.Output))
		}

		c.Violate("linearizability", fmt.Sprintf("no order of the %d operations explains the results; a failing part of %d operations is attached", len(all), len(small)), lines)
	}

	if over > 20 {
		c.Sample(fmt.Sprintf("%d goroutines, %d operations, %d overlapping: %v", g, len(all), over, head(all)))
	}
}

func head(h []porcupine.Operation) string {
	s := ""
	for _, o := range h[:min(len(h), 6)] {
		s += fmt.Sprintf("%d:%v->%s; ", o.ClientId, o.Input, o.Output)
	}

	return s
}

// shrink drops reading operations that are not needed for the failure.
func shrink(h []porcupine.Operation) []porcupine.Operation {
	for i := len(h) - 1; i >= 0; i-- {
		k := h[i].Input.(op).kind
		if k == "put" || k == "batch" || k == "delete" {
			continue
		}

		t := append(append([]porcupine.Operation{}, h[:i]...), h[i+1:]...)
		if porcupine.CheckOperationsTimeout(model, t, 200*time.Millisecond) == porcupine.Illegal {
			h = t
		}
	}

	return h
}

// ---- sequential ----

type mstore struct {
	st  state
	cfg []string
	h   spi.Store
}

func sequential(c *vh.Check, r *rand.Rand) {
	p := mem.NewProvider()
	names := []string{"store", "Store", "STORE", "other", "öther", "a b", "a", " store", "store ", "stores", "k/1", "k"}
	r.Shuffle(len(names), func(i, j int) { names[i], names[j] = names[j], names[i] })
	names = names[:2+r.Intn(4)]

	open := map[string]*mstore{}

	var log, stale []string

	var old []spi.Store // handles closed before

	bad := func(key, what string) { c.Violate(key, what, append(append([]string{}, log...), stale...)) }

	get := func(name string) *mstore {
		l := strings.ToLower(name)

		h, err := p.OpenStore(name)
		if err != nil {
			bad("open/error", "OpenStore("+name+"): "+err.Error())
			return nil
		}

		m := open[l]
		if m == nil {
			m = &mstore{st: state{}, h: h}
			open[l] = m
		}

		return m
	}

	var held []func() // results of earlier calls that must stay as they were

	for i, n := 0, 15+r.Intn(60); i < n; i++ {
		name := names[r.Intn(len(names))]
		l := strings.ToLower(name)

		switch k := r.Intn(30); {
		case k == 0: // close a store: its data is gone
			if m := open[l]; m != nil {
				log = append(log, "close "+l)

				if err := m.h.Close(); err != nil {
					bad("close/error", err.Error())
				}

				old = append(old, m.h)
				delete(open, l)
				c.Count("seq.reopened", 1)
			}
		case k == 1: // closing again is harmless
			if len(old) > 0 {
				log = append(log, "close again")

				if err := old[r.Intn(len(old))].Close(); err != nil {
					bad("close/again", err.Error())
				}
			}
		case k == 2 && r.Intn(4) == 0:
			log = append(log, "close provider")

			if err := p.Close(); err != nil {
				bad("close/provider", err.Error())
			}

			open = map[string]*mstore{}
		case k == 3:
			cfg := vh.Pick(r, []string{"a"}, []string{"a", "b"}, nil, []string{"x:y"}, []string{"a", ":"})
			err := p.SetStoreConfig(name, spi.StoreConfiguration{TagNames: cfg})
			invalid := len(cfg) > 0 && strings.Contains(cfg[len(cfg)-1], ":")
			log = append(log, fmt.Sprintf("config %s %v", name, cfg))

			switch {
			case invalid:
				c.Expect(err != nil, "config/tag-name", "SetStoreConfig accepted a tag name with a colon", log)
			case open[l] == nil:
				c.Expect(errors.Is(err, spi.ErrStoreNotFound), "config/unknown", fmt.Sprint("SetStoreConfig of a store that is not open: ", err), log)
			default:
				c.Expect(err == nil, "config/error", fmt.Sprint(err), log)
				open[l].cfg = cfg
			}
		case k == 4:
			cfg, err := p.GetStoreConfig(name)
			if open[l] == nil {
				c.Expect(errors.Is(err, spi.ErrStoreNotFound), "config/get-unknown", fmt.Sprint("GetStoreConfig of a store that is not open: ", err), log)
			} else {
				c.Expect(err == nil && fmt.Sprint(cfg.TagNames) == fmt.Sprint(open[l].cfg), "config/get", fmt.Sprintf("GetStoreConfig %v %v, want %v", cfg, err, open[l].cfg), log)
			}
		case k == 5:
			hs := p.GetOpenStores()
			c.Expect(len(hs) == len(open), "open/count", fmt.Sprintf("GetOpenStores gives %d, want %d", len(hs), len(open)), log)

			for _, h := range hs {
				hit := false
				for _, m := range open {
					hit = hit || m.h == h
				}

				c.Expect(hit, "open/handle", "GetOpenStores gives an unknown store", log)
			}
		case k == 6:
			_, err := p.OpenStore("")
			c.Expect(err != nil, "open/empty", "store without a name", nil)
		default:
			m := get(name)
			if m == nil {
				return
			}

			h := m.h
			if r.Intn(2) == 0 {
				h, _ = p.OpenStore(vh.Pick(r, l, strings.ToUpper(l)))
			}

			if r.Intn(8) == 0 {
				_ = h.Flush()
			}

			o := genOp(r, []string{"k1", "k2", "k3", "K1", " ", "ключ"})
			log = append(log, l+": "+o.String())
			want, next := step(m.st, o)

			var between func()

			if o.kind == "query" && r.Intn(2) == 0 { // the iterator is a snapshot
				w := genOp(r, []string{"k1", "k2", "k3"})
				between = func() {
					log = append(log, l+": meanwhile "+w.String())

					wantW, nn := step(m.st, w)
					if got := do(h, w, nil); got != wantW {
						bad("seq/"+w.kind, fmt.Sprintf("%v gives %s, want %s", w, got, wantW))
					}

					next = nn
				}
			}

			got := do(h, o, between)
			m.st = next

			if got != want {
				bad("seq/"+o.kind, fmt.Sprintf("%v gives %s, want %s", o, got, want))
				return
			}

			if o.kind == "query" && !o.bad && want != "" {
				c.Count("seq.query-nonempty", 1)
			}

			// keep results and look at them at the end
			if k, ok := m.st["k1"]; ok && r.Intn(6) == 0 {
				v, _ := h.Get("k1")
				ts, _ := h.GetTags("k1")
				bs, _ := h.GetBulk("k1", "k2")
				held = append(held, func() {
					if !bytes.Equal(v, []byte(k.v)) || fmt.Sprint(tagsOf(ts)) != fmt.Sprint(k.tags) || !bytes.Equal(bs[0], []byte(k.v)) {
						bad("alias/held", fmt.Sprintf("a value got earlier changed from %v to %q %v", k, v, ts))
					}
				})
			}

			c.Count("seq.ops", 1)
			c.Eval(fmt.Sprint("seq", o.kind, o.bad, got == "not-found", got == "", between != nil))
		}
	}

	for _, f := range held {
		f()
	}

	// the final state, through fresh handles
	for l, m := range open {
		h, _ := p.OpenStore(l)

		for _, k := range []string{"k1", "k2", "k3", "K1", " ", "ключ"} {
			for _, kind := range []string{"get", "tags"} {
				o := op{kind: kind, keys: []string{k}}
				want, _ := step(m.st, o)

				if got := do(h, o, nil); got != want {
					bad("seq/final", fmt.Sprintf("%s in the end: %v gives %s, want %s", l, o, got, want))
				}
			}
		}
	}
}

// opening: stores opened, configured, listed and closed concurrently; whoever opens one name gets one store.
func opening(c *vh.Check, r *rand.Rand) {
	p := mem.NewProvider()
	g := 3 + r.Intn(5)
	hs := make([]spi.Store, g)

	var wg sync.WaitGroup

	start := make(chan struct{})

	for i := 0; i < g; i++ {
		gr := rand.New(rand.NewSource(r.Int63()))

		wg.Add(1)

		go func(i int) {
			defer wg.Done()
			<-start

			yield(gr)

			hs[i], _ = p.OpenStore(vh.Pick(gr, "shared", "Shared", "SHARED"))
			_ = hs[i].Put(fmt.Sprintf("own%d", i), []byte{byte(i)}, spi.Tag{Name: "t"})

			for j := 0; j < 6; j++ {
				yield(gr)

				other := fmt.Sprintf("other%d", gr.Intn(3))

				switch gr.Intn(6) {
				case 0:
					_ = p.SetStoreConfig("shared", spi.StoreConfiguration{TagNames: []string{"a"}})
				case 1:
					_, _ = p.GetStoreConfig("shared")
				case 2:
					for _, h := range p.GetOpenStores() {
						_, _ = h.Get("x")
					}
				case 3, 4:
					if h, err := p.OpenStore(other); err == nil {
						_ = h.Put("x", []byte("y"))
					}
				case 5:
					if h, err := p.OpenStore(other); err == nil {
						_ = h.Close()
					}
				}
			}
		}(i)
	}

	close(start)
	wg.Wait()

	for i, h := range hs {
		for j := range hs {
			v, err := h.Get(fmt.Sprintf("own%d", j))
			c.Expect(err == nil && bytes.Equal(v, []byte{byte(j)}), "open/shared", fmt.Sprintf("handle %d does not see what was put through handle %d of the same store: %v %v", i, j, v, err), nil)
		}
	}

	it, err := hs[0].Query("t")
	n := -1

	if err == nil {
		n, _ = it.TotalItems()
	}

	c.Expect(n == g, "open/query", fmt.Sprintf("%d of %d entries found", n, g), nil)
	c.Count("open.same", 1)
	c.Eval(fmt.Sprint("open", g))
}
