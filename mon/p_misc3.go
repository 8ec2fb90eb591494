package main

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"os"
	"path/filepath"
	"reflect"
	"runtime"
	"sort"
	"strings"
	gosync "sync"
	"sync/atomic"
	"time"

	"github.com/Aize-Public/forego/ctx"
	"github.com/Aize-Public/forego/ctx/log"
	"github.com/Aize-Public/forego/enc"
	"github.com/Aize-Public/forego/utils"
	"github.com/Aize-Public/forego/utils/lists"
	"github.com/Aize-Public/forego/utils/maps"
	"github.com/Aize-Public/forego/utils/sync"
	"github.com/anishathalye/porcupine"
)

func init() {
	reg("C39", "concurrent operations of every kind on few keys of typed maps holding strings, interfaces (also nil) and pointers, recorded as histories and given to a linearizability checker; ranges checked against what was surely there; JSON there and back, also over existing entries; non-trivial: distinct history", c39)
	reg("C40", "goroutines locking with and without deadlines while monitors count holders; attempts on a lock held for sure must fail after their time, attempts on a free one must succeed, and abandoned attempts must leave it usable; non-trivial: distinct schedule", c40)
	reg("C41", "random operation sequences compared step by step with a model of insertion order; non-trivial: distinct sequence", c41)
	reg("C42", "random slices and sizes against direct definitions: chunking, flattening (also of groups sharing an array), all permutations once each (prefixes of them for long slices), reversal, sorting, sets under concurrency; non-trivial: distinct input", c42)
	reg("C43", "random trees of contexts mixing tags of every type with cancellations, deadlines, values, detachments and tracking, ranged over from several goroutines and compared with a model; non-trivial: distinct tree", c43)
	reg("C44", "detached contexts under parents cancelled at every moment with causes, timeouts and deadlines; non-trivial: distinct history", c44)
	reg("C45", "spans opened from several goroutines out of one tracked context, nested; every identifier must be new and extend that of its parent; non-trivial: distinct tree", c45)
	reg("C46", "errors wrapped and rewrapped through chains, joins and foreign wrappers (also with an Is or As of their own); text, identity, single stack and its origin compared with the recorded construction; non-trivial: distinct chain", c46)
	reg("C54", "nested and concurrent gates returning every combination of errors, and stacks taken at known depths; non-trivial: distinct combination", c54)
}

// ---------------------------------------------------------------- C39

type smIn struct {
	op, key, val string
}

type smOut struct {
	val string
	ok  bool
}

var smModel = porcupine.Model{
	Partition: func(h []porcupine.Operation) [][]porcupine.Operation {
		by := map[string][]porcupine.Operation{}
		for _, o := range h {
			k := o.Input.(smIn).key
			by[k] = append(by[k], o)
		}
		var out [][]porcupine.Operation
		for _, k := range sortedKeys(by) {
			out = append(out, by[k])
		}
		return out
	},
	Init: func() any { return smOut{} },
	Step: func(state, input, output any) (bool, any) {
		st, in, out := state.(smOut), input.(smIn), output.(smOut)
		switch in.op {
		case "load":
			return out == st, st
		case "get":
			return out.val == st.val, st
		case "store":
			return true, smOut{in.val, true}
		case "los":
			if st.ok {
				return out == st, st
			}
			return out == smOut{in.val, false}, smOut{in.val, true}
		case "gos":
			if st.ok {
				return out.val == st.val, st
			}
			return out.val == in.val, smOut{in.val, true}
		case "lad":
			return out == st, smOut{}
		case "del":
			return true, smOut{}
		}
		return false, st
	},
	DescribeOperation: func(in, out any) string { return fmt.Sprintf("%+v -> %+v", in, out) },
}

// smDrive runs a history on a map of some value type; conv and back translate marks ("" is the zero value).
func smDrive[V any](r *R, h int, kind string, conv func(string) V, back func(V) string) {
	rng := r.Sub("sm"+kind, h)
	m := &sync.Map[string, V]{}
	keys := []string{"a", "b", "c"}[:1+rng.Intn(3)]
	procs := 2 + rng.Intn(4)
	ops := make([][]porcupine.Operation, procs)
	t0 := time.Now()
	base := rng.Int63()
	// a key nobody touches must show in every range, one deleted before must not
	m.Store("fixed", conv("F"))
	m.Store("gone", conv("G"))
	m.Delete("gone")
	r.Par("map", "concurrent use of a map", procs, func(p int) {
		rg := rand.New(rand.NewSource(base + int64(p)))
		for i := 0; i < 14; i++ {
			in := smIn{key: keys[rg.Intn(len(keys))], val: fmt.Sprintf("%d.%d", p, i)}
			if rg.Intn(4) == 0 {
				in.val = ""
			}
			out := smOut{}
			call := int64(time.Since(t0))
			switch rg.Intn(9) {
			case 0:
				in.op = "store"
				m.Store(in.key, conv(in.val))
			case 1, 2:
				in.op = "load"
				v, ok := m.Load(in.key)
				out = smOut{back(v), ok}
			case 3:
				in.op = "get"
				out.val = back(m.Get(in.key))
			case 4:
				in.op = "los"
				v, ok := m.LoadOrStore(in.key, conv(in.val))
				out = smOut{back(v), ok}
			case 5:
				in.op = "gos"
				out.val = back(m.GetOrStore(in.key, conv(in.val)))
			case 6:
				in.op = "lad"
				v, ok := m.LoadAndDelete(in.key)
				out = smOut{back(v), ok}
			case 7:
				in.op = "del"
				m.Delete(in.key)
			default:
				seen := map[string]bool{}
				fixed := false
				visit := func(k string, v V) {
					if seen[k] {
						r.Fail("range-twice", "%s: key %q twice in one range", kind, k)
					}
					seen[k] = true
					if k == "fixed" {
						fixed = back(v) == "F"
					}
					if k == "gone" {
						r.Fail("range-gone", "%s: a deleted key shows in a range", kind)
					}
				}
				switch rg.Intn(3) {
				case 0:
					m.Range(func(k string, v V) bool { visit(k, v); return true })
				case 1:
					if err := m.RangeErr(func(k string, v V) error { visit(k, v); return nil }); err != nil {
						r.Fail("range-err", "%s: RangeErr: %v", kind, err)
					}
				default:
					for k, v := range m.Map() {
						visit(k, v)
					}
				}
				if !fixed {
					r.Fail("range-lost", "%s: a key that is always there did not show in a range", kind)
				}
				if m.IsEmpty() {
					r.Fail("empty", "%s: IsEmpty with a key in the map", kind)
				}
				r.Count("ranges", 1)
				continue
			}
			ret := int64(time.Since(t0))
			ops[p] = append(ops[p], porcupine.Operation{ClientId: p, Input: in, Output: out, Call: call, Return: ret})
		}
	})
	var all []porcupine.Operation
	for _, o := range ops {
		all = append(all, o...)
	}
	key := kind
	for _, o := range all {
		key += fmt.Sprint(o.Input, o.Output)
	}
	switch porcupine.CheckOperationsTimeout(smModel, all, 20*time.Second) {
	case porcupine.Illegal:
		sort.Slice(all, func(i, j int) bool { return all[i].Call < all[j].Call })
		var b strings.Builder
		for _, o := range all {
			fmt.Fprintf(&b, "%d [%d..%d] %+v -> %+v\n", o.ClientId, o.Call, o.Return, o.Input, o.Output)
		}
		r.Fail("linearizable", "%s: no order explains:\n%s", kind, b.String())
	case porcupine.Unknown:
		r.Count("undecided_histories", 1)
	}
	r.Eval(key)
	r.Count("operations", int64(len(all)))
}

func c39(r *R) {
	c := quietCtx()
	ptrs := gosync.Map{}
	for h := 0; h < r.N(90, 3000); h++ {
		smDrive(r, h, "string", func(s string) string { return s }, func(s string) string { return s })
		smDrive(r, h, "any", func(s string) any {
			if s == "" {
				return nil
			}
			return s
		}, func(v any) string {
			if v == nil {
				return ""
			}
			return v.(string)
		})
		smDrive(r, h, "error", func(s string) error {
			if s == "" {
				return nil
			}
			return errors.New(s)
		}, func(v error) string {
			if v == nil {
				return ""
			}
			return v.Error()
		})
		smDrive(r, h, "pointer", func(s string) *string {
			if s == "" {
				return nil
			}
			x, _ := ptrs.LoadOrStore(s, &s)
			return x.(*string)
		}, func(v *string) string {
			if v == nil {
				return ""
			}
			return *v
		})
		if r.Failed() {
			return
		}
	}
	// stopping
	for i := 0; i < 50; i++ {
		m := &sync.Map[int, int]{}
		n := 2 + i%7
		if !m.IsEmpty() {
			r.Fail("empty", "a new map is not empty")
		}
		for k := 0; k < n; k++ {
			m.Store(k, k*k)
		}
		stop, calls := i%n, 0
		boom := errors.New("boom")
		err := m.RangeErr(func(k, v int) error {
			if v != k*k {
				r.Fail("range-value", "key %d with value %d", k, v)
			}
			if calls == stop {
				return boom
			}
			calls++
			return nil
		})
		if err != boom || calls != stop {
			r.Fail("stop", "RangeErr: %v after %d calls, want boom after %d", err, calls, stop)
		}
		calls = 0
		m.Range(func(k, v int) bool { calls++; return calls <= stop })
		if calls != stop+1 {
			r.Fail("stop", "Range made %d calls, told to stop at %d", calls, stop+1)
		}
	}
	// JSON there and back
	for i := 0; i < r.N(100, 2000); i++ {
		rng := r.Sub("json", i)
		m := &sync.Map[string, int]{}
		want := map[string]int{}
		for k := rng.Intn(6); k > 0; k-- {
			s := strings.ToValidUTF8(genString(rng), "?")
			want[s] = rng.Intn(1000)
			m.Store(s, want[s])
		}
		j, err := enc.MarshalJSON(c, m)
		var got map[string]int
		if err == nil {
			err = json.Unmarshal(j, &got)
		}
		if err != nil || fmt.Sprint(got) != fmt.Sprint(want) {
			r.Fail("json", "map %v written as %s (%v)", want, j, err)
		}
		back := &sync.Map[string, int]{}
		if err := enc.UnmarshalJSON(c, j, back); err != nil || fmt.Sprint(back.Map()) != fmt.Sprint(want) {
			r.Fail("json", "%s read as %v (%v)", j, back.Map(), err)
		}
		// into a map which holds other values already
		over := &sync.Map[string, int]{}
		for s := range want {
			if rng.Intn(2) == 0 {
				over.Store(s, -1)
			}
		}
		if err := enc.UnmarshalJSON(c, j, over); err != nil || fmt.Sprint(over.Map()) != fmt.Sprint(want) {
			r.Fail("json", "%s read over other values of its keys as %v (%v)", j, over.Map(), err)
		}
		r.Eval(string(j))
	}
}

// ---------------------------------------------------------------- C40

func c40(r *R) {
	for i := 0; i < r.N(24, 400); i++ {
		rng := r.Sub("try", i)
		m := &sync.Mutex{}
		var holders atomic.Int64
		shared := 0 // seen by the race detector
		workers := 3 + rng.Intn(5)
		base := rng.Int63()
		var got, lost atomic.Int64
		r.Par("trylock", "locking with and without deadlines", workers, func(p int) {
			rg := rand.New(rand.NewSource(base + int64(p)))
			for k := 0; k < 40; k++ {
				if rg.Intn(3) == 0 {
					m.Lock()
				} else {
					d := time.Duration(rg.Intn(400)) * time.Microsecond
					t0 := time.Now()
					ok := m.TryLock(d)
					if !ok {
						if e := time.Since(t0); e < d {
							r.Fail("early", "TryLock(%v) gave up after %v", d, e)
						}
						lost.Add(1)
						continue
					}
				}
				got.Add(1)
				if n := holders.Add(1); n != 1 {
					r.Fail("exclusion", "%d holders at once", n)
				}
				shared++
				switch rg.Intn(4) {
				case 0:
					time.Sleep(time.Duration(rg.Intn(300)) * time.Microsecond)
				case 1:
					runtime.Gosched()
				}
				holders.Add(-1)
				m.Unlock()
			}
		})
		if int64(shared) != got.Load() {
			r.Fail("exclusion", "%d updates of %d survived", shared, got.Load())
		}
		// whatever was given up must not keep the lock
		r.Within("left", "locking after abandoned attempts", func() {
			m.Lock()
			m.Unlock() //nolint
		})
		r.Eval(fmt.Sprint(i, got.Load(), lost.Load()))
		r.Count("obtained", got.Load())
		r.Count("given_up", lost.Load())
	}
	// held for sure: fails, and in time; free: succeeds
	r.Par("trylock", "attempts on a held and on a free lock", r.N(24, 200), func(i int) {
		m := &sync.Mutex{}
		m.Lock()
		d := time.Duration(1+i%20) * time.Millisecond
		n := 1 + i%3
		for k := 0; k < n; k++ {
			t0 := time.Now()
			if m.TryLock(d) {
				r.Fail("exclusion", "TryLock obtained a lock that is held")
				return
			}
			e := time.Since(t0)
			if e < d {
				r.Fail("early", "TryLock(%v) gave up after %v", d, e)
			}
			if e > d+20*time.Second {
				r.Fail("late", "TryLock(%v) gave up after %v", d, e)
			}
		}
		m.Unlock()
		// abandoned attempts may take and release it, but it ends up free
		if !m.TryLock(20 * time.Second) {
			r.Fail("left", "a free lock could not be obtained within 20 s, after %d abandoned attempts", n)
			return
		}
		var in atomic.Bool
		in.Store(true)
		done := make(chan struct{})
		go func() {
			defer close(done)
			if !m.TryLock(30 * time.Second) {
				r.Fail("left", "a lock released was not obtained")
				return
			}
			if in.Load() {
				r.Fail("exclusion", "obtained while held through TryLock")
			}
			m.Unlock()
		}()
		time.Sleep(time.Duration(i%5) * time.Millisecond)
		in.Store(false)
		m.Unlock()
		<-done
		r.Eval(fmt.Sprint("held", i))
	})
	// the measuring mutex is a mutex
	var mm sync.MetricsMutex
	n, in := 0, atomic.Int64{}
	log.SetDefaultLoggerLevel(100)
	r.Par("metrics", "concurrent use of a MetricsMutex", 6, func(p int) {
		for k := 0; k < 200; k++ {
			mm.Lock()
			if in.Add(1) != 1 {
				r.Fail("exclusion", "two holders of a MetricsMutex")
			}
			n++
			in.Add(-1)
			mm.Unlock()
		}
	})
	if n != 1200 {
		r.Fail("exclusion", "MetricsMutex: %d of 1200 updates survived", n)
	}
	r.Eval("metrics")
}

// ---------------------------------------------------------------- C41

func c41(r *R) {
	type kv struct {
		k string
		v int
	}
	for i := 0; i < r.N(1500, 40000); i++ {
		rng := r.Sub("om", i)
		m := utils.NewOrderedMap[string, int]()
		var model []kv
		find := func(k string) int {
			for i, e := range model {
				if e.k == k {
					return i
				}
			}
			return -1
		}
		var ops []string
		bad := func(f string, args ...any) {
			r.Fail("model", "%s\nafter %s\nwant %v", fmt.Sprintf(f, args...), strings.Join(ops, " "), model)
		}
		keys, steps := 1+rng.Intn(8), 50
		if i%8 == 0 {
			keys, steps = 1+rng.Intn(300), 100+rng.Intn(600)
		}
		trend := 0 // phases of growing and of shrinking
		for s := 0; s < steps; s++ {
			if s%50 == 0 {
				trend = rng.Intn(3)
			}
			k := fmt.Sprint("k", rng.Intn(keys))
			at := find(k)
			op := rng.Intn(6)
			switch {
			case trend == 1 && op >= 3 && rng.Intn(2) == 0:
				op = 0
			case trend == 2 && (op < 2 || op >= 4) && rng.Intn(3) > 0:
				op = 2
			}
			if op == 2 && len(model) > 0 && rng.Intn(4) > 0 {
				at = rng.Intn(len(model))
				if rng.Intn(2) == 0 {
					at = []int{0, len(model) - 1}[rng.Intn(2)]
				}
				k = model[at].k
			}
			switch op {
			case 0, 1:
				v := rng.Intn(1000)
				ops = append(ops, fmt.Sprintf("put(%s,%d)", k, v))
				e := m.Put(k, v)
				if at >= 0 {
					if !e.Found || e.Value != model[at].v {
						bad("Put returned %+v", e)
					}
					model[at].v = v
				} else {
					if e.Found || e.Value != 0 {
						bad("Put returned %+v", e)
					}
					model = append(model, kv{k, v})
				}
			case 2:
				ops = append(ops, fmt.Sprintf("del(%s)", k))
				e := m.Delete(k)
				if at >= 0 {
					if !e.Found || e.Value != model[at].v {
						bad("Delete returned %+v", e)
					}
					model = append(model[:at:at], model[at+1:]...)
				} else if e.Found || e.Value != 0 {
					bad("Delete returned %+v", e)
				}
			case 3:
				e := m.Get(k)
				if e.Found != (at >= 0) || (at >= 0 && e.Value != model[at].v) || (at < 0 && e.Value != 0) {
					bad("Get(%s) = %+v", k, e)
				}
			case 4:
				var gk []string
				var gv []int
				for _, e := range model {
					gk, gv = append(gk, e.k), append(gv, e.v)
				}
				if m.Len() != len(model) || fmt.Sprint(m.Keys()) != fmt.Sprint(gk) || fmt.Sprint(m.Values()) != fmt.Sprint(gv) {
					bad("Len %d Keys %v Values %v", m.Len(), m.Keys(), m.Values())
				}
			default:
				stop := rng.Intn(len(model) + 2)
				var got []kv
				err := m.Range(func(k string, v int) error {
					if len(got) == stop {
						return io.EOF
					}
					got = append(got, kv{k, v})
					return nil
				})
				want, wantErr := model, error(nil)
				if stop < len(model) {
					want, wantErr = model[:stop], io.EOF
				}
				if err != wantErr || fmt.Sprint(got) != fmt.Sprint(want) {
					bad("Range stopped at %d gave %v, %v", stop, got, err)
				}
			}
			if r.Failed() {
				return
			}
		}
		r.Eval(strings.Join(ops, " "))
		r.Count("operations", int64(steps))
		if i == 1 {
			r.Sample("%s", strings.Join(ops, " "))
		}
	}
	// pairs of a plain map
	for i := 0; i < 50; i++ {
		rng := r.Sub("pairs", i)
		in := map[string]int{}
		for k := rng.Intn(9); k > 0; k-- {
			in[genString(rng)] = rng.Intn(99)
		}
		p := maps.Pairs(in)
		got := map[string]int{}
		ks, vs := p.Keys(), p.Values()
		if len(p) != len(in) || len(ks) != len(in) || len(vs) != len(in) {
			r.Fail("pairs", "%d pairs, %d keys, %d values of %d", len(p), len(ks), len(vs), len(in))
			return
		}
		for j, e := range p {
			got[e.Key] = e.Value
			if ks[j] != e.Key || vs[j] != e.Value {
				r.Fail("pairs", "keys and values do not match the pairs: %v %v %v", p, ks, vs)
			}
		}
		if !deepEq(got, in) {
			r.Fail("pairs", "%v from %v", got, in)
		}
	}
}

// ---------------------------------------------------------------- C42

func c42(r *R) {
	for i := 0; i < r.N(4000, 100000); i++ {
		rng := r.Sub("lists", i)
		n := rng.Intn(40)
		if rng.Intn(10) == 0 {
			n = rng.Intn(500)
		}
		in := make([]int, n)
		for j := range in {
			in[j] = rng.Intn(50)
		}
		orig := append([]int{}, in...)
		max := 1 + rng.Intn(n+3)
		r.Guard("panic", func() string { return fmt.Sprint(n, max) }, func() {
			out := lists.Split(in, max)
			flat := lists.Flatten(out)
			if fmt.Sprint(flat) != fmt.Sprint(orig) || fmt.Sprint(in) != fmt.Sprint(orig) {
				r.Fail("split", "Split(%v, %d) = %v", orig, max, out)
			}
			// in another order: groups share an array, flattening must not write to it
			if len(out) > 1 {
				other := append([][]int{}, out...)
				rng.Shuffle(len(other), func(i, j int) { other[i], other[j] = other[j], other[i] })
				var want []int
				for _, g := range other {
					want = append(want, g...)
				}
				if got := lists.Flatten(other); fmt.Sprint(got) != fmt.Sprint(want) || fmt.Sprint(in) != fmt.Sprint(orig) {
					r.Fail("flatten", "Flatten(%v) = %v, and the elements are now %v", want, got, in)
				}
			}
			// what is done to the flat list is not done to the groups
			if len(flat) > 0 && n > 0 {
				flat[0]++
				flat = append(flat[:1], 99)
				if _ = flat; fmt.Sprint(in) != fmt.Sprint(orig) {
					r.Fail("flatten", "changing a flat list of %d groups changed the elements", len(out))
				}
			}
			lo, hi := n, 0
			for _, g := range out {
				if len(g) > max {
					r.Fail("split", "Split(%d elements, %d) has a group of %d", n, max, len(g))
				}
				if len(g) < lo {
					lo = len(g)
				}
				if len(g) > hi {
					hi = len(g)
				}
			}
			want := (n + max - 1) / max
			if want == 0 {
				want = 1
			}
			if len(out) != want {
				r.Fail("split", "Split(%d elements, %d) made %d groups, want %d", n, max, len(out), want)
			}
			if n > 0 && lo == 0 {
				r.Fail("split", "Split(%d elements, %d) made an empty group", n, max)
			}
			for j := 0; j+1 < len(out)-1; j++ {
				if len(out[j]) != len(out[j+1]) {
					r.Fail("split", "Split(%d elements, %d): groups before the last differ in size", n, max)
				}
			}
			cp := lists.Copy(in)
			lists.Reverse(cp)
			for j := range cp {
				if cp[j] != in[n-1-j] {
					r.Fail("reverse", "Reverse(%v) = %v", in, cp)
					break
				}
			}
			if fmt.Sprint(in) != fmt.Sprint(orig) {
				r.Fail("copy", "changing a copy changed the original")
			}
			srt := lists.Copy(in)
			if rng.Intn(2) == 0 {
				lists.Sort(srt, func(a, b int) bool { return a > b })
			} else {
				lists.SortFunc(srt, func(a int) float64 { return -float64(a) / 3 })
			}
			want2 := append([]int{}, orig...)
			sort.Sort(sort.Reverse(sort.IntSlice(want2)))
			if fmt.Sprint(srt) != fmt.Sprint(want2) {
				r.Fail("sort", "sorted %v, want %v", srt, want2)
			}
			var uniq []int
			for _, x := range in {
				uniq = lists.AddUnique(uniq, x)
			}
			seen := map[int]bool{}
			k := 0
			for _, x := range in {
				if !seen[x] {
					seen[x] = true
					if k >= len(uniq) || uniq[k] != x {
						r.Fail("unique", "%v of %v", uniq, in)
						break
					}
					k++
				}
			}
			if k != len(uniq) {
				r.Fail("unique", "%v of %v", uniq, in)
			}
			for x := -1; x < 51; x++ {
				if lists.Contains(in, x) != seen[x] {
					r.Fail("contains", "Contains(%v, %d) = %v", in, x, !seen[x])
				}
			}
		})
		if n < 10 {
			r.Eval(fmt.Sprint(orig, max))
		} else {
			r.Eval(fmt.Sprint(n, max, orig[:5]))
		}
		if r.Failed() {
			return
		}
	}
	func() {
		for _, n := range []int{0, -1} {
			func() {
				defer func() {
					if recover() == nil {
						r.Fail("split", "Split with groups of %d was accepted", n)
					}
				}()
				lists.Split([]int{1, 2}, n)
			}()
		}
	}()
	// permutations: each once, starting with the given order
	fact := 1
	for n := 0; n <= r.N(7, 9); n++ {
		if n > 0 {
			fact *= n
		}
		l := make([]int, n)
		for j := range l {
			l[j] = j * j
		}
		start := fmt.Sprint(l)
		next := lists.Permute(l)
		seen := map[string]bool{}
		ct := 0
		for next() {
			k := fmt.Sprint(l)
			if ct == 0 && k != start {
				r.Fail("permute", "the first permutation of %s is %s", start, k)
			}
			if seen[k] {
				r.Fail("permute", "permutation %s twice", k)
			}
			seen[k] = true
			s := append([]int{}, l...)
			sort.Ints(s)
			if fmt.Sprint(s) != start {
				r.Fail("permute", "%s is no permutation of %s", k, start)
			}
			if ct++; ct > fact {
				break
			}
		}
		if ct != fact {
			r.Fail("permute", "%d permutations of %d elements", ct, n)
		}
		if next() {
			r.Fail("permute", "more permutations after the end")
		}
		r.Eval(fmt.Sprint("perm", n))
		r.Count("permutations", int64(ct))
	}
	// too long for all of them: none comes twice among the first
	for n := 10; n <= 26; n += 1 + n/8 {
		l := make([]byte, n)
		for j := range l {
			l[j] = byte('a' + j)
		}
		start := string(l)
		next := lists.Permute(l)
		seen := map[string]bool{}
		for ct := 0; ct < r.N(9000, 300000); ct++ {
			if !next() {
				r.Fail("permute", "%d elements have %d permutations only", n, ct)
				break
			}
			k := string(l)
			if seen[k] {
				r.Fail("permute", "permutation %s twice", k)
				break
			}
			seen[k] = true
			s := append([]byte{}, l...)
			sort.Slice(s, func(i, j int) bool { return s[i] < s[j] })
			if string(s) != start {
				r.Fail("permute", "%s is no permutation of %s", k, start)
				break
			}
		}
		r.Eval(fmt.Sprint("long perm", n))
		r.Count("permutations", int64(len(seen)))
	}
	// sets: of concurrent additions or removals of one element exactly one counts
	for i := 0; i < r.N(60, 1000); i++ {
		var s lists.Set[int]
		const n = 12
		var added, removed [n]atomic.Int64
		const w = 5
		rng := r.Sub("set", i)
		base := rng.Int63()
		r.Par("set", "concurrent use of a set", w, func(p int) {
			rg := rand.New(rand.NewSource(base + int64(p)))
			for k := 0; k < 100; k++ {
				x := rg.Intn(n)
				if rg.Intn(2) == 0 {
					if s.Add(x) {
						added[x].Add(1)
					}
				} else if s.Remove(x) {
					removed[x].Add(1)
				}
				if rg.Intn(10) == 0 {
					seen := map[int]bool{}
					for _, y := range s.All() {
						if seen[y] {
							r.Fail("set", "element %d twice", y)
						}
						seen[y] = true
					}
				}
			}
		})
		all := map[int]bool{}
		for _, y := range s.All() {
			all[y] = true
		}
		for x := 0; x < n; x++ {
			d := added[x].Load() - removed[x].Load()
			if (d != 0 && d != 1) || (d == 1) != s.Has(x) || s.Has(x) != all[x] {
				r.Fail("set", "element %d: added %d times, removed %d times, Has %v, listed %v", x, added[x].Load(), removed[x].Load(), s.Has(x), all[x])
			}
		}
		r.Eval(fmt.Sprint("set", i))
		r.Count("set_operations", 500)
	}
}

// ---------------------------------------------------------------- C43

type ctxModel struct {
	c    ctx.C
	tags []string // key=json in order
	desc string
	up   *ctxModel
	vals map[any]int // attached here
}

type badMarshal struct{}

func (badMarshal) MarshalJSON() ([]byte, error) { return nil, errors.New("cannot") }

func rangeTags(c ctx.C) ([]string, error) {
	var out []string
	err := ctx.RangeTag(c, func(k string, j ctx.JSON) error {
		out = append(out, k+"="+string(j))
		return nil
	})
	return out, err
}

// a key of its own type, whatever it reads like
type lookalikeKey string

func (k lookalikeKey) String() string { return string(k) }

func c43(r *R) {
	type vk struct{ n int }
	for i := 0; i < r.N(300, 8000); i++ {
		rng := r.Sub("tags", i)
		nodes := []*ctxModel{{c: context.Background()}}
		var cancels []func()
		var spoil [][]byte
		var change []func()
		for s := 0; s < 25; s++ {
			p := nodes[rng.Intn(len(nodes))]
			if rng.Intn(3) > 0 {
				p = nodes[len(nodes)-1] // deep chains
			}
			n := &ctxModel{tags: p.tags[:len(p.tags):len(p.tags)], up: p}
			switch k := rng.Intn(16); {
			case k == 0:
				c, cf := ctx.WithCancel(p.c)
				n.c = c
				cancels = append(cancels, func() { cf(errors.New("x")) })
				n.desc = "cancel"
			case k == 1:
				c, cf := ctx.WithTimeout(p.c, time.Hour)
				n.c = c
				cancels = append(cancels, cf)
				n.desc = "timeout"
			case k == 2:
				// some keys look like the name of a tag
				key := []any{vk{s}, lookalikeKey("a"), lookalikeKey("tags"), lookalikeKey(""), &s}[rng.Intn(5)]
				n.c = ctx.WithValue(p.c, key, s)
				n.vals = map[any]int{key: s}
				n.desc = "value"
			case k == 3:
				n.c = ctx.Detach(p.c)
				n.desc = "detach"
			case k == 4:
				n.c = context.WithoutCancel(p.c)
				n.desc = "without"
			case k == 5:
				id := fmt.Sprint("id", s)
				n.c = ctx.WithTracking(p.c, id)
				n.tags = append(n.tags, fmt.Sprintf("tracking-id=%q", id))
				n.desc = "tracking"
			case k == 6:
				n.c = log.WithLogFunc(p.c, nil)
				n.desc = "log"
			default:
				key := []string{"a", "b", "", "tags", "é", "a b"}[rng.Intn(6)]
				var val any
				var want string
				switch rng.Intn(9) {
				case 0:
					s := genString(rng)
					j, _ := json.Marshal(s)
					val, want = s, string(j)
				case 1:
					val, want = s, fmt.Sprint(s)
				case 2:
					val, want = nil, "null"
				case 3:
					b := []byte(fmt.Sprintf(`{"raw":%d}`, s))
					val, want = json.RawMessage(b), string(b)
					spoil = append(spoil, b)
				case 4:
					b := []byte(fmt.Sprintf(`[%d]`, s))
					val, want = ctx.JSON(b), string(b)
					spoil = append(spoil, b)
				case 5:
					b := []byte(fmt.Sprintf(`"bytes%d"`, s))
					val, want = b, string(b)
					spoil = append(spoil, b)
				case 6:
					b := [][]byte{[]byte(fmt.Sprintf(`not json %d`, s)), []byte(`{"cut":`), []byte(`[1,`), []byte(`{}{}`), []byte(`"open`), []byte(`1 2`), {}, nil, {0xff, 0}, []byte(`nul`), []byte(` `), []byte(`{"a":1}x`)}[rng.Intn(12)]
					j, _ := json.Marshal(b)
					val, want = b, string(j)
				case 7:
					val, want = badMarshal{}, "!"
				default:
					m := map[string]any{"k": []int{s, 1}, "n": nil}
					j, _ := json.Marshal(m)
					val, want = m, string(j)
					if rng.Intn(2) == 0 {
						val = &m
					}
					change = append(change, func() { m["k"].([]int)[0], m["later"] = -1, true })
				}
				n.c = ctx.WithTag(p.c, key, val)
				n.tags = append(n.tags, key+"="+want)
				n.desc = "tag"
			}
			nodes = append(nodes, n)
		}
		for _, b := range spoil {
			for j := range b {
				b[j] = 'X'
			}
		}
		for _, f := range change {
			f()
		}
		order := rng.Perm(len(nodes))
		if i%4 == 0 {
			for _, f := range cancels {
				f()
			}
		}
		check := func(n *ctxModel) {
			got, err := rangeTags(n.c)
			if err != nil {
				r.Fail("range", "RangeTag: %v", err)
				return
			}
			ok := len(got) == len(n.tags)
			for j := 0; ok && j < len(got); j++ {
				w := n.tags[j]
				if strings.HasSuffix(w, "=!") {
					_, j, _ := strings.Cut(got[j], "=")
					ok = json.Valid([]byte(j)) && strings.HasPrefix(got[0][0:0]+j, `"`)
				} else {
					ok = got[j] == w
				}
			}
			if !ok {
				r.Fail("tags", "got  %q\nwant %q", got, n.tags)
				return
			}
			vals := map[any]int{}
			for a := n; a != nil; a = a.up {
				for k, v := range a.vals {
					if _, ok := vals[k]; !ok {
						vals[k] = v
					}
				}
			}
			for k, v := range vals {
				if n.c.Value(k) != v {
					r.Fail("hidden", "tags %q: the value of the key %T %v is %v, it was given %d", n.tags, k, k, n.c.Value(k), v)
				}
			}
			last := map[string]string{}
			for _, t := range got {
				k, j, _ := strings.Cut(t, "=")
				last[k] = j
			}
			for k, j := range last { // and by name, the last given
				if v, ok := n.c.Value(k).(ctx.JSON); !ok || string(v) != j {
					r.Fail("value", "tag %q is %s, its value %v", k, j, n.c.Value(k))
				}
			}
			if len(n.tags) > 0 {
				stop := rng.Intn(len(n.tags))
				calls := 0
				boom := []error{errors.New("boom"), io.EOF, context.Canceled, utils.EOD{}, fmt.Errorf("end: %w", io.EOF), os.ErrDeadlineExceeded, errors.New("")}[rng.Intn(7)]
				err := ctx.RangeTag(n.c, func(string, ctx.JSON) error {
					if calls == stop {
						return boom
					}
					calls++
					return nil
				})
				if err != boom || calls != stop {
					r.Fail("stop", "RangeTag: %v after %d calls, want boom after %d", err, calls, stop)
				}
			}
		}
		if i%10 == 0 {
			r.Par("tags", "reading one tree from several goroutines", 4, func(p int) {
				for _, j := range order {
					got, err := rangeTags(nodes[j].c)
					if err != nil || len(got) != len(nodes[j].tags) {
						r.Fail("tags", "got %q %v, want %q", got, err, nodes[j].tags)
					}
					_ = ctx.WithTag(nodes[j].c, "more", p)
				}
			})
		}
		for _, j := range order {
			check(nodes[j])
		}
		r.Eval(fmt.Sprint(nodes[len(nodes)-1].tags))
		r.Count("contexts", int64(len(nodes)))
		if i < 2 {
			r.Sample("%q", nodes[len(nodes)-1].tags)
		}
		for _, f := range cancels {
			f()
		}
		if r.Failed() {
			return
		}
	}
	// JSON keeps what it was given
	for i := 0; i < 200; i++ {
		rng := r.Sub("json", i)
		var want []string
		var in strings.Builder
		for k := 0; k < 1+rng.Intn(40); k++ {
			j, _ := json.Marshal(map[string]any{"k": genString(rng), "n": k})
			want = append(want, string(j))
			in.Write(j)
			in.WriteByte('\n')
		}
		dec := json.NewDecoder(strings.NewReader(in.String()))
		var got []ctx.JSON
		for dec.More() {
			var j ctx.JSON
			if err := dec.Decode(&j); err != nil {
				r.Fail("json", "%v", err)
				return
			}
			got = append(got, j)
		}
		for k := range want {
			if k >= len(got) || string(got[k]) != want[k] {
				r.Fail("json", "value %d of a stream, read into ctx.JSON, is now %q, want %q", k, got[k], want[k])
				return
			}
		}
		b, _ := json.Marshal(got)
		if string(b) != "["+strings.Join(want, ",")+"]" {
			r.Fail("json", "written back as %s", b)
		}
		r.Eval(in.String())
	}
}

// ---------------------------------------------------------------- C44

func c44(r *R) {
	type vk struct{}
	for i := 0; i < r.N(600, 10000); i++ {
		rng := r.Sub("detach", i)
		c0 := ctx.WithTag(ctx.WithValue(context.Background(), vk{}, i), "t", i)
		more := map[lookalikeKey]any{"t": io.EOF, "err": context.Canceled, "done": (<-chan struct{})(nil), "zero": 0, "time": time.Time{}}
		for k, v := range more {
			c0 = ctx.WithValue(c0, k, v)
		}
		var parent ctx.C
		var stop func()
		var kind string
		cause := fmt.Errorf("cause %d", i)
		switch rng.Intn(4) {
		case 0:
			c, cf := ctx.WithCancel(c0)
			parent, stop, kind = c, func() { cf(cause) }, "cancel"
		case 1:
			c, cf := ctx.WithTimeout(c0, time.Duration(rng.Intn(3))*time.Millisecond)
			parent, stop, kind = c, func() { <-c.Done(); cf() }, "timeout"
		case 2:
			c, cf := ctx.WithDeadline(c0, time.Now().Add(-time.Second))
			parent, stop, kind = c, cf, "past deadline"
		default:
			c, cf := ctx.WithCancel(c0)
			cf.Exit()
			parent, stop, kind = c, func() {}, "already cancelled"
		}
		if rng.Intn(2) == 0 {
			parent = ctx.WithTag(parent, "u", "v")
		}
		before := rng.Intn(2) == 0
		if !before {
			stop()
		}
		d := ctx.Detach(parent)
		if rng.Intn(4) == 0 {
			d = ctx.Detach(d)
		}
		child, ccf := ctx.WithCancel(d)
		tchild, tcf := ctx.WithTimeout(d, time.Hour)
		tagged := ctx.WithTag(d, "w", 1)
		bg := make(chan struct{})
		if rng.Intn(4) == 0 {
			go func() { defer close(bg); stop() }()
		} else {
			stop()
			close(bg)
		}
		for _, x := range []struct {
			name string
			c    ctx.C
		}{{"the detached context", d}, {"its child", child}, {"its child with a timeout", tchild}, {"its tagged child", tagged}} {
			if err := x.c.Err(); err != nil {
				r.Fail("leak", "%s, parent %s: %s has Err %v", kind, context.Cause(parent), x.name, err)
			}
			if err := ctx.Cause(x.c); err != nil {
				r.Fail("leak-cause", "%s: %s has cause %v although it is not cancelled", kind, x.name, err)
			}
			select {
			case <-x.c.Done():
				r.Fail("leak", "%s: %s is done", kind, x.name)
			default:
			}
			if x.c.Value(vk{}) != i {
				r.Fail("value", "%s: %s lost a value", kind, x.name)
			}
			for k, v := range more {
				if x.c.Value(k) != v {
					r.Fail("value", "%s: %s lost the value of %q", kind, x.name, k)
				}
			}
			if got, _ := rangeTags(x.c); len(got) == 0 || got[0] != fmt.Sprintf("t=%d", i) {
				r.Fail("value", "%s: %s lost the tags: %q", kind, x.name, got)
			}
		}
		for _, x := range []ctx.C{d, child, tagged} {
			if t, ok := x.Deadline(); ok {
				r.Fail("leak-deadline", "%s: deadline %v", kind, t)
			}
		}
		<-bg
		if parent.Err() == nil {
			r.Fail("parent", "%s: the parent is not cancelled", kind)
		}
		// its own children are cancelled as usual, with their cause
		own := errors.New("own")
		ccf(own)
		select {
		case <-child.Done():
		default:
			r.Fail("own", "cancelling a child of a detached context has no effect")
		}
		if ctx.Cause(child) != own {
			r.Fail("own", "cause %v, want its own", ctx.Cause(child))
		}
		tcf()
		if tchild.Err() == nil || d.Err() != nil || ctx.Cause(d) != nil {
			r.Fail("own", "child %v, detached %v %v", tchild.Err(), d.Err(), ctx.Cause(d))
		}
		r.Eval(fmt.Sprint(i, kind, before))
		r.Count("contexts", 5)
	}
}

// ---------------------------------------------------------------- C45

func c45(r *R) {
	c45long(r)
	for i := 0; i < r.N(150, 3000); i++ {
		rng := r.Sub("span", i)
		suggest := []string{"", "abc", "é-" + fmt.Sprint(i), "x.1", " ", genString(rng), strings.Repeat("long ", 1+rng.Intn(2000))}[rng.Intn(7)]
		root := ctx.WithTracking(context.Background(), suggest)
		id := ctx.GetTracking(root)
		if id == "" || (suggest != "" && id != suggest) {
			r.Fail("id", "WithTracking(%q) has id %q", suggest, id)
		}
		if x := ctx.GetTracking(context.Background()); x != "" {
			r.Fail("id", "an untracked context has id %q", x)
		}
		other := ctx.WithTracking(context.Background(), "")
		if ctx.GetTracking(other) == id {
			r.Fail("unique", "two contexts were given the same id %q", id)
		}
		if rng.Intn(2) == 0 {
			root = ctx.WithTag(root, "t", 1)
		}
		var mu gosync.Mutex
		ids := map[string]string{id: "root"}
		workers := 1 + rng.Intn(5)
		base := rng.Int63()
		r.Par("span", "opening spans", workers, func(p int) {
			rg := rand.New(rand.NewSource(base + int64(p)))
			var open func(c ctx.C, depth int)
			open = func(c ctx.C, depth int) {
				pid := ctx.GetTracking(c)
				for k := 1 + rg.Intn(4); k > 0; k-- {
					parent := c
					if rg.Intn(3) == 0 {
						parent = ctx.WithTag(ctx.WithValue(c, struct{}{}, 1), "z", 2)
					}
					s, cf := ctx.Span(parent, "work")
					sid := ctx.GetTracking(s)
					if !strings.HasPrefix(sid, pid+".") || len(sid) == len(pid)+1 {
						r.Fail("extend", "a span of %q has id %q", pid, sid)
					}
					mu.Lock()
					if _, dup := ids[sid]; dup {
						r.Fail("unique", "two spans have the id %q", sid)
					}
					ids[sid] = pid
					mu.Unlock()
					tags, _ := rangeTags(s)
					last := ""
					for _, t := range tags {
						if strings.HasPrefix(t, "tracking-id=") {
							last = t
						}
					}
					j, _ := json.Marshal(sid)
					if last != "tracking-id="+string(j) {
						r.Fail("tag", "span %q is tagged %q", sid, last)
					}
					if ctx.GetTracking(c) != pid {
						r.Fail("parent", "opening a span changed its parent's id")
					}
					if depth > 0 {
						open(s, depth-1)
					}
					boom := fmt.Errorf("end %s", sid)
					cf(boom)
					if x := ctx.GetTracking(s); x != sid {
						r.Fail("ended", "span %q has id %q once it ended", sid, x)
					}
					if s.Err() == nil || ctx.Cause(s) != boom {
						r.Fail("end", "a span ended with %v has Err %v cause %v", boom, s.Err(), ctx.Cause(s))
					}
					if parent.Err() != nil {
						r.Fail("end", "ending a span ended its parent")
					}
				}
			}
			open(root, 2)
		})
		// a span without tracking still gets an id of its own
		s1, cf1 := ctx.Span(context.Background(), "alone")
		s2, cf2 := ctx.Span(context.Background(), "alone")
		if a, b := ctx.GetTracking(s1), ctx.GetTracking(s2); a == "" || a == b {
			r.Fail("unique", "spans out of nothing have ids %q and %q", a, b)
		}
		cf1.Exit()
		cf2.Exit()
		r.Eval(fmt.Sprint(i, len(ids)))
		r.Count("spans", int64(len(ids)))
		if i < 2 {
			r.Sample("%d spans from %d goroutines below %q", len(ids), workers, id)
		}
		if r.Failed() {
			return
		}
	}
}

// c45long: contexts that live long, and spans far down
func c45long(r *R) {
	rng := r.Sub("long", 0)
	root := ctx.WithTracking(context.Background(), "root")
	var mu gosync.Mutex
	ids := map[string]bool{"root": true}
	n := r.N(400, 50000)
	r.Par("span", "a context of many spans", 4, func(p int) {
		for i := 0; i < n; i++ {
			s, cf := ctx.Span(root, "one")
			id := ctx.GetTracking(s)
			mu.Lock()
			dup := ids[id]
			ids[id] = true
			mu.Unlock()
			if dup || !strings.HasPrefix(id, "root") {
				r.Fail("unique", "span %q of a long-lived context: seen before %v", id, dup)
				return
			}
			cf.Exit()
		}
	})
	r.Count("spans", int64(len(ids)))
	for k := 0; k < r.N(4, 20); k++ {
		at := ctx.WithTracking(context.Background(), "")
		ids := map[string]bool{ctx.GetTracking(at): true}
		for d := 0; d < 300; d++ {
			next := at
			for b := 1 + rng.Intn(3); b > 0; b-- {
				s, cf := ctx.Span(at, "down")
				defer cf.Exit()
				id, pid := ctx.GetTracking(s), ctx.GetTracking(at)
				if ids[id] || !strings.HasPrefix(id, pid) {
					r.Fail("unique", "span %q at depth %d below %q: seen before %v", id, d, pid, ids[id])
					return
				}
				ids[id] = true
				next = s
			}
			at = next
		}
		r.Eval(fmt.Sprint("deep", k, len(ids)))
		r.Count("spans", int64(len(ids)))
	}
}

// ---------------------------------------------------------------- C46

type myErr struct{ code int }

func (e myErr) Error() string { return fmt.Sprint("my ", e.code) }

type ptrErr struct{ s string }

func (e *ptrErr) Error() string { return "ptr " + e.s }

type foreignWrap struct {
	msg string
	in  error
}

func (e foreignWrap) Error() string { return e.msg + e.in.Error() }
func (e foreignWrap) Unwrap() error { return e.in }
func (e foreignWrap) Is(t error) bool {
	k, ok := t.(foreignKind)
	return ok && string(k) == e.msg
}
func (e foreignWrap) As(t any) bool {
	k, ok := t.(*foreignKind)
	if ok {
		*k = foreignKind(e.msg)
	}
	return ok
}

// foreignKind is never in a chain: a foreignWrap says it is one.
type foreignKind string

func (k foreignKind) Error() string { return string(k) }

// callersNow gives the frames above its caller.
//
//go:noinline
func callersNow() (out []string) {
	pcs := make([]uintptr, 200)
	frames := runtime.CallersFrames(pcs[:runtime.Callers(3, pcs)])
	for {
		f, more := frames.Next()
		out = append(out, fmt.Sprintf("%s:%d", f.File, f.Line))
		if !more {
			return out
		}
	}
}

// both make the error from within depth calls of themselves, and give the stack it should have

//go:noinline
func mkErrorf(depth int, c ctx.C, f string, args ...any) (error, []string) {
	if depth > 0 {
		return mkErrorf(depth-1, c, f, args...)
	}
	_, file, line, _ := runtime.Caller(0)
	return ctx.NewErrorf(c, f, args...), append([]string{fmt.Sprintf("%s:%d", file, line+1)}, callersNow()...)
}

//go:noinline
func mkWrap(depth int, c ctx.C, err error) (error, []string) {
	if depth > 0 {
		return mkWrap(depth-1, c, err)
	}
	_, file, line, _ := runtime.Caller(0)
	return ctx.WrapError(c, err), append([]string{fmt.Sprintf("%s:%d", file, line+1)}, callersNow()...)
}

func c46(r *R) {
	if err := ctx.WrapError(context.Background(), nil); err != nil {
		r.Fail("nil", "WrapError(nil) = %v", err)
	}
	for i := 0; i < r.N(2000, 50000); i++ {
		rng := r.Sub("err", i)
		c := ctx.WithTag(context.Background(), "n", i)
		var base error
		var first []string // the stack where it was taken
		var firstC ctx.C
		switch rng.Intn(5) {
		case 0:
			base = io.EOF
		case 1:
			base = myErr{i}
		case 4: // somebody made a pointer of one
			inner, at := mkWrap(rng.Intn(4), c, errors.New(genString(rng)))
			ce, ok := inner.(ctx.Error)
			if !ok {
				continue
			}
			base, first, firstC = &ce, at, c
		case 2:
			base = &ptrErr{fmt.Sprint(i)}
		default:
			base = errors.New(genString(rng))
		}
		err := base
		text := base.Error()
		steps := []string{fmt.Sprintf("%T", base)}
		parts := []error{base}
		foreigns, outermost := map[string]bool{}, ""
		for s := 1 + rng.Intn(5); s > 0; s-- {
			cc := ctx.WithTag(c, "step", s)
			if rng.Intn(8) == 0 {
				cc = nil
			}
			var at []string
			switch rng.Intn(7) {
			case 0, 1:
				err, at = mkErrorf(rng.Intn(4), cc, "w%d %q: %w", s, text, err)
				text = fmt.Sprintf("w%d %q: %s", s, text, text)
				steps = append(steps, "NewErrorf")
			case 2, 3:
				err, at = mkWrap(rng.Intn(4), cc, err)
				steps = append(steps, "WrapError")
			case 4:
				err = fmt.Errorf("std: %w", err)
				text = "std: " + text
				steps = append(steps, "Errorf")
			case 5:
				outermost = fmt.Sprint("foreign", s, " ")
				foreigns[outermost] = true
				err = foreignWrap{outermost, err}
				text = outermost + text
				steps = append(steps, "foreign")
			default:
				err = errors.Join(err, errors.New("other"))
				text += "\nother"
				steps = append(steps, "Join")
			}
			switch e := err.(type) {
			case ctx.Error:
				parts = append(parts, e.Err)
			case foreignWrap:
			default:
				parts = append(parts, e)
			}
			if at != nil && first == nil {
				first, firstC = at, cc
			}
		}
		show := strings.Join(steps, " > ")
		if err.Error() != text {
			r.Fail("text", "%s: text %q, want %q", show, err.Error(), text)
		}
		for _, part := range parts {
			if _, ok := part.(foreignWrap); !ok && !errors.Is(err, part) {
				r.Fail("is", "%s: errors.Is no longer finds %T %v, which was wrapped (%v)", show, part, part, err)
			}
			if errors.Is(err, errors.New(part.Error())) {
				r.Fail("is", "%s: errors.Is finds an error that reads like %T %v", show, part, part)
			}
		}
		for s := 1; s <= 5; s++ {
			k := fmt.Sprint("foreign", s, " ")
			if errors.Is(err, foreignKind(k)) != foreigns[k] {
				r.Fail("is", "%s: an error of kind %q is %v", show, k, !foreigns[k])
			}
		}
		var fw foreignWrap
		var fk foreignKind
		if errors.As(err, &fw) != (outermost != "") || fw.msg != outermost {
			r.Fail("as", "%s: errors.As finds %q, want %q", show, fw.msg, outermost)
		}
		if errors.As(err, &fk) != (outermost != "") || string(fk) != outermost {
			r.Fail("as", "%s: errors.As finds kind %q, want %q", show, fk, outermost)
		}
		for _, x := range []error{ctx.Error{}, &ctx.Error{}} {
			if errors.Is(err, x) != (first != nil) {
				r.Fail("is-ctx", "%s: being an error with a context is %v for %T", show, first == nil, x)
			}
		}
		var me myErr
		var pe *ptrErr
		switch b := base.(type) {
		case myErr:
			if !errors.As(err, &me) || me != b {
				r.Fail("as", "%s: errors.As no longer finds what was wrapped", show)
			}
		case *ptrErr:
			if !errors.As(err, &pe) || pe != b {
				r.Fail("as", "%s: errors.As no longer finds what was wrapped", show)
			}
		}
		if errors.Is(err, io.ErrUnexpectedEOF) {
			r.Fail("is", "%s: errors.Is finds what was never there", show)
		}
		var ce ctx.Error
		has := errors.As(err, &ce)
		if pce, ok := base.(*ctx.Error); ok {
			if has {
				r.Fail("once", "%s: a second stack in the chain", show)
			}
			var got *ctx.Error
			if has = errors.As(err, &got); got != pce {
				r.Fail("as", "%s: errors.As no longer finds what was wrapped", show)
			} else {
				ce = *got
			}
		}
		if has != (first != nil) {
			r.Fail("stack", "%s: carries a stack: %v", show, has)
		} else if has {
			if n := min(len(ce.Stack), len(first)); n == 0 || !reflect.DeepEqual(ce.Stack[:n], first[:n]) {
				r.Fail("stack", "%s: the stack is %q, the error was first wrapped at %q", show, ce.Stack, first)
			}
			n := 0
			var count func(e error)
			count = func(e error) {
				switch e.(type) {
				case ctx.Error, *ctx.Error:
					n++
				}
				switch u := e.(type) {
				case interface{ Unwrap() error }:
					if x := u.Unwrap(); x != nil {
						count(x)
					}
				case interface{ Unwrap() []error }:
					for _, x := range u.Unwrap() {
						count(x)
					}
				}
			}
			count(err)
			if n != 1 {
				r.Fail("once", "%s: %d stacks in the chain", show, n)
			}
			tags, _ := rangeTags(ce.C)
			want, _ := rangeTags(firstC)
			if fmt.Sprint(tags) != fmt.Sprint(want) {
				r.Fail("context", "%s: carries context %q, want %q", show, tags, want)
			}
		}
		r.Eval(show + text)
		if i < 3 {
			r.Sample("%s: %q, stack from %.1q", show, text, first)
		}
		if r.Failed() {
			return
		}
	}
	// several verbs, several errors
	e1, e2 := myErr{1}, &ptrErr{"2"}
	err := ctx.NewErrorf(nil, "%w and %w at %d%%", e1, e2, 3)
	if !errors.Is(err, e1) || !errors.Is(err, e2) || err.Error() != "my 1 and ptr 2 at 3%" {
		r.Fail("is", "two wrapped errors: %v", err)
	}
}

// ---------------------------------------------------------------- C54

//go:noinline
func stackAt(depth int, f func()) {
	if depth == 0 {
		f()
		return
	}
	stackAt(depth-1, f)
}

type frameMethods struct{ a int }

func (frameMethods) value() utils.StackFrame    { return utils.Caller(0) }
func (*frameMethods) pointer() utils.StackFrame { return utils.Caller(0) }

func frameGeneric[T any](T) utils.StackFrame { return utils.Caller(0) }

type genericFrame[T any] struct{}

func (genericFrame[T]) method() utils.StackFrame { return utils.Caller(0) }

// small enough to be inlined into their callers
func stackInline(n int) []string { return utils.Stack(n, 5) }

// (three lines below, so that the lines differ)
func frameInline(n int) any { return utils.Caller(n) }

func c54(r *R) {
	for i := 0; i < r.N(1500, 30000); i++ {
		rng := r.Sub("gate", i)
		other := errors.New("other")
		wrap := func(e error) error {
			switch rng.Intn(4) {
			case 0:
				return fmt.Errorf("std: %w", e)
			case 1:
				return ctx.WrapError(context.Background(), e)
			case 2:
				return foreignWrap{"f", e}
			}
			return e
		}
		depth := 1 + rng.Intn(4)
		target := rng.Intn(depth + 2) // which gate's error is returned by the innermost; depth: nil, depth+1: other
		var gates []error
		var reached []int
		innermost := wrap(other)
		var run func(d int) error
		run = func(d int) error {
			return utils.ErrorGate(func(g error) error {
				if g == nil {
					r.Fail("gate", "no error given")
				}
				gates = append(gates, g)
				if d+1 < depth {
					if err := run(d + 1); err != nil {
						return wrap(err)
					}
					reached = append(reached, d) // goes on after the inner gate
					return nil
				}
				switch {
				case target < depth:
					return wrap(gates[target])
				case target == depth:
					return nil
				}
				return innermost
			})
		}
		err := run(0)
		// the gate of the error traps it; those inside pass it on
		want := []int{}
		switch {
		case target < depth:
			for d := target - 1; d >= 0; d-- {
				want = append(want, d)
			}
			if err != nil {
				r.Fail("trap", "depth %d, the error of gate %d came out: %v", depth, target, err)
			}
		case target == depth:
			for d := depth - 2; d >= 0; d-- {
				want = append(want, d)
			}
			if err != nil {
				r.Fail("trap", "nothing failed, but: %v", err)
			}
		default:
			if !errors.Is(err, other) {
				r.Fail("trap", "another error was lost: %v", err)
			}
		}
		if fmt.Sprint(reached) != fmt.Sprint(want) {
			r.Fail("nested", "depth %d, the innermost returned the error of gate %d: functions %v went on after their inner gate, want %v", depth, target, reached, want)
		}
		r.Eval(fmt.Sprint(i, depth, target))
		r.Count("gates", int64(depth))
	}
	// frames of calls within longer expressions, and of functions the compiler inlines
	_, file, line, _ := runtime.Caller(0)
	at := func(n int) string { return fmt.Sprintf("%s:%d", file, line+n) }
	pick := func(a, b []string) []string { return a }
	st := pick(
		stackInline(0), // line+4
		nil,
	)
	call := utils.Caller
	frames := []struct {
		Func, File string
		Line       int
	}{}
	for _, f := range []any{
		call(0), // line+13
		frameInline(0),
		frameInline(1), // line+15
	} {
		j, _ := json.Marshal(f)
		x := frames[:0:0]
		_ = json.Unmarshal([]byte("["+string(j)+"]"), &x)
		frames = append(frames, x...)
	}
	if len(st) < 2 || st[1] != at(4) {
		r.Fail("stack", "Stack from an inlined function called on %s: %v", at(4), st[:min(2, len(st))])
	}
	for i, want := range []string{at(13), "", at(15)} {
		if got := fmt.Sprintf("%s:%d", frames[i].File, frames[i].Line); want != "" && got != want {
			r.Fail("caller", "Caller names %s, want %s", got, want)
		}
	}
	if st[0] != fmt.Sprintf("%s:%d", frames[1].File, frames[1].Line-3) {
		r.Fail("stack", "Stack and Caller disagree on inlined functions: %s, %+v", st[0], frames[1])
	}
	r.Count("inlined_frames", 3)
	// the parts of a frame
	var fm frameMethods
	for _, x := range []struct {
		f           utils.StackFrame
		name, short string
	}{
		{frameInline(0).(utils.StackFrame), "frameInline", "main.frameInline"},
		{fm.value(), "value", "main.frameMethods.value"},
		{(&fm).pointer(), "pointer", "main.(*frameMethods).pointer"},
		{frameGeneric(1), "frameGeneric", "main.frameGeneric[...]"},
		{frameGeneric(map[string]utils.StackFrame{}), "frameGeneric", "main.frameGeneric[...]"},
		{genericFrame[int]{}.method(), "method", "main.genericFrame[...].method"},
	} {
		f := x.f
		if f.FuncName() != x.name || f.ShortFunc() != x.short {
			r.Fail("frame", "%+v: function %q, short %q, want %q and %q", f, f.FuncName(), f.ShortFunc(), x.name, x.short)
		}
		if want := fmt.Sprintf("%s:%d", f.File, f.Line); f.FileLine() != want || f.File != file {
			r.Fail("frame", "%+v: at %q, want %q", f, f.FileLine(), want)
		}
		if f.Pkg() != filepath.Dir(file) || f.AbsFile() != file {
			r.Fail("frame", "%+v: package %q, file %q", f, f.Pkg(), f.AbsFile())
		}
		r.Eval("frame" + x.short)
	}
	// stacks
	for d := 0; d < 12; d++ {
		stackAt(d, func() {
			_, file, line, _ := runtime.Caller(0)
			here := fmt.Sprintf("%s:%d", file, line+2)
			st := utils.Stack(0, 30)
			f := utils.Caller(0)
			if len(st) == 0 || st[0] != here {
				r.Fail("stack", "Stack begins at %v, want %s", st[:min(1, len(st))], here)
			}
			if f.Line != line+3 || f.File != file || !strings.Contains(f.Func, "c54") {
				r.Fail("caller", "Caller(0) = %+v", f)
			}
			n := 0
			for _, s := range st {
				if strings.Contains(s, "p_misc3.go") {
					n++
				}
			}
			if n != d+3 { // this function, d+1 frames of stackAt, c54
				r.Fail("stack", "%d frames of the workload at depth %d: %v", n, d, st)
			}
			for max := 0; max < 4; max++ {
				if x := utils.Stack(0, max); len(x) != max {
					r.Fail("stack", "Stack(0, %d) has %d entries", max, len(x))
				}
			}
			if x := utils.Stack(1000, 5); len(x) != 0 {
				r.Fail("stack", "Stack beyond the end: %v", x)
			}
			_ = utils.Caller(1000)
		})
		r.Eval(fmt.Sprint("stack", d))
	}
}
