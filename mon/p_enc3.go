package main

import (
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/Aize-Public/forego/ctx"
	"github.com/Aize-Public/forego/enc"
)

func init() {
	reg("C08", "groups of goroutines marshalling, encoding, decoding and unmarshalling shared immutable values, types and nodes (hooks and raw messages included) under the race detector, each result compared with the sequential one; non-trivial: distinct (operation, value) run by at least 4 goroutines", c08)
	reg("C09", "random instants in random zones and random durations, as Go values, nodes, struct fields and JSON; non-trivial: distinct instant/duration and shape", c09)
	reg("C10", "types with their own node or JSON conversion placed at random depths in structs, slices, arrays, maps, pointers and dynamic values, plus type factories; every hook call is recorded; non-trivial: distinct nesting", c10)
	reg("C11", "random schedules of writers, readers, cancellations and closes over pipes of random capacity; non-trivial: distinct (capacity, counts, close order)", c11)
}

var errnoValue = syscall.ENOENT

func nilTime() *time.Time { return nil }

func ptrTo[T any](t T) *T { return &t }

// hookVal writes itself as the node it holds.
type hookVal struct{ n enc.Node }

func (h hookVal) MarshalNode(c ctx.C) (enc.Node, error) { return h.n, nil }
func (h *hookVal) UnmarshalNode(c ctx.C, n enc.Node) error {
	h.n = n
	return nil
}

// jsonVal writes itself as JSON text.
type jsonVal struct{ S string }

func (h jsonVal) MarshalJSON() ([]byte, error) { return json.Marshal("J:" + h.S) }
func (h *jsonVal) UnmarshalJSON(j []byte) error {
	var s string
	if err := json.Unmarshal(j, &s); err != nil {
		return err
	}
	if !strings.HasPrefix(s, "J:") {
		return fmt.Errorf("no prefix in %q", s)
	}
	h.S = s[2:]
	return nil
}

type nilFields struct {
	T *time.Time
	D *enc.Duration
	H *hookVal
	J *jsonVal
	E *ctx.Error
	R *json.RawMessage
}

func genOddNode(g *rand.Rand, depth int) enc.Node {
	switch g.Intn(9) {
	case 0:
		return enc.Time(time.Unix(g.Int63n(4e9), g.Int63n(1e9)))
	case 1:
		return enc.Duration(g.Int63())
	case 2:
		return enc.Float(genFloat(g, 64))
	case 3:
		return enc.Integer(genIntBits(g, 64))
	case 4:
		if depth > 0 {
			return enc.List{genOddNode(g, depth-1)}
		}
		return enc.List{}
	case 5:
		if depth > 0 {
			return enc.Map{genString(g): genOddNode(g, depth-1)}
		}
		return enc.Map{}
	default:
		n, _ := genNodeTree(g, depth)
		return n
	}
}

// ---------------------------------------------------------------- C08

type c08T struct {
	A   int               `json:"a"`
	S   string            `json:"s,omitempty"`
	R   json.RawMessage   `json:"r"`
	J   jsonVal           `json:"j"`
	H   hookVal           `json:"h"`
	T   time.Time         `json:"t"`
	D   enc.Duration      `json:"d"`
	M   map[string]any    `json:"m"`
	L   []*c08T           `json:"l"`
	P   *int              `json:"p"`
	N   enc.Node          `json:"n"`
	MI  map[int][]float64 `json:"mi"`
	Any any               `json:"any"`
}

func genC08(g *rand.Rand, depth int) c08T {
	n, _ := genNodeTree(g, 1)
	t := c08T{A: g.Int(), S: genString(g), R: json.RawMessage(genJSON(g, 1)), J: jsonVal{genString(g)}, H: hookVal{enc.String(genString(g))},
		T: time.Unix(g.Int63n(4e9), g.Int63n(1e9)).UTC(), D: enc.Duration(g.Int63n(1e15)), M: map[string]any{"x": genAny(g, 2)}, N: n, P: ptrTo(g.Int()), MI: map[int][]float64{g.Intn(10): {1.5}}, Any: genAny(g, 2)}
	if depth > 0 {
		x := genC08(g, depth-1)
		t.L = []*c08T{&x, nil}
	}
	return t
}

func c08(r *R) {
	c := quietCtx()
	rounds := r.N(60, 1500)
	for i := 0; i < rounds; i++ {
		g := r.Sub("round", i)
		v := genC08(g, 2)
		// a type nobody has seen before: any per-type bookkeeping starts cold
		ft := genStructType(g, 2, typeOpts{namedKinds: true})
		fv := genValue(g, ft, 2)
		workers := 8
		type out struct {
			j, j2, f string
			err      error
		}
		outs := make([]out, workers)
		node := func() enc.Node { n, _ := enc.Marshal(c, v); return n }
		var shared enc.Node
		if i%2 == 0 {
			shared = node() // decoded once, read by all
		} else {
			// the first conversions happen inside the concurrent section
			j, _ := json.Marshal(map[string]any{"a": 1, "r": map[string]any{"x": 1}, "j": "J:z", "h": "h", "d": "1s", "t": "2020-01-02T03:04:05Z"})
			shared, _ = enc.JSON{}.Decode(c, j)
		}
		if i == 0 {
			r.Sample("%s", cut(string(enc.JSON{}.Encode(c, shared)), 300))
		}
		fnode, err := enc.Marshal(c, fv.Interface())
		if err != nil {
			r.Fail("concurrent:error", "%v", err)
			continue
		}
		handler := enc.Handler{UnhandledFields: func(c ctx.C, path []any, n enc.Node) error { return fmt.Errorf("unknown %v", path) }}
		for k := g.Intn(7); k > 0; k-- {
			handler = handler.Append(k)
		}
		r.Par("concurrent", "concurrent conversions", workers, func(w int) {
			var o out
			a, err := enc.MarshalJSON(c, v)
			if err != nil {
				o.err = err
			}
			o.j = canon(a)
			var into c08T
			if err := enc.Unmarshal(c, shared, &into); err != nil {
				o.err = err
			}
			b, err := enc.MarshalJSON(c, into)
			if err != nil {
				o.err = err
			}
			o.j2 = canon(b)
			f, err := enc.MarshalJSON(c, fv.Interface())
			if err != nil {
				o.err = err
			}
			fi := reflect.New(ft)
			if err := enc.UnmarshalJSON(c, f, fi.Interface()); err != nil {
				o.err = err
			}
			if !deepEq(fi.Elem().Interface(), fv.Interface()) {
				o.err = fmt.Errorf("round trip of %v differs", ft)
			}
			o.f = canon(f)
			_ = shared.String()
			_ = shared.GoString()
			// one handler serves them all
			fi = reflect.New(reflect.SliceOf(ft))
			if err := handler.Append("worker").Unmarshal(c, enc.List{fnode, fnode}, fi.Interface()); err != nil {
				o.err = err
			} else if fi.Elem().Len() != 2 || !deepEq(fi.Elem().Index(1).Interface(), fv.Interface()) && !hasAny(ft) {
				o.err = fmt.Errorf("list of %v through a shared handler differs", ft)
			}
			outs[w] = o
		})
		r.Count("goroutines", int64(workers))
		// sequential reference, afterwards
		a, err := enc.MarshalJSON(c, v)
		if err != nil {
			r.Fail("concurrent:error", "%v", err)
			continue
		}
		var into c08T
		_ = enc.Unmarshal(c, shared, &into)
		b, _ := enc.MarshalJSON(c, into)
		for w, o := range outs {
			r.Eval(fmt.Sprintf("%d/%d", i, w))
			if o.err != nil {
				r.Fail("concurrent:error", "round %d worker %d: %v", i, w, o.err)
			} else if o.j != canon(a) || o.j2 != canon(b) {
				r.Fail("concurrent:value", "round %d worker %d: %s / %s, alone %s / %s", i, w, o.j, o.j2, canon(a), canon(b))
			}
		}
	}
}

func canon(b []byte) string {
	x, err := decodeStd(b)
	if err != nil {
		return "!" + string(b)
	}
	j, _ := json.Marshal(x)
	return string(j)
}

// ---------------------------------------------------------------- C09

type myTime time.Time
type timeHolder struct {
	T  time.Time      `json:"t"`
	P  *time.Time     `json:"p"`
	E  enc.Time       `json:"e"`
	D  enc.Duration   `json:"d"`
	PD *enc.Duration  `json:"pd,omitempty"`
	L  []time.Time    `json:"l"`
	DL []enc.Duration `json:"dl"`
}

type myDur32 int32

func mustJSON(v any) []byte {
	j, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	return j
}

func c09(r *R) {
	c := quietCtx()
	zones := []*time.Location{time.UTC, time.FixedZone("", 9*3600), time.FixedZone("X", -(3*3600 + 30*60)), time.FixedZone("Y", 14*3600), time.FixedZone("Z", -12*3600), time.FixedZone("", 60)}
	sameT := func(a, b time.Time) bool {
		_, x := a.Zone()
		_, y := b.Zone()
		return a.Equal(b) && x == y
	}
	for i, n := 0, r.N(3000, 80000); i < n; i++ {
		g := r.Sub("time", i)
		ns := g.Int63n(1e9)
		switch g.Intn(4) {
		case 0:
			ns = 0
		case 1:
			ns = int64(g.Intn(1000)) * 1e6
		case 2:
			ns = []int64{1, 10, 100, 999999999, 100000000}[g.Intn(5)]
		}
		sec := g.Int63n(253402300799-(-62135596800)-100000) - 62135596800 + 90000
		t := time.Unix(sec, ns).In(zones[g.Intn(len(zones))])
		if y := t.Year(); y < 1 || y > 9998 {
			continue
		}
		d := time.Duration(g.Int63())
		switch g.Intn(5) {
		case 0:
			d = time.Duration(g.Int63n(1e6))
		case 1:
			d = -d
		case 2:
			d = time.Duration(g.Intn(5000)) * time.Millisecond
		case 3:
			d = []time.Duration{0, 1, -1, time.Hour, time.Minute, 1<<63 - 1, -1 << 63, 1500 * time.Microsecond}[g.Intn(8)]
		}
		r.Eval(t.String() + d.String())
		if i < 3 {
			r.Sample("%v / %v", t.Format(time.RFC3339Nano), d)
		}
		r.Guard("time:panic", func() string { return fmt.Sprintf("%v %v", t, d) }, func() {
			h := timeHolder{T: t, P: &t, E: enc.Time(t), D: enc.Duration(d), PD: ptrTo(enc.Duration(d)), L: []time.Time{t, t.Add(1)}, DL: []enc.Duration{enc.Duration(d), 0}}
			ok := func(where string, o timeHolder) {
				if !sameT(o.T, t) || o.P == nil || !sameT(*o.P, t) || !sameT(time.Time(o.E), t) || len(o.L) != 2 || !sameT(o.L[1], t.Add(1)) {
					r.Fail("time:value", "%s: %v came back as %+v", where, t.Format(time.RFC3339Nano), o)
				}
				if time.Duration(o.D) != d || o.PD == nil || time.Duration(*o.PD) != d || len(o.DL) != 2 || time.Duration(o.DL[0]) != d || o.DL[1] != 0 {
					r.Fail("time:duration", "%s: %v came back as %+v", where, d, o)
				}
			}
			j, err := enc.MarshalJSON(c, h)
			if err != nil {
				r.Fail("time:marshal", "%v", err)
				return
			}
			var raw struct {
				T, P, E, D string
				PD         *string `json:"pd"`
			}
			if err := json.Unmarshal(j, &raw); err != nil {
				r.Fail("time:format", "%s: %v", j, err)
				return
			}
			for _, s := range []string{raw.T, raw.P, raw.E} {
				if p, err := time.Parse(time.RFC3339Nano, s); err != nil || !sameT(p, t) {
					r.Fail("time:format", "%v written as %q", t.Format(time.RFC3339Nano), s)
				}
			}
			ds := raw.D
			if ds == "" {
				ds = "0s"
			}
			if p, err := time.ParseDuration(ds); err != nil || p != d {
				r.Fail("time:format", "duration %v written as %q", d, raw.D)
			}
			if d == 0 && raw.D != "" {
				r.Fail("time:format", "zero duration written as %q", raw.D)
			}
			// what was there before must not show
			used := func() timeHolder {
				if g.Intn(2) == 0 {
					return timeHolder{}
				}
				t2, d2 := time.Unix(g.Int63n(1e9), 5).In(zones[g.Intn(len(zones))]), enc.Duration(g.Int63n(1e12)+1)
				return timeHolder{T: t2, P: &t2, E: enc.Time(t2), D: d2, PD: &d2, L: []time.Time{t2, t2, t2}, DL: []enc.Duration{d2, d2, d2}}
			}
			o := used()
			if err := enc.UnmarshalJSON(c, j, &o); err != nil {
				r.Fail("time:unmarshal", "%s: %v", j, err)
			} else {
				ok("through JSON", o)
			}
			node, err := enc.Marshal(c, h)
			if err != nil {
				r.Fail("time:marshal", "%v", err)
				return
			}
			o2 := used()
			if err := enc.Unmarshal(c, node, &o2); err != nil {
				r.Fail("time:unmarshal", "node %v: %v", node, err)
			} else {
				ok("through nodes", o2)
			}
			// nodes of these kinds into every compatible Go type
			for _, into := range []any{new(time.Time), new(enc.Time), new(myTime)} {
				if err := enc.Unmarshal(c, enc.Time(t), into); err != nil {
					r.Fail("time:node-into", "%T: %v", into, err)
				} else if got := reflect.ValueOf(into).Elem().Convert(reflect.TypeOf(time.Time{})).Interface().(time.Time); !sameT(got, t) {
					r.Fail("time:node-into", "%T: %v became %v", into, t, got)
				}
			}
			for _, into := range []any{new(time.Duration), new(enc.Duration), new(int64)} {
				if err := enc.Unmarshal(c, enc.Duration(d), into); err != nil {
					r.Fail("time:node-into", "%T: %v", into, err)
				} else if got := reflect.ValueOf(into).Elem().Int(); got != int64(d) {
					r.Fail("time:node-into", "%T: %v became %v", into, d, got)
				}
			}
			for _, into := range []any{new(int), new(int8), new(int16), new(int32), new(uint), new(uint32), new(uint64), new(myDur32)} { // exactly, or not at all
				if err := enc.Unmarshal(c, enc.Duration(d), into); err == nil {
					if got := fmt.Sprint(reflect.ValueOf(into).Elem()); got != fmt.Sprint(int64(d)) {
						r.Fail("time:node-into", "%T: %d ns became %v", into, int64(d), got)
					}
				}
			}
			// the text of one over another
			kd, kt := enc.Duration(77), enc.Time(time.Unix(1, 0))
			txt := d.String()
			if d == 0 {
				txt = ""
			}
			if err := kd.Parse(txt); err != nil || time.Duration(kd) != d {
				r.Fail("time:text", "%q parsed over another duration: %v, %v", txt, kd, err)
			}
			kd = 77
			if err := json.Unmarshal(mustJSON(enc.Duration(d)), &kd); err != nil || time.Duration(kd) != d {
				r.Fail("time:text", "%v read over another duration: %v, %v", d, kd, err)
			}
			if err := kt.Parse(t.Format(time.RFC3339Nano)); err != nil || !sameT(time.Time(kt), t) {
				r.Fail("time:text", "%v parsed over another time: %v, %v", t, kt, err)
			}
			var a any
			if err := enc.Unmarshal(c, enc.Time(t), &a); err != nil {
				r.Fail("time:node-into", "any: %v", err)
			}
			if err := enc.Unmarshal(c, enc.Duration(d), &a); err != nil {
				r.Fail("time:node-into", "any: %v", err)
			}
			// text forms
			et, err := enc.String(t.Format(time.RFC3339Nano)).AsTime()
			if err != nil || !sameT(time.Time(et), t) {
				r.Fail("time:text", "%v parsed as %v, %v", t, et, err)
			}
			if got := enc.Time(t).String(); got != t.Format(time.RFC3339Nano) {
				r.Fail("time:text", "%v printed as %q", t, got)
			}
			ed, err := enc.String(d.String()).AsDuration()
			if err != nil || time.Duration(ed) != d {
				r.Fail("time:text", "%v parsed as %v, %v", d, ed, err)
			}
		})
		// numbers to durations
		k := g.Int63n(2000) - 1000
		u := []time.Duration{time.Nanosecond, time.Millisecond, time.Second, time.Hour}[g.Intn(4)]
		for _, num := range []enc.Numeric{enc.Integer(k), enc.Float(k), enc.Digits(fmt.Sprint(k))} {
			if got := num.Duration(u); time.Duration(got) != time.Duration(k)*u {
				r.Fail("time:numeric", "%T %d x %v gave %v", num, k, u, got)
			}
		}
		// exactly, however large
		big := g.Int63() / int64(u)
		if g.Intn(2) == 0 {
			big = -big
		}
		if g.Intn(3) == 0 {
			big >>= uint(g.Intn(40))
		}
		for _, num := range []enc.Numeric{enc.Integer(big), enc.Digits(fmt.Sprint(big))} {
			if got := num.Duration(u); time.Duration(got) != time.Duration(big)*u {
				r.Fail("time:numeric", "%T %d x %v gave %d", num, big, u, int64(got))
			}
		}
		// fractions which a float64 holds exactly
		q := float64(g.Intn(1<<20)) / float64(int(1)<<g.Intn(9))
		for _, num := range []enc.Numeric{enc.Float(q), enc.Digits(strconv.FormatFloat(q, 'f', 3, 64)), enc.Digits(strconv.FormatFloat(q, 'e', -1, 64))} {
			if f, _ := num.Float64(); f == q && q*float64(u) < 1<<53 {
				if got := num.Duration(u); time.Duration(got) != time.Duration(q*float64(u)) {
					r.Fail("time:numeric", "%T %v x %v gave %d", num, num, u, int64(got))
				}
			}
		}
		if got := enc.Digits(fmt.Sprintf("%d.5", k)).Duration(time.Second); k >= 0 && time.Duration(got) != time.Duration(k)*time.Second+500*time.Millisecond {
			r.Fail("time:numeric", "%d.5 s gave %v", k, got)
		}
		// text that is neither
		bad := mutateBytes(g, t.Format(time.RFC3339Nano))
		_, refErr := time.Parse(time.RFC3339Nano, bad)
		got, err := enc.String(bad).AsTime()
		if (refErr == nil) != (err == nil) {
			r.Fail("time:bad-text", "%q: parsed as %v, %v (reference: %v)", bad, got, err, refErr)
		}
		var tt time.Time
		if err := enc.Unmarshal(c, enc.String(bad), &tt); err == nil && refErr != nil {
			r.Fail("time:bad-text", "%q accepted as time %v", bad, tt)
		}
		badD := mutateBytes(g, d.String())
		refD, refErr := time.ParseDuration(badD)
		gd, err := enc.String(badD).AsDuration()
		if badD == "" {
			refErr = nil
		}
		if (refErr == nil) != (err == nil) || err == nil && time.Duration(gd) != refD {
			r.Fail("time:bad-text", "%q: parsed as %v, %v (reference: %v %v)", badD, gd, err, refD, refErr)
		}
		for _, n := range []enc.Node{enc.Bool(true), enc.List{}, enc.Map{}, enc.Integer(3)} {
			if err := enc.Unmarshal(c, n, &tt); err == nil {
				r.Fail("time:bad-node", "%#v accepted as time", n)
			}
		}
	}
}

// ---------------------------------------------------------------- C10

type hookKey struct{}

// recHook records every conversion in the recorder carried by the context.
type recHook struct{ ID int }
type recorder struct {
	mu    sync.Mutex
	out   []int
	in    []string
	fail  int // hook id that fails
	calls int
}

var errHook = fmt.Errorf("hook refused")

func (h recHook) MarshalNode(c ctx.C) (enc.Node, error) {
	rec := c.Value(hookKey{}).(*recorder)
	rec.mu.Lock()
	defer rec.mu.Unlock()
	rec.out = append(rec.out, h.ID)
	if rec.fail == h.ID {
		return nil, errHook
	}
	return enc.Map{"hook": enc.String(fmt.Sprintf("H%d", h.ID))}, nil
}

// MarshalJSON must lose against MarshalNode.
func (h recHook) MarshalJSON() ([]byte, error) { return []byte(`"wrong"`), nil }
func (h *recHook) UnmarshalJSON([]byte) error  { return fmt.Errorf("wrong hook") }

func (h *recHook) UnmarshalNode(c ctx.C, n enc.Node) error {
	rec := c.Value(hookKey{}).(*recorder)
	rec.mu.Lock()
	defer rec.mu.Unlock()
	rec.in = append(rec.in, n.String())
	m, ok := n.(enc.Map)
	if !ok {
		return fmt.Errorf("not a hook: %v", n)
	}
	s, _ := m["hook"].(enc.String)
	if _, err := fmt.Sscanf(string(s), "H%d", &h.ID); err != nil {
		return err
	}
	if rec.fail == h.ID {
		return errHook
	}
	return nil
}

type upperStr string // a named string with its own conversion

func (u upperStr) MarshalNode(c ctx.C) (enc.Node, error) {
	return enc.String(strings.ToUpper(string(u))), nil
}
func (u *upperStr) UnmarshalNode(c ctx.C, n enc.Node) error {
	s, ok := n.(enc.String)
	if !ok {
		return fmt.Errorf("not a string: %T", n)
	}
	*u = upperStr(strings.ToLower(string(s)))
	return nil
}

// hooks which keep the text they were given
type nullNode struct{ text string }
type nullJSON struct{ text string }

func (n *nullNode) UnmarshalNode(c ctx.C, x enc.Node) error { n.text = x.String(); return nil }
func (n *nullJSON) UnmarshalJSON(b []byte) error            { n.text = string(b); return nil }

type nullHooks struct {
	N nullNode
	J nullJSON
	L []nullJSON
	M map[string]nullNode
	A [2]nullJSON
	P *nullNode
	Q *nullJSON
}

// nestHook builds a type containing hooks and a value of it; ids are appended in walking order.
func nestHook(g *rand.Rand, depth int, next *int) (reflect.Type, func() reflect.Value) {
	leafT := reflect.TypeOf(recHook{})
	if depth == 0 {
		switch g.Intn(5) {
		case 0:
			return reflect.PointerTo(leafT), func() reflect.Value { *next++; return reflect.ValueOf(&recHook{*next}) }
		case 1:
			return reflect.TypeOf(jsonVal{}), func() reflect.Value { return reflect.ValueOf(jsonVal{genString(g)}) }
		case 2:
			return reflect.TypeOf(upperStr("")), func() reflect.Value { return reflect.ValueOf(upperStr("abc")) }
		}
		return leafT, func() reflect.Value { *next++; return reflect.ValueOf(recHook{*next}) }
	}
	t, mk := nestHook(g, depth-1, next)
	switch g.Intn(6) {
	case 0:
		return reflect.SliceOf(t), func() reflect.Value {
			n := 1 + g.Intn(3)
			v := reflect.MakeSlice(reflect.SliceOf(t), n, n)
			for i := 0; i < n; i++ {
				v.Index(i).Set(mk())
			}
			return v
		}
	case 1:
		return reflect.ArrayOf(2, t), func() reflect.Value {
			v := reflect.New(reflect.ArrayOf(2, t)).Elem()
			v.Index(0).Set(mk())
			v.Index(1).Set(mk())
			return v
		}
	case 2:
		mt := reflect.MapOf(reflect.TypeOf(""), t)
		return mt, func() reflect.Value {
			v := reflect.MakeMap(mt)
			for i := 1 + g.Intn(2); i > 0; i-- {
				v.SetMapIndex(reflect.ValueOf(fmt.Sprintf("k%d", i)), mk())
			}
			return v
		}
	case 3:
		return reflect.PointerTo(t), func() reflect.Value {
			v := reflect.New(t)
			v.Elem().Set(mk())
			return v
		}
	case 4:
		t2, mk2 := nestHook(g, depth-1, next)
		st := reflect.StructOf([]reflect.StructField{{Name: "A", Type: t, Tag: `json:"a"`}, {Name: "N", Type: reflect.TypeOf(0)}, {Name: "B", Type: t2}})
		return st, func() reflect.Value {
			v := reflect.New(st).Elem()
			v.Field(0).Set(mk())
			v.Field(1).SetInt(7)
			v.Field(2).Set(mk2())
			return v
		}
	default:
		st := reflect.StructOf([]reflect.StructField{{Name: "Raw", Type: reflect.TypeOf(json.RawMessage{})}, {Name: "Node", Type: reflect.TypeOf((*enc.Node)(nil)).Elem()}, {Name: "In", Type: t, Tag: `json:"in,omitempty"`}})
		return st, func() reflect.Value {
			v := reflect.New(st).Elem()
			v.Field(0).Set(reflect.ValueOf(json.RawMessage(`{"x":[1,2.50,"y"]}`)))
			v.Field(1).Set(reflect.ValueOf(enc.Map{"z": enc.Digits("1.50")}))
			v.Field(2).Set(mk())
			return v
		}
	}
}

type shapeI interface{ Area() int }
type square struct{ Side int }

func (s square) Area() int { return s.Side * s.Side }

type circle struct{ Radius int }

func (s *circle) Area() int { return 3 * s.Radius * s.Radius }

type widget struct {
	Name string
	Kind string
}

func c10(r *R) {
	base := quietCtx()
	for i, n := 0, r.N(2500, 60000); i < n; i++ {
		g := r.Sub("nest", i)
		rec := &recorder{fail: -1}
		c := ctx.WithValue(base, hookKey{}, rec)
		next := 0
		t, mk := nestHook(g, g.Intn(5), &next)
		v := mk()
		key := t.String() + fmt.Sprint(next)
		r.Eval(key)
		if i < 3 {
			r.Sample("%v with %d hooks", t, next)
		}
		what := func() string { return t.String() }
		r.Guard("hooks:panic", what, func() {
			j, err := enc.MarshalJSON(c, v.Interface())
			if err != nil {
				r.Fail("hooks:marshal", "%v: %v", t, err)
				return
			}
			// each hook exactly once
			cnt := map[int]int{}
			for _, id := range rec.out {
				cnt[id]++
			}
			for id := 1; id <= next; id++ {
				if cnt[id] != 1 {
					r.Fail("hooks:calls", "%v: hook %d called %d times while writing", t, id, cnt[id])
				}
				if want := fmt.Sprintf(`{"hook":"H%d"}`, id); !strings.Contains(string(j), want) {
					r.Fail("hooks:output", "%v: hook %d missing from %s", t, id, j)
				}
			}
			r.Count("marshal_hook_calls", int64(len(rec.out)))
			if strings.Contains(string(j), "wrong") {
				r.Fail("hooks:precedence", "%v: the JSON hook won over the node hook: %s", t, j)
			}
			into := reflect.New(t)
			if err := enc.UnmarshalJSON(c, j, into.Interface()); err != nil {
				r.Fail("hooks:unmarshal", "%v from %s: %v", t, j, err)
				return
			}
			if len(rec.in) != next {
				r.Fail("hooks:calls", "%v: %d hooks called while reading %s, want %d", t, len(rec.in), j, next)
			}
			r.Count("unmarshal_hook_calls", int64(len(rec.in)))
			// raw text and nodes keep the exact content
			j2, err := enc.MarshalJSON(c, into.Elem().Interface())
			if err != nil {
				r.Fail("hooks:marshal", "%v: %v", t, err)
			} else {
				a, _ := tokens(j)
				b, _ := tokens(j2)
				if !sameTokens(a, b) {
					r.Fail("hooks:round-trip", "%v: %s came back as %s", t, j, j2)
				}
			}
			// a failing hook fails the whole conversion
			if next > 0 {
				rec.fail = 1 + g.Intn(next)
				if _, err := enc.MarshalJSON(c, v.Interface()); err == nil {
					r.Fail("hooks:error-lost", "%v: hook %d failed while writing, the conversion succeeded", t, rec.fail)
				}
				if err := enc.UnmarshalJSON(c, j, reflect.New(t).Interface()); err == nil {
					r.Fail("hooks:error-lost", "%v: hook %d failed while reading, the conversion succeeded", t, rec.fail)
				}
				rec.fail = -1
			}
		})
	}
	// a null is an occurrence like any other, unless it is one of a pointer
	for i, n := 0, r.N(200, 4000); i < n; i++ {
		g := r.Sub("nulls", i)
		var got nullHooks
		key := []string{"N", "J", "L", "M", "A"}
		doc, want := map[string]string{"P": "null", "Q": "null"}, 0
		for _, k := range key {
			switch v := []string{"null", `7`}[g.Intn(2)]; {
			case k == "L" || k == "A":
				doc[k] = "[" + v + `,null]`
				want += 2
			case k == "M":
				doc[k] = `{"a":` + v + `,"b":null}`
				want += 2
			default:
				doc[k] = v
				want++
			}
		}
		var parts []string
		for k, v := range doc {
			parts = append(parts, fmt.Sprintf("%q:%s", k, v))
		}
		sort.Strings(parts)
		j := "{" + strings.Join(parts, ",") + "}"
		r.Eval(j)
		got.P, got.Q = &nullNode{}, &nullJSON{}
		if err := enc.UnmarshalJSON(base, []byte(j), &got); err != nil {
			r.Fail("hooks:null", "%s: %v", j, err)
			continue
		}
		if got.P != nil || got.Q != nil {
			r.Fail("hooks:null", "%s: a pointer was given null, and is not nil: %v %v", j, got.P, got.Q)
		}
		texts := []string{got.N.text, got.J.text, got.M["a"].text, got.M["b"].text, got.A[0].text, got.A[1].text}
		for _, l := range got.L {
			texts = append(texts, l.text)
		}
		var exp []string
		strip := func(s string, i int) string { return strings.Split(strings.Trim(s, "[]"), ",")[i] }
		exp = append(exp, doc["N"], doc["J"], strings.TrimPrefix(strings.Split(strings.Trim(doc["M"], "{}"), ",")[0], `"a":`), "null", strip(doc["A"], 0), "null", strip(doc["L"], 0), "null")
		if fmt.Sprint(texts) != fmt.Sprint(exp) || want != len(exp) {
			r.Fail("hooks:null", "%s: the conversions were given %q, want %q", j, texts, exp)
		}
		r.Count("null_occurrences", int64(strings.Count(j, "null")))
	}
	// factories
	c := base
	shapeT := reflect.TypeOf((*shapeI)(nil)).Elem()
	widgetT := reflect.TypeOf(widget{})
	for i, n := 0, r.N(600, 10000); i < n; i++ {
		g := r.Sub("factory", i)
		calls := 0
		h := enc.Handler{Factory: map[reflect.Type]func(ctx.C, enc.Node) (any, error){
			shapeT: func(c ctx.C, n enc.Node) (any, error) {
				calls++
				m, err := enc.AsMap(c, n)
				if err != nil {
					return nil, err
				}
				if m["side"] != nil {
					var s square
					return s, enc.Unmarshal(c, m["side"], &s.Side)
				}
				if m["radius"] != nil {
					var s circle
					err := enc.Unmarshal(c, m["radius"], &s.Radius)
					return &s, err
				}
				return nil, fmt.Errorf("unknown shape")
			},
			widgetT: func(c ctx.C, n enc.Node) (any, error) {
				calls++
				return widget{Name: "made", Kind: n.String()}, nil
			},
		}}
		a, b := g.Intn(100), g.Intn(100)
		doc := fmt.Sprintf(`{"One":{"side":%d},"Two":{"radius":%d},"L":[{"side":%d},{"radius":%d}],"M":{"x":{"side":1}},"W":{"a":1},"WP":[1],"Deep":{"x":[{"y":[{"z":[{"side":%d}]}]}]}}`, a, b, b, a, a)
		r.Eval(doc)
		r.Guard("factory:panic", func() string { return doc }, func() {
			var into struct {
				One, Two shapeI
				L        []shapeI
				M        map[string]shapeI
				W        widget
				WP       *widget
				Deep     map[string][]map[string][]map[string][]shapeI
			}
			node, _ := enc.JSON{}.Decode(c, []byte(doc))
			if err := h.Unmarshal(c, node, &into); err != nil {
				r.Fail("factory:error", "%s: %v", doc, err)
				return
			}
			if into.One == nil || into.One.Area() != a*a || into.Two == nil || into.Two.Area() != 3*b*b || len(into.L) != 2 || into.L[0].Area() != b*b || into.L[1].Area() != 3*a*a ||
				into.M["x"] == nil || into.M["x"].Area() != 1 || into.W.Name != "made" || into.WP == nil || into.WP.Name != "made" || into.WP.Kind != "[1]" || into.Deep["x"][0]["y"][0]["z"][0].Area() != a*a {
				r.Fail("factory:value", "%s: %+v", doc, into)
			}
			if calls != 8 {
				r.Fail("factory:calls", "%s: factories called %d times, want 8", doc, calls)
			}
			var s shapeI
			if err := h.Unmarshal(c, enc.Map{"what": enc.Nil{}}, &s); err == nil {
				r.Fail("factory:error-lost", "a failing factory went unnoticed")
			}
			// nothing is what a factory may produce as well
			none := enc.Handler{Factory: map[reflect.Type]func(ctx.C, enc.Node) (any, error){
				shapeT:  func(c ctx.C, n enc.Node) (any, error) { return nil, nil },
				widgetT: func(c ctx.C, n enc.Node) (any, error) { return nil, nil },
			}}
			if err := none.Unmarshal(c, node, &into); err != nil {
				r.Fail("factory:nothing", "%s: %v", doc, err)
			} else if into.One != nil || into.Two != nil || len(into.L) != 2 || into.L[0] != nil || into.L[1] != nil || len(into.M) != 1 || into.M["x"] != nil || into.W != (widget{}) || into.WP == nil || *into.WP != (widget{}) || into.Deep["x"][0]["y"][0]["z"][0] != nil {
				r.Fail("factory:nothing", "%s: the factories gave nothing, read %+v", doc, into)
			}
			h2 := enc.Handler{Factory: map[reflect.Type]func(ctx.C, enc.Node) (any, error){shapeT: func(ctx.C, enc.Node) (any, error) { return "not a shape", nil }}}
			if err := h2.Unmarshal(c, enc.Map{}, &s); err == nil {
				r.Fail("factory:wrong-type", "a factory's value of the wrong type was accepted: %v", s)
			}
		})
	}
}

func sameTokens(a, b []json.Token) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// ---------------------------------------------------------------- C11

// c11close: the pipe is closed under its writers, blocked or not.
func c11close(r *R, c ctx.C, g *rand.Rand, capacity int, key string) {
	a, b := enc.NewPipe(capacity)
	writers, closers := 1+g.Intn(3), 1+g.Intn(2)
	reads := g.Intn(capacity + 4) // then the reader stops until the pipe is closed
	pause := time.Duration(g.Intn(300)) * time.Microsecond
	var wrote atomic.Int64
	var wg sync.WaitGroup
	protect := func(what string, f func()) {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if p := recover(); p != nil {
					r.Fail("pipe:panic", "%s, closed while being written: %s panicked: %v", key, what, p)
				}
			}()
			f()
		}()
	}
	for w := 0; w < writers; w++ {
		protect("Write", func() {
			for k := 0; ; k++ {
				if err := a.Write(c, enc.Integer(k)); err != nil {
					return
				}
				wrote.Add(1)
			}
		})
	}
	got := int64(0)
	closed := make(chan struct{})
	protect("Read", func() {
		for ; ; got++ {
			if got == int64(reads) {
				<-closed
			}
			if _, err := b.Read(c); err != nil {
				if err != io.EOF {
					r.Fail("pipe:read", "%s, closed while being written: read error %v", key, err)
				}
				return
			}
		}
	})
	time.Sleep(pause)
	var cg sync.WaitGroup
	for k := 0; k < closers; k++ {
		cg.Add(1)
		protect("Close", func() {
			defer cg.Done()
			if err := a.Close(c); err != nil {
				r.Fail("pipe:close", "%v", err)
			}
		})
	}
	cg.Wait()
	close(closed)
	wg.Wait()
	if got != wrote.Load() {
		r.Fail("pipe:count", "%s, closed while being written: %d written, %d read", key, wrote.Load(), got)
	}
	r.Count("pipes_closed_under_writers", 1)
	r.Count("nodes_delivered", got)
}

func c11(r *R) {
	rounds := r.N(600, 20000)
	for i := 0; i < rounds; i++ {
		g := r.Sub("pipe", i)
		c := quietCtx()
		capacity := []int{0, 0, 1, 2, 7, 64}[g.Intn(6)]
		a, b := enc.NewPipe(capacity)
		if g.Intn(2) == 0 {
			a, b = b, a
		}
		writers, readers := 1+g.Intn(3), 1+g.Intn(3)
		per := g.Intn(40)
		back := g.Intn(20)
		cancelAt := -1
		if g.Intn(3) == 0 {
			cancelAt = g.Intn(per + 1)
		}
		key := fmt.Sprint(capacity, writers, readers, per, back, cancelAt)
		r.Eval(key)
		if i < 3 {
			r.Sample("capacity %d, %d writers of %d, %d readers, %d back, cancel %d", capacity, writers, per, readers, back, cancelAt)
		}
		var mu sync.Mutex
		got := []enc.Node{}
		perReader := make([][]enc.Node, readers)
		var wrote atomic.Int64
		sent := make([]int, writers)
		var maybe, gaveUp atomic.Int64
		impatient, seed := g.Intn(3) == 0, g.Int63()
		r.Within("pipe", "pipe exchange "+key, func() {
			var wg, rg sync.WaitGroup
			cc, cancel := ctx.WithCancel(c)
			for w := 0; w < writers; w++ {
				wg.Add(1)
				go func(w int) {
					defer wg.Done()
					for k := 0; k < per; k++ {
						use := c
						if w == 0 && cancelAt >= 0 {
							use = cc
							if k == cancelAt {
								cancel(nil)
							}
						}
						err := a.Write(use, enc.List{enc.Integer(w), enc.Integer(k)})
						if err != nil {
							if use == c {
								r.Fail("pipe:write", "write %d/%d: %v", w, k, err)
							}
							maybe.Add(1)
							return
						}
						sent[w] = k + 1
						wrote.Add(1)
					}
				}(w)
			}
			for q := 0; q < readers; q++ {
				rg.Add(1)
				go func(q int) {
					defer rg.Done()
					rng := rand.New(rand.NewSource(seed + int64(q)))
					for {
						use, stop := c, ctx.CancelFunc(nil)
						if impatient { // gives up now and then: that loses nothing
							use, stop = ctx.WithCancel(c)
							go func(d time.Duration) {
								time.Sleep(d)
								stop(nil)
							}(time.Duration(rng.Intn(100)) * time.Microsecond)
						}
						n, err := b.Read(use)
						if stop != nil {
							if err != nil && use.Err() != nil && err != io.EOF {
								gaveUp.Add(1)
								continue
							}
							stop(nil)
						}
						if err != nil {
							if err != io.EOF {
								r.Fail("pipe:read", "read error %v instead of end of stream", err)
							}
							return
						}
						mu.Lock()
						got = append(got, n)
						mu.Unlock()
						perReader[q] = append(perReader[q], n)
					}
				}(q)
			}
			// the other direction is independent
			rg.Add(1)
			go func() {
				defer rg.Done()
				for k := 0; k < back; k++ {
					if err := b.Write(c, enc.Integer(k)); err != nil {
						r.Fail("pipe:write", "back %d: %v", k, err)
					}
				}
			}()
			for k := 0; k < back; k++ {
				n, err := a.Read(c)
				if err != nil || n != enc.Integer(k) {
					r.Fail("pipe:order", "back %d: %v, %v", k, n, err)
				}
			}
			wg.Wait()
			for k := 0; k <= g.Intn(2); k++ {
				if err := a.Close(c); err != nil {
					r.Fail("pipe:close", "%v", err)
				}
			}
			if err := a.Write(c, enc.Nil{}); err == nil {
				r.Fail("pipe:write-closed", "a write after close succeeded")
			}
			rg.Wait()
			if n, err := b.Read(c); err != io.EOF {
				r.Fail("pipe:eof", "after close and drain: %v, %v", n, err)
			}
			c11close(r, c, g, capacity, key)
			// an end which closed can go on reading, what had been written and what is written from then on
			{
				p, q := enc.NewPipe(capacity + 1)
				for k := 0; k <= capacity; k++ {
					if err := q.Write(c, enc.Integer(k)); err != nil {
						r.Fail("pipe:write", "half closed %d: %v", k, err)
					}
				}
				_ = p.Close(c)
				for k := 0; k <= capacity+5; k++ {
					if n, err := p.Read(c); err != nil || n != enc.Integer(k) {
						r.Fail("pipe:half-closed", "capacity %d: this end was closed, reading node %d of the other end: %v, %v", capacity+1, k, n, err)
						break
					}
					if err := q.Write(c, enc.Integer(k+capacity+1)); err != nil {
						r.Fail("pipe:half-closed", "capacity %d: the other end was closed, writing fails: %v", capacity+1, err)
						break
					}
				}
				if n, err := q.Read(c); err != io.EOF {
					r.Fail("pipe:eof", "the other end was closed, reading: %v, %v", n, err)
				}
				_ = q.Close(c)
			}
			// a cancelled read gives up
			cancel(nil)
			x, y := enc.NewPipe(0)
			if _, err := x.Read(cc); err == nil {
				r.Fail("pipe:cancel", "read on a cancelled context succeeded")
			}
			if err := y.Write(cc, enc.Nil{}); err == nil {
				r.Fail("pipe:cancel", "write without a reader on a cancelled context succeeded")
			}
		})
		// exactly once, and in order per writer
		seen := map[string]int{}
		for _, n := range got {
			seen[n.String()]++
		}
		for w := 0; w < writers; w++ {
			for k := 0; k < sent[w]; k++ {
				if s := (enc.List{enc.Integer(w), enc.Integer(k)}).String(); seen[s] != 1 {
					r.Fail("pipe:lost", "%s: node %d/%d read %d times", key, w, k, seen[s])
				}
			}
		}
		if int64(len(got)) != wrote.Load() {
			r.Fail("pipe:count", "%s: %d written, %d read", key, wrote.Load(), len(got))
		}
		for q := range perReader {
			last := map[string]int{}
			for _, n := range perReader[q] {
				l := n.(enc.List)
				w, k := l[0].String(), int(l[1].(enc.Integer))
				if p, ok := last[w]; ok && k <= p {
					r.Fail("pipe:order", "%s: reader %d saw %s/%d after %s/%d", key, q, w, k, w, p)
				}
				last[w] = k
			}
		}
		r.Count("nodes_delivered", int64(len(got)))
		r.Count("reads_given_up", gaveUp.Load())
	}
}
