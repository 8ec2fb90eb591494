package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"reflect"
	"strings"

	"github.com/Aize-Public/forego/enc"
)

func init() {
	reg("C01", "random well-formed documents (all number forms, escapes, whitespace, nesting), the same documents damaged by byte edits, and node trees built in memory; non-trivial: a document of at least 3 bytes, distinct by its bytes", c01)
	reg("C02", "random Go types made by reflection (structs with tags, pointers, slices, arrays, maps, named kinds) with random values, through JSON bytes and through nodes; non-trivial: distinct (type, value) with at least one composite level", c02)
	reg("C03", "random plain Go types and values written by one library and read by the other; non-trivial: distinct (type, document)", c03)
}

// ---------------------------------------------------------------- C01

func c01(r *R) {
	c := quietCtx()
	keep := &keeper{}
	check := func(doc string) {
		r.Eval(map[bool]string{true: doc, false: ""}[len(doc) >= 3])
		want, stdErr := decodeStd([]byte(doc))
		var n enc.Node
		var err error
		if !r.Guard("decode:panic", func() string { return fmt.Sprintf("decode %q", doc) }, func() { n, err = enc.JSON{}.Decode(c, []byte(doc)) }) {
			return
		}
		if len(doc) == 0 {
			if n != nil || err != nil {
				r.Fail("decode:empty", "empty input gave %#v, %v", n, err)
			}
			return
		}
		if stdErr != nil {
			r.Count("rejected_documents", 1)
			if err == nil {
				r.Fail("decode:accepts-malformed", "%q is not one JSON value (%v) but was decoded as %#v", doc, stdErr, n)
			}
			return
		}
		r.Count("accepted_documents", 1)
		if err != nil {
			r.Fail("decode:rejects-valid", "%q is valid JSON but: %v", doc, err)
			return
		}
		if d := nodeIs(n, want); d != "" {
			r.Fail("decode:value", "%q decoded to another value: %s", doc, d)
			return
		}
		keep.Node(n, "decoded from %q", doc)
		for _, indent := range []bool{false, true} {
			var out []byte
			if !r.Guard("encode:panic", func() string { return fmt.Sprintf("encode %q", doc) }, func() { out = enc.JSON{Indent: indent}.Encode(c, n) }) {
				return
			}
			back, err := decodeStd(out)
			if err != nil {
				r.Fail("encode:invalid", "%q encoded (indent=%v) as %q: %v", doc, indent, out, err)
				return
			}
			if !deepEq(back, want) {
				r.Fail("encode:value", "%q encoded (indent=%v) as another value %q", doc, indent, out)
				return
			}
			keep.Bytes(out, "encoded (indent=%v) from %q", indent, doc)
		}
	}
	for _, s := range []string{"", " ", "\n", "null", "nul", "true", "truex", "{}", "[]", "1", "01", "-", "1.", ".5", "+1", "1 2", "{} {}", "{}x", "[1,]", `{"a":1,}`, `{"a"}`, `"\ud800"`, `"\x"`, "\"\x01\"", "NaN", "Infinity",
		"\ufeff1", "1\x00", "null null", "[]]", "{}}", `{"a":1}{"b":2}`, "// x\n1", "1//x", "'a'", "[1 2]", `{"":0}`, `{"a":1,"a":2}`, strings.Repeat("[", 200) + strings.Repeat("]", 200), `"` + strings.Repeat("é", 5000) + `"`} {
		check(s)
	}
	n := r.N(6000, 300000)
	for i := 0; i < n; i++ {
		g := r.Sub("doc", i)
		doc := genWS(g) + genJSON(g, 4) + genWS(g)
		if i%100 == 50 {
			doc = genWS(g) + genBigJSON(g) + genWS(g)
			r.Count("documents_over_2kB", 1)
		}
		check(doc)
		if i%40 == 39 {
			keep.check(r, "result-changed") // what was handed out stays as it was
		}
		for k := 0; k < 3; k++ {
			check(mutateBytes(g, doc))
		}
		if i < 3 {
			r.Sample("%s", doc)
		}
	}
	// from many goroutines, what each one gets is its own
	for i, rounds := 0, r.N(12, 200); i < rounds; i++ {
		g := r.Sub("par", i)
		seeds := make([]int64, 8)
		for w := range seeds {
			seeds[w] = g.Int63()
		}
		r.Par("concurrent", "concurrent codecs", len(seeds), func(w int) {
			g := rand.New(rand.NewSource(seeds[w]))
			for k := 0; k < 12; k++ {
				doc := genJSON(g, 3)
				if k%4 == 3 {
					doc = genBigJSON(g)
				}
				want, _ := decodeStd([]byte(doc))
				n, err := enc.JSON{}.Decode(c, []byte(doc))
				if err != nil {
					r.Fail("decode:rejects-valid", "%q, concurrently: %v", cut(doc, 300), err)
					continue
				}
				out := enc.JSON{Indent: k%2 == 0}.Encode(c, n)
				if d := nodeIs(n, want); d != "" {
					r.Fail("decode:value", "%q decoded, concurrently, to another value: %s", cut(doc, 300), d)
				}
				if back, err := decodeStd(out); err != nil || !deepEq(back, want) {
					r.Fail("encode:value", "%q encoded, concurrently, as %q %v", cut(doc, 300), cut(string(out), 300), err)
				}
				keep.Bytes(out, "encoded concurrently from %q", doc)
			}
		})
		keep.check(r, "result-changed")
		r.Eval(fmt.Sprint("par", i))
	}
	// node trees that did not come from a document
	for i := 0; i < n/2; i++ {
		g := r.Sub("tree", i)
		node, want := genNodeTree(g, 4)
		var out []byte
		if !r.Guard("encode:panic", func() string { return fmt.Sprintf("encode %#v", node) }, func() { out = enc.JSON{Indent: g.Intn(2) == 0}.Encode(c, node) }) {
			continue
		}
		r.Eval("tree" + string(out))
		back, err := decodeStd(out)
		if err != nil {
			r.Fail("encode:invalid", "tree %#v encoded as %q: %v", node, out, err)
			continue
		}
		if !deepEq(back, want) {
			r.Fail("encode:tree-value", "tree %#v encoded as %q, want %s", node, out, dump(want))
		}
		// decoding the bytes again and encoding again is stable
		n2, err := enc.JSON{}.Decode(c, out)
		if err != nil {
			r.Fail("decode:rejects-valid", "own output %q: %v", out, err)
			continue
		}
		if d := nodeIs(n2, want); d != "" {
			r.Fail("decode:value", "own output %q: %s", out, d)
		}
	}
}

// genBigJSON writes a document of some 2 kB to 200 kB.
func genBigJSON(g *rand.Rand) string {
	n := 50 + g.Intn(1500)
	p := make([]string, n)
	switch g.Intn(5) {
	case 0:
		for i := range p {
			p[i] = genNumberText(g) + genWS(g)
		}
		return "[" + strings.Join(p, ",") + "]"
	case 1:
		for i := range p {
			p[i] = genStringText(g, fmt.Sprint(genString(g), i)) + ":" + genJSON(g, 1)
		}
		return "{" + strings.Join(p, ",") + "}"
	case 2:
		return genStringText(g, strings.Repeat(genString(g)+"x", 2000+g.Intn(5000)))
	case 3:
		d := 50 + g.Intn(300)
		return strings.Repeat(`[{"a":`, d) + genJSON(g, 2) + strings.Repeat("}]", d)
	default:
		for i := range p {
			p[i] = genJSON(g, 2)
		}
		return "[" + strings.Join(p, ",") + "]"
	}
}

// genNodeTree builds a node tree and the document value it denotes.
func genNodeTree(g *rand.Rand, depth int) (enc.Node, any) {
	k := g.Intn(10)
	if depth <= 0 && k >= 6 {
		k = g.Intn(6)
	}
	switch k {
	case 0:
		return enc.Nil{}, nil
	case 1:
		b := g.Intn(2) == 0
		return enc.Bool(b), b
	case 2:
		i := genIntBits(g, 64)
		return enc.Integer(i), json.Number(fmt.Sprint(i))
	case 3:
		s := genNumberText(g)
		return enc.Digits(s), json.Number(s)
	case 4, 5:
		s := genString(g)
		return enc.String(s), s
	case 6, 7:
		l, w := enc.List{}, []any{}
		for i := g.Intn(4); i > 0; i-- {
			n, x := genNodeTree(g, depth-1)
			l, w = append(l, n), append(w, x)
		}
		return l, w
	case 8:
		m, w := enc.Map{}, map[string]any{}
		for i := g.Intn(4); i > 0; i-- {
			n, x := genNodeTree(g, depth-1)
			k := genString(g)
			m[k], w[k] = n, x
		}
		return m, w
	default:
		m, w := enc.Pairs{}, map[string]any{}
		for i := g.Intn(4); i > 0; i-- {
			n, x := genNodeTree(g, depth-1)
			k := genString(g)
			if _, ok := w[k]; ok {
				continue
			}
			m, w[k] = append(m, enc.Pair{Name: "Go" + k, JSON: k, Value: n}), x
		}
		return m, w
	}
}

// ---------------------------------------------------------------- C02

type fixedInner struct {
	A int     `json:"a"`
	B *string `json:"b,omitempty"`
}
type fixedEmb struct {
	Base string
	Num  int `json:"num"`
}
type FixedEmb fixedEmb
type fixedOuter struct {
	FixedEmb
	In    fixedInner              `json:"in"`
	Ptr   *fixedInner             `json:"ptr"`
	L     []fixedInner            `json:"l"`
	M     map[string]fixedInner   `json:"m"`
	MP    map[string]*fixedInner  `json:"mp"`
	MI    map[int][]fixedInner    `json:"mi"`
	Arr   [2]fixedInner           `json:"arr"`
	PP    **int                   `json:"pp"`
	U     uint64                  `json:"u"`
	F32   float32                 `json:"f32"`
	Bytes []byte                  `json:"bytes"`
	Any   any                     `json:"any"`
	Deep  map[string]map[int8]any `json:"deep"`
	Skip  string                  `json:"-"`
	priv  int
}

func c02(r *R) {
	c := quietCtx()
	_ = fixedOuter{}.priv
	fixed := []reflect.Type{reflect.TypeOf(fixedOuter{}), reflect.TypeOf(fixedInner{}), reflect.TypeOf(map[uint8]fixedOuter{}), reflect.TypeOf([]*fixedOuter{}),
		reflect.TypeOf(uint64(0)), reflect.TypeOf(NamedSlice{}), reflect.TypeOf(NamedMap{}), reflect.TypeOf(""), reflect.TypeOf(0), reflect.TypeOf((*int)(nil))}
	n := r.N(2500, 60000)
	for i := 0; i < n; i++ {
		g := r.Sub("type", i)
		var t reflect.Type
		if i < len(fixed)*20 {
			t = fixed[i%len(fixed)]
		} else {
			t = genType(g, 4, typeOpts{any: true, namedKinds: true, skipped: true})
		}
		for k := 0; k < 3; k++ {
			v := genValue(g, t, 4)
			what := func() string { return fmt.Sprintf("%v = %s", t, dump(v.Interface())) }
			key := ""
			switch t.Kind() {
			case reflect.Struct, reflect.Map, reflect.Slice, reflect.Array, reflect.Pointer:
				key = t.String() + dump(v.Interface())
			}
			r.Eval(key)
			if i < 3 && k == 0 {
				r.Sample("%s", what())
			}
			r.Guard("roundtrip:panic", what, func() {
				j, err := enc.MarshalJSON(c, v.Interface())
				if err != nil {
					r.Fail("roundtrip:marshal-error", "%s: %v", what(), err)
					return
				}
				into := reflect.New(t)
				if err := enc.UnmarshalJSON(c, j, into.Interface()); err != nil {
					r.Fail("roundtrip:json-error", "%s: wrote %s, reading it back: %v", what(), j, err)
					return
				}
				if !deepEq(into.Elem().Interface(), v.Interface()) {
					r.Fail("roundtrip:json-value", "%s: wrote %s, read back %#v", what(), j, into.Elem().Interface())
				}
				r.Count("json_round_trips", 1)
				// through the pointer, as callers usually hold it
				p := reflect.New(t)
				p.Elem().Set(v)
				j2, err := enc.MarshalJSON(c, p.Interface())
				if err != nil {
					r.Fail("roundtrip:marshal-error", "pointer to %s: %v", what(), err)
				} else if string(j2) != string(j) {
					r.Fail("roundtrip:pointer", "%s: value wrote %s, pointer wrote %s", what(), j, j2)
				}
				node, err := enc.Marshal(c, v.Interface())
				if err != nil {
					r.Fail("roundtrip:marshal-error", "%s: %v", what(), err)
					return
				}
				into = reflect.New(t)
				if err := enc.Unmarshal(c, node, into.Interface()); err != nil {
					r.Fail("roundtrip:node-error", "%s: node %#v: %v", what(), node, err)
					return
				}
				if hasAny(t) {
					// numbers in dynamic values keep their node's type; compare what they encode to
					j3, _ := enc.MarshalJSON(c, into.Elem().Interface())
					a, _ := decodeStd(j)
					b, _ := decodeStd(j3)
					if !deepEq(a, b) {
						r.Fail("roundtrip:node-value", "%s: through nodes read back %s", what(), j3)
					}
				} else if !deepEq(into.Elem().Interface(), v.Interface()) {
					r.Fail("roundtrip:node-value", "%s: through nodes read back %#v", what(), into.Elem().Interface())
				}
				r.Count("node_round_trips", 1)
				// into a variable which already holds something: only the fields of structs are kept
				held := genValue(g, t, 4)
				into, want, was := reflect.New(t), deepCopy(held), deepCopy(held)
				into.Elem().Set(held)
				mergeExpected(want, v)
				if g.Intn(2) == 0 {
					err = enc.Unmarshal(c, node, into.Interface())
				} else {
					err = enc.UnmarshalJSON(c, j, into.Interface())
				}
				if err != nil {
					r.Fail("roundtrip:held-error", "%s: into %s: %v", what(), dump(was.Interface()), err)
				} else if !looseEq(c, into.Elem().Interface(), want.Interface()) {
					r.Fail("roundtrip:held-value", "%s: into %s gives %s", what(), dump(was.Interface()), dump(into.Elem().Interface()))
				}
				if !deepEq(held.Interface(), was.Interface()) {
					r.Fail("roundtrip:held-shared", "%s: reading into a variable that held %s changed what another variable holds to %s", what(), dump(was.Interface()), dump(held.Interface()))
				}
				r.Count("reads_into_held_values", 1)
			})
		}
	}
}

func hasAny(t reflect.Type) bool {
	switch t.Kind() {
	case reflect.Interface:
		return true
	case reflect.Pointer, reflect.Slice, reflect.Array, reflect.Map:
		return hasAny(t.Elem())
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			if hasAny(t.Field(i).Type) {
				return true
			}
		}
	}
	return false
}

// ---------------------------------------------------------------- C03

func c03(r *R) {
	c := quietCtx()
	n := r.N(2500, 60000)
	for i := 0; i < n; i++ {
		g := r.Sub("type", i)
		o := typeOpts{any: true, namedKinds: true, noBytes: true, noF32: true, skipped: true}
		t := genType(g, 4, o)
		if t.Kind() == reflect.Slice && t.Elem() == reflect.TypeOf(NamedU8(0)) || hasNamedBytes(t) {
			continue
		}
		for k := 0; k < 3; k++ {
			v := genValue(g, t, 4)
			std, err := json.Marshal(v.Interface())
			if err != nil {
				r.HarnessError("encoding/json cannot write %v: %v", t, err)
				return
			}
			what := func() string { return fmt.Sprintf("%v = %s", t, std) }
			r.Eval(t.String() + string(std))
			if i < 3 && k == 0 {
				r.Sample("%s", what())
			}
			r.Guard("compat:panic", what, func() {
				j, err := enc.MarshalJSON(c, v.Interface())
				if err != nil {
					r.Fail("compat:marshal-error", "%s: %v", what(), err)
					return
				}
				ta, err1 := tokens(std)
				tb, err2 := tokens(j)
				if err1 != nil || err2 != nil || !deepEq(ta, tb) {
					r.Fail("compat:document", "%v: encoding/json writes %s, this library %s", t, std, j)
				}
				r.Count("documents_compared", 1)
				a, b := reflect.New(t), reflect.New(t)
				if err := json.Unmarshal(j, a.Interface()); err != nil {
					r.Fail("compat:std-cannot-read", "%s: encoding/json cannot read %s: %v", what(), j, err)
				} else if err := enc.UnmarshalJSON(c, std, b.Interface()); err != nil {
					r.Fail("compat:cannot-read-std", "%s: %v", what(), err)
				} else if !deepEq(a.Elem().Interface(), b.Elem().Interface()) {
					r.Fail("compat:value", "%s: cross reading gave %#v and %#v", what(), a.Elem().Interface(), b.Elem().Interface())
				}
			})
		}
		// dynamic targets: arbitrary documents read into any
		doc := genJSON(g, 4)
		var a, b any
		errA := json.Unmarshal([]byte(doc), &a)
		errB := enc.UnmarshalJSON(c, []byte(doc), &b)
		if errA == nil {
			r.Eval("any" + doc)
			if errB != nil {
				r.Fail("compat:any-error", "%s: encoding/json reads it, this library says %v", doc, errB)
			} else if !deepEq(a, b) {
				r.Fail("compat:any-value", "%s: encoding/json reads %#v, this library %#v", doc, a, b)
			}
			var ma map[string]any
			var mb map[string]any
			if json.Unmarshal([]byte(doc), &ma) == nil {
				if err := enc.UnmarshalJSON(c, []byte(doc), &mb); err != nil || !deepEq(ma, mb) {
					r.Fail("compat:map-value", "%s: encoding/json reads %#v, this library %#v, %v", doc, ma, mb, err)
				}
			}
			var la []any
			var lb []any
			if json.Unmarshal([]byte(doc), &la) == nil {
				if err := enc.UnmarshalJSON(c, []byte(doc), &lb); err != nil || !deepEq(la, lb) {
					r.Fail("compat:list-value", "%s: encoding/json reads %#v, this library %#v, %v", doc, la, lb, err)
				}
			}
		}
	}
}

func hasNamedBytes(t reflect.Type) bool {
	switch t.Kind() {
	case reflect.Slice, reflect.Array:
		return t.Elem().Kind() == reflect.Uint8 || hasNamedBytes(t.Elem())
	case reflect.Pointer, reflect.Map:
		return hasNamedBytes(t.Elem())
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			if hasNamedBytes(t.Field(i).Type) {
				return true
			}
		}
	}
	return false
}
