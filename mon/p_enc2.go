package main

import (
	"encoding/json"
	"fmt"
	"math"
	"math/big"
	"math/rand"
	"reflect"
	"regexp"
	"slices"
	"strconv"
	"strings"
	"time"

	"github.com/Aize-Public/forego/ctx"
	"github.com/Aize-Public/forego/enc"
)

func init() {
	reg("C04", "number literals (boundaries of every width, fractions, exponents, long digit strings) and in-memory numeric nodes against every numeric target kind and integer map keys, and every Go number marshalled; oracle: exact rational arithmetic; non-trivial: distinct (literal, kind)", c04)
	reg("C05", "random struct types with renamed, skipped, hidden and optional fields, payloads with known, unknown, hidden and empty keys, targets pre-filled with data; non-trivial: distinct (type, payload) with at least one key", c05)
	reg("C06", "random documents against random target types, including functions, channels, complex numbers, interfaces and hidden fields, and random values of such types marshalled; non-trivial: distinct (type, document) pairs where the document is not null", c06)
	reg("C07", "random struct types and ordered pair lists, alone and nested in structs, lists and dynamic values, encoded and compared token by token; non-trivial: at least two fields", c07)
}

// ---------------------------------------------------------------- C04

var intKinds = []reflect.Type{reflect.TypeOf(int(0)), reflect.TypeOf(int8(0)), reflect.TypeOf(int16(0)), reflect.TypeOf(int32(0)), reflect.TypeOf(int64(0)),
	reflect.TypeOf(uint(0)), reflect.TypeOf(uint8(0)), reflect.TypeOf(uint16(0)), reflect.TypeOf(uint32(0)), reflect.TypeOf(uint64(0)), reflect.TypeOf(NamedInt(0)), reflect.TypeOf(NamedU8(0))}

func asBig(v reflect.Value) *big.Int {
	if v.CanInt() {
		return big.NewInt(v.Int())
	}
	return new(big.Int).SetUint64(v.Uint())
}

// ratOf: exact value of a JSON number literal (exponents kept small enough to compute).
func ratOf(s string) (*big.Rat, bool) {
	if i := strings.IndexAny(s, "eE"); i >= 0 {
		e, err := strconv.Atoi(s[i+1:])
		if err != nil || e > 5000 || e < -5000 {
			return nil, false
		}
	}
	return new(big.Rat).SetString(s)
}

func truncRat(q *big.Rat) *big.Int { return new(big.Int).Quo(q.Num(), q.Denom()) }

func rangeOf(t reflect.Type) (lo, hi *big.Int) {
	v := reflect.New(t).Elem()
	one := big.NewInt(1)
	if v.CanInt() {
		hi = new(big.Int).Sub(new(big.Int).Lsh(one, uint(t.Bits()-1)), one)
		lo = new(big.Int).Neg(new(big.Int).Lsh(one, uint(t.Bits()-1)))
		return
	}
	return big.NewInt(0), new(big.Int).Sub(new(big.Int).Lsh(one, uint(t.Bits())), one)
}

func c04(r *R) {
	c := quietCtx()
	// checkInt: n has the exact value q; plain says it is written as an integer
	checkInt := func(src string, n enc.Node, q *big.Rat, plain bool, t reflect.Type) {
		into := reflect.New(t)
		var err error
		if !r.Guard("numeric:panic", func() string { return src + " into " + t.String() }, func() { err = enc.Unmarshal(c, n, into.Interface()) }) {
			return
		}
		r.Eval(src + ">" + t.String())
		lo, hi := rangeOf(t)
		tr := truncRat(q)
		fits := tr.Cmp(lo) >= 0 && tr.Cmp(hi) <= 0
		if err != nil {
			r.Count("refused", 1)
			if plain && fits {
				r.Fail("numeric:refused", "%s fits %v but: %v", src, t, err)
			}
			return
		}
		r.Count("converted", 1)
		got := asBig(into.Elem())
		if got.Cmp(tr) != 0 {
			r.Fail("numeric:int-value", "%s into %v gave %s without an error", src, t, got)
		}
	}
	checkFloat := func(src string, n enc.Node, q *big.Rat, t reflect.Type) {
		into := reflect.New(t)
		var err error
		if !r.Guard("numeric:panic", func() string { return src + " into " + t.String() }, func() { err = enc.Unmarshal(c, n, into.Interface()) }) {
			return
		}
		r.Eval(src + ">" + t.String())
		f64, _ := q.Float64()
		f32, _ := q.Float32()
		if t.Bits() == 64 {
			if math.IsInf(f64, 0) {
				if err == nil {
					r.Fail("numeric:float-range", "%s does not fit %v but gave %v", src, t, into.Elem().Float())
				}
				return
			}
			if err != nil {
				r.Fail("numeric:refused", "%s fits %v but: %v", src, t, err)
			} else if got := into.Elem().Float(); got != f64 {
				r.Fail("numeric:float-value", "%s into %v gave %v, want %v", src, t, got, f64)
			}
			return
		}
		got := float32(into.Elem().Float())
		twice := float32(f64)
		switch {
		case err != nil && !math.IsInf(float64(f32), 0) && !math.IsInf(float64(twice), 0):
			r.Fail("numeric:refused", "%s fits %v but: %v", src, t, err)
		case err == nil && math.IsInf(float64(f32), 0):
			r.Fail("numeric:float-range", "%s does not fit %v but gave %v", src, t, got)
		case err == nil && got != f32 && got != twice: // rounding through float64 is tolerated
			r.Fail("numeric:float-value", "%s into %v gave %v, want %v", src, t, got, f32)
		}
	}
	f64t, f32t, nft := reflect.TypeOf(float64(0)), reflect.TypeOf(float32(0)), reflect.TypeOf(NamedF(0))
	literal := func(s string) {
		q, ok := ratOf(s)
		if !ok {
			return
		}
		n, err := enc.JSON{}.Decode(c, []byte(s))
		if err != nil {
			r.Fail("numeric:decode", "%s: %v", s, err)
			return
		}
		plain := !strings.ContainsAny(s, ".eE") && s != "-0" // -0 into an unsigned: either way
		for _, t := range intKinds {
			checkInt("literal "+s, n, q, plain, t)
		}
		if s != "-0" && s != "-0.0" {
			checkFloat("literal "+s, n, q, f64t)
			checkFloat("literal "+s, n, q, f32t)
			checkFloat("literal "+s, n, q, nft)
		}
		var a any
		if f, _ := q.Float64(); math.IsInf(f, 0) {
			if err := enc.Unmarshal(c, n, &a); err == nil {
				if got, ok := a.(float64); ok {
					r.Fail("numeric:any", "%s into any gave %v", s, got)
				}
			}
		} else {
			if err := enc.Unmarshal(c, n, &a); err != nil {
				r.Fail("numeric:any", "%s into any: %v", s, err)
			} else if got, ok := a.(float64); !ok || got != f {
				r.Fail("numeric:any", "%s into any gave %T %v", s, a, a)
			}
		}
		var d enc.Digits
		if err := enc.Unmarshal(c, n, &d); err != nil || string(d) != s {
			r.Fail("numeric:digits", "%s into digits gave %q, %v", s, d, err)
		}
		// typed accessors of the node
		if num, ok := n.(enc.Numeric); ok {
			accessors(r, "literal "+s, num, q, plain)
		}
		// keys of maps are numbers too
		if plain {
			for _, t := range intKinds[:11] {
				mt := reflect.MapOf(t, reflect.TypeOf(true))
				into := reflect.New(mt)
				var err error
				r.Guard("numeric:panic", func() string { return s + " key of " + mt.String() }, func() {
					err = enc.Unmarshal(c, enc.Map{s: enc.Bool(true)}, into.Interface())
				})
				r.Eval("key " + s + mt.String())
				lo, hi := rangeOf(t)
				fits := q.IsInt() && q.Num().Cmp(lo) >= 0 && q.Num().Cmp(hi) <= 0
				if fits && err != nil {
					r.Fail("numeric:key-refused", "key %s fits %v but: %v", s, t, err)
				} else if err == nil {
					for _, k := range into.Elem().MapKeys() {
						if asBig(k).Cmp(q.Num()) != 0 {
							r.Fail("numeric:key-value", "key %s became %s in %v", s, asBig(k), mt)
						}
					}
					if into.Elem().Len() != 1 {
						r.Fail("numeric:key-value", "key %s lost in %v", s, mt)
					}
				}
			}
		}
	}
	for _, s := range []string{"1.5e3", "15e-1", "1e2", "1.0e0", "12.5e1", "99999999999999999999999", "1e19", "1.8446744073709551615e19", "0.9999999999999999999", "-1", "-0.9", "-1.0", "255.0", "256.0", "255.9"} {
		literal(s)
	}
	for i := 0; i < 48; i++ {
		literal([]string{"0", "1", "-1", "0.0", "1e0", "1E+5", "1e-5", "10.50", "1.0", "1e400", "-1e400", "1e-400",
			"9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "18446744073709551615", "18446744073709551616",
			"255", "256", "-128", "-129", "127", "128", "32767", "32768", "65535", "65536", "2147483647", "2147483648", "4294967295", "4294967296", "-2147483648", "-2147483649", "-32768", "-32769",
			"9007199254740993", "3.4028235e38", "3.4028236e38", "1.7976931348623157e308", "1e309", "0.1", "1.5e3", "12.7", "-12.7", "-0.5", "3.5e38", "100"}[i])
	}
	for i, n := 0, r.N(2500, 60000); i < n; i++ {
		s := genNumberText(r.Sub("lit", i))
		if i < 5 {
			r.Sample("literal %s", s)
		}
		literal(s)
	}
	// in-memory nodes and Go numbers
	for i, n := 0, r.N(2500, 60000); i < n; i++ {
		g := r.Sub("node", i)
		k := genIntBits(g, 64)
		q := new(big.Rat).SetInt64(k)
		for _, t := range intKinds {
			checkInt(fmt.Sprintf("Integer %d", k), enc.Integer(k), q, true, t)
		}
		checkFloat(fmt.Sprintf("Integer %d", k), enc.Integer(k), q, f64t)
		checkFloat(fmt.Sprintf("Integer %d", k), enc.Integer(k), q, f32t)
		accessors(r, fmt.Sprintf("Integer %d", k), enc.Integer(k), q, true)
		f := genFloat(g, 64)
		if i%7 == 0 {
			f = []float64{float64(int64(1) << 53), 1 << 62, 1 << 63, 1 << 64, -(1 << 63), 255, 256, -1, -0.5, 1e30, 127.5, 128}[g.Intn(12)]
		}
		qf := new(big.Rat)
		qf.SetFloat64(f)
		for _, t := range intKinds {
			checkInt(fmt.Sprintf("Float %v", f), enc.Float(f), qf, false, t)
		}
		checkFloat(fmt.Sprintf("Float %v", f), enc.Float(f), qf, f64t)
		checkFloat(fmt.Sprintf("Float %v", f), enc.Float(f), qf, f32t)
		accessors(r, fmt.Sprintf("Float %v", f), enc.Float(f), qf, false)
		// marshal Go numbers: the text denotes exactly the number
		for _, t := range append(append([]reflect.Type{}, intKinds...), f64t, f32t, nft) {
			v := genValue(g, t, 0)
			j, err := enc.MarshalJSON(c, v.Interface())
			r.Eval(fmt.Sprintf("marshal %v %v", t, v))
			if err != nil {
				r.Fail("numeric:marshal", "%v %v: %v", t, v, err)
				continue
			}
			got, ok := ratOf(string(j))
			want := new(big.Rat)
			if v.CanFloat() {
				fgot, _ := strconv.ParseFloat(string(j), 64)
				if !ok || fgot != v.Float() {
					r.Fail("numeric:marshal", "%v %v written as %s", t, v, j)
				}
				continue
			}
			want.SetInt(asBig(v))
			if !ok || got.Cmp(want) != 0 {
				r.Fail("numeric:marshal", "%v %v written as %s", t, v, j)
			}
		}
	}
	c04Keys(r)
	// what is not a number is an error, in both directions
	for _, f := range []float64{math.NaN(), math.Inf(1), math.Inf(-1)} {
		for _, in := range []any{f, []float64{1, f}, map[string]any{"x": f}, struct{ X float64 }{f}, float32(f), &f} {
			r.Guard("numeric:nan-panic", func() string { return fmt.Sprintf("marshal %T %v", in, f) }, func() {
				j, err := enc.MarshalJSON(c, in)
				r.Eval(fmt.Sprintf("nan %T %v", in, f))
				if err == nil && !json.Valid(j) {
					r.Fail("numeric:nan", "%T %v written as %s", in, f, j)
				}
				if err == nil && json.Valid(j) && string(j) != "null" {
					r.Fail("numeric:nan", "%T %v written as %s without an error", in, f, j)
				}
			})
		}
		for _, t := range intKinds {
			into := reflect.New(t)
			if err := enc.Unmarshal(c, enc.Float(f), into.Interface()); err == nil {
				r.Fail("numeric:int-value", "Float %v into %v gave %v", f, t, into.Elem())
			}
		}
	}
}

// c04Keys: the keys of a map with numeric keys are decimal numbers, and keep their value in both directions.
func c04Keys(r *R) {
	c := quietCtx()
	plain := regexp.MustCompile(`^-?(0|[1-9][0-9]*)$`)
	loose := regexp.MustCompile(`^[+-]?[0-9]+$`)
	fixed := []string{"0", "-0", "1", "-1", "007", "010", "0x10", "0X1f", "0b11", "0o17", "1_000", "+5", " 5", "5 ", "\t5", "5\n", "", "-", "+", "1.0", "1.", ".5", "1e1", "1e0", "0x", "\u0661", "\u00a05", "5\x00", "--5", "null", "true", "127", "128", "-128", "-129", "255", "256", "65535", "65536",
		"9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "18446744073709551615", "18446744073709551616", "NaN", "Inf"}
	for i := 0; i < r.N(600, 20000); i++ {
		g := r.Sub("key", i)
		key := ""
		switch {
		case i < len(fixed):
			key = fixed[i]
		case g.Intn(3) == 0: // a number, dressed up
			key = []string{"0", "00", "+", " ", "0x", "1_", "\u2212", ""}[g.Intn(8)] + fmt.Sprint(genIntBits(g, 64)) + []string{"", " ", ".0", "e0", "_0", "L"}[g.Intn(6)]
		default:
			key = fmt.Sprint(genIntBits(g, 64))
		}
		for _, t := range intKinds {
			into := reflect.New(reflect.MapOf(t, reflect.TypeOf("")))
			var err error
			what := func() string { return fmt.Sprintf("key %q into %v", key, into.Type().Elem()) }
			if !r.Guard("numeric:panic", what, func() {
				err = enc.Unmarshal(c, enc.Map{key: enc.String("x")}, into.Interface())
			}) {
				continue
			}
			r.Eval("key " + key + ">" + t.String())
			lo, hi := rangeOf(t)
			n, isNum := new(big.Int), loose.MatchString(key)
			if isNum {
				n.SetString(strings.TrimPrefix(key, "+"), 10)
			}
			fits := isNum && n.Cmp(lo) >= 0 && n.Cmp(hi) <= 0
			switch {
			case err != nil && fits && plain.MatchString(key) && key != "-0":
				r.Fail("numeric:key-refused", "%s: %v", what(), err)
			case err == nil && !fits:
				r.Fail("numeric:key", "%s gave %v", what(), into.Elem())
			case err == nil:
				if ks := into.Elem().MapKeys(); len(ks) != 1 || asBig(ks[0]).Cmp(n) != 0 {
					r.Fail("numeric:key", "%s gave %v", what(), into.Elem())
				}
			}
		}
		// and out: distinct keys stay distinct and denote themselves
		fm := map[float64]int{}
		for k := 0; k < 4; k++ {
			f := genFloat(g, 64)
			fm[f], fm[math.Nextafter(f, 0)] = k, k
		}
		um := map[uint64]int{g.Uint64(): 1, math.MaxUint64 - uint64(g.Intn(3)): 2}
		im := map[NamedInt]int{NamedInt(int64(g.Uint64())): 1}
		keys := func(in any) map[string]any {
			j, err := enc.MarshalJSON(c, in)
			out := map[string]any{}
			if err == nil {
				err = json.Unmarshal(j, &out)
			}
			if n := reflect.ValueOf(in).Len(); err != nil || len(out) != n {
				r.Fail("numeric:key-written", "%v written as %s, %v", in, j, err)
			}
			return out
		}
		for k := range keys(fm) {
			if f, err := strconv.ParseFloat(k, 64); err != nil {
				r.Fail("numeric:key-written", "%v has the key %q", fm, k)
			} else if _, ok := fm[f]; !ok {
				r.Fail("numeric:key-written", "%v has the key %q", fm, k)
			}
		}
		for k := range keys(um) {
			if u, err := strconv.ParseUint(k, 10, 64); err != nil || um[u] == 0 {
				r.Fail("numeric:key-written", "%v has the key %q", um, k)
			}
		}
		for k := range keys(im) {
			if u, err := strconv.ParseInt(k, 10, 64); err != nil || im[NamedInt(u)] == 0 {
				r.Fail("numeric:key-written", "%v has the key %q", im, k)
			}
		}
	}
}

func accessors(r *R, src string, n enc.Numeric, q *big.Rat, plain bool) {
	tr := truncRat(q)
	if i, err := n.Int64(); err == nil {
		if !tr.IsInt64() || tr.Int64() != i {
			r.Fail("numeric:accessor", "%s: Int64 gave %d", src, i)
		}
	} else if plain && tr.IsInt64() {
		r.Fail("numeric:accessor", "%s: Int64: %v", src, err)
	}
	if u, err := n.Uint64(); err == nil {
		if !tr.IsUint64() || tr.Uint64() != u {
			r.Fail("numeric:accessor", "%s: Uint64 gave %d", src, u)
		}
	} else if plain && tr.IsUint64() {
		r.Fail("numeric:accessor", "%s: Uint64: %v", src, err)
	}
	want, _ := q.Float64()
	if f, err := n.Float64(); err == nil {
		if f != want {
			r.Fail("numeric:accessor", "%s: Float64 gave %v", src, f)
		}
	} else if !math.IsInf(want, 0) {
		r.Fail("numeric:accessor", "%s: Float64: %v", src, err)
	}
}

// ---------------------------------------------------------------- C05

func c05(r *R) {
	c := quietCtx()
	n := r.N(3000, 80000)
	for i := 0; i < n; i++ {
		g := r.Sub("struct", i)
		t := genStructType(g, 2, typeOpts{namedKinds: true, skipped: true, any: true})
		v := genValue(g, t, 3)
		// what a reader of the documentation expects on the wire
		fields := map[string]int{}
		var order []string
		for f := 0; f < t.NumField(); f++ {
			ft := t.Field(f)
			tag, _, _ := strings.Cut(ft.Tag.Get("json"), ",")
			if !ft.IsExported() || ft.Tag.Get("json") == "-" {
				continue
			}
			if tag == "" {
				tag = ft.Name
			}
			fields[tag] = f
			order = append(order, tag)
		}
		what := func() string { return fmt.Sprintf("%v = %s", t, dump(v.Interface())) }
		r.Guard("struct:panic", what, func() {
			node, err := enc.Marshal(c, v.Interface())
			if err != nil {
				r.Fail("struct:marshal", "%s: %v", what(), err)
				return
			}
			m, err := enc.AsMap(c, node)
			if err != nil {
				r.Fail("struct:marshal", "%s: %v", what(), err)
				return
			}
			for k := range m {
				f, ok := fields[k]
				if !ok {
					r.Fail("struct:leak", "%s: wrote the key %q", what(), k)
					continue
				}
				if strings.Contains(t.Field(f).Tag.Get("json"), ",omitempty") && v.Field(f).IsZero() {
					r.Fail("struct:omitempty", "%s: empty optional field %q was written", what(), k)
				}
			}
			for k, f := range fields {
				if _, ok := m[k]; !ok && !(strings.Contains(t.Field(f).Tag.Get("json"), ",omitempty") && v.Field(f).IsZero()) {
					r.Fail("struct:missing", "%s: field %q not written", what(), k)
				}
			}
		})
		// a payload: some known keys, some that must not reach any field
		payload := enc.Map{}
		want := reflect.New(t).Elem()
		fillValue(g, want, 3)
		target := reflect.New(t)
		target.Elem().Set(want)
		newv := genValue(g, t, 3)
		for k, f := range fields {
			if g.Intn(2) == 0 {
				node, err := enc.Marshal(c, newv.Field(f).Interface())
				if err != nil {
					r.Fail("struct:marshal", "%v: %v", newv.Field(f), err)
					return
				}
				payload[k] = node
				mergeExpected(want.Field(f), newv.Field(f))
			}
		}
		unknown := map[string]enc.Node{}
		for f := 0; f < t.NumField(); f++ {
			ft := t.Field(f)
			for _, k := range []string{ft.Name, strings.ToLower(ft.Name), strings.ToUpper(ft.Name), "-", "", "hidden", "zz"} {
				if _, known := fields[k]; !known && g.Intn(3) == 0 {
					unknown[k] = enc.String("intruder " + k)
				}
			}
			// the wire representation of a skipped field's type, so that a wrong mapping would fit
			if ft.IsExported() && ft.Tag.Get("json") == "-" {
				for _, k := range []string{"", "-", ft.Name} {
					if _, known := fields[k]; !known && g.Intn(2) == 0 {
						if node, err := enc.Marshal(c, genValue(g, ft.Type, 2).Interface()); err == nil {
							unknown[k] = node
						}
					}
				}
			}
		}
		for k, x := range unknown {
			payload[k] = x
		}
		if len(payload) > 0 {
			r.Eval(t.String() + payload.GoString())
		} else {
			r.Eval("")
		}
		if i < 3 {
			r.Sample("%v <- %v (unknown %v)", t, payload, sortedKeys(unknown))
		}
		var given enc.Node = payload
		if g.Intn(2) == 0 {
			ps := enc.Pairs{}
			for _, k := range sortedKeys(payload) {
				ps = append(ps, enc.Pair{Name: k, JSON: k, Value: payload[k]})
			}
			given = ps
		}
		calls := map[string]int{}
		nodes := map[string]enc.Node{}
		h := enc.Handler{UnhandledFields: func(c ctx.C, path []any, n enc.Node) error {
			k, _ := path[len(path)-1].(string)
			calls[k]++
			nodes[k] = n
			return nil
		}}
		desc := func() string { return fmt.Sprintf("%v <- %v", t, payload) }
		r.Guard("struct:unmarshal-panic", desc, func() {
			if err := h.Unmarshal(c, given, target.Interface()); err != nil {
				r.Fail("struct:unmarshal", "%s: %v", desc(), err)
				return
			}
			for f := 0; f < t.NumField(); f++ {
				a, b := fieldValue(target.Elem(), f), fieldValue(want, f)
				if !looseEq(c, a, b) {
					r.Fail("struct:field", "%s: field %s is %#v, want %#v", desc(), t.Field(f).Name, a, b)
				}
			}
			for k := range unknown {
				if calls[k] != 1 {
					r.Fail("struct:unhandled", "%s: unknown key %q reported %d times", desc(), k, calls[k])
				} else if !deepEq(nodes[k], unknown[k]) {
					r.Fail("struct:unhandled", "%s: unknown key %q reported with %v", desc(), k, nodes[k])
				}
			}
			for k := range calls {
				if _, ok := unknown[k]; !ok {
					r.Fail("struct:unhandled", "%s: known key %q reported as unknown", desc(), k)
				}
			}
			r.Count("unknown_keys", int64(len(unknown)))
			// a refusal of an unknown key is reported
			if len(unknown) > 0 {
				boom := fmt.Errorf("refused")
				err := enc.Handler{UnhandledFields: func(ctx.C, []any, enc.Node) error { return boom }}.Unmarshal(c, given, reflect.New(t).Interface())
				if err == nil {
					r.Fail("struct:unhandled-error", "%s: the refusal of an unknown key was dropped", desc())
				}
				// nested one level down
				nt := reflect.StructOf([]reflect.StructField{{Name: "In", Type: reflect.SliceOf(reflect.PointerTo(t))}})
				k2 := map[string]int{}
				places := map[string]int{}
				var kept [][]any
				outer := enc.Handler{UnhandledFields: func(c ctx.C, path []any, n enc.Node) error {
					k, _ := path[len(path)-1].(string)
					k2[k]++
					if len(path) > 1 {
						places[fmt.Sprint(path[len(path)-2:]...)]++
					}
					kept = append(kept, path)
					return nil
				}}
				for extra := g.Intn(4); extra > 0; extra-- {
					outer = outer.Append("up") // callers may say where the node comes from
				}
				err = outer.Unmarshal(c, enc.Map{"In": enc.List{given, given}, "other": enc.Nil{}}, reflect.New(nt).Interface())
				if err != nil {
					r.Fail("struct:unmarshal", "nested %s: %v", desc(), err)
				}
				for k := range unknown {
					w := 2
					if k == "other" {
						w = 3
					}
					if k2[k] != w {
						r.Fail("struct:unhandled", "nested twice, %s: unknown key %q reported %d times", desc(), k, k2[k])
					}
				}
				// the path handed over tells the place, and goes on telling it
				for _, path := range kept {
					if len(path) > 1 {
						places[fmt.Sprint(path[len(path)-2:]...)]--
					}
				}
				for at, n := range places {
					if n != 0 {
						r.Fail("struct:unhandled-path", "nested twice, %s: the path of an unknown key changed after it was reported: %d x %s", desc(), n, at)
					}
				}
				for k := range unknown {
					for idx := 0; idx < 2; idx++ {
						if _, ok := places[fmt.Sprint(idx, k)]; !ok {
							r.Fail("struct:unhandled-path", "nested twice, %s: unknown key %q of element %d reported at %v", desc(), k, idx, places)
						}
					}
				}
				if _, ok := unknown["other"]; !ok && k2["other"] != 1 {
					r.Fail("struct:unhandled", "outer unknown key reported %d times", k2["other"])
				}
			}
			// without a callback unknown keys are ignored
			if err := enc.Unmarshal(c, given, reflect.New(t).Interface()); err != nil {
				r.Fail("struct:unmarshal", "%s without callback: %v", desc(), err)
			}
		})
	}
	// the hidden fields of a real struct are never written, whatever the payload says
	type sec struct {
		Open   string `json:"open"`
		Secret string `json:"-"`
		hidden string
		Opt    *int `json:"opt,omitempty"`
	}
	for i, n := 0, r.N(500, 5000); i < n; i++ {
		g := r.Sub("sec", i)
		s := sec{Secret: "s3cret", hidden: "h1dden", Open: "keep"}
		m := enc.Map{}
		for _, k := range []string{"", "-", "Secret", "secret", "hidden", "Hidden", "open", "Open", "opt"} {
			if g.Intn(2) == 0 {
				m[k] = enc.String("intruder")
			}
		}
		delete(m, "opt")
		r.Eval("sec" + fmt.Sprint(sortedKeys(m)))
		if err := enc.Unmarshal(c, m, &s); err != nil {
			r.Fail("struct:unmarshal", "%v: %v", m, err)
		}
		if s.Secret != "s3cret" || s.hidden != "h1dden" {
			r.Fail("struct:hidden-written", "payload %v wrote hidden fields: %+v", sortedKeys(m), s)
		}
		wantOpen := "keep"
		if m["open"] != nil {
			wantOpen = "intruder"
		}
		if s.Open != wantOpen {
			r.Fail("struct:field", "payload %v: open is %q, want %q", sortedKeys(m), s.Open, wantOpen)
		}
	}
}

// mergeExpected: what unmarshalling the document of src into dst leaves there. Structs keep the fields the
// document does not mention; everything else is replaced.
func mergeExpected(dst, src reflect.Value) {
	if dst.Kind() != reflect.Struct {
		dst.Set(src)
		return
	}
	for i := 0; i < src.NumField(); i++ {
		ft := src.Type().Field(i)
		tag := ft.Tag.Get("json")
		if !ft.IsExported() || tag == "-" || strings.HasSuffix(tag, ",omitempty") && src.Field(i).IsZero() {
			continue
		}
		mergeExpected(dst.Field(i), src.Field(i))
	}
}

func fieldValue(v reflect.Value, f int) any {
	if !v.Type().Field(f).IsExported() {
		return fmt.Sprint(v.Field(f))
	}
	return v.Field(f).Interface()
}

// looseEq: equal, or (for dynamic values) the same document.
func looseEq(c ctx.C, a, b any) bool {
	if deepEq(a, b) {
		return true
	}
	if t := reflect.TypeOf(a); t == nil || !hasAny(t) && t != reflect.TypeOf(b) {
		// fallthrough to document comparison only for dynamic data
		if t != nil && t.Kind() != reflect.Map && t.Kind() != reflect.Slice && t.Kind() != reflect.Float64 {
			return false
		}
	}
	x, e1 := enc.MarshalJSON(c, a)
	y, e2 := enc.MarshalJSON(c, b)
	if e1 != nil || e2 != nil {
		return false
	}
	p, _ := decodeStd(x)
	q, _ := decodeStd(y)
	return deepEq(p, q)
}

// ---------------------------------------------------------------- C06

type badHolder struct {
	A  int
	F  func()
	C  chan int
	Z  complex128
	E  error
	S  fmt.Stringer
	U  uintptr
	p  *int
	Ok string
}

func c06(r *R) {
	c06Tables(r)
	c := quietCtx()
	_ = badHolder{}.p
	n := r.N(6000, 200000)
	for i := 0; i < n; i++ {
		g := r.Sub("case", i)
		t := genType(g, 3, typeOpts{any: true, namedKinds: true, badKinds: true, skipped: true})
		if i%50 == 0 {
			t = reflect.TypeOf(badHolder{})
		}
		doc := genJSON(g, 3)
		if g.Intn(3) == 0 {
			doc = docFor(g, t, 3)
		}
		if doc != "null" {
			r.Eval(t.String() + doc)
		} else {
			r.Eval("")
		}
		if i < 3 {
			r.Sample("%s into %v", doc, t)
		}
		what := func() string { return fmt.Sprintf("unmarshal %s into %v", doc, t) }
		n, err := enc.JSON{}.Decode(c, []byte(doc))
		if err != nil {
			r.Fail("robust:decode", "%s: %v", doc, err)
			continue
		}
		into := reflect.New(t)
		if g.Intn(2) == 0 && hasNoBad(t) {
			fillValue(g, into.Elem(), 3)
		}
		r.Guard("robust:unmarshal-panic", what, func() {
			err := enc.Unmarshal(c, n, into.Interface())
			if err == nil {
				r.Count("accepted", 1)
				if m := mismatch(n, t, 0); m != "" {
					r.Fail("robust:mismatch-accepted", "%s: %s, yet no error", what(), m)
				}
			} else {
				r.Count("refused", 1)
				_ = err.Error()
			}
		})
		// every kind of node, not only those a decoder makes
		node := genOddNode(g, 2)
		r.Guard("robust:node-panic", func() string { return fmt.Sprintf("unmarshal %#v into %v", node, t) }, func() {
			_ = enc.Unmarshal(c, node, reflect.New(t).Interface())
			r.Eval(fmt.Sprintf("%#v>%v", node, t))
		})
		// and the way out
		v := genValue(g, t, 3)
		fillBad(g, v, 3)
		r.Guard("robust:marshal-panic", func() string { return fmt.Sprintf("marshal a %v", t) }, func() {
			j, err := enc.MarshalJSON(c, v.Interface())
			if err == nil {
				r.Count("marshalled", 1)
				if !json.Valid(j) {
					r.Fail("robust:invalid-output", "%v written as %s", t, j)
				}
			} else {
				r.Count("marshal_refused", 1)
			}
		})
		r.Guard("robust:string-panic", func() string { return fmt.Sprintf("printing %s", doc) }, func() {
			_ = n.String()
			_ = n.GoString()
			_ = node.String()
			_ = node.GoString()
		})
	}
	// nil pointers of types that write themselves
	type T struct{ X *int }
	for name, in := range map[string]any{"nil *time.Time": nilTime(), "nil *enc.Time": (*enc.Time)(nil), "nil *enc.Duration": (*enc.Duration)(nil), "nil *hookVal": (*hookVal)(nil), "nil *jsonVal": (*jsonVal)(nil),
		"struct of nils":          struct{ T, D, H, J any }{nilTime(), (*enc.Duration)(nil), (*hookVal)(nil), (*jsonVal)(nil)},
		"typed nil pointers":      nilFields{},
		"slice of nil":            []*hookVal{nil},
		"map of nil":              map[string]*jsonVal{"a": nil},
		"nil *ctx.Error":          (*ctx.Error)(nil),
		"nil struct":              (*T)(nil),
		"pointer to nil":          ptrTo((*hookVal)(nil)),
		"nil error":               error(nil),
		"errors with odd content": []error{fmt.Errorf("x"), nil},
		"errno":                   errnoValue,
	} {
		r.Guard("robust:nil-panic", func() string { return "marshal " + name }, func() {
			j, err := enc.MarshalJSON(c, in)
			r.Eval("nil" + name)
			if err == nil && !json.Valid(j) {
				r.Fail("robust:invalid-output", "%s written as %s", name, j)
			}
			if strings.HasPrefix(name, "nil ") && err == nil && string(j) != "null" {
				r.Fail("robust:nil-value", "%s written as %s", name, j)
			}
		})
	}
}

type cycT struct {
	Name string
	Next *cycT
	Any  any
	L    []*cycT
	M    map[string]any
}
type cycPtr *cycPtr
type cycList []cycList
type cycMap map[string]cycMap

// cycles makes values that contain themselves, in every way there is.
func cycles(g *rand.Rand) map[string]any {
	out := map[string]any{}
	a, b := &cycT{Name: "a"}, &cycT{Name: "b"}
	a.Next, b.Next = b, a
	out["pointer"] = a
	d := &cycT{}
	d.Any = map[string]any{"x": []any{1, d}}
	out["dynamic"] = *d
	l := []any{1, nil}
	l[1] = l
	out["list"] = l
	m := map[string]any{}
	m["m"] = m
	out["map"] = m
	var p cycPtr
	p = cycPtr(&p)
	out["pointer to itself"] = p
	cl := make(cycList, 1)
	cl[0] = cl
	out["list of its type"] = cl
	cm := cycMap{}
	cm["x"] = cm
	out["map of its type"] = cm
	em := enc.Map{}
	em["e"] = enc.Map{"x": em}
	out["node map"] = em
	head := &cycT{}
	at := head
	for i := 1 + g.Intn(3000); i > 0; i-- {
		at.Next = &cycT{}
		at = at.Next
	}
	out["late"] = head
	at.L = []*cycT{nil, at}
	x := &cycT{}
	x.M = map[string]any{"a": &x}
	out["pointer to pointer"] = struct{ X **cycT }{&x}
	return out
}

// deepShared makes values that reach the same thing several times, far down, without containing themselves.
func deepShared() map[string]any {
	deep := func(v any) any {
		for i := 0; i < 1200; i++ {
			switch i % 3 {
			case 0:
				v = []any{v}
			case 1:
				v = map[string]any{"x": v}
			case 2:
				v = &cycT{Any: v}
			}
		}
		return v
	}
	leaf := &cycT{Name: "leaf"}
	m := map[string]any{"m": 1}
	l := []any{1, 2, nil}
	l[2] = l[:1]
	e := []any{}
	arr := &[2]cycT{{Name: "first"}}
	type first struct{ In struct{ P *int } }
	f := &first{}
	return map[string]any{
		"pointer twice":             deep([]any{leaf, leaf, map[string]any{"a": leaf, "b": &cycT{Next: leaf}}}),
		"map twice":                 deep([]any{m, m, []any{m}}),
		"list in its own array":     deep(l),
		"list twice":                deep([]any{l, l}),
		"empty lists":               deep([]any{e, []any{e, e[:0]}, l[:0]}),
		"struct and its first item": deep([]any{arr, &arr[0], &arr[0].Name, f, &f.In}),
		"nil pointers":              deep([]any{(*cycT)(nil), []any(nil), map[string]any(nil), (*int)(nil), (*jsonVal)(nil), (*time.Time)(nil), (*ctx.Error)(nil), (*enc.Duration)(nil), (*enc.Pairs)(nil), (*upperStr)(nil), struct{ H *upperStr }{}}),
	}
}

type withMethods interface{ Foo() }

func (cycT) Foo() {}

type c06Err struct{ how int }

func (e c06Err) MarshalJSON() ([]byte, error) {
	switch e.how {
	case 0:
		return nil, fmt.Errorf("no")
	case 1:
		return []byte("{"), nil
	case 2:
		return []byte(`{"a":1}}`), nil
	}
	return []byte("nope"), nil
}

type c06NodeErr struct{}

func (c06NodeErr) MarshalNode(ctx.C) (enc.Node, error) { return nil, fmt.Errorf("no") }

// c06Tables: pairs and values about which there is no doubt.
func c06Tables(r *R) {
	c := quietCtx()
	type S struct{ A, B int }
	into := map[string]reflect.Type{
		"bool": reflect.TypeOf(true), "int": reflect.TypeOf(1), "int8": reflect.TypeOf(int8(1)), "int64": reflect.TypeOf(int64(1)), "uint": reflect.TypeOf(uint(1)), "float": reflect.TypeOf(1.5), "string": reflect.TypeOf(""), "list": reflect.TypeOf([]int{}),
		"bools": reflect.TypeOf([]bool{}), "array": reflect.TypeOf([2]int{}), "map": reflect.TypeOf(map[string]int{}), "mapany": reflect.TypeOf(map[string]any{}), "struct": reflect.TypeOf(S{}), "chan": reflect.TypeOf(make(chan int)), "func": reflect.TypeOf(func() {}),
		"complex": reflect.TypeOf(1i), "methods": reflect.TypeOf((*withMethods)(nil)).Elem(), "boolkeys": reflect.TypeOf(map[bool]int{}), "floatkeys": reflect.TypeOf(map[float64]int{}), "arraykeys": reflect.TypeOf(map[[2]int]int{}), "structkeys": reflect.TypeOf(map[S]int{}),
		"complexkeys": reflect.TypeOf(map[complex128]int{}), "intkeys": reflect.TypeOf(map[int8]int{}), "uintkeys": reflect.TypeOf(map[uint8]int{}), "time": reflect.TypeOf(time.Time{}),
	}
	fits := map[string]string{ // what can be stored where, of the above
		"time": "time", "duration": "int64", "bool": "bool", "string": "string", "integer": "int int8 int64 uint float string", "float": "int int8 int64 uint float string", "digits": "int int8 int64 uint float string",
		"list": "list array", "map": "map mapany struct", "pairs": "map mapany struct", "empty list": "list bools", "empty map": "map mapany struct boolkeys floatkeys arraykeys structkeys complexkeys intkeys uintkeys", "strings": "", "bad keys": "map mapany struct",
	}
	nodes := map[string]enc.Node{
		"time": enc.Time(time.Unix(1e9, 5)), "duration": enc.Duration(3e9), "bool": enc.Bool(true), "string": enc.String("tr"), "integer": enc.Integer(1), "float": enc.Float(2), "digits": enc.Digits("3"), "list": enc.List{enc.Digits("1"), enc.Integer(2)},
		"map": enc.Map{"A": enc.Integer(1)}, "pairs": enc.Pairs{{Name: "B", JSON: "B", Value: enc.Digits("4")}}, "empty list": enc.List{}, "empty map": enc.Map{}, "strings": enc.List{enc.String("x"), enc.Bool(true)}, "bad keys": enc.Map{"300": enc.Integer(1), "-129": enc.Integer(2)},
	}
	for nn, node := range nodes {
		for tn, t := range into {
			want := strings.Contains(" "+fits[nn]+" ", " "+tn+" ")
			for _, wrap := range []string{"", "pointer", "list", "map", "struct", "array", "key", "hook"} {
				w, wt, ww := node, t, want
				switch wrap {
				case "pointer":
					wt = reflect.PointerTo(reflect.PointerTo(t))
				case "list":
					w, wt = enc.List{node, node}, reflect.SliceOf(t)
				case "map":
					w, wt = enc.Map{"k": node}, reflect.MapOf(reflect.TypeOf(""), t)
				case "struct":
					w, wt = enc.Map{"f": node}, reflect.StructOf([]reflect.StructField{{Name: "F", Type: t, Tag: `json:"f"`}})
				case "array":
					w, wt = enc.List{node}, reflect.ArrayOf(1, t)
				case "key":
					w, wt = enc.Pairs{{Name: "K", JSON: "5", Value: node}}, reflect.MapOf(reflect.TypeOf(1), t)
				case "hook":
					if !want {
						continue
					}
					wt = reflect.TypeOf(recAny{})
				}
				what := func() string { return fmt.Sprintf("unmarshal %#v into %v", w, wt) }
				r.Guard("robust:node-panic", what, func() {
					v := reflect.New(wt)
					err := enc.Unmarshal(c, w, v.Interface())
					r.Eval(nn + ">" + tn + wrap)
					if err == nil && !ww {
						r.Fail("robust:mismatch-accepted", "%s: stored %v, no error", what(), v.Elem().Interface())
					}
					if err != nil && ww {
						r.Fail("robust:refused", "%s: %v", what(), err)
					}
				})
			}
		}
	}
	n := 3
	bad := map[string]any{"bool keys": map[bool]int{true: 1}, "array keys": map[[2]int]int{{1, 2}: 3}, "struct keys": map[S]int{{1, 2}: 3}, "pointer to struct keys": map[*S]int{{1, 2}: 3}, "dynamic bool keys": map[any]any{true: 1},
		"nil keys": map[any]any{nil: 1}, "complex keys": map[complex128]int{1i: 1}, "chan": make(chan int), "func": func() {}, "complex": 1i, "NaN": math.NaN(), "Inf": math.Inf(-1), "uintptr": uintptr(3), "unsafe": reflect.ValueOf(&n).UnsafePointer(),
		"refusing": c06Err{0}, "half": c06Err{1}, "more": c06Err{2}, "nonsense": c06Err{3}, "hook refusing": c06NodeErr{}, "NaN32": float32(math.NaN()), "pointer to NaN": ptrTo(math.NaN()), "keys refusing": map[c06Err]int{{0}: 1}, "hook keys refusing": map[c06NodeErr]int{{}: 1}}
	g := r.Sub("cycles", 0)
	for k, v := range deepShared() { // much is shared, nothing contains itself
		r.Guard("robust:deep-panic", func() string { return "marshal " + k }, func() {
			if _, err := enc.Marshal(c, v); err != nil {
				r.Fail("robust:deep-refused", "%s: %.300v", k, err)
			}
			r.Eval("deep " + k)
		})
	}
	for k, v := range cycles(g) {
		bad["contains itself: "+k] = v
	}
	for bn, b := range bad {
		for wn, in := range map[string]any{"": b, "list ": []any{1, b}, "map ": map[string]any{"k": b}, "struct ": struct{ F any }{b}, "array ": [1]any{b}, "pointer ": &b, "key's value ": map[int]any{1: b}, "deep ": []map[string]any{{"a": &[]any{b}}}, "node ": enc.Map{}} {
			if wn == "node " {
				continue
			}
			what := func() string { return "marshal " + wn + bn }
			r.Within("robust:marshal", what(), func() {
				node, err := enc.Marshal(c, in)
				r.Eval("bad" + wn + bn)
				if err == nil {
					r.Fail("robust:unwritable-accepted", "%s: no error, gives a %T", what(), node)
				}
				if j, err := enc.MarshalJSON(c, in); err == nil {
					r.Fail("robust:unwritable-accepted", "%s: no error, gives %.100s", what(), j)
				}
			})
		}
	}
	// deep, long and shared is not a cycle
	for _, depth := range []int{10, 400, 1200} {
		shared := &cycT{Name: "shared"}
		head := shared
		for i := 0; i < depth; i++ {
			head = &cycT{Next: head, L: []*cycT{shared, shared}, M: map[string]any{"a": shared, "b": shared}, Any: []any{shared.M}}
			if i < depth-5 { // the deepest are the largest
				head.M, head.Any = nil, nil
			}
		}
		r.Within("robust:marshal", "a long chain", func() {
			j, err := enc.MarshalJSON(c, head)
			r.Eval(fmt.Sprint("chain", depth))
			if err != nil {
				r.Fail("robust:refused", "a chain of %d: %v", depth, err)
				return
			}
			var back *cycT
			if err := enc.UnmarshalJSON(c, j, &back); err != nil {
				r.Fail("robust:refused", "a chain of %d, read back: %v", depth, err)
				return
			}
			k := 0
			for ; back != nil; back = back.Next {
				k++
			}
			if k != depth+1 {
				r.Fail("robust:chain", "a chain of %d reads back as one of %d", depth, k-1)
			}
		})
	}
	for _, x := range []enc.Node{enc.String("s"), enc.List{}, enc.Nil{}, enc.Integer(2), enc.Time{}, enc.Bool(true)} {
		r.Guard("robust:asmap-panic", func() string { return fmt.Sprintf("%#v as a map", x) }, func() {
			var m enc.Map
			if _, err := enc.AsMap(c, x); err == nil {
				r.Fail("robust:mismatch-accepted", "%#v taken as a map %v", x, m)
			}
		})
	}
}

type recAny struct{ n enc.Node }

func (x *recAny) UnmarshalNode(c ctx.C, n enc.Node) error { x.n = n; return nil }

// docFor writes a document shaped like t, with an occasional mismatch.
func docFor(g *rand.Rand, t reflect.Type, depth int) string {
	if g.Intn(12) == 0 || depth < 0 {
		return genJSON(g, 1)
	}
	switch t.Kind() {
	case reflect.Bool:
		return "true"
	case reflect.String:
		return genStringText(g, genString(g))
	case reflect.Pointer:
		return docFor(g, t.Elem(), depth)
	case reflect.Slice:
		p := []string{}
		for i := g.Intn(3); i > 0; i-- {
			p = append(p, docFor(g, t.Elem(), depth-1))
		}
		return "[" + strings.Join(p, ",") + "]"
	case reflect.Array:
		p := []string{}
		for i := 0; i < t.Len(); i++ {
			p = append(p, docFor(g, t.Elem(), depth-1))
		}
		return "[" + strings.Join(p, ",") + "]"
	case reflect.Map:
		p := []string{}
		for i := g.Intn(3); i > 0; i-- {
			k := genString(g)
			if t.Key().Kind() != reflect.String {
				k = genNumberText(g)
			}
			p = append(p, genStringText(g, k)+":"+docFor(g, t.Elem(), depth-1))
		}
		return "{" + strings.Join(p, ",") + "}"
	case reflect.Struct:
		p := []string{}
		for i := 0; i < t.NumField(); i++ {
			ft := t.Field(i)
			tag, _, _ := strings.Cut(ft.Tag.Get("json"), ",")
			if tag == "" {
				tag = ft.Name
			}
			p = append(p, genStringText(g, tag)+":"+docFor(g, ft.Type, depth-1))
		}
		return "{" + strings.Join(p, ",") + "}"
	case reflect.Func, reflect.Chan, reflect.Complex64, reflect.Complex128, reflect.Interface, reflect.Uintptr:
		return genJSON(g, 1)
	}
	return genNumberText(g)
}

// mismatch says why a node cannot be stored in t, for the pairs where there is no doubt.
func mismatch(n enc.Node, t reflect.Type, depth int) string {
	if _, ok := n.(enc.Nil); ok || depth > 6 {
		return ""
	}
	bad := fmt.Sprintf("a %T does not fit %v", n, t)
	switch t.Kind() {
	case reflect.Pointer:
		return mismatch(n, t.Elem(), depth+1)
	case reflect.Bool:
		if _, ok := n.(enc.Bool); !ok {
			return bad
		}
	case reflect.String:
		switch n.(type) {
		case enc.String, enc.Digits:
		default:
			return bad
		}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Float32, reflect.Float64:
		if _, ok := n.(enc.Digits); !ok {
			return bad
		}
	case reflect.Slice, reflect.Array:
		l, ok := n.(enc.List)
		if !ok {
			return bad
		}
		if t.Kind() == reflect.Array && t.Len() != len(l) {
			return fmt.Sprintf("%d elements do not fit %v", len(l), t)
		}
		for _, e := range l {
			if s := mismatch(e, t.Elem(), depth+1); s != "" {
				return s
			}
		}
	case reflect.Map:
		m, ok := n.(enc.Map)
		if !ok {
			return bad
		}
		for k, e := range m {
			var err error
			switch kt := t.Key(); kt.Kind() {
			case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
				_, err = strconv.ParseInt(k, 10, kt.Bits())
			case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
				_, err = strconv.ParseUint(strings.TrimPrefix(k, "+"), 10, kt.Bits())
			}
			if err != nil {
				return fmt.Sprintf("the key %q does not fit %v", k, t)
			}
			if s := mismatch(e, t.Elem(), depth+1); s != "" {
				return s
			}
		}
	case reflect.Struct:
		m, ok := n.(enc.Map)
		if !ok {
			return bad
		}
		for i := 0; i < t.NumField(); i++ {
			ft := t.Field(i)
			tag, _, _ := strings.Cut(ft.Tag.Get("json"), ",")
			if !ft.IsExported() || ft.Tag.Get("json") == "-" {
				continue
			}
			if tag == "" {
				tag = ft.Name
			}
			if e, ok := m[tag]; ok {
				if s := mismatch(e, ft.Type, depth+1); s != "" {
					return s
				}
			}
		}
	case reflect.Func, reflect.Chan, reflect.Complex64, reflect.Complex128:
		return bad
	}
	return ""
}

func hasNoBad(t reflect.Type) bool {
	switch t.Kind() {
	case reflect.Interface, reflect.Func, reflect.Chan, reflect.Complex64, reflect.Complex128, reflect.Uintptr:
		return t == anyType
	case reflect.Pointer, reflect.Slice, reflect.Array, reflect.Map:
		return hasNoBad(t.Elem())
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			if !hasNoBad(t.Field(i).Type) {
				return false
			}
		}
	}
	return true
}

// fillBad puts real functions, channels and errors where the type has room for them.
func fillBad(g *rand.Rand, v reflect.Value, depth int) {
	if depth < 0 || !v.CanSet() {
		return
	}
	switch v.Kind() {
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).IsExported() {
				fillBad(g, v.Field(i), depth-1)
			}
		}
	case reflect.Slice, reflect.Array:
		for i := 0; i < v.Len(); i++ {
			fillBad(g, v.Index(i), depth-1)
		}
	case reflect.Pointer:
		if !v.IsNil() {
			fillBad(g, v.Elem(), depth-1)
		}
	case reflect.Func:
		if g.Intn(2) == 0 && v.Type() == reflect.TypeOf(func() {}) {
			v.Set(reflect.ValueOf(func() {}))
		}
	case reflect.Chan:
		if g.Intn(2) == 0 {
			v.Set(reflect.MakeChan(v.Type(), 0))
		}
	case reflect.Complex64, reflect.Complex128:
		v.SetComplex(1 + 2i)
	case reflect.Interface:
		if v.Type() != anyType {
			for _, x := range []any{fmt.Errorf("e"), ctx.NewErrorf(nil, "x"), enc.Integer(4), enc.String("s"), big.NewInt(3), errnoValue} {
				if g.Intn(3) == 0 && reflect.TypeOf(x).Implements(v.Type()) {
					v.Set(reflect.ValueOf(x))
					return
				}
			}
		} else if g.Intn(3) == 0 {
			v.Set(reflect.ValueOf([]any{func() {}, make(chan int), complex(1, 2), uintptr(4), struct{ p int }{3}, map[any]any{"a": 1}, map[bool]int{true: 1}, map[[2]int]int{{1, 2}: 3}, map[float64]int{1.5: 2}}[g.Intn(9)]))
		}
	}
}

// ---------------------------------------------------------------- C07

func c07(r *R) {
	c := quietCtx()
	n := r.N(700, 20000)
	for i := 0; i < n; i++ {
		g := r.Sub("struct", i)
		t := genStructType(g, 3, typeOpts{namedKinds: true, any: true, noBytes: true, noF32: true})
		v := genValue(g, t, 3)
		if hasNamedBytes(t) {
			continue
		}
		std, err := json.Marshal(v.Interface()) // declaration order
		if err != nil {
			r.HarnessError("std: %v", err)
			return
		}
		if t.NumField() > 1 {
			r.Eval(t.String() + string(std))
		} else {
			r.Eval("")
		}
		r.Guard("order:panic", func() string { return fmt.Sprintf("%v", t) }, func() {
			j, err := enc.MarshalJSON(c, v.Interface())
			if err != nil {
				r.Fail("order:marshal", "%v: %v", t, err)
				return
			}
			a, _ := tokens(std)
			b, _ := tokens(j)
			if !deepEq(a, b) {
				r.Fail("order:struct", "%v: fields written as %s, want the order of %s", t, j, std)
			}
			node, err := enc.Marshal(c, v.Interface())
			if ps, ok := node.(enc.Pairs); !ok || err != nil {
				r.Fail("order:pairs", "%v: marshalled as %T, %v", t, node, err)
			} else {
				x := 0
				for _, p := range ps {
					for x < t.NumField() && t.Field(x).Name != p.Name {
						x++
					}
				}
				if x >= t.NumField() && len(ps) > 0 {
					r.Fail("order:pairs", "%v: pairs out of order: %v", t, ps)
				}
			}
		})
		// explicit ordered pairs, in every position they can take
		ps, keys := enc.Pairs{}, []string{}
		for k := g.Intn(7); k > 0; k-- {
			key := fmt.Sprintf("k%d", g.Intn(1000))
			if ps.Find(key) != nil {
				continue
			}
			node, _ := genNodeTree(g, 1)
			ps, keys = append(ps, enc.Pair{Name: "N" + key, JSON: key, Value: node}), append(keys, key)
		}
		if i < 3 {
			r.Sample("pairs %v", keys)
		}
		if len(keys) > 1 {
			r.Eval(fmt.Sprint(keys))
		}
		for name, in := range map[string]any{"pairs": ps, "pointer": &ps, "struct field": struct{ P enc.Pairs }{ps}, "node field": struct{ P enc.Node }{ps}, "dynamic field": struct{ P any }{ps}, "list": []enc.Node{ps},
			"slice": []enc.Pairs{ps}, "dynamic map": map[string]any{"x": ps}, "hook": hookVal{ps}, "node list": enc.List{ps}, "node map": enc.Map{"m": ps}} {
			r.Guard("order:panic", func() string { return name }, func() {
				for _, indent := range []bool{false, true} {
					node, err := enc.Marshal(c, in)
					if err != nil {
						r.Fail("order:marshal", "%s: %v", name, err)
						return
					}
					j := enc.JSON{Indent: indent}.Encode(c, node)
					want := enc.JSON{}.Encode(c, ps)
					ta, _ := tokens(want)
					tb, _ := tokens(j)
					if !containsSeq(tb, ta) {
						r.Fail("order:nested-pairs", "%s (indent %v): %v written as %s", name, indent, keys, j)
					}
					if got := topKeys(want); !deepEq(got, keys) {
						r.Fail("order:pairs", "%v written as %s", keys, want)
					}
				}
			})
		}
		// lists keep their order both ways
		l := enc.List{}
		for k := g.Intn(20); k > 0; k-- {
			l = append(l, enc.Integer(g.Intn(1e6)))
		}
		if i%50 == 7 { // also the long ones
			for k := 300 + g.Intn(3000); k > 0; k-- {
				l = append(l, enc.Integer(g.Intn(1e6)))
			}
			bigOrder(r, c, g)
		}
		j := enc.JSON{}.Encode(c, l)
		var back []int
		if err := enc.UnmarshalJSON(c, j, &back); err != nil || len(back) != len(l) {
			r.Fail("order:list", "%s: %v, %v", j, back, err)
		} else {
			for k := range back {
				if enc.Integer(back[k]) != l[k] {
					r.Fail("order:list", "%s read as %v", j, back)
					break
				}
			}
		}
	}
}

type numbered struct {
	N    int            `json:"n"`
	Text string         `json:"text,omitempty"`
	Sub  []numberedPair `json:"sub"`
}
type numberedPair struct{ Z, A, M int }

// bigOrder: long lists of structs, pointers and dynamic values, wherever they are nested, keep their order both ways.
func bigOrder(r *R, c ctx.C, g *rand.Rand) {
	n := 200 + g.Intn(1500)
	list := make([]numbered, n)
	dyn := make([]any, n)
	ptrs := make([]*numbered, n)
	for i := range list {
		list[i].N = i
		if i%3 == 0 {
			list[i].Text = strings.Repeat("x", g.Intn(40))
		}
		for k := g.Intn(3); k > 0; k-- {
			list[i].Sub = append(list[i].Sub, numberedPair{i, k, i + k})
		}
		dyn[i] = list[i]
		ptrs[i] = &list[i]
	}
	var arr [700]numbered
	copy(arr[:], list)
	for name, in := range map[string]any{"slice": list, "dynamic": dyn, "pointers": ptrs, "array": arr, "field": struct{ L []numbered }{list}, "map": map[string][]*numbered{"l": ptrs}, "lists": [][]numbered{list}} {
		r.Guard("order:panic", func() string { return name }, func() {
			std, _ := json.Marshal(in)
			j, err := enc.MarshalJSON(c, in)
			if err != nil {
				r.Fail("order:marshal", "%d elements, %s: %v", n, name, err)
				return
			}
			same := string(std) == string(j)
			if !same {
				a, _ := tokens(std)
				b, _ := tokens(j)
				same = slices.Equal(a, b)
			}
			if !same {
				r.Fail("order:long-list", "%s of %d elements is written in another order: %s", name, n, cut(string(j), 300))
			}
			into := reflect.New(reflect.TypeOf(in))
			if name == "dynamic" {
				into = reflect.New(reflect.TypeOf(list))
				in = list
			}
			if err := enc.UnmarshalJSON(c, std, into.Interface()); err != nil {
				r.Fail("order:unmarshal", "%d elements, %s: %v", n, name, err)
				return
			}
			back, _ := json.Marshal(into.Elem().Interface())
			if string(back) != string(std) {
				r.Fail("order:long-list", "%s of %d elements is read in another order: %s", name, n, cut(string(back), 300))
			}
			r.Count("long_lists", 1)
		})
	}
}

func topKeys(doc []byte) []string {
	ts, _ := tokens(doc)
	out, depth, isKey := []string{}, 0, false
	for _, t := range ts {
		switch t := t.(type) {
		case json.Delim:
			if t == '{' || t == '[' {
				depth++
				isKey = depth == 1
				continue
			}
			depth--
			isKey = depth == 1
		default:
			if depth == 1 && isKey {
				out = append(out, t.(string))
				isKey = false
				continue
			}
			if depth == 1 {
				isKey = true
			}
		}
	}
	return out
}

func containsSeq(hay, needle []json.Token) bool {
	for i := 0; i+len(needle) <= len(hay); i++ {
		ok := true
		for k := range needle {
			if hay[i+k] != needle[k] {
				ok = false
				break
			}
		}
		if ok {
			return true
		}
	}
	return false
}
