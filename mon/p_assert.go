package main

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"os"
	"reflect"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	gosync "sync"
	"testing"
	"time"
	"unsafe"

	"github.com/Aize-Public/forego/ctx"
	"github.com/Aize-Public/forego/enc"
	"github.com/Aize-Public/forego/test"
)

func init() {
	reg("C51", "assertions run inside real (sub)tests on random values, documents in every representation, lists and errors, called directly, deferred, through function values and from files whose source is missing; the verdict of each is compared with the direct definition; non-trivial: distinct assertion and operands", c51)
	reg("C52", "readers, writers and closers of buffered streams in random schedules; bytes compared with a model of the stream, blocked readers must wake up; non-trivial: distinct schedule", c52)
}

// ---------------------------------------------------------------- C51

type verdicts struct {
	r    *R
	root *testing.T
}

// run calls an assertion in a test of its own and tells whether that test failed.
// An assertion which needs the source of its caller to describe what it saw, and can't find it,
// is told apart: assert is its name when the call is of such a shape, or empty.
func (v verdicts) run(assert, what string, f func(t *testing.T)) (pass, ran bool) {
	var reached bool
	var pan any
	var st string
	failed := false
	v.root.Run("x", func(t *testing.T) {
		defer func() {
			if pan = recover(); pan != nil {
				st = string(debug.Stack())
			}
			failed = t.Failed()
		}()
		f(t)
		reached = true
	})
	if pan != nil {
		sig := "panic"
		if assert != "" && strings.Contains(st, "test.res.argument(") {
			sig = "panic-without-source:" + assert
		}
		v.r.Fail(sig, "panic: %v\nwhile: %s\n%s", pan, what, trimStack(st))
		return false, false
	}
	if reached == failed {
		v.r.Fail("flow", "%s: went on: %v, failed: %v", what, reached, failed)
	}
	return !failed, true
}

func (v verdicts) want(sig string, want bool, what string, f func(t *testing.T)) {
	v.wantFrom("", sig, want, what, f)
}

func (v verdicts) wantFrom(assert, sig string, want bool, what string, f func(t *testing.T)) {
	got, ran := v.run(assert, what, f)
	if ran && got != want {
		v.r.Fail(sig, "%s: passed: %v, want %v", what, got, want)
	}
	v.r.Count("verdicts", 1)
	v.r.Count(fmt.Sprintf("verdicts %v", want), 1)
}

func c51(r *R) {
	out := os.Stdout
	null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	if err != nil {
		panic(err)
	}
	os.Stdout = null
	os.Args = os.Args[:1]
	testing.Main(func(string, string) (bool, error) { return true, nil }, []testing.InternalTest{{Name: "root", F: func(t *testing.T) {
		v := verdicts{r, t}
		v.basics()
		v.goEq()
		v.jsonEq()
		v.lists()
		v.sources()
		os.Stdout = out
		r.finish() // testing.Main does not return
		os.Exit(0)
	}}}, nil, nil)
}

type structS struct {
	A int
	B string
	P *int
}

type ptrErrS struct{ s string }

func (p *ptrErrS) Error() string { return p.s }

func (v verdicts) basics() {
	r := v.r
	one := 1
	var nilMap map[string]int
	var nilSlice []int
	var nilChan chan int
	var nilFunc func()
	var nilPtr *int
	full := make(chan int, 1)
	full <- 1
	type obj struct {
		name       string
		v          any
		nil_       bool
		empty      bool
		emptyKnown bool
	}
	objs := []obj{
		{"nil", nil, true, true, true},
		{"nil map", nilMap, true, true, true},
		{"nil slice", nilSlice, true, true, true},
		{"nil chan", nilChan, true, true, true},
		{"nil func", nilFunc, true, false, false},
		{"nil pointer", nilPtr, true, true, true},
		{"nil unsafe pointer", unsafe.Pointer(nil), true, false, false},
		{"nil in a named type", json.RawMessage(nil), true, true, true},
		{"pointer", &one, false, false, true},
		{"pointer to nil", &nilPtr, false, false, true},
		{"unsafe pointer", unsafe.Pointer(&one), false, false, false},
		{"func", func() {}, false, false, false},
		{"empty map", map[string]int{}, false, true, true},
		{"map", map[string]int{"a": 0}, false, false, true},
		{"empty slice", []int{}, false, true, true},
		{"slice of nil", []any{nil}, false, false, true},
		{"empty chan", make(chan int), false, true, true},
		{"chan with a value", full, false, false, true},
		{"zero", 0, false, false, false},
		{"false", false, false, false, false},
		{"empty string", "", false, true, true},
		{"string", "x", false, false, true},
		{"space", " ", false, false, true},
		{"zero struct", structS{}, false, true, true},
		{"struct", structS{P: &one}, false, false, true},
		{"empty time", time.Time{}, false, true, true},
		{"raw", json.RawMessage("nil"), false, false, true},
		{"error", errors.New("x"), false, false, true},
		{"bytes", []byte{0xff, 0xfe}, false, false, true},
		{"named string", cfStr(""), false, true, true},
	}
	for _, o := range objs {
		for name, call := range assertShapes {
			from := func(assert string) string {
				if noSource[name] {
					return assert
				}
				return ""
			}
			sig := "nil"
			if k := reflect.ValueOf(o.v).Kind(); o.nil_ && (k == reflect.Func || k == reflect.UnsafePointer) {
				sig = map[reflect.Kind]string{reflect.Func: "nil:func", reflect.UnsafePointer: "nil:unsafe-pointer"}[k]
			}
			v.wantFrom(from("Nil"), sig, o.nil_, fmt.Sprintf("Nil(%s) %s", o.name, name), func(t *testing.T) { call.nilF(t, o.v) })
			v.wantFrom(from("NotNil"), sig, !o.nil_, fmt.Sprintf("NotNil(%s) %s", o.name, name), func(t *testing.T) { call.notNil(t, o.v) })
			if o.emptyKnown {
				v.wantFrom(from("Empty"), "empty", o.empty, fmt.Sprintf("Empty(%s) %s", o.name, name), func(t *testing.T) { call.empty(t, o.v) })
				v.wantFrom(from("NotEmpty"), "empty", !o.empty, fmt.Sprintf("NotEmpty(%s) %s", o.name, name), func(t *testing.T) { call.notEmpty(t, o.v) })
			}
			r.Eval(o.name + name)
		}
	}
	errs := []error{nil, io.EOF, errors.New(""), &ptrErrS{"x"}, valErr(""), ctx.NewErrorf(context.Background(), "stacked"), fmt.Errorf("w: %w", ctx.NewErrorf(context.Background(), "in")), errors.Join(io.EOF, io.ErrClosedPipe)}
	for i, e := range errs {
		for name, call := range assertShapes {
			v.want("error", e == nil, fmt.Sprintf("NoError(%v) %s", e, name), func(t *testing.T) { call.noError(t, e) })
			v.want("error", e != nil, fmt.Sprintf("Error(%v) %s", e, name), func(t *testing.T) { call.isError(t, e) })
			r.Eval(fmt.Sprint("err", i, name))
		}
	}
	for _, b := range []bool{true, false} {
		for name, call := range assertShapes {
			v.want("assert", b, fmt.Sprintf("Assert(%v) %s", b, name), func(t *testing.T) { call.assert(t, b) })
		}
	}
	strs := []string{"", "a", "ab", "ba", "A", "%s", "`", "a\nb", "é", "\xff", "ab "}
	for _, a := range strs {
		for _, b := range strs {
			v.want("str", a == b, fmt.Sprintf("EqualsStr(%q, %q)", a, b), func(t *testing.T) { aEqualsStr(t, a, b) })
			v.want("str", a != b, fmt.Sprintf("NotEqualsStr(%q, %q)", a, b), func(t *testing.T) { aNotEqualsStr(t, a, b) })
			has := strings.Contains(a, b)
			v.want("contains", has, fmt.Sprintf("Contains(%q, %q)", a, b), func(t *testing.T) { test.Contains(t, a, b) })
			v.want("contains", !has, fmt.Sprintf("NotContains(%q, %q)", a, b), func(t *testing.T) { test.NotContains(t, a, b) })
			r.Eval(a + "|" + b)
		}
	}
	vals := []any{nil, 1, int64(1), "1", cfStr("1"), []int{1}, []int64{1}, cfList{"x"}, []string{"x"}, structS{}, &structS{}, errors.New("x"), io.EOF, 1.0}
	for _, a := range vals {
		for _, b := range vals {
			same := reflect.TypeOf(a) == reflect.TypeOf(b)
			v.want("type", same, fmt.Sprintf("EqualsType(%T, %T)", a, b), func(t *testing.T) { aEqualsType(t, a, b) })
		}
	}
}

func genGoValue(rng *rand.Rand, d int) any {
	switch rng.Intn(12) {
	case 0:
		return nil
	case 1:
		return rng.Intn(4)
	case 2:
		return int64(rng.Intn(4))
	case 3:
		return float64(rng.Intn(4))
	case 4:
		return []string{"", "a", "1", "%d"}[rng.Intn(4)]
	case 5:
		return rng.Intn(2) == 0
	case 6:
		return structS{A: rng.Intn(2), B: []string{"", "x"}[rng.Intn(2)]}
	case 7:
		return &structS{A: rng.Intn(2)}
	case 8:
		return map[string]int{"a": rng.Intn(2), "b": 1}
	case 9:
		return cfStr([]string{"", "a"}[rng.Intn(2)])
	case 10:
		if d > 0 {
			return []any{genGoValue(rng, d-1), genGoValue(rng, d-1)}
		}
		return []int{rng.Intn(2)}
	default:
		return []byte{byte(rng.Intn(2))}
	}
}

func (v verdicts) goEq() {
	for i := 0; i < v.r.N(300, 5000); i++ {
		rng := v.r.Sub("go", i)
		a := genGoValue(rng, 2)
		b := a
		if rng.Intn(3) > 0 {
			b = genGoValue(rng, 2)
		}
		sa, sb := fmt.Sprintf("%#v", a), fmt.Sprintf("%#v", b)
		v.want("go", sa == sb, fmt.Sprintf("EqualsGo(%s, %s)", sa, sb), func(t *testing.T) { aEqualsGo(t, a, b) })
		v.want("go", sa != sb, fmt.Sprintf("NotEqualsGo(%s, %s)", sa, sb), func(t *testing.T) { aNotEqualsGo(t, a, b) })
		if len(sa) > 2 {
			k := rng.Intn(len(sa) - 1)
			v.want("go", true, "ContainsGo", func(t *testing.T) { aContainsGo(t, a, sa[k:k+2]) })
			v.want("go", strings.Contains(sa, sb), fmt.Sprintf("ContainsGo(%s, %s)", sa, sb), func(t *testing.T) { aContainsGo(t, a, sb) })
		}
		v.r.Eval(sa + sb)
	}
}

// a JSON document, independent of how it is written: nil, bool, string, jInt, float64 (not whole), []any, map[string]any
type jInt string

func genDoc(rng *rand.Rand, d int) any {
	k := rng.Intn(10)
	if d == 0 && k >= 7 {
		k = rng.Intn(7)
	}
	switch k {
	case 0:
		return nil
	case 1:
		return rng.Intn(2) == 0
	case 2:
		return []string{"", "x", "é", "a\"b", "\n", "5", "null", "<&>"}[rng.Intn(8)]
	case 3:
		return jInt([]string{"0", "1", "-1", "10", "1000"}[rng.Intn(5)])
	case 4:
		return jInt([]string{"9007199254740991", "-9007199254740991", "4503599627370497", "123456789012345"}[rng.Intn(4)])
	case 5:
		return []float64{0.5, -1.25, 0.1, 1e-9, 3.141592653589793}[rng.Intn(5)]
	case 6:
		return jInt(fmt.Sprint(rng.Intn(100)))
	case 7, 8:
		m := map[string]any{}
		for n := rng.Intn(4); n > 0; n-- {
			m[string(rune('a'+rng.Intn(5)))] = genDoc(rng, d-1)
		}
		return m
	default:
		l := []any{}
		for n := rng.Intn(4); n > 0; n-- {
			l = append(l, genDoc(rng, d-1))
		}
		return l
	}
}

// docText writes a document, with random order, spacing and number syntax.
func docText(rng *rand.Rand, d any) string {
	sp := func() string { return []string{"", "", " ", "\n\t"}[rng.Intn(4)] }
	switch d := d.(type) {
	case jInt:
		if len(d) < 5 && rng.Intn(4) == 0 {
			if rng.Intn(2) == 0 {
				return string(d) + ".0"
			}
			return string(d) + "e0"
		}
		return string(d)
	case []any:
		var l []string
		for _, e := range d {
			l = append(l, sp()+docText(rng, e)+sp())
		}
		return "[" + strings.Join(l, ",") + "]"
	case map[string]any:
		var l []string
		for k, e := range d {
			l = append(l, fmt.Sprintf("%s%q%s:%s%s%s", sp(), k, sp(), sp(), docText(rng, e), sp()))
		}
		sort.Strings(l)
		rng.Shuffle(len(l), func(i, j int) { l[i], l[j] = l[j], l[i] })
		return "{" + strings.Join(l, ",") + "}"
	default:
		j, _ := json.Marshal(d)
		return string(j)
	}
}

// docValue writes a document as a go value of some type.
func docValue(rng *rand.Rand, d any, top bool) any {
	switch x := rng.Intn(12); {
	case top && x == 0:
		return docText(rng, d)
	case top && x == 1:
		return []byte(docText(rng, d))
	case top && x == 2:
		return json.RawMessage(docText(rng, d))
	case x == 3:
		return docNode(rng, d)
	}
	switch d := d.(type) {
	case jInt:
		n, err := strconv.ParseInt(string(d), 10, 64)
		if err != nil {
			panic(err)
		}
		switch {
		case rng.Intn(3) == 0 && n > -1000 && n < 1000:
			return float64(n)
		case rng.Intn(3) == 0 && n >= 0:
			return uint64(n)
		case rng.Intn(3) == 0 && n == int64(int8(n)):
			return int8(n)
		case rng.Intn(2) == 0:
			return int(n)
		}
		return n
	case string:
		if top && json.Valid([]byte(d)) {
			return docText(rng, d)
		}
		if rng.Intn(3) == 0 && !top {
			return cfStr(d)
		}
		return d
	case []any:
		l := make([]any, len(d))
		for i, e := range d {
			l[i] = docValue(rng, e, false)
		}
		if rng.Intn(3) == 0 {
			return &l
		}
		return l
	case map[string]any:
		keys := sortedKeys(d)
		if rng.Intn(2) == 0 {
			m := map[string]any{}
			for _, k := range keys {
				m[k] = docValue(rng, d[k], false)
			}
			return m
		}
		var fs []reflect.StructField
		for i, k := range keys {
			fs = append(fs, reflect.StructField{Name: fmt.Sprintf("F%d", i), Type: reflect.TypeOf((*any)(nil)).Elem(), Tag: reflect.StructTag(fmt.Sprintf(`json:"%s"`, k))})
		}
		p := reflect.New(reflect.StructOf(fs))
		for i, k := range keys {
			if e := docValue(rng, d[k], false); e != nil {
				p.Elem().Field(i).Set(reflect.ValueOf(e))
			}
		}
		if rng.Intn(2) == 0 {
			return p.Interface()
		}
		return p.Elem().Interface()
	default:
		return d
	}
}

func docNode(rng *rand.Rand, d any) enc.Node {
	switch d := d.(type) {
	case nil:
		return enc.Nil{}
	case bool:
		return enc.Bool(d)
	case string:
		return enc.String(d)
	case jInt:
		if n, err := strconv.ParseInt(string(d), 10, 64); err == nil && rng.Intn(2) == 0 {
			return enc.Integer(n)
		}
		return enc.Digits(d)
	case float64:
		return enc.Float(d)
	case []any:
		l := enc.List{}
		for _, e := range d {
			l = append(l, docNode(rng, e))
		}
		return l
	case map[string]any:
		if rng.Intn(2) == 0 {
			m := enc.Map{}
			for k, e := range d {
				m[k] = docNode(rng, e)
			}
			return m
		}
		ps := enc.Pairs{}
		for _, k := range sortedKeys(d) {
			ps = append(ps, enc.Pair{JSON: k, Value: docNode(rng, d[k])})
		}
		return ps
	}
	panic(fmt.Sprintf("%T", d))
}

// docMutate changes one thing.
func docMutate(rng *rand.Rand, d any) any {
	switch d := d.(type) {
	case nil:
		return false
	case bool:
		return !d
	case string:
		return d + "!"
	case float64:
		return d * 2
	case jInt:
		n, _ := strconv.ParseInt(string(d), 10, 64)
		if n > 0 {
			return jInt(fmt.Sprint(n - 1))
		}
		return jInt(fmt.Sprint(n + 1))
	case []any:
		cp := append([]any{}, d...)
		if len(cp) == 0 {
			return []any{nil}
		}
		i := rng.Intn(len(cp))
		switch rng.Intn(3) {
		case 0:
			return append(cp[:i], cp[i+1:]...)
		default:
			cp[i] = docMutate(rng, cp[i])
			return cp
		}
	case map[string]any:
		cp := map[string]any{}
		for k, v := range d {
			cp[k] = v
		}
		if len(cp) == 0 {
			cp["zz"] = nil
			return cp
		}
		keys := sortedKeys(cp)
		k := keys[rng.Intn(len(keys))]
		switch rng.Intn(3) {
		case 0:
			v := cp[k]
			delete(cp, k)
			cp[k+"2"] = v
		default:
			cp[k] = docMutate(rng, cp[k])
		}
		return cp
	}
	panic(fmt.Sprintf("%T", d))
}

func (v verdicts) jsonEq() {
	for i := 0; i < v.r.N(600, 12000); i++ {
		rng := v.r.Sub("json", i)
		da := genDoc(rng, 3)
		db := da
		if rng.Intn(2) == 0 {
			db = docMutate(rng, da)
		}
		same := reflect.DeepEqual(da, db)
		a, b := docValue(rng, da, true), docValue(rng, db, true)
		desc := func(d, x any) string {
			return fmt.Sprintf("%T standing for %s", x, docText(rand.New(rand.NewSource(1)), d))
		}
		what := fmt.Sprintf("(%s, %s)", desc(da, a), desc(db, b))
		v.want("json", same, "EqualsJSON"+what, func(t *testing.T) {
			aEqualsJSON(test.WithTester(quietCtx(), t), a, b)
		})
		v.want("json", !same, "NotEqualsJSON"+what, func(t *testing.T) {
			aNotEqualsJSON(test.WithTester(quietCtx(), t), a, b)
		})
		if m, ok := da.(map[string]any); ok {
			for k, e := range m {
				switch e.(type) {
				case nil, bool, jInt:
					j := fmt.Sprintf(`"%s":%v`, k, e)
					if e == nil {
						j = fmt.Sprintf(`"%s":null`, k)
					}
					v.want("json", true, "ContainsJSON"+what+" "+j, func(t *testing.T) { aContainsJSON(test.WithTester(quietCtx(), t), a, j) })
					v.want("json", false, "NotContainsJSON"+what+" "+j, func(t *testing.T) { aNotContainsJSON(test.WithTester(quietCtx(), t), a, j) })
				}
			}
			v.want("json", false, "ContainsJSON"+what+" an absent key", func(t *testing.T) { aContainsJSON(test.WithTester(quietCtx(), t), a, `"absent"`) })
			v.want("json", true, "NotContainsJSON"+what+" an absent key", func(t *testing.T) { aNotContainsJSON(test.WithTester(quietCtx(), t), a, `"absent"`) })
		}
		v.r.Eval(what)
	}
	// the same document, or not, whatever the order of the keys and the size of the numbers
	type point struct {
		Y int `json:"y"`
		X int `json:"x"`
	}
	text := `{"x":1,"y":2}`
	for _, p := range []struct {
		sig  string
		a, b any
		same bool
	}{
		{"json-order:struct", point{Y: 2, X: 1}, text, true},
		{"json-order:pairs", enc.Pairs{{JSON: "y", Value: enc.Integer(2)}, {JSON: "x", Value: enc.Integer(1)}}, text, true},
		{"json-order:raw", map[string]any{"p": json.RawMessage(`{"y":2, "x":1}`)}, `{"p":` + text + `}`, true},
		{"json-digits:text", `9007199254740993`, `9007199254740992`, false},
		{"json-digits:int", int64(9007199254740993), `9007199254740993`, true},
	} {
		what := fmt.Sprintf("(%T %v, %s)", p.a, p.a, p.b)
		v.want(p.sig, p.same, "EqualsJSON"+what, func(t *testing.T) { aEqualsJSON(test.WithTester(quietCtx(), t), p.a, p.b) })
		v.want(p.sig, !p.same, "NotEqualsJSON"+what, func(t *testing.T) { aNotEqualsJSON(test.WithTester(quietCtx(), t), p.a, p.b) })
		v.r.Eval(what)
	}
	// what can't be written equals nothing that can
	for _, bad := range []any{make(chan int), func() {}, map[string]any{"a": make(chan int)}} {
		for _, good := range []any{nil, "x", 1, map[string]any{}, []any{}} {
			v.want("json-bad", false, fmt.Sprintf("EqualsJSON(%T, %v)", bad, good), func(t *testing.T) { aEqualsJSON(test.WithTester(quietCtx(), t), bad, good) })
		}
	}
}

func (v verdicts) lists() {
	for i := 0; i < v.r.N(80, 1000); i++ {
		rng := v.r.Sub("list", i)
		list := make([]string, rng.Intn(6))
		for j := range list {
			list[j] = fmt.Sprint(rng.Intn(5))
		}
		model := append([]string{}, list...)
		ops := ""
		for len(ops) < 8 {
			shift := rng.Intn(2) == 0
			want := ""
			ok := len(model) > 0
			if ok && shift {
				want, model = model[0], model[1:]
			} else if ok {
				want, model = model[len(model)-1], model[:len(model)-1]
			}
			var got string
			ops += map[bool]string{true: "s", false: "p"}[shift]
			v.want("list", ok, fmt.Sprintf("%s on %d elements", ops, len(model)), func(t *testing.T) {
				if shift {
					got = aShift(t, &list)
				} else {
					got = aPop(t, &list)
				}
			})
			if got != want || strings.Join(list, ",") != strings.Join(model, ",") {
				v.r.Fail("list", "%s gave %q and left %q, want %q and %q", ops, got, list, want, model)
			}
		}
		v.r.Eval(fmt.Sprint(ops, list))
	}
}

// sources: one more round over calls whose source can't be read as expected.
func (v verdicts) sources() {
	for name, f := range oddCalls {
		for _, x := range []any{nil, 1} {
			v.wantFrom("Nil", "source", x == nil, fmt.Sprintf("Nil(%v) %s", x, name), func(t *testing.T) { f(t, x) })
			v.r.Eval(fmt.Sprint("odd", name, x))
		}
	}
	for name, f := range oddEquals {
		for _, x := range []int{1, 2} {
			v.want("source", x == 1, fmt.Sprintf("equals(1, %v) %s", x, name), func(t *testing.T) { f(test.WithTester(quietCtx(), t), t, 1, x) })
			v.r.Eval(fmt.Sprint("odd", name, x))
		}
	}
}

// ---------------------------------------------------------------- C52

func c52(r *R) {
	c52Probes(r)
	// one reader: bytes in order, whatever the sizes
	for i := 0; i < r.N(600, 10000); i++ {
		rng := r.Sub("read", i)
		b := test.NewBufferedRWC()
		var sent []byte
		var chunks [][]byte
		for n := rng.Intn(8); n > 0; n-- {
			p := make([]byte, rng.Intn(20))
			rng.Read(p)
			chunks = append(chunks, p)
			sent = append(sent, p...)
		}
		concurrent := rng.Intn(2) == 0
		feed := func() {
			for _, p := range chunks {
				b.Append(bytes.Clone(p))
			}
		}
		end := rng.Intn(2)
		if concurrent {
			end = 0 // Close with a reader waiting is on its own below
		}
		finish := func() {
			if end == 0 {
				b.SetReadClosed()
			} else if err := b.Close(); err != nil {
				r.Fail("close", "closing an open stream: %v", err)
			}
		}
		var got []byte
		r.Within("read", "reading a stream", func() {
			var wg gosync.WaitGroup
			if concurrent {
				wg.Add(1)
				go func() { defer wg.Done(); feed(); finish() }()
			} else {
				feed()
				finish()
			}
			for {
				dst := make([]byte, rng.Intn(8), 16)
				n, err := b.Read(dst)
				if n > len(dst) || n < 0 {
					r.Fail("size", "read %d bytes into %d", n, len(dst))
					return
				}
				got = append(got, dst[:n]...)
				if err == io.EOF {
					break
				}
				if err != nil {
					r.Fail("read", "reading: %v", err)
					break
				}
				if n == 0 && len(dst) > 0 {
					empty := false
					for _, c := range chunks {
						empty = empty || len(c) == 0
					}
					if !empty {
						r.Fail("read", "a read of %d bytes gave none and no error", len(dst))
					}
				}
			}
			wg.Wait()
		})
		if !bytes.Equal(got, sent) {
			r.Fail("bytes", "sent %x, read %x (chunks %d, concurrent %v)", sent, got, len(chunks), concurrent)
		}
		if !b.IsReadClosed() || b.HasRead() {
			r.Fail("state", "after the end: closed %v, more to read %v", b.IsReadClosed(), b.HasRead())
		}
		r.Guard("append", func() string { return "appending after the end" }, func() {
			defer func() {
				if recover() == nil {
					r.Fail("append", "appending to a closed stream did not panic as documented")
				}
			}()
			b.Append([]byte("x"))
		})
		r.Eval(fmt.Sprint("read", i, len(chunks), concurrent, end))
		r.Count("bytes read", int64(len(got)))
	}
	// several readers and writers; every byte goes to one reader, in order for each
	for i := 0; i < r.N(40, 600); i++ {
		rng := r.Sub("many", i)
		b := test.NewBufferedRWC()
		readers := 1 + rng.Intn(4)
		feeders := 1 + rng.Intn(3)
		const per = 40
		got := make([][]byte, readers)
		var total int
		var mu gosync.Mutex
		r.Within("many", "several readers", func() {
			var rg, fg gosync.WaitGroup
			for k := 0; k < readers; k++ {
				rg.Add(1)
				go func() {
					defer rg.Done()
					buf := make([]byte, 1)
					for {
						n, err := b.Read(buf)
						got[k] = append(got[k], buf[:n]...)
						if err != nil {
							return
						}
					}
				}()
			}
			for k := 0; k < feeders; k++ {
				fg.Add(1)
				go func() {
					defer fg.Done()
					for j := 0; j < per; j++ {
						b.Append([]byte{byte(k*per + j)})
						mu.Lock()
						total++
						mu.Unlock()
					}
				}()
			}
			fg.Wait()
			b.SetReadClosed()
			rg.Wait()
		})
		count := map[byte]int{}
		for k, g := range got {
			last := map[int]int{}
			for _, x := range g {
				count[x]++
				f, j := int(x)/per, int(x)%per
				if p, ok := last[f]; ok && p >= j {
					r.Fail("order", "reader %d got byte %d of feeder %d after %d", k, j, f, p)
				}
				last[f] = j
			}
		}
		for x := 0; x < feeders*per; x++ {
			if count[byte(x)] != 1 {
				r.Fail("once", "byte %d was read %d times by %d readers", x, count[byte(x)], readers)
				break
			}
		}
		r.Eval(fmt.Sprint("many", i, readers, feeders))
	}
	// the end wakes up whoever waits
	for i := 0; i < r.N(30, 300); i++ {
		b := test.NewBufferedRWC()
		n := 1 + i%4
		r.Within("wake", "closing a stream with readers waiting", func() {
			var wg gosync.WaitGroup
			for k := 0; k < n; k++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					if c, err := b.Read(make([]byte, 4)); c != 0 || err != io.EOF {
						r.Fail("wake", "a waiting reader got %d bytes and %v", c, err)
					}
				}()
			}
			if i%3 > 0 {
				time.Sleep(time.Duration(i%5) * 200 * time.Microsecond)
			}
			b.SetReadClosed()
			wg.Wait()
		})
		r.Eval(fmt.Sprint("wake", i))
	}
	// what was written is recorded
	for i := 0; i < r.N(300, 5000); i++ {
		rng := r.Sub("write", i)
		b := test.NewBufferedRWC()
		var want [][]byte
		for n := rng.Intn(6); n > 0; n-- {
			p := make([]byte, rng.Intn(32))
			rng.Read(p)
			c, err := b.Write(p)
			if c != len(p) || err != nil {
				r.Fail("write", "writing %d bytes: %d, %v", len(p), c, err)
			}
			if len(p) > 0 {
				want = append(want, bytes.Clone(p))
			}
		}
		if len(b.Written) != len(want) || !bytes.Equal(bytes.Join(b.Written, nil), bytes.Join(want, nil)) {
			r.Fail("written", "wrote %x, recorded %x", want, b.Written)
		}
		for k := range want {
			if k < len(b.Written) && !bytes.Equal(want[k], b.Written[k]) {
				r.Fail("written", "write %d was %x, recorded %x", k, want[k], b.Written[k])
			}
		}
		if b.Closed {
			r.Fail("closed", "an open stream is marked as closed")
		}
		if err := b.Close(); err != nil {
			r.Fail("close", "closing: %v", err)
		}
		if err := b.Close(); err == nil {
			r.Fail("close", "closing twice is not an error")
		}
		if n, err := b.Write([]byte("x")); n != 0 || err == nil {
			r.Fail("write", "writing to a closed stream: %d, %v", n, err)
		}
		if len(b.Written) != len(want) {
			r.Fail("write", "a refused write was recorded")
		}
		r.Eval(fmt.Sprint("write", i, len(want)))
		r.Count("writes", int64(len(want)))
	}
}

// c52Probes: what is expected of a stream and is not so (see KNOWN_FINDINGS.txt), one input each.
func c52Probes(r *R) {
	// readers of k bytes each wait; act must wake all of them up
	wake := func(sig, what string, readers int, act func(b *test.BufferedRWC)) {
		b := test.NewBufferedRWC()
		done := make(chan struct{}, readers)
		for k := 0; k < readers; k++ {
			go func() {
				_, _ = b.Read(make([]byte, 1))
				done <- struct{}{}
			}()
		}
		time.Sleep(200 * time.Millisecond)
		act(b)
		late := time.After(1500 * time.Millisecond)
		for k := 0; k < readers; k++ {
			select {
			case <-done:
			case <-late:
				r.Fail(sig, "%s: %d of %d waiting readers are still waiting", what, readers-k, readers)
				b.SetReadClosed()
				for ; k < readers; k++ {
					<-done
				}
			}
		}
		r.Eval(sig)
	}
	wake("close-does-not-wake", "Close", 1, func(b *test.BufferedRWC) { _ = b.Close() })
	wake("chunk-wakes-one", "Append of as many bytes as are waited for", 3, func(b *test.BufferedRWC) { b.Append([]byte("abc")) })
	b := test.NewBufferedRWC()
	_ = b.Close()
	if !b.Closed {
		r.Fail("closed-never-set", "Closed is false after Close")
	}
	b = test.NewBufferedRWC()
	buf := []byte("first")
	_, _ = b.Write(buf)
	copy(buf, "FIRST")
	if string(b.Written[0]) != "first" {
		r.Fail("shared-buffer:written", "wrote %q, and used the buffer again: the record says %q", "first", b.Written[0])
	}
	buf = []byte("first")
	b.Append(buf)
	copy(buf, "FIRST")
	got := make([]byte, 5)
	if _, err := b.Read(got); err != nil || string(got) != "first" {
		r.Fail("shared-buffer:appended", "appended %q, and used the buffer again: read %q", "first", got)
	}
}
