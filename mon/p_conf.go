package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"math/rand"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/Aize-Public/forego/config"
	"github.com/Aize-Public/forego/ctx"
)

func init() {
	reg("C50", "structs of every supported field type (named, listed, keyed, self-decoding, also as elements), with and without defaults and initial values, loaded from random sources, with values which are nearly valid and values for undeclared keys, and compared field by field with a model; hostile structs must give errors; non-trivial: distinct source", c50)
}

type cfStr string
type cfInt int
type cfBool bool
type cfList []string
type cfKey string

// cfText decodes text, refusing what starts with "bad".
type cfText struct{ v string }

func (t *cfText) UnmarshalText(b []byte) error {
	if strings.HasPrefix(string(b), "bad") {
		return errors.New("bad text")
	}
	t.v = "text:" + string(b)
	return nil
}

// cfCtx decodes with a context, also the empty value.
type cfCtx struct{ v string }

func (t *cfCtx) UnmarshalText(c ctx.C, s string) error {
	if strings.HasPrefix(s, "bad") {
		return errors.New("bad ctx text")
	}
	t.v = "ctx:" + s
	return nil
}

type cfJSON struct{ A, B int }

func (t *cfJSON) UnmarshalJSON(b []byte) error {
	var l []int
	if err := json.Unmarshal(b, &l); err != nil {
		return err
	}
	if len(l) > 0 {
		t.A = l[0]
	}
	if len(l) > 1 {
		t.B = l[1]
	}
	return nil
}

type cfAll struct {
	S    string `config:"s"`
	SD   string `config:"sd,default=dflt"`
	SE   string `config:"se,default="`
	SX   string `config:"sx,default"`
	N    cfStr  `config:"n,default=a=b"`
	I    int    `config:"i,default=-7"`
	IN   cfInt  `config:"in,default=12"`
	B    bool   `config:"b,default=yes"`
	BN   cfBool `config:"bn,default=1"`
	Skip string
	Deep struct {
		S string `config:"never"`
	}
	L   []string          `config:"l,default="`
	LI  []int             `config:"li,default=5"`
	LB  []cfBool          `config:"lb,default=y"`
	LN  cfList            `config:"ln,default=x"`
	M   map[string]string `config:"m,default="`
	MI  map[string]int    `config:"mi,default=k=3"`
	MN  map[cfKey]cfBool  `config:"mn,default=q=true"`
	KI  map[int]bool      `config:"ki,default=1=y"`
	KT  map[cfText]cfInt  `config:"kt,default="`
	KB  map[cfBool]string `config:"kb"`
	T   cfText            `config:"t,default="`
	TT  cfText            `config:"tt,default=xyz"`
	LT  []cfText          `config:"lt,default="`
	MT  map[string]cfText `config:"mt,default="`
	C   cfCtx             `config:"c,default="`
	LC  []cfCtx           `config:"lc,default="`
	J   cfJSON            `config:"j,default="`
	JD  cfJSON            `config:"jd,default=[4]"`
	W   time.Time         `config:"w,default=2024-02-03T04:05:06Z"`
	Tag string            `config:"tag,default=d" json:"other"`
	low int
}

func cfBoolOf(s string) (bool, bool) {
	switch strings.ToLower(s) {
	case "true", "1", "yes", "y":
		return true, true
	case "", "false", "0", "no", "n":
		return false, true
	}
	return false, false
}

// cfModel computes what a source gives; bad names the field which can't be decoded or is missing, in order.
func cfModel(in cfAll, src map[string]string) (out cfAll, bad string) {
	out = in
	val := func(key, def string, has bool) (string, bool) {
		if bad != "" {
			return "", false
		}
		v := src[key]
		if v == "" {
			if !has {
				bad = key
				return "", false
			}
			v = def
		}
		return v, true
	}
	str := func(p *string, key, def string, has bool) {
		if v, ok := val(key, def, has); ok {
			*p = v
		}
	}
	integer := func(key, v string) int {
		n, err := strconv.Atoi(v)
		if err != nil && bad == "" {
			bad = key
		}
		return n
	}
	boolean := func(key, v string) bool {
		b, ok := cfBoolOf(v)
		if !ok && bad == "" {
			bad = key
		}
		return b
	}
	text := func(key, v string) cfText {
		if strings.HasPrefix(v, "bad") && bad == "" {
			bad = key
		}
		if v == "" {
			return cfText{}
		}
		return cfText{"text:" + v}
	}
	cc := func(key, v string) cfCtx {
		if strings.HasPrefix(v, "bad") && bad == "" {
			bad = key
		}
		return cfCtx{"ctx:" + v}
	}
	js := func(o cfJSON, key, v string) cfJSON { // what the value does not name stays as it was
		if v == "" {
			return cfJSON{}
		}
		if (&o).UnmarshalJSON([]byte(v)) != nil && bad == "" {
			bad = key
		}
		return o
	}
	str(&out.S, "s", "", false)
	str(&out.SD, "sd", "dflt", true)
	str(&out.SE, "se", "", true)
	str(&out.SX, "sx", "", true)
	str((*string)(&out.N), "n", "a=b", true)
	if v, ok := val("i", "-7", true); ok {
		out.I = integer("i", v)
	}
	if v, ok := val("in", "12", true); ok {
		out.IN = cfInt(integer("in", v))
	}
	if v, ok := val("b", "yes", true); ok {
		out.B = boolean("b", v)
	}
	if v, ok := val("bn", "1", true); ok {
		out.BN = cfBool(boolean("bn", v))
	}
	if v, ok := val("l", "", true); ok && v != "" {
		out.L = strings.Split(v, ",")
	}
	if v, ok := val("li", "5", true); ok {
		out.LI = nil
		for _, e := range strings.Split(v, ",") {
			out.LI = append(out.LI, integer("li", e))
		}
	}
	if v, ok := val("lb", "y", true); ok {
		out.LB = nil
		for _, e := range strings.Split(v, ",") {
			out.LB = append(out.LB, cfBool(boolean("lb", e)))
		}
	}
	if v, ok := val("ln", "x", true); ok {
		out.LN = strings.Split(v, ",")
	}
	pairs := func(v string, f func(k, v string)) {
		for _, e := range strings.Split(v, ",") {
			k, v, _ := strings.Cut(e, "=")
			f(k, v)
		}
	}
	if v, ok := val("m", "", true); ok && v != "" {
		out.M = map[string]string{}
		pairs(v, func(k, v string) { out.M[k] = v })
	}
	if v, ok := val("mi", "k=3", true); ok {
		out.MI = map[string]int{}
		pairs(v, func(k, v string) { out.MI[k] = integer("mi", v) })
	}
	if v, ok := val("mn", "q=true", true); ok {
		out.MN = map[cfKey]cfBool{}
		pairs(v, func(k, v string) { out.MN[cfKey(k)] = cfBool(boolean("mn", v)) })
	}
	if v, ok := val("ki", "1=y", true); ok {
		out.KI = map[int]bool{}
		pairs(v, func(k, v string) { out.KI[integer("ki", k)] = boolean("ki", v) })
	}
	if v, ok := val("kt", "", true); ok && v != "" {
		out.KT = map[cfText]cfInt{}
		pairs(v, func(k, v string) { out.KT[text("kt", k)] = cfInt(integer("kt", v)) })
	}
	if v, ok := val("kb", "", false); ok {
		out.KB = map[cfBool]string{}
		pairs(v, func(k, v string) { out.KB[cfBool(boolean("kb", k))] = v })
	}
	if v, ok := val("t", "", true); ok {
		out.T = text("t", v)
	}
	if v, ok := val("tt", "xyz", true); ok {
		out.TT = text("tt", v)
	}
	if v, ok := val("lt", "", true); ok && v != "" {
		out.LT = nil
		for _, e := range strings.Split(v, ",") {
			out.LT = append(out.LT, text("lt", e))
		}
	}
	if v, ok := val("mt", "", true); ok && v != "" {
		out.MT = map[string]cfText{}
		pairs(v, func(k, v string) { out.MT[k] = text("mt", v) })
	}
	if v, ok := val("c", "", true); ok {
		out.C = cc("c", v)
	}
	if v, ok := val("lc", "", true); ok && v != "" {
		out.LC = nil
		for _, e := range strings.Split(v, ",") {
			out.LC = append(out.LC, cc("lc", e))
		}
	}
	if v, ok := val("j", "", true); ok {
		out.J = js(out.J, "j", v)
	}
	if v, ok := val("jd", "[4]", true); ok {
		out.JD = js(out.JD, "jd", v)
	}
	if v, ok := val("w", "2024-02-03T04:05:06Z", true); ok {
		if t, err := time.Parse(time.RFC3339, v); err == nil {
			out.W = t
		} else if bad == "" {
			bad = "w"
		}
	}
	str(&out.Tag, "tag", "d", true)
	return
}

func genConfig(rng *rand.Rand) map[string]string {
	src := map[string]string{}
	keys := []string{"s", "sd", "se", "sx", "n", "i", "in", "b", "bn", "l", "li", "lb", "ln", "m", "mi", "mn", "ki", "kt", "kb", "t", "tt", "lt", "mt", "c", "lc", "j", "jd", "w", "tag", "never"}
	b := func() string {
		return []string{"true", "TRUE", "1", "yes", "Y", "false", "0", "No", "n"}[rng.Intn(9)]
	}
	i := func() string {
		return []string{"0", "-1", "42", "+3", "007", "9223372036854775807", "-9223372036854775808"}[rng.Intn(7)]
	}
	s := func() string {
		return []string{"x", "hello world", "a=b", "=", " sp ", "é", "default=x", "\n", "%s", "{}", "null", "x=y=z"}[rng.Intn(12)]
	}
	list := func(f func() string) string {
		var l []string
		for n := 1 + rng.Intn(4); n > 0; n-- {
			l = append(l, f())
		}
		return strings.Join(l, ",")
	}
	pairs := func(f func() string) string {
		var l []string
		for n := 1 + rng.Intn(4); n > 0; n-- {
			l = append(l, fmt.Sprintf("k%d=%s", rng.Intn(4), f()))
		}
		return strings.Join(l, ",")
	}
	te := func() string { return []string{"p", "q r", "", "z"}[rng.Intn(4)] }
	hostile := rng.Intn(3) == 0
	for _, k := range keys {
		if k == "kb" && rng.Intn(6) > 0 {
			src[k] = []string{"y=x", "1=,no=7", "TRUE=a,FALSE=b=c", "n=a,0=b", "maybe=1", "=x", "y"}[rng.Intn(9)%7]
			continue
		}
		if k == "s" && rng.Intn(6) > 0 {
			src[k] = s()
			continue
		}
		if rng.Intn(3) == 0 {
			continue
		}
		switch k {
		case "s", "sd", "se", "sx", "n", "tag", "never":
			src[k] = s()
		case "l", "ln":
			src[k] = list(s)
		case "i", "in":
			src[k] = i()
		case "b", "bn":
			src[k] = b()
		case "li":
			src[k] = list(i)
		case "lb":
			src[k] = list(b)
		case "m":
			src[k] = pairs(s)
			if rng.Intn(3) == 0 {
				src[k] += ",nokey,=v,,z="
			}
		case "mi":
			src[k] = pairs(i)
		case "mn":
			src[k] = pairs(b)
		case "ki":
			var l []string
			for n := 1 + rng.Intn(3); n > 0; n-- {
				l = append(l, i()+"="+b())
			}
			if rng.Intn(12) == 0 {
				l = append(l, "x=y")
			}
			src[k] = strings.Join(l, ",")
		case "kt":
			src[k] = []string{"a=1", "a=1,b=2,a=3", "=4", "bad=1", "a=b", "p q=-1"}[rng.Intn(12)%6]
		case "t", "tt", "c":
			src[k] = s()
		case "lt", "lc":
			src[k] = list(te)
		case "mt":
			src[k] = pairs(te)
		case "j", "jd":
			src[k] = []string{"[]", "[1]", "[1,2]", " [ 7 , 8 ] "}[rng.Intn(4)]
		case "w":
			src[k] = "2001-02-03T04:05:06Z"
		}
		if hostile && rng.Intn(12) == 0 {
			src[k] = []string{"bad", "1.5", "tru", "99999999999999999999", "[x", "0x10", "1,,2", "k=1,j=x", ","}[rng.Intn(9)]
		}
		if hostile && rng.Intn(10) == 0 { // nearly a value
			nearBool := []string{" true", "true ", "t", "F", "on", "off", "2", "-1", "yes!", "ye", "nn", "00", "01", "+1", "tRUE\n"}
			nearInt := []string{" 1", "1 ", "1_000", "0x10", "0b1", "1e3", "1.0", "+-1", "--1", "１", "1\x00", "9223372036854775808", "-9223372036854775809", "0o7", "\t7", "∞"}
			switch k {
			case "b", "bn":
				src[k] = nearBool[rng.Intn(len(nearBool))]
			case "lb":
				src[k] = b() + "," + nearBool[rng.Intn(len(nearBool))]
			case "mn":
				src[k] = "k=" + nearBool[rng.Intn(len(nearBool))]
			case "i", "in":
				src[k] = nearInt[rng.Intn(len(nearInt))]
			case "li":
				src[k] = i() + "," + nearInt[rng.Intn(len(nearInt))]
			case "mi":
				src[k] = "k=" + nearInt[rng.Intn(len(nearInt))]
			}
		}
	}
	return src
}

func c50(r *R) {
	c := quietCtx()
	for i := 0; i < r.N(3000, 60000); i++ {
		rng := r.Sub("cfg", i)
		src := genConfig(rng)
		in := cfAll{}
		var backing []string
		if rng.Intn(2) == 0 { // initial values
			in.Skip, in.low, in.Deep.S = "keep", 5, "deep"
			in.S, in.I, in.B, in.BN = "old", 99, true, true
			backing = []string{"p0", "p1", "p2", "p3"}
			in.L = backing[:1+rng.Intn(3)]
			in.LN = cfList{"old"}
			in.M = map[string]string{"old": "1", "k1": "2"}
			in.MI = map[string]int{"old": 1}
			in.LI = []int{1, 2, 3}
			in.T, in.J, in.C = cfText{"old"}, cfJSON{8, 9}, cfCtx{"old"}
			in.KI = map[int]bool{7: true}
		}
		want, bad := cfModel(in, src)
		wantIn := reflect.ValueOf(in).Interface().(cfAll)
		asked := map[string]int{}
		var got cfAll
		var err error
		what := func() string { return fmt.Sprintf("loading from %q", src) }
		if !r.Guard("panic", what, func() {
			got, err = config.From(c, in, func(k string) string {
				asked[k]++
				if !cfKeys[k] { // it has values for others, too
					return "1"
				}
				return src[k]
			})
		}) {
			continue
		}
		if (err != nil) != (bad != "") {
			r.Fail("error", "%s: error %v, expected a problem with %q", what(), err, bad)
			continue
		}
		if asked["never"] != 0 {
			r.Fail("asked", "%s: a field of an untagged struct was asked for", what())
		}
		if in.M != nil && (len(in.M) != 2 || in.M["old"] != "1" || in.M["k1"] != "2") || in.MI != nil && (len(in.MI) != 1) {
			r.Fail("input", "%s: the initial maps were changed: %v %v", what(), in.M, in.MI)
		}
		if backing != nil && strings.Join(backing, " ") != "p0 p1 p2 p3" {
			r.Fail("input", "%s: the array behind the initial list was changed: %q", what(), backing)
		}
		if !reflect.DeepEqual(in, wantIn) {
			r.Fail("input", "%s: the initial value was changed", what())
		}
		if err != nil {
			if src[bad] == "" && !strings.Contains(err.Error(), bad) {
				r.Fail("name", "%s: the error %q does not name the missing %q", what(), err, bad)
			}
			r.Count("refused", 1)
			r.Eval(fmt.Sprint(src, in.L))
			// Must panics instead
			func() {
				defer func() {
					if recover() == nil {
						r.Fail("must", "%s: Must returned in spite of %v", what(), err)
					}
				}()
				config.Must(c, in, func(k string) string { return src[k] })
			}()
			continue
		}
		if d := cfDiff(got, want); d != "" {
			r.Fail("value", "%s, initial %v: %s", what(), backing, d)
		}
		if again := config.Must(c, in, func(k string) string { return src[k] }); cfDiff(again, want) != "" {
			r.Fail("value", "%s: Must gave another value: %s", what(), cfDiff(again, want))
		}
		var keys []string
		for k := range asked {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		r.Eval(fmt.Sprint(src, in.L))
		r.Count("fields", int64(len(keys)))
	}
	// elements which decode themselves start from nothing, each
	for i := 0; i < r.N(50, 2000); i++ {
		rng := r.Sub("own", i)
		type own struct {
			G  []cfGrow          `config:"g"`
			F  []cfFlag          `config:"f"`
			MG map[string]cfGrow `config:"mg"`
			MF map[cfKey]cfFlag  `config:"mf"`
		}
		want := own{MG: map[string]cfGrow{}, MF: map[cfKey]cfFlag{}}
		var g, f, mg, mf []string
		for k := 1 + rng.Intn(5); k > 0; k-- {
			w := fmt.Sprint("w", rng.Intn(9))
			g = append(g, w)
			want.G = append(want.G, cfGrow{w})
			one := rng.Intn(2) == 0
			f = append(f, map[bool]string{true: "1", false: "2"}[one])
			want.F = append(want.F, cfFlag{A: one, B: !one})
			mg = append(mg, fmt.Sprintf("k%d=%s", k, w))
			want.MG[fmt.Sprint("k", k)] = cfGrow{w}
			mf = append(mf, fmt.Sprintf("k%d=%s", k, f[len(f)-1]))
			want.MF[cfKey(fmt.Sprint("k", k))] = cfFlag{A: one, B: !one}
		}
		src := map[string]string{"g": strings.Join(g, ","), "f": strings.Join(f, ","), "mg": strings.Join(mg, ","), "mf": strings.Join(mf, ",")}
		got, err := config.From(c, own{}, func(k string) string { return src[k] })
		if err != nil || !reflect.DeepEqual(got, want) {
			r.Fail("elements", "loading from %q gave %+v (%v), want %+v", src, got, err, want)
		}
		r.Eval(fmt.Sprint(src))
	}
	// structs which can't be loaded: an error, never a panic
	any1 := func(name string, val string, f func(src func(string) string) (any, error), mustFail bool) {
		var err error
		var got any
		r.Guard("panic", func() string { return fmt.Sprintf("loading %s from %q", name, val) }, func() {
			got, err = f(func(string) string { return val })
		})
		if mustFail && err == nil {
			r.Fail("accepted", "%s was loaded from %q as %+v", name, val, got)
		}
		r.Eval(name + val)
		r.Count("hostile structs", 1)
	}
	for _, val := range []string{"", "1", "x", "a=b", "1,2", "1=2"} {
		any1("an unknown option", val, func(f func(string) string) (any, error) {
			return config.From(c, struct {
				A string `config:"a,optional"`
			}{}, f)
		}, true)
		any1("an unexported field", val, func(f func(string) string) (any, error) {
			return config.From(c, struct {
				a string `config:"a,default=x"`
			}{}, f)
		}, true)
		any1("an unexported struct", val, func(f func(string) string) (any, error) {
			return config.From(c, struct {
				a time.Time `config:"a,default=x"`
			}{}, f)
		}, true)
		any1("an unexported list", val, func(f func(string) string) (any, error) {
			return config.From(c, struct {
				a []string `config:"a,default=x"`
			}{}, f)
		}, true)
		any1("an unexported map", val, func(f func(string) string) (any, error) {
			return config.From(c, struct {
				a map[string]string `config:"a,default=x"`
			}{}, f)
		}, true)
		any1("a channel", val, func(f func(string) string) (any, error) {
			return config.From(c, struct {
				A chan int `config:"a,default=x"`
			}{}, f)
		}, true)
		any1("a function", val, func(f func(string) string) (any, error) {
			return config.From(c, struct {
				A func() `config:"a,default=x"`
			}{}, f)
		}, true)
		any1("an interface", val, func(f func(string) string) (any, error) {
			return config.From(c, struct {
				A any `config:"a,default=x"`
			}{}, f)
		}, true)
		any1("numeric keys", val, func(f func(string) string) (any, error) {
			return config.From(c, struct {
				A map[int]string `config:"a,default=1=x"`
			}{}, f)
		}, false)
		any1("interface keys", val, func(f func(string) string) (any, error) {
			return config.From(c, struct {
				A map[any]string `config:"a,default=1=x"`
			}{}, f)
		}, false)
		any1("a pointer", val, func(f func(string) string) (any, error) {
			return config.From(c, struct {
				A *string `config:"a,default=1=x"`
			}{}, f)
		}, false)
		any1("an array", val, func(f func(string) string) (any, error) {
			return config.From(c, struct {
				A [2]string `config:"a,default=1=x"`
			}{}, f)
		}, false)
		any1("a byte list", val, func(f func(string) string) (any, error) {
			return config.From(c, struct {
				A []byte `config:"a,default=1"`
			}{}, f)
		}, false)
		any1("a list of lists", val, func(f func(string) string) (any, error) {
			return config.From(c, struct {
				A [][]string `config:"a,default=1"`
			}{}, f)
		}, false)
		any1("a float", val, func(f func(string) string) (any, error) {
			return config.From(c, struct {
				A float64 `config:"a,default=1"`
			}{}, f)
		}, false)
		any1("an embedded pointer", val, func(f func(string) string) (any, error) {
			return config.From(c, struct {
				*cfAll `config:"a,default=1"`
			}{}, f)
		}, false)
		any1("a string", val, func(f func(string) string) (any, error) { return config.From(c, "x", f) }, true)
		any1("a map", val, func(f func(string) string) (any, error) { return config.From(c, map[string]string{}, f) }, true)
		any1("a pointer to struct", val, func(f func(string) string) (any, error) { return config.From(c, &cfAll{}, f) }, true)
		any1("a nil interface", val, func(f func(string) string) (any, error) { return config.From[any](c, nil, f) }, true)
		any1("a struct in an interface", val, func(f func(string) string) (any, error) { return config.From[any](c, cfJSON{}, f) }, false)
	}
}

// cfKeys are the keys of cfAll.
var cfKeys = func() map[string]bool {
	out := map[string]bool{}
	t := reflect.TypeOf(cfAll{})
	for i := 0; i < t.NumField(); i++ {
		if tag := t.Field(i).Tag.Get("config"); tag != "" {
			key, _, _ := strings.Cut(tag, ",")
			out[key] = true
		}
	}
	return out
}()

// cfGrow keeps what it had when it decodes more.
type cfGrow []string

func (g *cfGrow) UnmarshalText(b []byte) error {
	*g = append(*g, string(b))
	return nil
}

// cfFlag only ever sets itself.
type cfFlag struct{ A, B bool }

func (f *cfFlag) UnmarshalJSON(j []byte) error {
	switch string(j) {
	case `"a"`, "1":
		f.A = true
	case `"b"`, "2":
		f.B = true
	}
	return nil
}

// cfDiff names the fields which differ; a nil and an empty list are the same.
func cfDiff(got, want cfAll) string {
	g, w := reflect.ValueOf(got), reflect.ValueOf(want)
	var out []string
	for i := 0; i < g.NumField(); i++ {
		gf, wf := g.Field(i), w.Field(i)
		if k := gf.Kind(); (k == reflect.Slice || k == reflect.Map) && gf.Len() == 0 && wf.Len() == 0 {
			continue
		}
		if gs, ws := fmt.Sprintf("%#v", gf), fmt.Sprintf("%#v", wf); gs != ws {
			out = append(out, fmt.Sprintf("%s is %s, want %s", g.Type().Field(i).Name, gs, ws))
		}
	}
	return strings.Join(out, "; ")
}
