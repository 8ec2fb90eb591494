package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"reflect"
	"slices"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing/iotest"
	"time"

	"github.com/Aize-Public/forego/api"
	"github.com/Aize-Public/forego/api/openapi"
	"github.com/Aize-Public/forego/ctx"
	"github.com/Aize-Public/forego/enc"
)

func init() {
	reg("C12", "random operation types (fields of random types, directions, names by enc/json tag or Go name) used as client and server, with payloads extended by keys aimed at every field that must not be touched; non-trivial: distinct (type, payload)", c12)
	reg("C13", "random operation types with required and auth fields, payloads with each of them absent, null, zero, of the wrong kind or set, UID absent, null, fitting or not; non-trivial: distinct (type, payload, UID)", c13)
	reg("C14", "requests received, run and answered by 8 goroutines at once on shared servers whose template holds state of every reference kind, under the race detector; non-trivial: distinct (template, request)", c14)
	reg("C15", "schemas of random types and of a fixed set of recursive, generic, embedded and custom-converted types, compared with the type and with documents written for random values; non-trivial: distinct type", c15,
		"recursion only through named structs; function-local types with equal names are not generated")
}

// apiField is what the harness knows about a field of a generated operation.
type apiField struct {
	i        int
	name     string // on the wire
	goName   string
	in, out  bool
	required bool
	auth     bool
	url      bool
	hidden   bool
}

func (f apiField) state() bool { return !f.in && !f.out && !f.url && !f.auth }

func genOpType(g *rand.Rand, o typeOpts) (reflect.Type, []apiField) {
	n := 1 + g.Intn(7)
	names := []string{"Str", "Ct", "List", "Opt", "User", "Body", "Items", "Alpha", "Z9"}
	g.Shuffle(len(names), func(i, j int) { names[i], names[j] = names[j], names[i] })
	var fs []reflect.StructField
	var specs []apiField
	used := map[string]bool{"R": true}
	hasAuth := false
	for i := 0; i < n; i++ {
		f := reflect.StructField{Name: names[i], Type: genType(g, 2, o)}
		s := apiField{name: names[i], goName: names[i]}
		var tags []string
		switch g.Intn(6) {
		case 0:
			s.name = strings.ToLower(names[i])
			tags = append(tags, fmt.Sprintf(`json:"%s"`, s.name))
		case 1:
			s.name = strings.ToLower(names[i]) + "_e"
			tags = append(tags, fmt.Sprintf(`enc:"%s" json:"%s_j"`, s.name, names[i]))
		case 2:
			s.name = "x-" + names[i]
			tags = append(tags, fmt.Sprintf(`json:"%s,omitempty"`, s.name))
		case 3:
			tags = append(tags, `json:",omitempty"`)
		}
		dir := g.Intn(8)
		switch {
		case dir < 2:
			s.in = true
			s.required = g.Intn(3) == 0
		case dir < 4:
			s.out = true
		case dir == 4:
			s.in, s.out = true, true
			s.required = g.Intn(3) == 0
		case dir == 5 && !hasAuth:
			s.auth, hasAuth = true, true
			s.required = g.Intn(2) == 0
			f.Type = []reflect.Type{reflect.TypeOf(""), reflect.TypeOf(NamedStr("")), reflect.TypeOf(0), reflect.TypeOf((*string)(nil)), reflect.TypeOf(map[string]string{})}[g.Intn(5)]
		}
		var parts []string
		switch {
		case s.auth:
			parts = append(parts, "auth")
		case s.in && s.out:
			parts = append(parts, "both")
		case s.in:
			parts = append(parts, "in")
		case s.out:
			parts = append(parts, "out")
		}
		if s.required {
			parts = append(parts, "required")
			if g.Intn(4) == 0 {
				parts[0], parts[1] = parts[1], parts[0]
			}
		}
		if len(parts) > 0 {
			tags = append(tags, fmt.Sprintf(`api:"%s"`, strings.Join(parts, ",")))
		}
		if used[s.name] {
			continue
		}
		used[s.name] = true
		g.Shuffle(len(tags), func(i, j int) { tags[i], tags[j] = tags[j], tags[i] })
		f.Tag = reflect.StructTag(strings.Join(tags, " "))
		s.i = len(fs)
		fs = append(fs, f)
		specs = append(specs, s)
	}
	if g.Intn(2) == 0 {
		specs = append(specs, apiField{i: len(fs), name: "R", goName: "R", url: true})
		fs = append(fs, reflect.StructField{Name: "R", Type: reflect.TypeOf(api.Request{}), Tag: `url:"/api/op/v1"`})
		for k := g.Intn(4) - 1; k > 0; k-- { // and at other urls
			n := fmt.Sprintf("R%d", k+1)
			ut := []reflect.Type{reflect.TypeOf(api.Request{}), reflect.TypeOf((*any)(nil)).Elem()}[g.Intn(2)]
			specs = append(specs, apiField{i: len(fs), name: n, goName: n, url: true})
			fs = append(fs, reflect.StructField{Name: n, Type: ut, Tag: reflect.StructTag(fmt.Sprintf(`url:"/api/op/v%d"`, k+1))})
		}
	}
	if g.Intn(4) == 0 {
		specs = append(specs, apiField{i: len(fs), name: "hidden", goName: "hidden", hidden: true})
		fs = append(fs, reflect.StructField{Name: "hidden", PkgPath: "verifmon", Type: reflect.TypeOf("")})
	}
	return reflect.StructOf(fs), specs
}

// hostileKeys adds, to a payload, keys aimed at the fields of which skip is true.
func hostileKeys(c ctx.C, g *rand.Rand, t reflect.Type, specs []apiField, data enc.Map, skip func(apiField) bool) {
	for _, f := range specs {
		if !skip(f) {
			continue
		}
		for _, k := range []string{f.name, f.goName, strings.ToLower(f.goName), strings.ToUpper(f.goName), strings.ToUpper(f.name), t.Field(f.i).Tag.Get("json"), f.goName + "_j", " " + f.name, f.name + ",omitempty"} {
			if _, ok := data[k]; ok || g.Intn(3) == 0 {
				continue
			}
			// not the name of a field that is to be touched
			clash := false
			for _, o := range specs {
				if !skip(o) && o.name == k {
					clash = true
				}
			}
			if clash {
				continue
			}
			n := enc.Node(enc.String("hostile"))
			if !f.hidden {
				if m, err := enc.Marshal(c, genNonZero(g, t.Field(f.i).Type).Interface()); err == nil {
					n = m
				}
			}
			data[k] = n
		}
	}
	for _, k := range []string{"", "-", "R", "hidden", "__proto__", "unknown"} {
		if g.Intn(3) == 0 {
			if _, ok := data[k]; !ok {
				data[k] = enc.String("hostile")
			}
		}
	}
}

func genNonZero(g *rand.Rand, t reflect.Type) reflect.Value {
	for i := 0; i < 200; i++ {
		if v := genValue(g, t, 2); !v.IsZero() {
			return v
		}
	}
	return genValue(g, t, 2)
}

func canBeNonZero(t reflect.Type) bool {
	switch t.Kind() {
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			if f := t.Field(i); f.IsExported() && f.Tag.Get("json") != "-" && canBeNonZero(f.Type) {
				return true
			}
		}
		return false
	case reflect.Array:
		return t.Len() > 0 && canBeNonZero(t.Elem())
	}
	return true
}

func copyOf(v reflect.Value) reflect.Value {
	p := reflect.New(v.Type()).Elem()
	p.Set(v)
	return p
}

func wire(m enc.Map) *bytes.Reader {
	b, err := json.Marshal(m)
	if err != nil {
		panic(err)
	}
	return bytes.NewReader(b)
}

func keysOf(m enc.Map) []string {
	out := make([]string, 0, len(m))
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

var opOpts = typeOpts{noOmit: true, namedKinds: true}

func c12(r *R) {
	c := quietCtx()
	n := r.N(900, 40000)
	for i := 0; i < n; i++ {
		g := r.Sub("op", i)
		t, specs := genOpType(g, opOpts)
		skip := false
		for _, f := range specs {
			if f.required && !f.auth && !canBeNonZero(t.Field(f.i).Type) {
				skip = true
			}
		}
		if skip {
			continue
		}
		tmpl := reflect.New(t)
		for _, f := range specs {
			if f.state() && !f.hidden && g.Intn(2) == 0 {
				fillValue(g, tmpl.Elem().Field(f.i), 2)
			}
		}
		what := func() string { return fmt.Sprintf("operation %v", t) }
		r.Guard("api:panic", what, func() {
			h, err := api.NewHandler[any](c, tmpl.Interface())
			if err != nil {
				r.Fail("api:handler", "%v: %v", t, err)
				return
			}
			ser, cli := h.Server(), h.Client()
			fill := func(p reflect.Value) {
				for _, f := range specs {
					if f.hidden {
						continue
					}
					if f.required {
						p.Elem().Field(f.i).Set(genNonZero(g, t.Field(f.i).Type))
					} else if !f.url {
						fillValue(g, p.Elem().Field(f.i), 2)
					}
				}
			}
			var wantIn, wantOut []string
			for _, f := range specs {
				if f.in {
					wantIn = append(wantIn, f.name)
				}
				if f.out {
					wantOut = append(wantOut, f.name)
				}
			}
			sort.Strings(wantIn)
			sort.Strings(wantOut)

			// client -> server
			obj := reflect.New(t)
			fill(obj)
			before := copyOf(obj.Elem())
			req := &api.JSON{}
			if err := cli.Send(c, obj.Interface(), req); err != nil {
				r.Fail("api:client-send", "%v: %v", t, err)
				return
			}
			if !deepEq(before.Interface(), obj.Elem().Interface()) {
				r.Fail("api:client-send-modifies", "%v: Send changed the object", t)
			}
			if got := keysOf(req.Data); len(got)+len(wantIn) > 0 && !deepEq(got, wantIn) {
				r.Fail("api:request-fields", "%v: the request has %q, the fields declared in or both are %q", t, got, wantIn)
			}
			payload := enc.Map{}
			for k, v := range req.Data {
				payload[k] = v
			}
			absent := map[string]bool{}
			for _, f := range specs {
				if f.in && !f.required && g.Intn(6) == 0 {
					absent[f.name] = true
					delete(payload, f.name)
				}
			}
			hostileKeys(c, g, t, specs, payload, func(f apiField) bool { return !f.in || absent[f.name] })
			for k := range absent {
				delete(payload, k)
			}
			r.Eval(t.String() + dump(before.Interface()))
			if i < 3 {
				r.Sample("%v with request %v", t, payload)
			}
			req2 := &api.JSON{}
			if err := req2.ReadFrom(c, wire(payload)); err != nil {
				r.Fail("api:read", "%v: %v", payload, err)
				return
			}
			for _, f := range specs {
				if f.auth {
					req2.UID, _ = enc.Marshal(c, obj.Elem().Field(f.i).Interface())
				}
			}
			for _, f := range specs {
				if f.auth && f.required && (req2.UID == nil || deepEq(req2.UID, enc.Nil{})) {
					return
				}
			}
			x, err := ser.Recv(c, req2)
			if err != nil {
				r.Fail("api:server-recv", "%v: request %v: %v", t, payload, err)
				return
			}
			got := reflect.ValueOf(x).Elem()
			for _, f := range specs {
				if f.hidden {
					continue
				}
				gv, ov := got.Field(f.i).Interface(), obj.Elem().Field(f.i).Interface()
				switch {
				case absent[f.name]: // whatever the keys alike
					if !got.Field(f.i).IsZero() {
						r.Fail("api:absent-in-payload", "%v.%s is not in the request but received %#v from request %v", t, f.goName, gv, payload)
					}
				case f.in || f.auth:
					if !deepEq(gv, ov) {
						r.Fail("api:in-value", "%v.%s: sent %#v, received %#v", t, f.goName, ov, gv)
					}
				case f.out:
					if !got.Field(f.i).IsZero() {
						r.Fail("api:out-from-payload", "%v.%s is out only but received %#v from request %v", t, f.goName, gv, payload)
					}
				default:
					if !deepEq(gv, tmpl.Elem().Field(f.i).Interface()) {
						r.Fail("api:state-from-payload", "%v.%s is shared state %#v but received %#v from request %v", t, f.goName, tmpl.Elem().Field(f.i).Interface(), gv, payload)
					}
				}
			}
			for _, f := range specs {
				if f.hidden && got.Field(f.i).String() != "" {
					r.Fail("api:hidden-from-payload", "%v: unexported field received %q", t, got.Field(f.i).String())
				}
			}
			r.Count("requests_checked", 1)

			// server -> client
			fill(reflect.ValueOf(x))
			res := &api.JSON{}
			if err := ser.Send(c, x, res); err != nil {
				r.Fail("api:server-send", "%v: %v", t, err)
				return
			}
			if got := keysOf(res.Data); len(got)+len(wantOut) > 0 && !deepEq(got, wantOut) {
				r.Fail("api:response-fields", "%v: the response has %q, the fields declared out or both are %q", t, got, wantOut)
			}
			answer := enc.Map{}
			dropped := map[string]bool{}
			for k, v := range res.Data {
				if g.Intn(6) == 0 {
					dropped[k] = true
					continue
				}
				answer[k] = v
			}
			hostileKeys(c, g, t, specs, answer, func(f apiField) bool { return !f.out })
			for k := range dropped {
				delete(answer, k)
			}
			res2 := &api.JSON{}
			if err := res2.ReadFrom(c, wire(answer)); err != nil {
				r.Fail("api:read", "%v: %v", answer, err)
				return
			}
			into := reflect.New(t)
			fill(into)
			old := copyOf(into.Elem())
			if err := cli.Recv(c, res2, into.Interface()); err != nil {
				r.Fail("api:client-recv", "%v: response %v: %v", t, answer, err)
				return
			}
			for _, f := range specs {
				if f.hidden {
					continue
				}
				gv := into.Elem().Field(f.i).Interface()
				if f.out && !dropped[f.name] {
					if want := got.Field(f.i).Interface(); !deepEq(gv, want) {
						r.Fail("api:out-value", "%v.%s: sent %#v, received %#v", t, f.goName, want, gv)
					}
				} else if want := old.Field(f.i).Interface(); !deepEq(gv, want) {
					r.Fail("api:client-overwritten", "%v.%s is not in the response but went from %#v to %#v (response %v)", t, f.goName, want, gv, answer)
				}
			}
			r.Count("responses_checked", 1)
		})
	}
	for i := 0; i < r.N(600, 10000); i++ {
		c12Declared(r, c, r.Sub("declared", i))
	}
	// what is not a JSON object is not a request
	again := &api.JSON{} // reads them all
	for i := 0; i < r.N(600, 10000); i++ {
		g := r.Sub("body", i)
		doc := genJSON(g, 2)
		if g.Intn(3) == 0 {
			doc = mutateBytes(g, doc)
		}
		std, err := decodeStd([]byte(doc))
		_, isObj := std.(map[string]any)
		ok := err == nil && isObj || doc == ""
		r.Eval("body" + doc)
		r.Guard("api:body-panic", func() string { return fmt.Sprintf("body %q", doc) }, func() {
			j := &api.JSON{}
			err := j.ReadFrom(c, strings.NewReader(doc))
			if (err == nil) != ok {
				r.Fail("api:body", "body %q: error %v, expected ok=%v", doc, err, ok)
			}
			if err := again.ReadFrom(c, strings.NewReader(doc)); (err == nil) != ok {
				r.Fail("api:body-again", "body %q, read by what has read others: error %v, expected ok=%v", doc, err, ok)
			} else if ok && (len(again.Data)+len(j.Data) > 0 && !deepEq(again.Data, j.Data)) {
				r.Fail("api:body-mixed", "body %q, read by what has read others, gives %v, otherwise %v", doc, again.Data, j.Data)
			}
			// a body that breaks off is no body, even when what came was one
			j = &api.JSON{}
			if err := j.ReadFrom(c, io.MultiReader(strings.NewReader(doc), iotest.ErrReader(io.ErrUnexpectedEOF))); err == nil {
				r.Fail("api:body-broken", "body %q, and then a read error: accepted", doc)
			}
		})
	}
}

// c12Declared: what an operation says about itself, and declarations that are none.
func c12Declared(r *R, c ctx.C, g *rand.Rand) {
	t, specs := genOpType(g, opOpts)
	what := func() string { return fmt.Sprintf("operation %v", t) }
	r.Guard("api:declared-panic", what, func() {
		x := reflect.New(t)
		if g.Intn(2) == 0 {
			x = reflect.Zero(reflect.PointerTo(t)) // (*T)(nil) does as well
		}
		h, err := api.NewHandler[any](c, x.Interface())
		if err != nil {
			r.Fail("api:handler", "%v: %v", t, err)
			return
		}
		var want []string
		for _, f := range specs {
			if f.url {
				want = append(want, t.Field(f.i).Tag.Get("url"))
			}
		}
		r.Eval("declared" + t.String())
		if h.Type() != t {
			r.Fail("api:type", "%v: its type is given as %v", t, h.Type())
		}
		var urls []string
		for _, u := range h.URLs() {
			urls = append(urls, u.String())
		}
		if !slices.Equal(urls, want) {
			r.Fail("api:urls", "%v: urls %q, expected %q", t, urls, want)
		}
		if len(want) == 0 {
			if p := h.Paths(); len(p) != 1 || p[0] != t.Name() || h.Path() != t.Name() || h.URL() != nil {
				r.Fail("api:urls", "%v: no url, but Paths %q, Path %q, URL %v", t, p, h.Path(), h.URL())
			}
		} else if p := h.Paths(); !slices.Equal(p, want) || h.Path() != want[0] || h.URL() == nil || h.URL().String() != want[0] {
			r.Fail("api:urls", "%v: urls %q, but Paths %q, Path %q, URL %v", t, want, p, h.Path(), h.URL())
		}
		r.Count("declarations_read", 1)
	})
	// one change makes it a declaration nobody can serve
	fs := []reflect.StructField{}
	for i := 0; i < t.NumField(); i++ {
		if t.Field(i).IsExported() {
			fs = append(fs, t.Field(i))
		}
	}
	add := func(tags ...string) {
		for k, tag := range tags {
			f := reflect.StructField{Name: fmt.Sprintf("Bad%d", k), Type: reflect.TypeOf(""), Tag: reflect.StructTag(tag)}
			at := g.Intn(len(fs) + 1)
			fs = append(fs[:at:at], append([]reflect.StructField{f}, fs[at:]...)...)
		}
	}
	why := ""
	switch g.Intn(4) {
	case 0:
		why = "two identities"
		add(`api:"auth"`, `api:"auth,required"`)
	case 1:
		why = "unknown direction"
		add([]string{`api:"inn"`, `api:"in,uot"`, `api:"In"`, `api:"in out"`, `api:"required,,x"`, `api:"auth;required"`, `api:"-"`}[g.Intn(7)])
	case 2:
		why = "url that can't be parsed"
		add([]string{`url:"http://[::1"`, `url:"%zz"`, `url:":x"`, "url:\"/a\x7f\"", `url:"http://a b/"`}[g.Intn(5)])
	case 3:
		why = "not a pointer to a struct"
	}
	bad := reflect.New(reflect.StructOf(fs)).Interface()
	if why == "not a pointer to a struct" {
		bad = []any{bad2[int](), bad2[string](), bad2[[]int](), bad2[map[string]int](), bad2[*c14Op](), c14Op{}, 3, "x", []c14Op{}, map[string]c14Op{}, (*int)(nil)}[g.Intn(11)]
	}
	r.Eval("undeclared" + fmt.Sprintf("%T", bad))
	r.Guard("api:undeclared-panic", func() string { return fmt.Sprintf("%s: %T", why, bad) }, func() {
		_, err := api.NewHandler[any](c, bad)
		_, err2 := api.NewServer[any](c, bad)
		_, err3 := api.NewClient[any](c, bad)
		if err == nil || err2 == nil || err3 == nil {
			r.Fail("api:undeclared", "%s: %T is accepted as an operation (%v, %v, %v)", why, bad, err, err2, err3)
		}
		r.Count("declarations_refused", 1)
	})
}

func bad2[T any]() *T { return new(T) }

// isFlat: an object is never a value of it.
func isFlat(t reflect.Type) bool {
	switch t.Kind() {
	case reflect.Struct, reflect.Pointer, reflect.Map, reflect.Interface:
		return false
	}
	return true
}

func c13(r *R) {
	c := quietCtx()
	for i := 0; i < r.N(200, 2000); i++ {
		c13Both(r, c, r.Sub("both", i))
	}
	n := r.N(2500, 50000)
	for i := 0; i < n; i++ {
		g := r.Sub("op", i)
		t, specs := genOpType(g, opOpts)
		rel := false
		for _, f := range specs {
			rel = rel || f.required || f.auth
		}
		if !rel {
			continue
		}
		h, err := api.NewHandler[any](c, reflect.New(t).Interface())
		if err != nil {
			r.Fail("api:handler", "%v: %v", t, err)
			continue
		}
		ser := h.Server()
		for k := 0; k < 4; k++ {
			payload := enc.Map{}
			var missing []string // required and zero
			bad := false
			var why []string
			want := reflect.New(t).Elem()
			var uid enc.Node
			for _, f := range specs {
				if f.hidden || f.url {
					continue
				}
				ft := t.Field(f.i).Type
				if f.auth {
					if m, err := enc.Marshal(c, genNonZero(g, ft).Interface()); err == nil && g.Intn(2) == 0 {
						payload[f.name] = m // must have no effect
					}
					switch g.Intn(4) {
					case 0:
					case 1:
						uid = enc.Nil{}
					case 2:
						uid = enc.List{enc.Bool(true)}
						bad = true
						why = append(why, "UID of the wrong kind")
					case 3:
						want.Field(f.i).Set(genNonZero(g, ft))
						uid, _ = enc.Marshal(c, want.Field(f.i).Interface())
						if _, null := uid.(enc.Nil); null {
							uid = nil
							want.Field(f.i).SetZero()
						}
					}
					if f.required && (uid == nil || deepEq(uid, enc.Node(enc.Nil{}))) {
						bad = true
						why = append(why, "no UID")
					}
					continue
				}
				if !f.in {
					continue
				}
				switch g.Intn(7) {
				case 0: // absent
				case 1:
					if ft.Kind() == reflect.Pointer || ft.Kind() == reflect.Map || ft.Kind() == reflect.Slice {
						payload[f.name] = enc.Nil{}
					}
				case 2:
					payload[f.name], _ = enc.Marshal(c, reflect.Zero(ft).Interface())
				case 3:
					if g.Intn(4) == 0 && isFlat(ft) {
						payload[f.name] = enc.Map{"x": enc.Nil{}}
						bad = true
						why = append(why, f.name+" of the wrong kind")
						break
					}
					fallthrough
				default:
					want.Field(f.i).Set(genNonZero(g, ft))
					payload[f.name], _ = enc.Marshal(c, want.Field(f.i).Interface())
				}
				if f.required && want.Field(f.i).IsZero() {
					missing = append(missing, f.name)
				}
			}
			r.Eval(fmt.Sprint(t, payload, uid))
			what := func() string { return fmt.Sprintf("operation %v, request %v, UID %v", t, payload, uid) }
			r.Guard("required:panic", what, func() {
				req := &api.JSON{}
				if err := req.ReadFrom(c, wire(payload)); err != nil {
					r.Fail("api:read", "%v: %v", payload, err)
					return
				}
				req.UID = uid
				x, err := ser.Recv(c, req)
				if (err != nil) != (bad || len(missing) > 0) {
					r.Fail(fmt.Sprintf("required:verdict-%v", err == nil), "%s: error %v, but required and zero: %q, other reasons: %q", what(), err, missing, why)
					return
				}
				if err != nil {
					r.Count("refused", 1)
					if len(missing) > 0 && !bad {
						named := false
						for _, m := range missing {
							named = named || strings.Contains(err.Error(), fmt.Sprintf("%q", m))
						}
						if !named {
							r.Fail("required:unnamed", "%s: the error %q names none of the missing %q", what(), err, missing)
						}
					}
					if x != nil {
						r.Fail("required:object-with-error", "%s: an error and an object %#v", what(), x)
					}
					return
				}
				r.Count("accepted", 1)
				got := reflect.ValueOf(x).Elem()
				for _, f := range specs {
					if f.hidden {
						continue
					}
					if !deepEq(got.Field(f.i).Interface(), want.Field(f.i).Interface()) {
						if f.auth {
							r.Fail("auth:identity", "%s: identity is %#v, expected %#v", what(), got.Field(f.i).Interface(), want.Field(f.i).Interface())
						} else {
							r.Fail("required:value", "%s: field %s is %#v, expected %#v", what(), f.goName, got.Field(f.i).Interface(), want.Field(f.i).Interface())
						}
					}
				}
			})
		}
	}
}

// c13Both: declarations that want a field from the identity and from the payload. They are no operations, or ones
// where the payload has no say.
func c13Both(r *R, c ctx.C, g *rand.Rand) {
	ft := []reflect.Type{reflect.TypeOf(""), reflect.TypeOf(0), reflect.TypeOf((*string)(nil)), reflect.TypeOf(map[string]string{}), reflect.TypeOf(enc.Map{})}[g.Intn(5)]
	tag := []string{"in,auth", "auth,in", "both,auth", "auth,both", "in,out,auth", "in,auth,required", "required,auth,both"}[g.Intn(7)]
	fs := []reflect.StructField{
		{Name: "A", Type: reflect.TypeOf(""), Tag: `api:"in" json:"a"`},
		{Name: "UID", Type: ft, Tag: reflect.StructTag(`api:"` + tag + `" json:"uid"`)},
		{Name: "B", Type: reflect.TypeOf(0), Tag: `api:"both" json:"b"`},
	}
	g.Shuffle(3, func(i, j int) { fs[i], fs[j] = fs[j], fs[i] })
	t := reflect.StructOf(fs)
	r.Eval("both" + t.String())
	what := func() string { return fmt.Sprintf("operation %v", t) }
	r.Guard("auth:panic", what, func() {
		h, err := api.NewServer[any](c, reflect.New(t).Interface())
		if err != nil {
			r.Count("identities_from_the_payload_refused", 1)
			return
		}
		uid, _ := enc.Marshal(c, genNonZero(g, ft).Interface())
		req := &api.JSON{Data: enc.Map{"uid": uid, "a": enc.String("x"), "b": enc.Integer(1)}}
		if g.Intn(2) == 0 {
			req.UID = enc.Nil{}
		}
		x, err := h.Recv(c, req)
		if err == nil && !reflect.ValueOf(x).Elem().FieldByName("UID").IsZero() {
			r.Fail("auth:from-payload", "%s: without an identity, the request %v made it %#v", what(), req.Data, reflect.ValueOf(x).Elem().FieldByName("UID").Interface())
		}
	})
}

// ---------------------------------------------------------------- C14

type c14Shared struct{ N atomic.Int64 }

type c14Op struct {
	R api.Request `url:"/c14"`

	Ptr   *c14Shared
	M     map[string]int
	L     []int
	Ch    chan int
	F     func(int) int
	I     fmt.Stringer
	Val   int
	Arr   [2]string
	quiet *c14Shared // shared state need not be exported
	limit int

	In   int            `api:"in" json:"in"`
	Tags []string       `api:"in" json:"tags"`
	Both map[string]int `api:"both" json:"both"`
	Out  int            `api:"out" json:"out"`
	Log  []string       `api:"out" json:"log"`
	UID  string         `api:"auth" json:"uid"`
}

type c14Str string

func (s c14Str) String() string { return string(s) }

func c14(r *R) {
	c := quietCtx()
	// unexported state, exported only, none
	for variant := 0; variant < 3; variant++ {
		sh := &c14Shared{}
		tm := &c14Op{Ptr: sh, M: map[string]int{"k": 1}, L: []int{1, 2, 3}, Ch: make(chan int, 1), F: func(i int) int { return i + 1 }, I: c14Str("state"), Val: 7, Arr: [2]string{"a", "b"}}
		if variant == 0 {
			tm.quiet, tm.limit = sh, 9
		}
		if variant == 2 {
			*tm = c14Op{}
		}
		// whatever the template holds in request and response fields must not reach a request
		tm.In, tm.Tags, tm.Both, tm.Out, tm.Log, tm.UID = 99, []string{"tmpl"}, map[string]int{"tmpl": 1}, 98, []string{"tmpl"}, "tmpl"
		r.Guard("state:panic", func() string { return fmt.Sprintf("template variant %d", variant) }, func() {
			ser, err := api.NewServer(c, tm)
			if err != nil {
				r.Fail("api:handler", "%v", err)
				return
			}
			var seen sync.Map
			var total atomic.Int64
			per := r.N(400, 20000)
			r.Par("state", "concurrent requests", 8, func(w int) {
				g := r.Sub("w", variant*100+w)
				var prev *c14Op
				for i := 0; i < per; i++ {
					in := g.Intn(1e9)
					req := &api.JSON{}
					payload := enc.Map{"in": enc.Integer(in)}
					full := g.Intn(2) == 0
					if full {
						payload["tags"] = enc.List{enc.String(fmt.Sprint(w, i))}
						payload["both"] = enc.Map{"w": enc.Integer(in)}
					}
					if err := req.ReadFrom(c, wire(payload)); err != nil {
						r.Fail("api:read", "%v", err)
						return
					}
					uid := ""
					if g.Intn(2) == 0 {
						uid = fmt.Sprintf("user-%d-%d", w, i)
						req.UID = enc.String(uid)
					}
					op, err := ser.Recv(c, req)
					if err != nil {
						r.Fail("state:recv", "variant %d: %v: %v", variant, payload, err)
						return
					}
					if i < 50 {
						r.Eval(fmt.Sprint(variant, w, i, in, uid))
					}
					if op == prev || op == tm {
						r.Fail("state:same-object", "two requests share one object")
					}
					prev = op
					if _, dup := seen.LoadOrStore(op, true); dup && i < 200 {
						r.Fail("state:same-object", "two requests share one object")
					}
					if op.In != in || op.UID != uid || op.Out != 0 || op.Log != nil || full && (len(op.Tags) != 1 || op.Tags[0] != fmt.Sprint(w, i) || len(op.Both) != 1 || op.Both["w"] != in) || !full && (op.Tags != nil || op.Both != nil) {
						r.Fail("state:leak", "variant %d: request %v by %q gave In=%d Tags=%q Both=%v Out=%d Log=%q UID=%q", variant, payload, uid, op.In, op.Tags, op.Both, op.Out, op.Log, op.UID)
					}
					if variant < 2 {
						if op.Ptr != sh || reflect.ValueOf(op.M).Pointer() != reflect.ValueOf(tm.M).Pointer() || len(op.L) != 3 || &op.L[0] != &tm.L[0] || op.Ch != tm.Ch || op.F == nil || op.F(1) != 2 || op.I != fmt.Stringer(c14Str("state")) || op.Val != 7 || op.Arr != tm.Arr {
							r.Fail("state:not-shared", "variant %d: the shared state did not reach the request: %+v", variant, op)
							return
						}
						op.Ptr.N.Add(1)
						total.Add(1)
					} else if op.Ptr != nil || op.M != nil || op.Val != 0 {
						r.Fail("state:invented", "state out of nowhere: %+v", op)
					}
					if variant == 0 && (op.quiet != sh || op.limit != 9) {
						r.Fail("state:unexported", "unexported shared state did not reach the request: %v %v", op.quiet, op.limit)
					}
					// one request changing its own copy must not be seen by others
					op.Val, op.Arr[0], op.I, op.limit = -1, "mine", nil, -1
					op.Out = in + 1
					op.Log = append(op.Log, uid)
					res := &api.JSON{}
					if err := ser.Send(c, op, res); err != nil {
						r.Fail("state:send", "%v", err)
						return
					}
					var out struct {
						Out  int            `json:"out"`
						Both map[string]int `json:"both"`
						Log  []string       `json:"log"`
					}
					j, _ := json.Marshal(res.Data)
					if err := json.Unmarshal(j, &out); err != nil || out.Out != in+1 || len(out.Log) != 1 || out.Log[0] != uid || full && out.Both["w"] != in {
						r.Fail("state:response", "request %v of %q answered %s", payload, uid, j)
					}
				}
			})
			if variant < 2 && sh.N.Load() != total.Load() {
				r.Fail("state:lost", "%d updates of the shared state, %d seen", total.Load(), sh.N.Load())
			}
			if variant < 2 && (tm.Val != 7 || tm.Arr[0] != "a" || tm.In != 99 || tm.Out != 98) {
				r.Fail("state:template-modified", "requests changed the template: %+v", tm)
			}
			r.Count("requests", int64(8*per))
		})
	}
	// operations of any shape: two objects of one server never share their own fields
	for i := 0; i < r.N(1500, 40000); i++ {
		g := r.Sub("shape", i)
		t, specs := genOpType(g, opOpts)
		required := false
		for _, f := range specs {
			required = required || f.required
		}
		if required {
			continue
		}
		if g.Intn(2) == 0 { // mostly without anything to receive
			var fs []reflect.StructField
			var kept []apiField
			for _, f := range specs {
				if f.in || f.auth {
					continue
				}
				sf := t.Field(f.i)
				sf.Index, sf.Offset = nil, 0
				f.i = len(fs)
				fs, kept = append(fs, sf), append(kept, f)
			}
			t, specs = reflect.StructOf(fs), kept
		}
		if t.NumField() == 0 {
			continue
		}
		tmpl := reflect.New(t)
		for _, f := range specs {
			if f.state() && !f.hidden && g.Intn(2) == 0 {
				fillValue(g, tmpl.Elem().Field(f.i), 2)
			}
		}
		orig := copyOf(tmpl.Elem())
		r.Eval("shape" + t.String())
		r.Guard("state:shape-panic", func() string { return fmt.Sprintf("operation %v", t) }, func() {
			h, err := api.NewHandler[any](c, tmpl.Interface())
			if err != nil {
				r.Fail("api:handler", "%v: %v", t, err)
				return
			}
			ser := h.Server()
			var mu sync.Mutex
			var objs []reflect.Value
			var wg sync.WaitGroup
			for w := 0; w < 3; w++ {
				vals := reflect.New(t).Elem()
				for _, f := range specs {
					if !f.hidden && !f.url {
						fillValue(g, vals.Field(f.i), 1)
					}
				}
				wg.Add(1)
				go func() { // changes its own copies
					defer wg.Done()
					x, err := ser.Recv(c, &api.JSON{})
					if err != nil {
						r.Fail("state:recv", "%v: %v", t, err)
						return
					}
					v := reflect.ValueOf(x).Elem()
					mu.Lock()
					for _, o := range objs {
						if t.Size() > 0 && o.Addr().Pointer() == v.Addr().Pointer() {
							r.Fail("state:same-object", "%v: two requests share one object", t)
						}
					}
					objs = append(objs, v)
					mu.Unlock()
					for _, f := range specs {
						if f.hidden || f.url {
							continue
						}
						if want := reflect.Zero(v.Field(f.i).Type()); f.state() {
							want = orig.Field(f.i)
							if !deepEq(v.Field(f.i).Interface(), want.Interface()) {
								r.Fail("state:not-shared", "%v.%s: the template has %#v, the request %#v", t, f.goName, want, v.Field(f.i))
							}
						} else if !v.Field(f.i).IsZero() {
							r.Fail("state:leak", "%v.%s is %#v in a request without it", t, f.goName, v.Field(f.i))
						}
						v.Field(f.i).Set(vals.Field(f.i))
					}
					if err := ser.Send(c, x, &api.JSON{}); err != nil {
						r.Fail("state:send", "%v: %v", t, err)
					}
					for _, f := range specs {
						if !f.hidden && !f.url && !deepEq(v.Field(f.i).Interface(), vals.Field(f.i).Interface()) {
							r.Fail("state:leak", "%v.%s was set to %#v and is now %#v", t, f.goName, vals.Field(f.i), v.Field(f.i))
						}
					}
				}()
			}
			wg.Wait()
			if !deepEq(orig.Interface(), tmpl.Elem().Interface()) {
				r.Fail("state:template-modified", "%v: requests changed the template from %#v to %#v", t, orig, tmpl.Elem())
			}
			r.Count("shapes", 1)
		})
	}
	// two servers of one type do not share their templates
	a, _ := api.NewServer(c, &c14Op{Val: 1})
	b, _ := api.NewServer(c, &c14Op{Val: 2})
	x, err1 := a.Recv(c, &api.JSON{})
	y, err2 := b.Recv(c, &api.JSON{})
	if err1 != nil || err2 != nil || x.Val != 1 || y.Val != 2 {
		r.Fail("state:servers", "two servers of one type: %v %v %v %v", x, y, err1, err2)
	}
}

// ---------------------------------------------------------------- C15

type docTree struct {
	Name string     `json:"name" doc:"the name" example:"x"`
	Kids []*docTree `json:"kids"`
	Up   *docTree   `json:"up"`
}
type docA struct {
	B   docB            `json:"b"`
	M   map[string]docB `json:"m"`
	not string
	No  string `json:"-"`
	Fn  func() `json:"-"`
}
type docB struct {
	A     *docA `json:"a"`
	Count int8
	T     time.Time     `json:"t"`
	D     enc.Duration  `json:"d"`
	TD    time.Duration `json:"td,omitempty"`
}
type docEmbed struct {
	docBase2
	DocBase
	Extra bool
}
type DocBase struct{ X int }
type docBase2 struct{ Y int }
type docPage[T any] struct {
	Items []T `json:"items"`
	Next  string
}
type docNeg struct{ i int }                 // its zero value is written as a negative number
func (docNeg) MarshalJSON() ([]byte, error) { return []byte("-1"), nil }

type docNum struct{ i int }

func (docNum) MarshalJSON() ([]byte, error) { return []byte("3"), nil }

type docStr struct{ s string }

func (docStr) MarshalNode(ctx.C) (enc.Node, error) { return enc.String("s"), nil }

type docBool struct{ b bool }

func (docBool) MarshalJSON() ([]byte, error) { return []byte("false"), nil }

type docList struct{ a int } // these are lists and objects on the wire, whatever their kind

func (docList) MarshalJSON() ([]byte, error) { return []byte("[1]"), nil }

type docListStr string

func (docListStr) MarshalNode(ctx.C) (enc.Node, error) { return enc.List{enc.String("a")}, nil }

type docObjSlice []int

func (docObjSlice) MarshalNode(ctx.C) (enc.Node, error) { return enc.Map{"a": enc.Integer(1)}, nil }

type docObjInt int

func (docObjInt) MarshalNode(ctx.C) (enc.Node, error) { return enc.Pairs{}, nil }

type docIntSlice []int

func (docIntSlice) MarshalNode(ctx.C) (enc.Node, error) { return enc.List{enc.Integer(1)}, nil }

type docNil struct{ N int }

func (docNil) MarshalNode(ctx.C) (enc.Node, error) { return enc.Nil{}, nil }

type docPtrStr struct{ N int }

func (*docPtrStr) MarshalNode(ctx.C) (enc.Node, error) { return enc.String("p"), nil }

type docPtrNum struct{ N int }

func (*docPtrNum) MarshalJSON() ([]byte, error) { return []byte("7"), nil }

type docPtrBool []string

func (*docPtrBool) MarshalJSON() ([]byte, error) { return []byte("true"), nil }

type docObj struct{ N int }

func (docObj) MarshalJSON() ([]byte, error) { return []byte(`{"N":5}`), nil }

type docRecList []docRecList
type docRecMap map[string]*docRecMap
type docRecMix map[string][]docRecMix
type docRecAnon []struct {
	Name string     `json:"name" doc:"d"`
	Kids docRecAnon `json:"kids"`
}
type docRecSA []docRecS
type docRecS struct {
	A docRecSA            `json:"a"`
	B map[string]docRecSA `json:"b"`
	C []docRecS           `json:"c"`
	D docRecList          `json:"d"`
	E []docRecSA
}

type docCustoms struct {
	L    docList
	LS   docListStr
	OS   docObjSlice
	OI   docObjInt
	IS   docIntSlice
	Nul  docNil
	PS   *docPtrStr
	PN   *docPtrNum
	PB   *docPtrBool
	LPN  []*docPtrNum
	MPS  map[string]*docPtrStr
	O    docObj
	I    enc.Integer
	F    enc.Float
	Dig  enc.Digits
	ES   enc.String
	EB   enc.Bool
	EL   enc.List
	EM   enc.Map
	EP   enc.Pairs
	Neg  docNeg
	Num  docNum
	Str  docStr
	B    docBool
	PNeg *docNeg
	LNeg []docNeg
	Raw  json.RawMessage
	Node enc.Node
	Any  any
}
type docBad struct {
	OK  int
	Bad struct {
		C chan int `json:"c"`
	} `json:"bad"`
}
type docBad2 struct {
	List []func() `json:"list"`
}
type docBytes struct {
	B []byte `json:"b"`
}

// schemaOf follows a reference.
func schemaOf(o *openapi.Service, s *openapi.Schema) (*openapi.Schema, string) {
	if len(s.AllOf) == 1 && s.AllOf[0].Reference != "" {
		s = s.AllOf[0]
	}
	if s.Reference != "" {
		key, ok := strings.CutPrefix(s.Reference, "#/components/schemas/")
		if !ok {
			return nil, fmt.Sprintf("reference %q does not point into the components", s.Reference)
		}
		d := o.Components.Schemas[key]
		if d == nil {
			return nil, fmt.Sprintf("reference %q resolves to nothing (components: %q)", s.Reference, sortedKeys(o.Components.Schemas))
		}
		return d, ""
	}
	return s, ""
}

// conforms checks a document written for a value of type t against the schema; null is always allowed,
// and so is anything where the Go type is an interface or raw JSON.
func conforms(o *openapi.Service, s *openapi.Schema, t reflect.Type, doc any, at string) string {
	for t.Kind() == reflect.Pointer {
		t = t.Elem()
	}
	if s == nil {
		return "no schema at " + at
	}
	s, bad := schemaOf(o, s)
	if bad != "" {
		return bad + " at " + at
	}
	if doc == nil || t.Kind() == reflect.Interface || t == reflect.TypeOf(json.RawMessage{}) {
		return ""
	}
	if s.Type == "" && inItself(t) && strings.Count(at, "[")+strings.Count(at, ".") > 1 {
		return "" // deeper than one level of a list that contains itself
	}
	kind := func(k string) string {
		if s.Type != k {
			return fmt.Sprintf("at %s: the wire has a %s, the schema says %q", at, k, s.Type)
		}
		return ""
	}
	switch d := doc.(type) {
	case bool:
		return kind("boolean")
	case json.Number:
		return kind("number")
	case string:
		return kind("string")
	case []any:
		if s.Type != "array" && (t.Kind() == reflect.Slice || t.Kind() == reflect.Array) && t.Elem().Kind() == reflect.Uint8 {
			return "bytes"
		}
		if e := kind("array"); e != "" {
			return e
		}
		if s.Items == nil {
			return "at " + at + ": array without items"
		}
		if t.Kind() != reflect.Slice && t.Kind() != reflect.Array {
			return "" // written by the type itself
		}
		for i, x := range d {
			if e := conforms(o, s.Items, t.Elem(), x, fmt.Sprintf("%s[%d]", at, i)); e != "" {
				return e
			}
		}
	case map[string]any:
		if e := kind("object"); e != "" {
			return e
		}
		if t.Kind() != reflect.Map && t.Kind() != reflect.Struct {
			return "" // written by the type itself
		}
		for _, k := range sortedKeys(d) {
			if t.Kind() == reflect.Map {
				if s.AdditionalProps == nil {
					if inItself(t) && strings.Count(at, "[")+strings.Count(at, ".") > 0 {
						return ""
					}
					return "at " + at + ": map without additionalProperties"
				}
				if e := conforms(o, s.AdditionalProps, t.Elem(), d[k], at+"."+k); e != "" {
					return e
				}
				continue
			}
			p := s.Properties[k]
			if p == nil {
				return fmt.Sprintf("at %s: key %q is on the wire but not among the properties %q", at, k, sortedKeys(s.Properties))
			}
			ft, ok := fieldByWire(t, k)
			if !ok {
				return fmt.Sprintf("at %s: no field %q", at, k)
			}
			if e := conforms(o, p, ft.Type, d[k], at+"."+k); e != "" {
				return e
			}
		}
	}
	return ""
}

func wireName(f reflect.StructField) string {
	if !f.IsExported() || f.Tag.Get("json") == "-" {
		return ""
	}
	n, _, _ := strings.Cut(f.Tag.Get("json"), ",")
	if n == "" {
		n = f.Name
	}
	return n
}

func fieldByWire(t reflect.Type, k string) (reflect.StructField, bool) {
	for i := 0; i < t.NumField(); i++ {
		if f := t.Field(i); wireName(f) == k {
			return f, true
		}
	}
	return reflect.StructField{}, false
}

// inItself: values of t contain others of t, and no named struct is in between that could be referred to.
func inItself(t reflect.Type) bool {
	seen := map[reflect.Type]bool{}
	var reach func(x reflect.Type) bool
	next := func(x reflect.Type) (out []reflect.Type) {
		switch x.Kind() {
		case reflect.Pointer, reflect.Slice, reflect.Array, reflect.Map:
			out = append(out, x.Elem())
		case reflect.Struct:
			for i := 0; x.Name() == "" && i < x.NumField(); i++ {
				out = append(out, x.Field(i).Type)
			}
		}
		return
	}
	reach = func(x reflect.Type) bool {
		for _, y := range next(x) {
			if y == t {
				return true
			}
			if !seen[y] {
				seen[y] = true
				if reach(y) {
					return true
				}
			}
		}
		return false
	}
	return reach(t)
}

// properties: every struct described by the schema lists exactly the fields the wire has.
func properties(o *openapi.Service, s *openapi.Schema, t reflect.Type, at string, seen map[reflect.Type]bool) string {
	for t.Kind() == reflect.Pointer {
		t = t.Elem()
	}
	s, bad := schemaOf(o, s)
	if bad != "" {
		return bad + " at " + at
	}
	if s.Type == "" && t.Kind() != reflect.Interface && !inItself(t) {
		return fmt.Sprintf("at %s: %v is not described", at, t)
	}
	switch t.Kind() {
	case reflect.Slice, reflect.Array:
		if s.Items != nil {
			return properties(o, s.Items, t.Elem(), at+"[]", seen)
		}
	case reflect.Map:
		if s.AdditionalProps != nil {
			return properties(o, s.AdditionalProps, t.Elem(), at+"{}", seen)
		}
	case reflect.Struct:
		if s.Properties == nil || seen[t] {
			return ""
		}
		if t.Name() != "" {
			seen[t] = true
		}
		want := map[string]reflect.StructField{}
		for i := 0; i < t.NumField(); i++ {
			if n := wireName(t.Field(i)); n != "" {
				want[n] = t.Field(i)
			}
		}
		if a, b := sortedKeys(want), sortedKeys(s.Properties); len(a)+len(b) > 0 && !deepEq(a, b) {
			return fmt.Sprintf("at %s: %v has %q on the wire, the schema lists %q", at, t, a, b)
		}
		for k, f := range want {
			p := s.Properties[k]
			if p.Description != f.Tag.Get("doc") {
				return fmt.Sprintf("at %s.%s: documented as %q, tag says %q", at, k, p.Description, f.Tag.Get("doc"))
			}
			if e := properties(o, p, f.Type, at+"."+k, seen); e != "" {
				return e
			}
		}
	}
	return ""
}

func sameName1() reflect.Type {
	type docLocal struct {
		A int `json:"a"`
	}
	return reflect.TypeOf(docLocal{})
}

func sameName2() reflect.Type {
	type docLocal struct {
		B  string      `json:"b"`
		Up []*docLocal `json:"up"`
	}
	return reflect.TypeOf(docLocal{})
}

func sameName3() reflect.Type {
	type docLocal struct {
		B string `json:"b"`
		C bool   `json:"c"`
	}
	return reflect.TypeOf(map[string]docLocal{})
}

func sameNames() []reflect.Type {
	return []reflect.Type{sameName1(), sameName2(), sameName3(), reflect.PointerTo(sameName1()), reflect.SliceOf(sameName2()), sameName1()}
}

func c15(r *R) {
	c := quietCtx()
	fixed := []any{docTree{}, docA{}, docB{}, docEmbed{}, docPage[docTree]{}, docPage[int]{}, docCustoms{}, []docTree{}, map[string]*docA{}, map[NamedStr][]docB{}, struct {
		A docTree
		B []docTree
		C struct{ D docB }
	}{}, api.Request{}, docBytes{}, docRecList{}, docRecMap{}, docRecMix{}, docRecAnon{}, docRecS{}, []docRecS{}, docRecSA{}, [2]docRecSA{}, map[string]docRecMix{}}
	shared := openapi.NewService("shared")
	one := func(o *openapi.Service, t reflect.Type, g *rand.Rand) {
		r.Eval(t.String())
		r.Within("schema", fmt.Sprintf("schema of %v", t), func() {
			s, err := o.SchemaFromType(c, t, nil)
			if err != nil {
				r.Fail("schema:error", "%v: %v", t, err)
				return
			}
			if e := properties(o, s, t, "$", map[reflect.Type]bool{}); e != "" {
				r.Fail("schema:properties", "%v: %s", t, e)
			}
			for k := 0; k < 3; k++ {
				v := reflect.New(t).Elem()
				if t.PkgPath() == "" || k > 0 {
					fillDoc(g, v, 3)
				}
				j, err := enc.MarshalJSON(c, v.Interface())
				if err != nil {
					r.Fail("schema:marshal", "%v: %v", t, err)
					return
				}
				doc, err := decodeStd(j)
				if err != nil {
					r.Fail("schema:marshal", "%v: %s: %v", t, j, err)
					return
				}
				switch e := conforms(o, s, t, doc, "$"); e {
				case "":
				case "bytes":
					r.Fail("schema:bytes-are-a-list-on-the-wire", "%v: []byte is documented as a base64 string but written and read as a list of numbers: %s", t, j)
				default:
					r.Fail("schema:conformity", "%v: document %s does not match its schema: %s", t, j, e)
				}
				r.Count("documents_validated", 1)
			}
			// the schema itself can be published
			j, err := enc.MarshalJSON(c, o)
			if err != nil || !json.Valid(j) {
				r.Fail("schema:document", "%v: the service document: %v", t, err)
			}
		})
	}
	for i, x := range fixed {
		t := reflect.TypeOf(x)
		one(openapi.NewService("s"), t, r.Sub("fixed", i))
		one(openapi.NewService("s"), reflect.PointerTo(t), r.Sub("fixed", i))
		one(shared, t, r.Sub("fixedshared", i))
	}
	for i := 0; i < r.N(1200, 30000); i++ {
		g := r.Sub("type", i)
		t := genType(g, 4, typeOpts{noOmit: true, any: true, namedKinds: true, skipped: true, noBytes: true})
		if hasNamedBytes(t) {
			continue
		}
		if i < 3 {
			r.Sample("%v", t)
		}
		one(openapi.NewService("s"), t, g)
	}
	// the example of a field is the value its tag gives, in the type of the field
	for i := 0; i < r.N(300, 20000); i++ {
		g := r.Sub("example", i)
		t := genType(g, 2, typeOpts{noOmit: true, any: true, noBytes: true})
		switch {
		case t.Kind() == reflect.Pointer, hasNamedBytes(t):
			continue
		case g.Intn(6) == 0:
			t = reflect.TypeOf(docTree{})
		}
		v := reflect.New(t).Elem()
		fillDoc(g, v, 2)
		if t.Kind() == reflect.String {
			v.SetString("e" + genString(g) + "e")
		} else if t.Kind() != reflect.Struct {
			v = genValue(g, t, 2)
		}
		j, err := enc.MarshalJSON(c, v.Interface())
		if err != nil || string(j) == "null" {
			continue
		}
		text := string(j)
		if t.Kind() == reflect.String {
			text = v.String()
		}
		ft := t
		for k := g.Intn(3); k > 0; k-- {
			ft = reflect.PointerTo(ft)
		}
		if g.Intn(2) == 0 && t.Kind() != reflect.String {
			text = " " + text + "\n"
		}
		tag := fmt.Sprintf(`json:"f" doc:%s example:%s`, strconv.Quote(genString(g)), strconv.Quote(text))
		st := reflect.StructOf([]reflect.StructField{{Name: "F", Type: ft, Tag: reflect.StructTag(tag)}, {Name: "G", Type: ft}})
		r.Eval("example" + tag + ft.String())
		r.Within("schema", fmt.Sprintf("schema of %v", st), func() {
			o := openapi.NewService("s")
			s, err := o.SchemaFromType(c, st, nil)
			if err != nil {
				r.Fail("schema:error", "%v: %v", st, err)
				return
			}
			f := st.Field(0)
			direct, err := o.SchemaFromType(c, f.Type, &f.Tag)
			if err != nil {
				r.Fail("schema:error", "%v: %v", ft, err)
				return
			}
			if s.Properties["G"].Example != nil || s.Properties["G"].Description != "" {
				r.Fail("schema:example", "%v: field without tags has example %v, documentation %q", st, s.Properties["G"].Example, s.Properties["G"].Description)
			}
			for _, s := range []*openapi.Schema{s.Properties["f"], direct} {
				ej, err := enc.MarshalJSON(c, s.Example)
				if err != nil {
					r.Fail("schema:example", "%v: example %v: %v", ft, s.Example, err)
					return
				}
				got, err := decodeStd(ej)
				want, err2 := decodeStd(j)
				if err != nil || err2 != nil || !reflect.DeepEqual(got, want) {
					r.Fail("schema:example", "%v with tag %s: the example given is %s", ft, tag, ej)
				}
				if s.Description != f.Tag.Get("doc") {
					r.Fail("schema:example", "%v with tag %s: documented as %q", ft, tag, s.Description)
				}
			}
			r.Count("examples", 1)
		})
	}
	// types of the same name are described apart
	for i := 0; i < r.N(20, 100); i++ {
		g := r.Sub("same-name", i)
		o := openapi.NewService("s")
		ts := sameNames()
		g.Shuffle(len(ts), func(a, b int) { ts[a], ts[b] = ts[b], ts[a] })
		ss := make([]*openapi.Schema, len(ts))
		r.Within("schema", "types of the same name", func() {
			for k, t := range ts {
				s, err := o.SchemaFromType(c, t, nil)
				if err != nil {
					r.Fail("schema:error", "%v: %v", t, err)
					return
				}
				ss[k] = s
			}
			for k, t := range ts {
				if e := properties(o, ss[k], t, "$", map[reflect.Type]bool{}); e != "" {
					r.Fail("schema:same-name", "%v, described after others of its name: %s", t, e)
				}
			}
			r.Eval(fmt.Sprint("same", i))
		})
	}
	// unsupported types are errors, however often asked and wherever they hide
	bads := []any{make(chan int), func() {}, complex(1, 1), docBad{}, docBad2{}, []chan int{}, map[string]func(){}, struct{ X []complex64 }{}, &docBad{}, map[string]docBad2{}}
	for _, x := range bads {
		o := openapi.NewService("s")
		for k := 0; k < 3; k++ {
			t := reflect.TypeOf(x)
			r.Eval("bad" + t.String())
			r.Guard("schema:unsupported-panic", func() string { return fmt.Sprintf("schema of %v", t) }, func() {
				_, err := o.SchemaFromType(c, t, nil)
				if err == nil {
					r.Fail("schema:unsupported-accepted", "%v (call %d): no error, components %q", t, k+1, sortedKeys(o.Components.Schemas))
				}
			})
		}
	}
	// nor are they documented as part of an operation
	for i := 0; i < r.N(200, 3000); i++ {
		g := r.Sub("badop", i)
		t, _ := genOpType(g, typeOpts{noOmit: true, any: true, namedKinds: true, noBytes: true})
		dir := []string{"in", "out", "both", ""}[g.Intn(4)]
		var fs []reflect.StructField
		for k := 0; k < t.NumField(); k++ {
			fs = append(fs, t.Field(k))
		}
		at := g.Intn(len(fs) + 1)
		f := reflect.StructField{Name: "Undoc", Type: reflect.TypeOf(bads[g.Intn(len(bads))]), Tag: reflect.StructTag(fmt.Sprintf("api:%q", dir))}
		fs = append(fs[:at:at], append([]reflect.StructField{f}, fs[at:]...)...)
		t = reflect.StructOf(fs)
		r.Eval("badop" + t.String())
		r.Guard("schema:operation-panic", func() string { return fmt.Sprintf("operation %v", t) }, func() {
			h, err := api.NewHandler[any](c, reflect.New(t).Interface())
			if err != nil {
				r.Fail("api:handler", "%v: %v", t, err)
				return
			}
			o := openapi.NewService("s")
			_, err = h.UpdateOpenAPI(c, o)
			if (err == nil) != (dir == "") {
				r.Fail("schema:operation-undocumentable", "%v (field %q is %v): documented with error %v, at %q", t, dir, f.Type, err, sortedKeys(o.Paths))
			}
			if err != nil && len(o.Paths) > 0 {
				r.Fail("schema:operation-undocumentable", "%v: refused (%v) but documented at %q", t, err, sortedKeys(o.Paths))
			}
		})
	}
	// operations
	for i := 0; i < r.N(700, 20000); i++ {
		g := r.Sub("op", i)
		t, specs := genOpType(g, typeOpts{noOmit: true, any: true, namedKinds: true, noBytes: true})
		var wantPaths []string
		for _, f := range specs {
			if f.url {
				wantPaths = append(wantPaths, t.Field(f.i).Tag.Get("url"))
			}
		}
		sort.Strings(wantPaths)
		r.Eval("op" + t.String())
		r.Guard("schema:operation-panic", func() string { return fmt.Sprintf("operation %v", t) }, func() {
			h, err := api.NewHandler[any](c, reflect.New(t).Interface())
			if err != nil {
				r.Fail("api:handler", "%v: %v", t, err)
				return
			}
			o := openapi.NewService("s")
			pi, err := h.UpdateOpenAPI(c, o)
			if err != nil {
				r.Fail("schema:operation", "%v: %v", t, err)
				return
			}
			if a := sortedKeys(o.Paths); len(a)+len(wantPaths) > 0 && !deepEq(a, wantPaths) {
				r.Fail("schema:paths", "%v: documented at %q, is at %q", t, a, wantPaths)
			}
			for at, p := range o.Paths {
				if p == nil || p.Post != pi {
					r.Fail("schema:paths", "%v: another operation documented at %q", t, at)
				}
			}
			in := pi.RequestBody.Content["application/json"].Schema
			out := pi.Responses["200"].Content["application/json"].Schema
			var wantIn, wantOut, wantReq []string
			var auth *apiField
			for k, f := range specs {
				if f.in {
					wantIn = append(wantIn, f.name)
					if f.required {
						wantReq = append(wantReq, f.name)
					}
				}
				if f.out {
					wantOut = append(wantOut, f.name)
				}
				if f.auth {
					auth = &specs[k]
				}
				ft := t.Field(f.i).Type
				for _, side := range []struct {
					on bool
					s  *openapi.Schema
				}{{f.in, in}, {f.out, out}} {
					if p := side.s.Properties[f.name]; side.on && p != nil {
						if e := properties(o, p, ft, f.name, map[reflect.Type]bool{}); e != "" {
							r.Fail("schema:operation-properties", "%v: %s", t, e)
						}
						j, _ := enc.MarshalJSON(c, genValue(g, ft, 2).Interface())
						doc, _ := decodeStd(j)
						if e := conforms(o, p, ft, doc, f.name); e != "" && e != "bytes" {
							r.Fail("schema:operation-conformity", "%v: %s: %s", t, j, e)
						}
					}
				}
			}
			sort.Strings(wantIn)
			sort.Strings(wantOut)
			req := append([]string(nil), in.Required...)
			sort.Strings(req)
			sort.Strings(wantReq)
			if a := sortedKeys(in.Properties); len(a)+len(wantIn) > 0 && !deepEq(a, wantIn) {
				r.Fail("schema:request-fields", "%v: request documented with %q, is %q", t, a, wantIn)
			}
			if a := sortedKeys(out.Properties); len(a)+len(wantOut) > 0 && !deepEq(a, wantOut) {
				r.Fail("schema:response-fields", "%v: response documented with %q, is %q", t, a, wantOut)
			}
			if len(req)+len(wantReq) > 0 && !deepEq(req, wantReq) {
				r.Fail("schema:required", "%v: required documented as %q, is %q", t, req, wantReq)
			}
			jwt, open := false, len(pi.Security) == 0
			for _, s := range pi.Security {
				if len(s) == 0 {
					open = true
				}
				if _, ok := s["jwt"]; ok {
					jwt = true
				}
			}
			if jwt != (auth != nil) || open != (auth == nil || !auth.required) {
				r.Fail("schema:security", "%v: security %v for auth %v", t, pi.Security, auth)
			}
			r.Count("operations_documented", 1)
		})
	}
}

// fillDoc fills plain parts of a value; recursive types end at the depth.
func fillDoc(g *rand.Rand, v reflect.Value, depth int) {
	switch v.Kind() {
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).IsExported() && v.Field(i).CanSet() {
				fillDoc(g, v.Field(i), depth)
			}
		}
	case reflect.Pointer:
		if depth > 0 && g.Intn(2) == 0 {
			v.Set(reflect.New(v.Type().Elem()))
			fillDoc(g, v.Elem(), depth-1)
		}
	case reflect.Slice:
		if v.Type() == reflect.TypeOf(json.RawMessage{}) {
			v.SetBytes([]byte(`{"raw":1}`))
			return
		}
		if depth > 0 {
			n := 1 + g.Intn(2)
			v.Set(reflect.MakeSlice(v.Type(), n, n))
			for i := 0; i < n; i++ {
				fillDoc(g, v.Index(i), depth-1)
			}
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			fillDoc(g, v.Index(i), depth-1)
		}
	case reflect.Map:
		if depth > 0 {
			v.Set(reflect.MakeMap(v.Type()))
			k, e := reflect.New(v.Type().Key()).Elem(), reflect.New(v.Type().Elem()).Elem()
			fillDoc(g, k, 0)
			fillDoc(g, e, depth-1)
			v.SetMapIndex(k, e)
		}
	case reflect.Interface:
	case reflect.Func:
	default:
		if v.Type() == reflect.TypeOf(enc.Digits("")) {
			v.SetString(genNumberText(g))
			return
		}
		fillValue(g, v, 1)
	}
}
