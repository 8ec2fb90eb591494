package main

import (
	"errors"
	"fmt"
	"math/rand"
	"os"
	"reflect"
	"strings"
	"sync"
	"sync/atomic"
	"testing"

	"github.com/Aize-Public/forego/api"
	"github.com/Aize-Public/forego/ctx"
	"github.com/Aize-Public/forego/enc"
	"github.com/Aize-Public/forego/http"
)

func init() {
	reg("C55", "operations with fields of every direction, template state and identity run through http.TestAPI and api.Test: random requests and answers, refusals, failing Do, missing or unmarshallable identity, cancelled contexts, the same object used again, many at once; what Do was given and what the caller's object holds afterwards are compared with a model; non-trivial: distinct request and outcome", c55)
}

// ---------------------------------------------------------------- C55

type c55User struct {
	Name   string   `json:"name"`
	Groups []string `json:"groups"`
}

type c55Item struct {
	ID   int64          `json:"id"`
	Note string         `json:"note,omitempty"`
	More map[string]any `json:"more"`
}

// what one call does and saw
type c55Call struct {
	mu    sync.Mutex
	calls int
	self  any // the object Do ran on
	seen  c55Seen
	ret   error
	out   c55Out
}

type c55Seen struct {
	C      ctx.C
	In     int64
	Name   string
	Items  []c55Item
	Both   map[string]int
	Out    []c55Item
	Total  float64
	UID    c55User
	State  *atomic.Int64
	Limit  int
	Secret string
}

type c55Out struct {
	Both  map[string]int
	Out   []c55Item
	Total float64
	In    int64 // what Do leaves in the request fields must not travel back
}

func (k *c55Call) do(c ctx.C, self any, s c55Seen) c55Out {
	k.mu.Lock()
	defer k.mu.Unlock()
	k.calls++
	k.self = self
	k.seen = s
	s.State.Add(1)
	return k.out
}

// three operations alike, but for the identity
type c55Required struct {
	Call   *c55Call
	State  *atomic.Int64
	Limit  int
	secret string

	R     api.Request    `url:"/c55/required"`
	In    int64          `api:"in" json:"in"`
	Name  string         `api:"in,required" json:"name"`
	Items []c55Item      `api:"in" json:"items"`
	Both  map[string]int `api:"both" json:"both"`
	Out   []c55Item      `api:"out" json:"out"`
	Total float64        `api:"out" enc:"sum" json:"total"`
	UID   c55User        `api:"auth,required"`
}

func (this *c55Required) Do(c ctx.C) error {
	o := this.Call.do(c, this, c55Seen{c, this.In, this.Name, this.Items, this.Both, this.Out, this.Total, this.UID, this.State, this.Limit, this.secret})
	this.Both, this.Out, this.Total, this.In = o.Both, o.Out, o.Total, o.In
	this.UID.Name, this.Limit, this.Name = "scribble", -1, "scribble"
	return this.Call.ret
}

type c55Optional struct {
	Call   *c55Call
	State  *atomic.Int64
	Limit  int
	secret string

	R     api.Request    `url:"/c55/optional"`
	In    int64          `api:"in" json:"in"`
	Name  string         `api:"in,required" json:"name"`
	Items []c55Item      `api:"in" json:"items"`
	Both  map[string]int `api:"both" json:"both"`
	Out   []c55Item      `api:"out" json:"out"`
	Total float64        `api:"out" enc:"sum" json:"total"`
	UID   c55User        `api:"auth"`
}

func (this *c55Optional) Do(c ctx.C) error { return (*c55Required)(this).Do2(this, c) }

// Do2 is Do of an operation that converts to this one
func (this *c55Required) Do2(self any, c ctx.C) error {
	err := this.Do(c)
	this.Call.mu.Lock()
	this.Call.self = self
	this.Call.mu.Unlock()
	return err
}

type c55Err struct{ code int }

func (e *c55Err) Error() string { return fmt.Sprintf("code %d", e.code) }

// c55Nobody can't be told to anybody.
type c55Nobody struct{}

func (c55Nobody) MarshalNode(c ctx.C) (enc.Node, error) { return nil, errors.New("no name") }

func genC55Items(g *rand.Rand) []c55Item {
	if g.Intn(4) == 0 {
		return nil
	}
	out := []c55Item{}
	for k := g.Intn(4); k > 0; k-- {
		it := c55Item{ID: genIntBits(g, 64), Note: genString(g)}
		if g.Intn(2) == 0 {
			it.More = map[string]any{}
			for j := g.Intn(3); j > 0; j-- {
				it.More[genString(g)] = []any{genString(g), g.Intn(2) == 0, nil, float64(g.Intn(1000)) / 4}[g.Intn(4)]
			}
		}
		out = append(out, it)
	}
	return out
}

func genC55Both(g *rand.Rand) map[string]int {
	if g.Intn(4) == 0 {
		return nil
	}
	out := map[string]int{}
	for j := g.Intn(4); j > 0; j-- {
		out[genString(g)] = int(genIntBits(g, 64))
	}
	return out
}

func c55(r *R) {
	c := quietCtx()
	n := r.N(150, 6000)
	r.Par("local", "operations run locally", 8, func(w int) {
		for i := 0; i < n; i++ {
			c55One(r, c, r.Sub("one", w*1000000+i), nil)
		}
	})
	// api.Test wants a test
	out := os.Stdout
	null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	if err != nil {
		panic(err)
	}
	os.Stdout = null
	os.Args = os.Args[:1]
	testing.Main(func(string, string) (bool, error) { return true, nil }, []testing.InternalTest{{Name: "root", F: func(t *testing.T) {
		r.Par("local:test", "operations run by api.Test", 4, func(w int) {
			for i := 0; i < n/2; i++ {
				c55One(r, c, r.Sub("test", w*1000000+i), t)
			}
		})
		os.Stdout = out
		r.finish()
		os.Exit(0)
	}}}, nil, nil)
}

// one object, called once or twice, by TestAPI or (with a t) by api.Test
func c55One(r *R, c ctx.C, g *rand.Rand, t *testing.T) {
	state := &atomic.Int64{}
	op := &c55Required{State: state, Limit: g.Intn(100), secret: "s"}
	required := t == nil && g.Intn(2) == 0
	var before c55Required
	for round, rounds := 0, 1+g.Intn(2); round < rounds; round++ {
		call := &c55Call{out: c55Out{genC55Both(g), genC55Items(g), genFloat(g, 64), genIntBits(g, 64)}}
		if call.out.Total != call.out.Total || call.out.Total-call.out.Total != 0 {
			call.out.Total = 0.1
		}
		op.Call = call
		op.In, op.Name, op.Items, op.Both = genIntBits(g, 64), genString(g), genC55Items(g), genC55Both(g)
		if g.Intn(8) == 0 {
			op.Name = "" // refused
		}
		if round == 0 && g.Intn(2) == 0 { // never sent
			op.Out, op.Total, op.UID = genC55Items(g), 7, c55User{"intruder", []string{"root"}}
		}
		cause := &c55Err{400 + g.Intn(200)}
		switch g.Intn(6) {
		case 0:
			call.ret = cause
		case 1:
			call.ret = ctx.NewErrorf(c, "wrapped: %w", http.NewErrorf(c, cause.code, "with: %w", error(cause)))
		}
		var uid any
		var want c55User
		badUID := t == nil && g.Intn(10) == 0
		cc := c
		if g.Intn(4) == 0 { // all that happens is here: there is nothing to give up
			var cf ctx.CancelFunc
			cc, cf = ctx.WithCancel(c)
			cf(errors.New("cancelled"))
		}
		switch g.Intn(4) {
		case 0: // nobody
		case 1:
			uid = nilUser()
		default:
			want = c55User{genString(g), []string{genString(g), "b"}[:1+g.Intn(2)]}
			uid = want
		}
		if t != nil {
			want = c55User{}
		}
		if badUID {
			uid = c55Nobody{}
		}
		anonymous := want.Name == "" && want.Groups == nil
		before = c55Required{In: op.In, Name: op.Name, Items: copyItems(op.Items), Both: copyInts(op.Both), Out: copyItems(op.Out), Total: op.Total, UID: op.UID, Limit: op.Limit, secret: op.secret}
		what := fmt.Sprintf("required=%v test=%v round %d In=%d Name=%q Both=%v uid=%v ret=%v cancelled=%v", required, t != nil, round, op.In, op.Name, op.Both, uid, call.ret, cc.Err() != nil)
		refused := badUID || op.Name == "" || required && anonymous
		started := state.Load()
		var err error
		ok := r.Guard("local:panic", func() string { return what }, func() {
			if t != nil {
				opt := (*c55Optional)(op)
				passed := false
				t.Run("x", func(t *testing.T) {
					defer func() { passed = !t.Failed() }()
					if got := api.Test(t, opt); got != opt {
						r.Fail("local:returned", "%s: api.Test returned another object", what)
					}
				})
				if !passed {
					err = errors.New("the test failed")
				}
			} else if required {
				err = http.TestAPI(cc, uid, op)
			} else {
				err = http.TestAPI(cc, uid, (*c55Optional)(op))
			}
		})
		if !ok {
			return
		}
		r.Eval(what)
		call.mu.Lock()
		calls, seen, self := call.calls, call.seen, call.self
		call.mu.Unlock()
		runs := int(state.Load() - started)
		unchanged := func() bool {
			return op.In == before.In && op.Name == before.Name && reflect.DeepEqual(op.Items, before.Items) && op.Limit == before.Limit && op.secret == before.secret && reflect.DeepEqual(op.UID, before.UID) && op.Call == call && op.State == state
		}
		if !unchanged() {
			r.Fail("local:request-changed", "%s: the call changed fields that do not travel back: %+v was %+v", what, *op, before)
		}
		if refused {
			r.Count("refused", 1)
			if err == nil || calls != 0 || runs != 0 {
				r.Fail("local:not-refused", "%s: to be refused; error %v, Do ran %d times", what, err, calls)
			}
			if t == nil && op.Name == "" && !badUID && err != nil && !strings.Contains(err.Error(), "name") {
				r.Fail("local:unnamed", "%s: refused for something else: %v", what, err)
			}
		} else {
			if calls != 1 || runs != 1 {
				r.Fail("local:runs", "%s: Do ran %d times (state %d), error %v", what, calls, runs, err)
				return
			}
			if self == any(op) || self == any((*c55Optional)(op)) {
				r.Fail("local:same-object", "%s: Do ran on the caller's own object", what)
			}
			if seen.In != before.In || seen.Name != before.Name || !reflect.DeepEqual(seen.Items, before.Items) || !reflect.DeepEqual(seen.Both, before.Both) {
				r.Fail("local:request", "%s: Do saw In=%d Name=%q Items=%v Both=%v, the caller set %+v", what, seen.In, seen.Name, seen.Items, seen.Both, before)
			}
			if seen.Out != nil || seen.Total != 0 {
				r.Fail("local:out-sent", "%s: response fields reached Do: %v %v", what, seen.Out, seen.Total)
			}
			if !reflect.DeepEqual(seen.UID, want) {
				r.Fail("local:identity", "%s: Do saw the identity %+v, expected %+v", what, seen.UID, want)
			}
			if seen.Limit != before.Limit || seen.Secret != before.secret {
				r.Fail("local:state", "%s: the state of the template did not reach Do: %d %q", what, seen.Limit, seen.Secret)
			}
			if (err != nil) != (call.ret != nil) {
				r.Fail("local:outcome", "%s: Do returned %v, the call %v", what, call.ret, err)
			}
			if call.ret != nil && err != nil && t == nil {
				var e *c55Err
				if !errors.Is(err, call.ret) || !errors.As(err, &e) || e != cause || !strings.Contains(err.Error(), call.ret.Error()) {
					r.Fail("local:cause", "%s: Do returned %v, the call an error not wrapping it: %v", what, call.ret, err)
				}
			}
		}
		if err == nil {
			r.Count("answered", 1)
			if !reflect.DeepEqual(op.Both, call.out.Both) || !reflect.DeepEqual(op.Out, call.out.Out) || op.Total != call.out.Total {
				r.Fail("local:response", "%s: the caller has Both=%v Out=%v Total=%v, Do set %+v", what, op.Both, op.Out, op.Total, call.out)
			}
			// what Do keeps is not what the caller holds
			if len(call.out.Both) > 0 {
				call.out.Both["scribble"] = 1
				if _, ok := op.Both["scribble"]; ok {
					r.Fail("local:aliased", "%s: caller and operation share a map", what)
				}
			}
			if len(call.out.Out) > 0 {
				call.out.Out[0].Note = "scribble"
				if op.Out[0].Note == "scribble" {
					r.Fail("local:aliased", "%s: caller and operation share a list", what)
				}
			}
			if len(seen.Items) > 0 {
				seen.Items[0].Note = "scribble"
				if op.Items[0].Note == "scribble" {
					r.Fail("local:aliased", "%s: caller and operation share a list", what)
				}
			}
		} else {
			r.Count("failed", 1)
			if !reflect.DeepEqual(op.Both, before.Both) || !reflect.DeepEqual(op.Out, before.Out) || op.Total != before.Total {
				r.Fail("local:changed-on-error", "%s: failed with %v and yet changed the response fields: %v %v %v", what, err, op.Both, op.Out, op.Total)
			}
		}
	}
}

func nilUser() *c55User { return nil }

func copyItems(in []c55Item) []c55Item {
	if in == nil {
		return nil
	}
	out := []c55Item{}
	for _, it := range in {
		if it.More != nil {
			m := map[string]any{}
			for k, v := range it.More {
				m[k] = v
			}
			it.More = m
		}
		out = append(out, it)
	}
	return out
}

func copyInts(in map[string]int) map[string]int {
	if in == nil {
		return nil
	}
	out := map[string]int{}
	for k, v := range in {
		out[k] = v
	}
	return out
}
