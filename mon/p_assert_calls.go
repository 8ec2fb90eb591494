package main

import (
	"testing"

	"github.com/Aize-Public/forego/ctx"
	"github.com/Aize-Public/forego/test"
)

// The assertions, called in every way a test may call them.

type assertShape struct {
	nilF, notNil, empty, notEmpty func(t *testing.T, x any)
	noError, isError              func(t *testing.T, err error)
	assert                        func(t *testing.T, b bool)
}

var assertShapes = map[string]assertShape{
	"called directly": {
		func(t *testing.T, x any) { test.Nil(t, x) },
		func(t *testing.T, x any) { test.NotNil(t, x) },
		func(t *testing.T, x any) { test.Empty(t, x) },
		func(t *testing.T, x any) { test.NotEmpty(t, x) },
		func(t *testing.T, err error) { test.NoError(t, err) },
		func(t *testing.T, err error) { test.Error(t, err) },
		func(t *testing.T, b bool) { test.Assert(t, b) },
	},
	"as a function value": {
		test.Nil, test.NotNil, test.Empty, test.NotEmpty, test.NoError, test.Error, test.Assert,
	},
	"deferred": {
		func(t *testing.T, x any) { defer test.Nil(t, x) },
		func(t *testing.T, x any) { defer test.NotNil(t, x) },
		func(t *testing.T, x any) { defer test.Empty(t, x) },
		func(t *testing.T, x any) { defer test.NotEmpty(t, x) },
		func(t *testing.T, err error) { defer test.NoError(t, err) },
		func(t *testing.T, err error) { defer test.Error(t, err) },
		func(t *testing.T, b bool) { defer test.Assert(t, b) },
	},
	"on many lines": {
		func(t *testing.T, x any) {
			test.Nil(
				t,
				x,
			)
		},
		func(t *testing.T, x any) {
			test.NotNil(t,
				x)
		},
		func(t *testing.T, x any) {
			test.Empty(t,
				func() any {
					return x
				}())
		},
		func(t *testing.T, x any) {
			test.NotEmpty(t, []any{
				x,
			}[0])
		},
		func(t *testing.T, err error) {
			test.NoError(
				t, err)
		},
		func(t *testing.T, err error) {
			test.Error(t,
				err)
		},
		func(t *testing.T, b bool) {
			test.Assert(t, b &&
				true)
		},
	},
	"from a file which is not there": missingShapes,
}

// noSource: the shapes where the arguments are not to be found in the source.
var noSource = map[string]bool{"as a function value": true, "deferred": true, "from a file which is not there": true}

func two(t *testing.T, x any) (*testing.T, any) { return t, x }

func three(t *testing.T, a, b any) (*testing.T, any, any) { return t, a, b }

var oddCalls = map[string]func(t *testing.T, x any){
	"with the results of a function": func(t *testing.T, x any) { test.Nil(two(t, x)) },
	"next to a function literal":     func(t *testing.T, x any) { test.NotNil(t, func() {}); test.Nil(t, x) },
	"twice on a line":                func(t *testing.T, x any) { test.Nil(t, nil); test.Nil(t, x) },
	"through a variable": func(t *testing.T, x any) {
		f := test.Nil
		f(t, x)
	},
	"with the name on a line of its own": func(t *testing.T, x any) {
		test.
			Nil(t, x)
	},
	"through a parenthesis": func(t *testing.T, x any) { (test.Nil)(t, x) },
	"from a map": func(t *testing.T, x any) {
		map[string]func(*testing.T, any){"n": test.Nil}["n"](t, x)
	},
	"through a variable, after a namesake": func(t *testing.T, x any) {
		f := test.Nil
		f(namesake{t}.Nil(), x)
	},
	"in a test which ended up elsewhere": missingNil,
}

type namesake struct{ t *testing.T }

func (n namesake) Nil() *testing.T { return n.t }

var oddEquals = map[string]func(c ctx.C, t *testing.T, a, b any){
	"with the results of a function": func(c ctx.C, t *testing.T, a, b any) { test.EqualsGo(three(t, a, b)) },
	"as a function value": func(c ctx.C, t *testing.T, a, b any) {
		f := test.EqualsGo
		f(t, a, b)
	},
	"JSON as a function value": func(c ctx.C, t *testing.T, a, b any) {
		f := test.EqualsJSON
		f(c, a, b)
	},
	"deferred": func(c ctx.C, t *testing.T, a, b any) { defer test.EqualsJSON(c, a, b) },
	"an empty function among the operands": func(c ctx.C, t *testing.T, a, b any) {
		test.EqualsType(t, func() {}, func() {})
		test.EqualsGo(t, a, b)
	},
	"from a file which is not there": missingEquals,
	"a popped value": func(c ctx.C, t *testing.T, a, b any) {
		l := []any{b}
		test.EqualsJSON(c, a, test.Pop(t, &l))
	},
	"explicit type parameters": func(c ctx.C, t *testing.T, a, b any) {
		l := []any{b}
		test.EqualsJSON(c, a, test.Shift[any](t, &l))
	},
}
