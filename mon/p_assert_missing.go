package main

import (
	"testing"

	"github.com/Aize-Public/forego/ctx"
	"github.com/Aize-Public/forego/test"
)

// The line directives below make these calls come from a file which can't be read.

//line /nonexistent/gone.go:10
var missingShapes = assertShape{
	func(t *testing.T, x any) { test.Nil(t, x) },
	func(t *testing.T, x any) { test.NotNil(t, x) },
	func(t *testing.T, x any) { test.Empty(t, x) },
	func(t *testing.T, x any) { test.NotEmpty(t, x) },
	func(t *testing.T, err error) { test.NoError(t, err) },
	func(t *testing.T, err error) { test.Error(t, err) },
	func(t *testing.T, b bool) { test.Assert(t, b) },
}

func missingEquals(c ctx.C, t *testing.T, a, b any) { test.EqualsJSON(c, a, b) }

//line /etc/hostname:1
func missingNil(t *testing.T, x any) { test.Nil(t, x) }
