package main

// Assertions parse the file they are called from: this one is small.

import (
	"testing"

	"github.com/Aize-Public/forego/ctx"
	"github.com/Aize-Public/forego/test"
)

func aEqualsGo(t *testing.T, a, b any)          { test.EqualsGo(t, a, b) }
func aNotEqualsGo(t *testing.T, a, b any)       { test.NotEqualsGo(t, a, b) }
func aContainsGo(t *testing.T, a any, s string) { test.ContainsGo(t, a, s) }
func aEqualsStr(t *testing.T, a, b string)      { test.EqualsStr(t, a, b) }
func aNotEqualsStr(t *testing.T, a, b string)   { test.NotEqualsStr(t, a, b) }
func aEqualsType(t *testing.T, a, b any)        { test.EqualsType(t, a, b) }
func aEqualsJSON(c ctx.C, a, b any)             { test.EqualsJSON(c, a, b) }
func aNotEqualsJSON(c ctx.C, a, b any)          { test.NotEqualsJSON(c, a, b) }
func aContainsJSON(c ctx.C, a any, s string)    { test.ContainsJSON(c, a, s) }
func aNotContainsJSON(c ctx.C, a any, s string) { test.NotContainsJSON(c, a, s) }
func aShift(t *testing.T, l *[]string) string   { return test.Shift(t, l) }
func aPop(t *testing.T, l *[]string) string     { return test.Pop(t, l) }
