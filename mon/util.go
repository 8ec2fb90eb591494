package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"log/slog"
	"reflect"
	"sort"

	"github.com/Aize-Public/forego/ctx"
	"github.com/Aize-Public/forego/ctx/log"
	"github.com/Aize-Public/forego/enc"
)

// quietCtx: a context whose logs go nowhere.
func quietCtx() ctx.C {
	return log.WithLogFunc(context.Background(), func(ctx.C, slog.Level, string, string, ...any) {})
}

// decodeStd is the reference JSON reader.
func decodeStd(b []byte) (any, error) {
	dec := json.NewDecoder(bytes.NewReader(b))
	dec.UseNumber()
	var x any
	if err := dec.Decode(&x); err != nil {
		return nil, err
	}
	if _, err := dec.Token(); err != io.EOF {
		return nil, fmt.Errorf("trailing data")
	}
	return x, nil
}

// nodeIs compares a node tree with a document read by the reference reader (json.Number for numbers).
func nodeIs(n enc.Node, want any) string { return nodeIsAt(n, want, "$") }

func nodeIsAt(n enc.Node, want any, at string) string {
	bad := func() string { return fmt.Sprintf("at %s: got %T %#v, want %T %#v", at, n, n, want, want) }
	switch w := want.(type) {
	case nil:
		if _, ok := n.(enc.Nil); !ok {
			return bad()
		}
	case bool:
		if b, ok := n.(enc.Bool); !ok || bool(b) != w {
			return bad()
		}
	case string:
		if s, ok := n.(enc.String); !ok || string(s) != w {
			return bad()
		}
	case json.Number:
		if d, ok := n.(enc.Digits); !ok || string(d) != string(w) {
			return bad()
		}
	case []any:
		l, ok := n.(enc.List)
		if !ok || len(l) != len(w) {
			return bad()
		}
		for i := range w {
			if s := nodeIsAt(l[i], w[i], fmt.Sprintf("%s[%d]", at, i)); s != "" {
				return s
			}
		}
	case map[string]any:
		m, ok := n.(enc.Map)
		if !ok || len(m) != len(w) {
			return bad()
		}
		for k := range w {
			e, ok := m[k]
			if !ok {
				return fmt.Sprintf("at %s: key %q lost", at, k)
			}
			if s := nodeIsAt(e, w[k], at+"."+k); s != "" {
				return s
			}
		}
	}
	return ""
}

// tokens of a document in order, for order comparisons.
func tokens(b []byte) ([]json.Token, error) {
	dec := json.NewDecoder(bytes.NewReader(b))
	dec.UseNumber()
	var out []json.Token
	for {
		t, err := dec.Token()
		if err == io.EOF {
			return out, nil
		}
		if err != nil {
			return out, err
		}
		out = append(out, t)
	}
}

func sortedKeys[V any](m map[string]V) []string {
	out := make([]string, 0, len(m))
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func deepEq(a, b any) bool { return reflect.DeepEqual(a, b) }
