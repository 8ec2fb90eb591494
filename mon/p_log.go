package main

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"log/slog"
	"math/rand"
	"os"
	"reflect"
	"runtime"
	"strings"
	gosync "sync"
	"syscall"
	"time"

	"github.com/Aize-Public/forego/ctx"
	"github.com/Aize-Public/forego/ctx/log"
)

func init() {
	reg("C47", "log calls of every level with random formats, arguments and tags (any key, any value), one at a time and from many goroutines, also with arguments whose methods panic or fail, through the default JSON logger; every written byte is parsed back and compared with what was logged; non-trivial: distinct record", c47)
	reg("C48", "random trees of contexts with loggers and helpers attached at any node, logged through in random order and concurrently; each call must reach exactly the logger and the helper a model of the tree assigns to it; non-trivial: distinct tree", c48)
	reg("C49", "random mixes of secrets, rewriting arguments, plain, stacked and joined errors as log arguments under every verb, one at a time and with one argument list reused and shared; non-trivial: distinct argument list", c49)
	scenarios["logdefault"] = scLogDefault
}

// ---------------------------------------------------------------- helpers

type lineWriter struct {
	mu     gosync.Mutex
	buf    bytes.Buffer
	writes int
}

func (w *lineWriter) Write(b []byte) (int, error) {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.writes++
	return w.buf.Write(b)
}

func (w *lineWriter) take() []string {
	w.mu.Lock()
	defer w.mu.Unlock()
	s := w.buf.String()
	w.buf.Reset()
	if s == "" {
		return nil
	}
	l := strings.Split(strings.TrimSuffix(s, "\n"), "\n")
	if !strings.HasSuffix(s, "\n") {
		l = append(l, "<no newline at the end>")
	}
	return l
}

// dupKey reports a key written twice in the same object.
func dupKey(j string) string {
	dec := json.NewDecoder(strings.NewReader(j))
	dec.UseNumber()
	var walk func(at string) string
	walk = func(at string) string {
		t, err := dec.Token()
		if err != nil {
			return ""
		}
		switch t {
		case json.Delim('{'):
			seen := map[string]bool{}
			for dec.More() {
				k, err := dec.Token()
				if err != nil {
					return ""
				}
				ks, _ := k.(string)
				if seen[ks] {
					return at + "/" + ks
				}
				seen[ks] = true
				if d := walk(at + "/" + ks); d != "" {
					return d
				}
			}
			_, _ = dec.Token()
		case json.Delim('['):
			for dec.More() {
				if d := walk(at + "[]"); d != "" {
					return d
				}
			}
			_, _ = dec.Token()
		}
		return ""
	}
	return walk("")
}

// asJSON gives what a value becomes once written and read back.
func asJSON(v any) any {
	j, err := json.Marshal(v)
	if err != nil {
		return "unmarshallable: " + err.Error()
	}
	x, err := decodeStd(j)
	if err != nil {
		return "undecodable: " + err.Error()
	}
	return x
}

type nilErr struct{ s string }

func (e *nilErr) Error() string { return e.s }

type valErr string

func (e valErr) Error() string { return string(e) }

type panicErr struct{}

func (panicErr) Error() string { panic("no text") }

type logTag struct {
	key string
	val any
}

func genTag(rng *rand.Rand) logTag {
	keys := []string{"level", "msg", "message", "time", "src", "error", "", "tags", "a", "é", "k.v", "x\ny", "\"q\"", "source", "test"}
	k := keys[rng.Intn(len(keys))]
	if rng.Intn(4) == 0 {
		k = genString(rng)
	}
	k = strings.ToValidUTF8(k, "?")
	var v any
	switch rng.Intn(10) {
	case 0:
		v = rng.Intn(1000)
	case 1:
		v = strings.ToValidUTF8(genString(rng), "?")
	case 2:
		v = nil
	case 3:
		v = map[string]any{"msg": 1, "level": "x", "z": []int{1, 2}}
	case 4:
		v = json.RawMessage(fmt.Sprintf(`{"r":[%d,null,"\u00e9\n"]}`, rng.Intn(9)))
	case 5:
		v = []byte(`[1,2,3]`)
	case 6:
		v = time.Unix(int64(rng.Intn(1e9)), 0).UTC()
	case 7:
		v = struct{ A, B string }{"<html>&", "\u2028"}
	case 8:
		v = ""
	default:
		v = rng.Intn(2) == 0
	}
	return logTag{k, v}
}

func tagWant(v any) any {
	switch v := v.(type) {
	case []byte:
		x, _ := decodeStd(v)
		return x
	}
	return asJSON(v)
}

// here returns the source position of its caller's line.
func here() string {
	_, f, l, _ := runtime.Caller(1)
	return fmt.Sprintf("%s:%d", f, l)
}

// ---------------------------------------------------------------- C47

type logCall struct {
	f    string
	args []any
	msg  string // expected, before JSON
	errs []any  // the error arguments, in order
}

func genLogCall(rng *rand.Rand) logCall {
	var lc logCall
	var fb strings.Builder
	n := rng.Intn(5)
	if rng.Intn(30) == 0 {
		n += rng.Intn(40)
	}
	for ; n > 0; n-- {
		fb.WriteString([]string{" ", "txt ", "é", "\n", "\"", "%%", "<&>", "\x00", "\xff", "{}", "\u2028"}[rng.Intn(11)])
		verb := []string{"%v", "%s", "%d", "%q", "%+v", "%#v", "%x", "%T", "%5v", "%t", ""}[rng.Intn(11)]
		fb.WriteString(verb)
		var a any
		switch rng.Intn(13) {
		case 0:
			a = rng.Intn(100)
		case 1:
			a = genString(rng)
		case 2:
			a = nil
		case 3:
			a = errors.New("plain " + fmt.Sprint(rng.Intn(9)))
		case 4:
			a = (*nilErr)(nil)
		case 5:
			a = valErr("val")
		case 6:
			a = []any{1, "x", nil}
		case 7:
			a = map[string]int{"a": 1}
		case 8:
			a = struct {
				A int
				B *int
			}{A: 1}
		case 9:
			a = ctx.NewErrorf(context.Background(), "ctx %d", rng.Intn(9))
		case 10:
			a = panicErr{}
		case 11:
			a = fmt.Errorf("wrap: %w", ctx.WrapError(ctx.WithTag(context.Background(), "in", 7), errors.New("inner")))
		default:
			a = 1.5
		}
		if rng.Intn(12) > 0 {
			lc.args = append(lc.args, a)
			if e, ok := a.(error); ok {
				lc.errs = append(lc.errs, e)
			}
		}
	}
	lc.f = fb.String()
	lc.msg = fmt.Sprintf(lc.f, lc.args...)
	return lc
}

// errText is the text of an error, as fmt shows it when it has none to give.
func errText(e error) string {
	return fmt.Sprint(e)
}

// checkRecord compares one line with what was logged.
func checkRecord(r *R, what, line, msgKey, level, src string, t0, t1 time.Time, lc logCall, tags []logTag) {
	x, err := decodeStd([]byte(line))
	if err != nil {
		r.Fail("json", "%s: the record is not JSON (%v): %.600s", what, err, line)
		return
	}
	if d := dupKey(line); d != "" {
		r.Fail("dup", "%s: key %q twice: %.600s", what, d, line)
	}
	m, ok := x.(map[string]any)
	if !ok {
		r.Fail("json", "%s: not an object: %s", what, line)
		return
	}
	if m["level"] != level {
		r.Fail("level", "%s: level %v, want %q", what, m["level"], level)
	}
	if got, want := m[msgKey], asJSON(lc.msg); got != want {
		r.Fail("message", "%s: message %q, want %q", what, got, want)
	}
	ts, _ := m["time"].(string)
	t, err := time.Parse(time.RFC3339Nano, ts)
	if err != nil || t.Before(t0.Add(-time.Microsecond)) || t.After(t1.Add(time.Microsecond)) {
		r.Fail("time", "%s: time %q (%v), logged between %v and %v", what, ts, err, t0, t1)
	}
	if src == "" {
		if s, ok := m["src"]; ok {
			r.Fail("src", "%s: src %v, want none", what, s)
		}
	} else if m["src"] != src {
		r.Fail("src", "%s: src %v, want %s", what, m["src"], src)
	}
	for k := range m {
		switch k {
		case msgKey, "level", "time", "src", "tags":
		default:
			r.Fail("extra", "%s: unexpected field %q: %.600s", what, k, line)
		}
	}
	want := map[string]any{}
	for _, t := range tags {
		want[t.key] = tagWant(t.val)
	}
	got, _ := m["tags"].(map[string]any)
	if len(lc.errs) > 0 {
		checkErrList(r, what, got["error"], lc.errs)
		delete(want, "error")
		cp := map[string]any{}
		for k, v := range got {
			if k != "error" {
				cp[k] = v
			}
		}
		got = cp
	}
	if len(got) == 0 && len(want) == 0 {
		return
	}
	if !reflect.DeepEqual(got, want) {
		g, _ := json.Marshal(got)
		w, _ := json.Marshal(want)
		r.Fail("tags", "%s: tags\n got  %s\n want %s", what, g, w)
	}
}

func checkErrList(r *R, what string, got any, errs []any) {
	l, ok := got.([]any)
	if !ok || len(l) != len(errs) {
		r.Fail("errors", "%s: %d error arguments, but the error tag is %.400v", what, len(errs), got)
		return
	}
	for i, e := range errs {
		m, _ := l[i].(map[string]any)
		err := e.(error)
		if _, ok := err.(panicErr); !ok && m["error"] != asJSON(errText(err)) {
			r.Fail("errors", "%s: error %d is %q, want %q", what, i, m["error"], errText(err))
		}
		var ce ctx.Error
		has := err != error((*nilErr)(nil)) && errors.As(err, &ce)
		st, _ := m["stack"].([]any)
		if has != (len(st) > 0) {
			r.Fail("errors", "%s: error %d: stack %v, want one: %v", what, i, st, has)
		}
		if has {
			if len(st) != len(ce.Stack) || st[0] != any(ce.Stack[0]) {
				r.Fail("errors", "%s: error %d: stack %v, want %v", what, i, st, ce.Stack)
			}
			want := map[string]any{}
			if ce.C != nil {
				_ = ctx.RangeTag(ce.C, func(k string, j ctx.JSON) error {
					want[k], _ = decodeStd(j)
					return nil
				})
			}
			tg, _ := m["tags"].(map[string]any)
			if len(tg)+len(want) > 0 && !reflect.DeepEqual(tg, want) {
				r.Fail("errors", "%s: error %d: tags %v, want %v", what, i, tg, want)
			}
		}
	}
}

// arguments whose own methods fail
type badLogAs struct{ s string }

func (badLogAs) LogAs(*log.Tags) any { panic("cannot") }

type badTagsNil struct{}

func (badTagsNil) LogAs(t *log.Tags) any { *t = nil; return "no tags" }

type badTagsJSON struct{}

func (badTagsJSON) LogAs(t *log.Tags) any { (*t)["bad"] = ctx.JSON(`{"`); return "bad tag" }

type valUnwrap struct{ in error }

func (valUnwrap) Error() string   { return "val" }
func (e valUnwrap) Unwrap() error { return e.in }

type badUnwrap struct{}

func (badUnwrap) Error() string { return "bad unwrap" }
func (badUnwrap) Unwrap() error { panic("cannot") }

type badAs struct{}

func (badAs) Error() string { return "bad as" }
func (badAs) As(any) bool   { panic("cannot") }

type badStringer struct{}

func (badStringer) String() string { panic("cannot") }

// c47hostile: whatever the methods of an argument do, one complete record is written
func c47hostile(r *R) {
	w := &lineWriter{}
	base := log.WithSlogLogger(context.Background(), log.NewDefaultSlogLogger(w))
	pools := []any{(*log.RedactedString)(nil), badLogAs{"SECRET"}, &badLogAs{"SECRET"}, (*badLogAs)(nil), badTagsNil{}, badTagsJSON{}, (*valUnwrap)(nil), badUnwrap{}, badAs{}, badStringer{}, valUnwrap{}, valUnwrap{badUnwrap{}}, (*ctx.Error)(nil), ctx.Error{}, &ctx.Error{},
		(*secretErr)(nil), (*loud)(nil), (log.Loggable)(nil), (error)(nil), errors.Join(badAs{}, badUnwrap{}), func() {}, make(chan int), (*int)(nil), log.RedactedString("SECRET")}
	for i := 0; i < r.N(150, 3000); i++ {
		rng := r.Sub("hostile", i)
		c := ctx.WithTag(base, "i", i)
		var args []any
		at := rng.Intn(4)
		for k := 0; k < 4; k++ {
			if k == at {
				args = append(args, fmt.Sprint("plain", i))
				continue
			}
			n := rng.Intn(len(pools))
			if k == (at+1)%4 {
				n = i % len(pools)
			}
			args = append(args, pools[n])
		}
		err := rng.Intn(3) == 0
		if err {
			args = append(args, errors.New("regular"))
		}
		what := ""
		for _, a := range args {
			what += fmt.Sprintf(" %T", a)
		}
		if !r.Guard("panic", func() string { return "logging" + what }, func() {
			log.Warnf(c, "hostile %v %v %v %v %v", args...)
		}) {
			w.take()
			continue
		}
		lines := w.take()
		if len(lines) != 1 {
			r.Fail("count", "logging%s: %d lines instead of one: %.600q", what, len(lines), lines)
			continue
		}
		x, derr := decodeStd([]byte(lines[0]))
		m, _ := x.(map[string]any)
		msg, _ := m["message"].(string)
		if derr != nil || m["level"] != "warn" || !strings.HasPrefix(msg, "hostile ") || !strings.Contains(msg, fmt.Sprint("plain", i)) {
			r.Fail("record", "logging%s: %v %.600s", what, derr, lines[0])
		}
		if strings.Contains(lines[0], "SECRET") {
			r.Fail("secret", "logging%s shows what it should not: %.600s", what, lines[0])
		}
		tags, _ := m["tags"].(map[string]any)
		if err && !strings.Contains(fmt.Sprint(tags["error"]), "regular") {
			r.Fail("errors", "logging%s: the error list is %v", what, tags["error"])
		}
		if !strings.Contains(what, "badTagsNil") && fmt.Sprint(tags["i"]) != fmt.Sprint(i) {
			r.Fail("tags", "logging%s: tags %v", what, tags)
		}
		r.Eval("hostile" + what)
		r.Count("hostile_arguments", 1)
	}
}

func c47(r *R) {
	c47hostile(r)
	w := &lineWriter{}
	def := log.NewDefaultSlogLogger(w)
	for i := 0; i < r.N(3000, 60000); i++ {
		rng := r.Sub("rec", i)
		c := log.WithSlogLogger(context.Background(), def)
		msgKey, min := "message", slog.LevelDebug
		lvl := func(l slog.Level) string { return strings.ToLower(l.String()) }
		switch rng.Intn(6) {
		case 0: // a plain slog logger with its own minimum
			min = slog.Level(rng.Intn(14) - 5)
			c = log.WithSlogLogger(context.Background(), slog.New(slog.NewJSONHandler(w, &slog.HandlerOptions{Level: min})))
			msgKey = "msg"
			lvl = func(l slog.Level) string { return l.String() }
		case 1: // the default logger with a level set
			min = slog.Level(rng.Intn(14) - 5)
			log.SetDefaultLoggerLevel(min)
		default:
			log.SetDefaultLoggerLevel(slog.LevelDebug)
		}
		var tags []logTag
		for n := rng.Intn(5); n > 0; n-- {
			t := genTag(rng)
			tags = append(tags, t)
			c = ctx.WithTag(c, t.key, t.val)
		}
		lc := genLogCall(rng)
		what := fmt.Sprintf("logging %q with %d arguments and tags %q", lc.f, len(lc.args), func() (k []string) {
			for _, t := range tags {
				k = append(k, t.key)
			}
			return
		}())
		t0 := time.Now()
		var level slog.Level
		var src string
		if !r.Guard("panic", func() string { return what }, func() {
			switch rng.Intn(6) {
			case 0:
				level, src = slog.LevelDebug, here()
				log.Debugf(c, lc.f, lc.args...)
				src = bump(src)
			case 1:
				level, src = slog.LevelInfo, here()
				log.Infof(c, lc.f, lc.args...)
				src = bump(src)
			case 2:
				level, src = slog.LevelWarn, here()
				log.Warnf(c, lc.f, lc.args...)
				src = bump(src)
			case 3:
				level, src = slog.LevelError, here()
				log.Errorf(c, lc.f, lc.args...)
				src = bump(src)
			case 4:
				level, src = slog.Level(rng.Intn(30)-10), "some \"src\":"+fmt.Sprint(i)
				log.Customf(c, level, src, lc.f, lc.args...)
			default:
				level, src = slog.Level(rng.Intn(30)-10), ""
				log.Customf(c, level, src, lc.f, lc.args...)
			}
		}) {
			w.take()
			continue
		}
		t1 := time.Now()
		lines := w.take()
		if level < min {
			if len(lines) != 0 {
				r.Fail("filter", "%s: level %v below the minimum %v was written: %q", what, level, min, lines)
			}
			r.Count("filtered", 1)
			continue
		}
		if len(lines) != 1 {
			r.Fail("count", "%s: level %v, minimum %v: %d lines instead of one: %.600q", what, level, min, len(lines), lines)
			continue
		}
		checkRecord(r, what, lines[0], msgKey, lvl(level), src, t0, t1, lc, tags)
		r.Eval(fmt.Sprint(level, src == "", lc.msg, len(tags), tags))
		r.Count("records", 1)
		if i < 2 {
			r.Sample("%s", lines[0])
		}
	}
	log.SetDefaultLoggerLevel(slog.LevelDebug)
	// from many goroutines: every record whole, exactly once, on a line of its own
	for i := 0; i < r.N(6, 60); i++ {
		n, k := 8, 60
		w := &lineWriter{}
		c := log.WithSlogLogger(context.Background(), log.NewDefaultSlogLogger(w))
		c = ctx.WithTag(c, "shared", map[string]int{"i": i})
		r.Par("concurrent", "logging concurrently", n, func(g int) {
			gc := ctx.WithTag(c, "g", g)
			for j := 0; j < k; j++ {
				switch j % 3 {
				case 0:
					log.Infof(gc, "m %d %d %v", g, j, errors.New("e"))
				case 1:
					log.Warnf(c, "m %d %d %s", g, j, log.RedactedString("s"))
				default:
					log.Customf(gc, slog.LevelError, "", "m %d %d %s", g, j, strings.Repeat("x", j*20))
				}
			}
		})
		seen := map[string]int{}
		for _, l := range w.take() {
			x, err := decodeStd([]byte(l))
			if err != nil {
				r.Fail("torn", "concurrent records: %v: %.400s", err, l)
				continue
			}
			m, _ := x.(map[string]any)
			msg, _ := m["message"].(string)
			f := strings.Fields(msg)
			if len(f) < 3 {
				r.Fail("torn", "record %.400s", l)
				continue
			}
			seen[f[1]+" "+f[2]]++
			tags, _ := m["tags"].(map[string]any)
			if fmt.Sprint(tags["shared"]) != fmt.Sprintf("map[i:%d]", i) {
				r.Fail("tags", "concurrent record with tags %v", tags)
			}
			if j := f[2]; len(f) > 3 && f[3] != "***" && fmt.Sprint(tags["g"]) != f[1] {
				r.Fail("tags", "record %s of goroutine %s has tags %v", j, f[1], tags)
			}
		}
		for g := 0; g < n; g++ {
			for j := 0; j < k; j++ {
				if c := seen[fmt.Sprintf("%d %d", g, j)]; c != 1 {
					r.Fail("lost", "record %d of goroutine %d was written %d times", j, g, c)
				}
			}
		}
		r.Eval(fmt.Sprint("par", i))
		r.Count("concurrent records", int64(len(seen)))
	}
	// without a logger: the default one, on stdout
	res := r.Scenario("logdefault", r.Seed, time.Minute, nil)
	var out []string
	if err := json.Unmarshal(res.Out, &out); err != nil {
		r.Fail("default", "logging without a logger ended the process: exit %d\n%s", res.Exit, res.Stderr)
		return
	}
	for k := 6; k < len(out) && k < 14; k++ {
		if !strings.Contains(out[k], []string{`"helped"`, `"not helped"`}[k%2]) {
			r.Fail("default", "record %d: %s", k, out[k])
		}
	}
	if len(out) == 14 {
		out = out[:6]
	}
	if len(out) != 6 {
		r.Fail("default", "%d records for 6 calls without a logger: %q", len(out), out)
	}
	for j, l := range out {
		x, _ := decodeStd([]byte(l))
		m, _ := x.(map[string]any)
		if m["message"] != fmt.Sprintf("n %d", j) {
			r.Fail("default", "record %d: %s", j, l)
		}
	}
	r.Races(res.Races, "the default logger")
	r.Count("default records", int64(len(out)))
}

// bump moves a position to the next line.
func bump(src string) string {
	i := strings.LastIndex(src, ":")
	var l int
	fmt.Sscan(src[i+1:], &l)
	return fmt.Sprintf("%s:%d", src[:i], l+1)
}

func scLogDefault(in []byte) any {
	f, err := os.CreateTemp("", "monlog")
	if err != nil {
		panic(err)
	}
	defer os.Remove(f.Name())
	if err := syscall.Dup3(int(f.Fd()), 1, 0); err != nil {
		panic(err)
	}
	var nilC ctx.C
	c := context.Background()
	log.Infof(nilC, "n %d", 0)
	log.Errorf(c, "n %d", 1)
	log.Customf(nilC, slog.LevelWarn, "", "n %d", 2)
	log.Debugf(ctx.WithTag(c, "level", 1), "n %d", 3)
	log.Warnf(nilC, "n %d", 4)
	log.SetDefaultLoggerLevel(slog.LevelError)
	log.Infof(c, "dropped")
	log.Errorf(c, "n %d", 5)
	helped := 0
	hc := log.WithHelper(c, func() { helped++ })
	for k := 0; k < 4; k++ {
		log.Errorf(ctx.WithTag(hc, "k", k), "helped")
		log.Errorf(c, "not helped")
	}
	if helped < 4 {
		log.Errorf(c, "a helper without a logger was called %d times for 4 records", helped)
	}
	b, _ := os.ReadFile(f.Name())
	return strings.Split(strings.TrimSuffix(string(b), "\n"), "\n")
}

// ---------------------------------------------------------------- C48

func c48(r *R) {
	defer log.SetDefaultLoggerLevel(slog.LevelDebug)
	levels := []slog.Level{slog.LevelDebug, slog.LevelInfo, slog.LevelWarn, slog.LevelError, slog.LevelError + 7, slog.LevelDebug - 3}
	type record struct {
		level slog.Level
		msg   string
		tags  string
		src   string
	}
	for i := 0; i < r.N(400, 8000); i++ {
		rng := r.Sub("tree", i)
		// the minimum level of the default loggers is theirs alone
		log.SetDefaultLoggerLevel(levels[rng.Intn(len(levels))])
		type node struct {
			c              ctx.C
			logger, helper int
			min            slog.Level // of the logger
			tags           string
		}
		var mu gosync.Mutex
		got := map[int][]record{} // logger -> what it got
		logFunc := func(id int) log.LogFunc {
			return func(c ctx.C, l slog.Level, src, f string, args ...any) {
				tags := log.ExtractTags(c)
				msg := log.FormatMsg(c, &tags, f, args...)
				mu.Lock()
				defer mu.Unlock()
				got[id] = append(got[id], record{l, msg, fmt.Sprint(tags), src})
			}
		}
		none := slog.Level(-1000)
		base := log.WithLogFunc(context.Background(), logFunc(0))
		helped := make([]int, 16)
		nodes := []node{{base, 0, -1, none, "map[]"}}
		shape := ""
		for n := 3 + rng.Intn(8); n > 0; n-- {
			p := nodes[rng.Intn(len(nodes))]
			id := len(nodes)
			kind := rng.Intn(7)
			shape += fmt.Sprintf("%d/%d/%d ", kind, p.logger, p.helper)
			n := p
			switch kind {
			case 0, 1:
				n.c, n.logger, n.min = log.WithLogFunc(p.c, logFunc(id)), id, none
			case 2:
				n.helper = id
				n.c = log.WithHelper(p.c, func() {
					mu.Lock()
					defer mu.Unlock()
					helped[id]++
				})
			case 3:
				n.c = ctx.WithTag(p.c, "k", id)
				n.tags = fmt.Sprintf("map[k:%d]", id)
			case 4:
				c, cf := ctx.WithCancel(p.c)
				defer cf(nil)
				n.c = c
			case 5: // a logger of the standard library with a level of its own
				n.logger, n.min = id, levels[rng.Intn(len(levels))]
				n.c = log.WithSlogLogger(p.c, slog.New(slogSink{n.min, func(rec slog.Record) {
					x := record{level: rec.Level, msg: rec.Message}
					rec.Attrs(func(a slog.Attr) bool {
						switch a.Key {
						case "src":
							x.src = a.Value.String()
						case "tags":
							m := map[string]any{}
							for _, t := range a.Value.Group() {
								m[t.Key] = t.Value.Any()
							}
							x.tags = fmt.Sprint(m)
						}
						return true
					})
					if x.tags == "" {
						x.tags = "map[]"
					}
					mu.Lock()
					defer mu.Unlock()
					got[id] = append(got[id], x)
				}}))
			default:
				n.c = ctx.Detach(p.c)
			}
			nodes = append(nodes, n)
		}
		// emit logs through a context in one of the five ways
		emit := func(g *rand.Rand, n node, msg string) record {
			want := record{msg: msg, tags: n.tags}
			switch g.Intn(5) {
			case 0:
				want.level = slog.LevelDebug
				log.Debugf(n.c, "%s", msg)
			case 1:
				want.level = slog.LevelInfo
				log.Infof(n.c, "%s", msg)
			case 2:
				want.level = slog.LevelWarn
				log.Warnf(n.c, "%s", msg)
			case 3:
				want.level = slog.LevelError
				log.Errorf(n.c, "%s", msg)
			default:
				want.level, want.src = levels[g.Intn(len(levels))], "here:1"
				log.Customf(n.c, want.level, want.src, "%s", msg)
			}
			return want
		}
		check := func(k int, n node, want record) {
			mu.Lock()
			defer mu.Unlock()
			times := 0
			for id, recs := range got {
				for _, x := range recs {
					if x.msg != want.msg {
						continue
					}
					times++
					if id != n.logger {
						r.Fail("logger", "tree %s: logging through node %d reached logger %d, want %d", shape, k, id, n.logger)
					}
					if x.level != want.level || x.tags != want.tags || want.src != "" && x.src != want.src || want.src == "" && !strings.Contains(x.src, "p_log.go:") {
						r.Fail("record", "tree %s: node %d: logged %+v, the logger got %+v", shape, k, want, x)
					}
				}
			}
			expect := 1
			if want.level < n.min {
				expect = 0
			}
			if times != expect {
				r.Fail("logger", "tree %s: logging %v through node %d reached loggers %d times, want %d (its logger's minimum is %v, the default's %v)", shape, want.level, k, times, expect, n.min, log.DefaultLoggerLevel.Level())
			}
		}
		order := rng.Perm(len(nodes))
		for _, k := range order {
			n := nodes[k]
			mu.Lock()
			before := append([]int{}, helped...)
			mu.Unlock()
			check(k, n, emit(rng, n, fmt.Sprintf("one %d", k)))
			mu.Lock()
			for h := range helped {
				if called := helped[h] > before[h]; called != (h == n.helper) {
					r.Fail("helper", "tree %s: logging through node %d: helper %d called: %v, want helper %d", shape, k, h, called, n.helper)
				}
			}
			mu.Unlock()
		}
		// log and derive from several goroutines
		r.Par("scope", "logging and deriving concurrently", 4, func(g int) {
			rng := r.Sub("par", i*8+g)
			for j, k := range order {
				n := nodes[k]
				if (j+g)%2 == 0 {
					_ = log.WithLogFunc(n.c, func(ctx.C, slog.Level, string, string, ...any) {
						r.Fail("leak", "a logger attached to a derived context got a record of its parent")
					})
					_ = log.WithHelper(n.c, func() { r.Fail("leak", "a helper attached to a derived context was called for its parent") })
				}
				if g == 3 && j%3 == 0 {
					log.SetDefaultLoggerLevel(levels[rng.Intn(len(levels))])
				}
				check(k, n, emit(rng, n, fmt.Sprintf("par %d %d", g, k)))
			}
		})
		r.Eval(shape + fmt.Sprint(order))
		r.Count("contexts", int64(len(nodes)))
	}
}

// slogSink is a handler that hands its records over.
type slogSink struct {
	min slog.Level
	f   func(slog.Record)
}

func (s slogSink) Enabled(_ context.Context, l slog.Level) bool    { return l >= s.min }
func (s slogSink) Handle(_ context.Context, rec slog.Record) error { s.f(rec); return nil }
func (s slogSink) WithAttrs([]slog.Attr) slog.Handler              { return s }
func (s slogSink) WithGroup(string) slog.Handler                   { return s }

// ---------------------------------------------------------------- C49

// loud rewrites itself and the tags.
type loud struct {
	n    int
	seen *int32
}

func (l loud) LogAs(t *log.Tags) any {
	(*t)[fmt.Sprintf("loud%d", l.n)] = ctx.JSON(fmt.Sprint(l.n))
	(*t)["last"] = ctx.JSON(fmt.Sprint(l.n))
	delete(*t, "gone")
	return fmt.Sprintf("LOUD-%d", l.n)
}

func (l loud) String() string { return "RAW-LOUD" }

type logsAs struct{ x any }

func (l logsAs) LogAs(*log.Tags) any { return l.x }

type secretErr struct{ s string }

func (e secretErr) Error() string       { return "SECRET-" + e.s }
func (e secretErr) LogAs(*log.Tags) any { return "hidden error" }

func c49(r *R) {
	w := &lineWriter{}
	base := log.WithSlogLogger(context.Background(), log.NewDefaultSlogLogger(w))
	base = ctx.WithTag(base, "gone", true)
	base = ctx.WithTag(base, "kept", "yes")
	verbs := []string{"%v", "%s", "%q", "%x", "%+v", "%#v", "%d", "%T", "%10.2s", "%[1]v", "%c"}
	for i := 0; i < r.N(2000, 30000); i++ {
		rng := r.Sub("args", i)
		var args, want []any
		tags := map[string]any{"kept": "yes", "gone": true}
		var errs []any
		f := ""
		for n := 1 + rng.Intn(4); n > 0; n-- {
			f += verbs[rng.Intn(len(verbs))] + " "
			switch rng.Intn(7) {
			case 6: // what it gives can be anything
				x := []any{nil, 7, "", []string{"a"}, 1.5, true, map[string]int{"k": 1}}[rng.Intn(7)]
				args, want = append(args, logsAs{x}), append(want, x)
			case 0, 1:
				args, want = append(args, log.RedactedString("SECRET-"+fmt.Sprint(rng.Intn(99)))), append(want, "***")
			case 2:
				k := rng.Intn(3)
				args, want = append(args, loud{n: k}), append(want, fmt.Sprintf("LOUD-%d", k))
				tags[fmt.Sprintf("loud%d", k)] = json.Number(fmt.Sprint(k))
				tags["last"] = json.Number(fmt.Sprint(k))
				delete(tags, "gone")
			case 3:
				args, want = append(args, secretErr{"err"}), append(want, "hidden error")
			case 4:
				e := ctx.NewErrorf(ctx.WithTag(context.Background(), "n", n), "e%d", n)
				args, want = append(args, e), append(want, e)
				errs = append(errs, e)
			default:
				args, want = append(args, n), append(want, n)
			}
		}
		if rng.Intn(4) == 0 {
			args, want = append(args, log.RedactedString("SECRET-extra")), append(want, "***")
		}
		wantMsg := asJSON(fmt.Sprintf(f, want...))
		orig := append([]any{}, args...)
		times := 1 + rng.Intn(3)
		for k := 0; k < times; k++ {
			if rng.Intn(2) == 0 {
				log.Infof(base, f, args...)
			} else {
				log.Customf(base, slog.LevelError, "", f, args...)
			}
			lines := w.take()
			if len(lines) != 1 {
				r.Fail("count", "%d records: %q", len(lines), lines)
				break
			}
			if strings.Contains(lines[0], "SECRET") || strings.Contains(lines[0], fmt.Sprintf("%x", "SECRET")) {
				r.Fail("secret", "format %q: the record shows a redacted value: %s", f, lines[0])
			}
			x, _ := decodeStd([]byte(lines[0]))
			m, _ := x.(map[string]any)
			if m["message"] != wantMsg {
				r.Fail("message", "format %q, use %d of the same arguments: message %q, want %q", f, k, m["message"], wantMsg)
			}
			got, _ := m["tags"].(map[string]any)
			if len(errs) > 0 {
				checkErrList(r, f, got["error"], errs)
			} else if e, ok := got["error"]; ok {
				r.Fail("errors", "error tag %v without error arguments", e)
			}
			delete(got, "error")
			if !reflect.DeepEqual(got, tags) {
				r.Fail("tags", "format %q, use %d of the same arguments: tags %v, want %v", f, k, got, tags)
			}
			for a := range args {
				if !reflect.DeepEqual(args[a], orig[a]) {
					r.Fail("args", "logging changed the caller's argument %d from %T to %T %v", a, orig[a], args[a], args[a])
				}
			}
		}
		r.Eval(fmt.Sprint(f, orig, times))
		r.Count("argument lists", 1)
	}
	// one argument list shared by goroutines
	for i := 0; i < r.N(20, 200); i++ {
		args := []any{log.RedactedString("SECRET-1"), loud{n: 1}, i}
		r.Par("shared", "logging one argument list from several goroutines", 6, func(g int) {
			for k := 0; k < 5; k++ {
				log.Infof(base, "%s %s %d", args...)
			}
		})
		for _, l := range w.take() {
			if strings.Contains(l, "SECRET") || !strings.Contains(l, "*** LOUD-1") || !strings.Contains(l, `"loud1":1`) || strings.Contains(l, `"gone"`) {
				r.Fail("shared", "record %s", l)
			}
		}
		r.Eval(fmt.Sprint("shared", i))
	}
}
