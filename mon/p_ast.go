package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"
)

func init() {
	reg("C53", "generated programs, compiled and run, whose calls (functions, methods, generics, through a helper, nested, on one or many lines, with every kind of argument, from several goroutines at once, some built with the race detector) record what they find about themselves; compared with the text the generator wrote; non-trivial: distinct call", c53)
}

const astPrelude = `package main

import (
	"encoding/json"
	"fmt"
	"os"
	"sync"

	"github.com/Aize-Public/forego/utils/ast"
)

type rec struct {
	ID                   int
	Name, FL, Err, Panic string
	Src, Assign, Short   []string
	Direct               []string
}

var recs []rec

func note(id, n int, call *ast.Call, fl string, err error) {
	r := rec{ID: id, FL: fl}
	if err != nil {
		r.Err = err.Error()
	} else {
		r.Name = call.Name
		for _, a := range call.Args {
			r.Src = append(r.Src, a.Src)
			r.Assign = append(r.Assign, a.Assignment)
			r.Short = append(r.Short, a.Short())
		}
	}
	recs = append(recs, r)
}

func trap(id int) {
	if e := recover(); e != nil {
		recs = append(recs, rec{ID: id, Panic: fmt.Sprint(e)})
	}
}

func capture(id int, args ...any) int {
	defer trap(id)
	call, fl, err := ast.Caller(0)
	note(id, len(args), call, fl, err)
	for i := range args {
		recs[len(recs)-1].Direct = append(recs[len(recs)-1].Direct, ast.Assignment(0, i+1))
	}
	return id
}

func generic[T any](id int, args ...T) int {
	defer trap(id)
	call, fl, err := ast.Caller(0)
	note(id, len(args), call, fl, err)
	return id
}

func outer(id int, args ...any) int {
	defer trap(id)
	call, fl, err := inner()
	note(id, len(args), call, fl, err)
	return id
}

func inner() (*ast.Call, string, error) { return ast.Caller(1) }

type obj struct{ n int }

func (o *obj) method(id int, args ...any) int {
	defer trap(id)
	call, fl, err := ast.Caller(0)
	note(id, len(args), call, fl, err)
	return id
}

func (o *obj) self() *obj { return o }

func add(a ...int) int { return len(a) }
func ident[T any](x T) T { return x }

type pt struct {
	X, Y int
	L    []int
}

var (
	a, b = 1, 2
	s    = "stré"
	t    = true
	o    = &obj{}
	list = []any{1, 2}
	ch   = make(chan int, 1)
	m    = map[string]int{"a": 1}
	p    = pt{L: []int{1, 2, 3}}
)

func who(args ...any) string {
	call, fl, err := ast.Caller(0)
	return fmt.Sprint(call, fl, err, ast.Assignment(0, 1))
}

// together makes calls at the same moment, the first of the process, and once more.
func together() {
	u, v := 1+1, "v"
	fs := []func() string{
		func() string { return who("one", u) },
		func() string { return who("two", v, 2) },
		func() string { x := u * 3; return who("three", x) },
		func() string { v := "inner"; return who("four", v) },
		func() string { return who(u, "five") },
		func() string {
			return who(
				"six", v)
		},
	}
	var mu sync.Mutex
	got := map[string]int{}
	for round := 0; round < 3; round++ {
		var wg sync.WaitGroup
		start := make(chan bool)
		for w := 0; w < 12; w++ {
			wg.Add(1)
			go func(w int) {
				defer wg.Done()
				defer func() {
					if e := recover(); e != nil {
						mu.Lock()
						got[fmt.Sprint("panic: ", e)] = -1
						mu.Unlock()
					}
				}()
				<-start
				for k := 0; k < 4; k++ {
					s := fs[(w+k)%len(fs)]()
					mu.Lock()
					got[s] = (w + k) % len(fs)
					mu.Unlock()
				}
			}(w)
		}
		close(start)
		wg.Wait()
	}
	alone := map[string]int{}
	for i, f := range fs {
		alone[f()] = i
	}
	if fmt.Sprint(alone) != fmt.Sprint(got) || len(alone) != len(fs) {
		recs = append(recs, rec{ID: -1, Panic: fmt.Sprintf("calls at the same moment found %v, and alone %v", got, alone)})
	}
}

func init() { together() } // before all others

func main() {
	run()
	_ = json.NewEncoder(os.Stdout).Encode(recs)
}

`

type astWant struct {
	id     int
	name   string
	line   int
	src    []string // without the id
	assign []string // "?" when not judged
}

func astExpr(rng *rand.Rand, d int) (src, shown string) {
	sub := func() string { s, _ := astExpr(rng, d-1); return s }
	if d <= 0 {
		s := []string{"a", "b", "1", "-3", "0x1F", "2.5", `"x,y)"`, `"a\"b"`, "`raw, (é`", "'\\''", "t", "nil", "s", "o", "1e3", `"é" /* ü, */`, "true"}[rng.Intn(17)]
		return s, s
	}
	var r string
	switch rng.Intn(18) {
	case 0:
		r = "a + b*2"
	case 1:
		r = "(a + b)"
	case 2:
		r = "add(a, b)"
	case 3:
		r = fmt.Sprintf("add(add(1, 2), len(%q))", "p, q)")
	case 4:
		r = "[]any{" + sub() + ", " + sub() + "}"
	case 5:
		r = `map[string]any{"k": ` + sub() + `}`
	case 6:
		r = "pt{X: 1, Y: add(2)}"
	case 7:
		body := []string{"return a", "x := a; return x", "return add(1, 2)", "if t {\n\t\treturn 1\n\t}\n\treturn 2"}[rng.Intn(4)]
		return "func() int { " + body + " }", body
	case 8:
		r = "s[1:3]"
	case 9:
		r = "any(" + sub() + ")"
	case 10:
		r = "&p"
	case 11:
		r = "!t && a == b"
	case 12:
		r = "ident[int](3)"
	case 13:
		r = `ident("g, h")`
	case 14:
		r = "[]any{\n\t\t" + sub() + ",\n\t\t" + sub() + ",\n\t}"
	case 15:
		r = `m["a"]`
	case 16:
		r = "a /* , */ + b"
	default:
		r = "p.L[add()]"
	}
	return strings.TrimSuffix(r, " /* ü, */"), strings.TrimSuffix(r, " /* ü, */")
}

// genAstProgram writes a program and what its calls should find.
func genAstProgram(rng *rand.Rand, calls int) (string, []astWant) {
	var b strings.Builder
	b.WriteString(astPrelude)
	b.WriteString("func run() {\n")
	line := func() int { return strings.Count(b.String(), "\n") + 1 }
	var want []astWant
	depth := 1
	vars := []map[string]string{{}}
	lookup := func(n string) (string, bool) {
		for i := len(vars) - 1; i >= 0; i-- {
			if e, ok := vars[i][n]; ok {
				return e, true
			}
		}
		return "", false
	}
	nv := 0
	for id := 1; id <= calls; id++ {
		ind := strings.Repeat("\t", depth)
		// surroundings
		switch rng.Intn(8) {
		case 0:
			b.WriteString(ind + "{\n")
			depth++
			vars = append(vars, map[string]string{})
		case 1:
			b.WriteString(ind + []string{"if t {", "for range 1 {", "func() {"}[rng.Intn(2)] + "\n")
			depth++
			vars = append(vars, map[string]string{})
		case 2, 3:
			if depth > 1 {
				depth--
				vars = vars[:len(vars)-1]
				b.WriteString(strings.Repeat("\t", depth) + "}\n")
			}
		}
		ind = strings.Repeat("\t", depth)
		if rng.Intn(3) == 0 { // a variable, new, or hiding one of a block around
			n := fmt.Sprintf("v%d", nv)
			if rng.Intn(3) == 0 && nv > 0 {
				if k := fmt.Sprintf("v%d", rng.Intn(nv)); vars[len(vars)-1][k] == "" {
					n = k
				}
			}
			if n == fmt.Sprintf("v%d", nv) {
				nv++
			}
			e, _ := astExpr(rng, 1)
			e = "any(" + e + ")"
			if _, ok := vars[len(vars)-1][n]; !ok {
				fmt.Fprintf(&b, "%s%s := %s\n%s_ = %s\n", ind, n, e, ind, n)
				vars[len(vars)-1][n] = e
			}
		}
		w := astWant{id: id}
		var args []string
		for n := rng.Intn(4); n > 0; n-- {
			if rng.Intn(3) == 0 && nv > 0 {
				n := fmt.Sprintf("v%d", rng.Intn(nv))
				if e, ok := lookup(n); ok {
					args, w.src, w.assign = append(args, n), append(w.src, n), append(w.assign, e)
					continue
				}
			}
			e, shown := astExpr(rng, 1+rng.Intn(2))
			args, w.src, w.assign = append(args, e), append(w.src, shown), append(w.assign, "?")
		}
		fn := ""
		switch rng.Intn(6) {
		case 0:
			fn, w.name = "o.method", "o.method"
		case 1:
			fn, w.name = "o.self().method", "method"
		case 2:
			fn, w.name = "outer", "outer"
		case 3:
			fn, w.name = "generic", "generic"
			w.assign, w.src, args = []string{"?", "?"}, []string{"a + 1", "b"}, []string{"a + 1", "b"}
		default:
			fn, w.name = "capture", "capture"
		}
		call := fmt.Sprintf("%s(%s)", fn, strings.Join(append([]string{fmt.Sprint(id)}, args...), ", "))
		if rng.Intn(4) == 0 {
			call = fmt.Sprintf("%s(\n%s\t%s,\n%s)", fn, ind, strings.Join(append([]string{fmt.Sprint(id)}, args...), ",\n\t"+ind), ind)
		}
		pre, post := "", ""
		switch rng.Intn(9) {
		case 0:
			pre, post = "_ = ", ""
		case 1:
			pre, post = "_ = add(1, ", ")"
		case 2:
			pre, post = "if ", " > 0 {\n"+ind+"}"
		case 3:
			pre, post = "func() {\n"+ind, "\n"+ind+"}()"
		case 4:
			pre, post = "switch ", " {\n"+ind+"}"
		case 5:
			pre, post = "_ = func() int { return ", " }()"
		case 6:
			pre, post = "_ = []int{", "}"
		}
		b.WriteString(ind + pre)
		w.line = line()
		b.WriteString(call + post + "\n")
		want = append(want, w)
	}
	for ; depth > 0; depth-- {
		b.WriteString(strings.Repeat("\t", depth-1) + "}\n")
	}
	// calls nothing is promised about, but for not panicking
	odd := calls
	b.WriteString(`
func pair() (int, any) { return 900001, 2 }

func odd() {
	capture(900002, func() {})
	capture(900003, func() { /* nothing */ }, 1)
	capture(pair())
	f := capture
	f(900004, 1)
	defer capture(900005, a)
	capture(900006, list...)
	(capture)(900007, a)
	[]func(int, ...any) int{capture}[0](900008, a)
	generic[int](900009, a)
	capture(900010, capture(900011, 1))
	o.
		method(900012, a)
	x := 1
	x++
	x += 3
	capture(900013, x)
	var y, z = 1, 2
	y, z = z, y
	capture(900014, y, z)
	p.X, m["q"] = 1, 2
	capture(900015, p.X)
	done := make(chan int)
	go func() { capture(900016); close(done) }()
	<-done
}

func init() { odd() }
`)
	_ = odd
	return b.String(), want
}

type astRec struct {
	ID                   int
	Name, FL, Err, Panic string
	Src, Assign, Short   []string
	Direct               []string
}

func c53(r *R) {
	modDir := os.Getenv("VERIF_DIR")
	if modDir == "" {
		r.HarnessError("VERIF_DIR is not set")
		return
	}
	gomod, err := os.ReadFile(modDir + "/mon/go.mod")
	if err != nil {
		r.HarnessError("%v", err)
		return
	}
	gosum, _ := os.ReadFile(modDir + "/mon/go.sum")
	for i := 0; i < r.N(3, 25); i++ {
		rng := r.Sub("prog", i)
		src, want := genAstProgram(rng, r.N(150, 300))
		dir, err := os.MkdirTemp("", "monast")
		if err != nil {
			panic(err)
		}
		defer os.RemoveAll(dir)
		for n, b := range map[string][]byte{"go.mod": bytes.Replace(gomod, []byte("module verifmon"), []byte("module gencalls"), 1), "go.sum": gosum, "main.go": []byte(src)} {
			if err := os.WriteFile(filepath.Join(dir, n), b, 0o644); err != nil {
				panic(err)
			}
		}
		args := []string{"build", "-o", "prog"}
		if i%3 == 0 { // what calls share is seen
			args = append(args, "-race")
		}
		if i%3 == 1 {
			args = append(args, "-gcflags=all=-l") // nothing inlined
		}
		at, runIn := dir, dir
		if i%3 == 2 { // as releases are built: files are named after the module, which is found from within it
			args = append(args, "-trimpath")
			at, runIn = "gencalls", filepath.Join(dir, "deep", "er")
			if err := os.MkdirAll(runIn, 0o755); err != nil {
				panic(err)
			}
			r.Count("trimmed_programs", 1)
		}
		build := exec.Command("go", append(args, ".")...)
		build.Dir = dir
		if out, err := build.CombinedOutput(); err != nil {
			r.HarnessError("building the generated program: %v\n%s", err, out)
			return
		}
		cmd := exec.Command(filepath.Join(dir, "prog"))
		cmd.Dir = runIn
		cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66 atexit_sleep_ms=20")
		var stderr bytes.Buffer
		cmd.Stderr = &stderr
		timer := time.AfterFunc(hangLimit, func() { _ = cmd.Process.Kill() })
		out, err := cmd.Output()
		timer.Stop()
		var recs []astRec
		if err != nil || json.Unmarshal(out, &recs) != nil {
			r.Fail("crash", "the generated program failed: %v\n%.2000s", err, stderr.String())
			return
		}
		by := map[int]astRec{}
		for _, x := range recs {
			if x.Panic != "" {
				r.Fail("panic", "call %d: panic: %s", x.ID, x.Panic)
			}
			by[x.ID] = x
		}
		lines := strings.Split(src, "\n")
		for _, w := range want {
			x, ok := by[w.id]
			text := lines[w.line-1]
			if !ok {
				r.HarnessError("call %d did not run: %s", w.id, text)
				continue
			}
			if x.Panic != "" {
				continue
			}
			if x.Err != "" {
				r.Fail("found", "%q: %s", text, x.Err)
				continue
			}
			if wantFL := fmt.Sprintf("%s/main.go:%d", at, w.line); x.FL != wantFL {
				r.Fail("position", "%q: at %s, want %s", text, x.FL, wantFL)
			}
			if x.Name != w.name {
				r.Fail("name", "%q: name %q, want %q", text, x.Name, w.name)
			}
			if len(x.Src) != len(w.src)+1 {
				r.Fail("args", "%q: arguments %q, want %q", text, x.Src, w.src)
				continue
			}
			if x.Src[0] != fmt.Sprint(w.id) {
				r.Fail("args", "%q: the first argument is %q, want %d", text, x.Src[0], w.id)
			}
			for k := range w.src {
				if x.Src[k+1] != w.src[k] {
					r.Fail("args", "%q: argument %d is %q, want %q", text, k, x.Src[k+1], w.src[k])
				}
				if w.assign[k] == "?" {
					continue
				}
				if x.Assign[k+1] != w.assign[k] {
					r.Fail("assign", "%q: %s was assigned %q, found %q", text, w.src[k], w.assign[k], x.Assign[k+1])
				}
				first := strings.Split(w.assign[k], "\n")[0]
				if x.Short[k+1] != first || len(x.Direct) > 0 && x.Direct[k] != first {
					r.Fail("assign", "%q: short form %q and %q, want %q", text, x.Short[k+1], x.Direct, first)
				}
				r.Count("assignments", 1)
			}
			r.Eval(fmt.Sprint(w.name, w.src, w.assign))
			r.Count("calls", 1)
			r.Count("arguments", int64(len(w.src)))
		}
		if len(by) < len(want)+14 {
			r.Fail("odd", "%d calls recorded, want at least %d", len(by), len(want)+14)
		}
	}
}
