package main

import (
	"bufio"
	"bytes"
	"compress/gzip"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math"
	"math/rand"
	"net"
	"net/http"
	"net/url"
	"os"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/Aize-Public/forego/api"
	"github.com/Aize-Public/forego/ctx"
	"github.com/Aize-Public/forego/enc"
	fhttp "github.com/Aize-Public/forego/http"
	"github.com/Aize-Public/forego/http/ws"
	"github.com/Aize-Public/forego/shutdown"
	"github.com/Aize-Public/forego/utils"
)

func init() {
	reg("C16", "requests over TCP to HandleRequest endpoints with random methods, bodies, response sizes around the gzip threshold and Accept/Accept-Encoding headers, from 8 clients; non-trivial: distinct (headers, sizes)", c16)
	reg("C17", "handlers failing with errors built by random wrapping of statuses and causes that carry a secret token, for all three ways of registering a handler, and panicking handlers; non-trivial: distinct error structure", c17)
	reg("C18", "operations registered on a server and called over TCP by Client.API and by raw requests with malformed, mistyped, incomplete, truncated or hostile bodies; every run of an operation is recorded by its unique name; non-trivial: distinct request", c18)
	reg("C19", "known numbers of requests over TCP to handlers of every kind that write a status, only a body, nothing, early hints or twice; the metric is read back from the histogram; non-trivial: distinct (path, method, behaviour)", c19)
	reg("C20", "liveness, readiness and openapi endpoints polled by concurrent clients while readiness changes; non-trivial: distinct observed state", c20)
	reg("C21", "a server process with requests in flight in every phase is told to shut down, by call or by signal; completion is ordered against every handler and response; non-trivial: distinct schedule", c21)
	reg("C22", "clients calling a scripted server that answers every status, bodies of every length, truncates, stalls and refuses; connections counted on the server side; non-trivial: distinct (operation, script)", c22)
	reg("C23", "readers chunked at random, with data on the final error, stalls and failures; CallHandler endpoints with bodies around the limit, stalled bodies and every handler outcome; non-trivial: distinct chunking or request", c23)
}

func httpServer(r *R, c ctx.C, setup func(s *fhttp.Server)) string {
	s := fhttp.NewServer(c)
	setup(s)
	addr, err := s.Listen(c, "127.0.0.1:0")
	if err != nil {
		r.HarnessError("listen: %v", err)
		panic(err)
	}
	return "http://" + addr.String()
}

func rawClient() *http.Client {
	return &http.Client{Transport: &http.Transport{DisableCompression: true, MaxIdleConnsPerHost: 16}, Timeout: 40 * time.Second}
}

// script is what a scripted handler is told to do for one request, and what it saw.
type script struct {
	out  []byte
	err  error
	body []byte
	runs atomic.Int64
	got  atomic.Value
	tid  atomic.Value
	pan  bool
}

type scripts struct{ m sync.Map }

func (s *scripts) put(id string, x *script) { s.m.Store(id, x) }
func (s *scripts) handle(c ctx.C, in []byte, r *http.Request) ([]byte, error) {
	v, ok := s.m.Load(r.Header.Get("X-Case"))
	if !ok {
		return nil, fmt.Errorf("no such case")
	}
	x := v.(*script)
	x.runs.Add(1)
	x.got.Store(append([]byte{}, in...))
	x.tid.Store(ctx.GetTracking(c))
	if x.pan {
		panic(x.err)
	}
	return x.out, x.err
}

func genBytes(g *rand.Rand, n int) []byte {
	b := make([]byte, n)
	if g.Intn(2) == 0 {
		g.Read(b)
	} else {
		for i := range b {
			b[i] = "abcdef{}[]\",:01 "[g.Intn(16)]
		}
	}
	return b
}

func c16(r *R) {
	c := quietCtx()
	var sc scripts
	base := httpServer(r, c, func(s *fhttp.Server) {
		s.HandleRequest("/h", sc.handle)
		s.HandleRequest("/slow", func(c ctx.C, in []byte, _ *http.Request) ([]byte, error) {
			time.Sleep(32 * time.Second)
			return in, nil
		})
		s.HandleRequest("/echo", func(c ctx.C, in []byte, _ *http.Request) ([]byte, error) { return in, nil })
		s.HandleRequest("/tail", func(c ctx.C, in []byte, _ *http.Request) ([]byte, error) { return in[len(in)/2:], nil })
	})
	cli := rawClient()
	slow := make(chan struct{})
	go func() { // next to the others: a function that takes longer than any timeout of the server
		defer close(slow)
		var wg sync.WaitGroup
		for i := 0; i < 4; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				body := bytes.Repeat([]byte{byte('a' + i)}, 10+i*30000)
				cli := &http.Client{Transport: &http.Transport{}, Timeout: 120 * time.Second}
				if i%2 == 1 { // on a connection that has been idle for as long
					if res, err := cli.Get(base + "/live"); err == nil {
						res.Body.Close()
					}
					time.Sleep(time.Second)
				}
				res, err := cli.Post(base+"/slow", "application/json", bytes.NewReader(body))
				if err != nil {
					r.Fail("response:slow", "a function that takes 32 s: %v", err)
					return
				}
				got, err := io.ReadAll(res.Body)
				res.Body.Close()
				if err != nil || res.StatusCode != 200 || !bytes.Equal(got, body) {
					r.Fail("response:slow", "a function that takes 32 s returned %d bytes; the client got %d, %v and %d bytes", len(body), res.StatusCode, err, len(got))
				}
				r.Eval(fmt.Sprint("slow", i))
				r.Count("slow_requests", 1)
			}()
		}
		wg.Wait()
	}()
	defer r.Within("response:slow", "functions that take 32 s", func() { <-slow })
	// responses made of the bytes of the request, from many clients at once
	rounds := r.N(60, 2000)
	r.Par("echo", "requests", 16, func(w int) {
		g := r.Sub("echo", w)
		for i := 0; i < rounds; i++ {
			body := bytes.Repeat([]byte(fmt.Sprintf("%03d-%05d,", w, i)), []int{1, 10, 800, 1600, 5000, 20000}[g.Intn(6)])
			path, want := "/echo", body
			if g.Intn(3) == 0 {
				path, want = "/tail", body[len(body)/2:]
			}
			req, _ := http.NewRequest("POST", base+path, bytes.NewReader(body))
			if g.Intn(3) == 0 {
				req.Header.Set("Accept-Encoding", "gzip")
			}
			r.Eval(fmt.Sprint(path, len(body), req.Header["Accept-Encoding"]))
			res, err := cli.Do(req)
			if err != nil {
				r.Fail("echo:error", "%s: %v", path, err)
				continue
			}
			var rd io.Reader = res.Body
			if res.Header.Get("Content-Encoding") == "gzip" {
				if z, err := gzip.NewReader(rd); err == nil {
					rd = z
				}
			}
			got, err := io.ReadAll(rd)
			res.Body.Close()
			if err != nil || res.StatusCode != 200 || !bytes.Equal(got, want) {
				r.Fail("echo:body", "%s of %d bytes by client %d, request %d: answered %d, %v, with %d bytes which differ from those the handler returned: %.60q…", path, len(body), w, i, res.StatusCode, err, len(got), got)
			}
			r.Count("echoes_compared", 1)
		}
	})
	c16Broken(r, base, &sc)
	per := r.N(90, 2500)
	r.Par("response", "requests", 8, func(w int) {
		g := r.Sub("w", w)
		for i := 0; i < per; i++ {
			id := fmt.Sprintf("%d-%d", w, i)
			sizes := []int{0, 0, 1, 2, 100, 5000, 16383, 16384, 16385, 16386, 20000, 70000, 300000}
			x := &script{out: genBytes(g, sizes[g.Intn(len(sizes))])}
			if len(x.out) == 0 && g.Intn(2) == 0 {
				x.out = nil
			}
			sc.put(id, x)
			method := []string{"POST", "POST", "POST", "PUT", "GET", "DELETE", "PATCH"}[g.Intn(7)]
			var body []byte
			if method != "GET" {
				body = genBytes(g, []int{0, 1, 10, 1000, 8192, 100000}[g.Intn(6)])
			}
			var rd io.Reader = bytes.NewReader(body)
			chunked := g.Intn(3) == 0
			if chunked {
				rd = struct{ io.Reader }{rd} // no length known
			}
			req, err := http.NewRequest(method, base+"/h", rd)
			if err != nil {
				panic(err)
			}
			req.Header.Set("X-Case", id)
			aes, admits := genAcceptEncoding(g)
			if len(aes) > 0 {
				req.Header["Accept-Encoding"] = aes
			}
			accept := []string{"", "application/json", "*/*", "application/gzip", "application/json, application/gzip"}[g.Intn(5)]
			if accept != "" {
				req.Header.Set("Accept", accept)
			}
			what := fmt.Sprintf("%s with %d bytes, Accept-Encoding %q, Accept %q, handler returns %d bytes", method, len(body), aes, accept, len(x.out))
			r.Eval(what)
			if w == 0 && i < 3 {
				r.Sample("%s", what)
			}
			res, err := cli.Do(req)
			if err != nil {
				r.Fail("response:error", "%s: %v", what, err)
				continue
			}
			data, err := io.ReadAll(res.Body)
			res.Body.Close()
			if err != nil {
				r.Fail("response:error", "%s: %v", what, err)
				continue
			}
			if n := x.runs.Load(); n != 1 {
				r.Fail("response:runs", "%s: handler ran %d times", what, n)
			} else if got := x.got.Load().([]byte); !bytes.Equal(got, body) {
				r.Fail("response:request-body", "%s: handler got %d bytes that differ from the %d sent", what, len(got), len(body))
			}
			if len(x.out) == 0 {
				if res.StatusCode != 204 || len(data) != 0 {
					r.Fail("response:no-content", "%s: answered %d with %d bytes", what, res.StatusCode, len(data))
				}
				r.Count("no_content", 1)
				continue
			}
			if res.StatusCode != 200 {
				r.Fail("response:status", "%s: answered %d", what, res.StatusCode)
			}
			if ct := res.Header.Get("Content-Type"); ct != "application/json" {
				r.Fail("response:content-type", "%s: Content-Type %q", what, ct)
			}
			enc := res.Header.Get("Content-Encoding")
			if enc == "gzip" && !admits {
				r.Fail("response:encoding", "%s: Content-Encoding %q", what, enc)
			}
			if enc == "gzip" {
				r.Count("gzipped", 1)
				z, err := gzip.NewReader(bytes.NewReader(data))
				if err == nil {
					data, err = io.ReadAll(z)
				}
				if err != nil {
					r.Fail("response:gzip", "%s: %v", what, err)
				}
			} else if enc != "" {
				r.Fail("response:encoding", "%s: Content-Encoding %q", what, enc)
			}
			if !bytes.Equal(data, x.out) {
				r.Fail("response:body", "%s: %d bytes arrived, and they differ", what, len(data))
			}
			r.Count("bodies_compared", 1)
		}
	})
}

// genAcceptEncoding gives the lines of an Accept-Encoding header, and whether they admit gzip.
func genAcceptEncoding(g *rand.Rand) (lines []string, admits bool) {
	if g.Intn(4) == 0 {
		return nil, false // nothing said: other codings are possible, but nothing asks for one
	}
	names := []string{"gzip", "*", "br", "deflate", "identity", "zstd", "gzip-9", "notgzip", "agzip"}
	g.Shuffle(len(names), func(i, j int) { names[i], names[j] = names[j], names[i] })
	explicit, star, mention := 0, 0, 1
	line := ""
	for _, n := range names[:g.Intn(5)] {
		zero := g.Intn(3) == 0
		mention = 1
		if zero {
			mention = -1
		}
		switch n {
		case "gzip":
			explicit = mention
		case "*":
			star = mention
		}
		if g.Intn(6) == 0 {
			n = strings.ToUpper(n)
		}
		sp := func() string { return []string{"", "", " ", "\t"}[g.Intn(4)] }
		q := []string{"", "1", "1.0", "0.5", "0.001", "0.999"}[g.Intn(6)]
		if zero {
			q = []string{"0", "0.0", "0.00", "0.000", "0."}[g.Intn(5)]
		}
		if q != "" {
			n += sp() + ";" + sp() + []string{"q", "q", "Q"}[g.Intn(3)] + "=" + q
		}
		if line != "" && g.Intn(5) == 0 {
			lines, line = append(lines, line), ""
		}
		if line != "" {
			line += sp() + "," + sp()
		}
		line += n
	}
	lines = append(lines, line)
	return lines, explicit > 0 || explicit == 0 && star > 0
}

// c16Broken: requests whose body does not come in full, with a client that is still there to hear about it.
func c16Broken(r *R, base string, sc *scripts) {
	addr := strings.TrimPrefix(base, "http://")
	r.Par("broken", "requests that break off", 4, func(w int) {
		g := r.Sub("broken", w)
		for i := 0; i < r.N(40, 1500); i++ {
			id := fmt.Sprintf("broken-%d-%d", w, i)
			x := &script{out: []byte("{}")}
			sc.put(id, x)
			head := "POST /h HTTP/1.1\r\nHost: x\r\nX-Case: " + id + "\r\n"
			n := 1 + g.Intn([]int{10, 600, 5000, 100000}[g.Intn(4)])
			body := string(genBytes(g, n))
			k := g.Intn(n)
			how := ""
			switch g.Intn(5) {
			case 0:
				how = fmt.Sprintf("%d of %d bytes", k, n)
				head += fmt.Sprintf("Content-Length: %d\r\n\r\n%s", n, body[:k])
			case 1:
				how = fmt.Sprintf("%d bytes of a chunk of %d", k, n)
				head += fmt.Sprintf("Transfer-Encoding: chunked\r\n\r\n%x\r\n%s", n, body[:k])
			case 2:
				how = fmt.Sprintf("a chunk of %d bytes but no end", n)
				head += fmt.Sprintf("Transfer-Encoding: chunked\r\n\r\n%x\r\n%s\r\n", n, body)
			case 3:
				how = fmt.Sprintf("a chunk of %d bytes and then one of no size", n)
				head += fmt.Sprintf("Transfer-Encoding: chunked\r\n\r\n%x\r\n%s\r\nzz\r\n", n, body)
			case 4:
				how = fmt.Sprintf("a chunk of %d bytes that goes on", n)
				head += fmt.Sprintf("Transfer-Encoding: chunked\r\n\r\n%x\r\n%s+\r\n0\r\n\r\n", n, body)
			}
			conn, err := net.Dial("tcp", addr)
			if err != nil {
				r.HarnessError("%v", err)
				return
			}
			_ = conn.SetDeadline(time.Now().Add(30 * time.Second))
			_, _ = io.WriteString(conn, head)
			_ = conn.(*net.TCPConn).CloseWrite()
			r.Eval(how)
			res, err := http.ReadResponse(bufio.NewReader(conn), nil)
			if err != nil {
				r.Fail("request:broken-unanswered", "%s: no answer: %v", how, err)
			} else if res.StatusCode < 400 || res.StatusCode > 499 {
				r.Fail("request:broken-status", "%s: answered %d", how, res.StatusCode)
			}
			conn.Close()
			if x.runs.Load() != 0 {
				r.Fail("request:broken-runs", "%s: the function ran with %d bytes", how, len(x.got.Load().([]byte)))
			}
			r.Count("broken_requests", 1)
		}
	})
}

// ---------------------------------------------------------------- C17

type c17Op struct {
	R  api.Request `url:"/op"`
	ID string      `api:"in,required" json:"id"`

	sc *scripts
}

func (this *c17Op) Do(c ctx.C) error {
	v, _ := this.sc.m.Load(this.ID)
	x := v.(*script)
	x.runs.Add(1)
	if x.pan {
		panic(x.err)
	}
	return x.err
}

type customErr struct{ err error }

func (e customErr) Error() string { return "custom: " + e.err.Error() }
func (e customErr) Unwrap() error { return e.err }

// genError builds an error by random wrapping; code is the outermost status in it (0 if none).
func genError(g *rand.Rand, c ctx.C, secret string, depth int) (err error, code int, shape string) {
	if depth <= 0 || g.Intn(5) == 0 {
		switch g.Intn(6) {
		case 5: // no status was given
			if g.Intn(4) == 0 {
				return fhttp.Error{}, 0, "nothing"
			}
			return fhttp.Error{Err: errors.New("cause " + secret)}, 0, "no status"
		case 0:
			code = genStatus(g)
			return fhttp.Error{Code: code}, code, fmt.Sprint(code)
		case 1:
			code = genStatus(g)
			return fhttp.NewErrorf(c, code, "cause %s", secret), code, fmt.Sprint(code, "f")
		case 2:
			return ctx.NewErrorf(c, "cause %s", secret), 0, "ctx"
		default:
			return errors.New("cause \"" + secret + "\" <é>"), 0, "plain"
		}
	}
	err, code, shape = genError(g, c, secret, depth-1)
	switch g.Intn(8) {
	case 7:
		return fhttp.Error{Err: err}, code, "0(" + shape + ")"
	case 0:
		return fmt.Errorf("layer%d: %w", depth, err), code, "w(" + shape + ")"
	case 1:
		return ctx.NewErrorf(c, "layer%d: %w", depth, err), code, "c(" + shape + ")"
	case 2:
		code = genStatus(g)
		return fhttp.Error{Code: code, Err: err}, code, fmt.Sprintf("%d(%s)", code, shape)
	case 3:
		code = genStatus(g)
		return fhttp.NewErrorf(c, code, "layer%d: %w", depth, err), code, fmt.Sprintf("%df(%s)", code, shape)
	case 4:
		return errors.Join(errors.New("other"), err), code, "j(" + shape + ")"
	case 5:
		return customErr{err}, code, "u(" + shape + ")"
	default:
		return fmt.Errorf("opaque: %v", err), 0, "v(" + shape + ")" // no longer wraps
	}
}

func genStatus(g *rand.Rand) int {
	switch g.Intn(12) {
	case 0, 1, 2, 3:
		return 500 + g.Intn(100)
	case 4: // unusual, yet statuses
		return 600 + g.Intn(400)
	case 5:
		return []int{201, 202, 203, 206, 226, 299, 300, 301, 302, 303, 307, 308, 399}[g.Intn(13)]
	}
	return 400 + g.Intn(100)
}

func c17(r *R) {
	c := quietCtx()
	var sc scripts
	base := httpServer(r, c, func(s *fhttp.Server) {
		s.HandleRequest("/h", sc.handle)
		if _, err := s.RegisterAPI(c, &c17Op{sc: &sc}); err != nil {
			r.Fail("errors:register", "%v", err)
		}
		fhttp.CallHandler{Path: "/call/", Handler: func(c ctx.C, call *fhttp.Call) error { return fmt.Errorf("no case") }}.Register(s)
		for i := 0; i < 40; i++ {
			id := fmt.Sprintf("call-%d", i)
			g := r.Sub("call", i)
			x := &script{}
			x.err, _, _ = genError(g, c, "SECRET-"+id, 4)
			sc.put(id, x)
			fhttp.CallHandler{Path: "/call/" + id, Handler: func(c ctx.C, call *fhttp.Call) error {
				x.runs.Add(1)
				call.Write([]byte("partial SECRET-" + id))
				return x.err
			}}.Register(s)
		}
	})
	cli := rawClient()
	var tids sync.Map
	judge := func(what, id, secret string, want int, msg string, jsonBody, tracked bool, res *http.Response, data []byte) {
		if res.StatusCode != want {
			r.Fail("errors:status", "%s: answered %d, expected %d", what, res.StatusCode, want)
			return
		}
		if want >= 500 {
			r.Count("internal_errors", 1)
			var h bytes.Buffer
			_ = res.Header.Write(&h)
			if all := string(data) + h.String(); strings.Contains(all, secret) || strings.Contains(all, "layer") || strings.Contains(all, "cause") {
				r.Fail("errors:leak", "%s: the answer leaks internals: %q", what, all)
			}
		}
		if !jsonBody {
			if bytes.Contains(data, []byte("SECRET")) {
				r.Fail("errors:partial", "%s: failed, but answered %q", what, data)
			}
			return
		}
		var m map[string]any
		if err := json.Unmarshal(data, &m); err != nil {
			r.Fail("errors:body", "%s: answered %q: %v", what, data, err)
			return
		}
		if want < 500 {
			r.Count("client_errors", 1)
			if m["error"] != msg {
				r.Fail("errors:message", "%s: reports %q, the error is %q", what, m["error"], msg)
			}
		} else if _, ok := m["error"]; ok {
			r.Fail("errors:leak", "%s: answered %s", what, data)
		}
		tid, _ := m["tracking"].(string)
		if tid == "" {
			r.Fail("errors:tracking", "%s: no tracking id: %s", what, data)
		} else if _, dup := tids.LoadOrStore(tid, id); dup {
			r.Fail("errors:tracking-reused", "%s: tracking id %q given to another request", what, tid)
		}
		if tracked {
			if v, ok := sc.m.Load(id); ok {
				if t, _ := v.(*script).tid.Load().(string); t != tid {
					r.Fail("errors:tracking-differs", "%s: handler saw tracking id %q, client got %q", what, t, tid)
				}
			}
		}
	}
	per := r.N(150, 4000)
	r.Par("errors", "failing requests", 8, func(w int) {
		g := r.Sub("w", w)
		for i := 0; i < per; i++ {
			id := fmt.Sprintf("%d-%d", w, i)
			secret := "SECRET-" + id
			x := &script{out: []byte("partial " + secret)}
			var code int
			var shape string
			x.err, code, shape = genError(g, c, secret, g.Intn(5))
			if code == 0 {
				code = 500
			}
			if got := fhttp.ErrorCode(x.err, 999); got != code && !(got == 999 && code == 500) {
				r.Fail("errors:code", "ErrorCode of %s is %d, expected %d", shape, got, code)
			}
			sc.put(id, x)
			var req *http.Request
			op := g.Intn(2) == 0
			if op {
				req, _ = http.NewRequest("POST", base+"/op", strings.NewReader(`{"id":"`+id+`"}`))
			} else {
				req, _ = http.NewRequest("POST", base+"/h", nil)
				req.Header.Set("X-Case", id)
			}
			what := fmt.Sprintf("error %s (%q)", shape, x.err)
			r.Eval(shape + fmt.Sprint(op))
			if g.Intn(2) == 0 { // what others call the request is not what it is called here
				for _, h := range []string{"X-Request-Id", "X-Tracking", "X-Tracking-Id", "Tracking", "X-Correlation-Id", "Traceparent", "X-Trace-Id", "Request-Id"} {
					req.Header.Set(h, "4bf92f3577b34da6a3ce929d0e0e4736")
				}
			}
			if w == 0 && i < 3 {
				r.Sample("%s", what)
			}
			res, err := cli.Do(req)
			if err != nil {
				r.Fail("errors:transport", "%s: %v", what, err)
				continue
			}
			data, _ := io.ReadAll(res.Body)
			res.Body.Close()
			judge(what, id, secret, code, x.err.Error(), true, !op, res, data)
			if n := x.runs.Load(); n != 1 {
				r.Fail("errors:runs", "%s: ran %d times", what, n)
			}
			if i%20 == 0 { // a panic ends that request only
				x := &script{pan: true, err: errors.New("PANIC-" + secret)}
				sc.put(id+"p", x)
				if op {
					req, _ = http.NewRequest("POST", base+"/op", strings.NewReader(`{"id":"`+id+`p"}`))
				} else {
					req, _ = http.NewRequest("POST", base+"/h", nil)
					req.Header.Set("X-Case", id+"p")
				}
				r.Count("panics", 1)
				if res, err := cli.Do(req); err == nil {
					data, _ := io.ReadAll(res.Body)
					res.Body.Close()
					if res.StatusCode < 500 || bytes.Contains(data, []byte("SECRET")) {
						r.Fail("errors:panic", "a panicking handler answered %d %q", res.StatusCode, data)
					}
				}
			}
		}
	})
	for i := 0; i < 40; i++ {
		id := fmt.Sprintf("call-%d", i)
		_, code, shape := genError(r.Sub("call", i), c, "SECRET-"+id, 4)
		if code == 0 {
			code = 500
		}
		r.Eval("call" + shape)
		res, err := cli.Post(base+"/call/"+id, "application/json", strings.NewReader("{}"))
		if err != nil {
			r.Fail("errors:transport", "call %s: %v", shape, err)
			continue
		}
		data, _ := io.ReadAll(res.Body)
		res.Body.Close()
		judge("call failing with "+shape, id, "SECRET-"+id, code, "", false, false, res, data)
	}
}

// ---------------------------------------------------------------- C18

type c18Rec struct {
	mu   sync.Mutex
	runs map[string]int
}

func (this *c18Rec) add(k string) {
	this.mu.Lock()
	this.runs[k]++
	this.mu.Unlock()
}
func (this *c18Rec) total() (t int) {
	this.mu.Lock()
	defer this.mu.Unlock()
	for _, n := range this.runs {
		t += n
	}
	return t
}
func (this *c18Rec) n(k string) int {
	this.mu.Lock()
	defer this.mu.Unlock()
	return this.runs[k]
}

type c18Op struct {
	R  api.Request `url:"/v1/calc"`
	R2 api.Request `url:"/v2/calc"`

	Rec *c18Rec

	Name string         `api:"in,required" json:"name"`
	N    int64          `api:"in" json:"n"`
	F    []float64      `api:"in" json:"f"`
	M    map[string]int `api:"both" json:"m"`
	Opt  *bool          `api:"both" json:"opt"`
	Sub  *c18Sub        `api:"both" json:"sub"`
	UID  string         `api:"auth" json:"uid"`

	Sum  float64 `api:"out" json:"sum"`
	Echo string  `api:"out" json:"echo"`
	Who  string  `api:"out" json:"who"`
}
type c18Sub struct {
	A string    `json:"a"`
	T time.Time `json:"t"`
	L []*c18Sub `json:"l"`
}

func (this *c18Op) Do(c ctx.C) error {
	this.Rec.add(this.Name)
	this.Sum = float64(this.N)
	for _, f := range this.F {
		this.Sum += f
	}
	this.Echo = this.Name + "!"
	this.Who = this.UID
	for k := range this.M {
		this.M[k]++
	}
	return nil
}

// c18Fail ends the way it is told to.
type c18Free struct { // asks for nothing
	R    api.Request `url:"/free"`
	Rec  *c18Rec
	Name string `api:"in" json:"name"`
	N    int    `api:"in" json:"n"`
	Out  string `api:"out" json:"out"`
}

func (this *c18Free) Do(c ctx.C) error {
	this.Rec.add("free:" + this.Name)
	this.Out = this.Name + "!"
	return nil
}

type c18Fail struct {
	R    api.Request `url:"/fail"`
	Rec  *c18Rec
	Name string `api:"in,required" json:"name"`
	How  string `api:"in" json:"how"`
	Code int    `api:"in" json:"code"`
	In   any    `api:"in" json:"in"`
	Out  any    `api:"out" json:"out"`
	Text string `api:"out" json:"text"`
}

func (this *c18Fail) Do(c ctx.C) error {
	this.Rec.add(this.Name)
	this.Text = "half done"
	switch this.How {
	case "status":
		return fhttp.NewErrorf(c, this.Code, "no")
	case "wrapped":
		return ctx.NewErrorf(c, "around: %w", fhttp.NewErrorf(c, this.Code, "no"))
	case "plain":
		return fmt.Errorf("no")
	case "NaN":
		this.Out = math.NaN()
	case "chan":
		this.Out = map[string]any{"x": []any{make(chan int)}}
	case "refuses":
		this.Out = c06Err{}
	case "itself":
		m := map[string]any{}
		m["m"] = m
		this.Out = m
	default:
		this.Out, this.Text = "fine", "done"
	}
	return nil
}

type c18Undoc struct {
	R api.Request `url:"/undoc"`
	X chan int    `api:"out"`
}

func (*c18Undoc) Do(ctx.C) error { return nil }

type c18NoURL struct {
	In string `api:"in"`
}

func (*c18NoURL) Do(ctx.C) error { return nil }

type c18Silent struct {
	R   api.Request `url:"/silent"`
	Rec *c18Rec
	In  string `api:"in" json:"in"`
}

func (this *c18Silent) Do(ctx.C) error { this.Rec.add("silent"); return nil }

func c18(r *R) {
	c := quietCtx()
	rec := &c18Rec{runs: map[string]int{}}
	base := httpServer(r, c, func(s *fhttp.Server) {
		if _, err := s.RegisterAPI(c, &c18Op{Rec: rec}); err != nil {
			r.Fail("rpc:register", "%v", err)
		}
		if _, err := s.RegisterAPI(c, &c18Silent{Rec: rec}); err != nil {
			r.Fail("rpc:register", "%v", err)
		}
		if _, err := s.RegisterAPI(c, &c18Free{Rec: rec}); err != nil {
			r.Fail("rpc:register", "%v", err)
		}
		if _, err := s.RegisterAPI(c, &c18Fail{Rec: rec}); err != nil {
			r.Fail("rpc:register", "%v", err)
		}
		if _, err := s.RegisterAPI(c, &c18NoURL{}); err == nil {
			r.Fail("rpc:register-no-url", "an operation without url was registered")
		}
		if _, err := s.RegisterAPI(c, &c18Undoc{}); err == nil {
			r.Fail("rpc:register-undoc", "an operation whose response cannot be written was registered")
		}
	})
	u, _ := url.Parse(base)
	per := r.N(120, 4000)
	r.Par("rpc", "calls", 8, func(w int) {
		g := r.Sub("w", w)
		cli := fhttp.Client{BaseUrl: u}
		raw := rawClient()
		for i := 0; i < per; i++ {
			name := fmt.Sprintf("w%d-%d", w, i)
			op := &c18Op{Name: name, N: g.Int63n(1 << 40)}
			for k := g.Intn(4); k > 0; k-- {
				op.F = append(op.F, float64(g.Intn(1000))/4)
			}
			if g.Intn(2) == 0 {
				op.M = map[string]int{genString(g): g.Intn(100), "é": 1}
			}
			if g.Intn(2) == 0 {
				op.Opt = ptrTo(g.Intn(2) == 0)
			}
			if g.Intn(2) == 0 {
				op.Sub = &c18Sub{A: genString(g), T: time.Unix(g.Int63n(2e9), g.Int63n(1e9)).UTC(), L: []*c18Sub{nil, {A: "x", T: time.Unix(1, 2).UTC()}}}
			}
			want := *op
			want.Sum = float64(op.N)
			for _, f := range op.F {
				want.Sum += f
			}
			want.Echo = name + "!"
			if op.M != nil {
				want.M = map[string]int{}
				for k, v := range op.M {
					want.M[k] = v + 1
				}
			}
			r.Eval(dump(want))
			if w == 0 && i < 2 {
				r.Sample("%s", dump(want))
			}
			if err := cli.API(c, op); err != nil {
				r.Fail("rpc:error", "%+v: %v", want, err)
				continue
			}
			a, _ := json.Marshal(want)
			b, _ := json.Marshal(op)
			if !bytes.Equal(a, b) {
				r.Fail("rpc:result", "called with the result expected to be %s, got %s", a, b)
			}
			if n := rec.n(name); n != 1 {
				r.Fail("rpc:runs", "one call ran the operation %d times", n)
			}
			r.Count("calls", 1)

			// raw requests
			name += "-raw"
			good := fmt.Sprintf(`{"name":%q,"n":%d,"f":[1,2.5],"uid":"root","who":"root","sum":77,"Rec":{"runs":{}}}`, name, g.Intn(1000))
			body, refuse, why := good, false, "well-formed"
			switch g.Intn(9) {
			case 0:
				body, refuse, why = good[:1+g.Intn(len(good)-2)], true, "cut"
			case 1:
				body = mutateBytes(g, good)
				std, err := decodeStd([]byte(body))
				m, isObj := std.(map[string]any)
				why = "mutated"
				if err != nil || !isObj {
					refuse = body != ""
					if body == "" {
						refuse = true // name is required
					}
				} else if s, ok := m["name"].(string); !ok || s == "" {
					refuse = true
				} else if s != name {
					continue
				} else {
					// whether the rest fits is not decided here
					why = ""
				}
			case 2:
				body, refuse, why = strings.Replace(good, `"name":`, `"other":`, 1), true, "required field missing"
			case 3:
				body, refuse, why = strings.Replace(good, `"f":[1,2.5]`, `"f":{"a":1}`, 1), true, "object for a list"
			case 4:
				body, refuse, why = strings.Replace(good, `"f":[1,2.5]`, `"n":"x"`, 1), true, "string for a number"
			case 5:
				body, refuse, why = []string{"[]", "1", `"x"`, "null", "true", "", "  ", "{", good + "x", good + good}[g.Intn(10)], true, "not one object"
			case 6:
				body, refuse, why = strings.Replace(good, name, "", 1), true, "required field empty"
			}
			path := []string{"/v1/calc", "/v2/calc"}[g.Intn(2)]
			r.Eval("raw" + body)
			res, err := raw.Post(base+path, "application/json", strings.NewReader(body))
			if err != nil {
				r.Fail("rpc:transport", "%s body %q: %v", why, body, err)
				continue
			}
			data, _ := io.ReadAll(res.Body)
			res.Body.Close()
			if why == "" {
				if res.StatusCode >= 500 {
					r.Fail("rpc:refusal-status", "body %q answered %d %s", body, res.StatusCode, data)
				}
				continue
			}
			if refuse {
				r.Count("refused", 1)
				if res.StatusCode < 400 || res.StatusCode > 499 {
					r.Fail("rpc:refusal-status", "%s body %q answered %d %s, expected a client error", why, body, res.StatusCode, data)
				}
				if n := rec.n(name) + rec.n(""); n != 0 {
					r.Fail("rpc:ran-refused", "%s body %q: the operation ran", why, body)
				}
				continue
			}
			var out struct {
				Sum  float64
				Echo string
				Who  string
				N    *int64
				Name *string
			}
			if err := json.Unmarshal(data, &out); err != nil || res.StatusCode != 200 || out.Echo != name+"!" {
				r.Fail("rpc:raw-result", "body %q answered %d %s", body, res.StatusCode, data)
			}
			if out.Who != "" {
				r.Fail("rpc:identity-from-payload", "body %q: the operation ran as %q", body, out.Who)
			}
			if out.N != nil || out.Name != nil {
				r.Fail("rpc:input-in-response", "body %q answered %s", body, data)
			}
			if n := rec.n(name); n != 1 {
				r.Fail("rpc:runs", "body %q: ran %d times", body, n)
			}
		}
	})
	// bodies that never arrive in full
	for i := 0; i < r.N(24, 300); i++ {
		g := r.Sub("trunc", i)
		name := fmt.Sprintf("trunc-%d", i)
		body := fmt.Sprintf(`{"name":%q,"n":1}`, name)
		r.Eval("trunc" + name)
		r.Within("rpc:truncated", "truncated body", func() {
			conn, err := net.Dial("tcp", u.Host)
			if err != nil {
				r.HarnessError("%v", err)
				return
			}
			defer conn.Close()
			if g.Intn(2) == 0 {
				fmt.Fprintf(conn, "POST /v1/calc HTTP/1.1\r\nHost: x\r\nContent-Length: %d\r\n\r\n%s", len(body)+1+g.Intn(10), body)
			} else {
				fmt.Fprintf(conn, "POST /v1/calc HTTP/1.1\r\nHost: x\r\nTransfer-Encoding: chunked\r\n\r\n%x\r\n%s\r\n", len(body), body)
			}
			_ = conn.(*net.TCPConn).CloseWrite()
			_ = conn.SetReadDeadline(time.Now().Add(20 * time.Second))
			all, _ := io.ReadAll(conn) // the server is done with it
			if len(all) > 0 && !bytes.HasPrefix(all, []byte("HTTP/1.1 4")) {
				r.Fail("rpc:refusal-status", "a body that was cut short is answered %q", cut(string(all), 100))
			}
			if n := rec.n(name); n != 0 {
				r.Fail("rpc:ran-truncated", "the body of the request was cut short, and the operation ran")
			}
			r.Count("truncated", 1)
		})
	}
	// an operation which requires nothing still wants an object
	free := rawClient()
	for i := 0; i < r.N(150, 2000); i++ {
		g := r.Sub("free", i)
		name := fmt.Sprintf("f%d", i)
		body, ok := fmt.Sprintf(`{"name":%q}`, name), true
		switch g.Intn(3) {
		case 0:
			body, name = "{}", ""
		case 1:
			body, ok = []string{"[]", "1", `"x"`, `""`, "null", "true", "0", "-1", "{", "x", "}", "[", "{}}", "{}{}", "{},", `{"name":[]}`, `{"n":"1"}`, `{"n":{}}`, `[{}]`, "{\"n\":1", "\x00", "{}x"}[g.Intn(22)], false
		}
		r.Eval("free" + body)
		before, total := rec.n("free:"+name), rec.total()
		res, err := free.Post(base+"/free", "application/json", strings.NewReader(body))
		if err != nil {
			r.Fail("rpc:transport", "%q: %v", body, err)
			continue
		}
		data, _ := io.ReadAll(res.Body)
		res.Body.Close()
		ran := rec.n("free:"+name) - before
		switch {
		case ok && (ran != 1 || res.StatusCode != 200 || strings.TrimSpace(string(data)) != fmt.Sprintf(`{"out":"%s!"}`, name)):
			r.Fail("rpc:free", "body %q: ran %d times, answered %d %s", body, ran, res.StatusCode, data)
		case !ok && (rec.total() != total || res.StatusCode < 400 || res.StatusCode > 499):
			r.Fail("rpc:free", "body %q was not refused: answered %d %s", body, res.StatusCode, data)
		}
		r.Count("free", 1)
	}
	// operations that fail, or whose result cannot be written
	for i := 0; i < r.N(120, 2000); i++ {
		g := r.Sub("fail", i)
		how := []string{"status", "wrapped", "plain", "NaN", "chan", "refuses", "itself", "fine"}[i%8]
		code := genStatus(g)
		op := &c18Fail{Name: fmt.Sprintf("fail-%d", i), How: how, Code: code, Out: "before", Text: "before"}
		r.Eval(fmt.Sprint("fail", how, code))
		r.Within("rpc:fail", how, func() {
			err := fhttp.Client{BaseUrl: u}.API(c, op)
			if n := rec.n(op.Name); n != 1 {
				r.Fail("rpc:runs", "an operation that ends with %s ran %d times", how, n)
			}
			if how == "fine" {
				if err != nil || op.Out != "fine" || op.Text != "done" {
					r.Fail("rpc:result", "got %v and %+v", err, op)
				}
				return
			}
			if how != "status" && how != "wrapped" {
				code = 500
			}
			if err == nil {
				r.Fail("rpc:failure-lost", "the operation failed (%s), the client saw no error", how)
			} else if got := fhttp.ErrorCode(err, 0); got != code {
				r.Fail("rpc:failure-status", "%s: the error %q carries code %d, want %d", how, err, got, code)
			}
			if op.Out != "before" || op.Text != "before" {
				r.Fail("rpc:failure-result", "%s: the failed operation left %v and %q in the client's object", how, op.Out, op.Text)
			}
			r.Count("failures", 1)
		})
	}
	// requests that cannot be written, or have nowhere to go
	for i := 0; i < r.N(60, 1000); i++ {
		g := r.Sub("unsendable", i)
		itself := map[string]any{}
		itself["m"] = []any{itself}
		in := []any{math.NaN(), math.Inf(-1), make(chan int), []any{1, func() {}}, map[string]any{"x": c06Err{}}, itself, complex(1, 2)}[i%7]
		op := &c18Fail{Name: fmt.Sprintf("unsendable-%d-%d", i, g.Int63()), In: in, Out: "before", Text: "before"}
		r.Eval(fmt.Sprint("unsendable", i%7))
		r.Within("rpc:unsendable", fmt.Sprintf("request with %T", in), func() {
			err := fhttp.Client{BaseUrl: u}.API(c, op)
			if err == nil || rec.n(op.Name) != 0 {
				r.Fail("rpc:unsendable", "a request field holds a %T: error %v, ran %d times", in, err, rec.n(op.Name))
			}
			if op.Out != "before" || op.Text != "before" {
				r.Fail("rpc:unsendable", "a request field holds a %T: response fields are now %v %q", in, op.Out, op.Text)
			}
			r.Count("unsendable", 1)
		})
	}
	if err := (fhttp.Client{BaseUrl: u}).API(c, &c18NoURL{In: "x"}); err == nil {
		r.Fail("rpc:nowhere", "an operation without url could be called")
	}
	// no response fields: success still, nothing but an object or nothing at all
	cli := fhttp.Client{BaseUrl: u}
	if err := cli.API(c, &c18Silent{In: "x"}); err != nil || rec.n("silent") != 1 {
		r.Fail("rpc:silent", "an operation without response fields: %v, ran %d times", err, rec.n("silent"))
	}
	// what is served as documentation lists the operations
	b, err := fhttp.DefaultClient.Get(c, base+"/openapi.json")
	var doc struct {
		Paths map[string]any
	}
	if err != nil || json.Unmarshal(b, &doc) != nil || doc.Paths["/v1/calc"] == nil || doc.Paths["/v2/calc"] == nil || doc.Paths["/silent"] == nil {
		r.Fail("rpc:openapi", "/openapi.json: %v %s", err, b)
	}
}

// ---------------------------------------------------------------- C19

func promText(t string) map[string]float64 {
	out := map[string]float64{}
	for _, l := range strings.Split(t, "\n") {
		if l == "" || l[0] == '#' {
			continue
		}
		i := strings.LastIndex(l, " ")
		v, err := strconv.ParseFloat(l[i+1:], 64)
		if err != nil {
			v = -1
		}
		out[l[:i]] = v
	}
	return out
}

// requestCounts: (method, path, code) -> observations.
func requestCounts() map[string]float64 {
	var b bytes.Buffer
	_ = fhttp.Metrics.Request.Print("x", &b)
	out := map[string]float64{}
	for k, v := range promText(b.String()) {
		if s, ok := strings.CutPrefix(k, "x_count{"); ok {
			out[strings.TrimSuffix(s, "}")] = v
		}
	}
	return out
}

// c19Script does what its path tells: -h503 sets a status, -w5 writes 5 bytes, -f flushes, -e copies from a
// reader.
func c19Script(w http.ResponseWriter, r *http.Request) {
	_, script, _ := strings.Cut(r.URL.Path, "/m/s/")
	for _, op := range strings.Split(script, "-") {
		if op == "" {
			continue
		}
		n, _ := strconv.Atoi(op[1:])
		switch op[0] {
		case 'h':
			w.WriteHeader(n)
		case 'w':
			_, _ = w.Write(bytes.Repeat([]byte("w"), n))
		case 'f':
			_ = http.NewResponseController(w).Flush()
		case 'e':
			_, _ = io.Copy(w, strings.NewReader(strings.Repeat("e", n)))
		}
	}
}

func genC19Script(g *rand.Rand) string {
	var b strings.Builder
	for n := g.Intn(5); n >= 0; n-- {
		switch g.Intn(6) {
		case 0, 1:
			fmt.Fprintf(&b, "-h%d", []int{200, 201, 202, 204, 304, 400, 404, 500, 503, 103, 102, 599, 299, 302, 600, 999}[g.Intn(16)])
		case 2, 3:
			fmt.Fprintf(&b, "-w%d", []int{0, 0, 1, 5, 3000, 5000}[g.Intn(6)])
		case 4:
			b.WriteString("-f")
		case 5:
			fmt.Fprintf(&b, "-e%d", []int{0, 1, 5000}[g.Intn(3)])
		}
	}
	return b.String()
}

func c19(r *R) {
	c := quietCtx()
	type beh struct {
		path   string
		status int
		body   string
		h      http.HandlerFunc
	}
	behs := []beh{
		{"/m/body", 200, "hello", func(w http.ResponseWriter, r *http.Request) { _, _ = io.WriteString(w, "hello") }},
		{"/m/nothing", 200, "", func(w http.ResponseWriter, r *http.Request) {}},
		{"/m/status", 404, "gone", func(w http.ResponseWriter, r *http.Request) { w.WriteHeader(404); _, _ = io.WriteString(w, "gone") }},
		{"/m/500", 503, "", func(w http.ResponseWriter, r *http.Request) { w.WriteHeader(503) }},
		{"/m/twice", 201, "x", func(w http.ResponseWriter, r *http.Request) {
			w.WriteHeader(201)
			w.WriteHeader(500)
			_, _ = io.WriteString(w, "x")
		}},
		{"/m/late", 200, "x", func(w http.ResponseWriter, r *http.Request) { _, _ = io.WriteString(w, "x"); w.WriteHeader(500) }},
		{"/m/hints", 404, "no", func(w http.ResponseWriter, r *http.Request) {
			w.Header().Set("Link", "</a.css>; rel=preload")
			w.WriteHeader(103)
			w.WriteHeader(404)
			_, _ = io.WriteString(w, "no")
		}},
		{"/m/body-echo", 202, "", func(w http.ResponseWriter, r *http.Request) {
			b, _ := io.ReadAll(r.Body)
			w.Header().Set("X-Len", fmt.Sprint(len(b)))
			w.WriteHeader(202)
		}},
	}
	hijack := func(header, controller bool) http.HandlerFunc {
		return func(w http.ResponseWriter, req *http.Request) {
			var conn net.Conn
			var err error
			if header { // as some libraries do
				w.Header().Set("Connection", "Upgrade")
				w.Header().Set("Upgrade", "verif")
				w.WriteHeader(101)
			}
			if controller {
				conn, _, err = http.NewResponseController(w).Hijack()
			} else if h, ok := w.(http.Hijacker); ok {
				conn, _, err = h.Hijack()
			} else {
				err = fmt.Errorf("not a hijacker")
			}
			if err != nil {
				r.Fail("metrics:hijack", "%v", err)
				return
			}
			if !header {
				fmt.Fprintf(conn, "HTTP/1.1 101 Switching Protocols\r\nConnection: Upgrade\r\nUpgrade: verif\r\n\r\n")
			}
			fmt.Fprintf(conn, "switched")
			conn.Close()
			r.Count("hijacked", 1)
		}
	}
	behs = append(behs, beh{"/m/switch", 101, "", func(w http.ResponseWriter, r *http.Request) { w.WriteHeader(101) }}) // and that is all
	behs = append(behs, beh{"/m/hijack", 101, "switched", hijack(false, false)}, beh{"/m/hijack-c", 101, "switched", hijack(false, true)}, beh{"/m/hijack-h", 101, "switched", hijack(true, false)})
	wh := &ws.RpcHandler{}
	wh.MustRegister(c, &WsLog{Limit: 3})
	var base string
	base = httpServer(r, c, func(s *fhttp.Server) {
		s.Handle("/m/ws", wh.Server())
		for i, b := range behs {
			if i%2 == 0 {
				s.HandleFunc(b.path, b.h)
			} else {
				s.Handle(b.path, b.h)
			}
			s.Mux().HandleFunc("/mux"+b.path, b.h)
		}
		s.HandleFunc("/m/s/", c19Script)
		s.HandleRequest("/m/req", func(c ctx.C, in []byte, _ *http.Request) ([]byte, error) {
			if len(in) > 0 {
				return nil, fhttp.NewErrorf(c, 418, "no")
			}
			return []byte("{}"), nil
		})
	})
	// the same scripted handler on a server of the standard library tells what the client has to see
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		r.HarnessError("listen: %v", err)
		return
	}
	plain := &http.Server{Handler: http.HandlerFunc(c19Script)}
	go func() { _ = plain.Serve(ln) }()
	defer plain.Close()
	cli := rawClient()
	want := map[string]float64{}
	var mu sync.Mutex
	before := requestCounts()
	key := func(method, path string, code int) string {
		return fmt.Sprintf("method=%q,path=%q,code=\"%d\"", method, path, code)
	}
	per := r.N(60, 2000)
	r.Par("metrics", "requests", 8, func(w int) {
		g := r.Sub("w", w)
		for i := 0; i < per; i++ {
			b := behs[g.Intn(len(behs))]
			method := []string{"GET", "POST", "PUT", "GET", "POST", "PATCH", "get", "Put", "M-X", "OPTIONS"}[g.Intn(10)]
			path, status, body := b.path, b.status, b.body
			send := ""
			switch g.Intn(8) {
			case 6, 7:
				path = "/m/s/" + []string{"", "", "", "%C3%A9", "a%20b", "%22q%22", "+"}[g.Intn(7)] + genC19Script(g)
				req, _ := http.NewRequest(method, "http://"+ln.Addr().String()+path, nil)
				res, err := cli.Do(req)
				if err != nil {
					r.HarnessError("%s on a plain server: %v", path, err)
					continue
				}
				data, _ := io.ReadAll(res.Body)
				res.Body.Close()
				status, body = res.StatusCode, string(data)
				r.Count("scripted_handlers", 1)
			case 0:
				path = "/mux" + path
			case 5:
				if g.Intn(3) == 0 { // a websocket is one request, measured when it ends
					w, err := dialWS(base, "/m/ws")
					if err != nil {
						r.Fail("metrics:transport", "websocket: %v", err)
						continue
					}
					if g.Intn(2) == 0 {
						_ = w.frame(map[string]any{"channel": "x", "path": "WsLog", "type": "open"})
						_, _ = w.recv()
					}
					w.conn.Close()
					r.Eval(fmt.Sprint("ws", i%10))
					r.Count("websockets", 1)
					mu.Lock()
					want[key("GET", "/m/ws", 101)]++
					mu.Unlock()
					continue
				}
			case 1:
				path, status, body = "/m/req", 200, "{}"
				if g.Intn(2) == 0 && method != "GET" {
					send, status, body = "x", 418, ""
				}
			case 2:
				path, status, body = []string{"/live", "/nowhere", "/m/unknown"}[g.Intn(3)], 404, ""
				if path == "/live" {
					status = 204
				}
			}
			req, _ := http.NewRequest(method, base+path, strings.NewReader(send))
			res, err := cli.Do(req)
			if err != nil {
				r.Fail("metrics:transport", "%s %s: %v", method, path, err)
				continue
			}
			data, _ := io.ReadAll(res.Body)
			res.Body.Close()
			r.Eval(fmt.Sprint(method, path, status, i%10, w))
			if res.StatusCode != status || (body != "" || strings.HasPrefix(path, "/m/s/")) && string(data) != body {
				r.Fail("metrics:response", "%s %s: the handler answers %d %q, the client got %d %q", method, path, status, body, res.StatusCode, data)
			}
			mu.Lock()
			path = req.URL.Path
			want[key(method, path, status)]++
			mu.Unlock()
		}
	})
	// The observation is made after the response: wait until the total is reached, then a little more.
	total := func(m map[string]float64) (t float64) {
		for _, v := range m {
			t += v
		}
		return
	}
	var after map[string]float64
	for i := 0; i < 100; i++ {
		after = requestCounts()
		if total(after)-total(before) >= total(want) {
			break
		}
		time.Sleep(50 * time.Millisecond)
	}
	time.Sleep(200 * time.Millisecond)
	after = requestCounts()
	for k, n := range want {
		if got := after[k] - before[k]; got != n {
			r.Fail("metrics:count", "%s: %v requests, %v observed", k, n, got)
		}
		r.Count("series", 1)
		r.Sample("%s observed %v times", k, n)
	}
	for k, v := range after {
		if _, ok := want[k]; !ok && v != before[k] {
			r.Fail("metrics:extra", "%s: observed %v times, requested never", k, v-before[k])
		}
	}
	r.Count("requests", int64(total(want)))
}

// ---------------------------------------------------------------- C20

type c20OpA struct {
	R  api.Request `url:"/op/a"`
	In string      `api:"in"`
}
type c20OpB struct {
	R  api.Request        `url:"/op/b"`
	R2 api.Request        `url:"/op/b2"`
	M  map[string]*c20OpB `api:"out"`
}
type c20OpC struct {
	R api.Request `url:"/op/c"`
}

func (*c20OpA) Do(ctx.C) error { return nil }
func (*c20OpB) Do(ctx.C) error { return nil }
func (*c20OpC) Do(ctx.C) error { return nil }

var c20Ops = []fhttp.Doable{&c20OpA{}, &c20OpB{}, &c20OpC{}}

func c20URLs(op fhttp.Doable) []string {
	switch op.(type) {
	case *c20OpA:
		return []string{"/op/a"}
	case *c20OpB:
		return []string{"/op/b", "/op/b2"}
	}
	return []string{"/op/c"}
}

func c20(r *R) {
	c := quietCtx()
	var srv *fhttp.Server
	inside, release := make(chan struct{}, 100), make(chan struct{})
	defer close(release)
	base := httpServer(r, c, func(s *fhttp.Server) {
		srv = s
		s.SetupPrometheus(c, "")
		s.SetupPrometheus(c, "/own/metrics")
		s.SetupMonitoring(c, "/mon")
		s.HandleFunc("/stuck", func(w http.ResponseWriter, r *http.Request) {
			inside <- struct{}{}
			<-release
		})
		s.HandleRequest("/x", func(c ctx.C, in []byte, r *http.Request) ([]byte, error) { return nil, nil })
	})
	cli := rawClient()
	get := func(path string) (int, []byte) {
		res, err := cli.Get(base + path)
		if err != nil {
			r.Fail("probe:transport", "%s: %v", path, err)
			return 0, nil
		}
		b, _ := io.ReadAll(res.Body)
		res.Body.Close()
		return res.StatusCode, b
	}
	if s, _ := get("/ready"); s != 204 {
		r.Fail("probe:ready-default", "/ready answers %d on a new server", s)
	}
	codes := []int{204, 503, 200, 500, 429, 404}
	// sequential: exactly the last code set
	for i := 0; i < r.N(60, 1000); i++ {
		code := codes[r.Rng.Intn(len(codes))]
		srv.SetReady(code)
		r.Eval(fmt.Sprint("seq", i, code))
		if s, _ := get("/ready"); s != code {
			r.Fail("probe:ready", "readiness set to %d, /ready answers %d", code, s)
		}
		if s, _ := get("/live"); s != 204 {
			r.Fail("probe:live", "/live answers %d while readiness is %d", s, code)
		}
	}
	// what is registered later is described as well
	registered := map[string]string{"/x": "post", "/stuck": ""}
	describes := func(when string) {
		s, b := get("/openapi.json")
		var doc struct {
			OpenAPI string
			Info    map[string]any
			Paths   map[string]map[string]any
		}
		if err := json.Unmarshal(b, &doc); s != 200 || err != nil || doc.OpenAPI == "" || doc.Info["title"] != srv.OpenAPI.Info.Title {
			r.Fail("probe:openapi", "%s /openapi.json answers %d %q %v", when, s, cut(string(b), 300), err)
			return
		}
		for p, m := range registered {
			if got, ok := doc.Paths[p]; !ok || m != "" && got[m] == nil {
				r.Fail("probe:openapi-path", "%s %s is registered, /openapi.json says %v of it", when, p, got)
			}
		}
		if len(doc.Paths) != len(registered) {
			r.Fail("probe:openapi-path", "%s %d paths are registered, /openapi.json has %d", when, len(registered), len(doc.Paths))
		}
		r.Count("documents", 1)
	}
	describes("at first")
	for i := 0; i < r.N(30, 300); i++ {
		g := r.Sub("late", i)
		p := fmt.Sprintf("/late/%d", i)
		switch g.Intn(4) {
		case 0:
			srv.HandleRequest(p, func(c ctx.C, in []byte, r *http.Request) ([]byte, error) { return nil, nil })
			registered[p] = "post"
		case 1:
			srv.HandleFunc(p, func(w http.ResponseWriter, r *http.Request) {})
			registered[p] = ""
		case 2:
			if i > 20 { // types made up as we go
				break
			}
			op := c20Ops[i%len(c20Ops)]
			for _, u := range c20URLs(op) {
				if registered[u] != "" {
					op = nil
				}
			}
			if op == nil {
				break
			}
			if _, err := srv.RegisterAPI(c, op); err != nil {
				r.Fail("probe:register", "%T: %v", op, err)
			}
			for _, u := range c20URLs(op) {
				registered[u] = "post"
			}
		case 3:
			srv.OpenAPI.Info.Title = fmt.Sprintf("service %d", i)
		}
		r.Eval(fmt.Sprint("late", len(registered), i))
		describes(fmt.Sprintf("after %d registrations", i+1))
	}
	for _, p := range []string{"/metrics", "/own/metrics", "/mon/goroutines", "/mon/pprof/", "/mon/pprof/cmdline", "/mon/pprof/symbol", "/mon/pprof/profile?seconds=1", "/mon/pprof/trace?seconds=1"} {
		if s, b := get(p); s != 200 || len(b) == 0 {
			r.Fail("probe:monitoring", "%s answers %d with %d bytes", p, s, len(b))
		}
	}
	// a document that cannot be written is not one
	pi := srv.HandleRequest("/unwritable", func(c ctx.C, in []byte, r *http.Request) ([]byte, error) { return nil, nil })
	for _, x := range []any{make(chan int), math.NaN(), func() {}, []any{c06Err{}}} {
		pi.RequestBody.Content["application/json"].Schema.Example = x
		if s, b := get("/openapi.json"); s < 500 {
			r.Fail("probe:openapi", "with an example that is a %T /openapi.json answers %d %q", x, s, cut(string(b), 100))
		}
	}
	pi.RequestBody.Content["application/json"].Schema.Example = nil
	registered["/unwritable"] = "post"
	describes("with the example removed")
	// handlers stuck
	for i := 0; i < 40; i++ {
		go func() {
			if res, err := rawClient().Get(base + "/stuck"); err == nil {
				res.Body.Close()
			}
		}()
	}
	for i := 0; i < 40; i++ {
		<-inside
	}
	if s, b := get("/mon/goroutines"); s != 200 || !bytes.Contains(b, []byte("goroutine profile")) {
		r.Fail("probe:monitoring", "with stuck handlers /mon/goroutines answers %d %q", s, cut(string(b), 100))
	}
	if s, b := get("/metrics"); s != 200 || !bytes.Contains(b, []byte("# TYPE")) {
		r.Fail("probe:monitoring", "with stuck handlers /metrics answers %d %q", s, cut(string(b), 100))
	}
	// handlers stuck, readiness flapping: probes still answer
	var stop atomic.Bool
	var hist [600]atomic.Int64
	srv.SetReady(204)
	r.Par("probe", "probes under load", 9, func(w int) {
		if w == 0 {
			g := r.Sub("flap", 0)
			for !stop.Load() {
				srv.SetReady(codes[g.Intn(len(codes))])
				time.Sleep(time.Millisecond)
			}
			return
		}
		for i := 0; i < r.N(60, 2000); i++ {
			switch w % 3 {
			case 0:
				s, _ := get("/ready")
				ok := false
				for _, k := range codes {
					ok = ok || k == s
				}
				if !ok {
					r.Fail("probe:ready", "/ready answers %d, never set", s)
				} else {
					hist[s].Add(1)
					r.Eval(fmt.Sprint("ready", s, i%7))
				}
			case 1:
				if s, b := get("/live"); s != 204 || len(b) != 0 {
					r.Fail("probe:live", "/live answers %d %q", s, b)
				}
				r.Eval(fmt.Sprint("live", i))
			case 2:
				s, b := get("/openapi.json")
				var doc struct {
					OpenAPI string
					Paths   map[string]any
				}
				if err := json.Unmarshal(b, &doc); s != 200 || err != nil || doc.OpenAPI == "" || len(doc.Paths) != len(registered) {
					r.Fail("probe:openapi", "/openapi.json answers %d %q %v", s, b, err)
				}
				r.Eval(fmt.Sprint("openapi", i))
			}
		}
		if w == 8 {
			stop.Store(true)
		}
	})
	distinct := 0
	for i := range hist {
		if hist[i].Load() > 0 {
			distinct++
		}
	}
	r.Count("ready_codes_seen", int64(distinct))
	r.Sample("%d readiness codes seen under flapping", distinct)
}

// ---------------------------------------------------------------- C21

type c21In struct {
	Seed    int64
	Clients int
	Signal  bool
	Late    bool // Listen after the shutdown has begun
	Long    int  // ms, how long the first request takes
	Up      int  // ms, how long the server has been up
	Cancel  bool // a second signal
}
type c21Out struct {
	Problems []string
	Finished int
	Events   int
	Refused  bool
}

func init() { scenarios["c21"] = c21Scenario }

func c21Scenario(j []byte) any {
	var in c21In
	_ = json.Unmarshal(j, &in)
	c := quietCtx()
	c, cf := ctx.WithCancel(c)
	defer cf(nil)
	g := rand.New(rand.NewSource(in.Seed))
	var mu sync.Mutex
	out := c21Out{}
	bad := func(f string, args ...any) {
		mu.Lock()
		out.Problems = append(out.Problems, fmt.Sprintf(f, args...))
		mu.Unlock()
	}
	s := fhttp.NewServer(c)
	var running, finished atomic.Int64
	gate := make(chan struct{})
	entered := make(chan struct{}, in.Clients)
	s.HandleRequest("/slow", func(c ctx.C, body []byte, _ *http.Request) ([]byte, error) {
		running.Add(1)
		entered <- struct{}{}
		<-gate
		d, _ := strconv.Atoi(string(body))
		time.Sleep(time.Duration(d) * time.Millisecond)
		finished.Add(1)
		running.Add(-1)
		return bytes.Repeat([]byte("x"), 100000), nil
	})
	if in.Late {
		shutdown.Begin()
		type res struct{ err error }
		ch := make(chan res, 1)
		go func() {
			_, err := s.Listen(c, "127.0.0.1:0")
			ch <- res{err}
		}()
		select {
		case x := <-ch:
			out.Events++
			_ = x
		case <-time.After(20 * time.Second):
			bad("Listen called when the shutdown had begun never returned")
		}
		select {
		case <-shutdown.Done():
			out.Events++
		case <-time.After(20 * time.Second):
			bad("the shutdown never completed")
		}
		return out
	}
	addr, err := s.Listen(c, "127.0.0.1:0")
	if err != nil {
		bad("listen: %v", err)
		return out
	}
	if in.Up > 0 { // the server has been up, and used, for a while
		b, err := fhttp.DefaultClient.Get(c, "http://"+addr.String()+"/live")
		if err != nil {
			bad("/live: %v %s", err, b)
		}
		time.Sleep(time.Duration(in.Up) * time.Millisecond)
	}
	var waiter chan struct{}
	if in.Signal {
		waiter = make(chan struct{})
		go func() {
			shutdown.WaitForSignal(c, cf)
			close(waiter)
		}()
	}
	var clients sync.WaitGroup
	var answered atomic.Int64
	delays := make([]int, in.Clients)
	for i := range delays {
		delays[i] = g.Intn(150)
	}
	if in.Long > 0 {
		delays[0] = in.Long
	}
	for i := 0; i < in.Clients; i++ {
		clients.Add(1)
		go func(i int) {
			defer clients.Done()
			cli := &http.Client{Transport: &http.Transport{DisableKeepAlives: i%2 == 0}, Timeout: 30 * time.Second}
			res, err := cli.Post("http://"+addr.String()+"/slow", "text/plain", strings.NewReader(strconv.Itoa(delays[i])))
			if err != nil {
				bad("request %d in flight when the shutdown began: %v", i, err)
				return
			}
			b, err := io.ReadAll(res.Body)
			res.Body.Close()
			if err != nil || res.StatusCode != 200 || len(b) != 100000 {
				bad("request %d in flight when the shutdown began was answered %d with %d bytes, %v", i, res.StatusCode, len(b), err)
				return
			}
			answered.Add(1)
		}(i)
	}
	for i := 0; i < in.Clients; i++ {
		<-entered
	}
	select {
	case <-shutdown.Done():
		bad("shutdown complete before it began, with a server listening")
	case <-time.After(20 * time.Millisecond):
	}
	if in.Signal {
		_ = syscall.Kill(os.Getpid(), syscall.SIGTERM)
	} else {
		shutdown.Begin()
	}
	<-shutdown.Started()
	done := shutdown.Done()
	if in.Signal {
		done = waiter
	}
	// no new connection is served for long
	deadline := time.Now().Add(20 * time.Second)
	for {
		conn, err := net.DialTimeout("tcp", addr.String(), time.Second)
		if err != nil {
			out.Refused = true
			break
		}
		conn.Close()
		if time.Now().After(deadline) {
			bad("new connections still accepted 20 s after the shutdown began")
			break
		}
		time.Sleep(5 * time.Millisecond)
	}
	time.Sleep(time.Duration(g.Intn(60)) * time.Millisecond)
	select {
	case <-done:
		bad("shutdown complete while %d requests are being handled", running.Load())
	default:
	}
	close(gate)
	select {
	case <-done:
		if n := running.Load(); n != 0 {
			bad("shutdown complete while %d requests are being handled", n)
		}
		out.Finished = int(finished.Load())
	case <-time.After(25*time.Second + time.Duration(in.Long)*time.Millisecond):
		bad("the shutdown never completed although every handler returned (%d running)", running.Load())
	}
	// the responses had been handed over before completion: clients get them in full
	clients.Wait()
	out.Events = int(answered.Load())
	return out
}

func c21(r *R) {
	n := r.N(14, 120)
	var wg sync.WaitGroup
	sem := make(chan struct{}, 6)
	for i := 0; i < n; i++ {
		in := c21In{Seed: r.Seed*1000 + int64(i), Clients: 1 + i%7, Signal: i%3 == 1, Late: i%6 == 5}
		if i < 2 { // one request takes long, but less than the 30 s a server waits for
			in.Long = []int{12000, 7000}[i]
			if r.Tier == "thorough" {
				in.Long = []int{26000, 16000}[i]
			}
		}
		if i == 2 || i == 3 && r.Tier == "thorough" { // longer up than any timeout there is
			in.Up = []int{31500, 65000}[i-2]
		}
		wg.Add(1)
		sem <- struct{}{}
		go func() {
			defer wg.Done()
			defer func() { <-sem }()
			r.Eval(fmt.Sprint(in))
			res := r.Scenario("c21", in, 80*time.Second+time.Duration(in.Up)*time.Millisecond, nil)
			r.Races(res.Races, fmt.Sprintf("server shutting down %+v", in))
			if res.TimedOut {
				r.Fail("shutdown:hang", "%+v: the process never ended\n%s", in, tail(res.Stderr, 3000))
				return
			}
			var out c21Out
			if err := json.Unmarshal(res.Out, &out); err != nil {
				r.Fail("shutdown:crash", "%+v: exit %d %s\n%s", in, res.Exit, res.Signal, tail(res.Stderr, 3000))
				return
			}
			for _, p := range out.Problems {
				r.Fail("shutdown:graceful", "%+v: %s", in, p)
			}
			r.Count("requests_in_flight_answered", int64(out.Events))
			r.Sample("%+v -> %+v", in, out)
		}()
	}
	wg.Wait()
}

// ---------------------------------------------------------------- C22

type c22Op struct {
	R   api.Request `url:"/api"`
	In  string      `api:"in" json:"in"`
	Out string      `api:"out" json:"out"`
}

func (*c22Op) Do(ctx.C) error { return nil }

func c22(r *R) {
	c := quietCtx()
	var open, accepted atomic.Int64
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		r.HarnessError("%v", err)
		return
	}
	stall := make(chan struct{})
	hs := &http.Server{
		ConnState: func(conn net.Conn, st http.ConnState) {
			switch st {
			case http.StateNew:
				open.Add(1)
				accepted.Add(1)
			case http.StateClosed, http.StateHijacked:
				open.Add(-1)
			}
		},
		Handler: http.HandlerFunc(func(w http.ResponseWriter, req *http.Request) {
			sent, _ := io.ReadAll(req.Body)
			q := req.URL.Query()
			if want := q.Get("method"); want != "" && (req.Method != want || want == "POST" && (string(sent) != "{}" || !strings.HasPrefix(req.Header.Get("Content-Type"), "application/json")) || want == "GET" && len(sent) > 0) {
				r.Fail("client:request", "a %s arrives as %s with %q of type %q", want, req.Method, sent, req.Header.Get("Content-Type"))
			}
			size, _ := strconv.Atoi(q.Get("size"))
			body := bytes.Repeat([]byte("b"), size)
			switch q.Get("mode") {
			case "stall":
				select {
				case <-stall:
				case <-req.Context().Done():
				}
				return
			case "stallbody":
				w.Header().Set("Content-Length", "1000")
				_, _ = w.Write([]byte("some"))
				w.(http.Flusher).Flush()
				select {
				case <-stall:
				case <-req.Context().Done():
				}
				return
			case "cut":
				if size%2 == 0 { // or in chunks, without the last one
					w.Header().Set("Content-Length", fmt.Sprint(size+10))
				}
				_, _ = w.Write(body)
				w.(http.Flusher).Flush()
				panic(http.ErrAbortHandler)
			case "drop":
				panic(http.ErrAbortHandler)
			}
			if code, _ := strconv.Atoi(q.Get("code")); code != 0 {
				w.WriteHeader(code)
			}
			if q.Get("code") != "204" && q.Get("code") != "304" {
				if s := q.Get("text"); s != "" {
					body = []byte(s)
				}
				_, _ = w.Write(body)
			}
		}),
	}
	go func() { _ = hs.Serve(ln) }()
	base := "http://" + ln.Addr().String()
	cli := fhttp.Client{}
	call := func(c ctx.C, post bool, q string) ([]byte, error) {
		if post {
			return cli.Post(c, base+"/x?method=POST&"+q, []byte("{}"))
		}
		return cli.Get(c, base+"/x?method=GET&"+q)
	}
	// every status
	for i := 0; i < r.N(400, 6000); i++ {
		g := r.Sub("status", i)
		code := 200 + g.Intn([]int{400, 400, 800}[g.Intn(3)])
		switch g.Intn(4) {
		case 0:
			code = []int{200, 200, 204, 201, 202, 304, 400, 401, 404, 409, 500, 502, 503}[g.Intn(13)]
		}
		size := []int{0, 1, 100, 5000, 200000}[g.Intn(5)]
		post := g.Intn(2) == 0
		q := fmt.Sprintf("code=%d&size=%d", code, size)
		r.Eval(fmt.Sprint(q, post))
		r.Within("client", q, func() {
			b, err := call(c, post, q)
			switch {
			case code == 200:
				if err != nil || len(b) != size || len(bytes.Trim(b, "b")) != 0 {
					r.Fail("client:body", "%s: got %d bytes, %v", q, len(b), err)
				}
			case code == 204:
				if err != nil || len(b) != 0 {
					r.Fail("client:204", "got %q, %v", b, err)
				}
			default:
				if err == nil {
					r.Fail("client:status-ignored", "%s: no error, %d bytes", q, len(b))
				} else if got := fhttp.ErrorCode(err, 0); got != code {
					r.Fail("client:status-code", "%s: the error %q carries code %d", q, err, got)
				}
			}
		})
		r.Max("connections_open_max", open.Load())
	}
	time.Sleep(50 * time.Millisecond)
	if n := open.Load(); n > 8 {
		r.Fail("client:connection-leak", "after sequential requests %d connections are open (%d were made)", n, accepted.Load())
	}
	r.Sample("%d connections made, %d open after sequential requests", accepted.Load(), open.Load())
	// operations
	for i := 0; i < r.N(300, 4000); i++ {
		g := r.Sub("api", i)
		u, _ := url.Parse(base)
		acli := fhttp.Client{BaseUrl: u}
		mode := []string{"ok", "204", "500", "404", "garbage", "list", "cut", "mistyped", "empty"}[g.Intn(9)]
		q := map[string]string{"ok": `code=200&text={"out":"done","in":"evil"}`, "204": "code=204", "500": "code=500&size=30000", "404": "code=404&text={}", "garbage": "code=200&text={{",
			"list": "code=200&text=[]", "cut": "mode=cut&size=3", "mistyped": `code=200&text={"out":{"a":1}}`, "empty": "code=200&size=0"}[mode]
		front := scriptFront(q)
		u2, _ := url.Parse(front.url)
		acli.BaseUrl = u2
		op := &c22Op{In: "in", Out: "before"}
		r.Eval(fmt.Sprint("api", mode, i%20))
		r.Within("client:api", mode, func() {
			err := acli.API(c, op)
			ok := mode == "ok" || mode == "204" || mode == "empty"
			if (err == nil) != ok {
				r.Fail("client:api-error", "%s: %v", mode, err)
			}
			if mode == "500" || mode == "404" {
				if code := fhttp.ErrorCode(err, 0); fmt.Sprint(code) != mode {
					r.Fail("client:api-code", "%s: the error %q carries code %d", mode, err, code)
				}
			}
			want := "before"
			if mode == "ok" {
				want = "done"
			}
			if (ok || mode == "500" || mode == "404") && (op.Out != want || op.In != "in") {
				r.Fail("client:api-object", "%s: the object is %+v", mode, op)
			}
		})
	}
	time.Sleep(50 * time.Millisecond)
	if n := open.Load(); n > 8 {
		r.Fail("client:connection-leak", "after operations %d connections are open (%d were made)", n, accepted.Load())
	}
	frontServer.mu.Lock()
	n := len(frontServer.conns)
	frontServer.mu.Unlock()
	if n > 40 {
		r.Fail("client:connection-leak", "after sequential operations %d connections to the server are open", n)
	}
	// an operation without url, and an address nobody listens on
	r.Guard("client:no-url", func() string { return "Client.API of an operation without url" }, func() {
		if err := cli.API(c, &c18NoURL{}); err == nil {
			r.Fail("client:no-url-accepted", "no error")
		}
		u, _ := url.Parse(base)
		if err := (fhttp.Client{BaseUrl: u}).API(c, &c18NoURL{}); err == nil {
			r.Fail("client:no-url-accepted", "no error")
		}
	})
	dead, _ := net.Listen("tcp", "127.0.0.1:0")
	addr := dead.Addr().String()
	dead.Close()
	if _, err := cli.Get(c, "http://"+addr+"/"); err == nil {
		r.Fail("client:refused", "no error from a closed port")
	}
	// cut and dropped responses
	for i := 0; i < r.N(40, 400); i++ {
		g := r.Sub("cut", i)
		q := []string{"mode=cut&size=100", "mode=drop", "mode=cut&size=0", "mode=cut&size=100000", "mode=cut&size=101", "mode=cut&size=100001"}[g.Intn(6)]
		r.Eval(fmt.Sprint(q, i))
		r.Within("client:cut", q, func() {
			if b, err := call(c, g.Intn(2) == 0, q); err == nil {
				r.Fail("client:truncated", "%s: the response was cut short, and %d bytes were returned without error", q, len(b))
			}
		})
	}
	// cancellation
	for i := 0; i < r.N(24, 300); i++ {
		g := r.Sub("cancel", i)
		q := []string{"mode=stall", "mode=stallbody"}[g.Intn(2)]
		r.Eval(fmt.Sprint(q, i))
		r.Within("client:cancel", q+", context cancelled", func() {
			c2, cf := ctx.WithCancel(c)
			time.AfterFunc(time.Duration(g.Intn(30))*time.Millisecond, func() { cf(nil) })
			_, err := call(c2, g.Intn(2) == 0, q)
			if err == nil || !errors.Is(err, context.Canceled) {
				r.Fail("client:cancel-error", "%s: %v", q, err)
			}
			r.Count("cancelled", 1)
		})
	}
	for i := 0; i < 200 && open.Load() > 8; i++ {
		time.Sleep(20 * time.Millisecond)
	}
	if n := open.Load(); n > 8 {
		r.Fail("client:connection-leak", "after cancelled requests %d connections are open (%d were made)", n, accepted.Load())
	}
	// concurrent calls do not mix up
	r.Par("client:concurrent", "concurrent calls", 8, func(w int) {
		for i := 0; i < r.N(60, 1000); i++ {
			text := fmt.Sprintf("w%d-%d", w, i)
			b, err := call(c, i%2 == 0, "code=200&text="+text)
			if err != nil || string(b) != text {
				r.Fail("client:mixed-up", "expected %q, got %q, %v", text, b, err)
			}
		}
	})
	r.Count("connections_made", accepted.Load())
}

// scriptFront gives the address of a server that answers everything as the script says, one per script.
type front struct{ url string }

var frontServer = struct {
	mu    sync.Mutex
	bases map[string]string
	conns map[net.Conn]bool
}{bases: map[string]string{}, conns: map[net.Conn]bool{}}

func scriptFront(script string) front {
	frontServer.mu.Lock()
	defer frontServer.mu.Unlock()
	if b := frontServer.bases[script]; b != "" {
		return front{b}
	}
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	v := map[string]string{}
	for _, kv := range strings.Split(script, "&") {
		k, x, _ := strings.Cut(kv, "=")
		v[k] = x
	}
	size, _ := strconv.Atoi(v["size"])
	body := bytes.Repeat([]byte("b"), size)
	if v["text"] != "" {
		body = []byte(v["text"])
	}
	hs := &http.Server{
		ConnState: func(conn net.Conn, st http.ConnState) {
			frontServer.mu.Lock()
			defer frontServer.mu.Unlock()
			switch st {
			case http.StateNew:
				frontServer.conns[conn] = true
			case http.StateClosed:
				delete(frontServer.conns, conn)
			}
		},
		Handler: http.HandlerFunc(func(w http.ResponseWriter, req *http.Request) {
			_, _ = io.ReadAll(req.Body)
			if v["mode"] == "cut" {
				w.Header().Set("Content-Length", fmt.Sprint(len(body)+10))
				_, _ = w.Write(body)
				w.(http.Flusher).Flush()
				panic(http.ErrAbortHandler)
			}
			if code, _ := strconv.Atoi(v["code"]); code != 0 {
				w.WriteHeader(code)
				if code == 204 {
					return
				}
			}
			_, _ = w.Write(body)
		}),
	}
	go func() { _ = hs.Serve(ln) }()
	frontServer.bases[script] = "http://" + ln.Addr().String()
	return front{frontServer.bases[script]}
}

// ---------------------------------------------------------------- C23

// chunkReader hands out its chunks one Read at a time; the last one may come with the error.
type chunkReader struct {
	chunks [][]byte
	err    error
	with   bool // the error comes with the last chunk
	stall  chan struct{}
	delay  time.Duration
	closed atomic.Int64
}

func (this *chunkReader) Read(b []byte) (int, error) {
	if this.delay > 0 {
		time.Sleep(this.delay)
	}
	for {
		if len(this.chunks) == 0 {
			if this.stall != nil {
				<-this.stall
			}
			return 0, this.err
		}
		n := copy(b, this.chunks[0])
		this.chunks[0] = this.chunks[0][n:]
		if len(this.chunks[0]) == 0 {
			this.chunks = this.chunks[1:]
			if len(this.chunks) == 0 && this.with && this.stall == nil {
				return n, this.err
			}
		}
		return n, nil
	}
}

func c23(r *R) {
	c := quietCtx()
	errBoom := errors.New("boom")
	var keep keeper
	defer keep.check(r, "readall:kept")
	r.Par("readall", "concurrent reads", 4, func(w int) {
		for i := 0; i < r.N(100, 2000); i++ {
			g := r.Sub("par", w*100000+i)
			want := genBytes(g, g.Intn(20000))
			got, err := utils.ReadAll(c, &chunkReader{chunks: [][]byte{bytes.Clone(want)}, err: io.EOF}, nil)
			if err != nil || !bytes.Equal(got, want) {
				r.Fail("readall:data", "concurrent read of %d bytes gave %d, %v", len(want), len(got), err)
			}
			if w == 0 && i%16 == 0 {
				keep.Bytes(got, "%d bytes read", len(got))
			}
		}
	})
	for i := 0; i < r.N(1500, 30000); i++ {
		if i%100 == 99 {
			keep.check(r, "readall:kept")
		}
		g := r.Sub("read", i)
		rd := &chunkReader{err: io.EOF, with: g.Intn(2) == 0}
		var want []byte
		for k := g.Intn(6); k > 0; k-- {
			ch := genBytes(g, []int{0, 1, 5, 100, 8191, 8192, 8193, 20000}[g.Intn(8)])
			rd.chunks = append(rd.chunks, ch)
			want = append(want, ch...)
		}
		if g.Intn(3) == 0 {
			rd.err = errBoom
		}
		what := fmt.Sprintf("%d bytes in %d chunks, ending with %v (together with the last chunk: %v)", len(want), len(rd.chunks), rd.err, rd.with)
		r.Eval(what + fmt.Sprint(i))
		r.Within("readall", what, func() {
			got, err := utils.ReadAll(c, rd, func() error { rd.closed.Add(1); return nil })
			if !bytes.Equal(got, want) {
				r.Fail("readall:data", "%s: got %d bytes", what, len(got))
			}
			keep.Bytes(got, "%s", what)
			if rd.err == io.EOF && err != nil || rd.err == errBoom && !errors.Is(err, errBoom) {
				r.Fail("readall:error", "%s: returned %v", what, err)
			}
			if n := rd.closed.Load(); n != 1 {
				r.Fail("readall:close", "%s: closed %d times", what, n)
			}
		})
	}
	// cancellation, while data keeps flowing or has stalled
	r.Par("readall", "cancelled reads", 8, func(w int) {
		for i := 0; i < r.N(12, 200); i++ {
			g := r.Sub("cancel", w*1000+i)
			rd := &chunkReader{err: io.EOF, delay: time.Duration(g.Intn(300)) * time.Microsecond}
			var want []byte
			for k := 0; k < 200; k++ {
				ch := genBytes(g, 1+g.Intn(50))
				rd.chunks = append(rd.chunks, ch)
				want = append(want, ch...)
			}
			if g.Intn(2) == 0 {
				rd.stall = make(chan struct{})
				time.AfterFunc(200*time.Millisecond, func() { close(rd.stall) })
			}
			c2, cf := ctx.WithCancel(c)
			time.AfterFunc(time.Duration(g.Intn(20000))*time.Microsecond, func() { cf(nil) })
			got, err := utils.ReadAll(c2, rd, func() error { rd.closed.Add(1); return nil })
			if err == nil && (rd.stall != nil || len(got) != len(want)) {
				r.Fail("readall:cancel", "cancelled read returned %d of %d bytes and no error", len(got), len(want))
			}
			if err != nil && !errors.Is(err, context.Canceled) {
				r.Fail("readall:cancel-error", "%v", err)
			}
			if !bytes.HasPrefix(want, got) {
				r.Fail("readall:data", "cancelled read returned %d bytes which are not what was read so far", len(got))
			}
			sum := 0
			for _, b := range got { // the caller owns it
				sum += int(b)
			}
			if n := rd.closed.Load(); n != 1 {
				r.Fail("readall:close", "cancelled read closed %d times", n)
			}
			r.Eval(fmt.Sprint("cancel", w, i, len(got)))
			r.Count("cancelled_reads", 1)
			time.Sleep(time.Millisecond)
			for i := range got {
				got[i] = 0
			}
		}
	})

	// CallHandler
	type outcome struct {
		write [][]byte
		set   []byte
		err   error
	}
	var runs atomic.Int64
	var next atomic.Value
	next.Store(outcome{})
	base := httpServer(r, c, func(s *fhttp.Server) {
		h := func(c ctx.C, call *fhttp.Call) error {
			runs.Add(1)
			o := next.Load().(outcome)
			var scratch []byte // of the handler, to use again
			for _, w := range o.write {
				scratch = append(scratch[:0], w...)
				call.Write(scratch)
			}
			for i := range scratch {
				scratch[i] = '#'
			}
			if o.set != nil {
				call.SetBody(append([]byte{}, o.set...))
			}
			return o.err
		}
		fhttp.CallHandler{Path: "/call", Handler: h}.Register(s)
		fhttp.CallHandler{Path: "/small", MaxLength: 1000, Handler: h}.Register(s)
		fhttp.CallHandler{Path: "/quick", ReadTimeout: 300 * time.Millisecond, Handler: h}.Register(s)
	})
	cli := rawClient()
	for i := 0; i < r.N(200, 3000); i++ {
		g := r.Sub("call", i)
		o := outcome{}
		var want []byte
		for k := g.Intn(3); k > 0; k-- {
			b := genBytes(g, g.Intn(3000))
			o.write = append(o.write, b)
			want = append(want, b...)
		}
		if g.Intn(4) == 0 {
			o.set = genBytes(g, g.Intn(100))
			want = o.set
		}
		status := 200
		if len(want) == 0 {
			status = 204
		}
		if g.Intn(4) == 0 {
			status = genStatus(g)
			o.err = fhttp.NewErrorf(c, status, "failed")
			want = nil
		}
		next.Store(o)
		path, ok := "/call", true
		size := g.Intn(2000)
		switch g.Intn(8) {
		case 0, 1:
			path = "/small"
			size = []int{0, 999, 1000, 1001, 5000}[g.Intn(5)]
			ok = size <= 1000
		case 2:
			size = 900000
		case 3:
			size, ok = 3<<20, false
		}
		before := runs.Load()
		what := fmt.Sprintf("%s with a body of %d bytes", path, size)
		r.Eval(what + fmt.Sprint(status, len(want)))
		res, err := cli.Post(base+path, "text/plain", bytes.NewReader(make([]byte, size)))
		if err != nil {
			if ok {
				r.Fail("call:transport", "%s: %v", what, err)
			}
			continue
		}
		data, _ := io.ReadAll(res.Body)
		res.Body.Close()
		ran := runs.Load() - before
		if !ok {
			if ran != 0 || res.StatusCode < 400 || res.StatusCode > 499 {
				r.Fail("call:oversize", "%s: handler ran %d times, answered %d", what, ran, res.StatusCode)
			}
			r.Count("oversize_refused", 1)
			continue
		}
		if ran != 1 || res.StatusCode != status || !bytes.Equal(data, want) {
			r.Fail("call:response", "%s: handler ran %d times, answered %d with %d bytes, expected %d with %d bytes", what, ran, res.StatusCode, len(data), status, len(want))
		}
	}
	// a body that stalls
	next.Store(outcome{})
	r.Par("call:stalled", "stalled bodies", 4, func(w int) {
		u, _ := url.Parse(base)
		conn, err := net.Dial("tcp", u.Host)
		if err != nil {
			r.HarnessError("%v", err)
			return
		}
		defer conn.Close()
		before := runs.Load()
		fmt.Fprintf(conn, "POST /quick HTTP/1.1\r\nHost: x\r\nContent-Length: 100\r\n\r\n%s", "some"[:w])
		t0 := time.Now()
		_ = conn.SetReadDeadline(time.Now().Add(15 * time.Second))
		b := make([]byte, 64)
		n, err := conn.Read(b)
		r.Eval(fmt.Sprint("stall", w))
		if err != nil || !strings.HasPrefix(string(b[:n]), "HTTP/1.1 4") {
			r.Fail("call:read-timeout", "a body stalled after %d bytes, ReadTimeout 300ms: after %v got %q, %v", w, time.Since(t0).Round(time.Second), b[:n], err)
		}
		if runs.Load() != before {
			r.Fail("call:ran-stalled", "the handler ran without the whole body")
		}
		r.Count("stalled_refused", 1)
	})
}

var _ = enc.Nil{}
