package main

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"log/slog"
	"math/rand"
	"net"
	"net/http"
	"net/http/httptrace"
	"strings"
	"sync"
	"time"

	"github.com/Aize-Public/forego/api"
	"github.com/Aize-Public/forego/ctx"
	"github.com/Aize-Public/forego/ctx/log"
	"github.com/Aize-Public/forego/enc"
	fhttp "github.com/Aize-Public/forego/http"
	"github.com/Aize-Public/forego/http/ws"
)

func init() {
	reg("C56", "concurrent requests of every kind of handler (HandleRequest, operations, CallHandler, http.Handler, websocket connections and rpc objects), each with an agent (or none), path and connection of its own, logging from goroutines, spans and failures; every record and every context is compared with the request it belongs to; non-trivial: distinct (kind, behaviour, agent)", c56)
}

type traceRec struct {
	level slog.Level
	msg   string
	tags  map[string][]string
	id    string // tracking of the context
}

// traceSink collects all that is logged, with the tags of its context.
type traceSink struct {
	mu   sync.Mutex
	recs []traceRec
}

func tagsOf(c ctx.C) map[string][]string {
	out := map[string][]string{}
	_ = ctx.RangeTag(c, func(k string, j ctx.JSON) error {
		out[k] = append(out[k], string(j))
		return nil
	})
	return out
}

func (s *traceSink) log(c ctx.C, level slog.Level, src, f string, args ...any) {
	if c == nil {
		return
	}
	rec := traceRec{level: level, msg: fmt.Sprintf(f, args...), tags: tagsOf(c), id: ctx.GetTracking(c)}
	s.mu.Lock()
	s.recs = append(s.recs, rec)
	s.mu.Unlock()
}

type traceSeen struct {
	tags map[string][]string
	id   string
}

// traceHub: what handlers saw, by the case of the request.
type traceHub struct {
	mu   sync.Mutex
	seen map[string][]traceSeen
}

func (h *traceHub) at(c ctx.C, name string) {
	s := traceSeen{tagsOf(c), ctx.GetTracking(c)}
	h.mu.Lock()
	h.seen[name] = append(h.seen[name], s)
	h.mu.Unlock()
}

// handle is what every handler does: look around and log from here and there.
func (h *traceHub) handle(c ctx.C, name, how string) error {
	h.at(c, name)
	log.Infof(c, "<%s> running", name)
	if strings.Contains(how, "tag") {
		c = ctx.WithTag(c, "mine", name)
		log.Infof(c, "<%s> tagged", name)
	}
	if strings.Contains(how, "span") {
		for i := 0; i < 2; i++ {
			sc, cf := ctx.Span(c, "in "+name)
			h.at(sc, name)
			log.Debugf(sc, "<%s> in a span", name)
			cf(nil)
		}
	}
	if strings.Contains(how, "go") {
		var wg sync.WaitGroup
		for i := 0; i < 3; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				d := ctx.Detach(c)
				h.at(d, name)
				log.Infof(d, "<%s> in the background", name)
			}()
		}
		wg.Wait()
	}
	switch {
	case strings.Contains(how, "fail4"):
		return fhttp.NewErrorf(c, 418, "<%s> failed", name)
	case strings.Contains(how, "fail5"):
		return ctx.NewErrorf(c, "<%s> failed", name)
	case strings.Contains(how, "failp"):
		return errors.New("<" + name + "> failed")
	}
	return nil
}

type traceOp struct {
	R    api.Request `url:"/op/v1"`
	hub  *traceHub
	Name string `api:"in,required" json:"name"`
	How  string `api:"in" json:"how"`
	ID   string `api:"out" json:"id"`
}

func (o *traceOp) Do(c ctx.C) error {
	o.ID = ctx.GetTracking(c)
	return o.hub.handle(c, o.Name, o.How)
}

type traceMsg struct {
	Name string `json:"name"`
	How  string `json:"how"`
}

type WsTrace struct {
	Hub *traceHub
}

func (o *WsTrace) Init(c ws.C, in traceMsg) error { return o.Hub.handle(c, in.Name, in.How) }
func (o *WsTrace) Call(c ws.C, in traceMsg) error { return o.Hub.handle(c, in.Name, in.How) }

func c56(r *R) {
	sink := &traceSink{}
	hub := &traceHub{seen: map[string][]traceSeen{}}
	type rootKey struct{}
	c := log.WithLogFunc(context.WithValue(context.Background(), rootKey{}, "root"), sink.log)
	c = ctx.WithTag(c, "service", "monitored")
	fromURL := func(q *http.Request) (string, string) {
		return q.URL.Query().Get("name"), q.URL.Query().Get("how")
	}
	var calls sync.Map // name to behaviour
	rooted := func(c ctx.C) {
		if c.Value(rootKey{}) != "root" {
			r.Fail("trace:values", "a request does not see the values of the context given to Listen")
		}
	}
	base := httpServer(r, c, func(s *fhttp.Server) {
		s.HandleRequest("/hr/", func(c ctx.C, in []byte, q *http.Request) ([]byte, error) {
			rooted(c)
			name, how := fromURL(q)
			err := hub.handle(c, name, how)
			return []byte(ctx.GetTracking(c)), err
		})
		s.HandleFunc("/hf/", func(w http.ResponseWriter, q *http.Request) {
			rooted(q.Context())
			name, how := fromURL(q)
			if err := hub.handle(q.Context(), name, how); err != nil {
				w.WriteHeader(fhttp.ErrorCode(err, 500))
				return
			}
			fmt.Fprint(w, ctx.GetTracking(q.Context()))
		})
		fhttp.CallHandler{Path: "/call/", Handler: func(c ctx.C, call *fhttp.Call) error {
			rooted(c)
			name := "" // a call is told nothing but its context
			for _, j := range tagsOf(c)["path"] {
				name = strings.TrimPrefix(strings.Trim(j, `"`), "/call/")
			}
			how, _ := calls.Load(name)
			if how == nil {
				return fmt.Errorf("no call %q", name)
			}
			call.Write([]byte(ctx.GetTracking(c)))
			return hub.handle(c, name, how.(string))
		}}.Register(s)
		if _, err := s.RegisterAPI(c, &traceOp{hub: hub}); err != nil {
			r.Fail("trace:register", "%v", err)
		}
		s.Handle("/ws/", ws.Handler{OnConnect: func(c ctx.C, conn *ws.Conn) (ctx.C, error) {
			rooted(c)
			return ctx.WithTag(c, "connected", conn.SID()), nil
		}, OnData: func(c ctx.C, conn *ws.Conn, n enc.Node) error {
			var m traceMsg
			if err := enc.Unmarshal(c, n, &m); err != nil {
				return err
			}
			var sid string
			for _, j := range tagsOf(c)["ws.sid"] {
				_ = json.Unmarshal([]byte(j), &sid)
			}
			if sid == "" || sid != conn.SID() || fmt.Sprint(tagsOf(c)["connected"]) != fmt.Sprintf("[%q]", sid) {
				r.Fail("trace:sid", "connection %q: context has sid %q, and %v from OnConnect", conn.SID(), sid, tagsOf(c)["connected"])
			}
			err := hub.handle(c, m.Name, m.How)
			_ = conn.Send(c, "done")
			return err
		}}.Server())
		s.Handle("/rpc/", new(ws.RpcHandler).MustRegister(c, &WsTrace{Hub: hub}).Server())
	})
	host := strings.TrimPrefix(base, "http://")

	type wanted struct {
		name, kind, how, path, ua, remote, id string
		failed, json                          bool
	}
	var mu sync.Mutex
	var all []wanted
	hows := []string{"", "tag", "span", "go", "tag span go", "fail4", "fail5", "failp", "span fail5", "tag fail4"}
	genUA := func(g *rand.Rand, name string) string {
		ua := "ua-" + name
		if g.Intn(3) == 0 {
			ua += ` (X; "q" <é>\n) ` + strings.Repeat("z", 1+g.Intn(300))
		}
		return ua
	}
	const decoy = "0af7651916cd43dd8448eb211c80319c"
	per := r.N(300, 6000)
	r.Par("trace", "requests", 8, func(w int) {
		g := r.Sub("w", w)
		cli := &http.Client{Transport: &http.Transport{MaxIdleConnsPerHost: 4}, Timeout: 40 * time.Second}
		for i := 0; i < per; i++ {
			x := wanted{name: fmt.Sprintf("w%d-%d", w, i), how: hows[g.Intn(len(hows))]}
			x.ua = genUA(g, x.name)
			x.kind = []string{"hr", "hf", "call", "op", "ws", "rpc"}[g.Intn(6)]
			if x.kind != "ws" && x.kind != "rpc" && g.Intn(8) == 0 {
				x.ua = "" // does not say
			}
			x.failed = strings.Contains(x.how, "fail")
			r.Eval(x.kind + x.how + x.ua)
			if w == 0 && i < 3 {
				r.Sample("%s %q as %q", x.kind, x.how, x.ua)
			}
			switch x.kind {
			case "ws", "rpc":
				x.path = "/" + x.kind + "/" + x.name
				conn, err := dialWS(base, x.path, "User-Agent: "+x.ua, "X-Request-Id: "+decoy, "X-Forwarded-For: 192.0.2.1")
				if err != nil {
					r.Fail("trace:connect", "%v", err)
					continue
				}
				x.remote = conn.conn.LocalAddr().String()
				if x.kind == "ws" {
					_ = conn.frame(map[string]any{"name": x.name, "how": ""})
					_, _ = conn.recv()
					_ = conn.frame(map[string]any{"name": x.name, "how": x.how})
				} else {
					m := map[string]any{"name": x.name, "how": ""}
					_ = conn.frame(map[string]any{"type": "open", "path": "wsTrace", "channel": "c", "data": m})
					m["how"] = x.how
					_ = conn.frame(map[string]any{"path": "call", "channel": "c", "data": m})
				}
				_, _ = conn.recv()
				conn.conn.Close()
			default:
				x.path = "/" + x.kind + "/" + x.name
				var body []byte
				switch x.kind {
				case "call":
					calls.Store(x.name, x.how)
				case "op":
					x.path = "/op/v1"
					body, _ = json.Marshal(map[string]any{"name": x.name, "how": x.how})
				}
				q, _ := http.NewRequest("POST", base, bytes.NewReader(body))
				if (x.kind == "hr" || x.kind == "hf") && g.Intn(2) == 0 {
					x.path += []string{" b", "/é", "%2f", "/c;d", "+", `"q"`, "<p>", "/"}[g.Intn(8)]
				}
				q.URL.Path = x.path
				q.URL.RawQuery = "how=" + strings.ReplaceAll(x.how, " ", "+") + "&name=" + x.name
				q.Header.Set("User-Agent", x.ua)
				if g.Intn(2) == 0 { // what a client says of itself decides nothing
					for _, h := range []string{"X-Request-Id", "X-Correlation-Id", "X-Tracking-Id", "Tracking", "Tracking-Id", "Traceparent", "X-B3-Traceid"} {
						q.Header.Set(h, decoy)
					}
					for _, h := range []string{"X-Forwarded-For", "X-Real-Ip", "Forwarded", "X-Forwarded-Host", "X-Original-Url", "X-Forwarded-Prefix", "X-Forwarded-User-Agent"} {
						q.Header.Set(h, "192.0.2.1")
					}
				}
				q = q.WithContext(httptrace.WithClientTrace(q.Context(), &httptrace.ClientTrace{GotConn: func(i httptrace.GotConnInfo) {
					x.remote = i.Conn.LocalAddr().String()
				}}))
				res, err := cli.Do(q)
				if err != nil {
					r.Fail("trace:transport", "%s %q: %v", x.kind, x.how, err)
					continue
				}
				data, _ := io.ReadAll(res.Body)
				res.Body.Close()
				var m struct{ Tracking, Id string }
				switch {
				case x.failed && (x.kind == "hr" || x.kind == "op"):
					x.json = true
					if err := json.Unmarshal(data, &m); err != nil || m.Tracking == "" {
						r.Fail("trace:answer", "%s %q answered %q", x.kind, x.how, data)
					}
					x.id = m.Tracking
				case x.failed:
				case x.kind == "op":
					_ = json.Unmarshal(data, &m)
					x.id = m.Id
				default:
					x.id = string(data)
				}
			}
			mu.Lock()
			all = append(all, x)
			mu.Unlock()
		}
	})
	// the last records of websockets come when their loops have ended
	time.Sleep(300 * time.Millisecond)
	sink.mu.Lock()
	recs := append([]traceRec(nil), sink.recs...)
	sink.mu.Unlock()
	hub.mu.Lock()
	defer hub.mu.Unlock()

	q := func(s string) string { j, _ := json.Marshal(s); return string(j) }
	byID := map[string]string{}   // tracking id to request
	byName := map[string]wanted{} // what was asked for
	byUA := map[string]wanted{}
	root := map[string]string{} // tracking id of the request
	for _, x := range all {
		byName[x.name], byUA[q(x.ua)] = x, x
	}
	has := func(x wanted, where string, tags map[string][]string) {
		for _, t := range [][2]string{{"ua", q(x.ua)}, {"path", q(x.path)}, {"http.remote", q(x.remote)}, {"http.addr", q(host)}, {"service", `"monitored"`}} {
			if v := tags[t[0]]; len(v) != 1 || v[0] != t[1] {
				r.Fail("trace:tag-"+t[0], "%s %q: %s has %s %v, want %s", x.kind, x.how, where, t[0], v, t[1])
			}
		}
		ids := tags["tracking-id"]
		if id := root[x.name]; len(ids) == 0 || id == "" || ids[0] != q(id) {
			r.Fail("trace:tag-tracking", "%s %q: %s has tracking ids %v, that of the request is %q", x.kind, x.how, where, ids, id)
		}
	}
	for _, x := range all {
		seen := hub.seen[x.name]
		if len(seen) == 0 {
			r.Fail("trace:not-run", "%s %q never ran", x.kind, x.how)
			continue
		}
		id := seen[0].id
		if x.kind == "ws" || x.kind == "rpc" { // those run in a span
			id, _, _ = strings.Cut(id, ".")
		}
		root[x.name] = id
		if other, dup := byID[id]; dup || id == "" {
			r.Fail("trace:id-reused", "%s %q: tracking id %q, also of %q", x.kind, x.how, id, other)
		}
		byID[id] = x.name
		if x.id != "" && x.id != id {
			r.Fail("trace:id-answered", "%s %q: the client was given tracking id %q, the handler ran as %q", x.kind, x.how, x.id, id)
		}
		for _, s := range seen {
			has(x, "a context", s.tags)
			if s.id != id && !strings.HasPrefix(s.id, id+".") {
				r.Fail("trace:span", "%s %q: within request %q a span is %q", x.kind, x.how, id, s.id)
			}
		}
		r.Count("contexts", int64(len(seen)))
	}
	reported := map[string]bool{}
	for _, rec := range recs {
		x, ok := wanted{}, false
		if ua := rec.tags["ua"]; len(ua) > 0 {
			x, ok = byUA[ua[0]]
			if ua[0] == `""` {
				var id string
				for _, j := range rec.tags["tracking-id"] {
					if id == "" {
						_ = json.Unmarshal([]byte(j), &id)
					}
				}
				x = byName[byID[id]]
				ok = x.name != ""
			}
			if !ok {
				r.Fail("trace:stray", "a record %q with the unknown agent %v", rec.msg, ua)
				continue
			}
			has(x, fmt.Sprintf("the record %q", rec.msg), rec.tags)
			r.Count("records", 1)
		}
		_, rest, named := strings.Cut(rec.msg, "<")
		if name, _, closed := strings.Cut(rest, ">"); named && closed && byName[name].name != "" {
			if !ok || name != x.name {
				r.Fail("trace:mixed", "record %q has the tags of %q: %v", rec.msg, x.name, rec.tags)
			}
			if strings.Contains(rec.msg, "failed") && rec.level >= slog.LevelWarn {
				reported[name] = true
			}
			if mine := rec.tags["mine"]; strings.Contains(rec.msg, "tagged") && (len(mine) != 1 || mine[0] != q(name)) {
				r.Fail("trace:mixed", "record %q has tag %v", rec.msg, mine)
			}
		}
	}
	for _, x := range all {
		if x.json && !reported[x.name] {
			r.Fail("trace:unreported", "%s %q failed; the client got tracking id %q, but no record under it says why", x.kind, x.how, x.id)
		}
	}
	if addr, err := net.ResolveTCPAddr("tcp", host); err != nil || addr.Port == 0 {
		r.HarnessError("%v %v", addr, err)
	}
}
