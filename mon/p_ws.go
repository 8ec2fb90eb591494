package main

import (
	"bufio"
	"bytes"
	"crypto/rand"
	"encoding/base64"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math"
	mrand "math/rand"
	"net"
	"net/http"
	"net/url"
	"reflect"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/Aize-Public/forego/ctx"
	"github.com/Aize-Public/forego/enc"
	fhttp "github.com/Aize-Public/forego/http"
	"github.com/Aize-Public/forego/http/ws"
	"github.com/Aize-Public/forego/shutdown"
)

func init() {
	reg("C24", "random pipelined scripts of opens and calls on several channels of several TCP connections at once, methods sleeping and replying in bursts; the whole stream of frames each client receives is compared with a serial model; non-trivial: distinct script", c24)
	reg("C25", "scripts of opens, calls, closes and reopenings of channels on concurrent connections, with templates holding shared references and private state; streams compared with a model; non-trivial: distinct script", c25)
	reg("C26", "raw frames: pings, pongs, reserved opcodes, fragments, binary, oversized and truncated frames, damaged and mistyped JSON, random bytes, on connections next to well-behaved ones whose streams must stay exact; non-trivial: distinct hostile script", c26)
	reg("C27", "goroutines sending marked messages of every size on one connection while it is also closed, read back at frame level; non-trivial: distinct (senders, sizes)", c27)
	reg("C28", "objects failing or panicking in Init and in methods, bad registrations, failing OnConnect and OnData, cancelled contexts; non-trivial: distinct failure", c28)
	reg("C29", "test clients with channels in parallel whose calls succeed, fail, make the callback fail or give up; non-trivial: distinct script", c29)
}

// ---------------------------------------------------------------- a websocket client of our own

type rawWS struct {
	conn net.Conn
	br   *bufio.Reader
}

func dialWS(base, path string, headers ...string) (*rawWS, error) {
	u, _ := url.Parse(base)
	conn, err := net.DialTimeout("tcp", u.Host, 10*time.Second)
	if err != nil {
		return nil, err
	}
	key := make([]byte, 16)
	_, _ = rand.Read(key)
	_ = conn.SetDeadline(time.Now().Add(40 * time.Second))
	fmt.Fprintf(conn, "GET %s HTTP/1.1\r\nHost: %s\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Key: %s\r\nSec-WebSocket-Version: 13\r\nOrigin: %s\r\n%s\r\n",
		path, u.Host, base64.StdEncoding.EncodeToString(key), base, strings.Join(append(headers, ""), "\r\n"))
	br := bufio.NewReader(conn)
	res, err := http.ReadResponse(br, nil)
	if err != nil {
		conn.Close()
		return nil, err
	}
	if res.StatusCode != 101 {
		conn.Close()
		return nil, fmt.Errorf("status %d", res.StatusCode)
	}
	return &rawWS{conn, br}, nil
}

// frame builds one client frame.
func wsFrame(op byte, fin bool, payload []byte) []byte {
	var b bytes.Buffer
	h := op & 0x7f
	if fin {
		h |= 0x80
	}
	b.WriteByte(h)
	n := len(payload)
	switch {
	case n < 126:
		b.WriteByte(0x80 | byte(n))
	case n < 65536:
		b.WriteByte(0x80 | 126)
		_ = binary.Write(&b, binary.BigEndian, uint16(n))
	default:
		b.WriteByte(0x80 | 127)
		_ = binary.Write(&b, binary.BigEndian, uint64(n))
	}
	mask := []byte{0x12, 0x9a, 0x00, 0xff}
	b.Write(mask)
	for i, c := range payload {
		b.WriteByte(c ^ mask[i%4])
	}
	return b.Bytes()
}

func (w *rawWS) write(b []byte) error { _, err := w.conn.Write(b); return err }
func (w *rawWS) text(s string) error  { return w.write(wsFrame(1, true, []byte(s))) }
func (w *rawWS) frame(f map[string]any) error {
	j, _ := json.Marshal(f)
	return w.write(wsFrame(1, true, j))
}

type wsIn struct {
	op      byte
	fin     bool
	payload []byte
}

// recv reads one frame from the server, strictly.
func (w *rawWS) recv() (wsIn, error) {
	var h [2]byte
	if _, err := io.ReadFull(w.br, h[:]); err != nil {
		return wsIn{}, err
	}
	f := wsIn{op: h[0] & 0x0f, fin: h[0]&0x80 != 0}
	if h[0]&0x70 != 0 {
		return f, fmt.Errorf("malformed frame: reserved bits %x", h[0])
	}
	if h[1]&0x80 != 0 {
		return f, fmt.Errorf("malformed frame: masked by the server")
	}
	n := uint64(h[1] & 0x7f)
	switch n {
	case 126:
		var x uint16
		if err := binary.Read(w.br, binary.BigEndian, &x); err != nil {
			return f, fmt.Errorf("malformed frame: cut in the header: %w", err)
		}
		n = uint64(x)
	case 127:
		if err := binary.Read(w.br, binary.BigEndian, &n); err != nil {
			return f, fmt.Errorf("malformed frame: cut in the header: %w", err)
		}
	}
	if n > 64<<20 {
		return f, fmt.Errorf("malformed frame: %d bytes", n)
	}
	f.payload = make([]byte, n)
	if k, err := io.ReadFull(w.br, f.payload); err != nil {
		return f, fmt.Errorf("cut frame: %d of %d bytes: %w", k, n, err)
	}
	return f, nil
}

// wsMsg is a frame of the protocol as the client sees it.
type wsMsg struct {
	Channel string
	Path    string
	Type    string
	Data    string // compact JSON, "" if absent
}

func (m wsMsg) String() string {
	return fmt.Sprintf("{ch %q path %q type %q data %s}", m.Channel, m.Path, m.Type, m.Data)
}

func parseMsg(b []byte) (wsMsg, error) {
	var x map[string]json.RawMessage
	if err := json.Unmarshal(b, &x); err != nil {
		return wsMsg{}, fmt.Errorf("malformed message %q: %w", cut(string(b), 200), err)
	}
	m := wsMsg{}
	for k, v := range x {
		var err error
		switch k {
		case "channel":
			err = json.Unmarshal(v, &m.Channel)
		case "path":
			err = json.Unmarshal(v, &m.Path)
		case "type":
			err = json.Unmarshal(v, &m.Type)
		case "data":
			var cb bytes.Buffer
			err = json.Compact(&cb, v)
			m.Data = cb.String()
		default:
			err = fmt.Errorf("unexpected key %q", k)
		}
		if err != nil {
			return m, fmt.Errorf("malformed message %q: %w", cut(string(b), 200), err)
		}
	}
	return m, nil
}

// recvAll reads until the connection ends; ok says it ended by a close frame or a plain end.
func (w *rawWS) recvAll(onMsg func(wsMsg)) error {
	for {
		f, err := w.recv()
		if err != nil {
			if errors.Is(err, io.EOF) && !strings.Contains(err.Error(), "cut") || strings.Contains(err.Error(), "connection reset") {
				return nil
			}
			return err
		}
		switch f.op {
		case 8:
			return nil
		case 9, 10:
			continue
		case 1, 2:
			if !f.fin {
				return fmt.Errorf("unexpected fragment")
			}
			m, err := parseMsg(f.payload)
			if err != nil {
				return err
			}
			onMsg(m)
		default:
			return fmt.Errorf("unexpected opcode %d", f.op)
		}
	}
}

// ---------------------------------------------------------------- objects

// wsRec watches, on the server side, what runs on each connection.
type wsRec struct {
	mu      sync.Mutex
	inside  map[string]int
	overlap []string
	dirty   []string // objects that were not fresh
	ran     map[string][]string
	inits   int
}

func newRec() *wsRec { return &wsRec{inside: map[string]int{}, ran: map[string][]string{}} }

func (r *wsRec) enter(conn, what string) func() {
	r.mu.Lock()
	r.inside[conn]++
	if r.inside[conn] > 1 && len(r.overlap) < 5 {
		r.overlap = append(r.overlap, conn+": "+what)
	}
	r.ran[conn] = append(r.ran[conn], what)
	r.mu.Unlock()
	return func() {
		r.mu.Lock()
		r.inside[conn]--
		r.mu.Unlock()
	}
}

// WsCounter is an object exposed on a channel.
type WsCounter struct {
	Rec    *wsRec
	Base   int
	Tags   []string
	hidden int
	key    string
	ch     string
	sum    int
	inits  int
	seen   map[string]int
	last   *int
}

type WsInit struct {
	Conn  string `json:"conn"`
	Chan  string `json:"chan"`
	Start int    `json:"start"`
	Fail  string `json:"fail,omitempty"`
	Panic bool   `json:"panic,omitempty"`
	Say   bool   `json:"say,omitempty"`
}

func (o *WsCounter) Init(c ws.C, in WsInit) error {
	if o.hidden != 0 || o.key != "" || o.ch != "" || o.sum != 0 || o.inits != 0 || o.seen != nil || o.last != nil {
		o.Rec.mu.Lock()
		o.Rec.dirty = append(o.Rec.dirty, fmt.Sprintf("%s/%s: %+v", in.Conn, in.Chan, *o))
		o.Rec.mu.Unlock()
	}
	o.key, o.ch = in.Conn, in.Chan
	defer o.Rec.enter(o.key, "init "+in.Chan)()
	o.inits++
	o.sum = o.Base + in.Start
	if in.Say {
		_ = c.Reply("hello", o.sum)
	}
	if in.Panic {
		panic("SECRET init panic")
	}
	if in.Fail != "" {
		return errors.New(in.Fail)
	}
	return nil
}

func (o *WsCounter) Add(c ws.C, n int) error {
	defer o.Rec.enter(o.key, fmt.Sprintf("add %s %d", o.ch, n))()
	o.sum += n
	return c.Reply("sum", o.sum)
}

func (o *WsCounter) Get(c ws.C) error {
	defer o.Rec.enter(o.key, "get "+o.ch)()
	return c.Reply("sum", o.sum)
}

func (o *WsCounter) Mul(c ws.C, in *struct {
	By int `json:"by"`
}) error {
	defer o.Rec.enter(o.key, fmt.Sprintf("mul %s", o.ch))()
	if in == nil {
		return errors.New("nothing to multiply by")
	}
	o.sum *= in.By
	return nil
}

func (o *WsCounter) Words(c ws.C, in []string) error {
	defer o.Rec.enter(o.key, fmt.Sprintf("words %s", o.ch))()
	return c.Reply("words", strings.Join(in, "|"))
}

func (o *WsCounter) Echo(c ws.C, in any) error {
	defer o.Rec.enter(o.key, fmt.Sprintf("echo %s", o.ch))()
	return c.Reply("echo", in)
}

func (o *WsCounter) Burst(c ws.C, n int) error {
	defer o.Rec.enter(o.key, fmt.Sprintf("burst %s %d", o.ch, n))()
	for i := 0; i < n; i++ {
		if err := c.Reply("burst", i); err != nil {
			return err
		}
	}
	return nil
}

// Odd replies with what can't be written, and tells whether that was an error.
func (o *WsCounter) Odd(c ws.C, kind string) error {
	defer o.Rec.enter(o.key, "odd "+o.ch)()
	m := map[string]any{}
	m["m"] = m
	err := c.Reply("never", map[string]any{"chan": make(chan int), "nan": []float64{math.NaN()}, "keys": map[bool]int{true: 1}, "itself": m, "refuses": c06NodeErr{}}[kind])
	return c.Reply("odd", err != nil)
}

func (o *WsCounter) Nap(c ws.C, us int) error {
	defer o.Rec.enter(o.key, fmt.Sprintf("nap %s %d", o.ch, us))()
	time.Sleep(time.Duration(us) * time.Microsecond)
	return nil
}

func (o *WsCounter) Fail(c ws.C, msg string) error {
	defer o.Rec.enter(o.key, "fail "+o.ch)()
	return errors.New(msg)
}

// Both has more than one result, the last of which tells the failure.
func (o *WsCounter) Both(c ws.C, msg string) (error, error) {
	defer o.Rec.enter(o.key, "both "+o.ch)()
	switch len(msg) % 4 {
	case 0:
		return nil, nil
	case 1:
		return errors.New("no failure"), nil
	case 2:
		return nil, errors.New(msg)
	}
	return errors.New("no failure"), errors.New(msg)
}

type wsErr struct {
	Msg  string
	Chan chan int // such an error can't be written as JSON
}

func (e wsErr) Error() string { return e.Msg }

func (o *WsCounter) FailOdd(c ws.C, msg string) error {
	defer o.Rec.enter(o.key, "failOdd "+o.ch)()
	switch len(msg) % 3 {
	case 0:
		return ctx.NewErrorf(c, "%s", msg)
	case 1:
		return fmt.Errorf("%s%w", msg, &wsErr{})
	default:
		return wsErr{msg, make(chan int)}
	}
}

func (o *WsCounter) Boom(c ws.C, msg string) error {
	defer o.Rec.enter(o.key, "boom "+o.ch)()
	panic("SECRET " + msg)
}

// Peek has a value receiver.
func (o WsCounter) Peek(c ws.C) error {
	defer o.Rec.enter(o.key, "peek "+o.ch)()
	return c.Reply("peek", map[string]any{"conn": o.key, "hidden": o.hidden, "inits": o.inits, "base": o.Base, "sum": o.sum})
}

// not exposed
func (o *WsCounter) Other(n int)                 { o.Rec.enter(o.key, "OTHER") }
func (o *WsCounter) Else(c ctx.C, n int) error   { o.Rec.enter(o.key, "ELSE"); return nil }
func (o *WsCounter) private(c ws.C) error        { o.Rec.enter(o.key, "PRIVATE"); return nil }
func (o *WsCounter) Many(c ws.C, a, b int) error { o.Rec.enter(o.key, "MANY"); return nil }

var _ = (&WsCounter{}).private

// WsLog has no Init and is registered by value.
type WsLog struct {
	Limit int
	lines []string
}

func (o *WsLog) Put(c ws.C, s string) error {
	if o.Limit > 0 && len(o.lines) >= o.Limit {
		return fmt.Errorf("limit %d", o.Limit)
	}
	o.lines = append(o.lines, s)
	return nil
}
func (o *WsLog) All(c ws.C) error { return c.Reply("all", o.lines) }

// ---------------------------------------------------------------- model

type wsModelObj struct {
	kind  string
	conn  string
	sum   int
	lines []string
}

type wsModel struct {
	conn   string
	base   int
	limit  int
	objs   map[string]*wsModelObj
	want   []wsMsg // expected stream
	ran    []string
	exact  bool
	script []string
}

func jj(x any) string { b, _ := json.Marshal(x); return string(b) }

func (m *wsModel) ret(ch, path string) {
	m.want = append(m.want, wsMsg{Channel: ch, Path: path, Type: "return"})
}
func (m *wsModel) fail(ch, path, msg string) {
	m.want = append(m.want, wsMsg{Channel: ch, Path: path, Type: "return", Data: jj(msg)})
}
func (m *wsModel) reply(ch, path string, x any) {
	m.want = append(m.want, wsMsg{Channel: ch, Path: path, Data: jj(x)})
}

// step picks a random frame that a well-behaved client might send and records what must come of it.
func (m *wsModel) step(g *mrand.Rand, lifecycle bool) map[string]any {
	chans := sortedKeys(m.objs)
	open := len(chans) == 0 || (len(chans) < 5 && g.Intn(12) == 0) || lifecycle && g.Intn(4) == 0 && len(chans) < 5
	if open {
		ch := fmt.Sprintf("ch%d", g.Intn(8))
		if g.Intn(10) == 0 {
			ch = genString(g)
		}
		if m.objs[ch] != nil || ch == "" {
			return nil
		}
		typ := []string{"new", "open"}[g.Intn(2)]
		if g.Intn(3) == 0 {
			m.objs[ch] = &wsModelObj{kind: "log"}
			return map[string]any{"channel": ch, "type": typ, "path": "wsLog"}
		}
		start := g.Intn(1000)
		in := WsInit{Conn: m.conn, Chan: ch, Start: start, Say: g.Intn(2) == 0}
		o := &wsModelObj{kind: "counter", conn: m.conn, sum: m.base + start}
		m.objs[ch] = o
		m.ran = append(m.ran, "init "+ch)
		if in.Say {
			m.reply(ch, "hello", o.sum)
		}
		return map[string]any{"channel": ch, "type": typ, "path": "wsCounter", "data": in}
	}
	ch := chans[g.Intn(len(chans))]
	o := m.objs[ch]
	if lifecycle && g.Intn(6) == 0 {
		delete(m.objs, ch)
		m.want = append(m.want, wsMsg{Channel: ch, Type: "close"})
		return map[string]any{"channel": ch, "type": "close"}
	}
	f := map[string]any{"channel": ch}
	switch g.Intn(4) {
	case 0:
		f["type"] = ""
	case 1:
		f["type"] = "data"
	}
	if o.kind == "log" {
		if g.Intn(3) > 0 {
			s := genString(g)
			f["path"], f["data"] = "put", s
			if len(o.lines) >= m.limit {
				m.fail(ch, "put", fmt.Sprintf("limit %d", m.limit))
			} else {
				o.lines = append(o.lines, s)
				m.ret(ch, "put")
			}
		} else {
			f["path"] = "all"
			m.reply(ch, "all", o.lines)
			m.ret(ch, "all")
		}
		return f
	}
	run := func(s string) { m.ran = append(m.ran, s) }
	switch g.Intn(12) {
	case 11:
		msg := genString(g)
		f["path"], f["data"] = "both", msg
		run("both " + ch)
		if len(msg)%4 < 2 {
			m.ret(ch, "both")
		} else {
			m.fail(ch, "both", msg)
		}
	case 10:
		f["path"], f["data"] = "odd", []string{"chan", "nan", "keys", "itself", "refuses"}[g.Intn(5)]
		run("odd " + ch)
		m.reply(ch, "odd", true)
		m.ret(ch, "odd")
	case 0, 1, 2:
		n := g.Intn(2000) - 1000
		o.sum += n
		f["path"], f["data"] = "add", n
		run(fmt.Sprintf("add %s %d", ch, n))
		m.reply(ch, "sum", o.sum)
		m.ret(ch, "add")
	case 3:
		f["path"] = "get"
		if g.Intn(2) == 0 {
			f["data"] = genAny(g, 2) // ignored
		}
		run("get " + ch)
		m.reply(ch, "sum", o.sum)
		m.ret(ch, "get")
	case 4:
		n := g.Intn(3) - 1
		o.sum *= n
		f["path"], f["data"] = "mul", map[string]any{"by": n}
		run("mul " + ch)
		m.ret(ch, "mul")
	case 5:
		l := []string{}
		for i := g.Intn(4); i > 0; i-- {
			l = append(l, genString(g))
		}
		f["path"], f["data"] = "words", l
		run("words " + ch)
		m.reply(ch, "words", strings.Join(l, "|"))
		m.ret(ch, "words")
	case 6:
		n := g.Intn(20)
		f["path"], f["data"] = "burst", n
		run(fmt.Sprintf("burst %s %d", ch, n))
		for i := 0; i < n; i++ {
			m.reply(ch, "burst", i)
		}
		m.ret(ch, "burst")
	case 7:
		n := g.Intn(300)
		f["path"], f["data"] = "nap", n
		run(fmt.Sprintf("nap %s %d", ch, n))
		m.ret(ch, "nap")
	case 8:
		f["path"] = "peek"
		run("peek " + ch)
		m.reply(ch, "peek", map[string]any{"conn": o.conn, "hidden": 0, "inits": 1, "base": m.base, "sum": o.sum})
		m.ret(ch, "peek")
	case 9:
		msg := genString(g)
		p := []string{"fail", "failOdd"}[g.Intn(2)]
		f["path"], f["data"] = p, msg
		run(p + " " + ch)
		m.fail(ch, p, msg)
	}
	return f
}

// diff compares a received stream with the expected one. After a failed return an error frame may follow.
func (m *wsModel) diff(got []wsMsg) string {
	i := 0
	for k, g := range got {
		if g.Type == "error" && k > 0 && got[k-1].Type == "return" && got[k-1].Data != "" && g.Channel == got[k-1].Channel {
			var text, ret string
			_ = json.Unmarshal([]byte(g.Data), &text)
			_ = json.Unmarshal([]byte(got[k-1].Data), &ret)
			if !strings.Contains(text, ret) {
				return fmt.Sprintf("after the failed return %v the error frame says %s", got[k-1], g.Data)
			}
			continue
		}
		if i >= len(m.want) {
			return fmt.Sprintf("frame %d: unexpected %v after the whole expected stream of %d", k, g, len(m.want))
		}
		w := m.want[i]
		if g.Channel != w.Channel || g.Path != w.Path || g.Type != w.Type || !sameJSON(g.Data, w.Data) {
			return fmt.Sprintf("frame %d is %v, expected %v", k, g, w)
		}
		i++
	}
	if i < len(m.want) {
		return fmt.Sprintf("the stream ended after %d of %d expected frames, next %v", i, len(m.want), m.want[i])
	}
	return ""
}

// sameJSON: equal documents, null and absent being one.
func sameJSON(a, b string) bool {
	if a == "null" {
		a = ""
	}
	if b == "null" {
		b = ""
	}
	if a == b {
		return true
	}
	if a == "" || b == "" {
		return false
	}
	x, err1 := decodeStd([]byte(a))
	y, err2 := decodeStd([]byte(b))
	return err1 == nil && err2 == nil && reflect.DeepEqual(x, y)
}

func wsServer(r *R, c ctx.C, rec *wsRec, base, limit int) string {
	h := &ws.RpcHandler{}
	tmpl := &WsCounter{Rec: rec, Base: base, Tags: []string{"shared"}, hidden: 3, key: "template", ch: "template", sum: 100000, inits: 1, seen: map[string]int{"template": 1}, last: new(int)}
	h.MustRegister(c, tmpl)
	h.MustRegister(c, &WsLog{Limit: limit})
	return httpServer(r, c, func(s *fhttp.Server) { s.Handle("/ws", h.Server()) })
}

// runModel drives one connection with n random frames and compares all that comes back.
func runModel(r *R, sig, base, conn string, g *mrand.Rand, tbase, limit, n int, lifecycle bool, rec *wsRec, idle ...time.Duration) {
	m := &wsModel{conn: conn, base: tbase, limit: limit, objs: map[string]*wsModelObj{}}
	w, err := dialWS(base, "/ws")
	if err != nil {
		r.Fail(sig+":connect", "%s: %v", conn, err)
		return
	}
	defer w.conn.Close()
	var frames [][]byte
	var log []string
	for i := 0; i < n; i++ {
		f := m.step(g, lifecycle)
		if f == nil {
			continue
		}
		j, _ := json.Marshal(f)
		log = append(log, cut(string(j), 160))
		frames = append(frames, wsFrame(1, true, j))
	}
	frames = append(frames, wsFrame(1, true, []byte(`{"type":"close"}`)))
	r.Eval(strings.Join(log, "\n"))
	r.Count("frames_sent", int64(len(frames)))
	var got []wsMsg
	done := make(chan error, 1)
	go func() { done <- w.recvAll(func(m wsMsg) { got = append(got, m) }) }()
	// pipelined: frames glued together or split at random
	var buf bytes.Buffer
	for i, f := range frames {
		if len(idle) > 0 && i == len(frames)/2 { // the client has nothing to say for a long time
			_ = w.conn.SetDeadline(time.Now().Add(idle[0] + 40*time.Second))
			_ = w.write(buf.Bytes())
			buf.Reset()
			time.Sleep(idle[0])
			r.Count("long_idle_connections", 1)
		}
		buf.Write(f)
		if g.Intn(3) > 0 {
			b := buf.Bytes()
			if len(b) > 3 && g.Intn(3) == 0 {
				k := 1 + g.Intn(len(b)-1)
				_ = w.write(b[:k])
				time.Sleep(time.Duration(g.Intn(200)) * time.Microsecond)
				b = b[k:]
			}
			_ = w.write(b)
			buf.Reset()
		}
	}
	_ = w.write(buf.Bytes())
	if err := <-done; err != nil {
		r.Fail(sig+":stream", "%s: %v\nscript:\n%s", conn, err, strings.Join(log, "\n"))
		return
	}
	r.Count("frames_received", int64(len(got)))
	if d := m.diff(got); d != "" {
		r.Fail(sig+":stream", "%s: %s\nscript:\n%s", conn, d, strings.Join(log, "\n"))
	}
	rec.mu.Lock()
	ran := append([]string{}, rec.ran[conn]...)
	rec.mu.Unlock()
	if !reflect.DeepEqual(ran, m.ran) && (len(ran) > 0 || len(m.ran) > 0) {
		k := 0
		for k < len(ran) && k < len(m.ran) && ran[k] == m.ran[k] {
			k++
		}
		r.Fail(sig+":executions", "%s: execution %d differs: ran %v, sent %v", conn, k, ran[k:min(k+3, len(ran))], m.ran[k:min(k+3, len(m.ran))])
	}
}

func c24(r *R) {
	c := quietCtx()
	rec := newRec()
	base := wsServer(r, c, rec, 100, 6)
	idle := make(chan struct{})
	go func() { // next to the others: connections silent for longer than any timeout of the server
		defer close(idle)
		var wg sync.WaitGroup
		for w := 0; w < 3; w++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				runModel(r, "ws-idle", base, fmt.Sprintf("idle%d", w), r.Sub("idle", w), 100, 6, 30, false, rec, 32*time.Second)
			}()
		}
		wg.Wait()
	}()
	for round := 0; round < r.N(12, 100); round++ {
		r.Par("ws", "pipelined calls on 8 connections", 8, func(w int) {
			g := r.Sub("conn", round*8+w)
			runModel(r, "ws", base, fmt.Sprintf("c%d-%d", round, w), g, 100, 6, 20+g.Intn(160), false, rec)
		})
	}
	r.Within("ws-idle", "connections silent for 32 s", func() { <-idle })
	rec.mu.Lock()
	defer rec.mu.Unlock()
	if len(rec.overlap) > 0 {
		r.Fail("ws:parallel", "two calls of one connection at once: %v", rec.overlap)
	}
}

func c25(r *R) {
	c := quietCtx()
	rec := newRec()
	base := wsServer(r, c, rec, 7, 4)
	for round := 0; round < r.N(12, 100); round++ {
		r.Par("chan", "channels opened and closed on 8 connections", 8, func(w int) {
			g := r.Sub("conn", round*8+w)
			runModel(r, "chan", base, fmt.Sprintf("c%d-%d", round, w), g, 7, 4, 20+g.Intn(120), true, rec)
		})
	}
	// a call on a channel that was closed, never opened, or opened by another connection runs nothing
	for i := 0; i < r.N(40, 400); i++ {
		g := r.Sub("stray", i)
		kind := []string{"closed", "never", "other", "unexposed"}[g.Intn(4)]
		r.Eval(fmt.Sprint("stray", kind, i%10))
		r.Within("chan:stray", kind, func() {
			a, err := dialWS(base, "/ws")
			b, err2 := dialWS(base, "/ws")
			if err != nil || err2 != nil {
				r.Fail("chan:connect", "%v %v", err, err2)
				return
			}
			defer a.conn.Close()
			defer b.conn.Close()
			key := fmt.Sprintf("stray%d", i)
			_ = a.frame(map[string]any{"channel": "x", "type": "open", "path": "wsCounter", "data": WsInit{Conn: key, Chan: "x", Say: true}})
			if f, err := a.recv(); err != nil || !strings.Contains(string(f.payload), "hello") {
				r.Fail("chan:open", "%q %v", f.payload, err)
				return
			}
			path, from, ch := "add", a, "x"
			switch kind {
			case "closed":
				_ = a.frame(map[string]any{"channel": "x", "type": "close"})
			case "never":
				ch = "y"
			case "other":
				from = b
			case "unexposed":
				path = []string{"other", "else", "private", "many", "init", "Init", "init", "Add", "", "rec", "hidden"}[g.Intn(11)]
			}
			var data any = 5
			if strings.EqualFold(path, "init") {
				data = WsInit{Conn: key, Chan: ch, Say: true}
			}
			_ = from.frame(map[string]any{"channel": ch, "path": path, "data": data})
			_ = from.frame(map[string]any{"type": "close"})
			var got []wsMsg
			if err := from.recvAll(func(m wsMsg) { got = append(got, m) }); err != nil {
				r.Fail("chan:stray", "%s: %v", kind, err)
			}
			for _, m := range got {
				if m.Type == "return" && m.Data == "" || m.Path == "sum" || m.Path == "hello" {
					r.Fail("chan:stray", "%s: calling %q was answered %v", kind, path, m)
				}
			}
			rec.mu.Lock()
			ran := rec.ran[key]
			rec.mu.Unlock()
			if len(ran) != 1 {
				r.Fail("chan:stray", "%s: calling %q ran %v", kind, path, ran)
			}
		})
	}
	rec.mu.Lock()
	defer rec.mu.Unlock()
	if len(rec.dirty) > 0 {
		r.Fail("chan:fresh", "%d objects opened with something in their unexported fields: %.400s", len(rec.dirty), rec.dirty[0])
	}
	if len(rec.overlap) > 0 {
		r.Fail("chan:parallel", "two calls of one connection at once: %v", rec.overlap)
	}
}

// ---------------------------------------------------------------- C26

func c26(r *R) {
	c := quietCtx()
	rec := newRec()
	base := wsServer(r, c, rec, 0, 5)
	stop := make(chan struct{})
	var wg sync.WaitGroup
	// well-behaved neighbours
	for w := 0; w < 2; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			for i := 0; ; i++ {
				select {
				case <-stop:
					return
				default:
				}
				runModel(r, "hostile:neighbour", base, fmt.Sprintf("n%d-%d", w, i), r.Sub("nb", w*100000+i), 0, 5, 30, true, rec)
			}
		}(w)
	}
	n := r.N(200, 3000)
	var next atomic.Int64
	r.Par("hostile", "hostile clients", 4, func(int) {
		for {
			i := int(next.Add(1)) - 1
			if i >= n {
				return
			}
			c26one(r, base, i, rec)
		}
	})
	close(stop)
	wg.Wait()
}

func c26one(r *R, base string, i int, rec *wsRec) {
	g := r.Sub("hostile", i)
	w, err := dialWS(base, "/ws")
	if err != nil {
		r.Fail("hostile:connect", "%v", err)
		return
	}
	defer w.conn.Close()
	key := fmt.Sprintf("h%d", i)
	_ = w.frame(map[string]any{"channel": "x", "type": "open", "path": "wsCounter", "data": WsInit{Conn: key, Chan: "x"}})
	add := func(n int) []byte { return []byte(fmt.Sprintf(`{"channel":"x","path":"add","data":%d}`, n)) }
	_ = w.write(wsFrame(1, true, add(1)))
	kinds := []string{"ping", "pong", "pingbig", "fragments", "interleaved", "reserved", "binary", "huge", "cut", "unmasked", "garbage", "badjson", "mistyped", "emptytext", "lonecont", "closeframe", "rsv", "split-number", "mistyped-arg", "newtext", "fragment-close"}
	kind := kinds[i%len(kinds)]
	r.Eval(kind + fmt.Sprint(g.Int63()))
	r.Count("hostile_"+kind, 1)
	// survives: the connection must stay usable; else it may be ended
	survives := false
	pongs := [][]byte{}
	extra := 0 // adds the hostile part amounts to
	maxExtra := 0
	sent := ""
	switch kind {
	case "ping":
		for k := 1 + g.Intn(3); k > 0; k-- {
			p := genBytes(g, g.Intn(126))
			pongs = append(pongs, p)
			_ = w.write(wsFrame(9, true, p))
		}
		survives = true
	case "pong":
		_ = w.write(wsFrame(10, true, genBytes(g, g.Intn(126))))
		survives = true
	case "pingbig":
		_ = w.write(wsFrame(9, true, genBytes(g, 126+g.Intn(70000))))
	case "fragments":
		b := add(2)
		k := g.Intn(len(b) + 1)
		_ = w.write(wsFrame(1, false, b[:k]))
		if g.Intn(2) == 0 {
			j := k + g.Intn(len(b)-k+1)
			_ = w.write(wsFrame(0, false, b[k:j]))
			k = j
		}
		_ = w.write(wsFrame(0, true, b[k:]))
		extra, survives = 2, true
	case "interleaved":
		b := add(2)
		k := 1 + g.Intn(len(b)-1)
		_ = w.write(wsFrame(1, false, b[:k]))
		p := genBytes(g, 10)
		pongs = append(pongs, p)
		_ = w.write(wsFrame(9, true, p))
		_ = w.write(wsFrame(0, true, b[k:]))
		extra, survives = 2, true
	case "reserved":
		_ = w.write(wsFrame([]byte{3, 4, 5, 6, 7, 11, 12, 13, 14, 15}[g.Intn(10)], g.Intn(2) == 0, genBytes(g, g.Intn(100))))
	case "binary":
		_ = w.write(wsFrame(2, true, add(2)))
		maxExtra = 2
	case "huge":
		b := []byte{0x81, 0x80 | 127, 0x7f, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 1, 2, 3, 4}
		if g.Intn(2) == 0 {
			b[2] = 0xff // negative as int64
		}
		_ = w.write(append(b, genBytes(g, 5000)...))
	case "cut":
		if g.Intn(2) == 0 { // what arrives is a document of its own
			b := wsFrame(1, true, append(add(2), "        "...))
			_ = w.write(b[:len(b)-1-g.Intn(8)])
		} else {
			b := wsFrame(1, true, add(2))
			_ = w.write(b[:1+g.Intn(len(b)-1)])
		}
	case "unmasked":
		b := add(2)
		_ = w.write(append([]byte{0x81, byte(len(b))}, b...))
		maxExtra = 2
	case "garbage":
		_ = w.write(genBytes(g, 1+g.Intn(300)))
		maxExtra = -1
	case "badjson":
		s := []string{`{`, `{"channel":"x","path":"add","data":}`, `[`, `nul`, "\xff\xfe", `{"channel":"x","path":"add","data":2}}`, `{"channel":"x" "path":"add","data":2}`, `{"channel":"x","path":"add","data":2`}[g.Intn(8)]
		_ = w.text(s)
	case "mistyped":
		fixed := []string{`[]`, `5`, `"x"`, `null`, `{}`, `{"channel":5,"path":"add","data":2}`, `{"channel":"x","path":{},"data":2}`, `{"channel":"x","type":[],"path":"add","data":2}`, `{"type":"open"}`, `{"type":"open","path":"nosuch","channel":"q"}`, `true`, `[{"channel":"x","path":"add","data":2}]`}
		if k := i / len(kinds); k < len(fixed) {
			_ = w.text(fixed[k])
			break
		}
		// a call with a field of another kind, or one too many
		f := map[string]any{"channel": "x", "path": "add", "data": 2}
		var odd any
		for odd == nil {
			_ = json.Unmarshal([]byte(genJSON(g, 2)), &odd)
			if _, ok := odd.(string); ok {
				odd = nil
			}
		}
		switch g.Intn(4) {
		case 0:
			f["channel"] = odd
		case 1:
			f["path"] = odd
		case 2:
			f["type"] = odd
			if _, num := odd.(float64); num { // a string field takes a number as its text
				maxExtra = 2
			}
		case 3:
			f["channel"], f["path"], f["type"], f["data"] = odd, odd, odd, odd
		}
		b, _ := json.Marshal(f)
		sent = string(b)
		_ = w.text(sent)
	case "mistyped-arg":
		s := []string{`"2"`, `[2]`, `{"n":2}`, `1e99`, `true`, `99999999999999999999999`}[g.Intn(6)]
		_ = w.text(`{"channel":"x","path":"add","data":` + s + `}`)
		survives = true
	case "emptytext":
		_ = w.write(wsFrame(1, true, nil))
	case "lonecont":
		_ = w.write(wsFrame(0, true, add(2)))
	case "newtext": // the second is no continuation of the first
		b := add(2)
		k := 1 + g.Intn(len(b)-1)
		_ = w.write(wsFrame(1, false, b[:k]))
		_ = w.write(wsFrame(byte(1+g.Intn(2)), true, b[k:]))
	case "fragment-close": // never completed, even if what came is a document of its own
		_ = w.write(wsFrame(1, false, add(2)))
		if g.Intn(2) == 0 {
			_ = w.write(wsFrame(8, true, []byte{3, 232}))
		}
	case "closeframe":
		_ = w.write(wsFrame(8, true, []byte{3, 232}))
	case "rsv":
		b := wsFrame(1, true, add(2))
		b[0] |= byte(0x10 << g.Intn(3))
		_ = w.write(b)
		maxExtra = 2
	case "split-number":
		// a prefix that is a document of its own must not be taken for the message
		_ = w.write(wsFrame(1, false, []byte(`{"channel":"x","path":"add","data":2}`)))
		_ = w.write(wsFrame(0, true, []byte(`   `)))
		extra, survives = 2, true
	}
	if kind == "cut" || kind == "huge" || kind == "garbage" || kind == "fragment-close" {
		if tc, ok := w.conn.(*net.TCPConn); ok {
			_ = tc.CloseWrite()
		}
	} else {
		_ = w.write(wsFrame(1, true, add(4)))
		_ = w.text(`{"type":"close"}`)
	}
	// read all that comes
	var sums []string
	var gotPongs [][]byte
	for {
		f, err := w.recv()
		if err != nil {
			if strings.Contains(err.Error(), "malformed") || strings.Contains(err.Error(), "timeout") {
				r.Fail("hostile:"+kind, "%s: %v", kind, err)
			}
			break
		}
		if f.op == 8 {
			break
		}
		if f.op == 10 {
			gotPongs = append(gotPongs, f.payload)
			continue
		}
		if f.op != 1 {
			r.Fail("hostile:"+kind, "%s: server sent opcode %d %q", kind, f.op, f.payload)
			continue
		}
		m, err := parseMsg(f.payload)
		if err != nil {
			r.Fail("hostile:"+kind, "%s: %v", kind, err)
			continue
		}
		if m.Path == "sum" {
			sums = append(sums, m.Data)
		}
		if strings.Contains(m.Data, "goroutine") || strings.Contains(m.Data, ".go:") {
			r.Fail("hostile:leak", "%s: internals sent to the client: %v", kind, m)
		}
	}
	want := []string{"1"}
	total := 1
	if extra > 0 {
		total += extra
		want = append(want, fmt.Sprint(total))
	}
	total += 4
	want = append(want, fmt.Sprint(total))
	if survives {
		if !reflect.DeepEqual(sums, want) {
			r.Fail("hostile:"+kind, "%s: the calls around it answered %v, expected %v", kind, sums, want)
		}
		if len(pongs) != len(gotPongs) || len(pongs) > 0 && !reflect.DeepEqual(pongs, gotPongs) {
			r.Fail("hostile:pong", "%s: pings %q answered by pongs %q", kind, pongs, gotPongs)
		}
		return
	}
	// may be ended: whatever was answered must be a prefix of a legal history
	if maxExtra < 0 {
		return
	}
	// the connection may be reset before the answers were read
	legal := map[string]bool{"[1]": true, "[1 5]": true, "[]": true}
	if maxExtra > 0 {
		legal["[1 3]"], legal["[1 3 7]"] = true, true
	}
	if !legal[fmt.Sprint(sums)] {
		r.Fail("hostile:"+kind, "%s: the calls around it answered %v %s", kind, sums, sent)
	}
}

// ---------------------------------------------------------------- C27

func c27(r *R) {
	c := quietCtx()
	type job struct {
		senders, each int
		sizes         []int
		closeAfter    int // ms, <0: at the end
		pings         bool
		seed          int64
	}
	jobs := sync.Map{}
	h := ws.Handler{
		OnConnect: func(c ctx.C, conn *ws.Conn) (ctx.C, error) { return c, nil },
		OnData: func(c ctx.C, conn *ws.Conn, n enc.Node) error {
			v, ok := jobs.Load(string(n.(enc.String)))
			if !ok {
				return errors.New("no such job")
			}
			j := v.(job)
			var wg sync.WaitGroup
			for s := 0; s < j.senders; s++ {
				wg.Add(1)
				go func(s int) {
					defer wg.Done()
					for k := 0; k < j.each; k++ {
						size := j.sizes[(s*31+k*7)%len(j.sizes)]
						if err := conn.Send(c, map[string]any{"s": s, "k": k, "pad": strings.Repeat(string(rune('a'+s%26)), size)}); err != nil {
							return
						}
					}
				}(s)
			}
			if j.closeAfter >= 0 {
				for k := 0; k < 3; k++ {
					wg.Add(1)
					go func() {
						defer wg.Done()
						time.Sleep(time.Duration(j.closeAfter) * time.Millisecond)
						_ = conn.Close(c, 1000)
					}()
				}
			}
			wg.Wait()
			if j.pings && j.closeAfter < 0 {
				return nil // closing while pings are unread would reset the connection
			}
			return conn.Close(c, 1000)
		},
	}
	base := httpServer(r, c, func(s *fhttp.Server) { s.Handle("/ws", h.Server()) })
	for i := 0; i < r.N(50, 600); i++ {
		g := r.Sub("job", i)
		j := job{senders: 1 + g.Intn(8), each: 3 + g.Intn(18), closeAfter: -1, seed: g.Int63()}
		for k := 0; k < 5; k++ {
			j.sizes = append(j.sizes, []int{0, 1, 100, 125, 126, 4000, 65500, 66000}[g.Intn(8)])
		}
		if g.Intn(3) == 0 {
			j.closeAfter = g.Intn(15)
		}
		j.pings = g.Intn(2) == 0
		id := fmt.Sprint("job", i)
		jobs.Store(id, j)
		r.Eval(fmt.Sprintf("%+v", j))
		r.Within("send", fmt.Sprintf("%+v", j), func() {
			w, err := dialWS(base, "/ws")
			if err != nil {
				r.Fail("send:connect", "%v", err)
				return
			}
			defer w.conn.Close()
			_ = w.text(jj(id))
			var pings [][]byte
			var pm sync.Mutex
			quit := make(chan struct{})
			defer close(quit)
			if j.pings { // meanwhile
				pg := r.Sub("ping", i)
				go func() {
					for {
						select {
						case <-quit:
							return
						default:
						}
						p := genBytes(pg, 1+pg.Intn(124))
						pm.Lock()
						pings = append(pings, p)
						pm.Unlock()
						if w.write(wsFrame(9, true, p)) != nil {
							return
						}
						time.Sleep(time.Duration(pg.Intn(200)) * time.Microsecond)
					}
				}()
			}
			pongs := 0
			next := make([]int, j.senders)
			total := 0
			for {
				f, err := w.recv()
				if err != nil {
					if strings.Contains(err.Error(), "malformed") || strings.Contains(err.Error(), "timeout") {
						r.Fail("send:torn", "%+v after %d messages: %v", j, total, err)
					} else if j.closeAfter < 0 {
						r.Fail("send:ended", "%+v: the connection ended after %d messages without a close: %v", j, total, err)
					}
					break
				}
				if f.op == 8 {
					break
				}
				if f.op == 10 {
					pm.Lock()
					if pongs >= len(pings) || !bytes.Equal(pings[pongs], f.payload) {
						r.Fail("send:pong", "%+v: pong %d is %q", j, pongs, f.payload)
					}
					pm.Unlock()
					pongs++
					r.Count("pongs_between", 1)
					continue
				}
				var m struct {
					S   int    `json:"s"`
					K   int    `json:"k"`
					Pad string `json:"pad"`
				}
				if f.op != 1 || !f.fin || json.Unmarshal(f.payload, &m) != nil || m.S < 0 || m.S >= j.senders {
					r.Fail("send:torn", "%+v: frame op %d fin %v payload %q", j, f.op, f.fin, cut(string(f.payload), 200))
					break
				}
				size := j.sizes[(m.S*31+m.K*7)%len(j.sizes)]
				if m.Pad != strings.Repeat(string(rune('a'+m.S%26)), size) {
					r.Fail("send:content", "%+v: message %d of sender %d has %d bytes of padding", j, m.K, m.S, len(m.Pad))
				}
				if m.K != next[m.S] {
					r.Fail("send:order", "%+v: sender %d: message %d arrived when %d was due", j, m.S, m.K, next[m.S])
				}
				next[m.S] = m.K + 1
				total++
				if j.pings && j.closeAfter < 0 && total == j.senders*j.each {
					break
				}
			}
			if j.closeAfter < 0 && total != j.senders*j.each {
				r.Fail("send:lost", "%+v: %d messages arrived", j, total)
			}
			r.Count("messages", int64(total))
		})
	}
	// values that can't be written are an error for the sender
	h2 := ws.Handler{OnData: func(c ctx.C, conn *ws.Conn, n enc.Node) error {
		var err error
		if !r.Guard("send:panic", func() string { return "sending a value which can't be marshalled" }, func() { err = conn.Send(c, map[string]any{"f": func() {}}) }) {
			return nil
		}
		if err == nil {
			r.Fail("send:unsendable", "no error")
		}
		return conn.Send(c, "after")
	}}
	base2 := httpServer(r, c, func(s *fhttp.Server) { s.Handle("/ws", h2.Server()) })
	r.Within("send:unsendable", "unmarshallable value", func() {
		w, err := dialWS(base2, "/ws")
		if err != nil {
			r.Fail("send:connect", "%v", err)
			return
		}
		defer w.conn.Close()
		_ = w.text(`1`)
		if f, err := w.recv(); err != nil || string(f.payload) != `"after"` {
			r.Fail("send:unsendable", "after a failed send the client got %q, %v", f.payload, err)
		}
	})
}

// ---------------------------------------------------------------- C28

type WsNoReturn struct{ N *atomic.Int64 }

func (o *WsNoReturn) Hit(c ws.C) { o.N.Add(1) }

func c28(r *R) {
	c := quietCtx()
	rec := newRec()
	base := wsServer(r, c, rec, 0, 5)
	// failing Init
	for i := 0; i < r.N(120, 1500); i++ {
		g := r.Sub("init", i)
		kind := []string{"fail", "panic", "mistyped", "boom", "failcall"}[i%5]
		msg := "m-" + genString(g)
		key := fmt.Sprintf("f%d", i)
		r.Eval(kind + msg)
		r.Count("failures_"+kind, 1)
		r.Within("fail:"+kind, kind, func() {
			w, err := dialWS(base, "/ws")
			if err != nil {
				r.Fail("fail:connect", "%v", err)
				return
			}
			defer w.conn.Close()
			var got []wsMsg
			_ = w.frame(map[string]any{"channel": "ok", "type": "open", "path": "wsCounter", "data": WsInit{Conn: key + "ok", Chan: "ok"}})
			in := any(WsInit{Conn: key, Chan: "x", Fail: msg})
			switch kind {
			case "panic":
				in = WsInit{Conn: key, Chan: "x", Panic: true}
			case "mistyped":
				in = []any{map[string]any{"start": []int{}}, "x", []int{1}, map[string]any{"start": "one"}}[g.Intn(4)]
			case "boom", "failcall":
				in = WsInit{Conn: key, Chan: "x"}
			}
			_ = w.frame(map[string]any{"channel": "x", "type": "open", "path": "wsCounter", "data": in})
			switch kind {
			case "boom":
				_ = w.frame(map[string]any{"channel": "x", "path": "boom", "data": msg})
			case "failcall":
				_ = w.frame(map[string]any{"channel": "x", "path": "failOdd", "data": msg})
			}
			_ = w.frame(map[string]any{"channel": "ok", "path": "add", "data": 3})
			if g.Intn(2) == 0 || kind == "boom" || kind == "panic" {
				_ = w.frame(map[string]any{"channel": "x", "path": "add", "data": 5})
			}
			_ = w.frame(map[string]any{"type": "close"})
			if err := w.recvAll(func(m wsMsg) { got = append(got, m) }); err != nil {
				r.Fail("fail:"+kind, "%s: %v", kind, err)
			}
			told, sum := false, false
			for _, m := range got {
				if strings.Contains(m.Data, "SECRET") {
					r.Fail("fail:leak", "%s: a panic was sent to the client: %v", kind, m)
				}
				if m.Channel == "x" && m.Type == "error" {
					told = true
					var s string
					_ = json.Unmarshal([]byte(m.Data), &s)
					if (kind == "fail" || kind == "failcall") && !strings.Contains(s, msg) {
						r.Fail("fail:text", "%s: failed with %q, the error frame says %s", kind, msg, m.Data)
					}
				}
				if m.Channel == "x" && m.Type == "return" && m.Path == "failOdd" {
					told = true
					if !sameJSON(m.Data, jj(msg)) {
						r.Fail("fail:text", "%s: failed with %q, the return frame says %s", kind, msg, m.Data)
					}
				}
				if m.Channel == "x" && m.Path == "sum" && (kind == "fail" || kind == "mistyped" || kind == "panic") {
					r.Fail("fail:half-open", "%s: a channel whose Init failed still answers %v", kind, m)
				}
				if m.Channel == "ok" && m.Path == "sum" {
					sum = true
				}
			}
			if !told && (kind == "fail" || kind == "mistyped" || kind == "failcall") {
				r.Fail("fail:silent", "%s: nothing told the client (%v)", kind, got)
			}
			if sum && (kind == "boom" || kind == "panic") {
				r.Fail("fail:goes-on", "%s: after the panic the connection still answers (%v)", kind, got)
			}
			if kind == "boom" || kind == "panic" {
				rec.mu.Lock()
				ran := fmt.Sprint(rec.ran[key+"ok"])
				rec.mu.Unlock()
				if strings.Contains(ran, "add") {
					r.Fail("fail:goes-on", "%s: after the panic the connection still ran %s", kind, ran)
				}
			}
			if !sum && (kind == "fail" || kind == "mistyped" || kind == "failcall") {
				r.Fail("fail:others", "%s: the other channel did not answer any more (%v)", kind, got)
			}
		})
	}
	// registrations
	type weird int
	rc := 0
	for _, x := range []any{nil, 5, "x", weird(1), new(int), (*WsLog)(nil), []WsLog{}, map[string]int{}, func() {}, make(chan int), &[]int{1}, new(*WsLog)} {
		rc++
		r.Eval(fmt.Sprintf("register %T %d", x, rc))
		r.Guard("register:panic", func() string { return fmt.Sprintf("Register(%T)", x) }, func() {
			h := &ws.RpcHandler{}
			if err := h.Register(c, x); err == nil {
				r.Fail("register:accepted", "Register(%T) is no error", x)
			}
		})
	}
	r.Guard("register:struct", func() string { return "Register(struct)" }, func() {
		h := &ws.RpcHandler{}
		if err := h.Register(c, WsLog{Limit: 2}); err != nil {
			r.Fail("register:struct", "%v", err)
			return
		}
		// private fields which are set in the template stay private to it
		if err := h.Register(c, &WsCounter{Rec: rec, Base: 50, hidden: 9, sum: 1000, key: "tmpl"}); err != nil {
			r.Fail("register:struct", "%v", err)
			return
		}
		n := &atomic.Int64{}
		if err := h.Register(c, &WsNoReturn{N: n}); err != nil {
			r.Fail("register:struct", "%v", err)
			return
		}
		b := httpServer(r, c, func(s *fhttp.Server) { s.Handle("/ws", h.Server()) })
		for i := 0; i < 6; i++ {
			runModelWith(r, b, i, n)
		}
	})
	// OnConnect and OnData errors
	var conns, datas atomic.Int64
	var seen sync.Map
	type ctxKey struct{}
	h := ws.Handler{
		OnConnect: func(c ctx.C, conn *ws.Conn) (ctx.C, error) {
			n := conns.Add(1)
			if _, dup := seen.LoadOrStore(conn.SID(), true); dup || conn.SID() == "" {
				r.Fail("handler:sid", "session id %q twice", conn.SID())
			}
			if n%6 == 0 {
				panic("SECRET panic")
			}
			if n%3 == 0 {
				return c, errors.New("SECRET refused")
			}
			return ctx.WithValue(c, ctxKey{}, conn.SID()), nil
		},
		OnData: func(c ctx.C, conn *ws.Conn, n enc.Node) error {
			datas.Add(1)
			if v, _ := c.Value(ctxKey{}).(string); v != conn.SID() {
				r.Fail("handler:context", "OnData runs with the context of %q on %q", v, conn.SID())
			}
			if s, _ := n.(enc.String); s == "panic" {
				panic("SECRET panic")
			}
			if s, _ := n.(enc.String); s == "fail" {
				return &wsErr{"told", make(chan int)}
			}
			return conn.Send(c, n)
		},
	}
	base2 := httpServer(r, c, func(s *fhttp.Server) { s.Handle("/ws", h.Server()) })
	sent, refused := 0, 0
	for i := 0; i < r.N(60, 600); i++ {
		r.Eval(fmt.Sprint("handler", i))
		r.Within("handler", "generic handler", func() {
			w, err := dialWS(base2, "/ws")
			if err != nil {
				r.Fail("handler:connect", "%v", err)
				return
			}
			defer w.conn.Close()
			no := (i+1)%3 == 0
			for k := 0; k < 3; k++ {
				_ = w.text(fmt.Sprint(k))
			}
			boom := i%4 == 1
			if boom {
				_ = w.text(`"panic"`)
			} else {
				_ = w.text(`"fail"`)
			}
			_ = w.text(`99`)
			var got []string
			for {
				f, err := w.recv()
				if err != nil || f.op == 8 {
					break
				}
				got = append(got, string(f.payload))
			}
			if no {
				refused++
				if len(got) > 0 {
					r.Fail("handler:refused", "a refused connection received %q", got)
				}
				return
			}
			sent += 4
			if len(got) < 3 || got[0] != "0" || got[1] != "1" || got[2] != "2" {
				r.Fail("handler:echo", "got %q", got)
			}
			for _, x := range got {
				if strings.Contains(x, "SECRET") {
					r.Fail("handler:leak", "a panic was sent to the client: %q", x)
				}
			}
			if boom {
				if len(got) > 4 {
					r.Fail("handler:after-error", "after OnData panicked the connection went on: %q", got)
				}
				return
			}
			if len(got) > 4 || len(got) == 4 && !strings.Contains(got[3], "disconnect") {
				r.Fail("handler:after-error", "after OnData failed the connection went on: %q", got)
			}
			if len(got) == 4 && !strings.Contains(got[3], "told") {
				r.Fail("handler:disconnect", "OnData failed with %q, the disconnect frame is %s", "told", got[3])
			}
			if len(got) == 3 {
				r.Fail("handler:disconnect", "no disconnect frame after OnData failed")
			}
		})
	}
	if n := int(datas.Load()); n != sent {
		r.Fail("handler:executions", "%d messages on accepted connections up to the failure, OnData ran %d times (%d connections refused)", sent, n, refused)
	}
	c28cancel(r)
}

// runModelWith checks a handler whose objects were registered by value, with private state, and without results.
func runModelWith(r *R, base string, i int, n *atomic.Int64) {
	r.Within("register:use", "objects registered by value", func() {
		w, err := dialWS(base, "/ws")
		if err != nil {
			r.Fail("register:use", "%v", err)
			return
		}
		defer w.conn.Close()
		before := n.Load()
		key := fmt.Sprintf("reg%d", i)
		for _, f := range []string{`{"channel":"l","type":"open","path":"wsLog"}`, `{"channel":"l","path":"put","data":"a"}`, `{"channel":"l","path":"put","data":"b"}`, `{"channel":"l","path":"put","data":"c"}`, `{"channel":"l","path":"all"}`,
			`{"channel":"c","type":"open","path":"wsCounter","data":{"conn":"` + key + `","chan":"c","start":1}}`, `{"channel":"c","path":"peek"}`, `{"channel":"n","type":"open","path":"wsNoReturn"}`, `{"channel":"n","path":"hit"}`, `{"type":"close"}`} {
			_ = w.text(f)
		}
		m := &wsModel{want: []wsMsg{}}
		m.ret("l", "put")
		m.ret("l", "put")
		m.fail("l", "put", "limit 2")
		m.reply("l", "all", []string{"a", "b"})
		m.ret("l", "all")
		m.reply("c", "peek", map[string]any{"conn": key, "hidden": 0, "inits": 1, "base": 50, "sum": 51})
		m.ret("c", "peek")
		m.ret("n", "hit")
		var got []wsMsg
		if err := w.recvAll(func(m wsMsg) { got = append(got, m) }); err != nil {
			r.Fail("register:use", "%v", err)
		}
		if d := m.diff(got); d != "" {
			r.Fail("register:use", "%s (got %v)", d, got)
		}
		if n.Load() != before+1 {
			r.Fail("register:use", "the method ran %d times", n.Load()-before)
		}
	})
}

// c28cancel: cancelling the root context ends every connection, and the shutdown completes.
func c28cancel(r *R) {
	c, cf := ctx.WithCancel(quietCtx())
	rec := newRec()
	base := wsServer(r, c, rec, 0, 5)
	var ws []*rawWS
	for i := 0; i < 5; i++ {
		w, err := dialWS(base, "/ws")
		if err != nil {
			r.Fail("cancel:connect", "%v", err)
			continue
		}
		_ = w.frame(map[string]any{"channel": "x", "type": "open", "path": "wsCounter", "data": WsInit{Conn: fmt.Sprint("z", i), Chan: "x", Say: true}})
		_, _ = w.recv()
		ws = append(ws, w)
	}
	// clients that ask for a lot, and read nothing of it
	for i := 0; i < 3; i++ {
		w, err := dialWS(base, "/ws")
		if err != nil {
			r.Fail("cancel:connect", "%v", err)
			continue
		}
		defer w.conn.Close()
		if tc, ok := w.conn.(*net.TCPConn); ok {
			_ = tc.SetReadBuffer(4096)
		}
		key := fmt.Sprint("stuck", i)
		_ = w.frame(map[string]any{"channel": "x", "type": "open", "path": "wsCounter", "data": WsInit{Conn: key, Chan: "x"}})
		_ = w.frame(map[string]any{"channel": "x", "path": "burst", "data": 1 << 30})
		r.Within("cancel:stuck", "the call that writes a lot starts", func() {
			for busy := false; !busy; time.Sleep(time.Millisecond) {
				rec.mu.Lock()
				busy = strings.Contains(fmt.Sprint(rec.ran[key]), "burst")
				rec.mu.Unlock()
			}
		})
	}
	time.Sleep(time.Second) // nothing of what they asked for can be written any more
	r.Count("stuck_peers", 3)
	cf(errors.New("over"))
	r.Within("cancel", "connections end when the context is cancelled", func() {
		for _, w := range ws {
			if err := w.recvAll(func(wsMsg) {}); err != nil {
				r.Fail("cancel:end", "%v", err)
			}
			w.conn.Close()
		}
	})
	shutdown.Begin()
	r.Within("cancel:shutdown", "the shutdown completes once every connection ended", func() { <-shutdown.Done() })
	r.Eval("cancel")
}

// ---------------------------------------------------------------- C29

func c29(r *R) {
	for i := 0; i < r.N(120, 2000); i++ {
		g := r.Sub("case", i)
		rec := newRec()
		h := &ws.RpcHandler{}
		c, cf := ctx.WithCancel(quietCtx())
		h.MustRegister(c, &WsCounter{Rec: rec, Base: 10})
		h.MustRegister(c, &WsLog{Limit: 3})
		cli := h.NewTest(c)
		nch := 1 + g.Intn(4)
		var evals sync.Map
		r.Par("testclient", "channels of a test client", nch, func(w int) {
			g := r.Sub("chan", i*10+w)
			var log []string
			var mu sync.Mutex
			var frames []ws.Frame
			failNext := errors.New("callback refuses")
			var failing atomic.Bool
			key := fmt.Sprintf("t%d", w)
			failInit := nch == 1 && i%3 == 0 // a call on the channel may end the connection: no others on it
			in := WsInit{Conn: key, Chan: key, Start: w}
			if failInit {
				in.Fail = "init refuses"
			}
			call, err := cli.Open(c, "wsCounter", in, func(c ctx.C, f ws.Frame) error {
				mu.Lock()
				frames = append(frames, f)
				mu.Unlock()
				if failing.Load() && f.Type == "" {
					return failNext
				}
				return nil
			})
			if err != nil {
				r.Fail("testclient:open", "%v", err)
				return
			}
			if failInit {
				c2, cf2 := ctx.WithTimeout(c, 20*time.Second)
				defer cf2()
				if err := call(c2, "add", 1); err == nil || !strings.Contains(err.Error(), "init refuses") {
					r.Fail("testclient:init", "Init failed with %q, the first call returned %v", in.Fail, err)
				}
				return
			}
			sum := 10 + w
			for k := 0; k < 2+g.Intn(12); k++ {
				mu.Lock()
				frames = nil
				mu.Unlock()
				op := g.Intn(6)
				log = append(log, fmt.Sprint(op))
				switch op {
				case 0, 1:
					n := g.Intn(100)
					sum += n
					err := call(c, "add", n)
					mu.Lock()
					var got []string
					for _, f := range frames {
						if f.Path != "sum" && f.Path != "add" {
							continue // of a call given up earlier
						}
						got = append(got, fmt.Sprintf("%s:%s:%v", f.Path, f.Type, f.Data))
					}
					mu.Unlock()
					want := []string{fmt.Sprintf("sum::%d", sum), "add:return:<nil>"}
					if len(got) > 2 {
						got = got[len(got)-2:] // the return of a call which the callback ended
					}
					if err != nil || !reflect.DeepEqual(got, want) {
						r.Fail("testclient:call", "channel %d after %v: a call which succeeds returned %v, with frames %v by then, expected %v", w, log, err, got, want)
						return
					}
				case 2:
					msg := fmt.Sprintf("no %d.%d", w, k)
					if err := call(c, "fail", msg); err == nil || !strings.Contains(err.Error(), msg) {
						r.Fail("testclient:error", "channel %d after %v: a call failing with %q returned %v", w, log, msg, err)
						return
					}
				case 3:
					n := g.Intn(100)
					sum += n
					failing.Store(true)
					err := call(c, "add", n)
					failing.Store(false)
					if err == nil || !strings.Contains(err.Error(), failNext.Error()) {
						r.Fail("testclient:callback", "channel %d after %v: the callback refused a frame, the call returned %v", w, log, err)
						return
					}
				case 4:
					// the caller gives up
					c2, cf2 := ctx.WithTimeout(c, time.Duration(1+g.Intn(2000))*time.Microsecond)
					_ = call(c2, "nap", 4000)
					cf2()
				case 5:
					if err := call(c, "burst", 5); err != nil {
						r.Fail("testclient:call", "channel %d after %v: burst: %v", w, log, err)
						return
					}
					mu.Lock()
					n := 0
					for _, f := range frames {
						if f.Path == "burst" {
							n++
						}
					}
					mu.Unlock()
					if n != 6 {
						r.Fail("testclient:call", "channel %d after %v: %d frames came by the time burst(5) returned", w, log, n)
						return
					}
				}
			}
			evals.Store(w, strings.Join(log, ","))
		})
		key := ""
		evals.Range(func(_, v any) bool { key += v.(string) + ";"; return true })
		r.Eval(key)
		rec.mu.Lock()
		if len(rec.overlap) > 0 {
			r.Fail("testclient:parallel", "%v", rec.overlap)
		}
		rec.mu.Unlock()
		// once the connection is closed, calls end
		call, err := cli.Open(c, "wsLog", nil, func(ctx.C, ws.Frame) error { return nil })
		if err == nil {
			_ = cli.Close(c)
			r.Within("testclient:closed", "a call after the client was closed", func() {
				c2, cf2 := ctx.WithTimeout(c, 3*time.Second)
				defer cf2()
				if err := call(c2, "put", "x"); err == nil || c2.Err() != nil {
					r.Fail("testclient:closed", "a call after the client was closed returned %v", err)
				}
			})
		}
		cf(nil)
	}
}
