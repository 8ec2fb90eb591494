package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

const foregoPkg = "github.com/Aize-Public/forego"

// ---------------------------------------------------------------- registry

type prop struct {
	id    string
	rule  string   // how cases are made and what makes one non-trivial
	notes []string // assumptions
	run   func(r *R)
}

var props = map[string]*prop{}

func reg(id, rule string, run func(r *R), notes ...string) {
	if props[id] != nil {
		panic("dup " + id)
	}
	props[id] = &prop{id, rule, notes, run}
}

var scenarios = map[string]func(in []byte) any{}

// ---------------------------------------------------------------- results

type Violation struct {
	Sig    string `json:"sig"`
	Detail string `json:"detail"`
}

type result struct {
	Evaluations int64            `json:"evaluations"`
	Distinct    int64            `json:"distinct"`
	Counters    map[string]int64 `json:"counters"`
	Samples     []string         `json:"samples"`
	Violations  []Violation      `json:"violations"`
	Harness     []string         `json:"harness_errors"`
	Done        bool             `json:"done"`
}

// R is handed to every workload: it carries the random source and collects what the monitors saw.
type R struct {
	ID   string
	Seed int64
	Tier string
	Rng  *rand.Rand

	mu       sync.Mutex
	res      result
	seen     map[uint64]struct{}
	sigCount map[string]int
	out      string
	sampled  int64
	where    atomic.Value // what is being exercised now, for crash reports
	progress atomic.Int64 // cases evaluated and events counted, for the watchdog
	waiting  atomic.Int64 // scenarios running, they have their own limits
	expired  atomic.Bool  // a scenario passed its limit
	known    map[string]bool
	failedAt time.Time // first violation that is not a known finding
}

func (r *R) Thorough() bool { return r.Tier == "thorough" }

// N picks a case count by tier.
func (r *R) N(quick, thorough int) int {
	if r.Thorough() {
		return thorough
	}
	if k := quickScale[r.ID]; k > 1 {
		quick = min(quick*k, max(quick, thorough))
	}
	return quick
}

// quickScale: how much more of the quick workload fits into a quick run.
var quickScale = map[string]int{"C02": 4, "C03": 4, "C04": 3, "C05": 6, "C06": 4, "C08": 6, "C09": 2, "C10": 4, "C11": 10, "C12": 4, "C13": 4, "C14": 8, "C15": 8, "C16": 4, "C17": 16, "C18": 16, "C19": 16, "C20": 4, "C22": 8, "C23": 3, "C24": 8, "C25": 10, "C26": 20, "C27": 4, "C28": 16, "C29": 6, "C30": 6, "C31": 30, "C32": 20, "C33": 5, "C34": 8, "C35": 8, "C36": 10, "C37": 12, "C38": 4, "C39": 16, "C40": 8, "C41": 5, "C42": 3, "C43": 20, "C44": 20, "C45": 16, "C46": 20, "C47": 4, "C48": 12, "C49": 6, "C50": 4, "C51": 3, "C52": 8, "C53": 1, "C54": 20}

func init() {
	if k, _ := strconv.Atoi(os.Getenv("VERIF_SCALE")); k > 0 {
		for i := 1; i < 100; i++ {
			quickScale[fmt.Sprintf("C%02d", i)] = k
		}
	}
}

// Sub derives an independent deterministic random source.
func (r *R) Sub(name string, i int) *rand.Rand {
	h := fnv.New64a()
	fmt.Fprintf(h, "%s/%s/%d/%d", r.ID, name, i, r.Seed)
	return rand.New(rand.NewSource(int64(h.Sum64())))
}

// Eval counts one evaluated case. key identifies it; an empty key counts it as trivial.
func (r *R) Eval(key string) {
	r.progress.Add(1)
	r.mu.Lock()
	defer r.mu.Unlock()
	r.res.Evaluations++
	if key == "" {
		return
	}
	h := fnv.New64a()
	h.Write([]byte(key))
	k := h.Sum64()
	if _, ok := r.seen[k]; !ok {
		r.seen[k] = struct{}{}
		r.res.Distinct++
	}
}

func (r *R) Count(name string, n int64) {
	r.progress.Add(1)
	r.mu.Lock()
	r.res.Counters[name] += n
	r.mu.Unlock()
}

// Max keeps the maximum seen under a counter name.
func (r *R) Max(name string, n int64) {
	r.progress.Add(1)
	r.mu.Lock()
	if r.res.Counters[name] < n {
		r.res.Counters[name] = n
	}
	r.mu.Unlock()
}

func (r *R) Sample(f string, args ...any) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if len(r.res.Samples) < 6 {
		s := fmt.Sprintf(f, args...)
		if len(s) > 500 {
			s = s[:500] + "..."
		}
		r.res.Samples = append(r.res.Samples, s)
	}
}

// Fail records a violation; sig identifies the kind of failure (known findings are matched on it).
func (r *R) Fail(sig, f string, args ...any) {
	d := fmt.Sprintf(f, args...)
	if len(d) > 4000 {
		d = d[:4000] + "..."
	}
	r.mu.Lock()
	defer r.mu.Unlock()
	r.sigCount[sig]++
	if r.failedAt.IsZero() && !r.known[sig] {
		r.failedAt = time.Now()
	}
	if r.sigCount[sig] > 3 || len(r.res.Violations) > 60 {
		return
	}
	r.res.Violations = append(r.res.Violations, Violation{sig, d})
}

func (r *R) Failed() bool {
	r.mu.Lock()
	defer r.mu.Unlock()
	return len(r.res.Violations) > 0
}

func (r *R) HarnessError(f string, args ...any) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if len(r.res.Harness) < 20 {
		r.res.Harness = append(r.res.Harness, fmt.Sprintf(f, args...))
	}
}

// Guard runs f; a panic is a violation with signature sig.
func (r *R) Guard(sig string, what func() string, f func()) (ok bool) {
	defer func() {
		if e := recover(); e != nil {
			st := string(debug.Stack())
			r.Fail(sig, "panic: %v\nwhile: %s\n%s", e, what(), trimStack(st))
			ok = false
		}
	}()
	f()
	return true
}

func trimStack(s string) string {
	var keep []string
	for _, l := range strings.Split(s, "\n") {
		if strings.Contains(l, "runtime/debug") || strings.Contains(l, "runtime.gopanic") {
			continue
		}
		keep = append(keep, l)
		if len(keep) > 24 {
			break
		}
	}
	return strings.Join(keep, "\n")
}

// hangLimit is the watchdog: far beyond anything a loaded machine needs for these bounded steps.
// It starts again with each case evaluated or event counted; a process that works all the time gets longer.
const (
	hangLimit = 45 * time.Second
	busyLimit = 240 * time.Second
)

// Within runs f (a bounded step). If it has not returned when the watchdog fires, every goroutine is
// dumped; goroutines blocked inside forego make it a violation of bounded progress, otherwise the
// run is inconclusive. In both cases the child ends, since f cannot be stopped.
func (r *R) Within(sig, what string, f func()) {
	done := make(chan struct{})
	var pan any
	var st string
	go func() {
		defer close(done)
		defer func() {
			if pan = recover(); pan != nil {
				st = string(debug.Stack())
			}
		}()
		f()
	}()
	tick := time.NewTicker(time.Second)
	defer tick.Stop()
	last, cpu := r.progress.Load(), cpuTime()
	var idle time.Duration // in ticks seen: a machine that was suspended does not count
	for {
		select {
		case <-done:
			if pan != nil {
				r.Fail(sig+":panic", "panic: %v\nwhile: %s\n%s", pan, what, trimStack(st))
			}
			return
		case <-tick.C:
		}
		idle += time.Second
		switch now := r.progress.Load(); {
		case now != last:
			last, idle, cpu = now, 0, cpuTime()
		case idle > busyLimit, idle > hangLimit && cpuTime()-cpu < idle/10:
			r.hang(sig, what)
		}
	}
}

func (r *R) hang(sig, what string) {
	buf := make([]byte, 4<<20)
	buf = buf[:runtime.Stack(buf, true)]
	var stuck []string
	for _, g := range strings.Split(string(buf), "\n\n") {
		if strings.Contains(g, foregoPkg+"/") {
			stuck = append(stuck, g)
		}
	}
	if len(stuck) > 0 {
		sort.SliceStable(stuck, func(i, j int) bool { return len(stuck[i]) < len(stuck[j]) })
		if len(stuck) > 6 {
			stuck = stuck[:6]
		}
		r.Fail(sig+":hang", "no progress within %v: %s\n%s", hangLimit, what, strings.Join(stuck, "\n\n"))
	} else {
		// The call returned to no one: the operation never completed, although nothing of forego is
		// still running (for instance a reply that was never produced).
		r.Fail(sig+":hang", "no progress within %v: %s (no goroutine left inside forego)", hangLimit, what)
	}
	r.finish()
	os.Exit(0)
}

// Par runs n goroutines f(i) and waits for all of them (under the watchdog).
func (r *R) Par(sig, what string, n int, f func(i int)) {
	r.Within(sig, what, func() {
		var wg sync.WaitGroup
		start := make(chan struct{})
		for i := 0; i < n; i++ {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				defer func() {
					if e := recover(); e != nil {
						r.Fail(sig+":panic", "panic: %v\nwhile: %s\n%s", e, what, trimStack(string(debug.Stack())))
					}
				}()
				<-start
				f(i)
			}(i)
		}
		close(start)
		wg.Wait()
	})
}

func (r *R) finish() {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.res.Done = true
	b, _ := json.Marshal(r.res)
	tmp := r.out + ".tmp"
	if err := os.WriteFile(tmp, b, 0o644); err == nil {
		_ = os.Rename(tmp, r.out)
	}
}

// ---------------------------------------------------------------- child

func envInt(name string, def int64) int64 {
	if v, err := strconv.ParseInt(os.Getenv(name), 10, 64); err == nil {
		return v
	}
	return def
}

func childMain(id string) {
	p := props[id]
	if p == nil {
		fmt.Fprintln(os.Stderr, "no such property", id)
		os.Exit(2)
	}
	r := &R{ID: id, Seed: envInt("VERIF_SEED", 1), Tier: os.Getenv("VERIF_TIER"), out: os.Getenv("MON_OUT"),
		seen: map[uint64]struct{}{}, sigCount: map[string]int{}}
	if r.Tier != "thorough" {
		r.Tier = "quick"
	}
	r.res.Counters = map[string]int64{}
	r.known = map[string]bool{}
	for _, k := range loadFindings() {
		if k.prop == id {
			r.known[k.sig] = true
		}
	}
	r.Rng = r.Sub("main", 0)
	func() {
		defer func() {
			if e := recover(); e != nil {
				st := string(debug.Stack())
				r.Fail("workload:panic", "the workload could not go on: %v\n%s", e, trimStack(st))
			}
		}()
		// steps have watchdogs of their own; this one is for what is not a step
		go r.watch()
		p.run(r)
	}()
	r.finish()
	os.Exit(0)
}

func (r *R) watch() {
	limit := 120 * time.Second
	if r.Thorough() {
		limit = 300 * time.Second
	}
	last, cpu := r.progress.Load(), cpuTime()
	var idle time.Duration
	for {
		time.Sleep(time.Second)
		idle += time.Second
		r.mu.Lock()
		failed := !r.failedAt.IsZero() && time.Since(r.failedAt) > limit
		r.mu.Unlock()
		if failed { // it will not get any better
			r.finish()
			os.Exit(0)
		}
		switch now := r.progress.Load(); {
		case now != last, r.waiting.Load() > 0:
			last, idle, cpu = now, 0, cpuTime()
		case idle > 3*limit, idle > limit && cpuTime()-cpu < idle/10:
			r.hang("workload", "the workload as a whole")
		}
	}
}

// ---------------------------------------------------------------- scenarios in a process of their own

type scenarioResult struct {
	Out      []byte // JSON written by the scenario
	Exit     int
	Signal   string
	Stderr   string
	TimedOut bool
	Races    []string
}

// Scenario runs a registered scenario in a fresh process. during may send it signals.
func (r *R) Scenario(name string, in any, timeout time.Duration, during func(p *os.Process, line <-chan string)) scenarioResult {
	r.waiting.Add(1)
	defer r.waiting.Add(-1)
	if r.expired.Load() { // one that hung is reported; no need to wait as long for each
		timeout = min(timeout, 20*time.Second)
	}
	j, err := json.Marshal(in)
	if err != nil {
		panic(err)
	}
	dir, err := os.MkdirTemp("", "monsc")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	self, _ := os.Executable()
	cmd := exec.Command(self, "scenario", name)
	cmd.Stdin = bytes.NewReader(j)
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=0 exitcode=0 atexit_sleep_ms=20 log_path="+dir+"/race")
	pr, pw, err := os.Pipe()
	if err != nil {
		panic(err)
	}
	or, ow, err := os.Pipe()
	if err != nil {
		panic(err)
	}
	errFile, err := os.Create(dir + "/stderr")
	if err != nil {
		panic(err)
	}
	cmd.ExtraFiles = []*os.File{pw}
	cmd.Stdout = ow
	cmd.Stderr = errFile
	if err := cmd.Start(); err != nil {
		panic(err)
	}
	pw.Close()
	ow.Close()
	lines := make(chan string, 4096)
	go func() {
		defer close(lines)
		sc := bufio.NewScanner(or)
		sc.Buffer(nil, 1<<20)
		for sc.Scan() {
			if s := sc.Text(); strings.HasPrefix(s, "@@") {
				select {
				case lines <- strings.TrimPrefix(s, "@@"):
				default:
				}
			}
		}
	}()
	var out []byte
	var wg sync.WaitGroup
	wg.Add(1)
	go func() {
		defer wg.Done()
		var b bytes.Buffer
		_, _ = b.ReadFrom(pr)
		out = b.Bytes()
	}()
	if during != nil {
		go during(cmd.Process, lines)
	}
	res := scenarioResult{}
	waited := make(chan error, 1)
	go func() { waited <- cmd.Wait() }()
	select {
	case <-waited:
	case <-time.After(timeout):
		res.TimedOut = true
		r.expired.Store(true)
		_ = cmd.Process.Signal(sigquit)
		select {
		case <-waited:
		case <-time.After(5 * time.Second):
			_ = cmd.Process.Kill()
			<-waited
		}
	}
	wg.Wait()
	or.Close()
	pr.Close()
	errFile.Close()
	res.Out = out
	if st := cmd.ProcessState; st != nil {
		res.Exit = st.ExitCode()
		res.Signal = exitSignal(st)
	}
	b, _ := os.ReadFile(dir + "/stderr")
	if len(b) > 200000 {
		b = b[len(b)-200000:]
	}
	res.Stderr = string(b)
	res.Races = readRaces(dir)
	return res
}

func scenarioMain(name string) {
	f := scenarios[name]
	if f == nil {
		fmt.Fprintln(os.Stderr, "no such scenario", name)
		os.Exit(2)
	}
	var b bytes.Buffer
	_, _ = b.ReadFrom(os.Stdin)
	out := f(b.Bytes())
	j, err := json.Marshal(out)
	if err != nil {
		panic(err)
	}
	w := os.NewFile(3, "out")
	_, _ = w.Write(j)
	w.Close()
	os.Exit(0)
}

// say lets a scenario tell the process that runs it how far it got.
func say(f string, args ...any) { fmt.Printf("@@"+f+"\n", args...) }

// ---------------------------------------------------------------- race reports

func readRaces(dir string) []string {
	var out []string
	m, _ := filepath.Glob(dir + "/race.*")
	for _, f := range m {
		b, _ := os.ReadFile(f)
		for _, blk := range strings.Split(string(b), "==================") {
			if strings.Contains(blk, "DATA RACE") {
				out = append(out, strings.TrimSpace(blk))
			}
		}
	}
	return out
}

var frameRE = regexp.MustCompile(`(?m)^\s+(github\.com/Aize-Public/forego[^\s(]*(?:\([^)]*\))?[^\s(]*)\(`)

// raceSig: the pair of innermost forego frames of the report, line numbers stripped.
func raceSig(blk string) (sig string, ours bool) {
	var tops []string
	for _, part := range regexp.MustCompile(`(?m)^(?:Read|Write|Previous read|Previous write|Atomic|Previous atomic)[^\n]*$`).Split(blk, -1)[1:] {
		// stop at the goroutine creation stacks
		if i := strings.Index(part, "Goroutine "); i >= 0 {
			part = part[:i]
		}
		if m := frameRE.FindStringSubmatch(part); m != nil {
			tops = append(tops, strings.TrimPrefix(m[1], foregoPkg+"/"))
		}
	}
	if len(tops) == 0 {
		return "race:outside", false
	}
	sort.Strings(tops)
	return "race:" + strings.Join(tops, "|"), true
}

func (r *R) Races(blks []string, ctx string) {
	for _, b := range blks {
		sig, ours := raceSig(b)
		if sig == "race:enc.Pipe.Close|enc.Pipe.Write" && strings.Contains(b, "runtime.closechan()") && strings.Contains(b, "runtime.chansend()") {
			continue // a pipe is closed by closing its channel under its writers, on purpose: they get an error
		}
		if ours {
			r.Fail(sig, "%s\n%s", ctx, b)
		} else {
			r.HarnessError("data race without a forego frame (%s):\n%s", ctx, b)
		}
	}
}
