package main

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math"
	"math/big"
	"math/rand"
	"os"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/Aize-Public/forego/ctx"
	"github.com/Aize-Public/forego/enc"
	"github.com/Aize-Public/forego/shutdown"
	"github.com/Aize-Public/forego/storage"
	"github.com/Aize-Public/forego/utils"
	"github.com/anishathalye/porcupine"
)

func init() {
	reg("C30", "processes in which goroutines take and release holds, wait for the shutdown and watch its channels while it begins from several of them; the holds known to be held are counted around every call and compared with what the channels say; the beginning itself raced from several threads; non-trivial: distinct schedule seed and phase", c30)
	reg("C31", "processes waiting for signals, sent sequences of SIGINT, SIGTERM and SIGQUIT, each sent once the effect of the one before it was seen, with and without holds; non-trivial: distinct script", c31)
	reg("C32", "concurrent Get, Upsert, Delete and Range on few keys from several goroutines, recorded as histories and given to a linearizability checker; values are modified after being handed over in either direction; non-trivial: distinct history", c32)
	reg("C33", "random tables of nested values in every node representation, random filters; the rows given to the callback are compared with a model, also when the callback stops, fails (with any kind of error) or changes the table; non-trivial: distinct (table, filters)", c33)
	scenarios["shutdown"] = scShutdown
	scenarios["shutdown5"] = scShutdown5
	scenarios["shutbegin"] = scShutBegin
	scenarios["signals"] = scSignals
}

// ---------------------------------------------------------------- C30

type shutIn struct {
	Seed   int64
	Rounds int
	Churn  int
}

type shutOut struct {
	Bad      []string
	Counters map[string]int64
}

func closedNow(ch <-chan struct{}) bool {
	select {
	case <-ch:
		return true
	default:
		return false
	}
}

func closesWithin(ch <-chan struct{}, d time.Duration) bool {
	select {
	case <-ch:
		return true
	case <-time.After(d):
		return false
	}
}

const shutWait = 20 * time.Second

func scShutdown(in []byte) any {
	var p shutIn
	_ = json.Unmarshal(in, &p)
	rng := rand.New(rand.NewSource(p.Seed))
	out := shutOut{Counters: map[string]int64{}}
	var mu sync.Mutex
	bad := func(f string, args ...any) {
		mu.Lock()
		defer mu.Unlock()
		if len(out.Bad) < 10 {
			out.Bad = append(out.Bad, fmt.Sprintf(f, args...))
		}
	}
	count := func(k string, n int64) { mu.Lock(); out.Counters[k] += n; mu.Unlock() }

	// nothing held: complete
	if !closesWithin(shutdown.Done(), shutWait) {
		bad("early: Done did not close although nothing holds the shutdown")
	}
	if closedNow(shutdown.Started()) || closedNow(shutdown.Started5Sec()) {
		bad("started: Started is closed although nothing began the shutdown")
	}
	var begun atomic.Bool // set right before the first Begin
	var kept []<-chan struct{}
	for round := 0; round < p.Rounds; round++ {
		// A base hold keeps the shutdown open for sure; other goroutines come and go.
		base := shutdown.Hold()
		var baseHeld atomic.Bool
		baseHeld.Store(true)
		var dones []<-chan struct{}
		var dmu sync.Mutex
		var wg sync.WaitGroup
		stop := make(chan struct{})
		beginRound := round == p.Rounds/2
		waiters := 0
		if round <= p.Rounds/2 {
			waiters = rng.Intn(4)
		}
		for i := 0; i < p.Churn; i++ {
			seed := rng.Int63()
			wg.Add(1)
			go func() {
				defer wg.Done()
				r := rand.New(rand.NewSource(seed))
				for {
					select {
					case <-stop:
						return
					default:
					}
					if r.Intn(2) == 0 {
						// a hold of our own also keeps every Done of ours open
						h := shutdown.Hold()
						d := shutdown.Done()
						if r.Intn(3) == 0 {
							runtime.Gosched()
						}
						if r.Intn(20) == 0 {
							time.Sleep(time.Duration(r.Intn(300)) * time.Microsecond)
						}
						if closedNow(d) {
							bad("held: Done closed while its own caller holds the shutdown")
						}
						h.Release()
						count("holds", 1)
						dmu.Lock()
						if len(dones) < 4000 {
							dones = append(dones, d)
						}
						dmu.Unlock()
					} else {
						d := shutdown.Done()
						if r.Intn(3) == 0 {
							runtime.Gosched()
						}
						if closedNow(d) && baseHeld.Load() {
							bad("held: Done closed while the shutdown is held")
						}
						dmu.Lock()
						if len(dones) < 4000 {
							dones = append(dones, d)
						}
						dmu.Unlock()
					}
					count("observations", 1)
				}
			}()
		}
		var held atomic.Int64 // HoldAndWait returned and not yet released
		var letGo = make(chan struct{})
		var wwg sync.WaitGroup
		for i := 0; i < waiters; i++ {
			wwg.Add(1)
			go func() {
				defer wwg.Done()
				rel := shutdown.HoldAndWait()
				if !begun.Load() {
					bad("wait: HoldAndWait returned before the shutdown began")
				}
				held.Add(1)
				<-letGo
				held.Add(-1)
				rel.Release()
				count("waited", 1)
			}()
		}
		time.Sleep(time.Duration(rng.Intn(4000)) * time.Microsecond)
		if !begun.Load() && closedNow(shutdown.Started()) {
			bad("started: Started closed although nothing began the shutdown")
		}
		if beginRound || waiters > 0 {
			k := 1 + rng.Intn(4)
			begun.Store(true)
			var bwg sync.WaitGroup
			for i := 0; i < k; i++ {
				bwg.Add(1)
				go func() {
					defer bwg.Done()
					shutdown.Begin()
					if !closedNow(shutdown.Started()) {
						bad("started: Begin returned and Started is not closed")
					}
				}()
			}
			bwg.Wait()
			t0 := time.Now()
			for held.Load() < int64(waiters) {
				if time.Since(t0) > shutWait {
					bad("wait: HoldAndWait did not return after the shutdown began")
					return out
				}
				time.Sleep(time.Millisecond)
			}
			shutdown.Begin() // again: nothing new
		}
		close(stop)
		wg.Wait()
		time.Sleep(time.Duration(rng.Intn(2000)) * time.Microsecond)
		dmu.Lock()
		for _, d := range dones {
			if closedNow(d) {
				bad("held: a Done channel closed while the shutdown is held (%d watched)", len(dones))
				break
			}
		}
		dmu.Unlock()
		// releasing the base hold is not enough while waiters hold
		if waiters > 0 {
			baseHeld.Store(false)
			base.Release()
			time.Sleep(time.Duration(rng.Intn(3000)) * time.Microsecond)
			if d := shutdown.Done(); closedNow(d) || (rng.Intn(3) == 0 && closesWithin(d, 5*time.Millisecond)) {
				bad("held: Done closed while HoldAndWait still holds the shutdown")
			}
			for _, d := range dones {
				if closedNow(d) {
					bad("held: a Done channel closed while HoldAndWait holds the shutdown")
					break
				}
			}
			close(letGo)
			wwg.Wait()
		} else {
			baseHeld.Store(false)
			base.Release()
		}
		t0 := time.Now()
		for i, d := range dones {
			if !closesWithin(d, shutWait-time.Since(t0)) {
				bad("done: nothing holds the shutdown any more and Done channel %d of %d stays open", i, len(dones))
				break
			}
		}
		if !closesWithin(shutdown.Done(), shutWait) {
			bad("done: Done stays open with nothing held")
		}
		count("done_channels", int64(len(dones)))
		count("rounds", 1)
		if len(dones) > 0 {
			kept = append(kept, dones[0])
		}
		for _, d := range kept {
			if !closedNow(d) {
				bad("done: a Done channel reopened")
			}
		}
		// zero crossings: holds come and go while others ask for completion
		var cwg sync.WaitGroup
		for i := 0; i < 4; i++ {
			cwg.Add(1)
			go func(i int) {
				defer cwg.Done()
				for k := 0; k < 40; k++ {
					if (i+k)%2 == 0 {
						h := shutdown.Hold()
						h.Release()
					} else if d := shutdown.Done(); !closesWithin(d, shutWait) {
						bad("done: Done stays open while holds only come and go")
					}
				}
			}(i)
		}
		cwg.Wait()
		count("crossings", 160)
		if len(out.Bad) > 0 {
			break
		}
	}
	if !begun.Load() {
		begun.Store(true)
		shutdown.Begin()
	}
	// once begun, HoldAndWait returns, holding
	ch := make(chan shutdown.ReleaseFn, 1)
	go func() { ch <- shutdown.HoldAndWait() }()
	select {
	case rel := <-ch:
		if closedNow(shutdown.Done()) || closesWithin(shutdown.Done(), 5*time.Millisecond) {
			bad("held: Done closed although HoldAndWait holds the shutdown")
		}
		rel.Release()
	case <-time.After(shutWait):
		bad("wait: HoldAndWait does not return once the shutdown has begun")
	}
	if !closesWithin(shutdown.Done(), shutWait) {
		bad("done: Done stays open at the end")
	}
	return out
}

func scShutdown5(in []byte) any {
	var p shutIn
	_ = json.Unmarshal(in, &p)
	out := shutOut{Counters: map[string]int64{}}
	bad := func(f string, args ...any) { out.Bad = append(out.Bad, fmt.Sprintf(f, args...)) }
	// a waiter alone holds the shutdown, from before it begins
	ch := make(chan shutdown.ReleaseFn, 1)
	go func() { ch <- shutdown.HoldAndWait() }()
	t0 := time.Now()
	for closesWithin(shutdown.Done(), 100*time.Millisecond) {
		if time.Since(t0) > shutWait {
			bad("wait: a goroutine inside HoldAndWait does not hold the shutdown")
			return out
		}
	}
	select {
	case <-ch:
		bad("wait: HoldAndWait returned before the shutdown began")
	default:
	}
	if closedNow(shutdown.Started5Sec()) {
		bad("5s: Started5Sec closed before the shutdown began")
	}
	time.Sleep(time.Duration(p.Seed%5) * 100 * time.Millisecond)
	b0 := time.Now()
	shutdown.Begin()
	got := shutdown.Started5Sec()
	_ = shutdown.Started
	time.Sleep(time.Second)
	shutdown.Begin()
	select {
	case <-got:
		if d := time.Since(b0); d < 4990*time.Millisecond {
			bad("5s: Started5Sec closed %v after the shutdown began", d)
		} else {
			out.Counters["5sec_after_ms"] = d.Milliseconds()
		}
	case <-time.After(shutWait):
		bad("5s: Started5Sec did not close %v after the shutdown began", time.Since(b0))
	}
	d := shutdown.Done()
	if closedNow(d) {
		bad("held: Done closed while held")
	}
	select {
	case rel := <-ch:
		rel.Release()
	case <-time.After(shutWait):
		bad("wait: HoldAndWait did not return")
	}
	if !closesWithin(d, shutWait) {
		bad("done: Done stays open")
	}
	return out
}

func (r *R) shutResult(name string, in any, res scenarioResult) {
	var out shutOut
	r.Races(res.Races, "scenario "+name)
	if res.TimedOut {
		r.Fail("hang", "scenario %s %+v made no progress:\n%s", name, in, tail(res.Stderr, 3000))
		return
	}
	if err := json.Unmarshal(res.Out, &out); err != nil || res.Exit != 0 {
		crash, ours := crashOf(res.Stderr)
		if ours {
			r.Fail("crash:"+crashSig(crash), "scenario %s %+v died:\n%s", name, in, cut(crash, 3000))
		} else {
			r.HarnessError("scenario %s died: exit %d %s %s", name, res.Exit, res.Signal, tail(res.Stderr, 2000))
		}
		return
	}
	for _, b := range out.Bad {
		sig, _, _ := strings.Cut(b, ":")
		r.Fail(sig, "scenario %s %+v: %s", name, in, b)
	}
	for k, n := range out.Counters {
		if k == "5sec_after_ms" {
			r.Max(k, n)
		} else {
			r.Count(k, n)
		}
	}
}

// scShutBegin begins the shutdown of the process from several goroutines at
// the very same moment, which can be done once in a process.
func scShutBegin(in []byte) any {
	var p shutIn
	_ = json.Unmarshal(in, &p)
	out := shutOut{Counters: map[string]int64{}}
	var ready, early atomic.Int64
	var open atomic.Int64
	var wg sync.WaitGroup
	first := make(chan struct{})
	go func() { shutdown.HoldAndWait().Release(); close(first) }()
	for i := 0; i < p.Churn; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			runtime.LockOSThread()
			ready.Add(1)
			for ready.Load() < int64(p.Churn) { // no sleep: all leave at once
			}
			for k := 0; k < i*int(p.Seed%7); k++ {
				early.Add(1)
			}
			shutdown.Begin()
			if !closedNow(shutdown.Started()) {
				open.Add(1)
			}
		}(i)
	}
	wg.Wait()
	if open.Load() > 0 {
		out.Bad = append(out.Bad, fmt.Sprintf("started: Begin returned %d times with Started not closed", open.Load()))
	}
	if !closesWithin(first, shutWait) {
		out.Bad = append(out.Bad, "wait: HoldAndWait did not return after the shutdown began")
	}
	if closedNow(shutdown.Started5Sec()) {
		out.Bad = append(out.Bad, "5s: Started5Sec closed at once")
	}
	out.Counters["begun_at_once"] = int64(p.Churn)
	return out
}

func c30(r *R) {
	n := r.N(6, 60)
	rounds := r.N(16, 60)
	sem := make(chan struct{}, 7)
	var wg sync.WaitGroup
	defer func() { // after the others, which would take the processors these need
		bsem := make(chan struct{}, 2)
		for i := 0; i < r.N(60, 3000); i++ {
			wg.Add(1)
			bsem <- struct{}{}
			go func(i int) {
				defer wg.Done()
				defer func() { <-bsem }()
				in := shutIn{Seed: int64(i), Churn: 2 + i%3}
				r.shutResult("shutbegin", in, r.Scenario("shutbegin", in, 60*time.Second, nil))
				r.Eval(fmt.Sprint("begin/", i))
			}(i)
		}
		wg.Wait()
	}()
	for i := 0; i < r.N(1, 6); i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			in := shutIn{Seed: r.Seed + int64(i)}
			r.shutResult("shutdown5", in, r.Scenario("shutdown5", in, 90*time.Second, nil))
			r.Eval(fmt.Sprint("5/", in.Seed))
		}(i)
	}
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			sem <- struct{}{}
			defer func() { <-sem }()
			rng := r.Sub("shut", i)
			in := shutIn{Seed: rng.Int63(), Rounds: rounds, Churn: 1 + rng.Intn(8)}
			r.shutResult("shutdown", in, r.Scenario("shutdown", in, 120*time.Second, nil))
			for k := 0; k < rounds; k++ {
				r.Eval(fmt.Sprint(in.Seed, "/", k))
			}
			if i < 2 {
				r.Sample("%+v", in)
			}
		}(i)
	}
	wg.Wait()
}

// ---------------------------------------------------------------- C31

type sigIn struct {
	Holds    int
	Sigs     []string // sent one after the other
	Release  int      // holds are released after this many effects were seen (-1: never)
	PreBegin bool     // the program begins the shutdown itself first
}

// scSignals waits for signals and reports what happens to it, as it happens.
func scSignals(in []byte) any {
	var p sigIn
	_ = json.Unmarshal(in, &p)
	var holds []shutdown.ReleaseFn
	for i := 0; i < p.Holds; i++ {
		holds = append(holds, shutdown.Hold())
	}
	c, cf := ctx.WithCancel(quietCtx())
	released := make(chan struct{})
	var effects = make(chan string, 10)
	if p.PreBegin {
		shutdown.Begin()
	}
	ret := make(chan struct{})
	go func() {
		shutdown.WaitForSignal(c, cf)
		close(ret)
	}()
	// ready once it blocks in there
	for k, seen := 0, 0; k < 400 && seen < 3 && p.Holds > 0; k++ {
		time.Sleep(5 * time.Millisecond)
		buf := make([]byte, 1<<20)
		buf = buf[:runtime.Stack(buf, true)]
		ok := false
		for _, g := range strings.Split(string(buf), "\n\n") {
			head, _, _ := strings.Cut(g, "\n")
			if strings.Contains(g, "forego/shutdown.WaitForSignal") && (strings.Contains(head, "select") || strings.Contains(head, "chan receive")) {
				ok = true
			}
		}
		if ok {
			seen++
		} else {
			seen = 0
		}
	}
	say("ready")
	go func() {
		<-shutdown.Started()
		effects <- "started"
	}()
	go func() {
		<-c.Done()
		effects <- "cancelled"
	}()
	n := 0
	rel := func() {
		if n == p.Release {
			for i, h := range holds {
				time.Sleep(3 * time.Millisecond)
				select {
				case <-ret:
					say("early return with %d holds", len(holds)-i)
				default:
				}
				h.Release()
			}
			close(released)
		}
	}
	rel()
	deadline := time.After(25 * time.Second)
	for {
		select {
		case e := <-effects:
			if e == "cancelled" && context.Cause(c) == nil {
				say("no cause")
			}
			say("effect %s", e)
			n++
			rel()
		case <-ret:
			say("returned started=%v cancelled=%v", closedNow(shutdown.Started()), c.Err() != nil)
			ret = nil
			// a late effect would be wrong as well
			time.Sleep(30 * time.Millisecond)
			select {
			case <-released:
			default:
				if p.Holds > 0 {
					say("early return")
				}
			}
			return true
		case <-deadline:
			return false
		}
	}
}

func c31(r *R) {
	type scr struct {
		in    sigIn
		want  []string // effects in order
		exit  bool     // ends by the third signal
		label string
	}
	sigs := []string{"INT", "TERM", "QUIT"}
	num := map[string]os.Signal{"INT": os.Interrupt, "TERM": syscall.SIGTERM, "QUIT": syscall.SIGQUIT}
	var list []scr
	rng := r.Sub("sig", 0)
	pick := func() string { return sigs[rng.Intn(3)] }
	reps := r.N(1, 8)
	for k := 0; k < reps; k++ {
		list = append(list,
			scr{in: sigIn{Holds: 0, Release: -1}, label: "none held"},
			scr{in: sigIn{Holds: 1 + rng.Intn(3), Release: 0}, label: "released without a signal"},
		)
		for _, s := range sigs {
			list = append(list,
				scr{in: sigIn{Holds: 1 + rng.Intn(3), Sigs: []string{s}, Release: 1}, want: []string{"started"}, label: "one"},
				scr{in: sigIn{Holds: 1 + rng.Intn(3), Sigs: []string{pick(), s}, Release: 2}, want: []string{"started", "cancelled"}, label: "two"},
				scr{in: sigIn{Holds: 1 + rng.Intn(3), Sigs: []string{pick(), pick(), s}, Release: -1}, want: []string{"started", "cancelled"}, exit: true, label: "three"},
			)
		}
		same := pick()
		list = append(list, scr{in: sigIn{Holds: 1, Sigs: []string{same, same, same}, Release: -1}, want: []string{"started", "cancelled"}, exit: true, label: "three of the same"})
	}
	sem := make(chan struct{}, 8)
	var wg sync.WaitGroup
	for i, s := range list {
		wg.Add(1)
		go func(i int, s scr) {
			defer wg.Done()
			sem <- struct{}{}
			defer func() { <-sem }()
			var got []string
			var mu sync.Mutex
			var sent int
			var sentAt time.Time
			finished := make(chan struct{})
			res := r.Scenario("signals", s.in, 60*time.Second, func(p *os.Process, lines <-chan string) {
				defer close(finished)
				send := func() {
					if sent < len(s.in.Sigs) {
						_ = p.Signal(num[s.in.Sigs[sent]])
						sent++
						sentAt = time.Now()
					}
				}
				for l := range lines {
					mu.Lock()
					got = append(got, l)
					mu.Unlock()
					if l == "ready" || strings.HasPrefix(l, "effect ") {
						time.Sleep(20 * time.Millisecond)
						send()
					}
				}
			})
			select {
			case <-finished:
			case <-time.After(5 * time.Second):
			}
			mu.Lock()
			defer mu.Unlock()
			r.Races(res.Races, "signals "+s.label)
			desc := fmt.Sprintf("%s %+v: saw %q, exit %d %s", s.label, s.in, got, res.Exit, res.Signal)
			if i < 4 {
				r.Sample("%s", desc)
			}
			r.Eval(fmt.Sprintf("%s/%v", s.label, s.in))
			r.Count("signals_sent", int64(sent))
			if res.TimedOut {
				r.Fail("hang", "%s", desc)
				return
			}
			if len(got) == 0 || got[0] != "ready" {
				// holds released or none: it may return before being ready
				if crash, ours := crashOf(res.Stderr); ours {
					r.Fail("crash:"+crashSig(crash), "%s\n%s", desc, cut(crash, 3000))
				} else {
					r.HarnessError("%s: %s", desc, tail(res.Stderr, 1000))
				}
				return
			}
			if res.Signal != "" {
				r.Fail("killed", "the signal was not handled: %s\n%s", desc, tail(res.Stderr, 800))
				return
			}
			var eff []string
			returned := ""
			for _, l := range got {
				switch {
				case strings.HasPrefix(l, "effect "):
					eff = append(eff, strings.TrimPrefix(l, "effect "))
				case strings.HasPrefix(l, "returned"):
					returned = l
				case l == "no cause" || strings.HasPrefix(l, "early"):
					r.Fail("early", "%s", desc)
				}
			}
			if fmt.Sprint(eff) != fmt.Sprint(s.want) {
				r.Fail("effects", "want effects %v: %s", s.want, desc)
				return
			}
			if s.exit {
				if res.Exit == 0 || res.Exit == 2 || returned != "" {
					r.Fail("exit", "the third signal must end the process with a failure status: %s", desc)
				}
				if time.Since(sentAt) > 20*time.Second {
					r.Fail("exit", "the third signal did not end the process promptly: %s", desc)
				}
				r.Count("forced_exits", 1)
				return
			}
			if res.Exit != 0 {
				crash, _ := crashOf(res.Stderr)
				r.Fail("exit", "%s\n%s", desc, cut(crash, 2000))
				return
			}
			if string(res.Out) != "true" || returned == "" {
				r.Fail("return", "WaitForSignal did not return although nothing holds the shutdown: %s", desc)
				return
			}
			want := fmt.Sprintf("returned started=%v cancelled=%v", len(s.in.Sigs) > 0, len(s.in.Sigs) > 1)
			if returned != want {
				r.Fail("effects", "%s, want %q", desc, want)
			}
		}(i, s)
	}
	wg.Wait()
}

// ---------------------------------------------------------------- C32

type kvIn struct {
	op  string // get, put, del, range
	key string
	val string
}

type kvState map[string]string

func kvShow(m kvState) string {
	var b strings.Builder
	for _, k := range sortedKeys(m) {
		fmt.Fprintf(&b, "%s=%s;", k, m[k])
	}
	return b.String()
}

var kvModel = porcupine.Model{
	Init: func() any { return "" },
	Step: func(state, input, output any) (bool, any) {
		st := kvState{}
		for _, p := range strings.Split(state.(string), ";") {
			if k, v, ok := strings.Cut(p, "="); ok {
				st[k] = v
			}
		}
		in := input.(kvIn)
		switch in.op {
		case "get":
			return output.(string) == st[in.key], state
		case "range":
			return output.(string) == kvShow(st), state
		case "put":
			st[in.key] = in.val
		case "del":
			delete(st, in.key)
		}
		return true, kvShow(st)
	},
	DescribeOperation: func(in, out any) string { return fmt.Sprintf("%+v -> %v", in, out) },
}

// kvVal builds a value holding the mark in several nested places; kvMark reads it, or says how it is torn.
func kvVal(mark string, rng *rand.Rand) enc.Map {
	m := enc.Map{"mark": enc.String(mark), "list": enc.List{enc.String(mark), enc.Map{"in": enc.String(mark)}}}
	for i := rng.Intn(4); i > 0; i-- {
		m[fmt.Sprint("x", i)] = enc.Map{"y": enc.List{enc.String(mark), enc.Integer(i)}}
	}
	if rng.Intn(3) == 0 {
		m["pairs"] = enc.Pairs{{JSON: "p", Value: enc.List{enc.String(mark)}}}
	}
	return m
}

func kvMark(m enc.Map) string {
	if m == nil {
		return ""
	}
	s, ok := m["mark"].(enc.String)
	if !ok {
		return "!torn:" + m.GoString()
	}
	l, ok := m["list"].(enc.List)
	if !ok || len(l) != 2 || l[0] != enc.Node(s) {
		return "!torn:" + m.GoString()
	}
	if in, ok := l[1].(enc.Map); !ok || len(in) != 1 || in["in"] != enc.Node(s) {
		return "!torn:" + m.GoString()
	}
	for k, v := range m {
		if k[0] == 'x' {
			if in, ok := v.(enc.Map); !ok || len(in) != 1 {
				return "!torn:" + m.GoString()
			} else if l, ok := in["y"].(enc.List); !ok || len(l) != 2 || l[0] != enc.Node(s) {
				return "!torn:" + m.GoString()
			}
		}
	}
	if p, ok := m["pairs"]; ok {
		if pp, ok := p.(enc.Pairs); !ok || len(pp) != 1 {
			return "!torn:" + m.GoString()
		} else if l, ok := pp[0].Value.(enc.List); !ok || len(l) != 1 || l[0] != enc.Node(s) {
			return "!torn:" + m.GoString()
		}
	}
	return string(s)
}

// kvSpoil overwrites everything reachable in a value.
func kvSpoil(m enc.Map) {
	if m == nil {
		return
	}
	if l, ok := m["list"].(enc.List); ok && len(l) > 0 {
		if in, ok := l[len(l)-1].(enc.Map); ok {
			in["in"] = enc.String("spoiled")
			in["more"] = enc.Nil{}
		}
		l[0] = enc.String("spoiled")
	}
	for k, v := range m {
		if k[0] == 'x' {
			if in, ok := v.(enc.Map); ok {
				if l, ok := in["y"].(enc.List); ok && len(l) > 0 {
					l[0] = enc.String("spoiled")
				}
				in["z"] = enc.Nil{}
			}
		}
		if p, ok := v.(enc.Pairs); ok && len(p) > 0 {
			if l, ok := p[0].Value.(enc.List); ok && len(l) > 0 {
				l[0] = enc.String("spoiled")
			}
			p[0].Value = enc.Nil{}
		}
	}
	m["mark"] = enc.String("spoiled")
	m["new"] = enc.Nil{}
}

func c32(r *R) {
	c := quietCtx()
	hist := r.N(60, 1500)
	for h := 0; h < hist; h++ {
		rng := r.Sub("kv", h)
		kv := storage.NewMemKeyValue()
		keys := []string{"a", "b", "c", ""}[:1+rng.Intn(4)]
		withRange := h%2 == 0
		procs := 2 + rng.Intn(5)
		per := 12 + rng.Intn(20)
		if withRange {
			per = 6 + rng.Intn(8)
		}
		spoil := h%3 != 2
		var t0 = time.Now()
		ops := make([][]porcupine.Operation, procs)
		seeds := make([]int64, procs)
		for i := range seeds {
			seeds[i] = rng.Int63()
		}
		r.Par("kv", "operations on a table", procs, func(p int) {
			rg := rand.New(rand.NewSource(seeds[p]))
			for i := 0; i < per; i++ {
				in := kvIn{key: keys[rg.Intn(len(keys))]}
				out := ""
				var call, ret int64
				now := func() int64 { return int64(time.Since(t0)) }
				x := rg.Intn(10)
				if !withRange && x == 9 {
					x = rg.Intn(9)
				}
				switch {
				case x < 4:
					in.op = "get"
					call = now()
					m, err := kv.Get(c, in.key)
					ret = now()
					if err != nil {
						r.Fail("error", "Get: %v", err)
					}
					out = kvMark(m)
					if spoil {
						kvSpoil(m)
					}
				case x < 7:
					in.op = "put"
					in.val = fmt.Sprintf("%d.%d", p, i)
					m := kvVal(in.val, rg)
					call = now()
					err := kv.Upsert(c, in.key, m)
					ret = now()
					if err != nil {
						r.Fail("error", "Upsert: %v", err)
					}
					if spoil {
						kvSpoil(m)
					}
				case x < 9:
					in.op = "del"
					call = now()
					err := kv.Delete(c, in.key)
					ret = now()
					if err != nil {
						r.Fail("error", "Delete: %v", err)
					}
				default:
					in.op = "range"
					in.key = ""
					st := kvState{}
					call = now()
					err := kv.Range(c, func(c ctx.C, k string, m enc.Map) error {
						if _, dup := st[k]; dup {
							r.Fail("range-twice", "Range gave key %q twice", k)
						}
						if rg.Intn(3) == 0 {
							runtime.Gosched()
						}
						st[k] = kvMark(m)
						if spoil {
							kvSpoil(m)
						}
						return nil
					})
					ret = now()
					if err != nil {
						r.Fail("error", "Range: %v", err)
					}
					out = kvShow(st)
				}
				if strings.Contains(out, "spoiled") || strings.Contains(out, "!torn") {
					r.Fail("snapshot", "%s(%q) returned a value changed from outside (or mixed): %s", in.op, in.key, out)
				}
				ops[p] = append(ops[p], porcupine.Operation{ClientId: p, Input: in, Call: call, Output: out, Return: ret})
			}
		})
		var all []porcupine.Operation
		key := ""
		for _, o := range ops {
			all = append(all, o...)
			for _, x := range o {
				key += fmt.Sprint(x.Input, x.Output)
			}
		}
		res := porcupine.Unknown
		if !strings.Contains(key, "!torn") {
			m := kvModel
			if !withRange {
				m.Partition = func(history []porcupine.Operation) [][]porcupine.Operation {
					by := map[string][]porcupine.Operation{}
					for _, o := range history {
						k := o.Input.(kvIn).key
						by[k] = append(by[k], o)
					}
					var out [][]porcupine.Operation
					for _, k := range sortedKeys(by) {
						out = append(out, by[k])
					}
					return out
				}
			}
			res = porcupine.CheckOperationsTimeout(m, all, 20*time.Second)
			switch res {
			case porcupine.Illegal:
				sort.Slice(all, func(i, j int) bool { return all[i].Call < all[j].Call })
				var b strings.Builder
				for _, o := range all {
					fmt.Fprintf(&b, "%d [%d..%d] %+v -> %q\n", o.ClientId, o.Call, o.Return, o.Input, o.Output)
				}
				r.Fail("linearizable", "no order of these operations explains what they returned:\n%s", b.String())
			case porcupine.Unknown:
				r.Count("undecided_histories", 1)
			}
		}
		overlaps := 0
		for i, a := range all {
			for _, b := range all[i+1:] {
				if a.ClientId != b.ClientId && a.Call < b.Return && b.Call < a.Return {
					overlaps++
				}
			}
		}
		r.Eval(key)
		r.Count("operations", int64(len(all)))
		r.Count("overlapping_pairs", int64(overlaps))
		if h < 2 {
			r.Sample("history: %d clients, %d operations, %d overlapping pairs, keys %q", procs, len(all), overlaps, keys)
		}
		if r.Failed() {
			return
		}
	}
	// alone: the latest value, and what is no longer there
	for i := 0; i < r.N(40, 1000); i++ {
		rng := r.Sub("serial", i)
		kv := storage.NewMemKeyValue()
		model := map[string]string{}
		for k := 0; k < 60; k++ {
			key := genString(rng)
			if rng.Intn(3) > 0 {
				key = fmt.Sprint("k", rng.Intn(6))
			}
			switch rng.Intn(4) {
			case 0:
				v := kvVal(fmt.Sprint(k), rng)
				_ = kv.Upsert(c, key, v)
				model[key] = fmt.Sprint(k)
				kvSpoil(v)
			case 1:
				_ = kv.Delete(c, key)
				delete(model, key)
			default:
				m, err := kv.Get(c, key)
				if err != nil || kvMark(m) != model[key] || (m == nil) != (model[key] == "") {
					r.Fail("serial", "Get(%q) = %v %v, want mark %q", key, m, err, model[key])
				}
				kvSpoil(m)
			}
		}
		n := 0
		_ = kv.Range(c, func(c ctx.C, k string, m enc.Map) error {
			n++
			if kvMark(m) != model[k] {
				r.Fail("serial", "Range gave %q = %v, want mark %q", k, m, model[k])
			}
			kvSpoil(m)
			return nil
		})
		if n != len(model) {
			r.Fail("serial", "Range gave %d rows of %d", n, len(model))
		}
		r.Eval(fmt.Sprint("serial", i, model))
	}
}

// ---------------------------------------------------------------- C33

// rowVariant gives the same row with values held by other node types.
func rowVariant(rng *rand.Rand, row enc.Map) enc.Map {
	out := enc.Map{}
	for _, k := range sortedKeys(row) {
		out[k] = nodeVariant(rng, row[k])
	}
	return out
}

// nodeVariant gives the same JSON value held by other node types.
func nodeVariant(rng *rand.Rand, n enc.Node) enc.Node {
	switch x := n.(type) {
	case enc.Integer, enc.Digits, enc.Float:
		rat, _ := new(big.Rat).SetString(canonNode(n))
		var forms []enc.Node
		forms = append(forms, n)
		if rat.IsInt() && rat.Num().IsInt64() {
			v := rat.Num().Int64()
			forms = append(forms, enc.Integer(v), enc.Digits(fmt.Sprint(v)), enc.Digits(fmt.Sprintf("%d.0", v)), enc.Digits(fmt.Sprintf("%de0", v)), enc.Digits(fmt.Sprintf("%d.00e+00", v)))
			if v == 0 {
				forms = append(forms, enc.Digits("-0"), enc.Digits("0e99999999999999999999"), enc.Float(0), enc.Float(math.Copysign(0, -1)))
			} else {
				forms = append(forms, enc.Digits(fmt.Sprintf("%d0E-1", v)))
			}
		}
		if f, exact := rat.Float64(); exact {
			forms = append(forms, enc.Float(f), enc.Digits(strconv.FormatFloat(f, 'e', -1, 64)), enc.Digits(strconv.FormatFloat(f, 'f', -1, 64)+map[bool]string{true: "", false: ".0"}[f != math.Trunc(f)]))
		}
		return forms[rng.Intn(len(forms))]
	case enc.Time:
		if rng.Intn(2) == 0 {
			return enc.String(time.Time(x).Format(time.RFC3339Nano))
		}
	case enc.List:
		out := make(enc.List, len(x))
		for i := range x {
			out[i] = nodeVariant(rng, x[i])
		}
		return out
	case enc.Pairs:
		m := enc.Map{}
		for _, p := range x {
			m[p.Name] = p.Value
		}
		return nodeVariant(rng, m)
	case enc.Map:
		keys := sortedKeys(x)
		if rng.Intn(2) == 0 {
			out := enc.Pairs{}
			rng.Shuffle(len(keys), func(i, j int) { keys[i], keys[j] = keys[j], keys[i] })
			for _, k := range keys {
				out = append(out, enc.Pair{Name: k, JSON: k, Value: nodeVariant(rng, x[k])})
			}
			return out
		}
		out := enc.Map{}
		for _, k := range keys {
			out[k] = nodeVariant(rng, x[k])
		}
		return out
	}
	return n
}

// canonical text of a node, independent of forego's encoder and of the node types
func canonNode(n enc.Node) string {
	num := func(s string) string {
		if m, _, ok := strings.Cut(strings.ToLower(s), "e"); ok && strings.Trim(m, "-0.") == "" {
			return "0"
		}
		rat, ok := new(big.Rat).SetString(s)
		if !ok {
			panic("canon " + s)
		}
		return rat.RatString()
	}
	switch x := n.(type) {
	case nil, enc.Nil:
		return "null"
	case enc.Bool:
		return fmt.Sprint(bool(x))
	case enc.String:
		j, _ := json.Marshal(string(x))
		return string(j)
	case enc.Time:
		return canonNode(enc.String(time.Time(x).Format(time.RFC3339Nano)))
	case enc.Integer:
		return num(fmt.Sprint(int64(x)))
	case enc.Float:
		return num(strconv.FormatFloat(float64(x), 'g', -1, 64))
	case enc.Digits:
		return num(string(x))
	case enc.List:
		var s []string
		for _, e := range x {
			s = append(s, canonNode(e))
		}
		return "[" + strings.Join(s, ",") + "]"
	case enc.Pairs:
		m := enc.Map{}
		for _, p := range x {
			m[p.Name] = p.Value
		}
		return canonNode(m)
	case enc.Map:
		var s []string
		for _, k := range sortedKeys(x) {
			j, _ := json.Marshal(k)
			s = append(s, string(j)+":"+canonNode(x[k]))
		}
		return "{" + strings.Join(s, ",") + "}"
	}
	panic(fmt.Sprintf("canon %T", n))
}

// genSmall makes values from a small domain, so that filters often match.
func genSmall(rng *rand.Rand, depth int) enc.Node {
	switch k := rng.Intn(10); {
	case k == 9:
		return enc.Time(time.Date(2020, 1, 1+rng.Intn(2), 0, 0, 0, rng.Intn(2), time.UTC))
	case k == 0:
		return enc.Nil{}
	case k == 1:
		return enc.Bool(rng.Intn(2) == 0)
	case k <= 3:
		return enc.String([]string{"", "a", "1", "null", "true", "é\"\\"}[rng.Intn(6)])
	case k == 4:
		return enc.Integer(rng.Intn(3) - 1)
	case k == 5:
		return enc.Digits([]string{"0", "1", "-1", "1.5", "12345678901234567890", "12345678901234567891", "1e400", "10", "100", "0.1", "15e-1", "-1.50"}[rng.Intn(12)])
	case k == 6 && depth > 0:
		l := enc.List{}
		for i := rng.Intn(3); i > 0; i-- {
			l = append(l, genSmall(rng, depth-1))
		}
		return l
	case depth > 0:
		m := enc.Map{}
		for i := rng.Intn(4); i > 0; i-- {
			m[string(rune('p'+rng.Intn(4)))] = genSmall(rng, depth-1)
		}
		return m
	}
	return enc.Integer(1)
}

// c33NoValue: what has no JSON value can't be compared, which is an error whichever side it is on.
func c33NoValue(r *R) {
	c := quietCtx()
	bad := func(rng *rand.Rand) enc.Node {
		v := []enc.Node{enc.Float(math.NaN()), enc.Float(math.Inf(1)), enc.Float(math.Inf(-1)), enc.Digits("1x"), enc.Digits("--1"), enc.Digits("1 2")}[rng.Intn(6)]
		switch rng.Intn(3) {
		case 0:
			return enc.List{enc.Integer(1), v}
		case 1:
			return enc.Map{"a": v}
		}
		return v
	}
	for i := 0; i < r.N(200, 4000); i++ {
		rng := r.Sub("novalue", i)
		kv := storage.NewMemKeyValue()
		f := storage.Filter{Field: "f", Cmp: []storage.Cmp{storage.Equal, storage.NotEqual}[rng.Intn(2)], Val: genSmall(rng, 1)}
		guarded := rng.Intn(3) == 0 // another filter refuses the row before it is compared
		inFilter := rng.Intn(3) == 0
		rows := 1 + rng.Intn(4)
		for k := 0; k < rows; k++ {
			row := enc.Map{"g": enc.Integer(k), "f": genSmall(rng, 1)}
			if k == 0 && !inFilter {
				row["f"] = bad(rng)
			}
			_ = kv.Upsert(c, fmt.Sprint("k", k), row)
		}
		if inFilter {
			f.Val = bad(rng)
		}
		fs := []storage.Filter{f}
		if guarded {
			g := storage.Filter{Field: "g", Cmp: storage.NotEqual, Val: enc.Integer(0)}
			if inFilter {
				g = storage.Filter{Field: "g", Cmp: storage.Equal, Val: enc.Integer(-1)}
			}
			fs = []storage.Filter{g, f}
		}
		var given []string
		var err error
		what := fmt.Sprintf("%d rows, filters %v", rows, fs)
		r.Guard("panic", func() string { return what }, func() {
			err = kv.Range(c, func(c ctx.C, k string, _ enc.Map) error {
				given = append(given, k)
				return nil
			}, fs...)
		})
		if guarded && err != nil {
			r.Fail("no-value:spurious", "%s: the row that can't be compared is refused by the first filter, Range: %v", what, err)
		}
		if !guarded && err == nil {
			r.Fail("no-value:silent", "%s: Range compared what has no JSON value, giving %v and no error", what, given)
		}
		for _, k := range given {
			if !guarded && (k == "k0" || inFilter) {
				r.Fail("no-value:given", "%s: row %s was given", what, k)
			}
		}
		r.Eval(what)
		r.Count("not comparable", 1)
	}
}

func c33(r *R) {
	c := quietCtx()
	c33NoValue(r)
	fields := []string{"f", "g", "missing", ""}
	for i := 0; i < r.N(600, 20000); i++ {
		rng := r.Sub("range", i)
		kv := storage.NewMemKeyValue()
		rows := map[string]enc.Map{}
		var vals []enc.Node
		for k := rng.Intn(9); k > 0; k-- {
			row := enc.Map{}
			for _, f := range fields[:2] {
				if rng.Intn(5) > 0 {
					v := genSmall(rng, 2)
					if len(vals) > 0 && rng.Intn(3) == 0 {
						v = nodeVariant(rng, vals[rng.Intn(len(vals))])
					}
					row[f] = v
					vals = append(vals, v)
				}
			}
			if rng.Intn(8) == 0 {
				row[""] = genSmall(rng, 1)
			}
			if rng.Intn(20) == 0 {
				row["f"] = nil // an untyped nil is null
			}
			key := fmt.Sprint("k", rng.Intn(12))
			rows[key] = row
			if err := kv.Upsert(c, key, rowVariant(rng, row)); err != nil {
				r.Fail("error", "Upsert: %v", err)
			}
		}
		for q := 0; q < 6; q++ {
			var fs []storage.Filter
			desc := ""
			unsupported := false
			for k := rng.Intn(3); k >= 0; k-- {
				if k == 0 && rng.Intn(4) > 0 {
					break
				}
				f := storage.Filter{Field: fields[rng.Intn(len(fields))], Cmp: storage.Equal}
				if rng.Intn(3) == 0 {
					f.Cmp = storage.NotEqual
				}
				if rng.Intn(25) == 0 {
					f.Cmp = []storage.Cmp{storage.Greater, storage.Lesser, storage.GreaterEq, storage.LesserEq, "", "EQ ", "eq"}[rng.Intn(7)]
					unsupported = true
				}
				switch {
				case len(vals) > 0 && rng.Intn(4) > 0:
					f.Val = nodeVariant(rng, vals[rng.Intn(len(vals))])
				case rng.Intn(6) == 0:
					f.Val = nil
				default:
					f.Val = genSmall(rng, 2)
				}
				fs = append(fs, f)
				desc += fmt.Sprintf("%q %s %s; ", f.Field, f.Cmp, canonNode(f.Val))
			}
			want := map[string]string{}
			errPossible, errSure := false, false
			for k, row := range rows {
				ok := true
				for _, f := range fs {
					same := canonNode(row[f.Field]) == canonNode(f.Val)
					switch f.Cmp {
					case storage.Equal:
						ok = ok && same
					case storage.NotEqual:
						ok = ok && !same
					default:
						errPossible = true
						if ok {
							errSure = true
						}
					}
				}
				if ok {
					want[k] = canonNode(row)
				}
			}
			show := func() string {
				var b strings.Builder
				for _, k := range sortedKeys(rows) {
					fmt.Fprintf(&b, "%s: %s\n", k, canonNode(rows[k]))
				}
				return fmt.Sprintf("filters %s\nrows:\n%s", desc, b.String())
			}
			mode := rng.Intn(5)
			stopAt := rng.Intn(len(want) + 1)
			c, cf := ctx.WithCancel(c)
			boom := []error{errors.New("boom"), errors.New("EOD"), io.EOF, utils.EOD{}, context.Canceled, shutdown.Err}[rng.Intn(6)]
			if rng.Intn(4) == 0 {
				cf(boom) // all in memory: there is nothing to give up
			}
			got := map[string]string{}
			calls := 0
			var err error
			r.Guard("panic", show, func() {
				r.Within("range", "Range with a callback using the table", func() {
					err = kv.Range(c, func(c ctx.C, k string, m enc.Map) error {
						calls++
						if _, dup := got[k]; dup {
							r.Fail("twice", "key %q twice\n%s", k, show())
						}
						got[k] = canonNode(m)
						if mode == 3 { // the callback may use the table; the rows are those of one moment
							if _, err := kv.Get(c, k); err != nil {
								r.Fail("error", "Get in the callback: %v", err)
							}
							other := fmt.Sprint("k", rng.Intn(12))
							_ = kv.Delete(c, other)
							_ = kv.Upsert(c, fmt.Sprint("new", calls), enc.Map{"f": enc.Integer(1)})
						}
						if mode == 1 && calls > stopAt {
							return storage.EOD
						}
						if mode == 2 && calls > stopAt {
							return boom
						}
						return nil
					}, fs...)
				})
			})
			cf(nil)
			r.Eval(show())
			r.Count("ranges", 1)
			r.Count("rows_given", int64(calls))
			switch {
			case unsupported && errSure:
				if err == nil {
					r.Fail("unsupported", "an operator that is not supported did not fail\n%s", show())
				}
				if calls > 0 {
					r.Fail("unsupported", "rows were given although the filter cannot be evaluated\n%s", show())
				}
				r.Count("unsupported", 1)
			case unsupported && errPossible:
				// whether it is reached depends on the order of filters
			case mode == 2 && stopAt < len(want):
				if err != boom && !errors.Is(err, boom) {
					r.Fail("callback-error", "the error of the callback was not returned: %v\n%s", err, show())
				}
				if calls != stopAt+1 {
					r.Fail("stop", "%d calls, the callback failed at %d\n%s", calls, stopAt+1, show())
				}
			case mode == 1 && stopAt < len(want):
				if err != nil {
					r.Fail("eod", "EOD came back as an error: %v\n%s", err, show())
				}
				if calls != stopAt+1 {
					r.Fail("stop", "%d calls, the callback stopped at %d\n%s", calls, stopAt+1, show())
				}
			default:
				if err != nil {
					r.Fail("error", "Range: %v\n%s", err, show())
				} else if len(got) != len(want) {
					r.Fail("rows", "got rows %v\nwant %v\n%s", sortedKeys(got), sortedKeys(want), show())
				}
			}
			for k, v := range got {
				if w, ok := want[k]; !ok || w != v {
					if !(unsupported) {
						r.Fail("rows", "row %q given as %s, want %s (matching %v)\n%s", k, v, w, ok, show())
					}
				}
			}
			if i < 1 && q < 3 {
				r.Sample("%d rows match of %d: %s", len(want), len(rows), desc)
			}
			if mode == 3 {
				// put the table back
				_ = kv.Range(c, func(c ctx.C, k string, m enc.Map) error { return kv.Delete(c, k) })
				for k, row := range rows {
					_ = kv.Upsert(c, k, rowVariant(rng, row))
				}
			}
			if r.Failed() {
				return
			}
		}
	}
}
