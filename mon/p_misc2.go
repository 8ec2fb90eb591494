package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"math"
	"math/rand"
	"net/http/httptest"
	"regexp"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
	"unicode/utf8"

	"github.com/Aize-Public/forego/ctx"
	"github.com/Aize-Public/forego/utils/caches"
	"github.com/Aize-Public/forego/utils/prom"
)

func init() {
	reg("C34", "random sequences of Get and Invalidate on caches of random capacity with entries of random size, failures and uncacheable values, compared step by step with a model of recency and size; then the same from several goroutines with the size watched from outside; non-trivial: distinct sequence", c34)
	reg("C35", "readers and writers on a versioned source behind each kind of cache: every read is compared with the versions valid since the last completed invalidation, fetches of one key must not overlap; non-trivial: distinct run", c35)
	reg("C36", "goroutines requesting few keys whose fetches take random time, fail, and give random lifetimes; the log of fetches and answers is checked offline: no overlapping fetch of a key, no needless fetch, nothing used past its life, errors kept like values; non-trivial: distinct run", c36)
	reg("C37", "observations from several goroutines while others scrape; every scrape is bracketed by the observations surely made before it and possibly made by its end, and the final one must be exact; single-threaded runs with amounts of any size and sign, zero, NaN and infinities; registration and other scrapes while one scraper is stuck; non-trivial: distinct run", c37)
	reg("C38", "metrics of every type with random label values and descriptions, scraped over HTTP and parsed by a strict reader of the exposition format; every series must read back with its exact labels, also next to a metric which fails to print; non-trivial: distinct page", c38)
}

// ---------------------------------------------------------------- C34

type lruModel struct {
	keys []int // least recent first
	size map[int]int
	val  map[int]int
	max  int
}

func (m *lruModel) cur() (n int) {
	for _, s := range m.size {
		n += s
	}
	return
}

func (m *lruModel) drop(k int) {
	for i, x := range m.keys {
		if x == k {
			m.keys = append(m.keys[:i:i], m.keys[i+1:]...)
			break
		}
	}
	delete(m.size, k)
	delete(m.val, k)
}

func intSet(l []int) string {
	m := map[string]bool{}
	for _, x := range l {
		m[fmt.Sprintf("%04d", x)] = true
	}
	return fmt.Sprint(sortedKeys(m), len(l))
}

func c34(r *R) {
	c := quietCtx()
	for i := 0; i < r.N(400, 12000); i++ {
		rng := r.Sub("lru", i)
		max := rng.Intn(12) // also none at all
		keys := 2 + rng.Intn(10)
		fetches := 0
		var lastKey int
		nextErr := error(nil)
		nextSize := 0
		who := any(nil)
		lru := caches.NewLRU(c, max, func(c ctx.C, k int) (int, int, error) {
			fetches++
			who = c.Value(getKey{})
			lastKey = k
			return fetches, nextSize, nextErr
		})
		lister, _ := lru.(interface{ Keys() []int })
		m := lruModel{size: map[int]int{}, val: map[int]int{}, max: max}
		var log []string
		show := func() string { return fmt.Sprintf("max %d: %s", max, strings.Join(log, " ")) }
		hits, evictions := 0, 0
		r.Guard("panic", show, func() {
			for s := 0; s < 80; s++ {
				k := rng.Intn(keys)
				if rng.Intn(6) == 0 {
					log = append(log, fmt.Sprintf("inv(%d)", k))
					lru.Invalidate(c, k)
					m.drop(k)
				} else {
					nextErr, nextSize = nil, 1+rng.Intn(4)
					switch rng.Intn(12) {
					case 0:
						nextErr = errors.New("boom")
					case 1:
						nextSize = 0
					case 2:
						nextSize = max + rng.Intn(3)
					}
					if i%3 == 0 && nextSize > 0 {
						nextSize = 1
					}
					before := fetches
					gc, cf := ctx.WithCancel(ctx.WithValue(c, getKey{}, s))
					if rng.Intn(4) == 0 {
						cf(io.EOF) // it may be over already
					}
					v, hm, err := lru.Get(gc, k)
					cf(nil)
					if fetches != before && who != s {
						r.Fail("context", "the fetch ran with the context of Get %v\n%s", who, show())
					}
					log = append(log, fmt.Sprintf("get(%d)=%s/%d", k, hm, nextSize))
					have, cached := m.val[k]
					if cached {
						hits++
						if hm != caches.HIT || v != have || err != nil || fetches != before {
							r.Fail("hit", "key %d is cached as %d: got %d %s %v, fetched %v\n%s", k, have, v, hm, err, fetches != before, show())
							return
						}
						sz := m.size[k]
						m.drop(k)
						m.keys = append(m.keys, k)
						m.size[k], m.val[k] = sz, have
					} else {
						if fetches != before+1 || lastKey != k {
							r.Fail("fetch", "key %d is not cached: fetched %d times (key %d), got %s\n%s", k, fetches-before, lastKey, hm, show())
							return
						}
						want := caches.MISS
						if nextErr != nil {
							want = caches.ERR
						} else if nextSize == 0 {
							want = caches.NO
						}
						if hm != want || v != fetches || !errors.Is(err, nextErr) {
							r.Fail("result", "fetched %d, %v: got %d %s %v, want %s\n%s", fetches, nextErr, v, hm, err, want, show())
							return
						}
						if want == caches.MISS {
							m.keys = append(m.keys, k)
							m.size[k], m.val[k] = nextSize, v
							for m.cur() > max {
								m.drop(m.keys[0])
								evictions++
							}
						}
					}
				}
				if lister != nil {
					if got := lister.Keys(); intSet(got) != intSet(m.keys) {
						r.Fail("contents", "cached keys %v, want %v (least recent first)\n%s", got, m.keys, show())
						return
					}
				}
			}
		})
		r.Eval(show())
		r.Count("hits", int64(hits))
		r.Count("evictions", int64(evictions))
		if i < 2 {
			r.Sample("%s", show())
		}
		if r.Failed() {
			return
		}
	}
	// several goroutines
	for i := 0; i < r.N(20, 400); i++ {
		rng := r.Sub("lrup", i)
		max := 1 + rng.Intn(10)
		var fetches, live atomic.Int64
		size := func(k int) int { return 1 + k%3 }
		cache := caches.NewLRU(c, max, func(c ctx.C, k int) (string, int, error) {
			n := fetches.Add(1)
			if rng := n % 7; rng == 0 {
				runtime.Gosched()
			}
			return fmt.Sprintf("%d:%d", k, n), size(k), nil
		})
		lister := cache.(interface{ Keys() []int })
		base := rng.Int63()
		r.Par("lru", "concurrent use of an LRU", 6, func(p int) {
			rg := rand.New(rand.NewSource(base + int64(p)))
			for s := 0; s < 150; s++ {
				k := rg.Intn(9)
				switch rg.Intn(12) {
				case 0:
					cache.Invalidate(c, k)
				case 1:
					n, seen := 0, map[int]bool{}
					for _, k := range lister.Keys() {
						if seen[k] {
							r.Fail("twice", "key %d listed twice", k)
						}
						seen[k] = true
						n += size(k)
					}
					if n > max {
						r.Fail("size", "entries of total size %d in a cache of %d", n, max)
					}
					r.Max("largest_total", int64(n))
				case 2:
					_ = fmt.Sprint(cache)
				default:
					v, hm, err := cache.Get(c, k)
					if err != nil || !strings.HasPrefix(v, fmt.Sprint(k, ":")) || (hm != caches.HIT && hm != caches.MISS) {
						r.Fail("mixed", "Get(%d) = %q %s %v", k, v, hm, err)
					}
					live.Add(1)
				}
			}
		})
		r.Eval(fmt.Sprint("par", i))
		r.Count("concurrent_gets", live.Load())
	}
}

// ---------------------------------------------------------------- C35

type getKey struct{}

// c35panics: fetches that panic, seen only by the one who asked
func c35panics(r *R) {
	c := quietCtx()
	for i := 0; i < r.N(30, 400); i++ {
		kind := []string{"mem", "lru", "request"}[i%3]
		rng := r.Sub("panic", i)
		var n, panics atomic.Int64
		seed := rng.Int63()
		fetch := func(k int) (int64, error) {
			id := n.Add(1)
			rg := rand.New(rand.NewSource(seed + id))
			if rg.Intn(3) == 0 {
				time.Sleep(time.Duration(rg.Intn(100)) * time.Microsecond)
			}
			switch rg.Intn(3) {
			case 0:
				panics.Add(1)
				panic(fmt.Sprint("fetch ", id))
			case 1:
				return id, fmt.Errorf("fetch %d failed", id)
			}
			return id, nil
		}
		var get func(k int) (int64, caches.HitMiss, error)
		var inval func(k int)
		switch kind {
		case "mem":
			m := caches.Mem(c, func(c ctx.C, k int) (int64, error) { return fetch(k) })
			get, inval = func(k int) (int64, caches.HitMiss, error) { return m.Get(c, k) }, func(k int) { m.Invalidate(c, k) }
		case "lru":
			m := caches.NewLRU(c, 2, func(c ctx.C, k int) (int64, int, error) { v, err := fetch(k); return v, 1, err })
			get, inval = func(k int) (int64, caches.HitMiss, error) { return m.Get(c, k) }, func(k int) { m.Invalidate(c, k) }
		default:
			m := caches.NewRequestLRU(c, 50, func(c ctx.C, k int) (int64, time.Duration, error) {
				v, err := fetch(k)
				return v, time.Hour, err
			})
			get, inval = func(k int) (int64, caches.HitMiss, error) { return m.Request(c, k) }, func(k int) { m.Invalidate(c, k) }
		}
		var seen atomic.Int64
		var hits atomic.Int64
		r.Par("panics", "a "+kind+" cache whose fetches panic at times", 4, func(p int) {
			rg := rand.New(rand.NewSource(seed ^ int64(p+1)<<20))
			for s := 0; s < 40; s++ {
				k := rg.Intn(4)
				if rg.Intn(4) == 0 {
					inval(k)
					continue
				}
				func() {
					defer func() {
						if x := recover(); x != nil {
							if t, _ := x.(string); !strings.HasPrefix(t, "fetch ") {
								r.Fail("panics", "%s: Get panics with %v", kind, x)
							}
							seen.Add(1)
						}
					}()
					v, hm, err := get(k)
					if hm == caches.HIT {
						hits.Add(1)
					}
					if v == 0 || err != nil && err.Error() != fmt.Sprintf("fetch %d failed", v) {
						r.Fail("panics", "%s: Get(%d) gave %d %s %v, which no fetch gave", kind, k, v, hm, err)
					}
				}()
			}
		})
		if seen.Load() != panics.Load() {
			r.Fail("panics", "%s: %d fetches panicked, seen by %d", kind, panics.Load(), seen.Load())
		}
		r.Count("fetch_panics", panics.Load())
		r.Eval(fmt.Sprint("panics", kind, i, n.Load(), hits.Load()))
		if r.Failed() {
			return
		}
	}
}

func c35(r *R) {
	c35panics(r)
	c := quietCtx()
	kinds := []string{"mem", "lru", "lru-tiny", "request"}
	for i := 0; i < r.N(32, 600); i++ {
		kind := kinds[i%len(kinds)]
		rng := r.Sub("coh", i)
		const nk = 3
		var src [nk]atomic.Int64      // current version in the source
		var valid [nk]atomic.Int64    // no read begun from now on may give an older one
		var fetching [nk]atomic.Int64 // fetches going on
		var fetched [nk]atomic.Int64  // fetches made
		var invalids [nk]atomic.Int64 // invalidations begun
		slow := rng.Intn(2) == 0
		fetch := func(k int) int64 {
			if fetching[k].Add(1) > 1 {
				// a second fetch is legitimate only once the entry was taken out meanwhile
				if invalids[k].Load() == 0 && kind != "lru-tiny" {
					r.Fail("overlap", "%s: two fetches of key %d at once", kind, k)
				}
			}
			v := src[k].Load()
			if slow {
				time.Sleep(time.Duration(k+1) * 20 * time.Microsecond)
			} else {
				runtime.Gosched()
			}
			fetched[k].Add(1)
			fetching[k].Add(-1)
			return v*nk + int64(k)
		}
		var get func(k int) (int64, caches.HitMiss, error)
		var inval func(k int)
		switch kind {
		case "mem":
			m := caches.Mem(c, func(c ctx.C, k int) (int64, error) { return fetch(k), nil })
			get, inval = func(k int) (int64, caches.HitMiss, error) { return m.Get(c, k) }, func(k int) { m.Invalidate(c, k) }
		case "lru", "lru-tiny":
			max := 100
			if kind == "lru-tiny" {
				max = 2
			}
			m := caches.NewLRU(c, max, func(c ctx.C, k int) (int64, int, error) { return fetch(k), 1, nil })
			get, inval = func(k int) (int64, caches.HitMiss, error) { return m.Get(c, k) }, func(k int) { m.Invalidate(c, k) }
		default:
			m := caches.NewRequestLRU(c, 100, func(c ctx.C, k int) (int64, time.Duration, error) { return fetch(k), time.Hour, nil })
			get, inval = func(k int) (int64, caches.HitMiss, error) { return m.Request(c, k) }, func(k int) { m.Invalidate(c, k) }
		}
		writers := i%8 < 4
		base := rng.Int63()
		var wmu [nk]sync.Mutex
		var reads, stale, hits atomic.Int64
		r.Par("coherence", "readers and writers over a "+kind+" cache", 6, func(p int) {
			rg := rand.New(rand.NewSource(base + int64(p)))
			for s := 0; s < 120; s++ {
				k := rg.Intn(nk)
				if writers && p < 2 && rg.Intn(4) == 0 {
					wmu[k].Lock()
					v := src[k].Add(1)
					invalids[k].Add(1)
					inval(k)
					valid[k].Store(v)
					wmu[k].Unlock()
					continue
				}
				lo := valid[k].Load()
				x, hm, err := get(k)
				hi := src[k].Load()
				reads.Add(1)
				if err != nil {
					r.Fail("error", "%s: Get(%d): %v", kind, k, err)
					return
				}
				v := x / nk
				if x%nk != int64(k) {
					r.Fail("mixed", "%s: Get(%d) gave the value of key %d", kind, k, x%nk)
				}
				if v < lo {
					r.Fail("stale", "%s: Get(%d) gave version %d (%s) although version %d was stored and the key invalidated before it began", kind, k, v, hm, lo)
				}
				if v > hi {
					r.Fail("future", "%s: Get(%d) gave version %d of %d", kind, k, v, hi)
				}
				if v < hi {
					stale.Add(1)
				}
				if hm == caches.HIT {
					hits.Add(1)
				}
			}
		})
		if !writers && kind != "lru-tiny" {
			for k := 0; k < nk; k++ {
				if n := fetched[k].Load(); n > 1 {
					r.Fail("refetch", "%s: key %d was fetched %d times without ever being invalidated", kind, k, n)
				}
			}
		}
		r.Count("reads", reads.Load())
		r.Count("reads_hit", hits.Load())
		r.Count("reads_overlapping_a_write", stale.Load())
		r.Eval(fmt.Sprint(kind, i))
		if i < 4 {
			r.Sample("%s writers=%v: %d reads, %d hits", kind, writers, reads.Load(), hits.Load())
		}
	}
	// failures are not kept by the plain caches
	for i := 0; i < r.N(60, 500); i++ {
		rng := r.Sub("err", i)
		n := 0
		fail := false
		who := any(nil)
		m := caches.Mem(c, func(c ctx.C, k int) (int, error) {
			n++
			who = c.Value(getKey{})
			if fail {
				return n, fmt.Errorf("boom %d", n)
			}
			return n, nil
		})
		model := map[int]int{}
		log := ""
		for s := 0; s < 40; s++ {
			k := rng.Intn(4)
			if rng.Intn(5) == 0 {
				m.Invalidate(c, k)
				delete(model, k)
				log += fmt.Sprintf(" inv(%d)", k)
				continue
			}
			fail = rng.Intn(3) == 0
			before := n
			gc, cf := ctx.WithCancel(ctx.WithValue(c, getKey{}, s))
			if rng.Intn(3) == 0 {
				cf(io.EOF) // it may be over already
			}
			v, hm, err := m.Get(gc, k)
			cf(nil)
			log += fmt.Sprintf(" get(%d)=%s", k, hm)
			if n != before && who != s {
				r.Fail("context", "mem: the fetch ran with the context of Get %v:%s", who, log)
			}
			if have, ok := model[k]; ok {
				if hm != caches.HIT || err != nil || v != have || n != before {
					r.Fail("hit", "mem: want %d from the cache, got %d %s %v:%s", have, v, hm, err, log)
					return
				}
			} else if fail {
				if hm != caches.ERR || err == nil || err.Error() != fmt.Sprintf("boom %d", n) || n != before+1 {
					r.Fail("error", "mem: want the failure of fetch %d, got %d %s %v:%s", n, v, hm, err, log)
					return
				}
			} else {
				if hm != caches.MISS || err != nil || v != n || n != before+1 {
					r.Fail("miss", "mem: want fetch %d, got %d %s %v:%s", n, v, hm, err, log)
					return
				}
				model[k] = v
			}
		}
		r.Eval(log)
	}
}

// ---------------------------------------------------------------- C36

type rcFetch struct {
	key        int
	begin, end time.Time
	ttl        time.Duration
	err        error
	returned   time.Time // when the request that made it had its answer
	owned      int
}

func c36(r *R) {
	c := quietCtx()
	for i := 0; i < r.N(40, 800); i++ {
		rng := r.Sub("rc", i)
		max := 100
		tiny := i%8 == 7
		if tiny {
			max = 2
		}
		nk := 1 + rng.Intn(4)
		var mu sync.Mutex
		fetches := []*rcFetch{}
		base := rng.Int63()
		var active [8]atomic.Int64
		rc := caches.NewRequestLRU(c, max, func(c ctx.C, k int) (int, time.Duration, error) {
			if active[k].Add(1) > 1 && !tiny {
				r.Fail("overlap", "two fetches of key %d at once", k)
			}
			mu.Lock()
			id := len(fetches)
			f := &rcFetch{key: k, begin: time.Now()}
			fetches = append(fetches, f)
			mu.Unlock()
			rg := rand.New(rand.NewSource(base + int64(id)*7919))
			switch rg.Intn(4) {
			case 0:
				time.Sleep(time.Duration(rg.Intn(1500)) * time.Microsecond)
			case 1:
				runtime.Gosched()
			}
			f.ttl = []time.Duration{0, -time.Second, time.Millisecond, 3 * time.Millisecond, time.Hour}[rg.Intn(5)]
			if i%4 == 1 {
				f.ttl = time.Hour
			}
			if i%4 == 2 && f.ttl > time.Minute {
				f.ttl = 500 * time.Microsecond
			}
			if rg.Intn(4) == 0 {
				f.err = fmt.Errorf("fetch %d failed", id)
			}
			active[k].Add(-1)
			f.end = time.Now()
			return id, f.ttl, f.err
		})
		type ans struct {
			key      int
			v        int
			hm       caches.HitMiss
			err      error
			from, to time.Time
		}
		workers := 2 + rng.Intn(6)
		answers := make([][]ans, workers)
		r.Par("request", "concurrent requests", workers, func(p int) {
			rg := rand.New(rand.NewSource(base ^ int64(p+1)))
			for s := 0; s < 40; s++ {
				a := ans{key: rg.Intn(nk), from: time.Now()}
				rqc, cf := ctx.WithCancel(c)
				if rg.Intn(8) == 0 {
					cf(io.EOF) // it may be over already
				}
				a.v, a.hm, a.err = rc.Request(rqc, a.key)
				cf(nil)
				a.to = time.Now()
				answers[p] = append(answers[p], a)
				if rg.Intn(6) == 0 {
					time.Sleep(time.Duration(rg.Intn(800)) * time.Microsecond)
				}
			}
		})
		hits := 0
		var all []ans
		for _, l := range answers {
			all = append(all, l...)
		}
		// who fetched what
		for _, a := range all {
			if a.v < 0 || a.v >= len(fetches) || fetches[a.v].key != a.key {
				r.Fail("mixed", "request of key %d was given %d", a.key, a.v)
				return
			}
			f := fetches[a.v]
			if a.err != f.err && !errors.Is(a.err, f.err) {
				r.Fail("outcome", "fetch %d ended with %v, its answer with %v", a.v, f.err, a.err)
			}
			if a.hm != caches.HIT {
				f.owned++
				f.returned = a.to
				want := caches.MISS
				if f.err != nil {
					want = caches.ERR
				}
				if a.hm != want {
					r.Fail("outcome", "fetch %d ended with %v, reported as %s", a.v, f.err, a.hm)
				}
				if f.begin.Before(a.from) || f.end.After(a.to) {
					r.Fail("outcome", "%s reported for a fetch made by another request", a.hm)
				}
			}
		}
		for id, f := range fetches {
			if f.owned != 1 {
				r.Fail("outcome", "fetch %d of key %d was reported as a miss by %d requests", id, f.key, f.owned)
			}
		}
		for _, a := range all {
			f := fetches[a.v]
			if a.hm == caches.HIT {
				hits++
				if f.ttl <= 0 {
					r.Fail("uncacheable", "the outcome of fetch %d (lifetime %v) was used again", a.v, f.ttl)
				} else if a.from.After(f.returned.Add(f.ttl)) {
					r.Fail("expired", "the outcome of fetch %d (lifetime %v) was used %v after it was returned", a.v, f.ttl, a.from.Sub(f.returned))
				}
			}
		}
		if !tiny {
			last := map[int]*rcFetch{}
			for id, f := range fetches {
				if p := last[f.key]; p != nil {
					if p.ttl > 0 && f.begin.Before(p.end.Add(p.ttl)) {
						r.Fail("needless", "fetch %d of key %d began %v after the last one ended, whose outcome lives %v", id, f.key, f.begin.Sub(p.end), p.ttl)
					}
				}
				last[f.key] = f
			}
		}
		r.Eval(fmt.Sprint(i, len(fetches), hits))
		r.Count("requests", int64(len(all)))
		r.Count("fetches", int64(len(fetches)))
		r.Count("hits", int64(hits))
		if i < 3 {
			r.Sample("%d keys, %d workers: %d requests, %d fetches, %d hits", nk, workers, len(all), len(fetches), hits)
		}
		if r.Failed() {
			return
		}
	}
	// many at once on fresh keys: one fetch each
	{
		var n [8192]atomic.Int64
		rounds := r.N(3000, 8000)
		rc := caches.NewRequestLRU(c, len(n), func(c ctx.C, k int) (int, time.Duration, error) {
			n[k].Add(1)
			if k%3 == 0 {
				runtime.Gosched()
			}
			return k, time.Hour, nil
		})
		var turn atomic.Int64
		var arrived atomic.Int64
		const w = 6
		var misses [8192]atomic.Int64
		r.Par("fresh", "requests of one fresh key at once", w, func(p int) {
			for k := 0; k < rounds; k++ {
				// a barrier that lets everybody go at the same moment
				if arrived.Add(1) == int64(w*(k+1)) {
					turn.Store(int64(k + 1))
				}
				for turn.Load() < int64(k+1) {
					runtime.Gosched()
				}
				v, hm, err := rc.Request(c, k)
				if v != k || err != nil {
					r.Fail("mixed", "request of %d gave %d %v", k, v, err)
				}
				if hm == caches.MISS {
					misses[k].Add(1)
				}
			}
		})
		for k := 0; k < rounds; k++ {
			if n[k].Load() != 1 || misses[k].Load() != 1 {
				r.Fail("needless", "key %d was fetched %d times (%d misses) by %d requests at once, although what is fetched lives an hour", k, n[k].Load(), misses[k].Load(), w)
			}
		}
		r.Count("fresh_keys", int64(rounds))
	}
	// a fetch in progress: the same key waits for it, others and invalidation do not
	for i := 0; i < r.N(12, 120); i++ {
		rng := r.Sub("gate", i)
		gate := make(chan struct{})
		entered := make(chan int, 100)
		var n [3]atomic.Int64
		var fail = rng.Intn(2) == 0
		rc := caches.NewRequestLRU(c, 10, func(c ctx.C, k int) (int64, time.Duration, error) {
			x := n[k].Add(1)
			entered <- k
			if k == 0 && x == 1 {
				<-gate
			}
			if fail {
				return x, time.Hour, fmt.Errorf("boom %d", x)
			}
			return x, time.Hour, nil
		})
		type res struct {
			v   int64
			hm  caches.HitMiss
			err error
		}
		ask := func(k int) chan res {
			ch := make(chan res, 1)
			go func() {
				v, hm, err := rc.Request(c, k)
				ch <- res{v, hm, err}
			}()
			return ch
		}
		r.Within("gate", "requests around a fetch in progress", func() {
			first := ask(0)
			<-entered
			var same []chan res
			inv := i%3 == 0
			for k := 1 + rng.Intn(4); k > 0 && !inv; k-- {
				same = append(same, ask(0))
			}
			time.Sleep(time.Duration(rng.Intn(3)) * time.Millisecond)
			if x := <-ask(1); x.hm == caches.HIT {
				r.Fail("other", "another key: %+v", x)
			}
			<-entered
			for _, ch := range same {
				select {
				case x := <-ch:
					r.Fail("wait", "a request was answered %+v while the only fetch of its key goes on", x)
				default:
				}
			}
			if inv {
				rc.Invalidate(c, 0)
				// a request from now on must not use the fetch begun before
				x := <-ask(0)
				<-entered
				if x.v != 2 || x.hm == caches.HIT {
					r.Fail("invalidate", "a request after Invalidate was answered %+v", x)
				}
			}
			close(gate)
			x := <-first
			want := caches.MISS
			if fail {
				want = caches.ERR
			}
			if x.v != 1 || x.hm != want || (x.err != nil) != fail {
				r.Fail("first", "the request that fetched got %+v", x)
			}
			for _, ch := range same {
				y := <-ch
				if y.v != 1 || y.hm != caches.HIT || fmt.Sprint(y.err) != fmt.Sprint(x.err) {
					r.Fail("same", "a request waiting for the fetch got %+v, the fetch gave %+v", y, x)
				}
			}
			wantN := int64(1)
			if inv {
				wantN = 2
			}
			y := <-ask(0)
			if y.v != wantN || y.hm != caches.HIT {
				r.Fail("after", "a later request got %+v, want fetch %d from the cache", y, wantN)
			}
			if n[0].Load() != wantN {
				r.Fail("needless", "%d fetches, want %d", n[0].Load(), wantN)
			}
		})
		r.Eval(fmt.Sprint("gate", i, fail))
	}
}

// ---------------------------------------------------------------- exposition format

type promSample struct {
	name   string
	labels map[string]string
	val    float64
}

type promFamily struct {
	name, help, typ string
	samples         []promSample
}

var promName = regexp.MustCompile(`^[a-zA-Z_:][a-zA-Z0-9_:]*$`)
var promLabel = regexp.MustCompile(`^[a-zA-Z_][a-zA-Z0-9_]*$`)

// parseProm reads a page strictly, as a scraper would.
func parseProm(page string) (map[string]*promFamily, error) {
	out := map[string]*promFamily{}
	if page == "" {
		return out, nil
	}
	if !utf8.ValidString(page) {
		return nil, fmt.Errorf("not UTF-8")
	}
	if !strings.HasSuffix(page, "\n") {
		return nil, fmt.Errorf("the last line is cut")
	}
	var cur *promFamily
	seen := map[string]bool{}
	for _, ln := range strings.Split(strings.TrimSuffix(page, "\n"), "\n") {
		switch {
		case strings.HasPrefix(ln, "# HELP "):
			name, help, _ := strings.Cut(ln[7:], " ")
			if !promName.MatchString(name) {
				return nil, fmt.Errorf("bad name in %q", ln)
			}
			if out[name] != nil {
				return nil, fmt.Errorf("second HELP or TYPE of %q", name)
			}
			h, err := promUnescape(help, false)
			if err != nil {
				return nil, fmt.Errorf("%v in %q", err, ln)
			}
			cur = &promFamily{name: name, help: h}
			out[name] = cur
		case strings.HasPrefix(ln, "# TYPE "):
			name, typ, _ := strings.Cut(ln[7:], " ")
			if cur == nil || cur.name != name || cur.typ != "" || len(cur.samples) > 0 {
				return nil, fmt.Errorf("misplaced %q", ln)
			}
			switch typ {
			case "counter", "gauge", "histogram", "summary", "untyped":
			default:
				return nil, fmt.Errorf("bad type in %q", ln)
			}
			cur.typ = typ
		default:
			i := strings.IndexAny(ln, "{ ")
			if i < 0 {
				return nil, fmt.Errorf("bad line %q", ln)
			}
			s := promSample{name: ln[:i], labels: map[string]string{}}
			if !promName.MatchString(s.name) {
				return nil, fmt.Errorf("bad metric name in line %q", ln)
			}
			rest := ln[i:]
			if rest[0] == '{' {
				rest = rest[1:]
				for {
					eq := strings.Index(rest, "=\"")
					if eq < 0 {
						return nil, fmt.Errorf("bad labels in %q", ln)
					}
					name := rest[:eq]
					if !promLabel.MatchString(name) {
						return nil, fmt.Errorf("bad label name %q in %q", name, ln)
					}
					rest = rest[eq+2:]
					j := 0
					for j < len(rest) && rest[j] != '"' {
						if rest[j] == '\\' {
							j++
						}
						j++
					}
					if j >= len(rest) {
						return nil, fmt.Errorf("unterminated label in %q", ln)
					}
					v, err := promUnescape(rest[:j], true)
					if err != nil {
						return nil, fmt.Errorf("%v in %q", err, ln)
					}
					if _, dup := s.labels[name]; dup {
						return nil, fmt.Errorf("label %q twice in %q", name, ln)
					}
					s.labels[name] = v
					rest = rest[j+1:]
					if strings.HasPrefix(rest, ",") {
						rest = rest[1:]
						continue
					}
					if strings.HasPrefix(rest, "}") {
						rest = rest[1:]
						break
					}
					return nil, fmt.Errorf("bad labels in %q", ln)
				}
			}
			if !strings.HasPrefix(rest, " ") {
				return nil, fmt.Errorf("no value in %q", ln)
			}
			f := strings.Fields(rest)
			if len(f) != 1 {
				return nil, fmt.Errorf("bad value in %q", ln)
			}
			v, err := strconv.ParseFloat(f[0], 64)
			if err != nil && !errors.Is(err, strconv.ErrRange) {
				return nil, fmt.Errorf("bad value in %q", ln)
			}
			s.val = v
			if cur == nil || !(s.name == cur.name || strings.HasPrefix(s.name, cur.name+"_")) {
				return nil, fmt.Errorf("sample %q outside of its family", ln)
			}
			if cur.typ == "" {
				return nil, fmt.Errorf("sample %q before its TYPE", ln)
			}
			id := s.name + fmt.Sprint(s.labels) // labels print sorted
			if seen[id] {
				return nil, fmt.Errorf("series twice: %q", ln)
			}
			seen[id] = true
			cur.samples = append(cur.samples, s)
		}
	}
	for _, f := range out {
		if f.typ == "histogram" {
			if err := checkHistogram(f); err != nil {
				return nil, err
			}
		}
	}
	return out, nil
}

func promUnescape(s string, quotes bool) (string, error) {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		if s[i] != '\\' {
			b.WriteByte(s[i])
			continue
		}
		i++
		if i >= len(s) {
			return "", fmt.Errorf("dangling escape")
		}
		switch {
		case s[i] == '\\':
			b.WriteByte('\\')
		case s[i] == 'n':
			b.WriteByte('\n')
		case s[i] == '"' && quotes:
			b.WriteByte('"')
		default:
			return "", fmt.Errorf("invalid escape \\%c", s[i])
		}
	}
	return b.String(), nil
}

// histogram series by their labels (without le)
type promHist struct {
	le    []float64
	n     []float64
	sum   float64
	count float64
	parts int
}

func histograms(f *promFamily) map[string]*promHist {
	out := map[string]*promHist{}
	get := func(s promSample) *promHist {
		l := map[string]string{}
		for k, v := range s.labels {
			if k != "le" {
				l[k] = v
			}
		}
		id := fmt.Sprint(l)
		if out[id] == nil {
			out[id] = &promHist{}
		}
		return out[id]
	}
	for _, s := range f.samples {
		h := get(s)
		switch strings.TrimPrefix(s.name, f.name) {
		case "_bucket":
			le, err := strconv.ParseFloat(s.labels["le"], 64)
			if err != nil {
				le = math.NaN()
			}
			h.le = append(h.le, le)
			h.n = append(h.n, s.val)
		case "_sum":
			h.sum = s.val
			h.parts++
		case "_count":
			h.count = s.val
			h.parts++
		}
	}
	return out
}

func checkHistogram(f *promFamily) error {
	for id, h := range histograms(f) {
		if h.parts != 2 {
			return fmt.Errorf("%s%s: _sum or _count missing or repeated", f.name, id)
		}
		if len(h.le) == 0 || !math.IsInf(h.le[len(h.le)-1], 1) {
			return fmt.Errorf("%s%s: no +Inf bucket at the end: %v", f.name, id, h.le)
		}
		for i := range h.le {
			if math.IsNaN(h.le[i]) || (i > 0 && (h.le[i] <= h.le[i-1] || h.n[i] < h.n[i-1])) {
				return fmt.Errorf("%s%s: buckets not cumulative: %v %v", f.name, id, h.le, h.n)
			}
		}
		if h.n[len(h.n)-1] != h.count {
			return fmt.Errorf("%s%s: +Inf bucket %v, count %v", f.name, id, h.n[len(h.n)-1], h.count)
		}
	}
	return nil
}

// ---------------------------------------------------------------- C37

// stallWriter blocks in the write that reaches the given position.
type stallWriter struct {
	at      int
	reached chan struct{}
	release chan struct{}
	buf     bytes.Buffer
}

func (w *stallWriter) Write(b []byte) (int, error) {
	if before := w.buf.Len(); before <= w.at && before+len(b) > w.at {
		close(w.reached)
		<-w.release
	}
	return w.buf.Write(b)
}

// c37Stalled: a scraper that stops reading, wherever in the page, stops nobody from observing.
func c37Stalled(r *R) {
	for i := 0; i < r.N(60, 1500); i++ {
		g := r.Sub("stalled", i)
		labels, vals := []string{}, []string{}
		if g.Intn(3) > 0 {
			labels, vals = []string{"l"}, []string{"v"}
		}
		h := &prom.Histogram{Desc: "h", Labels: labels, Buckets: []float64{1, 2, 3}}
		ct := &prom.Counter{Name: "m", Desc: "c", Labels: labels}
		ga := &prom.Gauge{Desc: "g", Labels: labels}
		var print func(w io.Writer) error
		var observe func()
		kind := []string{"histogram", "counter", "gauge"}[i%3]
		switch kind {
		case "histogram":
			print, observe = func(w io.Writer) error { return h.Print("m", w) }, func() { h.Observe(1.5, vals...); h.ObserveSince(time.Now(), vals...) }
		case "counter":
			print, observe = func(w io.Writer) error { return ct.Print(w) }, func() { ct.Observe(1, vals...) }
		case "gauge":
			print, observe = func(w io.Writer) error { return ga.Print("m", w) }, func() { ga.Counter(vals...).Inc(1) }
		}
		observe()
		var page bytes.Buffer
		if err := print(&page); err != nil {
			r.Fail("print", "Print: %v", err)
			return
		}
		at := g.Intn(page.Len())
		r.Eval(fmt.Sprint("stalled", kind, labels, at))
		w := &stallWriter{at: at, reached: make(chan struct{}), release: make(chan struct{})}
		printed := make(chan error, 1)
		go func() { printed <- print(w) }()
		select {
		case <-w.reached:
		case <-time.After(20 * time.Second):
			r.Fail("print", "a %s page of %d bytes is not written to position %d", kind, page.Len(), at)
			return
		}
		r.Within("observe", fmt.Sprintf("observing a %s while its page is stuck at %d of %d bytes", kind, at, page.Len()), func() {
			for k := 0; k < 3; k++ {
				observe()
			}
			if kind == "counter" || g.Intn(2) == 0 { // and another scrape
				if err := print(io.Discard); err != nil {
					r.Fail("print", "Print: %v", err)
				}
			}
		})
		close(w.release)
		if r.Failed() {
			return
		}
		if err := <-printed; err != nil {
			r.Fail("print", "Print: %v", err)
		}
		if _, err := parseProm(w.buf.String()); err != nil {
			r.Fail("page", "of a slow reader: %v\n%s", err, w.buf.String())
		}
		r.Count("stalled_scrapes", 1)
	}
}

// c37Exact: what was observed, of whatever size and sign, one after the other.
func c37Exact(r *R) {
	for i := 0; i < r.N(300, 20000); i++ {
		rng := r.Sub("exact", i)
		labels := []string{"a", "b"}[:rng.Intn(3)]
		var tuples [][]string
		switch len(labels) {
		case 0:
			tuples = [][]string{{}}
		case 1:
			tuples = [][]string{{""}, {"x"}, {"X"}, {"x "}}
		case 2:
			tuples = [][]string{{"", ""}, {"x", ""}, {"", "x"}, {"x", "y"}, {"y", "x"}}
		}
		idOf := func(v []string) string {
			m := map[string]string{}
			for j, l := range labels {
				m[l] = v[j]
			}
			return fmt.Sprint(m)
		}
		buckets := [][]float64{nil, {0}, {-1, 0, 1}, {1, 2, 4, 1 << 40}, {-1 << 30, 0.25, 1 << 20}, {0.5, math.Inf(1)}, prom.DefaultBuckets}[rng.Intn(7)]
		hist := &prom.Histogram{Desc: "d", Labels: labels, Buckets: buckets}
		count := &prom.Counter{Name: "c", Desc: "d", Labels: labels, Gauge: rng.Intn(2) == 0}
		gauge := &prom.Gauge{Desc: "d", Labels: labels}
		type hm struct {
			n   []float64
			sum float64
			cnt float64
		}
		hs, cs, gs, kind := map[string]*hm{}, map[string]float64{}, map[string]float64{}, map[string]string{}
		var script []string
		value := func() float64 { // sums of these are exact in any order
			switch rng.Intn(8) {
			case 0:
				return 0
			case 1:
				return math.Copysign(0, -1)
			case 2:
				return -float64(rng.Intn(64)) / 4
			case 3:
				return float64(int64(1) << rng.Intn(41))
			case 4:
				if len(buckets) > 0 { // on the edge
					if le := buckets[rng.Intn(len(buckets))]; le == math.Trunc(le*4)/4 && !math.IsInf(le, 0) {
						return le
					}
				}
				return 0.25
			case 5:
				if rng.Intn(12) == 0 {
					return []float64{math.NaN(), math.Inf(1), math.Inf(-1)}[rng.Intn(3)]
				}
				return -float64(int64(1) << rng.Intn(41))
			default:
				return float64(rng.Intn(4000)) / 4
			}
		}
		same := func(a, b float64) bool { return a == b || math.IsNaN(a) && math.IsNaN(b) }
		steps := 1 + rng.Intn(40)
		r.Guard("panic", func() string { return strings.Join(script, "\n") }, func() {
			for k := 0; k < steps; k++ {
				v := append([]string{}, tuples[rng.Intn(len(tuples))]...)
				id := idOf(v)
				x := value()
				switch rng.Intn(5) {
				case 0, 1:
					script = append(script, fmt.Sprintf("histogram %q observe %v", v, x))
					if hs[id] == nil {
						hs[id] = &hm{n: make([]float64, len(buckets))}
					}
					hs[id].cnt++
					hs[id].sum += x
					for b, le := range buckets {
						if x <= le {
							hs[id].n[b]++
						}
					}
					hist.Observe(x, v...)
				case 2:
					script = append(script, fmt.Sprintf("counter %q observe %v", v, x))
					cs[id] += x
					count.Observe(x, v...)
				default:
					if kind[id] == "" {
						kind[id] = []string{"counter", "func"}[rng.Intn(2)]
					}
					if kind[id] == "func" {
						if rng.Intn(4) == 0 {
							script = append(script, fmt.Sprintf("gauge %q func gone", v))
							gauge.SetFunc(nil, v...)
							delete(gs, id)
							delete(kind, id)
							break
						}
						script = append(script, fmt.Sprintf("gauge %q func %v", v, x))
						gauge.SetFunc(func() float64 { return x }, v...)
						gs[id] = x
						break
					}
					amt := []int{0, 1, -1, rng.Intn(1000), 1 << 33, -1 << 33, 1<<40 + 1, 1 << 24, 16777217}[rng.Intn(9)]
					if rng.Intn(2) == 0 {
						script = append(script, fmt.Sprintf("gauge %q inc %d", v, amt))
						gauge.Counter(v...).Inc(amt)
						gs[id] += float64(amt)
					} else {
						script = append(script, fmt.Sprintf("gauge %q dec %d", v, amt))
						gauge.Counter(v...).Dec(amt)
						gs[id] -= float64(amt)
					}
				}
				for j := range v {
					v[j] = "changed" // the list of labels is the caller's
				}
				r.Count("observations_exact", 1)
			}
		})
		var b bytes.Buffer
		if err := hist.Print("h", &b); err != nil {
			r.Fail("print", "%v", err)
		}
		if err := count.Print(&b); err != nil {
			r.Fail("print", "%v", err)
		}
		if err := gauge.Print("g", &b); err != nil {
			r.Fail("print", "%v", err)
		}
		r.Eval(strings.Join(script, "\n"))
		fams, err := parseProm(b.String())
		if err != nil {
			r.Fail("page", "%v\n%s\n%s", err, strings.Join(script, "\n"), b.String())
			return
		}
		bad := func(f string, args ...any) {
			r.Fail("exact", "%s\nafter:\n%s\n%s", fmt.Sprintf(f, args...), strings.Join(script, "\n"), b.String())
		}
		got := map[string]*promHist{}
		if f := fams["h"]; f != nil {
			got = histograms(f)
		}
		if len(got) != len(hs) {
			bad("%d histogram series, want %d", len(got), len(hs))
		}
		for id, w := range hs {
			g := got[id]
			if g == nil {
				bad("no histogram series %s", id)
				continue
			}
			if g.count != w.cnt || !same(g.sum, w.sum) {
				bad("histogram %s: count %v sum %v, want %v and %v", id, g.count, g.sum, w.cnt, w.sum)
			}
			byLe := map[float64]float64{}
			for k := range g.le {
				byLe[g.le[k]] = g.n[k]
			}
			for k, le := range buckets {
				n := w.n[k]
				if math.IsInf(le, 1) {
					n = w.cnt // whatever it was
				}
				if x, ok := byLe[le]; !ok || x != n {
					bad("histogram %s: bucket %v is %v (%v), want %v", id, le, x, ok, n)
				}
			}
		}
		flat := func(name string, want map[string]float64) {
			n := 0
			if f := fams[name]; f != nil {
				for _, x := range f.samples {
					n++
					id := fmt.Sprint(x.labels)
					if w, ok := want[id]; !ok || !same(w, x.val) {
						bad("%s %s is %v, want %v (%v)", name, id, x.val, w, ok)
					}
				}
			}
			if n != len(want) {
				bad("%d series of %s, want %d", n, name, len(want))
			}
		}
		flat("c", cs)
		flat("g", gs)
		if r.Failed() {
			return
		}
	}
}

// c37Registry: a page that is stuck, or that registers more while it is made,
// keeps nobody from registering, observing and being scraped.
func c37Registry(r *R) {
	for i := 0; i < 6; i++ {
		name := func(k string) string { return fmt.Sprintf("reg_%s_%d_%d", k, r.Seed, i) }
		var more atomic.Int64
		prom.Register(name("lazy"), &prom.Gauge{}).SetFunc(func() float64 {
			if more.Add(1) == 1 {
				prom.Register(name("more"), &prom.Gauge{}).SetFunc(func() float64 { return 7 })
			}
			return 5
		})
		page := func(w io.Writer) error {
			return prom.Range(func(n string, m prom.Metric) error { return m.Print(n, w) })
		}
		w := &stallWriter{at: 10 + 150*i, reached: make(chan struct{}), release: make(chan struct{})}
		done := make(chan error, 1)
		go func() { done <- page(w) }()
		select {
		case <-w.reached:
		case <-time.After(20 * time.Second):
			r.Fail("print", "the page is not written to byte %d", w.at)
			return
		}
		var b bytes.Buffer
		r.Within("registry", "registering and scraping while another page is stuck", func() {
			g := prom.Register(name("while"), &prom.Gauge{})
			g.Counter().Inc(3)
			for k := 0; k < 2; k++ {
				b.Reset()
				if err := page(&b); err != nil {
					r.Fail("print", "%v", err)
				}
			}
		})
		close(w.release)
		if r.Failed() {
			return
		}
		if err := <-done; err != nil {
			r.Fail("print", "%v", err)
		}
		fams, err := parseProm(b.String())
		if err != nil {
			r.Fail("page", "%v\n%s", err, b.String())
			return
		}
		for n, v := range map[string]float64{name("lazy"): 5, name("more"): 7, name("while"): 3} {
			if f := fams[n]; f == nil || len(f.samples) != 1 || f.samples[0].val != v {
				r.Fail("registry", "%s is %+v, want %v", n, f, v)
			}
		}
		r.Eval(fmt.Sprint("registry/", i))
	}
}

// c37Since: what is observed since a moment is the time since that moment.
func c37Since(r *R) {
	h := &prom.Histogram{Desc: "d", Buckets: []float64{1e-4, 0.5, 100}}
	var lo, hi float64
	rng := r.Sub("since", 0)
	for i := 0; i < 400; i++ {
		start := time.Now().Add(-time.Duration(rng.Int63n(int64([]time.Duration{time.Microsecond, time.Millisecond, time.Second, time.Hour}[rng.Intn(4)]))))
		switch rng.Intn(3) {
		case 0:
			start = start.Round(0).UTC() // no monotonic reading: the clock of the wall
		case 1:
			start = start.In(time.FixedZone("x", 3600))
		}
		l := time.Since(start).Seconds()
		h.ObserveSince(start)
		u := time.Since(start).Seconds()
		lo += l
		hi += u
		r.Eval(fmt.Sprint("since/", i))
	}
	var b bytes.Buffer
	if err := h.Print("h", &b); err != nil {
		r.Fail("print", "%v", err)
	}
	fams, err := parseProm(b.String())
	if err != nil || fams["h"] == nil {
		r.Fail("page", "%v\n%s", err, b.String())
		return
	}
	for _, g := range histograms(fams["h"]) {
		if g.count != 400 || g.sum < lo*(1-1e-9)-1e-6 || g.sum > hi*(1+1e-9)+1e-6 {
			r.Fail("since", "%v observations since some moments add up to %v s, between %v and %v went by", g.count, g.sum, lo, hi)
		}
	}
}

func c37(r *R) {
	c37Stalled(r)
	c37Since(r)
	c37Exact(r)
	c37Registry(r)
	for i := 0; i < r.N(24, 400); i++ {
		rng := r.Sub("prom", i)
		labels := []string{}
		for k := rng.Intn(3); k > 0; k-- {
			labels = append(labels, fmt.Sprint("l", k))
		}
		const ns = 3
		vals := make([][]string, ns)
		for s := range vals {
			for k := range labels {
				vals[s] = append(vals[s], fmt.Sprint("v", (s>>k)&1, s))
			}
		}
		idOf := func(s int) string {
			m := map[string]string{}
			for k := range labels {
				m[labels[k]] = vals[s][k]
			}
			return fmt.Sprint(m)
		}
		if len(labels) == 0 {
			vals = vals[:1]
		}
		buckets := []float64{0.25, 1, 2.5, 10}[:rng.Intn(5)]
		h := &prom.Histogram{Desc: "h", Labels: labels, Buckets: buckets}
		ct := &prom.Counter{Name: "c", Desc: "c", Labels: labels, Gauge: rng.Intn(2) == 0}
		g := &prom.Gauge{Desc: "g", Labels: labels}
		type track struct{ begun, ended [ns]atomic.Int64 } // in quarters
		var hn, hs, cs, gp, gm track
		type bt struct{ begun, ended [ns][5]atomic.Int64 }
		var hb bt
		workers := 2 + rng.Intn(4)
		base := rng.Int63()
		var scrapes, running atomic.Int64
		running.Store(int64(workers))
		type snap struct{ lo, hi map[string]float64 }
		scrape := func(final bool) {
			var lo [ns][12]int64
			read := func(f func(t *track, s int) int64, bf func(s, b int) int64) [ns][12]int64 {
				var out [ns][12]int64
				for s := 0; s < ns; s++ {
					for j, t := range []*track{&hn, &hs, &cs, &gp, &gm} {
						out[s][j] = f(t, s)
					}
					for b := 0; b < 5; b++ {
						out[s][5+b] = bf(s, b)
					}
				}
				return out
			}
			lo = read(func(t *track, s int) int64 { return t.ended[s].Load() }, func(s, b int) int64 { return hb.ended[s][b].Load() })
			// what may have been taken away before the scrape
			var gmHiBefore, gmLo [ns]int64
			for s := 0; s < ns; s++ {
				gmLo[s] = gm.ended[s].Load()
			}
			var buf bytes.Buffer
			err := h.Print("h", &buf)
			if err == nil {
				err = ct.Print(&buf)
			}
			if err == nil {
				err = g.Print("g", &buf)
			}
			hi := read(func(t *track, s int) int64 { return t.begun[s].Load() }, func(s, b int) int64 { return hb.begun[s][b].Load() })
			for s := 0; s < ns; s++ {
				gmHiBefore[s] = gm.begun[s].Load()
			}
			scrapes.Add(1)
			if err != nil {
				r.Fail("print", "Print: %v", err)
				return
			}
			fams, err := parseProm(buf.String())
			if err != nil {
				r.Fail("page", "while being observed: %v\n%s", err, buf.String())
				return
			}
			within := func(what string, s int, got float64, lo, hi int64) {
				if got*4 < float64(lo)-1e-3 || got*4 > float64(hi)+1e-3 {
					r.Fail("conservation", "%s of series %s is %v, between %v and %v were observed by then (final scrape: %v)\n%s", what, idOf(s), got, float64(lo)/4, float64(hi)/4, final, buf.String())
				}
			}
			for s := range vals {
				var hh *promHist
				if f := fams["h"]; f != nil {
					hh = histograms(f)[idOf(s)]
				}
				if hh == nil {
					hh = &promHist{n: make([]float64, len(buckets)+1)}
				}
				within("count", s, hh.count, lo[s][0], hi[s][0])
				within("sum", s, hh.sum, lo[s][1], hi[s][1])
				if len(hh.n) != len(buckets)+1 {
					r.Fail("buckets", "%d buckets, want %d\n%s", len(hh.n), len(buckets)+1, buf.String())
					return
				}
				for b := range buckets {
					within(fmt.Sprintf("bucket le=%v", buckets[b]), s, hh.n[b], lo[s][5+b], hi[s][5+b])
				}
				val := func(fam string) float64 {
					if f := fams[fam]; f != nil {
						for _, x := range f.samples {
							if fmt.Sprint(x.labels) == idOf(s) {
								return x.val
							}
						}
					}
					return 0
				}
				within("counter", s, val("c"), lo[s][2], hi[s][2])
				within("gauge", s, val("g"), lo[s][3]-gmHiBefore[s], hi[s][3]-gmLo[s])
			}
		}
		r.Par("prom", "observing and scraping", workers+2, func(p int) {
			rg := rand.New(rand.NewSource(base + int64(p)))
			if p >= workers {
				for running.Load() > 0 {
					scrape(false)
					runtime.Gosched()
				}
				return
			}
			defer running.Add(-1)
			for k := 0; k < 150; k++ {
				s := rg.Intn(len(vals))
				q := int64(rg.Intn(60)) // quarters
				v := float64(q) / 4
				switch rg.Intn(3) {
				case 0:
					hn.begun[s].Add(4)
					hs.begun[s].Add(q)
					for b := range buckets {
						if v <= buckets[b] {
							hb.begun[s][b].Add(4)
						}
					}
					h.Observe(v, vals[s]...)
					hn.ended[s].Add(4)
					hs.ended[s].Add(q)
					for b := range buckets {
						if v <= buckets[b] {
							hb.ended[s][b].Add(4)
						}
					}
				case 1:
					cs.begun[s].Add(q)
					ct.Observe(v, vals[s]...)
					cs.ended[s].Add(q)
				default:
					n := rg.Intn(5)
					if rg.Intn(2) == 0 {
						gp.begun[s].Add(int64(n) * 4)
						g.Counter(vals[s]...).Inc(n)
						gp.ended[s].Add(int64(n) * 4)
					} else {
						gm.begun[s].Add(int64(n) * 4)
						g.Counter(vals[s]...).Dec(n)
						gm.ended[s].Add(int64(n) * 4)
					}
				}
				if k%40 == 0 {
					runtime.Gosched()
				}
			}
		})
		scrape(true) // nothing pending: exact
		r.Eval(fmt.Sprint(i))
		r.Count("observations", int64(workers*150))
		r.Count("scrapes", scrapes.Load())
		if i < 2 {
			r.Sample("%d workers, labels %v, buckets %v: %d scrapes while observing", workers, labels, buckets, scrapes.Load())
		}
		if r.Failed() {
			return
		}
	}
	// the very first observations of a series, scraped at once
	{
		rounds := r.N(2500, 40000)
		hs := make([]*prom.Histogram, rounds)
		for i := range hs {
			hs[i] = &prom.Histogram{Buckets: []float64{1, 2}}
		}
		const w = 4
		var arrived, turn atomic.Int64
		var first, none atomic.Int64
		r.Par("first", "scraping a histogram during its first observation", w, func(p int) {
			for k := 0; k < rounds; k++ {
				if arrived.Add(1) == int64(w*(k+1)) {
					turn.Store(int64(k + 1))
				}
				for turn.Load() < int64(k+1) {
					runtime.Gosched()
				}
				if p == 0 {
					hs[k].Observe(1.5)
					continue
				}
				r.Guard("first:panic", func() string { return "Print while the first Observe goes on" }, func() {
					var b bytes.Buffer
					if err := hs[k].Print("h", &b); err != nil {
						r.Fail("print", "%v", err)
					}
					f, err := parseProm(b.String())
					if err != nil {
						r.Fail("page", "%v\n%s", err, b.String())
					} else if f["h"] == nil {
						none.Add(1)
					} else {
						first.Add(1)
					}
				})
			}
		})
		r.Count("first_scrapes_with_series", first.Load())
		r.Count("first_scrapes_without", none.Load())
	}
	// durations
	h := &prom.Histogram{Buckets: []float64{0.0000001, 3600}}
	for i := 0; i < 20; i++ {
		t0 := time.Now().Add(-time.Duration(i) * time.Second)
		h.ObserveSince(t0)
	}
	var buf bytes.Buffer
	_ = h.Print("d", &buf)
	if f, err := parseProm(buf.String()); err != nil {
		r.Fail("page", "%v", err)
	} else if x := histograms(f["d"])["map[]"]; x.count != 20 || x.sum < 189 || x.sum > 260 || x.n[1] != 20 {
		r.Fail("since", "20 durations of 0..19 s add up to %v (count %v)", x.sum, x.count)
	}
}

// ---------------------------------------------------------------- C38

var promSeq atomic.Int64

func genLabel(rng *rand.Rand) string {
	switch rng.Intn(8) {
	case 0:
		return ""
	case 1:
		return []string{"\\", "\"", "\n", "\\n", "\\\"", "a\\", "}", ",", "a\",b=\"c", "\t", "\r", "\x00", "\u00e9", "\u200b", "\u2028", "\U0001F600", " x ", "{le=\"1\"}", "#", "\x7f", "\ufeff"}[rng.Intn(21)]
	case 2, 3:
		return strings.ToValidUTF8(genString(rng), "?")
	case 4:
		b := make([]byte, rng.Intn(6))
		for i := range b {
			b[i] = byte(rng.Intn(128))
		}
		return string(b)
	}
	return fmt.Sprint("v", rng.Intn(5))
}

// c38Runtime: what the page says about the process agrees with the runtime's own account of it.
func c38Runtime(r *R) {
	var trash []*[1 << 16]byte
	for i := 0; i < r.N(30, 300); i++ {
		if i%3 == 0 {
			runtime.GC()
		}
		trash = append(trash, new([1 << 16]byte))
		stop := make(chan struct{})
		for k := r.Sub("routines", i).Intn(200); k > 0; k-- {
			go func() { <-stop }()
		}
		read := func() (n int, m runtime.MemStats, gc debug.GCStats) {
			gc.PauseQuantiles = make([]time.Duration, 5)
			n = runtime.NumGoroutine()
			runtime.ReadMemStats(&m)
			debug.ReadGCStats(&gc)
			return
		}
		n0, m0, gc0 := read()
		rec := httptest.NewRecorder()
		prom.Handler()(rec, httptest.NewRequest("GET", "/metrics", nil))
		n1, m1, gc1 := read()
		close(stop)
		fams, err := parseProm(rec.Body.String())
		if err != nil {
			r.Fail("format", "%v\n%s", err, rec.Body.String())
			return
		}
		get := func(fam, name, labels string) float64 {
			if f := fams[fam]; f != nil {
				for _, s := range f.samples {
					if s.name == name && fmt.Sprint(s.labels) == labels {
						return s.val
					}
				}
			}
			r.Fail("runtime:missing", "%s%s is missing", name, labels)
			return math.NaN()
		}
		if v := get("go_info", "go_info", fmt.Sprint(map[string]string{"version": runtime.Version()})); v != 1 {
			r.Fail("runtime:info", "go_info is %v", v)
		}
		if v := get("go_routines", "go_routines", "map[]"); n0 == n1 && math.Abs(v-float64(n0)) > 5 {
			r.Fail("runtime:routines", "go_routines is %v, the runtime says %d", v, n0)
		}
		if v := get("go_memstats_alloc_bytes", "go_memstats_alloc_bytes", "map[]"); m0.NumGC == m1.NumGC && (v < float64(m0.Alloc)/4 || v > 4*float64(m1.Alloc)) { // sweeping goes on meanwhile
			r.Fail("runtime:alloc", "go_memstats_alloc_bytes is %v, the runtime says %d before and %d after", v, m0.Alloc, m1.Alloc)
		}
		const g = "go_gc_duration_seconds"
		if v := get(g, g+"_count", "map[]"); v < float64(gc0.NumGC) || v > float64(gc1.NumGC) {
			r.Fail("runtime:gc", "%v collections, the runtime says %d before and %d after", v, gc0.NumGC, gc1.NumGC)
		}
		if gc0.NumGC == gc1.NumGC {
			if v := get(g, g+"_sum", "map[]"); v != gc0.PauseTotal.Seconds() {
				r.Fail("runtime:gc", "pauses of %v s, the runtime says %v", v, gc0.PauseTotal.Seconds())
			}
			for k, q := range []string{"0", "0.25", "0.5", "0.75", "1"} {
				if v := get(g, g, fmt.Sprint(map[string]string{"quantile": q})); v != gc0.PauseQuantiles[k].Seconds() {
					r.Fail("runtime:gc", "quantile %s is %v, the runtime says %v", q, v, gc0.PauseQuantiles[k].Seconds())
				}
			}
			r.Count("collections compared", 1)
		}
		r.Eval(fmt.Sprint(n0, m0.Alloc, gc0.NumGC))
		r.Count("runtime scrapes", 1)
	}
	runtime.KeepAlive(trash)
}

// failMetric is a metric of the user which fails when told to.
type failMetric struct{ err error }

func (m *failMetric) Print(name string, w io.Writer) error { return m.err }

func c38(r *R) {
	c38Runtime(r)
	// a metric that fails breaks the page off
	fm := prom.Register(fmt.Sprintf("mon_fails_%d", r.Seed), &failMetric{})
	for _, e := range []error{errors.New("boom"), io.EOF, context.Canceled, io.ErrShortWrite, nil} {
		fm.err = e
		for k := 0; k < 20; k++ {
			calls, failed := 0, false
			err := prom.Range(func(n string, m prom.Metric) error {
				calls++
				if failed {
					r.Fail("broken", "the page goes on after %v", e)
				}
				err := m.Print(n, io.Discard)
				failed = err != nil
				return err
			})
			if (e == nil) != (err == nil) || e != nil && !errors.Is(err, e) {
				r.Fail("broken", "a metric failed with %v and the page with %v", e, err)
			}
			r.Eval(fmt.Sprint("fails", e, k))
		}
	}
	for i := 0; i < r.N(240, 8000); i++ {
		rng := r.Sub("page", i)
		n := promSeq.Add(1)
		name := func(k string) string { return fmt.Sprintf("mon_%s_%d_%d", k, r.Seed, n) }
		labels := []string{"aa", "b_2", "_c", "le_", "b", "Z"}
		rng.Shuffle(len(labels), func(i, j int) { labels[i], labels[j] = labels[j], labels[i] })
		labels = labels[:rng.Intn(4)]
		desc := []string{"", "plain text", "a \\ b", "two\nlines", "q\"uote\\n", "é\t"}[rng.Intn(6)]
		want := map[string]float64{} // series -> value
		combos := map[string][]string{}
		var tuples [][]string
		for k := 1 + rng.Intn(5); k > 0; k-- {
			var v []string
			for range labels {
				v = append(v, genLabel(rng))
			}
			tuples = append(tuples, v)
		}
		if len(labels) >= 2 { // values that look alike once put together
			seps := []string{",", "|", "\x00", "\",\"", "\x1f", ":", "/", " ", "\n", "", "=", "\"", "\\", ";", ", ", "\",b=\"", "[", "] ["}
			for k := 0; k < 4; k++ {
				sep := seps[rng.Intn(len(seps))]
				v, w := make([]string, len(labels)), make([]string, len(labels))
				for j := range v {
					v[j] = string(rune('p' + rng.Intn(3)))
					w[j] = v[j]
				}
				v[0], v[1] = v[0]+sep+v[1], w[0]
				w[1] = w[1] + sep + w[0]
				tuples = append(tuples, v, w)
			}
		}
		for _, v := range tuples {
			m := map[string]string{}
			for j, l := range labels {
				m[l] = v[j]
			}
			combos[fmt.Sprint(m)] = v
			_ = want
		}
		hist := &prom.Histogram{Desc: desc, Labels: labels, Buckets: [][]float64{nil, {1}, prom.DefaultBuckets, {1e-9, 1e6, 1e21}}[rng.Intn(4)]}
		gauge := &prom.Gauge{Desc: desc, Labels: labels}
		count := &prom.Counter{Name: name("c"), Desc: desc, Labels: labels}
		type sample struct{ h, g, c float64 }
		vals := map[string]sample{}
		special := []float64{math.Inf(1), math.Inf(-1), math.NaN(), 1e300, -0.5, 0, 123456789, 1e21}
		for _, id := range sortedKeys(combos) {
			v := combos[id]
			s := sample{float64(rng.Intn(100)) / 4, float64(rng.Intn(100)) - 50, float64(rng.Intn(100)) / 4}
			switch rng.Intn(4) {
			case 0: // as small or as large as they come
				s.h, s.c = rng.Float64()*math.Pow(10, float64(rng.Intn(40)-20)), rng.Float64()*math.Pow(10, float64(rng.Intn(600)-300))
			case 1:
				s.c = -s.c
			}
			if rng.Intn(3) == 0 {
				s.g = special[rng.Intn(len(special))]
			}
			hist.Observe(s.h, v...)
			hist.Observe(s.h, v...)
			x := s.g
			gauge.SetFunc(func() float64 { return 99 }, v...)
			gauge.SetFunc(func() float64 { return x }, v...)
			count.Observe(s.c, v...)
			vals[id] = s
		}
		if len(labels) > 0 && rng.Intn(2) == 0 { // a function taken away is no longer there
			gone := make([]string, len(labels))
			gone[0] = "gone"
			gauge.SetFunc(func() float64 { return 1 }, gone...)
			gauge.SetFunc(nil, gone...)
		}
		hn, gn, cn := name("h"), name("g"), name("x")
		custom := &prom.Custom{Desc: desc, Type: "summary", Func: func() map[string]any {
			return map[string]any{cn + "_count": 3, cn + "_sum": 1.5, cn + `{quantile="0.5"}`: 0.5}
		}}
		empty := &prom.Gauge{Desc: desc, Labels: labels}
		overHTTP := i%4 == 0 && i < 240 // what is registered stays registered
		rec := httptest.NewRecorder()
		var page string
		r.Guard("panic", func() string { return fmt.Sprint(combos) }, func() {
			var b bytes.Buffer
			if overHTTP {
				prom.Register(hn, hist)
				prom.Register(gn, gauge)
				prom.Register(cn, custom)
				prom.Register(name("empty"), empty)
				prom.Handler()(rec, httptest.NewRequest("GET", "/metrics", nil))
				b.Write(rec.Body.Bytes())
				r.Count("pages_over_http", 1)
			} else {
				for _, m := range []struct {
					n string
					m prom.Metric
				}{{hn, hist}, {gn, gauge}, {cn, custom}, {name("empty"), empty}} {
					if err := m.m.Print(m.n, &b); err != nil {
						r.Fail("print", "%v", err)
					}
				}
			}
			if err := count.Print(&b); err != nil {
				r.Fail("print", "%v", err)
			}
			page = b.String()
		})
		if rec.Code != 200 {
			r.Fail("status", "status %d", rec.Code)
		}
		r.Eval(fmt.Sprintf("%q %q", combos, desc))
		r.Count("pages", 1)
		fams, err := parseProm(page)
		if err != nil {
			// show what matters
			var lines []string
			for _, l := range strings.Split(page, "\n") {
				if strings.Contains(l, fmt.Sprintf("_%d", n)) {
					lines = append(lines, l)
				}
			}
			r.Fail("format", "%v\nlabels %q desc %q\n%s", err, combos, desc, strings.Join(lines, "\n"))
			return
		}
		musts := []string{hn, gn, cn, count.Name}
		if overHTTP {
			musts = append(musts, "go_routines", "go_info", "go_memstats_alloc_bytes", "go_gc_duration_seconds")
		}
		for _, must := range musts {
			if fams[must] == nil {
				r.Fail("missing", "family %q missing", must)
				return
			}
		}
		for _, x := range []string{hn, gn, cn, count.Name} {
			if fams[x].help != desc {
				r.Fail("help", "HELP reads back as %q, want %q", fams[x].help, desc)
			}
		}
		if fams[hn].typ != "histogram" || fams[gn].typ != "gauge" || fams[cn].typ != "summary" || fams[count.Name].typ != "counter" {
			r.Fail("type", "types %s %s %s %s", fams[hn].typ, fams[gn].typ, fams[cn].typ, fams[count.Name].typ)
		}
		hs := histograms(fams[hn])
		get := func(fam string) map[string]float64 {
			out := map[string]float64{}
			for _, s := range fams[fam].samples {
				out[fmt.Sprint(s.labels)] = s.val
			}
			return out
		}
		gs, cs := get(gn), get(count.Name)
		if len(hs) != len(vals) || len(gs) != len(vals) || len(cs) != len(vals) {
			r.Fail("series", "%d, %d and %d series, want %d each: %q", len(hs), len(gs), len(cs), len(vals), combos)
		}
		r.Count("series", int64(len(hs)+len(gs)+len(cs)))
		for id, s := range vals {
			h := hs[id]
			if h == nil {
				r.Fail("labels", "no histogram series with labels %q; have %q", id, sortedKeys(gs))
				break
			}
			if h.count != 2 || h.sum != 2*s.h {
				r.Fail("value", "histogram %q: sum %v count %v, want %v and 2", id, h.sum, h.count, 2*s.h)
			}
			if len(h.le) != len(hist.Buckets)+1 {
				r.Fail("buckets", "%v, want %v", h.le, hist.Buckets)
			} else {
				for j, le := range hist.Buckets {
					want := 0.0
					if s.h <= le {
						want = 2
					}
					if h.le[j] != le || h.n[j] != want {
						r.Fail("buckets", "le %v: %v, want le %v: %v", h.le[j], h.n[j], le, want)
					}
				}
			}
			if g, ok := gs[id]; !ok || (g != s.g && !(math.IsNaN(g) && math.IsNaN(s.g))) {
				r.Fail("value", "gauge %q reads %v, want %v", id, g, s.g)
			}
			if x, ok := cs[id]; !ok || x != s.c {
				r.Fail("value", "counter %q reads %v, want %v", id, x, s.c)
			}
		}
		if i < 2 {
			r.Sample("labels %q: %d bytes, %d families", combos, len(page), len(fams))
		}
		// misuse is refused at once
		for _, f := range []func(){
			func() { hist.Observe(1, append([]string{"more"}, make([]string, len(labels))...)...) },
			func() { prom.Register("go_info", &prom.Gauge{}) },
		} {
			func() {
				defer func() {
					if recover() == nil {
						r.Fail("misuse", "a wrong number of labels or a second registration was accepted")
					}
				}()
				f()
			}()
		}
		if i%4 == 3 {
			// failing writer: the error comes back, wherever the page breaks off
			for k, print := range []func(w io.Writer) error{
				func(w io.Writer) error { return hist.Print(hn, w) },
				func(w io.Writer) error { return gauge.Print(gn, w) },
				func(w io.Writer) error { return custom.Print(cn, w) },
				count.Print,
			} {
				var b bytes.Buffer
				if k == 1 {
					count.Gauge = rng.Intn(2) == 0 // for the last one
				}
				if err := print(&b); err != nil {
					r.Fail("print", "%v", err)
				}
				if k == 3 {
					typ := "# TYPE " + count.Name + map[bool]string{true: " gauge\n", false: " counter\n"}[count.Gauge]
					if !strings.Contains(b.String(), typ) {
						r.Fail("type", "no %q in\n%s", typ, b.String())
					}
				}
				for n := rng.Intn(40); n < b.Len(); n += 1 + rng.Intn(60) {
					err := print(&failWriter{left: n})
					if err == nil {
						r.Fail("writer", "metric %d: the page broke off after %d of %d bytes, and Print returned no error", k, n, b.Len())
						break
					}
					r.Count("pages broken off", 1)
				}
			}
		}
		if r.Failed() {
			return
		}
	}
	// registering from several goroutines: one wins
	for i := 0; i < 10; i++ {
		var wins atomic.Int64
		nm := fmt.Sprintf("mon_dup_%d", promSeq.Add(1))
		r.Par("register", "concurrent registrations", 4, func(p int) {
			defer func() { _ = recover() }()
			prom.Register(nm, &prom.Gauge{})
			wins.Add(1)
		})
		if wins.Load() != 1 {
			r.Fail("register", "%d of 4 concurrent registrations of one name succeeded", wins.Load())
		}
	}
}

type failWriter struct{ left int }

func (w *failWriter) Write(b []byte) (int, error) {
	if len(b) > w.left {
		n := w.left
		w.left = 0
		return n, io.ErrShortWrite
	}
	w.left -= len(b)
	return len(b), nil
}
