package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"hash/maphash"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// A family turns a payload (the serialised case) into one execution of the
// real code and its comparison with the model. It returns "" if they agree.
type family func(w *Worker, payload []byte) string

var families = map[string]family{}

// A check explores the space of one property.
type check struct {
	id     string
	bounds string
	run    func(c *Ctx)
}

var checks = map[string]*check{}

func register(id, bounds string, run func(c *Ctx)) { checks[id] = &check{id, bounds, run} }

type Violation struct {
	Family  string `json:"family"`
	Payload []byte `json:"payload"`
	What    string `json:"what"`
}

// Report is what the exploring child hands to its parent.
type Report struct {
	States      int64              `json:"states"`
	Transitions int64              `json:"transitions"`
	Traces      int64              `json:"traces"`
	Outcomes    map[string]int64   `json:"outcomes"`
	Spaces      map[string]int64   `json:"spaces"`
	Seconds     map[string]float64 `json:"seconds"`
	Samples     []string           `json:"samples"`
	Violations  []Violation        `json:"violations"`
	Exhaustive  bool               `json:"exhaustive"`
	Capped      []string           `json:"capped"`
}

const slotSize = 64 << 10

type Worker struct {
	id          int
	c           *Ctx
	slot        []byte // mapped file: length, family, payload of the running case
	started     int64  // atomic: start of the running case, unix nanoseconds
	states      int64
	transitions int64
	traces      int64
	outcomes    map[string]int64
	buf         []byte
	eng         docEngine
	key         string // state reached by the last case, for Ctx.bfs
}

type Ctx struct {
	id       string
	thorough bool
	seed     int64
	deadline time.Time
	dir      string
	workers  []*Worker
	mu       sync.Mutex
	viol     []Violation
	samples  []string
	spaces   map[string]int64
	seconds  map[string]float64
	capped   map[string]bool
	stop     int32
	replay   bool
	// reuse of the spaces of other checks
	force  byte   // options to add
	before string // stands before the names of spaces
	shrink int    // levels to take off tree depths
	fam    string // family to run instead of "doc"
	few    int    // take every few-th generated document only (0: all)
	// session mode: one worker that remembers what it ran
	session bool
	log     []byte // families and payloads of all cases so far
}

const maxViolations = 12

// Stop reports whether exploration has to end (deadline or enough found).
func (c *Ctx) Stop() bool {
	if atomic.LoadInt32(&c.stop) != 0 {
		return true
	}
	if time.Now().After(c.deadline) {
		atomic.StoreInt32(&c.stop, 1)
		return true
	}
	return false
}

func (c *Ctx) Sample(s string) {
	c.mu.Lock()
	if len(c.samples) < 12 {
		if len(s) > 300 {
			s = s[:300] + "..."
		}
		c.samples = append(c.samples, strconv.QuoteToASCII(s))
	}
	c.mu.Unlock()
}

// Space explores n work items in parallel and accounts for them under name.
func (c *Ctx) Space(name string, n int, f func(w *Worker, i int)) {
	name = c.before + name
	if c.Stop() {
		c.cap(name)
		return
	}
	before := c.traces()
	t0 := time.Now()
	var next int64 = -1
	var wg sync.WaitGroup
	var done int64
	for _, w := range c.workers {
		w := w
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				i := int(atomic.AddInt64(&next, 1))
				if i >= n || c.Stop() {
					return
				}
				f(w, i)
				if !c.Stop() {
					atomic.AddInt64(&done, 1)
				}
			}
		}()
	}
	wg.Wait()
	c.mu.Lock()
	c.spaces[name] += c.traces() - before
	c.seconds[name] += time.Since(t0).Seconds()
	c.mu.Unlock()
	if done < int64(n) {
		c.cap(name)
	}
}

func (c *Ctx) cap(name string) {
	c.mu.Lock()
	c.capped[name] = true
	c.mu.Unlock()
}

func (c *Ctx) traces() int64 {
	var n int64
	for _, w := range c.workers {
		n += atomic.LoadInt64(&w.traces)
	}
	return n
}

// Do runs one case. The payload is kept where the parent finds it if the
// process dies.
func (w *Worker) Do(fam string, payload []byte) {
	n := 0
	if len(payload)+64 < len(w.slot) {
		n = len(payload)
		copy(w.slot[64:], payload)
		copy(w.slot[8:64], fam)
		w.slot[8+len(fam)] = 0
	}
	if w.c.session && fam != "race" {
		w.c.log = appendCase(w.c.log, fam, payload)
	}
	w.slot[0], w.slot[1], w.slot[2], w.slot[3] = byte(n), byte(n>>8), byte(n>>16), 1
	atomic.StoreInt64(&w.started, time.Now().UnixNano())
	what := w.exec(fam, payload)
	atomic.StoreInt64(&w.started, 0)
	w.slot[3] = 0
	atomic.AddInt64(&w.traces, 1)
	if what != "" {
		w.violation(fam, payload, what)
	}
}

func (w *Worker) violation(fam string, payload []byte, what string) {
	c := w.c
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.session {
		if len(c.viol) == 0 {
			c.viol = append(c.viol, Violation{"session", append([]byte{}, c.log...), what})
		}
		atomic.StoreInt32(&c.stop, 1)
		return
	}
	c.viol = append(c.viol, Violation{fam, append([]byte{}, payload...), what})
	if c.dir != "" { // in case the process dies
		if f, err := os.OpenFile(filepath.Join(c.dir, "found"), os.O_WRONLY|os.O_CREATE|os.O_APPEND, 0o644); err == nil {
			json.NewEncoder(f).Encode(c.viol[len(c.viol)-1])
			f.Close()
		}
	}
	if len(c.viol) >= maxViolations {
		atomic.StoreInt32(&c.stop, 1)
	}
}

// A session is a sequence of cases run one after another in one process: how
// a failure is replayed that only appears after other uses of the library.
func appendCase(l []byte, fam string, payload []byte) []byte {
	if len(l) > 512<<20 {
		return l
	}
	l = binary.AppendUvarint(l, uint64(len(fam)))
	l = append(l, fam...)
	l = binary.AppendUvarint(l, uint64(len(payload)))
	return append(l, payload...)
}

func nextCase(l []byte) (fam string, payload, rest []byte) {
	n, k := binary.Uvarint(l)
	fam, l = string(l[k:k+int(n)]), l[k+int(n):]
	n, k = binary.Uvarint(l)
	return fam, l[k : k+int(n)], l[k+int(n):]
}

func init() {
	families["session"] = func(w *Worker, l []byte) string {
		for len(l) > 0 {
			var fam string
			var payload []byte
			fam, payload, l = nextCase(l)
			if what := w.exec(fam, payload); len(l) == 0 {
				return what
			}
		}
		return ""
	}
	readers["session"] = func(l []byte) string {
		n := 0
		var fam string
		var payload []byte
		for len(l) > 0 {
			fam, payload, l = nextCase(l)
			n++
		}
		return fmt.Sprintf("after %d other cases in the same process: %s", n-1, readable(fam, payload))
	}
}

func (w *Worker) exec(fam string, payload []byte) (what string) {
	defer func() {
		if r := recover(); r != nil {
			what = fmt.Sprintf("panic: %v at %s", r, where())
		}
	}()
	f := families[fam]
	if f == nil {
		if f = variantFamily(fam); f == nil {
			return ""
		}
	}
	return f(w, payload)
}

// where names the library frame that panicked.
func where() string {
	for _, l := range strings.Split(string(debug.Stack()), "\n") {
		if k := strings.Index(l, "/vtdxml/"); k >= 0 && strings.Contains(l, ".go:") {
			return strings.TrimSpace(strings.SplitN(l[k+1:], " ", 2)[0])
		}
	}
	return "?"
}

func (w *Worker) outcome(s string) { w.outcomes[s]++ }

func newCtx(id string, thorough bool, seed int64, dir string, limit time.Duration, nworkers int) *Ctx {
	xmlChar() // the verification build shares the first one made
	c := &Ctx{id: id, thorough: thorough, seed: seed, dir: dir, deadline: time.Now().Add(limit),
		spaces: map[string]int64{}, seconds: map[string]float64{}, capped: map[string]bool{}}
	for i := 0; i < nworkers; i++ {
		w := &Worker{id: i, c: c, outcomes: map[string]int64{}}
		w.slot = make([]byte, slotSize)
		if dir != "" {
			p := filepath.Join(dir, fmt.Sprintf("slot%d", i))
			f, err := os.OpenFile(p, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0o644)
			if err == nil {
				if f.Truncate(slotSize) == nil {
					if m, err := syscall.Mmap(int(f.Fd()), 0, slotSize, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED); err == nil {
						w.slot = m
					}
				}
				f.Close()
			}
		}
		c.workers = append(c.workers, w)
	}
	return c
}

func (c *Ctx) report() Report {
	r := Report{Outcomes: map[string]int64{}, Spaces: c.spaces, Seconds: c.seconds, Samples: c.samples, Exhaustive: len(c.capped) == 0}
	for _, w := range c.workers {
		r.States += w.states
		r.Transitions += w.transitions
		r.Traces += w.traces
		for k, v := range w.outcomes {
			r.Outcomes[k] += v
		}
	}
	for k := range c.capped {
		r.Capped = append(r.Capped, k)
	}
	sort.Strings(r.Capped)
	sort.Slice(c.viol, func(i, j int) bool { return len(c.viol[i].Payload) < len(c.viol[j].Payload) })
	r.Violations = c.viol
	return r
}

// childMain explores one property and writes the report. It ends with 0, or
// with 3 if a case hangs or memory runs away.
func childMain(id string, thorough bool, seed int64, dir string, limit time.Duration) {
	debug.SetGCPercent(600)
	debug.SetMemoryLimit(12 << 30)
	ck := checks[id]
	n := workerCount()
	if os.Getenv("MC_SESSION") != "" {
		n = 1
	}
	c := newCtx(id, thorough, seed, dir, limit, n)
	c.session = n == 1
	go func() { // watchdog
		page := int64(os.Getpagesize())
		for {
			time.Sleep(100 * time.Millisecond)
			now := time.Now().UnixNano()
			for _, w := range c.workers {
				s := atomic.LoadInt64(&w.started)
				if s != 0 && now-s > int64(caseLimit) {
					os.WriteFile(filepath.Join(dir, "why"), []byte(fmt.Sprintf("worker %d: a case runs for more than %v", w.id, caseLimit)), 0o644)
					os.Exit(3)
				}
			}
			if b, err := os.ReadFile("/proc/self/statm"); err == nil {
				f := bytes.Fields(b)
				if len(f) > 1 {
					rss, _ := strconv.ParseInt(string(f[1]), 10, 64)
					if rss*page > memLimit {
						os.WriteFile(filepath.Join(dir, "why"), []byte("memory runs away"), 0o644)
						os.Exit(3)
					}
				}
			}
		}
	}()
	ck.run(c)
	b, err := json.Marshal(c.report())
	if err == nil {
		err = os.WriteFile(filepath.Join(dir, "report.json"), b, 0o644)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	os.Exit(0)
}

const (
	caseLimit = 20 * time.Second
	memLimit  = 16 << 30
)

func workerCount() int {
	n := runtime.NumCPU()
	if n > 16 {
		n = 16
	}
	return n
}

// seen is a sharded set of strings (by 64-bit hash) with the remaining depth
// at which each was explored.
type seen struct {
	seed   maphash.Seed
	shards [256]struct {
		mu sync.Mutex
		m  map[uint64]int8
	}
}

func newSeen() *seen {
	s := &seen{seed: maphash.MakeSeed()}
	for i := range s.shards {
		s.shards[i].m = map[uint64]int8{}
	}
	return s
}

// visit reports whether b has to be explored with rem levels left, and
// whether it is new.
func (s *seen) visit(b []byte, rem int) (explore, fresh bool) {
	h := maphash.Bytes(s.seed, b)
	sh := &s.shards[h>>56]
	sh.mu.Lock()
	defer sh.mu.Unlock()
	old, ok := sh.m[h]
	if ok && int(old) >= rem {
		return false, false
	}
	sh.m[h] = int8(rem)
	return true, !ok
}
