// Package hx is the frame of the monitors: cases, verdicts, traces, watchdog.
package hx

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"io"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	"github.com/sirupsen/logrus"
)

const repoPrefix = "github.com/vulpemventures/neutrino-elements/"
const harnessPrefix = "github.com/vulpemventures/neutrino-elements/verifharness"

// Violation is one observed breach of a property, with what replays it.
type Violation struct {
	Group  string   `json:"group"`
	Case   int      `json:"case"`
	Key    string   `json:"key"` // what fails, without the accidental details
	What   string   `json:"what"`
	Trace  []string `json:"trace,omitempty"`
	Seed   int64    `json:"seed"`
	Tier   string   `json:"tier"`
	Replay string   `json:"replay"`
}

type result struct {
	Property    string                 `json:"property"`
	Seed        int64                  `json:"seed"`
	Tier        string                 `json:"tier"`
	Finished    bool                   `json:"finished"`
	Evaluations int                    `json:"evaluations"`
	Distinct    int                    `json:"distinct_nontrivial"`
	Counters    map[string]int64       `json:"counters"`
	Groups      map[string]int         `json:"groups"`
	Samples     []interface{}          `json:"samples"`
	Violations  []Violation            `json:"violations"`
	Known       []string               `json:"known"`
	Errors      []string               `json:"errors"` // of the harness: inconclusive
	Rule        string                 `json:"rule"`
	Extra       map[string]interface{} `json:"extra,omitempty"`
}

// Run collects what the cases of one property observed.
type Run struct {
	T    *testing.T
	Prop string
	Seed int64
	Tier string

	mu       sync.Mutex
	res      result
	sigs     map[string]struct{}
	active   map[*Case]time.Time
	samples  map[string]int
	required []string
	caseTime time.Duration
	only     string
	onlyIdx  int
	out      string
	nviol    int
	workers  int
	noLeak   bool
	endsIn   time.Duration
	frozen   int
}

// Main runs the monitors of a property. rule says how cases are made and what
// makes one non-trivial.
func Main(t *testing.T, prop, rule string, fn func(r *Run)) {
	logrus.SetOutput(io.Discard)
	logrus.SetFormatter(noFormat{})
	yields := &yielder{}
	logrus.AddHook(yields)
	logrus.StandardLogger().ExitFunc = func(code int) {
		panic(fmt.Sprintf("logrus exit %d", code))
	}
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if os.Getenv("VERIF_SEED") == "" {
		seed = 1
	}
	r := &Run{endsIn: 5 * time.Minute, T: t, Prop: prop, Seed: seed, Tier: os.Getenv("VERIF_TIER"), sigs: map[string]struct{}{},
		active: map[*Case]time.Time{}, samples: map[string]int{}, caseTime: 100 * time.Second,
		out: os.Getenv("HX_OUT"), onlyIdx: -1, workers: runtime.GOMAXPROCS(0)}
	if r.Tier == "" {
		r.Tier = "quick"
	}
	if c := os.Getenv("HX_CASE"); c != "" {
		i := strings.LastIndex(c, ":")
		r.only = c[:i]
		r.onlyIdx, _ = strconv.Atoi(c[i+1:])
	}
	r.res = result{Property: prop, Seed: seed, Tier: r.Tier, Counters: map[string]int64{}, Groups: map[string]int{}, Rule: rule, Extra: map[string]interface{}{}}
	stop := make(chan struct{})
	go r.watchdog(stop)
	fn(r)
	close(stop)
	r.mu.Lock()
	if r.only == "" {
		for _, c := range r.required {
			if r.res.Counters[c] == 0 && len(r.res.Violations) == 0 {
				r.res.Errors = append(r.res.Errors, "nothing observed of: "+c)
			}
		}
	}
	if n := yields.n.Load(); n > 0 {
		r.res.Counters["places where the scheduler was perturbed"] = n
		r.res.Counters["yields there"] = yields.yields.Load()
	}
	r.res.Finished = true
	r.mu.Unlock()
	r.flush()
	for _, v := range r.res.Violations {
		t.Logf("VIOLATION %s %s:%d %s", prop, v.Group, v.Case, v.What)
		if r.only != "" || os.Getenv("HX_TRACE") != "" {
			for _, l := range v.Trace {
				t.Log("   ", l)
			}
		}
	}
	for _, v := range r.res.Errors {
		t.Log("HARNESS ERROR ", v)
	}
	if r.frozen > 0 {
		fmt.Printf("%d bubbles were left frozen\n", r.frozen)
	}
	t.Logf("%s evaluations=%d distinct=%d counters=%v", prop, r.res.Evaluations, len(r.sigs), r.res.Counters)
	if r.frozen > 0 {
		// the frozen bubbles never end; the verdict is written already
		fmt.Printf("%s ends with code 3: %d frozen bubbles, %d violations\n", prop, r.frozen, len(r.res.Violations))
		os.Exit(3)
	}
}

// Thorough says whether this is a thorough run.
func (r *Run) Thorough() bool { return r.Tier == "thorough" }

// N picks a number of cases by tier.
func (r *Run) N(quick, thorough int) int {
	if r.Thorough() {
		return thorough
	}
	return quick
}

// Require makes the run inconclusive if a counter stays at zero.
func (r *Run) Require(counters ...string) { r.required = append(r.required, counters...) }

// CaseTime sets the (real) time after which a case counts as hung.
func (r *Run) CaseTime(d time.Duration) { r.caseTime = d }

// Workers sets how many cases run at a time.
func (r *Run) Workers(n int) { r.workers = n }

// EndsIn sets how long what is left may go on after the end of a case.
func (r *Run) EndsIn(d time.Duration) { r.endsIn = d }

// TolerateLeaks makes goroutines that outlive a bubble no violation.
func (r *Run) TolerateLeaks() { r.noLeak = true }

// Extra adds a value to the coverage section of the evidence.
func (r *Run) Extra(k string, v interface{}) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.res.Extra[k] = v
}

// Known reports that a listed finding still fails as described.
func (r *Run) Known(key string) {
	r.mu.Lock()
	defer r.mu.Unlock()
	for _, k := range r.res.Known {
		if k == key {
			return
		}
	}
	r.res.Known = append(r.res.Known, key)
}

// Error makes the run inconclusive.
func (r *Run) Error(format string, a ...interface{}) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if len(r.res.Errors) < 20 {
		r.res.Errors = append(r.res.Errors, fmt.Sprintf(format, a...))
	}
}

func (r *Run) flush() {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.res.Distinct = len(r.sigs)
	if r.out == "" {
		return
	}
	b, _ := json.MarshalIndent(r.res, "", " ")
	os.WriteFile(r.out+".tmp", b, 0644)
	os.Rename(r.out+".tmp", r.out)
}

// Case is one generated execution.
type Case struct {
	R     *Run
	Group string
	Idx   int
	Rand  *rand.Rand
	T     *testing.T

	mu       sync.Mutex
	trace    []string
	sig      []string
	start    time.Time
	bubble   bool
	bubbleID string
	cleanups []func()
	failed   atomic.Bool
	sample   interface{}
	tl       int
	closed   bool
}

func caseSeed(seed int64, prop, group string, i int) int64 {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d/%s/%s/%d", seed, prop, group, i)
	return int64(h.Sum64() >> 1)
}

// Cases runs n cases of a group, several at a time.
func (r *Run) Cases(group string, n int, fn func(c *Case)) {
	if r.only != "" && r.only != group {
		return
	}
	r.mu.Lock()
	r.res.Groups[group] += n
	r.mu.Unlock()
	w := r.workers
	if w > n {
		w = n
	}
	var next int64 = -1
	var wg sync.WaitGroup
	for k := 0; k < w; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				i := int(atomic.AddInt64(&next, 1))
				if i >= n {
					return
				}
				if r.onlyIdx >= 0 && r.onlyIdx != i {
					continue
				}
				if r.tooMany() {
					return
				}
				r.one(group, i, fn)
			}
		}()
	}
	wg.Wait()
	r.flush()
}

func (r *Run) tooMany() bool {
	r.mu.Lock()
	defer r.mu.Unlock()
	return r.nviol >= 40
}

func (r *Run) one(group string, i int, fn func(c *Case)) {
	perturb(i)
	c := &Case{R: r, Group: group, Idx: i, Rand: newRand(caseSeed(r.Seed, r.Prop, group, i)), start: time.Now(), T: r.T}
	r.mu.Lock()
	r.active[c] = time.Now()
	r.mu.Unlock()
	defer func() {
		r.mu.Lock()
		delete(r.active, c)
		r.mu.Unlock()
	}()
	func() {
		defer c.recoverPanic("case")
		fn(c)
	}()
	c.runCleanups() // those of a bubble have run already
	c.finish()
}

func (c *Case) finish() {
	c.mu.Lock()
	sig := append([]string(nil), c.sig...)
	c.closed = true
	sample := c.sample
	tl := c.trace
	c.mu.Unlock()
	r := c.R
	r.mu.Lock()
	defer r.mu.Unlock()
	r.res.Evaluations++
	if len(sig) > 0 {
		r.sigs[c.Group+"|"+strings.Join(sig, "|")] = struct{}{}
		if r.samples[c.Group] < 2 && len(r.res.Samples) < 24 {
			r.samples[c.Group]++
			if len(tl) > 25 {
				tl = tl[:25]
			}
			if sample == nil {
				sample = sig
			}
			r.res.Samples = append(r.res.Samples, map[string]interface{}{"group": c.Group, "case": c.Idx, "what": sample, "observed": tl})
		}
	}
}

// Eval counts n more evaluations than the case itself.
func (c *Case) Eval(n int) {
	c.R.mu.Lock()
	c.R.res.Evaluations += n
	c.R.mu.Unlock()
}

// Sig adds to the signature that tells distinct non-trivial cases apart.
func (c *Case) Sig(format string, a ...interface{}) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.sig = append(c.sig, fmt.Sprintf(format, a...))
}

// Distinct counts a distinct non-trivial item besides the case itself.
func (c *Case) Distinct(format string, a ...interface{}) {
	s := fmt.Sprintf(format, a...)
	c.R.mu.Lock()
	defer c.R.mu.Unlock()
	if len(c.R.sigs) < 2000000 {
		c.R.sigs["+"+s] = struct{}{}
	}
}

// Sample describes the case in the evidence.
func (c *Case) Sample(v interface{}) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.sample = v
}

// Count adds to a counter of what was observed.
func (c *Case) Count(name string, n int) {
	c.R.mu.Lock()
	defer c.R.mu.Unlock()
	c.R.res.Counters[name] += int64(n)
}

// Log adds to the trace of the case.
func (c *Case) Log(format string, a ...interface{}) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if len(c.trace) < 4000 {
		s := fmt.Sprintf(format, a...)
		if len(s) > 400 {
			s = s[:400] + "..."
		}
		c.trace = append(c.trace, fmt.Sprintf("%10.3fs ", time.Since(c.start).Seconds())+s)
	}
}

// Failed says whether the case has violated the property.
func (c *Case) Failed() bool { return c.failed.Load() }

// Violate records a breach. key names what fails without accidental details.
func (c *Case) Violate(key, format string, a ...interface{}) {
	c.failed.Store(true)
	what := fmt.Sprintf(format, a...)
	if len(what) > 4000 {
		what = what[:4000] + "..."
	}
	c.mu.Lock()
	tr := append([]string(nil), c.trace...)
	closed := c.closed
	c.mu.Unlock()
	if closed {
		return
	}
	if len(tr) > 400 {
		tr = append(append([]string(nil), tr[:200]...), append([]string{"..."}, tr[len(tr)-200:]...)...)
	}
	r := c.R
	r.mu.Lock()
	r.nviol++
	n := 0
	for _, v := range r.res.Violations {
		if v.Key == key {
			n++
		}
	}
	if n < 3 {
		r.res.Violations = append(r.res.Violations, Violation{Group: c.Group, Case: c.Idx, Key: key, What: what, Trace: tr, Seed: r.Seed, Tier: r.Tier,
			Replay: fmt.Sprintf("VERIF_SEED=%d VERIF_TIER=%s HX_CASE=%s:%d", r.Seed, r.Tier, c.Group, c.Idx)})
	}
	r.mu.Unlock()
	r.flush()
}

// Errorf makes the run inconclusive because of this case.
func (c *Case) Errorf(format string, a ...interface{}) {
	c.R.Error("%s:%d %s", c.Group, c.Idx, fmt.Sprintf(format, a...))
}

// recoverPanic turns a panic into a verdict: of the code under test if its
// first frame outside the runtime and libraries is there.
func (c *Case) recoverPanic(where string) {
	e := recover()
	if e == nil {
		return
	}
	if e == errAbort {
		return
	}
	st := string(debug.Stack())
	if c.bubble == false && strings.Contains(fmt.Sprint(e), "deadlock:") {
		c.deadlock(fmt.Sprint(e))
		return
	}
	if who := Blame(st); who != "" {
		c.Violate("panic in "+who, "panic %v in %s\n%s", e, who, st)
		return
	}
	c.Errorf("panic in the harness (%s): %v\n%s", where, e, st)
}

var errAbort = fmt.Errorf("abort")

// Abort ends the case.
func (c *Case) Abort() { panic(errAbort) }

func (c *Case) deadlock(msg string) {
	who, _ := leftBehind(c.bubbleID)
	if len(who) == 0 {
		c.Errorf("bubble left goroutines of the harness: %s\n%s", msg, allStacks())
	} else if !c.R.noLeak {
		c.Violate("left running: "+who[0], "goroutines are left after the end: %s", strings.Join(who, "; "))
	}
}

func allStacks() string {
	buf := make([]byte, 8<<20)
	return string(buf[:runtime.Stack(buf, true)])
}

// leftBehind returns the goroutines of a bubble that are in, or were started by,
// the repository, and the other ones.
func leftBehind(id string) (who, harness []string) {
	if id == "" {
		return nil, nil
	}
	for _, g := range strings.Split(allStacks(), "\n\n") {
		head := g[:strings.IndexByte(g+"\n", '\n')]
		if !strings.Contains(head, id+"]") && !strings.Contains(head, id+",") {
			continue
		}
		if strings.Contains(g, "hx.(*Case).Bubble") && strings.Contains(g, "synctest.testingSynctestTest") || strings.Contains(head, "synctest.Run") {
			continue
		}
		if f := anyRepoFrame(g); f != "" {
			who = append(who, f)
		} else if strings.Contains(g, harnessPrefix) && !strings.Contains(g, "hx.allStacks") {
			harness = append(harness, g)
		}
	}
	sort.Strings(who)
	return who, harness
}

// Running returns the activities of the repository in the case's bubble: the
// functions of its goroutines and how many there are.
func (c *Case) Running() map[string]int {
	m := map[string]int{}
	who, _ := leftBehind(c.bubbleID)
	for _, f := range who {
		m[f]++
	}
	return m
}

// More returns where there are more activities than before, if there are more of
// them at all: what goes on may well be in another function.
func More(was, is map[string]int) (l []string) {
	n := 0
	for _, k := range was {
		n -= k
	}
	for f, k := range is {
		n += k
		if k > was[f] {
			l = append(l, fmt.Sprintf("%s (%d, were %d)", f, k, was[f]))
		}
	}
	if n <= 0 {
		return nil
	}
	sort.Strings(l)
	return l
}

func anyRepoFrame(g string) string {
	for _, l := range strings.Split(g, "\n") {
		if l = strings.TrimPrefix(l, "created by "); strings.HasPrefix(l, repoPrefix) && !strings.HasPrefix(l, harnessPrefix) {
			if i := strings.Index(l, " in goroutine"); i > 0 {
				return strings.TrimPrefix(l[:i], repoPrefix)
			}
			return fn(l)
		}
	}
	return ""
}

// Blame returns the function of the code under test a panic came from, "" if
// it did not.
func Blame(stack string) string {
	lines := strings.Split(stack, "\n")
	start := 0
	for i, l := range lines {
		if strings.HasPrefix(l, "panic(") {
			start = i + 1
		}
	}
	for _, l := range lines[start:] {
		if strings.HasPrefix(l, "\t") || l == "" || strings.HasPrefix(l, "goroutine ") {
			continue
		}
		if strings.HasPrefix(l, harnessPrefix) {
			return ""
		}
		if strings.HasPrefix(l, repoPrefix) {
			return fn(l)
		}
	}
	return ""
}

func fn(l string) string {
	l = strings.TrimPrefix(l, repoPrefix)
	if i := strings.LastIndex(l, "("); i > 0 {
		l = l[:i]
	}
	return l
}

// repoFrame returns the innermost function of the code under test in the stack
// of a goroutine, "" if there is none or the goroutine is one of the harness.
func repoFrame(g string) string {
	for _, l := range strings.Split(g, "\n") {
		if strings.HasPrefix(l, harnessPrefix) {
			return ""
		}
		if strings.HasPrefix(l, repoPrefix) {
			return fn(l)
		}
		if strings.HasPrefix(l, "created by "+repoPrefix) && !strings.HasPrefix(l, "created by "+harnessPrefix) {
			return strings.TrimPrefix(l, "created by "+repoPrefix)
		}
	}
	return ""
}

// Bubble runs f with virtual time. What f started has to be gone when f and
// the cleanups of the case are over: goroutines of the repository that are left
// are a violation, unless leaks are tolerated.
func (c *Case) Bubble(f func()) {
	done := make(chan struct{})
	left := make(chan struct{})
	go func() {
		defer close(done)
		c.R.T.Run(fmt.Sprintf("%s-%d", c.Group, c.Idx), func(t *testing.T) {
			defer func() {
				if e := recover(); e != nil {
					if strings.Contains(fmt.Sprint(e), "deadlock:") {
						c.deadlock(fmt.Sprint(e))
						return
					}
					panic(e)
				}
			}()
			synctest.Test(t, func(t *testing.T) {
				c.bubble = true
				c.bubbleID = bubbleID()
				c.start = time.Now()
				func() {
					defer c.recoverPanic("bubble")
					f()
				}()
				c.runCleanups()
				time.Sleep(c.R.endsIn)
				synctest.Wait()
				if who, harness := leftBehind(c.bubbleID); len(who)+len(harness) > 0 {
					if len(who) == 0 {
						c.Errorf("goroutines of the harness are left: %v", harness)
					} else if !c.R.noLeak {
						c.Violate("left running: "+who[0], "%d goroutines are left after the end: %s", len(who), strings.Join(who, "; "))
					}
					c.R.mu.Lock()
					c.R.frozen++
					c.R.mu.Unlock()
					close(left)
					<-frozen // not a channel of the bubble: its time stands still from here on
				}
			})
		})
	}()
	select {
	case <-done:
	case <-left:
	}
	c.bubble = false
}

var frozen = make(chan struct{})

// Cleanup runs f at the end of the bubble, the last one first.
func (c *Case) Cleanup(f func()) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.cleanups = append(c.cleanups, f)
}

func (c *Case) runCleanups() {
	for {
		c.mu.Lock()
		n := len(c.cleanups)
		if n == 0 {
			c.mu.Unlock()
			return
		}
		f := c.cleanups[n-1]
		c.cleanups = c.cleanups[:n-1]
		c.mu.Unlock()
		func() {
			defer c.recoverPanic("cleanup")
			f()
		}()
	}
}

// Settle lets virtual time pass and everything come to rest.
func (c *Case) Settle(d time.Duration) {
	time.Sleep(d)
	synctest.Wait()
}

func bubbleID() string {
	buf := make([]byte, 200)
	s := string(buf[:runtime.Stack(buf, false)])
	i := strings.Index(s, "synctest bubble ")
	if i < 0 {
		return ""
	}
	s = s[i:]
	return s[:strings.IndexAny(s, ",]")]
}

// Go runs f in a goroutine whose panics are the case's.
func (c *Case) Go(f func()) {
	go func() {
		defer c.recoverPanic("goroutine")
		f()
	}()
}

// watchdog looks for cases that do not end in real time.
func (r *Run) watchdog(stop chan struct{}) {
	for {
		select {
		case <-stop:
			return
		case <-time.After(time.Second):
		}
		r.mu.Lock()
		var hung *Case
		for c, t := range r.active {
			if time.Since(t) > r.caseTime {
				hung = c
			}
		}
		r.mu.Unlock()
		if hung == nil {
			continue
		}
		// three looks: who is busy or waits for a mutex in the repository in all of them?
		var sets []map[string]string
		var first string
		for k := 0; k < 4; k++ {
			s := allStacks()
			if k == 0 {
				first = s
			}
			sets = append(sets, stuck(s))
			time.Sleep(2 * time.Second)
		}
		var who []string
		for id, f := range sets[0] {
			ok := true
			for _, s := range sets[1:] {
				if _, in := s[id]; !in {
					ok = false
				}
			}
			if ok {
				who = append(who, f)
			}
		}
		sort.Strings(who)
		if r.out != "" {
			os.WriteFile(filepath.Join(filepath.Dir(r.out), filepath.Base(r.out)+".hang"), []byte(first), 0644)
		}
		if len(who) > 0 {
			hung.Violate("hang in "+who[0], "the case does not end: busy or waiting for a lock in %s\n%s", strings.Join(who, "; "), pick(first))
		} else {
			hung.Errorf("case does not end in %v; stacks in the .hang file", r.caseTime)
		}
		r.flush()
		os.Exit(3)
	}
}

func pick(s string) string {
	var out []string
	for _, g := range strings.Split(s, "\n\n") {
		if repoFrame(g) != "" {
			out = append(out, g)
		}
	}
	if len(out) > 12 {
		out = out[:12]
	}
	return strings.Join(out, "\n\n")
}

// stuck returns the goroutines (id -> function) of the repository that run or
// wait for a mutex.
func stuck(s string) map[string]string {
	m := map[string]string{}
	for _, g := range strings.Split(s, "\n\n") {
		g = strings.TrimSpace(g)
		if !strings.HasPrefix(g, "goroutine ") {
			continue
		}
		head := g[:strings.IndexByte(g+"\n", '\n')]
		if !(strings.Contains(head, "[running") || strings.Contains(head, "[runnable") || strings.Contains(head, "Mutex")) {
			continue
		}
		// it may be the harness that runs on behalf of the repository (a
		// stand-in called in a loop): any frame of the repository counts
		f := ""
		for _, l := range strings.Split(g, "\n") {
			if strings.HasPrefix(l, repoPrefix) && !strings.HasPrefix(l, harnessPrefix) {
				f = fn(l)
				break
			}
		}
		if f == "" {
			continue
		}
		m[strings.Fields(head)[1]] = f
	}
	return m
}
