// Package hx is the small core shared by all property checks: it runs the legs
// of a property under rapid, counts what was generated, remembers samples, and
// leaves a machine readable result for run.py.
package hx

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// Leg is one generator+oracle pair of a property.
type Leg struct {
	Name     string
	Quick    int // cases per shard in the quick tier
	Thorough int // cases per shard and round in the thorough tier (default 10*Quick)
	Prop     func(c *C)
}

// C is the context of one generated case.
type C struct {
	*rapid.T
	st   *state
	desc []func() string
	hash uint64
	nt   bool
}

type state struct {
	mu       sync.Mutex
	evals    int64
	failing  int64
	nt       map[uint64]struct{}
	labels   map[string]int64
	samples  []string
	lastFail string
}

type legResult struct {
	Name     string           `json:"name"`
	Evals    int64            `json:"evals"`
	Distinct int              `json:"distinct_nontrivial"`
	Labels   map[string]int64 `json:"labels,omitempty"`
	Failed   bool             `json:"failed"`
	Broken   string           `json:"broken,omitempty"` // harness error (not a violation)
	Replay   string           `json:"replay,omitempty"`
	Message  string           `json:"message,omitempty"`
}

type result struct {
	Property string      `json:"property"`
	Legs     []legResult `json:"legs"`
	Samples  []string    `json:"samples"`
	Hashes   []string    `json:"hashes"`
	Known    []string    `json:"known"`
	Done     bool        `json:"done"`
}

var (
	tier     = env("HX_TIER", "quick")
	seed     = envInt("HX_SEED", 1)
	shard    = envInt("HX_SHARD", 0)
	out      = env("HX_OUT", "")
	scratch  = env("HX_SCRATCH", "")
	budget   = envInt("HX_BUDGET", 0) // seconds; thorough repeats rounds until it is used up
	onlyLeg  = env("HX_LEG", "")
	scale    = env("HX_SCALE", "1")
	failFast = os.Getenv("HX_FAILFAST") != "" // development: stop at the first failing leg
	caseFrom int64                            // cpu nanoseconds at the start of the current case
	inCase   int32
	curName  atomic.Value
)

func env(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

func envInt(k string, d int) int {
	n, err := strconv.Atoi(os.Getenv(k))
	if err != nil {
		return d
	}
	return n
}

// Thorough reports whether the thorough tier is running.
func Thorough() bool { return tier == "thorough" }

// Shard is the index of this process among the parallel ones.
func Shard() int { return shard }

func cpu() int64 {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return ru.Utime.Nano() + ru.Stime.Nano()
}

// Desc adds a lazily rendered line describing the case (printed on failure and
// used for samples).
func (c *C) Desc(format string, args ...interface{}) {
	c.desc = append(c.desc, func() string { return fmt.Sprintf(format, args...) })
}

func (c *C) DescF(f func() string) { c.desc = append(c.desc, f) }

// Label counts a class of cases.
func (c *C) Label(l string) {
	c.st.mu.Lock()
	c.st.labels[l]++
	c.st.mu.Unlock()
}

// LabelIf counts a class when cond holds.
func (c *C) LabelIf(cond bool, l string) {
	if cond {
		c.Label(l)
	}
}

// NonTrivial marks the case as non-trivial; key identifies it for the
// distinct count.
func (c *C) NonTrivial(key string) {
	h := fnv.New64a()
	h.Write([]byte(key))
	c.hash, c.nt = h.Sum64(), true
}

// Render gives the description of the case.
func (c *C) Render() string { return c.render() }

func (c *C) render() string {
	var sb strings.Builder
	for _, f := range c.desc {
		s := func() (s string) {
			defer func() {
				if r := recover(); r != nil {
					s = fmt.Sprint("<cannot render: ", r, ">")
				}
			}()
			return f()
		}()
		for _, line := range strings.Split(s, "\n") {
			if len(line) > 4000 {
				line = line[:4000] + "...(cut)"
			}
			sb.WriteString(line)
			sb.WriteByte('\n')
		}
	}
	if sb.Len() > 40000 {
		return sb.String()[:40000] + "...(cut)\n"
	}
	return sb.String()
}

func (s *state) run(t *rapid.T, leg *Leg) {
	c := &C{T: t, st: s}
	atomic.AddInt64(&s.evals, 1)
	atomic.StoreInt64(&caseFrom, cpu())
	atomic.StoreInt32(&inCase, 1)
	defer func() {
		r := recover()
		atomic.StoreInt32(&inCase, 0)
		kind := fmt.Sprintf("%T", r)
		if r != nil && kind == "rapid.invalidData" || kind == "*rapid.testError" && strings.Contains(fmt.Sprint(r), "invalid data") {
			panic(r)
		}
		if r != nil || t.Failed() {
			atomic.AddInt64(&s.failing, 1)
			txt := c.render()
			if r != nil {
				txt = fmt.Sprintf("%v\n%s", r, txt)
				if kind != "rapid.stopTest" {
					txt = "panic: " + txt + "\n" + string(debug.Stack())
				}
			}
			s.lastFail = txt
			t.Logf("case:\n%s", txt)
			if r != nil {
				panic(r)
			}
			return
		}
		if !c.nt {
			return
		}
		if _, dup := s.nt[c.hash]; !dup {
			s.nt[c.hash] = struct{}{}
			n := len(s.nt)
			// keep a few early and a few later samples
			if len(s.samples) < 3 && (n == 1 || n == 7 || n == 40) {
				txt := c.render()
				if len(txt) > 1500 {
					txt = txt[:1500] + "...(cut)"
				}
				s.samples = append(s.samples, leg.Name+": "+txt)
			}
		}
	}()
	leg.Prop(c)
}

var (
	res   result
	resMu sync.Mutex
)

func save() {
	if out == "" {
		return
	}
	b, err := json.Marshal(&res)
	if err != nil {
		panic(err)
	}
	tmp := out + ".tmp"
	if err := os.WriteFile(tmp, b, 0644); err != nil {
		panic(err)
	}
	os.Rename(tmp, out)
}

// Known reports a listed known finding that still fails.
func Known(line string) {
	resMu.Lock()
	defer resMu.Unlock()
	res.Known = append(res.Known, line)
}

// Scratch returns a fresh directory inside the run's scratch area.
func Scratch(c interface{ Fatalf(string, ...interface{}) }) (string, func()) {
	base := scratch
	if base == "" {
		base = os.TempDir()
	}
	d, err := os.MkdirTemp(base, "case")
	if err != nil {
		panic(err)
	}
	return d, func() { os.RemoveAll(d) }
}

func watchdog(id string) {
	limitCPU := int64(envInt("HX_CPULIMIT", 150)) * int64(time.Second)
	for {
		time.Sleep(200 * time.Millisecond)
		if atomic.LoadInt32(&inCase) == 0 {
			continue
		}
		from := atomic.LoadInt64(&caseFrom)
		var reason string
		if cpu()-from > limitCPU && atomic.LoadInt64(&caseFrom) == from {
			reason = fmt.Sprintf("does not terminate: a single small case has used %d s of processor time", limitCPU/int64(time.Second))
		} else {
			var ms runtime.MemStats
			runtime.ReadMemStats(&ms)
			if ms.HeapAlloc > 3<<30 {
				reason = "unbounded memory: a single small case holds more than 3 GB"
			}
		}
		if reason == "" {
			continue
		}
		leg, _ := curName.Load().(string)
		buf := make([]byte, 1<<16)
		buf = buf[:runtime.Stack(buf, true)]
		p := filepath.Join(scratch, "hang-"+leg+".fail")
		txt := fmt.Sprintf("# %s\n# property=%s leg=%s HX_SEED=%d HX_SHARD=%d\n%s\n", reason, id, leg, seed, shard, buf)
		os.WriteFile(p, []byte(txt), 0644)
		resMu.Lock()
		res.Legs = append(res.Legs, legResult{Name: leg, Failed: true, Replay: p, Message: reason})
		res.Done = true
		save()
		os.Exit(7)
	}
}

// Main runs all legs of a property.
func Main(t *testing.T, id string, legs ...Leg) {
	res.Property = id
	go watchdog(id)
	mult, _ := strconv.ParseFloat(scale, 64)
	if mult <= 0 {
		mult = 1
	}
	start := time.Now()
	states := make([]*state, len(legs))
	failed := map[int]bool{}
	for i := range legs {
		states[i] = &state{nt: map[uint64]struct{}{}, labels: map[string]int64{}}
		res.Legs = append(res.Legs, legResult{Name: legs[i].Name})
	}
	for round := 0; ; round++ {
		for i := range legs {
			leg := &legs[i]
			if failed[i] || (onlyLeg != "" && onlyLeg != leg.Name) {
				continue
			}
			n := leg.Quick
			if Thorough() {
				n = leg.Thorough
				if n == 0 {
					n = 5 * leg.Quick
				}
			}
			n = int(float64(n) * mult)
			if n < 1 {
				n = 1
			}
			s := states[i]
			curName.Store(leg.Name)
			h := fnv.New64a()
			fmt.Fprintf(h, "%s/%s/%d/%d/%d", id, leg.Name, seed, shard, round)
			sd := h.Sum64()
			if sd == 0 {
				sd = 1
			}
			flag.Set("rapid.checks", strconv.Itoa(n))
			flag.Set("rapid.seed", strconv.FormatUint(sd, 10))
			name := leg.Name
			ok := t.Run(name, func(st *testing.T) {
				rapid.Check(st, func(rt *rapid.T) { s.run(rt, leg) })
			})
			r := &res.Legs[i]
			if !ok {
				failed[i] = true
				if atomic.LoadInt64(&s.failing) == 0 {
					r.Broken = "leg failed without a failing case (generator health)"
				} else {
					r.Failed = true
					r.Message = firstLine(s.lastFail)
					m, _ := filepath.Glob(filepath.Join("testdata", "rapid", "*"+leg.Name+"*", "*.fail"))
					if len(m) > 0 {
						abs, _ := filepath.Abs(m[len(m)-1])
						r.Replay = abs
					} else {
						p, _ := filepath.Abs("case-" + leg.Name + ".txt")
						os.WriteFile(p, []byte(s.lastFail), 0644)
						r.Replay = p
					}
				}
			}
			save()
			if !ok && failFast {
				os.Exit(1)
			}
		}
		if !Thorough() || len(failed) > 0 || time.Since(start) > time.Duration(budget)*time.Second {
			break
		}
	}
	for i := range legs {
		s := states[i]
		r := &res.Legs[i]
		r.Evals, r.Distinct, r.Labels = s.evals, len(s.nt), s.labels
		res.Samples = append(res.Samples, s.samples...)
		for h := range s.nt {
			res.Hashes = append(res.Hashes, strconv.FormatUint(h, 36))
		}
	}
	res.Done = true
	save()
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}
