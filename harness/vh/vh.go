// Package vh is the small support library shared by all property checks: it
// pins rapid to the seed the driver hands down, counts what was generated,
// watches for operations that never return, and separates errors of the
// harness from violations of a property.
package vh

import (
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/sirupsen/logrus"
	"pgregory.net/rapid"
)

// Tier is "quick" or "thorough".
var Tier = func() string {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return "thorough"
	}
	return "quick"
}()

// Thorough tells whether the deep tier runs.
func Thorough() bool { return Tier == "thorough" }

func envUint(name string, def uint64) uint64 {
	if v, err := strconv.ParseUint(os.Getenv(name), 10, 64); err == nil {
		return v
	}
	return def
}

// Seed is VERIF_SEED; Shard and Shards tell which slice of the cases this
// process runs.
var (
	Seed   = envUint("VERIF_SEED", 1)
	Shard  = envUint("VH_SHARD", 0)
	Shards = envUint("VH_SHARDS", 1)
)

func mix(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}

// SeedFor derives the seed of one test in one shard.
func SeedFor(name string) uint64 {
	h := fnv.New64a()
	h.Write([]byte(name))
	s := mix(mix(mix(Seed)^h.Sum64()) ^ Shard)
	if s == 0 {
		s = 1
	}
	return s
}

// ---------------------------------------------------------------- statistics

type stat struct {
	Evaluations int64            `json:"evaluations"`
	Nontrivial  int64            `json:"nontrivial"`
	Labels      map[string]int64 `json:"labels"`
	Samples     []string         `json:"samples"`
	Rule        string           `json:"rule"`
}

var (
	mu     sync.Mutex
	stats  = map[string]*stat{}
	hashes = map[uint64]struct{}{}
)

// Rec records what one test generated.
type Rec struct {
	name string
	s    *stat
}

// NewRec registers the test under name with the rule that makes a case
// non-trivial.
func NewRec(name, rule string) *Rec {
	mu.Lock()
	defer mu.Unlock()
	s := &stat{Labels: map[string]int64{}, Rule: rule}
	stats[name] = s
	return &Rec{name, s}
}

// Label counts a class of cases.
func (r *Rec) Label(format string, args ...interface{}) {
	mu.Lock()
	r.s.Labels[fmt.Sprintf(format, args...)]++
	mu.Unlock()
}

// LabelIf counts a class when the condition holds.
func (r *Rec) LabelIf(c bool, l string) {
	if c {
		r.Label("%s", l)
	}
}

// Case counts one generated case. descr identifies it (two cases with the same
// description are the same case).
func (r *Rec) Case(nontrivial bool, format string, args ...interface{}) {
	descr := fmt.Sprintf(format, args...)
	mu.Lock()
	defer mu.Unlock()
	r.s.Evaluations++
	if !nontrivial {
		return
	}
	h := fnv.New64a()
	h.Write([]byte(r.name))
	h.Write([]byte{0})
	h.Write([]byte(descr))
	k := h.Sum64()
	if _, ok := hashes[k]; ok {
		return
	}
	hashes[k] = struct{}{}
	r.s.Nontrivial++
	// keep the 2nd, 16th, 128th... non-trivial case as a sample
	n := r.s.Nontrivial
	if n == 2 || n == 16 || n == 128 || n == 1024 {
		if len(descr) > 700 {
			descr = descr[:700] + "..."
		}
		r.s.Samples = append(r.s.Samples, descr)
	} else if n == 1 {
		if len(descr) > 300 {
			descr = descr[:300] + "..."
		}
		r.s.Samples = append(r.s.Samples, descr)
	}
}

func writeStats() {
	out := os.Getenv("VH_STATS")
	if out == "" {
		return
	}
	mu.Lock()
	defer mu.Unlock()
	b, _ := json.Marshal(stats)
	_ = os.WriteFile(out, b, 0600)
	hb := make([]byte, 0, len(hashes)*8)
	for k := range hashes {
		hb = binary.LittleEndian.AppendUint64(hb, k)
	}
	_ = os.WriteFile(out+".hashes", hb, 0600)
}

// ---------------------------------------------------------------- running

// Main is the TestMain of every harness package.
func Main(m *testing.M) {
	logrus.SetLevel(logrus.PanicLevel)
	flag.Parse()
	code := m.Run()
	writeStats()
	os.Exit(code)
}

// Harness reports an error of the harness itself (no disk, no port): never a
// violation.
func Harness(format string, args ...interface{}) {
	fmt.Printf("VH-HARNESS-ERROR %s\n", fmt.Sprintf(format, args...))
	writeStats()
	os.Exit(4)
}

// Must stops the run when the harness cannot set up its own scaffolding.
func Must(err error) {
	if err != nil {
		_, file, line, _ := runtime.Caller(1)
		Harness("%s:%d: %v", filepath.Base(file), line, err)
	}
}

// N scales a number of cases: n is the total of the quick tier over all
// shards, thorough the total of the thorough tier.
func N(quick, thorough int) int {
	n := quick
	if Thorough() {
		n = thorough
	}
	n = (n + int(Shards) - 1) / int(Shards)
	if n < 1 {
		n = 1
	}
	return n
}

var shardZeroOnly = map[string]bool{}

// Check runs a rapid property with a number of cases and a pinned seed, or
// the saved case when replaying.
func Check(t *testing.T, quick, thorough int, prop func(*rapid.T)) {
	t.Helper()
	if f := os.Getenv("VH_REPLAY_FAILFILE"); f != "" {
		Must(flag.Set("rapid.failfile", f))
	}
	Must(flag.Set("rapid.checks", strconv.Itoa(N(quick, thorough))))
	Must(flag.Set("rapid.seed", strconv.FormatUint(SeedFor(t.Name()), 10)))
	if Thorough() {
		Must(flag.Set("rapid.shrinktime", "60s"))
	} else {
		Must(flag.Set("rapid.shrinktime", "20s"))
	}
	fmt.Printf("VH-TEST %s seed=%d\n", t.Name(), SeedFor(t.Name()))
	said := false
	rapid.Check(t, func(rt *rapid.T) {
		// the driver limits the time for making the case smaller
		defer func() {
			if !said && rt.Failed() {
				said = true
				fmt.Printf("VH-FAILED %s\n", t.Name())
			}
		}()
		prop(rt)
	})
}

// ShardZero skips a test that is a fixed enumeration in all shards but the
// first one.
func ShardZero(t *testing.T) {
	if Shard != 0 {
		t.Skip("enumerated in shard 0")
	}
}

// ---------------------------------------------------------------- watchdog

// Within runs f and reports a violation when it does not return: at once
// (after 60 s) when its goroutine is seen blocked on a lock or channel, after
// 240 s otherwise. The operations guarded this way take milliseconds.
func Within(what string, f func()) {
	type res struct {
		p interface{}
		s string
	}
	done := make(chan *res, 1)
	gid := make(chan string, 1)
	go func() {
		r := &res{}
		defer func() {
			if p := recover(); p != nil {
				r.p = p
				buf := make([]byte, 1<<14)
				r.s = string(buf[:runtime.Stack(buf, false)])
			}
			done <- r
		}()
		b := make([]byte, 64)
		b = b[:runtime.Stack(b, false)]
		gid <- strings.Fields(string(b))[1]
		f()
	}()
	start := time.Now()
	tick := time.NewTicker(20 * time.Second)
	defer tick.Stop()
	id := <-gid
	for {
		select {
		case r := <-done:
			if r.p != nil {
				if _, ok := r.p.(runtime.Error); ok {
					panic(fmt.Sprintf("%s: panic: %v\n%s", what, r.p, r.s))
				}
				panic(r.p)
			}
			return
		case <-tick.C:
			el := time.Since(start)
			buf := make([]byte, 1<<20)
			buf = buf[:runtime.Stack(buf, true)]
			blocked := false
			for _, g := range strings.Split(string(buf), "\n\n") {
				if strings.HasPrefix(g, "goroutine "+id+" ") {
					head := strings.SplitN(g, "\n", 2)[0]
					blocked = strings.Contains(head, "Mutex") || strings.Contains(head, "semacquire") || strings.Contains(head, "chan ") || strings.Contains(head, "select")
				}
			}
			if (blocked && el > 60*time.Second) || el > 240*time.Second {
				fmt.Printf("VH-HANG %s did not return after %v\n%s\n", what, el, buf)
				writeStats()
				os.Exit(3)
			}
		}
	}
}

// Catch runs f and returns what it panicked with, as text, or "".
func Catch(f func()) (msg string) {
	defer func() {
		if p := recover(); p != nil {
			buf := make([]byte, 1<<13)
			msg = fmt.Sprintf("%v\n%s", p, buf[:runtime.Stack(buf, false)])
		}
	}()
	f()
	return ""
}

// KnownFinding prints the line for a listed finding.
func KnownFinding(prop, what string) {
	fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, what)
}
