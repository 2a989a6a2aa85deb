// Package props decides the properties listed in /verif/properties.jsonl by
// generated-input search: every test named TestCxx... states (a part of)
// property Cxx as an executable check over generated inputs.
package props

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"math/rand/v2"
	"os"
	"reflect"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- recorder

type testStats struct {
	Name        string         `json:"name"`
	Rule        string         `json:"rule"`
	Evaluations int            `json:"evaluations"`
	Nontrivial  int            `json:"nontrivial"`
	Distinct    int            `json:"distinct_nontrivial"`
	Labels      map[string]int `json:"labels"`
	Samples     []string       `json:"samples"`
	Exhaustive  bool           `json:"exhaustive,omitempty"`
	Hashes      []string       `json:"hashes,omitempty"` // only with VERIF_HASHES=1 (shard merging)
	seen        map[uint64]struct{}
}

var (
	recMu    sync.Mutex
	recs     []*testStats
	knownHit = map[string]bool{}

	caseStart atomic.Int64 // unix nanos of the running case, 0 when idle
	caseName  atomic.Value
)

// Case describes the case being run, for the evidence.
type Case struct {
	key        strings.Builder
	nontrivial bool
	labels     []string
	sample     string
}

// Key adds to the identity of the case (two cases with the same key are not distinct).
func (c *Case) Key(parts ...any) {
	for _, p := range parts {
		switch p := p.(type) {
		case string:
			c.key.WriteString(p)
		case []byte:
			c.key.Write(p)
		default:
			fmt.Fprintf(&c.key, "%v", p)
		}
		c.key.WriteByte(0)
	}
}

// NonTrivial marks the case as non-trivial when ok.
func (c *Case) NonTrivial(ok bool) { c.nontrivial = c.nontrivial || ok }

// Label classifies the case.
func (c *Case) Label(l string) { c.labels = append(c.labels, l) }

// LabelIf classifies the case when ok.
func (c *Case) LabelIf(ok bool, l string) {
	if ok {
		c.labels = append(c.labels, l)
	}
}

// Sample sets the text shown for this case in the evidence.
func (c *Case) Sample(format string, args ...any) {
	c.sample = fmt.Sprintf(format, args...)
	if len(c.sample) > 1200 {
		c.sample = c.sample[:1200] + fmt.Sprintf("...(%d bytes)", len(c.sample))
	}
}

func newStats(t *testing.T, rule string) *testStats {
	st := &testStats{Name: t.Name(), Rule: rule, Labels: map[string]int{}, seen: map[uint64]struct{}{}}
	recMu.Lock()
	recs = append(recs, st)
	recMu.Unlock()
	return st
}

func (st *testStats) add(c *Case) {
	recMu.Lock()
	defer recMu.Unlock()
	st.Evaluations++
	for _, l := range c.labels {
		st.Labels[l]++
	}
	if !c.nontrivial {
		return
	}
	st.Nontrivial++
	h := fnv.New64a()
	h.Write([]byte(c.key.String()))
	st.seen[h.Sum64()] = struct{}{}
	// keep the 1st, 10th, 100th, ... non-trivial case as samples
	n := st.Nontrivial
	for n >= 10 && n%10 == 0 {
		n /= 10
	}
	if n == 1 && len(st.Samples) < 6 {
		s := c.sample
		if s == "" {
			s = c.key.String()
			if len(s) > 600 {
				s = s[:600]
			}
			s = strings.ToValidUTF8(strings.ReplaceAll(s, "\x00", " | "), "?")
		}
		st.Samples = append(st.Samples, s)
	}
}

var thorough = os.Getenv("VERIF_TIER") == "thorough"

func scale() float64 {
	if s := os.Getenv("VERIF_SCALE"); s != "" {
		if f, err := strconv.ParseFloat(s, 64); err == nil {
			return f
		}
	}
	return 1
}

// Opt configures a property run.
type Opt struct {
	Quick    int // number of cases in the quick tier, in units of 5 unless Slow
	Thorough int // number of cases per shard in the thorough tier (default 40*Quick)
	Slow     bool
	Steps    int    // average number of Repeat actions (0: rapid's default)
	Rule     string // what makes a case non-trivial
}

// Prop runs f over generated cases.
func Prop(t *testing.T, o Opt, f func(rt *rapid.T, c *Case)) {
	if capturing {
		captured = func(rt *rapid.T) {
			caseName.Store("FuzzProp")
			caseStart.Store(time.Now().UnixNano())
			defer caseStart.Store(0)
			f(rt, new(Case))
		}
		return
	}
	t.Helper()
	n := o.Quick
	if thorough {
		n = o.Thorough
		if n == 0 {
			n = 40 * o.Quick
		}
	} else if !o.Slow {
		n *= 5
	}
	n = int(float64(n) * scale())
	if n < 1 {
		n = 1
	}
	flag.Set("rapid.checks", strconv.Itoa(n))
	steps := o.Steps
	if steps == 0 {
		steps = 30
	}
	flag.Set("rapid.steps", strconv.Itoa(steps))
	st := newStats(t, o.Rule)
	rapid.Check(t, func(rt *rapid.T) {
		c := new(Case)
		caseName.Store(t.Name())
		caseStart.Store(time.Now().UnixNano())
		defer caseStart.Store(0)
		f(rt, c)
		st.add(c)
	})
}

// Each runs f once for each element of an exhaustively enumerated finite space.
func Each(t *testing.T, rule string, f func(record func(c *Case))) {
	if capturing {
		return
	}
	t.Helper()
	st := newStats(t, rule)
	st.Exhaustive = true
	caseName.Store(t.Name())
	caseStart.Store(time.Now().UnixNano())
	defer caseStart.Store(0)
	f(func(c *Case) {
		caseStart.Store(time.Now().UnixNano())
		st.add(c)
	})
}

// ---------------------------------------------------------------- coverage-guided search

// While capturing, a test function hands over the property it states instead
// of running it, so that FuzzProp can drive the same property by coverage.
var (
	capturing bool
	captured  func(rt *rapid.T)
	allTests  []testing.InternalTest
)

// tempRoot is a directory for the files of one test.
func tempRoot(t *testing.T) string {
	if !capturing {
		return t.TempDir()
	}
	d, err := os.MkdirTemp("", "fuzz")
	must(err)
	return d
}

// FuzzProp drives the property stated by the test $VERIF_FUZZ with inputs
// mutated under coverage guidance: they are the stream of choices that the
// generators draw from.
func FuzzProp(f *testing.F) {
	name := os.Getenv("VERIF_FUZZ")
	for _, it := range allTests {
		if it.Name == name {
			capturing = true
			it.F(new(testing.T))
			capturing = false
		}
	}
	if captured == nil {
		f.Skip("no generated property named " + name)
	}
	// choices beyond the mutated ones come from a fixed stream, so that no case runs out of them
	r := rand.New(rand.NewPCG(1, 1000))
	tail := make([]byte, 1<<18)
	for k := range tail {
		tail[k] = byte(r.Uint32())
	}
	run := rapid.MakeFuzz(captured)
	f.Fuzz(func(t *testing.T, b []byte) {
		run(t, append(b[:len(b):len(b)], tail...))
	})
}

// ---------------------------------------------------------------- known findings

var knownList = func() map[string]bool {
	m := map[string]bool{}
	b, err := os.ReadFile(os.Getenv("VERIF_KNOWN"))
	if err != nil {
		return m
	}
	for _, l := range strings.Split(string(b), "\n") {
		f := strings.Fields(l)
		// known: property=<id> finding=<token> <what fails>
		if len(f) >= 3 && f[0] == "known:" && strings.HasPrefix(f[2], "finding=") {
			m[strings.TrimPrefix(f[2], "finding=")] = true
		}
	}
	return m
}()

// known reports whether the finding identified by token is listed as known,
// and records that it was observed.
func known(token string) bool {
	if !knownList[token] {
		return false
	}
	recMu.Lock()
	knownHit[token] = true
	recMu.Unlock()
	return true
}

// ---------------------------------------------------------------- main

const hangAfter = 150 * time.Second

func TestMain(m *testing.M) {
	flag.Parse()
	allTests = *(*[]testing.InternalTest)(reflect.ValueOf(m).Elem().FieldByName("tests").Addr().UnsafePointer())
	go func() {
		for {
			time.Sleep(time.Second)
			s := caseStart.Load()
			if s != 0 && time.Since(time.Unix(0, s)) > hangAfter {
				buf := make([]byte, 1<<20)
				buf = buf[:runtime.Stack(buf, true)]
				fmt.Printf("HANG: one case of %v did not finish within %v\n%s\n", caseName.Load(), hangAfter, buf)
				os.Exit(97)
			}
		}
	}()
	rc := m.Run()
	if p := os.Getenv("VERIF_STATS"); p != "" {
		for _, r := range recs {
			r.Distinct = len(r.seen)
			if os.Getenv("VERIF_HASHES") == "1" {
				for h := range r.seen {
					r.Hashes = append(r.Hashes, strconv.FormatUint(h, 36))
				}
			}
		}
		var hits []string
		for k := range knownHit {
			hits = append(hits, k)
		}
		b, err := json.Marshal(map[string]any{"tests": recs, "known_hit": hits})
		if err == nil {
			err = os.WriteFile(p, b, 0o644)
		}
		if err != nil {
			fmt.Println("stats:", err)
			rc = 98
		}
	}
	os.Exit(rc)
}
