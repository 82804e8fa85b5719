// Package harness holds the property checks for iomz/gosstrak. Every file is a
// _test.go file: check.sh compiles one test binary from /repo's working tree
// and runs it as a parent that spawns one child process per (sub-check, shard).
package harness

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"hash/fnv"
	"io"
	"log"
	"os"
	"path/filepath"
	"reflect"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// spec describes one sub-check of a property.
type spec struct {
	ID   string // property id
	Name string // sub-check name, unique within the property
	Rule string // how a case is made and what makes it non-trivial
	// cases per shard
	Quick, Thorough int
	// number of shards (processes with different seeds); 0 means 4
	Shards, ThoroughShards int
	// longest time one case may take before it counts as not terminating
	CaseLimit time.Duration
	// the case needs the *testing.T (synctest)
	Assume []string
}

// Ctx is handed to each case execution.
type Ctx struct {
	T       *testing.T
	nt      bool
	labels  []string
	evals   int64
	scratch string
}

// NonTrivial marks the running case as non-trivial.
func (c *Ctx) NonTrivial() { c.nt = true }

// NonTrivialIf marks the running case as non-trivial if b.
func (c *Ctx) NonTrivialIf(b bool) {
	if b {
		c.nt = true
	}
}

// Label counts a class of behaviour that the running case exercised.
func (c *Ctx) Label(s string) { c.labels = append(c.labels, s) }

// LabelIf counts a label if b.
func (c *Ctx) LabelIf(b bool, s string) {
	if b {
		c.labels = append(c.labels, s)
	}
}

type subCheck struct {
	spec
	child  func(t *testing.T, e *childEnv)
	replay func(t *testing.T, raw json.RawMessage) error
}

var registry = map[string]*subCheck{}

// probe is a deterministic demonstration of one recorded known finding.
type probe struct {
	ID, Key string
	Run     func() (fails bool, detail string)
}

var probes []probe

func registerProbe(id, key string, run func() (bool, string)) {
	probes = append(probes, probe{id, key, run})
}

// failFile is what a replay file holds.
type failFile struct {
	Property string          `json:"property"`
	Sub      string          `json:"sub"`
	Error    string          `json:"error"`
	Seed     uint64          `json:"rapid_seed"`
	Case     json.RawMessage `json:"case"`
}

// childResult is what a child writes when it ends normally.
type childResult struct {
	Sub         string            `json:"sub"`
	Evaluations int64             `json:"evaluations"`
	NonTrivial  int64             `json:"nontrivial"`
	Hashes      []uint64          `json:"hashes"`
	Labels      map[string]int64  `json:"labels"`
	Samples     []json.RawMessage `json:"samples"`
	Failed      bool              `json:"failed"`
	Guided      *guideStats       `json:"guided,omitempty"`
}

type childEnv struct {
	sub     *subCheck
	outDir  string
	shard   int
	seed    uint64
	journal string
	failTo  string

	mu      sync.Mutex
	res     childResult
	hashes  map[uint64]struct{}
	started atomic.Int64 // unix nanos of the running case, 0 if none
	current atomic.Pointer[[]byte]
	scratch string
}

const maxHashes = 400000

func register[C any](s spec, gen func(*rapid.T) C, run func(*Ctx, C) error) {
	key := s.ID + "/" + s.Name
	if _, dup := registry[key]; dup {
		panic("duplicate sub-check " + key)
	}
	sc := &subCheck{spec: s}
	if sc.CaseLimit == 0 {
		sc.CaseLimit = 60 * time.Second
	}
	exec := func(ctx *Ctx, c C) (err error) {
		defer func() {
			if r := recover(); r != nil {
				err = fmt.Errorf("panic: %v\n%s", r, trimStack(debug.Stack()))
			}
		}()
		resetHeld()
		if err := run(ctx, c); err != nil {
			return err
		}
		return checkHeld()
	}
	sc.child = func(t *testing.T, e *childEnv) {
		var slowCase []byte // a case that took long to fail is reported as it is, not shrunk
		var slowErr error
		prop := func(rt *rapid.T) {
			c := drawCase(rt, gen)
			raw, err := json.Marshal(c)
			if err != nil {
				panic(err)
			}
			if slowErr != nil {
				if bytes.Equal(raw, slowCase) {
					rt.Fatalf("%s: %v", key, slowErr)
				}
				return
			}
			began := time.Now()
			e.begin(raw)
			ctx := &Ctx{T: t, scratch: e.scratch}
			rerr := exec(ctx, c)
			if errors.Is(rerr, errNoCase) {
				e.started.Store(0)
				rt.Skip(rerr)
			}
			e.end(raw, ctx, rerr)
			if rerr != nil {
				if time.Since(began) > 50*time.Second {
					slowCase, slowErr = raw, rerr
				}
				rt.Fatalf("%s: %v", key, rerr)
			}
		}
		if n, _ := strconv.ParseInt(os.Getenv("VERIF_GUIDE"), 10, 64); n > 0 {
			limit, _ := time.ParseDuration(os.Getenv("VERIF_GUIDE_TIME"))
			guided(t, e, n, limit, prop)
			return
		}
		rapid.Check(t, prop)
	}
	sc.replay = func(t *testing.T, raw json.RawMessage) error {
		var c C
		if err := json.Unmarshal(raw, &c); err != nil {
			return fmt.Errorf("bad replay case: %v", err)
		}
		dir, _ := os.MkdirTemp("", "verif-replay")
		defer os.RemoveAll(dir)
		defer runExit()
		return exec(&Ctx{T: t, scratch: dir}, c)
	}
	registry[key] = sc
}

// drawCase draws a case; draws that the generator cannot make one of are
// discarded, as they say nothing about the code under test.
func drawCase[C any](rt *rapid.T, gen func(*rapid.T) C) C {
	defer func() {
		if r := recover(); r != nil {
			if strings.HasPrefix(reflect.TypeOf(r).String(), "rapid.") {
				panic(r) // rapid ends the case
			}
			rt.Skipf("no case: %v", r)
		}
	}()
	return gen(rt)
}

// errNoCase is what a check returns for a case that its generator should not
// have made, or that it cannot carry out; the case is discarded.
var errNoCase = errors.New("no case")

func noCase(format string, args ...any) error {
	return fmt.Errorf("%w: "+format, append([]any{errNoCase}, args...)...)
}

// atExit registers what a child does before it ends.
func atExit(f func()) {
	exitMu.Lock()
	defer exitMu.Unlock()
	exitFns = append(exitFns, f)
}

var (
	exitMu  sync.Mutex
	exitFns []func()
)

func runExit() {
	exitMu.Lock()
	fns := exitFns
	exitFns = nil
	exitMu.Unlock()
	for _, f := range fns {
		f()
	}
}

func trimStack(b []byte) string {
	lines := strings.Split(string(b), "\n")
	if len(lines) > 40 {
		lines = lines[:40]
	}
	return strings.Join(lines, "\n")
}

func (e *childEnv) begin(raw []byte) {
	cp := append([]byte(nil), raw...)
	e.current.Store(&cp)
	_ = os.WriteFile(e.journal, raw, 0o644)
	e.started.Store(time.Now().UnixNano())
}

func (e *childEnv) end(raw []byte, ctx *Ctx, err error) {
	e.started.Store(0)
	if err != nil {
		e.writeFail(raw, err.Error())
		e.res.Failed = true
		return
	}
	if e.res.Failed {
		return // shrinking: do not count
	}
	e.res.Evaluations++
	for _, l := range ctx.labels {
		e.res.Labels[l]++
	}
	if ctx.nt {
		e.res.NonTrivial++
		h := fnv.New64a()
		h.Write(raw)
		if len(e.hashes) < maxHashes {
			s := h.Sum64()
			if _, ok := e.hashes[s]; !ok {
				e.hashes[s] = struct{}{}
				n := len(e.hashes)
				// a few small samples, spread over the run
				if len(e.res.Samples) < 3 && len(raw) < 3000 && (n == 1 || n == 20 || n == 200) {
					e.res.Samples = append(e.res.Samples, append(json.RawMessage(nil), raw...))
				}
			}
		}
	}
}

func (e *childEnv) writeFail(raw []byte, msg string) {
	ff := failFile{Property: e.sub.ID, Sub: e.sub.Name, Error: msg, Seed: e.seed, Case: raw}
	b, _ := json.MarshalIndent(ff, "", " ")
	tmp := e.failTo + ".tmp"
	if os.WriteFile(tmp, b, 0o644) == nil {
		_ = os.Rename(tmp, e.failTo)
	}
}

func (e *childEnv) watchdog() {
	var ms runtime.MemStats
	tick := 0
	for {
		time.Sleep(250 * time.Millisecond)
		tick++
		st := e.started.Load()
		if st == 0 {
			continue
		}
		raw := *e.current.Load()
		if d := time.Since(time.Unix(0, st)); d > e.sub.CaseLimit {
			buf := make([]byte, 1<<20)
			n := runtime.Stack(buf, true)
			e.writeFail(raw, fmt.Sprintf("case did not terminate within %v\n%s", e.sub.CaseLimit, trimStack(buf[:n])))
			os.Exit(3)
		}
		if tick%2 == 0 {
			runtime.ReadMemStats(&ms)
			if ms.HeapAlloc > 2500<<20 {
				e.writeFail(raw, fmt.Sprintf("one case drove the heap to %d MiB", ms.HeapAlloc>>20))
				os.Exit(3)
			}
		}
	}
}

// TestChild runs one shard of one sub-check. It does nothing without VERIF_CHILD.
func TestChild(t *testing.T) {
	key := os.Getenv("VERIF_CHILD")
	if key == "" {
		t.Skip("no VERIF_CHILD")
	}
	sub, ok := registry[key]
	if !ok {
		t.Fatalf("no sub-check %q", key)
	}
	silence()
	out := os.Getenv("VERIF_OUT")
	shard, _ := strconv.Atoi(os.Getenv("VERIF_SHARD"))
	seed, _ := strconv.ParseUint(os.Getenv("VERIF_RAPID_SEED"), 10, 64)
	base := filepath.Join(out, strings.ReplaceAll(key, "/", "_")+"-"+strconv.Itoa(shard))
	e := &childEnv{
		sub: sub, outDir: out, shard: shard, seed: seed,
		journal: base + ".journal", failTo: base + ".fail",
		hashes: map[uint64]struct{}{},
		res:    childResult{Sub: sub.Name, Labels: map[string]int64{}},
	}
	e.scratch = base + ".scratch"
	_ = os.MkdirAll(e.scratch, 0o755)
	debug.SetMaxStack(256 << 20)
	go e.watchdog()
	defer runExit()
	defer func() {
		for h := range e.hashes {
			e.res.Hashes = append(e.res.Hashes, h)
		}
		sort.Slice(e.res.Hashes, func(i, j int) bool { return e.res.Hashes[i] < e.res.Hashes[j] })
		b, _ := json.Marshal(e.res)
		_ = os.WriteFile(base+".result", b, 0o644)
	}()
	sub.child(t, e)
}

// TestReplay re-executes one replay file.
func TestReplay(t *testing.T) {
	f := os.Getenv("VERIF_REPLAY")
	if f == "" {
		t.Skip("no VERIF_REPLAY")
	}
	silence()
	b, err := os.ReadFile(f)
	if err != nil {
		t.Fatal(err)
	}
	var ff failFile
	if err := json.Unmarshal(b, &ff); err != nil {
		t.Fatal(err)
	}
	sub, ok := registry[ff.Property+"/"+ff.Sub]
	if !ok {
		t.Fatalf("no sub-check %s/%s", ff.Property, ff.Sub)
	}
	if err := sub.replay(t, ff.Case); err != nil {
		t.Fatalf("REPRODUCED %s/%s: %v", ff.Property, ff.Sub, err)
	}
	fmt.Println("not reproduced")
}

// silence discards what the code under test logs.
func silence() {
	log.SetOutput(io.Discard)
	if null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		os.Stdout = null
	}
}
