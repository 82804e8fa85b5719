package harness

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"
)

// TestMain is the parent unless it was asked to be a child or to replay.
func TestMain(m *testing.M) {
	if os.Getenv("VERIF_CHILD") != "" || os.Getenv("VERIF_REPLAY") != "" {
		os.Exit(m.Run())
	}
	if id := os.Getenv("VERIF_ID"); id != "" {
		os.Exit(parentMain(id))
	}
	fmt.Println("set VERIF_ID (see check.sh)")
	os.Exit(2)
}

type job struct {
	key   string
	sub   *subCheck
	shard int
	seed  uint64
	n     int
	guide bool // coverage-guided
}

type jobResult struct {
	job     job
	res     *childResult
	fail    *failFile
	failRaw []byte
	checkEr string // an error of the check itself
}

func mixSeed(seed uint64, key string, shard int) uint64 {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d/%s/%d", seed, key, shard)
	s := h.Sum64()
	if s == 0 {
		s = 1
	}
	return s
}

func parentMain(id string) int {
	start := time.Now()
	verif := os.Getenv("VERIF_DIR")
	if verif == "" {
		verif = "/verif"
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed := uint64(1)
	if s := os.Getenv("VERIF_SEED"); s != "" {
		if v, err := strconv.ParseInt(s, 10, 64); err == nil {
			seed = uint64(v)
		}
	}
	only := os.Getenv("VERIF_SUB")
	scale := 1.0
	if s := os.Getenv("VERIF_SCALE"); s != "" {
		if v, err := strconv.ParseFloat(s, 64); err == nil {
			scale = v
		}
	}

	var keys []string
	for k, s := range registry {
		if s.ID == id && (only == "" || s.Name == only) {
			keys = append(keys, k)
		}
	}
	sort.Strings(keys)
	if len(keys) == 0 {
		fmt.Printf("no check for property %s\n", id)
		return 2
	}
	scratch, err := os.MkdirTemp("", "verif-"+id+"-")
	if err != nil {
		fmt.Println(err)
		return 2
	}
	defer os.RemoveAll(scratch)

	// known findings first: deterministic probes
	violations := 0
	known := loadKnown(filepath.Join(verif, "known_findings.txt"))
	var knownLines []string
	silenced := func(f func()) {
		so := os.Stdout
		silence()
		f()
		os.Stdout = so
	}
	for _, p := range probes {
		if p.ID != id {
			continue
		}
		var fails bool
		var detail string
		silenced(func() { fails, detail = p.Run() })
		if !fails {
			continue
		}
		if desc, ok := known[p.ID+"/"+p.Key]; ok {
			l := fmt.Sprintf("KNOWN-FINDING: property=%s %s", id, desc)
			fmt.Println(l)
			knownLines = append(knownLines, l)
			continue
		}
		violations++
		path := writeReplay(verif, id, "probe-"+p.Key, mustJSON(failFile{Property: id, Sub: "probe:" + p.Key, Error: detail, Case: json.RawMessage("null")}))
		fmt.Printf("VIOLATION property=%s replay=%s\n%s\n", id, path, detail)
	}

	var jobs []job
	for _, k := range keys {
		s := registry[k]
		n, shards := s.Quick, s.Shards
		if shards == 0 {
			shards = 4
		}
		if tier == "thorough" {
			n = s.Thorough
			if s.ThoroughShards != 0 {
				shards = s.ThoroughShards
			} else if shards < 8 && shards > 1 {
				shards = 8
			}
		}
		n = int(float64(n) * scale)
		if n < 1 {
			n = 1
		}
		for i := 0; i < shards && os.Getenv("VERIF_PLAIN") != "0"; i++ {
			jobs = append(jobs, job{k, s, i, mixSeed(seed, k, i), n, false})
		}
		if os.Getenv("VERIF_GUIDED") != "" && s.Quick >= 1000 {
			shards = 4
			if tier == "thorough" {
				shards = 8
			}
			for i := 100; i < 100+shards; i++ {
				jobs = append(jobs, job{k, s, i, mixSeed(seed, k, i), 2 * n, true})
			}
		}
	}
	// shard 0 of each sub-check first, so that every sub-check starts early
	sort.SliceStable(jobs, func(i, j int) bool { return jobs[i].shard < jobs[j].shard })

	par := runtime.NumCPU()
	if par > 8 {
		par = 8
	}
	if par < 2 {
		par = 2
	}
	sem := make(chan struct{}, par)
	results := make([]jobResult, len(jobs))
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	var wg sync.WaitGroup
	for i, j := range jobs {
		sem <- struct{}{}
		wg.Add(1)
		go func(i int, j job) {
			defer wg.Done()
			defer func() { <-sem }()
			if ctx.Err() != nil {
				return // another shard already failed
			}
			results[i] = runJob(ctx, scratch, j)
			if results[i].fail != nil {
				cancel()
			}
		}(i, j)
	}
	wg.Wait()

	// merge
	var evals, nontriv int64
	labels := map[string]int64{}
	perSub := map[string]map[string]int64{}
	hashes := map[string]map[uint64]struct{}{}
	var samples []any
	var rules []string
	for _, k := range keys {
		rules = append(rules, registry[k].Name+": "+registry[k].Rule)
		perSub[k] = map[string]int64{}
		hashes[k] = map[uint64]struct{}{}
	}
	sampled := map[string]int{}
	var checkErrs []string
	reported := map[string]bool{}
	for _, r := range results {
		if r.checkEr != "" {
			checkErrs = append(checkErrs, r.checkEr)
		}
		if r.fail != nil && !reported[r.job.key] {
			reported[r.job.key] = true
			violations++
			path := writeReplay(verif, id, r.job.sub.Name, r.failRaw)
			fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
			fmt.Printf("  sub-check %s, shard %d: %s\n  case: %s\n", r.job.key, r.job.shard, r.fail.Error, clip(string(r.fail.Case), 4000))
		}
		if r.res == nil {
			continue
		}
		evals += r.res.Evaluations
		nontriv += r.res.NonTrivial
		perSub[r.job.key]["evaluations"] += r.res.Evaluations
		perSub[r.job.key]["nontrivial"] += r.res.NonTrivial
		if g := r.res.Guided; g != nil {
			perSub[r.job.key]["guided_executions"] += g.Executions
			perSub[r.job.key]["guided_kept"] += g.Kept
			perSub[r.job.key]["guided_features"] = max(perSub[r.job.key]["guided_features"], g.Features)
		}
		for _, h := range r.res.Hashes {
			hashes[r.job.key][h] = struct{}{}
		}
		for l, n := range r.res.Labels {
			labels[r.job.sub.Name+":"+l] += n
		}
		for _, s := range r.res.Samples {
			if sampled[r.job.key] < 2 {
				sampled[r.job.key]++
				samples = append(samples, map[string]any{"sub": r.job.sub.Name, "case": s})
			}
		}
	}
	var distinct int64
	for k := range hashes {
		perSub[k]["distinct_nontrivial"] = int64(len(hashes[k]))
		distinct += int64(len(hashes[k]))
	}
	assume := []string{}
	for _, k := range keys {
		assume = append(assume, registry[k].Assume...)
	}
	ev := map[string]any{
		"property": id, "tier": tier, "seed": int64(seed), "level": "exploration",
		"coverage": map[string]any{
			"evaluations":         evals,
			"distinct_nontrivial": distinct,
			"rule":                strings.Join(rules, " | "),
			"samples":             samples,
			"per_sub_check":       perSub,
			"labels":              labels,
			"known_findings":      knownLines,
			"shards":              len(jobs),
		},
		"assumptions": assume,
		"violations":  violations,
		"wall_s":      time.Since(start).Seconds(),
	}
	_ = os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(verif, "evidence", id+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Println(err)
		return 2
	}
	fmt.Printf("%s %s: %d cases, %d distinct non-trivial, %d violations, %.1fs\n", id, tier, evals, distinct, violations, time.Since(start).Seconds())
	if violations > 0 {
		return 1
	}
	if len(checkErrs) > 0 {
		for _, e := range checkErrs {
			fmt.Println("check error:", e)
		}
		return 2
	}
	return 0
}

func runJob(ctx context.Context, scratch string, j job) jobResult {
	r := jobResult{job: j}
	base := filepath.Join(scratch, strings.ReplaceAll(j.key, "/", "_")+"-"+strconv.Itoa(j.shard))
	shrink := "20s"
	if j.sub.CaseLimit >= 200*time.Second { // one case takes minutes
		shrink = "1ns"
	}
	if s := os.Getenv("VERIF_SHRINK"); s != "" {
		shrink = s
	}
	bin := os.Args[0]
	if j.guide {
		bin = os.Getenv("VERIF_GUIDED")
	}
	cmd := exec.CommandContext(ctx, bin,
		"-test.run=^TestChild$", "-test.timeout=0",
		"-rapid.checks="+strconv.Itoa(j.n),
		"-rapid.seed="+strconv.FormatUint(j.seed, 10),
		"-rapid.nofailfile", "-rapid.shrinktime="+shrink)
	if d := os.Getenv("VERIF_COVER"); d != "" { // a binary built with -cover
		cmd.Args = append(cmd.Args, "-test.coverprofile="+filepath.Join(d, filepath.Base(base)+".cov"))
	}
	cmd.Dir = scratch
	cmd.Env = append(os.Environ(),
		"GORACE=halt_on_error=1 exitcode=66",
		"VERIF_CHILD="+j.key, "VERIF_OUT="+scratch,
		"VERIF_SHARD="+strconv.Itoa(j.shard),
		"VERIF_RAPID_SEED="+strconv.FormatUint(j.seed, 10))
	if j.guide {
		limit := "15s"
		if os.Getenv("VERIF_TIER") == "thorough" {
			limit = "5m"
		}
		if d := os.Getenv("VERIF_GUIDE_TIME"); d != "" {
			limit = d
		}
		cmd.Env = append(cmd.Env, "VERIF_GUIDE="+strconv.Itoa(j.n), "VERIF_GUIDE_TIME="+limit)
	}
	var out bytes.Buffer
	cmd.Stdout = &limitWriter{w: &out, n: 1 << 20}
	cmd.Stderr = cmd.Stdout
	cmd.WaitDelay = 5 * time.Second
	err := cmd.Run()
	if ee, ok := err.(*exec.ExitError); ok && ee.ExitCode() < 0 && ctx.Err() != nil {
		return r // stopped because another shard failed first
	}
	if b, e := os.ReadFile(base + ".result"); e == nil {
		var cr childResult
		if json.Unmarshal(b, &cr) == nil {
			r.res = &cr
		}
	}
	if b, e := os.ReadFile(base + ".fail"); e == nil {
		var ff failFile
		if json.Unmarshal(b, &ff) == nil {
			r.fail, r.failRaw = &ff, b
			return r
		}
	}
	if err == nil {
		if r.res == nil {
			r.checkEr = j.key + ": child ended without a result"
		}
		return r
	}
	if ctx.Err() != nil {
		return r // stopped because another shard failed
	}
	text := out.String()
	if r.res == nil {
		// the process died in the middle of a case
		jr, _ := os.ReadFile(base + ".journal")
		killed := false
		if ee, ok := err.(*exec.ExitError); ok && ee.ExitCode() < 0 {
			killed = !strings.Contains(text, "fatal error:") && !strings.Contains(text, "panic:")
		}
		if len(jr) > 0 && !killed {
			ff := failFile{Property: j.sub.ID, Sub: j.sub.Name, Seed: j.seed, Case: jr,
				Error: fmt.Sprintf("the process died while running this case (%v)\n%s", err, crashHead(text))}
			ff.Case = shrinkCrash(base, j, ff, crashSign(text), 25*time.Second)
			r.fail, r.failRaw = &ff, mustJSON(ff)
			return r
		}
	}
	r.checkEr = fmt.Sprintf("%s shard %d: %v\n%s", j.key, j.shard, err, clip(text, 3000))
	return r
}

// crashSign identifies a crash: what was reported and the first place in the
// code under test that it names.
func crashSign(s string) string {
	h := crashHead(s)
	first, _, _ := strings.Cut(h, "\n")
	if i := strings.IndexAny(first, "0123456789"); i > 0 {
		first = first[:i] // indices and addresses differ
	}
	for _, l := range strings.Split(h, "\n") {
		l = strings.TrimSpace(l)
		if i := strings.Index(l, "/repo/"); i >= 0 {
			return first + " " + strings.Fields(l[i:])[0]
		}
	}
	return first
}

// shrinkCrash makes a case that ends the process smaller, by leaving out
// elements of its lists as long as the process still ends in the same way.
func shrinkCrash(base string, j job, ff failFile, sign string, limit time.Duration) json.RawMessage {
	deadline := time.Now().Add(limit)
	best := any(nil)
	dec := json.NewDecoder(bytes.NewReader(ff.Case))
	dec.UseNumber()
	if dec.Decode(&best) != nil {
		return ff.Case
	}
	dies := func(v any) bool {
		if time.Now().After(deadline) {
			return false
		}
		c := ff
		c.Case = mustJSON(v)
		if os.WriteFile(base+".try", mustJSON(c), 0o644) != nil {
			return false
		}
		ctx, cancel := context.WithTimeout(context.Background(), 10*time.Second)
		defer cancel()
		cmd := exec.CommandContext(ctx, os.Args[0], "-test.run=^TestReplay$", "-test.timeout=0")
		cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66", "VERIF_REPLAY="+base+".try")
		cmd.WaitDelay = time.Second
		out, err := cmd.CombinedOutput()
		return err != nil && ctx.Err() == nil && !bytes.Contains(out, []byte("REPRODUCED ")) && crashSign(string(out)) == sign
	}
	if !dies(best) {
		return ff.Case // needs a schedule that does not return every time
	}
	for again := true; again && time.Now().Before(deadline); {
		again = false
		for _, path := range listPaths(best, nil) {
			for size := len(listAt(best, path)); size > 0; size /= 2 {
				for at := 0; at < len(listAt(best, path)); {
					n := len(listAt(best, path))
					try := without(best, path, at, min(at+size, n))
					if dies(try) {
						best, again = try, true
					} else {
						at += size
					}
				}
			}
		}
	}
	return mustJSON(best)
}

// listPaths returns the paths to all lists in v, outer ones first.
func listPaths(v any, at []any) [][]any {
	var out [][]any
	switch x := v.(type) {
	case []any:
		out = append(out, append([]any(nil), at...))
		for i, y := range x {
			out = append(out, listPaths(y, append(at, i))...)
		}
	case map[string]any:
		keys := make([]string, 0, len(x))
		for k := range x {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			out = append(out, listPaths(x[k], append(at, k))...)
		}
	}
	return out
}

func listAt(v any, path []any) []any {
	for _, p := range path {
		switch x := v.(type) {
		case []any:
			if p.(int) >= len(x) {
				return nil
			}
			v = x[p.(int)]
		case map[string]any:
			v = x[p.(string)]
		}
	}
	l, _ := v.([]any)
	return l
}

// without copies v and leaves elements from..to of the list at path out.
func without(v any, path []any, from, to int) any {
	if len(path) == 0 {
		l := v.([]any)
		return append(append([]any{}, l[:from]...), l[to:]...)
	}
	switch x := v.(type) {
	case []any:
		c := append([]any{}, x...)
		c[path[0].(int)] = without(c[path[0].(int)], path[1:], from, to)
		return c
	case map[string]any:
		c := map[string]any{}
		for k, y := range x {
			c[k] = y
		}
		c[path[0].(string)] = without(c[path[0].(string)], path[1:], from, to)
		return c
	}
	return v
}

func crashHead(s string) string {
	for _, mark := range []string{"WARNING: DATA RACE", "fatal error:", "panic:", "SIGSEGV"} {
		if i := strings.Index(s, mark); i >= 0 {
			return clip(s[i:], 2500)
		}
	}
	return clip(s, 1500)
}

type limitWriter struct {
	mu sync.Mutex
	w  *bytes.Buffer
	n  int
}

func (l *limitWriter) Write(p []byte) (int, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	if room := l.n - l.w.Len(); room > 0 {
		if len(p) < room {
			room = len(p)
		}
		l.w.Write(p[:room])
	}
	return len(p), nil
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func mustJSON(v any) []byte {
	b, err := json.MarshalIndent(v, "", " ")
	if err != nil {
		panic(err)
	}
	return b
}

func writeReplay(verif, id, sub string, b []byte) string {
	dir := filepath.Join(verif, "replay")
	_ = os.MkdirAll(dir, 0o755)
	p := filepath.Join(dir, id+"-"+sub+".json")
	_ = os.WriteFile(p, b, 0o644)
	return p
}

// loadKnown reads lines "finding: property=<id> key=<key> <description>".
func loadKnown(path string) map[string]string {
	m := map[string]string{}
	f, err := os.Open(path)
	if err != nil {
		return m
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	sc.Buffer(nil, 1<<20)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		rest, ok := strings.CutPrefix(l, "finding: ")
		if !ok {
			continue
		}
		parts := strings.SplitN(rest, " ", 3)
		if len(parts) != 3 {
			continue
		}
		id := strings.TrimPrefix(parts[0], "property=")
		key := strings.TrimPrefix(parts[1], "key=")
		m[id+"/"+key] = parts[2]
	}
	return m
}
