package harness

import (
	"context"
	"encoding/json"
	"fmt"
	"math"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	"github.com/iomz/go-llrp"
	"github.com/iomz/gosstrak/filtering"
	"pgregory.net/rapid"
)

// C16 and C17 run the engine manager in a bubble of virtual time. Each engine
// is a real engine behind a wrapper that spends a generated amount of virtual
// time on generation and on each search, and that marks the pure identity with
// its name, so that the answer of the manager tells which engine gave it.

var priority = map[string]int{"LegacyEngine": 0, "List": 1, "SplayTree": 2, "PatriciaTrie": 3}

type slowEngine struct {
	filtering.Engine
	name  string
	cost  func() time.Duration
	calls *atomic.Int64
	hits  *atomic.Int64
}

func (s *slowEngine) Search(re llrp.ReadEvent) (string, []string, error) {
	s.calls.Add(1)
	if d := s.cost(); d > 0 {
		time.Sleep(d)
	}
	id, uris, err := s.Engine.Search(re)
	if len(uris) > 0 {
		s.hits.Add(1)
	}
	return id + "|" + s.name, uris, err
}

// withEngines replaces the constructors of all engines while f runs.
func withEngines(wrap func(name string, c filtering.EngineConstructor) filtering.EngineConstructor, f func()) {
	saved := filtering.Engines{}
	for n, c := range filtering.AvailableEngines {
		saved[n] = c
	}
	for n, c := range saved {
		filtering.AvailableEngines[n] = wrap(n, c)
	}
	defer func() {
		for n, c := range saved {
			filtering.AvailableEngines[n] = c
		}
	}()
	f()
}

// bubble runs f in virtual time and leaves the goroutines of the code under
// test, which never end, behind.
func bubble(ctx *Ctx, f func() error) (err error) {
	done := false
	defer func() {
		if r := recover(); r != nil {
			if done && strings.Contains(fmt.Sprint(r), "deadlock") {
				return
			}
			if !done && strings.Contains(fmt.Sprint(r), "deadlock") {
				err = fmt.Errorf("the engine manager is stuck: %v", r)
				return
			}
			panic(r)
		}
	}()
	synctest.Test(ctx.T, func(*testing.T) {
		err = f()
		done = true
	})
	return err
}

type facStep struct {
	Wait  int `json:"w"` // milliseconds before the step
	Tag   int `json:"t"` // index of the tag to search
	Times int `json:"n"`
}

type c16Case struct {
	Subs     []Owned        `json:"subs"`
	Tags     []Tag          `json:"tags"`
	Interval int            `json:"interval"` // s
	RunAfter int            `json:"run_after"`
	Gen      map[string]int `json:"gen"`  // ms until generated
	Cost     [][4]int       `json:"cost"` // per interval, per engine: microseconds per search
	Steps    []facStep      `json:"steps"`
	Lag      int            `json:"lag"`      // ms the consumer takes per message
	Queue    int            `json:"queue"`    // capacity of the consumer's channel
	StallAt  int            `json:"stall_at"` // ms, when the consumer pauses
	Stall    int            `json:"stall"`    // ms
}

var facNames = []string{"LegacyEngine", "List", "PatriciaTrie", "SplayTree"}

// agreeing keeps the tags for which text matching and bit matching give the
// same answer, which the manager needs to be independent of its engine.
func agreeing(owned []Owned, tags []Tag) []Tag {
	owner := ownerMap(owned)
	m := sharedModel{}
	for _, o := range owned {
		m.add(o)
	}
	var out []Tag
	for _, tag := range tags {
		_, id := tag.bytes()
		uris, _, ok := m.expect(tag)
		if ok && sameSet(uris, expectURIs(owner, id)) {
			out = append(out, tag)
		}
	}
	return out
}

type stamped struct {
	at  time.Duration
	msg filtering.ManagementMessage
}

func drawFacWorld(t *rapid.T) ([]Owned, []Tag) {
	w := drawWorld(t, 5)
	owned := w.drawOwned(t, 1, 8)
	var tags []Tag
	for _, it := range w.items {
		tags = append(tags, it.tag())
	}
	for i := 0; i < 4; i++ {
		tags = append(tags, w.drawTag(t))
	}
	tags = agreeing(owned, tags)
	if len(tags) == 0 { // a tag that nothing matches
		tags = append(tags, Item{"giai-96", []string{"7", "987654", "12345"}}.tag())
		if len(agreeing(owned, tags)) == 0 {
			owned = nil
		}
	}
	return owned, tags
}

func init() {
	assume := []string{"the manager's channels are read, as the middleware does", "searches are issued one after another, as the middleware does", "no search is issued before IsActive, as the middleware waits for it"}
	draw := func(t *rapid.T) c16Case {
		c := c16Case{Gen: map[string]int{}}
		c.Subs, c.Tags = drawFacWorld(t)
		c.Interval = rapid.IntRange(1, 4).Draw(t, "interval")
		c.RunAfter = rapid.IntRange(1, c.Interval*1000-1).Draw(t, "runafter")
		slots := rapid.Permutation([]int{0, 1, 2, 3}).Draw(t, "order")
		base := 0
		wide := rapid.IntRange(0, 3).Draw(t, "spread")
		for _, i := range slots {
			base += 10 + 10*rapid.IntRange(0, []int{3, 30, 100, 500}[wide]).Draw(t, "gap")
			c.Gen[facNames[i]] = base + i // distinct times
		}
		total := 0
		n := rapid.IntRange(2, 14).Draw(t, "nsteps")
		for i := 0; i < n; i++ {
			s := facStep{Wait: rapid.IntRange(1, 1500*c.Interval).Draw(t, "wait"),
				Tag:   rapid.IntRange(0, len(c.Tags)-1).Draw(t, "tag"),
				Times: rapid.IntRange(0, 4).Draw(t, "times")}
			total += s.Wait
			c.Steps = append(c.Steps, s)
		}
		for i := 0; i <= total/1000/c.Interval+6; i++ {
			var row [4]int
			free := rapid.IntRange(0, 5).Draw(t, "free") == 0
			for k := range row {
				if !free {
					row[k] = rapid.IntRange(1, 40).Draw(t, "cost")
				}
			}
			c.Cost = append(c.Cost, row)
		}
		if rapid.IntRange(0, 4).Draw(t, "lagging") == 0 {
			c.Lag = rapid.IntRange(1, 20).Draw(t, "lag")
		}
		c.Queue = rapid.SampledFrom([]int{128, 128, 4, 1}).Draw(t, "queue")
		if rapid.IntRange(0, 4).Draw(t, "stalling") == 0 {
			c.StallAt = rapid.IntRange(0, total).Draw(t, "stallat")
			c.Stall = rapid.IntRange(1, 1000*20*c.Interval).Draw(t, "stall")
		}
		return c
	}
	register(spec{ID: "C16", Name: "factory", Quick: 1000, Thorough: 5000, Shards: 8, ThoroughShards: 32, CaseLimit: 90 * time.Second,
		Rule:   "subscriptions, one generation delay per engine, the cost per search of each engine in each interval, and searches at drawn times, in virtual time; non-trivial: the selected engine changed and a search matched",
		Assume: assume}, draw,
		func(ctx *Ctx, c c16Case) error { return runC16(ctx, c, nil) })
	register(spec{ID: "C17", Name: "factory", Quick: 600, Thorough: 3000, Shards: 4, ThoroughShards: 32, CaseLimit: 90 * time.Second,
		Rule:   "as C16/factory; the traffic reports of each engine that the manager forwards add up to the searches and matches of the engine; non-trivial: a search matched and the selected engine changed",
		Assume: assume}, draw,
		func(ctx *Ctx, c c16Case) error {
			return runC16(ctx, c, func(log []stamped, calls, hits map[string]int64) error {
				ev, ma := map[string]int64{}, map[string]int64{}
				for _, s := range log {
					if s.msg.Type == filtering.TrafficStatus {
						ev[s.msg.EngineName] += s.msg.EventCount
						ma[s.msg.EngineName] += s.msg.MatchedCount
					}
				}
				for _, n := range facNames {
					if ev[n] != calls[n] || ma[n] != hits[n] {
						return fmt.Errorf("%s did %d searches with %d matches, the reports add up to %d and %d", n, calls[n], hits[n], ev[n], ma[n])
					}
					delete(ev, n)
					delete(ma, n)
				}
				for n := range ev {
					return fmt.Errorf("traffic of an unknown engine %q was reported", n)
				}
				return nil
			})
		})
}

func runC16(ctx *Ctx, c c16Case, account func(log []stamped, calls, hits map[string]int64) error) error {
	owner := ownerMap(c.Subs)
	var calls, hits [4]atomic.Int64
	var err error
	wrap := func(start *time.Time) func(name string, ctor filtering.EngineConstructor) filtering.EngineConstructor {
		return func(name string, ctor filtering.EngineConstructor) filtering.EngineConstructor {
			k := sort.SearchStrings(facNames, name)
			return func(s filtering.Subscriptions) filtering.Engine {
				time.Sleep(time.Duration(c.Gen[name]) * time.Millisecond)
				return &slowEngine{Engine: ctor(s), name: name, calls: &calls[k], hits: &hits[k],
					cost: func() time.Duration {
						row := int(time.Since(*start) / (time.Duration(c.Interval) * time.Second))
						if row >= len(c.Cost) {
							row = len(c.Cost) - 1
						}
						return time.Duration(c.Cost[row][k]) * time.Microsecond
					}}
			}
		}
	}
	var start time.Time
	changes, matched := 0, 0
	withEngines(wrap(&start), func() {
		err = bubble(ctx, func() error {
			start = time.Now()
			mc := make(chan filtering.ManagementMessage, c.Queue)
			stop := make(chan struct{})
			defer close(stop)
			var mu sync.Mutex
			var seen []stamped
			var answered []string // the engines that answered
			ef := filtering.NewEngineFactory(subsOf(c.Subs), c.Interval, mc)
			time.Sleep(time.Duration(c.RunAfter) * time.Millisecond)
			runAt := time.Since(start)
			go func() {
				stalled := c.Stall == 0
				for {
					if !stalled && time.Since(start) >= time.Duration(c.StallAt)*time.Millisecond {
						stalled = true
						time.Sleep(time.Duration(c.Stall) * time.Millisecond)
					}
					var m filtering.ManagementMessage
					select {
					case <-stop: // the manager's goroutines block and are left behind
						return
					case m = <-mc:
					}
					mu.Lock()
					seen = append(seen, stamped{time.Since(start), m})
					mu.Unlock()
					if c.Lag > 0 {
						time.Sleep(time.Duration(c.Lag) * time.Millisecond)
					}
				}
			}()
			go ef.Run()
			synctest.Wait()
			if ef.IsActive() {
				return fmt.Errorf("active before any engine was generated")
			}
			// ready times of the engines
			first := time.Duration(math.MaxInt64)
			ready := map[string]time.Duration{}
			for n, d := range c.Gen {
				ready[n] = runAt + time.Duration(d)*time.Millisecond
				if ready[n] < first {
					first = ready[n]
				}
			}
			// not active one millisecond before, active one millisecond after.
			// A lagging consumer may delay the announcement, not the activation.
			if d := first - time.Since(start) - time.Millisecond; d > 0 {
				time.Sleep(d)
				synctest.Wait()
				if ef.IsActive() {
					return fmt.Errorf("active at %v, the first engine is ready at %v", time.Since(start), first)
				}
			}
			time.Sleep(first - time.Since(start) + time.Millisecond)
			synctest.Wait()
			if c.Queue < 128 || c.Stall > 0 { // a full queue may hold up the manager
				for i := 0; i < 3*c.Stall+10000 && !ef.IsActive(); i++ {
					time.Sleep(time.Millisecond)
					synctest.Wait()
				}
			}
			if !ef.IsActive() {
				return fmt.Errorf("not active although an engine is ready since %v (ready: %v)", first, ready)
			}
			for i, s := range c.Steps {
				time.Sleep(time.Duration(s.Wait) * time.Millisecond)
				for n := 0; n < s.Times; n++ {
					synctest.Wait()
					tag := c.Tags[s.Tag]
					_, id := tag.bytes()
					want := expectURIs(owner, id)
					before := facSelected(&mu, &seen)
					ident, uris, serr := ef.Search(tag.event())
					after := facSelected(&mu, &seen)
					if !ef.IsActive() {
						return fmt.Errorf("step %d: no longer active", i)
					}
					if !sameSet(uris, want) {
						return fmt.Errorf("step %d: search of %+v reported %q, want %q", i, tag, uris, want)
					}
					if (serr != nil) != (len(want) == 0) {
						return fmt.Errorf("step %d: search of %+v reported %q and error %v", i, tag, uris, serr)
					}
					cut := strings.LastIndex(ident, "|")
					if cut < 0 {
						return fmt.Errorf("step %d: the answer to %+v does not come from an engine: %q", i, tag, ident)
					}
					by := ident[cut+1:]
					pc, _ := tag.bytes()
					urn, _ := refTranslate(pc, id)
					if len(want) > 0 {
						matched++
						if ident[:cut] != urn {
							return fmt.Errorf("step %d: search of %+v reported identity %q, want %q", i, tag, ident[:cut], urn)
						}
					}
					// the answer comes from the engine announced last
					if len(answered) == 0 || answered[len(answered)-1] != by {
						answered = append(answered, by)
					}
					if c.Lag+c.Stall == 0 && by != before && by != after {
						return fmt.Errorf("step %d at %v: %s answered, but %q is announced as selected (ready: %v) %+v", i, time.Since(start), by, before, ready, seen)
					}
				}
			}
			// let the consumer catch up
			time.Sleep(2*time.Duration(c.Interval)*time.Second + 500*time.Millisecond + time.Duration(c.Stall)*time.Millisecond)
			for i, n := 0, -1; i < 100; i++ { // until nothing comes for 100 ms
				synctest.Wait()
				mu.Lock()
				k := len(seen)
				mu.Unlock()
				if k == n && len(mc) == 0 {
					break
				}
				n = k
				time.Sleep(100 * time.Millisecond)
			}
			mu.Lock()
			log := append([]stamped(nil), seen...)
			mu.Unlock()
			// every engine that answered was announced, in this order
			announced := 0
			for _, by := range answered {
				for announced < len(log) && (log[announced].msg.Type != filtering.SelectedEngine || log[announced].msg.EngineName != by) {
					announced++
				}
				if announced == len(log) {
					return fmt.Errorf("the engines %q answered, which were not announced in this order: %+v", answered, log)
				}
			}
			if account != nil {
				cm, hm := map[string]int64{}, map[string]int64{}
				for k, n := range facNames {
					cm[n], hm[n] = calls[k].Load(), hits[k].Load()
				}
				changes = 2
				return account(log, cm, hm)
			}
			if c.Lag+c.Stall > 0 || c.Queue < 128 {
				last := ""
				for _, s := range log {
					if s.msg.Type == filtering.SelectedEngine {
						if s.msg.EngineName != last {
							changes++
						}
						last = s.msg.EngineName
					}
				}
				ident, _, _ := ef.Search(c.Tags[0].event())
				if by := ident[strings.LastIndex(ident, "|")+1:]; by != last {
					return fmt.Errorf("%s answers, %s was announced last: %+v", by, last, log)
				}
				return nil
			}
			n, e := facCheckLog(c, log, ready, time.Since(start))
			changes = n
			return e
		})
	})
	if err != nil {
		return err
	}
	ctx.NonTrivialIf(changes > 1 && matched > 0)
	ctx.LabelIf(changes > 3, "more than 3 changes")
	ctx.LabelIf(c.Lag > 0, "slow consumer")
	ctx.LabelIf(c.Stall > 5000, "consumer pauses for more than 5 s")
	return nil
}

func facSelected(mu *sync.Mutex, seen *[]stamped) string {
	mu.Lock()
	defer mu.Unlock()
	for i := len(*seen) - 1; i >= 0; i-- {
		if m := (*seen)[i].msg; m.Type == filtering.SelectedEngine {
			return m.EngineName
		}
	}
	return ""
}

// facCheckLog replays the announcements against the selection rule.
func facCheckLog(c c16Case, log []stamped, ready map[string]time.Duration, end time.Duration) (changes int, err error) {
	iv := time.Duration(c.Interval) * time.Second
	const slack = 900 * time.Microsecond // searches cost at most this
	best := func(perf map[string]float64) map[string]bool {
		max := 0.0
		for _, v := range perf {
			if v > max {
				max = v
			}
		}
		out := map[string]bool{}
		for n, v := range perf {
			if v == max && max > 0 {
				out[n] = true
			}
		}
		return out
	}
	perf := map[string]float64{}
	cur := ""
	var order []string
	for n := range ready {
		order = append(order, n)
	}
	sort.Slice(order, func(i, j int) bool { return ready[order[i]] < ready[order[j]] })
	// first throughput
	firstPerf := time.Duration(math.MaxInt64)
	for _, s := range log {
		if s.msg.Type == filtering.EngineStatus {
			firstPerf = s.at
			break
		}
	}
	for i, s := range log {
		switch s.msg.Type {
		case filtering.EngineStatus:
			if !(s.msg.CurrentThroughput > 0) || math.IsInf(s.msg.CurrentThroughput, 0) {
				return changes, fmt.Errorf("at %v: throughput %v of %s", s.at, s.msg.CurrentThroughput, s.msg.EngineName)
			}
			perf[s.msg.EngineName] = s.msg.CurrentThroughput
		case filtering.SelectedEngine:
			name := s.msg.EngineName
			if name == cur {
				// a tick that keeps the engine: it must be the best, or nothing
				// is known, or this is the confirmation of a ready event
				if len(perf) > 0 && name != "" && !ownReady(ready, s.at, slack) {
					if ok := acceptable(log, i, perf, best); !ok[name] {
						return changes, fmt.Errorf("at %v: the interval kept %s although the reported throughputs are %v", s.at, name, perf)
					}
				}
				continue
			}
			// a change
			if name == "" {
				return changes, fmt.Errorf("at %v: announced that no engine is selected after %s", s.at, cur)
			}
			rt, known := ready[name]
			if !known || rt > s.at+slack {
				return changes, fmt.Errorf("at %v: selected %q, which is not ready (ready: %v)", s.at, name, ready)
			}
			byReady := s.at-rt <= slack && (cur == "" || priority[name] > priority[cur])
			byPerf := acceptable(log, i, perf, best)[name]
			if !byReady && !byPerf {
				return changes, fmt.Errorf("at %v: selected %s after %q; ready: %v, throughputs: %v", s.at, name, cur, ready, perf)
			}
			cur = name
			changes++
		}
	}
	// each engine that became ready before any throughput was known and had a
	// higher priority than all before it was announced at that time
	top := ""
	for _, n := range order {
		if ready[n] >= firstPerf-slack || ready[n] >= end-slack {
			break
		}
		if top == "" || priority[n] > priority[top] {
			top = n
			found := false
			for _, s := range log {
				if s.msg.Type == filtering.SelectedEngine && s.msg.EngineName == n && s.at >= ready[n]-slack && s.at <= ready[n]+slack {
					found = true
				}
			}
			if !found {
				return changes, fmt.Errorf("%s became ready at %v as the engine of highest priority and was not announced (ready: %v)", n, ready[n], ready)
			}
		}
	}
	// at each interval after throughputs are known the best one is selected:
	// the last report of the run is followed by an interval of the manager, so
	// that the selected engine is then the best of the final throughputs,
	// unless an engine became ready meanwhile
	if len(perf) > 0 && len(log) > 0 {
		// walk again: after each batch of reports, within one interval, the
		// selection is a best one
		perf = map[string]float64{}
		cur = ""
		var dueAt time.Duration = -1
		for _, s := range log {
			if dueAt >= 0 && s.at > dueAt+slack {
				if b := best(perf); !b[cur] && !readyBetween(ready, dueAt-iv-slack, dueAt+slack) {
					return changes, fmt.Errorf("by %v an interval has passed since the throughputs %v were reported and %s is still selected", s.at, perf, cur)
				}
				dueAt = -1
			}
			switch s.msg.Type {
			case filtering.EngineStatus:
				perf[s.msg.EngineName] = s.msg.CurrentThroughput
				dueAt = s.at + iv
			case filtering.SelectedEngine:
				cur = s.msg.EngineName
			}
		}
	}
	return changes, nil
}

// acceptable is the set of engines that have the best throughput in some order
// of the reports that share the instant of announcement i.
func acceptable(log []stamped, i int, perf map[string]float64, best func(map[string]float64) map[string]bool) map[string]bool {
	out := best(perf)
	const near = 900 * time.Microsecond
	p := map[string]float64{}
	for j, s := range log {
		if s.msg.Type != filtering.EngineStatus {
			continue
		}
		d := s.at - log[i].at
		if d > near {
			break
		}
		if d >= -near || j > i {
			for n := range best(p) {
				out[n] = true
			}
		}
		p[s.msg.EngineName] = s.msg.CurrentThroughput
	}
	for n := range best(p) {
		out[n] = true
	}
	return out
}

func ownReady(ready map[string]time.Duration, at, slack time.Duration) bool {
	return readyBetween(ready, at-slack, at+slack)
}

func readyBetween(ready map[string]time.Duration, a, b time.Duration) bool {
	for _, r := range ready {
		if r >= a && r <= b {
			return true
		}
	}
	return false
}

type genSearch struct {
	Wait  int  `json:"w"` // microseconds before the search
	Cost  int  `json:"c"` // nanoseconds of the search
	Match bool `json:"m"`
	Bad   bool `json:"b"` // the tag has no pure identity
}

type c17Case struct {
	Name     string        `json:"name"`
	Interval int           `json:"interval"`
	Workers  [][]genSearch `json:"workers"`
	Lag      []int         `json:"lag"` // ms the receiver takes for the i-th message
}

// fakeEngine spends the cost and gives the answer that the tag asks for.
type fakeEngine struct{ calls, hits *atomic.Int64 }

func (f fakeEngine) AddSubscription(filtering.Subscriptions)    {}
func (f fakeEngine) DeleteSubscription(filtering.Subscriptions) {}
func (f fakeEngine) Dump() string                               { return "" }
func (f fakeEngine) MarshalBinary() ([]byte, error)             { return nil, nil }
func (f fakeEngine) UnmarshalBinary([]byte) error               { return nil }
func (f fakeEngine) Name() string                               { return "Fake" }
func (f fakeEngine) Search(re llrp.ReadEvent) (string, []string, error) {
	var s genSearch
	_ = json.Unmarshal(re.ID, &s)
	f.calls.Add(1)
	if s.Cost > 0 {
		time.Sleep(time.Duration(s.Cost))
	}
	if s.Match {
		f.hits.Add(1)
		if s.Bad {
			return "", []string{"http://a", "http://b"}, fmt.Errorf("no pure identity")
		}
		return "urn", []string{"http://a"}, nil
	}
	return "", nil, fmt.Errorf("no match")
}

func init() {
	draw := func(workers int) func(t *rapid.T) c17Case {
		return func(t *rapid.T) c17Case {
			c := c17Case{Name: rapid.SampledFrom(facNames).Draw(t, "name"), Interval: rapid.IntRange(1, 3).Draw(t, "interval")}
			n := 1
			if workers > 1 {
				n = rapid.IntRange(2, workers).Draw(t, "workers")
			}
			pace := rapid.SampledFrom([]int{10, 1000, 100000, 900000}).Draw(t, "pace")
			cost := rapid.SampledFrom([]int{0, 1, 900, 30000, 5000000}).Draw(t, "cost")
			for i := 0; i < n; i++ {
				var w []genSearch
				m := rapid.IntRange(1, 25).Draw(t, "n")
				for k := 0; k < m; k++ {
					s := genSearch{Match: rapid.Bool().Draw(t, "match"), Bad: rapid.IntRange(0, 3).Draw(t, "bad") == 0}
					switch rapid.IntRange(0, 5).Draw(t, "waitkind") {
					case 0: // to the edge of an interval
						s.Wait = c.Interval * 1000000
					case 1:
						s.Wait = rapid.IntRange(0, 2500000).Draw(t, "waitlong")
					default:
						s.Wait = rapid.IntRange(0, pace).Draw(t, "wait")
					}
					if cost > 0 {
						s.Cost = rapid.IntRange(0, cost).Draw(t, "costns")
					}
					w = append(w, s)
				}
				c.Workers = append(c.Workers, w)
			}
			m := rapid.IntRange(0, 12).Draw(t, "nlag")
			for i := 0; i < m; i++ {
				c.Lag = append(c.Lag, rapid.SampledFrom([]int{0, 0, 1, 40, 700, 2600}).Draw(t, "lag"))
			}
			return c
		}
	}
	register(spec{ID: "C17", Name: "sequential", Quick: 800, Thorough: 5000, ThoroughShards: 24,
		Rule: "one engine in its generator, searches with drawn times, costs and outcomes, a receiver that takes drawn times; counts add up and each throughput is events per microsecond of the interval; non-trivial: several reports with events, one delivered slowly"},
		draw(1), runC17)
	register(spec{ID: "C17", Name: "concurrent", Quick: 800, Thorough: 5000, ThoroughShards: 24,
		Rule: "as sequential with 2..6 searching goroutines; non-trivial: several reports with events, one delivered slowly"},
		draw(6), runC17)
}

type c17Burst struct {
	Name  string `json:"name"`
	Count []int  `json:"count"` // searches in each interval
	Match int    `json:"match"` // every n-th finds a subscriber
}

func init() {
	register(spec{ID: "C17", Name: "burst", Quick: 6, Thorough: 60, Shards: 4,
		Rule: "one engine in its generator with up to 140000 searches within one interval; the counts add up; non-trivial: more than 60000 searches in one interval"},
		func(t *rapid.T) c17Burst {
			return c17Burst{rapid.SampledFrom(facNames).Draw(t, "name"),
				rapid.SliceOfN(rapid.OneOf(rapid.IntRange(0, 3000), rapid.IntRange(60000, 70000)), 1, 3).Draw(t, "count"),
				rapid.IntRange(1, 5).Draw(t, "match")}
		},
		func(ctx *Ctx, c c17Burst) error {
			w := genSearch{}
			hit := genSearch{Match: true}
			bm, _ := json.Marshal(w)
			bh, _ := json.Marshal(hit)
			var calls, hits atomic.Int64
			var err error
			withEngines(func(string, filtering.EngineConstructor) filtering.EngineConstructor {
				return func(filtering.Subscriptions) filtering.Engine { return fakeEngine{&calls, &hits} }
			}, func() {
				err = bubble(ctx, func() error {
					mc := make(chan filtering.ManagementMessage)
					eg := filtering.NewEngineGenerator(c.Name, filtering.AvailableEngines[c.Name], 1, mc)
					stop := make(chan struct{})
					defer close(stop)
					generated := make(chan struct{})
					var mu sync.Mutex
					var ev, ma int64
					go func() {
						for {
							select {
							case <-stop:
								return
							case m := <-mc:
								mu.Lock()
								switch m.Type {
								case filtering.OnEngineGenerated:
									close(generated)
								case filtering.TrafficStatus:
									ev += m.EventCount
									ma += m.MatchedCount
								}
								mu.Unlock()
							}
						}
					}()
					if e := eg.FSM.Event(context.Background(), "init", filtering.Subscriptions{}); e != nil {
						return fmt.Errorf("init: %v", e)
					}
					<-generated
					for _, n := range c.Count {
						for i := 0; i < n; i++ {
							b := bm
							if i%c.Match == 0 {
								b = bh
							}
							_, _, _ = eg.Search(llrp.ReadEvent{PC: []byte{0x30, 0}, ID: b})
						}
						time.Sleep(time.Second + time.Millisecond)
						synctest.Wait()
						mu.Lock()
						e, m := ev, ma
						mu.Unlock()
						if e != calls.Load() || m != hits.Load() {
							return fmt.Errorf("%d searches with %d matches, the reports add up to %d and %d", calls.Load(), hits.Load(), e, m)
						}
					}
					return nil
				})
			})
			for _, n := range c.Count {
				ctx.NonTrivialIf(n > 60000)
			}
			return err
		})
}

type c17Real struct {
	Name     string  `json:"name"`
	Interval int     `json:"interval"`
	Subs     []Owned `json:"subs"`
	Tags     []Tag   `json:"tags"`
	Waits    []int   `json:"waits"` // ms before each search
}

func init() {
	register(spec{ID: "C17", Name: "engines", Quick: 800, Thorough: 8000, Shards: 4,
		Rule: "a real engine of each kind in its generator, searched for tags that match, do not match or are malformed: each report's counts are those of the searches before it; non-trivial: a malformed tag that a prefix covers was searched, and a tag that nothing covers"},
		func(t *rapid.T) c17Real {
			w := drawWorld(t, 4)
			c := c17Real{Name: rapid.SampledFrom(facNames).Draw(t, "name"), Interval: rapid.IntRange(1, 3).Draw(t, "interval"), Subs: w.drawOwned(t, 0, 6)}
			for i := rapid.IntRange(1, 25).Draw(t, "n"); i > 0; i-- {
				c.Tags = append(c.Tags, w.drawTextTag(t))
				c.Waits = append(c.Waits, rapid.SampledFrom([]int{0, 0, 0, 20, 1000, 2500}).Draw(t, "wait"))
			}
			return c
		},
		func(ctx *Ctx, c c17Real) error {
			owner := ownerMap(c.Subs)
			m := sharedModel{}
			for _, o := range c.Subs {
				m.add(o)
			}
			bad, none := false, false
			err := bubble(ctx, func() error {
				mc := make(chan filtering.ManagementMessage)
				eg := filtering.NewEngineGenerator(c.Name, filtering.AvailableEngines[c.Name], c.Interval, mc)
				stop := make(chan struct{})
				defer close(stop)
				generated := make(chan struct{})
				var mu sync.Mutex
				var ev, ma int64
				go func() {
					for {
						select {
						case <-stop:
							return
						case msg := <-mc:
							mu.Lock()
							switch msg.Type {
							case filtering.OnEngineGenerated:
								close(generated)
							case filtering.TrafficStatus:
								ev += msg.EventCount
								ma += msg.MatchedCount
							}
							mu.Unlock()
						}
					}
				}()
				if e := eg.FSM.Event(context.Background(), "init", subsOf(c.Subs)); e != nil {
					return fmt.Errorf("init: %v", e)
				}
				<-generated
				var wantEv, wantMa int64
				settle := func() error {
					time.Sleep(time.Duration(c.Interval)*time.Second + time.Millisecond)
					synctest.Wait()
					mu.Lock()
					defer mu.Unlock()
					if ev != wantEv || ma != wantMa {
						return fmt.Errorf("%s: after %d searches that found a subscriber %d times the reports add up to %d and %d", c.Name, wantEv, wantMa, ev, ma)
					}
					return nil
				}
				for i, tag := range c.Tags {
					time.Sleep(time.Duration(c.Waits[i]) * time.Millisecond)
					_, id := tag.bytes()
					want := expectURIs(owner, id)
					u, _, ok := m.expect(tag)
					if c.Name == "LegacyEngine" {
						want = u
					}
					_, uris, _ := eg.Search(tag.event())
					if !sameSet(uris, want) {
						return fmt.Errorf("%s: search of %+v in its generator reported %q, want %q", c.Name, tag, uris, want)
					}
					wantEv++
					if len(want) > 0 {
						wantMa++
						bad = bad || !ok
					} else {
						none = true
					}
					if i%8 == 7 {
						if err := settle(); err != nil {
							return err
						}
					}
				}
				return settle()
			})
			ctx.NonTrivialIf((bad || c.Name == "LegacyEngine") && none)
			ctx.LabelIf(bad, "covered malformed tag")
			ctx.Label(c.Name)
			return err
		})
}

func runC17(ctx *Ctx, c c17Case) error {
	var calls, hits atomic.Int64
	var err error
	reports, slow := 0, false
	withEngines(func(string, filtering.EngineConstructor) filtering.EngineConstructor {
		return func(filtering.Subscriptions) filtering.Engine { return fakeEngine{&calls, &hits} }
	}, func() {
		err = bubble(ctx, func() error {
			mc := make(chan filtering.ManagementMessage)
			eg := filtering.NewEngineGenerator(c.Name, filtering.AvailableEngines[c.Name], c.Interval, mc)
			stop := make(chan struct{})
			defer close(stop)
			generated := make(chan struct{})
			var mu sync.Mutex
			var traffic, status []filtering.ManagementMessage
			var unexpected []filtering.ManagementMessage
			go func() {
				i := 0
				for {
					var m filtering.ManagementMessage
					select {
					case <-stop:
						return
					case m = <-mc:
					}
					mu.Lock()
					switch m.Type {
					case filtering.OnEngineGenerated:
						close(generated)
					case filtering.TrafficStatus:
						traffic = append(traffic, m)
					case filtering.EngineStatus:
						status = append(status, m)
					default:
						unexpected = append(unexpected, m)
					}
					mu.Unlock()
					if m.Type != filtering.OnEngineGenerated && i < len(c.Lag) {
						time.Sleep(time.Duration(c.Lag[i]) * time.Millisecond)
						i++
					}
				}
			}()
			if e := eg.FSM.Event(context.Background(), "init", filtering.Subscriptions{}); e != nil {
				return fmt.Errorf("init: %v", e)
			}
			<-generated
			var wg sync.WaitGroup
			for _, w := range c.Workers {
				wg.Add(1)
				go func() {
					defer wg.Done()
					for _, s := range w {
						time.Sleep(time.Duration(s.Wait) * time.Microsecond)
						b, _ := json.Marshal(s)
						_, _, _ = eg.Search(llrp.ReadEvent{PC: []byte{0x30, 0}, ID: b})
					}
				}()
			}
			wg.Wait()
			lag := 0
			for _, l := range c.Lag {
				lag += l
			}
			time.Sleep(3*time.Duration(c.Interval)*time.Second + time.Duration(lag)*time.Millisecond)
			synctest.Wait()
			mu.Lock()
			defer mu.Unlock()
			if len(unexpected) > 0 {
				return fmt.Errorf("unexpected message %+v", unexpected[0])
			}
			var ev, ma int64
			for _, m := range traffic {
				if m.EngineName != c.Name {
					return fmt.Errorf("traffic report for engine %q, want %q", m.EngineName, c.Name)
				}
				if m.EventCount < 0 || m.MatchedCount < 0 {
					return fmt.Errorf("negative counts in %+v", m)
				}
				ev += m.EventCount
				ma += m.MatchedCount
				if m.EventCount > 0 {
					reports++
				}
			}
			if ev != calls.Load() || ma != hits.Load() {
				return fmt.Errorf("%d searches with %d matches, the reports add up to %d and %d", calls.Load(), hits.Load(), ev, ma)
			}
			total := 0
			lo, hi := math.Inf(1), 0.0
			for _, w := range c.Workers {
				for _, s := range w {
					total++
					lo, hi = math.Min(lo, float64(s.Cost)), math.Max(hi, float64(s.Cost))
				}
			}
			if int64(total) != calls.Load() {
				return fmt.Errorf("%d searches were passed on of %d", calls.Load(), total)
			}
			for _, m := range status {
				if m.EngineName != c.Name {
					return fmt.Errorf("throughput for engine %q, want %q", m.EngineName, c.Name)
				}
				v := m.CurrentThroughput
				if !(v > 0) || math.IsInf(v, 0) {
					return fmt.Errorf("throughput %v reported", v)
				}
				// every search of the run took lo..hi nanoseconds
				if hi > 0 && v < 1000/hi*(1-1e-6) {
					return fmt.Errorf("throughput %v reported, no search took more than %v ns", v, hi)
				}
				if lo > 0 && v > 1000/lo*(1+1e-6) {
					return fmt.Errorf("throughput %v reported, no search took less than %v ns", v, lo)
				}
			}
			if len(c.Workers) == 1 {
				// the reports partition the searches in order
				var want []float64
				at := 0
				for _, m := range traffic {
					sum := 0
					for _, s := range c.Workers[0][at : at+int(m.EventCount)] {
						sum += s.Cost
					}
					at += int(m.EventCount)
					if sum > 0 {
						want = append(want, float64(m.EventCount)/(float64(sum)/1000))
					}
				}
				if len(want) != len(status) {
					return fmt.Errorf("%d throughputs reported for %d intervals with search time", len(status), len(want))
				}
				for i, m := range status {
					if math.Abs(m.CurrentThroughput-want[i]) > 1e-6*want[i] {
						return fmt.Errorf("throughput %v reported, want %v", m.CurrentThroughput, want[i])
					}
				}
			}
			for _, l := range c.Lag {
				slow = slow || l >= 700
			}
			return nil
		})
	})
	if err != nil {
		return err
	}
	ctx.NonTrivialIf(reports > 1 && slow)
	ctx.LabelIf(reports > 3, "more than 3 reports with events")
	return nil
}
