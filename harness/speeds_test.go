package harness

import (
	"fmt"
	"math"
	"strings"
	"sync"
	"sync/atomic"
	"testing/synctest"
	"time"

	"github.com/iomz/gosstrak/filtering"
	"pgregory.net/rapid"
)

// C16: whichever engine is the fastest, by however much, is selected.

type speedPhase struct {
	Cost     [4]int `json:"cost"` // nanoseconds per search, all different
	Searches []int  `json:"at"`   // milliseconds between searches
}

type speedCase struct {
	Subs     []Owned      `json:"subs"`
	Tags     []Tag        `json:"tags"`
	Interval int          `json:"interval"`
	RunAfter int          `json:"run_after"` // ms
	Phases   []speedPhase `json:"phases"`
}

func init() {
	register(spec{ID: "C16", Name: "speeds", Quick: 300, Thorough: 3000, Shards: 4, ThoroughShards: 16, CaseLimit: 90 * time.Second,
		Rule:   "one to three phases with a constant and distinct cost per search of each engine, from 1 ns to 50 ms and apart by a factor or by a nanosecond, with searches over several intervals in virtual time; after each phase the fastest engine is the one that answers and that is announced last; non-trivial: two costs of a phase differ by less than 0.1 % or all are above 1 ms, or the fastest engine changes",
		Assume: []string{"the manager's channels are read, as the middleware does"}},
		func(t *rapid.T) speedCase {
			c := speedCase{Interval: rapid.IntRange(1, 3).Draw(t, "interval")}
			c.Subs, c.Tags = drawFacWorld(t)
			c.RunAfter = rapid.IntRange(1, c.Interval*1000-1).Draw(t, "runafter")
			for i := rapid.IntRange(1, 3).Draw(t, "nphases"); i > 0; i-- {
				var p speedPhase
				top := []float64{3, 5, 7, 7.7}[rapid.IntRange(0, 3).Draw(t, "top")]
				low := 0.0
				if rapid.Bool().Draw(t, "slow") {
					low = top - 1
				}
				seen := map[int]bool{}
				for k := range p.Cost {
					v := int(math.Pow(10, low+(top-low)*float64(rapid.IntRange(0, 1000).Draw(t, "exp"))/1000))
					if k > 0 && rapid.Bool().Draw(t, "close") {
						v = p.Cost[rapid.IntRange(0, k-1).Draw(t, "to")] + rapid.IntRange(-3, 3).Draw(t, "by")
					}
					for v < 1 || seen[v] {
						v++
					}
					seen[v] = true
					p.Cost[k] = v
				}
				span := 0
				for span < 2500*c.Interval || len(p.Searches) < 6 {
					d := rapid.IntRange(1, 700*c.Interval).Draw(t, "gap")
					span += d
					p.Searches = append(p.Searches, d)
				}
				c.Phases = append(c.Phases, p)
			}
			return c
		}, runSpeeds)
}

func runSpeeds(ctx *Ctx, c speedCase) error {
	var calls, hits [4]atomic.Int64
	var phase atomic.Int64
	index := map[string]int{}
	for k, n := range facNames {
		index[n] = k
	}
	owner := ownerMap(c.Subs)
	iv := time.Duration(c.Interval) * time.Second
	var err error
	withEngines(func(name string, ctor filtering.EngineConstructor) filtering.EngineConstructor {
		k := index[name]
		return func(s filtering.Subscriptions) filtering.Engine {
			return &slowEngine{Engine: ctor(s), name: name, calls: &calls[k], hits: &hits[k],
				cost: func() time.Duration { return time.Duration(c.Phases[phase.Load()].Cost[k]) }}
		}
	}, func() {
		err = bubble(ctx, func() error {
			mc := make(chan filtering.ManagementMessage, 128)
			stop := make(chan struct{})
			defer close(stop)
			var mu sync.Mutex
			last := ""
			reported := map[string]float64{}
			ef := filtering.NewEngineFactory(subsOf(c.Subs), c.Interval, mc)
			time.Sleep(time.Duration(c.RunAfter) * time.Millisecond)
			go func() {
				for {
					select {
					case <-stop:
						return
					case m := <-mc:
						mu.Lock()
						switch m.Type {
						case filtering.SelectedEngine:
							last = m.EngineName
						case filtering.EngineStatus:
							reported[m.EngineName] = m.CurrentThroughput
						}
						mu.Unlock()
					}
				}
			}()
			go ef.Run()
			time.Sleep(time.Millisecond)
			synctest.Wait()
			if !ef.IsActive() {
				return fmt.Errorf("not active although every engine is ready")
			}
			for i, p := range c.Phases {
				phase.Store(int64(i))
				search := func(n int) (string, error) {
					tag := c.Tags[n%len(c.Tags)]
					_, id := tag.bytes()
					ident, uris, _ := ef.Search(tag.event())
					if want := expectURIs(owner, id); !sameSet(uris, want) {
						return "", fmt.Errorf("phase %d: search of %+v reported %q, want %q", i, tag, uris, want)
					}
					return ident[strings.LastIndex(ident, "|")+1:], nil
				}
				for n, d := range p.Searches {
					time.Sleep(time.Duration(d) * time.Millisecond)
					if _, err := search(n); err != nil {
						return err
					}
				}
				// one report of each engine and one decision of the manager
				time.Sleep(2*iv + 300*time.Millisecond)
				synctest.Wait()
				best := 0
				for k, v := range p.Cost {
					if v < p.Cost[best] {
						best = k
					}
				}
				mu.Lock()
				announced, tp := last, fmt.Sprint(reported)
				var wrong error
				for k, v := range p.Cost {
					if got, want := reported[facNames[k]], 1000/float64(v); !(math.Abs(got-want) <= want*1e-9) {
						wrong = fmt.Errorf("phase %d: the throughput of %s is reported as %v events/us, want %v", i, facNames[k], got, want)
					}
				}
				mu.Unlock()
				if wrong != nil {
					return wrong
				}
				if announced != facNames[best] {
					return fmt.Errorf("phase %d: %q is announced as selected, but %s is the fastest of %v: costs %v ns, reported %s", i, announced, facNames[best], facNames, p.Cost, tp)
				}
				by, err := search(0)
				if err != nil {
					return err
				}
				if by != facNames[best] {
					return fmt.Errorf("phase %d: %s answers, but %s is the fastest of %v: costs %v ns", i, by, facNames[best], facNames, p.Cost)
				}
			}
			return nil
		})
	})
	if err != nil {
		return err
	}
	bests := map[int]bool{}
	for _, p := range c.Phases {
		least, best := math.MaxInt, 0
		for k, v := range p.Cost {
			if v < least {
				least, best = v, k
			}
			for _, w := range p.Cost[:k] {
				ctx.NonTrivialIf(math.Abs(float64(v-w)) < float64(v)/1000)
			}
		}
		ctx.NonTrivialIf(least > 1000000)
		bests[best] = true
	}
	ctx.NonTrivialIf(len(bests) > 1)
	return nil
}
