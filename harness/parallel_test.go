package harness

import (
	"fmt"
	"runtime"
	"strings"
	"sync"

	"github.com/iomz/gosstrak/filtering"
	"github.com/iomz/gosstrak/scheme"
	"github.com/iomz/gosstrak/tdt"
	"pgregory.net/rapid"
)

// C23: things used at the same time from different goroutines. The binary of
// this check is built with the race detector, which ends the process.

type parJob struct {
	Kind   string `json:"k"`           // engine, legacy, translate, encode
	Engine string `json:"e,omitempty"` // kind of engine
	Own    bool   `json:"own,omitempty"`
	Save   int    `json:"save,omitempty"` // the engine is saved and restored after so many operations
	Ops    []Op   `json:"ops,omitempty"`
	Tags   []Tag  `json:"tags,omitempty"`
	Items  []Item `json:"items,omitempty"`
}

type c23Case struct {
	Init []Owned  `json:"init"`
	Jobs []parJob `json:"jobs"`
}

func runParJob(j parJob, shared filtering.Subscriptions, init []Owned) error {
	switch j.Kind {
	case "engine":
		owner := ownerMap(init)
		subs := shared
		if j.Own {
			subs = subsOf(init)
		}
		e := newEngine(j.Engine, subs)
		var st histStats
		n := min(j.Save, len(j.Ops))
		if err := runOps(j.Engine, e, owner, j.Ops[:n], &st, nil); err != nil {
			return err
		}
		if n > 0 {
			b, err := e.MarshalBinary()
			if err != nil {
				return fmt.Errorf("%s: saving: %v", j.Engine, err)
			}
			e = newEngine(j.Engine, filtering.Subscriptions{})
			if err := e.UnmarshalBinary(b); err != nil {
				return fmt.Errorf("%s: restoring: %v", j.Engine, err)
			}
		}
		return runOps(j.Engine, e, owner, j.Ops[n:], &st, func(when string) error {
			return checkDump(j.Engine, e, owner, when)
		})
	case "sets":
		for k := 0; k < 2; k++ {
			if err := readSet(shared, init); err != nil {
				return err
			}
			if err := readSet(subsOf(init[:len(init)/2]), init[:len(init)/2]); err != nil {
				return err
			}
		}
	case "legacy":
		m := sharedModel{}
		for _, o := range init {
			m.add(o)
		}
		subs := shared
		if j.Own {
			subs = subsOf(init)
		}
		e := newEngine("LegacyEngine", subs)
		var n int
		if err := runShared(e, m, j.Ops, &n, &n, &n); err != nil {
			return err
		}
		for k := 0; k < 2; k++ {
			for _, tag := range j.Tags {
				if err := checkLegacySearch(e, m, tag); err != nil {
					return err
				}
			}
		}
	case "translate":
		core := tdt.NewCore()
		for _, tag := range j.Tags {
			pc, id := tag.bytes()
			want, ok := refTranslate(pc, id)
			got, err := core.Translate(pc, id)
			if ok != (err == nil) || got != want {
				return fmt.Errorf("translation of %+v is %q (%v), want %q", tag, got, err, want)
			}
		}
	case "encode":
		for _, it := range j.Items {
			want := it.tag()
			got, err := encodeItem(it)
			if err != nil || fmt.Sprintf("%x", got) != want.ID {
				return fmt.Errorf("encoding %v gives %x (%v), want %s", it, got, err, want.ID)
			}
			p := prefixPat(it, len(it.Fields))
			f, _ := refFilter(p)
			if g, err := tdt.MakePrefixFilterString(p.Scheme, append([]string(nil), p.Fields...)); err != nil || g != f {
				return fmt.Errorf("the prefix of %s is %s (%v), want %s", p.URN(), g, err, f)
			}
			bs, opt := generate(false, it, 0)
			_, id := want.bytes()
			if line := scheme.PrintID(bs, opt); !strings.EqualFold(line, want.PC+","+bytesToBits(id)) {
				return fmt.Errorf("the ID line of %v is %q, want %s,%s", it, line, want.PC, bytesToBits(id))
			}
			line := scheme.PrintGoBytes(bs, opt)
			if m := goBytes.FindStringSubmatch(line); m == nil {
				return fmt.Errorf("the Go form of %v is %q", it, line)
			} else if b, err := decBytes(m[2]); err != nil || string(b) != string(id) {
				return fmt.Errorf("the Go form of %v is %q, want the ID %s", it, line, want.ID)
			}
		}
	}
	return nil
}

// readSet uses a subscription set without changing it.
func readSet(subs filtering.Subscriptions, init []Owned) error {
	want := subsOf(init)
	clone := subs.Clone()
	if err := sameSubs(clone, want); err != nil {
		return fmt.Errorf("copy of the set: %w", err)
	}
	for u := range clone { // the copy is its own
		clone[u] = append(clone[u][:0], "urn:epc:pat:sgtin-96:0")
	}
	b, err := subs.MarshalBinary()
	if err != nil {
		return fmt.Errorf("encoding the set: %v", err)
	}
	got := filtering.Subscriptions{}
	if err := got.UnmarshalBinary(b); err != nil {
		return fmt.Errorf("decoding the set: %v", err)
	}
	if err := sameSubs(got, want); err != nil {
		return fmt.Errorf("decoded set: %w", err)
	}
	owner, bsub := ownerMap(init), subs.ToByteSubscriptions()
	if len(bsub) != len(owner) {
		return fmt.Errorf("the set is converted to %q, want %v", bsub.Keys(), owner)
	}
	for f, u := range owner {
		if bsub[f] == nil || bsub[f].ReportURI != u {
			return fmt.Errorf("the set is converted to %q, want %v", bsub.Keys(), owner)
		}
	}
	return nil
}

func init() {
	register(spec{ID: "C23", Name: "parallel", Quick: 1000, Thorough: 8000, Shards: 4, ThoroughShards: 8,
		Rule: "2..10 goroutines that start together: engines of drawn kinds built from one shared subscription set (or from their own), changed, searched, saved and restored, translators, encoders with their printed forms, and copies, encodings and conversions of the set, each against its own model, under the race detector; non-trivial: two engines share the set and one of them is changed"},
		func(t *rapid.T) c23Case {
			w := drawWorld(t, 5)
			c := c23Case{Init: w.drawOwned(t, 0, 10)}
			n := rapid.IntRange(2, 10).Draw(t, "njobs")
			for i := 0; i < n; i++ {
				j := parJob{Kind: rapid.SampledFrom([]string{"engine", "engine", "engine", "legacy", "legacy", "translate", "encode", "sets"}).Draw(t, "kind")}
				switch j.Kind {
				case "engine":
					j.Engine = rapid.SampledFrom(byteEngines).Draw(t, "engine")
					j.Own = rapid.IntRange(0, 3).Draw(t, "own") == 0
					j.Save = rapid.IntRange(0, 6).Draw(t, "save")
					j.Ops = w.drawOps(t, ownerMap(c.Init), 1, 12)
				case "legacy", "translate":
					if j.Kind == "legacy" {
						j.Own = rapid.IntRange(0, 3).Draw(t, "own") == 0
						j.Ops = w.drawSharedOps(t, 0, 6)
					}
					for k := rapid.IntRange(1, 8).Draw(t, "ntags"); k > 0; k-- {
						j.Tags = append(j.Tags, w.drawTag(t))
					}
				case "encode":
					for k := rapid.IntRange(1, 5).Draw(t, "nitems"); k > 0; k-- {
						j.Items = append(j.Items, drawItem(t))
					}
				}
				c.Jobs = append(c.Jobs, j)
			}
			return c
		}, func(ctx *Ctx, c c23Case) error {
			manyGoroutine = true
			shared := subsOf(c.Init)
			before := shared.Clone()
			errs := make([]error, len(c.Jobs))
			var wg, ready sync.WaitGroup
			start := make(chan struct{})
			sharing, changed := 0, false
			for i, j := range c.Jobs {
				if (j.Kind == "engine" || j.Kind == "legacy") && !j.Own {
					sharing++
				}
				for _, op := range j.Ops {
					changed = changed || op.Kind != "search"
				}
				wg.Add(1)
				ready.Add(1)
				go func() {
					defer wg.Done()
					defer func() {
						if r := recover(); r != nil {
							buf := make([]byte, 4096)
							errs[i] = fmt.Errorf("panic: %v\n%s", r, buf[:runtime.Stack(buf, false)])
						}
					}()
					ready.Done()
					<-start
					errs[i] = runParJob(j, shared, c.Init)
				}()
			}
			ready.Wait()
			close(start)
			wg.Wait()
			for i, err := range errs {
				if err != nil {
					return fmt.Errorf("goroutine %d of %d: %w", i, len(errs), err)
				}
			}
			if len(before) != len(shared) {
				return fmt.Errorf("the shared subscription set was changed: %v, was %v", shared, before)
			}
			ctx.NonTrivialIf(sharing > 1 && changed)
			ctx.LabelIf(len(c.Jobs) > 5, "more than 5 goroutines")
			return nil
		})
}
