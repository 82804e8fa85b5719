package harness

import (
	"fmt"
	"math/rand"
	"regexp"
	"strconv"
	"strings"

	"github.com/iomz/gosstrak/filtering"
	"pgregory.net/rapid"
)

// Op is one step of an engine history.
type Op struct {
	Kind string  `json:"k"` // add, del, search, dump
	Subs []Owned `json:"s,omitempty"`
	Tag  *Tag    `json:"t,omitempty"`
}

// opts of drawOps
type opOpt struct {
	search bool
}

// drawPatNew draws a pattern, sometimes from outside of the world.
func (w world) drawPatAny(t *rapid.T) Pat {
	if rapid.IntRange(0, 9).Draw(t, "foreign") == 0 {
		it := drawItem(t)
		return prefixPat(it, rapid.IntRange(1, len(it.Fields)).Draw(t, "depth"))
	}
	return w.drawPat(t)
}

// drawOps draws a history. owner is the model, updated along the way; no
// addition takes over a filter that another URI owns (known finding
// shared-filter), everything else is allowed.
func (w world) drawOps(t *rapid.T, owner map[string]string, min, max int) []Op {
	n := rapid.IntRange(min, max).Draw(t, "nops")
	var ops []Op
	pats := map[string]Pat{} // filter -> a pattern that stands for it
	for i := 0; i < n; i++ {
		k := rapid.SampledFrom([]string{"search", "search", "search", "add", "add", "del", "del"}).Draw(t, "op")
		switch k {
		case "search":
			tag := w.drawTag(t)
			ops = append(ops, Op{Kind: k, Tag: &tag})
		case "add":
			m := rapid.IntRange(1, 3).Draw(t, "nadd")
			op := Op{Kind: k}
			for j := 0; j < m; j++ {
				p := w.drawPatAny(t)
				f, ok := refFilter(p)
				if !ok {
					panic("drawOps: malformed")
				}
				u := uri(rapid.IntRange(0, 5).Draw(t, "uri"))
				if o, has := owner[f]; has {
					u = o
				}
				owner[f] = u
				pats[f] = p
				op.Subs = append(op.Subs, Owned{u, p})
			}
			ops = append(ops, op)
		case "del":
			m := rapid.IntRange(1, 3).Draw(t, "ndel")
			op := Op{Kind: k}
			seen := map[string]bool{}
			for j := 0; j < m; j++ {
				p := w.drawPatAny(t)
				f, _ := refFilter(p)
				if seen[f] {
					continue
				}
				seen[f] = true
				u := uri(rapid.IntRange(0, 5).Draw(t, "uri"))
				if o, has := owner[f]; has && rapid.IntRange(0, 4).Draw(t, "right") != 0 {
					u = o
				}
				if owner[f] == u {
					delete(owner, f)
				}
				op.Subs = append(op.Subs, Owned{u, p})
			}
			ops = append(ops, op)
		}
	}
	return ops
}

// histStats says what a history exercised.
type histStats struct {
	hit, miss, adds, realDel, noopDel, dels, broader, emptied int
}

// runOps executes a history on an engine against the model and updates owner.
func runOps(name string, e filtering.Engine, owner map[string]string, ops []Op, st *histStats, check func(when string) error) error {
	for i, op := range ops {
		switch op.Kind {
		case "search":
			if err := checkSearch(name, e, owner, *op.Tag); err != nil {
				return fmt.Errorf("op %d: %w", i, err)
			}
			_, id := op.Tag.bytes()
			if len(expectURIs(owner, id)) > 0 {
				st.hit++
			} else {
				st.miss++
			}
		case "add":
			e.AddSubscription(subsOf(op.Subs))
			st.adds++
			for _, o := range op.Subs {
				f, _ := refFilter(o.Pat)
				for g := range owner {
					if len(g) > len(f) && strings.HasPrefix(g, f) {
						st.broader++
						break
					}
				}
				owner[f] = o.URI
			}
		case "del":
			e.DeleteSubscription(subsOf(op.Subs))
			st.dels++
			for _, o := range op.Subs {
				f, _ := refFilter(o.Pat)
				if owner[f] == o.URI {
					delete(owner, f)
					st.realDel++
				} else {
					st.noopDel++
				}
			}
			if len(owner) == 0 {
				st.emptied++
			}
		}
		if check != nil {
			if err := check(fmt.Sprintf("after op %d (%s)", i, op.Kind)); err != nil {
				return err
			}
		}
	}
	return nil
}

func copyOwner(m map[string]string) map[string]string {
	c := map[string]string{}
	for k, v := range m {
		c[k] = v
	}
	return c
}

// sweep searches every tag.
func sweep(name string, e filtering.Engine, owner map[string]string, tags []Tag, when string) error {
	for _, tag := range tags {
		if err := checkSearch(name, e, owner, tag); err != nil {
			return fmt.Errorf("%s: %w", when, err)
		}
	}
	return nil
}

func (w world) tags() []Tag {
	var out []Tag
	for _, it := range w.items {
		out = append(out, it.tag())
	}
	return out
}

// ---- C02 ---------------------------------------------------------------------

type c02Case struct {
	Init []Owned `json:"init"`
	Ops  []Op    `json:"ops"`
	Tags []Tag   `json:"tags"`
}

func registerC02(name string, quick, thorough, items, pats, ops int) {
	register(spec{ID: "C02", Name: name,
		Rule:  fmt.Sprintf("initial set of up to %d patterns of related tags and a history of up to %d additions, deletions (existing, absent, under a wrong URI) and searches on each bit-prefix engine, every search compared with a filter-to-URI map, then every tag of the universe searched twice; non-trivial: the history has an effective deletion and an addition and both a hit and a miss", pats, ops),
		Quick: quick, Thorough: thorough, Shards: 8},
		func(t *rapid.T) c02Case {
			w := drawWorld(t, items)
			w.spell = true
			c := c02Case{Init: w.drawOwned(t, 0, pats), Tags: w.tags()}
			c.Ops = w.drawOps(t, ownerMap(c.Init), 1+ops/100*50, ops)
			return c
		},
		func(ctx *Ctx, c c02Case) error {
			var st histStats
			for _, name := range byteEngines {
				st = histStats{}
				owner := ownerMap(c.Init)
				e := newEngine(name, subsOf(c.Init))
				if err := runOps(name, e, owner, c.Ops, &st, nil); err != nil {
					return err
				}
				for k := 0; k < 2; k++ {
					if err := sweep(name, e, owner, c.Tags, "after the history"); err != nil {
						return err
					}
				}
			}
			ctx.NonTrivialIf(st.adds > 0 && st.realDel > 0 && st.hit > 0 && st.miss > 0)
			ctx.LabelIf(st.noopDel > 0, "deletion without effect")
			ctx.LabelIf(st.broader > 0, "addition of a broader pattern")
			ctx.LabelIf(st.emptied > 0, "emptied by deletion")
			return nil
		})
}

func init() {
	registerC02("history", 4000, 80000, 5, 6, 25)
	registerC02("large", 200, 6000, 25, 60, 80)
	registerC02("long", 100, 3000, 3, 6, 300)
	registerStorm("C01", 5, 100)
	registerStorm("C02", 5, 100)
}

type stormCase struct {
	Init  []Owned `json:"init"`
	Ops   []Op    `json:"ops"` // none for C01
	Tags  []Tag   `json:"tags"`
	Count int     `json:"count"` // searches before, between and after the operations
	Seed  int     `json:"seed"`
}

// registerStorm: many thousand searches of one engine.
func registerStorm(id string, quick, thorough int) {
	register(spec{ID: id, Name: "storm",
		Rule:  "a set of subscriptions (C02: and a history of additions and deletions) with up to 70000 searches in all, of related tags in an order made from a drawn seed, on each bit-prefix engine; non-trivial: more than 3000 searches, some tag matches and some does not",
		Quick: quick, Thorough: thorough, Shards: 8},
		func(t *rapid.T) stormCase {
			w := drawWorld(t, 8)
			c := stormCase{Init: w.drawOwned(t, 0, 12), Tags: w.tags(), Seed: rapid.IntRange(0, 1<<30).Draw(t, "seed")}
			for i := 0; i < 4; i++ {
				c.Tags = append(c.Tags, w.drawTag(t))
			}
			total := rapid.SampledFrom([]int{4000, 4000, 20000, 70000}).Draw(t, "total")
			if id == "C02" {
				for _, op := range w.drawOps(t, ownerMap(c.Init), 4, 30) {
					if op.Kind != "search" {
						c.Ops = append(c.Ops, op)
					}
				}
			}
			c.Count = total / (len(c.Ops) + 1)
			return c
		},
		func(ctx *Ctx, c stormCase) error {
			hit, miss := false, false
			for _, name := range byteEngines {
				rnd := rand.New(rand.NewSource(int64(c.Seed)))
				owner := ownerMap(c.Init)
				e := newEngine(name, subsOf(c.Init))
				storm := func(when string) error {
					if err := sweep(name, e, owner, c.Tags, when); err != nil {
						return err
					}
					want := make([][]string, len(c.Tags))
					idents, errs := make([]string, len(c.Tags)), make([]bool, len(c.Tags))
					for i, tag := range c.Tags {
						_, id := tag.bytes()
						want[i] = expectURIs(owner, id)
						hit, miss = hit || len(want[i]) > 0, miss || len(want[i]) == 0
						ident, _, err := e.Search(tag.reread())
						idents[i], errs[i] = ident, err != nil
					}
					at := rnd.Intn(len(c.Tags))
					for n := 0; n < c.Count; n++ {
						if rnd.Intn(4) > 0 { // some tags come in series
							at = rnd.Intn(len(c.Tags))
						}
						ident, uris, err := e.Search(c.Tags[at].reread())
						if !sameSet(uris, want[at]) || ident != idents[at] || (err != nil) != errs[at] {
							return fmt.Errorf("%s: search %d %s: id %s reported %q as %q (%v), want %q as %q", name, n, when, c.Tags[at].ID, uris, ident, err, want[at], idents[at])
						}
					}
					return sweep(name, e, owner, c.Tags, when)
				}
				if err := storm("after construction"); err != nil {
					return err
				}
				for i := range c.Ops {
					if err := runOps(name, e, owner, c.Ops[i:i+1], &histStats{}, nil); err != nil {
						return err
					}
					if err := storm(fmt.Sprintf("after op %d", i)); err != nil {
						return err
					}
				}
			}
			ctx.NonTrivialIf(c.Count*(len(c.Ops)+1) > 3000 && hit && miss)
			return nil
		})
}

// ---- C21 ---------------------------------------------------------------------

func registerC21(name string, quick, thorough, items, pats, ops int) {
	register(spec{ID: "C21", Name: name,
		Rule:  "histories as in C02 on each bit-prefix engine; after the construction and after every step the dump is parsed back (paths joined) and compared with the filter-to-URI map; non-trivial: an addition and an effective deletion, and at least two subscriptions nest at the start or the end",
		Quick: quick, Thorough: thorough, Shards: 8},
		func(t *rapid.T) c02Case {
			w := drawWorld(t, items)
			c := c02Case{Init: w.drawOwned(t, 0, pats)}
			c.Ops = w.drawOps(t, ownerMap(c.Init), 1, ops)
			return c
		},
		func(ctx *Ctx, c c02Case) error {
			var st histStats
			nest := nests(ownerMap(c.Init))
			for _, name := range byteEngines {
				st = histStats{}
				owner := ownerMap(c.Init)
				e := newEngine(name, subsOf(c.Init))
				if err := checkDump(name, e, owner, "after construction"); err != nil {
					return err
				}
				err := runOps(name, e, owner, c.Ops, &st, func(when string) error {
					return checkDump(name, e, owner, when)
				})
				if err != nil {
					return err
				}
				nest += nests(owner)
			}
			ctx.NonTrivialIf(st.adds > 0 && st.realDel > 0 && nest > 0)
			ctx.LabelIf(st.emptied > 0, "emptied by deletion")
			return nil
		})
}

type dumpNode struct{ base, frag, uri string }

var dumpLine = regexp.MustCompile(`^( *)(ok|ng)?--([01]*)\((\d+) (\d+)\) ?(?:-> )?(.*)$`)

// parseDump returns the prefix-to-URI map that a dump shows.
func parseDump(name, dump string) (map[string]string, error) {
	out := map[string]string{}
	var stack []dumpNode
	for _, l := range strings.Split(dump, "\n") {
		if l == "" {
			continue
		}
		m := dumpLine.FindStringSubmatch(l)
		if m == nil {
			return nil, fmt.Errorf("%s: dump line %q is not readable", name, l)
		}
		d := len(m[1]) / 2
		n := dumpNode{frag: m[3], uri: strings.TrimSpace(m[6])}
		if name != "List" {
			if d > len(stack) || d == 0 && len(stack) > 0 {
				return nil, fmt.Errorf("%s: dump line %q has no parent", name, l)
			}
			if d > 0 {
				p := stack[d-1]
				n.base = p.base + p.frag
				if m[2] == "ng" {
					n.base = p.base
				}
			}
			stack = append(stack[:d], n)
		}
		if fmt.Sprint(len(n.base)) != m[4] || fmt.Sprint(len(n.frag)) != m[5] {
			return nil, fmt.Errorf("%s: dump line %q: the prefix is at %d and has %d bits\n%s", name, l, len(n.base), len(n.frag), dump)
		}
		if n.uri == "" {
			continue
		}
		f := n.base + n.frag
		if _, dup := out[f]; dup {
			return nil, fmt.Errorf("%s: dump shows prefix %s twice\n%s", name, f, dump)
		}
		out[f] = n.uri
	}
	return out, nil
}

func sameMap(a, b map[string]string) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if w, ok := b[k]; !ok || w != v {
			return false
		}
	}
	return true
}

func checkDump(name string, e filtering.Engine, owner map[string]string, when string) error {
	got, err := parseDump(name, e.Dump())
	if err != nil {
		return fmt.Errorf("%s: %w", when, err)
	}
	if !sameMap(got, owner) {
		return fmt.Errorf("%s: %s shows %v, want %v\n%s", when, name, got, owner, e.Dump())
	}
	return nil
}

var legacyLine = regexp.MustCompile(`^--(\S+) \[(.*)\]$`)
var quoted = regexp.MustCompile(`"(?:[^"\\]|\\.)*"`)

func parseLegacyDump(dump string) (map[string][]string, error) {
	out := map[string][]string{}
	for _, l := range strings.Split(dump, "\n") {
		if l == "" {
			continue
		}
		m := legacyLine.FindStringSubmatch(l)
		if m == nil {
			return nil, fmt.Errorf("LegacyEngine: dump line %q is not readable", l)
		}
		if _, dup := out[m[1]]; dup {
			return nil, fmt.Errorf("LegacyEngine: dump shows %s twice", m[1])
		}
		for _, q := range quoted.FindAllString(m[2], -1) {
			u, err := strconv.Unquote(q)
			if err != nil {
				return nil, fmt.Errorf("LegacyEngine: dump line %q is not readable", l)
			}
			out[m[1]] = append(out[m[1]], u)
		}
		if len(out[m[1]]) == 0 {
			return nil, fmt.Errorf("LegacyEngine: dump shows %s, which has no subscription", m[1])
		}
	}
	return out, nil
}

func init() {
	registerC21("prefix-engines", 2500, 50000, 5, 8, 20)
	registerC21("large", 150, 4000, 25, 40, 12)

	register(spec{ID: "C21", Name: "legacy",
		Rule:  "histories on the text-matching engine with shared patterns; after every step the dump is parsed back and compared with the URI-to-patterns map; non-trivial: an effective deletion",
		Quick: 2000, Thorough: 40000, Shards: 2},
		func(t *rapid.T) c02Case {
			w := drawWorld(t, 4)
			return c02Case{Init: w.drawShared(t, 0, 6), Ops: w.drawSharedOps(t, 1, 15)}
		},
		func(ctx *Ctx, c c02Case) error {
			model := sharedModel{}
			e := newEngine("LegacyEngine", subsOf(c.Init))
			for _, o := range c.Init {
				model.add(o)
			}
			check := func(when string) error {
				got, err := parseLegacyDump(e.Dump())
				if err != nil {
					return fmt.Errorf("%s: %w", when, err)
				}
				if !model.equal(got) {
					return fmt.Errorf("%s: LegacyEngine shows %v, want %v", when, got, model)
				}
				return nil
			}
			if err := check("after construction"); err != nil {
				return err
			}
			eff := 0
			for i, op := range c.Ops {
				switch op.Kind {
				case "add":
					e.AddSubscription(subsOf(op.Subs))
					for _, o := range op.Subs {
						model.add(o)
					}
				case "del":
					e.DeleteSubscription(subsOf(op.Subs))
					for _, o := range op.Subs {
						if model.del(o) {
							eff++
						}
					}
				case "search":
					e.Search(op.Tag.event())
				}
				if err := check(fmt.Sprintf("after op %d (%s)", i, op.Kind)); err != nil {
					return err
				}
			}
			ctx.NonTrivialIf(eff > 0)
			return nil
		})
}

// sharedModel is URI -> set of patterns; several URIs may hold one pattern.
type sharedModel map[string]map[string]Pat

func (m sharedModel) clone() sharedModel {
	out := sharedModel{}
	for u, ps := range m {
		for _, p := range ps {
			out.add(Owned{u, p})
		}
	}
	return out
}

func (m sharedModel) add(o Owned) {
	if m[o.URI] == nil {
		m[o.URI] = map[string]Pat{}
	}
	m[o.URI][o.Pat.URN()] = o.Pat
}

func (m sharedModel) del(o Owned) bool {
	_, ok := m[o.URI][o.Pat.URN()]
	if ok {
		delete(m[o.URI], o.Pat.URN())
		if len(m[o.URI]) == 0 {
			delete(m, o.URI)
		}
	}
	return ok
}

func (m sharedModel) equal(got map[string][]string) bool {
	if len(m) != len(got) {
		return false
	}
	for u, ps := range m {
		seen := map[string]bool{}
		for _, p := range got[u] {
			seen[p] = true
			if _, ok := ps[p]; !ok {
				return false
			}
		}
		if len(seen) != len(ps) {
			return false
		}
	}
	return true
}

// drawShared draws subscriptions for the text-matching engine: any URI may
// own any pattern.
func (w world) drawShared(t *rapid.T, min, max int) []Owned {
	n := rapid.IntRange(min, max).Draw(t, "nshared")
	var out []Owned
	for i := 0; i < n; i++ {
		out = append(out, Owned{uri(rapid.IntRange(0, 3).Draw(t, "uri")), w.drawPatAny(t)})
	}
	return out
}

func (w world) drawSharedOps(t *rapid.T, min, max int) []Op {
	n := rapid.IntRange(min, max).Draw(t, "nops")
	var ops []Op
	for i := 0; i < n; i++ {
		k := rapid.SampledFrom([]string{"search", "search", "search", "add", "add", "del", "del"}).Draw(t, "op")
		op := Op{Kind: k}
		if k == "search" {
			tag := w.drawTag(t)
			op.Tag = &tag
		} else {
			op.Subs = w.drawShared(t, 1, 3)
		}
		ops = append(ops, op)
	}
	return ops
}

var setLine = regexp.MustCompile(`^( *)--([01]*) (-?\d+) (.*)$`)

// parseSetDump reads the dump of a prefix set back.
func parseSetDump(dump string) (map[string]bnode, error) {
	root := map[string]bnode{}
	stack := []map[string]bnode{root}
	for _, l := range strings.Split(dump, "\n") {
		if l == "" {
			continue
		}
		m := setLine.FindStringSubmatch(l)
		if m == nil {
			return nil, fmt.Errorf("dump line %q is not readable", l)
		}
		d := len(m[1]) / 2
		if d >= len(stack) {
			return nil, fmt.Errorf("dump line %q has no parent\n%s", l, dump)
		}
		off, _ := strconv.Atoi(m[3])
		n := bnode{Offset: off, URI: strings.TrimSpace(m[4]), Subset: map[string]bnode{}}
		if _, dup := stack[d][m[2]]; dup {
			return nil, fmt.Errorf("dump line %q appears twice\n%s", l, dump)
		}
		stack[d][m[2]] = n
		stack = append(stack[:d+1], n.Subset)
	}
	return root, nil
}

func init() {
	register(spec{ID: "C21", Name: "sets",
		Rule:  "arbitrarily nested prefix sets: the dump is parsed back and compared with the set; non-trivial: an entry with a subset",
		Quick: 2500, Thorough: 50000, Shards: 2},
		func(t *rapid.T) map[string]bnode { return drawBnodes(t, 4) },
		func(ctx *Ctx, c map[string]bnode) error {
			b := toBsub(c)
			got, err := parseSetDump(b.Dump())
			if err != nil {
				return err
			}
			if err := sameBsub(toBsub(got), c); err != nil {
				return fmt.Errorf("the dump %w\n%s", err, b.Dump())
			}
			for _, n := range c {
				ctx.NonTrivialIf(len(n.Subset) > 0)
			}
			return nil
		})
}
