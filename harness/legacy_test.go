package harness

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"reflect"
	"strings"

	"github.com/iomz/gosstrak/filtering"
	"pgregory.net/rapid"
)

// textMatch is the reference of the text-matching engine for one pattern in
// canonical spelling: the fields after the filter value are the leading fields
// of the pure identity; for ISO the text is a prefix of the identity's text.
func textMatch(p Pat, urn string) bool {
	rest, ok := strings.CutPrefix(urn, "urn:epc:id:")
	if !ok {
		return false
	}
	i := strings.Index(rest, ":")
	scheme, text := rest[:i], rest[i+1:]
	if _, epc := epcSchemes[p.Scheme]; epc {
		if scheme != strings.TrimSuffix(p.Scheme, "-96") {
			return false
		}
		f := strings.Split(text, ".")
		if len(p.Fields)-1 > len(f) {
			return false
		}
		for k, x := range p.Fields[1:] {
			if f[k] != x {
				return false
			}
		}
		return true
	}
	return scheme == p.Scheme && strings.HasPrefix(text, strings.Join(p.Fields, ""))
}

func (m sharedModel) expect(tag Tag) (uris []string, urn string, ok bool) {
	pc, id := tag.bytes()
	urn, ok = refTranslate(pc, id)
	if !ok {
		return nil, "", false
	}
	for u, ps := range m {
		for _, p := range ps {
			if textMatch(p, urn) {
				uris = append(uris, u)
				break
			}
		}
	}
	return sortedSet(uris), urn, true
}

func checkLegacySearch(e filtering.Engine, m sharedModel, tag Tag) error {
	want, urn, ok := m.expect(tag)
	ident, uris, err := e.Search(tag.reread())
	if !sameSet(want, uris) {
		return fmt.Errorf("LegacyEngine: search of %+v (%s) reported %q, want %q", tag, urn, sortedSet(uris), want)
	}
	defer takeURIs("LegacyEngine", uris)
	if len(want) == 0 {
		if err == nil {
			return fmt.Errorf("LegacyEngine: search of %+v (%s) found nothing and returned no error", tag, urn)
		}
		return nil
	}
	if !ok || err != nil {
		return fmt.Errorf("LegacyEngine: search of %+v (%s) matched and returned error %v", tag, urn, err)
	}
	if ident != urn {
		return fmt.Errorf("LegacyEngine: search of %+v reported identity %q, want %q", tag, ident, urn)
	}
	return nil
}

// shorten makes a tag whose text is cut or extended, or with another AFI.
func (w world) drawTextTag(t *rapid.T) Tag {
	tag := w.drawTag(t)
	pc, id := tag.bytes()
	switch rapid.IntRange(0, 9).Draw(t, "texttag") {
	case 0: // other AFI
		if pc[0]&1 == 1 {
			pc[1] = byte(rapid.IntRange(0x9F, 0xAC).Draw(t, "afi"))
		}
	case 1: // shorter
		id = id[:rapid.IntRange(0, len(id)).Draw(t, "cut")]
	}
	return mkTag(pc, id)
}

func runShared(e filtering.Engine, m sharedModel, ops []Op, hit, miss, eff *int) error {
	for i, op := range ops {
		switch op.Kind {
		case "add":
			e.AddSubscription(subsOf(op.Subs))
			for _, o := range op.Subs {
				m.add(o)
			}
		case "del":
			e.DeleteSubscription(subsOf(op.Subs))
			for _, o := range op.Subs {
				if m.del(o) {
					*eff++
				}
			}
		case "search":
			if err := checkLegacySearch(e, m, *op.Tag); err != nil {
				return fmt.Errorf("op %d: %w", i, err)
			}
			if u, _, _ := m.expect(*op.Tag); len(u) > 0 {
				*hit++
			} else {
				*miss++
			}
		}
	}
	return nil
}

type c04Case struct {
	Init []Owned `json:"init"`
	Ops  []Op    `json:"ops"`
	Tags []Tag   `json:"tags"`
}

func init() {
	register(spec{ID: "C04", Name: "history",
		Rule:  "initial patterns in canonical spelling (several URIs may hold the same) and a history of additions, deletions and searches of related, mutated, truncated and other-AFI tags on the text-matching engine, compared with a field-wise reference; non-trivial: a hit and a miss",
		Quick: 5000, Thorough: 100000, Shards: 8},
		func(t *rapid.T) c04Case {
			w := drawWorld(t, 5)
			c := c04Case{Init: w.drawShared(t, 0, 8)}
			c.Ops = w.drawSharedOps(t, 0, 15)
			n := rapid.IntRange(1, 6).Draw(t, "ntags")
			for i := 0; i < n; i++ {
				c.Tags = append(c.Tags, w.drawTextTag(t))
			}
			return c
		},
		func(ctx *Ctx, c c04Case) error {
			m := sharedModel{}
			for _, o := range c.Init {
				m.add(o)
			}
			e := newEngine("LegacyEngine", subsOf(c.Init))
			hit, miss, eff := 0, 0, 0
			if err := runShared(e, m, c.Ops, &hit, &miss, &eff); err != nil {
				return err
			}
			bad := false
			for _, tag := range c.Tags {
				if err := checkLegacySearch(e, m, tag); err != nil {
					return fmt.Errorf("after the history: %w", err)
				}
				u, _, ok := m.expect(tag)
				bad = bad || !ok
				if len(u) > 0 {
					hit++
				} else {
					miss++
				}
			}
			ctx.NonTrivialIf(hit > 0 && miss > 0)
			ctx.LabelIf(eff > 0, "effective deletion")
			ctx.LabelIf(bad, "tag without identity")
			return nil
		})
}

// ---- C03 ---------------------------------------------------------------------

type c03Case struct {
	Init   []Owned `json:"init"`
	Pre    []Op    `json:"pre"`   // before saving
	Into   string  `json:"into"`  // fresh, zero, used
	Other  []Owned `json:"other"` // subscriptions of the used engine
	Post   []Op    `json:"post"`  // after restoring, on the restored engine
	Orig   []Op    `json:"orig"`  // after saving, on the saved engine
	Rounds int     `json:"rounds"`
	Tags   []Tag   `json:"tags"`
	Cuts   []int   `json:"cuts"` // truncations, per mille of the data
}

var allEngines = []string{"List", "PatriciaTrie", "SplayTree", "LegacyEngine"}

// restoreTarget makes the engine to restore into.
func restoreTarget(name, into string, other []Owned, tags []Tag) filtering.Engine {
	switch into {
	case "zero":
		proto := newEngine(name, filtering.Subscriptions{})
		return reflect.New(reflect.TypeOf(proto).Elem()).Interface().(filtering.Engine)
	case "used":
		e := newEngine(name, subsOf(other))
		for _, tag := range tags {
			e.Search(tag.reread())
		}
		return e
	}
	return newEngine(name, filtering.Subscriptions{})
}

// roundTrip saves e, checks that bad data is refused, and restores.
func roundTrip(name string, e filtering.Engine, c *c03Case) (filtering.Engine, error) {
	saved, err := e.MarshalBinary()
	if err != nil {
		return nil, fmt.Errorf("%s: saving failed: %v", name, err)
	}
	holdBytes("saving of "+name, saved)
	data := append([]byte(nil), saved...)
	keep := append([]byte(nil), data...)
	for _, cut := range c.Cuts {
		n := len(data) * cut / 1000
		if n >= len(data) {
			n = len(data) - 1
		}
		r := restoreTarget(name, c.Into, c.Other, c.Tags)
		if err := r.UnmarshalBinary(append([]byte(nil), data[:n]...)); err == nil {
			return nil, fmt.Errorf("%s: restoring the first %d of %d bytes succeeded", name, n, len(data))
		}
	}
	for _, other := range allEngines {
		if other == name {
			continue
		}
		r := restoreTarget(other, c.Into, c.Other, c.Tags)
		if err := r.UnmarshalBinary(append([]byte(nil), data...)); err == nil {
			return nil, fmt.Errorf("%s restored the data of %s without an error", other, name)
		}
	}
	r := restoreTarget(name, c.Into, c.Other, c.Tags)
	if err := r.UnmarshalBinary(data); err != nil {
		return nil, fmt.Errorf("%s: restoring failed: %v", name, err)
	}
	if !bytes.Equal(data, keep) {
		return nil, fmt.Errorf("%s: restoring changed the data", name)
	}
	// the engine must not live off the caller's buffer
	for i := range data {
		data[i] = 0xFF
	}
	if r.Name() != name {
		return nil, fmt.Errorf("restored %s calls itself %q", name, r.Name())
	}
	return r, nil
}

// savesCase is one engine saved at the start and after every stage.
type savesCase struct {
	Init   []Owned `json:"init"`
	Stages [][]Op  `json:"stages"`
	Order  []int   `json:"order"` // in which the data is restored
	Back   int     `json:"back"`  // the save the engine itself is put back to, -1: none
	Again  []Op    `json:"again"` // afterwards
	Tags   []Tag   `json:"tags"`
}

func seq(n int) []int {
	out := make([]int, n)
	for i := range out {
		out[i] = i
	}
	return out
}

func drawC03(t *rapid.T, w world, c *c03Case) {
	c.Into = rapid.SampledFrom([]string{"fresh", "zero", "used"}).Draw(t, "into")
	c.Rounds = rapid.IntRange(1, 2).Draw(t, "rounds")
	c.Tags = w.tags()
	c.Cuts = rapid.SliceOfN(rapid.IntRange(0, 1000), 0, 3).Draw(t, "cuts")
}

func init() {
	register(spec{ID: "C03", Name: "prefix-engines",
		Rule:  "history, save, restore (into a new, zero or used engine, once or twice), then different histories on the restored and on the saved engine, each compared with its own model; truncations and the data of the other kinds must be refused; non-trivial: something was subscribed when saving and changed before or after",
		Quick: 1500, Thorough: 30000, Shards: 8},
		func(t *rapid.T) c03Case {
			w := drawWorld(t, 5)
			w.spell = true
			c := c03Case{Init: w.drawOwned(t, 0, 8)}
			owner := ownerMap(c.Init)
			c.Pre = w.drawOps(t, owner, 0, 8)
			o2 := copyOwner(owner)
			c.Post = w.drawOps(t, owner, 0, 10)
			c.Orig = w.drawOps(t, o2, 0, 5)
			c.Other = w.drawOwned(t, 0, 4)
			drawC03(t, w, &c)
			return c
		},
		func(ctx *Ctx, c c03Case) error {
			for _, name := range byteEngines {
				owner := ownerMap(c.Init)
				e := newEngine(name, subsOf(c.Init))
				var st histStats
				if err := runOps(name, e, owner, c.Pre, &st, nil); err != nil {
					return err
				}
				n := len(owner)
				r := e
				for k := 0; k < c.Rounds; k++ {
					var err error
					if r, err = roundTrip(name, r, &c); err != nil {
						return err
					}
				}
				if err := sweep(name, r, owner, c.Tags, "right after restoring"); err != nil {
					return err
				}
				o2 := copyOwner(owner)
				if err := runOps(name, r, owner, c.Post, &st, nil); err != nil {
					return fmt.Errorf("restored engine: %w", err)
				}
				if err := runOps(name, e, o2, c.Orig, &st, nil); err != nil {
					return fmt.Errorf("saved engine: %w", err)
				}
				if err := sweep(name, r, owner, c.Tags, "restored engine at the end"); err != nil {
					return err
				}
				if err := sweep(name, e, o2, c.Tags, "saved engine at the end"); err != nil {
					return err
				}
				ctx.NonTrivialIf(n > 0 && st.adds+st.dels > 0)
				ctx.LabelIf(n == 0, "saved empty")
				ctx.Label("into " + c.Into)
			}
			return nil
		})

	register(spec{ID: "C03", Name: "legacy",
		Rule:  "the same on the text-matching engine with shared patterns; non-trivial: something was subscribed when saving",
		Quick: 1500, Thorough: 30000, Shards: 3},
		func(t *rapid.T) c03Case {
			w := drawWorld(t, 4)
			c := c03Case{Init: w.drawShared(t, 0, 6), Pre: w.drawSharedOps(t, 0, 6),
				Post: w.drawSharedOps(t, 0, 6), Orig: w.drawSharedOps(t, 0, 4), Other: w.drawShared(t, 0, 3)}
			drawC03(t, w, &c)
			return c
		},
		func(ctx *Ctx, c c03Case) error {
			const name = "LegacyEngine"
			m := sharedModel{}
			for _, o := range c.Init {
				m.add(o)
			}
			e := newEngine(name, subsOf(c.Init))
			var hit, miss, eff int
			if err := runShared(e, m, c.Pre, &hit, &miss, &eff); err != nil {
				return err
			}
			n := len(m)
			r := e
			for k := 0; k < c.Rounds; k++ {
				var err error
				if r, err = roundTrip(name, r, &c); err != nil {
					return err
				}
			}
			m2 := sharedModel{}
			for u, ps := range m {
				for _, p := range ps {
					m2.add(Owned{u, p})
				}
			}
			for _, x := range []struct {
				what string
				e    filtering.Engine
				m    sharedModel
				ops  []Op
			}{{"restored engine", r, m, c.Post}, {"saved engine", e, m2, c.Orig}} {
				for _, tag := range c.Tags {
					if err := checkLegacySearch(x.e, x.m, tag); err != nil {
						return fmt.Errorf("%s: %w", x.what, err)
					}
				}
				if err := runShared(x.e, x.m, x.ops, &hit, &miss, &eff); err != nil {
					return fmt.Errorf("%s: %w", x.what, err)
				}
				for _, tag := range c.Tags {
					if err := checkLegacySearch(x.e, x.m, tag); err != nil {
						return fmt.Errorf("%s at the end: %w", x.what, err)
					}
				}
			}
			ctx.NonTrivialIf(n > 0)
			ctx.Label("into " + c.Into)
			return nil
		})

	register(spec{ID: "C03", Name: "saves",
		Rule:  "one engine saved several times along its history, every data kept as handed out and restored later, in any order, after the later saves: each must give the subscriptions of its moment; non-trivial: the subscriptions differ between two saves",
		Quick: 1500, Thorough: 30000, Shards: 4},
		func(t *rapid.T) savesCase {
			w := drawWorld(t, 5)
			w.spell = true
			c := savesCase{Init: w.drawOwned(t, 0, 6), Tags: w.tags()}
			owner := ownerMap(c.Init)
			owners := []map[string]string{copyOwner(owner)}
			n := rapid.IntRange(1, 4).Draw(t, "stages")
			for i := 0; i < n; i++ {
				c.Stages = append(c.Stages, w.drawOps(t, owner, 0, 4))
				owners = append(owners, copyOwner(owner))
			}
			c.Order = rapid.Permutation(seq(n+1)).Draw(t, "order")
			c.Back = rapid.IntRange(-1, n).Draw(t, "back")
			if c.Back >= 0 {
				c.Again = w.drawOps(t, owners[c.Back], 0, 3)
			}
			return c
		},
		func(ctx *Ctx, c savesCase) error {
			for _, name := range byteEngines {
				owner := ownerMap(c.Init)
				e := newEngine(name, subsOf(c.Init))
				var st histStats
				var datas [][]byte
				var owners []map[string]string
				save := func() error {
					data, err := e.MarshalBinary()
					if err != nil {
						return fmt.Errorf("%s: save %d failed: %v", name, len(datas)+1, err)
					}
					datas, owners = append(datas, data), append(owners, copyOwner(owner))
					return nil
				}
				if err := save(); err != nil {
					return err
				}
				for i, ops := range c.Stages {
					if err := runOps(name, e, owner, ops, &st, nil); err != nil {
						return err
					}
					if err := save(); err != nil {
						return err
					}
					ctx.NonTrivialIf(!reflect.DeepEqual(owners[i], owners[i+1]))
				}
				for _, i := range c.Order {
					r := newEngine(name, filtering.Subscriptions{})
					if err := r.UnmarshalBinary(datas[i]); err != nil {
						return fmt.Errorf("%s: restoring save %d of %d failed: %v", name, i+1, len(datas), err)
					}
					if err := sweep(name, r, copyOwner(owners[i]), c.Tags, fmt.Sprintf("restored from save %d of %d", i+1, len(datas))); err != nil {
						return err
					}
				}
				if err := sweep(name, e, copyOwner(owner), c.Tags, "saved engine at the end"); err != nil {
					return err
				}
				if c.Back < 0 {
					continue
				}
				// back to an earlier state, in the engine that was saved
				if err := e.UnmarshalBinary(datas[c.Back]); err != nil {
					return fmt.Errorf("%s: restoring save %d into the saved engine failed: %v", name, c.Back+1, err)
				}
				owner = copyOwner(owners[c.Back])
				if err := sweep(name, e, owner, c.Tags, "saved engine put back to an earlier save"); err != nil {
					return err
				}
				if err := runOps(name, e, owner, c.Again, &st, nil); err != nil {
					return fmt.Errorf("engine put back: %w", err)
				}
				if err := save(); err != nil {
					return err
				}
				r := newEngine(name, filtering.Subscriptions{})
				if err := r.UnmarshalBinary(datas[len(datas)-1]); err != nil {
					return fmt.Errorf("%s: restoring the last save failed: %v", name, err)
				}
				if err := sweep(name, r, owner, c.Tags, "restored from the last save"); err != nil {
					return err
				}
				ctx.Label("put back")
			}
			return nil
		})

	register(spec{ID: "C03", Name: "legacy-saves",
		Rule:  "the same on the text-matching engine with shared patterns; non-trivial: the subscriptions differ between two saves",
		Quick: 1500, Thorough: 30000, Shards: 2},
		func(t *rapid.T) savesCase {
			w := drawWorld(t, 4)
			c := savesCase{Init: w.drawShared(t, 0, 5), Tags: w.tags()}
			n := rapid.IntRange(1, 4).Draw(t, "stages")
			for i := 0; i < n; i++ {
				c.Stages = append(c.Stages, w.drawSharedOps(t, 0, 4))
			}
			c.Order = rapid.Permutation(seq(n+1)).Draw(t, "order")
			c.Back = rapid.IntRange(-1, n).Draw(t, "back")
			c.Again = w.drawSharedOps(t, 0, 3)
			return c
		},
		func(ctx *Ctx, c savesCase) error {
			const name = "LegacyEngine"
			m := sharedModel{}
			for _, o := range c.Init {
				m.add(o)
			}
			e := newEngine(name, subsOf(c.Init))
			var hit, miss, eff int
			var datas [][]byte
			var models []sharedModel
			save := func() error {
				data, err := e.MarshalBinary()
				if err != nil {
					return fmt.Errorf("%s: save %d failed: %v", name, len(datas)+1, err)
				}
				datas, models = append(datas, data), append(models, m.clone())
				return nil
			}
			if err := save(); err != nil {
				return err
			}
			for i, ops := range c.Stages {
				if err := runShared(e, m, ops, &hit, &miss, &eff); err != nil {
					return err
				}
				if err := save(); err != nil {
					return err
				}
				ctx.NonTrivialIf(!reflect.DeepEqual(models[i], models[i+1]))
			}
			look := func(e filtering.Engine, m sharedModel, what string) error {
				for _, tag := range c.Tags {
					if err := checkLegacySearch(e, m, tag); err != nil {
						return fmt.Errorf("%s: %w", what, err)
					}
				}
				return nil
			}
			for _, i := range c.Order {
				r := newEngine(name, filtering.Subscriptions{})
				if err := r.UnmarshalBinary(datas[i]); err != nil {
					return fmt.Errorf("%s: restoring save %d of %d failed: %v", name, i+1, len(datas), err)
				}
				if err := look(r, models[i], fmt.Sprintf("restored from save %d of %d", i+1, len(datas))); err != nil {
					return err
				}
			}
			if err := look(e, m, "saved engine at the end"); err != nil {
				return err
			}
			if c.Back < 0 {
				return nil
			}
			if err := e.UnmarshalBinary(datas[c.Back]); err != nil {
				return fmt.Errorf("%s: restoring save %d into the saved engine failed: %v", name, c.Back+1, err)
			}
			m = models[c.Back].clone()
			if err := look(e, m, "saved engine put back to an earlier save"); err != nil {
				return err
			}
			if err := runShared(e, m, c.Again, &hit, &miss, &eff); err != nil {
				return fmt.Errorf("engine put back: %w", err)
			}
			if err := save(); err != nil {
				return err
			}
			r := newEngine(name, filtering.Subscriptions{})
			if err := r.UnmarshalBinary(datas[len(datas)-1]); err != nil {
				return fmt.Errorf("%s: restoring the last save failed: %v", name, err)
			}
			return look(r, m, "restored from the last save")
		})

	register(spec{ID: "C03", Name: "junk",
		Rule:  "saved data of one kind with a foreign kind name or arbitrary bytes given to every kind; restoring must return an error, not panic; non-trivial: every case",
		Quick: 1500, Thorough: 30000, Shards: 2},
		func(t *rapid.T) string {
			return hex.EncodeToString(rapid.SliceOfN(rapid.Byte(), 0, 40).Draw(t, "junk"))
		},
		func(ctx *Ctx, c string) error {
			b, _ := hex.DecodeString(c)
			for _, name := range allEngines {
				e := newEngine(name, filtering.Subscriptions{})
				if err := e.UnmarshalBinary(b); err == nil {
					return fmt.Errorf("%s restored arbitrary bytes without an error", name)
				}
			}
			ctx.NonTrivial()
			return nil
		})
}
