package harness

import (
	"fmt"
	"math/rand"

	"github.com/iomz/gosstrak/filtering"
	"pgregory.net/rapid"
)

// Engines with hundreds to thousands of subscriptions. The sets are expanded
// from a drawn seed, as they are too many to draw each.

type crowdCase struct {
	Patterns int `json:"patterns"`
	URIs     int `json:"uris"`
	Families int `json:"families"`
	Tags     int `json:"tags"`
	Batch    int `json:"batch"` // patterns added or deleted at once
	Seed     int `json:"seed"`
}

func drawCrowd(max int) func(t *rapid.T) crowdCase {
	return func(t *rapid.T) crowdCase {
		return crowdCase{
			Patterns: min(max, rapid.SampledFrom([]int{100, 260, 600, 1100, 3000}).Draw(t, "patterns")+rapid.IntRange(0, 99).Draw(t, "more")),
			URIs:     rapid.SampledFrom([]int{1, 5, 70, 300, 2000}).Draw(t, "uris"),
			Families: rapid.SampledFrom([]int{1, 3, 30}).Draw(t, "families"),
			Tags:     rapid.IntRange(20, 150).Draw(t, "tags"),
			Batch:    rapid.SampledFrom([]int{1, 7, 300}).Draw(t, "batch"),
			Seed:     rapid.IntRange(0, 1<<30).Draw(t, "seed"),
		}
	}
}

func digitsFrom(rnd *rand.Rand, n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte('0' + rnd.Intn(10))
	}
	return string(b)
}

func alnumFrom(rnd *rand.Rand, n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = alnum[rnd.Intn(len(alnum))]
	}
	return string(b)
}

// crowdItem makes an item of one of the families.
func (c crowdCase) item(rnd *rand.Rand) Item {
	fam := rand.New(rand.NewSource(int64(c.Seed)*31 + int64(rnd.Intn(c.Families))))
	cp := digitsFrom(fam, 6+fam.Intn(7))
	scheme := allSchemes[fam.Intn(len(allSchemes))]
	few := []int{1, 3, 40}[fam.Intn(3)]
	it := Item{Scheme: scheme}
	s, epc := epcSchemes[scheme]
	switch {
	case epc:
		rd := s.RefDigits - len(cp)
		ref := digitsFrom(fam, rd)
		if rnd.Intn(few) > 0 {
			ref = digitsFrom(rnd, rd)
		}
		it.Fields = []string{fmt.Sprint(fam.Intn(7) + rnd.Intn(2)), cp, ref}
		if ref == "" {
			it.Fields[2] = "0"
		}
		if scheme == "giai-96" {
			it.Fields[2] = fmt.Sprint(rnd.Intn(100000))
		}
		if s.Serial > 0 {
			it.Fields = append(it.Fields, fmt.Sprint(rnd.Int63n(1<<uint(1+rnd.Intn(37)))))
		}
	case scheme == "iso17363":
		it.Fields = []string{"7B", string([]byte{letters[fam.Intn(26)], letters[fam.Intn(26)], letters[rnd.Intn(26)]}), "UJZ"[rnd.Intn(3):][:1], digitsFrom(rnd, 6)}
	default:
		it.Fields = []string{"25S", "UN", alnumFrom(fam, 3) + alnumFrom(rnd, 1+rnd.Intn(2)), alnumFrom(rnd, 1+rnd.Intn(12))}
	}
	return it
}

func (c crowdCase) expand() (rnd *rand.Rand, owned []Owned, items []Item) {
	rnd = rand.New(rand.NewSource(int64(c.Seed)))
	seen := map[string]bool{}
	for try := 0; len(owned) < c.Patterns && try < 4*c.Patterns; try++ {
		it := c.item(rnd)
		items = append(items, it)
		p := prefixPat(it, len(it.Fields)-[]int{0, 0, 0, 1, 2}[rnd.Intn(5)])
		f, ok := refFilter(p)
		if !ok {
			panic(fmt.Sprintf("crowd: malformed %+v", p))
		}
		if seen[f] {
			continue
		}
		seen[f] = true
		owned = append(owned, Owned{uri(rnd.Intn(c.URIs)), p})
	}
	return
}

// expandFor leaves out what the splay tree takes too long for: its construction
// takes time in the third power of the number of patterns under a broad one.
func (c crowdCase) expandFor(name string) (*rand.Rand, []Owned, []Item) {
	rnd, owned, items := c.expand()
	if name == "SplayTree" && len(owned) > 280 {
		owned = owned[:280]
	}
	return rnd, owned, items
}

func (c crowdCase) drawTag(rnd *rand.Rand, items []Item) Tag {
	if rnd.Intn(4) == 0 {
		return c.item(rnd).tag()
	}
	return items[rnd.Intn(len(items))].tag()
}

// drain deletes all but a few of the subscriptions that are left, one after the
// other, searches the tags of all, and adds the first ones again.
func drain(name string, e filtering.Engine, owner map[string]string, c crowdCase, rnd *rand.Rand, owned []Owned, half int) error {
	tags := func(of []Owned) (tags []Tag) {
		for _, k := range rnd.Perm(len(of))[:min(len(of), 200)] {
			o := of[k]
			f, _ := refFilter(o.Pat)
			tags = append(tags, tagUnder(f, rnd))
		}
		return
	}
	few := min([]int{0, 1, 2, 9}[rnd.Intn(4)], len(owned)-half)
	for i := half; i < len(owned)-few; i++ {
		e.DeleteSubscription(subsOf(owned[i : i+1]))
		f, _ := refFilter(owned[i].Pat)
		delete(owner, f)
	}
	if err := sweep(name, e, owner, tags(owned), fmt.Sprintf("%d subscriptions left", len(owner))); err != nil {
		return err
	}
	for rest := owned[:half]; len(rest) > 0; {
		n := min(c.Batch, len(rest))
		e.AddSubscription(subsOf(rest[:n]))
		for f, u := range ownerMap(rest[:n]) {
			owner[f] = u
		}
		rest = rest[n:]
	}
	return sweep(name, e, owner, tags(owned), "added again")
}

// tagUnder makes an identifier that begins with the bits.
func tagUnder(bits string, rnd *rand.Rand) Tag {
	id := make([]byte, max(12, (len(bits)+7)/8))
	rnd.Read(id)
	for i, b := range bits {
		m := byte(0x80 >> (i % 8))
		id[i/8] &^= m
		if b == '1' {
			id[i/8] |= m
		}
	}
	return mkTag([]byte{byte(len(id)/2<<3) & 0xf8, 0}, id)
}

func init() {
	rule := "100 to 3000 subscriptions of one to thirty families of tags, made from a drawn seed: "
	nonTrivial := "; non-trivial: more than 256 subscriptions and a tag that matches"
	search := func(name string, e filtering.Engine, owner map[string]string, c crowdCase, rnd *rand.Rand, items []Item, ctx *Ctx) error {
		for i := 0; i < c.Tags; i++ {
			tag := c.drawTag(rnd, items)
			if err := checkSearch(name, e, owner, tag); err != nil {
				return err
			}
			_, id := tag.bytes()
			ctx.NonTrivialIf(len(owner) > 256 && len(expectURIs(owner, id)) > 0)
		}
		return nil
	}
	register(spec{ID: "C01", Name: "crowd", Quick: 6, Thorough: 150, Shards: 8,
		Rule: rule + "searches on each bit-prefix engine" + nonTrivial},
		drawCrowd(1300), func(ctx *Ctx, c crowdCase) error {
			for _, name := range byteEngines {
				rnd, owned, items := c.expandFor(name)
				if err := search(name, newEngine(name, subsOf(owned)), ownerMap(owned), c, rnd, items, ctx); err != nil {
					return err
				}
			}
			return nil
		})
	register(spec{ID: "C02", Name: "crowd", Quick: 5, Thorough: 120, Shards: 8,
		Rule: rule + "half of them at first, the others added, and about half of all deleted in batches, then all but a few of the others one after the other, and the first ones added again, with searches between, on each bit-prefix engine" + nonTrivial},
		drawCrowd(1500), func(ctx *Ctx, c crowdCase) error {
			for _, name := range byteEngines {
				rnd, owned, items := c.expandFor(name)
				half := len(owned) / 2
				e := newEngine(name, subsOf(owned[:half]))
				owner := ownerMap(owned[:half])
				for rest := owned[half:]; len(rest) > 0; {
					n := min(c.Batch, len(rest))
					e.AddSubscription(subsOf(rest[:n]))
					for f, u := range ownerMap(rest[:n]) {
						owner[f] = u
					}
					rest = rest[n:]
				}
				if err := search(name, e, owner, c, rnd, items, ctx); err != nil {
					return fmt.Errorf("after the additions: %w", err)
				}
				rnd.Shuffle(len(owned), func(i, k int) { owned[i], owned[k] = owned[k], owned[i] })
				for rest := owned[:half]; len(rest) > 0; {
					n := min(c.Batch, len(rest))
					e.DeleteSubscription(subsOf(rest[:n]))
					for f := range ownerMap(rest[:n]) {
						delete(owner, f)
					}
					rest = rest[n:]
				}
				if err := search(name, e, owner, c, rnd, items, ctx); err != nil {
					return fmt.Errorf("after the deletions: %w", err)
				}
				if err := drain(name, e, owner, c, rnd, owned, half); err != nil {
					return err
				}
			}
			return nil
		})
	register(spec{ID: "C03", Name: "crowd", Quick: 5, Thorough: 120, Shards: 8,
		Rule: rule + "saved and restored, then searched and one half deleted from the restored engine, then all but a few of the others, and the first ones added again, each bit-prefix engine" + nonTrivial},
		drawCrowd(1300), func(ctx *Ctx, c crowdCase) error {
			for _, name := range byteEngines {
				rnd, owned, items := c.expandFor(name)
				e := newEngine(name, subsOf(owned))
				for i := 0; i < c.Batch%50; i++ {
					_, _, _ = e.Search(c.drawTag(rnd, items).event())
				}
				data, err := e.MarshalBinary()
				if err != nil {
					return fmt.Errorf("%s: saving: %v", name, err)
				}
				r := newEngine(name, filtering.Subscriptions{})
				if err := r.UnmarshalBinary(data); err != nil {
					return fmt.Errorf("%s: restoring: %v", name, err)
				}
				owner := ownerMap(owned)
				if err := search(name, r, owner, c, rnd, items, ctx); err != nil {
					return fmt.Errorf("restored: %w", err)
				}
				half := owned[:len(owned)/2]
				r.DeleteSubscription(subsOf(half))
				for f := range ownerMap(half) {
					delete(owner, f)
				}
				if err := search(name, r, owner, c, rnd, items, ctx); err != nil {
					return fmt.Errorf("restored, one half deleted: %w", err)
				}
				if err := drain(name, r, owner, c, rnd, owned, len(owned)/2); err != nil {
					return fmt.Errorf("restored: %w", err)
				}
			}
			return nil
		})
	register(spec{ID: "C04", Name: "crowd", Quick: 5, Thorough: 120, Shards: 8,
		Rule: rule + "half of them at first, the others added, some deleted, with searches between, on the text-matching engine" + nonTrivial},
		drawCrowd(1200), func(ctx *Ctx, c crowdCase) error {
			rnd, owned, items := c.expand()
			m := sharedModel{}
			half := len(owned) / 2
			e := newEngine("LegacyEngine", subsOf(owned[:half]))
			for _, o := range owned {
				m.add(o)
			}
			for rest := owned[half:]; len(rest) > 0; {
				n := min(c.Batch, len(rest))
				e.AddSubscription(subsOf(rest[:n]))
				rest = rest[n:]
			}
			check := func(when string) error {
				for i := 0; i < c.Tags; i++ {
					tag := c.drawTag(rnd, items)
					if err := checkLegacySearch(e, m, tag); err != nil {
						return fmt.Errorf("%s: %w", when, err)
					}
					u, _, _ := m.expect(tag)
					ctx.NonTrivialIf(len(owned) > 256 && len(u) > 0)
				}
				return nil
			}
			if err := check("after the additions"); err != nil {
				return err
			}
			rnd.Shuffle(len(owned), func(i, k int) { owned[i], owned[k] = owned[k], owned[i] })
			for rest := owned[:half]; len(rest) > 0; {
				n := min(c.Batch, len(rest))
				e.DeleteSubscription(subsOf(rest[:n]))
				for _, o := range rest[:n] {
					m.del(o)
				}
				rest = rest[n:]
			}
			return check("after the deletions")
		})
	register(spec{ID: "C21", Name: "crowd", Quick: 5, Thorough: 120, Shards: 8,
		Rule: rule + "the dump after construction, searches, additions and deletions (of one half at once, then of each of the others) shows exactly the current ones, each bit-prefix engine; non-trivial: more than 256 subscriptions"},
		drawCrowd(2000), func(ctx *Ctx, c crowdCase) error {
			for _, name := range byteEngines {
				rnd, owned, items := c.expandFor(name)
				half := len(owned) / 2
				e := newEngine(name, subsOf(owned[:half]))
				owner := ownerMap(owned[:half])
				if err := checkDump(name, e, owner, "after construction"); err != nil {
					return clipErr(err)
				}
				e.AddSubscription(subsOf(owned[half:]))
				for f, u := range ownerMap(owned[half:]) {
					owner[f] = u
				}
				for i := 0; i < c.Tags; i++ {
					_, _, _ = e.Search(c.drawTag(rnd, items).event())
				}
				if err := checkDump(name, e, owner, "after additions and searches"); err != nil {
					return clipErr(err)
				}
				ctx.NonTrivialIf(len(owner) > 256)
				rnd.Shuffle(len(owned), func(i, k int) { owned[i], owned[k] = owned[k], owned[i] })
				e.DeleteSubscription(subsOf(owned[:half]))
				for f := range ownerMap(owned[:half]) {
					delete(owner, f)
				}
				if err := checkDump(name, e, owner, "after deletions"); err != nil {
					return clipErr(err)
				}
				for i := half; i < len(owned); i++ {
					e.DeleteSubscription(subsOf(owned[i : i+1]))
					f, _ := refFilter(owned[i].Pat)
					delete(owner, f)
					if left := len(owned) - 1 - i; left < 3 || left&(left-1) == 0 {
						if err := checkDump(name, e, owner, fmt.Sprintf("%d left", left)); err != nil {
							return clipErr(err)
						}
					}
				}
			}
			return nil
		})
}
