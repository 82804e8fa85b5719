package harness

import (
	"fmt"

	"pgregory.net/rapid"
)

// C01: exact matching.

type c01Case struct {
	Subs []Owned `json:"subs"`
	Tags []Tag   `json:"tags"`
	Seq  []int   `json:"seq"` // order of searches
}

func registerC01(name string, quick, thorough, items, pats, tags int) {
	register(spec{ID: "C01", Name: name,
		Rule:  fmt.Sprintf("sets of up to %d subscriptions from a universe of related tags (nested and sibling patterns of six schemes) and a sequence of searches with repeats, run on List, PatriciaTrie and SplayTree; non-trivial: at least two patterns nest and some tag matches and some does not", pats),
		Quick: quick, Thorough: thorough, Shards: 8},
		func(t *rapid.T) c01Case {
			w := drawWorld(t, items)
			w.spell = true
			c := c01Case{Subs: w.drawOwned(t, pats/50*10, pats)}
			n := rapid.IntRange(1, tags).Draw(t, "ntags")
			for i := 0; i < n; i++ {
				c.Tags = append(c.Tags, w.drawTag(t))
			}
			c.Seq = rapid.SliceOfN(rapid.IntRange(0, n-1), 1, 3*tags).Draw(t, "seq")
			return c
		},
		func(ctx *Ctx, c c01Case) error {
			owner := ownerMap(c.Subs)
			nested := nests(owner)
			hit, miss, multi := false, false, false
			for _, name := range byteEngines {
				e := newEngine(name, subsOf(c.Subs))
				if e.Name() != name {
					return fmt.Errorf("engine %q calls itself %q", name, e.Name())
				}
				for _, i := range c.Seq {
					if err := checkSearch(name, e, owner, c.Tags[i]); err != nil {
						return err
					}
					_, id := c.Tags[i].bytes()
					n := len(expectURIs(owner, id))
					hit, miss, multi = hit || n > 0, miss || n == 0, multi || n > 1
				}
			}
			ctx.NonTrivialIf(nested > 0 && hit && miss)
			ctx.LabelIf(nested > 0, "nested patterns")
			ctx.LabelIf(nested > 2, "more than two nestings")
			ctx.LabelIf(multi, "tag with several subscribers")
			ctx.LabelIf(len(owner) == 0, "no subscription")
			ctx.LabelIf(len(owner) == 1, "single subscription")
			ctx.LabelIf(len(owner) > 40, "more than 40 subscriptions")
			ctx.LabelIf(len(owner) > 256, "more than 256 subscriptions")
			ctx.LabelIf(len(owner) > 1024, "more than 1024 subscriptions")
			return nil
		})

}

func init() {
	registerC01("search", 6000, 120000, 6, 14, 8)
	registerC01("large", 80, 2500, 120, 400, 30)
	registerProbe("C01", "shared-filter", func() (bool, string) {
		a := Owned{uri(0), Pat{"sgtin-96", []string{"3", "0614141"}}}
		b := Owned{uri(1), Pat{"sgtin-96", []string{"3", "0614141"}}}
		tag := Item{"sgtin-96", []string{"3", "0614141", "812345", "6789"}}.tag()
		for _, name := range byteEngines {
			e := newEngine(name, subsOf([]Owned{a, b}))
			_, uris, _ := e.Search(tag.event())
			if !sameSet(uris, []string{uri(0), uri(1)}) {
				return true, fmt.Sprintf("%s: two subscribers of one pattern, reported only %q", name, uris)
			}
		}
		return false, ""
	})
}

// nests counts the pairs of filters where one is a proper prefix of the other.
func nests(owner map[string]string) int {
	n := 0
	for a := range owner {
		for b := range owner {
			if a != b && len(a) < len(b) && b[:len(a)] == a {
				n++
			}
		}
	}
	return n
}
