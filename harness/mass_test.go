package harness

import (
	"fmt"
	"math/rand"

	"github.com/iomz/gosstrak/filtering"
	"github.com/iomz/gosstrak/tdt"
	"pgregory.net/rapid"
)

// Many different tags for one translator or engine, and many changes of one
// engine: what is remembered from tag to tag, and what wears out. The tags and
// changes are made from a drawn seed.

type massCase struct {
	crowdCase
	N   int    `json:"n"`
	Mix string `json:"mix"` // what most of the tags are: epc or iso
}

func drawMass(patterns, uris []int, n ...int) func(t *rapid.T) massCase {
	return func(t *rapid.T) massCase {
		return massCase{crowdCase{
			Patterns: rapid.SampledFrom(patterns).Draw(t, "patterns"),
			URIs:     rapid.SampledFrom(uris).Draw(t, "uris"),
			Families: rapid.SampledFrom([]int{1, 3, 30}).Draw(t, "families"),
			Seed:     rapid.IntRange(0, 1<<30).Draw(t, "seed"),
		}, rapid.SampledFrom(n).Draw(t, "n"), rapid.SampledFrom([]string{"", "epc", "iso"}).Draw(t, "mix")}
	}
}

// tag makes a tag of a family, or one that shares only its header.
func (c massCase) tag(rnd *rand.Rand) (pc, id []byte) {
	k := rnd.Intn(6)
	switch {
	case c.Mix == "epc" && k > 3:
		k = 0
	case c.Mix == "iso" && k > 3:
		k = 1
	}
	switch k {
	case 0:
		pc, id = []byte{0x30, 0}, make([]byte, 12)
		rnd.Read(id)
		id[0] = []byte{0x30, 0x31, 0x33, 0x34}[rnd.Intn(4)]
		return
	case 1:
		id = make([]byte, 2+2*rnd.Intn(12))
		rnd.Read(id)
		return []byte{byte(len(id)/2<<3) | 1, byte(0xA0 + rnd.Intn(13))}, id
	case 2: // a neighbour, so that sums of the bytes coincide
		pc, id = c.item(rnd).tag().bytes()
		at := len(id) - 1 - rnd.Intn(min(4, len(id)-1))
		id[at]++
		id[at-1]--
		return
	}
	return c.item(rnd).tag().bytes()
}

func init() {
	for _, id := range []string{"C05", "C06"} {
		register(spec{ID: id, Name: "mass", Quick: 1, Thorough: 12, Shards: 4,
			Rule: "30000 to 200000 different EPC and ISO tags made from a drawn seed, translated one after the other by one core, then some of them again; non-trivial: more than 65536"},
			drawMass([]int{0}, []int{1}, 30000, 100000, 200000),
			func(ctx *Ctx, c massCase) error {
				c.Mix = map[string]string{"C05": "epc", "C06": "iso"}[id]
				core := tdt.NewCore()
				rnd := rand.New(rand.NewSource(int64(c.Seed)))
				type seen struct{ pc, id []byte }
				var again []seen
				for i := 0; i < c.N; i++ {
					pc, id := c.tag(rnd)
					if _, err := checkTranslate(core, pc, id); err != nil {
						return fmt.Errorf("tag %d: %w", i, err)
					}
					if rnd.Intn(10) == 0 {
						again = append(again, seen{pc, id})
					}
				}
				for _, s := range again {
					if _, err := checkTranslate(core, s.pc, s.id); err != nil {
						return fmt.Errorf("again: %w", err)
					}
				}
				ctx.NonTrivialIf(c.N > 1<<16)
				return nil
			})
	}

	register(spec{ID: "C01", Name: "mass", Quick: 1, Thorough: 12, Shards: 4,
		Rule: "20000 to 100000 different tags made from a drawn seed, searched one after the other on each bit-prefix engine with up to 40 subscriptions, then some of them again; non-trivial: some tag matches and some does not"},
		drawMass([]int{1, 8, 40}, []int{1, 5, 70}, 20000, 100000),
		func(ctx *Ctx, c massCase) error {
			for _, name := range byteEngines {
				rnd, owned, _ := c.expandFor(name)
				owner := ownerMap(owned)
				e := newEngine(name, subsOf(owned))
				var again []Tag
				hit, miss := false, false
				for i := 0; i < c.N; i++ {
					pc, id := c.tag(rnd)
					tag := mkTag(pc, id)
					if err := checkSearch(name, e, owner, tag); err != nil {
						return fmt.Errorf("tag %d: %w", i, err)
					}
					if i < 5000 {
						n := len(expectURIs(owner, id))
						hit, miss = hit || n > 0, miss || n == 0
					}
					if rnd.Intn(10) == 0 {
						again = append(again, tag)
					}
				}
				if err := sweep(name, e, owner, again, "again"); err != nil {
					return err
				}
				ctx.NonTrivialIf(hit && miss)
			}
			return nil
		})

	register(spec{ID: "C04", Name: "mass", Quick: 1, Thorough: 12, Shards: 4,
		Rule: "20000 to 80000 different tags made from a drawn seed, searched one after the other on the text-matching engine with up to 20 subscriptions, then some of them again; non-trivial: some tag matches and some does not"},
		drawMass([]int{1, 8, 20}, []int{1, 5, 70}, 20000, 80000),
		func(ctx *Ctx, c massCase) error {
			rnd, owned, _ := c.expand()
			m := sharedModel{}
			for _, o := range owned {
				m.add(o)
			}
			e := newEngine("LegacyEngine", subsOf(owned))
			var again []Tag
			hit, miss := false, false
			for i := 0; i < c.N+len(again); i++ {
				var tag Tag
				if i < c.N {
					tag = mkTag(c.tag(rnd))
					if rnd.Intn(10) == 0 {
						again = append(again, tag)
					}
				} else {
					tag = again[i-c.N]
				}
				if err := checkLegacySearch(e, m, tag); err != nil {
					return fmt.Errorf("tag %d: %w", i, err)
				}
				if i < 5000 {
					n, _, _ := m.expect(tag)
					hit, miss = hit || len(n) > 0, miss || len(n) == 0
				}
			}
			ctx.NonTrivialIf(hit && miss)
			return nil
		})

	for _, id := range []string{"C02", "C03", "C21"} {
		what := map[string]string{"C02": "all tags are searched", "C03": "it is saved and restored and all tags are searched", "C21": "its dump is read back"}[id]
		register(spec{ID: id, Name: "churn", Quick: 1, Thorough: 12, Shards: 4,
			Rule: "5000 to 70000 additions and deletions (some of absent patterns) made from a drawn seed of up to 40 patterns, on each bit-prefix engine, and searches between them; every now and then " + what + "; non-trivial: at least 1000 effective deletions"},
			drawMass([]int{2, 8, 40}, []int{1, 3, 70}, 5000, 20000, 70000),
			func(ctx *Ctx, c massCase) error {
				for _, name := range byteEngines {
					rnd, owned, items := c.expandFor(name)
					var tags []Tag
					for i := 0; i < 30; i++ {
						tags = append(tags, c.drawTag(rnd, items))
					}
					e := newEngine(name, filtering.Subscriptions{})
					owner := map[string]string{}
					filters := make([]string, len(owned))
					for i, o := range owned {
						filters[i], _ = refFilter(o.Pat)
					}
					dels, most := 0, 1
					for i := 0; i < c.N; i++ {
						if i%512 == 0 { // the size the set tends to
							most = rnd.Intn(len(owned) + 2)
						}
						k := rnd.Intn(len(owned))
						o := owned[k]
						switch {
						case owner[filters[k]] != "" && len(owner) < most && rnd.Intn(8) > 0: // not yet
						case rnd.Intn(16) == 0:
							if err := checkSearch(name, e, owner, tags[rnd.Intn(len(tags))]); err != nil {
								return fmt.Errorf("change %d: %w", i, err)
							}
						case owner[filters[k]] == "" && (len(owner) < most || rnd.Intn(4) == 0):
							e.AddSubscription(subsOf(owned[k : k+1]))
							owner[filters[k]] = o.URI
						default:
							e.DeleteSubscription(subsOf(owned[k : k+1]))
							if owner[filters[k]] != "" {
								dels++
							}
							delete(owner, filters[k])
						}
						if i%(c.N/10) != c.N/10-1 {
							continue
						}
						when := fmt.Sprintf("after %d changes", i+1)
						var err error
						switch id {
						case "C21":
							err = checkDump(name, e, owner, when)
						case "C03":
							b, merr := e.MarshalBinary()
							if merr != nil {
								return merr
							}
							e = newEngine(name, filtering.Subscriptions{})
							if merr := e.UnmarshalBinary(b); merr != nil {
								return merr
							}
						}
						if err == nil {
							err = sweep(name, e, owner, tags, when)
						}
						if err != nil {
							return err
						}
					}
					ctx.NonTrivialIf(dels >= 1000)
				}
				return nil
			})
	}
}
