package harness

import (
	"fmt"
	"strings"

	"github.com/iomz/go-llrp"
	"github.com/iomz/gosstrak/filtering"
	"github.com/iomz/gosstrak/tdt"
	"pgregory.net/rapid"
)

// checkTranslate compares one translation with the reference.
func checkTranslate(c *tdt.Core, pc, id []byte) (bool, error) {
	want, ok := refTranslate(pc, id)
	p2, i2 := append([]byte(nil), pc...), append([]byte(nil), id...)
	re := mkTag(pc, id).reread() // the memory of the tag before
	got, err := c.Translate(re.PC, re.ID)
	pc, id = re.PC, re.ID
	if string(p2) != string(pc) || string(i2) != string(id) {
		return ok, fmt.Errorf("translating pc=%x id=%x changed its arguments", p2, i2)
	}
	switch {
	case ok && err != nil:
		return ok, fmt.Errorf("pc=%x id=%x: error %v, want %q", pc, id, err, want)
	case ok && got != want:
		return ok, fmt.Errorf("pc=%x id=%x: identity %q, want %q", pc, id, got, want)
	case !ok && err == nil:
		return ok, fmt.Errorf("pc=%x id=%x: identity %q, want an error", pc, id, got)
	}
	return ok, nil
}

type c05Case struct {
	Tags []Tag `json:"tags"`
}

// drawRawEPC assembles an EPC from raw field bits, ignoring digit limits.
func drawRawEPC(t *rapid.T) []byte {
	h := rapid.SampledFrom([]int{0x30, 0x31, 0x33, 0x34, 0x30, 0x31, 0x33, 0x34, 0x32, 0x35, 0x36, 0x00, 0xFF, 0x2F, 0xE2}).Draw(t, "header")
	part := rapid.IntRange(0, 7).Draw(t, "partition")
	b := binInt(h, 8) + binInt(rapid.IntRange(0, 7).Draw(t, "fv"), 3) + binInt(part, 3)
	w := 0
	if part < 7 {
		w = cpWidth[12-part]
		b += drawField(t, w, 12-part, "cp")
	}
	s, ok := epcSchemes[epcByHeader[byte(h)]]
	if ok && part < 7 {
		b += drawField(t, s.RefWidth-w, s.RefDigits-(12-part), "ref")
	}
	for len(b) < 96 {
		n := 96 - len(b)
		if n > 32 {
			n = 32
		}
		b += binInt(int(rapid.Uint32().Draw(t, "rest")>>(32-n)), n)
	}
	return bitsToBytes(b)
}

// drawField draws field bits biased to the edge of its number of digits.
func drawField(t *rapid.T, bits, digits int, label string) string {
	lim := pow10(digits)
	top := pow2(bits)
	v := dec("0")
	switch rapid.IntRange(0, 5).Draw(t, label+"-edge") {
	case 0:
	case 1:
		v = lim.Sub(lim, dec("1"))
	case 2:
		v = lim
	case 3:
		v = top.Sub(top, dec("1"))
	case 4:
		v = dec(numBelow(t, lim, label))
	default:
		v = dec(numBelow(t, top, label))
	}
	s, ok := bin(v, bits)
	if !ok {
		s = strings.Repeat("1", bits)
	}
	return s
}

func drawGS1PC(t *rapid.T) []byte {
	return []byte{byte(rapid.IntRange(0, 127).Draw(t, "pc0")) << 1, rapid.Byte().Draw(t, "pc1")}
}

func init() {
	register(spec{ID: "C05", Name: "translate",
		Rule:  "1-4 EPC tags translated one after the other by one core: complete items of every scheme and partition, raw field bits at the edges of their digits, unknown headers, reserved partitions, wrong lengths; non-trivial: a tag with an identity",
		Quick: 25000, Thorough: 500000, Shards: 8},
		func(t *rapid.T) c05Case {
			n := rapid.IntRange(1, 4).Draw(t, "n")
			var c c05Case
			for i := 0; i < n; i++ {
				pc := drawGS1PC(t)
				var id []byte
				switch rapid.IntRange(0, 9).Draw(t, "kind") {
				case 0, 1, 2, 3:
					_, id = drawEPCItem(t, rapid.SampledFrom(epcNames).Draw(t, "scheme")).tag().bytes()
				case 4, 5, 6, 7:
					id = drawRawEPC(t)
				case 8:
					id = drawRawEPC(t)
					id = id[:rapid.IntRange(0, 11).Draw(t, "short")]
				default:
					id = append(drawRawEPC(t), rapid.SliceOfN(rapid.Byte(), 1, 8).Draw(t, "long")...)
				}
				c.Tags = append(c.Tags, mkTag(pc, id))
			}
			return c
		},
		func(ctx *Ctx, c c05Case) error {
			core := tdt.NewCore()
			for _, tag := range c.Tags {
				pc, id := tag.bytes()
				ok, err := checkTranslate(core, pc, id)
				if err != nil {
					return err
				}
				ctx.NonTrivialIf(ok)
				if ok {
					ctx.Label(epcByHeader[id[0]] + fmt.Sprintf(" partition %d", id[1]>>2&7))
				}
			}
			return nil
		})

	register(spec{ID: "C06", Name: "translate",
		Rule:  "1-3 ISO tags translated by one core: encoded texts with padding, arbitrary identifiers of 0 to 62 bytes (rarely up to 70000, more than a tag has), every AFI byte (assigned ones preferred), every length of the protocol-control bits; non-trivial: an assigned AFI and at least one character",
		Quick: 20000, Thorough: 400000, Shards: 8},
		func(t *rapid.T) c05Case {
			n := rapid.IntRange(1, 3).Draw(t, "n")
			var c c05Case
			for i := 0; i < n; i++ {
				afi := rapid.Byte().Draw(t, "afi")
				if rapid.IntRange(0, 4).Draw(t, "assigned") != 0 {
					afi = byte(rapid.IntRange(0xA0, 0xAB).Draw(t, "afi-near"))
				}
				pc := []byte{byte(rapid.IntRange(0, 127).Draw(t, "pc0"))<<1 | 1, afi}
				if rapid.IntRange(0, 15).Draw(t, "badpc") == 0 {
					pc = rapid.SliceOfN(rapid.Byte(), 0, 5).Draw(t, "pc")
				}
				var id []byte
				if rapid.Bool().Draw(t, "text") {
					id, _ = refISOTag(strOf(sixAlphabet+" .:", 0, 40).Draw(t, "t"))
				} else {
					id = rapid.SliceOfN(rapid.Byte(), 0, 62).Draw(t, "id")
				}
				if long := drawLong(t); long > 0 {
					id = stretch(id, long)
				}
				c.Tags = append(c.Tags, mkTag(pc, id))
			}
			return c
		},
		func(ctx *Ctx, c c05Case) error {
			core := tdt.NewCore()
			for _, tag := range c.Tags {
				pc, id := tag.bytes()
				ok, err := checkTranslate(core, pc, id)
				if err != nil {
					return err
				}
				iso := len(pc) == 2 && pc[0]&1 == 1
				ctx.NonTrivialIf(ok && iso && len(id) > 0)
				if ok && iso {
					ctx.Label("AFI " + afiName[pc[1]])
					ctx.Label(fmt.Sprintf("length mod 3 = %d", len(id)%3))
				}
			}
			return nil
		})

	for _, id := range []string{"C05", "C06"} {
		register(spec{ID: id, Name: "stream",
			Rule:  "30-400 tags translated one after the other by one core, EPC and ISO tags and malformed ones in any mixture with tags that come again, then all of them once more; non-trivial: both families and a malformed tag",
			Quick: 120, Thorough: 3000, Shards: 4},
			func(t *rapid.T) c05Case {
				var c c05Case
				for i, n := 0, rapid.SampledFrom([]int{30, 100, 400}).Draw(t, "n"); i < n; i++ {
					switch k := rapid.IntRange(0, 7).Draw(t, "kind"); {
					case k == 0 && i > 0:
						c.Tags = append(c.Tags, c.Tags[rapid.IntRange(0, i-1).Draw(t, "again")])
					case k == 1:
						c.Tags = append(c.Tags, drawWildTag(t))
					case k == 2:
						c.Tags = append(c.Tags, mkTag(drawGS1PC(t), drawRawEPC(t)))
					case k == 3 && i > 0: // the same identifier with other protocol-control bits
						_, id := c.Tags[rapid.IntRange(0, i-1).Draw(t, "again")].bytes()
						c.Tags = append(c.Tags, mkTag([]byte{byte(len(id)/2<<3) | byte(rapid.IntRange(0, 1).Draw(t, "t")), byte(rapid.IntRange(0xA0, 0xAB).Draw(t, "afi"))}, id))
					default:
						c.Tags = append(c.Tags, drawItem(t).tag())
					}
				}
				return c
			},
			func(ctx *Ctx, c c05Case) error {
				core := tdt.NewCore()
				epc, iso, bad := false, false, false
				for round := 0; round < 2; round++ {
					for i, tag := range c.Tags {
						pc, id := tag.bytes()
						ok, err := checkTranslate(core, pc, id)
						if err != nil {
							return fmt.Errorf("round %d, tag %d: %w", round, i, err)
						}
						bad = bad || !ok
						epc = epc || ok && pc[0]&1 == 0
						iso = iso || ok && pc[0]&1 == 1
					}
				}
				ctx.NonTrivialIf(epc && iso && bad)
				return nil
			})
	}

	register(spec{ID: "C10", Name: "translate",
		Rule:  "arbitrary protocol-control bytes and identifiers of 0 to 70 bytes translated by one core, sometimes with a plausible header; non-trivial: at least one of them has no identity",
		Quick: 20000, Thorough: 400000, Shards: 4},
		func(t *rapid.T) c05Case {
			var c c05Case
			for i := rapid.IntRange(1, 4).Draw(t, "n"); i > 0; i-- {
				c.Tags = append(c.Tags, drawWildTag(t))
			}
			return c
		},
		func(ctx *Ctx, c c05Case) error {
			core := tdt.NewCore()
			for _, tag := range c.Tags {
				pc, id := tag.bytes()
				ok, err := checkTranslate(core, pc, id)
				if err != nil {
					return err
				}
				ctx.NonTrivialIf(!ok)
			}
			return nil
		})

	register(spec{ID: "C10", Name: "engines",
		Rule:  "subscriptions of related tags on all four engines, then a mixture of good and malformed tags (arbitrary bytes, good tags cut, extended or with other protocol-control bits): every search returns, the bit-prefix engines report every covering prefix, the text engine nothing for a tag without identity, and good tags are answered as usual; non-trivial: a malformed tag that a prefix covers and a good tag that matches",
		Quick: 5000, Thorough: 100000, Shards: 8},
		func(t *rapid.T) c10Case {
			w := drawWorld(t, 5)
			c := c10Case{Subs: w.drawOwned(t, 0, 8)}
			for i := rapid.IntRange(1, 10).Draw(t, "n"); i > 0; i-- {
				var tag Tag
				switch rapid.IntRange(0, 5).Draw(t, "kind") {
				case 0:
					tag = drawWildTag(t)
				case 1, 2:
					tag = w.drawTag(t)
					pc, id := tag.bytes()
					id = id[:rapid.IntRange(0, len(id)).Draw(t, "cut")]
					tag = mkTag(pc, id)
				case 3:
					pc, id := w.drawTag(t).bytes()
					tag = mkTag(pc, append(id, rapid.SliceOfN(rapid.Byte(), 1, 9).Draw(t, "more")...))
				case 4:
					_, id := w.drawTag(t).bytes()
					tag = mkTag(rapid.SliceOfN(rapid.Byte(), 0, 4).Draw(t, "pc"), id)
				default:
					tag = w.drawTag(t)
				}
				c.Tags = append(c.Tags, tag)
			}
			return c
		},
		func(ctx *Ctx, c c10Case) error {
			owner := ownerMap(c.Subs)
			m := sharedModel{}
			for _, o := range c.Subs {
				m.add(o)
			}
			badHit, goodHit := false, false
			for _, name := range allEngines {
				e := newEngine(name, subsOf(c.Subs))
				for _, tag := range c.Tags {
					var err error
					if name == "LegacyEngine" {
						err = checkLegacySearch(e, m, tag)
					} else {
						err = checkSearch(name, e, owner, tag)
					}
					if err != nil {
						return err
					}
					pc, id := tag.bytes()
					_, ok := refTranslate(pc, id)
					n := len(expectURIs(owner, id))
					badHit = badHit || !ok && n > 0
					goodHit = goodHit || ok && n > 0
				}
			}
			ctx.NonTrivialIf(badHit && goodHit)
			return nil
		})

	register(spec{ID: "C10", Name: "nil",
		Rule:  "a tag whose protocol-control bytes or identifier are nil, on every engine; non-trivial: every case",
		Quick: 300, Thorough: 3000, Shards: 1},
		func(t *rapid.T) c10Case {
			w := drawWorld(t, 3)
			return c10Case{Subs: w.drawOwned(t, 0, 4), Tags: []Tag{w.drawTag(t)}}
		},
		func(ctx *Ctx, c c10Case) error {
			owner := ownerMap(c.Subs)
			for _, name := range allEngines {
				e := newEngine(name, subsOf(c.Subs))
				pc, id := c.Tags[0].bytes()
				for _, re := range []llrp.ReadEvent{{}, {ID: id}, {PC: pc}} {
					_, uris, err := e.Search(re)
					if err == nil {
						return fmt.Errorf("%s: search of %+v returned no error", name, re)
					}
					var want []string
					if name != "LegacyEngine" {
						want = expectURIs(owner, re.ID)
					}
					if !sameSet(uris, want) {
						return fmt.Errorf("%s: search of %+v reported %q, want %q", name, re, uris, want)
					}
				}
			}
			var none filtering.Subscriptions
			for _, name := range allEngines {
				e := newEngine(name, none)
				if _, uris, err := e.Search(c.Tags[0].event()); err == nil || len(uris) > 0 {
					return fmt.Errorf("%s without subscriptions reported %q, %v", name, uris, err)
				}
			}
			ctx.NonTrivial()
			return nil
		})
}

type c10Case struct {
	Subs []Owned `json:"subs"`
	Tags []Tag   `json:"tags"`
}

func drawWildTag(t *rapid.T) Tag {
	pc := rapid.SliceOfN(rapid.Byte(), 0, 4).Draw(t, "pc")
	if rapid.Bool().Draw(t, "twobytes") {
		pc = rapid.SliceOfN(rapid.Byte(), 2, 2).Draw(t, "pc2")
	}
	id := rapid.SliceOfN(rapid.Byte(), 0, 70).Draw(t, "id")
	if rapid.Bool().Draw(t, "header") {
		id = append([]byte{byte(rapid.SampledFrom([]int{0x30, 0x31, 0x33, 0x34}).Draw(t, "h"))}, id...)
		if rapid.Bool().Draw(t, "twelve") && len(id) > 12 {
			id = id[:12]
		}
	}
	if long := drawLong(t); long > 0 && len(id) > 0 {
		id = stretch(id, long)
	}
	return mkTag(pc, id)
}

// drawLong draws, rarely, the length of an identifier longer than a tag's.
func drawLong(t *rapid.T) int {
	switch k := rapid.IntRange(0, 1999).Draw(t, "long"); {
	case k == 1999:
		return rapid.SampledFrom([]int{8191, 8192, 8193, 9000, 32769, 65536, 70000}).Draw(t, "huge")
	case k > 1950:
		return rapid.OneOf(rapid.IntRange(63, 300), rapid.SampledFrom([]int{127, 128, 255, 256, 257, 511, 512, 513, 1025})).Draw(t, "length")
	}
	return 0
}

// stretch repeats an identifier up to a length.
func stretch(id []byte, n int) []byte {
	if len(id) == 0 {
		id = []byte{0xca, 0x54, 0xd3, 0x55}
	}
	for len(id) < n {
		id = append(id, id[:min(len(id), n-len(id))]...)
	}
	return id
}
