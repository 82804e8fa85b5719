package harness

import (
	"encoding/hex"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"

	"github.com/iomz/go-llrp"
	"github.com/iomz/gosstrak/scheme"
	"pgregory.net/rapid"
)

// C24: the printed forms of what the generator makes.

type printItem struct {
	Item  Item `json:"item"`
	Depth int  `json:"depth"`         // number of fields of a prefix
	Bad   bool `json:"bad,omitempty"` // the fields cannot be encoded
}

type c24Case struct {
	Items []printItem `json:"items"`
}

var goBytes = regexp.MustCompile(`^\[\]byte\{([0-9, ]*)\}, ?\[\]byte\{([0-9, ]*)\}$`)

// decBytes reads a list of decimal numbers.
func decBytes(s string) ([]byte, error) {
	var b []byte
	for _, x := range strings.Split(s, ",") {
		v, err := strconv.ParseUint(strings.TrimSpace(x), 10, 8)
		if err != nil {
			return nil, err
		}
		b = append(b, byte(v))
	}
	return b, nil
}

func generate(pf bool, it Item, k int) (string, string) {
	if pf {
		f, elem, _ := genPrefix(it, k, true)
		return f, elem
	}
	switch {
	case it.isEPC():
		return makeEPC(false, it.Scheme, it.Scheme, it.Fields)
	case it.Scheme == "iso17363":
		return makeISO("17363", it.Fields[1:])
	}
	return makeISO("17365", it.Fields)
}

type rawPrint struct {
	Tags []Tag `json:"tags"`
}

func init() {
	register(spec{ID: "C24", Name: "printed", Quick: 3000, Thorough: 60000, Shards: 4,
		Rule: "1..10 items of every scheme, some with fields that cannot be encoded: the ID line of tag and prefix is its protocol-control bits or pattern, a comma and exactly its bits, the Go form holds exactly its bytes, nothing is printed for what cannot be encoded, and a file of the lines loads as exactly these tags; non-trivial: at least two schemes"},
		func(t *rapid.T) c24Case {
			var c c24Case
			for i, n := 0, rapid.IntRange(1, 10).Draw(t, "n"); i < n; i++ {
				it := drawItem(t)
				p := printItem{Item: it, Depth: rapid.IntRange(1, len(it.Fields)).Draw(t, "depth")}
				if rapid.IntRange(0, 7).Draw(t, "bad") == 0 {
					p.Bad = true
					f := append([]string(nil), it.Fields...)
					i := 1
					f[i] += rapid.SampledFrom([]string{"a", "~", "ä", "\x00"}).Draw(t, "badchar")
					p.Item = Item{it.Scheme, f}
				}
				c.Items = append(c.Items, p)
			}
			return c
		}, func(ctx *Ctx, c c24Case) error {
			var file strings.Builder
			var want []Tag
			schemes := map[string]bool{}
			for _, p := range c.Items {
				bits, pc := generate(false, p.Item, 0)
				line, code := scheme.PrintID(bits, pc), scheme.PrintGoBytes(bits, pc)
				file.WriteString(line + "\n")
				if p.Bad {
					if line != "" || code != "" {
						return fmt.Errorf("%+v cannot be encoded and is printed as %q and %q", p.Item, line, code)
					}
				} else {
					tag := p.Item.tag()
					want = append(want, tag)
					wpc, wid := tag.bytes()
					lpc, lid, ok := strings.Cut(line, ",")
					if !ok || !strings.EqualFold(lpc, tag.PC) || lid != bytesToBits(wid) {
						return fmt.Errorf("%+v is printed as %q, want %s,%s", p.Item, line, tag.PC, bytesToBits(wid))
					}
					m := goBytes.FindStringSubmatch(code)
					if m == nil {
						return fmt.Errorf("%+v is printed as %q", p.Item, code)
					}
					gpc, err1 := decBytes(m[1])
					gid, err2 := decBytes(m[2])
					if err1 != nil || err2 != nil || string(gpc) != string(wpc) || string(gid) != string(wid) {
						return fmt.Errorf("%+v is printed as %q, want %v and %v", p.Item, code, wpc, wid)
					}
				}
				// the prefix
				f, elem := generate(true, p.Item, p.Depth)
				line = scheme.PrintID(f, elem)
				ref, ok := refFilter(prefixPat(p.Item, p.Depth))
				switch {
				case p.Bad && p.Depth > 1:
					if line != "" {
						return fmt.Errorf("the prefix of %d fields of %+v cannot be encoded and is printed as %q", p.Depth, p.Item, line)
					}
				case p.Bad: // the bad field is not part of the prefix
				case !ok:
					return noCase("%+v", p)
				default:
					i := strings.LastIndex(line, ",")
					if i < 0 || line[i+1:] != ref || line[:i] != elem {
						return fmt.Errorf("the prefix of %d fields of %+v is printed as %q, want %s", p.Depth, p.Item, line, ref)
					}
				}
				schemes[p.Item.Scheme] = true
			}
			name := filepath.Join(ctx.scratch, "lines.csv")
			if err := os.WriteFile(name, []byte(file.String()), 0o644); err != nil {
				return err
			}
			tags := llrp.LoadTagsFromCSV(name)
			if len(tags) != len(want) {
				return fmt.Errorf("%d tags are read from the printed lines, want %d:\n%s", len(tags), len(want), file.String())
			}
			for i, g := range tags {
				if fmt.Sprintf("%04x", g.PCBits) != want[i].PC || hex.EncodeToString(g.EPC) != want[i].ID {
					return fmt.Errorf("tag %d is read from the printed lines as %04x %x, want %+v", i, g.PCBits, g.EPC, want[i])
				}
			}
			ctx.NonTrivialIf(len(schemes) > 1)
			return nil
		})

	register(spec{ID: "C24", Name: "raw", Quick: 2000, Thorough: 40000, Shards: 2,
		Rule: "1..20 tags of 1..31 words of any content with any protocol-control bits; their lines and Go forms are compared with the bits and bytes, and a file of the lines loads as exactly these tags; non-trivial: protocol-control bits that begin with a zero, and at least two lengths"},
		func(t *rapid.T) rawPrint {
			var c rawPrint
			for i, n := 0, rapid.IntRange(1, 20).Draw(t, "n"); i < n; i++ {
				id := rapid.SliceOfN(rapid.Byte(), 2, 62).Draw(t, "id")
				c.Tags = append(c.Tags, mkTag(rapid.SliceOfN(rapid.Byte(), 2, 2).Draw(t, "pc"), id[:len(id)/2*2]))
			}
			return c
		}, func(ctx *Ctx, c rawPrint) error {
			var file strings.Builder
			zero, lens := false, map[int]bool{}
			for _, tag := range c.Tags {
				pc, id := tag.bytes()
				bits := bytesToBits(id)
				line, code := scheme.PrintID(bits, tag.PC), scheme.PrintGoBytes(bits, tag.PC)
				if line != tag.PC+","+bits {
					return fmt.Errorf("the tag %+v is printed as %q", tag, line)
				}
				m := goBytes.FindStringSubmatch(code)
				if m == nil {
					return fmt.Errorf("the tag %+v is printed as %q", tag, code)
				}
				gpc, err1 := decBytes(m[1])
				gid, err2 := decBytes(m[2])
				if err1 != nil || err2 != nil || string(gpc) != string(pc) || string(gid) != string(id) {
					return fmt.Errorf("the tag %+v is printed as %q", tag, code)
				}
				zero = zero || tag.PC[0] == '0'
				lens[len(id)] = true
				file.WriteString(line + "\n")
			}
			name := filepath.Join(ctx.scratch, "raw.csv")
			if err := os.WriteFile(name, []byte(file.String()), 0o644); err != nil {
				return err
			}
			tags := llrp.LoadTagsFromCSV(name)
			if len(tags) != len(c.Tags) {
				return fmt.Errorf("%d tags are read from the printed lines, want %d", len(tags), len(c.Tags))
			}
			for i, g := range tags {
				if fmt.Sprintf("%04x", g.PCBits) != c.Tags[i].PC || hex.EncodeToString(g.EPC) != c.Tags[i].ID {
					return fmt.Errorf("tag %d is read from the printed lines as %04x %x, want %+v", i, g.PCBits, g.EPC, c.Tags[i])
				}
			}
			ctx.NonTrivialIf(zero && len(lens) > 1)
			return nil
		})
}
