package harness

import (
	"bytes"
	"encoding/gob"
	"encoding/hex"
	"errors"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"reflect"
	"strings"
	"unsafe"

	"github.com/iomz/gosstrak/filtering"
	"pgregory.net/rapid"
)

// ---- C12 ---------------------------------------------------------------------

type bitFilter struct {
	Bits   string `json:"bits"` // 0, 1, x
	Offset int    `json:"offset"`
}

func idBit(id []byte, i int) (byte, bool) {
	if i/8 >= len(id) {
		return 0, false
	}
	if id[i/8]&(0x80>>(i%8)) != 0 {
		return '1', true
	}
	return '0', true
}

func (f bitFilter) match(id []byte) bool {
	for i := range f.Bits {
		if f.Bits[i] == 'x' {
			continue
		}
		b, ok := idBit(id, f.Offset+i)
		if !ok || b != f.Bits[i] {
			return false
		}
	}
	return true
}

// byteAt is the reference byte view.
func (f bitFilter) byteAt(bo int) (val, mask byte, has bool) {
	for k := 0; k < 8; k++ {
		i := bo*8 + k - f.Offset
		m := byte(0x80 >> k)
		if i < 0 || i >= len(f.Bits) {
			val |= m
			mask |= m
			continue
		}
		has = true
		switch f.Bits[i] {
		case 'x':
			val |= m
			mask |= m
		case '1':
			val |= m
		}
	}
	return
}

func drawBits(t *rapid.T, min, max int) string {
	n := rapid.IntRange(min, max).Draw(t, "nbits")
	al := rapid.SampledFrom([]string{"01", "01x", "xxxx01", "x"}).Draw(t, "bits")
	return strOf(al, n, n).Draw(t, "b")
}

// fillID makes an identifier of n bytes that a filter matches as far as it reaches.
func fillID(t *rapid.T, f bitFilter, n int) []byte {
	id := rapid.SliceOfN(rapid.Byte(), n, n).Draw(t, "id")
	for i := range f.Bits {
		p := f.Offset + i
		if p/8 >= n || f.Bits[i] == 'x' {
			continue
		}
		m := byte(0x80 >> (p % 8))
		id[p/8] &^= m
		if f.Bits[i] == '1' {
			id[p/8] |= m
		}
	}
	return id
}

type c12Case struct {
	F   bitFilter `json:"f"`
	IDs []string  `json:"ids"`
}

func init() {
	register(spec{ID: "C12", Name: "match",
		Rule:  "a bit string of 0-520 bits with wildcards at an offset of 0-600 and identifiers of 0-40 bytes (arbitrary, fitting, fitting with one bit flipped, fitting but cut): match and byte view equal the bitwise reference; non-trivial: the filter has a fixed bit and some identifier matches and some does not",
		Quick: 15000, Thorough: 300000, Shards: 8},
		func(t *rapid.T) c12Case {
			c := c12Case{F: bitFilter{drawBits(t, 0, rapid.SampledFrom([]int{10, 40, 130, 520}).Draw(t, "maxbits")), rapid.IntRange(0, rapid.SampledFrom([]int{9, 30, 140, 600}).Draw(t, "maxoff")).Draw(t, "off")}}
			need := (c.F.Offset + len(c.F.Bits) + 7) / 8
			for i := rapid.IntRange(1, 5).Draw(t, "nids"); i > 0; i-- {
				var id []byte
				switch rapid.IntRange(0, 4).Draw(t, "idkind") {
				case 0:
					id = rapid.SliceOfN(rapid.Byte(), 0, 40).Draw(t, "id")
				case 1, 2:
					id = fillID(t, c.F, need+rapid.IntRange(0, 3).Draw(t, "more"))
				case 3:
					id = fillID(t, c.F, need+rapid.IntRange(0, 1).Draw(t, "more"))
					if len(c.F.Bits) > 0 && len(id) > 0 {
						p := c.F.Offset + rapid.IntRange(0, len(c.F.Bits)-1).Draw(t, "flip")
						id[p/8] ^= 0x80 >> (p % 8)
					}
				default:
					id = fillID(t, c.F, rapid.IntRange(0, need).Draw(t, "cut"))
				}
				c.IDs = append(c.IDs, hex.EncodeToString(id))
			}
			return c
		},
		func(ctx *Ctx, c c12Case) error {
			f := filtering.NewFilter(c.F.Bits, c.F.Offset)
			hit, miss := false, false
			for _, h := range c.IDs {
				id, _ := hex.DecodeString(h)
				want := c.F.match(id)
				if got := f.Match(id); got != want {
					return fmt.Errorf("filter %q at %d, id %s: match %v, want %v", c.F.Bits, c.F.Offset, h, got, want)
				}
				hit, miss = hit || want, miss || !want
			}
			if f.String != c.F.Bits || f.Size != len(c.F.Bits) || f.Offset != c.F.Offset {
				return fmt.Errorf("filter %q at %d describes itself as %+v", c.F.Bits, c.F.Offset, f)
			}
			fixed := strings.Trim(c.F.Bits, "x") != ""
			if got := f.IsTransparent(); got != !fixed {
				return fmt.Errorf("filter %q at %d: transparent %v", c.F.Bits, c.F.Offset, got)
			}
			if c.F.Bits != "" {
				for bo := -1; bo <= (c.F.Offset+len(c.F.Bits))/8+2; bo++ {
					v, m, has := c.F.byteAt(bo)
					if bo < 0 {
						has = false
					}
					if f.HasByteAt(bo) != has {
						return fmt.Errorf("filter %q at %d: has byte %d: %v", c.F.Bits, c.F.Offset, bo, !has)
					}
					gv, gm, err := f.GetByteAt(bo)
					if has != (err == nil) || has && (gv != v || gm != m) {
						return fmt.Errorf("filter %q at %d: byte %d is %08b mask %08b (%v), want %08b mask %08b", c.F.Bits, c.F.Offset, bo, gv, gm, err, v, m)
					}
				}
			}
			ctx.NonTrivialIf(fixed && hit && miss)
			ctx.LabelIf(strings.Contains(c.F.Bits, "x"), "wildcards")
			ctx.Label(fmt.Sprintf("offset mod 8 = %d", c.F.Offset%8))
			return nil
		})
}

// ---- C13 ---------------------------------------------------------------------

// compositionParts reads the composite filter and the children. They have no
// accessors; the fields have the names that the existing tests know.
func compositionParts(c *filtering.Composition) (bits string, offset int, children map[string]*filtering.FilterObject, err error) {
	v := reflect.ValueOf(c).Elem()
	field := func(name string, like interface{}) (ok bool) {
		f := v.FieldByName(name)
		to := reflect.ValueOf(like).Elem()
		if !f.IsValid() || !f.CanConvert(to.Type()) {
			return false
		}
		to.Set(reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem().Convert(to.Type()))
		return true
	}
	if !field("filter", &bits) || !field("offset", &offset) || !field("children", &children) {
		err = noCase("Composition has other fields")
	}
	return
}

type c13Case struct {
	Filters []bitFilter `json:"filters"`
	IDs     []string    `json:"ids"`
}

func (f bitFilter) byteRange() (int, int) { return f.Offset / 8, (f.Offset + len(f.Bits) - 1) / 8 }

func runC13(ctx *Ctx, c c13Case) error {
	var fs []*filtering.FilterObject
	for _, f := range c.Filters {
		fs = append(fs, filtering.NewFilter(f.Bits, f.Offset))
	}
	bits, offset, children, err := compositionParts(filtering.NewComposition(fs))
	if err != nil {
		return err
	}
	composite := bitFilter{bits, offset}
	group := map[string]int{} // the number of filters by their bits
	for _, f := range c.Filters {
		group[f.Bits]++
	}
	if len(children) != len(group) {
		return fmt.Errorf("%d different filters have %d children", len(group), len(children))
	}
	shared := map[int]bool{} // filters with the bits of another one, which has the child
	hit, miss := false, false
	for _, h := range c.IDs {
		id, _ := hex.DecodeString(h)
		cm := composite.match(id)
		if got := filtering.NewFilter(bits, offset).Match(id); got != cm {
			return fmt.Errorf("composite %q at %d, id %s: match %v, want %v", bits, offset, h, got, cm)
		}
		for i, f := range c.Filters {
			child := children[f.Bits]
			if child == nil {
				return fmt.Errorf("filter %q at %d has no child", f.Bits, f.Offset)
			}
			want := f.match(id)
			if fs[i].Match(id) != want {
				return fmt.Errorf("composing changed filter %q at %d", f.Bits, f.Offset)
			}
			if want && !cm {
				return fmt.Errorf("filter %q at %d matches id %s, composite %q at %d does not", f.Bits, f.Offset, h, bits, offset)
			}
			if got := cm && child.Match(id); got != want && group[f.Bits] > 1 {
				shared[i] = true
			} else if got != want {
				return fmt.Errorf("filter %q at %d, id %s: original matches: %v, composite %q at %d: %v, child %q at %d: %v",
					f.Bits, f.Offset, h, want, bits, offset, cm, child.String, child.Offset, child.Match(id))
			}
			hit, miss = hit || want, miss || !want
		}
	}
	for bits, n := range group { // the child fits one of its filters
		for i, f := range c.Filters {
			if f.Bits == bits && shared[i] {
				n--
			}
		}
		if n < 1 {
			return fmt.Errorf("the child %q at %d fits no filter %q", children[bits].String, children[bits].Offset, bits)
		}
	}
	ctx.LabelIf(len(group) < len(c.Filters), "same bits at two offsets")
	ctx.NonTrivialIf(hit && miss && strings.Trim(bits, "x") != "" && len(c.Filters) > 1)
	return nil
}

// drawManyC13 makes many filters of the same byte range.
func drawManyC13(t *rapid.T) c13Case {
	n := rapid.SampledFrom([]int{20, 40, 64, 80, 130, 260, 400}).Draw(t, "nfilters") - rapid.IntRange(0, 7).Draw(t, "less")
	size := rapid.IntRange(2, 8).Draw(t, "size")
	rnd := rand.New(rand.NewSource(int64(rapid.IntRange(0, 1<<30).Draw(t, "seed"))))
	offset := rnd.Intn(20)
	cols := make([]string, size*8) // what the filters have at each bit
	counter := 0
	for p := range cols {
		b := make([]byte, n)
		at, first := rnd.Intn(n), rnd.Intn(2)
		if rnd.Intn(2) == 0 {
			at = []int{n - 1, n - 2, 64, 63, 128, 1}[rnd.Intn(6)]
		}
		kind := rnd.Intn(6)
		if left := size*8 - p; kind != 0 && counter < 9 && left <= 9-counter {
			kind = 0
		}
		for i := range b {
			switch kind {
			case 0: // counted
				b[i] = byte('0' + i>>counter&1)
			case 1, 2: // another one from some filter on
				b[i] = byte('0' + first)
				if i >= at {
					b[i] = byte('1' - first)
				}
			case 3: // another one in one filter
				b[i] = byte('0' + first)
				if i == at {
					b[i] = "01x"[rnd.Intn(3)]
				}
			case 4:
				b[i] = "01x"[rnd.Intn(3)]
			default:
				b[i] = byte('0' + first)
			}
		}
		if kind == 0 {
			counter++
		}
		cols[p] = string(b)
	}
	var c c13Case
	seen := map[string]bool{}
	for i := 0; i < n; i++ {
		b := make([]byte, len(cols))
		for p := range cols {
			b[p] = cols[p][i]
		}
		if !seen[string(b)] {
			seen[string(b)] = true
			c.Filters = append(c.Filters, bitFilter{string(b), offset})
		}
	}
	for i := 0; i < 40; i++ {
		id := make([]byte, (offset+len(cols)+7)/8)
		rnd.Read(id)
		f := c.Filters[rnd.Intn(len(c.Filters))]
		if rnd.Intn(3) == 0 {
			f = c.Filters[len(c.Filters)-1]
		}
		for p, b := range f.Bits {
			m := byte(0x80 >> ((p + offset) % 8))
			switch b {
			case '0':
				id[(p+offset)/8] &^= m
			case '1':
				id[(p+offset)/8] |= m
			}
		}
		if rnd.Intn(3) == 0 {
			p := rnd.Intn(len(id) * 8)
			id[p/8] ^= 0x80 >> (p % 8)
		}
		c.IDs = append(c.IDs, hex.EncodeToString(id))
	}
	return c
}

func init() {
	register(spec{ID: "C13", Name: "equivalence",
		Rule:  "2-12 different filters with wildcards that share a byte, related to each other, composed; for arbitrary identifiers and ones made to fit an original (possibly with a flipped bit or cut): original matches exactly when composite and its child match, and the composite matches whenever an original does; non-trivial: some original matches and some does not, and the composite has a fixed bit",
		Quick: 10000, Thorough: 200000, Shards: 8,
		Assume: []string{"the composite and its children are read from the unexported fields filter, offset and children of Composition, which the existing tests use too"}},
		func(t *rapid.T) c13Case {
			n := rapid.IntRange(2, rapid.SampledFrom([]int{3, 5, 5, 12}).Draw(t, "maxfilters")).Draw(t, "nfilters")
			end := rapid.SampledFrom([]int{72, 72, 72, 300}).Draw(t, "end") // no filter reaches further
			common := rapid.IntRange(0, (end-32)/10).Draw(t, "common")      // a byte that all filters have
			base := drawBits(t, end+28, end+28)
			var c c13Case
			seen := map[string]bool{}
			for i := 0; i < n; i++ {
				from := rapid.IntRange(0, common*8+7).Draw(t, "from")
				lo := common * 8
				if from >= lo {
					lo = from
				}
				to := rapid.IntRange(lo+1, end).Draw(t, "to")
				if rapid.Bool().Draw(t, "far") {
					to = end + lo + 1 - to
				}
				b := []byte(base[from:to])
				for k := rapid.IntRange(0, 4).Draw(t, "nmut"); k > 0; k-- {
					b[rapid.IntRange(0, len(b)-1).Draw(t, "mut")] = "01x"[rapid.IntRange(0, 2).Draw(t, "sym")]
				}
				// of filters with the same bits, one child is kept (known
				// finding same-bits)
				if at := fmt.Sprint(string(b), from); seen[at] {
					continue
				} else {
					seen[at] = true
				}
				c.Filters = append(c.Filters, bitFilter{string(b), from})
				if to < end && rapid.IntRange(0, 15).Draw(t, "again") == 0 && !seen[fmt.Sprint(string(b), from+1)] && from+1 <= common*8+7 {
					seen[fmt.Sprint(string(b), from+1)] = true
					c.Filters = append(c.Filters, bitFilter{string(b), from + 1})
				}
			}
			for i := rapid.IntRange(1, 6).Draw(t, "nids"); i > 0; i-- {
				if rapid.IntRange(0, 5).Draw(t, "wild") == 0 {
					c.IDs = append(c.IDs, hex.EncodeToString(rapid.SliceOfN(rapid.Byte(), 0, len(base)/8+4).Draw(t, "wildid")))
					continue
				}
				f := c.Filters[rapid.IntRange(0, len(c.Filters)-1).Draw(t, "fit")]
				size := len(base) / 8
				id := fillID(t, bitFilter{base[:size*8], 0}, size)
				id2 := fillID(t, f, size)
				for p := f.Offset; p < f.Offset+len(f.Bits); p++ { // the filter's bits over the base's
					m := byte(0x80 >> (p % 8))
					if f.Bits[p-f.Offset] != 'x' {
						id[p/8] = id[p/8]&^m | id2[p/8]&m
					}
				}
				if rapid.Bool().Draw(t, "flip") {
					p := rapid.IntRange(0, size*8-1).Draw(t, "flipbit")
					id[p/8] ^= 0x80 >> (p % 8)
				}
				if rapid.IntRange(0, 7).Draw(t, "cutid") == 0 {
					id = id[:rapid.IntRange(0, size-1).Draw(t, "cut")]
				}
				c.IDs = append(c.IDs, hex.EncodeToString(id))
			}
			return c
		},
		runC13)
	register(spec{ID: "C13", Name: "many",
		Rule:  "13 to 400 different filters with wildcards, made from a drawn seed: bits that are the same up to some filter and others from there on, bits of their own, bits that all share; non-trivial: as equivalence, with more than 64 filters",
		Quick: 200, Thorough: 4000, Shards: 4}, drawManyC13,
		func(ctx *Ctx, c c13Case) error {
			err := runC13(ctx, c)
			ctx.nt = ctx.nt && len(c.Filters) > 64
			return err
		})
	registerProbe("C13", "same-bits", func() (bool, string) {
		fs := []*filtering.FilterObject{filtering.NewFilter("1", 0), filtering.NewFilter("1", 1)}
		_, _, children, err := compositionParts(filtering.NewComposition(fs))
		if err != nil {
			return true, err.Error()
		}
		return len(children) == 1, fmt.Sprintf("the filters 1(0 1) and 1(1 1) have %d child", len(children))
	})
}

// ---- C14 ---------------------------------------------------------------------

type c14Case struct {
	Records [][]string `json:"records"`
	CRLF    bool       `json:"crlf"`
	NoEnd   bool       `json:"no_end"`
	Quote   []bool     `json:"quote"`
	Blank   []bool     `json:"blank"` // a blank line before the record
}

func (c c14Case) text() string {
	nl := "\n"
	if c.CRLF {
		nl = "\r\n"
	}
	var b strings.Builder
	k := 0
	for i, r := range c.Records {
		if c.Blank[i] {
			b.WriteString(nl)
		}
		for j, f := range r {
			if j > 0 {
				b.WriteByte(',')
			}
			q := strings.ContainsAny(f, ",\"") || c.Quote[k%len(c.Quote)] || len(r) == 1 && f == ""
			k++
			if q {
				b.WriteString(`"` + strings.ReplaceAll(f, `"`, `""`) + `"`)
			} else {
				b.WriteString(f)
			}
		}
		if i+1 < len(c.Records) || !c.NoEnd {
			b.WriteString(nl)
		}
	}
	return b.String()
}

func sameSubs(got filtering.Subscriptions, want map[string][]string) error {
	for u, ps := range want {
		g, ok := got[u]
		if !ok || len(g) != len(ps) {
			return fmt.Errorf("%s has %q, want %q", u, g, ps)
		}
		for i := range ps {
			if g[i] != ps[i] {
				return fmt.Errorf("%s has %q, want %q", u, g, ps)
			}
		}
	}
	for u := range got {
		if _, ok := want[u]; !ok {
			return fmt.Errorf("unexpected URI %q with %q", u, got[u])
		}
	}
	return nil
}

func clipErr(err error) error {
	if s := err.Error(); len(s) > 2000 {
		return errors.New(s[:2000] + "...")
	}
	return err
}

func drawAnyText(t *rapid.T) string {
	return strOf(alnum+"abcxyz.:-_,\"/ é", 0, 20).Draw(t, "text")
}

type subsCase struct {
	Subs map[string][]string `json:"subs"`
}

func drawAnySubs(t *rapid.T) map[string][]string {
	m := map[string][]string{}
	for i := rapid.IntRange(0, 6).Draw(t, "nuris"); i > 0; i-- {
		u := rapid.SampledFrom([]string{uri(0), uri(1), uri(2), "", "HTTP://X", "http://é/日"}).Draw(t, "u")
		ps := []string{}
		for k := rapid.IntRange(0, 5).Draw(t, "npats"); k > 0; k-- {
			if rapid.Bool().Draw(t, "real") {
				it := drawItem(t)
				ps = append(ps, prefixPat(it, rapid.IntRange(1, len(it.Fields)).Draw(t, "depth")).URN())
			} else {
				ps = append(ps, drawAnyText(t))
			}
		}
		m[u] = ps
	}
	return m
}

func toSubs(m map[string][]string) filtering.Subscriptions {
	s := filtering.Subscriptions{}
	for u, ps := range m {
		// spare capacity, to notice appends in place
		c := make([]string, len(ps), len(ps)+8)
		copy(c, ps)
		s[u] = c
	}
	return s
}

// scramble overwrites everything a caller can reach through a set.
func scramble(s filtering.Subscriptions) {
	for u, ps := range s {
		full := ps[:cap(ps)]
		for i := range full {
			full[i] = "urn:epc:pat:sgtin-96:0"
		}
		s[u] = append(full, "urn:epc:pat:sgtin-96:1")
	}
	s["http://scrambled"] = []string{"urn:epc:pat:sgtin-96:2", "urn:epc:pat:iso17365:25S"}
	for u := range s {
		if strings.HasSuffix(u, "0") {
			delete(s, u)
		}
	}
}

func init() {
	register(spec{ID: "C14", Name: "csv",
		Rule:  "subscription files with quoted and bare fields, several lines per URI, upper-case URIs and pattern prefixes, fields that are no patterns, lines of other kinds, blank lines, either line ending and a missing last one; non-trivial: a URI with patterns and a line or field to leave out",
		Quick: 3000, Thorough: 60000, Shards: 4},
		func(t *rapid.T) c14Case {
			c := c14Case{CRLF: rapid.Bool().Draw(t, "crlf"), NoEnd: rapid.Bool().Draw(t, "noend"),
				Quote: rapid.SliceOfN(rapid.Bool(), 1, 7).Draw(t, "quote")}
			for i := rapid.IntRange(0, 8).Draw(t, "nrec"); i > 0; i-- {
				var r []string
				switch rapid.IntRange(0, 5).Draw(t, "line") {
				case 0:
					r = append(r, rapid.SampledFrom([]string{"# comment", "ftp://x/y", "urn:epc:pat:sgtin-96:3", "uri", "mailto:http@x", "xhttp://a", "//http://x"}).Draw(t, "other"))
				case 1:
					r = append(r, randomCase(t, rapid.SampledFrom([]string{"https://host/path", "http://host:8080/a?b=C"}).Draw(t, "u")))
				default:
					r = append(r, randomCase(t, uri(rapid.IntRange(0, 3).Draw(t, "u"))))
				}
				spaced := func(s string) string { // spaces around a field belong to it
					switch rapid.IntRange(0, 9).Draw(t, "spaced") {
					case 0:
						return strings.Repeat(" ", rapid.IntRange(1, 2).Draw(t, "spaces")) + s
					case 1:
						return s + " "
					}
					return s
				}
				r[0] = spaced(r[0])
				for k := rapid.IntRange(0, 5).Draw(t, "nf"); k > 0; k-- {
					switch rapid.IntRange(0, 4).Draw(t, "field") {
					case 0:
						r = append(r, rapid.SampledFrom([]string{"", "foo", "urn:epc:id:sgtin:1.2.3", "a,b", `say "x"`, "http://x", "urn:epc:pat"}).Draw(t, "nopat"))
					case 1:
						r = append(r, "urn:epc:pat:"+drawAnyText(t))
					default:
						it := drawItem(t)
						r = append(r, spaced(randomCase(t, prefixPat(it, rapid.IntRange(1, len(it.Fields)).Draw(t, "depth")).URN())))
					}
				}
				c.Records = append(c.Records, r)
				c.Blank = append(c.Blank, rapid.IntRange(0, 4).Draw(t, "blank") == 0)
			}
			return c
		},
		func(ctx *Ctx, c c14Case) error {
			want := map[string][]string{}
			kept, left := 0, 0
			for _, r := range c.Records {
				u := strings.ToLower(r[0])
				for _, f := range r[1:] {
					if (strings.HasPrefix(u, "http://") || strings.HasPrefix(u, "https://")) && strings.HasPrefix(strings.ToLower(f), "urn:epc:pat:") {
						want[u] = append(want[u], f)
						kept++
					} else {
						left++
					}
				}
			}
			file := filepath.Join(ctx.scratch, "subs.csv")
			if err := os.WriteFile(file, []byte(c.text()), 0o644); err != nil {
				return noCase("%v", err)
			}
			got := filtering.LoadSubscriptionsFromCSVFile(file)
			if err := sameSubs(got, want); err != nil {
				return fmt.Errorf("file %q: %w", c.text(), err)
			}
			ctx.NonTrivialIf(kept > 0 && left > 0)
			return nil
		})

	type bigFile struct {
		URIs    int  `json:"uris"`
		PerLine int  `json:"per_line"`
		Lines   int  `json:"lines"`
		Seed    int  `json:"seed"`
		CRLF    bool `json:"crlf"`
	}
	register(spec{ID: "C14", Name: "bigfile",
		Rule:  "files of many lines or of lines with thousands of patterns (up to about a megabyte), filled from a drawn seed: every pattern is loaded in order under its URI, copied and encoded; non-trivial: more than 64 KiB in one line or more than 1000 lines",
		Quick: 10, Thorough: 200, Shards: 4},
		func(t *rapid.T) bigFile {
			c := bigFile{URIs: rapid.IntRange(1, 300).Draw(t, "uris"), Seed: rapid.IntRange(0, 1<<30).Draw(t, "seed"), CRLF: rapid.Bool().Draw(t, "crlf")}
			if rapid.Bool().Draw(t, "wide") {
				c.Lines, c.PerLine = rapid.IntRange(1, 5).Draw(t, "lines"), rapid.IntRange(100, 5000).Draw(t, "perline")
			} else {
				c.Lines, c.PerLine = rapid.IntRange(200, 5000).Draw(t, "lines"), rapid.IntRange(0, 4).Draw(t, "perline")
			}
			return c
		},
		func(ctx *Ctx, c bigFile) error {
			rnd := rand.New(rand.NewSource(int64(c.Seed)))
			want := map[string][]string{}
			var b strings.Builder
			longest := 0
			for i := 0; i < c.Lines; i++ {
				u := fmt.Sprintf("http://subscriber/%d", rnd.Intn(c.URIs))
				l := u
				for k := 0; k < c.PerLine; k++ {
					p := fmt.Sprintf("urn:epc:pat:sgtin-96:%d.%d.%d.%d", rnd.Intn(8), 1000000+rnd.Intn(1000000), 100000+rnd.Intn(100000), rnd.Intn(1<<30))
					want[u] = append(want[u], p)
					l += "," + p
				}
				longest = max(longest, len(l))
				b.WriteString(l)
				if c.CRLF {
					b.WriteString("\r")
				}
				b.WriteString("\n")
			}
			file := filepath.Join(ctx.scratch, "big.csv")
			if err := os.WriteFile(file, []byte(b.String()), 0o644); err != nil {
				return noCase("%v", err)
			}
			got := filtering.LoadSubscriptionsFromCSVFile(file)
			if err := sameSubs(got, want); err != nil {
				return clipErr(err)
			}
			if err := sameSubs(got.Clone(), want); err != nil {
				return clipErr(fmt.Errorf("copy: %w", err))
			}
			saved, err := got.MarshalBinary()
			if err != nil {
				return fmt.Errorf("encoding: %v", err)
			}
			data := append([]byte(nil), holdBytes("encoding", saved)...)
			d := filtering.Subscriptions{}
			if err := d.UnmarshalBinary(data); err != nil {
				return fmt.Errorf("decoding: %v", err)
			}
			if err := sameSubs(d, want); err != nil {
				return clipErr(fmt.Errorf("decoded: %w", err))
			}
			ctx.NonTrivialIf(longest > 65536 || c.Lines > 1000)
			return nil
		})

	type badFile struct {
		Owned []Owned `json:"owned"`
		At    int     `json:"at"`
		Bad   string  `json:"bad"` // the line that is no CSV, or a file that cannot be read
	}
	register(spec{ID: "C14", Name: "unreadable",
		Rule:  "files with a line whose quotes are wrong, a file that does not exist and a directory: loading does not silently yield a part of the other lines (it panics, or yields all of them); non-trivial: a wrong line that is not the last",
		Quick: 400, Thorough: 4000, Shards: 4},
		func(t *rapid.T) badFile {
			w := drawWorld(t, 4)
			c := badFile{Owned: w.drawOwned(t, 1, 8), Bad: rapid.SampledFrom([]string{
				`http://broken,a"b`, `"http://broken"x,urn:epc:pat:sgtin-96:3`, `http://broken,"urn:epc:pat:sgtin-96:3"x`, `http://broken"`, "missing", "directory"}).Draw(t, "bad")}
			c.At = rapid.IntRange(0, len(c.Owned)).Draw(t, "at")
			return c
		},
		func(ctx *Ctx, c badFile) (err error) {
			want := map[string][]string{}
			var lines []string
			for _, o := range c.Owned {
				u := strings.ToLower(o.URI)
				want[u] = append(want[u], o.Pat.URN())
				lines = append(lines, fmt.Sprintf(`"%s","%s"`, strings.ReplaceAll(o.URI, `"`, `""`), strings.ReplaceAll(o.Pat.URN(), `"`, `""`)))
			}
			file := filepath.Join(ctx.scratch, "bad.csv")
			switch c.Bad {
			case "missing":
				file += ".missing"
			case "directory":
				file = ctx.scratch
			default:
				lines = append(lines[:c.At:c.At], append([]string{c.Bad}, lines[c.At:]...)...)
				if err := os.WriteFile(file, []byte(strings.Join(lines, "\n")+"\n"), 0o644); err != nil {
					return noCase("%v", err)
				}
				ctx.NonTrivialIf(c.At < len(c.Owned))
			}
			var got filtering.Subscriptions
			refused := func() (r bool) {
				defer func() { r = recover() != nil }()
				got = filtering.LoadSubscriptionsFromCSVFile(file)
				return
			}()
			if refused {
				return nil
			}
			if c.Bad == "missing" || c.Bad == "directory" {
				return fmt.Errorf("%s: loaded %q without complaint", c.Bad, got)
			}
			for u := range got {
				if strings.Contains(u, "broken") {
					delete(got, u)
				}
			}
			if err := sameSubs(got, want); err != nil {
				return fmt.Errorf("file %q was not refused: %w", strings.Join(lines, "\n"), err)
			}
			return nil
		})

	register(spec{ID: "C14", Name: "copy",
		Rule:  "sets of arbitrary URIs and texts: copy and decoded encoding (directly and inside a gob stream) are equal to the original, beginnings of the encoding are refused, and changing either side of the copy leaves the other alone; non-trivial: at least two URIs and three patterns",
		Quick: 3000, Thorough: 60000, Shards: 4},
		func(t *rapid.T) subsCase { return subsCase{drawAnySubs(t)} },
		func(ctx *Ctx, c subsCase) error {
			a := toSubs(c.Subs)
			b := a.Clone()
			if err := sameSubs(b, c.Subs); err != nil {
				return fmt.Errorf("copy: %w", err)
			}
			if err := sameSubs(a, c.Subs); err != nil {
				return fmt.Errorf("original after copying: %w", err)
			}
			scramble(b)
			if err := sameSubs(a, c.Subs); err != nil {
				return fmt.Errorf("original after changing the copy: %w", err)
			}
			b = a.Clone()
			scramble(a)
			if err := sameSubs(b, c.Subs); err != nil {
				return fmt.Errorf("copy after changing the original: %w", err)
			}
			a = toSubs(c.Subs)
			saved, err := a.MarshalBinary()
			if err != nil {
				return fmt.Errorf("encoding: %v", err)
			}
			data := append([]byte(nil), holdBytes("encoding", saved)...)
			if err := sameSubs(a, c.Subs); err != nil {
				return fmt.Errorf("original after encoding: %w", err)
			}
			d := filtering.Subscriptions{}
			if err := d.UnmarshalBinary(data); err != nil {
				return fmt.Errorf("decoding: %v", err)
			}
			if err := sameSubs(d, c.Subs); err != nil {
				return fmt.Errorf("decoded: %w", err)
			}
			if err := refusesTruncated(data, func(part []byte) error { return filtering.Subscriptions{}.UnmarshalBinary(part) }); err != nil {
				return err
			}
			var buf bytes.Buffer
			if err := gob.NewEncoder(&buf).Encode(&a); err != nil {
				return fmt.Errorf("gob encoding: %v", err)
			}
			d = filtering.Subscriptions{}
			if err := gob.NewDecoder(&buf).Decode(&d); err != nil {
				return fmt.Errorf("gob decoding: %v", err)
			}
			if err := sameSubs(d, c.Subs); err != nil {
				return fmt.Errorf("gob decoded: %w", err)
			}
			n := 0
			for _, ps := range c.Subs {
				n += len(ps)
			}
			ctx.NonTrivialIf(len(c.Subs) > 1 && n > 2)
			return nil
		})
}

// refusesTruncated decodes beginnings of data, all of them if it is short.
func refusesTruncated(data []byte, decode func([]byte) error) error {
	step := len(data)/40 + 1
	for n := len(data) - 1; n >= 0; n -= step {
		if err := decode(append([]byte(nil), data[:n]...)); err == nil {
			return fmt.Errorf("decoding the first %d of %d bytes succeeded", n, len(data))
		}
	}
	return nil
}

// ---- C15 ---------------------------------------------------------------------

type spelled struct {
	Owned Owned  `json:"o"`
	Text  string `json:"t"`
}

type c15Case struct {
	Subs []spelled `json:"subs"`
	Tags []Tag     `json:"tags"`
}

// bnode is a generated nested prefix set.
type bnode struct {
	Offset int              `json:"o"`
	URI    string           `json:"u"`
	Subset map[string]bnode `json:"s,omitempty"`
}

func drawBnodes(t *rapid.T, depth int) map[string]bnode {
	m := map[string]bnode{}
	for i := rapid.IntRange(0, 3).Draw(t, "nb"); i > 0; i-- {
		n := bnode{Offset: rapid.IntRange(-1, 500).Draw(t, "off"), URI: rapid.SampledFrom([]string{"", uri(0), uri(1), "x"}).Draw(t, "u")}
		if depth > 0 && rapid.Bool().Draw(t, "deep") {
			n.Subset = drawBnodes(t, depth-1)
		}
		m[strOf("01", 0, 12).Draw(t, "fs")] = n
	}
	return m
}

func toBsub(m map[string]bnode) filtering.ByteSubscriptions {
	b := filtering.ByteSubscriptions{}
	for fs, n := range m {
		ps := &filtering.PartialSubscription{Offset: n.Offset, ReportURI: n.URI}
		if n.Subset != nil {
			ps.Subset = toBsub(n.Subset)
		}
		b[fs] = ps
	}
	return b
}

func sameBsub(b filtering.ByteSubscriptions, m map[string]bnode) error {
	if len(b) != len(m) {
		return fmt.Errorf("has prefixes %q, want %v", b.Keys(), m)
	}
	for fs, n := range m {
		ps := b[fs]
		if ps == nil || ps.Offset != n.Offset || ps.ReportURI != n.URI {
			return fmt.Errorf("prefix %s has %+v, want %+v", fs, ps, n)
		}
		if err := sameBsub(ps.Subset, n.Subset); err != nil {
			return fmt.Errorf("below %s: %w", fs, err)
		}
	}
	return nil
}

func drawSpelled(t *rapid.T, w world, min, max int) []spelled {
	var out []spelled
	for _, o := range w.drawOwned(t, min, max) {
		out = append(out, spelled{o, randomCase(t, o.Pat.URN())})
	}
	return out
}

func spelledSubs(ss []spelled) map[string][]string {
	m := map[string][]string{}
	for _, s := range ss {
		m[s.Owned.URI] = append(m[s.Owned.URI], s.Text)
	}
	return m
}

func ownedOf(ss []spelled) []Owned {
	var out []Owned
	for _, s := range ss {
		out = append(out, s.Owned)
	}
	return out
}

type c15Alias struct {
	Init []Owned `json:"init"`
	Ops  []Op    `json:"ops"`
	Tags []Tag   `json:"tags"`
}

func init() {
	register(spec{ID: "C15", Name: "convert",
		Rule:  "patterns spelled in upper, lower or mixed case, several spellings of one prefix: one entry per distinct prefix with its owner, no offset and no subset, and the set is not changed; every engine built from it matches as from canonical spelling; non-trivial: three prefixes and a spelling that is not canonical",
		Quick: 4000, Thorough: 80000, Shards: 8},
		func(t *rapid.T) c15Case {
			w := drawWorld(t, 4)
			c := c15Case{Subs: drawSpelled(t, w, 0, 8), Tags: w.tags()}
			for _, s := range append([]spelled(nil), c.Subs...) { // a second spelling
				if rapid.IntRange(0, 3).Draw(t, "again") == 0 {
					c.Subs = append(c.Subs, spelled{s.Owned, randomCase(t, s.Owned.Pat.URN())})
				}
			}
			return c
		},
		func(ctx *Ctx, c c15Case) error {
			m := spelledSubs(c.Subs)
			subs := toSubs(m)
			b := subs.ToByteSubscriptions()
			want := map[string]bnode{}
			odd := false
			for _, s := range c.Subs {
				f, _ := refFilter(s.Owned.Pat)
				want[f] = bnode{URI: s.Owned.URI}
				odd = odd || s.Text != s.Owned.Pat.URN()
			}
			if err := sameBsub(b, want); err != nil {
				return fmt.Errorf("converted set of %v: %w", m, err)
			}
			if err := sameSubs(subs, m); err != nil {
				return fmt.Errorf("after the conversion: %w", err)
			}
			owner := ownerMap(ownedOf(c.Subs))
			sm := sharedModel{}
			for _, s := range c.Subs {
				sm.add(s.Owned)
			}
			for _, name := range allEngines {
				e := newEngine(name, toSubs(m))
				for _, tag := range c.Tags {
					var err error
					if name == "LegacyEngine" {
						err = checkLegacySearch(e, sm, tag)
					} else {
						err = checkSearch(name, e, owner, tag)
					}
					if err != nil {
						return fmt.Errorf("subscriptions %v: %w", m, err)
					}
				}
			}
			ctx.NonTrivialIf(odd && len(want) > 2)
			return nil
		})

	register(spec{ID: "C15", Name: "encode",
		Rule:  "arbitrarily nested prefix sets: encoded and decoded as a gob map and as a single entry they are equal, beginnings of an entry are refused, and the original is unchanged; non-trivial: an entry with a subset",
		Quick: 3000, Thorough: 60000, Shards: 4},
		func(t *rapid.T) map[string]bnode { return drawBnodes(t, 3) },
		func(ctx *Ctx, c map[string]bnode) error {
			b := toBsub(c)
			var buf bytes.Buffer
			if err := gob.NewEncoder(&buf).Encode(b); err != nil {
				return fmt.Errorf("encoding: %v", err)
			}
			if err := sameBsub(b, c); err != nil {
				return fmt.Errorf("original after encoding: %w", err)
			}
			var d filtering.ByteSubscriptions
			if err := gob.NewDecoder(&buf).Decode(&d); err != nil {
				return fmt.Errorf("decoding: %v", err)
			}
			if err := sameBsub(d, c); err != nil {
				return fmt.Errorf("decoded: %w", err)
			}
			for fs, ps := range b {
				ctx.NonTrivialIf(len(c[fs].Subset) > 0)
				saved, err := ps.MarshalBinary()
				if err != nil {
					return fmt.Errorf("encoding entry %s: %v", fs, err)
				}
				data := append([]byte(nil), holdBytes("encoding", saved)...)
				one := &filtering.PartialSubscription{}
				if err := one.UnmarshalBinary(data); err != nil {
					return fmt.Errorf("decoding entry %s: %v", fs, err)
				}
				if err := sameBsub(filtering.ByteSubscriptions{fs: one}, map[string]bnode{fs: c[fs]}); err != nil {
					return fmt.Errorf("decoded entry: %w", err)
				}
				if err := refusesTruncated(data, func(part []byte) error { return new(filtering.PartialSubscription).UnmarshalBinary(part) }); err != nil {
					return fmt.Errorf("entry: %w", err)
				}
			}
			return nil
		})

	register(spec{ID: "C15", Name: "aliasing",
		Rule:  "every engine built, searched, extended and cut with sets whose slices have spare capacity: no call changes any set given to it, and after the caller overwrites all of them the engine still answers as its model; non-trivial: an addition under a URI that was already subscribed and an effective deletion",
		Quick: 3000, Thorough: 60000, Shards: 8},
		func(t *rapid.T) c15Alias {
			w := drawWorld(t, 4)
			c := c15Alias{Init: w.drawOwned(t, 0, 6), Tags: w.tags()}
			c.Ops = w.drawOps(t, ownerMap(c.Init), 1, 10)
			return c
		},
		func(ctx *Ctx, c c15Alias) error {
			grown, cut := false, false
			for _, name := range allEngines {
				owner := ownerMap(c.Init)
				sm := sharedModel{}
				for _, o := range c.Init {
					sm.add(o)
				}
				type given struct {
					subs filtering.Subscriptions
					want map[string][]string
				}
				var all []given
				give := func(os []Owned) filtering.Subscriptions {
					want := map[string][]string(subsOf(os))
					s := toSubs(want)
					all = append(all, given{s, want})
					return s
				}
				e := newEngine(name, give(c.Init))
				unchanged := func(when string) error {
					for _, g := range all {
						if err := sameSubs(g.subs, g.want); err != nil {
							return fmt.Errorf("%s: %s changed a set of the caller: %w", when, name, err)
						}
						for u, ps := range g.subs {
							for _, p := range ps[len(ps):cap(ps)] {
								if p != "" {
									return fmt.Errorf("%s: %s wrote %q into the caller's slice of %s", when, name, p, u)
								}
							}
						}
					}
					return nil
				}
				answers := func(when string) error {
					for _, tag := range c.Tags {
						var err error
						if name == "LegacyEngine" {
							err = checkLegacySearch(e, sm, tag)
						} else {
							err = checkSearch(name, e, owner, tag)
						}
						if err != nil {
							return fmt.Errorf("%s: %w", when, err)
						}
					}
					return nil
				}
				if err := unchanged("construction"); err != nil {
					return err
				}
				for i, op := range c.Ops {
					switch op.Kind {
					case "search":
						e.Search(op.Tag.event())
					case "add":
						e.AddSubscription(give(op.Subs))
						for _, o := range op.Subs {
							f, _ := refFilter(o.Pat)
							for _, u := range owner {
								grown = grown || u == o.URI
							}
							owner[f] = o.URI
							sm.add(o)
						}
					case "del":
						e.DeleteSubscription(give(op.Subs))
						for _, o := range op.Subs {
							f, _ := refFilter(o.Pat)
							if owner[f] == o.URI {
								delete(owner, f)
								cut = true
							}
							sm.del(o)
						}
					}
					if err := unchanged(fmt.Sprintf("op %d (%s)", i, op.Kind)); err != nil {
						return err
					}
					if i == len(c.Ops)/2 { // the caller changes what it gave so far
						for _, g := range all {
							scramble(g.subs)
						}
						all = nil
						if err := answers(fmt.Sprintf("after the caller changed its sets (op %d)", i)); err != nil {
							return err
						}
					}
				}
				e.Dump()
				if _, err := e.MarshalBinary(); err != nil {
					return err
				}
				if err := unchanged("saving"); err != nil {
					return err
				}
				for _, g := range all {
					scramble(g.subs)
				}
				if err := answers("after the caller changed its sets"); err != nil {
					return err
				}
			}
			ctx.NonTrivialIf(grown && cut)
			return nil
		})
}
