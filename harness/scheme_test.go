package harness

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"math/big"
	"slices"
	"strings"

	"github.com/iomz/gosstrak/filtering"
	"github.com/iomz/gosstrak/scheme"
	"github.com/iomz/gosstrak/tdt"
	"pgregory.net/rapid"
)

// encodeEPC calls the encoder of a scheme. f has all fields, "" for blank.
func encodeEPC(pf bool, name string, f []string) ([]byte, string, string, error) {
	b, x, y, err := encodeEPCRaw(pf, name, f)
	if pf {
		return b, x, y, err
	}
	return holdBytes("encoder", b), x, y, err
}

func encodeEPCRaw(pf bool, name string, f []string) ([]byte, string, string, error) {
	switch name {
	case "giai-96":
		return scheme.MakeGIAI96(pf, f[0], f[1], f[2])
	case "grai-96":
		return scheme.MakeGRAI96(pf, f[0], f[1], f[2], f[3])
	case "sgtin-96":
		return scheme.MakeSGTIN96(pf, f[0], f[1], f[2], f[3])
	case "sscc-96":
		return scheme.MakeSSCC96(pf, f[0], f[1], f[2])
	}
	panic(name)
}

// makeEPC calls the generator front end.
func makeEPC(pf bool, spelled, name string, f []string) (string, string) {
	ir, ext, ser, iar, at := "", "", "", "", ""
	switch name {
	case "giai-96":
		iar = f[2]
	case "grai-96":
		at, ser = f[2], f[3]
	case "sgtin-96":
		ir, ser = f[2], f[3]
	case "sscc-96":
		ext = f[2]
	}
	return scheme.MakeEPC(pf, spelled, f[0], f[1], ir, ext, ser, iar, at)
}

func randomCase(t *rapid.T, s string) string {
	switch rapid.IntRange(0, 3).Draw(t, "case") {
	case 0:
		return strings.ToUpper(s)
	case 1:
		b := []byte(s)
		for i := range b {
			if rapid.Bool().Draw(t, "up") {
				b[i] = strings.ToUpper(string(b[i]))[0]
			} else {
				b[i] = strings.ToLower(string(b[i]))[0]
			}
		}
		return string(b)
	}
	return s
}

type c07Case struct {
	Scheme  string   `json:"scheme"`
	Spelled string   `json:"spelled"`
	Fields  []string `json:"fields"`
	Blank   []int    `json:"blank,omitempty"`
	What    string   `json:"what,omitempty"`
}

// respell changes the number of leading zeros of a reference or serial.
func respell(t *rapid.T, s string, max int) string {
	v := strings.TrimLeft(s, "0")
	if v == "" {
		v = "0"
	}
	switch rapid.IntRange(0, 3).Draw(t, "respell") {
	case 0:
		return v
	case 1:
		return padDigits(v, max)
	}
	return s
}

var gs1Core = tdt.NewCore()

func init() {
	register(spec{ID: "C07", Name: "exact",
		Rule:  "all fields of one EPC drawn in range (every scheme and company prefix length, edges of the digits and bits, with and without leading zeros); the 96 bits equal the reference encoding, translate back, and the generator front end prints the same bits; non-trivial: company prefix, reference and serial are not all zero",
		Quick: 15000, Thorough: 300000, Shards: 8},
		func(t *rapid.T) c07Case {
			name := rapid.SampledFrom(epcNames).Draw(t, "scheme")
			it := drawEPCItem(t, name)
			it.Fields[2] = respell(t, it.Fields[2], epcSchemes[name].RefDigits-len(it.Fields[1]))
			if len(it.Fields) > 3 {
				it.Fields[3] = respell(t, it.Fields[3], 12)
			}
			return c07Case{Scheme: name, Spelled: randomCase(t, name), Fields: it.Fields}
		},
		func(ctx *Ctx, c c07Case) error {
			want, ok := refEPCTag(c.Scheme, c.Fields)
			if !ok {
				return noCase("%v is not encodable", c)
			}
			got, _, _, err := encodeEPC(false, c.Scheme, c.Fields)
			if err != nil {
				return fmt.Errorf("encoding %v: %v", c, err)
			}
			if !bytes.Equal(got, want) {
				return fmt.Errorf("encoding %v: %x, want %x", c, got, want)
			}
			if _, err := checkTranslate(gs1Core, []byte{0x30, 0}, got); err != nil {
				return err
			}
			bits, pc := makeEPC(false, c.Spelled, c.Scheme, c.Fields)
			if bits != bytesToBits(want) || pc != "3000" {
				return fmt.Errorf("MakeEPC(%v) = %s, %s, want %s, 3000", c, bits, pc, bytesToBits(want))
			}
			ctx.NonTrivialIf(strings.Trim(strings.Join(c.Fields[1:], ""), "0") != "")
			ctx.Label(fmt.Sprintf("%s cp%d", c.Scheme, len(c.Fields[1])))
			return nil
		})

	register(spec{ID: "C07", Name: "blank",
		Rule:  "an EPC with any subset of filter value, reference and serial left blank: the tag has 12 bytes, is valid, and carries the given fields; a blank company prefix is refused; non-trivial: at least one field blank",
		Quick: 6000, Thorough: 150000, Shards: 4},
		func(t *rapid.T) c07Case {
			name := rapid.SampledFrom(epcNames).Draw(t, "scheme")
			it := drawEPCItem(t, name)
			c := c07Case{Scheme: name, Spelled: name, Fields: it.Fields}
			for i := range it.Fields {
				if i == 1 && rapid.IntRange(0, 19).Draw(t, "nocp") != 0 {
					continue
				}
				if rapid.Bool().Draw(t, "blank") {
					c.Fields[i] = ""
					c.Blank = append(c.Blank, i)
				}
			}
			return c
		},
		func(ctx *Ctx, c c07Case) error {
			got, _, _, err := encodeEPC(false, c.Scheme, c.Fields)
			ctx.NonTrivialIf(len(c.Blank) > 0)
			if c.Fields[1] == "" {
				ctx.Label("blank company prefix")
				if err == nil {
					return fmt.Errorf("encoding %v without a company prefix gave %x", c, got)
				}
				return nil
			}
			if err != nil {
				return fmt.Errorf("encoding %v: %v", c, err)
			}
			if _, ok := refTranslate([]byte{0x30, 0}, got); !ok {
				return fmt.Errorf("encoding %v: %x is not a valid tag", c, got)
			}
			full, _ := decodeEPC(c.Scheme, got)
			for i, f := range c.Fields {
				if f != "" && dec(f).Cmp(dec(full[i])) != 0 || i == 1 && f != full[1] {
					return fmt.Errorf("encoding %v: field %d of %x is %s", c, i, got, full[i])
				}
			}
			if want, ok := refEPCTag(c.Scheme, full); !ok || !bytes.Equal(want, got) {
				return fmt.Errorf("encoding %v: %x has other bits than its fields %v (%x)", c, got, full, want)
			}
			return nil
		})

	register(spec{ID: "C07", Name: "misfit",
		Rule:  "one field of an otherwise valid EPC is made unencodable (filter value over 7, company prefix of a wrong length, reference over its digits, serial over 38 bits, not a number): the encoder returns an error and no bytes, with and without the prefix flag; non-trivial: every case",
		Quick: 6000, Thorough: 150000, Shards: 4},
		func(t *rapid.T) c07Case {
			name := rapid.SampledFrom(epcNames).Draw(t, "scheme")
			it := drawEPCItem(t, name)
			c := c07Case{Scheme: name, Spelled: name, Fields: it.Fields}
			c.What = misfit(t, name, c.Fields)
			return c
		},
		func(ctx *Ctx, c c07Case) error {
			if _, ok := refEPCTag(c.Scheme, c.Fields); ok {
				return noCase("%v is encodable", c)
			}
			ctx.NonTrivial()
			ctx.Label(c.What)
			for _, pf := range []bool{false, true} {
				b, f, elem, err := encodeEPC(pf, c.Scheme, c.Fields)
				if err == nil {
					return fmt.Errorf("encoding %v (prefix %v): %x %q %q and no error", c, pf, b, f, elem)
				}
				if len(b) > 0 || f != "" {
					return fmt.Errorf("encoding %v (prefix %v): error %v together with %x %q", c, pf, err, b, f)
				}
			}
			if bits, _ := makeEPC(false, c.Scheme, c.Scheme, c.Fields); bits != "" {
				return fmt.Errorf("MakeEPC(%v) printed %s", c, bits)
			}
			return nil
		})
}

// decodeEPC splits a valid tag into its fields.
func decodeEPC(name string, id []byte) ([]string, bool) {
	s := epcSchemes[name]
	bits := bytesToBits(id)
	num := func(from, n int) string {
		v, _ := new(big.Int).SetString("0"+bits[from:from+n], 2)
		return v.String()
	}
	cd := 12 - int(dec(num(11, 3)).Int64())
	w, ok := cpWidth[cd]
	if !ok {
		return nil, false
	}
	f := []string{num(8, 3), padDigits(num(14, w), cd), num(14+w, s.RefWidth-w)}
	if s.Serial > 0 {
		f = append(f, num(14+s.RefWidth, s.Serial))
	}
	return f, true
}

// notNumber draws a string that is no unsigned decimal number.
func notNumber(t *rapid.T, s string) string {
	switch rapid.IntRange(0, 4).Draw(t, "notnum") {
	case 0:
		return rapid.SampledFrom([]string{"-1", "+1", " 1", "1 ", "0x1", "1e3", "1_0", "*", "A", "[1-3]", "１", "0b1"}).Draw(t, "nn")
	case 1:
		return "-" + s
	case 2:
		return "+" + s
	}
	b := []byte(s)
	if len(b) == 0 {
		return "x"
	}
	i := rapid.IntRange(0, len(b)-1).Draw(t, "nnpos")
	b[i] = rapid.SampledFrom([]byte("ABFXabfx-+ *,/_?")).Draw(t, "nnch")
	return string(b)
}

// misfit makes one field of an EPC unencodable.
func misfit(t *rapid.T, name string, f []string) string {
	s := epcSchemes[name]
	cp := f[1]
	for {
		switch rapid.IntRange(0, 6).Draw(t, "misfit") {
		case 0:
			f[0] = rapid.SampledFrom([]string{"8", "9", "10", "15", "16", "255", "256", "4294967296", "18446744073709551616", "4294967299"}).Draw(t, "fv")
			return "filter value"
		case 1:
			n := rapid.SampledFrom([]int{1, 2, 3, 4, 5, 13, 14, 15, 20}).Draw(t, "cplen")
			f[1] = digitsN(n).Draw(t, "cp")
			return "company prefix length"
		case 2, 3: // over its digits, at the edge or far away
			rd := s.RefDigits - len(cp)
			v := pow10(rd)
			switch rapid.IntRange(0, 3).Draw(t, "over") {
			case 0:
			case 1:
				v.Add(v, big.NewInt(int64(rapid.IntRange(0, 100).Draw(t, "by"))))
			case 2:
				v = pow2(s.RefWidth - cpWidth[len(cp)])
			default:
				v.Mul(v, pow10(rapid.IntRange(1, 20).Draw(t, "mul")))
			}
			// a reference in range would be no misfit
			if _, ok := bin(v, s.RefWidth-cpWidth[len(cp)]); ok && v.Cmp(pow10(rd)) < 0 {
				continue
			}
			f[2] = v.String()
			return "reference"
		case 4:
			if s.Serial == 0 {
				continue
			}
			v := pow2(38)
			if rapid.Bool().Draw(t, "far") {
				v.Mul(v, pow10(rapid.IntRange(0, 20).Draw(t, "mul")))
				v.Add(v, big.NewInt(int64(rapid.IntRange(0, 1000).Draw(t, "by"))))
			}
			f[3] = v.String()
			return "serial"
		default:
			i := rapid.IntRange(0, len(f)-1).Draw(t, "nnfield")
			f[i] = notNumber(t, f[i])
			return fmt.Sprintf("field %d not a number", i)
		}
	}
}

// ---- C08 ---------------------------------------------------------------------

type c08Case struct {
	Item  Item  `json:"item"`
	Depth int   `json:"depth"`
	Tags  []Tag `json:"tags"`
	Blank bool  `json:"blank"` // generator draws the filter value
}

// tagCarries reports whether a tag begins with the fields of an item's prefix,
// computed from the decoded tag.
func tagCarries(p Pat, tag Tag) bool {
	_, id := tag.bytes()
	if s, ok := epcSchemes[p.Scheme]; ok {
		if len(id) != 12 || int(id[0]) != s.Header {
			return false
		}
		if len(p.Fields) == 1 {
			return dec(p.Fields[0]).Cmp(big.NewInt(int64(id[1]>>5))) == 0
		}
		f, ok := decodeEPC(p.Scheme, id)
		if !ok {
			return false
		}
		for i, x := range p.Fields {
			if i == 1 && len(x) != len(f[1]) || dec(x).Cmp(dec(f[i])) != 0 {
				return false
			}
		}
		return true
	}
	text := strings.Join(p.Fields, "")
	if p.Scheme == "iso17363" && len(p.Fields) == 4 { // a container number ends in its check digit
		text = strings.Join(p.Fields[:3], "") + padDigits(p.Fields[3], 6)
		if cd, ok := checkDigit(text[len(p.Fields[0]):]); ok {
			text += fmt.Sprint(cd)
		}
	}
	bits := bytesToBits(id)
	for i := 0; i < len(text); i++ {
		if 6*i+6 > len(bits) {
			return false
		}
		c := 0
		for k := 0; k < 6; k++ {
			c = c<<1 | int(bits[6*i+k]-'0')
		}
		if c < 32 {
			c += 64
		}
		if byte(c) != text[i] {
			return false
		}
	}
	return true
}

func parsePat(urn string) (string, []string, bool) {
	rest, ok := strings.CutPrefix(urn, "urn:epc:pat:")
	if !ok {
		return "", nil, false
	}
	tf := strings.Split(rest, ":")
	if len(tf) != 2 {
		return "", nil, false
	}
	return tf[0], strings.Split(tf[1], "."), true
}

// genPrefix asks the tag generator for the prefix of the first k fields.
func genPrefix(it Item, k int, front bool) (filter, elem string, err error) {
	f := append([]string(nil), it.Fields...)
	for i := k; i < len(f); i++ {
		f[i] = ""
	}
	if it.isEPC() {
		if front {
			filter, elem = makeEPC(true, it.Scheme, it.Scheme, f)
			return
		}
		_, filter, elem, err = encodeEPC(true, it.Scheme, f)
		return
	}
	if it.Scheme == "iso17363" {
		if front {
			filter, elem = scheme.MakeISO(true, "17363", f[1], f[2], f[3], "", "", "", "")
			return
		}
		_, _, filter, elem, err = scheme.MakeISO17363(true, f[1], f[2], f[3])
		return
	}
	if front {
		filter, elem = scheme.MakeISO(true, "17365", "", "", "", f[0], f[1], f[2], f[3])
		return
	}
	_, _, filter, elem, err = scheme.MakeISO17365(true, f[0], f[1], f[2], f[3])
	return
}

func init() {
	register(spec{ID: "C08", Name: "prefix",
		Rule:  "a pattern of 1..n leading fields of an item of each scheme: the parser's and both generator entry points' prefix equal the reference, the printed pattern parses back to it, the prefix covers the item's tag as its encoder makes it, and covers each of several related tags of the family exactly when these begin with the fields; non-trivial: some related tag is covered and some is not",
		Quick: 10000, Thorough: 200000, Shards: 8},
		func(t *rapid.T) c08Case {
			w := world{items: []Item{drawItem(t)}}
			it := w.items[0]
			c := c08Case{Item: it, Depth: rapid.IntRange(1, len(it.Fields)).Draw(t, "depth")}
			canon := it
			if rapid.Bool().Draw(t, "respell") {
				it = Item{it.Scheme, respellPat(t, Pat{it.Scheme, it.Fields}).Fields}
				c.Item = it
			}
			if it.isEPC() {
				c.Blank = rapid.IntRange(0, 5).Draw(t, "blankfv") == 0
			}
			for i := rapid.IntRange(1, 5).Draw(t, "ntags"); i > 0; i-- {
				var tag Tag
				switch rapid.IntRange(0, 3).Draw(t, "kind") {
				case 0:
					s := it.Scheme
					if it.isEPC() {
						s = rapid.SampledFrom(epcNames).Draw(t, "sib")
						tag = drawEPCItem(t, s).tag()
					} else {
						tag = drawISOItem(t, rapid.SampledFrom([]string{"iso17363", "iso17365"}).Draw(t, "sib")).tag()
					}
				case 1: // flip a bit near the end of the prefix
					pc, id := canon.tag().bytes()
					b := rapid.IntRange(0, len(id)*8-1).Draw(t, "flip")
					id[b/8] ^= 0x80 >> (b % 8)
					tag = mkTag(pc, id)
				default:
					m := mutateItem(t, canon)
					if rapid.Bool().Draw(t, "twice") {
						m = mutateItem(t, m)
					}
					tag = m.tag()
				}
				c.Tags = append(c.Tags, tag)
			}
			return c
		},
		func(ctx *Ctx, c c08Case) error {
			p := prefixPat(c.Item, c.Depth)
			want, ok := refFilter(p)
			if !ok {
				return noCase("malformed %v", p)
			}
			got, err := tdt.MakePrefixFilterString(p.Scheme, append([]string(nil), p.Fields...))
			if err != nil || got != want {
				return fmt.Errorf("%s: parser prefix %q (%v), want %q", p.URN(), got, err, want)
			}
			for _, front := range []bool{false, true} {
				f, elem, err := genPrefix(c.Item, c.Depth, front)
				if err != nil || f != want {
					return fmt.Errorf("%s: generator prefix %q (%v), want %q", p.URN(), f, err, want)
				}
				s, fields, ok := parsePat(elem)
				if !ok {
					return fmt.Errorf("%s: generator printed %q", p.URN(), elem)
				}
				back, err := tdt.MakePrefixFilterString(s, fields)
				if err != nil || back != want {
					return fmt.Errorf("%s: generator printed %q, which parses to %q (%v), want %q", p.URN(), elem, back, err, want)
				}
				if b := (filtering.Subscriptions{"http://x": {elem}}).ToByteSubscriptions(); len(b) != 1 || b[want] == nil {
					return fmt.Errorf("%s: generator printed %q, which subscribes to %v", p.URN(), elem, b.Keys())
				}
			}
			if c.Blank { // the generator draws the filter value
				it := Item{c.Item.Scheme, append([]string{""}, c.Item.Fields[1:]...)}
				f, elem, err := genPrefix(it, c.Depth, false)
				if err != nil {
					return fmt.Errorf("%v with a random filter value: %v", it, err)
				}
				s, fields, ok := parsePat(elem)
				if !ok {
					return fmt.Errorf("%v: generator printed %q", it, elem)
				}
				back, err := tdt.MakePrefixFilterString(s, fields)
				if err != nil || back != f {
					return fmt.Errorf("%v: generator printed %q, which parses to %q (%v), want %q", it, elem, back, err, f)
				}
				if ref, ok := refFilter(Pat{s, fields}); !ok || ref != f {
					return fmt.Errorf("%v: generator printed %q and prefix %q, want %q", it, elem, f, ref)
				}
			}
			// the item's own tag, as the encoders make it
			own, err := encodeItem(c.Item)
			if err != nil {
				return fmt.Errorf("encoding %v: %v", c.Item, err)
			}
			if !covers(got, own) {
				return fmt.Errorf("%s: prefix %s does not cover its own tag %x", p.URN(), got, own)
			}
			match := filtering.NewFilter(got, 0)
			hit, miss := 0, 0
			for _, tag := range c.Tags {
				_, id := tag.bytes()
				carries := tagCarries(p, tag)
				if match.Match(id) != carries {
					return fmt.Errorf("%s: prefix %s, tag %s carries the fields: %v", p.URN(), got, tag.ID, carries)
				}
				if carries {
					hit++
				} else {
					miss++
				}
			}
			ctx.NonTrivialIf(hit > 0 && miss > 0)
			ctx.Label(fmt.Sprintf("%s depth %d", p.Scheme, c.Depth))
			return nil
		})
}

func encodeItem(it Item) ([]byte, error) {
	if it.isEPC() {
		b, _, _, err := encodeEPC(false, it.Scheme, it.Fields)
		return b, err
	}
	if it.Scheme == "iso17363" {
		b, _, _, _, err := scheme.MakeISO17363(false, it.Fields[1], it.Fields[2], it.Fields[3])
		return holdBytes("encoder", b), err
	}
	b, _, _, _, err := scheme.MakeISO17365(false, it.Fields[0], it.Fields[1], it.Fields[2], it.Fields[3])
	return holdBytes("encoder", b), err
}

// ---- C09 ---------------------------------------------------------------------

type badPat struct {
	Pat  Pat    `json:"pat"`
	Raw  string `json:"raw"` // not even a pattern, if not empty
	What string `json:"what"`
}

func (b badPat) text() string {
	if b.What == "segments" {
		return b.Raw
	}
	return b.Pat.URN()
}

// drawBad draws a malformed pattern.
func drawBad(t *rapid.T, w world) badPat {
	it := w.items[rapid.IntRange(0, len(w.items)-1).Draw(t, "baditem")]
	k := rapid.IntRange(1, len(it.Fields)).Draw(t, "baddepth")
	for {
		f := append([]string(nil), it.Fields...) // without what an earlier round has done
		switch rapid.IntRange(0, 6).Draw(t, "badkind") {
		case 0:
			s := rapid.SampledFrom([]string{"", "sgtin", "sgtin-198", "sgln-96", "gid-96", "iso17364", "iso17366", "iso17367", "iso", "raw", "sgtin-96 ", "epc", "sscc", "grai", "giai"}).Draw(t, "scheme")
			if rapid.Bool().Draw(t, "misspelt") {
				s = it.Scheme
				at := rapid.IntRange(0, len(s)-1).Draw(t, "at")
				switch rapid.IntRange(0, 3).Draw(t, "how") {
				case 0: // cut
					s = s[:at]
				case 1: // a character left out
					s = s[:at] + s[at+1:]
				default: // another one
					s = s[:at] + rapid.SampledFrom([]string{"-", "0", "9", "6", "s", "x", " ", "_", "."}).Draw(t, "other") + s[at+rapid.IntRange(0, 1).Draw(t, "instead"):]
				}
				if slices.Contains(allSchemes, s) {
					continue
				}
			}
			return badPat{Pat: Pat{s, f[:k]}, What: "scheme"}
		case 1:
			n := rapid.IntRange(1, 3).Draw(t, "extra")
			for i := 0; i < n; i++ {
				f = append(f, rapid.SampledFrom([]string{"0", "1", "7", "A"}).Draw(t, "x"))
			}
			return badPat{Pat: Pat{it.Scheme, f}, What: "too many"}
		case 2:
			if rapid.Bool().Draw(t, "trail") && k < len(f) {
				return badPat{Pat: Pat{it.Scheme, append(append([]string(nil), f[:k]...), "")}, What: "blank"}
			}
			f[rapid.IntRange(0, k-1).Draw(t, "blank")] = ""
			return badPat{Pat: Pat{it.Scheme, f[:k]}, What: "blank"}
		case 3, 4:
			if !it.isEPC() {
				if it.Scheme == "iso17363" && rapid.Bool().Draw(t, "csn") {
					switch rapid.IntRange(0, 4).Draw(t, "csnkind") {
					case 4: // no check digit
						at := rapid.IntRange(0, 2).Draw(t, "at")
						f[1] = f[1][:at] + rapid.SampledFrom([]string{"-", " ", "?", "_", "/", "!", "[", "@"}).Draw(t, "nocd") + f[1][at+1:]
					case 3: // eleven characters all the same
						n := rapid.IntRange(1, 8).Draw(t, "cut")
						text := strOf(letters, n, n).Draw(t, "oc+ei")
						at := rapid.IntRange(0, n).Draw(t, "oclen")
						f[1], f[2], f[3] = text[:at], text[at:], digitsN(10-n).Draw(t, "csn")
					case 0:
						f[3] = digitsN(7).Draw(t, "csn7")
					case 1:
						f[3] = notNumber(t, f[3])
					default:
						f[1] = strOf(letters, 1, 2).Draw(t, "oc")
					}
					if _, ok := refFilter(Pat{it.Scheme, f}); ok {
						continue
					}
					return badPat{Pat: Pat{it.Scheme, f}, What: "serial number"}
				}
				i := rapid.IntRange(0, k-1).Draw(t, "charfield")
				f[i] += rapid.SampledFrom([]string{"~", "{", "|", "é", "日", "\x01", "\x7f", "}", "`", "\x1f"}).Draw(t, "char")
				return badPat{Pat: Pat{it.Scheme, f[:k]}, What: "character"}
			}
			what := misfit(t, it.Scheme, f)
			if it.Scheme == "giai-96" && what == "reference" {
				// the parser does not know the limits of the GIAI reference
				continue
			}
			for k = 1; k <= len(f); k++ {
				if _, ok := refFilter(Pat{it.Scheme, f[:k]}); !ok {
					break
				}
			}
			if len(f) > k {
				k = rapid.IntRange(k, len(f)).Draw(t, "baddepth2")
			}
			return badPat{Pat: Pat{it.Scheme, f[:k]}, What: what}
		case 5:
			p := Pat{it.Scheme, f[:k]}.URN()
			raw := rapid.SampledFrom([]string{"", ":", "urn:epc:pat:", "urn:epc:pat", "urn:epc:pat:" + it.Scheme,
				p + ":" + f[0], p + ":", "urn:epc:id:" + it.Scheme + ":" + strings.Join(f, "."), "urn:" + p,
				"urn:epc:pat::" + f[0], "urn:epc:pat:" + it.Scheme + ":" + f[0] + ":" + f[1], it.Scheme}).Draw(t, "raw")
			return badPat{Raw: raw, What: "segments"}
		case 6:
			return badPat{Pat: Pat{it.Scheme, []string{""}}, What: "no fields"}
		}
	}
}

type c09Case struct {
	Subs  []Owned  `json:"subs"`
	Bad   []badPat `json:"bad"`
	Late  []bool   `json:"late"` // added at run time
	Owner []int    `json:"owner"`
	Del   []bool   `json:"del"`
	Tags  []Tag    `json:"tags"`
}

func init() {
	register(spec{ID: "C09", Name: "parse",
		Rule:  "malformed patterns derived from valid ones (unknown scheme, too many, blank or non-numeric fields, out of range, wrong company prefix length, unencodable characters): the parser returns an error and no prefix, and the conversion drops it; non-trivial: every case",
		Quick: 15000, Thorough: 300000, Shards: 4},
		func(t *rapid.T) badPat { return drawBad(t, drawWorld(t, 1)) },
		func(ctx *Ctx, c badPat) error {
			ctx.NonTrivial()
			ctx.Label(c.What)
			if c.What != "segments" {
				if _, ok := refFilter(c.Pat); ok {
					return noCase("%v is well-formed", c.Pat)
				}
				f, err := tdt.MakePrefixFilterString(c.Pat.Scheme, append([]string(nil), c.Pat.Fields...))
				if err == nil {
					return fmt.Errorf("%q gives prefix %q and no error", c.text(), f)
				}
			}
			if b := (filtering.Subscriptions{"http://x": {c.text()}}).ToByteSubscriptions(); len(b) != 0 {
				return fmt.Errorf("%q subscribes to %q", c.text(), b.Keys())
			}
			return nil
		})

	register(spec{ID: "C09", Name: "empty",
		Rule:  "the prefix of no fields at all, for every scheme; non-trivial: every case",
		Quick: 50, Thorough: 50, Shards: 1},
		func(t *rapid.T) string { return rapid.SampledFrom(allSchemes).Draw(t, "scheme") },
		func(ctx *Ctx, c string) error {
			ctx.NonTrivial()
			for _, f := range [][]string{nil, {}} {
				if p, err := tdt.MakePrefixFilterString(c, f); err == nil {
					return fmt.Errorf("%s without fields gives prefix %q and no error", c, p)
				}
			}
			return nil
		})

	register(spec{ID: "C09", Name: "engines",
		Rule:  "a subscription set with malformed patterns mixed in, present at construction, added later or deleted, on all four engines: every search equals the reference without them; non-trivial: a good subscription matches some tag and a malformed pattern resembles it",
		Quick: 3000, Thorough: 60000, Shards: 8},
		func(t *rapid.T) c09Case {
			w := drawWorld(t, 4)
			c := c09Case{Subs: w.drawOwned(t, 0, 6)}
			for i := rapid.IntRange(1, 4).Draw(t, "nbad"); i > 0; i-- {
				c.Bad = append(c.Bad, drawBad(t, w))
				c.Late = append(c.Late, rapid.Bool().Draw(t, "late"))
				c.Owner = append(c.Owner, rapid.IntRange(0, 7).Draw(t, "owner"))
				c.Del = append(c.Del, rapid.Bool().Draw(t, "del"))
			}
			c.Tags = w.tags()
			for i := rapid.IntRange(0, 4).Draw(t, "ntags"); i > 0; i-- {
				c.Tags = append(c.Tags, w.drawTag(t))
			}
			return c
		},
		func(ctx *Ctx, c c09Case) error {
			owner := ownerMap(c.Subs)
			m := sharedModel{}
			for _, o := range c.Subs {
				m.add(o)
			}
			hit := false
			for _, name := range allEngines {
				init := subsOf(c.Subs)
				late := filtering.Subscriptions{}
				del := filtering.Subscriptions{}
				for i, b := range c.Bad {
					u := uri(c.Owner[i])
					if c.Late[i] {
						late[u] = append(late[u], b.text())
					} else {
						init[u] = append([]string{b.text()}, init[u]...)
					}
					if c.Del[i] {
						del[u] = append(del[u], b.text())
					}
				}
				e := newEngine(name, init)
				check := func(when string) error {
					for _, tag := range c.Tags {
						var err error
						if name == "LegacyEngine" {
							err = checkLegacySearch(e, m, tag)
						} else {
							err = checkSearch(name, e, owner, tag)
						}
						if err != nil {
							return fmt.Errorf("%s: %w", when, err)
						}
						_, id := tag.bytes()
						hit = hit || len(expectURIs(owner, id)) > 0
					}
					return nil
				}
				if err := check("after construction"); err != nil {
					return err
				}
				e.AddSubscription(late)
				if err := check("after the addition"); err != nil {
					return err
				}
				e.DeleteSubscription(del)
				if err := check("after the deletion"); err != nil {
					return err
				}
			}
			ctx.NonTrivialIf(hit)
			return nil
		})
}

// ---- C11 ---------------------------------------------------------------------

type c11Case struct {
	Std    string   `json:"std"`
	Fields []string `json:"fields"` // 17363: oc ei csn; 17365: di iac cin sn
	What   string   `json:"what,omitempty"`
	Pad    string   `json:"pad,omitempty"` // bits to pad
	CN     string   `json:"cn,omitempty"`
}

func encodeISO(std string, f []string) ([]byte, int, error) {
	if std == "17363" {
		b, n, _, _, err := scheme.MakeISO17363(false, f[0], f[1], f[2])
		return holdBytes("encoder", b), n, err
	}
	b, n, _, _, err := scheme.MakeISO17365(false, f[0], f[1], f[2], f[3])
	return holdBytes("encoder", b), n, err
}

func makeISO(std string, f []string) (string, string) {
	if std == "17363" {
		return scheme.MakeISO(false, std, f[0], f[1], f[2], "", "", "", "")
	}
	return scheme.MakeISO(false, std, "", "", "", f[0], f[1], f[2], f[3])
}

// isoText is what the fields spell; ok is false if they cannot be encoded.
func isoText(std string, f []string) (string, bool) {
	text := strings.Join(f, "")
	if std == "17363" {
		if !digitsOnly(f[2]) || len(f[2]) > 6 {
			return "", false
		}
		n := f[0] + f[1] + padDigits(f[2], 6)
		cd, ok := checkDigit(n)
		if !ok {
			return "", false
		}
		text = "7B" + n + fmt.Sprint(cd)
	}
	if _, ok := six(text); !ok || len(text) > 82 {
		return "", false
	}
	return text, true
}

var wideSix = func() string {
	s := ""
	for c := rune(0x20); c <= 0x5F; c++ {
		s += string(c)
	}
	return s
}()

func drawISOFields(t *rapid.T) (string, []string) {
	if rapid.Bool().Draw(t, "17363") {
		n := rapid.IntRange(1, 4).Draw(t, "oclen")
		if rapid.IntRange(0, 3).Draw(t, "usual") != 0 {
			n = 3
		}
		oc := strOf(alnum, n, n).Draw(t, "oc")
		ei := strOf(alnum, 4-n, 4-n).Draw(t, "ei")
		return "17363", []string{oc, ei, strOf("0123456789", 1, 6).Draw(t, "csn")}
	}
	al := rapid.SampledFrom([]string{alnum, wideSix, sixAlphabet}).Draw(t, "al")
	return "17365", []string{strOf(al, 0, 4).Draw(t, "di"), strOf(al, 1, 4).Draw(t, "iac"),
		strOf(al, 1, 12).Draw(t, "cin"), strOf(al, 1, rapid.SampledFrom([]int{6, 20, 62}).Draw(t, "snmax")).Draw(t, "sn")}
}

func isoAFI(std string) byte {
	if std == "17363" {
		return 0xA9
	}
	return 0xA2
}

// checkISO compares encoder output with the reference for a text.
func checkISO(c c11Case, b []byte, n int, text string) error {
	want, words := refISOTag(text)
	if !bytes.Equal(b, want) || n != words*16 {
		return fmt.Errorf("encoding %v: %x (%d bits), want %x (%d bits)", c, b, n, want, words*16)
	}
	pc := holdBytes("PC encoder", scheme.MakeISOPC(n, fmt.Sprintf("%02X", isoAFI(c.Std))))
	wantPC := []byte{byte(words<<3) | 1, isoAFI(c.Std)}
	if !bytes.Equal(pc, wantPC) {
		return fmt.Errorf("encoding %v: protocol-control bits %x, want %x", c, pc, wantPC)
	}
	urn, err := gs1Core.Translate(pc, b)
	decoded := "urn:epc:id:iso" + c.Std + ":" + strings.ReplaceAll(text, " ", "")
	if err != nil || urn != decoded {
		return fmt.Errorf("encoding %v: translates to %q (%v), want %q", c, urn, err, decoded)
	}
	return nil
}

func init() {
	register(spec{ID: "C11", Name: "exact",
		Rule:  "ISO 17363 and 17365 fields over the 6-bit alphabet, of lengths that need every amount of padding and up to 31 words: bytes, length, protocol-control bits and the generator's output equal the reference, and translation returns the text; non-trivial: padding is needed",
		Quick: 8000, Thorough: 150000, Shards: 8},
		func(t *rapid.T) c11Case {
			std, f := drawISOFields(t)
			return c11Case{Std: std, Fields: f}
		},
		func(ctx *Ctx, c c11Case) error {
			text, ok := isoText(c.Std, c.Fields)
			if !ok {
				return noCase("%v", c)
			}
			if c.Std == "17363" && c.Fields[1] == "" { // filled in by the encoder
				return nil
			}
			b, n, err := encodeISO(c.Std, c.Fields)
			if err != nil {
				return fmt.Errorf("encoding %v: %v", c, err)
			}
			if err := checkISO(c, b, n, text); err != nil {
				return err
			}
			bits, pc := makeISO(c.Std, c.Fields)
			want, words := refISOTag(text)
			wantPC := hex.EncodeToString([]byte{byte(words<<3) | 1, isoAFI(c.Std)})
			if bits != bytesToBits(want) || pc != wantPC {
				return fmt.Errorf("MakeISO(%v) = %s, %s, want %s, %s", c, bits, pc, bytesToBits(want), wantPC)
			}
			ctx.NonTrivialIf(len(text)*6%16 != 0)
			ctx.Label(fmt.Sprintf("%s remainder %d", c.Std, len(text)*6%16))
			return nil
		})

	register(spec{ID: "C11", Name: "blank",
		Rule:  "container fields or the serial number left blank: the tag decodes to a text with the given fields, filled-in fields of the right form and the correct check digit; non-trivial: a field is blank",
		Quick: 3000, Thorough: 60000, Shards: 4},
		func(t *rapid.T) c11Case {
			std, f := drawISOFields(t)
			if std == "17363" {
				f[0] = strOf(letters, 3, 3).Draw(t, "oc3")
				f[1] = rapid.SampledFrom([]string{"U", "J", "Z"}).Draw(t, "ei")
				for i := range f {
					if rapid.Bool().Draw(t, "blank") {
						f[i] = ""
					}
				}
			} else {
				for i := range f {
					f[i] = strings.ReplaceAll(f[i], " ", "-")
				}
				f[3] = ""
			}
			return c11Case{Std: std, Fields: f}
		},
		func(ctx *Ctx, c c11Case) error {
			b, n, err := encodeISO(c.Std, c.Fields)
			if err != nil {
				return fmt.Errorf("encoding %v: %v", c, err)
			}
			urn, ok := refTranslate([]byte{1, isoAFI(c.Std)}, b)
			if !ok {
				return fmt.Errorf("encoding %v: %x", c, b)
			}
			text := strings.TrimPrefix(urn, "urn:epc:id:iso"+c.Std+":")
			if c.Std == "17363" {
				ctx.NonTrivialIf(c.Fields[0] == "" || c.Fields[1] == "" || c.Fields[2] == "")
				if len(text) != 13 || text[:2] != "7B" {
					return fmt.Errorf("encoding %v: text %q", c, text)
				}
				cd, ok := checkDigit(text[2:12])
				if !ok || fmt.Sprint(cd) != text[12:] {
					return fmt.Errorf("encoding %v: text %q has a wrong check digit", c, text)
				}
				got := []string{text[2:5], text[5:6], text[6:12]}
				for i, f := range c.Fields {
					if i == 2 && f != "" {
						f = padDigits(f, 6)
					}
					if f != "" && f != got[i] {
						return fmt.Errorf("encoding %v: text %q", c, text)
					}
				}
				if strings.Trim(got[0], letters) != "" || !digitsOnly(got[2]) || strings.Trim(got[1], letters) != "" {
					return fmt.Errorf("encoding %v: text %q", c, text)
				}
			} else {
				ctx.NonTrivial()
				pre := c.Fields[0] + c.Fields[1] + c.Fields[2]
				if !strings.HasPrefix(text, pre) || len(text) <= len(pre) || strings.Trim(text[len(pre):], alnum) != "" {
					return fmt.Errorf("encoding %v: text %q", c, text)
				}
			}
			return checkISO(c, b, n, text)
		})

	register(spec{ID: "C11", Name: "misfit",
		Rule:  "one field with a character outside the alphabet, a container serial number that is too long or no number, an owner code for which no check digit exists, a missing agency or company, or a text over 31 words: the encoder returns an error and no bytes, and the generator prints no identifier; non-trivial: every case",
		Quick: 4000, Thorough: 80000, Shards: 4},
		func(t *rapid.T) c11Case {
			std, f := drawISOFields(t)
			c := c11Case{Std: std, Fields: f}
			if std == "17363" {
				f[0] = strOf(letters, 3, 3).Draw(t, "oc3")
				f[1] = "U"
			}
			switch rapid.IntRange(0, 3).Draw(t, "misfit") {
			case 0, 1:
				c.What = "character"
				i := rapid.IntRange(0, len(f)-1).Draw(t, "field")
				if std == "17363" && i == 2 {
					f[i] = notNumber(t, f[i])
					break
				}
				bad := rapid.SampledFrom([]string{"a", "z", "`", "{", "~", "\x7f", "\x1f", "\t", "\x00", "é", "日", "Ā"}).Draw(t, "bad")
				at := rapid.IntRange(0, len(f[i])).Draw(t, "at")
				if std == "17363" && len(f[i]) > 0 { // keep the length
					if at == len(f[i]) {
						at--
					}
					f[i] = f[i][:at] + bad + f[i][at+1:]
				} else {
					f[i] = f[i][:at] + bad + f[i][at:]
				}
			case 2:
				c.What = "length"
				if std == "17363" {
					if k := rapid.IntRange(0, 4).Draw(t, "csn"); k == 0 { // ten characters all the same
						n := rapid.IntRange(1, 2).Draw(t, "oclen")
						f[0] = f[0][:n]
						f[2] = digitsN(9-n).Draw(t, "csn")
					} else if k < 3 {
						f[2] = digitsN(rapid.IntRange(7, 12).Draw(t, "csnlen")).Draw(t, "csn")
					} else {
						f[0] = strOf(alnum, 1, 6).Filter(func(s string) bool { return len(s) != 3 }).Draw(t, "oc")
					}
				} else {
					f[3] = strOf(alnum, 83, 130).Draw(t, "long")
				}
			default:
				if std == "17363" {
					c.What = "check digit"
					f[0] = f[0][:2] + rapid.SampledFrom([]string{"-", " ", "?", "_", "/"}).Draw(t, "nocd")
				} else {
					c.What = "missing"
					f[rapid.IntRange(1, 2).Draw(t, "miss")] = ""
				}
			}
			return c
		},
		func(ctx *Ctx, c c11Case) error {
			if _, ok := isoText(c.Std, c.Fields); ok && c.What != "missing" {
				return noCase("%v is encodable", c)
			}
			ctx.NonTrivial()
			ctx.Label(c.Std + " " + c.What)
			b, _, err := encodeISO(c.Std, c.Fields)
			if err == nil || len(b) > 0 {
				return fmt.Errorf("encoding %v: %x, error %v", c, b, err)
			}
			if bits, _ := makeISO(c.Std, c.Fields); bits != "" {
				return fmt.Errorf("MakeISO(%v) printed %s", c, bits)
			}
			return nil
		})

	register(spec{ID: "C11", Name: "parts",
		Rule:  "check digits of 10-character codes in either case, padding of bit strings of every length, and protocol-control bits of every number of words and AFI, against the reference; codes of other lengths or characters are refused; non-trivial: every case",
		Quick: 10000, Thorough: 200000, Shards: 2},
		func(t *rapid.T) c11Case {
			c := c11Case{Pad: strOf("01", 0, 100).Draw(t, "pad")}
			c.CN = randomCase(t, strOf(alnum, 10, 10).Draw(t, "cn"))
			if rapid.IntRange(0, 3).Draw(t, "badcn") == 0 {
				c.CN = strOf(alnum+"-? _/", 8, 12).Draw(t, "badcn")
			}
			c.What = fmt.Sprintf("%02X", rapid.Byte().Draw(t, "afi"))
			c.Std = fmt.Sprint(rapid.IntRange(0, 31).Draw(t, "words"))
			return c
		},
		func(ctx *Ctx, c c11Case) error {
			ctx.NonTrivial()
			want, ok := checkDigit(strings.ToUpper(c.CN))
			got, err := scheme.GetISO6346CD(c.CN)
			if ok != (err == nil) || ok && got != want {
				return fmt.Errorf("check digit of %q: %d (%v), want %d (%v)", c.CN, got, err, want, ok)
			}
			bs, n := scheme.Pad6BitEncodingRuneSlice([]rune(c.Pad))
			wantBits := c.Pad
			for i := 0; len(wantBits)%16 != 0; i++ {
				wantBits += string("100000"[i%6])
			}
			if string(bs) != wantBits || n != len(wantBits) {
				return fmt.Errorf("padding %q: %q, %d, want %q", c.Pad, string(bs), n, wantBits)
			}
			var words int
			fmt.Sscan(c.Std, &words)
			afi, _ := hex.DecodeString(c.What)
			if pc := scheme.MakeISOPC(words*16, c.What); !bytes.Equal(pc, []byte{byte(words<<3) | 1, afi[0]}) {
				return fmt.Errorf("protocol-control bits of %d words, AFI %s: %x", words, c.What, pc)
			}
			return nil
		})
}
