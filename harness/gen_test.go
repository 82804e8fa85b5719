package harness

import (
	"encoding/hex"
	"fmt"
	"math/big"
	"strings"

	"github.com/iomz/go-llrp"
	"github.com/iomz/gosstrak/filtering"
	"pgregory.net/rapid"
)

// Tag is one generated read event.
type Tag struct {
	PC string `json:"pc"` // hex
	ID string `json:"id"` // hex
}

func mkTag(pc, id []byte) Tag { return Tag{hex.EncodeToString(pc), hex.EncodeToString(id)} }

func (t Tag) bytes() (pc, id []byte) {
	pc, _ = hex.DecodeString(t.PC)
	id, _ = hex.DecodeString(t.ID)
	return
}

func (t Tag) event() llrp.ReadEvent {
	pc, id := t.bytes()
	return llrp.ReadEvent{ID: id, PC: pc}
}

// reader reads tags into the same memory again and again, as a reader with a
// fixed buffer does: what was read before is overwritten by the next tag.
type reader struct{ pc, id [1 << 16]byte }

func (r *reader) read(t Tag) llrp.ReadEvent {
	pc, id := t.bytes()
	if len(pc) > len(r.pc) || len(id) > len(r.id) {
		return llrp.ReadEvent{ID: id, PC: pc}
	}
	n, m := copy(r.pc[:], pc), copy(r.id[:], id)
	return llrp.ReadEvent{ID: r.id[:m:m], PC: r.pc[:n:n]}
}

// theReader is not used where searches run in parallel.
var (
	theReader     reader
	manyGoroutine bool
)

// reread is the event of a tag in memory that the next one overwrites.
func (t Tag) reread() llrp.ReadEvent {
	if manyGoroutine {
		return t.event()
	}
	return theReader.read(t)
}

// Item is a complete tag described by all of its fields.
type Item struct {
	Scheme string
	Fields []string
}

func (it Item) isEPC() bool { _, ok := epcSchemes[it.Scheme]; return ok }

// tag encodes the item with the reference encoder.
func (it Item) tag() Tag {
	if it.isEPC() {
		id, ok := refEPCTag(it.Scheme, it.Fields)
		if !ok {
			panic(fmt.Sprintf("item does not encode: %v", it))
		}
		return mkTag([]byte{0x30, 0x00}, id)
	}
	afi := byte(0xA2)
	text := strings.Join(it.Fields, "")
	if it.Scheme == "iso17363" {
		afi = 0xA9
		cd, ok := checkDigit(it.Fields[1] + it.Fields[2] + it.Fields[3])
		if ok {
			text += fmt.Sprint(cd)
		}
	}
	id, words := refISOTag(text)
	return mkTag([]byte{byte(words<<3) | 1, afi}, id)
}

const alnum = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ"
const letters = "ABCDEFGHIJKLMNOPQRSTUVWXYZ"

// sixAlphabet is the 6-bit alphabet without space (padding) and without the
// separators of the pattern syntax.
var sixAlphabet = func() string {
	s := ""
	for c := rune(0x21); c <= 0x5F; c++ {
		if c != '.' && c != ':' {
			s += string(c)
		}
	}
	return s
}()

func strOf(alphabet string, min, max int) *rapid.Generator[string] {
	return rapid.Custom(func(t *rapid.T) string {
		n := rapid.IntRange(min, max).Draw(t, "n")
		b := make([]byte, n)
		for i := range b {
			b[i] = alphabet[rapid.IntRange(0, len(alphabet)-1).Draw(t, "c")]
		}
		return string(b)
	})
}

func digitsN(n int) *rapid.Generator[string] { return strOf("0123456789", n, n) }

// numBelow draws a number below lim, biased to the edges, unpadded.
func numBelow(t *rapid.T, lim *big.Int, label string) string {
	if lim.Sign() <= 0 {
		return "0"
	}
	switch rapid.IntRange(0, 8).Draw(t, label+"-kind") {
	case 0:
		return "0"
	case 1:
		return new(big.Int).Sub(lim, big.NewInt(1)).String()
	case 6: // any number of digits
		v := dec(digitsN(rapid.IntRange(1, len(lim.String())).Draw(t, label+"-len")).Draw(t, label))
		return v.Mod(v, lim).String()
	case 7: // next to a power of two
		v := pow2(rapid.IntRange(0, lim.BitLen()-1).Draw(t, label+"-bit"))
		v.Add(v, big.NewInt(int64(rapid.IntRange(-1, 1).Draw(t, label+"-off"))))
		return v.Mod(v, lim).String()
	case 8: // next to a power of ten
		v := pow10(rapid.IntRange(0, len(lim.String())-1).Draw(t, label+"-dig"))
		v.Add(v, big.NewInt(int64(rapid.IntRange(-1, 1).Draw(t, label+"-off"))))
		return v.Mod(v, lim).String()
	case 2, 3:
		v := big.NewInt(int64(rapid.IntRange(0, 2000).Draw(t, label)))
		return v.Mod(v, lim).String()
	default:
		v := new(big.Int).SetUint64(rapid.Uint64().Draw(t, label))
		return v.Mod(v, lim).String()
	}
}

func minBig(a, b *big.Int) *big.Int {
	if a.Cmp(b) < 0 {
		return a
	}
	return b
}

func pow2(n int) *big.Int { return new(big.Int).Lsh(big.NewInt(1), uint(n)) }

// padDigits left-pads a number to n digits.
func padDigits(s string, n int) string {
	if len(s) < n {
		return strings.Repeat("0", n-len(s)) + s
	}
	return s
}

// drawCP draws a company prefix, biased to small families.
func drawCP(t *rapid.T) string {
	n := rapid.IntRange(6, 12).Draw(t, "cplen")
	switch rapid.IntRange(0, 3).Draw(t, "cpkind") {
	case 0:
		return "123456789012"[:n]
	case 1:
		return strings.Repeat("9", n)
	case 2:
		return padDigits(fmt.Sprint(rapid.IntRange(0, 99).Draw(t, "cpsmall")), n)
	default:
		return digitsN(n).Draw(t, "cp")
	}
}

// drawRef draws a reference field in canonical (fully padded) spelling.
func drawRef(t *rapid.T, scheme string, cp string) string {
	s := epcSchemes[scheme]
	rd := s.RefDigits - len(cp)
	lim := minBig(pow10(rd), pow2(s.RefWidth-cpWidth[len(cp)]))
	v := numBelow(t, lim, "ref")
	if scheme == "giai-96" {
		return v
	}
	return padDigits(v, rd)
}

func drawSerial(t *rapid.T) string { return numBelow(t, pow2(38), "serial") }

// drawEPCItem draws a complete EPC-96 tag.
func drawEPCItem(t *rapid.T, scheme string) Item {
	fv := fmt.Sprint(rapid.IntRange(0, 7).Draw(t, "fv"))
	cp := drawCP(t)
	f := []string{fv, cp, drawRef(t, scheme, cp)}
	if f[2] == "" {
		f[2] = "0"
	}
	if epcSchemes[scheme].Serial > 0 {
		f = append(f, drawSerial(t))
	}
	return Item{scheme, f}
}

// drawCSN draws the six digits of a container's serial number, biased to
// leading zeros.
func drawCSN(t *rapid.T) string {
	n := 6
	if rapid.Bool().Draw(t, "csnsmall") {
		n = rapid.IntRange(1, 5).Draw(t, "csndigits")
	}
	return padDigits(digitsN(n).Draw(t, "csn"), 6)
}

func drawISOItem(t *rapid.T, scheme string) Item {
	if scheme == "iso17363" {
		return Item{scheme, []string{"7B", strOf(letters, 3, 3).Draw(t, "oc"),
			rapid.SampledFrom([]string{"U", "J", "Z", "R"}).Draw(t, "ei"), drawCSN(t)}}
	}
	di := rapid.SampledFrom([]string{"25S", "25S", "J", "L", "0", "3", "5"}).Draw(t, "di")
	iac := rapid.SampledFrom([]string{"UN", "OD", "LA", "U"}).Draw(t, "iac")
	al := alnum
	if rapid.IntRange(0, 3).Draw(t, "wide") == 0 {
		al = sixAlphabet
	}
	sn := strOf(al, 1, 14)
	if rapid.IntRange(0, 9).Draw(t, "long") == 0 {
		sn = strOf(al, 15, 60)
	}
	serial := sn.Draw(t, "sn")
	if al == sixAlphabet && len(serial) > 2 && rapid.Bool().Draw(t, "space") { // within, not at the end: that is padding
		at := rapid.IntRange(1, len(serial)-2).Draw(t, "at")
		serial = serial[:at] + " " + serial[at+1:]
	}
	return Item{scheme, []string{di, iac, strOf(al, 1, 6).Draw(t, "cin"), serial}}
}

var allSchemes = []string{"sgtin-96", "sscc-96", "grai-96", "giai-96", "iso17363", "iso17365"}

func drawItem(t *rapid.T) Item {
	s := rapid.SampledFrom(allSchemes).Draw(t, "scheme")
	if _, ok := epcSchemes[s]; ok {
		return drawEPCItem(t, s)
	}
	return drawISOItem(t, s)
}

// mutateItem changes one field of an item, keeping it encodable.
func mutateItem(t *rapid.T, it Item) Item {
	f := append([]string(nil), it.Fields...)
	i := rapid.IntRange(0, len(f)-1).Draw(t, "mutfield")
	if it.isEPC() {
		s := epcSchemes[it.Scheme]
		switch i {
		case 0:
			f[0] = fmt.Sprint(rapid.IntRange(0, 7).Draw(t, "fv"))
		case 1: // same length, other digits; or a sibling value
			v := dec(f[1])
			v.Xor(v, pow2(rapid.IntRange(0, 16).Draw(t, "cpbit")))
			if v.Cmp(pow10(len(f[1]))) < 0 {
				f[1] = padDigits(v.String(), len(f[1]))
			}
		case 2:
			f[2] = drawRef(t, it.Scheme, f[1])
			if f[2] == "" {
				f[2] = "0"
			}
		case 3:
			v := dec(f[3])
			v.Xor(v, pow2(rapid.IntRange(0, s.Serial-1).Draw(t, "serbit")))
			f[3] = v.String()
		}
		return Item{it.Scheme, f}
	}
	if it.Scheme == "iso17363" {
		switch i {
		case 1:
			f[1] = f[1][:2] + strOf(letters, 1, 1).Draw(t, "oc3")
		case 2:
			f[2] = rapid.SampledFrom([]string{"U", "J", "Z"}).Draw(t, "ei")
		case 3:
			f[3] = f[3][:5] + digitsN(1).Draw(t, "csn6")
		}
		return Item{it.Scheme, f}
	}
	switch rapid.IntRange(0, 2).Draw(t, "isomut") {
	case 0:
		if len(f[i]) < 60 {
			f[i] = f[i] + strOf(alnum, 1, 2).Draw(t, "ext")
		}
	case 1:
		if n := len(f[i]) - 1; n > 0 && f[i][n-1] != ' ' {
			f[i] = f[i][:n]
		}
	default:
		f[i] = f[i][:len(f[i])-1] + strOf(alnum, 1, 1).Draw(t, "last")
	}
	return Item{it.Scheme, f}
}

// prefixPat is the pattern made of the first k fields of an item.
func prefixPat(it Item, k int) Pat {
	return Pat{it.Scheme, append([]string(nil), it.Fields[:k]...)}
}

// world is a small universe of related items, the source of patterns and tags.
type world struct {
	items []Item
	chain []Item // items whose serial numbers nest
	fork  []Item // items whose long serial numbers differ at the end
	spell bool   // patterns may have other numbers of leading zeros
}

// respellPat changes the leading zeros of a pattern where they do not matter.
func respellPat(t *rapid.T, p Pat) Pat {
	f := append([]string(nil), p.Fields...)
	switch {
	case epcSchemes[p.Scheme].Header != 0:
		if len(f) > 2 {
			f[2] = respell(t, f[2], epcSchemes[p.Scheme].RefDigits-len(f[1]))
		}
		if len(f) > 3 {
			f[3] = respell(t, f[3], 12)
		}
	case p.Scheme == "iso17363" && len(f) > 3:
		f[3] = f[3][rapid.IntRange(0, len(f[3])-len(strings.TrimLeft(f[3][:len(f[3])-1], "0"))-1).Draw(t, "csnzeros"):]
	}
	return Pat{p.Scheme, f}
}

func drawWorld(t *rapid.T, maxItems int) world {
	least := 1
	if maxItems > 20 { // a large world
		least = maxItems / 4
	}
	n := rapid.IntRange(least, maxItems).Draw(t, "nitems")
	w := world{}
	for i := 0; i < n; i++ {
		if i == 0 || rapid.IntRange(0, 2).Draw(t, "fresh") == 0 {
			w.items = append(w.items, drawItem(t))
		} else {
			src := w.items[rapid.IntRange(0, len(w.items)-1).Draw(t, "src")]
			w.items = append(w.items, mutateItem(t, src))
		}
	}
	if rapid.IntRange(0, 7).Draw(t, "chain") == 0 { // serial numbers that nest deeply
		it := drawISOItem(t, "iso17365")
		long := 14
		if maxItems > 20 {
			long = 40
		}
		sn := strOf(alnum, 3, long).Draw(t, "chainsn")
		for i := 1; i <= len(sn); i++ {
			f := append([]string(nil), it.Fields...)
			f[3] = sn[:i]
			w.chain = append(w.chain, Item{it.Scheme, f})
		}
		w.items = append(w.items, w.chain...)
	}
	if rapid.IntRange(0, 5).Draw(t, "fork") == 0 { // long serial numbers that differ late
		it := drawISOItem(t, "iso17365")
		sn := strOf(alnum, 4, 50).Draw(t, "forksn")
		for _, e := range rapid.SliceOfNDistinct(strOf(alnum, 1, 2), 2, 4, rapid.ID).Draw(t, "forkends") {
			f := append([]string(nil), it.Fields...)
			f[3] = sn + e
			w.fork = append(w.fork, Item{it.Scheme, f})
		}
		w.items = append(w.items, w.fork...)
	}
	return w
}

func (w world) drawPat(t *rapid.T) Pat {
	it := w.items[rapid.IntRange(0, len(w.items)-1).Draw(t, "it")]
	k := rapid.IntRange(1, len(it.Fields)).Draw(t, "depth")
	p := prefixPat(it, k)
	if w.spell && rapid.IntRange(0, 2).Draw(t, "spell") == 0 {
		p = respellPat(t, p)
	}
	return p
}

// drawTag draws a tag of the world: an item, a mutated item, a bit flip of an
// item, or an unrelated tag.
func (w world) drawTag(t *rapid.T) Tag {
	it := w.items[rapid.IntRange(0, len(w.items)-1).Draw(t, "tagitem")]
	switch rapid.IntRange(0, 8).Draw(t, "tagkind") {
	case 8: // the identifier of an item with the protocol-control bits of another
		_, id := it.tag().bytes()
		pc, _ := rapid.SampledFrom(w.items).Draw(t, "pcitem").tag().bytes()
		switch rapid.IntRange(0, 3).Draw(t, "pckind") {
		case 0:
			pc = []byte{byte(len(id)/2<<3) | 1, byte(rapid.SampledFrom([]int{0xA1, 0xA2, 0xA9, 0xAA}).Draw(t, "pcafi"))}
		case 1:
			pc = []byte{0x30, 0}
		}
		return mkTag(pc, id)
	case 0:
		return mutateItem(t, it).tag()
	case 1:
		return drawItem(t).tag()
	case 2: // flip one bit of the identifier
		tag := it.tag()
		pc, id := tag.bytes()
		b := rapid.IntRange(0, len(id)*8-1).Draw(t, "flip")
		id[b/8] ^= 0x80 >> (b % 8)
		return mkTag(pc, id)
	default:
		return it.tag()
	}
}

// Owned is one subscription: a pattern and the URI that owns it.
type Owned struct {
	URI string `json:"u"`
	Pat Pat    `json:"p"`
}

// drawOwned draws n patterns with pairwise different filters, each owned by
// one URI. (Two URIs owning one filter is known finding shared-filter.)
func (w world) drawOwned(t *rapid.T, min, max int) []Owned {
	n := rapid.IntRange(min, max).Draw(t, "npats")
	nuri := rapid.IntRange(1, 6).Draw(t, "nuri")
	if rapid.IntRange(0, 5).Draw(t, "manyuris") == 0 {
		nuri = 50
	}
	seen := map[string]bool{}
	var out []Owned
	var ps []Pat
	if len(w.chain) > 0 && max >= 6 && rapid.Bool().Draw(t, "whole") { // all that nest
		for _, it := range w.chain {
			ps = append(ps, prefixPat(it, len(it.Fields)))
		}
	}
	if len(w.fork) > 0 && rapid.Bool().Draw(t, "forked") {
		for _, it := range w.fork {
			ps = append(ps, prefixPat(it, len(it.Fields)))
		}
		if rapid.Bool().Draw(t, "forkonly") {
			n = 0
		}
	}
	for i := 0; i < n; i++ {
		ps = append(ps, w.drawPat(t))
	}
	for _, p := range ps {
		f, ok := refFilter(p)
		if !ok {
			panic(fmt.Sprintf("world pattern malformed: %v", p))
		}
		if seen[f] {
			continue
		}
		seen[f] = true
		out = append(out, Owned{uri(rapid.IntRange(0, nuri-1).Draw(t, "uri")), p})
	}
	return out
}

// uriShapes are URIs that are prefixes of each other, differ in case only or
// have characters that are special to some format.
var uriShapes = []string{
	"http://subscriber/0", "http://subscriber/0/", "http://SUBSCRIBER/0",
	"https://b.example:8080/x?y=%31&z=100%d;q=[1]#frag", "http://subscriber/0 1,2\t'3'", "http://subscriber/01", "http://c",
}

func uri(i int) string {
	if i < len(uriShapes) {
		return uriShapes[i]
	}
	return fmt.Sprintf("http://subscriber/%d", i)
}

func subsOf(os []Owned) filtering.Subscriptions {
	s := filtering.Subscriptions{}
	for _, o := range os {
		s[o.URI] = append(s[o.URI], o.Pat.URN())
	}
	return s
}

// expectURIs is the set of URIs whose filter covers the identifier.
func expectURIs(owner map[string]string, id []byte) []string {
	var out []string
	for f, u := range owner {
		if covers(f, id) {
			out = append(out, u)
		}
	}
	return sortedSet(out)
}

func ownerMap(os []Owned) map[string]string {
	m := map[string]string{}
	for _, o := range os {
		f, ok := refFilter(o.Pat)
		if !ok {
			panic("ownerMap: malformed")
		}
		m[f] = o.URI
	}
	return m
}

var byteEngines = []string{"List", "PatriciaTrie", "SplayTree"}

func newEngine(name string, s filtering.Subscriptions) filtering.Engine {
	c, ok := filtering.AvailableEngines[name]
	if !ok {
		panic("engine not available: " + name)
	}
	return c(s)
}

// checkSearch compares one search with the model.
func checkSearch(name string, e filtering.Engine, owner map[string]string, tag Tag) error {
	pc, id := tag.bytes()
	want := expectURIs(owner, id)
	ident, uris, err := e.Search(tag.reread())
	if !sameSet(want, uris) {
		return fmt.Errorf("%s: search of id %s reported %q, want %q", name, tag.ID, sortedSet(uris), want)
	}
	defer takeURIs(name, uris)
	urn, ok := refTranslate(pc, id)
	switch {
	case len(want) == 0:
		if err == nil {
			return fmt.Errorf("%s: search of id %s matched nothing and returned no error", name, tag.ID)
		}
	case ok:
		if err != nil {
			return fmt.Errorf("%s: search of id %s matched and returned error %v", name, tag.ID, err)
		}
		if ident != urn {
			return fmt.Errorf("%s: search of id %s reported identity %q, want %q", name, tag.ID, ident, urn)
		}
	default:
		if err == nil {
			return fmt.Errorf("%s: search of malformed tag pc=%s id=%s returned identity %q and no error", name, tag.PC, tag.ID, ident)
		}
	}
	return nil
}
