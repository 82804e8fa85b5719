package harness

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

// ---- independent reference model of the tag formats ------------------------
// Nothing in this file calls the code under test or its dependencies.

// bin renders v as exactly n bits; ok is false if it does not fit.
func bin(v *big.Int, n int) (string, bool) {
	if v.Sign() < 0 || v.BitLen() > n {
		return "", false
	}
	s := v.Text(2)
	if v.Sign() == 0 {
		s = ""
	}
	return strings.Repeat("0", n-len(s)) + s, true
}

func binInt(v int, n int) string {
	s, ok := bin(big.NewInt(int64(v)), n)
	if !ok {
		panic("binInt")
	}
	return s
}

func digitsOnly(s string) bool {
	if s == "" {
		return false
	}
	for i := 0; i < len(s); i++ {
		if s[i] < '0' || s[i] > '9' {
			return false
		}
	}
	return true
}

func pow10(n int) *big.Int {
	return new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(n)), nil)
}

func dec(s string) *big.Int {
	v, ok := new(big.Int).SetString(s, 10)
	if !ok {
		panic("dec " + s)
	}
	return v
}

// company prefix width in bits by its number of digits
var cpWidth = map[int]int{6: 20, 7: 24, 8: 27, 9: 30, 10: 34, 11: 37, 12: 40}

// epcScheme is one EPC-96 coding scheme.
type epcScheme struct {
	Header    int
	RefWidth  int // company prefix bits + reference bits
	RefDigits int // company prefix digits + reference digits; 0: no digit limit
	Serial    int // serial bits
	Trail     int // trailing zero bits
}

var epcSchemes = map[string]epcScheme{
	"sgtin-96": {0x30, 44, 13, 38, 0},
	"sscc-96":  {0x31, 58, 17, 0, 24},
	"grai-96":  {0x33, 44, 12, 38, 0},
	"giai-96":  {0x34, 82, 25, 0, 0},
}

var epcNames = []string{"sgtin-96", "sscc-96", "grai-96", "giai-96"}

func (s epcScheme) fields() int {
	if s.Serial > 0 {
		return 4
	}
	return 3
}

// six renders a text in the 6-bit alphabet.
func six(s string) (string, bool) {
	var b strings.Builder
	for _, r := range s {
		if r < 0x20 || r > 0x5F {
			return "", false
		}
		b.WriteString(binInt(int(r)&0x3F, 6))
	}
	return b.String(), true
}

// checkDigit is the ISO 6346 check digit of 10 characters.
func checkDigit(s string) (int, bool) {
	if len(s) != 10 {
		return 0, false
	}
	// letter values skip the multiples of 11
	val := map[byte]int{}
	for c := byte('0'); c <= '9'; c++ {
		val[c] = int(c - '0')
	}
	v := 10
	for c := byte('A'); c <= 'Z'; c++ {
		if v%11 == 0 {
			v++
		}
		val[c] = v
		v++
	}
	sum := 0
	for i := 0; i < 10; i++ {
		x, ok := val[s[i]]
		if !ok {
			return 0, false
		}
		sum += x << i
	}
	return sum % 11 % 10, true
}

// Pat is a subscription pattern.
type Pat struct {
	Scheme string   `json:"s"`
	Fields []string `json:"f"`
}

// URN spells the pattern.
func (p Pat) URN() string {
	return "urn:epc:pat:" + p.Scheme + ":" + strings.Join(p.Fields, ".")
}

// refFilter is the bit prefix the pattern stands for; ok is false if the
// pattern is malformed. Fields are upper-cased as the subscription loader does.
func refFilter(p Pat) (string, bool) {
	f := make([]string, len(p.Fields))
	for i := range p.Fields {
		f[i] = strings.ToUpper(p.Fields[i])
	}
	if len(f) == 0 {
		return "", false
	}
	if s, ok := epcSchemes[p.Scheme]; ok {
		return refEPCFilter(s, f)
	}
	switch p.Scheme {
	case "iso17363":
		if len(f) > 4 {
			return "", false
		}
		text := ""
		for i, x := range f {
			if x == "" {
				return "", false
			}
			if i == 3 {
				if len(x) > 6 || !digitsOnly(x) {
					return "", false
				}
				x = strings.Repeat("0", 6-len(x)) + x
				cd, ok := checkDigit(f[1] + f[2] + x)
				if !ok {
					return "", false
				}
				x += fmt.Sprint(cd)
			}
			text += x
		}
		return six(text)
	case "iso17365":
		if len(f) > 4 {
			return "", false
		}
		for _, x := range f {
			if x == "" {
				return "", false
			}
		}
		return six(strings.Join(f, ""))
	}
	return "", false
}

func refEPCFilter(s epcScheme, f []string) (string, bool) {
	if len(f) > s.fields() {
		return "", false
	}
	for _, x := range f {
		if !digitsOnly(x) {
			return "", false
		}
	}
	fv, ok := bin(dec(f[0]), 3)
	if !ok {
		return "", false
	}
	out := binInt(s.Header, 8) + fv
	if len(f) == 1 {
		return out, true
	}
	w, ok := cpWidth[len(f[1])]
	if !ok {
		return "", false
	}
	cp, ok := bin(dec(f[1]), w)
	if !ok {
		return "", false
	}
	out += binInt(12-len(f[1]), 3) + cp
	if len(f) == 2 {
		return out, true
	}
	ref, ok := bin(dec(f[2]), s.RefWidth-w)
	if !ok {
		return "", false
	}
	if dec(f[2]).Cmp(pow10(s.RefDigits-len(f[1]))) >= 0 {
		return "", false
	}
	out += ref
	if len(f) == 3 {
		return out, true
	}
	ser, ok := bin(dec(f[3]), s.Serial)
	if !ok {
		return "", false
	}
	return out + ser, true
}

// refEPCTag is the 12-byte identifier for a complete EPC pattern.
func refEPCTag(scheme string, f []string) ([]byte, bool) {
	s := epcSchemes[scheme]
	if len(f) != s.fields() {
		return nil, false
	}
	b, ok := refEPCFilter(s, f)
	if !ok {
		return nil, false
	}
	b += strings.Repeat("0", s.Trail)
	if len(b) != 96 {
		panic(fmt.Sprintf("refEPCTag: %d bits", len(b)))
	}
	return bitsToBytes(b), true
}

// refISOTag is the padded identifier of an ISO text and its length in words.
func refISOTag(text string) ([]byte, int) {
	b, ok := six(text)
	if !ok {
		panic("refISOTag " + text)
	}
	pad := "100000"
	for i := 0; len(b)%16 != 0; i++ {
		b += string(pad[i%6])
	}
	return bitsToBytes(b), len(b) / 16
}

func bitsToBytes(b string) []byte {
	if len(b)%8 != 0 {
		panic("bitsToBytes")
	}
	out := make([]byte, len(b)/8)
	for i := range b {
		if b[i] == '1' {
			out[i/8] |= 0x80 >> (i % 8)
		}
	}
	return out
}

func bytesToBits(id []byte) string {
	var b strings.Builder
	for _, x := range id {
		fmt.Fprintf(&b, "%08b", x)
	}
	return b.String()
}

var afiName = map[byte]string{
	0xA1: "17367", 0xA2: "17365", 0xA3: "17364", 0xA4: "17367h", 0xA5: "17366",
	0xA6: "17366h", 0xA7: "17365h", 0xA8: "17364h", 0xA9: "17363", 0xAA: "17363h",
}

var epcByHeader = map[byte]string{0x30: "sgtin-96", 0x31: "sscc-96", 0x33: "grai-96", 0x34: "giai-96"}

// refTranslate is the pure identity of a tag; ok is false if the tag is
// malformed and has none.
func refTranslate(pc, id []byte) (string, bool) {
	if len(pc) != 2 {
		return "", false
	}
	if pc[0]&1 == 1 {
		n, ok := afiName[pc[1]]
		if !ok {
			return "", false
		}
		bits := bytesToBits(id)
		var t strings.Builder
		for o := 0; o+6 <= len(bits); o += 6 {
			c := 0
			for k := 0; k < 6; k++ {
				c = c<<1 | int(bits[o+k]-'0')
			}
			if c == 32 { // padding
				continue
			}
			if c < 32 {
				c += 64
			}
			t.WriteByte(byte(c))
		}
		return "urn:epc:id:iso" + n + ":" + t.String(), true
	}
	if len(id) != 12 {
		return "", false
	}
	name, ok := epcByHeader[id[0]]
	if !ok {
		return "", false
	}
	s := epcSchemes[name]
	bits := bytesToBits(id)
	num := func(from, n int) *big.Int {
		v, _ := new(big.Int).SetString(bits[from:from+n], 2)
		return v
	}
	part := int(num(11, 3).Int64())
	if part > 6 {
		return "", false
	}
	cd := 12 - part
	w := cpWidth[cd]
	cp := num(14, w)
	if cp.Cmp(pow10(cd)) >= 0 {
		return "", false
	}
	rd := s.RefDigits - cd
	ref := num(14+w, s.RefWidth-w)
	pad := func(v *big.Int, n int) string {
		t := v.String()
		if len(t) < n {
			t = strings.Repeat("0", n-len(t)) + t
		}
		return t
	}
	urn := "urn:epc:id:" + strings.TrimSuffix(name, "-96") + ":" + pad(cp, cd)
	switch {
	case name == "giai-96":
		if ref.Cmp(pow10(rd)) >= 0 {
			return "", false
		}
		return urn + "." + ref.String(), true
	case rd == 0: // GRAI with a 12-digit company prefix has no asset type digits
		// the asset type bits carry no digit and are not reported
	default:
		if ref.Cmp(pow10(rd)) >= 0 {
			return "", false
		}
		urn += "." + pad(ref, rd)
	}
	if s.Serial > 0 {
		urn += "." + num(14+s.RefWidth, s.Serial).String()
	}
	return urn, true
}

// covers reports whether the leading bits of id are filter.
func covers(filter string, id []byte) bool {
	if len(filter) > len(id)*8 {
		return false
	}
	for i := range filter {
		bit := byte('0')
		if id[i/8]&(0x80>>(i%8)) != 0 {
			bit = '1'
		}
		if filter[i] != bit {
			return false
		}
	}
	return true
}

func sortedSet(xs []string) []string {
	m := map[string]bool{}
	for _, x := range xs {
		m[x] = true
	}
	out := make([]string, 0, len(m))
	for x := range m {
		out = append(out, x)
	}
	sort.Strings(out)
	return out
}

func sameSet(a, b []string) bool {
	x, y := sortedSet(a), sortedSet(b)
	if len(x) != len(y) {
		return false
	}
	for i := range x {
		if x[i] != y[i] {
			return false
		}
	}
	return true
}
