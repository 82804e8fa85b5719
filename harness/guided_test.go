package harness

import (
	"encoding/binary"
	"math"
	"math/bits"
	"math/rand"
	"os"
	"reflect"
	"testing"
	"time"
	"unsafe"

	"pgregory.net/rapid"
)

// Coverage-guided search. A case is the sequence of draws its generator makes;
// sequences that reach something new in the code under test (an edge taken for
// the first time or a new number of times, a comparison whose sides are closer
// than ever) are kept and mutated further.

// guideStats is what a guided search reports.
type guideStats struct {
	Executions int64 `json:"executions"`
	Kept       int64 `json:"kept"`
	Features   int64 `json:"features"`
}

// guideCase is a kept sequence of draws with the features it was the first to
// have.
type guideCase struct {
	draws []uint64
	first []int
}

type guide struct {
	t      *testing.T
	prop   func(*rapid.T)
	rnd    *rand.Rand
	hits   []uint32 // executions that had a feature: 8 classes per edge, then the compare profile
	corpus []guideCase
	room   int // draws provided beyond those of the input
	stats  *guideStats

	rest   int // draws left over by the last execution
	failed bool
	valid  bool
}

// countClass maps a count to a bit, after AFL.
var countClass = func() (c [256]byte) {
	for n := 1; n < 256; n++ {
		switch {
		case n < 4:
			c[n] = 1 << (n - 1)
		case n < 8:
			c[n] = 8
		case n < 16:
			c[n] = 16
		case n < 32:
			c[n] = 32
		case n < 128:
			c[n] = 64
		default:
			c[n] = 128
		}
	}
	return
}()

// exec runs the property on the draws, followed by random ones as far as
// needed, and returns those it used.
func (g *guide) exec(in []uint64, random bool) []uint64 {
	all := make([]uint64, len(in), len(in)+g.room)
	copy(all, in)
	for len(all) < cap(all) {
		if random {
			all = append(all, g.rnd.Uint64())
		} else {
			all = append(all, 0)
		}
	}
	buf := make([]byte, 8*len(all))
	for i, v := range all {
		binary.LittleEndian.PutUint64(buf[8*i:], v)
	}
	counters, profile := coverageCounters(), compareProfile()
	clear(counters)
	clear(profile)
	g.rest, g.failed, g.valid = 0, false, false
	done := make(chan struct{})
	go func() {
		defer close(done)
		rapid.MakeFuzz(func(rt *rapid.T) {
			v := reflect.ValueOf(rt).Elem()
			// logging every draw would cost more than the case
			*(*bool)(unsafe.Pointer(v.FieldByName("tbLog").UnsafeAddr())) = false
			left := v.FieldByName("s").Elem().Elem().FieldByName("buf")
			defer func() {
				g.rest = left.Len()
				r := recover()
				if r == nil {
					g.valid = true
				} else if reflect.TypeOf(r).String() != "rapid.invalidData" {
					g.failed = true
					panic(r)
				} // else no case came of the draws
			}()
			g.prop(rt)
		})(g.t, buf)
	}()
	<-done
	g.stats.Executions++
	return all[:len(all)-g.rest]
}

// novel returns what no earlier execution had reached and the last one did, and
// records all it reached.
func (g *guide) novel() []int {
	var first []int
	for i, n := range coverageCounters() {
		if n != 0 {
			f := 8*i + bits.TrailingZeros8(countClass[n])
			if g.hits[f]++; g.hits[f] == 1 {
				first = append(first, f)
			}
		}
	}
	at := 8 * len(coverageCounters())
	for i, n := range compareProfile() {
		if n != 0 {
			if g.hits[at+i]++; g.hits[at+i] == 1 {
				first = append(first, at+i)
			}
		}
	}
	g.stats.Features += int64(len(first))
	return first
}

// pick returns a kept case: one of the last, any, or one that has something few
// executions had.
func (g *guide) pick() []uint64 {
	n := len(g.corpus)
	switch g.rnd.Intn(4) {
	case 0:
		return g.corpus[n-1-g.rnd.Intn(min(n, 16))].draws
	case 1:
		return g.corpus[g.rnd.Intn(n)].draws
	}
	best, rarest := 0, uint32(math.MaxUint32)
	for k := 0; k < 8; k++ {
		i := g.rnd.Intn(n)
		for _, f := range g.corpus[i].first {
			if g.hits[f] < rarest {
				best, rarest = i, g.hits[f]
			}
		}
	}
	return g.corpus[best].draws
}

func (g *guide) mutate(in []uint64) []uint64 {
	r := g.rnd
	s := append([]uint64(nil), in...)
	for k := 1 + bits.TrailingZeros32(r.Uint32()|128); k > 0; k-- {
		if len(s) == 0 {
			return append(s, r.Uint64())
		}
		at := r.Intn(len(s))
		block := 1 + r.Intn(1<<r.Intn(6))
		end := min(at+block, len(s))
		switch r.Intn(11) {
		case 0, 1:
			s[at] = r.Uint64()
		case 2:
			s[at] = uint64(r.Intn(17))
		case 3:
			s[at] ^= 1 << r.Intn(16)
		case 4:
			s[at] += uint64(r.Intn(2)*2) - 1
		case 5:
			s[at] = s[r.Intn(len(s))]
		case 6:
			s = append(s[:at], s[end:]...)
		case 7: // repeat a block
			s = append(s[:end:end], append(append([]uint64(nil), s[at:end]...), s[end:]...)...)
		case 8:
			b := make([]uint64, block)
			for i := range b {
				b[i] = r.Uint64()
			}
			s = append(s[:at:at], append(b, s[at:]...)...)
		case 9: // the end of another case
			o := g.pick()
			if len(o) > 0 {
				s = append(s[:at:at], o[r.Intn(len(o)):]...)
			}
		default:
			copy(s[at:end], s[r.Intn(len(s)-(end-at)+1):])
		}
	}
	return s
}

// run searches until n executions or the deadline; it stops at a failure,
// which it has shrunk.
func (g *guide) run(n int64, deadline time.Time, shrink time.Duration) {
	g.hits = make([]uint32, 8*len(coverageCounters())+len(compareProfile()))
	longest := 0
	g.room = 1 << 16
	for g.stats.Executions < n && time.Now().Before(deadline) {
		var in []uint64
		if len(g.corpus) > 0 && g.stats.Executions > 30 && g.rnd.Intn(8) != 0 {
			in = g.mutate(g.pick())
		}
		used := g.exec(in, true)
		if g.failed {
			g.shrink(used, time.Now().Add(shrink))
			return
		}
		if !g.valid {
			continue
		}
		if len(used) > longest {
			longest = len(used)
		}
		if g.stats.Executions > 30 {
			g.room = longest + 256
		}
		if first := g.novel(); len(first) > 0 && len(used) < 1<<15 {
			g.corpus = append(g.corpus, guideCase{append([]uint64(nil), used...), first})
			g.stats.Kept++
		}
	}
}

// shrink makes the failing sequence shorter and its draws smaller.
func (g *guide) shrink(in []uint64, deadline time.Time) {
	try := func(s []uint64) bool {
		if time.Now().After(deadline) {
			return false
		}
		used := g.exec(s, false)
		if !g.failed {
			return false
		}
		in = append([]uint64(nil), used...)
		return true
	}
	for again := true; again && time.Now().Before(deadline); {
		again = false
		for size := len(in) / 2; size > 0; size /= 2 {
			for at := 0; at+size <= len(in); {
				if try(append(append([]uint64(nil), in[:at]...), in[at+size:]...)) {
					again = true
				} else {
					at += size
				}
			}
		}
		for at := 0; at < len(in); at++ {
			for _, v := range []uint64{0, in[at] & 0xff, in[at] / 2, in[at] - 1} {
				if at < len(in) && v < in[at] {
					s := append([]uint64(nil), in...)
					s[at] = v
					if try(s) {
						again = true
						break
					}
				}
			}
		}
	}
	g.failed = true
	g.exec(in, false) // so that the last failure written is the smallest
}

// guided runs the guided search of a sub-check in a child process.
func guided(t *testing.T, e *childEnv, n int64, limit time.Duration, prop func(*rapid.T)) {
	if len(coverageCounters()) == 0 {
		return
	}
	shrink := 20 * time.Second
	if d, err := time.ParseDuration(os.Getenv("VERIF_SHRINK")); err == nil {
		shrink = d
	}
	e.res.Guided = &guideStats{}
	g := &guide{t: t, prop: prop, rnd: rand.New(rand.NewSource(int64(e.seed))), stats: e.res.Guided}
	g.run(n, time.Now().Add(limit), shrink)
}
