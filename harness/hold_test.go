package harness

import (
	"fmt"
	"slices"
	"sync"

	"github.com/iomz/gosstrak/scheme"
)

// What a call returned belongs to its caller: later calls must not change it.
// hold remembers results of the current case, which are compared at its end.

type held struct {
	what       string
	bytes      []byte
	bytesCopy  []byte
	strings    []string
	stringCopy []string
}

var (
	holdMu  sync.Mutex
	holding []held
	results int // searches of the case
)

const maxHeld = 200

func keepHeld(h held) {
	if manyGoroutine {
		return
	}
	holdMu.Lock()
	defer holdMu.Unlock()
	if len(holding) < maxHeld {
		holding = append(holding, h)
	}
}

func holdBytes(what string, b []byte) []byte {
	if len(b) > 0 {
		keepHeld(held{what: what, bytes: b, bytesCopy: slices.Clone(b)})
	}
	return b
}

func holdStrings(what string, s []string) []string {
	if len(s) > 0 {
		keepHeld(held{what: what, strings: s, stringCopy: slices.Clone(s)})
	}
	return s
}

func resetHeld() {
	holdMu.Lock()
	defer holdMu.Unlock()
	holding, results = nil, 0
}

// takeURIs uses the result of a search up: sometimes it is kept, sometimes
// the caller writes into it.
func takeURIs(engine string, uris []string) {
	if manyGoroutine {
		return
	}
	holdMu.Lock()
	results++
	n := results
	holdMu.Unlock()
	if n%3 != 0 {
		holdStrings("searches of "+engine, uris)
		return
	}
	for i := range uris[:cap(uris)] {
		uris[:cap(uris)][i] = "http://overwritten"
	}
}

// checkHeld is called after the case.
func checkHeld() error {
	holdMu.Lock()
	all := holding
	holding = nil
	holdMu.Unlock()
	for _, h := range all {
		if h.what == "encoder" { // make another tag with each
			for _, it := range []Item{
				{"giai-96", []string{"5", "654321", "77"}}, {"grai-96", []string{"5", "654321", "123456", "99"}},
				{"sgtin-96", []string{"5", "654321", "1234567", "99"}}, {"sscc-96", []string{"5", "654321", "12345678901"}},
				{"iso17363", []string{"7B", "XYZ", "J", "654321"}}, {"iso17365", []string{"3", "UN", "999", "ZZZ"}},
			} {
				if _, err := encodeItem(it); err != nil {
					return fmt.Errorf("encoding %v: %v", it, err)
				}
			}
			_ = scheme.MakeISOPC(48, "A9")
			break
		}
	}
	for i, h := range all {
		if !slices.Equal(h.bytes, h.bytesCopy) {
			return fmt.Errorf("a later call changed result %d of the %s: it was %x and is now %x", i, h.what, h.bytesCopy, h.bytes)
		}
		if !slices.Equal(h.strings, h.stringCopy) {
			return fmt.Errorf("a later call changed result %d of the %s: it was %q and is now %q", i, h.what, h.stringCopy, h.strings)
		}
	}
	return nil
}
