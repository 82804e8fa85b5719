package harness

import (
	"compress/gzip"
	"fmt"
	"io"
	"math"
	"math/rand"
	"net"
	"net/http"
	"net/http/httptest"
	"os"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/iomz/gosstrak/monitoring"
	"pgregory.net/rapid"
)

// point is one line of the line protocol.
type point struct {
	Measurement string
	Tags        map[string]string
	Fields      map[string]string // raw text of the value
	Time        int64             // nanoseconds
}

// key is what makes two points the same to the database.
func (p point) key() string { return fmt.Sprint(p.Measurement, p.Tags, p.Time) }

// splitEsc splits at unescaped separators.
func splitEsc(s string, sep byte) []string {
	var out []string
	var cur []byte
	quoted := false
	for i := 0; i < len(s); i++ {
		switch {
		case s[i] == '\\' && i+1 < len(s):
			cur = append(cur, s[i], s[i+1])
			i++
		case s[i] == '"':
			quoted = !quoted
			cur = append(cur, s[i])
		case s[i] == sep && !quoted:
			out = append(out, string(cur))
			cur = nil
		default:
			cur = append(cur, s[i])
		}
	}
	return append(out, string(cur))
}

func unesc(s string) string {
	return strings.NewReplacer(`\,`, ",", `\ `, " ", `\=`, "=").Replace(s)
}

func parseLine(l string, precision string) (point, error) {
	p := point{Tags: map[string]string{}, Fields: map[string]string{}}
	parts := splitEsc(l, ' ')
	if len(parts) != 3 {
		return p, fmt.Errorf("line %q has %d parts", l, len(parts))
	}
	for i, kv := range splitEsc(parts[0], ',') {
		if i == 0 {
			p.Measurement = unesc(kv)
			continue
		}
		x := splitEsc(kv, '=')
		if len(x) != 2 {
			return p, fmt.Errorf("bad tag %q", kv)
		}
		p.Tags[unesc(x[0])] = unesc(x[1])
	}
	for _, kv := range splitEsc(parts[1], ',') {
		x := splitEsc(kv, '=')
		if len(x) != 2 {
			return p, fmt.Errorf("bad field %q", kv)
		}
		p.Fields[unesc(x[0])] = x[1]
	}
	ts, err := strconv.ParseInt(parts[2], 10, 64)
	if err != nil {
		return p, err
	}
	switch precision {
	case "", "n", "ns":
		p.Time = ts
	case "u", "us":
		p.Time = ts * 1e3
	case "ms":
		p.Time = ts * 1e6
	case "s":
		p.Time = ts * 1e9
	default:
		return p, fmt.Errorf("unknown precision %q", precision)
	}
	return p, nil
}

// fakeDB is an endpoint that stores the points of each database.
type fakeDB struct {
	srv  *httptest.Server
	mu   sync.Mutex
	dbs  map[string][]point
	bad  map[string]string // first thing wrong per database
	user map[string]string
	slow time.Duration
	// stalls of single writes, and whether the points are visible only afterwards
	stall map[string]map[int]stalled
	seen  map[string]int
	busy  int // connections with a request that is not yet answered
}

type stalled struct {
	ms   int
	late bool
}

func newFakeDB() *fakeDB {
	f := &fakeDB{dbs: map[string][]point{}, bad: map[string]string{}, user: map[string]string{},
		stall: map[string]map[int]stalled{}, seen: map[string]int{}}
	f.srv = httptest.NewUnstartedServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		db := r.URL.Query().Get("db")
		var body io.Reader = r.Body
		if r.Header.Get("Content-Encoding") == "gzip" {
			if z, err := gzip.NewReader(r.Body); err == nil {
				body = z
			}
		}
		b, _ := io.ReadAll(body)
		f.mu.Lock()
		n := f.seen[db]
		f.seen[db]++
		st := f.stall[db][n]
		if st.late {
			f.mu.Unlock()
			time.Sleep(time.Duration(st.ms) * time.Millisecond)
			f.mu.Lock()
		}
		slow := f.slow
		if !st.late {
			slow += time.Duration(st.ms) * time.Millisecond
		}
		note := func(s string) {
			if f.bad[db] == "" {
				f.bad[db] = s
			}
		}
		if r.URL.Path != "/write" || r.Method != "POST" {
			if !strings.HasPrefix(r.URL.Path, "/ping") {
				note("unexpected request " + r.Method + " " + r.URL.String())
			}
		} else {
			u, p, _ := r.BasicAuth()
			f.user[db] = u + ":" + p
			for _, l := range strings.Split(string(b), "\n") {
				if strings.TrimSpace(l) == "" {
					continue
				}
				pt, err := parseLine(l, r.URL.Query().Get("precision"))
				if err != nil {
					note(err.Error())
					continue
				}
				f.dbs[db] = append(f.dbs[db], pt)
			}
		}
		f.mu.Unlock()
		time.Sleep(slow)
		w.WriteHeader(204)
	}))
	busy := map[net.Conn]bool{}
	f.srv.Config.ConnState = func(c net.Conn, s http.ConnState) {
		f.mu.Lock()
		defer f.mu.Unlock()
		delete(busy, c)
		if s == http.StateActive {
			busy[c] = true
		}
		f.busy = len(busy)
	}
	f.srv.Start()
	return f
}

// hangUp closes the connections once all requests are answered; a manager
// ends the program when it doesn't get an answer.
func (f *fakeDB) hangUp() {
	for deadline := time.Now().Add(30 * time.Second); time.Now().Before(deadline); time.Sleep(100 * time.Microsecond) {
		f.mu.Lock()
		busy := f.busy
		f.mu.Unlock()
		if busy == 0 {
			break
		}
	}
	f.srv.CloseClientConnections()
}

func (f *fakeDB) get(db string) ([]point, string) {
	f.mu.Lock()
	defer f.mu.Unlock()
	return append([]point(nil), f.dbs[db]...), f.bad[db]
}

type statMsg struct {
	Kind    int     `json:"k"` // 0 traffic, 1 throughput, 2 selected
	Name    string  `json:"n"`
	Events  int64   `json:"e"`
	Matches int64   `json:"m"`
	Rate    float64 `json:"r"`
	Pause   int     `json:"p"` // ms before it
	Mgr     int     `json:"g"` // which manager gets it
}

type c18Case struct {
	DB, User, Pass string
	Msgs           []statMsg
	Slow           int // ms per write
	Mgrs           int // managers, each with its own database
}

func sameFloat(text string, want float64) bool {
	v, err := strconv.ParseFloat(strings.TrimSuffix(text, "i"), 64)
	return err == nil && (v == want || math.Abs(v-want) <= 1e-9*math.Abs(want))
}

func sameInt(text string, want int64) bool {
	return text == strconv.FormatInt(want, 10)+"i"
}

// checkPoint compares a stored point with its message.
func checkPoint(p point, m statMsg) error {
	fail := func(what string) error {
		return fmt.Errorf("message %+v was stored as %+v: %s", m, p, what)
	}
	wantTag := m.Name
	fields := 0
	switch m.Kind {
	case 0:
		if p.Measurement != "traffic" {
			return fail("measurement")
		}
		if !sameInt(p.Fields["incoming_events"], m.Events) || !sameInt(p.Fields["matched_events"], m.Matches) {
			return fail("counts")
		}
		fields = 2
		prob, has := p.Fields["matching_probability"]
		if m.Events == 0 {
			if has {
				return fail("matching probability without events")
			}
		} else {
			fields = 3
			if !has || !sameFloat(prob, 100*float64(m.Matches)/float64(m.Events)) {
				return fail("matching probability")
			}
		}
	case 1:
		if p.Measurement != "throughput" {
			return fail("measurement")
		}
		if !sameFloat(p.Fields["event_per_us"], m.Rate) {
			return fail("throughput")
		}
		fields = 1
	case 2:
		if p.Measurement != "engine" {
			return fail("measurement")
		}
		want := map[string]int64{"List": 1, "PatriciaTrie": 2, "SplayTree": 3}[m.Name]
		if !sameInt(p.Fields["selected"], want) {
			return fail("selected engine")
		}
		fields = 1
		wantTag = ""
		if e, has := p.Tags["engine"]; has && e != m.Name {
			return fail("engine tag of another message")
		}
	}
	if len(p.Fields) != fields {
		return fail("other fields")
	}
	if m.Kind != 2 && p.Tags["engine"] != wantTag {
		return fail("engine tag")
	}
	return nil
}

// manyCase is a long history of one manager.
type manyCase struct {
	N    int `json:"n"`
	Seed int `json:"seed"`
}

// stallCase is the history of one manager, whose write number At takes MS.
type stallCase struct {
	Msgs []statMsg `json:"msgs"`
	At   int       `json:"at"`
	MS   int       `json:"ms"`
	Late bool      `json:"late"` // the points are there only after that time
}

var c18Count atomic.Int64

var c18DB = sync.OnceValue(newFakeDB)

var statName = rapid.OneOf(rapid.SampledFrom([]string{"LegacyEngine", "List", "PatriciaTrie", "SplayTree", "Legacy"}),
	strOf("abcXYZ019-_ ,=./", 1, 12))

func drawStatMsg(t *rapid.T, mgr int) statMsg {
	m := statMsg{Kind: rapid.IntRange(0, 2).Draw(t, "kind"), Name: statName.Draw(t, "name"), Mgr: mgr}
	if m.Kind == 0 {
		switch rapid.IntRange(0, 4).Draw(t, "ev") {
		case 0:
		case 1:
			m.Events = rapid.Int64Range(1, math.MaxInt64).Draw(t, "big")
		default:
			m.Events = rapid.Int64Range(1, 5000).Draw(t, "events")
		}
		switch rapid.IntRange(0, 3).Draw(t, "mk") {
		case 0:
			m.Matches = m.Events
		case 1:
		default:
			m.Matches = rapid.Int64Range(0, m.Events).Draw(t, "matches")
		}
	}
	if m.Kind == 1 {
		m.Rate = rapid.Float64Range(0, 1e9).Draw(t, "rate")
	}
	return m
}

func init() {
	register(spec{ID: "C18", Name: "points", Quick: 150, Thorough: 1500, ThoroughShards: 16,
		Rule:   "a history of 1..25 (sometimes 250) messages of all types for one to three managers with drawn names and values against a database endpoint on the loopback network; non-trivial: at least three messages of two types",
		Assume: []string{"the endpoint answers every write with success (the middleware stops otherwise)", "throughputs are finite (C17)", "names are printable and have no backslash (the client library does not escape those)"}},
		func(t *rapid.T) c18Case {
			c := c18Case{DB: strOf("abcdef &+%=/?", 1, 8).Draw(t, "db"), User: strOf(alnum, 1, 6).Draw(t, "user"), Pass: strOf(alnum+"!$%&/=? ", 1, 6).Draw(t, "pass")}
			c.Mgrs = rapid.SampledFrom([]int{1, 1, 1, 2, 3}).Draw(t, "managers")
			n := rapid.IntRange(1, 25).Draw(t, "n")
			if rapid.IntRange(0, 11).Draw(t, "long") == 0 {
				n = rapid.IntRange(60, 250).Draw(t, "nlong")
			}
			for i := 0; i < n; i++ {
				m := drawStatMsg(t, rapid.IntRange(0, c.Mgrs-1).Draw(t, "mgr"))
				if rapid.IntRange(0, 30).Draw(t, "pausing") == 0 {
					m.Pause = rapid.IntRange(1, 30).Draw(t, "pause")
				}
				c.Msgs = append(c.Msgs, m)
			}
			if rapid.IntRange(0, 9).Draw(t, "slowdb") == 0 {
				c.Slow = rapid.IntRange(1, 5).Draw(t, "slow")
			}
			return c
		}, func(ctx *Ctx, c c18Case) error {
			f := c18DB()
			f.mu.Lock()
			f.slow = time.Duration(c.Slow) * time.Millisecond
			f.mu.Unlock()
			defer f.hangUp()
			begin := time.Now()
			var sms []*monitoring.StatManager
			var dbs []string
			for i := 0; i < max(c.Mgrs, 1); i++ {
				dbs = append(dbs, fmt.Sprintf("%s#%d", c.DB, c18Count.Add(1)))
				sms = append(sms, monitoring.NewStatManager("master", f.srv.URL, c.User, c.Pass, dbs[i]))
			}
			kinds := map[int]bool{}
			send := func(m statMsg) error { return sendStat(sms[m.Mgr], m, 20*time.Second) }
			// a last message that marks the end of the history
			per := make([][]statMsg, len(sms))
			all := append([]statMsg(nil), c.Msgs...)
			for i := range sms {
				all = append(all, statMsg{Kind: 0, Name: "the-end", Events: 8, Matches: 2, Mgr: i})
			}
			for _, m := range all {
				time.Sleep(time.Duration(m.Pause) * time.Millisecond)
				if err := send(m); err != nil {
					return err
				}
				kinds[m.Kind] = true
				per[m.Mgr] = append(per[m.Mgr], m)
			}
			for g, db := range dbs {
				if err := checkStored(f, db, per[g], c, begin); err != nil {
					return fmt.Errorf("manager %d of %d: %w", g, len(dbs), err)
				}
			}
			ctx.NonTrivialIf(len(c.Msgs) >= 3 && len(kinds) > 1)
			return nil
		})
	register(spec{ID: "C18", Name: "many", Quick: 1, Thorough: 6, Shards: 3, CaseLimit: 3 * time.Minute,
		Rule:   "a history of 2000 to 12099 (thorough: 70000) messages of all types made from a drawn seed, for one manager; non-trivial: every case",
		Assume: []string{"the endpoint answers every write with success (the middleware stops otherwise)"}},
		func(t *rapid.T) manyCase {
			c := manyCase{N: rapid.SampledFrom([]int{2000, 5000, 12000}).Draw(t, "n") + rapid.IntRange(0, 99).Draw(t, "more"), Seed: rapid.IntRange(0, 1<<30).Draw(t, "seed")}
			if os.Getenv("VERIF_TIER") == "thorough" && rapid.Bool().Draw(t, "most") {
				c.N = rapid.IntRange(66000, 70000).Draw(t, "n")
			}
			return c
		}, func(ctx *Ctx, c manyCase) error {
			f := c18DB()
			f.mu.Lock()
			f.slow = 0
			f.mu.Unlock()
			defer f.hangUp()
			begin := time.Now()
			db := fmt.Sprintf("many#%d", c18Count.Add(1))
			sm := monitoring.NewStatManager("master", f.srv.URL, "u", "p", db)
			rnd := rand.New(rand.NewSource(int64(c.Seed)))
			var all []statMsg
			for i := 0; i < c.N; i++ {
				m := statMsg{Kind: rnd.Intn(3), Name: []string{"LegacyEngine", "List", "PatriciaTrie", "SplayTree"}[rnd.Intn(4)]}
				switch m.Kind {
				case 0:
					m.Events = rnd.Int63n(1 << uint(1+rnd.Intn(40)))
					m.Matches = rnd.Int63n(m.Events + 1)
				case 1:
					m.Rate = rnd.ExpFloat64()
				}
				all = append(all, m)
				if err := sendStat(sm, m, 20*time.Second); err != nil {
					return fmt.Errorf("message %d: %w", i, err)
				}
			}
			ctx.NonTrivial()
			return checkStored(f, db, all, c18Case{User: "u", Pass: "p"}, begin)
		})
	register(spec{ID: "C18", Name: "stall", Quick: 1, Thorough: 12, Shards: 8, ThoroughShards: 24, CaseLimit: 3 * time.Minute,
		Rule:   "up to ten managers at the same time, each with a short history of messages, pauses of up to four seconds and one write that the database answers only after up to thirteen seconds; every point must be there once, and no other after a while; non-trivial: an answer took longer than two seconds",
		Assume: []string{"the endpoint answers every write with success (the middleware stops otherwise)"}},
		func(t *rapid.T) []stallCase {
			n := rapid.IntRange(1, 10).Draw(t, "managers")
			var out []stallCase
			for i := 0; i < n; i++ {
				var c stallCase
				k := rapid.IntRange(1, 4).Draw(t, "n")
				for j := 0; j < k; j++ {
					m := drawStatMsg(t, 0)
					if rapid.IntRange(0, 3).Draw(t, "pausing") == 0 {
						m.Pause = rapid.IntRange(1, 4000).Draw(t, "pause")
					}
					c.Msgs = append(c.Msgs, m)
				}
				c.At = rapid.IntRange(0, k).Draw(t, "at")
				c.MS = rapid.IntRange(100, 13000).Draw(t, "stall")
				c.Late = rapid.Bool().Draw(t, "late")
				out = append(out, c)
			}
			return out
		}, func(ctx *Ctx, cs []stallCase) error {
			f := c18DB()
			f.mu.Lock()
			f.slow = 0
			f.mu.Unlock()
			defer f.hangUp()
			begin := time.Now()
			errs := make(chan error, len(cs))
			for i, c := range cs {
				ctx.NonTrivialIf(c.MS > 2000)
				go func() {
					errs <- func() error {
						db := fmt.Sprintf("stall#%d", c18Count.Add(1))
						f.mu.Lock()
						f.stall[db] = map[int]stalled{c.At: {c.MS, c.Late}}
						f.mu.Unlock()
						sm := monitoring.NewStatManager("master", f.srv.URL, "u", "p", db)
						all := append(append([]statMsg(nil), c.Msgs...), statMsg{Kind: 0, Name: "the-end", Events: 8, Matches: 2})
						for _, m := range all {
							time.Sleep(time.Duration(m.Pause) * time.Millisecond)
							if err := sendStat(sm, m, 40*time.Second); err != nil {
								return fmt.Errorf("manager %d: %w", i, err)
							}
						}
						// the last write is answered, or another would have been made
						wait := c18Case{User: "u", Pass: "p", Slow: 1000}
						if c.At == len(c.Msgs) {
							wait.Slow = (c.MS + 1000) / 2
						}
						if err := checkStored(f, db, all, wait, begin); err != nil {
							return fmt.Errorf("manager %d: %w", i, err)
						}
						return nil
					}()
				}()
			}
			var first error
			for range cs {
				if err := <-errs; err != nil && first == nil {
					first = err
				}
			}
			return first
		})
}

func sendStat(sm *monitoring.StatManager, m statMsg, limit time.Duration) error {
	msg := monitoring.StatMessage{Name: m.Name}
	switch m.Kind {
	case 0:
		msg.Type, msg.Value = monitoring.Traffic, []interface{}{m.Events, m.Matches}
	case 1:
		msg.Type, msg.Value = monitoring.EngineThroughput, []interface{}{m.Rate}
	case 2:
		msg.Type = monitoring.SelectedEngine
	}
	select {
	case sm.StatMessageChannel <- msg:
		return nil
	case <-time.After(limit):
		return fmt.Errorf("message %+v was not taken within %v", m, limit)
	}
}

// checkStored compares what a database holds with the messages for it.
func checkStored(f *fakeDB, db string, all []statMsg, c c18Case, begin time.Time) error {
	// all points, or too many, or 20 s
	deadline := time.Now().Add(20*time.Second + time.Duration(c.Slow)*time.Millisecond)
	var pts []point
	var bad string
	for {
		pts, bad = f.get(db)
		if bad != "" || len(pts) >= len(all) || time.Now().After(deadline) {
			break
		}
		time.Sleep(200 * time.Microsecond)
	}
	time.Sleep(time.Millisecond + 2*time.Duration(c.Slow)*time.Millisecond)
	pts, bad = f.get(db)
	if bad != "" {
		return fmt.Errorf("bad write: %s", bad)
	}
	if len(pts) != len(all) {
		return fmt.Errorf("%d points were written for %d messages: %s", len(pts), len(all), clip(fmt.Sprintf("%+v", pts), 3000))
	}
	f.mu.Lock()
	user := f.user[db]
	delete(f.dbs, db)
	f.mu.Unlock()
	if user != c.User+":"+c.Pass {
		return fmt.Errorf("credentials %q were sent, %q are configured", user, c.User+":"+c.Pass)
	}
	same := map[string]bool{}
	for i, p := range pts {
		if err := checkPoint(p, all[i]); err != nil {
			return fmt.Errorf("point %d: %w", i, err)
		}
		if same[p.key()] {
			return fmt.Errorf("point %d has measurement, tags and time of an earlier one, which it replaces: %+v", i, p)
		}
		same[p.key()] = true
		at := time.Unix(0, p.Time)
		if at.Before(begin.Add(-2*time.Second)) || at.After(time.Now().Add(2*time.Second)) {
			return fmt.Errorf("point %d is dated %v", i, at)
		}
	}
	return nil
}
