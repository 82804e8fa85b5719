package harness

import (
	"bytes"
	"encoding/binary"
	"encoding/csv"
	"encoding/hex"
	"fmt"
	"math"
	"net"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"slices"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/iomz/go-llrp"
	"github.com/moby/spdystream"
	"pgregory.net/rapid"
)

func program(name string) string { return filepath.Join(os.Getenv("VERIF_BUILD"), name) }

// proc is a running program of /repo.
type proc struct {
	cmd  *exec.Cmd
	out  bytes.Buffer
	done chan struct{}
	err  error
}

func startProc(dir, name string, args ...string) (*proc, error) {
	return startCmd(dir, exec.Command(program(name), args...))
}

// startScarce starts a program that may have only so many open files.
func startScarce(files int, dir, name string, args ...string) (*proc, error) {
	args = append([]string{"-c", `ulimit -n "$0"; exec "$@"`, strconv.Itoa(files), program(name)}, args...)
	return startCmd(dir, exec.Command("bash", args...))
}

func startCmd(dir string, cmd *exec.Cmd) (*proc, error) {
	p := &proc{cmd: cmd, done: make(chan struct{})}
	p.cmd.Dir = dir
	p.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	p.cmd.Stdout = &limitWriter{w: &p.out, n: 1 << 20}
	p.cmd.Stderr = p.cmd.Stdout
	if err := p.cmd.Start(); err != nil {
		return nil, err
	}
	go func() {
		p.err = p.cmd.Wait()
		close(p.done)
	}()
	return p, nil
}

func (p *proc) exited() bool {
	select {
	case <-p.done:
		return true
	default:
		return false
	}
}

func (p *proc) stop() {
	_ = p.cmd.Process.Kill()
	<-p.done
}

// tail is the end of what the program printed; only after done or stop.
func (p *proc) tail() string {
	p.stop()
	s := p.out.String()
	if i := strings.Index(s, "panic:"); i >= 0 {
		return clip(s[i:], 1500)
	}
	if i := strings.Index(s, "fatal error:"); i >= 0 {
		return clip(s[i:], 1500)
	}
	if len(s) > 800 {
		s = s[len(s)-800:]
	}
	return s
}

// ownLoopback is an address of the loopback network for this process alone.
func ownLoopback() string {
	pid := os.Getpid()
	return fmt.Sprintf("127.%d.%d.%d", 1+(pid>>16)&0x7f, (pid>>8)&0xff, 1+pid&0x7f)
}

var portSeq atomic.Int64

func ownPort() int { return 12000 + int(portSeq.Add(1))%15000 }

func writeSpec(path string, owned []Owned) error {
	var b bytes.Buffer
	w := csv.NewWriter(&b)
	for u, pats := range subsOf(owned) {
		if err := w.Write(append([]string{u}, pats...)); err != nil {
			return err
		}
	}
	w.Flush()
	return os.WriteFile(path, b.Bytes(), 0o644)
}

type readerMsg struct {
	Kind string `json:"k"` // keepalive, event, response, report
	ID   uint32 `json:"id"`
	Body int    `json:"b,omitempty"` // length of an arbitrary body
	Tags []int  `json:"t,omitempty"`
	Reps int    `json:"r,omitempty"` // the tags are repeated
	More int    `json:"m,omitempty"` // the message is sent again so many times
}

type c19Case struct {
	Subs      []Owned     `json:"subs"`
	Tags      []Tag       `json:"tags"`
	MessageID uint32      `json:"message_id"`
	Msgs      []readerMsg `json:"msgs"`
	Cuts      []int       `json:"cuts"`             // lengths of the segments, repeated
	Pauses    []int       `json:"pauses"`           // microseconds after each segment, repeated
	Slow      int         `json:"slow,omitempty"`   // ms that the database takes to answer
	Late      int         `json:"late"`             // ms until the reader listens
	Idle      int         `json:"idle"`             // ms of silence in the middle
	Manage    []int       `json:"manage,omitempty"` // lengths of writes to the management endpoint meanwhile
	Plain     bool        `json:"plain,omitempty"`  // no statistics, default message identifier
}

func (m readerMsg) encode(tags []Tag) ([]byte, int) {
	var h uint16
	var body []byte
	n := 0
	switch m.Kind {
	case "keepalive":
		h = llrp.KeepaliveHeader
	case "event":
		h = llrp.ReaderEventNotificationHeader
	case "response":
		h = llrp.SetReaderConfigResponseHeader
	case "report":
		h = llrp.ROAccessReportHeader
		for r := 0; r <= m.Reps; r++ {
			for _, i := range m.Tags {
				pc, id := tags[i].bytes()
				body = append(body, llrp.NewTagReportDataParam(&llrp.Tag{PCBits: binary.BigEndian.Uint16(pc), EPC: id})...)
				n++
			}
		}
	}
	if m.Kind != "report" {
		for i := 0; i < m.Body; i++ {
			body = append(body, byte(i*37+int(m.ID)))
		}
	}
	b := binary.BigEndian.AppendUint16(nil, h)
	b = binary.BigEndian.AppendUint32(b, uint32(10+len(body)))
	b = binary.BigEndian.AppendUint32(b, m.ID)
	return append(b, body...), n
}

func drawC19(t *rapid.T) c19Case {
	var c c19Case
	c.Subs, c.Tags = drawFacWorld(t)
	owner := ownerMap(c.Subs)
	for i := 0; i < 6; i++ { // malformed tags that match nothing
		w := drawWildTag(t)
		pc, id := w.bytes()
		if len(pc) != 2 || len(id) > 200 {
			continue
		}
		if _, ok := refTranslate(pc, id); !ok && len(expectURIs(owner, id)) == 0 {
			c.Tags = append(c.Tags, w)
		}
	}
	c.MessageID = rapid.OneOf(rapid.Uint32Range(0, 70000), rapid.Uint32Range(0, 1<<32-1), rapid.SampledFrom([]uint32{0, 1<<31 - 1, 1 << 31, 1<<32 - 1})).Draw(t, "messageid")
	n := rapid.OneOf(rapid.IntRange(1, 40), rapid.IntRange(40, 160), rapid.IntRange(60, 160)).Draw(t, "nmsgs")
	bursts, reps := 0, 0
	for i := 0; i < n; i++ {
		m := readerMsg{ID: rapid.Uint32().Draw(t, "mid")}
		if bursts < 3 && rapid.IntRange(0, 14).Draw(t, "burst") == 0 {
			bursts++
			m.More = rapid.IntRange(1, 900).Draw(t, "more")
		}
		switch rapid.IntRange(0, 9).Draw(t, "kind") {
		case 0, 1:
			m.Kind = "keepalive"
		case 2:
			m.Kind = "event"
			m.Body = rapid.IntRange(0, 60).Draw(t, "body")
		case 3:
			m.Kind = "response"
			m.Body = rapid.IntRange(0, 20).Draw(t, "body")
		default:
			m.Kind = "report"
			m.Tags = rapid.SliceOfN(rapid.IntRange(0, len(c.Tags)-1), 0, 12).Draw(t, "tags")
			switch rapid.IntRange(0, 24).Draw(t, "reps") {
			case 0:
				if m.More > 50 {
					break
				}
				m.Reps = rapid.IntRange(1, 300).Draw(t, "many")
				if reps < 8000 && len(m.Tags) > 0 { // more than 64 KiB
					m.Reps += rapid.IntRange(0, 4000/len(m.Tags)).Draw(t, "more")
				}
				reps += m.Reps * len(m.Tags)
			case 1, 2:
				m.Reps = rapid.IntRange(1, 10).Draw(t, "some")
			}
		}
		c.Msgs = append(c.Msgs, m)
	}
	c.Cuts = rapid.SliceOfN(rapid.OneOf(rapid.IntRange(1, 14), rapid.IntRange(1, 300), rapid.IntRange(1, 100000)), 1, 12).Draw(t, "cuts")
	c.Pauses = rapid.SliceOfN(rapid.SampledFrom([]int{0, 0, 0, 50, 300, 1500}), 1, 8).Draw(t, "pauses")
	c.Slow = rapid.SampledFrom([]int{0, 0, 0, 15, 50}).Draw(t, "slow")
	if rapid.IntRange(0, 3).Draw(t, "islate") == 0 {
		c.Late = rapid.IntRange(1, 2500).Draw(t, "late")
	}
	if rapid.IntRange(0, 2).Draw(t, "ismanaged") == 0 {
		c.Manage = rapid.SliceOfN(rapid.OneOf(rapid.IntRange(1, 20), rapid.IntRange(1, 3000), rapid.Just(40000)), 1, 20).Draw(t, "manage")
	}
	return c
}

func init() {
	draw := drawC19
	register(spec{ID: "C19", Name: "idle", Quick: 1, Thorough: 1, Shards: 2, ThoroughShards: 4, CaseLimit: 200 * time.Second,
		Rule: "as reader, with a silence of 7 to 12 s (thorough: up to 75 s) in the middle of the stream, possibly within a message; non-trivial: as reader"},
		func(t *rapid.T) c19Case {
			c := draw(t)
			c.Idle = rapid.IntRange(7000, 12000).Draw(t, "idle")
			if os.Getenv("VERIF_TIER") == "thorough" {
				c.Idle += rapid.IntRange(20000, 63000).Draw(t, "longer")
			}
			return c
		}, runC19)
	register(spec{ID: "C19", Name: "silence", Quick: 1, Thorough: 1, Shards: 1, ThoroughShards: 2, CaseLimit: 300 * time.Second,
		Rule: "as idle, with a silence of 62 to 70 s (thorough: up to 190 s); non-trivial: as reader"},
		func(t *rapid.T) c19Case {
			c := draw(t)
			c.Idle = rapid.IntRange(62000, 70000).Draw(t, "idle")
			if os.Getenv("VERIF_TIER") == "thorough" {
				c.Idle += rapid.IntRange(0, 120000).Draw(t, "longer")
			}
			return c
		}, runC19)
	register(spec{ID: "C19", Name: "plain", Quick: 2, Thorough: 30, Shards: 4, ThoroughShards: 16, CaseLimit: 100 * time.Second,
		Rule: "as reader, without statistics and with the default message identifier (1000): the replies; non-trivial: more than 20 messages, segments that cut messages"},
		func(t *rapid.T) c19Case {
			c := draw(t)
			c.Plain = true
			c.MessageID = 1000
			return c
		}, runC19)
	register(spec{ID: "C19", Name: "flood", Quick: 1, Thorough: 4, Shards: 2, ThoroughShards: 4, CaseLimit: 200 * time.Second,
		Rule: "as plain, with up to 70000 keep-alives, events and reports in a row among the messages; non-trivial: as plain"},
		func(t *rapid.T) c19Case {
			c := draw(t)
			c.Plain = true
			c.MessageID = 1000
			at := rapid.IntRange(0, len(c.Msgs)-1).Draw(t, "flooded")
			c.Msgs[at].More = rapid.SampledFrom([]int{5000, 67000, 70000}).Draw(t, "flood")
			c.Msgs[at].Reps = 0
			c.Cuts = []int{rapid.IntRange(500, 30000).Draw(t, "cut")}
			return c
		}, runC19)
	register(spec{ID: "C19", Name: "reader", Quick: 8, Thorough: 60, Shards: 8, ThoroughShards: 16, CaseLimit: 100 * time.Second,
		Rule: "the middleware built from the tree, connected to a fake reader that sends a drawn message history cut into drawn segments, and to a fake statistics endpoint; non-trivial: more than 20 messages, at least one matching tag, segments that cut messages; in a third of the cases streams of the management endpoint are used meanwhile and must be mirrored",
		Assume: []string{"messages are well-formed LLRP of the four types the middleware knows; tags carry their PC parameter (the LLRP library needs it)",
			"tags are such that text matching and bit matching agree, as the middleware chooses its engine"}},
		draw, runC19)
}

func runC19(ctx *Ctx, c c19Case) error {
	owner := ownerMap(c.Subs)
	spec := filepath.Join(ctx.scratch, "ecspec.csv")
	if err := writeSpec(spec, c.Subs); err != nil {
		return err
	}
	addr := fmt.Sprintf("%s:%d", ownLoopback(), ownPort())
	var reader net.Listener
	listen := func() (err error) {
		reader, err = net.Listen("tcp", addr)
		return
	}
	if c.Late == 0 {
		if err := listen(); err != nil {
			return err
		}
		defer reader.Close()
	}
	db := newFakeDB()
	db.slow = time.Duration(c.Slow) * time.Millisecond
	defer db.srv.Close()
	management := fmt.Sprintf("%s:%d", ownLoopback(), ownPort())
	args := []string{"start", "-l", addr, "-f", spec, "--managementAddr", management}
	if !c.Plain {
		args = append(args, "-m", strconv.FormatUint(uint64(c.MessageID), 10),
			"--enableStat", "--statInterval", "1", "--influxAddr", db.srv.URL, "--influxDB", "db", "--influxUser", "some one", "--influxPass", "p:ss")
	}
	p, err := startProc(ctx.scratch, "gosstrak-fc", args...)
	if err != nil {
		return err
	}
	defer p.stop()
	if c.Late > 0 {
		time.Sleep(time.Duration(c.Late) * time.Millisecond)
		if err := listen(); err != nil {
			return err
		}
		defer reader.Close()
	}
	_ = reader.(*net.TCPListener).SetDeadline(time.Now().Add(30 * time.Second))
	conn, err := reader.Accept()
	if err != nil {
		return fmt.Errorf("the middleware did not connect to the reader within 30 s (%v): %s", err, p.tail())
	}
	defer conn.Close()

	// the management endpoint meanwhile
	managed := make(chan error, 1)
	if len(c.Manage) == 0 {
		managed <- nil
	} else {
		go func() { managed <- useManagement(management, c.Manage) }()
	}

	// expected replies, tags and matches
	var stream, replies []byte
	total, matches := int64(0), int64(0)
	var all []readerMsg
	most := 0
	for _, m := range c.Msgs {
		most = max(most, m.More)
		for i := 0; i <= m.More; i++ {
			all = append(all, m)
			m.ID++
		}
	}
	all = append(all, readerMsg{Kind: "keepalive", ID: 77})
	for _, m := range all {
		b, n := m.encode(c.Tags)
		stream = append(stream, b...)
		total += int64(n)
		switch m.Kind {
		case "keepalive":
			replies = append(replies, llrp.KeepaliveAck(c.MessageID)...)
		case "event":
			replies = append(replies, llrp.SetReaderConfig(c.MessageID)...)
		case "report":
			for _, i := range m.Tags {
				_, id := c.Tags[i].bytes()
				if len(expectURIs(owner, id)) > 0 {
					matches += int64(m.Reps + 1)
				}
			}
		}
	}
	var mu sync.Mutex
	var got []byte
	go func() {
		buf := make([]byte, 4096)
		for {
			n, err := conn.Read(buf)
			mu.Lock()
			got = append(got, buf[:n]...)
			mu.Unlock()
			if err != nil {
				return
			}
		}
	}()
	cutInside := false
	rest := stream
	budget := 400 * time.Millisecond // for pauses
	for i := 0; len(rest) > 0; i++ {
		n := c.Cuts[i%len(c.Cuts)]
		if n > len(rest) {
			n = len(rest)
		}
		if len(rest) > n && i > 3 {
			cutInside = true
		}
		if _, err := conn.Write(rest[:n]); err != nil {
			return fmt.Errorf("the middleware closed the connection (%v): %s", err, p.tail())
		}
		if c.Idle > 0 && len(rest) > len(stream)/2 && len(rest)-n <= len(stream)/2 {
			time.Sleep(time.Duration(c.Idle) * time.Millisecond)
		}
		rest = rest[n:]
		if d := time.Duration(c.Pauses[i%len(c.Pauses)]) * time.Microsecond; d > 0 && budget > 0 {
			time.Sleep(d)
			budget -= d + 100*time.Microsecond
		}
	}
	// the replies
	wait := func(limit time.Duration, cond func() bool) bool {
		end := time.Now().Add(limit)
		for !cond() {
			if p.exited() || time.Now().After(end) {
				return cond()
			}
			time.Sleep(2 * time.Millisecond)
		}
		return true
	}
	ok := wait(20*time.Second, func() bool { mu.Lock(); defer mu.Unlock(); return len(got) >= len(replies) })
	if !ok {
		mu.Lock()
		defer mu.Unlock()
		if p.exited() {
			return fmt.Errorf("the middleware ended: %s", p.tail())
		}
		return fmt.Errorf("%d bytes of replies after 20 s, want %d", len(got), len(replies))
	}
	if err := <-managed; err != nil {
		if p.exited() {
			return fmt.Errorf("the middleware ended: %s", p.tail())
		}
		return fmt.Errorf("management endpoint: %w", err)
	}
	if c.Plain {
		time.Sleep(300 * time.Millisecond)
		if p.exited() {
			return fmt.Errorf("the middleware ended: %s", p.tail())
		}
		mu.Lock()
		defer mu.Unlock()
		if !bytes.Equal(got, replies) {
			return fmt.Errorf("replies %s, want %s", clip(hex.EncodeToString(got), 600), clip(hex.EncodeToString(replies), 600))
		}
		ctx.NonTrivialIf(len(c.Msgs) > 20 && cutInside)
		return nil
	}
	// the tags
	sums := func() (ev, ma map[string]int64, bad string) {
		pts, bad := db.get("db")
		ev, ma = map[string]int64{}, map[string]int64{}
		for _, q := range pts {
			if q.Measurement != "traffic" {
				continue
			}
			e, _ := strconv.ParseInt(strings.TrimSuffix(q.Fields["incoming_events"], "i"), 10, 64)
			m, _ := strconv.ParseInt(strings.TrimSuffix(q.Fields["matched_events"], "i"), 10, 64)
			ev[q.Tags["engine"]] += e
			ma[q.Tags["engine"]] += m
		}
		return
	}
	peak := func(m map[string]int64) (v int64) {
		for _, x := range m {
			if x > v {
				v = x
			}
		}
		return
	}
	wait(20*time.Second, func() bool { ev, ma, _ := sums(); return peak(ev) >= total && peak(ma) >= matches && len(ev) > 0 })
	time.Sleep(1200 * time.Millisecond) // another report may still count a tag again
	// what else the engines report
	var stored error
	wait(20*time.Second, func() bool {
		pts, _ := db.get("db")
		stored = checkReported(pts)
		return stored == nil
	})
	if p.exited() {
		return fmt.Errorf("the middleware ended: %s", p.tail())
	}
	if stored != nil {
		return stored
	}
	db.mu.Lock()
	user := db.user["db"]
	db.mu.Unlock()
	if user != "some one:p:ss" {
		return fmt.Errorf("the statistics are written as %q, want user \"some one\" and password \"p:ss\"", user)
	}
	ev, ma, bad := sums()
	if bad != "" {
		return fmt.Errorf("bad statistics: %s", bad)
	}
	if peak(ev) != total {
		return fmt.Errorf("%d tags were sent, the engines searched %v", total, ev)
	}
	complete := 0
	for n, e := range ev {
		if e == total {
			complete++
			if ma[n] != matches {
				return fmt.Errorf("%d of %d tags match a subscription, %s matched %d", matches, total, n, ma[n])
			}
		}
	}
	mu.Lock()
	defer mu.Unlock()
	if !bytes.Equal(got, replies) {
		return fmt.Errorf("replies %s, want %s", clip(hex.EncodeToString(got), 600), clip(hex.EncodeToString(replies), 600))
	}
	ctx.NonTrivialIf(len(c.Msgs) > 20 && matches > 0 && cutInside)
	ctx.LabelIf(complete == 4, "all engines searched all tags")
	ctx.LabelIf(matches > 0, "matching tags")
	ctx.LabelIf(matches < total, "tags that match nothing")
	ctx.LabelIf(cutInside, "cut")
	ctx.LabelIf(len(c.Manage) > 0, "managed meanwhile")
	ctx.LabelIf(len(c.Msgs) > 20, "more than 20 messages")
	ctx.LabelIf(total > 500, "more than 500 tags")
	ctx.LabelIf(most > 200, "more than 200 copies of a message in a row")
	return nil
}

// checkReported checks the points of a running middleware: the counts of each
// engine with their probability, a throughput whenever there were events, and
// the selected engine.
func checkReported(pts []point) error {
	counts, rates := map[string]int{}, map[string]int{}
	selected := 0
	for _, q := range pts {
		name := q.Tags["engine"]
		if q.Measurement != "engine" && !slices.Contains(allEngines, name) {
			return fmt.Errorf("a point of an unknown engine was stored: %+v", q)
		}
		num := func(field string) float64 {
			v, _ := strconv.ParseFloat(strings.TrimSuffix(q.Fields[field], "i"), 64)
			return v
		}
		switch q.Measurement {
		case "traffic":
			e, m := num("incoming_events"), num("matched_events")
			if _, has := q.Fields["matching_probability"]; has != (e != 0) {
				return fmt.Errorf("probability with %v events: %+v", e, q)
			} else if has && !sameFloat(q.Fields["matching_probability"], m/e*100) {
				return fmt.Errorf("wrong probability: %+v", q)
			}
			if e > 0 {
				counts[name]++
			}
		case "throughput":
			if v := num("event_per_us"); !(v > 0) || math.IsInf(v, 0) {
				return fmt.Errorf("throughput stored: %+v", q)
			}
			rates[name]++
		case "engine":
			if v := num("selected"); v < 0 || v > 3 {
				return fmt.Errorf("selection stored: %+v", q)
			}
			selected++
		default:
			return fmt.Errorf("unknown measurement: %+v", q)
		}
	}
	for name, n := range counts {
		if rates[name] != n {
			return fmt.Errorf("%s reported events %d times, %d throughputs were stored", name, n, rates[name])
		}
	}
	if selected == 0 {
		return fmt.Errorf("no selection was stored")
	}
	return nil
}

// useManagement writes to a stream of the management endpoint and expects the same bytes.
func useManagement(addr string, lens []int) error {
	var raw net.Conn
	var err error
	for end := time.Now().Add(20 * time.Second); ; time.Sleep(20 * time.Millisecond) {
		if raw, err = net.DialTimeout("tcp", addr, 5*time.Second); err == nil {
			break
		}
		if time.Now().After(end) {
			return err
		}
	}
	defer raw.Close()
	sc, err := spdystream.NewConnection(raw, false)
	if err != nil {
		return err
	}
	go sc.Serve(spdystream.NoOpStreamHandler)
	s, err := sc.CreateStream(http.Header{}, nil, false)
	if err != nil {
		return err
	}
	if err := s.WaitTimeout(15 * time.Second); err != nil {
		return fmt.Errorf("the stream was not accepted: %v", err)
	}
	m := &mirrorStream{s: s}
	go m.collect()
	for i, n := range lens {
		b := payload(n, i)
		if err := s.WriteData(b, false); err != nil {
			return err
		}
		m.sent = append(m.sent, b...)
		if i%3 == 0 {
			if err := m.check(fmt.Sprintf("write %d", i)); err != nil {
				return err
			}
		}
	}
	return m.check("at the end")
}
