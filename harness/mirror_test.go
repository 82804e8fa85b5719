package harness

import (
	"bytes"
	"fmt"
	"net"
	"net/http"
	"os"
	"path/filepath"
	"reflect"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/moby/spdystream"
	"pgregory.net/rapid"
)

type mirrorOp struct {
	Kind   string `json:"k"`           // conn, stream, write, header, sync, finish, last, reset, break, garbage, silent, crowd, idle, stuffed, hoard, release
	Conn   int    `json:"c,omitempty"` // modulo the open connections
	Stream int    `json:"s,omitempty"` // modulo the open streams
	Len    int    `json:"n,omitempty"`
	Seed   int    `json:"x,omitempty"`
}

type c22Case struct{ Ops []mirrorOp }

type scarceCase struct {
	Files int        `json:"files"`
	Ops   []mirrorOp `json:"ops"`
}

// payload is n bytes that depend on the seed.
func payload(n, seed int) []byte {
	b := make([]byte, n)
	x := uint32(seed)*2654435761 + 12345
	for i := range b {
		x = x*1664525 + 1013904223
		b[i] = byte(x >> 24)
	}
	return b
}

type mirrorStream struct {
	s    *spdystream.Stream
	sent []byte
	mu   sync.Mutex
	got  []byte
	eof  bool

	headers, back []http.Header // sent, and come back
}

// hear collects the headers that come back.
func (m *mirrorStream) hear() {
	for {
		h, err := m.s.ReceiveHeader()
		if err != nil {
			return
		}
		m.mu.Lock()
		m.back = append(m.back, h)
		m.mu.Unlock()
	}
}

// heard waits until the headers that were sent have come back.
func (m *mirrorStream) heard(what string) error {
	end := time.Now().Add(15 * time.Second)
	for {
		m.mu.Lock()
		back := m.back[:len(m.back):len(m.back)]
		m.mu.Unlock()
		for i, h := range back {
			if i >= len(m.headers) || !reflect.DeepEqual(h, m.headers[i]) {
				return fmt.Errorf("%s: headers sent: %v, came back: %v", what, m.headers, back)
			}
		}
		if len(back) == len(m.headers) {
			return nil
		}
		if time.Now().After(end) {
			return fmt.Errorf("%s: headers sent: %v, came back: %v", what, m.headers, back)
		}
		time.Sleep(100 * time.Microsecond)
	}
}

// someHeader is a header that depends on the seed.
func someHeader(n, seed int) http.Header {
	h := http.Header{}
	for i := 0; i <= n%4; i++ {
		h.Add(fmt.Sprintf("X-Note-%d", (seed+i)%7), fmt.Sprintf("%x", payload(1+(seed+n)%300, seed+i)))
	}
	return h
}

func (m *mirrorStream) collect() {
	buf := make([]byte, 4096)
	for {
		n, err := m.s.Read(buf)
		m.mu.Lock()
		m.got = append(m.got, buf[:n]...)
		if err != nil {
			m.eof = true
			m.mu.Unlock()
			return
		}
		m.mu.Unlock()
	}
}

func (m *mirrorStream) state() ([]byte, bool) {
	m.mu.Lock()
	defer m.mu.Unlock()
	return append([]byte(nil), m.got...), m.eof
}

// check waits until everything that was sent has come back.
func (m *mirrorStream) check(what string) error {
	end := time.Now().Add(15 * time.Second)
	for {
		got, eof := m.state()
		if len(got) > len(m.sent) || !bytes.Equal(got, m.sent[:len(got)]) {
			return fmt.Errorf("%s: %d bytes sent, the %d bytes that came back differ", what, len(m.sent), len(got))
		}
		if len(got) == len(m.sent) {
			return nil
		}
		if eof || time.Now().After(end) {
			return fmt.Errorf("%s: %d bytes sent, %d came back (stream ended: %v)", what, len(m.sent), len(got), eof)
		}
		time.Sleep(100 * time.Microsecond)
	}
}

func (m *mirrorStream) ended(what string) error {
	end := time.Now().Add(15 * time.Second)
	for {
		if _, eof := m.state(); eof {
			return nil
		}
		if time.Now().After(end) {
			return fmt.Errorf("%s: the stream was not ended after it was finished", what)
		}
		time.Sleep(100 * time.Microsecond)
	}
}

type mirrorConn struct {
	raw     net.Conn
	spdy    *spdystream.Connection
	streams []*mirrorStream
	any     int // streams ever made
}

// endpoint is one running program that mirrors.
type endpoint struct {
	p    *proc
	addr string
}

func startEndpoint(ctx *Ctx, name string) (*endpoint, error) {
	return startScarceEndpoint(ctx, name, 0)
}

// startScarceEndpoint limits the number of open files if files is not 0.
func startScarceEndpoint(ctx *Ctx, name string, files int) (*endpoint, error) {
	startProc := startProc
	if files > 0 {
		startProc = func(dir, name string, args ...string) (*proc, error) { return startScarce(files, dir, name, args...) }
	}
	var last string
	for try := 0; try < 8; try++ {
		e := &endpoint{}
		var err error
		if name == "ale-ec" {
			port := 10000 + (ownPort()+(int(time.Now().UnixNano()/1000)%977)*17)%20000
			e.addr = fmt.Sprintf("127.0.0.1:%d", port)
			e.p, err = startProc(ctx.scratch, name, "-p", strconv.Itoa(port))
		} else {
			spec := filepath.Join(ctx.scratch, "ecspec.csv")
			if err := writeSpec(spec, []Owned{{"http://a", Pat{"sgtin-96", []string{"3", "123456"}}}}); err != nil {
				return nil, err
			}
			own := ownLoopback()
			e.addr = fmt.Sprintf("%s:%d", own, ownPort())
			e.p, err = startProc(ctx.scratch, name, "start", "-f", spec, "-l", own+":9", "--managementAddr", e.addr)
		}
		if err != nil {
			return nil, err
		}
		end := time.Now().Add(25 * time.Second)
		for time.Now().Before(end) && !e.p.exited() {
			if c, err := net.DialTimeout("tcp", e.addr, time.Second); err == nil {
				c.Close()
				time.Sleep(5 * time.Millisecond)
				if !e.p.exited() { // it is this program that listens
					return e, nil
				}
				break
			}
			time.Sleep(5 * time.Millisecond)
		}
		last = e.p.tail()
		if !strings.Contains(last, "address already in use") {
			return nil, fmt.Errorf("%s did not start listening: %s", name, last)
		}
	}
	return nil, fmt.Errorf("%s did not start listening: %s", name, last)
}

func runMirror(ctx *Ctx, e *endpoint, c c22Case) error {
	var conns []*mirrorConn
	var spare, hoard []net.Conn
	defer func() {
		for _, k := range hoard {
			k.Close()
		}
		for _, k := range conns {
			k.raw.Close()
		}
		for _, k := range spare {
			k.Close()
		}
	}()
	broken, streams, nconns, resets, nheaders := 0, 0, 0, 0, 0
	at := func(i int) (*mirrorConn, int) {
		if len(conns) == 0 {
			return nil, 0
		}
		return conns[i%len(conns)], i % len(conns)
	}
	most := 0
	open := func(k *mirrorConn, what string) error {
		s, err := k.spdy.CreateStream(http.Header{}, nil, false)
		if err != nil {
			return fmt.Errorf("%s: %v", what, err)
		}
		if err := s.WaitTimeout(15 * time.Second); err != nil {
			return fmt.Errorf("%s: the stream was not accepted: %v", what, err)
		}
		ms := &mirrorStream{s: s}
		go ms.collect()
		go ms.hear()
		k.streams = append(k.streams, ms)
		return nil
	}
	for i, op := range c.Ops {
		what := fmt.Sprintf("op %d (%+v)", i, op)
		if e.p.exited() {
			return fmt.Errorf("%s: the program ended: %s", what, e.p.tail())
		}
		k, ki := at(op.Conn)
		var m *mirrorStream
		mi := 0
		if k != nil && len(k.streams) > 0 {
			mi = op.Stream % len(k.streams)
			m = k.streams[mi]
		}
		switch op.Kind {
		case "conn", "crowd":
			for n := max(op.Len, 1); n > 0; n-- {
				raw, err := net.DialTimeout("tcp", e.addr, 10*time.Second)
				if err != nil {
					return fmt.Errorf("%s: connection refused: %v", what, err)
				}
				sc, err := spdystream.NewConnection(raw, false)
				if err != nil {
					return err
				}
				go sc.Serve(spdystream.NoOpStreamHandler)
				conns = append(conns, &mirrorConn{raw: raw, spdy: sc})
				nconns++
				if op.Kind == "crowd" {
					if err := open(conns[len(conns)-1], what); err != nil {
						return err
					}
					streams++
				}
			}
		case "stream":
			if k == nil {
				continue
			}
			for n := max(op.Len, 1); n > 0; n-- {
				if err := open(k, what); err != nil {
					return err
				}
				streams++
				most = max(most, len(k.streams))
			}
		case "write":
			if m == nil {
				continue
			}
			b := payload(op.Len, op.Seed)
			if err := m.s.WriteData(b, false); err != nil {
				return fmt.Errorf("%s: %v", what, err)
			}
			m.sent = append(m.sent, b...)
		case "header":
			if m == nil {
				continue
			}
			h := someHeader(op.Len, op.Seed)
			m.headers = append(m.headers, h)
			if err := m.s.SendHeader(h.Clone(), false); err != nil {
				return fmt.Errorf("%s: %v", what, err)
			}
			nheaders++
		case "sync":
			if m == nil {
				continue
			}
			if err := m.heard(what); err != nil {
				return err
			}
			if err := m.check(what); err != nil {
				return err
			}
		case "finish", "last":
			if m == nil {
				continue
			}
			if err := m.heard(what); err != nil { // those on the way may be lost at the end
				return err
			}
			if op.Kind == "last" { // the last bytes and the end in one frame
				b := payload(op.Len, op.Seed)
				if err := m.s.WriteData(b, true); err != nil {
					return fmt.Errorf("%s: %v", what, err)
				}
				m.sent = append(m.sent, b...)
			} else if err := m.s.Close(); err != nil {
				return fmt.Errorf("%s: %v", what, err)
			}
			if err := m.check(what); err != nil {
				return err
			}
			if err := m.ended(what); err != nil {
				return err
			}
			k.streams = append(k.streams[:mi:mi], k.streams[mi+1:]...)
		case "reset": // the client gives a stream up
			if m == nil {
				continue
			}
			if err := m.s.Reset(); err != nil {
				return fmt.Errorf("%s: %v", what, err)
			}
			k.streams = append(k.streams[:mi:mi], k.streams[mi+1:]...)
			resets++
		case "break":
			if k == nil {
				continue
			}
			if op.Seed%2 == 0 {
				_ = k.raw.(*net.TCPConn).SetLinger(0) // reset
			}
			k.raw.Close()
			conns = append(conns[:ki:ki], conns[ki+1:]...)
			broken++
		case "idle":
			time.Sleep(time.Duration(op.Len) * time.Millisecond)
		case "hoard":
			for n := op.Len; n > 0; n-- {
				raw, err := net.DialTimeout("tcp", e.addr, 10*time.Second)
				if err != nil {
					return fmt.Errorf("%s: connection refused: %v", what, err)
				}
				hoard = append(hoard, raw)
				nconns++
			}
		case "release":
			for _, k := range hoard {
				k.Close()
			}
			hoard = nil
		case "stuffed": // a client that sends but does not read
			raw, err := net.DialTimeout("tcp", e.addr, 10*time.Second)
			if err != nil {
				return fmt.Errorf("%s: connection refused: %v", what, err)
			}
			spare = append(spare, raw)
			sc, err := spdystream.NewConnection(raw, false)
			if err != nil {
				return err
			}
			_ = raw.SetWriteDeadline(time.Now().Add(200 * time.Millisecond))
			if s, err := sc.CreateStream(http.Header{}, nil, false); err == nil {
				for n := op.Len; n > 0 && err == nil; n -= 65536 {
					err = s.WriteData(payload(65536, op.Seed), false)
				}
			}
			broken++
		case "garbage", "silent":
			raw, err := net.DialTimeout("tcp", e.addr, 10*time.Second)
			if err != nil {
				return fmt.Errorf("%s: connection refused: %v", what, err)
			}
			if op.Kind == "garbage" {
				_, _ = raw.Write(payload(op.Len, op.Seed))
			}
			if op.Seed%3 == 0 {
				spare = append(spare, raw)
			} else {
				raw.Close()
			}
			broken++
		}
	}
	for ki, k := range conns {
		for mi, m := range k.streams {
			what := fmt.Sprintf("at the end, connection %d stream %d", ki, mi)
			err := m.check(what)
			if err == nil {
				err = m.heard(what)
			}
			if err != nil {
				if e.p.exited() {
					return fmt.Errorf("%w; the program ended: %s", err, e.p.tail())
				}
				return err
			}
		}
	}
	if e.p.exited() {
		return fmt.Errorf("the program ended: %s", e.p.tail())
	}
	ctx.NonTrivialIf(streams > 1 && nconns > 1)
	ctx.LabelIf(broken > 0, "broken connections")
	ctx.LabelIf(nheaders > 0, "headers")
	ctx.LabelIf(resets > 0, "streams given up")
	ctx.LabelIf(streams > 4, "more than 4 streams")
	ctx.LabelIf(nconns > 16, "more than 16 connections")
	ctx.LabelIf(most > 40, "more than 40 streams on a connection")
	return nil
}

func init() {
	gen := func(t *rapid.T) c22Case {
		c := c22Case{Ops: []mirrorOp{{Kind: "conn"}, {Kind: "stream"}}}
		n := rapid.IntRange(1, 60).Draw(t, "n")
		for i := 0; i < n; i++ {
			op := mirrorOp{Conn: rapid.IntRange(0, 9).Draw(t, "conn"), Stream: rapid.IntRange(0, 7).Draw(t, "stream"), Seed: rapid.IntRange(0, 9999).Draw(t, "seed")}
			switch rapid.IntRange(0, 28).Draw(t, "kind") {
			case 26, 27:
				op.Kind = "header"
				op.Len = rapid.IntRange(0, 99).Draw(t, "headers")
			case 25:
				op.Kind = "stuffed"
				op.Len = rapid.SampledFrom([]int{1, 100000, 20000000}).Draw(t, "stuffing")
			case 0, 1:
				op.Kind = "conn"
				if rapid.IntRange(0, 7).Draw(t, "crowd") == 0 {
					op.Kind = "crowd"
					op.Len = rapid.IntRange(2, 40).Draw(t, "crowdsize")
				}
			case 2, 3, 4, 5:
				op.Kind = "stream"
				if rapid.IntRange(0, 11).Draw(t, "manystreams") == 0 {
					op.Len = rapid.IntRange(2, 120).Draw(t, "nstreams")
				}
			case 6, 7, 8:
				op.Kind = "sync"
			case 9, 10:
				op.Kind = "finish"
				if rapid.Bool().Draw(t, "last") {
					op.Kind = "last"
					op.Len = rapid.OneOf(rapid.IntRange(1, 3000), rapid.SampledFrom([]int{32768, 65536, 200000})).Draw(t, "lastlen")
				}
			case 11:
				op.Kind = "break"
			case 12:
				op.Kind = "garbage"
				op.Len = rapid.IntRange(1, 200).Draw(t, "len")
			case 13:
				op.Kind = "silent"
			case 14:
				op.Kind = "reset"
			default:
				op.Kind = "write"
				op.Len = rapid.OneOf(rapid.IntRange(1, 20), rapid.IntRange(1, 3000), rapid.SampledFrom([]int{4096, 32768, 65535, 65536, 200000})).Draw(t, "len")
			}
			c.Ops = append(c.Ops, op)
		}
		return c
	}
	for _, name := range []string{"ale-ec", "gosstrak-fc"} {
		var mu sync.Mutex
		var running *endpoint
		register(spec{ID: "C22", Name: name, Quick: 200, Thorough: 4000, Shards: 4, ThoroughShards: 8, CaseLimit: 100 * time.Second,
			Rule:   "the program built from the tree; a history of connections, streams, chunks, headers, finished streams, broken, garbage and silent connections; every stream must return what was sent; non-trivial: several streams and connections",
			Assume: []string{"the client reads what comes back"}},
			gen, func(ctx *Ctx, c c22Case) error {
				mu.Lock()
				defer mu.Unlock()
				if running == nil {
					e, err := startEndpoint(ctx, name)
					if err != nil {
						return err
					}
					running = e
					atExit(e.p.stop)
				}
				err := runMirror(ctx, running, c)
				if err != nil {
					running.p.stop()
					running = nil
				}
				return err
			})
		register(spec{ID: "C22", Name: name + "-scarce", Quick: 3, Thorough: 20, Shards: 2, ThoroughShards: 4, CaseLimit: 200 * time.Second,
			Rule: "the program built from the tree, allowed 40 to 120 open files; some connections with streams, then more connections than files while the first ones are used, then these closed and new connections with streams; every stream must return what was sent; non-trivial: as " + name},
			func(t *rapid.T) scarceCase {
				c := scarceCase{Files: rapid.IntRange(40, 120).Draw(t, "files")}
				add := func(ops ...mirrorOp) { c.Ops = append(c.Ops, ops...) }
				n := 0
				for round := rapid.IntRange(1, 3).Draw(t, "rounds"); round > 0; round-- {
					for k := rapid.IntRange(1, 3).Draw(t, "nconns"); k > 0; k-- {
						add(mirrorOp{Kind: "conn"}, mirrorOp{Kind: "stream", Conn: n})
						n++
					}
					add(mirrorOp{Kind: "hoard", Len: rapid.IntRange(1, 3*c.Files).Draw(t, "hoard")},
						mirrorOp{Kind: "idle", Len: rapid.SampledFrom([]int{0, 30, 1500}).Draw(t, "pause")})
					for k := rapid.IntRange(1, 6).Draw(t, "nwrites"); k > 0; k-- {
						x := rapid.IntRange(0, n-1).Draw(t, "conn")
						add(mirrorOp{Kind: "write", Conn: x, Len: rapid.IntRange(1, 3000).Draw(t, "len"), Seed: rapid.IntRange(0, 9999).Draw(t, "seed")},
							mirrorOp{Kind: "sync", Conn: x})
					}
					add(mirrorOp{Kind: "release"})
				}
				add(mirrorOp{Kind: "conn"}, mirrorOp{Kind: "stream", Conn: n}, mirrorOp{Kind: "write", Conn: n, Len: 100})
				return c
			}, func(ctx *Ctx, c scarceCase) error {
				e, err := startScarceEndpoint(ctx, name, c.Files)
				if err != nil {
					return err
				}
				defer e.p.stop()
				return runMirror(ctx, e, c22Case{c.Ops})
			})
		register(spec{ID: "C22", Name: name + "-idle", Quick: 1, Thorough: 1, Shards: 1, ThoroughShards: 2, CaseLimit: 400 * time.Second,
			Rule: "the program built from the tree; several connections of which some send every few seconds and the others nothing for 62 to 70 s (thorough: up to 190 s), then all of them send and open streams; every stream must return what was sent; non-trivial: as " + name},
			func(t *rapid.T) c22Case {
				var c c22Case
				n := rapid.IntRange(2, 5).Draw(t, "nconns")
				busy := rapid.IntRange(1, n-1).Draw(t, "busy") // the first ones
				add := func(ops ...mirrorOp) { c.Ops = append(c.Ops, ops...) }
				write := func(k int) {
					x := rapid.IntRange(0, 3).Draw(t, "stream")
					add(mirrorOp{Kind: "write", Conn: k, Stream: x, Len: rapid.IntRange(1, 3000).Draw(t, "len"), Seed: rapid.IntRange(0, 9999).Draw(t, "seed")},
						mirrorOp{Kind: "sync", Conn: k, Stream: x})
				}
				for k := 0; k < n; k++ {
					add(mirrorOp{Kind: "conn"})
					if k < busy || rapid.IntRange(0, 2).Draw(t, "early") > 0 { // others make streams only later
						add(mirrorOp{Kind: "stream", Conn: k, Len: rapid.IntRange(1, 4).Draw(t, "nstreams")})
						write(k)
					}
				}
				total := rapid.IntRange(62000, 70000).Draw(t, "idle")
				if os.Getenv("VERIF_TIER") == "thorough" {
					total += rapid.IntRange(0, 120000).Draw(t, "longer")
				}
				for total > 0 {
					d := rapid.IntRange(1000, 6000).Draw(t, "pause")
					total -= d
					add(mirrorOp{Kind: "idle", Len: d})
					write(rapid.IntRange(0, busy-1).Draw(t, "who"))
				}
				for k := 0; k < n; k++ {
					write(k)
					add(mirrorOp{Kind: "stream", Conn: k})
					write(k)
				}
				add(mirrorOp{Kind: "conn"}, mirrorOp{Kind: "stream", Conn: n})
				write(n)
				return c
			}, func(ctx *Ctx, c c22Case) error {
				e, err := startEndpoint(ctx, name)
				if err != nil {
					return err
				}
				defer e.p.stop()
				return runMirror(ctx, e, c)
			})
	}
}
