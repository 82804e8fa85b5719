package harness

import (
	"bytes"
	"encoding/csv"
	"encoding/hex"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"

	"github.com/iomz/go-llrp"
	"github.com/iomz/go-llrp/binutil"
	"pgregory.net/rapid"
)

type tagLine struct {
	PC    string `json:"pc"`   // hex, 1..4 digits in any case
	ID    string `json:"id"`   // hex
	NoTag bool   `json:"none"` // the line holds no tag: the PC is not a number
}

type gobtagsCase struct {
	Lines  []tagLine `json:"lines"`
	Out    bool      `json:"out"` // an output file is named
	Before bool      `json:"b"`   // the output file exists already
	CRLF   bool      `json:"crlf"`
	Quoted bool      `json:"q"`
}

func runProgram(dir, name string, args ...string) (string, error) {
	cmd := exec.Command(program(name), args...)
	cmd.Dir = dir
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	cmd.WaitDelay = time.Second
	if err := cmd.Run(); err != nil {
		return out.String(), fmt.Errorf("%s %q: %v: %s", name, args, err, clip(errb.String(), 1000))
	}
	return out.String(), nil
}

func init() {
	register(spec{ID: "C20", Name: "gobtags", Quick: 600, Thorough: 1500, ThoroughShards: 16,
		Rule:   "a drawn tag file (PC bits in 1 to 4 hex digits of either case, identifiers of 1 to 64 bytes, rarely up to 8193, lines without a tag, both line ends, quoted or not) converted by the program and read back; non-trivial: at least two different tags",
		Assume: []string{"the tag file is read with the LLRP library, as the emulator does"}},
		func(t *rapid.T) gobtagsCase {
			c := gobtagsCase{Out: rapid.IntRange(0, 3).Draw(t, "out") > 0, Before: rapid.Bool().Draw(t, "before"), CRLF: rapid.Bool().Draw(t, "crlf"), Quoted: rapid.Bool().Draw(t, "quoted")}
			n := rapid.OneOf(rapid.IntRange(1, 12), rapid.IntRange(1, 12), rapid.IntRange(100, 400)).Draw(t, "n")
			for i := 0; i < n; i++ {
				l := tagLine{PC: strOf("0123456789abcdefABCDEF", 1, 4).Draw(t, "pc")}
				if rapid.IntRange(0, 9).Draw(t, "none") == 0 {
					l.NoTag = true
					l.PC = rapid.SampledFrom([]string{"PC", "-1", "30000", "0x30", ""}).Draw(t, "badpc")
				}
				switch rapid.IntRange(0, 3).Draw(t, "kind") {
				case 0:
					it := drawItem(t).tag()
					l.ID = it.ID
					if !l.NoTag {
						l.PC = it.PC
					}
				case 1:
					if i > 0 { // the same identifier again
						l.ID = c.Lines[rapid.IntRange(0, i-1).Draw(t, "again")].ID
						break
					}
					fallthrough
				default:
					id := rapid.SliceOfN(rapid.Byte(), 1, 64).Draw(t, "id")
					if rapid.IntRange(0, 30).Draw(t, "islong") == 0 {
						id = stretch(id, rapid.SampledFrom([]int{127, 128, 255, 256, 257, 513, 8193}).Draw(t, "long"))
					}
					l.ID = hex.EncodeToString(id)
				}
				c.Lines = append(c.Lines, l)
			}
			return c
		}, func(ctx *Ctx, c gobtagsCase) error {
			var b strings.Builder
			eol := "\n"
			if c.CRLF {
				eol = "\r\n"
			}
			q := func(s string) string {
				if c.Quoted {
					return `"` + s + `"`
				}
				return s
			}
			type tag struct {
				pc uint16
				id string
			}
			var want []tag
			kinds := map[tag]bool{}
			for _, l := range c.Lines {
				id, _ := hex.DecodeString(l.ID)
				b.WriteString(q(l.PC) + "," + q(bytesToBits(id)) + eol)
				if l.NoTag {
					continue
				}
				var pc uint16
				if _, err := fmt.Sscanf(l.PC, "%x", &pc); err != nil {
					return err
				}
				want = append(want, tag{pc, l.ID})
				kinds[tag{pc, l.ID}] = true
			}
			in := filepath.Join(ctx.scratch, "in.csv")
			if err := os.WriteFile(in, []byte(b.String()), 0o644); err != nil {
				return err
			}
			out := filepath.Join(ctx.scratch, "out.gob")
			args := []string{in}
			if c.Out {
				out = filepath.Join(ctx.scratch, "named.gob")
				args = append(args, "-o", out)
			}
			_ = os.Remove(out)
			if c.Before {
				if err := os.WriteFile(out, bytes.Repeat([]byte("old content "), 5000), 0o644); err != nil {
					return err
				}
			}
			if _, err := runProgram(ctx.scratch, "gobtags", args...); err != nil {
				return err
			}
			var tags llrp.Tags
			if err := binutil.Load(out, &tags); err != nil {
				return fmt.Errorf("the written file cannot be read: %v", err)
			}
			if len(tags) != len(want) {
				return fmt.Errorf("%d tags were read back, want %d", len(tags), len(want))
			}
			for i, g := range tags {
				if g.PCBits != want[i].pc || hex.EncodeToString(g.EPC) != want[i].id {
					return fmt.Errorf("tag %d was read back as %04x %x, want %04x %s", i, g.PCBits, g.EPC, want[i].pc, want[i].id)
				}
			}
			if after, err := os.ReadFile(in); err != nil || string(after) != b.String() {
				return fmt.Errorf("the input file was changed")
			}
			ctx.NonTrivialIf(len(kinds) > 1)
			return nil
		})

	type bigTags struct {
		Tags int `json:"tags"`
		Size int `json:"size"` // bytes of the longest identifier
		Seed int `json:"seed"`
	}
	register(spec{ID: "C20", Name: "manytags", Quick: 6, Thorough: 40, Shards: 4,
		Rule: "a tag file of up to 70000 lines filled from a drawn seed, converted by the program and read back; non-trivial: more than 1000 tags"},
		func(t *rapid.T) bigTags {
			return bigTags{rapid.SampledFrom([]int{900, 1500, 5000, 20000, 70000}).Draw(t, "tags") + rapid.IntRange(0, 99).Draw(t, "more"),
				rapid.IntRange(1, 62).Draw(t, "size"), rapid.IntRange(0, 1<<30).Draw(t, "seed")}
		}, func(ctx *Ctx, c bigTags) error {
			rnd := rand.New(rand.NewSource(int64(c.Seed)))
			var b strings.Builder
			pcs, ids := make([]uint16, c.Tags), make([][]byte, c.Tags)
			for i := range ids {
				pcs[i] = uint16(rnd.Intn(65536))
				ids[i] = make([]byte, 1+rnd.Intn(c.Size))
				rnd.Read(ids[i])
				fmt.Fprintf(&b, "%04x,%s\n", pcs[i], bytesToBits(ids[i]))
			}
			in, out := filepath.Join(ctx.scratch, "many.csv"), filepath.Join(ctx.scratch, "many.gob")
			if err := os.WriteFile(in, []byte(b.String()), 0o644); err != nil {
				return err
			}
			if _, err := runProgram(ctx.scratch, "gobtags", in, "-o", out); err != nil {
				return err
			}
			var tags llrp.Tags
			if err := binutil.Load(out, &tags); err != nil {
				return fmt.Errorf("the written file cannot be read: %v", err)
			}
			if len(tags) != c.Tags {
				return fmt.Errorf("%d tags were read back, want %d", len(tags), c.Tags)
			}
			for i, g := range tags {
				if g.PCBits != pcs[i] || !bytes.Equal(g.EPC, ids[i]) {
					return fmt.Errorf("tag %d was read back as %04x %x, want %04x %x", i, g.PCBits, g.EPC, pcs[i], ids[i])
				}
			}
			ctx.NonTrivialIf(c.Tags > 1000)
			return nil
		})

	type badOut struct {
		Tags  int    `json:"tags"`
		Where string `json:"where"`
	}
	register(spec{ID: "C20", Name: "unwritable", Quick: 60, Thorough: 200, Shards: 4,
		Rule: "a tag file of 1 to 3000 tags, to be written into a directory that does not exist, over a directory, below a file or larger than a file may be; the program must not report success; where it can be written (the control) it must; non-trivial: an output that cannot be written"},
		func(t *rapid.T) badOut {
			return badOut{rapid.OneOf(rapid.IntRange(1, 9), rapid.IntRange(1, 3000)).Draw(t, "tags"),
				rapid.SampledFrom([]string{"missing", "directory", "below", "limit", "limit", "good"}).Draw(t, "where")}
		}, func(ctx *Ctx, c badOut) error {
			dir, err := os.MkdirTemp(ctx.scratch, "unwritable")
			if err != nil {
				return err
			}
			defer os.RemoveAll(dir)
			var b strings.Builder
			for i := 0; i < c.Tags; i++ {
				fmt.Fprintf(&b, "3000,%s\n", bytesToBits([]byte{0x30, byte(i >> 8), byte(i)}))
			}
			in, file := filepath.Join(dir, "in.csv"), filepath.Join(dir, "file")
			if err := os.WriteFile(in, []byte(b.String()), 0o644); err != nil {
				return err
			}
			if err := os.WriteFile(file, nil, 0o644); err != nil {
				return err
			}
			out := filepath.Join(dir, "out.gob")
			switch c.Where {
			case "missing":
				out = filepath.Join(dir, "nowhere", "out.gob")
			case "directory":
				out = dir
			case "below":
				out = filepath.Join(file, "out.gob")
			case "limit": // files of one block at most
				if c.Tags < 400 {
					c.Where = "good"
					break
				}
				cmd := exec.Command("bash", "-c", `ulimit -f 1; exec "$0" "$@"`, program("gobtags"), in, "-o", out)
				cmd.Dir = dir
				if err = cmd.Run(); err != nil {
					err = fmt.Errorf("gobtags: %v", err)
				}
			}
			if c.Where != "limit" {
				_, err = runProgram(dir, "gobtags", in, "-o", out)
			}
			if c.Where != "good" {
				if err == nil {
					return fmt.Errorf("the program reports success although %s (%s) cannot be written", out, c.Where)
				}
				ctx.NonTrivial()
				return nil
			}
			if err != nil {
				return err
			}
			var tags llrp.Tags
			if err := binutil.Load(out, &tags); err != nil {
				return fmt.Errorf("the written file cannot be read: %v", err)
			}
			if len(tags) != c.Tags {
				return fmt.Errorf("%d tags were read back, want %d", len(tags), c.Tags)
			}
			return nil
		})

	type pipeCase struct{ Items []Item }
	register(spec{ID: "C20", Name: "generated", Quick: 300, Thorough: 600, ThoroughShards: 16,
		Rule: "tags made by the generator, written as a tag file, converted, read back and translated give the pure identities of the fields asked for; non-trivial: at least two schemes"},
		func(t *rapid.T) pipeCase {
			var c pipeCase
			for i, n := 0, rapid.IntRange(1, 12).Draw(t, "n"); i < n; i++ {
				c.Items = append(c.Items, drawItem(t))
			}
			return c
		}, func(ctx *Ctx, c pipeCase) error {
			var b bytes.Buffer
			w := csv.NewWriter(&b)
			schemes := map[string]bool{}
			for _, it := range c.Items {
				var bits, pc string
				if it.isEPC() {
					bits, pc = makeEPC(false, strings.ToUpper(it.Scheme), it.Scheme, it.Fields)
				} else if it.Scheme == "iso17363" {
					bits, pc = makeISO("17363", it.Fields[1:])
				} else {
					bits, pc = makeISO("17365", it.Fields)
				}
				_ = w.Write([]string{pc, bits})
				schemes[it.Scheme] = true
			}
			w.Flush()
			in, out := filepath.Join(ctx.scratch, "in.csv"), filepath.Join(ctx.scratch, "gen.gob")
			if err := os.WriteFile(in, b.Bytes(), 0o644); err != nil {
				return err
			}
			if _, err := runProgram(ctx.scratch, "gobtags", in, "--out", out); err != nil {
				return err
			}
			var tags llrp.Tags
			if err := binutil.Load(out, &tags); err != nil {
				return fmt.Errorf("the written file cannot be read: %v", err)
			}
			if len(tags) != len(c.Items) {
				return fmt.Errorf("%d tags were read back, want %d", len(tags), len(c.Items))
			}
			for i, g := range tags {
				want := c.Items[i].tag()
				if fmt.Sprintf("%04x", g.PCBits) != want.PC || hex.EncodeToString(g.EPC) != want.ID {
					return fmt.Errorf("%+v came out as %04x %x, want %+v", c.Items[i], g.PCBits, g.EPC, want)
				}
			}
			ctx.NonTrivialIf(len(schemes) > 1)
			return nil
		})

	type sixCase struct{ Text string }
	register(spec{ID: "C20", Name: "sixenc2bin", Quick: 800, Thorough: 3000,
		Rule: "a text of up to 60 characters, rarely 9000, in the 6-bit alphabet; the printed bits are six per character and decode to it; non-trivial: two different characters"},
		func(t *rapid.T) sixCase {
			n := rapid.SampledFrom([]int{12, 60, 60, 60, 60, 60, 300, 9000}).Draw(t, "long")
			if n > 60 {
				text := strOf(wideSix, 1, 60).Draw(t, "text")
				n = rapid.IntRange(61, n).Draw(t, "n")
				return sixCase{strings.Repeat(text, n/len(text)+1)[:n]}
			}
			return sixCase{strOf(wideSix, 0, n).Draw(t, "text")}
		}, func(ctx *Ctx, c sixCase) error {
			out, err := runProgram(ctx.scratch, "sixenc2bin", c.Text)
			if err != nil {
				return err
			}
			want, ok := six(c.Text)
			if !ok {
				return fmt.Errorf("no reference for %q", c.Text)
			}
			if got := strings.TrimRight(out, "\n"); got != want {
				return fmt.Errorf("%q was printed as %q, want %q", c.Text, got, want)
			}
			ctx.NonTrivialIf(strings.Trim(c.Text, c.Text[:min(1, len(c.Text))]) != "")
			return nil
		})
}
