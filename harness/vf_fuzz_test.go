package termemu

// Coverage-guided search for inputs worth giving to the specification: the
// programs found here are followed by TLC (Follow.tla), and the behaviours it
// requires replayed like any other.  Nothing is judged here.

import (
	"bufio"
	"compress/gzip"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"io"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"testing"
	"time"
	"unicode/utf8"
)

// vfCounters gives the coverage counters of the package under test; set by
// vf_cov_test.go in binaries built for the search.
var vfCounters func() []byte

type vfOp struct {
	K string  `json:"k"`
	B vfBytes `json:"b"`
	Z []int   `json:"z"`
	M int     `json:"m"`
}

type vfProg struct {
	W   int    `json:"w"`
	H   int    `json:"h"`
	Ops []vfOp `json:"ops"`
}

// TestVFFuzz:
//
//	VF_SEEDS   files of behaviours, separated by spaces
//	VF_OUT     programs found
//	VF_CUR     the program being run, should the process die
//	VF_BUDGET  seconds
//	VF_MAX     programs wanted
//	VF_GRAPH, VF_BUF, VF_SRC
func TestVFFuzz(tt *testing.T) {
	if os.Getenv("VF_SEEDS") == "" || vfCounters == nil {
		tt.Skip("not configured")
	}
	num := func(k string) int { n, _ := strconv.Atoi(os.Getenv(k)); return n }
	fz := &vfFuzzer{rng: rand.New(rand.NewSource(int64(num("VF_SEED")))), graph: os.Getenv("VF_GRAPH") == "1", buf: os.Getenv("VF_BUF"),
		seen: make([]uint64, len(vfCounters())/8+1), paths: map[uint64]bool{}, calm: num("VF_CALM")}
	fz.dictionary(os.Getenv("VF_SRC"))
	for _, f := range strings.Fields(os.Getenv("VF_SEEDS")) {
		if err := fz.load(f, 60); err != nil {
			tt.Fatal(err)
		}
	}
	if len(fz.seeds) == 0 {
		tt.Fatal("no seeds")
	}
	out, err := os.Create(os.Getenv("VF_OUT"))
	if err != nil {
		tt.Fatal(err)
	}
	defer out.Close()
	cur, err := os.Create(os.Getenv("VF_CUR"))
	if err != nil {
		tt.Fatal(err)
	}
	defer cur.Close()
	emitted := 0
	emit := func(p *vfProg) {
		q, _ := json.Marshal(p)
		_, _ = out.Write(append(q, '\n'))
		emitted++
	}
	deadline := time.Now().Add(time.Duration(num("VF_BUDGET")) * time.Second)
	want := num("VF_MAX")
	// what the seeds do is known: they are replayed anyway
	for i := range fz.seeds {
		if time.Now().After(deadline.Add(-time.Duration(num("VF_BUDGET")) * time.Second * 2 / 3)) {
			break
		}
		fz.run(&fz.seeds[i])
	}
	base, execs, npath := fz.edges, 0, 0
	var late []vfProg // programs with a new path, but no new edge
	for time.Now().Before(deadline) && emitted < want {
		p := fz.mutate()
		q, _ := json.Marshal(p)
		_, _ = cur.WriteAt(append(q, '\n'), 0)
		_ = cur.Truncate(int64(len(q) + 1))
		edge, path, died := fz.run(p)
		execs++
		if died {
			emit(p)
			tt.Logf("died: %s", fz.why)
			break
		}
		if edge >= 0 {
			fz.queue = append(fz.queue, *p)
			r := *p
			r.Ops = r.Ops[:vfMin(len(r.Ops), edge+3)]
			emit(&r)
		} else if path {
			npath++
			fz.queue = append(fz.queue, *p)
			if len(fz.queue) > 3000 {
				fz.queue = fz.queue[1000:]
			}
			if len(late) < 4*want {
				late = append(late, *p)
			} else {
				late[fz.rng.Intn(len(late))] = *p
			}
		}
	}
	_ = cur.Truncate(0)
	edges := emitted
	for emitted < want && len(late) > 0 {
		i := fz.rng.Intn(len(late))
		emit(&late[i])
		late[i] = late[len(late)-1]
		late = late[:len(late)-1]
	}
	fmt.Printf("FUZZ seeds %d execs %d edges %d+%d paths %d new-edge programs %d programs %d\n", len(fz.seeds), execs, base, fz.edges-base, npath, edges, emitted)
}

func vfMin(a, b int) int {
	if a < b {
		return a
	}
	return b
}

type vfFuzzer struct {
	rng   *rand.Rand
	graph bool
	buf   string
	calm  int
	seeds []vfProg
	queue []vfProg
	ints  []int
	strs  []string
	seen  []uint64
	edges int
	snap  []byte
	paths map[uint64]bool
	why   string
}

// dictionary collects the constants of the source code.
func (fz *vfFuzzer) dictionary(dir string) {
	ints, strs := map[int]bool{}, map[string]bool{}
	files, _ := filepath.Glob(filepath.Join(dir, "*.go"))
	for _, f := range files {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		a, err := parser.ParseFile(token.NewFileSet(), f, nil, 0)
		if err != nil {
			continue
		}
		ast.Inspect(a, func(n ast.Node) bool {
			if l, ok := n.(*ast.BasicLit); ok {
				switch l.Kind {
				case token.INT:
					if v, err := strconv.ParseInt(l.Value, 0, 64); err == nil && v >= 0 && v < 1<<31 {
						ints[int(v)] = true
					}
				case token.CHAR:
					if v, _, _, err := strconv.UnquoteChar(strings.Trim(l.Value, "'"), '\''); err == nil {
						ints[int(v)] = true
					}
				case token.STRING:
					if v, err := strconv.Unquote(l.Value); err == nil && len(v) > 0 && len(v) < 40 {
						strs[v] = true
					}
				}
			}
			return true
		})
	}
	for v := range ints {
		fz.ints = append(fz.ints, v)
	}
	sort.Ints(fz.ints)
	for s := range strs {
		fz.strs = append(fz.strs, s)
	}
	sort.Strings(fz.strs)
	if len(fz.ints) == 0 {
		fz.ints = []int{0, 1}
	}
	if len(fz.strs) == 0 {
		fz.strs = []string{"x"}
	}
}

func (fz *vfFuzzer) load(path string, max int) error {
	f, err := os.Open(path)
	if err != nil {
		return err
	}
	defer f.Close()
	var src io.Reader = f
	if strings.HasSuffix(path, ".gz") {
		if src, err = gzip.NewReader(f); err != nil {
			return err
		}
	}
	var keep []vfProg
	br := bufio.NewReaderSize(src, 1<<20)
	for i := 0; ; i++ {
		line, err := br.ReadBytes('\n')
		if len(line) < 3 || i > 40*max {
			break
		}
		j := i
		if i >= max {
			if j = fz.rng.Intn(i + 1); j >= max {
				continue
			}
		}
		var tr vfTrace
		if e := json.Unmarshal(line, &tr); e != nil {
			return e
		}
		p := vfProg{W: tr.W, H: tr.H}
		for _, s := range tr.Steps {
			o := vfOp{K: s.K, B: s.B, Z: s.Z}
			if !vfIsCall(s.K) && len(s.Z) > 0 {
				o.M = 1 // the rest of a sequence
			}
			if o.Z == nil {
				o.Z = []int{}
			}
			if o.B == nil {
				o.B = vfBytes{}
			}
			if o.K == "key" || o.K == "mouse" || o.K == "resize" || len(o.B) > 0 {
				p.Ops = append(p.Ops, o)
			}
		}
		if n := 14 + fz.rng.Intn(10); len(p.Ops) > n {
			a := 0
			if fz.rng.Intn(3) == 0 {
				a = fz.rng.Intn(len(p.Ops) - n)
			}
			p.Ops = append([]vfOp(nil), p.Ops[a:a+n]...)
		}
		if len(p.Ops) == 0 {
			continue
		}
		if j < len(keep) {
			keep[j] = p
		} else {
			keep = append(keep, p)
		}
		if err != nil {
			break
		}
	}
	fz.seeds = append(fz.seeds, keep...)
	return nil
}

var vfBucket = func() (b [256]uint32) {
	for i := range b {
		switch {
		case i < 4:
			b[i] = uint32(i)
		case i < 8:
			b[i] = 4
		case i < 16:
			b[i] = 5
		case i < 64:
			b[i] = 6
		default:
			b[i] = 7
		}
	}
	return
}()

// run executes a program; edge is the last step that took a new edge (-1:
// none), path whether some step took an unknown set of edges.
func (fz *vfFuzzer) run(p *vfProg) (edge int, path, died bool) {
	edge = -1
	h := vfNewHost(p.W, p.H, fz.buf, fz.graph, false)
	defer h.close()
	h.fe.t = nil
	if h.dead {
		fz.why = h.why
		return 0, false, true
	}
	ctr := vfCounters()
	for i := range p.Ops {
		o := &p.Ops[i]
		clear(ctr)
		why := ""
		switch o.K {
		case "resize":
			why = h.resize(o.Z[0], o.Z[1])
		case "key", "mouse":
			why = h.input(&vfStep{K: o.K, Z: o.Z})
		default:
			why = h.feed(o.B)
		}
		if why != "" {
			fz.why = why
			return i, true, true
		}
		fz.snap = append(fz.snap[:0], ctr...) // looking at them counts, too
		sum := uint64(14695981039346656037)
		for j := 0; j+8 <= len(fz.snap); j += 8 {
			if binary.LittleEndian.Uint64(fz.snap[j:]) == 0 {
				continue
			}
			for m := j; m < j+8; m++ {
				if c := fz.snap[m]; c != 0 {
					b := uint32(m)<<3 | vfBucket[c]
					if fz.seen[b>>6]&(1<<(b&63)) == 0 {
						fz.seen[b>>6] |= 1 << (b & 63)
						fz.edges++
						edge = i
					}
					sum = (sum ^ uint64(b)) * 1099511628211
				}
			}
		}
		if !fz.paths[sum] {
			fz.paths[sum] = true
			path = true
		}
	}
	return
}

func (fz *vfFuzzer) seed() *vfProg {
	if n := len(fz.queue); n > 0 && fz.rng.Intn(2) == 0 {
		return &fz.queue[n-1-fz.rng.Intn(vfMin(n, 400))]
	}
	return &fz.seeds[fz.rng.Intn(len(fz.seeds))]
}

func (fz *vfFuzzer) mutate() *vfProg {
	s := fz.seed()
	p := &vfProg{W: s.W, H: s.H, Ops: append([]vfOp(nil), s.Ops...)}
	if fz.rng.Intn(8) == 0 {
		p.W, p.H = fz.size()
	}
	for n := 1 + fz.rng.Intn(4); n > 0; n-- {
		at := 0
		if len(p.Ops) > 0 {
			at = fz.rng.Intn(len(p.Ops))
		}
		switch d := fz.rng.Intn(12); {
		case d < 2: // splice
			q := fz.seed()
			k := fz.rng.Intn(len(q.Ops))
			p.Ops = append(append([]vfOp(nil), p.Ops[:at]...), q.Ops[k:]...)
		case d < 5: // insert
			q := fz.seed()
			o := q.Ops[fz.rng.Intn(len(q.Ops))]
			if fz.rng.Intn(12) == 0 {
				w, h := fz.size()
				o = vfOp{K: "resize", B: vfBytes{}, Z: []int{w, h}}
			}
			p.Ops = append(p.Ops[:at], append([]vfOp{o}, p.Ops[at:]...)...)
		case d < 6: // repeat
			if len(p.Ops) > 0 {
				p.Ops = append(p.Ops[:at], append([]vfOp{p.Ops[at]}, p.Ops[at:]...)...)
			}
		case d < 7: // delete
			if len(p.Ops) > 1 {
				p.Ops = append(p.Ops[:at], p.Ops[at+1:]...)
			}
		default:
			if len(p.Ops) > 0 {
				p.Ops[at] = fz.change(p, p.Ops[at])
			}
		}
	}
	if len(p.Ops) > 26 {
		p.Ops = p.Ops[:26]
	}
	if len(p.Ops) == 0 {
		p.Ops = []vfOp{{K: "lf", B: vfBytes{10}, Z: []int{}}}
	}
	return p
}

func (fz *vfFuzzer) size() (int, int) {
	v := func(hi int) int {
		if fz.rng.Intn(12) == 0 {
			if n := fz.ints[fz.rng.Intn(len(fz.ints))]; n > 0 && n < 140 {
				return n
			}
		}
		return 1 + fz.rng.Intn(hi)
	}
	w, h := v(12), v(7)
	if w*h > 1000 {
		h = 3
	}
	return w, h
}

func (fz *vfFuzzer) number(p *vfProg) string {
	switch fz.rng.Intn(8) {
	case 0:
		return ""
	case 1, 2:
		return strconv.Itoa(fz.rng.Intn(p.W + 3))
	case 3:
		return strconv.Itoa(fz.rng.Intn(p.H + 3))
	case 4, 5:
		return strconv.Itoa(fz.ints[fz.rng.Intn(len(fz.ints))])
	case 6:
		return strconv.Itoa(fz.rng.Intn(300))
	}
	return []string{"65535", "65536", "16777215", "16777216", "2147483648", "99999999999999999999", "007", "1000"}[fz.rng.Intn(8)]
}

// change returns a modified copy of a token.
func (fz *vfFuzzer) change(p *vfProg, o vfOp) vfOp {
	if vfIsCall(o.K) {
		z := append([]int(nil), o.Z...)
		if o.K == "resize" {
			z[0], z[1] = fz.size()
		} else if o.K == "mouse" {
			z[3+fz.rng.Intn(2)] = 1 + fz.rng.Intn(300)
		} else {
			z[2] ^= 1 << fz.rng.Intn(8)
		}
		o.Z = z
		return o
	}
	b := append([]byte(nil), o.B...)
	if len(b) == 0 {
		b = []byte{'a'}
	}
	o.M = 1
	if len(b) >= 3 && b[0] == 27 && b[1] == '[' {
		body, fin := string(b[2:len(b)-1]), b[len(b)-1]
		pre := ""
		if body != "" && strings.ContainsRune("<=>?", rune(body[0])) {
			pre, body = body[:1], body[1:]
		}
		ps := strings.Split(body, ";")
		switch d := fz.rng.Intn(10); {
		case d < 5:
			ps[fz.rng.Intn(len(ps))] = fz.number(p)
		case d < 6:
			ps = append(ps, fz.number(p))
		case d < 7:
			if len(ps) > 1 {
				ps = ps[1:]
			} else {
				ps = []string{""}
			}
		case d < 9:
			const finals = "ABCDGHJKLMPSTXcdfhlmnrsuABCDEFGHIJKLMNOPQRSTUVWXYZ@abcdefghijklmnopqrstuvwxyz"
			fin = finals[fz.rng.Intn(len(finals))]
		default:
			pre = []string{"", "?", ">", "=", "<"}[fz.rng.Intn(5)]
		}
		o.B = vfBytes("\x1b[" + pre + strings.Join(ps, ";") + string(fin))
		o.K = vfKindOf(o.B)
		return o
	}
	if fz.graph || fz.calm == 1 {
		// the specification knows the cluster rules for its own alphabet only
		o.M = 0
		return o
	}
	switch fz.rng.Intn(7) {
	case 0:
		b[fz.rng.Intn(len(b))] ^= 1 << fz.rng.Intn(8)
	case 1:
		i := fz.rng.Intn(len(b) + 1)
		s := fz.strs[fz.rng.Intn(len(fz.strs))]
		b = append(b[:i:i], append([]byte(s), b[i:]...)...)
	case 2:
		i := fz.rng.Intn(len(b))
		b = append(b[:i], b[i+1:]...)
	case 3:
		i := fz.rng.Intn(len(b) + 1)
		b = append(b[:i:i], append([]byte{byte(fz.rng.Intn(256))}, b[i:]...)...)
	case 4:
		r := rune(fz.ints[fz.rng.Intn(len(fz.ints))])
		if !utf8.ValidRune(r) {
			r = 'x'
		}
		b = append(b, string(r)...)
	case 5:
		b = []byte(strings.Repeat(string(b), 2+fz.rng.Intn(3)))
	default:
		if b[0] == 27 && len(b) > 4 { // a string sequence: change its number
			b = append([]byte{27, b[1]}, append([]byte(fz.number(p)), b[3:]...)...)
		} else {
			b = append([]byte(nil), fz.seed().Ops[0].B...)
		}
	}
	if len(b) > 120 {
		b = b[:120]
	}
	o.B = b
	o.K = vfKindOf(b)
	return o
}

// vfKindOf guesses what a token is.
func vfKindOf(b []byte) string {
	if len(b) == 0 {
		return "bad"
	}
	if b[0] != 27 {
		for _, c := range b {
			if c == 27 || c < 32 || c == 127 {
				if len(b) == 1 {
					if k := map[byte]string{8: "bs", 127: "bs", 9: "ht", 10: "lf", 12: "ff", 13: "cr", 7: "bel"}[c]; k != "" {
						return k
					}
				}
				return "c0"
			}
		}
		return "text"
	}
	if len(b) < 2 {
		return "part"
	}
	switch b[1] {
	case 'D':
		return "ind"
	case 'M':
		return "ri"
	case ']':
		return "osc"
	case 'P':
		return "dcs"
	case '=', '>':
		return "keypad"
	case '[':
	default:
		return "esc"
	}
	if len(b) < 3 {
		return "part"
	}
	pre, fin := b[2], b[len(b)-1]
	for _, c := range b[2 : len(b)-1] {
		if c < 48 || c >= 64 {
			return "csi"
		}
	}
	key := string(fin)
	if pre >= 60 && pre < 64 {
		key = string(pre) + key
	}
	if k := map[string]string{"A": "cuu", "B": "cud", "C": "cuf", "D": "cub", "G": "cha", "d": "vpa", "H": "cup", "f": "cup", "s": "sc", "u": "rc",
		"J": "ed", "K": "el", "X": "ech", "P": "dch", "L": "il", "M": "dl", "S": "su", "T": "sd", "r": "stbm", "m": "sgr", "?h": "mode", "?l": "mode",
		"=u": "kbset", ">u": "kbpush", "<u": "kbpop", "?u": "kbq", "c": "da1", ">c": "da2", "n": "dsr", ">m": "mok"}[key]; k != "" {
		return k
	}
	return "csi"
}
