package termemu

// Lockstep: a span-backed and a grid-backed terminal driven with the same
// behaviour, compared with each other after every step.  The behaviours are
// those of Gen.tla with NOMID=1: no write in them starts on the second half of
// a wide character, the only place where the two may differ.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"sort"
	"strconv"
	"strings"
	"testing"
)

// vfAnnounced: per reason, the cells announced in this step
func vfAnnounced(f *vfFrontend) string {
	by := map[ChangeReason]map[[2]int]bool{}
	for i, r := range f.regions {
		m := by[f.reasons[i]]
		if m == nil {
			m = map[[2]int]bool{}
			by[f.reasons[i]] = m
		}
		for y := r.Y; y < r.Y2; y++ {
			for x := r.X; x < r.X2; x++ {
				m[[2]int{y, x}] = true
			}
		}
	}
	var out []string
	for c, m := range by {
		if len(m) == 0 {
			continue
		}
		var cells []string
		for k := range m {
			cells = append(cells, fmt.Sprintf("%03d,%03d", k[0], k[1]))
		}
		sort.Strings(cells)
		out = append(out, fmt.Sprintf("reason %d: %s", c, strings.Join(cells, " ")))
	}
	sort.Strings(out)
	return strings.Join(out, "; ")
}

func vfDiffAt(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	lo := i - 80
	if lo < 0 {
		lo = 0
	}
	cl := func(s string) string {
		s = s[lo:]
		if len(s) > 240 {
			s = s[:240]
		}
		return s
	}
	return fmt.Sprintf("span ...%q, grid ...%q", cl(a), cl(b))
}

func (h *vfHost) observe() string {
	s := h.snapshot()
	var sb strings.Builder
	if h.lock() == "" {
		_, hh := h.term.Size()
		for y := 0; y < hh; y++ {
			fmt.Fprintf(&sb, "\nline %q", h.term.Line(y))
		}
		fmt.Fprintf(&sb, "\nout %q bells %d events %v scrolled %v announced %s problem %s", h.be.takeOut(), h.fe.bell, h.fe.ev, h.fe.sback, vfAnnounced(h.fe), h.fe.problem)
		h.t.Unlock()
	}
	return s + sb.String()
}

func TestVFTwin(tt *testing.T) {
	out := os.Getenv("VF_OUT")
	if out == "" {
		tt.Skip("not configured")
	}
	r := &vfRunner{prop: os.Getenv("VF_PROP"), seg: os.Getenv("VF_SEG"), file: os.Getenv("VF_TRACES"),
		rep: &vfReport{Kinds: map[string]int{}, OtherKinds: map[string]int{}, Extra: map[string]int{}}}
	seed, _ := strconv.ParseInt(os.Getenv("VF_SEED"), 10, 64)
	r.rng = rand.New(rand.NewSource(seed))
	br, done := vfOpenLines(tt, r.file)
	defer done()
	for i := 0; ; i++ {
		line, err := br.ReadBytes('\n')
		if len(bytes.TrimSpace(line)) == 0 {
			break
		}
		var tr vfTrace
		if e := json.Unmarshal(line, &tr); e != nil {
			tt.Fatalf("%s:%d: %v", r.file, i+1, e)
		}
		r.idx = i
		r.twin(&tr)
		if len(r.rep.Divergences) >= 5 || r.rep.Other > 200 || err != nil {
			break
		}
	}
	r.rep.Complete = true
	if err := r.rep.write(out); err != nil {
		tt.Fatal(err)
	}
}

// sanctioned: whether the input up to a step contains a write that starts on a
// later half of a wide character.
func (r *vfRunner) sanctioned(tr *vfTrace, upto int) bool {
	graph := tr.Mode != "rune"
	h := vfNewHost(tr.W, tr.H, "span", graph, false)
	defer h.close()
	const ground, esc, inter, csi, osc, dcs = 0, 1, 2, 3, 4, 5
	st := ground
	prev := byte(0)
	for i := 0; i <= upto && i < len(tr.Steps); i++ {
		s := &tr.Steps[i]
		if vfIsCall(s.K) {
			if s.K == "resize" {
				if h.resize(s.Z[0], s.Z[1]) != "" {
					return false
				}
			}
			continue
		}
		pos := append(vfLegalPos(s.B, graph), len(s.B))
		for j := 0; j+1 < len(pos); j++ {
			for _, b := range s.B[pos[j]:pos[j+1]] {
				write := false
				switch st {
				case ground:
					if b == 27 {
						st = esc
					} else if b >= 32 && b != 127 {
						write = true
					}
				case esc:
					switch {
					case b == '[':
						st = csi
					case b == ']':
						st = osc
					case b == 'P':
						st = dcs
					case b >= 32 && b < 48:
						st = inter
					default:
						st = ground
					}
				case inter:
					if b < 32 || b >= 48 {
						st = ground
					}
				case csi:
					if b < 32 || b >= 64 {
						st = ground
					}
				case osc, dcs:
					if b == 7 && st == osc || b == 0x9c || b == '\\' && prev == 27 {
						st = ground
					}
				}
				prev = b
				if write {
					if h.lock() != "" {
						return false
					}
					p := h.t.screen().CursorPos()
					w, hh := h.term.Size()
					mid := false
					if p.X >= 0 && p.X < w && p.Y >= 0 && p.Y < hh {
						row, _ := vfExpand(h.term.StyledLine(0, w, p.Y), w, graph)
						mid = p.X < len(row) && row[p.X].text == ""
					}
					h.t.Unlock()
					if mid {
						return true
					}
				}
			}
			if h.feed(s.B[pos[j]:pos[j+1]]) != "" {
				return false
			}
		}
	}
	return false
}

func (r *vfRunner) twin(tr *vfTrace) {
	r.rep.Traces++
	graph := tr.Mode != "rune"
	hs := [2]*vfHost{vfNewHost(tr.W, tr.H, "span", graph, false), vfNewHost(tr.W, tr.H, "grid", graph, false)}
	defer hs[0].close()
	defer hs[1].close()
	rng := r.rng.Int63()
	bad := func(i int, kind, comp, d string) {
		if r.sanctioned(tr, i) {
			r.rep.Extra["ended_at_a_write_inside_a_character"]++
			return
		}
		n := i
		if n >= len(tr.Steps) {
			n = len(tr.Steps) - 1
		}
		var ctx strings.Builder
		fmt.Fprintf(&ctx, "%dx%d %s", tr.W, tr.H, tr.Mode)
		for k := max(0, n-4); k <= n; k++ {
			s := tr.Steps[k]
			if vfIsCall(s.K) {
				fmt.Fprintf(&ctx, " | %s%v", s.K, s.Z)
			} else {
				fmt.Fprintf(&ctx, " | %s %q", s.K, string(s.B))
			}
		}
		r.rep.Divergences = append(r.rep.Divergences, vfDivergence{Trace: r.idx, File: r.file, Step: i, Kind: kind, Comp: comp, Detail: d,
			Owners: []string{"C20"}, Context: ctx.String()})
	}
	step := func(i int, s *vfStep) bool {
		var whys, snaps [2]string
		for k, h := range hs {
			r.rng.Seed(rng + int64(i))
			whys[k] = r.deliver(h, s, r.seg, graph)
			if whys[k] == "" {
				snaps[k] = h.observe()
			}
		}
		if (whys[0] == "") != (whys[1] == "") {
			bad(i, s.K, "twin-"+vfComp(whys[0]+whys[1]), fmt.Sprintf("span %q, grid %q", whys[0], whys[1]))
			return false
		}
		if whys[0] != "" {
			r.rep.Other++
			r.rep.OtherKinds[s.K+"/"+vfComp(whys[0])]++
			return false
		}
		r.rep.Compared++
		if snaps[0] != snaps[1] {
			bad(i, s.K, "twin", vfDiffAt(snaps[0], snaps[1]))
			return false
		}
		return true
	}
	for i := range tr.Steps {
		s := &tr.Steps[i]
		r.rep.Steps++
		r.rep.Kinds[s.K]++
		r.rep.Bytes += len(s.B)
		w, hh := hs[0].term.Size()
		r.rep.Cells += w * hh
		if !step(i, s) {
			return
		}
	}
	if tr.Trail != nil && tr.Trail.Ok == 1 {
		// what the other buffer and the saved cursors hold
		n := len(tr.Steps)
		for i, b := range []string{"\x1b[u", "\x1b[?1049h", "\x1b[u", "\x1b[?1049l", "\x1b[u"} {
			if !step(n+i, &vfStep{K: "alt", B: vfBytes(b)}) {
				return
			}
		}
	}
}
