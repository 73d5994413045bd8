package termemu

// A TTYFrontend attached to a region, its output interpreted by an outer
// terminal: a real one here, the specification's in Mirror.tla.

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"os"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"
)

type vfMirrorEvent struct {
	O   string  `json:"o"` // bytes resize attach detach focus blur
	B   vfBytes `json:"b"`
	Z   []int   `json:"z"`
	Out vfBytes `json:"out"`
	In  [][]any `json:"inner"`
	C   []int   `json:"c"`
}
type vfMirrorRec struct {
	W    int              `json:"w"`
	H    int              `json:"h"`
	Ow   int              `json:"ow"`
	Oh   int              `json:"oh"`
	Buf  string           `json:"buf"`
	Mode string           `json:"mode"`
	Pre  vfBytes          `json:"pre"`
	Ev   []*vfMirrorEvent `json:"ev"`
}

type vfSyncBuf struct {
	mu sync.Mutex
	b  bytes.Buffer
}

func (s *vfSyncBuf) Write(p []byte) (int, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.b.Write(p)
}
func (s *vfSyncBuf) take() []byte {
	s.mu.Lock()
	defer s.mu.Unlock()
	p := append([]byte(nil), s.b.Bytes()...)
	s.b.Reset()
	return p
}

// vfNewBare starts a terminal with any frontend, the loop in a goroutine of ours.
func vfNewBare(fe Frontend, buf string, graph bool) *vfHost {
	mode := TextReadModeRune
	if graph {
		mode = TextReadModeGrapheme
	}
	h := &vfHost{be: newVfBackend(), fe: newVfFrontend(graph), graph: graph, crash: make(chan string, 1), done: make(chan struct{})}
	t := newTerminal(fe, h.be, mode)
	h.t, h.term = t, t
	if buf == "grid" {
		t.mainScreen = newGridScreen(fe)
		t.altScreen = newGridScreen(fe)
		t.SetFrontend(fe)
	}
	go func() {
		defer close(h.done)
		defer func() {
			if p := recover(); p != nil {
				h.crash <- fmt.Sprintf("panic: %v\n%s", p, vfShortStack())
			}
		}()
		gr := NewGraphemeReaderWithMode(bufio.NewReader(h.be), mode)
		for {
			if err := t.ptyReadOne(gr); err != nil {
				return
			}
		}
	}()
	if why := h.waitIdle(); why != "" {
		h.dead, h.why = true, why
	}
	return h
}

// call runs f, which must return.
func (h *vfHost) call(what string, f func()) (why string) {
	ch := make(chan string, 1)
	go func() {
		defer func() {
			if p := recover(); p != nil {
				ch <- fmt.Sprintf("panic: %s: %v\n%s", what, p, vfShortStack())
			}
		}()
		f()
		ch <- ""
	}()
	select {
	case why = <-ch:
	case <-time.After(vfPatience):
		why = "hang: " + what + " did not return"
	}
	if why != "" {
		h.dead = true
	}
	return
}

func TestVFMirror(tt *testing.T) {
	out := os.Getenv("VF_OUT")
	if out == "" {
		tt.Skip("not configured")
	}
	r := &vfRunner{prop: os.Getenv("VF_PROP"), file: os.Getenv("VF_TRACES"), seg: "mirror",
		rep: &vfReport{Kinds: map[string]int{}, OtherKinds: map[string]int{}, Extra: map[string]int{}}}
	seed, _ := strconv.ParseInt(os.Getenv("VF_RSEED"), 10, 64)
	max, _ := strconv.Atoi(os.Getenv("VF_MAX"))
	budget, _ := strconv.Atoi(os.Getenv("VF_BUDGET"))
	var bw io.Writer
	if p := os.Getenv("VF_RECORD"); p != "" {
		rec, err := os.Create(p)
		if err != nil {
			tt.Fatal(err)
		}
		defer rec.Close()
		b := bufio.NewWriter(rec)
		defer b.Flush()
		bw = b
	}
	if m := os.Getenv("VF_MARK"); m != "" {
		f, err := os.OpenFile(m, os.O_CREATE|os.O_RDWR, 0o644)
		if err != nil {
			tt.Fatal(err)
		}
		defer f.Close()
		r.mark = f
	}
	br, done := vfOpenLines(tt, strings.Fields(r.file)[0])
	defer done()
	skip, _ := strconv.Atoi(os.Getenv("VF_SKIP"))
	for i := 0; max == 0 || i < max; i++ {
		line, err := br.ReadBytes('\n')
		if len(line) < 2 {
			break
		}
		if i < skip {
			continue
		}
		var tr vfTrace
		if e := json.Unmarshal(line, &tr); e != nil {
			tt.Fatal(e)
		}
		r.idx = i
		r.note(0, "mirror")
		r.rng = rand.New(rand.NewSource(seed*1000003 + int64(i)))
		r.mirror(&tr, budget, bw)
		if len(r.rep.Divergences) >= 3 || r.rep.Other > 50 || err != nil {
			break
		}
	}
	r.rep.Complete = true
	if err := r.rep.write(out); err != nil {
		tt.Fatal(err)
	}
}

func vfRect(rng *rand.Rand, w, h int) Region {
	if rng.Intn(4) == 0 {
		return Region{X: 0, Y: 0, X2: w, Y2: h}
	}
	x, y := rng.Intn(w), rng.Intn(h)
	x2, y2 := x+1+rng.Intn(w-x), y+1+rng.Intn(h-y)
	if rng.Intn(12) == 0 {
		x2 += 3
	}
	if rng.Intn(20) == 0 {
		y = y2
	}
	return Region{X: x, Y: y, X2: x2, Y2: y2}
}

func (r *vfRunner) mirror(tr *vfTrace, budget int, rec io.Writer) {
	r.rep.Traces++
	graph := tr.Mode != "rune"
	ow, oh := tr.W, tr.H
	for _, s := range tr.Steps {
		if s.K == "resize" {
			ow, oh = max(ow, s.Z[0]), max(oh, s.Z[1])
		}
	}
	ow, oh = ow+2, oh+1
	var buf vfSyncBuf
	fe := NewTTYFrontend(nil, &buf)
	ear := &vfEar{TTYFrontend: fe, shown: true}
	in := vfNewBare(ear, tr.Buf, graph)
	defer in.close()
	obuf := "span"
	if r.rng.Intn(4) == 0 {
		obuf = "grid"
	}
	outer := vfNewBare(&EmptyFrontend{}, obuf, graph)
	defer outer.close()
	if in.dead || outer.dead {
		r.mirrorFail(tr, 0, "panic", in.why+outer.why, nil)
		return
	}
	fe.SetTerminal(in.term)
	_ = outer.term.Resize(ow, oh)
	pre := []byte("\x1b[0m\x1b[?7l")
	for y := 1; y <= oh; y++ {
		pre = append(pre, fmt.Sprintf("\x1b[%d;1H%s", y, strings.Repeat("#", ow))...)
	}
	_ = outer.feedWhole(pre)
	if why := in.resize(tr.W, tr.H); why != "" {
		r.mirrorFail(tr, 0, "panic", why, nil)
		return
	}
	m := vfMirrorState{in: in, outer: outer, focused: true, ear: ear, w: ow, h: oh}
	if p := buf.take(); len(vfStripShow(p)) > 0 {
		r.mirrorFail(tr, 0, "mirror", fmt.Sprintf("%q was written before anything was attached", p), nil)
		return
	}
	re := &vfMirrorRec{W: tr.W, H: tr.H, Ow: ow, Oh: oh, Buf: tr.Buf, Mode: tr.Mode, Pre: pre}
	n := 0
	do := func(e *vfMirrorEvent) bool {
		r.rep.Kinds[e.O]++
		why := ""
		switch e.O {
		case "bytes":
			why = in.feed(e.B)
		case "resize":
			why = in.resize(e.Z[0], e.Z[1])
		case "attach":
			m.region, m.attached = Region{X: e.Z[0], Y: e.Z[1], X2: e.Z[2], Y2: e.Z[3]}, true
			m.seen = []Region{m.region} // of an outer screen free of anything else (a write that starts inside a
			_ = outer.feedWhole(pre)    // wide character left there would keep it)
			why = in.call("Attach", func() { fe.Attach(m.region) })
		case "detach":
			m.attached = false
			why = in.call("Detach", fe.Detach)
		case "focus":
			m.focused = true
			why = in.call("Focus", func() { fe.SetFocus(true) })
		case "blur":
			m.focused = false
			why = in.call("Blur", func() { fe.SetFocus(false) })
		}
		if why != "" {
			r.mirrorFail(tr, n, vfComp(why), why, re)
			return false
		}
		out := buf.take()
		e.Out = out
		if e.B == nil {
			e.B = vfBytes{}
		}
		if e.Z == nil {
			e.Z = []int{}
		}
		if rec != nil {
			in.t.Lock()
			w, h := in.t.Size()
			e.In, _ = vfSnapRows(in.t, w, h, graph)
			p := in.t.screen().CursorPos()
			e.C = []int{p.X + 1, p.Y + 1}
			in.t.Unlock()
		}
		re.Ev = append(re.Ev, e)
		budget -= len(out) + len(e.B)
		r.rep.Bytes += len(out)
		r.rep.Steps++
		if !m.attached && e.O != "attach" {
			if rest := vfStripShow(out); len(rest) > 0 {
				r.mirrorFail(tr, n, "mirror", fmt.Sprintf("%q was written while detached (%s)", out, e.O), re)
				return false
			}
		}
		if why := outer.feedWhole(out); why != "" {
			r.mirrorFail(tr, n, vfComp(why), "outer terminal: "+why, re)
			return false
		}
		r.rep.Compared++
		if d := m.compare(tr); d != "" {
			r.mirrorFail(tr, n, "mirror", d, re)
			return false
		}
		if r.rng.Intn(8) == 0 {
			if d := in.ansiAgain(); d != "" {
				r.mirrorFail(tr, n, "ansi", d, re)
				return false
			}
			r.rep.Extra["ansi_roundtrips"]++
		}
		return true
	}
	act := func(o string) bool { return do(&vfMirrorEvent{O: o}) }
	attach := func() bool {
		w, h := in.term.Size()
		g := vfRect(r.rng, w, h)
		return do(&vfMirrorEvent{O: "attach", Z: []int{g.X, g.Y, g.X2, g.Y2}})
	}
	if r.rng.Intn(2) == 0 && !attach() {
		return
	}
	for i := range tr.Steps {
		s := &tr.Steps[i]
		n = i
		if s.K == "key" || s.K == "mouse" {
			continue
		}
		e := &vfMirrorEvent{O: "bytes", B: s.B}
		if s.K == "resize" {
			e = &vfMirrorEvent{O: "resize", Z: s.Z}
		}
		if !do(e) {
			return
		}
		ok := true
		switch x := r.rng.Intn(40); {
		case x == 0 && m.attached:
			ok = act("detach")
		case x == 1:
			ok = act("blur")
		case x == 2 || x == 3 && !m.focused:
			ok = act("focus")
		case x == 4 || x < 16 && !m.attached:
			ok = attach()
		case x == 17:
			ok = do(&vfMirrorEvent{O: "bytes", B: []byte([]string{"\x1b[?25l", "\x1b[?25h"}[r.rng.Intn(2)])})
		}
		if !ok {
			return
		}
		if rec != nil && budget < 0 {
			break
		}
	}
	if rec != nil && len(re.Ev) > 0 {
		if p, err := json.Marshal(re); err == nil {
			_, _ = rec.Write(append(p, '\n'))
		}
	}
}

// feedWhole delivers p so that no read (of at most 4096 bytes) ends inside a
// grapheme cluster: reads end in front of an ESC.
func (h *vfHost) feedWhole(p []byte) string {
	for len(p) > 0 {
		n := len(p)
		if n > 4096 {
			if n = bytes.LastIndexByte(p[:4097], 0x1b); n <= 0 {
				n = len(p)
			}
		}
		if why := h.feed(p[:n]); why != "" {
			return why
		}
		p = p[n:]
	}
	return ""
}

func vfStripShow(p []byte) []byte { return bytes.ReplaceAll(p, []byte("\x1b[?25h"), nil) }

type vfMirrorState struct {
	in, outer *vfHost
	attached  bool
	focused   bool
	ear       *vfEar
	region    Region
	seen      []Region
	w, h      int
}

func vfLineCells(t *terminal, x, w, y int, graph bool) vfRow {
	row, _ := vfExpand(t.StyledLine(x, w, y), w, graph)
	return row
}

func (m *vfMirrorState) compare(tr *vfTrace) string {
	in, outer := m.in, m.outer
	if why := in.lock(); why != "" {
		return why
	}
	defer in.t.Unlock()
	outer.t.Lock()
	defer outer.t.Unlock()
	w, h := in.term.Size()
	if m.attached {
		g := m.region
		x2, y2 := min(g.X2, min(w, m.w)), min(g.Y2, min(h, m.h))
		for y := g.Y; y < y2 && g.X < x2; y++ {
			a, b := vfLineCells(in.t, g.X, x2-g.X, y, in.graph), vfLineCells(outer.t, g.X, x2-g.X, y, in.graph)
			if !vfRowsEq(a, b) {
				return fmt.Sprintf("region %v of %dx%d row %d: inner %s, outer %s", g, w, h, y, a, b)
			}
		}
		if m.focused {
			p, o := in.t.screen().CursorPos(), outer.t.screen().CursorPos()
			inside := p.X >= g.X && p.X < g.X2 && p.Y >= g.Y && p.Y < g.Y2
			vis := outer.t.GetViewFlag(VFShowCursor)
			shown := m.ear.shown
			switch {
			case p.X >= w && shown: // waiting to wrap: at the edge or not shown
				if vis && (o.Y != p.Y || o.X < w-1) {
					return fmt.Sprintf("inner cursor %v (waiting to wrap), outer cursor shown at %v", p, o)
				}
			case inside && shown && (!vis || o != p):
				return fmt.Sprintf("region %v: inner cursor %v, outer cursor %v, visible %v", g, p, o, vis)
			case !(inside && shown) && vis:
				return fmt.Sprintf("region %v: inner cursor %v, shown %v; the outer cursor is visible at %v", g, p, shown, o)
			}
		}
	}
	// nothing was drawn elsewhere
	for y := 0; y < m.h; y++ {
		row := vfLineCells(outer.t, 0, m.w, y, in.graph)
		for x := range row {
			ok := row[x].text == "#" && row[x].style == "0,0,0,0"
			for _, g := range m.seen {
				ok = ok || x >= g.X && x < g.X2 && y >= g.Y && y < g.Y2
			}
			if !ok {
				return fmt.Sprintf("cell %d,%d of the outer screen was changed; attached were %v: %s", x, y, m.seen, row)
			}
		}
	}
	return ""
}

// vfEar also notes whether the application has hidden the cursor.
type vfEar struct {
	*TTYFrontend
	shown bool
}

func (e *vfEar) ViewFlagChanged(v ViewFlag, on bool) {
	if v == VFShowCursor {
		e.shown = on
	}
	e.TTYFrontend.ViewFlagChanged(v, on)
}

func (r *vfRunner) mirrorFail(tr *vfTrace, step int, comp, detail string, re *vfMirrorRec) {
	owners := []string{"C11"}
	if comp == "panic" || comp == "hang" {
		owners = []string{"C01"}
		if strings.Contains(detail, "Attach") || strings.Contains(detail, "Detach") || strings.Contains(detail, "Focus") || strings.Contains(detail, "Blur") {
			owners = append(owners, "C15", "C11")
		}
	}
	for _, o := range owners {
		if o == r.prop || r.prop == "ALL" {
			ctx := fmt.Sprintf("%dx%d %s %s", tr.W, tr.H, tr.Buf, tr.Mode)
			if re != nil {
				for i := max(0, len(re.Ev)-6); i < len(re.Ev); i++ {
					e := re.Ev[i]
					ctx += fmt.Sprintf(" | %s %q %v -> %q", e.O, string(e.B), e.Z, string(e.Out))
				}
			}
			r.rep.Divergences = append(r.rep.Divergences, vfDivergence{Trace: r.idx, File: r.file, Step: step, Kind: "mirror", Comp: comp, Detail: detail, Owners: owners, Context: ctx})
			return
		}
	}
	r.rep.Other++
	r.rep.OtherKinds["mirror/"+comp]++
}

// ansiAgain feeds ANSILine of every row into a fresh terminal and compares
// the two, cell by cell and style value by style value.
func (h *vfHost) ansiAgain() string {
	if why := h.lock(); why != "" {
		return why
	}
	w, hh := h.term.Size()
	var in bytes.Buffer
	var want []Line
	for y := 0; y < hh; y++ {
		fmt.Fprintf(&in, "\x1b[%d;1H%s", y+1, h.term.ANSILine(y))
		want = append(want, h.term.StyledLine(0, w, y))
	}
	h.t.Unlock()
	o := vfNewBare(&EmptyFrontend{}, "span", h.graph)
	defer o.close()
	_ = o.term.Resize(w, hh)
	if why := o.feedWhole(in.Bytes()); why != "" {
		return "fresh terminal: " + why
	}
	o.t.Lock()
	defer o.t.Unlock()
	for y := 0; y < hh; y++ {
		got := o.term.StyledLine(0, w, y)
		a, _ := vfExpand(want[y], w, h.graph)
		b, _ := vfExpand(got, w, h.graph)
		if !vfRowsEq(a, b) {
			return fmt.Sprintf("row %d: %s is rendered as %q and reads back as %s", y, a, vfAnsiOf(h, y), b)
		}
		if d := vfRawStyles(want[y], got, w); d != "" {
			return fmt.Sprintf("row %d, rendered as %q: %s", y, vfAnsiOf(h, y), d)
		}
	}
	return ""
}

func vfAnsiOf(h *vfHost, y int) string {
	h.t.Lock()
	defer h.t.Unlock()
	return h.term.ANSILine(y)
}

// vfRawStyles compares the style values of two rows.
func vfRawStyles(a, b Line, w int) string {
	at := func(l Line) (out []Style) {
		for _, s := range l.Spans {
			for i := 0; i < s.Width; i++ {
				out = append(out, s.Style)
			}
		}
		return
	}
	x, y := at(a), at(b)
	for i := range x {
		if i < len(y) && x[i] != y[i] {
			return fmt.Sprintf("column %d has style %+v, reads back as %+v", i, x[i], y[i])
		}
	}
	return ""
}
