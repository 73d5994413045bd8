package termemu

// Replay harness: drives the real terminal with behaviours generated by the
// TLA+ specification and compares everything observable after every step.
// Only public API and identifiers that the repository's own tests use.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"reflect"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
	"unicode/utf8"
	"unsafe"

	"github.com/rivo/uniseg"
)

// ---------------------------------------------------------------- traces

type vfStep struct {
	K    string              `json:"k"`
	B    vfBytes             `json:"b"`
	Z    []int               `json:"z"`
	R    []vfRowD            `json:"r"`
	C    []int               `json:"c"`
	St   []int               `json:"st"`
	Vf   []int               `json:"vf"`
	Vi   []int               `json:"vi"`
	Kb   []int               `json:"kb"`
	O    vfBytes             `json:"o"`
	Bell int                 `json:"bell"`
	Ev   [][]json.RawMessage `json:"ev"`
	Sb   []vfRow             `json:"sb"`
}

type vfTrail struct {
	Main []vfRow   `json:"main"`
	Alt  []vfRow   `json:"alt"`
	Mc   []int     `json:"mc"`
	Ac   []int     `json:"ac"`
	Kb   []int     `json:"kb"`
	Act  int       `json:"act"`
	Vs   []vfBytes `json:"vs"`
	Ok   int       `json:"ok"` // 0: the input ends inside a control sequence or character
}

type vfTrace struct {
	W       int      `json:"w"`
	H       int      `json:"h"`
	Buf     string   `json:"buf"`
	Mode    string   `json:"mode"`
	Profile string   `json:"profile"`
	Steps   []vfStep `json:"steps"`
	Legal   int      `json:"legal"`
	Trail   *vfTrail `json:"trail"`
}

type vfBytes []byte

func (b *vfBytes) UnmarshalJSON(p []byte) error {
	var v []int
	if err := json.Unmarshal(p, &v); err != nil {
		return err
	}
	out := make([]byte, len(v))
	for i, x := range v {
		out[i] = byte(x)
	}
	*b = out
	return nil
}
func (b vfBytes) MarshalJSON() ([]byte, error) {
	v := make([]int, len(b))
	for i, x := range b {
		v[i] = int(x)
	}
	return json.Marshal(v)
}

// vfCell is one screen cell.  text is "" for the second and later cells of a
// wide character.
type vfCell struct {
	text  string
	style string
}
type vfRow []vfCell

func vfStyleName(v []int) string {
	var sb strings.Builder
	for i, x := range v {
		if i > 0 {
			sb.WriteByte(',')
		}
		fmt.Fprintf(&sb, "%d", x)
	}
	return sb.String()
}

// a row is a list of runs [[style...],[cp...],[cp...]...]
func (r *vfRow) UnmarshalJSON(p []byte) error {
	var runs [][][]int
	if err := json.Unmarshal(p, &runs); err != nil {
		return err
	}
	var out vfRow
	for _, run := range runs {
		st := vfStyleName(run[0])
		for _, cps := range run[1:] {
			rs := make([]rune, len(cps))
			for i, c := range cps {
				rs[i] = rune(c)
			}
			out = append(out, vfCell{string(rs), st})
		}
	}
	*r = out
	return nil
}

type vfRowD struct {
	Y   int
	Row vfRow
}

func (r *vfRowD) UnmarshalJSON(p []byte) error {
	var parts []json.RawMessage
	if err := json.Unmarshal(p, &parts); err != nil {
		return err
	}
	if err := json.Unmarshal(parts[0], &r.Y); err != nil {
		return err
	}
	return json.Unmarshal(parts[1], &r.Row)
}

// ---------------------------------------------------------------- styles

var vfModeBySGR = map[int]Mode{1: ModeBold, 2: ModeDim, 3: ModeItalic, 4: ModeUnderline, 5: ModeBlink,
	6: ModeRapidBlink, 7: ModeReverse, 8: ModeInvisible, 9: ModeStrike, 21: ModeDoubleUnderline,
	51: ModeFramed, 52: ModeEncircled, 53: ModeOverline}

var vfStyleCache = map[Style]string{}
var vfStyleMu sync.Mutex

// vfStyle names a Style by decoding the SGR sequence that reproduces it and
// cross-checks the decoded value with the accessors.
func vfStyle(s Style) string {
	vfStyleMu.Lock()
	defer vfStyleMu.Unlock()
	if n, ok := vfStyleCache[s]; ok {
		return n
	}
	fg, bg := [2]int{0, 0}, [2]int{0, 0}
	modes := map[int]bool{}
	bad := ""
	for _, p := range strings.Split(string(s.ANSIEscape()), "\x1b[") {
		if p == "" {
			continue
		}
		if !strings.HasSuffix(p, "m") {
			bad += "!esc"
			continue
		}
		var ps []int
		for _, f := range strings.Split(strings.TrimSuffix(p, "m"), ";") {
			v := 0
			for _, c := range f {
				if c < '0' || c > '9' {
					bad += "!num"
				}
				v = v*10 + int(c-'0')
			}
			ps = append(ps, v)
		}
		for i := 0; i < len(ps); i++ {
			c := ps[i]
			switch {
			case c == 0:
				fg, bg, modes = [2]int{}, [2]int{}, map[int]bool{}
			case vfModeBySGR[c] != 0:
				modes[c] = true
			case c >= 30 && c <= 37:
				fg = [2]int{1, c - 30}
			case c >= 40 && c <= 47:
				bg = [2]int{1, c - 40}
			case c >= 90 && c <= 97:
				fg = [2]int{2, c - 90}
			case c >= 100 && c <= 107:
				bg = [2]int{2, c - 100}
			case (c == 38 || c == 48) && i+2 < len(ps) && ps[i+1] == 5:
				if c == 38 {
					fg = [2]int{1, ps[i+2]}
				} else {
					bg = [2]int{1, ps[i+2]}
				}
				i += 2
			case (c == 38 || c == 48) && i+4 < len(ps) && ps[i+1] == 2:
				v := [2]int{3, ps[i+2]<<16 | ps[i+3]<<8 | ps[i+4]}
				if c == 38 {
					fg = v
				} else {
					bg = v
				}
				i += 4
			default:
				bad += "!sgr"
			}
		}
	}
	var ms []int
	for c, m := range vfModeBySGR {
		if modes[c] != s.TestMode(m) {
			bad += fmt.Sprintf("!mode%d", c)
		}
		if modes[c] {
			ms = append(ms, c)
		}
	}
	if len(s.Modes()) != len(ms) {
		bad += "!modes"
	}
	for i, c := range [][2]int{fg, bg} {
		v, rgb, err := s.GetColor(ColorComponent(i))
		if err != nil || rgb != (c[0] == 3) || (c[0] != 0 && v != c[1]) {
			bad += fmt.Sprintf("!col%d", i)
		}
	}
	sort.Ints(ms)
	n := vfStyleName(append([]int{fg[0], fg[1], bg[0], bg[1]}, ms...)) + bad
	vfStyleCache[s] = n
	return n
}

// ---------------------------------------------------------------- cells

var vfWidthCache [utf8.MaxRune + 1]atomic.Uint32

func vfRuneWidth(r rune) int {
	if r < 127 {
		return 1
	}
	if w := vfWidthCache[r].Load(); w != 0 {
		return int(w)
	}
	w := uniseg.StringWidth(string(r))
	if w < 1 {
		w = 1
	}
	vfWidthCache[r].Store(uint32(w))
	return w
}

func vfClusters(text string, graph bool) (out []string, widths []int) {
	if !graph {
		for _, r := range text {
			out = append(out, string(r))
			widths = append(widths, vfRuneWidth(r))
		}
		return
	}
	g := uniseg.NewGraphemes(text)
	for g.Next() {
		w := g.Width()
		if w < 1 {
			w = 1
		}
		out = append(out, g.Str())
		widths = append(widths, w)
	}
	return
}

// vfExpand turns a Line into cells; problems with the shape of its spans are
// reported in bad.
func vfExpand(l Line, w int, graph bool) (row vfRow, bad string) {
	row = make(vfRow, 0, w)
	sum := 0
	for i, sp := range l.Spans {
		if sp.Width <= 0 {
			bad = fmt.Sprintf("span %d has width %d", i, sp.Width)
			continue
		}
		sum += sp.Width
		st := vfStyle(sp.Style)
		if sp.Text == "" {
			if rw := vfRuneWidth(sp.Rune); rw != 1 {
				bad = fmt.Sprintf("span %d repeats %q of width %d", i, sp.Rune, rw)
			}
			for k := 0; k < sp.Width; k++ {
				row = append(row, vfCell{string(sp.Rune), st})
			}
			continue
		}
		if !utf8.ValidString(sp.Text) {
			// an invalid byte stands for U+FFFD
			sp.Text = string([]rune(sp.Text))
		}
		n := 0
		cl, ws := vfClusters(sp.Text, graph)
		for k := range cl {
			row = append(row, vfCell{cl[k], st})
			for j := 1; j < ws[k]; j++ {
				row = append(row, vfCell{"", st})
			}
			n += ws[k]
		}
		if n != sp.Width {
			bad = fmt.Sprintf("span %d %q has width %d, its text %d cells", i, sp.Text, sp.Width, n)
		}
	}
	if sum != w {
		bad = fmt.Sprintf("row width %d, screen width %d", sum, w)
	}
	if l.Width != w {
		bad = fmt.Sprintf("Line.Width %d, screen width %d", l.Width, w)
	}
	return row, bad
}

func (r vfRow) String() string {
	var sb strings.Builder
	prev := "-"
	for _, c := range r {
		if c.style != prev {
			fmt.Fprintf(&sb, "{%s}", c.style)
			prev = c.style
		}
		if c.text == "" {
			sb.WriteString("~")
		} else {
			sb.WriteString(c.text)
		}
	}
	return sb.String()
}

func vfRowsEq(a, b vfRow) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// text equal, styles not
func vfStyleOnly(a, b vfRow) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].text != b[i].text {
			return false
		}
	}
	return true
}

func vfStripSGR(s string) string {
	var sb strings.Builder
	for i := 0; i < len(s); i++ {
		if s[i] == 27 && i+1 < len(s) && s[i+1] == '[' {
			j := i + 2
			for j < len(s) && (s[j] == ';' || (s[j] >= '0' && s[j] <= '9')) {
				j++
			}
			if j < len(s) && s[j] == 'm' {
				i = j
				continue
			}
		}
		sb.WriteByte(s[i])
	}
	return sb.String()
}

// ---------------------------------------------------------------- backend

// vfBackend hands out chunks; a Read with nothing left announces that
// everything before it has been consumed and waits for the next chunk.
type vfBackend struct {
	idle    chan struct{}
	next    chan []byte
	quit    chan struct{}
	rest    []byte
	maxRead int
	zero    int // inject (0,nil) reads

	mu      sync.Mutex
	out     bytes.Buffer
	sizes   [][2]int
	onIdle  func()
	blocked atomic.Bool
	fault   func(n int) (int, error) // how much of a write of n bytes is accepted
	stingy  int                      // most bytes a write accepts, if not 0
	writes  int                      // calls of Write since takeOut
	graph   bool                     // never cut a cluster
}

func newVfBackend() *vfBackend {
	return &vfBackend{idle: make(chan struct{}), next: make(chan []byte), quit: make(chan struct{})}
}

func (b *vfBackend) Read(p []byte) (int, error) {
	if len(b.rest) == 0 {
		if b.onIdle != nil {
			b.onIdle()
		}
		select {
		case b.idle <- struct{}{}:
		case <-b.quit:
			return 0, io.EOF
		}
		select {
		case b.rest = <-b.next:
		case <-b.quit:
			return 0, io.EOF
		}
	}
	n := len(b.rest)
	if b.maxRead > 0 && n > b.maxRead {
		n = b.maxRead
	}
	if b.graph && n > len(p) {
		n = vfLastCut(b.rest, len(p))
	}
	n = copy(p, b.rest[:n])
	b.rest = b.rest[n:]
	return n, nil
}

// vfLastCut is the last position up to lim at which text may be cut without
// cutting a cluster (lim if there is none).
func vfLastCut(b []byte, lim int) int {
	best := 0
	for i := 0; i < len(b) && i <= lim; {
		best = i
		if b[i] < 32 || b[i] == 127 {
			i++
			continue
		}
		j := i
		for j < len(b) && b[j] >= 32 && b[j] != 127 {
			j++
		}
		cl, _ := vfClusters(string(b[i:j]), true)
		for _, c := range cl {
			if i <= lim {
				best = i
			}
			i += len(c)
		}
		i = j
	}
	if best == 0 {
		return lim
	}
	return best
}

func (b *vfBackend) Write(p []byte) (int, error) {
	b.mu.Lock()
	defer b.mu.Unlock()
	if b.fault != nil {
		n, err := b.fault(len(p))
		b.out.Write(p[:n])
		return n, err
	}
	b.writes++
	if b.stingy > 0 && len(p) > b.stingy {
		p = p[:b.stingy]
	}
	return b.out.Write(p)
}
func (b *vfBackend) setFault(f func(n int) (int, error)) {
	b.mu.Lock()
	b.fault = f
	b.mu.Unlock()
}
func (b *vfBackend) SetSize(w, h int) error {
	b.mu.Lock()
	b.sizes = append(b.sizes, [2]int{w, h})
	b.mu.Unlock()
	return nil
}

// takeSizes returns the sizes reported since the last call.
func (b *vfBackend) takeSizes() [][2]int {
	b.mu.Lock()
	defer b.mu.Unlock()
	z := b.sizes
	b.sizes = nil
	return z
}
func (b *vfBackend) takeOut() []byte {
	b.mu.Lock()
	defer b.mu.Unlock()
	o := append([]byte(nil), b.out.Bytes()...)
	b.out.Reset()
	b.writes = 0
	return o
}

// torn reports that the replies o were written in more pieces than there are
// replies although every write was accepted whole: another goroutine's bytes
// can get between the pieces, and the application then reads no correct reply.
func (b *vfBackend) torn(o []byte) bool {
	b.mu.Lock()
	defer b.mu.Unlock()
	return b.fault == nil && b.stingy == 0 && b.writes > bytes.Count(o, []byte("\033"))
}

// ---------------------------------------------------------------- frontend

// vfFrontend keeps its own copy of the screen by reading back what is announced.
type vfFrontend struct {
	t     *terminal
	graph bool

	shadow  []vfRow
	w, h    int
	cx, cy  int
	moved   bool
	style   string
	styled  bool
	bell    int
	flags   map[ViewFlag]bool
	ints    map[ViewInt]int
	strs    map[ViewString]string
	ev      []string
	sback   []vfRow
	odd     bool
	regions []Region
	reasons []ChangeReason
	problem string // contract violations noticed inside callbacks
	unlockd string // callback made without the lock
}

func newVfFrontend(graph bool) *vfFrontend {
	return &vfFrontend{graph: graph, flags: map[ViewFlag]bool{}, ints: map[ViewInt]int{}, strs: map[ViewString]string{}}
}

func (f *vfFrontend) locked(what string) bool {
	if f.t == nil {
		return false
	}
	if f.t.TryLock() {
		f.t.Unlock()
		if f.unlockd == "" {
			f.unlockd = what
		}
	}
	return true
}

func (f *vfFrontend) row(y int) vfRow {
	w, h := f.t.Size()
	if y < 0 || y >= h {
		return nil
	}
	r, _ := vfExpand(f.t.StyledLine(0, w, y), w, f.graph)
	return r
}

func (f *vfFrontend) refresh() {
	w, h := f.t.Size()
	f.w, f.h = w, h
	f.shadow = make([]vfRow, h)
	for y := range f.shadow {
		f.shadow[y] = f.row(y)
	}
}

func (f *vfFrontend) Bell() { f.locked("Bell"); f.bell++ }
func (f *vfFrontend) RegionChanged(r Region, c ChangeReason) {
	if !f.locked("RegionChanged") {
		return
	}
	f.regions = append(f.regions, r)
	f.reasons = append(f.reasons, c)
	w, h := f.t.Size()
	if r.X < 0 || r.Y < 0 || r.X2 > w || r.Y2 > h {
		f.problem = fmt.Sprintf("region %v outside %dx%d", r, w, h)
	}
	if w != f.w || h != f.h {
		f.reshape(w, h) // size changed under us (Resize)
	}
	x, x2, y2 := max(r.X, 0), min(r.X2, w), min(r.Y2, h)
	if x >= x2 {
		return
	}
	for y := max(r.Y, 0); y < y2; y++ {
		// just the cells announced are read back, in one of two ways
		var l Line
		if f.odd = !f.odd; f.odd {
			l = f.t.StyledLine(x, x2-x, y)
		} else if ls := f.t.StyledLines(Region{X: x, Y: y, X2: x2, Y2: y + 1}); len(ls) == 1 {
			l = ls[0]
		}
		src, bad := vfExpand(l, x2-x, f.graph)
		if bad != "" && f.problem == "" {
			f.problem = fmt.Sprintf("reading columns %d..%d of row %d back: %s", x, x2, y, bad)
		}
		copy(f.shadow[y][x:x2], src)
	}
}

// reshape makes room for the new size; what was not there before is unknown.
func (f *vfFrontend) reshape(w, h int) {
	old := f.shadow
	f.w, f.h = w, h
	f.shadow = make([]vfRow, h)
	for y := range f.shadow {
		f.shadow[y] = make(vfRow, w)
		for x := range f.shadow[y] {
			if y < len(old) && x < len(old[y]) {
				f.shadow[y][x] = old[y][x]
			} else {
				f.shadow[y][x] = vfCell{"unknown", ""}
			}
		}
	}
}
func (f *vfFrontend) CursorMoved(x, y int) {
	if !f.locked("CursorMoved") {
		return
	}
	f.cx, f.cy, f.moved = x, y, true
}
func (f *vfFrontend) ScrollLines(n int) {
	if !f.locked("ScrollLines") {
		return
	}
	_, h := f.t.Size()
	if n < 0 || n > h {
		f.problem = fmt.Sprintf("ScrollLines(%d) on %d rows", n, h)
	}
	for y := 0; y < n && y < h; y++ {
		f.sback = append(f.sback, f.row(y))
	}
}
func (f *vfFrontend) StyleChanged(s Style) {
	if !f.locked("StyleChanged") {
		return
	}
	f.style, f.styled = vfStyle(s), true
}
func (f *vfFrontend) ViewFlagChanged(v ViewFlag, b bool) {
	if !f.locked("ViewFlagChanged") {
		return
	}
	n := 0
	if b {
		n = 1
	}
	f.flags[v] = b
	f.ev = append(f.ev, fmt.Sprintf("f,%d,%d", int(v)+1, n))
}
func (f *vfFrontend) ViewIntChanged(v ViewInt, n int) {
	if !f.locked("ViewIntChanged") {
		return
	}
	f.ints[v] = n
	f.ev = append(f.ev, fmt.Sprintf("i,%d,%d", int(v)+1, n))
}
func (f *vfFrontend) ViewStringChanged(v ViewString, s string) {
	if !f.locked("ViewStringChanged") {
		return
	}
	f.strs[v] = s
	f.ev = append(f.ev, fmt.Sprintf("s,%d,%x", int(v)+1, s))
}

func (f *vfFrontend) beginStep() {
	f.bell, f.ev, f.sback, f.problem = 0, nil, nil, ""
	f.regions, f.reasons = f.regions[:0], f.reasons[:0]
}

// ---------------------------------------------------------------- host

type vfHost struct {
	t     *terminal
	term  Terminal
	be    *vfBackend
	fe    *vfFrontend
	graph bool
	crash chan string
	done  chan struct{}
	dead  bool
	why   string
}

const vfPatience = 10 * time.Second

// vfNewHost starts a terminal.  public: through NewWithMode and its own read
// loop (span buffer); otherwise the loop runs in a goroutine of ours, where a
// panic is recovered.
func vfNewHost(w, h int, buf string, graph, public bool) *vfHost {
	mode := TextReadModeRune
	if graph {
		mode = TextReadModeGrapheme
	}
	hst := &vfHost{be: newVfBackend(), fe: newVfFrontend(graph), graph: graph,
		crash: make(chan string, 1), done: make(chan struct{})}
	hst.be.graph = graph
	if public && buf == "span" {
		hst.term = NewWithMode(hst.fe, hst.be, mode)
		hst.t = hst.term.(*terminal)
		close(hst.done)
	} else {
		t := newTerminal(hst.fe, hst.be, mode)
		hst.t, hst.term = t, t
		if buf == "grid" {
			t.mainScreen = newGridScreen(hst.fe)
			t.altScreen = newGridScreen(hst.fe)
			t.SetFrontend(hst.fe)
		}
		go func() {
			defer close(hst.done)
			defer func() {
				if p := recover(); p != nil {
					hst.crash <- fmt.Sprintf("panic: %v\n%s", p, vfShortStack())
				}
			}()
			gr := NewGraphemeReaderWithMode(hst.be, mode)
			for {
				if err := t.ptyReadOne(gr); err != nil {
					return
				}
			}
		}()
	}
	if why := hst.waitIdle(); why != "" {
		hst.dead, hst.why = true, why
		return hst
	}
	_ = hst.term.Resize(w, h)
	hst.be.takeSizes()
	hst.t.Lock()
	hst.fe.t = hst.t
	hst.fe.refresh()
	hst.t.Unlock()
	return hst
}

func vfShortStack() string {
	var keep []string
	for _, l := range strings.Split(string(debug.Stack()), "\n") {
		if strings.Contains(l, "/repo/") && !strings.Contains(l, "vf_") {
			keep = append(keep, strings.TrimSpace(l))
		}
	}
	if len(keep) > 6 {
		keep = keep[:6]
	}
	return strings.Join(keep, "\n")
}

func (h *vfHost) waitIdle() string {
	select {
	case <-h.be.idle:
		return ""
	case c := <-h.crash:
		h.dead = true
		return c
	default:
	}
	tm := time.NewTimer(vfPatience)
	defer tm.Stop()
	select {
	case <-h.be.idle:
		return ""
	case c := <-h.crash:
		h.dead = true
		return c
	case <-tm.C:
		h.dead = true
		return "hang: input not consumed within " + vfPatience.String()
	}
}

// feed delivers one chunk and waits until it is consumed.
func (h *vfHost) feed(p []byte) string {
	if h.dead {
		return "dead"
	}
	if len(p) == 0 {
		return ""
	}
	tm := time.NewTimer(vfPatience)
	defer tm.Stop()
	select {
	case h.be.next <- p:
	case c := <-h.crash:
		h.dead = true
		return c
	case <-tm.C:
		h.dead = true
		return "hang: backend not read"
	}
	return h.waitIdle()
}

func (h *vfHost) close() { close(h.be.quit) }

// lock takes the terminal lock; "" if it got it
func (h *vfHost) lock() string {
	for i := 0; i < 1000; i++ {
		if h.t.TryLock() {
			return ""
		}
		if i < 900 {
			runtime.Gosched()
		} else {
			time.Sleep(vfPatience / 100)
		}
	}
	h.dead = true
	return "hang: terminal lock held while waiting for input"
}

func (h *vfHost) resize(w, hh int) (why string) {
	ch := make(chan string, 1)
	go func() {
		defer func() {
			if p := recover(); p != nil {
				ch <- fmt.Sprintf("panic: %v\n%s", p, vfShortStack())
			}
		}()
		if err := h.term.Resize(w, hh); err != nil {
			ch <- "Resize: " + err.Error()
			return
		}
		ch <- ""
	}()
	select {
	case why = <-ch:
	case <-time.After(vfPatience):
		why = "hang: Resize did not return"
	}
	if why != "" {
		h.dead = true
	}
	return why
}

// ---------------------------------------------------------------- report

type vfDivergence struct {
	Trace   int      `json:"trace"`
	File    string   `json:"file"`
	Step    int      `json:"step"`
	Kind    string   `json:"kind"`
	Comp    string   `json:"comp"`
	Detail  string   `json:"detail"`
	Owners  []string `json:"owners"`
	Context string   `json:"context"`
}

type vfReport struct {
	Traces      int            `json:"traces"`
	Steps       int            `json:"steps"`
	Bytes       int            `json:"bytes"`
	Compared    int            `json:"compared"` // steps after which everything observable was compared
	Cells       int            `json:"cells"`
	Kinds       map[string]int `json:"kinds"`
	Divergences []vfDivergence `json:"divergences"`
	Other       int            `json:"other"` // divergences not owned by the property
	OtherKinds  map[string]int `json:"other_kinds"`
	Samples     []string       `json:"samples"`
	Extra       map[string]int `json:"extra"`
	Complete    bool           `json:"complete"`
}

func (r *vfReport) write(path string) error {
	p, err := json.MarshalIndent(r, "", " ")
	if err != nil {
		return err
	}
	return os.WriteFile(path, append(p, '\n'), 0o644)
}

// vfOnAlt: which buffer is the active one, whatever the field is called.
func vfOnAlt(t *terminal) bool { return t.screen() == t.altScreen }

// vfKbFlags: the keyboard flags of the main or the alternate screen; the latter
// are the terminal's other field of that type.
func vfKbFlags(t *terminal, alt bool) int {
	if !alt {
		return int(t.keyboardMain.flags)
	}
	return int(vfOther(t, &t.keyboardMain).flags)
}

func vfOther[T any](t *terminal, main *T) *T {
	v := reflect.ValueOf(t).Elem()
	for i := 0; i < v.NumField(); i++ {
		if f := v.Field(i); f.Type() == reflect.TypeOf(*main) && f.Addr().Pointer() != uintptr(unsafe.Pointer(main)) {
			return (*T)(f.Addr().UnsafePointer())
		}
	}
	return main
}
