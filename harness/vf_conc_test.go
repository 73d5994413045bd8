package termemu

// Concurrent use of the API while the read loop consumes input.  TestVFConc
// records executions that TLC then validates against the specification
// (TraceCheck.tla); TestVFStress runs freely under the race detector.

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"os"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"
)

func vfGoID() int {
	var b [64]byte
	n := runtime.Stack(b[:], false)
	id, _ := strconv.Atoi(strings.Fields(string(b[:n]))[1])
	return id
}

// vfConcBackend keeps what each goroutine wrote apart.
type vfConcBackend struct {
	*vfBackend
	mu    sync.Mutex
	byGo  map[int][]byte
	hold  bool // API writes wait until the loop has consumed the input
	idleC chan struct{}
	loop  int
	late  atomic.Bool
}

func newVfConcBackend() *vfConcBackend {
	return &vfConcBackend{vfBackend: newVfBackend(), byGo: map[int][]byte{}, idleC: make(chan struct{})}
}

func (b *vfConcBackend) Read(p []byte) (int, error) {
	if b.loop == 0 {
		b.loop = vfGoID()
	}
	if len(b.rest) == 0 {
		b.mu.Lock()
		select {
		case <-b.idleC:
		default:
			close(b.idleC)
		}
		b.mu.Unlock()
	}
	return b.vfBackend.Read(p)
}

func (b *vfConcBackend) Write(p []byte) (int, error) {
	id := vfGoID()
	b.mu.Lock()
	b.byGo[id] = append(b.byGo[id], p...)
	hold, idle := b.hold && id != b.loop, b.idleC
	b.mu.Unlock()
	if hold {
		select {
		case <-idle:
		case <-time.After(vfPatience):
			b.late.Store(true)
		}
	}
	return len(p), nil
}
func (b *vfConcBackend) take(id int) []byte {
	b.mu.Lock()
	defer b.mu.Unlock()
	o := b.byGo[id]
	delete(b.byGo, id)
	return o
}

// vfConcFrontend only probes: that the lock is held, that accessors work.
type vfConcFrontend struct {
	t       *terminal
	probe   bool // no one else takes the lock: a free lock is a breach
	bell    int
	calls   int
	unlockd string
	rng     *rand.Rand
	tty     *TTYFrontend // drawing at the same time, or nil
	slow    int          // percent of the callbacks that dawdle
}

func (f *vfConcFrontend) in(what string) {
	if f.t == nil {
		return
	}
	f.calls++
	if f.t.TryLock() {
		f.t.Unlock()
		if f.unlockd == "" {
			f.unlockd = what
		}
		return
	}
	if f.calls%5 == 0 {
		w, h := f.t.Size()
		if h > 0 {
			y := f.calls % h
			_ = f.t.StyledLine(0, w, y)
			_ = f.t.ANSILine(y)
		}
	}
	if f.slow > 0 {
		switch n := f.rng.Intn(100); {
		case n < f.slow/4:
			time.Sleep(1200 * time.Microsecond) // a waiter is handed the lock next
		case n < f.slow:
			runtime.Gosched()
		}
	}
}
func (f *vfConcFrontend) Bell() { f.in("Bell"); f.bell++ }
func (f *vfConcFrontend) RegionChanged(r Region, c ChangeReason) {
	f.in("RegionChanged")
	if f.tty != nil {
		f.tty.RegionChanged(r, c)
	}
}
func (f *vfConcFrontend) CursorMoved(x, y int) {
	f.in("CursorMoved")
	if f.tty != nil {
		f.tty.CursorMoved(x, y)
	}
}
func (f *vfConcFrontend) ScrollLines(int)    { f.in("ScrollLines") }
func (f *vfConcFrontend) StyleChanged(Style) { f.in("StyleChanged") }
func (f *vfConcFrontend) ViewFlagChanged(v ViewFlag, on bool) {
	f.in("ViewFlagChanged")
	if f.tty != nil {
		f.tty.ViewFlagChanged(v, on)
	}
}
func (f *vfConcFrontend) ViewIntChanged(ViewInt, int)          { f.in("ViewIntChanged") }
func (f *vfConcFrontend) ViewStringChanged(ViewString, string) { f.in("ViewStringChanged") }

// ---------------------------------------------------------------- recording

type vfRecOp struct {
	O   string   `json:"o"`
	Z   []int    `json:"z,omitempty"`
	Got vfBytes  `json:"got"`
	S   *vfSnapJ `json:"s,omitempty"`
}
type vfSnapJ struct {
	Rows [][]any `json:"rows"`
	C    []int   `json:"c"`
	St   []int   `json:"st"`
	Vf   []int   `json:"vf"`
	Vi   []int   `json:"vi"`
	Vs   [][]int `json:"vs"`
	Kb   int     `json:"kb"`
	Act  int     `json:"act"`
}
type vfRecEvent struct {
	B    vfBytes      `json:"b"`
	Thr  [][]*vfRecOp `json:"thr"`
	Out  vfBytes      `json:"out"`
	Bell int          `json:"bell"`
	Fin  *vfSnapJ     `json:"fin"`
}
type vfRec struct {
	W    int           `json:"w"`
	H    int           `json:"h"`
	Buf  string        `json:"buf"`
	Mode string        `json:"mode"`
	Ev   []*vfRecEvent `json:"ev"`
}

func vfInts(name string) []int {
	out := []int{}
	for _, f := range strings.Split(name, ",") {
		n, err := strconv.Atoi(f)
		if err != nil {
			n = -1 // the accessor and the serialiser disagree
		}
		out = append(out, n)
	}
	return out
}

func vfB01(v []bool) []int {
	out := make([]int, len(v))
	for i, b := range v {
		if b {
			out[i] = 1
		}
	}
	return out
}

// vfSnapRows is the JSON image of a screen, as RowsJ has it.
func vfSnapRows(t *terminal, w, h int, graph bool) (rows [][]any, bad string) {
	for y := 0; y < h; y++ {
		row, why := vfExpand(t.StyledLine(0, w, y), w, graph)
		if why != "" && bad == "" {
			bad = fmt.Sprintf("row %d: %s", y, why)
		}
		runs := []any{}
		for i, c := range row {
			cps := []int{}
			for _, r := range c.text {
				cps = append(cps, int(r))
			}
			if i > 0 && row[i-1].style == c.style {
				runs[len(runs)-1] = append(runs[len(runs)-1].([]any), cps)
			} else {
				runs = append(runs, []any{vfInts(c.style), cps})
			}
		}
		rows = append(rows, runs)
	}
	return
}

// vfSnap takes a snapshot; the caller holds the lock.
func vfSnap(t *terminal, graph bool) (s *vfSnapJ, bad string) {
	w, h := t.Size()
	scr := t.screen()
	pos := scr.CursorPos()
	s = &vfSnapJ{C: []int{pos.X + 1, pos.Y + 1, scr.TopMargin() + 1, scr.BottomMargin() + 1, 0}, St: vfInts(vfStyle(scr.Style())),
		Vf: vfB01(t.viewFlags), Vi: append([]int{}, t.viewInts...), Kb: vfKbFlags(t, false), Act: 1}
	if scr.AutoWrap() {
		s.C[4] = 1
	}
	if vfOnAlt(t) {
		s.Act, s.Kb = 2, vfKbFlags(t, true)
	}
	for _, v := range t.viewStrings {
		b := []int{}
		for i := 0; i < len(v); i++ {
			b = append(b, int(v[i]))
		}
		s.Vs = append(s.Vs, b)
	}
	s.Rows, bad = vfSnapRows(t, w, h, graph)
	return
}

type vfConcHost struct {
	t     *terminal
	be    *vfConcBackend
	fe    *vfConcFrontend
	tee   *TeeBackend
	crash chan string
	graph bool
	busy  bool // someone else holds the lock most of the time
}

func vfNewConcHost(w, h int, buf, mode string, seed int64) (*vfConcHost, string) {
	hs := &vfConcHost{be: newVfConcBackend(), fe: &vfConcFrontend{rng: rand.New(rand.NewSource(seed))}, crash: make(chan string, 1), graph: mode != "rune"}
	m := TextReadModeRune
	if hs.graph {
		m = TextReadModeGrapheme
	}
	hs.tee = NewTeeBackend(hs.be)
	if seed%3 == 0 {
		hs.fe.tty = NewTTYFrontend(nil, &bytes.Buffer{})
	}
	t := newTerminal(hs.fe, hs.tee, m)
	hs.t = t
	if buf == "grid" {
		t.mainScreen = newGridScreen(hs.fe)
		t.altScreen = newGridScreen(hs.fe)
		t.SetFrontend(hs.fe)
	}
	go func() {
		defer func() {
			if p := recover(); p != nil {
				hs.crash <- fmt.Sprintf("panic: %v\n%s", p, vfShortStack())
			}
		}()
		gr := NewGraphemeReaderWithMode(bufio.NewReader(hs.tee), m)
		for {
			if err := t.ptyReadOne(gr); err != nil {
				return
			}
		}
	}()
	if why := hs.waitIdle(); why != "" {
		return hs, why
	}
	_ = t.Resize(w, h)
	hs.t.Lock()
	hs.fe.t = t
	hs.t.Unlock()
	if hs.fe.tty != nil {
		hs.fe.tty.SetTerminal(t)
		hs.fe.tty.Attach(Region{X: 0, Y: 0, X2: w, Y2: h})
	}
	return hs, ""
}

func (hs *vfConcHost) waitIdle() string {
	select {
	case <-hs.be.idle:
		return ""
	case c := <-hs.crash:
		return c
	case <-time.After(vfPatience):
		return "hang: input not consumed within " + vfPatience.String()
	}
}

// do carries out one call and fills in what it saw.
func (hs *vfConcHost) do(o *vfRecOp, rng *rand.Rand) (why string) {
	defer func() {
		if p := recover(); p != nil {
			why = fmt.Sprintf("panic: %s: %v\n%s", o.O, p, vfShortStack())
		}
	}()
	id := vfGoID()
	switch o.O {
	case "resize":
		if err := hs.t.Resize(o.Z[0], o.Z[1]); err != nil {
			return "panic: Resize: " + err.Error()
		}
	case "snap":
		hs.t.WithLock(func() {
			var a, b string
			o.S, a = vfSnap(hs.t, hs.graph)
			if w, h := hs.t.Size(); h > 0 {
				_ = hs.t.Line(rng.Intn(h))
				_ = hs.t.ANSILine(rng.Intn(h))
				_ = hs.t.StyledLines(Region{X: 0, Y: 0, X2: w, Y2: h})
			}
			for i := rng.Intn(3); i > 0; i-- {
				runtime.Gosched()
			}
			if rng.Intn(16) == 0 {
				time.Sleep(200 * time.Microsecond)
			}
			again, b := vfSnap(hs.t, hs.graph)
			x, _ := json.Marshal(o.S)
			y, _ := json.Marshal(again)
			if !bytes.Equal(x, y) || a != b {
				why = fmt.Sprintf("torn: the screen changed under a reader holding the lock: %s / %s", x, y)
			} else if a != "" {
				why = "torn: a reader holding the lock found an ill-formed row: " + a
			}
		})
	case "key":
		ev := vfKeyOf(o.Z)
		if _, err := hs.t.SendKey(ev); err != nil {
			return "panic: SendKey: " + err.Error()
		}
		o.Got = hs.be.take(id)
	case "mouse":
		if err := hs.t.SendMouseRaw(vfBtns[o.Z[0]], o.Z[1] == 1, vfFlags(o.Z[2]>>2, vfMouseBits[:]), o.Z[3], o.Z[4]); err != nil {
			return "panic: SendMouseRaw: " + err.Error()
		}
		o.Got = hs.be.take(id)
	case "write":
		p := vfBytesOf(o.Z)
		n, err := hs.t.Write(p)
		if got := hs.be.take(id); n != len(p) || err != nil || !bytes.Equal(got, p) {
			return fmt.Sprintf("torn: Write(%q) = %d, %v; the backend got %q", p, n, err, got)
		}
	case "tty":
		if f := hs.fe.tty; f != nil {
			switch rng.Intn(5) {
			case 0:
				f.Detach()
			case 1:
				f.SetFocus(rng.Intn(2) == 0)
			default:
				f.Attach(vfRect(rng, 8, 5))
			}
		}
	case "tee":
		hs.tee.SetTee(io.Discard)
		hs.tee.SetTee(nil)
	}
	return
}

func vfBytesOf(z []int) []byte {
	p := make([]byte, len(z))
	for i, x := range z {
		p[i] = byte(x)
	}
	return p
}

func vfKeyOf(z []int) KeyEvent {
	ev := KeyEvent{Code: vfKeyCodes[z[0]], Rune: rune(z[1]), Mod: vfFlags(z[2], vfModBits[:]),
		Event: []KeyEventType{0, KeyPress, KeyRepeat, KeyRelease}[z[3]], Shifted: rune(z[4]), BaseLayout: rune(z[5])}
	for _, c := range z[6:] {
		ev.Text = append(ev.Text, rune(c))
	}
	return ev
}

// event delivers b while the goroutines make their calls.
func (hs *vfConcHost) event(b []byte, thr [][]*vfRecOp, seed int64) (ev *vfRecEvent, why string) {
	if len(b) > 0 {
		hs.be.mu.Lock()
		hs.be.idleC = make(chan struct{})
		hs.be.mu.Unlock()
	}
	hs.fe.bell = 0
	res := make(chan string, len(thr)+1)
	start := make(chan struct{})
	for i := range thr {
		go func(ops []*vfRecOp, rng *rand.Rand) {
			<-start
			for _, o := range ops {
				for k := rng.Intn(4); k > 0; k-- {
					runtime.Gosched()
				}
				if rng.Intn(12) == 0 {
					time.Sleep(time.Duration(rng.Intn(300)) * time.Microsecond)
				}
				if w := hs.do(o, rng); w != "" {
					res <- w
					return
				}
			}
			res <- ""
		}(thr[i], rand.New(rand.NewSource(seed+int64(i)*77)))
	}
	n := len(thr)
	if len(b) > 0 {
		select {
		case hs.be.next <- b:
		case c := <-hs.crash:
			return nil, c
		case <-time.After(vfPatience):
			return nil, "hang: backend not read"
		}
	}
	close(start)
	if len(b) > 0 {
		if why = hs.waitIdle(); why != "" {
			return nil, why
		}
	}
	tm := time.NewTimer(vfPatience)
	defer tm.Stop()
	for ; n > 0; n-- {
		select {
		case w := <-res:
			if w != "" {
				return nil, w
			}
		case <-tm.C:
			return nil, "hang: a call did not return while the loop waited for input"
		}
	}
	if hs.be.late.Load() {
		return nil, "hang: the loop did not advance while a write was pending"
	}
	if hs.busy {
		hs.t.Lock()
	} else if !hs.t.TryLock() {
		return nil, "lockheld: the terminal lock is held while the loop waits for input"
	}
	defer hs.t.Unlock()
	if hs.fe.unlockd != "" {
		return nil, "lock: " + hs.fe.unlockd + " called without the lock"
	}
	fin, bad := vfSnap(hs.t, hs.graph)
	if bad != "" {
		return nil, "wf: " + bad
	}
	return &vfRecEvent{B: b, Thr: thr, Out: hs.be.take(hs.be.loop), Bell: hs.fe.bell, Fin: fin}, ""
}

// vfConcPlan: what to do with a behaviour: bytes and calls, event by event.
type vfConcPlan struct {
	b   []byte
	thr [][]*vfRecOp
}

func vfPlan(tr *vfTrace, rng *rand.Rand, pool [][2]any, budget int) (plan []vfConcPlan) {
	for i := 0; i < len(tr.Steps) && budget > 0; {
		p := vfConcPlan{thr: make([][]*vfRecOp, 1+rng.Intn(3))}
		add := func(o *vfRecOp) {
			k := rng.Intn(len(p.thr))
			p.thr[k] = append(p.thr[k], o)
		}
		for g := 1 + rng.Intn(6); g > 0 && i < len(tr.Steps); g-- {
			s := &tr.Steps[i]
			i++
			if vfIsCall(s.K) {
				add(&vfRecOp{O: s.K, Z: s.Z})
			} else if len(s.B) < 200 {
				p.b = append(p.b, s.B...)
			}
		}
		for k := range p.thr {
			for n := rng.Intn(3); n > 0; n-- {
				switch x := rng.Intn(24); {
				case x < 9:
					p.thr[k] = append(p.thr[k], &vfRecOp{O: "snap"})
				case x < 12:
					w, h := 1+rng.Intn(8), 1+rng.Intn(6)
					p.thr[k] = append(p.thr[k], &vfRecOp{O: "resize", Z: []int{w, h}})
				case x < 17 && len(pool) > 0:
					c := pool[rng.Intn(len(pool))]
					p.thr[k] = append(p.thr[k], &vfRecOp{O: c[0].(string), Z: c[1].([]int)})
				case x < 19:
					p.thr[k] = append(p.thr[k], &vfRecOp{O: "write", Z: []int{27, rng.Intn(256), 65, rng.Intn(256)}})
				case x < 20:
					p.thr[k] = append(p.thr[k], &vfRecOp{O: "tee"})
				default:
					p.thr[k] = append(p.thr[k], &vfRecOp{O: "tty"})
				}
			}
		}
		budget -= len(p.b)
		if len(p.b) > 0 && rng.Intn(3) == 0 {
			// at a read boundary
			c := rng.Intn(len(p.b))
			plan = append(plan, vfConcPlan{b: p.b[:c]}, vfConcPlan{thr: p.thr}, vfConcPlan{b: p.b[c:]})
			continue
		}
		plan = append(plan, p)
	}
	return
}

// TestVFConc records executions with concurrent calls.  VF_RECORD is where
// they go; VF_SEQ=1: the same calls, made while the loop waits.
func TestVFConc(tt *testing.T) {
	out := os.Getenv("VF_OUT")
	if out == "" {
		tt.Skip("not configured")
	}
	r := &vfRunner{prop: os.Getenv("VF_PROP"), file: os.Getenv("VF_TRACES"), seg: "conc",
		rep: &vfReport{Kinds: map[string]int{}, OtherKinds: map[string]int{}, Extra: map[string]int{}}}
	seed, _ := strconv.ParseInt(os.Getenv("VF_RSEED"), 10, 64)
	max, _ := strconv.Atoi(os.Getenv("VF_MAX"))
	budget, _ := strconv.Atoi(os.Getenv("VF_BUDGET"))
	seq := os.Getenv("VF_SEQ") == "1"
	gaps := os.Getenv("VF_GAPS") == "1"
	stir := os.Getenv("VF_STIR") == "1"
	only := -1
	if v := os.Getenv("VF_ONLY"); v != "" {
		only, _ = strconv.Atoi(v)
	}
	if m := os.Getenv("VF_MARK"); m != "" {
		f, err := os.OpenFile(m, os.O_CREATE|os.O_RDWR, 0o644)
		if err != nil {
			tt.Fatal(err)
		}
		defer f.Close()
		r.mark = f
	}
	rec, err := os.Create(os.Getenv("VF_RECORD"))
	if err != nil {
		tt.Fatal(err)
	}
	bw := bufio.NewWriter(rec)
	trs := vfReadTraces(tt, r.file, max)
	var pool [][2]any
	for i := range trs {
		for _, s := range trs[i].Steps {
			if s.K == "key" || s.K == "mouse" {
				pool = append(pool, [2]any{s.K, s.Z})
			}
		}
	}
	for i := range trs {
		if only >= 0 && i != only {
			continue
		}
		r.idx = i
		r.note(0, "conc")
		if stir {
			r.stirGaps(trs, seed*1000003, budget)
			break
		}
		if gaps {
			r.recordGaps(&trs[i], seed*1000003+int64(i), budget, bw)
			continue
		}
		r.recordOne(&trs[i], seed*1000003+int64(i), seq, pool, budget, bw)
		if len(r.rep.Divergences) >= 3 || r.rep.Other > 20 {
			break
		}
	}
	if err := bw.Flush(); err != nil {
		tt.Fatal(err)
	}
	rec.Close()
	r.rep.Complete = true
	if err := r.rep.write(out); err != nil {
		tt.Fatal(err)
	}
}

// vfGapObservers hand the lock to each other in turn.  There are always some
// of them waiting, for longer than a millisecond, so that the mutex stays in
// its starvation mode: whoever releases it sees it go to the next in the
// queue.  Every state the loop exposes by releasing the lock is thus observed.
type vfGapObservers struct {
	hs   *vfConcHost
	seen []*vfRecOp
	last []byte
	rec  bool
	why  string
	stop atomic.Bool
	wg   sync.WaitGroup
}

func (g *vfGapObservers) look() {
	s, bad := vfSnap(g.hs.t, g.hs.graph)
	if bad != "" && g.why == "" {
		g.why = "torn: a reader holding the lock found an ill-formed row: " + bad
	}
	m, a := g.hs.t.mainScreen.Size(), g.hs.t.altScreen.Size()
	if m != a && g.why == "" {
		g.why = fmt.Sprintf("torn: a reader holding the lock found screens of %v and %v", m, a)
	}
	j, _ := json.Marshal(s)
	if g.rec && !bytes.Equal(j, g.last) {
		g.seen = append(g.seen, &vfRecOp{O: "snap", S: s, Got: vfBytes{}})
	}
	g.last = j
}

func (g *vfGapObservers) run() {
	defer g.wg.Done()
	for !g.stop.Load() {
		g.hs.t.Lock()
		g.look()
		time.Sleep(1050 * time.Microsecond)
		g.hs.t.Unlock()
	}
}

// recordGaps plays a behaviour step by step while observers look at every
// state that is ever exposed.
func (r *vfRunner) recordGaps(tr *vfTrace, seed int64, budget int, w io.Writer) {
	rng := rand.New(rand.NewSource(seed))
	hs, why := vfNewConcHost(tr.W, tr.H, tr.Buf, tr.Mode, seed*3+1)
	defer func() { close(hs.be.quit) }()
	g := &vfGapObservers{hs: hs}
	hs.busy = true
	rec := &vfRec{W: tr.W, H: tr.H, Buf: tr.Buf, Mode: tr.Mode}
	r.rep.Traces++
	if why == "" {
		for i := 0; i < 3; i++ {
			g.wg.Add(1)
			go g.run()
		}
	}
	for i, n := 0, 0; i < len(tr.Steps) && n < budget && why == ""; n++ {
		var b []byte
		thr := [][]*vfRecOp{}
		for k := rng.Intn(2); k >= 0 && i < len(tr.Steps); k-- {
			s := &tr.Steps[i]
			i++
			if vfIsCall(s.K) {
				if s.K == "resize" {
					thr = append(thr, []*vfRecOp{{O: s.K, Z: s.Z, Got: vfBytes{}}})
				}
			} else if len(s.B) < 60 {
				b = append(b, s.B...)
			}
			r.rep.Kinds[s.K]++
		}
		if len(b) == 0 && len(thr) == 0 {
			continue
		}
		hs.t.Lock()
		g.look()
		g.seen, g.rec = nil, true
		hs.t.Unlock()
		r.rep.Steps++
		r.rep.Bytes += len(b)
		var ev *vfRecEvent
		ev, why = hs.event(b, thr, rng.Int63())
		hs.t.Lock()
		g.rec = false
		if why == "" {
			why = g.why
		}
		if why == "" {
			if len(g.seen) > 0 {
				ev.Thr = append(ev.Thr, g.seen)
			}
			r.rep.Extra["states_observed_between_lock_sections"] += len(g.seen)
			rec.Ev = append(rec.Ev, ev)
		}
		hs.t.Unlock()
	}
	g.stop.Store(true)
	g.wg.Wait()
	if why != "" {
		comp := strings.SplitN(why, ":", 2)[0]
		if (comp == "torn" || comp == "lock" || comp == "lockheld") && (r.prop == "C15" || r.prop == "ALL") {
			r.rep.Divergences = append(r.rep.Divergences, vfDivergence{Trace: r.idx, File: r.file, Step: len(rec.Ev), Kind: "concurrent", Comp: comp, Detail: why, Owners: []string{"C15"}})
		} else {
			r.rep.Other++
			r.rep.OtherKinds["concurrent/"+comp]++
		}
		return
	}
	p, err := json.Marshal(rec)
	if err == nil {
		_, _ = w.Write(append(p, '\n'))
	}
}

// stirGaps plays steps of every kind while others use every call in every gap
// between two lock sections of the loop: what it touches in a gap without the
// lock is a race with one of them, whatever the schedule would have been.
func (r *vfRunner) stirGaps(trs []vfTrace, seed int64, budget int) {
	rng := rand.New(rand.NewSource(seed))
	by := map[string][]*vfStep{}
	var kinds []string
	for i := range trs {
		for k := range trs[i].Steps {
			s := &trs[i].Steps[k]
			if vfIsCall(s.K) || len(s.B) == 0 || len(s.B) > 24 {
				continue
			}
			if by[s.K] == nil {
				kinds = append(kinds, s.K)
			}
			by[s.K] = append(by[s.K], s)
		}
	}
	sort.Strings(kinds)
	hs, why := vfNewConcHost(5, 4, trs[0].Buf, trs[0].Mode, seed*3+1)
	defer func() { close(hs.be.quit) }()
	hs.busy = true
	r.rep.Traces++
	var stop atomic.Bool
	var wg sync.WaitGroup
	var failed atomic.Value
	act := func(nap bool, f func(n int) string) {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if p := recover(); p != nil {
					failed.Store(fmt.Sprintf("panic: %v\n%s", p, vfShortStack()))
				}
			}()
			for n := 0; !stop.Load(); n++ {
				if nap {
					hs.t.Lock()
					time.Sleep(1050 * time.Microsecond)
					hs.t.Unlock()
				}
				if w := f(n); w != "" {
					failed.Store(w)
					return
				}
			}
		}()
	}
	if why == "" {
		sizes := [][2]int{{5, 4}, {7, 3}, {5, 4}, {2, 6}, {5, 4}, {5, 4}}
		act(true, func(n int) string {
			z := sizes[n%len(sizes)]
			if err := hs.t.Resize(z[0], z[1]); err != nil {
				return "panic: Resize: " + err.Error()
			}
			return ""
		})
		act(true, func(n int) string {
			hs.t.WithLock(func() {
				vfSnap(hs.t, hs.graph)
				w, h := hs.t.Size()
				_ = hs.t.Line(n % h)
				_ = hs.t.ANSILine(n % h)
				_ = hs.t.StyledLines(Region{X: 0, Y: 0, X2: w, Y2: h})
			})
			return ""
		})
		act(true, func(n int) string {
			_, _ = hs.t.SendKey(KeyEvent{Code: []KeyCode{KeyUp, KeyEnter, KeyF1, KeyHome}[n%4]})
			_ = hs.t.SendMouseRaw(MBtn1, n%2 == 0, 0, 1, 1)
			hs.be.take(vfGoID())
			return ""
		})
	}
	for n := 0; n < budget && why == ""; {
		var b []byte
		for len(b) < 12 {
			of := by[kinds[rng.Intn(len(kinds))]]
			s := of[rng.Intn(len(of))]
			b = append(b, s.B...)
			r.rep.Kinds[s.K]++
			r.rep.Steps++
		}
		n += len(b)
		r.rep.Bytes += len(b)
		_, why = hs.event(b, nil, 0)
		if f := failed.Load(); f != nil && why == "" {
			why = f.(string)
		}
	}
	stop.Store(true)
	wg.Wait()
	if why != "" {
		r.rep.Other++
		r.rep.OtherKinds["concurrent/"+strings.SplitN(why, ":", 2)[0]]++
	}
}

func (r *vfRunner) recordOne(tr *vfTrace, seed int64, seq bool, pool [][2]any, budget int, w io.Writer) {
	rng := rand.New(rand.NewSource(seed))
	plan := vfPlan(tr, rng, pool, budget)
	hs, why := vfNewConcHost(tr.W, tr.H, tr.Buf, tr.Mode, seed)
	defer func() { close(hs.be.quit) }()
	rec := &vfRec{W: tr.W, H: tr.H, Buf: tr.Buf, Mode: tr.Mode}
	r.rep.Traces++
	emit := func(b []byte, thr [][]*vfRecOp) bool {
		for _, ops := range thr {
			r.rep.Steps += len(ops)
			for _, o := range ops {
				r.rep.Kinds[o.O]++
			}
		}
		r.rep.Bytes += len(b)
		hs.fe.slow = []int{0, 20, 60}[rng.Intn(3)]
		hs.be.mu.Lock()
		hs.be.hold = !seq && rng.Intn(3) == 0
		hs.be.mu.Unlock()
		var ev *vfRecEvent
		ev, why = hs.event(b, thr, rng.Int63())
		if why != "" {
			return false
		}
		// what TLC does not follow
		for k, ops := range ev.Thr {
			keep := []*vfRecOp{}
			for _, o := range ops {
				if o.O != "write" && o.O != "tee" && o.O != "tty" {
					if o.Got == nil {
						o.Got = vfBytes{}
					}
					keep = append(keep, o)
				}
			}
			ev.Thr[k] = keep
		}
		if ev.Thr == nil {
			ev.Thr = [][]*vfRecOp{}
		}
		rec.Ev = append(rec.Ev, ev)
		return true
	}
	if why == "" {
		for _, p := range plan {
			ok := true
			if seq {
				if ok = emit(p.b, nil); ok {
					for _, ops := range p.thr {
						if ok = emit(nil, [][]*vfRecOp{ops}); !ok {
							break
						}
					}
				}
			} else {
				ok = emit(p.b, p.thr)
			}
			if !ok {
				break
			}
		}
	}
	if why != "" {
		comp := strings.SplitN(why, ":", 2)[0]
		owners := map[string][]string{"panic": {"C15", "C01"}, "hang": {"C15", "C01"}, "torn": {"C15"}, "lockheld": {"C15", "C01"}, "lock": {"C15"}, "wf": {"C02"}}[comp]
		if seq && comp != "lock" && comp != "lockheld" {
			owners = nil
		}
		mine := r.prop == "ALL"
		for _, o := range owners {
			mine = mine || o == r.prop
		}
		if !seq && mine && (comp == "panic" || comp == "wf" || comp == "hang" || comp == "torn") && r.prop == "C15" {
			// the same calls one after the other
			q := &vfRunner{prop: "ALL", file: r.file, seg: "conc", idx: r.idx, rep: &vfReport{Kinds: map[string]int{}, OtherKinds: map[string]int{}, Extra: map[string]int{}}}
			q.recordOne(tr, seed, true, pool, budget, io.Discard)
			if len(q.rep.Divergences) > 0 {
				mine = false // happens without concurrency, too
			}
		}
		if mine {
			r.rep.Divergences = append(r.rep.Divergences, vfDivergence{Trace: r.idx, File: r.file, Step: len(rec.Ev), Kind: "concurrent", Comp: comp, Detail: why, Owners: owners})
		} else {
			r.rep.Other++
			r.rep.OtherKinds["concurrent/"+comp]++
		}
		return
	}
	p, err := json.Marshal(rec)
	if err == nil {
		_, _ = w.Write(append(p, '\n'))
	}
}
