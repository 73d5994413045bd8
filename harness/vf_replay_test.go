package termemu

import (
	"bufio"
	"bytes"
	"compress/gzip"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"math/rand"
	"os"
	"strconv"
	"strings"
	"testing"
	"time"
	"unicode/utf8"
)

// TestVFReplay replays every behaviour of a file.  Environment:
//
//	VF_PROP    property whose divergences are reported
//	VF_TRACES  file with one behaviour per line
//	VF_OUT     report
//	VF_SEG     token | byte | rand | all | big   how the input is cut into reads
//	VF_SEED    seed for rand
//	VF_MARK    file that always names the trace and step being run
//	VF_SKIP    behaviours to skip (a previous run died in the last of them)
//	VF_ANSI    1: round-trip ANSILine at the end of each behaviour and sometimes before
//
// vfDebugOn has the package print all it can, to nowhere.
func vfDebugOn() {
	DebugFlags()
	_ = flag.Set("debugFile", os.DevNull)
	flag.VisitAll(func(f *flag.Flag) {
		if strings.HasPrefix(f.Name, "debug") && f.Name != "debugFile" && f.Name != "debugWait" {
			_ = flag.Set(f.Name, "true")
		}
	})
}

func TestVFReplay(tt *testing.T) {
	out := os.Getenv("VF_OUT")
	if out == "" {
		tt.Skip("not configured")
	}
	r := &vfRunner{prop: os.Getenv("VF_PROP"), seg: os.Getenv("VF_SEG"), file: os.Getenv("VF_TRACES"),
		ansi: os.Getenv("VF_ANSI") == "1",
		rep:  &vfReport{Kinds: map[string]int{}, OtherKinds: map[string]int{}, Extra: map[string]int{}}}
	if r.seg == "" {
		r.seg = "token"
	}
	seed, _ := strconv.ParseInt(os.Getenv("VF_SEED"), 10, 64)
	r.rng = rand.New(rand.NewSource(seed))
	skip, _ := strconv.Atoi(os.Getenv("VF_SKIP"))
	only := -1
	if v := os.Getenv("VF_ONLY"); v != "" {
		only, _ = strconv.Atoi(v)
	}
	if m := os.Getenv("VF_MARK"); m != "" {
		f, err := os.OpenFile(m, os.O_CREATE|os.O_RDWR, 0o644)
		if err != nil {
			tt.Fatal(err)
		}
		defer f.Close()
		r.mark = f
	}
	if why := vfCheckWidths(); why != "" {
		tt.Fatal(why)
	}
	if os.Getenv("VF_DEBUG") == "1" {
		vfDebugOn()
	}
	f, err := os.Open(r.file)
	if err != nil {
		tt.Fatal(err)
	}
	defer f.Close()
	var src io.Reader = f
	if strings.HasSuffix(r.file, ".gz") {
		if src, err = gzip.NewReader(f); err != nil {
			tt.Fatal(err)
		}
	}
	br := bufio.NewReaderSize(src, 1<<20)
	for i := 0; ; i++ {
		line, err := br.ReadBytes('\n')
		if len(bytes.TrimSpace(line)) == 0 {
			break
		}
		if i < skip || (only >= 0 && i != only) {
			continue
		}
		var tr vfTrace
		if e := json.Unmarshal(line, &tr); e != nil {
			tt.Fatalf("%s:%d: %v", r.file, i+1, e)
		}
		r.idx = i
		r.run(&tr)
		if len(r.rep.Divergences) >= 5 || r.rep.Other > 200 || err != nil {
			break
		}
	}
	r.rep.Complete = true
	if err := r.rep.write(out); err != nil {
		tt.Fatal(err)
	}
}

type vfRunner struct {
	prop, seg, file string
	ansi            bool
	rng             *rand.Rand
	mark            *os.File
	rep             *vfReport
	idx             int
	nresize, nalt   int
	mid             bool // the step is a write that starts inside a wide character
	scrolls         bool // the step is text that reaches the bottom of the region
}

func (r *vfRunner) note(step int, kind string) {
	if r.mark != nil {
		_, _ = r.mark.WriteAt([]byte(fmt.Sprintf("%08d %06d %-8s %-24s\n", r.idx, step, kind,
			strings.Join(vfOwners(kind, "panic", r), ","))), 0)
	}
}

// diverge records a divergence at a step and stops the behaviour.
func (r *vfRunner) diverge(tr *vfTrace, step int, kind, comp, detail string) {
	owners := vfOwners(kind, comp, r)
	if (r.seg == "all" || r.seg == "big") && comp != "setsize" {
		owners = nil // several steps at once: no telling which
		if comp == "panic" || comp == "hang" {
			owners = []string{"C01"}
		}
	}
	if strings.Contains(comp, "style") && vfUnserialised(detail) {
		owners = append(owners, "C11") // the style's SGR sequence and its accessors disagree
	}
	want := func(p string) bool {
		if r.prop != p && r.prop != "ALL" {
			return false
		}
		for _, o := range owners {
			if o == p {
				return false
			}
		}
		return true
	}
	if (want("C08") || want("C16")) && (tr.Mode == "rune" || tr.Legal == 1) {
		// the same bytes, delivered differently, do something else
		if d := r.segDiffers(tr, step); d != "" {
			owners = append(owners, "C08", "C16")
			detail += " | " + d
		}
	}
	if want(r.prop) && r.prop != "ALL" && step < len(tr.Steps) && r.inHistory(tr, step) && r.freshAgrees(tr, step) {
		detail += " | a terminal without that history behaves as specified"
		owners = append(owners, r.prop)
	}
	mine := false
	for _, o := range owners {
		if o == r.prop || r.prop == "ALL" {
			mine = true
		}
	}
	if r.prop == "ALL" {
		mine = true
	}
	if !mine {
		r.rep.Other++
		r.rep.OtherKinds[kind+"/"+comp]++
		return
	}
	var ctx strings.Builder
	fmt.Fprintf(&ctx, "%dx%d %s %s seg=%s", tr.W, tr.H, tr.Buf, tr.Mode, r.seg)
	lo := step - 4
	if lo < 0 {
		lo = 0
	}
	for i := lo; i <= step && i < len(tr.Steps); i++ {
		s := tr.Steps[i]
		if vfIsCall(s.K) {
			fmt.Fprintf(&ctx, " | %s%v", s.K, s.Z)
		} else {
			fmt.Fprintf(&ctx, " | %s %q", s.K, string(s.B))
		}
	}
	r.rep.Divergences = append(r.rep.Divergences, vfDivergence{Trace: r.idx, File: r.file, Step: step, Kind: kind,
		Comp: comp, Detail: detail, Owners: owners, Context: ctx.String()})
}

func vfUnserialised(detail string) bool {
	for _, m := range []string{"!mode", "!col", "!sgr", "!esc", "!num"} {
		if strings.Contains(detail, m) {
			return true
		}
	}
	return false
}

func (r *vfRunner) run(tr *vfTrace) {
	r.rep.Traces++
	r.nresize, r.nalt = 0, 0
	graph := tr.Mode != "rune"
	public := r.idx%4 == 1 && os.Getenv("VF_NOPUBLIC") == ""
	r.note(-1, "start")
	h := vfNewHost(tr.W, tr.H, tr.Buf, graph, public)
	if r.idx%3 == 2 {
		h.be.stingy = 1 + r.idx/3%4
	}
	defer h.close()
	if h.dead {
		r.diverge(tr, 0, "start", "panic", "terminal does not start: "+h.why)
		return
	}
	st := &vfState{}
	st.init(tr)
	if r.seg == "all" || r.seg == "big" {
		r.runWhole(tr, h, st)
		return
	}
	if comp, d := h.compare(st, nil); comp != "" {
		r.diverge(tr, 0, "start", comp, d)
		return
	}
	for i := range tr.Steps {
		s := &tr.Steps[i]
		r.note(i, s.K)
		r.rep.Steps++
		r.rep.Kinds[s.K]++
		r.rep.Bytes += len(s.B)
		if r.idx%5 == 2 && (i+r.idx)%9 == 4 {
			h.swapFrontend()
			r.rep.Extra["frontends_replaced"]++
		}
		why := r.deliver(h, s, r.seg, graph)
		if s.C == nil {
			// a prefix step: its outcome is checked elsewhere
			if why != "" {
				r.diverge(tr, i, s.K, vfComp(why), why)
				return
			}
			continue
		}
		r.mid = st.midWrite(s)
		r.scrolls = (s.K == "text" || s.K == "bad") && st.c[6] == 1 && st.c[1] <= st.c[5] && s.C[1] == st.c[5]
		st.apply(s)
		if why != "" {
			r.diverge(tr, i, s.K, vfComp(why), why)
			return
		}
		r.rep.Compared++
		r.rep.Cells += st.w * st.h
		if comp, d := h.compare(st, s); comp != "" {
			r.diverge(tr, i, s.K, comp, d)
			return
		}
		if r.ansi && (i == len(tr.Steps)-1 || i%7 == 3) {
			if d := h.ansiRoundTrip(st); d != "" {
				r.diverge(tr, i, s.K, "ansi", d)
				return
			}
			r.rep.Extra["ansi_roundtrips"]++
		}
	}
	if tr.Trail != nil {
		r.trail(tr, h, st)
	}
	if len(r.rep.Samples) < 3 && len(tr.Steps) > 0 {
		r.rep.Samples = append(r.rep.Samples, fmt.Sprintf("%dx%d %s/%s %s: %d steps conform, last %s %q", tr.W, tr.H, tr.Buf, tr.Mode, tr.Profile,
			len(tr.Steps), tr.Steps[len(tr.Steps)-1].K, string(tr.Steps[len(tr.Steps)-1].B)))
	}
}

func vfComp(why string) string {
	if strings.HasPrefix(why, "hang") {
		return "hang"
	}
	return "panic"
}

// deliver carries out one step.
func (r *vfRunner) deliver(h *vfHost, s *vfStep, seg string, graph bool) string {
	h.fe.beginStep()
	h.be.takeOut()
	if s.K == "resize" {
		r.nresize++
		return h.resize(s.Z[0], s.Z[1])
	}
	switch s.K {
	case "alt", "mode":
		r.nalt++
	case "key", "mouse":
		return h.input(s)
	}
	for _, p := range r.cut(s.B, seg, graph) {
		if why := h.feed(p); why != "" {
			return why
		}
	}
	return ""
}

// swapFrontend installs another frontend, which starts from what it reads
// back; the loop is waiting for input.
func (h *vfHost) swapFrontend() {
	f := newVfFrontend(h.graph)
	h.t.Lock()
	f.t = h.t
	f.refresh()
	pos := h.t.screen().CursorPos()
	f.cx, f.cy, f.moved = pos.X, pos.Y, true
	f.style, f.styled = vfStyle(h.t.screen().Style()), true
	f.flags, f.ints, f.strs = h.fe.flags, h.fe.ints, h.fe.strs
	h.t.Unlock()
	h.term.SetFrontend(f)
	h.fe = f
}

func vfIsCall(kind string) bool { return kind == "resize" || kind == "key" || kind == "mouse" }

// input makes a key or mouse event.
func (h *vfHost) input(s *vfStep) string {
	ch := make(chan string, 1)
	go func() {
		_, err, why := vfGuard(func() (int, error) {
			if s.K == "mouse" {
				m, ok := h.term.(vfMouser)
				if !ok {
					return 0, fmt.Errorf("no SendMouseRaw")
				}
				return 0, m.SendMouseRaw(vfBtns[s.Z[0]], s.Z[1] == 1, vfFlags(s.Z[2]>>2, vfMouseBits[:]), s.Z[3], s.Z[4])
			}
			ev := KeyEvent{Code: vfKeyCodes[s.Z[0]], Rune: rune(s.Z[1]), Mod: vfFlags(s.Z[2], vfModBits[:]),
				Event: []KeyEventType{0, KeyPress, KeyRepeat, KeyRelease}[s.Z[3]], Shifted: rune(s.Z[4]), BaseLayout: rune(s.Z[5])}
			for _, c := range s.Z[6:] {
				ev.Text = append(ev.Text, rune(c))
			}
			return h.term.SendKey(ev)
		})
		if err != nil {
			why = "panic: error " + err.Error()
		}
		ch <- why
	}()
	select {
	case why := <-ch:
		return why
	case <-time.After(vfPatience):
		h.dead = true
		return "hang: " + s.K + " event did not return"
	}
}

// vfFlags adds up the flags whose bits are set.
func vfFlags[T KeyMod | MouseFlag](m int, bits []T) (f T) {
	for b, bit := range bits {
		if m>>b&1 == 1 {
			f |= bit
		}
	}
	return f
}

// segDiffers delivers the steps up to and including `upto' in three
// segmentations and reports whether the outcomes differ.
func (r *vfRunner) segDiffers(tr *vfTrace, upto int) string {
	nr, na := r.nresize, r.nalt
	defer func() { r.nresize, r.nalt = nr, na }()
	graph := tr.Mode != "rune"
	if upto >= len(tr.Steps) {
		upto = len(tr.Steps) - 1
	}
	first, firstSeg := "", ""
	for _, seg := range []string{"token", "byte", "all", "big"} {
		h := vfNewHost(tr.W, tr.H, tr.Buf, graph, false)
		why := ""
		if h.dead {
			why = h.why
		}
		h.fe.beginStep()
		var out []byte
		i := 0
		for i <= upto && why == "" {
			if k := tr.Steps[i].K; vfIsCall(k) {
				if k == "resize" {
					why = h.resize(tr.Steps[i].Z[0], tr.Steps[i].Z[1])
				} else {
					why = h.input(&tr.Steps[i])
				}
				i++
				continue
			}
			if seg == "all" || seg == "big" {
				var in []byte
				cuts := []int{}
				first0 := i
				for ; i <= upto && !vfIsCall(tr.Steps[i].K); i++ {
					for _, c := range vfLegalPos(tr.Steps[i].B, graph) {
						cuts = append(cuts, len(in)+c)
					}
					in = append(in, tr.Steps[i].B...)
				}
				if seg == "big" && len(cuts) > 0 && vfPadOK(tr, first0) {
					in = append(make([]byte, 4096-cuts[r.rng.Intn(len(cuts))]%4096), in...)
				}
				why = h.feed(in)
			} else {
				for _, p := range r.cut(tr.Steps[i].B, seg, graph) {
					if why = h.feed(p); why != "" {
						break
					}
				}
				i++
			}
			out = append(out, h.be.takeOut()...)
		}
		snap := ""
		if why != "" {
			snap = vfComp(why)
		} else {
			snap = h.snapshot() + fmt.Sprintf(" out %q bells %d events %v scrolled %v", out, h.fe.bell, h.fe.ev, h.fe.sback)
		}
		h.close()
		if first == "" {
			first, firstSeg = snap, seg
		} else if snap != first {
			return fmt.Sprintf("delivery %q and %q differ: %s / %s", firstSeg, seg, vfClip(first), vfClip(snap))
		}
	}
	return ""
}

func vfClip(s string) string {
	if len(s) > 400 {
		return s[:400] + "..."
	}
	return s
}

// inHistory: whether operations the property is about precede the step.
func (r *vfRunner) inHistory(tr *vfTrace, step int) bool {
	for i := 0; i < step; i++ {
		k := tr.Steps[i].K
		if k == "alt" || k == "mode" {
			if r.prop == "C17" {
				return true
			}
		}
		for _, o := range vfKindOwner[k] {
			if o == r.prop && o != "C12" && o != "C13" && o != "C14" {
				return true
			}
		}
	}
	return false
}

// freshAgrees builds the specified state before the step on a terminal that
// has no history (created at that size, never switched unless the alternate
// buffer is showing) and reports whether the step then does what is specified.
func (r *vfRunner) freshAgrees(tr *vfTrace, step int) bool {
	nr, na := r.nresize, r.nalt
	defer func() { r.nresize, r.nalt = nr, na }()
	st := &vfState{}
	st.init(tr)
	for i := 0; i < step; i++ {
		if tr.Steps[i].C == nil {
			return false
		}
		st.apply(&tr.Steps[i])
	}
	graph := tr.Mode != "rune"
	h := vfNewHost(st.w, st.h, tr.Buf, graph, false)
	defer h.close()
	if h.dead {
		return false
	}
	var b bytes.Buffer
	if st.c[7] == 2 {
		b.WriteString("\x1b[?1049h")
	}
	for y, row := range st.rows {
		fmt.Fprintf(&b, "\x1b[%d;1H", y+1)
		prev := ""
		for _, c := range row {
			if c.style != prev {
				b.WriteString(vfSGR(c.style))
				prev = c.style
			}
			b.WriteString(c.text)
		}
	}
	fmt.Fprintf(&b, "\x1b[%d;%dr\x1b[%d;%dH\x1b[s\x1b[%d;%dH", st.c[4], st.c[5], st.c[3], st.c[2], st.c[1], st.c[0])
	if st.c[6] == 1 {
		b.WriteString("\x1b[?7h")
	}
	b.WriteString(vfSGR(st.st))
	if h.feed(b.Bytes()) != "" {
		return false
	}
	only := func(comp string) bool {
		switch comp {
		case "", "kb", "flags", "lastview", "events", "sback", "ansi":
			return true
		}
		return false
	}
	if comp, _ := h.compare(st, nil); !only(comp) {
		return false
	}
	s := &tr.Steps[step]
	if r.deliver(h, s, "token", graph) != "" {
		return false
	}
	st.apply(s)
	comp, _ := h.compare(st, s)
	return only(comp)
}

// vfSGR selects exactly the named style.
func vfSGR(name string) string {
	var v []int
	for _, f := range strings.Split(name, ",") {
		n, _ := strconv.Atoi(f)
		v = append(v, n)
	}
	var sb strings.Builder
	sb.WriteString("\x1b[0")
	for i, base := range []int{30, 40} {
		k, c := v[2*i], v[2*i+1]
		switch k {
		case 1:
			fmt.Fprintf(&sb, ";%d;5;%d", base+8, c)
		case 2:
			fmt.Fprintf(&sb, ";%d", base+60+c)
		case 3:
			fmt.Fprintf(&sb, ";%d;2;%d;%d;%d", base+8, c>>16, c>>8&255, c&255)
		}
	}
	for _, m := range v[4:] {
		fmt.Fprintf(&sb, ";%d", m)
	}
	sb.WriteString("m")
	return sb.String()
}

// trail: the buffer that is not showing, the mode values and strings
func (r *vfRunner) trail(tr *vfTrace, h *vfHost, st *vfState) {
	n := len(tr.Steps)
	tl := tr.Trail
	for i := range tl.Vs {
		if why := h.lock(); why != "" {
			r.diverge(tr, n, "trail", "hang", why)
			return
		}
		got := ""
		if i < len(h.t.viewStrings) {
			got = h.t.viewStrings[i]
		}
		last := h.fe.strs[ViewString(i)]
		h.t.Unlock()
		if got != string(tl.Vs[i]) || last != got {
			r.diverge(tr, n, "osc", "strings", fmt.Sprintf("string %d is %q, frontend heard %q, want %q", i, got, last, string(tl.Vs[i])))
			return
		}
	}
	if tl.Ok == 0 {
		return
	}
	r.note(n, "trail")
	act, other := 0, 1
	seq, back := "\x1b[?1049h", "\x1b[?1049l"
	if tl.Act == 2 {
		act, other = 1, 0
		seq, back = back, seq
	}
	rows := [2][]vfRow{tl.Main, tl.Alt}
	cs := [2][]int{tl.Mc, tl.Ac}
	check := func(in, kind string, buf int, saved bool, what string) bool {
		if why := h.feed([]byte(in)); why != "" {
			r.diverge(tr, n, kind, vfComp(why), why)
			return false
		}
		s2 := *st
		s2.rows = rows[buf]
		s2.c = append(append([]int(nil), cs[buf]...), buf+1)
		if saved {
			s2.c[0], s2.c[1] = s2.c[2], s2.c[3]
		}
		s2.kbf = tl.Kb[buf]
		if comp, d := h.compare(&s2, nil); comp != "" {
			r.diverge(tr, n, kind, comp, what+": "+d)
			return false
		}
		return true
	}
	_ = check(seq, "alt", other, false, "on switching buffers at the end") &&
		check("\x1b[u", "rc", other, true, "saved cursor of the other buffer") &&
		check(back, "alt", act, false, "on switching back") &&
		check("\x1b[u", "rc", act, true, "saved cursor")
}

// cut splits a token into reads.
func (r *vfRunner) cut(b []byte, seg string, graph bool) [][]byte {
	switch seg {
	case "byte":
		if graph {
			return vfLegalCuts(b, r.rng, 100)
		}
		var out [][]byte
		for i := range b {
			out = append(out, b[i:i+1])
		}
		return out
	case "rand":
		if graph {
			return vfLegalCuts(b, r.rng, 40)
		}
		var out [][]byte
		last := 0
		for i := 1; i < len(b); i++ {
			if r.rng.Intn(100) < 40 {
				out = append(out, b[last:i])
				last = i
			}
		}
		if last < len(b) {
			out = append(out, b[last:])
		}
		return out
	}
	if len(b) == 0 {
		return nil
	}
	return [][]byte{b}
}

// vfLegalCuts cuts b at grapheme cluster boundaries and anywhere inside
// control sequences.
func vfLegalCuts(b []byte, rng *rand.Rand, pct int) [][]byte {
	var out [][]byte
	last := 0
	for _, k := range vfLegalPos(b, true) {
		if k > last && k < len(b) && rng.Intn(100) < pct {
			out = append(out, b[last:k])
			last = k
		}
	}
	if last < len(b) {
		out = append(out, b[last:])
	}
	return out
}

// vfLegalPos lists the positions of a token where a read may end.
func vfLegalPos(b []byte, graph bool) []int {
	var pos []int
	if !graph || (len(b) > 0 && b[0] == 27) {
		for k := range b {
			pos = append(pos, k)
		}
		return pos
	}
	i := 0
	for i < len(b) {
		pos = append(pos, i)
		if b[i] < 32 || b[i] == 127 {
			i++
			continue
		}
		j := i
		for j < len(b) && b[j] >= 32 && b[j] != 127 {
			j++
		}
		cl, _ := vfClusters(string(b[i:j]), true)
		k := i
		for _, c := range cl {
			k += len(c)
			if k < j {
				pos = append(pos, k)
			}
		}
		i = j
	}
	return pos
}

// runWhole delivers everything between two resizes in one read ("all"), or
// pads the stream so that reads end inside it at the 4096-byte buffer limit
// ("big"), and compares the accumulated effects at the end of each piece.
func (r *vfRunner) runWhole(tr *vfTrace, h *vfHost, st *vfState) {
	graph := tr.Mode != "rune"
	i := 0
	for i < len(tr.Steps) {
		j := i
		var in []byte
		var cuts []int
		acc := vfStep{K: "whole"}
		for j < len(tr.Steps) && !vfIsCall(tr.Steps[j].K) {
			for _, c := range vfLegalPos(tr.Steps[j].B, graph) {
				cuts = append(cuts, len(in)+c)
			}
			in = append(in, tr.Steps[j].B...)
			j++
		}
		call := ""
		if j == i {
			j, call = i+1, tr.Steps[i].K
		}
		for k := i; k < j; k++ {
			s := &tr.Steps[k]
			st.apply(s)
			acc.O = append(acc.O, s.O...)
			acc.Bell += s.Bell
			acc.Ev = append(acc.Ev, s.Ev...)
			acc.Sb = append(acc.Sb, s.Sb...)
			if s.K == "resize" {
				acc.K, acc.Z = s.K, s.Z
			}
			r.rep.Steps++
			r.rep.Kinds[s.K]++
			r.rep.Bytes += len(s.B)
		}
		r.note(j-1, tr.Steps[j-1].K)
		h.fe.beginStep()
		h.be.takeOut()
		why := ""
		if call == "key" || call == "mouse" {
			why = h.input(&tr.Steps[i])
		} else if call == "resize" {
			r.nresize++
			why = h.resize(tr.Steps[i].Z[0], tr.Steps[i].Z[1])
		} else {
			if r.seg == "big" && len(cuts) > 0 && vfPadOK(tr, i) {
				// NULs are ignored: the buffer boundary falls inside the input
				in = append(make([]byte, 4096-cuts[r.rng.Intn(len(cuts))]%4096), in...)
			}
			why = h.feed(in)
		}
		if why != "" {
			r.diverge(tr, j-1, tr.Steps[j-1].K, vfComp(why), "delivered in one read: "+why)
			return
		}
		r.rep.Compared++
		if comp, d := h.compare(st, &acc); comp != "" {
			r.diverge(tr, j-1, tr.Steps[j-1].K, comp, "delivered in one read: "+d)
			return
		}
		i = j
	}
}

// vfPadOK: NULs may stand in front of a step of this kind (it does not
// continue a string or a character)
func vfPadOK(tr *vfTrace, i int) bool {
	if tr.Profile == "fuzz" {
		// whatever came before may have ended anywhere
		for k := 0; k < i; k++ {
			if len(tr.Steps[k].B) > 0 {
				return false
			}
		}
	}
	s := &tr.Steps[i]
	return len(s.Z) != 1 && s.K != "osc" && s.K != "dcs" && s.K != "bad"
}

// snapshot renders everything observable about the terminal.
func (h *vfHost) snapshot() (out string) {
	if why := h.lock(); why != "" {
		return why
	}
	defer h.t.Unlock()
	defer func() {
		if p := recover(); p != nil {
			out = fmt.Sprintf("panic in accessor: %v", p)
		}
	}()
	var sb strings.Builder
	w, hh := h.term.Size()
	scr := h.t.screen()
	fmt.Fprintf(&sb, "%dx%d cursor %v region %d..%d wrap %v style %s flags %v ints %v strings %v alt %v kb %d/%d heard %d,%d %s",
		w, hh, scr.CursorPos(), scr.TopMargin(), scr.BottomMargin(), scr.AutoWrap(), vfStyle(scr.Style()), h.t.viewFlags,
		h.t.viewInts, h.t.viewStrings, vfOnAlt(h.t), vfKbFlags(h.t, false), vfKbFlags(h.t, true), h.fe.cx, h.fe.cy, h.fe.style)
	for y := 0; y < hh; y++ {
		row, bad := vfExpand(h.term.StyledLine(0, w, y), w, h.graph)
		fmt.Fprintf(&sb, "\n%s%s", row, bad)
	}
	return sb.String()
}

// ---------------------------------------------------------------- expected state

type vfState struct {
	w, h   int
	rows   []vfRow
	c      []int
	st     string
	vf, vi []int
	kbf    int
	kbd    int
	step   *vfStep
}

func (s *vfState) init(tr *vfTrace) {
	s.w, s.h = tr.W, tr.H
	s.st = "0,0,0,0"
	blank := make(vfRow, tr.W)
	for i := range blank {
		blank[i] = vfCell{" ", s.st}
	}
	for y := 0; y < tr.H; y++ {
		s.rows = append(s.rows, blank)
	}
	s.c = []int{1, 1, 1, 1, 1, tr.H, 0, 1}
	s.vf, s.vi = make([]int, 6), make([]int, 3)
}

func (s *vfState) midWrite(p *vfStep) bool {
	if p.K != "text" && p.K != "bad" || s.c == nil {
		return false
	}
	x, y := s.c[0]-1, s.c[1]-1
	return y >= 0 && y < len(s.rows) && x >= 0 && x < len(s.rows[y]) && s.rows[y][x].text == ""
}

func (s *vfState) apply(p *vfStep) {
	if p.K == "resize" {
		s.w, s.h = p.Z[0], p.Z[1]
		nr := make([]vfRow, s.h)
		copy(nr, s.rows)
		s.rows = nr
	}
	for _, d := range p.R {
		s.rows[d.Y-1] = d.Row
	}
	s.c = p.C
	if p.St != nil {
		s.st = vfStyleName(p.St)
	}
	if p.Vf != nil {
		s.vf = p.Vf
	}
	if p.Vi != nil {
		s.vi = p.Vi
	}
	if p.Kb != nil {
		s.kbf, s.kbd = p.Kb[0], p.Kb[1]
	}
	s.step = p
}

// compare checks the real terminal against the expected state; s, when given,
// carries the effects expected of this step.
func (h *vfHost) compare(st *vfState, s *vfStep) (comp, detail string) {
	if why := h.lock(); why != "" {
		return "lockheld", why
	}
	defer h.t.Unlock()
	defer func() {
		if p := recover(); p != nil {
			comp, detail = "panic", fmt.Sprintf("read accessor: %v\n%s", p, vfShortStack())
		}
	}()
	if h.fe.unlockd != "" {
		return "lock", "callback " + h.fe.unlockd + " made without the terminal lock"
	}
	w, hh := h.term.Size()
	if w != st.w || hh != st.h {
		return "size", fmt.Sprintf("size %dx%d, want %dx%d", w, hh, st.w, st.h)
	}
	scr := h.t.screen()
	pos := scr.CursorPos()
	if pos.X < 0 || pos.Y < 0 || pos.X >= w || pos.Y >= hh {
		return "cursor-range", fmt.Sprintf("cursor %v outside %dx%d", pos, w, hh)
	}
	if t, b := scr.TopMargin(), scr.BottomMargin(); t < 0 || t > b || b >= hh {
		return "margin-range", fmt.Sprintf("scroll region %d..%d on %d rows", t, b, hh)
	}
	// cells and shape of the rows
	var cells, shadow string
	styleOnly := true
	rows := make([]vfRow, hh)
	for y := 0; y < hh; y++ {
		l := h.term.StyledLine(0, w, y)
		row, bad := vfExpand(l, w, h.graph)
		if bad != "" {
			return "wf", fmt.Sprintf("row %d: %s", y, bad)
		}
		rows[y] = row
		txt := l.PlainTextString()
		if got := h.term.Line(y); got != txt {
			return "wf", fmt.Sprintf("row %d: Line %q, StyledLine %q", y, got, txt)
		}
		if got := vfStripSGR(h.term.ANSILine(y)); got != txt {
			return "wf", fmt.Sprintf("row %d: ANSILine text %q, StyledLine %q", y, got, txt)
		}
		if !vfRowsEq(row, st.rows[y]) && (cells == "" || (styleOnly && !vfStyleOnly(row, st.rows[y]))) {
			cells = fmt.Sprintf("row %d: have %s want %s", y, row, st.rows[y])
			styleOnly = vfStyleOnly(row, st.rows[y])
		}
		if shadow == "" && !vfRowsEq(row, h.fe.shadow[y]) {
			shadow = fmt.Sprintf("row %d: screen %s, copy kept from notifications %s", y, row, h.fe.shadow[y])
		}
	}
	if cells != "" {
		if styleOnly {
			return "cellstyle", cells
		}
		return "cells", cells
	}
	if pos.X != st.c[0]-1 || pos.Y != st.c[1]-1 {
		return "cursor", fmt.Sprintf("cursor (%d,%d), want (%d,%d)", pos.X, pos.Y, st.c[0]-1, st.c[1]-1)
	}
	if t, b := scr.TopMargin(), scr.BottomMargin(); t != st.c[4]-1 || b != st.c[5]-1 {
		return "margins", fmt.Sprintf("scroll region %d..%d, want %d..%d", t, b, st.c[4]-1, st.c[5]-1)
	}
	if st.c[6] >= 0 {
		if scr.AutoWrap() != (st.c[6] == 1) {
			return "wrap", fmt.Sprintf("autowrap %v", scr.AutoWrap())
		}
	}
	if s != nil {
		sizes := h.be.takeSizes()
		for _, z := range sizes {
			if s.K != "resize" || z != [2]int{s.Z[0], s.Z[1]} {
				return "setsize", fmt.Sprintf("the backend was told %v", sizes)
			}
		}
		if s.K == "resize" && len(sizes) == 0 {
			return "setsize", "the backend was not told"
		}
		torn := s.K != "key" && s.K != "mouse" && s.K != "whole" && h.be.torn(s.O)
		if got := h.be.takeOut(); !bytes.Equal(got, s.O) {
			return "out", fmt.Sprintf("wrote %q, want %q", got, string(s.O))
		}
		if torn {
			return "out", fmt.Sprintf("the reply %q was written in pieces, between which other input can get", string(s.O))
		}
		if h.fe.bell != s.Bell {
			return "bell", fmt.Sprintf("%d bells, want %d", h.fe.bell, s.Bell)
		}
		if ev := vfEvents(s.Ev); strings.Join(ev, " ") != strings.Join(h.fe.ev, " ") {
			return "events", fmt.Sprintf("view notifications %v, want %v", h.fe.ev, ev)
		}
	}
	for i := range st.vf {
		want := st.vf[i] == 1
		if h.t.viewFlags[i] != want {
			return "flags", fmt.Sprintf("view flag %d is %v", i, !want)
		}
		if got, ok := h.fe.flags[ViewFlag(i)]; ok && got != want {
			return "lastview", fmt.Sprintf("frontend last heard flag %d = %v", i, got)
		}
	}
	for i := range st.vi {
		if h.t.viewInts[i] != st.vi[i] {
			return "flags", fmt.Sprintf("view int %d is %d, want %d", i, h.t.viewInts[i], st.vi[i])
		}
		if got, ok := h.fe.ints[ViewInt(i)]; ok && got != st.vi[i] {
			return "lastview", fmt.Sprintf("frontend last heard int %d = %v", i, got)
		}
	}
	if s2 := scr.Style(); vfStyle(s2) != st.st {
		return "style", fmt.Sprintf("rendition %s, want %s", vfStyle(s2), st.st)
	}
	if kb := vfKbFlags(h.t, vfOnAlt(h.t)); kb != st.kbf {
		return "kb", fmt.Sprintf("keyboard flags %d, want %d", kb, st.kbf)
	}
	// what the frontend knows
	if h.fe.problem != "" {
		return "contract", h.fe.problem
	}
	if shadow != "" {
		return "shadow", shadow
	}
	if h.fe.moved && (h.fe.cx != pos.X || h.fe.cy != pos.Y) || !h.fe.moved && (pos.X != 0 || pos.Y != 0) {
		return "lastcursor", fmt.Sprintf("frontend last heard cursor (%d,%d), it is at %v", h.fe.cx, h.fe.cy, pos)
	}
	if h.fe.styled && h.fe.style != st.st || !h.fe.styled && st.st != "0,0,0,0" {
		return "laststyle", fmt.Sprintf("frontend last heard style %s, rendition is %s", h.fe.style, st.st)
	}
	if s != nil {
		if len(h.fe.sback) != len(s.Sb) {
			return "sback", fmt.Sprintf("%d rows announced through ScrollLines, want %d", len(h.fe.sback), len(s.Sb))
		}
		for i := range s.Sb {
			if !vfRowsEq(h.fe.sback[i], s.Sb[i]) {
				return "sback", fmt.Sprintf("scrolled-off row %d is %s, want %s", i, h.fe.sback[i], s.Sb[i])
			}
		}
	}
	return "", ""
}

func vfEvents(evs [][]json.RawMessage) []string {
	var out []string
	for _, e := range evs {
		var kind string
		var i int
		_ = json.Unmarshal(e[0], &kind)
		_ = json.Unmarshal(e[1], &i)
		if kind == "s" {
			var b []byte
			for _, x := range e[2:] {
				var v int
				_ = json.Unmarshal(x, &v)
				b = append(b, byte(v))
			}
			out = append(out, fmt.Sprintf("s,%d,%x", i, string(b)))
			continue
		}
		var v int
		_ = json.Unmarshal(e[2], &v)
		out = append(out, fmt.Sprintf("%s,%d,%d", kind, i, v))
	}
	return out
}

// ansiRoundTrip feeds ANSILine of every row into a fresh terminal.
func (h *vfHost) ansiRoundTrip(st *vfState) string {
	var in bytes.Buffer
	h.t.Lock()
	for y := 0; y < st.h; y++ {
		fmt.Fprintf(&in, "\x1b[%d;1H", y+1)
		in.WriteString(h.term.ANSILine(y))
	}
	h.t.Unlock()
	o := vfNewHost(st.w, st.h, "span", h.graph, false)
	defer o.close()
	if why := o.feed(in.Bytes()); why != "" {
		return "fresh terminal: " + why
	}
	o.t.Lock()
	defer o.t.Unlock()
	for y := 0; y < st.h; y++ {
		row, _ := vfExpand(o.term.StyledLine(0, st.w, y), st.w, h.graph)
		if !vfRowsEq(row, st.rows[y]) {
			h.t.Lock()
			src := h.term.ANSILine(y)
			h.t.Unlock()
			return fmt.Sprintf("row %d %q reproduces %s, not %s", y, src, row, st.rows[y])
		}
	}
	return ""
}

// vfCheckWidths compares the specification's width table (VF_WIDTHS, made of
// "lo-hi" ranges of two cells) with the library, for every code point.
func vfCheckWidths() string {
	tbl := os.Getenv("VF_WIDTHS")
	if tbl == "" {
		return ""
	}
	wide := map[rune]int{11834: 3, 11835: 4}
	for _, f := range strings.Fields(tbl) {
		var lo, hi rune
		if _, err := fmt.Sscanf(f, "%d-%d", &lo, &hi); err != nil {
			return err.Error()
		}
		for r := lo; r <= hi; r++ {
			wide[r] = 2
		}
	}
	for r := rune(0); r <= utf8.MaxRune; r++ {
		if r >= 0xd800 && r < 0xe000 {
			continue
		}
		w := wide[r]
		if w == 0 {
			w = 1
		}
		if got := vfRuneWidth(r); got != w {
			return fmt.Sprintf("width table: U+%04X is %d cells in the library, %d in the specification", r, got, w)
		}
	}
	return ""
}
