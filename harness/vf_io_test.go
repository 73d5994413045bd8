package termemu

// The read loop over scripted backends (scripts written by ReadLoop.tla), and
// Terminal.Write over backends that accept what WriteAll.tla says.

import (
	"bufio"
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"

	"github.com/creack/pty"
)

type vfScript struct {
	Offers [][2]int `json:"offers"`
	E      int      `json:"e"`
	Total  int      `json:"total"`
}

type vfOffer struct {
	n   int
	err error
}

// vfScripted answers reads as its script says.
type vfScripted struct {
	*vfBackend
	gate   chan struct{}
	offers []vfOffer
	last   error
	data   []byte

	mu     sync.Mutex
	given  []byte
	reads  int
	failed int // reads answered with (0, error)
	onRead func(k int)
}

func (b *vfScripted) Read(p []byte) (int, error) {
	<-b.gate
	b.mu.Lock()
	defer b.mu.Unlock()
	b.reads++
	if b.onRead != nil {
		b.onRead(b.reads)
	}
	if len(b.offers) == 0 {
		b.failed++
		if b.failed > 5 {
			time.Sleep(time.Millisecond) // it does not stop
		}
		return 0, b.last
	}
	o := &b.offers[0]
	n := o.n
	if n > len(p) {
		n = len(p)
	}
	copy(p, b.data[len(b.given):len(b.given)+n])
	b.given = append(b.given, b.data[len(b.given):len(b.given)+n]...)
	// what lies beyond the bytes returned is not input
	for i := n; i < len(p) && i < n+8; i++ {
		p[i] = "\x1b[2J\x1bcZ!"[i-n]
	}
	o.n -= n
	if o.n > 0 {
		return n, nil
	}
	err := o.err
	b.offers = b.offers[1:]
	if n == 0 && err != nil {
		b.failed++
	}
	return n, err
}

var errVfRead = errors.New("injected read failure")

// vfReadErr is the error of outcome e (0 none, 1 end of file, 2 failure) in
// variant k: a loop has to stop at any error, not only at those it knows.
func vfReadErr(e, k int) error {
	return []error{nil, io.EOF, []error{errVfRead, syscall.EINTR, io.ErrNoProgress, &os.PathError{Op: "read", Path: "/dev/ptmx", Err: syscall.EIO},
		syscall.EAGAIN, os.ErrDeadlineExceeded, io.ErrUnexpectedEOF, os.ErrClosed, io.ErrShortBuffer, io.ErrClosedPipe,
		fmt.Errorf("wrapped: %w", io.EOF), bufio.ErrBufferFull}[k%12]}[e]
}

// vfWriteErr is an error of a writer.
func vfWriteErr(k int) error {
	return []error{errVfInjected, syscall.EINTR, syscall.EAGAIN, os.ErrDeadlineExceeded, &os.PathError{Op: "write", Path: "/dev/ptmx", Err: syscall.EIO},
		io.EOF, syscall.EPIPE, io.ErrClosedPipe}[k%8]
}

type vfTeeRec struct {
	buf   bytes.Buffer
	fail  bool
	calls int
}

func (t *vfTeeRec) Write(p []byte) (int, error) {
	t.calls++
	if t.fail {
		return len(p) / 2, errVfInjected
	}
	return t.buf.Write(p)
}

func vfReadTraces(tt *testing.T, files string, max int) (out []vfTrace) {
	for _, f := range strings.Fields(files) {
		br, done := vfOpenLines(tt, f)
		for n := 0; n < max; n++ {
			line, err := br.ReadBytes('\n')
			if len(line) < 2 {
				break
			}
			var tr vfTrace
			if e := json.Unmarshal(line, &tr); e != nil {
				tt.Fatal(e)
			}
			out = append(out, tr)
			if err != nil {
				break
			}
		}
		done()
	}
	return out
}

// vfHasNoPrefixEffect: a proper prefix of a step of this kind does nothing
func vfHasNoPrefixEffect(s *vfStep) bool {
	switch s.K {
	case "text", "bad", "osc", "dcs", "st", "setup", "key", "mouse", "resize":
		return false
	}
	return len(s.B) > 1 && s.B[0] == 27
}

func TestVFIO(tt *testing.T) {
	out := os.Getenv("VF_OUT")
	if out == "" {
		tt.Skip("not configured")
	}
	r := &vfRunner{prop: os.Getenv("VF_PROP"), file: os.Getenv("VF_TRACES"),
		rep: &vfReport{Kinds: map[string]int{}, OtherKinds: map[string]int{}, Extra: map[string]int{}}}
	seed, _ := strconv.ParseInt(os.Getenv("VF_SEED"), 10, 64)
	trs := vfReadTraces(tt, os.Getenv("VF_BEHAVIOURS"), 400)
	if len(trs) == 0 {
		tt.Fatal("no behaviours")
	}
	br, done := vfOpenLines(tt, r.file)
	defer done()
	for i := 0; ; i++ {
		line, err := br.ReadBytes('\n')
		if len(line) < 2 {
			break
		}
		var sc vfScript
		if e := json.Unmarshal(line, &sc); e != nil {
			tt.Fatal(e)
		}
		r.idx = i
		r.rng = rand.New(rand.NewSource(seed*1000003 + int64(i)))
		r.script(&sc, &trs[(i+int(seed)*97)%len(trs)], i)
		if len(r.rep.Divergences) >= 3 || r.rep.Other > 50 || err != nil {
			break
		}
	}
	r.rep.Complete = true
	if err := r.rep.write(out); err != nil {
		tt.Fatal(err)
	}
}

func (r *vfRunner) script(sc *vfScript, tr *vfTrace, idx int) {
	const S = graphemeReadBufferSizeVF
	total := 0
	var offers []vfOffer
	for i, u := range sc.Offers {
		o := vfOffer{n: u[0]*S + u[1]}
		if i == len(sc.Offers)-1 {
			o.err = vfReadErr(sc.E, idx/4)
		}
		total += o.n
		offers = append(offers, o)
	}
	// as many whole steps as there is room for, or fewer
	room, k := total, 0
	for k < len(tr.Steps) && !vfIsCall(tr.Steps[k].K) && tr.Steps[k].C != nil && len(tr.Steps[k].B) <= room {
		room -= len(tr.Steps[k].B)
		k++
	}
	if k > 0 && r.rng.Intn(3) == 0 {
		cut := 1 + r.rng.Intn(k)
		for k > cut {
			k--
			room += len(tr.Steps[k].B)
		}
	}
	var partial []byte
	if k < len(tr.Steps) && room > 0 && r.rng.Intn(2) == 0 {
		if s := &tr.Steps[k]; vfHasNoPrefixEffect(s) {
			n := 1 + r.rng.Intn(len(s.B)-1)
			if n <= room {
				partial = s.B[:n]
			}
		} else if s.K == "text" && len(s.B) > 1 && s.B[0] >= 0xc2 {
			partial = s.B[:1]
		}
	}
	room -= len(partial)
	// the rest are NULs, in front of one or two steps
	var places []int
	for i := 0; i <= k; i++ {
		if i == 0 || i < len(tr.Steps) && vfPadOK(tr, i) && !vfIsCall(tr.Steps[i].K) {
			places = append(places, i)
		}
	}
	pads := map[int]int{}
	if room > 0 {
		a := r.rng.Intn(room + 1)
		pads[places[r.rng.Intn(len(places))]] += a
		pads[places[r.rng.Intn(len(places))]] += room - a
	}
	var data []byte
	st := &vfState{}
	st.init(tr)
	acc := vfStep{K: "whole"}
	for i := 0; i <= k; i++ {
		data = append(data, make([]byte, pads[i])...)
		if i == k {
			break
		}
		s := &tr.Steps[i]
		data = append(data, s.B...)
		st.apply(s)
		acc.O = append(acc.O, s.O...)
		acc.Bell += s.Bell
		acc.Ev = append(acc.Ev, s.Ev...)
		acc.Sb = append(acc.Sb, s.Sb...)
	}
	data = append(data, partial...)

	be := &vfScripted{vfBackend: newVfBackend(), gate: make(chan struct{}), offers: offers, last: vfReadErr(sc.E, idx/4), data: data}
	fe := newVfFrontend(false)
	var tee *TeeBackend
	var t1, t2 vfTeeRec
	var use Backend = be
	switch idx % 4 {
	case 1:
		tee = NewTeeBackend(be)
		tee.SetTee(&t1)
		use = tee
	case 2:
		tee = NewTeeBackend(be)
		t1.fail = true
		tee.SetTee(&t1)
		use = tee
	case 3: // another writer from some read on
		tee = NewTeeBackend(be)
		tee.SetTee(&t1)
		at := 1 + r.rng.Intn(len(offers)+1)
		be.onRead = func(n int) {
			if n == at {
				tee.SetTee(&t2)
			}
		}
		use = tee
	}
	var t *terminal
	if tr.Buf == "grid" {
		t = newTerminal(fe, use, TextReadModeRune)
		t.mainScreen = newGridScreen(fe)
		t.altScreen = newGridScreen(fe)
		t.SetFrontend(fe)
		t.startReadLoop()
	} else {
		t = NewWithMode(fe, use, TextReadModeRune).(*terminal)
	}
	h := &vfHost{t: t, term: t, be: be.vfBackend, fe: fe}
	_ = t.Resize(tr.W, tr.H)
	t.Lock()
	fe.t = t
	fe.refresh()
	fe.beginStep()
	t.Unlock()
	bad := func(what string) {
		r.rep.Divergences = append(r.rep.Divergences, vfDivergence{Trace: r.idx, File: r.file, Step: k, Kind: "io", Comp: "io", Owners: []string{"C16"},
			Detail: what, Context: fmt.Sprintf("%dx%d %s offers %v ending with %v; %d steps of a %s behaviour, %d bytes", tr.W, tr.H, tr.Buf, sc.Offers, be.last, k, tr.Profile, len(data))})
	}
	if z := be.takeSizes(); len(z) != 1 || z[0] != [2]int{tr.W, tr.H} {
		bad(fmt.Sprintf("Resize(%d,%d) told the backend %v", tr.W, tr.H, z))
		return
	}
	close(be.gate)
	r.rep.Traces++
	r.rep.Steps += k
	r.rep.Bytes += total
	select {
	case <-t.readLoopDone:
	case <-time.After(vfPatience):
		be.mu.Lock()
		n, f := be.reads, be.failed
		be.mu.Unlock()
		bad(fmt.Sprintf("the loop has not stopped: %d reads made, %d of them failed", n, f))
		return
	}
	if !bytes.Equal(be.given, data) {
		bad(fmt.Sprintf("stopped after %d of %d bytes", len(be.given), len(data)))
		return
	}
	if tee != nil && !t1.fail {
		if got := append(append([]byte(nil), t1.buf.Bytes()...), t2.buf.Bytes()...); !bytes.Equal(got, data) {
			bad(fmt.Sprintf("the tee received %d bytes, the backend returned %d: %s", len(got), len(data), vfDiffAt(string(got), string(data))))
			return
		}
		r.rep.Extra["tee_bytes"] += len(data)
	}
	r.rep.Compared++
	if comp, d := h.compare(st, &acc); comp != "" {
		// is it the delivery, or does the terminal differ on any delivery?
		o := vfNewHost(tr.W, tr.H, tr.Buf, false, false)
		defer o.close()
		o.fe.beginStep()
		o.be.takeOut()
		why := o.feed(data)
		if why == "" {
			if comp, _ := o.compare(st, &acc); comp == "" {
				bad(comp + ": " + d)
				return
			}
		}
		r.rep.Other++
		r.rep.OtherKinds["io/"+comp]++
		return
	}
	r.rep.Kinds[fmt.Sprintf("offers%d", len(offers))]++
	if len(r.rep.Samples) < 2 {
		r.rep.Samples = append(r.rep.Samples, fmt.Sprintf("reads %v then %v: %d bytes, %d steps conform", sc.Offers, be.last, total, k))
	}
}

// graphemeReadBufferSizeVF is what S of the specification stands for.
const graphemeReadBufferSizeVF = 4096

// ---------------------------------------------------------------- Write

type vfWriteScript struct {
	Len     int      `json:"len"`
	Log     [][2]int `json:"log"`
	N       int      `json:"n"`
	Outcome string   `json:"outcome"`
}

type vfWriter struct {
	log   [][2]int
	scale int
	got   []byte
	calls int
	after int
	err   error
}

func (w *vfWriter) Read([]byte) (int, error) { return 0, io.EOF }
func (w *vfWriter) SetSize(int, int) error   { return nil }
func (w *vfWriter) Write(p []byte) (int, error) {
	w.calls++
	if w.calls > 1000 {
		panic("Write does not give up")
	}
	if len(w.log) == 0 {
		w.after++
		return 0, w.err
	}
	n, e := w.log[0][0]*w.scale, w.log[0][1]
	if n > len(p) {
		n = len(p)
	}
	w.got = append(w.got, p[:n]...)
	if n == 0 && e == 0 {
		return 0, nil // and so for ever
	}
	w.log = w.log[1:]
	if e == 1 {
		return n, w.err
	}
	return n, nil
}

func TestVFWrites(tt *testing.T) {
	out := os.Getenv("VF_OUT")
	if out == "" {
		tt.Skip("not configured")
	}
	r := &vfRunner{prop: os.Getenv("VF_PROP"), file: os.Getenv("VF_TRACES"),
		rep: &vfReport{Kinds: map[string]int{}, OtherKinds: map[string]int{}, Extra: map[string]int{}}}
	br, done := vfOpenLines(tt, r.file)
	defer done()
	nw := 0
	for i := 0; ; i++ {
		line, err := br.ReadBytes('\n')
		if len(line) < 2 {
			break
		}
		var sc vfWriteScript
		if e := json.Unmarshal(line, &sc); e != nil {
			tt.Fatal(e)
		}
		for _, scale := range []int{1, 3, 5000} {
			for _, wrap := range []string{"plain", "tee", "nopty"} {
				w := &vfWriter{log: append([][2]int(nil), sc.Log...), scale: scale, err: vfWriteErr(nw)}
				nw++
				var be Backend = w
				switch wrap {
				case "tee":
					be = NewTeeBackend(w)
				case "nopty":
					be = NewNoPTYBackend(w, w)
				}
				t := newTerminal(nil, be, TextReadModeRune)
				p := make([]byte, sc.Len*scale)
				for k := range p {
					p[k] = byte(k*7 + k>>8)
				}
				orig := append([]byte(nil), p...)
				n, err, why := vfGuard(func() (int, error) { return t.Write(p) })
				want := sc.N * scale
				r.rep.Traces++
				r.rep.Steps += len(sc.Log)
				r.rep.Bytes += len(p)
				r.rep.Compared++
				ok := why == "" && n == want && bytes.Equal(w.got, orig[:want]) && bytes.Equal(p, orig)
				switch sc.Outcome {
				case "ok":
					ok = ok && err == nil
				case "error":
					ok = ok && errors.Is(err, w.err)
				case "short":
					ok = ok && err != nil
				}
				if !ok {
					r.rep.Divergences = append(r.rep.Divergences, vfDivergence{Trace: i, File: r.file, Kind: "write", Comp: "write", Owners: []string{"C16"},
						Detail: fmt.Sprintf("%s backend, scale %d: Write of %d bytes with responses %v returned (%d, %v)%s after %d bytes were accepted, want %d and outcome %q",
							wrap, scale, len(p), sc.Log, n, err, why, len(w.got), want, sc.Outcome)})
				}
			}
		}
		r.rep.Kinds["write/"+sc.Outcome]++
		if len(r.rep.Divergences) >= 3 || err != nil {
			break
		}
	}
	r.rep.Complete = true
	if err := r.rep.write(out); err != nil {
		tt.Fatal(err)
	}
}

// ---------------------------------------------------------------- PTY

func TestVFPty(tt *testing.T) {
	out := os.Getenv("VF_OUT")
	if out == "" {
		tt.Skip("not configured")
	}
	r := &vfRunner{prop: os.Getenv("VF_PROP"), rep: &vfReport{Kinds: map[string]int{}, OtherKinds: map[string]int{}, Extra: map[string]int{}}}
	bad := func(f string, a ...any) {
		r.rep.Divergences = append(r.rep.Divergences, vfDivergence{Kind: "pty", Comp: "pty", Owners: []string{"C16"}, Detail: fmt.Sprintf(f, a...)})
	}
	func() {
		for _, viaTee := range []bool{false, true} {
			pb := &PTYBackend{}
			slave, err := pb.Open()
			if err != nil {
				r.rep.Extra["no_pty"]++
				return
			}
			var be Backend = pb
			var rec vfTeeRec
			if viaTee {
				tb := NewTeeBackend(pb)
				tb.SetTee(&rec)
				be = tb
			}
			t := NewWithMode(nil, be, TextReadModeRune).(*terminal)
			for _, s := range [][2]int{{80, 24}, {24, 80}, {1, 1}, {1, 300}, {300, 1}, {132, 43}, {255, 256}, {256, 255}, {1000, 2}, {3, 7}} {
				if err := t.Resize(s[0], s[1]); err != nil {
					bad("Resize(%d,%d): %v", s[0], s[1], err)
					return
				}
				rows, cols, err := pty.Getsize(slave)
				if err != nil || rows != s[1] || cols != s[0] {
					bad("after Resize(%d,%d) the PTY reports %d rows and %d columns (%v)", s[0], s[1], rows, cols, err)
					return
				}
				t.Lock()
				w, h := t.Size()
				t.Unlock()
				if w != s[0] || h != s[1] {
					bad("Resize(%d,%d): Size is %d,%d", s[0], s[1], w, h)
					return
				}
				r.rep.Steps++
				r.rep.Kinds["pty-resize"]++
			}
			_ = t.Resize(40, 4)
			if _, err := slave.Write([]byte("\x1b[31mabc\x1b[2;3Hxy")); err != nil {
				r.rep.Extra["no_pty"]++
				return
			}
			ok := false
			for i := 0; i < 1000 && !ok; i++ {
				t.Lock()
				ok = strings.HasPrefix(t.Line(0), "abc") && strings.HasPrefix(t.Line(1), "  xy")
				t.Unlock()
				if !ok {
					time.Sleep(5 * time.Millisecond)
				}
			}
			if !ok {
				bad("what was written to the PTY slave does not reach the screen")
				return
			}
			if n, err := t.Write([]byte("line\r")); n != 5 || err != nil {
				bad("Write returned (%d, %v)", n, err)
				return
			}
			buf := make([]byte, 64)
			n, _ := slave.Read(buf)
			if string(buf[:n]) != "line\n" {
				bad("the PTY slave read %q", buf[:n])
				return
			}
			_ = slave.Close()
			select {
			case <-t.readLoopDone:
			case <-time.After(vfPatience):
				bad("the loop has not stopped after the PTY was closed")
				return
			}
			if viaTee && !bytes.HasPrefix(rec.buf.Bytes(), []byte("\x1b[31mabc\x1b[2;3Hxy")) {
				bad("the tee of a PTY received %q", rec.buf.Bytes())
				return
			}
			r.rep.Traces++
		}
		// a command sees the size
		if _, err := exec.LookPath("stty"); err != nil {
			return
		}
		pb := &PTYBackend{}
		cmd := exec.Command("sh", "-c", "read x; stty size")
		cmd.Env = append(os.Environ(), "TERM=dumb")
		if err := pb.StartCommand(cmd); err != nil {
			r.rep.Extra["no_pty"]++
			return
		}
		t := NewWithMode(nil, pb, TextReadModeRune).(*terminal)
		if err := t.Resize(61, 17); err != nil {
			bad("Resize: %v", err)
		}
		_, _ = t.Write([]byte("\r"))
		select {
		case <-t.readLoopDone:
		case <-time.After(vfPatience):
			bad("the loop has not stopped after the command ended")
		}
		_ = cmd.Wait()
		txt := ""
		t.Lock()
		for y := 0; y < 17; y++ {
			txt += t.Line(y) + "\n"
		}
		t.Unlock()
		if !strings.Contains(txt, "17 61") {
			bad("after Resize(61,17) the command's stty reports: %q", strings.TrimSpace(txt))
		}
		r.rep.Kinds["pty-command"]++
	}()
	r.rep.Complete = true
	if err := r.rep.write(out); err != nil {
		tt.Fatal(err)
	}
}
