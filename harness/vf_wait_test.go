package termemu

// Every call of the API while the read loop waits for input or for its tee, at
// every point of the input, from within the tee's writer and from beside it;
// and while another call waits for the application to take its bytes.
// (Lock.tla: none of these holds anything the call needs.)

import (
	"fmt"
	"io"
	"os"
	"sync"
	"testing"
	"time"
)

type vfGate struct {
	mu   sync.Mutex
	in   func()        // run inside the tee's Write, once
	hit  chan struct{} // told when the tee's Write has been entered
	hold chan struct{} // what it waits for
	got  []byte
}

func (g *vfGate) Write(p []byte) (int, error) {
	g.mu.Lock()
	g.got = append(g.got, p...)
	f, hit, hold := g.in, g.hit, g.hold
	g.in, g.hit, g.hold = nil, nil, nil
	g.mu.Unlock()
	if f != nil {
		f()
	}
	if hit != nil {
		close(hit)
	}
	if hold != nil {
		<-hold
	}
	return len(p), nil
}

// vfWaitBack is a backend whose input comes through a pipe and whose writes can be made to wait.
type vfWaitBack struct {
	r    *io.PipeReader
	mu   sync.Mutex
	hit  chan struct{}
	hold chan struct{}
}

func (b *vfWaitBack) Read(p []byte) (int, error) { return b.r.Read(p) }
func (b *vfWaitBack) Write(p []byte) (int, error) {
	b.mu.Lock()
	hit, hold := b.hit, b.hold
	b.hit, b.hold = nil, nil
	b.mu.Unlock()
	if hold != nil {
		close(hit)
		<-hold
	}
	return len(p), nil
}
func (b *vfWaitBack) SetSize(w, h int) error { return nil }

var vfWaitCuts = []string{"a", "\x1b", "\x1b[", "\x1b[?", "\x1b[12", "\x1b[1;2", "\x1b]", "\x1b]2;ti", "\x1b]2;ti\x1b", "\x1bP1", "\x1bP1\x1b", "\x1b(", "\x1b[ ", "\xe4\xb8", "\x1b]0;\xc3",
	"ab\r\n\x1b[31mcd", "\x1b[?1049h", "\x1b[6n", "x\x1b[?1000;1006h", "\x00", "\x1b[1!", "\xff", "e\u0301"}

type vfWaitCall struct {
	name   string
	writes bool
	f      func(t Terminal, tee *TeeBackend)
}

var vfWaitCalls = []vfWaitCall{
	{"WithLock", false, func(t Terminal, _ *TeeBackend) {
		t.WithLock(func() {
			_, h := t.Size()
			for y := 0; y < h; y++ {
				t.Line(y)
				t.ANSILine(y)
			}
		})
	}},
	{"Lock", false, func(t Terminal, _ *TeeBackend) { t.Lock(); t.Size(); t.Unlock() }},
	{"Resize", false, func(t Terminal, _ *TeeBackend) { _ = t.Resize(9, 3) }},
	{"SetTee", false, func(t Terminal, tee *TeeBackend) { tee.SetTee(io.Discard) }},
	{"Write", true, func(t Terminal, _ *TeeBackend) { _, _ = t.Write([]byte("in")) }},
	{"SendKey", true, func(t Terminal, _ *TeeBackend) { _, _ = t.SendKey(KeyEvent{Code: KeyUp, Event: KeyPress}) }},
	{"SendMouseRaw", true, func(t Terminal, _ *TeeBackend) {
		_ = t.(interface {
			SendMouseRaw(MouseBtn, bool, MouseFlag, int, int) error
		}).SendMouseRaw(MBtn1, true, 0, 2, 2)
	}},
}

func TestVFWait(tt *testing.T) {
	out := os.Getenv("VF_OUT")
	if out == "" {
		tt.Skip("not configured")
	}
	r := &vfRunner{prop: os.Getenv("VF_PROP"), rep: &vfReport{Kinds: map[string]int{}, OtherKinds: map[string]int{}, Extra: map[string]int{}}}
	for _, mode := range []TextReadMode{TextReadModeRune, TextReadModeGrapheme} {
		for _, cut := range vfWaitCuts {
			for _, c := range vfWaitCalls {
				for _, where := range []string{"inside the tee's writer", "while the tee's writer waits", "while the loop waits for input"} {
					vfWaitOne(r, mode, cut, c, where)
					if len(r.rep.Divergences) > 0 {
						goto done
					}
				}
			}
		}
	}
	// a writer waits for the application, everybody else goes on
	for _, a := range vfWaitCalls {
		for _, b := range vfWaitCalls {
			if a.writes && !b.writes {
				vfWaitWriter(r, a, b)
			}
			if len(r.rep.Divergences) > 0 {
				goto done
			}
		}
	}
done:
	r.rep.Complete = true
	if err := r.rep.write(out); err != nil {
		tt.Fatal(err)
	}
}

func (r *vfRunner) waitBad(kind, f string, a ...any) {
	r.rep.Divergences = append(r.rep.Divergences, vfDivergence{Kind: "conc", Comp: kind, Owners: []string{"C15"}, Detail: fmt.Sprintf(f, a...)})
}

// within runs f and reports whether it came back.
func vfWithin(f func()) bool {
	done := make(chan struct{})
	go func() { f(); close(done) }()
	select {
	case <-done:
		return true
	case <-time.After(vfPatience):
		return false
	}
}

func vfWaitOne(r *vfRunner, mode TextReadMode, cut string, c vfWaitCall, where string) {
	pr, pw := io.Pipe()
	be := &vfWaitBack{r: pr}
	tee := NewTeeBackend(be)
	g := &vfGate{}
	tee.SetTee(g)
	t := NewWithMode(nil, tee, mode)
	_ = t.Resize(8, 2)
	fed := func(s string) bool { return vfWithin(func() { _, _ = pw.Write([]byte(s)) }) }
	ok := true
	switch where {
	case "inside the tee's writer":
		in := make(chan struct{})
		g.mu.Lock()
		g.in = func() { c.f(t, tee); close(in) }
		g.mu.Unlock()
		ok = fed(cut) && vfWithin(func() { <-in })
	case "while the tee's writer waits":
		hit, hold := make(chan struct{}), make(chan struct{})
		g.mu.Lock()
		g.hit, g.hold = hit, hold
		g.mu.Unlock()
		ok = fed(cut) && vfWithin(func() { <-hit; c.f(t, tee) })
		close(hold)
	default:
		// the pipe has been emptied, and the loop is back for more or will be
		ok = fed(cut) && vfWithin(func() { c.f(t, tee) })
	}
	if !ok {
		r.waitBad("hang", "%s does not return %s, behind %q", c.name, where, cut)
		_ = pw.Close()
		return
	}
	// the loop goes on, and ends with the input
	if !fed("\x07z\x1b\\\x1b[0m.") {
		r.waitBad("hang", "the loop takes no more input after %s %s, behind %q", c.name, where, cut)
		return
	}
	_ = pw.Close()
	if d := t.(*terminal).readLoopDone; !vfWithin(func() { <-d }) {
		r.waitBad("hang", "the loop does not end after %s %s, behind %q", c.name, where, cut)
		return
	}
	if !vfWithin(func() { t.WithLock(func() { t.Size() }) }) {
		r.waitBad("hang", "the terminal is still locked after the loop has ended, %s %s, behind %q", c.name, where, cut)
		return
	}
	r.rep.Kinds["wait"]++
	r.rep.Steps++
}

func vfWaitWriter(r *vfRunner, a, b vfWaitCall) {
	pr, pw := io.Pipe()
	be := &vfWaitBack{r: pr}
	tee := NewTeeBackend(be)
	t := NewWithMode(nil, tee, TextReadModeRune)
	_ = t.Resize(8, 2)
	if !vfWithin(func() { _, _ = pw.Write([]byte("\x1b[?1000h")); _, _ = pw.Write([]byte("x")) }) {
		r.waitBad("hang", "the loop takes no input")
		return
	}
	// (the pipe hands over the second write only when the first has been interpreted, or is waiting for the lock)
	for i := 0; i < 1000; i++ {
		on := false
		t.WithLock(func() { on = t.Line(0) == "x       " })
		if on {
			break
		}
		time.Sleep(time.Millisecond)
	}
	hit, hold := make(chan struct{}), make(chan struct{})
	be.mu.Lock()
	be.hit, be.hold = hit, hold
	be.mu.Unlock()
	ended := make(chan struct{})
	go func() { a.f(t, tee); close(ended) }()
	ok := vfWithin(func() { <-hit; b.f(t, tee) }) && vfWithin(func() { _, _ = pw.Write([]byte("\x1b[1mabc")); _, _ = pw.Write([]byte("\x1b[")) })
	close(hold)
	if !ok {
		r.waitBad("hang", "%s does not return, or the loop does not go on, while the application does not take what %s writes", b.name, a.name)
		_ = pw.Close()
		return
	}
	if !vfWithin(func() { <-ended }) {
		r.waitBad("hang", "%s does not return after the application has taken its bytes", a.name)
	}
	_ = pw.Close()
	if d := t.(*terminal).readLoopDone; !vfWithin(func() { <-d }) {
		r.waitBad("hang", "the loop does not end")
	}
	r.rep.Kinds["wait"]++
	r.rep.Steps++
}
