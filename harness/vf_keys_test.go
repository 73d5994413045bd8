package termemu

// Key events: every line of a file written by KeyEnum.tla is a keyboard
// configuration, a key, and the bytes required for every modifier mask and
// event type.

import (
	"bufio"
	"compress/gzip"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"strconv"
	"strings"
	"testing"
)

var vfKeyCodes = [112]KeyCode{KeyRune, KeyUp, KeyDown, KeyRight, KeyLeft, KeyHome, KeyEnd, KeyInsert, KeyDelete, KeyPageUp, KeyPageDown,
	KeyBackspace, KeyTab, KeyEnter, KeyEscape, KeyF1, KeyF2, KeyF3, KeyF4, KeyF5, KeyF6, KeyF7, KeyF8, KeyF9, KeyF10, KeyF11, KeyF12, KeyF13,
	KeyF14, KeyF15, KeyF16, KeyF17, KeyF18, KeyF19, KeyF20, KeyF21, KeyF22, KeyF23, KeyF24, KeyF25, KeyF26, KeyF27, KeyF28, KeyF29, KeyF30,
	KeyF31, KeyF32, KeyF33, KeyF34, KeyF35, KeyCapsLock, KeyScrollLock, KeyNumLock, KeyPrintScreen, KeyPause, KeyMenu, KeyKP0, KeyKP1, KeyKP2,
	KeyKP3, KeyKP4, KeyKP5, KeyKP6, KeyKP7, KeyKP8, KeyKP9, KeyKPDecimal, KeyKPDivide, KeyKPMultiply, KeyKPSubtract, KeyKPAdd, KeyKPEnter,
	KeyKPEqual, KeyKPSeparator, KeyKPLeft, KeyKPRight, KeyKPUp, KeyKPDown, KeyKPPageUp, KeyKPPageDown, KeyKPHome, KeyKPEnd, KeyKPInsert,
	KeyKPDelete, KeyKPBegin, KeyMediaPlay, KeyMediaPause, KeyMediaPlayPause, KeyMediaReverse, KeyMediaStop, KeyMediaFastForward,
	KeyMediaRewind, KeyMediaTrackNext, KeyMediaTrackPrev, KeyMediaRecord, KeyVolumeDown, KeyVolumeUp, KeyVolumeMute, KeyLeftShift,
	KeyLeftControl, KeyLeftAlt, KeyLeftSuper, KeyLeftHyper, KeyLeftMeta, KeyRightShift, KeyRightControl, KeyRightAlt, KeyRightSuper,
	KeyRightHyper, KeyRightMeta, KeyISOLevel3Shift, KeyISOLevel5Shift}

var vfModBits = [8]KeyMod{ModShift, ModAlt, ModCtrl, ModSuper, ModHyper, ModMeta, ModCapsLock, ModNumLock}

type vfKeyRow struct {
	F       int       `json:"f"`
	Mok     int       `json:"mok"`
	App     int       `json:"app"`
	Code    int       `json:"code"`
	Rune    rune      `json:"rune"`
	Shifted rune      `json:"shifted"`
	Base    rune      `json:"base"`
	Text    []rune    `json:"text"`
	Mods    []int     `json:"mods"`
	Enc     [][][]int `json:"enc"`
}

func vfOpenLines(tt *testing.T, file string) (*bufio.Reader, func()) {
	f, err := os.Open(file)
	if err != nil {
		tt.Fatal(err)
	}
	var src io.Reader = f
	if strings.HasSuffix(file, ".gz") {
		if src, err = gzip.NewReader(f); err != nil {
			tt.Fatal(err)
		}
	}
	return bufio.NewReaderSize(src, 1<<20), func() { f.Close() }
}

// vfKeyHost brings a terminal into a keyboard configuration, in one of several ways.
func vfKeyHost(f, mok, app, way int) (*vfHost, string) {
	h := vfNewHost(20, 5, "span", false, way%2 == 1)
	if h.dead {
		return h, h.why
	}
	var sb strings.Builder
	set := func(f int) {
		switch way % 4 {
		case 0:
			fmt.Fprintf(&sb, "\x1b[=%d;1u", f)
		case 1:
			fmt.Fprintf(&sb, "\x1b[=%d;1u\x1b[>%du", f^31, f)
		case 2:
			fmt.Fprintf(&sb, "\x1b[=%d;1u\x1b[=31;3u\x1b[=%d;2u", f^21, f)
		case 3:
			fmt.Fprintf(&sb, "\x1b[=%d;1u\x1b[>%du\x1b[>%du\x1b[<u", f^9, f, f^3)
		}
	}
	mod := func() {
		if mok > 0 || way%3 == 0 {
			fmt.Fprintf(&sb, "\x1b[>4;%dm", mok)
		}
		if app > 0 {
			sb.WriteString("\x1b[?1h")
		} else if way%5 == 0 {
			sb.WriteString("\x1b[?1h\x1b[?1l")
		}
	}
	switch (way / 4) % 3 {
	case 0:
		set(f)
		mod()
	case 1: // on the alternate screen, the main one differing
		fmt.Fprintf(&sb, "\x1b[=%d;1u\x1b[?1049h", f^31)
		mod()
		set(f)
	case 2: // back on the main screen, the alternate one differing
		set(f)
		fmt.Fprintf(&sb, "\x1b[?1049h\x1b[=%d;1u", f^31)
		mod()
		sb.WriteString("\x1b[?1049l")
	}
	return h, h.feed([]byte(sb.String()))
}

func TestVFKeys(tt *testing.T) {
	out := os.Getenv("VF_OUT")
	if out == "" {
		tt.Skip("not configured")
	}
	r := &vfRunner{prop: os.Getenv("VF_PROP"), file: os.Getenv("VF_TRACES"),
		rep: &vfReport{Kinds: map[string]int{}, OtherKinds: map[string]int{}, Extra: map[string]int{}}}
	skip, _ := strconv.Atoi(os.Getenv("VF_SKIP"))
	seed, _ := strconv.Atoi(os.Getenv("VF_SEED"))
	if m := os.Getenv("VF_MARK"); m != "" {
		f, err := os.OpenFile(m, os.O_CREATE|os.O_RDWR, 0o644)
		if err != nil {
			tt.Fatal(err)
		}
		defer f.Close()
		r.mark = f
	}
	br, done := vfOpenLines(tt, r.file)
	defer done()
	hosts := map[[4]int]*vfHost{}
	for i := 0; ; i++ {
		line, err := br.ReadBytes('\n')
		if len(line) < 2 {
			break
		}
		if i < skip {
			continue
		}
		var row vfKeyRow
		if e := json.Unmarshal(line, &row); e != nil {
			tt.Fatal(e)
		}
		r.idx = i
		r.note(0, "key")
		mok, app := row.Mok, row.App
		if row.F != 0 { // neither matters then
			mok, app = (i+seed)%3, (i/3+seed)%2
		}
		way := (i*7 + seed) % 60
		key := [4]int{row.F, mok, app, way}
		h := hosts[key]
		if h == nil {
			var why string
			if h, why = vfKeyHost(row.F, mok, app, way); why != "" {
				// interpreting the application's output failed: not this property's concern
				r.rep.Other++
				r.rep.OtherKinds["key/setup"]++
				break
			}
			hosts[key] = h
		}
		if !r.keys(h, &row, i+seed) {
			break
		}
		if err != nil {
			break
		}
	}
	for _, h := range hosts {
		h.close()
	}
	r.rep.Complete = true
	if err := r.rep.write(out); err != nil {
		tt.Fatal(err)
	}
}

func (r *vfRunner) keys(h *vfHost, row *vfKeyRow, salt int) bool {
	r.rep.Traces++
	for e := range row.Enc {
		for k, cps := range row.Enc[e] {
			m := k
			if len(row.Mods) > 0 {
				m = row.Mods[k]
			}
			ev := KeyEvent{Code: vfKeyCodes[row.Code], Rune: row.Rune, Shifted: row.Shifted, BaseLayout: row.Base, Text: row.Text, Event: []KeyEventType{KeyPress, KeyRepeat, KeyRelease}[e]}
			if e == 0 && (k+salt)%2 == 0 {
				ev.Event = 0
			}
			for b, bit := range vfModBits {
				if m>>b&1 == 1 {
					ev.Mod |= bit
				}
			}
			rs := make([]rune, len(cps))
			for j, c := range cps {
				rs[j] = rune(c)
			}
			want := string(rs)
			r.rep.Steps++
			r.rep.Compared++
			n, err, why := vfGuard(func() (int, error) { return h.term.SendKey(ev) })
			got := string(h.be.takeOut())
			r.rep.Bytes += len(got)
			if why != "" || got != want || n != len(want) || err != nil {
				r.rep.Divergences = append(r.rep.Divergences, vfDivergence{Trace: r.idx, File: r.file, Step: e*256 + k, Kind: "key", Comp: "out", Owners: []string{"C12"},
					Detail: fmt.Sprintf("flags %d modifyOtherKeys %d app-cursor %d: %+v sends %q (%d, %v)%s, want %q", row.F, row.Mok, row.App, ev, got, n, err, why, want)})
				return false
			}
		}
	}
	kind := "functional"
	if row.Code == 0 {
		kind = "text"
	}
	r.rep.Kinds[fmt.Sprintf("%s/flags%d", kind, row.F)]++
	if len(r.rep.Samples) < 2 {
		r.rep.Samples = append(r.rep.Samples, fmt.Sprintf("flags %d modifyOtherKeys %d app %d code %d rune %d: %d events conform", row.F, row.Mok, row.App, row.Code, row.Rune, 3*len(row.Enc[0])))
	}
	return true
}

// vfGuard calls f, which may panic or never return.
func vfGuard(f func() (int, error)) (n int, err error, why string) {
	defer func() {
		if p := recover(); p != nil {
			why = fmt.Sprintf(" panic: %v\n%s", p, vfShortStack())
		}
	}()
	n, err = f()
	return
}
