package termemu

// Mouse events: every line of a file written by MouseEnum.tla is a tracking
// mode, an encoding, a place, and the report required for every button,
// press/release and flag set.

import (
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"strconv"
	"strings"
	"testing"
)

type vfMouser interface {
	SendMouseRaw(btn MouseBtn, press bool, mods MouseFlag, x, y int) error
}

type vfMouseRow struct {
	Mode int       `json:"mode"`
	Enc  int       `json:"enc"`
	X    int       `json:"x"`
	Y    int       `json:"y"`
	R    []vfBytes `json:"r"`
}

var vfBtns = [4]MouseBtn{MBtn1, MBtn2, MBtn3, MRelease}
var vfMouseBits = [5]MouseFlag{MShift, MMeta, MControl, MMotion, MWheel}

// vfMouseHost selects a tracking mode and an encoding, in one of several ways.
func vfMouseHost(mode, enc, way int) (*vfHost, string) {
	h := vfNewHost(20, 5, "span", way%3 == 2, way%2 == 1)
	if h.dead {
		return h, h.why
	}
	num := []int{1000, 9, 1000, 1002, 1003}
	var sb strings.Builder
	other := 1 + (mode+way/2)%4
	selMode := func() {
		switch way % 3 {
		case 1: // replacing another mode
			fmt.Fprintf(&sb, "\x1b[?%dh", num[other])
			if mode == 0 {
				fmt.Fprintf(&sb, "\x1b[?%dl", num[other])
			}
		case 2: // switched off, and on again
			fmt.Fprintf(&sb, "\x1b[?%dh\x1b[?%dl", num[other], num[other])
		}
		if mode > 0 {
			fmt.Fprintf(&sb, "\x1b[?%dh", num[mode])
		}
	}
	selEnc := func() {
		n := []int{0, 1005, 1006}[enc]
		if n != 0 {
			if way%5 == 0 {
				fmt.Fprintf(&sb, "\x1b[?%dh", 2011-n)
			}
			fmt.Fprintf(&sb, "\x1b[?%dh", n)
		} else if way%5 < 3 {
			m := 1005 + way%2
			fmt.Fprintf(&sb, "\x1b[?%dh\x1b[?%dl", m, m)
		}
	}
	switch way / 3 % 4 {
	case 0:
		selMode()
		selEnc()
	case 1:
		selEnc()
		selMode()
	case 2: // the selection outlives a change of buffers
		selMode()
		sb.WriteString("\x1b[?1049h")
		selEnc()
	case 3:
		sb.WriteString("\x1b[?1049h")
		selEnc()
		selMode()
		sb.WriteString("text\r\n\x1b[?1049l")
	}
	if way%7 == 3 {
		sb.WriteString("\x1b[?1;25;2004h\x1b[=31;1u\x1b[>4;2m")
	}
	return h, h.feed([]byte(sb.String()))
}

var errVfInjected = errors.New("injected")

func TestVFMouse(tt *testing.T) {
	out := os.Getenv("VF_OUT")
	if out == "" {
		tt.Skip("not configured")
	}
	r := &vfRunner{prop: os.Getenv("VF_PROP"), file: os.Getenv("VF_TRACES"),
		rep: &vfReport{Kinds: map[string]int{}, OtherKinds: map[string]int{}, Extra: map[string]int{}}}
	skip, _ := strconv.Atoi(os.Getenv("VF_SKIP"))
	seed, _ := strconv.Atoi(os.Getenv("VF_SEED"))
	if m := os.Getenv("VF_MARK"); m != "" {
		f, err := os.OpenFile(m, os.O_CREATE|os.O_RDWR, 0o644)
		if err != nil {
			tt.Fatal(err)
		}
		defer f.Close()
		r.mark = f
	}
	br, done := vfOpenLines(tt, r.file)
	defer done()
	hosts := map[[3]int]*vfHost{}
	for i := 0; ; i++ {
		line, err := br.ReadBytes('\n')
		if len(line) < 2 {
			break
		}
		if i < skip {
			continue
		}
		var row vfMouseRow
		if e := json.Unmarshal(line, &row); e != nil {
			tt.Fatal(e)
		}
		r.idx = i
		r.note(0, "mouse")
		way := (i*11 + seed) % 420
		key := [3]int{row.Mode, row.Enc, way}
		h := hosts[key]
		if h == nil {
			var why string
			if h, why = vfMouseHost(row.Mode, row.Enc, way); why != "" {
				r.rep.Other++
				r.rep.OtherKinds["mouse/setup"]++
				break
			}
			hosts[key] = h
		}
		if d := r.mouse(h, &row, i+seed); d != "" {
			r.rep.Divergences = append(r.rep.Divergences, vfDivergence{Trace: i, File: r.file, Kind: "mouse", Comp: "out", Owners: []string{"C13"},
				Detail: fmt.Sprintf("mode %d encoding %d: %s", row.Mode, row.Enc, d)})
			break
		}
		r.rep.Kinds[fmt.Sprintf("mode%d/enc%d", row.Mode, row.Enc)]++
		if err != nil {
			break
		}
	}
	for _, h := range hosts {
		h.close()
	}
	r.rep.Complete = true
	if err := r.rep.write(out); err != nil {
		tt.Fatal(err)
	}
}

func (r *vfRunner) mouse(h *vfHost, row *vfMouseRow, salt int) string {
	m, ok := h.term.(vfMouser)
	if !ok {
		return "the terminal has no SendMouseRaw"
	}
	r.rep.Traces++
	for k, want := range row.R {
		btn, press := vfBtns[k%4], k/4%2 == 0
		var mods MouseFlag
		for b, bit := range vfMouseBits {
			if k/8>>b&1 == 1 {
				mods |= bit
			}
		}
		send := func() (string, error, string) {
			_, err, why := vfGuard(func() (int, error) { return 0, m.SendMouseRaw(btn, press, mods, row.X, row.Y) })
			return string(h.be.takeOut()), err, why
		}
		r.rep.Steps++
		r.rep.Compared++
		got, err, why := send()
		r.rep.Bytes += len(got)
		what := fmt.Sprintf("button %d press %v flags %d at (%d,%d)", btn, press, mods, row.X, row.Y)
		if why != "" || err != nil || got != string(want) {
			return fmt.Sprintf("%s sends %q (%v)%s, want %q", what, got, err, why, string(want))
		}
		if (k+salt)%5 != 0 {
			continue
		}
		// the writer takes at most `cap' bytes at a time; after `room' bytes it fails
		for _, f := range [][2]int{{1 + (k+salt)%4, -1}, {100, (k + salt) % (len(want) + 1)}, {1, (k/3 + salt) % (len(want) + 1)}, {0, -1}} {
			room := f[1]
			h.be.setFault(func(n int) (int, error) {
				if n > f[0] {
					n = f[0]
				}
				if room >= 0 {
					if n > room {
						n = room
					}
					if room -= n; room == 0 {
						return n, errVfInjected
					}
				}
				return n, nil
			})
			got, err, why = send()
			h.be.setFault(nil)
			r.rep.Extra["faulty_writes"]++
			desc := fmt.Sprintf("%s, writer accepting %d bytes at a time, failing after %d", what, f[0], f[1])
			if why != "" {
				return desc + ":" + why
			}
			fails := len(want) > 0 && (f[0] == 0 || f[1] >= 0 && f[1] < len(want))
			switch {
			case len(want) > 0 && f[0] > 0 && f[1] == len(want):
				// all delivered along with an error: either outcome is sound
				if got != string(want) {
					return fmt.Sprintf("%s: %q delivered, want %q", desc, got, string(want))
				}
			case fails && err == nil:
				return fmt.Sprintf("%s: no error reported, %q delivered", desc, got)
			case fails && f[0] > 0 && !errors.Is(err, errVfInjected):
				return fmt.Sprintf("%s: reports %v", desc, err)
			case fails && !strings.HasPrefix(string(want), got):
				return fmt.Sprintf("%s: %q delivered, which does not begin %q", desc, got, string(want))
			case !fails && (err != nil || got != string(want)):
				return fmt.Sprintf("%s: %q delivered (%v), want %q", desc, got, err, string(want))
			}
		}
	}
	if len(r.rep.Samples) < 2 {
		r.rep.Samples = append(r.rep.Samples, fmt.Sprintf("mode %d encoding %d at (%d,%d): %d events conform", row.Mode, row.Enc, row.X, row.Y, len(row.R)))
	}
	return ""
}
