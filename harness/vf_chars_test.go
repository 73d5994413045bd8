package termemu

// Every code point, printed: every line of a file written by CharEnum.tla is
// a block of characters, the column each belongs at and where the cursor ends.

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"strconv"
	"testing"
)

type vfCharRow struct {
	B    int   `json:"b"`
	Cps  []int `json:"cps"`
	Cols []int `json:"cols"`
	Cx   int   `json:"cx"`
}

const vfCharW = 150

func TestVFChars(tt *testing.T) {
	out := os.Getenv("VF_OUT")
	if out == "" {
		tt.Skip("not configured")
	}
	r := &vfRunner{prop: os.Getenv("VF_PROP"), file: os.Getenv("VF_TRACES"),
		rep: &vfReport{Kinds: map[string]int{}, OtherKinds: map[string]int{}, Extra: map[string]int{}}}
	skip, _ := strconv.Atoi(os.Getenv("VF_SKIP"))
	seed, _ := strconv.Atoi(os.Getenv("VF_SEED"))
	if m := os.Getenv("VF_MARK"); m != "" {
		f, err := os.OpenFile(m, os.O_CREATE|os.O_RDWR, 0o644)
		if err != nil {
			tt.Fatal(err)
		}
		defer f.Close()
		r.mark = f
	}
	br, done := vfOpenLines(tt, r.file)
	defer done()
	bufs := [2]string{"span", "grid"}
	var hs, cut [2]*vfHost
	for i, b := range bufs {
		hs[i] = vfNewHost(vfCharW, 2, b, false, i == 0)
		cut[i] = vfNewHost(vfCharW, 2, b, false, false)
		defer hs[i].close()
		defer cut[i].close()
	}
	fail := func(kind, detail string, owners ...string) bool {
		for _, o := range owners {
			if o == r.prop {
				r.rep.Divergences = append(r.rep.Divergences, vfDivergence{Trace: r.idx, File: r.file, Kind: kind, Comp: "cells", Owners: owners, Detail: detail})
				return true
			}
		}
		r.rep.Other++
		r.rep.OtherKinds[kind]++
		return false
	}
	for i := 0; ; i++ {
		line, err := br.ReadBytes('\n')
		if len(line) < 2 {
			break
		}
		if i < skip {
			continue
		}
		var row vfCharRow
		if e := json.Unmarshal(line, &row); e != nil {
			tt.Fatal(e)
		}
		r.idx = i
		r.note(0, "chars")
		style, want := vfCharWant(&row, i+seed)
		src := []byte("\x1b[?7l\r\x1b[m\x1b[2K")
		if i%2 == 1 {
			src = []byte("\x1b[?7h\r\x1b[m\x1b[2K") // the block fits
		}
		src = append(src, style...)
		for _, c := range row.Cps {
			src = append(src, string(rune(c))...)
		}
		r.rep.Traces++
		r.rep.Steps += len(row.Cps)
		r.rep.Compared += len(row.Cps)
		r.rep.Bytes += len(src)
		var got [2]string
		stop := false
		for k, h := range hs {
			bad, shape := "", ""
			got[k], bad, shape = h.chars(&row, want, [][]byte{src})
			if bad != "" {
				stop = fail("chars/"+bufs[k], bad, "C03") || stop
			}
			if shape != "" {
				stop = fail("shape/"+bufs[k], shape, "C02", "C11") || stop
			}
		}
		if got[0] != got[1] {
			stop = fail("buffers", fmt.Sprintf("block %d: span buffer %s, grid buffer %s", row.B, vfClip(got[0]), vfClip(got[1])), "C20") || stop
		}
		if r.prop == "C08" {
			rng := rand.New(rand.NewSource(int64(i*7 + seed)))
			k := (i + seed) % 2
			var parts [][]byte
			for rest := src; len(rest) > 0; {
				n := 1 + rng.Intn(3)
				if n > len(rest) {
					n = len(rest)
				}
				parts = append(parts, rest[:n])
				rest = rest[n:]
			}
			if g, _, _ := cut[k].chars(&row, want, parts); g != got[k] {
				stop = fail("cut/"+bufs[k], fmt.Sprintf("block %d in pieces of 1 to 3 bytes: %s, whole: %s", row.B, vfClip(g), vfClip(got[k])), "C08") || stop
			}
		}
		if stop || err != nil {
			break
		}
	}
	r.rep.Complete = true
	if err := r.rep.write(out); err != nil {
		tt.Fatal(err)
	}
}

var vfCharSGR = []string{"", "\x1b[31m", "\x1b[1;44m", "\x1b[38;5;200;7m"}

// vfCharWant is the row the block must leave.
func vfCharWant(row *vfCharRow, salt int) (sgr string, want vfRow) {
	sgr = vfCharSGR[salt%len(vfCharSGR)]
	want = make(vfRow, vfCharW)
	for x := range want {
		want[x].text = " "
	}
	for k, c := range row.Cps {
		end := row.Cx
		if k+1 < len(row.Cols) {
			end = row.Cols[k+1]
		}
		want[row.Cols[k]].text = string(rune(c))
		for x := row.Cols[k] + 1; x < end; x++ {
			want[x].text = ""
		}
	}
	return
}

// chars feeds the program; what the row holds now, how it differs from what
// is wanted, and how the accessors disagree about it.
func (h *vfHost) chars(row *vfCharRow, want vfRow, parts [][]byte) (got, bad, shape string) {
	for _, p := range parts {
		if why := h.feed(p); why != "" {
			return "", why, ""
		}
	}
	if why := h.lock(); why != "" {
		return "", why, ""
	}
	defer h.t.Unlock()
	l := h.term.StyledLine(0, vfCharW, 0)
	cells, bad := vfExpand(l, vfCharW, false)
	if bad != "" {
		shape = fmt.Sprintf("block %d: %s", row.B, bad)
	}
	cx, cy := h.fe.cx, h.fe.cy
	got = fmt.Sprintf("%s cursor (%d,%d)", cells, cx, cy)
	text := ""
	st := ""
	for x, c := range cells {
		text += c.text
		if x >= len(want) || c.text != want[x].text {
			return got, fmt.Sprintf("block %d (U+%04X...): cell %d holds %q, want %q", row.B, row.Cps[0], x, c.text, want[x].text), shape
		}
		if x < row.Cx {
			if x > 0 && c.style != st {
				return got, fmt.Sprintf("block %d: cell %d has another style", row.B, x), shape
			}
			st = c.style
		}
	}
	if len(cells) != len(want) {
		return got, fmt.Sprintf("block %d: %d cells", row.B, len(cells)), shape
	}
	if cx != row.Cx || cy != 0 {
		return got, fmt.Sprintf("block %d (U+%04X...): cursor at (%d,%d), want (%d,0)", row.B, row.Cps[0], cx, cy, row.Cx), shape
	}
	if s := string(h.term.Line(0)); s != text {
		shape = fmt.Sprintf("block %d: Line is %q, StyledLine %q", row.B, s, text)
	}
	if s := vfStripSGR(h.term.ANSILine(0)); s != text {
		shape = fmt.Sprintf("block %d: ANSILine is %q, StyledLine %q", row.B, s, text)
	}
	return
}
