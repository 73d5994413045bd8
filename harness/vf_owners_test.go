package termemu

// Which properties a divergence of a given component, on a step of a given
// kind, contradicts.

var vfKindOwner = map[string][]string{
	"text": {"C03"}, "bad": {"C03"},
	"bs": {"C04"}, "ht": {"C04"}, "lf": {"C04", "C06"}, "ff": {"C04", "C06"}, "cr": {"C04"}, "ind": {"C04", "C06"}, "ri": {"C04", "C06"},
	"cuu": {"C04"}, "cud": {"C04"}, "cuf": {"C04"}, "cub": {"C04"}, "cha": {"C04"}, "vpa": {"C04"}, "cup": {"C04"}, "goto": {"C04"},
	"sc": {"C04"}, "rc": {"C04"},
	"ed": {"C05"}, "el": {"C05"}, "ech": {"C05"}, "dch": {"C05"},
	"il": {"C06"}, "dl": {"C06"}, "su": {"C06"}, "sd": {"C06"}, "stbm": {"C06"}, "region": {"C06"},
	"sgr":  {"C07"},
	"wrap": {"C17"}, "alt": {"C17"}, "mode": {"C17"}, "keypad": {"C09"}, "mok": {"C12"},
	"kbset": {"C19"}, "kbpush": {"C19"}, "kbpop": {"C19"}, "kbq": {"C19", "C14"},
	"da1": {"C14"}, "da2": {"C14"}, "dsr": {"C14"}, "cpr": {"C14"},
	"osc": {"C09"}, "st": {"C09"}, "dcs": {"C09"}, "csi": {"C09"}, "esc": {"C09"}, "c0": {"C09"}, "bel": {"C10"},
	"key":    {"C12"},
	"mouse":  {"C13"},
	"msel":   {"C13"},
	"asel":   {"C12"},
	"resize": {"C18"},
	"start":  {"C02"},
	"trail":  {"C01"},
	"conc":   {"C15"},
	"part":   {"C08", "C09"},
}

func vfOwners(kind, comp string, r *vfRunner) []string {
	own := append([]string(nil), vfKindOwner[kind]...)
	if kind == "setup" {
		switch comp {
		case "cells":
			own = []string{"C03", "C05"}
		case "cursor":
			own = []string{"C04"}
		case "margins":
			own = []string{"C06"}
		case "wrap":
			own = []string{"C17"}
		}
	}
	switch comp {
	case "panic", "hang":
		return append(own, "C01")
	case "wf", "cursor-range", "margin-range":
		return append(own, "C02")
	case "cellstyle":
		return append(own, "C07")
	case "shadow", "lastcursor", "laststyle", "lastview", "sback", "contract", "bell":
		own = []string{"C10"}
		if comp == "laststyle" {
			own = append(own, "C07")
		}
		return own
	case "out":
		if kind == "key" || kind == "mouse" {
			return own
		}
		return append(own, "C14")
	case "style":
		return append(own, "C07")
	case "lock":
		return []string{"C15"}
	case "lockheld":
		return append(own, "C15", "C01")
	case "ansi":
		return []string{"C11"}
	case "events", "flags":
		return append(own, "C10")
	case "strings":
		return []string{"C09", "C10"}
	case "size":
		return []string{"C18"}
	case "setsize":
		return []string{"C16"}
	case "kb":
		return append(own, "C19")
	}
	if r.mid && (comp == "cells" || comp == "cursor") {
		own = append(own, "C20")
	}
	if r.scrolls && (comp == "cells" || comp == "cursor") {
		own = append(own, "C06")
	}
	if r.nresize > 0 && (kind == "rc" || kind == "alt") {
		own = append(own, "C18")
	}
	return own
}
