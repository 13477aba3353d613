package main

import (
	"strconv"
	"strings"

	"github.com/phoenix-tui/phoenix"
	"github.com/phoenix-tui/phoenix/style"
)

var hues = []style.Color{{}, style.RGB(255, 0, 0), style.RGB(0, 0, 255), style.RGB(95, 135, 215), style.RGB(18, 18, 18), style.RGB(255, 255, 0),
	style.RGB(175, 0, 95), style.RGB(88, 88, 88), style.RGB(3, 200, 77), style.RGB(128, 0, 128)}
var sborders = map[string]style.Border{"normal": style.NormalBorder, "rounded": style.RoundedBorder, "thick": style.ThickBorder, "double": style.DoubleBorder,
	"ascii": style.ASCIIBorder, "hidden": style.NewBorder("", "", "", "", "", "", "", ""), "own": style.NewBorder("t", "b", "l", "r", "1", "2", "3", "4")}

// withCap sets the capability (the exported constants have a type of their own, which the setter does not take).
func withCap(s style.Style, v string) style.Style {
	switch v {
	case "none":
		return s.TerminalCapability(0)
	case "16":
		return s.TerminalCapability(1)
	case "256":
		return s.TerminalCapability(2)
	}
	return s.TerminalCapability(3)
}

var sha = map[string]style.HorizontalAlignment{"left": style.AlignLeft, "center": style.AlignCenter, "right": style.AlignRight}
var sva = map[string]style.VerticalAlignment{"top": style.AlignTop, "middle": style.AlignMiddle, "bottom": style.AlignBottom}

type styleSys struct {
	s       style.Style
	content string
	full    bool
	same    bool
}

// sgrSplit takes styled output apart into text and SGR sequences (anything else stays text).
func sgrSplit(out string, text func(string), code func([]int)) {
	for {
		m := sgr.FindStringIndex(out)
		if m == nil {
			text(out)
			return
		}
		text(out[:m[0]])
		ps := []int{}
		for _, p := range strings.Split(out[m[0]+2:m[1]-1], ";") {
			n, _ := strconv.Atoi(p)
			ps = append(ps, n)
		}
		code(ps)
		out = out[m[1]:]
	}
}

// styled reads styled output as a terminal does: the atoms of every line, the attributes they are
// shown with (foreground|background|decorations) and the attributes in effect after everything.
func styled(out string) (rows [][]int, attrs [][]string, end string) {
	fg, bg := "", ""
	deco := map[int]bool{}
	attr := func() string {
		d := ""
		for k, n := range []int{1, 3, 4, 9, 0} {
			if deco[n] {
				d += "bius?"[k : k+1]
			}
		}
		return fg + "|" + bg + "|" + d
	}
	join := func(ps []int) string {
		s := make([]string, len(ps))
		for i, p := range ps {
			s[i] = strconv.Itoa(p)
		}
		return strings.Join(s, ";")
	}
	rows, attrs = [][]int{{}}, [][]string{{}}
	sgrSplit(out, func(t string) {
		for i, l := range strings.Split(t, "\n") {
			if i > 0 {
				rows, attrs = append(rows, []int{}), append(attrs, []string{})
			}
			n := len(rows) - 1
			for _, a := range strAtoms(l) {
				rows[n], attrs[n] = append(rows[n], a), append(attrs[n], attr())
			}
		}
	}, func(ps []int) {
		for len(ps) > 0 {
			p, n := ps[0], 1
			switch {
			case p == 0:
				fg, bg, deco = "", "", map[int]bool{}
			case p == 1 || p == 3 || p == 4 || p == 9:
				deco[p] = true
			case p == 38 || p == 48:
				if len(ps) >= 3 && ps[1] == 5 {
					n = 3
				} else if len(ps) >= 5 && ps[1] == 2 {
					n = 5
				}
				if p == 38 {
					fg = join(ps[:n])
				} else {
					bg = join(ps[:n])
				}
			case p >= 30 && p <= 37 || p >= 90 && p <= 97:
				fg = strconv.Itoa(p)
			case p == 39:
				fg = ""
			case p >= 40 && p <= 47 || p >= 100 && p <= 107:
				bg = strconv.Itoa(p)
			case p == 49:
				bg = ""
			case p == 22:
				delete(deco, 1)
			case p == 23:
				delete(deco, 3)
			case p == 24:
				delete(deco, 4)
			case p == 29:
				delete(deco, 9)
			default:
				deco[0] = true
			}
			ps = ps[n:]
		}
	})
	return rows, attrs, attr()
}

func linesStr(v any) string {
	ls := []string{}
	for _, l := range v.([]any) {
		ls = append(ls, atomsStr(toInts(l)))
	}
	return strings.Join(ls, "\n")
}

func (s *styleSys) Apply(op J) {
	before, shown := s.s, style.Render(s.s, s.content)
	old := s.content
	st, n := s.s, op.n("n")
	switch op.s("k") {
	case "content":
		s.content = linesStr(op["c"])
	case "cap":
		st = withCap(st, op.s("v"))
	case "fg":
		st = st.Foreground(hues[n])
	case "bg":
		st = st.Background(hues[n])
	case "bc":
		st = st.BorderColor(hues[n])
	case "border":
		st = st.Border(sborders[op.s("v")])
	case "side":
		switch op.s("v") {
		case "top":
			st = st.BorderTop(op.b("on"))
		case "bottom":
			st = st.BorderBottom(op.b("on"))
		case "left":
			st = st.BorderLeft(op.b("on"))
		case "right":
			st = st.BorderRight(op.b("on"))
		}
	case "pad":
		switch op.s("side") {
		case "top":
			st = st.PaddingTop(n)
		case "right":
			st = st.PaddingRight(n)
		case "bottom":
			st = st.PaddingBottom(n)
		case "left":
			st = st.PaddingLeft(n)
		case "all":
			st = st.PaddingAll(n)
		case "vert":
			st = st.PaddingVertical(n)
		case "horz":
			st = st.PaddingHorizontal(n)
		case "given":
			q := op.ints("q")
			st = st.Padding(style.NewPadding(q[0], q[1], q[2], q[3]))
		}
	case "mar":
		switch op.s("side") {
		case "top":
			st = st.MarginTop(n)
		case "right":
			st = st.MarginRight(n)
		case "bottom":
			st = st.MarginBottom(n)
		case "left":
			st = st.MarginLeft(n)
		case "all":
			st = st.MarginAll(n)
		case "vert":
			st = st.MarginVertical(n)
		case "horz":
			st = st.MarginHorizontal(n)
		case "given":
			q := op.ints("q")
			st = st.Margin(style.NewMargin(q[0], q[1], q[2], q[3]))
		}
	case "size":
		switch op.s("v") {
		case "w":
			st = st.Width(n)
		case "h":
			st = st.Height(n)
		case "minw":
			st = st.MinWidth(n)
		case "maxw":
			st = st.MaxWidth(n)
		case "minh":
			st = st.MinHeight(n)
		case "maxh":
			st = st.MaxHeight(n)
		}
	case "align":
		st = st.Align(style.NewAlignment(sha[op.s("h")], sva[op.s("v")]))
	case "alignh":
		switch op.s("h") { // the exported constants have a type of their own, which this setter does not take
		case "left":
			st = st.AlignHorizontal(0)
		case "center":
			st = st.AlignHorizontal(1)
		case "right":
			st = st.AlignHorizontal(2)
		}
	case "alignv":
		switch op.s("v") {
		case "top":
			st = st.AlignVertical(0)
		case "middle":
			st = st.AlignVertical(1)
		case "bottom":
			st = st.AlignVertical(2)
		}
	case "deco":
		switch op.s("v") {
		case "bold":
			st = st.Bold(op.b("on"))
		case "italic":
			st = st.Italic(op.b("on"))
		case "underline":
			st = st.Underline(op.b("on"))
		case "strike":
			st = st.Strikethrough(op.b("on"))
		}
	}
	s.same = style.Render(before, old) == shown
	s.s = st
}

func (s *styleSys) Obs() any {
	rows, attrs, end := styled(style.Render(s.s, s.content))
	if !s.full {
		return J{"t": rows, "same": s.same}
	}
	return J{"t": rows, "a": attrs, "end": end, "same": s.same}
}

// colorEvents records what the library says about the colours of cfg.ask.
func colorEvents(c J) J {
	rgb := func(c style.Color) []int {
		r, g, b := c.RGB()
		return []int{int(r), int(g), int(b)}
	}
	cp := func(s string) []int {
		o := []int{}
		for _, r := range s {
			o = append(o, int(r))
		}
		return o
	}
	ev := []any{}
	for _, a := range c.arr("ops") {
		op := J(a.(map[string]any))
		switch op.s("k") {
		case "adapt":
			q := op.ints("c")
			col := style.RGB(uint8(q[0]), uint8(q[1]), uint8(q[2]))
			first := func(s style.Style) []int {
				r := []int{}
				n := 0
				sgrSplit(style.Render(s, "x"), func(string) {}, func(ps []int) {
					if n == 0 && !(len(ps) == 1 && ps[0] == 0) {
						r = ps
					}
					n++
				})
				return r
			}
			b := style.New()
			if viaRoot(op) {
				b = phoenix.NewStyle()
			}
			b = withCap(b, op.s("cap"))
			op["fg"], op["bg"], op["border"] = first(b.Foreground(col)), first(b.Background(col)), first(b.Border(style.ASCIIBorder).BorderColor(col))
		case "hex":
			s := ""
			for _, x := range op.ints("t") {
				s += string(rune(x))
			}
			col, err := style.Hex(s)
			op["ok"], op["c"], op["hex"] = err == nil, rgb(col), cp(col.Hex())
		case "pal":
			col := style.Color256(uint8(op.n("n")))
			op["c"], op["hex"] = rgb(col), cp(col.Hex())
			if op.n("n") < 16 {
				op["c16"] = rgb(style.Color16(uint8(op.n("n"))))
			}
		case "rgb":
			q := op.ints("c")
			col := style.RGB(uint8(q[0]), uint8(q[1]), uint8(q[2]))
			again, err := style.Hex(col.Hex())
			op["got"], op["hex"], op["same"] = rgb(col), cp(col.Hex()), err == nil && again.Equal(col)
		}
		ev = append(ev, map[string]any(op))
	}
	return J{"cfg": c["cfg"], "ops": ev, "obs": []any{}}
}

func init() {
	systems["style"] = func(cfg J) Sys {
		b := style.New()
		if viaRoot(cfg) {
			b = phoenix.NewStyle()
		}
		return &styleSys{s: b, content: linesStr(cfg["content"]), full: cfg.s("prop") == "S02", same: true}
	}
	wholes["color"] = colorEvents
}
