package main

import (
	"encoding/json"
	"fmt"
	"strings"

	"github.com/phoenix-tui/phoenix/components/viewport"
	tea "github.com/phoenix-tui/phoenix/tea"
)

// frozenSet checks that values which were replaced by newer ones never change.
type frozenSet struct {
	f    []func() any
	want []string
	bad  bool
}

func (z *frozenSet) add(f func() any) {
	if len(z.f) >= 8 { // the first two and the latest six
		z.f = append(z.f[:2:2], z.f[3:]...)
		z.want = append(z.want[:2:2], z.want[3:]...)
	}
	z.f = append(z.f, f)
	z.want = append(z.want, jsonOf(f()))
}

func (z *frozenSet) ok() bool {
	for i := range z.f {
		if jsonOf(z.f[i]()) != z.want[i] {
			z.bad = true
		}
	}
	return !z.bad
}

// late runs a command, and again after later operations: it always gives the same message.
func (z *frozenSet) late(c tea.Cmd) {
	if c != nil {
		z.add(func() any { return fmt.Sprintf("%#v", c()) })
	}
}

// scribble overwrites a slice handed to or returned by the code under test: the caller owns it.
func scribble[T any](s []T, v T) {
	for i := range s {
		s[i] = v
	}
}

func jsonOf(v any) string { b, _ := json.Marshal(v); return string(b) }

type vpSys struct {
	v    *viewport.Viewport
	keep frozenSet
}

func init() {
	systems["viewport"] = func(c J) Sys {
		ls := toLines(c["lines"])
		s := &vpSys{}
		if len(ls) == 0 {
			s.v = viewport.New(c.n("w"), c.n("h"))
		} else {
			s.v = viewport.NewWithLines(ls, c.n("w"), c.n("h"))
			if viaRoot(c) {
				s.v = viewport.NewWithContent(strings.Join(ls, "\n"), c.n("w"), c.n("h"))
			}
			scribble(ls, "changed")
		}
		s.v = s.v.WrapLines(c.b("wrap")).MouseEnabled(c.b("mouse"))
		return s
	}
}

func toLines(v any) []string {
	a, _ := v.([]any)
	r := make([]string, len(a))
	for i, x := range a {
		r[i] = atomsStr(toInts(x))
	}
	return r
}

var mouseBtn = map[string]tea.MouseButton{"none": tea.MouseButtonNone, "left": tea.MouseButtonLeft, "middle": tea.MouseButtonMiddle,
	"right": tea.MouseButtonRight, "wheelup": tea.MouseButtonWheelUp, "wheeldown": tea.MouseButtonWheelDown}
var mouseActs = map[string]tea.MouseAction{"press": tea.MouseActionPress, "release": tea.MouseActionRelease, "motion": tea.MouseActionMotion}

func mouseMsg(op J) tea.MouseMsg {
	return tea.MouseMsg{X: op.n("x"), Y: op.n("y"), Button: mouseBtn[op.s("btn")], Action: mouseActs[op.s("act")]}
}

func vpObs(v *viewport.Viewport) J {
	vl := v.VisibleLines()
	lines := make([][]int, len(vl))
	for i, l := range vl {
		lines[i] = strAtoms(l)
	}
	if strings.Join(vl, "\n") != v.View() {
		lines = append(lines, strAtoms("VIEW-DIFFERS:"+v.View()))
	}
	scribble(vl, "changed")
	return J{"lines": lines, "off": v.ScrollOffset(), "top": v.IsAtTop(), "bottom": v.IsAtBottom(),
		"up": v.CanScrollUp(), "down": v.CanScrollDown(), "total": v.TotalLines(), "h": v.Height()}
}

func (s *vpSys) Apply(op J) {
	v := s.v
	s.keep.add(func() any { return vpObs(v) })
	switch op.s("k") {
	case "key":
		s.v, _ = s.v.Update(key(op))
	case "mouse":
		s.v, _ = s.v.Update(mouseMsg(op))
	case "content":
		ls := toLines(op["lines"])
		if len(ls) > 0 {
			s.v = s.v.SetContent(strings.Join(ls, "\n"))
		} else {
			s.v = s.v.SetLines(ls)
			scribble(ls, "changed")
		}
	case "append":
		ls := toLines(op["lines"])
		if len(ls) == 1 {
			s.v = s.v.AppendLine(ls[0])
		} else {
			s.v = s.v.AppendLines(ls)
			scribble(ls, "changed")
		}
	case "size":
		s.v = s.v.SetSize(op.n("w"), op.n("h"))
	case "winsize":
		s.v, _ = s.v.Update(tea.WindowSizeMsg{Width: op.n("w"), Height: op.n("h")})
	case "follow":
		s.v = s.v.FollowMode(op.b("on"))
	case "wrap":
		s.v = s.v.WrapLines(op.b("on"))
	case "mouseon":
		s.v = s.v.MouseEnabled(op.b("on"))
	case "lps":
		s.v = s.v.SetWheelScrollLines(op.n("n"))
	case "offset":
		s.v = s.v.SetYOffset(op.n("n"))
	case "top":
		s.v = s.v.ScrollToTop()
	case "bottom":
		s.v = s.v.ScrollToBottom()
	}
}

func (s *vpSys) Obs() any {
	o := vpObs(s.v)
	o["frozen"] = s.keep.ok()
	return o
}
