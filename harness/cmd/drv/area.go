package main

import "github.com/phoenix-tui/phoenix/components/input"

type areaSys struct {
	a    input.TextArea
	log  [][]int
	keep frozenSet
}

func (s *areaSys) look(a input.TextArea) J {
	b, at, r := a.ContentParts()
	row, col := a.CursorPosition()
	lines := [][]int{}
	got := a.Lines()
	for _, l := range got {
		lines = append(lines, cps(l))
	}
	scribble(got, "changed")
	v := litCps(a.View())
	if a.IsEmpty() {
		v = cps(unstyled(a.View()))
	}
	if a.LineCount() != len(lines) {
		v = append(v, -99, a.LineCount())
	}
	return J{"lines": lines, "text": cps(a.Value()), "r": row, "c": col, "line": cps(a.CurrentLine()), "empty": a.IsEmpty(),
		"before": cps(b), "at": cps(at), "after": cps(r), "view": v}
}
func accepts(v string, from, to input.CursorPos) bool {
	switch v {
	case "never":
		return false
	case "prompt":
		return to.Row != 0 || to.Col >= 2
	case "rows":
		return to.Row >= 0 && to.Row <= 1
	case "even":
		return to.Col%2 == 0
	case "row":
		return from.Row == to.Row
	}
	return true
}
func (s *areaSys) Apply(op J) {
	a := s.a
	s.keep.add(func() any { return s.look(a) })
	s.log = [][]int{}
	switch op.s("k") {
	case "key":
		s.a, _ = s.a.Update(key(op))
	case "set":
		s.a = s.a.SetValue(fromCps(op["t"]))
	case "goto":
		s.a = s.a.SetCursorPosition(op.n("r"), op.n("c"))
	case "end":
		s.a = s.a.MoveCursorToEnd()
	case "height":
		s.a = s.a.Height(op.n("n"))
	case "width":
		s.a = s.a.Width(op.n("n"))
	case "maxl":
		s.a = s.a.MaxLines(op.n("n"))
	case "maxc":
		s.a = s.a.MaxChars(op.n("n"))
	case "placeholder":
		s.a = s.a.Placeholder(fromCps(op["t"]))
	case "ro":
		s.a = s.a.ReadOnly(op.b("on"))
	case "nums":
		s.a = s.a.ShowLineNumbers(op.b("on"))
	case "show":
		s.a = s.a.ShowCursor(op.b("on"))
	case "wrap":
		s.a = s.a.Wrap(op.b("on"))
	case "vi":
		m := input.KeybindingsDefault
		if op.b("on") {
			m = input.KeybindingsVi
		}
		s.a = s.a.Keybindings(m)
	case "valid":
		v := op.s("v")
		s.a = s.a.OnMovement(func(from, to input.CursorPos) bool { return accepts(v, from, to) })
	default:
		s.a, _ = s.a.Update(otherMsg(op))
	}
}
func (s *areaSys) Obs() any {
	o := s.look(s.a)
	o["log"] = s.log
	o["frozen"] = s.keep.ok()
	return o
}
func init() {
	systems["area"] = func(cfg J) Sys {
		s := &areaSys{log: [][]int{}}
		s.a = input.NewTextArea().Size(20, cfg.n("h")).MaxLines(cfg.n("maxl")).MaxChars(cfg.n("maxc")).
			OnCursorMoved(func(f, t input.CursorPos) { s.log = append(s.log, []int{1, f.Row, f.Col, t.Row, t.Col}) }).
			OnBoundaryHit(func(p input.CursorPos, why string) { s.log = append(s.log, []int{2, p.Row, p.Col}) })
		return s
	}
}
