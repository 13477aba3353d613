package main

import (
	"strings"

	"github.com/phoenix-tui/phoenix/components/input"
)

// cps lists the code points of a text; invalid bytes become negative.
func cps(s string) []int {
	r := []int{}
	for i, c := range s {
		if c == 0xFFFD && !strings.HasPrefix(s[i:], "\uFFFD") {
			r = append(r, -1000-int(s[i]))
			continue
		}
		r = append(r, int(c))
	}
	return r
}
func fromCps(v any) string {
	var b strings.Builder
	for _, c := range toInts(v) {
		b.WriteRune(rune(c))
	}
	return b.String()
}

// litCps is cps with styled stretches between -1 and -2.
func litCps(s string) []int {
	r := []int{}
	on := false
	for len(s) > 0 {
		loc := sgr.FindStringIndex(s)
		if loc == nil {
			return append(r, cps(s)...)
		}
		r = append(r, cps(s[:loc[0]])...)
		code := s[loc[0]:loc[1]]
		s = s[loc[1]:]
		reset := code == "\x1b[0m" || code == "\x1b[m" || code == "\x1b[27m"
		if reset && on {
			r = append(r, -2)
		} else if !reset && !on {
			r = append(r, -1)
		}
		on = !reset
	}
	return r
}

type inputSys struct {
	i    input.Input
	keep frozenSet
}

func (s *inputSys) look(i input.Input) J {
	b, a, r := i.ContentParts()
	v := litCps(i.View())
	if i.Value() == "" && !i.IsFocused() {
		v = cps(unstyled(i.View()))
	}
	return J{"value": cps(i.Value()), "cur": i.CursorPosition(), "before": cps(b), "at": cps(a), "after": cps(r), "view": v, "valid": i.IsValid(), "focus": i.IsFocused()}
}
func (s *inputSys) Apply(op J) {
	i := s.i
	s.keep.add(func() any { return s.look(i) })
	switch op.s("k") {
	case "key":
		s.i, _ = s.i.Update(key(op))
	case "content":
		s.i = s.i.Content(fromCps(op["t"]))
	case "set":
		s.i = s.i.SetContent(fromCps(op["t"]), op.n("at"))
	case "focus":
		s.i = s.i.Focused(op.b("on"))
	case "show":
		s.i = s.i.ShowCursor(op.b("on"))
	case "width":
		s.i = s.i.Width(op.n("n"))
	case "placeholder":
		s.i = s.i.Placeholder(fromCps(op["t"]))
	case "validator":
		s.i = s.i.Validator(validator(op.arr("v")))
	default:
		s.i, _ = s.i.Update(otherMsg(op))
	}
}
func validator(vs []any) input.ValidationFunc {
	fs := []input.ValidationFunc{}
	for _, x := range vs {
		v := J(x.(map[string]any))
		switch v.s("t") {
		case "notempty":
			fs = append(fs, input.NotEmpty())
		case "min":
			fs = append(fs, input.MinLength(v.n("a")))
		case "max":
			fs = append(fs, input.MaxLength(v.n("a")))
		case "range":
			fs = append(fs, input.Range(v.n("a"), v.n("b")))
		}
	}
	if len(fs) == 1 {
		return fs[0]
	}
	return input.Chain(fs...)
}
func (s *inputSys) Obs() any {
	o := s.look(s.i)
	o["frozen"] = s.keep.ok()
	return o
}
func init() {
	systems["input"] = func(cfg J) Sys { return &inputSys{i: *input.New(cfg.n("w"))} }
}
