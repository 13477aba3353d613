package main

import (
	"math"
	"strings"

	"github.com/phoenix-tui/phoenix/components/confirm"
	"github.com/phoenix-tui/phoenix/components/modal"
	"github.com/phoenix-tui/phoenix/components/progress"
	tea "github.com/phoenix-tui/phoenix/tea"
)

func atoms(v any) string { return atomsStr(toInts(v)) }

// otherMsg is some message a component has no business with.
func otherMsg(op J) tea.Msg {
	switch op.s("m") {
	case "size":
		return tea.WindowSizeMsg{Width: 33, Height: 11}
	case "mouse":
		return tea.MouseMsg{X: 1, Y: 1, Button: tea.MouseButtonLeft, Action: tea.MouseActionPress}
	case "nil":
		return nil
	}
	return struct{ X int }{1}
}

// ---- confirm
type confirmSys struct {
	c    *confirm.Confirm
	msg  int
	keep frozenSet
}

func confirmObs(c *confirm.Confirm) J {
	return J{"done": c.Done(), "res": int(c.Result()), "yes": c.IsYes(), "no": c.IsNo(), "cancelled": c.IsCanceled(), "view": linesAtoms(c.View())}
}
func (s *confirmSys) Apply(op J) {
	c := s.c
	s.keep.add(func() any { return confirmObs(c) })
	s.msg = 0
	upd := func(m tea.Msg) {
		n, cmd := s.c.Update(m)
		s.c = n
		s.keep.late(cmd)
		if cmd != nil {
			if r, ok := cmd().(confirm.ConfirmResultMsg); ok {
				s.msg = int(r.Result)
			} else {
				s.msg = -1
			}
		}
	}
	switch op.s("k") {
	case "key":
		upd(key(op))
	case "desc":
		s.c = s.c.Description(atoms(op["t"]))
	case "affirmative":
		s.c = s.c.Affirmative(atoms(op["t"]))
	case "negative":
		s.c = s.c.Negative(atoms(op["t"]))
	case "cancel":
		s.c = s.c.WithCancel(op.b("on"))
	case "defyes":
		s.c = s.c.DefaultYes()
	case "defno":
		s.c = s.c.DefaultNo()
	default:
		upd(otherMsg(op))
	}
}
func (s *confirmSys) Obs() any {
	o := confirmObs(s.c)
	o["msg"] = s.msg
	o["frozen"] = s.keep.ok()
	return o
}

// ---- modal
type modalSys struct {
	m    *modal.Modal
	msg  string
	keep frozenSet
}

func (s *modalSys) Apply(op J) {
	m := s.m
	s.keep.add(func() any { return J{"vis": m.IsVisible(), "foc": m.FocusedButton(), "view": m.View()} })
	s.msg = ""
	upd := func(x tea.Msg) {
		n, cmd := s.m.Update(x)
		s.m = n
		s.keep.late(cmd)
		if cmd != nil {
			if r, ok := cmd().(modal.ButtonPressedMsg); ok {
				s.msg = r.Action
			} else {
				s.msg = "?"
			}
		}
	}
	switch op.s("k") {
	case "key":
		upd(key(op))
	case "show":
		s.m = s.m.Show()
	case "hide":
		s.m = s.m.Hide()
	case "size":
		s.m = s.m.Size(op.n("w"), op.n("h"))
	case "pos":
		s.m = s.m.Position(op.n("x"), op.n("y"))
	case "center":
		s.m = s.m.Centered()
	case "dim":
		s.m = s.m.DimBackground(op.b("on"))
	case "buttons":
		bs := []modal.Button{}
		for _, b := range op.arr("b") {
			j := J(b.(map[string]any))
			bs = append(bs, modal.Button{Label: atoms(j["label"]), Key: atomStr(j.n("key")), Action: j.s("act")})
		}
		s.m = s.m.Buttons(bs)
		for i := range bs {
			bs[i] = modal.Button{Label: "changed", Key: "!", Action: "changed"}
		}
	case "winsize":
		upd(tea.WindowSizeMsg{Width: op.n("w"), Height: op.n("h")})
	case "view":
		op["out"] = lex(s.m.View())
	case "other":
		upd(otherMsg(op))
	}
}
func (s *modalSys) Obs() any {
	return J{"vis": s.m.IsVisible(), "msg": s.msg, "focused": s.m.FocusedButton(), "drawn": true, "frozen": s.keep.ok()}
}

// ---- progress
type barSys struct {
	b    progress.Bar
	keep frozenSet
}

func barObs(b progress.Bar) J {
	return J{"view": strAtoms(b.View()), "pct": b.Progress(), "done": b.IsComplete(), "tick": false}
}
func amount(op J) int {
	switch op.n("big") {
	case 1:
		return math.MaxInt
	case -1:
		return math.MinInt
	}
	return op.n("n")
}
func (s *barSys) Apply(op J) {
	b := s.b
	s.keep.add(func() any { return barObs(b) })
	switch op.s("k") {
	case "set":
		s.b = s.b.SetProgress(amount(op))
	case "inc":
		s.b = s.b.Increment(amount(op))
	case "dec":
		s.b = s.b.Decrement(amount(op))
	case "fill":
		s.b = s.b.FillChar([]rune(atomStr(op.n("a")))[0])
	case "empty":
		s.b = s.b.EmptyChar([]rune(atomStr(op.n("a")))[0])
	case "show":
		s.b = s.b.ShowPercent(op.b("on"))
	case "label":
		s.b = s.b.Label(atoms(op["t"]))
	default:
		s.b, _ = s.b.Update(otherMsg(op))
	}
}
func (s *barSys) Obs() any {
	o := barObs(s.b)
	o["frozen"] = s.keep.ok()
	return o
}

type spinSys struct {
	s    progress.Spinner
	tick bool
	keep frozenSet
}

func (s *spinSys) Apply(op J) {
	old := s.s
	s.keep.add(func() any { return old.View() })
	s.tick = false
	switch op.s("k") {
	case "label":
		s.s = s.s.Label(atoms(op["t"]))
	default:
		var m tea.Msg = tea.TickMsg{}
		if op.s("k") == "other" {
			m = otherMsg(op)
		}
		n, cmd := s.s.Update(m)
		s.s, s.tick = n, cmd != nil
	}
}
func (s *spinSys) Obs() any {
	return J{"view": strAtoms(s.s.View()), "pct": 0, "done": false, "tick": s.tick, "frozen": s.keep.ok()}
}

func init() {
	systems["confirm"] = func(c J) Sys { return &confirmSys{c: confirm.New(atoms(c["title"]))} }
	systems["modal"] = func(c J) Sys {
		ls := toLines(c["content"])
		if t := atoms(c["title"]); t != "" {
			return &modalSys{m: modal.NewWithTitle(t, strings.Join(ls, "\n"))}
		}
		return &modalSys{m: modal.New(strings.Join(ls, "\n"))}
	}
	systems["progress"] = func(c J) Sys {
		if c.s("kind") == "bar" {
			if c.n("pct") == 0 {
				return &barSys{b: *progress.NewBar(c.n("w"))}
			}
			return &barSys{b: *progress.NewBarWithProgress(c.n("w"), c.n("pct"))}
		}
		var s *progress.Spinner
		if n := c.s("name"); n != "" {
			s = progress.NewSpinner(n)
		} else {
			fr := toLines(c["frames"])
			s = progress.NewSpinnerCustom(fr, c.n("fps"))
			for i := range fr {
				fr[i] = "changed"
			}
		}
		return &spinSys{s: *s, tick: s.Init() != nil}
	}
}
