package main

import (
	"strconv"
	"strings"

	"github.com/phoenix-tui/phoenix/components/multiselect"
	selectc "github.com/phoenix-tui/phoenix/components/select"
	tea "github.com/phoenix-tui/phoenix/tea"
)

// cmdMsg runs a command and gives its message (nil if there is none).
func cmdMsg(cmd tea.Cmd) tea.Msg {
	if cmd == nil {
		return nil
	}
	return cmd()
}
func plain(k string, ok bool, v []int) J {
	if v == nil {
		v = []int{}
	}
	return J{"k": k, "ok": ok, "v": v}
}

// ---- single choice
type selectSys struct {
	c    *selectc.Select[int]
	msg  J
	keep frozenSet
}

func (s *selectSys) look(c *selectc.Select[int]) J {
	sel, foc := []int{}, []int{}
	if v, ok := c.SelectedValue(); ok {
		sel = append(sel, v)
	}
	if v, ok := c.FocusedValue(); ok {
		foc = append(foc, v)
	}
	return J{"view": linesAtoms(c.View()), "sel": sel, "n": len(sel), "foc": foc}
}
func (s *selectSys) Apply(op J) {
	c := s.c
	s.keep.add(func() any { return s.look(c) })
	s.msg = plain("none", false, nil)
	upd := func(m tea.Msg) {
		n, cmd := s.c.Update(m)
		s.c = n
		s.keep.late(cmd)
		switch r := cmdMsg(cmd).(type) {
		case nil:
		case selectc.ConfirmSelectionMsg[int]:
			v := []int{}
			if r.OK {
				v = append(v, r.Value)
			}
			s.msg = plain("confirm", r.OK, v)
		case tea.QuitMsg:
			s.msg = plain("quit", true, nil)
		default:
			s.msg = plain("?", false, nil)
		}
	}
	switch op.s("k") {
	case "key":
		upd(key(op))
	case "height":
		s.c = s.c.WithHeight(op.n("n"))
	case "filterable":
		s.c = s.c.WithFilterable(op.b("on"))
	case "filterfunc":
		s.c = s.c.WithFilterFunc(sfilter(op.s("f")))
	case "renderfunc":
		s.c = s.c.WithRenderFunc(srender)
	case "options":
		s.c = s.c.Options(sopts(op.arr("opts"))...)
	default:
		upd(otherMsg(op))
	}
}
func (s *selectSys) Obs() any {
	o := s.look(s.c)
	o["msg"] = s.msg
	o["frozen"] = s.keep.ok()
	return o
}

// ---- multiple choice
type multiSys struct {
	c    *multiselect.MultiSelect[int]
	msg  J
	keep frozenSet
}

func (s *multiSys) look(c *multiselect.MultiSelect[int]) J {
	got, idx := c.SelectedItems(), c.SelectedIndices()
	sel := append([]int{}, got...)
	for i, x := range idx {
		if i >= len(sel) || sel[i] != x+1 {
			sel = append(sel, -100-x) // items and indices disagree
		}
	}
	scribble(got, -7)
	scribble(idx, -7)
	return J{"view": linesAtoms(c.View()), "sel": sel, "n": c.SelectionCount(), "foc": []int{}}
}
func (s *multiSys) Apply(op J) {
	c := s.c
	s.keep.add(func() any { return s.look(c) })
	s.msg = plain("none", false, nil)
	upd := func(m tea.Msg) {
		n, cmd := s.c.Update(m)
		s.c = n
		s.keep.late(cmd)
		switch r := cmdMsg(cmd).(type) {
		case nil:
		case multiselect.ConfirmSelectionMsg[int]:
			s.msg = plain("confirm", true, append([]int{}, r.Values...))
		case tea.QuitMsg:
			s.msg = plain("quit", true, nil)
		default:
			s.msg = plain("?", false, nil)
		}
	}
	switch op.s("k") {
	case "key":
		upd(key(op))
	case "height":
		s.c = s.c.WithHeight(op.n("n"))
	case "filterable":
		s.c = s.c.WithFilterable(op.b("on"))
	case "filterfunc":
		s.c = s.c.WithFilterFunc(mfilter(op.s("f")))
	case "renderfunc":
		s.c = s.c.WithRenderFunc(mrender)
	case "options":
		s.c = s.c.Options(mopts(op.arr("opts"))...)
	case "selected":
		s.c = s.c.Selected(op.ints("i")...)
	case "min":
		s.c = s.c.Min(op.n("n"))
	case "max":
		s.c = s.c.Max(op.n("n"))
	default:
		upd(otherMsg(op))
	}
}
func (s *multiSys) Obs() any {
	o := s.look(s.c)
	o["msg"] = s.msg
	o["frozen"] = s.keep.ok()
	return o
}

// The option types are internal, so everything that names them goes through inference.
var sopts = mkopts(selectc.Opt[int])
var mopts = mkopts(multiselect.Opt[int])

type option[O any] interface {
	WithDisabled(bool) O
	Label() string
	Value() int
}

func mkopts[O option[O]](opt func(string, int, ...string) O) func([]any) []O {
	return func(os []any) []O {
		r := []O{}
		for i, x := range os {
			j := J(x.(map[string]any))
			o := opt(atoms(j["label"]), i+1, atoms(j["desc"]))
			if j.b("dis") {
				o = o.WithDisabled(true)
			}
			r = append(r, o)
		}
		return r
	}
}

// ownFilter is an application's own idea of which labels a filter text is about.
func ownFilter(f, label, q string) bool {
	if f == "suf" {
		return strings.HasSuffix(label, q)
	}
	return strings.HasPrefix(label, q)
}
func row[O option[O]](o O, i int, foc, sel bool) string {
	f := "."
	if foc {
		f = ">"
	}
	m := "."
	if sel {
		m = "*"
	}
	return strconv.Itoa(i) + f + m + o.Label()
}

var sfilter = mkfilter(selectc.Opt[int])
var mfilter = mkfilter(multiselect.Opt[int])
var srender = mkrender(selectc.Opt[int])
var mrender = mkrender2(multiselect.Opt[int])

func mkfilter[O option[O]](func(string, int, ...string) O) func(string) func(O, string) bool {
	return func(f string) func(O, string) bool {
		return func(o O, q string) bool { return ownFilter(f, o.Label(), q) }
	}
}
func mkrender[O option[O]](func(string, int, ...string) O) func(O, int, bool) string {
	return func(o O, i int, foc bool) string { return row(o, i, foc, false) }
}
func mkrender2[O option[O]](func(string, int, ...string) O) func(O, int, bool, bool) string {
	return row[O]
}

func init() {
	systems["select"] = func(cfg J) Sys {
		s := &selectSys{c: selectc.New[int](atoms(cfg["title"])), msg: plain("none", false, nil)}
		s.c = s.c.Options(sopts(cfg.arr("opts"))...)
		return s
	}
	systems["multiselect"] = func(cfg J) Sys {
		s := &multiSys{c: multiselect.New[int](atoms(cfg["title"])), msg: plain("none", false, nil)}
		s.c = s.c.Options(mopts(cfg.arr("opts"))...)
		return s
	}
}
