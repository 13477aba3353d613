package main

import (
	"regexp"
	"strconv"

	"github.com/phoenix-tui/phoenix/components/list"
	tea "github.com/phoenix-tui/phoenix/tea"
)

var sgr = regexp.MustCompile("\x1b\\[[0-9;:]*m")

// unstyled drops colours and text attributes.
func unstyled(s string) string { return sgr.ReplaceAllString(s, "") }

type listSys struct {
	l      *list.List
	labels []string
	quit   bool
	keep   frozenSet
}

func (s *listSys) look(l *list.List) J {
	sel, foc := []int{}, []int{}
	got, idx := l.SelectedItems(), l.SelectedIndices()
	for _, v := range got {
		sel = append(sel, v.(int))
	}
	scribble(got, any(-7))
	if v := l.FocusedItem(); v != nil {
		foc = []int{v.(int), l.FocusedIndex()}
	}
	at := append([]int{}, idx...)
	scribble(idx, -7)
	return J{"view": linesAtoms(unstyled(l.View())), "sel": sel, "idx": at, "foc": foc}
}
func (s *listSys) Apply(op J) {
	l := s.l
	s.keep.add(func() any { return s.look(l) })
	s.quit = false
	upd := func(m tea.Msg) {
		n, cmd := s.l.Update(m)
		s.l = n
		s.keep.late(cmd)
		if m := cmdMsg(cmd); m != nil {
			_, s.quit = m.(tea.QuitMsg)
		}
	}
	switch op.s("k") {
	case "key":
		upd(key(op))
	case "height":
		s.l = s.l.Height(op.n("n"))
	case "typing":
		s.l = s.l.ShowFilter(op.b("on"))
	case "filterfunc":
		s.l = s.l.Filter(func(v any, q string) bool { return ownFilter(op.s("f"), s.labels[v.(int)-1], q) })
	case "renderfunc":
		s.l = s.l.ItemRenderer(func(v any, i int, sel, foc bool) string {
			a, b := ".", "."
			if foc {
				a = ">"
			}
			if sel {
				b = "*"
			}
			return strconv.Itoa(i) + a + b + strconv.Itoa(v.(int))
		})
	default:
		upd(otherMsg(op))
	}
}
func (s *listSys) Obs() any {
	o := s.look(s.l)
	o["quit"] = s.quit
	o["frozen"] = s.keep.ok()
	return o
}
func init() {
	systems["list"] = func(cfg J) Sys {
		s := &listSys{}
		vals, labels := []any{}, []string{}
		for i, t := range cfg.arr("items") {
			vals = append(vals, i+1)
			s.labels = append(s.labels, atoms(t))
			labels = append(labels, atoms(t))
		}
		if cfg.b("multi") {
			s.l = list.NewMultiSelect(vals, labels)
		} else {
			s.l = list.NewSingleSelect(vals, labels)
		}
		scribble(vals, any(-7))
		scribble(labels, "changed")
		return s
	}
}
