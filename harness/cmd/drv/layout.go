package main

import (
	"strings"

	"github.com/phoenix-tui/phoenix/layout"
)

func boxStep(b *layout.Box, op J) {
	n := op.n("n")
	switch op.s("k") {
	case "pad":
		switch op.s("side") {
		case "all":
			b.PaddingAll(n)
		case "vh":
			b.PaddingVH(n, op.n("m"))
		case "given":
			q := op.ints("q")
			b.Padding(q[0], q[1], q[2], q[3])
		}
	case "mar":
		switch op.s("side") {
		case "all":
			b.MarginAll(n)
		case "vh":
			b.MarginVH(n, op.n("m"))
		case "given":
			q := op.ints("q")
			b.Margin(q[0], q[1], q[2], q[3])
		}
	case "border":
		if op.b("on") {
			b.Border()
		} else {
			b.NoBorder()
		}
	case "size":
		switch op.s("v") {
		case "w":
			b.Width(n)
		case "h":
			b.Height(n)
		case "minw":
			b.MinWidth(n)
		case "maxw":
			b.MaxWidth(n)
		case "minh":
			b.MinHeight(n)
		case "maxh":
			b.MaxHeight(n)
		}
	case "align":
		switch op.s("h") + " " + op.s("v") {
		case "left top":
			if op.b("top") {
				b.AlignTop()
			} else {
				b.AlignLeft()
			}
		case "center middle":
			b.AlignCenter()
		case "right top":
			b.AlignRight()
		case "left middle":
			b.AlignMiddle()
		case "left bottom":
			b.AlignBottom()
		case "center top":
			b.Align(1, 0)
		case "right middle":
			b.Align(2, 1)
		case "center bottom":
			b.Align(1, 2)
		case "right bottom":
			b.Align(2, 2)
		}
	}
}

type boxSys struct {
	b    *layout.Box
	w, h int
}

func rowsOf(s string) [][]int {
	r := [][]int{}
	for _, l := range strings.Split(s, "\n") {
		r = append(r, strAtoms(l))
	}
	return r
}
func (s *boxSys) Apply(op J) { boxStep(s.b, op) }
func (s *boxSys) Obs() any {
	p := s.b.Layout(s.w, s.h)
	out := s.b.Render()
	q := s.b.Layout(s.w, s.h)
	return J{"t": rowsOf(out), "again": out == s.b.Render() && out == s.b.String() && p == q, "at": []int{p.X(), p.Y()}}
}

type flexSys struct {
	f     *layout.Flex
	boxes []*layout.Box
	w, h  int
}

func (s *flexSys) Apply(op J) {
	switch op.s("k") {
	case "add":
		ops := op.arr("ops")
		if len(ops) == 0 {
			s.f.AddRaw(linesStr(op["c"]))
			return
		}
		b := layout.NewBox(linesStr(op["c"]))
		for _, o := range ops {
			boxStep(b, J(o.(map[string]any)))
		}
		s.f.Add(b)
		s.boxes = append(s.boxes, b)
	case "gap":
		s.f.Gap(op.n("n"))
	case "justify":
		switch op.s("v") {
		case "start":
			s.f.JustifyStart()
		case "end":
			s.f.JustifyEnd()
		case "center":
			s.f.JustifyCenter()
		case "between":
			s.f.JustifySpaceBetween()
		}
	case "align":
		switch op.s("v") {
		case "stretch":
			s.f.AlignStretch()
		case "start":
			s.f.AlignStart()
		case "end":
			s.f.AlignEnd()
		case "center":
			s.f.AlignCenter()
		}
	case "size":
		if op.s("v") == "w" {
			s.f.Width(op.n("n"))
		} else {
			s.f.Height(op.n("n"))
		}
	case "late":
		for _, b := range s.boxes {
			b.PaddingAll(3).Border()
		}
	}
}
func (s *flexSys) Obs() any { return J{"t": rowsOf(s.f.Render(s.w, s.h))} }

func init() {
	systems["layout"] = func(cfg J) Sys {
		return &boxSys{b: layout.NewBox(linesStr(cfg["content"])), w: cfg.n("pw"), h: cfg.n("ph")}
	}
	systems["flex"] = func(cfg J) Sys {
		f := layout.Column()
		if cfg.b("row") {
			f = layout.Row()
		}
		return &flexSys{f: f, w: cfg.n("pw"), h: cfg.n("ph")}
	}
}
