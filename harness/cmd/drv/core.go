//go:build vcore

package main

import (
	"os"
	"strings"

	"github.com/phoenix-tui/phoenix"
	"github.com/phoenix-tui/phoenix/core"
	"github.com/phoenix-tui/phoenix/layout"
	"github.com/phoenix-tui/phoenix/style"
)

func init() {
	systems["width"] = func(cfg J) Sys { return &widthSys{runesOf(cfg["text"])} }
	systems["core"] = func(J) Sys { return &coreSys{} }
	serial["core"] = true // the environment
}

type widthSys struct{ text string }

func (s *widthSys) Apply(op J) { s.text += runesOf(op["cps"]) }

// framed is the number of columns between the corners of a border (layout draws it around the space for a border).
func framed(out string) int { return strings.Count(strings.SplitN(out, "\n", 2)[0], "─") }

func (s *widthSys) Obs() any {
	rest, ctl := []int{}, s.text == ""
	for i, r := range s.text {
		rest = append(rest, core.StringWidth(s.text[i:]))
		ctl = ctl || r < 32 || r >= 127 && r < 160 || r == 173 || r == 8203 || r == 65279
	}
	cell, boxes := core.NewCellAuto(s.text), []int{-1, -1}
	if !ctl {
		boxes = []int{framed(layout.NewBox(s.text).Border().Render()) - 2, framed(style.Render(style.New().Border(style.NormalBorder), s.text))}
	}
	return map[string]any{"w": core.StringWidth(s.text), "rest": rest,
		"cell": cell.Width, "same": cell.Content == s.text, "boxes": boxes}
}

type coreSys struct {
	terms []*core.Terminal
	found *core.Capabilities
	val   []int
	err   bool
}

func (s *coreSys) Apply(op J) {
	s.found, s.val, s.err = nil, nil, false
	switch op.s("k") {
	case "detect":
		env := map[string]string{}
		for k, v := range op.obj("env") {
			env[k], _ = v.(string)
		}
		if op.s("plat") != "real" {
			s.found = core.VDetect(env, op.s("plat"))
			return
		}
		for k, v := range env {
			if old, ok := os.LookupEnv(k); ok {
				defer os.Setenv(k, old)
			} else {
				defer os.Unsetenv(k)
			}
			if v == "" {
				os.Unsetenv(k)
			} else {
				os.Setenv(k, v)
			}
		}
		if viaRoot(op) {
			s.found = phoenix.AutoDetectTerminal().Capabilities()
			return
		}
		s.found = core.AutoDetect().Capabilities()
	case "term":
		switch how := op.s("how"); {
		case how == "plain" && viaRoot([]any{op, len(s.terms)}):
			s.terms = append(s.terms, phoenix.NewTerminal())
		case how == "plain":
			s.terms = append(s.terms, core.NewTerminal())
		case how == "nil":
			s.terms = append(s.terms, core.NewTerminalWithCapabilities(nil))
		default:
			c := op.obj("caps")
			if viaRoot(op) {
				d := []core.ColorDepth{phoenix.ColorDepthNone, phoenix.ColorDepth8, phoenix.ColorDepth256, phoenix.ColorDepthTrueColor}
				dep := core.ColorDepth(c.n("depth"))
				for _, x := range d {
					if int(x) == c.n("depth") {
						dep = x
					}
				}
				s.terms = append(s.terms, phoenix.NewTerminalWithCapabilities(
					phoenix.NewCapabilities(c.b("ansi"), dep, c.b("mouse"), c.b("alt"), c.b("cur"))))
				break
			}
			s.terms = append(s.terms, core.NewTerminalWithCapabilities(
				core.NewCapabilities(c.b("ansi"), core.ColorDepth(c.n("depth")), c.b("mouse"), c.b("alt"), c.b("cur"))))
		}
	case "size":
		t := s.terms[op.n("i")-1]
		if op.n("w")%2 == 0 {
			if viaRoot(op) {
				s.terms = append(s.terms, t.WithSize(phoenix.NewSize(op.n("w"), op.n("h"))))
				break
			}
			s.terms = append(s.terms, t.WithSize(core.NewSize(op.n("w"), op.n("h"))))
		} else {
			s.terms = append(s.terms, t.WithSize(core.Size{Width: op.n("w"), Height: op.n("h")}))
		}
	case "raw":
		var rm *core.RawMode
		if op.b("ok") {
			rm, _ = core.NewRawMode("state")
		}
		s.terms = append(s.terms, s.terms[op.n("i")-1].WithRawMode(rm))
	case "pos":
		p := core.NewPosition(op.n("r"), op.n("c"))
		q := p.Add(op.n("dr"), op.n("dc"))
		s.val = []int{p.Row, p.Col, q.Row, q.Col}
	case "cell":
		c := core.NewCell(runesOf(op["t"]), op.n("w"))
		s.val = []int{c.Width}
		if c.Content != runesOf(op["t"]) {
			s.val = nil
		}
	case "rawmode":
		if op.b("ok") {
			rm, err := core.NewRawMode("state")
			s.err = err != nil || rm.OriginalState() != "state" || rm.IsEnabled()
		} else {
			_, err := core.NewRawMode(nil)
			s.err = err != nil
		}
	}
}

func capsObs(c *core.Capabilities) map[string]any {
	return map[string]any{"ansi": c.SupportsANSI(), "depth": int(c.ColorDepth()), "mouse": c.SupportsMouse(), "alt": c.SupportsAltScreen(),
		"cur": c.SupportsCursorControl(), "color": c.SupportsColor(), "full": c.SupportsTrueColor(), "name": c.ColorDepth().String()}
}

func (s *coreSys) Obs() any {
	terms, found, val := []any{}, s.found, s.val
	for _, t := range s.terms {
		terms = append(terms, map[string]any{"caps": capsObs(t.Capabilities()), "w": t.Size().Width, "h": t.Size().Height, "raw": t.IsRawModeEnabled()})
	}
	if found == nil {
		found = core.NewTerminal().Capabilities()
	}
	if val == nil {
		val = []int{}
	}
	return map[string]any{"terms": terms, "found": capsObs(found), "val": val, "err": s.err}
}
