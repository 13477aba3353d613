package main

import (
	"os"
	"strconv"
	"strings"
	"sync"

	"github.com/phoenix-tui/phoenix/terminal"
	ptest "github.com/phoenix-tui/phoenix/testing"
)

// termCall performs one terminal operation {m, a, txt} and reports the error flag and the answer.
func termCall(t terminal.Terminal, op J) (bool, []int) {
	a := op.ints("a")
	val := []int{}
	var e error
	switch op.s("m") {
	case "SetCursorPosition":
		e = t.SetCursorPosition(a[0], a[1])
	case "GetCursorPosition":
		var x, y int
		x, y, e = t.GetCursorPosition()
		val = []int{x, y}
	case "MoveCursorUp":
		e = t.MoveCursorUp(a[0])
	case "MoveCursorDown":
		e = t.MoveCursorDown(a[0])
	case "MoveCursorLeft":
		e = t.MoveCursorLeft(a[0])
	case "MoveCursorRight":
		e = t.MoveCursorRight(a[0])
	case "SaveCursorPosition":
		e = t.SaveCursorPosition()
	case "RestoreCursorPosition":
		e = t.RestoreCursorPosition()
	case "HideCursor":
		e = t.HideCursor()
	case "ShowCursor":
		e = t.ShowCursor()
	case "SetCursorStyle":
		e = t.SetCursorStyle(terminal.CursorStyle(a[0]))
	case "Clear":
		e = t.Clear()
	case "ClearLine":
		e = t.ClearLine()
	case "ClearFromCursor":
		e = t.ClearFromCursor()
	case "ClearLines":
		e = t.ClearLines(a[0])
	case "Write":
		e = t.Write(atomsStr(op.ints("txt")))
	case "WriteAt":
		e = t.WriteAt(a[0], a[1], atomsStr(op.ints("txt")))
	case "ReadScreenBuffer":
		_, e = t.ReadScreenBuffer()
	case "Size":
		var x, y int
		x, y, e = t.Size()
		val = []int{x, y}
	case "ColorDepth":
		val = []int{t.ColorDepth()}
	case "SupportsDirectPositioning":
		val = []int{b2i(t.SupportsDirectPositioning())}
	case "SupportsReadback":
		val = []int{b2i(t.SupportsReadback())}
	case "SupportsTrueColor":
		val = []int{b2i(t.SupportsTrueColor())}
	case "Platform":
		val = []int{int(t.Platform())}
	case "EnterAltScreen":
		e = t.EnterAltScreen()
	case "ExitAltScreen":
		e = t.ExitAltScreen()
	case "IsInAltScreen":
		val = []int{b2i(t.IsInAltScreen())}
	case "IsInRawMode":
		val = []int{b2i(t.IsInRawMode())}
	case "EnterRawMode":
		e = t.EnterRawMode()
	case "ExitRawMode":
		e = t.ExitRawMode()
	default:
		panic("method " + op.s("m"))
	}
	return e != nil, val
}

var styleByName = map[string]int{}

func init() {
	for i := 0; i < 3; i++ {
		styleByName[terminal.CursorStyle(i).String()] = i
	}
}

// parseCall splits a recorded call into method, integer arguments and text argument.
func parseCall(s string) (string, []int, []int) {
	m, rest, ok := strings.Cut(s, "(")
	a, txt := []int{}, []int{}
	if !ok {
		return m, a, txt
	}
	rest = strings.TrimSuffix(rest, ")")
	for rest != "" {
		if rest[0] == '"' {
			if u, err := strconv.Unquote(rest); err == nil {
				txt = strAtoms(u)
			} else {
				a = append(a, -999)
			}
			break
		}
		var p string
		p, rest, _ = strings.Cut(rest, ", ")
		if n, err := strconv.Atoi(p); err == nil {
			a = append(a, n)
		} else if n, ok := styleByName[p]; ok {
			a = append(a, n)
		} else {
			a = append(a, -998)
		}
	}
	return m, a, txt
}

type mockSys struct {
	mock  *ptest.MockTerminal
	t     terminal.Terminal
	c     *capture
	wrote bool
	err   bool
	val   []int
	cnt   int
}

func init() {
	serial["mock"] = true
	var last *mockSys
	systems["mock"] = func(c J) Sys {
		if last != nil {
			last.c.closeRead()
			last.c.w.Close()
		}
		s := &mockSys{c: newCapture(), val: []int{}}
		last = s
		if c.b("null") {
			s.t = ptest.NewNullTerminal()
		} else {
			s.mock = ptest.NewMockTerminal()
			s.t = s.mock
		}
		return s
	}
	wholes["mockconc"] = mockConc
}

func (s *mockSys) Apply(op J) {
	s.err, s.val, s.cnt = false, []int{}, 0
	so, se := os.Stdout, os.Stderr
	os.Stdout, os.Stderr = s.c.w, s.c.w
	switch op.s("k") {
	case "reset":
		if s.mock != nil {
			s.mock.Reset()
		}
	case "count":
		if s.mock != nil {
			s.cnt = s.mock.CallCount(op.s("m"))
		}
	default:
		s.err, s.val = termCall(s.t, op)
	}
	os.Stdout, os.Stderr = so, se
	if s.c.take() != "" {
		s.wrote = true
	}
}

func (s *mockSys) Obs() any {
	calls := [][]any{}
	if s.mock != nil {
		for _, c := range s.mock.Calls {
			m, a, t := parseCall(c)
			calls = append(calls, []any{m, a, t})
		}
	}
	return J{"calls": calls, "err": s.err, "val": s.val, "cnt": s.cnt, "wrote": s.wrote}
}

// mockConc runs the callers of cfg.threads concurrently on one mock terminal.
func mockConc(c J) J {
	m := ptest.NewMockTerminal()
	th := c.obj("cfg").arr("threads")
	var wg, ready sync.WaitGroup
	start := make(chan struct{})
	for _, x := range th {
		wg.Add(1)
		ready.Add(1)
		go func(ops []any) {
			defer wg.Done()
			ready.Done()
			<-start
			for _, o := range ops {
				op := J(o.(map[string]any))
				e, v := termCall(m, op)
				op["err"], op["val"] = e, v
			}
		}(x.([]any))
	}
	ready.Wait()
	close(start)
	wg.Wait()
	ev := []any{}
	for _, s := range m.Calls {
		mm, a, t := parseCall(s)
		ev = append(ev, J{"k": "call", "m": mm, "a": a, "txt": t})
	}
	ev = append(ev, J{"k": "end"})
	return J{"cfg": c["cfg"], "ops": ev}
}
