package main

import (
	"fmt"
	"os"
	"regexp"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/phoenix-tui/phoenix/mouse"
)

// timed lists components whose cases run in a bubble with a clock of its own.
var timed = map[string]bool{}

var bubbleT *testing.T

// withTest runs f inside a test, which bubbles need.
func withTest(f func()) {
	os.Args = os.Args[:1]
	testing.Main(func(_, _ string) (bool, error) { return true, nil },
		[]testing.InternalTest{{Name: "drv", F: func(t *testing.T) { bubbleT = t; f(); os.Exit(0) }}}, nil, nil)
}

// inBubble runs a whole case under a virtual clock.  What is still stuck when it ends is given up.
func inBubble(f wholeFn) wholeFn {
	return func(c J) J {
		res := make(chan J, 1)
		go func() {
			defer func() { _ = recover() }()
			synctest.Test(bubbleT, func(*testing.T) { res <- f(c) })
		}()
		select {
		case r := <-res:
			return r
		case <-time.After(caseLimit):
			hung.Add(1)
			return J{"cfg": c["cfg"], "ops": []any{map[string]any{"k": "final", "running": true, "susp": false, "allret": false}}}
		}
	}
}

// bubbled runs one case at a time under a virtual clock, which starts at the same moment in every case.
func bubbled(mk func(cfg J) Sys) wholeFn {
	return func(c J) J {
		var mu sync.Mutex
		dead := false
		ops, obs, fail := []any{}, []any{}, ""
		add := func(op, ob any) {
			mu.Lock()
			defer mu.Unlock()
			if dead {
				return
			}
			if op != nil {
				ops = append(ops, op)
			}
			if ob != nil {
				obs = append(obs, ob)
			}
		}
		result := func() J {
			r := J{"cfg": c["cfg"], "ops": ops, "obs": obs}
			if fail != "" {
				r["err"] = fail
			}
			return r
		}
		if hung.Load() >= 4 {
			obs = append(obs, map[string]any{"panic": true})
			return result()
		}
		done := make(chan struct{})
		go func() {
			defer close(done)
			synctest.Test(bubbleT, func(*testing.T) {
				defer func() {
					if r := recover(); r != nil {
						add(nil, map[string]any{"panic": true})
						fail = fmt.Sprint(r)
					}
				}()
				s := mk(c.obj("cfg"))
				if cl, ok := s.(interface{ Close() }); ok {
					defer cl.Close()
				}
				add(nil, s.Obs())
				for _, o := range c.arr("ops") {
					add(o, nil)
					s.Apply(J(o.(map[string]any)))
					add(nil, s.Obs())
				}
			})
		}()
		select {
		case <-done:
		case <-time.After(caseLimit):
			hung.Add(1)
			add(nil, map[string]any{"panic": true})
			mu.Lock()
			dead = true
			fail = "no result within the case limit"
			mu.Unlock()
		}
		return result()
	}
}

func init() {
	for name, mk := range map[string]func(cfg J) Sys{
		"mouse": func(J) Sys { return &mouseSys{m: mouse.New(), menu: []int{0, 0}} },
	} {
		wholes[name], timed[name], serial[name] = bubbled(mk), true, true
	}
}

type mouseSys struct {
	m     *mouse.Mouse
	out   []any
	err   bool
	hov   string
	menu  []int
	log   *os.File // standard output
	pipe  bool
	modes map[string]bool
	old   *os.File
}

var (
	mtypes = map[mouse.EventType]string{mouse.EventPress: "press", mouse.EventRelease: "release", mouse.EventClick: "click",
		mouse.EventDoubleClick: "double", mouse.EventTripleClick: "triple", mouse.EventDrag: "drag", mouse.EventMotion: "motion",
		mouse.EventScroll: "scroll", mouse.EventHoverEnter: "enter", mouse.EventHoverLeave: "leave", mouse.EventHoverMove: "move"}
	mbuttons = map[mouse.Button]string{mouse.ButtonNone: "none", mouse.ButtonLeft: "left", mouse.ButtonMiddle: "middle",
		mouse.ButtonRight: "right", mouse.ButtonWheelUp: "up", mouse.ButtonWheelDown: "down"}
	modeSeq = regexp.MustCompile(`\x1b\[\?([0-9;]*)([hl])`)
)

func (s *mouseSys) Close() {
	if s.old != nil {
		os.Stdout = s.old
		s.log.Close()
	}
}

// capture puts a file in the place of the standard output.
func (s *mouseSys) capture() {
	if s.old != nil {
		return
	}
	s.old = os.Stdout
	s.reopen(true)
}

func (s *mouseSys) reopen(ok bool) {
	if s.log != nil {
		s.log.Close()
	}
	f, err := os.CreateTemp("", "verif-mouse")
	if err != nil {
		panic(err)
	}
	os.Remove(f.Name())
	s.log, s.pipe = f, ok
	os.Stdout = f
	if !ok {
		f.Close()
	}
}

func (s *mouseSys) terminal() {
	if s.old == nil || !s.pipe {
		return
	}
	b := make([]byte, 4096)
	n, _ := s.log.ReadAt(b, 0)
	if s.modes == nil {
		s.modes = map[string]bool{}
	}
	for _, m := range modeSeq.FindAllStringSubmatch(string(b[:n]), -1) {
		for _, p := range strings.Split(m[1], ";") {
			s.modes[p] = m[2] == "h"
		}
	}
	if rest := modeSeq.ReplaceAllString(string(b[:n]), ""); rest != "" {
		s.modes["rest "+rest] = true
	}
	s.log.Truncate(0)
	s.log.Seek(0, 0)
}

func (s *mouseSys) Apply(op J) {
	s.out, s.err, s.hov, s.menu = nil, false, "", []int{0, 0}
	switch op.s("k") {
	case "seq":
		time.Sleep(time.Duration(op.n("dt")) * time.Millisecond)
		evs, err := s.m.ParseSequence(bytesOf(op["bytes"]))
		s.err = err != nil
		for _, e := range evs {
			m := 0
			for i, has := range []bool{e.Modifiers().HasShift(), e.Modifiers().HasAlt(), e.Modifiers().HasCtrl()} {
				if has {
					m |= 1 << i
				}
			}
			s.out = append(s.out, map[string]any{"t": mtypes[e.Type()], "b": mbuttons[e.Button()],
				"x": e.Position().X(), "y": e.Position().Y(), "m": m, "d": s.m.ScrollDelta(e)})
		}
	case "reset":
		s.m.Reset()
	case "hover":
		var areas []mouse.ComponentArea
		for _, a := range op.arr("areas") {
			v := J(a.(map[string]any))
			areas = append(areas, mouse.ComponentArea{ID: v.s("id"), Area: mouse.NewBoundingBox(v.n("x"), v.n("y"), v.n("w"), v.n("h"))})
		}
		s.hov = mtypes[s.m.ProcessHover(mouse.NewPosition(op.n("x"), op.n("y")), areas)]
	case "menu":
		p := s.m.CalculateMenuPosition(mouse.NewPosition(op.n("x"), op.n("y")), op.n("mw"), op.n("mh"), op.n("sw"), op.n("sh"))
		s.menu = []int{p.X(), p.Y()}
	case "power":
		s.capture()
		var err error
		if op.b("on") {
			err = s.m.Enable()
		} else {
			err = s.m.Disable()
		}
		s.err = err != nil
		s.terminal()
	case "out":
		s.capture()
		s.reopen(op.b("ok"))
	}
}

func (s *mouseSys) Obs() any {
	other, out := false, s.out
	for k, v := range s.modes {
		other = other || v && k != "1006" && k != "1002"
	}
	if out == nil {
		out = []any{}
	}
	return map[string]any{"out": out, "err": s.err, "drag": s.m.IsDragging(), "over": s.m.CurrentHoverComponent(), "hov": s.hov,
		"menu": s.menu, "on": s.m.IsEnabled(), "sgr": s.modes["1006"], "motion": s.modes["1002"], "other": other}
}
