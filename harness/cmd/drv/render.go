package main

import (
	"bytes"

	"github.com/phoenix-tui/phoenix/render"
)

type renSys struct {
	r    *render.Renderer
	out  *bytes.Buffer
	bufs [2]*render.Buffer
	pool [2]bool
	ret  int
	err  bool
}

// palette used by the render cases: index -> r,g,b (true colour in the output)
func renStyle(j J) render.Style {
	s := render.StyleDefault()
	fg, bg := j.n("fg")-1000000, j.n("bg")-1000000
	part := func(c int) (r, g, b uint8) { return uint8(c >> 16), uint8(c >> 8), uint8(c) }
	fr, fgr, fb := part(fg)
	br, bgr, bb := part(bg)
	root := viaRoot(j)
	switch {
	case fg >= 0 && bg >= 0 && root:
		s = render.StyleColors(fr, fgr, fb, br, bgr, bb)
	case fg >= 0 && root:
		s = render.StyleFg(fr, fgr, fb)
	case bg >= 0 && root:
		s = render.StyleBg(br, bgr, bb)
	}
	if root { // whatever was set before is replaced
		s = s.WithBold(true).WithItalic(true).WithUnderline(true).WithReverse(true)
		s = s.WithReverse(false).WithItalic(false).WithUnderline(false).WithBold(false)
	}
	if fg >= 0 {
		s = s.WithFg(fr, fgr, fb)
	}
	if bg >= 0 {
		s = s.WithBg(br, bgr, bb)
	}
	for _, a := range j.ints("at") {
		switch a {
		case 1:
			s = s.WithBold(true)
		case 3:
			s = s.WithItalic(true)
		case 4:
			s = s.WithUnderline(true)
		case 7:
			s = s.WithReverse(true)
		}
	}
	return s
}

func init() {
	systems["render"] = func(c J) Sys {
		s := &renSys{out: &bytes.Buffer{}}
		if c.n("bufsize") > 0 {
			s.r = render.WithBufferSize(c.n("w"), c.n("h"), s.out, c.n("bufsize"))
		} else if c.n("w") == 80 && c.n("h") == 24 {
			s.r = render.NewDefault(s.out)
		} else {
			s.r = render.New(c.n("w"), c.n("h"), s.out)
		}
		s.bufs[0] = s.r.Buffer()
		s.pool[0] = true
		s.bufs[1] = render.NewBuffer(c.n("w"), c.n("h"))
		return s
	}
}

func (s *renSys) size(i int) { s.ret = 1000*s.bufs[i].Width() + s.bufs[i].Height() }

func (s *renSys) Apply(op J) {
	s.ret = 0
	i := op.n("b") - 1
	chk := func(e error) {
		if e != nil {
			s.err = true
		}
	}
	switch op.s("k") {
	case "buf":
		s.bufs[i] = render.NewBuffer(op.n("w"), op.n("h"))
		s.pool[i] = false
		s.size(i)
	case "pool":
		s.bufs[i] = s.r.Buffer()
		s.pool[i] = true
		s.size(i)
	case "release":
		s.bufs[i].Release()
		s.bufs[i] = s.r.Buffer()
		s.size(i)
	case "set":
		s.bufs[i].Set(op.n("x"), op.n("y"), []rune(atomStr(op.n("a")))[0], renStyle(op.obj("st")))
	case "str":
		s.ret = s.bufs[i].SetString(op.n("x"), op.n("y"), atomsStr(op.ints("txt")), renStyle(op.obj("st")))
	case "line":
		s.bufs[i].SetLine(op.n("y"), atomsStr(op.ints("txt")), renStyle(op.obj("st")))
	case "fill":
		s.bufs[i].Fill([]rune(atomStr(op.n("a")))[0], renStyle(op.obj("st")))
	case "clearbuf":
		s.bufs[i].Clear()
	case "render":
		chk(s.r.Render(s.bufs[i]))
	case "clear":
		chk(s.r.Clear())
	case "resize":
		chk(s.r.Resize(op.n("w"), op.n("h")))
	case "hide":
		chk(s.r.HideCursor())
	case "show":
		chk(s.r.ShowCursor())
	case "close":
		chk(s.r.Close())
	}
	op["out"] = lex(s.out.String())
	s.out.Reset()
}

func (s *renSys) Obs() any {
	return J{"shown": !s.err, "vis": true, "w": s.r.Width(), "h": s.r.Height(), "ret": s.ret}
}
