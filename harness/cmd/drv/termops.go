package main

import (
	"fmt"
	"os"

	"golang.org/x/sys/unix"

	"github.com/phoenix-tui/phoenix"
	"github.com/phoenix-tui/phoenix/terminal"
)

// pty is a pseudo terminal: the slave is handed to the code under test.
type pty struct {
	m, s *os.File
}

func openPty() *pty {
	m, err := os.OpenFile("/dev/ptmx", os.O_RDWR|unix.O_NOCTTY, 0)
	if err != nil {
		panic("no pty: " + err.Error())
	}
	_ = unix.IoctlSetPointerInt(int(m.Fd()), unix.TIOCSPTLCK, 0)
	n, err := unix.IoctlGetInt(int(m.Fd()), unix.TIOCGPTN)
	if err != nil {
		panic(err)
	}
	s, err := os.OpenFile(fmt.Sprintf("/dev/pts/%d", n), os.O_RDWR|unix.O_NOCTTY, 0)
	if err != nil {
		panic(err)
	}
	return &pty{m, s}
}
func (p *pty) attrs() unix.Termios {
	t, err := unix.IoctlGetTermios(int(p.s.Fd()), unix.TCGETS)
	if err != nil {
		return unix.Termios{}
	}
	return *t
}
func (p *pty) set(t unix.Termios) { _ = unix.IoctlSetTermios(int(p.s.Fd()), unix.TCSETS, &t) }
func (p *pty) size(w, h int) {
	_ = unix.IoctlSetWinsize(int(p.s.Fd()), unix.TIOCSWINSZ, &unix.Winsize{Row: uint16(h), Col: uint16(w)})
}
func (p *pty) close() { p.m.Close(); p.s.Close() }

// isRaw: what raw mode promises (no line buffering, no echo, no signals)
func isRaw(t unix.Termios) bool {
	return t.Lflag&(unix.ICANON|unix.ECHO|unix.ISIG) == 0 && t.Oflag&unix.OPOST == 0
}

// capture is a pipe which takes everything written to a file since the last call to take.
type capture struct {
	r int // read end, -1 once closed
	w *os.File
}

func newCapture() *capture {
	var p [2]int
	if err := unix.Pipe2(p[:], unix.O_CLOEXEC); err != nil {
		panic(err)
	}
	_ = unix.SetNonblock(p[0], true)
	return &capture{p[0], os.NewFile(uintptr(p[1]), "captured")}
}
func (c *capture) take() string {
	var out []byte
	buf := make([]byte, 4096)
	for c.r >= 0 {
		n, err := unix.Read(c.r, buf)
		if n > 0 {
			out = append(out, buf[:n]...)
		}
		if n <= 0 || err != nil {
			break
		}
	}
	return string(out)
}
func (c *capture) closeRead() {
	if c.r >= 0 {
		unix.Close(c.r)
		c.r = -1
	}
}

type topsSys struct {
	t    terminal.Terminal
	c    *capture
	p    *pty
	null *os.File
	orig unix.Termios
	hung bool
	tty  bool
	err  bool
	val  []int
}

var realStdout, realStdin = os.Stdout, os.Stdin

var topsLast *topsSys

func init() {
	serial["termops"] = true
	systems["termops"] = func(c J) Sys {
		if topsLast != nil {
			topsLast.done()
		}
		s := &topsSys{c: newCapture(), p: openPty(), tty: c.b("tty"), val: []int{}}
		topsLast = s
		s.orig = s.p.attrs()
		if c.b("odd") {
			s.orig.Lflag &^= unix.ECHO
			s.orig.Cc[unix.VMIN] = 3
			s.p.set(s.orig)
			s.orig = s.p.attrs()
		}
		os.Stdout = s.c.w
		os.Stdin = s.p.s
		if !s.tty {
			s.null, _ = os.Open("/dev/null")
			os.Stdin = s.null
		}
		if c.b("auto") {
			if s.t = terminal.New(); viaRoot(c) {
				s.t = phoenix.NewPlatformTerminal()
			}
		} else {
			if s.t = terminal.NewANSI(); viaRoot(c) {
				s.t = phoenix.NewANSITerminal()
			}
		}
		os.Stdout, os.Stdin = realStdout, realStdin
		return s
	}
}

func (s *topsSys) done() {
	s.c.closeRead()
	s.c.w.Close()
	s.p.close()
	if s.null != nil {
		s.null.Close()
	}
}

func (s *topsSys) Apply(op J) {
	s.val = []int{}
	var e error
	switch op.s("k") {
	case "setpos":
		e = s.t.SetCursorPosition(op.n("x"), op.n("y"))
	case "up":
		e = s.t.MoveCursorUp(op.n("n"))
	case "down":
		e = s.t.MoveCursorDown(op.n("n"))
	case "left":
		e = s.t.MoveCursorLeft(op.n("n"))
	case "right":
		e = s.t.MoveCursorRight(op.n("n"))
	case "save":
		e = s.t.SaveCursorPosition()
	case "restore":
		e = s.t.RestoreCursorPosition()
	case "hide":
		e = s.t.HideCursor()
	case "show":
		e = s.t.ShowCursor()
	case "style":
		st := []terminal.CursorStyle{terminal.CursorBlock, terminal.CursorUnderline, terminal.CursorBar}
		if n := op.n("n"); n < 3 {
			e = s.t.SetCursorStyle(st[n])
		} else {
			e = s.t.SetCursorStyle(terminal.CursorStyle(77))
		}
	case "clear":
		e = s.t.Clear()
	case "clearline":
		e = s.t.ClearLine()
	case "clearfrom":
		e = s.t.ClearFromCursor()
	case "clearlines":
		e = s.t.ClearLines(op.n("n"))
	case "write":
		e = s.t.Write(atomsStr(op.ints("txt")))
	case "writeat":
		e = s.t.WriteAt(op.n("x"), op.n("y"), atomsStr(op.ints("txt")))
	case "alton":
		e = s.t.EnterAltScreen()
	case "altoff":
		e = s.t.ExitAltScreen()
	case "rawon":
		e = s.t.EnterRawMode()
	case "rawoff":
		e = s.t.ExitRawMode()
	case "getpos":
		var x, y int
		x, y, e = s.t.GetCursorPosition()
		s.val = []int{x, y}
	case "readbuf":
		_, e = s.t.ReadScreenBuffer()
	case "size":
		var x, y int
		x, y, e = s.t.Size()
		s.val = []int{x, y}
	case "ptysize":
		s.p.size(op.n("w"), op.n("h"))
		os.Stdout = s.p.s
		t2 := terminal.NewANSI()
		os.Stdout = realStdout
		var x, y int
		x, y, e = t2.Size()
		s.val = []int{x, y}
	case "depth":
		os.Setenv("COLORTERM", op.s("ct"))
		os.Setenv("TERM", op.s("te"))
		s.val = []int{s.t.ColorDepth(), b2i(s.t.SupportsTrueColor())}
	case "caps":
		s.val = []int{b2i(s.t.SupportsDirectPositioning()), b2i(s.t.SupportsReadback()), b2i(s.t.Platform() == terminal.PlatformUnix)}
	case "break":
		s.c.closeRead()
	case "hangup":
		s.hung = true
		s.p.m.Close()
	case "stty": // somebody changes the terminal's own settings while it is cooked
		s.orig.Lflag ^= unix.ECHO
		s.orig.Cc[unix.VMIN] = byte(op.n("n"))
		s.p.set(s.orig)
		s.orig = s.p.attrs()
	}
	s.err = e != nil
	op["out"] = lex(s.c.take())
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func (s *topsSys) Obs() any {
	a := s.p.attrs()
	cooked := s.hung || a == s.orig
	raw := s.t.IsInRawMode()
	if !s.hung && raw && !isRaw(a) {
		cooked = true // the terminal says raw, the kernel does not: seen as a difference
	}
	return J{"screen": true, "err": s.err, "alt": s.t.IsInAltScreen(), "raw": raw, "cooked": cooked, "val": s.val}
}
