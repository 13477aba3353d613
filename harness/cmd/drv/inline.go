package main

import (
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/phoenix-tui/phoenix/tea"
	ptest "github.com/phoenix-tui/phoenix/testing"
)

// outBuf collects what a program writes.
type outBuf struct {
	mu sync.Mutex
	b  []byte
}

func (o *outBuf) Write(p []byte) (int, error) {
	o.mu.Lock()
	defer o.mu.Unlock()
	o.b = append(o.b, p...)
	return len(p), nil
}
func (o *outBuf) take() string {
	o.mu.Lock()
	defer o.mu.Unlock()
	s := string(o.b)
	o.b = nil
	return s
}

type setView struct{ v string }
type barrier struct{ c chan struct{} }

// viewModel shows whatever view it was last told to show.
type viewModel struct{ v string }

func (m viewModel) Init() tea.Cmd { return nil }
func (m viewModel) View() string  { return m.v }
func (m viewModel) Update(msg tea.Msg) (viewModel, tea.Cmd) {
	switch x := msg.(type) {
	case setView:
		m.v = x.v
	case barrier:
		close(x.c)
	}
	return m, nil
}

// viewStr: items >= 0 are atoms, -(c+1) is the SGR code c.
func viewStr(lines []any) string {
	out := []string{}
	for _, l := range lines {
		var b strings.Builder
		for _, it := range toInts(l) {
			if it < 0 {
				b.WriteString("\x1b[" + strconv.Itoa(-it-1) + "m")
			} else {
				b.WriteString(atomStr(it))
			}
		}
		out = append(out, b.String())
	}
	return strings.Join(out, "\n")
}

type inlineSys struct {
	p  *tea.Program[viewModel]
	o  *outBuf
	ok bool
}

func init() {
	systems["inline"] = func(c J) Sys {
		s := &inlineSys{o: &outBuf{}, ok: true}
		s.p = tea.New(viewModel{v: viewStr(c.arr("lines"))}, tea.WithInput[viewModel](strings.NewReader("")),
			tea.WithOutput[viewModel](s.o), tea.WithTerminal[viewModel](ptest.NewMockTerminal()))
		return s
	}
}

func (s *inlineSys) Close() { s.p.Stop() }

// sync waits until everything sent before has been handled and drawn.
func (s *inlineSys) sync() {
	for i := 0; i < 2; i++ {
		b := barrier{make(chan struct{})}
		for n := 0; s.p.Send(b) != nil; n++ {
			if n > 50 {
				s.ok = false
				return
			}
		}
		select {
		case <-b.c:
		case <-time.After(10 * time.Second):
			s.ok = false
		}
	}
}

func (s *inlineSys) Apply(op J) {
	switch op.s("k") {
	case "start":
		if s.p.Start() != nil {
			s.ok = false
		}
	case "view":
		_ = s.p.Send(setView{viewStr(op.arr("lines"))})
	case "size":
		_ = s.p.Send(tea.WindowSizeMsg{Width: op.n("w"), Height: op.n("h")})
	case "suspend":
		if s.p.Suspend() != nil {
			s.ok = false
		}
	case "resume":
		if s.p.Resume() != nil {
			s.ok = false
		}
	}
	s.sync()
	op["out"] = lex(s.o.take())
}

func (s *inlineSys) Obs() any { return J{"shown": s.ok, "quiet": s.ok} }
