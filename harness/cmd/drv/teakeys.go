package main

import (
	"io"
	"sync"
	"sync/atomic"
	"time"

	"github.com/phoenix-tui/phoenix/tea"
	ptest "github.com/phoenix-tui/phoenix/testing"
)

var keyTypeNames = map[tea.KeyType]string{
	tea.KeyRune: "rune", tea.KeyEnter: "enter", tea.KeyBackspace: "backspace", tea.KeyTab: "tab", tea.KeyEsc: "esc",
	tea.KeySpace: "space", tea.KeyUp: "up", tea.KeyDown: "down", tea.KeyLeft: "left", tea.KeyRight: "right",
	tea.KeyHome: "home", tea.KeyEnd: "end", tea.KeyPgUp: "pgup", tea.KeyPgDown: "pgdown", tea.KeyDelete: "delete",
	tea.KeyInsert: "insert", tea.KeyF1: "f1", tea.KeyF2: "f2", tea.KeyF3: "f3", tea.KeyF4: "f4", tea.KeyF5: "f5",
	tea.KeyF6: "f6", tea.KeyF7: "f7", tea.KeyF8: "f8", tea.KeyF9: "f9", tea.KeyF10: "f10", tea.KeyF11: "f11",
	tea.KeyF12: "f12", tea.KeyCtrlC: "ctrlc",
}

const endRune = 0xE000 // last character of every stream

// chunkReader hands out one chunk per Read.
type chunkReader struct {
	chunks [][]byte
	pause  []bool
	slow   time.Duration
	rest   []byte
	stop   chan struct{}
}

func (r *chunkReader) Read(p []byte) (int, error) {
	if len(r.rest) == 0 {
		if len(r.chunks) == 0 {
			<-r.stop
			return 0, io.EOF
		}
		r.rest = r.chunks[0]
		r.chunks = r.chunks[1:]
		if r.pause[0] {
			time.Sleep(300 * time.Millisecond)
		} else if r.slow > 0 {
			time.Sleep(r.slow)
		}
		r.pause = r.pause[1:]
	}
	n := copy(p, r.rest)
	r.rest = r.rest[n:]
	return n, nil
}

type keyLog struct {
	mu    sync.Mutex
	names [][]int
	keys  [][]any
	end   chan struct{}
}
type keyModel struct{ l *keyLog }

func (m keyModel) Init() tea.Cmd { return nil }
func (m keyModel) View() string  { return "" }
func (m keyModel) Update(msg tea.Msg) (keyModel, tea.Cmd) {
	k, ok := msg.(tea.KeyMsg)
	m.l.mu.Lock()
	defer m.l.mu.Unlock()
	if ok && !(k.Type == tea.KeyRune && k.Rune == endRune) {
		m.l.names = append(m.l.names, codes(k.String()))
	}
	switch {
	case !ok:
		m.l.keys = append(m.l.keys, []any{"other", 0, false, false})
	case k.Type == tea.KeyRune && k.Rune == endRune:
		select {
		case <-m.l.end:
		default:
			close(m.l.end)
		}
	default:
		n, known := keyTypeNames[k.Type]
		if !known || k.Shift {
			n = "unknown"
		}
		m.l.keys = append(m.l.keys, []any{n, int(k.Rune), k.Alt, k.Ctrl})
	}
	return m, nil
}

func init() {
	wholes["keys"] = func(c J) J {
		cfg := c.obj("cfg")
		ev := []any{}
		r := &chunkReader{stop: make(chan struct{}), slow: time.Duration(cfg.n("slow")) * time.Millisecond}
		pause := false
		for _, o := range c.arr("ops") {
			op := J(o.(map[string]any))
			b := []byte{}
			for _, x := range op.ints("b") {
				b = append(b, byte(x))
			}
			if len(b) > 0 {
				r.chunks = append(r.chunks, b)
				r.pause = append(r.pause, pause)
				pause = op.b("pause")
			}
			ev = append(ev, J{"k": "chunk", "b": op.ints("b"), "pause": op.b("pause")})
		}
		r.chunks = append(r.chunks, []byte(string(rune(endRune))))
		r.pause = append(r.pause, pause)
		l := &keyLog{keys: [][]any{}, names: [][]int{}, end: make(chan struct{})}
		p := tea.New(keyModel{l}, tea.WithInput[keyModel](r), tea.WithOutput[keyModel](io.Discard),
			tea.WithTerminal[keyModel](ptest.NewMockTerminal()))
		_ = p.Start()
		w := endWait()
		select {
		case <-l.end:
		case <-time.After(w):
			missed.Add(1)
			l.mu.Lock()
			l.keys = append(l.keys, []any{"end missing", 0, false, false})
			l.mu.Unlock()
		}
		close(r.stop)
		p.Stop()
		l.mu.Lock()
		defer l.mu.Unlock()
		ev = append(ev, J{"k": "keys", "keys": l.keys, "names": l.names})
		return J{"cfg": c["cfg"], "ops": ev}
	}
}

func codes(s string) []int {
	out := []int{}
	for _, r := range s {
		out = append(out, int(r))
	}
	return out
}

// The text of a message the program builds itself.
func init() {
	wholes["msgnames"] = func(c J) J {
		ev := []any{}
		for _, o := range c.arr("ops") {
			op := J(o.(map[string]any))
			switch op.s("k") {
			case "keyname":
				k := tea.KeyMsg{Rune: rune(op.n("r")), Alt: op.b("alt"), Ctrl: op.b("ctrl"), Shift: op.b("shift")}
				for t, n := range keyTypeNames {
					if n == op.s("t") {
						k.Type = t
					}
				}
				op["name"] = codes(k.String())
			case "mousename":
				m := tea.MouseMsg{X: op.n("x"), Y: op.n("y"), Button: mouseBtn[op.s("btn")], Action: mouseActs[op.s("act")], Shift: op.b("shift")}
				op["name"] = codes(m.String())
			case "sizename":
				m := tea.WindowSizeMsg{Width: op.n("w"), Height: op.n("h")}
				op["name"], op["valid"] = codes(m.String()), m.IsValid()
			}
			ev = append(ev, op)
		}
		return J{"cfg": c["cfg"], "ops": ev}
	}
}

var missed atomic.Int32

// endWait is generous for the first streams that never end, then short.
func endWait() time.Duration {
	if missed.Load() > 40 {
		return 500 * time.Millisecond
	}
	return 4 * time.Second
}
