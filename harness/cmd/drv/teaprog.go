package main

import (
	"errors"
	"fmt"
	"io"
	"math/rand"
	"os"
	"os/exec"
	"strconv"
	"sync"
	"time"

	"github.com/phoenix-tui/phoenix"
	"github.com/phoenix-tui/phoenix/tea"
	"github.com/phoenix-tui/phoenix/terminal"
	ptest "github.com/phoenix-tui/phoenix/testing"
)

// teaprog runs one tea program under a script and records everything observable as one totally
// ordered event log: calls into the program and their returns, calls the program makes into the
// model, the commands, the terminal and the output.  spec/Tea.tla judges the log.

type pmsg struct{ Th, N int }

type tp struct {
	mu    sync.Mutex
	ev    []any
	p     *tea.Program[tmodel]
	cfg   J
	beh   J
	rng   *rand.Rand
	gates map[string]chan struct{}
	wait  map[string]int // goroutines waiting at a gate
	open  map[string]bool
	ids   map[string][2]int
	th    sync.WaitGroup
	calls int
	keys  chan []byte
	stopR chan struct{}
	nterm map[string]int
	nwr   int
	made  map[string]tea.Cmd // commands by the message whose Update returned them first
	nth   map[string]int     // times a leaf began
	virt  bool               // in a bubble with a clock of its own

	// progress (only to know how long to wait; the specification does the judging)
	need     map[[2]int]bool // accepted messages
	handled  map[[2]int]bool
	lhandled map[string]bool
	begun    map[string]bool
	done     map[string]bool
	sched    map[string]bool
	busy     bool
	inited   bool
	quitDue  bool
	over     bool
	armed    bool
	everOff  bool
	runs     int
	draw     bool // a redraw is due
	susp     bool
	last     int // version of the last finished View
	ver      int
}

type tmodel struct {
	ver int
	h   *tp
}

func (h *tp) log(e J) {
	h.ev = append(h.ev, e)
}
func (h *tp) add(e J) {
	h.mu.Lock()
	h.log(e)
	h.mu.Unlock()
}

// lag makes races likelier.
func (h *tp) lag() {
	j := h.cfg.n("jitter")
	if j == 0 {
		return
	}
	h.mu.Lock()
	n := h.rng.Intn(j + 1)
	h.mu.Unlock()
	if n > 0 {
		time.Sleep(time.Duration(n) * 20 * time.Microsecond)
	}
}

func (h *tp) gate(name string) chan struct{} {
	h.mu.Lock()
	defer h.mu.Unlock()
	g, ok := h.gates[name]
	if !ok {
		g = make(chan struct{})
		h.gates[name] = g
	}
	return g
}
func (h *tp) pass(name string) {
	if name == "" {
		return
	}
	g := h.gate(name)
	h.mu.Lock()
	h.wait[name]++
	h.mu.Unlock()
	<-g
	h.mu.Lock()
	h.wait[name]--
	h.mu.Unlock()
}
func (h *tp) openGate(name string) {
	g := h.gate(name)
	h.mu.Lock()
	defer h.mu.Unlock()
	if !h.open[name] {
		h.open[name] = true
		h.log(J{"k": "open", "g": name})
		close(g)
	}
}

// ---- messages
func (h *tp) mk(kind string, th, n int) tea.Msg {
	var m tea.Msg
	switch kind {
	case "key":
		m = tea.KeyMsg{Type: tea.KeyRune, Rune: rune(0x4e00 + n*128 + th), Alt: n&1 == 1, Ctrl: n&2 == 2, Shift: n&4 == 4}
	case "skey":
		m = tea.KeyMsg{Type: tea.KeyRune + tea.KeyType(1+(n*5+th)%28), Rune: rune(0x6e00 + n*128 + th), Alt: n&1 == 0, Ctrl: n&2 == 0, Shift: th&1 == 0}
	case "mouse":
		m = tea.MouseMsg{X: n, Y: th, Button: tea.MouseButtonNone + tea.MouseButton((n+th)%6), Action: tea.MouseActionPress + tea.MouseAction((n+2*th)%3), Alt: n&1 == 1, Ctrl: n&2 == 2, Shift: n&4 == 4}
	case "size":
		m = tea.WindowSizeMsg{Width: 100 + n, Height: 50 + th}
	case "string":
		m = fmt.Sprintf("s%d.%d", th, n)
	case "println":
		m = tea.PrintlnMsg{Message: fmt.Sprintf("p%d.%d", th, n)}
	case "tick":
		m = tea.TickMsg{Time: time.Unix(int64(th), int64(n))}
	case "ptr":
		m = &pmsg{th, n}
	default:
		m = pmsg{th, n}
	}
	h.mu.Lock()
	h.ids[ident(m)] = [2]int{th, n}
	h.mu.Unlock()
	return m
}
func ident(m tea.Msg) string {
	if p, ok := m.(*pmsg); ok {
		return fmt.Sprintf("ptr %p", p)
	}
	if t, ok := m.(tea.TickMsg); ok {
		return fmt.Sprintf("tick %d", t.Time.UnixNano())
	}
	return fmt.Sprintf("%#v", m)
}

// ---- model
func (m tmodel) Init() tea.Cmd {
	h := m.h
	h.mu.Lock()
	h.busy = true
	h.log(J{"k": "ibegin", "ver": m.ver})
	b := h.beh.obj("init")
	if h.runs > 1 {
		b = J{}
	}
	h.mu.Unlock()
	h.lag()
	h.pass(b.s("gate"))
	h.panicIf(b)
	return h.react("init", b, func() {
		h.inited = true
		h.log(J{"k": "iend", "root": "init", "cmd": b.has("cmd")})
	})
}

func (h *tp) panicIf(b J) {
	if b.b("panic") {
		h.mu.Lock()
		h.log(J{"k": "upanic"})
		h.busy = false
		h.quitDue = true
		h.mu.Unlock()
		panic("planned panic")
	}
}

func (h *tp) react(root string, b J, fin func()) tea.Cmd {
	var c tea.Cmd
	if b.has("cmd") {
		if b.has("reuse") { // the very command which another Update returned before
			h.mu.Lock()
			c = h.made[b.s("reuse")]
			h.mu.Unlock()
		} else {
			c = h.tree(b["cmd"])
		}
		h.mu.Lock()
		h.made[root] = c
		h.sched[root] = true
		h.mu.Unlock()
	}
	h.mu.Lock()
	h.busy = false
	fin()
	h.mu.Unlock()
	return c
}

func (m tmodel) Update(msg tea.Msg) (tmodel, tea.Cmd) {
	h := m.h
	e := J{"k": "ubegin", "ver": m.ver, "src": "unknown", "th": 0, "n": 0, "l": 0}
	root := ""
	h.mu.Lock()
	h.busy = true
	if msg == nil {
		e["src"] = "nil"
	} else if id, ok := h.ids[ident(msg)]; ok {
		e["src"], e["th"], e["n"] = "msg", id[0], id[1]
		root = "m" + strconv.Itoa(id[0]) + "." + strconv.Itoa(id[1])
		h.handled[id] = true
		if id[0] >= 100 {
			l := "c" + strconv.Itoa(id[1])
			e["src"], e["l"] = "leaf", id[1]
			root = l
			h.lhandled[l] = true
		}
	} else if k, ok := msg.(tea.KeyMsg); ok && k == (tea.KeyMsg{Type: tea.KeyRune, Rune: k.Rune}) && k.Rune >= 'a' && k.Rune < 'a'+26 {
		e["src"], e["n"] = "key", int(k.Rune-'a')
		root = "k" + strconv.Itoa(int(k.Rune-'a'))
		h.handled[[2]int{99, int(k.Rune - 'a')}] = true
	}
	h.log(e)
	b := h.beh.obj(root)
	h.mu.Unlock()
	h.lag()
	time.Sleep(time.Duration(b.n("slow")) * time.Millisecond)
	h.pass(b.s("gate"))
	h.panicIf(b)
	m.ver++
	c := h.react(root, b, func() {
		h.ver = m.ver
		h.log(J{"k": "uend", "ver": m.ver, "root": root, "cmd": b.has("cmd")})
	})
	return m, c
}

func (m tmodel) View() string {
	h := m.h
	h.mu.Lock()
	h.busy = true
	h.log(J{"k": "vbegin", "ver": m.ver})
	h.mu.Unlock()
	h.lag()
	time.Sleep(time.Duration(h.cfg.n("vslow")) * time.Millisecond)
	if h.cfg.has("vpanic") && h.cfg.n("vpanic") == m.ver {
		h.panicIf(J{"panic": true})
	}
	h.mu.Lock()
	h.busy = false
	h.last = m.ver
	h.log(J{"k": "vend", "ver": m.ver})
	h.mu.Unlock()
	return "view " + strconv.Itoa(m.ver)
}

// tree builds the command described by a tree.
func (h *tp) tree(v any) tea.Cmd {
	if v == nil {
		return nil
	}
	t := J(v.(map[string]any))
	kids := func(k string) []tea.Cmd {
		r := []tea.Cmd{}
		for _, x := range t.arr(k) {
			r = append(r, h.tree(x))
		}
		return r
	}
	// commands are made twice from the same slice: making one has no effect
	switch {
	case t.has("batch"):
		cs := kids("batch")
		_, _ = tea.Sequence(cs...), tea.Batch(cs...)
		return tea.Batch(cs...)
	case t.has("seq"):
		cs := kids("seq")
		_, _ = tea.Batch(cs...), tea.Sequence(cs...)
		return tea.Sequence(cs...)
	}
	l0 := t.s("leaf")
	n0, _ := strconv.Atoi(l0[1:])
	return func() tea.Msg {
		h.mu.Lock()
		n := n0 + h.nth[l0]*t.n("off")
		h.nth[l0]++
		l := "c" + strconv.Itoa(n)
		h.begun[l] = true
		h.log(J{"k": "cbegin", "l": n})
		h.mu.Unlock()
		h.lag()
		time.Sleep(time.Duration(t.n("slow")) * time.Millisecond)
		h.pass(t.s("gate"))
		for _, d := range t.arr("do") {
			h.step(J(d.(map[string]any)), 100+n)
		}
		var m tea.Msg
		switch t.s("kind") {
		case "quit":
			if m = tea.Quit()(); viaRoot(l) {
				m = phoenix.Quit()()
			}
		case "nil":
		case "println":
			m = tea.Println("leaf " + l)()
			h.mu.Lock()
			h.ids[ident(m)] = [2]int{100, n}
			h.mu.Unlock()
		case "tick":
			for fresh := false; !fresh; { // its time is what tells this message from others
				m = tea.Tick(time.Millisecond)()
				h.mu.Lock()
				if _, taken := h.ids[ident(m)]; !taken {
					h.ids[ident(m)] = [2]int{100, n}
					fresh = true
				}
				h.mu.Unlock()
			}
		default:
			m = h.mk(t.s("kind"), 100, n)
		}
		h.mu.Lock()
		h.done[l] = true
		h.log(J{"k": "cend", "l": n})
		h.mu.Unlock()
		return m
	}
}

// ---- terminal and output
type tterm struct {
	terminal.Terminal
	h        *tp
	raw, alt bool
}

var errPlanned = errors.New("planned failure")

func (t *tterm) op(m string, f func() error) error {
	h := t.h
	h.lag()
	h.mu.Lock()
	h.nterm[m]++
	inj := false
	for _, x := range h.cfg.arr("fail") {
		f := J(x.(map[string]any))
		if f.s("op") == m && (f.n("at") == 0 || f.n("at") == h.nterm[m]) {
			inj = true
		}
	}
	err := errPlanned
	if !inj {
		err = f()
	}
	h.log(J{"k": "term", "op": m, "ok": err == nil, "inj": inj})
	h.mu.Unlock()
	h.lag()
	return err
}
func set(b *bool, v bool) func() error {
	return func() error {
		if *b == v {
			return errors.New("already so")
		}
		*b = v
		return nil
	}
}
func (t *tterm) EnterRawMode() error   { return t.op("enterraw", set(&t.raw, true)) }
func (t *tterm) ExitRawMode() error    { return t.op("exitraw", set(&t.raw, false)) }
func (t *tterm) EnterAltScreen() error { return t.op("enteralt", set(&t.alt, true)) }
func (t *tterm) ExitAltScreen() error  { return t.op("exitalt", set(&t.alt, false)) }
func (t *tterm) HideCursor() error     { return t.op("hide", func() error { return nil }) }
func (t *tterm) ShowCursor() error     { return t.op("show", func() error { return nil }) }
func (t *tterm) IsInRawMode() bool     { t.h.mu.Lock(); defer t.h.mu.Unlock(); return t.raw }
func (t *tterm) IsInAltScreen() bool   { t.h.mu.Lock(); defer t.h.mu.Unlock(); return t.alt }
func (t *tterm) other() error          { return t.op("other", func() error { return nil }) }
func (t *tterm) Clear() error          { return t.other() }
func (t *tterm) ClearLine() error      { return t.other() }
func (t *tterm) Write(string) error    { return t.other() }

var _ terminal.Terminal = (*tterm)(nil)

type tout struct{ h *tp }

func (o tout) Write(b []byte) (int, error) {
	o.h.lag()
	o.h.mu.Lock()
	o.h.nwr++
	fail := o.h.cfg.n("wfail") == o.h.nwr
	if len(b) > 0 {
		o.h.draw = false
		o.h.log(J{"k": "write"})
	}
	o.h.mu.Unlock()
	o.h.lag()
	if fail {
		return 0, errPlanned
	}
	return len(b), nil
}

type tin struct{ h *tp }

// Read hands out one key at a time (and may be called by several goroutines: a reader of a suspended
// program may still be blocked here).
func (r *tin) Read(b []byte) (int, error) {
	if r.h.virt {
		return 0, io.EOF
	}
	select {
	case k := <-r.h.keys:
		return copy(b, k), nil
	case <-r.h.stopR:
		return 0, io.EOF
	}
}

// ---- script
func (h *tp) call(op string, e J) (int, time.Time) {
	h.mu.Lock()
	defer h.mu.Unlock()
	h.calls++
	e["k"], e["id"], e["op"] = "call", h.calls, op
	h.log(e)
	return h.calls, time.Now()
}
func (h *tp) ret(id int, op string, t time.Time, ok bool, e J) {
	ms := int(time.Since(t).Milliseconds())
	run, susp := h.p.IsRunning(), h.p.IsSuspended()
	h.mu.Lock()
	defer h.mu.Unlock()
	e["k"], e["id"], e["op"], e["ok"], e["ms"], e["running"], e["susp"] = "ret", id, op, ok, ms, run, susp
	if _, f := e["code"]; !f {
		e["code"] = 0
	}
	if _, f := e["panicked"]; !f {
		e["panicked"] = false
	}
	h.log(e)
}

func (h *tp) poll(stop chan struct{}) {
	for {
		select {
		case <-stop:
			return
		case <-time.After(time.Millisecond):
		}
		h.mu.Lock()
		armed, n := h.armed, h.runs
		h.mu.Unlock()
		if armed && !h.p.IsRunning() {
			h.mu.Lock()
			if h.armed && h.runs == n {
				h.armed = false
				h.over = true
				h.log(J{"k": "ended"})
			}
			h.mu.Unlock()
		}
	}
}

func (h *tp) newRun() {
	h.mu.Lock()
	h.runs++
	h.over, h.quitDue, h.inited, h.armed = false, false, false, false
	h.need = map[[2]int]bool{}
	h.sched = map[string]bool{}
	h.mu.Unlock()
}

// patience is how long to wait: time is free in a bubble.
func (h *tp) patience(d time.Duration) time.Duration {
	if h.virt {
		return 100 * d
	}
	return d
}

func (h *tp) until(d time.Duration, f func() bool) bool {
	end := time.Now().Add(h.patience(d))
	for {
		h.mu.Lock()
		ok := f()
		h.mu.Unlock()
		if ok {
			return true
		}
		if time.Now().After(end) {
			return false
		}
		time.Sleep(300 * time.Microsecond)
	}
}

func (h *tp) step(s J, th int) {
	op := s.s("do")
	switch op {
	case "start":
		again := s.b("again")
		id, t := h.call("start", J{})
		if !again {
			h.newRun()
		}
		err := h.p.Start()
		h.ret(id, op, t, err == nil, J{})
		h.mu.Lock()
		if !again {
			h.armed = true
		}
		h.mu.Unlock()
	case "run":
		id, t := h.call("run", J{})
		again := s.b("again")
		if !again {
			h.newRun()
		}
		doneC := make(chan struct{})
		h.th.Add(1)
		go func() {
			defer h.th.Done()
			defer close(doneC)
			var err error
			pan := func() (pan bool) {
				defer func() {
					if recover() != nil {
						pan = true
					}
				}()
				err = h.p.Run()
				return false
			}()
			h.mu.Lock()
			if !again {
				h.over = true
			}
			h.mu.Unlock()
			h.ret(id, op, t, err == nil, J{"panicked": pan})
		}()
		if again {
			<-doneC
		} else {
			h.until(5*time.Second, func() bool {
				select {
				case <-doneC:
					return true
				default:
					h.mu.Unlock()
					r := h.p.IsRunning()
					h.mu.Lock()
					return r
				}
			})
		}
	case "send":
		n := s.n("n")
		var m tea.Msg
		ns := []int{n}
		if s.s("kind") == "seqmsg" {
			ns = []int{n, n + 1, n + 2}
			m = tea.SequenceMsg{Messages: []tea.Msg{h.mk("p", th, n), h.mk("mouse", th, n+1), h.mk("key", th, n+2)}}
		} else {
			m = h.mk(s.s("kind"), th, n)
		}
		id, t := h.call("send", J{"th": th, "ns": ns})
		err := h.p.Send(m)
		h.mu.Lock()
		if err == nil {
			for _, x := range ns {
				h.need[[2]int{th, x}] = true
			}
		}
		h.mu.Unlock()
		h.ret(id, op, t, err == nil, J{"th": th, "ns": ns})
	case "sendquit":
		id, t := h.call("sendquit", J{})
		err := h.p.Send(tea.QuitMsg{})
		h.mu.Lock()
		if err == nil {
			h.quitDue = true
		}
		h.mu.Unlock()
		h.ret(id, op, t, err == nil, J{})
	case "key":
		n := s.n("n")
		h.mu.Lock()
		h.need[[2]int{99, n}] = true
		h.log(J{"k": "key", "n": n})
		h.mu.Unlock()
		h.keys <- []byte{byte('a' + n)}
	case "stop":
		id, t := h.call("stop", J{})
		h.mu.Lock()
		h.quitDue = true
		h.mu.Unlock()
		h.p.Stop()
		h.ret(id, op, t, true, J{})
	case "suspend":
		h.mu.Lock()
		h.everOff = true
		h.mu.Unlock()
		id, t := h.call("suspend", J{})
		err := h.p.Suspend()
		h.ret(id, op, t, err == nil, J{})
	case "resume":
		was := h.p.IsSuspended()
		id, t := h.call("resume", J{})
		h.mu.Lock()
		h.draw = h.draw || was
		h.mu.Unlock()
		err := h.p.Resume()
		if err != nil {
			h.mu.Lock()
			h.draw = false
			h.mu.Unlock()
		}
		h.ret(id, op, t, err == nil, J{})
	case "exec":
		h.exec(s)
	case "open":
		h.openGate(s.s("g"))
	case "sleep":
		time.Sleep(time.Duration(s.n("us")) * time.Microsecond)
	case "atgate":
		g := s.s("g")
		h.until(3*time.Second, func() bool { return h.wait[g] > 0 || h.open[g] || h.over })
	case "ended":
		h.until(6*time.Second, func() bool { return h.over })
	case "inited":
		h.until(3*time.Second, func() bool { return h.inited || h.over })
	case "quiet":
		h.quiet()
	}
}

// exec runs a child which tells when it is alive and waits to be let go.
func (h *tp) exec(s J) {
	h.mu.Lock()
	h.everOff = true
	h.mu.Unlock()
	var c *exec.Cmd
	var ar, aw, gr, gw *os.File
	missing := s.b("missing")
	if s.b("nilcmd") {
		missing = true
	} else if missing {
		c = exec.Command("/nonexistent/program")
	} else {
		ar, aw, _ = os.Pipe()
		gr, gw, _ = os.Pipe()
		c = exec.Command("/bin/sh", "-c", "echo a >&3; read x <&4; exit "+strconv.Itoa(s.n("code")))
		c.ExtraFiles = []*os.File{aw, gr}
	}
	was := h.p.IsSuspended()
	id, t := h.call("exec", J{"want": s.n("code"), "missing": missing})
	fin := make(chan struct{})
	if !missing {
		go func() {
			defer close(fin)
			b := make([]byte, 4)
			if n, _ := ar.Read(b); n == 0 {
				return
			}
			h.mu.Lock()
			h.draw = h.draw || !was
			h.log(J{"k": "xalive", "id": id})
			h.mu.Unlock()
			if g := s.s("gate"); g != "" {
				h.pass(g)
			} else {
				time.Sleep(time.Duration(s.n("us")) * time.Microsecond)
			}
			h.add(J{"k": "xexit", "id": id})
			_, _ = gw.Write([]byte("x\n"))
		}()
	} else {
		close(fin)
	}
	var err error
	defer func() {
		var ee *exec.ExitError
		if err != nil && !errors.As(err, &ee) && h.p.IsSuspended() {
			h.mu.Lock()
			h.draw = false
			h.mu.Unlock()
		}
	}()
	if s.b("tty") {
		err = h.p.ExecProcessWithTTY(c, tea.TTYOptions{})
	} else {
		err = h.p.ExecProcess(c)
	}
	if !missing {
		aw.Close()
		<-fin
		ar.Close()
		gr.Close()
		gw.Close()
	}
	code := -1
	var ee *exec.ExitError
	if err == nil {
		code = 0
	} else if errors.As(err, &ee) {
		code = ee.ExitCode()
	}
	h.ret(id, "exec", t, err == nil, J{"code": code})
}

// due lists the leaves that must have begun and says whether the tree is complete.
func (h *tp) due(v any) (act []string, complete, blocked bool) {
	if v == nil {
		return nil, true, false
	}
	t, ok := v.(map[string]any)
	if !ok {
		return nil, true, false
	}
	if ch, ok := t["batch"].([]any); ok {
		complete = true
		for _, x := range ch {
			a, c, b := h.due(x)
			act = append(act, a...)
			complete = complete && c
			blocked = blocked || b
		}
		return act, complete, blocked
	}
	if ch, ok := t["seq"].([]any); ok {
		for _, x := range ch {
			a, c, b := h.due(x)
			act = append(act, a...)
			if !c {
				return act, false, b
			}
		}
		return act, true, false
	}
	l := J(t).s("leaf")
	g := J(t).s("gate")
	return []string{l}, h.done[l], g != "" && !h.open[g]
}

func leavesOf(v any, f func(t J)) {
	t, ok := v.(map[string]any)
	if !ok {
		return
	}
	for _, k := range []string{"batch", "seq"} {
		if ch, ok := t[k].([]any); ok {
			for _, x := range ch {
				leavesOf(x, f)
			}
		}
	}
	if _, ok := t["leaf"]; ok {
		f(J(t))
	}
}

// settled tells that nothing more is to be expected without outside help (mu held).
func (h *tp) settled() bool {
	if h.over {
		return true
	}
	for g, n := range h.wait {
		if n > 0 && h.open[g] {
			return false
		}
	}
	gated := h.busy
	if gated {
		// blocked inside Init/Update at a closed gate?
		stuck := false
		for r := range h.beh {
			g := h.beh.obj(r).s("gate")
			if g != "" && h.wait[g] > 0 && !h.open[g] {
				stuck = true
			}
		}
		if !stuck {
			return false
		}
	}
	quitDue := h.quitDue
	for r := range h.sched {
		v := h.beh.obj(r)["cmd"]
		act, complete, blocked := h.due(v)
		for _, l := range act {
			if !h.begun[l] {
				return false
			}
		}
		if !complete && !blocked {
			return false
		}
		if complete {
			fin := true
			leavesOf(v, func(t J) {
				switch t.s("kind") {
				case "quit":
					quitDue = true
				case "nil":
				default:
					fin = fin && h.lhandled[t.s("leaf")]
				}
			})
			if !fin && !gated && !quitDue {
				return false
			}
		}
	}
	if quitDue {
		return gated
	}
	if gated {
		return true
	}
	if h.runs == 0 {
		return true
	}
	if !h.inited {
		return false
	}
	for id := range h.need {
		if !h.handled[id] && !(id[0] == 99 && h.everOff) {
			return false
		}
	}
	if h.last != h.ver || (h.draw && !h.susp) {
		return false
	}
	return true
}

func (h *tp) quiet() {
	h.mu.Lock()
	h.mu.Unlock()
	w := 3 * time.Second
	if tpSlow() {
		w = time.Second
	}
	f := func() bool {
		h.mu.Unlock()
		susp := h.p.IsSuspended()
		h.mu.Lock()
		h.susp = susp
		return h.settled()
	}
	ok := h.until(w, f)
	if ok {
		time.Sleep(time.Millisecond)
		ok = h.until(w, f)
	}
	run, susp := h.p.IsRunning(), h.p.IsSuspended()
	h.mu.Lock()
	if !ok {
		tpMissed.Lock()
		tpMissedN++
		tpMissed.Unlock()
	}
	h.log(J{"k": "quiet", "running": run, "susp": susp, "settled": ok})
	h.mu.Unlock()
}

var tpMissed sync.Mutex
var tpMissedN int

func tpSlow() bool {
	tpMissed.Lock()
	defer tpMissed.Unlock()
	return tpMissedN > 30
}

func waitGroup(w *sync.WaitGroup, d time.Duration) bool {
	c := make(chan struct{})
	go func() { w.Wait(); close(c) }()
	select {
	case <-c:
		return true
	case <-time.After(d):
		return false
	}
}

func runTeaprog(c J) J {
	cfg := c.obj("cfg")
	if hung.Load() >= 8 {
		return J{"cfg": c["cfg"], "ops": []any{}}
	}
	h := &tp{cfg: cfg, beh: cfg.obj("beh"), rng: rand.New(rand.NewSource(int64(cfg.n("seed")))),
		gates: map[string]chan struct{}{}, wait: map[string]int{}, open: map[string]bool{}, ids: map[string][2]int{},
		made: map[string]tea.Cmd{}, nth: map[string]int{}, virt: cfg.b("virt"),
		keys: make(chan []byte, 64), stopR: make(chan struct{}), nterm: map[string]int{},
		need: map[[2]int]bool{}, handled: map[[2]int]bool{}, lhandled: map[string]bool{}, begun: map[string]bool{}, done: map[string]bool{}, sched: map[string]bool{}}
	opts := []tea.Option[tmodel]{tea.WithInput[tmodel](&tin{h: h}), tea.WithOutput[tmodel](tout{h}),
		tea.WithTerminal[tmodel](&tterm{Terminal: ptest.NewNullTerminal(), h: h})}
	umbrella := viaRoot(c)
	if cfg.b("alt") && umbrella {
		opts = append(opts, phoenix.WithAltScreen[tmodel]())
	} else if cfg.b("alt") {
		opts = append(opts, tea.WithAltScreen[tmodel]())
	}
	if cfg.b("motion") && umbrella {
		opts = append(opts, phoenix.WithMouseAllMotion[tmodel]())
	} else if cfg.b("motion") {
		opts = append(opts, tea.WithMouseAllMotion[tmodel]())
	}
	if umbrella {
		h.p = phoenix.NewProgram(tmodel{0, h}, opts...)
	} else {
		h.p = tea.New(tmodel{0, h}, opts...)
	}
	stopPoll := make(chan struct{})
	go h.poll(stopPoll)

	// threads: the first one is the main script; the others start with it
	ths := cfg.arr("threads")
	var main []any
	go0 := make(chan struct{})
	var others sync.WaitGroup
	for i, t := range ths {
		steps, _ := t.([]any)
		if i == 0 {
			main = steps
			continue
		}
		others.Add(1)
		h.th.Add(1)
		go func(i int) {
			defer others.Done()
			defer h.th.Done()
			<-go0
			for _, s := range steps {
				h.step(J(s.(map[string]any)), i)
			}
		}(i)
	}
	started := false
	mainDone := make(chan struct{})
	go func() {
		defer close(mainDone)
		for _, s := range main {
			st := J(s.(map[string]any))
			if st.s("do") == "go" && !started {
				started = true
				close(go0)
				continue
			}
			if st.s("do") == "join" {
				if !started {
					started = true
					close(go0)
				}
				waitGroup(&others, h.patience(5*time.Second))
				continue
			}
			h.step(st, 0)
		}
		if !started {
			started = true
			close(go0)
		}
	}()
	allret := true
	select {
	case <-mainDone:
	case <-time.After(h.patience(40 * time.Second)):
		allret = false
	}
	// let everything go and end the program
	for _, g := range cfg.arr("gates") {
		h.openGate(g.(string))
	}
	fin := make(chan struct{})
	go func() {
		defer close(fin)
		if h.p.IsRunning() {
			h.step(J{"do": "stop"}, 0)
		}
		h.until(4*time.Second, func() bool { return h.over || h.runs == 0 })
	}()
	select {
	case <-fin:
	case <-time.After(h.patience(6 * time.Second)):
		allret = false
	}
	if !waitGroup(&h.th, h.patience(4*time.Second)) {
		allret = false
	}
	// what has begun runs to its end
	trees := map[string][]string{}
	for _, v := range cfg.arr("leaves") {
		l := J(v.(map[string]any))
		if r := l.s("root"); r != "none" {
			trees[r] = append(trees[r], "c"+strconv.Itoa(l.n("l")))
		}
	}
	if allret {
		w := 10 * time.Second
		if tpSlow() {
			w = 2 * time.Second
		}
		h.until(w, func() bool {
			for _, ls := range trees {
				some, all := false, true
				for _, l := range ls {
					some, all = some || h.begun[l], all && h.done[l]
				}
				if some && !all {
					return false
				}
			}
			return true
		})
	}
	// nothing may happen any more
	time.Sleep(time.Duration(5+cfg.n("tail")) * time.Millisecond)
	run, susp := h.p.IsRunning(), h.p.IsSuspended()
	close(stopPoll)
	h.mu.Lock()
	defer h.mu.Unlock()
	if !allret {
		hung.Add(1)
	}
	h.log(J{"k": "final", "running": run, "susp": susp, "allret": allret})
	close(h.stopR)
	ev := h.ev
	h.ev = nil
	return J{"cfg": c["cfg"], "ops": ev}
}

func init() {
	wholes["teaprog"] = runTeaprog
	wholes["teaslow"] = inBubble(runTeaprog)
	timed["teaslow"] = true
	workers["teaprog"] = 24
	quietIO["teaprog"], quietIO["teaslow"] = true, true
}
