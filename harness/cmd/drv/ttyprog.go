package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/phoenix-tui/phoenix/tea"
	"golang.org/x/sys/unix"
)

// A program on a terminal of its own: the driver holds the master side of a pty, and runs itself again
// as the session leader on the slave side (the "host"), which runs the real program with the real
// terminal and executes the operations it is sent.  External programs are shell scripts which report
// what they find.

const (
	hostEnv  = "VERIF_TTYHOST"
	ttyLimit = 3 * time.Second // per operation; reached only when something is stuck
)

// ---------------------------------------------------------------- the host

type hostModel struct{ h *host }
type hostExec struct{ fn func() }
type host struct {
	mu   sync.Mutex
	keys []int
	p    *tea.Program[hostModel]
	ran  chan error
}

func (m hostModel) Init() tea.Cmd { return nil }
func (m hostModel) View() string {
	m.h.mu.Lock()
	defer m.h.mu.Unlock()
	return fmt.Sprintf("VIEW %d", len(m.h.keys))
}
func (m hostModel) Update(msg tea.Msg) (hostModel, tea.Cmd) {
	switch k := msg.(type) {
	case tea.KeyMsg:
		c := int(k.Rune)
		if k.Type != tea.KeyRune || k.Alt || k.Ctrl {
			c = -int(k.Type)
		}
		m.h.mu.Lock()
		m.h.keys = append(m.h.keys, c)
		m.h.mu.Unlock()
	case hostExec:
		return m, func() tea.Msg { k.fn(); return nil }
	}
	return m, nil
}

func ttyHost() {
	in := bufio.NewReader(os.NewFile(3, "ops"))
	out := os.NewFile(4, "results")
	h := &host{keys: []int{}, ran: make(chan error, 1)}
	dec := json.NewDecoder(in)
	for {
		var op J
		if dec.Decode(&op) != nil {
			os.Exit(0)
		}
		r := J{"err": "", "line": []int{}}
		switch op.s("k") {
		case "start":
			var opts []tea.Option[hostModel]
			if op.b("alt") {
				opts = append(opts, tea.WithAltScreen[hostModel]())
			}
			if op.b("dev") {
				tty, err := os.OpenFile("/dev/tty", os.O_RDWR, 0)
				if err != nil {
					panic(err)
				}
				keep = append(keep, tty)
				opts = append(opts, tea.WithInput[hostModel](tty))
			}
			h.p = tea.New(hostModel{h}, opts...)
			if op.b("bg") {
				r["err"] = errText(h.p.Start())
				h.ran <- nil
			} else {
				go func() { h.ran <- h.p.Run() }()
				for i := 0; i < 1000 && !h.p.IsRunning(); i++ {
					time.Sleep(time.Millisecond)
				}
			}
		case "keys":
		case "suspend":
			r["err"] = errText(h.p.Suspend())
		case "resume":
			r["err"] = errText(h.p.Resume())
		case "exec":
			done := make(chan error, 1)
			fn := func() { done <- h.exec(op) }
			if op.b("cmd") {
				_ = h.p.Send(hostExec{fn})
			} else {
				go fn()
			}
			r["err"] = errText(<-done)
		case "read":
			fmt.Print("READY\r\n")
			line := []int{}
			b := make([]byte, 1)
			for {
				n, err := os.Stdin.Read(b)
				if err != nil || n == 1 && b[0] == '\n' {
					break
				}
				if n == 1 {
					line = append(line, int(b[0]))
				}
			}
			fmt.Print("CHILD\r\n")
			r["line"] = line
		case "stop":
			h.p.Stop()
			r["err"] = errText(<-h.ran)
		}
		// everything written so far is on its way when this mark arrives
		fmt.Printf("\x1b]9;%d\x07", op.n("seq"))
		h.mu.Lock()
		r["keys"] = append([]int{}, h.keys...)
		h.mu.Unlock()
		b, _ := json.Marshal(r)
		_, _ = out.Write(append(b, '\n'))
	}
}

func (h *host) exec(op J) error {
	var cmd *exec.Cmd
	switch op.s("kind") {
	case "nil":
	case "nostart":
		cmd = exec.Command("/nonexistent/program")
	default:
		cmd = exec.Command("/bin/sh", "-c", op.s("script"))
		cmd.Env = append(os.Environ(), "OUT="+op.s("out"), "EXP="+strconv.FormatBool(op.b("tf")))
	}
	if op.b("busy") {
		// a machine with nothing to spare: what follows the start of the process is late
		defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(1))
		stop := make(chan struct{})
		defer close(stop)
		for i := 0; i < 12; i++ {
			go func() {
				for {
					select {
					case <-stop:
						return
					default:
					}
				}
			}()
		}
	}
	if op.s("how") == "plain" {
		return h.p.ExecProcess(cmd)
	}
	return h.p.ExecProcessWithTTY(cmd, tea.TTYOptions{TransferForeground: op.b("tf"), CreateProcessGroup: op.b("cpg")})
}

func errText(err error) string {
	if err == nil {
		return ""
	}
	s := err.Error()
	switch {
	case strings.Contains(s, "cmd is nil"):
		return "nil"
	case strings.Contains(s, "/nonexistent/program"):
		return "start"
	case strings.Contains(s, "transfer foreground"):
		return "transfer"
	}
	return s
}

// ---------------------------------------------------------------- the driver

type ttySys struct {
	p     *pty
	cmd   *exec.Cmd
	ops   *os.File
	res   chan J
	dir   string
	seq   int
	dead  bool
	phase string

	mu    sync.Mutex
	out   []byte // everything the terminal was sent
	scan  int    // up to here it was interpreted
	alt   bool
	cur   bool
	chAlt bool // at the last CHILD mark
	chCur bool
	drawn bool // since the last CHILD mark or operation
	ready int
	seen  int // last sequence mark

	last J
}

// the external program: reports its process group, the terminal's foreground group and modes
const ttyScript = `
st() { read -r _ _ _ _ PG _ _ TP _ < /proc/$$/stat; }
report() {
  i=0; st
  while [ "$EXP" = true ] && [ "$PG" != "$TP" ] && [ $i -lt 60 ]; do sleep 0.02; i=$((i+1)); st; done
  { echo "$$ $PG $TP"; stty -a <&0 | tr ';\n' '  '; echo; echo "$A"; echo "$B"; } > "$OUT.tmp"
  mv "$OUT.tmp" "$OUT"; printf 'CHILD\n'
}
`

func init() {
	systems["ttyprog"] = func(c J) Sys {
		s := &ttySys{p: openPty(), res: make(chan J, 8), phase: "idle", cur: true}
		s.dir, _ = os.MkdirTemp("", "ttyprog")
		r, w, _ := os.Pipe()
		r2, w2, _ := os.Pipe()
		s.ops = w
		s.p.size(40, 12)
		s.cmd = exec.Command(os.Args[0], "ttyhost")
		s.cmd.Env = append(os.Environ(), hostEnv+"=1", "TERM=xterm-256color")
		s.cmd.Stdin, s.cmd.Stdout, s.cmd.Stderr = s.p.s, s.p.s, s.p.s
		s.cmd.ExtraFiles = []*os.File{r, w2}
		s.cmd.SysProcAttr = &syscall.SysProcAttr{Setsid: true, Setctty: true, Ctty: 0}
		if err := s.cmd.Start(); err != nil {
			panic(err)
		}
		r.Close()
		w2.Close()
		go s.drain()
		go func() {
			dec := json.NewDecoder(r2)
			for {
				var j J
				if dec.Decode(&j) != nil {
					close(s.res)
					r2.Close()
					return
				}
				s.res <- j
			}
		}()
		s.clear()
		s.last["keys"] = []int{}
		return s
	}
}

func (s *ttySys) clear() {
	k := []any{}
	if s.last != nil {
		s.last = J{"keys": s.last["keys"]}
	} else {
		s.last = J{"keys": k}
	}
	for _, f := range []string{"ran", "own", "fg", "cooked", "calt", "ccur", "stopped"} {
		s.last[f] = false
	}
	s.last["err"], s.last["line"], s.last["drawn"] = "", []any{}, true
}

func (s *ttySys) drain() {
	b := make([]byte, 4096)
	for {
		n, err := s.p.m.Read(b)
		if n > 0 {
			s.mu.Lock()
			s.out = append(s.out, b[:n]...)
			s.interpret()
			s.mu.Unlock()
		}
		if err == io.EOF || err != nil && n <= 0 {
			return
		}
	}
}

var ttyMarks = []struct {
	t string
	f func(s *ttySys)
}{
	{"\x1b[?1049h", func(s *ttySys) { s.alt = true }},
	{"\x1b[?1049l", func(s *ttySys) { s.alt = false }},
	{"\x1b[?25h", func(s *ttySys) { s.cur = true }},
	{"\x1b[?25l", func(s *ttySys) { s.cur = false }},
	{"VIEW", func(s *ttySys) { s.drawn = true }},
	{"READY", func(s *ttySys) { s.ready++ }},
	{"CHILD", func(s *ttySys) { s.chAlt, s.chCur, s.drawn = s.alt, s.cur, false }},
}

func (s *ttySys) interpret() {
next:
	for s.scan < len(s.out) {
		rest := string(s.out[s.scan:])
		for _, m := range ttyMarks {
			if strings.HasPrefix(rest, m.t) {
				m.f(s)
				s.scan += len(m.t)
				continue next
			}
			if strings.HasPrefix(m.t, rest) {
				return
			}
		}
		if strings.HasPrefix(rest, "\x1b]9;") {
			e := strings.IndexByte(rest, 7)
			if e < 0 {
				return
			}
			s.seen, _ = strconv.Atoi(rest[4:e])
			s.scan += e + 1
			continue
		}
		if strings.HasPrefix("\x1b]9;", rest) {
			return
		}
		s.scan++
	}
}

// until waits for a condition on what the terminal shows.
func (s *ttySys) until(limit time.Duration, f func() bool) bool {
	for end := time.Now().Add(limit); ; time.Sleep(time.Millisecond) {
		s.mu.Lock()
		ok := f()
		s.mu.Unlock()
		if ok || time.Now().After(end) {
			return ok
		}
	}
}

func (s *ttySys) send(op J) {
	s.seq++
	op["seq"] = s.seq
	b, _ := json.Marshal(op)
	_, _ = s.ops.Write(append(b, '\n'))
}

// answer waits for the host's answer to the last operation.
func (s *ttySys) answer(limit time.Duration) J {
	select {
	case r, ok := <-s.res:
		if ok {
			s.until(ttyLimit, func() bool { return s.seen >= s.seq })
			s.last["keys"] = r["keys"]
			return r
		}
	case <-time.After(limit):
	}
	s.dead = true
	s.kill()
	return J{"err": "no answer", "line": []any{}}
}

func (s *ttySys) write(t []int) {
	b := []byte{}
	for _, c := range t {
		b = append(b, byte(c))
	}
	_, _ = s.p.m.Write(b)
}

func procState(pid int) string {
	b, _ := os.ReadFile(fmt.Sprintf("/proc/%d/stat", pid))
	if i := strings.LastIndexByte(string(b), ')'); i >= 0 && len(b) > i+2 {
		return string(b[i+2 : i+3])
	}
	return "?"
}

func (s *ttySys) Apply(op J) {
	s.clear()
	if s.dead {
		s.last["err"] = "no answer"
		return
	}
	s.mu.Lock()
	s.drawn = false
	ready := s.ready
	s.mu.Unlock()
	isReady := func() bool { return s.until(ttyLimit, func() bool { return s.ready > ready }) }
	switch k := op.s("k"); k {
	case "type":
		n := 0
		if a, ok := s.last["keys"].([]any); ok {
			n = len(a)
		}
		s.write(op.ints("t"))
		s.awaitKeys(n + len(op.ints("t")))
	case "ahead":
		s.write(append(op.ints("t"), '\n'))
		time.Sleep(3 * time.Millisecond)
	case "start":
		s.send(J{"k": k, "alt": op.b("alt"), "bg": op.b("bg"), "dev": op.b("dev")})
		s.last["err"] = s.answer(ttyLimit)["err"]
	case "suspend", "resume", "stop":
		s.send(J{"k": k})
		s.last["err"] = s.answer(ttyLimit)["err"]
	case "read":
		s.send(J{"k": k})
		isReady()
		s.write(append(op.ints("t"), '\n'))
		r := s.answer(ttyLimit)
		s.last["err"], s.last["line"] = r["err"], r["line"]
		s.last["calt"], s.last["ccur"] = s.chAlt, s.chCur
	case "exec":
		s.exec(op, isReady)
	}
	if !s.dead && op.n("nk") > 0 {
		s.awaitKeys(op.n("nk"))
	}
	if !s.dead {
		s.until(time.Second, func() bool { return s.drawn || !op.b("redraw") })
		s.mu.Lock()
		s.last["drawn"] = s.drawn || !op.b("redraw")
		s.mu.Unlock()
	}
}

// awaitKeys gives n keys a while to reach Update.
func (s *ttySys) awaitKeys(n int) {
	for end := time.Now().Add(time.Second); ; time.Sleep(2 * time.Millisecond) {
		s.send(J{"k": "keys"})
		s.answer(ttyLimit)
		a, _ := s.last["keys"].([]any)
		if len(a) >= n || s.dead || time.Now().After(end) {
			return
		}
	}
}

func (s *ttySys) exec(op J, isReady func() bool) {
	out := filepath.Join(s.dir, strconv.Itoa(s.seq))
	script := ttyScript
	switch op.s("kind") {
	case "read":
		script += "printf 'READY\\n'; IFS= read -r A; report; exit " + strconv.Itoa(op.n("code"))
	case "read2":
		script += "printf 'READY\\n'; IFS= read -r A; IFS= read -r B; A=\"$A$B\"; report; exit " + strconv.Itoa(op.n("code"))
	case "exit":
		script += "report; exit " + strconv.Itoa(op.n("code"))
	case "kill":
		script += "report; kill -9 $$; sleep 5"
	case "intr":
		script += "report; printf 'READY\\n'; exec sleep 5"
	case "stop":
		script += "report; printf 'READY\\n'; IFS= read -r A; report; exit " + strconv.Itoa(op.n("code"))
	}
	m := J{"script": script, "out": out}
	for _, f := range []string{"k", "how", "kind", "tf", "cpg", "cmd", "busy"} {
		m[f] = op[f]
	}
	s.send(m)
	var rep []string
	load := func() {
		b, _ := os.ReadFile(out)
		rep = strings.Split(string(b), "\n")
	}
	switch op.s("kind") {
	case "read":
		isReady()
		s.write(append(op.ints("t"), '\n'))
	case "read2":
		isReady()
		s.write(append(op.ints("t"), '\n'))
		time.Sleep(20 * time.Millisecond)
		s.write(append(op.ints("t"), '\n'))
	case "intr":
		isReady()
		time.Sleep(20 * time.Millisecond)
		s.write([]int{3})
	case "stop":
		isReady()
		load()
		pid := 0
		fmt.Sscanf(rep[0], "%d", &pid)
		time.Sleep(20 * time.Millisecond)
		s.write([]int{26})
		st := false
		for i := 0; i < 500 && pid > 0 && !st; i++ {
			time.Sleep(2 * time.Millisecond)
			st = procState(pid) == "T"
		}
		s.last["stopped"] = st && procState(s.cmd.Process.Pid) != "T"
		if pid > 0 {
			_ = syscall.Kill(-pid, syscall.SIGCONT)
		}
		time.Sleep(20 * time.Millisecond)
		s.write(append(op.ints("t"), '\n'))
	}
	r := s.answer(ttyLimit)
	s.last["err"] = r["err"]
	if r["err"] == "no answer" || r["err"] == "transfer" {
		return
	}
	load()
	if len(rep) < 4 {
		return
	}
	var pid, pg, tp int
	fmt.Sscanf(rep[0], "%d %d %d", &pid, &pg, &tp)
	modes := " " + rep[1] + " "
	s.last["ran"] = true
	s.last["own"] = pg == pid
	s.last["fg"] = tp == pg
	s.last["cooked"] = strings.Contains(modes, " icanon ") && strings.Contains(modes, " isig ") && strings.Contains(modes, " echo ") && strings.Contains(modes, " opost ")
	line := []int{}
	for _, c := range []byte(rep[2]) {
		line = append(line, int(c))
	}
	s.last["line"] = line
	s.mu.Lock()
	s.last["calt"], s.last["ccur"] = s.chAlt, s.chCur
	s.mu.Unlock()
}

func (s *ttySys) Obs() any {
	r := J{}
	for k, v := range s.last {
		r[k] = v
	}
	fg, _ := unix.IoctlGetInt(int(s.p.m.Fd()), unix.TIOCGPGRP)
	s.mu.Lock()
	r["alt"], r["cur"] = s.alt, s.cur
	s.mu.Unlock()
	r["raw"], r["top"] = isRaw(s.p.attrs()), fg == s.cmd.Process.Pid
	return map[string]any(r)
}

func (s *ttySys) kill() {
	_ = s.cmd.Process.Kill()
	fg, err := unix.IoctlGetInt(int(s.p.m.Fd()), unix.TIOCGPGRP)
	if err == nil && fg > 1 && fg != s.cmd.Process.Pid {
		_ = syscall.Kill(-fg, syscall.SIGKILL)
	}
}
func (s *ttySys) Close() {
	s.kill()
	s.ops.Close()
	_ = s.cmd.Wait()
	s.p.close()
	_ = os.RemoveAll(s.dir)
}
