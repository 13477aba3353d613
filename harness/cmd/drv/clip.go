//go:build vclip

package main

import (
	"encoding/base64"
	"errors"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"syscall"
	"time"
	"unsafe"

	"github.com/phoenix-tui/phoenix"
	"github.com/phoenix-tui/phoenix/clipboard"
)

// bytesOf and intsOf translate between byte strings and sequences of numbers.
func intsOf(s string) []any {
	r := make([]any, len(s))
	for i := 0; i < len(s); i++ {
		r[i] = int(s[i])
	}
	return r
}

// openPTY opens a pseudo terminal in raw mode (bytes written come out unchanged).
func openPTY() (m, s *os.File, err error) {
	m, err = os.OpenFile("/dev/ptmx", os.O_RDWR, 0)
	if err != nil {
		return nil, nil, err
	}
	var n uint32
	var z int32
	if _, _, e := syscall.Syscall(syscall.SYS_IOCTL, m.Fd(), 0x40045431, uintptr(unsafe.Pointer(&z))); e != 0 { // TIOCSPTLCK
		return nil, nil, e
	}
	if _, _, e := syscall.Syscall(syscall.SYS_IOCTL, m.Fd(), 0x80045430, uintptr(unsafe.Pointer(&n))); e != 0 { // TIOCGPTN
		return nil, nil, e
	}
	s, err = os.OpenFile(fmt.Sprintf("/dev/pts/%d", n), os.O_RDWR|syscall.O_NOCTTY, 0)
	if err != nil {
		return nil, nil, err
	}
	var t syscall.Termios
	syscall.Syscall(syscall.SYS_IOCTL, s.Fd(), 0x5401, uintptr(unsafe.Pointer(&t))) // TCGETS
	t.Oflag &^= 1                                                                   // OPOST
	t.Lflag &^= 0xa                                                                 // ICANON ECHO
	syscall.Syscall(syscall.SYS_IOCTL, s.Fd(), 0x5402, uintptr(unsafe.Pointer(&t)))
	return m, s, nil
}

// fakeProv is a clipboard which can be told to be absent or to fail.
type fakeProv struct {
	mu                  sync.Mutex
	name, mime          string
	avail, rfail, wfail bool
	data                string
	wmime               string
	r, w                int
}

func (f *fakeProv) prov() *clipboard.VProvider {
	return &clipboard.VProvider{NameS: f.name,
		AvailF: func() bool { f.mu.Lock(); defer f.mu.Unlock(); return f.avail },
		ReadF: func() ([]byte, string, error) {
			f.mu.Lock()
			defer f.mu.Unlock()
			f.r++
			if f.rfail || f.data == "" {
				return nil, "", errors.New("cannot read")
			}
			return []byte(f.data), f.mime, nil
		},
		WriteF: func(d []byte, m string) error {
			f.mu.Lock()
			defer f.mu.Unlock()
			f.w++
			if f.wfail {
				return errors.New("cannot write")
			}
			f.data, f.wmime = string(d), m
			for i := range d {
				d[i] = 'X' // the caller's data must not be shared
			}
			return nil
		}}
}

const clipScript = `#!/bin/sh
# arguments: as the clipboard tool of this name
D=%s
case "%s $*" in
"wl-copy "|"xclip -selection clipboard -i"|"xsel --clipboard --input") test -e $D/wfail && exit 1; exec /bin/cat > $D/store ;;
"wl-paste --no-newline"|"xclip -selection clipboard -o"|"xsel --clipboard --output") test -e $D/rfail && exit 1; test -e $D/store || exit 1; exec /bin/cat $D/store ;;
*) exit 3 ;;
esac
`

type clipSys struct {
	cb      *clipboard.Clipboard
	err     bool
	global  bool
	provs   []any // *fakeProv, "native", "osc52"
	dir     string
	m, s    *os.File
	oldOut  *os.File
	oldEnv  map[string]string
	ids     map[string]int
	tick    int
	coarse  bool
	shift   map[string]int // tick at which an entry was added
	base    time.Time
	res     any
	mu      sync.Mutex
	got     []byte
	gotDone chan struct{}
}

var clipEnvVars = []string{"PATH", "TERM", "SSH_TTY", "SSH_CLIENT", "SSH_CONNECTION"}

func (c *clipSys) setenv(e J) {
	for _, k := range clipEnvVars[1:] {
		if v := e.s(k); v != "" {
			os.Setenv(k, v)
		} else {
			os.Unsetenv(k)
		}
	}
}
func (c *clipSys) flag(name string, on bool) {
	p := filepath.Join(c.dir, name)
	if on {
		os.WriteFile(p, nil, 0o600)
	} else {
		os.Remove(p)
	}
}

func newClip(cfg J) Sys {
	c := &clipSys{ids: map[string]int{}, shift: map[string]int{}, coarse: cfg.b("coarse"), base: time.Now(), res: J{"ok": true}}
	how := cfg.s("how")
	if how != "fakes" { // process-global surroundings: PATH, the environment, standard output
		c.oldEnv = map[string]string{}
		for _, k := range clipEnvVars {
			c.oldEnv[k] = os.Getenv(k)
		}
		d, err := os.MkdirTemp("", "vclip")
		if err != nil {
			panic(err)
		}
		c.dir = d
		for _, t := range cfg.arr("tools") {
			if err := os.WriteFile(filepath.Join(d, t.(string)), []byte(fmt.Sprintf(clipScript, d, t.(string))), 0o755); err != nil {
				panic(err)
			}
		}
		os.Setenv("PATH", d)
		c.setenv(cfg.obj("env"))
		c.oldOut = os.Stdout
		if cfg.b("tty") {
			c.m, c.s, err = openPTY()
			if err != nil {
				panic(err)
			}
			os.Stdout = c.s
			c.gotDone = make(chan struct{})
			go func() {
				defer close(c.gotDone)
				b := make([]byte, 4096)
				for {
					n, err := c.m.Read(b)
					c.mu.Lock()
					c.got = append(c.got, b[:n]...)
					c.mu.Unlock()
					if err != nil {
						return
					}
				}
			}()
		} else {
			c.s, err = os.CreateTemp(d, "out")
			if err != nil {
				panic(err)
			}
			os.Stdout = c.s
		}
	}
	if how == "new" || how == "global" {
		for _, t := range cfg.arr("provs") {
			c.provs = append(c.provs, t.(map[string]any)["t"])
		}
		var err error
		if how == "new" {
			c.cb, err = clipboard.New()
		} else {
			c.global = true
			clipboard.VSetGlobal(nil)
		}
		c.err = err != nil
		return c
	}
	b := clipboard.NewBuilder().WithOSC52(cfg.b("osc52")).WithNative(cfg.b("native")).WithOSC52Timeout(5 * time.Second)
	for _, t := range cfg.arr("provs") {
		p := J(t.(map[string]any))
		switch p.s("t") {
		case "fake":
			f := &fakeProv{name: p.s("name"), mime: p.s("mime"), avail: p.b("avail"), data: bytesOf(p["c"])}
			c.provs = append(c.provs, f)
			b = b.WithProvider(f.prov())
		default:
			c.provs = append(c.provs, p.s("t"))
		}
	}
	cb, err := b.Build()
	c.cb, c.err = cb, err != nil
	return c
}

func (c *clipSys) Close() {
	if c.oldEnv != nil {
		os.Stdout = c.oldOut
		c.s.Close()
		if c.m != nil {
			c.m.Close()
			<-c.gotDone
		}
		for k, v := range c.oldEnv {
			if v == "" {
				os.Unsetenv(k)
			} else {
				os.Setenv(k, v)
			}
		}
		os.RemoveAll(c.dir)
	}
}

func result(v any, err error) any {
	if err != nil {
		return J{"ok": false}
	}
	if s, ok := v.(string); ok {
		v = intsOf(s)
	}
	if v == nil {
		return J{"ok": true}
	}
	return J{"ok": true, "v": v}
}

func (c *clipSys) Apply(op J) {
	txt := bytesOf(op["c"])
	set := func(v any, err error) { c.res = result(v, err) }
	c.res = J{"ok": true}
	if c.err {
		c.res = J{"ok": false}
		return
	}
	switch op.s("k") {
	case "avail":
		f := c.provs[op.n("i")-1].(*fakeProv)
		f.mu.Lock()
		f.avail = op.b("on")
		f.mu.Unlock()
		return
	case "fail":
		if f, ok := c.provs[op.n("i")-1].(*fakeProv); ok {
			f.mu.Lock()
			f.rfail, f.wfail = op.b("r"), op.b("w")
			f.mu.Unlock()
		} else {
			c.flag("rfail", op.b("r"))
			c.flag("wfail", op.b("w"))
		}
		return
	case "env":
		c.setenv(op.obj("e"))
		return
	case "tick":
		c.tick += op.n("n")
		clipboard.VMoveTime(c.cb, func(_ string, t time.Time) time.Time { return t.Add(-time.Duration(op.n("n")) * time.Hour) })
		return
	}
	if c.global {
		switch op.s("k") {
		case "write":
			if viaRoot(op) {
				set(nil, phoenix.WriteClipboard(txt))
				return
			}
			set(nil, clipboard.Write(txt))
		case "read":
			if viaRoot(op) {
				set(phoenix.ReadClipboard())
				return
			}
			set(clipboard.Read())
		}
		return
	}
	b := c.cb
	switch op.s("k") {
	case "write":
		switch op.s("m") {
		case "html":
			set(nil, b.WriteHTML(txt))
		case "rtf":
			set(nil, b.WriteRTF(txt))
		default:
			set(nil, b.Write(txt))
		}
	case "read":
		switch op.s("m") {
		case "html":
			set(b.ReadHTML())
		case "rtf":
			set(b.ReadRTF())
		default:
			set(b.Read())
		}
	case "image":
		var err error
		switch op.s("m") {
		case "r":
			_, _, err = b.ReadImage()
		case "rpng":
			_, err = b.ReadImagePNG()
		case "rjpeg":
			_, err = b.ReadImageJPEG()
		case "w":
			err = b.WriteImage([]byte{1, 2}, "image/png")
		case "wpng":
			err = b.WriteImagePNG([]byte{1, 2})
		case "wjpeg":
			err = b.WriteImageJPEG([]byte{1, 2})
		}
		set(nil, err)
	case "enable":
		age := time.Duration(0)
		if a := op.n("age"); a > 0 {
			age = time.Duration(a)*time.Hour + 30*time.Minute
		} else {
			age = time.Duration(a)
		}
		max := op.n("max")
		if op.b("huge") {
			max = int(^uint(0) >> 1)
		}
		b.EnableHistory(max, age)
	case "disable":
		b.DisableHistory()
	case "clear":
		b.ClearHistory()
	case "expire":
		c.res = J{"ok": true, "v": b.RemoveExpiredHistory()}
	case "recent":
		c.res = J{"ok": true, "v": c.entries(b.GetRecentHistory(op.n("n")))}
	case "entry":
		e, err := b.GetHistoryEntry(c.id(op.n("i")))
		set(c.entry(e), err)
	case "restore":
		set(nil, b.RestoreFromHistory(c.id(op.n("i"))))
	case "scribble": // what GetHistory gave is the caller's own
		for _, e := range b.GetHistory() {
			for i := range e.Content {
				e.Content[i] ^= 0xff
			}
		}
	case "par":
		var wg sync.WaitGroup
		start := make(chan struct{})
		n, m := op.n("g"), op.n("n")
		for g := 0; g < n; g++ {
			wg.Add(2)
			go func(g int) {
				defer wg.Done()
				<-start
				for i := 0; i < m; i++ {
					t := fmt.Sprintf("%d.%d", g, i)
					switch i % 3 {
					case 0:
						b.Write(t)
					case 1:
						b.WriteHTML(t)
					default:
						b.WriteRTF(t)
					}
				}
			}(g)
			go func(g int) {
				defer wg.Done()
				<-start
				for i := 0; i < m; i++ {
					switch (i + g) % 5 {
					case 0:
						b.GetHistory()
					case 1:
						b.GetRecentHistory(2)
					case 2:
						b.RemoveExpiredHistory()
					case 3:
						b.GetHistorySize()
						b.GetHistoryTotalSize()
					default:
						b.Read()
					}
				}
			}(g)
		}
		close(start)
		wg.Wait()
		h := b.GetHistory()
		got := []any{}
		for _, e := range h {
			var g, i int
			fmt.Sscanf(string(e.Content), "%d.%d", &g, &i)
			got = append(got, []any{g + 1, i})
			if _, ok := c.ids[e.ID]; ok {
				c.ids[e.ID] = 1 << 20
			}
			c.ids[e.ID] = len(c.ids) + 1
		}
		op["got"] = got
		op["ids"] = len(c.ids)
		f := c.provs[0].(*fakeProv)
		var fg, fi int
		fmt.Sscanf(f.data, "%d.%d", &fg, &fi)
		op["last"], op["w"] = []any{fg + 1, fi}, f.w
		f.data, f.wmime, f.w, f.r = "", "", 0, 0
		b.ClearHistory()
	}
	if !c.global && op.s("k") != "par" {
		c.newIDs()
	}
}

// newIDs numbers the entries which appeared, and on a coarse clock makes them all of the same instant.
func (c *clipSys) newIDs() {
	l := c.cb.GetHistory()
	for i := len(l) - 1; i >= 0; i-- {
		if _, ok := c.ids[l[i].ID]; !ok {
			c.ids[l[i].ID] = len(c.ids) + 1
			c.shift[l[i].ID] = c.tick
			if c.coarse {
				clipboard.VMoveTime(c.cb, func(id string, t time.Time) time.Time {
					return c.base.Add(-time.Duration(c.tick-c.shift[id]) * time.Hour)
				})
			}
		}
	}
}
func (c *clipSys) id(i int) string {
	for k, v := range c.ids {
		if v == i {
			return k
		}
	}
	return "no-such-id"
}
func (c *clipSys) entry(e clipboard.HistoryEntry) any {
	age := int(time.Since(e.Timestamp).Round(time.Hour) / time.Hour)
	return J{"n": c.ids[e.ID], "c": intsOf(string(e.Content)), "m": e.MIMEType, "age": age, "size": e.Size}
}
func (c *clipSys) entries(l []clipboard.HistoryEntry) []any {
	r := []any{}
	for _, e := range l {
		r = append(r, c.entry(e))
	}
	return r
}

// terminal gives what the terminal's clipboard holds and how often it was set, or the raw output if
// there is anything in it but clipboard sequences.
func (c *clipSys) terminal() any {
	var raw string
	if c.m != nil {
		// wait for everything written so far to arrive: a marker after it
		c.s.WriteString("\x00END")
		for i := 0; ; i++ {
			c.mu.Lock()
			k := strings.HasSuffix(string(c.got), "\x00END")
			if k {
				c.got = c.got[:len(c.got)-4]
				raw = string(c.got)
			}
			c.mu.Unlock()
			if k || i > 5000 {
				break
			}
			time.Sleep(20 * time.Microsecond)
		}
	} else {
		c.s.Seek(0, io.SeekStart)
		b, _ := io.ReadAll(c.s)
		raw = string(b)
	}
	n, last := 0, ""
	for rest := raw; rest != ""; {
		end := strings.Index(rest, "\x1b\\")
		if !strings.HasPrefix(rest, "\x1b]52;c;") || end < 0 {
			return J{"junk": intsOf(raw)}
		}
		d, err := base64.StdEncoding.DecodeString(rest[7:end])
		if err != nil {
			return J{"junk": intsOf(raw)}
		}
		n, last = n+1, string(d)
		rest = rest[end+2:]
	}
	return J{"c": intsOf(last), "w": n, "r": 0, "m": ""}
}

func (c *clipSys) Obs() any {
	if c.err {
		return J{"err": true, "res": c.res}
	}
	st := []any{}
	for _, p := range c.provs {
		switch p := p.(type) {
		case *fakeProv:
			p.mu.Lock()
			st = append(st, J{"c": intsOf(p.data), "w": p.w, "r": p.r, "m": p.wmime})
			p.mu.Unlock()
		default:
			if p == "osc52" {
				st = append(st, c.terminal())
			} else {
				b, _ := os.ReadFile(filepath.Join(c.dir, "store"))
				st = append(st, J{"c": intsOf(string(b)), "w": 0, "r": 0, "m": ""})
			}
		}
	}
	if c.global {
		return J{"err": false, "res": c.res, "st": st, "name": clipboard.GetProviderName(), "avail": clipboard.IsAvailable(),
			"ssh": false, "on": false, "hist": []any{}, "size": 0, "total": 0}
	}
	b := c.cb
	return J{"err": false, "res": c.res, "st": st, "name": b.GetProviderName(), "avail": b.IsAvailable(),
		"ssh": b.IsSSH() && c.oldEnv != nil, "on": b.IsHistoryEnabled(), "hist": c.entries(b.GetHistory()),
		"size": b.GetHistorySize(), "total": b.GetHistoryTotalSize()}
}

func init() {
	systems["clip"] = newClip
	systems["clipenv"] = newClip
	serial["clipenv"] = true
}

// richSys records what the clipboard's encodings do.
type richSys struct{ kind string }

func pointsOf(s string) []any {
	r := []any{}
	for _, x := range s {
		r = append(r, int(x))
	}
	return r
}
func decoded(o J, text string, st clipboard.VStyles, err error) bool {
	o["dec"], o["db"], o["di"], o["du"], o["dcol"] = pointsOf(text), st.Bold, st.Italic, st.Underline, pointsOf(st.Color)
	return err == nil
}

func (r richSys) Apply(op J) {
	ok := true
	must := func(s string, err error) string {
		if err != nil {
			ok = false
		}
		return s
	}
	o := J{}
	op["out"] = o
	f := &fakeProv{name: "F", mime: "text/plain", avail: true}
	cb, err := clipboard.NewBuilder().WithOSC52(false).WithNative(false).WithProvider(f.prov()).Build()
	must("", err)
	st := clipboard.VStyles{Bold: op.b("b"), Italic: op.b("i"), Underline: op.b("u"), Color: runesOf(op["col"])}
	codec := clipboard.VCodec()
	switch r.kind {
	case "osc":
		var out *os.File
		if op.b("tty") {
			m, s, err := openPTY()
			if err != nil {
				panic(err)
			}
			defer m.Close()
			done := make(chan string)
			go func() {
				b, all := make([]byte, 1<<16), ""
				for !strings.HasSuffix(all, "\x00END") {
					n, err := m.Read(b)
					all += string(b[:n])
					if err != nil {
						break
					}
				}
				done <- all
			}()
			must("", clipboard.VOSC52(s, bytesOf(op["t"])))
			s.WriteString("\x00END")
			all := <-done
			o["enc"] = intsOf(strings.TrimSuffix(all, "\x00END"))
			s.Close()
		} else {
			out, err = os.CreateTemp("", "vosc")
			if err != nil {
				panic(err)
			}
			must("", clipboard.VOSC52(out, bytesOf(op["t"])))
			b, _ := os.ReadFile(out.Name())
			o["enc"] = intsOf(string(b))
			out.Close()
			os.Remove(out.Name())
		}
	case "html":
		text := runesOf(op["t"])
		h := must(codec.EncodeHTML(text, st))
		o["enc"] = pointsOf(h)
		t, s2, err := codec.DecodeHTML(h)
		ok = decoded(o, t, s2, err) && ok
		o["conv"] = pointsOf(must(cb.ConvertHTMLToRTF(h)))
		must("", cb.WriteHTML(h))
		o["plain"] = pointsOf(must(cb.ReadHTMLAsPlainText()))
		must("", clipboard.VWriteStyled(cb, text, st))
		t, s2, err = clipboard.VReadStyled(cb)
		c := J{}
		ok = decoded(c, t, s2, err) && ok
		o["clip"] = c
	case "rtf":
		text := runesOf(op["t"])
		h := must(codec.EncodeRTF(text, st))
		o["enc"] = pointsOf(h)
		t, s2, err := codec.DecodeRTF(h)
		ok = decoded(o, t, s2, err) && ok
		if strings.Trim(text, "\r") != "" {
			o["conv"] = pointsOf(must(cb.ConvertRTFToHTML(h)))
		}
		must("", cb.WriteRTF(h))
		o["plain"] = pointsOf(must(cb.ReadRTFAsPlainText()))
	}
	o["ok"] = ok
}
func (r richSys) Obs() any { return J{"fine": true} }

func init() {
	systems["richtext"] = func(cfg J) Sys { return richSys{cfg.s("kind")} }
}
