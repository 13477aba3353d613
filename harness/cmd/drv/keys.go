package main

import (
	"math/rand"
	"strings"
	"unicode"

	tea "github.com/phoenix-tui/phoenix/tea"
)

var keyNames = map[string]tea.KeyType{
	"up": tea.KeyUp, "down": tea.KeyDown, "left": tea.KeyLeft, "right": tea.KeyRight,
	"home": tea.KeyHome, "end": tea.KeyEnd, "pgup": tea.KeyPgUp, "pgdown": tea.KeyPgDown,
	"enter": tea.KeyEnter, "esc": tea.KeyEsc, "tab": tea.KeyTab, "space": tea.KeySpace,
	"backspace": tea.KeyBackspace, "delete": tea.KeyDelete, "ctrl+c": tea.KeyCtrlC,
	"insert": tea.KeyInsert, "f1": tea.KeyF1,
}

// key turns an op {key:"up", ctrl, alt, shift} or {key:"rune", r:<atom>} into a message.
func key(op J) tea.KeyMsg {
	k := op.s("key")
	m := tea.KeyMsg{}
	for {
		if strings.HasPrefix(k, "ctrl+") && k != "ctrl+c" {
			m.Ctrl = true
			k = k[5:]
		} else if strings.HasPrefix(k, "alt+") {
			m.Alt = true
			k = k[4:]
		} else if strings.HasPrefix(k, "shift+") {
			m.Shift = true
			k = k[6:]
		} else {
			break
		}
	}
	if t, ok := keyNames[k]; ok {
		m.Type = t
		return m
	}
	m.Type = tea.KeyRune
	if op.has("ch") {
		m.Rune = []rune(op.s("ch"))[0]
	} else if op.has("cp") {
		m.Rune = rune(op.n("cp"))
	} else if k == "rune" {
		m.Rune = []rune(atomStr(op.n("r")))[0]
	} else {
		m.Rune = []rune(k)[0]
	}
	// some terminals tell that Shift was held for a capital letter: it is the same key
	if unicode.IsUpper(m.Rune) && rand.Intn(2) == 0 {
		m.Shift = true
	}
	return m
}
