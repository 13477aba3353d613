package main

import (
	"strconv"
	"strings"
)

// lex splits terminal output into the tokens of spec/Term.tla.  It only finds token boundaries;
// what the tokens do is defined by the specification.
func lex(s string) []J {
	out := []J{}
	flush := func(t string) {
		if t != "" {
			out = append(out, J{"t": "p", "a": strAtoms(t)})
		}
	}
	start := 0
	i := 0
	for i < len(s) {
		c := s[i]
		if c >= 0x20 && c != 0x7f {
			i++
			continue
		}
		flush(s[start:i])
		if c != 0x1b {
			out = append(out, J{"t": "c", "n": int(c)})
			i++
			start = i
			continue
		}
		// escape
		if i+1 >= len(s) {
			out = append(out, J{"t": "bad"})
			i++
			start = i
			continue
		}
		switch s[i+1] {
		case '[':
			j := i + 2
			q := ""
			if j < len(s) && (s[j] == '?' || s[j] == '<' || s[j] == '>' || s[j] == '=') {
				q = string(s[j])
				j++
			}
			ps := j
			for j < len(s) && ((s[j] >= '0' && s[j] <= '9') || s[j] == ';' || s[j] == ':') {
				j++
			}
			params := s[ps:j]
			im := ""
			for j < len(s) && s[j] >= 0x20 && s[j] <= 0x2f {
				im += string(s[j])
				j++
			}
			if j >= len(s) || s[j] < 0x40 || s[j] > 0x7e {
				out = append(out, J{"t": "bad"})
				i = j
				start = i
				continue
			}
			p := []int{}
			if params != "" {
				for _, x := range strings.Split(params, ";") {
					if x == "" {
						p = append(p, -1)
					} else if n, err := strconv.Atoi(x); err == nil {
						p = append(p, n)
					} else {
						p = append(p, -2)
					}
				}
			}
			out = append(out, J{"t": "csi", "q": q, "f": im + string(s[j]), "p": p})
			i = j + 1
		case ']':
			j := i + 2
			for j < len(s) && s[j] != 7 && !(s[j] == 0x1b && j+1 < len(s) && s[j+1] == '\\') {
				j++
			}
			if j >= len(s) {
				out = append(out, J{"t": "bad"})
				i = j
			} else {
				out = append(out, J{"t": "osc"})
				if s[j] == 7 {
					i = j + 1
				} else {
					i = j + 2
				}
			}
		default:
			out = append(out, J{"t": "esc", "f": string(s[i+1])})
			i += 2
		}
		start = i
	}
	flush(s[start:])
	return out
}
