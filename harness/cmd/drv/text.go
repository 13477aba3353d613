package main

import (
	"strings"
	"unicode/utf8"
)

// Text in the specifications is a sequence of user-perceived characters ("atoms"), numbered so that
// the display width can be read off the number: 1000..1999 one cell, 2000..2999 two cells,
// 3000..3999 none.  1000+c is the ASCII character c.
var atomTable = map[int]string{
	1201: "é", 1202: "e\u0301", 1203: "ж", 1204: "ß", 1205: "n\u0303\u0323", 1206: "ñ", 1207: "İ", 1208: "क\u094d", 1209: "Ж",
	1210: "É", 1211: "α", 1212: "ы",
	2001: "世", 2002: "界", 2003: "한", 2004: "😀", 2005: "👨\u200d👩\u200d👧", 2006: "🇩🇪", 2007: "👍🏽", 2008: "Ｗ", 2009: "本", 2010: "🎉",
	2011: "❤\ufe0f",
	3001: "\u0301", 3002: "\u200b",
}

const unknownAtom = 9000

var atomByString = map[string]int{}
var atomMaxLen int

func init() {
	for k, v := range atomTable {
		atomByString[v] = k
		if len(v) > atomMaxLen {
			atomMaxLen = len(v)
		}
	}
}

func atomStr(id int) string {
	if s, ok := atomTable[id]; ok {
		return s
	}
	if id >= 1000 && id < 1200 {
		return string(rune(id - 1000))
	}
	if id >= unknownAtom {
		return string(rune(id - unknownAtom))
	}
	return "?"
}

func atomsStr(ids []int) string {
	var b strings.Builder
	for _, i := range ids {
		b.WriteString(atomStr(i))
	}
	return b.String()
}

// strAtoms splits a string into atoms by longest match; invalid bytes become 8000+byte.
func strAtoms(s string) []int {
	r := []int{}
	for len(s) > 0 {
		l := atomMaxLen
		if l > len(s) {
			l = len(s)
		}
		ok := false
		for ; l > 1; l-- {
			if id, f := atomByString[s[:l]]; f {
				r = append(r, id)
				s = s[l:]
				ok = true
				break
			}
		}
		if ok {
			continue
		}
		if s[0] < 128 {
			r = append(r, 1000+int(s[0]))
			s = s[1:]
			continue
		}
		c, n := utf8.DecodeRuneInString(s)
		if c == utf8.RuneError && n == 1 {
			r = append(r, 8000+int(s[0]))
		} else {
			r = append(r, unknownAtom+int(c))
		}
		s = s[n:]
	}
	return r
}

func linesAtoms(s string) [][]int {
	out := [][]int{}
	for _, l := range strings.Split(s, "\n") {
		out = append(out, strAtoms(l))
	}
	return out
}

// bytesOf makes a string of a list of bytes.
func bytesOf(v any) string {
	a := toInts(v)
	b := make([]byte, len(a))
	for i, x := range a {
		b[i] = byte(x)
	}
	return string(b)
}

// runesOf makes a text of a list of code points.
func runesOf(v any) string {
	var b strings.Builder
	for _, x := range toInts(v) {
		b.WriteRune(rune(x))
	}
	return b.String()
}
