package main

import (
	"encoding/json"
	"math/rand"
	"runtime"
	"sync"
	"sync/atomic"

	"github.com/phoenix-tui/phoenix/style"
)

func colNum(c style.Color) int {
	r, g, b := c.RGB()
	return int(r)<<16 | int(g)<<8 | int(b)
}
func numCol(n int) style.Color { return style.RGB(uint8(n>>16), uint8(n>>8), uint8(n)) }

// borders of a single part: such a border is set, though most of it is not
var partBorders = map[string]style.Border{
	"p1": style.NewBorder("x", "", "", "", "", "", "", ""), "p2": style.NewBorder("", "x", "", "", "", "", "", ""),
	"p3": style.NewBorder("", "", "x", "", "", "", "", ""), "p4": style.NewBorder("", "", "", "x", "", "", "", ""),
	"p5": style.NewBorder("", "", "", "", "x", "", "", ""), "p6": style.NewBorder("", "", "", "", "", "x", "", ""),
	"p7": style.NewBorder("", "", "", "", "", "", "x", ""), "p8": style.NewBorder("", "", "", "", "", "", "", "x"),
}

func borderName(b style.Border) string {
	for k, v := range partBorders {
		if v == b {
			return k
		}
	}
	for k, v := range sborders {
		if v == b {
			if k == "hidden" {
				return ""
			}
			return k
		}
	}
	return "?"
}
func nameBorder(s string) style.Border {
	if s == "" {
		s = "hidden"
	}
	if b, ok := partBorders[s]; ok {
		return b
	}
	return sborders[s]
}
func paletteOf(q []int) style.ColorPalette {
	c := make([]style.Color, len(q))
	for i, n := range q {
		c[i] = numCol(n)
	}
	return style.NewColorPalette(c[0], c[1], c[2], c[3], c[4], c[5], c[6], c[7], c[8], c[9], c[10], c[11], c[12])
}
func bordersOf(v any) style.BorderStyles {
	b := []style.Border{}
	for _, x := range v.([]any) {
		b = append(b, nameBorder(x.(string)))
	}
	return style.NewBorderStyles(b[0], b[1], b[2], b[3], b[4])
}
func spacingOf(q []int) style.SpacingScale {
	return style.NewSpacingScale(q[0], q[1], q[2], q[3], q[4])
}
func typoOf(q []int) style.Typography {
	return style.NewTypography(numCol(q[0]), numCol(q[1]), numCol(q[2]), numCol(q[3]))
}
func themeOf(v any) *style.Theme {
	t := J(v.(map[string]any))
	return style.NewTheme(t.s("n"), paletteOf(t.ints("c")), bordersOf(t["b"]), spacingOf(t.ints("s")), typoOf(t.ints("t")))
}
func themeJ(t *style.Theme) J {
	p, b, s, y := t.Colors(), t.Borders(), t.Spacing(), t.Typography()
	c := []int{}
	for _, x := range []style.Color{p.Primary, p.Secondary, p.Background, p.Surface, p.Text, p.TextMuted, p.Error, p.Warning, p.Success, p.Info, p.Border, p.Focus, p.Disabled} {
		c = append(c, colNum(x))
	}
	bs := []string{}
	for _, x := range []style.Border{b.Default, b.Input, b.Modal, b.Table, b.Panel} {
		bs = append(bs, borderName(x))
	}
	return J{"n": t.Name(), "c": c, "b": bs, "s": []int{s.XS, s.SM, s.MD, s.LG, s.XL},
		"t": []int{colNum(y.PlaceholderColor), colNum(y.CodeColor), colNum(y.LinkColor), colNum(y.HeadingColor)}}
}

type themeSys struct {
	all   []*style.Theme
	tm    *style.ThemeManager
	names []any
	said  bool
}

func (s *themeSys) got(t *style.Theme) {
	s.said = t != nil
	if t != nil {
		s.all = append(s.all, t)
	}
}
func (s *themeSys) Apply(op J) {
	s.said = true
	at := func(k string) *style.Theme { return s.all[op.n(k)-1] }
	name := func() string { return s.names[op.n("n")-1].(string) }
	switch op.s("k") {
	case "new":
		s.got(themeOf(op["t"]))
	case "with":
		t := at("i")
		switch op.s("f") {
		case "n":
			s.got(t.WithName(op.s("v")))
		case "c":
			s.got(t.WithColors(paletteOf(op.ints("v"))))
		case "b":
			s.got(t.WithBorders(bordersOf(op["v"])))
		case "s":
			s.got(t.WithSpacing(spacingOf(op.ints("v"))))
		case "t":
			s.got(t.WithTypography(typoOf(op.ints("v"))))
		}
	case "merge":
		s.got(at("i").Merge(at("j")))
	case "named":
		s.got(style.ThemeByName(name()))
	case "preset":
		s.got(presets()[op.n("p")-1])
	case "mget":
		s.got(s.tm.Current())
	case "mset":
		s.got(s.tm.SetTheme(at("i")))
	case "mnil":
		s.got(s.tm.SetTheme(nil))
	case "mmerge":
		s.tm.MergeTheme(at("i"))
	case "mpreset":
		s.said = s.tm.SetPreset(name())
	case "mreset":
		s.tm.Reset()
	}
}
func (s *themeSys) Obs() any {
	l := []any{}
	for _, t := range s.all {
		l = append(l, themeJ(t))
	}
	return J{"all": l, "cur": themeJ(s.tm.Current()), "said": s.said}
}

func presets() []*style.Theme {
	return []*style.Theme{style.DefaultTheme(), style.DarkTheme(), style.LightTheme(), style.HighContrastTheme()}
}

// themeFacts reports the presets.
func themeFacts(c J) J {
	f := func(ts []*style.Theme) []any {
		l := []any{}
		for _, t := range ts {
			l = append(l, themeJ(t))
		}
		return l
	}
	return J{"cfg": J{"presets": f(presets()), "all": f(style.AllThemes()), "fallback": themeJ(style.NewThemeManager(nil).Current()),
		"offered": style.NewThemeManager(nil).AvailablePresets()}, "ops": []any{}, "obs": []any{}}
}

// themeRace lets goroutines use one manager at the same time, again and again, and returns the
// different histories seen.
func themeRace(c J) J {
	cfg := c.obj("cfg")
	gs, rounds := cfg.n("gs"), cfg.n("rounds")
	first := themeOf(cfg["first"])
	progs := c.arr("progs")
	type call struct {
		op  J
		arg *style.Theme
	}
	ps := make([][]call, gs)
	for g := range ps {
		for _, o := range progs[g].([]any) {
			op := J(o.(map[string]any))
			k := call{op: op}
			if op.has("t") {
				k.arg = themeOf(op["t"])
			}
			ps[g] = append(ps[g], k)
		}
	}
	presetNames := []string{"default", "DARK", "Light", "highContrast"}
	seen := map[string]bool{}
	out := []any{}
	rng := rand.New(rand.NewSource(int64(cfg.n("seed"))))
	for round := 0; round < rounds; round++ {
		tm := style.NewThemeManager(first)
		type ev struct {
			at  int64
			g   int
			i   int
			ret bool
			t   *style.Theme
			was string
		}
		var clock, gate atomic.Int64
		evs := make([][]ev, gs)
		var wg sync.WaitGroup
		spin := make([]int, gs)
		for g := range spin {
			spin[g] = rng.Intn(200)
		}
		for g := 0; g < gs; g++ {
			wg.Add(1)
			go func(g int) {
				defer wg.Done()
				es := make([]ev, 0, 2*len(ps[g]))
				gate.Add(1)
				for gate.Load() < int64(gs) {
					runtime.Gosched()
				}
				for k := 0; k < spin[g]; k++ {
					_ = gate.Load()
				}
				for i, c := range ps[g] {
					es = append(es, ev{at: clock.Add(1), g: g, i: i})
					var t *style.Theme
					switch c.op.s("k") {
					case "mget":
						t = tm.Current()
					case "mset":
						t = tm.SetTheme(c.arg)
					case "mmerge":
						tm.MergeTheme(c.arg)
					case "mpreset":
						tm.SetPreset(presetNames[c.op.n("p")-1])
					case "mreset":
						tm.Reset()
					}
					es = append(es, ev{at: clock.Add(1), g: g, i: i, ret: true, t: t})
				}
				evs[g] = es
			}(g)
		}
		wg.Wait()
		all := make([]ev, clock.Load())
		for _, es := range evs {
			for _, e := range es {
				all[e.at-1] = e
			}
		}
		ops := []any{}
		for _, e := range all {
			if !e.ret {
				ops = append(ops, J{"k": "call", "g": e.g + 1, "op": ps[e.g][e.i].op})
			} else if e.t != nil {
				ops = append(ops, J{"k": "ret", "g": e.g + 1, "has": true, "t": themeJ(e.t)})
			} else {
				ops = append(ops, J{"k": "ret", "g": e.g + 1, "has": false})
			}
		}
		ops = append(ops, J{"k": "call", "g": 1, "op": J{"k": "mget"}}, J{"k": "ret", "g": 1, "has": true, "t": themeJ(tm.Current())})
		b, _ := json.Marshal(ops)
		if !seen[string(b)] {
			seen[string(b)] = true
			out = append(out, ops)
		}
	}
	return J{"cfg": cfg, "ops": []any{}, "obs": []any{}, "histories": out, "rounds": rounds}
}

func init() {
	systems["theme"] = func(cfg J) Sys {
		f := themeOf(cfg["first"])
		return &themeSys{all: []*style.Theme{f}, tm: style.NewThemeManager(f), names: cfg.arr("spell"), said: true}
	}
	wholes["themefacts"] = themeFacts
	wholes["themerace"] = themeRace
}
