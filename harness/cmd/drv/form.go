//go:build vform

package main

import (
	"errors"
	"strings"

	"github.com/phoenix-tui/phoenix/components/form"
	"github.com/phoenix-tui/phoenix/components/input"
	tea "github.com/phoenix-tui/phoenix/tea"
)

type fieldMsg struct{ v string }

// typing is what all the made-up field models do with a message: a rune is appended, backspace takes
// one away (or appends "!" when there is none), "c" also gives a command, anything else appends "?".
func typing(v string, msg tea.Msg) (string, tea.Cmd) {
	k, ok := msg.(tea.KeyMsg)
	switch {
	case ok && k.Type == tea.KeyRune && k.Rune == 'c':
		v += "c"
		return v, func() tea.Msg { return fieldMsg{v} }
	case ok && k.Type == tea.KeyRune:
		return v + string(k.Rune), nil
	case ok && k.Type == tea.KeyBackspace && v != "":
		r := []rune(v)
		return string(r[:len(r)-1]), nil
	case ok && k.Type == tea.KeyBackspace:
		return "!", nil
	}
	return v + "?", nil
}

type plainField struct{ v string }

func (p plainField) View() string { return "<" + p.v + ">" }

// returns its own type, by value
type ownField struct{ plainField }

func (o ownField) Value() string { return o.v }
func (o ownField) Init() tea.Cmd { return func() tea.Msg { return fieldMsg{o.v} } }
func (o ownField) Update(msg tea.Msg) (ownField, tea.Cmd) {
	v, c := typing(o.v, msg)
	return ownField{plainField{v}}, c
}

// returns its own type, by pointer
type ptrField struct{ plainField }

func (o *ptrField) Value() string { return o.v }
func (o *ptrField) Update(msg tea.Msg) (*ptrField, tea.Cmd) {
	v, c := typing(o.v, msg)
	return &ptrField{plainField{v}}, c
}

// returns the form's interface type
type ifaceField struct{ plainField }

func (o ifaceField) Value() string { return o.v }
func (o ifaceField) Update(msg tea.Msg) (form.VModel, tea.Cmd) {
	v, c := typing(o.v, msg)
	return ifaceField{plainField{v}}, c
}

// a choice: nothing chosen while its text is empty
type choiceField struct{ plainField }

func (o choiceField) SelectedValue() (string, bool) { return o.v, o.v != "" }
func (o choiceField) Update(msg tea.Msg) (choiceField, tea.Cmd) {
	v, c := typing(o.v, msg)
	return choiceField{plainField{v}}, c
}

type anyChoiceField struct{ plainField }

func (o anyChoiceField) SelectedValue() (interface{}, bool) { return o.v, o.v != "" }
func (o anyChoiceField) Update(msg tea.Msg) (form.VModel, tea.Cmd) {
	v, c := typing(o.v, msg)
	return anyChoiceField{plainField{v}}, c
}

// its Update is something else
type strangeField struct{ plainField }

func (o strangeField) Value() string          { return o.v }
func (o strangeField) Update(x string) string { return x }

func fieldModel(op J) form.VModel {
	p := plainField{op.s("v")}
	switch op.s("kind") {
	case "own":
		return ownField{p}
	case "ptr":
		return &ptrField{p}
	case "iface":
		return ifaceField{p}
	case "choice":
		return choiceField{p}
	case "anychoice":
		return anyChoiceField{p}
	case "strange":
		return strangeField{p}
	case "input":
		return input.New(200).Focused(true).ShowCursor(false).SetContent(p.v, 1000)
	}
	return p
}

func formValidators(vs []any) []form.VValidator {
	r := []form.VValidator{}
	for _, x := range vs {
		v := J(x.(map[string]any))
		switch v.s("t") {
		case "required":
			r = append(r, form.VRequired())
		case "min":
			r = append(r, form.VMinLength(v.n("n")))
		case "max":
			r = append(r, form.VMaxLength(v.n("n")))
		case "email":
			r = append(r, form.VEmail())
		case "pattern":
			r = append(r, form.VPattern("^[ab]+$"))
		case "even":
			r = append(r, form.VCustom(func(x interface{}) error {
				if s, ok := x.(string); ok && len([]rune(s))%2 == 0 {
					return nil
				}
				return errors.New("odd")
			}))
		}
	}
	return r
}

type formSys struct {
	f     *form.Form
	names []string
	out   string
	keep  frozenSet
}

var formGlyphs = strings.NewReplacer("←", "<", "✗", "X", "✓", "V", "─", "-")

func (s *formSys) look(f *form.Form, names []string) J {
	vals, errs, shown := [][]any{}, [][]string{}, []string{}
	all := f.Values()
	em := f.Errors()
	seen := 0
	for _, n := range names {
		m := f.Value(n)
		if m == nil {
			vals = append(vals, []any{"none"})
		} else {
			vals = append(vals, []any{m.View()})
			if all[n] == nil || all[n].View() != m.View() {
				vals = append(vals, []any{"differs", n})
			}
		}
		e := em[n]
		if e == nil {
			e = []string{}
		} else {
			seen++
		}
		errs = append(errs, e)
	}
	if seen != len(em) || len(all) != len(names) {
		errs = append(errs, []string{"unknown names"})
	}
	v := f.View()
	ls := strings.Split(v, "\n")
	ls = ls[:len(ls)-2] // the rule and the help below the fields
	title, rule := []int{}, 0
	if len(ls) > 3 && strings.Trim(ls[1], "─") == "" && ls[1] != "" && ls[2] == "" {
		title, rule = strAtoms(ls[0]), len([]rune(ls[1]))
		ls = ls[3:]
	}
	for _, l := range ls {
		shown = append(shown, formGlyphs.Replace(unstyled(l)))
	}
	return J{"vals": vals, "errs": errs, "valid": f.IsValid(), "dirty": f.IsDirty(), "title": title, "rule": rule, "shown": shown}
}
func (s *formSys) Apply(op J) {
	f, names := s.f, append([]string{}, s.names...)
	s.keep.add(func() any { return s.look(f, names) })
	s.out = "none"
	upd := func(m tea.Msg) {
		n, cmd := s.f.Update(m)
		s.f = n
		s.keep.late(cmd)
		if cmd == nil {
			return
		}
		switch r := cmd().(type) {
		case form.SubmitMsg:
			s.out = "submit"
		case tea.QuitMsg:
			s.out = "quit"
		case fieldMsg:
			s.out = "field " + r.v
		default:
			s.out = "other"
		}
	}
	switch op.s("k") {
	case "key":
		upd(key(op))
	case "field":
		s.f = s.f.Field(op.s("name"), op.s("label"), fieldModel(op), formValidators(op.arr("vs"))...)
		s.names = append(s.names, op.s("name"))
	case "branch":
		// another form built from this one, left alone afterwards
		b := s.f.Field(op.s("name"), op.s("label"), fieldModel(op), formValidators(op.arr("vs"))...)
		bn := append(append([]string{}, names...), op.s("name"))
		s.keep.add(func() any { return s.look(b, bn) })
	case "init":
		if cmd := s.f.Init(); cmd != nil {
			s.out = "some"
		}
	default:
		upd(otherMsg(op))
	}
}
func (s *formSys) Obs() any {
	o := s.look(s.f, s.names)
	o["out"] = s.out
	o["frozen"] = s.keep.ok()
	return o
}
func init() {
	systems["form"] = func(cfg J) Sys { return &formSys{f: form.New(atomsStr(toInts(cfg["title"]))), out: "none"} }
}
