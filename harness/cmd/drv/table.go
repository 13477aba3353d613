package main

import (
	"fmt"
	"strconv"
	"time"

	"github.com/phoenix-tui/phoenix/components/table"
)

type tableSys struct {
	cols  []table.Column
	fresh bool
	t     *table.Table
	keep  frozenSet
}

func colKey(i int) string { return "c" + strconv.Itoa(i+1) }

// cellValue makes the Go value of a cell of the model.
func cellValue(c J) any {
	n := c.n("n")
	if c.has("lit") { // n is only its place among the numbers of its kind
		v, _ := strconv.ParseInt(c.s("lit"), 10, 64)
		switch c.s("t") {
		case "int":
			return int(v)
		case "int64":
			return v
		case "uint64":
			u, _ := strconv.ParseUint(c.s("lit"), 10, 64)
			return u
		case "dur":
			return time.Duration(v)
		}
		f, _ := strconv.ParseFloat(c.s("lit"), 64)
		return f
	}
	switch c.s("t") {
	case "str":
		return atoms(c["s"])
	case "int":
		return n / 2
	case "int64":
		return int64(n / 2)
	case "int32":
		return int32(n / 2)
	case "uint8":
		return uint8(n / 2)
	case "float":
		return float64(n) / 2
	case "float32":
		return float32(n) / 2
	case "bool":
		return n != 0
	}
	return nil
}
func tableRows(rows []any) []table.Row {
	r := []table.Row{}
	for _, x := range rows {
		j := J(x.(map[string]any))
		row := table.Row{"id": j.n("id")}
		for i, c := range j.arr("c") {
			if v := cellValue(J(c.(map[string]any))); v != nil {
				row[colKey(i)] = v
			}
		}
		r = append(r, row)
	}
	return r
}
func (s *tableSys) look(t *table.Table) J {
	ids, row := []int{}, 0
	for _, r := range t.Rows() {
		ids = append(ids, r["id"].(int))
	}
	if r := t.SelectedRow(); r != nil {
		row = r["id"].(int)
	}
	return J{"view": linesAtoms(t.View()), "sel": t.SelectedIndex(), "row": row, "rows": ids}
}
func (s *tableSys) Apply(op J) {
	t := s.t
	s.keep.add(func() any { return s.look(t) })
	switch op.s("k") {
	case "key":
		s.t, _ = s.t.Update(key(op))
	case "rows":
		if s.fresh && viaRoot(op) { // as the first thing done it equals a construction with rows
			s.t = table.NewWithRows(s.cols, tableRows(op.arr("rows")))
		} else {
			s.t = s.t.SetRows(tableRows(op.arr("rows")))
		}
	case "height":
		s.t = s.t.Height(op.n("n"))
	case "header":
		s.t = s.t.ShowHeader(op.b("on"))
	case "sort":
		s.t = s.t.SortByColumn(colKey(op.n("c") - 1))
	case "clear":
		s.t = s.t.ClearSort()
	default:
		s.t, _ = s.t.Update(otherMsg(op))
	}
	s.fresh = false
}
func (s *tableSys) Obs() any {
	o := s.look(s.t)
	o["frozen"] = s.keep.ok()
	return o
}
func init() {
	systems["table"] = func(cfg J) Sys {
		cols := []table.Column{}
		for i, x := range cfg.arr("cols") {
			j := J(x.(map[string]any))
			c := table.Column{Key: colKey(i), Title: atoms(j["title"]), Width: j.n("w"), Sortable: j.b("sort")}
			for k := 0; k < j.n("al"); k++ {
				c.Alignment++
			}
			if j.b("rend") {
				c.Renderer = func(v any) string {
					if v == nil {
						v = ""
					}
					return fmt.Sprintf("<%v>", v)
				}
			}
			cols = append(cols, c)
		}
		return &tableSys{t: table.New(cols), cols: cols, fresh: true}
	}
}
