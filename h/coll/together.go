package main

import (
	"fmt"

	"github.com/iand/starbow/internal/collation"
	"github.com/iand/starbow/internal/zz/vlib"
)

// together uses one collator, or one each, in two threads with records of their own.
func together(w *vlib.W, prop string) {
	all := []collation.Measure{collation.Count{}, collation.Sum{}, collation.Mean{}, collation.Variance{}, collation.Min{}, collation.Max{}}
	names := []string{"count", "sum", "mean", "var", "min", "max"}
	if prop == "C08" {
		all = append(all, collation.Cardinality{Precision: 4})
		names = append(names, "uniquecount")
	}
	sch := collation.Schema{Name: "c", RecordMeasures: []collation.RowMeasure{collation.Count{}}, Measures: []collation.MeasureSpec{
		{Field: collation.FieldSpec{Pattern: "x"}, Measures: all},
		{Field: collation.FieldSpec{Pattern: "y"}, Measures: all[1:]},
	}}
	for _, k := range []string{"k", "j"} {
		sch.Keys = append(sch.Keys, collation.KeySpec{Field: collation.FieldSpec{Pattern: k}})
	}
	shared, err := sch.Compile()
	if err != nil {
		panic(err)
	}
	fv := func(f, v string) collation.FV { return collation.FV{F: []byte(f), V: []byte(v)} }
	rowOf := func(by, i int) collation.Row {
		r := collation.Row{Data: collation.FVList{fv("x", fmt.Sprint(i*7+by*100-3)), fv("k", fmt.Sprint("a", by)), fv("j", fmt.Sprint(i)), fv("z", "no")}}
		if i != 1 {
			r.Data = append(r.Data, fv("y", fmt.Sprintf("%d.5", i+10*by)))
		}
		return r
	}
	use := func(c collation.Collator, by, n int) string {
		buf := make([]byte, c.Size())
		for i := 0; i < n; i++ {
			if err := c.Update(rowOf(by, i), buf, i == 0); err != nil {
				return err.Error()
			}
		}
		var fms []collation.FM
		for f, ns := range map[string][]string{"x": names} {
			m := collation.FM{F: []byte(f)}
			for _, n := range ns {
				m.M = append(m.M, []byte(n))
			}
			fms = append(fms, m)
		}
		fms = append(fms, collation.FM{F: []byte("y"), M: [][]byte{[]byte("sum"), []byte("max"), []byte("min")}}, collation.FM{F: []byte("*"), M: [][]byte{[]byte("count")}})
		res, err := c.Read(fms, buf)
		out := fmt.Sprint(err)
		for _, v := range res.FieldMeasureValues {
			out += fmt.Sprintf(" %s(%s)=%v", v.M, v.F, v.V)
		}
		return out
	}
	var us []vlib.Use
	if prop == "C09" {
		for n := 1; n < 3; n++ {
			n := n
			us = append(us, vlib.Use{Name: fmt.Sprintf("%d keys", n), Do: func(by int) string {
				var out string
				for i := 0; i < 2; i++ {
					r := rowOf(by, i)
					h, ok := r.KeyValue(shared.Keys()[:n])
					q := collation.Query{Criteria: r.Data[1:]}
					h2, ok2 := q.KeyValue(shared.Keys()[:n])
					h3, ok3 := r.KeyValue([][]byte{[]byte("none")})
					out += fmt.Sprintln(h, ok, h2, ok2, h3, ok3)
				}
				return out
			}})
		}
	} else {
		us = []vlib.Use{
			{Name: "one", Do: func(by int) string { return use(shared, by, 1) }},
			{Name: "two", Do: func(by int) string { return use(shared, by, 2) }},
			{Name: "own", Do: func(by int) string {
				c, err := sch.Compile()
				if err != nil {
					return err.Error()
				}
				return use(c, by, 2)
			}},
		}
	}
	vlib.Together(w, us)
}
