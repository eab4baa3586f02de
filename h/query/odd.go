package main

import (
	"fmt"
	"strings"

	"github.com/iand/starbow/internal/zz/vlib"
)

// oddTexts: values and names of every one and two bytes, of three marks, and
// texts that mean something elsewhere stand for themselves.
func oddTexts(w *vlib.W, st []style) {
	value := func(v string) bool { return !strings.ContainsAny(v, "'\n") }
	// names hold no blanks of any kind and no syntax
	name := func(v string) bool {
		return v != "" && !strings.ContainsAny(v, "'\"=(), \t\n\v\f\r\u0085\u00a0")
	}
	as := func(s style, v, around string) error {
		if v := strings.Replace(around, "~", v, -1); value(v) {
			ps, cs := []pair{{"sum", "a"}, {"max", "b"}}, []cond{{"k", v}, {"j", "1"}}
			if err := check(w, s.text(ps, cs), reference(ps, cs)); err != nil {
				return err
			}
			cs[0], cs[1] = cs[1], cs[0]
			if err := check(w, s.text(ps[:1], cs), reference(ps[:1], cs)); err != nil {
				return err
			}
		}
		if name(v) {
			ps, cs := []pair{{"sum", v}, {v, "b"}}, []cond{{v, "1"}, {"j", v}}
			if err := check(w, s.text(ps, cs), reference(ps, cs)); err != nil {
				return err
			}
		}
		return nil
	}
	for i, v := range vlib.Odd {
		i, v := i, v
		w.Case(fmt.Sprintf("odd text %d", i), func() error {
			for j, s := range append([]style{plainStyle}, st...) {
				for k, around := range []string{"~", "x~", "~y", "x~y", "x ~ y", " ~ ", "~~", "~ ~"} {
					if j > 0 && (j+k)%8 > 0 {
						continue
					}
					if err := as(s, v, around); err != nil {
						return err
					}
				}
			}
			for j, o := range vlib.Odd {
				if !value(v) || !value(o) {
					continue
				}
				ps, cs := []pair{{"sum", "a"}}, []cond{{"k", v}, {"j", o}}
				if err := check(w, st[(i+j)%len(st)].text(ps, cs), reference(ps, cs)); err != nil {
					return err
				}
			}
			return nil
		})
	}
	for c := 0; c < 256; c++ {
		c := c
		w.Case(fmt.Sprintf("bytes %d", c), func() error {
			if err := as(plainStyle, string([]byte{byte(c)}), "~"); err != nil {
				return err
			}
			for d := 0; d < 256; d++ {
				v := string([]byte{byte(c), byte(d)})
				if !name(v[:1]) || !name(v[1:]) {
					if !value(v) {
						continue
					}
					ps, cs := []pair{{"sum", "a"}}, []cond{{"k", v}}
					if err := check(w, plainStyle.text(ps, cs), reference(ps, cs)); err != nil {
						return err
					}
					continue
				}
				if err := as(plainStyle, v, "~"); err != nil {
					return err
				}
			}
			return nil
		})
	}
	marks := "a1-/*#;%\\$&+|.:!?@^~_<>[]{}`\" "
	for i := range marks {
		i := i
		w.Case(fmt.Sprintf("marks %d", i), func() error {
			for j := range marks {
				for k := range marks {
					v := string([]byte{marks[i], marks[j], marks[k]})
					ps, cs := []pair{{"sum", "a"}}, []cond{{"k", v}}
					if name(v) {
						ps, cs = []pair{{"sum", v}}, []cond{{v, v}}
					}
					if err := check(w, plainStyle.text(ps, cs), reference(ps, cs)); err != nil {
						return err
					}
				}
			}
			return nil
		})
	}
}
