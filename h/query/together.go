package main

import (
	"fmt"

	"github.com/iand/starbow/internal/query"
	"github.com/iand/starbow/internal/zz/vlib"
)

// together parses queries in two threads.
func together(w *vlib.W) {
	texts := [][2]string{
		{"select sum(a) where k='v'", "select max(bb) where kk='w x'"},
		{"select sum(a), mean(a), count(*), min(b) where k='v' and j=''", "select count(*), var(c), sum(b), max(c) where i='1' and k='2' and j='and'"},
		{"select sum(a) where k=", "insert"},
		{"select x(y) where z='1'", "select x(y) where z='2'"},
	}
	var us []vlib.Use
	for i := range texts {
		t := texts[i]
		us = append(us, vlib.Use{Name: fmt.Sprintf("query %d", i), Do: func(by int) string {
			q, err := query.RoughParse(t[by])
			return show(q) + fmt.Sprint(err)
		}})
	}
	vlib.Together(w, us)
}
