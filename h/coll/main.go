// Harness for collations behind a store (C07, C08, C09).
package main

import (
	"context"
	"fmt"
	"os"
	"strings"

	"github.com/iand/starbow/internal/bufmap"
	"github.com/iand/starbow/internal/collation"
	"github.com/iand/starbow/internal/storage"
	"github.com/iand/starbow/internal/zz/vlib"
)

var ctx = context.Background()

func b(s string) []byte { return []byte(s) }

func field(name string, ms ...collation.Measure) collation.MeasureSpec {
	return collation.MeasureSpec{Field: collation.FieldSpec{Pattern: name}, Measures: ms}
}

func keys(names ...string) (ks []collation.KeySpec) {
	for _, n := range names {
		ks = append(ks, collation.KeySpec{Field: collation.FieldSpec{Pattern: n}})
	}
	return
}

func newStore(s collation.Schema, slots int) (*storage.Store, error) {
	c, err := s.Compile()
	if err != nil {
		return nil, fmt.Errorf("compile: %v", err)
	}
	return &storage.Store{Backend: bufmap.New(slots, c.Size()), Collator: c}, nil
}

// row builds a row from name, value pairs.
func row(kv ...string) collation.Row {
	var r collation.Row
	for i := 0; i < len(kv); i += 2 {
		r.Data = append(r.Data, collation.FV{F: b(kv[i]), V: b(kv[i+1])})
	}
	return r
}

func crit(kv ...string) collation.FVList { return row(kv...).Data }

type want struct{ f, m string }

func query(c collation.FVList, ws []want) collation.Query {
	q := collation.Query{Criteria: c}
	for _, w := range ws {
		n := len(q.FieldMeasures)
		if n > 0 && string(q.FieldMeasures[n-1].F) == w.f {
			q.FieldMeasures[n-1].M = append(q.FieldMeasures[n-1].M, b(w.m))
			continue
		}
		q.FieldMeasures = append(q.FieldMeasures, collation.FM{F: b(w.f), M: [][]byte{b(w.m)}})
	}
	return q
}

// read returns the answers by "field measure", and whether there was any.
func read(s *storage.Store, c collation.FVList, ws []want) (map[want]float64, error) {
	res, err := s.Read(ctx, query(c, ws))
	if err != nil {
		return nil, fmt.Errorf("query: %v", err)
	}
	out := map[want]float64{}
	for _, r := range res.FieldMeasureValues {
		v, ok := r.V.(float64)
		if !ok {
			return nil, fmt.Errorf("%v is not a float64", r)
		}
		k := want{string(r.F), string(r.M)}
		if _, dup := out[k]; dup {
			return nil, fmt.Errorf("%v answered twice", r)
		}
		out[k] = v
	}
	return out, nil
}

func join(a []string) string { return strings.Join(a, " ") }

func main() {
	vlib.Main(func(w *vlib.W) {
		switch os.Getenv("VW_PROP") {
		case "C07":
			together(w, "C07")
			c07(w)
		case "C08":
			together(w, "C08")
			c08(w)
		case "C09":
			together(w, "C09")
			c09(w)
		}
	})
}
