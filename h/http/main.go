// Harness for the server's HTTP interface (C13, C14, C15).
package main

import (
	"context"
	"os"

	"github.com/iand/starbow/internal/collation"
	"github.com/iand/starbow/internal/server"
	"github.com/iand/starbow/internal/zz/vhttp"
	"github.com/iand/starbow/internal/zz/vlib"
)

var srv *server.Server

var ctxBg = context.Background()

func main() {
	vlib.Main(func(w *vlib.W) {
		srv = vhttp.Start()
		switch os.Getenv("VW_PROP") {
		case "C13":
			c13(w)
		case "C14":
			c14(w)
		case "C16":
			c16(w)
		case "C25":
			c25(w)
		case "C24":
			c24(w)
		case "C15":
			c15(w)
		}
	})
}

func b(s string) []byte { return []byte(s) }

func keys(names ...string) (ks []collation.KeySpec) {
	for _, n := range names {
		ks = append(ks, collation.KeySpec{Field: collation.FieldSpec{Pattern: n}})
	}
	return
}

func field(name string, ms ...collation.Measure) collation.MeasureSpec {
	return collation.MeasureSpec{Field: collation.FieldSpec{Pattern: name}, Measures: ms}
}
