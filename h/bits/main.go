// Harness for bit buckets, bloom filters and the storage of sketches (C17-C20).
package main

import (
	"os"

	"github.com/iand/starbow/internal/zz/vlib"
)

func main() {
	vlib.Main(func(w *vlib.W) {
		switch os.Getenv("VW_PROP") {
		case "C17":
			together(w, "buckets")
			c17(w)
		case "C18":
			together(w, "saved")
			c18(w)
		case "C19":
			c19(w)
		case "C20":
			together(w, "filters")
			c20(w)
		}
	})
}
