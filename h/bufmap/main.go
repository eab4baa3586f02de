// Harness for the keyed record store (C01, C02, C03, C04).
package main

import (
	"os"

	"github.com/iand/starbow/internal/zz/vlib"
	"github.com/iand/starbow/internal/zz/vsched"
)

func main() {
	vlib.Main(func(w *vlib.W) {
		vsched.Sequential = true
		switch os.Getenv("VW_PROP") {
		case "C01":
			c01(w)
		case "C02":
			c02(w)
		case "C03":
			c03(w)
		case "C04":
			c04(w)
		}
	})
}
