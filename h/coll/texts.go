package main

import (
	"fmt"
	"strconv"
	"strings"

	"github.com/iand/starbow/internal/zz/vlib"
)

// texts: a value is the number its text denotes, in whatever form it is written;
// a text that is no number is refused.
func texts(w *vlib.W) {
	one := func(t string) error {
		if _, err := strconv.ParseFloat(t, 64); err == nil {
			if err := c07Run(w, []obs{{k: "a", x: t}}, 1); err != nil {
				return fmt.Errorf("value %q: %v", cut(t), err)
			}
			if err := c07Run(w, []obs{{k: "a", x: "1"}, {k: "a", y: "2"}, {k: "a", x: t}}, 1); err != nil {
				return fmt.Errorf("value %q: %v", cut(t), err)
			}
			return nil
		}
		s, err := newStore(c07Schema(), 4)
		if err != nil {
			return err
		}
		w.Eval(1)
		if err := s.Write(ctx, row("k", "a", "x", t)); err == nil {
			return fmt.Errorf("an observation whose x is %q, which is no number, was not refused", cut(t))
		}
		return nil
	}
	// every short text over the characters of numbers
	for _, a := range []struct {
		alpha string
		n     int
	}{{"01.-+e", 5}, {"0x1p_-.", 5}, {"infaNIF+-", 4}, {"1 ,'\t\x00eE\xd9", 4}, {"09.e", 6}} {
		n := a.n
		if w.Thorough {
			n++
		}
		for first := range a.alpha {
			a, first := a, first
			w.Case(fmt.Sprintf("texts over %q first=%d", a.alpha, first), func() error {
				var bad error
				for l := 0; l < n; l++ {
					vlib.Seqs(len(a.alpha), l, func(sq []int) {
						if bad != nil {
							return
						}
						t := a.alpha[first : first+1]
						for _, i := range sq {
							t += a.alpha[i : i+1]
						}
						bad = one(t)
					})
				}
				return bad
			})
		}
	}
	// long forms
	rep := func(s string, n int) string { return strings.Repeat(s, n) }
	lens := []int{0, 1, 2, 7, 15, 16, 17, 18, 19, 20, 21, 31, 32, 33, 40, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300, 308, 309, 330, 511, 512, 513, 800, 1023, 1024, 1025, 4096, 5000, 20000}
	for _, n := range lens {
		n := n
		w.Case(fmt.Sprintf("long texts of %d", n), func() error {
			for _, sign := range []string{"", "-", "+"} {
				for _, digits := range []string{"0", "1", "9", "12", "7305", "33333333333333331", "9007199254740993"} {
					for _, e := range []string{"", "e0", "e-5", "E+3", "e" + strconv.Itoa(n), "e-" + strconv.Itoa(n), "e" + strconv.Itoa(-2*n), "e-" + rep("0", n) + "2", "e+" + rep("0", n) + "2"} {
						for _, m := range []string{
							rep("0", n) + digits,
							digits + rep("0", n),
							digits + rep("0", n) + digits,
							rep(digits, n/len(digits)+1),
							digits + "." + rep("0", n),
							digits + "." + rep("0", n) + digits,
							"0." + rep("0", n) + digits,
							"." + rep(digits, n/len(digits)+1),
							digits + rep("0", n) + "." + rep("0", n) + digits,
							rep("0", n) + "." + rep("0", n) + digits,
							rep(digits, n/len(digits)+1) + ".5",
						} {
							if err := one(sign + m + e); err != nil {
								return err
							}
						}
					}
				}
			}
			for _, t := range []string{"0x" + rep("0", n) + "1p-3", "0x1." + rep("0", n) + "8p1", "1" + rep("_0", n), rep(" ", n) + "1", "1" + rep(" ", n), "1" + rep("x", n), "Inf" + rep("i", n), rep("-", n) + "1", "nan" + rep("0", n)} {
				if err := one(t); err != nil {
					return err
				}
			}
			return nil
		})
	}
	// the ends of the ranges
	w.Case("texts at the ends", func() error {
		for _, t := range []string{"1.7976931348623157e308", "1.7976931348623159e308", "-1.7976931348623157e308", "5e-324", "2e-324", "-5e-324", "4.9406564584124654e-324", "2.2250738585072014e-308", "2.2250738585072011e-308", "1e309", "-1e309", "1e-400", "18446744073709551615", "18446744073709551616", "9223372036854775807", "-9223372036854775808", "-9223372036854775809", "4294967296", "2147483648", "-2147483649", "1e22", "1e23", "8.41e21", "infinity", "-Infinity", "INF", "nAn", "-nan", "+nan"} {
			if err := one(t); err != nil {
				return err
			}
		}
		return nil
	})
}

func cut(s string) string {
	if len(s) > 100 {
		return s[:60] + "..." + s[len(s)-30:]
	}
	return s
}
