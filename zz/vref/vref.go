// Package vref holds reference models shared by the harnesses.
package vref

import (
	"fmt"
	"math"
	"math/big"
)

const eps = 2.220446049250313e-16

// Exact accumulates values with exact arithmetic.
type Exact struct {
	N        int
	NaN      int
	PInf     int
	NInf     int
	sum, ssq *big.Rat
	abs      float64 // sum of absolute values
	M        float64 // largest absolute value
	max, min float64
}

// NewExact returns an empty accumulator.
func NewExact() *Exact {
	return &Exact{sum: new(big.Rat), ssq: new(big.Rat), max: math.NaN(), min: math.NaN()}
}

// Add adds a value.
func (e *Exact) Add(v float64) {
	e.N++
	switch {
	case math.IsNaN(v):
		e.NaN++
		return
	case math.IsInf(v, 1):
		e.PInf++
	case math.IsInf(v, -1):
		e.NInf++
	default:
		r := new(big.Rat).SetFloat64(v)
		e.sum.Add(e.sum, r)
		e.ssq.Add(e.ssq, new(big.Rat).Mul(r, r))
		e.abs += math.Abs(v)
		e.M = math.Max(e.M, math.Abs(v))
	}
	if !(e.max >= v) {
		e.max = v
	}
	if !(e.min <= v) {
		e.min = v
	}
}

// Special reports whether a value was not finite.
func (e *Exact) Special() bool { return e.NaN+e.PInf+e.NInf > 0 }

func f64(r *big.Rat) float64 { f, _ := r.Float64(); return f }

// Variance is the exact sample variance, rounded; NaN for fewer than two values.
func (e *Exact) Variance() float64 {
	if e.N < 2 {
		return math.NaN()
	}
	n := big.NewRat(int64(e.N), 1)
	q := new(big.Rat).Mul(e.sum, e.sum)
	q.Quo(q, n)
	q.Sub(e.ssq, q)
	q.Quo(q, big.NewRat(int64(e.N-1), 1))
	return f64(q)
}

// Sum is the exact sum, rounded.
func (e *Exact) Sum() float64 { return f64(e.sum) }

// Mean is the exact mean, rounded.
func (e *Exact) Mean() float64 {
	if e.N == 0 {
		return math.NaN()
	}
	return f64(new(big.Rat).Quo(e.sum, big.NewRat(int64(e.N), 1)))
}

func close(what string, got, want, tol float64) error {
	if math.Abs(got-want) <= tol {
		return nil
	}
	if math.IsInf(want, 0) || math.IsInf(tol, 0) {
		return nil // beyond the range of float64
	}
	return fmt.Errorf("%s is %v, want %v (tolerance %.3g)", what, got, want, tol)
}

func same(what string, got, want float64) error {
	if got == want || math.IsNaN(got) && math.IsNaN(want) {
		return nil
	}
	return fmt.Errorf("%s is %v, want %v", what, got, want)
}

const tiny = 5e-324

// Check compares a reported measure with the exact value.
func (e *Exact) Check(measure string, got float64) error {
	n := float64(e.N)
	switch measure {
	case "count":
		return same("count", got, n)
	case "max":
		return same("max", got, e.max)
	case "min":
		return same("min", got, e.min)
	case "sum":
		if e.NaN > 0 || e.PInf > 0 && e.NInf > 0 {
			return same("sum", got, math.NaN())
		}
		if e.PInf > 0 {
			return same("sum", got, math.Inf(1))
		}
		if e.NInf > 0 {
			return same("sum", got, math.Inf(-1))
		}
		return close("sum", got, e.Sum(), n*eps*e.abs)
	case "mean":
		if e.N == 0 {
			if got == 0 || math.IsNaN(got) {
				return nil
			}
			return fmt.Errorf("mean of no values is %v", got)
		}
		if e.NaN > 0 {
			return same("mean", got, math.NaN())
		}
		if e.Special() {
			return nil
		}
		return close("mean", got, e.Mean(), 4*n*eps*e.M+n*tiny)
	case "var":
		if e.N < 2 {
			return same("variance", got, math.NaN())
		}
		if e.NaN > 0 {
			return same("variance", got, math.NaN())
		}
		if e.Special() {
			return nil
		}
		v := e.Variance()
		if got < 0 {
			return fmt.Errorf("variance is negative: %v", got)
		}
		t := 16 * n * eps * e.M
		return close("variance", got, v, 8*n*eps*(v+e.M*math.Sqrt(v))+t*t+n*tiny)
	}
	return fmt.Errorf("vref: unknown measure %q", measure)
}
