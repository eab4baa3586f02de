package main

import (
	"bytes"
	"context"
	"fmt"
	"math/big"
	"net/url"
	"strings"

	"github.com/iand/starbow/internal/collation"
	"github.com/iand/starbow/internal/storage"
	"github.com/iand/starbow/internal/zz/vhttp"
	"github.com/iand/starbow/internal/zz/vlib"
)

// recorder is a backend that notes the keys of the updates.
type recorder struct{ ks []uint64 }

func (r *recorder) Get(k uint64, buf []byte) bool { return false }
func (r *recorder) Update(k uint64, fn func(data []byte, init bool) error) error {
	r.ks = append(r.ks, k)
	return nil
}

// probe is a store keyed on one field name: it is updated exactly by the
// observations that carry the field, under the hash of its value.
type probe struct {
	name string
	rec  *recorder
}

var colls = map[string]collation.Collator{}

func collator(name string) collation.Collator {
	c, ok := colls[name]
	if !ok {
		s := collation.Schema{Keys: keys(name)}
		var err error
		if c, err = s.Compile(); err != nil {
			panic(err)
		}
		if len(colls) > 200000 {
			colls = map[string]collation.Collator{}
		}
		colls[name] = c
	}
	return c
}

// hashOf is the key under which a store keyed on f updates for the value v.
func hashOf(f, v string) uint64 {
	var rec recorder
	st := storage.Store{Backend: &rec, Collator: collator(f)}
	if err := st.Write(context.Background(), collation.Row{Data: collation.FVList{{F: b(f), V: b(v)}}}); err != nil || len(rec.ks) != 1 {
		panic("no key")
	}
	return rec.ks[0]
}

// parsed is what a line means.
type parsed struct {
	reject, either bool
	vals           map[string][]string // values by field name
	odd            map[string]bool     // pieces that are not key=value
}

var maxInt, maxUint = big.NewInt(1<<63 - 1), new(big.Int).SetUint64(1<<64 - 1)

func parse(line string) parsed {
	p := parsed{vals: map[string][]string{}, odd: map[string]bool{}}
	line = strings.TrimSuffix(line, "\r")
	d := 0
	for d < len(line) && line[d] >= '0' && line[d] <= '9' {
		d++
	}
	if d == 0 {
		p.reject = true
		return p
	}
	ts, _ := new(big.Int).SetString(line[:d], 10)
	if ts.Cmp(maxInt) > 0 {
		p.reject = ts.Cmp(maxUint) > 0
		p.either = !p.reject
	}
	if d == len(line) || p.reject {
		return p
	}
	for _, piece := range strings.Split(line[d+1:], line[d:d+1]) {
		if i := strings.IndexByte(piece, '='); i >= 0 {
			p.vals[piece[:i]] = append(p.vals[piece[:i]], piece[i+1:])
		} else {
			p.odd[piece] = true
		}
	}
	return p
}

// substrings are all the names a line could mention.
func substrings(lines []string, max int) (out []string) {
	seen := map[string]bool{}
	for _, l := range lines {
		for i := 0; i <= len(l); i++ {
			for j := i; j <= len(l) && j-i <= max; j++ {
				if s := l[i:j]; !seen[s] {
					seen[s] = true
					out = append(out, s)
				}
			}
		}
	}
	return
}

// checkLines posts the lines to a server with a store keyed on each name.
func checkLines(w *vlib.W, lines []string, names []string, ctype string, tail string) error {
	srv.Stores = srv.Stores[:0]
	probes := make([]probe, len(names))
	for i, n := range names {
		probes[i] = probe{n, &recorder{}}
		srv.Stores = append(srv.Stores, storage.Store{Backend: probes[i].rec, Collator: collator(n)})
	}
	body := strings.Join(lines, "\n") + tail
	if ctype == "application/x-www-form-urlencoded" {
		body = "data=" + url.QueryEscape(body)
	}
	r := vhttp.Do(srv, "POST", "/obs", ctype, strings.NewReader(body))
	n := len(lines) // lines applied
	either := false
	var ps []parsed
	for i, l := range lines {
		p := parse(l)
		either = either || p.either
		if p.reject {
			n = i
			break
		}
		ps = append(ps, p)
	}
	w.Eval(1)
	if len(names) > 1 {
		w.NT(1)
	}
	w.Tick()
	if either {
		return nil
	}
	if ok := r.Code >= 200 && r.Code < 300; ok != (n == len(lines)) || (!ok && r.Code < 400) {
		return fmt.Errorf("lines %q: status %d %q", lines, r.Code, r.Body)
	}
	for _, pr := range probes {
		var want []uint64
		got := pr.rec.ks
		skip := false
		for _, p := range ps {
			vs := p.vals[pr.name]
			if p.odd[pr.name] {
				skip = true
				break
			}
			if len(vs) > 1 {
				// a repeated name: one of its values
				if len(got) <= len(want) {
					return fmt.Errorf("lines %q: field %q is not collated", lines, pr.name)
				}
				ok := false
				for _, v := range vs {
					if got[len(want)] == hashOf(pr.name, v) {
						want = append(want, got[len(want)])
						ok = true
						break
					}
				}
				if !ok {
					return fmt.Errorf("lines %q: field %q is collated with none of its values", lines, pr.name)
				}
				continue
			}
			for _, v := range vs {
				want = append(want, hashOf(pr.name, v))
			}
		}
		if skip {
			continue
		}
		if fmt.Sprint(got) != fmt.Sprint(want) {
			if len(got) != len(want) {
				return fmt.Errorf("lines %q: field %q is collated %d times, want %d", lines, pr.name, len(got), len(want))
			}
			return fmt.Errorf("lines %q: field %q is collated with another value", lines, pr.name)
		}
	}
	return nil
}

// odd are texts that some reader somewhere gives a meaning of their own.
var odd = vlib.Odd

func c13(w *vlib.W) {
	x := 0
	if w.Thorough {
		x = 1
	}
	one := func(line string) error { return checkLines(w, []string{line}, substrings([]string{line}, 40), "", "") }
	few := func(line string, names ...string) error { return checkLines(w, []string{line}, names, "", "") }
	// every short byte string
	for c := 0; c < 256; c++ {
		c := c
		w.Case(fmt.Sprintf("bytes %d", c), func() error {
			for _, pre := range []string{"", "1"} {
				if c == '\n' {
					continue
				}
				if err := one(pre + string([]byte{byte(c)})); err != nil {
					return err
				}
				for d := 0; d < 256; d++ {
					if d == '\n' {
						continue
					}
					if err := one(pre + string([]byte{byte(c), byte(d)})); err != nil {
						return err
					}
				}
			}
			return nil
		})
	}
	// every string over the characters that matter
	sig := []byte("19|=a;\t\r \xff")
	for i := range sig {
		for j := range sig {
			i, j := i, j
			w.Case(fmt.Sprintf("strings %q", []byte{sig[i], sig[j]}), func() error {
				var bad error
				for l := 0; l <= 4+x; l++ {
					if i > 1 && l > 2 {
						break // no timestamp
					}
					vlib.Seqs(len(sig), l, func(s []int) {
						if bad != nil {
							return
						}
						t := []byte{sig[i], sig[j]}
						for _, k := range s {
							t = append(t, sig[k])
						}
						bad = one(string(t))
					})
				}
				return bad
			})
		}
	}
	// every value and name of two bytes, and of three to five of these
	for c := 0; c < 256; c++ {
		c := c
		w.Case(fmt.Sprintf("values %d", c), func() error {
			if c == '\n' || c == '|' {
				return nil
			}
			for d := 0; d < 256; d++ {
				if d == '\n' || d == '|' {
					continue
				}
				v := string([]byte{byte(c), byte(d)})
				if err := few("1|a="+v+"|d=e", "a", "d", ""); err != nil {
					return err
				}
				if c == '=' || d == '=' {
					continue
				}
				if err := few("1|a=b|"+v+"=e|c=", "a", v, v[:1], v[1:], "", "c"); err != nil {
					return err
				}
			}
			return nil
		})
	}
	for i := range odd {
		i := i
		w.Case(fmt.Sprintf("odd values %d", i), func() error {
			for j := range odd {
				for _, l := range []string{"1|a=%s|d=%s", "2|a=x%sy|d=%s", "3|a=%s %s|d=", "4|a=%s%s|d=0", "5|%s=1|a=%s", "6|x%s=1|d=%s|a=2"} {
					line := fmt.Sprintf(l, odd[i], odd[j])
					ns := []string{"a", "d", odd[i], "x" + odd[i], "x", ""}
					if err := checkLines(w, []string{line}, ns, "", []string{"", "\n"}[(i+j)%2]); err != nil {
						return err
					}
					if (i+j)%4 == 0 {
						if err := checkLines(w, []string{"7|a=first", line, "8|d=last"}, ns, form, "\n"); err != nil {
							return err
						}
					}
				}
			}
			return nil
		})
	}
	punct := []byte("\"'%41x\\n+&;<u{}`")
	for i := range punct {
		i := i
		w.Case(fmt.Sprintf("punctuation %d", i), func() error {
			var bad error
			for l := 2; l <= 3+x; l++ {
				vlib.Seqs(len(punct), l, func(s []int) {
					if bad != nil {
						return
					}
					t := []byte{punct[i]}
					for _, k := range s {
						t = append(t, punct[k])
					}
					bad = few("1|a="+string(t)+"|"+string(t)+"=d", "a", string(t), "d")
				})
			}
			return bad
		})
	}
	// every delimiter with fields and values that avoid it
	names := []string{"a", "key", "", "a b", "Ω", "*", "0", "a|b", "a,b", "-", "\xfe\x00", "k'"}
	vals := []string{"", "v", "=", "a=b", "==", "1.5", "two words", "|", "\t", "\x00\xff", "x,y;z", "'q'", "Côte", strings.Repeat("long", 200), "\r", "1", "v\r", "="}
	for d := 0; d < 256; d++ {
		if d == '\n' || d >= '0' && d <= '9' || d == '=' {
			continue
		}
		d := d
		w.Case(fmt.Sprintf("delimiter %d", d), func() error {
			ds := string([]byte{byte(d)})
			var pairs [][2]string
			for _, n := range names {
				for _, v := range vals {
					if !strings.Contains(n+v, ds) {
						pairs = append(pairs, [2]string{n, v})
					}
				}
			}
			all := append([]string{"other", "v", "1478566442000000", ds, "a" + ds, ds + "a"}, names...)
			for i, p := range pairs {
				for _, line := range []string{
					"1478566442000000" + ds + p[0] + "=" + p[1],
					"0" + ds + p[0] + "=" + p[1] + ds + pairs[(i*7+3)%len(pairs)][0] + "=" + pairs[(i*7+3)%len(pairs)][1],
					"7" + ds + pairs[(i*5+1)%len(pairs)][0] + "=" + ds + p[0] + "=" + p[1] + ds + "z=q",
				} {
					if err := checkLines(w, []string{line}, all, "", []string{"", "\n"}[i%2]); err != nil {
						return err
					}
				}
			}
			// many fields
			line := "12345"
			var fn []string
			for i := 0; i < 300; i++ {
				line += ds + fmt.Sprintf("f%d=v%d", i, i*i)
				if i%10 == 0 {
					fn = append(fn, fmt.Sprintf("f%d", i))
				}
			}
			if strings.ContainsAny(ds, "fv") {
				return nil
			}
			return checkLines(w, []string{line}, append(fn, "f", "f299", "v0", ""), "", "")
		})
	}
	// timestamps
	w.Case("timestamps", func() error {
		var ts []string
		for l := 1; l <= 45; l++ {
			for _, c := range []string{"0", "1", "5", "9", "8"} {
				ts = append(ts, strings.Repeat(c, l), "1"+strings.Repeat("0", l-1), strings.Repeat("0", l)+"1", strings.Repeat("0", l)+"1478566442000000", strings.Repeat("0", l)+strings.Repeat("9", 20))
			}
		}
		for _, base := range []string{"9223372036854775807", "9223372036854775808", "9223372036854775806", "18446744073709551615", "18446744073709551616", "9223372036854775", "9223372036854776", "99999999999999999999", "100000000000000000000"} {
			ts = append(ts, base, "0"+base, base+"0", "00"+base)
		}
		for _, t := range ts {
			for _, rest := range []string{"", "|a=b", "|a=b|c=d", " a=1", "|", "x", "-a=b", ".a=b", "+a=1", "e5=1"} {
				if err := one(t + rest); err != nil {
					return err
				}
			}
		}
		for _, t := range []string{"-1|a=b", "+1|a=b", " 1|a=b", "|a=b", "a=b", ".5|a=b", "١|a=b", "x1|a=b", "\x001|a=b", "=1"} {
			if err := one(t); err != nil {
				return err
			}
		}
		return nil
	})
	// more timestamps: every leading part with every count of zeros and nines, and around
	// the multiples of the sizes of machine integers
	for d := 1; d <= 9; d++ {
		d := d
		w.Case(fmt.Sprintf("timestamps %d", d), func() error {
			for p := d * 100; p < d*100+100; p++ {
				for n := 12; n <= 20+2*x; n++ {
					for _, c := range []string{"0", "9", "5"} {
						for _, rest := range []string{"", "|a=b|c=d"} {
							if err := few(fmt.Sprint(p)+strings.Repeat(c, n)+rest, "a", "c", "b", ""); err != nil {
								return err
							}
						}
					}
				}
			}
			return nil
		})
	}
	for e := uint(31); e <= 66; e++ {
		e := e
		w.Case(fmt.Sprintf("timestamps around 2^%d", e), func() error {
			m := new(big.Int).Lsh(big.NewInt(1), e)
			for k := int64(1); k <= 200; k++ {
				for j := int64(-3); j <= 3; j++ {
					t := new(big.Int).Mul(m, big.NewInt(k))
					t.Add(t, big.NewInt(j))
					if err := few(t.String()+"|a=b|c=d", "a", "c", "b", ""); err != nil {
						return err
					}
				}
			}
			return nil
		})
	}
	// batches: what a line means does not depend on its neighbours
	lines := []string{"1|a=b", "22|a=c|d=e", "3", "4;a=", "5\td=longer value|x\ta=0", "6|d==", "7|a=b\r", "x", "", "8 a=bbbbbbbbbbbb d=1"}
	for i := range lines {
		for j := range lines {
			i, j := i, j
			w.Case(fmt.Sprintf("batch %d %d", i, j), func() error {
				var bad error
				for l := 0; l <= 2+x; l++ {
					vlib.Seqs(len(lines), l, func(s []int) {
						if bad != nil {
							return
						}
						ls := []string{lines[i], lines[j]}
						for _, k := range s {
							ls = append(ls, lines[k])
						}
						if ls[len(ls)-1] == "" {
							return // nothing after the last line break is not a line
						}
						for n, ct := range []string{"", "text/plain", "application/octet-stream", "application/x-www-form-urlencoded"} {
							if bad == nil {
								bad = checkLines(w, ls, []string{"a", "d", "x", "", "b"}, ct, []string{"", "\n"}[(len(s)+n)%2])
							}
						}
					})
				}
				return bad
			})
		}
	}
	manyFields(w)
	collidingLines(w)
	// long lines: up to just under the limit of 64 KB
	w.Case("long lines", func() error {
		for _, n := range []int{100, 4000, 4090, 4095, 4096, 4097, 8192, 30000, 65000} {
			v := string(bytes.Repeat([]byte("xyz="), n/4))
			for _, l := range []string{"1|a=" + v, "1|a=b|" + v + "=q|d=e", "1|a=" + v + "|d=f"} {
				if err := checkLines(w, []string{"2|d=first", l, "3|a=last"}, []string{"a", "d", "xyz", "x"}, "", "\n"); err != nil && len(l) < 65000 {
					return fmt.Errorf("line of %d bytes: %.300s", len(l), err)
				}
			}
		}
		return nil
	})
}

// collidingLines: names, values and whole lines that common hashes take for
// the same.
func collidingLines(w *vlib.W) {
	for part, gen := range []func(s string) string{
		func(s string) string { return s },
		func(s string) string { return "1|k=" + s },
		func(s string) string { return "1|" + s + "=v" },
	} {
		part, gen := part, gen
		w.Case(fmt.Sprintf("colliding lines %d", part), func() error {
			i := strings.Index(gen("\x00"), "\x00")
			long := strings.Repeat("long", 1100)
			for _, p := range vlib.Colliding(4, func(n int) string { return gen(vlib.Name36(n)) }) {
				a, b := p.A[i:i+vlib.NameLen], p.B[i:i+vlib.NameLen]
				for _, ls := range [][]string{
					{"1|k=" + a, "1|k=" + b, "1|k=" + a},
					{"1|" + a + "=v", "1|" + b + "=v", "1|" + a + "=u"},
					{"1|" + a + "=v|" + b + "=u", "1|" + b + "=w"},
					{"1|" + a + "=" + b + "|k=" + a, "1|" + b + "=" + a + "|j=" + a + "|k=" + b},
					{"1|k=" + a + long, "1|k=" + b + long, "1|k=" + long + a, "1|k=" + long + b},
				} {
					if err := checkLines(w, ls, []string{"k", "j", a, b}, "", "\n"); err != nil {
						return fmt.Errorf("%q and %q have the same %s: %v", a, b, p.Hash, err)
					}
				}
			}
			return nil
		})
	}
}
