package main

import (
	"fmt"
	"strings"

	"github.com/iand/starbow/internal/bufmap"
	"github.com/iand/starbow/internal/collation"
	"github.com/iand/starbow/internal/storage"
	"github.com/iand/starbow/internal/zz/vlib"
)

// mapBackend stores any number of records.
type mapBackend struct {
	size int
	m    map[uint64][]byte
}

func (b *mapBackend) Get(k uint64, buf []byte) bool {
	v, ok := b.m[k]
	if ok {
		copy(buf, v)
	}
	return ok
}

func (b *mapBackend) Update(k uint64, fn func(data []byte, init bool) error) error {
	v, ok := b.m[k]
	if !ok {
		v = make([]byte, b.size)
	}
	if err := fn(v, !ok); err != nil {
		return err
	}
	b.m[k] = v
	return nil
}

var countAll = []want{{"*", "count"}, {"w", "sum"}}

func c09Store(ks []string, big bool) (*storage.Store, error) {
	s := collation.Schema{Name: "c", Keys: keys(ks...), RecordMeasures: []collation.RowMeasure{collation.Count{}},
		Measures: []collation.MeasureSpec{field("w", collation.Sum{})}}
	c, err := s.Compile()
	if err != nil {
		return nil, err
	}
	st := &storage.Store{Collator: c}
	if big {
		st.Backend = &mapBackend{c.Size(), map[uint64][]byte{}}
	} else {
		st.Backend = bufmap.New(31, c.Size())
	}
	return st, nil
}

func counts(s *storage.Store, c collation.FVList) (n, sum float64, found bool, err error) {
	m, err := read(s, c, countAll)
	if err != nil {
		return 0, 0, false, err
	}
	n, found = m[countAll[0]]
	sum, ok := m[countAll[1]]
	if ok != found {
		return 0, 0, false, fmt.Errorf("half an answer: %v", m)
	}
	return n, sum, found, nil
}

// pairsOf makes the key=value pairs in the order perm, then the extra ones at their places.
func pairsOf(ks, vs []string, perm []int, extra int, weight string) collation.Row {
	var kv []string
	if extra&1 != 0 {
		kv = append(kv, "zz", "1")
	}
	if extra&2 != 0 && len(ks) > 0 {
		kv = append(kv, ks[0]+"x", vs[0])
		if ks[len(ks)/2] != "" {
			kv = append(kv, "", vs[0])
		}
	}
	if weight != "" && extra&4 != 0 {
		kv = append(kv, "w", weight)
	}
	for _, p := range perm {
		kv = append(kv, ks[p], vs[p])
	}
	if weight != "" && extra&4 == 0 {
		kv = append(kv, "w", weight)
	}
	if extra&1 != 0 {
		kv = append(kv, "A", "v", "bab", vs[0])
	}
	return row(kv...)
}

// plain is the plain concatenation of names and values.
func plain(ks, vs []string) string {
	s := ""
	for i := range ks {
		s += ks[i] + vs[i]
	}
	return s
}

func eq(a, c []string) bool {
	for i := range a {
		if a[i] != c[i] {
			return false
		}
	}
	return true
}

func tuples(vals []string, n int) (ts [][]string) {
	vlib.Seqs(len(vals), n, func(s []int) {
		t := make([]string, n)
		for i, x := range s {
			t[i] = vals[x]
		}
		ts = append(ts, t)
	})
	return
}

func ident(n int) (p []int) {
	for i := 0; i < n; i++ {
		p = append(p, i)
	}
	return
}

// pair writes one observation of each tuple and reads both.
func c09Pair(w *vlib.W, ks, a, c []string, perm []int, extra int, big bool) error {
	s, err := c09Store(ks, big)
	if err != nil {
		return err
	}
	same := eq(a, c)
	id := ident(len(ks))
	say := func(format string, args ...interface{}) error {
		m := fmt.Sprintf("keys %q, observations of %q and %q: ", ks, a, c) + fmt.Sprintf(format, args...)
		if !same && plain(ks, a) == plain(ks, c) {
			return vlib.Failf("group-concat", "%s", m)
		}
		if len(ks) == 1 && ks[0] == "k" && a[0] == "vsPGGNcsgcb" && c[0] == "L9bPAKnw0-0" {
			return vlib.Failf("hash-collision", "%s", m)
		}
		return fmt.Errorf("%s", m)
	}
	if _, _, found, err := counts(s, crit2(ks, a, id)); err != nil || found {
		return say("an answer before any observation (%v)", err)
	}
	if err := s.Write(ctx, pairsOf(ks, a, perm, extra, "1")); err != nil {
		return say("refused: %v", err)
	}
	if !same {
		if _, _, found, err := counts(s, crit2(ks, c, id)); err != nil || found {
			return say("the first one is found under the second one's values (%v)", err)
		}
	}
	if err := s.Write(ctx, pairsOf(ks, c, id, 0, "4")); err != nil {
		return say("refused: %v", err)
	}
	if err := s.Write(ctx, pairsOf(ks, a, id, extra, "16")); err != nil {
		return say("refused: %v", err)
	}
	wa, na := 17.0, 2.0
	wc, nc := 4.0, 1.0
	if same {
		wa, na, wc, nc = 21, 3, 21, 3
	}
	for _, q := range []struct {
		v      []string
		n, sum float64
	}{{a, na, wa}, {c, nc, wc}} {
		for _, cr := range []collation.FVList{crit2(ks, q.v, id), crit2(ks, q.v, perm), append(crit("zz", "9", "w", "4"), crit2(ks, q.v, perm)...)} {
			n, sum, found, err := counts(s, cr)
			if err != nil {
				return err
			}
			if !found || n != q.n || sum != q.sum {
				return say("the query for %q reads found=%v count=%v weight=%v, want %v and %v", q.v, found, n, sum, q.n, q.sum)
			}
		}
	}
	w.Eval(1)
	if !same {
		w.NT(1)
	}
	w.Tick()
	return nil
}

func crit2(ks, vs []string, perm []int) collation.FVList {
	var kv []string
	for _, p := range perm {
		kv = append(kv, ks[p], vs[p])
	}
	return crit(kv...)
}

// missing checks observations and queries that lack key fields.
func c09Missing(w *vlib.W, ks, t []string) error {
	for mask := 0; mask < 1<<uint(len(ks)); mask++ {
		s, err := c09Store(ks, false)
		if err != nil {
			return err
		}
		var have []int
		for i := range ks {
			if mask>>uint(i)&1 == 1 {
				have = append(have, i)
			}
		}
		full := len(have) == len(ks)
		r := pairsOf(ks, t, have, 7, "5")
		if err := s.Write(ctx, r); err != nil {
			return fmt.Errorf("keys %q: observation %v refused: %v", ks, r.Data, err)
		}
		_, sum, found, err := counts(s, crit2(ks, t, ident(len(ks))))
		if err != nil {
			return err
		}
		if found != full || full && sum != 5 {
			return fmt.Errorf("keys %q: after an observation with only keys %v of %q: found=%v weight=%v", ks, have, t, found, sum)
		}
		if err := s.Write(ctx, pairsOf(ks, t, ident(len(ks)), 0, "8")); err != nil {
			return err
		}
		want := 8.0
		if full {
			want = 13
		}
		if _, sum, found, _ := counts(s, crit2(ks, t, ident(len(ks)))); !found || sum != want {
			return fmt.Errorf("keys %q: an incomplete observation was counted: weight %v, want %v", ks, sum, want)
		}
		if !full {
			if _, _, found, err := counts(s, append(crit2(ks, t, have), crit("zz", "1", "bab", t[0])...)); err != nil || found {
				return fmt.Errorf("keys %q: a query with only keys %v is answered (%v)", ks, have, err)
			}
		}
		// the keys that are there named twice or three times do not stand for those that are not
		if !full && len(have) > 0 {
			for times := 2; times <= len(ks)+1; times++ {
				var kv []string
				for n := 0; n < times; n++ {
					for _, i := range have {
						kv = append(kv, ks[i], t[i])
						if n == 1 {
							kv = append(kv, "zz", "1")
						}
					}
				}
				tap := &tapBackend{Backend: s.Backend}
				u := storage.Store{Collator: s.Collator, Backend: tap}
				if err := u.Write(ctx, row(append(kv, "w", "5")...)); err != nil {
					return fmt.Errorf("keys %q: observation %q refused: %v", ks, kv, err)
				}
				if tap.n != 0 {
					return fmt.Errorf("keys %q: the observation %q lacks a key and yet updated something", ks, kv)
				}
				if _, _, found, err := counts(s, crit(kv...)); err != nil || found {
					return fmt.Errorf("keys %q: a query with criteria %q is answered (%v)", ks, kv, err)
				}
			}
		}
		w.Eval(1)
		w.NT(1)
	}
	return nil
}

// tapBackend counts the updates.
type tapBackend struct {
	storage.Backend
	n int
}

func (t *tapBackend) Update(k uint64, fn func(data []byte, init bool) error) error {
	t.n++
	return t.Backend.Update(k, fn)
}

func c09(w *vlib.W) {
	vals := []string{"", "a", "b", "ab", "1", "1b2", "b2", "2", "a1", "=", "x y", "Ω", "1b", "0"}
	keySets := [][]string{{"k"}, {"a", "b"}, {"b", "a"}, {"a", "ab"}, {"k", "kk"}, {"country", "tz"}, {"c", "", "b"}, {"a", "b", "c"}, {"c", "a", "b"}, {"k3", "k1", "k2"}}
	for _, ks := range keySets {
		vs := vals
		if len(ks) == 3 {
			vs = []string{"", "a", "b", "1b2", "2"}
			if w.Thorough {
				vs = []string{"", "a", "b", "1b2", "2", "c", "bc", "1"}
			}
		}
		ts := tuples(vs, len(ks))
		for _, a := range ts {
			ks, a := ks, a
			for i, c := range ts {
				c := c
				// cases are pairs, so that the known ambiguity does not hide others
				if plain(ks, a) == plain(ks, c) && !eq(a, c) {
					w.Case(fmt.Sprintf("ambiguous %q %q %q", ks, a, c), func() error { return c09Pair(w, ks, a, c, ident(len(ks)), 0, true) })
				}
				_ = i
			}
			w.Case(fmt.Sprintf("pairs %q %q", ks, a), func() error {
				for j, c := range ts {
					if plain(ks, a) == plain(ks, c) && !eq(a, c) {
						continue
					}
					var bad error
					vlib.Perms(len(ks), func(p []int) {
						if bad == nil {
							for extra := 0; extra < 8; extra++ {
								if extra > 0 && (j+len(p))%3 != 0 && !w.Thorough {
									continue
								}
								if bad = c09Pair(w, ks, a, c, p, extra, extra%2 == 1); bad != nil {
									return
								}
							}
						}
					})
					if bad != nil {
						return bad
					}
				}
				return c09Missing(w, ks, a)
			})
		}
		// all tuples in one store, no ambiguous ones
		w.Case(fmt.Sprintf("together %q", ks), func() error { return c09Together(w, ks, ts) })
	}
	// values whose hashes are equal, and one whose hash is 0 (found by search for
	// the 64-bit FNV-1 of the name and the value)
	w.Case("equal hashes", func() error {
		return c09Pair(w, []string{"k"}, []string{"vsPGGNcsgcb"}, []string{"L9bPAKnw0-0"}, ident(1), 0, true)
	})
	for extra := 0; extra < 8; extra++ {
		extra := extra
		w.Case(fmt.Sprintf("hash of zero %d", extra), func() error {
			for _, v := range []string{"", "a", "1X8VeoOlNeQ", "vsPGGNcsgcb"} {
				if err := c09Pair(w, []string{"k"}, []string{"1X8VeoOlNeQ"}, []string{v}, ident(1), extra, false); err != nil {
					return err
				}
			}
			return c09Missing(w, []string{"k"}, []string{"1X8VeoOlNeQ"})
		})
	}
	// no key: one instance
	w.Case("no keys", func() error {
		s, err := c09Store(nil, false)
		if err != nil {
			return err
		}
		for i, r := range []collation.Row{row("w", "1"), row(), row("a", "b", "w", "2"), row("w", "4", "k", "")} {
			if err := s.Write(ctx, r); err != nil {
				return err
			}
			for _, c := range []collation.FVList{nil, crit("a", "b"), crit("q", "")} {
				n, _, found, err := counts(s, c)
				if err != nil || !found || n != float64(i+1) {
					return fmt.Errorf("a collation without keys: after %d observations found=%v count=%v %v", i+1, found, n, err)
				}
			}
			w.Eval(1)
		}
		return nil
	})
	// one key: every short byte string is a group of its own
	for hi := -1; hi < 256; hi++ {
		hi := hi
		w.Case(fmt.Sprintf("bytes %d", hi), func() error {
			var ts [][]string
			for lo := 0; lo < 256; lo++ {
				v := string([]byte{byte(lo)})
				if hi >= 0 {
					v = string([]byte{byte(hi), byte(lo)})
				}
				ts = append(ts, []string{v})
			}
			ts = append(ts, []string{""})
			if hi >= 0 {
				for n := 0; n < 40; n++ {
					ts = append(ts, []string{strings.Repeat(string([]byte{byte(hi)}), n+3)})
				}
			}
			return c09Together(w, []string{"k"}, ts)
		})
	}
	c09Wide(w)
	c09Odd(w)
	// long values that differ in one place
	w.Case("long values", func() error {
		var ts [][]string
		base := strings.Repeat("abcdefghij", 30)
		ts = append(ts, []string{base, "q"})
		for i := range base {
			ts = append(ts, []string{base[:i] + "#" + base[i+1:], "q"}, []string{base[:i], "q"})
		}
		return c09Together(w, []string{"one", "two"}, ts)
	})
	n := 60000
	if w.Thorough {
		n = 1500000
	}
	for i, f := range []string{"%d", "user-%08d", "%d.example.com", "%x", "0000000000%d0000000000"} {
		f := f
		w.Case(fmt.Sprintf("many groups %d", i), func() error {
			var ts [][]string
			for j := 0; j < n; j++ {
				ts = append(ts, []string{fmt.Sprintf(f, j)})
			}
			return c09Together(w, []string{"k"}, ts)
		})
	}
}

// together writes every tuple into one store, tuple i with weight i+1, every third one twice.
func c09Together(w *vlib.W, ks []string, ts [][]string) error {
	var use [][]string
	seen := map[string]bool{}
	for _, t := range ts {
		if p := plain(ks, t); !seen[p] {
			seen[p] = true
			use = append(use, t)
		}
	}
	s, err := c09Store(ks, true)
	if err != nil {
		return err
	}
	id := ident(len(ks))
	write := func(i int) error {
		return s.Write(ctx, pairsOf(ks, use[i], id, i%8, fmt.Sprint(i+1)))
	}
	for i := range use {
		if err := write(i); err != nil {
			return fmt.Errorf("keys %q: %q refused: %v", ks, use[i], err)
		}
		if i&255 == 0 {
			w.Tick()
		}
	}
	for i := range use {
		if i%3 == 0 {
			if err := write(i); err != nil {
				return err
			}
		}
	}
	for i, t := range use {
		n, sum, found, err := counts(s, crit2(ks, t, id))
		if err != nil {
			return err
		}
		k := 1.0
		if i%3 == 0 {
			k = 2
		}
		if !found || n != k || sum != k*float64(i+1) {
			return fmt.Errorf("keys %q, %d groups: group %q reads found=%v count=%v weight=%v, want %v and %v", ks, len(use), t, found, n, sum, k, k*float64(i+1))
		}
		if i&255 == 0 {
			w.Tick()
		}
	}
	w.Eval(len(use))
	w.NT(len(use))
	return nil
}

// c09Odd: texts that mean something elsewhere are values and field names as any.
func c09Odd(w *vlib.W) {
	for i, v := range vlib.Odd {
		i, v := i, v
		w.Case(fmt.Sprintf("odd values %d", i), func() error {
			var ts [][]string
			for _, o := range vlib.Odd {
				ts = append(ts, []string{v + o})
			}
			for _, around := range []string{" ~", "~ ", " ~ ", "x~", "~y", "x~y", "~~", "\"~\"", "(~)", "~\x00", "\t~"} {
				ts = append(ts, []string{strings.Replace(around, "~", v, -1)})
			}
			if err := c09Together(w, []string{"k"}, ts); err != nil {
				return err
			}
			return c09Together(w, []string{v, v + "k", "k" + v}[i%3:i%3+1], ts)
		})
		w.Case(fmt.Sprintf("odd names %d", i), func() error {
			names := append([]string{}, vlib.Odd...)
			for _, around := range []string{" ~", "~ ", "x~", "~y", "~~"} {
				names = append(names, strings.Replace(around, "~", v, -1))
			}
			for _, ks := range [][]string{{v}, {"k", v}, {v, "k"}} {
				s, err := c09Store(ks, true)
				if err != nil {
					return err
				}
				seen := map[string]bool{v: true, "k": true}
				others := []string{}
				for _, n := range names {
					if !seen[n] {
						others = append(others, n, "other")
						seen[n] = true
					}
				}
				at := len(others) / 4 * 2
				full := append(append(append([]string{}, others[:at]...), v, "mine", "k", "mine"), others[at:]...)
				if v == "k" {
					full = append(append([]string{}, others...), v, "mine")
				}
				if err := s.Write(ctx, row(full...)); err != nil {
					return err
				}
				if err := s.Write(ctx, row(append(others, "w", "100")...)); err != nil {
					return err
				}
				for _, c := range []struct {
					c    collation.FVList
					want bool
				}{
					{crit(full...), true}, {crit(v, "mine", "k", "mine"), true}, {crit("k", "mine", v, "mine", "w", "1"), true},
					{crit(v, "other", "k", "mine"), false}, {crit(v, "other", "k", "other"), false}, {crit(v, "Mine", "k", "mine"), false}, {crit(others...), false}, {crit(append(others, "k", "mine")...), false},
				} {
					n, sum, found, err := counts(s, c.c)
					if err != nil {
						return err
					}
					if found != c.want || found && (n != 1 || sum != 0) {
						return fmt.Errorf("keys %q, an observation of all odd fields with the key fields and one without: a query that asks for %d fields reads found=%v count=%v weight=%v", ks, len(c.c), found, n, sum)
					}
					w.Eval(1)
					w.NT(1)
				}
			}
			return nil
		})
	}
}
