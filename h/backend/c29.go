package main

import (
	"bufio"
	"bytes"
	"encoding/hex"
	"fmt"
	"os"
	"os/exec"
	"strconv"
	"strings"

	"github.com/iand/starbow/internal/collation"
	"github.com/iand/starbow/internal/storage"
	"github.com/iand/starbow/internal/zz/vlib"
	"github.com/iand/starbow/internal/zz/vsched"
)

// lists of measures of a field, and what can be asked.
var lists = []struct {
	ms    []collation.Measure
	names []string
}{
	{[]collation.Measure{collation.Count{}, collation.Sum{}}, []string{"count", "sum"}},
	{[]collation.Measure{collation.Variance{}}, []string{"var"}},
	{[]collation.Measure{collation.Max{}, collation.Min{}}, []string{"max", "min"}},
	{[]collation.Measure{u6, last{}}, []string{"uniquecount", "last"}},
	{[]collation.Measure{tally{}}, []string{"tally"}},
	{[]collation.Measure{u6, collation.Mean{}, tally{}, collation.Max{}, collation.Sum{}}, []string{"uniquecount", "tally", "max", "sum"}},
}

// laid is a schema with a key, rec record counts and fields x, y, ... with the lists.
func laid(rec int, ls []int) schema {
	sc := schema{name: fmt.Sprint(rec, ls)}
	sc.make = func() collation.Schema {
		s := collation.Schema{Name: "c", Keys: keys("k")}
		if rec > 0 {
			s.RecordMeasures = []collation.RowMeasure{collation.Count{}}
		}
		for i, l := range ls {
			s.Measures = append(s.Measures, field(string(rune('u'+i)), lists[l].ms...))
		}
		return s
	}
	if rec > 0 {
		sc.all = append(sc.all, fms("*", "count"))
	}
	for i, l := range ls {
		sc.all = append(sc.all, fms(string(rune('u'+i)), lists[l].names...))
	}
	return sc
}

func allSchemas(n int) (out []schema) {
	for rec := 0; rec < 2; rec++ {
		vlib.SeqsUpTo(len(lists), n, func(ls []int) {
			if rec+len(ls) > 0 {
				out = append(out, laid(rec, append([]int{}, ls...)))
			}
		})
	}
	return
}

var rows29 = []string{
	"k=a u=1 v=2 w=3 x=4",
	"k=a w=-5 u=7",
	"k=b v=9 u=1",
	"k=a x=6 v=2",
	"k=b",
	"k=a u=2 v=8 w=3 x=0",
	"k= u=11 v=12",
	"k=b x=-3 w=4 v=5 u=6",
}

// orders lists orders of map iteration: none (the language's own), and the
// permutations by number.
func orders(n int, fn func(i int) error) error {
	defer func() { vsched.MapOrder = nil }()
	for i := -8; i < n; i++ {
		i := i
		if i >= 0 {
			vsched.MapOrder = func(int) int { return i }
		} else {
			vsched.MapOrder = nil
		}
		if err := fn(i); err != nil {
			return fmt.Errorf("map iteration order %d: %v", i, err)
		}
	}
	return nil
}

func tags(text string) map[string]string {
	m := map[string]string{}
	for _, p := range strings.Fields(text) {
		i := strings.IndexByte(p, '=')
		m[p[:i]] = p[i+1:]
	}
	return m
}

func plain(c collation.Collator) (*storage.Store, *backend) {
	k := &backend{size: c.Size(), recs: map[uint64][]byte{}, old: map[uint64][]byte{}, plan: "c", fill: 0x77}
	return &storage.Store{Backend: k, Collator: c}, k
}

// ask checks every instance.
func ask(st *storage.Store, sc schema, insts map[string]def) error {
	return askBy(st, sc, insts, "k")
}

func askBy(st *storage.Store, sc schema, insts map[string]def, key string) error {
	for _, inst := range []string{"a", "b", "", "c"} {
		d, known := insts[inst]
		res, err := st.Read(ctx, collation.Query{FieldMeasures: sc.all, Criteria: collation.FVList{{F: b(key), V: b(inst)}}})
		if err != nil {
			return fmt.Errorf("query for %q: %v", inst, err)
		}
		if !known {
			if len(res.FieldMeasureValues) > 0 {
				return fmt.Errorf("a query for %q, not observed, answers %v", inst, res.FieldMeasureValues)
			}
			continue
		}
		if err := d.check(sc.all, res); err != nil {
			return fmt.Errorf("instance %q: %v", inst, err)
		}
	}
	return nil
}

// mixed writes the rows to one backend by the collators in turn, as who says,
// and has each of them asked.
func mixed(w *vlib.W, sc schema, cs []collation.Collator, rows []string, who int) error {
	st, k := plain(cs[0])
	insts := map[string]def{}
	for i, text := range rows {
		st.Collator = cs[who>>uint(i)&1]
		if err := st.Write(ctx, row(text)); err != nil {
			return fmt.Errorf("schema %s, %q: %v", sc.name, text, err)
		}
		if k.inside != nil {
			return fmt.Errorf("schema %s, %q: %v", sc.name, text, k.inside)
		}
		m := tags(text)
		insts[m["k"]] = def{append(append([]map[string]string{}, insts[m["k"]].rows...), m)}
		for j, c := range cs {
			st.Collator = c
			if err := ask(st, sc, insts); err != nil {
				return fmt.Errorf("schema %s compiled twice, %d observations (taken by turns as %b), asked by number %d: %v", sc.name, i+1, who, j+1, err)
			}
		}
		w.Eval(1)
		w.NT(1)
	}
	w.Tick()
	return nil
}

func c29(w *vlib.W) {
	n, perms := 3, 24
	if w.Thorough {
		n, perms = 4, 120
	}
	all := allSchemas(n)
	// schemas that common hashes take for the same
	w.Case("colliding schemas", func() error {
		for _, gen := range []func(i int) string{vlib.Name36, func(i int) string { return "k" + vlib.Name36(i) }, func(i int) string { return "count" + vlib.Name36(i) }} {
			for _, p := range vlib.Colliding(3, gen) {
				a, b := p.A[len(p.A)-vlib.NameLen:], p.B[len(p.B)-vlib.NameLen:]
				for part := 0; part < 3; part++ {
					names := [][3]string{{"c", "k", "x"}, {"c", "k", "x"}}
					names[0][part], names[1][part] = a, b
					var sts [2]*storage.Store
					for i, n := range names {
						sch := collation.Schema{Name: n[0], Keys: keys(n[1]), Measures: []collation.MeasureSpec{field(n[2], collation.Sum{})}}
						c, err := sch.Compile()
						if err != nil {
							return err
						}
						if c.Name() != n[0] {
							return fmt.Errorf("the collation %q, compiled after %q with the same %s, is called %q", n[0], names[0][0], p.Hash, c.Name())
						}
						sts[i], _ = plain(c)
					}
					for i, n := range names {
						if err := sts[i].Write(ctx, row("k=1 x=1 "+n[1]+"=1 "+n[2]+"=5")); err != nil {
							return err
						}
						res, err := sts[i].Read(ctx, collation.Query{FieldMeasures: []collation.FM{fms(n[2], "sum")}, Criteria: collation.FVList{{F: []byte(n[1]), V: []byte("1")}}})
						if err != nil || len(res.FieldMeasureValues) != 1 {
							return fmt.Errorf("schema %v compiled with %v, which have the same %s: %v %v", n, names[1-i], p.Hash, res, err)
						}
					}
					w.Eval(1)
					w.NT(1)
				}
				w.Tick()
			}
		}
		return nil
	})
	keptCollations(w)
	together(w)
	// two compilations of one schema may share a backend
	for si, sc := range all {
		si, sc := si, sc
		w.Case("compiled twice "+sc.name, func() error {
			vsched.MapOrder = nil
			s := sc.make()
			first, err := s.Compile()
			if err != nil {
				return err
			}
			return orders(perms, func(i int) error {
				other := all[(si*7+i+11)%len(all)].make()
				if i&1 == 1 {
					if _, err := other.Compile(); err != nil {
						return err
					}
				}
				t := sc.make()
				if i&2 == 2 {
					t = s // the very same schema once more
				}
				c, err := t.Compile()
				if err != nil {
					return err
				}
				if c.Size() != first.Size() || c.Name() != first.Name() || fmt.Sprintf("%q", c.Keys()) != fmt.Sprintf("%q", first.Keys()) {
					return fmt.Errorf("schema %s compiles to %d bytes, name %q, keys %q; before to %d, %q, %q", sc.name, c.Size(), c.Name(), c.Keys(), first.Size(), first.Name(), first.Keys())
				}
				for _, who := range []int{0, 1<<8 - 1, 0x5A, 0xA5} {
					if err := mixed(w, sc, []collation.Collator{first, c}, rows29, who); err != nil {
						return err
					}
				}
				if i < 1 {
					// every short history, every way of taking turns
					var bad error
					vlib.SeqsUpTo(4, 2, func(sq []int) {
						var rows []string
						for _, r := range sq {
							rows = append(rows, rows29[r])
						}
						for who := 0; who < 1<<uint(len(sq)) && bad == nil; who++ {
							bad = mixed(w, sc, []collation.Collator{first, c}, rows, who)
						}
					})
					return bad
				}
				return nil
			})
		})
	}
	// the order of an observation's fields does not matter
	for _, sc := range all {
		sc := sc
		w.Case("field orders "+sc.name, func() error {
			s := sc.make()
			c, err := s.Compile()
			if err != nil {
				return err
			}
			return orders(6, func(int) error {
				var bad error
				try := func(p, q []int) {
					st, _ := plain(c)
					insts := map[string]def{}
					for _, x := range []struct {
						text string
						p    []int
					}{{rows29[0], p}, {rows29[5], q}, {rows29[7], p}} {
						r := row(x.text)
						o := make(collation.FVList, len(x.p))
						for i, j := range x.p {
							o[i] = r.Data[j]
						}
						r.Data = o
						if err := st.Write(ctx, r); err != nil && bad == nil {
							bad = err
						}
						m := tags(x.text)
						insts[m["k"]] = def{append(append([]map[string]string{}, insts[m["k"]].rows...), m)}
					}
					if err := ask(st, sc, insts); err != nil && bad == nil {
						bad = fmt.Errorf("schema %s, fields in the orders %v and %v: %v", sc.name, p, q, err)
					}
					w.Eval(1)
					w.NT(1)
				}
				id := []int{0, 1, 2, 3, 4}
				vlib.Perms(5, func(p []int) {
					p = append([]int{}, p...)
					try(p, id)
					if p[0] > 1 {
						try(id, p)
					}
				})
				w.Tick()
				return bad
			})
		})
	}
	// what another process stored is understood
	children := 16
	if w.Thorough {
		children = 64
	}
	for v := 0; v < children; v++ {
		v := v
		w.Case(fmt.Sprintf("process %d", v), func() error { return fromChild(w, v) })
	}
}

// handed is how the child and the parent hand over: all schemas of up to two
// fields, after 1, 4 and 8 observations.
var cutAt = []int{1, 4, 8}

// child stores observations and prints what its backend holds.
func child() {
	v, _ := strconv.Atoi(os.Getenv("VERIF_CHILD"))
	all := allSchemas(2)
	out := bufio.NewWriter(os.Stdout)
	defer out.Flush()
	if v > 0 {
		vsched.MapOrder = func(int) int { return v }
	}
	// what this process has compiled before
	nth := 0
	vlib.Perms(4, func(p []int) {
		if nth++; nth == 1+v%24 {
			s := collation.Schema{Name: "before", Keys: keys("u", "k")}
			for _, f := range p {
				s.Measures = append(s.Measures, field(string(rune('u'+f)), lists[(v+f)%len(lists)].ms...))
			}
			s.Compile()
		}
	})
	for n := range all {
		i := n
		if v&1 == 1 {
			i = len(all) - 1 - n // another history of compilations
		}
		s := all[i].make()
		c, err := s.Compile()
		if err != nil {
			fmt.Fprintln(out, "error", err)
			return
		}
		st, k := plain(c)
		for j, text := range rows29 {
			if err := st.Write(ctx, row(text)); err != nil {
				fmt.Fprintln(out, "error", err)
				return
			}
			for _, at := range cutAt {
				if at == j+1 {
					for key, rec := range k.recs {
						fmt.Fprintln(out, i, at, key, hex.EncodeToString(rec)+".")
					}
				}
			}
		}
	}
	fmt.Fprintln(out, "end")
}

func fromChild(w *vlib.W, v int) error {
	vsched.MapOrder = nil
	exe, err := os.Executable()
	if err != nil {
		return nil
	}
	cmd := exec.Command(exe)
	cmd.Env = append(os.Environ(), fmt.Sprintf("VERIF_CHILD=%d", v))
	// other processes run in other circumstances
	switch {
	case v%8 == 1:
		cmd.Env = append(cmd.Env, "GOMAXPROCS=1", "TZ=Asia/Tokyo", "GOGC=off")
	case v%8 == 2:
		cmd.Env = append(cmd.Env, "GOMAXPROCS=2", "LANG=tr_TR.UTF-8", "LC_ALL=tr_TR.UTF-8", "HOME=/nonexistent")
		cmd.Dir = "/"
	case v%8 == 3:
		cmd.Env = []string{fmt.Sprintf("VERIF_CHILD=%d", v)}
		cmd.Args = []string{"starbow", "-port", "2525", "serve"}
	case v%8 == 4:
		cmd.Env = append(cmd.Env, "GOMAXPROCS=64", "TZ=America/New_York", "HOSTNAME=node2", "USER=nobody", "PATH=/nonexistent", "DEBUG=1", "PORT=80")
		cmd.Dir = os.TempDir()
	case v%8 == 5:
		cmd.Env = append(cmd.Env, "GOMAXPROCS=1024", "GOMEMLIMIT=1GiB", "GOGC=10")
		cmd.Args = []string{""}
	case v%8 == 6:
		cmd.Env = append(cmd.Env, "GOMAXPROCS=3", "HOSTNAME=", "STARBOW_SEED=7", "SEED=7", "VERSION=9")
	}
	var errb bytes.Buffer
	cmd.Stderr = &errb
	text, err := cmd.Output()
	if err != nil {
		return fmt.Errorf("the other process fails: %v: %s", err, errb.String())
	}
	got := map[string]map[uint64][]byte{}
	ended := false
	for _, l := range strings.Split(strings.TrimSpace(string(text)), "\n") {
		f := strings.Fields(l)
		if len(f) == 1 && f[0] == "end" {
			ended = true
			continue
		}
		if len(f) != 4 {
			return fmt.Errorf("the other process says %q", l)
		}
		key, _ := strconv.ParseUint(f[2], 10, 64)
		rec, err := hex.DecodeString(strings.TrimSuffix(f[3], "."))
		if err != nil {
			return fmt.Errorf("the other process says %q", l)
		}
		at := f[0] + " " + f[1]
		if got[at] == nil {
			got[at] = map[uint64][]byte{}
		}
		got[at][key] = rec
	}
	if !ended {
		return fmt.Errorf("the other process stops early")
	}
	for i, sc := range allSchemas(2) {
		s := sc.make()
		c, err := s.Compile()
		if err != nil {
			return err
		}
		for _, at := range cutAt {
			st, k := plain(c)
			for key, rec := range got[fmt.Sprint(i, at)] {
				if len(rec) != c.Size() {
					return fmt.Errorf("schema %s: records of %d bytes here, %d in another process", sc.name, c.Size(), len(rec))
				}
				k.recs[key] = rec
			}
			insts := map[string]def{}
			for j := 0; j < at; j++ {
				m := tags(rows29[j])
				insts[m["k"]] = def{append(append([]map[string]string{}, insts[m["k"]].rows...), m)}
			}
			if err := ask(st, sc, insts); err != nil {
				return fmt.Errorf("schema %s: %d observations stored by another process: %v", sc.name, at, err)
			}
			for j := at; j < len(rows29); j++ {
				if err := st.Write(ctx, row(rows29[j])); err != nil {
					return fmt.Errorf("schema %s: after %d observations stored by another process: %v", sc.name, at, err)
				}
				m := tags(rows29[j])
				insts[m["k"]] = def{append(append([]map[string]string{}, insts[m["k"]].rows...), m)}
			}
			if err := ask(st, sc, insts); err != nil {
				return fmt.Errorf("schema %s: %d observations stored by another process, the others here: %v", sc.name, at, err)
			}
			w.Eval(1)
			w.NT(1)
			w.Tick()
		}
	}
	return nil
}

// keptCollations: what a collation does is settled however many others are
// compiled after it.
func keptCollations(w *vlib.W) {
	ns := []int{1, 2, 3, 4, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 4095, 4096, 4097, 10001, 40000}
	if w.Thorough {
		ns = append(ns, 65535, 65536, 65537, 262145)
	}
	for _, n := range ns {
		for _, long := range []int{0, 40, 1000} {
			if n*long > 1<<24 && !w.Thorough || n*long > 1<<27 {
				continue
			}
			n, long := n, long
			w.Case(fmt.Sprintf("%d collations are kept, names of %d and more", n, long), func() error {
				vsched.MapOrder = nil
				tail := strings.Repeat("n", long)
				name := func(kind string, i int) string { return kind + strconv.Itoa(i) + tail }
				cs := make([]collation.Collator, n)
				for i := range cs {
					sch := collation.Schema{Name: name("c", i), Keys: keys(name("k", i), "common"),
						RecordMeasures: []collation.RowMeasure{collation.Count{}},
						Measures:       []collation.MeasureSpec{field(name("f", i), collation.Sum{}, collation.Max{}), field("g", []collation.Measure{collation.Min{}, collation.Mean{}, collation.Cardinality{Precision: 4 + i%3}}[i%3])}}
					if i%5 == 4 {
						sch.Keys = keys("common", name("k", i))
						sch.RecordMeasures = nil
					}
					c, err := sch.Compile()
					if err != nil {
						return err
					}
					cs[i] = c
				}
				for i, c := range cs {
					fail := func(format string, a ...interface{}) error {
						return fmt.Errorf("collation %d of %d that were compiled one after the other: %s", i+1, n, fmt.Sprintf(format, a...))
					}
					if c.Name() != name("c", i) {
						return fail("is called %.60q", c.Name())
					}
					st, _ := plain(c)
					fv := func(f, v string) collation.FV { return collation.FV{F: b(f), V: b(v)} }
					crit := collation.FVList{fv(name("k", i), "a"), fv("common", "b")}
					for _, v := range []string{"3", "-7"} {
						if err := st.Write(ctx, collation.Row{Data: append(append(collation.FVList{}, crit...), fv(name("f", i), v), fv("g", "5"), fv(name("f", i+1), "100"))}); err != nil {
							return fail("%v", err)
						}
					}
					// of other instances
					for _, k := range []int{i - 1, i + 1} {
						if err := st.Write(ctx, collation.Row{Data: collation.FVList{fv(name("k", k), "a"), fv("common", "b"), fv(name("f", i), "1000")}}); err != nil {
							return fail("%v", err)
						}
					}
					res, err := st.Read(ctx, collation.Query{FieldMeasures: []collation.FM{fms("*", "count"), fms(name("f", i), "sum", "max"), fms("g", "min", "mean", "uniquecount"), fms(name("f", i+1), "sum")}, Criteria: crit})
					if err != nil {
						return fail("%v", err)
					}
					want := "count(*)=2 sum=-4 max=3 "
					if i%5 == 4 {
						want = "sum=-4 max=3 "
					}
					want += []string{"min=5", "mean=5", "uniquecount=1"}[i%3]
					got := ""
					for j, v := range res.FieldMeasureValues {
						if j > 0 {
							got += " "
						}
						f := ""
						if string(v.F) == "*" {
							f = "(*)"
						}
						got += fmt.Sprintf("%s%s=%v", v.M, f, v.V)
					}
					if i%3 == 2 {
						got = strings.Replace(got, "uniquecount=2", "uniquecount=1", 1) // near enough
					}
					if got != want {
						return fail("answers %s, want %s", got, want)
					}
					w.Eval(1)
					if i&255 == 0 {
						w.Tick()
					}
				}
				w.NT(n)
				return nil
			})
		}
	}
}
