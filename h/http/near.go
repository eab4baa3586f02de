package main

import (
	"fmt"
	"net/url"
	"strings"

	"github.com/iand/starbow/internal/bufmap"
	"github.com/iand/starbow/internal/collation"
	"github.com/iand/starbow/internal/storage"
	"github.com/iand/starbow/internal/zz/vhttp"
	"github.com/iand/starbow/internal/zz/vlib"
)

// affixes are what somebody might take to be no part of a name.
func affixes(thorough bool) (as []string) {
	for c := 0; c < 256; c++ {
		if c != '/' {
			as = append(as, string([]byte{byte(c)}))
		}
	}
	for _, c := range []string{".txt", ".text", ".json", ".jsonl", ".csv", ".tsv", ".xml", ".html", ".htm", ".gz", ".js", ".go", ".bin", ".dat", ".log", ".md", ".yaml", ".yml", ".proto", ".pb",
		"@latest", "@v1", ":latest", ":stream", ":query", ":80", "~1", "~", ";v=1", ";jsessionid=1", "v1", "-v1", "_v1", ".v1", "1", "01", "0", "(1)", "[0]", "*", "**", "s", "es", "$", "^", "|",
		"index", "default", "select", "collation", "obs", "%20", "%2F", "%00", "%", "%6F", "+", "&", "&q=x", "?q=x", "#x", "://", "http:", "localhost", "\\", "\\one", "..\\", "\r\n", "\n", "\t",
		"\u00a0", "\u200b", "\ufeff", "\u0301", "\u00ad", "\u2028", "\ufffd", "İ", "ı", "ſ", "K"} {
		as = append(as, c)
	}
	marks := ".,;:!@~$&*+-=_()[]{}|'\" \t%#?\\^`<>\x00\x7f"
	if !thorough {
		marks = ".,;:!@~&*+-= %"
	}
	for _, a := range marks {
		for _, b := range marks {
			as = append(as, string(a)+string(b))
		}
	}
	return
}

// nearNames: names that differ in something somebody might think little of are
// the names of different collations.
func nearNames(w *vlib.W) {
	as := affixes(w.Thorough)
	const q = "select count(*) where k='a'"
	for _, base := range []string{"one", "x", "a.b", "two words", "ÉTÉ", "select", "obs", "collation"} {
		base := base
		w.Case("near names: "+base, func() error {
			names := []string{strings.ToUpper(base), strings.ToLower(base), strings.Title(base), url.PathEscape(base), url.QueryEscape(base), fmt.Sprintf("%%%02X%s", base[0], base[1:]), fmt.Sprintf("%q", base), base + base,
				strings.Replace(base, " ", "+", -1), strings.Replace(base, " ", "_", -1), strings.Replace(base, " ", "-", -1), strings.Replace(base, " ", "", -1), base[:len(base)-1], base[1:],
				"E\u0301TE\u0301", "ETE", "\u00c9te\u0301"}
			for _, a := range as {
				names = append(names, base+a, a+base)
				names = append(names, base[:1]+a+base[1:], a+base+a)
			}
			store := func(name string) (storage.Store, error) {
				sch := collation.Schema{Name: name, Keys: keys("k"), RecordMeasures: []collation.RowMeasure{collation.Count{}}}
				c, err := sch.Compile()
				return storage.Store{Backend: bufmap.New(1, c.Size()), Collator: c}, err
			}
			post := func(n int, st ...storage.Store) error {
				srv.Stores = append(srv.Stores[:0], st...)
				for i := 0; i < n; i++ {
					if r := vhttp.Post(srv, "1|k=a"); r.Code != 200 {
						return fmt.Errorf("status %d", r.Code)
					}
				}
				return nil
			}
			for i, name := range names {
				if name == base || name == "" || name == "." || name == ".." || strings.Contains(name, "/") {
					continue
				}
				one, err := store(base)
				if err != nil {
					return err
				}
				two, err := store(name)
				if err != nil {
					return err
				}
				if err := post(1, one); err != nil {
					return err
				}
				if r := vhttp.Query(srv, name, q); r.Code != 404 {
					return fmt.Errorf("there is %q, %q is answered with status %d %q", base, name, r.Code, r.Body)
				}
				if err := post(2, two); err != nil {
					return err
				}
				if r := vhttp.Query(srv, base, q); r.Code != 404 {
					return fmt.Errorf("there is %q, %q is answered with status %d %q", name, base, r.Code, r.Body)
				}
				for order := 0; order < 2; order++ {
					srv.Stores = append(srv.Stores[:0], one, two)
					if order == 1 {
						srv.Stores[0], srv.Stores[1] = two, one
					}
					for j, n := range []string{base, name} {
						r := vhttp.Query(srv, n, q)
						if want := fmt.Sprintf("k=a\ncount(*)=%d\n", j+1); r.Code != 200 || r.Body != want {
							return fmt.Errorf("there are %q and %q (order %d), %q is answered with status %d %q, want %q", base, name, order, n, r.Code, r.Body, want)
						}
					}
				}
				w.Eval(1)
				w.NT(1)
				if i&63 == 0 {
					w.Tick()
				}
			}
			return nil
		})
	}
}
