package main

import (
	"bufio"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/url"
	"strings"
	"time"

	"github.com/iand/starbow/internal/zz/vhttp"
	"github.com/iand/starbow/internal/zz/vlib"
)

// longStops: clients that stop for more than a minute at any point of a
// request are served when they go on.
func longStops(w *vlib.W) {
	secs := []int{75}
	if w.Thorough {
		secs = append(secs, 330)
	}
	for _, sec := range secs {
		sec := sec
		w.Case(fmt.Sprintf("stops of %d seconds", sec), func() error {
			cfresh()
			type client struct {
				what string
				c    net.Conn
				rest string
				code int
				body string // what the answer starts with
				size int    // at least so long
				obs  bool   // whether it counts when it is served
			}
			var cs []client
			defer func() {
				for _, x := range cs {
					x.c.Close()
				}
			}()
			start := func(what, head, body string, p int, x client) error {
				text := head + fmt.Sprintf("Content-Length: %d\r\n\r\n", len(body)) + body
				if p < 0 {
					p += len(text) + 1
				}
				if p < 1 {
					p = 1
				}
				if p > len(text) {
					p = len(text)
				}
				c, err := net.Dial("unix", vhttp.Addr)
				if err != nil {
					return err
				}
				x.what, x.c, x.rest = fmt.Sprintf("%s, stopped after %d of %d bytes", what, p, len(text)), c, text[p:]
				cs = append(cs, x)
				_, err = io.WriteString(c, text[:p])
				return err
			}
			for _, kind := range []string{"post", "form", "query", "posted query", "nowhere"} {
				for _, p := range []int{1, 5, 13, 20, 30, -60, -20, -9, -4, -3, -2} {
					head, body := "POST /obs HTTP/1.1\r\nHost: x\r\n", "1|k=s|j=t|x=1|y=3\n"
					x := client{code: 200, obs: true}
					q := "q=" + url.QueryEscape("select count(*) where k='none'")
					switch kind {
					case "form":
						head += "Content-Type: " + form + "\r\n"
						body = "data=" + body
					case "query":
						head, body = "GET /collation/one?"+q+" HTTP/1.1\r\nHost: x\r\n", ""
						x.obs, x.body = false, "k=none\n"
					case "posted query":
						head, body = "POST /collation/one HTTP/1.1\r\nHost: x\r\nContent-Type: "+form+"\r\n", q
						x.obs, x.body = false, "k=none\n"
					case "nowhere":
						head, body = "GET /nowhere HTTP/1.1\r\nHost: x\r\n", ""
						x.obs, x.code = false, 404
					}
					if err := start(kind, head, body, p, x); err != nil {
						return err
					}
				}
			}
			// those that do not take a long answer
			long := strings.Repeat("long ", 600000)
			for _, p := range []int{-1, -2} {
				body := "q=" + url.QueryEscape("select count(*) where k='none' and z='"+long+"'")
				if err := start("long answer", "POST /collation/one HTTP/1.1\r\nHost: x\r\nContent-Type: "+form+"\r\n", body, p, client{code: 200, body: "k=none\nz=long long ", size: len(long)}); err != nil {
					return err
				}
			}
			for t := time.Now(); time.Since(t) < time.Duration(sec)*time.Second; time.Sleep(200 * time.Millisecond) {
				w.Tick()
			}
			counted := 0
			for _, x := range cs {
				x.c.SetDeadline(time.Now().Add(60 * time.Second))
				_, werr := io.WriteString(x.c, x.rest)
				res, err := http.ReadResponse(bufio.NewReader(x.c), nil)
				if err != nil {
					return fmt.Errorf("a client that stopped for %d seconds and went on (%s) gets no answer: %v (%v)", sec, x.what, err, werr)
				}
				b, err := io.ReadAll(res.Body)
				if err != nil || res.StatusCode != x.code || !strings.HasPrefix(string(b), x.body) || len(b) < x.size {
					return fmt.Errorf("a client that stopped for %d seconds and went on (%s) is answered with status %d, %d bytes: %.100q, %v", sec, x.what, res.StatusCode, len(b), b, err)
				}
				if x.obs {
					counted++
					r := vhttp.Query(srv, "one", "select count(*) where k='s'")
					if want := fmt.Sprintf("k=s\ncount(*)=%d\n", counted); r.Body != want {
						return fmt.Errorf("after the observation of a client that stopped for %d seconds (%s): %q, want %q", sec, x.what, r.Body, want)
					}
				}
				w.Eval(1)
				w.NT(1)
				w.Tick()
			}
			return nil
		})
	}
}
