package main

import (
	"crypto/tls"
	"fmt"
	"net/http"
	"net/http/httptest"
	"strings"
	"time"

	"github.com/iand/starbow/internal/zz/vhttp"
	"github.com/iand/starbow/internal/zz/vlib"
)

// variants: nothing that a request carries besides its method, target, content
// type and body, and no way of sending it, changes how it is answered.
func variants(w *vlib.W, reqs []hreq, play func([]int, func(hreq) (int, string, error)) error) {
	now := time.Now().UTC()
	date := func(d time.Duration) string { return now.Add(d).Format(http.TimeFormat) }
	headers := [][]string{
		{"X-HTTP-Method-Override", "POST"}, {"X-HTTP-Method-Override", "GET"}, {"X-HTTP-Method-Override", "DELETE"}, {"X-Method-Override", "POST"}, {"X-HTTP-Method", "GET"}, {"X-HTTP-Method", "PUT"},
		{"If-None-Match", "*"}, {"If-None-Match", "\"x\""}, {"If-Match", "\"x\""}, {"If-Match", "*"}, {"If-Modified-Since", date(0)}, {"If-Modified-Since", date(time.Hour)}, {"If-Modified-Since", "Thu, 01 Jan 1970 00:00:00 GMT"}, {"If-Unmodified-Since", "Thu, 01 Jan 1970 00:00:00 GMT"}, {"If-Range", date(time.Hour), "Range", "bytes=1-2"},
		{"Range", "bytes=0-3"}, {"Range", "bytes=-1"}, {"Range", "lines=5-"},
		{"Accept", "application/json"}, {"Accept", "text/html,*/*;q=0.1"}, {"Accept", "image/png"}, {"Accept", ""}, {"Accept-Language", "de"}, {"Accept-Charset", "iso-8859-1"}, {"Accept-Encoding", "identity"},
		{"Cookie", "k=b; q=1; session=x"}, {"Authorization", "Basic eDp5"}, {"Authorization", "Bearer x"}, {"Origin", "http://y"}, {"Origin", "null", "Access-Control-Request-Method", "POST"}, {"Referer", "http://y/collation/two"}, {"User-Agent", ""}, {"User-Agent", "Mozilla/5.0"}, {"User-Agent", "curl/7"},
		{"Cache-Control", "only-if-cached, max-stale=100000"}, {"Cache-Control", "no-store"}, {"Cache-Control", "max-age=0"}, {"Pragma", "no-cache"},
		{"X-Forwarded-For", "10.0.0.1"}, {"X-Forwarded-Host", "y"}, {"X-Forwarded-Prefix", "/x"}, {"X-Forwarded-Proto", "https"}, {"X-Original-URL", "/nope"}, {"X-Rewrite-URL", "/obs"}, {"Forwarded", "for=1.2.3.4;host=y"}, {"X-Real-IP", "::1"}, {"Via", "1.1 y"}, {"Max-Forwards", "0"},
		{"Upgrade", "websocket", "Connection", "Upgrade"}, {"Upgrade", "h2c", "Connection", "Upgrade, HTTP2-Settings"}, {"Te", "trailers"}, {"Prefer", "return=minimal"}, {"X-Requested-With", "XMLHttpRequest"}, {"Dnt", "1"}, {"Content-Language", "de"}, {"Content-Location", "/nope"}, {"Content-Disposition", "attachment; filename=x"}, {"Content-Encoding", "identity"}, {"Content-Md5", "eHk="}, {"Date", date(-time.Hour)}, {"From", "x@y"}, {"Host", "z"}, {"Q", "select"}, {"Data", "1"}, {"K", "a"}, {"X-Request-Id", "1"}, {"X-Debug", "1"}, {"Debug", "true"}, {"Traceparent", "00-x"}, {"Expect-Ct", "1"}, {"Warning", "1"}, {"Keep-Alive", "timeout=1"}, {"Connection", "close"}, {"Connection", "keep-alive"}, {"Sec-Fetch-Site", "cross-site"}, {"Purpose", "prefetch"}, {"X-Purpose", "preview"},
	}
	var crowd []string
	for i := 0; i < 300; i++ {
		crowd = append(crowd, fmt.Sprintf("X-%d", i), strings.Repeat("v", i))
	}
	headers = append(headers, crowd)
	try := func(name string, do func(hreq) (int, string, error)) error {
		for i := range reqs {
			if err := play([]int{0, i}, do); err != nil {
				return fmt.Errorf("%s: %v", name, err)
			}
		}
		return nil
	}
	modified := func(mod func(*http.Request)) func(hreq) (int, string, error) {
		return func(r hreq) (int, string, error) {
			req := vhttp.Request(ctxBg, r.method, r.target, r.ctype, strings.NewReader(r.body))
			mod(req)
			rec := httptest.NewRecorder()
			srv.ServeHTTP(rec, req)
			return rec.Code, rec.Body.String(), uncached(rec.Result().Header)
		}
	}
	for i, h := range headers {
		h := h
		name := fmt.Sprintf("header %d: %s", i, h[0])
		if len(h) > 100 {
			name = "many headers"
		}
		w.Case(name, func() error {
			return try(name, modified(func(r *http.Request) {
				for i := 0; i+1 < len(h); i += 2 {
					r.Header.Add(h[i], h[i+1])
				}
			}))
		})
	}
	for _, v := range []struct {
		name string
		mod  func(*http.Request)
	}{
		{"HTTP/1.0", func(r *http.Request) { r.Proto, r.ProtoMinor = "HTTP/1.0", 0 }},
		{"HTTP/2.0", func(r *http.Request) { r.Proto, r.ProtoMajor, r.ProtoMinor = "HTTP/2.0", 2, 0 }},
		{"TLS", func(r *http.Request) { r.TLS = &tls.ConnectionState{HandshakeComplete: true} }},
		{"another address", func(r *http.Request) { r.RemoteAddr = "192.0.2.1:1234" }},
		{"IPv6 address", func(r *http.Request) { r.RemoteAddr = "[2001:db8::1]:1234" }},
		{"another host", func(r *http.Request) { r.Host = "example.com:8080" }},
		{"no host", func(r *http.Request) { r.Host = "" }},
		{"unknown length", func(r *http.Request) { r.ContentLength = -1 }},
		{"chunked", func(r *http.Request) { r.ContentLength, r.TransferEncoding = -1, []string{"chunked"} }},
		{"no request URI", func(r *http.Request) { r.RequestURI = "" }},
		{"absolute URI", func(r *http.Request) { r.URL.Scheme, r.URL.Host, r.RequestURI = "http", "x", "http://x"+r.RequestURI }},
		{"fragment", func(r *http.Request) { r.URL.Fragment = "x" }},
		{"closing connection", func(r *http.Request) { r.Close = true }},
	} {
		name, mod := v.name, v.mod
		w.Case("sent with "+name, func() error { return try(name, modified(mod)) })
	}
	// over connections
	raw := func(line string, extra string, body func(hreq) string) func(hreq) string {
		return func(r hreq) string {
			ct := ""
			if r.ctype != "" {
				ct = "content-TYPE:   " + r.ctype + " \r\n"
			}
			return fmt.Sprintf(line, r.method, r.target) + extra + ct + body(r)
		}
	}
	length := func(r hreq) string { return fmt.Sprintf("CONTENT-length:%d\r\n\r\n%s", len(r.body), r.body) }
	chunks := func(n int, trailer string) func(hreq) string {
		return func(r hreq) string {
			s, b := "Transfer-Encoding: chunked\r\n", r.body
			if trailer != "" {
				s += "Trailer: Q\r\n"
			}
			s += "\r\n"
			for len(b) > 0 {
				k := n
				if k > len(b) {
					k = len(b)
				}
				s += fmt.Sprintf("%x;x=y\r\n%s\r\n", k, b[:k])
				b = b[k:]
			}
			return s + "0\r\n" + trailer + "\r\n"
		}
	}
	for _, v := range []struct {
		name  string
		write func(hreq) string
	}{
		{"HTTP/1.0", raw("%s %s HTTP/1.0\r\n", "", length)},
		{"HTTP/1.0 kept", raw("%s %s HTTP/1.0\r\n", "Connection: keep-alive\r\nHost: y\r\n", length)},
		{"absolute URI", raw("%s http://y%s HTTP/1.1\r\n", "Host: x\r\n", length)},
		{"closing", raw("%s %s HTTP/1.1\r\n", "Host: x\r\nConnection: close\r\n", length)},
		{"empty host", raw("%s %s HTTP/1.1\r\n", "Host:\r\n", length)},
		{"expectation", raw("%s %s HTTP/1.1\r\n", "Host: x\r\nExpect: 100-continue\r\n", length)},
		{"chunks of 1", raw("%s %s HTTP/1.1\r\n", "Host: x\r\n", chunks(1, ""))},
		{"chunks of 7", raw("%s %s HTTP/1.1\r\n", "Host: x\r\n", chunks(7, ""))},
		{"chunks of 1000", raw("%s %s HTTP/1.1\r\n", "Host: x\r\n", chunks(1000, ""))},
		{"trailer", raw("%s %s HTTP/1.1\r\n", "Host: x\r\n", chunks(1000, "Q: select\r\n"))},
		{"upgrade", raw("%s %s HTTP/1.1\r\n", "Host: x\r\nConnection: Upgrade, HTTP2-Settings\r\nUpgrade: h2c\r\nHTTP2-Settings: AAA\r\n", length)},
	} {
		for part := 0; part < 4; part++ {
			v, part := v, part
			w.Case(fmt.Sprintf("connection with %s %d", v.name, part), func() error {
				for i := part; i < len(reqs); i += 4 {
					do, done := connection(v.write)
					err := play([]int{0, i}, do)
					done()
					if err != nil {
						return fmt.Errorf("%s: %v", v.name, err)
					}
				}
				return nil
			})
		}
	}
}
