// Package vhttp runs the real server for the harnesses.
package vhttp

import (
	"context"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/http/httptest"
	"net/url"
	"os"
	"path/filepath"
	"strings"
	"time"

	"github.com/iand/starbow/internal/server"
)

type quiet struct{}

func (quiet) Printf(string, ...interface{}) {}

// Addr is the address of the socket of the server started last.
var Addr string

// Name distinguishes the sockets of several servers.
var Name = "s"

// Start runs the server on a socket in the scratch directory and returns it
// once it answers.
func Start() *server.Server {
	dir := os.Getenv("VW_DIR")
	if dir == "" {
		dir = os.TempDir()
	}
	Addr = filepath.Join(dir, fmt.Sprintf("%s%d.sock", Name, os.Getpid()))
	os.Remove(Addr)
	s := server.New()
	s.Net, s.Addr, s.Logger = "unix", Addr, quiet{}
	fail := make(chan error, 1)
	go func() { fail <- s.Serve() }()
	for i := 0; i < 3000; i++ {
		select {
		case err := <-fail:
			panic(fmt.Sprintf("Serve returned: %v", err))
		default:
		}
		res, err := Client().Get("http://x/none")
		if err == nil {
			res.Body.Close()
			return s
		}
		time.Sleep(10 * time.Millisecond)
	}
	panic("the server does not answer")
}

// Client talks to the socket.
func Client() *http.Client {
	return &http.Client{Transport: &http.Transport{DisableKeepAlives: true, DialContext: func(ctx context.Context, _, _ string) (net.Conn, error) {
		return (&net.Dialer{}).DialContext(ctx, "unix", Addr)
	}}, CheckRedirect: func(*http.Request, []*http.Request) error { return http.ErrUseLastResponse }}
}

// Resp is a response.
type Resp struct {
	Code   int
	Body   string
	Header http.Header
}

// Do serves one request directly.
func Do(s http.Handler, method, target, ctype string, body io.Reader) Resp {
	return DoCtx(context.Background(), s, method, target, ctype, body)
}

// DoCtx serves one request with a context.
func DoCtx(ctx context.Context, s http.Handler, method, target, ctype string, body io.Reader) Resp {
	req := Request(ctx, method, target, ctype, body)
	rec := httptest.NewRecorder()
	s.ServeHTTP(rec, req)
	return Resp{rec.Code, rec.Body.String(), rec.Result().Header}
}

// Request makes a server request.
func Request(ctx context.Context, method, target, ctype string, body io.Reader) *http.Request {
	u, err := url.ParseRequestURI(target)
	if err != nil {
		panic(err)
	}
	req := &http.Request{Method: method, URL: u, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: http.Header{}, Host: "x", RequestURI: target, RemoteAddr: "@"}
	if body == nil {
		req.Body = http.NoBody
	} else if rc, ok := body.(io.ReadCloser); ok {
		req.Body, req.ContentLength = rc, -1
	} else {
		req.Body, req.ContentLength = io.NopCloser(body), -1
		// some clients tell the length
		if l, ok := body.(interface{ Len() int }); ok && l.Len()%2 == 0 {
			req.ContentLength = int64(l.Len())
		}
	}
	if ctype != "" {
		req.Header.Set("Content-Type", ctype)
	}
	return req.WithContext(ctx)
}

// Post posts observations as they are.
func Post(s http.Handler, lines string) Resp {
	return Do(s, "POST", "/obs", "", strings.NewReader(lines))
}

// Query queries a collation.
func Query(s http.Handler, coll, q string) Resp {
	return Do(s, "GET", "/collation/"+url.PathEscape(coll)+"?q="+url.QueryEscape(q), "", nil)
}
