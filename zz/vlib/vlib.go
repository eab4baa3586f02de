// Package vlib is the worker side of the checks: it enumerates cases, shards
// them, catches panics and hangs, confirms failures and writes the result that
// check.py merges.
package vlib

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"sync/atomic"
	"time"

	"github.com/iand/starbow/internal/zz/vsched"
)

// Failure is an error with a key that identifies the defect it shows.
type Failure struct{ Key, Msg string }

func (f *Failure) Error() string { return f.Msg }

// Failf makes a failure with an explicit key.
func Failf(key, format string, a ...interface{}) error {
	return &Failure{key, fmt.Sprintf(format, a...)}
}

// Violation as written to the result file.
type Violation struct {
	Key    string      `json:"key"`
	Case   string      `json:"case"`
	Msg    string      `json:"msg"`
	Fails  string      `json:"confirmed"`
	Detail interface{} `json:"detail,omitempty"`
}

// Result is what one worker reports.
type Result struct {
	Cases       int64             `json:"cases"`
	Evals       int64             `json:"evals"`
	Nontrivial  int64             `json:"nontrivial"`
	States      int64             `json:"states"`
	Transitions int64             `json:"transitions"`
	Traces      int64             `json:"traces"`
	Exhaustive  bool              `json:"exhaustive"`
	Info        map[string]int64  `json:"info"`
	Notes       map[string]string `json:"notes"`
	Samples     []string          `json:"samples"`
	Violations  []Violation       `json:"violations"`
	Known       []Violation       `json:"known"`
	Outcomes    map[string]int64  `json:"outcomes,omitempty"`
	Done        bool              `json:"done"`
}

// W is a worker.
type W struct {
	Shard, N int
	Tier     string
	Thorough bool
	Seed     int64
	Res      Result

	out      string
	caseFile *os.File
	replay   string
	deadline time.Time
	idx      int64
	known    map[string]bool
	prog     int64
	cur      atomic.Value
	maxViol  int
	group    map[string]int64
	Replayed bool
}

func env(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

// Main runs a worker: fn enumerates the cases.
func Main(fn func(w *W)) {
	w := &W{maxViol: 3, known: map[string]bool{}, group: map[string]int64{}}
	w.Shard, _ = strconv.Atoi(env("VW_SHARD", "0"))
	w.N, _ = strconv.Atoi(env("VW_N", "1"))
	w.Tier = env("VW_TIER", "quick")
	w.Thorough = w.Tier == "thorough"
	w.Seed, _ = strconv.ParseInt(env("VERIF_SEED", "1"), 10, 64)
	rand.Seed(w.Seed)
	w.out = env("VW_OUT", "")
	w.replay = os.Getenv("VW_REPLAY")
	secs, _ := strconv.ParseFloat(env("VW_DEADLINE", "300"), 64)
	w.deadline = time.Now().Add(time.Duration(secs * float64(time.Second)))
	var ks []string
	json.Unmarshal([]byte(env("VW_KNOWN", "[]")), &ks)
	for _, k := range ks {
		w.known[k] = true
	}
	if f := os.Getenv("VW_CASE"); f != "" {
		w.caseFile, _ = os.OpenFile(f, os.O_CREATE|os.O_TRUNC|os.O_WRONLY, 0644)
	}
	w.Res.Exhaustive = true
	w.Res.Info = map[string]int64{}
	w.Res.Notes = map[string]string{}
	w.Res.Outcomes = map[string]int64{}
	w.setCur(lazyString("(start)"))
	hang, _ := strconv.ParseFloat(env("VW_HANG", "60"), 64)
	go w.watch(time.Duration(hang * float64(time.Second)))
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(stop); ok {
					return
				}
				panic(r)
			}
		}()
		fn(w)
	}()
	w.finish()
}

type stop struct{}

func (w *W) finish() {
	w.Res.Done = true
	w.write()
	os.Exit(0)
}

func (w *W) write() {
	b, err := json.Marshal(&w.Res)
	if err != nil {
		panic(err)
	}
	if w.out == "" {
		os.Stdout.Write(append(b, '\n'))
		return
	}
	if err := os.WriteFile(w.out, b, 0644); err != nil {
		panic(err)
	}
}

// watch reports a hang when a case makes no progress. CPU time of the process,
// not wall time, is measured so that a loaded machine does not look like a hang;
// a blocked process is given four times as long.
func (w *W) watch(limit time.Duration) {
	last := atomic.LoadInt64(&w.prog)
	since, cpu := time.Now(), cpuTime()
	for {
		time.Sleep(500 * time.Millisecond)
		p := atomic.LoadInt64(&w.prog)
		if p != last {
			last, since, cpu = p, time.Now(), cpuTime()
			continue
		}
		if cpuTime()-cpu > limit || time.Since(since) > 4*limit {
			buf := make([]byte, 1<<16)
			buf = buf[:runtime.Stack(buf, true)]
			c := w.curString()
			w.Res = Result{Info: map[string]int64{}, Notes: map[string]string{}, Violations: []Violation{{
				Key: "hang", Case: c, Msg: fmt.Sprintf("no progress for %v", time.Since(since).Round(time.Second)), Detail: string(buf)}}}
			w.Res.Done = true
			w.write()
			os.Exit(0)
		}
	}
}

type lazyString string

func (l lazyString) String() string { return string(l) }

type boxed struct{ s fmt.Stringer }

func (w *W) setCur(s fmt.Stringer) { w.cur.Store(boxed{s}) }

func (w *W) curString() string { return w.cur.Load().(boxed).s.String() }

// Tick tells the watchdog that the current case makes progress.
func (w *W) Tick() {
	atomic.AddInt64(&w.prog, 1)
	vsched.Progress()
}

// Eval counts n evaluations (executions compared with the oracle).
func (w *W) Eval(n int) { w.Res.Evals += int64(n) }

// NT counts n evaluations that are not trivial.
func (w *W) NT(n int) { w.Res.Nontrivial += int64(n) }

// Add adds to a named count of the report.
func (w *W) Add(name string, n int) { w.Res.Info[name] += int64(n) }

// Max keeps the maximum of a named number of the report.
func (w *W) Max(name string, n int) {
	if int64(n) > w.Res.Info["max_"+name] {
		w.Res.Info["max_"+name] = int64(n)
	}
}

// Note records a remark.
func (w *W) Note(k, v string) { w.Res.Notes[k] = v }

// Expired reports whether the worker's time is used up.
func (w *W) Expired() bool { return time.Now().After(w.deadline) }

// Left is the time the worker has left.
func (w *W) Left() time.Duration { return time.Until(w.deadline) }

// Replay reports whether a single case is replayed.
func (w *W) Replay() bool { return w.replay != "" }

// ReplayID is the case to replay.
func (w *W) ReplayID() string { return w.replay }

// Announce names the case about to run, for crash reports.
func (w *W) Announce(id string) {
	w.setCur(lazyString(id))
	atomic.AddInt64(&w.prog, 1)
	if w.caseFile != nil {
		b := make([]byte, 0, len(id)+16)
		b = append(b, fmt.Sprintf("%08d\n", len(id))...)
		b = append(b, id...)
		w.caseFile.WriteAt(b, 0)
	}
}

// Sample keeps a case description for the evidence (few per worker).
func (w *W) Sample(format string, a ...interface{}) {
	if len(w.Res.Samples) < 8 {
		w.Res.Samples = append(w.Res.Samples, fmt.Sprintf(format, a...))
	}
}

// Mine reports whether a case belongs to this shard, and skips everything but
// the replayed case in a replay.
func (w *W) Mine(id string) bool {
	i := w.idx
	w.idx++
	if w.replay != "" {
		if id == w.replay {
			w.Replayed = true
			return true
		}
		return false
	}
	if w.N > 1 {
		// spread neighbouring cases, which often cost the same, over the shards
		h := fnv.New32a()
		var b [8]byte
		for j := range b {
			b[j] = byte(uint64(i) >> (8 * uint(j)))
		}
		h.Write(b[:])
		x := h.Sum32()
		x ^= x >> 15
		x *= 0x2c1b3c6d
		x ^= x >> 12
		return int(x%uint32(w.N)) == w.Shard
	}
	return true
}

// Case runs one case when it belongs to this shard. The id must identify the
// case among all cases of the check; fn must be repeatable.
func (w *W) Case(id string, fn func() error) {
	if !w.Mine(id) {
		return
	}
	if w.Expired() {
		if w.Res.Exhaustive {
			w.Res.Exhaustive = false
			w.Note("stopped_at", id)
		}
		return
	}
	w.Announce(id)
	vsched.Progress()
	w.Res.Cases++
	if len(w.Res.Samples) < 3 || (w.Res.Cases&(w.Res.Cases-1)) == 0 && len(w.Res.Samples) < 8 {
		w.Sample("%s", id)
	}
	err := Guard(fn)
	if err == nil {
		return
	}
	w.Violate(id, err, fn)
}

// Violate records a failing case after confirming it.
func (w *W) Violate(id string, err error, fn func() error) {
	w.ViolateDetail(id, err, fn, nil)
}

// ViolateDetail is Violate with a detail for the replay file.
func (w *W) ViolateDetail(id string, err error, fn func() error, detail interface{}) {
	key := KeyOf(id, err)
	fails := 1
	tries := 1
	if fn != nil {
		for ; tries < 5; tries++ {
			w.Announce(id)
			if e := Guard(fn); e != nil {
				fails++
			}
		}
		if fails == 1 {
			w.Add("unconfirmed_failures", 1)
			w.Note("unconfirmed", id+": "+err.Error())
			return
		}
	}
	v := Violation{Key: key, Case: id, Msg: trunc(err.Error(), 4000), Fails: fmt.Sprintf("%d/%d", fails, tries), Detail: detail}
	if w.known[key] {
		w.Add("known_hits", 1)
		n := 0
		for _, k := range w.Res.Known {
			if k.Key == key {
				n++
			}
		}
		if n < 3 {
			w.Res.Known = append(w.Res.Known, v)
		}
		return
	}
	w.Res.Violations = append(w.Res.Violations, v)
	if len(w.Res.Violations) >= w.maxViol {
		panic(stop{})
	}
}

// KeyOf is the identifying key of a failure: the explicit key, or the family of the case.
func KeyOf(id string, err error) string {
	if f, ok := err.(*Failure); ok {
		return f.Key
	}
	if i := strings.IndexAny(id, " :"); i > 0 {
		return id[:i]
	}
	return id
}

// Guard runs fn and turns a panic into an error.
func Guard(fn func() error) (err error) {
	defer func() {
		if r := recover(); r != nil {
			if s, ok := r.(stop); ok {
				panic(s)
			}
			err = fmt.Errorf("panic: %v\n%s", r, trunc(string(debug.Stack()), 2500))
		}
	}()
	return fn()
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// Errorf is fmt.Errorf.
func Errorf(format string, a ...interface{}) error { return fmt.Errorf(format, a...) }

// Perms calls fn with every permutation of 0..n-1.
func Perms(n int, fn func(p []int)) {
	p := make([]int, n)
	used := make([]bool, n)
	var rec func(i int)
	rec = func(i int) {
		if i == n {
			fn(p)
			return
		}
		for v := 0; v < n; v++ {
			if !used[v] {
				used[v] = true
				p[i] = v
				rec(i + 1)
				used[v] = false
			}
		}
	}
	rec(0)
}

// Seqs calls fn with every sequence of length n over 0..k-1.
func Seqs(k, n int, fn func(s []int)) {
	s := make([]int, n)
	for {
		fn(s)
		i := n - 1
		for ; i >= 0; i-- {
			s[i]++
			if s[i] < k {
				break
			}
			s[i] = 0
		}
		if i < 0 {
			return
		}
	}
}

// SeqsUpTo calls fn with every sequence of length 0..n over 0..k-1.
func SeqsUpTo(k, n int, fn func(s []int)) {
	for l := 0; l <= n; l++ {
		Seqs(k, l, fn)
	}
}
