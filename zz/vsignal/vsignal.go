// Package signal stands in for os/signal: the harness decides when a signal is
// delivered. Delivery is as in os/signal: to every channel registered for it
// that can take it at that moment.
package signal

import (
	"context"
	"os"
	real "os/signal"
	"sync"
)

// Real passes registrations on to os/signal, for a process that gets real signals.
var Real = os.Getenv("VW_DEMO") != ""

// OnNotify is called at the end of every Notify.
var OnNotify func()

type reg struct {
	all  bool
	sigs map[os.Signal]bool
}

var (
	mu      sync.Mutex
	regs    = map[chan<- os.Signal]*reg{}
	ignored = map[os.Signal]bool{}
	ignAll  bool
)

// Notify registers c for the signals, for all when none is given.
func Notify(c chan<- os.Signal, sig ...os.Signal) {
	if c == nil {
		panic("os/signal: Notify using nil channel")
	}
	if Real {
		real.Notify(c, sig...)
		return
	}
	mu.Lock()
	r := regs[c]
	if r == nil {
		r = &reg{sigs: map[os.Signal]bool{}}
		regs[c] = r
	}
	if len(sig) == 0 {
		r.all, ignAll = true, false
	}
	for _, s := range sig {
		r.sigs[s] = true
		delete(ignored, s)
	}
	f := OnNotify
	mu.Unlock()
	if f != nil {
		f()
	}
}

// Stop ends the registration of c.
func Stop(c chan<- os.Signal) {
	if Real {
		real.Stop(c)
		return
	}
	mu.Lock()
	delete(regs, c)
	mu.Unlock()
}

// Ignore ignores the signals, all when none is given.
func Ignore(sig ...os.Signal) {
	if Real {
		real.Ignore(sig...)
		return
	}
	Reset(sig...)
	mu.Lock()
	defer mu.Unlock()
	ignAll = ignAll || len(sig) == 0
	for _, s := range sig {
		ignored[s] = true
	}
}

// Ignored reports whether sig is ignored.
func Ignored(sig os.Signal) bool {
	if Real {
		return real.Ignored(sig)
	}
	mu.Lock()
	defer mu.Unlock()
	return ignAll || ignored[sig]
}

// Reset undoes the effect of Notify.
func Reset(sig ...os.Signal) {
	if Real {
		real.Reset(sig...)
		return
	}
	mu.Lock()
	defer mu.Unlock()
	if len(sig) == 0 {
		regs, ignored, ignAll = map[chan<- os.Signal]*reg{}, map[os.Signal]bool{}, false
	}
	for _, s := range sig {
		delete(ignored, s)
		for _, r := range regs {
			delete(r.sigs, s)
		}
	}
}

// NotifyContext returns a context that ends when one of the signals arrives.
func NotifyContext(parent context.Context, sig ...os.Signal) (context.Context, context.CancelFunc) {
	if Real {
		return real.NotifyContext(parent, sig...)
	}
	ctx, cancel := context.WithCancel(parent)
	ch := make(chan os.Signal, 1)
	Notify(ch, sig...)
	go func() {
		select {
		case <-ch:
			cancel()
		case <-ctx.Done():
		}
	}()
	return ctx, func() { cancel(); Stop(ch) }
}

// Asked reports whether anybody is registered for sig.
func Asked(sig os.Signal) bool {
	mu.Lock()
	defer mu.Unlock()
	for _, r := range regs {
		if r.all || r.sigs[sig] {
			return true
		}
	}
	return false
}

// Deliver delivers sig. It reports false when nobody is registered for it and
// it is not ignored: the default action would be taken.
func Deliver(sig os.Signal) bool {
	mu.Lock()
	defer mu.Unlock()
	handled := ignAll || ignored[sig]
	for c, r := range regs {
		if r.all || r.sigs[sig] {
			handled = true
			select {
			case c <- sig:
			default:
			}
		}
	}
	return handled
}
