// Package signal is the simulated os/signal: the harness delivers signals.
package signal

import (
	"context"
	"os"
)

type sub struct {
	c    chan<- os.Signal
	sigs []os.Signal
}

var (
	subs []sub
	ever bool
)

// Notify registers a channel.
func Notify(c chan<- os.Signal, sig ...os.Signal) {
	subs = append(subs, sub{c, sig})
	ever = true
}

// Stop unregisters it.
func Stop(c chan<- os.Signal) {
	for i := 0; i < len(subs); i++ {
		if subs[i].c == c {
			subs = append(subs[:i], subs[i+1:]...)
			i--
		}
	}
}

// Ignore, Reset: accepted.
func Ignore(...os.Signal) {}

// Reset removes all handlers.
func Reset(...os.Signal) { subs = nil }

// Ignored reports false.
func Ignored(os.Signal) bool { return false }

// NotifyContext mirrors os/signal.
func NotifyContext(parent context.Context, sig ...os.Signal) (context.Context, context.CancelFunc) {
	ctx, cancel := context.WithCancel(parent)
	c := make(chan os.Signal, 1)
	Notify(c, sig...)
	go func() {
		select {
		case <-c:
			cancel()
		case <-ctx.Done():
		}
	}()
	return ctx, func() { cancel(); Stop(c) }
}

// Deliver sends sig to every subscriber without blocking, as the kernel and
// os/signal do. It reports how many subscribers took it.
func Deliver(sig os.Signal) int {
	n := 0
	for _, s := range subs {
		ok := len(s.sigs) == 0
		for _, x := range s.sigs {
			ok = ok || x == sig
		}
		if !ok {
			continue
		}
		select {
		case s.c <- sig:
			n++
		default:
		}
	}
	return n
}

// Subscribed tells whether anybody has ever asked for signals.
func Subscribed() bool { return ever }

// Handled tells whether somebody listens for sig.
func Handled(sig os.Signal) bool {
	for _, s := range subs {
		if len(s.sigs) == 0 {
			return true
		}
		for _, x := range s.sigs {
			if x == sig {
				return true
			}
		}
	}
	return false
}
