// Package psignal stands in for os/signal in instrumented packages: the
// signals are the ones of nd.Signals.
package psignal

import (
	"context"
	"os"
	"os/signal"

	"github.com/iand/starbow/internal/zzverif/nd"
)

func Notify(c chan<- os.Signal, sigs ...os.Signal) { nd.Notify(c, sigs...) }

func NotifyContext(parent context.Context, sigs ...os.Signal) (context.Context, context.CancelFunc) {
	ctx, cancel := context.WithCancel(parent)
	c := make(chan os.Signal, 1)
	Notify(c, sigs...)
	go func() {
		select {
		case <-c:
			cancel()
		case <-ctx.Done():
		}
	}()
	return ctx, cancel
}

func Stop(c chan<- os.Signal) { nd.Denotify(c) }
func Reset(sigs ...os.Signal)      {}
func Ignore(sigs ...os.Signal)     {}
func Ignored(sig os.Signal) bool   { return signal.Ignored(sig) }
