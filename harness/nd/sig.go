package nd

import (
	"os"
	"sync"
	"time"
)

type listener struct {
	c    chan<- os.Signal
	sigs []os.Signal
}

var (
	pending   []os.Signal
	early     int
	listeners []listener
	sigLock   sync.Mutex
	settled   = make(chan bool)
)

// Signals are what the process receives: the first n as soon as it has asked
// to be told about any, the rest one by one while it waits.
func Signals(s []os.Signal, n int) {
	pending, early = s, n
	pumpWith(pump)
}

// pump delivers the next signal.
func pump() bool {
	sigLock.Lock()
	defer sigLock.Unlock()
	if len(pending) == 0 {
		return false
	}
	s := pending[0]
	pending = pending[1:]
	for _, l := range listeners {
		want := len(l.sigs) == 0
		for _, x := range l.sigs {
			if x == s {
				want = true
			}
		}
		if want {
			select {
			case l.c <- s:
			default:
			}
		}
	}
	return true
}

func pumpWith(f func() bool) {
	go func() {
		for {
			time.Sleep(30 * time.Millisecond)
			if !f() {
				break
			}
		}
		time.Sleep(60 * time.Millisecond)
		close(settled)
	}()
}

// Notify is that of os/signal.
func Notify(c chan<- os.Signal, sigs ...os.Signal) {
	Denotify(c)
	sigLock.Lock()
	listeners = append(listeners, listener{c, sigs})
	n := early
	early = 0
	sigLock.Unlock()
	for ; n > 0; n-- {
		pump()
	}
}

// Denotify is Stop of os/signal.
func Denotify(c chan<- os.Signal) {
	sigLock.Lock()
	defer sigLock.Unlock()
	for i, l := range listeners {
		if l.c == c {
			listeners = append(append([]listener(nil), listeners[:i]...), listeners[i+1:]...)
			return
		}
	}
}

// Settle waits until all signals have come and had their effect.
func Settle() { <-settled }

// Served tells whether an HTTP server has been started and not been stopped.
func Served() bool { return true }
