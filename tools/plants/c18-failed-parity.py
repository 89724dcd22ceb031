PROP='C18'
EDITS=[('internal/seqlock/seqlock.go','''	err := fn(d[:])
	if err == nil {
		copy(s.data[:], d[:])
	}
''','''	err := fn(d[:])
	if err != nil {
		s.mu.Unlock()
		return err
	}
	copy(s.data[:], d[:])
''')]
PKG='internal/seqlock'
DEMO=r"""
package seqlock_test

import (
	"errors"
	"testing"
	"time"

	"github.com/iand/starbow/internal/seqlock"
)

func TestZZDemo(t *testing.T) {
	s := seqlock.New()
	s.Update(func(b []byte) error { return errors.New("no") })
	done := make(chan bool)
	go func() {
		s.Get()
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(10 * time.Second):
		panic("a read after a failed update does not end")
	}
}
"""
NEEDS='an update whose function fails, then a read'
BREAKS='readers spin for ever after a failed update'
