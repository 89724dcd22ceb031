PROP='C18'
EDITS=[('internal/seqlock/seqlock.go','''	// Writers need to take a lock
	s.mu.Lock()

	// Notify readers that we are writing
	atomic.AddUint32(&s.seq, 1)

	copy(s.data[:], v[:])

	// Notify readers that we are done
	atomic.AddUint32(&s.seq, 1)
	s.mu.Unlock()
''','''	// Notify readers that we are writing
	atomic.AddUint32(&s.seq, 1)

	copy(s.data[:], v[:])

	// Notify readers that we are done
	atomic.AddUint32(&s.seq, 1)
''')]
PKG='internal/seqlock'
DEMO=r"""
package seqlock_test

import (
	"testing"
	"time"

	"github.com/iand/starbow/internal/seqlock"
)

func TestZZDemo(t *testing.T) {
	s := seqlock.New()
	put := make(chan bool)
	s.Update(func(b []byte) error {
		go func() {
			s.Put([1024]byte{10})
			close(put)
		}()
		time.Sleep(time.Second)
		b[0]++
		return nil
	})
	<-put
	if b := s.Get(); b[0] != 10 && b[0] != 11 {
		t.Fatal("a write was lost", b[0])
	}
}
"""
NEEDS='a Put that runs while an update is under way'
BREAKS='the Put is lost although it completed'
