PROP='C16'
EDITS=[('internal/bufmap/bufmap.go','''		// Is a writer currently writing?
		if seq1%2 != 0 {
			continue
		}

''','')]
PKG='internal/bufmap'
DEMO=r"""
package bufmap_test

import (
	"testing"
	"time"

	"github.com/iand/starbow/internal/bufmap"
)

func TestZZDemo(t *testing.T) {
	m := bufmap.New(3, 2)
	m.Update(5, func(b []byte, _ bool) error { b[0], b[1] = 1, 1; return nil })
	half, finish := make(chan bool), make(chan bool)
	go m.Update(5, func(b []byte, _ bool) error {
		b[0] = 2
		close(half)
		<-finish
		b[1] = 2
		return nil
	})
	<-half
	got := make(chan [2]byte)
	go func() {
		var b [2]byte
		m.Get(5, b[:])
		got <- b
	}()
	go func() {
		time.Sleep(2 * time.Second)
		close(finish)
	}()
	if b := <-got; b[0] != b[1] {
		t.Fatal("torn read", b)
	}
}
"""
NEEDS='a read that starts and ends while one update is under way'
BREAKS='the reader returns a mixture of two states of the record'
