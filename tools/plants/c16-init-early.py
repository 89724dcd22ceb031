PROP='C16'
EDITS=[('internal/bufmap/bufmap.go', '\t// Writers need to take a lock\n\ts.mu.Lock()\n', '\t// The value is new until an update of it has succeeded\n\tinit := atomic.LoadUint32(&s.set) == 0\n\n\t// Writers need to take a lock\n\ts.mu.Lock()\n'), ('internal/bufmap/bufmap.go', '\t// The value is new until an update of it has succeeded\n\tinit := atomic.LoadUint32(&s.set) == 0\n\n\terr :=', '\terr :=')]
PKG='internal/bufmap'
DEMO=r"""
package bufmap_test

import (
	"sync"
	"sync/atomic"
	"testing"

	"github.com/iand/starbow/internal/bufmap"
)

func TestZZDemo(t *testing.T) {
	for n := 0; n < 300; n++ {
		m := bufmap.New(3, 8)
		var wg sync.WaitGroup
		var inits int32
		in := make(chan struct{})
		wg.Add(1)
		go func() {
			defer wg.Done()
			m.Update(7, func(b []byte, init bool) error {
				if init {
					atomic.AddInt32(&inits, 1)
				}
				close(in)
				for i := 0; i < 20000; i++ {
					b[0]++
				}
				return nil
			})
		}()
		<-in
		wg.Add(1)
		go func() {
			defer wg.Done()
			m.Update(7, func(b []byte, init bool) error {
				if init {
					atomic.AddInt32(&inits, 1)
				}
				return nil
			})
		}()
		wg.Wait()
		if inits != 1 {
			t.Fatal(inits)
		}
	}
}
"""
NEEDS='two updates of a new key at the same time'
BREAKS='both are told to be the first'
