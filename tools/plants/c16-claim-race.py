PROP='C16'
EDITS=[('internal/bufmap/bufmap.go','''		// Did another writer set the key while we were checking?
		kexist = atomic.LoadUint64(&m.keys[x].key)
		if kexist == k {
			break
		}

		// Try next slot
''','''		// The slot belongs to another key, try next slot
''')]
PKG='internal/bufmap'
DEMO=r"""
package bufmap_test

import (
	"runtime"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/iand/starbow/internal/bufmap"
)

func TestZZDemo(t *testing.T) {
	const n = 8
	runtime.GOMAXPROCS(n)
	end := time.Now().Add(20 * time.Second)
	for round := 0; time.Now().Before(end); round++ {
		m := bufmap.New(31, 1)
		var ready int32
		var wg sync.WaitGroup
		wg.Add(n)
		for i := 0; i < n; i++ {
			go func() {
				defer wg.Done()
				atomic.AddInt32(&ready, 1)
				for spin := 0; atomic.LoadInt32(&ready) < n; spin++ {
					if spin > 10000 {
						runtime.Gosched()
					}
				}
				m.Update(7, func(b []byte, init bool) error {
					if init {
						b[0] = 0
					}
					b[0]++
					return nil
				})
			}()
		}
		wg.Wait()
		var b [1]byte
		if !m.Get(7, b[:]) || b[0] != n {
			t.Fatal("lost update in round", round, b)
		}
	}
}
"""
NEEDS='two first updates of one key racing for the slot'
BREAKS='one key occupies two records and the updates of one of them are lost'
