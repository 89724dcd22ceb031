PROP='C17'
EDITS=[('internal/incmap/incmap.go','''				// Stored key successfully
				break
''','''				// Stored key successfully so this is the first increment
				atomic.StoreUint64(&m.values[x], d)
				return true
''')]
PKG='internal/incmap'
DEMO=r"""
package incmap_test

import (
	"runtime"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/iand/starbow/internal/incmap"
)

func TestZZDemo(t *testing.T) {
	const n = 8
	runtime.GOMAXPROCS(n)
	end := time.Now().Add(30 * time.Second)
	for round := 0; time.Now().Before(end); round++ {
		m := incmap.New(31)
		var ready int32
		var wg sync.WaitGroup
		wg.Add(n)
		for i := 0; i < n; i++ {
			go func() {
				defer wg.Done()
				atomic.AddInt32(&ready, 1)
				for spin := 0; atomic.LoadInt32(&ready) < n; spin++ {
					if spin > 10000 {
						runtime.Gosched()
					}
				}
				for j := 0; j < 4; j++ {
					m.Inc(7, 1)
				}
			}()
		}
		wg.Wait()
		if v, ok := m.Get(7); !ok || v != 4*n {
			t.Fatal("lost increment in round", round, v)
		}
	}
}
"""
NEEDS='a second increment between the claim of the slot and the store of the first'
BREAKS='an increment accepted for a key is lost'
