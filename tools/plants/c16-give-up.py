PROP='C16'
EDITS=[('internal/bufmap/bufmap.go', '\t\t// Get a copy of the data\n\t\tcopy(', '\t\tif tries++; tries > 3 {\n\t\t\t// Do not keep readers waiting\n\t\t\tcopy(buf, m.values[x*m.s:(x+1)*m.s])\n\t\t\treturn found\n\t\t}\n\n\t\t// Get a copy of the data\n\t\tcopy('), ('internal/bufmap/bufmap.go', '\ts := &m.keys[x]\n\tfor {\n', '\ts := &m.keys[x]\n\ttries := 0\n\tfor {\n')]
PKG='internal/bufmap'
DEMO=r"""
package bufmap_test

import (
	"sync"
	"sync/atomic"
	"testing"

	"github.com/iand/starbow/internal/bufmap"
)

func TestZZDemo(t *testing.T) {
	m := bufmap.New(5, 4096)
	var stop int32
	var wg sync.WaitGroup
	put := func(n byte) {
		m.Update(3, func(b []byte, init bool) error {
			for i := range b {
				b[i] = n
			}
			return nil
		})
	}
	put(1)
	wg.Add(1)
	go func() {
		defer wg.Done()
		for n := byte(0); atomic.LoadInt32(&stop) == 0; n++ {
			put(n)
			for i := 0; i < int(n)*4; i++ {
				atomic.LoadInt32(&stop)
			}
		}
	}()
	bad := false
	b := make([]byte, 4096)
	for n := 0; n < 300000 && !bad; n++ {
		m.Get(3, b)
		for i := range b {
			bad = bad || b[i] != b[0]
		}
	}
	atomic.StoreInt32(&stop, 1)
	wg.Wait()
	if bad {
		t.Fatal("torn read")
	}
}
"""
NEEDS='four updates during one read'
BREAKS='a torn record is returned'
