PROP='C18'
EDITS=[('internal/seqlock/seqlock.go', '\t\tif seq1 == seq2 {\n', '\t\ttries++\n\t\tif seq1 == seq2 || tries == 3 {\n'), ('internal/seqlock/seqlock.go', '\tfor {\n\t\tseq1', '\ttries := 0\n\tfor {\n\t\tseq1')]
PKG='internal/seqlock'
DEMO=r"""
package seqlock_test

import (
	"sync"
	"sync/atomic"
	"testing"

	"github.com/iand/starbow/internal/seqlock"
)

func TestZZDemo(t *testing.T) {
	l := seqlock.New()
	var stop int32
	var wg sync.WaitGroup
	wg.Add(1)
	go func() {
		defer wg.Done()
		for n := byte(0); atomic.LoadInt32(&stop) == 0; n++ {
			var v [1024]byte
			for i := range v {
				v[i] = n
			}
			l.Put(v)
		}
	}()
	bad := false
	for n := 0; n < 3000000 && !bad; n++ {
		v := l.Get()
		for i := range v {
			bad = bad || v[i] != v[0]
		}
	}
	atomic.StoreInt32(&stop, 1)
	wg.Wait()
	if bad {
		t.Fatal("torn read")
	}
}
"""
NEEDS='three writes during one read'
BREAKS='a torn read is returned'
