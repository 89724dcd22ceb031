PROP='C20'
EDITS=[('internal/bitbucket/bitbucket.go', '\tn, err := io.ReadFull(r, buf[:])\n', '\tn, err := r.Read(buf[:])\n\tif err == nil && n < hdrLen {\n\t\tvar more int\n\t\tmore, err = r.Read(buf[n:])\n\t\tn += more\n\t\tif err == nil && n < hdrLen {\n\t\t\terr = io.ErrUnexpectedEOF\n\t\t}\n\t}\n')]
PKG='internal/summary/bloom'
DEMO=r"""
package bloom_test

import (
	"bytes"
	"io"
	"testing"

	"github.com/iand/starbow/internal/summary/bloom"
)

type bits struct {
	r io.Reader
	n int
}

func (b bits) Read(p []byte) (int, error) {
	if len(p) > b.n {
		p = p[:b.n]
	}
	return b.r.Read(p)
}

func TestZZDemo(t *testing.T) {
	a := bloom.NewBits(100, 3)
	a.Add([]byte("x"))
	var buf bytes.Buffer
	if _, err := a.WriteTo(&buf); err != nil {
		t.Fatal(err)
	}
	for n := 20; n > 0; n-- {
		b := bloom.NewBits(1, 1)
		if _, err := b.ReadFrom(bits{bytes.NewReader(buf.Bytes()), n}); err != nil || !b.Has([]byte("x")) {
			t.Fatal(n, err)
		}
	}
}
"""
NEEDS='a reader that delivers the header in three or more pieces'
BREAKS='a valid stream is refused'
