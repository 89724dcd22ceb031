PROP='C25'
EDITS=[('internal/hash/fnv/fnv.go', 'func (s *Fnv64a) WriteString(str string) (int, error) {\n\thash := *s\n\tfor i := 0; i < len(str); i++ {\n\t\thash ^= Fnv64a(str[i])\n\t\thash *= prime64\n\t}\n', 'func (s *Fnv64a) WriteString(str string) (int, error) {\n\thash := *s\n\tfor _, c := range str {\n\t\thash ^= Fnv64a(c)\n\t\thash *= prime64\n\t}\n')]
PKG='internal/hash/fnv'
DEMO=r"""
package fnv_test

import (
	stdfnv "hash/fnv"
	"testing"

	"github.com/iand/starbow/internal/hash/fnv"
)

func TestZZDemo(t *testing.T) {
	for _, s := range []string{"", "a", "caf\u00e9", "\xff", "\u65e5"} {
		h := fnv.New64a()
		h.WriteString(s)
		w := stdfnv.New64a()
		w.Write([]byte(s))
		if h.Sum64() != w.Sum64() {
			t.Fatalf("%q", s)
		}
	}
}
"""
NEEDS='a string with a byte above 127'
BREAKS='the string is hashed by code points instead of bytes'
