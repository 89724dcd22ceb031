PROP='C25'
EDITS=[('internal/hash/fnv/fnv.go', '\thash := *s\n\tfor i := 0; i < len(str); i++ {\n\t\thash *= prime64\n\t\thash ^= Fnv64(str[i])\n\t}\n', '\thash := *s\n\ti := 0\n\tfor ; i+32 < len(str); i += 32 {\n\t\tfor _, c := range str[i : i+32] {\n\t\t\thash *= prime64\n\t\t\thash ^= Fnv64(c)\n\t\t}\n\t}\n\tfor ; i < len(str); i++ {\n\t\thash *= prime64\n\t\thash ^= Fnv64(str[i])\n\t}\n')]
PKG='internal/hash/fnv'
DEMO=r"""
package fnv_test

import (
	hf "hash/fnv"
	"strings"
	"testing"

	"github.com/iand/starbow/internal/hash/fnv"
)

func TestZZDemo(t *testing.T) {
	for _, s := range []string{strings.Repeat("x", 70), strings.Repeat("x", 40) + "\u00e9", "\u00e9" + strings.Repeat("x", 40)} {
		h, g := fnv.New64(), hf.New64()
		h.WriteString(s)
		g.Write([]byte(s))
		if h.Sum64() != g.Sum64() {
			t.Fatal(s)
		}
	}
}
"""
NEEDS='a string of more than 32 bytes with one that is no ASCII among the first'
BREAKS='characters are hashed instead of bytes'
