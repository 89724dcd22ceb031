PROP='C11'
EDITS=[('internal/server/server.go', "\teq := bytes.IndexByte(data, '=')", "\teq := bytes.LastIndexByte(data, '=')")]
PKG='internal/server'
DEMO=r"""
package server

import (
	"testing"
)

func TestZZDemo(t *testing.T) {
	row, err := parseRow([]byte("1500000000000000\ta=b=c"))
	if err != nil || len(row.Data) != 1 || string(row.Data[0].F) != "a" || string(row.Data[0].V) != "b=c" {
		t.Fatalf("%q %v", row.Data, err)
	}
}
"""
NEEDS='a value containing an equals sign'
BREAKS='the field is split at the last equals sign'
