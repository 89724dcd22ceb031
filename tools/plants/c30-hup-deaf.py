PROP='C30'
EDITS=[('internal/server/server.go', '\tfor sig := range ch {\n\t\tswitch sig {\n', '\tfor sig := range ch {\n\t\tswitch sig {\n\t\tcase syscall.SIGHUP:\n\t\t\t// Reload the configuration, any more hangups until that is done are not needed\n\t\t\tsignal.Stop(ch)\n\t\t\tch = make(chan os.Signal, 1)\n\t\t\tsignal.Notify(ch, syscall.SIGINT, syscall.SIGTERM, syscall.SIGHUP)\n'), ('internal/server/server.go', 'signal.Notify(ch, syscall.SIGINT, syscall.SIGTERM)\n', 'signal.Notify(ch, syscall.SIGINT, syscall.SIGTERM, syscall.SIGHUP)\n')]
PKG='internal/server'
DEMO=r"""
package server_test

import (
	"io/ioutil"
	"os"
	"os/signal"
	"path/filepath"
	"syscall"
	"testing"
	"time"

	"github.com/iand/starbow/internal/server"
)

var _ = signal.Notify

func run(t *testing.T, end bool, sigs ...syscall.Signal) {
	dir, err := ioutil.TempDir("", "zz")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(dir)
	s := server.New()
	s.Net, s.Addr = "unix", filepath.Join(dir, "s")
	done := make(chan bool)
	go func() {
		s.Serve()
		close(done)
	}()
	time.Sleep(200 * time.Millisecond)
	for _, x := range sigs {
		syscall.Kill(os.Getpid(), x)
		time.Sleep(200 * time.Millisecond)
	}
	select {
	case <-done:
		if !end {
			t.Fatal("returned")
		}
	case <-time.After(500 * time.Millisecond):
		if end {
			t.Fatal("did not return")
		}
	}
}

func TestZZDemo(t *testing.T) {
	syscall.Kill(os.Getpid(), 0)
	run(t, true, syscall.SIGINT)
	c := make(chan os.Signal, 9)
	signal.Notify(c, syscall.SIGHUP)
	run(t, true, syscall.SIGHUP, syscall.SIGTERM)
}
"""
NEEDS='a hangup before the terminating signal'
BREAKS='the server is deaf to SIGINT and SIGTERM after a SIGHUP'
