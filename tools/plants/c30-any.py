PROP='C30'
EDITS=[('internal/server/server.go', '\t\tcase syscall.SIGINT, syscall.SIGTERM:\n\t\t\tbreak signalloop\n', '\t\tcase syscall.SIGURG, syscall.SIGCHLD, syscall.SIGWINCH, syscall.SIGCONT:\n\t\t\t// Not meant for us\n\t\tdefault:\n\t\t\tbreak signalloop\n'), ('internal/server/server.go', 'signal.Notify(ch, syscall.SIGINT, syscall.SIGTERM)\n', 'signal.Notify(ch)\n')]
PKG='internal/server'
DEMO=r"""
package server_test

import (
	"io/ioutil"
	"os"
	"os/signal"
	"path/filepath"
	"syscall"
	"testing"
	"time"

	"github.com/iand/starbow/internal/server"
)

var _ = signal.Notify

func run(t *testing.T, end bool, sigs ...syscall.Signal) {
	dir, err := ioutil.TempDir("", "zz")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(dir)
	s := server.New()
	s.Net, s.Addr = "unix", filepath.Join(dir, "s")
	done := make(chan bool)
	go func() {
		s.Serve()
		close(done)
	}()
	time.Sleep(200 * time.Millisecond)
	for _, x := range sigs {
		syscall.Kill(os.Getpid(), x)
		time.Sleep(200 * time.Millisecond)
	}
	select {
	case <-done:
		if !end {
			t.Fatal("returned")
		}
	case <-time.After(500 * time.Millisecond):
		if end {
			t.Fatal("did not return")
		}
	}
}

func TestZZDemo(t *testing.T) {
	run(t, true, syscall.SIGINT)
	c := make(chan os.Signal, 9)
	signal.Notify(c, syscall.SIGUSR1, syscall.SIGTSTP)
	run(t, false, syscall.SIGUSR1)
}
"""
NEEDS='any other signal, for instance SIGPIPE or SIGUSR1'
BREAKS='the server shuts down'
