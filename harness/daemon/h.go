// Package daemon decides the life of a server process.
//
//gate: internal/server
package daemon

import (
	"io/ioutil"
	"net"
	"net/http"
	"os"
	"path/filepath"
	"syscall"
	"time"

	"github.com/iand/starbow/internal/server"
	"github.com/iand/starbow/internal/zzverif/nd"
)

type quiet struct{}

func (quiet) Printf(string, ...interface{}) {}

// H_signals decides that a server serves until it is told about SIGINT or
// SIGTERM and returns then: up to 2/4 signals of any number, the first of which
// may come before the server waits for it.
//
//verif:C30
func H_signals() {
	n := nd.Choose(nd.Tier(3, 5))
	sigs := make([]os.Signal, n)
	end := false
	for i := range sigs {
		x := nd.Int("signal", 1, 31)
		// what cannot be caught does not concern the server
		nd.Assume(x != int(syscall.SIGKILL) && x != int(syscall.SIGSTOP))
		s := syscall.Signal(x)
		if s == syscall.SIGINT || s == syscall.SIGTERM {
			end = true
		}
		sigs[i] = s
	}
	first := 0
	if n > 0 {
		first = nd.Choose(2)
	}
	s := server.New()
	s.Logger = quiet{}
	dir := "/scratch"
	if !nd.Symbolic() {
		d, err := ioutil.TempDir("", "starbow")
		if err != nil {
			panic(err)
		}
		dir = d
		defer os.RemoveAll(dir)
	}
	s.Net, s.Addr = "unix", filepath.Join(dir, "s")
	nd.Signals(sigs, first)
	returned := false
	nd.Start(func() {
		s.Serve()
		returned = true
	})
	nd.Settle()
	nd.Observe("returned", map[bool]uint64{true: 1}[returned])
	nd.Assert(end || !returned, "a server serves until it is told to terminate")
	nd.Assert(!end || returned, "a server returns when it is told to terminate")
	if !returned {
		nd.Assert(up(s.Addr), "a server that has not been told to terminate answers requests")
	}
}

// H_unable decides that a server that cannot listen says so.
//
//verif:C30
func H_unable() {
	s := server.New()
	s.Logger = quiet{}
	s.Net, s.Addr = "nowhere", string(nd.Ascii("addr", nd.Choose(4)))
	nd.Signals(nil, 0)
	returned := false
	var err error
	nd.Start(func() {
		err = s.Serve()
		returned = true
	})
	nd.Settle()
	nd.Observe("returned", map[bool]uint64{true: 1}[returned])
	nd.Assert(returned && err != nil, "a server that cannot listen reports that")
}

func up(addr string) bool {
	if nd.Symbolic() {
		return nd.Served()
	}
	c := http.Client{Timeout: time.Second, Transport: &http.Transport{DisableKeepAlives: true, Dial: func(string, string) (net.Conn, error) { return net.Dial("unix", addr) }}}
	r, err := c.Get("http://starbow/nothing/here")
	if err == nil {
		r.Body.Close()
	}
	return err == nil
}
