package nd

import (
	"encoding/json"
	"fmt"
	"reflect"
	"sync/atomic"
)

// Threads are goroutines that run one at a time: each pauses where the
// recorded schedule says so and hands control back.
type thread struct {
	resume chan struct{}
	left   int // gates it may still pass before pausing
	block  int
	cell   *int32
	done   bool
}

var (
	ths     []*thread
	writing = map[uintptr]*thread{}
	running *thread
	back    = make(chan struct{})
	starved int32
)

func pause(t *thread) {
	back <- struct{}{}
	<-t.resume
}

// Par runs the functions as concurrent threads, to the end.
func Par(fs ...func()) {
	in := next("sched", "schedule")
	var log [][2]int
	if err := json.Unmarshal(in.Sched, &log); err != nil {
		finish("badinput", "schedule", "")
	}
	ths = nil
	for _, f := range fs {
		start(f)
	}
	run := func(t *thread, n int) {
		t.left = n
		running = t
		t.resume <- struct{}{}
		<-back
		running = nil
	}
	for _, s := range log {
		if s[0] >= len(ths) {
			finish("badsched", fmt.Sprintf("thread %d does not exist", s[0]), "")
		}
		t := ths[s[0]]
		if t.done || t.left > 0 || !free(t) {
			finish("badsched", fmt.Sprintf("thread %d cannot run", s[0]), "")
		}
		run(t, s[1])
	}
	// beyond the schedule: round robin
	for n := 0; ; n++ {
		left, ran := 0, false
		for i := range fs {
			if !ths[i].done {
				left++
			}
		}
		if left == 0 {
			return
		}
		for i := 0; i < len(ths); i++ {
			t := ths[i]
			if t.done {
				continue
			}
			if free(t) {
				ran = true
				run(t, 1)
			}
		}
		if !ran {
			finish("hang", "deadlock: no thread can run", "")
		}
		if n > 20000 {
			finish("hang", "livelock: no thread gets anywhere", "")
		}
	}
}

func start(f func()) {
	t := &thread{resume: make(chan struct{})}
	ths = append(ths, t)
	go func() {
		defer func() {
			if x := recover(); x != nil {
				finish("panic", fmt.Sprint(x), "")
			}
		}()
		<-t.resume
		f()
		t.done = true
		back <- struct{}{}
	}()
}

// Go is the go statement.
func Go(f func()) {
	if running != nil {
		start(f)
		return
	}
	go f()
}

func free(t *thread) bool {
	if t.block == 0 {
		return true
	}
	v := *t.cell
	return v == 0 || t.block == 2 && v > 0
}

func gate(block int, cell *int32) {
	t := running
	if t == nil {
		return
	}
	if t.left == 0 {
		t.block, t.cell = block, cell
		pause(t)
		t.block, t.cell = 0, nil
	}
	t.left--
}

// Gate precedes accesses to the memory at the pointers (bit i of mask: pointer
// i is written); threads are preempted only here.
func Gate(site int, mask uint64, ptrs ...interface{}) bool {
	gate(0, nil)
	if running == nil {
		return true
	}
	// what the runtime checks of maps
	for i, p := range ptrs {
		if m := reflect.ValueOf(p); m.Kind() == reflect.Map && m.Pointer() != 0 {
			if t := writing[m.Pointer()]; t != nil && t != running {
				panic("fatal error: concurrent map access")
			}
			if mask>>i&1 == 1 {
				writing[m.Pointer()] = running
			}
		}
	}
	return true
}

// Atomic runs f as a thread that is not preempted in it, unless it waits for a
// lock.
func Atomic(f func()) {
	gate(0, nil)
	f()
}

// MapEnd ends the write of a map announced by a Gate.
func MapEnd(m interface{}) {
	if running != nil {
		delete(writing, reflect.ValueOf(m).Pointer())
	}
}

// Block waits until *p is 0 (or, for kind 2, not negative).
func Block(site, kind int, p *int32) {
	if running != nil {
		gate(kind, p)
		return
	}
	if v := atomic.LoadInt32(p); v != 0 && !(kind == 2 && v > 0) {
		finish("hang", "deadlock: the lock is held", "")
	}
}

// CopyB is copy, in two steps for the scheduler.
func CopyB(site int, dst, src []byte) int {
	n := len(dst)
	if len(src) < n {
		n = len(src)
	}
	h := n / 2
	if n < 2 {
		Gate(site, 1, dst[:n], src[:n])
		return copy(dst, src)
	}
	Gate(site, 1, dst[:h], src[:h])
	copy(dst[:h], src[:h])
	Gate(site, 1, dst[h:n], src[h:n])
	copy(dst[h:n], src[h:n])
	return n
}
