// Package psync stands in for sync in instrumented packages: the same
// semantics under the cooperative scheduler of nd.Par.
package psync

import "github.com/iand/starbow/internal/zzverif/nd"

type Locker interface {
	Lock()
	Unlock()
}

type Mutex struct{ state int32 }

func (m *Mutex) Lock() {
	nd.Block(1, 1, &m.state)
	m.state = -1
}

func (m *Mutex) TryLock() bool {
	nd.Gate(2, 1, &m.state)
	if m.state != 0 {
		return false
	}
	m.state = -1
	return true
}

func (m *Mutex) Unlock() {
	nd.Gate(3, 1, &m.state)
	if m.state != -1 {
		panic("fatal error: sync: unlock of unlocked mutex")
	}
	m.state = 0
}

type RWMutex struct{ state int32 }

func (m *RWMutex) Lock() {
	nd.Block(4, 1, &m.state)
	m.state = -1
}

func (m *RWMutex) Unlock() {
	nd.Gate(5, 1, &m.state)
	if m.state != -1 {
		panic("fatal error: sync: Unlock of unlocked RWMutex")
	}
	m.state = 0
}

func (m *RWMutex) RLock() {
	nd.Block(6, 2, &m.state)
	m.state++
}

func (m *RWMutex) RUnlock() {
	nd.Gate(7, 1, &m.state)
	if m.state <= 0 {
		panic("fatal error: sync: RUnlock of unlocked RWMutex")
	}
	m.state--
}

func (m *RWMutex) TryLock() bool {
	nd.Gate(8, 1, &m.state)
	if m.state != 0 {
		return false
	}
	m.state = -1
	return true
}

func (m *RWMutex) TryRLock() bool {
	nd.Gate(9, 1, &m.state)
	if m.state < 0 {
		return false
	}
	m.state++
	return true
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type Once struct {
	m    Mutex
	done uint32
}

func (o *Once) Do(f func()) {
	nd.Gate(10, 0, &o.done)
	if o.done != 0 {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if o.done == 0 {
		defer func() {
			nd.Gate(11, 1, &o.done)
			o.done = 1
		}()
		f()
	}
}

type WaitGroup struct{ n int32 }

func (w *WaitGroup) Add(d int) {
	nd.Gate(12, 1, &w.n)
	w.n += int32(d)
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
}
func (w *WaitGroup) Done() { w.Add(-1) }
func (w *WaitGroup) Wait() { nd.Block(13, 3, &w.n) }

type Pool struct {
	m   Mutex
	x   []interface{}
	New func() interface{}
}

func (p *Pool) Get() interface{} {
	p.m.Lock()
	n := len(p.x)
	if n > 0 {
		v := p.x[n-1]
		p.x = p.x[:n-1]
		p.m.Unlock()
		return v
	}
	p.m.Unlock()
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(v interface{}) {
	if v == nil {
		return
	}
	p.m.Lock()
	p.x = append(p.x, v)
	p.m.Unlock()
}

// Map is the concurrent map; each operation is one step.
type Map struct {
	n int32
	m map[interface{}]interface{}
}

func (m *Map) Load(k interface{}) (interface{}, bool) {
	nd.Gate(14, 0, &m.n)
	v, ok := m.m[k]
	return v, ok
}

func (m *Map) Store(k, v interface{}) {
	nd.Gate(15, 1, &m.n)
	if m.m == nil {
		m.m = map[interface{}]interface{}{}
	}
	m.n++
	m.m[k] = v
}

func (m *Map) LoadOrStore(k, v interface{}) (interface{}, bool) {
	nd.Gate(16, 1, &m.n)
	if x, ok := m.m[k]; ok {
		return x, true
	}
	if m.m == nil {
		m.m = map[interface{}]interface{}{}
	}
	m.n++
	m.m[k] = v
	return v, false
}

func (m *Map) LoadAndDelete(k interface{}) (interface{}, bool) {
	nd.Gate(17, 1, &m.n)
	v, ok := m.m[k]
	delete(m.m, k)
	m.n++
	return v, ok
}

func (m *Map) Delete(k interface{}) { m.LoadAndDelete(k) }

func (m *Map) Range(f func(k, v interface{}) bool) {
	nd.Gate(18, 0, &m.n)
	c := map[interface{}]interface{}{}
	for k, v := range m.m {
		c[k] = v
	}
	for k, v := range c {
		if !f(k, v) {
			return
		}
	}
}
