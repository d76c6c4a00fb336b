// Package zzsync stands in for sync in the instrumented build.
package zzsync

import (
	"sync"
	"unsafe"

	"github.com/arr-ai/frozen/zzvsched"
)

type Locker = sync.Locker

type Mutex struct {
	mu   sync.Mutex
	held int32
}

func (m *Mutex) Lock() {
	if zzvsched.Active() {
		zzvsched.Await(&m.held, unsafe.Pointer(m))
	}
	m.mu.Lock()
	zzvsched.AddFlag(&m.held, 1)
}

func (m *Mutex) TryLock() bool {
	zzvsched.AccessAny()
	if m.mu.TryLock() {
		zzvsched.AddFlag(&m.held, 1)
		return true
	}
	return false
}

func (m *Mutex) Unlock() {
	zzvsched.AddFlag(&m.held, -1)
	m.mu.Unlock()
}

type RWMutex struct {
	mu  sync.RWMutex
	w   int32
	all int32
}

func (m *RWMutex) Lock() {
	if zzvsched.Active() {
		zzvsched.Await(&m.all, unsafe.Pointer(m))
	}
	m.mu.Lock()
	zzvsched.AddFlag(&m.w, 1)
	zzvsched.AddFlag(&m.all, 1)
}

func (m *RWMutex) Unlock() {
	zzvsched.AddFlag(&m.w, -1)
	zzvsched.AddFlag(&m.all, -1)
	m.mu.Unlock()
}

func (m *RWMutex) RLock() {
	if zzvsched.Active() {
		zzvsched.Await(&m.w, unsafe.Pointer(m))
	}
	m.mu.RLock()
	zzvsched.AddFlag(&m.all, 1)
}

func (m *RWMutex) RUnlock() {
	zzvsched.AddFlag(&m.all, -1)
	m.mu.RUnlock()
}

func (m *RWMutex) TryLock() bool {
	zzvsched.AccessAny()
	if m.mu.TryLock() {
		zzvsched.AddFlag(&m.w, 1)
		zzvsched.AddFlag(&m.all, 1)
		return true
	}
	return false
}

func (m *RWMutex) TryRLock() bool {
	zzvsched.AccessAny()
	if m.mu.TryRLock() {
		zzvsched.AddFlag(&m.all, 1)
		return true
	}
	return false
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type WaitGroup struct {
	wg sync.WaitGroup
	n  int32
}

func (w *WaitGroup) Add(d int) {
	zzvsched.Access(unsafe.Pointer(w), false)
	w.wg.Add(d)
	zzvsched.AddFlag(&w.n, int32(d))
}

func (w *WaitGroup) Done() { w.Add(-1) }

func (w *WaitGroup) Wait() {
	if zzvsched.Active() {
		zzvsched.Await(&w.n, unsafe.Pointer(w))
	}
	w.wg.Wait()
}

func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	zzvsched.Go(func() {
		defer w.Done()
		f()
	})
}

type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	var p any
	valid := false
	return func() {
		o.Do(func() {
			defer func() {
				if !valid {
					p = recover()
					panic(p)
				}
			}()
			f()
			valid = true
		})
		if !valid {
			panic(p)
		}
	}
}

func OnceValue[T any](f func() T) func() T {
	var v T
	once := OnceFunc(func() { v = f() })
	return func() T {
		once()
		return v
	}
}

func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	var v T
	var w U
	once := OnceFunc(func() { v, w = f() })
	return func() (T, U) {
		once()
		return v, w
	}
}

// Pool hands out what was last put in.
type Pool struct {
	New  func() any
	mu   sync.Mutex
	free []any
}

func (p *Pool) Get() any {
	zzvsched.Access(unsafe.Pointer(p), false)
	p.mu.Lock()
	if n := len(p.free); n > 0 {
		x := p.free[n-1]
		p.free = p.free[:n-1]
		p.mu.Unlock()
		return x
	}
	p.mu.Unlock()
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(x any) {
	zzvsched.Access(unsafe.Pointer(p), false)
	p.mu.Lock()
	p.free = append(p.free, x)
	p.mu.Unlock()
}

type Map struct{ m sync.Map }

func (m *Map) at(ro bool) { zzvsched.Access(unsafe.Pointer(m), ro) }

func (m *Map) Load(k any) (any, bool)           { m.at(true); return m.m.Load(k) }
func (m *Map) Store(k, v any)                   { m.at(false); m.m.Store(k, v) }
func (m *Map) LoadOrStore(k, v any) (any, bool) { m.at(false); return m.m.LoadOrStore(k, v) }
func (m *Map) LoadAndDelete(k any) (any, bool)  { m.at(false); return m.m.LoadAndDelete(k) }
func (m *Map) Delete(k any)                     { m.at(false); m.m.Delete(k) }
func (m *Map) Swap(k, v any) (any, bool)        { m.at(false); return m.m.Swap(k, v) }
func (m *Map) CompareAndSwap(k, o, n any) bool  { m.at(false); return m.m.CompareAndSwap(k, o, n) }
func (m *Map) CompareAndDelete(k, o any) bool   { m.at(false); return m.m.CompareAndDelete(k, o) }
func (m *Map) Range(f func(k, v any) bool)      { m.at(true); m.m.Range(f) }

func (m *Map) Clear() { m.at(false); m.m.Clear() }

// Cond is like sync.Cond.
type Cond struct {
	L       Locker
	real    *sync.Cond
	waiting []*int32
}

func NewCond(l Locker) *Cond { return &Cond{L: l, real: sync.NewCond(l)} }

func (c *Cond) Wait() {
	if !zzvsched.Active() {
		c.real.Wait()
		return
	}
	zzvsched.Access(unsafe.Pointer(c), false)
	f := new(int32)
	zzvsched.AddFlag(f, 1)
	c.waiting = append(c.waiting, f)
	c.L.Unlock()
	zzvsched.Await(f, unsafe.Pointer(c))
	c.L.Lock()
}

func (c *Cond) Signal() {
	if !zzvsched.Active() {
		c.real.Signal()
		return
	}
	zzvsched.Access(unsafe.Pointer(c), false)
	if len(c.waiting) > 0 {
		zzvsched.AddFlag(c.waiting[0], -1)
		c.waiting = c.waiting[1:]
	}
}

func (c *Cond) Broadcast() {
	if !zzvsched.Active() {
		c.real.Broadcast()
		return
	}
	zzvsched.Access(unsafe.Pointer(c), false)
	for _, f := range c.waiting {
		zzvsched.AddFlag(f, -1)
	}
	c.waiting = nil
}
