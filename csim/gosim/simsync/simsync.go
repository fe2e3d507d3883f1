// Package simsync stands in for package sync: tasks that wait give up their turn.
package simsync

import (
	"sync"
	"sync/atomic"
	"verifgo/sim"
)

type Locker = sync.Locker
type Map = sync.Map

type Mutex struct{ m sync.Mutex }

func (x *Mutex) Lock() {
	sim.Yield(0)
	for !x.m.TryLock() {
		sim.Block()
	}
}
func (x *Mutex) TryLock() bool { return x.m.TryLock() }
func (x *Mutex) Unlock()       { x.m.Unlock(); sim.Yield(0) }

type RWMutex struct{ m sync.RWMutex }

func (x *RWMutex) Lock() {
	sim.Yield(0)
	for !x.m.TryLock() {
		sim.Block()
	}
}
func (x *RWMutex) RLock() {
	sim.Yield(0)
	for !x.m.TryRLock() {
		sim.Block()
	}
}
func (x *RWMutex) TryLock() bool   { return x.m.TryLock() }
func (x *RWMutex) TryRLock() bool  { return x.m.TryRLock() }
func (x *RWMutex) Unlock()         { x.m.Unlock(); sim.Yield(0) }
func (x *RWMutex) RUnlock()        { x.m.RUnlock(); sim.Yield(0) }
func (x *RWMutex) RLocker() Locker { return rlocker{x} }

type rlocker struct{ x *RWMutex }

func (r rlocker) Lock()   { r.x.RLock() }
func (r rlocker) Unlock() { r.x.RUnlock() }

type Once struct {
	done atomic.Bool
	m    Mutex
}

func (o *Once) Do(f func()) {
	if o.done.Load() {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done.Load() {
		defer o.done.Store(true)
		f()
	}
}

func OnceFunc(f func()) func() { var o Once; return func() { o.Do(f) } }
func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}
func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	var o Once
	var v T
	var w U
	return func() (T, U) { o.Do(func() { v, w = f() }); return v, w }
}

type WaitGroup struct{ n atomic.Int64 }

func (w *WaitGroup) Add(d int) {
	if w.n.Add(int64(d)) < 0 {
		panic("sync: negative WaitGroup counter")
	}
}
func (w *WaitGroup) Done() { w.Add(-1) }
func (w *WaitGroup) Wait() {
	for w.n.Load() > 0 {
		sim.Block()
	}
}
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	go func() { defer w.Done(); f() }()
}

// Pool hands out what was put last.
type Pool struct {
	New func() any
	m   sync.Mutex
	l   []any
}

func (p *Pool) Get() any {
	sim.Yield(0)
	p.m.Lock()
	if n := len(p.l); n > 0 {
		x := p.l[n-1]
		p.l = p.l[:n-1]
		p.m.Unlock()
		return x
	}
	p.m.Unlock()
	if p.New != nil {
		return p.New()
	}
	return nil
}
func (p *Pool) Put(x any) {
	if x == nil {
		return
	}
	p.m.Lock()
	p.l = append(p.l, x)
	p.m.Unlock()
	sim.Yield(0)
}

type Cond struct {
	L    Locker
	m    sync.Mutex
	next uint64
	open uint64
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }
func (c *Cond) Wait() {
	c.m.Lock()
	k := c.next
	c.next++
	c.m.Unlock()
	c.L.Unlock()
	for {
		c.m.Lock()
		ok := c.open > k
		c.m.Unlock()
		if ok {
			break
		}
		sim.Block()
	}
	c.L.Lock()
}
func (c *Cond) Signal() {
	c.m.Lock()
	if c.open < c.next {
		c.open++
	}
	c.m.Unlock()
}
func (c *Cond) Broadcast() {
	c.m.Lock()
	c.open = c.next
	c.m.Unlock()
}
