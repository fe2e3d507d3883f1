// Package sim decides which goroutine runs. One task runs at a time; it may lose its turn at Yield.
package sim

import (
	"runtime"
	"strconv"
	"sync"
	"sync/atomic"
	"time"
)

// A Switch happens when task Task, in its call Op, reaches its N-th yield point: the turn goes to To (-1: the garbage collector runs).
type Switch struct{ Task, Op, N, To int }

type Task struct {
	ID, Op, N int
	RNG       uint64
	NRand     int
	FailAt    int
	FailFill  int
	FailRest  bool
	turn      chan struct{}
	waiting   bool // in Block
	done      bool
	goid      uint64
}

var (
	mu       sync.Mutex
	tasks    []*Task
	cur      *Task
	sws      map[[3]int]int
	chaos    uint64
	rate     uint64
	gcrate   uint64
	Total    atomic.Int64
	Switched [][4]int
	GCs      int
	Astray   int
	Stuck    atomic.Bool
	idle     int
	finished = make(chan struct{})
)

func goid() uint64 {
	var b [64]byte
	n := runtime.Stack(b[:], false)
	// "goroutine 12 ["
	i := 10
	j := i
	for j < n && b[j] != ' ' {
		j++
	}
	v, _ := strconv.ParseUint(string(b[i:j]), 10, 64)
	return v
}

func rnd() uint64 {
	chaos += 0x9e3779b97f4a7c15
	z := chaos
	z = (z ^ z>>30) * 0xbf58476d1ce4e5b9
	z = (z ^ z>>27) * 0x94d049bb133111eb
	return z ^ z>>31
}

// Me is the task that calls, nil for others.
func Me() *Task {
	g := goid()
	mu.Lock()
	defer mu.Unlock()
	for _, t := range tasks {
		if t.goid == g {
			return t
		}
	}
	return nil
}

// Run executes the bodies as tasks and returns when all have ended.
func Run(bodies []func(*Task), first int, switches []Switch, chaosSeed, chaosRate, gcRate uint64) {
	sws = map[[3]int]int{}
	for _, s := range switches {
		sws[[3]int{s.Task, s.Op, s.N}] = s.To
	}
	chaos, rate, gcrate = chaosSeed, chaosRate, gcRate
	for i := range bodies {
		tasks = append(tasks, &Task{ID: i, turn: make(chan struct{}, 1), FailAt: -1})
	}
	for i, b := range bodies {
		t := tasks[i]
		ready := make(chan struct{})
		go func() {
			g := goid()
			mu.Lock()
			t.goid = g
			mu.Unlock()
			close(ready)
			<-t.turn
			b(t)
			end(t)
		}()
		<-ready
	}
	mu.Lock()
	cur = tasks[first]
	mu.Unlock()
	cur.turn <- struct{}{}
	go watch()
	<-finished
}

func watch() {
	last, same := int64(-1), 0
	for {
		time.Sleep(50 * time.Millisecond)
		if n := Total.Load(); n != last {
			last, same = n, 0
			continue
		}
		same++
		if same >= 30 {
			// the task with the turn waits for something that is not under control: let another one go on
			mu.Lock()
			c := cur
			if c != nil {
				Astray++
				cur = nil
				give(next(c))
			}
			mu.Unlock()
			same = 0
			if c == nil {
				Stuck.Store(true)
			}
		}
	}
}

// next task after t that is not done (mu held).
func next(t *Task) *Task {
	for i := 1; i <= len(tasks); i++ {
		x := tasks[(t.ID+i)%len(tasks)]
		if !x.done && x != t {
			return x
		}
	}
	return nil
}

func give(t *Task) {
	if t != nil {
		cur = t
		select {
		case t.turn <- struct{}{}:
		default:
		}
	}
}

func end(t *Task) {
	mu.Lock()
	t.done = true
	Total.Add(1)
	x := next(t)
	if x == nil {
		mu.Unlock()
		close(finished)
		return
	}
	if cur == t || cur == nil {
		give(x)
	}
	mu.Unlock()
}

// wait until t has the turn (mu held; released).
func (t *Task) wait() {
	if cur == nil {
		cur = t
	}
	if cur == t {
		select {
		case <-t.turn:
		default:
		}
		mu.Unlock()
		return
	}
	mu.Unlock()
	for {
		<-t.turn
		mu.Lock()
		if cur == t {
			mu.Unlock()
			return
		}
		mu.Unlock()
	}
}

// Yield is a point where the turn may go to another task.
func Yield(site int) {
	t := Me()
	if t == nil {
		return
	}
	Total.Add(1)
	mu.Lock()
	if cur != t {
		// it was given up as stuck, and comes back
		t.wait()
		mu.Lock()
	}
	idle = 0
	t.N++
	to, ok := sws[[3]int{t.ID, t.Op, t.N}]
	if !ok && rate > 0 && rnd()%1000 < rate {
		to, ok = int(rnd()%uint64(len(tasks))), true
	}
	if !ok && gcrate > 0 && rnd()%1000 < gcrate {
		to, ok = -1, true
	}
	if !ok {
		mu.Unlock()
		return
	}
	if to < 0 {
		GCs++
		mu.Unlock()
		runtime.GC()
		return
	}
	x := tasks[to%len(tasks)]
	if x == t || x.done {
		mu.Unlock()
		return
	}
	Switched = append(Switched, [4]int{t.ID, t.Op, t.N, x.ID})
	give(x)
	t.wait()
}

// Block is called in a loop by a task that cannot go on yet.
func Block() {
	t := Me()
	if t == nil {
		runtime.Gosched()
		time.Sleep(100 * time.Microsecond)
		return
	}
	mu.Lock()
	idle++
	if idle > 50*len(tasks)+50 {
		// nobody makes progress: only goroutines out of control could
		mu.Unlock()
		time.Sleep(time.Millisecond)
		mu.Lock()
		if idle > 8000 {
			Stuck.Store(true)
		}
	}
	x := next(t)
	if x == nil {
		mu.Unlock()
		return
	}
	if cur == t {
		give(x)
	}
	t.wait()
}
