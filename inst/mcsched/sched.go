// Package mcsched is laid over the instrumented source of google/codesearch. Its Y is called before every statement.
// It runs a few threads one at a time and switches between them exactly where a schedule says.
package mcsched

import (
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

func getg() uintptr

type thread struct {
	id      int
	g       uintptr
	name    string // as goroutine dumps begin
	f       func() string
	out     string
	done    bool
	blocked bool
	wake    chan struct{}
	yields  int // calls of Y so far
	points  []uint32
}

// A Switch says that the running thread is stopped at its N-th statement and thread To goes on.
type Switch struct{ N, To int }

var (
	active  atomic.Bool
	threads []*thread
	cur     *thread
	sched   []Switch // remaining switches
	next    int      // statement at which the running thread is stopped (-1: never)
	event   chan *thread
	resets  []func() func()
	restore []func()

	// Blocked counts hand-overs to a thread that did not come back (it waits for something another holds).
	Blocked int
	// record asks for the sequence of statements (by number) each thread executes.
	record bool
	points [][]uint32
)

// OnReset registers a function that saves the state of a package and returns a function restoring it.
func OnReset(f func() func()) { resets = append(resets, f) }

// Save saves the state of all packages. Reset brings it back.
func Save() {
	for _, f := range resets {
		restore = append(restore, f())
	}
}

func Reset() {
	for _, f := range restore {
		f()
	}
}

// Y is called before every statement of the instrumented packages.
func Y(point uint32) {
	if !active.Load() {
		return
	}
	g := getg()
	t := cur
	if t == nil || t.g != g {
		t = nil
		for _, x := range threads {
			if x.g == g {
				t = x
			}
		}
		if t == nil {
			return // a goroutine of the code's own
		}
		// A thread that was blocked has come back; it waits for its turn.
		event <- t
		<-t.wake
	}
	t.yields++
	if record {
		t.points = append(t.points, point)
	}
	if t.yields == next {
		event <- t
		<-t.wake
	}
}

// A thread that does not come back for blockedAfter counts as blocked; one found waiting in a dump, at once.
const blockedAfter = 300 * time.Millisecond

// waiting says whether the thread waits for another goroutine.
func waiting(t *thread) bool {
	b := make([]byte, 1<<16)
	for {
		n := runtime.Stack(b, true)
		if n < len(b) {
			b = b[:n]
			break
		}
		b = make([]byte, 2*len(b))
	}
	_, s, ok := strings.Cut("\n"+string(b), "\n"+t.name+"[")
	s, _, _ = strings.Cut(s, "]")
	s, _, _ = strings.Cut(s, ",")
	if !ok {
		return false
	}
	for _, p := range []string{"sync.", "semacquire", "chan ", "select"} {
		if strings.HasPrefix(s, p) {
			return true
		}
	}
	return false
}

// Run runs the functions as threads: first, then as the switches say; a thread that ends is followed by the lowest
// other one. It returns the results and how many statements each thread executed.
func Run(fs []func() string, first int, switches []Switch) (outs []string, yields []int, err error) {
	threads = nil
	event = make(chan *thread)
	sched = switches
	var start sync.WaitGroup
	for i, f := range fs {
		t := &thread{id: i, f: f, wake: make(chan struct{})}
		threads = append(threads, t)
		start.Add(1)
		go func() {
			t.g = getg()
			b := make([]byte, 64)
			t.name, _, _ = strings.Cut(string(b[:runtime.Stack(b, false)]), "[")
			start.Done()
			<-t.wake
			func() {
				defer func() {
					if e := recover(); e != nil {
						t.out = fmt.Sprintf("panic: %v\n%s", e, debug.Stack())
					}
				}()
				t.out = t.f()
			}()
			t.done = true
			event <- t
		}()
	}
	start.Wait()
	active.Store(true)
	defer active.Store(false)
	// resume lets t run until it stops, ends or blocks.
	resume := func(t *thread) {
		cur = t
		next = -1
		if len(sched) > 0 {
			next = sched[0].N
		}
		if !t.blocked {
			t.wake <- struct{}{}
		}
		start := time.Now()
		timer := time.NewTimer(2 * time.Millisecond)
		defer timer.Stop()
		for {
			var x *thread
			select {
			case x = <-event:
			case <-timer.C:
				if time.Since(start) < blockedAfter && !waiting(t) {
					timer.Reset(2 * time.Millisecond)
					continue
				}
				select {
				case x = <-event: // it had just come
				default:
					t.blocked = true
					Blocked++
					return
				}
			}
			if x == t {
				t.blocked = false
				return
			}
			x.blocked = false // came back; it waits in Y, or has ended
		}
	}
	t := threads[first]
	for n := 0; ; n++ {
		if n > 1000 {
			return nil, nil, fmt.Errorf("no end")
		}
		resume(t)
		if !t.done && !t.blocked { // stopped at a switch
			t = threads[sched[0].To]
			sched = sched[1:]
			if !t.done {
				continue
			}
		} else if t.done && len(sched) > 0 && t.yields < sched[0].N {
			sched = nil // it ended before the switch
		}
		// Ended, blocked or switched to an ended thread: another one.
		var u *thread
		for _, x := range threads {
			if !x.done && !x.blocked && (x != t || u == nil) {
				u = x
				break
			}
		}
		if u == nil {
			left := false
			for _, x := range threads {
				left = left || !x.done
			}
			if !left {
				break
			}
			// Every remaining thread is blocked: wait for one to come back.
			select {
			case x := <-event:
				x.blocked = false
				if x.done {
					continue
				}
				u = x
			case <-time.After(5 * time.Second):
				return nil, nil, fmt.Errorf("deadlock: no thread can go on")
			}
		}
		t = u
	}
	points = nil
	for _, x := range threads {
		points = append(points, x.points)
		outs = append(outs, x.out)
		yields = append(yields, x.yields)
	}
	cur = nil
	return outs, yields, nil
}

// Unmap releases mappings of files below dir (index.Open leaves them).
func Unmap(dir string) {
	b, _ := os.ReadFile("/proc/self/maps")
	for _, l := range strings.Split(string(b), "\n") {
		i := strings.Index(l, dir)
		if i < 0 {
			continue
		}
		r, _, _ := strings.Cut(l, " ")
		x, y, _ := strings.Cut(r, "-")
		lo, _ := strconv.ParseUint(x, 16, 64)
		hi, _ := strconv.ParseUint(y, 16, 64)
		syscall.RawSyscall(syscall.SYS_MUNMAP, uintptr(lo), uintptr(hi-lo), 0)
	}
}
