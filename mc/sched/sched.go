// Package sched runs two goroutines in turn. Instrumented code calls Y before
// each statement; a plan says where the running goroutine is preempted. What
// the scheduler itself does is invisible to the race detector, so that it sees
// only the synchronisation of the code under test.
package sched

import (
	"runtime"
	"sync"
	"time"
)

// Point is a preemption: goroutine Who, at its At'th point of the level (0
// every statement, 1 beginnings of functions and loop bodies, 2 the statement
// Site).
type Point struct{ Who, Level, At, Site int }

// Sites is the largest number of statements.
const Sites = 8192

var (
	on, free  bool
	cur       int
	cnt       [2][2]int
	sites     [2][Sites]int32
	levels    [Sites]int8
	plan      []Point
	next      int
	finished  [2]bool
	steps     int
	stalls    int
	stallTime = 5 * time.Millisecond
)

// Y is called before each statement.
//
//go:norace
//go:noinline
func Y(level, site int) {
	if max > 0 {
		if steps++; steps > max {
			max = 0
			panic(TooMany)
		}
		return
	}
	if !on || free {
		return
	}
	me := cur
	steps++
	sites[me][site]++
	levels[site] = int8(level)
	cnt[me][0]++
	if level > 0 {
		cnt[me][1]++
	}
	if next < len(plan) {
		if p := &plan[next]; p.Who == me && p.hit(level, site) {
			next++
			if !finished[1-me] {
				cur = 1 - me
				wait(me)
			}
		}
	}
}

//go:norace
func (p *Point) hit(level, site int) bool {
	if p.Level == 2 {
		return p.Site == site && p.At == int(sites[p.Who][site])
	}
	return p.Level <= level && p.At == cnt[p.Who][p.Level]
}

// wait for the turn. If the other one does not get ahead, because it waits for
// something that this one holds, both run freely.
//
//go:norace
//go:noinline
func wait(me int) {
	seen, n := steps, 0
	var since time.Time
	for cur != me && !free {
		runtime.Gosched()
		n++
		if n&0x3f != 0 {
			continue
		}
		if steps != seen || since.IsZero() {
			seen, since = steps, time.Now()
		} else if time.Since(since) > stallTime {
			stalls++
			free = true
		}
	}
}

//go:norace
//go:noinline
func finish(me int) {
	finished[me] = true
	cur = 1 - me
}

//go:norace
//go:noinline
func start(who int, p []Point) {
	on, free, cur, plan, next, steps = true, false, who, p, 0, 0
	cnt, finished = [2][2]int{}, [2]bool{}
	clear(sites[0][:])
	clear(sites[1][:])
}

//go:norace
//go:noinline
func stop() { on = false }

// Counts is the number of points of each goroutine and level in the last run.
//
//go:norace
//go:noinline
func Counts() [2][2]int { return cnt }

// SiteCounts is how often goroutine who ran each statement in the last run.
//
//go:norace
//go:noinline
func SiteCounts(who int) []int32 { return append([]int32{}, sites[who][:]...) }

// Levels has the levels of all statements that ran.
//
//go:norace
//go:noinline
func Levels() []int8 { return append([]int8{}, levels[:]...) }

// Stalls counts the runs in which a goroutine waited for the other.
//
//go:norace
//go:noinline
func Stalls() int { return stalls }

// Run runs f[0] and f[1], beginning with f[who].
func Run(who int, p []Point, f [2]func()) {
	start(who, p)
	var wg sync.WaitGroup
	wg.Add(2)
	for i := range f {
		i := i
		go func() {
			defer wg.Done()
			wait(i)
			f[i]()
			finish(i)
		}()
	}
	wg.Wait()
	stop()
}

// TooMany is the panic of Measure.
const TooMany = "too many statements"

var max int

// Measure counts the statements that f runs, and panics after limit of them.
func Measure(limit int, f func()) int {
	steps, max = 0, limit
	f()
	max = 0
	return steps
}
