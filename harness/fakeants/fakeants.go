// Package fakeants replaces the worker pool in native replays: tasks run in the order the
// counterexample prescribes.
package fakeants

import (
	"sync"

	"github.com/RH12503/Triangula/zzverif/sym"
)

var (
	mu   sync.Mutex
	n    int
	cond = sync.NewCond(&mu)
	pos  int
)

func Reset() {
	mu.Lock()
	n, pos = 0, 0
	mu.Unlock()
}

func Submit(task func()) error {
	mu.Lock()
	n++
	id := n
	mu.Unlock()
	go func() {
		order := sym.Order
		at := -1
		for i, x := range order {
			if x == id {
				at = i
			}
		}
		if at >= 0 {
			mu.Lock()
			for pos < at {
				cond.Wait()
			}
			mu.Unlock()
		}
		defer func() {
			r := recover()
			mu.Lock()
			pos++
			cond.Broadcast()
			mu.Unlock()
			if r != nil {
				panic(r)
			}
		}()
		task()
	}()
	return nil
}
func Release() {}
