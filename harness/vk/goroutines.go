package vk

import (
	"runtime"
	"runtime/debug"
)

// NumGoroutines counts the goroutines. While the collector frees the stacks of
// ended goroutines, runtime.NumGoroutine counts those as alive; so unless the
// count is the expected one, it is taken again with no collection under way.
func NumGoroutines(expected int) int {
	n := runtime.NumGoroutine()
	if n == expected {
		return n
	}
	old := debug.SetGCPercent(-1)
	defer debug.SetGCPercent(old)
	runtime.GC()
	n = runtime.NumGoroutine()
	for i := 0; i < 10; i++ {
		m := runtime.NumGoroutine()
		if m == n {
			break
		}
		n = m
	}
	return n
}
