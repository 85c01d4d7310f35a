package vk

import (
	"fmt"
	"runtime"
	"strconv"
	"strings"
	"testing"
	"testing/synctest"
)

// Bubble runs f under virtual time. Goroutines that are still blocked when
// nothing can happen any more are a violation.
func (c *C) Bubble(t *testing.T, detail func() any, f func()) {
	defer func() {
		if r := recover(); r != nil {
			if s := fmt.Sprint(r); strings.Contains(s, "deadlock") {
				var d any
				if detail != nil {
					d = detail()
				}
				c.Violate("goroutines are blocked for good: "+s, map[string]any{"scenario": d, "goroutines": stacks()})
			}
			panic(r)
		}
	}()
	synctest.Test(t, func(*testing.T) { f() })
	Tick()
}

// GID is the number of the calling goroutine.
func GID() int64 {
	var b [64]byte
	return gid(string(b[:runtime.Stack(b[:], false)]))
}

func gid(s string) int64 {
	s = strings.TrimPrefix(s, "goroutine ")
	if i := strings.IndexByte(s, ' '); i > 0 {
		n, _ := strconv.ParseInt(s[:i], 10, 64)
		return n
	}
	return 0
}

var dumpBuf = make([]byte, 64<<10)

// Goroutines returns the stacks of the goroutines of the caller's bubble,
// by number, without the caller and goroutines of the testing package.
func Goroutines() map[int64]string {
	n := runtime.Stack(dumpBuf, true)
	for n == len(dumpBuf) {
		dumpBuf = make([]byte, 2*len(dumpBuf))
		n = runtime.Stack(dumpBuf, true)
	}
	dump := strings.Split(string(dumpBuf[:n]), "\n\n")
	bubble := ""
	head := strings.SplitN(dump[0], "\n", 2)[0]
	if i := strings.Index(head, "synctest bubble "); i >= 0 {
		bubble = strings.TrimRight(head[i:], "]:")
	}
	out := map[int64]string{}
	for _, g := range dump[1:] {
		head := strings.SplitN(g, "\n", 2)[0]
		i := strings.Index(head, "synctest bubble ")
		if i < 0 || strings.TrimRight(head[i:], "]:") != bubble {
			continue
		}
		if strings.Contains(g, "synctest.Run(") || strings.Contains(g, "testingSynctestTest") && !inTarget(g) {
			continue
		}
		out[gid(g)] = g
	}
	return out
}
