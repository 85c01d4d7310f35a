// fakego stands in for the go command: it only records where and how it was
// started, then succeeds or fails as told.
package main

import (
	"encoding/json"
	"hash/fnv"
	"os"
	"path/filepath"
	"strings"
	"syscall"
)

func main() {
	buf := make([]byte, 8192)
	n, err := syscall.Getcwd(buf)
	dir := ""
	if err == nil {
		dir = strings.TrimRight(string(buf[:n]), "\x00")
	}
	line, _ := json.Marshal(map[string]any{"dir": []byte(dir), "args": os.Args[1:]})
	f, err := os.OpenFile(os.Getenv("ZZLOG"), os.O_WRONLY|os.O_APPEND, 0)
	if err != nil {
		os.Exit(99)
	}
	f.Write(append(line, '\n'))
	f.Close()
	h := fnv.New32a()
	h.Write([]byte(filepath.Base(dir)))
	bad := false
	switch mode := os.Getenv("ZZFAIL"); mode {
	case "all", "kill", "noisy":
		bad = true
	case "some":
		bad = h.Sum32()%3 == 0
	case "root":
		bad = dir == os.Getenv("ZZROOT")
	case "deep":
		bad = dir != os.Getenv("ZZROOT")
	}
	if !bad {
		return
	}
	switch os.Getenv("ZZFAIL") {
	case "kill":
		syscall.Kill(os.Getpid(), syscall.SIGKILL)
	case "noisy":
		os.Stderr.WriteString(strings.Repeat("go: updates to go.mod needed\n", 4000))
		os.Stdout.WriteString(strings.Repeat("x", 200000))
	}
	os.Exit([]int{1, 2, 127, 255}[h.Sum32()%4])
}
