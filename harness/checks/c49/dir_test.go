package c49

import (
	"path/filepath"
	"runtime"
)

func harnessDir() string {
	_, f, _, _ := runtime.Caller(0)
	return filepath.Join(filepath.Dir(f), "..", "..")
}
