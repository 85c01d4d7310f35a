package vk

import (
	"fmt"
	"math/rand/v2"
	"os"
	"runtime/debug"
	"syscall"
	"unsafe"
)

// Sealed is memory whose protection the harness controls, between pages that
// nobody may touch. A copy of the caller's data is placed at its very end or
// at its very start.
type Sealed struct {
	all, mid []byte
}

var page = os.Getpagesize()

// Seal returns memory for n bytes.
func Seal(n int) *Sealed {
	p := (n + page - 1) / page * page
	if p == 0 {
		p = page
	}
	all, err := syscall.Mmap(-1, 0, p+2*page, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_ANON|syscall.MAP_PRIVATE)
	if err != nil {
		panic(fmt.Sprint("harness: mmap: ", err))
	}
	s := &Sealed{all, all[page : page+p]}
	s.prot(all[:page], syscall.PROT_NONE)
	s.prot(all[page+p:], syscall.PROT_NONE)
	return s
}

func (s *Sealed) prot(b []byte, p int) {
	if err := syscall.Mprotect(b, p); err != nil {
		panic(fmt.Sprint("harness: mprotect: ", err))
	}
}

// ReadOnly makes every write fault, None every access.
func (s *Sealed) ReadOnly()  { s.prot(s.mid, syscall.PROT_READ) }
func (s *Sealed) None()      { s.prot(s.mid, syscall.PROT_NONE) }
func (s *Sealed) ReadWrite() { s.prot(s.mid, syscall.PROT_READ|syscall.PROT_WRITE) }

// Free unmaps the memory.
func (s *Sealed) Free() {
	if err := syscall.Munmap(s.all); err != nil {
		panic(fmt.Sprint("harness: munmap: ", err))
	}
}

// SealOf copies v, which must not contain pointers, into sealed memory that
// is still writable: flush with its end, with its start, or with spare
// capacity behind it.
func SealOf[T any](r *rand.Rand, v []T) (*Sealed, []T) {
	var z T
	size := int(unsafe.Sizeof(z))
	s := Seal(len(v) * size)
	off, spare := 0, 0
	switch r.IntN(3) {
	case 0:
		off = (len(s.mid) - len(v)*size) / size * size
		// keep it flush with the end: element sizes divide the page size or
		// leave a gap that is not part of the slice
		if gap := len(s.mid) - off - len(v)*size; gap > 0 && gap%int(unsafe.Alignof(z)) == 0 {
			off += gap
		}
	case 1:
		spare = (len(s.mid) - len(v)*size) / size
	}
	p := unsafe.Pointer(&s.mid[0])
	if off > 0 {
		p = unsafe.Add(p, off)
	}
	d := unsafe.Slice((*T)(p), len(v)+spare)
	copy(d, v)
	if len(v) == 0 && off == len(s.mid) {
		d = unsafe.Slice((*T)(unsafe.Pointer(&s.mid[0])), 0)
	}
	return s, d[:len(v)]
}

// Text is a string in the sealed memory behind b.
func Text(b []byte) string {
	if len(b) == 0 {
		return ""
	}
	return unsafe.String(&b[0], len(b))
}

// Faults runs f and returns the address of a memory access that f must not
// make, or the panic of f.
func Faults(f func()) (err error) {
	old := debug.SetPanicOnFault(true)
	defer debug.SetPanicOnFault(old)
	defer func() {
		if r := recover(); r != nil {
			if a, ok := r.(interface{ Addr() uintptr }); ok {
				_ = a
				err = &Fault{string(debug.Stack())}
				return
			}
			err = &Panic{r, string(debug.Stack())}
		}
	}()
	f()
	return nil
}

// Fault is a forbidden memory access.
type Fault struct{ Stack string }

func (f *Fault) Error() string { return "forbidden memory access" }
