package vk

import (
	"bufio"
	"context"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"net"
	"os"
	"os/exec"
	"strconv"
	"syscall"
)

type emptyErr struct{}

func (emptyErr) Error() string { return "" }

type timeout struct{ n int }

func (timeout) Error() string        { return "timeout" }
func (timeout) Timeout() bool        { return true }
func (timeout) Temporary() bool      { return true }
func (timeout) Is(target error) bool { return true } // claims to be any error

// WellKnown are errors that code is tempted to treat specially.
var WellKnown = []error{
	os.ErrClosed, &fs.PathError{Op: "close", Path: "f", Err: os.ErrClosed}, net.ErrClosed,
	&net.OpError{Op: "close", Net: "tcp", Err: net.ErrClosed}, io.ErrClosedPipe, io.EOF, io.ErrUnexpectedEOF,
	context.Canceled, context.DeadlineExceeded, os.ErrNotExist, os.ErrProcessDone, os.ErrDeadlineExceeded, os.ErrInvalid,
	syscall.EINVAL, syscall.EBADF, syscall.EPIPE, syscall.EINTR, syscall.EAGAIN, syscall.Errno(0), syscall.ECONNRESET,
	&os.SyscallError{Syscall: "close", Err: syscall.EBADF}, fs.SkipDir, fs.SkipAll, bufio.ErrFinalToken, exec.ErrNotFound,
	strconv.ErrRange, errors.ErrUnsupported, io.ErrNoProgress, emptyErr{}, timeout{1}, errors.New(""),
	fmt.Errorf("wrapped: %w", os.ErrClosed), errors.Join(os.ErrClosed, io.EOF), fmt.Errorf("%w and %w", io.EOF, context.Canceled),
	&net.DNSError{Err: "x", IsNotFound: true},
}
