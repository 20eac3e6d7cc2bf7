// Package faults lists the kinds of failure an environment really produces: the
// error values differ, and code that tells them apart may treat one as harmless.
package faults

import (
	"bufio"
	"context"
	"crypto/x509"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"net"
	"os"
	"syscall"
)

// Plain is the fault without any meaning.
var Plain = errors.New("injected fault")

// Read are failures of a reader (none of them is the end of the data).
var Read = []error{
	Plain,
	io.ErrUnexpectedEOF,
	io.ErrClosedPipe,
	io.ErrNoProgress,
	io.ErrShortBuffer,
	bufio.ErrTooLong,
	fmt.Errorf("read broken off: %w", io.EOF),
	fmt.Errorf("read broken off: %w", io.ErrUnexpectedEOF),
	os.ErrClosed,
	os.ErrDeadlineExceeded,
	os.ErrPermission,
	os.ErrNotExist,
	&fs.PathError{Op: "read", Path: "x", Err: syscall.EIO},
	&fs.PathError{Op: "read", Path: "x", Err: syscall.EISDIR},
	&fs.PathError{Op: "read", Path: "x", Err: syscall.EBADF},
	&fs.PathError{Op: "read", Path: "x", Err: syscall.EAGAIN},
	&fs.PathError{Op: "read", Path: "x", Err: os.ErrClosed},
	syscall.EINTR,
	&net.OpError{Op: "read", Net: "tcp", Err: os.NewSyscallError("read", syscall.ECONNRESET)},
	&net.OpError{Op: "read", Net: "tcp", Err: os.ErrDeadlineExceeded},
	net.ErrClosed,
	context.DeadlineExceeded,
	context.Canceled,
}

// Write are failures of a writer.
var Write = []error{
	Plain,
	io.EOF,
	io.ErrShortWrite,
	io.ErrClosedPipe,
	io.ErrUnexpectedEOF,
	os.ErrClosed,
	os.ErrDeadlineExceeded,
	syscall.EPIPE,
	&fs.PathError{Op: "write", Path: "/dev/stdout", Err: syscall.EPIPE},
	&fs.PathError{Op: "write", Path: "/dev/stdout", Err: syscall.ENOSPC},
	&fs.PathError{Op: "write", Path: "/dev/stdout", Err: syscall.EAGAIN},
	&fs.PathError{Op: "write", Path: "/dev/stdout", Err: syscall.EBADF},
	&fs.PathError{Op: "write", Path: "/dev/stdout", Err: syscall.EIO},
	&fs.PathError{Op: "write", Path: "/dev/stdout", Err: syscall.EDQUOT},
	&fs.PathError{Op: "write", Path: "/dev/stdout", Err: syscall.EINTR},
	context.Canceled,
}

// Transport are failures of an HTTP exchange before there is a response.
var Transport = []error{
	Plain,
	io.EOF,
	io.ErrUnexpectedEOF,
	io.ErrClosedPipe,
	context.DeadlineExceeded,
	context.Canceled,
	os.ErrDeadlineExceeded,
	os.ErrNotExist,
	&net.DNSError{Err: "no such host", Name: "example.org", IsNotFound: true},
	&net.DNSError{Err: "server misbehaving", Name: "example.org", IsTemporary: true},
	&net.DNSError{Err: "i/o timeout", Name: "example.org", IsTimeout: true},
	&net.OpError{Op: "dial", Net: "tcp", Err: os.NewSyscallError("connect", syscall.ECONNREFUSED)},
	&net.OpError{Op: "dial", Net: "tcp", Err: os.NewSyscallError("connect", syscall.ENETUNREACH)},
	&net.OpError{Op: "dial", Net: "tcp", Err: os.ErrDeadlineExceeded},
	&net.OpError{Op: "read", Net: "tcp", Err: os.NewSyscallError("read", syscall.ECONNRESET)},
	&net.OpError{Op: "write", Net: "tcp", Err: os.NewSyscallError("write", syscall.EPIPE)},
	x509.UnknownAuthorityError{},
	x509.HostnameError{Certificate: &x509.Certificate{}, Host: "example.org"},
	errors.New("net/http: TLS handshake timeout"),
	errors.New("http: server gave HTTP response to HTTPS client"),
	errors.New("remote error: tls: handshake failure"),
}
