package vos

import (
	"fmt"
	"io"
	x "os"

	"github.com/yusank/godis/zzverif/vfmt"
)

func Exit(code int) { panic(fmt.Sprintf("os.Exit(%d)", code)) }

// File is a file; what is written to the standard output goes to the checks, and to the standard error nowhere.
type File struct {
	*x.File
	out, drop bool
}

var (
	Stdin  = &File{File: x.Stdin}
	Stdout = &File{File: x.Stdout, out: true}
	Stderr = &File{File: x.Stderr, drop: true}
)

func (f *File) Write(b []byte) (int, error) {
	switch {
	case f.out:
		vfmt.Put(string(b))
		return len(b), nil
	case f.drop:
		return len(b), nil
	}
	return f.File.Write(b)
}

func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }

func (f *File) Sync() error {
	if f.out || f.drop {
		return nil
	}
	return f.File.Sync()
}

func (f *File) Close() error {
	if f.out || f.drop {
		return nil
	}
	return f.File.Close()
}

func (f *File) ReadFrom(r io.Reader) (n int64, err error) {
	if f.out || f.drop {
		b, err := io.ReadAll(r)
		f.Write(b)
		return int64(len(b)), err
	}
	return f.File.ReadFrom(r)
}

func wrap(f *x.File, err error) (*File, error) {
	if err != nil {
		return nil, err
	}
	return &File{File: f}, nil
}

func Create(name string) (*File, error)             { return wrap(x.Create(name)) }
func CreateTemp(dir, pattern string) (*File, error) { return wrap(x.CreateTemp(dir, pattern)) }
func Open(name string) (*File, error)               { return wrap(x.Open(name)) }
func OpenFile(name string, flag int, perm x.FileMode) (*File, error) {
	return wrap(x.OpenFile(name, flag, perm))
}
func OpenInRoot(dir, name string) (*File, error) { return wrap(x.OpenInRoot(dir, name)) }

func NewFile(fd uintptr, name string) *File {
	switch fd {
	case 1:
		return Stdout
	case 2:
		return Stderr
	}
	return &File{File: x.NewFile(fd, name)}
}

func Pipe() (r, w *File, err error) {
	a, b, err := x.Pipe()
	if err != nil {
		return nil, nil, err
	}
	return &File{File: a}, &File{File: b}, nil
}
