package vfmt

import (
	x "fmt"

	"github.com/yusank/godis/zzverif/vsched"
)

// Sink receives what is printed to the standard output, one call per write; nil drops it.
var Sink func(string)

// Put is a write to the standard output by other means than the functions of fmt.
func Put(s string) {
	if Sink != nil {
		Sink(s)
	}
}

func write(s string) (int, error) {
	if Sink != nil {
		vsched.Point("print")
		Sink(s)
	}
	return len(s), nil
}

func Print(a ...any) (int, error) {
	if Sink == nil {
		return 0, nil
	}
	return write(x.Sprint(a...))
}

func Println(a ...any) (int, error) {
	if Sink == nil {
		return 0, nil
	}
	return write(x.Sprintln(a...))
}

func Printf(f string, a ...any) (int, error) {
	if Sink == nil {
		return 0, nil
	}
	return write(x.Sprintf(f, a...))
}
