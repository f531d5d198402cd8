package vlog

import "fmt"

// touch calls the methods which the formatting of the values would call.
func touch(a []any) {
	for _, v := range a {
		func() {
			defer func() { recover() }() // so does fmt
			switch v := v.(type) {
			case error:
				_ = v.Error()
			case fmt.Stringer:
				_ = v.String()
			}
		}()
	}
}

func Print(a ...any)            { touch(a) }
func Println(a ...any)          { touch(a) }
func Printf(f string, a ...any) { touch(a) }
func Output(int, string) error  { return nil }
func SetFlags(int)              {}
func SetPrefix(string)          {}
func SetOutput(any)             {}
func Fatal(a ...any)            { panic("log.Fatal (process exit): " + fmt.Sprint(a...)) }
func Fatalf(f string, a ...any) { panic("log.Fatal (process exit): " + fmt.Sprintf(f, a...)) }
func Fatalln(a ...any)          { panic("log.Fatal (process exit): " + fmt.Sprint(a...)) }
func Panic(a ...any)            { panic(fmt.Sprint(a...)) }
func Panicf(f string, a ...any) { panic(fmt.Sprintf(f, a...)) }
func Panicln(a ...any)          { panic(fmt.Sprintln(a...)) }
