package vruntime

import "github.com/yusank/godis/zzverif/vsched"

func Gosched()           { vsched.Yield() }
func GOMAXPROCS(int) int { return 1 }
func NumCPU() int        { return 8 }
func GC()                {}
