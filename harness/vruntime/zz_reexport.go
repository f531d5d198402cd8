// Code generated by tools/shimgen. DO NOT EDIT.

package vruntime

import x "runtime"

var BlockProfile = x.BlockProfile

type BlockProfileRecord = x.BlockProfileRecord

var Breakpoint = x.Breakpoint
var CPUProfile = x.CPUProfile
var Caller = x.Caller
var Callers = x.Callers
var CallersFrames = x.CallersFrames

type Cleanup = x.Cleanup

const Compiler = x.Compiler

type Error = x.Error
type Frame = x.Frame
type Frames = x.Frames
type Func = x.Func

var FuncForPC = x.FuncForPC

const GOARCH = x.GOARCH
const GOOS = x.GOOS

var GOROOT = x.GOROOT
var Goexit = x.Goexit
var GoroutineProfile = x.GoroutineProfile
var KeepAlive = x.KeepAlive
var LockOSThread = x.LockOSThread
var MemProfile = x.MemProfile
var MemProfileRate = x.MemProfileRate

type MemProfileRecord = x.MemProfileRecord
type MemStats = x.MemStats

var MutexProfile = x.MutexProfile
var NumCgoCall = x.NumCgoCall
var NumGoroutine = x.NumGoroutine

type PanicNilError = x.PanicNilError
type Pinner = x.Pinner

var ReadMemStats = x.ReadMemStats
var ReadTrace = x.ReadTrace
var SetBlockProfileRate = x.SetBlockProfileRate
var SetCPUProfileRate = x.SetCPUProfileRate
var SetCgoTraceback = x.SetCgoTraceback
var SetDefaultGOMAXPROCS = x.SetDefaultGOMAXPROCS
var SetFinalizer = x.SetFinalizer
var SetMutexProfileFraction = x.SetMutexProfileFraction
var Stack = x.Stack

type StackRecord = x.StackRecord

var StartTrace = x.StartTrace
var StopTrace = x.StopTrace
var ThreadCreateProfile = x.ThreadCreateProfile

type TypeAssertionError = x.TypeAssertionError

var UnlockOSThread = x.UnlockOSThread
var Version = x.Version
