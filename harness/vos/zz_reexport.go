// Code generated by tools/shimgen. DO NOT EDIT.

package vos

import x "os"

var Args = x.Args
var Chdir = x.Chdir
var Chmod = x.Chmod
var Chown = x.Chown
var Chtimes = x.Chtimes
var Clearenv = x.Clearenv
var CopyFS = x.CopyFS

const DevNull = x.DevNull

type DirEntry = x.DirEntry

var DirFS = x.DirFS
var Environ = x.Environ
var ErrClosed = x.ErrClosed
var ErrDeadlineExceeded = x.ErrDeadlineExceeded
var ErrExist = x.ErrExist
var ErrInvalid = x.ErrInvalid
var ErrNoDeadline = x.ErrNoDeadline
var ErrNoHandle = x.ErrNoHandle
var ErrNotExist = x.ErrNotExist
var ErrPermission = x.ErrPermission
var ErrProcessDone = x.ErrProcessDone
var Executable = x.Executable
var Expand = x.Expand
var ExpandEnv = x.ExpandEnv

type FileInfo = x.FileInfo
type FileMode = x.FileMode

var FindProcess = x.FindProcess
var Getegid = x.Getegid
var Getenv = x.Getenv
var Geteuid = x.Geteuid
var Getgid = x.Getgid
var Getgroups = x.Getgroups
var Getpagesize = x.Getpagesize
var Getpid = x.Getpid
var Getppid = x.Getppid
var Getuid = x.Getuid
var Getwd = x.Getwd
var Hostname = x.Hostname
var Interrupt = x.Interrupt
var IsExist = x.IsExist
var IsNotExist = x.IsNotExist
var IsPathSeparator = x.IsPathSeparator
var IsPermission = x.IsPermission
var IsTimeout = x.IsTimeout
var Kill = x.Kill
var Lchown = x.Lchown
var Link = x.Link

type LinkError = x.LinkError

var LookupEnv = x.LookupEnv
var Lstat = x.Lstat
var Mkdir = x.Mkdir
var MkdirAll = x.MkdirAll
var MkdirTemp = x.MkdirTemp

const ModeAppend = x.ModeAppend
const ModeCharDevice = x.ModeCharDevice
const ModeDevice = x.ModeDevice
const ModeDir = x.ModeDir
const ModeExclusive = x.ModeExclusive
const ModeIrregular = x.ModeIrregular
const ModeNamedPipe = x.ModeNamedPipe
const ModePerm = x.ModePerm
const ModeSetgid = x.ModeSetgid
const ModeSetuid = x.ModeSetuid
const ModeSocket = x.ModeSocket
const ModeSticky = x.ModeSticky
const ModeSymlink = x.ModeSymlink
const ModeTemporary = x.ModeTemporary
const ModeType = x.ModeType

var NewSyscallError = x.NewSyscallError

const O_APPEND = x.O_APPEND
const O_CREATE = x.O_CREATE
const O_EXCL = x.O_EXCL
const O_RDONLY = x.O_RDONLY
const O_RDWR = x.O_RDWR
const O_SYNC = x.O_SYNC
const O_TRUNC = x.O_TRUNC
const O_WRONLY = x.O_WRONLY

var OpenRoot = x.OpenRoot

type PathError = x.PathError

const PathListSeparator = x.PathListSeparator
const PathSeparator = x.PathSeparator

type ProcAttr = x.ProcAttr
type Process = x.Process
type ProcessState = x.ProcessState

var ReadDir = x.ReadDir
var ReadFile = x.ReadFile
var Readlink = x.Readlink
var Remove = x.Remove
var RemoveAll = x.RemoveAll
var Rename = x.Rename

type Root = x.Root

const SEEK_CUR = x.SEEK_CUR
const SEEK_END = x.SEEK_END
const SEEK_SET = x.SEEK_SET

var SameFile = x.SameFile
var Setenv = x.Setenv

type Signal = x.Signal

var StartProcess = x.StartProcess
var Stat = x.Stat
var Symlink = x.Symlink

type SyscallError = x.SyscallError

var TempDir = x.TempDir
var Truncate = x.Truncate
var Unsetenv = x.Unsetenv
var UserCacheDir = x.UserCacheDir
var UserConfigDir = x.UserConfigDir
var UserHomeDir = x.UserHomeDir
var WriteFile = x.WriteFile
