// Code generated by tools/shimgen. DO NOT EDIT.

package vlog

import x "log"

var Default = x.Default
var Flags = x.Flags

const LUTC = x.LUTC
const Ldate = x.Ldate
const Llongfile = x.Llongfile
const Lmicroseconds = x.Lmicroseconds
const Lmsgprefix = x.Lmsgprefix

type Logger = x.Logger

const Lshortfile = x.Lshortfile
const LstdFlags = x.LstdFlags
const Ltime = x.Ltime

var New = x.New
var Prefix = x.Prefix
var Writer = x.Writer
