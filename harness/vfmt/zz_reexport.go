// Code generated by tools/shimgen. DO NOT EDIT.

package vfmt

import x "fmt"

var Append = x.Append
var Appendf = x.Appendf
var Appendln = x.Appendln
var Errorf = x.Errorf
var FormatString = x.FormatString

type Formatter = x.Formatter

var Fprint = x.Fprint
var Fprintf = x.Fprintf
var Fprintln = x.Fprintln
var Fscan = x.Fscan
var Fscanf = x.Fscanf
var Fscanln = x.Fscanln

type GoStringer = x.GoStringer

var Scan = x.Scan

type ScanState = x.ScanState

var Scanf = x.Scanf
var Scanln = x.Scanln

type Scanner = x.Scanner

var Sprint = x.Sprint
var Sprintf = x.Sprintf
var Sprintln = x.Sprintln
var Sscan = x.Sscan
var Sscanf = x.Sscanf
var Sscanln = x.Sscanln

type State = x.State
type Stringer = x.Stringer
