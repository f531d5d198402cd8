// Code generated by tools/shimgen. DO NOT EDIT.

package vcontext

import x "context"

var Background = x.Background

type CancelCauseFunc = x.CancelCauseFunc
type CancelFunc = x.CancelFunc

var Canceled = x.Canceled

type Context = x.Context

var DeadlineExceeded = x.DeadlineExceeded
var TODO = x.TODO
