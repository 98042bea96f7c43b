// Code generated by genshim; DO NOT EDIT.

package vctx

import std "context"

var Background = std.Background

type CancelCauseFunc = std.CancelCauseFunc
type CancelFunc = std.CancelFunc

var Canceled = std.Canceled

type Context = std.Context

var DeadlineExceeded = std.DeadlineExceeded
var TODO = std.TODO
var WithValue = std.WithValue
var WithoutCancel = std.WithoutCancel
