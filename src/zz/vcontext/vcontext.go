// Package vcontext stands in for context in instrumented code: the first
// cancellable context made in an execution is the one the environment cancels.
package vcontext

import (
	"context"
	"time"

	"zz.local/zz/zzs"
)

type (
	Context         = context.Context
	CancelFunc      = context.CancelFunc
	CancelCauseFunc = context.CancelCauseFunc
)

var (
	Canceled         = context.Canceled
	DeadlineExceeded = context.DeadlineExceeded
)

func Background() Context { return context.Background() }
func TODO() Context       { return context.TODO() }

func reg(ctx Context, cancel func()) {
	zzs.RegisterCancel(cancel, ctx.Done())
}

// wrap makes polling a context for its error a scheduling point.
type wrap struct{ context.Context }

func (w wrap) Err() error {
	zzs.PollCancel(15)
	return w.Context.Err()
}

func WithCancel(parent Context) (Context, CancelFunc) {
	ctx, cancel := context.WithCancel(parent)
	reg(ctx, cancel)
	return wrap{ctx}, func() {
		zzs.OwnCancel(ctx.Done())
		cancel()
	}
}

func WithCancelCause(parent Context) (Context, CancelCauseFunc) {
	ctx, cancel := context.WithCancelCause(parent)
	reg(ctx, func() { cancel(nil) })
	return wrap{ctx}, func(err error) {
		zzs.OwnCancel(ctx.Done())
		cancel(err)
	}
}

func WithTimeout(parent Context, d time.Duration) (Context, CancelFunc) {
	return context.WithTimeout(parent, d)
}
func WithDeadline(parent Context, d time.Time) (Context, CancelFunc) {
	return context.WithDeadline(parent, d)
}
func WithValue(parent Context, k, v any) Context         { return context.WithValue(parent, k, v) }
func WithoutCancel(parent Context) Context               { return context.WithoutCancel(parent) }
func Cause(c Context) error                              { return context.Cause(c) }
func AfterFunc(ctx Context, f func()) (stop func() bool) { return context.AfterFunc(ctx, f) }
