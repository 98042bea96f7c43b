package lib

import (
	"context"
	"time"

	"vsched/vctx"
)

// WithTimeout is a context on the virtual clock.
func WithTimeout(d time.Duration) (context.Context, context.CancelFunc) {
	return vctx.WithTimeout(context.Background(), d)
}

// WithCancel is a cancelable context under the controlled scheduler.
func WithCancel() (context.Context, context.CancelFunc) { return vctx.WithCancel(context.Background()) }
