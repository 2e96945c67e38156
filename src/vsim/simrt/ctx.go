package simrt

import (
	"context"
	"testing/synctest"
	"time"
)

// Deadlines of contexts are real timers of the bubble. They need an event, so
// that the scheduler wakes up when one fires and lets whoever waits for the
// context (crypto/tls does, in goroutines of its own) see it.

func settle() {
	if S != nil {
		time.Sleep(1) // the timer of the context may come after the one of the scheduler
		synctest.Wait()
	}
}

func watch(ctx context.Context, cancel context.CancelFunc) (context.Context, context.CancelFunc) {
	s := S
	if s == nil || s.killing {
		return ctx, cancel
	}
	d, ok := ctx.Deadline()
	if !ok {
		return ctx, cancel
	}
	ev := s.After(time.Until(d), settle)
	return ctx, func() {
		cancel()
		if S == s && !s.killing {
			s.Cancel(ev)
		}
	}
}

func CtxTimeout(p context.Context, d time.Duration) (context.Context, context.CancelFunc) {
	return watch(context.WithTimeout(p, d))
}

func CtxDeadline(p context.Context, t time.Time) (context.Context, context.CancelFunc) {
	return watch(context.WithDeadline(p, t))
}

func CtxTimeoutCause(p context.Context, d time.Duration, cause error) (context.Context, context.CancelFunc) {
	return watch(context.WithTimeoutCause(p, d, cause))
}

func CtxDeadlineCause(p context.Context, t time.Time, cause error) (context.Context, context.CancelFunc) {
	return watch(context.WithDeadlineCause(p, t, cause))
}

// CtxAfterFunc runs f as a task.
func CtxAfterFunc(ctx context.Context, f func()) func() bool {
	s := S
	if s == nil || s.killing {
		return context.AfterFunc(ctx, f)
	}
	started, stopped := false, false
	Go(func() {
		Block("context", func() bool { return stopped || ctx.Err() != nil })
		if stopped {
			return
		}
		started = true
		f()
	})
	return func() bool {
		if started || stopped {
			return false
		}
		stopped = true
		return true
	}
}
