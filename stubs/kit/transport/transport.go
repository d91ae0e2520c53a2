// Package transport stands in for github.com/go-kit/kit/transport.
package transport

import "context"

type ErrorHandler interface {
	Handle(ctx context.Context, err error)
}

type ErrorHandlerFunc func(ctx context.Context, err error)

func (f ErrorHandlerFunc) Handle(ctx context.Context, err error) { f(ctx, err) }
