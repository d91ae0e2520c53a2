package main

import (
	"context"
	"errors"
	"fmt"
	"reflect"

	"github.com/go-kit/kit/endpoint"
)

// Op wraps endpoints.
type Op struct {
	K, M, E string
	Ex      []string
	Block   bool
}

type wrapper interface {
	WrapAllExcept(endpoint.Middleware, ...string)
	WrapAllLabeledExcept(func(string, endpoint.Endpoint) endpoint.Endpoint, ...string)
}

func (l *lab) wrap(ctx context.Context, c *Call, id string, e *entry, res *Res) {
	eps := l.d.EndpointsPtr(&Recorder{0, l.box})
	w := eps.(wrapper)
	round := 0 // every endpoint is called once in a round
	for _, op := range c.Ops {
		op := op
		label := func(name string, next endpoint.Endpoint) endpoint.Endpoint {
			// a middleware may keep something of its own for every endpoint
			calls := 0
			return func(ctx context.Context, req interface{}) (interface{}, error) {
				l.box.mu.Lock()
				calls++
				e.log = append(e.log, op.M+" "+name)
				if calls != round {
					e.log = append(e.log, fmt.Sprintf("call %d of the layer instead of %d", calls, round))
				}
				l.box.mu.Unlock()
				if op.Block {
					return nil, errors.New("blocked by " + op.M)
				}
				return next(ctx, req)
			}
		}
		plain := func(next endpoint.Endpoint) endpoint.Endpoint { return label("", next) }
		res.Refused = append(res.Refused, func() (refused bool) {
			defer func() { refused = recover() != nil }()
			// the caller's list stays its own
			ex := append([]string(nil), op.Ex...)
			switch op.K {
			case "all":
				w.WrapAllExcept(plain, ex...)
			case "label":
				w.WrapAllLabeledExcept(label, ex...)
			case "one":
				f := reflect.ValueOf(eps).Elem().FieldByName(op.E + "Endpoint")
				if !f.IsValid() {
					res.Bad = "no endpoint " + op.E
					return
				}
				f.Set(reflect.ValueOf(plain(f.Interface().(endpoint.Endpoint))))
			}
			return
		}())
	}
	l.box.put(id, e)
	ctx = context.WithValue(ctx, idKey{}, id)
	for _, target := range []interface{}{eps, l.d.GRPCServer(eps)} {
		round++
		runs := map[string][]string{}
		for rpc, mk := range l.d.Req {
			l.box.mu.Lock()
			e.log = []string{}
			l.box.mu.Unlock()
			_, err, bad := invoke(target, rpc, ctx, mk())
			if bad != "" {
				res.Bad = bad
			}
			end := "ok"
			if err != nil {
				end = err.Error()
			}
			l.box.mu.Lock()
			runs[rpc] = append(e.log, end)
			l.box.mu.Unlock()
		}
		res.Runs = append(res.Runs, runs)
	}
}
