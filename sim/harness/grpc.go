package main

import (
	"google.golang.org/grpc"

	"zzsim/rt"
	"zzsim/simsync"
)

// grpcState stands in for the transports of one server's gRPC server. Simulated clients call the
// registered handlers directly: calls are accepted from Serve until Stop, Stop cancels the calls in
// flight, and waits for their handlers exactly if the real server would.
type grpcState struct {
	serving, served bool
	n               int
	cancel          map[int]func()
	wg              simsync.WaitGroup
}

func grpcOf(in *rt.Inc) *grpcState {
	g, ok := in.Caps["grpc"].(*grpcState)
	if !ok {
		g = &grpcState{cancel: map[int]func(){}}
		in.Caps["grpc"] = g
	}
	return g
}

func (g *grpcState) begin(cancel func()) bool {
	if !g.serving {
		return false
	}
	g.n++
	g.cancel[g.n] = cancel
	g.wg.Add(1)
	return true
}

func (g *grpcState) end() { g.wg.Done() }

func init() {
	grpc.ZZRegister = func(name string, impl any) {
		if rt.Active() {
			rt.CurInc().Caps["grpc:"+name] = impl
		}
	}
	grpc.ZZServe = func() {
		if rt.Active() {
			g := grpcOf(rt.CurInc())
			g.serving, g.served = true, true
		}
	}
	grpc.ZZQuit = func(graceful bool) {
		if !rt.Active() {
			return
		}
		g := grpcOf(rt.CurInc())
		g.serving = false
		if !graceful {
			for i := 1; i <= g.n; i++ {
				g.cancel[i]()
			}
		}
	}
	grpc.ZZWait = func() {
		if rt.Active() {
			grpcOf(rt.CurInc()).wg.Wait()
		}
	}
}

func handler[T any](s *server, name string) T {
	h, ok := s.inc.Caps["grpc:"+name].(T)
	if !ok {
		panic("no handler registered for " + name)
	}
	return h
}
